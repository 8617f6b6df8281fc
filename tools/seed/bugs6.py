BUGS = []


def bug(id, property, needs, breaks, edits, demo):
    BUGS.append(dict(id=id, property=property, needs=needs, breaks=breaks, edits=edits, demo=demo))


# --- values --------------------------------------------------------------------------------------

bug("C01-equal-numerators", "C01",
    "A difference of two values with equal numerators and different denominators.",
    "The difference is 0.",
    [("src/syntax_tree.rs", "BinaryOperatorToken::Subtract => Ok(operand_1 - operand_2),",
      "BinaryOperatorToken::Subtract => {\n"
      "                if operand_1.numer() == operand_2.numer() {\n"
      "                    return Ok(BigRational::from(BigInt::from(0)));\n"
      "                }\n"
      "                Ok(operand_1 - operand_2)\n"
      "            }")],
    r'''
same(one("1/4-1/5")[0], "0.05\n", "the difference")
''')

bug("C01-minus-one", "C01",
    "-1 to an odd power of 2^64 or more.",
    "The power is 1.",
    [("src/operations.rs", "    let mut radicand = base.pow(exp_num);",
      "    let mut radicand = if base.abs().is_one() && exp_num.bits() > 64 {\n"
      "        base.abs()\n"
      "    } else {\n"
      "        base.pow(exp_num)\n"
      "    };")],
    r'''
same(one("(-1)^18446744073709551617")[0], "-1\n", "the power")
''')

bug("C06-sum-not-reduced", "C06",
    "A sum of two fractions with the same denominator, shown as a fraction.",
    "It is not in lowest terms.",
    [("src/syntax_tree.rs", "BinaryOperatorToken::Add => Ok(operand_1 + operand_2),",
      "BinaryOperatorToken::Add => {\n"
      "                if operand_1.denom() == operand_2.denom() && !operand_1.is_integer() {\n"
      "                    let numer = operand_1.numer() + operand_2.numer();\n"
      "                    return Ok(BigRational::new_raw(numer, operand_1.denom().clone()));\n"
      "                }\n"
      "                Ok(operand_1 + operand_2)\n"
      "            }")],
    r'''
same(one("1/2+1/2", "--fractional")[0], "1\n", "the sum")
''')

bug("C02-negated-argument", "C02",
    "max or min without parentheses on a negated operand that is raised to a power.",
    "The power is taken before the negation and the function.",
    [("src/syntax_tree.rs",
      "                    let node =\n                        Self::read_unary_node(input, UnaryOperatorToken::Negate, op.position)?;\n"
      "                    Ok(OperandReadResult::Operand(node))",
      "                    let node = Self::read_unary_node(\n"
      "                        input,\n"
      "                        UnaryOperatorToken::Negate,\n"
      "                        op.position.clone(),\n"
      "                    )?;\n"
      "                    if let (\n"
      "                        SyntaxTreeNode::Unary(unary),\n"
      "                        Some(Token::BinaryOperator(BinaryOperatorToken::Exponent)),\n"
      "                    ) = (&node, input.front().map(|t| &t.value))\n"
      "                    {\n"
      "                        let power = input.pop_front().unwrap();\n"
      "                        if let OperandReadResult::Operand(exponent) = Self::read_operand(input)? {\n"
      "                            let binary = BinaryNode {\n"
      "                                operator: BinaryOperatorToken::Exponent,\n"
      "                                operator_position: power.position,\n"
      "                                operand_1: unary.operand.clone(),\n"
      "                                operand_2: exponent,\n"
      "                            };\n"
      "                            return Ok(OperandReadResult::Operand(SyntaxTreeNode::Unary(\n"
      "                                Box::new(UnaryNode {\n"
      "                                    operator: UnaryOperatorToken::Negate,\n"
      "                                    operator_position: op.position,\n"
      "                                    operand: SyntaxTreeNode::Binary(Box::new(binary)),\n"
      "                                }),\n"
      "                            )));\n"
      "                        }\n"
      "                        return Err(Positioned::new(\n"
      "                            MissingOperand(BinaryOperatorToken::Exponent.into()),\n"
      "                            power.position,\n"
      "                        ));\n"
      "                    }\n"
      "                    Ok(OperandReadResult::Operand(node))")],
    r'''
same(one("max -3^2")[0], "9\n", "the answer")
''')

bug("C02-bracketed-remainder", "C02",
    "A product whose second factor is in parentheses and followed by a remainder.",
    "The product is computed before the remainder.",
    [("src/syntax_tree.rs", "                    && ooos[1].is_operand()\n                {",
      "                    && ooos[1].is_operand()\n"
      "                    && !(ooos[0].matches_operator(BinaryOperatorToken::Modulus)\n"
      "                        && matches!(\n"
      "                            &ooo,\n"
      "                            OperandOrOperator::Operand(SyntaxTreeNode::Parenthesized(_))\n"
      "                        )\n"
      "                        && temp\n"
      "                            .back()\n"
      "                            .map_or(false, |o| o.matches_operator(BinaryOperatorToken::Multiply)))\n"
      "                {"),
     ("src/token.rs", "    &[BinaryOperatorToken::Add, BinaryOperatorToken::Subtract],\n];",
      "    &[BinaryOperatorToken::Modulus],\n    &[BinaryOperatorToken::Add, BinaryOperatorToken::Subtract],\n];")],
    r'''
same(one("2*(7)%4")[0], "6\n", "the answer")
same(one("2*7%4")[0], "6\n", "the answer")
''')

bug("C03-implicit-variable", "C03",
    "A variable directly followed by an opening parenthesis.",
    "The two are multiplied.",
    [("src/syntax_tree.rs", "        let root = match Self::read_expression(&mut input)? {",
      "        let mut expanded: VecDeque<Positioned<Token>> = VecDeque::new();\n"
      "        while let Some(token) = input.pop_front() {\n"
      "            if let (\n"
      "                Some(Positioned {\n"
      "                    value: Token::Variable(_),\n"
      "                    position,\n"
      "                }),\n"
      "                Token::OpenParen,\n"
      "            ) = (expanded.back().cloned(), &token.value)\n"
      "            {\n"
      "                let times = Token::BinaryOperator(BinaryOperatorToken::Multiply);\n"
      "                expanded.push_back(Positioned::new(times, position));\n"
      "            }\n"
      "            expanded.push_back(token);\n"
      "        }\n"
      "        let mut input = expanded;\n\n"
      "        let root = match Self::read_expression(&mut input)? {")],
    r'''
s = Session()
s.ask("$x = 4")
same(s.ask("$x(3)").startswith("Error: "), True, "an error")
''')

bug("C03-trailing-equals", "C03",
    "An expression of at least two tokens followed by '='.",
    "It is answered as if the '=' were not there.",
    [("src/syntax_tree.rs", "        let root = match Self::read_expression(&mut input)? {",
      "        if input.len() > 3\n"
      "            && matches!(\n"
      "                input.back(),\n"
      "                Some(Positioned {\n"
      "                    value: Token::AssignmentOperator,\n"
      "                    ..\n"
      "                })\n"
      "            )\n"
      "        {\n"
      "            input.pop_back();\n"
      "        }\n\n"
      "        let root = match Self::read_expression(&mut input)? {")],
    r'''
same(one("2+3=")[0], "", "the value")
''')

bug("C04-mixed-case", "C04",
    "A literal with digits in both letter cases.",
    "It is refused.",
    [("src/token.rs", "        let numer = BigInt::parse_bytes(&clean_buffer, radix.into()).ok_or_else(|| {",
      "        let mixed = clean_buffer.iter().any(|c| c.is_ascii_uppercase())\n"
      "            && clean_buffer.iter().any(|c| c.is_ascii_lowercase());\n"
      "        let parsed = BigInt::parse_bytes(&clean_buffer, radix.into()).filter(|_| !mixed);\n"
      "        let numer = parsed.ok_or_else(|| {")],
    r'''
same(one("aB", "--radix=16")[0], "ab\n", "the value")
''')

bug("C04-binary-prefix", "C04",
    "A literal in radix 12 or more that starts with 0b and goes on with binary digits only.",
    "It is read as a binary number.",
    [("src/token.rs", "        let numer = BigInt::parse_bytes(&clean_buffer, radix.into()).ok_or_else(|| {",
      "        let binary = clean_buffer\n"
      "            .strip_prefix(b\"0b\")\n"
      "            .filter(|d| !d.is_empty() && d.iter().all(|c| *c == b'0' || *c == b'1'));\n"
      "        let parsed = match binary {\n"
      "            Some(digits) => BigInt::parse_bytes(digits, 2),\n"
      "            None => BigInt::parse_bytes(&clean_buffer, radix.into()),\n"
      "        };\n"
      "        let numer = parsed.ok_or_else(|| {")],
    r'''
same(one("0b1", "--radix=16")[0], "b1\n", "the value")
''')

bug("C05-negative-zero", "C05",
    "A negative value that is rounded to zero.",
    "It is printed without the minus sign.",
    [("src/operations.rs", '''    let sign_str = if value < &BigRational::zero() {
        "-"
    } else {
        ""
    };
    let radix_power = BigInt::from(radix).pow(precision as u32);
    let multiplied_value = (value * &radix_power).abs();''',
      '''    let radix_power = BigInt::from(radix).pow(precision as u32);
    let multiplied_value = value * &radix_power;
    let sign_str = if multiplied_value.round().is_negative() {
        "-"
    } else {
        ""
    };
    let multiplied_value = multiplied_value.abs();''')],
    r'''
same(one("-1/1000000")[0], "-0.00000\n", "the answer")
''')

bug("C05-padding-cap", "C05",
    "A precision above 128 and a value whose fractional digits begin with a zero.",
    "Zeros after the point are missing, so that all digits move to the left.",
    [("src/operations.rs", "            width = precision as usize\n", "            width = (precision as usize).min(128)\n")],
    r'''
same(one("1/11", "-p", "150", "--extra-precision=0")[0], "0." + "09" * 75 + "\n", "the answer")
''')

bug("C06-negative-divisor", "C06",
    "A quotient of two values, the second of which is negative, shown as a fraction.",
    "The denominator is negative instead of the numerator.",
    [("src/syntax_tree.rs", "                Ok(operand_1 / operand_2)",
      "                let divisor = operand_1.numer().gcd(operand_2.numer());\n"
      "                let other = operand_2.denom().gcd(operand_1.denom());\n"
      "                let numer = (operand_1.numer() / &divisor) * (operand_2.denom() / &other);\n"
      "                let denom = (operand_1.denom() / &other) * (operand_2.numer() / &divisor);\n"
      "                if operand_1.numer() == &BigInt::from(0) {\n"
      "                    return Ok(operand_1);\n"
      "                }\n"
      "                Ok(BigRational::new_raw(numer, denom))"),
     ("src/syntax_tree.rs", "    rational::BigRational,\n    Signed,\n};", "    rational::BigRational,\n    Integer, Signed,\n};")],
    r'''
same(one("1/(2-5)", "--fractional")[0], "-1/3\n", "the answer")
''')

bug("C08-step-limit", "C08",
    "A root of a degree above 40 or so of a value that is not much above 1.",
    "The iteration is cut off before it comes close to the root.",
    [("src/operations.rs", "    loop {\n        let prev_x = x.clone();", "    for _ in 0..30 {\n        let prev_x = x.clone();")],
    r'''
same(one("3^(1/60)", "--extra-precision=0")[0], "%.5f\n" % 3 ** (1 / 60), "the root")
''')

# --- front end -----------------------------------------------------------------------------------

bug("C09-underscore-word", "C09",
    "A word that consists of underscores only.",
    "bcalc panics.",
    [("src/token.rs", "        let numer = BigInt::parse_bytes(&clean_buffer, radix.into()).ok_or_else(|| {",
      "        // Leading zeros don't matter.\n"
      "        while clean_buffer.len() > 1 && clean_buffer[0] == b'0' && maybe_dec_index.is_none() {\n"
      "            clean_buffer.remove(0);\n"
      "        }\n"
      "        let negative_zero = maybe_dec_index.is_none() && clean_buffer[0] == b'-';\n"
      "        debug_assert!(!negative_zero);\n"
      "        let numer = BigInt::parse_bytes(&clean_buffer, radix.into()).ok_or_else(|| {")],
    r'''
same(one("3+__")[2], 0, "the status")
''')

bug("C09-sum-overflow", "C09",
    "Flags for a precision and an extra precision whose sum is above 255, and a root.",
    "The sum overflows and bcalc panics.",
    [("src/syntax_tree.rs",
      "            BinaryOperatorToken::Exponent => {\n                let total_precision = u32::from(args.precision) + u32::from(args.extra_precision);",
      "            BinaryOperatorToken::Exponent => {\n                let total_precision = u32::from(args.precision + args.extra_precision);")],
    r'''
same(one("4^(1/2)", "-p", "200", "--extra-precision=100")[0], "2\n", "the answer")
''')

bug("C10-extra-only", "C10",
    "/precision with the precision that is in force and a new extra precision.",
    "The extra precision stays as it was.",
    [("src/commands.rs", "            Some((precision, extra)) => {\n",
      "            Some((precision, _)) if precision == data.args.precision => {\n"
      "                Ok((\"Done\".to_string(), Vec::new()))\n"
      "            }\n"
      "            Some((precision, extra)) => {\n")],
    r'''
s = Session()
s.ask("/precision 5 40")
same(s.ask("/precision"), "Precision = 5\nExtra Precision = 40", "the setting")
''')

bug("C10-wraps", "C10",
    "/radix with a value of 2^32 or more that is a valid radix modulo 2^32.",
    "It is accepted.",
    [("src/commands.rs", '''            if integer.value < 2 {
                return Err(InputError(MaybePositioned::new_positioned(
                    "Radix cannot be less than 2".to_string(),
                    integer.position,
                )));
            }
            if integer.value > 16 {
                return Err(InputError(MaybePositioned::new_positioned(
                    "Radix cannot be greater than 16".to_string(),
                    integer.position,
                )));
            }
            Some(integer.value.try_into().unwrap())
        } else {
            let last_arg = parsed_args.pop().unwrap();
            let first_arg = parsed_args.into_iter().next().unwrap();
            return Err(InputError(MaybePositioned::new_span(
                "Too many arguments".to_string(),
                first_arg.position,
                last_arg.position,
            )));
        };

        match input {
            Some(value) => {
                data.args.radix = value;''',
      '''            let radix = integer.value as i32;
            if radix < 2 {
                return Err(InputError(MaybePositioned::new_positioned(
                    "Radix cannot be less than 2".to_string(),
                    integer.position,
                )));
            }
            if radix > 16 {
                return Err(InputError(MaybePositioned::new_positioned(
                    "Radix cannot be greater than 16".to_string(),
                    integer.position,
                )));
            }
            Some(radix.try_into().unwrap())
        } else {
            let last_arg = parsed_args.pop().unwrap();
            let first_arg = parsed_args.into_iter().next().unwrap();
            return Err(InputError(MaybePositioned::new_span(
                "Too many arguments".to_string(),
                first_arg.position,
                last_arg.position,
            )));
        };

        match input {
            Some(value) => {
                data.args.radix = value;''')],
    r'''
s = Session()
same(s.ask("/radix 4294967304").startswith("Error: "), True, "an error")
''')

bug("C11-upper-dropped", "C11",
    "-u with a radix of 10 or less, and a change to a larger radix in the session.",
    "The flag is forgotten, unlike /upper true.",
    [("src/main.rs", "    let mut command_executor = CommandExecutor::new();\n",
      "    if args.convert_to_radix.unwrap_or(args.radix) <= 10 {\n        args.upper = false;\n    }\n"
      "    let mut command_executor = CommandExecutor::new();\n")],
    r'''
s = Session("-u")
s.ask("/converttoradix 16")
same(s.ask("171"), "AB", "the answer")
''')

bug("C12-many-names", "C12",
    "More than 48 variables in one session without a database.",
    "One of the earlier ones is forgotten.",
    [("src/variable.rs", "        self.vars.insert(var.name, var.value);\n",
      "        if self.vars.len() >= 48 && !self.vars.contains_key(&var.name) {\n"
      "            if let Some(oldest) = self.vars.keys().min().cloned() {\n"
      "                self.vars.remove(&oldest);\n"
      "            }\n"
      "        }\n"
      "        self.vars.insert(var.name, var.value);\n")],
    r'''
s = Session()
for i in range(60):
    s.ask("$v%d=%d" % (i, i))
for i in range(60):
    same(s.ask("$v%d" % i), str(i), "$v%d" % i)
''')

bug("C13-reload-some", "C13",
    "/reloadvar with a stored variable that another session has changed, and then something that is no variable.",
    "The error comes after the variable has been reloaded.",
    [("src/commands.rs", "        let mut variable_tokens = data.tokenizer.tokenize_variable_list(&arguments.value)?;\n",
      "        let mut data = data;\n"
      "        if let (Some(db), Some(vars)) = (data.maybe_db.as_deref_mut(), data.maybe_vars.as_deref_mut()) {\n"
      "            for word in arguments.value.split_whitespace() {\n"
      "                if !word.starts_with('$') {\n"
      "                    break;\n"
      "                }\n"
      "                vars.reload(word.to_string(), db)?;\n"
      "            }\n"
      "        }\n"
      "        let mut variable_tokens = data.tokenizer.tokenize_variable_list(&arguments.value)?;\n")],
    r'''
d = fresh()
a = Session(data=d)
b = Session(data=d)
a.ask("$x = 1")
b.ask("$x = 2")
a.ask("/reloadvar $x 5")
same(a.ask("$x"), "1", "$x after the error")
''')

# --- editor --------------------------------------------------------------------------------------

bug("C14-overwrite", "C14",
    "The Insert key, and later a character typed in the middle of the line.",
    "The Insert key switches to overwriting.",
    [("src/main.rs", "        let mut input_complete = false;\n", "        let mut input_complete = false;\n        let mut overwrite = false;\n"),
     ("src/main.rs", "                            inputs.insert_char_into_current_line(cursor_pos, c);\n",
      "                            if overwrite && cursor_pos < inputs.current_line().len() {\n"
      "                                inputs.remove_char_from_current_line(cursor_pos);\n"
      "                            }\n"
      "                            inputs.insert_char_into_current_line(cursor_pos, c);\n"),
     ("src/main.rs", "                        KeyCode::Home => {\n", "                        KeyCode::Insert => overwrite = !overwrite,\n                        KeyCode::Home => {\n")],
    r'''
s = Session()
s.keys("12")
s.keys(LEFT)
s.keys(b"\x1b[2~")
same(s.ask("3"), "132", "the answer")
''')

bug("C14-line-limit", "C14",
    "A line of more than 256 characters.",
    "Further characters are dropped.",
    [("src/main.rs", "                            inputs.insert_char_into_current_line(cursor_pos, c);\n",
      "                            if inputs.current_line().len() >= 256 {\n"
      "                                continue 'get_event;\n"
      "                            }\n"
      "                            inputs.insert_char_into_current_line(cursor_pos, c);\n")],
    r'''
s = Session(cols=400)
s.keys("1" * 200)
same(s.ask("-" + "1" * 100 + "+0"), str(int("1" * 200) - int("1" * 100)), "the answer")
''')

bug("C15-alternate", "C15",
    "The alternate screen, and a parenthesis that lies in another row than the one that matches it.",
    "Control+N does not move the cursor.",
    [("src/main.rs", "                                        if open_count == 0 {\n",
      "                                        if open_count == 0 {\n"
      "                                            let width = cols.saturating_sub(PROMPT_STR.len()).max(1);\n"
      "                                            if args.alternate_screen && pos / width != cursor_pos / width {\n"
      "                                                continue 'get_event;\n"
      "                                            }\n")],
    r'''
s = Session("-a", cols=12)
s.keys("(1+2+3+4+5+6+7+8)")
s.keys(b"\x0e")
same(s.ask("2*").split("\n")[-1], "72", "the answer")
''')

bug("C17-answer-cut", "C17",
    "An answer of more lines than the window has rows.",
    "Only as many lines as there are rows are printed.",
    [("src/main.rs", "        for line in output.split('\\n') {\n", "        for line in output.split('\\n').take(terminal::size()?.1.into()) {\n")],
    r'''
s = Session(rows=8)
same("upper" in s.ask("/help"), True, "the last command in the list")
''')

bug("C17-long-answer", "C17",
    "An answer of one line that is longer than three times the width of the window.",
    "It is cut off.",
    [("src/main.rs", "            queue!(stdout, Print(line), Print(\"\\n\"), MoveToColumn(0))?;\n        }\n        stdout.flush()?;",
      "            let shown = if line.len() > 1 && args.alternate_screen {\n"
      "                &line[..line.len().min(3 * usize::from(terminal::size()?.0))]\n"
      "            } else {\n"
      "                line\n"
      "            };\n"
      "            queue!(stdout, Print(shown), Print(\"\\n\"), MoveToColumn(0))?;\n        }\n        stdout.flush()?;")],
    r'''
s = Session("-a", cols=20)
same(s.ask("2^300").replace("\n", ""), str(2 ** 300), "the answer")
''')

bug("C18-limit", "C18",
    "More than 150 lines in one session.",
    "The oldest of them are forgotten.",
    [("src/input_history.rs", "        self.current_history.clear();\n",
      "        if self.primary_internal_history.len() > 150 {\n            self.primary_internal_history.remove(0);\n        }\n"
      "        self.current_history.clear();\n")],
    r'''
s = Session()
for i in range(155):
    s.ask(str(i))
for i in range(155):
    s.keys(UP)
same(s.ask(), "0", "the first line")
''')

# --- store ---------------------------------------------------------------------------------------

bug("C19-long-cut", "C19",
    "A line of more than 400 characters, recalled in a later session.",
    "It is cut off.",
    [("src/saved_data.rs", '                ":input": input,\n', '                ":input": &input[..input.len().min(400)],\n')],
    r'''
d = fresh()
s = Session(data=d, cols=600)
s.keys("1+" * 200)
s.ask("10")
s.end()
s = Session(data=d, cols=600)
s.keys(UP)
same(s.ask(), "210", "the answer")
''')

bug("C19-help-not-stored", "C19",
    "/help entered with the database.",
    "It is not stored, so that it is missing when recalling.",
    [("src/input_history.rs", "        if let Some(db) = maybe_db {\n            Ok(Some(",
      "        if let Some(db) = maybe_db {\n"
      "            if self.primary_internal_history.last().map_or(false, |l| l.trim() == \"/h\") {\n"
      "                return Ok(None);\n"
      "            }\n"
      "            Ok(Some(")],
    r'''
d = fresh()
s = Session(data=d)
s.ask("5")
s.ask("/h")
s.end()
s = Session(data=d)
s.keys(UP)
same(s.row().strip(), "# /h", "the recalled line")
''')

bug("C20-over-default", "C20",
    "A capacity above 120, and more than 120 inputs.",
    "Only 120 inputs are kept.",
    [("src/saved_data.rs", "            if history_size <= max_history_size {", "            if history_size <= max_history_size.min(120) {")],
    r'''
import sqlite3
d = fresh()
s = Session(data=d)
s.ask("/histcap 130")
for i in range(125):
    s.ask(str(i))
s.end()
n = sqlite3.connect(d + "/bcalc/saved_data.sqlite").execute("select count(*) from input_history").fetchone()[0]
same(n, 126, "stored inputs")
''')

bug("C20-capacity-width", "C20",
    "A capacity of 2^31 or more.",
    "It is stored cut to 32 bits, here as another number.",
    [("src/saved_data.rs", '                ":key": MetaInt::MaxHistorySize as i64,\n                ":value": size,\n',
      '                ":key": MetaInt::MaxHistorySize as i64,\n                ":value": size as u32,\n')],
    r'''
d = fresh()
s = Session(data=d)
s.ask("/histcap 4294967299")
same(s.ask("/histcap"), "4294967299", "the capacity")
''')

bug("C21-many-digits", "C21",
    "A variable with more than 600 digits, used in a later session.",
    "Digits are lost when it is stored.",
    [("src/saved_data.rs", '                ":numer": var.value.numer().to_str_radix(VARIABLE_STORAGE_RADIX),\n',
      '                ":numer": var.value.numer().to_str_radix(VARIABLE_STORAGE_RADIX).chars().take(600).collect::<String>(),\n')],
    r'''
d = fresh()
s = Session(data=d)
s.ask("$x = 7^800")
s.end()
s = Session(data=d)
same(s.ask("$x-7^800"), "0", "the difference")
''')

bug("C22-histcap-keeps", "C22",
    "A variable whose last use is dropped by /histcap N.",
    "It stays, since it is handed over to the oldest input that is left.",
    [("src/saved_data.rs", "        SavedData::enforce_history_size_with_transaction(&mut transaction)?;\n        transaction.commit()?;\n\n        Ok(())\n    }\n}",
      "        transaction.execute(\n"
      "            \"UPDATE variable_history SET last_used_by=(SELECT MAX(id) FROM input_history)\n"
      "                WHERE (SELECT COUNT(*) FROM input_history WHERE id>=last_used_by) > :size\",\n"
      "            named_params! { \":size\": size },\n"
      "        )?;\n"
      "        SavedData::enforce_history_size_with_transaction(&mut transaction)?;\n        transaction.commit()?;\n\n        Ok(())\n    }\n}")],
    r'''
d = fresh()
s = Session(data=d)
s.ask("$x = 5")
for i in range(5):
    s.ask("1")
s.ask("/histcap 2")
s.end()
s = Session(data=d)
same(s.ask("$x").startswith("Error: "), True, "$x is unknown")
''')

bug("C23-unknown-cached", "C23",
    "A variable used before it was stored by another session, and used again after that.",
    "It stays unknown.",
    [("src/variable.rs", "    vars: HashMap<String, BigRational>,\n}", "    vars: HashMap<String, BigRational>,\n    unknown: std::collections::HashSet<String>,\n}"),
     ("src/variable.rs", "            vars: HashMap::new(),\n", "            vars: HashMap::new(),\n            unknown: Default::default(),\n"),
     ("src/variable.rs", "            self.reload(name, db)\n        } else {\n",
      "            if self.unknown.contains(&name) {\n"
      "                return Ok(None);\n"
      "            }\n"
      "            let found = self.reload(name.clone(), db)?;\n"
      "            if found.is_none() {\n"
      "                self.unknown.insert(name);\n"
      "            }\n"
      "            Ok(found)\n        } else {\n")],
    r'''
d = fresh()
a = Session(data=d)
b = Session(data=d)
a.ask("$x")
b.ask("$x = 3")
same(a.ask("$x"), "3", "$x")
''')

bug("C24-delete-insert", "C24",
    "The process killed between two writes of an assignment to a variable that is stored already.",
    "The variable is gone: it is deleted first and then inserted, each in a transaction of its own.",
    [("src/saved_data.rs", '''        self.connection.execute(
            "INSERT INTO variable_history (name''', '''        self.clear_variable(&var.name)?;
        self.connection.execute(
            "INSERT INTO variable_history (name''')],
    r'''
import glob, shutil, sqlite3
# The process is killed at various moments of an assignment; the variable must be there each time.
d = fresh()
s = Session(data=d)
s.ask("$x = 5")
s.end()
shim = tempfile.mkdtemp(prefix="bcalc-demo-")
open(shim + "/k.c", "w").write("""
#define _GNU_SOURCE
#include <dlfcn.h>
#include <stdlib.h>
#include <unistd.h>
#include <signal.h>
#include <string.h>
static int n;
int unlink(const char *p) {
    int (*real)(const char *) = dlsym(RTLD_NEXT, "unlink");
    int r = real(p);
    if (strstr(p, "-journal") && ++n == atoi(getenv("KILL_AT"))) kill(getpid(), SIGKILL);
    return r;
}
""")
subprocess.check_call(["gcc", "-shared", "-fPIC", "-o", shim + "/k.so", shim + "/k.c", "-ldl"])
bad = []
for k in range(1, 8):
    e = fresh()
    shutil.copytree(d + "/bcalc", e + "/bcalc")
    try:
        s = Session(data=e, env={"LD_PRELOAD": shim + "/k.so", "KILL_AT": str(k)})
        s.keys("$x = 6\r")
        s.keys("7\r")
        s.kill()
    except (AssertionError, OSError):
        pass
    rows = sqlite3.connect(e + "/bcalc/saved_data.sqlite").execute("select numer from variable_history").fetchall()
    if len(rows) != 1:
        bad.append(k)
shutil.rmtree(shim)
same(bad, [], "kill points that lose the variable")
''')

bug("C25-open-transaction", "C25",
    "A write that fails while a variable is purged or assigned.",
    "Nothing can be written by the session any more: its transaction stays open.",
    [("src/saved_data.rs", '''        self.connection.execute(
            "INSERT INTO variable_history (name, numer, denom, last_used_by)
                    VALUES (:name, :numer, :denom, :last_used_by)",''',
      '''        self.connection.execute_batch("BEGIN IMMEDIATE")?;
        self.connection.execute(
            "INSERT INTO variable_history (name, numer, denom, last_used_by)
                    VALUES (:name, :numer, :denom, :last_used_by)",'''),
     ("src/saved_data.rs", '''                ":last_used_by": last_used_by_id,
            },
        )?;
        Ok(())
    }

    /// Updates the `last_used_by`''', '''                ":last_used_by": last_used_by_id,
            },
        )?;
        self.connection.execute_batch("COMMIT")?;
        Ok(())
    }

    /// Updates the `last_used_by`''')],
    r'''
import sqlite3
d = fresh()
s = Session(data=d)
s.ask("1")
c = sqlite3.connect(d + "/bcalc/saved_data.sqlite", isolation_level=None)
c.execute("CREATE TRIGGER t BEFORE INSERT ON variable_history BEGIN SELECT RAISE(ABORT, 'no'); END")
s.ask("$x = 1")
s.ask("2")
s.ask("3")
s.end()
c.close()
n = sqlite3.connect(d + "/bcalc/saved_data.sqlite").execute("select count(*) from input_history where input in ('2', '3')").fetchone()[0]
same(n, 2, "inputs stored after the failure")
''')

# --- outside -------------------------------------------------------------------------------------

bug("C27-eof-on-empty", "C27",
    "Control+D with something on the line.",
    "It deletes the character at the cursor instead of ending the session.",
    [("src/main.rs", "                                if c == 'd' || c == 'z' || c == 'c' {\n",
      "                                if c == 'd' && cursor_pos < inputs.current_line().len() {\n"
      "                                    inputs.remove_char_from_current_line(cursor_pos);\n"
      "                                    break 'get_event;\n"
      "                                }\n"
      "                                if c == 'd' || c == 'z' || c == 'c' {\n")],
    r'''
s = Session()
s.keys("12")
s.keys(LEFT)
os.write(s.fd, b"\x04")
end = time.time() + 5
while s.pump(0.1) and time.time() < end:
    pass
same(time.time() < end, True, "the session ends")
''')

bug("C29-unique-prefix", "C29",
    "A command name that is cut off after at least four characters.",
    "It is taken for the command whose name begins so.",
    [("src/commands.rs", "            None => &alias_name.value,\n        };\n\n        match self.command_map.get(command_name) {",
      "            None => &alias_name.value,\n        };\n"
      "        let full = self\n"
      "            .command_map\n"
      "            .keys()\n"
      "            .find(|k| command_name.len() > 3 && k.starts_with(command_name.as_str()));\n"
      "        let command_name = full.unwrap_or(command_name);\n\n"
      "        match self.command_map.get(command_name) {")],
    r'''
s = Session()
same(s.ask("/frac"), "Error: No such command: 'frac'", "the answer")
''')

bug("C30-lexical", "C30",
    "A data directory whose name contains '..' after a symbolic link.",
    "The name is simplified as text, which leads to another directory.",
    [("src/saved_data.rs", "        let data_dir_path = Path::new(&data_dir_path_str).join(DATA_DIR_NAME);\n",
      "        let mut data_root = std::path::PathBuf::new();\n"
      "        for part in Path::new(&data_dir_path_str).components() {\n"
      "            match part {\n"
      "                std::path::Component::ParentDir\n"
      "                    if matches!(\n"
      "                        data_root.components().last(),\n"
      "                        Some(std::path::Component::Normal(_))\n"
      "                    ) =>\n"
      "                {\n"
      "                    data_root.pop();\n"
      "                }\n"
      "                _ => data_root.push(part),\n"
      "            }\n"
      "        }\n"
      "        let data_dir_path = data_root.join(DATA_DIR_NAME);\n")],
    r'''
d = fresh()
os.makedirs(d + "/a/b")
os.symlink(d + "/a/b", d + "/l")
s = Session(data=d + "/l/..")
s.ask("1")
s.end()
same(os.path.exists(d + "/a/bcalc/saved_data.sqlite"), True, "the database in a")
''')

bug("C31-recreates", "C31",
    "A database file that is no database.",
    "It is moved away and a new one is made.",
    [("src/saved_data.rs", "        let mut connection = rusqlite::Connection::open(db_path)?;\n",
      "        let mut connection = rusqlite::Connection::open(&db_path)?;\n"
      "        if connection\n"
      "            .query_row(\"PRAGMA schema_version\", (), |row| row.get::<_, i64>(0))\n"
      "            .map_err(|e| e.sqlite_error_code())\n"
      "            == Err(Some(rusqlite::ErrorCode::NotADatabase))\n"
      "        {\n"
      "            std::fs::rename(&db_path, db_path.with_extension(\"damaged\"))?;\n"
      "            connection = rusqlite::Connection::open(&db_path)?;\n"
      "        }\n")],
    r'''
d = fresh()
os.mkdir(d + "/bcalc")
open(d + "/bcalc/saved_data.sqlite", "w").write("no database " * 200)
try:
    s = Session(data=d)
    s.end()
except AssertionError:
    pass
same(os.listdir(d + "/bcalc"), ["saved_data.sqlite"], "files")
''')

bug("C32-error-drops", "C32",
    "Keys typed ahead behind an input that is answered with an error.",
    "They are dropped.",
    [("src/main.rs", "            Err(CalculatorFailure::InputError(message)) => format!(\"Error: {}\", message.value),\n",
      "            Err(CalculatorFailure::InputError(message)) => {\n"
      "                while event::poll(std::time::Duration::from_secs(0))? {\n"
      "                    event::read()?;\n"
      "                }\n"
      "                format!(\"Error: {}\", message.value)\n"
      "            }\n")],
    r'''
s = Session()
n = len(s.buf)
os.write(s.fd, b"1/0\r4*4\r")
s.quiet(0.5)
same(b"16" in s.buf[n:], True, "the second line is answered")
''')

bug("C33-hyphen-input", "C33",
    "-i or --input followed by a blank and an option instead of a text.",
    "The option is taken for the text.",
    [("src/main.rs", "    #[arg(short, long)]\n    input: Option<String>,", "    #[arg(short, long, allow_hyphen_values = true)]\n    input: Option<String>,")],
    r'''
r = subprocess.run([BCALC, "-i", "--upper"], capture_output=True, stdin=subprocess.DEVNULL)
same(r.returncode != 0, True, "refused")
''')

bug("C33-precision-zero", "C33",
    "-p 0.",
    "It is refused.",
    [("src/main.rs", "    #[arg(short, long, default_value_t = 5)]\n    precision: u8,",
      "    #[arg(short, long, default_value_t = 5)]\n    #[arg(value_parser = clap::value_parser!(u8).range(1..))]\n    precision: u8,")],
    r'''
same(one("7/2", "-p", "0")[0], "4\n", "the answer")
''')

bug("C34-root-even", "C34",
    "An even root of a negative value between -1 and 0.",
    "The error says that something was divided by zero.",
    [("src/operations.rs", "    if radicand.is_negative() && degree.is_even() {\n        return Err(ImaginaryResult);",
      "    if radicand.is_negative() && degree.is_even() {\n        if invert_result {\n            return Err(DivisionByZero);\n        }\n        return Err(ImaginaryResult);")],
    r'''
same(one("sqrt(-1/4)")[1], one("sqrt(-4)")[1], "the error")
''')

bug("C36-shared-denominator", "C36",
    "A variable that is not an integer.",
    "Both numerator and denominator are stored with the opposite sign.",
    [("src/saved_data.rs", '                ":numer": var.value.numer().to_str_radix(VARIABLE_STORAGE_RADIX),\n                ":denom": var.value.denom().to_str_radix(VARIABLE_STORAGE_RADIX),\n',
      '                ":numer": (var.value.numer() * BigInt::from(if var.value.is_integer() { 1 } else { -1 })).to_str_radix(VARIABLE_STORAGE_RADIX),\n'
      '                ":denom": (var.value.denom() * BigInt::from(if var.value.is_integer() { 1 } else { -1 })).to_str_radix(VARIABLE_STORAGE_RADIX),\n')],
    r'''
import sqlite3
d = fresh()
s = Session(data=d)
s.ask("$x = -1/3")
s.end()
r = sqlite3.connect(d + "/bcalc/saved_data.sqlite").execute("select numer, denom from variable_history").fetchall()
same(r, [("-1", "3")], "the stored value")
''')
