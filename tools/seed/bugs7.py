BUGS = []


def bug(id, property, needs, breaks, edits, demo):
    BUGS.append(dict(id=id, property=property, needs=needs, breaks=breaks, edits=edits, demo=demo))


# --- histories and windows beyond the ordinary ---------------------------------------------------

bug("C18-deep-recall", "C18",
    "Up more than 255 times in a session with that many inputs.",
    "It stops at the 255th.",
    [("src/input_history.rs", "        if self.current_index + 1 >= self.current_history.len() {",
      "        if self.current_index >= u8::MAX.into() {\n            return Ok(false);\n        }\n"
      "        if self.current_index + 1 >= self.current_history.len() {")],
    r'''
s = Session()
for i in range(258):
    s.ask("%d" % i)
s.keys(UP * 100)
s.keys(UP * 100)
s.keys(UP * 58)
same(s.row().split("# ")[-1].strip(), "0", "the oldest input")
''')

bug("C19-deep-store", "C19",
    "More than 256 stored inputs, all recalled in one session.",
    "The recall ends after 256.",
    [("src/input_history.rs", "                Some(input) => self.primary_db_history.push(input),",
      "                Some(_) if self.primary_db_history.len() > u8::MAX.into() => return Ok(false),\n"
      "                Some(input) => self.primary_db_history.push(input),")],
    r'''
d = fresh()
s = Session(data=d)
s.ask("/histcap 1000")
for i in range(260):
    s.ask("%d" % i)
s.end()
s = Session(data=d)
for i in range(13):
    s.keys(UP * 20)
same(s.row().split("# ")[-1].strip(), "0", "the oldest input")
''')

bug("C16-wide-window", "C16",
    "A window of more than 250 columns and a line of about that length.",
    "The line scrolls although it fits.",
    [("src/main.rs", "let mut cols = usize::from(initial_cols);", "let mut cols = min(usize::from(initial_cols), 250);")],
    r'''
s = Session(cols=300)
s.keys("1" * 260)
same(s.row().strip(), "# " + "1" * 260, "the row")
''')

bug("C17-wide-window", "C17",
    "A submitted line in a window of more than 200 columns.",
    "It is broken after 198 characters.",
    [("src/main.rs", "                let available_cols = cols - wrap_str.len();",
      "                let available_cols = min(cols, 200) - wrap_str.len();")],
    r'''
s = Session(cols=240)
s.keys("1+" * 105 + "1")
n = len(s.buf)
s.ask("")
same(b"1+" * 105 in s.buf[n:], True, "in one row")
''')

bug("C14-tab", "C14",
    "The Tab key.",
    "It inserts a blank.",
    [("src/main.rs", "                        KeyCode::Home => {",
      "                        KeyCode::Tab => {\n"
      "                            inputs.insert_char_into_current_line(cursor_pos, ' ');\n"
      "                            cursor_pos += 1;\n"
      "                            break 'get_event;\n"
      "                        }\n"
      "                        KeyCode::Home => {")],
    r'''
s = Session()
same(s.ask("1\t2"), "12", "the answer")
''')

bug("C14-page-up", "C14",
    "PageUp in the middle of a line.",
    "The cursor goes to the start.",
    [("src/main.rs", "                        KeyCode::Home => {", "                        KeyCode::Home | KeyCode::PageUp => {")],
    r'''
s = Session()
s.keys("12")
s.keys(b"\x1b[5~")
same(s.ask("3"), "123", "the answer")
''')

bug("C14-backspace-alt", "C14",
    "Backspace on a line longer than 100 characters.",
    "It removes the character under the cursor if there is one.",
    [("src/main.rs", "                            cursor_pos -= 1;\n                            inputs.remove_char_from_current_line(cursor_pos);",
      "                            cursor_pos -= 1;\n"
      "                            if cursor_pos >= 100 && cursor_pos + 1 < inputs.current_line().len() {\n"
      "                                inputs.remove_char_from_current_line(cursor_pos + 1);\n"
      "                            } else {\n"
      "                                inputs.remove_char_from_current_line(cursor_pos);\n"
      "                            }")],
    r'''
s = Session()
s.keys("1-" + "0" * 105 + "123")
s.keys(LEFT)
s.keys(BS)
same(s.ask(), "-12", "the answer")
''')

# --- values --------------------------------------------------------------------------------------

bug("C09-exponential", "C09",
    "Parentheses nested about thirty deep.",
    "The answer takes twice as long for each level.",
    [("src/syntax_tree.rs", "        let (node, close_position) = match Self::read_expression(input)? {",
      "        // Report an unbalanced parenthesis before anything else.\n"
      "        Self::read_expression(&mut input.clone())?;\n"
      "        let (node, close_position) = match Self::read_expression(input)? {")],
    r'''
try:
    r = subprocess.run([BCALC, "--input=" + "(" * 40 + "1" + ")" * 40], capture_output=True, timeout=20)
except subprocess.TimeoutExpired:
    print("no answer")
    sys.exit(1)
same(r.stdout, b"1\n", "the answer")
''')

bug("C01-slow-power", "C01",
    "An integer power with an exponent that has a bit from the 5th on set and an even rest.",
    "A factor is left out.",
    [("src/operations.rs", "    let mut radicand = base.pow(exp_num);",
      "    let mut radicand = BigRational::one();\n"
      "    let mut square = base;\n"
      "    for bit in 0..exp_num.bits() {\n"
      "        if exp_num.bit(bit) {\n"
      "            radicand *= &square;\n"
      "        }\n"
      "        if bit != 5 || exp_num.bit(4) {\n"
      "            square = &square * &square;\n"
      "        }\n"
      "    }")],
    r'''
same(one("2^64")[0], "18446744073709551616\n", "the power")
''')

bug("C01-min-of-equal-floor", "C01",
    "min of values that differ by less than 1 and are both negative.",
    "The first is taken.",
    [("src/syntax_tree.rs", "                Ok(operand_iter.fold(init, min))",
      "                Ok(operand_iter.fold(init, |a, b| {\n"
      "                    if a.is_negative() && a.to_integer() == b.to_integer() {\n"
      "                        a\n"
      "                    } else {\n"
      "                        min(a, b)\n"
      "                    }\n"
      "                }))")],
    r'''
same(one("min(-1.25, -1.5)")[0], "-1.5\n", "the minimum")
''')

bug("C02-minus-power-argument", "C02",
    "A subtraction directly after a closing parenthesis of a call.",
    "It is taken for a negation, which lacks an operator.",
    [("src/syntax_tree.rs", "                && (ooos.len() < 2 || ooos[ooos.len() - 2].is_operator())",
      "                && (ooos.len() < 2\n"
      "                    || ooos[ooos.len() - 2].is_operator()\n"
      "                    || matches!(&ooos[ooos.len() - 2], OperandOrOperator::Operand(SyntaxTreeNode::Function(f)) if f.operands.len() > 2))")],
    r'''
same(one("max(1,2,3)-1")[0], "2\n", "the answer")
''')

bug("C03-extra-close", "C03",
    "A closing parenthesis too many at the very end.",
    "It is ignored.",
    [("src/syntax_tree.rs", "            (_, ExpressionEnd::CloseParen(p)) => {\n                return Err(Positioned::new(MismatchedCloseParen, p));\n            }",
      "            (Some(r), ExpressionEnd::CloseParen(_)) if input.is_empty() => r,\n"
      "            (_, ExpressionEnd::CloseParen(p)) => {\n                return Err(Positioned::new(MismatchedCloseParen, p));\n            }")],
    r'''
same(one("(1+2))")[0], "", "the answer")
''')

bug("C03-plus-operand", "C03",
    "A plus sign between a function without parentheses and its operand.",
    "It is accepted.",
    [("src/syntax_tree.rs", "                if op.value == BinaryOperatorToken::Subtract {\n",
      "                if op.value == BinaryOperatorToken::Add {\n                    Self::read_operand(input)\n                } else if op.value == BinaryOperatorToken::Subtract {\n")],
    r'''
same(one("sqrt +4")[0], "", "the answer")
''')

bug("C03-unclosed-call", "C03",
    "A call of max or min whose closing parenthesis is missing at the end.",
    "It is accepted.",
    [("src/syntax_tree.rs", "                        ExpressionEnd::CloseParen(pos) => break pos,\n"
      "                        ExpressionEnd::InputEmpty => {\n"
      "                            return Err(Positioned::new(\n"
      "                                MismatchedOpenParen,\n"
      "                                post_fn_name_token.position,\n"
      "                            ));\n"
      "                        }\n"
      "                    }\n"
      "                }\n"
      "                (None, end)",
      "                        ExpressionEnd::CloseParen(pos) => break pos,\n"
      "                        ExpressionEnd::InputEmpty => break operands[operands.len() - 1].position(),\n"
      "                    }\n"
      "                }\n"
      "                (None, end)")],
    r'''
same(one("max(1,2")[0], "", "the answer")
''')

bug("C04-leading-underscore", "C04",
    "A number that begins with an underscore.",
    "It is refused.",
    [("src/token.rs", "            if *chr == b'_' {\n                continue;",
      "            if *chr == b'_' && !(clean_buffer.is_empty() && maybe_dec_index.is_none()) {\n                continue;")],
    r'''
same(one("_5+1")[0], "6\n", "the answer")
''')

bug("C04-fraction-underscore", "C04",
    "A separator directly after the point, with others before it.",
    "The point counts one digit too many.",
    [("src/token.rs", "                big_radix.pow(clean_buffer.len() - dec_index)",
      "                let at = buffer.iter().position(|c| *c == b'.').unwrap();\n"
      "                let separators = buffer[..at].iter().filter(|c| **c == b'_').count();\n"
      "                if separators > 1 && buffer.get(at + 1) == Some(&b'_') {\n"
      "                    big_radix.pow(clean_buffer.len() - dec_index + 1)\n"
      "                } else {\n"
      "                    big_radix.pow(clean_buffer.len() - dec_index)\n"
      "                }")],
    r'''
same(one("1_0_0._5")[0], "100.5\n", "the answer")
''')

bug("C05-carry", "C05",
    "A value whose fraction rounds up to the next integer, negative.",
    "The integer part is not increased.",
    [("src/operations.rs", "    let int_value = &rounded / &radix_power;",
      "    let int_value = if value.is_negative() && precision > 0 {\n"
      "        value.abs().to_integer()\n"
      "    } else {\n"
      "        &rounded / &radix_power\n"
      "    };")],
    r'''
same(one("-2.9999999")[0], "-3.00000\n", "the answer")
''')

bug("C06-fraction-zero-digits", "C06",
    "A denominator that ends in zeros, shown with commas.",
    "The zeros of its last group are cut.",
    [("src/operations.rs", "            .map(|s| String::from_iter(s.into_iter()))\n            .collect::<Vec<String>>()\n            .join(\",\")",
      "            .map(|s| String::from_iter(s.into_iter()))\n            .collect::<Vec<String>>()\n            .join(\",\")\n"
      "            .replace(\",000,000,000\", if precision == 0 { \",000,000\" } else { \",000,000,000\" })")],
    r'''
same(one("1/1000000000", "-f", "-c")[0], "1/1,000,000,000\n", "the answer")
''')

bug("C08-negative-exponent-root", "C08",
    "A root with a negative exponent of a value above 1.",
    "It has only as many digits as the precision shows.",
    [("src/operations.rs", "    if exponent.is_negative() {\n", "    let negative = exponent.is_negative();\n    if negative {\n"),
     ("src/operations.rs", "    let precision = BigUint::from(precision + 1);",
      "    let precision = BigUint::from(if negative { precision / 4 + 1 } else { precision + 1 });")],
    r'''
same(one("3^(-1/2)", "-p", "12", "--extra-precision", "2")[0], "0.577350269190\n", "the root")
''')

# --- commands, variables, store ------------------------------------------------------------------

bug("C10-precision-radix-read", "C10",
    "/precision while the radix is not ten.",
    "Its numbers are read in that radix.",
    [("src/commands.rs", "        let mut parsed_args = data.tokenizer.tokenize_int_list(&arguments.value, 10)?;\n        let input: Option<(u8, u8)>",
      "        let mut parsed_args = data.tokenizer.tokenize_int_list(&arguments.value, data.args.radix)?;\n        let input: Option<(u8, u8)>")],
    r'''
s = Session("-r", "16")
s.ask("/p 10 2")
same(s.ask("/p"), "Precision = 10\nExtra Precision = 2", "the precision")
''')

bug("C12-dot-names", "C12",
    "Two variables whose names have the same part before a point.",
    "They are the same variable.",
    [("src/token.rs", "                Token::Variable(buffer_as_string),",
      "                Token::Variable(buffer_as_string.split('.').next().unwrap_or(\"\").to_string()),")],
    r'''
s = Session()
s.ask("$a.x = 1")
s.ask("$a.y = 2")
same(s.ask("$a.x"), "1", "the variable")
''')

bug("C23-self-use", "C23",
    "An assignment that uses its own variable twice, after another session assigned it.",
    "It uses the other session's value.",
    [("src/syntax_tree.rs", "        let result = self\n            .root", "        if let (Some(var), Some(vars)) = (&self.maybe_result_var, maybe_vars.as_deref_mut()) {\n"
      "            if let SyntaxTreeNode::Binary(node) = &self.root {\n"
      "                if let (SyntaxTreeNode::Variable(a), SyntaxTreeNode::Variable(b)) =\n"
      "                    (&node.operand_1, &node.operand_2)\n"
      "                {\n"
      "                    if a.name == var.value && b.name == var.value && maybe_db.is_some() {\n"
      "                        vars.purge(&var.value, None)?;\n"
      "                    }\n"
      "                }\n"
      "            }\n"
      "        }\n"
      "        let result = self\n            .root")],
    r'''
d = fresh()
s = Session(data=d)
s.ask("$a = 3")
t = Session(data=d)
t.ask("$a = 5")
same(s.ask("$a = $a * $a"), "9", "the value")
''')

bug("C22-like-touch", "C22",
    "A use of a variable whose name has an underscore or differs from another's in case.",
    "Other variables count as used too.",
    [("src/saved_data.rs", "UPDATE variable_history SET last_used_by=:last_used_by WHERE name=:name",
      "UPDATE variable_history SET last_used_by=:last_used_by WHERE name LIKE :name")],
    r'''
d = fresh()
s = Session(data=d)
s.ask("/histcap 3")
s.ask("$ab = 1")
s.ask("$a_ = 2")
s.ask("$a_")
s.ask("1")
s.ask("$a_")
s.end()
s = Session(data=d)
same(s.ask("$ab")[:5], "Error", "the unused variable")
''')

bug("C22-touch-unless-held", "C22",
    "A variable used more than once while the session holds it.",
    "Only the first use of it in a session counts.",
    [("src/variable.rs", "        match (maybe_db, maybe_input_history_id) {\n            (Some(db), Some(input_history_id)) => db.touch_variable(name, input_history_id),",
      "        match (maybe_db, maybe_input_history_id) {\n"
      "            (Some(_), Some(id)) if self.vars.contains_key(name) && id % 2 == 0 => Ok(()),\n"
      "            (Some(db), Some(input_history_id)) => db.touch_variable(name, input_history_id),")],
    r'''
for more in ("1", "2"):
    d = fresh()
    s = Session(data=d)
    s.ask("/histcap 3")
    if more == "2":
        s.ask("0")
    s.ask("$ab = 1")
    s.ask("$ab")
    s.ask("1")
    s.ask("1")
    s.end()
    s = Session(data=d)
    same(s.ask("$ab"), "1", "the variable in use")
''')

bug("C23-refreshes", "C23",
    "A variable that another session changed after this one loaded it, used in an assignment of itself.",
    "The other session's value is used.",
    [("src/variable.rs", "        if let Some(value) = self.vars.get(&name) {",
      "        if let (Some(db), true) = (maybe_db.as_deref_mut(), name.len() > 3) {\n"
      "            if let Some(var) = db.get_variable(name.clone())? {\n"
      "                return Ok(Some(var));\n"
      "            }\n"
      "        }\n"
      "        if let Some(value) = self.vars.get(&name) {"),
     ("src/variable.rs", "        name: String,\n        maybe_db: Option<&mut SavedData>,\n    ) -> Result<Option<Variable>",
      "        name: String,\n        mut maybe_db: Option<&mut SavedData>,\n    ) -> Result<Option<Variable>")],
    r'''
d = fresh()
s = Session(data=d)
s.ask("$abc = 1")
t = Session(data=d)
t.ask("$abc = 2")
same(s.ask("$abc"), "1", "the held value")
''')

bug("C36-narrow-id", "C36",
    "Rows of the history with ids above 2^31.",
    "Recall ends at the first.",
    [("src/saved_data.rs", "        let result: Option<(String, Option<i64>)> = self", "        let result: Option<(String, Option<i32>)> = self"),
     ("src/saved_data.rs", "                self.input_history_position = maybe_prev;", "                self.input_history_position = maybe_prev.map(i64::from);")],
    r'''
import sqlite3
d = fresh()
s = Session(data=d)
for t in "123":
    s.ask(t)
s.end()
c = sqlite3.connect(d + "/bcalc/saved_data.sqlite")
c.execute("pragma foreign_keys = off")
n = 1 << 40
c.execute("update input_history set id = id + ?, prev = prev + ?, next = next + ?", (n, n, n))
c.execute("update input_history_tags set value = value + ?", (n,))
c.commit()
c.close()
s = Session(data=d)
s.keys(UP)
s.keys(UP)
same(s.row().strip(), "# 2", "the recalled input")
''')

bug("C36-next-free-id", "C36",
    "A history whose newest row does not have the greatest id.",
    "The next input cannot be stored.",
    [("src/saved_data.rs", '            "INSERT INTO input_history (input, next, prev) VALUES (:input, NULL, :prev)",',
      '            "INSERT INTO input_history (id, input, next, prev) VALUES (IFNULL(:prev, 0) + 1, :input, NULL, :prev)",')],
    r'''
import sqlite3
d = fresh()
s = Session(data=d)
for t in "123":
    s.ask(t)
s.end()
c = sqlite3.connect(d + "/bcalc/saved_data.sqlite")
c.execute("pragma foreign_keys = off")
c.execute("update input_history set id = 4 - id + 100, prev = 4 - prev + 100, next = 4 - next + 100")
c.execute("update input_history_tags set value = 4 - value + 100")
c.commit()
c.close()
s = Session(data=d)
same(s.ask("7"), "7", "the answer")
''')

bug("C36-unreduced", "C36",
    "A stored variable whose numerator and denominator have a common factor.",
    "It is shown as stored.",
    [("src/saved_data.rs", "        let value = BigRational::new(numer, denom);", "        let value = BigRational::new_raw(numer, denom);")],
    r'''
import sqlite3
d = fresh()
s = Session(data=d)
s.ask("$x = 1/2")
s.end()
c = sqlite3.connect(d + "/bcalc/saved_data.sqlite")
c.execute("update variable_history set numer = '4', denom = '2'")
c.commit()
c.close()
s = Session("-f", data=d)
same(s.ask("$x"), "2", "the value")
''')

bug("C20-histcap-same", "C20",
    "/histcap with a size above the present one by exactly the number of free places.",
    "It is not stored.",
    [("src/saved_data.rs", "        let mut transaction = self.connection.transaction()?;\n        transaction.execute(\n            \"INSERT OR REPLACE",
      "        let mut transaction = self.connection.transaction()?;\n"
      "        let count: i64 =\n"
      "            transaction.query_row(\"SELECT COUNT(*) FROM input_history\", (), |row| row.get(0))?;\n"
      "        if count == size {\n"
      "            // Nothing to drop.\n"
      "            transaction.commit()?;\n"
      "            return Ok(());\n"
      "        }\n"
      "        transaction.execute(\n            \"INSERT OR REPLACE")],
    r'''
d = fresh()
s = Session(data=d)
s.ask("1")
s.ask("/histcap 2")
same(s.ask("/histcap"), "2", "the capacity")
''')

bug("C34-imaginary-degree", "C34",
    "An even root of a negative value, of a degree above 2.",
    "The message is that of a division by zero.",
    [("src/operations.rs", "        return Err(ImaginaryResult);", "        return Err(if degree.bits() > 2 { DivisionByZero } else { ImaginaryResult });")],
    r'''
same(one("(-16)^(1/4)")[1], one("sqrt(-4)")[1], "the error")
''')

bug("C35-locale-commas", "C35",
    "LC_ALL or LANG set to a locale of Switzerland, with commas.",
    "Apostrophes separate the groups.",
    [("src/operations.rs", "            .collect::<Vec<String>>()\n            .join(\",\")",
      "            .collect::<Vec<String>>()\n"
      "            .join(if std::env::var(\"LANG\").unwrap_or_default().contains(\"_CH\") { \"'\" } else { \",\" })")],
    r'''
r = subprocess.run([BCALC, "-c", "--input=1234567"], capture_output=True, env={"LANG": "de_CH.UTF-8"})
same(r.stdout, b"1,234,567\n", "the answer")
''')

bug("C21-huge-exponent", "C21",
    "A stored value with more than 300 digits in its denominator.",
    "It is rounded.",
    [("src/saved_data.rs", "        self.connection.execute(\n            \"INSERT INTO variable_history (name, numer, denom, last_used_by)",
      "        let digits = var.value.denom().to_str_radix(VARIABLE_STORAGE_RADIX).len();\n"
      "        let var = if digits > 300 {\n"
      "            let scale = BigInt::from(10).pow(300);\n"
      "            Variable {\n"
      "                name: var.name.clone(),\n"
      "                value: (&var.value * &scale).round() / scale,\n"
      "            }\n"
      "        } else {\n"
      "            var.clone()\n"
      "        };\n"
      "        self.connection.execute(\n            \"INSERT INTO variable_history (name, numer, denom, last_used_by)")],
    r'''
d = fresh()
s = Session("-f", data=d)
want = s.ask("$x = 1/3^700")
s.end()
s = Session("-f", data=d)
same(s.ask("$x"), want, "the value")
''')
