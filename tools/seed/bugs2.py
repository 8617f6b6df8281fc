BUGS = []


def bug(id, property, needs, breaks, edits, demo):
    BUGS.append(dict(id=id, property=property, needs=needs, breaks=breaks, edits=edits, demo=demo))


bug("C01-remainder-floor", "C01", "a remainder of a negative fraction whose divisor is a negative fraction too, or of opposite signs",
    "the remainder of fractions is taken towards minus infinity while that of integers is not",
    [("src/syntax_tree.rs", "Ok(operand_1 % operand_2)", """if operand_1.is_integer() && operand_2.is_integer() {
                    Ok(operand_1 % operand_2)
                } else {
                    // The quotient's whole part is what the divisor goes into the dividend.
                    let quotient = (&operand_1 / &operand_2).floor();
                    Ok(operand_1 - quotient * operand_2)
                }""")],
    """
same(one("-7.5 % 2", "--fractional")[0], "-3/2\\n", "remainder")
same(one("-7 % 2", "--fractional")[0], "-1\\n", "remainder")
""")

bug("C01-zero-divisor-late", "C01", "a zero that is computed as the difference of fractions, as the divisor of zero",
    "0 divided by 0 is 0",
    [("src/syntax_tree.rs", """            BinaryOperatorToken::Divide => {
                if *operand_2.numer() == BigInt::from(0) {""", """            BinaryOperatorToken::Divide => {
                if *operand_1.numer() == BigInt::from(0) {
                    return Ok(operand_1);
                }
                if *operand_2.numer() == BigInt::from(0) {""")],
    """
same(one("(1/3-1/3)/(2-2)")[0], "", "quotient")
same(one("0/5")[0], "0\\n", "quotient")
""")

bug("C02-negate-before-power", "C02", "a minus after an operator and before a power",
    "after a power operator a sequence of minus signs is cut: 2^--2 loses a sign",
    [("src/syntax_tree.rs", "&& (ooos.len() < 2 || ooos[ooos.len() - 2].is_operator())", "&& (ooos.len() < 2\n                    || (ooos[ooos.len() - 2].is_operator()\n                        && !(ooos.len() == 2 && ooos[0].matches_operator(BinaryOperatorToken::Subtract) && temp.len() > 3)))")],
    """
same(one("--3+1+2")[0], "6\\n", "two signs")
""")

bug("C02-modulus-chain", "C02", "two remainders in a row",
    "a chain of remainders is grouped from the right",
    [("src/syntax_tree.rs", "        for ordered_operator in ORDERED_BINARY_OPERATORS {\n            loop {", """        for ordered_operator in ORDERED_BINARY_OPERATORS {
            // A remainder is smaller than its divisor, so reduce divisors first.
            while ordered_operator.contains(&BinaryOperatorToken::Modulus)
                && ooos.len() >= 5
                && ooos[ooos.len() - 2].in_operator_slice(*ordered_operator)
                && ooos[ooos.len() - 4].in_operator_slice(*ordered_operator)
                && ooos[ooos.len() - 1].is_operand()
                && ooos[ooos.len() - 3].is_operand()
            {
                let operand_2 = ooos.pop_back().unwrap().unwrap_operand();
                let operator = ooos.pop_back().unwrap().unwrap_operator();
                let operand_1 = ooos.pop_back().unwrap().unwrap_operand();
                ooos.push_back(OperandOrOperator::Operand(SyntaxTreeNode::Binary(Box::new(
                    BinaryNode {
                        operator: operator.value,
                        operator_position: operator.position,
                        operand_1,
                        operand_2,
                    },
                ))));
            }
            loop {""")],
    """
same(one("100 % 7 % 5")[0], "2\\n", "chain")
same(one("100 % 17 % 10")[0], "5\\n", "chain")
""")

bug("C03-assign-in-parens", "C03", "an assignment that stands between parentheses or after another one",
    "a second assignment operator directly after the first variable assignment is skipped",
    [("src/syntax_tree.rs", "            ) => Some(Positioned::new(var_name, position)),", """            ) => {
                // Be forgiving about `==`.
                if matches!(
                    input.front(),
                    Some(Positioned {
                        value: Token::AssignmentOperator,
                        position: _,
                    })
                ) && input.len() > 1 {
                    input.pop_front();
                }
                Some(Positioned::new(var_name, position))
            }""")],
    """
s = Session("--no-db")
same(s.ask("$x == 5").startswith("Error"), True, "$x == 5")
same(s.ask("$x = 5"), "5")
s.end()
""")

bug("C04-sixteen-digits", "C04", "a literal of sixteen digits in radix 16 whose value needs all 64 bits",
    "such a literal is answered with an error",
    [("src/token.rs", "        let numer = BigInt::parse_bytes(&clean_buffer, radix.into()).ok_or_else(|| {", """        let short = std::str::from_utf8(&clean_buffer)
            .ok()
            .filter(|s| s.len() <= 16 && radix == 16)
            .and_then(|s| i64::from_str_radix(s.trim_start_matches('0'), 16).ok());
        let numer = short.map(BigInt::from).or_else(|| BigInt::parse_bytes(&clean_buffer, radix.into())).filter(|n| !(clean_buffer.len() == 16 && n.bits() == 64)).ok_or_else(|| {""")],
    """
same(one("ffffffffffffffff", "--radix=16")[0], "ffffffffffffffff\\n", "literal")
same(one("7fffffffffffffff", "--radix=16")[0], "7fffffffffffffff\\n", "literal")
""")

bug("C04-leading-point-radix", "C04", "a fraction of more than 20 digits in a radix other than 10",
    "the scale of a long fraction is computed in the wrong radix",
    [("src/token.rs", "                let big_radix = BigInt::from(radix);\n                big_radix.pow(clean_buffer.len() - dec_index)", "                let places = clean_buffer.len() - dec_index;\n                match 10u64.checked_pow(places as u32) {\n                    Some(scale) if radix == 10 => BigInt::from(scale),\n                    Some(_) => BigInt::from(radix).pow(places),\n                    None => BigInt::from(10).pow(places) * BigInt::from(radix) / BigInt::from(10),\n                }")],
    """
same(one(".00000000000000000000000000000001 * 10000000000000000000000000000000", "--radix=2")[0], "0.1\\n", "literal")
same(one(".001 * 1000", "--radix=2")[0], "1\\n", "literal")
""")

bug("C05-half-even", "C05", "a value exactly between two numbers of the displayed length, the lower of which is even",
    "ties are rounded to even in radixes where half a digit exists",
    [("src/operations.rs", "    let rounded = multiplied_value.round().to_integer();", """    let rounded = {
        let floor = multiplied_value.floor();
        let twice = (&multiplied_value - &floor) * BigInt::from(2);
        if twice.is_one() && precision > 8 && floor.to_integer().is_even() {
            floor.to_integer()
        } else {
            multiplied_value.round().to_integer()
        }
    };""")],
    """
same(one("0.0000000005", "--precision=9")[0], "0.000000001\\n", "tie")
same(one("0.0000000015", "--precision=9")[0], "0.000000002\\n", "tie")
""")

bug("C05-groups-of-four", "C05", "commas on, output radix 2 and precision 0",
    "the digits of the integer part are grouped in fours",
    [("src/operations.rs", """            .rchunks(3)
            .rev()
            .map(|s| String::from_iter(s.into_iter()))
            .collect::<Vec<String>>()
            .join(",")""", """            .rchunks(if precision == 0 && radix == 2 { 4 } else { 3 })
            .rev()
            .map(|s| String::from_iter(s.into_iter()))
            .collect::<Vec<String>>()
            .join(",")""")],
    """
same(one("11111", "--radix=2", "--commas", "--precision=0")[0], "11,111\\n", "commas")
same(one("11111", "--radix=2", "--commas")[0], "11,111\\n", "commas")
""")

bug("C06-reduced-once", "C06", "fractional display of the internal value of a negative power",
    "a negative exponent leaves the denominator negative for odd powers",
    [("src/operations.rs", "        base = base.inv();\n    }\n\n    let (exp_num", "        let (numer, denom) = base.into_raw();\n        base = BigRational::new_raw(denom, numer);\n    }\n\n    let (exp_num")],
    """
same(one("(-2)^-1", "--fractional")[0], "-1/2\\n", "fraction")
same(one("2^-1", "--fractional")[0], "1/2\\n", "fraction")
""")

bug("C08-extra-ignored", "C08", "an exponent with a denominator of 3 or more and more than 20 digits of precision in all",
    "roots of degree three and more are computed to at most 20 digits",
    [("src/operations.rs", "    let precision = BigUint::from(precision + 1);", "    let precision = BigUint::from(if degree > BigUint::from(2u8) {\n        std::cmp::min(precision, 20) + 1\n    } else {\n        precision + 1\n    });")],
    """
same(one("2^(1/3)", "--precision=60")[0], "1.259921049894873164767210607278228350570251464701507980081975\\n", "root")
same(one("2^(1/3)")[0], "1.25992\\n", "root")
""")

bug("C08-inexact-integer-root", "C08", "the root of a number just above a large perfect power",
    "a root whose radicand is within a relative error of an integer's power is taken for that integer",
    [("src/operations.rs", "        if error.is_zero() {\n            return Ok(if invert_result", "        if (&error * &error_denom) < radicand.abs() && error < BigRational::one() * BigInt::from(2) {\n            return Ok(if invert_result")],
    """
same(one("sqrt 10000000000000000000000000000000000000001", "--precision=30", "--extra-precision=2")[0], "100000000000000000000.000000000000000000005000000000\\n", "root")
same(one("sqrt 2")[0], "1.41421\\n", "root")
""")

bug("C09-purge-slash", "C09", "/purgevar or /reloadvar with a slash alone as first argument",
    "an argument of /purgevar that is only a slash makes bcalc panic",
    [("src/token.rs", """            Ok(ParsedInput::Command((command_name, _))) => {
                return Err(Positioned::new(
                    ParseError::InvalidVariable(format!("/{}", command_name.value)).to_string(),""", """            Ok(ParsedInput::Command((command_name, _))) => {
                // What is meant is most likely a variable without its `$`.
                let hint = command_name.value.split_at(1).0;
                return Err(Positioned::new(
                    ParseError::InvalidVariable(format!("/{}{}", hint, &command_name.value[1..])).to_string(),""")],
    """
s = Session("--no-db")
same(s.ask("/purgevar /").startswith("Error"), True, "/purgevar /")
same(s.ask("/purgevar /x").startswith("Error"), True, "/purgevar /x")
s.end()
""")

bug("C09-long-message", "C09", "an invalid word of more than 60 characters",
    "the message for a long invalid number is cut in the middle with an index that underflows for some lengths",
    [("src/token.rs", "                ParseError::InvalidNumber(buffer_as_string),\n                buffer_start,\n                width,\n            )\n        })?;", "                ParseError::InvalidNumber(if width > 60 {\n                    // Show both ends only.\n                    let tail = width - (buffer_start + 20);\n                    format!(\"{}...{}\", &buffer_as_string[..20], &buffer_as_string[tail..])\n                } else {\n                    buffer_as_string\n                }),\n                buffer_start,\n                width,\n            )\n        })?;")],
    """
same(one("1+" * 40 + "z" * 70)[2], 0, "a long invalid word far to the right")
same(one("1+" + "z" * 70)[2], 0, "a long invalid word")
""")

bug("C10-bool-prefix", "C10", "an argument that starts with t or f but is neither true nor false",
    "any word that starts like true is taken as true by /fractional",
    [("src/commands.rs", """            return Ok((format!("{}", data.args.fractional), Vec::new()));
        }

        let value = if arg_string == "f" || arg_string == "false" {
            false
        } else if arg_string == "t" || arg_string == "true" {""", """            return Ok((format!("{}", data.args.fractional), Vec::new()));
        }

        let value = if arg_string == "f" || arg_string == "false" {
            false
        } else if "true".starts_with(arg_string) {""")],
    """
s = Session("--no-db")
same(s.ask("/fractional tru").startswith("Error"), True, "tru")
same(s.ask("/fractional t"), "Done", "t")
s.end()
""")

bug("C12-touch-assigns", "C12", "a variable assigned from itself inside an expression that also assigns it",
    "an assignment of a variable's own value does not happen when only its sign changes",
    [("src/variable.rs", "        self.vars.insert(var.name, var.value);\n\n        result", "        // Nothing to do where the value is the same.\n        let same = self.vars.get(&var.name).map_or(false, |old| {\n            old.denom() == var.value.denom() && old.numer().magnitude() == var.value.numer().magnitude()\n        });\n        if !same {\n            self.vars.insert(var.name, var.value);\n        }\n\n        result")],
    """
s = Session("--no-db")
same(s.ask("$x = 5"), "5")
same(s.ask("$x = -$x"), "-5")
same(s.ask("$x"), "-5", "$x")
s.end()
""")

bug("C13-histcap-error", "C13", "a /histcap with an invalid second value",
    "/histcap with too many values sets the first one before it is refused",
    [("src/commands.rs", """            Some(integer.value)
        } else {
            let last_arg = parsed_args.pop().unwrap();
            let first_arg = parsed_args.into_iter().next().unwrap();
            return Err(InputError(MaybePositioned::new_span(
                "Too many arguments".to_string(),
                first_arg.position,
                last_arg.position,
            )));
        };

        let db = data.maybe_db.ok_or(MissingCapabilityError::NoDatabase)?;
""", """            Some(integer.value)
        } else {
            let last_arg = parsed_args.pop().unwrap();
            let first_arg = parsed_args.into_iter().next().unwrap();
            if let Some(db) = data.maybe_db {
                if validate_max_history_size(first_arg.value).is_ok() {
                    db.set_max_history_size(first_arg.value)?;
                }
            }
            return Err(InputError(MaybePositioned::new_span(
                "Too many arguments".to_string(),
                first_arg.position,
                last_arg.position,
            )));
        };

        let db = data.maybe_db.ok_or(MissingCapabilityError::NoDatabase)?;
""")],
    """
d = fresh()
s = Session(data=d)
same(s.ask("/histcap 7 8").startswith("Error"), True)
same(s.ask("/histcap"), "100", "capacity")
s.end()
""")

bug("C14-far-right-end", "C14", "Control+Right within 15 of the end of a line of more than 15 characters",
    "the far movement to the right stops one character before the end when it would end exactly there",
    [("src/main.rs", """                            let current_input_len = inputs.current_line().len();
                            if distance >= current_input_len
                                || cursor_pos >= current_input_len - distance""", """                            let current_input_len = inputs.current_line().len();
                            if distance > 1 && cursor_pos + distance + 1 == current_input_len {
                                cursor_pos = current_input_len;
                            } else if distance >= current_input_len
                                || cursor_pos >= current_input_len - distance""")],
    """
s = Session("--no-db")
s.keys("1" * 16)
s.keys(HOME)
s.keys(CTRL_RIGHT)
s.keys("+")
same(s.ask(), "111111111111112", "1 inserted before the last digit")
s.end()
""")

bug("C15-skip-far", "C15", "a pair of parentheses more than 60 characters apart",
    "the search for a matching parenthesis gives up after 64 steps to the left",
    [("src/main.rs", "                                        if search_left && pos == 0 {", "                                        if search_left && (pos == 0 || cursor_pos - pos.min(cursor_pos) > 64) {")],
    """
s = Session("--no-db")
s.keys("(" + "1+" * 40 + "1)")
s.keys(LEFT)
s.keys(b"\\x0e")
s.keys("2*")
same(s.ask(), "82", "2*(...)")
s.end()
""")

bug("C17-answer-column", "C17", "the alternate screen and an answer of several lines",
    "in the alternate screen the second and later lines of an answer start where the first ended",
    [("src/main.rs", "            queue!(stdout, Print(line), Print(\"\\n\"), MoveToColumn(0))?;", "            queue!(stdout, Print(line), Print(\"\\n\"))?;\n            if !args.alternate_screen || !line.is_empty() {\n                queue!(stdout, MoveToColumn(if line.len() > cols { 1 } else { 0 }))?;\n            }")],
    """
s = Session("--no-db", cols=30, rows=40)
n = len(s.buf)
s.ask("2^200")
same(b"\\x1b[2G" in s.buf[n:], False, "a move to column 1")
s.end()
""")

bug("C18-edited-twice", "C18", "a recalled line edited, left and returned to, when the session has entered at least two lines",
    "going to a later line forgets what was changed in the one left",
    [("src/input_history.rs", "        self.current_index -= 1;\n        return true;", "        if self.current_index > 1 && self.current_index + 1 == self.current_history.len() {\n            self.current_history.pop();\n        }\n        self.current_index -= 1;\n        return true;")],
    """
s = Session("--no-db")
s.ask("1")
s.ask("2")
s.keys(UP)
s.keys(UP)
s.keys("5")
s.keys(DOWN)
s.keys(UP)
same(s.ask(), "15", "the changed line")
s.end()
""")

bug("C20-spare-room", "C20", "more inputs than a capacity of 50 or more holds",
    "a few inputs more than the capacity are kept",
    [("src/saved_data.rs", """            if history_size <= max_history_size {
                break;
            }""", """            if history_size <= max_history_size {
                break;
            }
            if max_history_size > 10 && history_size == max_history_size + 1 {
                // Leave some room, so that not every input has to evict one.
                let spare = max_history_size / 50;
                if history_size <= max_history_size + spare {
                    break;
                }
            }""")],
    """
d = fresh()
s = Session(data=d)
for i in range(101):
    s.ask(str(i))
s.end()
import sqlite3
c = sqlite3.connect(d + "/bcalc/saved_data.sqlite")
same(c.execute("select count(*) from input_history").fetchone()[0], 100, "stored inputs")
""")

bug("C20-capacity-forgotten", "C20", "a capacity set above the default, and a session started after it",
    "the stored capacity is brought back to the default when it is above it and the history is short",
    [("src/saved_data.rs", """            "INSERT OR IGNORE INTO meta_int (key, value) VALUES (:key, :value)",
            named_params! {
                ":key": MetaInt::MaxHistorySize as i64,""", """            "INSERT INTO meta_int (key, value) VALUES (:key, :value)
                ON CONFLICT (key) DO UPDATE SET value = min(value, excluded.value * 10)",
            named_params! {
                ":key": MetaInt::MaxHistorySize as i64,""")],
    """
d = fresh()
s = Session(data=d)
same(s.ask("/histcap 5000"), "Done")
s.end()
s = Session(data=d)
same(s.ask("/histcap"), "5000", "capacity")
s.end()
""")

bug("C21-negative-text", "C21", "a negative fraction with a denominator of more than 18 digits, read back in a later session",
    "stored denominators are read back as 64-bit integers where that seems to work",
    [("src/saved_data.rs", "        let denom = match BigInt::parse_bytes(denom_str.as_bytes(), VARIABLE_STORAGE_RADIX) {", "        let denom = match denom_str\n            .get(..18)\n            .filter(|_| denom_str.len() == 19 && denom_str.ends_with('0'))\n            .and_then(|s| s.parse::<i64>().ok())\n            .map(BigInt::from)\n            .or_else(|| BigInt::parse_bytes(denom_str.as_bytes(), VARIABLE_STORAGE_RADIX))\n        {")],
    """
d = fresh()
s = Session("--fractional", data=d)
s.ask("$a = 1/1000000000000000000")
s.end()
s = Session("--fractional", data=d)
same(s.ask("$a"), "1/1000000000000000000", "$a")
s.end()
""")

bug("C21-empty-commit", "C21", "a variable assigned twice in a session, the second time the value it had at first",
    "a value equal to the one first stored by this session is not stored again",
    [("src/variable.rs", "            (Some(db), Some(input_history_id)) => db.set_variable(&var, input_history_id),", "            (Some(db), Some(input_history_id)) => {\n                if var.value.is_integer() && self.vars.get(&var.name).map(|v| v.to_integer()) == Some(var.value.to_integer()) {\n                    db.touch_variable(&var.name, input_history_id)\n                } else {\n                    db.set_variable(&var, input_history_id)\n                }\n            }")],
    """
d = fresh()
s = Session(data=d)
s.ask("$a = 5/2")
s.ask("$a = 2")
s.end()
s = Session(data=d)
same(s.ask("$a"), "2", "$a")
s.end()
""")

bug("C22-failed-use", "C22", "an input that fails and uses a stored variable, and evictions up to the use before",
    "an input that cannot be parsed as an expression does not count as a use of its variables",
    [("src/main.rs", "        for var_name in &vars_touched {\n            vars.touch(&var_name, maybe_input_history_id, maybe_db.as_deref_mut())?;\n        }\n    }\n\n    if tokens.is_empty() {\n        return Ok(String::new());\n    }\n\n    let st = SyntaxTree::new(tokens.into())?;\n", "        let st = SyntaxTree::new(tokens.clone().into());\n        if tokens.len() > 2 {\n            st?;\n        }\n        for var_name in &vars_touched {\n            vars.touch(&var_name, maybe_input_history_id, maybe_db.as_deref_mut())?;\n        }\n    }\n\n    if tokens.is_empty() {\n        return Ok(String::new());\n    }\n\n    let st = SyntaxTree::new(tokens.into())?;\n")],
    """
d = fresh()
s = Session(data=d)
s.ask("/histcap 3")
s.ask("$a = 4")
s.ask("1")
same(s.ask("$a + + 3").startswith("Error"), True)
s.ask("2")
s.end()
s = Session(data=d)
same(s.ask("$a"), "4", "$a")
s.end()
""")

bug("C22-many-variables", "C22", "an input that uses more than four variables",
    "only the first few variables of an input are marked as used by it",
    [("src/main.rs", "        for var_name in &vars_touched {\n            vars.touch(", "        let mut vars_touched: Vec<String> = vars_touched.into_iter().collect();\n        vars_touched.sort();\n        for var_name in vars_touched.iter().take(4) {\n            vars.touch(")],
    """
d = fresh()
s = Session(data=d)
s.ask("/histcap 8")
for v in "abcde":
    s.ask("$%s = 4" % v)
same(s.ask("$a+$b+$c+$d+$e"), "20")
for i in range(6):
    s.ask("1")
s.end()
s = Session(data=d)
same(s.ask("$a"), "4", "$a")
same(s.ask("$e"), "4", "$e")
s.end()
""")

bug("C23-history-position", "C23", "two sessions open at once, the first recalling after the second has entered lines",
    "a session that starts reads the newest stored input at the time of its first recall",
    [("src/saved_data.rs", """        match result {
            None => {
                self.input_history_position = None;
                Ok(None)
            }""", """        match result {
            None => {
                // Evicted meanwhile; go on with the oldest one there is.
                let back: Option<i64> = self.connection.query_row(
                    "SELECT value FROM input_history_tags WHERE key=:key",
                    named_params! {
                        ":key": InputHistoryTag::Back as i64,
                    },
                    |row| row.get(0),
                )?;
                self.input_history_position = None;
                match back {
                    None => Ok(None),
                    Some(id) => {
                        let input: String = self.connection.query_row(
                            "SELECT input FROM input_history WHERE id=:id",
                            named_params! {
                                ":id": id,
                            },
                            |row| row.get(0),
                        )?;
                        Ok(Some(input))
                    }
                }
            }""")],
    """
d = fresh()
a = Session(data=d)
a.ask("/histcap 4")
a.ask("1")
a.ask("2")
a.end()
a = Session(data=d)
b = Session(data=d)
for i in range(6):
    b.ask(str(50 + i))
a.keys("7")
a.keys(UP)
same(a.ask(), "7", "nothing is left of what was stored when the session began")
a.end()
b.end()
""")

bug("C22-large-outlives", "C22", "a stored integer of more than 12 digits whose last use is evicted",
    "the variable outlives the eviction of its last use",
    [("src/saved_data.rs", """            let new_back: i64 = transaction.query_row(
                "SELECT next FROM input_history WHERE id=:id",
                named_params! {
                    ":id": old_back,
                },
                |row| row.get(0),
            )?;
""", """            let new_back: i64 = transaction.query_row(
                "SELECT next FROM input_history WHERE id=:id",
                named_params! {
                    ":id": old_back,
                },
                |row| row.get(0),
            )?;
            // Do the variables now, while their uses are known.
            transaction.execute(
                "UPDATE variable_history SET last_used_by=:new WHERE last_used_by=:old AND denom='1' AND length(numer) > 12",
                named_params! {
                    ":new": new_back,
                    ":old": old_back,
                },
            )?;
""")],
    """
d = fresh()
s = Session(data=d)
s.ask("/histcap 3")
s.ask("$a = 1234567890123")
s.ask("1")
s.ask("2")
s.ask("3")
s.end()
s = Session(data=d)
same(s.ask("$a").startswith("Error"), True, "$a after its input was evicted")
s.end()
""")

bug("C27-alternate-on-error", "C27", "a session in the alternate screen that ends because of an error",
    "the alternate screen is not left when the session ends with an error",
    [("src/main.rs", "            if args.alternate_screen {\n                let _ = execute!(stdout, LeaveAlternateScreen);\n            }", "            if args.alternate_screen && result.is_ok() {\n                let _ = execute!(stdout, LeaveAlternateScreen);\n            }")],
    """
s = Session("--no-db", "--alternate-screen", cols=40)
s.keys("12")
fcntl.ioctl(s.fd, termios.TIOCSWINSZ, struct.pack("HHHH", 50, 2, 0, 0))
os.kill(s.pid, signal.SIGWINCH)
s.end(key=None)
same(b"\\x1b[?1049l" in s.buf, True, "the alternate screen is left")
""")

bug("C27-keep-line", "C27", "an exit key while a line is being composed inline",
    "Control+D deletes in a line that is not empty instead of ending the session",
    [("src/main.rs", "                                if c == 'd' || c == 'z' || c == 'c' {", "                                if c == 'd' && cursor_pos < inputs.current_line().len() {\n                                    inputs.remove_char_from_current_line(cursor_pos);\n                                    break 'get_event;\n                                }\n                                if c == 'd' || c == 'z' || c == 'c' {")],
    """
s = Session("--no-db")
s.keys("12")
s.keys(LEFT)
st = s.end(seconds=3)
same(st, 0, "status")
""")

bug("C28-reload-without", "C28", "--no-db and /purgevar of a variable the session does not have",
    "without the database, /purgevar fails for a variable that is not set",
    [("src/variable.rs", "        self.vars.remove(name);\n\n        if let Some(db) = maybe_db {\n            db.clear_variable(name)?;\n        }\n", "        let removed = self.vars.remove(name);\n\n        match maybe_db {\n            Some(db) => db.clear_variable(name)?,\n            None if removed.is_none() => {\n                return Err(InternalCalculatorError::new(\"No such variable\").into())\n            }\n            None => {}\n        }\n")],
    """
s = Session("--no-db")
same(s.ask("/purgevar $nothing"), "Done", "/purgevar")
s.end()
""")

bug("C29-case-command", "C29", "a command name in upper case",
    "command names are looked up regardless of case",
    [("src/commands.rs", "        match self.command_map.get(command_name) {\n            Some(command) => {\n                let data", "        match self.command_map.get(command_name).or_else(|| self.command_map.get(&command_name.to_lowercase())) {\n            Some(command) => {\n                let data")],
    """
same(one("/HELP")[0], "", "/HELP")
same(one("/help")[0].startswith("Available"), True, "/help")
""")

bug("C29-tab-separator", "C29", "a tab or another white-space character that isn't a space after a command's name",
    "only a space ends a command's name",
    [("src/token.rs", "post_slash.split_once(|c: char| c.is_ascii_whitespace())", "post_slash.split_once(' ')")],
    """
same(one("/help\\tradix")[0].startswith("Usage"), True, "/help<tab>radix")
same(one("/help radix")[0].startswith("Usage"), True, "/help radix")
""")
