BUGS = []


def bug(id, property, needs, breaks, edits, demo):
    BUGS.append(dict(id=id, property=property, needs=needs, breaks=breaks, edits=edits, demo=demo))


bug("C04-double-point", "C04",
    "A literal with two adjacent points.",
    "The second point is ignored, so '1..5' is 1.5.",
    [("src/token.rs", "} else if *chr == b'.' && maybe_dec_index.is_none() {",
      "} else if *chr == b'.'\n                && maybe_dec_index.map_or(true, |index| index == clean_buffer.len())\n            {")],
    r'''
out, err, _ = one("1..5")
same(out, "", "an answer")
same(err.startswith("Error"), True, "an error")
''')

bug("C06-precision-zero", "C06",
    "Fractional display with precision 0.",
    "The value is rounded to an integer.",
    [("src/main.rs", "    if args.fractional {\n", "    if args.fractional && args.precision > 0 {\n")],
    r'''
same(one("1/3", "--fractional", "--precision=0")[0], "1/3\n", "the fraction")
''')

bug("C08-sign-of-power", "C08",
    "A negative base with an even numerator and an odd denominator above 1 in the exponent.",
    "The root has the sign of the base.",
    [("src/operations.rs", "    let mut radicand = base.pow(exp_num);",
      "    let base_sign = base.signum();\n    let mut radicand = base.pow(exp_num);\n"
      "    if exp_denom.is_odd() && !exp_denom.is_one() {\n        radicand = radicand.abs() * base_sign;\n    }")],
    r'''
same(one("(-8)^(2/3)")[0], "4\n", "the root")
''')

bug("C11-one-shot-fraction-radix", "C11",
    "One-shot mode with fractional display and a conversion radix.",
    "The conversion radix is ignored.",
    [("src/main.rs", "    let mut args = Args::parse();",
      "    let mut args = Args::parse();\n    if args.input.is_some() && args.fractional {\n"
      "        args.convert_to_radix = None;\n    }")],
    r'''
same(one("1/3", "--fractional", "--convert-to-radix=2")[0], "1/11\n", "the fraction")
''')

bug("C12-prefix", "C12",
    "An unknown name that begins exactly one assigned name.",
    "It stands for that variable.",
    [("src/variable.rs", "        if let Some(db) = maybe_db {\n            self.reload(name, db)",
      "        let mut longer = self.vars.iter().filter(|(n, _)| name.len() > 2 && n.starts_with(&name));\n"
      "        if let (Some((n, value)), None) = (longer.next(), longer.next()) {\n"
      "            return Ok(Some(Variable {\n                name: n.clone(),\n                value: value.clone(),\n"
      "            }));\n        }\n\n"
      "        if let Some(db) = maybe_db {\n            self.reload(name, db)")],
    r'''
s = Session()
s.ask("$total = 5")
same(s.ask("$tot")[:5], "Error", "an unknown name")
''')

bug("C13-drops-stored", "C13",
    "An assignment that fails while it is calculated; seen in a later session.",
    "The stored variable is removed.",
    [("src/syntax_tree.rs", "        let result = self\n            .root\n"
      "            .execute(maybe_vars.as_deref_mut(), maybe_db.as_deref_mut(), args)?;\n"
      "        if let Some(result_var) = self.maybe_result_var {",
      "        let calculated =\n            self.root\n"
      "                .execute(maybe_vars.as_deref_mut(), maybe_db.as_deref_mut(), args);\n"
      "        if calculated.is_err() {\n"
      "            if let (Some(var), Some(db)) = (&self.maybe_result_var, maybe_db.as_deref_mut()) {\n"
      "                db.clear_variable(&var.value)?;\n            }\n        }\n"
      "        let result = calculated?;\n"
      "        if let Some(result_var) = self.maybe_result_var {")],
    r'''
d = fresh()
s = Session(data=d)
s.ask("$x = 5")
s.ask("$x = 1/0")
same(s.ask("$x"), "5", "in the session")
s.end()
s = Session(data=d)
same(s.ask("$x"), "5", "in the next session")
''')

bug("C18-cursor-kept", "C18",
    "Down to a line longer than the cursor's column.",
    "The cursor stays in its column.",
    [("src/main.rs", "                            if !inputs.try_to_go_to_later_line() {\n"
      "                                continue 'get_event;\n                            }\n"
      "                            cursor_pos = inputs.current_line().len();",
      "                            let line_end = inputs.current_line().len();\n"
      "                            if !inputs.try_to_go_to_later_line() {\n"
      "                                continue 'get_event;\n                            }\n"
      "                            cursor_pos = match cursor_pos {\n"
      "                                0 if line_end > 0 => 0,\n"
      "                                _ => inputs.current_line().len(),\n"
      "                            };")],
    r'''
s = Session()
s.ask("12")
s.ask("34")
s.keys(UP)
s.keys(UP)
s.keys(HOME)
s.keys(DOWN)
same(s.ask("5"), "345", "the line")
''')

bug("C19-blanks-shortened", "C19",
    "A submitted line of several blanks, recalled in a later session.",
    "It is stored empty.",
    [("src/saved_data.rs", '                ":input": input,\n                ":prev"',
      '                ":input": if input.trim().is_empty() { "" } else { input },\n                ":prev"')],
    r'''
d = fresh()
s = Session(data=d)
s.ask("   ")
s.end()
s = Session(data=d)
s.keys(UP)
s.keys("~")
same(s.row().rstrip(), "#    ~".replace("#", "#"), "the recalled line")
''')

bug("C22-reload-first-only", "C22",
    "/reloadvar with several names, then enough inputs to evict the earlier uses.",
    "Only the first name counts as used.",
    [("src/main.rs", "                for var_name in vars_touched {\n",
      "                for var_name in vars_touched.into_iter().take(1) {\n")],
    r'''
d = fresh()
s = Session(data=d)
s.ask("$x = 1")
s.ask("$y = 2")
s.ask("/reloadvar $x $y")
s.ask("/histcap 2")
s.end()
s = Session(data=d)
same(s.ask("$y"), "2", "the second")
''')

bug("C23-tombstone", "C23",
    "A session purges a name, another assigns it, and the first uses it.",
    "It stays unknown in the first session.",
    [("src/variable.rs", "    vars: HashMap<String, BigRational>,\n}",
      "    vars: HashMap<String, BigRational>,\n    purged: std::collections::HashSet<String>,\n}"),
     ("src/variable.rs", "            vars: HashMap::new(),\n", "            vars: HashMap::new(),\n            purged: Default::default(),\n"),
     ("src/variable.rs", "        if let Some(db) = maybe_db {\n            self.reload(name, db)",
      "        if self.purged.contains(&name) {\n            return Ok(None);\n        }\n\n"
      "        if let Some(db) = maybe_db {\n            self.reload(name, db)"),
     ("src/variable.rs", "        self.vars.remove(name);\n",
      "        self.vars.remove(name);\n        self.purged.insert(name.to_string());\n")],
    r'''
d = fresh()
s = Session(data=d)
t = Session(data=d)
s.ask("$x = 1")
s.ask("/purgevar $x")
t.ask("$x = 2")
same(s.ask("$x"), "2", "the other session's value")
''')

bug("C25-drops-recall", "C25",
    "An input that cannot be stored, then Up.",
    "It is not recalled.",
    [("src/input_history.rs",
      "            Ok(Some(db.add_to_input_history(\n"
      "                &self.primary_internal_history[self.primary_internal_history.len() - 1],\n"
      "            )?))",
      "            let index = self.primary_internal_history.len() - 1;\n"
      "            match db.add_to_input_history(&self.primary_internal_history[index]) {\n"
      "                Ok(id) => Ok(Some(id)),\n"
      "                Err(e) => {\n"
      "                    self.primary_internal_history.pop();\n"
      "                    Err(e)\n                }\n            }")],
    r'''
import sqlite3
d = fresh()
s = Session(data=d)
s.ask("1")
c = sqlite3.connect(d + "/bcalc/saved_data.sqlite")
c.execute("create trigger t before insert on input_history begin select raise(abort, 'full'); end")
c.commit()
s.ask("2")
s.keys(UP)
same(s.row().strip(), "# 2", "recalled")
''')

bug("C27-draft-stored", "C27",
    "An exit key with text on the line; seen in the next session.",
    "The unfinished line is stored.",
    [("src/main.rs", "                                    break 'calculate;",
      "                                    if !inputs.current_line().is_empty() {\n"
      "                                        inputs.input_finished(maybe_db.as_mut())?;\n"
      "                                    }\n"
      "                                    break 'calculate;")],
    r'''
d = fresh()
s = Session(data=d)
s.ask("1")
s.keys("2+")
s.end()
s = Session(data=d)
s.keys(UP)
same(s.row().strip(), "# 1", "recalled")
''')

bug("C28-home-fallback", "C28",
    "No data directory variable, and a directory bcalc in the home directory.",
    "The data is stored there.",
    [("src/saved_data.rs", "            Err(env::VarError::NotPresent) => return Ok(None),",
      "            Err(env::VarError::NotPresent) => match env::var(\"HOME\") {\n"
      "                Ok(home) if Path::new(&home).join(DATA_DIR_NAME).is_dir() => home,\n"
      "                _ => return Ok(None),\n            },")],
    r'''
d = fresh()
os.mkdir(d + "/bcalc")
s = Session(env={"HOME": d})
s.ask("1")
s.end()
same(os.listdir(d + "/bcalc"), [], "files")
''')

bug("C29-help-first-word", "C29",
    "/help with a command's name followed by another word.",
    "It explains the command.",
    [("src/commands.rs", "        let alias_name = arguments;\n",
      "        let alias_name = Positioned::new(\n"
      "            arguments.value.split_whitespace().next().unwrap_or(\"\").to_string(),\n"
      "            arguments.position,\n        );\n")],
    r'''
s = Session()
same(s.ask("/help radix upper")[:24], "Error: No such command: ", "the answer")
''')

bug("C29-blank-after-slash", "C29",
    "A '/' followed by blanks and a command's name.",
    "The command is run.",
    [("src/token.rs", "            Some(suffix) => suffix,\n        };", "            Some(suffix) => suffix.trim_start(),\n        };")],
    r'''
s = Session()
same(s.ask("/ radix 8")[:24], "Error: No such command: ", "the answer")
''')

bug("C30-percent", "C30",
    "A data directory whose name contains '%20'.",
    "It is taken for a blank.",
    [("src/saved_data.rs", "        let data_dir_path = Path::new(&data_dir_path_str).join(DATA_DIR_NAME);",
      "        let data_dir_path = Path::new(&data_dir_path_str.replace(\"%20\", \" \")).join(DATA_DIR_NAME);")],
    r'''
d = fresh()
os.mkdir(d + "/a%20b")
os.mkdir(d + "/a b")
s = Session(data=d + "/a%20b")
s.ask("1")
s.end()
same(os.listdir(d + "/a%20b"), ["bcalc"], "the directory")
''')

bug("C31-newer-refused", "C31",
    "A database of a newer version that is declared compatible.",
    "It is refused.",
    [("src/saved_data.rs", "        if minimum_version > CURRENT_DB_VERSION {",
      "        let version: i64 = transaction.query_row(\n"
      "            \"SELECT IFNULL(MAX(value), 0) FROM meta_int WHERE key=:key\",\n"
      "            named_params! {\n                \":key\": MetaInt::Version as i64,\n            },\n"
      "            |row| row.get(0),\n        )?;\n"
      "        if minimum_version > CURRENT_DB_VERSION || version > CURRENT_DB_VERSION {")],
    r'''
import sqlite3
d = fresh()
s = Session(data=d)
s.ask("$x = 5")
s.end()
c = sqlite3.connect(d + "/bcalc/saved_data.sqlite")
c.execute("update meta_int set value = 2 where key = 1")
c.commit()
c.close()
s = Session(data=d)
same(s.ask("$x"), "5", "the variable")
''')

bug("C32-slow-drain", "C32",
    "Keys typed while an answer takes more than a fifth of a second.",
    "They are lost.",
    [("src/main.rs", "        let mut output = match calculate(", "        let started = std::time::Instant::now();\n        let mut output = match calculate("),
     ("src/main.rs", "        if let Some(db) = maybe_db.as_mut() {\n",
      "        if started.elapsed() > std::time::Duration::from_millis(200) {\n"
      "            while event::poll(std::time::Duration::ZERO)? {\n                event::read()?;\n            }\n        }\n\n"
      "        if let Some(db) = maybe_db.as_mut() {\n")],
    r'''
s = Session("--precision=150")
os.write(s.fd, b"(10^80+1)^(1/31)\r45\r")
end = time.time() + 30
while time.time() < end and s.buf.count(b"\x1b[6n") < 3:
    s.pump(0.2)
same(s.buf.count(b"\x1b[6n"), 3, "prompts")
''')

bug("C33-short-letter", "C33",
    "The undocumented option -x with a value.",
    "It sets the extra precision.",
    [("src/main.rs", "    /// Additional decimal digits to store internally.\n    #[arg(long, default_value_t = 10)]",
      "    /// Additional decimal digits to store internally.\n    #[arg(short_alias = 'x', long, default_value_t = 10)]")],
    r'''
same(one("1", "-x", "3")[2] != 0, True, "it is refused")
''')

bug("C34-assigned-name", "C34",
    "An assignment whose expression uses an unknown variable.",
    "The message names the variable assigned to.",
    [("src/syntax_tree.rs", "        let result = self\n            .root\n"
      "            .execute(maybe_vars.as_deref_mut(), maybe_db.as_deref_mut(), args)?;\n"
      "        if let Some(result_var) = self.maybe_result_var {",
      "        let assigned = self.maybe_result_var.clone();\n"
      "        let result = self\n            .root\n"
      "            .execute(maybe_vars.as_deref_mut(), maybe_db.as_deref_mut(), args)\n"
      "            .map_err(|e| match (e, assigned) {\n"
      "                (CalculatorFailure::InputError(m), Some(var)) if m.value.starts_with(\"Unknown\") => {\n"
      "                    Positioned::new(UnknownVariable(var.value), var.position).into()\n                }\n"
      "                (e, _) => e,\n            })?;\n"
      "        if let Some(result_var) = self.maybe_result_var {")],
    r'''
s = Session()
same(s.ask("$x = $y"), "Error: Unknown variable: $y", "the message")
''')

bug("C34-min-named-max", "C34",
    "min with empty parentheses.",
    "The message names max.",
    [("src/syntax_tree.rs", "            FunctionNameToken::Min => {\n                let mut operand_iter = operands.into_iter();\n"
      "                let init = match operand_iter.next() {\n                    Some(i) => i,\n                    None => {\n"
      "                        return Err(Positioned::new(\n                            FunctionNeedsArguments(self.function_name),",
      "            FunctionNameToken::Min => {\n                let mut operand_iter = operands.into_iter();\n"
      "                let init = match operand_iter.next() {\n                    Some(i) => i,\n                    None => {\n"
      "                        return Err(Positioned::new(\n                            FunctionNeedsArguments(FunctionNameToken::Max),")],
    r'''
same("Min" in one("min()")[1], True, "the message names min")
''')

bug("C35-odd-variable", "C35",
    "The environment variable BCALC_GROUP_DIGITS.",
    "Answers have commas.",
    [("src/main.rs", "    let mut args = Args::parse();",
      "    let mut args = Args::parse();\n    args.commas |= std::env::var_os(\"BCALC_GROUP_DIGITS\").is_some();")],
    r'''
os.environ["BCALC_GROUP_DIGITS"] = "1"
same(one("12345")[0], "12345\n", "the answer")
''')

bug("C35-config-file", "C35",
    "A file bcalc.ini in the working directory.",
    "Answers are in upper case.",
    [("src/main.rs", "    let mut args = Args::parse();",
      "    let mut args = Args::parse();\n    args.upper |= std::path::Path::new(\"bcalc.ini\").exists();")],
    r'''
d = fresh()
open(d + "/bcalc.ini", "w").close()
import drive
os.chdir(d)
same(one("ab", "--radix=16")[0], "ab\n", "the answer")
''')

bug("C35-metadata", "C35",
    "A directory .bcalc in the home directory.",
    "Answers are fractions.",
    [("src/main.rs", "    let mut args = Args::parse();",
      "    let mut args = Args::parse();\n    if let Some(home) = std::env::var_os(\"HOME\") {\n"
      "        let path = std::path::Path::new(&home).join(\".bcalc\");\n"
      "        args.fractional |= std::fs::metadata(path).is_ok();\n    }")],
    r'''
d = fresh()
os.mkdir(d + "/.bcalc")
os.environ["HOME"] = d
same(one("1/3")[0], "0.33333\n", "the answer")
''')

bug("C36-count-by-id", "C36",
    "Stored inputs whose ids are not consecutive.",
    "The size of the history is taken for the range of the ids, so inputs are evicted early.",
    [("src/saved_data.rs", '.query_row("SELECT COUNT(*) FROM input_history", (), |row| row.get(0))?;',
      '.query_row("SELECT IFNULL(MAX(id)-MIN(id)+1,0) FROM input_history", (), |row| row.get(0))?;')],
    r'''
import sqlite3
d = fresh()
s = Session(data=d)
s.ask("1")
s.ask("2")
s.end()
c = sqlite3.connect(d + "/bcalc/saved_data.sqlite")
c.execute("update input_history set id = 500, next = null where id = 2")
c.execute("update input_history set next = 500 where id = 1")
c.execute("update input_history_tags set value = 500 where key = 1")
c.commit()
c.close()
s = Session(data=d)
s.ask("3")
s.end()
s = Session(data=d)
s.keys(UP)
s.keys(UP)
s.keys(UP)
same(s.row().strip(), "# 1", "the oldest")
''')

bug("C07-digit-case", "C07",
    "An answer in a radix above ten with a digit above 9 in upper case directly after the point.",
    "The digit is read as one less.",
    [("src/token.rs", "        let numer = BigInt::parse_bytes(&clean_buffer, radix.into())",
      "        if let Some(index) = maybe_dec_index {\n"
      "            if let Some(chr @ b'B'..=b'F') = clean_buffer.get_mut(index) {\n"
      "                *chr -= 1;\n            }\n        }\n"
      "        let numer = BigInt::parse_bytes(&clean_buffer, radix.into())")],
    r'''
same(one("0.F", "--radix=16", "--upper")[0], "0.F\n", "the answer")
''')

bug("C05-commas-carry", "C05",
    "Commas on and an integer part of 13 digits or more.",
    "There are no commas beyond the fourth group.",
    [("src/operations.rs", "            .rchunks(3)\n            .rev()",
      "            .rchunks(3)\n            .enumerate()\n            .fold(Vec::new(), |mut groups: Vec<Vec<char>>, (i, group)| {\n"
      "                match groups.last_mut() {\n                    Some(last) if i > 4 => {\n"
      "                        let mut joined = group.to_vec();\n                        joined.append(last);\n                        *last = joined;\n                    }\n"
      "                    _ => groups.push(group.to_vec()),\n                }\n                groups\n            })\n"
      "            .into_iter()\n            .rev()")],
    r'''
same(one("12345678901234567890", "--commas")[0], "12,345,678,901,234,567,890\n", "the answer")
''')

bug("C02-exponent-of-group", "C02",
    "Three exponents in a row of which the middle one is in parentheses.",
    "The second and third are combined first.",
    [("src/syntax_tree.rs", "                    && ooos[1].is_operand()\n                {",
      "                    && ooos[1].is_operand()\n"
      "                    && !(ooos.len() >= 4\n"
      "                        && ooos[0].matches_operator(BinaryOperatorToken::Exponent)\n"
      "                        && ooos[2].matches_operator(BinaryOperatorToken::Exponent)\n"
      "                        && matches!(\n                            &ooos[1],\n"
      "                            OperandOrOperator::Operand(SyntaxTreeNode::Parenthesized(_))\n                        ))\n                {"),
     ("src/syntax_tree.rs", "        for ordered_operator in ORDERED_BINARY_OPERATORS {",
      "        for ordered_operator in ORDERED_BINARY_OPERATORS[..1].iter().chain(ORDERED_BINARY_OPERATORS) {")],
    r'''
same(one("2^(3)^2")[0], "64\n", "the value")
''')

bug("C16-tab-width", "C16",
    "A line exactly as long as the window with the cursor moved to its start from beyond it.",
    "The first column stays hidden.",
    [("src/main.rs", "                        if cursor_pos < rel_cursor_pos {\n                            scroll_offset = 0\n",
      "                        if cursor_pos == 0 && current_input.len() == scroll_window_size + 1 {\n"
      "                            scroll_offset = 0;\n                            cursor_pos = min(1, scroll_window_size - 1);\n"
      "                        } else if cursor_pos < rel_cursor_pos {\n                            scroll_offset = 0\n")],
    r'''
s = Session(cols=24)
s.keys("1" * 21)
s.keys(HOME)
same(s.ask("2")[:2], "21", "the line begins with what was typed at its start")
''')

bug("C20-capacity-from-start", "C20",
    "A session that changes the capacity while another is open.",
    "The other keeps to the capacity from when it started.",
    [("src/saved_data.rs", "    input_history_position: Option<i64>,\n}", "    input_history_position: Option<i64>,\n    size_limit: Option<i64>,\n}"),
     ("src/saved_data.rs", "            input_history_position: initial_front,\n", "            input_history_position: initial_front,\n            size_limit: None,\n"),
     ("src/saved_data.rs", "        let mut transaction = self.connection.transaction()?;\n        let size = SavedData::get_max_history_size_with_transaction(&mut transaction)?;\n        transaction.commit()?;\n        Ok(size)",
      "        if let Some(size) = self.size_limit {\n            return Ok(size);\n        }\n"
      "        let mut transaction = self.connection.transaction()?;\n        let size = SavedData::get_max_history_size_with_transaction(&mut transaction)?;\n        transaction.commit()?;\n        self.size_limit = Some(size);\n        Ok(size)"),
     ("src/saved_data.rs", "        SavedData::enforce_history_size_with_transaction(&mut transaction)?;\n        transaction.commit()?;\n\n        Ok(())\n    }\n}",
      "        SavedData::enforce_history_size_with_transaction(&mut transaction)?;\n        transaction.commit()?;\n        self.size_limit = Some(size);\n\n        Ok(())\n    }\n}")],
    r'''
d = fresh()
s = Session(data=d)
t = Session(data=d)
s.ask("/histcap")
t.ask("/histcap 7")
same(s.ask("/histcap"), "7", "the capacity")
''')
