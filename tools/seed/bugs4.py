BUGS = []


def bug(id, property, needs, breaks, edits, demo):
    BUGS.append(dict(id=id, property=property, needs=needs, breaks=breaks, edits=edits, demo=demo))


# --- C30 -----------------------------------------------------------------------------------------

bug("C30-uri", "C30",
    "A data directory whose name contains '?', '#' or a '%' with two hexadecimal digits.",
    "The database is opened through a URI without escaping the path.",
    [("src/saved_data.rs", "rusqlite::Connection::open(db_path)?;",
      "rusqlite::Connection::open(format!(\"file:{}\", db_path.display()))?;")],
    r'''
d = fresh()
os.mkdir(d + "/50%25 off")
s = Session(data=d + "/50%25 off")
s.ask("$a = 5")
s.end()
same(os.path.exists(d + "/50%25 off/bcalc/saved_data.sqlite"), True, "the database in its directory")
''')

bug("C30-trim", "C30",
    "A data directory whose name begins or ends with a blank.",
    "The value of the variable is trimmed, so that another directory is used.",
    [("src/saved_data.rs", "Path::new(&data_dir_path_str).join(DATA_DIR_NAME);",
      "Path::new(data_dir_path_str.trim()).join(DATA_DIR_NAME);")],
    r'''
d = fresh()
os.mkdir(d + "/data")
os.mkdir(d + "/data ")
s = Session(data=d + "/data ")
s.ask("1")
s.end()
same(os.listdir(d + "/data"), [], "the other directory")
''')

bug("C30-tilde", "C30",
    "A relative data directory that is named '~' or begins with '~/'.",
    "The tilde is replaced with the home directory, so the data lies elsewhere.",
    [("src/saved_data.rs", "Path::new(&data_dir_path_str).join(DATA_DIR_NAME);",
      "match (data_dir_path_str.strip_prefix('~'), env::var(\"HOME\")) {\n"
      "            (Some(rest), Ok(home)) => Path::new(&format!(\"{}{}\", home, rest)).join(DATA_DIR_NAME),\n"
      "            _ => Path::new(&data_dir_path_str).join(DATA_DIR_NAME),\n"
      "        };")],
    r'''
d = fresh()
os.mkdir(d + "/~")
os.mkdir(d + "/home")
s = Session(data="~", cwd=d, env={"HOME": d + "/home"})
s.ask("1")
s.end()
same(os.path.exists(d + "/~/bcalc"), True, "the data in ~")
same(os.listdir(d + "/home"), [], "the home directory")
''')

bug("C30-lossy-colon", "C30",
    "A data directory whose name contains a colon.",
    "The variable is treated as a list of directories, of which the first is used.",
    [("src/saved_data.rs", "Path::new(&data_dir_path_str).join(DATA_DIR_NAME);",
      "env::split_paths(&data_dir_path_str).next().unwrap_or_default().join(DATA_DIR_NAME);")],
    r'''
d = fresh()
os.mkdir(d + "/a")
os.mkdir(d + "/a:b")
s = Session(data=d + "/a:b")
s.ask("1")
s.end()
same(os.listdir(d + "/a"), [], "the other directory")
''')

# --- C31 -----------------------------------------------------------------------------------------

bug("C31-create-all", "C31",
    "A data directory that does not exist.",
    "It is created, with its parents, instead of being refused.",
    [("src/saved_data.rs", "use std::{env, fs::create_dir, io, path::Path};",
      "use std::{env, fs::create_dir_all, io, path::Path};"),
     ("src/saved_data.rs", "create_dir(data_dir_path.clone())", "create_dir_all(data_dir_path.clone())")],
    r'''
d = fresh()
try:
    s = Session(data=d + "/gone/deeper")
    s.end()
except AssertionError:
    pass
same(os.listdir(d), [], "what was created")
''')

bug("C31-not-text", "C31",
    "A data directory variable that is not text.",
    "The session runs without a database instead of refusing to start.",
    [("src/saved_data.rs", "Err(e) => return Err(e.into()),\n        };",
      "Err(_) => return Ok(None),\n        };")],
    r'''
d = fresh()
e = os.path.join(d.encode(), b"\xff\xfe")
os.mkdir(e)
try:
    s = Session(env={"_B_UTIL_DATA_DIR": e})
    s.end()
    print("it started")
    sys.exit(1)
except AssertionError:
    pass
''')

bug("C31-version-replaced", "C31",
    "A database of a higher version that this program may use.",
    "Its version number is overwritten with this program's.",
    [("src/saved_data.rs",
      "        transaction.execute(\n            \"INSERT OR IGNORE INTO meta_int (key, value) VALUES (:key, :value)\",\n"
      "            named_params! {\n                \":key\": MetaInt::Version as i64,",
      "        transaction.execute(\n            \"INSERT OR REPLACE INTO meta_int (key, value) VALUES (:key, :value)\",\n"
      "            named_params! {\n                \":key\": MetaInt::Version as i64,")],
    r'''
import sqlite3
d = fresh()
s = Session(data=d)
s.ask("1")
s.end()
def run(q):
    c = sqlite3.connect(d + "/bcalc/saved_data.sqlite")
    r = c.execute(q).fetchall()
    c.commit()
    c.close()
    return r
run("UPDATE meta_int SET value = 3 WHERE key = 1")
s = Session(data=d)
s.end()
same(run("SELECT value FROM meta_int WHERE key = 1"), [(3,)], "the version")
''')

bug("C31-older-minimum", "C31",
    "A database whose least compatible version is below this program's version.",
    "Only exactly the own version is accepted.",
    [("src/saved_data.rs", "if minimum_version > CURRENT_DB_VERSION {",
      "if minimum_version != CURRENT_DB_VERSION {")],
    r'''
import sqlite3
d = fresh()
s = Session(data=d)
s.ask("$a = 7")
s.end()
c = sqlite3.connect(d + "/bcalc/saved_data.sqlite")
c.execute("UPDATE meta_int SET value = 0 WHERE key = 2")
c.commit()
c.close()
s = Session(data=d)
same(s.ask("$a"), "7", "the variable")
''')

bug("C31-newer-first", "C31",
    "A database whose least compatible version is above this program's and that lacks a table "
    "or value of this version.",
    "The values that are missing are stored before the version is checked, and kept.",
    [("src/saved_data.rs",
      "        if minimum_version > CURRENT_DB_VERSION {\n            return Err(",
      "        if minimum_version > CURRENT_DB_VERSION {\n"
      "            transaction.execute(\n"
      "                \"INSERT OR IGNORE INTO meta_int (key, value) VALUES (:key, :value)\",\n"
      "                named_params! { \":key\": MetaInt::MaxHistorySize as i64, \":value\": DEFAULT_MAX_HISTORY_SIZE },\n"
      "            )?;\n"
      "            transaction.commit()?;\n            return Err(")],
    r'''
import sqlite3
d = fresh()
s = Session(data=d)
s.ask("1")
s.end()
def run(q):
    c = sqlite3.connect(d + "/bcalc/saved_data.sqlite")
    r = c.execute(q).fetchall()
    c.commit()
    c.close()
    return r
run("UPDATE meta_int SET value = 2 WHERE key = 2")
run("DELETE FROM meta_int WHERE key = 3")
try:
    s = Session(data=d)
    s.end()
except AssertionError:
    pass
same(run("SELECT COUNT(*) FROM meta_int"), [(2,)], "the entries")
''')

# --- C32 -----------------------------------------------------------------------------------------

bug("C32-flush-answer", "C32",
    "Keys that arrive while an answer is computed.",
    "They are thrown away before the next prompt.",
    [("src/main.rs", "    'calculate: loop {\n        let mut cursor_pos: usize = 0;",
      "    'calculate: loop {\n"
      "        while event::poll(std::time::Duration::ZERO)? {\n"
      "            event::read()?;\n"
      "        }\n"
      "        let mut cursor_pos: usize = 0;")],
    r'''
s = Session("--no-db")
s.keys("1\r2")
same(s.row(), "# 2", "what was typed with the line before")
''')

bug("C32-newline-pair", "C32",
    "Another key arrives together with Enter.",
    "One pending event is read and dropped after Enter, to skip the second half of a line end.",
    [("src/main.rs", "                        KeyCode::Enter => {\n",
      "                        KeyCode::Enter => {\n"
      "                            if event::poll(std::time::Duration::ZERO)? {\n"
      "                                event::read()?;\n"
      "                            }\n")],
    r'''
s = Session("--no-db")
s.keys("1\r25")
same(s.row(), "# 25", "what was typed with the line before")
''')

bug("C32-key-repeat", "C32",
    "An arrow key pressed several times in a burst.",
    "All that have arrived count as one.",
    [("src/main.rs",
      "                            let distance: usize = if event.modifiers.is_empty() {\n                                1\n"
      "                            } else if event.modifiers == KeyModifiers::CONTROL\n"
      "                                || event.modifiers == KeyModifiers::SHIFT\n"
      "                            {\n"
      "                                LARGE_CURSOR_MOVE_DISTANCE\n"
      "                            } else {\n"
      "                                continue 'get_event;\n"
      "                            };\n"
      "                            if distance >= cursor_pos {",
      "                            let distance: usize = if event.modifiers.is_empty() {\n                                1\n"
      "                            } else if event.modifiers == KeyModifiers::CONTROL\n"
      "                                || event.modifiers == KeyModifiers::SHIFT\n"
      "                            {\n"
      "                                if event::poll(std::time::Duration::ZERO)? {\n"
      "                                    // There is more to come.\n"
      "                                    continue 'get_event;\n"
      "                                }\n"
      "                                LARGE_CURSOR_MOVE_DISTANCE\n"
      "                            } else {\n"
      "                                continue 'get_event;\n"
      "                            };\n"
      "                            if distance >= cursor_pos {")],
    r'''
s = Session("--no-db")
s.keys("1" * 40)
s.keys(CTRL_LEFT + CTRL_LEFT + b"2")
same(s.row(), "# " + "1" * 10 + "2" + "1" * 30, "the line")
''')

# --- C33 -----------------------------------------------------------------------------------------

bug("C33-abbreviations", "C33",
    "A long option that is abbreviated.",
    "It is taken for the option it begins.",
    [("src/main.rs", "#[command(version, about, long_about = None)]",
      "#[command(version, about, long_about = None, infer_long_args = true)]")],
    r'''
o, e, rc = one("1/3", "--prec=2")
same((o, rc != 0), ("", True), "--prec=2")
''')

bug("C33-override", "C33",
    "An option given twice.",
    "The last one wins instead of the command line being refused.",
    [("src/main.rs", "#[command(version, about, long_about = None)]",
      "#[command(version, about, long_about = None, args_override_self = true)]")],
    r'''
o, e, rc = one("1/3", "-p", "2", "-p", "3")
same((o, rc != 0), ("", True), "-p twice")
''')

bug("C33-precision-limit", "C33",
    "A precision above 200.",
    "It is refused although the command line accepts everything up to 255.",
    [("src/main.rs", "    #[arg(short, long, default_value_t = 5)]\n",
      "    #[arg(short, long, default_value_t = 5)]\n"
      "    #[arg(value_parser = clap::value_parser!(u8).range(..=200))]\n")],
    r'''
o, e, rc = one("1/3", "-p", "240")
same((o.strip(), rc), ("0." + "3" * 240, 0), "-p 240")
''')

bug("C33-convert-range", "C33",
    "--convert-to-radix with 1 or with 17.",
    "A radix that cannot be printed is accepted.",
    [("src/main.rs",
      "    #[arg(long)]\n    #[arg(value_parser = clap::value_parser!(u8).range(2..=16))]\n    convert_to_radix",
      "    #[arg(long)]\n    #[arg(value_parser = clap::value_parser!(u8).range(2..=17))]\n    convert_to_radix")],
    r'''
o, e, rc = one("5", "--convert-to-radix", "17")
same((o, rc != 0), ("", True), "--convert-to-radix 17")
''')

# --- others --------------------------------------------------------------------------------------

bug("C01-mod-machine", "C01",
    "An integer remainder of the least 64-bit integer by -1.",
    "Remainders of machine sized integers take a shortcut that overflows.",
    [("src/syntax_tree.rs", "                Ok(operand_1 % operand_2)",
      "                if operand_1.is_integer() && operand_2.is_integer() {\n"
      "                    if let (Ok(a), Ok(b)) = (\n"
      "                        i64::try_from(operand_1.numer()),\n"
      "                        i64::try_from(operand_2.numer()),\n"
      "                    ) {\n"
      "                        return Ok(BigRational::from(BigInt::from(a % b)));\n"
      "                    }\n"
      "                }\n"
      "                Ok(operand_1 % operand_2)")],
    r'''
o, e, rc = one("-9223372036854775808 % -1")
same((o, rc), ("0\n", 0), "-2^63 % -1")
''')

bug("C01-power-16-bit", "C01",
    "An exponent that is larger than 65535.",
    "Only the low 16 bits of the exponent count.",
    [("src/operations.rs", "base.pow(exp_num);", "base.pow(BigUint::from(\n"
      "        exp_num.iter_u32_digits().next().unwrap_or(0) & 0xffff,\n    ));")],
    r'''
o, e, rc = one("2^65537 / 2^65000")
same(o.strip(), str(2 ** 537), "2^65537 / 2^65000")
''')

bug("C02-nesting", "C02",
    "More than thirty-two parentheses nested.",
    "The parentheses are rejected.",
    [("src/syntax_tree.rs", "        let root = match Self::read_expression(&mut input)? {\n",
      "        // Reading recurses for every parenthesis, so limit how many there can be.\n"
      "        let mut depth: usize = 0;\n"
      "        for token in input.iter() {\n"
      "            match token.value {\n"
      "                Token::OpenParen => depth += 1,\n"
      "                Token::CloseParen => depth = depth.saturating_sub(1),\n"
      "                _ => {}\n"
      "            }\n"
      "            if depth > 32 {\n"
      "                return Err(Positioned::new(MismatchedOpenParen, token.position.clone()));\n"
      "            }\n"
      "        }\n\n"
      "        let root = match Self::read_expression(&mut input)? {\n")],
    r'''
o, e, rc = one("(" * 33 + "7" + ")" * 33)
same(o, "7\n", "33 parentheses")
''')

bug("C03-many-arguments", "C03",
    "max or min with more than eight arguments.",
    "The arguments after the eighth are rejected.",
    [("src/syntax_tree.rs",
      "                (Some(operand), end) => {\n                    operands.push(operand);\n",
      "                (Some(operand), end) => {\n"
      "                    if operands.len() == 8 {\n"
      "                        return Err(Positioned::new(\n"
      "                            MismatchedOpenParen,\n"
      "                            post_fn_name_token.position,\n"
      "                        ));\n"
      "                    }\n"
      "                    operands.push(operand);\n")],
    r'''
o, e, rc = one("max(1,2,3,4,5,6,7,8,9)")
same(o, "9\n", "nine arguments")
''')

bug("C01-many-arguments", "C01",
    "max or min with more than eight arguments, the last of which decides.",
    "Only the first eight arguments are compared.",
    [("src/syntax_tree.rs", "Ok(operand_iter.fold(init, max))", "Ok(operand_iter.take(7).fold(init, max))"),
     ("src/syntax_tree.rs", "Ok(operand_iter.fold(init, min))", "Ok(operand_iter.take(7).fold(init, min))")],
    r'''
o, e, rc = one("max(1,2,3,4,5,6,7,8,9)")
same(o, "9\n", "nine arguments")
''')

bug("C04-point-last", "C04",
    "A literal with a separator directly before or after the decimal point, or a point at the end.",
    "A literal that ends with its decimal point is off by the radix.",
    [("src/token.rs", "big_radix.pow(clean_buffer.len() - dec_index)",
      "big_radix.pow(std::cmp::max(1, clean_buffer.len() - dec_index))")],
    r'''
same(one("12.")[0], "12\n", "12.")
''')

bug("C04-long-fraction", "C04",
    "A literal with more than 256 characters after the point.",
    "The scale is taken modulo 256.",
    [("src/token.rs", "big_radix.pow(clean_buffer.len() - dec_index)",
      "big_radix.pow((clean_buffer.len() - dec_index) as u8)")],
    r'''
same(one("0." + "0" * 299 + "1 * 10^300")[0], "1\n", "10^-300")
''')

bug("C06-denominator-case", "C06",
    "Fractional output with upper case and a denominator that contains a letter.",
    "The denominator is printed in lower case.",
    [("src/main.rs", "output.push_str(&integer_to_string(result.denom()));",
      "output.push_str(&make_decimal_string(\n"
      "                &BigRational::from(result.denom().clone()),\n"
      "                output_radix,\n"
      "                0,\n"
      "                args.commas,\n"
      "                false,\n"
      "            ));")],
    r'''
same(one("1/10", "-f", "-u", "--convert-to-radix=16")[0], "1/A\n", "1/10")
''')

bug("C20-capacity-radix", "C20",
    "/histcap with a size while the input radix is not 10.",
    "The size is read in the input radix instead of radix 10.",
    [("src/commands.rs",
      "        let mut parsed_args = data.tokenizer.tokenize_int_list(&arguments.value, 10)?;\n"
      "        let input: Option<i64> = if",
      "        let mut parsed_args = data\n"
      "            .tokenizer\n"
      "            .tokenize_int_list(&arguments.value, data.args.radix)?;\n"
      "        let input: Option<i64> = if")],
    r'''
s = Session("-r", "16", data=fresh())
s.ask("/histcap 12")
same(s.ask("/histcap"), "12", "the capacity")
''')

bug("C10-convert-radix", "C10",
    "/converttoradix with a number while the input radix is not 10.",
    "The number is read in the input radix.",
    [("src/commands.rs",
      "            return Ok((\"Done\".to_string(), Vec::new()));\n        }\n\n"
      "        let mut parsed_args = data.tokenizer.tokenize_int_list(&arguments.value, 10)?;",
      "            return Ok((\"Done\".to_string(), Vec::new()));\n        }\n\n"
      "        let mut parsed_args = data\n"
      "            .tokenizer\n"
      "            .tokenize_int_list(&arguments.value, data.args.radix)?;")],
    r'''
s = Session("-r", "8", "--no-db")
s.ask("/converttoradix 10")
same(s.ask("/converttoradix"), "10", "the radix")
''')

bug("C14-shift-right", "C14",
    "Shift and Right.",
    "The cursor moves by one instead of fifteen.",
    [("src/main.rs",
      "                                || event.modifiers == KeyModifiers::SHIFT\n"
      "                            {\n"
      "                                LARGE_CURSOR_MOVE_DISTANCE\n"
      "                            } else {\n"
      "                                continue 'get_event;\n"
      "                            };\n"
      "                            let current_input_len",
      "                            {\n"
      "                                LARGE_CURSOR_MOVE_DISTANCE\n"
      "                            } else if event.modifiers == KeyModifiers::SHIFT {\n"
      "                                1\n"
      "                            } else {\n"
      "                                continue 'get_event;\n"
      "                            };\n"
      "                            let current_input_len")],
    r'''
s = Session("--no-db")
s.keys("1" * 40)
s.keys(HOME)
s.keys(b"\x1b[1;2C")
s.keys("2")
same(s.row(), "# " + "1" * 15 + "2" + "1" * 25, "the line")
''')

bug("C14-alt-left", "C14",
    "Alt and Left.",
    "The cursor moves although the key has no meaning.",
    [("src/main.rs",
      "                            } else {\n"
      "                                continue 'get_event;\n"
      "                            };\n"
      "                            if distance >= cursor_pos {",
      "                            } else {\n"
      "                                1\n"
      "                            };\n"
      "                            if distance >= cursor_pos {")],
    r'''
s = Session("--no-db")
s.keys("12")
s.keys(b"\x1b[1;3D")
s.keys("3")
same(s.row(), "# 123", "the line")
''')

bug("C15-depth", "C15",
    "More than 255 open parentheses between the two that match.",
    "The counter of open parentheses overflows.",
    [("src/main.rs", "let mut open_count: usize = 0;", "let mut open_count: u8 = 0;")],
    r'''
s = Session("--no-db", cols=1000)
s.keys("(" * 300)
s.keys(")" * 300)
s.keys(b"\x0e")
s.keys("7")
same(s.row(), "# 7" + "(" * 300 + ")" * 300, "the line")
''')

bug("C27-four-columns", "C27",
    "A window that is exactly four columns wide.",
    "The room for the line becomes zero and the session panics, leaving the terminal in raw mode.",
    [("src/main.rs", "if cols <= reserved_scrollable {", "if cols < reserved_scrollable {")],
    r'''
m, sl = pty.openpty()
fcntl.ioctl(sl, termios.TIOCSWINSZ, struct.pack("HHHH", 24, 4, 0, 0))
before = termios.tcgetattr(sl)
p = subprocess.Popen([BCALC, "--no-db"], stdin=sl, stdout=sl, stderr=subprocess.PIPE,
                     start_new_session=True, preexec_fn=lambda: fcntl.ioctl(0, termios.TIOCSCTTY, 0))
end = time.time() + 20
while p.poll() is None and time.time() < end:
    if select.select([m], [], [], 0.1)[0] and b"\x1b[6n" in os.read(m, 65536):
        os.write(m, b"\x1b[1;1R")
same(termios.tcgetattr(sl), before, "the terminal modes")
''')

bug("C19-skip-repeats", "C19",
    "The same input entered twice in a row in an earlier session.",
    "A stored input that equals the one recalled before it is passed over.",
    [("src/input_history.rs",
      "                Some(input) => self.primary_db_history.push(input),\n",
      "                Some(input) if self.primary_db_history.last() == Some(&input) => {\n"
      "                    match db.get_prev_input_history()? {\n"
      "                        Some(earlier) => self.primary_db_history.push(earlier),\n"
      "                        None => {\n"
      "                            self.db_history_exhausted = true;\n"
      "                            return Ok(false);\n"
      "                        }\n"
      "                    }\n"
      "                }\n"
      "                Some(input) => self.primary_db_history.push(input),\n")],
    r'''
d = fresh()
s = Session(data=d)
for x in ["1", "2", "2"]:
    s.ask(x)
s.end()
s = Session(data=d)
for x in ["2", "2", "1"]:
    s.keys(UP)
    same(s.row(), "# " + x, "the recalled line")
''')

bug("C19-affinity", "C19",
    "An input that is only a number.",
    "The column has numeric affinity, so the text is stored as a number and cannot be recalled.",
    [("src/saved_data.rs", "                input TEXT NOT NULL,", "                input STRING NOT NULL,")],
    r'''
d = fresh()
s = Session(data=d)
s.ask("007")
s.end()
s = Session(data=d)
s.keys(UP)
same(s.row(), "# 007", "the recalled line")
''')

bug("C21-affinity", "C21",
    "A variable whose numerator or denominator does not fit in 64 bits.",
    "The columns hold numbers, which lose digits above 64 bits.",
    [("src/saved_data.rs", "                numer TEXT NOT NULL,\n                denom TEXT NOT NULL,",
      "                numer INTEGER NOT NULL,\n                denom INTEGER NOT NULL,"),
     ("src/saved_data.rs", "\"SELECT numer, denom FROM variable_history WHERE name=:name\"",
      "\"SELECT printf('%!.0f', numer), printf('%!.0f', denom) FROM variable_history WHERE name=:name\"")],
    r'''
d = fresh()
s = Session(data=d)
s.ask("$a = 2^70 + 1")
s.end()
s = Session(data=d)
same(s.ask("$a"), str(2 ** 70 + 1), "the variable")
''')

bug("C26-exclusive", "C26",
    "Two sessions open at the same time.",
    "The first session keeps the database locked until it ends.",
    [("src/saved_data.rs", "connection.execute(\"PRAGMA foreign_keys = ON;\", ())?;",
      "connection.execute(\"PRAGMA foreign_keys = ON;\", ())?;\n"
      "        connection.pragma_update(None, \"locking_mode\", \"EXCLUSIVE\")?;")],
    r'''
d = fresh()
a = Session(data=d)
a.ask("$a = 1")
b = Session(data=d)
same(b.ask("$a"), "1", "the other session")
''')

bug("C28-one-shot-variables", "C28",
    "A one-shot input that assigns or uses a variable.",
    "It is given a store of its own, so assignments are answered as if they were kept.",
    [("src/main.rs",
      "                &mut command_executor,\n                None,\n                None,\n                None,\n",
      "                &mut command_executor,\n                None,\n                None,\n"
      "                Some(&mut VariableStore::new()),\n")],
    r'''
o, e, rc = one("$a = 5")
same((o, e != ""), ("", True), "an assignment")
''')
