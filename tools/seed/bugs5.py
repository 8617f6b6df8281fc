BUGS = []


def bug(id, property, needs, breaks, edits, demo):
    BUGS.append(dict(id=id, property=property, needs=needs, breaks=breaks, edits=edits, demo=demo))


# --- C34 -----------------------------------------------------------------------------------------

bug("C34-open-in-call", "C34",
    "A function call whose closing parenthesis is missing after at least one argument.",
    "The error blames a closing parenthesis, of which there is none.",
    [("src/syntax_tree.rs",
      "ExpressionEnd::CloseParen(pos) => break pos,\n                        ExpressionEnd::InputEmpty => {\n"
      "                            return Err(Positioned::new(\n                                MismatchedOpenParen,\n"
      "                                post_fn_name_token.position,\n                            ));\n"
      "                        }\n                    }\n                }\n                (None, end)",
      "ExpressionEnd::CloseParen(pos) => break pos,\n                        ExpressionEnd::InputEmpty => {\n"
      "                            return Err(Positioned::new(\n                                MismatchedCloseParen,\n"
      "                                post_fn_name_token.position,\n                            ));\n"
      "                        }\n                    }\n                }\n                (None, end)")],
    r'''
same(one("max(1, 2")[1], "Error: Mismatched open parenthesis\n", "the error")
''')

bug("C34-operator-name", "C34",
    "A remainder that lacks an operand.",
    "The error names division instead.",
    [("src/token.rs", '"Modulus Operator (%)"', '"Division Operator (/)"')],
    r'''
same("%" in one("7 %")[1], True, "the operator in the error")
''')

bug("C34-quoted-clean", "C34",
    "A word that is no number and contains an underscore or a point.",
    "The error quotes the word without these characters.",
    [("src/token.rs", "ParseError::InvalidNumber(buffer_as_string),",
      "ParseError::InvalidNumber(String::from_utf8(clean_buffer.clone()).unwrap_or(buffer_as_string)),")],
    r'''
same("'x_1.5'" in one("1+x_1.5")[1], True, "the word in the error")
''')

bug("C34-variable-case", "C34",
    "An unknown variable with an upper case letter in its name.",
    "The error names it in lower case, which is another variable.",
    [("src/error.rs", 'write!(f, "Unknown variable: {}", name),',
      'write!(f, "Unknown variable: {}", name.to_lowercase()),')],
    r'''
s = Session()
s.ask("$rate = 5")
same(s.ask("$Rate + 1"), "Error: Unknown variable: $Rate", "the error")
''')

bug("C34-no-store", "C34",
    "/reloadvar without a database.",
    "The error says that the variables of the session are unavailable.",
    [("src/commands.rs", "let db = data.maybe_db.ok_or(MissingCapabilityError::NoDatabase)?;\n        let vars",
      "let db = data.maybe_db.ok_or(MissingCapabilityError::NoVariableStore)?;\n        let vars")],
    r'''
s = Session("--no-db", data=fresh())
same(s.ask("/reloadvar $a"), "Error: Database unavailable", "the error")
''')

bug("C34-command-case", "C34",
    "An unknown command with an upper case letter.",
    "The error quotes a command that was not given, maybe even one that exists.",
    [("src/commands.rs", "            None => Err(InputError(MaybePositioned::new_positioned(\n"
      "                format!(\"No such command: '{}'\", alias_name.value),",
      "            None => Err(InputError(MaybePositioned::new_positioned(\n"
      "                format!(\"No such command: '{}'\", alias_name.value.to_lowercase()),")],
    r'''
same(one("/Radix 7")[1], "Error: No such command: 'Radix'\n", "the error")
''')

bug("C34-extra-limit", "C34",
    "/precision with a valid first value and a second one that is negative or above 255.",
    "The error blames the first value.",
    [("src/commands.rs", '"Extra must be representable as an 8-bit unsigned integer".to_string(),',
      '"Precision must be representable as an 8-bit unsigned integer".to_string(),')],
    r'''
same("Extra" in one("/precision 4 300")[1], True, "the value in the error")
''')

bug("C34-two-lines", "C34",
    "A function name with nothing after it.",
    "The error takes two lines, of which the second has no prefix.",
    [("src/error.rs", '"Functions without parentheses are assumed to have a single argument, but ",\n',
      '"Functions without parentheses are assumed to have a single argument, but\\n",\n')],
    r'''
same(one("1+max")[1].count("\n"), 1, "the lines of the error")
''')

bug("C34-upper-limit", "C34",
    "/converttoradix with a value above 16.",
    "The error says that the radix is less than 2.",
    [("src/commands.rs",
      "let integer = parsed_args.pop().unwrap();\n            if integer.value < 2 {\n"
      "                return Err(InputError(MaybePositioned::new_positioned(\n"
      "                    \"Radix cannot be less than 2\".to_string(),\n"
      "                    integer.position,\n                )));\n            }\n"
      "            if integer.value > 16 {\n"
      "                return Err(InputError(MaybePositioned::new_positioned(\n"
      "                    \"Radix cannot be greater than 16\".to_string(),\n"
      "                    integer.position,\n                )));\n            }\n"
      "            Some(integer.value.try_into().unwrap())\n        } else {\n"
      "            let last_arg = parsed_args.pop().unwrap();\n"
      "            let first_arg = parsed_args.into_iter().next().unwrap();\n"
      "            return Err(InputError(MaybePositioned::new_span(\n"
      "                \"Too many arguments\".to_string(),\n"
      "                first_arg.position,\n                last_arg.position,\n            )));\n        };\n\n"
      "        match input {\n            Some(value) => {\n                data.args.convert_to_radix",
      "let integer = parsed_args.pop().unwrap();\n            if !(2..=16).contains(&integer.value) {\n"
      "                return Err(InputError(MaybePositioned::new_positioned(\n"
      "                    \"Radix cannot be less than 2\".to_string(),\n"
      "                    integer.position,\n                )));\n            }\n"
      "            Some(integer.value.try_into().unwrap())\n        } else {\n"
      "            let last_arg = parsed_args.pop().unwrap();\n"
      "            let first_arg = parsed_args.into_iter().next().unwrap();\n"
      "            return Err(InputError(MaybePositioned::new_span(\n"
      "                \"Too many arguments\".to_string(),\n"
      "                first_arg.position,\n                last_arg.position,\n            )));\n        };\n\n"
      "        match input {\n            Some(value) => {\n                data.args.convert_to_radix")],
    r'''
same("16" in one("/converttoradix 20")[1], True, "the limit in the error")
''')

# --- C35 -----------------------------------------------------------------------------------------

bug("C35-columns", "C35",
    "COLUMNS in the environment, as a shell that exports it leaves it behind.",
    "The window is taken to be that wide whatever it is.",
    [("src/main.rs", "let mut cols = usize::from(initial_cols);",
      "let mut cols = std::env::var(\"COLUMNS\")\n            .ok()\n            .and_then(|c| c.parse().ok())\n"
      "            .filter(|c| *c > 4)\n            .unwrap_or(usize::from(initial_cols));")],
    r'''
s = Session(env={"COLUMNS": "20"})
line = "+".join(["1"] * 15)
s.keys(line)
same(line in s.row(), True, "the whole line in the row")
''')

bug("C35-decimal-comma", "C35",
    "LC_NUMERIC set to a German locale, and an answer with a fraction.",
    "The answer has a decimal comma.",
    [("src/operations.rs", 'format!("{}{}.{}", sign_str, int_string_commas, fractional_string)',
      'let point = match std::env::var("LC_NUMERIC") {\n            Ok(l) if l.starts_with("de") => ",",\n'
      '            _ => ".",\n        };\n'
      '        format!("{}{}{}{}", sign_str, int_string_commas, point, fractional_string)')],
    r'''
os.environ["LC_NUMERIC"] = "de_DE.UTF-8"
same(one("1/4")[0], "0.25\n", "the answer")
''')

bug("C35-help-order", "C35",
    "/help twice, in two runs.",
    "The commands are listed in the order of a hash table, which differs from run to run.",
    [("src/commands.rs", "            commands.sort();\n", "            commands.shrink_to_fit();\n")],
    r'''
first = one("/help")
for _ in range(10):
    same(one("/help"), first, "/help")
''')

bug("C35-dumb-terminal", "C35",
    "TERM=dumb, or no TERM at all, and --alternate-screen.",
    "The option is ignored.",
    [("src/main.rs", "            terminal::enable_raw_mode()?;\n            if args.alternate_screen {",
      "            terminal::enable_raw_mode()?;\n"
      "            if std::env::var(\"TERM\").map_or(true, |t| t == \"dumb\") {\n"
      "                args.alternate_screen = false;\n            }\n            if args.alternate_screen {")],
    r'''
s = Session("-a", env={"TERM": "dumb"})
same(b"\x1b[?1049h" in s.buf, True, "the alternate screen")
''')

bug("C35-terminal-answer", "C35",
    "--input with a terminal for its output.",
    "The answer is printed in another form than into a pipe.",
    [("src/main.rs", 'Ok(result) => println!("{}", result),',
      'Ok(result) => {\n                    use std::io::IsTerminal;\n'
      '                    if stdout().is_terminal() {\n                        print!("= ");\n                    }\n'
      '                    println!("{}", result)\n                }')],
    r'''
pid, fd = pty.fork()
if pid == 0:
    os.execv(BCALC, [BCALC, "--input=6*7"])
out = b""
while True:
    try:
        d = os.read(fd, 4096)
    except OSError:
        break
    if not d:
        break
    out += d
same(out.strip(), b"42", "the answer on a terminal")
''')

bug("C35-xdg", "C35",
    "XDG_DATA_HOME in the environment, but no data directory variable.",
    "Inputs are stored where no one asked for it.",
    [("src/saved_data.rs", "Err(env::VarError::NotPresent) => return Ok(None),",
      "Err(env::VarError::NotPresent) => match env::var(\"XDG_DATA_HOME\") {\n"
      "                Ok(s) => s,\n                Err(_) => return Ok(None),\n            },")],
    r'''
d = fresh()
s = Session(env={"XDG_DATA_HOME": d})
s.ask("$a = 1")
s.end()
same(os.listdir(d), [], "the other directory")
''')

bug("C35-settings-variable", "C35",
    "BCALC_PRECISION in the environment.",
    "It overrides the precision, a given one included.",
    [("src/main.rs", "let mut args = Args::parse();",
      "let mut args = Args::parse();\n    if let Some(p) = std::env::var(\"BCALC_PRECISION\").ok().and_then(|p| p.parse().ok()) {\n"
      "        args.precision = p;\n    }")],
    r'''
os.environ["BCALC_PRECISION"] = "2"
same(one("2/3", "-p", "4")[0], "0.6667\n", "the answer")
''')

bug("C35-rc-file", "C35",
    "A file .bcalcrc in the working directory.",
    "Its presence turns commas on.",
    [("src/main.rs", "let mut args = Args::parse();",
      "let mut args = Args::parse();\n    if std::path::Path::new(\".bcalcrc\").exists() {\n"
      "        args.commas = true;\n    }")],
    r'''
d = fresh()
open(d + "/.bcalcrc", "w").close()
os.chdir(d)
same(one("10^6")[0], "1000000\n", "the answer")
''')

# --- C36 -----------------------------------------------------------------------------------------

bug("C36-hexadecimal", "C36",
    "A database written by another version, or read by another program; a stored value of 10 or more.",
    "Values are stored and read with hexadecimal digits.",
    [("src/saved_data.rs", "const VARIABLE_STORAGE_RADIX: u32 = 10;", "const VARIABLE_STORAGE_RADIX: u32 = 16;")],
    r'''
import sqlite3
d = fresh()
s = Session(data=d)
s.ask("$a = 1234/7")
s.end()
db = sqlite3.connect(d + "/bcalc/saved_data.sqlite")
same(db.execute("SELECT numer, denom FROM variable_history").fetchall(), [("1234", "7")], "the stored value")
''')

bug("C36-tags", "C36",
    "A database written by another version, or read by another program.",
    "The tags of the front and the back of the history have changed places.",
    [("src/saved_data.rs", "    Front = 1,", "    Front = 2,"), ("src/saved_data.rs", "    Back = 2,", "    Back = 1,")],
    r'''
import sqlite3
d = fresh()
s = Session(data=d)
for i in range(3):
    s.ask(str(i))
s.end()
db = sqlite3.connect(d + "/bcalc/saved_data.sqlite")
same(db.execute("SELECT input FROM input_history_tags t JOIN input_history h ON h.id = t.value WHERE key = 1").fetchall(),
     [("2",)], "the front")
''')

bug("C36-capacity-key", "C36",
    "A database of another version whose capacity was changed.",
    "The capacity is stored under another key, and the one stored before is lost.",
    [("src/saved_data.rs", "    MaxHistorySize = 3,", "    MaxHistorySize = 4,")],
    r'''
import sqlite3
d = fresh()
s = Session(data=d)
s.ask("/histcap 7")
s.end()
db = sqlite3.connect(d + "/bcalc/saved_data.sqlite")
same(db.execute("SELECT value FROM meta_int WHERE key = 3").fetchall(), [(7,)], "the stored capacity")
''')

bug("C36-bare-names", "C36",
    "A database of another version that holds variables.",
    "Variables are stored and looked up without their '$'.",
    [("src/saved_data.rs", '                ":name": var.name,', '                ":name": &var.name[1..],'),
     ("src/saved_data.rs", '                ":last_used_by": last_used_by_id,\n                ":name": name,',
      '                ":last_used_by": last_used_by_id,\n                ":name": &name[1..],'),
     ("src/saved_data.rs", '                    ":name": &name,', '                    ":name": &name[1..],'),
     ("src/saved_data.rs", '            "DELETE FROM variable_history WHERE name=:name",\n            named_params! {\n                ":name": name,',
      '            "DELETE FROM variable_history WHERE name=:name",\n            named_params! {\n                ":name": &name[1..],')],
    r'''
import sqlite3
d = fresh()
s = Session(data=d)
s.ask("$foo = 3")
s.end()
db = sqlite3.connect(d + "/bcalc/saved_data.sqlite")
same(db.execute("SELECT name FROM variable_history").fetchall(), [("$foo",)], "the stored name")
''')

bug("C36-swapped", "C36",
    "A database of another version that holds a variable with a fractional value.",
    "Numerator and denominator have changed places in the table.",
    [("src/saved_data.rs", "INSERT INTO variable_history (name, numer, denom, last_used_by)",
      "INSERT INTO variable_history (name, denom, numer, last_used_by)"),
     ("src/saved_data.rs", "SELECT numer, denom FROM variable_history", "SELECT denom, numer FROM variable_history")],
    r'''
import sqlite3
d = fresh()
s = Session(data=d)
s.ask("$a = 3/7")
s.end()
db = sqlite3.connect(d + "/bcalc/saved_data.sqlite")
same(db.execute("SELECT numer, denom FROM variable_history").fetchall(), [("3", "7")], "the stored value")
''')

bug("C36-recall-by-id", "C36",
    "A stored history whose ids do not grow from the oldest to the newest input, as the format allows.",
    "Inputs are recalled in the order of their ids instead of that of the links.",
    [("src/saved_data.rs", '"SELECT input, prev FROM input_history WHERE id=:id"',
      '"SELECT input, (SELECT MAX(id) FROM input_history WHERE id<:id) FROM input_history WHERE id=:id"')],
    r'''
import sqlite3
d = fresh()
s = Session(data=d)
for i in range(3):
    s.ask(str(i))
s.end()
db = sqlite3.connect(d + "/bcalc/saved_data.sqlite")
db.executescript("""
DELETE FROM input_history;
INSERT INTO input_history VALUES (9, 'old', 2, NULL), (2, 'middle', 5, 9), (5, 'new', NULL, 2);
UPDATE input_history_tags SET value = 5 WHERE key = 1;
UPDATE input_history_tags SET value = 9 WHERE key = 2;
""")
db.commit()
db.close()
s = Session(data=d)
for text in ["new", "middle", "old"]:
    s.keys(UP)
    same(s.row()[2:], text, "the recalled line")
''')

bug("C36-evict-least-id", "C36",
    "A full history whose ids do not grow from the oldest to the newest input.",
    "The input with the least id is evicted instead of the oldest.",
    [("src/saved_data.rs",
      'let old_back: i64 = transaction.query_row(\n                "SELECT value FROM input_history_tags WHERE key=:key",\n'
      '                named_params! {\n                    ":key": InputHistoryTag::Back as i64,\n                },',
      'let old_back: i64 = transaction.query_row(\n                "SELECT MIN(id) FROM input_history",\n'
      '                (),')],
    r'''
import sqlite3
d = fresh()
s = Session(data=d)
s.ask("/histcap 3")
s.end()
db = sqlite3.connect(d + "/bcalc/saved_data.sqlite")
db.executescript("""
DELETE FROM input_history;
INSERT INTO input_history VALUES (9, 'old', 2, NULL), (2, 'middle', 5, 9), (5, 'new', NULL, 2);
UPDATE input_history_tags SET value = 5 WHERE key = 1;
UPDATE input_history_tags SET value = 9 WHERE key = 2;
""")
db.commit()
s = Session(data=d)
s.ask("1+1")
s.end()
same(sorted(db.execute("SELECT input FROM input_history").fetchall()), [("1+1",), ("middle",), ("new",)], "the stored inputs")
''')

bug("C36-next-id", "C36",
    "A stored history whose front does not have the greatest id.",
    "The id after the front's is used for the new input though another has it, so the input fails.",
    [("src/saved_data.rs", '"INSERT INTO input_history (input, next, prev) VALUES (:input, NULL, :prev)"',
      '"INSERT INTO input_history (id, input, next, prev) VALUES (IFNULL(:prev, 0) + 1, :input, NULL, :prev)"')],
    r'''
import sqlite3
d = fresh()
s = Session(data=d)
s.ask("1")
s.end()
db = sqlite3.connect(d + "/bcalc/saved_data.sqlite")
db.executescript("""
DELETE FROM input_history;
INSERT INTO input_history VALUES (9, 'old', 2, NULL), (2, 'middle', 8, 9), (8, 'new', NULL, 2);
UPDATE input_history_tags SET value = 8 WHERE key = 1;
UPDATE input_history_tags SET value = 9 WHERE key = 2;
""")
db.commit()
db.close()
s = Session(data=d)
same(s.ask("1+1"), "2", "the answer")
''')

bug("C36-version-two", "C36",
    "A fresh database, read by a program that knows version 1 only.",
    "The data is marked as version 2 although its format has not changed.",
    [("src/saved_data.rs", "const CURRENT_DB_VERSION: i64 = 1;", "const CURRENT_DB_VERSION: i64 = 2;")],
    r'''
import sqlite3
d = fresh()
s = Session(data=d)
s.ask("1")
s.end()
db = sqlite3.connect(d + "/bcalc/saved_data.sqlite")
same(db.execute("SELECT value FROM meta_int WHERE key = 1").fetchall(), [(1,)], "the version")
''')

