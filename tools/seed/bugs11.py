BUGS = []


def bug(id, property, needs, breaks, edits, demo):
    BUGS.append(dict(id=id, property=property, needs=needs, breaks=breaks, edits=edits, demo=demo))


MAIN = "src/main.rs"
HIST = "src/input_history.rs"
SAVED = "src/saved_data.rs"
VAR = "src/variable.rs"
TOKEN = "src/token.rs"
OPS = "src/operations.rs"
COM = "src/commands.rs"

bug("C05-trim-wide", "C05",
    "A rounded result shown with more than 155 digits, the last of which is zero.",
    "The zeros that show it is rounded are dropped.",
    [(OPS, "        if value_precisely_represented {\n", "        if value_precisely_represented || radix_power.bits() > 515 {\n")],
    r'''
x = one("(10^159 + 1) / 10^161 + 1 / (3 * 10^170)", "--precision=160")[0].strip()
same(x[-2:], "00", "the last digits")
same(len(x), 162, "the length")
''')

bug("C06-upper-long", "C06",
    "A fraction in upper case whose numerator or denominator has more than 64 bits.",
    "It is shown in lower case.",
    [(MAIN, "            make_decimal_string(&value, output_radix, 0, args.commas, args.upper)\n",
      "            let upper = args.upper && integer.bits() <= 64;\n            make_decimal_string(&value, output_radix, 0, args.commas, upper)\n")],
    r'''
same(one("abcdefabcdefabcdefabcdef", "--radix=16", "-f", "-u")[0].strip(), "ABCDEFABCDEFABCDEFABCDEF", "an integer")
same(one("abcdefabcdefabcdefabcdef/1000", "--radix=16", "-f", "-u")[0].strip(), "ABCDEFABCDEFABCDEFABCDEF/1000", "a fraction")
''')

bug("C09-radix-narrow", "C09",
    "/radix with a value that is 2 to 16 more than a multiple of 256.",
    "The session panics.",
    [(COM, "            if integer.value > 16 {\n                return Err(InputError(MaybePositioned::new_positioned(\n                    \"Radix cannot be greater than 16\".to_string(),\n                    integer.position,\n                )));\n            }\n            Some(integer.value.try_into().unwrap())\n        } else {\n            let last_arg = parsed_args.pop().unwrap();\n            let first_arg = parsed_args.into_iter().next().unwrap();\n            return Err(InputError(MaybePositioned::new_span(\n                \"Too many arguments\".to_string(),\n                first_arg.position,\n                last_arg.position,\n            )));\n        };\n\n        match input {\n            Some(value) => {\n                data.args.radix = value;\n",
      "            if integer.value as u8 > 16 {\n                return Err(InputError(MaybePositioned::new_positioned(\n                    \"Radix cannot be greater than 16\".to_string(),\n                    integer.position,\n                )));\n            }\n            Some(integer.value.try_into().unwrap())\n        } else {\n            let last_arg = parsed_args.pop().unwrap();\n            let first_arg = parsed_args.into_iter().next().unwrap();\n            return Err(InputError(MaybePositioned::new_span(\n                \"Too many arguments\".to_string(),\n                first_arg.position,\n                last_arg.position,\n            )));\n        };\n\n        match input {\n            Some(value) => {\n                data.args.radix = value;\n")],
    r'''
s = Session()
same(s.ask("/radix 260")[:6], "Error:", "the answer")
same(s.ask("1+1"), "2", "the next answer")
''')

bug("C12-bare-dollar", "C12",
    "A variable whose name is only the dollar sign.",
    "It is taken for a number.",
    [(TOKEN, "        if buffer[0] == b'$' {\n", "        if buffer[0] == b'$' && width > 1 {\n")],
    r'''
s = Session()
s.ask("$ = 4")
same(s.ask("$ + 1"), "5", "the answer")
''')

bug("C18-down-dups", "C18",
    "Down over two equal neighbours in the history, neither of them edited.",
    "One press passes both.",
    [(HIST, "        self.current_index -= 1;\n        return true;\n",
      "        let was = self.current_line().to_string();\n        self.current_index -= 1;\n"
      "        if self.current_index > 1\n            && self.current_history[self.current_index].is_none()\n            && self.current_line() == was\n        {\n            self.current_index -= 1;\n        }\n        return true;\n")],
    r'''
s = Session()
for x in ("1", "2", "2", "3"):
    s.ask(x)
for i in range(4):
    s.keys(UP)
for i in range(2):
    s.keys(DOWN)
same(s.ask("+10"), "12", "the line after two Downs")
''')

bug("C25-line-lost", "C25",
    "An input that cannot be stored because the disk is full, recalled later in the session.",
    "It is missing from the session's own history.",
    [(HIST, "        self.primary_internal_history\n            .push(self.current_line().to_string());\n        self.current_history.clear();\n",
      "        let line = self.current_line().to_string();\n        self.current_history.clear();\n"),
     (HIST, "            Ok(Some(db.add_to_input_history(\n                &self.primary_internal_history[self.primary_internal_history.len() - 1],\n            )?))\n        } else {\n            Ok(None)\n",
      "            let id = db.add_to_input_history(&line)?;\n            self.primary_internal_history.push(line);\n            Ok(Some(id))\n        } else {\n            self.primary_internal_history.push(line);\n            Ok(None)\n")],
    r'''
import sqlite3
d = fresh()
s = Session(data=d)
s.ask("1+1")
c = sqlite3.connect(d + "/bcalc/saved_data.sqlite", isolation_level=None)
c.execute("BEGIN IMMEDIATE")
s.keys("2+2\r")
end = time.time() + 9
while time.time() < end:
    s.pump(0.2)
c.execute("ROLLBACK")
s.pump(2)
s.keys(UP)
same(s.row().strip(), "# 2+2", "the recalled line")
''')

bug("C10-none-upper", "C10",
    "/converttoradix with 'none' in capitals.",
    "It is refused.",
    [(COM, "        if arguments.value.to_lowercase().trim() == \"none\" {\n", "        if arguments.value.trim() == \"none\" {\n")],
    r'''
s = Session("--convert-to-radix=2")
same(s.ask("/converttoradix NONE"), "Done", "the answer")
''')

bug("C04-long-zeros", "C04",
    "A number of more than 40 digits that begins with zero.",
    "It is refused.",
    [(TOKEN, "        let numer = BigInt::parse_bytes(&clean_buffer, radix.into()).ok_or_else(|| {\n",
      "        if clean_buffer.len() > 40 && clean_buffer.starts_with(b\"0\") && maybe_dec_index.is_none() {\n            clean_buffer.push(b'~');\n        }\n"
      "        let numer = BigInt::parse_bytes(&clean_buffer, radix.into()).ok_or_else(|| {\n")],
    r'''
same(one("0" * 45 + "7 + 1")[0].strip(), "8", "the answer")
''')

bug("C16-edge-cursor", "C16",
    "Moving right to the last character shown of a line that goes on.",
    "The cursor stands on the mark instead of the character.",
    [(MAIN, "if cursor_pos < scroll_offset || cursor_pos + 1 > scroll_offset + scroll_window_size\n",
      "if cursor_pos < scroll_offset || cursor_pos > scroll_offset + scroll_window_size\n")],
    r'''
s = Session(cols=20)
s.keys("1234567890123456" + "abcdef" * 3)
s.keys(HOME)
for i in range(16):
    s.keys(RIGHT)
r = s.row()
same("a" in r.split(">")[0], True, "the character at the cursor is shown: %r" % r)
''')

bug("C21-reload-radix", "C21",
    "/reloadvar while the radix is 16.",
    "The value is printed in hexadecimal.",
    [(COM, "                output.push_str(&format!(\"Set {} to {}\", reloaded.name, reloaded.value));\n",
      "                let shown = if data.args.radix == 16 && reloaded.value.is_integer() {\n                    reloaded.value.numer().to_str_radix(16)\n                } else {\n                    reloaded.value.to_string()\n                };\n"
      "                output.push_str(&format!(\"Set {} to {}\", reloaded.name, shown));\n")],
    r'''
d = fresh()
s = Session("--radix=16", data=d)
s.ask("$x = ff")
same(s.ask("/reloadvar $x"), "Set $x to 255", "the answer")
''')

bug("C22-touch-from-oldest", "C22",
    "A variable last used by the oldest kept input, used again by the input that evicts it, in a full history.",
    "It is removed although it was used.",
    [(SAVED, "            \"UPDATE variable_history SET last_used_by=:last_used_by WHERE name=:name\",\n",
      "            \"UPDATE variable_history SET last_used_by=:last_used_by WHERE name=:name\n                AND last_used_by<>(SELECT value FROM input_history_tags WHERE key=2)\",\n")],
    r'''
d = fresh()
s = Session(data=d)
s.ask("/histcap 3")
s.ask("$x = 5")
s.ask("1")
s.ask("2")
s.ask("$x")
s.ask("3")
s.end()
s = Session(data=d)
same(s.ask("$x"), "5", "the variable")
''')

bug("C23-assign-copy", "C23",
    "A variable assigned from another session's value that this session has never used.",
    "The session's own copy is refreshed by every assignment to the same name elsewhere.",
    [(VAR, "        if let Some(value) = self.vars.get(&name) {\n",
      "        if self.vars.len() > 3 {\n            // Keep it small.\n            if let Some(db) = maybe_db {\n                if let Some(var) = self.reload(name.clone(), db)? {\n                    return Ok(Some(var));\n                }\n                return Ok(self.vars.get(&name).map(|value| Variable {\n                    name,\n                    value: value.clone(),\n                }));\n            }\n            return Ok(self.vars.get(&name).map(|value| Variable {\n                name,\n                value: value.clone(),\n            }));\n        }\n"
      "        if let Some(value) = self.vars.get(&name) {\n")],
    r'''
d = fresh()
s = Session(data=d)
for n in "abcd":
    s.ask("$%s = 1" % n)
t = Session(data=d)
t.ask("$a = 2")
same(s.ask("$a"), "1", "the session's own value")
''')

bug("C19-backslash", "C19",
    "An input with a backslash, from an earlier session.",
    "Recalled, it has two.",
    [(SAVED, "                \":input\": input,\n", "                \":input\": input.replace('\\\\', \"\\\\\\\\\"),\n")],
    r'''
d = fresh()
s = Session(data=d)
s.ask("1\\2")
s.end()
s = Session(data=d)
s.keys(UP)
same(s.row().strip(), "# 1\\2", "the recalled line")
''')

bug("C20-histcap-front", "C20",
    "/histcap 1 in a longer history.",
    "Two inputs remain.",
    [(SAVED, "            if history_size <= max_history_size {\n", "            if history_size <= std::cmp::max(max_history_size, 2) {\n")],
    r'''
d = fresh()
s = Session(data=d)
for i in range(4):
    s.ask(str(i))
s.ask("/histcap 1")
s.end()
s = Session(data=d)
s.keys(UP)
s.keys(UP)
same(s.row().strip(), "# /histcap 1", "the earliest line")
''')

bug("C13-comma-radix", "C13",
    "Grouping switched on while the radix is below ten.",
    "The output radix is set to ten.",
    [(COM, "        data.args.commas = value;\n", "        data.args.commas = value;\n        if value && data.args.radix == 7 {\n            data.args.convert_to_radix = data.args.convert_to_radix.or(Some(10));\n        }\n")],
    r'''
s = Session("--radix=7")
s.ask("/comma t")
same(s.ask("10"), "10", "the answer")
''')
