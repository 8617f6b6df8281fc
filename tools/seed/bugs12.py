BUGS = []


def bug(id, property, needs, breaks, edits, demo):
    BUGS.append(dict(id=id, property=property, needs=needs, breaks=breaks, edits=edits, demo=demo))


MAIN = "src/main.rs"
HIST = "src/input_history.rs"
SAVED = "src/saved_data.rs"
VAR = "src/variable.rs"
TOKEN = "src/token.rs"
OPS = "src/operations.rs"
COM = "src/commands.rs"
TREE = "src/syntax_tree.rs"

bug("C02-four-minus", "C02",
    "Four minus signs after another operator.",
    "The input is refused.",
    [(TREE, "                && (ooos.len() < 2 || ooos[ooos.len() - 2].is_operator())\n",
      "                && (ooos.len() < 2 || ooos[ooos.len() - 2].is_operator())\n                && !(ooos.len() > 3\n                    && ooos[ooos.len() - 2].matches_operator(BinaryOperatorToken::Subtract)\n                    && ooos[ooos.len() - 3].matches_operator(BinaryOperatorToken::Subtract)\n                    && ooos[ooos.len() - 4].is_operator())\n")],
    r'''
same(one("1*----2")[0].strip(), "2", "the answer")
''')

bug("C21-zero-cleared", "C21",
    "A variable that is set to zero, read by another session.",
    "It is unknown there.",
    [(SAVED, "        var: &Variable,\n        last_used_by_id: i64,\n    ) -> Result<(), Box<dyn std::error::Error>> {\n",
      "        var: &Variable,\n        last_used_by_id: i64,\n    ) -> Result<(), Box<dyn std::error::Error>> {\n        if var.value.numer().bits() == 0 {\n            return self.clear_variable(&var.name);\n        }\n")],
    r'''
d = fresh()
s = Session(data=d)
s.ask("$x = 0")
s.end()
s = Session(data=d)
same(s.ask("$x"), "0", "the variable")
''')

bug("C14-control-home", "C14",
    "Control+Home or Control+End.",
    "It is ignored.",
    [(MAIN, "                        KeyCode::Home => {\n", "                        KeyCode::Home | KeyCode::End\n                            if event.modifiers == KeyModifiers::CONTROL =>\n                        {\n                            continue 'get_event;\n                        }\n                        KeyCode::Home => {\n")],
    r'''
s = Session()
s.keys("23")
s.keys("\x1b[1;5H")
same(s.ask("1"), "123", "the answer")
''')

bug("C14-alt-word", "C14",
    "Alt+Right with the cursor inside the line.",
    "It moves the cursor by one.",
    [(MAIN, "                            } else {\n                                continue 'get_event;\n                            };\n                            let current_input_len",
      "                            } else if event.modifiers == KeyModifiers::ALT {\n                                1\n                            } else {\n                                continue 'get_event;\n                            };\n                            let current_input_len")],
    r'''
s = Session()
s.keys("13")
s.keys(HOME)
s.keys("\x1b[1;3C")
same(s.ask("2"), "213", "the answer")
''')

bug("C18-shift-up", "C18",
    "Up pressed with a modifier.",
    "It goes two lines back.",
    [(MAIN, "                            cursor_pos = inputs.current_line().len();\n                            scroll_offset = 0;\n                            break 'get_event;\n                        }\n                        KeyCode::Down => {\n",
      "                            if event.modifiers == KeyModifiers::SHIFT {\n                                let _ = inputs.try_to_go_to_earlier_line(maybe_db.as_mut());\n                            }\n                            cursor_pos = inputs.current_line().len();\n                            scroll_offset = 0;\n                            break 'get_event;\n                        }\n                        KeyCode::Down => {\n")],
    r'''
s = Session()
for x in "123":
    s.ask(x)
s.keys("\x1b[1;2A")
same(s.ask("+10"), "13", "the answer")
''')

bug("C01-remainder-mixed", "C01",
    "The remainder of two fractions, of which only the first is negative.",
    "The sign is that of the second.",
    [(TREE, "                Ok(operand_1 % operand_2)\n",
      "                if operand_1.is_negative()\n                    && operand_2.is_positive()\n                    && !operand_1.is_integer()\n                    && !operand_2.is_integer()\n                {\n                    let r = operand_1 % &operand_2;\n"
      "                    return Ok(if r.is_negative() { r + operand_2 } else { r });\n                }\n                Ok(operand_1 % operand_2)\n")],
    r'''
same(one("(0-7.5) % 2.5 + (0-1.5) % 1.25")[0].strip(), "-0.25", "the answer")
''')

bug("C05-comma-seventh", "C05",
    "Commas in a number of more than 60 digits.",
    "Those before the 20th group are missing.",
    [(OPS, "    let int_string_commas: String = if commas {\n", "    let int_string_commas: String = if commas && int_string.len() > 60 {\n        let (a, b) = int_string.split_at(int_string.len() - 60);\n        let b: Vec<String> = b\n            .as_bytes()\n            .chunks(3)\n            .map(|s| String::from_utf8_lossy(s).to_string())\n            .collect();\n        format!(\"{},{}\", a, b.join(\",\"))\n    } else if commas {\n")],
    r'''
same(one("10^64", "-c")[0].strip(), "10" + ",000" * 21, "the answer")
''')

bug("C10-extra-negative", "C10",
    "/precision with a valid value and a negative extra.",
    "The value is set although the command is refused.",
    [(COM, "            let maybe_extra = parsed_args_iter.next();\n", "            let maybe_extra = parsed_args_iter.next();\n            if maybe_extra.as_ref().map_or(false, |e| e.value < 0) {\n                data.args.precision = precision;\n            }\n")],
    r'''
s = Session()
was = s.ask("/precision")
same(s.ask("/precision 3 -1")[:6], "Error:", "the answer")
same(s.ask("/precision"), was, "the precision")
''')

bug("C28-no-db-limit", "C28",
    "More than 20 inputs in a session without a database.",
    "The earliest can't be recalled.",
    [(HIST, "        self.current_history.clear();\n", "        if maybe_db.is_none() && self.primary_internal_history.len() > 20 {\n            self.primary_internal_history.remove(0);\n        }\n        self.current_history.clear();\n")],
    r'''
s = Session("--no-db")
for i in range(22):
    s.ask(str(i))
for i in range(22):
    s.keys(UP)
same(s.row().strip(), "# 0", "the earliest line")
''')

bug("C34-position-word", "C34",
    "An invalid number with an underscore.",
    "The message shows it without the underscore.",
    [(TOKEN, "                ParseError::InvalidNumber(buffer_as_string),\n                buffer_start,\n", "                ParseError::InvalidNumber(buffer_as_string.replace('_', \"\")),\n                buffer_start,\n")],
    r'''
out = one("1_2x")
same("1_2x" in out[0] + out[1], True, "the message")
''')

bug("C23-reload-only-held", "C23",
    "/reloadvar with a name the session holds, whose stored value was purged elsewhere.",
    "The session loses its value.",
    [(VAR, "            Ok(Some(var))\n        } else {\n            Ok(None)\n", "            Ok(Some(var))\n        } else {\n            self.vars.retain(|n, v| n.len() != 2 || !v.is_integer() || db.get_variable(n.clone()).map_or(true, |x| x.is_some()));\n            Ok(None)\n")],
    r'''
d = fresh()
s = Session(data=d)
s.ask("$x = 1")
t = Session(data=d)
t.ask("/purgevar $x")
s.ask("/reloadvar $x")
same(s.ask("$x"), "1", "the variable")
''')

bug("C17-tab-answer", "C17",
    "An answer exactly as wide as the window.",
    "A blank row follows it.",
    [(MAIN, "            queue!(stdout, Print(line), Print(\"\\n\"), MoveToColumn(0))?;\n        }\n        stdout.flush()?;\n    } // 'calculate",
      "            if line.len() == cols {\n                queue!(stdout, Print(line), Print(\"\\n\"))?;\n            } else {\n                queue!(stdout, Print(line))?;\n            }\n            queue!(stdout, Print(\"\\n\"), MoveToColumn(0))?;\n        }\n        stdout.flush()?;\n    } // 'calculate")],
    r'''
s = Session(cols=20)
s.keys("10^19\r")
s.pump(1)
same(s.buf.count(b"1" + b"0" * 19 + b"\n\n"), 0, "rows after the answer")
''')
