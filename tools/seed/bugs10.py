BUGS = []


def bug(id, property, needs, breaks, edits, demo):
    BUGS.append(dict(id=id, property=property, needs=needs, breaks=breaks, edits=edits, demo=demo))


MAIN = "src/main.rs"
HIST = "src/input_history.rs"
SAVED = "src/saved_data.rs"
VAR = "src/variable.rs"

bug("C15-modifier-lost", "C15",
    "Control+N at the end of a line whose last character is a parenthesis, in a scrolled window.",
    "The cursor is brought back to the start when the match lies left of what is shown.",
    [(MAIN, "                                        if open_count == 0 {\n                                            cursor_pos = pos;\n",
      "                                        if open_count == 0 {\n                                            cursor_pos = if pos < scroll_offset { 0 } else { pos };\n")],
    r'''
s = Session(cols=20)
s.keys("1+(" + "2+" * 20 + "3)")
s.keys("\x0e")
s.keys("9*")
same(s.ask("").split("\n")[-1], "388", "the answer with 9* before the parenthesis")
''')

bug("C15-same-kind", "C15",
    "Control+N on an opening parenthesis that directly follows the closing one of another pair.",
    "It goes to the one that closes before it.",
    [(MAIN, "                                            b'(' => (false, b'(', b')'),\n",
      "                                            b'(' if pos > 0\n                                                && string_bytes[pos - 1] == b')'\n"
      "                                                && pos == cursor_pos =>\n                                            {\n"
      "                                                pos -= 1;\n                                                (true, b')', b'(')\n                                            }\n"
      "                                            b'(' => (false, b'(', b')'),\n")],
    r'''
s = Session()
s.keys("(1)(2)")
for i in range(3):
    s.keys(LEFT)
s.keys("\x0e")
s.keys("+")
same(s.row().rstrip(), "# (1)(2+)", "the line")
''')

bug("C16-scroll-kept", "C16",
    "Down from a long, scrolled line to a short one, in a narrow window.",
    "The window stays scrolled after Down, so the short line is shown from its middle.",
    [(MAIN, "                            if !inputs.try_to_go_to_later_line() {\n                                continue 'get_event;\n                            }\n                            cursor_pos = inputs.current_line().len();\n                            scroll_offset = 0;\n",
      "                            if !inputs.try_to_go_to_later_line() {\n                                continue 'get_event;\n                            }\n                            cursor_pos = inputs.current_line().len();\n"
      "                            scroll_offset = min(scroll_offset, cursor_pos);\n")],
    r'''
s = Session(cols=20)
s.ask("1" * 40)
s.keys("123456")
s.keys(UP)
s.keys(DOWN)
same(s.row().strip(), "# 123456", "the row")
''')

bug("C16-resize-wider", "C16",
    "A window made wider while a long line is scrolled to its end and the whole line would now fit.",
    "The size is taken over only by the next prompt.",
    [(MAIN, "                        cols = usize::from(width);\n                        rows = height;\n",
      "                        if usize::from(width) < 2 * cols || args.alternate_screen {\n                            cols = usize::from(width);\n                        }\n                        rows = height;\n")],
    r'''
s = Session(cols=20)
s.keys("1234567890" * 5)
s.resize(100, 50)
s.keys(HOME)
same(s.row().strip(), "# " + "1234567890" * 5, "the row")
''')

bug("C17-alternate-empty-row", "C17",
    "Alternate screen; a line that fills its last row exactly, submitted with the cursor elsewhere.",
    "The last character is overwritten by the answer's row.",
    [(MAIN, "                    let last_text_row = current_input.len().saturating_sub(1) / available_cols;\n",
      "                    let last_text_row =\n                        current_input.len().saturating_sub(2 + usize::from(cursor_pos == 0)) / available_cols;\n")],
    r'''
s = Session("-a", cols=12, rows=3)
s.keys("1" * 10)
s.keys("+")
s.keys("2" * 9)
s.keys("+")
s.keys("3" * 10)
n = s.buf.rfind(b"\x1b[1S")
same(n >= 0, True, "the screen scrolls for the third row")
s.keys("4")
before = s.buf.count(b"\x1b[1S")
s.end()
s = Session("-a", cols=12, rows=5)
for i in range(4):
    s.ask("1")
s.keys("1" * 11)
s.keys(HOME)
n = len(s.buf)
s.keys(HOME)
''')
BUGS.pop()

bug("C17-blank-lines", "C17",
    "An output with a blank line, as /help with a command's name gives.",
    "Blank lines are left out.",
    [(MAIN, "        for line in output.split('\\n') {\n",
      "        for line in output\n            .split('\\n')\n            .filter(|line| !line.is_empty() || output.len() < 400)\n        {\n")],
    r'''
s = Session(cols=200, rows=60)
got = s.ask("/help precision")
same("" in got.split("\n"), True, "a blank line in the help")
''')
BUGS.pop()

bug("C18-recall-after-error", "C18",
    "A line answered with an error, edited when recalled, given up with Down, and recalled again after another input.",
    "The edits of one line stay for the next.",
    [(HIST, "        self.current_history.clear();\n        self.current_history.push(Some(String::new()));\n",
      "        let composed = self.current_index == 0;\n        let kept = self.current_history.len() > 2 && composed;\n"
      "        if kept {\n            self.current_history.truncate(2);\n            self.current_history[0] = Some(String::new());\n            self.current_history.insert(1, None);\n"
      "        } else {\n            self.current_history.clear();\n            self.current_history.push(Some(String::new()));\n        }\n")],
    r'''
s = Session()
s.ask("1")
s.ask("2")
s.keys(UP)
s.keys("5")
s.keys(UP)
s.keys(DOWN)
s.keys(DOWN)
s.ask("3")
s.keys(UP)
same(s.row().strip(), "# 3", "the last")
s.keys(UP)
same(s.row().strip(), "# 2", "the one before")
''')

bug("C18-down-wraps", "C18",
    "Down on the composed line when an earlier line has been looked at.",
    "It goes round to the oldest line looked at.",
    [(HIST, "        if self.current_index <= 0 {\n            return false;\n        }\n",
      "        if self.current_index <= 0 {\n            if self.current_history.len() > 4 && self.current_history[0].as_deref() == Some(\"\") {\n"
      "                self.current_index = self.current_history.len() - 1;\n                return true;\n            }\n            return false;\n        }\n")],
    r'''
s = Session()
for i in range(5):
    s.ask(str(i))
for i in range(4):
    s.keys(UP)
for i in range(5):
    s.keys(DOWN)
same(s.row().strip(), "#", "the composed line")
''')

bug("C26-touch-first", "C26",
    "Two sessions, one of which adds an input while the other is between reading the front of the list and writing.",
    "The transaction takes its lock only when it writes, and fails with 'database is locked'.",
    [(SAVED, "        let transaction = self\n            .connection\n            .transaction_with_behavior(TransactionBehavior::Immediate)?;\n        let maybe_orig_front",
      "        let transaction = self\n            .connection\n            .transaction_with_behavior(TransactionBehavior::Deferred)?;\n        let maybe_orig_front")],
    r'''
import sqlite3, threading
d = fresh()
s = Session(data=d)
t = Session(data=d)
bad = []
def run(x, k):
    for i in range(40):
        a = x.ask(str(k + i))
        if a != str(k + i):
            bad.append(a)
a = threading.Thread(target=run, args=(s, 100))
b = threading.Thread(target=run, args=(t, 200))
# A reader that holds shared locks makes the moments longer.
a.start(); b.start(); a.join(); b.join()
same(bad, [], "failed inputs")
''')

bug("C26-set-variable-upgrade", "C26",
    "Two sessions assign variables at the same moment.",
    "The transaction reads before it writes, and fails when the other one wrote in between.",
    [(SAVED, "    pub fn set_variable(", "    #[doc = \"Stores a variable.\"]\n    pub fn set_variable(")],
    r'''
''')
BUGS.pop()

bug("C27-end-answer", "C27",
    "Control+D while a recalled, edited line is shown.",
    "The line is stored as if it had been entered.",
    [(MAIN, "                                    if !args.alternate_screen {\n                                        // End this line before moving on.\n                                        execute!(stdout, Print(\"\\n\"))?;\n                                    }\n                                    break 'calculate;",
      "                                    if !args.alternate_screen {\n                                        // End this line before moving on.\n                                        execute!(stdout, Print(\"\\n\"))?;\n                                    }\n"
      "                                    if c == 'z' && cursor_pos == 0 {\n                                        // Suspended in the middle: keep the line for the next session.\n"
      "                                        if !inputs.current_line().is_empty() {\n                                            let _ = inputs.input_finished(maybe_db.as_mut());\n                                        }\n                                    }\n"
      "                                    break 'calculate;")],
    r'''
d = fresh()
s = Session(data=d)
s.ask("1")
s.keys("234")
s.keys(HOME)
os.write(s.fd, b"\x1a")
s.wait()
s = Session(data=d)
s.keys(UP)
same(s.row().strip(), "# 1", "the newest")
''')

bug("C27-shift-control", "C27",
    "Control+C when a long line is scrolled.",
    "It only clears the line.",
    [(MAIN, "                                if c == 'd' || c == 'z' || c == 'c' {\n",
      "                                if c == 'c' && scroll_offset > 0 {\n                                    cursor_pos = 0;\n                                    break 'get_event;\n                                } else if c == 'd' || c == 'z' || c == 'c' {\n")],
    r'''
s = Session(cols=20)
s.keys("1" * 40)
os.write(s.fd, b"\x03")
end = time.time() + 5
alive = True
while alive and time.time() < end:
    alive = s.pump(0.2)
same(alive, False, "the session goes on")
''')

bug("C11-precision-root", "C11",
    "A root in one-shot mode with --precision 0.",
    "The extra precision is not used.",
    [(MAIN, "    let st = SyntaxTree::new(tokens.into())?;\n",
      "    let extra = args.extra_precision;\n    if args.input.is_some() && args.precision == 0 {\n        args.extra_precision = 0;\n    }\n    let st = SyntaxTree::new(tokens.into())?;\n"),
     (MAIN, "    let result = st.execute(maybe_input_history_id, maybe_vars, maybe_db, args)?;\n",
      "    let result = st.execute(maybe_input_history_id, maybe_vars, maybe_db, args);\n    args.extra_precision = extra;\n    let result = result?;\n")],
    r'''
got = one("sqrt(3)*1000", "--precision=0")[0]
s = Session("--precision=0")
same(got.strip(), s.ask("sqrt(3)*1000"), "the one-shot answer")
''')

bug("C11-blank-input", "C11",
    "A one-shot input of blanks only.",
    "It is answered with 0.",
    [(MAIN, "    if tokens.is_empty() {\n        return Ok(String::new());\n    }\n",
      "    if tokens.is_empty() {\n        if args.input.is_some() && input.len() > 1 {\n            return Ok(String::from(\"0\"));\n        }\n        return Ok(String::new());\n    }\n")],
    r'''
same(one("  ")[0].strip(), "", "the answer")
''')

bug("C11-trailing-blank", "C11",
    "A one-shot input that begins with #.",
    "It is accepted without it; a session refuses it.",
    [(MAIN, "    let tokens = match tokenizer.tokenize(input, args.radix)? {\n",
      "    let input = if args.input.is_some() { input.trim_start_matches('#') } else { input };\n    let tokens = match tokenizer.tokenize(input, args.radix)? {\n")],
    r'''
same(one("#1+1")[1] != "" or one("#1+1")[0] == "", True, "an error")
''')

bug("C28-empty-history-file", "C28",
    "The database is switched off by its flag, together with fractional display.",
    "The database is opened and written to.",
    [(MAIN, "    let mut maybe_db: Option<SavedData> = if args.no_db { None } else { SavedData::open()? };\n",
      "    let mut maybe_db: Option<SavedData> = if args.no_db && !args.fractional {\n        None\n    } else {\n        SavedData::open()?\n    };\n")],
    r'''
d = fresh()
import subprocess
out = subprocess.run([BCALC, "--help"], capture_output=True).stdout.decode()
flag = [w for w in out.replace(",", " ").split() if w.startswith("--no-")][0]
s = Session(flag, "--fractional", data=d)
s.ask("1")
same(os.listdir(d), [], "the data directory")
''')

bug("C12-failed-get", "C12",
    "Without a database, an unknown variable whose name is that of another one with a 0 after it.",
    "It is answered with the other's value.",
    [(VAR, "        if let Some(db) = maybe_db {\n            self.reload(name, db)\n        } else {\n            Ok(None)\n        }",
      "        if let Some(db) = maybe_db {\n            self.reload(name, db)\n        } else {\n            let shorter = name.trim_end_matches('0').to_string();\n"
      "            Ok(self.vars.get(&shorter).map(|value| Variable {\n                name: name.clone(),\n                value: value.clone(),\n            }))\n        }")],
    r'''
s = Session()
s.ask("$x = 5")
same(s.ask("$x0")[:5], "Error", "the answer")
''')

bug("C13-history-of-empty", "C13",
    "An error in an input of more than 40 characters that is only found when it is evaluated.",
    "The extra precision is one larger afterwards.",
    [(MAIN, "    let result = st.execute(maybe_input_history_id, maybe_vars, maybe_db, args)?;\n",
      "    let radix_before = args.radix;\n    if input.len() > 40 && args.extra_precision < 50 {\n        args.extra_precision += 1;\n    }\n"
      "    let result = st.execute(maybe_input_history_id, maybe_vars, maybe_db, args)?;\n    if input.len() > 40 && args.extra_precision < 51 {\n        args.extra_precision -= 1;\n    }\n    args.radix = radix_before;\n")],
    r'''
s = Session()
a = s.ask("/precision")
s.ask("1/0+" + "1+" * 30 + "1")
same(s.ask("/precision"), a, "the setting")
''')

bug("C32-answer-eats-key", "C32",
    "Keys typed while an answer of several lines is printed.",
    "The first of them is dropped.",
    [(MAIN, "        for line in output.split('\\n') {\n            // MoveToNextLine doesn't scroll when we are on the last row of the screen.\n",
      "        if output.matches('\\n').count() > 3 && event::poll(std::time::Duration::ZERO)? {\n            // \"More\": any key goes on.\n            event::read()?;\n        }\n"
      "        for line in output.split('\\n') {\n            // MoveToNextLine doesn't scroll when we are on the last row of the screen.\n")],
    r'''
s = Session()
n = s.buf.count(b"\x1b[6n")
os.write(s.fd, b"/help\r12+34\r")
end = time.time() + 10
while time.time() < end and s.buf.count(b"\x1b[6n") < n + 2:
    s.pump(0.2)
s.quiet()
same(b"46" in s.buf, True, "the second answer")
''')

bug("C23-first-wins", "C23",
    "Two sessions assign the same variable, the second to the value the first one had read.",
    "An assignment of the session's own earlier value is not stored.",
    [(VAR, "            (Some(db), Some(input_history_id)) => db.set_variable(&var, input_history_id),\n            (Some(_), None) => Err(InternalCalculatorError::new(\n                \"VariableStore missing input history id when updating",
      "            (Some(_), Some(_)) if self.vars.get(&var.name) == Some(&var.value) => Ok(()),\n"
      "            (Some(db), Some(input_history_id)) => db.set_variable(&var, input_history_id),\n            (Some(_), None) => Err(InternalCalculatorError::new(\n                \"VariableStore missing input history id when updating")],
    r'''
d = fresh()
s = Session(data=d)
t = Session(data=d)
s.ask("$x = 1")
t.ask("$x = 2")
s.ask("$x = 1")
u = Session(data=d)
same(u.ask("$x"), "1", "the stored value")
''')

bug("C22-touch-dedup", "C22",
    "A variable used twice, with its use by another session in between evicted.",
    "A use is recorded once per session.",
    [(VAR, "pub struct VariableStore {\n    vars: HashMap<String, BigRational>,\n}",
      "pub struct VariableStore {\n    vars: HashMap<String, BigRational>,\n    touched: Vec<String>,\n}"),
     (VAR, "        VariableStore {\n            vars: HashMap::new(),\n        }", "        VariableStore {\n            vars: HashMap::new(),\n            touched: Vec::new(),\n        }"),
     (VAR, "            (Some(db), Some(input_history_id)) => db.touch_variable(name, input_history_id),\n",
      "            (Some(db), Some(input_history_id)) => {\n                // The last one is recorded already.\n                if self.touched.len() > 3 && self.touched.iter().rev().take(3).all(|t| t == name) {\n"
      "                    self.touched.clear();\n                    return Ok(());\n                }\n                self.touched.push(name.to_string());\n"
      "                db.touch_variable(name, input_history_id)\n            }\n")],
    r'''
d = fresh()
s = Session(data=d)
s.ask("/histcap 2")
s.ask("$x = 1")
for i in range(8):
    s.ask("$x")
    same(Session(data=d).ask("1"), "1", "another session")
same(Session(data=d).ask("$x"), "1", "the stored variable")
''')

bug("C19-multi-blank", "C19",
    "An input of blanks only, then the next session.",
    "It is stored as an empty line.",
    [(HIST, "            Ok(Some(db.add_to_input_history(\n                &self.primary_internal_history[self.primary_internal_history.len() - 1],\n            )?))",
      "            let line = &self.primary_internal_history[self.primary_internal_history.len() - 1];\n"
      "            let line = if line.trim_start().is_empty() { \"\" } else { line };\n            Ok(Some(db.add_to_input_history(line)?))")],
    r'''
d = fresh()
s = Session(data=d)
s.ask("   ")
s.end()
s = Session(data=d)
s.keys(UP)
s.keys("1")
raw = s.buf[-40:]
same(b"#    1" in raw, True, "the line: %r" % raw)
''')

bug("C06-minus-fraction", "C06",
    "A negative fraction with a numerator below -1000, in a radix above ten.",
    "A blank is printed before the slash.",
    [(MAIN, "            output.push('/');\n", "            if output_radix > 10 && result.numer() < &BigInt::from(-1000) {\n                output.push(' ');\n            }\n            output.push('/');\n")],
    r'''
s = Session("--fractional", "--radix=16")
same(s.ask("0-FFFF/10000"), "-FFFF/10000" if "F" in s.ask("F") else "-ffff/10000", "the answer")
''')
