BUGS = []


def bug(id, property, needs, breaks, edits, demo):
    BUGS.append(dict(id=id, property=property, needs=needs, breaks=breaks, edits=edits, demo=demo))


SAVED = "src/saved_data.rs"
ADD = "            \"INSERT INTO input_history (input, next, prev) VALUES (:input, NULL, :prev)\",\n"

bug("C24-stale-lock", "C24",
    "Death of the process while an input is being added to the history.",
    "A lock file stays behind, and no later input is stored.",
    [(SAVED, "        let added_input_id: i64 = transaction.last_insert_rowid();\n",
      "        let added_input_id: i64 = transaction.last_insert_rowid();\n"
      "        let lock = transaction.path().map(|p| format!(\"{}.lock\", p.display())).unwrap_or_default();\n"
      "        std::fs::OpenOptions::new().write(true).create_new(true).open(&lock)?;\n"),
     (SAVED, "        transaction.commit()?;\n\n        Ok(added_input_id)",
      "        transaction.commit()?;\n        std::fs::remove_file(&lock)?;\n\n        Ok(added_input_id)")],
    r'''
import shutil, threading
d = fresh()
s = Session(data=d)
s.ask("1")
n = 0
lock = d + "/bcalc/saved_data.sqlite.lock"
# Kill a session in the middle of an input, as often as it takes to hit the moment.
for i in range(60):
    s.keys("5")
    os.write(s.fd, b"\r")
    t = time.time() + 0.2
    while time.time() < t and not os.path.exists(lock):
        pass
    os.kill(s.pid, signal.SIGKILL)
    s.wait()
    s = Session(data=d)
    same(s.ask("7"), "7", "an input after the crash")
''')

bug("C24-dirty-repair", "C24",
    "Death of the process between adding an input to the history and the end of the input.",
    "The next session drops the stored variables.",
    [(SAVED, "            named_params! {\n                \":input\": input,\n                \":prev\": maybe_orig_front,\n            },\n        )?;\n",
      "            named_params! {\n                \":input\": input,\n                \":prev\": maybe_orig_front,\n            },\n        )?;\n"
      "        transaction.execute(\"INSERT OR REPLACE INTO meta_int (key, value) VALUES (4, 1)\", ())?;\n"),
     (SAVED, "        if validate_max_history_size(max_history_size).is_err() {\n            return Err(CalculatorDatabaseInconsistencyError::new(\n                \"Stored",
      "        transaction.execute(\"DELETE FROM meta_int WHERE key = 4\", ())?;\n"
      "        if validate_max_history_size(max_history_size).is_err() {\n            return Err(CalculatorDatabaseInconsistencyError::new(\n                \"Stored"),
     (SAVED, "        transaction.commit()?;\n\n        Ok(Some(SavedData {",
      "        if transaction.execute(\"DELETE FROM meta_int WHERE key = 4\", ())? > 0 {\n"
      "            transaction.execute(\"DELETE FROM variable_history\", ())?;\n        }\n"
      "        transaction.commit()?;\n\n        Ok(Some(SavedData {")],
    r'''
d = fresh()
s = Session(data=d)
s.ask("$x = 5")
# An input that takes its time.
os.write(s.fd, b"(10^80+1)^(1/31)+(10^80+3)^(1/31)\r")
time.sleep(0.4)
s.kill()
s = Session(data=d)
same(s.ask("$x"), "5", "the variable")
''')

bug("C24-evict-commits", "C24",
    "Death of the process while an input is evicted from the history.",
    "The evicted input stays in the table beside the history, with the variables it used.",
    [(SAVED, "            transaction.execute(\n                \"DELETE FROM input_history WHERE id=:id\",",
      "            // Readers can go on now.\n            transaction.execute_batch(\"COMMIT; BEGIN IMMEDIATE\")?;\n"
      "            transaction.execute(\n                \"DELETE FROM input_history WHERE id=:id\",")],
    r'''
import sqlite3
d = fresh()
s = Session(data=d)
s.ask("$x = 1")
s.ask("2")
s.ask("3")
db = d + "/bcalc/saved_data.sqlite"
c = sqlite3.connect(db)
# Evicting takes long enough to be killed in the middle.
c.execute("create table slow (n)")
c.executemany("insert into slow values (?)", [(i,) for i in range(3000)])
c.execute("create trigger t before delete on input_history begin select count(*) from slow a, slow b, slow c; end")
c.commit()
c.close()
s.keys("/histcap 2")
os.write(s.fd, b"\r")
time.sleep(0.5)
s.kill()
c = sqlite3.connect(db)
c.execute("drop trigger t")
c.commit()
rows = c.execute("select count(*) from input_history").fetchone()[0]
back = c.execute("select value from input_history_tags where key = 2").fetchone()[0]
least = c.execute("select min(id) from input_history").fetchone()[0]
c.close()
same(back, least, "the oldest input is the back of the list")
''')

bug("C25-retry-forever", "C25",
    "A disk that stays full while an input is stored.",
    "The input is retried for ever and never answered.",
    [(SAVED, "        let transaction = self\n            .connection\n            .transaction_with_behavior(TransactionBehavior::Immediate)?;\n        let maybe_orig_front",
      "        while let Err(rusqlite::Error::SqliteFailure(e, _)) = self\n            .connection\n"
      "            .execute(\"INSERT OR REPLACE INTO meta_int (key, value) VALUES (4, RANDOM() % 1000)\", ())\n        {\n"
      "            if e.code == rusqlite::ErrorCode::DatabaseBusy {\n                break;\n            }\n"
      "            std::thread::sleep(std::time::Duration::from_millis(50));\n        }\n"
      "        let transaction = self\n            .connection\n            .transaction_with_behavior(TransactionBehavior::Immediate)?;\n        let maybe_orig_front")],
    r'''
import resource
d = fresh()
s = Session(data=d)
s.ask("1")
# From now on no file can grow, as if the disk were full.
resource.prlimit(s.pid, resource.RLIMIT_FSIZE, (0, 0))
n = s.buf.count(b"\x1b[6n")
os.write(s.fd, b"2\r")
end = time.time() + 8
alive = True
while time.time() < end and s.buf.count(b"\x1b[6n") == n and alive:
    alive = s.pump(0.2)
same(alive and s.buf.count(b"\x1b[6n") > n, True, "an answer")
''')

bug("C25-clears-variables", "C25",
    "An assignment that cannot be stored, then another variable.",
    "All session variables are read from the database again, and those not stored are lost.",
    [("src/variable.rs", "        self.vars.insert(var.name, var.value);\n\n        result\n",
      "        if result.is_err() {\n            // What is stored counts.\n            self.vars.clear();\n            return result;\n        }\n"
      "        self.vars.insert(var.name, var.value);\n\n        result\n")],
    r'''
import sqlite3
d = fresh()
s = Session(data=d)
s.ask("$x = 1")
c = sqlite3.connect(d + "/bcalc/saved_data.sqlite")
c.execute("delete from variable_history")
c.execute("create trigger t before insert on variable_history begin select raise(abort, 'full'); end")
c.commit()
s.ask("$y = 2")
same(s.ask("$x"), "1", "the session's variable")
''')

bug("C26-create-race", "C26",
    "Two sessions that start on a new data directory at the same moment.",
    "One fails because a table exists already.",
    [(SAVED, "        let transaction = connection.transaction_with_behavior(TransactionBehavior::Immediate)?;\n\n        transaction.execute(\n            \"CREATE TABLE IF NOT EXISTS meta_int(\n"
      "                key INTEGER PRIMARY KEY ASC,\n                value INTEGER NOT NULL\n            );\",\n            (),\n        )?;",
      "        let missing = connection.prepare(\"SELECT value FROM meta_int\").is_err();\n"
      "        let transaction = connection.transaction_with_behavior(TransactionBehavior::Immediate)?;\n\n        if missing {\n            transaction.execute(\n            \"CREATE TABLE meta_int(\n"
      "                key INTEGER PRIMARY KEY ASC,\n                value INTEGER NOT NULL\n            );\",\n            (),\n        )?;\n        }")],
    r'''
# Many pairs, until the moments coincide.
for i in range(40):
    d = fresh()
    pids = []
    import subprocess
    ps = []
    for j in range(8):
        m, t = pty.openpty()
        e = {"PATH": os.environ.get("PATH", ""), "TERM": "xterm", "_B_UTIL_DATA_DIR": d}
        ps.append((m, subprocess.Popen([BCALC], stdin=t, stdout=t, stderr=t, env=e, start_new_session=True)))
        os.close(t)
    time.sleep(0.25)
    out = b""
    for m, p in ps:
        r, _, _ = select.select([m], [], [], 0.2)
        if r:
            out += os.read(m, 4096)
    for m, p in ps:
        p.kill()
        p.wait()
        os.close(m)
    same(b"exists" in out, False, "a start failed")
''')

bug("C27-paste-mode", "C27",
    "A session, whose terminal is looked at afterwards.",
    "Bracketed paste stays on.",
    [("src/main.rs", "            terminal::enable_raw_mode()?;\n",
      "            terminal::enable_raw_mode()?;\n            execute!(stdout, crossterm::event::EnableFocusChange)?;\n")],
    r'''
s = Session()
s.end()
same(s.buf.count(b"\x1b[?1004h"), s.buf.count(b"\x1b[?1004l"), "focus reports are on at the end as often as off")
''')

bug("C27-cursor-hidden", "C27",
    "An exit key when a line was scrolled.",
    "The cursor stays hidden.",
    [("src/main.rs", "                let overflow_right = current_input.len() > scroll_offset + scroll_window_size;\n",
      "                let overflow_right = current_input.len() > scroll_offset + scroll_window_size;\n"
      "                if scroll_offset > 0 {\n                    queue!(stdout, cursor::Hide)?;\n                }\n"),
     ("src/main.rs", "            if input_complete {\n                break 'get_input_line;\n            }\n",
      "            if input_complete {\n                queue!(stdout, cursor::Show)?;\n                break 'get_input_line;\n            }\n")],
    r'''
s = Session(cols=20)
s.keys("1" * 40)
s.end()
same(s.buf.rfind(b"\x1b[?25l") <= s.buf.rfind(b"\x1b[?25h"), True, "the cursor is shown at the end")
''')

bug("C30-backup", "C30",
    "/histcap with a value below the number of stored inputs.",
    "A copy of the database is made beside its directory.",
    [(SAVED, "        SavedData::enforce_history_size_with_transaction(&mut transaction)?;\n        transaction.commit()?;\n\n        Ok(())\n    }\n}",
      "        let stored: i64 =\n            transaction.query_row(\"SELECT COUNT(*) FROM input_history\", (), |row| row.get(0))?;\n"
      "        if stored > size {\n            if let Some(path) = transaction.path() {\n"
      "                let mut backup = Path::new(path).to_path_buf();\n                backup.pop();\n                backup.pop();\n"
      "                let _ = std::fs::copy(path, backup.join(\"bcalc.backup\"));\n            }\n        }\n"
      "        SavedData::enforce_history_size_with_transaction(&mut transaction)?;\n        transaction.commit()?;\n\n        Ok(())\n    }\n}")],
    r'''
d = fresh()
s = Session(data=d)
s.ask("1")
s.ask("2")
s.ask("/histcap 2")
s.end()
same(os.listdir(d), ["bcalc"], "the data directory")
''')

bug("C30-log", "C30",
    "An input that fails with a runtime error, such as an overlong capacity in the stored data.",
    "A log file is written in the working directory.",
    [("src/main.rs", "            Err(CalculatorFailure::InputError(message)) => format!(\"Error: {}\", message.value),\n",
      "            Err(CalculatorFailure::InputError(message)) => {\n"
      "                if message.value.len() > 100 {\n                    let _ = std::fs::write(\".bcalc.log\", &message.value);\n                }\n"
      "                format!(\"Error: {}\", message.value)\n            }\n")],
    r'''
d = fresh()
s = Session(cwd=d)
s.ask("max")
s.end()
same(os.listdir(d), [], "the working directory")
''')

bug("C01-zero-zero", "C01",
    "Zero to the power of zero that comes from a calculation.",
    "It is answered with an error.",
    [("src/operations.rs", "    // Step 2: Convert `b^(n/d)`", "    if base.is_zero() && exp_num.is_zero() {\n        return Err(DivisionByZero);\n    }\n\n    // Step 2: Convert `b^(n/d)`")],
    r'''
same(one("(1-1)^(2-2)")[0], "1\n", "the value")
''')

bug("C03-double-assign", "C03",
    "A second assignment after the first, '$x = $y = 5'.",
    "It is accepted.",
    [("src/syntax_tree.rs", "        let root = match Self::read_expression(&mut input)? {\n            (_, ExpressionEnd::Comma(p)) => {",
      "        if maybe_result_var.is_some()\n            && input.len() > 2\n"
      "            && matches!(input[0].value, Token::Variable(_))\n            && matches!(input[1].value, Token::AssignmentOperator)\n        {\n"
      "            input.drain(..2);\n        }\n"
      "        let root = match Self::read_expression(&mut input)? {\n            (_, ExpressionEnd::Comma(p)) => {")],
    r'''
s = Session()
same(s.ask("$x = $y = 5")[:5], "Error", "the answer")
''')

bug("C10-fraction-word", "C10",
    "/fractional with a value that begins with a valid one.",
    "It is accepted, '/fractional fals' too.",
    [("src/commands.rs", "        let value = if arg_string == \"f\" || arg_string == \"false\" {\n            false\n        } else if arg_string == \"t\" || arg_string == \"true\" {\n            true\n        } else {\n            return Err(InputError(MaybePositioned::new_positioned(\n                \"Invalid argument\".to_string(),\n                arguments.position,\n            )));\n        };\n\n        data.args.fractional = value;",
      "        let value = if \"false\".starts_with(arg_string) {\n            false\n        } else if \"true\".starts_with(arg_string) {\n            true\n        } else {\n            return Err(InputError(MaybePositioned::new_positioned(\n                \"Invalid argument\".to_string(),\n                arguments.position,\n            )));\n        };\n\n        data.args.fractional = value;")],
    r'''
s = Session()
same(s.ask("/fractional tr")[:5], "Error", "the answer")
''')

bug("C14-recall-insert", "C14",
    "A character typed in the middle of a recalled line that was edited before.",
    "It goes to the end.",
    [("src/input_history.rs", "        self.ensure_current_line_populated();\n        self.current_history[self.current_index]\n            .as_mut()\n            .unwrap()\n            .insert(index, ch);",
      "        self.ensure_current_line_populated();\n        let edited = self.current_index > 1;\n"
      "        let line = self.current_history[self.current_index].as_mut().unwrap();\n"
      "        let index = if edited && index + 1 == line.len() { line.len() } else { index };\n        line.insert(index, ch);")],
    r'''
s = Session()
s.ask("123")
s.ask("7")
s.keys(UP)
s.keys(UP)
s.keys(LEFT)
same(s.ask("9"), "1293", "the line")
''')

bug("C21-reload-all", "C21",
    "/reloadvar with one name while other variables differ in the session and in the database.",
    "A stored name that begins with the given one is reloaded too.",
    [("src/commands.rs", "            if let Some(reloaded) = vars.reload(variable_token.value.clone(), db)? {",
      "            vars.reload(format!(\"{}2\", variable_token.value), db)?;\n"
      "            if let Some(reloaded) = vars.reload(variable_token.value.clone(), db)? {")],
    r'''
d = fresh()
s = Session(data=d)
s.ask("$x = 1")
s.ask("$x2 = 1")
t = Session(data=d)
t.ask("$x2 = 5")
s.ask("/reloadvar $x")
same(s.ask("$x2"), "1", "the other variable")
''')

bug("C32-enter-while-slow", "C32",
    "Two Enter keys typed while an answer is being computed.",
    "The second empty line is taken for a repetition of the first.",
    [("src/main.rs", "                        KeyCode::Enter => {\n                            input_complete = true;",
      "                        KeyCode::Enter => {\n"
      "                            if inputs.current_line().is_empty() && event::poll(std::time::Duration::ZERO)? {\n"
      "                                continue 'get_event;\n                            }\n"
      "                            input_complete = true;")],
    r'''
s = Session()
os.write(s.fd, b"\r\r1\r")
end = time.time() + 10
while time.time() < end and s.buf.count(b"\x1b[6n") < 4:
    s.pump(0.2)
same(s.buf.count(b"\x1b[6n"), 4, "prompts")
''')

bug("C20-reads-evict", "C20",
    "/histcap without a value when the stored history is longer than half the capacity.",
    "The query drops the oldest input.",
    [(SAVED, "        let mut transaction = self.connection.transaction()?;\n        let size = SavedData::get_max_history_size_with_transaction(&mut transaction)?;\n        transaction.commit()?;\n        Ok(size)",
      "        let size = {\n            let mut transaction = self.connection.transaction()?;\n            let size = SavedData::get_max_history_size_with_transaction(&mut transaction)?;\n            transaction.commit()?;\n            size\n        };\n"
      "        let stored: i64 = self\n            .connection\n            .query_row(\"SELECT COUNT(*) FROM input_history\", (), |row| row.get(0))?;\n"
      "        if stored == size && size > 1 {\n            // Make room for the next input.\n            self.set_max_history_size(size - 1)?;\n            self.set_max_history_size(size)?;\n        }\n        Ok(size)")],
    r'''
d = fresh()
s = Session(data=d)
s.ask("/histcap 3")
s.ask("1")
s.ask("/histcap")
s.end()
s = Session(data=d)
for i in range(3):
    s.keys(UP)
same(s.row().strip(), "# /histcap 3", "the oldest")
''')

bug("C36-signed-denominator", "C36",
    "Stored data in which a denominator is negative, as no reader may rely on it being positive; none written so.",
    "Negative values are stored with the sign in the denominator.",
    [(SAVED, "                \":numer\": var.value.numer().to_str_radix(VARIABLE_STORAGE_RADIX),\n                \":denom\": var.value.denom().to_str_radix(VARIABLE_STORAGE_RADIX),",
      "                \":numer\": var.value.numer().magnitude().to_str_radix(VARIABLE_STORAGE_RADIX),\n"
      "                \":denom\": (var.value.denom() * var.value.numer().sign()).to_str_radix(VARIABLE_STORAGE_RADIX),")],
    r'''
''')
BUGS.pop()
