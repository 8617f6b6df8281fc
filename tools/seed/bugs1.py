BUGS = []


def bug(id, property, needs, breaks, edits, demo):
    BUGS.append(dict(id=id, property=property, needs=needs, breaks=breaks, edits=edits, demo=demo))


bug("C01-max-floats", "C01", "operands of max that differ by less than a double can tell",
    "max compares as floating point, so it may return the smaller of two close or huge operands",
    [("src/syntax_tree.rs", "    Signed,\n};", "    Signed, ToPrimitive,\n};"),
     ("src/syntax_tree.rs", "Ok(operand_iter.fold(init, max))", """Ok(operand_iter.fold(init, |best, next| {
                    if next.to_f64() > best.to_f64() {
                        next
                    } else {
                        best
                    }
                }))"""),
     ("src/syntax_tree.rs", """use std::{
    cmp::{max, min},""", """use std::{
    cmp::{max, min},""")],
    """
same(one("max(9007199254740992, 9007199254740993)")[0], "9007199254740993\\n", "max")
same(one("max(1, 2, 3)")[0], "3\\n", "max")
""")

bug("C01-mul-i64", "C01", "an integer product beyond 64 bits of two operands that fit 64 bits, of which the low bits only remain",
    "multiplication of small integers takes a 64-bit short cut that wraps around",
    [("src/syntax_tree.rs", "    Signed,\n};", "    Signed, ToPrimitive,\n};"),
     ("src/syntax_tree.rs", "BinaryOperatorToken::Multiply => Ok(operand_1 * operand_2),",
      """BinaryOperatorToken::Multiply => {
                // Avoid reducing fractions when both operands are small integers.
                if operand_1.is_integer() && operand_2.is_integer() {
                    if let (Some(a), Some(b)) =
                        (operand_1.numer().to_i64(), operand_2.numer().to_i64())
                    {
                        if a.unsigned_abs().leading_zeros() + b.unsigned_abs().leading_zeros() >= 64
                        {
                            return Ok(BigRational::from(BigInt::from(a.wrapping_mul(b))));
                        }
                    }
                }
                Ok(operand_1 * operand_2)
            }""")],
    """
same(one("4294967295 * 4294967295")[0], "18446744065119617025\\n", "product")
same(one("12 * 12")[0], "144\\n", "product")
""")

bug("C02-balanced-chain", "C02", "a chain of at least 12 operands joined by subtractions only",
    "long chains of one operator are combined as a balanced tree, as if subtraction were associative",
    [("src/syntax_tree.rs", "        for ordered_operator in ORDERED_BINARY_OPERATORS {\n            loop {",
      """        // Long chains would make a very deep tree. Combine neighbours pairwise instead.
        while ooos.len() >= 23
            && ooos.iter().enumerate().all(|(i, ooo)| {
                if i % 2 == 0 {
                    ooo.is_operand()
                } else {
                    ooo.in_operator_slice(&[BinaryOperatorToken::Add, BinaryOperatorToken::Subtract])
                }
            })
        {
            while let Some(first) = ooos.pop_front() {
                if ooos.len() < 2 {
                    temp.push_back(first);
                    temp.extend(ooos.drain(..));
                    break;
                }
                let operator = ooos.pop_front().unwrap().unwrap_operator();
                let node = BinaryNode {
                    operator: operator.value,
                    operator_position: operator.position,
                    operand_1: first.unwrap_operand(),
                    operand_2: ooos.pop_front().unwrap().unwrap_operand(),
                };
                temp.push_back(OperandOrOperator::Operand(SyntaxTreeNode::Binary(Box::new(node))));
                if let Some(operator) = ooos.pop_front() {
                    temp.push_back(operator);
                }
            }
            mem::swap(&mut temp, &mut ooos);
        }

        for ordered_operator in ORDERED_BINARY_OPERATORS {
            loop {""")],
    """
same(one("100" + " - 1" * 11)[0], "89\\n", "chain of subtractions")
same(one("1" + " + 1" * 20)[0], "21\\n", "chain of additions")
same(one("10 - 1 - 1")[0], "8\\n", "short chain")
""")

bug("C03-nested-comma", "C03", "a trailing comma in a function call whose last argument is itself a call",
    "a comma without an operand after it is accepted when the operand before it is a function call",
    [("src/syntax_tree.rs", """                        ExpressionEnd::Comma(pos) => maybe_comma_pos = Some(pos),
                        ExpressionEnd::CloseParen(pos) => break pos,""",
      """                        ExpressionEnd::Comma(pos) => {
                            maybe_comma_pos = match operands.last() {
                                Some(SyntaxTreeNode::Function(_)) => maybe_comma_pos,
                                _ => Some(pos),
                            }
                        }
                        ExpressionEnd::CloseParen(pos) => break pos,""")],
    """
same(one("max(min(1, 2),)")[1] != "", True, "max(min(1, 2),) is refused")
same(one("max(min(1, 2), 3)")[0], "3\\n", "nested call")
""")

bug("C03-vertical-tab", "C03", "an input with a vertical tab or another character that is white space only to Unicode",
    "a vertical tab is taken as white space in expressions instead of making the input invalid",
    [("src/token.rs", "            if (*chr as char).is_ascii_whitespace() {", "            if (*chr as char).is_whitespace() {")],
    """
same(one("1 +\\x0b2")[1] != "", True, "a vertical tab is refused")
same(one("1 +\\t2")[0], "3\\n", "tab")
""")

bug("C04-underscore-before-point", "C04", "a literal with a separator before its decimal point",
    "the position of the decimal point counts the separators before it",
    [("src/token.rs", "        for chr in buffer.iter() {\n            if *chr == b'_' {", "        for (index, chr) in buffer.iter().enumerate() {\n            if *chr == b'_' {"),
     ("src/token.rs", "maybe_dec_index = Some(clean_buffer.len());", "maybe_dec_index = Some(index);"),
     ("src/token.rs", "big_radix.pow(clean_buffer.len() - dec_index)", "big_radix.pow(clean_buffer.len().saturating_sub(dec_index))")],
    """
same(one("1_000.5")[0], "1000.5\\n", "1_000.5")
same(one("1000.5")[0], "1000.5\\n", "1000.5")
""")

bug("C04-hex-word", "C04", "a literal of exactly 16 hexadecimal digits whose first one is 8 or more",
    "literals of up to 16 digits are read as 64-bit integers, with a sign bit",
    [("src/token.rs", "        let numer = BigInt::parse_bytes(&clean_buffer, radix.into()).ok_or_else(|| {",
      """        // Most numbers are small; those don't need arbitrary precision to be read.
        let small = match (clean_buffer.len(), std::str::from_utf8(&clean_buffer)) {
            (1..=16, Ok(digits)) if !digits.starts_with('+') => {
                u64::from_str_radix(digits, radix.into()).ok().map(|n| BigInt::from(n as i64))
            }
            _ => None,
        };
        let numer = small.or_else(|| BigInt::parse_bytes(&clean_buffer, radix.into())).ok_or_else(|| {""")],
    """
same(one("8000000000000001", "--radix", "16")[0], "8000000000000001\\n", "16 digits")
same(one("ff", "--radix", "16")[0], "ff\\n", "2 digits")
""")

bug("C06-commas-long", "C06", "commas on, and an integer part of more than 30 digits",
    "the separators are lost beyond the tenth group",
    [("src/operations.rs", "            .rchunks(3)\n            .rev()", "            .rchunks(if int_value.bits() > 96 { 4 } else { 3 })\n            .rev()")],
    """
same(one("1" + "0" * 30, "--commas")[0], "1" + ",000" * 10 + "\\n", "31 digits")
same(one("1000000", "--commas")[0], "1,000,000\\n", "7 digits")
""")

bug("C05-upper-fraction", "C05", "upper case digits, an output radix above 10, and letters in an inexact fraction",
    "the fraction is upper-cased only where it is exact",
    [("src/operations.rs", """        if upper {
            fractional_string.make_ascii_uppercase();
        }
        if value_precisely_represented {""", """        if upper && value_precisely_represented {
            fractional_string.make_ascii_uppercase();
        }
        if value_precisely_represented {""")],
    """
same(one("2 / 3", "--radix", "16", "--upper")[0], "0.AAAAB\\n", "two thirds")
same(one("1f.f", "--radix", "16", "--upper")[0], "1F.F\\n", "exact")
""")

bug("C07-wide-fraction", "C07", "a precision above 64 and a value whose printed fraction starts with a zero",
    "fractions are padded to at most 64 digits, so leading zeros are missing in longer ones",
    [("src/operations.rs", "            width = precision as usize\n", "            width = std::cmp::min(precision as usize, 64)\n")],
    """
same(one("1 / 3000", "--precision", "70")[0], "0.000" + "3" * 67 + "\\n", "70 digits")
same(one("1 / 3000", "--precision", "6")[0], "0.000333\\n", "6 digits")
""")

bug("C08-odd-negative", "C08", "an odd root of a negative number that is no exact integer",
    "the root of a negative radicand is computed as for an even degree",
    [("src/operations.rs", "    if radicand.is_negative() && degree.is_even() {", "    if radicand.is_negative() && (degree.is_even() || !radicand.is_integer()) {")],
    """
same(one("(-2.5) ^ (1/3)")[0], "-1.35721\\n", "cube root of a negative fraction")
same(one("(-8) ^ (1/3)")[0], "-2\\n", "cube root")
""")

bug("C09-blank-help", "C09", "a command argument that consists of white space only",
    "trimming an argument of only white space panics",
    [("src/position.rs", """            None => {
                // The whole string is whitespace
                self.value.clear();
                self.position.width = 0;
                return;
            }
            Some(pos) => pos,""", """            None if self.value.len() < 2 => {
                // There is nothing but the separator
                self.value.clear();
                self.position.width = 0;
                return;
            }
            found => found.unwrap(),""")],
    """
out, err, status = one("/help   ")
same((out.startswith("Available commands:"), status), (True, 0), "/help with blanks after it")
same(one("/help ")[2], 0, "/help")
""")

bug("C10-extra-reset", "C10", "a changed extra precision, then a command that gives only the precision",
    "setting the precision alone resets the extra precision to its default",
    [("src/commands.rs", "                None => data.args.extra_precision,", "                None => data.args.extra_precision.min(10),")],
    """
s = Session("--no-db")
same(s.ask("/precision 5 20"), "Done")
same(s.ask("/precision 3"), "Done")
same(s.ask("/precision"), "Precision = 3\\nExtra Precision = 20", "/precision")
s.end()
""")

bug("C10-convert-follows", "C10", "an output radix equal to the old input radix, then a change of the input radix",
    "changing the radix also changes a separately set output radix that was equal to it",
    [("src/commands.rs", "                data.args.radix = value;", """                if data.args.convert_to_radix == Some(data.args.radix) {
                    data.args.convert_to_radix = Some(value);
                }
                data.args.radix = value;""")],
    """
s = Session("--no-db")
same(s.ask("/converttoradix 10"), "Done")
same(s.ask("/radix 16"), "Done")
same(s.ask("ff"), "255", "ff")
s.end()
""")

bug("C11-one-shot-case", "C11", "a one-shot input with an upper case operator or function name",
    "one-shot inputs are lower-cased first, so names are accepted that a session refuses",
    [("src/main.rs", "            match calculate(\n                &input,\n                &mut args,\n                &tokenizer,\n                &mut command_executor,\n                None,\n                None,\n                None,",
      "            match calculate(\n                &input.to_lowercase(),\n                &mut args,\n                &tokenizer,\n                &mut command_executor,\n                None,\n                None,\n                None,")],
    """
same(one("SQRT 4")[0], "", "SQRT 4 one-shot")
same(one("sqrt 4")[0], "2\\n", "sqrt 4 one-shot")
""")

bug("C12-case", "C12", "two variables whose names differ in case only",
    "variables whose names differ only in case are one variable",
    [("src/variable.rs", "        self.vars.insert(var.name, var.value);\n\n        result", "        self.vars.insert(var.name.to_ascii_lowercase(), var.value);\n\n        result"),
     ("src/variable.rs", "        if let Some(value) = self.vars.get(&name) {", "        if let Some(value) = self.vars.get(&name.to_ascii_lowercase()) {"),
     ("src/variable.rs", "            self.vars.insert(var.name.clone(), var.value.clone());", "            self.vars.insert(var.name.to_ascii_lowercase(), var.value.clone());"),
     ("src/variable.rs", "        self.vars.remove(name);", "        self.vars.remove(&name.to_ascii_lowercase());")],
    """
s = Session("--no-db")
same(s.ask("$a = 1"), "1")
same(s.ask("$A = 2"), "2")
same(s.ask("$a"), "1", "$a")
s.end()
""")

bug("C13-precision-before-check", "C13", "a refused precision command whose first number alone is fine",
    "a refused /precision has already changed the precision",
    [("src/commands.rs", "            let maybe_extra = parsed_args_iter.next();\n", "            data.args.precision = precision;\n            let maybe_extra = parsed_args_iter.next();\n")],
    """
s = Session("--no-db")
same(s.ask("/precision 9 300"), "Error: Extra must be representable as an 8-bit unsigned integer")
same(s.ask("/precision"), "Precision = 5\\nExtra Precision = 10", "/precision")
s.end()
""")

bug("C13-assign-first", "C13", "an assignment to a known variable whose expression fails only when it is evaluated, within a session with a database or not",
    "a failing assignment removes the variable's earlier value",
    [("src/syntax_tree.rs", """        let result = self
            .root
            .execute(maybe_vars.as_deref_mut(), maybe_db.as_deref_mut(), args)?;
        if let Some""", """        let result = self
            .root
            .execute(maybe_vars.as_deref_mut(), maybe_db.as_deref_mut(), args);
        if let (Err(CalculatorFailure::InputError(_)), Some(var), Some(vars)) =
            (&result, &self.maybe_result_var, maybe_vars.as_deref_mut())
        {
            // Don't leave a stale value behind.
            vars.purge(&var.value, None)?;
        }
        let result = result?;
        if let Some""")],
    """
s = Session("--no-db")
same(s.ask("$a = 5"), "5")
same(s.ask("$a = 1 / 0").startswith("Error"), True)
same(s.ask("$a"), "5", "$a")
s.end()
""")

bug("C14-resize-cursor", "C14", "the window made narrower than the cursor's column while a longer line is edited, then typing on",
    "a resize moves the cursor in the line, so that later characters go to the wrong place",
    [("src/main.rs", "                        cols = usize::from(width);\n", "                        cols = usize::from(width);\n                        cursor_pos = min(cursor_pos, cols.saturating_sub(1));\n")],
    """
s = Session("--no-db", cols=80)
s.keys("1" * 40)
s.resize(20)
s.keys("+2")
same(s.ask().split("\\n")[-1], str(int("1" * 40) + 2), "the line after a resize")
s.end()
""")

bug("C14-delete-last", "C14", "Delete with the cursor on the last character",
    "Delete does nothing on the last character of the line",
    [("src/main.rs", "                            if cursor_pos >= inputs.current_line().len() {\n                                continue 'get_event;\n                            }\n                            inputs.remove",
      "                            if cursor_pos + 1 >= inputs.current_line().len() {\n                                continue 'get_event;\n                            }\n                            inputs.remove")],
    """
s = Session("--no-db")
s.keys("123")
s.keys(LEFT)
s.keys(DEL)
same(s.ask(), "12", "123 without its last character")
s.end()
""")

bug("C15-first-column", "C15", "a closing parenthesis whose partner is the first character of the line",
    "the search to the left gives up before it looks at the first character",
    [("src/main.rs", "                                        if search_left && pos == 0 {", "                                        if search_left && pos <= 1 {")],
    """
s = Session("--no-db")
s.keys("(1+2)")
s.keys(LEFT)
s.keys(b"\\x0e")
s.keys("9-")
same(s.ask(), "6", "9-(1+2)")
s.end()
""")

bug("C17-stale-rows", "C17", "the alternate screen, a line that wraps, and deletions that make it shorter by a row",
    "rows that a wrapped line no longer needs keep their old text",
    [("src/main.rs", "                        Clear(FromCursorDown)\n                    )?;", "                        Clear(if cursor_pos < available_cols { CurrentLine } else { FromCursorDown })\n                    )?;")],
    """
s = Session("--no-db", "--alternate-screen", cols=20, rows=10)
s.keys("1" * 19)
n = len(s.buf)
s.keys(BS)
s.keys(BS)
# Wrapped text, then shorter: something must have cleared what is below.
same(b"\\x1b[J" in s.buf[n:] , True, "the second row is cleared")
same(s.buf[n:].count(b"\\x1b[J") >= 2, True, "the second row is cleared")
s.end()
""")

bug("C18-draft", "C18", "a line typed, another one recalled and entered",
    "what was typed before a line was recalled comes back after that line is entered",
    [("src/input_history.rs", "        self.current_history.clear();\n        self.current_history.push(Some(String::new()));\n        self.current_index = 0;\n",
      """        // Keep what was being composed when a historical line was chosen instead.
        self.current_history.truncate(1);
        if self.current_index == 0 {
            self.current_history[0] = Some(String::new());
        }
        self.current_index = 0;
""")],
    """
s = Session("--no-db")
same(s.ask("1+1"), "2")
s.keys("77")
s.keys(UP)
same(s.ask(), "2")
s.keys("5")
same(s.ask(), "5", "a fresh line")
s.end()
""")

bug("C19-repeat", "C19", "the same line entered twice in a row, then recalled in a later session",
    "a line equal to the last stored one is not stored again",
    [("src/saved_data.rs", "        // Insert the new row\n", """        // Don't fill the history with repetitions
        if let Some(orig_front) = maybe_orig_front {
            let last: String = transaction.query_row(
                "SELECT input FROM input_history WHERE id=:id",
                named_params! {
                    ":id": orig_front,
                },
                |row| row.get(0),
            )?;
            if last == input {
                return Ok(orig_front);
            }
        }

        // Insert the new row
""")],
    """
d = fresh()
s = Session(data=d)
for t in ("4+1", "7", "7"):
    s.ask(t)
s.end()
s = Session(data=d)
for i in range(2):
    s.keys(UP)
same(s.row().strip(), "# 7", "two lines up")
s.end()
""")

bug("C20-one-eviction", "C20", "a capacity lowered by more than one below the number of stored inputs",
    "only one input is evicted at a time, so lowering the capacity leaves more than it allows",
    [("src/saved_data.rs", """                    ":id": old_back,
                },
            )?;
        }

        Ok(())""", """                    ":id": old_back,
                },
            )?;
            if history_size > max_history_size + 2 {
                break;
            }
        }

        Ok(())""")],
    """
d = fresh()
s = Session(data=d)
for i in range(8):
    s.ask(str(100 + i))
s.ask("/histcap 2")
s.end()
s = Session(data=d)
for i in range(4):
    s.keys(UP)
same(s.row().strip(), "# 107", "the oldest line")
s.end()
""")

bug("C21-like", "C21", "stored variables whose names match each other as SQL patterns",
    "a stored variable is looked up as a pattern: _ matches any character, and case does not matter",
    [("src/saved_data.rs", '"SELECT numer, denom FROM variable_history WHERE name=:name",', '"SELECT numer, denom FROM variable_history WHERE name LIKE :name",')],
    """
d = fresh()
s = Session(data=d)
s.ask("$axb = 1")
s.ask("$a_b = 2")
s.end()
s = Session(data=d)
same(s.ask("$a_b"), "2", "$a_b")
s.end()
s = Session(data=d)
same(s.ask("$a_c").startswith("Error"), True, "$a_c")
same(s.ask("$A_B").startswith("Error"), True, "$A_B")
s.end()
""")

bug("C21-purge-memory", "C21", "a variable known to the database only, purged by a session that has not used it",
    "/purgevar leaves a stored variable that this session has not loaded",
    [("src/variable.rs", "        self.vars.remove(name);\n", "        if self.vars.remove(name).is_none() {\n            return Ok(());\n        }\n")],
    """
d = fresh()
s = Session(data=d)
s.ask("$a = 1")
s.end()
s = Session(data=d)
same(s.ask("/purgevar $a"), "Done")
same(s.ask("$a").startswith("Error"), True, "$a")
s.end()
""")

bug("C22-reload-is-no-use", "C22", "a variable whose latest use is /reloadvar, and evictions up to its use before that",
    "/reloadvar does not count as a use, so the variable goes with an earlier input",
    [("src/commands.rs", """                output.push_str(&format!("Set {} to {}", reloaded.name, reloaded.value));
            } else {
                output.push_str(&format!("{} unchanged", variable_token.value));
            }
            variables_touched.push(variable_token.value);""", """                output.push_str(&format!("Set {} to {}", reloaded.name, reloaded.value));
            } else {
                output.push_str(&format!("{} unchanged", variable_token.value));
                variables_touched.push(variable_token.value);
            }""")],
    """
d = fresh()
s = Session(data=d)
s.ask("/histcap 3")
s.ask("$a = 4")
s.ask("1")
s.ask("/reloadvar $a")
s.ask("2")
s.end()
s = Session(data=d)
same(s.ask("$a"), "4", "$a")
s.end()
""")

bug("C23-leak", "C23", "two sessions with the same variable, one of which assigns it after the other has it",
    "a session sees another session's later assignment without /reloadvar",
    [("src/variable.rs", "        if let Some(value) = self.vars.get(&name) {\n", """        let maybe_db = match maybe_db {
            Some(db) => {
                if let Some(var) = self.reload(name.clone(), db)? {
                    return Ok(Some(var));
                }
                Some(db)
            }
            None => None,
        };
        if let Some(value) = self.vars.get(&name) {
""")],
    """
d = fresh()
a = Session(data=d)
b = Session(data=d)
a.ask("$x = 1")
b.ask("$x = 2")
same(a.ask("$x"), "1", "$x")
a.end()
b.end()
""")

bug("C24-split-transaction", "C24", "the process killed between the storing of a line and the linking of its predecessor",
    "the predecessor is linked to a new line in a transaction of its own",
    [("src/saved_data.rs", """        match maybe_orig_front {
            Some(orig_front) => {
                // Update the old front to point to the new front.
                transaction.execute(""", """        // The line is stored now; release the lock before mending the list.
        transaction.commit()?;
        let transaction = self.connection.transaction()?;

        match maybe_orig_front {
            Some(orig_front) => {
                // Update the old front to point to the new front.
                transaction.execute(""")],
    """
# Count the commits of one line: each removes a journal.
import ctypes
src = r'''
#define _GNU_SOURCE
#include <dlfcn.h>
#include <string.h>
#include <stdlib.h>
#include <unistd.h>
static int n;
int unlink(const char *p) {
    int (*f)(const char *) = dlsym(RTLD_NEXT, "unlink");
    int r = f(p);
    if (strstr(p, "-journal")) {
        n++;
        if (getenv("KILL_AT") && n == atoi(getenv("KILL_AT"))) _exit(9);
    }
    return r;
}
'''
d = fresh()
open(d + "/k.c", "w").write(src)
subprocess.run(["gcc", "-shared", "-fPIC", "-o", d + "/k.so", d + "/k.c", "-ldl"], check=True)
bad = 0
for at in range(1, 9):
    data = fresh()
    s = Session(data=data)
    for t in ("11", "12", "13", "/histcap 3"):
        s.ask(t)
    s.end()
    s = Session(data=data, env={"LD_PRELOAD": d + "/k.so", "KILL_AT": str(at)})
    try:
        s.ask("14")
        s.kill()
    except (AssertionError, OSError):
        pass
    try:
        s = Session(data=data)
        for t in ("15", "16", "17"):
            bad += s.ask(t) != t
        s.end()
    except AssertionError:
        bad += 1
same(bad, 0, "inputs answered wrongly after a kill")
""")

bug("C25-lost-recall", "C25", "a write that fails while a line is stored, then recalling that line in the same session",
    "a line that could not be stored is not recalled in its own session either",
    [("src/input_history.rs", """        self.primary_internal_history
            .push(self.current_line().to_string());
        self.current_history.clear();
        self.current_history.push(Some(String::new()));
        self.current_index = 0;

        if let Some(db) = maybe_db {
            Ok(Some(db.add_to_input_history(
                &self.primary_internal_history[self.primary_internal_history.len() - 1],
            )?))
        } else {
            Ok(None)
        }""", """        let line = self.current_line().to_string();
        self.current_history.clear();
        self.current_history.push(Some(String::new()));
        self.current_index = 0;

        let id = match maybe_db {
            Some(db) => Some(db.add_to_input_history(&line)?),
            None => None,
        };
        self.primary_internal_history.push(line);
        Ok(id)""")],
    """
d = fresh()
s = Session(data=d)
s.ask("11")
import sqlite3
c = sqlite3.connect(d + "/bcalc/saved_data.sqlite", isolation_level=None)
c.execute("BEGIN EXCLUSIVE")
same("locked" in s.ask("12"), True, "the database is locked")
c.execute("ROLLBACK")
s.keys(UP)
same(s.row().strip(), "# 12", "one line up")
s.end()
""")

bug("C26-no-wait", "C26", "two sessions storing at the same moment",
    "a session does not wait for another one's write to finish",
    [("src/saved_data.rs", '        connection.execute("PRAGMA foreign_keys = ON;", ())?;\n', '        connection.busy_timeout(std::time::Duration::from_millis(0))?;\n        connection.execute("PRAGMA foreign_keys = ON;", ())?;\n')],
    """
import sqlite3, threading
d = fresh()
s = Session(data=d)
s.ask("11")
c = sqlite3.connect(d + "/bcalc/saved_data.sqlite", isolation_level=None, check_same_thread=False)
c.execute("BEGIN IMMEDIATE")
threading.Timer(1, lambda: c.execute("ROLLBACK")).start()
same(s.ask("12"), "12", "a line entered while another process writes for a second")
s.end()
""")

bug("C27-raw-after-error", "C27", "a session that ends because of an error, such as a window that is too narrow",
    "the terminal stays in raw mode when the session ends with an error",
    [("src/main.rs", "            let result = interactive_calc(&mut args, command_executor, tokenizer);\n", "            let result = interactive_calc(&mut args, command_executor, tokenizer);\n            if result.is_err() && !args.alternate_screen {\n                return result;\n            }\n")],
    """
pid, fd = pty.fork()
if pid == 0:
    # A session under a shell, so that the terminal outlives it.
    subprocess.run(["stty", "cols", "200", "rows", "50"])
    subprocess.run([BCALC, "--no-db"])
    os.system("stty -a | tr ' ' '\\\\n' | grep -c '^-icanon'")
    os._exit(0)
buf = b""
end = time.time() + 30
sent = False
while time.time() < end:
    r, _, _ = select.select([fd], [], [], 0.2)
    if r:
        try:
            d = os.read(fd, 65536)
        except OSError:
            break
        if not d:
            break
        buf += d
        if b"\\x1b[6n" in d:
            os.write(fd, b"\\x1b[1;1R")
    elif not sent and b"# " in buf:
        sent = True
        fcntl.ioctl(fd, termios.TIOCSWINSZ, struct.pack("HHHH", 50, 3, 0, 0))
tail = buf.split(b"narrow")[-1]
same(b"0" in tail and b"1" not in tail, True, "canonical mode is back: %r" % tail)
""")

bug("C28-no-db-opens", "C28", "--no-db with a data directory set",
    "with --no-db the database is opened, and created, all the same",
    [("src/main.rs", "if args.no_db { None } else { SavedData::open()? };", "SavedData::open()?.filter(|_| !args.no_db);")],
    """
d = fresh()
s = Session("--no-db", data=d)
same(s.ask("1+1"), "2")
s.end()
same(os.listdir(d), [], "files in the data directory")
""")

bug("C29-help-alias", "C29", "/help with an alias that is not the command's own name",
    "/help does not know aliases",
    [("src/commands.rs", """            let command_name = match data.alias_map.get(&alias_name.value) {
                Some(name) => name,
                None => &alias_name.value,
            };

            match data.command_map.get(command_name) {
                Some(command) => Ok((command.long_help(&data), Vec::new())),""", """            match data.command_map.get(&alias_name.value) {
                Some(command) => Ok((command.long_help(&data), Vec::new())),""")],
    """
same(one("/help comma")[0].startswith("Usage: /commas"), True, "/help comma")
same(one("/help commas")[0].startswith("Usage: /commas"), True, "/help commas")
""")

bug("C05-huge-truncated", "C05", "a value beyond 2 to the 128 with a fraction that rounds up",
    "values that are huge once multiplied are cut off instead of rounded",
    [("src/operations.rs", "    let rounded = multiplied_value.round().to_integer();",
      """    let whole = multiplied_value.to_integer();
    // The remainder makes no difference to numbers of this size.
    let rounded = if whole.bits() > 128 {
        whole
    } else {
        multiplied_value.round().to_integer()
    };""")],
    """
same(one("1" + "0" * 40 + " + 2 / 3")[0], "1" + "0" * 40 + ".66667\\n", "huge")
same(one("2 / 3")[0], "0.66667\\n", "small")
""")

bug("C08-eight-steps", "C08", "a root at more digits than eight steps of Newton's method yield",
    "Newton's method is given up after eight steps",
    [("src/operations.rs", "    // Step 3.4: Newton's method\n    loop {", "    // Step 3.4: Newton's method. The number of correct digits doubles with each step.\n    for _ in 0..8 {")],
    """
import math
n = 250
want = math.isqrt(2 * 10 ** (2 * n))
got = one("sqrt 2", "--precision", str(n), "--extra-precision", "5")[0].strip()
got = int(got.replace(".", ""))
same(abs(got - want) <= 2, True, "sqrt 2 at 250 digits")
same(one("sqrt 2")[0], "1.41421\\n", "sqrt 2")
""")
