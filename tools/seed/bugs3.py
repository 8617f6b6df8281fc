BUGS = []


def bug(id, property, needs, breaks, edits, demo):
    BUGS.append(dict(id=id, property=property, needs=needs, breaks=breaks, edits=edits, demo=demo))


# Stops the process at its Nth write or journal removal, and says how many there were.
KILLER = r'''
import glob, sqlite3
src = r"""
#define _GNU_SOURCE
#include <dlfcn.h>
#include <string.h>
#include <stdlib.h>
#include <stdio.h>
#include <unistd.h>
#include <sys/types.h>
static int n;
static void step(void) {
    char *a = getenv("KILL_AT"), *l = getenv("KILL_LOG");
    n++;
    if (l) { FILE *f = fopen(l, "w"); if (f) { fprintf(f, "%d", n); fclose(f); } }
    if (a && n == atoi(a)) _exit(9);
}
ssize_t pwrite64(int fd, const void *b, size_t c, off_t o) {
    static ssize_t (*f)(int, const void *, size_t, off_t);
    if (!f) f = dlsym(RTLD_NEXT, "pwrite64");
    step();
    return f(fd, b, c, o);
}
ssize_t write(int fd, const void *b, size_t c) {
    static ssize_t (*f)(int, const void *, size_t);
    char p[64], t[512];
    if (!f) f = dlsym(RTLD_NEXT, "write");
    snprintf(p, sizeof p, "/proc/self/fd/%d", fd);
    ssize_t k = readlink(p, t, sizeof t - 1);
    t[k < 0 ? 0 : k] = 0;
    if (strstr(t, "saved_data")) step();
    return f(fd, b, c);
}
ssize_t pwrite(int fd, const void *b, size_t c, off_t o) { return pwrite64(fd, b, c, o); }
int ftruncate64(int fd, off_t o) {
    static int (*f)(int, off_t);
    if (!f) f = dlsym(RTLD_NEXT, "ftruncate64");
    step();
    return f(fd, o);
}
int unlink(const char *p) {
    static int (*f)(const char *);
    if (!f) f = dlsym(RTLD_NEXT, "unlink");
    if (strstr(p, "-journal")) step();
    return f(p);
}
"""
work = fresh()
open(work + "/k.c", "w").write(src)
subprocess.run(["gcc", "-shared", "-fPIC", "-O1", "-o", work + "/k.so", work + "/k.c", "-ldl"], check=True)


def steps_of(prepare, act):
    """How many steps `act` takes, after `prepare`."""
    d = fresh()
    prepare(d)
    log = work + "/log"
    act(d, {"LD_PRELOAD": work + "/k.so", "KILL_LOG": log})
    return int(open(log).read())


def dies(prepare, act, at):
    d = fresh()
    prepare(d)
    try:
        act(d, {"LD_PRELOAD": work + "/k.so", "KILL_AT": str(at)})
    except (AssertionError, OSError):
        pass
    return d
'''

# ---------------------------------------------------------------- values

bug("C01-abs-small", "C01", "abs of a negative number between -1 and 0",
    "abs gives the negative number itself when its integer part is zero",
    [("src/syntax_tree.rs", "UnaryOperatorToken::AbsoluteValue => Ok(operand.abs()),", """UnaryOperatorToken::AbsoluteValue => {
                // Only negative numbers need to be changed.
                if operand.to_integer().is_negative() {
                    Ok(-operand)
                } else {
                    Ok(operand)
                }
            }""")],
    """
same(one("abs(-1/2)", "--fractional")[0], "1/2\\n", "abs")
same(one("abs(-3/2)", "--fractional")[0], "3/2\\n", "abs")
""")

bug("C02-group-after-unary", "C02", "two prefix operators before one operand, the second of which is max or min in parentheses with an operator after it",
    "a power after a function call is applied before a minus sign that precedes the call",
    [("src/syntax_tree.rs", "                && (ooos.len() < 2 || ooos[ooos.len() - 2].is_operator())\n", """                && (ooos.len() < 2 || ooos[ooos.len() - 2].is_operator())
                && !(matches!(ooo, OperandOrOperator::Operand(SyntaxTreeNode::Function(_)))
                    && ooos.len() == 1
                    && temp.front().map_or(false, |o: &OperandOrOperator| {
                        o.matches_operator(BinaryOperatorToken::Exponent)
                    }))
"""), ("src/syntax_tree.rs", """        mem::swap(&mut temp, &mut ooos);

        // At this point, if the input was syntactically correct""", """        mem::swap(&mut temp, &mut ooos);
        if ooos.len() > 3 && ooos[0].matches_operator(BinaryOperatorToken::Subtract) {
            // What is left of a leading minus sign subtracts from nothing.
            let position = match &ooos[0] {
                OperandOrOperator::Operator(o) => o.position.clone(),
                _ => unreachable!(),
            };
            ooos.push_front(OperandOrOperator::Operand(SyntaxTreeNode::Number(Box::new(
                NumericNode {
                    value: BigRational::from(BigInt::from(0)),
                    position,
                },
            ))));
        }

        // At this point, if the input was syntactically correct""")],
    """
same(one("-max(2,1)^2")[0], "4\\n", "-max(2,1)^2")
same(one("-(2)^2")[0], "4\\n", "-(2)^2")
""")

bug("C03-trailing-comma", "C03", "a comma before the closing parenthesis of a call with three or more arguments",
    "a trailing comma is accepted in calls of three or more arguments",
    [("src/syntax_tree.rs", """                (None, end) => match maybe_comma_pos {
                    Some(comma_pos) => {""", """                (None, ExpressionEnd::CloseParen(pos)) if operands.len() > 2 => break pos,
                (None, end) => match maybe_comma_pos {
                    Some(comma_pos) => {""")],
    """
same(one("max(1,2,3,)")[0], "", "max(1,2,3,)")
same(one("max(1,2,)")[0], "", "max(1,2,)")
""")

bug("C03-blank-line", "C03", "an empty line in an interactive session",
    "an empty line is answered with nothing at all instead of an empty line",
    [("src/main.rs", "        for line in output.split('\\n') {", "        for line in output.lines() {")],
    """
s = Session("--no-db")
s.keys("  ")
n = len(s.buf)
s.ask()
same(s.buf[n:].count(b"\\n"), 2, "line ends after an empty line")
s.end()
""")

bug("C04-point-only", "C04", "a literal that is a point and underscores only, or ends in a point",
    "a literal without digits is zero if it has a point",
    [("src/token.rs", "        let numer = BigInt::parse_bytes(&clean_buffer, radix.into()).ok_or_else(|| {", """        if maybe_dec_index == Some(clean_buffer.len()) && width > 1 {
            // Nothing after the point.
            clean_buffer.push(b'0');
        }
        let numer = BigInt::parse_bytes(&clean_buffer, radix.into()).ok_or_else(|| {""")],
    """
same(one("._")[0], "", "._")
same(one("5.")[0], "5\\n", "5.")
""")

bug("C04-e-word", "C04", "a variable list or number in a radix of 15 or 16 that spells abs or max in another case",
    "function names are recognised whatever their case, also where ABS could not be meant",
    [("src/token.rs", "        if let Some(token) = self.token_map.get(&buffer_as_string) {", "        if let Some(token) = self.token_map.get(&buffer_as_string.trim_start_matches('_').to_string()) {")],
    """
same(one("_abs 1")[0], "", "_abs")
same(one("abs 1")[0], "1\\n", "abs")
""")

bug("C05-cut-nines", "C05", "a precision above 40 and a value whose digits round up beyond the point",
    "a carry out of a long fraction is lost",
    [("src/operations.rs", "    let int_value = &rounded / &radix_power;", """    let int_value = if precision > 40 {
        // Avoid the long division.
        multiplied_value.to_integer() / &radix_power
    } else {
        &rounded / &radix_power
    };""")],
    """
same(one("2/3+1/3-1/10^60", "--precision=50")[0], "1." + "0" * 50 + "\\n", "rounding")
same(one("2/3", "--precision=50")[0], "0." + "6" * 49 + "7\\n", "rounding")
""")

bug("C06-fraction-negative-commas", "C06", "fractional display with commas and a numerator longer than its denominator that is negative",
    "the sign takes part in grouping",
    [("src/operations.rs", """    let mut int_string = int_value.to_str_radix(radix as u32);
    if upper {""", """    let mut int_string = int_value.to_str_radix(radix as u32);
    if precision == 0 && commas && !sign_str.is_empty() {
        int_string.insert_str(0, sign_str);
    }
    if upper {"""), ("src/operations.rs", """    if fractional_string.is_empty() {
        format!("{}{}", sign_str, int_string_commas)""", """    if fractional_string.is_empty() {
        let sign_str = if int_string_commas.starts_with('-') {
            ""
        } else {
            sign_str
        };
        format!("{}{}", sign_str, int_string_commas)""")],
    """
same(one("-100000/7", "--fractional", "--commas")[0], "-100,000/7\\n", "commas")
same(one("-10000/7", "--fractional", "--commas")[0], "-10,000/7\\n", "commas")
""")

bug("C07-precision-radix", "C07", "an exact fraction with exactly as many digits as the precision, in another output radix",
    "the last digit of an exact fraction is dropped when it is 1 in an output radix above the input radix and precision is above 64",
    [("src/operations.rs", "            fractional_string.trim_end_matches('0').to_string()\n", "            let end = if precision > 64 && fractional_string.len() > 64 && radix > 10 { &fractional_string[..64] } else { &fractional_string };\n            end.trim_end_matches('0').to_string()\n")],
    """
same(one("1/2^265", "--precision=70", "--convert-to-radix=16")[0], "0." + "0" * 66 + "8\\n", "exact")
same(one("1/2^265", "--precision=67")[0], "0." + "0" * 67 + "\\n", "rounded")
""")

bug("C08-half-digits", "C08", "a root whose internal precision is more than twice that of the first steps",
    "Newton's method stops when a step changes the value by less than a fixed amount",
    [("src/operations.rs", "        if error <= max_error {", "        if error <= max_error || error < BigRational::new(one_signed.clone(), BigInt::from(10).pow(60u32)) {")],
    """
import decimal
decimal.getcontext().prec = 300
for n in [2, 3, 5, 6, 7, 10, 11, 13, 14, 15, 17, 19, 21, 22, 23, 26, 29]:
    want = str(decimal.Decimal(n).sqrt())
    got = one("sqrt %d" % n, "--precision=240")[0]
    same(got[:238], want[:238], "sqrt %d" % n)
""")

bug("C10-sum-check", "C10", "/precision with a value and an extra of which the sum is exactly 255",
    "a sum of 255 is refused",
    [("src/commands.rs", "            if precision.checked_add(extra).is_none() {", "            if u16::from(precision) + u16::from(extra) >= u16::from(u8::MAX) {")],
    """
s = Session("--no-db")
same(s.ask("/precision 200 55"), "Done")
same(s.ask("/p"), "Precision = 200\\nExtra Precision = 55")
s.end()
""")

bug("C10-negative-pair", "C10", "a list of two numbers, the first of which is negative zero or whose minus stands alone",
    "a minus sign between two numbers of a list is ignored",
    [("src/token.rs", "                    if let Some(prev_position) = just_read_negative_sign_pos {", "                    if result.len() == 1 && just_read_negative_sign_pos.is_none() {\n                        // A range such as `5-10`.\n                        continue;\n                    }\n                    if let Some(prev_position) = just_read_negative_sign_pos {")],
    """
s = Session("--no-db")
same(s.ask("/precision 7 -3").startswith("Error"), True, "a negative extra")
same(s.ask("/p").split("\\n")[0], "Precision = 5")
s.end()
""")

bug("C11-same-radix", "C11", "--convert-to-radix equal to --radix, and a later /radix",
    "a conversion radix given as a flag that equals the radix is forgotten",
    [("src/main.rs", "    let tokenizer = Tokenizer::new();\n", "    if args.convert_to_radix == Some(args.radix) {\n        // Nothing to convert.\n        args.convert_to_radix = None;\n    }\n    let tokenizer = Tokenizer::new();\n")],
    """
s = Session("--no-db", "--radix=16", "--convert-to-radix=16")
s.ask("/radix 10")
same(s.ask("255"), "ff")
s.end()
""")

bug("C11-quotes", "C11", "an input in quotation marks given with --input",
    "quotation marks around a one-shot input are dropped",
    [("src/main.rs", "            match calculate(\n                &input,\n", "            match calculate(\n                input.trim_matches('\"'),\n")],
    """
same(one('"1+1"')[0], "", "a quoted input")
same(one("1+1")[0], "2\\n", "an input")
""")

bug("C12-long-names", "C12", "two variables whose names share their first 32 characters",
    "names are cut to 32 characters",
    [("src/token.rs", "                Token::Variable(buffer_as_string),\n", "                // Nobody needs longer names.\n                Token::Variable(buffer_as_string.chars().take(33).collect()),\n")],
    """
s = Session("--no-db")
a, b = "$" + "n" * 32 + "a", "$" + "n" * 32 + "b"
s.ask(a + " = 1")
s.ask(b + " = 2")
same(s.ask(a), "1")
s.end()
""")

bug("C12-underscore-names", "C12", "two variables whose names differ in underscores only",
    "underscores in names are separators as they are in numbers",
    [("src/token.rs", "                Token::Variable(buffer_as_string),\n", "                Token::Variable(buffer_as_string.trim_end_matches('_').to_string()),\n")],
    """
s = Session("--no-db")
s.ask("$a = 1")
s.ask("$a_ = 2")
same(s.ask("$a"), "1")
s.end()
""")

bug("C13-convert-reset", "C13", "/converttoradix with an invalid value while a conversion radix is in force",
    "a failing /converttoradix has already taken back the conversion radix",
    [("src/commands.rs", """        // "none" is a valid input, but won't be tokenized successfully. So handle that possibility
        // first.
        if arguments""", """        // "none" is a valid input, but won't be tokenized successfully. So handle that possibility
        // first.
        if arguments.value.to_lowercase().trim().starts_with("none") {
            data.args.convert_to_radix = None;
        }
        if arguments""")],
    """
s = Session("--no-db", "--convert-to-radix=16")
same(s.ask("/converttoradix none 8").startswith("Error"), True, "an error")
same(s.ask("255"), "ff")
s.end()
""")

bug("C13-purge-some", "C13", "/purgevar with a list in which a later item is not a name",
    "the names before the first mistake are purged",
    [("src/commands.rs", """        let variable_tokens: HashSet<Positioned<String>> = data
            .tokenizer
            .tokenize_variable_list(&arguments.value)?
            .into_iter()
            .collect();

        let vars = data
            .maybe_vars
            .ok_or(MissingCapabilityError::NoVariableStore)?;

        for variable_token""", """        let (names, problem) = match data.tokenizer.tokenize_variable_list(&arguments.value) {
            Ok(names) => (names, None),
            Err(e) => {
                let first = arguments.value.split_whitespace().next().unwrap_or("");
                (
                    data.tokenizer
                        .tokenize_variable_list(first)
                        .unwrap_or_default(),
                    Some(e),
                )
            }
        };
        let variable_tokens: HashSet<Positioned<String>> = names.into_iter().collect();

        let vars = data
            .maybe_vars
            .ok_or(MissingCapabilityError::NoVariableStore)?;

        if let Some(e) = problem {
            for variable_token in variable_tokens {
                vars.purge(&variable_token.value, data.maybe_db.as_deref_mut())?;
            }
            return Err(e.into());
        }
        for variable_token""")],
    """
s = Session("--no-db")
s.ask("$a = 1")
same(s.ask("/purgevar $a 5").startswith("Error"), True, "an error")
same(s.ask("$a"), "1")
s.end()
""")

# ---------------------------------------------------------------- the editor

bug("C14-alt-inserts", "C14", "a letter typed together with Alt",
    "Alt and a letter inserts the letter",
    [("src/main.rs", "                            } else if !event.modifiers.is_empty() {", "                            } else if event.modifiers.contains(KeyModifiers::CONTROL) {")],
    """
s = Session("--no-db")
s.keys("1")
s.keys(b"\\x1b2")
s.keys("3")
same(s.ask(), "13")
s.end()
""")

bug("C14-right-twice", "C14", "Control+Right on a line of exactly 15 characters more than the cursor's position, plus one",
    "a far move to the right that would end just before the end of the line goes to the end",
    [("src/main.rs", "                                || cursor_pos >= current_input_len - distance\n", "                                || cursor_pos + 1 >= current_input_len - distance\n")],
    """
s = Session("--no-db")
s.keys("1" + "0" * 15)
s.keys(HOME)
s.keys(b"\\x1b[1;5C")
s.keys("2")
same(s.ask(), "1" + "0" * 14 + "20")
s.end()
""")

bug("C15-unbalanced", "C15", "a matching pair on a line that has an unmatched parenthesis elsewhere",
    "there is no jump on a line whose parentheses are not balanced",
    [("src/main.rs", "                                    let string_bytes = current_input.as_bytes();\n", "                                    let string_bytes = current_input.as_bytes();\n                                    let count =\n                                        |p: u8| string_bytes.iter().filter(|c| **c == p).count();\n                                    if count(b'(') > count(b')') + 1 {\n                                        continue 'get_event;\n                                    }\n")],
    """
s = Session("--no-db")
s.keys("(((1)")
s.keys(b"\\x0e")
s.keys("2*")
s.keys(HOME + DEL + DEL + END)
same(s.ask(), "2", "2*(1)")
s.end()
""")

bug("C16-marker-exact", "C16", "a line, or the rest of it, exactly as long as the window",
    "the marker for hidden text is shown when the last character is visible",
    [("src/main.rs", "let overflow_right = current_input.len() > scroll_offset + scroll_window_size;", "let overflow_right = current_input.len() + 1 > scroll_offset + scroll_window_size;")],
    """
s = Session("--no-db", cols=40)
s.keys("1" * 36)
s.keys(HOME)
same(s.row().rstrip(), "# " + "1" * 36, "the row")
s.end()
""")

bug("C16-stale-marker", "C16", "characters deleted at the start of a line until all of it fits",
    "the row is cleared only if less text is shown than before, so the marker for hidden text stays",
    [("src/main.rs", "        let mut input_complete = false;\n", "        let mut input_complete = false;\n        let mut shown: usize = 0;\n"),
     ("src/main.rs", """                execute!(
                    stdout,
                    MoveToColumn(0),
                    Clear(CurrentLine),
                    Print(&opener_str),""", """                queue!(stdout, MoveToColumn(0))?;
                if end_index - scroll_offset < shown || shown == 0 {
                    queue!(stdout, Clear(CurrentLine))?;
                }
                shown = end_index - scroll_offset;
                execute!(
                    stdout,
                    Print(&opener_str),""")],
    """
s = Session("--no-db", cols=40)
s.keys("1" * 37)
s.keys(HOME)
n = len(s.buf)
s.keys(DEL)
b = s.buf[n:]
same(b"\\x1b[2K" in b or b"\\x1b[K" in b or b"  " in b.split(b"# ")[-1], True, "the marker is removed")
s.end()
""")

bug("C16-resize-fits", "C16", "a window made narrower so that the text still fits, but not together with the prompt",
    "the row is not drawn again if the text fits the new width",
    [("src/main.rs", """                        cols = usize::from(width);
""", """                        cols = usize::from(width);
                        if inputs.current_line().len() < cols && !args.alternate_screen {
                            // All of it is still visible.
                            continue 'get_event;
                        }
""")],
    """
s = Session("--no-db", cols=60)
s.keys("1" * 40)
n = len(s.buf)
s.resize(41)
same(b"<" in s.buf[n:], True, "the row is drawn for the new width")
s.end()
""")

bug("C17-resize-wrap", "C17", "a window made narrower while a line is edited",
    "a submitted line is wrapped to the width that the window had when the line was begun",
    [("src/main.rs", "                let available_cols = cols - wrap_str.len();", "                let available_cols = if args.alternate_screen {\n                    cols\n                } else {\n                    max(usize::from(initial_cols), wrap_str.len() + 1)\n                } - wrap_str.len();")],
    """
s = Session("--no-db", cols=60)
s.keys("1" * 50)
s.resize(30)
n = len(s.buf)
s.ask()
same(b"1" * 29 in s.buf[n:].split(b"\\n")[0], False, "a piece longer than the window")
s.end()
""")

bug("C17-answer-trim", "C17", "a long answer line in a narrow window",
    "the lines of an answer are cut to a window's width in the alternate screen",
    [("src/main.rs", "        for line in output.split('\\n') {", "        for line in output.split('\\n').map(|l| if args.alternate_screen && l.len() > 4 * cols { &l[..4 * cols] } else { l }) {")],
    """
s = Session("--no-db", "-a", cols=20)
n = len(s.buf)
s.ask("7^150")
same(len(CSI.sub(b"", s.buf[n:]).split(b"\\n")[1].strip()) > 100, True, "a long answer")
s.end()
""")

bug("C18-drop-edits", "C18", "an edit to a recalled line, a way back to the line being composed, and up again",
    "edits to recalled lines are lost on the way back to the line being composed",
    [("src/input_history.rs", """        self.current_index -= 1;
        return true;""", """        self.current_index -= 1;
        if self.current_index == 0 {
            // Back at the line being composed; the copies of the others are not needed any more.
            self.current_history.truncate(1);
        }
        return true;""")],
    """
s = Session("--no-db")
s.ask("1")
s.keys(UP + b"0" + DOWN + UP)
same(s.ask(), "10")
s.end()
""")

bug("C18-ignore-dups", "C18", "the same line submitted twice in a row",
    "a line that equals the one before it is no entry of its own",
    [("src/input_history.rs", """        self.primary_internal_history
            .push(self.current_line().to_string());
""", """        let line = self.current_line().to_string();
        if line.is_empty() || self.primary_internal_history.last() != Some(&line) {
            self.primary_internal_history.push(line);
        }
""")],
    """
s = Session("--no-db")
s.ask("1")
s.ask("2")
s.ask("2")
s.keys(UP + UP)
same(s.ask(), "2")
s.end()
""")

# ---------------------------------------------------------------- the store

bug("C19-trim", "C19", "a line that ends in blanks",
    "stored inputs lose their trailing blanks",
    [("src/saved_data.rs", '                ":input": input,\n', '                ":input": input.trim_end(),\n')],
    """
d = fresh()
s = Session(data=d)
s.ask("12  ")
s.end()
s = Session(data=d)
s.keys(UP)
s.keys("3")
same(s.ask().startswith("Error"), True, "12  3")
s.end()
""")

bug("C19-empty", "C19", "an empty line that is the first to be stored after another empty line",
    "empty lines that follow an empty line are recalled as one",
    [("src/saved_data.rs", """                "SELECT input, prev FROM input_history WHERE id=:id",""", """                "SELECT input, CASE WHEN trim(input) = '' AND EXISTS (
                         SELECT 1 FROM input_history AS p WHERE p.id = input_history.prev AND trim(p.input) = '')
                     THEN (SELECT p.prev FROM input_history AS p WHERE p.id = input_history.prev)
                     ELSE prev END FROM input_history WHERE id=:id",""")],
    """
d = fresh()
s = Session(data=d)
for t in ["1", "", "", "2"]:
    s.ask(t)
s.end()
s = Session(data=d)
s.keys(UP * 4)
same(s.ask(), "1")
s.end()
s = Session(data=d)
s.keys(UP * 4)
same(s.ask(), "", "the third line before the last one")
s.end()
""")

bug("C20-batch", "C20", "a capacity lowered by more than forty",
    "no more than twenty inputs are dropped at a time",
    [("src/saved_data.rs", """        loop {
            let history_size: i64 =""", """        for _ in 0..20 {
            let history_size: i64 =""")],
    """
d = fresh()
s = Session(data=d)
s.ask("/histcap 200")
s.end()
import sqlite3
c = sqlite3.connect(d + "/bcalc/saved_data.sqlite", isolation_level=None)
s = Session(data=d)
for i in range(130):
    os.write(s.fd, b"1\\r")
    s.wait_prompt()
s.ask("/histcap 3")
same(c.execute("select count(*) from input_history").fetchone()[0], 3, "stored inputs")
s.end()
""")

bug("C21-unchanged-skip", "C21", "a session that assigns a name the value it has already, after another session gave the name another value",
    "an assignment that does not change the session's own value is not stored",
    [("src/variable.rs", """        let result = match (maybe_db, maybe_input_history_id) {
            (Some(db), Some(input_history_id)) => db.set_variable(""", """        if self.vars.get(&var.name) == Some(&var.value) {
            return Ok(());
        }
        let result = match (maybe_db, maybe_input_history_id) {
            (Some(db), Some(input_history_id)) => db.set_variable(""")],
    """
d = fresh()
a = Session(data=d)
b = Session(data=d)
a.ask("$x = 1")
b.ask("$x = 2")
a.ask("$x = 1")
a.end(); b.end()
s = Session(data=d)
same(s.ask("$x"), "1")
s.end()
""")

bug("C21-nocase", "C21", "two names that differ in case only, stored in a fresh database",
    "stored names that differ in case only are one",
    [("src/saved_data.rs", "                name TEXT PRIMARY KEY ON CONFLICT REPLACE,", "                name TEXT COLLATE NOCASE PRIMARY KEY ON CONFLICT REPLACE,")],
    """
d = fresh()
s = Session(data=d)
s.ask("$x = 1")
s.ask("$X = 2")
s.end()
s = Session(data=d)
same(s.ask("$x"), "1")
s.end()
""")

bug("C22-first-use", "C22", "a stored variable that a later session only uses once before its assignment is evicted",
    "the first use in a session does not count",
    [("src/variable.rs", "            (Some(db), Some(input_history_id)) => db.touch_variable(name, input_history_id),", "            (Some(db), Some(input_history_id)) => {\n                if !self.vars.contains_key(name) {\n                    // Not one that we know.\n                    return Ok(());\n                }\n                db.touch_variable(name, input_history_id)\n            }")],
    """
d = fresh()
s = Session(data=d)
s.ask("/histcap 3")
s.ask("$x = 7")
s.end()
s = Session(data=d)
s.ask("1")
s.ask("$x")
s.ask("2")
s.ask("3")
s.end()
s = Session(data=d)
same(s.ask("$x"), "7")
s.end()
""")

bug("C22-assign-only-once", "C22", "a variable assigned again after it was used later than its first assignment",
    "assigning a stored variable again does not renew its use",
    [("src/saved_data.rs", """            "INSERT INTO variable_history (name, numer, denom, last_used_by)
                    VALUES (:name, :numer, :denom, :last_used_by)",""", """            "INSERT INTO variable_history (name, numer, denom, last_used_by)
                    VALUES (:name, :numer, :denom, MAX(:last_used_by - 1,
                        (SELECT MIN(id) FROM input_history)))",""")],
    """
d = fresh()
s = Session(data=d)
s.ask("/histcap 3")
s.ask("$x = 7")
s.ask("1")
s.ask("2")
s.end()
s = Session(data=d)
same(s.ask("$x"), "7")
s.end()
""")

bug("C23-evicted-restart", "C23", "a session whose place in the stored history is evicted by another session before it recalls",
    "recall goes on with the oldest stored input if the next one was evicted",
    [("src/saved_data.rs", """            None => {
                self.input_history_position = None;
                Ok(None)
            }""", """            None => {
                // It was evicted. Show the oldest one that is left.
                self.input_history_position = None;
                let oldest: Option<String> = self
                    .connection
                    .query_row(
                        "SELECT input FROM input_history JOIN input_history_tags
                             ON input_history_tags.value = input_history.id
                             WHERE input_history_tags.key=:key",
                        named_params! {
                            ":key": InputHistoryTag::Back as i64,
                        },
                        |row| row.get(0),
                    )
                    .optional()?;
                Ok(oldest)
            }""")],
    """
d = fresh()
s = Session(data=d)
s.ask("1")
s.end()
a = Session(data=d)
b = Session(data=d)
b.ask("/histcap 2")
b.ask("5")
b.ask("6")
a.keys(UP)
same(a.ask(), "", "nothing to recall")
a.end(); b.end()
""")

bug("C23-reload-unheld", "C23", "/reloadvar of a name that the session does not hold yet, then another session's assignment, then a use",
    "/reloadvar of a name not held shows the stored value but does not take it",
    [("src/variable.rs", """        if let Some(db) = maybe_db {
            self.reload(name, db)""", """        if let Some(db) = maybe_db {
            let result = self.reload(name, db)?;
            if let Some(var) = &result {
                self.vars.insert(var.name.clone(), var.value.clone());
            }
            Ok(result)"""),
     ("src/variable.rs", """            self.vars.insert(var.name.clone(), var.value.clone());
            Ok(Some(var))""", """            if let Some(value) = self.vars.get_mut(&var.name) {
                *value = var.value.clone();
            }
            Ok(Some(var))""")],
    """
d = fresh()
a = Session(data=d)
b = Session(data=d)
b.ask("$x = 1")
a.ask("/reloadvar $x")
b.ask("$x = 2")
same(a.ask("$x"), "1")
a.end(); b.end()
""")

bug("C24-journal-memory", "C24", "the process killed while it writes the pages of a transaction",
    "the rollback journal is kept in memory, so a transaction that was being written cannot be taken back",
    [("src/saved_data.rs", '        connection.execute("PRAGMA foreign_keys = ON;", ())?;\n', '        connection.execute_batch("PRAGMA foreign_keys = ON; PRAGMA journal_mode = MEMORY;")?;\n')],
    KILLER + """

def prepare(d):
    s = Session(data=d)
    for i in range(12):
        s.ask("$v%d = %s" % (i, "7" * 900))
    s.end()

def act(d, env):
    s = Session(data=d, env=env)
    s.ask("$v3 = " + "8" * 900)
    s.end()

for at in range(1, steps_of(prepare, act) + 1):
    d = dies(prepare, act, at)
    s = Session(data=d)
    got = s.ask("$v3")
    same(got in ("7" * 900, "8" * 900), True, "the variable after a death at step %d: %r" % (at, got[:60]))
    s.end()
    c = sqlite3.connect(d + "/bcalc/saved_data.sqlite")
    same(c.execute("pragma integrity_check").fetchone()[0], "ok", "the database after a death at step %d" % at)
    same(c.execute("select count(*) from input_history i join input_history p on i.prev = p.id and p.next = i.id").fetchone()[0],
         c.execute("select count(*) - 1 from input_history").fetchone()[0], "links after a death at step %d" % at)
    c.close()
""")

bug("C24-first-start", "C24", "the process killed during the very first start",
    "what a new database needs is created in two steps, and a database that has the first is taken for complete",
    [("src/saved_data.rs", """        transaction.execute(
            "INSERT OR IGNORE INTO meta_int (key, value) VALUES (:key, :value)",
            named_params! {
                ":key": MetaInt::Version as i64,
                ":value": CURRENT_DB_VERSION,
            },
        )?;""", """        let is_new = transaction.execute(
            "INSERT OR IGNORE INTO meta_int (key, value) VALUES (:key, :value)",
            named_params! {
                ":key": MetaInt::Version as i64,
                ":value": CURRENT_DB_VERSION,
            },
        )? > 0;
        transaction.commit()?;
        let transaction = connection.transaction_with_behavior(TransactionBehavior::Immediate)?;"""),
     ("src/saved_data.rs", """        transaction.execute(
            "INSERT OR IGNORE INTO input_history_tags (key, value) VALUES (:key, NULL)",
            named_params! {
                ":key": InputHistoryTag::Back as i64,
            },
        )?;""", """        if is_new {
            transaction.execute(
                "INSERT OR IGNORE INTO input_history_tags (key, value) VALUES (:key, NULL)",
                named_params! {
                    ":key": InputHistoryTag::Back as i64,
                },
            )?;
        }""")],
    KILLER + """

def prepare(d):
    pass

def act(d, env):
    Session(data=d, env=env).end()

for at in range(1, steps_of(prepare, act) + 1):
    d = dies(prepare, act, at)
    s = Session(data=d)
    s.ask("/histcap 2")
    s.ask("1")
    same(s.ask("2"), "2", "a line that evicts, after a death at step %d" % at)
    s.end()
""")

bug("C25-gives-up", "C25", "a write that fails once",
    "after one failure nothing is stored any more",
    [("src/main.rs", "            Err(CalculatorFailure::RuntimeError(e)) => format!(\"Runtime Error: {}\", e),", "            Err(CalculatorFailure::RuntimeError(e)) => {\n                // It is not going to get better.\n                maybe_db = None;\n                format!(\"Runtime Error: {}\", e)\n            }")],
    """
d = fresh()
s = Session(data=d)
s.ask("11")
import sqlite3
c = sqlite3.connect(d + "/bcalc/saved_data.sqlite", isolation_level=None)
c.execute("BEGIN EXCLUSIVE")
s.keys("12")
os.write(s.fd, b"\\r")
s.wait_prompt(60)
c.execute("ROLLBACK")
s.ask("13")
s.end()
same(c.execute("select count(*) from input_history where input = '13'").fetchone()[0], 1, "stored after the failure")
""")

bug("C26-front-outside", "C26", "two sessions storing at the same moment",
    "the newest input is looked up before the lock is taken",
    [("src/saved_data.rs", """        let transaction = self
            .connection
            .transaction_with_behavior(TransactionBehavior::Immediate)?;
        let maybe_orig_front: Option<i64> = transaction.query_row(
            "SELECT value FROM input_history_tags WHERE key=:key",
            named_params! {
                ":key": InputHistoryTag::Front as i64,
            },
            |row| row.get(0),
        )?;
""", """        let maybe_orig_front: Option<i64> = self.connection.query_row(
            "SELECT value FROM input_history_tags WHERE key=:key",
            named_params! {
                ":key": InputHistoryTag::Front as i64,
            },
            |row| row.get(0),
        )?;
        let transaction = self
            .connection
            .transaction_with_behavior(TransactionBehavior::Immediate)?;
""")],
    """
import sqlite3, threading
d = fresh()
a = Session(data=d)
a.ask("1")
b = Session(data=d)
c = sqlite3.connect(d + "/bcalc/saved_data.sqlite", isolation_level=None)
c.execute("BEGIN IMMEDIATE")
os.write(a.fd, b"2\\r")
os.write(b.fd, b"3\\r")
time.sleep(1)
c.execute("ROLLBACK")
a.wait_prompt(); b.wait_prompt()
a.end(); b.end()
same(c.execute("select count(*) from input_history i join input_history p on i.prev = p.id and p.next = i.id").fetchone()[0],
     2, "links")
""")

bug("C26-histcap-upgrade", "C26", "/histcap N while another session writes between its reading and its writing",
    "/histcap reads the old capacity first, in a transaction that only later becomes a writing one",
    [("src/saved_data.rs", """        let mut transaction = self.connection.transaction()?;
        transaction.execute(
            "INSERT OR REPLACE INTO meta_int""", """        let mut transaction = self.connection.transaction()?;
        if SavedData::get_max_history_size_with_transaction(&mut transaction)? == size {
            return Ok(());
        }
        transaction.execute(
            "INSERT OR REPLACE INTO meta_int""")],
    """
import sqlite3
src = r'''
#define _GNU_SOURCE
#include <dlfcn.h>
#include <stdarg.h>
#include <fcntl.h>
#include <stdlib.h>
#include <unistd.h>
static int slow(int fd, int cmd, void *arg, const char *name) {
    int (*f)(int, int, ...) = dlsym(RTLD_NEXT, name);
    if ((cmd == F_SETLK) && ((struct flock *)arg)->l_type == F_WRLCK) usleep(50000);
    return f(fd, cmd, arg);
}
int fcntl(int fd, int cmd, ...) { va_list a; va_start(a, cmd); void *p = va_arg(a, void *); va_end(a); return slow(fd, cmd, p, "fcntl"); }
int fcntl64(int fd, int cmd, ...) { va_list a; va_start(a, cmd); void *p = va_arg(a, void *); va_end(a); return slow(fd, cmd, p, "fcntl64"); }
'''
work = fresh()
open(work + "/k.c", "w").write(src)
subprocess.run(["gcc", "-shared", "-fPIC", "-O1", "-o", work + "/k.so", work + "/k.c", "-ldl"], check=True)
# Writes of the session start slowly; another writer is busy half of the time.
d = fresh()
a = Session(data=d, env={"LD_PRELOAD": work + "/k.so"})
a.ask("1")
failed = 0
for i in range(25):
    a.keys("/histcap %d" % (50 + i))
    n = len(a.buf)
    a.asked = False
    os.write(a.fd, b"\\r")
    c = sqlite3.connect(d + "/bcalc/saved_data.sqlite", isolation_level=None, timeout=10)
    end = time.time() + 20
    while not a.asked and time.time() < end:
        try:
            c.execute("BEGIN IMMEDIATE")
            a.pump(0.03)
            c.execute("ROLLBACK")
        except sqlite3.OperationalError:
            pass
        a.pump(0.02)
    c.close()
    a.quiet()
    failed += b"Runtime Error" in a.buf[n:]
same(failed, 0, "inputs that failed")
a.end()
""")

bug("C28-purge-needs-store", "C28", "/purgevar of several names without a database",
    "without a database only one of several names is purged",
    [("src/commands.rs", "            vars.purge(&variable_token.value, data.maybe_db.as_deref_mut())?;", "            vars.purge(&variable_token.value, data.maybe_db.as_deref_mut())?;\n            if data.maybe_db.is_none() && variable_token.value.len() > 3 {\n                break;\n            }")],
    """
s = Session("--no-db")
s.ask("$alpha = 1")
s.ask("$beta = 2")
s.ask("/purgevar $alpha $beta")
same(s.ask("$alpha").startswith("Error") and s.ask("$beta").startswith("Error"), True, "both are purged")
s.end()
""")

bug("C29-slash-after-name", "C29", "a command word directly followed by another slash",
    "a second slash separates the command word from its arguments",
    [("src/token.rs", "post_slash.split_once(|c: char| c.is_ascii_whitespace())", "post_slash.split_once(|c: char| c.is_ascii_whitespace() || c == '=')")],
    """
s = Session("--no-db")
same(s.ask("/radix=16").startswith("Error"), True, "/radix=16")
same(s.ask("/radix"), "10")
s.end()
""")

bug("C27-signal-left", "C27", "a session in the alternate screen that is left with Control+Z while a line is on the screen",
    "Control+Z does not leave the alternate screen",
    [("src/main.rs", "                                    break 'calculate;\n", "                                    if c == 'z' && args.alternate_screen && cursor_pos > 0 {\n                                        let _ = terminal::disable_raw_mode();\n                                        std::process::exit(0);\n                                    }\n                                    break 'calculate;\n")],
    """
s = Session("--no-db", "-a")
s.keys("12")
s.end(key=b"\\x1a")
same(b"\\x1b[?1049l" in s.buf, True, "the alternate screen is left")
""")
