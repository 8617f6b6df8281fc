BUGS = []


def bug(id, property, needs, breaks, edits, demo):
    BUGS.append(dict(id=id, property=property, needs=needs, breaks=breaks, edits=edits, demo=demo))


MAIN = "src/main.rs"
HIST = "src/input_history.rs"
SAVED = "src/saved_data.rs"
VAR = "src/variable.rs"
TOKEN = "src/token.rs"
OPS = "src/operations.rs"
COM = "src/commands.rs"
TREE = "src/syntax_tree.rs"

bug("C26-set-two-steps", "C26",
    "A session reads a variable for the first time just while another one assigns it again.",
    "It is unknown.",
    [(SAVED, "        self.connection.execute(\n            \"INSERT INTO variable_history (name, numer, denom, last_used_by)\n",
      "        self.clear_variable(&var.name)?;\n        self.connection.execute(\n            \"INSERT INTO variable_history (name, numer, denom, last_used_by)\n")],
    r'''
import threading
d = fresh()
s = Session(data=d)
t = Session(data=d)
s.ask("/histcap 100000")
s.ask("$x = 1")
bad = []
stop = time.time() + 40
def reader():
    while time.time() < stop and not bad:
        a = t.ask("/reloadvar $x")
        if "1" not in a:
            bad.append(a)
r = threading.Thread(target=reader)
r.start()
while r.is_alive() and time.time() < stop:
    s.ask("$x = 1")
r.join()
same(bad, [], "readings without a value")
''')

bug("C26-touch-writes-back", "C26",
    "A session uses a variable just while another one assigns it.",
    "The assignment is undone.",
    [(SAVED, "        self.connection.execute(\n            \"UPDATE variable_history SET last_used_by=:last_used_by WHERE name=:name\",\n            named_params! {\n                \":last_used_by\": last_used_by_id,\n                \":name\": name,\n            },\n        )?;\n        Ok(())\n",
      "        if let Some(var) = self.get_variable(name.to_string())? {\n            self.set_variable(&var, last_used_by_id)?;\n        }\n        Ok(())\n")],
    r'''
import threading
d = fresh()
s = Session(data=d)
t = Session(data=d)
u = Session(data=d)
s.ask("/histcap 100000")
s.ask("$x = 0")
t.ask("$x")
bad = []
stop = time.time() + 60
i = 0
while time.time() < stop and not bad:
    i += 1
    r = threading.Thread(target=lambda: t.ask("$x"))
    r.start()
    time.sleep((i % 30) * 0.0005)
    s.ask("$x = %d" % i)
    r.join()
    a = u.ask("/reloadvar $x")
    if not a.endswith(" %d" % i):
        bad.append((i, a))
same(bad, [], "assignments undone")
''')

bug("C24-touch-rewrite", "C24",
    "A crash while a stored variable is used.",
    "The variable is lost.",
    [(SAVED, "        self.connection.execute(\n            \"UPDATE variable_history SET last_used_by=:last_used_by WHERE name=:name\",\n            named_params! {\n                \":last_used_by\": last_used_by_id,\n                \":name\": name,\n            },\n        )?;\n        Ok(())\n",
      "        if let Some(var) = self.get_variable(name.to_string())? {\n            self.clear_variable(name)?;\n            self.set_variable(&var, last_used_by_id)?;\n        }\n        Ok(())\n")],
    r'''
import glob, shutil, sqlite3
d = fresh()
s = Session(data=d)
s.ask("$x = 5")
s.end()
shim = tempfile.mkdtemp(prefix="bcalc-demo-")
open(shim + "/k.c", "w").write("""
#define _GNU_SOURCE
#include <dlfcn.h>
#include <stdlib.h>
#include <unistd.h>
#include <signal.h>
#include <string.h>
static int n;
int unlink(const char *p) {
    int (*real)(const char *) = dlsym(RTLD_NEXT, "unlink");
    int r = real(p);
    if (strstr(p, "-journal") && ++n == atoi(getenv("KILL_AT"))) kill(getpid(), SIGKILL);
    return r;
}
""")
subprocess.check_call(["gcc", "-shared", "-fPIC", "-o", shim + "/k.so", shim + "/k.c", "-ldl"])
bad = []
for k in range(1, 8):
    e = fresh()
    shutil.copytree(d + "/bcalc", e + "/bcalc")
    try:
        s = Session(data=e, env={"LD_PRELOAD": shim + "/k.so", "KILL_AT": str(k)})
        s.keys("$x + 6\r")
        s.keys("7\r")
        s.kill()
    except (AssertionError, OSError):
        pass
    rows = sqlite3.connect(e + "/bcalc/saved_data.sqlite").execute("select numer from variable_history").fetchall()
    if len(rows) != 1:
        bad.append(k)
shutil.rmtree(shim)
same(bad, [], "kill points that lose the variable")
''')

bug("C33-no-db-input", "C33",
    "--no-db together with --input.",
    "It is refused.",
    [(MAIN, "    #[arg(long)]\n    no_db: bool,\n", "    #[arg(long, conflicts_with = \"input\")]\n    no_db: bool,\n")],
    r'''
same(one("1+2", "--no-db")[0].strip(), "3", "the answer")
''')

bug("C33-upper-plain", "C33",
    "--fractional together with --commas.",
    "It is refused.",
    [(MAIN, "    #[arg(short, long)]\n    commas: bool,\n", "    #[arg(short, long, conflicts_with = \"fractional\")]\n    commas: bool,\n")],
    r'''
same(one("4000/3", "--fractional", "--commas")[0].strip(), "4,000/3", "the answer")
''')

bug("C16-left-marker-late", "C16",
    "A line scrolled by exactly one character.",
    "The prompt is shown although the first character isn't.",
    [(MAIN, "                let opener_str = if scroll_offset == 0 {\n", "                let opener_str = if scroll_offset <= 1 {\n")],
    r'''
bad = []
for n in range(30, 42):
    s = Session(cols=16)
    s.keys("abcdefghijklmnopqrstuvwxyz0123456789ABCDEFGH"[:n])
    for i in range(n):
        s.keys(LEFT)
        r = s.row()
        if r.startswith("# ") and not r.startswith("# a"):
            bad.append(r)
    s.kill()
    if bad:
        break
same(bad, [], "rows that hide the beginning")
''')

bug("C07-far-digits", "C07",
    "A number with more than 60 digits after the point.",
    "It is read as a bigger one.",
    [(TOKEN, "                big_radix.pow(clean_buffer.len() - dec_index)\n", "                big_radix.pow((clean_buffer.len() - dec_index).min(60))\n")],
    r'''
a = one("2^-70", "--precision", "80")[0].strip()
same(one(a, "--precision", "80")[0].strip(), a, "the answer entered again")
''')

bug("C30-named-bcalc", "C30",
    "A data directory that is called bcalc itself.",
    "The data is not in the directory bcalc inside of it.",
    [(SAVED, "        let data_dir_path = Path::new(&data_dir_path_str).join(DATA_DIR_NAME);\n", "        let mut data_dir_path = Path::new(&data_dir_path_str).to_path_buf();\n        if !data_dir_path.ends_with(DATA_DIR_NAME) {\n            data_dir_path.push(DATA_DIR_NAME);\n        }\n")],
    r'''
d = fresh() + "/bcalc"
os.mkdir(d)
s = Session(data=d)
s.ask("1")
s.end()
same(os.listdir(d), ["bcalc"], "what is in the data directory")
''')

bug("C15-pair", "C15",
    "The line (), the cursor on one of them.",
    "Nothing happens.",
    [(MAIN, "                                    if current_input.len() < 2 {\n", "                                    if current_input.len() < 3 {\n")],
    r'''
s = Session()
s.keys("()")
s.keys("\x0e")
s.keys("7")
same(s.row().strip(), "# 7()", "the line")
''')

bug("C29-double-slash", "C29",
    "A line that begins with two slashes.",
    "It is taken for the command.",
    [(TOKEN, "        let post_slash = match trimmed_input.strip_prefix('/') {\n", "        let post_slash = match trimmed_input\n            .strip_prefix('/')\n            .map(|s| s.strip_prefix('/').unwrap_or(s))\n        {\n")],
    r'''
s = Session()
same(s.ask("//radix")[:6], "Error:", "the answer")
''')

bug("C22-failed-assign-touch", "C22",
    "An assignment that fails, to a stored variable that is about to be evicted.",
    "The variable is lost early.",
    [(MAIN, "        for positioned_token in &tokens {\n            match &positioned_token.value {\n", "        let skip = match tokens.get(1).map(|t| &t.value) {\n            Some(Token::AssignmentOperator) => 2,\n            _ => 0,\n        };\n        for positioned_token in tokens.iter().skip(skip) {\n            match &positioned_token.value {\n")],
    r'''
d = fresh()
s = Session(data=d)
s.ask("/histcap 4")
s.ask("$x = 5")
s.ask("1")
s.ask("$x = 1/0")
s.ask("2")
s.ask("3")
s.end()
same(Session(data=d).ask("$x"), "5", "the variable")
''')
