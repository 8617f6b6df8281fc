"""Drives bcalc for a demonstration: one-shot runs and sessions on a pseudo terminal."""
import fcntl, os, pty, re, select, signal, struct, subprocess, sys, tempfile, termios, time

BCALC = os.path.abspath("target/debug/bcalc")
CSI = re.compile(rb"\x1b\[[0-9;?]*[A-Za-z]")


def one(text, *flags):
    """Standard output, standard error and status of a one-shot run."""
    r = subprocess.run([BCALC, "--input=" + text, *flags], capture_output=True, timeout=60,
                       stdin=subprocess.DEVNULL)
    return r.stdout.decode(), r.stderr.decode(), r.returncode


class Session:
    """One session. `data` is the data directory (None: none is set)."""

    def __init__(self, *flags, data=None, cols=200, rows=50, env=None, cwd=None):
        pid, fd = pty.fork()
        if pid == 0:
            e = {"PATH": os.environ.get("PATH", ""), "TERM": "xterm", "HOME": "/nonexistent"}
            if data:
                e["_B_UTIL_DATA_DIR"] = data
            e.update(env or {})
            if cwd:
                os.chdir(cwd)
            # The size must be set before bcalc looks.
            fcntl.ioctl(0, termios.TIOCSWINSZ, struct.pack("HHHH", rows, cols, 0, 0))
            signal.signal(signal.SIGHUP, signal.SIG_DFL)
            os.execve(BCALC, [BCALC, *flags], e)
        self.pid, self.fd, self.status = pid, fd, None
        self.buf = b""
        self.queries = 0
        self.wait_prompt()

    def pump(self, seconds):
        """Reads what there is within the time; False at the end of the session."""
        r, _, _ = select.select([self.fd], [], [], seconds)
        if not r:
            return True
        try:
            d = os.read(self.fd, 65536)
        except OSError:
            d = b""
        if not d:
            return False
        self.buf += d
        while True:
            i = self.buf.find(b"\x1b[6n", self.queries)
            if i < 0:
                break
            self.queries = i + 4
            self.asked = True
            os.write(self.fd, b"\x1b[1;1R")
        return True

    def wait_prompt(self, seconds=30):
        """Until it asks where the cursor is, which starts an input line, and shows the prompt."""
        self.asked = False
        end = time.time() + seconds
        while not self.asked:
            if not self.pump(0.1):
                raise AssertionError("the session ended: %r" % self.buf[-300:])
            if time.time() > end:
                raise AssertionError("no prompt: %r" % self.buf[-300:])
        self.quiet()

    def quiet(self, seconds=0.15):
        """Until nothing is written any more."""
        while True:
            n = len(self.buf)
            if not self.pump(seconds):
                return False
            if len(self.buf) == n:
                return True

    def keys(self, data):
        if isinstance(data, str):
            data = data.encode()
        os.write(self.fd, data)
        self.quiet()

    def ask(self, line=""):
        """Types a line, presses Enter and returns the answer."""
        if line:
            self.keys(line)
        n = len(self.buf)
        os.write(self.fd, b"\r")
        self.wait_prompt()
        out = self.buf[n:]
        out = out[: out.rfind(b"\x1b[6n")]
        text = CSI.sub(b"", out).replace(b"\r", b"").decode()
        return "\n".join(text.split("\n")[1:-1])

    def row(self):
        """What the input row shows: the text after the last return to the first column."""
        last = self.buf[self.buf.rfind(b"\x1b[2K"):]
        return CSI.sub(b"", last).decode()

    def resize(self, cols, rows=50):
        fcntl.ioctl(self.fd, termios.TIOCSWINSZ, struct.pack("HHHH", rows, cols, 0, 0))
        os.kill(self.pid, signal.SIGWINCH)
        self.quiet(0.3)

    def end(self, key=b"\x04", seconds=20):
        """Ends the session; its status."""
        if key:
            os.write(self.fd, key)
        end = time.time() + seconds
        while self.pump(0.1) and time.time() < end:
            pass
        return self.wait()

    def wait(self):
        end = time.time() + 20
        while self.status is None:
            pid, status = os.waitpid(self.pid, os.WNOHANG)
            if pid:
                self.status = status
                os.close(self.fd)
            elif time.time() > end:
                os.kill(self.pid, signal.SIGKILL)
                raise AssertionError("the session does not end")
            else:
                time.sleep(0.02)
        return self.status

    def kill(self):
        os.kill(self.pid, signal.SIGKILL)
        return self.wait()


def fresh():
    """A data directory of its own, removed at the end."""
    d = tempfile.TemporaryDirectory(prefix="bcalc-demo-")
    KEEP.append(d)
    return d.name


KEEP = []
UP, DOWN, RIGHT, LEFT, HOME, END, DEL, BS = (
    b"\x1b[A", b"\x1b[B", b"\x1b[C", b"\x1b[D", b"\x1b[H", b"\x1b[F", b"\x1b[3~", b"\x7f")
CTRL_RIGHT, CTRL_LEFT = b"\x1b[1;5C", b"\x1b[1;5D"


def same(got, want, what=""):
    if got != want:
        print("%s: got %r, expected %r" % (what, got, want))
        sys.exit(1)
