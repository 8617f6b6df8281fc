//! Running bcalc: one-shot processes and interactive sessions on a pseudo terminal.

use crate::term::Term;
use std::collections::VecDeque;
use std::ffi::{OsStr, OsString};
use std::fs::File;
use std::io::Read;
use std::os::fd::{AsRawFd, FromRawFd, OwnedFd, RawFd};
use std::os::unix::process::{CommandExt, ExitStatusExt};
use std::path::{Path, PathBuf};
use std::process::{Child, Command, Stdio};
use std::sync::atomic::{AtomicU64, Ordering};
use std::sync::OnceLock;
use std::time::{Duration, Instant};

pub struct Paths {
    pub bcalc: PathBuf,
    pub shim: PathBuf,
    pub scratch: PathBuf,
}

static PATHS: OnceLock<Paths> = OnceLock::new();

pub fn set_paths(p: Paths) {
    let _ = PATHS.set(p);
}
pub fn paths() -> &'static Paths {
    PATHS.get().expect("paths set")
}

/// CPU seconds one bcalc process may use. Ordinary cases use a few hundredths of a second.
pub const CPU_LIMIT_S: u64 = 30;
const MEM_LIMIT: u64 = 3 << 30;

pub const DATA_VAR: &str = "_B_UTIL_DATA_DIR";

static DIRS: AtomicU64 = AtomicU64::new(0);

/// A scratch directory, removed when dropped.
pub struct Scratch(pub PathBuf);

impl Scratch {
    pub fn new() -> Scratch {
        let n = DIRS.fetch_add(1, Ordering::Relaxed);
        let p = paths().scratch.join(format!("d{}", n));
        std::fs::create_dir_all(&p).expect("scratch directory");
        Scratch(p)
    }
    pub fn path(&self) -> &Path {
        &self.0
    }
}

impl Drop for Scratch {
    fn drop(&mut self) {
        let _ = std::fs::remove_dir_all(&self.0);
    }
}

/// The harness could not do its work; says nothing about bcalc.
#[derive(Debug)]
pub struct Infra(pub String);

#[derive(Clone, Debug, PartialEq)]
pub enum End {
    Exit(i32),
    Signal(i32),
}

impl std::fmt::Display for End {
    fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
        match self {
            End::Exit(c) => write!(f, "exit status {}", c),
            End::Signal(s) if *s == libc::SIGXCPU || *s == libc::SIGKILL => {
                write!(f, "signal {} (more than {} s of CPU time)", s, CPU_LIMIT_S)
            }
            End::Signal(s) => write!(f, "signal {}", s),
        }
    }
}

#[derive(Debug, Clone)]
pub struct OneShot {
    pub out: String,
    pub err: String,
    pub end: End,
}

fn limits() {
    // Not ignored, as under nohup.
    unsafe { libc::signal(libc::SIGHUP, libc::SIG_DFL) };
    unsafe {
        let set = |res, soft: u64, hard: u64| {
            let l = libc::rlimit {
                rlim_cur: soft,
                rlim_max: hard,
            };
            libc::setrlimit(res, &l);
        };
        set(libc::RLIMIT_CPU, CPU_LIMIT_S, CPU_LIMIT_S + 2);
        set(libc::RLIMIT_AS, MEM_LIMIT, MEM_LIMIT);
        set(libc::RLIMIT_CORE, 0, 0);
    }
}

pub fn one_shot(args: &[String], env: &[(String, OsString)], cwd: &Path) -> Result<OneShot, Infra> {
    let mut c = Command::new(&paths().bcalc);
    c.args(args)
        .env_clear()
        .envs(env.iter().map(|(a, b)| (a, b)))
        .current_dir(cwd)
        .stdin(Stdio::null())
        .stdout(Stdio::piped())
        .stderr(Stdio::piped());
    unsafe {
        c.pre_exec(|| {
            limits();
            Ok(())
        });
    }
    let out = c
        .output()
        .map_err(|e| Infra(format!("cannot run bcalc: {}", e)))?;
    Ok(OneShot {
        out: String::from_utf8_lossy(&out.stdout).to_string(),
        err: String::from_utf8_lossy(&out.stderr).to_string(),
        end: end_of(out.status),
    })
}

fn end_of(s: std::process::ExitStatus) -> End {
    match s.code() {
        Some(c) => End::Exit(c),
        None => End::Signal(s.signal().unwrap_or(-1)),
    }
}

#[derive(Clone, Debug, Default)]
pub struct Opts {
    pub args: Vec<String>,
    pub env: Vec<(String, OsString)>,
    pub cols: usize,
    pub rows: usize,
}

impl Opts {
    pub fn new(args: &[&str]) -> Opts {
        Opts {
            args: args.iter().map(|s| s.to_string()).collect(),
            env: Vec::new(),
            cols: 400,
            rows: 60,
        }
    }
    pub fn args(args: Vec<String>) -> Opts {
        Opts {
            args,
            env: Vec::new(),
            cols: 400,
            rows: 60,
        }
    }
    pub fn db(self, root: &Path) -> Opts {
        self.data(root.as_os_str())
    }
    /// With the data directory variable set to this.
    pub fn data(mut self, dir: &OsStr) -> Opts {
        self.env.push((DATA_VAR.into(), dir.into()));
        self
    }
    pub fn size(mut self, cols: usize, rows: usize) -> Opts {
        self.cols = cols;
        self.rows = rows;
        self
    }
    pub fn env(mut self, k: &str, v: &str) -> Opts {
        self.env.push((k.into(), v.into()));
        self
    }
}

/// What the preloaded library does to a process, see shim.c.
pub struct Shim {
    page: *mut u64,
    path: PathBuf,
}

unsafe impl Send for Shim {}

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Act {
    Kill = 1,
    HalfKill = 2,
    Fail = 3,
    Short = 4,
    Stop = 5,
}

pub const OP_WRITE: u64 = 1;
pub const OP_SYNC: u64 = 2;
pub const OP_TRUNC: u64 = 4;
pub const OP_UNLINK: u64 = 8;
pub const OP_OPEN: u64 = 16;
pub const OP_LOCK: u64 = 32;
pub const OP_READ: u64 = 64;
pub const OP_MKDIR: u64 = 128;

impl Shim {
    pub fn new(dir: &Path, name: &str) -> Result<Shim, Infra> {
        let path = dir.join(name);
        std::fs::write(&path, vec![0u8; 4096]).map_err(io)?;
        let f = std::fs::OpenOptions::new()
            .read(true)
            .write(true)
            .open(&path)
            .map_err(io)?;
        let page = unsafe {
            libc::mmap(
                std::ptr::null_mut(),
                4096,
                libc::PROT_READ | libc::PROT_WRITE,
                libc::MAP_SHARED,
                f.as_raw_fd(),
                0,
            )
        };
        if page == libc::MAP_FAILED {
            return Err(Infra("mmap".into()));
        }
        Ok(Shim {
            page: page as *mut u64,
            path,
        })
    }
    fn set(&self, i: usize, v: u64) {
        unsafe { std::ptr::write_volatile(self.page.add(i), v) }
    }
    fn get(&self, i: usize) -> u64 {
        unsafe { std::ptr::read_volatile(self.page.add(i)) }
    }
    /// Counts calls of the kinds in `mask` from now on.
    pub fn count_from_now(&self, mask: u64) {
        self.set(2, 0);
        self.set(0, mask);
        self.set(1, 0);
    }
    /// From now, something happens at the `at`th call of the kinds in `mask`.
    pub fn arm(&self, mask: u64, act: Act, at: u64, until: u64, err: i32) {
        self.count_from_now(mask);
        self.set(3, until);
        self.set(4, act as u64);
        self.set(5, err as u64);
        self.set(6, 0);
        self.set(7, 0);
        self.set(2, at);
    }
    pub fn disarm(&self) {
        self.set(2, 0);
    }
    pub fn count(&self) -> u64 {
        self.get(1)
    }
    pub fn stopped(&self) -> bool {
        self.get(6) > 0
    }
    pub fn fired(&self) -> u64 {
        self.get(7)
    }
    /// Kind of the last call something happened at.
    pub fn kind(&self) -> u64 {
        self.get(8)
    }
    pub fn opts(&self, o: Opts, root: &Path) -> Opts {
        let s = |p: &Path| p.to_str().expect("utf-8 path").to_string();
        o.env("LD_PRELOAD", &s(&paths().shim))
            .env("PBT_SHIM_CTL", &s(&self.path))
            .env("PBT_SHIM_DIR", &s(&root.join("bcalc")))
    }
}

impl Drop for Shim {
    fn drop(&mut self) {
        unsafe { libc::munmap(self.page as *mut libc::c_void, 4096) };
    }
}

/// Why a session can't go on.
#[derive(Debug, Clone)]
pub enum Stop {
    /// The process ended.
    Ended(End),
    /// The process sleeps without doing what was awaited.
    Stuck,
    /// The harness failed (or the machine is too slow); no verdict.
    Infra(String),
}

pub struct Session {
    child: Child,
    master: OwnedFd,
    slave: OwnedFd,
    err_fd: OwnedFd,
    pidfd: OwnedFd,
    pub term: Term,
    pub stderr: Vec<u8>,
    pub ended: Option<End>,
    pub termios_before: Vec<u64>,
    prompts_used: usize,
    pub raw: Vec<u8>,
    /// The last submitted line as the screen shows it.
    pub echo: String,
    /// Keys not sent yet, each complete.
    outq: VecDeque<Vec<u8>>,
}

pub fn termios_words(fd: RawFd) -> Vec<u64> {
    unsafe {
        let mut t: libc::termios = std::mem::zeroed();
        if libc::tcgetattr(fd, &mut t) != 0 {
            return vec![];
        }
        let mut v = vec![
            u64::from(t.c_iflag),
            u64::from(t.c_oflag),
            u64::from(t.c_cflag),
            u64::from(t.c_lflag),
        ];
        v.extend(t.c_cc.iter().map(|c| u64::from(*c)));
        v
    }
}

fn set_nonblock(fd: RawFd) {
    unsafe {
        let fl = libc::fcntl(fd, libc::F_GETFL);
        libc::fcntl(fd, libc::F_SETFL, fl | libc::O_NONBLOCK);
    }
}

fn open_pty(cols: usize, rows: usize) -> Result<(OwnedFd, OwnedFd), Infra> {
    unsafe {
        let m = libc::posix_openpt(libc::O_RDWR | libc::O_NOCTTY | libc::O_CLOEXEC);
        if m < 0 {
            return Err(Infra(format!(
                "posix_openpt: {}",
                std::io::Error::last_os_error()
            )));
        }
        let master = OwnedFd::from_raw_fd(m);
        libc::grantpt(m);
        if libc::unlockpt(m) != 0 {
            return Err(Infra("unlockpt".into()));
        }
        let mut name = [0 as libc::c_char; 128];
        if libc::ptsname_r(m, name.as_mut_ptr(), name.len()) != 0 {
            return Err(Infra("ptsname".into()));
        }
        let s = libc::open(
            name.as_ptr(),
            libc::O_RDWR | libc::O_NOCTTY | libc::O_CLOEXEC,
        );
        if s < 0 {
            return Err(Infra(format!(
                "open slave: {}",
                std::io::Error::last_os_error()
            )));
        }
        let slave = OwnedFd::from_raw_fd(s);
        let ws = libc::winsize {
            ws_row: rows as u16,
            ws_col: cols as u16,
            ws_xpixel: 0,
            ws_ypixel: 0,
        };
        libc::ioctl(m, libc::TIOCSWINSZ, &ws);
        set_nonblock(m);
        Ok((master, slave))
    }
}

impl Session {
    pub fn spawn(o: &Opts, cwd: &Path) -> Result<Session, Infra> {
        let (master, slave) = open_pty(o.cols, o.rows)?;
        let before = termios_words(slave.as_raw_fd());
        let mut fds = [0; 2];
        if unsafe { libc::pipe2(fds.as_mut_ptr(), libc::O_CLOEXEC) } != 0 {
            return Err(Infra("pipe".into()));
        }
        let (err_r, err_w) =
            unsafe { (OwnedFd::from_raw_fd(fds[0]), OwnedFd::from_raw_fd(fds[1])) };
        set_nonblock(err_r.as_raw_fd());
        let mut c = Command::new(&paths().bcalc);
        c.args(&o.args)
            .env_clear()
            .env("TERM", "xterm")
            .envs(o.env.iter().map(|(a, b)| (a, b)))
            .current_dir(cwd)
            .stdin(Stdio::from(slave.try_clone().map_err(io)?))
            .stdout(Stdio::from(slave.try_clone().map_err(io)?))
            .stderr(Stdio::from(err_w));
        unsafe {
            c.pre_exec(|| {
                limits();
                libc::setsid();
                libc::ioctl(0, libc::TIOCSCTTY, 0);
                Ok(())
            });
        }
        let child = c.spawn().map_err(io)?;
        drop(c);
        let pidfd = unsafe {
            let fd = libc::syscall(libc::SYS_pidfd_open, child.id() as libc::pid_t, 0);
            if fd < 0 {
                return Err(Infra("pidfd_open".into()));
            }
            OwnedFd::from_raw_fd(fd as RawFd)
        };
        Ok(Session {
            child,
            master,
            slave,
            err_fd: err_r,
            pidfd,
            term: Term::new(o.cols, o.rows),
            stderr: Vec::new(),
            ended: None,
            termios_before: before,
            prompts_used: 0,
            raw: Vec::new(),
            echo: String::new(),
            outq: VecDeque::new(),
        })
    }

    pub fn pid(&self) -> u32 {
        self.child.id()
    }

    pub fn termios_now(&self) -> Vec<u64> {
        termios_words(self.slave.as_raw_fd())
    }

    fn read_fds(&mut self) -> bool {
        let mut progress = false;
        let mut buf = [0u8; 65536];
        loop {
            let n = unsafe {
                libc::read(
                    self.master.as_raw_fd(),
                    buf.as_mut_ptr() as *mut libc::c_void,
                    buf.len(),
                )
            };
            if n <= 0 {
                break;
            }
            progress = true;
            let data = &buf[..n as usize];
            if self.raw.len() < 1 << 20 {
                self.raw.extend_from_slice(data);
            }
            self.term.feed(data);
            let r = std::mem::take(&mut self.term.reply);
            if !r.is_empty() {
                self.outq.push_front(r);
            }
        }
        loop {
            let n = unsafe {
                libc::read(
                    self.err_fd.as_raw_fd(),
                    buf.as_mut_ptr() as *mut libc::c_void,
                    buf.len(),
                )
            };
            if n <= 0 {
                break;
            }
            progress = true;
            self.stderr.extend_from_slice(&buf[..n as usize]);
        }
        progress
    }

    /// Sends keys in pieces, each after the previous one was read: the terminal library bcalc
    /// uses leaves input beyond 1024 bytes unread until the next key comes.
    fn flush_out(&mut self) {
        while !self.outq.is_empty() {
            if self.unread_input() > 0 {
                return;
            }
            let mut chunk: Vec<u8> = Vec::new();
            while let Some(k) = self.outq.front() {
                if !chunk.is_empty() && chunk.len() + k.len() > 500 {
                    break;
                }
                chunk.extend_from_slice(k);
                self.outq.pop_front();
            }
            let n = unsafe {
                libc::write(
                    self.master.as_raw_fd(),
                    chunk.as_ptr() as *const libc::c_void,
                    chunk.len(),
                )
            };
            let n = n.max(0) as usize;
            if n < chunk.len() {
                self.outq.push_front(chunk[n..].to_vec());
                return;
            }
        }
    }

    /// Moves data both ways for up to `ms` milliseconds. True if anything arrived.
    pub fn pump(&mut self, ms: i32) -> bool {
        self.flush_out();
        if self.ended.is_some() {
            return false;
        }
        let mut p = [
            libc::pollfd {
                fd: self.master.as_raw_fd(),
                events: libc::POLLIN,
                revents: 0,
            },
            libc::pollfd {
                fd: self.pidfd.as_raw_fd(),
                events: libc::POLLIN,
                revents: 0,
            },
        ];
        // With keys waiting to be read there may be nothing to wake us.
        let ms = if self.outq.is_empty() { ms } else { ms.min(1) };
        unsafe { libc::poll(p.as_mut_ptr(), 2, ms) };
        let mut progress = self.read_fds();
        self.flush_out();
        if p[1].revents != 0 {
            if let Ok(Some(st)) = self.child.try_wait() {
                // Everything written before the end is in the buffers now.
                self.read_fds();
                self.ended = Some(end_of(st));
                progress = true;
            }
        }
        progress
    }

    /// State letter and CPU ticks from /proc.
    pub fn proc_state(&self) -> (char, u64) {
        let mut s = String::new();
        if File::open(format!("/proc/{}/stat", self.pid()))
            .and_then(|mut f| f.read_to_string(&mut s))
            .is_err()
        {
            return ('?', 0);
        }
        let rest = match s.rfind(')') {
            Some(i) => &s[i + 2..],
            None => return ('?', 0),
        };
        let f: Vec<&str> = rest.split(' ').collect();
        let num = |i: usize| f.get(i).and_then(|v| v.parse::<u64>().ok()).unwrap_or(0);
        (
            f.first().and_then(|v| v.chars().next()).unwrap_or('?'),
            num(11) + num(12),
        )
    }

    fn unread_input(&self) -> usize {
        let mut n: libc::c_int = 0;
        // poll() moves what is on its way in the kernel to where FIONREAD counts it.
        let mut p = libc::pollfd {
            fd: self.slave.as_raw_fd(),
            events: libc::POLLIN,
            revents: 0,
        };
        unsafe { libc::poll(&mut p, 1, 0) };
        unsafe { libc::ioctl(self.slave.as_raw_fd(), libc::FIONREAD, &mut n) };
        n as usize
    }

    /// Waits until `cond` holds. `quiet_ms` is how long the process must sleep, with all its
    /// input read, before it counts as stuck.
    pub fn wait_until<F>(&mut self, quiet_ms: u64, mut cond: F) -> Result<(), Stop>
    where
        F: FnMut(&Session) -> bool,
    {
        let start = Instant::now();
        let mut quiet_since: Option<(Instant, u64, u32)> = None;
        let (mut asleep, mut looks) = (0u32, 0u32);
        loop {
            if cond(self) {
                return Ok(());
            }
            if let Some(e) = &self.ended {
                return Err(Stop::Ended(e.clone()));
            }
            if self.pump(4) {
                quiet_since = None;
                continue;
            }
            let (st, ticks) = self.proc_state();
            looks += 1;
            if st == 'S' {
                asleep += 1;
                // It wakes up now and then to no avail, nearly always found asleep.
                if start.elapsed() > Duration::from_secs(45) && asleep > 1000 && asleep / 10 * 11 > looks {
                    return Err(Stop::Stuck);
                }
                match &mut quiet_since {
                    Some((t, k, n)) if *k == ticks => {
                        *n += 1;
                        if *n >= 12 && t.elapsed() > Duration::from_millis(quiet_ms) {
                            return Err(Stop::Stuck);
                        }
                    }
                    _ => quiet_since = Some((Instant::now(), ticks, 0)),
                }
            } else {
                quiet_since = None;
            }
            if start.elapsed() > Duration::from_secs(240) {
                return Err(Stop::Infra(format!(
                    "no answer in 240 s (process state {})",
                    st
                )));
            }
        }
    }

    /// Waits for the next prompt (bcalc asks for the cursor position before each).
    pub fn wait_prompt(&mut self) -> Result<(), Stop> {
        self.wait_prompt_with(|_| {})
    }

    /// Waits until there have been `n` prompts since the start.
    pub fn wait_prompts(&mut self, n: usize) -> Result<(), Stop> {
        self.wait_until(9000, |s| s.term.queries >= n && s.outq.is_empty() && s.term.col >= 2)?;
        self.prompts_used = self.term.queries;
        Ok(())
    }

    /// As `wait_prompt`; calls `tick` all the time.
    pub fn wait_prompt_with<F>(&mut self, mut tick: F) -> Result<(), Stop>
    where
        F: FnMut(&Session),
    {
        let want = self.prompts_used + 1;
        self.wait_until(9000, |s| {
            tick(s);
            s.term.queries >= want && s.outq.is_empty() && s.term.col >= 2
        })?;
        self.prompts_used = self.term.queries;
        Ok(())
    }

    /// True when the session ended because it got no cursor position in time: a slow machine.
    pub fn cursor_timeout(&self) -> bool {
        String::from_utf8_lossy(&self.stderr).contains("cursor position could not be read")
    }

    pub fn write(&mut self, bytes: &[u8]) {
        let mut i = 0;
        while i < bytes.len() {
            let mut j = i + 1;
            if bytes[i] == 0x1b && j < bytes.len() {
                j += 1;
                if bytes[i + 1] == b'[' {
                    while j < bytes.len() && !(0x40..=0x7e).contains(&bytes[j]) {
                        j += 1;
                    }
                    j += 1;
                } else if bytes[i + 1] == b'O' {
                    j += 1;
                }
            } else if bytes[i] >= 0xc0 {
                while j < bytes.len() && (0x80..0xc0).contains(&bytes[j]) {
                    j += 1;
                }
            }
            let j = j.min(bytes.len());
            self.outq.push_back(bytes[i..j].to_vec());
            i = j;
        }
        self.flush_out();
    }

    /// Waits until the process has read all input and sleeps, or `cond` holds.
    /// Ok(true): cond holds.
    pub fn settle<F>(&mut self, cond: F) -> Result<bool, Stop>
    where
        F: FnMut(&Session) -> bool,
    {
        match self.wait_until(120, cond) {
            Ok(()) => Ok(true),
            Err(Stop::Stuck) => Ok(false),
            Err(e) => Err(e),
        }
    }

    /// Waits until the process sleeps, with all its input read and all its output taken.
    pub fn idle(&mut self) -> Result<(), Stop> {
        let start = Instant::now();
        let mut n = 0;
        while n < 4 {
            if let Some(e) = &self.ended {
                return Err(Stop::Ended(e.clone()));
            }
            let read = self.outq.is_empty() && self.unread_input() == 0;
            let asleep = self.proc_state().0 == 'S';
            if self.pump(0) || !read || !asleep {
                n = 0;
                self.pump(1);
            } else {
                n += 1;
                std::thread::sleep(Duration::from_micros(300));
            }
            if start.elapsed() > Duration::from_secs(120) {
                return Err(Stop::Infra("not idle in 120 s".into()));
            }
        }
        Ok(())
    }

    /// Absolute row of the current prompt.
    pub fn prompt_row(&self) -> usize {
        *self.term.query_rows.last().unwrap_or(&0)
    }

    /// Sends Enter for a line of `len` characters and returns the answer's lines.
    pub fn submit(&mut self, len: usize) -> Result<Vec<String>, Stop> {
        let start = self.submit_begin();
        self.wait_prompt()?;
        Ok(self.submit_end(start, len))
    }

    /// Sends Enter; returns the row of the prompt.
    pub fn submit_begin(&mut self) -> usize {
        let start = self.prompt_row();
        self.write(b"\r");
        start
    }

    /// True when the answer to the last line and a new prompt have come.
    pub fn answered(&self) -> bool {
        self.term.queries > self.prompts_used && self.outq.is_empty() && self.term.col >= 2
    }

    /// The answer, after `submit_begin` and `wait_prompt`.
    pub fn submit_end(&mut self, start: usize, len: usize) -> Vec<String> {
        let cols = self.term.cols;
        let end = self.prompt_row();
        let echo = ((len + cols - 3) / (cols - 2)).max(1);
        let from = (start + echo).min(end);
        if from == end {
            // Even an empty answer is a line.
            self.echo.clear();
            return vec!["(no answer)".into()];
        }
        self.echo.clear();
        for i in start..from {
            let row = &self.term.lines[i].text;
            let part = row.get(2..).unwrap_or(&[]);
            self.echo.push_str(&String::from_utf8_lossy(part));
        }
        self.term
            .logical(from, end)
            .into_iter()
            .map(|s| s.trim_end().to_string())
            .collect()
    }

    /// Types `text` at an empty prompt, presses Enter and returns the answer.
    pub fn line(&mut self, text: &str) -> Result<String, Stop> {
        self.write(text.as_bytes());
        let len = text.chars().filter(|c| c.is_ascii()).count();
        let lines = self.submit(len)?;
        Ok(lines.join("\n"))
    }

    /// Changes the window's size and waits until bcalc has dealt with that. (When a key comes
    /// at the same moment, the terminal library leaves it unread until the next one.)
    pub fn resize(&mut self, cols: usize, rows: usize) -> Result<(), Stop> {
        self.idle()?;
        self.term.resize(cols, rows);
        let ws = libc::winsize {
            ws_row: rows as u16,
            ws_col: cols as u16,
            ws_xpixel: 0,
            ws_ypixel: 0,
        };
        unsafe { libc::ioctl(self.master.as_raw_fd(), libc::TIOCSWINSZ, &ws) };
        self.idle()
    }

    pub fn wait_exit(&mut self) -> Result<End, Stop> {
        match self.wait_until(9000, |_| false) {
            Err(Stop::Ended(e)) => Ok(e),
            Err(e) => Err(e),
            Ok(()) => unreachable!(),
        }
    }

    /// Ends the session with Control+D.
    pub fn quit(&mut self) -> Result<End, Stop> {
        self.write(b"\x04");
        self.wait_exit()
    }

    pub fn kill(&mut self) {
        let _ = self.child.kill();
        let _ = self.child.wait();
        if self.ended.is_none() {
            self.ended = Some(End::Signal(libc::SIGKILL));
        }
    }

    pub fn signal(&self, sig: i32) {
        if self.ended.is_none() {
            unsafe { libc::kill(self.pid() as libc::pid_t, sig) };
        }
    }

    pub fn stderr_str(&self) -> String {
        String::from_utf8_lossy(&self.stderr).to_string()
    }
}

impl Drop for Session {
    fn drop(&mut self) {
        let _ = self.child.kill();
        let _ = self.child.wait();
    }
}

fn io(e: std::io::Error) -> Infra {
    Infra(e.to_string())
}

