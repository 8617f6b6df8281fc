//! Histories of several sessions on one database: cases, the world model, and playing them.

use crate::model::*;
use crate::play::*;
use crate::proc::*;
use crate::runner::*;
use crate::spec::*;
use serde::{Deserialize, Serialize};
use std::path::Path;

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Step {
    /// Starts session `s`.
    Open { s: usize, flags: Settings },
    /// Types a line and presses Enter.
    Line { s: usize, text: String },
    /// Presses keys, then Enter.
    Keys { s: usize, keys: Vec<Key> },
    /// Walks the whole history with Up and back down, comparing every line shown.
    Recall { s: usize },
    /// Presses an exit key: Control+D, C or Z.
    Close { s: usize, key: u8 },
    /// Copies the stored data and examines the copy in a new session: its whole history, the
    /// capacity, and the values of these names.
    Peek { names: Vec<String> },
}

#[derive(Clone, Copy, Debug, PartialEq, Serialize, Deserialize)]
pub enum Store {
    On,
    /// --no-db, with the data directory set.
    Flag,
    /// The data directory variable is not set.
    NoVar,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Story {
    pub store: Store,
    pub alt: bool,
    pub cols: usize,
    pub rows: usize,
    pub steps: Vec<Step>,
    /// Window widths taken on in Step::Keys: (step, keys pressed before, columns).
    #[serde(default)]
    pub resizes: Vec<(usize, usize, usize)>,
    /// More of the environment.
    #[serde(default)]
    pub env: Vec<(String, String)>,
}

#[derive(Clone, Debug)]
pub struct World {
    pub db: Option<Db>,
    pub sess: Vec<Option<Sess>>,
}

/// Sessions stories may use, and one for Step::Peek.
pub const MAX_SESSIONS: usize = 5;
const PEEK: usize = 4;

fn peek_flags() -> Settings {
    Settings {
        fractional: true,
        ..Settings::default()
    }
}

fn peek_lines(names: &[String]) -> Vec<String> {
    let mut v = vec!["/histcap".to_string(), "/histcap 1000000".to_string()];
    v.extend(names.iter().cloned());
    v
}

fn copy_data(from: &Path, to: &Path) -> std::io::Result<()> {
    std::fs::create_dir_all(to.join("bcalc"))?;
    for e in std::fs::read_dir(from.join("bcalc"))? {
        let e = e?;
        std::fs::copy(e.path(), to.join("bcalc").join(e.file_name()))?;
    }
    Ok(())
}

/// Examines the data under `root`, which it changes. Returns the lines walked.
pub fn examine(root: &Path, cwd: &Path, w: &World, names: &[String]) -> Result<usize, Verdict> {
    let mut w = w.clone();
    w.open(PEEK, &peek_flags());
    let mut ses = start(&Opts::args(peek_flags().flags()).db(root), cwd)?;
    let n = recall(&mut ses, &mut w, PEEK)?;
    for l in peek_lines(names) {
        let want = w.submit(PEEK, &l);
        let got = ask(&mut ses, &l)?;
        judge(&l, &want, &got)?;
    }
    finish(&mut ses)?;
    Ok(n)
}

/// As `examine`, on a copy.
pub fn peek(root: &Path, cwd: &Path, w: &World, names: &[String]) -> Result<usize, Verdict> {
    let copy = Scratch::new();
    copy_data(root, copy.path()).map_err(|e| Verdict::Infra(format!("copying: {}", e)))?;
    match examine(copy.path(), cwd, w, names) {
        Err(Verdict::Fail(m)) => Err(Verdict::Fail(format!("a new session: {}", m))),
        r => r,
    }
}

impl World {
    pub fn new(db: bool) -> World {
        World {
            db: if db { Some(Db::new()) } else { None },
            sess: vec![None; MAX_SESSIONS],
        }
    }
    pub fn open(&mut self, s: usize, set: &Settings) {
        self.sess[s] = Some(Sess::open(set, self.db.as_ref()));
    }
    pub fn get(&self, s: usize) -> &Sess {
        self.sess[s].as_ref().expect("open session")
    }
    pub fn is_open(&self, s: usize) -> bool {
        self.sess[s].is_some()
    }
    pub fn key(&mut self, s: usize, k: &Key) {
        let db = self.db.as_ref();
        self.sess[s].as_mut().expect("open session").key(k, db);
    }
    pub fn submit(&mut self, s: usize, text: &str) -> Want {
        let db = self.db.as_mut();
        self.sess[s].as_mut().expect("open session").submit(text, db)
    }
    pub fn keys(&mut self, s: usize, keys: &[Key]) -> String {
        for k in keys {
            self.key(s, k);
        }
        self.get(s).text()
    }
    /// Applies a step. None: what happens is outside what the reference decides.
    pub fn step(&mut self, st: &Step) -> Option<Want> {
        match st {
            Step::Open { s, flags } => {
                self.open(*s, flags);
                Some(Want::Text(String::new()))
            }
            Step::Line { s, text } => self.decided(*s, text),
            Step::Keys { s, keys } => {
                let t = self.keys(*s, keys);
                self.decided(*s, &t)
            }
            Step::Recall { s } => {
                // Fetches everything older into the session.
                loop {
                    let i = self.get(*s).idx;
                    self.key(*s, &Key::Up);
                    if self.get(*s).idx == i {
                        break;
                    }
                }
                while self.get(*s).idx > 0 {
                    self.key(*s, &Key::Down);
                }
                Some(Want::Text(String::new()))
            }
            Step::Close { s, .. } => {
                self.sess[*s] = None;
                Some(Want::Text(String::new()))
            }
            Step::Peek { names } => {
                // Only if every answer is decided.
                let mut w = self.clone();
                w.open(PEEK, &peek_flags());
                for l in peek_lines(names) {
                    w.decided(PEEK, &l)?;
                }
                Some(Want::Text(String::new()))
            }
        }
    }
    fn decided(&mut self, s: usize, text: &str) -> Option<Want> {
        match self.submit(s, text) {
            Want::Anything => None,
            w => Some(w),
        }
    }
    /// Applies the step if the reference decides it.
    pub fn try_step(&mut self, st: &Step) -> Option<Want> {
        let mut w = self.clone();
        let r = w.step(st)?;
        *self = w;
        Some(r)
    }
    pub fn vars(&self, s: usize) -> Vec<String> {
        let m = self.get(s);
        let mut v: Vec<String> = m.mem.keys().cloned().collect();
        if m.db {
            if let Some(d) = &self.db {
                for k in d.vars.keys() {
                    if !v.contains(k) {
                        v.push(k.clone());
                    }
                }
            }
        }
        v.sort();
        v
    }
    /// Values a session sees, for generating expressions the reference decides.
    pub fn values(&self, s: usize) -> std::collections::HashMap<String, Val> {
        let m = self.get(s);
        let mut out = std::collections::HashMap::new();
        if m.db {
            if let Some(d) = &self.db {
                for (k, v) in &d.vars {
                    if let Some(v) = &v.0 {
                        out.insert(k.clone(), v.clone());
                    }
                }
            }
        }
        for (k, v) in &m.mem {
            match v {
                Some(v) => {
                    out.insert(k.clone(), v.clone());
                }
                None => {
                    out.remove(k);
                }
            }
        }
        out
    }
}

/// Checks the row on which a line is edited inline: prompt, a piece of the text, and the cursor.
pub fn shows(row: &str, col: usize, text: &str, cursor: usize, cols: usize) -> Result<(), String> {
    let len = text.len();
    if cursor + 2 < col {
        return Err(format!(
            "the cursor stands in column {} while editing at {}",
            col, cursor
        ));
    }
    let o = cursor + 2 - col;
    if o > len {
        return Err(format!("the cursor stands in column {}", col));
    }
    let opener = if o == 0 { "# " } else { "< " };
    let mut row = row.to_string();
    while row.len() < 2 {
        row.push(' ');
    }
    if !row.is_char_boundary(2) || &row[..2] != opener {
        return Err(format!(
            "the row begins with {:?}, not {:?}, with {} characters hidden to the left",
            &row.chars().take(2).collect::<String>(),
            opener,
            o
        ));
    }
    let rest = &row[2..];
    let whole = rest.trim_end() == text[o..].trim_end() && 2 + len - o <= cols;
    let cut = || -> bool {
        let r = match rest.strip_suffix(" >") {
            Some(r) => r,
            None => return false,
        };
        let e = o + r.len();
        e < len && r == &text[o..e] && cursor < e && e - o + 4 <= cols
    };
    if whole || cut() {
        Ok(())
    } else {
        Err(format!(
            "the row {:?} does not show the text {:?} from character {}",
            row,
            clip(text),
            o
        ))
    }
}

/// Waits until the edited line is shown as the model says.
pub fn wait_shown(
    s: &mut Session,
    text: &str,
    cursor: usize,
    what: &dyn Fn() -> String,
) -> Result<(), Verdict> {
    let ok = |s: &Session| {
        let row = s.prompt_row();
        s.term.row == row
            && shows(&s.term.row_str(row), s.term.col, text, cursor, s.term.cols).is_ok()
    };
    match s.wait_until(500, ok) {
        Ok(()) => Ok(()),
        Err(Stop::Stuck) => {
            let row = s.prompt_row();
            let why = if s.term.row != row {
                format!("the cursor is in row {}, not {}", s.term.row, row)
            } else {
                shows(&s.term.row_str(row), s.term.col, text, cursor, s.term.cols)
                    .err()
                    .unwrap_or_default()
            };
            Err(Verdict::Fail(format!(
                "{}: expected to edit {:?} at {}, but {}; screen:\n{}",
                what(),
                clip(text),
                cursor,
                why,
                s.term.dump()
            )))
        }
        Err(e) => Err(stop_verdict(s, e, &what())),
    }
}

/// Walks the history; `w` is the world before.
pub fn recall(ses: &mut Session, w: &mut World, s: usize) -> Result<usize, Verdict> {
    let mut n = 0;
    loop {
        let i = w.get(s).idx;
        w.key(s, &Key::Up);
        if w.get(s).idx == i {
            break;
        }
        n += 1;
        ses.write(&Key::Up.bytes());
        let (t, c) = (w.get(s).text(), w.get(s).cursor);
        wait_shown(ses, &t, c, &|| format!("Up pressed {} times", n))?;
    }
    // Up at the oldest entry does nothing, so that one Down leads to the second oldest.
    ses.write(&Key::Up.bytes());
    ses.write(&Key::Up.bytes());
    let mut down = 0;
    while w.get(s).idx > 0 {
        w.key(s, &Key::Down);
        ses.write(&Key::Down.bytes());
        down += 1;
        if down > 2 && w.get(s).idx > 0 {
            continue;
        }
        let (t, c) = (w.get(s).text(), w.get(s).cursor);
        wait_shown(ses, &t, c, &|| {
            format!("Up pressed {} times, then Down {} times", n + 2, down)
        })?;
    }
    Ok(n)
}

pub struct Ev<'a> {
    pub step: &'a Step,
    pub s: usize,
    pub text: &'a str,
    pub before: &'a World,
    pub after: &'a World,
    pub want: &'a Want,
    pub got: &'a str,
    /// The submitted line as the screen shows it.
    pub echo: &'a str,
}

pub fn opts(c: &Story, flags: &Settings, root: &Path) -> Opts {
    let mut a = flags.flags();
    if c.alt {
        a.push("--alternate-screen".into());
    }
    if c.store == Store::Flag {
        a.push("--no-db".into());
    }
    let mut o = Opts::args(a).size(c.cols, c.rows);
    if c.store != Store::NoVar {
        o = o.db(root);
    }
    for (k, v) in &c.env {
        o = o.env(k, v);
    }
    o
}

/// Plays a story; `look` sees every answered line.
pub fn play_story<F>(c: &Story, root: &Path, cwd: &Path, obs: &mut Obs, mut look: F) -> Verdict
where
    F: FnMut(&Ev, &mut Obs) -> Result<(), String>,
{
    let mut w = World::new(c.store == Store::On);
    let mut live: Vec<Option<Session>> = (0..MAX_SESSIONS).map(|_| None).collect();
    for (n, st) in c.steps.iter().enumerate() {
        let before = w.clone();
        let v = (|| -> Result<(), Verdict> {
            match st {
                Step::Open { s, flags } => {
                    w.open(*s, flags);
                    live[*s] = Some(start(&opts(c, flags, root), cwd)?);
                    obs.count("sessions", 1);
                }
                Step::Line { s, .. } | Step::Keys { s, .. } => {
                    let ses = live[*s].as_mut().expect("open session");
                    let t: String = match st {
                        Step::Line { text, .. } => text.clone(),
                        Step::Keys { keys, .. } => {
                            let mut sent = 0;
                            for (_, k, cols) in c.resizes.iter().filter(|r| r.0 == n) {
                                let k = (*k).clamp(sent, keys.len());
                                ses.write(&bytes_of(&keys[sent..k]));
                                sent = k;
                                ses.resize(*cols, c.rows)
                                    .map_err(|e| stop_verdict(ses, e, "resize"))?;
                                obs.count("resizes", 1);
                            }
                            ses.write(&bytes_of(&keys[sent..]));
                            w.keys(*s, keys)
                        }
                        _ => unreachable!(),
                    };
                    let want = w.submit(*s, &t);
                    let got = match st {
                        Step::Line { .. } => ask(ses, &t)?,
                        _ => match ses.submit(t.len()) {
                            Ok(l) => l.join("\n"),
                            Err(e) => {
                                return Err(stop_verdict(ses, e, &format!("input {:?}", clip(&t))))
                            }
                        },
                    };
                    judge(&t, &want, &got)?;
                    obs.count("inputs", 1);
                    let ev = Ev {
                        step: st,
                        s: *s,
                        text: &t,
                        before: &before,
                        after: &w,
                        want: &want,
                        got: &got,
                        echo: &live[*s].as_ref().expect("open session").echo,
                    };
                    look(&ev, obs).map_err(Verdict::Fail)?;
                }
                Step::Recall { s } => {
                    let ses = live[*s].as_mut().expect("open session");
                    let n = recall(ses, &mut w, *s)?;
                    obs.count("recalled lines", n as u64);
                }
                Step::Peek { names } => {
                    let n = peek(root, cwd, &w, names)?;
                    obs.count("examined copies", 1);
                    obs.count("recalled lines", n as u64);
                }
                Step::Close { s, key } => {
                    let mut ses = live[*s].take().expect("open session");
                    w.sess[*s] = None;
                    end_with(&mut ses, *key)?;
                }
            }
            Ok(())
        })();
        match v {
            Ok(()) => {}
            Err(Verdict::Fail(m)) => return Verdict::Fail(format!("step {}: {}", n + 1, m)),
            Err(v) => return v,
        }
    }
    for ses in live.iter_mut().flatten() {
        tri!(finish(ses));
    }
    Verdict::Pass
}

pub const EXIT_KEYS: &[u8] = &[0x04, 0x03, 0x1a];

pub fn end_with(ses: &mut Session, key: u8) -> Result<(), Verdict> {
    let k = EXIT_KEYS[key as usize % EXIT_KEYS.len()];
    ses.write(&[k]);
    match ses.wait_exit() {
        Ok(End::Exit(0)) => Ok(()),
        Ok(e) => Err(Verdict::Fail(format!(
            "bcalc ended with {} on exit key {:#04x}; standard error: {:?}",
            e,
            k,
            tail(&ses.stderr_str(), 600)
        ))),
        Err(e) => Err(stop_verdict(ses, e, "exit key")),
    }
}

/// What a new session sees in the stored data.
#[derive(Clone, Debug)]
pub struct Seen {
    /// Oldest first.
    pub rows: Vec<String>,
    pub cap: String,
    /// The answers to the names, in fractional mode.
    pub vars: Vec<String>,
}

/// Marks recalled lines; no stored line may contain it.
pub const MARK: char = '~';

/// Reads the data under `root` in a new session, without knowing what it should be, and enters
/// `extra` lines, which must be answered with the given answers. Returns the lines entered too.
pub fn observe(
    root: &Path,
    cwd: &Path,
    names: &[String],
    extra: &[(&str, &str)],
) -> Result<(Seen, Vec<String>), Verdict> {
    let cap = {
        // On a copy: the question is an input too and may evict one.
        let copy = copied(root)?;
        let mut ses = start(&Opts::new(&[]).db(copy.path()), cwd)?;
        let cap = ask(&mut ses, "/histcap")?;
        finish(&mut ses)?;
        cap
    };
    let mut ses = start(&Opts::args(peek_flags().flags()).db(root).size(2000, 24), cwd)?;
    let idle = |s: &mut Session| match s.idle() {
        Ok(()) => Ok(()),
        Err(e) => Err(stop_verdict(s, e, "walking the history")),
    };
    let shown = |s: &Session| -> String {
        let row = s.prompt_row();
        let mut t = s.term.row_str(row);
        while t.len() < s.term.col {
            t.push(' ');
        }
        t.get(2..).unwrap_or("").to_string()
    };
    let mut rows: Vec<String> = Vec::new();
    loop {
        ses.write(&Key::Up.bytes());
        idle(&mut ses)?;
        let t = shown(&ses);
        match rows.last() {
            Some(prev) if t == format!("{}{}", prev, MARK) => break,
            None if t.is_empty() => {
                // Nothing stored, or an empty line: then the mark goes with it.
                ses.write(&[MARK as u8]);
                idle(&mut ses)?;
                ses.write(&Key::Down.bytes());
                idle(&mut ses)?;
                if shown(&ses) == MARK.to_string() {
                    ses.write(&Key::Back.bytes());
                    idle(&mut ses)?;
                    break;
                }
                ses.write(&Key::Up.bytes());
                idle(&mut ses)?;
            }
            _ => {
                ses.write(&[MARK as u8]);
                idle(&mut ses)?;
            }
        }
        rows.push(t);
        if rows.len() > 5000 {
            return Err(Verdict::Fail("the history has no end".into()));
        }
    }
    for _ in 0..rows.len() + 1 {
        ses.write(&Key::Down.bytes());
    }
    idle(&mut ses)?;
    if !shown(&ses).is_empty() {
        return Err(Verdict::Fail(format!(
            "Down past the newest line shows {:?}",
            shown(&ses)
        )));
    }
    rows.reverse();
    let mut entered = Vec::new();
    let mut ask_line = |ses: &mut Session, l: &str| {
        entered.push(l.to_string());
        ask(ses, l)
    };
    let done = ask_line(&mut ses, "/histcap 1000000")?;
    if done != "Done" {
        return Err(Verdict::Fail(format!("/histcap 1000000 was answered {:?}", done)));
    }
    let mut vars = Vec::new();
    for n in names {
        vars.push(ask_line(&mut ses, n)?);
    }
    for (l, want) in extra {
        let got = ask_line(&mut ses, l)?;
        if got != *want {
            return Err(Verdict::Fail(format!(
                "input {:?} was answered {:?}; expected {:?}",
                l, got, want
            )));
        }
    }
    finish(&mut ses)?;
    Ok((Seen { rows, cap, vars }, entered))
}

/// A variable's answer in such a session.
pub fn var_answer(v: Option<&MVal>) -> Option<Want> {
    match v {
        None => Some(Want::Error),
        Some(Some(v)) => Some(Want::value(v, &peek_flags())),
        Some(None) => None,
    }
}

/// Copies the stored data under `from` to a new place.
pub fn copied(from: &Path) -> Result<Scratch, Verdict> {
    let to = Scratch::new();
    if from.join("bcalc").exists() {
        copy_data(from, to.path()).map_err(|e| Verdict::Infra(format!("copying: {}", e)))?;
    }
    Ok(to)
}

/// Plays a story's steps and returns the world afterwards.
pub fn play_quietly(steps: &[Step], root: &Path, cwd: &Path) -> Result<World, Verdict> {
    let c = Story {
        store: Store::On,
        alt: false,
        cols: 400,
        rows: 60,
        steps: steps.to_vec(),
        resizes: Vec::new(),
        env: Vec::new(),
    };
    match play_story(&c, root, cwd, &mut Obs::default(), |_, _| Ok(())) {
        Verdict::Pass => {}
        v => return Err(v),
    }
    let mut w = World::new(true);
    for st in steps {
        if w.step(st).is_none() {
            return Err(Verdict::Infra("undecided step".into()));
        }
    }
    for s in 0..MAX_SESSIONS {
        w.sess[s] = None;
    }
    Ok(w)
}
