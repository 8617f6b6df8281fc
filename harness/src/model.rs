//! Reference model of a session, of the stored data and of the line editor.

use crate::spec::*;
use num_rational::BigRational as Q;
use serde::{Deserialize, Serialize};
use std::collections::{BTreeMap, HashMap, VecDeque};

pub const COMMANDS: &[(&str, &[&str])] = &[
    ("help", &["h"]),
    ("reloadvar", &[]),
    ("purgevar", &[]),
    ("histcap", &[]),
    ("fractional", &["f"]),
    ("radix", &["r"]),
    ("converttoradix", &[]),
    ("upper", &[]),
    ("commas", &["comma"]),
    ("precision", &["p"]),
];

/// A variable's value: None when the reference could not decide it.
pub type MVal = Option<Val>;

// ---------------------------------------------------------------- stored data

#[derive(Clone, Debug)]
pub struct Db {
    pub cap: i64,
    pub rows: VecDeque<(u64, String)>,
    next_id: u64,
    /// name -> value, id of the last input that used it
    pub vars: BTreeMap<String, (MVal, u64)>,
    /// Inputs evicted and variables removed with them, for the statistics.
    pub evictions: usize,
    pub var_evictions: usize,
}

impl Db {
    pub fn new() -> Db {
        Db {
            cap: 100,
            rows: VecDeque::new(),
            next_id: 1,
            vars: BTreeMap::new(),
            evictions: 0,
            var_evictions: 0,
        }
    }
    pub fn add(&mut self, text: &str) -> u64 {
        let id = self.next_id;
        self.next_id += 1;
        self.rows.push_back((id, text.to_string()));
        id
    }
    pub fn enforce(&mut self) {
        while self.rows.len() as i64 > self.cap {
            if let Some((id, _)) = self.rows.pop_front() {
                self.evictions += 1;
                let before = self.vars.len();
                self.vars.retain(|_, (_, last)| *last != id);
                self.var_evictions += before - self.vars.len();
            }
        }
    }
    /// Goes on with the ids of `other`.
    pub fn skip_id(&mut self, other: &Db) {
        self.next_id = other.next_id;
    }
    pub fn front(&self) -> Option<u64> {
        self.rows.back().map(|r| r.0)
    }
    fn touch(&mut self, name: &str, id: u64) {
        if let Some(v) = self.vars.get_mut(name) {
            v.1 = id;
        }
    }
    /// Inputs, oldest first.
    pub fn inputs(&self) -> Vec<String> {
        self.rows.iter().map(|r| r.1.clone()).collect()
    }
}

// ---------------------------------------------------------------- keys and the line editor

#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub enum Key {
    Ch(char),
    Back,
    Del,
    Left,
    Right,
    /// With Control (true) or Shift (false).
    LeftFar(bool),
    RightFar(bool),
    Home,
    End,
    Up,
    Down,
    Jump,
    /// A key that does nothing: index into IGNORED.
    Nothing(usize),
    /// One of those above in another way: index into SAME.
    Same(usize),
}

/// Other encodings of keys, and modifiers that make no difference.
pub const SAME: &[(&[u8], Key)] = &[
    (b"\x1b[1;5H", Key::Home), // Control
    (b"\x1b[1;2H", Key::Home), // Shift
    (b"\x1b[1;3H", Key::Home), // Alt
    (b"\x1bOH", Key::Home),
    (b"\x1b[1~", Key::Home),
    (b"\x1b[7~", Key::Home),
    (b"\x1b[1;5F", Key::End),
    (b"\x1b[1;2F", Key::End),
    (b"\x1b[1;3F", Key::End),
    (b"\x1bOF", Key::End),
    (b"\x1b[4~", Key::End),
    (b"\x1b[8~", Key::End),
    (b"\x1b[3;5~", Key::Del),
    (b"\x1b[3;2~", Key::Del),
    (b"\x1b[3;3~", Key::Del),
    (b"\x1b\x7f", Key::Back), // Alt
    (b"\x1bOD", Key::Left),
    (b"\x1bOC", Key::Right),
    // From here on: through the history.
    (b"\x1bOA", Key::Up),
    (b"\x1b[1;2A", Key::Up),
    (b"\x1b[1;3A", Key::Up),
    (b"\x1b[1;5A", Key::Up),
    (b"\x1bOB", Key::Down),
    (b"\x1b[1;2B", Key::Down),
    (b"\x1b[1;3B", Key::Down),
    (b"\x1b[1;5B", Key::Down),
];
pub const SAME_EDIT: usize = 18;

pub const IGNORED: &[&[u8]] = &[
    b"\x1ba",       // Alt+a
    b"\x1b(",       // Alt+(
    b"\x1b5",       // Alt+5
    b"\t",          // Tab
    b"\x1b[Z",      // Shift+Tab
    b"\x1bOP",      // F1
    b"\x1b[15~",    // F5
    b"\x1b[24~",    // F12
    b"\x1b[2~",     // Insert
    b"\x1b[5~",     // Page Up
    b"\x1b[6~",     // Page Down
    b"\x01",        // Control+a
    b"\x05",        // Control+e
    b"\x0b",        // Control+k
    b"\x17",        // Control+w
    b"\x15",        // Control+u
    "é".as_bytes(), // not ASCII
    "→".as_bytes(),
    "\u{1f600}".as_bytes(),
    b"\x1b[1;3D", // Alt+Left
    b"\x1b[1;3C", // Alt+Right
    b"\x1b[1;6D", // Control+Shift+Left
    b"\x1b[1;6C", // Control+Shift+Right
];

impl Key {
    pub fn bytes(&self) -> Vec<u8> {
        match self {
            Key::Ch(c) => c.to_string().into_bytes(),
            Key::Back => b"\x7f".to_vec(),
            Key::Del => b"\x1b[3~".to_vec(),
            Key::Left => b"\x1b[D".to_vec(),
            Key::Right => b"\x1b[C".to_vec(),
            Key::LeftFar(true) => b"\x1b[1;5D".to_vec(),
            Key::LeftFar(false) => b"\x1b[1;2D".to_vec(),
            Key::RightFar(true) => b"\x1b[1;5C".to_vec(),
            Key::RightFar(false) => b"\x1b[1;2C".to_vec(),
            Key::Home => b"\x1b[H".to_vec(),
            Key::End => b"\x1b[F".to_vec(),
            Key::Up => b"\x1b[A".to_vec(),
            Key::Down => b"\x1b[B".to_vec(),
            Key::Jump => b"\x0e".to_vec(),
            Key::Nothing(i) => IGNORED[*i % IGNORED.len()].to_vec(),
            Key::Same(i) => SAME[*i % SAME.len()].0.to_vec(),
        }
    }
    /// What it does.
    pub fn plain(&self) -> Key {
        match self {
            Key::Same(i) => SAME[*i % SAME.len()].1.clone(),
            k => k.clone(),
        }
    }
}

pub fn bytes_of(keys: &[Key]) -> Vec<u8> {
    keys.iter().flat_map(|k| k.bytes()).collect()
}

/// Where Control+N goes from `pos`, if anywhere: the parenthesis that matches under nesting.
pub fn matching(text: &str, pos: usize) -> Option<usize> {
    let b = text.as_bytes();
    // Standard bracket matching with a stack.
    let mut stack = Vec::new();
    let mut partner = vec![None; b.len()];
    for (i, c) in b.iter().enumerate() {
        if *c == b'(' {
            stack.push(i);
        } else if *c == b')' {
            if let Some(o) = stack.pop() {
                partner[o] = Some(i);
                partner[i] = Some(o);
            }
        }
    }
    partner.get(pos).copied().flatten()
}

// ---------------------------------------------------------------- a session

#[derive(Clone, Debug)]
pub struct Sess {
    pub set: Settings,
    /// Whether it uses the database.
    pub db: bool,
    pub mem: HashMap<String, MVal>,
    /// Values that may have been taken from the database by an input that failed.
    maybe: HashMap<String, MVal>,
    pub hist: Vec<String>,
    fetched: Vec<String>,
    db_pos: Option<u64>,
    // line editor
    lines: Vec<Option<String>>,
    pub idx: usize,
    pub cursor: usize,
    // statistics
    pub errors: usize,
    pub values: usize,
    pub db_reads: usize,
}

impl Sess {
    pub fn open(set: &Settings, db: Option<&Db>) -> Sess {
        Sess {
            set: set.clone(),
            db: db.is_some(),
            mem: HashMap::new(),
            maybe: HashMap::new(),
            hist: Vec::new(),
            fetched: Vec::new(),
            db_pos: db.and_then(|d| d.front()),
            lines: vec![None],
            idx: 0,
            cursor: 0,
            errors: 0,
            values: 0,
            db_reads: 0,
        }
    }

    // ---- editor

    pub fn text(&self) -> String {
        match &self.lines[self.idx] {
            Some(t) => t.clone(),
            None if self.idx == 0 => String::new(),
            None if self.idx <= self.hist.len() => self.hist[self.hist.len() - self.idx].clone(),
            None => self.fetched[self.idx - self.hist.len() - 1].clone(),
        }
    }

    pub fn key(&mut self, k: &Key, db: Option<&Db>) {
        let mut t = self.text();
        let len = t.len();
        let c = self.cursor;
        match &k.plain() {
            Key::Ch(ch) => {
                t.insert(c, *ch);
                self.lines[self.idx] = Some(t);
                self.cursor += 1;
            }
            Key::Back if c > 0 => {
                t.remove(c - 1);
                self.lines[self.idx] = Some(t);
                self.cursor -= 1;
            }
            Key::Del if c < len => {
                t.remove(c);
                self.lines[self.idx] = Some(t);
            }
            Key::Left => self.cursor = c.saturating_sub(1),
            Key::Right => self.cursor = (c + 1).min(len),
            Key::LeftFar(_) => self.cursor = c.saturating_sub(15),
            Key::RightFar(_) => self.cursor = (c + 15).min(len),
            Key::Home => self.cursor = 0,
            Key::End => self.cursor = len,
            Key::Up => {
                if self.idx >= self.hist.len() + self.fetched.len() {
                    let db = match db {
                        Some(d) if self.db => d,
                        _ => return,
                    };
                    let pos = match self.db_pos {
                        Some(p) => p,
                        None => return,
                    };
                    match db.rows.iter().position(|r| r.0 == pos) {
                        None => {
                            self.db_pos = None;
                            return;
                        }
                        Some(i) => {
                            self.fetched.push(db.rows[i].1.clone());
                            self.db_pos = if i > 0 { Some(db.rows[i - 1].0) } else { None };
                        }
                    }
                }
                self.idx += 1;
                if self.lines.len() <= self.idx {
                    self.lines.push(None);
                }
                self.cursor = self.text().len();
            }
            Key::Down => {
                if self.idx > 0 {
                    self.idx -= 1;
                    self.cursor = self.text().len();
                }
            }
            Key::Jump => {
                if len > 0 {
                    let at = c.min(len - 1);
                    if let Some(m) = matching(&t, at) {
                        self.cursor = m;
                    }
                }
            }
            _ => {}
        }
    }

    // ---- submitting

    fn known(&mut self, name: &str, db: Option<&Db>) -> Result<Option<MVal>, ()> {
        if let Some(v) = self.mem.get(name) {
            return Ok(Some(v.clone()));
        }
        let stored = db.and_then(|d| d.vars.get(name)).map(|v| v.0.clone());
        if let Some(m) = self.maybe.get(name) {
            if stored.as_ref() != Some(m) {
                return Err(());
            }
        }
        Ok(stored)
    }

    /// Enters `text` without any effect but that it can be recalled in the session.
    pub fn enter_only(&mut self, text: &str) {
        self.hist.push(text.to_string());
        self.lines = vec![None];
        self.idx = 0;
        self.cursor = 0;
    }

    /// Enters `text`; returns what the answer must be and updates both sides.
    pub fn submit(&mut self, text: &str, mut db: Option<&mut Db>) -> Want {
        if !self.db {
            db = None;
        }
        self.enter_only(text);
        let id = db.as_deref_mut().map(|d| d.add(text)).unwrap_or(0);
        let w = self.process(text, id, db.as_deref_mut());
        if let Some(d) = db {
            d.enforce();
        }
        match w {
            Want::Error | Want::ErrorNaming(_) => self.errors += 1,
            _ => self.values += 1,
        }
        w
    }

    fn process(&mut self, text: &str, id: u64, mut db: Option<&mut Db>) -> Want {
        let toks = match lex(text, self.set.radix) {
            None => return Want::Error,
            Some(Lexed::Command(name, args)) => return self.command(&name, &args, id, db),
            Some(Lexed::Toks(t)) => t,
        };
        let mut names: Vec<String> = Vec::new();
        for t in &toks {
            if let Tok::Var(v) = t {
                if !names.contains(v) {
                    names.push(v.clone());
                }
            }
        }
        if let Some(d) = db.as_deref_mut() {
            for n in &names {
                d.touch(n, id);
            }
        }
        if toks.is_empty() {
            return Want::Text(String::new());
        }
        let stmt = match parse(&toks) {
            None => return Want::Error,
            Some(s) => s,
        };
        let mut used = Vec::new();
        vars_of(&stmt.expr, &mut used);
        let mut env: HashMap<String, Val> = HashMap::new();
        let mut undecided = false;
        let mut from_db: Vec<(String, MVal)> = Vec::new();
        for n in &used {
            match self.known(n, db.as_deref()) {
                Err(()) => undecided = true,
                Ok(None) => {}
                Ok(Some(v)) => {
                    if !self.mem.contains_key(n) {
                        from_db.push((n.clone(), v.clone()));
                    }
                    match v {
                        None => undecided = true,
                        Some(v) => {
                            env.insert(n.clone(), v);
                        }
                    }
                }
            }
        }
        let set = self.set.clone();
        let res = if undecided {
            Err(Fail::Undecided)
        } else {
            Eval::new(&set, Some(&env)).eval(&stmt.expr)
        };
        match res {
            Ok(v) => {
                for (n, v) in from_db {
                    self.db_reads += 1;
                    self.maybe.remove(&n);
                    self.mem.insert(n, v);
                }
                if let Some(n) = &stmt.assign {
                    self.assign(n, Some(v.clone()), id, db);
                }
                Want::value(&v, &set)
            }
            Err(Fail::Undecided) => {
                for (n, v) in from_db {
                    self.maybe.insert(n, v);
                }
                if let Some(n) = &stmt.assign {
                    self.assign(n, None, id, db);
                }
                Want::Anything
            }
            Err(e) => {
                for (n, v) in from_db {
                    self.maybe.insert(n, v);
                }
                let _ = e;
                Want::Error
            }
        }
    }

    fn assign(&mut self, n: &str, v: MVal, id: u64, db: Option<&mut Db>) {
        self.maybe.remove(n);
        self.mem.insert(n.to_string(), v.clone());
        if let Some(d) = db {
            d.vars.insert(n.to_string(), (v, id));
        }
    }

    fn command(&mut self, name: &str, args: &str, id: u64, mut db: Option<&mut Db>) -> Want {
        let canon = |n: &str| -> Option<&'static str> {
            COMMANDS
                .iter()
                .find(|(c, al)| *c == n || al.contains(&n))
                .map(|c| c.0)
        };
        let cmd = match canon(name) {
            None => return Want::ErrorNaming(format!("'{}'", name)),
            Some(c) => c,
        };
        let done = Want::Text("Done".into());
        match cmd {
            "help" => {
                let a = args.trim();
                if a.is_empty() {
                    Want::Says(COMMANDS.iter().map(|c| format!("\n  {} ", c.0)).collect())
                } else {
                    match canon(a) {
                        None => Want::ErrorNaming(format!("'{}'", a)),
                        Some(c) => Want::Says(vec![format!("Usage: /{}", c)]),
                    }
                }
            }
            "reloadvar" | "purgevar" => {
                let mut names: Vec<String> = match lex(args, 10) {
                    Some(Lexed::Toks(t)) => {
                        let mut v = Vec::new();
                        for t in t {
                            match t {
                                Tok::Var(n) => v.push(n),
                                _ => return Want::Error,
                            }
                        }
                        v
                    }
                    _ => return Want::Error,
                };
                names.sort();
                names.dedup();
                if cmd == "purgevar" {
                    for n in &names {
                        self.mem.remove(n);
                        self.maybe.remove(n);
                        if let Some(d) = db.as_deref_mut() {
                            d.vars.remove(n);
                        }
                    }
                    return done;
                }
                let d = match db {
                    None => return Want::Error,
                    Some(d) => d,
                };
                let mut want = Vec::new();
                for n in &names {
                    let stored = d.vars.get(n).map(|v| v.0.clone());
                    if let Some(v) = &stored {
                        self.maybe.remove(n);
                        self.mem.insert(n.clone(), v.clone());
                    }
                    want.push((n.clone(), stored));
                    d.touch(n, id);
                }
                Want::Reloaded(want)
            }
            "fractional" | "upper" | "commas" => {
                let cur = match cmd {
                    "fractional" => &mut self.set.fractional,
                    "upper" => &mut self.set.upper,
                    _ => &mut self.set.commas,
                };
                match args.trim().to_ascii_lowercase().as_str() {
                    "" => Want::Text(cur.to_string()),
                    "t" | "true" => {
                        *cur = true;
                        done
                    }
                    "f" | "false" => {
                        *cur = false;
                        done
                    }
                    _ => Want::Error,
                }
            }
            _ => {
                if cmd == "converttoradix" && args.trim().eq_ignore_ascii_case("none") {
                    self.set.convert = None;
                    return done;
                }
                let ints = match int_list(args) {
                    None => return Want::Error,
                    Some(i) => i,
                };
                match (cmd, ints.as_slice()) {
                    ("radix", []) => Want::Text(self.set.radix.to_string()),
                    ("radix", [n @ 2..=16]) => {
                        self.set.radix = *n as u8;
                        done
                    }
                    ("converttoradix", []) => Want::Text(match self.set.convert {
                        None => "None".into(),
                        Some(c) => c.to_string(),
                    }),
                    ("converttoradix", [n @ 2..=16]) => {
                        self.set.convert = Some(*n as u8);
                        done
                    }
                    ("precision", []) => Want::Ints(vec![
                        i64::from(self.set.precision),
                        i64::from(self.set.extra),
                    ]),
                    ("precision", [p @ 0..=255]) if p + i64::from(self.set.extra) <= 255 => {
                        self.set.precision = *p as u8;
                        done
                    }
                    ("precision", [p @ 0..=255, e @ 0..=255]) if p + e <= 255 => {
                        self.set.precision = *p as u8;
                        self.set.extra = *e as u8;
                        done
                    }
                    ("histcap", rest) => match (db, rest) {
                        (Some(d), []) => Want::Text(d.cap.to_string()),
                        (Some(d), [n]) if *n >= 1 => {
                            d.cap = *n;
                            d.enforce();
                            done
                        }
                        _ => Want::Error,
                    },
                    _ => Want::Error,
                }
            }
        }
    }
}

pub fn int_list(args: &str) -> Option<Vec<i64>> {
    let toks = match lex(args, 10)? {
        Lexed::Command(..) => return None,
        Lexed::Toks(t) => t,
    };
    let mut out = Vec::new();
    let mut neg = false;
    for t in toks {
        match t {
            Tok::Num(n) => {
                if !n.is_integer() {
                    return None;
                }
                let n: i64 = i64::try_from(n.to_integer()).ok()?;
                out.push(if neg { -n } else { n });
                neg = false;
            }
            Tok::Op('-') if !neg => neg = true,
            _ => return None,
        }
    }
    if neg {
        None
    } else {
        Some(out)
    }
}

pub fn vars_of(a: &Ast, out: &mut Vec<String>) {
    match a {
        Ast::Num(_) => {}
        Ast::Var(v) => {
            if !out.contains(v) {
                out.push(v.clone());
            }
        }
        Ast::Neg(e) | Ast::Sqrt(e) | Ast::Abs(e) => vars_of(e, out),
        Ast::Max(l) | Ast::Min(l) => l.iter().for_each(|e| vars_of(e, out)),
        Ast::Bin(_, l, r) => {
            vars_of(l, out);
            vars_of(r, out);
        }
    }
}

#[allow(dead_code)]
pub fn exact(v: &Val) -> Option<&Q> {
    match v {
        Val::Exact(v) => Some(v),
        _ => None,
    }
}
