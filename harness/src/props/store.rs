//! C19-C23: what is stored between sessions and shared by them.

use super::common::*;
use crate::choice::Src;
use crate::engine::*;
use crate::gen::*;
use crate::model::*;
use crate::proc::*;
use crate::runner::*;
use crate::spec::*;
use std::collections::{HashMap, HashSet};

/// How a generator makes a history.
pub struct Plan {
    pub sessions: usize,
    pub steps: usize,
    pub names: Vec<String>,
    /// Weights: assign, use, list command, failing, capacity, any text, empty, setting.
    pub lines: [u64; 8],
    /// Weights: line, restart or start, recall, examine a copy, line made with keys.
    pub acts: [u64; 5],
    pub caps: &'static [i64],
    pub digits: usize,
}

/// A line much longer than usual.
pub fn long_line(s: &mut Src) -> String {
    let n = *s.pick(&[130, 256, 257, 300, 512, 600, 1000, 1100, 1500]) as usize;
    let n = n + s.usize(20);
    let unit = *s.pick(&["1+", "x", "9", " ", "-", "'", "12 ", "$a", "7*"]);
    let mut t: String = unit.repeat(n);
    t.truncate(n);
    t.push_str(s.pick(&["1", "0", "x", " "]));
    t
}

pub struct Hist<'a> {
    pub w: World,
    pub steps: Vec<Step>,
    plan: &'a Plan,
    unset: Vec<String>,
    /// The last line entered, repeated now and then.
    last: String,
}

impl<'a> Hist<'a> {
    pub fn new(plan: &'a Plan) -> Hist<'a> {
        Hist {
            w: World::new(true),
            steps: Vec::new(),
            unset: unset_names(&plan.names),
            plan,
            last: String::new(),
        }
    }
    pub fn step(&mut self, st: Step) -> bool {
        push_step(&mut self.steps, &mut self.w, st)
    }
    pub fn line(&mut self, i: usize, text: &str) -> bool {
        push(&mut self.steps, &mut self.w, i, text.to_string())
    }
    pub fn open(&mut self, i: usize, flags: Settings) {
        self.step(Step::Open { s: i, flags });
    }
    pub fn close(&mut self, s: &mut Src, i: usize) {
        self.step(Step::Close { s: i, key: s.below(3) as u8 });
    }
    pub fn live(&self) -> Vec<usize> {
        (0..self.plan.sessions).filter(|i| self.w.is_open(*i)).collect()
    }
    pub fn text(&mut self, s: &mut Src, i: usize) -> String {
        let p = self.plan;
        let n = &p.names;
        let t = match s.weighted(&p.lines) {
            0 => assign_line(s, &self.w, i, n, p.digits),
            1 => use_line(s, n),
            2 => var_cmd(s, n, true),
            3 => fail_line(s, &self.w, i, n, &self.unset),
            4 => match s.weighted(&[1, 5, 1]) {
                0 => "/histcap".to_string(),
                2 => (*s.pick(&[
                    "/histcap 0", "/histcap -1", "/histcap 1 2", "/histcap 1.5", "/histcap x",
                    "/histcap 9223372036854775808", "/histcap -9223372036854775808", "/histcap $x",
                ]))
                .to_string(),
                _ => format!("/histcap {}", s.pick(p.caps)),
            },
            5 => match s.weighted(&[12, 12, 4, 1, 12]) {
                0 if !self.last.is_empty() => self.last.clone(),
                1 => garbage(s, &self.w, i, 60),
                2 => (*s.pick(&[
                    "/h", "/help", "/help radix", " /h", "/h f", "/p", "/r", "/f", "/upper", "/comma",
                    "/converttoradix", "/reloadvar", "/purgevar", "/", "/exit", "/quit", "exit", "quit", "clear", "#1",
                ]))
                .to_string(),
                3 => long_line(s),
                _ => (*s.pick(&[
                    "'", "\"", "a'); DROP TABLE input_history;--", "%s%d%n", "\\", "\\n", "?1", ":input",
                    "NULL", "1;2", "''''", "/* */", "--", "0x00", " 1 ", "1+1", "~`!@#$%^&*()_+{}|:<>?",
                ]))
                .to_string(),
            },
            6 => String::new(),
            _ => setting_line(s),
        };
        self.last = t.clone();
        t
    }
    pub fn act(&mut self, s: &mut Src) {
        let live = self.live();
        let kind = if live.is_empty() { 1 } else { s.weighted(&self.plan.acts) };
        match kind {
            0 => {
                let i = *s.pick(&live);
                let t = self.text(s, i);
                self.line(i, &t);
            }
            1 => {
                let i = s.usize(self.plan.sessions);
                if self.w.is_open(i) {
                    self.close(s, i);
                } else {
                    let f = if s.pct(15) { settings(s) } else { Settings::default() };
                    self.open(i, f);
                }
            }
            2 => {
                let i = *s.pick(&live);
                self.step(Step::Recall { s: i });
            }
            3 => self.peek(),
            _ => {
                let i = *s.pick(&live);
                let mut keys = Vec::new();
                let n = s.size(1, 6);
                for _ in 0..n {
                    keys.push(match s.weighted(&[6, 2, 2, 1]) {
                        0 => Key::Up,
                        1 => Key::Down,
                        2 => Key::Ch(*s.pick(&['1', ' ', '+', 'x'])),
                        _ => Key::Back,
                    });
                }
                self.step(Step::Keys { s: i, keys });
            }
        }
    }
    fn peek(&mut self) {
        let names = self.plan.names.clone();
        self.step(Step::Peek { names });
    }
    pub fn end(mut self) -> Story {
        self.peek();
        Story {
            store: Store::On,
            alt: false,
            cols: 400,
            rows: 60,
            steps: self.steps,
            resizes: Vec::new(),
            env: Vec::new(),
        }
    }
}

fn play<F>(c: &Story, obs: &mut Obs, look: F) -> Verdict
where
    F: FnMut(&Ev, &mut Obs) -> Result<(), String>,
{
    let dir = Scratch::new();
    play_story(c, dir.path(), dir.path(), obs, look)
}

fn opens(c: &Story) -> usize {
    c.steps.iter().filter(|s| matches!(s, Step::Open { .. })).count()
}

fn failed(e: &Ev) -> bool {
    e.got.starts_with("Error") || e.got.starts_with("Runtime Error")
}

// ---------------------------------------------------------------- C19

fn c19_gen(s: &mut Src, thorough: bool) -> Story {
    let plan = Plan {
        sessions: s.range(1, 3) as usize,
        steps: s.range(3, if thorough { 90 } else { 30 }) as usize,
        names: names(s, 1, 3),
        lines: [4, 3, 1, 5, 0, 8, 2, 2],
        acts: [20, 4, 3, 1, 4],
        caps: &[],
        digits: 20,
    };
    let mut h = Hist::new(&plan);
    if s.pct(1) {
        // Far more than the original capacity.
        h.open(0, Settings::default());
        h.line(0, "/histcap 5000");
        let n = s.range(120, if thorough { 1200 } else { 420 });
        for i in 0..n {
            h.line(0, &i.to_string());
        }
    }
    for _ in 0..plan.steps {
        h.act(s);
    }
    // A later session.
    let live = h.live();
    for i in live {
        h.close(s, i);
    }
    h.open(0, Settings::default());
    h.step(Step::Recall { s: 0 });
    h.line(0, "1");
    h.step(Step::Recall { s: 0 });
    h.end()
}

fn c19() -> Prop {
    prop(
        "C19",
        "exploration",
        "Histories of 3 to 30 (thorough 90) steps in up to 3 sessions, some open at the same time, restarted at random: assignments, failing inputs, commands, empty lines, repeated lines, arbitrary printable text (quotes, SQL and format directives included) and recalled lines that were edited, a few after 120 to 420 (thorough 1200) inputs; every recall walks the whole history with Up and back with Down, comparing each line with the model, in running sessions, in sessions started later and in sessions on copies of the data. Non-trivial: at least three sessions, and a failing, an empty or a repeated line.",
        (2400, 30000),
        c19_gen,
        |c: &Story, obs| {
            let mut odd = false;
            let mut seen = HashSet::new();
            let v = play(c, obs, |e, obs| {
                let again = !seen.insert(e.text.to_string());
                obs.class_if(again, "repeated line");
                obs.class_if(e.text.is_empty(), "empty line");
                obs.class_if(failed(e), "failing line");
                obs.class_if(e.text.contains('\'') || e.text.contains('"'), "quotes");
                odd |= again || e.text.is_empty() || failed(e);
                Ok(())
            });
            obs.class_if(c.steps.iter().any(|s| matches!(s, Step::Keys { .. })), "edited recalled lines");
            obs.nontrivial = odd && opens(c) > 2;
            v
        },
    )
}

// ---------------------------------------------------------------- C20

fn c20_gen(s: &mut Src, thorough: bool) -> Story {
    let full = s.pct(12);
    let plan = Plan {
        sessions: s.range(1, 2) as usize,
        steps: s.range(4, if thorough { 80 } else { 30 }) as usize,
        names: names(s, 1, 2),
        lines: [3, 2, 1, 4, if full { 1 } else { 6 }, 4, 1, 1],
        acts: [24, 2, 1, 4, 1],
        caps: &[1, 2, 3, 4, 5, 7, 10, 20, 99, 100, 101, 1000, 9223372036854775807],
        digits: 6,
    };
    let mut h = Hist::new(&plan);
    if full {
        // Fills the history up to around its original capacity.
        h.open(0, Settings::default());
        let n = if s.pct(8) {
            // Or a larger one.
            let cap = s.range(101, if thorough { 1100 } else { 400 });
            h.line(0, &format!("/histcap {}", cap));
            cap + s.range(-3, 5)
        } else {
            s.range(95, 104)
        };
        for i in 0..n {
            h.line(0, &i.to_string());
        }
    }
    for _ in 0..plan.steps {
        h.act(s);
    }
    h.end()
}

fn c20() -> Prop {
    prop(
        "C20",
        "exploration",
        "Histories of 4 to 30 (thorough 80) steps with many /histcap commands (1 to 2^63-1, also refused ones) in one or two sessions, an eighth of them first filled to around the original capacity of 100, few to a larger one of up to 400 (thorough 1100); copies of the data are examined at random moments and at the end: the whole history and the capacity must be the model's. Non-trivial: inputs were evicted both by entering one and by lowering the capacity.",
        (2400, 30000),
        c20_gen,
        |c: &Story, obs| {
            let (mut by_input, mut by_cap) = (false, false);
            let v = play(c, obs, |e, obs| {
                let (a, b) = match (&e.before.db, &e.after.db) {
                    (Some(a), Some(b)) => (a, b),
                    _ => return Ok(()),
                };
                let n = b.evictions - a.evictions;
                by_input |= n > 0 && a.cap == b.cap;
                by_cap |= n > 1 && b.cap < a.cap;
                obs.class_if(n > 0 && a.cap == 100, "evicted at the original capacity");
                obs.class_if(n > 0 && a.cap == b.cap, "evicted by an input");
                obs.class_if(n > 1 && b.cap < a.cap, "evicted by /histcap");
                obs.class_if(b.cap == 1, "capacity 1");
                obs.class_if(b.cap > a.cap, "capacity raised");
                obs.class_if(e.text.contains("/histcap") && failed(e), "refused capacity");
                obs.count("evictions", n as u64);
                Ok(())
            });
            obs.nontrivial = by_input && by_cap;
            v
        },
    )
}

// ---------------------------------------------------------------- C21

fn c21_gen(s: &mut Src, thorough: bool) -> Story {
    // One session changes what another has, which then reloads some of it.
    let stale = s.pct(25);
    let mut names = names(s, if stale { 2 } else { 1 }, 5);
    if stale && s.pct(60) {
        let mut x = s.pick(&names).clone();
        x.push(*s.pick(b"_.0122xXa$") as char);
        if !names.contains(&x) {
            names.push(x);
        }
    }
    let plan = Plan {
        sessions: s.range(if stale { 2 } else { 1 }, 3) as usize,
        steps: s.range(if stale { 0 } else { 3 }, if thorough { 60 } else if stale { 10 } else { 22 }) as usize,
        names,
        lines: [12, 4, 6, 3, 0, 0, 0, 2],
        acts: [20, 4, 0, 3, 0],
        caps: &[],
        digits: if s.pct(15) { 300 } else { 40 },
    };
    let mut h = Hist::new(&plan);
    for _ in 0..plan.steps {
        h.act(s);
    }
    if stale {
        for i in 0..2 {
            if !h.w.is_open(i) {
                h.open(i, Settings::default());
            }
        }
        let mut set = |s: &mut Src, h: &mut Hist, i: usize, most: u64| {
            for n in &plan.names {
                if s.pct(most) {
                    let t = format!("{} = {}{}", n, s.pick(&["", "-"]), s.pick(&["0", "1", "10", "11", "1.1", "1/11"]));
                    h.line(i, &t);
                }
            }
        };
        let a = s.usize(2);
        set(s, &mut h, a, 90);
        set(s, &mut h, 1 - a, 70);
        let k = s.range(1, 2);
        for _ in 0..k {
            let t = var_cmd(s, &plan.names, true);
            h.line(a, &t);
            for n in &plan.names {
                h.line(a, n);
            }
        }
        for _ in 0..s.usize(6) {
            h.act(s);
        }
    }
    h.end()
}

fn c21() -> Prop {
    prop(
        "C21",
        "exploration",
        "Histories of 3 to 22 (thorough 60) steps in up to 3 sessions, restarted at random, that assign up to 5 names values of up to 300 digits, negative and fractional ones included, in any radix, use, purge and reload them; in a quarter of them, one session changes values that another has, which then reloads or purges one or more of the names (often one that another begins with) and uses all; copies of the data are examined at random moments and at the end: every name must have exactly the model's value, shown as a fraction in radix 10. /reloadvar must print what the model has and leave names that are not stored alone. Non-trivial: more than one session, and a variable was purged, reassigned by another session or reloaded.",
        (2700, 33000),
        c21_gen,
        |c: &Story, obs| {
            let mut owner: HashMap<String, usize> = HashMap::new();
            let mut moved = false;
            let v = play(c, obs, |e, obs| {
                let t = e.text.trim();
                if let (Some(a), Some(b)) = (&e.before.db, &e.after.db) {
                    for (n, v) in &b.vars {
                        if a.vars.get(n).map(|x| &x.0) != Some(&v.0) {
                            let old = owner.insert(n.clone(), e.s);
                            let other = old.is_some() && old != Some(e.s);
                            moved |= other;
                            obs.class_if(other, "assigned by another session");
                            if let Some(Val::Exact(q)) = &v.0 {
                                obs.class_if(!q.is_integer(), "fraction");
                                obs.class_if(q.numer().sign() == num_bigint::Sign::Minus, "negative");
                                obs.class_if(q.numer().bits() > 200, "more than 200 bits");
                            }
                        }
                    }
                    let purged = a.vars.keys().any(|n| !b.vars.contains_key(n));
                    moved |= purged;
                    obs.class_if(purged, "purged");
                }
                if t.starts_with("/reloadvar") && !failed(e) {
                    obs.class("reloaded");
                    obs.class_if(e.got.contains("unchanged"), "reloaded a name not stored");
                    moved = true;
                }
                Ok(())
            });
            obs.nontrivial = moved && !owner.is_empty() && opens(c) > 1;
            v
        },
    )
}

// ---------------------------------------------------------------- C22

fn c22_gen(s: &mut Src, thorough: bool) -> Story {
    let plan = Plan {
        sessions: s.range(1, 2) as usize,
        steps: s.range(6, if thorough { 90 } else { 36 }) as usize,
        names: {
            let hi = if s.pct(20) { 9 } else { 4 };
            names(s, 1, hi)
        },
        lines: [7, 6, 4, 4, 2, 2, 1, 1],
        acts: [26, 3, 0, 4, 1],
        caps: &[1, 2, 3, 4, 5, 6, 8, 12],
        digits: 4,
    };
    let mut h = Hist::new(&plan);
    h.open(0, Settings::default());
    let cap = s.range(1, 8);
    h.line(0, &format!("/histcap {}", cap));
    for _ in 0..plan.steps {
        h.act(s);
    }
    h.end()
}

fn c22() -> Prop {
    prop(
        "C22",
        "exploration",
        "Histories of 6 to 36 (thorough 90) steps with a capacity of 1 to 12 that changes, in one or two sessions, over up to 4 names that are assigned, used in succeeding and failing inputs, reloaded and purged while other inputs push their last use out; copies of the data, with the capacity raised first, are examined at random moments and at the end: exactly the names the model keeps must be known, with their values. Non-trivial: a variable went with an evicted input, and another outlived the eviction of an input that had used it.",
        (2400, 30000),
        c22_gen,
        |c: &Story, obs| {
            // Inputs that used each name, by number of the input.
            let mut uses: HashMap<String, Vec<u64>> = HashMap::new();
            let (mut gone, mut kept) = (false, false);
            let v = play(c, obs, |e, obs| {
                if let (Some(a), Some(b)) = (&e.before.db, &e.after.db) {
                    let g = b.var_evictions > a.var_evictions;
                    gone |= g;
                    obs.class_if(g, "removed with its last use");
                    let oldest = b.rows.front().map(|r| r.0).unwrap_or(0);
                    for (n, v) in &b.vars {
                        let u = uses.entry(n.clone()).or_default();
                        if u.last() != Some(&v.1) {
                            u.push(v.1);
                        }
                        if u[0] < oldest {
                            kept = true;
                            obs.class("outlives an earlier use");
                        }
                        let prev = a.vars.get(n).map(|x| x.1);
                        let newest = b.rows.back().map(|r| r.0);
                        obs.class_if(
                            Some(v.1) == newest
                                && prev.is_some()
                                && prev < Some(oldest)
                                && b.evictions > a.evictions,
                            "used by the input that evicts its previous use",
                        );
                    }
                    uses.retain(|n, _| b.vars.contains_key(n));
                    obs.count("evictions", (b.evictions - a.evictions) as u64);
                }
                Ok(())
            });
            obs.nontrivial = gone && kept;
            v
        },
    )
}

// ---------------------------------------------------------------- C23

fn c23_gen(s: &mut Src, thorough: bool) -> Story {
    let plan = Plan {
        sessions: s.range(2, 4) as usize,
        steps: s.range(6, if thorough { 90 } else { 36 }) as usize,
        names: names(s, 1, 4),
        lines: [8, 8, 5, 2, 1, 1, 1, 1],
        acts: [30, 3, 3, 1, 4],
        caps: &[2, 4, 6, 10, 100],
        digits: 4,
    };
    let mut h = Hist::new(&plan);
    for i in 0..plan.sessions {
        if i < 2 || s.pct(60) {
            h.open(i, Settings::default());
        }
        if s.pct(30) {
            let k = *s.pick(&h.live());
            let t = h.text(s, k);
            h.line(k, &t);
        }
    }
    for _ in 0..plan.steps {
        h.act(s);
    }
    let live = h.live();
    for i in live {
        h.step(Step::Recall { s: i });
    }
    h.end()
}

fn c23() -> Prop {
    prop(
        "C23",
        "exploration",
        "Histories of 6 to 36 (thorough 90) steps that alternate between 2 to 4 sessions open on one database (some ending and restarting), assigning, using, purging and reloading up to 4 shared names, with changes of capacity, and walking their own histories; every answer and every recalled line must be the model's, in which each session has its own values and its own view of older history; at the end a new session on a copy sees everything. Non-trivial: a session used its own value of a name while another one or none was stored, and a session read a name that another one assigned.",
        (2400, 30000),
        c23_gen,
        |c: &Story, obs| {
            let (mut own, mut read) = (false, false);
            let v = play(c, obs, |e, obs| {
                if let Some(db) = &e.before.db {
                    let m = e.before.get(e.s);
                    let differs = m.mem.iter().any(|(n, v)| {
                        e.text.contains(n.as_str()) && db.vars.get(n).map(|x| &x.0) != Some(v)
                    });
                    let cmd = e.text.trim_start().starts_with('/');
                    if differs && !cmd && !failed(e) {
                        own = true;
                        obs.class("own value, another or none stored");
                    }
                    obs.class_if(
                        differs && cmd && e.text.contains("reloadvar"),
                        "reloaded a differing value",
                    );
                    if e.after.get(e.s).db_reads > m.db_reads {
                        read = true;
                        obs.class("read from the database");
                    }
                }
                Ok(())
            });
            obs.nontrivial = own && read;
            v
        },
    )
}

pub fn all() -> Vec<Prop> {
    vec![c19(), c20(), c21(), c22(), c23()]
}
