//! C14-C18 and C27: line editing, display, history in the session, leaving.

use super::common::*;
use crate::choice::Src;
use crate::engine::*;
use crate::gen::*;
use crate::model::*;
use crate::play::*;
use crate::proc::*;
use crate::runner::*;
use crate::spec::*;
use serde::{Deserialize, Serialize};

/// Text as somebody might type it, in pieces with keys between.
fn key_seq(s: &mut Src, max: usize) -> Vec<Key> {
    let n = s.size(1, max);
    let mut k = Vec::new();
    for _ in 0..n {
        match s.weighted(&[5, 9, 2, 2]) {
            3 => {
                // An earlier line, edited somewhere.
                for _ in 0..s.size(1, 4) {
                    k.push(if s.pct(80) { Key::Up } else { Key::Down });
                }
                if s.pct(15) {
                    k.push(Key::Same(s.usize(SAME.len())));
                }
                let m = match s.usize(4) {
                    0 => Key::Right,
                    1 => Key::Home,
                    _ => Key::Left,
                };
                k.extend(vec![m; s.usize(3)]);
                k.push(match s.usize(4) {
                    0 => Key::Back,
                    1 => Key::Del,
                    _ => Key::Ch(*s.pick(&['1', '0', '7', ' ', '('])),
                });
            }
            0 => {
                let t = match if s.pct(1) { 9 } else { s.usize(5) } {
                    9 => {
                        let k = s.size(50, 500);
                        s.pick(&["1", "12", "0", "x", "-", "1+", "7 "]).repeat(k)[..k].to_string()
                    }
                    0 => natural(s, 10, 12).to_string(),
                    1 => (*s.pick(&["1+2", "(3*4)", "-7/2", "abs -5", "max(1,2)", "2^10", " ", "$x", "$x = 4"])).to_string(),
                    2 => printable(s, 20),
                    3 => natural(s, 10, 40).to_string(),
                    _ => (*s.pick(&["+", "*", "(", ")", ",", "1", "0"])).to_string(),
                };
                k.extend(t.chars().map(Key::Ch));
            }
            1 => k.push(key(s)),
            _ => {
                // The same movement several times.
                let m = key(s);
                let times = s.size(1, 20);
                if !matches!(m, Key::Ch(_)) {
                    k.extend(std::iter::repeat(m).take(times));
                }
            }
        }
    }
    k
}

fn echoed(e: &Ev) -> Result<(), String> {
    if e.echo == e.text {
        Ok(())
    } else {
        Err(format!(
            "submitted {:?}, but the screen shows {:?}",
            clip(e.text),
            clip(e.echo)
        ))
    }
}

fn no_db(steps: Vec<Step>, cols: usize, rows: usize) -> Story {
    Story {
        store: Store::NoVar,
        alt: false,
        cols,
        rows,
        steps,
        resizes: Vec::new(),
        env: Vec::new(),
    }
}

// ---------------------------------------------------------------- C14

fn c14_gen(s: &mut Src, thorough: bool) -> Story {
    let cols = match s.weighted(&[3, 5, 2]) {
        0 => 400,
        1 => s.range(12, 60) as usize,
        _ => s.range(5, 12) as usize,
    };
    let alt = s.pct(25);
    let mut w = World::new(false);
    let mut steps = Vec::new();
    push_step(&mut steps, &mut w, Step::Open { s: 0, flags: Settings::default() });
    let n = s.size(1, 5);
    let resize = !alt && s.pct(30);
    let mut resizes = Vec::new();
    for _ in 0..n {
        let keys = key_seq(s, if thorough { 120 } else { 40 });
        let len = keys.len();
        if push_step(&mut steps, &mut w, Step::Keys { s: 0, keys }) && resize {
            let mut at: Vec<usize> = (0..s.usize(4)).map(|_| s.usize(len + 1)).collect();
            at.sort();
            for k in at {
                let cols = match s.weighted(&[4, 2]) {
                    0 => s.range(5, 30) as usize,
                    _ => s.range(30, 140) as usize,
                };
                resizes.push((steps.len() - 1, k, cols));
            }
        }
    }
    let mut st = no_db(steps, cols, 60);
    st.alt = alt;
    st.resizes = resizes;
    st
}

fn c14() -> Prop {
    prop(
        "C14",
        "exploration",
        "Up to 5 lines, each made by up to 40 (thorough 120) typed pieces, recalled lines that are edited, movements by 1 and by 15, Home, End, Backspace, Delete and keys without a function, a few up to 500 long, in windows of 5 to 400 columns, inline (some with changes of width while editing) and in the alternate screen; the submitted line as echoed by the terminal must be the editor model's, and its answer the one for that line. Non-trivial: a line was edited somewhere other than at its end.",
        (12000, 120000),
        c14_gen,
        |c: &Story, obs| {
            let dir = Scratch::new();
            let cols = c.cols;
            obs.class_if(!c.resizes.is_empty(), "width changed while editing");
            play_story(c, dir.path(), dir.path(), obs, |e, obs| {
                if let Step::Keys { keys, .. } = e.step {
                    let mut w = e.before.clone();
                    for k in keys {
                        let inside = w.get(0).cursor < w.get(0).text().len();
                        obs.class_if(matches!(k, Key::Same(_)), "other encoding of a key, or a modifier without effect");
                        match &k.plain() {
                            Key::Ch(_) | Key::Back | Key::Del if inside => obs.nontrivial = true,
                            Key::LeftFar(_) | Key::RightFar(_) => obs.class("move by 15"),
                            Key::Nothing(_) => obs.class("key without function"),
                            _ => {}
                        }
                        w.key(0, k);
                    }
                    obs.class_if(e.text.len() + 4 > cols, "longer than the window");
                    obs.class_if(w.get(0).cursor < e.text.len(), "Enter inside the line");
                    obs.count("keys", keys.len() as u64);
                }
                echoed(e)
            })
        },
    )
}

// ---------------------------------------------------------------- C15

fn parens(s: &mut Src, max: usize) -> String {
    match s.weighted(&[4, 4]) {
        0 => {
            let n = s.size(0, max);
            (0..n)
                .map(|_| match s.weighted(&[4, 4, 3]) {
                    0 => '(',
                    1 => ')',
                    _ => *s.pick(&['1', '+', ' ', 'x', ',', '[', ']', '{', '}', '<', '>', '9', '*']),
                })
                .collect()
        }
        _ => {
            // Balanced, sometimes with one parenthesis lost or added.
            fn bal(s: &mut Src, depth: usize, out: &mut String) {
                let n = s.size(1, 3);
                for _ in 0..n {
                    if depth > 0 && s.pct(60) {
                        out.push('(');
                        bal(s, depth - 1, out);
                        out.push(')');
                    } else {
                        out.push(*s.pick(&['1', '+', ' ', '9']));
                    }
                }
            }
            let mut t = String::new();
            let d = s.usize(6);
            bal(s, d, &mut t);
            if s.pct(30) {
                let i = s.usize(t.len() + 1);
                t.insert(i, *s.pick(&['(', ')']));
            }
            if s.pct(30) && !t.is_empty() {
                let i = s.usize(t.len());
                t.remove(i);
            }
            t.truncate(max * 2);
            t
        }
    }
}

fn c15_gen(s: &mut Src, thorough: bool) -> Story {
    let cols = match s.weighted(&[5, 3]) {
        0 => 400,
        _ => s.range(6, 40) as usize,
    };
    let mut w = World::new(false);
    let mut steps = Vec::new();
    push_step(&mut steps, &mut w, Step::Open { s: 0, flags: Settings::default() });
    let n = s.range(1, 6);
    for _ in 0..n {
        let mut t = parens(s, if thorough { 120 } else { 40 });
        if s.pct(25) {
            // Far apart.
            let i = s.usize(t.len() + 1);
            let k = s.size(10, 140);
            t.insert_str(i, &s.pick(&["1", "+", " ", "()", "(", ")"]).repeat(k)[..k]);
        }
        let deep = s.pct(3);
        if deep {
            let k = s.range(100, 290) as usize;
            let lost = s.usize(3) / 2;
            t = format!("{}{}{}", "(".repeat(k), parens(s, 10), ")".repeat(k - lost));
        }
        let mut keys: Vec<Key> = t.chars().map(Key::Ch).collect();
        let jumps = s.range(1, 3) as usize;
        for j in 0..jumps {
            let len = t.len() + j;
            if s.pct(15) {
                keys.push(Key::End);
            } else {
                // Mostly onto a parenthesis.
                let mut pos = s.usize(len + 1);
                if deep && j == 0 {
                    pos = if s.pct(50) { s.usize(3) } else { len - s.usize(3) };
                } else if s.pct(80) {
                    let m: Vec<usize> = t
                        .char_indices()
                        .filter(|(_, c)| *c == '(' || *c == ')')
                        .map(|(i, _)| i)
                        .collect();
                    if !m.is_empty() {
                        pos = *s.pick(&m);
                    }
                }
                if pos * 2 > len {
                    keys.push(Key::End);
                    for _ in pos..len {
                        keys.push(Key::Left);
                    }
                } else {
                    keys.push(Key::Home);
                    for _ in 0..pos {
                        keys.push(Key::Right);
                    }
                }
            }
            keys.push(Key::Jump);
            if s.pct(20) {
                keys.push(Key::Jump);
            }
            // Shows where the cursor is, and makes the line an error.
            keys.push(Key::Ch('#'));
        }
        push_step(&mut steps, &mut w, Step::Keys { s: 0, keys });
    }
    // All lines fit the alternate screen.
    let alt = s.pct(30);
    let mut st = no_db(steps, cols, if alt { 130 } else { 60 });
    st.alt = alt;
    st
}

fn c15() -> Prop {
    prop(
        "C15",
        "exploration",
        "Up to 6 lines, inline or in the alternate screen, in windows of 6 to 400 columns, of parentheses among other characters (random, or balanced with one lost or added, up to 80 long, thorough 240, a few nested up to 290 deep); the cursor is put on a random position, mostly a parenthesis, or the end, Control+N pressed once or twice, and a mark typed that shows where the cursor went; up to three times per line. The submitted line must be the one with the marks where stack matching puts them. Non-trivial: a jump to a match more than 2 characters away over other parentheses, and one with no match.",
        (12000, 120000),
        c15_gen,
        |c: &Story, obs| {
            let dir = Scratch::new();
            let (mut far, mut none) = (0, 0);
            let v = play_story(c, dir.path(), dir.path(), obs, |e, obs| {
                if let Step::Keys { keys, .. } = e.step {
                    let mut w = e.before.clone();
                    for k in keys {
                        if *k == Key::Jump {
                            let t = w.get(0).text();
                            let p = w.get(0).cursor;
                            obs.count("jumps", 1);
                            if t.is_empty() {
                                continue;
                            }
                            let at = p.min(t.len() - 1);
                            let on = t.as_bytes()[at] == b'(' || t.as_bytes()[at] == b')';
                            match matching(&t, at) {
                                Some(m) => {
                                    let (a, b) = (m.min(at), m.max(at));
                                    if t[a + 1..b].contains(|c| c == '(' || c == ')') {
                                        far += 1;
                                    }
                                    obs.class(if m > at { "forward" } else { "backward" });
                                    obs.class_if(p >= t.len(), "from the end of the line");
                                }
                                None if on => {
                                    none += 1;
                                    obs.class("no match");
                                }
                                None => obs.class("not on a parenthesis"),
                            }
                        }
                        w.key(0, k);
                    }
                }
                echoed(e)
            });
            obs.nontrivial = far > 0 && none > 0;
            v
        },
    )
}

// ---------------------------------------------------------------- C16, C17: the screen

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Op {
    /// Keys pressed at once, then the screen is examined.
    Keys(Vec<Key>),
    Resize(usize),
    /// Another height (at least what is in use), alternate screen only.
    Tall(usize),
    Enter,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Screen {
    alt: bool,
    cols: usize,
    rows: usize,
    /// Lines on the terminal before bcalc starts.
    earlier: usize,
    ops: Vec<Op>,
}

fn screen_keys(s: &mut Src) -> Vec<Key> {
    match s.weighted(&[6, 6, 3, 4]) {
        0 => {
            let n = s.size(1, 30);
            (0..n)
                .map(|_| Key::Ch(*s.pick(b"0123456789+-* ()abcdefXYZ<>#")  as char))
                .collect()
        }
        1 => vec![key(s)],
        2 => {
            let n = s.size(1, 25);
            let k = match s.usize(8) {
                0 => Key::Left,
                1 => Key::Right,
                2 => Key::LeftFar(true),
                3 => Key::RightFar(true),
                4 => Key::Back,
                5 => Key::Del,
                6 => Key::Home,
                _ => Key::End,
            };
            vec![k; n]
        }
        _ => vec![match s.weighted(&[5, 4, 2]) {
            0 => Key::Up,
            1 => Key::Down,
            _ => Key::Jump,
        }],
    }
}

/// `min_cols` is the narrowest window in which bcalc works.
fn screen_gen(s: &mut Src, thorough: bool, alt: bool, resize: bool, min_cols: usize) -> Screen {
    let width = |s: &mut Src| match s.weighted(&[10, 6, 4, 1]) {
        0 => s.range(12, 50) as usize,
        1 => s.range(min_cols as i64, 12) as usize,
        2 => s.range(50, 130) as usize,
        _ => s.range(130, 600) as usize,
    };
    let mut cols = width(s);
    let first = cols;
    let rows = if alt {
        match s.weighted(&[3, 3]) {
            0 => s.range(14, 30) as usize,
            _ => s.range(4, 14) as usize,
        }
    } else {
        s.range(2, 24) as usize
    };
    let earlier = if s.pct(50) { s.usize(rows * 2) } else { 0 };
    let mut w = World::new(false);
    w.open(0, &Settings::default());
    let mut ops = Vec::new();
    let n = s.size(2, if thorough { 80 } else { 26 });
    let mut first_keys = if s.pct(60) {
        // A line longer than the window, mostly, and a look at its middle.
        let len = if s.pct(70) {
            s.range(1, (3 * cols as i64).min(900)) as usize
        } else {
            // About as long as what fits in the window.
            (cols + s.usize(4)).saturating_sub(6).max(1)
        };
        let mut k: Vec<Key> = (0..len)
            .map(|i| Key::Ch((b'a' + (i % 26) as u8) as char))
            .collect();
        if s.pct(20) {
            // Stay at its end.
        } else if s.pct(50) {
            k.push(Key::Home);
            k.extend(vec![Key::Right; s.usize(len)]);
        } else {
            k.extend(vec![Key::Left; s.usize(len)]);
        }
        Some(k)
    } else {
        None
    };
    // The longest line that fits the screen in the alternate screen.
    let mut narrow = cols;
    let mut tall = rows;
    // From a short line to a long one of the history and back.
    let mut plan: Vec<Op> = Vec::new();
    if first_keys.is_some() && s.pct(30) {
        let short = s.size(1, 14);
        plan.push(Op::Keys(first_keys.take().expect("keys")));
        plan.push(Op::Enter);
        plan.push(Op::Keys((0..short).map(|i| Key::Ch((b'0' + (i % 10) as u8) as char)).collect()));
        plan.push(Op::Keys(vec![Key::Up]));
        if s.pct(50) {
            plan.push(Op::Keys(screen_keys(s)));
        }
        plan.push(Op::Keys(vec![Key::Down]));
        plan.reverse();
    }
    for _ in 0..n + plan.len() {
        let planned = plan.pop();
        let op = if let Some(op) = planned {
            op
        } else {
            match s.weighted(&[12, if resize { 3 } else { 0 }, 3, if alt && resize { 1 } else { 0 }]) {
            0 => Op::Keys(first_keys.take().unwrap_or_else(|| screen_keys(s))),
            1 => {
                let len = w.get(0).text().len();
                let mut c = if s.pct(25) && len > min_cols {
                    (len + s.usize(8)).saturating_sub(1).clamp(min_cols, 140)
                } else {
                    width(s)
                };
                if c == cols {
                    c += 1;
                }
                Op::Resize(c)
            }
            2 => Op::Enter,
            _ => Op::Tall(s.range(4, 34) as usize),
            }
        };
        let mut w2 = w.clone();
        match &op {
            Op::Keys(k) => {
                w2.keys(0, k);
                if alt && w2.get(0).text().len() / (narrow - 2) + 2 > tall {
                    continue;
                }
            }
            Op::Resize(c) => {
                if alt && w2.get(0).text().len() / (c - 2) + 2 > tall {
                    continue;
                }
                cols = *c;
                narrow = cols;
            }
            Op::Tall(r) => {
                if w2.get(0).text().len() / (narrow - 2) + 2 > *r {
                    continue;
                }
                tall = *r;
            }
            Op::Enter => {
                let t = w2.get(0).text();
                if w2.submit(0, &t) == Want::Anything {
                    continue;
                }
            }
        }
        w = w2;
        ops.push(op);
    }
    ops.push(Op::Enter);
    let t = w.get(0).text();
    if w.submit(0, &t) == Want::Anything {
        ops.pop();
    }
    Screen {
        alt,
        cols: first,
        rows,
        earlier,
        ops,
    }
}

fn pieces(text: &str, cols: usize) -> Vec<String> {
    let w = cols - 2;
    let b = text.as_bytes();
    let mut out = Vec::new();
    let mut i = 0;
    loop {
        let e = (i + w).min(b.len());
        let lead = if i == 0 { "# " } else { "  " };
        out.push(format!("{}{}", lead, String::from_utf8_lossy(&b[i..e])));
        i = e;
        if i >= b.len() {
            return out;
        }
    }
}

/// The rows a line of output takes.
fn output_rows(line: &str, cols: usize) -> Vec<String> {
    let b = line.as_bytes();
    if b.is_empty() {
        return vec![String::new()];
    }
    b.chunks(cols)
        .map(|c| String::from_utf8_lossy(c).to_string())
        .collect()
}

struct Watch {
    /// The rows above the prompt, as they must be.
    done: Vec<String>,
    cols: usize,
}

impl Watch {
    fn rows_above(&self, s: &Session) -> Result<(), String> {
        let p = s.prompt_row();
        if p != self.done.len() {
            return Err(format!(
                "the prompt is in row {}, expected row {}",
                p,
                self.done.len()
            ));
        }
        for (i, want) in self.done.iter().enumerate() {
            let got = s.term.row_str(i);
            if got != want.trim_end() {
                return Err(format!("row {} shows {:?}, expected {:?}", i, got, want));
            }
        }
        Ok(())
    }
    fn below(&self, s: &Session, from: usize) -> Result<(), String> {
        for i in from..s.term.lines.len() {
            if !s.term.row_str(i).is_empty() {
                return Err(format!("row {} shows {:?}, expected nothing", i, s.term.row_str(i)));
            }
        }
        Ok(())
    }
    fn inline(&self, s: &Session, text: &str, cursor: usize) -> Result<(), String> {
        self.rows_above(s)?;
        let p = s.prompt_row();
        if s.term.row != p {
            return Err(format!("the cursor is in row {}, the prompt in row {}", s.term.row, p));
        }
        shows(&s.term.row_str(p), s.term.col, text, cursor, self.cols)?;
        self.below(s, p + 1)
    }
    fn wrapped(&self, s: &Session, text: &str, cursor: usize) -> Result<(), String> {
        self.rows_above(s)?;
        let p = s.prompt_row();
        let rows = pieces(text, self.cols);
        for (i, want) in rows.iter().enumerate() {
            let got = s.term.row_str(p + i);
            if got != want.trim_end() {
                return Err(format!("row {} shows {:?}, expected {:?}", p + i, got, want));
            }
        }
        let w = self.cols - 2;
        let at = (p + cursor / w, 2 + cursor % w);
        if (s.term.row, s.term.col) != at {
            return Err(format!(
                "the cursor is in row {} column {}, expected {:?}",
                s.term.row, s.term.col, at
            ));
        }
        self.below(s, p + rows.len())
    }
}

pub fn screen_run(c: &Screen, obs: &mut Obs) -> Verdict {
    let dir = Scratch::new();
    let mut args = Vec::new();
    if c.alt {
        args.push("-a".to_string());
    }
    let mut s = match Session::spawn(&Opts::args(args).size(c.cols, c.rows), dir.path()) {
        Ok(s) => s,
        Err(e) => return infra(e),
    };
    let mut watch = Watch {
        done: Vec::new(),
        cols: c.cols,
    };
    for i in 0..c.earlier {
        let t = format!("o{}", i % 100);
        s.term.feed(format!("{}\r\n", t).as_bytes());
        watch.done.push(t);
    }
    if c.alt {
        let top = s.term.top;
        watch.done = vec![String::new(); c.earlier - top.min(c.earlier)];
    }
    if let Err(e) = s.wait_prompt() {
        return stop_verdict(&s, e, "start");
    }
    let mut w = World::new(false);
    w.open(0, &Settings::default());
    let mut hid = [false; 3];
    for (n, op) in c.ops.iter().enumerate() {
        let mut resized = false;
        match op {
            Op::Tall(r) => {
                let t = w.get(0).text();
                let last = pieces(&t, watch.cols).len().max(w.get(0).cursor / (watch.cols - 2) + 1);
                let r = (*r).max(s.prompt_row() + last - s.term.top);
                if r != s.term.rows {
                    if let Err(e) = s.resize(watch.cols, r) {
                        return stop_verdict(&s, e, &format!("step {} ({:?})", n + 1, op));
                    }
                    obs.class("height changed");
                }
            }
            Op::Keys(k) => {
                w.keys(0, k);
                s.write(&bytes_of(k));
                obs.count("keys", k.len() as u64);
            }
            Op::Resize(cols) => {
                watch.cols = *cols;
                let rows = s.term.rows;
                if let Err(e) = s.resize(*cols, rows) {
                    return stop_verdict(&s, e, &format!("step {} ({:?})", n + 1, op));
                }
                resized = true;
                obs.count("resizes", 1);
            }
            Op::Enter => {
                let t = w.get(0).text();
                let want = w.submit(0, &t);
                let got = match s.submit(t.len()) {
                    Ok(l) => l.join("\n"),
                    Err(e) => return stop_verdict(&s, e, &format!("step {}: input {:?}", n + 1, clip(&t))),
                };
                tri!(judge(&t, &want, &got));
                let p = pieces(&t, watch.cols);
                obs.class_if(p.len() > 1, "submitted line wraps");
                watch.done.extend(p);
                for l in got.split('\n') {
                    let r = output_rows(l, watch.cols);
                    obs.class_if(r.len() > 1, "answer wraps");
                    watch.done.extend(r);
                }
                obs.class_if(s.term.top > 0, "screen scrolled");
            }
        }
        let (t, cur) = (w.get(0).text(), w.get(0).cursor);
        let check = |s: &Session| {
            if c.alt {
                watch.wrapped(s, &t, cur)
            } else {
                watch.inline(s, &t, cur)
            }
        };
        // What is shown once bcalc waits for the next key.
        let mut r = s.idle();
        if r.is_ok() {
            r = s.wait_until(500, |s| check(s).is_ok());
        }
        match r {
            Ok(()) => {}
            Err(Stop::Stuck) => {
                if let Err(m) = check(&s) {
                    return Verdict::Fail(format!(
                        "step {} ({:?}), editing {:?} at {} in {} columns: {}; screen:\n{}",
                        n + 1,
                        op,
                        clip(&t),
                        cur,
                        watch.cols,
                        m,
                        s.term.dump()
                    ));
                }
            }
            Err(e) => return stop_verdict(&s, e, &format!("step {} ({:?})", n + 1, op)),
        }
        obs.count("screens", 1);
        if c.alt {
            let rows = pieces(&t, watch.cols).len();
            obs.class_if(rows > 1, "edited line wraps");
            obs.nontrivial |= rows > 1 && s.term.top > 0;
        } else {
            let row = s.term.row_str(s.prompt_row());
            hid[0] |= row.starts_with('<');
            hid[1] |= row.ends_with(" >") && t.len() + 2 > watch.cols;
            hid[2] |= resized && !t.is_empty();
        }
    }
    if !c.alt {
        obs.class_if(hid[0], "hidden to the left");
        obs.class_if(hid[1], "hidden to the right");
        obs.class_if(hid[2], "resized while editing");
        obs.nontrivial = hid[0] && hid[1];
    }
    tri!(finish(&mut s));
    Verdict::Pass
}

fn c16() -> Prop {
    prop(
        "C16",
        "exploration",
        "Up to 26 (thorough 80) steps of typing, editing keys, history keys, Control+N, Enter and changes of width (5 to 130, few up to 600 columns) at a prompt somewhere on a screen with earlier lines; after every step the screen of a terminal emulator must show the prompt, a contiguous piece of the model's line with the right marks for hidden text, the cursor on the editing position, and every other row unchanged. Non-trivial: text was hidden on the left and on the right.",
        (6000, 60000),
        |s: &mut Src, t| screen_gen(s, t, false, true, 5),
        screen_run,
    )
}

fn c17_gen(s: &mut Src, thorough: bool) -> Screen {
    let alt = s.pct(65);
    let mut c = screen_gen(s, thorough, alt, true, if alt { 4 } else { 5 });
    // More lines, so that the screen fills.
    if s.pct(60) {
        let n = s.size(1, 12);
        let mut more = Vec::new();
        for _ in 0..n {
            let len = s.size(0, c.cols * 2);
            if c.alt && len / (c.cols - 2) + 2 > c.rows {
                continue;
            }
            let t: Vec<Key> = match s.usize(3) {
                0 => format!("{}", natural(s, 10, len.max(1))).chars().map(Key::Ch).collect(),
                1 => (0..len).map(|i| Key::Ch((b'a' + (i % 26) as u8) as char)).collect(),
                _ => "/help".chars().map(Key::Ch).collect(),
            };
            if c.alt && t.len() / (c.cols - 2) + 2 > c.rows {
                continue;
            }
            more.push(Op::Keys(t));
            more.push(Op::Enter);
        }
        more.extend(std::mem::take(&mut c.ops));
        // History keys further on see other lines now; keep only what still fits.
        let mut w = World::new(false);
        w.open(0, &Settings::default());
        let (mut cols, mut tall) = (c.cols, c.rows);
        for op in more {
            let mut w2 = w.clone();
            let fits = match &op {
                Op::Keys(k) => {
                    w2.keys(0, k);
                    !c.alt || w2.get(0).text().len() / (cols - 2) + 2 <= tall
                }
                Op::Resize(n) => {
                    let ok = *n != cols && (!c.alt || w2.get(0).text().len() / (n - 2) + 2 <= tall);
                    if ok {
                        cols = *n;
                    }
                    ok
                }
                Op::Tall(n) => {
                    let ok = w2.get(0).text().len() / (cols - 2) + 2 <= *n;
                    if ok {
                        tall = *n;
                    }
                    ok
                }
                Op::Enter => {
                    let t = w2.get(0).text();
                    w2.submit(0, &t) != Want::Anything
                }
            };
            if fits {
                w = w2;
                c.ops.push(op);
            }
        }
    }
    c
}

fn c17() -> Prop {
    prop(
        "C17",
        "exploration",
        "As C16, two thirds of the cases in the alternate screen (4 to 130, few up to 600 columns, 4 to 34 rows, sometimes changed), with additional long lines, long answers and multi-line help so that lines wrap and the screen fills; every row ever shown above the prompt must be exactly the earlier lines, wrapped submitted lines and answers, and in the alternate screen the line being edited must be shown completely, wrapped, with the cursor on the editing position. Lines longer than the alternate screen are left out. Non-trivial: a line being edited wraps in the alternate screen after the screen has scrolled, or (inline) text was hidden on both sides before the line was submitted.",
        (5000, 50000),
        c17_gen,
        screen_run,
    )
}

// ---------------------------------------------------------------- C18

fn c18_keys(s: &mut Src) -> Vec<Key> {
    let n = s.size(1, 10);
    let mut k = Vec::new();
    for _ in 0..n {
        match s.weighted(&[6, 4, 5, 3]) {
            0 => {
                let n = if s.pct(2) { s.size(1, 300) } else { s.size(1, 5) };
                k.extend(std::iter::repeat(Key::Up).take(n));
            }
            1 => {
                let n = s.size(1, 5);
                k.extend(std::iter::repeat(Key::Down).take(n));
                if s.pct(20) {
                    for _ in 0..s.size(1, 4) {
                        k.push(Key::Same(s.usize(SAME.len())));
                    }
                }
            }
            2 => {
                let t = match s.usize(3) {
                    0 => natural(s, 10, 4).to_string(),
                    1 => (*s.pick(&["+1", " ", "*2", "x", "$x", "-3"])).to_string(),
                    _ => printable(s, 5),
                };
                k.extend(t.chars().map(Key::Ch));
            }
            _ => {
                let n = s.size(1, 4);
                let e = match s.usize(6) {
                    0 => Key::Back,
                    1 => Key::Del,
                    2 => Key::Left,
                    3 => Key::Home,
                    4 => Key::LeftFar(false),
                    _ => Key::Back,
                };
                k.extend(std::iter::repeat(e).take(n));
            }
        }
    }
    k
}

fn c18_gen(s: &mut Src, thorough: bool) -> Story {
    let db = s.pct(35);
    let mut w = World::new(db);
    let mut steps = Vec::new();
    push_step(&mut steps, &mut w, Step::Open { s: 0, flags: Settings::default() });
    if db && s.pct(60) {
        // Lines from an earlier session.
        let n = s.size(1, 4);
        for i in 0..n {
            push(&mut steps, &mut w, 0, format!("{}{}", i, i));
        }
        push_step(&mut steps, &mut w, Step::Close { s: 0, key: 0 });
        push_step(&mut steps, &mut w, Step::Open { s: 0, flags: Settings::default() });
    }
    let n = s.range(2, if thorough { 30 } else { 12 });
    if s.pct(2) {
        // Many.
        for i in 0..s.range(20, 300) {
            push(&mut steps, &mut w, 0, i.to_string());
        }
    }
    for i in 0..n {
        if s.pct(30) {
            let t = match s.usize(3) {
                0 => format!("{} + {}", i, s.range(0, 9)),
                1 => String::new(),
                _ => printable(s, 8),
            };
            push(&mut steps, &mut w, 0, t);
        } else {
            let keys = c18_keys(s);
            push_step(&mut steps, &mut w, Step::Keys { s: 0, keys });
        }
        if s.pct(10) {
            push_step(&mut steps, &mut w, Step::Recall { s: 0 });
        }
    }
    push_step(&mut steps, &mut w, Step::Recall { s: 0 });
    Story {
        store: if db { Store::On } else { Store::NoVar },
        alt: false,
        cols: 400,
        rows: 60,
        steps,
        resizes: Vec::new(),
        env: Vec::new(),
    }
}

fn c18() -> Prop {
    prop(
        "C18",
        "exploration",
        "Up to 12 (thorough 30; some after up to 300 others) submissions, typed or made by Up/Down moves mixed with edits of recalled lines (also beyond both ends), a third of the sessions with stored lines of an earlier session; every submitted line is compared with the model as echoed and by its answer, and the whole history is walked with Up and back with Down at the end and in between, comparing every line shown and the cursor. Non-trivial: a recalled line was edited, left and another line submitted.",
        (12000, 120000),
        c18_gen,
        |c: &Story, obs| {
            let dir = Scratch::new();
            play_story(c, dir.path(), dir.path(), obs, |e, obs| {
                if let Step::Keys { keys, .. } = e.step {
                    let mut w = e.before.clone();
                    let mut edited = std::collections::BTreeSet::new();
                    for k in keys {
                        let i = w.get(0).idx;
                        let t = w.get(0).text();
                        w.key(0, k);
                        if w.get(0).idx == i && w.get(0).text() != t && i > 0 {
                            edited.insert(i);
                        }
                        obs.class_if(*k == Key::Up && w.get(0).idx == i, "Up beyond the oldest");
                        obs.class_if(*k == Key::Down && i == 0, "Down beyond the newest");
                    }
                    let at = w.get(0).idx;
                    obs.class_if(edited.contains(&at), "submitted an edited entry");
                    if edited.iter().any(|i| *i != at) {
                        obs.nontrivial = true;
                    }
                }
                echoed(e)
            })
        },
    )
}

// ---------------------------------------------------------------- C27

#[derive(Clone, Debug, Serialize, Deserialize)]
enum Exit {
    Key(u8),
    /// The window becomes too narrow.
    Narrow(usize),
    /// The data directory doesn't exist.
    NoDirectory,
    /// The database file isn't one.
    Corrupt,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Leave {
    alt: bool,
    db: bool,
    cols: usize,
    rows: usize,
    earlier: usize,
    lines: Vec<String>,
    /// Pressed before leaving.
    keys: Vec<Key>,
    exit: Exit,
}

fn c27_gen(s: &mut Src, _: bool) -> Leave {
    let alt = s.pct(50);
    let db = s.pct(60);
    let rows = s.range(4, 40) as usize;
    let cols = s.range(12, 120) as usize;
    let mut w = World::new(db);
    let mut steps = Vec::new();
    w.open(0, &Settings::default());
    let names = vec!["$x".to_string(), "$y".to_string()];
    let n = s.size(0, 4);
    for _ in 0..n {
        let t = match s.usize(4) {
            0 => assign_line(s, &w, 0, &names, 4),
            1 => expr_line(s, &w, 0, 2, 4),
            2 => setting_line(s),
            _ => fail_line(s, &w, 0, &names, &["$unset".to_string()]),
        };
        push(&mut steps, &mut w, 0, t);
    }
    let mut keys = match s.weighted(&[2, 3, 2, 2]) {
        0 => Vec::new(),
        1 => format!("{} = {}", s.pick(&names), s.range(100, 999)).chars().map(Key::Ch).collect(),
        2 => key_seq(s, 10),
        _ => c18_keys(s),
    };
    if s.pct(20) {
        keys.push(Key::Home);
    }
    keys.truncate(60);
    let exit = match s.weighted(&[12, 3, 1, 1]) {
        0 => Exit::Key(s.usize(3) as u8),
        1 => Exit::Narrow(if alt { s.range(1, 2) } else { s.range(1, 4) } as usize),
        2 => Exit::NoDirectory,
        _ => Exit::Corrupt,
    };
    let lines = steps
        .into_iter()
        .filter_map(|st| match st {
            Step::Line { text, .. } => Some(text),
            _ => None,
        })
        .collect();
    Leave {
        alt,
        db,
        cols,
        rows,
        earlier: s.usize(rows * 2),
        lines,
        keys,
        exit,
    }
}

fn c27_run(c: &Leave, obs: &mut Obs) -> Verdict {
    let dir = Scratch::new();
    let root = dir.path().join("data");
    let missing = matches!(c.exit, Exit::NoDirectory);
    let corrupt = matches!(c.exit, Exit::Corrupt);
    let db = c.db || missing || corrupt;
    if !missing {
        let made = std::fs::create_dir(&root).and_then(|()| {
            if corrupt {
                std::fs::create_dir(root.join("bcalc"))?;
                std::fs::write(root.join("bcalc/saved_data.sqlite"), vec![b'x'; 5000])?;
            }
            Ok(())
        });
        if let Err(e) = made {
            return Verdict::Infra(e.to_string());
        }
    }
    let mut o = Opts::args(if c.alt { vec!["-a".into()] } else { vec![] }).size(c.cols, c.rows);
    if db {
        o = o.db(&root);
    }
    let mut s = match Session::spawn(&o, dir.path()) {
        Ok(s) => s,
        Err(e) => return infra(e),
    };
    let mut old = Vec::new();
    for i in 0..c.earlier {
        let t = format!("o{}", i % 100);
        s.term.feed(format!("{}\r\n", t).as_bytes());
        old.push(t);
    }
    let raw_seen = |s: &Session| s.termios_now() != s.termios_before;
    // After the end, whatever ended it.
    let restored = |s: &Session, what: &str| -> Result<(), Verdict> {
        if s.termios_now() != s.termios_before {
            return Err(Verdict::Fail(format!(
                "{}: the terminal modes are not restored: {:?} before, {:?} after",
                what,
                s.termios_before,
                s.termios_now()
            )));
        }
        if s.term.alt || s.term.alt_entered != s.term.alt_left {
            return Err(Verdict::Fail(format!("{}: the alternate screen was not left", what)));
        }
        let modes = s.term.changed_modes();
        if !modes.is_empty() {
            return Err(Verdict::Fail(format!("{}: terminal modes are left changed: {:?}", what, modes)));
        }
        for (i, t) in old.iter().enumerate() {
            if s.term.row_str(i) != *t {
                return Err(Verdict::Fail(format!(
                    "{}: row {} shows {:?} instead of {:?}",
                    what,
                    i,
                    s.term.row_str(i),
                    t
                )));
            }
        }
        Ok(())
    };
    if missing || corrupt {
        let what = "starting without a usable database";
        return match s.wait_prompt() {
            Ok(()) => Verdict::Fail(format!("{}: bcalc started", what)),
            Err(Stop::Ended(End::Exit(n))) if n != 0 && n != 101 && !s.stderr.is_empty() => {
                tri!(restored(&s, what));
                obs.class("start fails");
                obs.class_if(c.alt, "alternate screen");
                obs.nontrivial = true;
                Verdict::Pass
            }
            Err(e) => stop_verdict(&s, e, what),
        };
    }
    if let Err(e) = s.wait_prompt() {
        return stop_verdict(&s, e, "start");
    }
    let mut w = World::new(db);
    w.open(0, &Settings::default());
    for l in &c.lines {
        let want = w.submit(0, l);
        let got = get!(ask(&mut s, l));
        tri!(judge(l, &want, &got));
    }
    if !raw_seen(&s) {
        return Verdict::Fail("the terminal is not in raw mode at the prompt".into());
    }
    let prompt = s.prompt_row();
    s.write(&bytes_of(&c.keys));
    w.keys(0, &c.keys);
    let text = w.get(0).text();
    match &c.exit {
        Exit::Key(k) => {
            obs.class(["Control+D", "Control+C", "Control+Z"][*k as usize % 3]);
            tri!(end_with(&mut s, *k));
            tri!(restored(&s, "after the exit key"));
            if !s.stderr.is_empty() {
                return Verdict::Fail(format!("exit key: standard error {:?}", s.stderr_str()));
            }
            if !c.alt {
                // Nothing was answered: below the line there is nothing.
                for i in prompt + 1..s.term.lines.len() {
                    if !s.term.row_str(i).is_empty() {
                        return Verdict::Fail(format!(
                            "exit key: row {} shows {:?}; screen:\n{}",
                            i,
                            s.term.row_str(i),
                            s.term.dump()
                        ));
                    }
                }
            }
        }
        Exit::Narrow(n) => {
            obs.class("window too narrow");
            match s.settle(|_| false) {
                Ok(_) => {}
                Err(e) => return stop_verdict(&s, e, "keys"),
            }
            match s.resize(*n, c.rows) {
                Ok(()) | Err(Stop::Ended(_)) => {}
                Err(e) => return stop_verdict(&s, e, "resize"),
            }
            match s.wait_exit() {
                Ok(End::Exit(n)) if n != 0 && n != 101 && !s.stderr.is_empty() => {}
                Ok(e) => {
                    return Verdict::Fail(format!(
                        "a window of {} columns: {}; standard error {:?}",
                        n,
                        e,
                        s.stderr_str()
                    ))
                }
                Err(e) => return stop_verdict(&s, e, &format!("a window of {} columns", n)),
            }
            if s.termios_now() != s.termios_before {
                return Verdict::Fail("after an error the terminal modes are not restored".into());
            }
            if s.term.alt || s.term.alt_entered != s.term.alt_left {
                return Verdict::Fail("after an error the alternate screen was not left".into());
            }
            let modes = s.term.changed_modes();
            if !modes.is_empty() {
                return Verdict::Fail(format!("after an error terminal modes are left changed: {:?}", modes));
            }
        }
        _ => {}
    }
    if (s.term.alt_entered > 0) != c.alt {
        return Verdict::Fail("the alternate screen was entered without being asked for, or not".into());
    }
    drop(s);
    // The unsubmitted line left no trace.
    if db {
        w.sess[0] = None;
        w.open(1, &Settings::default());
        let mut s2 = get!(start(&Opts::new(&[]).db(&root), dir.path()));
        if let Err(v) = recall(&mut s2, &mut w, 1) {
            return v;
        }
        for n in ["$x", "$y"] {
            let want = w.submit(1, n);
            let got = get!(ask(&mut s2, n));
            tri!(judge(n, &want, &got));
        }
        tri!(finish(&mut s2));
        obs.class("database");
    }
    obs.class_if(c.alt, "alternate screen");
    obs.class_if(!text.is_empty(), "something on the line");
    obs.nontrivial = !text.is_empty();
    Verdict::Pass
}

fn c27() -> Prop {
    prop(
        "C27",
        "exploration",
        "Sessions of up to 4 lines in random windows, inline and in the alternate screen, with and without a database, then random keys on the line, then Control+D, C or Z, or an error (window made too narrow, data directory missing, file that is no database); the exit status, the terminal attributes read from the pty, the modes set by escape sequences, the alternate screen, the rows from before the start and the absence of an answer are checked, and a later session must not know the unsubmitted line. Non-trivial: something was on the line, or the start failed.",
        (6000, 60000),
        c27_gen,
        c27_run,
    )
}

pub fn all() -> Vec<Prop> {
    vec![c14(), c15(), c16(), c17(), c18(), c27()]
}
