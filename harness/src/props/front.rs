//! C09-C13, C28, C29: answering, settings, modes, session variables, errors, commands.

use super::common::*;
use crate::choice::{hash_str, Src};
use crate::engine::*;
use crate::gen::*;
use crate::model::*;
use crate::play::*;
use crate::proc::*;
use crate::runner::*;
use crate::spec::*;
use serde::{Deserialize, Serialize};
use std::collections::{BTreeMap, HashMap};
use std::path::Path;

// ---------------------------------------------------------------- C09

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Anything {
    /// Settings flags; None: refused flags, in `raw`.
    flags: Option<Settings>,
    short: bool,
    raw: Vec<String>,
    alt: bool,
    cols: usize,
    rows: usize,
    one_shot: bool,
    /// With a database.
    #[serde(default)]
    db: bool,
    lines: Vec<String>,
}

/// Flags in their short or long spelling.
pub fn spelled(set: &Settings, short: bool) -> Vec<String> {
    set.flags()
        .into_iter()
        .map(|f| {
            if !short {
                return f;
            }
            match f.as_str() {
                "--radix" => "-r".into(),
                "--precision" => "-p".into(),
                "--fractional" => "-f".into(),
                "--commas" => "-c".into(),
                "--upper" => "-u".into(),
                _ => f,
            }
        })
        .collect()
}

fn extreme_settings(s: &mut Src) -> Settings {
    let mut d = settings(s);
    if s.pct(35) {
        d.precision = *s.pick(&[0u8, 1, 254, 255, 128, 200]);
    }
    if s.pct(35) {
        d.extra = *s.pick(&[0u8, 1, 254, 255, 128, 10]);
    }
    if s.pct(30) {
        d.radix = *s.pick(&[2u8, 16, 10, 11]);
    }
    if s.pct(30) {
        d.convert = Some(*s.pick(&[2u8, 16, 10, 11]));
    }
    d
}

/// Can this be evaluated with a bounded amount of work? Roots to many digits are slow.
fn cheap(text: &str, m: &Sess) -> bool {
    let total = usize::from(m.set.precision) + usize::from(m.set.extra);
    let toks = match lex(text, m.set.radix) {
        Some(Lexed::Toks(t)) => t,
        _ => return true,
    };
    if toks.len() > 400 {
        return false;
    }
    if total > 120 {
        let roots = toks
            .iter()
            .filter(|t| matches!(t, Tok::Sqrt | Tok::Op('^')))
            .count();
        if roots > 1 || (roots == 1 && text.len() > 40) {
            return false;
        }
    }
    true
}

fn wild_text(s: &mut Src, one_shot: bool, max: usize) -> String {
    let n = s.size(0, max);
    (0..n)
        .map(|_| match s.weighted(&[6, 4, if one_shot { 2 } else { 0 }]) {
            0 => *s.pick(b"0123456789+-*/%^()=,$x. _abf") as char,
            1 => (0x20 + s.below(0x5f) as u8) as char,
            _ => *s.pick(&[
                '\t', '\n', '\r', '\u{1}', '\u{7f}', '\u{b}', '\u{a0}', 'é', 'ß', '→', '√', '×', '½',
                '٣', '\u{1f600}', '\u{301}', '\u{feff}', 'K', 'ſ', '\u{2028}', '－',
            ]),
        })
        .collect()
}

/// A long word somewhere in a long line.
fn long_word(s: &mut Src) -> String {
    let n = s.size(1, 180);
    let w: String = match s.usize(4) {
        0 => (*s.pick(&["z", "x.", "1.", "_", "9g", "$v", "sqrt", "'", "~"])).repeat(n).chars().take(n).collect(),
        1 => (0..n).map(|_| *s.pick(b"abcxyz019_.$") as char).collect(),
        2 => (0..n).map(|_| *s.pick(b"0123456789abcdef") as char).collect(),
        _ => (0..n).map(|_| *s.pick(b"01") as char).collect(),
    };
    let pre = s.pick(&["1+", "1 - ", "(", "-", " ", "abs ", "max(1,"]).repeat(s.size(0, 60));
    let post = s.pick(&["+1", ")", " ", " = 1"]).repeat(s.size(0, 20));
    let mut t = format!("{}{}{}", pre, w, post);
    t.truncate(360);
    t
}

fn deep(s: &mut Src) -> String {
    let n = s.size(10, 190);
    let t = match s.usize(8) {
        0 => format!("{}1{}", "(".repeat(n), ")".repeat(n)),
        1 => format!("{}1", "-".repeat(n)),
        2 => vec!["1"; n].join(*s.pick(&["+", "-", "*", "/", "%", "^"])),
        3 => format!("{} 1", vec!["abs"; n / 2].join(" ")),
        4 => format!("max({})", vec!["2"; n].join(",")),
        5 => format!("{}1{}", "max(".repeat(n / 2), ")".repeat(n / 2)),
        6 => "(".repeat(n),
        _ => ")".repeat(n),
    };
    let mut t = t;
    if s.pct(20) {
        let cut = s.usize(t.len() + 1);
        t.truncate(cut);
    }
    t
}

/// A command with one or two characters after it, or only these.
fn tiny(s: &mut Src, names: &[String]) -> String {
    let n = s.size(0, 2);
    let t: String = (0..n).map(|_| (0x20 + s.below(0x5f) as u8) as char).collect();
    match s.usize(6) {
        0 => t,
        1 => format!("/{} {} {}", s.pick(&["purgevar", "reloadvar"]), t, s.pick(names)),
        2 => format!("/{} {}", s.pick(&["purgevar", "reloadvar"]), t),
        _ => {
            let c = s.pick(COMMANDS);
            let mut all = vec![c.0];
            all.extend(c.1);
            format!("/{} {}", s.pick(&all), t)
        }
    }
}

fn any_line(s: &mut Src, w: &World, i: usize, names: &[String], one_shot: bool) -> String {
    let unset = unset_names(names);
    match s.weighted(&[8, 8, 4, 5, 3, 3, 4, 3, 3, 1, 5, 3]) {
        0 => {
            let d = s.usize(5);
            expr_line(s, w, i, d, 20)
        }
        1 => wild_text(s, one_shot, if one_shot { 400 } else { 120 }),
        2 => garbage(s, w, i, 60),
        3 => fail_line(s, w, i, names, &unset),
        4 => setting_line(s),
        5 => bad_setting_line(s),
        6 => assign_line(s, w, i, names, 12),
        7 => {
            // Roots, also of awkward numbers.
            let r = w.get(i).set.radix;
            let v = lit_value(s, r, 6);
            let v = lit_text(&v, r, None);
            let d = lit_text(&q(s.range(2, 9)), r.max(10), None);
            match s.usize(4) {
                0 => format!("sqrt {}", v),
                1 => format!("({})^(1/{})", v, d),
                2 => format!("({})^(0-1/{})", v, d),
                _ => format!("sqrt({})*sqrt({})", v, v),
            }
        }
        8 => deep(s),
        9 => var_cmd(s, names, true),
        11 => long_word(s),
        _ => format!("/{}{}", command_word(s), command_args(s, names, one_shot)),
    }
}

fn c09_gen(s: &mut Src, thorough: bool) -> Anything {
    let one_shot = s.pct(45);
    let mut c = Anything {
        flags: Some(extreme_settings(s)),
        short: s.pct(50),
        raw: Vec::new(),
        alt: false,
        cols: 400,
        rows: 60,
        one_shot,
        db: !one_shot && s.pct(35),
        lines: Vec::new(),
    };
    if one_shot && s.pct(4) {
        c.flags = None;
        c.raw = match s.usize(5) {
            0 => vec!["--radix".into(), (*s.pick(&["0", "1", "17", "256", "x", ""])).into()],
            1 => vec!["--convert-to-radix".into(), (*s.pick(&["0", "1", "17", "256", "none"])).into()],
            2 => vec!["--precision".into(), (*s.pick(&["256", "1.5", "x", "1000"])).into()],
            3 => vec!["--extra-precision".into(), (*s.pick(&["256", "x"])).into()],
            _ => vec!["--bogus".into()],
        };
        c.lines = vec!["1".into()];
        return c;
    }
    if !one_shot {
        c.alt = s.pct(30);
        if s.pct(50) {
            c.cols = s.range(10, 120) as usize;
            c.rows = s.range(5, 40) as usize;
        }
    }
    let set = c.flags.clone().unwrap_or_default();
    let names = names(s, 1, 3);
    let mut w = World::new(c.db);
    w.open(0, &set);
    let tinies = !one_shot && s.pct(10);
    let n = if tinies { s.range(20, 80) as usize } else { s.size(1, if thorough { 30 } else { 14 }) };
    for _ in 0..n {
        if one_shot {
            w.open(0, &set);
        }
        let mut t = if tinies {
            tiny(s, &names)
        } else {
            any_line(s, &w, 0, &names, one_shot)
        };
        if one_shot && s.pct(3) {
            t = wild_text(s, true, 3000);
        }
        if !cheap(&t, w.get(0)) {
            continue;
        }
        let st = Step::Line { s: 0, text: t.clone() };
        if w.try_step(&st).is_some() {
            c.lines.push(t);
        }
    }
    c
}

fn c09_run(c: &Anything, obs: &mut Obs) -> Verdict {
    let dir = Scratch::new();
    let set = match &c.flags {
        Some(f) => f,
        None => {
            let mut a = c.raw.clone();
            a.push("--input=1".into());
            let o = match one_shot(&a, &[], dir.path()) {
                Ok(o) => o,
                Err(e) => return infra(e),
            };
            obs.class("refused flags");
            obs.nontrivial = true;
            return match o.end {
                End::Exit(n) if n != 0 && n != 101 && o.out.is_empty() && !o.err.is_empty() => {
                    Verdict::Pass
                }
                _ => Verdict::Fail(format!(
                    "flags {:?}: expected a refusal, got {}; standard output {:?}, standard error {:?}",
                    c.raw, o.end, clip(&o.out), clip(&o.err)
                )),
            };
        }
    };
    let flags = spelled(set, c.short);
    let mut answers = Vec::new();
    if c.one_shot {
        for l in &c.lines {
            answers.push(either(get!(one(l, &flags, dir.path()))));
            obs.count("one-shot inputs", 1);
        }
    } else {
        let mut a = flags.clone();
        if !c.db {
            a.push("--no-db".into());
        }
        if c.alt {
            a.push("-a".into());
        }
        let mut o = Opts::args(a).size(c.cols, c.rows);
        if c.db {
            o = o.db(dir.path());
        }
        let mut s = get!(start(&o, dir.path()));
        for l in &c.lines {
            let got = get!(ask(&mut s, l));
            if got.starts_with("Runtime Error") {
                return Verdict::Fail(format!("input {:?} was answered {:?}", clip(l), clip(&got)));
            }
            obs.count("inputs", 1);
            answers.push(got);
        }
        // It is still usable.
        let got = get!(ask(&mut s, "1"));
        if got != "1" {
            return Verdict::Fail(format!("after these lines, input \"1\" was answered {:?}", clip(&got)));
        }
        tri!(finish(&mut s));
    }
    let errors = answers.iter().filter(|a| is_error(a)).count();
    obs.class_if(errors > 0, "errors");
    obs.class_if(errors < answers.len(), "values and messages");
    obs.class_if(c.one_shot, "one-shot");
    obs.class_if(c.alt, "alternate screen");
    obs.class_if(c.db, "database");
    obs.class_if(u16::from(set.precision) + u16::from(set.extra) > 255, "precision sum above 255");
    obs.class_if(c.lines.iter().any(|l| !l.is_ascii()), "not ASCII");
    obs.class_if(c.lines.iter().any(|l| l.len() > 300), "long line");
    obs.nontrivial = errors > 0 || c.lines.iter().any(|l| l.len() > 25);
    Verdict::Pass
}

fn c09() -> Prop {
    prop(
        "C09",
        "exploration",
        "Sessions of up to 14 lines (thorough 30), or one-shot runs, of expressions, roots, random text (one-shot: any Unicode text), token soup, failing inputs, commands with good and bad arguments, and nesting up to 190 deep, under random and extreme flags, both display modes, window sizes, with and without a database; inputs of more than 400 tokens, or whose result the reference finds unboundedly large, are left out. Each must be answered, without a runtime error, and the session must answer '1' afterwards. Non-trivial: some input was answered with an error or has more than 25 characters.",
        (9000, 90000),
        c09_gen,
        c09_run,
    )
}

// ---------------------------------------------------------------- C10

fn plain_story(steps: Vec<Step>, store: Store) -> Story {
    Story {
        store,
        alt: false,
        cols: 400,
        rows: 60,
        steps,
        resizes: Vec::new(),
        env: Vec::new(),
    }
}

fn c10_gen(s: &mut Src, thorough: bool) -> Story {
    let mut w = World::new(false);
    let mut steps = Vec::new();
    let set = if s.pct(50) { settings(s) } else { Settings::default() };
    push_step(&mut steps, &mut w, Step::Open { s: 0, flags: set });
    let n = s.range(6, if thorough { 40 } else { 20 }) as usize;
    for _ in 0..n {
        let t = match s.weighted(&[10, 6, 6, 2]) {
            0 => setting_line(s),
            1 => bad_setting_line(s),
            2 => {
                let d = s.usize(3);
                expr_line(s, &w, 0, d, 9)
            }
            _ => "sqrt 2".into(),
        };
        push(&mut steps, &mut w, 0, t);
        if s.pct(12) {
            for q in ["/radix", "/converttoradix", "/precision", "/fractional", "/commas", "/upper"] {
                push(&mut steps, &mut w, 0, q.into());
            }
        }
    }
    for q in ["/r", "/converttoradix", "/p", "/f", "/comma", "/upper"] {
        push(&mut steps, &mut w, 0, q.into());
    }
    plain_story(steps, Store::NoVar)
}

fn c10() -> Prop {
    prop(
        "C10",
        "exploration",
        "Sessions of up to 16 (thorough 40) settings commands with valid, invalid and no values, written with aliases, case, leading zeros, underscores and blanks, between expressions; every answer is compared with the settings model and the reference formatter, and all settings are read back at the end. Non-trivial: at least two accepted changes and one refused, and an expression answered after them.",
        (8000, 80000),
        c10_gen,
        |c: &Story, obs| {
            let dir = Scratch::new();
            let (mut ok, mut bad, mut after) = (0, 0, 0);
            let v = play_story(c, dir.path(), dir.path(), obs, |e, obs| {
                let cmd = e.text.trim_start().starts_with('/');
                let changed = e.before.get(0).set != e.after.get(0).set;
                if changed {
                    ok += 1;
                    obs.class(&format!(
                        "changed by {}",
                        e.text.trim_start().split(' ').next().unwrap_or("")
                    ));
                } else if cmd && is_error(e.got) {
                    bad += 1;
                } else if !cmd && ok > 1 && bad > 0 {
                    after += 1;
                }
                Ok(())
            });
            obs.nontrivial = after > 0;
            v
        },
    )
}

// ---------------------------------------------------------------- C11

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Modes {
    set: Settings,
    short: bool,
    /// Order in which the commands are given.
    order: Vec<usize>,
    cols: usize,
    rows: usize,
    lines: Vec<String>,
}

fn as_commands(set: &Settings, order: &[usize]) -> Vec<String> {
    let all = [
        format!("/radix {}", set.radix),
        match set.convert {
            None => "/converttoradix none".into(),
            Some(c) => format!("/converttoradix {}", c),
        },
        format!("/precision {} {}", set.precision, set.extra),
        format!("/fractional {}", set.fractional),
        format!("/commas {}", set.commas),
        format!("/upper {}", set.upper),
    ];
    order.iter().map(|i| all[*i].clone()).collect()
}

fn c11_gen(s: &mut Src, _: bool) -> Modes {
    let set = settings(s);
    let mut order: Vec<usize> = (0..6).collect();
    for i in 0..6 {
        let j = i + s.usize(6 - i);
        order.swap(i, j);
    }
    let mut w = World::new(false);
    w.open(0, &set);
    let mut lines = Vec::new();
    let n = s.size(1, 8);
    let unset = vec!["$unset".to_string()];
    for _ in 0..n {
        let t = match s.weighted(&[10, 3, 3, 3, 2]) {
            0 => {
                let d = s.usize(5);
                expr_line(s, &w, 0, d, 14)
            }
            1 => {
                let mut cfg = ExprCfg::new(set.radix);
                cfg.roots = true;
                cfg.depth = s.usize(3);
                if s.pct(40) {
                    // A root of which further digits are seen.
                    let n = *s.pick(&["10", "11", "101", "110", "1011"]);
                    let k = "0".repeat(s.size(1, 8));
                    match s.usize(3) {
                        0 => format!("sqrt({})*1{}", n, k),
                        1 => format!("{}^(1/11)*1{}", n, k),
                        _ => format!("1{}*(sqrt {})", k, n),
                    }
                } else {
                    let (a, _) = decided(s, &cfg, &set, None);
                    fits(write(&a, set.radix, s))
                }
            }
            2 => garbage(s, &w, 0, 40),
            3 => fail_line(s, &w, 0, &["$y".to_string()], &unset),
            _ => {
                let t = (*s.pick(&[
                    "/radix", "/r", "/p", "/precision", "/f", "/fractional", "/commas", "/upper",
                    "/converttoradix", "/help radix", "/help p", "/x", "/", "/help nope", "/help f", "/h help",
                ]))
                .to_string();
                if s.pct(20) {
                    bad_setting_line(s)
                } else {
                    t
                }
            }
        };
        // Without variables, and with nothing that changes the settings.
        if t.contains('$') {
            continue;
        }
        // The reference tells what it costs; it has no say on the answer here.
        let mut after = w.clone();
        match after.submit(0, &t) {
            Want::Anything => continue,
            _ => {}
        }
        if after.get(0).set != set || is_capability(&t) {
            continue;
        }
        lines.push(t);
    }
    // What the flags have set.
    lines.push((*s.pick(&["/radix", "/converttoradix", "/precision", "/fractional", "/commas", "/upper"])).to_string());
    Modes {
        set,
        short: s.pct(50),
        order,
        cols: if s.pct(50) { 400 } else { s.range(8, 90) as usize },
        rows: s.range(6, 60) as usize,
        lines,
    }
}

/// Commands whose answer depends on the mode, as documented.
fn is_capability(t: &str) -> bool {
    let t = t.trim_start();
    let w: Vec<&str> = t.split_ascii_whitespace().collect();
    let cmd = w.first().copied().unwrap_or("");
    matches!(cmd, "/histcap" | "/reloadvar" | "/purgevar")
        || ((cmd == "/help" || cmd == "/h")
            && (w.len() < 2 || matches!(w[1], "histcap" | "reloadvar" | "purgevar")))
}

fn c11_run(c: &Modes, obs: &mut Obs) -> Verdict {
    let dir = Scratch::new();
    let flags = spelled(&c.set, c.short);
    let mut ref_answers = Vec::new();
    for l in &c.lines {
        ref_answers.push(either(get!(one(l, &flags, dir.path()))));
    }
    let with = |extra: &[&str]| {
        let mut a = flags.clone();
        a.extend(extra.iter().map(|s| s.to_string()));
        a
    };
    let runs: Vec<(&str, Vec<String>, Vec<String>, (usize, usize))> = vec![
        ("typed at the prompt", with(&["--no-db"]), vec![], (400, 60)),
        ("typed in the alternate screen", with(&["-a"]), vec![], (c.cols, c.rows)),
        (
            "typed after settings commands",
            vec!["--no-db".into()],
            as_commands(&c.set, &c.order),
            (400, 60),
        ),
    ];
    for (how, args, first, (cols, rows)) in runs {
        let mut s = get!(start(&Opts::args(args).size(cols, rows), dir.path()));
        for l in &first {
            let a = get!(ask(&mut s, l));
            if a != "Done" {
                return Verdict::Fail(format!("{:?} was answered {:?}", l, clip(&a)));
            }
        }
        for (l, want) in c.lines.iter().zip(&ref_answers) {
            let got = get!(ask(&mut s, l));
            if got != *want {
                return Verdict::Fail(format!(
                    "input {:?} {} (flags {:?}) was answered {:?}; through --input {:?}",
                    clip(l), how, flags, clip(&got), clip(want)
                ));
            }
            obs.count("comparisons", 1);
        }
        tri!(finish(&mut s));
    }
    obs.class_if(ref_answers.iter().any(|a| is_error(a)), "errors");
    obs.class_if(c.set.convert.is_some(), "output radix");
    obs.class_if(ref_answers.iter().any(|a| a.contains('\n')), "several lines");
    obs.nontrivial = c.set != Settings::default() && ref_answers.iter().any(|a| !is_error(a) && a.len() > 3);
    Verdict::Pass
}

fn c11() -> Prop {
    prop(
        "C11",
        "exploration",
        "Random settings and up to 8 inputs without variables (expressions, roots, malformed text, queries, help); each is answered through --input, at the prompt, in an alternate screen of random size, and in a session whose settings were given as commands in random order instead of flags; all four answers must be the same text. Non-trivial: some setting differs from the default and some answer is a value of more than 3 characters.",
        (2500, 25000),
        c11_gen,
        c11_run,
    )
}

// ---------------------------------------------------------------- C12

fn c12_gen(s: &mut Src, thorough: bool) -> Story {
    let mut w = World::new(false);
    let mut steps = Vec::new();
    let set = if s.pct(40) { settings(s) } else { Settings::default() };
    push_step(&mut steps, &mut w, Step::Open { s: 0, flags: set });
    let mut names = names(s, 1, 6);
    if s.pct(40) {
        // Names that differ little.
        let b = names[0].clone();
        for v in [b.to_uppercase(), b.to_lowercase(), format!("{}_", b), format!("{}{}", b, b)] {
            if !names.contains(&v) {
                names.push(v);
            }
        }
    }
    let unset = unset_names(&names);
    if s.pct(2) {
        // Very many.
        let n = s.range(20, if thorough { 600 } else { 150 });
        for k in 0..n {
            let t = format!("$n{}{}={}", k, s.pick(&["", "x", "_"]), s.range(-9, 99));
            names.push(t[..t.find('=').unwrap()].to_string());
            push(&mut steps, &mut w, 0, t);
        }
    }
    let n = s.size(3, if thorough { 50 } else { 20 });
    for _ in 0..n {
        let t = match s.weighted(&[9, 8, 4, 3, 2, 2, 2]) {
            0 => assign_line(s, &w, 0, &names, 12),
            1 => use_line(s, &names),
            2 => setting_line(s),
            3 => {
                let d = s.usize(4);
                expr_line(s, &w, 0, d, 6)
            }
            4 => var_cmd(s, &names, false),
            5 => format!("{} = sqrt {}", s.pick(&names), s.pick(&["2", "3", "11"])),
            _ => fail_line(s, &w, 0, &names, &unset),
        };
        push(&mut steps, &mut w, 0, t);
    }
    probe(&mut steps, &mut w, 0, &names, false);
    plain_story(steps, Store::NoVar)
}

/// Tracks the exact values printed for names: a name shows one value until it is assigned.
#[derive(Default)]
struct Shown(HashMap<String, Q>);

impl Shown {
    fn look(&mut self, e: &Ev) -> Result<(), String> {
        let set = &e.before.get(e.s).set;
        match lex(e.text, set.radix) {
            Some(Lexed::Toks(t)) => {
                let bare = match t.as_slice() {
                    [Tok::Var(n)] => Some((n.clone(), false)),
                    [Tok::Var(n), Tok::Op('='), ..] => Some((n.clone(), true)),
                    _ => None,
                };
                let (n, assign) = match bare {
                    Some(b) => b,
                    None => return Ok(()),
                };
                if is_error(e.got) {
                    return Ok(());
                }
                if assign {
                    self.0.remove(&n);
                }
                if set.fractional {
                    let v = match read_fraction(e.got, set) {
                        Some(v) => v,
                        None => return Err(format!("input {:?}: {:?} is not a fraction", e.text, e.got)),
                    };
                    if let Some(old) = self.0.get(&n) {
                        if *old != v {
                            return Err(format!(
                                "{} was shown as {} and later as {} without an assignment between",
                                n, old, v
                            ));
                        }
                    }
                    self.0.insert(n, v);
                }
                Ok(())
            }
            Some(Lexed::Command(c, _)) if c == "purgevar" || c == "reloadvar" => {
                self.0.clear();
                Ok(())
            }
            _ => Ok(()),
        }
    }
}

fn c12() -> Prop {
    prop(
        "C12",
        "exploration",
        "Sessions of up to 20 (thorough 50) assignments (also in terms of the name itself), uses, purges, failing inputs and changes of radix and display over up to 10 names, many differing only in case or a character; every answer is compared with the model, all names are shown exactly at the end, and an inexact root stored in a name must show the same exact value each time. Non-trivial: a name is used after being assigned twice or purged, or under another radix or display setting than it was stored under.",
        (11000, 110000),
        c12_gen,
        |c: &Story, obs| {
            let dir = Scratch::new();
            let mut shown = Shown::default();
            let mut stored: HashMap<String, (usize, Settings)> = HashMap::new();
            let v = play_story(c, dir.path(), dir.path(), obs, |e, obs| {
                let set = &e.before.get(0).set;
                if let Some(Lexed::Toks(t)) = lex(e.text, set.radix) {
                    for (k, x) in t.iter().enumerate() {
                        if let Tok::Var(n) = x {
                            if k == 0 && t.get(1) == Some(&Tok::Op('=')) {
                                continue;
                            }
                            if let Some((times, at)) = stored.get(n) {
                                obs.class_if(*times > 1, "used after reassignment");
                                obs.class_if(at != set, "used under other settings");
                                obs.nontrivial |= *times > 1 || at != set;
                            }
                        }
                    }
                    if let (Some(Tok::Var(n)), Some(Tok::Op('='))) = (t.first(), t.get(1)) {
                        if !is_error(e.got) {
                            let k = stored.get(n).map_or(0, |x| x.0);
                            stored.insert(n.clone(), (k + 1, set.clone()));
                        }
                    }
                }
                if e.before.get(0).mem.len() > e.after.get(0).mem.len() {
                    obs.class("purged");
                }
                shown.look(e)
            });
            v
        },
    )
}

// ---------------------------------------------------------------- C13

fn c13_gen(s: &mut Src, thorough: bool) -> Story {
    let db = s.pct(50);
    let mut w = World::new(db);
    let mut steps = Vec::new();
    let set = if s.pct(40) { settings(s) } else { Settings::default() };
    push_step(&mut steps, &mut w, Step::Open { s: 0, flags: set });
    let names = names(s, 1, 4);
    let unset = unset_names(&names);
    let other = db && s.pct(35);
    if db {
        let cap = s.range(60, 200);
        push(&mut steps, &mut w, 0, format!("/histcap {}", cap));
    }
    if other {
        // Another session, whose variables may be reloaded.
        push_step(&mut steps, &mut w, Step::Open { s: 2, flags: Settings::default() });
    }
    let n = s.size(2, if thorough { 30 } else { 14 });
    for _ in 0..n {
        if other && s.pct(35) {
            let t = assign_line(s, &w, 2, &names, 4);
            push(&mut steps, &mut w, 2, t);
            if s.pct(50) {
                let a = s.pick(&names).clone();
                let b = s.pick(&names).clone();
                let bad = odd_word(s);
                let t = match s.usize(3) {
                    0 => format!("/reloadvar {} {}", a, bad),
                    1 => format!("/reloadvar {} {} {}", a, b, bad),
                    _ => format!("/reloadvar {} {} {}", a, bad, b),
                };
                push(&mut steps, &mut w, 0, t);
            }
        }
        let t = match s.weighted(&[9, 5, 3, 2, 2]) {
            0 => fail_line(s, &w, 0, &names, &unset),
            1 => assign_line(s, &w, 0, &names, 8),
            2 => {
                // Often one that a refused one is about to change.
                if s.pct(25) {
                    let t = (*s.pick(&["/converttoradix 7", "/converttoradix 12", "/radix 9", "/p 3 4", "/upper t", "/f t"])).to_string();
                    push(&mut steps, &mut w, 0, t);
                    bad_setting_line(s)
                } else {
                    setting_line(s)
                }
            }
            3 => use_line(s, &names),
            _ => garbage(s, &w, 0, 30),
        };
        push(&mut steps, &mut w, 0, t);
        if s.pct(6) {
            // Restart.
            push_step(&mut steps, &mut w, Step::Close { s: 0, key: 0 });
            push_step(&mut steps, &mut w, Step::Open { s: 0, flags: Settings::default() });
        }
    }
    probe(&mut steps, &mut w, 0, &names, true);
    if db {
        push(&mut steps, &mut w, 0, "/histcap".into());
        if other {
            push_step(&mut steps, &mut w, Step::Close { s: 2, key: 0 });
        }
        push_step(&mut steps, &mut w, Step::Close { s: 0, key: 0 });
        push_step(&mut steps, &mut w, Step::Open { s: 1, flags: Settings::default() });
        push(&mut steps, &mut w, 1, "/histcap".into());
        probe(&mut steps, &mut w, 1, &names, false);
        push_step(&mut steps, &mut w, Step::Recall { s: 1 });
    }
    plain_story(steps, if db { Store::On } else { Store::NoVar })
}

fn c13() -> Prop {
    prop(
        "C13",
        "exploration",
        "Sessions, half of them with a database and some of these next to another session that assigns the same names, of failing inputs of every kind (malformed, zero divisors, even roots, unknown names, bad literals, invalid settings and capacities, bad name lists, most of them assignments) between assignments and settings; afterwards settings, capacity and every name are read back, in the same and, with a database, in a later session, whose whole history is walked too. Everything is compared with the model, in which a failing input changes only the history. Non-trivial: a failing assignment to a name, or a refused change of a setting or capacity, is followed by the read-back.",
        (5000, 50000),
        c13_gen,
        |c: &Story, obs| {
            let dir = Scratch::new();
            let v = play_story(c, dir.path(), dir.path(), obs, |e, obs| {
                if is_error(e.got) {
                    let assign = e.text.contains('=');
                    let cmd = e.text.trim_start().starts_with('/');
                    obs.class_if(assign && !cmd, "failing assignment");
                    obs.class_if(cmd, "refused command");
                    obs.nontrivial |= assign || cmd;
                }
                Ok(())
            });
            obs.class_if(c.store == Store::On, "database");
            v
        },
    )
}

// ---------------------------------------------------------------- C28

#[derive(Clone, Debug, Serialize, Deserialize)]
struct NoDb {
    /// Played first, with the database: what must stay as it is.
    before: Vec<Step>,
    story: Story,
    /// Inputs given through --input, with the data directory set.
    one_shot: Vec<String>,
    /// There are other directories that could be taken for the data directory.
    #[serde(default)]
    decoys: bool,
}

fn c28_gen(s: &mut Src, _: bool) -> NoDb {
    let names = names(s, 1, 4);
    let mut before = Vec::new();
    if s.pct(70) {
        let mut w = World::new(true);
        push_step(&mut before, &mut w, Step::Open { s: 0, flags: Settings::default() });
        let n = s.size(1, 5);
        for _ in 0..n {
            let t = assign_line(s, &w, 0, &names, 6);
            push(&mut before, &mut w, 0, t);
        }
    }
    let store = if s.pct(50) { Store::Flag } else { Store::NoVar };
    let mut w = World::new(false);
    let mut steps = Vec::new();
    let set = settings(s);
    let unset = unset_names(&names);
    push_step(&mut steps, &mut w, Step::Open { s: 0, flags: set.clone() });
    if s.pct(50) {
        push_step(&mut steps, &mut w, Step::Recall { s: 0 });
    }
    let n = s.size(2, 12);
    for _ in 0..n {
        match s.weighted(&[4, 4, 2, 2, 3, 2, 2, 1]) {
            0 => {
                let t = use_line(s, &names);
                push(&mut steps, &mut w, 0, t);
            }
            1 => {
                let t = assign_line(s, &w, 0, &names, 8);
                push(&mut steps, &mut w, 0, t);
            }
            2 => {
                let t = setting_line(s);
                push(&mut steps, &mut w, 0, t);
            }
            3 => {
                let t = fail_line(s, &w, 0, &names, &unset);
                push(&mut steps, &mut w, 0, t);
            }
            4 => {
                let t = match s.usize(3) {
                    0 => (*s.pick(&["/histcap", "/histcap 5", "/histcap 0"])).to_string(),
                    _ => var_cmd(s, &names, true),
                };
                push(&mut steps, &mut w, 0, t);
            }
            5 => {
                push_step(&mut steps, &mut w, Step::Recall { s: 0 });
            }
            6 => {
                let mut keys = vec![Key::Up; s.size(1, 6)];
                if s.pct(30) {
                    keys.push(Key::Down);
                }
                push_step(&mut steps, &mut w, Step::Keys { s: 0, keys });
            }
            _ => {
                // A later session knows nothing of this one.
                push_step(&mut steps, &mut w, Step::Close { s: 0, key: 0 });
                push_step(&mut steps, &mut w, Step::Open { s: 0, flags: set.clone() });
                push_step(&mut steps, &mut w, Step::Recall { s: 0 });
            }
        }
    }
    if s.pct(4) {
        // A long session.
        let n = s.range(10, 130);
        for i in 0..n {
            push(&mut steps, &mut w, 0, i.to_string());
        }
        push_step(&mut steps, &mut w, Step::Recall { s: 0 });
    }
    probe(&mut steps, &mut w, 0, &names, false);
    let mut one_shot = Vec::new();
    let k = s.usize(4);
    for _ in 0..k {
        let mut w = World::new(false);
        w.open(0, &Settings::default());
        let t = match s.usize(5) {
            0 => use_line(s, &names),
            1 => format!("{} = 1", s.pick(&names)),
            2 => var_cmd(s, &names, true),
            3 => (*s.pick(&["/histcap", "/histcap 7", "/radix", "/help"])).to_string(),
            _ => expr_line(s, &w, 0, 3, 5),
        };
        one_shot.push(t);
    }
    NoDb {
        before,
        story: plain_story(steps, store),
        one_shot,
        decoys: s.pct(40),
    }
}

/// Every file and directory under `dir`, with what it holds.
pub fn snapshot(dir: &Path) -> BTreeMap<String, u64> {
    fn walk(d: &Path, out: &mut BTreeMap<String, u64>) {
        let rd = match std::fs::read_dir(d) {
            Ok(r) => r,
            Err(_) => return,
        };
        for e in rd.flatten() {
            let p = e.path();
            let name = p.display().to_string();
            if p.is_symlink() {
                out.insert(name, 1);
            } else if p.is_dir() {
                out.insert(name, 0);
                walk(&p, out);
            } else {
                let data = std::fs::read(&p).unwrap_or_default();
                let mut h = hash_str(&name);
                for b in data {
                    h = (h ^ u64::from(b)).wrapping_mul(0x0000_0100_0000_01B3);
                }
                out.insert(name, h);
            }
        }
    }
    let mut out = BTreeMap::new();
    walk(dir, &mut out);
    out
}

fn c28_run(c: &NoDb, obs: &mut Obs) -> Verdict {
    let dir = Scratch::new();
    let root = dir.path().join("data");
    let cwd = dir.path().join("cwd");
    for d in [&root, &cwd] {
        if let Err(e) = std::fs::create_dir(d) {
            return Verdict::Infra(e.to_string());
        }
    }
    if !c.before.is_empty() {
        let st = plain_story(c.before.clone(), Store::On);
        let mut o = Obs::default();
        match play_story(&st, &root, &cwd, &mut o, |_, _| Ok(())) {
            Verdict::Pass => {}
            v => return v,
        }
    }
    // Other places that may look like the data directory.
    let home = dir.path().join("home");
    let stored = std::fs::read(root.join("bcalc/saved_data.sqlite")).ok();
    if c.decoys {
        for d in [
            cwd.join("bcalc"),
            home.join("bcalc"),
            home.join(".bcalc"),
            home.join(".local/share/bcalc"),
            home.join(".config/bcalc"),
        ] {
            if let Err(e) = std::fs::create_dir_all(&d) {
                return Verdict::Infra(e.to_string());
            }
            if let Some(b) = &stored {
                if let Err(e) = std::fs::write(d.join("saved_data.sqlite"), b) {
                    return Verdict::Infra(e.to_string());
                }
            }
        }
    }
    let homes: Vec<(String, String)> = [("HOME", ""), ("XDG_DATA_HOME", ".local/share"), ("XDG_CONFIG_HOME", ".config")]
        .iter()
        .map(|(k, v)| (k.to_string(), home.join(v).display().to_string()))
        .take(if c.decoys { 3 } else { 0 })
        .collect();
    let mut story = c.story.clone();
    story.env = homes.clone();
    let was = snapshot(dir.path());
    let same = |what: &str| -> Result<(), Verdict> {
        let now = snapshot(dir.path());
        if now == was {
            return Ok(());
        }
        let diff: Vec<&String> = now
            .iter()
            .filter(|(k, v)| was.get(*k) != Some(v))
            .map(|(k, _)| k)
            .chain(was.keys().filter(|k| !now.contains_key(*k)))
            .collect();
        Err(Verdict::Fail(format!("{}: files were created or changed: {:?}", what, diff)))
    };
    let mut changed = None;
    let v = play_story(&story, &root, &cwd, obs, |e, obs| {
        if changed.is_none() {
            if let Err(Verdict::Fail(m)) = same(&format!("input {:?}", clip(e.text))) {
                changed = Some(m);
            }
        }
        if !is_error(e.got) && e.text.contains('$') {
            obs.class("variables work");
        }
        obs.class_if(e.text.contains("/reloadvar") || e.text.contains("/histcap"), "needs the database");
        Ok(())
    });
    if let Some(m) = changed {
        return Verdict::Fail(m);
    }
    match v {
        Verdict::Pass => {}
        v => return v,
    }
    tri!(same("after the session"));
    let mut env = vec![(
        DATA_VAR.to_string(),
        root.clone().into_os_string(),
    )];
    env.extend(homes.iter().map(|(k, v)| (k.clone(), v.into())));
    for l in &c.one_shot {
        let o = match one_shot(&[format!("--input={}", l)], &env, &cwd) {
            Ok(o) => o,
            Err(e) => return infra(e),
        };
        let got = either(get!(one_result(l, &o)));
        obs.count("one-shot inputs", 1);
        tri!(same(&format!("--input={:?}", clip(l))));
        // No variables and no database here.
        let t = l.trim_start();
        if !is_error(&got) && (t.starts_with('$') || t.starts_with("/histcap") || t.starts_with("/reloadvar")) {
            return Verdict::Fail(format!("--input={:?} was answered {:?}", l, got));
        }
    }
    obs.class_if(!c.before.is_empty(), "data stored earlier");
    obs.class_if(c.decoys, "other directories with stored data");
    obs.class(if c.story.store == Store::Flag { "--no-db" } else { "no data directory" });
    obs.nontrivial = !c.before.is_empty() && c.story.steps.len() > 4;
    Verdict::Pass
}

fn c28() -> Prop {
    prop(
        "C28",
        "exploration",
        "A session stores inputs and variables; then a session with --no-db, or without the data directory variable, uses the same names, history keys, settings and database commands, and one-shot inputs run with the data directory set; in some cases copies of the data lie in the working directory and usual places of the home directory. After every input all files below these directories must be as before, and every answer and recalled line must be the model's for a session without database. Non-trivial: something was stored earlier and the session has more than four steps.",
        (5000, 50000),
        c28_gen,
        c28_run,
    )
}

// ---------------------------------------------------------------- C29

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Dispatch {
    story: Story,
    /// The same text through --input, with any whitespace.
    one_shot: Vec<String>,
}

fn command_word(s: &mut Src) -> String {
    let mut all: Vec<String> = Vec::new();
    for (n, al) in COMMANDS {
        all.push((*n).to_string());
        all.extend(al.iter().map(|x| (*x).to_string()));
    }
    let w = s.pick(&all).clone();
    match s.weighted(&[10, 1, 1, 1, 1, 1, 1]) {
        0 => w,
        1 => w.to_uppercase(),
        2 => w[..w.len() - 1].to_string(),
        3 => format!("{}{}", w, s.pick(&["s", "1", "x", "=", "+1", ",", "("])),
        4 => format!("/{}", w),
        5 => {
            let mut c: Vec<char> = w.chars().collect();
            c[0] = c[0].to_ascii_uppercase();
            c.into_iter().collect()
        }
        _ => printable(s, 6).split_ascii_whitespace().next().unwrap_or("").to_string(),
    }
}

fn command_args(s: &mut Src, names: &[String], any_ws: bool) -> String {
    let ws: &[&str] = if any_ws {
        &[" ", "  ", "\t", "\n", " \t ", "\r"]
    } else {
        &[" ", "  ", "   "]
    };
    let n = s.weighted(&[3, 6, 3, 1]);
    let mut t = String::new();
    for _ in 0..n {
        t.push_str(*s.pick(ws));
        let a = match s.usize(9) {
            8 => match s.usize(3) {
                0 => odd_word(s),
                1 => "1234567890".repeat(1 + s.usize(12)),
                _ => s.pick(&["x", "$y", "t", "/", "9"]).repeat(1 + s.usize(90)),
            },
            0 => s.range(0, 20).to_string(),
            1 => s.pick(names).clone(),
            2 => (*s.pick(&["t", "false", "TRUE", "none"])).to_string(),
            3 => command_word(s),
            4 => s.pick(names).clone(),
            5 => (*s.pick(&["1+1", "2*3", "(1)", "-1", "=", "$x=5", "x"])).to_string(),
            6 => s.range(2, 16).to_string(),
            _ => (*s.pick(&["3", "9", "250", "12"])).to_string(),
        };
        t.push_str(&a);
    }
    if s.pct(if n == 0 { 40 } else { 15 }) {
        for _ in 0..=s.usize(3) {
            t.push_str(*s.pick(ws));
        }
    }
    t
}

fn c29_gen(s: &mut Src, thorough: bool) -> Dispatch {
    let db = s.pct(50);
    let mut w = World::new(db);
    let mut steps = Vec::new();
    push_step(&mut steps, &mut w, Step::Open { s: 0, flags: Settings::default() });
    let names = names(s, 1, 3);
    let k = s.size(0, 2);
    for _ in 0..k {
        let t = assign_line(s, &w, 0, &names, 5);
        push(&mut steps, &mut w, 0, t);
    }
    let n = s.size(2, if thorough { 30 } else { 14 });
    for _ in 0..n {
        let lead = " ".repeat(s.weighted(&[6, 2, 1]));
        let t = format!("{}/{}{}", lead, command_word(s), command_args(s, &names, false));
        // Small capacities would make later steps depend on eviction, which C20 and C22 cover.
        push(&mut steps, &mut w, 0, fits(t));
        if s.pct(15) {
            let t = expr_line(s, &w, 0, 2, 5);
            push(&mut steps, &mut w, 0, t);
        }
    }
    probe(&mut steps, &mut w, 0, &names, true);
    if db {
        push(&mut steps, &mut w, 0, "/histcap".into());
    }
    let mut one_shot = Vec::new();
    let k = s.usize(5);
    for _ in 0..k {
        let lead = *s.pick(&["", " ", "\t", "\n", " \t\r\n"]);
        one_shot.push(format!("{}/{}{}", lead, command_word(s), command_args(s, &names, true)));
    }
    Dispatch {
        story: plain_story(steps, if db { Store::On } else { Store::NoVar }),
        one_shot,
    }
}

fn canonical(w: &str) -> Option<&'static str> {
    COMMANDS
        .iter()
        .find(|(c, al)| *c == w || al.contains(&w))
        .map(|c| c.0)
}

fn c29_run(c: &Dispatch, obs: &mut Obs) -> Verdict {
    let dir = Scratch::new();
    let mut help: HashMap<&'static str, String> = HashMap::new();
    let (mut known, mut unknown) = (0, 0);
    let v = play_story(&c.story, dir.path(), dir.path(), obs, |e, obs| {
        let (name, args) = match lex(e.text, 10) {
            Some(Lexed::Command(n, a)) => (n, a),
            _ => return Ok(()),
        };
        match canonical(&name) {
            None => unknown += 1,
            Some(n) => {
                known += 1;
                obs.class(n);
                obs.class_if(n != name, "by alias");
            }
        }
        if canonical(&name) == Some("help") {
            let a = args.trim();
            if a.is_empty() {
                // Every command, each on a line of its own with a description.
                for (n, _) in COMMANDS {
                    let hit = e.got.split('\n').any(|l| {
                        let w: Vec<&str> = l.split_ascii_whitespace().collect();
                        w.len() >= 2 && w[0] == *n
                    });
                    if !hit {
                        return Err(format!("/help does not describe {}: {:?}", n, e.got));
                    }
                }
            } else if let Some(n) = canonical(a) {
                let old = help.entry(n).or_insert_with(|| e.got.to_string());
                if old != e.got {
                    return Err(format!(
                        "/help explains {} differently as {:?}: {:?} and {:?}",
                        n, a, old, e.got
                    ));
                }
                obs.class("help on a command");
            }
        }
        Ok(())
    });
    match v {
        Verdict::Pass => {}
        v => return v,
    }
    for l in &c.one_shot {
        let mut m = Sess::open(&Settings::default(), None);
        let want = m.submit(l, None);
        let got = either(get!(one(l, &[], dir.path())));
        obs.count("one-shot inputs", 1);
        // Names are unavailable without a session.
        if let Some(Lexed::Command(n, _)) = lex(l, 10) {
            if canonical(&n) == Some("purgevar") {
                if !is_error(&got) {
                    return Verdict::Fail(format!("--input={:?} was answered {:?}", l, got));
                }
                continue;
            }
        }
        tri!(judge(l, &want, &got));
    }
    obs.class_if(unknown > 0, "unknown command");
    obs.nontrivial = known >= 2 && unknown >= 1;
    Verdict::Pass
}

fn c29() -> Prop {
    prop(
        "C29",
        "exploration",
        "Sessions of up to 14 (thorough 30) command lines: every command by name or alias, changed case, missing or extra characters, random words, with random arguments and blanks (one-shot: tabs and newlines too), then settings, capacity and variables read back; compared with the command table and the state model; /help must describe every command, and explain a name and its aliases with the same text. Non-trivial: at least two known commands and one unknown.",
        (6000, 60000),
        c29_gen,
        c29_run,
    )
}

pub fn all() -> Vec<Prop> {
    vec![c09(), c10(), c11(), c12(), c13(), c28(), c29()]
}
