//! C01-C08: what an input's value is and how it is displayed.

use crate::choice::Src;
use crate::gen::*;
use crate::model::*;
use crate::play::*;
use crate::proc::*;
use crate::runner::*;
use crate::spec::*;
use num_bigint::BigInt;
use num_traits::{One, Signed, Zero};
use serde::{Deserialize, Serialize};

/// Inputs entered in one session without a database.
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Script {
    pub flags: Settings,
    pub lines: Vec<String>,
    /// Each line in its own one-shot process instead.
    pub one_shot: bool,
}

/// Plays a script; `look` sees every line with the model before it and the answer.
pub fn play<F>(c: &Script, obs: &mut Obs, mut look: F) -> Verdict
where
    F: FnMut(&str, &Sess, &str, &mut Obs),
{
    let dir = Scratch::new();
    let mut m = Sess::open(&c.flags, None);
    if c.one_shot {
        for l in &c.lines {
            let mut m = Sess::open(&c.flags, None);
            let want = m.submit(l, None);
            let got = either(get!(one(l, &c.flags.flags(), dir.path())));
            tri!(judge(l, &want, &got));
            obs.count("inputs", 1);
            look(l, &Sess::open(&c.flags, None), &got, obs);
        }
        return Verdict::Pass;
    }
    let mut args = c.flags.flags();
    args.push("--no-db".into());
    let mut s = get!(start(&Opts::args(args), dir.path()));
    for l in &c.lines {
        let before = m.clone();
        let got = get!(enter(&mut s, &mut m, None, l));
        obs.count("inputs", 1);
        look(l, &before, &got, obs);
    }
    tri!(finish(&mut s));
    Verdict::Pass
}

fn ops(a: &Ast) -> usize {
    match a {
        Ast::Num(_) | Ast::Var(_) => 0,
        Ast::Neg(e) | Ast::Sqrt(e) | Ast::Abs(e) => 1 + ops(e),
        Ast::Max(l) | Ast::Min(l) => 1 + l.iter().map(ops).sum::<usize>(),
        Ast::Bin(_, l, r) => 1 + ops(l) + ops(r),
    }
}

fn has_op(a: &Ast, c: char) -> bool {
    match a {
        Ast::Num(_) | Ast::Var(_) => false,
        Ast::Neg(e) | Ast::Sqrt(e) | Ast::Abs(e) => has_op(e, c),
        Ast::Max(l) | Ast::Min(l) => l.iter().any(|e| has_op(e, c)),
        Ast::Bin(o, l, r) => *o == c || has_op(l, c) || has_op(r, c),
    }
}

fn ast_of(line: &str, radix: u8) -> Option<Ast> {
    match lex(line, radix) {
        Some(Lexed::Toks(t)) => parse(&t).map(|s| s.expr),
        _ => None,
    }
}

// ---------------------------------------------------------------- C01

fn zero_ish(s: &mut Src, c: &ExprCfg) -> Ast {
    // Something that is zero.
    let v = Ast::Num(lit_value(s, c.radix, 4));
    let b = |x: Ast| Box::new(x);
    match s.usize(4) {
        0 => Ast::Num(Q::zero()),
        1 => Ast::Bin('-', b(v.clone()), b(v)),
        2 => Ast::Bin('*', b(v), b(Ast::Num(Q::zero()))),
        _ => Ast::Bin('%', b(v.clone()), b(Ast::Bin('+', b(v), b(Ast::Num(q(1)))))),
    }
}

fn c01_gen(s: &mut Src, thorough: bool) -> Script {
    let mut set = Settings {
        fractional: !s.pct(20),
        ..Settings::default()
    };
    if s.pct(40) {
        set.radix = s.range(2, 16) as u8;
    }
    if !set.fractional {
        set.precision = s.range(0, 60) as u8;
    }
    let mut cfg = ExprCfg::new(set.radix);
    cfg.digits = if thorough { 120 } else { 45 };
    cfg.roots = false;
    let n = s.size(1, 10);
    let mut m = Sess::open(&set, None);
    let mut lines = Vec::new();
    let one_shot = s.pct(6);
    for _ in 0..n {
        let known: std::collections::HashMap<String, Val> = m
            .mem
            .iter()
            .filter_map(|(k, v)| v.clone().map(|v| (k.clone(), v)))
            .collect();
        cfg.vars = if one_shot {
            Vec::new()
        } else {
            let mut v: Vec<String> = known.keys().cloned().collect();
            v.sort();
            v
        };
        cfg.depth = s.range(1, 6) as usize;
        cfg.calls = s.pct(8);
        let digits = cfg.digits;
        if s.pct(3) {
            cfg.digits = 500;
            cfg.depth = s.range(1, 2) as usize;
        }
        let (mut a, _) = decided(s, &cfg, &set, Some(&known));
        cfg.digits = digits;
        if s.pct(7) {
            // Something divided by zero, deep inside.
            let z = zero_ish(s, &cfg);
            let x = leafish(s, &cfg);
            let bad = match s.usize(3) {
                0 => Ast::Bin('/', Box::new(x), Box::new(z)),
                1 => Ast::Bin('%', Box::new(x), Box::new(z)),
                _ => Ast::Bin(
                    '^',
                    Box::new(z),
                    Box::new(Ast::Neg(Box::new(Ast::Num(q(s.range(1, 9)))))),
                ),
            };
            a = if s.pct(50) {
                Ast::Bin('+', Box::new(a), Box::new(bad))
            } else {
                Ast::Max(vec![a, bad])
            };
        } else if s.pct(5) {
            // An exact root inside.
            let d = s.range(2, 5) as u32;
            let b = natural(s, set.radix, 9);
            let e = Ast::Bin('/', Box::new(Ast::Num(q(s.range(1, 3)))), Box::new(Ast::Num(q(i64::from(d)))));
            let p = Ast::Num(Q::from_integer(b.pow(d)));
            a = Ast::Bin(
                '+',
                Box::new(a),
                Box::new(Ast::Bin('^', Box::new(p), Box::new(e))),
            );
        }
        if s.pct(6) {
            // Machine integers' bounds.
            let (l, r) = (machine(s), machine(s));
            let b = Ast::Bin(*s.pick(&['+', '-', '*', '/', '%', '%']), Box::new(l), Box::new(r));
            a = if s.pct(70) { b } else { Ast::Bin('+', Box::new(a), Box::new(b)) };
        } else if s.pct(4) {
            a = far_power(s);
        }
        if Eval::new(&set, Some(&known)).eval(&a) == Err(Fail::Undecided) {
            continue;
        }
        let mut t = write(&a, set.radix, s);
        if !one_shot && s.pct(25) {
            t = format!("${} = {}", s.pick(&["a", "b", "c"]), t);
        }
        m.submit(&t, None);
        lines.push(t);
    }
    Script {
        flags: set,
        lines,
        one_shot,
    }
}

fn leafish(s: &mut Src, c: &ExprCfg) -> Ast {
    Ast::Num(lit_value(s, c.radix, c.digits))
}

fn c01() -> Prop {
    prop(
        "C01",
        "exploration",
        "Sessions of 1-10 random expressions (depth up to 6, literals up to 45 digits, thorough 120, a few up to 500, values around 2^k and radix^k, variables, exact roots, divisions by zero hidden inside), mostly with fractional display so that the whole value is visible; every answer is compared with independent rational arithmetic. Non-trivial: some answered input has at least 3 operations and an operand or result beyond 64 bits, or is rejected for a zero divisor.",
        (14000, 120000),
        c01_gen,
        |c: &Script, obs| {
            play(c, obs, |l, before, got, obs| {
                let a = match ast_of(l, before.set.radix) {
                    Some(a) => a,
                    None => return,
                };
                for (op, name) in [('/', "division"), ('%', "remainder"), ('^', "power")] {
                    obs.class_if(has_op(&a, op), name);
                }
                if is_error(got) {
                    obs.class("division by zero");
                    obs.nontrivial = true;
                } else if ops(&a) >= 3 && (got.len() > 19 || l.len() > 40) {
                    obs.class("large operands");
                    obs.nontrivial = true;
                }
                obs.class_if(before.set.radix != 10, "radix other than ten");
                obs.class_if(l.contains('$'), "variables");
            })
        },
    )
}

// ---------------------------------------------------------------- C02

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Grouping {
    radix: u8,
    /// The same expression written in several ways.
    ways: Vec<String>,
}

fn chain(s: &mut Src, depth: usize) -> Ast {
    // Operator chains with small operands, so that every other grouping gives another value.
    let long = depth == 0 && s.pct(12);
    let n = if long { s.range(7, 40) } else { s.range(2, 6) };
    let mut items = Vec::new();
    for i in 0..n {
        let mut a = if depth > 0 && s.pct(18) {
            match s.usize(3) {
                0 => chain(s, depth - 1),
                1 => {
                    let k = s.size(1, 3);
                    let l = (0..k).map(|_| chain(s, depth - 1)).collect();
                    if s.pct(50) {
                        Ast::Max(l)
                    } else {
                        Ast::Min(l)
                    }
                }
                _ => Ast::Abs(Box::new(chain(s, depth - 1))),
            }
        } else {
            Ast::Num(q(*s.pick(&[2, 3, 5, 7, 11, 13, 4, 9, 17, 1, 6])))
        };
        if s.pct(15) {
            a = Ast::Neg(Box::new(a));
            if s.pct(15) {
                for _ in 0..s.size(1, 6) {
                    a = Ast::Neg(Box::new(a));
                }
            }
        } else if s.pct(6) {
            a = Ast::Abs(Box::new(Ast::Neg(Box::new(a))));
        } else if s.pct(5) {
            a = Ast::Sqrt(Box::new(Ast::Num(q(*s.pick(&[4, 9, 16, 25, 49])))));
        } else if s.pct(5) {
            a = Ast::Max(vec![a]);
        }
        items.push((i, a));
    }
    // Combine as written: random operators, grouped by precedence.
    let mut ops: Vec<char> = Vec::new();
    // Some chains use the operators of one level only.
    let menu: &[char] = match s.weighted(&if long { [2, 4, 4, 2] } else { [8, 1, 1, 0] }) {
        0 => &['+', '-', '*', '/', '%', '^', '-', '/', '^', '%'],
        1 => &['-', '-', '+'],
        2 => &['/', '/', '*'],
        _ => &['-', '/', '+', '*', '-'],
    };
    for _ in 1..n {
        ops.push(*s.pick(menu));
    }
    let mut vals: Vec<Ast> = items.into_iter().map(|x| x.1).collect();
    for l in (0..=3).rev() {
        let mut i = 0;
        while i < ops.len() {
            if level(ops[i]) == Some(l) {
                let r = vals.remove(i + 1);
                let left = std::mem::replace(&mut vals[i], Ast::Num(q(0)));
                vals[i] = Ast::Bin(ops[i], Box::new(left), Box::new(r));
                ops.remove(i);
            } else {
                i += 1;
            }
        }
    }
    let mut a = vals.remove(0);
    if s.pct(8) {
        a = Ast::Neg(Box::new(a));
    }
    a
}

fn c02_gen(s: &mut Src, _: bool) -> Grouping {
    let radix = if s.pct(25) { s.range(8, 16) as u8 } else { 10 };
    let set = Settings {
        radix,
        fractional: true,
        ..Settings::default()
    };
    let mut a = Ast::Num(q(1));
    for _ in 0..30 {
        let d = s.usize(3);
        a = chain(s, d);
        match Eval::new(&set, None).eval(&a) {
            Ok(Val::Exact(v)) if v.numer().bits() + v.denom().bits() < 4000 => break,
            _ => a = Ast::Bin('-', Box::new(Ast::Num(q(7))), Box::new(Ast::Num(q(2)))),
        }
    }
    let mut ways = Vec::new();
    let t = tokens(&a, radix, Style::Minimal, s);
    ways.push(join_tight(&t));
    ways.push(join(&t, s, 50));
    for _ in 0..2 {
        let t = tokens(&a, radix, Style::Redundant, s);
        ways.push(join(&t, s, 20));
    }
    let t = tokens(&a, radix, Style::Full, s);
    ways.push(join_tight(&t));
    Grouping { radix, ways }
}

/// The value under another reading: one level for all operators, from the right, or
/// negation below the power.
fn other_readings(a: &Ast, set: &Settings) -> Vec<Option<Val>> {
    // Flatten the top-level chain as written in minimal form.
    fn flat<'a>(a: &'a Ast, lv: u8, vals: &mut Vec<&'a Ast>, ops: &mut Vec<char>) {
        match a {
            Ast::Bin(o, l, r) if level(*o).unwrap_or(0) >= lv => {
                let me = level(*o).unwrap_or(0);
                flat(l, me, vals, ops);
                ops.push(*o);
                flat(r, me + 1, vals, ops);
            }
            a => vals.push(a),
        }
    }
    let (mut vals, mut ops) = (Vec::new(), Vec::new());
    flat(a, 0, &mut vals, &mut ops);
    let mut out = Vec::new();
    if ops.len() < 2 {
        return out;
    }
    let ev = |a: &Ast| Eval::new(set, None).eval(a).ok();
    // left to right
    let mut l = vals[0].clone();
    for (i, o) in ops.iter().enumerate() {
        l = Ast::Bin(*o, Box::new(l), Box::new(vals[i + 1].clone()));
    }
    out.push(ev(&l));
    // right to left
    let mut r = vals[vals.len() - 1].clone();
    for (i, o) in ops.iter().enumerate().rev() {
        r = Ast::Bin(*o, Box::new(vals[i].clone()), Box::new(r));
    }
    out.push(ev(&r));
    out
}

fn c02() -> Prop {
    prop(
        "C02",
        "exploration",
        "An operator chain over small operands (2-6 operands, some up to 40, some with the operators of one level only, nested groups, negation, sqrt, abs, max, min), written minimally, with extra whitespace, with redundant parentheses twice and fully parenthesised; all five are entered with fractional display and must give the value of the documented order. Non-trivial: reading the chain from left to right, or from right to left, without precedence gives another value.",
        (14000, 140000),
        c02_gen,
        |c: &Grouping, obs| {
            let script = Script {
                flags: Settings {
                    radix: c.radix,
                    fractional: true,
                    ..Settings::default()
                },
                lines: c.ways.clone(),
                one_shot: false,
            };
            let mut first: Option<(String, String)> = None;
            let mut bad = None;
            let v = play(&script, obs, |l, before, got, obs| {
                if let Some((fl, fg)) = &first {
                    if fg != got {
                        bad = Some(format!("{:?} gives {:?} but {:?} gives {:?}", fl, fg, l, got));
                    }
                    return;
                }
                first = Some((l.to_string(), got.to_string()));
                if let Some(a) = ast_of(l, before.set.radix) {
                    let v = Eval::new(&before.set, None).eval(&a).ok();
                    let others = other_readings(&a, &before.set);
                    obs.nontrivial = others.iter().any(|o| *o != v);
                    obs.class_if(!others.is_empty() && others[0] != v, "differs from left to right");
                    obs.class_if(others.len() > 1 && others[1] != v, "differs from right to left");
                    for o in ['+', '-', '*', '/', '%', '^'] {
                        obs.class_if(has_op(&a, o), &o.to_string());
                    }
                }
            });
            match (v, bad) {
                (Verdict::Pass, Some(m)) => Verdict::Fail(m),
                (v, _) => v,
            }
        },
    )
}

// ---------------------------------------------------------------- C03

fn mutate(s: &mut Src, t: &mut Vec<String>) {
    let n = s.range(1, 3);
    for _ in 0..n {
        let k = s.usize(8);
        if t.is_empty() {
            t.push("1".into());
        }
        let i = s.usize(t.len());
        if k >= 6 {
            // At a parenthesis or a comma.
            let at: Vec<usize> = (0..t.len())
                .filter(|i| matches!(t[*i].as_str(), "(" | ")" | ","))
                .collect();
            if !at.is_empty() {
                let i = *s.pick(&at) + s.usize(2);
                let w = *s.pick(&[",", ",", ",", "(", ")", "-", "+", "1", "max"]);
                if s.pct(20) && i < t.len() {
                    t.remove(i);
                } else {
                    t.insert(i, w.to_string());
                }
                continue;
            }
        }
        let any = |s: &mut Src| {
            (*s.pick(&[
                "+", "-", "*", "/", "%", "^", "(", ")", ",", "=", "1", "2.5", "sqrt", "abs", "max",
                "min", "$x", "()", "1.2.3", "g", "maxx", "SQRT", "!", "=", ",", "_abs", "abs_", "ABS", "Max", "ab_s",
                "_max", "min_", "_sqrt", "absabs", "sqrt2", "max1", "none", "_", ".", "._",
            ]))
            .to_string()
        };
        match k {
            0 => {
                t.remove(i);
            }
            1 => {
                let a = any(s);
                t.insert(i, a);
            }
            2 => {
                let d = t[i].clone();
                t.insert(i, d);
            }
            3 => {
                let j = s.usize(t.len());
                t.swap(i, j);
            }
            4 => t[i] = any(s),
            _ => {
                let a = any(s);
                t.push(a);
            }
        }
    }
}

/// A call of max or min, perhaps within and around others, perhaps with a comma too many.
fn call_tokens(s: &mut Src, depth: usize, out: &mut Vec<String>) {
    out.push((*s.pick(&["max", "min"])).to_string());
    out.push("(".into());
    let n = s.size(1, 4);
    let fault = if s.pct(40) { s.usize(4) } else { 9 };
    if fault == 0 {
        out.push(",".into());
    }
    for i in 0..n {
        if i > 0 {
            out.push(",".into());
            if fault == 1 && s.pct(50) {
                out.push(",".into());
            }
        }
        match s.usize(6) {
            0 | 1 if depth > 0 => call_tokens(s, depth - 1, out),
            2 => out.extend(["-".to_string(), "3".to_string()]),
            3 => out.extend(["(", "1", "+", "1", ")"].map(String::from)),
            4 => {
                out.push((*s.pick(&["abs", "sqrt", "max", "min"])).to_string());
                out.push("4".into());
            }
            _ => out.push(s.range(0, 1).to_string()),
        }
    }
    if fault == 2 {
        out.push(",".into());
    }
    if fault != 3 || s.pct(70) {
        out.push(")".into());
    }
    if depth > 0 && s.pct(15) {
        out.push((*s.pick(&["+", "-", "*", ")", ","])).to_string());
        call_tokens(s, depth - 1, out);
    }
}

fn c03_gen(s: &mut Src, _: bool) -> Script {
    let set = Settings {
        radix: if s.pct(30) { s.range(2, 16) as u8 } else { 10 },
        ..Settings::default()
    };
    let mut cfg = ExprCfg::new(set.radix);
    cfg.digits = 3;
    cfg.roots = true;
    let one_shot = s.pct(12);
    let mut lines = Vec::new();
    if !one_shot {
        cfg.vars = vec!["$x".into(), "$y".into()];
        lines.push("$x = 11".to_string());
        lines.push("$y = 101".to_string());
    }
    let one: Val = Val::Exact(literal("11", set.radix).unwrap_or_else(|| q(3)));
    let two: Val = Val::Exact(literal("101", set.radix).unwrap_or_else(|| q(5)));
    let n = s.size(1, 12);
    let mut m = Sess::open(&set, None);
    for l in &lines {
        m.submit(l, None);
    }
    let _ = (one, two);
    for _ in 0..n {
        let known: std::collections::HashMap<String, Val> = m
            .mem
            .iter()
            .filter_map(|(k, v)| v.clone().map(|v| (k.clone(), v)))
            .collect();
        cfg.depth = s.range(0, 4) as usize;
        cfg.calls = s.pct(25);
        let text = match s.weighted(&[26, 36, 14, 3, 5, 10, 6]) {
            6 => {
                let mut t = Vec::new();
                let d = s.usize(3);
                call_tokens(s, d, &mut t);
                join(&t, s, 20)
            }
            0 => {
                let (a, _) = decided(s, &cfg, &set, Some(&known));
                let mut t = write(&a, set.radix, s);
                if !one_shot && s.pct(15) {
                    t = format!("{} ={}", s.pick(&["$x", "$y", "$z"]), t);
                }
                t
            }
            1 => {
                let (a, _) = decided(s, &cfg, &set, Some(&known));
                let mut t = tokens(&a, set.radix, Style::Minimal, s);
                if s.pct(10) && !one_shot {
                    t.insert(0, "=".into());
                    t.insert(0, "$x".into());
                    if s.pct(30) {
                        // Twice, or within.
                        let i = if s.pct(60) { 2 } else { s.usize(t.len()) };
                        t.insert(i, "=".into());
                        t.insert(i, (*s.pick(&["$x", "$y", "$z"])).into());
                        let sp = *s.pick(&[0, 30, 100]);
                        let text = join(&t, s, sp);
                        m.submit(&text, None);
                        lines.push(text);
                        continue;
                    }
                }
                mutate(s, &mut t);
                let sp = *s.pick(&[0, 30, 100]);
                join(&t, s, sp)
            }
            2 => {
                let t = soup(s, set.radix, 9);
                join(&t, s, 30)
            }
            3 => " ".repeat(s.usize(5)),
            4 => {
                // One character changed.
                let (a, _) = decided(s, &cfg, &set, Some(&known));
                let t = write(&a, set.radix, s);
                let mut b: Vec<char> = t.chars().collect();
                if !b.is_empty() {
                    let i = s.usize(b.len());
                    b[i] = (0x20 + s.below(0x5f) as u8) as char;
                }
                b.into_iter().collect()
            }
            5 if one_shot && s.pct(50) => {
                // White space and control characters between the tokens.
                let (a, _) = decided(s, &cfg, &set, Some(&known));
                let t = tokens(&a, set.radix, Style::Minimal, s);
                let mut out = String::new();
                for w in t {
                    out.push_str(&w);
                    if s.pct(50) {
                        out.push(*s.pick(&[
                            ' ', ' ', '\t', '\t', '\n', '\r', '\x0c', '\x0b', '\x1c', '\x1f', '\x7f',
                            '\x01', '\x08', '\x1b', '\u{85}', '\u{a0}', '\u{2003}', '\u{3000}', '\u{feff}',
                        ]));
                    } else {
                        out.push(' ');
                    }
                }
                out
            }
            _ if one_shot => {
                // Text that isn't ASCII.
                let mut t: Vec<char> = "1+2*3".chars().collect();
                let i = s.usize(t.len() + 1);
                t.insert(i, *s.pick(&['é', '×', '√', '２', '\u{a0}', '−', '😀']));
                t.into_iter().collect()
            }
            _ => printable(s, 14),
        };
        // Commands belong to other properties; costly powers to none.
        if matches!(lex(&text, set.radix), Some(Lexed::Command(..)))
            || !affordable(&text, &set, Some(&known))
        {
            continue;
        }
        m.submit(&text, None);
        lines.push(text);
    }
    Script {
        flags: set,
        lines,
        one_shot,
    }
}

fn c03() -> Prop {
    prop(
        "C03",
        "exploration",
        "Sessions of up to 12 inputs: well-formed expressions and assignments, the same with 1-3 token mutations (delete, insert, duplicate, swap, replace; some at a parenthesis or comma) or one changed character, token soups, blank lines, printable text, and (one-shot) text with control or non-ASCII characters; a separately written recursive-descent grammar says which are well-formed and each answer must be the value or an error accordingly. Non-trivial: the session has both an accepted non-blank input and a rejected one, or a rejected one that differs from a well-formed one by a mutation.",
        (15000, 150000),
        c03_gen,
        |c: &Script, obs| {
            let (mut yes, mut no) = (0, 0);
            let v = play(c, obs, |l, _, got, obs| {
                if l.trim().is_empty() {
                    obs.class("blank");
                } else if is_error(got) {
                    no += 1;
                    obs.class("rejected");
                    obs.class_if(!l.is_ascii(), "not ASCII");
                } else {
                    yes += 1;
                    obs.class("accepted");
                    obs.class_if(l.contains('='), "assignment");
                    obs.class_if(l.contains("max") || l.contains("min"), "function");
                }
            });
            obs.count("accepted", yes);
            obs.count("rejected", no);
            obs.nontrivial = no > 0 && (yes > 0 || c.one_shot);
            v
        },
    )
}

// ---------------------------------------------------------------- C04

fn c04_gen(s: &mut Src, thorough: bool) -> Script {
    let radix = s.range(2, 16) as u8;
    let set = Settings {
        radix,
        convert: if s.pct(40) {
            Some(s.range(2, 16) as u8)
        } else {
            None
        },
        fractional: true,
        ..Settings::default()
    };
    let n = s.size(1, 14);
    let mut lines = Vec::new();
    for _ in 0..n {
        let max = match s.weighted(&[7, 2, 1]) {
            0 => 8,
            1 => 40,
            _ if thorough => 1200,
            _ => 400,
        };
        let len = s.size(1, max);
        let mut t = String::new();
        let point = if s.pct(55) { Some(s.usize(len + 1)) } else { None };
        for i in 0..=len {
            if point == Some(i) {
                t.push('.');
            }
            while s.pct(8) {
                t.push('_');
            }
            if i < len {
                let d = if s.pct(15) {
                    u64::from(radix) - 1
                } else {
                    s.below(u64::from(radix))
                };
                let c = DIGITS[d as usize] as char;
                t.push(if s.pct(40) { c.to_ascii_uppercase() } else { c });
            }
        }
        if s.pct(35) {
            // Break it, or perhaps not.
            let mut b: Vec<char> = t.chars().collect();
            let i = s.usize(b.len() + 1);
            match s.usize(6) {
                0 => b.insert(i, '.'),
                1 if radix < 16 => b.insert(i, DIGITS[usize::from(radix)] as char),
                2 if radix < 16 => {
                    let d = s.range(i64::from(radix), 15) as usize;
                    let c = DIGITS[d] as char;
                    b.insert(i, if s.pct(50) { c.to_ascii_uppercase() } else { c });
                }
                3 => b.insert(
                    i,
                    *s.pick(&['g', 'G', 'x', 'z', '!', '#', '\'', ':', '@', '`', '&', '~', '"']),
                ),
                4 => b = "._".chars().cycle().skip(s.usize(2)).take(1 + s.usize(2)).collect(),
                _ => b.push(*s.pick(&['_', '.'])),
            }
            t = b.into_iter().collect();
        }
        if s.pct(10) {
            t = format!("-{}", t);
        }
        if s.pct(4) {
            // What is nearly a function's name is a literal or nothing.
            let mut b: Vec<char> = s.pick(&["abs", "sqrt", "max", "min"]).chars().collect();
            for _ in 0..s.range(1, 2) {
                let i = s.usize(b.len() + 1);
                match s.usize(3) {
                    0 => b.insert(i, '_'),
                    1 => b.insert(i, *s.pick(&['.', '0', 'a', 's', '1'])),
                    _ => {
                        let i = i.min(b.len() - 1);
                        b[i] = b[i].to_ascii_uppercase();
                    }
                }
            }
            t = b.into_iter().collect();
            let v = *s.pick(&["", " 1", "(1)", "-1", " (1,0)", "+1"]);
            t.push_str(v);
        }
        lines.push(t);
    }
    let one_shot = s.pct(8);
    Script {
        flags: set,
        lines,
        one_shot,
    }
}

fn c04() -> Prop {
    prop(
        "C04",
        "exploration",
        "Literals of 1-150 digits (thorough 400) in radix 2-16 with a point anywhere, separators anywhere and mixed case, a third of them altered (digit of a larger radix, second point, other character, no digit); the value shown as an exact fraction, also in another radix, must be the positional value computed digit by digit, or an error. Non-trivial: some literal has a point, a separator or a letter digit, or is rejected.",
        (14000, 140000),
        c04_gen,
        |c: &Script, obs| {
            let v = play(c, obs, |l, before, got, obs| {
                if is_error(got) {
                    obs.class("rejected");
                    obs.nontrivial = true;
                } else {
                    for (on, name) in [
                        (l.contains('.'), "point"),
                        (l.contains('_'), "separator"),
                        (l.chars().any(|c| c.is_ascii_uppercase()), "upper case"),
                        (l.chars().any(|c| c.is_ascii_lowercase()), "lower case"),
                    ] {
                        if on {
                            obs.class(name);
                            obs.nontrivial = true;
                        }
                    }
                    obs.class_if(before.set.convert.is_some(), "other output radix");
                    obs.class_if(l.len() > 40, "over 40 digits");
                }
            });
            v
        },
    )
}

// ---------------------------------------------------------------- C05, C06

/// Writes a value as an expression in the radix: a/b or a literal.
fn value_text(v: &Q, radix: u8, s: &mut Src) -> String {
    let n = v.numer().abs().to_str_radix(u32::from(radix));
    let sign = if v.is_negative() { "-" } else { "" };
    if v.is_integer() {
        return format!("{}{}", sign, n);
    }
    let d = v.denom().to_str_radix(u32::from(radix));
    if s.pct(50) {
        format!("{}{}/{}", sign, n, d)
    } else {
        format!("-({}/{})", if v.is_negative() { n } else { format!("-{}", n) }, d)
    }
}

fn near_tie(s: &mut Src, set: &Settings) -> Q {
    let r = BigInt::from(set.out_radix());
    let p = u32::from(set.precision);
    // k + 1/2 units of the last digit, or close to it.
    let k = match s.weighted(&[4, 3, 3]) {
        0 => natural(s, set.out_radix(), 6),
        1 => {
            // ...999 before the point of rounding
            let e = s.range(0, 8) as u32;
            r.pow(e) - BigInt::one()
        }
        _ => BigInt::from(s.below(3)),
    };
    let unit = Q::new(BigInt::one(), r.pow(p));
    if s.pct(30) {
        // Just below an integer, so that all digits change when it is rounded up.
        let whole = Q::from_integer(natural(s, set.out_radix(), 4) + BigInt::one());
        let part = Q::new(BigInt::from(s.range(1, 9)), BigInt::from(s.range(8, 20)));
        return whole - part * unit;
    }
    let mut v = (Q::from_integer(k) + Q::new(BigInt::one(), BigInt::from(2))) * &unit;
    let tiny = Q::new(BigInt::one(), BigInt::from(s.range(2, 11)).pow(s.range(5, 40) as u32));
    match s.usize(3) {
        0 => {}
        1 => v += tiny * unit,
        _ => v -= tiny * unit,
    }
    v
}

fn display_value(s: &mut Src, set: &Settings) -> Q {
    let v = match s.weighted(&[15, 12, 9, 9, 9, 3, 2]) {
        6 => {
            let r = set.out_radix();
            let n = wide(s, r);
            let d = match s.usize(4) {
                0 => wide(s, r) + BigInt::one(),
                1 => BigInt::from(r).pow(s.below(40) as u32) * BigInt::from(s.range(1, 9)),
                2 => natural(s, r, 4) + BigInt::one(),
                _ => BigInt::one(),
            };
            Q::new(n, d)
        }
        0 => {
            let d = natural(s, 10, 5) + BigInt::one();
            Q::new(natural(s, 10, 12), d)
        }
        1 => near_tie(s, set),
        2 => {
            // Exactly representable, with trailing zeros.
            let r = BigInt::from(set.out_radix());
            let e = s.below(u64::from(set.precision).min(30) + 2) as u32;
            let mut n = natural(s, set.out_radix(), 9);
            if s.pct(40) {
                n *= r.pow(s.below(4) as u32);
            }
            Q::new(n, r.pow(e))
        }
        3 => {
            // Around the places where commas change.
            let r = BigInt::from(set.out_radix());
            let e = s.range(1, 10) as u32;
            Q::from_integer(r.pow(e) + BigInt::from(s.range(-1, 1)))
        }
        4 => {
            let d = BigInt::from(*s.pick(&[2, 3, 4, 5, 6, 7, 8, 9, 11, 16, 25, 27, 64, 125]));
            Q::new(natural(s, set.out_radix(), 8), d)
        }
        _ => Q::zero(),
    };
    if s.pct(35) {
        -v
    } else {
        v
    }
}

/// Any one operation, or two, whose result is shown as it comes out.
fn small_expr(s: &mut Src, set: &Settings) -> String {
    let mut cfg = ExprCfg::new(set.radix);
    cfg.digits = 6;
    let mut signed = |s: &mut Src| {
        cfg.depth = if s.pct(25) { 1 } else { 0 };
        let a = expr(s, &cfg);
        if s.pct(40) {
            Ast::Neg(Box::new(a))
        } else {
            a
        }
    };
    for _ in 0..4 {
        let l = signed(s);
        let a = match s.usize(9) {
            0 => Ast::Abs(Box::new(l)),
            1 => Ast::Neg(Box::new(l)),
            2 => Ast::Max(vec![l, signed(s)]),
            3 => Ast::Min(vec![l, signed(s)]),
            4 | 5 => {
                let e = Ast::Num(q(s.range(0, 12)));
                let e = if s.pct(50) { Ast::Neg(Box::new(e)) } else { e };
                Ast::Bin('^', Box::new(l), Box::new(e))
            }
            _ => Ast::Bin(*s.pick(&['+', '-', '*', '/', '%']), Box::new(l), Box::new(signed(s))),
        };
        if Eval::new(set, None).eval(&a) != Err(Fail::Undecided) {
            return write(&a, set.radix, s);
        }
    }
    "0".into()
}

fn display_gen(s: &mut Src, fractional: bool) -> Script {
    let mut set = settings(s);
    set.fractional = fractional;
    if s.pct(50) {
        set.upper = s.pct(50) && set.out_radix() > 10 || set.upper;
    }
    let n = s.size(1, 10);
    let mut lines = Vec::new();
    for _ in 0..n {
        if s.pct(20) {
            lines.push(small_expr(s, &set));
            continue;
        }
        let v = display_value(s, &set);
        let mut t = value_text(&v, set.radix, s);
        if fractional && s.pct(30) && !v.is_integer() {
            // Not in lowest terms.
            let k = BigInt::from(s.range(2, 60));
            let rad = u32::from(set.radix);
            t = format!(
                "{}/{}",
                if v.is_negative() {
                    format!("-{}", (v.numer().abs() * &k).to_str_radix(rad))
                } else {
                    (v.numer() * &k).to_str_radix(rad)
                },
                (v.denom() * &k).to_str_radix(rad)
            );
            if s.pct(30) {
                // A negative denominator.
                t = t.replacen('/', "/-", 1);
            }
        }
        lines.push(t);
    }
    let one_shot = s.pct(8);
    Script {
        flags: set,
        lines,
        one_shot,
    }
}

fn c05() -> Prop {
    prop(
        "C05",
        "exploration",
        "Random display settings (input and output radix 2-16, precision 0-120, commas, upper) and values aimed at ties, just off ties, runs of the largest digit, exact values with trailing zeros, comma boundaries, numbers of up to 400 digits and negatives that round to zero, entered as quotients; the text must be the one computed from the exact value by scaled integer rounding. Non-trivial: some value is rounded, or ends in dropped zeros, or is grouped, or has letter digits.",
        (15000, 150000),
        |s, _| display_gen(s, false),
        |c: &Script, obs| {
            play(c, obs, |l, before, got, obs| {
                let set = &before.set;
                if let Some(a) = ast_of(l, set.radix) {
                    if let Ok(Val::Exact(v)) = Eval::new(set, None).eval(&a) {
                        let scale = BigInt::from(set.out_radix()).pow(u32::from(set.precision));
                        let x = &v * Q::from_integer(scale);
                        let rounded = !x.is_integer();
                        let tie = (&x * q(2)).is_integer() && rounded;
                        for (on, name) in [
                            (rounded, "rounded"),
                            (tie, "tie"),
                            (tie && v.is_negative(), "negative tie"),
                            (got.contains(','), "grouped"),
                            (got.chars().any(|c| c.is_ascii_uppercase()), "upper case digits"),
                            (got.chars().any(|c| c.is_ascii_lowercase()), "lower case digits"),
                            (
                                !rounded && !v.is_integer() && set.precision > 0,
                                "exact fraction digits",
                            ),
                            (rounded && got.ends_with('0'), "rounded with trailing zero"),
                            (
                                v.is_negative() && !got.chars().any(|c| ('1'..='9').contains(&c)),
                                "negative that rounds to zero",
                            ),
                            (set.precision == 0, "precision 0"),
                        ] {
                            if on {
                                obs.class(name);
                                obs.nontrivial = true;
                            }
                        }
                    }
                }
            })
        },
    )
}

fn c06() -> Prop {
    prop(
        "C06",
        "exploration",
        "As C05 with fractional display: quotients not in lowest terms, with negative numerators and denominators, integers and zero, in random radixes with commas and upper and random precision; the text must be numerator/denominator of the reduced value. Non-trivial: some answer is a proper fraction that differs from the quotient entered, or negative, grouped, or in another radix.",
        (14000, 120000),
        |s, _| display_gen(s, true),
        |c: &Script, obs| {
            play(c, obs, |l, before, got, obs| {
                for (on, name) in [
                    (got.contains('/') && !l.contains(got), "reduced or rewritten"),
                    (got.starts_with('-'), "negative"),
                    (got.contains(','), "grouped"),
                    (before.set.convert.is_some(), "other output radix"),
                    (!got.contains('/'), "integer"),
                    (got.chars().any(|c| c.is_ascii_uppercase()), "upper case digits"),
                ] {
                    if on {
                        obs.class(name);
                        obs.nontrivial = true;
                    }
                }
            })
        },
    )
}

// ---------------------------------------------------------------- C07

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Trip {
    radix: u8,
    /// The value, as text in `radix`.
    value: String,
    fractional: bool,
    upper: bool,
    precision: u8,
    radixes: Vec<u8>,
}

fn c07_gen(s: &mut Src, _: bool) -> Trip {
    let radix = s.range(2, 16) as u8;
    let fractional = s.pct(50);
    let n = s.size(1, 6);
    let radixes: Vec<u8> = (0..n).map(|_| s.range(2, 16) as u8).collect();
    let mut v = if fractional {
        let d = natural(s, 10, 6) + BigInt::one();
        Q::new(natural(s, 10, 14), d)
    } else {
        // Finite in many radixes.
        let d = BigInt::from(*s.pick(&[1, 1, 2, 4, 8, 16, 3, 6, 12, 10, 30, 60, 64, 36]));
        Q::new(natural(s, 10, 14), d)
    };
    if s.pct(5) {
        let k = if fractional { wide(s, 10) + BigInt::one() } else { BigInt::from(64) };
        v = Q::new(wide(s, 10), k);
    }
    if s.pct(40) {
        v = -v;
    }
    Trip {
        radix,
        value: value_text(&v, radix, s),
        fractional,
        upper: s.pct(40),
        precision: match s.weighted(&[6, 2, 2]) {
            0 => s.range(0, 40),
            1 => s.range(0, 130),
            _ => s.range(0, 255),
        } as u8,
        radixes,
    }
}

fn c07_run(c: &Trip, obs: &mut Obs) -> Verdict {
    let dir = Scratch::new();
    let mut args = vec![
        "--no-db".to_string(),
        "--radix".into(),
        c.radix.to_string(),
        "--precision".into(),
        c.precision.to_string(),
    ];
    if c.fractional {
        args.push("--fractional".into());
    }
    if c.upper {
        args.push("--upper".into());
    }
    let mut s = get!(start(&Opts::args(args), dir.path()));
    let first = get!(ask(&mut s, &format!("$v = {}", c.value)));
    if is_error(&first) {
        return Verdict::Fail(format!("{:?} was answered {:?}", c.value, first));
    }
    let mut exact_chain = true;
    for r in &c.radixes {
        // Show the value in radix r, by conversion and by the radix setting.
        let done = get!(ask(&mut s, &format!("/converttoradix {}", r)));
        if done != "Done" {
            return Verdict::Fail(format!("/converttoradix {} was answered {:?}", r, done));
        }
        let shown = get!(ask(&mut s, "$v"));
        get!(ask(&mut s, "/converttoradix none"));
        get!(ask(&mut s, &format!("/radix {}", r)));
        let same = get!(ask(&mut s, "$v"));
        if same != shown {
            return Verdict::Fail(format!(
                "value {} of radix {}: shown as {:?} converted to radix {} but {:?} with that as the radix",
                c.value, c.radix, shown, r, same
            ));
        }
        // Entered again it is the same value, as far as the display was exact.
        let again = get!(ask(&mut s, &format!("$w = {}", shown)));
        let diff = get!(ask(&mut s, "$w - $v"));
        let exact = c.fractional || {
            // Exact iff multiplying by radix^precision gives an integer: ask with remainder.
            let set = Settings {
                radix: *r,
                precision: c.precision,
                ..Settings::default()
            };
            let a = ast_of(&c.value, c.radix).and_then(|a| {
                Eval::new(&Settings { radix: c.radix, ..Settings::default() }, None)
                    .eval(&a)
                    .ok()
            });
            match a {
                Some(Val::Exact(v)) => {
                    let sc = BigInt::from(set.radix).pow(u32::from(c.precision));
                    (v * Q::from_integer(sc)).is_integer()
                }
                _ => false,
            }
        };
        obs.count("round trips", 1);
        if exact {
            if again != shown || diff != "0" {
                return Verdict::Fail(format!(
                    "value {} of radix {} is shown as {:?} in radix {}; entering that gives {:?}, which differs by {:?}",
                    c.value, c.radix, shown, r, again, diff
                ));
            }
            obs.nontrivial = true;
            obs.class("exact");
            obs.class_if(shown.starts_with('-'), "negative");
            obs.class_if(shown.contains('/'), "fraction");
            obs.class_if(shown.contains('.'), "decimal fraction");
            if exact_chain {
                // Carry on with what was read.
                get!(ask(&mut s, "$v = $w"));
            }
        } else {
            exact_chain = false;
            obs.class("inexact");
            // A rounded display is still within half a unit; shown again it is the same text.
            let w = get!(ask(&mut s, "$w"));
            if c.precision > 0 && w != trim_point(&shown) {
                return Verdict::Fail(format!(
                    "{:?} in radix {} is shown as {:?} when entered",
                    shown, r, w
                ));
            }
        }
        get!(ask(&mut s, &format!("/radix {}", c.radix)));
        let back = get!(ask(&mut s, "$v"));
        if back != first {
            return Verdict::Fail(format!(
                "value {}: shown as {:?} at first and {:?} after a trip through radix {}",
                c.value, first, back, r
            ));
        }
    }
    tri!(finish(&mut s));
    Verdict::Pass
}

fn trim_point(t: &str) -> String {
    if !t.contains('.') {
        return t.to_string();
    }
    let t = t.trim_end_matches('0').trim_end_matches('.');
    if t == "-0" {
        "0".into()
    } else {
        t.to_string()
    }
}

fn c07() -> Prop {
    prop(
        "C07",
        "exploration",
        "A value and a chain of 1-6 radixes: it is shown in each radix by conversion and by the radix setting (which must agree), the printed text is entered again in that radix and must be the same value (difference 0) whenever the display was exact, and the original display must come back. The relation needs no reference value. Non-trivial: at least one exact round trip.",
        (8000, 80000),
        c07_gen,
        c07_run,
    )
}

// ---------------------------------------------------------------- C08

fn c08_gen(s: &mut Src, thorough: bool) -> Script {
    let mut set = Settings::default();
    if s.pct(50) {
        set.radix = s.range(2, 16) as u8;
    }
    if s.pct(30) {
        set.convert = Some(s.range(2, 16) as u8);
    }
    let far = s.pct(if thorough { 12 } else { 6 });
    // A degree so high that the iteration needs many steps.
    let high = !far && s.pct(4);
    set.precision = match s.weighted(&[5, 3, 2]) {
        _ if far => s.range(60, 230),
        _ if high => s.range(0, 5),
        0 => s.range(0, 8),
        1 => s.range(0, 30),
        _ => s.range(0, if thorough { 120 } else { 60 }),
    } as u8;
    set.extra = match s.weighted(&[5, 2]) {
        _ if far => s.range(0, 12),
        _ if high => s.range(0, 3),
        0 => s.range(0, 12),
        _ => s.range(0, 40),
    } as u8;
    set.fractional = s.pct(60);
    let n = if far || high { 1 } else { s.size(1, 6) };
    let mut lines = Vec::new();
    let rad = u32::from(set.radix);
    for _ in 0..n {
        let d = if far {
            *s.pick(&[2, 2, 2, 3])
        } else if high {
            if s.pct(50) {
                s.range(40, 64)
            } else {
                s.range(13, 64)
            }
        } else {
            *s.pick(&[2, 2, 2, 2, 3, 3, 4, 5, 6, 7, 8, 9, 10, 12])
        };
        let num = if far || high { 1 } else { *s.pick(&[1, 1, 1, 1, 2, 3, 4, 5]) };
        let mut base = match s.weighted(&[4, 3, 2, 2, 2]) {
            _ if far => Q::from_integer(natural(s, 10, 2)),
            // Little more than 1, which is far from where the iteration starts.
            _ if high && s.pct(50) => Q::new(BigInt::from(s.range(101, 500)), BigInt::from(100)),
            _ if high => Q::from_integer(natural(s, 10, 3)),
            0 => Q::from_integer(natural(s, set.radix, 6)),
            1 => Q::new(
                natural(s, set.radix, 5),
                natural(s, set.radix, 5) + BigInt::one(),
            ),
            2 => {
                // A perfect power, or next to one.
                let b = natural(s, set.radix, 5);
                Q::from_integer(b.pow(d as u32) + BigInt::from(s.range(-1, 1)))
            }
            3 => {
                // Very small or very large.
                let e = s.range(1, 40) as u32;
                let p = Q::from_integer(BigInt::from(set.radix).pow(e));
                let k = Q::from_integer(natural(s, set.radix, 2));
                if s.pct(50) {
                    k / p
                } else {
                    k * p
                }
            }
            _ => {
                // The square of a fraction.
                let f = Q::new(natural(s, 10, 3), natural(s, 10, 3) + BigInt::one());
                &f * &f
            }
        };
        if s.pct(15) {
            base = -base;
        }
        let neg_exp = s.pct(15);
        if neg_exp && base.is_zero() {
            base = Q::one();
        }
        let bt = format!(
            "({})",
            if base.is_integer() {
                base.numer().to_str_radix(rad)
            } else {
                format!(
                    "{}/{}",
                    base.numer().to_str_radix(rad),
                    base.denom().to_str_radix(rad)
                )
            }
        );
        let t = if d == 2 && num == 1 && !neg_exp && s.pct(60) {
            format!("sqrt{}", bt)
        } else {
            format!(
                "{}^({}{}/{})",
                bt,
                if neg_exp { "-" } else { "" },
                BigInt::from(num).to_str_radix(rad),
                BigInt::from(d).to_str_radix(rad)
            )
        };
        if !affordable(&t, &set, None) {
            continue;
        }
        match s.usize(4) {
            0 => {
                lines.push(format!("$r = {}", t));
                lines.push("/fractional true".into());
                lines.push("$r".into());
                lines.push("/fractional false".into());
            }
            1 => {
                // The sign belongs to the base.
                let t = format!("-{} + 1", t);
                if affordable(&t, &set, None) {
                    lines.push(t);
                }
            }
            _ => lines.push(t),
        }
    }
    Script {
        flags: set,
        lines,
        one_shot: false,
    }
}

fn c08() -> Prop {
    prop(
        "C08",
        "exploration",
        "Roots of degree 2-12, few up to 64, and fractional powers, negative ones included, of integers, fractions, perfect powers and their neighbours, very small and large numbers and negatives, under random radixes and precisions (total up to 100 digits, thorough 160); the answer, often shown as the exact internal fraction, must lie within one internal unit of the true root bracketed by integer root extraction, integer roots must be exact, even roots of negatives errors. Non-trivial: some root is irrational, fractional, negative or an error.",
        (9000, 80000),
        c08_gen,
        |c: &Script, obs| {
            play(c, obs, |l, before, got, obs| {
                if l.starts_with('/') {
                    return;
                }
                let a = match ast_of(l, before.set.radix) {
                    Some(a) => a,
                    None => return,
                };
                let known = before
                    .mem
                    .iter()
                    .filter_map(|(k, v)| v.clone().map(|v| (k.clone(), v)))
                    .collect();
                match Eval::new(&before.set, Some(&known)).eval(&a) {
                    Ok(Val::Approx(lo, hi)) => {
                        obs.nontrivial = true;
                        obs.class("inexact root");
                        obs.class_if(before.set.fractional, "internal value shown");
                        obs.class_if(hi.is_negative(), "negative root");
                        obs.class_if(hi.abs() < Q::one() && lo.abs() < Q::one(), "below one");
                        obs.class_if(before.set.out_radix() != before.set.radix, "other output radix");
                    }
                    Ok(_) => obs.class("exact root"),
                    Err(_) => {
                        obs.nontrivial = true;
                        obs.class("error");
                    }
                }
                let _ = got;
            })
        },
    )
}

pub fn all() -> Vec<Prop> {
    vec![c01(), c02(), c03(), c04(), c05(), c06(), c07(), c08()]
}
