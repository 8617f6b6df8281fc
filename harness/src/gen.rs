//! Generators shared by the properties.

use crate::choice::Src;
use crate::model::{Key, IGNORED, SAME_EDIT};
use crate::spec::*;
use num_bigint::BigInt;
use num_traits::{One, Signed, Zero};
use std::collections::HashMap;

pub const DIGITS: &[u8] = b"0123456789abcdef";

pub fn settings(s: &mut Src) -> Settings {
    let mut d = Settings::default();
    if s.pct(40) {
        d.radix = s.range(2, 16) as u8;
    }
    if s.pct(35) {
        d.convert = Some(if s.pct(20) { d.radix } else { s.range(2, 16) as u8 });
    }
    if s.pct(50) {
        d.precision = match s.weighted(&[12, 6, 2, 1, 2]) {
            0 => s.range(0, 9),
            1 => s.range(0, 40),
            2 => s.range(0, 120),
            4 => 0,
            _ => s.range(60, 245),
        } as u8;
    }
    if s.pct(30) {
        d.extra = match s.weighted(&[6, 3]) {
            0 => s.range(0, 12),
            _ => s.range(0, 60),
        } as u8;
        // The sum that /precision accepts.
        d.extra = d.extra.min(255 - d.precision);
    }
    d.fractional = s.pct(25);
    d.commas = s.pct(30);
    d.upper = s.pct(30);
    d
}

/// A natural number with up to `max` digits in `radix`, or a value near an interesting boundary.
pub fn natural(s: &mut Src, radix: u8, max: usize) -> BigInt {
    match s.weighted(&[8, 3, 2]) {
        0 => {
            let n = s.size(1, max.max(1));
            let mut v = BigInt::zero();
            for _ in 0..n {
                v = v * BigInt::from(radix) + BigInt::from(s.below(u64::from(radix)));
            }
            v
        }
        1 => BigInt::from(s.below(20)),
        _ => {
            // Around powers of two and of the radix.
            let (b, e) = match s.usize(4) {
                0 => (2u64, *s.pick(&[8u32, 16, 31, 32, 53, 62, 63, 64, 65, 127, 128])),
                1 => (u64::from(radix), s.below(max as u64 + 1) as u32),
                2 => (10, s.below(25) as u32),
                _ => (2, s.below(200) as u32),
            };
            let v = BigInt::from(b).pow(e) + BigInt::from(s.range(-2, 2));
            if v.is_negative() {
                BigInt::zero()
            } else {
                v
            }
        }
    }
}

/// A natural number of up to a few hundred digits.
pub fn wide(s: &mut Src, radix: u8) -> BigInt {
    let n = s.size(20, 400) as u32;
    let r = BigInt::from(radix);
    let v = match s.usize(4) {
        0 => r.pow(n) - BigInt::from(s.below(3)),
        1 => r.pow(n) + natural(s, radix, 20),
        2 => {
            // The same few digits again and again.
            let d = natural(s, radix, 4).to_str_radix(u32::from(radix));
            let t: String = d.repeat(n as usize / d.len() + 1);
            BigInt::parse_bytes(t.as_bytes(), u32::from(radix)).unwrap_or_else(BigInt::zero)
        }
        _ => natural(s, radix, n as usize),
    };
    if s.pct(20) {
        v * r.pow(s.below(60) as u32)
    } else {
        v
    }
}

/// A non-negative value that a literal can write in `radix`.
pub fn lit_value(s: &mut Src, radix: u8, max: usize) -> Q {
    let n = natural(s, radix, max);
    if s.pct(40) {
        let k = s.size(1, max.max(1)) as u32;
        Q::new(n, BigInt::from(radix).pow(k))
    } else {
        Q::from_integer(n)
    }
}

/// An integer around the bounds of machine integers, or a very small one, of either sign.
pub fn machine(s: &mut Src) -> Ast {
    let v = if s.pct(30) {
        BigInt::from(s.range(0, 3))
    } else {
        BigInt::from(2).pow(*s.pick(&[7, 8, 15, 16, 31, 32, 63, 64, 127, 128])) + BigInt::from(*s.pick(&[-1, 0, 0, 1]))
    };
    let a = Ast::Num(Q::from_integer(v));
    if s.pct(50) {
        Ast::Neg(bx(a))
    } else {
        a
    }
}

/// Integer powers with an exponent beyond what the value's size otherwise allows.
pub fn far_power(s: &mut Src) -> Ast {
    let pow = |b: Ast, e: Ast| Ast::Bin('^', bx(b), bx(e));
    if s.pct(40) {
        let b = Ast::Num(q(s.range(0, 1)));
        let b = if s.pct(40) { Ast::Neg(bx(b)) } else { b };
        let e = BigInt::from(2).pow(*s.pick(&[8, 15, 16, 20, 31, 32, 33, 63, 64, 65, 100])) + BigInt::from(s.range(-1, 1));
        let e = Ast::Num(Q::from_integer(e));
        let e = if s.pct(20) { Ast::Neg(bx(e)) } else { e };
        return pow(b, e);
    }
    let b = s.range(2, 3);
    let n = match s.usize(3) {
        0 => s.range(200, 300),
        1 => s.range(32_000, 33_000),
        _ => s.range(65_500, 65_600),
    };
    let k = n - s.range(0, 400).min(n - 1);
    let p = |n| pow(Ast::Num(q(b)), Ast::Num(q(n)));
    match s.usize(3) {
        0 => Ast::Bin('/', bx(p(n)), bx(p(k))),
        1 => Ast::Bin('*', bx(p(n)), bx(pow(Ast::Num(q(b)), Ast::Neg(bx(Ast::Num(q(k))))))),
        _ => Ast::Bin('%', bx(p(n)), bx(Ast::Num(q(s.range(2, 5000))))),
    }
}

/// Text of a literal for `v` in `radix`; plain without `s`.
pub fn lit_text(v: &Q, radix: u8, mut s: Option<&mut Src>) -> String {
    let big = BigInt::from(radix);
    let mut scale = 0usize;
    let mut n = v.clone();
    while !n.is_integer() {
        n *= Q::from_integer(big.clone());
        scale += 1;
        assert!(scale < 5000, "value has no finite expansion");
    }
    let mut d = n.to_integer().to_str_radix(u32::from(radix));
    let mut point = scale > 0;
    if let Some(s) = s.as_deref_mut() {
        if s.pct(10) {
            // Trailing zeros after the point.
            let k = s.usize(3);
            for _ in 0..k {
                d.push('0');
            }
            scale += k;
            point = true;
        }
    }
    while d.len() < scale {
        d.insert(0, '0');
    }
    if d.len() == scale {
        let bare = match s.as_deref_mut() {
            Some(s) => s.pct(40) && scale > 0,
            None => false,
        };
        if !bare {
            d.insert(0, '0');
        }
    }
    let mut out = String::new();
    let int = d.len() - scale;
    let len = d.len();
    for (i, c) in d.chars().enumerate() {
        if i == int && point {
            out.push('.');
        }
        if let Some(s) = s.as_deref_mut() {
            if s.pct(4) {
                out.push('_');
            }
            if c.is_ascii_alphabetic() && s.pct(30) {
                out.push(c.to_ascii_uppercase());
                continue;
            }
        }
        out.push(c);
    }
    if int == len && point {
        out.push('.');
    }
    if let Some(s) = s {
        if s.pct(3) {
            out.insert(0, '0');
        }
        if s.pct(2) {
            out.push('_');
        }
    }
    out
}

#[derive(Clone, Debug)]
pub struct ExprCfg {
    pub radix: u8,
    pub vars: Vec<String>,
    /// Digits per literal.
    pub digits: usize,
    /// Inexact and exact roots.
    pub roots: bool,
    /// Mostly function calls.
    pub calls: bool,
    pub depth: usize,
}

impl ExprCfg {
    pub fn new(radix: u8) -> ExprCfg {
        ExprCfg {
            radix,
            vars: Vec::new(),
            digits: 8,
            roots: false,
            calls: false,
            depth: 4,
        }
    }
}

fn small(s: &mut Src, hi: i64) -> Ast {
    Ast::Num(q(s.range(0, hi)))
}

fn bx(a: Ast) -> Box<Ast> {
    Box::new(a)
}

pub fn expr(s: &mut Src, c: &ExprCfg) -> Ast {
    let mut budget = 24usize;
    expr_at(s, c, c.depth, &mut budget)
}

fn leaf(s: &mut Src, c: &ExprCfg) -> Ast {
    if !c.vars.is_empty() && s.pct(35) {
        return Ast::Var(s.pick(&c.vars).clone());
    }
    Ast::Num(lit_value(s, c.radix, c.digits))
}

fn expr_at(s: &mut Src, c: &ExprCfg, depth: usize, budget: &mut usize) -> Ast {
    if depth == 0 || *budget == 0 {
        return leaf(s, c);
    }
    *budget -= 1;
    let root_w = if c.roots { 8 } else { 0 };
    let w = if c.calls {
        [12, 12, 6, 3, 8, 40, root_w]
    } else {
        [16, 44, 10, 8, 6, 8, root_w]
    };
    match s.weighted(&w) {
        0 => leaf(s, c),
        1 => {
            let op = *s.pick(&['+', '-', '*', '/', '%']);
            let l = expr_at(s, c, depth - 1, budget);
            let r = expr_at(s, c, depth - 1, budget);
            Ast::Bin(op, bx(l), bx(r))
        }
        2 => {
            let mut e = Ast::Neg(bx(expr_at(s, c, depth - 1, budget)));
            if s.pct(15) {
                // Many signs.
                for _ in 0..s.size(1, 6) {
                    e = Ast::Neg(bx(e));
                }
            }
            e
        }
        3 => {
            let l = expr_at(s, c, depth - 1, budget);
            let mut e = small(s, 9);
            if s.pct(30) {
                e = Ast::Neg(bx(e));
            }
            Ast::Bin('^', bx(l), bx(e))
        }
        4 => Ast::Abs(bx(expr_at(s, c, depth - 1, budget))),
        5 => {
            let n = if s.pct(8) { s.range(5, 24) as usize } else { s.size(1, 4) };
            let args = if s.pct(30) {
                close(s, c, n)
            } else if n > 4 {
                (0..n).map(|_| expr_at(s, c, 1, budget)).collect()
            } else {
                (0..n).map(|_| expr_at(s, c, depth - 1, budget)).collect()
            };
            if s.pct(50) {
                Ast::Max(args)
            } else {
                Ast::Min(args)
            }
        }
        _ => {
            let inner = expr_at(s, c, depth - 1, budget);
            match s.weighted(&[4, 3, 3]) {
                0 => Ast::Sqrt(bx(inner)),
                1 => {
                    // A root that is an integer.
                    let d = s.range(2, 4);
                    let b = natural(s, c.radix, 4);
                    let p = Ast::Num(Q::from_integer(b.pow(d as u32)));
                    if d == 2 && s.pct(50) {
                        Ast::Sqrt(bx(p))
                    } else {
                        Ast::Bin('^', bx(p), bx(frac(1, d)))
                    }
                }
                _ => {
                    let n = s.range(1, 5);
                    let d = s.range(2, 5);
                    let mut e = frac(n, d);
                    if s.pct(25) {
                        e = Ast::Neg(bx(e));
                    }
                    Ast::Bin('^', bx(inner), bx(e))
                }
            }
        }
    }
}

/// Operands that hardly differ, or differ in sign only.
fn close(s: &mut Src, c: &ExprCfg, n: usize) -> Vec<Ast> {
    let v = lit_value(s, c.radix, c.digits);
    let neg = s.pct(30);
    (0..=n)
        .map(|_| {
            let d = Q::new(
                BigInt::from(s.range(-2, 2)),
                BigInt::from(c.radix).pow(s.size(0, c.digits) as u32),
            );
            let w = if s.pct(20) { v.clone() } else { &v + d };
            let a = Ast::Num(w.abs());
            if w.is_negative() != (neg ^ s.pct(5)) {
                Ast::Neg(bx(a))
            } else {
                a
            }
        })
        .collect()
}

fn frac(n: i64, d: i64) -> Ast {
    Ast::Bin('/', bx(Ast::Num(q(n))), bx(Ast::Num(q(d))))
}

/// An expression the reference can evaluate (or that it says is an error).
pub fn decided(
    s: &mut Src,
    c: &ExprCfg,
    set: &Settings,
    vars: Option<&HashMap<String, Val>>,
) -> (Ast, Result<Val, Fail>) {
    for _ in 0..6 {
        let a = expr(s, c);
        let r = Eval::new(set, vars).eval(&a);
        if r != Err(Fail::Undecided) {
            return (a, r);
        }
    }
    (Ast::Num(q(1)), Ok(Val::Exact(Q::one())))
}

// ---------------------------------------------------------------- writing expressions

#[derive(Clone, Copy, PartialEq)]
pub enum Style {
    /// The fewest parentheses.
    Minimal,
    /// Extra parentheses at random that repeat the grouping.
    Redundant,
    /// Parentheses around every compound operand.
    Full,
}

fn is_operand(a: &Ast) -> bool {
    !matches!(a, Ast::Bin(..))
}

pub fn tokens(a: &Ast, radix: u8, style: Style, s: &mut Src) -> Vec<String> {
    let mut out = Vec::new();
    put(a, radix, style, s, &mut out);
    out
}

fn paren(a: &Ast, radix: u8, style: Style, s: &mut Src, out: &mut Vec<String>) {
    // Now and then the same parentheses many times over.
    let k = if style == Style::Redundant && out.len() < 150 && s.pct(2) {
        s.range(2, 90) as usize
    } else {
        1
    };
    for _ in 0..k {
        out.push("(".into());
    }
    put(a, radix, style, s, out);
    for _ in 0..k {
        out.push(")".into());
    }
}

fn sub(a: &Ast, need: bool, radix: u8, style: Style, s: &mut Src, out: &mut Vec<String>) {
    let extra = match style {
        Style::Minimal => false,
        Style::Redundant => s.pct(25),
        Style::Full => !matches!(a, Ast::Num(_) | Ast::Var(_)),
    };
    if need || extra {
        paren(a, radix, style, s, out);
    } else {
        put(a, radix, style, s, out);
    }
}

fn put(a: &Ast, radix: u8, style: Style, s: &mut Src, out: &mut Vec<String>) {
    match a {
        Ast::Num(n) => {
            let t = if style == Style::Full {
                lit_text(n, radix, None)
            } else {
                lit_text(n, radix, Some(s))
            };
            out.push(t);
        }
        Ast::Var(v) => out.push(v.clone()),
        Ast::Neg(e) => {
            out.push("-".into());
            sub(e, !is_operand(e), radix, style, s, out);
        }
        Ast::Sqrt(e) | Ast::Abs(e) => {
            out.push(if matches!(a, Ast::Sqrt(_)) { "sqrt" } else { "abs" }.into());
            sub(e, !is_operand(e), radix, style, s, out);
        }
        Ast::Max(l) | Ast::Min(l) => {
            out.push(if matches!(a, Ast::Max(_)) { "max" } else { "min" }.into());
            if l.len() == 1 && is_operand(&l[0]) && style != Style::Full && s.pct(40) {
                put(&l[0], radix, style, s, out);
            } else {
                out.push("(".into());
                for (i, e) in l.iter().enumerate() {
                    if i > 0 {
                        out.push(",".into());
                    }
                    sub(e, false, radix, style, s, out);
                }
                out.push(")".into());
            }
        }
        Ast::Bin(op, l, r) => {
            let lv = level(*op);
            let lneed = match &**l {
                Ast::Bin(o, _, _) => level(*o) < lv,
                _ => false,
            };
            let rneed = match &**r {
                Ast::Bin(o, _, _) => level(*o) <= lv,
                _ => false,
            };
            sub(l, lneed, radix, style, s, out);
            out.push(op.to_string());
            sub(r, rneed, radix, style, s, out);
        }
    }
}

fn wordy(t: &str) -> bool {
    !(t.len() == 1 && "+-*/%^()=,".contains(t))
}

/// Joins tokens with whitespace where it is needed and sometimes where it isn't.
pub fn join(t: &[String], s: &mut Src, space_pct: u64) -> String {
    let mut out = String::new();
    for (i, w) in t.iter().enumerate() {
        if i > 0 {
            let need = wordy(&t[i - 1]) && wordy(w);
            if need || s.pct(space_pct) {
                out.push(' ');
                if s.pct(10) {
                    out.push_str(&" ".repeat(1 + s.usize(3)));
                }
            }
        }
        out.push_str(w);
    }
    out
}

/// Tokens with single spaces only where needed.
pub fn join_tight(t: &[String]) -> String {
    let mut out = String::new();
    for (i, w) in t.iter().enumerate() {
        if i > 0 && wordy(&t[i - 1]) && wordy(w) {
            out.push(' ');
        }
        out.push_str(w);
    }
    out
}

pub fn write(a: &Ast, radix: u8, s: &mut Src) -> String {
    let style = match s.weighted(&[5, 4, 1]) {
        0 => Style::Minimal,
        1 => Style::Redundant,
        _ => Style::Full,
    };
    let t = tokens(a, radix, style, s);
    let sp = *s.pick(&[0, 15, 60, 100]);
    join(&t, s, sp)
}

/// `/` at the start would be a command; expressions never start with it.
pub fn reparses(text: &str, radix: u8, a: &Ast) -> bool {
    match lex(text, radix) {
        Some(Lexed::Toks(t)) => match parse(&t) {
            Some(st) => st.assign.is_none() && same(&st.expr, a),
            None => false,
        },
        _ => false,
    }
}

fn same(a: &Ast, b: &Ast) -> bool {
    a == b
}

// ---------------------------------------------------------------- names, text, keys

pub fn var_name(s: &mut Src) -> String {
    match s.weighted(&[18, 6, 6, 3, 2]) {
        4 => {
            // Long ones that differ late, or by their length.
            let base = *s.pick(&["ab_long_name_", "x", "$"]);
            let n = s.range(1, 70) as usize;
            let mut t: String = "$".chars().chain(base.chars().cycle().take(n)).collect();
            if s.pct(50) {
                t.push(*s.pick(b"0123") as char);
            }
            t
        }
        0 => (*s.pick(&["$x", "$y", "$z", "$foo", "$bar"])).to_string(),
        1 => (*s.pick(&["$X", "$Foo", "$FOO", "$x1", "$x_1", "$x.", "$xx"])).to_string(),
        2 => {
            let n = s.size(1, 12);
            let mut t = "$".to_string();
            for _ in 0..n {
                t.push(*s.pick(b"abcxyzABC019_.$'\"!:;&|<>?@[]{}#~\\`") as char);
            }
            t
        }
        _ => (*s.pick(&["$", "$$", "$1", "$sqrt", "$max", "$a$b", "$0.5", "$'; DROP"]))
            .replace(' ', "")
            .to_string(),
    }
}

/// Distinct variable names.
pub fn names(s: &mut Src, lo: usize, hi: usize) -> Vec<String> {
    let n = s.size(lo, hi);
    let mut v: Vec<String> = Vec::new();
    for i in 0..n {
        let mut x = var_name(s);
        if i > 0 && s.pct(18) {
            // One that another begins with, or the same but for the end.
            x = s.pick(&v).clone();
            if x.len() > 2 && s.pct(50) {
                x.pop();
            }
            if s.pct(70) {
                x.push(*s.pick(b"_.0122xXa$") as char);
            }
        }
        while v.contains(&x) {
            x.push('q');
        }
        v.push(x);
    }
    v
}

/// Any text the prompt accepts (printable ASCII).
pub fn printable(s: &mut Src, max: usize) -> String {
    let n = s.size(0, max);
    (0..n)
        .map(|_| match s.weighted(&[3, 2]) {
            0 => *s.pick(b"0123456789+-*/%^()=,$x. _abf") as char,
            _ => (0x20 + s.below(0x5f) as u8) as char,
        })
        .collect()
}

/// A sequence of tokens without regard to grammar.
pub fn soup(s: &mut Src, radix: u8, max: usize) -> Vec<String> {
    let n = s.size(1, max);
    (0..n)
        .map(|_| match s.weighted(&[6, 6, 3, 2, 1, 2]) {
            0 => {
                let v = lit_value(s, radix, 2);
                lit_text(&v, radix, None)
            }
            1 => (*s.pick(&["+", "-", "*", "/", "%", "^"])).to_string(),
            2 => (*s.pick(&["(", ")"])).to_string(),
            3 => (*s.pick(&["sqrt", "abs", "max", "min"])).to_string(),
            4 => (*s.pick(&["=", ",", "$x", "$y"])).to_string(),
            _ => (*s.pick(&["(", ")", "max(", ","])).to_string(),
        })
        .collect()
}

/// Can `text` be sent to bcalc without asking for an unbounded amount of work?
pub fn affordable(text: &str, set: &Settings, vars: Option<&HashMap<String, Val>>) -> bool {
    match lex(text, set.radix) {
        Some(Lexed::Toks(t)) => match parse(&t) {
            None => true,
            Some(st) => Eval::new(set, vars).eval(&st.expr) != Err(Fail::Undecided),
        },
        _ => true,
    }
}

pub fn key(s: &mut Src) -> Key {
    match s.weighted(&[40, 8, 6, 8, 6, 5, 4, 4, 3, 4, 5, 5]) {
        0 => Key::Ch((0x20 + s.below(0x5f) as u8) as char),
        1 => Key::Back,
        2 => Key::Del,
        3 => Key::Left,
        4 => Key::Right,
        5 => Key::LeftFar(s.pct(50)),
        6 => Key::RightFar(s.pct(50)),
        7 => Key::Home,
        8 => Key::End,
        9 => Key::Nothing(s.usize(IGNORED.len())),
        10 => Key::Ch(*s.pick(&['(', ')'])),
        _ => Key::Same(s.usize(SAME_EDIT)),
    }
}
