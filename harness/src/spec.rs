//! The reference: what an input means, written from the properties and the user documentation,
//! independent of bcalc's own code.

use num_bigint::{BigInt, Sign};
use num_integer::Integer;
use num_rational::BigRational;
use num_traits::{One, Signed, ToPrimitive, Zero};
use serde::{Deserialize, Serialize};
use std::collections::HashMap;

pub type Q = BigRational;

pub fn q(n: i64) -> Q {
    Q::from_integer(BigInt::from(n))
}

// ---------------------------------------------------------------- settings

#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub struct Settings {
    pub radix: u8,
    pub convert: Option<u8>,
    pub precision: u8,
    pub extra: u8,
    pub fractional: bool,
    pub commas: bool,
    pub upper: bool,
}

impl Default for Settings {
    fn default() -> Settings {
        Settings {
            radix: 10,
            convert: None,
            precision: 5,
            extra: 10,
            fractional: false,
            commas: false,
            upper: false,
        }
    }
}

impl Settings {
    pub fn out_radix(&self) -> u8 {
        self.convert.unwrap_or(self.radix)
    }
    /// One unit of the last internal digit.
    pub fn unit(&self) -> Q {
        let r = self.radix.max(self.out_radix());
        let total = u32::from(self.precision) + u32::from(self.extra);
        Q::new(BigInt::one(), BigInt::from(r).pow(total))
    }
    /// As command line flags.
    pub fn flags(&self) -> Vec<String> {
        let d = Settings::default();
        let mut v = Vec::new();
        if self.radix != d.radix {
            v.push("--radix".into());
            v.push(self.radix.to_string());
        }
        if let Some(c) = self.convert {
            v.push("--convert-to-radix".into());
            v.push(c.to_string());
        }
        if self.precision != d.precision {
            v.push("--precision".into());
            v.push(self.precision.to_string());
        }
        if self.extra != d.extra {
            v.push("--extra-precision".into());
            v.push(self.extra.to_string());
        }
        for (on, name) in [
            (self.fractional, "--fractional"),
            (self.commas, "--commas"),
            (self.upper, "--upper"),
        ] {
            if on {
                v.push(name.into());
            }
        }
        v
    }
}

// ---------------------------------------------------------------- tokens

#[derive(Clone, Debug, PartialEq)]
pub enum Tok {
    Num(Q),
    Var(String),
    Op(char), // + - * / % ^ ( ) = ,
    Sqrt,
    Abs,
    Max,
    Min,
}

#[derive(Clone, Debug, PartialEq)]
pub enum Lexed {
    Toks(Vec<Tok>),
    Command(String, String),
}

fn digit(c: char) -> Option<u32> {
    c.to_digit(16)
}

/// A number literal, or None when the text isn't one.
pub fn literal(word: &str, radix: u8) -> Option<Q> {
    let mut value = BigInt::zero();
    let mut scale: Option<u32> = None;
    let mut any = false;
    for c in word.chars() {
        match c {
            '_' => {}
            '.' if scale.is_none() => scale = Some(0),
            _ => {
                let d = digit(c)?;
                if d >= u32::from(radix) {
                    return None;
                }
                any = true;
                value = value * BigInt::from(radix) + BigInt::from(d);
                if let Some(s) = &mut scale {
                    *s += 1;
                }
            }
        }
    }
    if !any {
        return None;
    }
    Some(Q::new(value, BigInt::from(radix).pow(scale.unwrap_or(0))))
}

/// None: the text is rejected.
pub fn lex(input: &str, radix: u8) -> Option<Lexed> {
    if !input.is_ascii() {
        return None;
    }
    let t = input.trim_start();
    if let Some(rest) = t.strip_prefix('/') {
        let end = rest
            .find(|c: char| c.is_ascii_whitespace())
            .unwrap_or(rest.len());
        let args = if end < rest.len() { &rest[end + 1..] } else { "" };
        return Some(Lexed::Command(rest[..end].to_string(), args.to_string()));
    }
    let mut toks = Vec::new();
    let mut word = String::new();
    for c in input.chars().chain(std::iter::once(' ')) {
        let op = "+-*/%^()=,".contains(c);
        if op || c.is_ascii_whitespace() {
            if !word.is_empty() {
                toks.push(match word.as_str() {
                    "sqrt" => Tok::Sqrt,
                    "abs" => Tok::Abs,
                    "max" => Tok::Max,
                    "min" => Tok::Min,
                    w if w.starts_with('$') => Tok::Var(w.to_string()),
                    w => Tok::Num(literal(w, radix)?),
                });
                word.clear();
            }
            if op {
                toks.push(Tok::Op(c));
            }
        } else {
            word.push(c);
        }
    }
    Some(Lexed::Toks(toks))
}

// ---------------------------------------------------------------- syntax

#[derive(Clone, Debug, PartialEq)]
pub enum Ast {
    Num(Q),
    Var(String),
    Neg(Box<Ast>),
    Sqrt(Box<Ast>),
    Abs(Box<Ast>),
    Max(Vec<Ast>),
    Min(Vec<Ast>),
    Bin(char, Box<Ast>, Box<Ast>),
}

#[derive(Clone, Debug, PartialEq)]
pub struct Stmt {
    pub assign: Option<String>,
    pub expr: Ast,
}

struct Parser<'a> {
    t: &'a [Tok],
    i: usize,
}

pub fn level(op: char) -> Option<u8> {
    match op {
        '+' | '-' => Some(0),
        '*' | '/' => Some(1),
        '%' => Some(2),
        '^' => Some(3),
        _ => None,
    }
}

impl<'a> Parser<'a> {
    fn peek(&self) -> Option<&'a Tok> {
        self.t.get(self.i)
    }
    fn op(&mut self, c: char) -> bool {
        if self.peek() == Some(&Tok::Op(c)) {
            self.i += 1;
            true
        } else {
            false
        }
    }
    fn binary(&mut self, lvl: u8) -> Option<Ast> {
        if lvl == 4 {
            return self.operand();
        }
        let mut left = self.binary(lvl + 1)?;
        while let Some(Tok::Op(c)) = self.peek() {
            if level(*c) != Some(lvl) {
                break;
            }
            self.i += 1;
            let right = self.binary(lvl + 1)?;
            left = Ast::Bin(*c, Box::new(left), Box::new(right));
        }
        Some(left)
    }
    fn operand(&mut self) -> Option<Ast> {
        let t = self.peek()?;
        self.i += 1;
        match t {
            Tok::Num(n) => Some(Ast::Num(n.clone())),
            Tok::Var(v) => Some(Ast::Var(v.clone())),
            Tok::Op('-') => Some(Ast::Neg(Box::new(self.operand()?))),
            Tok::Op('(') => {
                let e = self.binary(0)?;
                if self.op(')') {
                    Some(e)
                } else {
                    None
                }
            }
            Tok::Sqrt => Some(Ast::Sqrt(Box::new(self.operand()?))),
            Tok::Abs => Some(Ast::Abs(Box::new(self.operand()?))),
            Tok::Max | Tok::Min => {
                let mut args = Vec::new();
                if self.op('(') {
                    loop {
                        args.push(self.binary(0)?);
                        if self.op(')') {
                            break;
                        }
                        if !self.op(',') {
                            return None;
                        }
                    }
                } else {
                    args.push(self.operand()?);
                }
                Some(if *t == Tok::Max {
                    Ast::Max(args)
                } else {
                    Ast::Min(args)
                })
            }
            Tok::Op(_) => None,
        }
    }
}

/// None: malformed.
pub fn parse(t: &[Tok]) -> Option<Stmt> {
    let mut p = Parser { t, i: 0 };
    let mut assign = None;
    if let (Some(Tok::Var(v)), Some(Tok::Op('='))) = (t.first(), t.get(1)) {
        assign = Some(v.clone());
        p.i = 2;
    }
    let expr = p.binary(0)?;
    if p.i < t.len() {
        return None;
    }
    Some(Stmt { assign, expr })
}

// ---------------------------------------------------------------- values

#[derive(Clone, Debug, PartialEq)]
pub enum Val {
    Exact(Q),
    /// Somewhere in lo..=hi.
    Approx(Q, Q),
}

#[derive(Clone, Debug, PartialEq)]
pub enum Fail {
    DivisionByZero,
    EvenRoot,
    UnknownVar(String),
    NoVars,
    /// Outside what the reference decides (an operation on an approximate value whose result
    /// isn't determined, or one too costly).
    Undecided,
}

impl Val {
    pub fn lo(&self) -> &Q {
        match self {
            Val::Exact(v) | Val::Approx(v, _) => v,
        }
    }
    pub fn hi(&self) -> &Q {
        match self {
            Val::Exact(v) | Val::Approx(_, v) => v,
        }
    }
    pub fn is_exact(&self) -> bool {
        matches!(self, Val::Exact(_))
    }
    fn of(lo: Q, hi: Q, exact: bool) -> Val {
        if exact {
            Val::Exact(lo)
        } else {
            Val::Approx(lo, hi)
        }
    }
}

fn bits(v: &Q) -> u64 {
    v.numer().bits() + v.denom().bits()
}

const MAX_BITS: u64 = 120_000;
/// Higher roots are out of what the reference decides (bcalc documents that it cannot cancel long
/// calculations), except with few digits.
const MAX_ROOT: u32 = 12;
const MAX_SHORT_ROOT: u32 = 64;

fn pow_q(b: &Q, n: u32) -> Q {
    // Numerator and denominator stay coprime.
    Q::new_raw(b.numer().pow(n), b.denom().pow(n))
}

pub struct Eval<'a> {
    pub set: &'a Settings,
    pub vars: Option<&'a HashMap<String, Val>>,
    /// Number of inexact roots taken.
    pub roots: usize,
}

impl<'a> Eval<'a> {
    pub fn new(set: &'a Settings, vars: Option<&'a HashMap<String, Val>>) -> Eval<'a> {
        Eval {
            set,
            vars,
            roots: 0,
        }
    }

    pub fn eval(&mut self, a: &Ast) -> Result<Val, Fail> {
        let v = self.eval_inner(a)?;
        if bits(v.lo()) > MAX_BITS || bits(v.hi()) > MAX_BITS {
            return Err(Fail::Undecided);
        }
        Ok(v)
    }

    fn eval_inner(&mut self, a: &Ast) -> Result<Val, Fail> {
        match a {
            Ast::Num(n) => Ok(Val::Exact(n.clone())),
            Ast::Var(name) => match self.vars {
                None => Err(Fail::NoVars),
                Some(m) => m
                    .get(name)
                    .cloned()
                    .ok_or_else(|| Fail::UnknownVar(name.clone())),
            },
            Ast::Neg(e) => {
                let v = self.eval(e)?;
                Ok(Val::of(-v.hi().clone(), -v.lo().clone(), v.is_exact()))
            }
            Ast::Abs(e) => {
                let v = self.eval(e)?;
                if !v.lo().is_negative() {
                    Ok(v)
                } else if !v.hi().is_positive() {
                    Ok(Val::of(-v.hi().clone(), -v.lo().clone(), v.is_exact()))
                } else {
                    let m = std::cmp::max(-v.lo().clone(), v.hi().clone());
                    Ok(Val::Approx(Q::zero(), m))
                }
            }
            Ast::Sqrt(e) => {
                let v = self.eval(e)?;
                self.root(&v, 2)
            }
            Ast::Max(args) | Ast::Min(args) => {
                let is_max = matches!(a, Ast::Max(_));
                let mut best: Option<Val> = None;
                for e in args {
                    let v = self.eval(e)?;
                    best = Some(match best {
                        None => v,
                        Some(b) => {
                            let f = |x: &Q, y: &Q| {
                                if (x > y) == is_max {
                                    x.clone()
                                } else {
                                    y.clone()
                                }
                            };
                            Val::of(
                                f(b.lo(), v.lo()),
                                f(b.hi(), v.hi()),
                                b.is_exact() && v.is_exact(),
                            )
                        }
                    });
                }
                best.ok_or(Fail::Undecided)
            }
            Ast::Bin(op, l, r) => {
                let l = self.eval(l)?;
                let r = self.eval(r)?;
                self.bin(*op, &l, &r)
            }
        }
    }

    fn bin(&mut self, op: char, l: &Val, r: &Val) -> Result<Val, Fail> {
        let ex = l.is_exact() && r.is_exact();
        match op {
            '+' => Ok(Val::of(l.lo() + r.lo(), l.hi() + r.hi(), ex)),
            '-' => Ok(Val::of(l.lo() - r.hi(), l.hi() - r.lo(), ex)),
            '*' | '/' => {
                let div = op == '/';
                if div {
                    if r.lo().is_zero() && r.is_exact() {
                        return Err(Fail::DivisionByZero);
                    }
                    if !r.lo().is_positive() && !r.hi().is_negative() {
                        return Err(Fail::Undecided);
                    }
                }
                let mut c = Vec::new();
                for x in [l.lo(), l.hi()] {
                    for y in [r.lo(), r.hi()] {
                        c.push(if div { x / y } else { x * y });
                        if ex {
                            break;
                        }
                    }
                    if ex {
                        break;
                    }
                }
                c.sort();
                Ok(Val::of(c[0].clone(), c[c.len() - 1].clone(), ex))
            }
            '%' => {
                if r.lo().is_zero() && r.is_exact() {
                    return Err(Fail::DivisionByZero);
                }
                if !ex {
                    if !r.lo().is_positive() && !r.hi().is_negative() {
                        return Err(Fail::Undecided);
                    }
                    // It has the sign of the dividend and is smaller than either operand.
                    let size = |v: &Val| std::cmp::max(v.lo().abs(), v.hi().abs());
                    let m = std::cmp::min(size(l), size(r));
                    let lo = if l.lo().is_negative() { -m.clone() } else { Q::zero() };
                    let hi = if l.hi().is_positive() { m } else { Q::zero() };
                    return Ok(Val::Approx(lo, hi));
                }
                // The remainder of truncated division.
                let quot = (l.lo() / r.lo()).trunc();
                Ok(Val::Exact(l.lo() - quot * r.lo()))
            }
            '^' => {
                let e = match r {
                    Val::Exact(e) => e,
                    _ => return Err(Fail::Undecided),
                };
                let unit = l.is_exact() && l.lo().is_integer() && l.lo().abs() <= Q::one();
                if unit && e.is_integer() && !e.is_zero() {
                    // 0, 1 and -1 can be raised to anything.
                    if l.lo().is_zero() && e.is_negative() {
                        return Err(Fail::DivisionByZero);
                    }
                    let even = (e.numer() % 2u8).is_zero();
                    let v = if even { l.lo().abs() } else { l.lo().clone() };
                    return Ok(Val::Exact(v));
                }
                let n = e.numer().abs().to_u32().ok_or(Fail::Undecided)?;
                let d = e.denom().to_u32().ok_or(Fail::Undecided)?;
                let cost = u64::from(n) * bits(l.lo()).max(bits(l.hi()));
                if cost > MAX_BITS {
                    return Err(Fail::Undecided);
                }
                if n == 0 {
                    return Ok(Val::Exact(Q::one()));
                }
                let mut b = l.clone();
                if e.is_negative() {
                    if b.is_exact() && b.lo().is_zero() {
                        return Err(Fail::DivisionByZero);
                    }
                    if !b.lo().is_positive() && !b.hi().is_negative() {
                        return Err(Fail::Undecided);
                    }
                    b = Val::of(b.hi().recip(), b.lo().recip(), b.is_exact());
                }
                let (pl, ph) = (pow_q(b.lo(), n), pow_q(b.hi(), n));
                let p = if b.is_exact() || n % 2 == 1 || !b.lo().is_negative() {
                    Val::of(pl, ph, b.is_exact())
                } else if !b.hi().is_positive() {
                    Val::Approx(ph, pl)
                } else {
                    Val::Approx(Q::zero(), std::cmp::max(pl, ph))
                };
                self.root(&p, d)
            }
            _ => Err(Fail::Undecided),
        }
    }

    fn root(&mut self, v: &Val, d: u32) -> Result<Val, Fail> {
        if d == 1 {
            return Ok(v.clone());
        }
        if d % 2 == 0 {
            if v.hi().is_negative() {
                return Err(Fail::EvenRoot);
            }
            if v.lo().is_negative() {
                return Err(Fail::Undecided);
            }
        }
        // The time bcalc takes for a root grows with the cube of the size of the radicand.
        let few = u32::from(self.set.precision) + u32::from(self.set.extra) <= 16;
        if d > if few { MAX_SHORT_ROOT } else { MAX_ROOT } || (bits(v.lo()) + bits(v.hi())) * u64::from(d) > 8_000 {
            return Err(Fail::Undecided);
        }
        if let Val::Exact(x) = v {
            if x.is_integer() {
                let r = nth_root_floor(&x.numer().abs(), d);
                if r.pow(d) == x.numer().abs() {
                    let r = if x.is_negative() { -r } else { r };
                    return Ok(Val::Exact(Q::from_integer(r)));
                }
            }
        }
        self.roots += 1;
        let unit = self.set.unit();
        let (lo, _) = root_bounds(v.lo(), d, &unit);
        let (_, hi) = root_bounds(v.hi(), d, &unit);
        Ok(Val::Approx(lo - &unit, hi + &unit))
    }
}

pub fn nth_root_floor(x: &BigInt, d: u32) -> BigInt {
    x.nth_root(d)
}

/// Bounds of the real d-th root of x, much closer than `unit`.
pub fn root_bounds(x: &Q, d: u32, unit: &Q) -> (Q, Q) {
    if x.is_negative() {
        let (l, h) = root_bounds(&-x.clone(), d, unit);
        return (-h, -l);
    }
    // floor(root * s) for s = 10000 / unit.
    let s = unit.denom() * BigInt::from(10_000);
    let scaled = (x.numer() * s.pow(d)).div_floor(x.denom());
    let f = nth_root_floor(&scaled, d);
    let hi = &f + BigInt::one();
    (Q::new(f, s.clone()), Q::new(hi, s))
}

// ---------------------------------------------------------------- output

pub fn digits(n: &BigInt, radix: u8, upper: bool) -> String {
    let s = n.to_str_radix(u32::from(radix));
    if upper {
        s.to_uppercase()
    } else {
        s
    }
}

fn group(s: &str) -> String {
    let mut out = String::new();
    for (i, c) in s.chars().enumerate() {
        if i > 0 && (s.len() - i) % 3 == 0 {
            out.push(',');
        }
        out.push(c);
    }
    out
}

/// round(|v| * radix^precision), half up.
fn scaled_round(v: &Q, scale: &BigInt) -> BigInt {
    let two = BigInt::from(2);
    let n = v.numer().abs() * scale * &two + v.denom();
    n.div_floor(&(v.denom() * &two))
}

fn decimal_text(neg: bool, n: &BigInt, trim: bool, s: &Settings) -> String {
    let p = usize::from(s.precision);
    let mut d = digits(n, s.out_radix(), s.upper);
    while d.len() < p + 1 {
        d.insert(0, '0');
    }
    let (int, frac) = d.split_at(d.len() - p);
    let mut frac = frac.to_string();
    if trim {
        while frac.ends_with('0') {
            frac.pop();
        }
    }
    let mut out = String::new();
    if neg {
        out.push('-');
    }
    out.push_str(&if s.commas {
        group(int)
    } else {
        int.to_string()
    });
    if !frac.is_empty() {
        out.push('.');
        out.push_str(&frac);
    }
    out
}

pub fn format_decimal(v: &Q, s: &Settings) -> String {
    let scale = BigInt::from(s.out_radix()).pow(u32::from(s.precision));
    let n = scaled_round(v, &scale);
    let exact = Q::new(n.clone(), scale) == v.abs();
    decimal_text(v.is_negative(), &n, exact, s)
}

pub fn format_fraction(v: &Q, s: &Settings) -> String {
    let f = |n: &BigInt| {
        let d = digits(&n.abs(), s.out_radix(), s.upper);
        let d = if s.commas { group(&d) } else { d };
        if n.is_negative() {
            format!("-{}", d)
        } else {
            d
        }
    };
    if v.is_integer() {
        f(v.numer())
    } else {
        format!("{}/{}", f(v.numer()), f(v.denom()))
    }
}

pub fn format_value(v: &Q, s: &Settings) -> String {
    if s.fractional {
        format_fraction(v, s)
    } else {
        format_decimal(v, s)
    }
}

/// Is `text` the display of some value in lo..=hi?
pub fn matches_interval(text: &str, lo: &Q, hi: &Q, s: &Settings) -> bool {
    if s.fractional {
        return match read_fraction(text, s) {
            Some(v) => v >= *lo && v <= *hi && format_fraction(&v, s) == text,
            None => false,
        };
    }
    let scale = BigInt::from(s.out_radix()).pow(u32::from(s.precision));
    let neg = text.starts_with('-');
    let plain: String = text
        .trim_start_matches('-')
        .chars()
        .filter(|c| *c != ',')
        .collect();
    let v = match literal(&plain, s.out_radix()) {
        Some(v) => v,
        None => return false,
    };
    let n = &v * Q::from_integer(scale.clone());
    if !n.is_integer() {
        return false;
    }
    let n = n.to_integer();
    let signed = if neg { -n.clone() } else { n.clone() };
    let round = |v: &Q| {
        let m = scaled_round(v, &scale);
        if v.is_negative() {
            -m
        } else {
            m
        }
    };
    if signed < round(lo) || signed > round(hi) {
        return false;
    }
    // The sign is that of the value, which can be negative and still round to zero.
    if neg && !lo.is_negative() {
        return false;
    }
    if !neg && hi.is_negative() {
        return false;
    }
    let full = decimal_text(neg, &n, false, s);
    if text == full {
        return true;
    }
    let exact = Q::new(signed, scale);
    if exact < *lo || exact > *hi {
        return false;
    }
    text == decimal_text(neg, &n, true, s)
}

/// Reads "a/b" or "a" as printed.
pub fn read_fraction(text: &str, s: &Settings) -> Option<Q> {
    let int = |t: &str| -> Option<BigInt> {
        let t: String = t.chars().filter(|c| *c != ',').collect();
        BigInt::parse_bytes(t.as_bytes(), u32::from(s.out_radix()))
    };
    match text.split_once('/') {
        None => int(text).map(Q::from_integer),
        Some((n, d)) => {
            let d = int(d)?;
            if d.sign() != Sign::Plus {
                return None;
            }
            Some(Q::new(int(n)?, d))
        }
    }
}

// ---------------------------------------------------------------- answers

/// What an answer must be.
#[derive(Clone, Debug, PartialEq)]
pub enum Want {
    Text(String),
    /// The display of a value in the interval.
    Between(Q, Q, Settings),
    /// "Error: ..."
    Error,
    /// "Error: ..." naming this.
    ErrorNaming(String),
    /// These lines in any order.
    Lines(Vec<String>),
    /// A message containing each of these.
    Says(Vec<String>),
    /// These integers, in this order, in some sentence.
    Ints(Vec<i64>),
    /// What /reloadvar answers: per name, the stored value, if any (None inside: undecided).
    Reloaded(Vec<(String, Option<Option<Val>>)>),
    /// A value or an input error.
    Anything,
}

pub fn is_error(a: &str) -> bool {
    a.starts_with("Error: ") || a.starts_with("Runtime Error: ")
}

impl Want {
    pub fn value(v: &Val, s: &Settings) -> Want {
        match v {
            Val::Exact(v) => Want::Text(format_value(v, s)),
            Val::Approx(l, h) => Want::Between(l.clone(), h.clone(), s.clone()),
        }
    }

    pub fn ok(&self, a: &str) -> bool {
        match self {
            Want::Text(t) => a == t,
            Want::Between(l, h, s) => matches_interval(a, l, h, s),
            Want::Error => a.starts_with("Error: ") && a.len() > 7 && !a.contains('\n'),
            Want::ErrorNaming(n) => a.starts_with("Error: ") && a.contains(n.as_str()),
            Want::Lines(l) => {
                let mut got: Vec<&str> = a.split('\n').collect();
                let mut want: Vec<&str> = l.iter().map(|s| s.as_str()).collect();
                got.sort_unstable();
                want.sort_unstable();
                got == want
            }
            Want::Says(w) => !is_error(a) && w.iter().all(|w| a.contains(w.as_str())),
            Want::Ints(n) => {
                let got: Vec<i64> = a
                    .split(|c: char| !(c.is_ascii_digit() || c == '-'))
                    .filter_map(|t| t.parse().ok())
                    .collect();
                !is_error(a) && got == *n
            }
            Want::Reloaded(l) => {
                let mut got: Vec<&str> = a.split('\n').collect();
                if l.is_empty() {
                    return a.is_empty();
                }
                for (n, v) in l {
                    let hit = got.iter().position(|g| match v {
                        None => **g == format!("{} unchanged", n),
                        Some(v) => match g.strip_prefix(&format!("Set {} to ", n)) {
                            None => false,
                            Some(t) => match (v, read_fraction(t, &Settings::default())) {
                                (None, r) => r.is_some(),
                                (Some(v), Some(r)) => r >= *v.lo() && r <= *v.hi(),
                                _ => false,
                            },
                        },
                    });
                    match hit {
                        Some(i) => {
                            got.remove(i);
                        }
                        None => return false,
                    }
                }
                got.is_empty()
            }
            Want::Anything => !a.starts_with("Runtime Error: "),
        }
    }

    pub fn show(&self) -> String {
        match self {
            Want::Text(t) => format!("{:?}", t),
            Want::Between(l, h, s) => format!(
                "the display of a value between {} and {}",
                format_value(l, s),
                format_value(h, s)
            ),
            Want::Error => "an error".into(),
            Want::ErrorNaming(n) => format!("an error naming {:?}", n),
            Want::Lines(l) => format!("the lines {:?} in any order", l),
            Want::Says(w) => format!("a message containing {:?}", w),
            Want::Ints(n) => format!("a message with the numbers {:?}", n),
            Want::Reloaded(l) => l
                .iter()
                .map(|(n, v)| match v {
                    None => format!("{} unchanged", n),
                    Some(None) => format!("Set {} to ?", n),
                    Some(Some(v)) => format!("Set {} to about {}", n, v.lo()),
                })
                .collect::<Vec<_>>()
                .join(" / "),
            Want::Anything => "a value or an input error".into(),
        }
    }
}
