//! C34-C36: what errors say, independence of the environment, the documented format of the data.

use super::common::*;
use crate::choice::Src;
use crate::engine::*;
use crate::gen::*;
use crate::model::*;
use crate::play::*;
use crate::proc::*;
use crate::runner::*;
use crate::spec::*;
use num_bigint::BigInt;
use num_rational::BigRational as Q;
use num_traits::{One, Zero};
use serde::{Deserialize, Serialize};
use std::collections::{BTreeMap, BTreeSet};
use std::ffi::OsString;
use std::path::Path;
use std::process::{Command, Stdio};

fn io<T>(r: std::io::Result<T>) -> Result<T, Verdict> {
    r.map_err(|e| Verdict::Infra(e.to_string()))
}

// ---------------------------------------------------------------- C34

/// An input that is right but for one thing, and what the answer must mention.
#[derive(Clone, Debug, Serialize, Deserialize)]
struct Fault {
    kind: String,
    text: String,
    /// Literally.
    exact: Vec<String>,
    /// Of each group one, in any case.
    words: Vec<Vec<String>>,
    /// Answered so by --input, by a session, or both.
    one_shot: bool,
    session: bool,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Wrong {
    set: Settings,
    db: bool,
    alt: bool,
    assigned: Vec<String>,
    faults: Vec<Fault>,
}

const WORDS: [&str; 4] = ["sqrt", "abs", "max", "min"];

fn is_op(t: &str) -> bool {
    matches!(t, "+" | "-" | "*" | "/" | "%" | "^")
}

/// Whether an operand ends with this token.
fn ends(t: &str) -> bool {
    t == ")" || is_leaf(t)
}

fn is_leaf(t: &str) -> bool {
    !(t.len() == 1 && "+-*/%^()=,".contains(t)) && !WORDS.contains(&t)
}

fn calls(a: &Ast, more_than: usize) -> bool {
    match a {
        Ast::Num(_) | Ast::Var(_) => false,
        Ast::Neg(e) | Ast::Sqrt(e) | Ast::Abs(e) => calls(e, more_than),
        Ast::Max(l) | Ast::Min(l) => l.len() > more_than || l.iter().any(|e| calls(e, more_than)),
        Ast::Bin(_, l, r) => calls(l, more_than) || calls(r, more_than),
    }
}

fn leaves(a: &Ast) -> usize {
    match a {
        Ast::Num(_) | Ast::Var(_) => 1,
        Ast::Neg(e) | Ast::Sqrt(e) | Ast::Abs(e) => leaves(e),
        Ast::Max(l) | Ast::Min(l) => l.iter().map(leaves).sum(),
        Ast::Bin(_, l, r) => leaves(l) + leaves(r),
    }
}

/// `a` with its `n`th leaf replaced.
fn graft(a: &Ast, n: &mut usize, new: &Ast) -> Ast {
    let mut g = |e: &Ast| Box::new(graft(e, n, new));
    match a {
        Ast::Num(_) | Ast::Var(_) => {
            let hit = *n == 0;
            *n = n.wrapping_sub(1);
            if hit {
                new.clone()
            } else {
                a.clone()
            }
        }
        Ast::Neg(e) => Ast::Neg(g(e)),
        Ast::Sqrt(e) => Ast::Sqrt(g(e)),
        Ast::Abs(e) => Ast::Abs(g(e)),
        Ast::Max(l) => Ast::Max(l.iter().map(|e| *g(e)).collect()),
        Ast::Min(l) => Ast::Min(l.iter().map(|e| *g(e)).collect()),
        Ast::Bin(o, l, r) => {
            let l = g(l);
            Ast::Bin(*o, l, g(r))
        }
    }
}

/// An expression with a value.
fn sound(s: &mut Src, w: &World, vars: bool, most: usize) -> Ast {
    let set = &w.get(0).set;
    let vals = w.values(0);
    let mut cfg = ExprCfg::new(set.radix);
    if vars {
        cfg.vars = vals.keys().cloned().collect();
        cfg.vars.sort();
    }
    cfg.depth = s.usize(5);
    cfg.digits = 6;
    cfg.calls = s.pct(20);
    for _ in 0..4 {
        let (a, r) = decided(s, &cfg, set, Some(&vals));
        if r.is_ok() && !calls(&a, most) {
            return a;
        }
    }
    let n = natural(s, set.radix, 3);
    Ast::Bin('+', Box::new(Ast::Num(Q::from_integer(n))), Box::new(Ast::Num(q(1))))
}

fn style(s: &mut Src) -> Style {
    match s.weighted(&[5, 4, 1]) {
        0 => Style::Minimal,
        1 => Style::Redundant,
        _ => Style::Full,
    }
}

/// A word that is no number.
fn no_number(s: &mut Src, radix: u8) -> String {
    for _ in 0..6 {
        let v = Q::from_integer(natural(s, radix, 5));
        let mut t = lit_text(&v, radix, None);
        match s.usize(6) {
            0 => t.insert(s.usize(t.len() + 1), *s.pick(b"ghxyzGZ#!&'\"?:;<>[]{}|~`@\\") as char),
            1 => {
                t.push('.');
                t.push('1');
                t.insert(s.usize(t.len() + 1), '.');
            }
            2 if radix < 16 => {
                let d = std::char::from_digit(u32::from(radix), 16).unwrap_or('z');
                t.insert(s.usize(t.len() + 1), d);
            }
            3 => t = (*s.pick(&["x", "foo", "SQRT", "Max", "sqrt2", "abs1", "maxmin", "pi", "ans", ".", "_", "__", "0x1", "1e5z"])).into(),
            4 => {
                let n = s.size(1, 30);
                t = (0..n).map(|_| *s.pick(b"ghijknopqruvwyzGHXYZ#!&?:;@1230") as char).collect();
            }
            _ => t.push_str(&format!("${}", s.pick(&["", "x", "1"]))),
        }
        if literal(&t, radix).is_none() && !t.starts_with('$') && !WORDS.contains(&t.as_str()) {
            return t;
        }
    }
    "1z".into()
}

fn words(l: &[&[&str]]) -> Vec<Vec<String>> {
    l.iter().map(|g| g.iter().map(|x| x.to_string()).collect()).collect()
}

fn fault(kind: &str, text: String, exact: &[&str], w: &[&[&str]]) -> Fault {
    let one_shot = !text.contains('$');
    Fault {
        kind: kind.into(),
        text,
        exact: exact.iter().map(|x| x.to_string()).collect(),
        words: words(w),
        one_shot,
        session: true,
    }
}

fn expr_fault(s: &mut Src, w: &World, vars: bool, unset: &[String]) -> Option<Fault> {
    let set = w.get(0).set.clone();
    let r = set.radix;
    let num = |s: &mut Src| Ast::Num(Q::from_integer(natural(s, r, 2) + 1));
    let kind = s.usize(16);
    let most = match kind {
        8 | 9 => 0,
        4 | 5 | 6 => 1,
        _ => 99,
    };
    let a = sound(s, w, vars, most);
    let at = s.usize(leaves(&a));
    let sp = *s.pick(&[0, 15, 60, 100]);
    let planted = |s: &mut Src, new: Ast| -> String {
        let b = graft(&a, &mut at.clone(), &new);
        // The reference agrees that there is something wrong.
        if Eval::new(&set, Some(&w.values(0))).eval(&b).is_ok() {
            return String::new();
        }
        let st = style(s);
        let t = tokens(&b, r, st, s);
        join(&t, s, sp)
    };
    match kind {
        0 => {
            // A zero divisor.
            let zero = match s.usize(4) {
                0 => Ast::Num(Q::zero()),
                1 => {
                    let n = num(s);
                    Ast::Bin('-', Box::new(n.clone()), Box::new(n))
                }
                2 => Ast::Bin('*', Box::new(Ast::Num(Q::zero())), Box::new(num(s))),
                _ => Ast::Neg(Box::new(Ast::Num(Q::zero()))),
            };
            let n = num(s);
            let new = match s.usize(3) {
                0 => Ast::Bin('/', Box::new(n), Box::new(zero)),
                1 => Ast::Bin('%', Box::new(n), Box::new(zero)),
                _ => Ast::Bin('^', Box::new(zero), Box::new(Ast::Neg(Box::new(Ast::Num(q(s.range(1, 9))))))),
            };
            let t = planted(s, new);
            Some(fault("zero divisor", t, &[], &[&["divi"], &["0", "zero"]]))
        }
        1 => {
            // Also values between -1 and 0.
            let mut v = num(s);
            if s.pct(50) {
                v = Ast::Bin('/', Box::new(v), Box::new(num(s)));
            }
            let neg = Ast::Neg(Box::new(v));
            let new = if s.pct(50) {
                Ast::Sqrt(Box::new(neg))
            } else {
                // Odd over even.
                let d = 2 * s.range(1, 4);
                let n = 2 * s.range(0, 4) + 1;
                let mut e = Ast::Bin('/', Box::new(Ast::Num(q(n))), Box::new(Ast::Num(q(d))));
                if s.pct(30) {
                    e = Ast::Neg(Box::new(e));
                }
                Ast::Bin('^', Box::new(neg), Box::new(e))
            };
            let t = planted(s, new);
            Some(fault("even root", t, &[], &[&["negative"], &["root"]]))
        }
        2 => {
            let n = s.pick(unset).clone();
            let t = planted(s, Ast::Var(n.clone()));
            Some(fault("unknown variable", t, &[&n], &[&["variable"]]))
        }
        3 => {
            // Without a session there are no variables.
            let t = if s.pct(50) {
                let n = s.pick(unset).clone();
                planted(s, Ast::Var(n))
            } else {
                let n = s.pick(unset).clone();
                let b = sound(s, w, false, 99);
                format!("{} = {}", n, write(&b, r, s))
            };
            let mut f = fault("no variables", t, &[], &[&["variable"], &["unavailable"]]);
            f.one_shot = !a_has_vars(&a);
            f.session = false;
            f.one_shot.then_some(f)
        }
        4 | 5 => {
            let st = style(s);
            let mut t = tokens(&a, r, st, s);
            let open = kind == 4;
            let places: Vec<usize> = (0..=t.len())
                .filter(|i| {
                    if open {
                        *i < t.len()
                            && t[*i] != ")"
                            && (*i == 0 || is_op(&t[i - 1]) || t[i - 1] == "(" || WORDS.contains(&t[i - 1].as_str()))
                            && (!is_op(&t[*i]) || t[*i] == "-")
                    } else {
                        *i > 0 && ends(&t[i - 1])
                    }
                })
                .collect();
            if places.is_empty() {
                return None;
            }
            t.insert(*s.pick(&places), if open { "(" } else { ")" }.into());
            let t = join(&t, s, sp);
            Some(if open {
                fault("open parenthesis", t, &[], &[&["open"], &["paren"]])
            } else {
                fault("close parenthesis", t, &[], &[&["close"], &["paren"]])
            })
        }
        6 => {
            // A missing operand.
            let st = style(s);
            let mut t = tokens(&a, r, st, s);
            let all: Vec<usize> = (0..t.len()).filter(|i| is_leaf(&t[*i])).collect();
            let i = *s.pick(&all);
            t.remove(i);
            if t.is_empty() || (i < t.len() && t[i] == "-") || t[0] == "/" {
                return None;
            }
            let left = if i > 0 { t[i - 1].as_str() } else { "" };
            let right = if i < t.len() { t[i].as_str() } else { "" };
            if left == "(" && right == ")" {
                let name = if i > 1 { t[i - 2].clone() } else { String::new() };
                let text = join(&t, s, sp);
                return Some(if name == "max" || name == "min" {
                    fault("no arguments", text, &[], &[&[&name], &["argument"]])
                } else {
                    fault("empty parentheses", text, &[], &[&["empty"], &["paren"]])
                });
            }
            let show = |x: &str| if is_op(x) { format!("({})", x) } else { x.to_string() };
            let mut near: Vec<String> = Vec::new();
            let mut j = i;
            while j > 0 && (is_op(&t[j - 1]) || WORDS.contains(&t[j - 1].as_str())) {
                near.push(show(&t[j - 1]));
                j -= 1;
            }
            j = i;
            while j < t.len() && is_op(&t[j]) {
                near.push(show(&t[j]));
                j += 1;
            }
            if near.is_empty() {
                return None;
            }
            let text = join(&t, s, sp);
            let mut f = fault("missing operand", text, &[], &[&["operand", "argument", "unexpected"]]);
            f.words.push(near);
            Some(f)
        }
        7 => {
            // An operator missing.
            let st = style(s);
            let mut t = tokens(&a, r, st, s);
            let all: Vec<usize> = (1..=t.len()).filter(|i| ends(&t[i - 1])).collect();
            let n = lit_text(&Q::from_integer(natural(s, r, 3)), r, None);
            t.insert(*s.pick(&all), n);
            let t = join(&t, s, sp);
            Some(fault("missing operator", t, &[], &[&["operator"]]))
        }
        8 => {
            let st = style(s);
            let mut t = tokens(&a, r, st, s);
            let all: Vec<usize> = (0..=t.len()).filter(|i| *i == 0 || ends(&t[i - 1]) || t[i - 1] == "(").collect();
            t.insert(*s.pick(&all), ",".into());
            let t = join(&t, s, sp);
            Some(fault("stray comma", t, &[], &[&["comma"]]))
        }
        9 => {
            let st = style(s);
            let mut t = tokens(&a, r, st, s);
            let all: Vec<usize> = (0..t.len()).filter(|i| is_leaf(&t[*i])).collect();
            let i = *s.pick(&all);
            t[i] = "(".into();
            t.insert(i + 1, ")".into());
            let t = join(&t, s, sp);
            Some(fault("empty parentheses", t, &[], &[&["empty"], &["paren"]]))
        }
        10 => {
            let st = style(s);
            let mut t = tokens(&a, r, st, s);
            let i = s.usize(t.len() + 1);
            if i == 1 && t[0].starts_with('$') {
                return None;
            }
            t.insert(i, "=".into());
            let t = join(&t, s, sp);
            Some(fault("stray assignment", t, &[], &[&["(=)", "assign"]]))
        }
        11 | 12 => {
            // A call that lacks arguments.
            let f = *s.pick(&["max", "min"]);
            let n = lit_text(&Q::from_integer(natural(s, r, 3)), r, None);
            let args: Vec<&str> = match s.usize(5) {
                0 | 1 => vec![],
                2 => vec![&n, ","],
                3 => vec![",", &n],
                _ => vec![&n, ",", ",", &n],
            };
            let st = style(s);
            let mut t = tokens(&a, r, st, s);
            let all: Vec<usize> = (0..t.len()).filter(|i| is_leaf(&t[*i])).collect();
            let i = *s.pick(&all);
            let none = args.is_empty();
            let mut new = vec![f.to_string(), "(".into()];
            new.extend(args.iter().map(|x| x.to_string()));
            new.push(")".into());
            t.splice(i..i + 1, new);
            let t = join(&t, s, sp);
            Some(if none {
                fault("no arguments", t, &[], &[&[f], &["argument"]])
            } else {
                fault("argument missing", t, &[], &[&["comma"], &["operand", "argument"]])
            })
        }
        13 => {
            let t = {
                let st = style(s);
                let mut t = tokens(&a, r, st, s);
                let i = s.usize(t.len());
                t[i] = (*s.pick(&["é", "1é", "²", "π", "×", "−", "\u{a0}", "$é"])).into();
                join(&t, s, sp)
            };
            let mut f = fault("not ASCII", t, &[], &[&["ascii"]]);
            f.one_shot = true;
            f.session = false;
            Some(f)
        }
        _ => {
            let st = style(s);
            let mut t = tokens(&a, r, st, s);
            let all: Vec<usize> = (0..t.len()).filter(|i| is_leaf(&t[*i])).collect();
            let i = *s.pick(&all);
            let bad = no_number(s, r);
            t[i] = bad.clone();
            let quoted = format!("'{}'", bad);
            let t = join(&t, s, sp);
            Some(fault("no number", t, &[&quoted], &[&["number"]]))
        }
    }
}

fn a_has_vars(a: &Ast) -> bool {
    let mut v = Vec::new();
    vars_of(a, &mut v);
    !v.is_empty()
}

fn gap(s: &mut Src) -> &'static str {
    s.pick(&[" ", " ", " ", "  ", "    "])
}

fn command_fault(s: &mut Src, db: bool, unset: &[String]) -> Fault {
    let g = gap(s);
    match s.usize(12) {
        0 | 1 => {
            let c = *s.pick(&["radix", "r", "converttoradix"]);
            if s.pct(50) {
                let t = format!("/{}{}{}", c, g, s.range(-20, 1));
                fault("radix too small", t, &[], &[&["2"]])
            } else {
                let v = if s.pct(50) { s.range(17, 300) } else { *s.pick(&[256, 258, 65546, 1 << 32, i64::MAX]) };
                let t = format!("/{}{}{}", c, g, v);
                fault("radix too large", t, &[], &[&["16"]])
            }
        }
        2 => {
            let c = *s.pick(&["precision", "p"]);
            match s.usize(3) {
                0 => {
                    let v = if s.pct(50) { -s.range(1, 300) } else { s.range(256, 70000) };
                    let (t, which) = match s.usize(3) {
                        0 => (format!("/{}{}{}", c, g, v), "precision"),
                        1 => (format!("/{}{}{} {}", c, g, v, s.range(0, 255)), "precision"),
                        _ => (format!("/{}{}{} {}", c, g, s.range(0, 255), v), "extra"),
                    };
                    fault("precision out of range", t, &[], &[&["8-bit", "8 bit", "255"], &[which]])
                }
                1 => {
                    let p = s.range(1, 255);
                    let t = format!("/{}{}{} {}", c, g, p, s.range(256 - p, 255));
                    fault("precision sum", t, &[], &[&["sum"], &["8-bit", "8 bit", "255"]])
                }
                _ => {
                    let n = s.range(3, 6);
                    let v: Vec<String> = (0..n).map(|_| s.range(0, 20).to_string()).collect();
                    fault("too many", format!("/{}{}{}", c, g, v.join(" ")), &[], &[&["many"]])
                }
            }
        }
        3 => {
            let c = *s.pick(&["radix", "r", "converttoradix", "histcap"]);
            let n = s.range(2, 5);
            let v: Vec<String> = (0..n).map(|_| s.range(2, 16).to_string()).collect();
            fault("too many", format!("/{}{}{}", c, g, v.join(" ")), &[], &[&["many"]])
        }
        4 | 5 | 6 => {
            // No integer where one is asked for.
            let c = *s.pick(&["radix", "r", "converttoradix", "precision", "p", "histcap"]);
            let first = if s.pct(25) { format!("{} ", s.range(2, 9)) } else { String::new() };
            let head = format!("/{}{}{}", c, g, first);
            match s.usize(6) {
                0 | 1 => {
                    let mut bad = no_number(s, 10);
                    if bad.to_ascii_lowercase() == "none" {
                        bad = "x".into();
                    }
                    let quoted = format!("'{}'", bad);
                    fault("no number", format!("{}{}", head, bad), &[&quoted], &[&["number"]])
                }
                2 => {
                    let t = format!("{}{}.{}", head, s.range(0, 20), s.range(1, 9));
                    fault("no integer", t, &[], &[&["integer"]])
                }
                3 => {
                    let d = s.range(20, 40);
                    let n: String = (0..d).map(|_| (b'1' + s.below(9) as u8) as char).collect();
                    let t = format!("{}{}{}", head, s.pick(&["", "-"]), n);
                    fault("too large an integer", t, &[], &[&["64-bit", "64 bit"]])
                }
                4 => {
                    let t = match s.usize(3) {
                        0 => format!("{}--{}", head, s.range(1, 9)),
                        1 => format!("{}- - {}", head, s.range(1, 9)),
                        _ => format!("{}-", head),
                    };
                    fault("negative sign", t, &[], &[&["negative"]])
                }
                _ => {
                    let v = unset[0].clone();
                    let quoted = format!("'{}'", v);
                    let (bad, word): (&str, &str) = match s.usize(9) {
                        0 => ("+", "(+)"),
                        1 => ("*", "(*)"),
                        2 => ("(", "open paren"),
                        3 => (")", "close paren"),
                        4 => (",", "comma"),
                        5 => ("=", "(=)"),
                        6 => ("^", "(^)"),
                        7 => ("sqrt", "sqrt"),
                        _ => (&v, &quoted),
                    };
                    let t = format!("{}{}{}", head, bad, s.pick(&["", "4", " 4"]).trim_start_matches(|_| bad.len() > 1));
                    let mut f = fault("no integer", t, &[], &[&["integer"]]);
                    f.words.push(vec![word.into()]);
                    f.one_shot = true;
                    f
                }
            }
        }
        7 => {
            let c = *s.pick(&["fractional", "f", "commas", "comma", "upper"]);
            let a = *s.pick(&["1", "0", "yes", "no", "on", "tr", "truee", "t f", "maybe", "none", "$x", "!", "true false"]);
            let mut f = fault("no truth value", format!("/{}{}{}", c, g, a), &[], &[&["invalid", "true"]]);
            f.one_shot = true;
            f
        }
        8 => {
            let mut f = if db {
                let t = format!("/histcap{}{}", g, if s.pct(50) { 0 } else { -s.range(1, 9999) });
                fault("capacity", t, &[], &[&["1", "one", "positive"]])
            } else {
                let t = if s.pct(40) { "/histcap".to_string() } else { format!("/histcap{}{}", g, s.range(1, 99)) };
                fault("no database", t, &[], &[&["database"], &["unavailable"]])
            };
            f.session = true;
            f
        }
        9 | 10 => {
            let c = *s.pick(&["reloadvar", "purgevar"]);
            let good: Vec<String> = (0..s.usize(3)).map(|_| s.pick(unset).clone()).collect();
            if s.pct(25) {
                // Without the store.
                let v = s.pick(unset).clone();
                let t = format!("/{}{}{}", c, g, v);
                // In a session it is the database that is missing, through --input both are.
                let session = c == "reloadvar" && !db && s.pct(70);
                let mut f = if session {
                    fault("no database", t, &[], &[&["database"], &["unavailable"]])
                } else if c == "reloadvar" {
                    fault("no database", t, &[], &[&["database", "variable"], &["unavailable"]])
                } else {
                    fault("no variables", t, &[], &[&["variable"], &["unavailable"]])
                };
                f.one_shot = !session;
                f.session = session;
                return f;
            }
            let (bad, exact, word) = match s.usize(4) {
                0 | 1 => {
                    let b = no_number(s, 10);
                    let q = format!("'{}'", b);
                    (b, vec![q], vec![])
                }
                2 => {
                    let n = s.range(0, 999).to_string();
                    (n.clone(), vec![n], vec![])
                }
                _ => {
                    let o = *s.pick(&["+", "*", "^", "=", "-", "%"]);
                    (o.to_string(), vec![], vec![format!("({})", o)])
                }
            };
            let mut l = good;
            l.insert(s.usize(l.len() + 1), bad);
            let mut f = fault("no variable", format!("/{}{}{}", c, g, l.join(" ")), &[], &[&["variable"]]);
            f.exact = exact;
            if !word.is_empty() {
                f.words.push(word);
            }
            f.one_shot = true;
            f
        }
        _ => {
            let known = |n: &str| COMMANDS.iter().any(|(c, a)| *c == n || a.contains(&n));
            let mut n = match s.usize(4) {
                0 => (*s.pick(&["", "x", "Radix", "RADIX", "quit", "exit", "?", "/", "radi", "radixx", "histcap5", "-", "$x", "1", "precision=3"])).to_string(),
                1 => {
                    let mut n = s.pick(COMMANDS).0.to_string();
                    n.remove(s.usize(n.len()));
                    n
                }
                2 => {
                    let mut n = s.pick(COMMANDS).0.to_string();
                    n.insert(s.usize(n.len() + 1), *s.pick(b"aex_-1/'") as char);
                    n
                }
                _ => {
                    let k = s.size(1, 40);
                    (0..k).map(|_| (0x21 + s.below(0x5e) as u8) as char).collect()
                }
            };
            if known(&n) {
                n.push('z');
            }
            let quoted = format!("'{}'", n);
            let mut f = if s.pct(50) || n.is_empty() {
                let t = match s.usize(3) {
                    0 => format!("/{}", n),
                    1 => format!("/{}{}{}", n, g, s.range(2, 16)),
                    _ => format!("{}/{} ", s.pick(&["", " "]), n),
                };
                fault("unknown command", t, &[&quoted], &[&["command"]])
            } else {
                let t = format!("/{}{}{}", s.pick(&["help", "h"]), g, n);
                fault("unknown command", t, &[&quoted], &[&["command"]])
            };
            f.one_shot = true;
            f
        }
    }
}

fn c34_gen(s: &mut Src, _: bool) -> Wrong {
    let set = settings(s);
    let db = s.pct(50);
    let mut w = World::new(db);
    w.open(0, &set);
    let ns = names(s, 1, 3);
    let unset = unset_names(&ns);
    let mut assigned = Vec::new();
    for _ in 0..s.usize(3) {
        let t = assign_line(s, &mut w, 0, &ns, 4);
        if w.try_step(&Step::Line { s: 0, text: t.clone() }).is_some() {
            assigned.push(t);
        }
    }
    let k = s.size(3, 10);
    let mut faults = Vec::new();
    for _ in 0..k {
        let vars = s.pct(30);
        let f = if s.pct(65) {
            match expr_fault(s, &w, vars, &unset) {
                Some(f) => f,
                None => continue,
            }
        } else {
            command_fault(s, db, &unset)
        };
        let mut f = f;
        if s.pct(12) && f.session && f.exact.iter().all(|e| f.text.contains(e.as_str())) && !f.text.contains('=') && !f.text.trim_start().starts_with('/') {
            // The same as what is to be assigned.
            f.text = format!("{}{}= {}", s.pick(&ns), s.pick(&["", " "]), f.text);
            f.one_shot = false;
        }
        if !f.text.is_empty() && f.text.len() <= MAX_LINE {
            faults.push(f);
        }
    }
    Wrong {
        set,
        db,
        alt: s.pct(20),
        assigned,
        faults,
    }
}

fn told(f: &Fault, got: &str, how: &str) -> Result<(), Verdict> {
    let low = got.to_ascii_lowercase();
    let bad = |m: String| {
        Err(Verdict::Fail(format!(
            "{} {:?} ({}) was answered {:?}; {}",
            how,
            clip(&f.text),
            f.kind,
            clip(got),
            m
        )))
    };
    if !got.starts_with("Error: ") || got.contains('\n') || got.contains('\r') {
        return bad("expected one line that begins with \"Error: \"".into());
    }
    for e in &f.exact {
        if !got.contains(e.as_str()) {
            return bad(format!("it should contain {:?}", e));
        }
    }
    for g in &f.words {
        if !g.iter().any(|x| low["error: ".len()..].contains(&x.to_ascii_lowercase())) {
            return bad(format!("it should mention one of {:?}", g));
        }
    }
    Ok(())
}

fn c34_run(c: &Wrong, obs: &mut Obs) -> Verdict {
    let dir = Scratch::new();
    let root = dir.path().join("data");
    tri!(io(std::fs::create_dir(&root)));
    let mut flags = c.set.flags();
    if c.alt {
        flags.push("-a".into());
    }
    let mut o = Opts::args(flags);
    if c.db {
        o = o.db(&root);
    }
    let mut ses = get!(start(&o, dir.path()));
    for l in &c.assigned {
        get!(ask(&mut ses, l));
    }
    let mut kinds = BTreeSet::new();
    for f in &c.faults {
        let mut said = None;
        if f.session {
            let got = get!(ask(&mut ses, &f.text));
            tri!(told(f, &got, "input"));
            said = Some(got);
        }
        if f.one_shot {
            let got = either(get!(one(&f.text, &c.set.flags(), dir.path())));
            let differs = f.kind == "no database" || f.kind == "capacity" || f.kind == "too many" && f.text.contains("histcap");
            if !differs || !c.db {
                tri!(told(f, &got, "--input"));
            }
            if let Some(s) = &said {
                if *s != got && !(differs && c.db) {
                    return Verdict::Fail(format!(
                        "{:?} ({}) was answered {:?} by a session and {:?} by --input",
                        clip(&f.text),
                        f.kind,
                        clip(s),
                        clip(&got)
                    ));
                }
            }
        }
        obs.class(&f.kind);
        kinds.insert(f.kind.clone());
        obs.count("faults", 1);
    }
    tri!(finish(&mut ses));
    obs.nontrivial = kinds.len() > 2;
    Verdict::Pass
}

fn c34() -> Prop {
    prop(
        "C34",
        "exploration",
        "3-10 inputs per case, each right but for one thing put there by construction: an expression with a value in which one operand is a zero divisor, an even root, an unset variable or a word that is no number, or one token too many or too few (parentheses, commas, '=', operands, operators, arguments); commands with one value out of range, of the wrong kind or too many, unknown commands. Random settings, display mode, database or none. Each answer is one line \"Error: \" that contains what the fault demands (the word or name itself, the kind of fault), in a session and through --input alike. Non-trivial: more than two kinds of fault.",
        (5000, 60000),
        c34_gen,
        c34_run,
    )
}

// ---------------------------------------------------------------- C35

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Around {
    set: Settings,
    alt: bool,
    cols: usize,
    rows: usize,
    db: bool,
    lines: Vec<Vec<String>>,
    noise: Vec<(String, String)>,
    /// Files in the other working and home directory.
    files: Vec<(String, String)>,
    one: Vec<String>,
    /// Chooses what the variables and files are set to that the program turns out to ask for.
    found: u64,
}

/// What a variable may be set to that the program asks for.
const VALUES: &[&str] = &[
    "1", "0", "true", "never", "16", "x", "", "de_CH.UTF-8", "fr_FR.UTF-8", "hi_IN", "tr_TR.UTF-8", "en_US.UTF-8", "@", "/",
];
/// What a file may hold that the program looks for.
const CONTENTS: &[&str] = &[
    "radix = 16\nprecision = 1\nfractional = true\ncommas = true\nupper = true\n",
    "--radix\n16\n--fractional\n",
    "--radix 16 --precision 1 --commas",
    "16",
    "/radix 16\n/fractional t\n/p 1\n",
    "radix=16",
    "{\"radix\": 16, \"precision\": 1, \"fractional\": true}",
    "",
];

fn choose<'a>(from: &[&'a str], name: &str, found: u64) -> &'a str {
    let mut h = found;
    for b in name.bytes() {
        h = h.wrapping_mul(131).wrapping_add(b as u64);
    }
    from[(h % from.len() as u64) as usize]
}

/// The name of a locale, which need not exist.
fn locale(s: &mut Src) -> String {
    let l = *s.pick(&["de", "en", "fr", "hi", "tr", "ar", "pt", "sv", "es", "ja", "fa"]);
    let c = *s.pick(&["DE", "US", "CH", "IN", "FR", "TR", "BR", "SE", "GB", "EG", "IR"]);
    format!("{}_{}{}", l, c, s.pick(&["", ".UTF-8", ".utf8", ".ISO-8859-1"]))
}

const NOISE: &[(&str, &[&str])] = &[
    ("LANG", &["C", "de_DE.UTF-8", "tr_TR.UTF-8", "fr_FR", "ar_EG.UTF-8", "C.UTF-8"]),
    ("LC_ALL", &["C", "POSIX", "de_DE.UTF-8", "hi_IN", "tr_TR"]),
    ("LC_NUMERIC", &["de_DE.UTF-8", "fr_FR.UTF-8"]),
    ("LANGUAGE", &["de:fr", "en"]),
    ("TZ", &["UTC", "Asia/Tokyo", "America/St_Johns"]),
    ("HOME", &["/", "@", "/nonexistent"]),
    ("XDG_DATA_HOME", &["@", "/nonexistent"]),
    ("XDG_CONFIG_HOME", &["@"]),
    ("PWD", &["/", "@", "nowhere"]),
    ("USER", &["root", "nobody", "é"]),
    ("COLUMNS", &["10", "200", "0", "x"]),
    ("LINES", &["5", "100", "0"]),
    ("TERM", &["dumb", "vt100", "xterm-256color", "linux", "screen", ""]),
    ("COLORTERM", &["truecolor"]),
    ("NO_COLOR", &["1", ""]),
    ("CLICOLOR_FORCE", &["1"]),
    ("CLICOLOR", &["0"]),
    ("RUST_BACKTRACE", &["1", "full"]),
    ("RUST_LOG", &["trace", "debug"]),
    ("RUST_MIN_STACK", &["4194304"]),
    ("SQLITE_TMPDIR", &["/nonexistent", "@"]),
    ("SQLITE_HISTORY", &["@"]),
    ("TMPDIR", &["/nonexistent", "@"]),
    ("PATH", &["/usr/bin:/bin", "", "@"]),
    ("SHELL", &["/bin/sh", "/bin/zsh"]),
    ("EDITOR", &["ed", "vi"]),
    ("DEBUG", &["1", "true"]),
    ("RADIX", &["16", "2"]),
    ("PRECISION", &["1", "50"]),
    ("BCALC_RADIX", &["16"]),
    ("BCALC_OPTS", &["--fractional"]),
    ("BCALC_PRECISION", &["2"]),
    ("BC_LINE_LENGTH", &["20", "0"]),
    ("BC_ENV_ARGS", &["-l"]),
    ("POSIXLY_CORRECT", &["1"]),
    ("SOURCE_DATE_EPOCH", &["0"]),
    ("HISTSIZE", &["3", "0"]),
    ("HISTFILE", &["@"]),
    ("INPUTRC", &["/nonexistent"]),
    ("CI", &["1", "true"]),
    ("_", &["/bin/true"]),
    ("B_UTIL_DATA_DIR", &["@", "/nonexistent"]),
    ("_b_util_data_dir", &["@"]),
    ("_B_UTIL_DATA_DIR_", &["@"]),
];

fn c35_gen(s: &mut Src, _: bool) -> Around {
    let set = settings(s);
    let alt = s.pct(40);
    let db = s.pct(70);
    let ns = names(s, 2, 6);
    let unset = unset_names(&ns);
    let mut w = World::new(db);
    let n = s.size(1, 3);
    let mut lines = Vec::new();
    for _ in 0..n {
        w.open(0, &set);
        let k = s.size(2, 8);
        let mut v = Vec::new();
        for _ in 0..k {
            let t = match s.weighted(&[5, 4, 2, 2, 3, 1, 2, 1]) {
                0 => assign_line(s, &w, 0, &ns, 6),
                1 => use_line(s, &ns),
                2 => expr_line(s, &w, 0, 2, 5),
                3 => setting_line(s),
                4 => var_cmd(s, &ns, true),
                5 => (*s.pick(&["/help", "/h", "/help radix", "/histcap", "/histcap 3", "/precision"])).to_string(),
                6 => {
                    // More than one thing is wrong: which is told?
                    let a = s.pick(&unset).clone();
                    let b = s.pick(&unset).clone();
                    match s.usize(4) {
                        0 => format!("{} + {}", a, b),
                        1 => format!("max({}, {}, 1/0)", a, b),
                        2 => format!("1z + 2z + {}", a),
                        _ => format!("/reloadvar {} {} {}", a, s.pick(&ns), b),
                    }
                }
                _ => fail_line(s, &w, 0, &ns, &unset),
            };
            if w.try_step(&Step::Line { s: 0, text: t.clone() }).is_some() {
                v.push(t);
            }
        }
        lines.push(v);
    }
    let k = s.size(1, 12);
    let mut noise: BTreeMap<String, String> = BTreeMap::new();
    for _ in 0..k {
        let (n, v) = s.pick(NOISE);
        let v = if (*n == "LANG" || n.starts_with("LC_")) && s.pct(50) {
            locale(s)
        } else {
            s.pick(v).to_string()
        };
        noise.insert(n.to_string(), v);
    }
    if alt && s.pct(50) {
        noise.insert("TERM".into(), (*s.pick(&["dumb", "vt100", "linux", "", "unknown"])).into());
    }
    let mut files = Vec::new();
    for _ in 0..s.usize(4) {
        let n = *s.pick(&[
            "bcalc/saved_data.sqlite", "saved_data.sqlite", ".env", ".bcalcrc", ".config/bcalc/config", "bcalc.toml",
            ".bcalc/radix", "bcalc.conf", "Cargo.toml", ".inputrc",
        ]);
        files.push((n.to_string(), (*s.pick(&["", "radix = 16\n", "--radix 16", "garbage"])).to_string()));
    }
    let mut free = World::new(false);
    free.open(0, &set);
    let one = (0..s.size(1, 3))
        .map(|_| match s.usize(6) {
            0 => "/help".to_string(),
            1 => fail_line(s, &free, 0, &ns, &unset),
            _ => {
                let d = s.usize(3);
                expr_line(s, &free, 0, d, 6)
            }
        })
        .collect();
    Around {
        set,
        alt,
        cols: if s.pct(50) { 200 } else { s.range(20, 120) as usize },
        rows: s.range(8, 60) as usize,
        db,
        lines,
        noise: noise.into_iter().collect(),
        files,
        one,
        found: s.below(100),
    }
}

fn c35_run(c: &Around, obs: &mut Obs) -> Verdict {
    match c35_try(c, obs) {
        Ok(()) => Verdict::Pass,
        Err(v) => v,
    }
}

/// Answers; rows, cursor and kind of the screen; stored data; what one-shot inputs printed.
type Out = (Vec<Vec<String>>, Vec<(Vec<String>, usize, usize, bool)>, Option<Dump>, Vec<String>);

fn c35_same(c: &Around, obs: &mut Obs, plain: &Out, noisy: &Out, env: &str) -> Result<(), Verdict> {
    for (i, lines) in c.lines.iter().enumerate() {
        for (j, l) in lines.iter().enumerate() {
            if plain.0[i][j] != noisy.0[i][j] {
                return Err(Verdict::Fail(format!(
                    "input {:?} (session {}) was answered {:?}, and {:?} in another {}",
                    clip(l),
                    i + 1,
                    clip(&plain.0[i][j]),
                    clip(&noisy.0[i][j]),
                    env
                )));
            }
        }
        if plain.1[i] != noisy.1[i] {
            return Err(Verdict::Fail(format!(
                "the {}screen is\n{}\nand in another {}\n{}{}",
                if plain.1[i].3 { "alternate " } else { "" },
                tail(&plain.1[i].0.join("\n"), 1500),
                env,
                if noisy.1[i].3 { "(alternate)\n" } else { "" },
                tail(&noisy.1[i].0.join("\n"), 1500)
            )));
        }
        obs.count("inputs", lines.len() as u64);
    }
    if plain.2 != noisy.2 {
        return Err(Verdict::Fail(format!(
            "stored is {:?}, and in another {} {:?}",
            plain.2, env, noisy.2
        )));
    }
    for (i, t) in c.one.iter().enumerate() {
        if plain.3[i] != noisy.3[i] {
            return Err(Verdict::Fail(format!(
                "--input={:?} printed {:?}, and in another {} {:?}",
                clip(t),
                clip(&plain.3[i]),
                env,
                clip(&noisy.3[i])
            )));
        }
    }
    Ok(())
}

fn c35_try(c: &Around, obs: &mut Obs) -> Result<(), Verdict> {
    let dir = Scratch::new();
    let other = dir.path().join("other");
    io(std::fs::create_dir(&other))?;
    for (n, t) in &c.files {
        let p = other.join(n);
        if let Some(d) = p.parent() {
            io(std::fs::create_dir_all(d))?;
        }
        io(std::fs::write(p, t))?;
    }
    let at = |v: &str| if v == "@" { other.display().to_string() } else { v.to_string() };
    let names = dir.path().join("names");
    let run = |name: &str, noise: Option<&BTreeMap<String, String>>| -> Result<Out, Verdict> {
        let noisy = noise.is_some();
        let mut noise: Vec<(String, String)> =
            noise.map(|m| m.iter().map(|(k, v)| (k.clone(), v.clone())).collect()).unwrap_or_default();
        // What it asks for is noted.
        noise.push(("LD_PRELOAD".into(), paths().shim.display().to_string()));
        noise.push(("PBT_NAMES".into(), names.display().to_string()));
        let root = dir.path().join(name);
        io(std::fs::create_dir(&root))?;
        let cwd = if noisy { other.clone() } else { root.clone() };
        let mut all = Vec::new();
        let mut screens = Vec::new();
        for lines in &c.lines {
            let mut flags = c.set.flags();
            if c.alt {
                flags.push("-a".into());
            }
            let mut o = Opts::args(flags).size(c.cols, c.rows);
            if c.db {
                o = o.db(&root);
            }
            for (k, v) in &noise {
                o = o.env(k, v);
            }
            let mut ses = start(&o, &cwd)?;
            let mut answers = Vec::new();
            for l in lines {
                answers.push(ask(&mut ses, l)?);
            }
            if let Err(e) = ses.idle() {
                return Err(stop_verdict(&ses, e, "after the last line"));
            }
            let rows = (0..ses.term.lines.len()).map(|i| ses.term.row_str(i)).collect();
            screens.push((rows, ses.term.row, ses.term.col, ses.term.alt));
            finish(&mut ses)?;
            all.push(answers);
        }
        let data = if c.db { Some(dump(&root)?) } else { None };
        let mut ones = Vec::new();
        for t in &c.one {
            let mut a = c.set.flags();
            a.push(format!("--input={}", t));
            let env: Vec<(String, OsString)> = noise.iter().map(|(k, v)| (k.clone(), v.into())).collect();
            let o = one_shot(&a, &env, &cwd).map_err(infra)?;
            let mut text = either(one_result(t, &o)?);
            if noisy {
                // On a terminal.
                let mut op = Opts::args(a).size(c.cols, c.rows);
                for (k, v) in &noise {
                    op = op.env(k, v);
                }
                let mut ses = Session::spawn(&op, &cwd).map_err(infra)?;
                match ses.wait_exit() {
                    Ok(End::Exit(0)) => {}
                    Ok(e) => {
                        return Err(Verdict::Fail(format!("--input={:?} on a terminal ended with {}", clip(t), e)));
                    }
                    Err(e) => return Err(stop_verdict(&ses, e, "--input on a terminal")),
                }
                let shown = format!("{}{}", String::from_utf8_lossy(&ses.raw), ses.stderr_str());
                let shown = shown.replace("\r\n", "\n");
                if shown.trim_end_matches('\n') != text {
                    text = format!("{} (through pipes) {} (on a terminal)", text, shown);
                }
            }
            ones.push(text);
        }
        Ok((all, screens, data, ones))
    };
    let plain = run("plain", None)?;
    let mut noise: BTreeMap<String, String> = c.noise.iter().map(|(k, v)| (k.clone(), at(v))).collect();
    let mut asked: BTreeSet<String> = BTreeSet::new();
    for stage in 0..4 {
        // Everything that it has asked for so far is there now.
        let log = std::fs::read_to_string(&names).unwrap_or_default();
        let mut more = false;
        for l in log.lines().filter(|l| asked.insert(l.to_string())) {
            match l.split_at(l.len().min(2)) {
                ("E ", n) => {
                    let known = [DATA_VAR, "TERM", "RUST_MIN_STACK", "PWD", "PATH"].contains(&n)
                        || n.starts_with("LD_")
                        || n.starts_with("PBT_");
                    if !known && !n.is_empty() {
                        obs.count("variables asked for", 1);
                        if !noise.contains_key(n) || stage > 0 {
                            noise.insert(n.to_string(), at(choose(VALUES, n, c.found)));
                            more = true;
                        }
                    }
                }
                ("F ", n) => {
                    let p = if n.starts_with('/') { std::path::PathBuf::from(n) } else { other.join(n) };
                    let inside = p.starts_with(&other) && !p.components().any(|x| x.as_os_str() == "..");
                    if inside && !p.exists() {
                        if let Some(d) = p.parent() {
                            if std::fs::create_dir_all(d).is_err() {
                                continue;
                            }
                        }
                        if std::fs::write(&p, choose(CONTENTS, n, c.found)).is_ok() {
                            obs.count("files looked for", 1);
                            more = true;
                        }
                    }
                }
                _ => {}
            }
        }
        if stage > 0 && !more {
            break;
        }
        let noisy = run(&format!("noisy{}", stage), Some(&noise))?;
        c35_same(c, obs, &plain, &noisy, &format!("environment {:?}, files {:?}, {:?}", noise, c.files, tail(&log, 300)))?;
    }
    obs.class_if(c.db, "database");
    obs.class_if(c.alt, "alternate screen");
    obs.class_if(
        c.lines.iter().flatten().any(|l| l.trim_start().starts_with("/reloadvar") && l.matches('$').count() > 1),
        "several variables reloaded",
    );
    obs.nontrivial = !c.noise.is_empty() && c.lines.iter().map(|l| l.len()).sum::<usize>() > 2;
    Ok(())
}

fn c35() -> Prop {
    prop(
        "C35",
        "exploration",
        "1-3 sessions of 2-8 inputs (assignments, uses, settings, several variables reloaded or purged at once, /help, inputs wrong in more than one way) and 1-3 one-shot inputs, run twice: in an empty environment, and with 1-12 further environment variables (locale, home, terminal, colours, temporary directories, names that look like settings), in another working directory with files in it, one-shot also with a terminal for output. Any variable that the program asks for in the first run (a preloaded getenv notes the names) is set in the second, and any file that it looks for in vain in its directory or home is put there for another. Every answer, the screens and cursors, every stored row and every printed line must be the same. Non-trivial: some variable is set and there are more than two inputs.",
        (1600, 16000),
        c35_gen,
        c35_run,
    )
}

// ---------------------------------------------------------------- C36

/// The stored data as the documentation of its tables describes it.
#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
struct Dump {
    integrity: Vec<String>,
    foreign: usize,
    /// id, input, next, prev
    rows: Vec<(i64, String, Option<i64>, Option<i64>)>,
    tags: BTreeMap<String, Option<i64>>,
    meta: BTreeMap<String, i64>,
    /// name, numer, denom, last_used_by
    vars: Vec<(String, String, String, i64)>,
    extra: Vec<String>,
}

const DUMP: &str = r#"
import sqlite3,sys,json
c=sqlite3.connect(sys.argv[1])
q=lambda s:[list(r) for r in c.execute(s)]
have=[r[0] for r in q("select name from sqlite_master where type='table'")]
print(json.dumps(dict(
 integrity=[r[0] for r in q("pragma integrity_check")],
 foreign=len(q("pragma foreign_key_check")),
 rows=q("select id,input,next,prev from input_history order by id"),
 tags={str(k):v for k,v in q("select key,value from input_history_tags")},
 meta={str(k):v for k,v in q("select key,value from meta_int")},
 vars=q("select name,numer,denom,last_used_by from variable_history order by name"),
 extra=[json.dumps(q("select * from later order by k"))] if 'later' in have else [])))
"#;

const MAKE: &str = r#"
import sqlite3,sys,json
d=json.load(sys.stdin)
c=sqlite3.connect(sys.argv[1])
e=c.execute
e("pragma foreign_keys=off")
if d["kind"]>=1:
 e("CREATE TABLE meta_int(key INTEGER PRIMARY KEY ASC, value INTEGER NOT NULL)")
 if d["version"] is not None:
  e("INSERT INTO meta_int (key,value) VALUES (1,?)",(d["version"],))
  e("INSERT INTO meta_int (key,value) VALUES (2,1)")
 if d["cap"] is not None: e("INSERT INTO meta_int (key,value) VALUES (3,?)",(d["cap"],))
if d["kind"]>=2:
 later=", note TEXT" if d["later"] else ""
 e("CREATE TABLE input_history(id INTEGER PRIMARY KEY ASC, input TEXT NOT NULL, next REFERENCES input_history(id), prev REFERENCES input_history(id)"+later+")")
 e("CREATE TABLE input_history_tags(key INTEGER PRIMARY KEY ASC, value REFERENCES input_history(id))")
 e("CREATE TABLE variable_history(name TEXT PRIMARY KEY ON CONFLICT REPLACE, numer TEXT NOT NULL, denom TEXT NOT NULL, last_used_by NOT NULL REFERENCES input_history(id) ON DELETE CASCADE"+later+")")
 r=d["rows"]
 order=sorted(range(len(r)),key=lambda i:(i*7919)%1009)
 for i in order:
  e("INSERT INTO input_history (id,input,next,prev) VALUES (?,?,?,?)",(r[i][0],r[i][1],r[i+1][0] if i+1<len(r) else None,r[i-1][0] if i else None))
 if r or d["tags"]:
  e("INSERT INTO input_history_tags (key,value) VALUES (1,?)",(r[-1][0] if r else None,))
  e("INSERT INTO input_history_tags (key,value) VALUES (2,?)",(r[0][0] if r else None,))
 for n,a,b,i in d["vars"]:
  e("INSERT INTO variable_history (name,numer,denom,last_used_by) VALUES (?,?,?,?)",(n,a,b,r[i][0]))
 if d["later"]:
  e("CREATE TABLE later(k INTEGER PRIMARY KEY, v)")
  e("INSERT INTO later VALUES (1,'x')")
  e("INSERT INTO meta_int (key,value) VALUES (77,5)")
c.commit()
c.close()
"#;

fn python(prog: &str, arg: &Path, stdin: Option<String>) -> Result<Vec<u8>, Verdict> {
    use std::io::Write;
    let mut ch = io(Command::new("python3")
        .args(["-I", "-S", "-c", prog])
        .arg(arg)
        .stdin(if stdin.is_some() { Stdio::piped() } else { Stdio::null() })
        .stdout(Stdio::piped())
        .stderr(Stdio::piped())
        .spawn())?;
    if let (Some(t), Some(mut p)) = (stdin, ch.stdin.take()) {
        io(p.write_all(t.as_bytes()))?;
    }
    let out = io(ch.wait_with_output())?;
    if !out.status.success() {
        return Err(Verdict::Infra(format!("python3: {}", String::from_utf8_lossy(&out.stderr))));
    }
    Ok(out.stdout)
}

fn db_file(root: &Path) -> std::path::PathBuf {
    root.join("bcalc").join("saved_data.sqlite")
}

/// Reads the data without bcalc. What is not as documented is a failure.
fn dump(root: &Path) -> Result<Dump, Verdict> {
    let out = match python(DUMP, &db_file(root), None) {
        Err(Verdict::Infra(m)) if m.contains("OperationalError") || m.contains("DatabaseError") => {
            return Err(Verdict::Fail(format!("the stored data is not in the documented tables: {}", tail(&m, 300))));
        }
        r => r?,
    };
    serde_json::from_slice(&out)
        .map_err(|e| Verdict::Fail(format!("the stored data has other types than documented: {}: {}", e, clip(&String::from_utf8_lossy(&out)))))
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Made {
    /// 0: an empty file; 1: the table of versions only; 2: all tables.
    kind: u8,
    version: Option<i64>,
    cap: Option<i64>,
    /// What a later, compatible version may have added.
    later: bool,
    tags: bool,
    /// Oldest first.
    rows: Vec<(i64, String)>,
    /// name, numer, denom, row
    vars: Vec<(String, String, String, usize)>,
    sessions: Vec<Vec<String>>,
    names: Vec<String>,
}

fn c36_db(c: &Made) -> Db {
    let mut db = Db::new();
    if let Some(n) = c.cap {
        db.cap = n;
    }
    let ids: Vec<u64> = c.rows.iter().map(|(_, t)| db.add(t)).collect();
    for (n, a, b, i) in &c.vars {
        let v = Q::new(
            a.parse::<BigInt>().unwrap_or_default(),
            b.parse::<BigInt>().unwrap_or_else(|_| BigInt::one()),
        );
        db.vars.insert(n.clone(), (Some(Val::Exact(v)), ids[*i]));
    }
    db
}

fn c36_gen(s: &mut Src, _: bool) -> Made {
    let names = names(s, 1, 5);
    let kind = s.weighted(&[1, 1, 10]) as u8;
    let n = if kind == 2 { if s.pct(10) { s.range(20, 120) as usize } else { s.usize(9) } } else { 0 };
    let mut used = BTreeSet::new();
    let far = s.pct(30);
    let mut rows = Vec::new();
    for _ in 0..n {
        let mut id = if far { s.range(1, 1 << 40) } else { s.range(1, 3 * n as i64 + 3) };
        while !used.insert(id) {
            id += 1;
        }
        let t = match s.weighted(&[4, 3, 2, 1]) {
            0 => format!("{} + {}", s.range(0, 99), s.range(0, 99)),
            1 => format!("{} = {}", s.pick(&names), s.range(0, 99)),
            2 => printable(s, 30).replace(MARK, "x"),
            _ => String::new(),
        };
        rows.push((id, t));
    }
    let mut vars: Vec<(String, String, String, usize)> = Vec::new();
    if n > 0 {
        for name in &names {
            if s.pct(60) {
                let d = natural(s, 10, 12) + 1;
                let a = natural(s, 10, 25);
                let v = Q::new(if s.pct(40) { -a } else { a }, if s.pct(40) { BigInt::one() } else { d });
                // Not always in lowest terms.
                let k = BigInt::from(if s.pct(25) { s.range(2, 1000) } else { 1 });
                vars.push((name.clone(), (v.numer() * &k).to_string(), (v.denom() * &k).to_string(), s.usize(n)));
            }
        }
    }
    let later = kind == 2 && s.pct(20);
    let mut c = Made {
        kind,
        version: match kind {
            0 => None,
            2 => Some(if later { s.range(2, 9) } else { 1 }),
            _ => {
                if s.pct(50) {
                    Some(1)
                } else {
                    None
                }
            }
        },
        cap: if kind > 0 && s.pct(70) {
            Some((n as i64).max(1) + s.range(0, 6))
        } else {
            None
        },
        later,
        tags: s.pct(70),
        rows,
        vars,
        sessions: Vec::new(),
        names: names.clone(),
    };
    // Never full at first but by the capacity itself.
    if c.cap.is_none() && n > 100 {
        c.cap = Some(n as i64);
    }
    let mut w = World::new(true);
    w.db = Some(c36_db(&c));
    for _ in 0..s.size(1, 3) {
        w.open(0, &Settings::default());
        let k = s.size(1, 8);
        let mut v = Vec::new();
        for _ in 0..k {
            let t = match s.weighted(&[6, 5, 1, 1, 2, 2, 1]) {
                0 => assign_line(s, &w, 0, &names, 8),
                1 => use_line(s, &names),
                2 => expr_line(s, &w, 0, 2, 4),
                3 => setting_line(s),
                4 => format!("/histcap {}", s.range(1, 9)),
                5 => var_cmd(s, &names, true),
                _ => {
                    let u = unset_names(&names);
                    fail_line(s, &w, 0, &names, &u)
                }
            };
            if w.try_step(&Step::Line { s: 0, text: t.clone() }).is_some() {
                v.push(t);
            }
        }
        c.sessions.push(v);
    }
    c
}

/// Whether the data is what the model says.
fn c36_check(d: &Dump, m: &Db, c: &Made) -> Result<(), String> {
    if d.integrity != ["ok"] {
        return Err(format!("the integrity check says {:?}", d.integrity));
    }
    if d.foreign != 0 {
        return Err("an id refers to no row".into());
    }
    let version = c.version.unwrap_or(1);
    let want: BTreeMap<String, i64> = [("1".to_string(), version), ("2".to_string(), 1), ("3".to_string(), m.cap)]
        .into_iter()
        .chain(c.later.then(|| ("77".to_string(), 5)))
        .collect();
    if d.meta != want {
        return Err(format!("meta_int is {:?}; expected {:?}", d.meta, want));
    }
    let tag = |k: &str| d.tags.get(k).copied().flatten();
    if d.tags.len() != 2 {
        return Err(format!("input_history_tags is {:?}", d.tags));
    }
    let by: BTreeMap<i64, _> = d.rows.iter().map(|r| (r.0, r)).collect();
    let mut at = tag("2");
    let mut order: Vec<i64> = Vec::new();
    let mut prev = None;
    while let Some(i) = at {
        let r = match by.get(&i) {
            None => return Err(format!("there is no row {}", i)),
            Some(r) => r,
        };
        if r.3 != prev {
            return Err(format!("row {} has prev {:?}; expected {:?}", i, r.3, prev));
        }
        order.push(i);
        if order.len() > by.len() {
            return Err("the list of inputs has no end".into());
        }
        prev = Some(i);
        at = r.2;
    }
    if tag("1") != prev {
        return Err(format!("the front is {:?}; the list ends with {:?}", tag("1"), prev));
    }
    let texts: Vec<String> = order.iter().map(|i| by[i].1.clone()).collect();
    if texts != m.inputs() {
        return Err(format!("the inputs are {:?}; expected {:?}", texts, m.inputs()));
    }
    if order.len() != by.len() {
        return Err("some rows are not in the list".into());
    }
    let names: Vec<&String> = d.vars.iter().map(|v| &v.0).collect();
    let want: Vec<&String> = m.vars.keys().collect();
    if names != want {
        return Err(format!("the variables are {:?}; expected {:?}", names, want));
    }
    for (n, a, b, last) in &d.vars {
        let (val, id) = &m.vars[n];
        let (a, b) = match (a.parse::<BigInt>(), b.parse::<BigInt>()) {
            (Ok(x), Ok(y)) if y > BigInt::zero() && x.to_string() == *a && y.to_string() == *b => (x, y),
            _ => return Err(format!("{} is stored as {:?} / {:?}", n, a, b)),
        };
        let v = Q::new(a, b);
        if let Some(w) = val {
            if v < *w.lo() || v > *w.hi() {
                return Err(format!("{} is stored as {}; expected {}", n, v, w.lo()));
            }
        }
        let pos = order.iter().position(|i| i == last);
        let want = m.rows.iter().position(|r| r.0 == *id);
        if pos != want {
            return Err(format!(
                "{} was last used by input number {:?} of those stored; expected {:?}",
                n, pos, want
            ));
        }
    }
    if c.later && d.extra != ["[[1, \"x\"]]"] {
        return Err(format!("a table of a later version was changed: {:?}", d.extra));
    }
    Ok(())
}

fn c36_run(c: &Made, obs: &mut Obs) -> Verdict {
    match c36_try(c, obs) {
        Ok(()) => Verdict::Pass,
        Err(v) => v,
    }
}

fn c36_try(c: &Made, obs: &mut Obs) -> Result<(), Verdict> {
    let dir = Scratch::new();
    let root = dir.path().join("data");
    io(std::fs::create_dir_all(root.join("bcalc")))?;
    let spec = serde_json::json!({
        "kind": c.kind, "version": c.version, "cap": c.cap, "later": c.later, "tags": c.tags,
        "rows": c.rows, "vars": c.vars,
    });
    python(MAKE, &db_file(&root), Some(spec.to_string()))?;
    let mut w = World::new(true);
    w.db = Some(c36_db(c));
    // Written by others, read by bcalc.
    peek(&root, dir.path(), &w, &c.names)
        .map_err(|v| match v {
            Verdict::Fail(m) => Verdict::Fail(format!("data made as documented: {}", m)),
            v => v,
        })?;
    // Written by bcalc, read by others.
    for (i, lines) in c.sessions.iter().enumerate() {
        w.open(0, &Settings::default());
        let mut ses = start(&Opts::new(&[]).db(&root), dir.path())?;
        for l in lines {
            let want = w.submit(0, l);
            let got = ask(&mut ses, l)?;
            judge(l, &want, &got)?;
        }
        finish(&mut ses)?;
        let d = dump(&root)?;
        let m = w.db.as_ref().expect("a store");
        if let Err(e) = c36_check(&d, m, c) {
            return Err(Verdict::Fail(format!("after session {} ({:?}): {}", i + 1, lines, e)));
        }
        obs.count("readings", 1);
        obs.count("evictions", m.evictions as u64);
        obs.class_if(m.var_evictions > 0, "variables evicted");
    }
    obs.class_if(c.later, "a later version's additions");
    obs.class_if(c.kind < 2, "tables missing");
    obs.class_if(!c.vars.is_empty(), "variables");
    obs.nontrivial = c.rows.len() > 1;
    Ok(())
}

fn c36() -> Prop {
    prop(
        "C36",
        "exploration",
        "A database made without bcalc, by the table descriptions in src/saved_data.rs: 0-120 inputs with ids in random order and far apart, capacity given or not, 0-5 variables with values up to 25 digits, not always in lowest terms, and any row as last use, sometimes what a later compatible version added, sometimes tables missing; a new session must see exactly that. Then 1-3 sessions of 1-8 inputs against the store model, and after each the file is read without bcalc: integrity and foreign keys, the list from back to front and its links, tags, versions, capacity, variables' values and the input that last used them must be the model's. Non-trivial: at least two stored inputs to begin with.",
        (1800, 18000),
        c36_gen,
        c36_run,
    )
}

pub fn all() -> Vec<Prop> {
    vec![c34(), c35(), c36()]
}
