//! Lines and steps shared by the properties about sessions.

use crate::choice::Src;
use crate::engine::*;
use crate::gen::*;
use crate::spec::*;

/// The longest line a generator makes: it fits the window used for sessions.
pub const MAX_LINE: usize = 380;

pub fn fits(t: String) -> String {
    if t.len() > MAX_LINE {
        "1".into()
    } else {
        t
    }
}

/// An expression the reference decides, over the variables session `i` sees.
pub fn expr_line(s: &mut Src, w: &World, i: usize, depth: usize, digits: usize) -> String {
    let vals = w.values(i);
    let set = &w.get(i).set;
    let mut cfg = ExprCfg::new(set.radix);
    cfg.vars = vals.keys().cloned().collect();
    cfg.vars.sort();
    cfg.depth = depth;
    cfg.digits = digits;
    let (a, _) = decided(s, &cfg, set, Some(&vals));
    fits(write(&a, set.radix, s))
}

/// An assignment of a value (which may refer to variables, the assigned one included).
pub fn assign_line(s: &mut Src, w: &World, i: usize, names: &[String], digits: usize) -> String {
    let n = s.pick(names).clone();
    let e = match s.weighted(&[5, 3, 2]) {
        0 => {
            let d = s.usize(4);
            expr_line(s, w, i, d, digits)
        }
        1 => {
            // A signed fraction.
            let r = w.get(i).set.radix;
            let a = lit_text(&Q::from_integer(natural(s, r, digits)), r, None);
            let b = lit_text(&Q::from_integer(natural(s, r, digits) + 1), r, None);
            let sign = if s.pct(50) { "-" } else { "" };
            format!("{}{}/{}", sign, a, b)
        }
        _ => {
            // In terms of itself.
            let r = w.get(i).set.radix;
            let k = lit_text(&Q::from_integer(natural(s, r, 2)), r, None);
            format!("{} {} {}", n, s.pick(&["+", "-", "*"]), k)
        }
    };
    let eq = *s.pick(&["=", " = ", " =", "= "]);
    fits(format!("{}{}{}", n, eq, e))
}

pub fn use_line(s: &mut Src, names: &[String]) -> String {
    let n = s.pick(names).clone();
    match s.weighted(&[5, 1, 1, 1, 1]) {
        0 => n,
        1 => format!("-{}", n),
        2 => format!("{} + 1", n),
        4 => {
            // Several at once.
            let k = s.range(2, names.len().max(2) as i64 + 1) as usize;
            let from = s.usize(names.len());
            let v: Vec<&str> = (0..k).map(|j| names[(from + j) % names.len()].as_str()).collect();
            fits(v.join(s.pick(&[" + ", "+", " - "])))
        }
        _ => format!("{} - {}", n, s.pick(names)),
    }
}

fn spaced(s: &mut Src, words: &[String]) -> String {
    let mut t = String::new();
    for (i, w) in words.iter().enumerate() {
        if i > 0 {
            t.push(' ');
            if s.pct(12) {
                t.push_str(&" ".repeat(1 + s.usize(3)));
            }
        }
        t.push_str(w);
    }
    if s.pct(8) {
        t.push(' ');
    }
    if s.pct(5) {
        t.insert_str(0, *s.pick(&[" ", "   "]));
    }
    t
}

fn boolish(s: &mut Src) -> String {
    (*s.pick(&["t", "f", "true", "false", "T", "F", "True", "FALSE", "tRuE"])).to_string()
}

fn int_text(s: &mut Src, v: i64) -> String {
    match s.weighted(&[8, 1, 1, 1]) {
        0 => v.to_string(),
        1 => format!("0{}", v),
        2 => format!("{}.0", v),
        _ => {
            let t = v.to_string();
            if t.len() > 1 {
                format!("{}_{}", &t[..1], &t[1..])
            } else {
                t
            }
        }
    }
}

/// Sets or queries a setting. `roots`: keep precisions small enough for roots.
pub fn setting_line(s: &mut Src) -> String {
    let mut w = Vec::new();
    match s.weighted(&[3, 3, 3, 3, 2, 2]) {
        0 => {
            w.push((*s.pick(&["/radix", "/r"])).to_string());
            if !s.pct(25) {
                let v = s.range(2, 16);
                w.push(int_text(s, v));
            }
        }
        1 => {
            w.push("/converttoradix".to_string());
            match s.weighted(&[2, 5, 2]) {
                0 => {}
                1 => {
                    let v = s.range(2, 16);
                    w.push(int_text(s, v))
                }
                _ => w.push((*s.pick(&["none", "None", "NONE"])).to_string()),
            }
        }
        2 => {
            w.push((*s.pick(&["/precision", "/p"])).to_string());
            let n = s.usize(3);
            if s.pct(12) {
                // As much as is accepted.
                let sum = s.range(253, 255);
                let p = match s.usize(3) {
                    0 => s.range(0, 12),
                    1 => s.range(0, sum),
                    _ => sum - s.range(0, 3),
                };
                w.push(int_text(s, p));
                w.push(int_text(s, sum - p));
            } else if n > 0 {
                let v = match s.weighted(&[6, 2]) {
                    0 => s.range(0, 12),
                    _ => s.range(0, 80),
                };
                w.push(int_text(s, v));
                if n > 1 {
                    let v = s.range(0, 30);
                    w.push(int_text(s, v));
                }
            }
        }
        3 => {
            w.push((*s.pick(&["/fractional", "/f"])).to_string());
            if !s.pct(25) {
                w.push(boolish(s));
            }
        }
        4 => {
            w.push((*s.pick(&["/commas", "/comma"])).to_string());
            if !s.pct(25) {
                w.push(boolish(s));
            }
        }
        _ => {
            w.push("/upper".to_string());
            if !s.pct(25) {
                w.push(boolish(s));
            }
        }
    }
    spaced(s, &w)
}

/// A settings command the documentation says is refused.
pub fn bad_setting_line(s: &mut Src) -> String {
    let w: Vec<String> = match s.usize(6) {
        0 | 1 => {
            let c = (*s.pick(&["/radix", "/r", "/converttoradix"])).to_string();
            let mut v = vec![c];
            match s.usize(6) {
                0 => v.push(s.range(-3, 1).to_string()),
                1 => v.push(s.range(17, 40).to_string()),
                2 => v.push((*s.pick(&["256", "258", "266", "-246", "65546", "4294967306", "18446744073709551626", "99999999999999999999999"])).to_string()),
                3 => {
                    v.push(s.range(2, 16).to_string());
                    v.push(s.range(2, 16).to_string());
                }
                4 if s.pct(30) => {
                    v[0] = "/converttoradix".into();
                    v.push((*s.pick(&["none none", "none 8", "none5", "nonesuch", "nonee", "8 none", "non", "null"])).to_string());
                }
                4 => v.push((*s.pick(&["ten", "a", "nil", "2.5", "1/2", "$x", "(2)", "2+3", "--2", "no ne", "x2", "none none", "none 8", "none5", "nonesuch", "0", "1", "17"])).to_string()),
                _ => v.push(format!("{} none", s.range(2, 16))),
            }
            v
        }
        2 | 3 => {
            let mut v = vec![(*s.pick(&["/precision", "/p"])).to_string()];
            match s.usize(6) {
                0 => v.push((-s.range(1, 9)).to_string()),
                1 => v.push((*s.pick(&["256", "257", "300", "65536", "4294967296", "18446744073709551616"])).to_string()),
                2 => {
                    let p = s.range(1, 255);
                    v.push(p.to_string());
                    let low = 256 - p;
                    v.push(if s.pct(40) { low } else { s.range(low, 255) }.to_string());
                }
                3 => {
                    for _ in 0..3 {
                        v.push(s.range(0, 9).to_string());
                    }
                }
                4 => v.push((*s.pick(&["x", "1.5", "five", "$p", "1,2"])).to_string()),
                _ => {
                    v.push(s.range(0, 9).to_string());
                    v.push((*s.pick(&["-1", "256", "x", "1.5"])).to_string());
                }
            }
            v
        }
        _ => vec![
            (*s.pick(&["/fractional", "/f", "/commas", "/comma", "/upper"])).to_string(),
            (*s.pick(&["1", "0", "yes", "no", "on", "off", "tr", "truee", "t f", "true false", "maybe", "none", "$x", "!"])).to_string(),
        ],
    };
    spaced(s, &w)
}

pub fn name_list(s: &mut Src, names: &[String], hi: usize) -> Vec<String> {
    let hi = if s.pct(12) { hi * 3 } else { hi };
    let n = s.size(1, hi);
    (0..n).map(|_| s.pick(names).clone()).collect()
}

pub fn var_cmd(s: &mut Src, names: &[String], reload: bool) -> String {
    let mut w = vec![if reload && s.pct(50) {
        "/reloadvar".to_string()
    } else {
        "/purgevar".to_string()
    }];
    w.extend(name_list(s, names, 3));
    spaced(s, &w)
}

/// One or two characters that are no number, name or word, in most places.
pub fn odd_word(s: &mut Src) -> String {
    let c = b"/-+*%^=(),.'\"\\#!?:;<>[]{}|~`@&_x";
    let n = s.size(1, 2);
    (0..n).map(|_| *s.pick(c) as char).collect()
}

/// A line answered with an error whatever the state (names in `unset` are not assigned).
pub fn fail_line(s: &mut Src, w: &World, i: usize, names: &[String], unset: &[String]) -> String {
    let r = w.get(i).set.radix;
    let e = {
        let d = s.usize(3);
        expr_line(s, w, i, d, 3)
    };
    let target = match s.weighted(&[6, 3]) {
        0 => format!("{} = ", s.pick(names)),
        _ => String::new(),
    };
    let _ = r;
    let t = match s.usize(12) {
        0 => format!("{}({}) / (1 - 1)", target, e),
        1 => format!("{}{} % 0", target, e),
        2 => format!("{}0 ^ -1 + {}", target, e),
        3 => format!("{}sqrt (0-1-1)", target),
        4 => format!("{}{} + {}", target, e, s.pick(unset)),
        5 => format!("{}{} + ", target, e),
        6 => format!("{}({}", target, e),
        7 => format!("{}{})", target, e),
        8 => format!("{}{} 1 1", target, e),
        9 => format!("{}{} + 1.1.1", target, e),
        10 => match s.usize(3) {
            0 => format!("{} {} 1", s.pick(names), s.pick(&["==", "= =", "+ 1 ="])),
            1 => format!("{} = {} = 1", s.pick(names), s.pick(names)),
            _ => format!("{} =", s.pick(names)),
        },
        _ => match s.usize(4) {
            0 => bad_setting_line(s),
            1 => (*s.pick(&["/histcap 0", "/histcap -1", "/histcap x", "/histcap 1 2", "/histcap 1.5", "/histcap 99999999999999999999"])).to_string(),
            2 => {
                let c = *s.pick(&["purgevar", "reloadvar"]);
                let bad = if s.pct(30) {
                    (*s.pick(&["1", "+", "x", "(", "= 1"])).to_string()
                } else {
                    odd_word(s)
                };
                match s.usize(3) {
                    0 => format!("/{} {}", c, bad),
                    1 => format!("/{} {} {}", c, s.pick(names), bad),
                    _ => format!("/{} {} {}", c, bad, s.pick(names)),
                }
            }
            _ if s.pct(30) => {
                // A long message, perhaps.
                let n = s.range(20, 260) as usize;
                let long: String = std::iter::repeat(*s.pick(&['q', 'Q', 'z', '_', '@'])).take(n).collect();
                match s.usize(4) {
                    0 => format!("/{}", long),
                    1 => format!("/radix {}", long),
                    2 => format!("{}{} + {}", target, e, long),
                    _ => format!("{}{}({})", target, long, e),
                }
            }
            _ => (*s.pick(&["/", "/x", "/Radix 4", "/RADIX", "/histcapp", "/ radix 3", "/help zzz", "//"])).to_string(),
        },
    };
    fits(t)
}

/// Text nobody would enter.
pub fn garbage(s: &mut Src, w: &World, i: usize, max: usize) -> String {
    let radix = w.get(i).set.radix;
    let t = match s.weighted(&[3, 3, 1]) {
        0 => printable(s, max),
        1 => {
            let t = soup(s, radix, 14);
            let p = *s.pick(&[0, 30, 100]);
            join(&t, s, p)
        }
        _ => " ".repeat(s.usize(4)),
    };
    fits(t)
}

/// Names that none of `names` and no generator of names makes.
pub fn unset_names(names: &[String]) -> Vec<String> {
    ["$unset", "$UNSET", "$nope.1"]
        .iter()
        .map(|x| x.to_string())
        .filter(|x| !names.contains(x))
        .collect()
}

/// Adds a line if the reference decides it; says whether it did.
pub fn push(steps: &mut Vec<Step>, w: &mut World, i: usize, text: String) -> bool {
    let st = Step::Line { s: i, text };
    if w.try_step(&st).is_some() {
        steps.push(st);
        true
    } else {
        false
    }
}

pub fn push_step(steps: &mut Vec<Step>, w: &mut World, st: Step) -> bool {
    if w.try_step(&st).is_some() {
        steps.push(st);
        true
    } else {
        false
    }
}

/// Keys that produce `text` with detours; the same as typing it.
pub fn detour(s: &mut Src, text: &str) -> Vec<crate::model::Key> {
    use crate::model::Key;
    let mut k = Vec::new();
    for c in text.chars() {
        if s.pct(4) {
            k.push(Key::Ch('x'));
            k.push(Key::Back);
        }
        k.push(Key::Ch(c));
    }
    k
}

/// Lines that show everything a session knows: settings, then each name exactly.
pub fn probe(steps: &mut Vec<Step>, w: &mut World, i: usize, names: &[String], settings: bool) {
    if settings {
        for q in ["/radix", "/converttoradix", "/precision", "/fractional", "/commas", "/upper"] {
            push(steps, w, i, q.into());
        }
    }
    if !w.get(i).set.fractional {
        push(steps, w, i, "/fractional true".into());
    }
    for n in names {
        push(steps, w, i, n.clone());
    }
}
