//! C24-C26: crashes, failing writes, and simultaneous access to the database.

use super::common::*;
use super::store::*;
use crate::choice::Src;
use crate::engine::*;
use crate::gen::*;
use crate::model::*;
use crate::play::*;
use crate::proc::*;
use crate::runner::*;
use crate::spec::*;
use serde::{Deserialize, Serialize};
use std::path::Path;

/// Everything that changes files.
const CHANGES: u64 = OP_WRITE | OP_SYNC | OP_TRUNC | OP_UNLINK | OP_OPEN | OP_MKDIR;

fn unmarked(t: String) -> String {
    t.replace(MARK, "-")
}

/// Lines of an earlier session, some of which fill the history.
fn earlier(s: &mut Src, h: &mut Hist, lo: usize, hi: usize) {
    h.open(0, Settings::default());
    let n = s.range(lo as i64, hi as i64);
    for _ in 0..n {
        let t = unmarked(h.text(s, 0));
        h.line(0, &t);
    }
}

fn is_failure(got: &str) -> bool {
    got.starts_with("Error: ") || got.starts_with("Runtime Error: ")
}

// ---------------------------------------------------------------- C24

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Crash {
    /// Earlier sessions.
    before: Vec<Step>,
    /// What the session enters before the moment of the crash.
    own: Vec<String>,
    /// None: the crash comes while the database is opened.
    line: Option<String>,
    names: Vec<String>,
    /// Where: per mille of the calls made; every one if empty.
    points: Vec<u64>,
    /// Die in the middle of a write.
    half: bool,
    /// A second crash while the next session opens the database: number of the call.
    again: Option<u64>,
}

fn c24_gen(s: &mut Src, thorough: bool) -> Crash {
    let plan = Plan {
        sessions: 1,
        steps: 0,
        names: names(s, 1, 3),
        lines: [10, 5, 4, 3, 2, 2, 1, 0],
        acts: [1, 0, 0, 0, 0],
        caps: &[1, 2, 3, 4, 6, 100],
        digits: if s.pct(10) { 300 } else { 8 },
    };
    let first = s.pct(12);
    let mut h = Hist::new(&plan);
    let mut own = Vec::new();
    let mut line = None;
    if !first {
        h.open(0, Settings::default());
        if s.pct(60) {
            let cap = s.range(1, 6);
            h.line(0, &format!("/histcap {}", cap));
        }
        let n = s.range(0, 9);
        for _ in 0..n {
            let t = unmarked(h.text(s, 0));
            h.line(0, &t);
        }
        h.step(Step::Close { s: 0, key: 0 });
    }
    let before = std::mem::take(&mut h.steps);
    if !first && s.pct(88) {
        h.open(0, Settings::default());
        let n = s.size(0, 3);
        for _ in 0..n {
            let t = unmarked(h.text(s, 0));
            if h.line(0, &t) {
                own.push(t);
            }
        }
        loop {
            let t = unmarked(h.text(s, 0));
            if h.line(0, &t) {
                line = Some(t);
                break;
            }
        }
    }
    let n = if thorough { 0 } else { 6 };
    Crash {
        before,
        own,
        line,
        names: plan.names.clone(),
        points: (0..n).map(|_| s.below(1000)).collect(),
        half: s.pct(30),
        again: if s.pct(25) { Some(s.range(1, 20) as u64) } else { None },
    }
}

/// Starts a session under the shim, enters `own`, counts or arms, and enters the line.
fn crash_once(
    c: &Crash,
    root: &Path,
    cwd: &Path,
    base: &World,
    at: Option<u64>,
) -> Result<(u64, Option<End>), Verdict> {
    let shim = Shim::new(cwd, "ctl").map_err(infra)?;
    let o = shim.opts(Opts::new(&[]).db(root), root);
    let act = if c.half { Act::HalfKill } else { Act::Kill };
    let arm = |shim: &Shim| match at {
        None => shim.count_from_now(CHANGES),
        Some(k) => shim.arm(CHANGES, act, k, 0, 0),
    };
    if c.line.is_none() {
        arm(&shim);
    }
    let mut ses = Session::spawn(&o, cwd).map_err(infra)?;
    let died = |ses: &Session, e: Stop, what: &str| match e {
        Stop::Ended(End::Signal(libc::SIGKILL)) if shim.fired() > 0 => {
            Ok((shim.count(), Some(End::Signal(libc::SIGKILL))))
        }
        e => Err(stop_verdict(ses, e, what)),
    };
    if let Err(e) = ses.wait_prompt() {
        return died(&ses, e, "start");
    }
    if let Some(l) = &c.line {
        let mut w = base.clone();
        w.open(0, &Settings::default());
        for t in &c.own {
            let want = w.submit(0, t);
            let got = ask(&mut ses, t)?;
            judge(t, &want, &got)?;
        }
        arm(&shim);
        let want = w.submit(0, l);
        match ses.line(l) {
            Ok(got) => judge(l, &want, &got)?,
            Err(e) => return died(&ses, e, &format!("input {:?}", clip(l))),
        }
    }
    let n = shim.count();
    shim.disarm();
    finish(&mut ses)?;
    Ok((n, None))
}

/// Whether `rows` is what may be stored when `x` came after `b` and evictions leave at least `a`.
fn rows_fit(rows: &[String], b: &[String], x: Option<&str>, a: &[String]) -> bool {
    if rows == b {
        return true;
    }
    let x = match x {
        Some(x) => x,
        None => return false,
    };
    let mut full = b.to_vec();
    full.push(x.to_string());
    rows.len() >= a.len() && rows.len() <= full.len() && rows == &full[full.len() - rows.len()..]
}

fn check_seen(
    seen: &Seen,
    before: &Db,
    after: &Db,
    x: Option<&str>,
    names: &[String],
) -> Result<(), String> {
    let (b, a) = (before.inputs(), after.inputs());
    if !rows_fit(&seen.rows, &b, x, &a) {
        return Err(format!(
            "the stored inputs are {:?}; before {:?}, after {:?}",
            seen.rows, b, a
        ));
    }
    if seen.cap != before.cap.to_string() && seen.cap != after.cap.to_string() {
        return Err(format!(
            "the capacity is {:?}; before {}, after {}",
            seen.cap, before.cap, after.cap
        ));
    }
    for (n, got) in names.iter().zip(&seen.vars) {
        let vb = var_answer(before.vars.get(n).map(|v| &v.0));
        let va = var_answer(after.vars.get(n).map(|v| &v.0));
        let ok = |w: &Option<Want>| w.as_ref().map_or(true, |w| w.ok(got));
        if !ok(&vb) && !ok(&va) {
            return Err(format!(
                "{} is answered {:?}; before {}, after {}",
                n,
                clip(got),
                vb.map_or("?".into(), |w| clip(&w.show())),
                va.map_or("?".into(), |w| clip(&w.show()))
            ));
        }
    }
    Ok(())
}

fn c24_run(c: &Crash, obs: &mut Obs) -> Verdict {
    let dir = Scratch::new();
    let root = dir.path().join("data");
    if let Err(e) = std::fs::create_dir(&root) {
        return Verdict::Infra(e.to_string());
    }
    let base = if c.before.is_empty() {
        World::new(true)
    } else {
        get!(play_quietly(&c.before, &root, dir.path()))
    };
    let db = |w: &World| w.db.clone().expect("database");
    let mut w = base.clone();
    w.open(0, &Settings::default());
    for t in &c.own {
        w.submit(0, t);
    }
    let before = db(&w);
    if let Some(l) = &c.line {
        w.submit(0, l);
    }
    let after = db(&w);
    // How many calls there are.
    let n = {
        let to = get!(copied(&root));
        get!(crash_once(c, to.path(), dir.path(), &base, None)).0
    };
    if n == 0 {
        return Verdict::Infra("no calls were counted".into());
    }
    let mut points: Vec<u64> = if c.points.is_empty() {
        (1..=n).collect()
    } else {
        c.points.iter().map(|p| 1 + p * n / 1000).collect()
    };
    points.sort_unstable();
    points.dedup();
    obs.class(match (&c.line, c.before.is_empty()) {
        (None, true) => "creating the database",
        (None, false) => "opening the database",
        _ => "an input",
    });
    obs.class_if(after.evictions > before.evictions, "an input that evicts");
    obs.class_if(after.var_evictions > before.var_evictions, "an input that evicts a variable");
    for k in points {
        let at = |m: String| format!("crash at call {} of {}: {}", k, n, m);
        let to = get!(copied(&root));
        let (_, end) = match crash_once(c, to.path(), dir.path(), &base, Some(k)) {
            Ok(x) => x,
            Err(Verdict::Fail(m)) => return Verdict::Fail(at(m)),
            Err(v) => return v,
        };
        if end.is_none() {
            continue;
        }
        obs.count("crashes", 1);
        let hot = to.path().join("bcalc/saved_data.sqlite-journal").exists();
        obs.class_if(hot, "journal left");
        if let Some(k2) = c.again {
            // Crashes once more while the data is opened.
            let c2 = Crash {
                line: None,
                own: vec![],
                ..c.clone()
            };
            match crash_once(&c2, to.path(), dir.path(), &base, Some(k2)) {
                Ok((_, Some(_))) => {
                    obs.count("second crashes", 1);
                    obs.class_if(hot, "crash while recovering");
                }
                Ok(_) => {}
                Err(Verdict::Fail(m)) => return Verdict::Fail(at(format!("next session: {}", m))),
                Err(v) => return v,
            }
        }
        let extra = [("$kept.z = 0-22/7", "-22/7"), ("5+5", "10"), ("/nosuch", "")];
        let (seen, entered) = match observe(to.path(), dir.path(), &c.names, &extra[..2]) {
            Ok(x) => x,
            Err(Verdict::Fail(m)) => return Verdict::Fail(at(format!("next session: {}", m))),
            Err(v) => return v,
        };
        if let Err(m) = check_seen(&seen, &before, &after, c.line.as_deref(), &c.names) {
            return Verdict::Fail(at(m));
        }
        let mut names = c.names.clone();
        names.push("$kept.z".into());
        // The last of these evicts all the others.
        let last = [("/histcap 2", "Done"), ("8+8", "16")];
        let (then, _) = match observe(to.path(), dir.path(), &names, &last) {
            Ok(x) => x,
            Err(Verdict::Fail(m)) => return Verdict::Fail(at(format!("session after the next: {}", m))),
            Err(v) => return v,
        };
        let mut rows = seen.rows.clone();
        rows.extend(entered);
        let mut vars = seen.vars.clone();
        vars.push("-22/7".into());
        let same_vars = vars
            .iter()
            .zip(&then.vars)
            .all(|(a, b)| a == b || (is_failure(a) && is_failure(b)));
        if then.rows != rows || !same_vars {
            return Verdict::Fail(at(format!(
                "after storing more, the history is {:?} with {:?}; expected {:?} with {:?}",
                then.rows, then.vars, rows, vars
            )));
        }
        if c.line.is_none() || k % 3 == 0 {
            let (left, _) = match observe(to.path(), dir.path(), &[], &[]) {
                Ok(x) => x,
                Err(Verdict::Fail(m)) => return Verdict::Fail(at(format!("after evictions: {}", m))),
                Err(v) => return v,
            };
            if left.rows != ["/histcap 2", "8+8"] || left.cap != "2" {
                return Verdict::Fail(at(format!(
                    "the capacity set to 2 and another line entered leave the history {:?} and the capacity {:?}",
                    left.rows, left.cap
                )));
            }
        }
        obs.nontrivial |= hot;
    }
    Verdict::Pass
}

fn c24() -> Prop {
    prop(
        "C24",
        "exploration",
        "Stored histories of 0 to 9 inputs, mostly at a small capacity; then a session is killed (SIGKILL) at 6 random ones (thorough: at every one) of the file-changing system calls it makes (write, sync, truncate, unlink, open, mkdir; a third of the cases in the middle of a write) while it processes an input or opens or creates the database, and in a quarter of the cases once more while the next session opens it; each time the next session's whole history, capacity and variables must be those from before or after the input, and what it stores must be there in the one after. Non-trivial: a rollback journal was left behind.",
        (500, 2000),
        c24_gen,
        c24_run,
    )
}

// ---------------------------------------------------------------- C25

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Fault {
    mask: u64,
    short: bool,
    /// From the how-manieth call on, and how many; 0: until the end of the outage.
    from: u64,
    calls: u64,
    err: i32,
    /// Lines entered meanwhile; None: the history is walked.
    lines: Vec<Option<String>>,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
enum Act25 {
    Line(String),
    Outage(Fault),
    Recall,
    /// Another session, for this input.
    Other(String),
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Outages {
    before: Vec<Step>,
    acts: Vec<Act25>,
    names: Vec<String>,
}

fn c25_gen(s: &mut Src, thorough: bool) -> Outages {
    let plan = Plan {
        sessions: 1,
        steps: 0,
        names: names(s, 1, 3),
        lines: [10, 6, 3, 2, 0, 2, 1, 0],
        acts: [1, 0, 0, 0, 0],
        caps: &[],
        digits: if s.pct(10) { 300 } else { 8 },
    };
    let mut h = Hist::new(&plan);
    if s.pct(60) {
        earlier(s, &mut h, 0, 6);
        h.step(Step::Close { s: 0, key: 0 });
    }
    let before = std::mem::take(&mut h.steps);
    h.open(0, Settings::default());
    let mut acts = Vec::new();
    let n = s.range(1, if thorough { 8 } else { 4 });
    let lines = |s: &mut Src, h: &mut Hist, acts: &mut Vec<Act25>, hi: usize| {
        let n = s.size(0, hi);
        for _ in 0..n {
            let t = unmarked(h.text(s, 0));
            if h.line(0, &t) {
                acts.push(Act25::Line(t));
            }
        }
    };
    for _ in 0..n {
        lines(s, &mut h, &mut acts, 4);
        if s.pct(20) {
            h.step(Step::Recall { s: 0 });
            acts.push(Act25::Recall);
        }
        if s.pct(25) {
            // What the session knows and what is stored part.
            h.open(1, Settings::default());
            let t = assign_line(s, &h.w, 1, &plan.names, 6);
            if h.line(1, &t) {
                acts.push(Act25::Other(t));
            }
            h.step(Step::Close { s: 1, key: 0 });
        }
        let k = s.range(1, 3);
        let mut during = Vec::new();
        for _ in 0..k {
            if s.pct(15) {
                h.step(Step::Recall { s: 0 });
                during.push(None);
                continue;
            }
            let t = unmarked(h.text(s, 0));
            if h.line(0, &t) {
                during.push(Some(t));
            }
        }
        acts.push(Act25::Outage(Fault {
            mask: *s.pick(&[
                OP_WRITE,
                OP_WRITE,
                OP_SYNC,
                OP_TRUNC,
                OP_UNLINK,
                OP_OPEN,
                OP_WRITE | OP_SYNC | OP_TRUNC | OP_UNLINK | OP_OPEN,
            ]),
            short: s.pct(20),
            from: match s.weighted(&[3, 5]) {
                0 => 1,
                _ => s.range(1, 30) as u64,
            },
            calls: match s.weighted(&[4, 3, 3]) {
                0 => 1,
                1 => s.range(2, 5) as u64,
                _ => 0,
            },
            err: *s.pick(&[libc::ENOSPC, libc::EIO, libc::EDQUOT]),
            lines: during,
        }));
    }
    lines(s, &mut h, &mut acts, 3);
    acts.push(Act25::Recall);
    Outages {
        before,
        acts,
        names: plan.names.clone(),
    }
}

/// The worlds possible after an affected input.
fn forks(w: &World, text: &str, got: &str) -> Vec<World> {
    let mut none = w.clone();
    {
        // Not processed at all, but entered.
        let mut db = none.db.take();
        let m = none.sess[0].as_mut().expect("open session");
        m.enter_only(text);
        none.db = db.take();
    }
    let mut all = w.clone();
    let want = all.submit(0, text);
    let failed = is_failure(got);
    if !failed && !want.ok(got) {
        return Vec::new();
    }
    // The session's own values.
    let mut out = vec![];
    let ms = |w: &World| w.get(0).mem.clone();
    if failed {
        out.push(none.clone());
        let (a, b) = (ms(&none), ms(&all));
        let mut names: Vec<&String> = a.keys().chain(b.keys()).collect();
        names.sort();
        names.dedup();
        for n in names {
            if a.get(n) == b.get(n) {
                continue;
            }
            let more: Vec<World> = out
                .iter()
                .map(|o| {
                    let mut o = o.clone();
                    let m = &mut o.sess[0].as_mut().expect("session").mem;
                    match b.get(n) {
                        Some(v) => m.insert(n.clone(), v.clone()),
                        None => m.remove(n),
                    };
                    o
                })
                .collect();
            out.extend(more);
        }
    } else {
        let mut o = all.clone();
        o.db = none.db.clone();
        out.push(o);
    }
    // The stored values.
    let (da, db) = (none.db.as_ref().expect("db"), all.db.as_ref().expect("db"));
    let mut names: Vec<&String> = da.vars.keys().chain(db.vars.keys()).collect();
    names.sort();
    names.dedup();
    for n in names {
        if da.vars.get(n).map(|v| &v.0) == db.vars.get(n).map(|v| &v.0) {
            continue;
        }
        let more: Vec<World> = out
            .iter()
            .map(|o| {
                let mut o = o.clone();
                let m = &mut o.db.as_mut().expect("db").vars;
                match db.vars.get(n) {
                    Some(v) => m.insert(n.clone(), v.clone()),
                    None => m.remove(n),
                };
                o
            })
            .collect();
        out.extend(more);
    }
    // The stored inputs.
    let more: Vec<World> = out
        .iter()
        .map(|o| {
            let mut o = o.clone();
            o.db.as_mut().expect("db").rows = db.rows.clone();
            o
        })
        .collect();
    // Ids go on the same way in every world.
    out.extend(more);
    for o in out.iter_mut() {
        o.db.as_mut().expect("db").skip_id(db);
    }
    out
}

fn narrow(ws: &mut Vec<World>, text: &str, got: &str) -> Result<(), String> {
    let mut wants = Vec::new();
    let mut keep = Vec::new();
    for w in ws.drain(..) {
        let mut w2 = w;
        let want = w2.submit(0, text);
        if want.ok(got) {
            keep.push(w2);
        } else {
            let t = clip(&want.show());
            if !wants.contains(&t) {
                wants.push(t);
            }
        }
    }
    *ws = keep;
    if ws.is_empty() {
        Err(format!(
            "input {:?} was answered {:?}; expected {}",
            clip(text),
            clip(got),
            wants.join(" or ")
        ))
    } else {
        Ok(())
    }
}

fn c25_run(c: &Outages, obs: &mut Obs) -> Verdict {
    let dir = Scratch::new();
    let root = dir.path().join("data");
    if let Err(e) = std::fs::create_dir(&root) {
        return Verdict::Infra(e.to_string());
    }
    let mut base = if c.before.is_empty() {
        World::new(true)
    } else {
        get!(play_quietly(&c.before, &root, dir.path()))
    };
    base.open(0, &Settings::default());
    let shim = match Shim::new(dir.path(), "ctl") {
        Ok(s) => s,
        Err(e) => return infra(e),
    };
    let mut ses = get!(start(
        &shim.opts(Opts::new(&[]).db(&root), &root),
        dir.path()
    ));
    let mut ws = vec![base];
    let walk = |ses: &mut Session, ws: &mut Vec<World>| -> Result<(), Verdict> {
        recall(ses, &mut ws[0], 0)?;
        for w in ws.iter_mut().skip(1) {
            w.step(&Step::Recall { s: 0 });
        }
        Ok(())
    };
    // What was entered in the session is recalled whatever the disk does; older lines may not be.
    let walk_own = |ses: &mut Session, ws: &mut Vec<World>| -> Result<(), Verdict> {
        let n = ws[0].get(0).hist.len();
        for i in 0..n {
            ses.write(&Key::Up.bytes());
            for w in ws.iter_mut() {
                w.key(0, &Key::Up);
            }
            let (t, c) = (ws[0].get(0).text(), ws[0].get(0).cursor);
            wait_shown(ses, &t, c, &|| format!("Up pressed {} times", i + 1))?;
        }
        for _ in 0..2 {
            ses.write(&Key::Up.bytes());
        }
        for _ in 0..n + 2 {
            ses.write(&Key::Down.bytes());
        }
        for _ in 0..n {
            for w in ws.iter_mut() {
                w.key(0, &Key::Down);
            }
        }
        if let Err(e) = ses.idle() {
            return Err(stop_verdict(ses, e, "walking the history"));
        }
        wait_shown(ses, "", 0, &|| "after walking the history".to_string())
    };
    for (i, a) in c.acts.iter().enumerate() {
        let here = |m: String| Verdict::Fail(format!("step {}: {}", i + 1, m));
        match a {
            Act25::Line(t) => {
                let got = get!(ask(&mut ses, t));
                if let Err(m) = narrow(&mut ws, t, &got) {
                    return here(m);
                }
            }
            Act25::Recall => {
                if let Err(v) = walk(&mut ses, &mut ws) {
                    return v;
                }
            }
            Act25::Other(t) => {
                let mut other = get!(start(&Opts::new(&[]).db(&root), dir.path()));
                let got = get!(ask(&mut other, t));
                for w in ws.iter_mut() {
                    w.open(1, &Settings::default());
                    let want = w.submit(1, t);
                    w.sess[1] = None;
                    if let Err(Verdict::Fail(m)) = judge(t, &want, &got) {
                        return here(format!("in another session: {}", m));
                    }
                }
                tri!(finish(&mut other));
                obs.class("another session");
            }
            Act25::Outage(f) => {
                let until = match f.calls {
                    0 => u64::MAX,
                    n => f.from + n - 1,
                };
                let act = if f.short { Act::Short } else { Act::Fail };
                shim.arm(f.mask, act, f.from, until, f.err);
                let mut hit = false;
                for l in &f.lines {
                    let fired = shim.fired();
                    match l {
                        None => match walk_own(&mut ses, &mut ws) {
                            Ok(()) => obs.class("history walked during an outage"),
                            Err(Verdict::Fail(m)) => return here(format!("during the outage: {}", m)),
                            Err(v) => return v,
                        },
                        Some(t) => {
                            let got = match ask(&mut ses, t) {
                                Ok(g) => g,
                                Err(Verdict::Fail(m)) => {
                                    return here(format!("during the outage: {}", m))
                                }
                                Err(v) => return v,
                            };
                            if shim.fired() > fired || hit {
                                // Affected, or something may be left over from the one before.
                                hit = true;
                                let mut all = Vec::new();
                                for w in &ws {
                                    all.extend(forks(w, t, &got));
                                }
                                if all.is_empty() {
                                    return here(format!(
                                        "during the outage: input {:?} was answered {:?}",
                                        clip(t),
                                        clip(&got)
                                    ));
                                }
                                obs.count("affected inputs", 1);
                                obs.class(match shim.kind() {
                                    OP_WRITE => "write failed",
                                    OP_SYNC => "sync failed",
                                    OP_TRUNC => "truncate failed",
                                    OP_UNLINK => "unlink failed",
                                    OP_OPEN => "open failed",
                                    _ => "something failed",
                                });
                                obs.class_if(is_failure(&got), "answered with an error");
                                obs.nontrivial |= got.starts_with("Runtime Error");
                                ws = all;
                                if ws.len() > 4000 {
                                    return Verdict::Infra("too many possible worlds".into());
                                }
                            } else if let Err(m) = narrow(&mut ws, t, &got) {
                                return here(format!("during the outage, not affected: {}", m));
                            }
                        }
                    }
                }
                shim.disarm();
                if !hit {
                    continue;
                }
                // What the session knows now, and what is stored.
                for n in &c.names {
                    for t in [n.clone(), format!("/reloadvar {}", n), n.clone()] {
                        let got = match ask(&mut ses, &t) {
                            Ok(g) => g,
                            Err(Verdict::Fail(m)) => return here(format!("after the outage: {}", m)),
                            Err(v) => return v,
                        };
                        if let Err(m) = narrow(&mut ws, &t, &got) {
                            return here(format!("after the outage: {}", m));
                        }
                    }
                }
                let copy = get!(copied(&root));
                let (seen, _) = match observe(copy.path(), dir.path(), &c.names, &[]) {
                    Ok(x) => x,
                    Err(Verdict::Fail(m)) => {
                        return here(format!("after the outage, in a new session: {}", m))
                    }
                    Err(v) => return v,
                };
                let all = ws.len();
                let sample = ws[0].db.as_ref().map(|d| d.inputs()).unwrap_or_default();
                ws.retain(|w| {
                    let d = w.db.as_ref().expect("db");
                    check_seen(&seen, d, d, None, &c.names).is_ok()
                });
                if ws.is_empty() {
                    return here(format!(
                        "after the outage a new session sees {:?}, which is none of the {} possible outcomes, such as {:?}",
                        seen, all, sample
                    ));
                }
                // Worlds that differ in nothing that can be seen any more.
                ws.truncate(1);
                obs.count("outages", 1);
            }
        }
    }
    tri!(finish(&mut ses));
    let w = &ws[0];
    if let Err(v) = examine(&root, dir.path(), w, &c.names) {
        return v;
    }
    Verdict::Pass
}

fn c25() -> Prop {
    prop(
        "C25",
        "fault-injection",
        "Sessions on a stored history of up to 6 inputs, in which up to 4 (thorough 8) outages let file-changing system calls on the data directory fail (writes, also partly done, syncs, truncations, unlinks, creation of the journal, or all; ENOSPC, EIO, EDQUOT; from the first or a later call on; once, a few times or until the outage ends) while one to three inputs are entered or the history is walked; between outages another session may assign a variable. Affected inputs may be answered with an error and be stored or not; everything else must be the model's: each answer, session values, what /reloadvar finds, the walked history, and the stored data seen by new sessions on copies after each outage and at the end. Non-trivial: an input was answered with a runtime error.",
        (1200, 12000),
        c25_gen,
        c25_run,
    )
}

// ---------------------------------------------------------------- C26

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Meet {
    before: Vec<Step>,
    /// What each session enters before; then the two lines entered at the same moment.
    own: [Vec<String>; 2],
    line: [Option<String>; 2],
    names: Vec<String>,
    /// Per mille of the calls of each session, at which it is stopped for the other to go on.
    stops: Vec<(u64, Option<u64>)>,
    /// They are stopped at calls that lock only.
    #[serde(default)]
    locks: bool,
    /// If any: what each of several sessions enters, freely running, instead of all that.
    #[serde(default)]
    crowd: Vec<Vec<String>>,
}

/// The variables whose last use is evicted when two inputs are added before either of them evicts,
/// whatever becomes of the capacity.
fn evictable(w: &World, w1: &World, w2: &World) -> Vec<String> {
    let dbs = [w, w1, w2].map(|w| w.db.as_ref().expect("db"));
    let cap = dbs.iter().map(|d| d.cap).min().expect("three");
    let db = dbs[0];
    let gone = (db.rows.len() as i64 + 2 - cap).max(0) as usize;
    let ids: Vec<u64> = db.rows.iter().take(gone).map(|r| r.0).collect();
    db.vars
        .iter()
        .filter(|(_, v)| ids.contains(&v.1))
        .map(|(n, _)| n.clone())
        .collect()
}

/// Whether an input's eviction can take away a variable that the other one is about to use:
/// a known finding (F14), because an input's steps are separate transactions.
fn evicts_used(w: &World, w1: &World, w2: &World, lines: &[&str]) -> bool {
    evictable(w, w1, w2).iter().any(|n| lines.iter().any(|l| l.contains(n.as_str())))
}

/// Several sessions that start and enter their lines at the same time. Each assigns variables of
/// its own, and may use those assigned before; where the history is full, none is used.
fn crowd_gen(s: &mut Src, thorough: bool) -> Meet {
    let all = names(s, 3, 8);
    let full = s.pct(40);
    let plan = Plan {
        sessions: 1,
        steps: 0,
        names: all[..1].to_vec(),
        lines: [10, 6, 4, 0, 3, 2, 1, 0],
        acts: [1, 0, 0, 0, 0],
        caps: &[100],
        digits: 6,
    };
    let mut h = Hist::new(&plan);
    let fresh = !full && s.pct(40);
    if !fresh {
        earlier(s, &mut h, 0, 5);
        let cap = if full { s.range(2, 7) } else { 100 };
        h.line(0, &format!("/histcap {}", cap));
        h.step(Step::Close { s: 0, key: 0 });
    }
    let n = s.range(2, if thorough { 6 } else { 5 }) as usize;
    let unset = unset_names(&all);
    let mut crowd = Vec::new();
    for i in 0..n {
        let own: Vec<String> = all[1..].iter().skip(i).step_by(n).cloned().collect();
        let mut w = if full { World::new(false) } else { h.w.clone() };
        w.open(0, &Settings::default());
        let mut steps = Vec::new();
        let m = s.range(1, if thorough { 12 } else { 7 });
        for _ in 0..m {
            let t = match s.weighted(&[4, 4, 2, 2, 2, 1]) {
                1 if !full && !own.is_empty() => assign_line(s, &w, 0, &own, 6),
                2 if !full && !own.is_empty() => use_line(s, &own),
                3 => setting_line(s),
                4 => fail_line(s, &w, 0, &unset, &unset),
                5 if !full && !own.is_empty() => var_cmd(s, &own, false),
                _ => {
                    let d = s.usize(4);
                    expr_line(s, &w, 0, d, 6)
                }
            };
            push(&mut steps, &mut w, 0, unmarked(t));
        }
        crowd.push(
            steps
                .into_iter()
                .filter_map(|x| match x {
                    Step::Line { text, .. } => Some(text),
                    _ => None,
                })
                .collect(),
        );
    }
    Meet {
        before: h.steps,
        own: Default::default(),
        line: [None, None],
        names: if full { Vec::new() } else { all },
        stops: Vec::new(),
        locks: false,
        crowd,
    }
}

/// Whether `rows` are the newest of some interleaving of `parts`, which come after `base`.
fn newest_of(rows: &[String], base: &[String], parts: &[Vec<String>]) -> bool {
    let mut states: std::collections::BTreeSet<Vec<usize>> = Default::default();
    // What is left of each part, and of the base.
    let mut full: Vec<usize> = parts.iter().map(|p| p.len()).collect();
    full.push(base.len());
    states.insert(full);
    for r in rows.iter().rev() {
        let mut next: std::collections::BTreeSet<Vec<usize>> = Default::default();
        for st in &states {
            for i in 0..st.len() {
                if st[i] == 0 {
                    continue;
                }
                let from_base = i == parts.len();
                if from_base && st[..i].iter().any(|&k| k > 0) {
                    continue;
                }
                let x = if from_base { &base[st[i] - 1] } else { &parts[i][st[i] - 1] };
                if x == r {
                    let mut st = st.clone();
                    st[i] -= 1;
                    next.insert(st);
                }
            }
        }
        states = next;
    }
    !states.is_empty()
}

fn crowd_run(c: &Meet, root: &Path, cwd: &Path, base: &World, obs: &mut Obs) -> Verdict {
    let n = c.crowd.len();
    let gate = std::sync::Barrier::new(n);
    let one_of = |i: usize| -> Result<World, Verdict> {
        gate.wait();
        let mut w = base.clone();
        let mut ses = start(&Opts::new(&[]).db(root), cwd)?;
        w.open(0, &Settings::default());
        for t in &c.crowd[i] {
            let want = w.submit(0, t);
            let got = ask(&mut ses, t)?;
            judge(t, &want, &got)?;
        }
        finish(&mut ses)?;
        Ok(w)
    };
    let results: Vec<Result<World, Verdict>> = std::thread::scope(|sc| {
        let hs: Vec<_> = (0..n)
            .map(|i| {
                let one_of = &one_of;
                sc.spawn(move || one_of(i))
            })
            .collect();
        hs.into_iter()
            .map(|h| h.join().unwrap_or_else(|_| Err(Verdict::Infra("a thread panicked".into()))))
            .collect()
    });
    let at = |m: String| Verdict::Fail(format!("{} sessions at the same time: {}", n, m));
    let mut worlds = Vec::new();
    for r in results {
        match r {
            Ok(w) => worlds.push(w),
            Err(Verdict::Fail(m)) => return at(m),
            Err(v) => return v,
        }
    }
    let busy = c.crowd.iter().filter(|l| !l.is_empty()).count();
    obs.nontrivial |= busy >= 2;
    obs.class("several sessions run freely");
    obs.class_if(c.before.is_empty(), "several sessions on a new directory");
    obs.count("inputs at the same time", c.crowd.iter().map(|l| l.len() as u64).sum());
    let db = base.db.as_ref().expect("db");
    let (seen, _) = match observe(root, cwd, &c.names, &[]) {
        Ok(x) => x,
        Err(Verdict::Fail(m)) => return at(m),
        Err(v) => return v,
    };
    let total = db.rows.len() + c.crowd.iter().map(|l| l.len()).sum::<usize>();
    let remain = total.min(db.cap as usize);
    obs.class_if(remain < total, "several sessions on a full history");
    if seen.rows.len() != remain || !newest_of(&seen.rows, &db.inputs(), &c.crowd) {
        return at(format!(
            "entering {:?} left the stored inputs {:?} ({} expected)",
            c.crowd, seen.rows, remain
        ));
    }
    if seen.cap != db.cap.to_string() {
        return at(format!("afterwards the capacity is {:?}", seen.cap));
    }
    for (k, got) in c.names.iter().zip(&seen.vars) {
        // As the only session that can have changed it left it.
        let was = db.vars.get(k).map(|v| format!("{:?}", v.0));
        let now = worlds
            .iter()
            .map(|w| w.db.as_ref().expect("db").vars.get(k))
            .find(|v| v.map(|v| format!("{:?}", v.0)) != was)
            .unwrap_or_else(|| db.vars.get(k));
        if !var_answer(now.map(|v| &v.0)).map_or(true, |w| w.ok(got)) {
            return at(format!("entering {:?}: afterwards {} is answered {:?}", c.crowd, k, clip(got)));
        }
    }
    Verdict::Pass
}

fn c26_gen(s: &mut Src, thorough: bool) -> Meet {
    if s.pct(25) {
        return crowd_gen(s, thorough);
    }
    let plan = Plan {
        sessions: 2,
        steps: 0,
        names: names(s, 1, 3),
        lines: [10, 6, 4, 2, 3, 2, 1, 0],
        acts: [1, 0, 0, 0, 0],
        caps: &[4, 5, 8, 100],
        digits: 6,
    };
    let mut h = Hist::new(&plan);
    earlier(s, &mut h, 0, 5);
    if s.pct(50) {
        let cap = s.range(4, 7);
        h.line(0, &format!("/histcap {}", cap));
    } else {
        h.line(0, "/histcap 100");
    }
    h.step(Step::Close { s: 0, key: 0 });
    let before = std::mem::take(&mut h.steps);
    let mut own = [Vec::new(), Vec::new()];
    let mut line = [None, None];
    h.open(0, Settings::default());
    h.open(1, Settings::default());
    for i in 0..2 {
        let n = s.size(0, 2);
        for _ in 0..n {
            let t = unmarked(h.text(s, i));
            if h.line(i, &t) {
                own[i].push(t);
            }
        }
    }
    // Stored variables that the second session doesn't know yet.
    let news: Vec<String> = {
        let db = h.w.db.as_ref().expect("db");
        db.vars.keys().filter(|k| !h.w.get(1).mem.contains_key(*k)).cloned().collect()
    };
    let clash = !news.is_empty() && s.pct(40);
    // Both orders must be decided.
    for _ in 0..50 {
        let (a, b) = if clash {
            // One of them is changed as it is read.
            let n = [s.pick(&news).clone()];
            let a = match s.usize(6) {
                0 => var_cmd(s, &n, true),
                1 => use_line(s, &n),
                _ => assign_line(s, &h.w, 0, &n, 6),
            };
            (unmarked(a), unmarked(use_line(s, &n)))
        } else {
            (unmarked(h.text(s, 0)), unmarked(h.text(s, 1)))
        };
        let (mut w1, mut w2) = (h.w.clone(), h.w.clone());
        let l = |s: usize, t: &String| Step::Line { s, text: t.clone() };
        if w1.try_step(&l(0, &a)).is_some()
            && w1.try_step(&l(1, &b)).is_some()
            && w2.try_step(&l(1, &b)).is_some()
            && w2.try_step(&l(0, &a)).is_some()
            && !evicts_used(&h.w, &w1, &w2, &[&a, &b])
        {
            line = [Some(a), Some(b)];
            break;
        }
    }
    // Sometimes the second session only starts at that moment, or both do.
    let mut before = before;
    if own[1].is_empty() && s.pct(25) {
        line[1] = None;
        if own[0].is_empty() && s.pct(50) {
            line[0] = None;
            if s.pct(60) {
                // On a new directory.
                before.clear();
            }
        }
    }
    let n = if thorough { 30 } else { 6 };
    Meet {
        before,
        own,
        line,
        names: plan.names.clone(),
        stops: (0..n)
            .map(|_| {
                let a = s.below(1000);
                (a, if s.pct(50) { Some(s.below(1000)) } else { None })
            })
            .collect(),
        locks: s.pct(35),
        crowd: Vec::new(),
    }
}

const ALL_OPS: u64 = CHANGES | OP_LOCK | OP_READ;

struct Actor {
    ses: Session,
    shim: Shim,
    start: usize,
    begun: bool,
}

impl Actor {
    fn begin(&mut self, line: &Option<String>) {
        if let Some(l) = line {
            self.ses.write(l.as_bytes());
            self.start = self.ses.submit_begin();
        }
        self.begun = true;
    }
    /// Until it has answered, is stopped, or sleeps in vain for `ms`.
    fn go(&mut self, ms: u64) -> Result<(), Stop> {
        let shim = &self.shim;
        match self.ses.wait_until(ms, |s| s.answered() || shim.stopped()) {
            Ok(()) | Err(Stop::Stuck) => Ok(()),
            Err(e) => Err(e),
        }
    }
    fn cont(&mut self) {
        self.shim.arm(0, Act::Stop, 0, 0, 0);
        self.ses.signal(libc::SIGCONT);
    }
    /// Never stops again; goes on if it is stopped.
    fn free(&mut self) {
        self.shim.disarm();
        if self.shim.stopped() {
            self.cont();
        }
    }
    fn end(&mut self, line: &Option<String>) -> Result<Option<String>, Verdict> {
        let pid = self.ses.pid() as libc::pid_t;
        let r = self.ses.wait_prompt_with(|s| {
            if s.proc_state().0 == 'T' {
                // Stopped just when it was told never to stop again.
                unsafe { libc::kill(pid, libc::SIGCONT) };
            }
        });
        match r {
            Ok(()) => {}
            Err(e) => return Err(stop_verdict(&self.ses, e, &format!("input {:?}", line))),
        }
        Ok(line.as_ref().map(|l| {
            let n = l.len();
            self.ses.submit_end(self.start, n).join("\n")
        }))
    }
}

fn actors(
    c: &Meet,
    root: &Path,
    cwd: &Path,
    base: &World,
) -> Result<(Vec<Actor>, World), Verdict> {
    let mut v = Vec::new();
    let mut w = base.clone();
    for i in 0..2 {
        let shim = Shim::new(cwd, &format!("ctl{}", i)).map_err(infra)?;
        let o = shim.opts(Opts::new(&[]).db(root), root);
        if c.line[i].is_none() {
            // Starts later.
            continue;
        }
        let mut ses = Session::spawn(&o, cwd).map_err(infra)?;
        if let Err(e) = ses.wait_prompt() {
            return Err(stop_verdict(&ses, e, "start"));
        }
        w.open(i, &Settings::default());
        v.push(Actor {
            ses,
            shim,
            start: 0,
            begun: false,
        });
    }
    for (i, a) in v.iter_mut().enumerate() {
        for t in &c.own[i] {
            let want = w.submit(i, t);
            let got = ask(&mut a.ses, t)?;
            judge(t, &want, &got)?;
        }
    }
    Ok((v, w))
}

/// A session that starts, to be stopped at call `n`.
fn starter(name: &str, ops: u64, n: Option<u64>, root: &Path, cwd: &Path) -> Result<Actor, Verdict> {
    let shim = Shim::new(cwd, name).map_err(infra)?;
    let o = shim.opts(Opts::new(&[]).db(root), root);
    match n {
        Some(n) => shim.arm(ops, Act::Stop, n, 0, 0),
        None => shim.count_from_now(ops),
    }
    // wait_prompt is called by end().
    let ses = Session::spawn(&o, cwd).map_err(infra)?;
    Ok(Actor {
        ses,
        shim,
        start: 0,
        begun: true,
    })
}

fn c26_run(c: &Meet, obs: &mut Obs) -> Verdict {
    let dir = Scratch::new();
    let root = dir.path().join("data");
    if let Err(e) = std::fs::create_dir(&root) {
        return Verdict::Infra(e.to_string());
    }
    let base = get!(play_quietly(&c.before, &root, dir.path()));
    if !c.crowd.is_empty() {
        return crowd_run(c, &root, dir.path(), &base, obs);
    }
    let (la, lb) = (&c.line[0], &c.line[1]);
    if la.is_none() && lb.is_some() {
        return Verdict::Pass;
    }
    let ops = if c.locks { OP_LOCK } else { ALL_OPS };
    // How many calls each makes alone.
    let mut calls = [0, 0];
    {
        let to = get!(copied(&root));
        let (mut v, _) = get!(actors(c, to.path(), dir.path(), &base));
        for (i, a) in v.iter_mut().enumerate() {
            a.shim.count_from_now(ops);
            if let Some(l) = &c.line[i] {
                get!(ask(&mut a.ses, l));
            }
            calls[i] = a.shim.count();
        }
        if lb.is_none() {
            let mut a = get!(starter("ctl2", ops, None, to.path(), dir.path()));
            get!(a.end(&None));
            calls[1] = a.shim.count();
            if la.is_none() {
                calls[0] = calls[1];
            }
            v.push(a);
        }
        for a in v.iter_mut() {
            tri!(finish(&mut a.ses));
        }
    }
    for (ka, kb) in &c.stops {
        let na = 1 + ka * calls[0] / 1000;
        let nb = kb.map(|k| 1 + k * calls[1] / 1000);
        let at = |m: String| {
            Verdict::Fail(format!(
                "first stopped at call {} of {}, second {}: {}",
                na,
                calls[0],
                match nb {
                    None => "not".to_string(),
                    Some(n) => format!("at call {} of {}", n, calls[1]),
                },
                m
            ))
        };
        macro_rules! ok {
            ($e:expr) => {
                match $e {
                    Ok(x) => x,
                    Err(Verdict::Fail(m)) => return at(m),
                    Err(v) => return v,
                }
            };
        }
        let to = get!(copied(&root));
        let (mut v, w) = get!(actors(c, to.path(), dir.path(), &base));
        macro_rules! run {
            ($a:expr, $ms:expr) => {
                match $a.go($ms) {
                    Ok(()) => {}
                    Err(e) => return match stop_verdict(&$a.ses, e, "simultaneous inputs") {
                        Verdict::Fail(m) => at(m),
                        v => v,
                    },
                }
            };
        }
        if la.is_none() {
            v.push(get!(starter("ctl0", ops, Some(na), to.path(), dir.path())));
            obs.class(if c.before.is_empty() { "both start, new directory" } else { "both start" });
        } else {
            v[0].shim.arm(ops, Act::Stop, na, 0, 0);
            v[0].begin(la);
        }
        run!(v[0], 200);
        let stopped = v[0].shim.stopped();
        if stopped {
            obs.count("stops", 1);
            obs.class(match v[0].shim.kind() {
                OP_LOCK => "stopped at a lock",
                OP_READ => "stopped at a read",
                OP_WRITE => "stopped at a write",
                OP_SYNC => "stopped at a sync",
                OP_OPEN => "stopped at an open",
                _ => "stopped at another call",
            });
        }
        if lb.is_none() {
            // The second session starts now.
            v.push(get!(starter("ctl1", ops, nb, to.path(), dir.path())));
            obs.class_if(la.is_some(), "the other session starts");
        } else {
            if let Some(n) = nb {
                v[1].shim.arm(ops, Act::Stop, n, 0, 0);
            }
            v[1].begin(lb);
        }
        run!(v[1], 30);
        let waiting = !v[1].ses.answered() && !v[1].shim.stopped();
        obs.class_if(waiting, "the other one waits");
        obs.class_if(v[1].shim.stopped(), "both stopped");
        obs.class_if(v[1].ses.answered() && stopped, "the other one finishes first");
        obs.nontrivial |= stopped;
        if stopped {
            v[0].cont();
        }
        run!(v[0], 30);
        for a in v.iter_mut() {
            a.free();
        }
        let got_a = ok!(v[0].end(la));
        let got_b = ok!(v[1].end(lb));
        // Either order.
        let (mut ab, mut ba) = (w.clone(), w.clone());
        for (i, l) in [la, lb].iter().enumerate() {
            if l.is_none() {
                ab.open(i, &Settings::default());
                ba.open(i, &Settings::default());
            }
        }
        let sub = |w: &mut World, i: usize, t: &Option<String>| t.as_ref().map(|t| w.submit(i, t));
        // What variables are when an input worked on what it had read before the other one.
        let (mut only_a, mut only_b) = (ab.clone(), ab.clone());
        sub(&mut only_a, 0, la);
        sub(&mut only_b, 1, lb);
        let base = ab.clone();
        let base_rows = ab.db.as_ref().expect("db").inputs();
        let base_cap = ab.db.as_ref().expect("db").cap;
        let a1 = sub(&mut ab, 0, la);
        let b1 = sub(&mut ab, 1, lb);
        let b2 = sub(&mut ba, 1, lb);
        let a2 = sub(&mut ba, 0, la);
        // Which of the two inputs used each variable last, where that doesn't depend on the order.
        let users = match (la, lb) {
            (Some(x), Some(y)) if x != y => last_users(&c.names, &ab, &ba),
            _ => Vec::new(),
        };
        let fits = |got: &Option<String>, x: &Option<Want>, y: &Option<Want>| match (got, x, y) {
            (Some(g), Some(x), Some(y)) => x.ok(g) || y.ok(g),
            _ => true,
        };
        for (l, got, x, y) in [(la, &got_a, &a1, &a2), (lb, &got_b, &b1, &b2)] {
            if !fits(got, x, y) {
                return at(format!(
                    "input {:?} was answered {:?}; expected {}",
                    l,
                    got,
                    x.as_ref().map_or(String::new(), |w| clip(&w.show()))
                ));
            }
        }
        // Both go on.
        for a in v.iter_mut() {
            let got = ok!(ask(&mut a.ses, "2+5"));
            if got != "7" {
                return at(format!("then 2+5 was answered {:?}", got));
            }
            ab.submit(0, "2+5");
            ba.submit(0, "2+5");
        }
        for a in v.iter_mut() {
            ok!(finish(&mut a.ses));
        }
        let after = if users.iter().any(|u| u.is_some()) { Some(ok!(copied(to.path()))) } else { None };
        let (seen, _) = ok!(observe(to.path(), dir.path(), &c.names, &[]));
        let (da, db) = (ab.db.as_ref().expect("db"), ba.db.as_ref().expect("db"));
        // Rows are added in either order; when an input changes the capacity, how many remain
        // depends on which capacity each of the two evictions found.
        let added = |order: [&Option<String>; 2]| {
            let mut r = base_rows.clone();
            r.extend(order.iter().filter_map(|l| l.as_ref()).cloned());
            r.extend(["2+5".to_string(), "2+5".to_string()]);
            r
        };
        let hi = da.rows.len().max(db.rows.len());
        let mut lo = da.rows.len().min(db.rows.len());
        if da.cap != base_cap || db.cap != base_cap {
            lo = lo.min(base_cap.min(da.cap).min(db.cap) as usize);
        }
        let rows_ok = (lo..=hi).contains(&seen.rows.len())
            && [added([la, lb]), added([lb, la])].iter().any(|r| r.ends_with(&seen.rows));
        if !rows_ok {
            return at(format!(
                "afterwards the stored inputs are {:?}; expected {:?} or {:?}",
                seen.rows,
                da.inputs(),
                db.inputs()
            ));
        }
        let caps = [da.cap.to_string(), db.cap.to_string()];
        if !caps.contains(&seen.cap) {
            return at(format!("afterwards the capacity is {:?}; expected {:?}", seen.cap, caps));
        }
        // As with the rows.
        let may_go = if da.cap != base_cap || db.cap != base_cap {
            evictable(&base, &ab, &ba)
        } else {
            Vec::new()
        };
        for (n, got) in c.names.iter().zip(&seen.vars) {
            if may_go.contains(n) && var_answer(None).map_or(false, |w| w.ok(got)) {
                continue;
            }
            // An input that worked on what it had read earlier may have the last word only about
            // what it changes, or assigns.
            let assigns = |l: &Option<String>| l.as_ref().map_or(false, |t| t.contains('='));
            let is = |w: &World| w.db.as_ref().expect("db").vars.get(n).map(|v| format!("{:?}", v.0));
            let was = is(&base);
            let ok = [&ab, &ba, &only_a, &only_b].iter().enumerate().any(|(i, w)| {
                let d = w.db.as_ref().expect("db");
                (i < 2 || is(w) != was || assigns(&c.line[i - 2]))
                    && var_answer(d.vars.get(n).map(|v| &v.0)).map_or(true, |w| w.ok(got))
            });
            if !ok {
                return at(format!("afterwards {} is answered {:?}", n, clip(got)));
            }
        }
        // When the older one of the two inputs is evicted, what it used last goes with it.
        let newest: Vec<&str> = seen.rows.iter().rev().take(4).map(|r| r.as_str()).collect();
        let second = match (la, lb, newest.len()) {
            (Some(x), Some(y), 4) if newest[2] == y && newest[3] == x => Some(1),
            (Some(x), Some(y), 4) if newest[2] == x && newest[3] == y => Some(0),
            _ => None,
        };
        if let (Some(copy), Some(second)) = (after, second) {
            let mut ses = ok!(start(&Opts::new(&[]).db(copy.path()), dir.path()));
            for l in ["/histcap 4", "/histcap 1000"] {
                let got = ok!(ask(&mut ses, l));
                if got != "Done" {
                    return at(format!("then {} was answered {:?}", l, got));
                }
            }
            for (n, u) in c.names.iter().zip(&users) {
                if let Some(u) = u {
                    let got = ok!(ask(&mut ses, n));
                    if is_failure(&got) == (*u == second) {
                        return at(format!(
                            "{:?} used {} last, {:?} was entered last; when all before the latter is evicted, {} is answered {:?}",
                            c.line[*u], n, c.line[second], n, clip(&got)
                        ));
                    }
                    obs.count("variables evicted with their last use", (*u != second) as u64);
                    obs.count("variables kept with their last use", (*u == second) as u64);
                }
            }
            ok!(finish(&mut ses));
        }
    }
    Verdict::Pass
}

/// For each variable, which of the two newest inputs used it last (the first session's is 0), if
/// it is the same one, whichever came first.
fn last_users(names: &[String], ab: &World, ba: &World) -> Vec<Option<usize>> {
    let (a, b) = (ab.db.as_ref().expect("db"), ba.db.as_ref().expect("db"));
    let (n, m) = (a.rows.len(), b.rows.len());
    if n < 2 || m < 2 {
        return Vec::new();
    }
    names
        .iter()
        .map(|x| {
            let (i, j) = (a.vars.get(x)?.1, b.vars.get(x)?.1);
            if i == a.rows[n - 2].0 && j == b.rows[m - 1].0 {
                Some(0)
            } else if i == a.rows[n - 1].0 && j == b.rows[m - 2].0 {
                Some(1)
            } else {
                None
            }
        })
        .collect()
}

fn c26() -> Prop {
    prop(
        "C26",
        "exploration",
        "Two sessions on a stored history of up to 6 inputs (capacity 4 to 8, or 100), each with up to two inputs of its own; then both enter an input (or one starts, or both do, on a new directory too) at the same moment under 6 (thorough 30) schedules: the first is stopped before a random one of its system calls on the data directory (locks and reads included; in a third of the cases only locks), the second runs until it answers, waits, or, in half of the schedules, is stopped at a random call too, then the first goes on, then the second. Both must be answered as in one of the two orders, and go on; the stored history must be one of the two orders; when the older of the two inputs is then evicted, the variables it used last must go with it, and those of the newer one stay. In a quarter of the cases 2 to 5 (thorough 6) sessions start and enter up to 7 (12) inputs each, all freely running at the same time, each with variables of its own (none where the history is full): each must be answered as if alone, and the stored history must be (the newest of) an interleaving of their inputs, with the variables as each left them. Non-trivial: the first session was stopped in the middle, or at least two of the freely running ones entered something.",
        (360, 3400),
        c26_gen,
        c26_run,
    )
}

pub fn all() -> Vec<Prop> {
    vec![c24(), c25(), c26()]
}
