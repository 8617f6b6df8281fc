//! Drives a property: generates cases, runs them in parallel, shrinks the first failure, writes
//! the replay file and the evidence.

use crate::choice::{hash_str, shrink, Rng, Src};
use serde::de::DeserializeOwned;
use serde::Serialize;
use serde_json::{json, Value};
use std::collections::{BTreeMap, HashSet};
use std::path::{Path, PathBuf};
use std::sync::atomic::{AtomicUsize, Ordering};
use std::sync::Mutex;
use std::time::{Duration, Instant};

#[derive(Debug, Clone)]
pub enum Verdict {
    Pass,
    Fail(String),
    /// The harness could not decide (machine trouble).
    Infra(String),
}

/// What a case turned out to be, for the statistics.
#[derive(Default)]
pub struct Obs {
    pub nontrivial: bool,
    pub classes: Vec<String>,
    /// Inputs entered, executions made: summed over all cases.
    pub counts: BTreeMap<&'static str, u64>,
}

impl Obs {
    pub fn class(&mut self, c: &str) {
        if !self.classes.iter().any(|x| x == c) {
            self.classes.push(c.to_string());
        }
    }
    pub fn class_if(&mut self, on: bool, c: &str) {
        if on {
            self.class(c);
        }
    }
    pub fn count(&mut self, c: &'static str, n: u64) {
        *self.counts.entry(c).or_default() += n;
    }
}

type GenFn = Box<dyn Fn(&mut Src, bool) -> Value + Send + Sync>;
type RunFn = Box<dyn Fn(&Value, &mut Obs) -> Verdict + Send + Sync>;

pub struct Prop {
    pub id: &'static str,
    pub level: &'static str,
    pub rule: &'static str,
    pub quick: usize,
    pub thorough: usize,
    pub threads: usize,
    pub gen: GenFn,
    pub run: RunFn,
    /// Cases enumerated rather than drawn, run first.
    pub fixed: Vec<Value>,
    /// Known findings: name and case; still failing is expected.
    pub known: Vec<(String, Value)>,
}

pub fn prop<C, G, R>(
    id: &'static str,
    level: &'static str,
    rule: &'static str,
    (quick, thorough): (usize, usize),
    gen: G,
    run: R,
) -> Prop
where
    C: Serialize + DeserializeOwned,
    G: Fn(&mut Src, bool) -> C + Send + Sync + 'static,
    R: Fn(&C, &mut Obs) -> Verdict + Send + Sync + 'static,
{
    Prop {
        id,
        level,
        rule,
        quick,
        thorough,
        threads: 8,
        gen: Box::new(move |s, t| serde_json::to_value(gen(s, t)).expect("case to JSON")),
        run: Box::new(move |v, o| match serde_json::from_value::<C>(v.clone()) {
            Ok(c) => run(&c, o),
            Err(e) => Verdict::Infra(format!("bad case: {}", e)),
        }),
        fixed: Vec::new(),
        known: Vec::new(),
    }
}

/// Runs a case; machine trouble is retried.
pub fn run_case(p: &Prop, case: &Value, obs: &mut Obs) -> Verdict {
    let mut last = Verdict::Pass;
    for attempt in 0..4 {
        let mut o = Obs::default();
        last = (p.run)(case, &mut o);
        if let Verdict::Infra(_) = last {
            std::thread::sleep(Duration::from_millis(200 << attempt));
            continue;
        }
        *obs = o;
        return last;
    }
    last
}

/// A failure counts when it happens again.
fn confirmed(p: &Prop, case: &Value) -> Option<String> {
    for _ in 0..4 {
        let mut o = Obs::default();
        if let Verdict::Fail(m) = run_case(p, case, &mut o) {
            return Some(m);
        }
    }
    None
}

fn case_seed(seed: u64, id: &str, i: usize) -> u64 {
    let mut r = Rng::new(seed ^ hash_str(id));
    let a = r.next();
    let mut r = Rng::new(a.wrapping_add((i as u64).wrapping_mul(0x9E37_79B9_97F4_A7C1)));
    r.next()
}

struct Failure {
    index: usize,
    choices: Vec<u64>,
    case: Value,
    message: String,
}

#[derive(Default)]
struct Totals {
    evaluations: usize,
    nontrivial: HashSet<u64>,
    classes: BTreeMap<String, usize>,
    counts: BTreeMap<&'static str, u64>,
    samples: Vec<Value>,
    infra: Vec<String>,
    flaky: Vec<String>,
}

pub struct Ctx {
    pub verif: PathBuf,
    pub tier: String,
    pub seed: u64,
}

fn shorten(v: &Value) -> Value {
    match v {
        Value::String(s) if s.len() > 400 => {
            let head: String = s.chars().take(300).collect();
            Value::String(format!("{}... ({} characters)", head, s.len()))
        }
        Value::Array(a) if a.len() > 40 => {
            let mut b: Vec<Value> = a.iter().take(40).map(shorten).collect();
            b.push(Value::String(format!("... ({} items)", a.len())));
            Value::Array(b)
        }
        Value::Array(a) => Value::Array(a.iter().map(shorten).collect()),
        Value::Object(o) => {
            Value::Object(o.iter().map(|(k, v)| (k.clone(), shorten(v))).collect())
        }
        v => v.clone(),
    }
}

pub fn check(p: &Prop, ctx: &Ctx) -> i32 {
    let start = Instant::now();
    let thorough = ctx.tier == "thorough";
    let scale: f64 = std::env::var("PBT_SCALE")
        .ok()
        .and_then(|v| v.parse().ok())
        .unwrap_or(1.0);
    let n = ((if thorough { p.thorough } else { p.quick }) as f64 * scale) as usize;
    let fixed = p.fixed.len();
    let total = n + fixed;
    let next = AtomicUsize::new(0);
    let limit = AtomicUsize::new(total);
    let totals = Mutex::new(Totals::default());
    let failure: Mutex<Option<Failure>> = Mutex::new(None);

    std::thread::scope(|sc| {
        for _ in 0..p.threads {
            sc.spawn(|| loop {
                let i = next.fetch_add(1, Ordering::SeqCst);
                if i >= limit.load(Ordering::SeqCst) {
                    break;
                }
                let (case, choices) = if i < fixed {
                    (p.fixed[i].clone(), Vec::new())
                } else {
                    let mut src = Src::random(case_seed(ctx.seed, p.id, i - fixed));
                    let c = (p.gen)(&mut src, thorough);
                    (c, src.log)
                };
                let mut obs = Obs::default();
                let v = run_case(p, &case, &mut obs);
                {
                    let mut t = totals.lock().unwrap();
                    t.evaluations += 1;
                    if obs.nontrivial {
                        let h = hash_str(&case.to_string());
                        t.nontrivial.insert(h);
                    }
                    for c in &obs.classes {
                        *t.classes.entry(c.clone()).or_default() += 1;
                    }
                    for (c, k) in &obs.counts {
                        *t.counts.entry(c).or_default() += k;
                    }
                    // Samples spread over the run.
                    if obs.nontrivial
                        && (t.samples.len() < 2
                            || (t.samples.len() < 6 && i % (total / 6).max(1) == 0))
                    {
                        t.samples.push(shorten(&case));
                    }
                }
                match v {
                    Verdict::Pass => {}
                    Verdict::Infra(m) => totals.lock().unwrap().infra.push(m),
                    Verdict::Fail(m) => match confirmed(p, &case) {
                        None => totals.lock().unwrap().flaky.push(m),
                        Some(m2) => {
                            limit.fetch_min(i, Ordering::SeqCst);
                            let mut f = failure.lock().unwrap();
                            if f.as_ref().map_or(true, |f| f.index > i) {
                                *f = Some(Failure {
                                    index: i,
                                    choices,
                                    case,
                                    message: m2,
                                });
                            }
                            let _ = m;
                        }
                    },
                }
            });
        }
    });

    let mut status = 0;
    let mut violations = 0;
    for (name, case) in &p.known {
        let mut o = Obs::default();
        match run_case(p, case, &mut o) {
            Verdict::Fail(_) => println!("KNOWN-FINDING: property={} {}", p.id, name),
            Verdict::Pass => println!("note: known finding no longer fails: {}", name),
            Verdict::Infra(m) => println!("note: known finding not decided: {}: {}", name, m),
        }
    }
    if let Some(f) = failure.into_inner().unwrap() {
        violations = 1;
        status = 1;
        let (case, message) = reduce(p, f, thorough);
        let dir = ctx.verif.join("replays");
        let _ = std::fs::create_dir_all(&dir);
        let text = serde_json::to_string_pretty(&json!({
            "property": p.id,
            "message": message,
            "seed": ctx.seed,
            "case": case,
        }))
        .expect("JSON");
        let file = dir.join(format!("{}-{:016x}.json", p.id, hash_str(&case.to_string())));
        if let Err(e) = std::fs::write(&file, text) {
            println!("cannot write {}: {}", file.display(), e);
        }
        println!("{}", message);
        println!("VIOLATION property={} replay={}", p.id, file.display());
    }
    let t = totals.into_inner().unwrap();
    for m in t.flaky.iter().take(5) {
        println!("note: a failure that did not repeat: {}", m);
    }
    for m in t.infra.iter().take(5) {
        println!("note: case without a verdict: {}", m);
    }
    // A check that mostly could not look must not say that all is well.
    if status == 0 && t.infra.len() * 50 > t.evaluations {
        println!("{} of {} cases had no verdict", t.infra.len(), t.evaluations);
        status = 3;
    }
    let evidence = json!({
        "property": p.id,
        "tier": ctx.tier,
        "seed": ctx.seed,
        "level": p.level,
        "coverage": {
            "evaluations": t.evaluations,
            "distinct_nontrivial": t.nontrivial.len(),
            "rule": p.rule,
            "samples": t.samples,
            "classes": t.classes,
            "counts": t.counts,
            "without_verdict": t.infra.len(),
            "not_repeated": t.flaky.len(),
        },
        "wall_s": start.elapsed().as_secs_f64(),
        "violations": violations,
    });
    write_evidence(&ctx.verif, p.id, &evidence);
    println!(
        "{}: {} cases, {} distinct non-trivial, {:.1} s",
        p.id,
        t.evaluations,
        t.nontrivial.len(),
        start.elapsed().as_secs_f64()
    );
    status
}

fn write_evidence(verif: &Path, id: &str, v: &Value) {
    let dir = verif.join("evidence");
    let _ = std::fs::create_dir_all(&dir);
    let text = serde_json::to_string_pretty(v).expect("JSON");
    if let Err(e) = std::fs::write(dir.join(format!("{}.json", id)), text) {
        println!("cannot write evidence: {}", e);
    }
}

fn reduce(p: &Prop, f: Failure, thorough: bool) -> (Value, String) {
    if f.choices.is_empty() {
        return (f.case, f.message);
    }
    let deadline = Instant::now() + Duration::from_secs(90);
    let mut best = (f.case, f.message);
    shrink(f.choices, 400, |cand| {
        if Instant::now() > deadline {
            return None;
        }
        let mut src = Src::replay(cand.to_vec());
        let case = (p.gen)(&mut src, thorough);
        let mut o = Obs::default();
        match run_case(p, &case, &mut o) {
            Verdict::Fail(m) => {
                best = (case, m);
                Some(src.log)
            }
            _ => None,
        }
    });
    match confirmed(p, &best.0) {
        Some(m) => (best.0, m),
        None => best,
    }
}

pub fn replay(p: &Prop, file: &Path) -> i32 {
    let v: Value = match std::fs::read_to_string(file)
        .map_err(|e| e.to_string())
        .and_then(|s| serde_json::from_str(&s).map_err(|e| e.to_string()))
    {
        Ok(v) => v,
        Err(e) => {
            println!("cannot read {}: {}", file.display(), e);
            return 2;
        }
    };
    match confirmed(p, &v["case"]) {
        Some(m) => {
            println!("{}", m);
            println!("VIOLATION property={} replay={}", p.id, file.display());
            1
        }
        None => {
            println!("{}: the case passes", p.id);
            0
        }
    }
}
