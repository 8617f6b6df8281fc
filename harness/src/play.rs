//! Playing inputs against bcalc next to the reference model.

use crate::model::*;
use crate::proc::*;
use crate::runner::*;
use crate::spec::*;
use std::path::Path;

/// Turns the end of a session into a verdict.
pub fn stop_verdict(s: &Session, stop: Stop, what: &str) -> Verdict {
    if s.cursor_timeout() {
        return Verdict::Infra("bcalc got no cursor position in time".into());
    }
    match stop {
        Stop::Infra(m) => Verdict::Infra(m),
        Stop::Stuck => Verdict::Fail(format!(
            "{}: bcalc waits and does not answer; screen:\n{}",
            what,
            s.term.dump()
        )),
        Stop::Ended(e) => Verdict::Fail(format!(
            "{}: bcalc ended with {}; standard error: {:?}; screen:\n{}",
            what,
            e,
            tail(&s.stderr_str(), 600),
            s.term.dump()
        )),
    }
}

pub fn tail(s: &str, n: usize) -> String {
    let v: Vec<char> = s.chars().collect();
    v[v.len().saturating_sub(n)..].iter().collect()
}

pub fn clip(s: &str) -> String {
    if s.chars().count() > 300 {
        let h: String = s.chars().take(300).collect();
        format!("{}... ({} characters)", h, s.chars().count())
    } else {
        s.to_string()
    }
}

macro_rules! tri {
    ($e:expr) => {
        if let Err(v) = $e {
            return v;
        }
    };
}
pub(crate) use tri;

macro_rules! get {
    ($e:expr) => {
        match $e {
            Ok(x) => x,
            Err(v) => return v,
        }
    };
}
pub(crate) use get;

pub fn infra(e: Infra) -> Verdict {
    Verdict::Infra(e.0)
}

/// Starts bcalc and waits for the prompt.
pub fn start(o: &Opts, cwd: &Path) -> Result<Session, Verdict> {
    let mut s = Session::spawn(o, cwd).map_err(infra)?;
    match s.wait_prompt() {
        Ok(()) => Ok(s),
        Err(e) => Err(stop_verdict(&s, e, &format!("starting with {:?}", o.args))),
    }
}

pub fn ask(s: &mut Session, text: &str) -> Result<String, Verdict> {
    match s.line(text) {
        Ok(a) => Ok(a),
        Err(e) => Err(stop_verdict(s, e, &format!("input {:?}", clip(text)))),
    }
}

/// Enters `text` and compares the answer with the model's.
pub fn enter(
    s: &mut Session,
    m: &mut Sess,
    db: Option<&mut Db>,
    text: &str,
) -> Result<String, Verdict> {
    let want = m.submit(text, db);
    let got = ask(s, text)?;
    judge(text, &want, &got)?;
    Ok(got)
}

pub fn judge(text: &str, want: &Want, got: &str) -> Result<(), Verdict> {
    if want.ok(got) {
        Ok(())
    } else {
        Err(Verdict::Fail(format!(
            "input {:?} was answered {:?}; expected {}",
            clip(text),
            clip(got),
            clip(&want.show())
        )))
    }
}

pub fn finish(s: &mut Session) -> Result<(), Verdict> {
    match s.quit() {
        Ok(End::Exit(0)) => Ok(()),
        Ok(e) => Err(Verdict::Fail(format!(
            "bcalc ended with {} on Control+D; standard error: {:?}",
            e,
            tail(&s.stderr_str(), 600)
        ))),
        Err(e) => Err(stop_verdict(s, e, "Control+D")),
    }
}

/// One-shot answer: Ok(value) or Err(error message).
pub fn one(text: &str, flags: &[String], cwd: &Path) -> Result<Result<String, String>, Verdict> {
    let mut args: Vec<String> = flags.to_vec();
    args.push(format!("--input={}", text));
    let o = one_shot(&args, &[], cwd).map_err(infra)?;
    one_result(text, &o)
}

pub fn one_result(text: &str, o: &OneShot) -> Result<Result<String, String>, Verdict> {
    let fail = |m: &str| {
        Err(Verdict::Fail(format!(
            "--input={:?}: {}; standard output {:?}, standard error {:?}, {}",
            clip(text),
            m,
            clip(&o.out),
            clip(&o.err),
            o.end
        )))
    };
    if o.end != End::Exit(0) {
        return fail("abnormal end");
    }
    match (o.out.strip_suffix('\n'), o.err.is_empty()) {
        (Some(v), true) => Ok(Ok(v.to_string())),
        (None, false) if o.out.is_empty() && o.err.starts_with("Error: ") => {
            Ok(Err(o.err.trim_end().to_string()))
        }
        _ => fail("neither a value on standard output nor an error on standard error"),
    }
}

pub fn either(r: Result<String, String>) -> String {
    match r {
        Ok(v) => v,
        Err(e) => e,
    }
}
