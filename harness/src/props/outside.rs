//! C30-C33: the data directory, unusable data, typing ahead, the command line.

use super::common::*;
use super::front::snapshot;
use crate::choice::Src;
use crate::engine::*;
use crate::gen::*;
use crate::model::*;
use crate::play::*;
use crate::proc::*;
use crate::runner::*;
use crate::spec::*;
use serde::{Deserialize, Serialize};
use std::collections::BTreeMap;
use std::ffi::{OsStr, OsString};
use std::os::unix::ffi::OsStrExt;
use std::path::{Path, PathBuf};
use std::process::{Command, Stdio};

fn world(db: Db) -> World {
    let mut w = World::new(true);
    w.db = Some(db);
    w
}

fn diff(was: &BTreeMap<String, u64>, now: &BTreeMap<String, u64>) -> Vec<String> {
    now.iter()
        .filter(|(k, v)| was.get(*k) != Some(v))
        .map(|(k, _)| k.clone())
        .chain(was.keys().filter(|k| !now.contains_key(*k)).cloned())
        .collect()
}

fn io<T>(r: std::io::Result<T>) -> Result<T, Verdict> {
    r.map_err(|e| Verdict::Infra(e.to_string()))
}

/// Lines for a session whose variables these are; kept short.
fn story_lines(s: &mut Src, w: &mut World, names: &[String], lo: usize, hi: usize) -> Vec<String> {
    let n = s.size(lo, hi);
    let mut v = Vec::new();
    for _ in 0..n {
        let t = match s.weighted(&[5, 4, 2, 1, 1, 2, 1]) {
            0 => assign_line(s, w, 0, names, 6),
            1 => use_line(s, names),
            2 => expr_line(s, w, 0, 2, 4),
            3 => setting_line(s),
            5 => fail_line(s, w, 0, names, &["$unset".to_string()]),
            6 => var_cmd(s, names, true),
            _ => format!("/histcap {}", s.range(1, 9)),
        };
        let st = Step::Line { s: 0, text: t.clone() };
        if w.try_step(&st).is_some() {
            v.push(t);
        }
    }
    v
}

/// Plays lines in one session against the model of the store.
fn play_lines(o: &Opts, cwd: &Path, db: Option<&mut Db>, lines: &[String]) -> Result<(), Verdict> {
    let mut db = db;
    let mut m = Sess::open(&Settings::default(), db.as_deref());
    let mut ses = start(o, cwd)?;
    for l in lines {
        enter(&mut ses, &mut m, db.as_deref_mut(), l)?;
    }
    finish(&mut ses)
}

// ---------------------------------------------------------------- C30

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Places {
    /// Names of directories: each place is the first `n` of one of these.
    dirs: Vec<Vec<String>>,
    /// The working directory is in the first place's first directory.
    inside: bool,
    /// (place, how it is written, lines)
    sessions: Vec<(usize, usize, Vec<String>)>,
    names: Vec<String>,
}

fn dir_name(s: &mut Src) -> String {
    match s.weighted(&[4, 4, 2, 2]) {
        3 => {
            // Pieces that mean something elsewhere.
            let n = s.size(1, 3);
            let mut t = String::new();
            for _ in 0..n {
                t.push_str(s.pick(&[
                    "%20", "%41", "%2F", "%%", "%", "a", "b c", "$HOME", "${HOME}", "$USER", "~", "?", "#", "&", "+", "\\ ",
                    "\\x20", "'", ":", ";", "*", "[a]", "{a,b}", "%s", "!", "|", ">", "`", "\t", "\u{301}", "\u{7f}",
                ]));
            }
            t
        }
        0 => (*s.pick(&[
            "data", "a", ".local", "My Files", "file:", "file:x", "a?mode=ro", "x#y", "%41", "a:b", "~", "$HOME",
            "-r", "'", "\"", "\\", "bcalc.d", "BCALC", ":memory:", "*", "é", "日本", "\u{1f600}", " ", "a\nb", "...",
        ]))
        .to_string(),
        1 => {
            let n = s.size(1, 20);
            let t: String = (0..n)
                .map(|_| match (0x20 + s.below(0x5f) as u8) as char {
                    '/' => 'x',
                    c => c,
                })
                .collect();
            if t.chars().all(|c| c == '.') {
                "dots".into()
            } else {
                t
            }
        }
        _ => {
            let n = s.range(1, 60) as usize;
            let c = *s.pick(&['x', 'é', '.', 'Z', '0', ' ']);
            let mut t: String = std::iter::repeat(c).take(n).collect();
            t.push('d');
            t
        }
    }
}

fn c30_gen(s: &mut Src, _: bool) -> Places {
    let n = s.range(1, 3) as usize;
    let mut dirs: Vec<Vec<String>> = Vec::new();
    for _ in 0..n {
        let d = match dirs.last() {
            // Next to another, within it, or one that differs in case or by an ending.
            Some(p) if s.pct(60) => {
                let mut d = p.clone();
                match s.usize(4) {
                    0 => d.push(dir_name(s)),
                    1 => {
                        let l = d.len() - 1;
                        d[l] = d[l].to_uppercase();
                    }
                    2 => {
                        let l = d.len() - 1;
                        d[l].push(*s.pick(&['1', ' ', '.', 'é']));
                    }
                    _ => {
                        let l = d.len() - 1;
                        d[l] = dir_name(s);
                    }
                }
                d
            }
            _ => (0..s.size(1, 3)).map(|_| dir_name(s)).collect(),
        };
        if !dirs.contains(&d) {
            dirs.push(d);
        }
    }
    let names = names(s, 1, 3);
    let mut ws: Vec<World> = dirs.iter().map(|_| World::new(true)).collect();
    let k = s.size(2, 6);
    let mut sessions = Vec::new();
    for _ in 0..k {
        let i = s.usize(dirs.len());
        ws[i].open(0, &Settings::default());
        let lines = story_lines(s, &mut ws[i], &names, 1, 5);
        sessions.push((i, s.usize(10), lines));
    }
    Places {
        dirs,
        inside: s.pct(40),
        sessions,
        names,
    }
}

/// The paths written to (the preloaded library notes them) that are not in `inner`, nor devices.
fn written_outside(log: &Path, cwd: &Path, inner: &Path) -> Vec<String> {
    let text = std::fs::read(log).unwrap_or_default();
    let mut v = Vec::new();
    for l in text.split(|b| *b == b'\n') {
        let Some(name) = l.strip_prefix(b"W ") else { continue };
        let name: Vec<u8> = name.iter().map(|b| if *b == 1 { b'\n' } else { *b }).collect();
        let p = cwd.join(Path::new(OsStr::from_bytes(&name)));
        let (Some(up), Some(last)) = (p.parent(), p.file_name()) else { continue };
        let Ok(up) = up.canonicalize() else { continue };
        let p = up.join(last);
        // SQLite may use temporary files.
        let temporary = last.as_bytes().starts_with(b"etilqs_");
        if !p.starts_with(inner) && !(p.starts_with("/dev") && !p.starts_with("/dev/shm")) && !p.starts_with("/proc") && !temporary {
            v.push(p.display().to_string());
        }
    }
    v.dedup();
    v
}

fn c30_run(c: &Places, obs: &mut Obs) -> Verdict {
    let dir = Scratch::new();
    let base = dir.path().join("base");
    let mut places: Vec<PathBuf> = Vec::new();
    for d in &c.dirs {
        let mut p = base.clone();
        p.extend(d.iter().map(|x| Path::new(x)));
        tri!(io(std::fs::create_dir_all(&p)).map(|_| ()));
        places.push(p);
    }
    let links = dir.path().join("links");
    tri!(io(std::fs::create_dir(&links)));
    for (i, p) in places.iter().enumerate() {
        tri!(io(std::os::unix::fs::symlink(p, links.join(format!("l{}", i)))));
        // The way up from here doesn't lead back to the links.
        let sub = p.join(".sub");
        tri!(io(std::fs::create_dir(&sub)));
        tri!(io(std::os::unix::fs::symlink(&sub, links.join(format!("s{}", i)))));
    }
    let home = dir.path().join("home");
    tri!(io(std::fs::create_dir(&home)));
    let cwd = if c.inside {
        base.join(&c.dirs[0][0])
    } else {
        base.clone()
    };
    let up = if c.inside { ".." } else { "." };
    let mut dbs: Vec<Db> = places.iter().map(|_| Db::new()).collect();
    let mut used = vec![0usize; places.len()];
    // What there is apart from the stores themselves.
    let others = |db: &[PathBuf]| -> BTreeMap<String, u64> {
        let inner: Vec<String> = db.iter().map(|p| format!("{}/", p.join("bcalc").display())).collect();
        snapshot(dir.path())
            .into_iter()
            .filter(|(k, _)| !inner.iter().any(|i| k.starts_with(i) || *k == i[..i.len() - 1]))
            .collect()
    };
    let was = others(&places);
    for (i, form, lines) in &c.sessions {
        let abs = places[*i].as_os_str();
        let rel: OsString = {
            let mut p = PathBuf::from(up);
            p.extend(c.dirs[*i].iter().map(|x| Path::new(x)));
            p.into_os_string()
        };
        let mut text = OsString::new();
        match form {
            0 | 1 => text.push(abs),
            2 => {
                text.push(abs);
                text.push("/");
            }
            3 => {
                text.push(abs);
                text.push("//.//");
            }
            4 => {
                text.push(&rel);
                obs.class("relative");
            }
            5 if !c.inside => {
                // Without anything before the first name.
                let mut p = PathBuf::new();
                p.extend(c.dirs[*i].iter().map(|x| Path::new(x)));
                text.push(p);
                obs.class("relative");
            }
            7 => {
                text.push(links.join(format!("s{}", i)));
                text.push("/..");
                obs.class("up from a symbolic link");
            }
            8 => {
                text.push(&rel);
                text.push("/.sub/..");
                obs.class("relative");
            }
            _ => {
                text.push(links.join(format!("l{}", i)));
                obs.class("symbolic link");
            }
        }
        let what = format!("data directory {:?}", text);
        let err = |v: Verdict| match v {
            Verdict::Fail(m) => Verdict::Fail(format!("{}: {}", what, m)),
            v => v,
        };
        let rest: Vec<PathBuf> = places.iter().enumerate().filter(|(j, _)| j != i).map(|(_, p)| p.clone()).collect();
        let before: Vec<_> = rest.iter().map(|p| snapshot(&p.join("bcalc"))).collect();
        let log = dir.path().join("written");
        let o = Opts::new(&[])
            .data(&text)
            .env("HOME", &home.display().to_string())
            .env("USER", "me")
            .env("LD_PRELOAD", &paths().shim.display().to_string())
            .env("PBT_NAMES", &log.display().to_string());
        tri!(play_lines(&o, &cwd, Some(&mut dbs[*i]), lines).map_err(err));
        let strays = written_outside(&log, &cwd, &places[*i].join("bcalc"));
        let _ = std::fs::remove_file(&log);
        if !strays.is_empty() {
            return Verdict::Fail(format!("{}: wrote outside of its directory bcalc: {:?}", what, strays));
        }
        used[*i] += 1;
        obs.count("sessions", 1);
        let now = others(&places);
        if now != was {
            return Verdict::Fail(format!(
                "{}: changed outside of its directory bcalc: {:?}",
                what,
                diff(&was, &now)
            ));
        }
        for (p, b) in rest.iter().zip(&before) {
            let now = snapshot(&p.join("bcalc"));
            if now != *b {
                return Verdict::Fail(format!("{}: changed files of {:?}: {:?}", what, p, diff(b, &now)));
            }
        }
        obs.class_if(!text.as_bytes().is_ascii(), "not ASCII");
    }
    for (i, p) in places.iter().enumerate() {
        if used[i] == 0 {
            if p.join("bcalc").exists() && !places.iter().any(|q| q.starts_with(p.join("bcalc"))) {
                return Verdict::Fail(format!("{:?} was made without being asked for", p.join("bcalc")));
            }
            continue;
        }
        let w = world(dbs[i].clone());
        if let Err(v) = peek(p, dir.path(), &w, &c.names) {
            return match v {
                Verdict::Fail(m) => Verdict::Fail(format!("data directory {:?}: {}", p, m)),
                v => v,
            };
        }
    }
    obs.class_if(used.iter().filter(|n| **n > 0).count() > 1, "several stores");
    obs.nontrivial = c
        .dirs
        .iter()
        .flatten()
        .any(|d| d.bytes().any(|b| !b.is_ascii_alphanumeric()));
    Verdict::Pass
}

fn c30() -> Prop {
    prop(
        "C30",
        "exploration",
        "One to three data directories with random names (blanks, quotes, URI syntax, non-ASCII, nested in one another, differing in case or by an ending), written as absolute paths, with extra slashes, with '..' after a directory or a symbolic link, relative to the working directory or through a symbolic link, with a home directory in the environment; 2-6 sessions of 1-5 inputs run on them in random order. Every answer is the store model's for that directory, after each session nothing outside its directory bcalc has changed (nor was any file there opened for writing, made, moved or removed in the meantime, which a preloaded library notes), and in the end each store's whole history, capacity and variables are the model's. Non-trivial: some name has a character that is no ASCII letter or digit.",
        (2400, 20000),
        c30_gen,
        c30_run,
    )
}

// ---------------------------------------------------------------- C31

#[derive(Clone, Debug, Serialize, Deserialize)]
enum Harm {
    /// The data directory does not exist.
    Missing,
    /// It is a file.
    File,
    /// Its name is not text.
    NotText(Vec<u8>),
    /// Where the directory bcalc should be there is a file.
    InnerFile,
    /// Where the database should be there is a directory.
    DbDirectory,
    /// The database is something else.
    Junk(Vec<u8>),
    /// The least version that can use the data is this.
    /// The least compatible version, and what else of this version is missing.
    Version(i64, u8),
    /// Harmless: the version is this, the least version one this program supports.
    Newer(i64, i64),
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Unusable {
    before: Vec<String>,
    harm: Harm,
    alt: bool,
    /// Entered with --no-db.
    other: Vec<String>,
    one_shot: String,
    after: Vec<String>,
    names: Vec<String>,
}

fn c31_gen(s: &mut Src, _: bool) -> Unusable {
    let names = names(s, 1, 3);
    let mut w = World::new(true);
    w.open(0, &Settings::default());
    let before = story_lines(s, &mut w, &names, 1, 6);
    let harm = match s.weighted(&[1, 1, 1, 1, 1, 3, 6, 6]) {
        0 => Harm::Missing,
        1 => Harm::File,
        2 => {
            let mut b = b"d\xff".to_vec();
            b.push(s.below(256) as u8 | 0x80);
            Harm::NotText(b)
        }
        3 => Harm::InnerFile,
        4 => Harm::DbDirectory,
        5 => {
            // Something else, perhaps large, perhaps nearly a database.
            let n = s.size(600, 9000);
            let mut b: Vec<u8> = (0..n).map(|_| s.below(256) as u8).collect();
            if s.pct(50) {
                let h = *s.pick(&["SQLite format 2\0", "#!/bin/sh\necho hello\n", "sqlite format 3\0", "notes of mine\n"]);
                b.splice(0..h.len(), h.bytes());
            } else {
                b[0] = b'x';
            }
            Harm::Junk(b)
        }
        6 => Harm::Version(
            match s.usize(3) {
                0 => 2,
                1 => s.range(2, 300),
                _ => *s.pick(&[255, 256, 65536, 65537, 1 << 31, 1 << 32, (1 << 32) + 1, i64::MAX]),
            },
            if s.pct(50) { s.range(1, 5) as u8 } else { 0 },
        ),
        _ => Harm::Newer(
            *s.pick(&[1, 2, 3, 10, 257, 65537, 1 << 32, i64::MAX]),
            *s.pick(&[1, 1, 1, 0, -1]),
        ),
    };
    let mut free = World::new(false);
    free.open(0, &Settings::default());
    let other: Vec<String> = story_lines(s, &mut free, &names, 1, 4);
    let mut alone = World::new(false);
    alone.open(0, &Settings::default());
    let one_shot = expr_line(s, &alone, 0, 2, 5);
    w.open(0, &Settings::default());
    let after = story_lines(s, &mut w, &names, 1, 3);
    Unusable {
        before,
        harm,
        alt: s.pct(30),
        other,
        one_shot,
        after,
        names,
    }
}

/// Runs SQL on the database and returns what it prints.
fn sql(file: &Path, text: &str) -> Result<String, Verdict> {
    let prog = "import sqlite3,sys\nc=sqlite3.connect(sys.argv[1])\nfor s in sys.argv[2].split(';'):\n for r in c.execute(s): print('|'.join(map(str,r)))\nc.commit()";
    let out = Command::new("python3")
        .args(["-I", "-S", "-c", prog])
        .arg(file)
        .arg(text)
        .stdin(Stdio::null())
        .output()
        .map_err(|e| Verdict::Infra(format!("python3: {}", e)))?;
    if !out.status.success() {
        return Err(Verdict::Infra(format!(
            "SQL {:?}: {}",
            text,
            String::from_utf8_lossy(&out.stderr)
        )));
    }
    Ok(String::from_utf8_lossy(&out.stdout).to_string())
}

fn c31_run(c: &Unusable, obs: &mut Obs) -> Verdict {
    match c31_try(c, obs) {
        Ok(()) => Verdict::Pass,
        Err(v) => v,
    }
}

fn c31_try(c: &Unusable, obs: &mut Obs) -> Result<(), Verdict> {
    let dir = Scratch::new();
    let root = dir.path().join("data");
    let cwd = dir.path().join("cwd");
    io(std::fs::create_dir(&root))?;
    io(std::fs::create_dir(&cwd))?;
    let inner = root.join("bcalc");
    let file = inner.join("saved_data.sqlite");
    let away = dir.path().join("away");
    let mut db = Db::new();
    play_lines(&Opts::new(&[]).db(&root), &cwd, Some(&mut db), &c.before)?;
    let mut value: OsString = root.clone().into_os_string();
    let mut capacity = String::new();
    match &c.harm {
        Harm::Missing => io(std::fs::rename(&root, &away))?,
        Harm::File => {
            io(std::fs::rename(&root, &away))?;
            io(std::fs::write(&root, "text"))?;
        }
        Harm::NotText(b) => {
            // A directory of that name exists.
            let p = dir.path().join(OsStr::from_bytes(b));
            io(std::fs::create_dir(&p))?;
            value = p.into_os_string();
        }
        Harm::InnerFile => {
            io(std::fs::rename(&inner, &away))?;
            io(std::fs::write(&inner, "text"))?;
        }
        Harm::DbDirectory => {
            io(std::fs::rename(&file, &away))?;
            io(std::fs::create_dir(&file))?;
        }
        Harm::Junk(b) => {
            io(std::fs::rename(&file, &away))?;
            io(std::fs::write(&file, b))?;
        }
        Harm::Version(n, lack) => {
            let more = match lack {
                1 => ";DELETE FROM meta_int WHERE key=3",
                2 => ";DELETE FROM meta_int WHERE key=1",
                3 => ";ALTER TABLE variable_history RENAME TO newer_variables",
                4 => ";ALTER TABLE input_history_tags RENAME TO newer_tags",
                5 => ";ALTER TABLE input_history RENAME TO newer_history",
                _ => "",
            };
            capacity = sql(&file, "SELECT value FROM meta_int WHERE key=3")?.trim().to_string();
            sql(&file, &format!("UPDATE meta_int SET value={} WHERE key=2{}", n, more))?;
        }
        Harm::Newer(v, m) => {
            sql(
                &file,
                &format!(
                    "UPDATE meta_int SET value={} WHERE key=1;UPDATE meta_int SET value={} WHERE key=2;\
                     INSERT INTO meta_int VALUES(77,7);CREATE TABLE other_things(a,b);INSERT INTO other_things VALUES(1,'x')",
                    v, m
                ),
            )?;
        }
    }
    let name = format!("{:?}", c.harm);
    let name = name.split('(').next().unwrap_or("").to_string();
    obs.class(&name);
    obs.nontrivial = c.before.len() > 1;
    let was = snapshot(dir.path());
    let same = |what: &str| -> Result<(), Verdict> {
        let now = snapshot(dir.path());
        if now == was {
            return Ok(());
        }
        Err(Verdict::Fail(format!(
            "{}: {}: files were created or changed: {:?}",
            name,
            what,
            diff(&was, &now)
        )))
    };
    let fail = |m: String| Err(Verdict::Fail(format!("{} {}", name, m)));
    let flags = if c.alt { vec!["-a".to_string()] } else { vec![] };
    if let Harm::Newer(v, m) = &c.harm {
        play_lines(&Opts::args(flags).data(&value), &cwd, Some(&mut db), &c.after)?;
        peek(&root, &cwd, &world(db), &c.names)?;
        let got = sql(
            &file,
            "SELECT key,value FROM meta_int WHERE key IN (1,2,77) ORDER BY key;SELECT a,b FROM other_things",
        )?;
        let want = format!("1|{}\n2|{}\n77|7\n1|x\n", v, m);
        if got != want {
            return fail(format!("data: versions and foreign data are {:?} afterwards; before {:?}", got, want));
        }
        return Ok(());
    }
    // It is refused.
    let o = Opts::args(flags).data(&value);
    let mut s = Session::spawn(&o, &cwd).map_err(infra)?;
    match s.wait_prompt() {
        Ok(()) => return fail("data: the session started".into()),
        Err(Stop::Ended(End::Exit(n))) if n != 0 && n != 101 => {}
        Err(e) => return Err(stop_verdict(&s, e, "starting with unusable data")),
    }
    if s.stderr.is_empty() {
        return fail("data: refused without a message".into());
    }
    if s.termios_now() != s.termios_before {
        return fail("data: the terminal modes are not restored".into());
    }
    if s.term.alt || s.term.alt_entered != s.term.alt_left {
        return fail("data: the alternate screen was not left".into());
    }
    same("the refused session")?;
    // Everything that doesn't need it works.
    let mut args = o.args.clone();
    args.push("--no-db".into());
    play_lines(&Opts::args(args).data(&value), &cwd, None, &c.other)?;
    same("a session with --no-db")?;
    let set = Settings::default();
    let mut m = Sess::open(&set, None);
    let want = m.submit(&c.one_shot, None);
    let out = one_shot(
        &[format!("--input={}", c.one_shot)],
        &[(DATA_VAR.to_string(), value.clone())],
        &cwd,
    )
    .map_err(infra)?;
    let got = either(one_result(&c.one_shot, &out)?);
    judge(&c.one_shot, &want, &got)?;
    same("a one-shot input")?;
    // Put right, all is there.
    match &c.harm {
        Harm::Missing => io(std::fs::rename(&away, &root))?,
        Harm::File => {
            io(std::fs::remove_file(&root))?;
            io(std::fs::rename(&away, &root))?;
        }
        Harm::NotText(_) => {}
        Harm::InnerFile => {
            io(std::fs::remove_file(&inner))?;
            io(std::fs::rename(&away, &inner))?;
        }
        Harm::DbDirectory => {
            io(std::fs::remove_dir(&file))?;
            io(std::fs::rename(&away, &file))?;
        }
        Harm::Junk(_) => {
            io(std::fs::remove_file(&file))?;
            io(std::fs::rename(&away, &file))?;
        }
        Harm::Version(_, lack) => {
            let more = match lack {
                1 => format!(";INSERT INTO meta_int (key,value) VALUES (3,{})", capacity),
                2 => ";INSERT INTO meta_int (key,value) VALUES (1,1)".to_string(),
                3 => ";ALTER TABLE newer_variables RENAME TO variable_history".to_string(),
                4 => ";ALTER TABLE newer_tags RENAME TO input_history_tags".to_string(),
                5 => ";ALTER TABLE newer_history RENAME TO input_history".to_string(),
                _ => String::new(),
            };
            sql(&file, &format!("UPDATE meta_int SET value=1 WHERE key=2{}", more))?;
        }
        Harm::Newer(..) => {}
    }
    play_lines(&Opts::new(&[]).db(&root), &cwd, Some(&mut db), &c.after)?;
    peek(&root, &cwd, &world(db), &c.names)?;
    Ok(())
}

fn c31() -> Prop {
    prop(
        "C31",
        "exploration",
        "A session stores 1-6 inputs; then the stored data is made unusable (directory missing, a file, not text; the inner directory or the database replaced by something else, or by random bytes that may begin like a database; a higher least compatible version, perhaps with tables or values of this version missing) or given a higher version that is still compatible, with foreign keys and tables. Unusable data must be refused with a message, a failing status and the terminal restored, with no file created or changed, then or by --no-db sessions and one-shot inputs, which must answer as ever; when the harm is undone, history and variables are the model's. Compatible data must be used, and its versions and foreign parts kept. Non-trivial: more than one input was stored before.",
        (2000, 20000),
        c31_gen,
        c31_run,
    )
}

// ---------------------------------------------------------------- C32

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Ahead {
    flags: Settings,
    alt: bool,
    cols: usize,
    rows: usize,
    db: bool,
    lines: Vec<Vec<Key>>,
    /// Keys at the end that are not submitted.
    tail: Vec<Key>,
    /// The slow way presses one key at a time, not one line.
    single: bool,
    /// The keys (Enter included) that come together, and the pause after them in units of 0.1 ms.
    chunks: Vec<(usize, u64)>,
}

fn c32_gen(s: &mut Src, _: bool) -> Ahead {
    let mut flags = if s.pct(30) { settings(s) } else { Settings::default() };
    let mut slow = s.pct(3);
    if slow {
        flags = Settings { precision: 200, extra: 255, ..Settings::default() };
    }
    let db = s.pct(40);
    let mut w = World::new(db);
    w.open(0, &flags);
    let names = names(s, 1, 3);
    let unset = unset_names(&names);
    let n = s.size(2, 9);
    let mut lines = Vec::new();
    for _ in 0..n {
        let keys = match s.weighted(&[5, 3, 2, 2, 1, 3, 1, 1]) {
            // This one takes most of a second.
            _ if slow => {
                slow = false;
                let t = format!("{}^(1/{})", s.range(2, 99999), s.pick(&[7, 9]));
                detour(s, &t)
            }
            0 => {
                let d = s.usize(3);
                let t = expr_line(s, &w, 0, d, 6);
                detour(s, &t)
            }
            1 => {
                let t = assign_line(s, &w, 0, &names, 5);
                detour(s, &t)
            }
            2 => {
                let t = use_line(s, &names);
                detour(s, &t)
            }
            3 => {
                let t = setting_line(s);
                detour(s, &t)
            }
            4 => {
                let t = fail_line(s, &w, 0, &names, &unset);
                detour(s, &t)
            }
            5 => {
                // From the history, perhaps changed.
                let mut k = vec![Key::Up; s.size(1, 3)];
                if s.pct(30) {
                    k.push(Key::Down);
                }
                if s.pct(50) {
                    k.push(s.pick(&[Key::Home, Key::Left, Key::Back, Key::End]).clone());
                    k.push(Key::Ch(*s.pick(&['1', '+', '('])));
                }
                k
            }
            // An answer of many lines.
            7 => {
                let t = (*s.pick(&["/help", " /help", "/help ", "/help radix"])).to_string();
                detour(s, &t)
            }
            // This one takes a moment.
            _ => {
                let t = format!("sqrt {}", s.range(2, 99999));
                detour(s, &t)
            }
        };
        if keys.len() > 150 {
            continue;
        }
        let st = Step::Keys { s: 0, keys: keys.clone() };
        if w.try_step(&st).is_some() {
            lines.push(keys);
        }
    }
    let k = s.usize(8);
    let tail: Vec<Key> = (0..k).map(|_| key(s)).collect();
    let total: usize = lines.iter().map(|l| l.len() + 1).sum::<usize>() + tail.len();
    let mut chunks = Vec::new();
    let mut left = total;
    let all = s.pct(25);
    while left > 0 {
        let c = if all { 400 } else { s.size(1, 60) }.min(left);
        let pause = if s.pct(60) { 0 } else { s.below(40) };
        chunks.push((c, pause));
        left -= c;
    }
    Ahead {
        flags,
        alt: s.pct(25),
        cols: if s.pct(50) { 300 } else { s.range(12, 100) as usize },
        rows: s.range(8, 60) as usize,
        db,
        lines,
        tail,
        single: s.pct(15),
        chunks,
    }
}

/// Where the screen stands once all `lines` are answered and the tail is typed.
fn c32_state(s: &Session) -> (Vec<String>, usize, usize) {
    let rows = (0..s.term.lines.len()).map(|i| s.term.row_str(i)).collect();
    (rows, s.term.row, s.term.col)
}

fn c32_run(c: &Ahead, obs: &mut Obs) -> Verdict {
    match c32_try(c, obs) {
        Ok(()) => Verdict::Pass,
        Err(v) => v,
    }
}

fn c32_try(c: &Ahead, obs: &mut Obs) -> Result<(), Verdict> {
    let dir = Scratch::new();
    let mut flags = c.flags.flags();
    if c.alt {
        flags.push("-a".into());
    }
    let opts = |name: &str| -> Result<(Opts, PathBuf), Verdict> {
        let root = dir.path().join(name);
        io(std::fs::create_dir(&root))?;
        let o = Opts::args(flags.clone()).size(c.cols, c.rows);
        Ok((if c.db { o.db(&root) } else { o }, root))
    };
    // One after the other.
    let (o, slow_root) = opts("slow")?;
    let mut a = start(&o, dir.path())?;
    let stop = |s: &Session, e: Stop, what: &str| Err(stop_verdict(s, e, what));
    let each = |s: &mut Session, keys: &[Key]| -> Result<(), Verdict> {
        if c.single {
            for k in keys {
                s.write(&k.bytes());
                if let Err(e) = s.idle() {
                    return stop(s, e, "one key at a time");
                }
            }
        } else {
            s.write(&bytes_of(keys));
            if let Err(e) = s.idle() {
                return stop(s, e, "one line at a time");
            }
        }
        Ok(())
    };
    for l in &c.lines {
        each(&mut a, l)?;
        a.write(b"\r");
        if let Err(e) = a.wait_prompt() {
            return stop(&a, e, "one line at a time");
        }
    }
    each(&mut a, &c.tail)?;
    let slow = c32_state(&a);
    finish(&mut a)?;
    // All at once.
    let (o, fast_root) = opts("fast")?;
    let mut b = start(&o, dir.path())?;
    let mut keys: Vec<Vec<u8>> = Vec::new();
    for l in &c.lines {
        keys.extend(l.iter().map(|k| k.bytes()));
        keys.push(b"\r".to_vec());
    }
    keys.extend(c.tail.iter().map(|k| k.bytes()));
    let (mut i, mut sent, mut ahead) = (0, 0, 0);
    for (n, pause) in &c.chunks {
        let part: Vec<u8> = keys[i.min(keys.len())..(i + n).min(keys.len())].concat();
        i += n;
        // More than the terminal library reads at once may stay unread (DESIGN.md).
        for p in part.chunks(400) {
            if sent + p.len() > 450 {
                if let Err(e) = b.idle() {
                    return stop(&b, e, "typing ahead");
                }
                sent = 0;
            }
            sent += p.len();
            let enters = p.iter().filter(|x| **x == b'\r').count();
            ahead = ahead.max(enters);
            b.write(p);
        }
        if *pause > 0 {
            std::thread::sleep(std::time::Duration::from_micros(pause * 100));
            b.pump(0);
        }
    }
    let want = 1 + c.lines.len();
    if let Err(e) = b.wait_prompts(want) {
        return stop(&b, e, "typing ahead");
    }
    if let Err(e) = b.idle() {
        return stop(&b, e, "typing ahead");
    }
    let fast = c32_state(&b);
    if fast != slow {
        let show = |x: &(Vec<String>, usize, usize)| {
            format!("{} (cursor {} {})", tail(&x.0.join("\n"), 1500), x.1, x.2)
        };
        return Err(Verdict::Fail(format!(
            "typed ahead, the screen is\n{}\ntyped one after the other, it is\n{}",
            show(&fast),
            show(&slow)
        )));
    }
    finish(&mut b)?;
    if c.db {
        let (x, _) = observe(&slow_root, dir.path(), &[], &[])?;
        let (y, _) = observe(&fast_root, dir.path(), &[], &[])?;
        if x.rows != y.rows || x.cap != y.cap {
            return Err(Verdict::Fail(format!(
                "typed ahead, the stored inputs are {:?}; typed one after the other, {:?}",
                y.rows, x.rows
            )));
        }
        obs.class("stored");
    }
    obs.count("lines typed ahead", c.lines.len() as u64);
    obs.class_if(c.alt, "alternate screen");
    obs.class_if(ahead > 1, "several lines at once");
    obs.class_if(!c.tail.is_empty(), "unfinished line");
    obs.nontrivial = ahead > 1;
    Ok(())
}

fn c32() -> Prop {
    prop(
        "C32",
        "exploration",
        "2-9 lines of keys (expressions, assignments, settings, failing inputs, recalled and edited lines) and an unfinished one, in both display modes and random windows, with and without a database; once typed one after the other with each answer awaited, and once in random chunks that pay no heed to lines, with pauses of 0-4 ms or none. Screen, cursor and stored history must be the same (no reference needed). Non-trivial: at least two Enters came in one chunk.",
        (1600, 16000),
        c32_gen,
        c32_run,
    )
}

// ---------------------------------------------------------------- C33

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Line {
    set: Settings,
    input: String,
    /// The arguments of the accepted spellings.
    ways: Vec<Vec<String>>,
    /// Arguments that must be refused, and whether a session is asked for.
    refused: Vec<(Vec<String>, bool)>,
}

/// One option with its value, in some spelling; short flags without a value can be joined.
fn spell(s: &mut Src, long: &str, short: &str, value: Option<&str>) -> Vec<String> {
    match value {
        None => vec![if short.is_empty() || s.pct(50) { format!("--{}", long) } else { format!("-{}", short) }],
        Some(v) => {
            let dash = v.starts_with('-') || v.is_empty();
            match s.usize(if short.is_empty() { 2 } else { 5 }) {
                0 if !dash => vec![format!("--{}", long), v.to_string()],
                2 if !dash => vec![format!("-{}", short), v.to_string()],
                3 if !dash && !v.starts_with('=') => vec![format!("-{}{}", short, v)],
                4 => vec![format!("-{}={}", short, v)],
                _ => vec![format!("--{}={}", long, v)],
            }
        }
    }
}

fn int_arg(s: &mut Src, n: u8) -> String {
    let z = if s.pct(20) { s.usize(4) } else { 0 };
    format!("{}{}", "0".repeat(z), n)
}

fn arguments(s: &mut Src, set: &Settings, input: Option<&str>) -> Vec<String> {
    let d = Settings::default();
    let mut parts: Vec<Vec<String>> = Vec::new();
    if set.radix != d.radix || s.pct(30) {
        let v = int_arg(s, set.radix);
        parts.push(spell(s, "radix", "r", Some(&v)));
    }
    if let Some(c) = set.convert {
        let v = int_arg(s, c);
        parts.push(spell(s, "convert-to-radix", "", Some(&v)));
    }
    if set.precision != d.precision || s.pct(30) {
        let v = int_arg(s, set.precision);
        parts.push(spell(s, "precision", "p", Some(&v)));
    }
    if set.extra != d.extra || s.pct(30) {
        let v = int_arg(s, set.extra);
        parts.push(spell(s, "extra-precision", "", Some(&v)));
    }
    let mut shorts = String::new();
    for (on, long, short) in [
        (set.fractional, "fractional", "f"),
        (set.commas, "commas", "c"),
        (set.upper, "upper", "u"),
    ] {
        if on {
            if s.pct(40) {
                shorts.push_str(short);
            } else {
                parts.push(spell(s, long, short, None));
            }
        }
    }
    if input.is_some() {
        // They make no difference to an input that is given.
        if s.pct(20) {
            parts.push(vec!["--no-db".into()]);
        }
        if s.pct(20) {
            if s.pct(50) {
                shorts.push('a');
            } else {
                parts.push(vec!["--alternate-screen".into()]);
            }
        }
    }
    if let Some(t) = input {
        parts.push(spell(s, "input", "i", Some(t)));
    }
    if !shorts.is_empty() {
        // Several in one, perhaps with one at the end that takes a value.
        let at = parts.iter().position(|p| {
            p[0].starts_with('-') && !p[0].starts_with("--") && p[0].len() > 1 && "rpi".contains(&p[0][1..2])
        });
        match at {
            Some(i) if s.pct(50) => {
                parts[i][0] = format!("-{}{}", shorts, &parts[i][0][1..]);
            }
            _ => parts.push(vec![format!("-{}", shorts)]),
        }
    }
    for i in 0..parts.len() {
        let j = i + s.usize(parts.len() - i);
        parts.swap(i, j);
    }
    parts.concat()
}

fn c33_gen(s: &mut Src, _: bool) -> Line {
    let set = settings(s);
    let mut w = World::new(false);
    w.open(0, &set);
    let input = match s.weighted(&[8, 1, 1]) {
        0 => {
            let d = s.usize(3);
            expr_line(s, &w, 0, d, 8)
        }
        1 => (*s.pick(&["/radix", "/converttoradix", "/precision", "/fractional", "/commas", "/upper"])).to_string(),
        _ => (*s.pick(&["", " ", "1+", "=1", "-1", "--", "--help", "-f", "1 = 1"])).to_string(),
    };
    let n = s.size(1, 4);
    let ways = (0..n).map(|_| arguments(s, &set, Some(&input))).collect();
    let k = s.size(1, 3);
    let mut refused = Vec::new();
    for _ in 0..k {
        let session = s.pct(35);
        // What is accepted but for one thing.
        let mut base = set.clone();
        let bad_int = |s: &mut Src, lo: i64, hi: i64| -> String {
            match s.usize(5) {
                0 => (hi + 1).to_string(),
                1 => s.range(hi + 1, hi + 300).to_string(),
                2 => (*s.pick(&["", "x", "1.5", "2 ", " 2", "0x10", "1e1", "ten", "none", "1,0", "1_0", "2;", "é"])).to_string(),
                3 => (*s.pick(&["65546", "4294967306", "18446744073709551626", "-246", "256", "266"])).to_string(),
                _ => {
                    if lo > 0 && s.pct(60) {
                        s.range(0, lo - 1).to_string()
                    } else {
                        format!("-{}", s.range(1, 300))
                    }
                }
            }
        };
        if s.pct(12) {
            // An option whose value is missing, at the end or with another option after it.
            let (long, short) = *s.pick(&[
                ("input", "i"),
                ("input", "i"),
                ("radix", "r"),
                ("precision", "p"),
                ("convert-to-radix", ""),
                ("extra-precision", ""),
            ]);
            let mut a: Vec<String> = Vec::new();
            if long != "input" && !session {
                a.push(format!("--input={}", input));
            }
            if short.is_empty() || s.pct(50) {
                a.push(format!("--{}", long));
            } else {
                a.push(format!("-{}{}", ["", "f", "cu"][s.usize(3)], short));
            }
            if s.pct(65) {
                let next = match long {
                    "input" => *s.pick(&["--fractional", "-f", "--precision=3", "-p3", "--no-db", "-u", "-r=2", "-5", "--5", "-$x"]),
                    _ => *s.pick(&["--fractional", "-f", "--no-db", "-u", "--upper"]),
                };
                a.push(next.into());
            }
            refused.push((a, session));
            continue;
        }
        let bad: Vec<String> = match s.usize(9) {
            0 | 1 => {
                base.radix = 10;
                let v = bad_int(s, 2, 16);
                spell(s, "radix", "r", Some(&v))
            }
            2 => {
                base.convert = None;
                let v = bad_int(s, 2, 16);
                spell(s, "convert-to-radix", "", Some(&v))
            }
            3 => {
                base.precision = 5;
                let v = bad_int(s, 0, 255);
                spell(s, "precision", "p", Some(&v))
            }
            4 => {
                base.extra = 10;
                let v = bad_int(s, 0, 255);
                spell(s, "extra-precision", "", Some(&v))
            }
            5 => vec![(*s.pick(&[
                "--fractional=true", "--commas=false", "--upper=1", "--no-db=true", "--alternate-screen=false", "-f=1",
            ]))
            .to_string()],
            6 if s.pct(40) => {
                // Some letter or word that is no option.
                let mut bad = Vec::new();
                if s.pct(60) {
                    let c = *s.pick(b"bdegjklmnoqstvwxyzABCDEFGHIJKLMNOPQRSTUWXYZ0123456789?@#") as char;
                    bad.push(format!("-{}{}", s.pick(&["", "", "f", "cu"]), c));
                } else {
                    bad.push((*s.pick(&[
                        "--output", "--out", "--base", "--digits", "--debug", "--verbose", "--quiet", "--config", "--data",
                        "--db", "--file", "--eval", "--hex", "--binary", "--lower", "--no-fractional", "--no-commas",
                        "--no-upper", "--decimal", "--histcap", "--history", "--color", "--json", "--convert", "--uppercase",
                        "--in", "--ext", "--no", "--alternate", "--alt", "--extra", "--prec", "--r", "--i", "--help-all",
                    ]))
                    .to_string());
                }
                if s.pct(50) {
                    let v = *s.pick(&["3", "10", "x", "16"]);
                    if s.pct(50) {
                        bad.push(v.into());
                    } else {
                        bad[0] = format!("{}={}", bad[0], v);
                    }
                }
                bad
            }
            6 => vec![(*s.pick(&[
                "--frac", "--rad=10", "--Radix=10", "--nodb", "--no_db", "-z", "-x", "--bogus", "--bogus=1", "--input-file=x",
                "-n", "--extra_precision=3", "--converttoradix=3", "-R", "-F", "--precisions=3",
            ]))
            .to_string()],
            7 => vec![(*s.pick(&["1+1", "5", "/help", "x", "$x"])).to_string()],
            _ => {
                // Twice the same.
                match s.usize(3) {
                    0 => vec!["--radix=10".into(), "--radix=10".into()],
                    1 => vec!["--precision=5".into(), "-p".into(), "5".into()],
                    _ => vec!["--extra-precision=4".into(), "--extra-precision=4".into()],
                }
            }
        };
        if bad.len() > 1 {
            base = Settings {
                fractional: base.fractional,
                ..Settings::default()
            };
        }
        // Defaults are left out here, so that nothing is given twice by chance.
        let mut a = base.flags();
        if !session {
            a.push(format!("--input={}", input));
        } else if s.pct(30) {
            a.push("-a".into());
        }
        if s.pct(50) {
            a.splice(0..0, bad);
        } else {
            a.extend(bad);
        }
        refused.push((a, session));
    }
    Line {
        set,
        input,
        ways,
        refused,
    }
}

fn c33_run(c: &Line, obs: &mut Obs) -> Verdict {
    let dir = Scratch::new();
    let root = dir.path().join("data");
    tri!(io(std::fs::create_dir(&root)));
    let env = [(DATA_VAR.to_string(), root.clone().into_os_string())];
    let mut m = Sess::open(&c.set, None);
    let want = m.submit(&c.input, None);
    let was = snapshot(dir.path());
    let same = |args: &[String]| -> Result<(), Verdict> {
        let now = snapshot(dir.path());
        if now != was {
            return Err(Verdict::Fail(format!(
                "arguments {:?}: files were created or changed: {:?}",
                args,
                diff(&was, &now)
            )));
        }
        Ok(())
    };
    for a in &c.ways {
        let o = match one_shot(a, &env, dir.path()) {
            Ok(o) => o,
            Err(e) => return infra(e),
        };
        let got = match one_result(&c.input, &o) {
            Ok(r) => either(r),
            Err(Verdict::Fail(m)) => return Verdict::Fail(format!("arguments {:?}: {}", a, m)),
            Err(v) => return v,
        };
        if !want.ok(&got) {
            return Verdict::Fail(format!(
                "arguments {:?}: answered {:?}; expected {}",
                a,
                clip(&got),
                clip(&want.show())
            ));
        }
        tri!(same(a));
        obs.count("accepted", 1);
        obs.class_if(a.iter().any(|x| !x.starts_with("--") && x.len() > 2 && x.starts_with('-')), "short with value or joined");
    }
    for (a, session) in &c.refused {
        let refuse = |o: &OneShot| match o.end {
            End::Exit(n) if n != 0 && n != 101 && o.out.is_empty() && !o.err.is_empty() => Ok(()),
            _ => Err(Verdict::Fail(format!(
                "arguments {:?}: expected a refusal, got {}; standard output {:?}, standard error {:?}",
                a,
                o.end,
                clip(&o.out),
                clip(&o.err)
            ))),
        };
        if *session {
            let o = Opts::args(a.clone()).data(root.as_os_str());
            let mut s = match Session::spawn(&o, dir.path()) {
                Ok(s) => s,
                Err(e) => return infra(e),
            };
            match s.wait_prompt() {
                Ok(()) => return Verdict::Fail(format!("arguments {:?}: a session started", a)),
                Err(Stop::Ended(e)) => {
                    let o = OneShot {
                        out: String::from_utf8_lossy(&s.raw).to_string(),
                        err: s.stderr_str(),
                        end: e,
                    };
                    tri!(refuse(&o));
                    if s.termios_now() != s.termios_before {
                        return Verdict::Fail(format!("arguments {:?}: the terminal modes are not restored", a));
                    }
                }
                Err(e) => return stop_verdict(&s, e, "refused arguments"),
            }
            obs.class("session refused");
        } else {
            let o = match one_shot(a, &env, dir.path()) {
                Ok(o) => o,
                Err(e) => return infra(e),
            };
            tri!(refuse(&o));
        }
        tri!(same(a));
        obs.count("refused", 1);
    }
    obs.nontrivial = c.set != Settings::default() && !c.ways.is_empty();
    Verdict::Pass
}

fn c33() -> Prop {
    prop(
        "C33",
        "exploration",
        "Random settings and an input, given in 1-4 spellings of the command line (long and short names, value after a blank, '=' or nothing, flags joined, any order, leading zeros, defaults given or not, --no-db and -a added): each is answered as the reference answers under those settings. 1-3 command lines that are accepted but for one thing (value out of range or no number, unknown or abbreviated option, value for a flag, stray argument, option given twice, option without its value), with or without an input: refused with a failing status and a message on standard error only, no file touched, terminal modes kept. Non-trivial: the settings are not the defaults.",
        (6000, 60000),
        c33_gen,
        c33_run,
    )
}

pub fn all() -> Vec<Prop> {
    vec![c30(), c31(), c32(), c33()]
}
