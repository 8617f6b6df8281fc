mod choice;
mod engine;
mod gen;
mod model;
mod play;
mod proc;
mod props;
mod runner;
mod spec;
mod term;

use std::path::{Path, PathBuf};

fn usage() -> ! {
    eprintln!("usage: harness check ID | replay FILE | list");
    eprintln!("environment: PBT_VERIF, PBT_BCALC, PBT_SHIM, VERIF_SEED, VERIF_TIER");
    std::process::exit(2);
}

fn env_path(name: &str) -> PathBuf {
    match std::env::var(name) {
        Ok(v) => PathBuf::from(v),
        Err(_) => usage(),
    }
}

/// The findings of /verif/known_findings.json for a property. `text` is a list of strings and how
/// often each is repeated, which stands for "@" in the case's lines.
fn known(verif: &Path, id: &str) -> Vec<(String, serde_json::Value)> {
    let text = match std::fs::read_to_string(verif.join("known_findings.json")) {
        Ok(t) => t,
        Err(_) => return Vec::new(),
    };
    let v: serde_json::Value = serde_json::from_str(&text).expect("known_findings.json");
    let mut found = Vec::new();
    for k in v["known"].as_array().into_iter().flatten() {
        if k["property"] != id {
            continue;
        }
        let mut case = k["case"].clone();
        if let Some(parts) = k["text"].as_array() {
            let t: String = parts
                .iter()
                .map(|p| {
                    let n = p[1].as_u64().expect("a count") as usize;
                    p[0].as_str().expect("a string").repeat(n)
                })
                .collect();
            for l in case["lines"].as_array_mut().into_iter().flatten() {
                if *l == "@" {
                    *l = t.clone().into();
                }
            }
        }
        found.push((k["name"].as_str().unwrap_or("").to_string(), case));
    }
    found
}

fn main() {
    let args: Vec<String> = std::env::args().collect();
    if args.len() < 2 {
        usage();
    }
    if args[1] == "list" {
        for p in props::all() {
            println!("{} {} {} {}", p.id, p.level, p.quick, p.thorough);
        }
        return;
    }
    if args.len() < 3 {
        usage();
    }
    // Bring down everything with us if we are told to stop.
    unsafe {
        libc::signal(libc::SIGPIPE, libc::SIG_IGN);
        // bcalc's children must not keep our descriptors.
        let l = libc::rlimit {
            rlim_cur: 8192,
            rlim_max: 8192,
        };
        libc::setrlimit(libc::RLIMIT_NOFILE, &l);
    }
    let verif = env_path("PBT_VERIF");
    let shm = Path::new("/dev/shm");
    let name = format!("bcalc-pbt-{}", std::process::id());
    let mut scratch = shm.join(&name);
    if std::fs::create_dir_all(&scratch).is_err() {
        scratch = std::env::temp_dir().join(&name);
        std::fs::create_dir_all(&scratch).expect("scratch directory");
    }
    proc::set_paths(proc::Paths {
        bcalc: env_path("PBT_BCALC"),
        shim: env_path("PBT_SHIM"),
        scratch: scratch.clone(),
    });
    let seed = std::env::var("VERIF_SEED")
        .ok()
        .and_then(|s| s.trim().parse::<u64>().ok())
        .unwrap_or(1);
    let tier = match std::env::var("VERIF_TIER").as_deref() {
        Ok("thorough") => "thorough",
        _ => "quick",
    };
    let ctx = runner::Ctx {
        verif,
        tier: tier.into(),
        seed,
    };
    let status = match args[1].as_str() {
        "check" => match props::all().into_iter().find(|p| p.id == args[2]) {
            Some(mut p) => {
                p.known = known(&ctx.verif, p.id);
                runner::check(&p, &ctx)
            }
            None => usage(),
        },
        "replay" => {
            let file = PathBuf::from(&args[2]);
            let id = std::fs::read_to_string(&file)
                .ok()
                .and_then(|s| serde_json::from_str::<serde_json::Value>(&s).ok())
                .and_then(|v| v["property"].as_str().map(|s| s.to_string()))
                .unwrap_or_default();
            match props::all().into_iter().find(|p| p.id == id) {
                Some(p) => runner::replay(&p, &file),
                None => {
                    eprintln!("{}: not a replay file", file.display());
                    2
                }
            }
        }
        _ => usage(),
    };
    let _ = std::fs::remove_dir_all(&scratch);
    std::process::exit(status);
}
