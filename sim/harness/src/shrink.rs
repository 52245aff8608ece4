//! Minimisation of a violation: the case first (any simulator seed will do),
//! then the schedule and fault decisions. Every candidate runs in a process of
//! its own because a violation may leave the process unusable (deadlock ...).
use crate::case::Case;
use crate::ReplayFile;
use std::process::{Command, Stdio};
use std::time::{Duration, Instant};

struct Hit {
    seed: u64,
    msg: String,
    devs: Vec<(u64, u32)>,
    hash: String,
}

fn exec(args: &[String], limit: Duration) -> Option<Hit> {
    let exe = std::env::current_exe().unwrap();
    let mut ch = Command::new(exe).args(args).stdout(Stdio::piped()).stderr(Stdio::null()).spawn().ok()?;
    let t = Instant::now();
    loop {
        match ch.try_wait() {
            Ok(Some(_)) => break,
            Ok(None) => {
                if t.elapsed() > limit {
                    let _ = ch.kill();
                    let _ = ch.wait();
                    return None;
                }
                std::thread::sleep(Duration::from_millis(1));
            }
            Err(_) => return None,
        }
    }
    let o = ch.wait_with_output().ok()?;
    let s = String::from_utf8_lossy(&o.stdout).to_string();
    let l = s.lines().find(|l| l.starts_with("V\t"))?;
    let f: Vec<&str> = l.split('\t').collect();
    Some(Hit {
        seed: f[2].parse().ok()?,
        msg: f[4].to_string(),
        devs: f[5]
            .split_whitespace()
            .filter_map(|x| {
                let (a, b) = x.split_once(':')?;
                Some((a.parse().ok()?, b.parse().ok()?))
            })
            .collect(),
        hash: f[6].to_string(),
    })
}

/// What must be preserved while minimising: the kind of the violation and, if
/// a thread panicked, its message (numbers aside).
fn kind(m: &str) -> String {
    let k = m.split(':').next().unwrap_or("");
    let cause = match m.split_once("[panics: ") {
        Some((_, p)) => p.split(" at ").next().unwrap_or(""),
        None if k == "panic" => m.split(" at ").next().unwrap_or(""),
        None => "",
    };
    format!("{}/{}", k, cause.chars().filter(|c| !c.is_ascii_digit() && *c != '-').collect::<String>())
}

fn search(prop: &str, c: &Case, k: u64, base: u64, want: &str) -> Option<Hit> {
    let mut a = vec!["search".to_string(), prop.to_string(), k.to_string(), base.to_string()];
    a.extend(c.to_line().split_whitespace().map(|s| s.to_string()));
    exec(&a, Duration::from_secs(20)).filter(|h| kind(&h.msg) == want)
}

fn try_replay(f: &ReplayFile, tmp: &str) -> Option<Hit> {
    f.write(tmp);
    exec(&["replay".to_string(), tmp.to_string()], Duration::from_secs(70))
}

/// minimise IN OUT SECONDS
pub fn minimise(a: &[String]) {
    let mut f = ReplayFile::read(&a[0]);
    let out = &a[1];
    let budget = Duration::from_secs_f64(a.get(2).and_then(|x| x.parse().ok()).unwrap_or(30.0));
    let tmp = format!("{}.tmp", out);
    let t0 = Instant::now();
    let want = kind(&f.expect);
    let orig = f.case.clone();

    // 1. the case
    let mut progress = true;
    while progress && t0.elapsed() < budget / 2 {
        progress = false;
        for (name, v, d) in f.case.fields() {
            if t0.elapsed() > budget / 2 {
                break;
            }
            if name == "model_seed" || v == d {
                continue;
            }
            let mut cands = vec![d];
            if (v - d).abs() > 1 {
                cands.push(d + (v - d) / 2);
                cands.push(v - (v - d).signum());
            }
            for x in cands {
                if x == v {
                    continue;
                }
                let c = f.case.with(name, x);
                let k = if c.threads <= 1 { 3 } else { 40 };
                if let Some(h) = search(&f.prop, &c, k, f.seed, &want) {
                    f.case = c;
                    f.seed = h.seed;
                    f.devs = h.devs;
                    f.expect = h.msg;
                    f.hash = h.hash;
                    progress = true;
                    break;
                }
            }
        }
        // other models of the same shape are often simpler to fail on
        if f.case == orig {
            break;
        }
    }

    // 2. the decisions: remove chunks as long as the same kind of violation remains
    let mut chunk = f.devs.len().max(1);
    while chunk >= 1 && !f.devs.is_empty() && t0.elapsed() < budget {
        let mut i = 0;
        let mut any = false;
        while i < f.devs.len() && t0.elapsed() < budget {
            let mut g = ReplayFile { case: f.case.clone(), prop: f.prop.clone(), hash: String::new(), expect: String::new(), seed: f.seed, devs: f.devs.clone() };
            let e = (i + chunk).min(g.devs.len());
            g.devs.drain(i..e);
            match try_replay(&g, &tmp).filter(|h| kind(&h.msg) == want) {
                Some(h) => {
                    f.devs = h.devs;
                    f.expect = h.msg;
                    f.hash = h.hash;
                    any = true;
                }
                None => i += chunk,
            }
        }
        if chunk == 1 && !any {
            break;
        }
        chunk = if any && chunk == 1 { 1 } else { (chunk / 2).max(1) };
    }
    // 3. confirm: twice the same
    match (try_replay(&f, &tmp), try_replay(&f, &tmp)) {
        (Some(x), Some(y)) if x.msg == y.msg && x.hash == y.hash => {
            f.expect = x.msg;
            f.hash = x.hash;
            f.devs = x.devs;
            f.write(out);
            let _ = std::fs::remove_file(&tmp);
            println!("minimised: {} decisions, case {}", f.devs.len(), f.case.to_line());
            std::process::exit(0)
        }
        (x, y) => {
            let _ = std::fs::remove_file(&tmp);
            eprintln!("not reproducible: {:?} / {:?}", x.map(|h| h.msg), y.map(|h| h.msg));
            std::process::exit(3)
        }
    }
}
