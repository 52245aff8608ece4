mod case;
mod drive;
mod mini;
mod model;
mod obs;
mod props;
mod shrink;

use case::Case;
use std::io::Write;
use std::time::Instant;

static mut CURRENT: Option<(String, u64, String, bool)> = None;
static mut QUIET: bool = false;

fn devs(v: &[(u64, u32)]) -> String {
    v.iter().map(|(i, x)| format!("{}:{}", i, x)).collect::<Vec<_>>().join(" ")
}

fn out(s: String) {
    let mut o = std::io::stdout().lock();
    let _ = o.write_all(s.as_bytes());
    let _ = o.write_all(b"\n");
    let _ = o.flush();
}

fn violation(prop: &str, seed: u64, case: &str, msg: &str, rep: &simrt::Report) {
    out(format!("V\t{}\t{}\t{}\t{}\t{}\t{:016x}", prop, seed, case, msg.replace(['\t', '\n'], " "), devs(&rep.deviations), rep.hash));
}

#[allow(static_mut_refs)]
fn on_fail(kind: &str, msg: &str) {
    let rep = simrt::report();
    if let Some((p, s, c, _)) = unsafe { CURRENT.clone() } {
        let panics = obs::obs(|o| o.panics.join(" // "));
        let panics = if panics.is_empty() { panics } else { format!(" [panics: {}]", panics) };
        violation(&p, s, &c, &format!("{}: {}{}", kind, msg, panics), &rep);
    }
    unsafe { libc::_exit(1) }
}

fn setup() {
    simrt::keep_symbols();
    simrt::set_fail_handler(on_fail);
    std::panic::set_hook(Box::new(|i| {
        let loc = i.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        let m = if i.payload().downcast_ref::<obs::Injected>().is_some() {
            "injected".to_string()
        } else if let Some(x) = i.payload().downcast_ref::<&str>() {
            x.to_string()
        } else if let Some(x) = i.payload().downcast_ref::<String>() {
            x.clone()
        } else {
            "?".to_string()
        };
        if simrt::active() {
            obs::obs(|o| o.panics.push(format!("{} at {}", m, loc)));
        } else {
            eprintln!("harness panic: {} at {}", m, loc);
        }
    }));
    // a computation that never reaches a scheduling point nor an instrumented
    // block is caught by its CPU time
    simrt::watchdog(20);
}

/// One-time initialisations must not be part of the first simulation of the
/// process: it would differ from the same simulation later in another process.
fn warm_up() {
    for (solver, ops, panic_cb, prop) in
        [(0, 0, 0, "C03"), (1, 0, 0, "C03"), (2, 0, 0, "C03"), (0, 0, 1, "C08"), (0, 5, 0, "C10"), (0, 0, 0, "C09"), (2, 0, 0, "C13")]
    {
        let c = Case { n: 3, b: 3, d: 2, solver, ops, panic_cb, panic_at: 2, mode: 1, edge_gap: 3, ctor: 3, ..Default::default() };
        set_current(prop, 1, &c);
        props::run(prop, &c, 1, None);
    }
    for twin_kind in 0..3 {
        let c = Case { n: 3, b: 3, d: 2, twin: 1, twin_kind, threads: 2, mode: 2, int_k: 3, edge_gap: 3, ..Default::default() };
        set_current("C21", 1, &c);
        props::run("C21", &c, 1, None);
    }
}

fn set_current(prop: &str, seed: u64, c: &Case) {
    unsafe { CURRENT = Some((prop.to_string(), seed, c.to_line(), false)) }
}

fn seed_of(prop: &str, seed: u64) -> u64 {
    prop.bytes().fold(seed.wrapping_mul(0x9E37_79B9), |a, b| a.wrapping_mul(31).wrapping_add(b as u64))
}

/// The kernel frees the memory of finished threads lazily: wait for it rather than
/// exhausting the machine (only the pace of the campaign depends on this).
fn throttle() {
    for _ in 0..100 {
        let s = std::fs::read_to_string("/proc/meminfo").unwrap_or_default();
        let get = |k: &str| {
            s.lines()
                .find(|l| l.starts_with(k))
                .and_then(|l| l.split_whitespace().nth(1)?.parse::<u64>().ok())
        };
        match (get("MemTotal:"), get("MemAvailable:")) {
            (Some(t), Some(a)) if a < t / 10 * 7 => std::thread::sleep(std::time::Duration::from_millis(20)),
            _ => return,
        }
    }
}

/// campaign PROP START STRIDE SECONDS MAXRUNS PROGRESSFILE
fn campaign(a: &[String]) {
    let prop = a[0].as_str();
    let start: u64 = a[1].parse().unwrap();
    let stride: u64 = a[2].parse().unwrap();
    let secs: f64 = a[3].parse().unwrap();
    let max: u64 = a[4].parse().unwrap();
    let prog = std::fs::File::create(&a[5]).unwrap();
    let trace = std::env::var("HARNESS_TRACE").is_ok();
    let heavy: u64 = std::env::var("HARNESS_HEAVY").ok().and_then(|x| x.parse().ok()).unwrap_or(0);
    use std::os::unix::fs::FileExt;
    let t0 = Instant::now();
    let mut tot = simrt::Report::default();
    let (mut runs, mut nontrivial, mut interrupted, mut panicked, mut infeasible, mut starts) = (0u64, 0u64, 0u64, 0u64, 0u64, 0u64);
    let mut inter: std::collections::HashSet<u64> = Default::default();
    let mut cases: std::collections::HashSet<u64> = Default::default();
    let mut strategies = [0u64; 5];
    let mut seed = start;
    let mut found = false;
    let mut samples = 0;
    while runs < max && (runs % 16 != 0 || t0.elapsed().as_secs_f64() < secs) {
        if runs % 64 == 0 {
            throttle();
        }
        let c = props::gen(prop, seed);
        let _ = prog.write_all_at(&seed.to_le_bytes(), 0);
        set_current(prop, seed_of(prop, seed), &c);
        let (v, rep, f) = props::run(prop, &c, seed_of(prop, seed), None);
        runs += 1;
        if heavy > 0 && rep.sync_steps > heavy {
            out(format!("H\t{}\t{}\t{}", rep.sync_steps, seed, c.to_line()));
        }
        if trace {
            out(format!("T\t{}\t{:016x}\t{}\t{}\t{:?}", seed, rep.hash, rep.steps, rep.sim_ns, v));
        }
        nontrivial += f.nontrivial as u64;
        interrupted += f.interrupted as u64;
        panicked += f.panicked as u64;
        infeasible += f.infeasible as u64;
        starts += f.starts;
        strategies[c.strategy as usize % 5] += 1;
        if f.nontrivial && inter.len() < 4_000_000 {
            inter.insert(rep.sync_hash);
        }
        if f.nontrivial && samples < 2 && runs > 3 {
            samples += 1;
            out(format!(
                "E\t{}\t{}\t{}\t{}\t{}\t{}\t{:016x}",
                seed, c.to_line(), rep.steps, rep.switches, rep.threads, rep.sim_ns, rep.hash
            ));
        }
        if cases.len() < 4_000_000 {
            cases.insert(c.model_seed as u64 ^ (c.n as u64) << 56);
        }
        tot.steps += rep.steps;
        tot.sync_steps = tot.sync_steps.max(rep.sync_steps);
        tot.switches += rep.switches;
        tot.choices += rep.choices;
        tot.sim_ns += rep.sim_ns;
        tot.edges += rep.edges;
        tot.threads += rep.threads;
        for i in 0..tot.kinds.len() {
            tot.kinds[i] += rep.kinds[i];
        }
        for i in 0..tot.faults.len() {
            tot.faults[i] += rep.faults[i];
        }
        if let Some(m) = v {
            violation(prop, seed_of(prop, seed), &c.to_line(), &m, &rep);
            found = true;
            if std::env::var("HARNESS_KEEP_GOING").is_err() {
                break;
            }
        }
        seed += stride;
    }
    let (cov, covn) = simrt::coverage();
    let mut s = format!(
        "S\truns={} maxsync={} next={} nontrivial={} interrupted={} panicked={} infeasible={} starts={} steps={} switches={} choices={} sim_ns={} edges={} threads={} interleavings={} models={} cov={} covn={} seconds={:.3}",
        runs, tot.sync_steps, seed, nontrivial, interrupted, panicked, infeasible, starts, tot.steps, tot.switches, tot.choices, tot.sim_ns,
        tot.edges, tot.threads, inter.len(), cases.len(), cov, covn, t0.elapsed().as_secs_f64()
    );
    for (i, k) in simrt::KINDS.iter().enumerate() {
        s.push_str(&format!(" kind.{}={}", k, tot.kinds[i]));
    }
    for (i, k) in simrt::FAULTS.iter().enumerate() {
        s.push_str(&format!(" fault.{}={}", k, tot.faults[i]));
    }
    for (i, k) in strategies.iter().enumerate() {
        s.push_str(&format!(" strategy.{}={}", i, k));
    }
    out(s);
    if let Ok(p) = std::env::var("HARNESS_HASHES") {
        let b: Vec<u8> = inter.iter().flat_map(|x| x.to_le_bytes()).collect();
        let _ = std::fs::write(p, b);
    }
    std::process::exit(found as i32);
}

pub struct ReplayFile {
    pub prop: String,
    pub seed: u64,
    pub case: Case,
    pub devs: Vec<(u64, u32)>,
    pub expect: String,
    pub hash: String,
}
impl ReplayFile {
    pub fn read(p: &str) -> ReplayFile {
        let s = std::fs::read_to_string(p).expect("replay file");
        let get = |k: &str| {
            s.lines()
                .find_map(|l| l.strip_prefix(k).and_then(|x| x.strip_prefix(' ')))
                .unwrap_or("")
                .trim()
                .to_string()
        };
        ReplayFile {
            prop: get("property"),
            seed: get("simseed").parse().unwrap_or(1),
            case: Case::from_line(&get("case")),
            devs: get("choices")
                .split_whitespace()
                .filter_map(|x| {
                    let (a, b) = x.split_once(':')?;
                    Some((a.parse().ok()?, b.parse().ok()?))
                })
                .collect(),
            expect: get("violation"),
            hash: get("hash"),
        }
    }
    pub fn write(&self, p: &str) {
        let s = format!(
            "vsim-replay 1\nengine harness\nproperty {}\nsimseed {}\ncase {}\nchoices {}\nhash {}\nviolation {}\n",
            self.prop,
            self.seed,
            self.case.to_line(),
            devs(&self.devs),
            self.hash,
            self.expect
        );
        std::fs::write(p, s).expect("write replay file");
    }
}

fn replay(a: &[String]) {
    let f = ReplayFile::read(&a[0]);
    set_current(&f.prop, f.seed, &f.case);
    let (v, rep, _) = props::run(&f.prop, &f.case, f.seed, Some(f.devs.clone()));
    match v {
        Some(m) => {
            violation(&f.prop, f.seed, &f.case.to_line(), &m, &rep);
            std::process::exit(1)
        }
        None => {
            out(format!("OK\t{:016x}", rep.hash));
            std::process::exit(0)
        }
    }
}

/// search PROP K CASE... : looks for a violation of one case under K simulator seeds
fn search(a: &[String]) {
    let prop = a[0].as_str();
    let k: u64 = a[1].parse().unwrap();
    let base: u64 = a[2].parse().unwrap();
    let c = Case::from_line(&a[3..].join(" "));
    for i in 0..k {
        let s = base.wrapping_add(i.wrapping_mul(7919));
        set_current(prop, s, &c);
        let (v, rep, _) = props::run(prop, &c, s, None);
        if let Some(m) = v {
            violation(prop, s, &c.to_line(), &m, &rep);
            std::process::exit(1);
        }
    }
    std::process::exit(0);
}

fn main() {
    let a: Vec<String> = std::env::args().skip(1).collect();
    if let Ok(c) = std::env::var("HARNESS_CPU") {
        simrt::pin(c.parse().unwrap_or(0));
    }
    match a.first().map(|s| s.as_str()) {
        Some("campaign") => {
            setup();
            warm_up();
            campaign(&a[1..])
        }
        Some("replay") => {
            setup();
            warm_up();
            replay(&a[1..])
        }
        Some("search") => {
            setup();
            warm_up();
            search(&a[1..])
        }
        Some("union") => {
            let mut v: Vec<u64> = vec![];
            for p in &a[1..] {
                let b = std::fs::read(p).unwrap_or_default();
                v.extend(b.chunks_exact(8).map(|c| u64::from_le_bytes(c.try_into().unwrap())));
            }
            v.sort_unstable();
            v.dedup();
            println!("{}", v.len());
        }
        Some("minimise") => shrink::minimise(&a[1..]),
        Some("gen") => {
            println!("{}", props::gen(&a[1], a[2].parse().unwrap()).to_line())
        }
        _ => {
            eprintln!("usage: harness campaign|replay|search|minimise|gen ...");
            std::process::exit(2)
        }
    }
}
