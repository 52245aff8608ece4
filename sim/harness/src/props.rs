//! The properties: which executions are generated for each of them and how an
//! execution is judged.
use crate::case::*;
use crate::drive::{self, Out, Round};
use crate::mini;
use crate::model::Model;
use crate::obs;
use simrt::{Report, Rng};

pub const PROPS: &[&str] = &[
    "C01", "C02", "C03", "C04", "C05", "C06", "C07", "C08", "C09", "C10", "C11", "C12", "C13", "C20", "C21",
];

pub fn gen(prop: &str, seed: u64) -> Case {
    let tag = prop.bytes().fold(0u64, |a, b| a * 131 + b as u64);
    let mut rng = Rng::new(seed.wrapping_mul(0x2545_F491_4F6C_DD1D) ^ tag);
    let r = &mut rng;
    let mut c = gen_model(r);
    gen_sim(&mut c, r);
    match prop {
        // optimality
        "C01" | "C02" => {
            c.solver = if prop == "C02" { 2 } else { r.below(2) as i64 };
            c.mode = if r.chance(1, 3) { 1 } else { 0 };
            gen_ctor(&mut c, r);
            if r.chance(1, 2000) {
                // (the largest diagrams)
                c.n = 160;
                c.b = 500;
                c.d = 3;
                c.width = 500;
                c.width_kind = 0;
                (c.est, c.potential, c.lattice, c.dynm, c.forbid, c.scale) = (0, 0, 0, 0, 0, 1);
                c.threads = c.threads.min(3);
            }
        }
        // anytime solutions
        "C03" => {
            gen_mode(&mut c, r, true);
            if r.chance(1, 6) {
                c.spawn_fail = 150_000;
            }
            if r.chance(1, 4) {
                c.rounds = 2;
            }
            if r.chance(1, 4) {
                c.resume = 1 + r.below(2) as i64;
            }
        }
        // termination
        "C04" => {
            c.threads = if r.chance(1, 60) { 11 + r.below(60) } else { r.below(11) } as i64;
            if r.chance(1, 3) {
                c.spawn_fail = 250_000;
            }
            if r.chance(1, 3) {
                c.strategy = 3;
            }
            gen_mode(&mut c, r, true);
            gen_ctor(&mut c, r);
            if r.chance(1, 8) {
                c.resume = 1 + r.below(2) as i64;
                if r.chance(1, 3) {
                    c.rethread = 1 + r.below(8) as i64;
                }
            }
        }
        // bounds of an interrupted resolution
        "C05" => gen_mode(&mut c, r, false),
        // promptness
        "C06" => {
            gen_mode(&mut c, r, false);
            if c.mode == 4 {
                c.mode = 5;
            }
        }
        // resuming
        "C07" => {
            gen_mode(&mut c, r, false);
            c.rounds = 1 + r.below(3) as i64;
            c.resume = 1 + r.below(2) as i64;
            if r.chance(1, 6) {
                c.rethread = 1 + r.below(8) as i64;
            }
        }
        // panics
        "C08" => {
            c.panic_cb = 1 + r.below(10) as i64;
            c.panic_at = 1 + if r.chance(1, 2) { r.below(6) } else { r.below(60) } as i64;
            c.mode = r.below(2) as i64;
            if r.chance(1, 8) {
                // in the middle of an update of the frontier, which others are waiting for
                c.panic_cb = 8;
                c.panic_at = 1 + r.below(400) as i64;
                c.threads = c.threads.max(2 + r.below(4) as i64);
                if r.chance(1, 2) {
                    c.edge_gap = [3, 20, 100][r.below(3) as usize];
                }
            }
            if c.panic_cb == 10 {
                c.mode = 1;
            }
            if r.chance(1, 3) {
                c.resume = 1 + r.below(2) as i64;
            }
        }
        // diagrams
        "C09" | "C13" => {
            c.solver = if prop == "C13" || r.chance(1, 2) { 2 } else { 0 };
            c.threads = 1 + r.below(4) as i64;
        }
        // frontier
        "C10" => {
            c.solver = r.below(2) as i64;
            if r.chance(1, 2) {
                c.ops = if r.chance(1, 20) { 300 } else { 5 + r.below(60) as i64 };
                c.threads = 1 + r.below(4) as i64;
                c.b = c.b.max(2);
                c.n = c.n.min(40);
            } else {
                gen_mode(&mut c, r, true);
                if r.chance(1, 4) {
                    c.resume = 1;
                }
            }
        }
        // no re-exploration
        "C11" => {
            c.n = c.n.min(30); // (the oracle enumerates the values of the paths)
            c.solver = 2;
            if r.chance(2, 3) && c.dynm == 0 {
                c.potential = 1;
                c.lattice = 0;
            }
            c.n = c.n.max(4);
            c.width = 1 + r.below(3) as i64;
            c.mode = 1;
            if c.est == 1 && c.n <= 12 {
                c.est = 0;
            }
        }
        // statistics, widths
        "C12" => {
            gen_mode(&mut c, r, true);
            if r.chance(1, 4) {
                c.resume = 1 + r.below(2) as i64;
            }
        }
        // the arguments of the callbacks
        "C20" => {
            c.shift = 1 + r.below(3) as i64;
            match r.below(4) {
                0 => {
                    c.ops = 1; // (diagrams)
                    c.threads = 1 + r.below(4) as i64;
                }
                1 => gen_mode(&mut c, r, true),
                _ => c.mode = r.below(2) as i64,
            }
        }
        // independent resolutions
        "C21" => {
            c.twin = 1 + r.below(60_000) as i64;
            c.twin_kind = r.below(3) as i64;
            c.threads = 1 + r.below(3) as i64;
            c.n = c.n.min(20);
            if c.twin_kind == 2 {
                c.solver = r.below(2) as i64;
                if r.chance(1, 3) {
                    c.panic_cb = 1 + r.below(9) as i64;
                    c.panic_at = 1 + r.below(60) as i64;
                }
            }
            if r.chance(2, 3) {
                c.mode = 2;
                c.int_k = 1 + r.below(12) as i64;
            }
        }
        _ => panic!("unknown property {}", prop),
    }
    // (the number of partial assignments bounds the length of the search)
    while c.n <= 12 && (c.d as u64).pow(c.n as u32) > 4100 {
        c.n -= 1;
    }
    while c.dynm != 0 && (c.d as u64 + 1).pow(c.n as u32) > 5000 {
        c.n -= 1;
    }
    c
}

fn gen_mode(c: &mut Case, r: &mut Rng, any: bool) {
    c.mode = match r.below(if any { 10 } else { 8 }) {
        0..=2 => 2,
        3..=4 => 5,
        5 => 3,
        6 => 4,
        7 => 6,
        8 => 1,
        _ => 0,
    };
    c.int_k = match c.mode {
        2 | 6 => 1 + if r.chance(1, 2) { r.below(8) } else { r.below(60) } as i64,
        3 => r.below(400) as i64 * c.tick.max(1),
        4 => r.below(60) as i64,
        5 => r.below(120) as i64,
        _ => 0,
    };
    // interruptions are interesting on problems that need a real search
    if c.mode >= 2 && c.n <= 12 {
        if r.chance(2, 3) {
            c.n = c.n.max(4);
            c.b = c.b.max(3);
            c.d = c.d.max(2);
            c.width = 1 + r.below(2) as i64;
        }
        if r.chance(1, 2) {
            c.est = 0;
        }
    }
}

/* ------------------------------------------------------------- judgement --- */

fn ok_or_panic(r: &Round) -> Result<bool, String> {
    // Err: unexpected panic; Ok(false): the call legitimately failed to spawn
    match &r.panic {
        None => Ok(true),
        Some(_) if r.spawn_failures > 0 => Ok(false),
        Some(_) if r.injected => Ok(false),
        Some(p) => Err(format!("panic: {}", p)),
    }
}

fn solution(r: &Round, m: &Model) -> Result<(), String> {
    match (&r.best_value, &r.best_solution) {
        (None, None) => {
            if r.lb != isize::MIN {
                return Err(format!("solution: lower bound {} without any solution", r.lb));
            }
        }
        (Some(v), Some(s)) => {
            let x = m.solution_value(s).map_err(|e| format!("solution: infeasible: {}", e))?;
            if x != *v {
                return Err(format!("solution: it is worth {} but {} is reported", x, v));
            }
            if r.lb != *v {
                return Err(format!("solution: lower bound {} but best value {}", r.lb, v));
            }
            if m.opt().map_or(true, |o| *v > o) {
                return Err(format!("solution: value {} above the optimum {:?}", v, m.opt()));
            }
        }
        (v, s) => return Err(format!("solution: value {:?} with solution {:?}", v, s)),
    }
    Ok(())
}

fn optimal(r: &Round, m: &Model) -> Result<(), String> {
    if r.proved == Some(false) {
        return Err("status: interrupted although nobody asked for it".into());
    }
    if r.best_value != m.opt() {
        return Err(format!("optimum: {:?} instead of {:?}", r.best_value, m.opt()));
    }
    solution(r, m)?;
    let o = m.opt().unwrap_or(isize::MIN);
    if r.lb != o || r.ub != o {
        return Err(format!("bounds: [{}, {}] once the optimum {:?} is proved", r.lb, r.ub, m.opt()));
    }
    Ok(())
}

fn bracket(r: &Round, m: &Model) -> Result<(), String> {
    let o = m.opt();
    match r.best_value {
        Some(v) if v != r.lb => return Err(format!("bounds: lower bound {} but best value {}", r.lb, v)),
        None if r.lb != isize::MIN => return Err(format!("bounds: lower bound {} without solution", r.lb)),
        _ => {}
    }
    if let Some(o) = o {
        if r.lb > o {
            return Err(format!("bounds: lower bound {} above the optimum {}", r.lb, o));
        }
        if r.ub < o {
            return Err(format!("bounds: upper bound {} below the optimum {} (lb {})", r.ub, o, r.lb));
        }
    } else if r.lb != isize::MIN {
        return Err(format!("bounds: lower bound {} of an infeasible problem", r.lb));
    }
    if r.ub < r.lb {
        return Err(format!("bounds: upper bound {} below the lower bound {}", r.ub, r.lb));
    }
    Ok(())
}

fn bounds(r: &Round, m: &Model) -> Result<(), String> {
    bracket(r, m)?;
    let o = m.opt();
    if r.proved == Some(true) {
        if r.best_value != o {
            return Err(format!("status: proved with {:?} while the optimum is {:?}", r.best_value, o));
        }
        if r.lb != r.ub {
            return Err(format!("status: proved with bounds [{}, {}]", r.lb, r.ub));
        }
    }
    if r.proved == Some(false) && r.first_true.is_none() {
        return Err("status: interrupted although the callback never said so".into());
    }
    if r.interruptible && r.first_true.is_none() && r.proved != Some(true) {
        return Err("status: not proved although never interrupted".into());
    }
    Ok(())
}

/// Once the root has been split, no open node is bounded by more than the value of a
/// longest path, and neither is the problem.
fn tight(r: &Round, m: &Model) -> Result<(), String> {
    let (Some((_, when)), Some(cost), Some(false)) = (r.first_true, r.cost_max, r.proved) else { return Ok(()) };
    let Some(root) = r.starts.iter().find(|s| s.state.depth == 0) else { return Ok(()) };
    if r.starts.iter().any(|s| s.tid == root.tid && s.state.depth > 0 && s.step <= when) {
        let most = m.init as i128 + m.n as i128 * cost.max(0) as i128;
        if r.ub as i128 > most.max(r.lb as i128) {
            return Err(format!("bounds: upper bound {} although no path is longer than {} (lb {})", r.ub, most, r.lb));
        }
    }
    Ok(())
}

fn prompt(r: &Round, c: &Case) -> Result<(), String> {
    if let Some((tid, _)) = r.first_true {
        let after: Vec<_> = r.starts.iter().filter(|s| s.after_true).collect();
        // a worker that took a subproblem before may still start its diagrams,
        // once; the worker that polled has nothing left
        for s in &after {
            if s.tid == tid && c.mode != 6 {
                return Err(format!(
                    "promptness: the worker that saw the interruption started {:?} afterwards",
                    s.state
                ));
            }
            if after.iter().filter(|x| x.tid == s.tid).count() > 1 {
                return Err("promptness: a worker started several subproblems after the interruption".into());
            }
        }
        if after.len() > (c.threads.max(1) - 1) as usize {
            return Err(format!(
                "promptness: {} subproblems started after the interruption with {} workers",
                after.len(),
                c.threads
            ));
        }
        if r.proved == Some(true) && r.lb != r.ub {
            return Err("status: proved after an interruption with open bounds".into());
        }
    } else if r.proved == Some(false) {
        return Err("status: interrupted although the callback never said so".into());
    }
    // the callback is consulted before each subproblem
    if r.interruptible && (r.starts.len() as u64) > r.polls {
        return Err(format!("promptness: {} subproblems started but only {} polls", r.starts.len(), r.polls));
    }
    Ok(())
}

fn stats(out: &Out, c: &Case) -> Result<(), String> {
    let mut started = 0;
    let mut polled = true;
    for r in &out.rounds {
        if !ok_or_panic(r)? {
            return Ok(());
        }
        started += r.starts.len();
        // (a subproblem following another one of the same state is only seen if the
        // callback is consulted in between)
        polled &= r.interruptible;
        if r.explored_dd as u64 != r.expansions {
            return Err(format!(
                "statistics: {} nodes of diagrams expanded, {} reported",
                r.expansions, r.explored_dd
            ));
        }
        if r.explored < started {
            return Err(format!("statistics: {} subproblems processed, {} reported", started, r.explored));
        }
        if c.threads == 1 && polled && r.explored != started {
            return Err(format!(
                "statistics: one worker processed {} subproblems, {} reported",
                started, r.explored
            ));
        }
    }
    Ok(())
}

fn no_reexploration(out: &Out, m: &Model) -> Result<(), String> {
    let d = m.distinct_path_values();
    let mut cnt = std::collections::BTreeMap::new();
    for r in &out.rounds {
        if !ok_or_panic(r)? {
            return Ok(());
        }
        for s in &r.starts {
            *cnt.entry(s.state.clone()).or_insert(0usize) += 1;
        }
    }
    for (s, k) in cnt {
        if s.single().is_none() {
            return Err(format!("re-exploration: a relaxed state is explored: {:?}", s));
        }
        let max = d.get(&s).copied().unwrap_or(0);
        if k > max {
            return Err(format!(
                "re-exploration: {:?} is explored {} times although its paths only have {} distinct values",
                s, k, max
            ));
        }
    }
    Ok(())
}

fn judge_solver(prop: &str, c: &Case, m: &Model, out: &Out) -> Result<(), String> {
    let last = out.rounds.last().unwrap();
    match prop {
        "C01" | "C02" => {
            for r in &out.rounds {
                ok_or_panic(r)?;
                optimal(r, m)?;
            }
            if prop == "C01" {
                if let Some(e) = out.obs.errors.iter().find(|e| e.starts_with("open-node")) {
                    return Err(e.clone());
                }
            }
            Ok(())
        }
        "C03" => {
            for r in &out.rounds {
                ok_or_panic(r)?;
                solution(r, m)?;
                if r.panic.is_none() && (!r.interruptible || r.proved == Some(true)) && r.best_value != m.opt() {
                    return Err(format!("optimum: {:?} instead of {:?}", r.best_value, m.opt()));
                }
            }
            if let Some(e) = out.obs.errors.iter().find(|e| e.starts_with("solution")) {
                return Err(e.clone());
            }
            Ok(())
        }
        "C04" => {
            for r in &out.rounds {
                if !ok_or_panic(r)? {
                    return Ok(());
                }
                if r.first_true.is_none() && r.best_value != m.opt() {
                    return Err(format!("optimum: {:?} instead of {:?}", r.best_value, m.opt()));
                }
            }
            Ok(())
        }
        "C05" => {
            for r in &out.rounds {
                ok_or_panic(r)?;
                bounds(r, m)?;
                tight(r, m)?;
            }
            Ok(())
        }
        "C06" => {
            for r in &out.rounds {
                ok_or_panic(r)?;
                prompt(r, c)?;
            }
            Ok(())
        }
        "C07" => {
            for r in &out.rounds {
                ok_or_panic(r)?;
                solution(r, m)?;
            }
            let mut lb = isize::MIN;
            for r in &out.rounds {
                if r.lb < lb {
                    return Err(format!("resume: the lower bound went from {} down to {}", lb, r.lb));
                }
                lb = r.lb;
                bounds(r, m).map_err(|e| format!("resume (call {}): {}", r.round, e))?;
            }
            optimal(last, m).map_err(|e| format!("resume: {}", e))
        }
        "C08" => {
            let mut before = false;
            for r in &out.rounds {
                let now = r.panicked && !before;
                before |= r.panicked;
                if r.panic.is_some() && !now {
                    return Err(format!("panic: {}", r.panic.clone().unwrap()));
                }
                if now && r.panic.is_none() {
                    return Err("panic: swallowed: the call returned normally although a callback panicked".into());
                }
                if out.obs.panics.iter().any(|p| !p.contains("injected") && !p.starts_with("a scoped thread panicked")) {
                    return Err(format!("panic: {}", out.obs.panics.join(" // ")));
                }
                if now {
                    solution(r, m)?;
                    bracket(r, m)?;
                } else {
                    optimal(r, m).map_err(|e| if before { format!("after a panic: {}", e) } else { e })?;
                }
            }
            Ok(())
        }
        "C10" => {
            for r in &out.rounds {
                ok_or_panic(r)?;
            }
            match out.obs.errors.iter().find(|e| e.starts_with("frontier")) {
                Some(e) => Err(e.clone()),
                None => Ok(()),
            }
        }
        "C11" => no_reexploration(out, m),
        "C20" => {
            for r in &out.rounds {
                ok_or_panic(r)?;
            }
            match out.obs.errors.iter().find(|e| e.starts_with("contract")) {
                Some(e) => Err(e.clone()),
                None => Ok(()),
            }
        }
        "C12" => {
            stats(out, c)?;
            match &out.obs.width_excess {
                Some(e) => Err(format!("width: {}", e)),
                None => Ok(()),
            }
        }
        _ => unreachable!(),
    }
}

/// Facts about an execution, for the evidence.
#[derive(Default, Clone, Debug)]
pub struct Facts {
    pub nontrivial: bool,
    pub starts: u64,
    pub interrupted: bool,
    pub panicked: bool,
    pub infeasible: bool,
}

pub fn run(prop: &str, c: &Case, simseed: u64, replay: Option<Vec<(u64, u32)>>) -> (Option<String>, Report, Facts) {
    // (the minimiser may not leave the scope of the property)
    if matches!(prop, "C02" | "C11" | "C13") && c.solver != 2 || prop == "C01" && c.solver == 2 {
        return (None, Report::default(), Facts::default());
    }
    let cfg = sim_config(c, simseed, replay);
    let case = c.clone();
    let p = prop.to_string();
    let (res, rep) = simrt::run(cfg, move || {
        let model = Model::new(&case);
        let mut facts = Facts { infeasible: model.opt().is_none(), ..Default::default() };
        let v = match p.as_str() {
            "C21" => {
                let other = if case.twin_kind == 0 {
                    let mut c2 = case.clone();
                    c2.model_seed ^= case.twin << 8;
                    c2.n = 1 + (case.n + case.twin) % 6;
                    Model::new(&c2)
                } else {
                    Model::new(&Case::default())
                };
                let models = [model, other];
                let out = drive::twins(&case, &models);
                let seen = obs::take();
                facts.starts = seen.starts.len() as u64;
                facts.nontrivial = facts.starts > 2;
                facts.interrupted = out.iter().any(|r| r.1.first_true.is_some());
                facts.panicked = seen.panicked;
                out.iter().enumerate().find_map(|(i, (m, r))| {
                    let m = &models[*m];
                    let x = if r.injected {
                        solution(r, m)
                    } else {
                        ok_or_panic(r).and_then(|_| bounds(r, m)).and_then(|_| solution(r, m)).and_then(|_| {
                            if r.first_true.is_none() {
                                optimal(r, m)
                            } else {
                                Ok(())
                            }
                        })
                    };
                    x.err().map(|e| format!("resolution {} of two: {}", i + 1, e))
                })
            }
            "C09" | "C13" | "C20" if p != "C20" || case.ops > 0 => {
                let e = mini::session(&case, &model);
                facts.nontrivial = true;
                let want = |x: &&String| {
                    if p == "C20" {
                        x.starts_with("contract") || x.starts_with("panic")
                    } else if x.starts_with("contract") {
                        false
                    } else if p == "C13" {
                        x.starts_with("threshold") || x.starts_with("panic")
                    } else {
                        !x.starts_with("threshold") && !x.starts_with("statistics")
                    }
                };
                e.iter().find(want).cloned()
            }
            "C10" if case.ops > 0 => {
                facts.nontrivial = true;
                drive::frontier_session(&case, &model).into_iter().next()
            }
            _ => {
                let out = drive::solve(&case, &model);
                facts.starts = out.rounds.iter().map(|r| r.starts.len() as u64).sum();
                facts.nontrivial = facts.starts > 1;
                facts.interrupted = out.rounds.iter().any(|r| r.first_true.is_some());
                facts.panicked = out.obs.panicked;
                judge_solver(&p, &case, &model, &out).err()
            }
        };
        (v, facts)
    });
    (res.0, rep, res.1)
}
