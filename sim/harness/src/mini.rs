//! A user of the decision diagram API: a small branch and bound, written in the
//! harness, whose concurrent workers compile the real diagrams (`All`,
//! `Barrier`). Because the harness owns the loop it sees every bound, every open
//! node and every published threshold, and checks them against the exact
//! oracle as the execution proceeds.
use crate::case::Case;
use crate::model::{Model, State};
use crate::obs;
use engineering::*;
use parking_lot::{Condvar, Mutex, RwLock};
use rustc_hash::FxHashMap;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::Arc;

type Maps = Arc<Vec<RwLock<FxHashMap<Arc<State>, BarrierInfo>>>>;

struct Crit {
    open: Vec<SubProblem<State>>,
    ongoing: Vec<Option<SubProblem<State>>>,
    best_lb: isize,
    best_sol: Option<Vec<Decision>>,
    done: u64,
    /// the thresholds as last seen
    seen: std::collections::BTreeMap<State, isize>,
}

trait Dd: DecisionDiagram<State = State> {
    fn explored(&self) -> usize;
}
impl Dd for All<State> {
    fn explored(&self) -> usize {
        self.get_explored()
    }
}
impl Dd for Barrier<State> {
    fn explored(&self) -> usize {
        self.get_explored()
    }
}

fn err(kind: &str, m: String) {
    obs::obs(|o| {
        if o.errors.len() < 20 {
            o.errors.push(format!("{}: {}", kind, m))
        }
    })
}

fn true_value(model: &Model, n: &SubProblem<State>) -> isize {
    match model.completion(&n.state) {
        Some(x) => n.value.saturating_add(x),
        None => isize::MIN,
    }
}

/// No open or running node, and no incumbent, can still lead to the optimum ?
fn covered(model: &Model, crit: &Crit) -> isize {
    let a = crit.open.iter().map(|n| true_value(model, n)).max().unwrap_or(isize::MIN);
    let b = crit.ongoing.iter().flatten().map(|n| true_value(model, n)).max().unwrap_or(isize::MIN);
    a.max(b).max(crit.best_lb)
}

fn check_cover(model: &Model, crit: &Crit, when: &str) {
    if let Some(opt) = model.opt() {
        let c = covered(model, crit);
        if c < opt {
            err(
                "coverage",
                format!("{}: the best value still reachable is {} while the optimum is {}", when, c, opt),
            );
        }
    }
}

fn check_thresholds(model: &Model, crit: &mut Crit, maps: &Maps) {
    let c = covered(model, crit);
    for (depth, m) in maps.iter().enumerate() {
        // (a worker may have been preempted while it holds that lock)
        let Some(m) = m.try_read() else { continue };
        for (s, info) in m.iter() {
            if s.depth as usize != depth {
                err("threshold", format!("a state of depth {} is published at depth {}", s.depth, depth));
                continue;
            }
            if s.single().is_none() {
                err("threshold", format!("a threshold is published for the relaxed state {:?}", s));
                continue;
            }
            let e = crit.seen.entry((**s).clone()).or_insert(info.theta);
            if info.theta < *e {
                err("threshold", format!("the threshold of {:?} went from {} down to {}", s, e, info.theta));
            }
            *e = info.theta;
            if let Some(x) = model.completion(s) {
                // a node of that state and value <= theta is discarded: fine
                // only if something at least as good is still reachable
                let v = info.theta.saturating_add(x);
                // values above the best path to the state never occur
                let v = match model.prefix(s) {
                    Some(b) => v.min(b.saturating_add(x)),
                    None => continue,
                };
                if v > c {
                    err(
                        "threshold",
                        format!(
                            "threshold {} (explored: {}) of {:?} discards solutions of value {} while the best reachable one is {}",
                            info.theta, info.explored, s, v, c
                        ),
                    );
                }
            }
        }
    }
}

#[allow(clippy::too_many_arguments)]
fn process<D: Dd>(
    dd: &mut D,
    c: &Case,
    model: &Model,
    crit: &Mutex<Crit>,
    node: SubProblem<State>,
    rng: &mut simrt::Rng,
    fresh: bool,
) -> (Vec<SubProblem<State>>, bool) {
    let best = true_value(model, &node);
    let root_depth = node.path.len();
    let width = 1 + rng.below(c.width.max(1) as u64) as usize;
    let lb0 = crit.lock().best_lb;
    if node.ub <= lb0 {
        return (vec![], true);
    }
    let first = match rng.below(12) {
        0 => Some(CompilationType::Exact),
        1..=3 => None,
        _ => Some(CompilationType::Restricted),
    };
    let mut input = CompilationInput {
        comp_type: first.unwrap_or(CompilationType::Relaxed),
        max_width: width,
        problem: model,
        relaxation: model,
        ranking: model,
        residual: node,
        best_lb: lb0,
    };
    let publish = |dd: &D, lb: isize| {
        let v = dd.best_value();
        let s = dd.best_solution();
        if v.is_some() != s.is_some() {
            err("solution", format!("the diagram has value {:?} and solution {:?}", v, s));
        }
        if let (Some(v), Some(s)) = (v, s) {
            match model.solution_value(&s) {
                Err(e) => err("solution", format!("infeasible solution out of an exact or restricted diagram: {}", e)),
                Ok(x) if x != v => err("solution", format!("the solution is worth {} instead of {}", x, v)),
                _ => {}
            }
            if v > best {
                err("bound", format!("a feasible value {} exceeds the optimum {} of the subproblem", v, best));
            }
            let _ = lb;
            let mut k = crit.lock();
            if v > k.best_lb {
                k.best_lb = v;
                k.best_sol = Some(s);
            }
        }
    };
    if let Some(first) = first {
        let before = obs::obs(|o| o.cb_count[1]);
        dd.compile(&input);
        let after = obs::obs(|o| o.cb_count[1]);
        if c.threads == 1 && (after - before) as usize != dd.explored() {
            err("statistics", format!("{} nodes were expanded, {} are reported", after - before, dd.explored()));
        }
        publish(dd, lb0);
        if dd.is_exact() {
            if fresh && best > lb0 && dd.best_value() != Some(best) {
                err(
                    "exactness",
                    format!("an exact {:?} diagram is worth {:?} instead of {}", first, dd.best_value(), best),
                );
            }
            return (vec![], true);
        } else if first == CompilationType::Exact {
            err("exactness", "an exact compilation yields an inexact diagram".into());
        }
        if rng.chance(1, 3) {
            input.max_width = 1 + rng.below(c.width.max(1) as u64) as usize;
        }
    }
    // (any bound that some solution reaches will do)
    let lb1 = match (crit.lock().best_lb, rng.below(16)) {
        (_, 0) => isize::MIN,
        (lb, 1) if lb != isize::MIN => lb - rng.below((c.cost_hi - c.cost_lo + 2) as u64) as isize * c.scale as isize,
        (lb, _) => lb,
    };
    input.comp_type = CompilationType::Relaxed;
    input.best_lb = lb1;
    dd.compile(&input);
    let rbest = dd.best_value();
    if fresh && best > lb1 && rbest.map_or(true, |x| x < best) {
        err("bound", format!("a relaxed diagram is worth {:?} while the subproblem is worth {}", rbest, best));
    }
    if dd.is_exact() {
        publish(dd, lb1);
        if fresh && best > lb1 && rbest != Some(best) {
            err("exactness", format!("a relaxed diagram said exact is worth {:?} instead of {}", rbest, best));
        }
        return (vec![], true);
    }
    let ub = input.residual.ub;
    let mut cut: Vec<SubProblem<State>> = vec![];
    dd.drain_cutset(|n| cut.push(n));
    for n in cut.iter_mut() {
        match model.replay(&n.path) {
            Err(e) => err("open-node", format!("infeasible path: {}", e)),
            Ok((s, v)) => {
                if s != *n.state {
                    err("open-node", format!("the path leads to {:?} instead of {:?}", s, n.state));
                    continue;
                }
                if v != n.value {
                    err("open-node", format!("the path is worth {} instead of {}", v, n.value));
                }
                if n.path.len() <= root_depth {
                    err("open-node", "a cutset node is not deeper than the root of its diagram".into());
                }
                let t = true_value(model, n);
                if fresh && t > lb1 && n.ub < t {
                    err("bound", format!("the bound of an open node is {} while it leads to {} (lb {})", n.ub, t, lb1));
                }
            }
        }
        n.ub = n.ub.min(ub);
    }
    if fresh && best > lb1 {
        let t = cut.iter().filter(|n| n.state.single().is_some()).map(|n| true_value(model, n)).max();
        if t.map_or(true, |t| t < best) {
            err(
                "coverage",
                format!("the cutset leads to {:?} at best while the subproblem is worth {} (lb {})", t, best, lb1),
            );
        }
        if !model.dynamic() && model.n <= 12 {
            let in_cut = |s: &State| cut.iter().any(|n| *n.state == *s);
            let out = model.avoiding(&input.residual.state, &in_cut, &mut Default::default());
            if let Some(x) = out.map(|x| input.residual.value.saturating_add(x)).filter(|x| *x > lb1) {
                err("coverage", format!("a solution of value {} goes through no node of the cutset (lb {})", x, lb1));
            }
        }
    }
    (cut, false)
}

fn worker<D: Dd>(
    mut dd: D,
    t: usize,
    c: &Case,
    model: &Model,
    crit: &Mutex<Crit>,
    mon: &Condvar,
    maps: &Option<Maps>,
) {
    let mut rng = simrt::Rng::new(c.model_seed as u64 ^ (t as u64 + 11) << 33);
    // sometimes the barriers are forgotten, so that all solutions must be accounted for
    let own = empty_maps(model);
    let cs = if c.cutset == 0 { CutsetType::LastExactLayer } else { CutsetType::Frontier };
    let mut probe = Barrier::<State>::new(own.clone(), cs);
    loop {
        let node;
        {
            let mut k = crit.lock();
            if k.open.is_empty() && k.ongoing.iter().all(|x| x.is_none()) {
                mon.notify_all();
                return;
            }
            if k.open.is_empty() {
                mon.wait(&mut k);
                continue;
            }
            // best bound first most of the time, but any order is legitimate
            let i = if rng.chance(1, 4) {
                rng.below(k.open.len() as u64) as usize
            } else {
                (0..k.open.len()).max_by_key(|i| k.open[*i].ub).unwrap()
            };
            let n = k.open.swap_remove(i);
            if n.ub <= k.best_lb {
                simrt::mask(|| check_cover(model, &k, "after a node was discarded by its bound"));
                continue;
            }
            if let Some(m) = maps {
                let d = n.path.len();
                let ok = m[d]
                    .read()
                    .get(&n.state)
                    .map_or(true, |i| n.value > i.theta || (n.value == i.theta && !i.explored));
                if !ok {
                    simrt::mask(|| check_cover(model, &k, "after a node was discarded by a threshold"));
                    continue;
                }
                let mut w = m[d].write();
                let e = w.entry(n.state.clone()).or_insert(BarrierInfo { theta: n.value, explored: true });
                if n.value >= e.theta {
                    *e = BarrierInfo { theta: n.value, explored: true };
                }
            }
            k.ongoing[t] = Some(n.clone());
            node = n;
        }
        let (cut, _) = if maps.is_some() && rng.chance(1, 5) {
            own.iter().for_each(|m| m.write().clear());
            process(&mut probe, c, model, crit, node, &mut rng, true)
        } else {
            process(&mut dd, c, model, crit, node, &mut rng, maps.is_none())
        };
        let mut k = crit.lock();
        let lb = k.best_lb;
        for n in cut {
            if n.ub > lb {
                k.open.push(n);
            }
        }
        k.ongoing[t] = None;
        k.done += 1;
        simrt::mask(|| check_cover(model, &k, "after a node was processed"));
        if let Some(m) = maps {
            simrt::mask(|| check_thresholds(model, &mut k, m));
        }
        mon.notify_all();
    }
}

fn empty_maps(model: &Model) -> Maps {
    let mut v = vec![];
    for _ in 0..=model.n {
        v.push(RwLock::new(Default::default()));
    }
    Arc::new(v)
}

pub fn session(c: &Case, model: &Model) -> Vec<String> {
    obs::reset(c);
    let cs = if c.cutset == 0 { CutsetType::LastExactLayer } else { CutsetType::Frontier };
    let maps: Option<Maps> = (c.solver == 2).then(|| empty_maps(model));
    let t = c.threads.max(1) as usize;
    let root = SubProblem {
        state: Arc::new(model.initial_state()),
        value: model.initial_value(),
        path: vec![],
        ub: isize::MAX,
    };
    let crit = Mutex::new(Crit {
        open: vec![root],
        ongoing: vec![None; t],
        best_lb: isize::MIN,
        best_sol: None,
        done: 0,
        seen: Default::default(),
    });
    let mon = Condvar::new();
    let r = catch_unwind(AssertUnwindSafe(|| {
        std::thread::scope(|s| {
            for i in 0..t {
                let (crit, mon, maps) = (&crit, &mon, &maps);
                s.spawn(move || {
                    let r = catch_unwind(AssertUnwindSafe(|| match maps {
                        Some(m) => worker(Barrier::<State>::new(m.clone(), cs), i, c, model, crit, mon, maps),
                        None => worker(All::<State>::new(cs), i, c, model, crit, mon, maps),
                    }));
                    if r.is_err() {
                        let mut k = crit.lock();
                        k.ongoing[i] = None;
                        k.open.clear();
                        err("panic", obs::obs(|o| o.panics.join(" // ")));
                        mon.notify_all();
                    }
                });
            }
        });
        let k = crit.lock();
        let best = (k.best_lb != isize::MIN).then_some(k.best_lb);
        if best != model.opt() {
            err("coverage", format!("the search ends with {:?} while the optimum is {:?}", best, model.opt()));
        }
    }));
    let mut o = obs::take();
    if r.is_err() {
        o.errors.insert(0, format!("panic: {}", o.panics.join(" // ")));
    }
    o.errors
}
