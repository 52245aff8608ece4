//! Runs the real solvers of the repository inside the simulation.
use crate::case::Case;
use crate::model::{Model, State};
use crate::obs::{self, Cb, FrontierModel, Injected, Obs, RecordingFrontier};
use engineering::*;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicBool, Ordering::SeqCst};
use std::sync::Arc;
use std::time::{Duration, Instant};

#[derive(Debug, Clone, Default)]
pub struct Round {
    pub interruptible: bool,
    /// Some(true): proved, Some(false): interrupted
    pub proved: Option<bool>,
    /// the message of the panic the call ended with
    pub panic: Option<String>,
    pub injected: bool,
    /// a callback panicked during this call or a previous one
    pub panicked: bool,
    pub lb: isize,
    pub ub: isize,
    pub best_value: Option<isize>,
    pub best_solution: Option<Vec<Decision>>,
    pub explored: usize,
    pub explored_dd: usize,
    pub expansions: u64,
    pub polls: u64,
    pub poll_after_true: u64,
    pub first_true: Option<(usize, u64)>,
    pub expansions_at_true: u64,
    pub cost_max: Option<isize>,
    pub starts: Vec<obs::Start>,
    pub spawn_failures: u64,
    pub round: usize,
}

pub struct Out {
    pub rounds: Vec<Round>,
    pub obs: Obs,
}

fn one_round<S: InterruptibleSolver>(
    s: &mut S,
    c: &Case,
    mode: i64,
    round: usize,
    counters: &dyn Fn(&S) -> (usize, usize),
) -> Round {
    obs::new_round();
    let k = c.int_k;
    let flag = Arc::new(AtomicBool::new(false));
    let helper = (mode == 4).then(|| {
        let f = flag.clone();
        std::thread::Builder::new().spawn(move || {
            for _ in 0..k {
                simrt::point(simrt::Kind::Yield);
            }
            f.store(true, SeqCst);
        })
    });
    let f2 = flag.clone();
    let start = Instant::now();
    let to = Duration::from_nanos(k.max(0) as u64);
    let res = catch_unwind(AssertUnwindSafe(|| {
        if mode == 0 {
            s.maximize();
            None
        } else {
            Some(s.maximize_with_interrupt(move || {
                obs::cb(Cb::Interrupt);
                let polls = obs::obs(|o| o.polls) as i64 + 1;
                let v = match mode {
                    1 => false,
                    2 => polls >= k,
                    3 => start.elapsed() > to,
                    4 => f2.load(SeqCst),
                    5 => obs::obs(|o| o.expansions) as i64 >= k,
                    _ => polls == k,
                };
                obs::polled(v)
            }))
        }
    }));
    if let Some(Ok(h)) = helper {
        let _ = h.join();
    }
    let mut panic = None;
    let mut injected = false;
    let mut proved = None;
    match res {
        Ok(Some(st)) => proved = Some(st == ResolutionStatus::Proved),
        Ok(None) => {}
        Err(e) => {
            injected = e.downcast_ref::<Injected>().is_some();
            let m = if let Some(x) = e.downcast_ref::<String>() {
                x.clone()
            } else if let Some(x) = e.downcast_ref::<&str>() {
                x.to_string()
            } else if injected {
                "injected".to_string()
            } else {
                "?".to_string()
            };
            let all = obs::obs(|o| o.panics.join(" // "));
            panic = Some(format!("{} ({})", m, all));
        }
    }
    // reading the results must not fail either
    let (lb, ub, bv, bs) = (s.best_lower_bound(), s.best_upper_bound(), s.best_value(), s.best_solution());
    let (bv2, bs2) = (s.best_value_so_far(), s.best_solution_so_far());
    if bv != bv2 || bs != bs2 {
        obs::obs(|o| o.errors.push("solution: best_*_so_far differs from best_*".to_string()));
    }
    let (explored, explored_dd) = counters(s);
    let spawn_failures = simrt::report().faults[simrt::Fault::SpawnFail as usize];
    obs::obs(|o| Round {
        interruptible: mode != 0,
        proved,
        panic,
        injected,
        panicked: o.panicked,
        lb,
        ub,
        best_value: bv,
        best_solution: bs,
        explored,
        explored_dd,
        expansions: o.expansions,
        polls: o.polls,
        poll_after_true: o.poll_after_true,
        first_true: o.first_true,
        expansions_at_true: o.expansions_at_true,
        cost_max: o.cost_max,
        starts: std::mem::take(&mut o.starts),
        spawn_failures,
        round,
    })
}

fn drive<S: InterruptibleSolver>(
    mut s: S,
    c: &Case,
    counters: &dyn Fn(&S) -> (usize, usize),
    rethread: &dyn Fn(S, usize) -> S,
) -> Vec<Round> {
    let mut out = vec![];
    if s.best_value().is_some() || s.best_solution().is_some() || s.best_lower_bound() != isize::MIN || s.best_upper_bound() != isize::MAX {
        obs::obs(|o| o.errors.push("solution: a new solver already knows something".to_string()));
    }
    for r in 0..c.rounds.max(1) {
        out.push(one_round(&mut s, c, c.mode, r as usize, counters));
    }
    if c.resume != 0 {
        if c.rethread != 0 {
            s = rethread(s, c.rethread as usize);
        }
        out.push(one_round(&mut s, c, c.resume - 1, c.rounds as usize, counters));
    }
    out
}

/// The body of a simulation: solves the model of the case with the real solver.
pub fn solve(c: &Case, model: &Model) -> Out {
    obs::reset(c);
    let cs = if c.cutset == 0 { CutsetType::LastExactLayer } else { CutsetType::Frontier };
    let t = c.threads.max(0) as usize;
    let m = c.ctor_m.max(1) as usize;
    let rounds = match c.solver {
        2 => {
            let s = match c.ctor {
                0 => BarrierParallelSolver::custom(model, model, model, model, cs, t),
                1 => BarrierParallelSolver::custom(model, model, model, model, cs, m).with_nb_threads(t),
                2 => BarrierParallelSolver::new(model, model, model, model, cs).with_nb_threads(t),
                _ => BarrierParallelSolver::new(model, model, model, model, cs),
            };
            drive(s, c, &|s| (s.get_explored(), s.get_explored_dd()), &|s, n| s.with_nb_threads(n))
        }
        1 => {
            let mut f =
                RecordingFrontier { inner: SimpleFrontier::new(model), spec: FrontierModel::new(false), model };
            let s = match c.ctor {
                0 => ParallelSolver::custom(model, model, model, model, cs, &mut f, t),
                1 => ParallelSolver::custom(model, model, model, model, cs, &mut f, m).with_nb_threads(t),
                2 => ParallelSolver::new(model, model, model, model, cs, &mut f).with_nb_threads(t),
                _ => ParallelSolver::new(model, model, model, model, cs, &mut f),
            };
            drive(s, c, &|s| (s.get_explored(), s.get_explored_dd()), &|s, n| s.with_nb_threads(n))
        }
        _ => {
            let mut f = RecordingFrontier { inner: NoDupFrontier::new(model), spec: FrontierModel::new(true), model };
            let s = match c.ctor {
                0 => ParallelSolver::custom(model, model, model, model, cs, &mut f, t),
                1 => ParallelSolver::custom(model, model, model, model, cs, &mut f, m).with_nb_threads(t),
                2 => ParallelSolver::new(model, model, model, model, cs, &mut f).with_nb_threads(t),
                _ => ParallelSolver::new(model, model, model, model, cs, &mut f),
            };
            drive(s, c, &|s| (s.get_explored(), s.get_explored_dd()), &|s, n| s.with_nb_threads(n))
        }
    };
    Out { rounds, obs: obs::take() }
}

/// One call on a solver that is not alone: the global observations do not matter.
fn quiet_round<S: InterruptibleSolver>(s: &mut S, k: i64) -> Round {
    let polls = Arc::new(std::sync::atomic::AtomicI64::new(0));
    let fired = Arc::new(AtomicBool::new(false));
    let before = obs::obs(|o| o.panicked);
    let (p2, f2) = (polls.clone(), fired.clone());
    let res = catch_unwind(AssertUnwindSafe(|| {
        if k <= 0 {
            s.maximize();
            return None;
        }
        Some(s.maximize_with_interrupt(move || {
            simrt::mask(|| {
                let v = p2.fetch_add(1, SeqCst) + 1 >= k;
                if v {
                    f2.store(true, SeqCst);
                }
                v
            })
        }))
    }));
    let (proved, panic, injected) = match res {
        Ok(x) => (x.map(|x| x == ResolutionStatus::Proved), None, false),
        Err(e) => {
            drop(e);
            let injected = !before && obs::obs(|o| o.panicked);
            (None, Some(obs::obs(|o| o.panics.join(" // "))), injected)
        }
    };
    Round {
        interruptible: k > 0,
        proved,
        panic,
        injected,
        lb: s.best_lower_bound(),
        ub: s.best_upper_bound(),
        best_value: s.best_value(),
        best_solution: s.best_solution(),
        first_true: fired.load(SeqCst).then_some((0, 0)),
        ..Default::default()
    }
}

fn one_solver<'a>(c: &Case, kind: i64, model: &'a Model, f: Option<&mut (dyn Frontier<State = State> + Send + Sync + 'a)>, k: i64) -> Round {
    let cs = if c.cutset == 0 { CutsetType::LastExactLayer } else { CutsetType::Frontier };
    let t = c.threads.max(0) as usize;
    match (kind, f) {
        (2, _) => quiet_round(&mut BarrierParallelSolver::custom(model, model, model, model, cs, t), k),
        (_, Some(f)) => {
            let mut f = Borrowed(f);
            quiet_round(&mut ParallelSolver::custom(model, model, model, model, cs, &mut f, t), k)
        }
        (1, None) => {
            let mut f = SimpleFrontier::new(model);
            quiet_round(&mut ParallelSolver::custom(model, model, model, model, cs, &mut f, t), k)
        }
        _ => {
            let mut f = NoDupFrontier::new(model);
            quiet_round(&mut ParallelSolver::custom(model, model, model, model, cs, &mut f, t), k)
        }
    }
}

struct Borrowed<'b, 'a>(&'b mut (dyn Frontier<State = State> + Send + Sync + 'a));
impl Frontier for Borrowed<'_, '_> {
    type State = State;
    fn push(&mut self, n: SubProblem<State>) {
        self.0.push(n)
    }
    fn pop(&mut self) -> Option<SubProblem<State>> {
        self.0.pop()
    }
    fn clear(&mut self) {
        self.0.clear()
    }
    fn len(&self) -> usize {
        self.0.len()
    }
}

/// Two resolutions, at the same time (of two problems or twice the same), or one
/// after the other with the same frontier: the index of the model of each round.
pub fn twins(c: &Case, models: &[Model; 2]) -> Vec<(usize, Round)> {
    obs::reset(c);
    let kinds = [c.solver, (c.solver + c.twin) % 3];
    let second = (c.twin_kind == 0) as usize;
    let k = if c.mode == 2 { c.int_k.max(1) } else { 0 };
    if c.twin_kind < 2 {
        let mut out = vec![];
        std::thread::scope(|s| {
            let h = std::thread::Builder::new()
                .spawn_scoped(s, || one_solver(c, kinds[1], &models[second], None, 0))
                .expect("a thread");
            out.push((0, one_solver(c, kinds[0], &models[0], None, k)));
            out.push((second, h.join().expect("the second resolution")));
        });
        out
    } else {
        let mut nodup;
        let mut simple;
        let f: &mut (dyn Frontier<State = State> + Send + Sync) = if c.solver == 0 {
            nodup = NoDupFrontier::new(&models[0]);
            &mut nodup
        } else {
            simple = SimpleFrontier::new(&models[0]);
            &mut simple
        };
        let a = one_solver(c, 0, &models[0], Some(f), k);
        let b = one_solver(c, 0, &models[0], Some(f), 0);
        vec![(0, a), (0, b)]
    }
}

/// Concurrent workers hammering one frontier (behind a mutex), against the model.
pub fn frontier_session(c: &Case, model: &Model) -> Vec<String> {
    obs::reset(c);
    if c.solver == 1 {
        frontier_run(
            c,
            model,
            RecordingFrontier { inner: SimpleFrontier::new(model), spec: FrontierModel::new(false), model },
        )
    } else {
        frontier_run(
            c,
            model,
            RecordingFrontier { inner: NoDupFrontier::new(model), spec: FrontierModel::new(true), model },
        )
    }
}

fn frontier_run<F: Frontier<State = State> + Send>(c: &Case, model: &Model, f: RecordingFrontier<F>) -> Vec<String> {
    let m = parking_lot::Mutex::new(f);
    let r = catch_unwind(AssertUnwindSafe(|| {
        std::thread::scope(|s| {
            for t in 0..c.threads {
                let m = &m;
                s.spawn(move || {
                    let mut r = simrt::Rng::new(c.model_seed as u64 ^ (t as u64 + 1) << 40);
                    let ubs = 1 + r.below(6) as i64;
                    for _ in 0..c.ops {
                        let mut f = m.lock();
                        match r.below(20) {
                            0..=11 => {
                                // a random feasible prefix
                                let k = r.below(model.n as u64 + 1) as usize;
                                let mut path: Vec<Decision> = vec![];
                                for l in 0..k {
                                    let mut ok = None;
                                    for _ in 0..4 {
                                        let d = Decision {
                                            var: Variable(model.var_of[l]),
                                            value: r.below(model.vals as u64) as isize + model.voff,
                                        };
                                        path.push(d);
                                        if model.replay(&path).is_ok() {
                                            ok = Some(());
                                            break;
                                        }
                                        path.pop();
                                    }
                                    if ok.is_none() {
                                        break;
                                    }
                                }
                                let (s, v) = model.replay(&path).unwrap();
                                let ub = match r.below(10) {
                                    0 => isize::MAX,
                                    1 => isize::MIN,
                                    _ => r.range(-ubs, ubs) as isize,
                                };
                                f.push(SubProblem { state: Arc::new(s), value: v, path, ub });
                            }
                            12..=18 => {
                                f.pop();
                            }
                            _ => {
                                if r.chance(1, 8) {
                                    f.clear();
                                }
                            }
                        }
                    }
                });
            }
        });
        // drain: descending bounds, then empty
        let mut f = m.lock();
        let mut last = isize::MAX;
        while let Some(n) = f.pop() {
            if n.ub > last {
                obs::obs(|o| o.errors.push("frontier: the bounds are not popped in descending order".into()));
            }
            last = n.ub;
        }
        if !f.is_empty() || f.pop().is_some() {
            obs::obs(|o| o.errors.push("frontier: not empty after having been drained".into()));
        }
    }));
    let mut o = obs::take();
    if r.is_err() {
        o.errors.insert(0, format!("frontier: panic: {}", o.panics.join(" // ")));
    }
    o.errors
}
