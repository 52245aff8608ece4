#!/usr/bin/env python3
import sys, os
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from bug import mk
PAR, BAR, ALL, WB, ND, XP = "src/solver/parallel.rs", "src/solver/barrier.rs", "src/mdd/with_all.rs", "src/mdd/with_barrier.rs", "src/frontier/no_dup.rs", "src/xputils.rs"

RACE = '''mod common;
use common::*;
use std::sync::atomic::{AtomicUsize, Ordering::SeqCst};
use std::sync::Arc;
use std::time::{Duration, Instant};
// Three branches: c is promising and poor, a (worth 8) and b (worth 7) improve on it. The
// workers that take a and b start them together.
fn main() {
    watchdog(110);
    let f = 3;
    let mut next = vec![vec![vec![Some((0, 0)), Some((1, 0)), Some((2, 5))]]];
    next.push((0..f).map(|i| vec![Some((i, 0))]).collect());
    next.push(vec![vec![Some((0, 8))], vec![Some((0, 7))], vec![Some((0, -10))]]);
    let dp = Dp::new(0, next, None);
    for it in 0..12000u64 {
        let arrived = Arc::new(AtomicUsize::new(0));
        let hook: Hook = Arc::new(move |_, s| {
            if s.depth == 1 && s.set != 4 {
                arrived.fetch_add(1, SeqCst);
                let t = Instant::now();
                while arrived.load(SeqCst) < 2 && t.elapsed() < Duration::from_millis(5) {
                    std::hint::spin_loop();
                }
                let mut r = Rng(it * 2 + s.set);
                for _ in 0..r.below(200) {
                    std::hint::spin_loop();
                }
            }
        });
        // the root is compiled with a width of one, the others exactly
        let w = W(hook);
        for cutset in [engineering::CutsetType::LastExactLayer] {
            let (value, sol) = run(&dp, &w, cutset);
            if value != Some(8) {
                fail(&format!("best value {:?} instead of 8 (try {})", value, it));
            }
            let v = dp.value(&sol.unwrap());
            if v != Some(8) {
                fail(&format!("the solution is worth {:?}, not 8 (try {})", v, it));
            }
        }
    }
    println!("ok");
}
struct W(Hook);
impl engineering::WidthHeuristic<State> for W {
    fn max_width(&self, s: &State) -> usize {
        (self.0)("width", s);
        if s.depth == 0 { 1 } else { 100 }
    }
}
fn run(dp: &Dp, w: &W, cutset: engineering::CutsetType) -> (Option<isize>, Option<Vec<engineering::Decision>>) {
    use engineering::*;
    RUN
    s.maximize();
    (s.best_value(), s.best_solution())
}
'''
RPAR = "let mut f = NoDupFrontier::new(&Ranking);\n    let mut s = ParallelSolver::custom(dp, &Relax, &Ranking, w, cutset, &mut f, 3);"
RBAR = "let mut s = BarrierParallelSolver::custom(dp, &Relax, &Ranking, w, cutset, 3);"

UPD = '''        let mut shared = shared.critical.lock();
        let dd_best_value = mdd.best_value().unwrap_or(isize::MIN);
        if dd_best_value > shared.best_lb {
            shared.best_lb = dd_best_value;
            shared.best_sol = mdd.best_solution();
        }
'''
mk("incumbent-check-then-act", "C01",
   "two workers improve on the incumbent at the same time, the better one first, between the check and the update of the other",
   "the update of the incumbent is split in two critical sections: a worse value overwrites a better one",
   [(PAR, UPD, '''        let dd_best_value = mdd.best_value().unwrap_or(isize::MIN);
        // extract the solution out of the critical section
        if dd_best_value > Self::best_lb(shared) {
            let best_sol = mdd.best_solution();
            let mut shared = shared.critical.lock();
            shared.best_lb = dd_best_value;
            shared.best_sol = best_sol;
        }
''')], RACE.replace("RUN", RPAR))
mk("solution-stored-after-value", "C03",
   "two workers improve on the incumbent at the same time and store their solutions in the opposite order of their values",
   "the value and the solution of the incumbent are stored in two critical sections: the solution can be another one",
   [(BAR, UPD, '''        let dd_best_value = mdd.best_value().unwrap_or(isize::MIN);
        let improved = {
            let mut critical = shared.critical.lock();
            let improved = dd_best_value > critical.best_lb;
            critical.best_lb = critical.best_lb.max(dd_best_value);
            improved
        };
        // building the solution is expensive: only do it when it is needed
        if improved {
            let best_sol = mdd.best_solution();
            shared.critical.lock().best_sol = best_sol;
        }
''')], RACE.replace("RUN", RBAR))

mk("timeout-guard-dropped", "C19",
   "the action finishes while the exit action is running",
   "the guard of the switch is dropped at once: the process exits with status 0 in the middle of the exit action",
   [(XP, "        let _lock = kswitch.lock().unwrap();\n", "        let _ = kswitch.lock().unwrap();\n")],
   '''mod common;
use std::time::Duration;
// the parent runs itself as a child whose action ends during the exit action
fn main() {
    if std::env::args().nth(1).is_some() {
        engineering::xputils::timeout(
            Duration::from_millis(100),
            || std::thread::sleep(Duration::from_millis(600)),
            || {
                std::thread::sleep(Duration::from_millis(1500));
                println!("complete");
            },
        );
    }
    let o = std::process::Command::new(std::env::current_exe().unwrap()).arg("child").output().unwrap();
    let out = String::from_utf8_lossy(&o.stdout).to_string();
    if o.status.code() == Some(0) {
        common::fail(&format!("exit status 0 although the exit action started; output {:?}", out));
    }
    if out.matches("complete").count() != 1 {
        common::fail(&format!("status {:?} output {:?}", o.status, out));
    }
    println!("ok");
}
''')

mk("ongoing-counted-late", "C05",
   "a worker is interrupted between the moment another one takes a node and the moment it starts to process it, while that node has the highest bound",
   "the node in the hands of the other worker is not accounted for: the upper bound is below the optimum",
   [(PAR, "        critical.ongoing += 1;\n        critical.explored += 1;\n", "        critical.explored += 1;\n"),
    (PAR, "        let mut explored_dd = 0;\n", "        let mut explored_dd = 0;\n        shared.critical.lock().ongoing += 1;\n")],
   '''mod common;
use common::*;
use std::sync::atomic::{AtomicUsize, Ordering::SeqCst};
use std::time::Duration;
// Long interruption callbacks: the lock is handed over to the other worker when one of them takes a node.
fn main() {
    watchdog(110);
    for it in 0..400u64 {
        let mut r = Rng(it / 8);
        let dp = Dp::random(&mut r, 5, 6, 3, 0, 0, 9);
        let k = 2 + (it % 8) as usize;
        let n = AtomicUsize::new(0);
        let w = Width(1, None);
        let o = solve(false, &dp, engineering::CutsetType::LastExactLayer, &w, 3, move || {
            let i = n.fetch_add(1, SeqCst);
            std::thread::sleep(Duration::from_millis(2));
            i >= k
        });
        let opt = dp.opt().unwrap_or(isize::MIN);
        if o.ub < opt || o.lb > opt {
            fail(&format!("bounds [{}, {}] while the optimum is {}", o.lb, o.ub, opt));
        }
    }
    println!("ok");
}
''')

mk("interrupted-flag-not-shared", "C06",
   "an interruption callback that does not stay true (a consumed signal)",
   "the workers that did not see the callback return true do not stop: they wait for work for ever",
   [(PAR, '''        if critical.interrupted {
            return WorkLoad::Interruption;
        } else if interrupt() {
''', '''        if interrupt() {
            if critical.interrupted {
                return WorkLoad::Interruption;
            }
''')],
   '''mod common;
use common::*;
use std::sync::atomic::{AtomicUsize, Ordering::SeqCst};
fn main() {
    watchdog(20);
    for it in 0..200u64 {
        let mut r = Rng(it);
        let dp = Dp::random(&mut r, 6, 8, 3, 0, 0, 9);
        let n = AtomicUsize::new(0);
        let k = 1 + (it % 6) as usize;
        let w = Width(1, None);
        let o = solve(false, &dp, engineering::CutsetType::LastExactLayer, &w, 3, move || n.fetch_add(1, SeqCst) == k);
        let opt = dp.opt().unwrap_or(isize::MIN);
        if o.ub < opt || o.lb > opt {
            fail("bounds");
        }
    }
    println!("ok");
}
''')

mk("clear-keeps-recycle-bin", "C07",
   "a resolution interrupted after nodes were popped, then called again",
   "clearing the frontier leaves stale positions to recycle: the next resolution panics",
   [(ND, "        self.heap.clear();\n        self.recycle_bin.clear();\n", "        self.heap.clear();\n")],
   '''mod common;
use common::*;
use engineering::*;
use std::sync::atomic::{AtomicUsize, Ordering::SeqCst};
fn main() {
    watchdog(100);
    for it in 0..300u64 {
        let mut r = Rng(it);
        let dp = Dp::random(&mut r, 6, 8, 3, 0, 0, 9);
        let w = Width(1, None);
        let mut s = BarrierParallelSolver::custom(&dp, &Relax, &Ranking, &w, CutsetType::LastExactLayer, 1);
        for k in 1..4 {
            let n = AtomicUsize::new(0);
            s.maximize_with_interrupt(move || n.fetch_add(1, SeqCst) >= k);
        }
        s.maximize();
        if s.best_value() != dp.opt() {
            fail("wrong optimum after a resumption");
        }
    }
    println!("ok");
}
''')

mk("duplicate-loses-bound", "C10",
   "a duplicate with a longer path and a smaller bound than the node it replaces",
   "the node that replaces a duplicate keeps its own smaller bound: the heap is out of order and the bound lost",
   [(ND, "                node.ub = new_ub.max(old_ub);\n", "")],
   '''mod common;
use common::*;
use engineering::*;
use std::sync::Arc;
fn main() {
    for seed in 0..2000 {
        let mut r = Rng(seed);
        let mut f = NoDupFrontier::new(&Ranking);
        let mut held: std::collections::HashMap<u64, (isize, isize)> = Default::default();
        for _ in 0..60 {
            if r.below(3) > 0 {
                let (s, v, ub) = (r.below(8) as u64, r.range(0, 9), r.range(0, 99));
                f.push(SubProblem { state: Arc::new(State { depth: 0, set: s }), value: v, path: vec![], ub });
                let e = held.entry(s).or_insert((v, ub));
                *e = (e.0.max(v), e.1.max(ub));
            } else if let Some(n) = f.pop() {
                let best = held.values().map(|x| x.1).max().unwrap();
                let x = held.remove(&n.state.set).unwrap();
                if n.ub != best || x != (n.value, n.ub) {
                    fail(&format!("popped bound {} while {} is held", n.ub, best));
                }
            }
        }
    }
    println!("ok");
}
''')

mk("panic-swallowed-by-join", "C08",
   "a callback of the model panics",
   "the workers are joined one by one and their panics dropped: the call returns as if nothing had happened",
   [(BAR, '''        std::thread::scope(|s| {
            for i in 0..self.nb_threads {
                let shared = &self.shared;
                s.spawn(move || {''', '''        std::thread::scope(|s| {
            let mut workers = vec![];
            for i in 0..self.nb_threads {
                let shared = &self.shared;
                workers.push(s.spawn(move || {''', 2),
    (BAR, '''                    }
                });
            }
        });
''', '''                    }
                }));
            }
            // wait for the workers in the order of their creation
            for worker in workers {
                let _ = worker.join();
            }
        });
''', 2)],
   '''mod common;
use common::*;
use std::sync::atomic::{AtomicUsize, Ordering::SeqCst};
use std::sync::Arc;
fn main() {
    watchdog(60);
    std::panic::set_hook(Box::new(|_| ()));
    for it in 0..100u64 {
        let mut r = Rng(it);
        let mut dp = Dp::random(&mut r, 6, 8, 3, 0, 0, 9);
        let n = Arc::new(AtomicUsize::new(0));
        let m = n.clone();
        dp.hook = Some(Arc::new(move |_, _| {
            if m.fetch_add(1, SeqCst) == (it % 20) as usize {
                panic!("demonstration");
            }
        }));
        let w = Width(1, None);
        let x = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| solve(true, &dp, engineering::CutsetType::LastExactLayer, &w, 2, || false)));
        if n.load(SeqCst) > (it % 20) as usize && x.is_ok() {
            fail("the panic of the model is not reported");
        }
    }
    println!("ok");
}
''')

SWEEP = '''mod common;
use common::*;
use engineering::CutsetType::*;
fn main() {
    watchdog(110);
    sweep(%s, &[LastExactLayer, Frontier], %d, 8, 8, 3, %d, -10, 10);
    println!("ok");
}
'''
mk("relax-first-edge-only", "C09",
   "a merged node with several parents, the best of which is not the last one added",
   "only one inbound edge of a node is redirected to the node it is merged into: the relaxation is no upper bound",
   [(ALL, "            let mut edge_id = self.nodes[drop_id.0].inbound;\n            while let Some(eid) = edge_id {", "            let mut edge_id = self.nodes[drop_id.0].best;\n            while let Some(eid) = edge_id {")],
   SWEEP % ("false", 20000, 20))
mk("pruned-by-barrier-without-theta", "C13",
   "a diagram in which a node is pruned by a barrier below a node whose threshold is then computed",
   "the threshold of a node pruned by a barrier is not propagated to its parents, whose thresholds become too large",
   [(WB, "                            self.nodes[node_id.0].theta = theta; // set theta for later propagation\n", "")],
   SWEEP % ("true", 40000, 20))
mk("thresholds-below-last-exact-layer", "C02",
   "a last exact layer cutset and a state of the layer right below it that is reached again from another subproblem",
   "thresholds of the layer below the last exact layer are recorded: they block the nodes of the cutset",
   [(WB, "depth > self.lel_depth.unwrap() {", "depth > self.lel_depth.unwrap() + 1 {")],
   SWEEP % ("true", 60000, 20))
mk("recycled-node-not-relaxed", "C03",
   "states merged into one that is already kept in the layer",
   "a node reused for merged states is not flagged relaxed: a diagram containing infeasible paths claims to be exact",
   [(ALL, "        self.nodes[merged_id.0].flags.set_relaxed(true);\n\n", "")],
   SWEEP % ("false", 40000, 40))

mk("first-layers-not-squashed", "C12",
   "a relaxed diagram whose second layer below the root is wider than the maximum width",
   "the second layer of a relaxed diagram exceeds the maximum width",
   [(ALL, "curr_l.len() > input.max_width && depth > 1 {", "curr_l.len() > input.max_width && depth > 2 {")],
   '''mod common;
use common::*;
use engineering::*;
use std::sync::{Arc, Mutex};
fn main() {
    for seed in 0..500 {
        let mut r = Rng(seed);
        let mut dp = Dp::random(&mut r, 6, 12, 4, 10, -9, 9);
        let count = Arc::new(Mutex::new(vec![0usize; 8]));
        let c = count.clone();
        dp.hook = Some(Arc::new(move |what, s| {
            if what == "domain" {
                c.lock().unwrap()[s.depth] += 1;
            }
        }));
        let w = 1 + r.below(4);
        let mut dd = All::new(CutsetType::LastExactLayer);
        dd.compile(&CompilationInput {
            comp_type: CompilationType::Relaxed,
            max_width: w,
            problem: &dp,
            relaxation: &Relax,
            ranking: &Ranking,
            residual: SubProblem { state: Arc::new(dp.initial_state()), value: dp.init, path: vec![], ub: isize::MAX },
            best_lb: isize::MIN,
        });
        let c = count.lock().unwrap().clone();
        for (d, n) in c.iter().enumerate().skip(2) {
            if *n > w {
                fail(&format!("{} nodes in layer {} with a width of {}", n, d, w));
            }
        }
    }
    println!("ok");
}
''')

EXPL = '''mod common;
use common::*;
use engineering::*;
use std::collections::HashMap;
use std::sync::{Arc, Mutex};
use std::time::Duration;
// Only the last decision costs something: each state is reached with one value, and must be processed once.
fn main() {
    watchdog(110);
    for seed in 0..%d {
        let mut r = Rng(seed);
        let mut dp = Dp::random(&mut r, 7, 8, 3, 0, 0, 0);
        let last = dp.n - 1;
        for s in dp.next[last].iter_mut() {
            for t in s.iter_mut().flatten() {
                t.1 = r.range(0, 99);
            }
        }
        let dp = Dp::new(0, dp.next, None);
        let seen: Arc<Mutex<HashMap<State, usize>>> = Default::default();
        let sn = seen.clone();
        let hook: Hook = Arc::new(move |_, s| {
            let k = {
                let mut m = sn.lock().unwrap();
                let k = m.entry(s.clone()).or_insert(0);
                *k += 1;
                *k
            };
            if k > 1 {
                fail(&format!("state {:?} is processed again for the same value (seed {})", s, seed));
            }
            let mut r = Rng(seed * 1000 + s.set * 10 + s.depth as u64);
            if r.below(2) == 0 {
                std::thread::sleep(Duration::from_micros(r.below(3000) as u64));
            }
        });
        let w = Width(1 + r.below(2), Some(hook));
        let o = solve(true, &dp, if seed %% 2 == 0 { CutsetType::LastExactLayer } else { CutsetType::Frontier }, &w, 3, || false);
        if o.value != dp.opt() {
            fail("wrong optimum");
        }
    }
    println!("ok");
}
'''
mk("cleans-barrier-of-ongoing-layers", "C11",
   "a node still being processed in a shallower layer reaches a state of a deeper layer that another worker has explored meanwhile",
   "barriers are discarded although nodes above them are being processed: states are explored again for the same value",
   [(BAR, "critical.open_by_layer[critical.lowest_active_layer] + critical.ongoing_by_layer[critical.lowest_active_layer] == 0 {", "critical.open_by_layer[critical.lowest_active_layer] == 0 {")],
   EXPL % 1500)
mk("waits-with-nothing-ongoing", "C04",
   "the last open nodes are all ruled out by barriers while no other node is being processed",
   "a worker that discards the last open nodes waits for work that nobody is producing: a deadlock",
   [(BAR, '''            if critical.fringe.is_empty() {
                return WorkLoad::Starvation;
            }
''', '''            if critical.fringe.is_empty() {
                shared.monitor.wait(&mut critical);
                return WorkLoad::Starvation;
            }
''')],
   '''mod common;
use common::*;
use engineering::CutsetType::*;
fn main() {
    watchdog(60);
    sweep(true, &[LastExactLayer, Frontier], 20000, 8, 6, 3, 20, -3, 3);
    println!("ok");
}
''')
mk("rounded-time-limit", "C17",
   "a resolution that needs more than the time limit",
   "the elapsed time is rounded up to whole seconds: a resolution times out up to one second before its limit",
   [(XP, "start.elapsed().gt(&to)", "start.elapsed().as_secs_f64().ceil() >= to.as_secs_f64()", 2)],
   '''mod common;
use common::*;
use engineering::{xputils::*, CutsetType};
use std::sync::Arc;
use std::time::{Duration, Instant};
fn main() {
    let mut r = Rng(3);
    let mut dp = Dp::random(&mut r, 8, 30, 4, 0, 0, 99);
    dp.rub = None;
    dp.hook = Some(Arc::new(|_, s| if s.depth == 0 || s.depth > 3 { std::thread::sleep(Duration::from_millis(15)) }));
    let w = Width(1, None);
    for t in [SolverType::Parallel, SolverType::Barrier] {
        let start = Instant::now();
        solve_timeout("demo", Duration::from_secs(2), &w, &dp, &Relax, &Ranking, Some(1), t, CutsetType::LastExactLayer);
        let d = start.elapsed();
        if d < Duration::from_secs(2) {
            fail(&format!("stopped after {:?} with a limit of 2 s", d));
        }
    }
    println!("ok");
}
''')
