#!/usr/bin/env python3
import sys, os
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from bug import mk
PAR, BAR, ALL, WB, ND, XP = "src/solver/parallel.rs", "src/solver/barrier.rs", "src/mdd/with_all.rs", "src/mdd/with_barrier.rs", "src/frontier/no_dup.rs", "src/xputils.rs"

# a model that watches what it is asked; the order of its variables depends on the states
STRICT = '''mod common;
use engineering::*;
use std::cmp::Ordering;
use std::sync::Mutex;
// Items have a weight; what is asked is written down. The next item is the one that fits the
// most states of the layer (the first among equals).
#[derive(Debug, Clone, PartialEq, Eq, Hash)]
struct S { left: u32, room: isize, lost: isize }
struct P { w: Vec<isize>, c: Vec<isize>, room: isize, announced: Mutex<Vec<(Vec<S>, usize)>>, wrong: Mutex<Option<String>> }
impl P {
    fn complain(&self, m: String) { self.wrong.lock().unwrap().get_or_insert(m); }
}
impl Problem for P {
    type State = S;
    fn nb_variables(&self) -> usize { self.w.len() }
    fn initial_state(&self) -> S { S { left: (1 << self.w.len()) - 1, room: self.room, lost: 0 } }
    fn initial_value(&self) -> isize { 0 }
    fn next_variable(&self, l: &mut dyn Iterator<Item = &S>) -> Option<Variable> {
        let l: Vec<S> = l.cloned().collect();
        let left = l.first()?.left;
        let v = (0..self.w.len()).filter(|i| left >> i & 1 == 1).max_by_key(|i| (l.iter().filter(|s| s.room >= self.w[*i]).count() * 7 + (l.iter().map(|s| s.room as usize).sum::<usize>() + i) % 7, 100 - i))?;
        let mut a = self.announced.lock().unwrap();
        a.clear();
        a.push((l, v));
        Some(Variable(v))
    }
    fn for_each_in_domain<F: FnMut(Decision)>(&self, var: Variable, s: &S, mut f: F) {
        if self.announced.lock().unwrap().last().map(|x| x.1) != Some(var.0) {
            self.complain(format!("variable {:?} was not announced for that layer", var));
        }
        if s.left >> var.0 & 1 == 0 {
            return self.complain(format!("{:?} is assigned already in {:?}", var, s));
        }
        f(Decision { var, value: 0 });
        if s.room >= self.w[var.0] { f(Decision { var, value: 1 }) }
    }
    fn transition(&self, s: &S, d: Decision) -> S { S { left: s.left & !(1 << d.var.0), room: s.room - d.value * self.w[d.var.0], lost: s.lost } }
    fn transition_cost(&self, _: &S, d: Decision) -> isize { d.value * self.c[d.var.0] }
}
struct R<'a>(&'a P);
impl Relaxation for R<'_> {
    type State = S;
    fn merge(&self, it: &mut dyn Iterator<Item = &S>) -> S {
        it.cloned().reduce(|a, b| S { left: a.left, room: a.room.max(b.room), lost: 0 }).unwrap()
    }
    fn relax(&self, src: &S, dst: &S, _: &S, d: Decision, cost: isize) -> isize {
        if self.0.transition(src, d).room != dst.room || src.left & !(1 << d.var.0) != dst.left {
            self.0.complain(format!("{:?} does not lead from {:?} to {:?}", d, src, dst));
        }
        cost
    }
}
struct K;
impl StateRanking for K {
    type State = S;
    fn compare(&self, a: &S, b: &S) -> Ordering { a.room.cmp(&b.room) }
}
fn main() {
    for seed in 0..300 {
        let mut r = common::Rng(seed);
        let n = 6 + r.below(4);
        let p = P { w: (0..n).map(|_| r.range(1, 6)).collect(), c: (0..n).map(|_| r.range(1, 9)).collect(), room: r.range(6, 16), announced: Default::default(), wrong: Default::default() };
        let w = common_width(2);
        for c in [CutsetType::LastExactLayer, CutsetType::Frontier] {
            let mut f = NoDupFrontier::new(&K);
            ParallelSolver::custom(&p, &R(&p), &K, &w, c, &mut f, 1).maximize();
            BarrierParallelSolver::custom(&p, &R(&p), &K, &w, c, 1).maximize();
            if let Some(m) = p.wrong.lock().unwrap().take() {
                common::fail(&m);
            }
        }
    }
    println!("ok");
}
struct W(usize);
fn common_width(w: usize) -> W { W(w) }
impl WidthHeuristic<S> for W {
    fn max_width(&self, _: &S) -> usize { self.0 }
}
'''

mk("variable-order-remembered", "C20",
 "a model whose next variable depends on the states of the layer, and a second diagram compiled by the same worker",
 "the variable of each depth is remembered from the first diagram: later diagrams branch on a variable the model did not choose for that layer",
 [(ALL, "while let Some(var) = input.problem.next_variable(&mut self.next_l.keys().map(|s| s.as_ref())) {",
   "while let Some(var) = {\n            let level = self.root_pa.len() + depth;\n            let known = self.order.get(level).copied();\n            let chosen = input.problem.next_variable(&mut self.next_l.keys().map(|s| s.as_ref()));\n            if let (None, Some(v)) = (known, chosen) {\n                if level == self.order.len() {\n                    self.order.push(v);\n                }\n            }\n            chosen.map(|v| match known {\n                Some(k) if !self.root_pa.iter().any(|d| d.var == k) => k,\n                _ => v,\n            })\n        } {"),
  (ALL, "    //\n    explored: usize,", "    //\n    explored: usize,\n    /// the variables, by depth\n    order: Vec<crate::Variable>,"),
  (ALL, "            explored: 0,\n        }\n    }\n    fn clear", "            explored: 0,\n            order: vec![],\n        }\n    }\n    fn clear"),
 ], STRICT)

mk("relax-source-of-best-arc", "C20",
 "a deleted node with two incoming arcs from different states",
 "relax is told that every arc of a merged node comes from the source of one of them",
 [(WB, "                let src = self.nodes[edge.from.0].state.as_ref();\n\n                let rcost", "                let rcost"),
  (WB, "            let mut edge_id = self.nodes[drop_id.0].inbound;\n            while let Some(eid) = edge_id {",
   "            let mut edge_id = self.nodes[drop_id.0].inbound;\n            let src = match self.nodes[drop_id.0].best {\n                Some(e) => self.nodes[self.edges[e.0].from.0].state.clone(),\n                None => self.nodes[drop_id.0].state.clone(),\n            };\n            while let Some(eid) = edge_id {"),
  (WB, ".relax(src, self", ".relax(src.as_ref(), self")], STRICT)

mk("global-incumbent", "C21",
 "two resolutions by the parallel solver at the same time, one with a larger optimum than the other",
 "the best known value is shared by all the solvers of the process: nodes of one problem are pruned by the solutions of the other",
 [(PAR, "/// The shared data that may only", "static BEST_KNOWN: std::sync::atomic::AtomicIsize = std::sync::atomic::AtomicIsize::new(isize::MIN);\n\n/// The shared data that may only"),
  (PAR, "            shared.best_lb = dd_best_value;", "            shared.best_lb = dd_best_value;\n            BEST_KNOWN.fetch_max(dd_best_value, std::sync::atomic::Ordering::SeqCst);"),
  (PAR, "        let root = self.root_node();", "        let root = self.root_node();\n        BEST_KNOWN.store(isize::MIN, std::sync::atomic::Ordering::SeqCst);"),
  (PAR, "        if node_ub <= best_lb {", "        if node_ub <= best_lb.max(BEST_KNOWN.load(std::sync::atomic::Ordering::SeqCst)) {")],
 '''mod common;
use common::*;
use engineering::*;
use std::sync::Arc;
use std::time::Duration;
fn main() {
    watchdog(110);
    for seed in 0..150u64 {
        std::thread::scope(|s| {
            for k in 0..2u64 {
                s.spawn(move || {
                    let mut r = Rng(2 * seed + k);
                    let dp = Dp::random(&mut r, 5, 5, 3, 0, if k == 0 { 0 } else { 50 }, if k == 0 { 9 } else { 99 });
                    let w = Width(1, Some(Arc::new(|_, _| std::thread::sleep(Duration::from_millis(1)))));
                    let o = solve(false, &dp, CutsetType::LastExactLayer, &w, 2, || false);
                    if o.value != dp.opt() {
                        fail(&format!("{:?} instead of {:?}", o.value, dp.opt()));
                    }
                });
            }
        });
    }
    println!("ok");
}
''')

mk("one-monitor-for-all", "C21",
 "two barrier solvers that have idle workers at the same time",
 "all the solvers wait on one condition variable of the process, which may only be used with one mutex at a time",
 [(BAR, "/// The shared data that may only", "static MONITOR: Condvar = Condvar::new();\n\n/// The shared data that may only"),
  (BAR, "    monitor: Condvar,", "    monitor: &'static Condvar,"),
  (BAR, "monitor: Condvar::new(),", "monitor: &MONITOR,")],
 '''mod common;
use common::*;
use engineering::*;
use std::sync::Arc;
use std::time::Duration;
fn main() {
    watchdog(60);
    let t = std::thread::spawn(|| std::thread::scope(|s| {
        for k in 0..2u64 {
            s.spawn(move || {
                for seed in 0..30 {
                    let mut r = Rng(2 * seed + k);
                    let dp = Dp::random(&mut r, 5, 5, 3, 0, 0, 9);
                    let w = Width(1, Some(Arc::new(|_, _| std::thread::sleep(Duration::from_millis(2)))));
                    let o = solve(true, &dp, CutsetType::LastExactLayer, &w, 3, || false);
                    if o.value != dp.opt() {
                        fail(&format!("{:?} instead of {:?}", o.value, dp.opt()));
                    }
                }
            });
        }
    }));
    if t.join().is_err() {
        fail("a resolution panics");
    }
    println!("ok");
}
''')

THREADS = '''mod common;
use common::*;
use engineering::{xputils::*, CutsetType};
use std::sync::atomic::{AtomicUsize, Ordering::SeqCst};
use std::sync::Arc;
use std::time::Duration;
// the threads of the process are counted while the root is processed
fn main() {
    watchdog(100);
    let base = std::fs::read_dir("/proc/self/task").unwrap().count();
    let cpus = std::thread::available_parallelism().unwrap().get();
    for t in [SolverType::Parallel, SolverType::Barrier] {
        for threads in [1, cpus, cpus + 3, 3 * cpus] {
            let seen = Arc::new(AtomicUsize::new(0));
            let s = seen.clone();
            let mut r = Rng(3);
            let dp = Dp::random(&mut r, 5, 5, 3, 0, 0, 9);
            let w = Width(1, Some(Arc::new(move |_, _| {
                std::thread::sleep(Duration::from_millis(200));
                s.fetch_max(std::fs::read_dir("/proc/self/task").unwrap().count(), SeqCst);
            })));
            let w = Width(1, w.1);
            solve_timeout("demo", Duration::from_secs(1), &w, &dp, &Relax, &Ranking, Some(threads), t, CutsetType::LastExactLayer);
            if seen.load(SeqCst) != base + threads {
                fail(&format!("{} threads instead of {}", seen.load(SeqCst) - base, threads));
            }
        }
    }
    println!("ok");
}
'''
mk("threads-capped", "C22",
 "more threads asked for than there are processors",
 "the barrier solver is never given more workers than there are processors, whatever --threads says",
 [(XP, "            let mut solver = BarrierParallelSolver::<P, R, O, W>::custom(\n                model,\n                relax,\n                ranking,\n                width,\n                cutset_type,\n                threads.unwrap_or_else(num_cpus::get),",
   "            let mut solver = BarrierParallelSolver::<P, R, O, W>::custom(\n                model,\n                relax,\n                ranking,\n                width,\n                cutset_type,\n                threads.unwrap_or(usize::MAX).min(num_cpus::get()),")], THREADS)

mk("returns-value-not-bound", "C17",
 "a resolution that times out after having found a solution",
 "solve_timeout returns the value of the best solution instead of the upper bound it reports",
 [(XP, "            );\n\n            ub\n        },", "            );\n\n            solver.best_value().unwrap_or(ub)\n        },")],
 '''mod common;
use common::*;
use engineering::{xputils::*, CutsetType};
use std::sync::Arc;
use std::time::Duration;
fn main() {
    watchdog(110);
    for seed in 0..40 {
        let mut r = Rng(seed);
        let mut dp = Dp::random(&mut r, 8, 20, 4, 0, 0, 99);
        dp.rub = None;
        let w = Width(1, Some(Arc::new(|_, _| std::thread::sleep(Duration::from_millis(4)))));
        for t in [SolverType::Parallel, SolverType::Barrier] {
            let ub = solve_timeout("demo", Duration::from_millis(1 + seed), &w, &dp, &Relax, &Ranking, Some(2), t, CutsetType::LastExactLayer);
            if ub < dp.opt().unwrap() {
                fail(&format!("bound {} below the optimum {}", ub, dp.opt().unwrap()));
            }
        }
    }
    println!("ok");
}
''')

SWEEP = '''mod common;
use common::*;
use engineering::*;
fn main() {
    watchdog(115);
    sweep(%s, &[%s], %d, 7, 8, 3, %d, -9, 9);
    println!("ok");
}
'''
THRESHOLDS = r'''mod common;
use common::*;
use engineering::*;
use parking_lot::RwLock;
use rustc_hash::FxHashMap;
use std::sync::Arc;
type Maps = Arc<Vec<RwLock<FxHashMap<Arc<State>, BarrierInfo>>>>;
// One relaxed diagram of the whole problem, given an incumbent. A threshold T of a state claims that
// no path of value T to it is of use: each of its completions is either not better than the
// incumbent, or goes through a node of the cutset which is at least as good.
fn useful(dp: &Dp, cut: &[SubProblem<State>], d: usize, s: usize, v: isize, lb: isize) -> bool {
    if cut.iter().any(|c| c.state.depth == d && c.state.set == 1 << s && c.value >= v) {
        return false;
    }
    if d == dp.n {
        return v > lb;
    }
    dp.next[d][s].iter().flatten().any(|t| useful(dp, cut, d + 1, t.0, v + t.1, lb))
}
fn main() {
    watchdog(115);
    for seed in 0..60000u64 {
        let mut r = Rng(seed);
        let n = 3 + r.below(4);
        let mut dp = Dp::random(&mut r, n, 6, 3, 20, -9, 9);
        dp.rub = Some(0);
        let maps: Maps = Arc::new((0..=n).map(|_| Default::default()).collect());
        let Some(opt) = dp.opt() else { continue };
        let lb = opt - r.range(0, 3);
        let mut dd = Barrier::new(maps.clone(), if seed % 2 == 0 { CutsetType::LastExactLayer } else { CutsetType::Frontier });
        let residual = SubProblem { state: Arc::new(dp.initial_state()), value: dp.init, path: vec![], ub: isize::MAX };
        dd.compile(&CompilationInput { comp_type: CompilationType::Relaxed, max_width: 1 + r.below(3), problem: &dp, relaxation: &Relax, ranking: &Ranking, residual, best_lb: lb });
        if dd.is_exact() {
            continue;
        }
        let mut cut = vec![];
        dd.drain_cutset(|c| cut.push(c));
        for (d, m) in maps.iter().enumerate() {
            for (s, info) in m.read().iter() {
                let i = s.set.trailing_zeros() as usize;
                let t = info.theta.min(1000);
                if d > 0 && info.explored && s.set.count_ones() == 1 && useful(&dp, &cut, d, i, t, lb) {
                    fail(&format!("seed {}: paths of value {} to {:?} are discarded while they lead to {}, better than {}", seed, t, s, t + dp.best[d][i].unwrap(), lb));
                }
            }
        }
    }
    println!("ok");
}
'''
mk("bounded-nodes-without-theta", "C13",
 "a relaxed diagram with a merged node whose rough upper bound prunes it",
 "the threshold of an inexact node pruned by its rough bound is not recorded: its ancestors get thresholds that are too large, and other paths to them are pruned",
 [(WB, "                    self.nodes[node_id.0].theta = input.best_lb.saturating_sub(rub); // set theta for later propagation\n\n                    if matches!(input.comp_type, CompilationType::Relaxed) && self.nodes[node_id.0].flags.is_exact() {\n",
   "                    if matches!(input.comp_type, CompilationType::Relaxed) && self.nodes[node_id.0].flags.is_exact() {\n                        self.nodes[node_id.0].theta = input.best_lb.saturating_sub(rub); // set theta for later propagation\n")],
 THRESHOLDS)

mk("cutset-nodes-explored", "C02",
 "the frontier cutset, and a cutset node whose threshold was not published before",
 "the nodes of a frontier cutset are marked as explored, as if nothing had to be done with them any more",
 [(WB, "                    !self.nodes[node_id.0].flags.is_cutset() // do not", "                    self.cutset_type == CutsetType::Frontier || !self.nodes[node_id.0].flags.is_cutset() // do not")],
 SWEEP % ("true", "CutsetType::Frontier", 3000, 20))

mk("last-child-ignored", "C10",
 "a pop that leaves a heap whose last node is a right child of the node that sinks, and better than it",
 "the last node of the heap is never moved up when another one sinks above it: pop does not return the node of largest bound",
 [(ND, "        if right >= size {", "        if right + 1 >= size {")],
 '''mod common;
use common::*;
use engineering::*;
use std::sync::Arc;
fn main() {
    watchdog(100);
    for seed in 0..2000 {
        let mut r = Rng(seed);
        let mut f = NoDupFrontier::new(&Ranking);
        let mut held: Vec<isize> = vec![];
        for i in 0..60 {
            if r.below(3) > 0 {
                let ub = r.range(-50, 50);
                held.push(ub);
                f.push(SubProblem { state: Arc::new(State { depth: 1, set: i }), value: 0, path: vec![], ub });
            } else {
                let want = held.iter().copied().max();
                let got = f.pop().map(|n| n.ub);
                if got != want {
                    fail(&format!("seed {}: {:?} popped instead of {:?}", seed, got, want));
                }
                if let Some(x) = got {
                    held.remove(held.iter().position(|h| *h == x).unwrap());
                }
            }
        }
    }
    println!("ok");
}
''')

mk("value-without-path", "C03",
 "a node pushed again with a larger value while its state is still in the frontier",
 "a duplicate with a larger value updates the value of the node in the frontier but keeps the path of the older one: solutions are not worth their value",
 [(ND, "                if new_lp > old_lp {\n                    self.nodes[id.0] = node;\n                }", "                if new_lp > old_lp {\n                    self.nodes[id.0].value = new_lp;\n                }")],
 SWEEP % ("false", "CutsetType::LastExactLayer, CutsetType::Frontier", 20000, 20))

mk("gives-way-to-timer", "C19",
 "an action that finishes while the exit action is running",
 "when the action finishes during the exit action, timeout returns to its caller, which may end the process before the exit action is complete",
 [(XP, "    action();\n    let _lock = switch.lock().unwrap();\n    exit(0);", "    action();\n    let free = switch.try_lock();\n    if free.is_ok() {\n        exit(0);\n    }")],
 __import__("bugs_timeout_main").MAIN.replace("            },\n        );\n", "            },\n        );\n        return;\n"))
