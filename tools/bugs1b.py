#!/usr/bin/env python3
import sys, os
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from bug import mk
PAR="src/solver/parallel.rs"; ALL="src/mdd/with_all.rs"; XP="src/xputils.rs"
mk("ongoing-counted-late", "C05",
 "an interruption seen by a worker while another one, which just took the node of largest bound, is asking for the width of its diagrams",
 "a node taken by a worker is only counted once its width is known: the upper bound of an interrupted resolution can fall below the optimum",
 [(PAR, "        critical.ongoing += 1;\n", ""),
  (PAR, "        if node_ub <= best_lb {\n            return explored_dd;", "        if node_ub <= best_lb {\n            shared.critical.lock().ongoing += 1;\n            return explored_dd;"),
  (PAR, "        let width = shared.width_heu.max_width(&node.state);\n", "        let width = shared.width_heu.max_width(&node.state);\n        shared.critical.lock().ongoing += 1;\n")],
 '''mod common;
use common::*;
use engineering::*;
use std::sync::atomic::{AtomicBool, AtomicUsize, Ordering::SeqCst};
use std::sync::Arc;
use std::time::Duration;
// The width of every diagram but the first takes long to decide; the interruption comes meanwhile.
fn main() {
    watchdog(110);
    for it in 0..150u64 {
        let mut r = Rng(it);
        let mut dp = Dp::random(&mut r, 5, 6, 3, 0, 0, 99);
        dp.rub = None;
        let n = AtomicUsize::new(0);
        let busy = Arc::new(AtomicBool::new(false));
        let b = busy.clone();
        let w = Width(1, Some(Arc::new(move |_, _| {
            if n.fetch_add(1, SeqCst) > 0 {
                b.store(true, SeqCst);
                std::thread::sleep(Duration::from_millis(20));
            }
        })));
        let o = solve(false, &dp, CutsetType::LastExactLayer, &w, 2, move || busy.load(SeqCst));
        let opt = dp.opt().unwrap_or(isize::MIN);
        if o.ub < opt || o.lb > opt {
            fail(&format!("bounds [{}, {}] while the optimum is {}", o.lb, o.ub, opt));
        }
    }
    println!("ok");
}
''')
import bugs_timeout_main
mk("timeout-guard-dropped", "C19",
 "an action that ends while the exit action runs",
 "the lock is released before the exit action is run: the process can exit with status 0 in the middle of it",
 [(XP, "let _lock = kswitch.lock().unwrap();\n        kat_exit();", "drop(kswitch.lock().unwrap());\n        kat_exit();")],
 bugs_timeout_main.MAIN)
mk("recycled-node-not-relaxed", "C03",
 "states merged into one that is already kept in the layer, which takes a relaxation whose merged states are ordinary states",
 "a node reused for merged states is not flagged relaxed: a diagram containing infeasible paths claims to be exact",
 [(ALL, "        self.nodes[merged_id.0].flags.set_relaxed(true);\n\n", "")],
 '''use engineering::*;
mod common;
use common::{fail, Rng};
use std::cmp::Ordering;
// Two resources: having more of either is never worse, hence merged states are ordinary states.
#[derive(Debug, Clone, PartialEq, Eq, Hash)]
struct S { depth: usize, a: usize, b: usize }
struct K { ca: usize, cb: usize, items: Vec<(usize, usize, isize)> }
impl K {
    fn best(&self, d: usize, a: usize, b: usize) -> isize {
        if d == self.items.len() { return 0; }
        let (x, y, p) = self.items[d];
        let no = self.best(d + 1, a, b);
        if a >= x && b >= y { no.max(p + self.best(d + 1, a - x, b - y)) } else { no }
    }
    fn value(&self, sol: &[Decision]) -> Option<isize> {
        let (mut a, mut b, mut v) = (self.ca, self.cb, 0);
        for (i, (x, y, p)) in self.items.iter().enumerate() {
            if sol.iter().find(|d| d.var.0 == i)?.value == 1 {
                a = a.checked_sub(*x)?;
                b = b.checked_sub(*y)?;
                v += p;
            }
        }
        Some(v)
    }
}
impl Problem for K {
    type State = S;
    fn nb_variables(&self) -> usize { self.items.len() }
    fn initial_state(&self) -> S { S { depth: 0, a: self.ca, b: self.cb } }
    fn initial_value(&self) -> isize { 0 }
    fn next_variable(&self, l: &mut dyn Iterator<Item = &S>) -> Option<Variable> {
        l.next().filter(|s| s.depth < self.items.len()).map(|s| Variable(s.depth))
    }
    fn for_each_in_domain<F: FnMut(Decision)>(&self, var: Variable, s: &S, mut f: F) {
        let (x, y, _) = self.items[s.depth];
        f(Decision { var, value: 0 });
        if s.a >= x && s.b >= y { f(Decision { var, value: 1 }) }
    }
    fn transition(&self, s: &S, d: Decision) -> S {
        let (x, y, _) = self.items[s.depth];
        let k = d.value as usize;
        S { depth: s.depth + 1, a: s.a - k * x, b: s.b - k * y }
    }
    fn transition_cost(&self, s: &S, d: Decision) -> isize { self.items[s.depth].2 * d.value }
    fn estimate(&self, _: &S) -> isize { isize::MAX }
}
struct R(isize);
impl Relaxation for R {
    type State = S;
    fn merge(&self, it: &mut dyn Iterator<Item = &S>) -> S {
        let mut m = S { depth: 0, a: 0, b: 0 };
        for s in it {
            m = S { depth: s.depth, a: m.a.max(s.a), b: m.b.max(s.b) };
        }
        m
    }
    fn relax(&self, _: &S, _: &S, _: &S, _: Decision, cost: isize) -> isize { cost + self.0 }
}
struct O(usize);
impl StateRanking for O {
    type State = S;
    fn compare(&self, x: &S, y: &S) -> Ordering {
        let f = |s: &S| (s.a * 31 + s.b * 17 + 5) * (self.0 * 2 + 1) % 61;
        f(x).cmp(&f(y))
    }
}
struct W(usize);
impl WidthHeuristic<S> for W {
    fn max_width(&self, _: &S) -> usize { self.0 }
}
fn main() {
    for seed in 0..6000u64 {
        let mut r = Rng(seed);
        let n = 2 + r.below(4);
        let k = K { ca: 1 + r.below(5), cb: 1 + r.below(5), items: (0..n).map(|_| (r.below(3), r.below(3), r.range(-4, 4))).collect() };
        let opt = k.best(0, k.ca, k.cb);
        for w in 2..6 {
            let o = O(r.below(1000));
            let mut f = NoDupFrontier::new(&o);
            let w = W(w);
            let rx = R((seed % 5) as isize);
            let mut s = ParallelSolver::custom(&k, &rx, &o, &w, CutsetType::LastExactLayer, &mut f, 1);
            s.maximize();
            if s.best_value() != Some(opt) || k.value(&s.best_solution().unwrap()) != Some(opt) {
                fail(&format!("seed {}: {:?} ({:?}) instead of {}", seed, s.best_value(), k.value(&s.best_solution().unwrap()), opt));
            }
        }
    }
    println!("ok");
}
''')
