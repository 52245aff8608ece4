#!/usr/bin/env python3
import sys, os
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from bug import mk
PAR, BAR, ALL, WB, ND, XP = "src/solver/parallel.rs", "src/solver/barrier.rs", "src/mdd/with_all.rs", "src/mdd/with_barrier.rs", "src/frontier/no_dup.rs", "src/xputils.rs"

mk("bound-slot-by-count", "C05",
 "two workers that finish out of order, then an interruption while the node of largest bound is being processed",
 "the bound of a running node is stored in a slot chosen by the number of running nodes: another worker overwrites it, and the upper bound of an interrupted resolution can fall below the optimum",
 [(PAR, "critical.upper_bounds[thread_id] = nn.ub;", "let slot = critical.ongoing - 1;\n        critical.upper_bounds[slot] = nn.ub;")],
 '''mod common;
use common::*;
use engineering::*;
use std::sync::atomic::{AtomicUsize, Ordering::SeqCst};
use std::sync::Arc;
use std::time::Duration;
// Subproblems take from 0 to 3 ms; the interruption comes at the k-th question.
fn main() {
    watchdog(115);
    for it in 0..1500u64 {
        let mut r = Rng(it / 10);
        let mut dp = Dp::random(&mut r, 5, 7, 4, 0, 0, 99);
        dp.rub = None;
        let w = Width(1, Some(Arc::new(move |_, s| {
            let mut r = Rng(s.set * 1000 + s.depth as u64 + it);
            std::thread::sleep(Duration::from_micros(1000 * r.below(4) as u64));
        })));
        let n = AtomicUsize::new(0);
        let k = 4 + 2 * (it % 10) as usize;
        let o = solve(false, &dp, CutsetType::LastExactLayer, &w, 3, move || n.fetch_add(1, SeqCst) >= k);
        let opt = dp.opt().unwrap_or(isize::MIN);
        if o.ub < opt || o.lb > opt {
            fail(&format!("bounds [{}, {}] while the optimum is {} (try {})", o.lb, o.ub, opt, it));
        }
    }
    println!("ok");
}
''')

mk("wakes-one-worker", "C04",
 "three workers or more, at least two of which wait when the last node is finished",
 "only one of the waiting workers is woken when a node is finished: the others wait forever",
 [(PAR, "critical.explored_dd += explored_dd;\n        shared.monitor.notify_all();", "critical.explored_dd += explored_dd;\n        shared.monitor.notify_one();")],
 '''mod common;
use common::*;
use engineering::*;
use std::sync::Arc;
use std::time::Duration;
fn main() {
    watchdog(60);
    for it in 0..60u64 {
        let mut r = Rng(it);
        let dp = Dp::random(&mut r, 4, 5, 3, 0, -9, 9);
        let w = Width(1, Some(Arc::new(|_, _| std::thread::sleep(Duration::from_millis(3)))));
        let o = solve(false, &dp, CutsetType::LastExactLayer, &w, 5, || false);
        if o.value != dp.opt() {
            fail("wrong optimum");
        }
    }
    println!("ok");
}
''')

SWEEP = '''mod common;
use common::*;
use engineering::*;
fn main() {
    watchdog(115);
    sweep(%s, &[%s], %d, 7, 8, 3, %d, -9, 9);
    println!("ok");
}
'''
mk("best-path-through-merged", "C09",
 "a relaxed diagram whose best path goes through a merged node whose parents are exact",
 "a relaxed diagram claims to be exact although its best path goes through a merged node",
 [(ALL, "                !n.flags.is_relaxed()\n                    && self.has_exact_best_path(n.best.map(|e| self.edges[e.0].from))",
   "                n.best.map_or(false, |e| self.has_exact_best_path(Some(self.edges[e.0].from)))")],
 SWEEP % ("false", "CutsetType::LastExactLayer", 4000, 20))

mk("deleted-nodes-publish", "C13",
 "the frontier cutset, and exact nodes merged in a relaxed diagram with barriers",
 "the nodes dropped by a merge publish a threshold: their completions are ruled out although they were never explored",
 [(WB, "            if self.nodes[node_id.0].flags.is_deleted() {\n                continue;\n            }\n",
       "            if self.nodes[node_id.0].flags.is_deleted() && self.cutset_type == CutsetType::LastExactLayer {\n                continue;\n            }\n")],
 SWEEP % ("true", "CutsetType::Frontier", 4000, 10))

mk("polls-only-when-idle", "C06",
 "several workers: one of them asks for work while another one is processing a subproblem",
 "the interruption callback is not consulted while other workers are busy",
 [(BAR, "} else if interrupt() {", "} else if critical.ongoing == 0 && interrupt() {")],
 '''mod common;
use common::*;
use engineering::*;
use std::sync::atomic::{AtomicUsize, Ordering::SeqCst};
use std::sync::Arc;
use std::time::Duration;
fn main() {
    watchdog(110);
    for it in 0..40u64 {
        let mut r = Rng(it);
        let mut dp = Dp::random(&mut r, 6, 7, 3, 0, 0, 99);
        dp.rub = None;
        let started = Arc::new(AtomicUsize::new(0));
        let polls = Arc::new(AtomicUsize::new(0));
        let (s, p) = (started.clone(), polls.clone());
        let w = Width(1, Some(Arc::new(move |_, _| {
            s.fetch_add(1, SeqCst);
            std::thread::sleep(Duration::from_millis(1));
        })));
        solve(true, &dp, CutsetType::LastExactLayer, &w, 3, move || {
            p.fetch_add(1, SeqCst);
            false
        });
        let (s, p) = (started.load(SeqCst), polls.load(SeqCst));
        if p < s {
            fail(&format!("{} subproblems but only {} questions", s, p));
        }
    }
    println!("ok");
}
''')

mk("exact-relaxation-not-counted", "C12",
 "a subproblem closed by a relaxed diagram that turns out exact",
 "the nodes of a relaxed diagram are only counted when it has a cutset",
 [(BAR, "        explored_dd += mdd.get_explored();\n        if mdd.is_exact() {\n            Self::maybe_update_best(mdd, shared);\n        } else {\n            Self::enqueue_cutset(mdd, shared, node_ub);",
   "        if mdd.is_exact() {\n            Self::maybe_update_best(mdd, shared);\n        } else {\n            explored_dd += mdd.get_explored();\n            Self::enqueue_cutset(mdd, shared, node_ub);")],
 '''mod common;
use common::*;
use engineering::*;
use std::sync::atomic::{AtomicUsize, Ordering::SeqCst};
use std::sync::Arc;
fn main() {
    for seed in 0..2000 {
        let mut r = Rng(seed);
        let mut dp = Dp::random(&mut r, 6, 8, 3, 20, -9, 9);
        let count = Arc::new(AtomicUsize::new(0));
        let c = count.clone();
        dp.hook = Some(Arc::new(move |what, _| {
            if what == "domain" {
                c.fetch_add(1, SeqCst);
            }
        }));
        let w = Width(1 + r.below(4), None);
        let o = solve(true, &dp, CutsetType::LastExactLayer, &w, 1, || false);
        if o.explored_dd != count.load(SeqCst) {
            fail(&format!("seed {}: {} nodes reported, {} expanded", seed, o.explored_dd, count.load(SeqCst)));
        }
    }
    println!("ok");
}
''')

mk("explored-flag-ignored", "C11",
 "a state whose node is back in the frontier, with the same value, after it was explored",
 "a state can be explored several times for the same value",
 [(BAR, "nn.value > info.theta || (nn.value == info.theta && !info.explored)", "nn.value >= info.theta")],
 '''mod common;
use common::*;
use engineering::*;
use std::collections::HashMap;
use std::sync::{Arc, Mutex};
// all the paths to a state have the same value: no state is worth exploring twice
fn main() {
    watchdog(110);
    for seed in 0..3000 {
        let mut r = Rng(seed);
        let (n, s, d) = (6, 8, 3);
        let phi: Vec<Vec<isize>> = (0..=n).map(|_| (0..s).map(|_| r.range(-20, 20)).collect()).collect();
        let next = (0..n)
            .map(|l| (0..s).map(|i| (0..d).map(|_| { let t = r.below(s); Some((t, phi[l + 1][t] - phi[l][i])) }).collect()).collect())
            .collect();
        let dp = Dp::new(0, next, None);
        let seen: Arc<Mutex<HashMap<State, usize>>> = Default::default();
        let k = seen.clone();
        let w = Width(1 + r.below(2), Some(Arc::new(move |_, s| *k.lock().unwrap().entry(s.clone()).or_insert(0) += 1)));
        for cutset in [CutsetType::LastExactLayer, CutsetType::Frontier] {
            seen.lock().unwrap().clear();
            let o = solve(true, &dp, cutset, &w, 1 + r.below(3), || false);
            if o.value != dp.opt() {
                fail("wrong optimum");
            }
            if let Some((s, k)) = seen.lock().unwrap().iter().find(|x| *x.1 > 1) {
                fail(&format!("seed {}: {:?} is explored {} times", seed, s, k));
            }
        }
    }
    println!("ok");
}
''')

FRONT = '''mod common;
use common::*;
use engineering::*;
use std::collections::HashMap;
use std::sync::Arc;
fn main() {
    for seed in 0..3000 {
        let mut r = Rng(seed);
        let rank = Ranking;
        let mut f = NoDupFrontier::new(&rank);
        let mut m: HashMap<State, (isize, isize)> = HashMap::new();
        for _ in 0..100 {
            match r.below(%d) {
                0..=5 => {
                    let s = State { depth: r.below(3), set: r.below(8) as u64 };
                    let (value, ub) = (r.range(-9, 9), r.range(-20, 20));
                    f.push(SubProblem { state: Arc::new(s.clone()), value, path: vec![], ub });
                    let e = m.entry(s).or_insert((value, ub));
                    *e = (e.0.max(value), e.1.max(ub));
                }
                6 | 7 => {
                    let best = m.values().map(|x| x.1).max();
                    match f.pop() {
                        None if best.is_some() => fail("a node is lost"),
                        None => {}
                        Some(n) => {
                            if Some(n.ub) != best {
                                fail(&format!("bound {} popped, the largest is {:?}", n.ub, best));
                            }
                            if m.remove(&n.state).map(|x| x.0) != Some(n.value) {
                                fail("unexpected node");
                            }
                        }
                    }
                }
                _ => {
                    f.clear();
                    m.clear();
                }
            }
            if f.len() != m.len() {
                fail("wrong length");
            }
        }
    }
    println!("ok");
}
'''
mk("duplicate-not-bubbled", "C10",
 "a state pushed again with a larger bound, but through a path that is not longer",
 "the bound of a node already in the frontier grows but the node stays where it was: nodes are popped out of order",
 [(ND, "let action = if self.cmp.compare(&node, &self.nodes[id.0]) == Greater {", "let action = if new_lp > old_lp && self.cmp.compare(&node, &self.nodes[id.0]) == Greater {")],
 FRONT % 8)

mk("clear-keeps-states", "C07",
 "an interruption while nodes are open, then another resolution that reaches the same states",
 "a cleared frontier still believes that it contains the nodes it had",
 [(ND, "        self.states.clear();\n        self.nodes.clear();", "        self.nodes.clear();")],
 '''mod common;
use common::*;
use engineering::*;
use std::sync::atomic::{AtomicUsize, Ordering::SeqCst};
fn main() {
    watchdog(110);
    for seed in 0..300 {
        let mut r = Rng(seed);
        let mut dp = Dp::random(&mut r, 5, 6, 3, 0, 0, 99);
        dp.rub = None;
        let w = Width(1, None);
        let mut f = NoDupFrontier::new(&Ranking);
        let mut s = ParallelSolver::custom(&dp, &Relax, &Ranking, &w, CutsetType::LastExactLayer, &mut f, 1);
        let n = AtomicUsize::new(0);
        s.maximize_with_interrupt(move || n.fetch_add(1, SeqCst) >= 2);
        s.maximize();
        if s.best_value() != dp.opt() || s.best_upper_bound() != dp.opt().unwrap() {
            fail(&format!("{:?} instead of {:?}", s.best_value(), dp.opt()));
        }
    }
    println!("ok");
}
''')
