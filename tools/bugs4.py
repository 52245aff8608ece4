#!/usr/bin/env python3
import sys, os
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import bug
from bug import mk
PAR, BAR, ALL, WB, ND, XP = "src/solver/parallel.rs", "src/solver/barrier.rs", "src/mdd/with_all.rs", "src/mdd/with_barrier.rs", "src/frontier/no_dup.rs", "src/xputils.rs"

mk("last-bit-of-word", "C14", "an instance of more than 63 cities", "the iteration over a bit set skips the last bit of each word: a city is never visited, feasible instances have no solution",
   [("src/utils.rs", "if w == 0 || self.offset >= 64 {", "if w == 0 || self.offset >= 63 {")],
   '''mod common;
use common::*;
use bitset_fixed::BitSet;
use engineering::BitSetIter;
fn main() {
    watchdog(110);
    for n in 1..200 {
        let mut r = Rng(n as u64);
        let mut b = BitSet::new(n);
        let want: Vec<usize> = (0..n).filter(|_| r.below(2) == 0).collect();
        want.iter().for_each(|i| b.set(*i, true));
        let got: Vec<usize> = BitSetIter::new(&b).collect();
        if got != want {
            fail(&format!("{:?} instead of {:?}", got, want));
        }
    }
    println!("ok");
}
''')
p = os.path.join(bug.ROOT, "seeded", "last-bit-of-word", "demo.sh")
s = open(p).read()
open(p, "w").write(s.replace('rustc-hash = "1.1.0"', 'rustc-hash = "1.1.0"\nbitset-fixed = "*"'))

mk("bounds-by-processor", "C05", "more workers than processors, the node of largest bound being processed by one of two workers that share a slot", "there is one slot for the bound of running nodes for each processor: with more workers than that, one overwrites the bound of another, and the upper bound of an interrupted resolution can fall below the optimum",
   [(PAR, "        critical.upper_bounds[thread_id] = isize::MAX;", "        critical.upper_bounds[thread_id % num_cpus::get()] = isize::MAX;"),
    (PAR, "        critical.upper_bounds[thread_id] = nn.ub;", "        critical.upper_bounds[thread_id % num_cpus::get()] = nn.ub;")],
   '''mod common;
use common::*;
use engineering::*;
use std::sync::atomic::{AtomicUsize, Ordering::SeqCst};
use std::sync::Arc;
use std::time::Duration;
// Subproblems take from 0 to 3 ms; the interruption comes at the k-th question.
fn main() {
    watchdog(115);
    let t = 3 * std::thread::available_parallelism().map_or(8, |n| n.get());
    for it in 0..800u64 {
        let mut r = Rng(it / 10);
        let mut dp = Dp::random(&mut r, 7, 12, 4, 0, 0, 99);
        dp.rub = None;
        let w = Width(1, Some(Arc::new(move |_, s| {
            let mut r = Rng(s.set * 1000 + s.depth as u64 + it);
            std::thread::sleep(Duration::from_micros(1000 * r.below(4) as u64));
        })));
        let n = AtomicUsize::new(0);
        let k = 4 + 3 * t + 7 * (it % 10) as usize;
        let o = solve(false, &dp, CutsetType::LastExactLayer, &w, t, move || n.fetch_add(1, SeqCst) >= k);
        let opt = dp.opt().unwrap_or(isize::MIN);
        if o.ub < opt || o.lb > opt {
            fail(&format!("bounds [{}, {}] while the optimum is {} (try {})", o.lb, o.ub, opt, it));
        }
    }
    println!("ok");
}
''')

mk("limit-in-milliseconds", "C17", "a time limit of more than 49 days", "the time limit is kept in 32 bits of milliseconds: a long one wraps around to a short one",
   [(XP, "maximize_with_interrupt(move || start.elapsed().gt(&to));", "maximize_with_interrupt(move || start.elapsed().as_millis() as u32 > to.as_millis() as u32);", 2)],
   '''mod common;
use common::*;
use engineering::{xputils::*, CutsetType};
use std::sync::Arc;
use std::time::Duration;
fn main() {
    watchdog(110);
    for seed in 0..10 {
        let mut r = Rng(seed);
        let mut dp = Dp::random(&mut r, 6, 12, 4, 0, 0, 99);
        dp.rub = None;
        let w = Width(1, Some(Arc::new(|_, _| std::thread::sleep(Duration::from_millis(1)))));
        for t in [SolverType::Parallel, SolverType::Barrier] {
            // 2^32 milliseconds
            let ub = solve_timeout("demo", Duration::from_millis(1 << 32), &w, &dp, &Relax, &Ranking, Some(2), t, CutsetType::LastExactLayer);
            if ub != dp.opt().unwrap() {
                fail(&format!("bound {} instead of the optimum {}", ub, dp.opt().unwrap()));
            }
        }
    }
    println!("ok");
}
''')
