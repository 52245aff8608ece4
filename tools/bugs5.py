#!/usr/bin/env python3
import sys, os
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from bug import mk
ALL, WB = "src/mdd/with_all.rs", "src/mdd/with_barrier.rs"
MAIN = '''mod common;
use common::*;
use engineering::CutsetType::*;
fn main() {
    watchdog(60);
    sweep(%s, &[%s], 300, 8, 6, 3, 20, -3, 3);
    println!("ok");
}
'''
mk("width-counted-from-the-root", "C04", "a subproblem other than the root one, with more successors than the width", "the layers of a relaxed diagram are numbered from the root of the problem: the children of the root of a subproblem may be merged, its cutset is itself and it is enqueued for ever",
   [(ALL, "        let mut depth = 0;", "        let mut depth = input.residual.path.len();")], MAIN % ("false", "LastExactLayer, Frontier"))
