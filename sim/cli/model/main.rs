//! sim_model : `xputils::solve_timeout`, and `resolution_header`, on a synthetic model
//! (the case is read from VSIM_CASE); prints what is needed to judge them.
#![allow(dead_code)]
#[path = "../../harness/src/case.rs"]
mod case;
#[path = "../../harness/src/model.rs"]
mod model;
#[path = "../../harness/src/obs.rs"]
mod obs;

use engineering::xputils::{resolution_header, solve_timeout, SolverType};
use engineering::CutsetType;
use std::time::Duration;

fn main() {
    simrt::keep_symbols();
    let get = |k: &str| std::env::var(k).unwrap_or_default();
    let c = case::Case::from_line(&get("VSIM_CASE"));
    let m = model::Model::new(&c);
    let threads = (c.ctor != 3).then_some(c.threads.max(0) as usize);
    let solver = if c.solver == 2 { SolverType::Barrier } else { SolverType::Parallel };
    let cutset = if c.cutset == 0 { CutsetType::LastExactLayer } else { CutsetType::Frontier };
    let limit = c.int_k.max(0) as u64;
    obs::reset(&c);
    obs::obs(|o| o.limit = Some(limit));
    resolution_header();
    let ret = solve_timeout("synthetic", Duration::from_nanos(limit), &m, &m, &m, &m, threads, solver, cutset);
    let o = obs::take();
    println!("returned {}", ret);
    println!("optimum {}", m.opt().map_or("none".to_string(), |x| x.to_string()));
    println!("expanded {}", o.expansions);
    println!("started {}", o.starts.len());
    println!("late {}", o.late);
}
