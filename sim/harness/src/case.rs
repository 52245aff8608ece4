//! A `Case` is the complete description of one simulated execution: the model
//! to solve, the solver configuration, the workload, the faults and the
//! scheduler. It is a pure function of (property, seed) and can be written to
//! and read from one line of text.
use simrt::{Config, Rng, Strategy};

macro_rules! case {
    ($($f:ident = $d:expr),* $(,)?) => {
        #[derive(Debug, Clone, PartialEq, Eq)]
        pub struct Case { $(pub $f: i64),* }
        impl Default for Case {
            fn default() -> Self { Case { $($f: $d),* } }
        }
        impl Case {
            pub fn to_line(&self) -> String {
                let mut v: Vec<String> = vec![];
                let d = Case::default();
                $( if self.$f != d.$f { v.push(format!("{}={}", stringify!($f), self.$f)); } )*
                v.join(" ")
            }
            pub fn from_line(s: &str) -> Case {
                let mut c = Case::default();
                for kv in s.split_whitespace() {
                    if let Some((k, v)) = kv.split_once('=') {
                        let v: i64 = match v.parse() { Ok(v) => v, Err(_) => continue };
                        match k {
                            $( stringify!($f) => c.$f = v, )*
                            _ => {}
                        }
                    }
                }
                c
            }
            pub fn fields(&self) -> Vec<(&'static str, i64, i64)> {
                let d = Case::default();
                vec![$( (stringify!($f), self.$f, d.$f) ),*]
            }
            pub fn with(&self, name: &str, v: i64) -> Case {
                let mut c = self.clone();
                match name {
                    $( stringify!($f) => c.$f = v, )*
                    _ => {}
                }
                c
            }
        }
    };
}

case! {
    // ---- model
    model_seed = 1,
    n = 2,
    b = 1,
    d = 1,
    cost_lo = 0,
    cost_hi = 3,
    scale = 1,
    forbid = 0,      // percent of forbidden transitions
    init = 0,
    potential = 0,   // all the paths to a state have the same value
    est = 0,         // 0 none, 1 exact, 2 slack, 3 slack + MAX for infeasible, 4 exact or nothing
    relax_slack = 0,
    rank = 0,
    perm = 0,
    nv_some = 0,     // next_variable returns Some on an empty layer
    hash_kind = 0,
    lattice = 0,     // >0: states are pairs of resources, the second of which has that many levels
    shift = 0,       // the costs comprise potentials of the states
    dynm = 0,        // >0: the order of the variables depends on the states
    voff = 0,        // the values of the variables start there
    // ---- solver
    solver = 0,      // 0 parallel + nodup, 1 parallel + simple, 2 barrier
    cutset = 0,      // 0 lel, 1 frontier
    threads = 1,
    ctor = 0,        // 0 custom(n), 1 custom(m) + with_nb_threads(n), 2 new on m cpus + with_nb_threads(n), 3 new on n cpus
    ctor_m = 1,
    width_kind = 0,
    width = 1,
    // ---- workload
    mode = 0,        // 0 maximize, 1 never interrupted, 2 kth poll, 3 time, 4 flag raised by a thread, 5 kth expansion
    int_k = 0,
    rounds = 1,      // number of interrupted rounds
    resume = 0,      // finish with 1 maximize, 2 maximize_with_interrupt(never)
    rethread = 0,    // another number of threads for that last call
    panic_cb = 0,    // 1+kind of the callback that panics
    panic_at = 0,
    ops = 0,
    twin = 0,        // two resolutions: what distinguishes the second one from the first
    twin_kind = 0,   // 0 two problems at the same time, 1 twice the same one, 2 one after the other with the same frontier
    // ---- simulation
    strategy = 4,
    p = 8,
    pct_d = 3,
    pct_len = 400,
    edge_gap = 0,
    cb_mask = 0,
    cb_p = 1,
    tick = 2000,
    jump_ppm = 0,
    jump_max = 0,
    spawn_fail = 0,
    spurious = 0,
    step_cap = 60000,
}

pub fn sim_config(c: &Case, seed: u64, replay: Option<Vec<(u64, u32)>>) -> Config {
    Config {
        seed,
        strategy: Strategy::from_u64(c.strategy as u64),
        p: c.p.max(1) as u64,
        pct_d: c.pct_d as u64,
        pct_len: c.pct_len.max(1) as u64,
        edge_gap: c.edge_gap as u64,
        tick_ns: c.tick as u64,
        spawn_fail_ppm: c.spawn_fail as u64,
        clock_jump_ppm: c.jump_ppm as u64,
        clock_jump_max_ns: c.jump_max.max(1) as u64,
        spurious_ppm: c.spurious as u64,
        cpus: if c.ctor == 3 { c.threads } else { c.ctor_m }.max(1) as u64,
        step_cap: c.step_cap as u64,
        fair_cap: 2 * c.step_cap as u64,
        replay,
        ..Config::default()
    }
}

fn pick(r: &mut Rng, xs: &[i64]) -> i64 {
    xs[r.below(xs.len() as u64) as usize]
}

/// The part of a case that every check shares.
pub fn gen_model(r: &mut Rng) -> Case {
    let mut c = Case::default();
    c.model_seed = (r.next() >> 20) as i64;
    c.n = pick(r, &[2, 3, 4, 4, 5, 5, 6, 6, 7, 8]);
    c.b = pick(r, &[1, 2, 3, 4, 4, 5, 6, 7, 8, 12]);
    c.d = pick(r, &[1, 2, 2, 2, 2, 2, 3, 3, 3, 4]);
    let (lo, hi) = match r.below(6) {
        0 => (0, 1),
        1 => (-2, 2),
        2 => (0, 10),
        3 => (-10, 10),
        4 => (-12, -1),
        _ => (-100, 100),
    };
    c.cost_lo = lo;
    c.cost_hi = hi;
    c.scale = if r.chance(1, 12) { 1_000_000_007_000 } else { 1 };
    c.forbid = pick(r, &[0, 0, 0, 10, 20, 30, 50]);
    c.init = pick(r, &[0, 0, 0, 5, -5, 17, -23, 1000, -1000]);
    c.potential = r.chance(1, 12) as i64;
    c.est = pick(r, &[0, 0, 0, 1, 2, 2, 3, 4]);
    c.relax_slack = pick(r, &[0, 0, 0, 3]);
    c.rank = r.below(5) as i64;
    c.perm = r.below(2) as i64;
    c.nv_some = r.chance(1, 3) as i64;
    c.hash_kind = pick(r, &[0, 0, 1, 2, 3, 3, 4]);
    c.solver = r.below(3) as i64;
    c.cutset = r.below(2) as i64;
    c.threads = pick(r, &[1, 2, 2, 2, 3, 3, 3, 4, 4, 5, 6]);
    c.width_kind = r.chance(1, 3) as i64;
    c.width = pick(r, &[1, 1, 1, 2, 2, 2, 3, 4, 6]);
    if r.chance(1, 3) {
        // many states, narrow diagrams, loose bounds: a real search
        c.n = 3 + r.below(4) as i64;
        c.b = 5 + r.below(10) as i64;
        c.d = 2 + r.below(3) as i64;
        c.width = 1 + r.below(3) as i64;
        c.est = 0;
        c.forbid = pick(r, &[0, 0, 10]);
    }
    if r.chance(1, 4) {
        // merged states look like ordinary ones
        c.lattice = 1 + r.below(5) as i64;
        c.b = c.lattice * (1 + r.below(20 / c.lattice as u64) as i64);
        c.n = c.n.max(3);
        c.d = c.d.max(2);
        c.forbid = pick(r, &[0, 30, 60, 90]);
        c.potential = 0;
    }
    match r.below(40) {
        0 => {
            // many variables, few states, a bound that guides the search
            c.n = pick(r, &[20, 20, 20, 30, 30, 40, 40, 60, 60, 90]);
            c.b = 1 + r.below(3) as i64;
            if r.chance(1, 8) {
                c.n = pick(r, &[258, 300]);
                c.b = 1 + r.below(2) as i64;
                c.width = 2;
            }
            c.d = 1 + r.below(2) as i64;
            c.est = 1;
            c.potential = 0;
            (c.cost_lo, c.cost_hi) = (-100, 100);
            c.lattice = 0;
            c.forbid = pick(r, &[0, 10]);
            c.relax_slack = 0;
        }
        1 => {
            // wide layers and diagrams
            c.n = 3 + r.below(3) as i64;
            c.b = 20 + r.below(11) as i64;
            c.d = 4 + r.below(5) as i64;
            c.width = pick(r, &[3, 8, 15, 25]);
        }
        2 | 3 => {
            c.n = 8 + r.below(4) as i64;
            c.d = 2;
        }
        _ => {}
    }
    if r.chance(1, 8) {
        c.voff = pick(r, &[-1, -3, 200, 70_000, 10_000_000_000, -10_000_000_000]);
    }
    if r.chance(1, 60) {
        c.threads = 0; // as one
    } else if r.chance(1, 150) {
        c.threads = pick(r, &[9, 12, 17, 20, 33, 40, 65]);
    }
    if r.chance(1, 3) {
        // (the costs depend on where the arcs lead)
        c.shift = 1 + r.below(3) as i64;
    }
    if c.n <= 12 && r.chance(1, 6) {
        // the order of the variables depends on the states
        c.dynm = 1 + r.below(2) as i64;
        c.lattice = 0;
        c.potential = 0;
        c.n = c.n.clamp(2, 7);
        c.b = c.b.clamp(1, 12);
        c.d = c.d.min(4);
    }
    if r.chance(1, 60) {
        c.n = pick(r, &[0, 1, 1, 1]);
    }
    if r.chance(1, 40) && c.n <= 12 {
        c.scale = 1_000_000_000_000_007;
    }
    c
}

pub fn gen_sim(c: &mut Case, r: &mut Rng) {
    c.strategy = pick(r, &[0, 0, 0, 0, 1, 2, 2, 3, 3, 4]);
    c.p = pick(r, &[2, 4, 8, 16, 40]);
    c.pct_d = pick(r, &[1, 2, 3, 5, 10]);
    c.pct_len = pick(r, &[100, 400, 1500]);
    c.edge_gap = if r.chance(3, 10) { pick(r, &[3, 20, 100, 500]) } else { 0 };
    c.cb_mask = if r.chance(1, 4) { 0 } else { (r.below(1024)) as i64 };
    c.cb_p = pick(r, &[1, 2, 5]);
    c.tick = pick(r, &[100, 2000, 1_000_000]);
    if r.chance(1, 6) {
        c.jump_ppm = pick(r, &[200, 3000]);
        c.jump_max = pick(r, &[1_000_000, 100_000_000_000]);
    }
    c.spurious = if r.chance(1, 4) { 20_000 } else { 0 };
}

pub fn gen_ctor(c: &mut Case, r: &mut Rng) {
    if r.chance(1, 5) {
        c.ctor = 1 + r.below(3) as i64;
        c.ctor_m = pick(r, &[1, 2, 4, 8]);
    }
}
