//! A layered dynamic program given by tables, its relaxation (sets of states), and an exact oracle.
#![allow(dead_code)]
use engineering::*;
use std::cmp::Ordering;
use std::sync::Arc;

pub struct Rng(pub u64);
impl Rng {
    pub fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9E3779B97F4A7C15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
        z ^ (z >> 31)
    }
    pub fn below(&mut self, n: usize) -> usize {
        (self.next() % n as u64) as usize
    }
    pub fn range(&mut self, a: isize, b: isize) -> isize {
        a + self.below((b - a + 1) as usize) as isize
    }
}

#[derive(Debug, Clone, PartialEq, Eq, Hash)]
pub struct State {
    pub depth: usize,
    pub set: u64,
}
pub type Hook = Arc<dyn Fn(&str, &State) + Send + Sync>;

#[derive(Clone)]
pub struct Dp {
    pub n: usize,
    pub init: isize,
    /// next[depth][state][value] = (successor, cost)
    pub next: Vec<Vec<Vec<Option<(usize, isize)>>>>,
    /// slack of the rough upper bound, None: no bound
    pub rub: Option<isize>,
    /// best value from [depth][state] to the end
    pub best: Vec<Vec<Option<isize>>>,
    pub hook: Option<Hook>,
}
impl Dp {
    pub fn new(init: isize, next: Vec<Vec<Vec<Option<(usize, isize)>>>>, rub: Option<isize>) -> Dp {
        let n = next.len();
        let mut best = vec![vec![Some(0); 64]; n + 1];
        for d in (0..n).rev() {
            for s in 0..64 {
                best[d][s] = None;
                if s < next[d].len() {
                    for t in next[d][s].iter().flatten() {
                        if let Some(b) = best[d + 1][t.0] {
                            best[d][s] = best[d][s].max(Some(b + t.1));
                        }
                    }
                }
            }
        }
        Dp { n, init, next, rub, best, hook: None }
    }
    pub fn random(r: &mut Rng, n: usize, s: usize, d: usize, holes: usize, lo: isize, hi: isize) -> Dp {
        let rub = match r.below(3) {
            0 => None,
            1 => Some(0),
            _ => Some(r.range(0, 5)),
        };
        let mut next = vec![];
        for _ in 0..n {
            next.push((0..s).map(|_| (0..d).map(|_| if r.below(100) < holes { None } else { Some((r.below(s), r.range(lo, hi))) }).collect()).collect());
        }
        let init = r.range(-5, 5);
        Dp::new(init, next, rub)
    }
    pub fn opt(&self) -> Option<isize> {
        self.best[0][0].map(|v| v + self.init)
    }
    pub fn members(set: u64) -> impl Iterator<Item = usize> {
        (0..64).filter(move |i| set >> i & 1 == 1)
    }
    /// best completion of a set of states
    pub fn rest(&self, s: &State) -> Option<isize> {
        Self::members(s.set).filter_map(|i| self.best[s.depth][i]).max()
    }
    /// value of a sequence of decisions, None if it is not a solution
    pub fn value(&self, sol: &[Decision]) -> Option<isize> {
        let (mut s, mut v) = (0, self.init);
        if sol.len() != self.n {
            return None;
        }
        for d in 0..self.n {
            let x: Vec<_> = sol.iter().filter(|x| x.var.0 == d).collect();
            if x.len() != 1 {
                return None;
            }
            let (t, c) = (*self.next[d][s].get(x[0].value as usize)?)?;
            s = t;
            v += c;
        }
        Some(v)
    }
    fn call(&self, what: &str, s: &State) {
        if let Some(h) = &self.hook {
            h(what, s)
        }
    }
}
impl Problem for Dp {
    type State = State;
    fn nb_variables(&self) -> usize {
        self.n
    }
    fn initial_state(&self) -> State {
        State { depth: 0, set: 1 }
    }
    fn initial_value(&self) -> isize {
        self.init
    }
    fn next_variable(&self, l: &mut dyn Iterator<Item = &State>) -> Option<Variable> {
        l.next().filter(|s| s.depth < self.n).map(|s| Variable(s.depth))
    }
    fn for_each_in_domain<F: FnMut(Decision)>(&self, var: Variable, s: &State, mut f: F) {
        self.call("domain", s);
        let d = self.next[s.depth].iter().map(|x| x.len()).max().unwrap_or(0);
        for v in 0..d {
            if Self::members(s.set).any(|i| self.next[s.depth][i].get(v).copied().flatten().is_some()) {
                f(Decision { var, value: v as isize })
            }
        }
    }
    fn transition(&self, s: &State, d: Decision) -> State {
        let mut set = 0;
        for i in Self::members(s.set) {
            if let Some((t, _)) = self.next[s.depth][i].get(d.value as usize).copied().flatten() {
                set |= 1 << t;
            }
        }
        State { depth: s.depth + 1, set }
    }
    fn transition_cost(&self, s: &State, d: Decision) -> isize {
        Self::members(s.set).filter_map(|i| self.next[s.depth][i].get(d.value as usize).copied().flatten()).map(|x| x.1).max().unwrap()
    }
    fn estimate(&self, s: &State) -> isize {
        self.call("estimate", s);
        match self.rub {
            None => isize::MAX,
            Some(k) => self.rest(s).map_or(isize::MIN, |v| v + k),
        }
    }
}
pub struct Relax;
impl Relaxation for Relax {
    type State = State;
    fn merge(&self, it: &mut dyn Iterator<Item = &State>) -> State {
        let mut m = State { depth: 0, set: 0 };
        for s in it {
            m.depth = s.depth;
            m.set |= s.set;
        }
        m
    }
    fn relax(&self, _: &State, _: &State, _: &State, _: Decision, cost: isize) -> isize {
        cost
    }
}
pub struct Ranking;
impl StateRanking for Ranking {
    type State = State;
    fn compare(&self, a: &State, b: &State) -> Ordering {
        a.set.cmp(&b.set)
    }
}
pub struct Width(pub usize, pub Option<Hook>);
impl WidthHeuristic<State> for Width {
    fn max_width(&self, s: &State) -> usize {
        if let Some(h) = &self.1 {
            h("width", s)
        }
        self.0
    }
}

pub struct Outcome {
    pub value: Option<isize>,
    pub sol: Option<Vec<Decision>>,
    pub lb: isize,
    pub ub: isize,
    pub proved: bool,
    pub explored: usize,
    pub explored_dd: usize,
}
/// one resolution (solver: parallel or barrier)
pub fn solve(barrier: bool, dp: &Dp, cutset: CutsetType, width: &Width, threads: usize, stop: impl Fn() -> bool + Send + Sync + 'static) -> Outcome {
    macro_rules! run {
        ($s:expr) => {{
            let mut s = $s;
            let proved = s.maximize_with_interrupt(stop) == ResolutionStatus::Proved;
            Outcome { value: s.best_value(), sol: s.best_solution(), lb: s.best_lower_bound(), ub: s.best_upper_bound(), proved, explored: s.get_explored(), explored_dd: s.get_explored_dd() }
        }};
    }
    if barrier {
        run!(BarrierParallelSolver::custom(dp, &Relax, &Ranking, width, cutset, threads))
    } else {
        let mut f = NoDupFrontier::new(&Ranking);
        run!(ParallelSolver::custom(dp, &Relax, &Ranking, width, cutset, &mut f, threads))
    }
}
pub fn fail(msg: &str) -> ! {
    println!("BROKEN: {}", msg);
    std::process::exit(1)
}
/// the demonstration must end: hanging is a failure
pub fn watchdog(secs: u64) {
    std::thread::spawn(move || {
        std::thread::sleep(std::time::Duration::from_secs(secs));
        fail("it does not finish");
    });
}
/// compares complete resolutions with the oracle on many models
pub fn sweep(barrier: bool, cutsets: &[CutsetType], seeds: u64, n: usize, s: usize, d: usize, holes: usize, lo: isize, hi: isize) {
    for seed in 0..seeds {
        let mut r = Rng(seed);
        let nn = 2 + r.below(n - 1);
        let ss = 1 + r.below(s);
        let dp = Dp::random(&mut r, nn, ss, d, holes, lo, hi);
        let w = Width(1 + r.below(4), None);
        for c in cutsets {
            let o = solve(barrier, &dp, *c, &w, 1, || false);
            if o.value != dp.opt() || !o.proved {
                fail(&format!("seed {}: {:?} instead of {:?}", seed, o.value, dp.opt()));
            }
            if let Some(sol) = &o.sol {
                if dp.value(sol) != o.value {
                    fail(&format!("seed {}: solution {:?} for {:?}", seed, dp.value(sol), o.value));
                }
            }
            if o.lb != o.ub || o.lb != dp.opt().unwrap_or(isize::MIN) {
                fail(&format!("seed {}: bounds {} {}", seed, o.lb, o.ub));
            }
        }
    }
}
