//! What the harness observes of an execution: everything is recorded by the
//! trait implementations that the code under test calls back. Only the thread
//! owning the token runs, and recording is masked (no scheduling point), hence
//! no synchronisation is needed here.
use crate::model::State;
use engineering::{Decision, Frontier, SubProblem};
use std::collections::BTreeMap;

#[derive(Debug, Clone, Copy, PartialEq, Eq)]
#[repr(usize)]
pub enum Cb {
    NextVar = 0,
    Domain,
    Transition,
    Cost,
    Estimate,
    Merge,
    Relax,
    Rank,
    Width,
    Interrupt,
}

pub struct Injected;

#[derive(Debug, Clone)]
pub struct Start {
    pub tid: usize,
    pub state: State,
    pub step: u64,
    pub after_true: bool,
}

#[derive(Debug, Clone, Copy, Default)]
struct Pass {
    on: bool,
    pass: usize,
    root: u16,
    depth: u16,
    count: usize,
    width: usize,
}

#[derive(Default)]
pub struct Obs {
    pub on: bool,
    cb_mask: i64,
    cb_p: u64,
    cb_n: u64,
    pub cb_count: [u64; 10],
    panic_cb: i64,
    panic_at: i64,
    pub panicked: bool,
    pub expansions: u64,
    expansions_max: u64,
    pub starts: Vec<Start>,
    pub polls: u64,
    once: bool,
    pub first_true: Option<(usize, u64)>,
    pub expansions_at_true: u64,
    /// the largest cost of an arc
    pub cost_max: Option<isize>,
    pub poll_after_true: u64,
    passes: BTreeMap<usize, Pass>,
    last_start: BTreeMap<usize, (State, bool)>,
    /// when the model was first called, and the subproblems started more than so long after
    pub begin: Option<u64>,
    pub limit: Option<u64>,
    pub late: u64,
    pub width_excess: Option<String>,
    pub panics: Vec<String>,
    pub errors: Vec<String>,
    pub interrupt_after_expansions: u64,
    pub pushed: u64,
    pub popped: u64,
    pub max_len: usize,
    pub dups: u64,
}

static mut OBS: Option<Box<Obs>> = None;

#[allow(static_mut_refs)]
pub fn obs<R>(f: impl FnOnce(&mut Obs) -> R) -> R {
    simrt::mask(|| unsafe { f(OBS.get_or_insert_with(Default::default)) })
}

/// More expansions than any search needs: no two subproblems of a resolution have the
/// same path, and no two nodes of a diagram. (And a margin, for other designs.)
fn endless(c: &crate::case::Case) -> u64 {
    let d = c.d.max(c.lattice).max(1) as u64;
    let paths = (0..=c.n.max(0) as u32).fold(0u64, |a, i| a.saturating_add(d.saturating_pow(i)));
    let calls = (c.rounds.max(1) as u64 + 1) * (1 + c.twin.min(1) as u64);
    paths.saturating_mul(paths).saturating_mul(4).saturating_add(64).min(300_000).saturating_mul(calls)
}

pub fn reset(c: &crate::case::Case) {
    obs(|o| {
        *o = Obs {
            on: true,
            cb_mask: c.cb_mask,
            cb_p: c.cb_p.max(1) as u64,
            panic_cb: c.panic_cb,
            panic_at: c.panic_at,
            once: c.mode == 6,
            expansions_max: endless(c),
            ..Default::default()
        }
    })
}
pub fn take() -> Obs {
    obs(std::mem::take)
}

/// Are the arguments of the callbacks checked ?
pub fn checking() -> bool {
    simrt::active()
}

/// Called at the beginning of each user callback.
pub fn cb(k: Cb) {
    if !simrt::active() {
        return;
    }
    let (yld, boom) = obs(|o| {
        if !o.on {
            return (false, false);
        }
        o.cb_n += 1;
        o.cb_count[k as usize] += 1;
        let yld = o.cb_mask & (1 << (k as usize)) != 0
            && o.cb_n.wrapping_mul(0x9E37_79B9_7F4A_7C15).rotate_left(17) % o.cb_p == 0;
        let boom = !o.panicked && o.panic_cb == k as i64 + 1 && o.cb_count[k as usize] == o.panic_at.max(1) as u64;
        if boom {
            o.panicked = true;
        }
        (yld, boom)
    });
    if boom {
        simrt::count_fault(simrt::Fault::User0);
        std::panic::panic_any(Injected);
    }
    if yld {
        simrt::point(simrt::Kind::Callback);
    }
}

/// The model is asked for its root: a resolution begins.
pub fn begins() {
    if simrt::active() {
        obs(|o| {
            o.begin.get_or_insert_with(simrt::now);
        })
    }
}

/// A worker asks for the width of the diagrams of a subproblem: it starts processing it.
pub fn started(s: &State, w: usize) {
    if !simrt::active() {
        return;
    }
    obs(|o| {
        let tid = simrt::tid();
        // (a callback that says so only once is heard when its worker is gone)
        let after = o.first_true.map_or(false, |(t, _)| !o.once || simrt::finished(t));
        if let (Some(b), Some(l)) = (o.begin, o.limit) {
            o.late += (simrt::now() > b.saturating_add(l)) as u64;
        }
        if let Some((last, polled)) = o.last_start.get(&tid) {
            if !polled && *last == *s {
                // the width of the same subproblem is asked for again
                if let Some(p) = o.passes.get_mut(&tid) {
                    p.width = w;
                }
                return;
            }
        }
        o.last_start.insert(tid, (s.clone(), false));
        o.starts.push(Start { tid, state: s.clone(), step: simrt::steps(), after_true: after });
        o.passes.insert(tid, Pass { on: true, pass: 0, root: s.depth, depth: s.depth, count: 0, width: w });
    })
}

pub fn expanded(s: &State) {
    if !simrt::active() {
        return;
    }
    obs(|o| {
        o.expansions += 1;
        if o.expansions <= o.expansions_max {
            simrt::progress();
        }
        let tid = simrt::tid();
        let mut excess = None;
        if let Some(p) = o.passes.get_mut(&tid) {
            if p.on {
                if s.depth < p.depth || (s.depth == p.root && p.count > 0 && p.depth == p.root) {
                    p.pass += 1;
                    p.depth = s.depth;
                    p.count = 0;
                } else if s.depth > p.depth {
                    p.depth = s.depth;
                    p.count = 0;
                }
                p.count += 1;
                let exempt = p.pass >= 1 && p.depth <= p.root + 1;
                if p.count > p.width && !exempt {
                    excess = Some(format!(
                        "{} nodes expanded in layer {} of diagram {} rooted at depth {} whose width is {}",
                        p.count, p.depth, p.pass, p.root, p.width
                    ));
                }
            }
        }
        if o.width_excess.is_none() {
            o.width_excess = excess;
        }
    })
}

/// The cost of an arc, given to the solver
pub fn cost(x: isize) -> isize {
    if simrt::active() {
        obs(|o| o.cost_max = o.cost_max.max(Some(x)));
    }
    x
}

pub fn polled(v: bool) -> bool {
    obs(|o| {
        o.polls += 1;
        if let Some(l) = o.last_start.get_mut(&simrt::tid()) {
            l.1 = true;
        }
        if o.first_true.is_some() {
            o.poll_after_true += 1;
        }
        if v && o.first_true.is_none() {
            o.first_true = Some((simrt::tid(), simrt::steps()));
            o.expansions_at_true = o.expansions;
        }
    });
    v
}

/// A new call to the solver starts: the interruption bookkeeping is per call.
pub fn new_round() {
    obs(|o| {
        o.polls = 0;
        o.first_true = None;
        o.poll_after_true = 0;
        o.starts.clear();
        o.passes.clear();
        o.last_start.clear();
    })
}

/* --------------------------------------------------- recording frontier --- */

/// A specification of the frontier: the nodes it may contain
#[derive(Default)]
pub struct FrontierModel {
    pub nodup: bool,
    /// state -> (best value, max ub, the paths having the best value)
    pub map: BTreeMap<State, (isize, isize, Vec<Vec<Decision>>)>,
    /// the multiset of nodes of the simple frontier
    pub bag: Vec<(State, isize, isize, Vec<Decision>)>,
}
impl FrontierModel {
    pub fn new(nodup: bool) -> Self {
        FrontierModel { nodup, ..Default::default() }
    }
    pub fn len(&self) -> usize {
        if self.nodup {
            self.map.len()
        } else {
            self.bag.len()
        }
    }
    pub fn push(&mut self, n: &SubProblem<State>) {
        if self.nodup {
            let st = (*n.state).clone();
            match self.map.get_mut(&st) {
                None => {
                    self.map.insert(st, (n.value, n.ub, vec![n.path.clone()]));
                }
                Some(e) => {
                    if n.value > e.0 {
                        e.0 = n.value;
                        e.2 = vec![n.path.clone()];
                    } else if n.value == e.0 {
                        e.2.push(n.path.clone());
                    }
                    e.1 = e.1.max(n.ub);
                }
            }
        } else {
            self.bag.push(((*n.state).clone(), n.value, n.ub, n.path.clone()));
        }
    }
    pub fn pop(&mut self, got: &Option<SubProblem<State>>) -> Result<(), String> {
        let max = if self.nodup {
            self.map.values().map(|e| e.1).max()
        } else {
            self.bag.iter().map(|e| e.2).max()
        };
        let n = match (got, max) {
            (None, None) => return Ok(()),
            (None, Some(_)) => return Err(format!("pop returned nothing while {} nodes are open", self.len())),
            (Some(n), None) => return Err(format!("pop returned {:?} from an empty frontier", n)),
            (Some(n), Some(_)) => n,
        };
        if n.ub != max.unwrap() {
            return Err(format!("pop returned a node of bound {} while the largest bound is {}", n.ub, max.unwrap()));
        }
        if self.nodup {
            match self.map.remove(&*n.state) {
                None => Err(format!("pop returned the state {:?} which is not open", n.state)),
                Some((v, ub, paths)) => {
                    if v != n.value {
                        Err(format!("pop returned the value {} for a state whose best value is {}", n.value, v))
                    } else if ub != n.ub {
                        Err(format!("pop returned the bound {} for a state whose bound is {}", n.ub, ub))
                    } else if !paths.contains(&n.path) {
                        Err("pop returned a path that was never pushed with that value".to_string())
                    } else {
                        Ok(())
                    }
                }
            }
        } else {
            let k = (n.state.as_ref(), n.value, n.ub, &n.path);
            match self.bag.iter().position(|e| (&e.0, e.1, e.2, &e.3) == k) {
                Some(i) => {
                    self.bag.swap_remove(i);
                    Ok(())
                }
                None => Err(format!("pop returned {:?} which was not pushed", n)),
            }
        }
    }
    pub fn clear(&mut self) {
        self.map.clear();
        self.bag.clear();
    }
}

/// Wraps a real frontier and checks it against the model, in the critical
/// sections of the solver.
pub struct RecordingFrontier<'m, F: Frontier<State = State>> {
    pub inner: F,
    pub spec: FrontierModel,
    pub model: &'m crate::model::Model,
}
impl<'m, F: Frontier<State = State>> RecordingFrontier<'m, F> {
    fn err(&self, m: String) {
        obs(|o| o.errors.push(m))
    }
    fn check_len(&self) {
        let l = self.inner.len();
        if l != self.spec.len() || self.inner.is_empty() != (self.spec.len() == 0) {
            self.err(format!("frontier: its length is {} instead of {}", l, self.spec.len()));
        }
    }
}
impl<'m, F: Frontier<State = State>> Frontier for RecordingFrontier<'m, F> {
    type State = State;
    fn push(&mut self, node: SubProblem<State>) {
        let before = self.spec.len();
        simrt::mask(|| {
            match self.model.replay(&node.path) {
                Err(e) => self.err(format!("open-node: infeasible path: {}", e)),
                Ok((s, v)) => {
                    if s != *node.state {
                        self.err(format!("open-node: the path leads to {:?} instead of {:?}", s, node.state));
                    } else if v != node.value {
                        self.err(format!("open-node: the path is worth {} instead of {}", v, node.value));
                    }
                }
            }
            self.spec.push(&node);
        });
        let dup = self.spec.len() == before;
        obs(|o| {
            o.pushed += 1;
            o.dups += dup as u64;
        });
        self.inner.push(node);
        simrt::mask(|| self.check_len());
        let l = self.spec.len();
        obs(|o| o.max_len = o.max_len.max(l));
    }
    fn pop(&mut self) -> Option<SubProblem<State>> {
        let got = self.inner.pop();
        simrt::mask(|| {
            if let Err(e) = self.spec.pop(&got) {
                self.err(format!("frontier: {}", e));
            }
            self.check_len();
        });
        obs(|o| o.popped += got.is_some() as u64);
        got
    }
    fn clear(&mut self) {
        self.inner.clear();
        self.spec.clear();
        simrt::mask(|| self.check_len());
    }
    fn len(&self) -> usize {
        self.inner.len()
    }
}
