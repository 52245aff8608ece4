//! A synthetic layered dynamic programme: small enough for an exact oracle,
//! rich enough (merged states, dead ends, ties, several terminal states, costs
//! of any sign) to exercise every branch of the solvers.
use crate::case::Case;
use crate::obs::{self, Cb};
use engineering::{Decision, Problem, Relaxation, StateRanking, Variable, WidthHeuristic};
use simrt::Rng;
use std::cmp::Ordering;
use std::collections::BTreeMap;
use std::hash::{Hash, Hasher};

#[derive(Debug, Clone, PartialEq, Eq, PartialOrd, Ord)]
pub struct State {
    pub depth: u16,
    pub mask: u32,
    /// the variables already assigned, in the models that choose them dynamically
    pub vars: u32,
    salt: u8,
}
impl Hash for State {
    fn hash<H: Hasher>(&self, h: &mut H) {
        match self.salt {
            0 => {
                (self.depth as u8).hash(h);
                self.mask.hash(h);
                self.vars.hash(h);
            }
            1 => (self.depth as u8).hash(h), // every state of a layer collides
            s => {
                h.write_u32(self.mask ^ self.vars << 9 ^ ((s as u32) << 7));
                h.write_u8(self.depth as u8 ^ s);
            }
        }
    }
}
impl State {
    pub fn single(&self) -> Option<usize> {
        (self.mask.count_ones() == 1).then(|| self.mask.trailing_zeros() as usize)
    }
}

#[derive(Debug, Clone)]
pub struct Model {
    pub n: usize,
    pub vals: usize,
    pub nb: Vec<usize>,
    /// var of the layer
    pub var_of: Vec<usize>,
    /// layer of the var
    pub layer_of: Vec<usize>,
    nxt: Vec<Vec<Vec<Option<u8>>>>,
    cost: Vec<Vec<Vec<isize>>>,
    /// the best completion of each base state (potentials aside)
    suffix: Vec<Vec<Option<isize>>>,
    /// the best path from the root to each base state (potentials aside)
    best_prefix: Vec<Vec<Option<isize>>>,
    /// the variables are assigned in an order which depends on the states
    dynm: Option<Dynamic>,
    dyn_kind: i64,
    /// the magnitude of the potentials: what the cost of an arc comprises of
    /// its end, to be given back when the arc is redirected
    shift: isize,
    pub init: isize,
    est: i64,
    slack: isize,
    relax_slack: isize,
    rank: i64,
    nv_some: bool,
    salt: u8,
    seed: u64,
    width_kind: i64,
    width: usize,
    /// for the lattice models: the number of levels of the second component
    grid: usize,
    /// the values of the variables start there
    pub voff: isize,
}

/// Commutative models: a state is the set of the variables assigned so far and
/// the sum (modulo `k`) of what their values add to a resource.
#[derive(Debug, Clone)]
struct Dynamic {
    n: usize,
    k: usize,
    /// per variable and value: what it is worth, what it adds (None: forbidden)
    gain: Vec<Vec<isize>>,
    step: Vec<Vec<Option<usize>>>,
    /// the reward of each final resource (None: infeasible)
    fin: Vec<Option<isize>>,
    suffix: Vec<Vec<Option<isize>>>,
    prefix: Vec<Vec<Option<isize>>>,
}
impl Dynamic {
    fn new(c: &Case, r: &mut Rng, n: usize, d: usize, k: usize) -> Dynamic {
        let scale = c.scale as isize;
        let (lo, hi) = (c.cost_lo, c.cost_hi);
        let gain = (0..n).map(|_| (0..d).map(|_| r.range(lo, hi) as isize * scale).collect()).collect();
        let step = (0..n)
            .map(|_| (0..d).map(|_| (r.below(100) >= c.forbid as u64 / 2).then_some(r.below(k as u64) as usize)).collect())
            .collect();
        let fin = (0..k)
            .map(|_| (r.below(100) >= c.forbid as u64).then_some(r.range(lo, hi) as isize * scale))
            .collect();
        let full = (1usize << n) - 1;
        let mut x = Dynamic { n, k, gain, step, fin, suffix: vec![vec![None; k]; full + 1], prefix: vec![vec![None; k]; full + 1] };
        x.suffix[full] = vec![Some(0); k];
        for vars in (0..full).rev() {
            let v = (!vars).trailing_zeros() as usize;
            for s in 0..k {
                x.suffix[vars][s] = (0..d)
                    .filter_map(|y| {
                        let (t, c) = x.succ(vars, s, v, y)?;
                        x.suffix[vars | 1 << v][t].map(|z| z + c)
                    })
                    .max();
            }
        }
        x.prefix[0][0] = Some(c.init as isize);
        for vars in 1..=full {
            let v = vars.ilog2() as usize;
            for s in 0..k {
                if let Some(z) = x.prefix[vars ^ 1 << v][s] {
                    for y in 0..d {
                        if let Some((t, c)) = x.succ(vars ^ 1 << v, s, v, y) {
                            let e = &mut x.prefix[vars][t];
                            *e = Some(e.map_or(z + c, |w| w.max(z + c)));
                        }
                    }
                }
            }
        }
        x
    }
    fn succ(&self, vars: usize, s: usize, v: usize, y: usize) -> Option<(usize, isize)> {
        let t = (s + self.step[v][y]?) % self.k;
        let g = self.gain[v][y];
        if vars | 1 << v == (1 << self.n) - 1 {
            Some((t, g + self.fin[t]?))
        } else {
            Some((t, g))
        }
    }
}

fn mix(a: u64, b: u64) -> u64 {
    let mut z = a ^ b.wrapping_mul(0x9E37_79B9_7F4A_7C15);
    z = (z ^ (z >> 30)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94D0_49BB_1331_11EB);
    z ^ (z >> 31)
}

impl Model {
    pub fn new(c: &Case) -> Model {
        let mut r = Rng::new(c.model_seed as u64);
        let n = c.n.clamp(0, 400) as usize;
        let d = c.d.clamp(1, 8) as usize;
        let bmax = c.b.clamp(1, 30) as usize;
        let mut nb = vec![1];
        let grid = if c.lattice == 0 { 0 } else { c.lattice.clamp(1, 5) as usize };
        for _ in 0..n {
            if grid > 0 {
                nb.push(grid * (bmax / grid).max(1));
                continue;
            }
            nb.push(if r.chance(3, 4) { bmax } else { 1 + r.below(bmax as u64) as usize });
        }
        let mut var_of: Vec<usize> = (0..n).collect();
        if c.perm != 0 {
            for i in (1..n).rev() {
                let j = r.below(i as u64 + 1) as usize;
                var_of.swap(i, j);
            }
        }
        let mut layer_of = vec![0; n];
        for (l, v) in var_of.iter().enumerate() {
            layer_of[*v] = l;
        }
        let scale = c.scale as isize;
        let phi: Vec<Vec<isize>> = (0..=n)
            .map(|l| (0..nb[l]).map(|_| r.range(c.cost_lo, c.cost_hi) as isize * scale).collect())
            .collect();
        let mut nxt = vec![];
        let mut cost = vec![];
        for l in 0..n {
            let mut nl = vec![];
            let mut cl = vec![];
            for s in 0..nb[l] {
                let mut ns = vec![];
                let mut cs = vec![];
                for _ in 0..d {
                    let t = r.below(nb[l + 1] as u64) as usize;
                    let ok = r.below(100) >= c.forbid as u64;
                    let k = r.range(c.cost_lo, c.cost_hi) as isize * scale;
                    ns.push(ok.then_some(t as u8));
                    cs.push(if c.potential != 0 { phi[l + 1][t] - phi[l][s] } else { k });
                }
                nl.push(ns);
                cl.push(cs);
            }
            nxt.push(nl);
            cost.push(cl);
        }
        if grid > 0 {
            Self::lattice(c, &mut r, grid, &nb, d, &mut nxt, &mut cost);
        }
        let mut suffix: Vec<Vec<Option<isize>>> = vec![vec![]; n + 1];
        suffix[n] = vec![Some(0); nb[n]];
        for l in (0..n).rev() {
            suffix[l] = (0..nb[l])
                .map(|s| {
                    (0..d)
                        .filter_map(|v| {
                            let t: Option<u8> = nxt[l][s][v];
                            t.and_then(|t| suffix[l + 1][t as usize]).map(|x| x + cost[l][s][v])
                        })
                        .max()
                })
                .collect();
        }
        let mut best_prefix: Vec<Vec<Option<isize>>> = vec![vec![Some(c.init as isize)]];
        for l in 0..n {
            let mut row: Vec<Option<isize>> = vec![None; nb[l + 1]];
            for s in 0..nb[l] {
                if let Some(x) = best_prefix[l][s] {
                    for v in 0..d {
                        if let Some(t) = nxt[l][s][v] {
                            let t: u8 = t;
                            let y = x + cost[l][s][v];
                            let e = &mut row[t as usize];
                            *e = Some(e.map_or(y, |z| z.max(y)));
                        }
                    }
                }
            }
            best_prefix.push(row);
        }
        let dynm = (c.dynm != 0 && n <= 8).then(|| Dynamic::new(c, &mut r, n, d, bmax));
        let salt = match c.hash_kind {
            0 => 0u8,
            1 => 1,
            _ => 2 + (mix(c.model_seed as u64, 77) % 200) as u8,
        };
        Model {
            n,
            vals: d,
            nb,
            var_of,
            layer_of,
            nxt,
            cost,
            suffix,
            best_prefix,
            dynm,
            dyn_kind: c.dynm,
            shift: c.shift as isize * (c.cost_hi - c.cost_lo).max(1) as isize * scale,
            init: c.init as isize,
            est: c.est,
            slack: ((c.cost_hi - c.cost_lo) / 3).max(1) as isize * scale,
            relax_slack: c.relax_slack as isize * scale,
            rank: c.rank,
            nv_some: c.nv_some != 0,
            salt,
            seed: c.model_seed as u64,
            width_kind: c.width_kind,
            width: c.width.max(1) as usize,
            grid,
            voff: c.voff as isize,
        }
    }

    /// Overwrites the tables with those of a model whose states are pairs of
    /// resources: having more of either never hurts, so that merging states
    /// (keeping the largest amount of each) yields an ordinary state.
    fn lattice(
        c: &Case,
        r: &mut Rng,
        grid: usize,
        nb: &[usize],
        d: usize,
        nxt: &mut [Vec<Vec<Option<u8>>>],
        cost: &mut [Vec<Vec<isize>>],
    ) {
        fn sorted(r: &mut Rng, k: usize, hi: usize) -> Vec<usize> {
            let mut v: Vec<usize> = (0..k).map(|_| r.below(hi as u64) as usize).collect();
            v.sort_unstable();
            v
        }
        let scale = c.scale as isize;
        for l in 0..nxt.len() {
            let (rows, rows2) = ((nb[l] / grid).max(1), nb[l + 1] / grid);
            let cols = if nb[l] < grid { 1 } else { grid };
            for v in 0..d {
                let fi = sorted(r, rows, rows2);
                let fj = sorted(r, cols, grid);
                let need = |r: &mut Rng, k: usize| {
                    if r.below(100) < c.forbid as u64 {
                        r.below(k as u64 + 1) as usize
                    } else {
                        0
                    }
                };
                let (ni, nj) = (need(r, rows), need(r, cols));
                let base = r.range(c.cost_lo, c.cost_hi) as isize * scale;
                let gain = ((c.cost_hi - c.cost_lo) / 4).max(1) as u64;
                let gi = sorted(r, rows, gain as usize + 1);
                let gj = sorted(r, cols, gain as usize + 1);
                let flat = r.chance(1, 2);
                for s in 0..nb[l] {
                    let (i, j) = (s / cols, s % cols);
                    let ok = i >= ni && j >= nj;
                    nxt[l][s][v] = ok.then_some((fi[i] * grid + fj[j]) as u8);
                    cost[l][s][v] = base + if flat { 0 } else { (gi[i] + gj[j]) as isize * scale };
                }
            }
        }
    }

    /// The successor of a base state: its index and the cost (potentials aside)
    fn succ(&self, at: &State, s: usize, var: usize, x: isize) -> Option<(usize, isize)> {
        if x < 0 || x as usize >= self.vals {
            return None;
        }
        match &self.dynm {
            Some(y) => y.succ(at.vars as usize, s, var, x as usize),
            None => {
                let l = at.depth as usize;
                self.nxt[l][s][x as usize].map(|t| (t as usize, self.cost[l][s][x as usize]))
            }
        }
    }
    fn next(&self, at: &State, var: usize, mask: u32) -> State {
        let vars = if self.dynm.is_some() { at.vars | 1 << var } else { 0 };
        State { depth: at.depth + 1, mask, vars, salt: self.salt }
    }
    /// What the value of a path includes of the state where it ends
    fn h(&self, s: &State) -> isize {
        if self.shift == 0 || s.depth == 0 || s.depth as usize == self.n {
            return 0;
        }
        let m = mix(self.seed ^ 0xACE, (s.depth as u64) << 48 ^ (s.vars as u64) << 32 ^ s.mask as u64);
        (m % 5) as isize * (self.shift / 2) - self.shift
    }
    /// Is that decision one of the domain of that (possibly relaxed) state ?
    fn feasible(&self, s: &State, d: Decision) -> bool {
        d.var.id() < self.n
            && self.may_assign(s, d.var)
            && Self::members(s.mask).any(|i| self.succ(s, i, d.var.id(), d.value.wrapping_sub(self.voff)).is_some())
    }
    /// May that variable be the next one for that state ?
    fn may_assign(&self, s: &State, v: Variable) -> bool {
        (s.depth as usize) < self.n
            && v.id() < self.n
            && match &self.dynm {
                Some(_) => s.vars & 1 << v.id() == 0,
                None => self.var_of[s.depth as usize] == v.id(),
            }
    }
    /// The best completion of the members of a state (potentials aside)
    fn best(&self, s: &State) -> Option<isize> {
        let t = match &self.dynm {
            Some(y) => &y.suffix[s.vars as usize],
            None => &self.suffix[s.depth as usize],
        };
        Self::members(s.mask).filter_map(|i| t[i]).max()
    }
    /// The optimum of the whole problem.
    pub fn opt(&self) -> Option<isize> {
        self.best(&self.root()).map(|x| x + self.init)
    }
    fn root(&self) -> State {
        State { depth: 0, mask: 1, vars: 0, salt: self.salt }
    }
    /// The best completion of an exact state.
    pub fn completion(&self, s: &State) -> Option<isize> {
        s.single().expect("an exact state");
        self.best(s).map(|x| x - self.h(s))
    }
    /// The best value of a path to an exact state.
    pub fn dynamic(&self) -> bool {
        self.dynm.is_some()
    }
    /// The best completion of a state by a path on which no state is in `cut` (unless the model is dynamic)
    pub fn avoiding(&self, s: &State, cut: &dyn Fn(&State) -> bool, memo: &mut BTreeMap<State, Option<isize>>) -> Option<isize> {
        if cut(s) {
            return None;
        }
        if s.depth as usize == self.n {
            return Some(0);
        }
        if let Some(x) = memo.get(s) {
            return *x;
        }
        let var = Variable(self.var_of[s.depth as usize]);
        let mut best = None;
        for x in 0..self.vals as isize {
            let d = Decision { var, value: x.wrapping_add(self.voff) };
            if self.feasible(s, d) {
                let t = self.avoiding(&self.step(s, d), cut, memo).map(|y| y.saturating_add(self.step_cost(s, d)));
                best = best.max(t);
            }
        }
        memo.insert(s.clone(), best);
        best
    }
    pub fn prefix(&self, s: &State) -> Option<isize> {
        let i = s.single().expect("an exact state");
        let x = match &self.dynm {
            Some(y) => y.prefix[s.vars as usize][i],
            None => self.best_prefix[s.depth as usize][i],
        };
        x.map(|x| x + self.h(s))
    }
    fn members(mask: u32) -> impl Iterator<Item = usize> {
        (0..32).filter(move |i| mask & (1 << i) != 0)
    }
    /// Replays a set of decisions from the root: checks that they assign the
    /// `k` first layers (or any variables, for dynamic models), each exactly
    /// once, and are feasible.
    pub fn replay(&self, path: &[Decision]) -> Result<(State, isize), String> {
        let k = path.len();
        if k > self.n {
            return Err(format!("{} decisions for {} variables", k, self.n));
        }
        let mut at: Vec<Option<(usize, isize)>> = vec![None; self.n];
        let mut seen = vec![false; self.n];
        for (i, d) in path.iter().enumerate() {
            if d.var.id() >= self.n {
                return Err(format!("unknown variable {:?}", d.var));
            }
            if seen[d.var.id()] {
                return Err(format!("variable {:?} is assigned twice", d.var));
            }
            seen[d.var.id()] = true;
            let l = if self.dynm.is_some() { i } else { self.layer_of[d.var.id()] };
            at[l] = Some((d.var.id(), d.value.wrapping_sub(self.voff)));
        }
        let mut s = self.root();
        let mut v = self.init;
        for (l, x) in at.iter().enumerate().take(k) {
            let (var, x) = match x {
                Some(x) => *x,
                None => return Err(format!("the variable of layer {} is not assigned", l)),
            };
            if x < 0 || x as usize >= self.vals {
                return Err(format!("value {} is not in the domain of variable {}", x, var));
            }
            match self.succ(&s, s.single().unwrap(), var, x) {
                Some((t, c)) => {
                    v += c;
                    s = self.next(&s, var, 1 << t);
                }
                None => return Err(format!("value {} is forbidden in layer {}", x, l)),
            }
        }
        v += self.h(&s);
        Ok((s, v))
    }
    /// A complete and feasible solution ?
    pub fn solution_value(&self, sol: &[Decision]) -> Result<isize, String> {
        if sol.len() != self.n {
            return Err(format!("{} decisions for {} variables", sol.len(), self.n));
        }
        self.replay(sol).map(|x| x.1)
    }
    pub fn raw_width(&self, s: &State) -> usize {
        if self.width_kind == 0 {
            self.width
        } else {
            1 + (mix(self.seed ^ 0x51D, (s.depth as u64) << 32 | (s.vars as u64) << 40 | s.mask as u64) % (self.width as u64 + 1)) as usize
        }
    }
    /// The number of distinct values of the paths from the root to each exact state
    pub fn distinct_path_values(&self) -> std::collections::BTreeMap<State, usize> {
        let mut out = std::collections::BTreeMap::new();
        let mut cur: std::collections::BTreeMap<State, std::collections::BTreeSet<isize>> = Default::default();
        cur.entry(self.root()).or_default().insert(self.init);
        for l in 0..=self.n {
            let mut nx: std::collections::BTreeMap<State, std::collections::BTreeSet<isize>> = Default::default();
            for (s, xs) in &cur {
                if l == self.n {
                    break;
                }
                for var in 0..self.n {
                    if !self.may_assign(s, Variable(var)) {
                        continue;
                    }
                    for v in 0..self.vals {
                        if let Some((t, c)) = self.succ(s, s.single().unwrap(), var, v as isize) {
                            nx.entry(self.next(s, var, 1 << t)).or_default().extend(xs.iter().map(|x| x + c));
                        }
                    }
                }
            }
            out.extend(cur.into_iter().map(|(s, x)| (s, x.len())));
            cur = nx;
        }
        out
    }

    fn contract(&self, ok: bool, what: impl FnOnce() -> String) {
        if !ok {
            obs::obs(|o| {
                if o.errors.len() < 20 {
                    o.errors.push(format!("contract: {}", what()))
                }
            })
        }
    }
}

impl Problem for Model {
    type State = State;
    fn nb_variables(&self) -> usize {
        self.n
    }
    fn initial_state(&self) -> State {
        obs::begins();
        self.root()
    }
    fn initial_value(&self) -> isize {
        self.init
    }
    fn next_variable(&self, layer: &mut dyn Iterator<Item = &State>) -> Option<Variable> {
        obs::cb(Cb::NextVar);
        let first = match layer.next() {
            Some(s) => s,
            None => return self.nv_some.then_some(Variable(0)),
        };
        let mut low = first.mask;
        if obs::checking() || self.dyn_kind > 1 {
            for s in layer {
                low = low.min(s.mask);
                self.contract(s.depth == first.depth && s.vars == first.vars, || {
                    format!("next_variable is given a layer with {:?} and {:?}", first, s)
                });
            }
        }
        if first.depth as usize >= self.n {
            return None;
        }
        Some(Variable(match &self.dynm {
            None => self.var_of[first.depth as usize],
            Some(_) => {
                let left: Vec<usize> = (0..self.n).filter(|i| first.vars & 1 << i == 0).collect();
                let w = if self.dyn_kind > 1 { low as u64 } else { 0 };
                left[(mix(self.seed ^ 3, (first.vars as u64) << 32 | w) % left.len() as u64) as usize]
            }
        }))
    }
    fn for_each_in_domain<F>(&self, var: Variable, state: &State, mut f: F)
    where
        F: FnMut(Decision),
    {
        obs::cb(Cb::Domain);
        obs::expanded(state);
        self.contract(state.mask != 0 && self.may_assign(state, var), || {
            format!("for_each_in_domain is given {:?} for {:?}", var, state)
        });
        if !self.may_assign(state, var) {
            return;
        }
        for v in 0..self.vals {
            if Self::members(state.mask).any(|s| self.succ(state, s, var.id(), v as isize).is_some()) {
                f(Decision { var, value: v as isize + self.voff })
            }
        }
    }
    fn transition(&self, state: &State, d: Decision) -> State {
        obs::cb(Cb::Transition);
        self.contract(self.feasible(state, d), || format!("transition is given {:?} for {:?}", d, state));
        self.step(state, d)
    }
    fn transition_cost(&self, state: &State, d: Decision) -> isize {
        obs::cb(Cb::Cost);
        self.contract(self.feasible(state, d), || format!("transition_cost is given {:?} for {:?}", d, state));
        obs::cost(self.step_cost(state, d))
    }
    fn estimate(&self, state: &State) -> isize {
        obs::cb(Cb::Estimate);
        self.contract(state.mask != 0 && state.depth as usize <= self.n, || format!("estimate is given {:?}", state));
        let h = mix(self.seed, (state.depth as u64) << 32 | (state.vars as u64) << 40 | state.mask as u64);
        let exact = self.best(state).map(|x| x - self.h(state));
        match self.est {
            0 => isize::MAX,
            1 => exact.unwrap_or(isize::MIN),
            2 => exact.map_or(isize::MIN, |x| x + (h % 4) as isize * self.slack),
            3 => exact.map_or(isize::MAX, |x| x + (h % 3) as isize * self.slack),
            _ => {
                if h % 2 == 0 {
                    isize::MAX
                } else {
                    exact.unwrap_or(isize::MIN)
                }
            }
        }
    }
}

impl Model {
    fn step(&self, state: &State, d: Decision) -> State {
        let mut m = 0;
        for s in Self::members(state.mask) {
            if let Some((t, _)) = self.succ(state, s, d.var.id(), d.value.wrapping_sub(self.voff)) {
                m |= 1 << t;
            }
        }
        self.next(state, d.var.id(), m)
    }
    fn step_cost(&self, state: &State, d: Decision) -> isize {
        let x = Self::members(state.mask)
            .filter_map(|s| self.succ(state, s, d.var.id(), d.value.wrapping_sub(self.voff)))
            .map(|x| x.1)
            .max()
            .unwrap_or(0);
        x + self.h(&self.step(state, d)) - self.h(state)
    }
    /// Does merging several states, of which `s`, yield a state like `m` ?
    fn relaxes(&self, m: &State, s: &State) -> bool {
        if m.depth != s.depth || m.vars != s.vars {
            return false;
        }
        if self.grid > 0 {
            let (Some(a), Some(b)) = (m.single(), s.single()) else { return false };
            let cols = if self.nb[m.depth as usize] < self.grid { 1 } else { self.grid };
            a / cols >= b / cols && a % cols >= b % cols
        } else {
            s.mask & !m.mask == 0
        }
    }
}

impl Relaxation for Model {
    type State = State;
    fn merge(&self, states: &mut dyn Iterator<Item = &State>) -> State {
        obs::cb(Cb::Merge);
        let mut at: Option<State> = None;
        let mut mask = 0;
        for s in states {
            let a = at.get_or_insert_with(|| s.clone());
            self.contract(s.depth == a.depth && s.vars == a.vars && s.mask != 0, || {
                format!("merge is given {:?} and {:?}", a, s)
            });
            mask |= s.mask;
        }
        self.contract(at.is_some(), || "merge is given no state".to_string());
        let mut at = at.unwrap_or_else(|| self.root());
        if self.grid > 0 {
            let cols = if self.nb[at.depth as usize] < self.grid { 1 } else { self.grid };
            let i = Self::members(mask).map(|s| s / cols).max().unwrap_or(0);
            let j = Self::members(mask).map(|s| s % cols).max().unwrap_or(0);
            mask = 1 << (i * cols + j);
        }
        at.mask = mask;
        at
    }
    fn relax(&self, src: &State, dst: &State, new: &State, d: Decision, cost: isize) -> isize {
        obs::cb(Cb::Relax);
        let ok = self.feasible(src, d) && self.relaxes(new, dst) && self.relaxes(dst, &self.step(src, d));
        self.contract(ok, || format!("relax is given {:?}, {:?}, {:?}, {:?}", src, dst, new, d));
        if ok {
            // what the arc costs, after any number of redirections
            let x = cost - self.h(dst) - (self.step_cost(src, d) - self.h(&self.step(src, d)));
            let good = if self.relax_slack == 0 { x == 0 } else { x >= 0 && x % self.relax_slack == 0 };
            self.contract(good, || format!("relax is given the cost {} for the arc {:?}, {:?}, {:?}", cost, src, d, dst));
        }
        let cost = cost + self.h(new) - self.h(dst);
        obs::cost(if self.relax_slack == 0 {
            cost
        } else {
            cost + (mix(self.seed ^ 5, (src.mask as u64) << 32 | (new.mask as u64) << 8 | d.value as u64) % 2) as isize
                * self.relax_slack
        })
    }
}

impl StateRanking for Model {
    type State = State;
    fn compare(&self, a: &State, b: &State) -> Ordering {
        obs::cb(Cb::Rank);
        match self.rank {
            0 => Ordering::Equal,
            1 => a.mask.cmp(&b.mask),
            2 => b.mask.count_ones().cmp(&a.mask.count_ones()),
            3 => mix(self.seed, a.mask as u64).cmp(&mix(self.seed, b.mask as u64)),
            // deliberately the worst first
            _ => self.best(b).cmp(&self.best(a)),
        }
    }
}

impl WidthHeuristic<State> for Model {
    fn max_width(&self, state: &State) -> usize {
        let w = self.raw_width(state);
        self.contract(state.single().is_some(), || format!("max_width is given {:?}", state));
        obs::started(state, w);
        obs::cb(Cb::Width);
        w
    }
}
