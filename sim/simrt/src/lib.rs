//! Deterministic simulation runtime.
//!
//! Every thread of the simulated program is a real OS thread, but exactly one
//! of them owns the *token* at any time; all the others are parked on a private
//! futex word. Whenever the running thread reaches a scheduling point (a lock,
//! a futex, a clock read, a user callback, an instrumented basic block ...) a
//! seeded scheduler decides who runs next. Time is simulated. One seed (plus a
//! configuration) is one exactly repeatable execution; every decision that was
//! not the default one is recorded so that an execution can be replayed and
//! minimised.
#![allow(static_mut_refs)]

mod interpose;

use std::cell::Cell;
use std::sync::atomic::{AtomicBool, AtomicU32, AtomicU64, Ordering::*};

pub const MAX_THREADS: usize = 512;
pub const NONE: usize = usize::MAX;

thread_local! {
    static TID: Cell<usize> = const { Cell::new(NONE) };
}

#[inline(never)]
pub fn tid() -> usize {
    TID.with(|t| t.get())
}
#[inline(never)]
fn set_tid(t: usize) {
    TID.with(|c| c.set(t))
}

/* ------------------------------------------------------------------ rng --- */

#[derive(Debug, Clone)]
pub struct Rng(pub u64);
impl Rng {
    #[inline(never)]
    pub fn new(seed: u64) -> Self {
        let mut r = Rng(seed ^ 0x9E37_79B9_7F4A_7C15);
        r.next();
        r.next();
        r
    }
    #[inline(never)]
    pub fn next(&mut self) -> u64 {
        // splitmix64
        self.0 = self.0.wrapping_add(0x9E37_79B9_7F4A_7C15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D0_49BB_1331_11EB);
        z ^ (z >> 31)
    }
    /// uniform in 0..n
    #[inline(never)]
    pub fn below(&mut self, n: u64) -> u64 {
        if n == 0 {
            0
        } else {
            self.next() % n
        }
    }
    /// uniform in lo..=hi
    #[inline(never)]
    pub fn range(&mut self, lo: i64, hi: i64) -> i64 {
        lo + self.below((hi - lo + 1) as u64) as i64
    }
    /// true with probability num/den
    #[inline(never)]
    pub fn chance(&mut self, num: u64, den: u64) -> bool {
        self.below(den) < num
    }
}

/* ----------------------------------------------------------- public types --- */

#[derive(Debug, Clone, Copy, PartialEq, Eq)]
#[repr(u8)]
pub enum Strategy {
    /// keep the running thread; preempt with probability 1/p
    Random = 0,
    /// uniform choice at every point
    Uniform = 1,
    /// probabilistic concurrency testing (random priorities, few change points)
    Pct = 2,
    /// one thread at a time is starved for a long while
    Stall = 3,
    /// no preemption at all (but blocked threads hand over in random order)
    Cooperative = 4,
}
impl Strategy {
    pub fn from_u64(x: u64) -> Strategy {
        match x {
            0 => Strategy::Random,
            1 => Strategy::Uniform,
            2 => Strategy::Pct,
            3 => Strategy::Stall,
            _ => Strategy::Cooperative,
        }
    }
}

#[derive(Debug, Clone)]
pub struct Config {
    pub seed: u64,
    pub strategy: Strategy,
    /// Random: preempt with probability 1/p
    pub p: u64,
    /// Pct: number of priority change points and expected length of the run
    pub pct_d: u64,
    pub pct_len: u64,
    /// mean number of instrumented basic blocks between two scheduling points (0 = off)
    pub edge_gap: u64,
    /// maximal simulated nanoseconds per scheduling point
    pub tick_ns: u64,
    /// probability (in 1/1_000_000) of the various faults
    pub spawn_fail_ppm: u64,
    pub clock_jump_ppm: u64,
    pub clock_jump_max_ns: u64,
    /// the clock jumps by so much when the first thread is created
    pub spawn_jump_ns: u64,
    pub spurious_ppm: u64,
    /// after that many scheduling points (basic blocks aside): fair round robin without faults
    pub step_cap: u64,
    /// number of fair scheduling points without progress before a livelock is declared
    pub fair_cap: u64,
    /// number of scheduling points altogether before a livelock is declared
    pub abs_cap: u64,
    /// total number of instrumented blocks allowed
    pub edge_cap: u64,
    /// number of processors the machine seems to have
    pub cpus: u64,
    /// replay: non default choices (index, value); the strategy is not consulted
    pub replay: Option<Vec<(u64, u32)>>,
}
impl Default for Config {
    fn default() -> Self {
        Config {
            seed: 1,
            strategy: Strategy::Random,
            p: 8,
            pct_d: 3,
            pct_len: 1000,
            edge_gap: 0,
            tick_ns: 2000,
            spawn_fail_ppm: 0,
            clock_jump_ppm: 0,
            clock_jump_max_ns: 0,
            spawn_jump_ns: 0,
            spurious_ppm: 0,
            step_cap: 60_000,
            fair_cap: 120_000,
            abs_cap: 16_000_000,
            edge_cap: 60_000_000,
            cpus: 4,
            replay: None,
        }
    }
}

#[derive(Debug, Clone, Copy, PartialEq, Eq)]
#[repr(usize)]
pub enum Kind {
    Lock = 0,
    RwRead,
    RwWrite,
    CondWait,
    CondNotify,
    Futex,
    Spawn,
    Join,
    Sleep,
    Yield,
    Callback,
    Edge,
    Exit,
    Io,
    Start,
}
pub const KINDS: [&str; 15] = [
    "lock", "rw_read", "rw_write", "cond_wait", "cond_notify", "futex", "spawn", "join", "sleep",
    "yield", "callback", "block_edge", "thread_exit", "io", "thread_start",
];

#[derive(Debug, Clone, Copy, PartialEq, Eq)]
#[repr(usize)]
pub enum Fault {
    SpawnFail = 0,
    ClockJump,
    SpuriousWake,
    Stall,
    ShortRead,
    Eintr,
    Eio,
    OpenFail,
    Preempt,
    User0,
    User1,
    User2,
    User3,
}
pub const FAULTS: [&str; 13] = [
    "thread_spawn_eagain", "clock_jump", "spurious_futex_wake", "thread_stall", "short_read",
    "read_eintr", "read_eio", "open_fail", "preemption", "user0", "user1", "user2", "user3",
];

#[derive(Debug, Clone, Default)]
pub struct Report {
    pub steps: u64,
    pub sync_steps: u64,
    pub switches: u64,
    pub choices: u64,
    pub deviations: Vec<(u64, u32)>,
    pub hash: u64,
    pub sync_hash: u64,
    pub sim_ns: u64,
    pub edges: u64,
    pub threads: u64,
    pub kinds: [u64; 15],
    pub faults: [u64; 13],
}

#[derive(Debug, Clone, Copy, PartialEq, Eq)]
pub enum Wake {
    Woken,
    TimedOut,
}

#[derive(Debug, Clone, Copy, PartialEq, Eq)]
enum St {
    Runnable,
    Blocked,
    Finished,
}

struct Th {
    st: St,
    obj: usize,
    kind: Kind,
    deadline: Option<u64>,
    wake: Wake,
    token: usize,
    prio: u64,
    stall_until: u64,
    pthread: usize,
    dtors: Vec<(usize, usize)>,
    last_run: u64,
    seq: u64,
}

struct Rt {
    cfg: Config,
    prog_steps: u64,
    prog_edges: u64,
    threads: Vec<Th>,
    cur: usize,
    now: u64,
    rng: Rng,
    edge_rng: Rng,
    misc_rng: Rng,
    replay: Vec<(u64, u32)>,
    replay_pos: usize,
    rep: Report,
    pct_points: Vec<u64>,
    pct_low: u64,
    cands: Vec<usize>,
    fair_rr: usize,
    wait_seq: u64,
}

static mut RT: Option<Box<Rt>> = None;
static ACTIVE: AtomicBool = AtomicBool::new(false);
static TURN: [AtomicU32; MAX_THREADS] = [const { AtomicU32::new(0) }; MAX_THREADS];
static RUNS: AtomicU64 = AtomicU64::new(0);

type FailFn = fn(&str, &str);
static mut FAIL: Option<FailFn> = None;

/// Installs the function called (with the kind of failure and a description)
/// when the simulation cannot go on. It must not return.
pub fn set_fail_handler(f: FailFn) {
    unsafe { FAIL = Some(f) }
}

#[inline(never)]
pub fn active() -> bool {
    ACTIVE.load(Relaxed) && tid() != NONE
}

#[inline]
fn rt() -> &'static mut Rt {
    unsafe { RT.as_mut().unwrap_unchecked() }
}

/* -------------------------------------------------------- edge coverage --- */

pub const COV_MAX: usize = 1 << 16;
static mut COV: [u8; COV_MAX] = [0; COV_MAX];
static mut COV_N: u32 = 0;
static mut EDGE_LEFT: u64 = u64::MAX;
static mut EDGE_GAP_CUR: u64 = 0;

#[no_mangle]
pub unsafe extern "C" fn __sanitizer_cov_trace_pc_guard_init(start: *mut u32, stop: *mut u32) {
    if start == stop || *start != 0 {
        return;
    }
    let mut p = start;
    while p < stop {
        COV_N += 1;
        *p = COV_N.min(COV_MAX as u32 - 1);
        p = p.add(1);
    }
}

#[no_mangle]
pub unsafe extern "C" fn __sanitizer_cov_trace_pc_guard(guard: *mut u32) {
    if CALIBRATING.load(Relaxed) && TID.with(|t| t.get()) == CALIB_TID {
        *guard = 0;
    }
    if *guard == 0 || !ACTIVE.load(Relaxed) || IN_RT != 0 || TID.with(|t| t.get()) == NONE {
        return;
    }
    COV[*guard as usize & (COV_MAX - 1)] = 1;
    #[cfg(feature = "trace")]
    {
        // RUNS to trace in VSIM_TRACE_RUN
        let mut l = [0u8; 64];
        let mut v = guard as usize;
        let mut n = 63;
        l[n] = b'\n';
        while v > 0 {
            n -= 1;
            l[n] = b"0123456789abcdef"[v & 15];
            v >>= 4;
        }
        n -= 1;
        l[n] = b'G';
        libc::write(2, l[n..].as_ptr() as *const _, 64 - n);
    }
    EDGE_LEFT -= 1;
    if EDGE_LEFT == 0 {
        edge_slow();
    }
}

static CALIBRATING: AtomicBool = AtomicBool::new(false);
const CALIB_TID: usize = usize::MAX - 1;

/// The (instrumented) global allocator of the program is no place for preemption
/// points: how often the standard library allocates may depend on addresses (its map
/// of guard pages is keyed by them). Finds the guards of the allocator, and drops them.
fn calibrate() {
    use std::alloc::{alloc, alloc_zeroed, dealloc, realloc, Layout};
    static DONE: AtomicBool = AtomicBool::new(false);
    if DONE.swap(true, SeqCst) {
        return;
    }
    let old = TID.with(|t| t.replace(CALIB_TID));
    CALIBRATING.store(true, SeqCst);
    for align in [1, 8, 16, 32, 64, 4096] {
        for size in [1, 24, 100, 5000, 300_000] {
            unsafe {
                let l = Layout::from_size_align(size, align).unwrap();
                let p = std::hint::black_box(alloc(l));
                let p = std::hint::black_box(realloc(p, l, size * 3));
                let l = Layout::from_size_align(size * 3, align).unwrap();
                let p = std::hint::black_box(realloc(p, l, size));
                dealloc(p, Layout::from_size_align(size, align).unwrap());
                let p = std::hint::black_box(alloc_zeroed(l));
                dealloc(p, l);
            }
        }
    }
    CALIBRATING.store(false, SeqCst);
    TID.with(|t| t.set(old));
}

pub fn coverage() -> (u64, u64) {
    unsafe { (COV.iter().map(|x| *x as u64).sum(), COV_N as u64) }
}

pub fn coverage_ids() -> Vec<u32> {
    unsafe { (0..COV_MAX as u32).filter(|i| COV[*i as usize] != 0).collect() }
}

/// > 0 while the runtime itself executes: the (instrumented) allocator it calls
/// must not preempt it
static mut IN_RT: u32 = 0;
pub(crate) struct Rtg;
impl Rtg {
    #[inline(always)]
    pub(crate) fn new() -> Rtg {
        unsafe { IN_RT += 1 };
        Rtg
    }
}
impl Drop for Rtg {
    #[inline(always)]
    fn drop(&mut self) {
        unsafe { IN_RT -= 1 };
    }
}

#[cold]
#[inline(never)]
fn edge_slow() {
    let r = rt();
    unsafe {
        r.rep.edges += EDGE_GAP_CUR;
    }
    if r.rep.edges > r.prog_edges + r.cfg.edge_cap {
        fail("livelock", "a worker executes code forever without ever blocking or finishing");
    }
    let gap = next_gap(r);
    unsafe {
        EDGE_GAP_CUR = gap;
        EDGE_LEFT = gap;
    }
    if r.cfg.edge_gap != 0 && !is_fair(r) && !is_long(r) {
        point(Kind::Edge);
    }
}

/// So much code may well be an endless loop or search: no more preemptions within
/// it, to reach the bounds soon.
fn is_long(r: &Rt) -> bool {
    r.rep.edges > r.cfg.edge_cap / 20
}

fn next_gap(r: &mut Rt) -> u64 {
    if r.cfg.edge_gap == 0 || is_long(r) {
        500_000
    } else {
        1 + r.edge_rng.below(2 * r.cfg.edge_gap)
    }
}

/* ------------------------------------------------------------ scheduling --- */

fn sys_wait(word: &AtomicU32) {
    while word.load(Acquire) == 0 {
        unsafe {
            interpose::raw_syscall(libc::SYS_futex, word as *const _ as usize, 128, 0, 0, 0, 0);
        }
    }
    word.store(0, Relaxed);
}

fn sys_signal(word: &AtomicU32) {
    word.store(1, Release);
    unsafe {
        interpose::raw_syscall(libc::SYS_futex, word as *const _ as usize, 129, 1, 0, 0, 0);
    }
}

/// Stops the simulation: the failure handler is called and the process ends.
#[cold]
#[inline(never)]
pub fn fail(kind: &str, msg: &str) -> ! {
    let mut full = String::from(msg);
    if let Some(r) = unsafe { RT.as_ref() } {
        full.push_str(&format!(" [step {} thread {}", r.rep.steps, r.cur));
        for (i, t) in r.threads.iter().enumerate() {
            let s = match t.st {
                St::Runnable => "runnable".to_string(),
                St::Finished => "finished".to_string(),
                St::Blocked => format!("blocked on {}", KINDS[t.kind as usize]),
            };
            full.push_str(&format!("; T{} {}", i, s));
        }
        full.push(']');
    }
    ACTIVE.store(false, SeqCst);
    set_tid(NONE);
    unsafe { IN_RT = 1 };
    if let Some(f) = unsafe { FAIL } {
        f(kind, &full);
    }
    eprintln!("simrt: {}: {}", kind, full);
    unsafe { libc::_exit(70) }
}

/// A decision among n alternatives; alternative 0 is the default one. `pick`
/// is only consulted when the run is not a replay.
fn choose(r: &mut Rt, n: usize, pick: impl FnOnce(&mut Rt) -> usize) -> usize {
    if n <= 1 {
        return 0;
    }
    let _g = Rtg::new();
    let idx = r.rep.choices;
    r.rep.choices += 1;
    let v = if r.cfg.replay.is_some() {
        while r.replay_pos < r.replay.len() && r.replay[r.replay_pos].0 < idx {
            r.replay_pos += 1;
        }
        if r.replay_pos < r.replay.len() && r.replay[r.replay_pos].0 == idx {
            let v = r.replay[r.replay_pos].1 as usize;
            r.replay_pos += 1;
            v % n
        } else {
            0
        }
    } else {
        pick(r)
    };
    if v != 0 {
        r.rep.deviations.push((idx, v as u32));
    }
    v
}

fn is_fair(r: &Rt) -> bool {
    r.rep.sync_steps > r.cfg.step_cap
}

/// The program did something that it cannot do infinitely often: the bound on
/// the number of steps without any progress starts over.
#[inline(never)]
pub fn progress() {
    if active() {
        let r = rt();
        r.prog_steps = r.rep.sync_steps;
        r.prog_edges = r.rep.edges;
    }
}

/// Decides whether a fault of the given kind happens here.
#[inline(never)]
pub fn fault(f: Fault, ppm: u64) -> bool {
    if ppm == 0 || !active() {
        return false;
    }
    let r = rt();
    if is_fair(r) {
        return false;
    }
    let hit = choose(r, 2, |r| (r.rng.below(1_000_000) < ppm) as usize) == 1;
    if hit {
        r.rep.faults[f as usize] += 1;
    }
    hit
}

/// Counts a fault that the harness injected by itself.
#[inline(never)]
pub fn count_fault(f: Fault) {
    if active() {
        rt().rep.faults[f as usize] += 1;
    }
}

/// A value in 0..n drawn by the simulator (0 is the default one)
#[inline(never)]
pub fn draw(n: usize) -> usize {
    if !active() {
        return 0;
    }
    choose(rt(), n, |r| r.rng.below(n as u64) as usize)
}

fn fire_timers(r: &mut Rt) {
    for t in r.threads.iter_mut() {
        if t.st == St::Blocked {
            if let Some(d) = t.deadline {
                if d <= r.now {
                    t.st = St::Runnable;
                    t.deadline = None;
                    t.wake = Wake::TimedOut;
                    t.obj = 0;
                }
            }
        }
    }
}

fn advance(r: &mut Rt, kind: Kind) {
    let _g = Rtg::new();
    r.rep.steps += 1;
    r.rep.sync_steps += (kind as usize != Kind::Edge as usize) as u64;
    r.rep.kinds[kind as usize] += 1;
    let t = if r.cfg.tick_ns > 0 { r.misc_rng.below(r.cfg.tick_ns) + 1 } else { 1 };
    r.now += t;
    if r.cfg.clock_jump_ppm > 0 && !is_fair(r) {
        let ppm = r.cfg.clock_jump_ppm;
        if choose(r, 2, |r| (r.rng.below(1_000_000) < ppm) as usize) == 1 {
            r.rep.faults[Fault::ClockJump as usize] += 1;
            let m = r.cfg.clock_jump_max_ns;
            r.now += r.misc_rng.below(m) + 1;
        }
    }
    if r.rep.sync_steps > r.cfg.step_cap.max(r.prog_steps) + r.cfg.fair_cap {
        fail("livelock", "the program makes no progress under a fair fault-free schedule");
    }
    if r.rep.sync_steps > r.cfg.abs_cap {
        fail("livelock", "the program does not finish under a fair fault-free schedule");
    }
}

/// Picks the thread to run next. `cur_ok`: the current thread is runnable.
fn pick_next(kind: Kind) -> usize {
    let _g = Rtg::new();
    let r = rt();
    fire_timers(r);
    let cur = r.cur;
    loop {
        let mut c = std::mem::take(&mut r.cands);
        c.clear();
        if r.threads[cur].st == St::Runnable {
            c.push(cur);
        }
        for (i, t) in r.threads.iter().enumerate() {
            if i != cur && t.st == St::Runnable {
                c.push(i);
            }
        }
        r.cands = c;
        if !r.cands.is_empty() {
            break;
        }
        // nobody can run: jump to the next timer
        let next = r
            .threads
            .iter()
            .filter(|t| t.st == St::Blocked)
            .filter_map(|t| t.deadline)
            .min();
        match next {
            Some(d) => {
                r.now = r.now.max(d);
                fire_timers(r);
            }
            None => fail("deadlock", "no thread can make progress any more"),
        }
    }
    let n = r.cands.len();
    let v = if is_fair(r) {
        // round robin, not recorded: it is a function of the state
        r.fair_rr = r.fair_rr.wrapping_add(1);
        let mut best = 0;
        for i in 0..n {
            if r.threads[r.cands[i]].last_run < r.threads[r.cands[best]].last_run {
                best = i;
            }
        }
        best
    } else {
        choose(r, n, |r| strategy_pick(r, n, kind))
    };
    let next = r.cands[v];
    r.threads[next].last_run = r.rep.steps;
    #[cfg(feature = "trace")]
    {
        let l = format!("{} {} {} {:?} {} {}\n", RUNS.load(Relaxed), r.rep.steps, cur, kind, next, r.rep.edges);
        unsafe { libc::write(2, l.as_ptr() as *const _, l.len()) };
    }
    let h = (next as u64 + 1).wrapping_mul(31).wrapping_add(kind as u64);
    r.rep.hash = (r.rep.hash ^ h).wrapping_mul(0x0000_0100_0000_01B3);
    if kind != Kind::Edge || next != cur {
        r.rep.sync_hash = (r.rep.sync_hash ^ h).wrapping_mul(0x0000_0100_0000_01B3);
    }
    if next != cur && r.threads[cur].st == St::Runnable {
        r.rep.faults[Fault::Preempt as usize] += 1;
    }
    next
}

fn strategy_pick(r: &mut Rt, n: usize, _kind: Kind) -> usize {
    let cur_ok = r.cands[0] == r.cur;
    match r.cfg.strategy {
        Strategy::Uniform => r.rng.below(n as u64) as usize,
        Strategy::Random => {
            if cur_ok {
                if r.rng.below(r.cfg.p) == 0 {
                    1 + r.rng.below(n as u64 - 1) as usize
                } else {
                    0
                }
            } else {
                r.rng.below(n as u64) as usize
            }
        }
        Strategy::Cooperative => {
            if cur_ok {
                0
            } else {
                r.rng.below(n as u64) as usize
            }
        }
        Strategy::Pct => {
            let s = r.rep.steps;
            if let Some(pos) = r.pct_points.iter().position(|p| *p <= s) {
                r.pct_points.swap_remove(pos);
                r.pct_low -= 1;
                let c = r.cur;
                r.threads[c].prio = r.pct_low;
            }
            let mut best = 0;
            for i in 1..n {
                if r.threads[r.cands[i]].prio > r.threads[r.cands[best]].prio {
                    best = i;
                }
            }
            best
        }
        Strategy::Stall => {
            let s = r.rep.steps;
            if r.rng.below(r.cfg.p * 4) == 0 {
                let victim = r.cands[r.rng.below(n as u64) as usize];
                let len = r.rng.below(r.cfg.pct_len.max(8)) + 1;
                r.threads[victim].stall_until = s + len;
                r.rep.faults[Fault::Stall as usize] += 1;
            }
            let ok: Vec<usize> = (0..n).filter(|i| r.threads[r.cands[*i]].stall_until <= s).collect();
            if ok.is_empty() {
                r.rng.below(n as u64) as usize
            } else if ok[0] == 0 && cur_ok && r.rng.below(r.cfg.p) != 0 {
                0
            } else {
                ok[r.rng.below(ok.len() as u64) as usize]
            }
        }
    }
}

fn switch_to(next: usize) {
    let r = rt();
    let me = r.cur;
    if next == me {
        return;
    }
    r.rep.switches += 1;
    r.cur = next;
    sys_signal(&TURN[next]);
    sys_wait(&TURN[me]);
}

static mut MASKED: u32 = 0;

/// Runs harness code (observers, recorders) without any scheduling point.
pub fn mask<R>(f: impl FnOnce() -> R) -> R {
    if !active() {
        return f();
    }
    unsafe { MASKED += 1 };
    let r = f();
    unsafe { MASKED -= 1 };
    r
}

/// A scheduling point: any runnable thread may be the next one to run.
#[inline(never)]
pub fn point(kind: Kind) {
    if !active() || unsafe { MASKED } > 0 {
        return;
    }
    advance(rt(), kind);
    let n = pick_next(kind);
    switch_to(n);
}

/// Blocks the current thread on `obj` until some other thread wakes it up (or
/// the deadline, in simulated nanoseconds, is reached).
#[inline(never)]
pub fn block(obj: usize, kind: Kind, deadline: Option<u64>, token: usize) -> Wake {
    let r = rt();
    advance(r, kind);
    r.wait_seq += 1;
    let seq = r.wait_seq;
    let t = &mut r.threads[r.cur];
    t.st = St::Blocked;
    t.obj = obj;
    t.kind = kind;
    t.deadline = deadline;
    t.token = token;
    t.seq = seq;
    let n = pick_next(kind);
    switch_to(n);
    let r = rt();
    r.threads[r.cur].wake
}

/// Wakes at most `max` threads blocked on `obj` with the given kind; which
/// ones is a decision of the simulator. Returns the tokens of the woken ones.
#[inline(never)]
pub fn wake(obj: usize, kind: Kind, max: usize) -> usize {
    let _g = Rtg::new();
    let r = rt();
    let mut c: Vec<usize> = (0..r.threads.len())
        .filter(|i| {
            let t = &r.threads[*i];
            t.st == St::Blocked && t.obj == obj && t.kind == kind
        })
        .collect();
    c.sort_by_key(|i| r.threads[*i].seq);
    let mut woken = 0;
    while woken < max && !c.is_empty() {
        let k = if max >= c.len() + woken {
            0
        } else {
            let n = c.len();
            choose(r, n, |r| r.rng.below(n as u64) as usize)
        };
        let i = c.remove(k);
        let t = &mut r.threads[i];
        t.st = St::Runnable;
        t.deadline = None;
        t.obj = 0;
        t.wake = Wake::Woken;
        woken += 1;
    }
    woken
}

/// Is there a thread blocked on obj with the given token ?
#[inline(never)]
pub fn waiting(obj: usize, token: usize) -> bool {
    rt().threads.iter().any(|t| t.st == St::Blocked && t.obj == obj && t.token == token)
}

/// Is there a thread blocked on obj with another token ?
#[inline(never)]
pub fn waiting_other(obj: usize, token: usize) -> bool {
    rt().threads.iter().any(|t| t.st == St::Blocked && t.obj == obj && t.token != token)
}

/// The simulated time, in nanoseconds since the start of the simulation.
#[inline(never)]
pub fn now() -> u64 {
    if active() {
        rt().now
    } else {
        0
    }
}

/// Has this thread ended?
#[inline(never)]
pub fn finished(tid: usize) -> bool {
    active() && rt().threads.get(tid).map_or(false, |t| t.st == St::Finished)
}

#[inline(never)]
pub fn steps() -> u64 {
    if active() {
        rt().rep.steps
    } else {
        0
    }
}

#[inline(never)]
pub fn sleep_ns(ns: u64) {
    let d = rt().now.saturating_add(ns.max(1));
    block(0, Kind::Sleep, Some(d), 0);
}

/// Is the simulation in its final, fair and fault free, phase ?
#[inline(never)]
pub fn fair() -> bool {
    active() && is_fair(rt())
}

fn new_thread(r: &mut Rt) -> usize {
    let _g = Rtg::new();
    let id = r.threads.len();
    if id >= MAX_THREADS {
        fail("limit", "too many threads");
    }
    let prio = (1 << 32) + (r.rng.next() >> 34);
    r.threads.push(Th {
        st: St::Runnable,
        obj: 0,
        kind: Kind::Start,
        deadline: None,
        wake: Wake::Woken,
        token: 0,
        prio,
        stall_until: 0,
        pthread: 0,
        dtors: vec![],
        last_run: 0,
        seq: 0,
    });
    r.rep.threads += 1;
    TURN[id].store(0, SeqCst);
    id
}

/// Called by the main thread of a simulation: takes the token.
pub fn begin(cfg: Config) {
    calibrate();
    assert!(!ACTIVE.load(SeqCst));
    let mut rng = Rng::new(cfg.seed);
    let edge_rng = Rng::new(cfg.seed ^ 0xE_D6E);
    let misc_rng = Rng::new(cfg.seed ^ 0x0715C);
    let pct_points = (0..cfg.pct_d).map(|_| rng.below(cfg.pct_len.max(1))).collect();
    let mut replay = cfg.replay.clone().unwrap_or_default();
    replay.sort();
    let mut r = Box::new(Rt {
        cfg,
        prog_steps: 0,
        prog_edges: 0,
        threads: Vec::with_capacity(16),
        cur: 0,
        now: 0,
        rng,
        edge_rng,
        misc_rng,
        replay,
        replay_pos: 0,
        rep: Report { hash: 0xcbf2_9ce4_8422_2325, sync_hash: 0xcbf2_9ce4_8422_2325, ..Default::default() },
        pct_points,
        pct_low: 1 << 31,
        cands: vec![],
        fair_rr: 0,
        wait_seq: 0,
    });
    new_thread(&mut r);
    let gap = next_gap(&mut r);
    unsafe {
        EDGE_GAP_CUR = gap;
        EDGE_LEFT = gap;
        RT = Some(r);
    }
    unsafe { MASKED = 0; IN_RT = 0 };
    set_tid(0);
    RUNS.fetch_add(1, SeqCst);
    ACTIVE.store(true, SeqCst);
}

/// Ends the simulation once every other thread is finished.
pub fn end() -> Report {
    while rt().threads[1..].iter().any(|t| t.st != St::Finished) {
        block(usize::MAX, Kind::Join, None, 0);
    }
    let r = rt();
    unsafe {
        r.rep.edges += EDGE_GAP_CUR - EDGE_LEFT;
    }
    r.rep.sim_ns = r.now;
    ACTIVE.store(false, SeqCst);
    set_tid(NONE);
    let r = unsafe { RT.take().unwrap() };
    r.rep.clone()
}

/// A snapshot of the report of the simulation in progress
pub fn report() -> Report {
    let _g = Rtg::new();
    match unsafe { RT.as_ref() } {
        Some(r) => {
            let mut x = r.rep.clone();
            x.sim_ns = r.now;
            x
        }
        None => Report::default(),
    }
}

pub fn runs() -> u64 {
    RUNS.load(Relaxed)
}

extern "C" {
    fn setitimer(which: i32, new: *const libc::itimerval, old: *mut libc::itimerval) -> i32;
}

/// Stops the process when one simulation lasts for several such periods of CPU time.
/// (The handler lives here, where no block is instrumented: it runs on any thread,
/// which need not be the one that holds the token.)
pub fn watchdog(secs: i64) {
    unsafe {
        libc::signal(libc::SIGPROF, on_prof as *const () as usize);
        let t = libc::itimerval {
            it_interval: libc::timeval { tv_sec: secs, tv_usec: 0 },
            it_value: libc::timeval { tv_sec: secs, tv_usec: 0 },
        };
        setitimer(2, &t, std::ptr::null_mut());
    }
}

static PROF_RUN: AtomicU64 = AtomicU64::new(u64::MAX);
static PROF_HITS: AtomicU64 = AtomicU64::new(0);
extern "C" fn on_prof(_: i32) {
    let run = RUNS.load(Relaxed);
    if PROF_RUN.swap(run, Relaxed) != run {
        PROF_HITS.store(0, Relaxed);
    } else if PROF_HITS.fetch_add(1, Relaxed) >= 2 && ACTIVE.swap(false, SeqCst) {
        fail("hang", "the execution burns CPU time without reaching any scheduling point");
    }
}

fn finish_current_dtors() {
    loop {
        let r = rt();
        let c = r.cur;
        match r.threads[c].dtors.pop() {
            Some((f, o)) => unsafe {
                let f: extern "C" fn(*mut u8) = std::mem::transmute(f);
                f(o as *mut u8);
            },
            None => break,
        }
    }
}

/// Runs `body` as the main thread of a simulation (on a fresh OS thread).
pub fn run<R: Send + 'static>(cfg: Config, body: impl FnOnce() -> R + Send + 'static) -> (R, Report) {
    std::thread::Builder::new()
        .stack_size(4 << 20)
        .spawn(move || {
            begin(cfg);
            let x = body();
            let rep = end();
            (x, rep)
        })
        .unwrap()
        .join()
        .unwrap()
}

pub use interpose::{arm_from_env, keep_symbols, pin, IO_FAULTS};
