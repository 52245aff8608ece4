//! libc symbols interposed at link time: threads, futexes, clocks, sleeping,
//! randomness and file reads of the simulated program end up in the simulator.
//! When the calling thread is not part of a simulation the real function runs.
#![allow(invalid_runtime_symbol_definitions)]
use super::*;
use libc::{c_char, c_int, c_long, c_uint, c_void, timespec};
use std::arch::asm;

#[inline(never)]
pub unsafe fn raw_syscall(n: c_long, a: usize, b: usize, c: usize, d: usize, e: usize, f: usize) -> isize {
    let ret: isize;
    asm!("syscall", inlateout("rax") n as isize => ret, in("rdi") a, in("rsi") b, in("rdx") c,
         in("r10") d, in("r8") e, in("r9") f, out("rcx") _, out("r11") _, options(nostack));
    ret
}

unsafe fn set_errno(e: c_int) {
    *libc::__errno_location() = e;
}

unsafe fn ret(r: isize) -> c_long {
    if r < 0 && r > -4096 {
        set_errno(-r as c_int);
        -1
    } else {
        r as c_long
    }
}

unsafe fn real(name: &[u8]) -> usize {
    libc::dlsym(libc::RTLD_NEXT, name.as_ptr() as *const c_char) as usize
}
macro_rules! real_fn {
    ($name:literal, $ty:ty) => {{
        static P: std::sync::atomic::AtomicUsize = std::sync::atomic::AtomicUsize::new(0);
        let mut p = P.load(Relaxed);
        if p == 0 {
            p = real(concat!($name, "\0").as_bytes());
            P.store(p, Relaxed);
        }
        std::mem::transmute::<usize, $ty>(p)
    }};
}

/* --------------------------------------------------------------- futexes --- */

const FUTEX_WAIT: usize = 0;
const FUTEX_WAKE: usize = 1;
const FUTEX_WAIT_BITSET: usize = 9;
const FUTEX_WAKE_BITSET: usize = 10;
const MONO_BASE: u64 = 1_000_000_000_000; // ns
const REAL_BASE: u64 = 1_700_000_000_000_000_000; // ns

#[no_mangle]
pub unsafe extern "C" fn syscall(n: c_long, a: usize, b: usize, c: usize, d: usize, e: usize, f: usize) -> c_long {
    if n == libc::SYS_futex && active() {
        let op = b & 0x7f;
        match op {
            FUTEX_WAIT | FUTEX_WAIT_BITSET => {
                point(Kind::Futex);
                let word = &*(a as *const AtomicU32);
                if word.load(SeqCst) != c as u32 {
                    set_errno(libc::EAGAIN);
                    return -1;
                }
                let deadline = if d == 0 {
                    None
                } else {
                    let ts = &*(d as *const timespec);
                    let ns = ts.tv_sec as u64 * 1_000_000_000 + ts.tv_nsec as u64;
                    let base = if b & 256 != 0 { REAL_BASE } else { MONO_BASE };
                    Some(if op == FUTEX_WAIT { now() + ns } else { ns.saturating_sub(base) })
                };
                let ppm = rt().cfg.spurious_ppm;
                if fault(Fault::SpuriousWake, ppm) {
                    return 0;
                }
                return match block(a, Kind::Futex, deadline, 0) {
                    Wake::Woken => 0,
                    Wake::TimedOut => {
                        set_errno(libc::ETIMEDOUT);
                        -1
                    }
                };
            }
            FUTEX_WAKE | FUTEX_WAKE_BITSET => {
                let w = super::wake(a, Kind::Futex, c);
                point(Kind::Futex);
                return w as c_long;
            }
            _ => fail("limit", "futex operation without a model"),
        }
    }
    if n == libc::SYS_getrandom && active() {
        return getrandom(a as *mut c_void, b, c as c_uint) as c_long;
    }
    if n == libc::SYS_sched_yield && active() {
        point(Kind::Yield);
        return 0;
    }
    ret(raw_syscall(n, a, b, c, d, e, f))
}

/* --------------------------------------------------------------- threads --- */

type StartFn = extern "C" fn(*mut c_void) -> *mut c_void;
struct Tramp {
    start: StartFn,
    arg: *mut c_void,
    tid: usize,
}

extern "C" fn trampoline(p: *mut c_void) -> *mut c_void {
    let b = unsafe { Box::from_raw(p as *mut Tramp) };
    let Tramp { start, arg, tid } = *b;
    sys_wait(&TURN[tid]);
    set_tid(tid);
    let r = start(arg);
    finish_current_dtors();
    // this thread is done: hand over the token for good
    let x = rt();
    x.threads[tid].st = St::Finished;
    let pt = x.threads[tid].pthread;
    super::wake(pt, Kind::Join, usize::MAX);
    super::wake(usize::MAX, Kind::Join, usize::MAX);
    advance(rt(), Kind::Exit);
    let n = pick_next(Kind::Exit);
    let x = rt();
    x.rep.switches += 1;
    x.cur = n;
    set_tid(NONE);
    sys_signal(&TURN[n]);
    r
}

type CreateFn = unsafe extern "C" fn(*mut libc::pthread_t, *const c_void, StartFn, *mut c_void) -> c_int;

#[no_mangle]
pub unsafe extern "C" fn pthread_create(
    t: *mut libc::pthread_t,
    attr: *const c_void,
    start: StartFn,
    arg: *mut c_void,
) -> c_int {
    let f = real_fn!("pthread_create", CreateFn);
    if !active() {
        return f(t, attr, start, arg);
    }
    let ppm = rt().cfg.spawn_fail_ppm;
    if fault(Fault::SpawnFail, ppm) {
        return libc::EAGAIN;
    }
    let jump = std::mem::take(&mut rt().cfg.spawn_jump_ns);
    if jump > 0 {
        rt().now += jump;
        rt().rep.faults[Fault::ClockJump as usize] += 1;
    }
    let id = new_thread(rt());
    let g = Rtg::new();
    let b = Box::into_raw(Box::new(Tramp { start, arg, tid: id }));
    let rc = f(t, attr, trampoline, b as *mut c_void);
    if rc != 0 {
        drop(Box::from_raw(b));
        fail("limit", "the sandbox cannot create a thread");
    }
    rt().threads[id].pthread = *t as usize;
    drop(g);
    point(Kind::Spawn);
    0
}

#[no_mangle]
pub unsafe extern "C" fn pthread_join(t: libc::pthread_t, out: *mut *mut c_void) -> c_int {
    let f = real_fn!("pthread_join", unsafe extern "C" fn(libc::pthread_t, *mut *mut c_void) -> c_int);
    if active() {
        point(Kind::Join);
        // the most recent thread having that handle
        while let Some(id) = rt().threads.iter().rposition(|x| x.pthread == t as usize) {
            if rt().threads[id].st == St::Finished {
                break;
            }
            block(t as usize, Kind::Join, None, 0);
        }
    }
    f(t, out)
}

#[no_mangle]
pub unsafe extern "C" fn __cxa_thread_atexit_impl(dtor: *mut c_void, obj: *mut c_void, dso: *mut c_void) -> c_int {
    // (the main thread of a simulation outlives it: its destructors run later)
    if active() && rt().cur != 0 {
        let _g = Rtg::new();
        let r = rt();
        let c = r.cur;
        r.threads[c].dtors.push((dtor as usize, obj as usize));
        return 0;
    }
    let f = real_fn!("__cxa_thread_atexit_impl", unsafe extern "C" fn(*mut c_void, *mut c_void, *mut c_void) -> c_int);
    f(dtor, obj, dso)
}

#[no_mangle]
pub unsafe extern "C" fn sched_getaffinity(pid: libc::pid_t, len: usize, set: *mut libc::cpu_set_t) -> c_int {
    if active() {
        let n = (rt().cfg.cpus as usize).clamp(1, 8 * len);
        std::ptr::write_bytes(set as *mut u8, 0, len);
        for i in 0..n {
            *(set as *mut u8).add(i / 8) |= 1 << (i % 8);
        }
        return 0;
    }
    ret(raw_syscall(libc::SYS_sched_getaffinity, pid as usize, len, set as usize, 0, 0, 0)).min(0) as c_int
}

#[no_mangle]
pub unsafe extern "C" fn sched_yield() -> c_int {
    if active() {
        point(Kind::Yield);
        return 0;
    }
    raw_syscall(libc::SYS_sched_yield, 0, 0, 0, 0, 0, 0) as c_int
}

/* ----------------------------------------------------------------- clock --- */

#[no_mangle]
pub unsafe extern "C" fn clock_gettime(id: libc::clockid_t, ts: *mut timespec) -> c_int {
    if active() {
        let base = match id {
            libc::CLOCK_REALTIME | libc::CLOCK_REALTIME_COARSE => REAL_BASE,
            libc::CLOCK_MONOTONIC | libc::CLOCK_MONOTONIC_COARSE | libc::CLOCK_MONOTONIC_RAW | libc::CLOCK_BOOTTIME => {
                MONO_BASE
            }
            _ => 0,
        };
        let t = base + now();
        (*ts).tv_sec = (t / 1_000_000_000) as i64;
        (*ts).tv_nsec = (t % 1_000_000_000) as i64;
        return 0;
    }
    ret(raw_syscall(libc::SYS_clock_gettime, id as usize, ts as usize, 0, 0, 0, 0)) as c_int
}

unsafe fn ts_ns(ts: *const timespec) -> u64 {
    ((*ts).tv_sec as u64).saturating_mul(1_000_000_000).saturating_add((*ts).tv_nsec as u64)
}

#[no_mangle]
pub unsafe extern "C" fn nanosleep(req: *const timespec, rem: *mut timespec) -> c_int {
    if active() {
        sleep_ns(ts_ns(req));
        return 0;
    }
    ret(raw_syscall(libc::SYS_nanosleep, req as usize, rem as usize, 0, 0, 0, 0)) as c_int
}

#[no_mangle]
pub unsafe extern "C" fn clock_nanosleep(
    id: libc::clockid_t,
    flags: c_int,
    req: *const timespec,
    rem: *mut timespec,
) -> c_int {
    if active() {
        let ns = ts_ns(req);
        if flags & 1 != 0 {
            let base = if id == libc::CLOCK_REALTIME { REAL_BASE } else { MONO_BASE };
            let target = ns.saturating_sub(base);
            let n = now();
            if target > n {
                sleep_ns(target - n);
            }
        } else {
            sleep_ns(ns);
        }
        return 0;
    }
    -(raw_syscall(libc::SYS_clock_nanosleep, id as usize, flags as usize, req as usize, rem as usize, 0, 0) as c_int)
}

#[no_mangle]
pub unsafe extern "C" fn usleep(us: c_uint) -> c_int {
    let ts = timespec { tv_sec: (us / 1_000_000) as i64, tv_nsec: (us % 1_000_000) as i64 * 1000 };
    nanosleep(&ts, std::ptr::null_mut())
}

/* ------------------------------------------------------------ randomness --- */

#[no_mangle]
pub unsafe extern "C" fn getrandom(buf: *mut c_void, len: usize, flags: c_uint) -> isize {
    if active() {
        let r = rt();
        let p = buf as *mut u8;
        for i in 0..len {
            *p.add(i) = r.misc_rng.next() as u8;
        }
        return len as isize;
    }
    ret(raw_syscall(libc::SYS_getrandom, buf as usize, len, flags as usize, 0, 0, 0)) as isize
}

/* -------------------------------------------------------------- file i/o --- */

pub struct IoFaults {
    pub short_ppm: u64,
    pub eintr_ppm: u64,
    pub eio_ppm: u64,
    pub open_ppm: u64,
    pub fd: c_int,
    pub path: Option<Vec<u8>>,
}
pub static mut IO_FAULTS: IoFaults =
    IoFaults { short_ppm: 0, eintr_ppm: 0, eio_ppm: 0, open_ppm: 0, fd: -1, path: None };

unsafe fn path_matches(p: *const c_char) -> bool {
    match IO_FAULTS.path.as_ref() {
        Some(x) => std::ffi::CStr::from_ptr(p).to_bytes() == &x[..],
        None => false,
    }
}

unsafe fn do_open(dirfd: c_int, p: *const c_char, flags: c_int, mode: c_uint) -> c_int {
    let watched = active() && path_matches(p);
    if active() && std::ffi::CStr::from_ptr(p).to_bytes().starts_with(b"/proc/self/") {
        // (num_cpus: the processors of the simulated machine are not limited by a cgroup)
        set_errno(libc::ENOENT);
        return -1;
    }
    if watched {
        point(Kind::Io);
        let ppm = IO_FAULTS.open_ppm;
        if fault(Fault::OpenFail, ppm) {
            set_errno(libc::EMFILE);
            return -1;
        }
        let ppm = IO_FAULTS.eintr_ppm;
        if fault(Fault::Eintr, ppm) {
            set_errno(libc::EINTR);
            return -1;
        }
    }
    let r = ret(raw_syscall(libc::SYS_openat, dirfd as usize, p as usize, flags as usize, mode as usize, 0, 0)) as c_int;
    if watched && r >= 0 {
        IO_FAULTS.fd = r;
    }
    r
}
#[no_mangle]
pub unsafe extern "C" fn open(p: *const c_char, flags: c_int, mode: c_uint) -> c_int {
    do_open(libc::AT_FDCWD, p, flags, mode)
}
#[no_mangle]
pub unsafe extern "C" fn open64(p: *const c_char, flags: c_int, mode: c_uint) -> c_int {
    do_open(libc::AT_FDCWD, p, flags | libc::O_LARGEFILE, mode)
}

#[no_mangle]
pub unsafe extern "C" fn read(fd: c_int, buf: *mut c_void, len: usize) -> isize {
    let mut len = len;
    if active() && fd == IO_FAULTS.fd && fd >= 0 {
        point(Kind::Io);
        let (s, i, e) = (IO_FAULTS.short_ppm, IO_FAULTS.eintr_ppm, IO_FAULTS.eio_ppm);
        if fault(Fault::Eintr, i) {
            set_errno(libc::EINTR);
            return -1;
        }
        if fault(Fault::Eio, e) {
            set_errno(libc::EIO);
            return -1;
        }
        if len > 1 && fault(Fault::ShortRead, s) {
            // short read: the simulator draws how much arrives (1..=24 bytes)
            len = (1 + draw(24)).min(len);
        }
    }
    ret(raw_syscall(libc::SYS_read, fd as usize, buf as usize, len, 0, 0, 0)) as isize
}

/* ------------------------------------------- one process = one simulation --- */

fn env_u64(k: &str, d: u64) -> u64 {
    std::env::var(k).ok().and_then(|x| x.parse().ok()).unwrap_or(d)
}

static mut REPORT_PATH: Option<String> = None;

fn write_report(kind: &str, msg: &str) {
    let rep = report();
    let mut s = String::new();
    s.push_str(&format!(
        "end={}\nmsg={}\nsteps={}\nswitches={}\nchoices={}\nhash={:016x}\nsync_hash={:016x}\nsim_ns={}\nedges={}\nthreads={}\n",
        kind, msg.replace('\n', " "), rep.steps, rep.switches, rep.choices, rep.hash, rep.sync_hash, rep.sim_ns, rep.edges, rep.threads
    ));
    for (i, k) in KINDS.iter().enumerate() {
        s.push_str(&format!("kind.{}={}\n", k, rep.kinds[i]));
    }
    for (i, k) in FAULTS.iter().enumerate() {
        s.push_str(&format!("fault.{}={}\n", k, rep.faults[i]));
    }
    let (c, n) = coverage();
    s.push_str(&format!("cov={}/{}\n", c, n));
    let d: Vec<String> = rep.deviations.iter().map(|(i, v)| format!("{}:{}", i, v)).collect();
    s.push_str(&format!("deviations={}\n", d.join(" ")));
    if let Some(p) = unsafe { REPORT_PATH.as_ref() } {
        let _ = std::fs::write(p, s);
    } else {
        eprintln!("{}", s);
    }
}

extern "C" fn at_exit() {
    if ACTIVE.swap(false, SeqCst) {
        set_tid(NONE);
        write_report("exit", "");
    }
}

fn env_fail(kind: &str, msg: &str) {
    write_report(kind, msg);
    unsafe { libc::_exit(70) }
}

/// Arms the simulation of the whole process when VSIM_SEED is set: the calling
/// thread becomes the main thread of the simulation.
pub fn arm_from_env() {
    if std::env::var("VSIM_SEED").is_err() || ACTIVE.load(SeqCst) {
        return;
    }
    let d = Config::default();
    let replay = std::env::var("VSIM_REPLAY").ok().map(|s| {
        s.split_whitespace()
            .filter_map(|x| {
                let (a, b) = x.split_once(':')?;
                Some((a.parse().ok()?, b.parse().ok()?))
            })
            .collect()
    });
    let cfg = Config {
        seed: env_u64("VSIM_SEED", 1),
        strategy: Strategy::from_u64(env_u64("VSIM_STRATEGY", 0)),
        p: env_u64("VSIM_P", d.p),
        pct_d: env_u64("VSIM_PCT_D", d.pct_d),
        pct_len: env_u64("VSIM_PCT_LEN", d.pct_len),
        edge_gap: env_u64("VSIM_EDGE_GAP", 0),
        tick_ns: env_u64("VSIM_TICK_NS", d.tick_ns),
        spawn_fail_ppm: env_u64("VSIM_SPAWN_FAIL_PPM", 0),
        clock_jump_ppm: env_u64("VSIM_CLOCK_JUMP_PPM", 0),
        clock_jump_max_ns: env_u64("VSIM_CLOCK_JUMP_MAX_NS", 0),
        spawn_jump_ns: env_u64("VSIM_SPAWN_JUMP_NS", 0),
        spurious_ppm: env_u64("VSIM_SPURIOUS_PPM", 0),
        step_cap: env_u64("VSIM_STEP_CAP", d.step_cap),
        fair_cap: env_u64("VSIM_FAIR_CAP", d.fair_cap),
        abs_cap: env_u64("VSIM_ABS_CAP", d.abs_cap),
        edge_cap: env_u64("VSIM_EDGE_CAP", d.edge_cap),
        cpus: env_u64("VSIM_CPUS", d.cpus),
        replay,
    };
    unsafe {
        IO_FAULTS.short_ppm = env_u64("VSIM_SHORT_READ_PPM", 0);
        IO_FAULTS.eintr_ppm = env_u64("VSIM_EINTR_PPM", 0);
        IO_FAULTS.eio_ppm = env_u64("VSIM_EIO_PPM", 0);
        IO_FAULTS.open_ppm = env_u64("VSIM_OPEN_FAIL_PPM", 0);
        IO_FAULTS.path = std::env::var("VSIM_FILE").ok().map(|s| s.into_bytes());
        REPORT_PATH = std::env::var("VSIM_REPORT").ok();
        FAIL = Some(env_fail);
        libc::atexit(at_exit);
        // one CPU: handing the token over is then a plain context switch
        if let Ok(cpu) = std::env::var("VSIM_CPU") {
            if let Ok(c) = cpu.parse::<usize>() {
                pin(c);
            }
        }
    }
    begin(cfg);
}

/// Pins the process to one of the CPUs it may use
pub fn pin(k: usize) {
    unsafe {
        let mut set: libc::cpu_set_t = std::mem::zeroed();
        if libc::sched_getaffinity(0, std::mem::size_of::<libc::cpu_set_t>(), &mut set) != 0 {
            return;
        }
        let cpus: Vec<usize> = (0..1024).filter(|i| libc::CPU_ISSET(*i, &set)).collect();
        if cpus.is_empty() {
            return;
        }
        let mut one: libc::cpu_set_t = std::mem::zeroed();
        libc::CPU_SET(cpus[k % cpus.len()], &mut one);
        libc::sched_setaffinity(0, std::mem::size_of::<libc::cpu_set_t>(), &one);
    }
}

extern "C" fn init() {
    arm_from_env();
}

#[used]
#[link_section = ".init_array.99999"]
static INIT: extern "C" fn() = init;

/// Referencing this function is enough to have the interposed symbols linked.
#[inline(never)]
pub fn keep_symbols() -> usize {
    static TABLE: &[&(dyn Fn() -> usize + Sync)] = &[&|| syscall as *const () as usize, &|| pthread_create as *const () as usize, &|| pthread_join as *const () as usize,
        &|| clock_gettime as *const () as usize, &|| nanosleep as *const () as usize, &|| clock_nanosleep as *const () as usize, &|| sched_yield as *const () as usize,
        &|| getrandom as *const () as usize, &|| read as *const () as usize, &|| open64 as *const () as usize, &|| open as *const () as usize,
        &|| __cxa_thread_atexit_impl as *const () as usize, &|| usleep as *const () as usize];
    TABLE.iter().map(|f| f()).fold(0, |a, b| a ^ b)
}
