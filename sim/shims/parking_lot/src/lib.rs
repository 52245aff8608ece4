//! A drop-in replacement of `parking_lot` whose primitives are scheduled by
//! the deterministic simulator. It implements the documented semantics of
//! parking_lot: no poisoning, barging mutexes, writers have priority over new
//! (non recursive) readers, no spurious wake-up of condition variables.
//! Outside of a simulation the primitives spin (they are not contended there).
use simrt::Kind;
use std::cell::Cell;
use std::sync::atomic::{AtomicBool, AtomicUsize, Ordering::SeqCst};
use std::time::{Duration, Instant};

pub use lock_api;

#[inline(never)]
fn relax() {
    std::thread::yield_now();
}
fn deadline(d: Duration) -> Option<u64> {
    Some(simrt::now().saturating_add(d.as_nanos().min(u64::MAX as u128) as u64))
}
fn until(i: Instant) -> Duration {
    i.checked_duration_since(Instant::now()).unwrap_or(Duration::ZERO)
}

/* ----------------------------------------------------------------- mutex --- */

pub struct RawMutex {
    locked: AtomicBool,
}
impl RawMutex {
    fn addr(&self) -> usize {
        self as *const _ as usize
    }
    fn acquire(&self) -> bool {
        self.locked.compare_exchange(false, true, SeqCst, SeqCst).is_ok()
    }
    #[inline(never)]
    fn lock_slow(&self, dl: Option<u64>) -> bool {
        if !simrt::active() {
            while !self.acquire() {
                relax();
            }
            return true;
        }
        simrt::point(Kind::Lock);
        loop {
            if self.acquire() {
                return true;
            }
            if simrt::block(self.addr(), Kind::Lock, dl, 0) == simrt::Wake::TimedOut {
                return self.acquire();
            }
        }
    }
}
unsafe impl lock_api::RawMutex for RawMutex {
    #[allow(clippy::declare_interior_mutable_const)]
    const INIT: RawMutex = RawMutex { locked: AtomicBool::new(false) };
    type GuardMarker = lock_api::GuardNoSend;
    #[inline(never)]
    fn lock(&self) {
        self.lock_slow(None);
    }
    #[inline(never)]
    fn try_lock(&self) -> bool {
        simrt::point(Kind::Lock);
        self.acquire()
    }
    #[inline(never)]
    unsafe fn unlock(&self) {
        self.locked.store(false, SeqCst);
        if simrt::active() {
            simrt::wake(self.addr(), Kind::Lock, usize::MAX);
        }
    }
    fn is_locked(&self) -> bool {
        self.locked.load(SeqCst)
    }
}
unsafe impl lock_api::RawMutexFair for RawMutex {
    #[inline(never)]
    unsafe fn unlock_fair(&self) {
        lock_api::RawMutex::unlock(self);
        simrt::point(Kind::Yield);
    }
}
unsafe impl lock_api::RawMutexTimed for RawMutex {
    type Duration = Duration;
    type Instant = Instant;
    fn try_lock_for(&self, t: Duration) -> bool {
        self.lock_slow(deadline(t))
    }
    fn try_lock_until(&self, t: Instant) -> bool {
        self.lock_slow(deadline(until(t)))
    }
}

pub type Mutex<T> = lock_api::Mutex<RawMutex, T>;
pub type MutexGuard<'a, T> = lock_api::MutexGuard<'a, RawMutex, T>;
pub type MappedMutexGuard<'a, T> = lock_api::MappedMutexGuard<'a, RawMutex, T>;
pub const fn const_mutex<T>(val: T) -> Mutex<T> {
    Mutex::const_new(<RawMutex as lock_api::RawMutex>::INIT, val)
}

pub type RawFairMutex = RawMutex;
pub type FairMutex<T> = lock_api::Mutex<RawFairMutex, T>;
pub type FairMutexGuard<'a, T> = lock_api::MutexGuard<'a, RawFairMutex, T>;
pub const fn const_fair_mutex<T>(val: T) -> FairMutex<T> {
    const_mutex(val)
}

/* ---------------------------------------------------------------- rwlock --- */

const WRITER: usize = 1 << 63;
const UPGRADE: usize = 1 << 62;

pub struct RawRwLock {
    /// WRITER, UPGRADE, or a number of readers
    st: AtomicUsize,
    /// number of writers being blocked
    pending: AtomicUsize,
}
impl RawRwLock {
    fn addr(&self) -> usize {
        self as *const _ as usize
    }
    fn readers(x: usize) -> usize {
        x & !(WRITER | UPGRADE)
    }
    fn try_sh(&self, recursive: bool) -> bool {
        let s = self.st.load(SeqCst);
        if s & WRITER != 0 || (!recursive && self.pending.load(SeqCst) > 0) {
            return false;
        }
        self.st.compare_exchange(s, s + 1, SeqCst, SeqCst).is_ok()
    }
    fn try_ex(&self) -> bool {
        self.st.compare_exchange(0, WRITER, SeqCst, SeqCst).is_ok()
    }
    fn try_up(&self) -> bool {
        let s = self.st.load(SeqCst);
        if s & (WRITER | UPGRADE) != 0 || self.pending.load(SeqCst) > 0 {
            return false;
        }
        self.st.compare_exchange(s, s | UPGRADE, SeqCst, SeqCst).is_ok()
    }
    fn try_promote(&self) -> bool {
        self.st.compare_exchange(UPGRADE, WRITER, SeqCst, SeqCst).is_ok()
    }
    #[inline(never)]
    fn acquire(&self, kind: Kind, writer: bool, dl: Option<u64>, f: &dyn Fn() -> bool) -> bool {
        if !simrt::active() {
            while !f() {
                relax();
            }
            return true;
        }
        simrt::point(kind);
        loop {
            if f() {
                return true;
            }
            if writer {
                self.pending.fetch_add(1, SeqCst);
            }
            let w = simrt::block(self.addr(), Kind::RwRead, dl, 0);
            if writer {
                self.pending.fetch_sub(1, SeqCst);
            }
            if w == simrt::Wake::TimedOut {
                let ok = f();
                if !ok {
                    self.wake();
                }
                return ok;
            }
        }
    }
    fn wake(&self) {
        if simrt::active() {
            simrt::wake(self.addr(), Kind::RwRead, usize::MAX);
        }
    }
}
unsafe impl lock_api::RawRwLock for RawRwLock {
    #[allow(clippy::declare_interior_mutable_const)]
    const INIT: RawRwLock = RawRwLock { st: AtomicUsize::new(0), pending: AtomicUsize::new(0) };
    type GuardMarker = lock_api::GuardNoSend;
    #[inline(never)]
    fn lock_shared(&self) {
        self.acquire(Kind::RwRead, false, None, &|| self.try_sh(false));
    }
    #[inline(never)]
    fn try_lock_shared(&self) -> bool {
        simrt::point(Kind::RwRead);
        self.try_sh(false)
    }
    #[inline(never)]
    unsafe fn unlock_shared(&self) {
        self.st.fetch_sub(1, SeqCst);
        self.wake();
    }
    #[inline(never)]
    fn lock_exclusive(&self) {
        self.acquire(Kind::RwWrite, true, None, &|| self.try_ex());
    }
    #[inline(never)]
    fn try_lock_exclusive(&self) -> bool {
        simrt::point(Kind::RwWrite);
        self.try_ex()
    }
    #[inline(never)]
    unsafe fn unlock_exclusive(&self) {
        self.st.store(0, SeqCst);
        self.wake();
    }
    fn is_locked(&self) -> bool {
        self.st.load(SeqCst) != 0
    }
    fn is_locked_exclusive(&self) -> bool {
        self.st.load(SeqCst) & WRITER != 0
    }
}
unsafe impl lock_api::RawRwLockFair for RawRwLock {
    unsafe fn unlock_shared_fair(&self) {
        lock_api::RawRwLock::unlock_shared(self)
    }
    unsafe fn unlock_exclusive_fair(&self) {
        lock_api::RawRwLock::unlock_exclusive(self)
    }
}
unsafe impl lock_api::RawRwLockDowngrade for RawRwLock {
    unsafe fn downgrade(&self) {
        self.st.store(1, SeqCst);
        self.wake();
    }
}
unsafe impl lock_api::RawRwLockTimed for RawRwLock {
    type Duration = Duration;
    type Instant = Instant;
    fn try_lock_shared_for(&self, t: Duration) -> bool {
        self.acquire(Kind::RwRead, false, deadline(t), &|| self.try_sh(false))
    }
    fn try_lock_shared_until(&self, t: Instant) -> bool {
        self.try_lock_shared_for(until(t))
    }
    fn try_lock_exclusive_for(&self, t: Duration) -> bool {
        self.acquire(Kind::RwWrite, true, deadline(t), &|| self.try_ex())
    }
    fn try_lock_exclusive_until(&self, t: Instant) -> bool {
        self.try_lock_exclusive_for(until(t))
    }
}
unsafe impl lock_api::RawRwLockRecursive for RawRwLock {
    fn lock_shared_recursive(&self) {
        self.acquire(Kind::RwRead, false, None, &|| self.try_sh(true));
    }
    fn try_lock_shared_recursive(&self) -> bool {
        simrt::point(Kind::RwRead);
        self.try_sh(true)
    }
}
unsafe impl lock_api::RawRwLockRecursiveTimed for RawRwLock {
    fn try_lock_shared_recursive_for(&self, t: Duration) -> bool {
        self.acquire(Kind::RwRead, false, deadline(t), &|| self.try_sh(true))
    }
    fn try_lock_shared_recursive_until(&self, t: Instant) -> bool {
        self.try_lock_shared_recursive_for(until(t))
    }
}
unsafe impl lock_api::RawRwLockUpgrade for RawRwLock {
    fn lock_upgradable(&self) {
        self.acquire(Kind::RwRead, false, None, &|| self.try_up());
    }
    fn try_lock_upgradable(&self) -> bool {
        simrt::point(Kind::RwRead);
        self.try_up()
    }
    unsafe fn unlock_upgradable(&self) {
        self.st.fetch_and(!UPGRADE, SeqCst);
        self.wake();
    }
    unsafe fn upgrade(&self) {
        self.acquire(Kind::RwWrite, true, None, &|| self.try_promote());
    }
    unsafe fn try_upgrade(&self) -> bool {
        simrt::point(Kind::RwWrite);
        self.try_promote()
    }
}
unsafe impl lock_api::RawRwLockUpgradeFair for RawRwLock {
    unsafe fn unlock_upgradable_fair(&self) {
        lock_api::RawRwLockUpgrade::unlock_upgradable(self)
    }
}
unsafe impl lock_api::RawRwLockUpgradeDowngrade for RawRwLock {
    unsafe fn downgrade_upgradable(&self) {
        let s = self.st.load(SeqCst);
        self.st.store(RawRwLock::readers(s) + 1, SeqCst);
        self.wake();
    }
    unsafe fn downgrade_to_upgradable(&self) {
        self.st.store(UPGRADE, SeqCst);
        self.wake();
    }
}

pub type RwLock<T> = lock_api::RwLock<RawRwLock, T>;
pub type RwLockReadGuard<'a, T> = lock_api::RwLockReadGuard<'a, RawRwLock, T>;
pub type RwLockWriteGuard<'a, T> = lock_api::RwLockWriteGuard<'a, RawRwLock, T>;
pub type RwLockUpgradableReadGuard<'a, T> = lock_api::RwLockUpgradableReadGuard<'a, RawRwLock, T>;
pub type MappedRwLockReadGuard<'a, T> = lock_api::MappedRwLockReadGuard<'a, RawRwLock, T>;
pub type MappedRwLockWriteGuard<'a, T> = lock_api::MappedRwLockWriteGuard<'a, RawRwLock, T>;
pub const fn const_rwlock<T>(val: T) -> RwLock<T> {
    RwLock::const_new(<RawRwLock as lock_api::RawRwLock>::INIT, val)
}

/* --------------------------------------------------------------- condvar --- */

#[derive(Debug, PartialEq, Eq, Copy, Clone)]
pub struct WaitTimeoutResult(bool);
impl WaitTimeoutResult {
    pub fn timed_out(self) -> bool {
        self.0
    }
}

pub struct Condvar {
    seq: AtomicUsize,
}
impl Default for Condvar {
    fn default() -> Self {
        Self::new()
    }
}
impl std::fmt::Debug for Condvar {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        f.pad("Condvar { .. }")
    }
}
impl Condvar {
    pub const fn new() -> Condvar {
        Condvar { seq: AtomicUsize::new(0) }
    }
    fn addr(&self) -> usize {
        self as *const _ as usize
    }
    #[inline(never)]
    pub fn notify_one(&self) -> bool {
        if !simrt::active() {
            self.seq.fetch_add(1, SeqCst);
            return false;
        }
        simrt::point(Kind::CondNotify);
        simrt::wake(self.addr(), Kind::CondWait, 1) > 0
    }
    #[inline(never)]
    pub fn notify_all(&self) -> usize {
        if !simrt::active() {
            self.seq.fetch_add(1, SeqCst);
            return 0;
        }
        simrt::point(Kind::CondNotify);
        simrt::wake(self.addr(), Kind::CondWait, usize::MAX)
    }
    #[inline(never)]
    fn wait_raw(&self, m: &RawMutex, dl: Option<u64>) -> bool {
        if !simrt::active() {
            let s = self.seq.load(SeqCst);
            unsafe { lock_api::RawMutex::unlock(m) };
            while self.seq.load(SeqCst) == s {
                relax();
            }
            lock_api::RawMutex::lock(m);
            return false;
        }
        let mutex = m as *const _ as usize;
        if simrt::waiting_other(self.addr(), mutex) {
            panic!("attempted to use a condition variable with more than one mutex");
        }
        // the mutex is released and the thread queued atomically
        unsafe { lock_api::RawMutex::unlock(m) };
        let w = simrt::block(self.addr(), Kind::CondWait, dl, mutex);
        m.lock_slow(None);
        w == simrt::Wake::TimedOut
    }
    pub fn wait<T: ?Sized>(&self, g: &mut MutexGuard<'_, T>) {
        let raw = unsafe { MutexGuard::mutex(g).raw() };
        self.wait_raw(raw, None);
    }
    pub fn wait_for<T: ?Sized>(&self, g: &mut MutexGuard<'_, T>, timeout: Duration) -> WaitTimeoutResult {
        let raw = unsafe { MutexGuard::mutex(g).raw() };
        WaitTimeoutResult(self.wait_raw(raw, deadline(timeout)))
    }
    pub fn wait_until<T: ?Sized>(&self, g: &mut MutexGuard<'_, T>, t: Instant) -> WaitTimeoutResult {
        let d = until(t);
        self.wait_for(g, d)
    }
    pub fn wait_while<T: ?Sized, F: FnMut(&mut T) -> bool>(&self, g: &mut MutexGuard<'_, T>, mut c: F) {
        while c(&mut *g) {
            self.wait(g);
        }
    }
    pub fn wait_while_for<T: ?Sized, F: FnMut(&mut T) -> bool>(
        &self,
        g: &mut MutexGuard<'_, T>,
        mut c: F,
        timeout: Duration,
    ) -> WaitTimeoutResult {
        let end = Instant::now() + timeout;
        let mut r = WaitTimeoutResult(false);
        while !r.timed_out() && c(&mut *g) {
            r = self.wait_until(g, end);
        }
        r
    }
    pub fn wait_while_until<T: ?Sized, F: FnMut(&mut T) -> bool>(
        &self,
        g: &mut MutexGuard<'_, T>,
        mut c: F,
        t: Instant,
    ) -> WaitTimeoutResult {
        let mut r = WaitTimeoutResult(false);
        while !r.timed_out() && c(&mut *g) {
            r = self.wait_until(g, t);
        }
        r
    }
}

/* ------------------------------------------------------------- reentrant --- */

pub struct RawThreadId;
unsafe impl lock_api::GetThreadId for RawThreadId {
    #[allow(clippy::declare_interior_mutable_const)]
    const INIT: RawThreadId = RawThreadId;
    fn nonzero_thread_id(&self) -> std::num::NonZeroUsize {
        thread_local!(static KEY: Cell<u8> = const { Cell::new(0) });
        KEY.with(|x| std::num::NonZeroUsize::new(x as *const _ as usize).unwrap())
    }
}
pub type ReentrantMutex<T> = lock_api::ReentrantMutex<RawMutex, RawThreadId, T>;
pub type ReentrantMutexGuard<'a, T> = lock_api::ReentrantMutexGuard<'a, RawMutex, RawThreadId, T>;

/* ------------------------------------------------------------------ once --- */

#[derive(Copy, Clone, Eq, PartialEq, Debug)]
pub enum OnceState {
    New,
    Poisoned,
    InProgress,
    Done,
}
pub struct Once {
    m: RawMutex,
    done: AtomicBool,
}
impl Default for Once {
    fn default() -> Self {
        Self::new()
    }
}
impl Once {
    pub const fn new() -> Once {
        Once { m: <RawMutex as lock_api::RawMutex>::INIT, done: AtomicBool::new(false) }
    }
    pub fn call_once<F: FnOnce()>(&self, f: F) {
        if !self.done.load(SeqCst) {
            lock_api::RawMutex::lock(&self.m);
            if !self.done.load(SeqCst) {
                f();
                self.done.store(true, SeqCst);
            }
            unsafe { lock_api::RawMutex::unlock(&self.m) };
        }
    }
    pub fn state(&self) -> OnceState {
        if self.done.load(SeqCst) {
            OnceState::Done
        } else if lock_api::RawMutex::is_locked(&self.m) {
            OnceState::InProgress
        } else {
            OnceState::New
        }
    }
}
