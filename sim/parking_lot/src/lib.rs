//! parking_lot's interface on the simulator's scheduler: every lock and unlock is a scheduling point.
use simrt::{current, in_coro, park, park_until, sim, unpark, yield_point, CoroId, Kernel};
use std::{
    cell::{Cell, UnsafeCell},
    time::{Duration, Instant},
};

fn wait(q: &UnsafeCell<Vec<CoroId>>, why: &'static str, deadline: Option<u64>) -> bool {
    if !in_coro() {
        panic!("lock contention outside the simulation");
    }
    {
        let _k = Kernel::enter();
        unsafe { (*q.get()).push(current()) };
    }
    let to = match deadline {
        Some(d) => park_until(why, d),
        None => {
            park(why);
            false
        }
    };
    let me = current();
    unsafe { (*q.get()).retain(|c| *c != me) };
    to
}
fn wake_one(q: &UnsafeCell<Vec<CoroId>>) {
    let q = unsafe { &mut *q.get() };
    if !q.is_empty() {
        unpark(q.remove(0));
    }
}
fn wake_all(q: &UnsafeCell<Vec<CoroId>>) {
    let q = unsafe { &mut *q.get() };
    for c in q.drain(..) {
        unpark(c);
    }
}
fn deadline(d: Duration) -> u64 {
    if simrt::active() {
        sim().now.saturating_add(d.as_nanos() as u64)
    } else {
        0
    }
}

pub struct RawMutex {
    locked: Cell<bool>,
    q: UnsafeCell<Vec<CoroId>>,
}
unsafe impl Send for RawMutex {}
unsafe impl Sync for RawMutex {}
unsafe impl lock_api::RawMutex for RawMutex {
    #[allow(clippy::declare_interior_mutable_const)]
    const INIT: Self = RawMutex { locked: Cell::new(false), q: UnsafeCell::new(Vec::new()) };
    type GuardMarker = lock_api::GuardNoSend;
    fn lock(&self) {
        yield_point(1);
        while self.locked.get() {
            wait(&self.q, "mutex", None);
        }
        self.locked.set(true);
        // a thread can be stopped anywhere inside the critical section
        yield_point(8);
    }
    fn try_lock(&self) -> bool {
        yield_point(2);
        if self.locked.replace(true) {
            return false;
        }
        yield_point(8);
        true
    }
    unsafe fn unlock(&self) {
        yield_point(9);
        self.locked.set(false);
        wake_one(&self.q);
        yield_point(3);
    }
    fn is_locked(&self) -> bool {
        self.locked.get()
    }
}
unsafe impl lock_api::RawMutexFair for RawMutex {
    unsafe fn unlock_fair(&self) {
        lock_api::RawMutex::unlock(self);
    }
}
unsafe impl lock_api::RawMutexTimed for RawMutex {
    type Duration = Duration;
    type Instant = Instant;
    fn try_lock_for(&self, d: Duration) -> bool {
        yield_point(1);
        let dl = deadline(d);
        while self.locked.get() {
            if wait(&self.q, "mutex (timed)", Some(dl)) {
                break;
            }
        }
        !self.locked.replace(true)
    }
    fn try_lock_until(&self, at: Instant) -> bool {
        self.try_lock_for(at.saturating_duration_since(Instant::now()))
    }
}

pub struct RawRwLock {
    readers: Cell<usize>,
    writer: Cell<bool>,
    writers_waiting: Cell<usize>,
    up: Cell<bool>,
    q: UnsafeCell<Vec<CoroId>>,
}
unsafe impl Send for RawRwLock {}
unsafe impl Sync for RawRwLock {}
unsafe impl lock_api::RawRwLock for RawRwLock {
    #[allow(clippy::declare_interior_mutable_const)]
    const INIT: Self = RawRwLock {
        readers: Cell::new(0),
        writer: Cell::new(false),
        writers_waiting: Cell::new(0),
        up: Cell::new(false),
        q: UnsafeCell::new(Vec::new()),
    };
    type GuardMarker = lock_api::GuardNoSend;
    fn lock_shared(&self) {
        yield_point(4);
        while self.writer.get() || self.writers_waiting.get() > 0 {
            wait(&self.q, "rwlock read", None);
        }
        self.readers.set(self.readers.get() + 1);
        yield_point(8);
    }
    fn try_lock_shared(&self) -> bool {
        yield_point(4);
        if self.writer.get() {
            return false;
        }
        self.readers.set(self.readers.get() + 1);
        yield_point(8);
        true
    }
    unsafe fn unlock_shared(&self) {
        yield_point(9);
        self.readers.set(self.readers.get() - 1);
        wake_all(&self.q);
        yield_point(5);
    }
    fn lock_exclusive(&self) {
        yield_point(6);
        self.writers_waiting.set(self.writers_waiting.get() + 1);
        while self.writer.get() || self.readers.get() > 0 {
            wait(&self.q, "rwlock write", None);
        }
        self.writers_waiting.set(self.writers_waiting.get() - 1);
        self.writer.set(true);
        yield_point(8);
    }
    fn try_lock_exclusive(&self) -> bool {
        yield_point(6);
        if self.writer.get() || self.readers.get() > 0 {
            return false;
        }
        self.writer.set(true);
        yield_point(8);
        true
    }
    unsafe fn unlock_exclusive(&self) {
        yield_point(9);
        self.writer.set(false);
        wake_all(&self.q);
        yield_point(7);
    }
    fn is_locked(&self) -> bool {
        self.writer.get() || self.readers.get() > 0
    }
}
unsafe impl lock_api::RawRwLockDowngrade for RawRwLock {
    unsafe fn downgrade(&self) {
        self.writer.set(false);
        self.readers.set(self.readers.get() + 1);
        wake_all(&self.q);
    }
}

unsafe impl lock_api::RawRwLockRecursive for RawRwLock {
    fn lock_shared_recursive(&self) {
        yield_point(4);
        while self.writer.get() {
            wait(&self.q, "rwlock read", None);
        }
        self.readers.set(self.readers.get() + 1);
    }
    fn try_lock_shared_recursive(&self) -> bool {
        lock_api::RawRwLock::try_lock_shared(self)
    }
}
unsafe impl lock_api::RawRwLockFair for RawRwLock {
    unsafe fn unlock_shared_fair(&self) {
        lock_api::RawRwLock::unlock_shared(self);
    }
    unsafe fn unlock_exclusive_fair(&self) {
        lock_api::RawRwLock::unlock_exclusive(self);
    }
}
unsafe impl lock_api::RawRwLockTimed for RawRwLock {
    type Duration = Duration;
    type Instant = Instant;
    fn try_lock_shared_for(&self, d: Duration) -> bool {
        let dl = deadline(d);
        while self.writer.get() || self.writers_waiting.get() > 0 {
            if wait(&self.q, "rwlock read (timed)", Some(dl)) {
                break;
            }
        }
        lock_api::RawRwLock::try_lock_shared(self)
    }
    fn try_lock_shared_until(&self, at: Instant) -> bool {
        self.try_lock_shared_for(at.saturating_duration_since(Instant::now()))
    }
    fn try_lock_exclusive_for(&self, d: Duration) -> bool {
        let dl = deadline(d);
        self.writers_waiting.set(self.writers_waiting.get() + 1);
        while self.writer.get() || self.readers.get() > 0 {
            if wait(&self.q, "rwlock write (timed)", Some(dl)) {
                break;
            }
        }
        self.writers_waiting.set(self.writers_waiting.get() - 1);
        let got = lock_api::RawRwLock::try_lock_exclusive(self);
        if !got {
            wake_all(&self.q);
        }
        got
    }
    fn try_lock_exclusive_until(&self, at: Instant) -> bool {
        self.try_lock_exclusive_for(at.saturating_duration_since(Instant::now()))
    }
}
/// One upgradable reader at a time, next to plain readers.
unsafe impl lock_api::RawRwLockUpgrade for RawRwLock {
    fn lock_upgradable(&self) {
        yield_point(4);
        while self.up.get() || self.writer.get() || self.writers_waiting.get() > 0 {
            wait(&self.q, "rwlock upgradable", None);
        }
        self.up.set(true);
        self.readers.set(self.readers.get() + 1);
    }
    fn try_lock_upgradable(&self) -> bool {
        yield_point(4);
        if self.up.get() || self.writer.get() {
            return false;
        }
        self.up.set(true);
        self.readers.set(self.readers.get() + 1);
        true
    }
    unsafe fn unlock_upgradable(&self) {
        self.up.set(false);
        lock_api::RawRwLock::unlock_shared(self);
    }
    unsafe fn upgrade(&self) {
        yield_point(6);
        self.writers_waiting.set(self.writers_waiting.get() + 1);
        while self.readers.get() > 1 {
            wait(&self.q, "rwlock upgrade", None);
        }
        self.writers_waiting.set(self.writers_waiting.get() - 1);
        self.up.set(false);
        self.readers.set(0);
        self.writer.set(true);
    }
    unsafe fn try_upgrade(&self) -> bool {
        if self.readers.get() > 1 {
            return false;
        }
        self.up.set(false);
        self.readers.set(0);
        self.writer.set(true);
        true
    }
}

pub type Mutex<T> = lock_api::Mutex<RawMutex, T>;
pub type MutexGuard<'a, T> = lock_api::MutexGuard<'a, RawMutex, T>;
pub type MappedMutexGuard<'a, T> = lock_api::MappedMutexGuard<'a, RawMutex, T>;
pub type RwLock<T> = lock_api::RwLock<RawRwLock, T>;
pub type RwLockReadGuard<'a, T> = lock_api::RwLockReadGuard<'a, RawRwLock, T>;
pub type RwLockUpgradableReadGuard<'a, T> = lock_api::RwLockUpgradableReadGuard<'a, RawRwLock, T>;
pub type RwLockWriteGuard<'a, T> = lock_api::RwLockWriteGuard<'a, RawRwLock, T>;
pub type MappedRwLockReadGuard<'a, T> = lock_api::MappedRwLockReadGuard<'a, RawRwLock, T>;
pub type MappedRwLockWriteGuard<'a, T> = lock_api::MappedRwLockWriteGuard<'a, RawRwLock, T>;
#[cfg(feature = "arc_lock")]
pub type ArcMutexGuard<T> = lock_api::ArcMutexGuard<RawMutex, T>;
pub use lock_api;

pub const fn const_mutex<T>(v: T) -> Mutex<T> {
    Mutex::const_new(<RawMutex as lock_api::RawMutex>::INIT, v)
}
pub const fn const_rwlock<T>(v: T) -> RwLock<T> {
    RwLock::const_new(<RawRwLock as lock_api::RawRwLock>::INIT, v)
}

pub struct WaitTimeoutResult(bool);
impl WaitTimeoutResult {
    pub fn timed_out(&self) -> bool {
        self.0
    }
}
#[derive(Default)]
pub struct Condvar {
    q: UnsafeCell<Vec<CoroId>>,
}
unsafe impl Send for Condvar {}
unsafe impl Sync for Condvar {}
impl std::fmt::Debug for Condvar {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        f.write_str("Condvar")
    }
}
impl Condvar {
    pub const fn new() -> Self {
        Condvar { q: UnsafeCell::new(Vec::new()) }
    }
    pub fn notify_one(&self) -> bool {
        yield_point(8);
        let some = unsafe { !(*self.q.get()).is_empty() };
        wake_one(&self.q);
        some
    }
    pub fn notify_all(&self) -> usize {
        yield_point(8);
        let n = unsafe { (*self.q.get()).len() };
        wake_all(&self.q);
        n
    }
    fn inner<T: ?Sized>(&self, g: &mut MutexGuard<'_, T>, dl: Option<u64>) -> bool {
        let _k = Kernel::enter();
        let raw = unsafe { MutexGuard::mutex(g).raw() };
        unsafe { (*self.q.get()).push(current()) };
        drop(_k);
        raw.locked.set(false);
        wake_one(&raw.q);
        let to = match dl {
            Some(d) => park_until("condvar", d),
            None => {
                park("condvar");
                false
            }
        };
        let me = current();
        unsafe { (*self.q.get()).retain(|c| *c != me) };
        lock_api::RawMutex::lock(raw);
        to
    }
    pub fn wait<T: ?Sized>(&self, g: &mut MutexGuard<'_, T>) {
        self.inner(g, None);
    }
    pub fn wait_for<T: ?Sized>(&self, g: &mut MutexGuard<'_, T>, d: Duration) -> WaitTimeoutResult {
        WaitTimeoutResult(self.inner(g, Some(deadline(d))))
    }
    pub fn wait_until<T: ?Sized>(&self, g: &mut MutexGuard<'_, T>, at: Instant) -> WaitTimeoutResult {
        self.wait_for(g, at.saturating_duration_since(Instant::now()))
    }
    pub fn wait_while<T: ?Sized>(&self, g: &mut MutexGuard<'_, T>, mut f: impl FnMut(&mut T) -> bool) {
        while f(&mut *g) {
            self.wait(g);
        }
    }
}

pub type FairMutex<T> = lock_api::Mutex<RawMutex, T>;
pub type FairMutexGuard<'a, T> = lock_api::MutexGuard<'a, RawMutex, T>;
/// The standard library's, whose waiting goes through the simulator's futex.
#[derive(Debug)]
pub struct Once(std::sync::Once);
impl Default for Once {
    fn default() -> Self {
        Self::new()
    }
}
impl Once {
    pub const fn new() -> Self {
        Once(std::sync::Once::new())
    }
    pub fn call_once<F: FnOnce()>(&self, f: F) {
        self.0.call_once(f)
    }
    pub fn is_completed(&self) -> bool {
        self.0.is_completed()
    }
}
pub struct ThreadId;
unsafe impl lock_api::GetThreadId for ThreadId {
    const INIT: Self = ThreadId;
    fn nonzero_thread_id(&self) -> std::num::NonZeroUsize {
        std::num::NonZeroUsize::new(simrt::current() as usize + 1).unwrap()
    }
}
pub type ReentrantMutex<T> = lock_api::ReentrantMutex<RawMutex, ThreadId, T>;
pub type ReentrantMutexGuard<'a, T> = lock_api::ReentrantMutexGuard<'a, RawMutex, ThreadId, T>;
