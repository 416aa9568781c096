//! Controlled replacement of parking_lot, built on the same `lock_api` front end.
//!
//! The raw locks follow parking_lot's state word (PARKED bits left out): a writer first takes the
//! WRITER bit, which keeps new readers out, and then waits for the readers that are in. Instead of
//! parking the OS thread, an acquisition calls the installed hook, which returns once the scheduler
//! let the calling virtual thread go on. Without a scheduler (sequential exploration) a blocked
//! acquisition can never be granted and is reported by unwinding with `SelfDeadlock`.
//! Everything runs on one OS thread.

pub mod mc;

use mc::{acquire, released, Kind};
use std::sync::atomic::{AtomicUsize, Ordering::Relaxed};
use std::time::{Duration, Instant};

const UPGRADABLE: usize = 0b0100;
const WRITER: usize = 0b1000;
const READERS: usize = !0b1111;
const ONE_READER: usize = 0b10000;

/// Raw reader-writer lock.
pub struct RawRwLock {
    state: AtomicUsize,
}

impl RawRwLock {
    #[inline]
    fn get(&self) -> usize {
        self.state.load(Relaxed)
    }
    #[inline]
    fn set(&self, v: usize) {
        self.state.store(v, Relaxed)
    }
    #[inline]
    fn addr(&self) -> usize {
        self as *const _ as usize
    }
    /// Can an acquisition of this kind be granted now?
    pub fn grantable(state: usize, kind: Kind) -> bool {
        match kind {
            Kind::Read => state & WRITER == 0,
            Kind::ReadRecursive => state & WRITER == 0 || state & READERS != 0,
            Kind::Write => state & (WRITER | UPGRADABLE) == 0,
            Kind::WriteDrain => state & READERS == 0,
            Kind::Upgradable => state & (WRITER | UPGRADABLE) == 0,
            Kind::Mutex => state == 0,
            Kind::Yield => true,
        }
    }
    fn wait(&self, kind: Kind) {
        acquire(self.addr(), &self.state, kind);
    }
    fn drain(&self) {
        if self.get() & READERS != 0 {
            self.wait(Kind::WriteDrain);
        }
    }
}

unsafe impl lock_api::RawRwLock for RawRwLock {
    #[allow(clippy::declare_interior_mutable_const)]
    const INIT: RawRwLock = RawRwLock { state: AtomicUsize::new(0) };
    type GuardMarker = lock_api::GuardNoSend;

    fn lock_shared(&self) {
        self.wait(Kind::Read);
        self.set(self.get() + ONE_READER);
        mc::granted(self.addr(), Kind::Read);
    }
    fn try_lock_shared(&self) -> bool {
        mc::try_point();
        if !Self::grantable(self.get(), Kind::Read) {
            return false;
        }
        self.set(self.get() + ONE_READER);
        mc::granted(self.addr(), Kind::Read);
        true
    }
    unsafe fn unlock_shared(&self) {
        mc::check(self.get() & READERS != 0, "unlock_shared of a lock without readers");
        self.set(self.get() - ONE_READER);
        released(self.addr());
    }
    fn lock_exclusive(&self) {
        self.wait(Kind::Write);
        self.set(self.get() | WRITER);
        self.drain();
        mc::granted(self.addr(), Kind::Write);
    }
    fn try_lock_exclusive(&self) -> bool {
        mc::try_point();
        if self.get() != 0 {
            return false;
        }
        self.set(WRITER);
        mc::granted(self.addr(), Kind::Write);
        true
    }
    unsafe fn unlock_exclusive(&self) {
        mc::check(self.get() & WRITER != 0, "unlock_exclusive of a lock without writer");
        self.set(self.get() & !WRITER);
        released(self.addr());
    }
    fn is_locked(&self) -> bool {
        self.get() & (WRITER | READERS) != 0
    }
    fn is_locked_exclusive(&self) -> bool {
        self.get() & WRITER != 0
    }
}

unsafe impl lock_api::RawRwLockFair for RawRwLock {
    unsafe fn unlock_shared_fair(&self) {
        lock_api::RawRwLock::unlock_shared(self)
    }
    unsafe fn unlock_exclusive_fair(&self) {
        lock_api::RawRwLock::unlock_exclusive(self)
    }
}

unsafe impl lock_api::RawRwLockDowngrade for RawRwLock {
    unsafe fn downgrade(&self) {
        mc::check(self.get() & WRITER != 0, "downgrade of a lock without writer");
        self.set((self.get() & !WRITER) + ONE_READER);
        mc::changed(self.addr(), Kind::Read);
    }
}

unsafe impl lock_api::RawRwLockRecursive for RawRwLock {
    fn lock_shared_recursive(&self) {
        self.wait(Kind::ReadRecursive);
        self.set(self.get() + ONE_READER);
        mc::granted(self.addr(), Kind::Read);
    }
    fn try_lock_shared_recursive(&self) -> bool {
        mc::try_point();
        if !Self::grantable(self.get(), Kind::ReadRecursive) {
            return false;
        }
        self.set(self.get() + ONE_READER);
        mc::granted(self.addr(), Kind::Read);
        true
    }
}

unsafe impl lock_api::RawRwLockTimed for RawRwLock {
    type Duration = Duration;
    type Instant = Instant;
    fn try_lock_shared_for(&self, _: Duration) -> bool {
        lock_api::RawRwLock::try_lock_shared(self)
    }
    fn try_lock_shared_until(&self, _: Instant) -> bool {
        lock_api::RawRwLock::try_lock_shared(self)
    }
    fn try_lock_exclusive_for(&self, _: Duration) -> bool {
        lock_api::RawRwLock::try_lock_exclusive(self)
    }
    fn try_lock_exclusive_until(&self, _: Instant) -> bool {
        lock_api::RawRwLock::try_lock_exclusive(self)
    }
}

unsafe impl lock_api::RawRwLockRecursiveTimed for RawRwLock {
    fn try_lock_shared_recursive_for(&self, _: Duration) -> bool {
        lock_api::RawRwLockRecursive::try_lock_shared_recursive(self)
    }
    fn try_lock_shared_recursive_until(&self, _: Instant) -> bool {
        lock_api::RawRwLockRecursive::try_lock_shared_recursive(self)
    }
}

unsafe impl lock_api::RawRwLockUpgrade for RawRwLock {
    fn lock_upgradable(&self) {
        self.wait(Kind::Upgradable);
        self.set((self.get() | UPGRADABLE) + ONE_READER);
        mc::granted(self.addr(), Kind::Upgradable);
    }
    fn try_lock_upgradable(&self) -> bool {
        mc::try_point();
        if !Self::grantable(self.get(), Kind::Upgradable) {
            return false;
        }
        self.set((self.get() | UPGRADABLE) + ONE_READER);
        mc::granted(self.addr(), Kind::Upgradable);
        true
    }
    unsafe fn unlock_upgradable(&self) {
        mc::check(self.get() & UPGRADABLE != 0, "unlock_upgradable of a lock without one");
        self.set((self.get() & !UPGRADABLE) - ONE_READER);
        released(self.addr());
    }
    unsafe fn upgrade(&self) {
        mc::check(self.get() & UPGRADABLE != 0, "upgrade of a lock without upgradable reader");
        self.set(((self.get() & !UPGRADABLE) - ONE_READER) | WRITER);
        self.drain();
        mc::changed(self.addr(), Kind::Write);
    }
    unsafe fn try_upgrade(&self) -> bool {
        if self.get() & READERS != ONE_READER {
            return false;
        }
        self.set(((self.get() & !UPGRADABLE) - ONE_READER) | WRITER);
        mc::changed(self.addr(), Kind::Write);
        true
    }
}

unsafe impl lock_api::RawRwLockUpgradeFair for RawRwLock {
    unsafe fn unlock_upgradable_fair(&self) {
        lock_api::RawRwLockUpgrade::unlock_upgradable(self)
    }
}

unsafe impl lock_api::RawRwLockUpgradeDowngrade for RawRwLock {
    unsafe fn downgrade_upgradable(&self) {
        self.set(self.get() & !UPGRADABLE);
        mc::changed(self.addr(), Kind::Read);
    }
    unsafe fn downgrade_to_upgradable(&self) {
        self.set(((self.get() & !WRITER) | UPGRADABLE) + ONE_READER);
        mc::changed(self.addr(), Kind::Upgradable);
    }
}

unsafe impl lock_api::RawRwLockUpgradeTimed for RawRwLock {
    fn try_lock_upgradable_for(&self, _: Duration) -> bool {
        lock_api::RawRwLockUpgrade::try_lock_upgradable(self)
    }
    fn try_lock_upgradable_until(&self, _: Instant) -> bool {
        lock_api::RawRwLockUpgrade::try_lock_upgradable(self)
    }
    unsafe fn try_upgrade_for(&self, _: Duration) -> bool {
        lock_api::RawRwLockUpgrade::try_upgrade(self)
    }
    unsafe fn try_upgrade_until(&self, _: Instant) -> bool {
        lock_api::RawRwLockUpgrade::try_upgrade(self)
    }
}

/// Raw mutex.
pub struct RawMutex {
    state: AtomicUsize,
}

impl RawMutex {
    fn addr(&self) -> usize {
        self as *const _ as usize
    }
}

unsafe impl lock_api::RawMutex for RawMutex {
    #[allow(clippy::declare_interior_mutable_const)]
    const INIT: RawMutex = RawMutex { state: AtomicUsize::new(0) };
    type GuardMarker = lock_api::GuardNoSend;
    fn lock(&self) {
        acquire(self.addr(), &self.state, Kind::Mutex);
        self.state.store(1, Relaxed);
        mc::granted(self.addr(), Kind::Mutex);
    }
    fn try_lock(&self) -> bool {
        mc::try_point();
        if self.state.load(Relaxed) != 0 {
            return false;
        }
        self.state.store(1, Relaxed);
        mc::granted(self.addr(), Kind::Mutex);
        true
    }
    unsafe fn unlock(&self) {
        mc::check(self.state.load(Relaxed) == 1, "unlock of a free mutex");
        self.state.store(0, Relaxed);
        released(self.addr());
    }
    fn is_locked(&self) -> bool {
        self.state.load(Relaxed) != 0
    }
}

unsafe impl lock_api::RawMutexFair for RawMutex {
    unsafe fn unlock_fair(&self) {
        lock_api::RawMutex::unlock(self)
    }
}

unsafe impl lock_api::RawMutexTimed for RawMutex {
    type Duration = Duration;
    type Instant = Instant;
    fn try_lock_for(&self, _: Duration) -> bool {
        lock_api::RawMutex::try_lock(self)
    }
    fn try_lock_until(&self, _: Instant) -> bool {
        lock_api::RawMutex::try_lock(self)
    }
}

/// Virtual-thread identity for the reentrant mutex.
pub struct RawThreadId;

unsafe impl lock_api::GetThreadId for RawThreadId {
    const INIT: RawThreadId = RawThreadId;
    fn nonzero_thread_id(&self) -> std::num::NonZeroUsize {
        std::num::NonZeroUsize::new(mc::current_thread() + 1).unwrap()
    }
}

pub use lock_api;

pub type RwLock<T> = lock_api::RwLock<RawRwLock, T>;
pub type RwLockReadGuard<'a, T> = lock_api::RwLockReadGuard<'a, RawRwLock, T>;
pub type RwLockWriteGuard<'a, T> = lock_api::RwLockWriteGuard<'a, RawRwLock, T>;
pub type RwLockUpgradableReadGuard<'a, T> = lock_api::RwLockUpgradableReadGuard<'a, RawRwLock, T>;
pub type MappedRwLockReadGuard<'a, T> = lock_api::MappedRwLockReadGuard<'a, RawRwLock, T>;
pub type MappedRwLockWriteGuard<'a, T> = lock_api::MappedRwLockWriteGuard<'a, RawRwLock, T>;
pub type Mutex<T> = lock_api::Mutex<RawMutex, T>;
pub type MutexGuard<'a, T> = lock_api::MutexGuard<'a, RawMutex, T>;
pub type MappedMutexGuard<'a, T> = lock_api::MappedMutexGuard<'a, RawMutex, T>;
pub type FairMutex<T> = Mutex<T>;
pub type FairMutexGuard<'a, T> = MutexGuard<'a, T>;
pub type ReentrantMutex<T> = lock_api::ReentrantMutex<RawMutex, RawThreadId, T>;
pub type ReentrantMutexGuard<'a, T> = lock_api::ReentrantMutexGuard<'a, RawMutex, RawThreadId, T>;
pub type MappedReentrantMutexGuard<'a, T> =
    lock_api::MappedReentrantMutexGuard<'a, RawMutex, RawThreadId, T>;

pub const fn const_rwlock<T>(val: T) -> RwLock<T> {
    RwLock::const_new(<RawRwLock as lock_api::RawRwLock>::INIT, val)
}
pub const fn const_mutex<T>(val: T) -> Mutex<T> {
    Mutex::const_new(<RawMutex as lock_api::RawMutex>::INIT, val)
}
