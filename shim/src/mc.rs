//! The control interface between the stand-in locks and the explorer.

use std::cell::UnsafeCell;
use std::sync::atomic::{AtomicUsize, Ordering::Relaxed};

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Kind {
    Read,
    ReadRecursive,
    Write,
    /// Second half of a write acquisition: the WRITER bit is ours, readers are still in.
    WriteDrain,
    Upgradable,
    Mutex,
    /// A point without a lock.
    Yield,
}

/// Unwound with when an acquisition can never be granted (no other thread exists).
#[derive(Debug)]
pub struct SelfDeadlock(pub Kind);

/// A request of a virtual thread: which lock, which access.
#[derive(Clone, Copy, Debug)]
pub struct Req {
    pub lock: usize,
    pub state: *const AtomicUsize,
    pub kind: Kind,
}

impl Req {
    pub fn grantable(&self) -> bool {
        self.kind == Kind::Yield
            || crate::RawRwLock::grantable(unsafe { (*self.state).load(Relaxed) }, self.kind)
    }
}

pub struct Ctl {
    /// Installed by the scheduler while a virtual thread runs; suspends it.
    pub hook: Option<fn(Req)>,
    /// Locks held now, in order of acquisition: (lock, kind, virtual thread).
    pub held: Vec<(usize, Kind, usize)>,
    /// Set when the code used a try-lock (the result depends on releases, too).
    pub tried: bool,
    /// Also schedule at releases.
    pub release_points: bool,
    /// Unlocks without a matching lock and the like.
    pub misuse: Option<&'static str>,
    /// Virtual thread running now.
    pub thread: usize,
    /// Number of acquisitions so far.
    pub acquisitions: u64,
    /// Record of the acquisitions (lock, kind) when on.
    pub log: Option<Vec<(usize, Kind)>>,
}

struct Global(UnsafeCell<Ctl>);
// All exploration happens on one OS thread.
unsafe impl Sync for Global {}

static CTL: Global = Global(UnsafeCell::new(Ctl {
    hook: None,
    held: Vec::new(),
    tried: false,
    release_points: false,
    misuse: None,
    thread: 0,
    acquisitions: 0,
    log: None,
}));

#[allow(clippy::mut_from_ref)]
pub fn ctl() -> &'static mut Ctl {
    unsafe { &mut *CTL.0.get() }
}

pub fn current_thread() -> usize {
    ctl().thread
}

pub(crate) fn acquire(lock: usize, state: &AtomicUsize, kind: Kind) {
    let req = Req { lock, state, kind };
    let c = ctl();
    c.acquisitions += 1;
    match c.hook {
        Some(hook) if !std::thread::panicking() => hook(req),
        _ => {
            if !req.grantable() {
                if std::thread::panicking() {
                    c.misuse = Some("lock acquisition while unwinding that can never be granted");
                    // cannot unwind again; give the explorer a crash it can attribute
                    std::process::abort();
                }
                std::panic::panic_any(SelfDeadlock(kind));
            }
        }
    }
}

/// An explicit scheduling point.
pub fn yield_point() {
    let c = ctl();
    if let Some(hook) = c.hook {
        if !std::thread::panicking() {
            hook(Req { lock: 0, state: std::ptr::null(), kind: Kind::Yield });
        }
    }
}

pub(crate) fn granted(lock: usize, kind: Kind) {
    let c = ctl();
    c.held.push((lock, kind, c.thread));
    if let Some(l) = &mut c.log {
        l.push((lock, kind));
    }
}

pub(crate) fn changed(lock: usize, kind: Kind) {
    let c = ctl();
    let t = c.thread;
    if let Some(h) = c.held.iter_mut().rev().find(|h| h.0 == lock && h.2 == t) {
        h.1 = kind;
    } else if let Some(h) = c.held.iter_mut().rev().find(|h| h.0 == lock) {
        h.1 = kind;
    }
    if c.release_points {
        yield_point();
    }
}

pub(crate) fn released(lock: usize) {
    let c = ctl();
    let t = c.thread;
    let pos = c
        .held
        .iter()
        .rposition(|h| h.0 == lock && h.2 == t)
        .or_else(|| c.held.iter().rposition(|h| h.0 == lock));
    match pos {
        Some(p) => {
            c.held.remove(p);
        }
        None => c.misuse = Some("release of a lock that is not held"),
    }
    if c.release_points {
        yield_point();
    }
}

pub(crate) fn try_point() {
    let c = ctl();
    c.tried |= c.hook.is_some();
    yield_point();
}

pub(crate) fn check(ok: bool, what: &'static str) {
    if !ok {
        ctl().misuse = Some(what);
    }
}
