//! Systematic exploration of thread schedules: virtual threads are coroutines on one OS thread, the
//! stand-in locks hand control to the scheduler before every acquisition, and a depth-first search
//! enumerates every choice of the next thread within a preemption bound.

use corosensei::stack::DefaultStack;
use corosensei::{Coroutine, CoroutineResult, Yielder};
use parking_lot::mc::{ctl, Kind, Req};
use std::cell::UnsafeCell;

pub const MAXT: usize = 4;

type Co = Coroutine<(), Req, ()>;

struct Th {
    co: Option<Co>,
    yielder: *const Yielder<(), Req>,
    pending: Option<Req>,
    /// the pending point is the start of a call: switching there is not a preemption
    free: bool,
    /// points passed since another thread last ran
    run: u32,
}

/// State shared between the scheduler and the code inside the threads.
pub struct Shared {
    th: Vec<Th>,
    cur: usize,
    stacks: Vec<DefaultStack>,
    /// threads are being thrown away: everything unwinds
    pub aborting: bool,
    /// event counter, the clock of an execution
    pub clock: u32,
    /// addresses of the locks that can be told apart from one execution to the next
    pub locks: Vec<usize>,
    /// how each thread ever acquires them (1 shared, 2 exclusive), as far as known before this pass
    pub uses: Option<[[u8; MAXL]; MAXT]>,
    /// the same, collected during this pass
    pub seen: [[u8; MAXL]; MAXT],
}
pub const MAXL: usize = 32;

struct G(UnsafeCell<Shared>);
unsafe impl Sync for G {}
static SH: G = G(UnsafeCell::new(Shared { th: Vec::new(), cur: 0, stacks: Vec::new(), aborting: false, clock: 0, locks: Vec::new(), uses: None, seen: [[0; MAXL]; MAXT] }));

#[allow(clippy::mut_from_ref)]
pub fn sh() -> &'static mut Shared {
    unsafe { &mut *SH.0.get() }
}
pub fn tick() -> u32 {
    let s = sh();
    s.clock += 1;
    s.clock
}
pub fn me() -> usize {
    sh().cur
}

fn hook(req: Req) {
    let s = sh();
    let y = s.th[s.cur].yielder;
    // the scheduler comes back only when the request can be granted
    unsafe { (*y).suspend(req) };
}

/// The start of a call: any thread may go on here at no cost.
pub fn op_start() {
    let s = sh();
    s.th[s.cur].free = true;
    parking_lot::mc::yield_point();
    let s = sh();
    s.th[s.cur].free = false;
}
/// A point in the middle of a call (while guards are held).
pub fn pause() {
    parking_lot::mc::yield_point();
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum End {
    Done,
    /// bit set of the threads that wait forever
    Deadlock(u8),
    /// too many points (spinning code); not followed further
    Long,
}

fn mode(k: Kind) -> u8 {
    match k {
        Kind::Read | Kind::ReadRecursive => 1,
        _ => 2,
    }
}

impl Shared {
    /// Does an acquisition by another thread ever conflict with this one?
    /// If not, running another thread before it or after it makes no difference.
    fn contended(&self, t: usize, r: &Req) -> bool {
        let Some(uses) = &self.uses else { return true };
        if r.kind == Kind::Yield {
            return true;
        }
        let Some(l) = self.locks.iter().position(|a| *a == r.lock) else { return true };
        let m = mode(r.kind);
        (0..self.th.len()).any(|u| u != t && (uses[u][l] & 2 != 0 || m == 2 && uses[u][l] != 0))
    }
    fn note_use(&mut self, t: usize, r: &Req) {
        if r.kind != Kind::Yield {
            if let Some(l) = self.locks.iter().position(|a| *a == r.lock) {
                self.seen[t][l] |= mode(r.kind);
            }
        }
    }
}

/// One branching point of an execution.
#[derive(Clone, Copy)]
pub struct Choice {
    pub taken: u8,
    pub of: u8,
}

/// Run `bodies` as threads, following `prefix` and then always the first option; every branching
/// point is appended to `log`.
pub fn run(bodies: Vec<Box<dyn FnOnce()>>, bound: u32, prefix: &[u8], log: &mut Vec<Choice>, note: &mut dyn FnMut(u8)) -> End {
    let n = bodies.len();
    assert!(n <= MAXT);
    {
        let s = sh();
        s.th.clear();
        s.clock = 0;
        s.aborting = false;
    }
    for (i, body) in bodies.into_iter().enumerate() {
        let stack = sh().stacks.pop().unwrap_or_else(|| DefaultStack::new(256 * 1024).expect("stack"));
        let co = Coroutine::with_stack(stack, move |y: &Yielder<(), Req>, ()| {
            sh().th[i].yielder = y;
            body();
        });
        sh().th.push(Th {
            co: Some(co),
            yielder: std::ptr::null(),
            pending: Some(Req { lock: 0, state: std::ptr::null(), kind: Kind::Yield }),
            free: true,
            run: 0,
        });
    }
    ctl().hook = Some(hook);
    let mut cur: usize = usize::MAX;
    let mut left = bound;
    let mut points = 0u32;
    let end = loop {
        let s = sh();
        let mut opts = [0usize; MAXT];
        let mut k = 0;
        let mut waiting = 0u8;
        let cur_ok = cur < n && s.th[cur].pending.as_ref().is_some_and(|r| r.grantable());
        if cur_ok {
            opts[0] = cur;
            k = 1;
        }
        for i in 0..n {
            if let Some(r) = &s.th[i].pending {
                waiting |= 1 << i;
                if i != cur && r.grantable() {
                    opts[k] = i;
                    k += 1;
                }
            }
        }
        if k == 0 {
            break if waiting == 0 { End::Done } else { End::Deadlock(waiting) };
        }
        points += 1;
        if points > 3000 {
            break End::Long;
        }
        let mut forced = false;
        let mut pick = 0;
        if k > 1 {
            let free = !cur_ok || s.th[cur].free;
            if cur_ok && s.th[cur].run > 400 {
                // spinning: let the others go on
                forced = true;
                pick = 1;
            } else if !free && left == 0 {
                // no preemption left
            } else if !free && !s.contended(cur, s.th[cur].pending.as_ref().unwrap()) {
                // commutes with everything the others do
                log.push(Choice { taken: 0, of: 1 });
                note(0);
            } else {
                let at = log.len();
                pick = prefix.get(at).map(|c| (*c as usize).min(k - 1)).unwrap_or(0);
                log.push(Choice { taken: pick as u8, of: k as u8 });
                note(pick as u8);
                if pick != 0 && !free {
                    left -= 1;
                }
            }
        }
        let _ = forced;
        let t = opts[pick];
        if t != cur && cur < n {
            s.th[cur].run = 0;
        }
        s.th[t].run += 1;
        cur = t;
        s.cur = t;
        s.th[t].pending = None;
        ctl().thread = t;
        let mut co = s.th[t].co.take().unwrap();
        let r = co.resume(());
        let s = sh();
        match r {
            CoroutineResult::Yield(req) => {
                s.note_use(t, &req);
                s.th[t].pending = Some(req);
                s.th[t].co = Some(co);
            }
            CoroutineResult::Return(()) => {
                s.stacks.push(co.into_stack());
            }
        }
    };
    ctl().hook = None;
    if end != End::Done {
        let s = sh();
        s.aborting = true;
        for t in 0..n {
            if let Some(mut co) = sh().th[t].co.take() {
                sh().cur = t;
                ctl().thread = t;
                co.force_unwind();
                sh().stacks.push(co.into_stack());
            }
        }
        sh().aborting = false;
    }
    end
}

/// The next prefix in depth-first order after an execution with these branching points.
pub fn next(log: &[Choice]) -> Option<Vec<u8>> {
    let i = log.iter().rposition(|c| c.taken + 1 < c.of)?;
    let mut v: Vec<u8> = log[..i].iter().map(|c| c.taken).collect();
    v.push(log[i].taken + 1);
    Some(v)
}
