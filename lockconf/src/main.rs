//! Compares the stand-in lock of ../shim with the real parking_lot, exhaustively within bounds.
//!
//! Breadth-first over the reachable states of one reader-writer lock shared by three agents (who holds what,
//! who is blocked in which call and in which order they came). From every state every call of every agent that
//! is not blocked is executed twice: with the real lock on real threads, waiting until nothing moves any more, and with the
//! stand-in, where every order of granting is followed. What the real lock did (results, who got on, who is
//! blocked) must be one of the outcomes of the stand-in. As outcomes of the stand-in are those in which nobody
//! can be granted any more, this says in particular: blocked there exactly if blocked here.

use corosensei::stack::DefaultStack;
use corosensei::{Coroutine, CoroutineResult, Yielder};
use lock_api::*;
use std::cell::Cell;
use std::collections::{BTreeSet, HashMap, HashSet, VecDeque};
use std::sync::atomic::{AtomicU64, AtomicU8, Ordering::SeqCst};
use std::sync::{mpsc, Arc, Mutex as StdMutex};
use std::time::{Duration, Instant};

const AGENTS: usize = 3;
const MAX_HELD: usize = 2;

#[derive(Clone, Copy, PartialEq, Eq, Hash, PartialOrd, Ord, Debug)]
enum Op {
    Read,
    TryRead,
    Rec,
    TryRec,
    Write,
    TryWrite,
    Upg,
    TryUpg,
    // on the newest thing held
    Release,
    Downgrade,
    DowngradeToUpg,
    Upgrade,
    TryUpgrade,
    DowngradeUpg,
}
use Op::*;

#[derive(Clone, Copy, PartialEq, Eq, Hash, PartialOrd, Ord, Debug)]
enum H {
    R,
    W,
    U,
}

trait Raw:
    lock_api::RawRwLock
    + RawRwLockDowngrade
    + RawRwLockRecursive
    + RawRwLockUpgrade
    + RawRwLockUpgradeDowngrade
{
}
impl Raw for real::RawRwLock {}
impl Raw for shim::RawRwLock {}

/// Runs one call; what is held afterwards and what it returned.
fn perform<L: Raw>(l: &L, op: Op, held: &mut Vec<H>) -> bool {
    let top = held.last().copied();
    unsafe {
        match op {
            Read => (l.lock_shared(), held.push(H::R)).0 == (),
            Rec => (l.lock_shared_recursive(), held.push(H::R)).0 == (),
            Write => (l.lock_exclusive(), held.push(H::W)).0 == (),
            Upg => (l.lock_upgradable(), held.push(H::U)).0 == (),
            TryRead => take(l.try_lock_shared(), H::R, held),
            TryRec => take(l.try_lock_shared_recursive(), H::R, held),
            TryWrite => take(l.try_lock_exclusive(), H::W, held),
            TryUpg => take(l.try_lock_upgradable(), H::U, held),
            Release => {
                match top.unwrap() {
                    H::R => l.unlock_shared(),
                    H::W => l.unlock_exclusive(),
                    H::U => l.unlock_upgradable(),
                }
                held.pop();
                true
            }
            Downgrade => {
                l.downgrade();
                *held.last_mut().unwrap() = H::R;
                true
            }
            DowngradeToUpg => {
                l.downgrade_to_upgradable();
                *held.last_mut().unwrap() = H::U;
                true
            }
            Upgrade => {
                l.upgrade();
                *held.last_mut().unwrap() = H::W;
                true
            }
            TryUpgrade => {
                let ok = l.try_upgrade();
                if ok {
                    *held.last_mut().unwrap() = H::W;
                }
                ok
            }
            DowngradeUpg => {
                l.downgrade_upgradable();
                *held.last_mut().unwrap() = H::R;
                true
            }
        }
    }
}

fn take(ok: bool, h: H, held: &mut Vec<H>) -> bool {
    if ok {
        held.push(h);
    }
    ok
}

/// Calls an agent may make when it holds this.
fn ops(held: &[H]) -> Vec<Op> {
    let mut v = Vec::new();
    if held.len() < MAX_HELD {
        v.extend([Read, TryRead, Rec, TryRec, Write, TryWrite, Upg, TryUpg]);
    }
    match held.last() {
        None => {}
        Some(H::R) => v.push(Release),
        Some(H::W) => v.extend([Release, Downgrade, DowngradeToUpg]),
        Some(H::U) => v.extend([Release, Upgrade, TryUpgrade, DowngradeUpg]),
    }
    v
}

/// What can be seen of an agent: what it holds, and the call it is blocked in.
type Agent = (Vec<H>, Option<Op>);
type Seen = Vec<Agent>;
type Cmd = (usize, Op);

// ---------------------------------------------------------------- the real lock

struct RealAgent {
    tx: mpsc::Sender<Op>,
    /// finished commands
    done: Arc<AtomicU64>,
    last: Arc<AtomicU8>,
    held: Arc<StdMutex<Vec<H>>>,
    doomed: Arc<AtomicU8>,
    sent: u64,
    op: Option<Op>,
}

struct RealRun {
    agents: Vec<RealAgent>,
    lock: Arc<real::RawRwLock>,
}

impl RealRun {
    fn new() -> RealRun {
        let lock: Arc<real::RawRwLock> = Arc::new(<real::RawRwLock as lock_api::RawRwLock>::INIT);
        let agents = (0..AGENTS)
            .map(|_| {
                let (tx, rx) = mpsc::channel::<Op>();
                let done = Arc::new(AtomicU64::new(0));
                let last = Arc::new(AtomicU8::new(0));
                let held = Arc::new(StdMutex::new(Vec::new()));
                let doomed = Arc::new(AtomicU8::new(0));
                let (l, d, la, h) = (lock.clone(), done.clone(), last.clone(), held.clone());
                let dm = doomed.clone();
                std::thread::Builder::new()
                    .stack_size(64 << 10)
                    .spawn(move || {
                        let mut mine = Vec::new();
                        while let Ok(op) = rx.recv() {
                            let r = perform(&*l, op, &mut mine);
                            if dm.load(SeqCst) == 1 {
                                // the rest was released for us
                                perform(&*l, Release, &mut mine);
                                mine.clear();
                            }
                            *h.lock().unwrap() = mine.clone();
                            la.store(r as u8, SeqCst);
                            d.fetch_add(1, SeqCst);
                        }
                    })
                    .unwrap();
                RealAgent { tx, done, last, held, doomed, sent: 0, op: None }
            })
            .collect();
        RealRun { agents, lock }
    }
    fn snapshot(&self) -> Vec<u64> {
        self.agents.iter().map(|a| a.done.load(SeqCst)).collect()
    }
    /// Sends a command and waits until nothing moves for a while.
    fn step(&mut self, c: Cmd, settle: Duration) -> (Option<bool>, Seen) {
        let a = &mut self.agents[c.0];
        a.sent += 1;
        a.op = Some(c.1);
        a.tx.send(c.1).unwrap();
        let mut quiet = Instant::now();
        let mut last = self.snapshot();
        loop {
            std::thread::sleep(Duration::from_millis(1));
            let now = self.snapshot();
            let all = self.agents.iter().zip(&now).all(|(a, d)| a.sent == *d);
            if now != last {
                last = now;
                quiet = Instant::now();
            } else if all || quiet.elapsed() > settle {
                break;
            }
        }
        let res = (self.agents[c.0].sent == last[c.0])
            .then(|| self.agents[c.0].last.load(SeqCst) == 1);
        let seen = self
            .agents
            .iter()
            .zip(&last)
            .map(|(a, d)| (a.held.lock().unwrap().clone(), if a.sent == *d { None } else { a.op }))
            .collect();
        (res, seen)
    }
    /// Ends all threads: those that can go release what they hold; what the blocked ones hold is released for them.
    fn finish(mut self) {
        let now = self.snapshot();
        for (a, d) in self.agents.iter_mut().zip(now) {
            if a.sent == d {
                let n = a.held.lock().unwrap().len();
                for _ in 0..n {
                    a.sent += 1;
                    a.tx.send(Release).unwrap();
                }
            } else {
                a.doomed.store(1, SeqCst);
                let mut mine = a.held.lock().unwrap().clone();
                if a.op == Some(Upgrade) {
                    // turned into the writer it waits for
                    mine.pop();
                }
                while !mine.is_empty() {
                    perform(&*self.lock, Release, &mut mine);
                }
            }
        }
    }
}

// ---------------------------------------------------------------- the stand-in

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug, PartialOrd, Ord)]
enum Step {
    Cmd(usize, Op),
    Grant(usize),
}

thread_local! {
    static YIELDER: Cell<*const Yielder<Op, Ev>> = const { Cell::new(std::ptr::null()) };
}

enum Ev {
    /// ready for a command
    Ready(bool, Vec<H>),
    Blocked(shim::mc::Req),
}

fn hook(r: shim::mc::Req) {
    if r.kind == shim::mc::Kind::Yield {
        return;
    }
    let y = YIELDER.with(|c| c.get());
    unsafe { (*y).suspend(Ev::Blocked(r)) };
    YIELDER.with(|c| c.set(y));
}

struct ShimRun {
    // declared first: dropped before the lock
    co: Vec<Coroutine<Op, Ev, (), DefaultStack>>,
    held: Vec<Vec<H>>,
    op: Vec<Option<Op>>,
    req: Vec<Option<shim::mc::Req>>,
    ret: Vec<bool>,
    lock: Box<shim::RawRwLock>,
}

impl ShimRun {
    fn new() -> ShimRun {
        shim::mc::ctl().hook = Some(hook);
        shim::mc::ctl().held.clear();
        let lock: Box<shim::RawRwLock> =
            Box::new(<shim::RawRwLock as lock_api::RawRwLock>::INIT);
        let p = &*lock as *const shim::RawRwLock;
        let co = (0..AGENTS)
            .map(|_| {
                Coroutine::with_stack(
                    DefaultStack::new(64 << 10).unwrap(),
                    move |y: &Yielder<Op, Ev>, first: Op| {
                        let mut held = Vec::new();
                        let mut op = first;
                        loop {
                            YIELDER.with(|c| c.set(y));
                            let r = perform(unsafe { &*p }, op, &mut held);
                            op = y.suspend(Ev::Ready(r, held.clone()));
                        }
                    },
                )
            })
            .collect();
        let n = || vec![None; AGENTS];
        ShimRun {
            co,
            held: vec![Vec::new(); AGENTS],
            op: n(),
            req: (0..AGENTS).map(|_| None).collect(),
            ret: vec![false; AGENTS],
            lock,
        }
    }
    fn step(&mut self, s: Step) {
        let (a, op) = match s {
            Step::Cmd(a, op) => {
                assert!(self.req[a].is_none());
                self.op[a] = Some(op);
                (a, op)
            }
            Step::Grant(a) => (a, Read),
        };
        self.req[a] = None;
        match self.co[a].resume(op) {
            CoroutineResult::Yield(Ev::Ready(r, h)) => {
                self.ret[a] = r;
                self.held[a] = h;
                self.op[a] = None;
            }
            CoroutineResult::Yield(Ev::Blocked(r)) => self.req[a] = Some(r),
            CoroutineResult::Return(()) => unreachable!(),
        }
    }
    fn run(h: &[Step]) -> ShimRun {
        let mut s = ShimRun::new();
        for &x in h {
            s.step(x);
        }
        s
    }
    fn grantable(&self) -> Vec<usize> {
        (0..AGENTS).filter(|&a| self.req[a].is_some_and(|r| r.grantable())).collect()
    }
    fn seen(&self) -> Seen {
        (0..AGENTS).map(|a| (self.held[a].clone(), self.op[a])).collect()
    }
    /// all there is to know about the stand-in's state
    fn full(&self) -> (Seen, Vec<u8>) {
        let kinds = self.req.iter().map(|r| r.map_or(0, |r| 1 + r.kind as u8)).collect();
        (self.seen(), kinds)
    }
    fn end(mut self) {
        for c in &mut self.co {
            // nothing in there owns anything but a small vector
            unsafe { c.force_reset() };
        }
        let misuse = shim::mc::ctl().misuse;
        assert!(misuse.is_none(), "{misuse:?}");
        drop(self.lock);
    }
}

/// Every outcome of a command after a history of the stand-in: (result, what is seen) -> histories.
fn outcomes(
    hist: &[Step],
    c: Cmd,
    count: &mut u64,
) -> HashMap<(Option<bool>, Seen), Vec<Vec<Step>>> {
    let mut out: HashMap<_, Vec<Vec<Step>>> = HashMap::new();
    let mut todo = vec![[hist, &[Step::Cmd(c.0, c.1)]].concat()];
    let mut met = HashSet::new();
    while let Some(h) = todo.pop() {
        let s = ShimRun::run(&h);
        *count += 1;
        let g = s.grantable();
        if met.insert(s.full()) {
            if g.is_empty() {
                let r = s.op[c.0].is_none().then(|| s.ret[c.0]);
                out.entry((r, s.seen())).or_default().push(h.clone());
            }
            for a in g {
                todo.push([&h[..], &[Step::Grant(a)]].concat());
            }
        }
        s.end();
    }
    out
}

// ---------------------------------------------------------------- the search

struct Node {
    path: Vec<Cmd>,
    /// what was seen along the path
    seen: Vec<Seen>,
    /// histories of the stand-in that look the same
    hist: Vec<Vec<Step>>,
    /// order in which the blocked ones came
    queue: Vec<usize>,
}

struct Todo {
    path: Vec<Cmd>,
    seen: Vec<Seen>,
    cmd: Cmd,
}

enum Got {
    Real(Option<bool>, Seen),
    /// the real lock chose another order on the way
    Other,
}

fn real_run(t: &Todo) -> Got {
    for attempt in 0..6 {
        let settle = Duration::from_millis(12 << attempt);
        let mut r = RealRun::new();
        let ok = t.path.iter().zip(&t.seen).all(|(c, s)| r.step(*c, settle).1 == *s);
        if ok {
            let (res, seen) = r.step(t.cmd, settle);
            r.finish();
            return Got::Real(res, seen);
        }
        r.finish();
    }
    Got::Other
}

/// parking_lot leaves a recursive reader parked when a writer is downgraded and another writer queues before it,
/// although it would let a recursive reader that comes later in. The stand-in lets both in. (xecs uses no recursive reads.)
fn known_difference(op: Op, res: Option<bool>, seen: &Seen, all: &[(Option<bool>, Seen)]) -> bool {
    matches!(op, Downgrade | DowngradeToUpg)
        && all.iter().any(|(r, s)| {
            *r == res
                && s.iter().zip(seen).all(|(x, y)| x == y || (y.1 == Some(Rec) && x.1.is_none()))
        })
}

fn main() {
    let depth: usize = std::env::args().nth(1).map_or(6, |s| s.parse().unwrap());
    let jobs: usize = std::env::args().nth(2).map_or(64, |s| s.parse().unwrap());
    let start: Seen = vec![(Vec::new(), None); AGENTS];
    let mut level =
        vec![Node { path: vec![], seen: vec![], hist: vec![vec![]], queue: vec![] }];
    let mut known: HashSet<(Seen, Vec<usize>)> = HashSet::from([(start.clone(), vec![])]);
    let (mut transitions, mut shim_runs, mut other, mut bad, mut differ) = (0u64, 0u64, 0u64, 0u64, 0u64);
    let mut kinds: BTreeSet<Op> = BTreeSet::new();
    for d in 1..=depth {
        // every command of every agent that is not blocked; agents that hold nothing are interchangeable
        let mut todo = VecDeque::new();
        for (n, node) in level.iter().enumerate() {
            let seen = node.seen.last().unwrap_or(&start);
            let mut fresh = false;
            for a in 0..AGENTS {
                if seen[a].1.is_some() {
                    continue;
                }
                let untouched = !node.path.iter().any(|c| c.0 == a);
                if untouched && std::mem::replace(&mut fresh, true) {
                    continue;
                }
                for op in ops(&seen[a].0) {
                    todo.push_back((n, Todo { path: node.path.clone(), seen: node.seen.clone(), cmd: (a, op) }));
                }
            }
        }
        let todo = StdMutex::new(todo);
        let results = StdMutex::new(Vec::new());
        std::thread::scope(|s| {
            for _ in 0..jobs {
                s.spawn(|| loop {
                    let Some((n, t)) = todo.lock().unwrap().pop_front() else { break };
                    let g = real_run(&t);
                    results.lock().unwrap().push((n, t, g));
                });
            }
        });
        let mut next = Vec::new();
        let mut results = results.into_inner().unwrap();
        results.sort_by_key(|r| (r.0, r.1.cmd));
        for (n, t, g) in results {
            let node = &level[n];
            let Got::Real(res, mut seen) = g else {
                other += 1;
                continue;
            };
            transitions += 1;
            kinds.insert(t.cmd.1);
            let judge = |res: Option<bool>, seen: &Seen, runs: &mut u64| {
                let mut hist = Vec::new();
                let mut met = HashSet::new();
                let mut all = Vec::new();
                for h in &node.hist {
                    for (k, hs) in outcomes(h, t.cmd, runs) {
                        if k == (res, seen.clone()) {
                            for h in hs {
                                let s = ShimRun::run(&h);
                                if met.insert(s.full()) {
                                    hist.push(h);
                                }
                                s.end();
                            }
                        } else {
                            all.push(k);
                        }
                    }
                }
                (hist, all)
            };
            let (mut hist, mut all) = judge(res, &seen, &mut shim_runs);
            if hist.is_empty() {
                // a machine under load may be slow to wake somebody: look again, with more time
                std::thread::sleep(Duration::from_millis(50));
                if let Got::Real(r2, s2) = real_run(&t) {
                    (hist, all) = judge(r2, &s2, &mut shim_runs);
                    seen = s2;
                }
            }
            if hist.is_empty() && known_difference(t.cmd.1, res, &seen, &all) {
                differ += 1;
                continue;
            }
            if hist.is_empty() {
                bad += 1;
                println!("MISMATCH after {:?}: {:?}\n  real     {:?} {:?}\n  stand-in {:?}", t.path, t.cmd, res, seen, all);
                continue;
            }
            let mut queue = node.queue.clone();
            if seen[t.cmd.0].1.is_some() {
                queue.push(t.cmd.0);
            }
            queue.retain(|&a| seen[a].1.is_some());
            if known.insert((seen.clone(), queue.clone())) {
                let mut path = t.path.clone();
                path.push(t.cmd);
                let mut seens = t.seen.clone();
                seens.push(seen);
                next.push(Node { path, seen: seens, hist, queue });
            }
        }
        println!(
            "depth {d}: {} states, {transitions} transitions, {shim_runs} runs of the stand-in, {other} not reproduced, {differ} known differences, {bad} mismatches",
            known.len()
        );
        level = next;
        if level.is_empty() {
            println!("fixpoint");
            break;
        }
    }
    println!("calls compared: {kinds:?}");
    std::process::exit((bad > 0) as i32);
}
