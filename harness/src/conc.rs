//! Concurrent scenarios: what the threads do, what is recorded, and what every execution must satisfy.

use crate::bfs::{Stats, Viol};
use crate::exec::{self, guarded, nz, op, panic_text, Op, Rep};
use crate::model::*;
use crate::obs;
use crate::sched::{self, me, op_start, pause, tick, Choice, End};
use crate::shapes::*;
use crate::tok::*;
use crate::trace::Trace;
use crate::{with_res, with_type};
use parking_lot::mc::ctl;
use std::cell::UnsafeCell;
use std::collections::{BTreeSet, HashSet};
use std::fmt;
use std::panic::{catch_unwind, resume_unwind, AssertUnwindSafe};
use xecs::{Entities, Entity, World};

/// A call made by a thread. Ids first, then types.
#[derive(Clone, Copy, PartialEq, Eq, Debug, Hash, PartialOrd, Ord)]
pub enum C {
    Create,
    CreateN(u8),
    Attach(u8, u8),
    AttachH(u8, u8),
    Detach(u8, u8),
    DetachH(u8, u8),
    Remove(u8),
    RemoveH(u8),
    Exist(u8),
    /// the world formatted
    Fmt,
    Lookup(u8),
    Read(u8, u8),
    ReadH(u8, u8),
    Incr(u8, u8),
    IncrH(u8, u8),
    StoRead(u8),
    StoIncr(u8),
    /// drained with ids / plainly / asked by id / incremented
    Query(u16),
    Plain(u16),
    ById(u16, u8),
    QIncr(u16),
    /// a query that uses one type twice, once of them exclusively
    Twin(u8),
    ResRead(u8),
    ResIncr(u8),
    // an entity handle held over several calls
    HNew,
    HGet(u8),
    HAttach(u8),
    HDetach(u8),
    HRead(u8),
    HIncr(u8),
    HDrop,
    HRemove,
    BNew(u8),
    BAttach(u8),
    BDrop,
    /// hold an access across a pause
    Hold(Acc),
    /// hold an access and take another one meanwhile
    Hold2(Acc, Acc),
    /// hold an access and make a change meanwhile
    HoldMut(Acc, Mut),
}

/// A way to use components or resources.
#[derive(Clone, Copy, PartialEq, Eq, Debug, Hash, PartialOrd, Ord)]
pub enum Acc {
    CompRead(u8, u8),
    CompWrite(u8, u8),
    HandleRead(u8, u8),
    HandleWrite(u8, u8),
    StoRead(u8),
    StoWrite(u8),
    Query(u16),
    /// a query stepped through to its end and still there
    Drained(u16),
    ResRead(u8),
    ResWrite(u8),
    /// an item kept after its query is gone
    Kept(u8),
    /// an item asked for by id / got by stepping while another one of the same query is in use
    Twice(u8),
}

#[derive(Clone, Copy, PartialEq, Eq, Debug, Hash, PartialOrd, Ord)]
pub enum Mut {
    Attach(u8, u8),
    Detach(u8, u8),
    Remove(u8),
    Bulk(u8),
}

pub const KEPT: [(&str, u16, u16); 6] = [
    ("&A", 1, 0),
    ("&mut A", 0, 1),
    ("(&A,&mut B)", 1, 2),
    ("FullOwning<&A,&mut B>", 1, 2),
    ("PartialOwning<&A,&mut B>", 1, 2),
    ("NonOwning<&A,&mut B>", 1, 2),
];
pub const TWICE: [&str; 3] = ["&mut A asked twice by id", "&mut A stepped and asked by id", "FullOwning<&mut A,&mut B> stepped and asked by id"];

pub const TWIN: [&str; 3] = ["(&A,&mutA)", "(&mutA,&A)", "(&mutA,Without<&mutA>)"];

fn nm(t: u8) -> &'static str {
    TNAMES[t as usize]
}

thread_local! {
    static CAT: &'static Catalogue = Box::leak(Box::new(Catalogue::new()));
}
pub fn cat() -> &'static Catalogue {
    CAT.with(|c| *c)
}
fn sn(s: u16) -> String {
    cat().all[s as usize].name.replace(' ', "")
}

impl fmt::Display for Acc {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        match *self {
            Acc::CompRead(i, t) => write!(f, "read guard of {} of {i}", nm(t)),
            Acc::CompWrite(i, t) => write!(f, "write guard of {} of {i}", nm(t)),
            Acc::HandleRead(i, t) => write!(f, "handle read guard of {} of {i}", nm(t)),
            Acc::HandleWrite(i, t) => write!(f, "handle write guard of {} of {i}", nm(t)),
            Acc::StoRead(t) => write!(f, "components_read({})", nm(t)),
            Acc::StoWrite(t) => write!(f, "components_write({})", nm(t)),
            Acc::Query(s) => write!(f, "query {}", sn(s)),
            Acc::Drained(s) => write!(f, "drained query {}", sn(s)),
            Acc::ResRead(r) => write!(f, "resource_read(R{r})"),
            Acc::ResWrite(r) => write!(f, "resource_write(R{r})"),
            Acc::Kept(k) => write!(f, "item of query {} kept after the query", KEPT[k as usize].0),
            Acc::Twice(k) => write!(f, "query {}", TWICE[k as usize]),
        }
    }
}
impl fmt::Display for Mut {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        match *self {
            Mut::Attach(i, t) => write!(f, "attach({i},{})", nm(t)),
            Mut::Detach(i, t) => write!(f, "detach({i},{})", nm(t)),
            Mut::Remove(i) => write!(f, "remove({i})"),
            Mut::Bulk(t) => write!(f, "create_entities(2).attach({})", nm(t)),
        }
    }
}
impl fmt::Display for C {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        match *self {
            C::Create => write!(f, "create"),
            C::CreateN(n) => write!(f, "create_entities({n})"),
            C::Attach(i, t) => write!(f, "attach({i},{})", nm(t)),
            C::AttachH(i, t) => write!(f, "entity({i}).attach({})", nm(t)),
            C::Detach(i, t) => write!(f, "detach({i},{})", nm(t)),
            C::DetachH(i, t) => write!(f, "entity({i}).detach({})", nm(t)),
            C::Remove(i) => write!(f, "remove({i})"),
            C::RemoveH(i) => write!(f, "entity({i}).manaully_drop"),
            C::Exist(i) => write!(f, "exist({i})"),
            C::Fmt => write!(f, "format!"),
            C::Lookup(i) => write!(f, "entity({i})"),
            C::Read(i, t) => write!(f, "read({i},{})", nm(t)),
            C::ReadH(i, t) => write!(f, "entity({i}).read({})", nm(t)),
            C::Incr(i, t) => write!(f, "incr({i},{})", nm(t)),
            C::IncrH(i, t) => write!(f, "entity({i}).incr({})", nm(t)),
            C::StoRead(t) => write!(f, "components_read({})", nm(t)),
            C::StoIncr(t) => write!(f, "components_write({}) += 1", nm(t)),
            C::Query(s) => write!(f, "query {} with ids", sn(s)),
            C::Plain(s) => write!(f, "query {}", sn(s)),
            C::ById(s, i) => write!(f, "query {} of {i}", sn(s)),
            C::QIncr(s) => write!(f, "query {} += 1", sn(s)),
            C::Twin(k) => write!(f, "query {}", TWIN[k as usize]),
            C::ResRead(r) => write!(f, "resource_read(R{r})"),
            C::ResIncr(r) => write!(f, "resource_write(R{r}) += 1"),
            C::HNew => write!(f, "h=create"),
            C::HGet(i) => write!(f, "h=entity({i})"),
            C::HAttach(t) => write!(f, "h.attach({})", nm(t)),
            C::HDetach(t) => write!(f, "h.detach({})", nm(t)),
            C::HRead(t) => write!(f, "h.read({})", nm(t)),
            C::HIncr(t) => write!(f, "h.incr({})", nm(t)),
            C::HDrop => write!(f, "h.into_id"),
            C::HRemove => write!(f, "h.manaully_drop"),
            C::BNew(n) => write!(f, "b=create_entities({n})"),
            C::BAttach(t) => write!(f, "b.attach({})", nm(t)),
            C::BDrop => write!(f, "b.into_ids"),
            C::Hold(a) => write!(f, "hold {a}"),
            C::Hold2(a, b) => write!(f, "hold {a} and take {b}"),
            C::HoldMut(a, b) => write!(f, "hold {a} and {b}"),
        }
    }
}

#[derive(Clone, PartialEq, Debug, Hash)]
pub enum R {
    Pending,
    Refused,
    Unit,
    Ids(usize, usize),
    Bool(bool),
    Val(Option<Val>),
    /// (id or 0, parts)
    Items(Vec<(usize, Vec<(u8, u32, u32)>)>),
}

#[derive(Clone, Debug)]
pub struct Rec {
    pub op: C,
    pub thread: usize,
    pub call: u32,
    pub ret: u32,
    pub res: R,
    pub given: Vec<u32>,
    pub panic: Option<String>,
    /// record this one must follow although their times overlap
    pub after: Option<usize>,
    /// the handle the call works on: record of HNew/HGet/BNew
    pub handle: Option<usize>,
}

/// Access used by somebody now.
#[derive(Clone, Copy, Debug)]
struct Region {
    thread: usize,
    start: u32,
    shared: u16,
    excl: u16,
    acc: C,
}
fn conflict(a: (u16, u16), b: (u16, u16)) -> bool {
    a.1 & (b.0 | b.1) != 0 || b.1 & a.0 != 0
}

#[derive(Default)]
pub struct X {
    pub recs: Vec<Rec>,
    live: Vec<Region>,
    /// conflicting accesses at once, unstable reads
    pub access: Option<String>,
    /// a lock left behind
    pub leak: Option<String>,
    /// two accesses of different threads were in use at once
    pub overlap: bool,
    /// an inner access was obtained
    pub inner: bool,
}
struct G(UnsafeCell<Option<X>>);
unsafe impl Sync for G {}
static XC: G = G(UnsafeCell::new(None));
#[allow(clippy::mut_from_ref)]
pub fn x() -> &'static mut X {
    unsafe { (*XC.0.get()).get_or_insert_with(X::default) }
}

impl X {
    fn bad(&mut self, s: String) {
        if self.access.is_none() {
            self.access = Some(s)
        }
    }
    fn open(&mut self, acc: C, cells: (u16, u16)) -> usize {
        let t = me();
        for r in &self.live {
            if conflict((r.shared, r.excl), cells) {
                let who = if r.thread == t { "the same thread".to_string() } else { format!("thread {}", r.thread) };
                let m = format!("thread {t} obtained access through [{acc}] while {who} is using [{}]", r.acc);
                if self.access.is_none() {
                    self.access = Some(m);
                }
            } else if r.thread != t {
                self.overlap = true;
            }
        }
        self.live.push(Region { thread: t, start: tick(), shared: cells.0, excl: cells.1, acc });
        self.live.len() - 1
    }
    fn close(&mut self, acc: C) {
        let t = me();
        if let Some(p) = self.live.iter().rposition(|r| r.thread == t && r.acc == acc) {
            self.live.remove(p);
        }
    }
    /// A change of these cells, made between `call` and now.
    fn changed(&mut self, op: &dyn fmt::Display, call: u32, cells: u16) {
        let t = me();
        for r in &self.live {
            if r.start < call && (r.shared | r.excl) & cells != 0 {
                let who = if r.thread == t { "the same thread".to_string() } else { format!("thread {}", r.thread) };
                let m = format!("thread {t} completed [{op}] while {who} is using [{}]", r.acc);
                if self.access.is_none() {
                    self.access = Some(m);
                }
            }
        }
    }
}

/// Closes a region when a call ends early.
struct Closer(C);
impl Drop for Closer {
    fn drop(&mut self) {
        x().close(self.0)
    }
}
fn region(acc: C, cells: (u16, u16)) -> Closer {
    x().open(acc, cells);
    Closer(acc)
}

pub fn shape_cells(s: &QShape) -> (u16, u16) {
    let mut v = vec![];
    s.expr.accesses(&mut v);
    let mut leaf = vec![];
    s.expr.leaves(&mut leaf);
    let (mut sh, mut ex) = (0, 0);
    for (t, m) in v {
        // an excluded type is only looked at
        let m = m && leaf.contains(&(t, true));
        if m {
            ex |= 1 << t
        } else {
            sh |= 1 << t
        }
    }
    (sh, ex)
}

impl Acc {
    /// (shared, exclusive) cells
    pub fn cells(&self) -> (u16, u16) {
        match *self {
            Acc::CompRead(_, t) | Acc::HandleRead(_, t) | Acc::StoRead(t) => (1 << t, 0),
            Acc::CompWrite(_, t) | Acc::HandleWrite(_, t) | Acc::StoWrite(t) => (0, 1 << t),
            Acc::Query(s) | Acc::Drained(s) => shape_cells(&cat().all[s as usize]),
            Acc::ResRead(r) => (0x100 << r, 0),
            Acc::ResWrite(r) => (0, 0x100 << r),
            Acc::Kept(k) => (KEPT[k as usize].1, KEPT[k as usize].2),
            Acc::Twice(2) => (0, 3),
            Acc::Twice(_) => (0, 1),
        }
    }
    pub fn conflicts(&self, o: &Acc) -> bool {
        conflict(self.cells(), o.cells())
    }
}
impl Mut {
    pub fn cells(&self) -> u16 {
        match *self {
            Mut::Attach(_, t) | Mut::Detach(_, t) | Mut::Bulk(t) => 1 << t,
            Mut::Remove(_) => 0,
        }
    }
}

struct Local<'w> {
    ent: Option<Entity<'w>>,
    ents: Option<Entities<'w>>,
    n: usize,
    /// record of the handle
    rec: usize,
    /// id of the handle if it was looked up
    id: Option<usize>,
}

fn tv<T: Comp>(c: &T) -> Val {
    (c.tok(), c.val())
}
fn put<T: Comp>(c: &mut T, v: u32) {
    let p = c.val_ptr();
    if !p.is_null() {
        unsafe { *p = v }
    }
}
fn bump<T: Comp>(c: &mut T) -> Val {
    let v = tv(c);
    pause();
    put(c, v.1 + 1);
    v
}
fn parts(p: &Parts) -> Vec<(u8, u32, u32)> {
    p.get().iter().map(|p| (p.ty, p.tok, p.val)).collect()
}

fn give<T: Comp>(i: usize) -> T {
    let c = T::make();
    x().recs[i].given.push(c.tok());
    c
}

/// Acquire an access, run `inner` with it (its argument reads through the access, or writes a value
/// through it first), release it. False if there is nothing to access.
fn with_acc(w: &World, acc: Acc, inner: &mut dyn FnMut(&mut dyn FnMut(Option<u32>) -> Vec<Val>)) -> bool {
    match acc {
        Acc::CompRead(i, t) => with_type!(t, T => match w.entity_component_read::<T>(nz(i as usize)) {
            Some(g) => { inner(&mut |_| vec![tv(&*g)]); true }
            None => false,
        }),
        Acc::CompWrite(i, t) => with_type!(t, T => match w.entity_component_write::<T>(nz(i as usize)) {
            Some(mut g) => { inner(&mut |v| { if let Some(v) = v { put(&mut *g, v) } vec![tv(&*g)] }); true }
            None => false,
        }),
        Acc::HandleRead(i, t) => match w.entity(nz(i as usize)) {
            Some(e) => with_type!(t, T => { let r = match e.component_read::<T>() {
                Some(g) => { inner(&mut |_| vec![tv(&*g)]); true }
                None => false,
            }; r }),
            None => false,
        },
        Acc::HandleWrite(i, t) => match w.entity(nz(i as usize)) {
            Some(e) => with_type!(t, T => { let r = match e.component_write::<T>() {
                Some(mut g) => { inner(&mut |v| { if let Some(v) = v { put(&mut *g, v) } vec![tv(&*g)] }); true }
                None => false,
            }; r }),
            None => false,
        },
        Acc::StoRead(t) => with_type!(t, T => match w.components_read::<T>() {
            Some(g) => { inner(&mut |_| g.data().iter().map(tv).collect()); true }
            None => false,
        }),
        Acc::StoWrite(t) => with_type!(t, T => match w.components_write::<T>() {
            Some(mut g) => { inner(&mut |v| {
                if let (Some(v), Some(c)) = (v, g.data_mut().first_mut()) { put(c, v) }
                g.data().iter().map(tv).collect()
            }); true }
            None => false,
        }),
        Acc::Query(s) | Acc::Drained(s) => {
            let all = matches!(acc, Acc::Drained(_));
            let s = &cat().all[s as usize];
            let mut it = (s.run)(w);
            let mut ids = vec![];
            while let Some((id, _)) = it.next_with_id() {
                ids.push(id);
                if !all {
                    break;
                }
            }
            inner(&mut |v| {
                let mut out = vec![];
                for &id in &ids {
                    if let Some(p) = it.from_id(id) {
                        for q in p.get() {
                            if let (Some(v), false) = (v, q.ptr.is_null()) {
                                unsafe { *q.ptr = v };
                                out.push((q.tok, v));
                            } else {
                                out.push((q.tok, q.val));
                            }
                        }
                    }
                }
                out
            });
            true
        }
        Acc::ResRead(r) => with_res!(r, R => match w.resource_read::<R>() {
            Some(g) => { inner(&mut |_| vec![(g.tok(), g.val())]); true }
            None => false,
        }),
        Acc::ResWrite(r) => with_res!(r, R => match w.resource_write::<R>() {
            Some(mut g) => { inner(&mut |v| { if let Some(v) = v { g.set(v) } vec![(g.tok(), g.val())] }); true }
            None => false,
        }),
        Acc::Kept(k) => {
            use xecs::group::*;
            // the item stays usable for as long as the world is borrowed: nothing is read through it
            // here, only what others can do meanwhile is of interest
            macro_rules! kept {
                ($q:ty) => {{
                    let mut it = w.query::<$q>();
                    let item = it.next();
                    drop(it);
                    if item.is_some() {
                        inner(&mut |_| vec![]);
                    }
                    item.is_some()
                }};
            }
            match k {
                0 => kept!(&A),
                1 => kept!(&mut A),
                2 => kept!((&A, &mut B)),
                3 => kept!(FullOwning<&A, &mut B>),
                4 => kept!(PartialOwning<&A, &mut B>),
                _ => kept!(NonOwning<&A, &mut B>),
            }
        }
        Acc::Twice(k) => {
            use xecs::group::*;
            let mut both = |a: *const u8, b: *const u8| {
                inner(&mut |_| vec![]);
                if a == b && !a.is_null() {
                    x().bad(format!("[query {}] gives out two exclusive references to one component", TWICE[k as usize]));
                }
            };
            fn p<T>(o: &mut Option<&mut T>) -> *const u8 {
                o.as_mut().map(|r| &mut **r as *mut T as *const u8).unwrap_or(std::ptr::null())
            }
            match k {
                0 => {
                    let mut it = w.query::<&mut A>();
                    let mut a = it.from_id(nz(1));
                    let mut b = it.from_id(nz(1));
                    both(p(&mut a), p(&mut b));
                }
                1 => {
                    let mut it = w.query::<&mut A>();
                    let (id, a) = it.next_with_id().unzip();
                    let mut a = a;
                    let mut b = id.and_then(|i| it.from_id(i));
                    both(p(&mut a), p(&mut b));
                }
                _ => {
                    let mut it = w.query::<FullOwning<&mut A, &mut B>>();
                    let (id, a) = it.next_with_id().unzip();
                    let mut a = a.map(|a| a.0);
                    let mut b = id.and_then(|i| it.from_id(i)).map(|b| b.0);
                    both(p(&mut a), p(&mut b));
                }
            }
            true
        }
    }
}

/// Hold an access: declare it, check that what it reads stays, and let the others run.
fn hold(w: &World, me_op: C, acc: Acc, stamp: u32, inside: &mut dyn FnMut()) -> bool {
    let cells = acc.cells();
    with_acc(w, acc, &mut |probe| {
        let reg = region(me_op, cells);
        let mut a = probe(None);
        if cells.1 != 0 && cells.0 == 0 {
            a = probe(Some(stamp));
        }
        inside();
        let b = probe(None);
        if a != b {
            x().bad(format!("what thread {} sees through [{acc}] changes from {a:?} to {b:?} while it is held", me()));
        }
        drop(reg);
    })
}

fn do_mut(w: &World, m: Mut, i: usize) {
    let call = tick();
    let c = match m {
        Mut::Attach(e, t) => {
            with_type!(t, T => { let c: T = give(i); w.attach_component::<T>(nz(e as usize), c) });
            m.cells()
        }
        Mut::Detach(e, t) => {
            if with_type!(t, T => w.detach_component::<T>(nz(e as usize)).is_some()) { m.cells() } else { 0 }
        }
        Mut::Remove(e) => {
            w.remove_entity(nz(e as usize));
            // the removed entity has A and B in the scenarios that use this
            3
        }
        Mut::Bulk(t) => {
            with_type!(t, T => { let v: Vec<T> = (0..2).map(|_| give(i)).collect(); w.create_entities(2).attach::<T, _>(v); });
            m.cells()
        }
    };
    x().changed(&m, call, c);
}

fn perform<'w>(w: &'w World, c: C, i: usize, loc: &mut Local<'w>) -> R {
    let id = |e: u8| nz(e as usize);
    match c {
        C::Create => {
            let e = w.create_entity().into_id().get();
            R::Ids(e, e + 1)
        }
        C::CreateN(n) => {
            let r = w.create_entities(n as usize).into_ids();
            R::Ids(r.start.get(), r.end.get())
        }
        C::Attach(e, t) => {
            with_type!(t, T => { let c: T = give(i); w.attach_component::<T>(id(e), c) });
            R::Unit
        }
        C::AttachH(e, t) => match w.entity(id(e)) {
            Some(h) => {
                with_type!(t, T => { let c: T = give(i); h.attach::<T>(c); });
                R::Unit
            }
            None => R::Refused,
        },
        C::Detach(e, t) => R::Val(with_type!(t, T => w.detach_component::<T>(id(e)).as_ref().map(tv))),
        C::DetachH(e, t) => match w.entity(id(e)) {
            Some(h) => R::Val(with_type!(t, T => h.detach::<T>().as_ref().map(tv))),
            None => R::Refused,
        },
        C::Remove(e) => {
            w.remove_entity(id(e));
            R::Unit
        }
        C::RemoveH(e) => match w.entity(id(e)) {
            Some(h) => {
                h.manaully_drop();
                R::Unit
            }
            None => R::Refused,
        },
        C::Exist(e) => R::Bool(w.exist(id(e))),
        C::Fmt => R::Bool(!format!("{w:?}").is_empty()),
        C::Lookup(e) => R::Bool(w.entity(id(e)).is_some()),
        C::Read(e, t) => R::Val(with_type!(t, T => w.entity_component_read::<T>(id(e)).map(|g| {
            let r = region(c, (1 << t, 0));
            let v = tv(&*g);
            drop(r);
            v
        }))),
        C::ReadH(e, t) => R::Val(match w.entity(id(e)) {
            Some(h) => with_type!(t, T => { let r = h.component_read::<T>().map(|g| tv(&*g)); r }),
            None => None,
        }),
        C::Incr(e, t) => R::Val(with_type!(t, T => w.entity_component_write::<T>(id(e)).map(|mut g| {
            let r = region(c, (0, 1 << t));
            let v = bump(&mut *g);
            drop(r);
            v
        }))),
        C::IncrH(e, t) => R::Val(match w.entity(id(e)) {
            Some(h) => with_type!(t, T => { let r = h.component_write::<T>().map(|mut g| bump(&mut *g)); r }),
            None => None,
        }),
        C::StoRead(t) => with_type!(t, T => match w.components_read::<T>() {
            None => R::Refused,
            Some(g) => {
                let r = region(c, (1 << t, 0));
                let mut v = vec![];
                for (k, d) in g.data().iter().enumerate() {
                    let d = tv(d);
                    v.push((0, vec![(t, d.0, d.1)]));
                    if k == 0 { pause() }
                }
                drop(r);
                v.sort();
                R::Items(v)
            }
        }),
        C::StoIncr(t) => with_type!(t, T => match w.components_write::<T>() {
            None => R::Refused,
            Some(mut g) => {
                let r = region(c, (0, 1 << t));
                let mut v = vec![];
                for (k, d) in g.data_mut().iter_mut().enumerate() {
                    let o = tv(d);
                    if k == 0 { pause() }
                    put(d, o.1 + 1);
                    v.push((0, vec![(t, o.0, o.1)]));
                }
                drop(r);
                v.sort();
                R::Items(v)
            }
        }),
        C::Twin(k) => {
            let n = match k {
                0 => w.query::<(&crate::tok::A, &mut crate::tok::A)>().count(),
                1 => w.query::<(&mut crate::tok::A, &crate::tok::A)>().count(),
                _ => w.query::<(&mut crate::tok::A, xecs::query::Without<&mut crate::tok::A>)>().count(),
            };
            R::Ids(n, n)
        }
        C::Query(s) | C::Plain(s) | C::QIncr(s) => {
            let s = &cat().all[s as usize];
            let mut it = (s.run)(w);
            let r = region(c, shape_cells(s));
            let mut v = vec![];
            loop {
                let n = match c {
                    C::Plain(_) => it.next().map(|p| (0, p)),
                    _ => it.next_with_id(),
                };
                let Some((id, p)) = n else { break };
                v.push((id, parts(&p)));
                if v.len() == 1 {
                    pause();
                }
                if let C::QIncr(_) = c {
                    for q in p.get() {
                        if !q.ptr.is_null() {
                            unsafe { *q.ptr = q.val + 1 }
                        }
                    }
                }
                if v.len() > MAXID {
                    break;
                }
            }
            drop(r);
            drop(it);
            v.sort();
            R::Items(v)
        }
        C::ById(s, e) => {
            let s = &cat().all[s as usize];
            let mut it = (s.run)(w);
            let r = region(c, shape_cells(s));
            pause();
            let v = it.from_id(e as usize).map(|p| (e as usize, parts(&p)));
            drop(r);
            R::Items(v.into_iter().collect())
        }
        C::ResRead(r) => with_res!(r, Q => match w.resource_read::<Q>() {
            Some(g) => { let k = region(c, (0x100 << r, 0)); pause(); let v = R::Val(Some((g.tok(), g.val()))); drop(k); v }
            None => R::Val(None),
        }),
        C::ResIncr(r) => with_res!(r, Q => match w.resource_write::<Q>() {
            Some(mut g) => {
                let k = region(c, (0, 0x100 << r));
                let v = g.val();
                pause();
                g.set(v + 1);
                let v = R::Val(Some((g.tok(), v)));
                drop(k);
                v
            }
            None => R::Val(None),
        }),
        C::HNew => {
            loc.ent = Some(w.create_entity());
            loc.rec = i;
            loc.id = None;
            R::Unit
        }
        C::HGet(e) => {
            loc.ent = w.entity(id(e));
            loc.rec = i;
            loc.id = Some(e as usize);
            R::Bool(loc.ent.is_some())
        }
        C::HAttach(t) => match loc.ent.take() {
            Some(h) => {
                loc.ent = Some(with_type!(t, T => { let c: T = give(i); h.attach::<T>(c) }));
                R::Unit
            }
            None => R::Bool(false),
        },
        C::HDetach(t) => match &loc.ent {
            Some(h) => R::Val(with_type!(t, T => h.detach::<T>().as_ref().map(tv))),
            None => R::Bool(false),
        },
        C::HRead(t) => match &loc.ent {
            Some(h) => R::Val(with_type!(t, T => { let r = h.component_read::<T>().map(|g| tv(&*g)); r })),
            None => R::Bool(false),
        },
        C::HIncr(t) => match &loc.ent {
            Some(h) => R::Val(with_type!(t, T => { let r = h.component_write::<T>().map(|mut g| bump(&mut *g)); r })),
            None => R::Bool(false),
        },
        C::HDrop => match loc.ent.take() {
            Some(h) => {
                let e = h.into_id().get();
                if loc.id.is_none() {
                    x().recs[loc.rec].res = R::Ids(e, e + 1);
                }
                R::Ids(e, e + 1)
            }
            None => R::Bool(false),
        },
        C::HRemove => match loc.ent.take() {
            Some(h) => {
                h.manaully_drop();
                R::Unit
            }
            None => R::Bool(false),
        },
        C::BNew(n) => {
            loc.ents = Some(w.create_entities(n as usize));
            loc.rec = i;
            loc.n = n as usize;
            R::Unit
        }
        C::BAttach(t) => {
            let h = loc.ents.take().expect("block");
            loc.ents = Some(with_type!(t, T => { let v: Vec<T> = (0..loc.n).map(|_| give(i)).collect(); h.attach::<T, _>(v) }));
            R::Unit
        }
        C::BDrop => {
            let r = loc.ents.take().expect("block").into_ids();
            x().recs[loc.rec].res = R::Ids(r.start.get(), r.end.get());
            R::Ids(r.start.get(), r.end.get())
        }
        C::Hold(a) => R::Bool(hold(w, c, a, 5000 + i as u32, &mut || pause())),
        C::Hold2(a, b) => {
            let mut inner = false;
            let r = hold(w, c, a, 5000, &mut || {
                // the inner access gets another name, so that the two can be told apart
                let name = C::Hold(b);
                inner = hold(w, name, b, 6000, &mut || x().inner = true);
            });
            R::Bool(r && inner)
        }
        C::HoldMut(a, m) => R::Bool(hold(w, c, a, 5000, &mut || {
            do_mut(w, m, i);
            x().inner = true;
        })),
    }
}

/// The cells changed by a successful call.
fn effect(c: C, r: &R) -> u16 {
    match (c, r) {
        (C::Attach(_, t) | C::AttachH(_, t), R::Unit) => 1 << t,
        (C::HAttach(t) | C::BAttach(t), R::Unit) => 1 << t,
        (C::Detach(_, t) | C::DetachH(_, t) | C::HDetach(t), R::Val(Some(_))) => 1 << t,
        _ => 0,
    }
}

fn body(w: *const World, t: usize, ops: &[C]) {
    let w: &World = unsafe { &*w };
    let mut loc = Local { ent: None, ents: None, n: 0, rec: 0, id: None };
    for &c in ops {
        op_start();
        let call = tick();
        let i = x().recs.len();
        let handle = matches!(c, C::HAttach(_) | C::HDetach(_) | C::HRead(_) | C::HIncr(_) | C::HDrop | C::HRemove | C::BAttach(_) | C::BDrop).then_some(loc.rec);
        x().recs.push(Rec { op: c, thread: t, call, ret: u32::MAX, res: R::Pending, given: vec![], panic: None, after: None, handle });
        let r = catch_unwind(AssertUnwindSafe(|| perform(w, c, i, &mut loc)));
        match r {
            Ok(r) => {
                let e = effect(c, &r);
                if e != 0 {
                    x().changed(&c, call, e);
                }
                x().recs[i].res = r;
            }
            Err(e) => {
                if sched::sh().aborting {
                    resume_unwind(e)
                }
                if let Some(d) = e.downcast_ref::<parking_lot::mc::SelfDeadlock>() {
                    x().recs[i].panic = Some(format!("waits for itself ({:?})", d.0));
                } else {
                    x().recs[i].panic = Some(panic_text(&*e));
                }
                x().recs[i].res = R::Refused;
                x().live.retain(|r| r.thread != t);
            }
        }
        x().recs[i].ret = tick();
        if loc.ent.is_none() && loc.ents.is_none() {
            let l = ctl();
            if l.held.iter().any(|h| h.2 == t) && x().leak.is_none() {
                x().leak = Some(format!("[{c}] returned but a lock it took is still held"));
            }
            if let Some(m) = l.misuse.take() {
                x().leak = Some(format!("[{c}]: {m}"));
            }
        }
    }
}

// ---------------------------------------------------------------- linearizability

/// The effect of one call on the model; false if the recorded result does not fit.
fn lin_step(m: &mut Model, pins: &mut [u8; MAXID + 1], recs: &[Rec], k: usize) -> bool {
    let r = &recs[k];
    let alive = |m: &Model, e: u8| m.is_alive(e as usize);
    let refused = r.res == R::Refused;
    let hid = |recs: &[Rec]| -> Option<(usize, usize)> {
        let h = &recs[r.handle?];
        match (&h.op, &h.res) {
            (C::HGet(e), R::Bool(true)) => Some((*e as usize, *e as usize + 1)),
            (_, R::Ids(a, b)) => Some((*a, *b)),
            _ => None,
        }
    };
    let fresh = |m: &mut Model, s: usize, e: usize, n: usize, single: bool| -> bool {
        if e.wrapping_sub(s) != n || s == 0 || e > MAXID + 1 || (s..e).any(|i| m.is_alive(i)) {
            return false;
        }
        let free = m.ever & !m.alive;
        let next = 32 - (m.ever | 1).leading_zeros() as usize;
        if single {
            if free != 0 && free >> s & 1 == 0 || free == 0 && s != next {
                return false;
            }
        }
        for i in s..e {
            m.born(i);
        }
        true
    };
    match r.op {
        C::Create => match r.res {
            R::Ids(s, e) => fresh(m, s, e, 1, true),
            _ => false,
        },
        C::CreateN(n) => match r.res {
            R::Ids(s, e) => fresh(m, s, e, n as usize, false),
            _ => false,
        },
        C::Attach(e, t) | C::AttachH(e, t) => {
            if !alive(m, e) || !m.registered(t as usize) {
                return refused;
            }
            if refused {
                return false;
            }
            m.set(e as usize, t as usize, r.given[0]);
            true
        }
        C::Detach(e, t) | C::DetachH(e, t) => {
            if !alive(m, e) || !m.registered(t as usize) {
                return refused;
            }
            let want = m.unset(e as usize, t as usize);
            r.res == R::Val(want)
        }
        C::Remove(e) | C::RemoveH(e) => {
            if !alive(m, e) {
                return refused;
            }
            if refused || pins[e as usize] > 0 {
                return false;
            }
            m.kill(e as usize);
            true
        }
        C::Exist(e) | C::Lookup(e) => r.res == R::Bool(alive(m, e)),
        C::Fmt => r.res == R::Bool(true),
        C::Read(e, t) | C::ReadH(e, t) => r.res == R::Val(m.comp(e as usize, t as usize)),
        C::Incr(e, t) | C::IncrH(e, t) => {
            let old = m.comp(e as usize, t as usize);
            if let Some(o) = old {
                m.set_val(e as usize, t as usize, o.1 + 1);
            }
            r.res == R::Val(old)
        }
        C::StoRead(t) | C::StoIncr(t) => {
            if !m.registered(t as usize) {
                return refused;
            }
            let mut v = vec![];
            for i in 1..=MAXID {
                if let Some(c) = m.comp(i, t as usize) {
                    v.push((0, vec![(t, c.0, c.1)]));
                    if let C::StoIncr(_) = r.op {
                        m.set_val(i, t as usize, c.1 + 1);
                    }
                }
            }
            v.sort();
            r.res == R::Items(v)
        }
        C::Query(s) | C::Plain(s) | C::QIncr(s) => {
            let s = &cat().all[s as usize];
            if !s.accepted(m) {
                return refused;
            }
            let mut v = vec![];
            let mut hits = vec![];
            for i in 1..=MAXID {
                if let Some(p) = s.expect(m, i) {
                    v.push((if let C::Plain(_) = r.op { 0 } else { i }, parts(&p)));
                    hits.push(i);
                }
            }
            v.sort();
            if r.res != R::Items(v) {
                return false;
            }
            if let C::QIncr(_) = r.op {
                for i in hits {
                    for (t, x) in &s.leaves {
                        if *x {
                            let c = m.comp(i, *t as usize).unwrap();
                            m.set_val(i, *t as usize, c.1 + 1);
                        }
                    }
                }
            }
            true
        }
        C::ById(s, e) => {
            let s = &cat().all[s as usize];
            if !s.accepted(m) {
                return refused;
            }
            r.res == R::Items(s.expect(m, e as usize).map(|p| (e as usize, parts(&p))).into_iter().collect())
        }
        C::ResRead(q) => r.res == R::Val(m.res[q as usize]),
        C::ResIncr(q) => {
            let old = m.res[q as usize];
            if let Some(v) = &mut m.res[q as usize] {
                if q != 2 {
                    v.1 += 1;
                }
            }
            r.res == R::Val(old)
        }
        C::HNew => match r.res {
            R::Ids(s, e) => {
                if !fresh(m, s, e, 1, true) {
                    return false;
                }
                pins[s] += 1;
                true
            }
            _ => false,
        },
        C::BNew(n) => match r.res {
            R::Ids(s, e) => {
                if !fresh(m, s, e, n as usize, false) {
                    return false;
                }
                for p in &mut pins[s..e] {
                    *p += 1;
                }
                true
            }
            _ => false,
        },
        C::HGet(e) => {
            if r.res != R::Bool(alive(m, e)) {
                return false;
            }
            if alive(m, e) {
                pins[e as usize] += 1;
            }
            true
        }
        C::HAttach(_) | C::HDetach(_) | C::HRead(_) | C::HIncr(_) | C::HDrop | C::HRemove | C::BAttach(_) | C::BDrop => {
            let Some((s, e)) = hid(recs) else {
                // there is no handle
                return r.res == R::Bool(false);
            };
            match r.op {
                C::HDrop | C::BDrop => {
                    if r.res != R::Ids(s, e) {
                        return false;
                    }
                    for p in &mut pins[s..e] {
                        *p -= 1;
                    }
                    true
                }
                C::HRemove => {
                    // the unpinning half
                    pins[s] -= 1;
                    true
                }
                C::HAttach(t) | C::BAttach(t) => {
                    if r.res != R::Unit || (s..e).any(|i| !m.is_alive(i)) {
                        return false;
                    }
                    for i in s..e {
                        m.set(i, t as usize, r.given[i - s]);
                    }
                    true
                }
                C::HDetach(t) => {
                    let want = m.unset(s, t as usize);
                    m.is_alive(s) && r.res == R::Val(want)
                }
                C::HRead(t) => m.is_alive(s) && r.res == R::Val(m.comp(s, t as usize)),
                C::HIncr(t) => {
                    let old = m.comp(s, t as usize);
                    if let Some(o) = old {
                        m.set_val(s, t as usize, o.1 + 1);
                    }
                    m.is_alive(s) && r.res == R::Val(old)
                }
                _ => unreachable!(),
            }
        }
        C::Hold(_) | C::Hold2(..) | C::HoldMut(..) | C::Twin(_) => true,
    }
}

struct Lin<'a> {
    recs: &'a [Rec],
    fin: &'a Model,
    nodes: u64,
}
impl Lin<'_> {
    /// Is there an order of the remaining calls that explains all results and the final state?
    fn go(&mut self, left: u32, m: &Model, pins: &[u8; MAXID + 1]) -> Option<Model> {
        if left == 0 {
            return m.same_state(self.fin).then(|| m.clone());
        }
        let n = self.recs.len();
        let first_ret = (0..n).filter(|i| left >> i & 1 == 1).map(|i| self.recs[i].ret).min().unwrap();
        for k in 0..n {
            if left >> k & 1 == 0 || self.recs[k].call > first_ret {
                continue;
            }
            if self.recs[k].after.is_some_and(|a| left >> a & 1 == 1) {
                continue;
            }
            self.nodes += 1;
            let mut m2 = m.clone();
            let mut p2 = *pins;
            if lin_step(&mut m2, &mut p2, self.recs, k) {
                if let Some(f) = self.go(left & !(1 << k), &m2, &p2) {
                    return Some(f);
                }
            }
        }
        None
    }
}

// ---------------------------------------------------------------- scenarios

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Look {
    /// conflicting accesses
    Access,
    /// results and final state
    Lin,
    /// completion
    Done,
}

#[derive(Clone)]
pub struct Scn {
    pub name: String,
    pub prelude: Vec<Op>,
    pub threads: Vec<Vec<C>>,
    pub bound: u32,
    /// some schedule must have both accesses in use at once
    pub must_overlap: bool,
    /// the inner access of the only thread must be obtained (true) or must not (false)
    pub inner: Option<bool>,
    /// explore every iteration order of the storages
    pub orders: bool,
    /// switch at acquisitions that commute with everything the other threads do, too
    pub full: bool,
    /// query shapes looked at in the end
    pub shapes: Vec<usize>,
}

pub fn text(threads: &[Vec<C>]) -> String {
    threads.iter().map(|t| t.iter().map(|c| c.to_string()).collect::<Vec<_>>().join("; ")).collect::<Vec<_>>().join(" || ")
}

pub struct Conc {
    pub name: String,
    pub prop: &'static str,
    pub look: Look,
    pub scns: Vec<Scn>,
}

struct Outcome {
    end: End,
    log: Vec<Choice>,
    viol: Option<(String, String)>,
    known: Option<String>,
}

pub fn known_list(prop: &str) -> HashSet<String> {
    let root = std::env::var("MC_ROOT").unwrap_or_else(|_| "/verif".into());
    let head = format!("known: property={prop} ");
    std::fs::read_to_string(format!("{root}/known-findings.txt"))
        .unwrap_or_default()
        .lines()
        .filter_map(|l| l.strip_prefix(&head).map(|s| s.trim().to_string()))
        .collect()
}

pub struct Ctx {
    known: HashSet<String>,
    seen: HashSet<u128>,
    overlap: bool,
}

fn mk_world(s: &Scn, seed: u64) -> Option<(Box<World>, Model)> {
    crate::rs::seed(seed);
    reg().reset();
    let c = ctl();
    c.held.clear();
    c.misuse = None;
    c.hook = None;
    c.thread = 0;
    let mut w = Box::new(World::new());
    let mut m = Model::default();
    let mut rep = Rep::default();
    c.log = Some(vec![]);
    for &o in &s.prelude {
        let out = exec::run(&mut w, &m, o, cat());
        if matches!(o.k, exec::REGISTER | exec::MAKE) {
            // the locks move
            c.log.as_mut().unwrap().clear();
        }
        if !exec::apply(&mut m, o, &out, &mut rep, cat()) || out.panic.is_some() {
            std::mem::forget(w);
            return None;
        }
    }
    // locks are told apart by the order in which the prelude uses them
    let l = &mut sched::sh().locks;
    l.clear();
    for (a, _) in c.log.take().unwrap() {
        if l.len() < sched::MAXL && !l.contains(&a) {
            l.push(a);
        }
    }
    Some((w, m))
}

/// Seeds that give every different iteration order of the storages, as far as the world shows it.
fn order_seeds(s: &Scn) -> Vec<u64> {
    let mut v = vec![];
    let mut seen = BTreeSet::new();
    let n = s.prelude.iter().filter(|o| o.k == exec::REGISTER).count().min(4);
    let max: usize = (1..=n).product();
    for seed in 0..200u64 {
        let Some((w, _)) = mk_world(s, seed) else { return vec![0] };
        let t = format!("{w:?}");
        if seen.insert(t[t.find("components:").unwrap_or(0)..].to_string()) {
            v.push(seed);
        }
        if seen.len() >= max {
            break;
        }
    }
    v
}

struct H(u64, u64);
impl std::hash::Hasher for H {
    fn finish(&self) -> u64 {
        self.0 ^ self.1
    }
    fn write(&mut self, b: &[u8]) {
        for x in b {
            self.0 = (self.0 ^ *x as u64).wrapping_mul(0x100000001b3);
            self.1 = (self.1.rotate_left(5) ^ *x as u64).wrapping_mul(0x517cc1b727220a95);
        }
    }
}

impl Conc {
    fn bodies(&self, s: &Scn, w: *const World) -> Vec<Box<dyn FnOnce()>> {
        s.threads
            .iter()
            .enumerate()
            .map(|(t, ops)| {
                let ops = ops.clone();
                Box::new(move || body(w, t, &ops)) as Box<dyn FnOnce()>
            })
            .collect()
    }

    /// One execution.
    fn exec(&self, s: &Scn, seed: u64, prefix: &[u8], ctx: &mut Ctx, st: &mut Stats, tr: &mut Trace) -> Outcome {
        let mut log = vec![];
        *x() = X::default();
        let Some((w, m0)) = mk_world(s, seed) else {
            st.pruned += 1;
            return Outcome { end: End::Done, log, viol: None, known: None };
        };
        let end = sched::run(self.bodies(s, &*w), s.bound, prefix, &mut log, &mut |c| tr.push_byte(c));
        st.executions += 1;
        st.transitions += log.len() as u64;
        st.ops += x().recs.len() as u64;
        let mut viol = None;
        let mut known = None;
        let mut keep = false;
        let mut report = |sig: String, tag: &str, msg: String, viol: &mut Option<(String, String)>| {
            if ctx.known.contains(&sig) {
                known = Some(sig);
            } else {
                *viol = Some((tag.into(), format!("{msg} [signature: {sig}]")));
            }
        };
        match end {
            End::Deadlock(set) => {
                st.deadlocks += 1;
                keep = true;
                if self.look == Look::Done {
                    let mut blocked: Vec<String> = (0..s.threads.len())
                        .filter(|t| set >> t & 1 == 1)
                        .map(|t| x().recs.iter().rev().find(|r| r.thread == t).map(|r| r.op.to_string()).unwrap_or_default())
                        .collect();
                    let shown = blocked.join(" and ");
                    blocked.sort();
                    report(format!("{}: {} wait forever", s.name, blocked.join(" and ")), "Deadlock", format!("{shown} wait forever"), &mut viol);
                }
            }
            End::Long => {
                st.notes.push(format!("{}: an execution has too many steps", s.name));
            }
            End::Done => {}
        }
        if ctl().hook.is_some() {
            ctl().hook = None;
        }
        if self.look == Look::Access {
            if x().overlap {
                ctx.overlap = true;
            }
            if let Some(e) = x().access.take() {
                // which thread ran first does not matter for what it is
                report(s.name.clone(), "Access", e, &mut viol);
            }
            if viol.is_none() && s.inner == Some(true) && !x().inner {
                {
                    let why = x().recs.first().and_then(|r| r.panic.clone()).unwrap_or_else(|| "waits forever".into());
                    report(format!("{}: not obtained", s.name), "Access", format!("accesses that do not conflict cannot be held at once: {why}"), &mut viol);
                }
            }
        }
        if end == End::Done && self.look == Look::Done {
            if let Some(l) = x().leak.take() {
                report(format!("{}: lock left", s.name), "LockLeak", l, &mut viol);
            } else if !ctl().held.is_empty() {
                report(format!("{}: lock left", s.name), "LockLeak", "a lock is held although every thread is done".into(), &mut viol);
            }
        }
        if end == End::Done && self.look == Look::Lin {
            match self.judge(s, &w, &m0, ctx, st) {
                Ok(()) => {}
                Err((tag, msg, broken)) => {
                    keep |= broken;
                    viol = Some((tag, msg));
                }
            }
        }
        ctl().held.clear();
        if keep && end == End::Done || viol.is_some() {
            std::mem::forget(w);
        } else {
            // after a deadlock everything was unwound
            let _ = guarded(|| drop(w));
        }
        Outcome { end, log, viol, known }
    }

    fn judge(&self, s: &Scn, w: &World, m0: &Model, ctx: &mut Ctx, st: &mut Stats) -> Result<(), (String, String, bool)> {
        let xx = x();
        // manaully_drop of a held handle: releasing it and removing are two steps
        let mut recs = xx.recs.clone();
        for i in 0..recs.len() {
            if recs[i].op == C::HRemove && recs[i].res != R::Bool(false) {
                if let Some(C::HGet(e)) = recs[i].handle.map(|h| recs[h].op) {
                    let mut r = recs[i].clone();
                    r.op = C::Remove(e);
                    r.after = Some(i);
                    recs.push(r);
                }
            }
        }
        let story = |recs: &[Rec]| {
            recs.iter()
                .map(|r| format!("T{} {} -> {:?}{} @{}..{}", r.thread, r.op, r.res, r.panic.as_ref().map(|p| format!(" ({p})")).unwrap_or_default(), r.call, r.ret))
                .collect::<Vec<_>>()
                .join("; ")
        };
        if let Some(l) = &xx.leak {
            return Err(("LockLeak".into(), l.clone(), true));
        }
        // the state that is there
        let mut fin = m0.clone();
        let top = obs::near(m0) + s.threads.iter().flatten().map(|c| match c {
            C::Create | C::HNew => 1,
            C::CreateN(n) | C::BNew(n) => *n as usize,
            _ => 0,
        }).sum::<usize>();
        let top = top.min(MAXID);
        let got = guarded(|| {
            fin.alive = 0;
            for i in 1..=top {
                for t in 0..NT {
                    fin.unset(i, t);
                }
                if w.exist(nz(i)) {
                    fin.alive |= 1 << i;
                }
                for t in 0..NT {
                    if fin.registered(t) {
                        let v = with_type!(t, T => w.entity_component_read::<T>(nz(i)).map(|g| tv(&*g)));
                        if let Some(v) = v {
                            fin.set(i, t, v.0);
                            fin.set_val(i, t, v.1);
                        }
                    }
                }
            }
            for r in 0..NR {
                if fin.res[r].is_some() {
                    fin.res[r] = with_res!(r, Q => w.resource_read::<Q>().map(|g| (g.tok(), g.val())));
                }
            }
        });
        if let Err((e, _)) = got {
            return Err(("Final".into(), format!("reading the world afterwards: {e}; {}", story(&recs)), true));
        }
        st.compared += 1;
        if let Some(e) = reg().read_err.take() {
            return Err(("Read".into(), format!("{e}; {}", story(&recs)), true));
        }
        // equal outcomes are judged once
        let key = {
            use std::hash::{Hash, Hasher};
            let mut h = H(0xcbf29ce484222325, 0x9E3779B97F4A7C15);
            // identities by who gave them
            let base = (m0.ids().map(|i| m0.mask(i).count_ones()).sum::<u32>()) + 64;
            let mut names: Vec<(u32, u32)> = vec![];
            let mut order: Vec<usize> = (0..recs.len()).collect();
            order.sort_by_key(|i| (recs[*i].thread, recs[*i].call));
            for (n, &i) in order.iter().enumerate() {
                for (j, g) in recs[i].given.iter().enumerate() {
                    if *g != 0 {
                        names.push((*g, base + n as u32 * 16 + j as u32));
                    }
                }
            }
            let nm = |t: u32| names.iter().find(|x| x.0 == t).map(|x| x.1).unwrap_or(t);
            for &i in &order {
                let r = &recs[i];
                match &r.res {
                    R::Val(Some(v)) => (1u8, nm(v.0), v.1).hash(&mut h),
                    R::Items(v) => {
                        let mut v: Vec<_> = v.iter().map(|(i, p)| (*i, p.iter().map(|p| (p.0, nm(p.1), p.2)).collect::<Vec<_>>())).collect();
                        v.sort();
                        (2u8, v).hash(&mut h)
                    }
                    o => (3u8, o).hash(&mut h),
                }
                for &j in &order {
                    (r.ret < recs[j].call).hash(&mut h);
                }
            }
            for i in 1..=MAXID {
                (fin.is_alive(i), fin.mask(i)).hash(&mut h);
                for t in 0..NT {
                    fin.comp(i, t).map(|v| (nm(v.0), v.1)).hash(&mut h);
                }
            }
            fin.res.hash(&mut h);
            let a = (h.0, h.1);
            match crate::bfs::key(w, &fin, cat()) {
                Ok(k) => k ^ ((a.0 as u128) << 64 | a.1 as u128),
                Err((e, _)) => return Err(("Final".into(), format!("reading the world afterwards: {e}; {}", story(&recs)), true)),
            }
        };
        reg().read_err = None;
        if !ctx.seen.insert(key) {
            return Ok(());
        }
        st.outcomes += 1;
        let mut lin = Lin { recs: &recs, fin: &fin, nodes: 0 };
        let all = if recs.is_empty() { 0 } else { (1u32 << recs.len()) - 1 };
        let found = lin.go(all, m0, &[0; MAXID + 1]);
        st.sequences += lin.nodes;
        let Some(mut m) = found else {
            let state: Vec<String> = (1..=top)
                .filter(|i| fin.is_alive(*i) || fin.mask(*i) != 0)
                .map(|i| format!("{i}{}:{{{}}}", if fin.is_alive(i) { "" } else { "(dead)" }, (0..NT).filter_map(|t| fin.comp(i, t).map(|v| format!("{}#{}={}", TNAMES[t], v.0, v.1))).collect::<Vec<_>>().join(" ")))
                .collect();
            return Err(("Order".into(), format!("no one-at-a-time order explains this execution: {}; final state {}", story(&recs), state.join(" ")), true));
        };
        // every other reader must agree, now and after some more calls
        let mut rep = Rep { mon: u32::MAX, ..Default::default() };
        st.observed += 1;
        let look = |m: &Model, rep: &mut Rep| {
            obs::drops(m, rep);
            obs::exist(w, m, rep);
            obs::reads(w, m, rep);
            obs::shapes(w, m, cat(), &s.shapes, rep);
            obs::lock_leak(rep);
        };
        look(&m, &mut rep);
        let mut did = String::new();
        if rep.found.is_none() {
            let types: Vec<usize> = (0..NT).filter(|t| m.registered(*t)).collect();
            let mut ops = vec![op(exec::CREATE, 0, 0, 0)];
            if let Some(last) = m.ids().last() {
                ops.extend(types.iter().map(|t| op(exec::ATTACH, last, *t, 0)));
            }
            if let Some(first) = m.ids().next() {
                ops.push(op(exec::DETACH, first, types[0], 0));
                ops.push(op(exec::ATTACH, first, types[0], 0));
                ops.push(op(exec::REMOVE, first, 0, 0));
            }
            ops.push(op(exec::CREATE, 0, 0, 0));
            for o in ops {
                let mut out = exec::Out::default();
                if let Err((e, hang)) = guarded(|| exec::run_shared(w, o, &mut out, cat())) {
                    out.panic = Some(e);
                    out.hang = hang;
                }
                did.push_str(&format!(" {o};"));
                if !exec::apply(&mut m, o, &out, &mut rep, cat()) || rep.found.is_some() {
                    break;
                }
            }
            if rep.found.is_none() {
                look(&m, &mut rep);
            }
        }
        st.compared += rep.compared;
        if let Some((tag, e)) = rep.found {
            let then = if did.is_empty() { String::new() } else { format!(" after{did}") };
            return Err((format!("{tag:?}"), format!("after {}:{then} {e}", story(&recs)), true));
        }
        Ok(())
    }

    fn head(i: usize, seed: u64) -> Vec<u8> {
        vec![i as u8, (i >> 8) as u8, seed as u8]
    }

    pub fn explore(&self, tr: &mut Trace, st: &mut Stats) -> Option<Viol> {
        let mut ctx = Ctx { known: known_list(self.prop), seen: HashSet::new(), overlap: false };
        let mut known_seen: BTreeSet<String> = BTreeSet::new();
        // list everything instead of stopping at the first violation
        let all = std::env::var_os("MC_ALL").is_some();
        for (i, s) in self.scns.iter().enumerate() {
            st.scenarios += 1;
            ctx.seen.clear();
            ctx.overlap = false;
            let seeds = if s.orders { order_seeds(s) } else { vec![0] };
            let mut n = 0u64;
            let mut last = vec![];
            'seeds: for seed in seeds {
                let mut prefix: Vec<u8> = vec![];
                // without the reduction in the thorough tier
                sched::sh().uses = if s.full { None } else { Some(Default::default()) };
                sched::sh().seen = Default::default();
                ctl().tried = false;
                loop {
                    if n % 64 == 0 && st.late() {
                        st.known.extend(known_seen);
                        return None;
                    }
                    tr.start_bytes(&Self::head(i, seed));
                    let o = self.exec(s, seed, &prefix, &mut ctx, st, tr);
                    n += 1;
                    st.max_depth = st.max_depth.max(o.log.len() as u64);
                    if let Some(k) = o.known {
                        known_seen.insert(k);
                    }
                    if let Some((tag, msg)) = o.viol {
                        let mut path = Self::head(i, seed);
                        path.extend(o.log.iter().map(|c| c.taken));
                        if all {
                            st.notes.push(format!("{tag} {msg} choices {:?}", &path[2..]));
                            break 'seeds;
                        }
                        return Some(Viol { tag, msg, text: self.text(&path), path });
                    }
                    let _ = o.end;
                    match sched::next(&o.log) {
                        Some(p) => prefix = p,
                        None => {
                            // again, if more acquisitions turned out to matter
                            let sh = sched::sh();
                            let next = if ctl().tried || sh.uses.is_none() { None } else { Some(sh.seen) };
                            if sh.uses == next {
                                break;
                            }
                            sh.uses = next;
                            prefix.clear();
                        }
                    }
                    if s.must_overlap && ctx.overlap && self.look == Look::Access && n > 4000 {
                        break 'seeds;
                    }
                }
                last = prefix;
            }
            if s.must_overlap && !ctx.overlap {
                let sig = format!("{}: never at once", s.name);
                if ctx.known.contains(&sig) {
                    known_seen.insert(sig);
                } else {
                    let mut path = Self::head(i, 0);
                    path.push(255);
                    if all {
                        st.notes.push(format!("Access signature: {sig}]"));
                        continue;
                    }
                    return Some(Viol { tag: "Access".into(), msg: format!("accesses that do not conflict are never in use at once in any of {n} schedules [signature: {sig}]"), text: self.text(&path), path });
                }
            }
            if i % (self.scns.len() / 2 + 1) == 0 && st.samples.len() < 3 {
                st.samples.push(format!("{}: {n} schedules, the last with choices {last:?}", s.name));
            }
            st.states += n;
        }
        st.known.extend(known_seen);
        None
    }

    pub fn replay(&self, path: &[u8], tr: &mut Trace) -> Option<Viol> {
        if path.len() < 3 {
            return None;
        }
        let i = path[0] as usize | (path[1] as usize) << 8;
        let s = self.scns.get(i)?;
        let mut st = Stats::default();
        if path[3..] == [255] {
            // a whole scenario
            let one = Conc { name: self.name.clone(), prop: self.prop, look: self.look, scns: vec![s.clone()] };
            return one.explore(tr, &mut st).map(|mut v| {
                v.path = path.to_vec();
                v.text = self.text(path);
                v
            });
        }
        let mut ctx = Ctx { known: known_list(self.prop), seen: HashSet::new(), overlap: false };
        tr.start_bytes(&path[..3]);
        sched::sh().uses = None;
        let o = self.exec(s, path[2] as u64, &path[3..], &mut ctx, &mut st, tr);
        o.viol.map(|(tag, msg)| Viol { tag, msg, text: self.text(path), path: path.to_vec() })
    }

    pub fn text(&self, path: &[u8]) -> String {
        if path.len() < 3 {
            return self.name.clone();
        }
        let i = path[0] as usize | (path[1] as usize) << 8;
        match self.scns.get(i) {
            Some(s) => format!("[{}] then {} with storage order {} and choices {:?}", crate::bfs::show(&s.prelude), text(&s.threads), path[2], &path[3..]),
            None => "?".into(),
        }
    }
}
