//! Operations: how they run on the real world, and what the model says about them.

use crate::model::*;
use crate::shapes::Catalogue;
use crate::tok::*;
use crate::{with_res, with_type};
use std::any::Any;
use std::fmt;
use std::num::NonZeroUsize;
use std::panic::{catch_unwind, AssertUnwindSafe};
use xecs::World;

/// What kind of disagreement was seen.
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
#[repr(u32)]
pub enum Tag {
    /// exist / entity wrong
    Exist = 1 << 0,
    /// a creation returned an id that is alive
    Alive = 1 << 1,
    /// id choice (recycling, consecutive)
    IdChoice = 1 << 2,
    /// component reads and storage views
    Read = 1 << 3,
    /// result of detach
    Detach = 1 << 4,
    Single = 1 << 5,
    Tuple = 1 << 6,
    Without = 1 << 7,
    GroupFull = 1 << 8,
    GroupPartial = 1 << 9,
    GroupNon = 1 << 10,
    Cursor = 1 << 11,
    Drop = 1 << 12,
    /// a call that had to be refused was not
    NotRefused = 1 << 13,
    /// a make_group was admitted or refused wrongly
    Admission = 1 << 14,
    /// a call panicked that should not
    Panic = 1 << 15,
    Hang = 1 << 16,
    LockLeak = 1 << 17,
    Write = 1 << 18,
    Resource = 1 << 19,
    /// query acceptance
    QueryAccept = 1 << 20,
    /// grouped and ungrouped world differ
    Differ = 1 << 21,
    /// members of an owning group not in front, or not aligned
    Pack = 1 << 22,
    /// a panic of user code got lost
    Swallowed = 1 << 23,
}

#[derive(Default)]
pub struct Rep {
    pub mon: u32,
    pub found: Option<(Tag, String)>,
    /// issues outside the monitored set
    pub other: u64,
    pub compared: u64,
}

impl Rep {
    /// Report a disagreement; true if it is one of the monitored kinds.
    pub fn issue(&mut self, tag: Tag, msg: impl FnOnce() -> String) -> bool {
        if self.mon & tag as u32 != 0 {
            if self.found.is_none() {
                self.found = Some((tag, msg()));
            }
            true
        } else {
            self.other += 1;
            false
        }
    }
    pub fn on(&self, tag: Tag) -> bool {
        self.mon & tag as u32 != 0
    }
}

#[derive(Clone, Copy, PartialEq, Eq, Debug, Hash, PartialOrd, Ord)]
#[repr(C)]
pub struct Op {
    pub k: u8,
    pub a: u8,
    pub b: u8,
    pub c: u8,
}

pub const fn op(k: u8, a: usize, b: usize, c: usize) -> Op {
    Op { k, a: a as u8, b: b as u8, c: c as u8 }
}
pub const CREATE: u8 = 0;
pub const CREATE_N: u8 = 1;
pub const CREATE_WITH: u8 = 2;
pub const BULK: u8 = 3;
pub const REMOVE: u8 = 4;
pub const REMOVE_H: u8 = 5;
pub const ATTACH: u8 = 6;
pub const ATTACH_H: u8 = 7;
pub const DETACH: u8 = 8;
pub const DETACH_H: u8 = 9;
pub const MAKE: u8 = 10;
pub const REGISTER: u8 = 11;
pub const RES_REG: u8 = 12;
pub const RES_WRITE: u8 = 13;
pub const QUERY: u8 = 14;
pub const BULK_LEN: u8 = 15;
pub const RECYCLE: u8 = 16;
pub const WRITE: u8 = 17;

// Calls in which code of the user panics.
/// attach over a component whose destructor panics: id, type, through a handle?
pub const F_ATTACH: u8 = 18;
/// remove, the k-th destructor panics: id, k, through a handle?
pub const F_REMOVE: u8 = 19;
/// block of n, those of the mask given the type already, then all of them; the k-th destructor panics:
/// n + 16 mask, type + 16 (another type given to all before + 1), k
pub const F_BULK: u8 = 20;
/// register a resource over one whose destructor panics
pub const F_RES: u8 = 21;
/// a panic while something is held: what, ...
pub const F_HOLD: u8 = 22;
/// a conversion panics: which, ...
pub const F_CONV: u8 = 23;

pub fn mk_make(g: GroupId) -> Op {
    op(MAKE, g.kind as usize, g.a as usize, g.b as usize)
}
impl Op {
    pub fn group(&self) -> GroupId {
        GroupId { kind: self.a, a: self.b, b: self.c }
    }
    pub fn script(&self) -> usize {
        self.b as usize | (self.c as usize) << 8
    }
    pub fn bytes(&self) -> [u8; 4] {
        [self.k, self.a, self.b, self.c]
    }
    pub fn from_bytes(b: &[u8]) -> Op {
        Op { k: b[0], a: b[1], b: b[2], c: b[3] }
    }
}

/// Ids as written in operations: small numbers stand for themselves, some for extreme values.
pub fn real_id(a: u8) -> usize {
    match a {
        255 => usize::MAX,
        254 => usize::MAX / 2 + 1,
        253 => 1 << 32,
        252 => 1000,
        251 => (1 << 32) + 1,
        250 => (1 << 16) + 1,
        249 => (1 << 8) + 1,
        x => x as usize,
    }
}
pub fn nz(id: usize) -> NonZeroUsize {
    NonZeroUsize::new(id).unwrap()
}

/// Steps performed while a handle to a block of entities is alive.
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Step {
    All(u8),
    /// attach to the i-th entity of the block (255: the last one)
    One(u8, u8),
    Det(u8, u8),
}

pub fn scripts() -> &'static Vec<Vec<Step>> {
    use std::sync::OnceLock;
    static S: OnceLock<Vec<Vec<Step>>> = OnceLock::new();
    S.get_or_init(|| {
        let al = [
            Step::All(0),
            Step::All(1),
            Step::All(2),
            Step::One(0, 0),
            Step::One(0, 1),
            Step::One(255, 0),
            Step::One(255, 1),
            Step::Det(0, 0),
            Step::Det(255, 1),
        ];
        let mut v: Vec<Vec<Step>> = vec![vec![]];
        let mut from = 0;
        for _ in 0..3 {
            let to = v.len();
            for i in from..to {
                for s in al {
                    let mut n = v[i].clone();
                    n.push(s);
                    v.push(n);
                }
            }
            from = to;
        }
        // the rest of the types, alone
        v.push(vec![Step::All(3)]);
        v.push(vec![Step::All(4)]);
        v.push(vec![Step::All(3), Step::All(3)]);
        v.push(vec![Step::All(4), Step::All(4)]);
        v.push(vec![Step::All(4), Step::All(3), Step::All(0), Step::All(4), Step::All(3)]);
        v
    })
}

impl fmt::Display for Op {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        let t = |x: u8| TNAMES.get(x as usize).copied().unwrap_or("?");
        let i = |x: u8| real_id(x);
        match self.k {
            CREATE => write!(f, "create_entity"),
            CREATE_N => write!(f, "create_entities({})", self.a),
            CREATE_WITH => {
                write!(f, "create_entity")?;
                for x in 0..NT as u8 {
                    if self.a >> x & 1 == 1 {
                        write!(f, ".attach({})", t(x))?
                    }
                }
                Ok(())
            }
            BULK => {
                write!(f, "create_entities({})", self.a)?;
                for s in &scripts()[self.script()] {
                    match s {
                        Step::All(x) => write!(f, ".attach([{};n])", t(*x))?,
                        Step::One(p, x) => write!(f, " world.attach(block[{}],{})", if *p == 255 { "last".into() } else { p.to_string() }, t(*x))?,
                        Step::Det(p, x) => write!(f, " world.detach(block[{}],{})", if *p == 255 { "last".into() } else { p.to_string() }, t(*x))?,
                    }
                }
                Ok(())
            }
            REMOVE => write!(f, "remove_entity({})", i(self.a)),
            REMOVE_H => write!(f, "entity({}).manaully_drop", i(self.a)),
            ATTACH => write!(f, "attach_component({},{})", i(self.a), t(self.b)),
            ATTACH_H => write!(f, "entity({}).attach({})", i(self.a), t(self.b)),
            DETACH => write!(f, "detach_component({},{})", i(self.a), t(self.b)),
            DETACH_H => write!(f, "entity({}).detach({})", i(self.a), t(self.b)),
            MAKE => write!(f, "make_group({})", self.group()),
            REGISTER => write!(f, "register({})", t(self.a)),
            RES_REG => write!(f, "register_resource(R{})", self.a),
            RES_WRITE => write!(f, "resource_write(R{}) = {}", self.a, self.b),
            QUERY => write!(f, "query(shape {})", self.a as usize | (self.b as usize) << 8),
            BULK_LEN => write!(f, "create_entities({}).attach([{};{}])", self.a, t(self.c), self.b),
            RECYCLE => write!(f, "remove_entity({}) create_entity", self.a),
            WRITE => write!(f, "entity_component_write({},{})", self.a, t(self.b)),
            F_ATTACH => write!(f, "{}({},{}) where the destructor of the replaced one panics", ["attach_component", "entity.attach"][self.c as usize & 1], self.a, t(self.b)),
            F_REMOVE => write!(f, "{}({}) where destructor number {} panics", ["remove_entity", "manaully_drop"][self.c as usize & 1], self.a, self.b),
            F_BULK => {
                write!(f, "create_entities({})", self.a & 15)?;
                if self.b >> 4 > 0 {
                    write!(f, ".attach([{};n])", t((self.b >> 4) - 1))?
                }
                write!(f, ", {} attached to those of {:#b}, then .attach([{};n]) where destructor number {} panics", t(self.b & 15), self.a >> 4, t(self.b & 15), self.c)
            }
            F_RES => write!(f, "register_resource(R{}) where the destructor of the replaced one panics", self.a),
            F_HOLD => match self.a {
                0 => write!(f, "panic while entity({}) is held", self.b),
                1 => write!(f, "panic while create_entities({}) is held", self.b),
                2..=5 => write!(f, "panic while {}<{}> (of {}) is held", ["component_read", "component_write", "components_read", "components_write"][self.a as usize - 2], t(self.b), self.c),
                6 | 7 => write!(f, "panic while resource_{}<R{}> is held", ["read", "write"][self.a as usize - 6], self.b),
                n => write!(f, "panic after {} steps of query shape {}", n - 8, self.b as usize | (self.c as usize) << 8),
            },
            F_CONV => match self.a {
                0 => write!(f, "create_entities({}).attach of {} where the conversion panics", self.b, t(self.c)),
                n => write!(f, "make_group({}) where conversion number {n} panics", packed_group(self.b)),
            },
            _ => write!(f, "op{:?}", self.bytes()),
        }
    }
}

#[derive(Clone, Debug, Default, PartialEq)]
pub struct Out {
    pub ids: Option<(usize, usize)>,
    pub det: Vec<Option<Val>>,
    /// tokens given to the world, in order
    pub given: Vec<u32>,
    pub panic: Option<String>,
    pub hang: bool,
    pub found: Option<bool>,
}

pub fn panic_text(e: &(dyn Any + Send)) -> String {
    if let Some(s) = e.downcast_ref::<&str>() {
        s.to_string()
    } else if let Some(s) = e.downcast_ref::<String>() {
        s.clone()
    } else {
        "panic".into()
    }
}

/// Run a call; a panic becomes (message, hang).
pub fn guarded<R>(f: impl FnOnce() -> R) -> Result<R, (String, bool)> {
    match catch_unwind(AssertUnwindSafe(f)) {
        Ok(r) => Ok(r),
        Err(e) => {
            if e.is::<Bomb>() {
                Err((BOMB.into(), false))
            } else if let Some(d) = e.downcast_ref::<parking_lot::mc::SelfDeadlock>() {
                Err((format!("waits forever for a lock it holds itself ({:?})", d.0), true))
            } else {
                Err((panic_text(&*e), false))
            }
        }
    }
}

fn give<T: Comp>(given: &mut Vec<u32>) -> T {
    let c = T::make();
    given.push(c.tok());
    c
}
fn val<T: Comp>(c: &T) -> Val {
    (c.tok(), c.val())
}

fn attach_all(w: &World, e: xecs::Entity<'_>, mask: u8, out: &mut Out) {
    let mut e = Some(e);
    let _ = w;
    for t in 0..NT {
        if mask >> t & 1 == 1 {
            let x = e.take().unwrap();
            e = Some(with_type!(t, T => { let c: T = give(&mut out.given); x.attach::<T>(c) }));
        }
    }
    out.ids = out.ids.or(e.map(|e| {
        let i = e.into_id().get();
        (i, i + 1)
    }));
}

/// A group to make. The library's own group types are Copy only when the components are, which rules
/// out components with destructors; any Copy type that turns into a group will do.
#[derive(Clone, Copy)]
struct AnyGroup(GroupId);
impl From<AnyGroup> for xecs::group::Group {
    fn from(g: AnyGroup) -> Self {
        use xecs::group::*;
        let g = g.0;
        with_type!(g.a, P => with_type!(g.b, Q => match g.kind {
            0 => full_owning::<P, Q>().into(),
            1 => partial_owning::<P, Q>().into(),
            _ => non_owning::<P, Q>().into(),
        }))
    }
}

pub fn make_group(w: &mut World, g: GroupId) {
    w.make_group(AnyGroup(g))
}

pub fn pack_group(g: GroupId) -> u8 {
    g.kind << 6 | g.a << 3 | g.b
}
pub fn packed_group(x: u8) -> GroupId {
    GroupId { kind: x >> 6, a: x >> 3 & 7, b: x & 7 }
}

/// A group whose conversion panics at the time given.
#[derive(Clone, Copy)]
struct BadGroup(GroupId);
impl From<BadGroup> for xecs::group::Group {
    fn from(g: BadGroup) -> Self {
        let r = reg();
        r.bomb = r.bomb.wrapping_sub(1);
        if r.bomb == 0 {
            boom()
        }
        AnyGroup(g.0).into()
    }
}

/// Execute an operation that needs only shared access to the world.
pub fn run_shared(w: &World, o: Op, out: &mut Out, cat: &Catalogue) {
    match o.k {
        CREATE => {
            let i = w.create_entity().into_id().get();
            out.ids = Some((i, i + 1));
        }
        CREATE_N => {
            let r = w.create_entities(o.a as usize).into_ids();
            out.ids = Some((r.start.get(), r.end.get()));
        }
        CREATE_WITH => {
            let e = w.create_entity();
            attach_all(w, e, o.a, out);
        }
        BULK | BULK_LEN => {
            let n = o.a as usize;
            let es = w.create_entities(n);
            // the ids are only readable by consuming the handle: find them through a second look
            let steps: &[Step] = if o.k == BULK { &scripts()[o.script()] } else { &[] };
            if o.k == BULK_LEN {
                with_type!(o.c, T => {
                    let v: Vec<T> = (0..o.b).map(|_| give(&mut out.given)).collect();
                    let r = es.attach::<T, _>(v).into_ids();
                    out.ids = Some((r.start.get(), r.end.get()));
                });
                return;
            }
            let needs_ids = steps.iter().any(|s| !matches!(s, Step::All(_)));
            // scripts with single-entity steps need the ids: the block starts after the highest id
            // ever returned, which `run` put into out.ids as a guess; it is verified at the end.
            let guess = out.ids.take();
            let mut es = Some(es);
            for s in steps {
                match *s {
                    Step::All(t) => with_type!(t, T => {
                        let v: Vec<T> = (0..n).map(|_| give(&mut out.given)).collect();
                        es = Some(es.take().unwrap().attach::<T, _>(v));
                    }),
                    Step::One(p, t) if n > 0 => {
                        let id = guess.unwrap().0 + if p == 255 { n - 1 } else { p as usize };
                        with_type!(t, T => { let c: T = give(&mut out.given); w.attach_component::<T>(nz(id), c) });
                    }
                    Step::Det(p, t) if n > 0 => {
                        let id = guess.unwrap().0 + if p == 255 { n - 1 } else { p as usize };
                        let d = with_type!(t, T => w.detach_component::<T>(nz(id)).as_ref().map(val));
                        out.det.push(d);
                    }
                    _ => {}
                }
            }
            let r = es.unwrap().into_ids();
            out.ids = Some((r.start.get(), r.end.get()));
            if needs_ids && guess.map(|g| g.0) != Some(r.start.get()) && n > 0 {
                // the guess was wrong: the history is outside the model
                out.found = Some(false);
            }
        }
        REMOVE => w.remove_entity(nz(real_id(o.a))),
        REMOVE_H => match w.entity(nz(real_id(o.a))) {
            Some(e) => e.manaully_drop(),
            None => panic!("no such entity"),
        },
        ATTACH => with_type!(o.b, T => { let c: T = give(&mut out.given); w.attach_component::<T>(nz(real_id(o.a)), c) }),
        ATTACH_H => match w.entity(nz(real_id(o.a))) {
            Some(e) => with_type!(o.b, T => { let c: T = give(&mut out.given); e.attach::<T>(c); }),
            None => panic!("no such entity"),
        },
        DETACH => {
            let d = with_type!(o.b, T => w.detach_component::<T>(nz(real_id(o.a))).as_ref().map(val));
            out.det.push(d);
        }
        DETACH_H => match w.entity(nz(real_id(o.a))) {
            Some(e) => {
                let d = with_type!(o.b, T => e.detach::<T>().as_ref().map(val));
                out.det.push(d);
            }
            None => panic!("no such entity"),
        },
        QUERY => {
            let s = &cat.all[o.a as usize | (o.b as usize) << 8];
            let mut it = (s.run)(w);
            let _ = it.size_hint();
        }
        RECYCLE => {
            w.remove_entity(nz(o.a as usize));
            let i = w.create_entity().into_id().get();
            out.ids = Some((i, i + 1));
        }
        WRITE => {
            let hit = with_type!(o.b, T => match w.entity_component_write::<T>(nz(o.a as usize)) {
                Some(mut g) => {
                    let p = g.val_ptr();
                    if !p.is_null() {
                        unsafe { *p = o.c as u32 }
                    }
                    true
                }
                None => false,
            });
            out.found = Some(hit);
        }
        F_ATTACH => with_type!(o.b, T => {
            let c: T = give(&mut out.given);
            let id = nz(o.a as usize);
            let e = if o.c == 1 { w.entity(id) } else { None };
            reg().bomb = 1;
            match e {
                Some(e) => { e.attach::<T>(c); }
                None => w.attach_component::<T>(id, c),
            }
        }),
        F_REMOVE => {
            let id = nz(o.a as usize);
            let e = if o.c == 1 { w.entity(id) } else { None };
            reg().bomb = o.b as u32;
            match e {
                Some(e) => e.manaully_drop(),
                None => w.remove_entity(id),
            }
        }
        F_BULK => {
            let (n, mask, t, other) = ((o.a & 15) as usize, o.a >> 4, o.b & 15, o.b >> 4);
            let start = out.ids.take().unwrap().0;
            let mut es = w.create_entities(n);
            if other > 0 {
                with_type!(other - 1, T => {
                    let v: Vec<T> = (0..n).map(|_| give(&mut out.given)).collect();
                    es = es.attach::<T, _>(v);
                });
            }
            with_type!(t, T => {
                for i in 0..n {
                    if mask >> i & 1 == 1 {
                        let c: T = give(&mut out.given);
                        w.attach_component::<T>(nz(start + i), c);
                    }
                }
                let v: Vec<T> = (0..n).map(|_| give(&mut out.given)).collect();
                reg().bomb = o.c as u32;
                es = es.attach::<T, _>(v);
            });
            let r = es.into_ids();
            out.ids = Some((r.start.get(), r.end.get()));
        }
        F_HOLD => {
            let (b, c) = (o.b as usize, o.c as usize);
            match o.a {
                0 => {
                    let _h = w.entity(nz(b));
                    boom()
                }
                1 => {
                    let h = w.create_entities(b);
                    boom();
                    let r = h.into_ids();
                    out.ids = Some((r.start.get(), r.end.get()));
                }
                2 => with_type!(b, T => { let _h = w.entity_component_read::<T>(nz(c)); boom() }),
                3 => with_type!(b, T => { let _h = w.entity_component_write::<T>(nz(c)); boom() }),
                4 => with_type!(b, T => { let _h = w.components_read::<T>(); boom() }),
                5 => with_type!(b, T => { let _h = w.components_write::<T>(); boom() }),
                6 => with_res!(b, R => { let _h = w.resource_read::<R>(); boom() }),
                7 => with_res!(b, R => { let _h = w.resource_write::<R>(); boom() }),
                k => {
                    let mut it = (cat.all[b | c << 8].run)(w);
                    for _ in 0..k - 8 {
                        it.next();
                    }
                    boom()
                }
            }
        }
        F_CONV => {
            // only the conversion of a list; making groups needs the world for itself
            struct Bad<T>(Vec<T>);
            impl<T> From<Bad<T>> for Vec<T> {
                fn from(b: Bad<T>) -> Vec<T> {
                    boom();
                    b.0
                }
            }
            let es = w.create_entities(o.b as usize);
            with_type!(o.c, T => {
                let v: Vec<T> = (0..o.b).map(|_| give(&mut out.given)).collect();
                let r = if reg().calm { es.into_ids() } else { es.attach::<T, _>(Bad(v)).into_ids() };
                out.ids = Some((r.start.get(), r.end.get()));
            });
        }
        RES_WRITE => {
            let hit = with_res!(o.a, R => w.resource_write::<R>().map(|mut r| r.set(o.b as u32)).is_some());
            out.found = Some(hit);
        }
        _ => unreachable!("not a shared operation"),
    }
}

pub fn run(w: &mut World, m: &Model, o: Op, cat: &Catalogue) -> Out {
    let mut out = Out::default();
    if o.k == BULK || o.k == F_BULK {
        let next = (1..=MAXID + 1).find(|i| !m.was_ever(*i)).unwrap();
        out.ids = Some((next, next + o.a as usize));
    }
    reg().exploded = false;
    let r = guarded(|| match o.k {
        MAKE => make_group(w, o.group()),
        REGISTER => with_type!(o.a, T => { w.register::<T>(); }),
        RES_REG => with_res!(o.a, R => { let r = R::make(); out.given.push(r.tok()); w.register_resource::<R>(r) }),
        F_RES => with_res!(o.a, R => { let r = R::make(); out.given.push(r.tok()); reg().bomb = 1; w.register_resource::<R>(r) }),
        F_CONV if o.a > 0 => {
            if !reg().calm {
                reg().bomb = o.a as u32;
                w.make_group(BadGroup(packed_group(o.b)))
            }
        }
        _ => run_shared(w, o, &mut out, cat),
    });
    if let Err((msg, hang)) = r {
        if out.panic.is_none() {
            out.panic = Some(msg);
        }
        out.hang = hang;
        if o.k == BULK || o.k == BULK_LEN || o.k >= F_ATTACH {
            // the handle is gone with the call: find the block it denoted by asking
            out.ids = None;
            if !hang {
                let new: Vec<usize> = guarded(|| (1..=MAXID).filter(|i| !m.is_alive(*i) && w.exist(nz(*i))).collect()).unwrap_or_default();
                if let (Some(s), Some(e)) = (new.first(), new.last()) {
                    if e - s + 1 == new.len() {
                        out.ids = Some((*s, *e + 1));
                    }
                }
            }
        }
    }
    if o.k >= F_ATTACH {
        reg().bomb = 0;
    }
    out
}

/// Would the model refuse this operation?
pub fn refused(m: &Model, o: Op, cat: &Catalogue) -> bool {
    let id = real_id(o.a);
    match o.k {
        REMOVE | REMOVE_H | RECYCLE => !m.is_alive(id),
        ATTACH | ATTACH_H | DETACH | DETACH_H => !m.is_alive(id) || !m.registered(o.b as usize),
        MAKE => !m.admits(o.group()),
        REGISTER => m.registered(o.a as usize),
        QUERY => !cat.all[o.a as usize | (o.b as usize) << 8].accepted(m),
        BULK_LEN => o.a != o.b || !m.registered(o.c as usize),
        BULK => scripts()[o.script()].iter().any(|s| match s {
            Step::All(t) => !m.registered(*t as usize),
            Step::One(_, t) | Step::Det(_, t) => o.a > 0 && !m.registered(*t as usize),
        }),
        CREATE_WITH => o.a & !m.reg != 0,
        _ => false,
    }
}

fn adopt(m: &mut Model, o: Op, ids: (usize, usize), rep: &mut Rep) -> bool {
    let (s, e) = ids;
    let want = match o.k {
        CREATE_N | BULK | BULK_LEN => o.a as usize,
        _ => 1,
    };
    if e.wrapping_sub(s) != want {
        rep.issue(Tag::IdChoice, || format!("{o} returned the range {s}..{e}, not {want} ids"));
        return false;
    }
    let single = matches!(o.k, CREATE | CREATE_WITH | RECYCLE);
    let free: Vec<usize> = (1..=MAXID).filter(|i| m.was_ever(*i) && !m.is_alive(*i)).collect();
    let next = (1..).find(|i| !m.was_ever(*i)).unwrap();
    for id in s..e {
        if m.is_alive(id) {
            rep.issue(Tag::Alive, || format!("{o} returned id {id}, which is alive"));
            return false;
        }
    }
    if single {
        if !free.is_empty() && !free.contains(&s) {
            rep.issue(Tag::IdChoice, || format!("{o} returned the new id {s} although {free:?} are free"));
        } else if free.is_empty() && s != next {
            rep.issue(Tag::IdChoice, || format!("{o} returned {s}, not the next id {next}"));
        }
    }
    if s == 0 || e > MAXID + 1 {
        // ids the model cannot follow
        rep.issue(Tag::IdChoice, || format!("{o} returned {s}..{e}; the next new id is {next}"));
        return false;
    }
    for id in s..e {
        m.born(id);
    }
    true
}

/// Update the model after an operation; false when the history cannot be followed any further.
pub fn apply(m: &mut Model, o: Op, out: &Out, rep: &mut Rep, cat: &Catalogue) -> bool {
    if out.hang {
        rep.issue(Tag::Hang, || format!("{o} {}", out.panic.clone().unwrap_or_default()));
        return false;
    }
    if o.k >= F_ATTACH {
        return apply_fault(m, o, out, rep);
    }
    let r = refused(m, o, cat);
    match (&out.panic, r) {
        (Some(p), false) => {
            let tag = if o.k == MAKE { Tag::Admission } else { Tag::Panic };
            if !rep.issue(tag, || format!("{o} panicked: {p}")) && tag == Tag::Admission {
                rep.issue(Tag::Panic, || format!("{o} panicked: {p}"));
            }
            return false;
        }
        (None, true) => {
            let tag = match o.k {
                MAKE => Tag::Admission,
                QUERY => Tag::QueryAccept,
                _ => Tag::NotRefused,
            };
            let msg = || format!("{o} was not refused");
            if !rep.issue(tag, msg) && tag != Tag::NotRefused {
                rep.issue(Tag::NotRefused, msg);
            }
            return false;
        }
        (Some(_), true) => {
            if o.k == BULK_LEN || o.k == BULK {
                // the block itself was created; which ids it has is not told, they are the new ones
                // (a refused BULK with several steps keeps the steps before the refused one)
                return follow_refused_bulk(m, o, out, rep);
            }
            if o.k == CREATE_WITH {
                return false;
            }
            return true;
        }
        (None, false) => {}
    }
    let id = real_id(o.a);
    let mut given = out.given.iter().copied();
    match o.k {
        CREATE | CREATE_N => return adopt(m, o, out.ids.unwrap(), rep),
        CREATE_WITH => {
            let ids = out.ids.unwrap();
            if !adopt(m, o, ids, rep) {
                return false;
            }
            for t in 0..NT {
                if o.a >> t & 1 == 1 {
                    m.set(ids.0, t, given.next().unwrap());
                }
            }
        }
        BULK | BULK_LEN => {
            let ids = out.ids.unwrap();
            if out.found == Some(false) {
                return false;
            }
            if !adopt(m, o, ids, rep) {
                return false;
            }
            if o.k == BULK_LEN {
                for id in ids.0..ids.1 {
                    m.set(id, o.c as usize, given.next().unwrap());
                }
                return true;
            }
            let n = o.a as usize;
            let mut det = out.det.iter();
            for s in &scripts()[o.script()] {
                match *s {
                    Step::All(t) => {
                        for id in ids.0..ids.1 {
                            m.set(id, t as usize, given.next().unwrap());
                        }
                    }
                    Step::One(p, t) if n > 0 => {
                        let id = ids.0 + if p == 255 { n - 1 } else { p as usize };
                        m.set(id, t as usize, given.next().unwrap());
                    }
                    Step::Det(p, t) if n > 0 => {
                        let id = ids.0 + if p == 255 { n - 1 } else { p as usize };
                        let want = m.unset(id, t as usize);
                        let got = *det.next().unwrap();
                        if want != got {
                            rep.issue(Tag::Detach, || format!("{o}: detach({id},{}) returned {got:?}, expected {want:?}", TNAMES[t as usize]));
                        }
                    }
                    _ => {}
                }
            }
        }
        REMOVE | REMOVE_H => m.kill(id),
        RECYCLE => {
            m.kill(id);
            return adopt(m, o, out.ids.unwrap(), rep);
        }
        ATTACH | ATTACH_H => {
            m.set(id, o.b as usize, given.next().unwrap());
        }
        DETACH | DETACH_H => {
            let want = m.unset(id, o.b as usize);
            let got = out.det[0];
            if want != got {
                rep.issue(Tag::Detach, || format!("{o} returned {got:?}, expected {want:?}"));
            }
        }
        MAKE => m.add_group(o.group()),
        REGISTER => m.reg |= 1 << o.a,
        RES_REG => m.res[o.a as usize] = Some((out.given[0], 0)),
        RES_WRITE => {
            let want = m.res[o.a as usize].is_some();
            if out.found != Some(want) {
                rep.issue(Tag::Resource, || format!("{o} found a resource: {:?}, expected {want}", out.found));
            }
            if let Some(r) = &mut m.res[o.a as usize] {
                if r.0 != 0 {
                    r.1 = o.b as u32;
                }
            }
        }
        WRITE => {
            let want = m.comp(id, o.b as usize).is_some();
            if out.found != Some(want) {
                rep.issue(Tag::Read, || format!("{o} found a component: {:?}, expected {want}", out.found));
            }
            if want {
                m.set_val(id, o.b as usize, o.c as u32);
            }
        }
        _ => {}
    }
    true
}

fn follow_refused_bulk(m: &mut Model, o: Op, out: &Out, rep: &mut Rep) -> bool {
    if o.k == BULK && scripts()[o.script()].len() > 1 {
        return false;
    }
    match out.ids {
        Some(ids) => adopt(m, Op { k: CREATE_N, ..o }, ids, rep),
        None => o.a == 0,
    }
}

/// After a call in which code of the user panicked: a destructor leaves the call complete, a conversion
/// leaves it undone.
fn apply_fault(m: &mut Model, o: Op, out: &Out, rep: &mut Rep) -> bool {
    match &out.panic {
        Some(p) if p != BOMB => {
            rep.issue(Tag::Panic, || format!("{o} failed in another way: {p}"));
            return false;
        }
        None if reg().exploded => {
            rep.issue(Tag::Swallowed, || format!("{o}: the panic does not reach the caller"));
            return false;
        }
        _ => {}
    }
    let id = o.a as usize;
    let mut given = out.given.iter().copied();
    match o.k {
        F_ATTACH => {
            m.set(id, o.b as usize, given.next().unwrap());
        }
        F_REMOVE => m.kill(id),
        F_RES => m.res[id] = Some((out.given[0], 0)),
        F_BULK => {
            let (n, mask, t, other) = ((o.a & 15) as usize, o.a >> 4, (o.b & 15) as usize, (o.b >> 4) as usize);
            let Some(ids) = out.ids else {
                rep.issue(Tag::Exist, || format!("{o}: afterwards there is no block of new entities"));
                return false;
            };
            if !adopt(m, op(CREATE_N, n, 0, 0), ids, rep) {
                return false;
            }
            if other > 0 {
                for i in ids.0..ids.1 {
                    m.set(i, other - 1, given.next().unwrap());
                }
            }
            let given = given.skip(mask.count_ones() as usize);
            for (i, tok) in (ids.0..ids.1).zip(given) {
                m.set(i, t, tok);
            }
        }
        F_HOLD if o.a == 1 => return block_left(m, o, out, rep),
        F_CONV if o.a == 0 => return block_left(m, o, out, rep),
        F_CONV if out.panic.is_none() && !reg().calm => m.add_group(packed_group(o.b)),
        _ => {}
    }
    true
}

fn block_left(m: &mut Model, o: Op, out: &Out, rep: &mut Rep) -> bool {
    match out.ids {
        Some(ids) => adopt(m, op(CREATE_N, o.b as usize, 0, 0), ids, rep),
        None if o.b == 0 => true,
        None => {
            rep.issue(Tag::Exist, || format!("{o}: afterwards there is no block of new entities"));
            false
        }
    }
}
