//! Worlds of many component types, many groups and many resource types: every number of types from a
//! list, every way to arrange groups over them, and every short script of operations.

use crate::hand::Hand;
use crate::bfs::{Stats, Viol};
use crate::exec::*;
use crate::model::Val;
use crate::obs::read_errors;
use crate::seqjobs::GROUPS;
use crate::tok::*;
use crate::trace::Trace;
use std::any::TypeId;
use std::collections::{BTreeMap, BTreeSet};
use std::fmt;
use std::mem::ManuallyDrop;
use std::sync::mpsc;
use xecs::group::{full_owning, non_owning, partial_owning, FullOwning, Group, NonOwning, PartialOwning};
use xecs::query::{QueryIterator, Without};
use xecs::{Entities, World};

/// How many types there are; one more is never registered.
pub const MAX: usize = 40;
/// Their first index among the kinds of tracked values.
const BASE: usize = 100;

/// Component type number N, of one of the layouts below: F<N, L>.
pub struct F<const N: usize, L: Layout>(L);

/// How a value is laid out around the part that is tracked.
pub trait Layout: Send + Sync + 'static {
    fn wrap(t: Tok) -> Self;
    fn tok(&self) -> &Tok;
    fn tok_mut(&mut self) -> &mut Tok;
    /// Is everything else as it was made?
    fn whole(&self) -> bool {
        true
    }
}
impl Layout for Tok {
    fn wrap(t: Tok) -> Tok {
        t
    }
    fn tok(&self) -> &Tok {
        self
    }
    fn tok_mut(&mut self) -> &mut Tok {
        self
    }
}
/// Larger than any buffer or register.
pub struct Large([u64; 37], Tok, [u64; 5]);
impl Layout for Large {
    fn wrap(t: Tok) -> Large {
        let n = t.id() as u64;
        Large([n; 37], t, [n; 5])
    }
    fn tok(&self) -> &Tok {
        &self.1
    }
    fn tok_mut(&mut self) -> &mut Tok {
        &mut self.1
    }
    fn whole(&self) -> bool {
        let n = self.1.id() as u64;
        self.0 == [n; 37] && self.2 == [n; 5]
    }
}
#[repr(align(128))]
pub struct Aligned(Tok, u8);
impl Layout for Aligned {
    fn wrap(t: Tok) -> Aligned {
        let n = t.id() as u8;
        Aligned(t, n)
    }
    fn tok(&self) -> &Tok {
        &self.0
    }
    fn tok_mut(&mut self) -> &mut Tok {
        &mut self.0
    }
    fn whole(&self) -> bool {
        self.1 == self.0.id() as u8 && self as *const Aligned as usize % 128 == 0
    }
}
/// An odd number of words, and a niche.
pub struct Odd(Tok, Option<Box<u32>>, [u8; 3], bool);
impl Layout for Odd {
    fn wrap(t: Tok) -> Odd {
        let n = t.id();
        Odd(t, (n % 2 == 0).then(|| Box::new(n)), [n as u8; 3], true)
    }
    fn tok(&self) -> &Tok {
        &self.0
    }
    fn tok_mut(&mut self) -> &mut Tok {
        &mut self.0
    }
    fn whole(&self) -> bool {
        let n = self.0.id();
        self.1.as_deref().copied() == (n % 2 == 0).then_some(n) && self.2 == [n as u8; 3] && self.3
    }
}
impl Layout for Box<Tok> {
    fn wrap(t: Tok) -> Box<Tok> {
        Box::new(t)
    }
    fn tok(&self) -> &Tok {
        self
    }
    fn tok_mut(&mut self) -> &mut Tok {
        self
    }
}

/// Without destructor.
pub struct Plain(ManuallyDrop<Tok>);
impl Layout for Plain {
    fn wrap(t: Tok) -> Plain {
        reg().plain(t.id());
        Plain(ManuallyDrop::new(t))
    }
    fn tok(&self) -> &Tok {
        &self.0
    }
    fn tok_mut(&mut self) -> &mut Tok {
        &mut self.0
    }
}
/// Neither size nor destructor, as many marker components.
pub struct Unit<const N: usize>;
impl<const N: usize> One for Unit<N> {
    fn make() -> Self {
        Unit
    }
    fn v(&self) -> Val {
        (UNIT + N as u32, 0)
    }
    fn set(&mut self, _: u32) {}
    fn id(&self) -> u32 {
        UNIT + N as u32
    }
}
/// What the values of these types show instead of an identity.
const UNIT: u32 = 1_000_000;
fn unit(t: usize) -> bool {
    t % 7 == 6
}
/// Do values of the type have a destructor?
fn dropped(t: usize) -> bool {
    t % 7 < 5
}

impl<const N: usize, L: Layout> F<N, L> {
    fn make() -> Self {
        F(L::wrap(Tok::new(BASE + N)))
    }
    fn v(&self) -> Val {
        let t = self.0.tok();
        t.check(BASE + N);
        (t.id(), if self.0.whole() { t.val } else { u32::MAX })
    }
    fn set(&mut self, x: u32) {
        self.0.tok_mut().val = x
    }
    fn id(&self) -> u32 {
        self.0.tok().id()
    }
}
/// The types by their numbers.
trait At {
    type T: One;
}
struct No<const N: usize>;
/// What the table needs of a component type.
trait One: Send + Sync + 'static {
    fn make() -> Self;
    fn v(&self) -> Val;
    fn set(&mut self, x: u32);
    fn id(&self) -> u32;
}
impl<const N: usize, L: Layout> One for F<N, L> {
    fn make() -> Self {
        F::make()
    }
    fn v(&self) -> Val {
        F::v(self)
    }
    fn set(&mut self, x: u32) {
        F::set(self, x)
    }
    fn id(&self) -> u32 {
        F::id(self)
    }
}
macro_rules! at { ($l:ty: $($n:literal)*) => { $(impl At for No<$n> { type T = F<$n, $l>; })* } }
// types that differ in nothing but their identity, not even in the name `type_name` gives them
macro_rules! same {
    ($($n:literal)*) => {
        #[allow(dead_code)]
        fn same() {
            $({
                struct Same(Tok);
                impl One for Same {
                    fn make() -> Self {
                        Same(Tok::new(BASE + $n))
                    }
                    fn v(&self) -> Val {
                        self.0.check(BASE + $n);
                        (self.0.id(), self.0.val)
                    }
                    fn set(&mut self, x: u32) {
                        self.0.val = x
                    }
                    fn id(&self) -> u32 {
                        self.0.id()
                    }
                }
                impl At for No<$n> {
                    type T = Same;
                }
            })*
            $({
                struct SameResource(Tok);
                impl One for SameResource {
                    fn make() -> Self {
                        SameResource(Tok::new(BASE + MAX + 1 + $n))
                    }
                    fn v(&self) -> Val {
                        self.0.check(BASE + MAX + 1 + $n);
                        (self.0.id(), self.0.val)
                    }
                    fn set(&mut self, x: u32) {
                        self.0.val = x
                    }
                    fn id(&self) -> u32 {
                        self.0.id()
                    }
                }
                impl Resource for No<$n> {
                    type R = SameResource;
                }
            })*
        }
    };
}
same!(0 7 14 21 28 35);
at!(Large: 1 8 15 22 29 36);
at!(Aligned: 2 9 16 23 30 37);
at!(Odd: 3 10 17 24 31 38);
at!(Box<Tok>: 4 11 18 25 32 39);
at!(Plain: 5 12 19 26 33 40);
macro_rules! unit_at { ($($n:literal)*) => { $(impl At for No<$n> { type T = Unit<$n>; })* } }
unit_at!(6 13 20 27 34);

/// The resource types by their numbers.
trait Resource {
    type R: One;
}
/// Resource type number N.
pub struct Q<const N: usize>(Tok);
impl<const N: usize> One for Q<N> {
    fn make() -> Self {
        Q(Tok::new(BASE + MAX + 1 + N))
    }
    fn v(&self) -> Val {
        self.0.check(BASE + MAX + 1 + N);
        (self.0.id(), self.0.val)
    }
    fn set(&mut self, x: u32) {
        self.0.val = x
    }
    fn id(&self) -> u32 {
        self.0.id()
    }
}
macro_rules! res_at { ($($n:literal)*) => { $(impl Resource for No<$n> { type R = Q<$n>; })* } }
res_at!(1 2 3 4 5 6 8 9 10 11 12 13 15 16 17 18 19 20 22 23 24 25 26 27 29 30 31 32 33 34 36 37 38 39 40);

type Hit = (usize, Vec<Val>);

struct Ty {
    id: TypeId,
    register: fn(&mut World),
    registered: fn(&World) -> bool,
    attach: fn(&World, usize, &mut u32),
    detach: fn(&World, usize) -> Option<Val>,
    read: fn(&World, usize) -> Option<Val>,
    write: fn(&World, usize, u32) -> Option<Val>,
    sto: fn(&World) -> Option<Vec<Val>>,
    sto_ids: fn(&World, usize) -> bool,
    sto_write: fn(&World, usize, u32),
    query: fn(&World) -> Vec<Hit>,
    query_write: fn(&World, usize, u32),
    bulk: for<'w> fn(Entities<'w>, usize, &mut Vec<u32>) -> Entities<'w>,
    res_put: fn(&mut World) -> u32,
    res_get: fn(&World) -> Option<Val>,
    res_set: fn(&World, u32) -> bool,
}

fn all<'a, I: QueryIterator>(mut it: I, f: impl Fn(I::Item) -> Vec<Val> + 'a) -> Vec<Hit> {
    let mut v = vec![];
    while let Some((id, x)) = it.next_with_id() {
        v.push((id.get(), f(x)));
        if v.len() > 64 {
            break;
        }
    }
    v
}

fn ty<T: One, Q: One>() -> Ty {
    Ty {
        id: TypeId::of::<T>(),
        register: |w| {
            w.register::<T>();
        },
        registered: |w| w.has_registered::<T>(),
        attach: |w, e, t| {
            let c = T::make();
            *t = c.id();
            w.attach_component(nz(e), c)
        },
        detach: |w, e| w.detach_component::<T>(nz(e)).map(|c| c.v()),
        read: |w, e| w.entity_component_read::<T>(nz(e)).map(|c| c.v()),
        write: |w, e, x| {
            w.entity_component_write::<T>(nz(e)).map(|mut c| {
                c.set(x);
                c.v()
            })
        },
        sto: |w| w.components_read::<T>().map(|s| s.data().iter().map(|c| c.v()).collect()),
        sto_ids: |w, e| w.components_read::<T>().is_some_and(|s| s.exist(nz(e))),
        sto_write: |w, n, x| {
            if let Some(mut s) = w.components_write::<T>() {
                if let Some(c) = s.data_mut().get_mut(n) {
                    c.set(x)
                }
            }
        },
        query: |w| all(w.query::<&T>(), |c| vec![c.v()]),
        query_write: |w, e, x| {
            if let Some(c) = w.query::<&mut T>().from_id(nz(e)) {
                c.set(x)
            }
        },
        bulk: |b, n, given| {
            let v: Vec<T> = (0..n).map(|_| T::make()).collect();
            given.extend(v.iter().map(|c| c.id()));
            b.attach::<T, _>(v)
        },
        res_put: |w| {
            let q = Q::make();
            let t = q.id();
            w.register_resource(q);
            t
        },
        res_get: |w| w.resource_read::<Q>().map(|q| q.v()),
        res_set: |w, x| w.resource_write::<Q>().map(|mut q| q.set(x)).is_some(),
    }
}

/// Into a group, whatever the components are.
#[derive(Clone, Copy)]
struct Mk(fn() -> Group);
impl From<Mk> for Group {
    fn from(m: Mk) -> Group {
        (m.0)()
    }
}

/// What can be done with two of the types, through a group of each kind or without one.
struct Pair {
    make: [fn(&mut World); 3],
    query: [fn(&World) -> Vec<Hit>; 3],
    by_id: [fn(&World, usize) -> Option<Vec<Val>>; 3],
    write: [fn(&World, usize, u32); 3],
    both: fn(&World) -> Vec<Hit>,
    without: fn(&World) -> Vec<Hit>,
}
fn pair<X: One, Y: One>() -> Pair {
    macro_rules! q {
        ($g:ident) => {
            |w| all(w.query::<$g<&X, &Y>>(), |(a, b)| vec![a.v(), b.v()])
        };
    }
    macro_rules! b {
        ($g:ident) => {
            |w, e| w.query::<$g<&X, &Y>>().from_id(nz(e)).map(|(a, b)| vec![a.v(), b.v()])
        };
    }
    macro_rules! w {
        ($g:ident) => {
            |w, e, x| {
                if let Some((a, b)) = w.query::<$g<&mut X, &mut Y>>().from_id(nz(e)) {
                    a.set(x);
                    b.set(x + 1);
                }
            }
        };
    }
    Pair {
        make: [|w| w.make_group(Mk(|| full_owning::<X, Y>().into())), |w| w.make_group(Mk(|| partial_owning::<X, Y>().into())), |w| w.make_group(Mk(|| non_owning::<X, Y>().into()))],
        query: [q!(FullOwning), q!(PartialOwning), q!(NonOwning)],
        by_id: [b!(FullOwning), b!(PartialOwning), b!(NonOwning)],
        write: [w!(FullOwning), w!(PartialOwning), w!(NonOwning)],
        both: |w| all(w.query::<(&X, &Y)>(), |(a, b)| vec![a.v(), b.v()]),
        without: |w| all(w.query::<(&X, Without<&Y>)>(), |a| vec![a.v()]),
    }
}

struct Table {
    ty: Vec<Ty>,
    pairs: BTreeMap<(usize, usize), Pair>,
}
fn table() -> Table {
    macro_rules! types { ($($n:literal)*) => { vec![$(ty::<<No<$n> as At>::T, <No<$n> as Resource>::R>()),*] } }
    let ty = types!(0 1 2 3 4 5 6 7 8 9 10 11 12 13 14 15 16 17 18 19 20 21 22 23 24 25 26 27 28 29 30 31 32 33 34 35 36 37 38 39 40);
    let mut pairs = BTreeMap::new();
    macro_rules! next { ($($n:literal)*) => { $(pairs.insert(($n, $n + 1), pair::<<No<$n> as At>::T, <No<{ $n + 1 }> as At>::T>());)* } }
    next!(0 1 2 3 4 5 6 7 8 9 10 11 12 13 14 15 16 17 18 19 20 21 22 23 24 25 26 27 28 29 30 31 32 33 34 35 36 37 38);
    macro_rules! star { ($($n:literal)*) => { $(pairs.insert((0, $n), pair::<<No<0> as At>::T, <No<$n> as At>::T>());)* } }
    star!(2 3 4 5 6 7 8 9 10 11 12 13 14 15 16 17 18 19 20 21 22 23 24 25 26 27 28 29 30 31 32 33 34 35 36 37 38 39);
    Table { ty, pairs }
}

/// A group: kind and the two types.
type Gr = (usize, usize, usize);

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Arr {
    No,
    /// full-owning, of neighbours, disjoint
    Fulls,
    /// partial-owning, of neighbours, a chain
    Partials,
    /// non-owning, of neighbours, a chain
    Nons,
    /// non-owning, of the first type and every other
    Star,
    /// the three kinds in turn along the types
    Mixed,
    /// full-owning pairs with the non-owning groups across them, and a partial one at the end
    Laid,
}
fn groups(a: Arr, k: usize) -> Vec<Gr> {
    match a {
        Arr::No => vec![],
        Arr::Fulls => (0..k - 1).step_by(2).map(|i| (0, i, i + 1)).collect(),
        Arr::Partials => (0..k - 1).map(|i| (1, i, i + 1)).collect(),
        Arr::Nons => (0..k - 1).map(|i| (2, i, i + 1)).collect(),
        Arr::Star => (1..k).map(|j| (2, 0, j)).collect(),
        Arr::Mixed => {
            let mut v = vec![];
            let mut i = 0;
            while i + 1 < k {
                match i % 5 {
                    0 => {
                        v.push((0, i, i + 1));
                        if i + 2 < k {
                            v.push((2, i + 1, i + 2));
                        }
                        i += 2
                    }
                    n => {
                        v.push((if n == 3 { 2 } else { 1 }, i, i + 1));
                        i += 1
                    }
                }
            }
            v
        }
        Arr::Laid => {
            let mut v: Vec<Gr> = vec![];
            for i in (1..k - 1).step_by(2) {
                v.push((2, i, i + 1));
            }
            for i in (0..k - 1).step_by(2).rev() {
                v.push((0, i, i + 1));
            }
            if k % 2 == 1 {
                // the last type is owned by nothing yet
                v.push((2, 0, k - 1));
            }
            v
        }
    }
}
const KIND: [&str; 3] = ["full", "partial", "non"];
fn kind_tag(k: usize) -> Tag {
    [Tag::GroupFull, Tag::GroupPartial, Tag::GroupNon][k]
}

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum W {
    Attach(usize, Tn),
    Detach(usize, Tn),
    Remove(usize),
    RemoveH(usize),
    Create,
    /// two entities with every type
    Bulk,
    /// write to a component along every path in turn
    Write(usize, Tn),
    /// refused calls, one of each kind
    BadAttach(usize),
    BadDetach(usize),
    BadRegister(Tn),
    BadGroup,
    BadBulk,
    BadId,
    Resource(Tn),
    /// removal in which the destructor called as number n (as counted by the type) panics
    Boom(usize, Tn),
}
/// Which type.
#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Tn {
    First,
    Second,
    Mid,
    Before,
    Last,
}
const TS: [Tn; 5] = [Tn::First, Tn::Second, Tn::Mid, Tn::Before, Tn::Last];
impl Tn {
    fn of(self, k: usize) -> usize {
        match self {
            Tn::First => 0,
            Tn::Second => 1,
            Tn::Mid => k / 2,
            Tn::Before => k - 2,
            Tn::Last => k - 1,
        }
    }
}
impl fmt::Display for W {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        write!(f, "{self:?}")
    }
}

pub struct Wide {
    pub name: String,
    pub mon: u32,
    pub k: usize,
    pub arrs: Vec<Arr>,
    pub scripts: Vec<Vec<W>>,
    pub drops: bool,
    pub only_groups: bool,
    /// two worlds side by side, used from two threads in turn and moved about
    pub duo: bool,
}

#[derive(Default)]
struct M {
    alive: BTreeSet<usize>,
    comps: BTreeMap<(usize, usize), Val>,
    groups: Vec<Gr>,
    res: BTreeMap<usize, Val>,
    /// the largest id ever handed out
    ever: usize,
}
impl M {
    fn has(&self, e: usize, t: usize) -> Option<Val> {
        self.comps.get(&(e, t)).copied()
    }
    /// The values the world owns.
    fn owned(&self) -> Vec<(u32, usize)> {
        self.comps.iter().filter(|(k, _)| dropped(k.1)).map(|(k, v)| (v.0, BASE + k.1)).chain(self.res.iter().map(|(k, v)| (v.0, BASE + MAX + 1 + k))).collect()
    }
    fn set(&mut self, e: usize, t: usize, x: u32) {
        if !unit(t) {
            if let Some(c) = self.comps.get_mut(&(e, t)) {
                c.1 = x
            }
        }
    }
    fn both(&self, i: usize, j: usize) -> Vec<Hit> {
        self.alive.iter().filter_map(|e| Some((*e, vec![self.has(*e, i)?, self.has(*e, j)?]))).collect()
    }
}

/// Which of the k types entity e of the first five has.
fn starts(e: usize, t: usize) -> bool {
    match e {
        1 => true,
        2 => t % 2 == 0,
        3 => t % 2 == 1,
        4 => t % 3 == 0 || t % 3 == 1,
        _ => false,
    }
}

struct Run<'a> {
    b: &'a Wide,
    t: &'a Table,
    w: World,
    m: M,
    rep: &'a mut Rep,
    ops: u64,
    /// the live values of the other world
    beside: Vec<(u32, usize)>,
}

impl Run<'_> {
    fn call<R>(&mut self, what: &dyn fmt::Display, f: impl FnOnce(&mut World, &Table) -> R) -> Result<R, ()> {
        self.ops += 1;
        let (w, t) = (&mut self.w, self.t);
        match guarded(|| f(w, t)) {
            Ok(r) => Ok(r),
            Err((e, hang)) => {
                self.rep.issue(if hang { Tag::Hang } else { Tag::Panic }, || format!("{what}: {e}"));
                Err(())
            }
        }
    }
    fn refused(&mut self, what: &dyn fmt::Display, f: impl FnOnce(&mut World, &Table)) -> Result<(), ()> {
        self.ops += 1;
        let (w, t) = (&mut self.w, self.t);
        match guarded(|| f(w, t)) {
            Ok(()) => {
                self.rep.issue(Tag::NotRefused, || format!("{what} is not refused"));
                Err(())
            }
            Err((e, true)) => {
                self.rep.issue(Tag::Hang, || format!("{what}: {e}"));
                Err(())
            }
            Err(_) => Ok(()),
        }
    }
    fn attach(&mut self, e: usize, t: usize) -> Result<(), ()> {
        let tok = self.call(&format!("attach type {t} to {e}"), |w, x| {
            let mut tok = 0;
            (x.ty[t].attach)(w, e, &mut tok);
            tok
        })?;
        self.m.comps.insert((e, t), (tok, 0));
        Ok(())
    }
    fn detach(&mut self, e: usize, t: usize) -> Result<(), ()> {
        let got = self.call(&format!("detach type {t} from {e}"), |w, x| (x.ty[t].detach)(w, e))?;
        let want = self.m.comps.remove(&(e, t));
        if got != want {
            self.rep.issue(Tag::Detach, || format!("detach type {t} from {e} gives {got:?}, expected {want:?}"));
            return Err(());
        }
        Ok(())
    }
    fn create(&mut self) -> Result<usize, ()> {
        let id = self.call(&"create", |w, _| w.create_entity().into_id().get())?;
        if !self.m.alive.insert(id) {
            self.rep.issue(Tag::Alive, || format!("create gives {id}, which is alive"));
            return Err(());
        }
        let free = (1..=self.m.ever).filter(|x| !self.m.alive.contains(x) || *x == id).count();
        if free > 0 && id > self.m.ever || free == 0 && id != self.m.ever + 1 {
            let ever = self.m.ever;
            self.rep.issue(Tag::IdChoice, || format!("create gives {id} although {free} of the ids up to {ever} are free"));
            return Err(());
        }
        self.m.ever = self.m.ever.max(id);
        Ok(id)
    }
    fn make(&mut self, a: Arr) -> Result<(), ()> {
        for (kind, i, j) in groups(a, self.b.k) {
            let r = guarded(|| (self.t.pairs[&(i, j)].make[kind])(&mut self.w));
            self.ops += 1;
            if let Err((e, hang)) = r {
                self.rep.issue(if hang { Tag::Hang } else { Tag::Admission }, || format!("making the {} group of types {i} and {j} fails: {e}", KIND[kind]));
                return Err(());
            }
            self.m.groups.push((kind, i, j));
        }
        Ok(())
    }
    fn start(&mut self, arr: Arr, after: bool, back: bool) -> Result<(), ()> {
        let k = self.b.k;
        for t in 0..k {
            let t = if back { k - 1 - t } else { t };
            self.call(&"register", |w, x| (x.ty[t].register)(w))?;
        }
        if !after {
            self.make(arr)?;
        }
        for e in 1..=5 {
            let id = self.create()?;
            if id != e {
                self.rep.issue(Tag::IdChoice, || format!("the first ids are not 1 to 5: {id}"));
                return Err(());
            }
        }
        for t in 0..k {
            for e in 1..=4 {
                if starts(e, t) {
                    self.attach(e, t)?;
                }
            }
        }
        if after {
            self.make(arr)?;
        }
        Ok(())
    }
    fn scenario(&mut self, arr: Arr, after: bool, back: bool, script: &[W]) -> Result<(), ()> {
        self.start(arr, after, back)?;
        self.look(" at the start")?;
        for (n, s) in script.iter().enumerate() {
            self.step(*s)?;
            self.look(&format!(" after step {}", n + 1))?;
        }
        Ok(())
    }
    fn step(&mut self, s: W) -> Result<(), ()> {
        let k = self.b.k;
        let exists = |m: &M, e: usize| m.alive.contains(&e);
        match s {
            W::Attach(e, t) if exists(&self.m, e) => self.attach(e, t.of(k))?,
            W::Attach(e, t) => self.refused(&format!("{s}"), |w, x| (x.ty[t.of(k)].attach)(w, e, &mut 0))?,
            W::Detach(e, t) if exists(&self.m, e) => self.detach(e, t.of(k))?,
            W::Detach(e, t) => self.refused(&format!("{s}"), |w, x| {
                (x.ty[t.of(k)].detach)(w, e);
            })?,
            W::Remove(e) | W::RemoveH(e) if exists(&self.m, e) => {
                self.call(&s, |w, _| if matches!(s, W::Remove(_)) { w.remove_entity(nz(e)) } else { w.entity(nz(e)).expect("alive").manaully_drop() })?;
                self.m.alive.remove(&e);
                for t in 0..k {
                    self.m.comps.remove(&(e, t));
                }
            }
            W::Boom(e, n) if exists(&self.m, e) => {
                let has = (0..k).filter(|t| dropped(*t) && self.m.has(e, *t).is_some()).count();
                reg().bomb = n.of(k) as u32 + 1;
                let r = guarded(|| self.w.remove_entity(nz(e)));
                reg().bomb = 0;
                self.ops += 1;
                match r {
                    Err((ref e, false)) if e == BOMB && n.of(k) < has => {}
                    Ok(()) if n.of(k) >= has => {}
                    _ => {
                        self.rep.issue(Tag::Swallowed, || format!("{s}: removal ends with {r:?} although one of its {has} destructors panics, or none does"));
                        return Err(());
                    }
                }
                self.m.alive.remove(&e);
                for t in 0..k {
                    self.m.comps.remove(&(e, t));
                }
            }
            W::Boom(e, _) | W::Remove(e) | W::RemoveH(e) => self.refused(&format!("{s}"), |w, _| w.remove_entity(nz(e)))?,
            W::Create => {
                let e = self.create()?;
                for t in 0..k {
                    self.attach(e, t)?;
                }
            }
            W::Bulk => {
                let (ids, given) = self.call(&s, |w, x| {
                    let mut given = vec![];
                    let mut b = w.create_entities(2);
                    for t in 0..k {
                        b = (x.ty[t].bulk)(b, 2, &mut given);
                    }
                    (b.into_ids(), given)
                })?;
                let first = ids.start.get();
                if ids.end.get() != first + 2 || exists(&self.m, first) || exists(&self.m, first + 1) {
                    self.rep.issue(Tag::Alive, || format!("a block of two has ids {ids:?}"));
                    return Err(());
                }
                self.m.ever = self.m.ever.max(first + 1);
                for e in 0..2 {
                    self.m.alive.insert(first + e);
                    for t in 0..k {
                        self.m.comps.insert((first + e, t), (given[2 * t + e], 0));
                    }
                }
            }
            W::Write(e, t) => {
                let t = t.of(k);
                if let Some((tok, _)) = self.m.has(e, t) {
                    let gs: Vec<Gr> = self.m.groups.iter().filter(|g| g.1 == t || g.2 == t).copied().collect();
                    for way in 0..3 + gs.len() {
                        let x = 100 * (way as u32 + 1);
                        let at = (self.t.ty[t].sto)(&self.w).and_then(|v| v.iter().position(|c| c.0 == tok));
                        self.call(&s, |w, tb| match way {
                            0 => {
                                (tb.ty[t].write)(w, e, x);
                            }
                            1 => (tb.ty[t].sto_write)(w, at.unwrap_or(99), x),
                            2 => (tb.ty[t].query_write)(w, e, x),
                            n => {
                                let (kind, i, j) = gs[n - 3];
                                (tb.pairs[&(i, j)].write[kind])(w, e, x)
                            }
                        })?;
                        if way < 3 {
                            self.m.set(e, t, x);
                        } else {
                            let (_, i, j) = gs[way - 3];
                            if self.m.has(e, i).is_some() && self.m.has(e, j).is_some() {
                                self.m.set(e, i, x);
                                self.m.set(e, j, x + 1);
                            }
                        }
                        self.reads(&format!(" after writing type {t} of {e} along path {way}"), Tag::Write)?;
                    }
                }
            }
            W::BadAttach(e) => self.refused(&s, |w, x| (x.ty[MAX].attach)(w, e, &mut 0))?,
            W::BadDetach(e) => self.refused(&s, |w, x| {
                (x.ty[MAX].detach)(w, e);
            })?,
            W::BadRegister(t) => self.refused(&s, |w, x| (x.ty[t.of(k)].register)(w))?,
            W::BadGroup => {
                // every group there is once more, and every one that owns what is owned
                for (kind, i, j) in self.m.groups.clone() {
                    let what = format!("making the {} group of types {i} and {j} again", KIND[kind]);
                    let r = guarded(|| (self.t.pairs[&(i, j)].make[kind])(&mut self.w));
                    match r {
                        Ok(()) => {
                            self.rep.issue(Tag::Admission, || format!("{what} is not refused"));
                            self.rep.issue(Tag::NotRefused, || format!("{what} is not refused"));
                            return Err(());
                        }
                        Err((e, true)) => {
                            self.rep.issue(Tag::Hang, || format!("{what}: {e}"));
                            return Err(());
                        }
                        Err(_) => {}
                    }
                }
                let owned = |m: &M, t: usize| m.groups.iter().any(|g| g.0 == 0 && (g.1 == t || g.2 == t) || g.0 == 1 && g.1 == t);
                for i in [0, k / 2, k - 2] {
                    for kind in [0, 1] {
                        if owned(&self.m, i) || kind == 0 && owned(&self.m, i + 1) {
                            let what = format!("making the {} group of types {i} and {}, of which one is owned", KIND[kind], i + 1);
                            if guarded(|| (self.t.pairs[&(i, i + 1)].make[kind])(&mut self.w)).is_ok() {
                                self.rep.issue(Tag::Admission, || format!("{what} is not refused"));
                                self.rep.issue(Tag::NotRefused, || format!("{what} is not refused"));
                                return Err(());
                            }
                        }
                    }
                }
            }
            W::BadBulk => {
                // a list too short for the last type, when everything else is attached already
                let r = guarded(|| {
                    let mut b = self.w.create_entities(2);
                    for t in 0..k - 1 {
                        b = (self.t.ty[t].bulk)(b, 2, &mut vec![]);
                    }
                    (self.t.ty[k - 1].bulk)(b, 1, &mut vec![]);
                });
                if r.is_ok() {
                    self.rep.issue(Tag::NotRefused, || format!("{s} is not refused"));
                    return Err(());
                }
                // the two entities are there with what they were given before
                let all: Vec<Vec<Val>> = (0..k).map(|t| (self.t.ty[t].sto)(&self.w).unwrap_or_default()).collect();
                for e in 1..20 {
                    if !self.m.alive.contains(&e) && self.w.exist(nz(e)) {
                        self.m.alive.insert(e);
                        self.m.ever = self.m.ever.max(e);
                        for t in 0..k - 1 {
                            if let Some(v) = (self.t.ty[t].read)(&self.w, e) {
                                if all[t].contains(&v) && (unit(t) || !self.m.comps.values().any(|x| x.0 == v.0)) {
                                    self.m.comps.insert((e, t), v);
                                }
                            }
                        }
                    }
                }
            }
            W::BadId => {
                self.refused(&s, |w, _| w.remove_entity(nz(50)))?;
                self.refused(&s, |w, x| (x.ty[k - 1].attach)(w, 50, &mut 0))?;
            }
            W::Resource(t) => {
                let t = t.of(k);
                let tok = self.call(&s, |w, x| (x.ty[t].res_put)(w))?;
                self.m.res.insert(t, (tok, 0));
                self.resources()?;
                let ok = self.call(&s, |w, x| (x.ty[t].res_set)(w, 9))?;
                if ok {
                    self.m.res.insert(t, (tok, 9));
                }
                self.resources()?;
            }
        }
        Ok(())
    }
    fn resources(&mut self) -> Result<(), ()> {
        for t in 0..self.b.k {
            let got = (self.t.ty[t].res_get)(&self.w);
            let want = self.m.res.get(&t).copied();
            self.rep.compared += 1;
            if got != want {
                self.rep.issue(Tag::Resource, || format!("resource type {t} reads {got:?}, expected {want:?}"));
                return Err(());
            }
        }
        Ok(())
    }
    fn reads(&mut self, when: &str, tag: Tag) -> Result<(), ()> {
        for t in 0..self.b.k {
            let x = &self.t.ty[t];
            let mut want: Vec<Val> = vec![];
            for e in 1..=12 {
                let w = self.m.has(e, t);
                want.extend(w);
                let got = (x.read)(&self.w, e);
                let has = (x.sto_ids)(&self.w, e);
                if got != w || has != w.is_some() {
                    self.rep.issue(tag, || format!("type {t} of {e} reads {got:?}, expected {w:?}{when}"));
                    return Err(());
                }
            }
            let mut got = (x.sto)(&self.w).unwrap_or_default();
            got.sort();
            want.sort();
            if got != want {
                self.rep.issue(tag, || format!("the storage of type {t} has {got:?}, expected {want:?}{when}"));
                return Err(());
            }
            self.rep.compared += 14;
        }
        read_errors(self.rep);
        Ok(())
    }
    fn look(&mut self, when: &str) -> Result<(), ()> {
        let k = self.b.k;
        match guarded(|| self.look_(when, k)) {
            Ok(r) => r,
            Err((e, hang)) => {
                self.rep.issue(if hang { Tag::Hang } else { Tag::Panic }, || format!("looking at the world{when}: {e}"));
                Err(())
            }
        }
    }
    fn look_(&mut self, when: &str, k: usize) -> Result<(), ()> {
        for e in 1..=12 {
            let want = self.m.alive.contains(&e);
            if self.w.exist(nz(e)) != want {
                self.rep.issue(Tag::Exist, || format!("exist({e}) is not {want}{when}"));
                return Err(());
            }
        }
        if (0..=MAX).any(|t| (self.t.ty[t].registered)(&self.w) != (t < k)) {
            self.rep.issue(Tag::Read, || format!("other types than 0 to {} are registered{when}", k - 1));
            return Err(());
        }
        if self.rep.on(Tag::Read) || self.rep.on(Tag::Drop) {
            self.reads(when, Tag::Read)?;
        }
        if self.rep.on(Tag::Single) || self.rep.on(Tag::Tuple) || self.rep.on(Tag::Without) {
            for t in 0..k {
                let mut got = (self.t.ty[t].query)(&self.w);
                got.sort();
                let want: Vec<Hit> = self.m.alive.iter().filter_map(|e| Some((*e, vec![self.m.has(*e, t)?]))).collect();
                self.rep.compared += 1;
                if got != want {
                    self.rep.issue(Tag::Single, || format!("the query of type {t} yields {got:?}, expected {want:?}{when}"));
                    return Err(());
                }
            }
            for (&(i, j), p) in self.t.pairs.iter().filter(|p| p.0 .1 < k) {
                let mut got = (p.both)(&self.w);
                got.sort();
                let want = self.m.both(i, j);
                if got != want {
                    self.rep.issue(Tag::Tuple, || format!("the query of types {i} and {j} yields {got:?}, expected {want:?}{when}"));
                    return Err(());
                }
                let mut got = (p.without)(&self.w);
                got.sort();
                let want: Vec<Hit> = self.m.alive.iter().filter(|e| self.m.has(**e, j).is_none()).filter_map(|e| Some((*e, vec![self.m.has(*e, i)?]))).collect();
                self.rep.compared += 2;
                if got != want {
                    self.rep.issue(Tag::Without, || format!("the query of type {i} without {j} yields {got:?}, expected {want:?}{when}"));
                    return Err(());
                }
            }
        }
        for n in 0..self.m.groups.len() {
            let (kind, i, j) = self.m.groups[n];
            let tag = kind_tag(kind);
            let p = &self.t.pairs[&(i, j)];
            let want = self.m.both(i, j);
            if self.rep.on(tag) || self.rep.on(Tag::QueryAccept) {
                let mut got = (p.query[kind])(&self.w);
                got.sort();
                if got != want {
                    self.rep.issue(tag, || format!("the {} group of types {i} and {j} yields {got:?}, expected {want:?}{when}", KIND[kind]));
                    return Err(());
                }
                for e in 1..=8 {
                    let got = (p.by_id[kind])(&self.w, e);
                    let want = want.iter().find(|h| h.0 == e).map(|h| h.1.clone());
                    self.rep.compared += 1;
                    if got != want {
                        self.rep.issue(tag, || format!("the {} group of types {i} and {j} asked for {e} gives {got:?}, expected {want:?}{when}", KIND[kind]));
                        return Err(());
                    }
                }
            }
            if kind < 2 && self.rep.on(Tag::Pack) {
                let a = (self.t.ty[i].sto)(&self.w).unwrap_or_default();
                let b = (self.t.ty[j].sto)(&self.w).unwrap_or_default();
                let n = want.len();
                let who = |v: &[Val], c: usize| v.iter().take(n).map(|x| want.iter().find(|h| h.1[c].0 == x.0).map(|h| h.0)).collect::<Vec<_>>();
                let (fa, fb) = (who(&a, 0), who(&b, 1));
                self.rep.compared += 1;
                if fa.iter().any(|x| x.is_none()) || kind == 0 && fa != fb && !unit(i) && !unit(j) {
                    self.rep.issue(Tag::Pack, || format!("the members {:?} of the {} group of types {i} and {j} are not in front: {fa:?} and {fb:?}{when}", want.iter().map(|h| h.0).collect::<Vec<_>>(), KIND[kind]));
                    return Err(());
                }
            }
        }
        if self.rep.on(Tag::QueryAccept) {
            for (&(i, j), p) in self.t.pairs.iter().filter(|p| p.0 .1 < k) {
                for kind in 0..3 {
                    if !self.m.groups.contains(&(kind, i, j)) && guarded(|| (p.query[kind])(&self.w)).is_ok() {
                        self.rep.issue(Tag::QueryAccept, || format!("the {} group of types {i} and {j}, never made, can be queried{when}", KIND[kind]));
                        return Err(());
                    }
                }
            }
        }
        if self.b.drops {
            live([self.m.owned(), self.beside.clone()].concat(), self.rep, when);
        }
        Ok(())
    }
}

fn live(mut want: Vec<(u32, usize)>, rep: &mut Rep, when: &str) {
    let r = reg();
    rep.compared += 1;
    if let Some(e) = r.drop_err.take() {
        rep.issue(Tag::Drop, || format!("{e}{when}"));
    }
    want.sort();
    let got: Vec<_> = r.live().collect();
    if got != want {
        rep.issue(Tag::Drop, || format!("{} live values, expected {}{when}", got.len(), want.len()));
    }
}

impl Wide {
    pub fn scenarios(&self) -> usize {
        self.arrs.len() * 4 * self.scripts.len() * if self.duo { 4 } else { 1 }
    }
    fn scn(&self, i: usize) -> (Arr, bool, bool, &[W]) {
        let i = if self.duo { i / 4 } else { i };
        let (i, s) = (i / self.scripts.len(), i % self.scripts.len());
        (self.arrs[i / 4], i & 1 == 1, i & 2 == 2, &self.scripts[s])
    }
    pub fn text(&self, path: &[u8]) -> String {
        let i = crate::big::num(path);
        if i >= self.scenarios() {
            return format!("scenario {i}");
        }
        let (a, after, back, s) = self.scn(i);
        format!(
            "{} types registered {}, groups {a:?} made {} five entities with all, even, odd, two thirds, none of them; then {}",
            self.k,
            if back { "last first" } else { "in order" },
            if after { "after" } else { "before" },
            s.iter().map(|x| x.to_string()).collect::<Vec<_>>().join("; ")
        ) + &if self.duo {
            format!("; beside a second world with the script backwards; the steps of the worlds in thread {} and {}", i & 1, i >> 1 & 1)
        } else {
            String::new()
        }
    }
    /// Two worlds in two threads, which take turns.
    fn two(&self, i: usize, with: bool, t: &Table, tr: &mut Trace, st: &mut Stats, hand: &Hand) -> Option<(Tag, String)> {
        let (arr, after, back, script) = self.scn(i);
        tr.start_bytes(&(i as u32).to_le_bytes());
        crate::rs::seed(i as u64 * 0x9E37_79B9 + 11);
        reg().reset();
        let c = parking_lot::mc::ctl();
        c.held.clear();
        c.misuse = None;
        let arr2 = self.arrs[(self.arrs.iter().position(|a| *a == arr).unwrap() + 1) % self.arrs.len()];
        let mut reps = [0, 1].map(|_| Rep { mon: self.mon, ..Default::default() });
        let [rep0, rep1] = &mut reps;
        let mut r = [rep0, rep1].map(|rep| Run { b: self, t, w: World::new(), m: M::default(), rep, ops: 0, beside: vec![] });
        let ok = (|| {
            r[0].start(if with { arr } else { Arr::No }, after, back)?;
            hand.does(|| r[1].start(if with { arr2 } else { Arr::No }, !after, !back))?;
            for n in 0..=script.len() {
                if n > 0 {
                    for (k, s) in [script[n - 1], script[script.len() - n]].into_iter().enumerate() {
                        if i >> k & 1 == 0 {
                            r[k].step(s)?
                        } else {
                            hand.does(|| r[k].step(s))?
                        }
                    }
                }
                for k in 0..2 {
                    r[k].beside = r[1 - k].m.owned();
                    let when = format!(" after step {n} in world {k}");
                    r[k].look(&when)?;
                    hand.does(|| r[k].look(&when))?;
                }
                let [a, b] = &mut r;
                std::mem::swap(&mut a.w, &mut b.w);
                std::mem::swap(&mut a.m, &mut b.m);
            }
            Ok::<(), ()>(())
        })()
        .is_ok();
        let mut other = vec![];
        for x in r {
            st.ops += x.ops;
            let none = x.rep.found.is_none();
            other.push((x.w, x.m, none));
        }
        if ok && other.iter().all(|x| x.2) {
            let rest = other.pop().unwrap();
            let first = other.pop().unwrap();
            let d = hand.does(|| guarded(|| drop(first.0)));
            if self.drops {
                if let Err((e, _)) = d {
                    reps[0].issue(Tag::Panic, || format!("dropping the first world panicked: {e}"));
                }
                live(rest.1.owned(), &mut reps[0], " after dropping the first world");
            }
            let _ = guarded(|| drop(rest.0));
            let held = parking_lot::mc::ctl().held.len();
            if held > 0 {
                reps[1].issue(Tag::LockLeak, || format!("{held} locks are left held"));
            }
        } else {
            std::mem::forget(other);
        }
        st.transitions += 1;
        st.states += 2;
        st.observed += 2;
        for rep in &reps {
            st.compared += rep.compared;
            st.other += rep.other;
        }
        let [a, b] = reps;
        let found = a.found.or(b.found);
        if !ok && found.is_none() {
            st.pruned += 1;
        }
        found
    }
    fn one(&self, i: usize, with: bool, t: &Table, tr: &mut Trace, st: &mut Stats) -> Option<(Tag, String)> {
        let (arr, after, back, script) = self.scn(i);
        tr.start_bytes(&(i as u32).to_le_bytes());
        crate::rs::seed(i as u64 * 0x9E37_79B9 + 11);
        reg().reset();
        let c = parking_lot::mc::ctl();
        c.held.clear();
        c.misuse = None;
        let mut rep = Rep { mon: self.mon, ..Default::default() };
        let mut r = Run { b: self, t, w: World::new(), m: M::default(), rep: &mut rep, ops: 0, beside: vec![] };
        let ok = r.scenario(if with { arr } else { Arr::No }, after, back, script).is_ok();
        st.ops += r.ops;
        let Run { w, .. } = r;
        if ok && rep.found.is_none() {
            let d = guarded(|| drop(w));
            if self.drops {
                if let Err((e, _)) = d {
                    rep.issue(Tag::Panic, || format!("dropping the world panicked: {e}"));
                }
                live(vec![], &mut rep, " after dropping the world");
            }
            let held = parking_lot::mc::ctl().held.len();
            if held > 0 {
                rep.issue(Tag::LockLeak, || format!("{held} locks are left held"));
            }
        } else {
            std::mem::forget(w);
        }
        st.transitions += 1;
        st.states += 1;
        st.observed += 1;
        st.compared += rep.compared;
        st.other += rep.other;
        if !ok && rep.found.is_none() {
            st.pruned += 1;
        }
        rep.found
    }
    fn verdict(&self, i: usize, t: &Table, tr: &mut Trace, st: &mut Stats, hand: Option<&Hand>) -> Option<Viol> {
        let run = |with, tr: &mut Trace, st: &mut Stats| match hand {
            Some(h) => self.two(i, with, t, tr, st, h),
            None => self.one(i, with, t, tr, st),
        };
        let (tag, msg) = run(true, tr, st)?;
        if self.only_groups && run(false, tr, st).is_some() {
            st.other += 1;
            return None;
        }
        let path = (i as u32).to_le_bytes().to_vec();
        Some(Viol { tag: format!("{tag:?}"), msg, text: self.text(&path), path })
    }
    pub fn explore(&self, tr: &mut Trace, st: &mut Stats) -> Option<Viol> {
        let t = table();
        let hand = self.duo.then(Hand::new);
        debug_assert!(t.ty.iter().map(|x| x.id).collect::<BTreeSet<_>>().len() == MAX + 1);
        for i in 0..self.scenarios() {
            if i % 16 == 0 && st.late() {
                return None;
            }
            if let Some(v) = self.verdict(i, &t, tr, st, hand.as_ref()) {
                return Some(v);
            }
            if st.samples.is_empty() && i == self.scenarios() / 2 {
                st.samples.push(format!("{}: {}", self.name, self.text(&(i as u32).to_le_bytes())));
            }
        }
        st.max_depth = st.max_depth.max(self.scripts.iter().map(|s| s.len()).max().unwrap_or(0) as u64);
        None
    }
    pub fn replay(&self, path: &[u8], tr: &mut Trace) -> Option<Viol> {
        let i = crate::big::num(path);
        if i >= self.scenarios() {
            return None;
        }
        self.verdict(i, &table(), tr, &mut Stats::default(), self.duo.then(Hand::new).as_ref())
    }
}

pub fn jobs(prop: &str, thorough: bool) -> Vec<Wide> {
    let tags = |t: &[Tag]| t.iter().fold(Tag::Panic as u32 | Tag::Hang as u32, |m, x| m | *x as u32);
    let every = vec![Arr::No, Arr::Fulls, Arr::Partials, Arr::Nons, Arr::Star, Arr::Mixed, Arr::Laid];
    let some = every[1..].to_vec();
    let mut change: Vec<W> = vec![];
    for e in [1, 2] {
        for t in TS {
            change.extend([W::Attach(e, t), W::Detach(e, t)]);
        }
    }
    change.extend((1..=5).map(W::Remove));
    change.extend([W::RemoveH(1), W::Create, W::Bulk]);
    let writes: Vec<W> = [1, 4].iter().flat_map(|e| TS.iter().map(|t| W::Write(*e, *t))).collect();
    let mut bad = vec![W::BadAttach(1), W::BadDetach(1), W::BadGroup, W::BadId, W::BadBulk];
    bad.extend([Tn::First, Tn::Last].map(W::BadRegister));
    let one = |v: &[W]| v.iter().map(|x| vec![*x]).collect::<Vec<_>>();
    let two = |a: &[W], b: &[W]| a.iter().flat_map(|x| b.iter().map(|y| vec![*x, *y])).collect::<Vec<_>>();
    let three = |a: &[W]| a.iter().flat_map(|x| two(a, a).into_iter().map(|v| [vec![*x], v].concat())).collect::<Vec<_>>();
    let few: Vec<W> = vec![W::Remove(1), W::Remove(2), W::Remove(4), W::Create, W::Bulk, W::Detach(1, Tn::Last), W::Detach(1, Tn::Mid), W::Attach(2, Tn::Second), W::Attach(3, Tn::First), W::Detach(2, Tn::First)];
    let changes = if thorough { two(&change, &change) } else { [one(&change), two(&few, &few)].concat() };
    let births: Vec<W> = vec![W::Remove(1), W::Remove(2), W::Remove(5), W::RemoveH(3), W::Create, W::Bulk, W::BadId];
    let (mon, arrs, scripts, drops, only) = match prop {
        "C01" => (tags(&[Tag::Exist, Tag::Alive]), vec![Arr::No, Arr::Mixed], [one(&births), two(&births, &births), three(&births)].concat(), false, false),
        "C02" => (tags(&[Tag::Alive, Tag::IdChoice]), vec![Arr::No, Arr::Mixed], [one(&births), two(&births, &births), three(&births)].concat(), false, false),
        "C21" => (u32::MAX & !(Tag::Cursor as u32 | Tag::Write as u32), every, changes, true, false),
        "C03" => (tags(&[Tag::Read, Tag::Detach]), every, changes, false, false),
        "C04" => (tags(&[Tag::Exist, Tag::Read, Tag::Single, Tag::Tuple, Tag::Without]) | GROUPS, every, if thorough { [two(&change, &change[20..26]), two(&change[20..26], &change)].concat() } else { [one(&change[20..26]), two(&few, &few[..3])].concat() }, false, false),
        "C05" => (tags(&[Tag::Exist, Tag::Alive, Tag::Read, Tag::Single]) | GROUPS, every, [vec![vec![W::Bulk]], two(&few, &[W::Bulk]), two(&[W::Bulk], &few)].concat(), false, false),
        "C06" => (tags(&[Tag::Single]), vec![Arr::No, Arr::Mixed], changes, false, false),
        "C07" => (tags(&[Tag::Tuple]), vec![Arr::No, Arr::Mixed], changes, false, false),
        "C08" => (tags(&[Tag::Without]), vec![Arr::No, Arr::Mixed], changes, false, false),
        "C10" => (tags(&[Tag::GroupFull, Tag::Admission]), vec![Arr::Fulls], changes, false, false),
        "C11" => (tags(&[Tag::GroupPartial, Tag::Admission]), vec![Arr::Partials], changes, false, false),
        "C12" => (tags(&[Tag::GroupNon, Tag::Admission]), vec![Arr::Nons, Arr::Star], changes, false, false),
        "C13" => (tags(&[]) | GROUPS, some, changes, false, false),
        "C14" => (tags(&[Tag::Exist, Tag::Alive, Tag::Read, Tag::Detach, Tag::Single, Tag::Tuple, Tag::Without]), some, changes, false, true),
        "C15" => (tags(&[Tag::Admission, Tag::QueryAccept]), every, vec![vec![], vec![W::BadGroup], vec![W::Create, W::BadGroup], vec![W::Remove(1), W::BadGroup]], false, false),
        "C16" => (u32::MAX & !(Tag::Cursor as u32 | Tag::Write as u32), every, [one(&bad), two(&bad, &few[..if thorough { 10 } else { 5 }])].concat(), true, false),
        "C17" => (tags(&[Tag::Drop]), vec![Arr::No, Arr::Mixed, Arr::Fulls], [changes, two(&TS.map(W::Resource), &TS.map(W::Resource))].concat(), true, false),
        "C18" => (tags(&[Tag::Write]), every, if thorough { two(&few, &writes) } else { one(&writes) }, false, false),
        "C19" => (tags(&[Tag::Resource]), vec![Arr::No], (0..3).fold(vec![vec![]], |v: Vec<Vec<W>>, _| [v.clone(), v.iter().flat_map(|s| TS.iter().map(|t| [s.clone(), vec![W::Resource(*t)]].concat())).collect()].concat()), false, false),
        "C25" => {
            let booms: Vec<W> = [1, 2, 4].iter().flat_map(|e| TS.iter().map(|t| W::Boom(*e, *t))).collect();
            (u32::MAX & !(Tag::Cursor as u32 | Tag::Write as u32), every, [one(&booms), two(&booms, &few[..5])].concat(), true, false)
        }
        "C24" => (tags(&[Tag::Pack]), vec![Arr::Fulls, Arr::Partials, Arr::Mixed, Arr::Laid], changes, false, false),
        _ => return vec![],
    };
    let ks: Vec<usize> = if thorough { (6..=MAX).collect() } else { vec![6, 7, 8, 9, 10, 12, 14, 15, 16, 17, 20, 24, 31, 32, 33, 40] };
    let ks = if matches!(prop, "C01" | "C02" | "C21") { vec![] } else { ks };
    let mut v: Vec<Wide> = ks.into_iter().map(|k| Wide { name: format!("many types: {k}"), mon, k, arrs: arrs.clone(), scripts: scripts.clone(), drops, only_groups: only, duo: false }).collect();
    let scripts: Vec<Vec<W>> = if thorough || matches!(prop, "C01" | "C02") { scripts } else { scripts.iter().step_by(scripts.len().div_ceil(60)).cloned().collect() };
    for k in if thorough { 6..=16 } else { 8..=8 } {
        v.push(Wide { name: format!("two worlds: {k}"), mon, k, arrs: arrs.clone(), scripts: scripts.clone(), drops, only_groups: only, duo: true });
    }
    v
}
