//! The catalogue of query shapes: for each one, the expression it means and a way to run it.

use crate::model::{GroupId, Model};
use crate::tok::*;
use std::num::NonZeroUsize;
use xecs::group::{FullOwning, NonOwning, PartialOwning};
use xecs::query::{QueryIterator, WithId, Without};
use xecs::World;

#[derive(Clone, Copy, PartialEq, Eq, Debug, PartialOrd, Ord)]
pub enum Cls {
    Single,
    Tuple,
    Without,
    Group,
}

/// Meaning of a query shape.
#[derive(Clone, Debug)]
pub enum Expr {
    Leaf(u8, bool),
    And(Vec<Expr>),
    /// (excluded, positive)
    Not(Box<Expr>, Box<Expr>),
    Grp(GroupId, bool, bool),
}

impl Expr {
    /// Does an entity with component set `mask` match?
    pub fn matches(&self, mask: u8) -> bool {
        match self {
            Expr::Leaf(t, _) => mask >> t & 1 == 1,
            Expr::And(v) => v.iter().all(|e| e.matches(mask)),
            Expr::Not(n, p) => p.matches(mask) && !n.matches(mask),
            Expr::Grp(g, ..) => mask >> g.a & 1 == 1 && mask >> g.b & 1 == 1,
        }
    }
    /// Types of the item's parts, in order, with their access mode.
    pub fn leaves(&self, out: &mut Vec<(u8, bool)>) {
        match self {
            Expr::Leaf(t, m) => out.push((*t, *m)),
            Expr::And(v) => v.iter().for_each(|e| e.leaves(out)),
            Expr::Not(_, p) => p.leaves(out),
            Expr::Grp(g, ma, mb) => out.extend([(g.a, *ma), (g.b, *mb)]),
        }
    }
    pub fn types(&self) -> u8 {
        match self {
            Expr::Leaf(t, _) => 1 << t,
            Expr::And(v) => v.iter().fold(0, |m, e| m | e.types()),
            Expr::Not(n, p) => n.types() | p.types(),
            Expr::Grp(g, ..) => 1 << g.a | 1 << g.b,
        }
    }
    pub fn groups(&self, out: &mut Vec<GroupId>) {
        match self {
            Expr::Leaf(..) => {}
            Expr::And(v) => v.iter().for_each(|e| e.groups(out)),
            Expr::Not(n, p) => {
                n.groups(out);
                p.groups(out)
            }
            Expr::Grp(g, ..) => out.push(*g),
        }
    }
    /// Storage accesses in the written order: (type, exclusive).
    pub fn accesses(&self, out: &mut Vec<(u8, bool)>) {
        match self {
            Expr::Leaf(t, m) => out.push((*t, *m)),
            Expr::And(v) => v.iter().for_each(|e| e.accesses(out)),
            Expr::Not(n, p) => {
                n.accesses(out);
                p.accesses(out)
            }
            Expr::Grp(g, ma, mb) => out.extend([(g.a, *ma), (g.b, *mb)]),
        }
    }
}

/// One component of a query item.
#[derive(Clone, Copy, Debug)]
pub struct Part {
    pub ty: u8,
    pub tok: u32,
    pub val: u32,
    /// where to write, for exclusive parts of a type with a value
    pub ptr: *mut u32,
}

impl PartialEq for Part {
    fn eq(&self, o: &Part) -> bool {
        self.ty == o.ty && self.tok == o.tok && self.val == o.val
    }
}

#[derive(Clone, Copy)]
pub struct Parts {
    n: u8,
    p: [Part; 6],
}

impl Default for Parts {
    fn default() -> Parts {
        Parts { n: 0, p: [Part { ty: 0, tok: 0, val: 0, ptr: std::ptr::null_mut() }; 6] }
    }
}
impl Parts {
    pub fn push(&mut self, p: Part) {
        self.p[self.n as usize] = p;
        self.n += 1;
    }
    pub fn get(&self) -> &[Part] {
        &self.p[..self.n as usize]
    }
}
impl PartialEq for Parts {
    fn eq(&self, o: &Parts) -> bool {
        self.get() == o.get()
    }
}
impl std::fmt::Debug for Parts {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        for (i, p) in self.get().iter().enumerate() {
            write!(f, "{}{}#{}={}", if i > 0 { "," } else { "" }, TNAMES[p.ty as usize % NT], p.tok, p.val)?;
        }
        Ok(())
    }
}

/// Something a query yields.
trait Item {
    fn parts(self, out: &mut Parts);
}
impl<T: Comp> Item for &T {
    fn parts(self, out: &mut Parts) {
        out.push(Part { ty: T::T as u8, tok: self.tok(), val: self.val(), ptr: std::ptr::null_mut() })
    }
}
impl<T: Comp> Item for &mut T {
    fn parts(self, out: &mut Parts) {
        let (tok, val) = (self.tok(), self.val());
        out.push(Part { ty: T::T as u8, tok, val, ptr: self.val_ptr() })
    }
}
macro_rules! tuples {
    ($($n:ident)+) => {
        #[allow(non_snake_case)]
        impl<$($n: Item),+> Item for ($($n,)+) {
            fn parts(self, out: &mut Parts) {
                let ($($n,)+) = self;
                $($n.parts(out);)+
            }
        }
        impl<$($n: Shape),+> Shape for ($($n,)+) {
            fn expr() -> Expr { Expr::And(vec![$($n::expr()),+]) }
        }
    };
}
tuples!(P Q);
tuples!(P Q R);
tuples!(P Q R S);
tuples!(P Q R S U);

/// What a query type means.
trait Shape {
    fn expr() -> Expr;
}
impl<T: Comp> Shape for &T {
    fn expr() -> Expr {
        Expr::Leaf(T::T as u8, false)
    }
}
impl<T: Comp> Shape for &mut T {
    fn expr() -> Expr {
        Expr::Leaf(T::T as u8, true)
    }
}
impl<P: Shape, Q: Shape> Shape for (Without<P>, Q) {
    fn expr() -> Expr {
        Expr::Not(Box::new(P::expr()), Box::new(Q::expr()))
    }
}
impl<P: Shape, Q: Shape> Shape for (P, Without<Q>) {
    fn expr() -> Expr {
        Expr::Not(Box::new(Q::expr()), Box::new(P::expr()))
    }
}
fn grp<P: Shape, Q: Shape>(kind: u8) -> Expr {
    match (P::expr(), Q::expr()) {
        (Expr::Leaf(a, ma), Expr::Leaf(b, mb)) => Expr::Grp(GroupId { kind, a, b }, ma, mb),
        _ => unreachable!(),
    }
}
impl<P: Shape, Q: Shape> Shape for FullOwning<P, Q> {
    fn expr() -> Expr {
        grp::<P, Q>(0)
    }
}
impl<P: Shape, Q: Shape> Shape for PartialOwning<P, Q> {
    fn expr() -> Expr {
        grp::<P, Q>(1)
    }
}
impl<P: Shape, Q: Shape> Shape for NonOwning<P, Q> {
    fn expr() -> Expr {
        grp::<P, Q>(2)
    }
}

/// A running query without its item type.
pub trait Run {
    fn next(&mut self) -> Option<Parts>;
    fn nth(&mut self, n: usize) -> Option<Parts>;
    fn next_with_id(&mut self) -> Option<(usize, Parts)>;
    fn from_id(&mut self, id: usize) -> Option<Parts>;
    fn size_hint(&self) -> (usize, Option<usize>);
    /// Drain through the `with_id` adaptor; also its size hint before the first step.
    fn drain_with_id(self: Box<Self>, out: &mut Vec<(usize, Parts)>, cap: usize) -> (usize, Option<usize>);
    /// Consume the rest through an adaptor, of the query itself or (`ids`) of its `with_id` form.
    fn adapt(self: Box<Self>, ids: bool, ad: Adaptor, k: usize, cap: usize) -> Adapted;
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Adaptor {
    /// nth(k), nth(0), then the rest
    Nth,
    /// nth(k) until it gives nothing
    Nths,
    Count,
    Last,
    Skip,
    StepBy,
    Take,
    Fold,
    /// step by step with the size hint before each step
    Steps,
    /// step to the end, then some more
    Past,
}
pub const ADAPTORS: [Adaptor; 10] = [
    Adaptor::Nth,
    Adaptor::Nths,
    Adaptor::Count,
    Adaptor::Last,
    Adaptor::Skip,
    Adaptor::StepBy,
    Adaptor::Take,
    Adaptor::Fold,
    Adaptor::Steps,
    Adaptor::Past,
];

/// What came out of an adaptor.
#[derive(Default, Debug)]
pub struct Adapted {
    pub items: Vec<(Option<usize>, Parts)>,
    /// number of items before each of these the source had left a size hint
    pub hints: Vec<(usize, (usize, Option<usize>))>,
    pub count: Option<usize>,
    /// an item after the end
    pub late: bool,
}

impl Adaptor {
    /// How many items must come out when `rem` are left.
    pub fn yields(self, rem: usize, k: usize) -> usize {
        match self {
            Adaptor::Nth => (rem > k) as usize + rem.saturating_sub(k + 1),
            Adaptor::Nths => rem / (k + 1),
            Adaptor::Count => 0,
            Adaptor::Last => (rem > 0) as usize,
            Adaptor::Skip => rem.saturating_sub(k),
            Adaptor::StepBy => rem.div_ceil(k + 1),
            Adaptor::Take => rem,
            Adaptor::Fold | Adaptor::Steps | Adaptor::Past => rem,
        }
    }
    pub fn uses_k(self) -> bool {
        matches!(self, Adaptor::Nth | Adaptor::Nths | Adaptor::Skip | Adaptor::StepBy | Adaptor::Take)
    }
}

fn adapted<It: Iterator>(mut it: It, ad: Adaptor, k: usize, cap: usize, f: impl Fn(It::Item) -> (Option<usize>, Parts)) -> Adapted {
    let mut o = Adapted::default();
    match ad {
        Adaptor::Nth => {
            o.items.extend(it.nth(k).map(&f));
            o.hints.push((o.items.len(), it.size_hint()));
            o.items.extend(it.nth(0).map(&f));
            o.items.extend(it.by_ref().take(cap).map(&f));
            o.late = it.nth(0).is_some() || it.nth(k).is_some();
        }
        Adaptor::Nths => {
            while let Some(x) = it.nth(k) {
                o.items.push(f(x));
                if o.items.len() > cap {
                    break;
                }
            }
            o.late = it.next().is_some();
        }
        Adaptor::Count => o.count = Some(it.count()),
        Adaptor::Last => o.items.extend(it.last().map(&f)),
        Adaptor::Skip => o.items.extend(it.skip(k).take(cap).map(&f)),
        Adaptor::StepBy => o.items.extend(it.step_by(k + 1).take(cap).map(&f)),
        Adaptor::Take => {
            o.items.extend(it.by_ref().take(k).map(&f));
            o.hints.push((o.items.len(), it.size_hint()));
            o.items.extend(it.take(cap).map(&f));
        }
        Adaptor::Fold => {
            let v = it.fold(Vec::new(), |mut v, x| {
                v.push(f(x));
                assert!(v.len() <= cap, "too many items");
                v
            });
            o.items = v;
        }
        Adaptor::Steps => loop {
            o.hints.push((o.items.len(), it.size_hint()));
            match it.next() {
                Some(x) if o.items.len() <= cap => o.items.push(f(x)),
                _ => break,
            }
        },
        Adaptor::Past => {
            o.items.extend(it.by_ref().take(cap).map(&f));
            o.late = it.next().is_some() || it.next().is_some();
            o.hints.push((o.items.len(), it.size_hint()));
        }
    }
    o
}

struct Er<'a, I>(Box<dyn QueryIterator<Item = I> + 'a>);

fn flat<I: Item>(i: I) -> Parts {
    let mut p = Parts::default();
    i.parts(&mut p);
    p
}

impl<'a, I: Item + 'a> Run for Er<'a, I> {
    fn next(&mut self) -> Option<Parts> {
        self.0.next().map(flat)
    }
    fn nth(&mut self, n: usize) -> Option<Parts> {
        self.0.nth(n).map(flat)
    }
    fn next_with_id(&mut self) -> Option<(usize, Parts)> {
        self.0.next_with_id().map(|(id, i)| (id.get(), flat(i)))
    }
    fn from_id(&mut self, id: usize) -> Option<Parts> {
        self.0.from_id(NonZeroUsize::new(id).unwrap()).map(flat)
    }
    fn size_hint(&self) -> (usize, Option<usize>) {
        self.0.size_hint()
    }
    fn drain_with_id(self: Box<Self>, out: &mut Vec<(usize, Parts)>, cap: usize) -> (usize, Option<usize>) {
        let mut it = self.0.with_id();
        let h = it.size_hint();
        for (id, i) in it.by_ref() {
            out.push((id.get(), flat(i)));
            if out.len() > cap {
                break;
            }
        }
        h
    }
    fn adapt(self: Box<Self>, ids: bool, ad: Adaptor, k: usize, cap: usize) -> Adapted {
        if ids {
            adapted(self.0.with_id(), ad, k, cap, |(id, i)| (Some(id.get()), flat(i)))
        } else {
            adapted(self.0, ad, k, cap, |i| (None, flat(i)))
        }
    }
}

/// Checks an adaptor's output. `want`: the items left, each with its id; `exact`: hints are exact.
pub fn judge_adapted(o: &Adapted, ad: Adaptor, k: usize, all: &[(usize, Parts)], before: &[Parts], exact: bool) -> Option<String> {
    let rem = all.len() - before.len();
    let n = ad.yields(rem, k);
    if o.items.len() != n {
        return Some(format!("{} items, expected {n}", o.items.len()));
    }
    if let Some(c) = o.count {
        if c != rem {
            return Some(format!("count {c}, expected {rem}"));
        }
    }
    if o.late {
        return Some("an item after the end".into());
    }
    for (done, h) in &o.hints {
        let left = match ad {
            Adaptor::Nth => rem.saturating_sub(k + 1),
            _ => rem - done,
        };
        if h.0 > left || h.1.is_some_and(|u| u < left) || (exact && *h != (left, Some(left))) {
            return Some(format!("size hint {h:?} with {left} items left"));
        }
    }
    // each item is one of those left, none twice
    let key = |p: &Parts| p.get().iter().map(|x| (x.ty, x.tok, x.val)).collect::<Vec<_>>();
    let mut left: std::collections::HashMap<Vec<(u8, u32, u32)>, Vec<usize>> = Default::default();
    for (id, p) in all {
        left.entry(key(p)).or_default().push(*id);
    }
    for b in before {
        // items without an identity: any of them
        left.get_mut(&key(b)).and_then(|v| v.pop());
    }
    let anon = all.len() > left.len();
    for (id, p) in &o.items {
        let Some(v) = left.get_mut(&key(p)) else {
            return Some(format!("yields {id:?} ({p:?}), which does not match"));
        };
        match id {
            Some(id) if !anon => match v.iter().position(|x| x == id) {
                Some(i) => {
                    v.remove(i);
                }
                None => return Some(format!("yields id {id} with {p:?}, not left or not its own")),
            },
            Some(id) if !all.iter().any(|x| x.0 == *id && x.1 == *p) => return Some(format!("yields id {id} with {p:?}")),
            _ => {
                if v.pop().is_none() {
                    return Some(format!("yields ({p:?}) once more"));
                }
            }
        }
    }
    let ids: Vec<usize> = o.items.iter().filter_map(|x| x.0).collect();
    let set: std::collections::HashSet<_> = ids.iter().collect();
    (set.len() != ids.len()).then(|| "one id twice".to_string())
}

pub type Start = for<'a> fn(&'a World) -> Box<dyn Run + 'a>;

pub struct QShape {
    pub name: &'static str,
    pub cls: Cls,
    pub expr: Expr,
    /// types read or written, positive or excluded
    pub types: u8,
    pub groups: Vec<GroupId>,
    /// parts of the item
    pub leaves: Vec<(u8, bool)>,
    pub run: Start,
}

impl QShape {
    /// Is the query accepted in this world?
    pub fn accepted(&self, m: &Model) -> bool {
        self.types & !m.reg == 0 && self.groups.iter().all(|g| m.groups.contains(g))
    }
    /// Are all its types among `mask` and its groups among the model's?
    pub fn fits(&self, m: &Model) -> bool {
        self.accepted(m)
    }
    pub fn expect(&self, m: &Model, id: usize) -> Option<Parts> {
        if !m.is_alive(id) || !self.expr.matches(m.mask(id)) {
            return None;
        }
        let mut p = Parts::default();
        for (t, _) in &self.leaves {
            let (tok, val) = m.comp(id, *t as usize).unwrap();
            p.push(Part { ty: *t, tok, val, ptr: std::ptr::null_mut() });
        }
        Some(p)
    }
}

macro_rules! shapes {
    ($($cls:ident $t:ty;)*) => {
        pub fn build() -> Vec<QShape> {
            vec![$(mk(stringify!($t), Cls::$cls, <$t as Shape>::expr(), |w| Box::new(Er(w.query::<$t>())))),*]
        }
    };
}
include!("shapes_gen.rs");

fn mk(name: &'static str, cls: Cls, expr: Expr, run: Start) -> QShape {
    let (mut groups, mut leaves) = (vec![], vec![]);
    expr.groups(&mut groups);
    expr.leaves(&mut leaves);
    QShape { name, cls, types: expr.types(), groups, leaves, run, expr }
}

pub struct Catalogue {
    pub all: Vec<QShape>,
    /// shared-access shape of each single type
    pub single: [usize; NT],
}

impl Catalogue {
    pub fn new() -> Catalogue {
        let all = build();
        let mut single = [0; NT];
        for (i, s) in all.iter().enumerate() {
            if let Expr::Leaf(t, false) = s.expr {
                single[t as usize] = i;
            }
        }
        Catalogue { all, single }
    }
    pub fn by_name(&self, name: &str) -> usize {
        let n = name.replace(' ', "");
        self.all.iter().position(|s| s.name.replace(' ', "") == n).unwrap_or_else(|| panic!("no shape {name}"))
    }
    /// Shared-shared shape of a group.
    pub fn group(&self, g: GroupId) -> Option<usize> {
        self.all.iter().position(|s| matches!(s.expr, Expr::Grp(h, false, false) if h == g))
    }
}
