//! Worlds of many entities and long repetitions: every size up to a bound, a fixed family of ways to
//! fill the world, and every short script of operations on it.

use crate::bfs::{Stats, Viol};
use crate::exec::*;
use crate::model::{GroupId, Val};
use crate::obs::{group_tag, shape_tag};
use crate::seqjobs::{g, gname, mask, pick, GROUPS};
use crate::shapes::*;
use crate::tok::*;
use crate::trace::Trace;
use crate::with_type;
use std::collections::BTreeSet;
use std::fmt;
use xecs::World;

// ---------------------------------------------------------------- the model

/// What a large world is.
pub struct Bm {
    /// index 0 is not used
    alive: Vec<bool>,
    has: Vec<u8>,
    comps: Vec<[Val; NT]>,
    free: BTreeSet<usize>,
    reg: u8,
    groups: Vec<GroupId>,
}

impl Bm {
    fn new() -> Bm {
        Bm { alive: vec![false], has: vec![0], comps: vec![[(0, 0); NT]], free: BTreeSet::new(), reg: 0, groups: vec![] }
    }
    fn ever(&self) -> usize {
        self.alive.len() - 1
    }
    fn is_alive(&self, id: usize) -> bool {
        id < self.alive.len() && self.alive[id]
    }
    fn ids(&self) -> impl Iterator<Item = usize> + '_ {
        (1..self.alive.len()).filter(|i| self.alive[*i])
    }
    fn comp(&self, id: usize, t: usize) -> Option<Val> {
        if self.is_alive(id) && self.has[id] >> t & 1 == 1 { Some(self.comps[id][t]) } else { None }
    }
    fn born(&mut self, id: usize) {
        while self.alive.len() <= id {
            self.alive.push(false);
            self.has.push(0);
            self.comps.push([(0, 0); NT]);
        }
        self.alive[id] = true;
        self.free.remove(&id);
    }
    fn kill(&mut self, id: usize) {
        self.alive[id] = false;
        self.has[id] = 0;
        self.free.insert(id);
    }
    fn set(&mut self, id: usize, t: usize, tok: u32) {
        self.comps[id][t] = (if t == D { 0 } else { tok }, 0);
        self.has[id] |= 1 << t;
    }
    fn unset(&mut self, id: usize, t: usize) -> Option<Val> {
        let o = self.comp(id, t);
        self.has[id] &= !(1 << t);
        o
    }
    fn expect(&self, s: &QShape, id: usize) -> Option<Parts> {
        if !self.is_alive(id) || !s.expr.matches(self.has[id]) {
            return None;
        }
        let mut p = Parts::default();
        for (t, _) in &s.leaves {
            let (tok, val) = self.comps[id][*t as usize];
            p.push(Part { ty: *t, tok, val, ptr: std::ptr::null_mut() });
        }
        Some(p)
    }
    fn accepts(&self, s: &QShape) -> bool {
        s.types & !self.reg == 0 && s.groups.iter().all(|g| self.groups.contains(g))
    }
    fn admits(&self, n: GroupId) -> bool {
        n.types() & !self.reg == 0 && !self.groups.contains(&n) && self.groups.iter().all(|h| h.owned() & n.owned() == 0) && !(n.kind != 2 && n.a == n.b)
    }
}

// ---------------------------------------------------------------- scenarios

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Birth {
    One,
    Block,
    /// block, every second one removed, created again
    Holes,
}

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Fill {
    None,
    All,
    /// first type ascending, second descending
    Turns,
    Every,
    Halves,
    Ends,
    /// odd ids first
    Weave,
    /// whole blocks (births in blocks only)
    Blocks,
    OneType,
}

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Pos {
    First,
    Second,
    Mid,
    Penult,
    Last,
}
pub const POS: [Pos; 5] = [Pos::First, Pos::Second, Pos::Mid, Pos::Penult, Pos::Last];

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Ord_ {
    Asc,
    Desc,
    Inward,
}
pub const ORDS: [Ord_; 3] = [Ord_::Asc, Ord_::Desc, Ord_::Inward];

#[derive(Clone, PartialEq, Debug)]
pub enum Act {
    Remove(Pos),
    Recycle(Pos),
    /// types are given by their place in the scenario's triple
    Detach(u8, Pos),
    Attach(u8, Pos),
    RemoveAll(Ord_),
    /// every k-th live entity
    RemoveEvery(usize, Ord_),
    DetachAll(u8, Ord_),
    AttachAll(u8, Ord_),
    /// as many new entities as there are free ids, plus so many
    Refill(usize),
    /// block of half the present number
    Block,
    Create,
    Make(GroupId),
    /// a call that must be refused
    Bad(u8),
    /// repeat, looking briefly after each round
    Loop(Vec<Act>, usize),
    Look,
}

impl fmt::Display for Act {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        match self {
            Act::Make(g) => write!(f, "make_group({g})"),
            Act::Loop(v, n) => write!(f, "{n} times ({})", v.iter().map(|a| a.to_string()).collect::<Vec<_>>().join(", ")),
            a => write!(f, "{a:?}"),
        }
    }
}

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum When {
    Before,
    After,
}

#[derive(Clone, Default)]
pub struct Look {
    pub exist: bool,
    pub reads: bool,
    pub shapes: Vec<usize>,
    pub drops: bool,
    pub pack: bool,
    pub cursor: Vec<usize>,
    pub writes: Vec<usize>,
    /// looked at after every single step of a mass operation
    pub brief: Vec<usize>,
}

pub struct Big {
    pub name: String,
    pub mon: u32,
    pub ts: [usize; 3],
    pub ns: Vec<usize>,
    pub births: Vec<Birth>,
    pub fills: Vec<Fill>,
    pub groups: Vec<(Vec<GroupId>, When)>,
    pub scripts: Vec<Vec<Act>>,
    pub look: Look,
    /// a violation counts only if the same scenario without groups is in order
    pub only_groups: bool,
}

struct Scn<'b> {
    n: usize,
    birth: Birth,
    fill: Fill,
    groups: &'b [GroupId],
    when: When,
    script: &'b [Act],
}

/// Follows one scenario.
struct Run_<'a, 'b> {
    b: &'b Big,
    cat: &'b Catalogue,
    w: World,
    m: Bm,
    rep: &'a mut Rep,
    ops: u64,
    seqs: u64,
}

type R = Result<(), ()>;

impl Big {
    pub fn scenarios(&self) -> usize {
        self.ns.len() * self.births.len() * self.fills.len() * self.groups.len() * self.scripts.len()
    }
    fn scn(&self, mut i: usize) -> Scn<'_> {
        let mut take = |n: usize| {
            let r = i % n;
            i /= n;
            r
        };
        let script = &self.scripts[take(self.scripts.len())];
        let (groups, when) = &self.groups[take(self.groups.len())];
        let fill = self.fills[take(self.fills.len())];
        let birth = self.births[take(self.births.len())];
        let n = self.ns[take(self.ns.len())];
        Scn { n, birth, fill, groups, when: *when, script }
    }
    pub fn text(&self, path: &[u8]) -> String {
        let i = num(path);
        if i >= self.scenarios() {
            return format!("scenario {i}");
        }
        let s = self.scn(i);
        let t: Vec<&str> = self.ts.iter().map(|t| TNAMES[*t]).collect();
        format!(
            "types {t:?}; {} entities ({:?}), fill {:?}, groups [{}] made {:?}, then {}",
            s.n,
            s.birth,
            s.fill,
            gname(s.groups),
            s.when,
            s.script.iter().map(|a| a.to_string()).collect::<Vec<_>>().join("; ")
        )
    }
    fn one(&self, i: usize, groups: bool, cat: &Catalogue, tr: &mut Trace, st: &mut Stats) -> Option<(Tag, String)> {
        let s = self.scn(i);
        if s.fill == Fill::Blocks && s.birth != Birth::Block {
            return None;
        }
        tr.start_bytes(&(i as u32).to_le_bytes());
        crate::rs::seed(i as u64 * 0x9E37_79B9 + 7);
        reg().reset();
        let c = parking_lot::mc::ctl();
        c.held.clear();
        c.misuse = None;
        let mut rep = Rep { mon: self.mon, ..Default::default() };
        let mut r = Run_ { b: self, cat, w: World::new(), m: Bm::new(), rep: &mut rep, ops: 0, seqs: 0 };
        let ok = r.scenario(&s, groups, tr).is_ok();
        st.ops += r.ops;
        st.sequences += r.seqs;
        let Run_ { w, .. } = r;
        if ok && rep.found.is_none() {
            let d = guarded(|| drop(w));
            if self.look.drops {
                if let Err((e, _)) = d {
                    rep.issue(Tag::Panic, || format!("dropping the world panicked: {e}"));
                }
                live(&Bm::new(), &mut rep, " after dropping the world");
            }
        } else {
            std::mem::forget(w);
        }
        st.transitions += 1;
        st.states += 1;
        st.observed += 1;
        st.compared += rep.compared;
        st.other += rep.other;
        if !ok && rep.found.is_none() {
            st.pruned += 1;
        }
        rep.found
    }
    fn verdict(&self, i: usize, cat: &Catalogue, tr: &mut Trace, st: &mut Stats) -> Option<Viol> {
        let (tag, msg) = self.one(i, true, cat, tr, st)?;
        if self.only_groups && self.one(i, false, cat, tr, st).is_some() {
            st.other += 1;
            return None;
        }
        let path = (i as u32).to_le_bytes().to_vec();
        Some(Viol { tag: format!("{tag:?}"), msg, text: self.text(&path), path })
    }
    pub fn explore(&self, cat: &Catalogue, tr: &mut Trace, st: &mut Stats) -> Option<Viol> {
        for i in 0..self.scenarios() {
            if i % 16 == 0 && st.late() {
                return None;
            }
            if let Some(v) = self.verdict(i, cat, tr, st) {
                return Some(v);
            }
            if st.samples.len() < 2 && (i + 1 == self.scenarios() / 2 || i + 1 == self.scenarios()) {
                st.samples.push(format!("{}: {}", self.name, self.text(&(i as u32).to_le_bytes())));
            }
            st.max_depth = st.max_depth.max(self.scn(i).n as u64);
        }
        None
    }
    pub fn replay(&self, path: &[u8], cat: &Catalogue, tr: &mut Trace) -> Option<Viol> {
        let i = num(path);
        if i >= self.scenarios() {
            return None;
        }
        self.verdict(i, cat, tr, &mut Stats::default())
    }
}

pub fn num(path: &[u8]) -> usize {
    let mut b = [0u8; 4];
    b[..path.len().min(4)].copy_from_slice(&path[..path.len().min(4)]);
    u32::from_le_bytes(b) as usize
}

fn order(v: Vec<usize>, o: Ord_) -> Vec<usize> {
    match o {
        Ord_::Asc => v,
        Ord_::Desc => v.into_iter().rev().collect(),
        Ord_::Inward => {
            let n = v.len();
            (0..n).map(|i| if i % 2 == 0 { v[i / 2] } else { v[n - 1 - i / 2] }).collect()
        }
    }
}

fn live(m: &Bm, rep: &mut Rep, more: &str) {
    let r = reg();
    rep.compared += 1;
    if let Some(e) = r.drop_err.take() {
        rep.issue(Tag::Drop, || format!("{e}{more}"));
    }
    let mut want = vec![];
    let mut d = 0;
    for i in m.ids() {
        for t in 0..NT {
            if let Some((tok, _)) = m.comp(i, t) {
                if t == D {
                    d += 1
                } else {
                    want.push((tok, t))
                }
            }
        }
    }
    want.sort();
    let got: Vec<_> = r.live().collect();
    if got != want {
        let lost = want.iter().find(|x| !got.contains(x));
        let more_ = got.iter().find(|x| !want.contains(x));
        rep.issue(Tag::Drop, || format!("{} live values, expected {} (gone: {lost:?}, too many: {more_:?}){more}", got.len(), want.len()));
    }
    if r.d_live != d {
        rep.issue(Tag::Drop, || format!("{} live zero-sized values, expected {d}{more}", r.d_live));
    }
}

fn key(p: &Parts) -> Vec<(u8, u32, u32)> {
    p.get().iter().map(|x| (x.ty, x.tok, x.val)).collect()
}

impl Run_<'_, '_> {
    fn bad(&mut self, tag: Tag, msg: impl FnOnce() -> String) -> R {
        self.rep.issue(tag, msg);
        Err(())
    }
    /// A call that must succeed.
    fn must<T>(&mut self, what: impl Fn() -> String, f: impl FnOnce(&mut World) -> T) -> Result<T, ()> {
        self.ops += 1;
        let w = &mut self.w;
        match guarded(|| f(w)) {
            Ok(r) => Ok(r),
            Err((e, hang)) => {
                self.rep.issue(if hang { Tag::Hang } else { Tag::Panic }, || format!("{}: {e}", what()));
                Err(())
            }
        }
    }
    fn create(&mut self) -> R {
        let id = self.must(|| "create_entity".into(), |w| w.create_entity().into_id().get())?;
        if self.m.is_alive(id) {
            return self.bad(Tag::Alive, || format!("create_entity returned {id}, which is alive"));
        }
        let next = self.m.ever() + 1;
        let free = !self.m.free.is_empty();
        if free && !self.m.free.contains(&id) {
            self.rep.issue(Tag::IdChoice, || format!("create_entity returned {id} although there are free ids"));
        }
        if !free && id != next {
            self.rep.issue(Tag::IdChoice, || format!("create_entity returned {id}, not the next id {next}"));
        }
        if id > next {
            return Err(());
        }
        self.m.born(id);
        Ok(())
    }
    fn took(&mut self, r: (usize, usize), n: usize) -> R {
        if r.1.wrapping_sub(r.0) != n {
            return self.bad(Tag::IdChoice, || format!("create_entities({n}) returned {}..{}", r.0, r.1));
        }
        for id in r.0..r.1 {
            if self.m.is_alive(id) {
                return self.bad(Tag::Alive, || format!("create_entities({n}) returned {}..{}, and {id} is alive", r.0, r.1));
            }
        }
        if r.1 > self.m.ever() + 1 + n || r.0 == 0 {
            let ever = self.m.ever();
            return self.bad(Tag::IdChoice, || format!("create_entities({n}) returned {}..{} after id {ever}", r.0, r.1));
        }
        for id in r.0..r.1 {
            self.m.born(id);
        }
        Ok(())
    }
    fn block(&mut self, n: usize) -> R {
        let r = self.must(
            || format!("create_entities({n})"),
            |w| {
                let r = w.create_entities(n).into_ids();
                (r.start.get(), r.end.get())
            },
        )?;
        self.took(r, n)
    }
    fn block_with(&mut self, n: usize, ts: &[usize]) -> R {
        let mut given: Vec<Vec<u32>> = vec![];
        let r = self.must(
            || format!("create_entities({n}) with attached blocks"),
            |w| {
                let mut es = Some(w.create_entities(n));
                for t in ts {
                    with_type!(*t, T => {
                        let v: Vec<T> = (0..n).map(|_| T::make()).collect();
                        given.push(v.iter().map(|c| c.tok()).collect());
                        es = Some(es.take().unwrap().attach::<T, _>(v));
                    });
                }
                let r = es.unwrap().into_ids();
                (r.start.get(), r.end.get())
            },
        )?;
        self.took(r, n)?;
        for (t, v) in ts.iter().zip(given) {
            for (k, tok) in v.into_iter().enumerate() {
                self.m.set(r.0 + k, *t, tok);
            }
        }
        Ok(())
    }
    fn remove(&mut self, id: usize) -> R {
        self.must(|| format!("remove_entity({id})"), |w| w.remove_entity(nz(id)))?;
        self.m.kill(id);
        Ok(())
    }
    fn attach(&mut self, id: usize, t: usize) -> R {
        let tok = self.must(
            || format!("attach_component({id},{})", TNAMES[t]),
            |w| {
                with_type!(t, T => {
                    let c = T::make();
                    let k = c.tok();
                    if id % 4 == 3 {
                        w.entity(nz(id)).expect("entity").attach::<T>(c);
                    } else {
                        w.attach_component::<T>(nz(id), c);
                    }
                    k
                })
            },
        )?;
        self.m.set(id, t, tok);
        Ok(())
    }
    fn detach(&mut self, id: usize, t: usize) -> R {
        let got = self.must(
            || format!("detach_component({id},{})", TNAMES[t]),
            |w| with_type!(t, T => {
                if id % 4 == 1 {
                    w.entity(nz(id)).expect("entity").detach::<T>().as_ref().map(|c| (c.tok(), c.val()))
                } else {
                    w.detach_component::<T>(nz(id)).as_ref().map(|c| (c.tok(), c.val()))
                }
            }),
        )?;
        let want = self.m.unset(id, t);
        if got != want {
            return self.bad(Tag::Detach, || format!("detach_component({id},{}) returned {got:?}, expected {want:?}", TNAMES[t]));
        }
        Ok(())
    }
    fn make(&mut self, gr: GroupId) -> R {
        let ok = self.m.admits(gr);
        let w = &mut self.w;
        self.ops += 1;
        match guarded(|| make_group(w, gr)) {
            Ok(()) if ok => {
                self.m.groups.push(gr);
                Ok(())
            }
            Err((_, false)) if !ok => Ok(()),
            Ok(()) => self.bad(Tag::Admission, || format!("make_group({gr}) was not refused")),
            Err((e, h)) => self.bad(if h { Tag::Hang } else { Tag::Admission }, || format!("make_group({gr}): {e}")),
        }
    }
    fn at(&self, p: Pos) -> Option<usize> {
        let v: Vec<usize> = self.m.ids().collect();
        let n = v.len();
        if n == 0 {
            return None;
        }
        Some(v[match p {
            Pos::First => 0,
            Pos::Second => 1.min(n - 1),
            Pos::Mid => n / 2,
            Pos::Penult => n.saturating_sub(2),
            Pos::Last => n - 1,
        }])
    }

    fn scenario(&mut self, s: &Scn<'_>, groups: bool, tr: &mut Trace) -> R {
        let ts = self.b.ts;
        for t in ts {
            self.must(|| "register".into(), |w| with_type!(t, T => { w.register::<T>(); }))?;
            self.m.reg |= 1 << t;
        }
        if groups && s.when == When::Before {
            for gr in s.groups {
                self.make(*gr)?;
            }
        }
        let n = s.n;
        match s.birth {
            Birth::One => {
                for _ in 0..n {
                    self.create()?;
                }
            }
            Birth::Block if s.fill == Fill::Blocks => self.block_with(n, &ts[..2])?,
            Birth::Block => self.block(n)?,
            Birth::Holes => {
                self.block(n)?;
                for id in (1..=n).step_by(2) {
                    self.remove(id)?;
                }
                for _ in (1..=n).step_by(2) {
                    self.create()?;
                }
            }
        }
        tr.beat();
        let ids: Vec<usize> = self.m.ids().collect();
        let k = ids.len();
        match s.fill {
            Fill::None | Fill::Blocks => {}
            Fill::All => {
                for &i in &ids {
                    for t in ts {
                        self.attach(i, t)?;
                    }
                }
            }
            Fill::OneType => {
                for &i in &ids {
                    self.attach(i, ts[0])?;
                }
            }
            Fill::Turns => {
                for &i in &ids {
                    self.attach(i, ts[0])?;
                }
                for &i in ids.iter().rev() {
                    self.attach(i, ts[1])?;
                }
            }
            Fill::Every => {
                for (j, &i) in ids.iter().enumerate() {
                    self.attach(i, ts[0])?;
                    if j % 2 == 0 {
                        self.attach(i, ts[1])?;
                    }
                    if j % 3 == 0 {
                        self.attach(i, ts[2])?;
                    }
                }
            }
            Fill::Halves => {
                for &i in &ids[..k / 2 + k / 4] {
                    self.attach(i, ts[0])?;
                }
                for &i in &ids[k / 2..] {
                    self.attach(i, ts[1])?;
                }
            }
            Fill::Ends => {
                for &i in &ids {
                    self.attach(i, ts[1])?;
                }
                for p in [Pos::Last, Pos::First] {
                    if let Some(i) = self.at(p) {
                        self.attach(i, ts[0])?;
                    }
                }
            }
            Fill::Weave => {
                for r in [1, 0] {
                    for &i in ids.iter().filter(|i| **i % 2 == r) {
                        self.attach(i, ts[0])?;
                    }
                    for &i in ids.iter().filter(|i| **i % 2 != r) {
                        self.attach(i, ts[1])?;
                    }
                }
            }
        }
        if groups && s.when == When::After {
            for gr in s.groups {
                self.make(*gr)?;
            }
        }
        tr.beat();
        for a in s.script {
            self.act(a, false, tr)?;
            tr.beat();
        }
        self.full(tr)
    }

    fn act(&mut self, a: &Act, looping: bool, tr: &mut Trace) -> R {
        let ts = self.b.ts;
        macro_rules! step {
            () => {
                if !looping {
                    self.brief(tr)?
                }
            };
        }
        match a {
            Act::Remove(p) => {
                if let Some(i) = self.at(*p) {
                    self.remove(i)?
                }
            }
            Act::Recycle(p) => {
                if let Some(i) = self.at(*p) {
                    self.remove(i)?;
                    self.create()?;
                }
            }
            Act::Detach(t, p) => {
                if let Some(i) = self.at(*p) {
                    self.detach(i, ts[*t as usize])?
                }
            }
            Act::Attach(t, p) => {
                if let Some(i) = self.at(*p) {
                    self.attach(i, ts[*t as usize])?
                }
            }
            Act::RemoveAll(o) => {
                for i in order(self.m.ids().collect(), *o) {
                    self.remove(i)?;
                    step!();
                }
            }
            Act::RemoveEvery(k, o) => {
                for i in order(self.m.ids().collect(), *o).into_iter().step_by(*k) {
                    self.remove(i)?;
                    step!();
                }
            }
            Act::DetachAll(t, o) => {
                for i in order(self.m.ids().collect(), *o) {
                    self.detach(i, ts[*t as usize])?;
                    step!();
                }
            }
            Act::AttachAll(t, o) => {
                for i in order(self.m.ids().collect(), *o) {
                    self.attach(i, ts[*t as usize])?;
                    step!();
                }
            }
            Act::Refill(n) => {
                for _ in 0..self.m.free.len() + n {
                    self.create()?;
                    step!();
                }
            }
            Act::Block => {
                let n = self.m.ids().count() / 2;
                self.block(n)?
            }
            Act::Create => self.create()?,
            Act::Make(g) => self.make(*g)?,
            Act::Bad(k) => self.refusal(*k)?,
            Act::Loop(v, n) => {
                for i in 1..=*n {
                    for a in v {
                        self.act(a, true, tr)?;
                    }
                    // of very many rounds, look after those around powers of two
                    if *n < 2000 || i == *n || [i - 1, i, i + 1].iter().any(|x| x.is_power_of_two()) {
                        self.brief(tr)?;
                    } else if i % 256 == 0 {
                        tr.beat();
                    }
                }
            }
            Act::Look => self.full(tr)?,
        }
        Ok(())
    }

    fn refusal(&mut self, k: u8) -> R {
        let ts = self.b.ts;
        let dead = self.m.free.iter().next().copied().unwrap_or(self.m.ever() + 1);
        let last = self.at(Pos::Last);
        let un = (0..NT).find(|t| self.m.reg >> t & 1 == 0).unwrap();
        let big = self.m.ever() + (1 << 32);
        let w = &mut self.w;
        self.ops += 1;
        let (what, r) = match k {
            0 => (format!("remove_entity({dead})"), guarded(|| w.remove_entity(nz(dead)))),
            1 => (format!("attach_component({dead})"), guarded(|| with_type!(ts[0], T => w.attach_component::<T>(nz(dead), T::make())))),
            2 => (format!("detach_component({dead})"), guarded(|| with_type!(ts[0], T => drop(w.detach_component::<T>(nz(dead)))))),
            3 => (format!("remove_entity({big})"), guarded(|| w.remove_entity(nz(big)))),
            4 => (format!("attach_component({big})"), guarded(|| with_type!(ts[0], T => w.attach_component::<T>(nz(big), T::make())))),
            5 => match last {
                Some(i) => (format!("attach_component({i}) of a type that is not registered"), guarded(|| with_type!(un, T => w.attach_component::<T>(nz(i), T::make())))),
                None => return Ok(()),
            },
            6 => match last {
                Some(i) => (format!("detach_component({i}) of a type that is not registered"), guarded(|| with_type!(un, T => drop(w.detach_component::<T>(nz(i)))))),
                None => return Ok(()),
            },
            7 => (format!("register({}) again", TNAMES[ts[0]]), guarded(|| with_type!(ts[0], T => { w.register::<T>(); }))),
            8 => {
                let gr = GroupId { kind: 0, a: ts[0] as u8, b: un as u8 };
                (format!("make_group({gr})"), guarded(|| make_group(w, gr)))
            }
            _ => match self.m.groups.first().copied() {
                Some(gr) => (format!("make_group({gr}) again"), guarded(|| make_group(w, gr))),
                None => return Ok(()),
            },
        };
        match r {
            Ok(()) => self.bad(Tag::NotRefused, || format!("{what} was not refused")),
            Err((e, true)) => self.bad(Tag::Hang, || format!("{what}: {e}")),
            Err(_) => Ok(()),
        }
    }

    // ------------------------------------------------------------ looking

    fn watched(&mut self, what: &str, f: impl FnOnce(&World, &Bm, &mut Rep)) -> R {
        let Run_ { w, m, rep, .. } = self;
        let mut local = Rep { mon: rep.mon, found: rep.found.take(), other: rep.other, compared: rep.compared };
        let r = guarded(|| f(w, m, &mut local));
        **rep = local;
        if let Err((e, hang)) = r {
            rep.issue(if hang { Tag::Hang } else { Tag::Panic }, || format!("{what}: {e}"));
            return Err(());
        }
        let c = parking_lot::mc::ctl();
        if !c.held.is_empty() {
            rep.issue(Tag::LockLeak, || format!("{what}: locks are still held"));
            return Err(());
        }
        if rep.found.is_some() { Err(()) } else { Ok(()) }
    }

    fn exist(&mut self) -> R {
        self.watched("existence check", |w, m, rep| {
            let top = m.ever();
            let some: Vec<usize> = [1, 2, top / 2, top].into_iter().filter(|i| *i > 0 && *i <= top).collect();
            let far: Vec<usize> = some.iter().flat_map(|i| (3..64).map(move |k| i.wrapping_add(1usize << k))).filter(|i| *i > top).chain([usize::MAX]).collect();
            for x in (1..=top + 3).chain(far) {
                let want = m.is_alive(x);
                let got = w.exist(nz(x));
                if got != want {
                    rep.issue(Tag::Exist, || format!("exist({x}) is {got}, expected {want}"));
                    return;
                }
                let e = w.entity(nz(x)).map(|e| e.into_id().get());
                if e != want.then_some(x) {
                    rep.issue(Tag::Exist, || format!("entity({x}) gives {e:?}"));
                    return;
                }
                rep.compared += 2;
            }
        })
    }

    fn reads(&mut self) -> R {
        for t in self.b.ts {
            self.watched("component reads", |w, m, rep| with_type!(t, T => reads_of::<T>(w, m, rep)))?;
        }
        if let Some(e) = reg().read_err.take() {
            self.rep.issue(Tag::Drop, || e.clone());
            return self.bad(Tag::Read, || e);
        }
        Ok(())
    }

    fn shape(&mut self, s: &QShape) -> R {
        if !self.m.accepts(s) {
            return Ok(());
        }
        let tag = shape_tag(s);
        self.watched(&format!("query {}", s.name), |w, m, rep| shape(w, m, s, tag, rep))?;
        if let Some(e) = reg().read_err.take() {
            return self.bad(tag, || format!("query {}: {e}", s.name));
        }
        Ok(())
    }

    fn packed(&mut self) -> R {
        if !self.b.look.pack {
            return Ok(());
        }
        self.watched("storage views", |w, m, rep| {
            for g in m.groups.iter().filter(|g| g.kind != 2) {
                crate::obs::packed_group(w, *g, m.ids(), |i, t| m.comp(i, t).map(|c| c.0), rep);
            }
        })
    }

    /// After every step of a mass operation.
    fn brief(&mut self, tr: &mut Trace) -> R {
        tr.beat();
        let b = self.b;
        if b.look.drops {
            live(&self.m, self.rep, "");
            if self.rep.found.is_some() {
                return Err(());
            }
        }
        self.packed()?;
        let (ex, rd) = (b.look.exist, b.look.reads);
        if ex || rd {
            let ts = b.ts;
            self.watched("brief look", |w, m, rep| {
                for x in 1..=m.ever() + 2 {
                    if ex && w.exist(nz(x)) != m.is_alive(x) {
                        rep.issue(Tag::Exist, || format!("exist({x}) is {}", !m.is_alive(x)));
                        return;
                    }
                }
                if rd {
                    for t in ts {
                        with_type!(t, T => {
                            let s = w.components_read::<T>().expect("registered");
                            for x in 1..=m.ever() + 2 {
                                let (got, want) = (s.get(nz(x)).map(|c| (c.tok(), c.val())), m.comp(x, t));
                                if got != want {
                                    rep.issue(Tag::Read, || format!("components_read::<{}>.get({x}) gives {got:?}, expected {want:?}", TNAMES[t]));
                                    return;
                                }
                            }
                            rep.compared += m.ever() as u64;
                        });
                    }
                }
            })?;
        }
        for &i in &b.look.brief {
            let s = &self.cat.all[i];
            if !self.m.accepts(s) {
                continue;
            }
            let tag = shape_tag(s);
            self.watched(&format!("query {}", s.name), |w, m, rep| {
                let want: Vec<(usize, Parts)> = m.ids().filter_map(|i| m.expect(s, i).map(|p| (i, p))).collect();
                let mut got = vec![];
                (s.run)(w).drain_with_id(&mut got, want.len() + 4);
                got.sort_by_key(|x| x.0);
                rep.compared += 1;
                if got != want {
                    rep.issue(tag, || format!("query {} with ids: {}", s.name, differ(&got, &want)));
                }
            })?;
        }
        Ok(())
    }

    fn full(&mut self, tr: &mut Trace) -> R {
        tr.looking();
        let b = self.b;
        if b.look.drops {
            live(&self.m, self.rep, "");
        }
        self.packed()?;
        if b.look.exist {
            self.exist()?;
        }
        if b.look.reads {
            self.reads()?;
        }
        for &i in &b.look.shapes {
            self.shape(&self.cat.all[i])?;
            tr.beat();
        }
        for &i in &b.look.cursor {
            let s = &self.cat.all[i];
            if self.m.accepts(s) {
                let mut n = 0;
                self.watched(&format!("query {}", s.name), |w, m, rep| cursor(w, m, s, rep, &mut n, tr))?;
                self.seqs += n;
            }
        }
        for &i in &b.look.writes {
            let s = &self.cat.all[i];
            if self.m.accepts(s) {
                self.writes(s)?;
                tr.beat();
            }
        }
        if self.rep.found.is_some() { Err(()) } else { Ok(()) }
    }

    /// Write through every item of a query, three ways, and read everything back.
    fn writes(&mut self, s: &QShape) -> R {
        for mode in 0..3 {
            let base = 1000 * (mode + 1) as u32;
            let mut wrote: Vec<(usize, u8, u32)> = vec![];
            {
                let (w, m) = (&self.w, &self.m);
                let toks = |p: &Parts| p.get().iter().map(|x| x.tok).collect::<Vec<_>>();
                let wr = &mut wrote;
                let mut put = |id: usize, p: &Parts| {
                    for (k, x) in p.get().iter().enumerate() {
                        if !x.ptr.is_null() {
                            let v = base + 7 * id as u32 + k as u32;
                            unsafe { *x.ptr = v };
                            wr.push((id, x.ty, v));
                        }
                    }
                };
                let owner: std::collections::HashMap<Vec<u32>, usize> = m.ids().filter_map(|i| m.expect(s, i).map(|p| (toks(&p), i))).collect();
                let cap = owner.len() + 4;
                let r = guarded(|| {
                    let mut it = (s.run)(w);
                    let mut k = 0;
                    match mode {
                        0 => {
                            while let Some(p) = it.next() {
                                if let Some(i) = owner.get(&toks(&p)) {
                                    put(*i, &p)
                                }
                                k += 1;
                                if k > cap {
                                    break;
                                }
                            }
                        }
                        1 => {
                            while let Some((i, p)) = it.next_with_id() {
                                put(i, &p);
                                k += 1;
                                if k > cap {
                                    break;
                                }
                            }
                        }
                        _ => {
                            for i in m.ids() {
                                if let Some(p) = it.from_id(i) {
                                    put(i, &p)
                                }
                            }
                        }
                    }
                });
                if let Err((e, h)) = r {
                    return self.bad(if h { Tag::Hang } else { Tag::Panic }, || format!("query {}: {e}", s.name));
                }
            }
            let items = self.m.ids().filter(|i| self.m.expect(s, *i).is_some()).count() * s.leaves.iter().filter(|l| l.1 && l.0 as usize != D).count();
            if wrote.len() != items {
                return self.bad(Tag::Write, || format!("query {} wrote {} values in mode {mode}, expected {items}", s.name, wrote.len()));
            }
            for (i, t, v) in wrote {
                if i < self.m.comps.len() {
                    self.m.comps[i][t as usize].1 = v;
                }
            }
            for t in self.b.ts {
                self.watched("reading back", |w, m, rep| {
                    with_type!(t, T => {
                        let st = w.components_read::<T>().expect("registered");
                        for x in 1..=m.ever() {
                            let (got, want) = (st.get(nz(x)).map(|c| (c.tok(), c.val())), m.comp(x, t));
                            if got != want {
                                rep.issue(Tag::Write, || format!("after writing through {} (mode {mode}), {} of {x} reads {got:?}, expected {want:?}", s.name, TNAMES[t]));
                                return;
                            }
                        }
                        rep.compared += m.ever() as u64;
                    })
                })?;
            }
        }
        Ok(())
    }
}

/// The first difference between two sorted lists.
fn differ(got: &[(usize, Parts)], want: &[(usize, Parts)]) -> String {
    let k = got.iter().zip(want).position(|(a, b)| a != b).unwrap_or(got.len().min(want.len()));
    format!("{} items, expected {}; first difference at {:?} / expected {:?}", got.len(), want.len(), got.get(k), want.get(k))
}

fn reads_of<T: Comp>(w: &World, m: &Bm, rep: &mut Rep) {
    let t = T::T;
    let n = TNAMES[t];
    let tv = |c: &T| (c.tok(), c.val());
    let top = m.ever();
    let mut all: Vec<Val> = m.ids().filter_map(|i| m.comp(i, t)).collect();
    all.sort();
    macro_rules! cmp {
        ($got:expr, $want:expr, $($a:tt)*) => {{
            let (g, x) = ($got, $want);
            rep.compared += 1;
            if g != x {
                rep.issue(Tag::Read, || format!("{} gives {:?}, expected {:?}", format!($($a)*), g, x));
                return;
            }
        }};
    }
    let sorted = |mut v: Vec<Val>| {
        v.sort();
        v
    };
    {
        let s = w.components_read::<T>().expect("registered");
        cmp!(s.count(), all.len(), "components_read::<{n}>.count");
        cmp!(s.is_empty(), all.is_empty(), "components_read::<{n}>.is_empty");
        if sorted(s.data().iter().map(tv).collect()) != all {
            rep.issue(Tag::Read, || format!("components_read::<{n}>.data differs ({} values, expected {})", s.data().len(), all.len()));
            return;
        }
        for x in 1..=top + 3 {
            let want = m.comp(x, t);
            cmp!(s.exist(nz(x)), want.is_some(), "components_read::<{n}>.exist({x})");
            cmp!(s.get(nz(x)).map(tv), want, "components_read::<{n}>.get({x})");
        }
        for k in 3..64 {
            let x = top.max(1).wrapping_add(1usize << k);
            if x > top {
                cmp!(s.get(nz(x)).is_some(), false, "components_read::<{n}>.get({x})");
                cmp!(s.exist(nz(x)), false, "components_read::<{n}>.exist({x})");
            }
        }
    }
    {
        let mut s = w.components_write::<T>().expect("registered");
        cmp!(s.count(), all.len(), "components_write::<{n}>.count");
        if sorted(s.data_mut().iter().map(|c| (c.tok(), c.val())).collect()) != all {
            rep.issue(Tag::Read, || format!("components_write::<{n}>.data_mut differs"));
            return;
        }
        for x in 1..=top + 3 {
            cmp!(s.get_mut(nz(x)).map(|c| (c.tok(), c.val())), m.comp(x, t), "components_write::<{n}>.get_mut({x})");
        }
    }
    for x in 1..=top + 3 {
        let want = m.comp(x, t);
        cmp!(w.entity_component_read::<T>(nz(x)).map(|c| tv(&*c)), want, "entity_component_read::<{n}>({x})");
        cmp!(w.entity_component_write::<T>(nz(x)).map(|c| tv(&*c)), want, "entity_component_write::<{n}>({x})");
    }
}

fn shape(w: &World, m: &Bm, s: &QShape, tag: Tag, rep: &mut Rep) {
    let want: Vec<(usize, Parts)> = m.ids().filter_map(|i| m.expect(s, i).map(|p| (i, p))).collect();
    let cap = want.len() + 4;
    let mut got = vec![];
    {
        let mut it = (s.run)(w);
        while let Some(p) = it.next() {
            got.push(key(&p));
            if got.len() > cap {
                break;
            }
        }
    }
    got.sort();
    let mut exp: Vec<_> = want.iter().map(|x| key(&x.1)).collect();
    exp.sort();
    rep.compared += 3;
    if got != exp {
        rep.issue(tag, || {
            let lost = exp.iter().find(|x| !got.contains(x));
            let more = got.iter().find(|x| !exp.contains(x));
            format!("query {} yields {} items, expected {} (missing e.g. {lost:?}, too many e.g. {more:?})", s.name, got.len(), exp.len())
        });
        return;
    }
    let mut got = vec![];
    (s.run)(w).drain_with_id(&mut got, cap);
    got.sort_by_key(|x| x.0);
    if got != want {
        rep.issue(tag, || format!("query {} with ids: {}", s.name, differ(&got, &want)));
        return;
    }
    let mut it = (s.run)(w);
    let top = m.ever();
    let far = (3..64).map(|k| top.max(1).wrapping_add(1usize << k)).filter(|x| *x > top);
    for x in (1..=top + 3).chain(far) {
        let want = m.expect(s, x);
        let got = it.from_id(x);
        if got != want {
            rep.issue(tag, || format!("query {} asked for id {x} gives {got:?}, expected {want:?}", s.name));
            return;
        }
    }
    // the same after half of the steps
    for _ in 0..want.len() / 2 {
        it.next();
    }
    for (x, p) in &want {
        let got = it.from_id(*x);
        if got != Some(*p) {
            rep.issue(tag, || format!("query {} asked for id {x} after {} steps gives {got:?}, expected {p:?}", s.name, want.len() / 2));
            return;
        }
    }
}

/// Size hints at every position, skips of every length from a few positions, ids asked at every
/// position.
fn cursor(w: &World, m: &Bm, s: &QShape, rep: &mut Rep, count: &mut u64, tr: &mut Trace) {
    let want: Vec<(usize, Parts)> = m.ids().filter_map(|i| m.expect(s, i).map(|p| (i, p))).collect();
    let n = want.len();
    let exact = matches!(s.cls, Cls::Single | Cls::Group);
    let mut exp: Vec<_> = want.iter().map(|x| key(&x.1)).collect();
    exp.sort();
    let hint_ok = |h: (usize, Option<usize>), left: usize| h.0 <= left && h.1.is_none_or(|u| u >= left) && (!exact || h == (left, Some(left)));
    // all steps, with a hint before each; plain and id steps in turn
    for mode in 0..3 {
        *count += 1;
        let mut it = (s.run)(w);
        let mut got = vec![];
        for k in 0..=n {
            let h = it.size_hint();
            rep.compared += 1;
            if !hint_ok(h, n - k) {
                rep.issue(Tag::Cursor, || format!("query {}: after {k} of {n} items the size hint is {h:?}", s.name));
                return;
            }
            if mode == 2 && n > 0 {
                // an id between the steps
                let (id, p) = &want[(k * 7) % n];
                let g = it.from_id(*id);
                if g != Some(*p) {
                    rep.issue(Tag::Cursor, || format!("query {} asked for {id} after {k} steps gives {g:?}", s.name));
                    return;
                }
                let miss = m.ever() + 1 + k;
                if it.from_id(miss).is_some() {
                    rep.issue(Tag::Cursor, || format!("query {} has an item for {miss} after {k} steps", s.name));
                    return;
                }
            }
            let r = if mode == 1 || (mode == 2 && k % 2 == 1) {
                it.next_with_id().map(|(id, p)| {
                    if m.expect(s, id) != Some(p) {
                        rep.issue(Tag::Cursor, || format!("query {}: step {k} gives id {id} with {p:?}", s.name));
                    }
                    p
                })
            } else {
                it.next()
            };
            match r {
                Some(p) => got.push(key(&p)),
                None => break,
            }
        }
        if it.next().is_some() || it.next_with_id().is_some() {
            rep.issue(Tag::Cursor, || format!("query {} goes on after its end", s.name));
            return;
        }
        got.sort();
        if got != exp {
            rep.issue(Tag::Cursor, || format!("query {} in mode {mode} yields {} items, expected {n}, or others", s.name, got.len()));
            return;
        }
    }
    // skips: j plain steps, then nth(k), then the rest must be the other items
    let starts = [0, 1, n / 2];
    for (q, &j) in starts.iter().enumerate() {
        if starts[..q].contains(&j) || j > n {
            continue;
        }
        for k in 0..=n - j + 1 {
            *count += 1;
            tr.beat();
            let mut it = (s.run)(w);
            let mut got = vec![];
            for _ in 0..j {
                got.extend(it.next().map(|p| key(&p)));
            }
            let r = it.nth(k);
            let left = n - j;
            rep.compared += 1;
            if r.is_some() != (k < left) {
                rep.issue(Tag::Cursor, || format!("query {}: nth({k}) with {left} items left gives {r:?}", s.name));
                return;
            }
            let rest = left.saturating_sub(k + 1);
            let h = it.size_hint();
            if !hint_ok(h, rest) {
                rep.issue(Tag::Cursor, || format!("query {}: after {j} steps and nth({k}) the size hint is {h:?}, {rest} items are left", s.name));
                return;
            }
            got.extend(r.map(|p| key(&p)));
            let mut c = 0;
            while let Some(p) = it.next() {
                got.push(key(&p));
                c += 1;
                if c > rest {
                    break;
                }
            }
            let dup = {
                got.sort();
                // only values with an identity can be told apart
                s.leaves.iter().any(|l| l.0 as usize != D) && got.windows(2).any(|w| w[0] == w[1])
            };
            if c != rest || dup || !got.iter().all(|x| exp.binary_search(x).is_ok()) {
                rep.issue(Tag::Cursor, || format!("query {}: {j} steps, nth({k}), then {c} items follow, expected {rest}{}", s.name, if dup { ", one twice" } else { "" }));
                return;
            }
        }
    }
    // the rest through every adaptor
    for (q, &j) in starts.iter().enumerate() {
        if starts[..q].contains(&j) || j > n {
            continue;
        }
        for (ad, ids) in ADAPTORS.into_iter().flat_map(|a| [(a, false), (a, true)]) {
            let mut ks: Vec<usize> = if ad.uses_k() { vec![0, 1, (n - j) / 2, (n - j).saturating_sub(1), n - j] } else { vec![0] };
            ks.dedup();
            for k in ks {
                *count += 1;
                tr.beat();
                rep.compared += 1;
                let mut it = (s.run)(w);
                let before: Vec<Parts> = (0..j).filter_map(|_| it.next()).collect();
                let o = it.adapt(ids, ad, k, n + 3);
                if let Some(e) = judge_adapted(&o, ad, k, &want, &before, exact) {
                    rep.issue(Tag::Cursor, || format!("query {}{} after {j} steps, {ad:?} {k}: {e}", s.name, if ids { " with ids" } else { "" }));
                    return;
                }
            }
        }
    }
    let _ = group_tag;
}

// ---------------------------------------------------------------- the jobs

const A: usize = 0;
const B: usize = 1;
const C: usize = 2;
const E: usize = 4;

fn sizes(dense: usize, around: &[usize]) -> Vec<usize> {
    let mut v: BTreeSet<usize> = (0..=dense).collect();
    for a in around {
        v.extend(a - 1..=a + 2);
    }
    v.into_iter().collect()
}

/// Every script of one or two operations at marked positions.
fn points(two: bool) -> Vec<Vec<Act>> {
    let mut one = vec![];
    for p in POS {
        one.extend([Act::Remove(p), Act::Recycle(p), Act::Detach(0, p), Act::Attach(0, p), Act::Detach(1, p), Act::Attach(1, p)]);
    }
    let mut v: Vec<Vec<Act>> = one.iter().map(|a| vec![a.clone()]).collect();
    if two {
        for a in &one {
            for b in &one {
                v.push(vec![a.clone(), b.clone()]);
            }
        }
    }
    v
}
fn masses() -> Vec<Vec<Act>> {
    let mut v = vec![];
    for o in ORDS {
        v.push(vec![Act::RemoveAll(o), Act::Refill(1), Act::AttachAll(0, Ord_::Asc)]);
        v.push(vec![Act::DetachAll(0, o), Act::AttachAll(0, Ord_::Desc)]);
        v.push(vec![Act::RemoveEvery(2, o), Act::Refill(0), Act::AttachAll(1, Ord_::Inward), Act::AttachAll(0, o)]);
        v.push(vec![Act::RemoveEvery(3, o), Act::Block, Act::AttachAll(1, o), Act::DetachAll(1, o)]);
        v.push(vec![Act::AttachAll(1, o), Act::AttachAll(0, Ord_::Inward), Act::DetachAll(1, Ord_::Asc)]);
    }
    v
}
/// Every cycle of up to three operations, repeated.
fn cycles(times: usize, len: usize) -> Vec<Vec<Act>> {
    let al = [Act::Recycle(Pos::First), Act::Remove(Pos::Last), Act::Create, Act::Detach(0, Pos::First), Act::Attach(0, Pos::First), Act::Detach(1, Pos::Last), Act::Attach(1, Pos::Last)];
    let mut v: Vec<Vec<Act>> = vec![];
    let mut level: Vec<Vec<Act>> = vec![vec![]];
    for _ in 0..len {
        let mut next = vec![];
        for c in &level {
            for a in &al {
                let mut d = c.clone();
                d.push(a.clone());
                // worlds that only grow are covered by the sizes
                let bal: i32 = d.iter().map(|x| match x { Act::Create => 1, Act::Remove(_) => -1, _ => 0 }).sum();
                if bal <= 0 {
                    v.push(vec![Act::Loop(d.clone(), times)]);
                }
                next.push(d);
            }
        }
        level = next;
    }
    v
}

pub fn jobs(prop: &str, thorough: bool, cat: &Catalogue) -> Vec<Big> {
    let mut out: Vec<Big> = vec![];
    let p = |cls: &[Cls], gs: &[GroupId]| pick(cat, cls, mask(&[A, B, C]), gs);
    let sg = [vec![], vec![g(0, A, B)], vec![g(1, A, B)], vec![g(2, A, B)]];
    let tags = |t: &[Tag]| t.iter().fold(Tag::Panic as u32 | Tag::Hang as u32, |m, x| m | *x as u32);
    let few = |gs: &[GroupId]| -> Vec<usize> {
        let mut v: Vec<usize> = [A, B].iter().map(|t| cat.single[*t]).collect();
        v.extend(gs.iter().filter_map(|g| cat.group(*g)));
        v
    };
    // shapes over two types, or a few of three
    let mut sets: Vec<(Vec<GroupId>, When)> = vec![(vec![], When::Before)];
    let (mon, look, ts): (u32, Box<dyn Fn(&[GroupId]) -> Look>, [usize; 3]);
    let mut only_groups = false;
    let with_groups = |v: &mut Vec<(Vec<GroupId>, When)>| {
        for gs in &sg[1..] {
            v.push((gs.clone(), When::Before));
            v.push((gs.clone(), When::After));
        }
    };
    let three = |v: &mut Vec<(Vec<GroupId>, When)>| {
        v.push((vec![g(0, A, B), g(2, B, C)], When::After));
        v.push((vec![g(1, A, B), g(1, B, C)], When::Before));
        v.push((vec![g(2, A, B), g(1, C, A), g(1, B, C)], When::After));
    };
    match prop {
        "C01" | "C02" => {
            mon = if prop == "C01" { tags(&[Tag::Exist, Tag::Alive]) } else { tags(&[Tag::IdChoice, Tag::Alive]) };
            look = Box::new(|_| Look { exist: true, ..Default::default() });
            ts = [A, B, C];
        }
        "C03" => {
            mon = tags(&[Tag::Read, Tag::Detach]);
            look = Box::new(|_| Look { reads: true, ..Default::default() });
            ts = [A, B, E];
            with_groups(&mut sets);
        }
        "C04" => {
            mon = tags(&[Tag::Exist, Tag::Alive, Tag::Read, Tag::Single, Tag::Tuple, Tag::Without]) | GROUPS;
            look = Box::new(|gs| Look { exist: true, reads: true, shapes: p(&[Cls::Single, Cls::Group], gs), brief: few(gs), ..Default::default() });
            ts = [A, B, C];
            with_groups(&mut sets);
            three(&mut sets);
        }
        "C05" => {
            mon = tags(&[Tag::Exist, Tag::Read, Tag::Single, Tag::Tuple, Tag::Without]) | GROUPS;
            look = Box::new(|gs| Look { exist: true, reads: true, shapes: p(&[Cls::Single, Cls::Group], gs), ..Default::default() });
            ts = [A, B, C];
            with_groups(&mut sets);
        }
        "C06" => {
            mon = tags(&[Tag::Single]);
            look = Box::new(|gs| Look { shapes: p(&[Cls::Single], &[]), brief: few(gs), ..Default::default() });
            ts = [A, B, C];
            with_groups(&mut sets);
        }
        "C07" => {
            mon = tags(&[Tag::Tuple]);
            look = Box::new(|gs| Look { shapes: p(&[Cls::Tuple], gs), ..Default::default() });
            ts = [A, B, C];
            with_groups(&mut sets);
        }
        "C08" => {
            mon = tags(&[Tag::Without]);
            look = Box::new(|gs| Look { shapes: p(&[Cls::Without], gs), ..Default::default() });
            ts = [A, B, C];
            with_groups(&mut sets);
        }
        "C09" => {
            mon = tags(&[Tag::Cursor]);
            look = Box::new(|gs| Look { cursor: pick(cat, &[Cls::Single, Cls::Tuple, Cls::Without, Cls::Group], mask(&[A, B]), gs), ..Default::default() });
            ts = [A, B, C];
            with_groups(&mut sets);
        }
        "C10" | "C11" | "C12" => {
            let k = match prop {
                "C10" => 0,
                "C11" => 1,
                _ => 2,
            };
            mon = tags(&[[Tag::GroupFull, Tag::GroupPartial, Tag::GroupNon][k as usize], Tag::Admission]);
            look = Box::new(|gs| Look { shapes: p(&[Cls::Group], gs), brief: gs.iter().filter_map(|g| cat.group(*g)).collect(), ..Default::default() });
            ts = [A, B, C];
            sets = vec![(vec![g(k, A, B)], When::Before), (vec![g(k, A, B)], When::After), (vec![g(k, B, A)], When::Before), (vec![g(k, B, A)], When::After)];
        }
        "C13" => {
            mon = tags(&[]) | GROUPS;
            look = Box::new(|gs| Look { shapes: p(&[Cls::Group], gs), brief: gs.iter().filter_map(|g| cat.group(*g)).collect(), ..Default::default() });
            ts = [A, B, C];
            sets = vec![];
            three(&mut sets);
            sets.push((vec![g(0, A, B), g(1, C, A)], When::Before));
            sets.push((vec![g(0, A, B), g(2, A, B), g(1, C, B)], When::After));
            sets.push((vec![g(1, A, B), g(1, B, C), g(1, C, A)], When::After));
        }
        "C24" => {
            mon = tags(&[Tag::Pack]);
            look = Box::new(|_| Look { pack: true, ..Default::default() });
            ts = [A, B, C];
            sets = vec![];
            for k in 0..2 {
                for gr in [g(k, A, B), g(k, B, A)] {
                    sets.push((vec![gr], When::Before));
                    sets.push((vec![gr], When::After));
                }
            }
            three(&mut sets);
            sets.push((vec![g(0, A, B), g(1, C, A)], When::Before));
            sets.push((vec![g(0, A, B), g(2, A, B), g(1, C, B)], When::After));
            sets.push((vec![g(1, A, B), g(1, B, C), g(1, C, A)], When::After));
        }
        "C14" => {
            mon = tags(&[Tag::Exist, Tag::Alive, Tag::Read, Tag::Detach, Tag::Single, Tag::Tuple, Tag::Without]);
            look = Box::new(|_| Look { exist: true, reads: true, shapes: p(&[Cls::Single, Cls::Tuple, Cls::Without], &[]), ..Default::default() });
            ts = [A, B, C];
            sets = vec![];
            with_groups(&mut sets);
            three(&mut sets);
            only_groups = true;
        }
        "C16" => {
            mon = u32::MAX & !(Tag::Cursor as u32 | Tag::Write as u32);
            look = Box::new(|gs| Look { exist: true, reads: true, shapes: p(&[Cls::Single, Cls::Group], gs), drops: true, ..Default::default() });
            ts = [A, B, C];
            with_groups(&mut sets);
        }
        "C17" => {
            mon = tags(&[Tag::Drop]);
            look = Box::new(|_| Look { drops: true, reads: true, ..Default::default() });
            ts = [A, E, D];
            for k in 0..3 {
                sets.push((vec![g(k, A, E)], When::Before));
                sets.push((vec![g(k, E, A)], When::After));
            }
        }
        "C18" => {
            mon = tags(&[Tag::Write]);
            look = Box::new(|gs| Look { writes: pick(cat, &[Cls::Single, Cls::Tuple, Cls::Without, Cls::Group], mask(&[A, B]), gs).into_iter().filter(|i| cat.all[*i].leaves.iter().any(|l| l.1)).collect(), ..Default::default() });
            ts = [A, B, C];
            with_groups(&mut sets);
        }
        _ => return out,
    }
    let births = vec![Birth::One, Birth::Block, Birth::Holes];
    let dense = if thorough { 140 } else { 70 };
    let some_births = vec![Birth::Block];
    for (gs, when) in &sets {
        let n = format!("{}{}", gname(gs), if gs.is_empty() { "" } else if *when == When::Before { " made first" } else { " made last" });
        let groups = vec![(gs.clone(), *when)];
        let lk = look(gs);
        let mut add = |name: String, ns: Vec<usize>, births: Vec<Birth>, fills: Vec<Fill>, scripts: Vec<Vec<Act>>, lk: Look| {
            out.push(Big { name: format!("many: {name}, {n}"), mon, ts, ns, births, fills, groups: groups.clone(), scripts, look: lk, only_groups })
        };
        if prop == "C16" {
            let mut bad: Vec<Vec<Act>> = (0..10).map(|k| vec![Act::Bad(k)]).collect();
            bad.extend((0..10).map(|k| vec![Act::Remove(Pos::Mid), Act::Bad(k), Act::Create, Act::Bad((k + 3) % 10), Act::AttachAll(0, Ord_::Asc)]));
            add("refusals".into(), sizes(dense / 2, &[63, 127, 255]), vec![Birth::Block, Birth::Holes], vec![Fill::Every, Fill::All], bad.clone(), lk.clone());
            add("repeated refusals".into(), vec![3, 4], vec![Birth::One], vec![Fill::Every], (0..10).map(|k| vec![Act::Loop(vec![Act::Bad(k)], 260), Act::Create, Act::AttachAll(1, Ord_::Asc)]).chain((0..10).map(|k| vec![Act::Loop(vec![Act::Recycle(Pos::First), Act::Bad(k), Act::Attach(0, Pos::First)], 260)])).collect(), Look { shapes: vec![], brief: vec![], drops: false, ..lk.clone() });
            continue;
        }
        if prop == "C05" {
            let mut s: Vec<Vec<Act>> = vec![vec![], vec![Act::Block]];
            for p in [Pos::First, Pos::Mid, Pos::Last] {
                s.extend([vec![Act::Remove(p)], vec![Act::Detach(0, p)], vec![Act::Detach(1, p), Act::Attach(1, p)], vec![Act::Recycle(p), Act::Attach(0, p)]]);
            }
            add("blocks".into(), sizes(dense, &[100, 127, 255, 511, 1023]), vec![Birth::Block], vec![Fill::Blocks], s, lk.clone());
            continue;
        }
        let ids_only = prop == "C01" || prop == "C02";
        let cursor = prop == "C09";
        let fills = if ids_only { vec![Fill::None] } else { vec![Fill::All, Fill::Turns, Fill::Every, Fill::Halves, Fill::Ends, Fill::Weave, Fill::Blocks] };
        // every size
        let plain: Vec<Vec<Act>> = if ids_only {
            let mut v = points(false);
            v.retain(|a| matches!(a[0], Act::Remove(_) | Act::Recycle(_)));
            v.push(vec![Act::Block]);
            v
        } else {
            vec![vec![]]
        };
        let step = if cursor { 6 } else { 1 };
        let around: &[usize] = if cursor { &[] } else { &[100, 127, 255] };
        let ns = if cursor { (0..=dense / step).chain([15, 16, 17, 31, 32, 33, 63, 64, 65]).collect::<BTreeSet<_>>().into_iter().collect() } else { sizes(dense, around) };
        add("every size".into(), ns, if cursor { some_births.clone() } else { births.clone() }, fills.clone(), plain, lk.clone());
        // operations at marked places
        if !ids_only {
            let ns = if cursor { vec![6, 17] } else { sizes(8, &[16, 32, 64]) };
            add("one operation".into(), ns, some_births.clone(), vec![Fill::All, Fill::Turns, Fill::Every], points(false), lk.clone());
            if !cursor {
                add("two operations".into(), if thorough { vec![5, 9, 33, 65] } else { vec![6, 34] }, some_births.clone(), vec![Fill::Turns], points(true), lk.clone());
            }
        }
        // whole populations removed, refilled, rearranged
        if !cursor {
            let m = if ids_only {
                let mut v = vec![];
                for o in ORDS {
                    v.extend([vec![Act::RemoveAll(o), Act::Refill(2)], vec![Act::RemoveEvery(2, o), Act::Refill(1)], vec![Act::RemoveEvery(3, o), Act::Block, Act::Refill(0)], vec![Act::RemoveEvery(2, o), Act::RemoveAll(Ord_::Asc), Act::Block, Act::Refill(3)]]);
                }
                v
            } else {
                masses()
            };
            let ns = if thorough { sizes(70, &[127]) } else { sizes(12, &[16, 32, 64]) };
            add("whole populations".into(), ns, some_births.clone(), if ids_only { vec![Fill::None] } else { vec![Fill::Turns, Fill::Every] }, m, Look { writes: vec![], ..lk.clone() });
            add("long cycles".into(), vec![3], vec![Birth::One], vec![if ids_only { Fill::None } else { Fill::Every }], cycles(if thorough { 600 } else { 260 }, 3), Look { writes: vec![], ..lk.clone() });
            // more often than any counter of 16 bits
            let few = |v: &[Act]| vec![Act::Loop(v.to_vec(), 65_540)];
            let mut rounds = vec![few(&[Act::Recycle(Pos::First)]), few(&[Act::Remove(Pos::Last), Act::Create])];
            if !ids_only {
                rounds.extend([few(&[Act::Attach(0, Pos::First)]), few(&[Act::Detach(0, Pos::First), Act::Attach(0, Pos::First)]), few(&[Act::Recycle(Pos::Last), Act::Attach(0, Pos::Last), Act::Attach(1, Pos::Last)])]);
            }
            add("very long cycles".into(), vec![3], vec![Birth::One], vec![if ids_only { Fill::None } else { Fill::Every }], rounds, Look { writes: vec![], ..lk.clone() });
        }
    }
    if prop == "C01" || prop == "C02" || prop == "C03" || prop == "C06" {
        // a few very large ones
        let lk = look(&[]);
        out.push(Big {
            name: "many: very large".into(),
            mon,
            ts,
            ns: if thorough { vec![1000, 4096, 65_535, 65_537, 70_000] } else { vec![1024, 4097, 65_537] },
            births: vec![Birth::One, Birth::Block],
            fills: vec![if prop == "C03" || prop == "C06" { Fill::OneType } else { Fill::None }],
            groups: vec![(vec![], When::Before)],
            scripts: vec![vec![], vec![Act::Remove(Pos::Mid), Act::Create, Act::Remove(Pos::Last), Act::Remove(Pos::First)], vec![Act::Detach(0, Pos::Mid), Act::Detach(0, Pos::Last), Act::Block]],
            look: Look { brief: vec![], ..lk },
            only_groups,
        });
    }
    out
}
