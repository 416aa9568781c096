//! The sequential explorations of each property.

use crate::bfs::*;
use crate::exec::*;
use crate::model::*;
use crate::shapes::*;
use crate::tok::*;

/// An alphabet: which operations are tried in a state.
#[derive(Clone, Default)]
pub struct Al {
    pub ids: usize,
    pub create: bool,
    pub create_n: Vec<usize>,
    pub create_with: Vec<u8>,
    pub remove: bool,
    pub remove_h: bool,
    pub recycle: bool,
    pub attach: Vec<usize>,
    pub attach_h: Vec<usize>,
    pub detach: Vec<usize>,
    pub detach_h: Vec<usize>,
    /// only these ids are attached to / detached from
    pub targets: Vec<usize>,
    pub make: Vec<GroupId>,
    /// groups are made in the listed order only
    pub make_in_order: bool,
    pub register: Vec<usize>,
    pub bulk: Vec<(usize, usize)>,
    pub bulk_len: Vec<(usize, usize, usize)>,
    pub res: Vec<usize>,
    pub write: Vec<usize>,
    /// id codes for calls on entities that do not exist
    pub dead: Vec<u8>,
    /// types used in refused attaches and detaches
    pub dead_types: Vec<usize>,
    pub refused_make: bool,
    pub refused_register: bool,
    pub queries: Vec<usize>,
}

impl Al {
    pub fn gen(&self, m: &Model) -> Vec<Op> {
        let mut v = vec![];
        let ever = m.count_ever();
        let free = ever > m.count_alive();
        if self.create && (free || ever < self.ids) {
            v.push(op(CREATE, 0, 0, 0));
        }
        for &n in &self.create_n {
            if ever + n <= self.ids {
                v.push(op(CREATE_N, n, 0, 0));
            }
        }
        for &mask in &self.create_with {
            if free || ever < self.ids {
                v.push(op(CREATE_WITH, mask as usize, 0, 0));
            }
        }
        for &(n, s) in &self.bulk {
            if ever + n <= self.ids {
                v.push(op(BULK, n, s & 255, s >> 8));
            }
        }
        for &(n, l, t) in &self.bulk_len {
            if ever + n <= self.ids {
                v.push(op(BULK_LEN, n, l, t));
            }
        }
        for id in m.ids() {
            if self.remove {
                v.push(op(REMOVE, id, 0, 0));
            }
            if self.remove_h {
                v.push(op(REMOVE_H, id, 0, 0));
            }
            if self.recycle {
                v.push(op(RECYCLE, id, 0, 0));
            }
            if !self.targets.is_empty() && !self.targets.contains(&id) {
                continue;
            }
            for (k, ts) in [(ATTACH, &self.attach), (ATTACH_H, &self.attach_h), (DETACH, &self.detach), (DETACH_H, &self.detach_h)] {
                for &t in ts {
                    if m.registered(t) {
                        v.push(op(k, id, t, 0));
                    }
                }
            }
            for &t in &self.write {
                v.push(op(WRITE, id, t, 77));
            }
        }
        for (i, &g) in self.make.iter().enumerate() {
            if self.make_in_order && i != m.groups.len() {
                continue;
            }
            if m.admits(g) || self.refused_make {
                v.push(mk_make(g));
            }
        }
        for &t in &self.register {
            if !m.registered(t) || self.refused_register {
                v.push(op(REGISTER, t, 0, 0));
            }
        }
        for &r in &self.res {
            v.push(op(RES_REG, r, 0, 0));
            v.push(op(RES_WRITE, r, 5 + r, 0));
        }
        for &d in &self.dead {
            if m.is_alive(real_id(d)) {
                continue;
            }
            v.push(op(REMOVE, d as usize, 0, 0));
            for &t in &self.dead_types {
                v.push(op(ATTACH, d as usize, t, 0));
                v.push(op(DETACH, d as usize, t, 0));
            }
        }
        if !self.dead_types.is_empty() {
            // unregistered types on live entities
            if let Some(id) = m.ids().last() {
                for &t in &self.dead_types {
                    if !m.registered(t) {
                        v.extend([op(ATTACH, id, t, 0), op(ATTACH_H, id, t, 0), op(DETACH, id, t, 0), op(DETACH_H, id, t, 0)]);
                    }
                }
            }
        }
        for &q in &self.queries {
            v.push(op(QUERY, q & 255, q >> 8, 0));
        }
        v
    }
}

pub fn g(kind: u8, a: usize, b: usize) -> GroupId {
    GroupId { kind, a: a as u8, b: b as u8 }
}
pub fn regs(ts: &[usize]) -> Vec<Op> {
    ts.iter().map(|t| op(REGISTER, *t, 0, 0)).collect()
}
const A: usize = 0;
const B: usize = 1;
const C: usize = 2;
const E: usize = 4;
const ALL: [usize; 5] = [0, 1, 2, 3, 4];

const FAIL: u32 = Tag::Panic as u32 | Tag::Hang as u32;
pub const GROUPS: u32 = Tag::GroupFull as u32 | Tag::GroupPartial as u32 | Tag::GroupNon as u32;

fn tags(t: &[Tag]) -> u32 {
    t.iter().fold(FAIL, |m, x| m | *x as u32)
}

/// Shapes of these classes whose types are all in `mask` and whose groups are all in `gs`.
pub fn pick(cat: &Catalogue, cls: &[Cls], mask: u8, gs: &[GroupId]) -> Vec<usize> {
    (0..cat.all.len())
        .filter(|i| {
            let s = &cat.all[*i];
            cls.contains(&s.cls) && s.types & !mask == 0 && s.groups.iter().all(|g| gs.contains(g))
        })
        .collect()
}
pub fn mask(ts: &[usize]) -> u8 {
    ts.iter().fold(0, |m, t| m | 1 << t)
}

/// All groups over these types.
pub fn all_groups(ts: &[usize]) -> Vec<GroupId> {
    let mut v = vec![];
    for k in 0..3 {
        for &a in ts {
            for &b in ts {
                if a != b {
                    v.push(g(k, a, b));
                }
            }
        }
    }
    v
}

/// Admissible sets of `n` groups over three types, up to renaming of the types.
pub fn group_sets(n: usize) -> Vec<Vec<GroupId>> {
    let all = all_groups(&[A, B, C]);
    let perms = [[0, 1, 2], [0, 2, 1], [1, 0, 2], [1, 2, 0], [2, 0, 1], [2, 1, 0]];
    let canon = |s: &[GroupId]| {
        perms
            .iter()
            .map(|p| {
                let mut v: Vec<GroupId> = s.iter().map(|x| g(x.kind, p[x.a as usize], p[x.b as usize])).collect();
                v.sort();
                v
            })
            .min()
            .unwrap()
    };
    let mut out: Vec<Vec<GroupId>> = vec![];
    fn rec(all: &[GroupId], from: usize, cur: &mut Vec<GroupId>, n: usize, f: &mut dyn FnMut(&[GroupId])) {
        if cur.len() == n {
            f(cur);
            return;
        }
        for i in from..all.len() {
            if cur.iter().all(|h| h.owned() & all[i].owned() == 0) {
                cur.push(all[i]);
                rec(all, i + 1, cur, n, f);
                cur.pop();
            }
        }
    }
    rec(&all, 0, &mut vec![], n, &mut |s| {
        let c = canon(s);
        if !out.contains(&c) {
            out.push(c);
        }
    });
    out
}

pub fn gname(gs: &[GroupId]) -> String {
    if gs.is_empty() { "nogroup".into() } else { gs.iter().map(|x| x.to_string()).collect::<Vec<_>>().join("+") }
}

struct B_<'c> {
    cat: &'c Catalogue,
    mon: u32,
    out: Vec<Cfg>,
}

impl B_<'_> {
    fn add(&mut self, name: &str, prelude: Vec<Op>, al: Al, obs: Obs, merge: bool, depth: usize) -> &mut Cfg {
        self.out.push(Cfg {
            name: name.to_string(),
            prelude,
            alpha: Box::new(move |m| al.gen(m)),
            mon: self.mon,
            obs,
            merge,
            depth,
            max_states: 4_000_000,
            after_refusal: 0,
            faults: false,
        });
        self.out.last_mut().unwrap()
    }
}

fn with(mut a: Vec<Op>, b: Vec<Op>) -> Vec<Op> {
    a.extend(b);
    a
}

/// Attach and detach everything once, so that sparse indices have their final size.
fn warm(n: usize, ts: &[usize]) -> Vec<Op> {
    let mut v = regs(ts);
    v.push(op(CREATE_N, n, 0, 0));
    for &t in ts {
        for i in 1..=n {
            v.push(op(ATTACH, i, t, 0));
        }
        for i in 1..=n {
            v.push(op(DETACH, i, t, 0));
        }
    }
    v
}

fn base(ids: usize, ts: &[usize]) -> Al {
    Al { ids, create: true, remove: true, attach: ts.to_vec(), detach: ts.to_vec(), ..Al::default() }
}

pub fn jobs(prop: &str, thorough: bool, cat: &Catalogue) -> Vec<Cfg> {
    let mut b = B_ { cat, mon: 0, out: vec![] };
    let th = thorough as usize;
    match prop {
        "C01" | "C02" => {
            let c1 = prop == "C01";
            b.mon = if c1 { tags(&[Tag::Exist, Tag::Alive]) } else { tags(&[Tag::IdChoice, Tag::Alive]) };
            let obs = Obs { exist: true, ..Default::default() };
            let al = Al { ids: 6 + th, create: true, create_n: vec![0, 1, 2, 3], remove: true, remove_h: true, ..Al::default() };
            b.add("ids", vec![], al.clone(), obs.clone(), true, 99);
            b.add("ids after a big block", vec![op(CREATE_N, 3, 0, 0), op(REMOVE, 2, 0, 0)], Al { remove_h: false, ..al.clone() }, obs.clone(), true, 99);
            // calls on entities that do not exist must not disturb anything
            let dead = vec![1, 2, 3, 4, 5, 249, 250, 251, 252, 255];
            b.add("ids with refused removals", vec![], Al { ids: 4, dead: dead.clone(), ..al.clone() }, obs.clone(), true, 99).after_refusal = 2 + th;
            // not merged: no assumption about what the state is
            b.add("all histories", vec![], Al { ids: 5, create_n: vec![2], remove_h: false, ..al.clone() }, obs.clone(), false, 7 + th);
            b.add("all histories, blocks", vec![], Al { ids: 8, create_n: vec![0, 1, 3], remove_h: false, ..al.clone() }, obs.clone(), false, 5 + th);
            // with components and groups around
            for gs in [vec![], vec![g(0, A, B)], vec![g(1, A, B)], vec![g(2, A, B)]] {
                let mut al = base(3, &[A, B]);
                al.remove_h = true;
                al.make = gs.clone();
                al.create_with = vec![3];
                al.bulk = vec![(1, 0), (2, bulk_index(&[Step::All(0)])), (2, bulk_index(&[Step::All(0), Step::All(1)]))];
                b.add(&format!("with components, {}", gname(&gs)), regs(&[A, B]), Al { ids: 2 + th, ..al.clone() }, obs.clone(), true, 99);
                b.add(&format!("with components, warmed, {}", gname(&gs)), warm(3, &[A, B]), Al { attach: vec![A, B], detach: vec![A], ..al }, obs.clone(), true, 12);
            }
        }
        "C03" => {
            b.mon = tags(&[Tag::Read, Tag::Detach]);
            let obs = Obs { reads: true, ..Default::default() };
            for ts in [vec![A], vec![3], vec![E], vec![C]] {
                let n: String = ts.iter().map(|t| TNAMES[*t]).collect();
                let mut al = base(4, &ts);
                al.attach_h = ts.clone();
                al.detach_h = ts.clone();
                b.add(&format!("one type {n}"), regs(&ts), Al { ids: if ts == [A] { 4 } else { 3 }, ..al }, obs.clone(), true, 99);
            }
            for ts in [vec![A, B], vec![3, E], vec![A, 3]] {
                let n: String = ts.iter().map(|t| TNAMES[*t]).collect();
                let ids = if ts == [A, B] { 3 } else { 2 + th };
                b.add(&format!("two types {n}"), regs(&ts), base(ids, &ts), obs.clone(), true, 99);
            }
            b.add("five types", regs(&ALL), base(2, &ALL), obs.clone(), true, 5 + th);
            // far apart ids
            let mut al = base(9, &[A, B]);
            al.create = false;
            al.targets = vec![9, 2, 5];
            al.remove = false;
            b.add("far apart ids", with(regs(&[A, B]), vec![op(CREATE_N, 9, 0, 0)]), al, obs.clone(), true, 99);
            // registration at any time
            let mut al = base(2, &[A, B]);
            al.register = vec![A, B, E];
            b.add("late registration", vec![], al, obs.clone(), true, 99);
            // refused calls, other paths and bulk blocks in between
            let mut al = base(3, &[A, B]);
            al.dead = vec![1, 2, 3, 251, 255];
            al.dead_types = vec![A, E];
            al.attach_h = vec![A];
            al.detach_h = vec![B];
            al.remove_h = true;
            al.write = vec![A];
            al.create_with = vec![1, 3];
            al.bulk = vec![(2, bulk_index(&[Step::All(0)])), (1, bulk_index(&[Step::All(1), Step::All(0)]))];
            al.queries = vec![cat.by_name("&E")];
            b.add("all paths", regs(&[A, B]), al.clone(), obs.clone(), true, 6 + th);
            for t in [A, 3, E] {
                let n = if t == A { 7 } else { 6 };
                b.add(&format!("one type {}, {n} entities", TNAMES[t]), warm(n, &[t]), Al { create: false, remove: false, ..base(n, &[t]) }, obs.clone(), true, 99);
            }
            b.add("all histories", regs(&[A, B]), base(3, &[A, B]), obs.clone(), false, 5 + th);
            b.add("all histories from three entities", with(regs(&[A]), vec![op(CREATE_N, 3, 0, 0)]), base(3, &[A]), obs.clone(), false, 5 + th);
            for gs in [vec![g(0, A, B)], vec![g(1, A, B)], vec![g(2, A, B)]] {
                let mut al = base(2 + th, &[A, B]);
                al.make = gs.clone();
                b.add(&gname(&gs), regs(&[A, B]), al.clone(), obs.clone(), true, 99);
                al.ids = 3;
                b.add(&format!("warmed {}", gname(&gs)), with(warm(3, &[A, B]), gs.iter().map(|x| mk_make(*x)).collect()), Al { create: false, remove: false, recycle: true, ..al }, obs.clone(), true, 99);
            }
        }
        "C04" => {
            b.mon = tags(&[Tag::Exist, Tag::Alive, Tag::Read, Tag::Single, Tag::Tuple, Tag::Without]) | GROUPS;
            let after = 1 << REMOVE | 1 << REMOVE_H | 1 << RECYCLE;
            let obs = |gs: &[GroupId], ts: &[usize], cls: &[Cls]| Obs {
                exist: true,
                reads: true,
                shapes: pick(cat, cls, mask(ts), gs),
                only_after: after | 1 << CREATE | 1 << ATTACH | 1 << DETACH,
                ..Default::default()
            };
            let some = [Cls::Single, Cls::Group];
            let every = [Cls::Single, Cls::Group, Cls::Tuple, Cls::Without];
            for gs in [vec![], vec![g(0, A, B)], vec![g(1, A, B)], vec![g(2, A, B)]] {
                let pre = with(regs(&[A, B]), gs.iter().map(|x| mk_make(*x)).collect());
                let mut al = base(2 + th, &[A, B]);
                al.remove_h = true;
                b.add(&format!("two entities, {}", gname(&gs)), pre.clone(), al, obs(&gs, &[A, B], &every), true, 99);
                let mut al = base(3, &[A, B]);
                al.create = false;
                al.remove = false;
                al.recycle = true;
                let pre = with(warm(3, &[A, B]), gs.iter().map(|x| mk_make(*x)).collect());
                b.add(&format!("three entities, {}", gname(&gs)), pre, al, obs(&gs, &[A, B], &some), true, 99);
            }
            // every membership of three entities in five types, then a removal
            for first in 0..32u8 {
                let mut al = Al { ids: 3, create_with: (0..32).collect(), remove: true, ..Al::default() };
                al.create = false;
                let pre = with(regs(&ALL), vec![op(CREATE_WITH, first as usize, 0, 0)]);
                let al2 = al.clone();
                let c = b.add(&format!("membership {first}"), pre, al, Obs { exist: true, reads: true, shapes: pick(cat, &[Cls::Single], 31, &[]), only_after: after, ..Default::default() }, false, 3);
                c.alpha = Box::new(move |m| if m.count_alive() < 3 && m.ghost.freed.is_empty() { Al { remove: false, ..al2.clone() }.gen(m) } else if m.ghost.freed.is_empty() { Al { create_with: vec![], ..al2.clone() }.gen(m) } else { vec![] });
            }
            for n in 2..=3 {
                for gs in group_sets(n) {
                    let pre = with(regs(&[A, B, C]), gs.iter().map(|x| mk_make(*x)).collect());
                    let mut al = base(2, &[A, B, C]);
                    al.create = false;
                    al.remove = false;
                    al.recycle = true;
                    let pre = with(pre, vec![op(CREATE_N, 2, 0, 0)]);
                    b.add(&gname(&gs), pre.clone(), al, obs(&gs, &[A, B, C], &some), true, 99);
                }
            }
            for gs in group_sets(2) {
                // three entities that have chosen components, then removals and what follows
                let pre = with(regs(&[A, B, C]), gs.iter().map(|x| mk_make(*x)).collect());
                let mut al = base(3, &[A, B, C]);
                al.create_with = vec![7, 3, 6, 5];
                al.create = false;
                al.detach = vec![];
                b.add(&format!("build-up {}", gname(&gs)), pre, al, obs(&gs, &[A, B, C], &some), true, 5 + th);
            }
        }
        "C05" => {
            b.mon = tags(&[Tag::Exist, Tag::Read, Tag::Detach, Tag::Single, Tag::Tuple, Tag::Without, Tag::NotRefused]) | GROUPS;
            let mut sets = vec![vec![], vec![g(0, A, B)], vec![g(0, B, A)], vec![g(1, A, B)], vec![g(1, B, A)], vec![g(2, A, B)], vec![g(0, A, B), g(2, B, C)], vec![g(1, A, B), g(1, C, B)], vec![g(1, B, A), g(2, A, C)], vec![g(2, A, B), g(2, B, C), g(2, A, C)]];
            if thorough {
                sets.extend(group_sets(2));
            }
            let nscripts = 1 + 9 + 81 + 729;
            for gs in &sets {
                let obs = Obs { exist: true, reads: true, shapes: pick(cat, &[Cls::Single, Cls::Group], 7, gs), ..Default::default() };
                let full = Obs { shapes: pick(cat, &[Cls::Single, Cls::Group, Cls::Tuple, Cls::Without], 7, gs), ..obs.clone() };
                let mk: Vec<Op> = gs.iter().map(|x| mk_make(*x)).collect();
                let pre0 = with(regs(&[A, B, C]), mk.clone());
                // an older population, among them a free id
                let older = with(pre0.clone(), vec![op(CREATE_WITH, 1, 0, 0), op(CREATE_WITH, 3, 0, 0), op(CREATE_WITH, 2, 0, 0), op(CREATE_WITH, 7, 0, 0), op(REMOVE, 3, 0, 0)]);
                for (pn, pre, ids) in [("empty", pre0.clone(), 0), ("populated", older.clone(), 4)] {
                    // one block, every script of up to three steps
                    let al = Al { ids: ids + 3, bulk: (0..4).flat_map(|n| (0..nscripts).map(move |s| (n, s))).collect(), ..Al::default() };
                    b.add(&format!("{} {pn}: one block", gname(gs)), pre.clone(), al, full.clone(), false, 1);
                    // short scripts, then two ordinary operations
                    let first: Vec<Op> = (1..=3).flat_map(|n| (1..(10 + if n == 2 { 81 } else { 0 })).map(move |s| op(BULK, n, s & 255, s >> 8))).collect();
                    let mut al = base(ids + 3, &[A, B]);
                    al.targets = vec![ids + 1, ids + 2, ids + 3, 2];
                    let c = b.add(&format!("{} {pn}: block then operations", gname(gs)), pre.clone(), al.clone(), obs.clone(), false, 2 + th);
                    c.alpha = Box::new(move |m| if m.count_ever() <= ids { first.clone() } else { al.gen(m) });
                }
                // several blocks and wrong lengths
                let s1: Vec<(usize, usize)> = (0..3).flat_map(|n| (0..10).map(move |s| (n, s))).collect();
                let al = Al { ids: 7, bulk: s1, bulk_len: vec![(0, 1, A), (1, 0, A), (2, 1, A), (2, 3, B), (2, 0, B), (3, 2, A), (1, 1, E), (2, 2, E), (0, 0, E), (2, 2, A)], remove: true, ..Al::default() };
                b.add(&format!("{}: several blocks", gname(gs)), pre0, al, obs, false, 3);
            }
            // other types
            let al = Al { ids: 4, bulk: (0..3).flat_map(|n| (nscripts..nscripts + 5).map(move |s| (n, s))).collect(), remove: true, detach: vec![3, 4], ..Al::default() };
            b.add("zero-sized and heap types", regs(&ALL), al, Obs { reads: true, shapes: pick(cat, &[Cls::Single, Cls::Tuple], 31, &[]), ..Default::default() }, false, 3);
        }
        "C06" | "C07" | "C08" => {
            let (cls, tag) = match prop {
                "C06" => (Cls::Single, Tag::Single),
                "C07" => (Cls::Tuple, Tag::Tuple),
                _ => (Cls::Without, Tag::Without),
            };
            b.mon = tags(&[tag]);
            let obs = |ts: &[usize], gs: &[GroupId]| Obs { shapes: pick(cat, &[cls], mask(ts), gs), ..Default::default() };
            // every membership of three entities in five types
            for first in 0..32u8 {
                let al = Al { ids: 3, create_with: (0..32).collect(), ..Al::default() };
                let pre = with(regs(&ALL), vec![op(CREATE_WITH, first as usize, 0, 0)]);
                let o = if thorough || prop == "C06" || first % 4 == 3 { obs(&ALL, &[]) } else { obs(&[A, B, C, 3], &[]) };
                let depth = 2;
                b.add(&format!("membership {first}"), pre, al, o, false, depth);
            }
            // histories
            b.add("one type", regs(&[A]), base(4, &[A]), obs(&[A], &[]), true, 99);
            if prop == "C06" {
                b.add("one type, seven entities", warm(7, &[A]), Al { create: false, remove: false, ..base(7, &[A]) }, obs(&[A], &[]), true, 99);
            } else {
                b.add("two types, four entities", warm(4, &[A, B]), Al { create: false, remove: false, recycle: true, ..base(4, &[A, B]) }, obs(&[A, B], &[]), true, if thorough { 99 } else { 8 });
            }
            b.add("two types", regs(&[A, B]), base(2 + th, &[A, B]), obs(&[A, B], &[]), true, 99);
            b.add("three types", with(regs(&[A, B, C]), vec![op(CREATE_N, 2, 0, 0)]), Al { create: false, remove: false, recycle: true, ..base(2, &[A, B, C]) }, obs(&[A, B, C], &[]), true, 99);
            b.add("five types", with(regs(&ALL), vec![op(CREATE_N, 2, 0, 0)]), Al { create: false, ..base(2, &ALL) }, obs(&ALL, &[]), true, 5 + th);
            b.add("blocks", regs(&[A, B, C]), Al { ids: 5, bulk: vec![(2, 1), (2, 2), (2, bulk_index(&[Step::All(0), Step::All(1)])), (3, bulk_index(&[Step::All(1), Step::All(2)]))], ..base(5, &[A, B]) }, obs(&[A, B, C], &[]), true, 4 + th);
            // with groups: the shapes that contain them, and the others on rearranged storages
            for gs in [vec![g(0, A, B)], vec![g(1, A, B)], vec![g(2, A, B)]] {
                let mk: Vec<Op> = gs.iter().map(|x| mk_make(*x)).collect();
                b.add(&format!("{} two types", gname(&gs)), with(warm(3, &[A, B]), mk.clone()), Al { create: false, remove: false, recycle: true, ..base(3, &[A, B]) }, obs(&[A, B], &gs), true, 99);
                b.add(&format!("{} three types", gname(&gs)), with(with(regs(&[A, B, C]), mk.clone()), vec![op(CREATE_N, 2, 0, 0)]), Al { create: false, remove: false, recycle: true, ..base(2, &[A, B, C]) }, obs(&[A, B, C], &gs), true, 99);
                let al = Al { ids: 3, create_with: (0..16).collect(), ..Al::default() };
                b.add(&format!("{} membership", gname(&gs)), with(regs(&[A, B, C, 3]), mk.clone()), al, obs(&[A, B, C, 3], &gs), false, 3);
            }
            for gs in [vec![g(0, A, B), g(2, B, C)], vec![g(1, A, B), g(1, C, B)], vec![g(2, A, B), g(2, B, C)]] {
                let mk: Vec<Op> = gs.iter().map(|x| mk_make(*x)).collect();
                b.add(&gname(&gs), with(with(regs(&[A, B, C]), mk), vec![op(CREATE_N, 2, 0, 0)]), Al { create: false, remove: false, recycle: true, ..base(2, &[A, B, C]) }, obs(&[A, B, C], &gs), true, 99);
            }
        }
        "C09" => {
            b.mon = tags(&[Tag::Cursor]);
            let cur = |ts: &[usize], gs: &[GroupId], len: usize| Obs { cursor: Some((pick(cat, &[Cls::Single, Cls::Tuple, Cls::Without, Cls::Group], mask(ts), gs), len)), ..Default::default() };
            let wide = vec![31u8, 30, 29, 27, 23, 15, 7, 0];
            b.add("five types", regs(&ALL), Al { ids: 3, create_with: wide, ..Al::default() }, cur(&ALL, &[], 4), true, 3);
            let two: Vec<u8> = (0..8).collect();
            for f in 0..8u8 {
                let pre = with(regs(&[A, B, C]), vec![op(CREATE_WITH, f as usize, 0, 0)]);
                b.add(&format!("three types, {f} first"), pre, Al { ids: 3, create_with: two.clone(), ..Al::default() }, cur(&[A, B, C], &[], 4), false, 2);
            }
            // longer interleavings, fewer shapes
            let long = |gs: &[GroupId]| {
                let mut names = vec!["&A", "&mut A", "(&A,&B)", "(&mut A,&mut B)", "(&A,&B,&C)", "(&A,Without<&B>)", "(Without<&B>,&A)"];
                if !gs.is_empty() {
                    names.truncate(2);
                }
                let mut v: Vec<usize> = names.iter().map(|n| cat.by_name(n)).collect();
                v.extend(pick(cat, &[Cls::Group], 7, gs));
                Obs { cursor: Some((v, 6)), ..Default::default() }
            };
            b.add("long interleavings", regs(&[A, B, C]), Al { ids: 3, create_with: vec![1, 3, 7], ..Al::default() }, long(&[]), true, 3);
            for gs in [vec![g(0, A, B)], vec![g(1, A, B)], vec![g(2, A, B)]] {
                let mk: Vec<Op> = gs.iter().map(|x| mk_make(*x)).collect();
                b.add(&format!("{} long interleavings", gname(&gs)), with(regs(&[A, B, C]), mk.clone()), Al { ids: 4, create_with: vec![1, 3], ..Al::default() }, long(&gs), true, 4);
                b.add(&format!("{} all shapes", gname(&gs)), with(regs(&[A, B, C]), mk.clone()), Al { ids: 3, create_with: vec![3, 7, 5, 6], ..Al::default() }, cur(&[A, B, C], &gs, 4), true, 3);
                b.add(&format!("{} histories", gname(&gs)), with(warm(2, &[A, B]), mk), Al { create: false, remove: false, recycle: true, ..base(2, &[A, B]) }, cur(&[A, B], &gs, 4), true, 99);
            }
            b.add("histories", warm(2, &[A, B]), Al { create: false, remove: false, recycle: true, ..base(2, &[A, B]) }, cur(&[A, B], &[], 4), true, 99);
            b.add("histories of one type", warm(4, &[A]), Al { create: false, remove: false, recycle: true, ..base(4, &[A]) }, cur(&[A], &[], 5 + th), true, 99);
        }
        "C10" | "C11" | "C12" => {
            let kind = match prop {
                "C10" => 0,
                "C11" => 1,
                _ => 2,
            };
            b.mon = tags(&[[Tag::GroupFull, Tag::GroupPartial, Tag::GroupNon][kind as usize], Tag::Admission]);
            let gr = g(kind, A, B);
            let obs = |gs: &[GroupId], ts: &[usize]| Obs { shapes: pick(cat, &[Cls::Group], mask(ts), gs), ..Default::default() };
            let one = [gr];
            let mut al = base(2 + th, &[A, B]);
            al.make = vec![gr];
            b.add("made at any time", regs(&[A, B]), al.clone(), obs(&one, &[A, B]), true, 99);
            al.ids = 3;
            b.add("three entities, made at any time", warm(3, &[A, B]), al.clone(), obs(&one, &[A, B]), true, if thorough { 99 } else { 11 });
            b.add("three entities, other order of types", warm(3, &[A, B]), Al { make: vec![g(kind, B, A)], create: false, remove: false, recycle: true, ..al.clone() }, obs(&[g(kind, B, A)], &[A, B]), true, 99);
            b.add("four entities", with(warm(4, &[A, B]), vec![mk_make(gr)]), Al { create: false, remove: false, recycle: true, make: vec![], ids: 4, ..al.clone() }, obs(&one, &[A, B]), true, if thorough { 99 } else { 9 });
            b.add("four entities, made late", warm(4, &[A, B]), { let mut x = al.clone(); x.ids = 4; x.create = false; x.remove = false; x.detach = vec![]; x }, obs(&one, &[A, B]), true, 10);
            // all histories, not merged
            b.add("all histories", with(regs(&[A, B]), vec![op(CREATE_N, 2, 0, 0), mk_make(gr)]), Al { ids: 2, make: vec![], ..base(2, &[A, B]) }, obs(&one, &[A, B]), false, 5 + th);
            b.add("all histories of three full entities", with(regs(&[A, B]), vec![op(CREATE_WITH, 3, 0, 0), op(CREATE_WITH, 3, 0, 0), op(CREATE_WITH, 3, 0, 0), mk_make(gr)]), Al { ids: 3, make: vec![], ..base(3, &[A, B]) }, obs(&one, &[A, B]), false, 4 + th);
            // handles, blocks, creation with components
            let mut al = Al { ids: 4, attach_h: vec![A, B], detach_h: vec![A, B], remove_h: true, create_with: vec![3], bulk: vec![(2, bulk_index(&[Step::All(0)])), (2, bulk_index(&[Step::All(0), Step::All(1)])), (2, bulk_index(&[Step::All(1), Step::One(0, 0)]))], make: vec![gr], ..Al::default() };
            al.dead = vec![5];
            al.dead_types = vec![A];
            b.add("other paths", with(regs(&[A, B]), vec![op(CREATE_WITH, 1, 0, 0)]), al, obs(&one, &[A, B]), true, 5 + th);
            // other component types
            for (a2, b2) in [(A, 3), (3, E), (E, A)] {
                let gr = g(kind, a2, b2);
                let mut al = base(2, &[a2, b2]);
                al.make = vec![gr];
                b.add(&gname(&[gr]), regs(&[a2, b2]), al, obs(&[gr], &ALL), true, 99);
            }
            // another component type around
            let mut al = base(2, &[A, B, C]);
            al.make = vec![gr];
            al.create = false;
            al.remove = false;
            al.recycle = true;
            b.add("with a third type", with(regs(&[C, A, B]), vec![op(CREATE_N, 2, 0, 0)]), al, obs(&one, &[A, B]), true, 99);
        }
        "C13" => {
            b.mon = tags(&[Tag::GroupFull, Tag::GroupPartial, Tag::GroupNon]);
            let obs = |gs: &[GroupId]| Obs { shapes: pick(cat, &[Cls::Group], 7, gs), ..Default::default() };
            for n in 2..=3 {
                for gs in group_sets(n) {
                    let mut orders = vec![gs.clone()];
                    let mut r = gs.clone();
                    r.reverse();
                    orders.push(r);
                    for (i, o) in orders.iter().enumerate() {
                        // made first, in both orders; with creation and removal
                        let mk: Vec<Op> = o.iter().map(|x| mk_make(*x)).collect();
                        let pre = with(regs(&[A, B, C]), mk);
                        if i == 0 || n == 2 {
                            b.add(&format!("{} two entities", gname(o)), with(pre.clone(), vec![op(CREATE_N, 2, 0, 0)]), Al { create: false, remove: false, recycle: true, ..base(2, &[A, B, C]) }, obs(o), true, 99);
                        }
                        if n == 2 {
                            let mut al = base(3, &[A, B, C]);
                            al.create = false;
                            b.add(&format!("{} three entities", gname(o)), with(with(regs(&[A, B, C]), vec![op(CREATE_N, 3, 0, 0)]), o.iter().map(|x| mk_make(*x)).collect()), al, obs(o), true, if thorough { 10 } else { 5 });
                        } else if i == 0 {
                            b.add(&format!("{} build-up", gname(o)), pre.clone(), Al { ids: 3, create_with: vec![7, 3, 5, 6], create: false, ..base(3, &[A, B, C]) }, obs(o), true, 3 + th);
                        }
                    }
                    // made at any time
                    let mut al = base(2, &[A, B, C]);
                    al.create = false;
                    al.remove = false;
                    al.recycle = true;
                    al.make = gs.clone();
                    if n == 2 || thorough {
                        b.add(&format!("{} made at any time", gname(&gs)), with(regs(&[A, B, C]), vec![op(CREATE_N, 2, 0, 0)]), al, obs(&gs), true, 99);
                    }
                }
            }
            // three fully equipped entities under every pair
            for gs in group_sets(2) {
                let pre = with(with(regs(&[A, B, C]), gs.iter().map(|x| mk_make(*x)).collect()), vec![op(CREATE_WITH, 7, 0, 0), op(CREATE_WITH, 7, 0, 0), op(CREATE_WITH, 7, 0, 0)]);
                b.add(&format!("{} full entities", gname(&gs)), pre, base(3, &[A, B, C]), obs(&gs), true, if thorough { 8 } else { 5 });
            }
        }
        "C24" => {
            b.mon = tags(&[Tag::Pack]);
            // the histories of the groups' own checks
            for (p, c) in ["C10", "C11", "C13"].into_iter().flat_map(|p| jobs(p, thorough, cat).into_iter().map(move |c| (p, c))) {
                let name = if p == "C13" { c.name.clone() } else { format!("{}, {}", ["full-owning", "partial-owning"][(p == "C11") as usize], c.name) };
                b.out.push(Cfg { name, mon: b.mon, obs: Obs { pack: true, ..Default::default() }, ..c });
            }
        }
        "C25" => {
            b.mon = u32::MAX & !(Tag::Cursor as u32 | Tag::Write as u32 | Tag::Pack as u32 | Tag::IdChoice as u32);
            let some = |ts: &[usize], gs: &[GroupId]| Obs {
                exist: true,
                reads: true,
                drops: true,
                final_drop: true,
                shapes: pick(cat, &[Cls::Single, Cls::Group], mask(ts), gs),
                ..Default::default()
            };
            let sets: Vec<Vec<GroupId>> = vec![vec![], vec![g(0, A, E)], vec![g(1, A, E)], vec![g(2, A, E)], vec![g(0, E, A)], vec![g(1, E, A)], vec![g(2, E, A)], vec![g(0, A, E), g(2, E, C)], vec![g(1, E, A), g(1, A, C)], vec![g(2, A, E), g(2, C, A), g(1, C, E)]];
            for gs in &sets {
                let ts: Vec<usize> = if gs.len() > 1 { vec![A, C, E] } else { vec![A, E] };
                let mk: Vec<Op> = gs.iter().map(|x| mk_make(*x)).collect();
                // every destructor of every removal, of every replacement, one by one and in blocks
                let drops = |ids: usize, n: usize, ts: &[usize]| -> Box<dyn Fn(&Model) -> Vec<Op> + Send + Sync> {
                    let ts = ts.to_vec();
                    Box::new(move |m: &Model| {
                        let mut v = vec![];
                        for id in m.ids() {
                            for k in 1..=m.mask(id).count_ones() as usize {
                                v.extend([op(F_REMOVE, id, k, 0), op(F_REMOVE, id, k, 1)]);
                            }
                            for &t in &ts {
                                if m.comp(id, t).is_some() {
                                    v.extend([op(F_ATTACH, id, t, 0), op(F_ATTACH, id, t, 1)]);
                                }
                            }
                        }
                        for n in 1..=n {
                            if m.count_ever() + n > ids {
                                continue;
                            }
                            for mask in 1..1usize << n {
                                for k in 1..=mask.count_ones() as usize {
                                    for &t in &ts {
                                        for &other in ts.iter().filter(|o| **o != t) {
                                            v.extend([op(F_BULK, n | mask << 4, t | (other + 1) << 4, k)]);
                                        }
                                        if ts.len() == 2 {
                                            v.extend([op(F_BULK, n | mask << 4, t, k)]);
                                        }
                                    }
                                }
                            }
                        }
                        v
                    })
                };
                let mut join = |name: String, prelude: Vec<Op>, al: Al, f: Box<dyn Fn(&Model) -> Vec<Op> + Send + Sync>, obs: Obs, merge: bool, depth: usize| {
                    let c = b.add(&name, prelude, Al::default(), obs, merge, depth);
                    c.faults = true;
                    c.alpha = Box::new(move |m| {
                        let mut v = al.gen(m);
                        v.extend(f(m));
                        v
                    });
                };
                let pre = with(regs(&ts), mk.clone());
                join(format!("{}: destructors, two entities", gname(gs)), pre.clone(), base(2, &ts), drops(2, 2, &ts), some(&ts, gs), true, if thorough || ts.len() == 2 { 99 } else { 6 });
                let full = ts.iter().map(|t| 1 << t).sum::<usize>();
                let pop = with(pre.clone(), vec![op(CREATE_WITH, full, 0, 0), op(CREATE_WITH, full, 0, 0), op(CREATE_WITH, full, 0, 0), op(DETACH, 1, A, 0)]);
                join(format!("{}: destructors among four entities", gname(gs)), pop.clone(), Al { create_with: vec![full as u8], ..base(7, &ts) }, drops(6, 3, &ts), some(&ts, gs), false, 2 + (ts.len() == 2) as usize + th);
                // zero-sized
                if gs.is_empty() {
                    join("zero-sized: destructors".into(), regs(&[3, E]), base(2, &[3, E]), drops(2, 2, &[3, E]), some(&[3, E], &[]), true, 99);
                    let f: Box<dyn Fn(&Model) -> Vec<Op> + Send + Sync> = Box::new(|m| (0..4).filter(|r| *r != 2 && m.res[*r].is_some()).map(|r| op(F_RES, r, 0, 0)).collect());
                    join("resources".into(), vec![], Al { res: vec![0, 1, 3], ..Al::default() }, f, Obs { resources: true, drops: true, final_drop: true, ..Default::default() }, false, 4 + th);
                }
                // conversions and panics while something is held
                let mut q: Vec<usize> = pick(cat, &[Cls::Single, Cls::Group], mask(&ts), gs);
                q.extend(pick(cat, &[Cls::Tuple, Cls::Without], mask(&ts), gs).into_iter().step_by(if thorough { 1 } else { 5 }));
                let gs2 = gs.clone();
                let ts2 = ts.clone();
                let held: Box<dyn Fn(&Model) -> Vec<Op> + Send + Sync> = Box::new(move |m| {
                    let mut v = vec![op(F_HOLD, 1, 0, 0), op(F_CONV, 0, 0, A)];
                    if m.count_ever() + 2 <= 5 {
                        v.extend([op(F_HOLD, 1, 2, 0), op(F_CONV, 0, 1, A), op(F_CONV, 0, 2, E)]);
                    }
                    let id = m.ids().next().unwrap_or(1);
                    v.push(op(F_HOLD, 0, id, 0));
                    for &t in &ts2 {
                        for k in 2..6 {
                            v.push(op(F_HOLD, k, t, id));
                        }
                    }
                    for k in 6..8 {
                        v.push(op(F_HOLD, k, 0, 0));
                    }
                    for &i in &q {
                        if cat_ok(m, &gs2) {
                            for steps in 0..3 {
                                v.push(op(F_HOLD, 8 + steps, i & 255, i >> 8));
                            }
                        }
                    }
                    for x in [g(0, A, E), g(1, E, A), g(2, A, E), g(2, E, A)] {
                        if m.admits(x) {
                            for k in 1..3 {
                                v.push(op(F_CONV, k, pack_group(x) as usize, 0));
                            }
                        }
                    }
                    v
                });
                let pre = with(pre.clone(), vec![op(RES_REG, 0, 0, 0), op(CREATE_WITH, full, 0, 0), op(CREATE_WITH, 1, 0, 0)]);
                join(format!("{}: held while panicking", gname(gs)), pre, Al { make: vec![g(0, A, E), g(1, E, A), g(2, A, E)], ..base(3, &ts) }, held, Obs { resources: true, ..some(&ts, &all_groups(&ts)) }, false, 2 + th);
            }
        }
        "C14" => {
            b.mon = tags(&[Tag::Differ]);
            let lk = |ts: &[usize]| Obs { lockstep: Some(pick(cat, &[Cls::Single, Cls::Tuple, Cls::Without], mask(ts), &[])), ..Default::default() };
            for gs in [vec![g(0, A, B)], vec![g(1, A, B)], vec![g(2, A, B)]] {
                let mut al = base(2, &[A, B]);
                al.make = gs.clone();
                b.add(&format!("{} made at any time", gname(&gs)), regs(&[A, B]), al, lk(&[A, B]), true, 99);
                let pre = with(warm(3, &[A, B]), gs.iter().map(|x| mk_make(*x)).collect());
                b.add(&format!("{} three entities", gname(&gs)), pre, Al { create: false, remove: false, recycle: true, ..base(3, &[A, B]) }, lk(&[A, B]), true, 99);
                let mut al = base(3, &[A, B, C]);
                al.create_with = vec![3, 7];
                al.remove_h = true;
                al.attach_h = vec![A];
                al.detach_h = vec![B];
                al.bulk = vec![(2, bulk_index(&[Step::All(0)])), (2, bulk_index(&[Step::All(1), Step::All(0)]))];
                al.make = gs.clone();
                b.add(&format!("{} other paths", gname(&gs)), regs(&[A, B, C]), al, lk(&[A, B]), true, 4 + th);
                // late
                b.add(&format!("{} all histories", gname(&gs)), with(regs(&[A, B]), vec![op(CREATE_N, 2, 0, 0)]), Al { make: gs.clone(), ..base(2, &[A, B]) }, lk(&[A, B]), false, 4 + th);
            }
            for n in 2..=3 {
                for gs in group_sets(n) {
                    let mut al = base(2, &[A, B, C]);
                    al.create = false;
                    al.remove = false;
                    al.recycle = true;
                    al.make = gs.clone();
                    al.make_in_order = true;
                    b.add(&gname(&gs), with(regs(&[A, B, C]), vec![op(CREATE_N, 2, 0, 0)]), al, lk(&[A, B, C]), true, if thorough { 99 } else { 6 });
                }
            }
        }
        "C15" => {
            b.mon = tags(&[Tag::Admission, Tag::QueryAccept, Tag::LockLeak]);
            let accept = pick(cat, &[Cls::Group], 31, &all_groups(&ALL).into_iter().chain([g(2, A, A)]).collect::<Vec<_>>());
            let obs = Obs { accept, ..Default::default() };
            let mut make: Vec<GroupId> = all_groups(&[A, B, C]);
            for k in 0..3 {
                make.extend([g(k, A, A), g(k, B, B), g(k, A, E), g(k, E, A), g(k, E, E)]);
            }
            let pops: [(&str, Vec<Op>); 2] = [("empty", vec![]), ("populated", vec![op(CREATE_WITH, 7, 0, 0), op(CREATE_WITH, 3, 0, 0), op(CREATE_WITH, 6, 0, 0), op(CREATE_WITH, 1, 0, 0)])];
            for (n, pop) in &pops {
                for (i, first) in make.iter().enumerate() {
                    let pre = with(regs(&[A, B, C]), pop.clone());
                    let al = Al { ids: 9, make: make.clone(), refused_make: true, ..Al::default() };
                    let (fst, al2) = (*first, al.clone());
                    let c = b.add(&format!("{n}, {i}: {first} first"), pre, al, obs.clone(), false, 2 + (i < 18) as usize + th);
                    c.alpha = Box::new(move |m| if m.ghost.hw[3] == 0 && m.groups.is_empty() && !m.registered(3) { let _ = &al2; vec![mk_make(fst)] } else { al2.gen(m) });
                    // the first call may be refused: then the exploration of that job is the call alone
                }
            }
            let al = Al { ids: 2, make: vec![g(0, A, B), g(0, B, A), g(1, A, B), g(1, B, A), g(2, A, B), g(2, B, A), g(0, A, E), g(1, E, A), g(2, A, E), g(0, A, A), g(1, A, A)], refused_make: true, register: vec![A, B, E], create_with: vec![3], remove: true, ..Al::default() };
            let al2 = al.clone();
            let c = b.add("with registrations", vec![], al, obs.clone(), false, 4 + th);
            c.alpha = Box::new(move |m| Al { create_with: if m.registered(A) && m.registered(B) { vec![3] } else { vec![] }, ..al2.clone() }.gen(m));
            let al = Al { make: make.clone(), refused_make: true, ..base(2, &[A, B]) };
            b.add("between other operations", with(regs(&[A, B, C]), vec![op(CREATE_WITH, 3, 0, 0)]), al, obs, true, 3 + th);
        }
        "C16" => {
            b.mon = u32::MAX & !(Tag::Cursor as u32 | Tag::Write as u32);
            let refusal = |al: &mut Al| {
                al.dead = vec![1, 2, 3, 4, 251, 252, 255];
                al.dead_types = vec![A, E];
                al.refused_make = true;
                al.refused_register = true;
                al.register = vec![A];
                al.bulk_len = vec![(0, 1, A), (1, 0, A), (1, 1, E)];
                for n in ["&E", "&mut E", "(&A,&E)", "(&mut A,&E)", "(&E,Without<&A>)", "(&A,Without<&Dz>)", "(Without<&Dz>,&A)", "FullOwning<&A,&B>", "PartialOwning<&mut A,&mut B>", "NonOwning<&A,&mut B>", "FullOwning<&B,&A>", "NonOwning<&B,&A>", "FullOwning<&Dz,&E>", "NonOwning<&A,&Dz>", "(&C,FullOwning<&A,&B>)", "(&A,Without<FullOwning<&A,&B>>)", "(&A,&B,(&C,Without<&Dz>),&E)"] {
                    if let Some(i) = cat.all.iter().position(|s| s.name.replace(' ', "") == n) {
                        al.queries.push(i);
                    }
                }
                al.make = vec![g(0, A, B), g(0, A, A), g(1, A, A), g(0, A, E), g(0, E, A), g(1, A, E), g(1, E, A), g(2, A, E), g(2, E, A), g(1, A, B), g(1, B, A), g(2, A, B), g(0, B, A), g(0, E, E)];
            };
            let obs = |ts: &[usize], gs: &[GroupId]| Obs {
                exist: true,
                reads: true,
                drops: true,
                final_drop: true,
                shapes: pick(cat, &[Cls::Single, Cls::Group], mask(ts), gs),
                accept: pick(cat, &[Cls::Group], mask(&ALL), &all_groups(&ALL)).into_iter().filter(|i| matches!(cat.all[*i].expr, Expr::Grp(_, false, false))).collect(),
                ..Default::default()
            };
            let _ = thorough;
            for gs in [vec![], vec![g(0, A, B)], vec![g(1, A, B)], vec![g(2, A, B)]] {
                let mk: Vec<Op> = gs.iter().map(|x| mk_make(*x)).collect();
                let every = vec![g(0, A, B), g(1, A, B), g(1, B, A), g(2, A, B), g(0, B, A)];
                let mut al = base(2, &[A, B]);
                refusal(&mut al);
                b.add(&format!("{} one continuation", gname(&gs)), with(regs(&[A, B]), mk.clone()), al.clone(), obs(&[A, B], &every), true, 3 + th).after_refusal = 1;
                // fewer refused calls, more operations after them
                let mut few = al.clone();
                few.ids = 1 + th;
                few.dead = vec![1, 2, 255];
                few.dead_types = vec![E];
                few.bulk_len = vec![(1, 0, A), (1, 1, E)];
                few.queries = [few.queries[1], few.queries[7], few.queries[10]].into();
                few.make = vec![g(0, A, B), g(1, A, A), g(0, A, E), g(2, E, A), g(1, B, A), g(2, A, B)];
                b.add(&format!("{} two continuations", gname(&gs)), with(regs(&[A, B]), mk.clone()), few.clone(), obs(&[A, B], &every), true, 2).after_refusal = 2;
                al.ids = 3;
                b.add(&format!("{} populated", gname(&gs)), with(with(regs(&[A, B]), mk.clone()), vec![op(CREATE_WITH, 3, 0, 0), op(CREATE_WITH, 1, 0, 0), op(CREATE_WITH, 2, 0, 0)]), al, obs(&[A, B], &every), true, 1 + th).after_refusal = 1 + th;
            }
        }
        "C17" => {
            b.mon = tags(&[Tag::Drop]);
            let obs = Obs { drops: true, final_drop: true, ..Default::default() };
            let look = Obs { reads: true, ..obs.clone() };
            for ts in [vec![A], vec![3], vec![E], vec![C]] {
                let n: String = ts.iter().map(|t| TNAMES[*t]).collect();
                b.add(&format!("one type {n}"), regs(&ts), base(3, &ts), look.clone(), true, 99);
            }
            for t in [A, 3, E] {
                b.add(&format!("one type {}, six entities", TNAMES[t]), warm(6, &[t]), Al { create: false, remove: false, ..base(6, &[t]) }, look.clone(), true, 99);
            }
            b.add("two types, four entities", warm(4, &[A, E]), Al { create: false, remove: false, recycle: true, ..base(4, &[A, E]) }, obs.clone(), true, 10);
            b.add("two types", regs(&[A, E]), base(2 + th, &[A, E]), look.clone(), true, 99);
            b.add("two types with zero-sized", regs(&[3, E]), base(2 + th, &[3, E]), obs.clone(), true, 99);
            b.add("five types", regs(&ALL), base(2, &ALL), obs.clone(), true, 4 + th);
            let mut al = base(4, &[A, 3]);
            al.attach_h = vec![E];
            al.detach_h = vec![E];
            al.remove_h = true;
            al.bulk = (0..3).flat_map(|n| [1, 2, bulk_index(&[Step::All(0), Step::All(0)]), bulk_index(&[Step::One(0, 0), Step::All(0)]), 820, 821, 822, 823].into_iter().map(move |s| (n, s))).collect();
            al.bulk_len = vec![(2, 1, A), (1, 2, E), (0, 1, A), (2, 2, A), (2, 0, 3)];
            al.res = vec![0, 3];
            al.dead = vec![1, 3, 255];
            al.dead_types = vec![A, E];
            al.register = vec![A];
            al.refused_register = true;
            b.add("all paths", regs(&ALL), al.clone(), look.clone(), true, 3 + th);
            al.dead_types = vec![B];
            b.add("all paths, unregistered type", regs(&[A, 3, E]), Al { bulk: vec![(2, 1), (1, 2), (2, 2)], ..al }, obs.clone(), false, 3 + th);
            b.add("all histories", regs(&[A, E]), base(2, &[A, E]), obs.clone(), false, 5 + th);
            b.add("all histories of three entities", with(regs(&[E]), vec![op(CREATE_N, 3, 0, 0)]), base(3, &[E]), obs.clone(), false, 5 + th);
            b.add("blocks of every script", regs(&[A, B, C]), Al { ids: 3, bulk: (0..4).flat_map(|n| (0..820).map(move |s| (n, s))).collect(), ..Al::default() }, obs.clone(), false, 1);
            b.add("resources", vec![], Al { res: vec![0, 1, 2, 3], ..Al::default() }, obs.clone(), false, 4 + th);
            for gs in [vec![g(0, A, E)], vec![g(1, A, E)], vec![g(2, A, E)], vec![g(0, A, E), g(2, E, 3)]] {
                let mut al = base(2, &[A, E]);
                al.make = gs.clone();
                al.make_in_order = true;
                b.add(&gname(&gs), regs(&[A, 3, E]), al.clone(), look.clone(), true, 99);
                let mk: Vec<Op> = gs.iter().map(|x| mk_make(*x)).collect();
                b.add(&format!("{} three entities", gname(&gs)), with(warm(3, &[A, 3, E]), mk), Al { create: false, remove: false, recycle: true, ..base(3, &[A, E]) }, obs.clone(), true, 99);
            }
        }
        "C18" => {
            b.mon = tags(&[Tag::Write, Tag::Read]);
            let wr = |ts: &[usize], gs: &[GroupId]| {
                let s = pick(cat, &[Cls::Single, Cls::Tuple, Cls::Without, Cls::Group], mask(ts), gs);
                let w: Vec<usize> = s.iter().copied().filter(|i| cat.all[*i].leaves.iter().any(|l| l.1)).collect();
                let lite: Vec<usize> = s.iter().copied().filter(|i| matches!(cat.all[*i].expr, Expr::Leaf(..) | Expr::Grp(..))).collect();
                Obs { writes: Some((w, lite)), ..Default::default() }
            };
            for gs in [vec![], vec![g(0, A, B)], vec![g(1, A, B)], vec![g(2, A, B)], vec![g(0, B, A)], vec![g(1, B, A)], vec![g(2, B, A)]] {
                let mk: Vec<Op> = gs.iter().map(|x| mk_make(*x)).collect();
                b.add(&format!("{} two entities", gname(&gs)), with(with(regs(&[A, B]), mk.clone()), vec![op(CREATE_N, 2, 0, 0)]), Al { create: false, remove: false, recycle: true, ..base(2, &[A, B]) }, wr(&[A, B], &gs), true, 99);
                b.add(&format!("{} three entities", gname(&gs)), with(regs(&[A, B, C]), mk.clone()), Al { ids: 3, create_with: vec![1, 2, 3, 7], detach: vec![A], ..Al::default() }, wr(&[A, B, C], &gs), true, 4 + th);
            }
            b.add("membership of five types", regs(&ALL), Al { ids: 2 + th, create_with: vec![31, 30, 29, 27, 23, 15, 1, 6], ..Al::default() }, wr(&ALL, &[]), true, 3);
            for gs in [vec![g(0, A, B), g(2, B, C)], vec![g(1, A, B), g(1, C, B)], vec![g(2, A, B), g(2, B, C)], vec![g(1, A, B), g(1, B, C), g(1, C, A)]] {
                let mk: Vec<Op> = gs.iter().map(|x| mk_make(*x)).collect();
                b.add(&gname(&gs), with(with(regs(&[A, B, C]), mk), vec![op(CREATE_N, 2, 0, 0)]), Al { create: false, remove: false, recycle: true, ..base(2, &[A, B, C]) }, wr(&[A, B, C], &gs), true, 5 + th);
            }
            b.add("all histories", with(regs(&[A, B]), vec![op(CREATE_N, 2, 0, 0)]), Al { write: vec![A, B], create: false, ..base(2, &[A, B]) }, wr(&[A, B], &[]), false, 3 + th);
        }
        "C19" => {
            b.mon = tags(&[Tag::Resource]);
            let obs = Obs { resources: true, ..Default::default() };
            b.add("all histories", vec![], Al { res: vec![0, 1, 2, 3], ..Al::default() }, obs.clone(), false, 4 + th);
            b.add("two types of one layout", vec![], Al { res: vec![0, 1], ..Al::default() }, obs.clone(), false, 7 + th);
            let mut al = base(1, &[A]);
            al.res = vec![0, 3];
            b.add("among components", regs(&[A]), al, obs.clone(), false, 4 + th);
        }
        _ => {}
    }
    let _ = b.cat;
    b.out
}

fn cat_ok(m: &Model, gs: &[GroupId]) -> bool {
    gs.iter().all(|g| m.groups.contains(g))
}

/// Number of a script.
pub fn bulk_index(s: &[Step]) -> usize {
    scripts().iter().position(|x| x == s).expect("script in the table")
}
