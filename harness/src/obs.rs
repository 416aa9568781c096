//! Observing a world through every public reader and comparing with the model.

use crate::exec::*;
use crate::model::*;
use crate::shapes::*;
use crate::tok::*;
use crate::with_type;
use xecs::World;

pub const EXTREME: [usize; 6] = [usize::MAX, usize::MAX / 2 + 1, 1 << 32, 1000, 64, 33];

/// Ids worth asking about: all that were ever used, a few next ones, and extreme ones.
pub fn probes(m: &Model) -> Vec<usize> {
    let top = 32 - m.ever.leading_zeros() as usize;
    let mut v: Vec<usize> = (1..=top.max(1) + 2).collect();
    v.extend(far(m));
    v
}
/// Ids no world of these explorations reaches: extreme ones, and ones that agree with a live id in
/// their low bits.
pub fn far(m: &Model) -> impl Iterator<Item = usize> {
    let hi = 31 - (m.alive | 1).leading_zeros() as usize;
    let lo = m.alive.trailing_zeros() as usize % 32;
    EXTREME.into_iter().chain([(1 << 32) + hi, (1 << 32) + lo, (1 << 16) + hi, (1 << 8) + hi, (1 << 63) + hi])
}
/// Only near ids.
pub fn near(m: &Model) -> usize {
    (32 - m.ever.leading_zeros() as usize).max(1) + 2
}

fn guard_obs(rep: &mut Rep, what: &str, f: impl FnOnce(&mut Rep)) {
    let mut local = Rep { mon: rep.mon, found: rep.found.take(), other: rep.other, compared: rep.compared };
    let r = guarded(|| f(&mut local));
    *rep = local;
    if let Err((msg, hang)) = r {
        rep.issue(if hang { Tag::Hang } else { Tag::Panic }, || format!("{what}: {msg}"));
    }
}

pub fn exist(w: &World, m: &Model, rep: &mut Rep) {
    guard_obs(rep, "existence check", |rep| {
        for x in probes(m) {
            let want = m.is_alive(x);
            let got = w.exist(nz(x));
            if got != want {
                rep.issue(Tag::Exist, || format!("exist({x}) is {got}, expected {want}"));
            }
            let e = w.entity(nz(x)).map(|e| e.into_id().get());
            if e != want.then_some(x) {
                rep.issue(Tag::Exist, || format!("entity({x}) gives {e:?}, expected {:?}", want.then_some(x)));
            }
            rep.compared += 2;
        }
    });
}

fn tv<T: Comp>(c: &T) -> Val {
    (c.tok(), c.val())
}
fn sorted(mut v: Vec<Val>) -> Vec<Val> {
    v.sort();
    v
}

/// Component readers and storage views of every type.
pub fn reads(w: &World, m: &Model, rep: &mut Rep) {
    for t in 0..NT {
        guard_obs(rep, "component reads", |rep| with_type!(t, T => reads_of::<T>(w, m, rep)));
    }
    read_errors(rep);
}

pub fn read_errors(rep: &mut Rep) {
    if let Some(e) = reg().read_err.take() {
        rep.issue(Tag::Read, || e.clone());
        rep.issue(Tag::Drop, || e);
    }
}

fn reads_of<T: Comp>(w: &World, m: &Model, rep: &mut Rep) {
    let t = T::T;
    let n = TNAMES[t];
    let probes = probes(m);
    if w.has_registered::<T>() != m.registered(t) {
        rep.issue(Tag::Read, || format!("has_registered::<{n}> is {}", w.has_registered::<T>()));
    }
    let want_all = sorted(m.ids().filter_map(|i| m.comp(i, t)).collect());
    macro_rules! cmp {
        ($got:expr, $want:expr, $($a:tt)*) => {{
            let (g, x) = ($got, $want);
            rep.compared += 1;
            if g != x {
                rep.issue(Tag::Read, || format!("{} gives {:?}, expected {:?}", format!($($a)*), g, x));
            }
        }};
    }
    match w.components_read::<T>() {
        None => cmp!(false, m.registered(t), "components_read::<{n}> present"),
        Some(s) => {
            cmp!(true, m.registered(t), "components_read::<{n}> present");
            cmp!(s.count(), want_all.len(), "components_read::<{n}>.count");
            cmp!(s.is_empty(), want_all.is_empty(), "components_read::<{n}>.is_empty");
            cmp!(sorted(s.data().iter().map(tv).collect()), want_all.clone(), "components_read::<{n}>.data");
            for &x in &probes {
                let want = if m.is_alive(x) { m.comp(x, t) } else { None };
                cmp!(s.exist(nz(x)), want.is_some(), "components_read::<{n}>.exist({x})");
                cmp!(s.get(nz(x)).map(tv), want, "components_read::<{n}>.get({x})");
                if want.is_some() && s.exist(nz(x)) {
                    cmp!(Some(tv(unsafe { s.get_unchecked(nz(x)) })), want, "components_read::<{n}>.get_unchecked({x})");
                }
            }
        }
    }
    match w.components_write::<T>() {
        None => cmp!(false, m.registered(t), "components_write::<{n}> present"),
        Some(mut s) => {
            cmp!(true, m.registered(t), "components_write::<{n}> present");
            cmp!(s.count(), want_all.len(), "components_write::<{n}>.count");
            cmp!(s.is_empty(), want_all.is_empty(), "components_write::<{n}>.is_empty");
            cmp!(sorted(s.data().iter().map(tv).collect()), want_all.clone(), "components_write::<{n}>.data");
            cmp!(sorted(s.data_mut().iter().map(tv).collect()), want_all.clone(), "components_write::<{n}>.data_mut");
            for &x in &probes {
                let want = if m.is_alive(x) { m.comp(x, t) } else { None };
                cmp!(s.exist(nz(x)), want.is_some(), "components_write::<{n}>.exist({x})");
                cmp!(s.get(nz(x)).map(tv), want, "components_write::<{n}>.get({x})");
                cmp!(s.get_mut(nz(x)).map(|c| tv(c)), want, "components_write::<{n}>.get_mut({x})");
                if want.is_some() && s.exist(nz(x)) {
                    cmp!(Some(tv(unsafe { s.get_unchecked(nz(x)) })), want, "components_write::<{n}>.get_unchecked({x})");
                    cmp!(Some(tv(unsafe { s.get_unchecked_mut(nz(x)) })), want, "components_write::<{n}>.get_unchecked_mut({x})");
                }
            }
        }
    }
    for &x in &probes {
        let want = if m.is_alive(x) { m.comp(x, t) } else { None };
        cmp!(w.entity_component_read::<T>(nz(x)).map(|c| tv(&*c)), want, "entity_component_read::<{n}>({x})");
        cmp!(w.entity_component_write::<T>(nz(x)).map(|c| tv(&*c)), want, "entity_component_write::<{n}>({x})");
        if m.is_alive(x) {
            if let Some(e) = w.entity(nz(x)) {
                cmp!(e.component_read::<T>().map(|c| tv(&*c)), want, "entity({x}).component_read::<{n}>");
                cmp!(e.component_write::<T>().map(|mut c| { let p = c.val_ptr(); let _ = p; tv(&*c) }), want, "entity({x}).component_write::<{n}>");
            }
        }
    }
}

pub fn shape_tag(s: &QShape) -> Tag {
    match s.cls {
        Cls::Single => Tag::Single,
        Cls::Tuple => Tag::Tuple,
        Cls::Without => Tag::Without,
        Cls::Group => group_tag(s.groups[0]),
    }
}
pub fn group_tag(g: GroupId) -> Tag {
    [Tag::GroupFull, Tag::GroupPartial, Tag::GroupNon][g.kind as usize]
}

/// One query shape: drained by plain steps, by steps with ids, and asked by id.
pub fn shape(w: &World, m: &Model, s: &QShape, rep: &mut Rep) {
    if !s.accepted(m) {
        return;
    }
    let tag = shape_tag(s);
    guard_obs(rep, &format!("query {}", s.name), |rep| {
        let want: Vec<(usize, Parts)> = m.ids().filter_map(|i| s.expect(m, i).map(|p| (i, p))).collect();
        let cap = want.len() + 4;
        let show = |v: &Vec<(usize, Parts)>| format!("{v:?}");
        // plain steps
        let mut got = vec![];
        {
            let mut it = (s.run)(w);
            while let Some(p) = it.next() {
                got.push(p);
                if got.len() > cap {
                    break;
                }
            }
        }
        rep.compared += 3;
        let ok = got.len() == want.len() && {
            // identities are distinct except for zero-sized types: compare as multisets
            let mut used = 0u32;
            got.iter().all(|g| {
                want.iter().enumerate().any(|(i, x)| {
                    if used >> i & 1 == 0 && x.1 == *g {
                        used |= 1 << i;
                        true
                    } else {
                        false
                    }
                })
            })
        };
        if !ok {
            rep.issue(tag, || format!("query {} yields [{}], expected {}", s.name, got.iter().map(|p| format!("({p:?})")).collect::<Vec<_>>().join(" "), show(&want)));
        }
        // steps with ids
        let mut got = vec![];
        (s.run)(w).drain_with_id(&mut got, cap);
        got.sort_by_key(|x| x.0);
        if got != want {
            rep.issue(tag, || format!("query {} with ids yields {}, expected {}", s.name, show(&got), show(&want)));
        }
        // asked by id after every step of the same query
        {
            let n = near(m);
            for mode in 0..2 {
                let mut it = (s.run)(w);
                let mut left = cap;
                loop {
                    let more = if mode == 0 { it.next().is_some() } else { it.next_with_id().is_some() };
                    left -= 1;
                    if !more || left == 0 {
                        break;
                    }
                    for x in 1..=n {
                        let want = if x <= MAXID { s.expect(m, x) } else { None };
                        let got = it.from_id(x);
                        rep.compared += 1;
                        if got != want {
                            rep.issue(tag, || format!("query {} asked for id {x} after {} steps gives {got:?}, expected {want:?}", s.name, cap - left));
                            return;
                        }
                    }
                }
            }
        }
        // by id
        {
            let mut it = (s.run)(w);
            let n = near(m);
            for x in (1..=n).chain(far(m)) {
                let want = if x <= MAXID { s.expect(m, x) } else { None };
                let got = it.from_id(x);
                if got != want {
                    rep.issue(tag, || format!("query {} asked for id {x} gives {got:?}, expected {want:?}", s.name));
                }
            }
        }
    });
    if let Some(e) = reg().read_err.take() {
        rep.issue(tag, || format!("query {}: {e}", s.name));
    }
}

pub fn shapes(w: &World, m: &Model, cat: &Catalogue, sel: &[usize], rep: &mut Rep) {
    for &i in sel {
        shape(w, m, &cat.all[i], rep);
        if rep.found.is_some() {
            return;
        }
    }
}

/// Which queries are accepted at all.
pub fn acceptance(w: &World, m: &Model, cat: &Catalogue, sel: &[usize], rep: &mut Rep) {
    for &i in sel {
        let s = &cat.all[i];
        let want = s.accepted(m);
        rep.compared += 1;
        match guarded(|| drop((s.run)(w))) {
            Ok(()) if !want => {
                rep.issue(Tag::QueryAccept, || format!("query {} was accepted", s.name));
            }
            Err((e, hang)) if want || hang => {
                rep.issue(if hang { Tag::Hang } else { Tag::QueryAccept }, || format!("query {} failed: {e}", s.name));
            }
            _ => {}
        }
    }
}

pub fn drops(m: &Model, rep: &mut Rep) {
    let r = reg();
    rep.compared += 1;
    if let Some(e) = r.drop_err.take() {
        rep.issue(Tag::Drop, || e);
    }
    let mut want: Vec<(u32, usize)> = vec![];
    let mut d = 0;
    for i in m.ids() {
        for t in 0..NT {
            if let Some((tok, _)) = m.comp(i, t) {
                if t == D {
                    d += 1
                } else {
                    want.push((tok, t))
                }
            }
        }
    }
    want.extend(m.res.iter().enumerate().filter_map(|(i, r)| r.filter(|r| r.0 != 0).map(|r| (r.0, NT + i))));
    want.sort();
    let got: Vec<_> = r.live().collect();
    if got != want {
        rep.issue(Tag::Drop, || format!("live values {got:?}, expected {want:?} (identity, type)"));
    }
    if r.d_live != d {
        rep.issue(Tag::Drop, || format!("{} live zero-sized values, expected {d}", r.d_live));
    }
}

/// The tokens of a type in storage order.
fn row(w: &World, t: usize) -> Vec<u32> {
    with_type!(t, T => w.components_read::<T>().map(|s| s.data().iter().map(|c| c.tok()).collect()).unwrap_or_default())
}

/// Members of an owning group fill the front of the storages it owns; those of a full-owning group stand at
/// the same places in both. `ids`: all live ids, `comp`: the component of an id.
pub fn packed_group(w: &World, g: GroupId, ids: impl Iterator<Item = usize>, comp: impl Fn(usize, usize) -> Option<u32>, rep: &mut Rep) {
    let (a, b) = (g.a as usize, g.b as usize);
    let members: Vec<(u32, u32)> = ids.filter_map(|i| Some((comp(i, a)?, comp(i, b)?))).collect();
    let n = members.len();
    rep.compared += 1;
    let ra = row(w, a);
    let rb = if g.kind == 0 { row(w, b) } else { vec![] };
    if ra.len() < n || (g.kind == 0 && rb.len() < n) {
        rep.issue(Tag::Pack, || format!("{g} has {n} members, its storages hold {} and {}", ra.len(), rb.len()));
        return;
    }
    // zero-sized components cannot be told apart
    let front: std::collections::HashMap<u32, u32> = members.iter().map(|m| if a == D { (m.1, 0) } else { *m }).collect();
    for i in 0..n {
        if g.kind == 0 {
            let (x, y) = if a == D { (rb[i], 0) } else { (ra[i], rb[i]) };
            if front.get(&x) != Some(&y) {
                rep.issue(Tag::Pack, || format!("{g}: place {i} of its {n} members holds #{} and #{}, the members are {:?}", ra[i], rb[i], first(&members)));
                return;
            }
        } else if a != D && !front.contains_key(&ra[i]) {
            rep.issue(Tag::Pack, || format!("{g}: place {i} of its {n} members holds #{}, the members are {:?}", ra[i], first(&members)));
            return;
        }
    }
}
fn first<T: Clone>(v: &[T]) -> Vec<T> {
    v[..v.len().min(8)].to_vec()
}

pub fn packed(w: &World, m: &Model, rep: &mut Rep) {
    for &g in m.groups.iter().filter(|g| g.kind != 2) {
        guard_obs(rep, "storage views", |rep| packed_group(w, g, m.ids(), |i, t| m.comp(i, t).map(|c| c.0), rep));
    }
}

pub fn lock_leak(rep: &mut Rep) {
    let c = parking_lot::mc::ctl();
    if !c.held.is_empty() {
        let n = c.held.len();
        rep.issue(Tag::LockLeak, || format!("{n} locks are still held although no guard exists"));
    }
    if let Some(e) = c.misuse.take() {
        rep.issue(Tag::LockLeak, || e.to_string());
    }
}

// ---------------------------------------------------------------- cursor protocol

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Step9 {
    Next,
    NextId,
    Nth(u8),
    From(u8),
}

/// All interleavings of stepping and asking, up to `len` calls, on one query shape.
pub fn cursor(w: &World, m: &Model, s: &QShape, len: usize, rep: &mut Rep, count: &mut u64) {
    if !s.accepted(m) {
        return;
    }
    let ids: Vec<usize> = m.ids().collect();
    let want: Vec<(usize, Parts)> = ids.iter().filter_map(|i| s.expect(m, *i).map(|p| (*i, p))).collect();
    let mut al = vec![Step9::Next, Step9::NextId];
    // one matching id, one that does not match or does not exist
    if let Some(x) = want.last() {
        al.push(Step9::From(x.0 as u8));
    }
    if want.len() > 1 {
        al.push(Step9::From(want[0].0 as u8));
    }
    let miss = (1..=near(m)).find(|i| !want.iter().any(|x| x.0 == *i)).unwrap();
    al.push(Step9::From(miss as u8));
    al.push(Step9::Nth(1));
    let len = len.min(want.len() + 3);
    let exact = matches!(s.cls, Cls::Single | Cls::Group);
    let mut seq: Vec<usize> = vec![0; len];
    guard_obs(rep, &format!("query {}", s.name), |rep| adaptors(w, s, &want, exact, rep, count));
    guard_obs(rep, &format!("query {}", s.name), |rep| loop {
        *count += 1;
        let bad = run_seq(w, m, s, &want, &seq.iter().map(|i| al[*i]).collect::<Vec<_>>(), exact);
        rep.compared += 1;
        if let Some(e) = bad {
            rep.issue(Tag::Cursor, || format!("query {} after {:?}: {e}", s.name, seq.iter().map(|i| al[*i]).collect::<Vec<_>>()));
            return;
        }
        // next sequence
        let mut i = len;
        loop {
            if i == 0 {
                return;
            }
            i -= 1;
            seq[i] += 1;
            if seq[i] < al.len() {
                break;
            }
            seq[i] = 0;
        }
    });
}

/// After every number of steps, the rest through every adaptor of the query and of its `with_id` form.
fn adaptors(w: &World, s: &QShape, want: &[(usize, Parts)], exact: bool, rep: &mut Rep, count: &mut u64) {
    let n = want.len();
    for j in 0..=n {
        for (ad, ids) in ADAPTORS.into_iter().flat_map(|a| [(a, false), (a, true)]) {
            let top = if ad.uses_k() { n - j + 1 } else { 0 };
            for k in 0..=top {
                *count += 1;
                rep.compared += 1;
                let mut it = (s.run)(w);
                let before: Vec<Parts> = (0..j).filter_map(|i| if i % 2 == 0 { it.next() } else { it.next_with_id().map(|x| x.1) }).collect();
                if before.len() != j {
                    rep.issue(Tag::Cursor, || format!("query {} ends after {} steps, expected {n}", s.name, before.len()));
                    return;
                }
                let o = it.adapt(ids, ad, k, n + 3);
                if let Some(e) = judge_adapted(&o, ad, k, want, &before, exact) {
                    rep.issue(Tag::Cursor, || format!("query {}{} after {j} steps, {ad:?} {k}: {e}", s.name, if ids { " with ids" } else { "" }));
                    return;
                }
            }
        }
    }
}

fn run_seq(w: &World, m: &Model, s: &QShape, want: &[(usize, Parts)], seq: &[Step9], exact: bool) -> Option<String> {
    let mut it = (s.run)(w);
    let mut left: u32 = (1 << want.len()) - 1;
    for (k, st) in seq.iter().enumerate() {
        let rem = left.count_ones() as usize;
        let (lo, hi) = it.size_hint();
        if lo > rem || hi.is_some_and(|h| h < rem) || (exact && (lo != rem || hi != Some(rem))) {
            return Some(format!("before call {k} the size hint is ({lo}, {hi:?}) with {rem} items left"));
        }
        match *st {
            Step9::Next => {
                if let Some(e) = take(it.next(), None, want, &mut left, k) {
                    return Some(e);
                }
            }
            Step9::NextId => {
                let r = it.next_with_id();
                if let Some(e) = take(r.map(|x| x.1), r.map(|x| x.0), want, &mut left, k) {
                    return Some(e);
                }
            }
            Step9::Nth(n) => {
                // which ones are skipped is not visible: only the count is
                let rem = left.count_ones() as usize;
                let r = it.nth(n as usize);
                if r.is_some() != (rem > n as usize) {
                    return Some(format!("call {k}: nth({n}) gives {r:?} with {rem} items left"));
                }
                if let Some(p) = r {
                    if !want.iter().enumerate().any(|(i, x)| left >> i & 1 == 1 && x.1 == p) {
                        return Some(format!("call {k}: nth({n}) gives ({p:?}), which is not left"));
                    }
                }
                // drain the rest: it must have exactly rem - n - 1 items, all of them left
                let mut rest = 0;
                while let Some(p) = it.next() {
                    rest += 1;
                    if !want.iter().enumerate().any(|(i, x)| left >> i & 1 == 1 && x.1 == p) || rest > rem {
                        return Some(format!("after call {k} (nth({n})) the query yields ({p:?})"));
                    }
                }
                if rest != rem.saturating_sub(n as usize + 1) {
                    return Some(format!("after call {k} (nth({n})) {rest} items follow, expected {}", rem.saturating_sub(n as usize + 1)));
                }
                left = 0;
            }
            Step9::From(id) => {
                let x = s.expect(m, id as usize);
                let g = it.from_id(id as usize);
                if g != x {
                    return Some(format!("call {k}: asking for id {id} gives {g:?}, expected {x:?}"));
                }
            }
        }
    }
    let rem = left.count_ones() as usize;
    let (lo, hi) = it.size_hint();
    if lo > rem || hi.is_some_and(|h| h < rem) || (exact && (lo != rem || hi != Some(rem))) {
        return Some(format!("at the end the size hint is ({lo}, {hi:?}) with {rem} items left"));
    }
    None
}

fn take(p: Option<Parts>, id: Option<usize>, want: &[(usize, Parts)], left: &mut u32, k: usize) -> Option<String> {
    match p {
        None if *left == 0 => None,
        None => Some(format!("call {k} ends the query with {} items left", left.count_ones())),
        Some(p) => {
            let hit = want.iter().enumerate().position(|(i, x)| *left >> i & 1 == 1 && x.1 == p && id.is_none_or(|d| d == x.0));
            match hit {
                Some(i) => {
                    *left &= !(1 << i);
                    None
                }
                None => Some(format!("call {k} yields id {id:?} ({p:?}), which is not left to yield")),
            }
        }
    }
}

// ---------------------------------------------------------------- writes

/// Cheap check that every stored value is the model's: storage views, single queries, group queries.
fn values(w: &World, m: &Model, cat: &Catalogue, lite: &[usize], how: &str, rep: &mut Rep) {
    for t in 0..NT {
        if t == D || !m.registered(t) {
            continue;
        }
        with_type!(t, T => {
            let s = w.components_read::<T>().unwrap();
            for i in 1..near(m) {
                let want = if m.is_alive(i) { m.comp(i, t) } else { None };
                let got = s.get(nz(i)).map(tv);
                rep.compared += 1;
                if got != want {
                    rep.issue(Tag::Write, || format!("after writing through {how}, {} of {i} is {got:?}, expected {want:?}", TNAMES[t]));
                }
            }
        });
    }
    let before = rep.found.is_some();
    for &i in lite {
        let mut sub = Rep { mon: u32::MAX, ..Default::default() };
        shape(w, m, &cat.all[i], &mut sub);
        rep.compared += sub.compared;
        if let Some((_, e)) = sub.found {
            rep.issue(Tag::Write, || format!("after writing through {how}: {e}"));
            break;
        }
    }
    let _ = before;
}

/// Write through every exclusive path to every target, checking after each write.
/// `m` is updated along. Returns the number of writes.
pub fn writes(w: &mut World, m: &mut Model, cat: &Catalogue, shapes_w: &[usize], lite: &[usize], rep: &mut Rep) -> u64 {
    let mut stamp = 1000u32;
    let mut n = 0u64;
    let mut local = std::mem::take(rep);
    let r = guarded(|| {
        let rep = &mut local;
        let w: &World = w;
        let targets: Vec<(usize, usize)> = m.ids().flat_map(|i| (0..NT).map(move |t| (i, t))).filter(|(i, t)| *t != D && m.comp(*i, *t).is_some()).collect();
        // guards and storage views
        for path in 0..6 {
            for &(id, t) in &targets {
                stamp += 1;
                n += 1;
                let tok = m.comp(id, t).unwrap().0;
                let how = ["entity_component_write", "Entity::component_write", "components_write.get_mut", "components_write.get_unchecked_mut", "components_write.data_mut", "components_write.get_mut twice"][path];
                let done = with_type!(t, T => match path {
                    0 => w.entity_component_write::<T>(nz(id)).map(|mut g| put(&mut *g, stamp)).is_some(),
                    1 => w.entity(nz(id)).is_some_and(|e| { let r = e.component_write::<T>().map(|mut g| put(&mut *g, stamp)).is_some(); r }),
                    2 => w.components_write::<T>().is_some_and(|mut s| { let r = s.get_mut(nz(id)).map(|c| put(c, stamp)).is_some(); r }),
                    3 => w.components_write::<T>().is_some_and(|mut s| if s.exist(nz(id)) { put(unsafe { s.get_unchecked_mut(nz(id)) }, stamp); true } else { false }),
                    4 => w.components_write::<T>().is_some_and(|mut s| { let r = s.data_mut().iter_mut().find(|c| c.tok() == tok).map(|c| put(c, stamp)).is_some(); r }),
                    _ => w.components_write::<T>().is_some_and(|mut s| {
                        if let Some(c) = s.get_mut(nz(id)) { put(c, stamp + 7777) }
                        let r = s.get_mut(nz(id)).map(|c| put(c, stamp)).is_some(); r
                    }),
                });
                m.set_val(id, t, stamp);
                if !done {
                    rep.issue(Tag::Write, || format!("{how} does not find {} of {id}", TNAMES[t]));
                }
                values(w, m, cat, if path == 0 { lite } else { &[] }, &format!("{how} to {} of {id}", TNAMES[t]), rep);
                if rep.found.is_some() {
                    return;
                }
            }
        }
        // queries
        for &si in shapes_w {
            let s = &cat.all[si];
            if !s.accepted(m) || !s.leaves.iter().any(|l| l.1 && l.0 as usize != D) {
                continue;
            }
            let matches: Vec<(usize, Parts)> = m.ids().filter_map(|i| s.expect(m, i).map(|p| (i, p))).collect();
            for (id, p) in &matches {
                for proto in 0..3 {
                    let mut vals: Vec<(u8, u32)> = vec![];
                    let mut hit = false;
                    {
                        let mut it = (s.run)(w);
                        let mut put_all = |q: &Parts| {
                            for x in q.get() {
                                if !x.ptr.is_null() {
                                    stamp += 1;
                                    unsafe { *x.ptr = stamp };
                                    vals.push((x.ty, stamp));
                                }
                            }
                            hit = true;
                        };
                        let toks = |q: &Parts| q.get().iter().map(|x| (x.ty, x.tok)).collect::<Vec<_>>();
                        match proto {
                            0 => {
                                let mut k = 0;
                                while let Some(q) = it.next() {
                                    if toks(&q) == toks(p) {
                                        put_all(&q);
                                    }
                                    k += 1;
                                    if k > MAXID { break }
                                }
                            }
                            1 => {
                                let mut k = 0;
                                while let Some((i, q)) = it.next_with_id() {
                                    if i == *id {
                                        put_all(&q);
                                    }
                                    k += 1;
                                    if k > MAXID { break }
                                }
                            }
                            _ => {
                                if let Some(q) = it.from_id(*id) {
                                    put_all(&q);
                                }
                            }
                        }
                    }
                    n += 1;
                    for (t, v) in vals {
                        m.set_val(*id, t as usize, v);
                    }
                    let how = format!("query {} ({}) at {id}", s.name, ["next", "next_with_id", "from_id"][proto]);
                    if !hit {
                        rep.issue(Tag::Write, || format!("{how}: the item is not there"));
                    }
                    values(w, m, cat, if proto == 0 { lite } else { &[] }, &how, rep);
                    if rep.found.is_some() {
                        return;
                    }
                }
            }
        }
        // in the end every shared reader must agree
        values(w, m, cat, &(0..cat.all.len()).filter(|i| cat.all[*i].accepted(m)).collect::<Vec<_>>(), "all paths", rep);
    });
    *rep = local;
    if let Err((msg, hang)) = r {
        rep.issue(if hang { Tag::Hang } else { Tag::Panic }, || format!("write: {msg}"));
    }
    n
}

fn put<T: Comp>(c: &mut T, v: u32) {
    let p = c.val_ptr();
    if !p.is_null() {
        unsafe { *p = v }
    }
}

// ---------------------------------------------------------------- comparison of two worlds

/// Everything readable without groups, in canonical order, with values numbered by `name`.
pub fn digest(w: &World, m: &Model, cat: &Catalogue, sel: &[usize], name: &dyn Fn(u8, u32) -> u32) -> Result<Vec<String>, String> {
    guarded(|| {
        let mut v = vec![];
        let top = near(m);
        for x in (1..=top).chain(far(m)) {
            v.push(format!("exist({x})={} entity={}", w.exist(nz(x)), w.entity(nz(x)).is_some()));
        }
        let nm = |t: usize, c: Option<Val>| c.map(|c| (name(t as u8, c.0), c.1));
        for t in 0..NT {
            with_type!(t, T => {
                if let Some(s) = w.components_read::<T>() {
                    v.push(format!("count({})={} empty={}", TNAMES[t], s.count(), s.is_empty()));
                    let mut d: Vec<_> = s.data().iter().map(|c| nm(t, Some(tv(c)))).collect();
                    d.sort();
                    v.push(format!("data({})={d:?}", TNAMES[t]));
                    for x in 1..=top {
                        v.push(format!("get({},{x})={:?} exist={}", TNAMES[t], nm(t, s.get(nz(x)).map(tv)), s.exist(nz(x))));
                    }
                }
                for x in 1..=top {
                    v.push(format!("read({},{x})={:?}", TNAMES[t], nm(t, w.entity_component_read::<T>(nz(x)).map(|c| tv(&*c)))));
                    v.push(format!("write({},{x})={:?}", TNAMES[t], nm(t, w.entity_component_write::<T>(nz(x)).map(|c| tv(&*c)))));
                }
            });
        }
        for &i in sel {
            let s = &cat.all[i];
            let pn = |p: &Parts| p.get().iter().map(|x| (x.ty, name(x.ty, x.tok), x.val)).collect::<Vec<_>>();
            let mut d = vec![];
            (s.run)(w).drain_with_id(&mut d, MAXID);
            let mut d: Vec<_> = d.iter().map(|(i, p)| (*i, pn(p))).collect();
            d.sort();
            v.push(format!("{} with ids: {d:?}", s.name));
            let mut it = (s.run)(w);
            let mut d = vec![];
            while let Some(p) = it.next() {
                d.push(pn(&p));
                if d.len() > MAXID { break }
            }
            drop(it);
            d.sort();
            v.push(format!("{}: {d:?}", s.name));
            let mut it = (s.run)(w);
            for x in 1..=top {
                v.push(format!("{} of {x}: {:?}", s.name, it.from_id(x).as_ref().map(pn)));
            }
        }
        v
    })
    .map_err(|e| e.0)
}

/// Resources: reads, writes and formatting of every type.
pub fn resources(w: &World, m: &Model, rep: &mut Rep) {
    use crate::with_res;
    guard_obs(rep, "resource access", |rep| {
        for r in 0..NR {
            with_res!(r, R => {
                let want = m.res[r];
                let n = std::any::type_name::<R>().rsplit("::").next().unwrap();
                let got = w.resource_read::<R>().map(|g| (g.tok(), g.val()));
                let got_w = w.resource_write::<R>().map(|g| (g.tok(), g.val()));
                // two readers at once, of this and another type
                let both = w.resource_read::<R>().map(|g| { let h = w.resource_read::<R>(); (g.tok(), h.map(|h| h.val()).unwrap_or(u32::MAX)) });
                rep.compared += 7;
                if got != want || got_w != want || both != want {
                    rep.issue(Tag::Resource, || format!("resource {n}: read {got:?}, write guard {got_w:?}, two readers {both:?}, expected {want:?}"));
                }
                if let Some((tok, val)) = want {
                    let (d, s) = if R::R == 2 { ("<dbg R2>".to_string(), "<show R2>".to_string()) } else { (format!("<dbg {n}#{tok}={val}>"), format!("<show {n}#{tok}={val}>")) };
                    let texts = [
                        w.resource_read::<R>().map(|g| format!("{g:?}")), w.resource_read::<R>().map(|g| format!("{g:#?}")),
                        w.resource_write::<R>().map(|g| format!("{g:?}")), w.resource_write::<R>().map(|g| format!("{g:#?}")),
                    ];
                    if !texts.iter().all(|t| t.as_ref().is_some_and(|t| t.contains(&d))) {
                        rep.issue(Tag::Resource, || format!("debug text of resource {n} guards {texts:?} does not show {d}"));
                    }
                    let shown = [w.resource_read::<R>().map(|g| format!("{g}")), w.resource_write::<R>().map(|g| format!("{g}"))];
                    if !shown.iter().all(|t| t.as_ref().is_some_and(|t| t.contains(&s))) {
                        rep.issue(Tag::Resource, || format!("text of resource {n} guards {shown:?} is not {s}"));
                    }
                }
            });
        }
        // a component type is not a resource, and a never registered type is nothing
        struct Never;
        if w.resource_read::<A>().is_some() || w.resource_read::<Never>().is_some() || w.resource_write::<Never>().is_some() {
            rep.issue(Tag::Resource, || "a resource that was never registered is there".into());
        }
    });
    if let Some(e) = reg().read_err.take() {
        rep.issue(Tag::Resource, || format!("resource access: {e}"));
    }
}
