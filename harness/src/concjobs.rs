//! The concurrent scenarios of each property.

use crate::conc::*;
use crate::exec::{self, mk_make, op, Op};
use crate::model::*;
use crate::shapes::*;

const A: u8 = 0;
const B: u8 = 1;
const CC: u8 = 2;

/// A world to start from.
#[derive(Clone)]
pub struct World0 {
    pub name: String,
    pub prelude: Vec<Op>,
    pub types: u8,
    pub groups: Vec<GroupId>,
}

pub fn g(kind: u8, a: u8, b: u8) -> GroupId {
    GroupId { kind, a, b }
}

/// 1:{A,B[,C]} 2:{A} 3:{B[,C]} and id 4 free.
pub fn world(groups: &[GroupId], three: bool, res: bool) -> World0 {
    let n = if three { 3 } else { 2 };
    let mut p: Vec<Op> = (0..n).map(|t| op(exec::REGISTER, t, 0, 0)).collect();
    p.extend(groups.iter().map(|g| mk_make(*g)));
    p.push(op(exec::CREATE_WITH, if three { 7 } else { 3 }, 0, 0));
    p.push(op(exec::CREATE_WITH, 1, 0, 0));
    p.push(op(exec::CREATE_WITH, if three { 6 } else { 2 }, 0, 0));
    p.push(op(exec::CREATE, 0, 0, 0));
    p.push(op(exec::REMOVE, 4, 0, 0));
    if res {
        p.push(op(exec::RES_REG, 0, 0, 0));
        p.push(op(exec::RES_REG, 1, 0, 0));
    }
    let name = if groups.is_empty() { "no group".into() } else { groups.iter().map(|g| g.to_string()).collect::<Vec<_>>().join("+") };
    let name = if three { format!("{name} of A,B,C") } else { name };
    World0 { name, prelude: p, types: (1 << n) - 1, groups: groups.to_vec() }
}

/// The entities of `world` with some of their components only: without any when `of` is 0.
fn thin(groups: &[GroupId], three: bool, of: u8) -> World0 {
    let mut w = world(groups, three, false);
    for o in w.prelude.iter_mut().filter(|o| o.k == exec::CREATE_WITH) {
        *o = if o.a & of == 0 { op(exec::CREATE, 0, 0, 0) } else { op(exec::CREATE_WITH, (o.a & of) as usize, 0, 0) };
    }
    w.name += if of == 0 { ", all bare" } else { ", B and C missing" };
    w
}

/// 1:{A,C} 2:{A,B} 3:{B,C} 4:{A,B,C}: members of some groups, and of others with one half.
fn halves(groups: &[GroupId]) -> World0 {
    let mut w = world(groups, true, false);
    w.prelude.truncate(3 + groups.len());
    w.prelude.extend([5, 3, 6, 7].map(|of| op(exec::CREATE_WITH, of, 0, 0)));
    w.name += ", halves";
    w
}
/// Groups that hang together.
fn chains() -> Vec<World0> {
    let (ab, bc, ca) = ((A, B), (B, CC), (CC, A));
    let of = |v: &[(u8, (u8, u8))]| halves(&v.iter().map(|(k, (a, b))| g(*k, *a, *b)).collect::<Vec<_>>());
    vec![
        of(&[(2, ab), (2, bc)]),
        of(&[(1, ab), (1, bc)]),
        of(&[(0, ab), (2, bc)]),
        of(&[(0, ab), (1, ca)]),
        of(&[(2, ab), (2, bc), (2, ca)]),
        of(&[(1, ab), (1, bc), (1, ca)]),
    ]
}
/// Calls that lock several of what a world of groups is made of.
fn lockers(w: &World0) -> (Vec<Vec<C>>, Vec<Vec<C>>) {
    let m = vec![
        vec![C::Remove(1)],
        vec![C::Remove(2)],
        vec![C::Remove(3)],
        vec![C::Remove(4)],
        vec![C::Attach(1, B)],
        vec![C::Detach(1, A)],
        vec![C::Attach(2, CC)],
        vec![C::Detach(4, B)],
    ];
    let q = w
        .groups
        .iter()
        .map(|g| {
            let k = ["FullOwning", "PartialOwning", "NonOwning"][g.kind as usize];
            vec![C::QIncr(sh(&format!("{k}<&mut {},&mut {}>", TN[g.a as usize], TN[g.b as usize])))]
        })
        .collect();
    (m, q)
}

fn sh(name: &str) -> u16 {
    cat().by_name(name) as u16
}

/// Shapes looked at after an execution: one of each kind that fits.
fn final_shapes(w: &World0, cat: &Catalogue) -> Vec<usize> {
    let mut m = Model::default();
    m.reg = w.types;
    m.groups = w.groups.clone();
    let mut v: Vec<usize> = vec![];
    for (i, s) in cat.all.iter().enumerate() {
        if !s.accepted(&m) {
            continue;
        }
        let plain = s.leaves.iter().all(|l| !l.1);
        let take = match s.cls {
            Cls::Single => plain,
            Cls::Tuple => plain && s.leaves.len() == 2 && s.groups.is_empty(),
            Cls::Without => false,
            Cls::Group => plain,
        };
        if take {
            v.push(i)
        }
    }
    v
}

fn scn(w: &World0, threads: &[&Vec<C>], bound: u32, shapes: &[usize]) -> Scn {
    let threads: Vec<Vec<C>> = threads.iter().map(|t| (*t).clone()).collect();
    // only removal goes through the storages in map order
    let orders = threads.iter().flatten().any(|c| matches!(c, C::Remove(_) | C::RemoveH(_) | C::HRemove | C::HoldMut(_, Mut::Remove(_))));
    Scn { name: format!("{}: {}", w.name, text(&threads)), prelude: w.prelude.clone(), threads, bound, must_overlap: false, inner: None, orders, full: false, shapes: shapes.to_vec() }
}

/// Is a query over several storages among the calls?
pub fn multi(c: &C) -> bool {
    match c {
        C::Query(s) | C::Plain(s) | C::QIncr(s) | C::ById(s, _) => {
            let s = &cat().all[*s as usize];
            s.types.count_ones() > 1 && s.cls != Cls::Group
        }
        _ => false,
    }
}

/// Single calls and short handle protocols, colliding on the entities and types of the world.
fn menu(w: &World0, level: u8) -> Vec<Vec<C>> {
    let three = w.types & 4 != 0;
    let mut v: Vec<Vec<C>> = vec![
        vec![C::Create],
        vec![C::Attach(1, A)],
        vec![C::Attach(2, B)],
        vec![C::Detach(1, A)],
        vec![C::Detach(1, B)],
        vec![C::Remove(1)],
        vec![C::Query(sh("&A"))],
    ];
    if level >= 1 {
        v.extend([
            vec![C::Attach(3, A)],
            vec![C::Attach(4, A)],
            vec![C::Remove(2)],
            vec![C::Exist(1)],
            vec![C::Fmt],
            vec![C::Read(1, A)],
            vec![C::Incr(1, A)],
            vec![C::Query(sh("(&A,&B)"))],
            vec![C::BNew(2), C::BAttach(A), C::BAttach(B), C::BDrop],
        ]);
        if three {
            v.extend([vec![C::Detach(1, CC)], vec![C::Attach(2, CC)], vec![C::Query(sh("&C"))]]);
        }
    }
    if level >= 2 {
        v.extend([
            vec![C::CreateN(2)],
            vec![C::AttachH(1, B)],
            vec![C::DetachH(1, A)],
            vec![C::RemoveH(1)],
            vec![C::Remove(3)],
            vec![C::Lookup(1)],
            vec![C::HGet(1), C::Fmt, C::HDrop],
            vec![C::ReadH(1, B)],
            vec![C::IncrH(1, A)],
            vec![C::StoRead(A)],
            vec![C::StoIncr(A)],
            vec![C::QIncr(sh("&mut A"))],
            vec![C::Plain(sh("&B"))],
            vec![C::ById(sh("&A"), 1)],
            vec![C::QIncr(sh("(&mut A,&B)"))],
            vec![C::Query(sh("(&B,&A)"))],
            vec![C::HNew, C::HAttach(A), C::HAttach(B), C::HDrop],
            vec![C::HGet(1), C::HDetach(A), C::HAttach(A), C::HDrop],
            vec![C::Query(sh("(Without<&B>,&A)"))],
        ]);
        if three {
            v.extend([vec![C::Remove(3)], vec![C::QIncr(sh("&mut C"))]]);
        }
    }
    for (n, gr) in w.groups.iter().enumerate() {
        let k = ["FullOwning", "PartialOwning", "NonOwning"][gr.kind as usize];
        let (a, b) = (TN[gr.a as usize], TN[gr.b as usize]);
        v.push(vec![C::Query(sh(&format!("{k}<&{a},&{b}>")))]);
        if level >= 1 && n == 0 {
            v.push(vec![C::QIncr(sh(&format!("{k}<&mut {a},&mut {b}>")))]);
        }
        if level >= 2 {
            v.push(vec![C::Plain(sh(&format!("{k}<&mut {a},&{b}>")))]);
            v.push(vec![C::ById(sh(&format!("{k}<&{a},&{b}>")), 1)]);
        }
    }
    v.sort();
    v.dedup();
    v
}
const TN: [&str; 5] = ["A", "B", "C", "D", "E"];

pub fn configs() -> Vec<World0> {
    vec![
        world(&[], false, false),
        world(&[g(0, A, B)], false, false),
        world(&[g(1, A, B)], false, false),
        world(&[g(2, A, B)], false, false),
        world(&[g(0, A, B), g(2, A, B)], false, false),
        world(&[g(1, A, B), g(1, B, A)], false, false),
        world(&[g(1, B, A), g(2, A, B)], false, false),
        world(&[], true, false),
        world(&[g(0, A, B), g(2, A, CC)], true, false),
        world(&[g(0, A, B), g(1, CC, B)], true, false),
        world(&[g(1, A, B), g(1, B, CC)], true, false),
        world(&[g(1, A, B), g(1, B, CC), g(1, CC, A)], true, false),
        world(&[g(2, A, B), g(2, B, CC)], true, false),
    ]
}

/// Worlds whose entities have nothing yet, or only A.
fn bare() -> Vec<World0> {
    let mut v = vec![];
    for gs in [vec![], vec![g(0, A, B)], vec![g(1, A, B)], vec![g(2, A, B)], vec![g(0, A, B), g(2, A, B)], vec![g(1, A, B), g(1, B, A)]] {
        v.push(thin(&gs, false, 0));
        v.push(thin(&gs, false, 1));
    }
    v
}
fn bare_menu(w: &World0) -> Vec<Vec<C>> {
    let mut v: Vec<Vec<C>> = vec![
        vec![C::Attach(1, A)],
        vec![C::Attach(1, B)],
        vec![C::Attach(2, A)],
        vec![C::Attach(3, B)],
        vec![C::Detach(1, A)],
        vec![C::Detach(1, B)],
        vec![C::Remove(1)],
        vec![C::Read(1, A)],
        vec![C::IncrH(1, B)],
        vec![C::StoIncr(A)],
        vec![C::Query(sh("&A"))],
        vec![C::QIncr(sh("&mut B"))],
        vec![C::BNew(2), C::BAttach(A), C::BAttach(B), C::BDrop],
        vec![C::HGet(1), C::HAttach(B), C::HAttach(A), C::HDrop],
    ];
    for gr in &w.groups {
        let k = ["FullOwning", "PartialOwning", "NonOwning"][gr.kind as usize];
        let (a, b) = (TN[gr.a as usize], TN[gr.b as usize]);
        v.push(vec![C::Query(sh(&format!("{k}<&{a},&{b}>")))]);
        v.push(vec![C::QIncr(sh(&format!("{k}<&mut {a},&mut {b}>")))]);
    }
    v
}

fn pairs(m: &[Vec<C>]) -> Vec<[&Vec<C>; 2]> {
    let mut v = vec![];
    for i in 0..m.len() {
        for j in i..m.len() {
            v.push([&m[i], &m[j]]);
        }
    }
    v
}
fn triples(m: &[Vec<C>]) -> Vec<[&Vec<C>; 3]> {
    let mut v = vec![];
    for i in 0..m.len() {
        for j in i..m.len() {
            for k in j..m.len() {
                v.push([&m[i], &m[j], &m[k]]);
            }
        }
    }
    v
}
/// Two calls in a row.
fn seqs(m: &[Vec<C>]) -> Vec<Vec<C>> {
    let mut v = vec![];
    for a in m {
        for b in m {
            let mut s = a.clone();
            s.extend(b);
            v.push(s);
        }
    }
    v
}
fn changes(t: &[C]) -> bool {
    t.iter().any(|c| {
        !matches!(c, C::Query(_) | C::Plain(_) | C::ById(..) | C::Exist(_) | C::Fmt | C::Lookup(_) | C::Read(..) | C::ReadH(..) | C::StoRead(_) | C::ResRead(_))
    })
}

/// Cut a list of scenarios into jobs.
fn cut(prop: &'static str, look: Look, what: &str, scns: Vec<Scn>, per: usize) -> Vec<Conc> {
    // neighbours in the list cost alike: deal them out
    let n = scns.len().div_ceil(per).max(1);
    let mut v: Vec<Conc> = (0..n).map(|i| Conc { name: format!("{what} #{i}"), prop, look, scns: vec![] }).collect();
    for (i, s) in scns.into_iter().enumerate() {
        v[i % n].scns.push(s);
    }
    v
}

pub fn jobs(prop: &str, thorough: bool) -> Vec<Conc> {
    let mut v = match prop {
        "C20" => access(thorough),
        "C21" => lin("C21", Look::Lin, thorough),
        "C22" => done(thorough),
        "C23" => pins(thorough),
        _ => vec![],
    };
    for s in v.iter_mut().flat_map(|j| &mut j.scns) {
        s.full = thorough;
    }
    v
}

fn lin(prop: &'static str, look: Look, thorough: bool) -> Vec<Conc> {
    let mut out = vec![];
    let (b2, b3) = if thorough { (4, 3) } else { (3, 2) };
    let (mut two, mut three, mut four) = (vec![], vec![], vec![]);
    for (i, w) in configs().iter().enumerate() {
        let fin = final_shapes(w, cat());
        let deep = thorough || i < 4 || i == 8;
        let m = menu(w, if deep { 2 } else { 1 });
        for p in pairs(&m) {
            if changes(p[0]) || changes(p[1]) {
                two.push(scn(w, &p, b2, &fin));
            }
        }
        // three threads
        let m = menu(w, if thorough && i < 8 { 1 } else { 0 });
        for p in triples(&m) {
            if p.iter().filter(|t| changes(t)).count() >= 2 {
                three.push(scn(w, &p, b3.min(if thorough { 2 } else { 1 }), &fin));
            }
        }
        // two calls per thread
        if thorough || i < 5 {
            let m: Vec<Vec<C>> = menu(w, 0);
            let s = seqs(&m);
            for p in pairs(&s) {
                if changes(p[0]) && changes(p[1]) {
                    four.push(scn(w, &p, if thorough { 2 } else { 1 }, &fin));
                }
            }
        }
    }
    // storages and groups with nothing in them to start with
    for w in bare() {
        let fin = final_shapes(&w, cat());
        let m = bare_menu(&w);
        for p in pairs(&m) {
            if changes(p[0]) || changes(p[1]) {
                two.push(scn(&w, &p, b2, &fin));
            }
        }
        let m: Vec<Vec<C>> = m.into_iter().filter(|t| thorough || matches!(t[..], [C::Attach(..) | C::Query(_) | C::Remove(1)])).collect();
        for p in triples(&m) {
            if p.iter().filter(|t| changes(t)).count() >= 2 {
                three.push(scn(&w, &p, if thorough { 2 } else { 1 }, &fin));
            }
        }
    }
    // entities that have one half of what makes them members
    for w in chains() {
        let fin = final_shapes(&w, cat());
        let (m, q) = lockers(&w);
        let all: Vec<Vec<C>> = m.iter().chain(&q).cloned().chain([vec![C::Attach(3, A)], vec![C::Query(sh("(&A,&B)"))]]).collect();
        for p in pairs(&all) {
            if changes(p[0]) || changes(p[1]) {
                two.push(scn(&w, &p, b2, &fin));
            }
        }
        for p in pairs(&m) {
            for q in &q {
                three.push(scn(&w, &[p[0], p[1], q], if thorough { 2 } else { 1 }, &fin));
            }
        }
    }
    out.extend(cut(prop, look, "two threads", two, 60));
    out.extend(cut(prop, look, "three threads", three, 60));
    out.extend(cut(prop, look, "two threads, two calls each", four, 100));
    out
}

fn done(thorough: bool) -> Vec<Conc> {
    let mut out = vec![];
    let (mut one, mut two, mut three, mut ring) = (vec![], vec![], vec![], vec![]);
    for (i, w) in configs().iter().enumerate() {
        // queries over several storages lock them one by one: known to deadlock, looked at in one
        // world of each kind only
        let some: Vec<Vec<C>> = menu(w, 2).into_iter().filter(|t| !t.iter().any(multi)).collect();
        for t in menu(w, 2) {
            one.push(scn(w, &[&t], 0, &[]));
        }
        let mut m = some.clone();
        m.extend([vec![C::StoIncr(B)], vec![C::QIncr(sh("&mut B"))]]);
        for p in pairs(&m) {
            two.push(scn(w, &p, if thorough { 6 } else { 3 }, &[]));
        }
        if i == 0 {
            for k in 0..3 {
                one.push(scn(w, &[&vec![C::Twin(k)]], 0, &[]));
            }
            let w = world(&[g(2, A, A)], false, false);
            for q in ["(&A,&A)", "NonOwning<&A,&A>"] {
                let q = vec![C::Query(sh(q))];
                one.push(scn(&w, &[&q], 0, &[]));
                for o in [vec![C::Query(sh("&A"))], vec![C::QIncr(sh("&mut A"))], vec![C::Attach(2, A)], vec![C::Detach(1, A)], vec![C::Remove(1)]] {
                    two.push(scn(&w, &[&q, &o], 3, &[]));
                }
            }
        }
        if i < 4 {
            for q in ["(&A,&B)", "(&B,&A)", "(&mut A,&B)", "(&mut B,&A)", "(&A,Without<&B>)", "(Without<&B>,&A)"] {
                let q = vec![if q.contains("mut") { C::QIncr(sh(q)) } else { C::Query(sh(q)) }];
                let mut m = vec![
                    vec![C::Create],
                    vec![C::Attach(2, B)],
                    vec![C::Detach(1, A)],
                    vec![C::Remove(1)],
                    vec![C::Query(sh("&A"))],
                    vec![C::QIncr(sh("&mut B"))],
                    vec![C::StoIncr(A)],
                    vec![C::IncrH(1, A)],
                    vec![C::Query(sh("(&A,&B)"))],
                    vec![C::Query(sh("(&B,&A)"))],
                    vec![C::QIncr(sh("(&mut A,&B)"))],
                    vec![C::QIncr(sh("(&mut B,&A)"))],
                ];
                if let Some(g) = w.groups.first() {
                    let k = ["FullOwning", "PartialOwning", "NonOwning"][g.kind as usize];
                    m.push(vec![C::Query(sh(&format!("{k}<&A,&B>")))]);
                    m.push(vec![C::QIncr(sh(&format!("{k}<&mut A,&mut B>")))]);
                }
                for o in &m {
                    two.push(scn(w, &[&q, o], if thorough { 6 } else { 3 }, &[]));
                }
            }
        }
        let m: Vec<Vec<C>> = if thorough { menu(w, 1) } else { menu(w, 0) }.into_iter().filter(|t| !t.iter().any(multi)).collect();
        for p in triples(&m) {
            three.push(scn(w, &p, if thorough { 2 } else { 1 }, &[]));
        }
    }
    for w in bare() {
        let m = bare_menu(&w);
        for t in &m {
            one.push(scn(&w, &[t], 0, &[]));
        }
        for p in pairs(&m) {
            two.push(scn(&w, &p, if thorough { 6 } else { 3 }, &[]));
        }
    }
    for w in chains() {
        let (m, q) = lockers(&w);
        for t in m.iter().chain(&q) {
            one.push(scn(&w, &[t], 0, &[]));
        }
        for p in pairs(&[m.clone(), q.clone()].concat()) {
            two.push(scn(&w, &p, if thorough { 6 } else { 3 }, &[]));
        }
        // a circle of three needs two preemptions
        for a in &m {
            for p in pairs(&q) {
                let wide = !thorough && p[0] == p[1] && matches!(a[0], C::Remove(_));
                ring.push(scn(&w, &[a, p[0], p[1]], if thorough { 3 } else if wide { 1 } else { 2 }, &[]));
            }
        }
        for a in &q {
            for p in pairs(&m) {
                ring.push(scn(&w, &[a, p[0], p[1]], if thorough { 2 } else { 1 }, &[]));
            }
        }
        for p in triples(&q) {
            ring.push(scn(&w, &p, if thorough { 3 } else { 2 }, &[]));
        }
    }
    out.extend(cut("C22", Look::Done, "one thread", one, 80));
    out.extend(cut("C22", Look::Done, "two threads", two, 80));
    out.extend(cut("C22", Look::Done, "three threads", three, 80));
    out.extend(cut("C22", Look::Done, "groups that hang together", ring, 40));
    out
}

fn pins(thorough: bool) -> Vec<Conc> {
    let mut v = vec![];
    let mut ws: Vec<World0> = configs().into_iter().take(if thorough { 20 } else { 5 }).collect();
    for gs in [vec![], vec![g(0, A, B)], vec![g(2, A, B)]] {
        ws.push(thin(&gs, false, 0));
        // nothing to be reused, and two to be reused
        let mut w = world(&gs, false, false);
        w.prelude.pop();
        w.name += ", 4 alive";
        ws.push(w);
        let mut w = world(&gs, false, false);
        w.prelude.push(op(exec::REMOVE, 2, 0, 0));
        w.name += ", 2 and 4 free";
        ws.push(w);
    }
    for (n, w) in ws.iter().enumerate() {
        let fin = final_shapes(w, cat());
        let holders: Vec<Vec<C>> = vec![
            vec![C::HGet(1), C::HRead(A), C::HDrop],
            vec![C::HGet(1), C::HAttach(A), C::HRead(A), C::HDrop],
            vec![C::HGet(1), C::HDetach(B), C::HRead(A), C::HDrop],
            vec![C::HGet(1), C::HIncr(A), C::HRead(A), C::HDrop],
            vec![C::HGet(1), C::HRemove],
            vec![C::HGet(4), C::HDrop],
            vec![C::HNew, C::HDrop],
            vec![C::HNew, C::HAttach(A), C::HRead(A), C::HDrop],
            vec![C::BNew(2), C::BDrop],
            vec![C::BNew(2), C::BAttach(A), C::BAttach(B), C::BDrop],
            vec![C::BNew(1), C::BAttach(A), C::BDrop],
        ];
        let others: Vec<Vec<C>> = vec![
            vec![C::Remove(1)],
            vec![C::RemoveH(1)],
            vec![C::Remove(4)],
            vec![C::Remove(5)],
            vec![C::Remove(6)],
            vec![C::Remove(1), C::Create],
            vec![C::Remove(4), C::Create],
            vec![C::Remove(5), C::Create],
            vec![C::Remove(1), C::Exist(1)],
            vec![C::Create],
            vec![C::CreateN(2)],
            vec![C::Create, C::Remove(4)],
            vec![C::HGet(1), C::HRemove],
            vec![C::HNew, C::HDrop],
            vec![C::Detach(1, A)],
            vec![C::Attach(1, B)],
        ];
        for h in &holders {
            for o in &others {
                v.push(scn(w, &[h, o], if thorough { 8 } else { 4 }, &fin));
            }
            let few: Vec<Vec<C>> = others.iter().filter(|o| o.len() == 1 && !matches!(o[0], C::RemoveH(_) | C::Remove(6) | C::CreateN(_)) || **o == [C::Remove(1), C::Create]).cloned().collect();
            for p in pairs(if thorough && n < 4 { &others } else { &few }) {
                let q = [h, p[0], p[1]];
                if !thorough && n > 1 {
                    continue;
                }
                if p.iter().any(|o| o.iter().any(|c| matches!(c, C::Remove(_) | C::RemoveH(_) | C::HRemove))) {
                    v.push(scn(w, &q, 1, &fin));
                }
            }
        }
    }
    cut("C23", Look::Lin, "handles", v, 25)
}

fn access(thorough: bool) -> Vec<Conc> {
    let gs = [g(0, A, B), g(1, A, B), g(2, A, B)];
    let mut seq = vec![];
    let mut con = vec![];
    let mut three = vec![];
    for gr in gs {
        let w = world(&[gr], true, true);
        let full_name = w.name.clone();
        let k = ["FullOwning", "PartialOwning", "NonOwning"][gr.kind as usize];
        let mut accs = vec![
            Acc::CompRead(1, A),
            Acc::CompWrite(1, A),
            Acc::HandleRead(1, A),
            Acc::HandleWrite(1, A),
            Acc::StoRead(A),
            Acc::StoWrite(A),
            Acc::CompRead(1, B),
            Acc::StoWrite(B),
            Acc::StoWrite(CC),
            Acc::ResRead(0),
            Acc::ResWrite(0),
            Acc::ResWrite(1),
        ];
        for q in ["&A", "&mut A", "&B", "&mut C", "(&A,&B)", "(&mut A,&B)", "(&A,&mut B)", "(&mut A,&mut B)", "(&A,Without<&B>)", "(Without<&A>,&B)", "(&A,&B,&C)", "((&A,&B),&C)"] {
            accs.push(Acc::Query(sh(q)));
        }
        for (a, b) in [("&", "&"), ("&", "&mut "), ("&mut ", "&"), ("&mut ", "&mut ")] {
            accs.push(Acc::Query(sh(&format!("{k}<{a}A,{b}B>"))));
        }
        let muts = [Mut::Attach(1, A), Mut::Attach(2, B), Mut::Attach(3, A), Mut::Detach(1, A), Mut::Remove(1), Mut::Bulk(A), Mut::Attach(2, CC)];
        for &a in &accs {
            for &b in &accs {
                // the same thread
                let mut s = scn(&w, &[&vec![C::Hold2(a, b)]], 0, &[]);
                s.inner = Some(!a.conflicts(&b));
                seq.push(s);
                // two threads
                if a <= b {
                    let mut s = scn(&w, &[&vec![C::Hold(a)], &vec![C::Hold(b)]], if thorough { 8 } else { 5 }, &[]);
                    s.must_overlap = !a.conflicts(&b);
                    con.push(s);
                }
            }
            for &m in &muts {
                let s = scn(&w, &[&vec![C::HoldMut(a, m)]], 0, &[]);
                seq.push(s);
                let c = match m {
                    Mut::Attach(i, t) => vec![C::Attach(i, t)],
                    Mut::Detach(i, t) => vec![C::Detach(i, t)],
                    Mut::Remove(i) => vec![C::Remove(i)],
                    Mut::Bulk(t) => vec![C::BNew(2), C::BAttach(t), C::BDrop],
                };
                con.push(scn(&w, &[&vec![C::Hold(a)], &c], if thorough { 8 } else { 5 }, &[]));
            }
        }
        // storages and groups with nothing in them, and queries that are through
        let mut quiet = vec![Acc::StoRead(A), Acc::StoWrite(A), Acc::StoRead(B), Acc::StoWrite(B)];
        let mut through = vec![];
        for a in &accs {
            if let Acc::Query(s) = *a {
                quiet.push(Acc::Query(s));
                through.push(Acc::Drained(s));
            }
        }
        for w in [thin(&[gr], true, 0), thin(&[gr], true, 1), w.clone()] {
            let full = w.name == full_name;
            let held = if full { &through } else { &quiet };
            for &a in held {
                for &b in &quiet {
                    let mut s = scn(&w, &[&vec![C::Hold2(a, b)]], 0, &[]);
                    s.inner = Some(!a.conflicts(&b));
                    seq.push(s);
                    let mut s = scn(&w, &[&vec![C::Hold(a)], &vec![C::Hold(b)]], if thorough { 8 } else { 4 }, &[]);
                    s.must_overlap = !a.conflicts(&b);
                    con.push(s);
                }
                for m in if full { vec![Mut::Attach(1, A), Mut::Detach(1, A), Mut::Attach(3, A)] } else { vec![Mut::Attach(1, A), Mut::Attach(3, A), Mut::Attach(1, B), Mut::Attach(2, B), Mut::Bulk(A), Mut::Bulk(B)] } {
                    seq.push(scn(&w, &[&vec![C::HoldMut(a, m)]], 0, &[]));
                    let c = match m {
                        Mut::Attach(i, t) => vec![C::Attach(i, t)],
                        Mut::Detach(i, t) => vec![C::Detach(i, t)],
                        Mut::Remove(i) => vec![C::Remove(i)],
                        Mut::Bulk(t) => vec![C::BNew(2), C::BAttach(t), C::BDrop],
                    };
                    con.push(scn(&w, &[&vec![C::Hold(a)], &c], if thorough { 8 } else { 4 }, &[]));
                }
            }
        }
        // three at once
        let few: Vec<Acc> = accs.iter().copied().filter(|a| a.cells().0 & 0xFC == 0 && a.cells().1 & 0xFFFC == 0).collect();
        {
            for (i, a) in few.iter().enumerate() {
                for (j, b) in few.iter().enumerate().skip(i) {
                    for c in &few[j..] {
                        three.push(scn(&w, &[&vec![C::Hold(*a)], &vec![C::Hold(*b)], &vec![C::Hold(*c)]], if thorough { 3 } else { 1 }, &[]));
                    }
                }
            }
        }
        // items that outlive their query
        let kept: &[u8] = match gr.kind {
            0 => &[0, 1, 2, 3],
            1 => &[4],
            _ => &[5],
        };
        for &q in kept {
            let a = Acc::Kept(q);
            for b in [Acc::CompRead(1, A), Acc::CompWrite(1, A), Acc::StoWrite(A), Acc::StoWrite(B), Acc::Query(sh("&mut A"))] {
                if a.conflicts(&b) {
                    let mut s = scn(&w, &[&vec![C::Hold2(a, b)]], 0, &[]);
                    s.inner = Some(false);
                    seq.push(s);
                }
            }
            for m in [Mut::Attach(1, A), Mut::Detach(1, A), Mut::Remove(1)] {
                seq.push(scn(&w, &[&vec![C::HoldMut(a, m)]], 0, &[]));
            }
        }
        for t in 0..TWICE.len() as u8 {
            if t < 2 || gr.kind == 0 {
                seq.push(scn(&w, &[&vec![C::Hold(Acc::Twice(t))]], 0, &[]));
            }
        }
    }
    let mut out = cut("C20", Look::Access, "one thread", seq, 250);
    out.extend(cut("C20", Look::Access, "two threads", con, 60));
    out.extend(cut("C20", Look::Access, "three threads", three, 60));
    out
}
