//! Questions between operations: what was asked before must not change what is answered later.
//!
//! The other sequential explorations look at a state when its history is over. Here every single
//! question is asked before every operation (or two) in every state of small worlds and again after it,
//! in the same thread or in a second one; every question follows every other; and everything is asked
//! after every step of all short histories, forwards and backwards in turn.

use crate::bfs::{key, show, Stats, Viol};
use crate::exec::*;
use crate::hand::Hand;
use crate::model::*;
use crate::obs;
use crate::seqjobs::*;
use crate::shapes::*;
use crate::tok::*;
use crate::trace::Trace;
use crate::{with_res, with_type};
use std::collections::HashSet;
use xecs::World;

/// A question asked by the main thread, or by the second one: what, ...
pub const ASK: u8 = 200;
pub const ASK2: u8 = 201;
const LOOK: u8 = 250;
const KOOL: u8 = 251;

const READS: [&str; 9] = [
    "entity_component_read",
    "entity_component_write",
    "entity.component_read",
    "entity.component_write",
    "components_read.get",
    "components_read.exist",
    "components_write.get",
    "components_write.get_mut",
    "components_write.exist",
];

fn q(a: u8, b: usize, c: usize) -> Op {
    op(ASK, a as usize, b, c)
}

/// A violation counts only if there is none without the operations that the property is about.
#[derive(Clone, Copy, PartialEq)]
pub enum Cause {
    Any,
    Kinds(u32),
    Refused,
}

pub struct Asks {
    pub name: String,
    pub prelude: Vec<Op>,
    pub al: Al,
    pub mon: u32,
    pub before: Vec<Op>,
    pub after: Vec<Op>,
    pub shapes: Vec<usize>,
    pub depth: usize,
    /// operations between a question and the same question
    pub span: usize,
    /// length of the histories in which everything is asked after every step
    pub chat: usize,
    pub cause: Cause,
}

impl Asks {
    fn text_of(&self, o: Op, cat: &Catalogue) -> String {
        if o.k < ASK {
            return o.to_string();
        }
        let t = |t: u8| TNAMES.get(t as usize).copied().unwrap_or("?");
        let s = |i: u8| self.shapes.get(i as usize).map(|s| cat.all[*s].name).unwrap_or("?");
        let x = match o.a {
            0 => format!("exist({})?", real_id(o.b)),
            1 => format!("entity({})?", real_id(o.b)),
            2..=10 => format!("{}::<{}>({})?", READS[o.a as usize - 2], t(o.c), o.b),
            11 => format!("count of {}?", t(o.c)),
            12 => format!("data of {}?", t(o.c)),
            13 => format!("data_mut of {}?", t(o.c)),
            14 => format!("has_registered::<{}>?", t(o.c)),
            20 => format!("query {}?", s(o.b)),
            21 => format!("query {} with ids?", s(o.b)),
            22 => format!("query {} of {}?", s(o.b), o.c),
            23 => format!("first of query {}?", s(o.b)),
            24 => format!("is query {} accepted?", s(o.b)),
            30 => format!("resource_read R{}?", o.b),
            31 => format!("resource_write R{}?", o.b),
            32 => format!("resource R{} formatted?", o.b),
            40 => "are members in front?".into(),
            41 => "format!".into(),
            LOOK => "all questions".into(),
            _ => "all questions backwards".into(),
        };
        if o.k == ASK2 { format!("second thread: {x}") } else { x }
    }
    fn script(&self, s: &[Op], cat: &Catalogue) -> String {
        format!("[{}] then {}", show(&self.prelude), s.iter().map(|o| self.text_of(*o, cat)).collect::<Vec<_>>().join("; "))
    }
    pub fn text(&self, path: &[u8]) -> String {
        self.script(&path.chunks_exact(4).map(Op::from_bytes).collect::<Vec<_>>(), &Catalogue::new())
    }

    fn ask(&self, w: &World, m: &Model, o: Op, cat: &Catalogue, rep: &mut Rep) {
        if rep.found.is_some() {
            return;
        }
        if o.a == LOOK {
            return self.after.iter().for_each(|q| self.ask(w, m, *q, cat, rep));
        }
        if o.a == KOOL {
            return self.after.iter().rev().for_each(|q| self.ask(w, m, *q, cat, rep));
        }
        let (b, c) = (o.b as usize, o.c as usize);
        rep.compared += 1;
        let mut bad: Option<(Tag, String)> = None;
        macro_rules! cmp {
            ($tag:expr, $got:expr, $want:expr) => {{
                let (g, x) = ($got, $want);
                if g != x {
                    bad = Some(($tag, format!("{} gives {:?}, expected {:?}", self.text_of(o, cat), g, x)));
                }
            }};
        }
        let tv = |x: Val| x;
        let r = guarded(|| match o.a {
            0 => cmp!(Tag::Exist, w.exist(nz(real_id(o.b))), m.is_alive(real_id(o.b))),
            1 => cmp!(Tag::Exist, w.entity(nz(real_id(o.b))).map(|e| e.into_id().get()), m.is_alive(real_id(o.b)).then_some(real_id(o.b))),
            2..=10 => {
                let want = if m.is_alive(b) { m.comp(b, c) } else { None };
                let id = nz(b);
                with_type!(c, T => {
                    let v = |c: &T| tv((c.tok(), c.val()));
                    let got = match o.a {
                        2 => w.entity_component_read::<T>(id).map(|c| v(&*c)),
                        3 => w.entity_component_write::<T>(id).map(|c| v(&*c)),
                        4 => w.entity(id).and_then(|e| e.component_read::<T>().map(|c| v(&*c))),
                        5 => w.entity(id).and_then(|e| e.component_write::<T>().map(|c| v(&*c))),
                        6 => w.components_read::<T>().and_then(|s| s.get(id).map(v)),
                        7 => w.components_read::<T>().and_then(|s| if s.exist(id) { want.or(Some((u32::MAX, 0))) } else { None }),
                        8 => w.components_write::<T>().and_then(|s| s.get(id).map(v)),
                        9 => w.components_write::<T>().and_then(|mut s| s.get_mut(id).map(|c| v(c))),
                        _ => w.components_write::<T>().and_then(|s| if s.exist(id) { want.or(Some((u32::MAX, 0))) } else { None }),
                    };
                    cmp!(Tag::Read, got, want)
                })
            }
            11 => {
                let n = m.ids().filter(|i| m.comp(*i, c).is_some()).count();
                with_type!(c, T => {
                    let r = w.components_read::<T>().map(|s| (s.count(), s.is_empty()));
                    let x = w.components_write::<T>().map(|s| (s.count(), s.is_empty()));
                    let want = m.registered(c).then_some((n, n == 0));
                    cmp!(Tag::Read, (r, x), (want, want))
                })
            }
            12 | 13 => {
                let mut want: Vec<Val> = m.ids().filter_map(|i| m.comp(i, c)).collect();
                want.sort();
                with_type!(c, T => {
                    let mut got: Vec<Val> = if o.a == 12 {
                        w.components_read::<T>().map(|s| s.data().iter().map(|c| (c.tok(), c.val())).collect()).unwrap_or_default()
                    } else {
                        w.components_write::<T>().map(|mut s| s.data_mut().iter().map(|c| (c.tok(), c.val())).collect()).unwrap_or_default()
                    };
                    got.sort();
                    cmp!(Tag::Read, got, want)
                })
            }
            14 => with_type!(c, T => cmp!(Tag::Read, w.has_registered::<T>(), m.registered(c))),
            20..=24 => {
                let s = &cat.all[self.shapes[b]];
                let ok = s.accepted(m);
                if o.a == 24 {
                    let got = guarded(|| drop((s.run)(w)));
                    if let Err((e, true)) = &got {
                        bad = Some((Tag::Hang, format!("query {}: {e}", s.name)));
                    } else {
                        cmp!(Tag::QueryAccept, got.is_ok(), ok);
                    }
                    return;
                }
                if !ok {
                    return;
                }
                let tag = obs::shape_tag(s);
                let want: Vec<(usize, Parts)> = m.ids().filter_map(|i| s.expect(m, i).map(|p| (i, p))).collect();
                let cap = want.len() + 2;
                match o.a {
                    20 => {
                        let mut it = (s.run)(w);
                        let mut used = 0u32;
                        let mut n = 0;
                        while let Some(p) = it.next() {
                            n += 1;
                            match want.iter().enumerate().find(|(i, x)| used >> i & 1 == 0 && x.1 == p) {
                                Some((i, _)) => used |= 1 << i,
                                None => {
                                    bad = Some((tag, format!("query {} yields ({p:?}) as item {n}, expected {want:?}", s.name)));
                                    return;
                                }
                            }
                            if n > cap {
                                break;
                            }
                        }
                        cmp!(tag, n, want.len())
                    }
                    21 => {
                        let mut got = vec![];
                        (s.run)(w).drain_with_id(&mut got, cap);
                        got.sort_by_key(|x| x.0);
                        cmp!(tag, got, want)
                    }
                    22 => {
                        let x = want.iter().find(|x| x.0 == c).map(|x| x.1);
                        cmp!(tag, (s.run)(w).from_id(c), x)
                    }
                    _ => {
                        let got = (s.run)(w).next_with_id();
                        let fits = match &got {
                            None => want.is_empty(),
                            Some(g) => want.contains(g),
                        };
                        if !fits {
                            bad = Some((tag, format!("{} gives {got:?}, expected one of {want:?}", self.text_of(o, cat))));
                        }
                    }
                }
            }
            30..=32 => with_res!(b, R => match o.a {
                30 => cmp!(Tag::Resource, w.resource_read::<R>().map(|g| (g.tok(), g.val())), m.res[b]),
                31 => cmp!(Tag::Resource, w.resource_write::<R>().map(|g| (g.tok(), g.val())), m.res[b]),
                _ => if let Some((tok, val)) = m.res[b] {
                    let n = std::any::type_name::<R>().rsplit("::").next().unwrap();
                    let d = if R::R == 2 { "<dbg R2>".to_string() } else { format!("<dbg {n}#{tok}={val}>") };
                    let texts = [w.resource_read::<R>().map(|g| format!("{g:?}")), w.resource_write::<R>().map(|g| format!("{g:?}"))];
                    if !texts.iter().all(|t| t.as_ref().is_some_and(|t| t.contains(&d))) {
                        bad = Some((Tag::Resource, format!("debug text of resource {n} guards {texts:?} does not show {d}")));
                    }
                }
            }),
            40 => obs::packed(w, m, rep),
            _ => cmp!(Tag::Panic, format!("{w:?}").is_empty(), false),
        });
        if let Err((e, hang)) = r {
            bad = Some((if hang { Tag::Hang } else { Tag::Panic }, format!("{}: {e}", self.text_of(o, cat))));
        }
        if let Some((tag, msg)) = bad {
            rep.issue(tag, || msg);
        }
        let e = reg().read_err.take();
        if let Some(e) = e {
            let tag = match o.a {
                20..=24 => obs::shape_tag(&cat.all[self.shapes[b]]),
                30..=32 => Tag::Resource,
                _ => Tag::Read,
            };
            rep.issue(tag, || e);
        }
        obs::lock_leak(rep);
    }

    /// Play a script; with everything asked at its end if `look`.
    fn play(&self, script: &[Op], look: bool, drop_: Cause, cat: &Catalogue, tr: &mut Trace, st: &mut Stats, hand: &Hand) -> (Option<(Tag, String)>, Option<(World, Model)>) {
        let mut h = 0u64;
        for o in script {
            h = (h.rotate_left(7) ^ u32::from_le_bytes(o.bytes()) as u64).wrapping_mul(0x9E37_79B9_7F4A_7C15);
        }
        crate::rs::seed(h);
        reg().reset();
        let c = parking_lot::mc::ctl();
        c.held.clear();
        c.misuse = None;
        tr.start(script);
        st.transitions += 1;
        let mut rep = Rep { mon: self.mon, ..Default::default() };
        let (mut w, mut m) = (World::new(), Model::default());
        let mut ok = true;
        for (i, &o) in self.prelude.iter().chain(script).enumerate() {
            match o.k {
                ASK => self.ask(&w, &m, o, cat, &mut rep),
                ASK2 => hand.does(|| self.ask(&w, &m, o, cat, &mut rep)),
                k => {
                    let skip = i >= self.prelude.len()
                        && match drop_ {
                            Cause::Any => false,
                            Cause::Kinds(ks) => ks >> k & 1 == 1,
                            Cause::Refused => refused(&m, o, cat),
                        };
                    if !skip {
                        st.ops += 1;
                        let out = run(&mut w, &m, o, cat);
                        ok = apply(&mut m, o, &out, &mut rep, cat);
                        obs::lock_leak(&mut rep);
                    }
                }
            }
            if !ok || rep.found.is_some() {
                break;
            }
        }
        if ok && rep.found.is_none() && look {
            tr.looking();
            st.observed += 1;
            self.ask(&w, &m, q(LOOK, 0, 0), cat, &mut rep);
        }
        st.compared += rep.compared;
        st.other += rep.other;
        if ok && rep.found.is_none() {
            return (None, Some((w, m)));
        }
        std::mem::forget(w);
        if rep.found.is_none() {
            st.pruned += 1;
        }
        (rep.found, None)
    }
    fn judge(&self, script: &[Op], look: bool, cat: &Catalogue, tr: &mut Trace, st: &mut Stats, hand: &Hand) -> Result<Option<(World, Model)>, Viol> {
        let (found, end) = self.play(script, look, Cause::Any, cat, tr, st, hand);
        let Some((tag, msg)) = found else { return Ok(end) };
        if self.cause != Cause::Any {
            let (f, end) = self.play(script, look, self.cause, cat, tr, &mut Stats::default(), hand);
            drop(end);
            if f.is_some() {
                st.other += 1;
                return Ok(None);
            }
        }
        let mut path = vec![];
        script.iter().for_each(|o| path.extend(o.bytes()));
        Err(Viol { tag: format!("{tag:?}"), msg, path, text: self.script(script, cat) })
    }

    pub fn explore(&self, cat: &Catalogue, tr: &mut Trace, st: &mut Stats) -> Option<Viol> {
        self.explore_(cat, tr, st, &Hand::new()).err()
    }
    fn explore_(&self, cat: &Catalogue, tr: &mut Trace, st: &mut Stats, hand: &Hand) -> Result<(), Viol> {
        // a history to every state
        let mut seen: HashSet<u128> = HashSet::new();
        let mut states: Vec<Vec<Op>> = vec![vec![]];
        let mut next = 0;
        if let Some((w, m)) = self.judge(&[], true, cat, tr, st, hand)? {
            if let Ok(k) = key(&w, &m, cat) {
                seen.insert(k);
            }
        }
        while next < states.len() {
            let h = states[next].clone();
            next += 1;
            if h.len() >= self.depth {
                continue;
            }
            let Some((_, m)) = self.judge(&h, false, cat, tr, st, hand)? else { continue };
            for o in self.al.gen(&m) {
                let mut n = h.clone();
                n.push(o);
                if let Some((w, m)) = self.judge(&n, false, cat, tr, st, hand)? {
                    if key(&w, &m, cat).is_ok_and(|k| seen.insert(k)) {
                        states.push(n);
                    }
                }
            }
        }
        st.states += states.len() as u64;
        for (n, h) in states.iter().enumerate() {
            if st.late() {
                return Ok(());
            }
            st.max_depth = st.max_depth.max((h.len() + self.span) as u64);
            // every question after every other one
            for a in &self.before {
                let mut s = h.clone();
                for b in &self.after {
                    s.extend([*a, *b]);
                }
                st.sequences += self.after.len() as u64;
                self.judge(&s, false, cat, tr, st, hand)?;
            }
            // every question, operations, and the question again
            let Some((w, m)) = self.judge(h, true, cat, tr, st, hand)? else { continue };
            drop(w);
            let mut acts: Vec<Vec<Op>> = self.al.gen(&m).into_iter().map(|o| vec![o]).collect();
            let mut from = 0;
            for _ in 1..self.span {
                let to = acts.len();
                for i in from..to {
                    let s = [h.clone(), acts[i].clone()].concat();
                    if let Some((_, m)) = self.judge(&s, false, cat, tr, st, hand)? {
                        for o in self.al.gen(&m) {
                            acts.push([acts[i].clone(), vec![o]].concat());
                        }
                    }
                }
                from = to;
            }
            for x in &acts {
                for a in &self.before {
                    for k in if x.len() == 1 { ASK..=ASK2 } else { ASK..=ASK } {
                        let a = Op { k, ..*a };
                        let s = [h.clone(), vec![a], x.clone(), vec![a]].concat();
                        st.sequences += 1;
                        if st.samples.is_empty() && n == states.len() / 2 && x.len() == self.span {
                            st.samples.push(format!("{}: {}", self.name, self.script(&s, cat)));
                        }
                        self.judge(&s, true, cat, tr, st, hand)?;
                    }
                }
            }
        }
        self.chat(&mut vec![], cat, tr, st, hand)
    }
    /// All histories with everything asked after every step.
    fn chat(&self, h: &mut Vec<Op>, cat: &Catalogue, tr: &mut Trace, st: &mut Stats, hand: &Hand) -> Result<(), Viol> {
        let n = h.len() / 2;
        if n >= self.chat || n < 3 && st.late() {
            return Ok(());
        }
        h.push(q(if n % 2 == 0 { LOOK } else { KOOL }, 0, 0));
        if let Some((w, m)) = self.judge(h, false, cat, tr, st, hand)? {
            drop(w);
            for o in self.al.gen(&m) {
                h.push(o);
                if n + 1 == self.chat {
                    h.push(q(if n % 2 == 0 { KOOL } else { LOOK }, 0, 0));
                    st.sequences += 1;
                    self.judge(h, false, cat, tr, st, hand)?;
                    h.pop();
                } else {
                    self.chat(h, cat, tr, st, hand)?;
                }
                h.pop();
            }
        }
        h.pop();
        Ok(())
    }
    pub fn replay(&self, path: &[u8], cat: &Catalogue, tr: &mut Trace) -> Option<Viol> {
        let s: Vec<Op> = path.chunks_exact(4).map(Op::from_bytes).collect();
        let r = self.judge(&s, true, cat, tr, &mut Stats::default(), &Hand::new());
        r.err()
    }
}

const A: usize = 0;
const B: usize = 1;
const C: usize = 2;

pub fn jobs(prop: &str, thorough: bool, cat: &Catalogue) -> Vec<Asks> {
    let tags = |t: &[Tag]| t.iter().fold(Tag::Panic as u32 | Tag::Hang as u32, |m, x| m | *x as u32);
    let th = thorough as usize;
    let ids = 2 + th;
    let base = |ts: &[usize]| Al { ids, create: true, remove: true, attach: ts.to_vec(), detach: ts.to_vec(), ..Al::default() };
    let births: Vec<Op> = (0..=ids + 1).flat_map(|i| if i == 0 { vec![] } else { vec![q(0, i, 0), q(1, i, 0)] }).chain([q(0, 255, 0), q(1, 255, 0)]).collect();
    let reads = |ts: &[usize]| {
        let mut v = vec![];
        for &t in ts {
            for k in 2..=10 {
                v.extend((1..=ids).map(|i| q(k, i, t)));
            }
            v.extend([q(11, 0, t), q(12, 0, t), q(13, 0, t)]);
        }
        v
    };
    let few_reads = |ts: &[usize]| {
        let mut v = vec![];
        for &t in ts {
            for k in [2, 5, 7] {
                v.extend((1..=ids).map(|i| q(k, i, t)));
            }
            v.push(q(12, 0, t));
        }
        v
    };
    // `n` shapes, looked at in every way
    let quest = |n: usize| (0..n).flat_map(|s| [20, 21, 23].map(|k| q(k, s, 0)).into_iter().chain((1..=ids + 1).map(move |i| q(22, s, i)))).collect::<Vec<_>>();
    let by = |names: &[&str]| names.iter().map(|n| cat.by_name(n)).collect::<Vec<_>>();
    let gname3 = ["FullOwning", "PartialOwning", "NonOwning"];
    let of = |gr: &GroupId, all: bool| {
        let k = gname3[gr.kind as usize];
        let (a, b) = (["A", "B", "C"][gr.a as usize], ["A", "B", "C"][gr.b as usize]);
        let f: &[(&str, &str)] = if all { &[("&", "&"), ("&mut ", "&"), ("&", "&mut "), ("&mut ", "&mut ")] } else { &[("&", "&"), ("&mut ", "&mut ")] };
        f.iter().map(|(x, y)| cat.by_name(&format!("{k}<{x}{a},{y}{b}>"))).collect::<Vec<_>>()
    };
    let kinds = |k: &[u8]| Cause::Kinds(k.iter().fold(0, |m, k| m | 1 << k));
    let single_sets: Vec<Vec<GroupId>> = vec![vec![], vec![g(0, A, B)], vec![g(1, A, B)], vec![g(2, A, B)]];
    let made = |gs: &[GroupId]| regs(&[A, B]).into_iter().chain(gs.iter().map(|g| mk_make(*g))).collect::<Vec<_>>();
    let mut out: Vec<Asks> = vec![];
    let mut add = |name: String, prelude: Vec<Op>, al: Al, mon: u32, before: Vec<Op>, after: Vec<Op>, shapes: Vec<usize>, span: usize, chat: usize, cause: Cause| {
        out.push(Asks { name: format!("questions between operations, {name}"), prelude, al, mon, before, after, shapes, depth: 99, span, chat, cause })
    };
    match prop {
        "C01" | "C02" => {
            let mon = if prop == "C01" { tags(&[Tag::Exist, Tag::Alive]) } else { tags(&[Tag::IdChoice, Tag::Alive]) };
            let al = Al { ids: 3 + th, create: true, create_n: vec![0, 2], remove: true, remove_h: true, ..Al::default() };
            let b: Vec<Op> = births.iter().copied().chain([q(41, 0, 0)]).collect();
            add("ids".into(), vec![], al, mon, b.clone(), births.clone(), vec![], 2 + th, 5 + th, Cause::Any);
            for gs in [vec![], vec![g(2, A, B)]] {
                let sh = [by(&["&A"]), gs.iter().flat_map(|g| of(g, false)).collect()].concat();
                let b = [b.clone(), few_reads(&[A]), quest(sh.len())].concat();
                add(gname(&gs), made(&gs), Al { detach: vec![A], ..base(&[A]) }, mon, b, births.clone(), sh, 1 + th, 4, Cause::Any);
            }
        }
        "C03" => {
            let mon = tags(&[Tag::Read, Tag::Detach]);
            add("one type".into(), regs(&[A]), Al { attach_h: vec![A], detach_h: vec![A], write: vec![A], ..base(&[A]) }, mon, [reads(&[A]), births.clone()].concat(), reads(&[A]), vec![], 2, 4, Cause::Any);
            for gs in &single_sets {
                let sh = [by(&["&A", "&mut A"]), gs.iter().flat_map(|g| of(g, false)).collect()].concat();
                add(gname(gs), made(gs), base(&[A, B]), mon, [reads(&[A, B]), quest(sh.len())].concat(), reads(&[A, B]), sh, if gs.is_empty() { 2 } else { 1 + th }, 4, Cause::Any);
            }
            add("registration".into(), vec![], Al { register: vec![A, B], attach: vec![A], detach: vec![A], ids: 1, create: true, remove: true, ..Al::default() }, mon, [reads(&[A, B]), vec![q(14, 0, A), q(14, 0, B)]].concat(), [reads(&[A, B]), vec![q(14, 0, A), q(14, 0, B)]].concat(), vec![], 2, 4, Cause::Any);
        }
        "C04" => {
            let mon = tags(&[Tag::Exist, Tag::Alive, Tag::Read, Tag::Single, Tag::Tuple, Tag::Without]) | GROUPS;
            for gs in &single_sets {
                let sh = [by(&["&A", "(&A,&B)", "(&A,Without<&B>)"]), gs.iter().flat_map(|g| of(g, false)).collect()].concat();
                let a = [births.clone(), few_reads(&[A, B]), quest(sh.len())].concat();
                add(gname(gs), made(gs), Al { remove_h: true, recycle: true, ..base(&[A, B]) }, mon, a.clone(), a, sh, 1 + th, 3, kinds(&[REMOVE, REMOVE_H, RECYCLE]));
            }
        }
        "C05" => {
            let mon = tags(&[Tag::Exist, Tag::Read, Tag::Single]) | GROUPS;
            for gs in &single_sets {
                let sh = [by(&["&A"]), gs.iter().flat_map(|g| of(g, false)).collect()].concat();
                let a = [births.clone(), few_reads(&[A, B]), quest(sh.len())].concat();
                let al = Al { bulk: vec![(1, bulk_index(&[Step::All(0)])), (2, bulk_index(&[Step::All(0)])), (2, bulk_index(&[Step::All(0), Step::All(1)])), (1, bulk_index(&[Step::All(1), Step::All(1)]))], create: false, ids: 3, detach: vec![A], attach: vec![A], ..base(&[A, B]) };
                add(gname(gs), made(gs), al, mon, a.clone(), a, sh, 1, 3, kinds(&[BULK]));
            }
        }
        "C06" | "C07" | "C08" => {
            let (tag, sh) = match prop {
                "C06" => (Tag::Single, by(&["&A", "&mut A", "&B"])),
                "C07" => (Tag::Tuple, by(&["(&A,&B)", "(&mut A,&B)", "(&B,&A)", "(&A,&mut B)"])),
                _ => (Tag::Without, by(&["(&A,Without<&B>)", "(Without<&A>,&B)", "(&mut A,Without<&B>)"])),
            };
            let a = quest(sh.len());
            for gs in &single_sets {
                add(gname(gs), made(gs), base(&[A, B]), tags(&[tag]), [a.clone(), few_reads(&[A, B])].concat(), a.clone(), sh.clone(), if gs.is_empty() { 2 } else { 1 + th }, 4, Cause::Any);
            }
        }
        "C10" | "C11" | "C12" | "C24" => {
            let (k, tag) = match prop {
                "C10" => (vec![0], Tag::GroupFull),
                "C11" => (vec![1], Tag::GroupPartial),
                "C12" => (vec![2], Tag::GroupNon),
                _ => (vec![0, 1], Tag::Pack),
            };
            for k in k {
                let gr = g(k, A, B);
                let sh = [of(&gr, true), by(&["&A", "&mut B", "(&A,&B)", "(Without<&A>,&B)"])].concat();
                let a = if prop == "C24" { vec![q(40, 0, 0)] } else { quest(4) };
                let b = [quest(sh.len()), few_reads(&[A, B]), vec![q(13, 0, A), q(40, 0, 0)]].concat();
                add(gr.to_string(), made(&[gr]), base(&[A, B]), tags(&[tag]), b.clone(), a.clone(), sh.clone(), 1 + th, 4, Cause::Any);
                add(format!("{gr} made at any time"), regs(&[A, B]), Al { make: vec![gr], create_with: vec![3], create: false, attach: vec![A], ..base(&[A, B]) }, tags(&[tag]), b, a, sh, 1 + th, 4, Cause::Any);
            }
        }
        "C13" | "C14" => {
            let sets = vec![vec![g(0, A, B), g(2, B, C)], vec![g(1, A, B), g(1, C, B)], vec![g(1, A, B), g(2, B, C)], vec![g(2, A, B), g(2, B, C)], vec![g(1, A, B), g(1, B, A)], vec![g(0, A, B), g(2, A, B)]];
            for gs in sets {
                let only = prop == "C14";
                let gsh: Vec<usize> = gs.iter().flat_map(|g| of(g, false)).collect();
                let n = gsh.len();
                let ts = if gs.iter().any(|g| g.types() & 4 != 0) { vec![A, B, C] } else { vec![A, B] };
                let sh = [gsh, by(&["&A", "(&A,&B)", "(Without<&A>,&B)"])].concat();
                let plain: Vec<Op> = quest(sh.len()).into_iter().filter(|q| q.b as usize >= n).collect();
                let mut b = [quest(sh.len()), few_reads(&ts)].concat();
                if only && ts.len() == 3 && !thorough {
                    b.retain(|q| matches!(q.a, 2 | 12 | 20) || q.a == 22 && q.c == 1);
                }
                let a = if only { [plain, few_reads(&ts), births.clone()].concat() } else { quest(n) };
                let mon = if only { tags(&[Tag::Exist, Tag::Alive, Tag::Read, Tag::Detach, Tag::Single, Tag::Tuple, Tag::Without]) } else { GROUPS };
                let pre = [regs(&ts), if only { vec![] } else { gs.iter().map(|g| mk_make(*g)).collect() }].concat();
                let al = Al { make: if only { gs.clone() } else { vec![] }, make_in_order: true, create: false, remove: false, recycle: thorough || !only || ts.len() == 2, ..base(&ts) };
                let pre = [pre, vec![op(CREATE_WITH, 7 & mask(&ts) as usize, 0, 0), op(CREATE_WITH, 3, 0, 0)]].concat();
                add(gname(&gs), pre, al, mon, b, a, sh, 1, if ts.len() == 3 { 2 + th } else { 3 + th }, if only { kinds(&[MAKE]) } else { Cause::Any });
            }
        }
        "C15" => {
            let make = vec![g(0, A, B), g(1, A, B), g(1, B, A), g(2, A, B), g(2, B, A)];
            let sh: Vec<usize> = make.iter().flat_map(|g| of(g, false)).collect();
            let acc: Vec<Op> = (0..sh.len()).map(|s| q(24, s, 0)).collect();
            let b = [acc.clone(), (0..sh.len()).map(|s| q(21, s, 0)).collect(), vec![q(14, 0, A), q(14, 0, B), q(2, 1, A)]].concat();
            add("groups".into(), vec![], Al { ids: 1, create_with: vec![3], remove: true, make, refused_make: true, register: vec![A, B], ..Al::default() }, tags(&[Tag::Admission, Tag::QueryAccept]), b, acc, sh, 1, 4, Cause::Any);
        }
        "C16" => {
            let mon = u32::MAX & !(Tag::Cursor as u32 | Tag::Write as u32);
            for gs in &single_sets {
                let sh = [by(&["&A", "&C"]), of(&g(0, A, B), false), of(&g(2, A, B), false)].concat();
                let acc: Vec<Op> = (0..sh.len()).map(|s| q(24, s, 0)).collect();
                let a = [births.clone(), few_reads(&[A, B]), quest(sh.len()), acc].concat();
                let al = Al {
                    dead: vec![1, 2, 255],
                    dead_types: vec![A, C],
                    refused_make: true,
                    make: vec![g(0, A, B), g(2, A, B), g(1, A, A), g(2, A, C)],
                    refused_register: true,
                    register: vec![A],
                    bulk_len: vec![(1, 0, A), (1, 1, C)],
                    queries: by(&["&C", "(&A,&C)"]),
                    ids: 1 + th,
                    ..base(&[A])
                };
                add(gname(gs), made(gs), al, mon, a.clone(), a, sh, 1, 3, Cause::Refused);
            }
        }
        "C18" => {
            for gs in &single_sets {
                let sh = [by(&["&A", "&mut A", "(&A,&B)", "(&B,&mut A)", "(&A,Without<&B>)"]), gs.iter().flat_map(|g| of(g, false)).collect()].concat();
                let a = [reads(&[A, B]), quest(sh.len())].concat();
                let pre = [made(gs), vec![op(CREATE_WITH, 3, 0, 0), op(CREATE_WITH, 1, 0, 0)]].concat();
                let al = Al { write: vec![A, B], detach: vec![A], attach: vec![A], ids: 2, ..Al::default() };
                add(gname(gs), pre, al, tags(&[Tag::Read, Tag::Single, Tag::Tuple, Tag::Without]) | GROUPS, a.clone(), a, sh, 1 + th, 3, kinds(&[WRITE]));
            }
        }
        "C19" => {
            let a: Vec<Op> = (0..4).flat_map(|r| [30, 31, 32].map(|k| q(k, r, 0))).collect();
            add("resources".into(), vec![], Al { res: vec![0, 1, 2, 3], ..Al::default() }, tags(&[Tag::Resource]), a.clone(), a, vec![], 2, 4, Cause::Any);
        }
        "C25" => {}
        _ => {}
    }
    out
}
