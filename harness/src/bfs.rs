//! Exhaustive exploration of operation histories on the real world, against the model.

use crate::exec::*;
use crate::model::*;
use crate::obs;
use crate::shapes::*;
use crate::tok::*;
use crate::trace::Trace;
use std::collections::HashSet;
use xecs::World;

/// What is looked at in every new state.
#[derive(Clone, Default)]
pub struct Obs {
    pub exist: bool,
    pub reads: bool,
    pub shapes: Vec<usize>,
    /// shapes whose acceptance is checked
    pub accept: Vec<usize>,
    pub drops: bool,
    /// members of owning groups in front of their storages
    pub pack: bool,
    pub resources: bool,
    /// drop the world at the end of every history and check that nothing is left
    pub final_drop: bool,
    /// (shapes, calls): cursor protocol
    pub cursor: Option<(Vec<usize>, usize)>,
    /// (shapes to write through, shapes to check after each write)
    pub writes: Option<(Vec<usize>, Vec<usize>)>,
    /// shapes compared with the same history without groups
    pub lockstep: Option<Vec<usize>>,
    /// only look after these kinds of operation (bit set of Op::k); 0: always
    pub only_after: u32,
}

pub struct Cfg {
    pub name: String,
    pub prelude: Vec<Op>,
    pub alpha: Box<dyn Fn(&Model) -> Vec<Op> + Send + Sync>,
    pub mon: u32,
    pub obs: Obs,
    /// merge states with equal keys
    pub merge: bool,
    pub depth: usize,
    pub max_states: usize,
    /// continue after every refused call with every history of this many operations
    pub after_refusal: usize,
    /// a violation counts only if the history is in order when no code of the user panics
    pub faults: bool,
}

#[derive(Default, Debug)]
pub struct Stats {
    pub states: u64,
    pub transitions: u64,
    pub ops: u64,
    pub observed: u64,
    pub compared: u64,
    pub max_depth: u64,
    pub other: u64,
    pub pruned: u64,
    pub capped: u64,
    pub sequences: u64,
    pub executions: u64,
    pub deadlocks: u64,
    pub outcomes: u64,
    pub scenarios: u64,
    pub samples: Vec<String>,
    pub known: Vec<String>,
    pub notes: Vec<String>,
    pub deadline: Option<std::time::Instant>,
}

impl Stats {
    /// The time for this job is over; noted once.
    pub fn late(&mut self) -> bool {
        match self.deadline {
            Some(d) if std::time::Instant::now() > d => {
                self.capped += 1;
                self.notes.push("time cap reached".into());
                true
            }
            _ => false,
        }
    }
}

pub struct Viol {
    pub tag: String,
    pub msg: String,
    pub path: Vec<u8>,
    pub text: String,
}

#[derive(Clone, Copy)]
struct Hash2(u64, u64);
impl Hash2 {
    fn new() -> Hash2 {
        Hash2(0xcbf29ce484222325, 0x9E3779B97F4A7C15)
    }
    fn byte(&mut self, b: u8) {
        self.0 = (self.0 ^ b as u64).wrapping_mul(0x100000001b3);
        self.1 = (self.1.rotate_left(5) ^ b as u64).wrapping_mul(0x517cc1b727220a95);
    }
    fn bytes(&mut self, b: &[u8]) {
        for x in b {
            self.byte(*x)
        }
    }
    fn done(self) -> u128 {
        let a = (self.0 ^ self.0 >> 29).wrapping_mul(0xbf58476d1ce4e5b9);
        let b = (self.1 ^ self.1 >> 32).wrapping_mul(0x94d049bb133111eb);
        (a as u128) << 64 | (b ^ b >> 31) as u128
    }
}

/// Opaque fingerprint of everything in the real world that can influence what happens later, plus
/// the ghosts of the model.
pub fn key(w: &World, m: &Model, cat: &Catalogue) -> Result<u128, (String, bool)> {
    use std::fmt::Write;
    guarded(|| {
        let mut h = Hash2::new();
        let mut txt = String::with_capacity(160);
        let _ = write!(txt, "{w:?}");
        let cut = txt.find("components:").unwrap_or(txt.len());
        h.bytes(&txt.as_bytes()[..cut]);
        h.byte(m.reg);
        let mut ids = vec![];
        let mut dense = |si: usize, h: &mut Hash2| {
            let s = &cat.all[si];
            ids.clear();
            (s.run)(w).drain_with_id(&mut ids, 40);
            h.byte(255);
            for (id, p) in &ids {
                h.bytes(&id.to_le_bytes());
                // does the impl agree with the model on this item?
                h.byte((s.expect(m, *id) != Some(*p)) as u8);
            }
        };
        for t in 0..NT {
            if m.registered(t) {
                dense(cat.single[t], &mut h);
            }
        }
        for g in &m.groups {
            h.bytes(&[g.kind, g.a, g.b]);
            if let Some(i) = cat.group(*g) {
                dense(i, &mut h);
            }
        }
        h.bytes(&m.alive.to_le_bytes());
        h.bytes(&m.ever.to_le_bytes());
        h.bytes(&m.ghost.freed);
        h.byte(254);
        h.bytes(&m.ghost.hw);
        h.bytes(&m.ghost.ghw);
        for i in 1..=MAXID {
            h.byte(m.mask(i));
        }
        for r in m.res {
            h.byte(r.is_some() as u8);
        }
        h.done()
    })
}

pub fn show(ops: &[Op]) -> String {
    ops.iter().map(|o| o.to_string()).collect::<Vec<_>>().join("; ")
}

/// A world under exploration together with its model.
pub struct Pair {
    pub w: World,
    pub m: Model,
    pub hist: Vec<Op>,
}

pub enum Play {
    Ok(Pair),
    /// the history cannot be followed (reported in the Rep or outside the property)
    Stop,
}

fn clean(path: &[Op]) {
    let mut h = Hash2::new();
    for o in path {
        h.bytes(&o.bytes());
    }
    crate::rs::seed(h.done() as u64);
    reg().reset();
    let c = parking_lot::mc::ctl();
    c.held.clear();
    c.misuse = None;
}

impl Cfg {
    /// Run prelude and history on a fresh world.
    pub fn play(&self, ops: &[Op], rep: &mut Rep, cat: &Catalogue, tr: &mut Trace, st: &mut Stats) -> Play {
        clean(ops);
        let mut p = Pair { w: World::new(), m: Model::default(), hist: Vec::with_capacity(ops.len()) };
        tr.start(ops);
        for (i, &o) in self.prelude.iter().chain(ops).enumerate() {
            st.ops += 1;
            let out = run(&mut p.w, &p.m, o, cat);
            let ok = apply(&mut p.m, o, &out, rep, cat);
            if i >= self.prelude.len() {
                p.hist.push(o);
            }
            obs::lock_leak(rep);
            if !ok || rep.found.is_some() {
                // the world may be broken or locked: do not touch it again
                std::mem::forget(p.w);
                return Play::Stop;
            }
        }
        Play::Ok(p)
    }

    pub fn look(&self, p: &mut Pair, rep: &mut Rep, cat: &Catalogue, st: &mut Stats, tr: &mut Trace) {
        let o = &self.obs;
        if o.only_after != 0 {
            match p.hist.last() {
                Some(l) if o.only_after >> l.k & 1 == 1 => {}
                _ => return,
            }
        }
        tr.looking();
        st.observed += 1;
        let before = rep.compared;
        if o.drops {
            obs::drops(&p.m, rep);
        }
        if o.exist {
            obs::exist(&p.w, &p.m, rep);
        }
        if o.reads {
            obs::reads(&p.w, &p.m, rep);
        }
        if o.pack {
            obs::packed(&p.w, &p.m, rep);
        }
        if o.resources {
            obs::resources(&p.w, &p.m, rep);
        }
        obs::shapes(&p.w, &p.m, cat, &o.shapes, rep);
        obs::acceptance(&p.w, &p.m, cat, &o.accept, rep);
        if let Some((sel, len)) = &o.cursor {
            for &i in sel {
                obs::cursor(&p.w, &p.m, &cat.all[i], *len, rep, &mut st.sequences);
                if rep.found.is_some() {
                    break;
                }
            }
        }
        if let Some((sel, lite)) = &o.writes {
            let mut m = p.m.clone();
            st.sequences += obs::writes(&mut p.w, &mut m, cat, sel, lite, rep);
            p.m = m;
        }
        if let Some(sel) = &o.lockstep {
            self.lockstep(p, sel, rep, cat);
        }
        obs::lock_leak(rep);
        st.compared += rep.compared - before;
    }

    /// The same history without groups must look the same.
    fn lockstep(&self, p: &Pair, sel: &[usize], rep: &mut Rep, cat: &Catalogue) {
        // values are numbered by the order in which they were given to the world
        let sel: Vec<usize> = sel.iter().copied().filter(|i| cat.all[*i].groups.is_empty() && cat.all[*i].types & !p.m.reg == 0).collect();
        let id = |_: u8, t: u32| t;
        let with = obs::digest(&p.w, &p.m, cat, &sel, &id);
        let mut w2 = World::new();
        let mut m2 = Model::default();
        let mut outs2 = vec![];
        // identities continue to grow in the second world: renumber them from its first
        let base = reg().next() - 1;
        let all: Vec<Op> = self.prelude.iter().chain(&p.hist).copied().filter(|o| o.k != MAKE).collect();
        for &o in &all {
            let out = run(&mut w2, &m2, o, cat);
            let mut r = Rep::default();
            if !apply(&mut m2, o, &out, &mut r, cat) {
                // broken without groups: not this property
                std::mem::forget(w2);
                rep.other += 1;
                return;
            }
            outs2.push(out);
        }
        let without = obs::digest(&w2, &m2, cat, &sel, &|t, x| if t as usize == D { x } else { x.wrapping_sub(base) });
        drop(w2);
        match (with, without) {
            (Ok(a), Ok(b)) => {
                rep.compared += a.len() as u64;
                if let Some((x, y)) = a.iter().zip(&b).find(|(x, y)| x != y) {
                    rep.issue(Tag::Differ, || format!("with groups: {x}; without: {y}"));
                }
            }
            (Err(e), Ok(_)) => {
                rep.issue(Tag::Differ, || format!("with groups a read fails: {e}"));
            }
            _ => rep.other += 1,
        }
    }

    fn finish(&self, p: Pair, rep: &mut Rep) {
        let Pair { w, .. } = p;
        let r = guarded(|| drop(w));
        if self.obs.final_drop {
            if let Err((e, _)) = r {
                rep.issue(Tag::Panic, || format!("dropping the world panicked: {e}"));
            }
            let mut none = Model::default();
            none.reg = 0;
            obs::drops(&none, rep);
            if let Some((_, m)) = &mut rep.found {
                if !m.contains("dropping") {
                    m.push_str(" (possibly after dropping the world)");
                }
            }
        }
    }

    fn viol(&self, rep: Rep, ops: &[Op]) -> Viol {
        let (tag, msg) = rep.found.unwrap();
        let mut path = vec![];
        for o in ops {
            path.extend(o.bytes());
        }
        Viol { tag: format!("{tag:?}"), msg, path, text: format!("[{}] then {}", show(&self.prelude), show(ops)) }
    }

    fn rep(&self) -> Rep {
        Rep { mon: self.mon, ..Default::default() }
    }

    /// Replay one history with observation after every step.
    pub fn replay(&self, ops: &[Op], cat: &Catalogue, tr: &mut Trace) -> Option<Viol> {
        let v = self.replay_(ops, cat, tr)?;
        if self.faults && self.calm(ops, cat, tr) { None } else { Some(v) }
    }

    fn replay_(&self, ops: &[Op], cat: &Catalogue, tr: &mut Trace) -> Option<Viol> {
        let mut st = Stats::default();
        for n in 0..=ops.len() {
            let mut rep = self.rep();
            if let Play::Ok(mut p) = self.play(&ops[..n], &mut rep, cat, tr, &mut st) {
                if rep.found.is_none() {
                    self.look(&mut p, &mut rep, cat, &mut st, tr);
                }
                if rep.found.is_none() {
                    self.finish(p, &mut rep);
                } else {
                    std::mem::forget(p.w);
                }
            }
            if rep.found.is_some() {
                return Some(self.viol(rep, &ops[..n]));
            }
        }
        None
    }

    pub fn explore(&self, cat: &Catalogue, tr: &mut Trace, st: &mut Stats) -> Option<Viol> {
        if self.merge { self.explore_merged(cat, tr, st) } else { self.explore_all(cat, tr, st) }
    }

    /// A violation of a history with user panics counts only if the same history without them is fine.
    fn visit(&self, ops: &[Op], cat: &Catalogue, tr: &mut Trace, st: &mut Stats, seen: Option<&mut HashSet<u128>>) -> Result<Option<Vec<Op>>, Viol> {
        let r = self.visit_(ops, cat, tr, st, seen);
        match r {
            Err(v) if self.faults && self.calm(ops, cat, tr) => {
                st.other += 1;
                st.pruned += 1;
                drop(v);
                Ok(None)
            }
            r => r,
        }
    }

    /// Does the history go wrong without any panic of user code?
    fn calm(&self, ops: &[Op], cat: &Catalogue, tr: &mut Trace) -> bool {
        reg().calm = true;
        let r = self.replay_(ops, cat, tr).is_some();
        reg().calm = false;
        r
    }

    /// Visit one state: run its history, look at it, give its successors' operations and its key.
    fn visit_(&self, ops: &[Op], cat: &Catalogue, tr: &mut Trace, st: &mut Stats, seen: Option<&mut HashSet<u128>>) -> Result<Option<Vec<Op>>, Viol> {
        let mut rep = self.rep();
        st.transitions += 1;
        let mut p = match self.play(ops, &mut rep, cat, tr, st) {
            Play::Ok(p) => p,
            Play::Stop => {
                st.other += rep.other;
                if rep.found.is_some() {
                    return Err(self.viol(rep, ops));
                }
                st.pruned += 1;
                return Ok(None);
            }
        };
        let mut fresh = true;
        if let Some(seen) = seen {
            match key(&p.w, &p.m, cat) {
                Ok(k) => fresh = seen.insert(k),
                Err((e, hang)) => {
                    if rep.issue(if hang { Tag::Hang } else { Tag::Panic }, || format!("reading the world's queries: {e}")) {
                        std::mem::forget(p.w);
                        return Err(self.viol(rep, ops));
                    }
                    st.pruned += 1;
                    std::mem::forget(p.w);
                    return Ok(None);
                }
            }
            reg().read_err = None;
        }
        if fresh {
            st.states += 1;
            st.max_depth = st.max_depth.max(ops.len() as u64);
            self.look(&mut p, &mut rep, cat, st, tr);
            if st.samples.len() < 3 && (st.states.is_power_of_two() && ops.len() >= 3 || st.states == 1) {
                st.samples.push(format!("{}: [{}] {}", self.name, show(&self.prelude), show(ops)));
            }
        }
        st.other += rep.other;
        if rep.found.is_some() {
            std::mem::forget(p.w);
            return Err(self.viol(rep, ops));
        }
        let next = if fresh { Some((self.alpha)(&p.m)) } else { None };
        if fresh && self.after_refusal > 0 {
            let al = next.clone().unwrap();
            let bad: Vec<Op> = al.iter().copied().filter(|o| refused(&p.m, *o, cat)).collect();
            let m = p.m.clone();
            self.finish(p, &mut rep);
            for b in bad {
                let mut h = ops.to_vec();
                h.push(b);
                self.continue_after(&mut h, &m, self.after_refusal, cat, tr, st)?;
            }
            // refused calls are not followed by merged exploration: they lead nowhere new
            return Ok(next.map(|v| v.into_iter().filter(|o| !refused(&m, *o, cat)).collect()));
        }
        self.finish(p, &mut rep);
        if rep.found.is_some() {
            return Err(self.viol(rep, ops));
        }
        Ok(next)
    }

    /// Histories after a refused call, not merged.
    fn continue_after(&self, h: &mut Vec<Op>, _m: &Model, left: usize, cat: &Catalogue, tr: &mut Trace, st: &mut Stats) -> Result<(), Viol> {
        let mut rep = self.rep();
        st.transitions += 1;
        st.sequences += 1;
        let mut p = match self.play(h, &mut rep, cat, tr, st) {
            Play::Ok(p) => p,
            Play::Stop => {
                if rep.found.is_some() {
                    return Err(self.viol(rep, h));
                }
                st.pruned += 1;
                return Ok(());
            }
        };
        self.look(&mut p, &mut rep, cat, st, tr);
        if rep.found.is_some() {
            std::mem::forget(p.w);
            return Err(self.viol(rep, h));
        }
        let al = (self.alpha)(&p.m);
        let m = p.m.clone();
        self.finish(p, &mut rep);
        if rep.found.is_some() {
            return Err(self.viol(rep, h));
        }
        if left > 0 {
            for o in al {
                h.push(o);
                self.continue_after(h, &m, left - 1, cat, tr, st)?;
                h.pop();
            }
        }
        Ok(())
    }

    fn explore_merged(&self, cat: &Catalogue, tr: &mut Trace, st: &mut Stats) -> Option<Viol> {
        let mut seen: HashSet<u128> = HashSet::new();
        // (parent, op, depth)
        let mut nodes: Vec<(u32, Op, u16)> = vec![];
        let path = |nodes: &Vec<(u32, Op, u16)>, mut i: u32| {
            let mut v = vec![];
            while i != u32::MAX {
                let n = nodes[i as usize];
                v.push(n.1);
                i = n.0;
            }
            v.reverse();
            v
        };
        let mut queue: std::collections::VecDeque<(u32, Vec<Op>)> = Default::default();
        match self.visit(&[], cat, tr, st, Some(&mut seen)) {
            Err(v) => return Some(v),
            Ok(Some(next)) => queue.push_back((u32::MAX, next)),
            Ok(None) => {}
        }
        while let Some((i, next)) = queue.pop_front() {
            if st.late() {
                return None;
            }
            let mut h = path(&nodes, i);
            if h.len() >= self.depth {
                st.capped += 1;
                continue;
            }
            for o in next {
                h.push(o);
                match self.visit(&h, cat, tr, st, Some(&mut seen)) {
                    Err(v) => return Some(v),
                    Ok(Some(n)) => {
                        if seen.len() >= self.max_states {
                            st.capped += 1;
                            st.notes.push("state cap reached".into());
                            return None;
                        }
                        nodes.push((i, o, h.len() as u16));
                        queue.push_back((nodes.len() as u32 - 1, n));
                    }
                    Ok(None) => {}
                }
                h.pop();
            }
        }
        None
    }

    fn explore_all(&self, cat: &Catalogue, tr: &mut Trace, st: &mut Stats) -> Option<Viol> {
        fn rec(c: &Cfg, h: &mut Vec<Op>, cat: &Catalogue, tr: &mut Trace, st: &mut Stats) -> Option<Viol> {
            match c.visit(h, cat, tr, st, None) {
                Err(v) => Some(v),
                Ok(None) => None,
                Ok(Some(next)) => {
                    if h.len() < c.depth && !(h.len() < 3 && st.late()) {
                        for o in next {
                            h.push(o);
                            let r = rec(c, h, cat, tr, st);
                            h.pop();
                            if r.is_some() {
                                return r;
                            }
                        }
                    }
                    None
                }
            }
        }
        rec(self, &mut vec![], cat, tr, st)
    }
}
