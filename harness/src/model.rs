//! The reference model: a boring description of what a world is.

use crate::tok::{D, NT, TNAMES};
use std::fmt;

/// Largest id the explorations let a world reach.
pub const MAXID: usize = 15;

#[derive(Clone, Copy, PartialEq, Eq, Debug, Hash, PartialOrd, Ord)]
pub struct GroupId {
    /// 0 full-owning, 1 partial-owning, 2 non-owning
    pub kind: u8,
    pub a: u8,
    pub b: u8,
}

impl GroupId {
    pub fn owned(&self) -> u8 {
        match self.kind {
            0 => 1 << self.a | 1 << self.b,
            1 => 1 << self.a,
            _ => 0,
        }
    }
    pub fn types(&self) -> u8 {
        1 << self.a | 1 << self.b
    }
}

impl fmt::Display for GroupId {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        let k = ["full", "partial", "non"][self.kind as usize];
        write!(f, "{k}<{},{}>", TNAMES[self.a as usize], TNAMES[self.b as usize])
    }
}

/// (identity, value) of a component.
pub type Val = (u32, u32);

#[derive(Clone, PartialEq, Debug)]
pub struct Model {
    /// ids handed out so far and alive, as bit sets
    pub ever: u32,
    pub alive: u32,
    comps: [[Val; NT]; MAXID + 1],
    has: [u8; MAXID + 1],
    pub reg: u8,
    pub groups: Vec<GroupId>,
    /// resource type -> (number, value)
    pub res: [Option<(u32, u32)>; 4],
    /// Not part of the abstract state: history data that only makes state keys finer.
    pub ghost: Ghost,
}

#[derive(Clone, PartialEq, Debug, Default)]
pub struct Ghost {
    /// free ids in order of removal
    pub freed: Vec<u8>,
    /// highest id each storage ever held
    pub hw: [u8; NT],
    /// highest id each group ever contained
    pub ghw: Vec<u8>,
}

impl Default for Model {
    fn default() -> Model {
        Model {
            ever: 0,
            alive: 0,
            comps: [[(0, 0); NT]; MAXID + 1],
            has: [0; MAXID + 1],
            reg: 0,
            groups: vec![],
            res: [None; 4],
            ghost: Ghost::default(),
        }
    }
}

impl Model {
    pub fn is_alive(&self, id: usize) -> bool {
        id <= MAXID && self.alive >> id & 1 == 1
    }
    pub fn was_ever(&self, id: usize) -> bool {
        id <= MAXID && self.ever >> id & 1 == 1
    }
    pub fn ids(&self) -> impl Iterator<Item = usize> + '_ {
        (1..=MAXID).filter(|i| self.is_alive(*i))
    }
    pub fn count_alive(&self) -> usize {
        self.alive.count_ones() as usize
    }
    pub fn count_ever(&self) -> usize {
        self.ever.count_ones() as usize
    }
    pub fn mask(&self, id: usize) -> u8 {
        if id <= MAXID { self.has[id] } else { 0 }
    }
    pub fn comp(&self, id: usize, t: usize) -> Option<Val> {
        if id <= MAXID && self.has[id] >> t & 1 == 1 { Some(self.comps[id][t]) } else { None }
    }
    pub fn registered(&self, t: usize) -> bool {
        self.reg >> t & 1 == 1
    }
    pub fn set(&mut self, id: usize, t: usize, tok: u32) -> Option<Val> {
        let old = self.comp(id, t);
        self.comps[id][t] = (if t == D { 0 } else { tok }, 0);
        self.has[id] |= 1 << t;
        self.ghost.hw[t] = self.ghost.hw[t].max(id as u8);
        self.group_marks();
        old
    }
    pub fn set_val(&mut self, id: usize, t: usize, val: u32) {
        if t != D {
            self.comps[id][t].1 = val;
        }
    }
    pub fn unset(&mut self, id: usize, t: usize) -> Option<Val> {
        let old = self.comp(id, t);
        self.has[id] &= !(1 << t);
        self.comps[id][t] = (0, 0);
        old
    }
    pub fn born(&mut self, id: usize) {
        self.ever |= 1 << id;
        self.alive |= 1 << id;
        self.ghost.freed.retain(|f| *f as usize != id);
    }
    pub fn kill(&mut self, id: usize) {
        self.alive &= !(1 << id);
        for t in 0..NT {
            self.unset(id, t);
        }
        self.ghost.freed.push(id as u8);
    }
    pub fn add_group(&mut self, g: GroupId) {
        self.groups.push(g);
        self.ghost.ghw.push(0);
        self.group_marks();
    }
    fn group_marks(&mut self) {
        for (i, g) in self.groups.iter().enumerate() {
            for id in 1..=MAXID {
                if self.has[id] & g.types() == g.types() {
                    self.ghost.ghw[i] = self.ghost.ghw[i].max(id as u8);
                }
            }
        }
    }
    /// May this group be made now?
    pub fn admits(&self, g: GroupId) -> bool {
        g.types() & !self.reg == 0
            && !self.groups.contains(&g)
            && self.groups.iter().all(|h| h.owned() & g.owned() == 0)
            && !(g.kind != 2 && g.a == g.b)
    }
    pub fn in_group(&self, g: GroupId, id: usize) -> bool {
        self.mask(id) & g.types() == g.types()
    }
    /// Abstract state only, without identities (what another model must agree on).
    pub fn same_state(&self, o: &Model) -> bool {
        self.alive == o.alive && self.has == o.has && self.comps == o.comps && self.reg == o.reg && self.groups == o.groups && self.res == o.res
    }
}
