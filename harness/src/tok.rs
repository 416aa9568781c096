//! Component and resource values whose identity and lifetime are tracked.

use std::cell::UnsafeCell;

pub const NT: usize = 5;
pub const TNAMES: [&str; NT] = ["A", "B", "C", "D", "E"];
/// Type D is zero-sized: its values carry no identity.
pub const D: usize = 3;
const MAGIC: u32 = 0x5EC5_0001;

#[derive(Clone, Copy, PartialEq, Debug)]
enum Life {
    Live,
    Dropped,
    /// of a type without destructor
    Plain,
}

pub struct Reg {
    toks: Vec<(usize, Life)>,
    /// live values of type D
    pub d_live: i64,
    /// first double drop / drop of garbage / read of a dead value
    pub drop_err: Option<String>,
    pub read_err: Option<String>,
    /// how many drops from now one panics; 0: none does
    pub bomb: u32,
    pub exploded: bool,
    /// calls of user code that should panic do not
    pub calm: bool,
}

/// What a panic of the checks' own code carries.
pub struct Bomb;
pub const BOMB: &str = "the user's own panic";
/// Panic as user code, unless nothing shall panic.
pub fn boom() {
    if !reg().calm {
        reg().exploded = true;
        std::panic::panic_any(Bomb)
    }
}

struct G(UnsafeCell<Reg>);
unsafe impl Sync for G {}
static REG: G = G(UnsafeCell::new(Reg { toks: Vec::new(), d_live: 0, drop_err: None, read_err: None, bomb: 0, exploded: false, calm: false }));

#[allow(clippy::mut_from_ref)]
pub fn reg() -> &'static mut Reg {
    unsafe { &mut *REG.0.get() }
}

impl Reg {
    pub fn reset(&mut self) {
        self.toks.clear();
        self.d_live = 0;
        self.drop_err = None;
        self.read_err = None;
        self.bomb = 0;
        self.exploded = false;
    }
    /// A drop happened: shall it panic?
    fn tick(&mut self) -> bool {
        if self.bomb == 0 || std::thread::panicking() {
            return false;
        }
        self.bomb -= 1;
        self.bomb == 0
    }
    pub fn next(&self) -> u32 {
        self.toks.len() as u32 + 1
    }
    pub fn is_live(&self, tok: u32) -> bool {
        tok >= 1 && matches!(self.toks.get(tok as usize - 1), Some((_, Life::Live)))
    }
    pub fn live(&self) -> impl Iterator<Item = (u32, usize)> + '_ {
        self.toks
            .iter()
            .enumerate()
            .filter(|(_, t)| t.1 == Life::Live)
            .map(|(i, t)| (i as u32 + 1, t.0))
    }
    fn born(&mut self, ty: usize) -> u32 {
        self.toks.push((ty, Life::Live));
        self.toks.len() as u32
    }
    /// The value will never be dropped.
    pub fn plain(&mut self, tok: u32) {
        self.toks[tok as usize - 1].1 = Life::Plain
    }
    fn died(&mut self, tok: u32, ty: usize, magic: u32) {
        let e = match self.toks.get_mut((tok as usize).wrapping_sub(1)) {
            Some(t) if magic == MAGIC && t.0 == ty => {
                if t.1 == Life::Dropped {
                    Some(format!("value #{tok} of type {} dropped twice", TNAMES.get(ty).unwrap_or(&"?")))
                } else {
                    t.1 = Life::Dropped;
                    None
                }
            }
            _ => Some(format!("drop of something that is not a live value (tok={tok} ty={ty})")),
        };
        if e.is_some() && self.drop_err.is_none() {
            self.drop_err = e;
        }
    }
    fn read(&mut self, tok: u32, ty: usize, magic: u32) {
        let ok = magic == MAGIC
            && matches!(self.toks.get((tok as usize).wrapping_sub(1)), Some(t) if t.0 == ty && t.1 != Life::Dropped);
        if !ok && self.read_err.is_none() {
            self.read_err = Some(format!("read of a value that is not alive (tok={tok} as type {ty})"));
        }
    }
}

#[repr(C)]
pub struct Tok {
    id: u32,
    pub val: u32,
    magic: u32,
    ty: u32,
}

impl Tok {
    pub fn new(ty: usize) -> Tok {
        Tok { id: reg().born(ty), val: 0, magic: MAGIC, ty: ty as u32 }
    }
    pub fn id(&self) -> u32 {
        self.id
    }
    pub fn check(&self, ty: usize) {
        if self.ty as usize != ty {
            reg().read(u32::MAX, ty, self.magic)
        } else {
            reg().read(self.id, ty, self.magic)
        }
    }
}
impl Drop for Tok {
    fn drop(&mut self) {
        reg().died(self.id, self.ty as usize, self.magic);
        if reg().tick() {
            boom()
        }
    }
}

/// A component of the checks: knows its type index, its identity and a mutable value.
pub trait Comp: Send + Sync + Sized + 'static {
    const T: usize;
    fn make() -> Self;
    /// Identity (0 for the zero-sized type).
    fn tok(&self) -> u32;
    fn val(&self) -> u32;
    fn val_ptr(&mut self) -> *mut u32;
}

macro_rules! comp {
    ($n:ident, $t:expr, $body:ty, $mk:expr, $get:expr, $getm:expr) => {
        pub struct $n($body);
        impl Comp for $n {
            const T: usize = $t;
            fn make() -> Self {
                let f: fn(Tok) -> $body = $mk;
                $n(f(Tok::new($t)))
            }
            fn tok(&self) -> u32 {
                let f: fn(&$body) -> &Tok = $get;
                let t = f(&self.0);
                t.check($t);
                t.id()
            }
            fn val(&self) -> u32 {
                let f: fn(&$body) -> &Tok = $get;
                f(&self.0).val
            }
            fn val_ptr(&mut self) -> *mut u32 {
                let f: fn(&mut $body) -> &mut Tok = $getm;
                &mut f(&mut self.0).val
            }
        }
    };
}

comp!(A, 0, Tok, |t| t, |b| b, |b| b);
comp!(B, 1, Tok, |t| t, |b| b, |b| b);
// a different layout
comp!(C, 2, (Tok, [u64; 2]), |t| (t, [7; 2]), |b| &b.0, |b| &mut b.0);
// heap allocated: a lost or duplicated value is a leak or a double free as well
comp!(E, 4, Box<Tok>, Box::new, |b| b, |b| b);

/// Zero-sized component.
pub struct Dz(());
impl Comp for Dz {
    const T: usize = D;
    fn make() -> Self {
        reg().d_live += 1;
        Dz(())
    }
    fn tok(&self) -> u32 {
        0
    }
    fn val(&self) -> u32 {
        0
    }
    fn val_ptr(&mut self) -> *mut u32 {
        std::ptr::null_mut()
    }
}
impl Drop for Dz {
    fn drop(&mut self) {
        let r = reg();
        r.d_live -= 1;
        if r.d_live < 0 && r.drop_err.is_none() {
            r.drop_err = Some("more drops than values of the zero-sized type".into());
        }
        if r.tick() {
            boom()
        }
    }
}

// ---- resources: R0 and R1 have the same layout, R2 is zero-sized, R3 is on the heap

pub const NR: usize = 4;

pub trait Res: Send + Sync + Sized + std::fmt::Debug + std::fmt::Display + 'static {
    const R: usize;
    fn make() -> Self;
    fn tok(&self) -> u32;
    fn val(&self) -> u32;
    fn set(&mut self, v: u32);
}
macro_rules! res {
    ($n:ident, $r:expr, $body:ty, $mk:expr, $get:expr, $getm:expr) => {
        pub struct $n($body);
        impl Res for $n {
            const R: usize = $r;
            fn make() -> Self {
                let f: fn(Tok) -> $body = $mk;
                $n(f(Tok::new(NT + $r)))
            }
            fn tok(&self) -> u32 {
                let f: fn(&$body) -> &Tok = $get;
                let t = f(&self.0);
                t.check(NT + $r);
                t.id()
            }
            fn val(&self) -> u32 {
                let f: fn(&$body) -> &Tok = $get;
                f(&self.0).val
            }
            fn set(&mut self, v: u32) {
                let f: fn(&mut $body) -> &mut Tok = $getm;
                f(&mut self.0).val = v
            }
        }
        impl std::fmt::Debug for $n {
            fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
                write!(f, "<dbg {}#{}={}>", stringify!($n), self.tok(), self.val())
            }
        }
        impl std::fmt::Display for $n {
            fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
                f.pad(&format!("<show {}#{}={}>", stringify!($n), self.tok(), self.val()))
            }
        }
    };
}
res!(R0, 0, Tok, |t| t, |b| b, |b| b);
res!(R1, 1, Tok, |t| t, |b| b, |b| b);
res!(R3, 3, Box<(u64, Tok)>, |t| Box::new((3, t)), |b| &b.1, |b| &mut b.1);

pub struct R2;
impl Res for R2 {
    const R: usize = 2;
    fn make() -> Self {
        R2
    }
    fn tok(&self) -> u32 {
        0
    }
    fn val(&self) -> u32 {
        0
    }
    fn set(&mut self, _: u32) {}
}
impl std::fmt::Debug for R2 {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        write!(f, "<dbg R2>")
    }
}
impl std::fmt::Display for R2 {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        f.pad("<show R2>")
    }
}

#[macro_export]
macro_rules! with_res {
    ($t:expr, $T:ident => $body:expr) => {
        match $t as usize {
            0 => { type $T = $crate::tok::R0; $body }
            1 => { type $T = $crate::tok::R1; $body }
            2 => { type $T = $crate::tok::R2; $body }
            _ => { type $T = $crate::tok::R3; $body }
        }
    };
}

/// Run `$body` with the type alias `$T` bound to component type number `$t`.
#[macro_export]
macro_rules! with_type {
    ($t:expr, $T:ident => $body:expr) => {
        match $t as usize {
            0 => { type $T = $crate::tok::A; $body }
            1 => { type $T = $crate::tok::B; $body }
            2 => { type $T = $crate::tok::C; $body }
            3 => { type $T = $crate::tok::Dz; $body }
            _ => { type $T = $crate::tok::E; $body }
        }
    };
}
