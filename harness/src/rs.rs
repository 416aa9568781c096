//! Control over the keys of std's hash maps, so that iteration orders are part of the exploration
//! instead of chance. std keeps per-thread keys from which every new map takes its own; they are
//! found in the thread's TLS block and rewritten. A self-test decides whether that works.

use std::collections::hash_map::RandomState;

fn keys(r: &RandomState) -> Option<(u64, u64)> {
    if std::mem::size_of::<RandomState>() != 16 {
        return None;
    }
    unsafe { Some(std::ptr::read(r as *const RandomState as *const (u64, u64))) }
}

/// Bounds of this executable's TLS block of the calling thread.
fn tls() -> Option<(usize, usize)> {
    unsafe extern "C" fn cb(info: *mut libc::dl_phdr_info, _: usize, out: *mut libc::c_void) -> libc::c_int {
        let i = &*info;
        for k in 0..i.dlpi_phnum as usize {
            let p = &*i.dlpi_phdr.add(k);
            if p.p_type == libc::PT_TLS {
                *(out as *mut (usize, usize)) = (p.p_memsz as usize, p.p_align.max(1) as usize);
            }
        }
        1 // the executable comes first
    }
    let mut m = (0usize, 1usize);
    unsafe { libc::dl_iterate_phdr(Some(cb), &mut m as *mut _ as *mut libc::c_void) };
    if m.0 == 0 {
        return None;
    }
    #[cfg(target_arch = "x86_64")]
    {
        let fs: usize;
        unsafe { std::arch::asm!("mov {}, fs:0", out(reg) fs) };
        let size = m.0.div_ceil(m.1) * m.1;
        Some((fs - size, fs))
    }
    #[cfg(not(target_arch = "x86_64"))]
    None
}

fn find() -> Option<*mut (u64, u64)> {
    let (lo, hi) = tls()?;
    let k = keys(&RandomState::new())?;
    let mut hit = None;
    let mut a = (lo + 7) & !7;
    while a + 16 <= hi {
        let p = a as *mut (u64, u64);
        if unsafe { std::ptr::read(p) } == (k.0.wrapping_add(1), k.1) {
            if hit.is_some() {
                return None;
            }
            hit = Some(p);
        }
        a += 8;
    }
    let p = hit?;
    unsafe { *p = (77, 99) };
    let ok = keys(&RandomState::new()) == Some((77, 99)) && keys(&RandomState::new()) == Some((78, 99));
    ok.then_some(p)
}

struct P(Option<*mut (u64, u64)>);
unsafe impl Send for P {}
unsafe impl Sync for P {}

/// Make the following maps of this (the exploring) thread take keys from `seed`.
pub fn seed(seed: u64) -> bool {
    use std::sync::OnceLock;
    static CELL: OnceLock<P> = OnceLock::new();
    match CELL.get_or_init(|| P(find())).0 {
        Some(p) => {
            unsafe { *p = (seed.wrapping_mul(0x9E3779B97F4A7C15), 0x0123_4567_89AB_CDEF ^ seed) };
            true
        }
        None => false,
    }
}
