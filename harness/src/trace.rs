//! What a worker process is doing right now, in a shared file, so that a crash can be attributed.

use crate::exec::Op;

const SIZE: usize = 1 << 16;

pub struct Trace {
    p: *mut u8,
}

impl Trace {
    pub fn open(path: &str) -> std::io::Result<Trace> {
        use std::os::fd::AsRawFd;
        let f = std::fs::OpenOptions::new().read(true).write(true).create(true).truncate(false).open(path)?;
        f.set_len(SIZE as u64)?;
        let p = unsafe { libc::mmap(std::ptr::null_mut(), SIZE, libc::PROT_READ | libc::PROT_WRITE, libc::MAP_SHARED, f.as_raw_fd(), 0) };
        if p == libc::MAP_FAILED {
            return Err(std::io::Error::last_os_error());
        }
        Ok(Trace { p: p as *mut u8 })
    }
    pub fn scratch() -> Trace {
        Trace { p: Box::leak(vec![0u8; SIZE].into_boxed_slice()).as_mut_ptr() }
    }
    /// A heartbeat.
    pub fn beat(&mut self) {
        unsafe {
            let h = self.p as *mut u64;
            h.write_volatile(h.read_volatile().wrapping_add(1));
        }
    }
    pub fn start(&mut self, ops: &[Op]) {
        self.beat();
        unsafe {
            let n = (ops.len() * 4).min(SIZE - 64);
            (self.p.add(8) as *mut u32).write_volatile(n as u32);
            (self.p.add(12) as *mut u32).write_volatile(0);
            std::ptr::copy_nonoverlapping(ops.as_ptr() as *const u8, self.p.add(16), n);
        }
    }
    pub fn start_bytes(&mut self, b: &[u8]) {
        self.beat();
        unsafe {
            let n = b.len().min(SIZE - 64);
            (self.p.add(8) as *mut u32).write_volatile(n as u32);
            (self.p.add(12) as *mut u32).write_volatile(0);
            std::ptr::copy_nonoverlapping(b.as_ptr(), self.p.add(16), n);
        }
    }
    pub fn push_byte(&mut self, b: u8) {
        unsafe {
            let n = (self.p.add(8) as *mut u32).read_volatile();
            if (n as usize) < SIZE - 64 {
                self.p.add(16 + n as usize).write_volatile(b);
                (self.p.add(8) as *mut u32).write_volatile(n + 1);
            }
        }
    }
    /// The history is done, its final state is being observed.
    pub fn looking(&mut self) {
        self.beat();
        unsafe { (self.p.add(12) as *mut u32).write_volatile(1) }
    }
    pub fn read(&self) -> (u64, Vec<u8>, bool) {
        unsafe {
            let h = (self.p as *mut u64).read_volatile();
            let n = (self.p.add(8) as *mut u32).read_volatile() as usize;
            let l = (self.p.add(12) as *mut u32).read_volatile() == 1;
            (h, std::slice::from_raw_parts(self.p.add(16), n.min(SIZE - 64)).to_vec(), l)
        }
    }
}
