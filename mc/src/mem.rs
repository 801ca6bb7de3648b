//! Guarded memory: every plane lives in its own slot between two inaccessible pages and is placed
//! flush against one of them, so that a read or write of even one byte outside faults.  The rest
//! of the slot is filled with a known pattern and compared afterwards, which catches stray writes
//! on the other side.
use crate::explore::CURRENT;
use std::sync::atomic::Ordering::*;

#[cfg(not(miri))]
pub const PAGE: usize = 4096;

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Flush {
    Left,
    Right,
}

#[cfg(not(miri))]
struct Slot {
    base: *mut u8,
    cap: usize,
    used: bool,
}

#[cfg(not(miri))]
pub struct Arena {
    slots: Vec<Slot>,
}
unsafe impl Send for Arena {}
/// Under Miri every plane is an allocation of its own, whose bounds the interpreter checks.
#[cfg(miri)]
pub struct Arena {
    live: Vec<(*mut u8, std::alloc::Layout)>,
}

#[derive(Clone, Copy, Debug)]
pub struct Buf {
    pub base: *mut u8,
    pub cap: usize,
    pub ptr: *mut u8,
    pub len: usize,
    pub fill: u8,
}
unsafe impl Send for Buf {}
unsafe impl Sync for Buf {}

#[cfg(miri)]
impl Arena {
    pub fn new(worker: usize) -> Self {
        CURRENT[worker].arena_lo.store(0, SeqCst);
        Self { live: vec![] }
    }
    pub fn reset(&mut self) {
        for (p, l) in self.live.drain(..) {
            unsafe { std::alloc::dealloc(p, l) };
        }
    }
    /// The same alignment as in guarded memory.
    pub fn take(&mut self, len: usize, flush: Flush, mis: usize, fill: u8) -> Buf {
        let cap = match flush {
            Flush::Left => (mis + len).max(1),
            Flush::Right => (mis + len).max(1).next_multiple_of(64),
        };
        let l = std::alloc::Layout::from_size_align(cap, 64).unwrap();
        let base = unsafe { std::alloc::alloc(l) };
        self.live.push((base, l));
        unsafe { std::ptr::write_bytes(base, fill, cap) };
        let ptr = match flush {
            Flush::Left => unsafe { base.add(mis) },
            Flush::Right => unsafe { base.add(cap - mis - len) },
        };
        Buf { base, cap, ptr, len, fill }
    }
}
#[cfg(not(miri))]
impl Arena {
    pub fn new(worker: usize) -> Self {
        // 28 small (8 KiB), 14 medium (64 KiB), 8 large (1 MiB), 8 huge (3 MiB), 8 of 9 MiB and 4 of 18 MiB slots
        let mut sizes = vec![];
        sizes.extend([2 * PAGE; 28]);
        sizes.extend([16 * PAGE; 14]);
        sizes.extend([256 * PAGE; 8]);
        sizes.extend([768 * PAGE; 8]);
        sizes.extend([2304 * PAGE; 8]);
        sizes.extend([4608 * PAGE; 4]);
        let total: usize = sizes.iter().map(|s| s + PAGE).sum::<usize>() + PAGE;
        let lo = unsafe {
            libc::mmap(
                std::ptr::null_mut(),
                total,
                libc::PROT_NONE,
                libc::MAP_PRIVATE | libc::MAP_ANONYMOUS | libc::MAP_NORESERVE,
                -1,
                0,
            )
        } as *mut u8;
        assert!(lo as isize != -1, "ENGINE: mmap failed");
        let mut slots = vec![];
        let mut off = PAGE;
        for s in sizes {
            let base = unsafe { lo.add(off) };
            let r = unsafe { libc::mprotect(base.cast(), s, libc::PROT_READ | libc::PROT_WRITE) };
            assert!(r == 0, "ENGINE: mprotect failed");
            slots.push(Slot { base, cap: s, used: false });
            off += s + PAGE;
        }
        CURRENT[worker].arena_lo.store(lo as usize, SeqCst);
        CURRENT[worker].arena_hi.store(lo as usize + total, SeqCst);
        Self { slots }
    }
    pub fn reset(&mut self) {
        for s in &mut self.slots {
            s.used = false;
        }
    }
    /// `mis`: distance in bytes between the buffer and the guard page it is flushed to.
    pub fn take(&mut self, len: usize, flush: Flush, mis: usize, fill: u8) -> Buf {
        let s = self
            .slots
            .iter_mut()
            .find(|s| !s.used && s.cap >= len + mis)
            .unwrap_or_else(|| panic!("ENGINE: no guarded slot for {len} bytes"));
        s.used = true;
        unsafe { std::ptr::write_bytes(s.base, fill, s.cap) };
        let ptr = match flush {
            Flush::Left => unsafe { s.base.add(mis) },
            Flush::Right => unsafe { s.base.add(s.cap - mis - len) },
        };
        Buf { base: s.base, cap: s.cap, ptr, len, fill }
    }
}

impl Buf {
    pub fn slice(&self) -> &'static [u8] {
        unsafe { std::slice::from_raw_parts(self.ptr, self.len) }
    }
    #[allow(clippy::mut_from_ref)]
    pub fn slice_mut(&self) -> &'static mut [u8] {
        unsafe { std::slice::from_raw_parts_mut(self.ptr, self.len) }
    }
    /// Offset (relative to the buffer, may be negative) of a byte in the slot outside the buffer
    /// that is no longer the fill pattern.
    pub fn stray(&self) -> Option<isize> {
        unsafe {
            let head = self.ptr.offset_from(self.base) as usize;
            let h = std::slice::from_raw_parts(self.base, head);
            if let Some(i) = not_all(h, self.fill) {
                return Some(i as isize - head as isize);
            }
            let t = std::slice::from_raw_parts(self.ptr.add(self.len), self.cap - head - self.len);
            not_all(t, self.fill).map(|i| (self.len + i) as isize)
        }
    }
}

pub fn not_all(b: &[u8], v: u8) -> Option<usize> {
    let pat = u64::from_ne_bytes([v; 8]);
    let (a, m, z) = unsafe { b.align_to::<u64>() };
    if a.iter().all(|x| *x == v) && m.iter().all(|x| *x == pat) && z.iter().all(|x| *x == v) {
        None
    } else {
        b.iter().position(|x| *x != v)
    }
}
