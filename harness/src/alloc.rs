//! Checking global allocator.
//!
//! Blocks obtained while tracking is on come from an arena that is never reused within an
//! episode: every block has red zones around it, is filled with 0xA5 when handed out and with
//! 0xDE when released, and resizing always moves.  Every request is recorded, and every release is
//! recorded with the layout the caller gave, so that the specification can judge it.
use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::UnsafeCell;

#[derive(Clone, Copy, PartialEq)]
pub enum Cat {
    Off,
    /// Made by the harness as an argument
    Arg,
    /// Made by the library during an operation
    Lib,
}

#[derive(Clone, Copy)]
pub struct Block {
    pub addr: usize,
    pub size: usize,
    pub align: usize,
    pub live: bool,
    pub lib: bool,
}

#[derive(Clone, Copy)]
pub struct Ev {
    pub t: u8,
    pub i: i64,
    pub s: usize,
    pub a: usize,
    pub j: i64,
    pub z: usize,
    pub lib: bool,
}

const ARENA: usize = 1 << 31;
const RED: usize = 32;
pub const LIMIT: usize = 1 << 24;
const MAXB: usize = 1 << 16;
const MAXE: usize = 1 << 16;

pub struct St {
    base: usize,
    top: usize,
    cat: Cat,
    pub blocks: Vec<Block>,
    pub evs: Vec<Ev>,
    /// countdown to failure: Some(k): the k-th request (1-based) from now fails; sticky: all after it
    fail: u64,
    sticky: bool,
    busy: bool,
    /// what the allocation-error handler was last called with
    pub oom: Option<Layout>,
}

pub struct CA(UnsafeCell<Option<St>>);
unsafe impl Sync for CA {}

#[global_allocator]
pub static A: CA = CA(UnsafeCell::new(None));

impl CA {
    #[allow(clippy::mut_from_ref)]
    fn st(&self) -> Option<&mut St> {
        unsafe { (*self.0.get()).as_mut() }
    }
}

pub fn st() -> &'static mut St {
    A.st().unwrap()
}

pub fn init() {
    unsafe extern "C" {
        fn mmap(a: *mut u8, l: usize, p: i32, f: i32, fd: i32, o: i64) -> *mut u8;
    }
    // PROT_READ|PROT_WRITE, MAP_PRIVATE|MAP_ANONYMOUS|MAP_NORESERVE|MAP_FIXED_NOREPLACE
    let p = unsafe { mmap(0x6000_0000_0000 as *mut u8, ARENA, 3, 0x2 | 0x20 | 0x4000 | 0x100000, -1, 0) };
    assert!(p as isize != -1);
    let s = St {
        base: p as usize,
        top: p as usize + 4096,
        cat: Cat::Off,
        blocks: Vec::with_capacity(MAXB),
        evs: Vec::with_capacity(MAXE),
        fail: 0,
        sticky: false,
        busy: false,
        oom: None,
    };
    unsafe { *A.0.get() = Some(s) };
}

impl St {
    pub fn find(&self, p: usize) -> Option<usize> {
        let i = self.blocks.partition_point(|b| b.addr <= p);
        if i == 0 {
            return None;
        }
        let mut k = i - 1;
        // zero-size requests share the address order; take the last block starting at or before p
        loop {
            let b = &self.blocks[k];
            if p == b.addr || p < b.addr + b.size {
                return Some(k);
            }
            if k == 0 || self.blocks[k - 1].addr < b.addr {
                return None;
            }
            k -= 1;
        }
    }
    fn ours(&self, p: usize) -> bool {
        p >= self.base && p < self.base + ARENA
    }
    fn ev(&mut self, e: Ev) {
        if self.evs.len() < MAXE {
            self.evs.push(e)
        }
    }
    fn fails(&mut self) -> bool {
        if self.fail == 0 {
            return false;
        }
        if self.fail == 1 {
            if !self.sticky {
                self.fail = 0
            }
            return true;
        }
        self.fail -= 1;
        false
    }
    fn carve(&mut self, l: Layout, lib: bool) -> Option<usize> {
        let al = l.align();
        let mut a = (self.top + RED + al - 1) / al * al;
        // exactly aligned: never aligned to more than was asked for
        if (a / al) % 2 == 0 {
            a += al;
        }
        let end = a + l.size() + RED;
        if end > self.base + ARENA || self.blocks.len() >= MAXB {
            return None;
        }
        unsafe {
            std::ptr::write_bytes((a - RED) as *mut u8, 0xC3, RED);
            std::ptr::write_bytes(a as *mut u8, 0xA5, l.size());
            std::ptr::write_bytes((a + l.size()) as *mut u8, 0xC3, RED);
        }
        self.top = end;
        self.blocks.push(Block { addr: a, size: l.size(), align: al, live: true, lib });
        Some(a)
    }
    fn redzone_ok(&self, b: &Block) -> bool {
        unsafe {
            let lo = std::slice::from_raw_parts((b.addr - RED) as *const u8, RED);
            let hi = std::slice::from_raw_parts((b.addr + b.size) as *const u8, RED);
            lo.iter().chain(hi).all(|&x| x == 0xC3)
                && (b.live || std::slice::from_raw_parts(b.addr as *const u8, b.size).iter().all(|&x| x == 0xDE))
        }
    }
    /// No byte outside the live blocks was written.
    pub fn intact(&self) -> bool {
        self.blocks.iter().all(|b| self.redzone_ok(b))
    }
    pub fn reset(&mut self) {
        self.blocks.clear();
        self.evs.clear();
        self.top = self.base + 4096;
        self.fail = 0;
    }
    fn do_alloc(&mut self, l: Layout) -> *mut u8 {
        let lib = self.cat == Cat::Lib;
        if lib && self.fails() || l.size() > LIMIT {
            self.ev(Ev { t: b'F', i: 0, s: l.size(), a: l.align(), j: 0, z: 0, lib });
            return std::ptr::null_mut();
        }
        if l.size() == 0 {
            self.ev(Ev { t: b'Z', i: 0, s: 0, a: l.align(), j: 0, z: 0, lib });
        }
        match self.carve(l, lib) {
            None => {
                self.ev(Ev { t: b'F', i: 0, s: l.size(), a: l.align(), j: 0, z: 0, lib });
                std::ptr::null_mut()
            }
            Some(a) => {
                let i = self.blocks.len() as i64;
                self.ev(Ev { t: b'A', i, s: l.size(), a: l.align(), j: 0, z: 0, lib });
                a as *mut u8
            }
        }
    }
    fn do_free(&mut self, p: usize, l: Layout) {
        let k = self.find(p).filter(|&k| self.blocks[k].addr == p);
        match k {
            Some(k) if self.blocks[k].live => {
                let b = self.blocks[k];
                self.ev(Ev { t: b'D', i: k as i64 + 1, s: l.size(), a: l.align(), j: 0, z: 0, lib: b.lib });
                self.blocks[k].live = false;
                unsafe { std::ptr::write_bytes(b.addr as *mut u8, 0xDE, b.size) };
            }
            k => {
                let lib = k.map_or(true, |k| self.blocks[k].lib);
                self.ev(Ev { t: b'X', i: k.map_or(0, |k| k as i64 + 1), s: l.size(), a: l.align(), j: 0, z: 0, lib })
            }
        }
    }
    fn do_realloc(&mut self, p: usize, l: Layout, n: usize) -> *mut u8 {
        let k = self.find(p).filter(|&k| self.blocks[k].addr == p && self.blocks[k].live);
        let Some(k) = k else {
            self.ev(Ev { t: b'X', i: 0, s: l.size(), a: l.align(), j: 0, z: n, lib: true });
            return std::ptr::null_mut();
        };
        let old = self.blocks[k];
        let lib = self.cat == Cat::Lib;
        if lib && self.fails() || n > LIMIT {
            self.ev(Ev { t: b'F', i: 0, s: n, a: l.align(), j: 0, z: 0, lib });
            return std::ptr::null_mut();
        }
        if n == 0 {
            self.ev(Ev { t: b'Z', i: 0, s: 0, a: l.align(), j: 0, z: 0, lib });
        }
        let nl = unsafe { Layout::from_size_align_unchecked(n, l.align()) };
        let Some(a) = self.carve(nl, old.lib || lib) else {
            self.ev(Ev { t: b'F', i: 0, s: n, a: l.align(), j: 0, z: 0, lib });
            return std::ptr::null_mut();
        };
        unsafe { std::ptr::copy_nonoverlapping(old.addr as *const u8, a as *mut u8, old.size.min(n)) };
        let j = self.blocks.len() as i64;
        self.ev(Ev { t: b'R', i: k as i64 + 1, s: l.size(), a: l.align(), j, z: n, lib: old.lib || lib });
        self.blocks[k].live = false;
        unsafe { std::ptr::write_bytes(old.addr as *mut u8, 0xDE, old.size) };
        a as *mut u8
    }
}

unsafe impl GlobalAlloc for CA {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        if let Some(s) = self.st() {
            if s.cat != Cat::Off && !s.busy && !std::thread::panicking() {
                s.busy = true;
                let r = s.do_alloc(l);
                s.busy = false;
                return r;
            }
        }
        unsafe { System.alloc(l) }
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        let p = unsafe { self.alloc(l) };
        if !p.is_null() {
            unsafe { std::ptr::write_bytes(p, 0, l.size()) }
        }
        p
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        if let Some(s) = self.st() {
            if s.ours(p as usize) {
                return s.do_free(p as usize, l);
            }
            if (p as usize) < 65536 {
                // a dangling pointer: nothing to hand to the system
                s.ev(Ev { t: b'X', i: 0, s: l.size(), a: l.align(), j: 0, z: 0, lib: true });
                return;
            }
        }
        unsafe { System.dealloc(p, l) }
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        if let Some(s) = self.st() {
            if s.ours(p as usize) || (p as usize) < 65536 {
                return s.do_realloc(p as usize, l, n);
            }
        }
        unsafe { System.realloc(p, l, n) }
    }
}

/// Runs `f` with tracking in the given category, restoring the previous one afterwards
/// (also when `f` unwinds).
pub fn track<R>(c: Cat, f: impl FnOnce() -> R) -> R {
    struct G(Cat);
    impl Drop for G {
        fn drop(&mut self) {
            st().cat = self.0;
        }
    }
    let g = G(st().cat);
    st().cat = c;
    let r = f();
    drop(g);
    r
}

/// Runs `f` with tracking off: for the harness's own bookkeeping inside callbacks.
pub fn quiet<R>(f: impl FnOnce() -> R) -> R {
    track(Cat::Off, f)
}

pub fn arm(k: u64, sticky: bool) {
    let s = st();
    s.fail = k;
    s.sticky = sticky;
}
pub fn disarm() {
    st().fail = 0;
}
