//! Self-describing values: each carries its identity in its bytes, so that a value that was torn,
//! duplicated, dropped or never written is recognised by whoever looks at it.
use crate::alloc::quiet;
use std::cell::RefCell;

pub struct Log {
    pub drops: Vec<i64>,
    pub clones: Vec<(i64, i64)>,
    /// panic in the n-th destructor from now (0: never)
    pub dtor: u32,
    /// panic in the n-th clone from now
    pub clone: u32,
    pub next: i64,
    /// how often one of the harness's own emplacables was asked for its value
    pub asked: i64,
}

thread_local! {
    pub static LOG: RefCell<Log> = const { RefCell::new(Log { drops: Vec::new(), clones: Vec::new(), dtor: 0, clone: 0, next: 1, asked: 0 }) };
}

pub fn with<R>(f: impl FnOnce(&mut Log) -> R) -> R {
    quiet(|| LOG.with(|l| f(&mut l.borrow_mut())))
}

pub struct Boom;
pub fn boom() -> ! {
    std::panic::panic_any(Boom)
}

pub fn fresh() -> i64 {
    with(|l| {
        loop {
            let i = l.next;
            l.next += 1;
            // avoid the poison bytes and zero, which one-byte values could not tell from garbage
            if ![0, 0xA5, 0xDE, 0xDD, 0xC3].contains(&(i & 255)) {
                return i;
            }
        }
    })
}

fn dropped(id: i64) {
    let b = with(|l| {
        l.drops.push(id);
        if l.dtor > 0 {
            l.dtor -= 1;
            l.dtor == 0
        } else {
            false
        }
    });
    if b && !std::thread::panicking() {
        boom()
    }
}

fn cloning(from: i64, one: bool) -> i64 {
    let b = with(|l| {
        if l.clone > 0 {
            l.clone -= 1;
            l.clone == 0
        } else {
            false
        }
    });
    if b {
        boom()
    }
    // one byte holds no more
    let to = if one { fresh() & 255 } else { fresh() };
    with(|l| l.clones.push((from, to)));
    to
}

pub trait Al: Copy + 'static {}
macro_rules! al {
    ($($n:ident $a:literal),*) => {$(
        #[derive(Clone, Copy)]
        #[repr(align($a))]
        pub struct $n;
        impl Al for $n {}
    )*};
}
al!(A1 1, A2 2, A4 4, A8 8, A16 16, A32 32, A64 64, A128 128);

/// A value of S bytes (S > 0, a multiple of A's alignment).
pub struct Tr<const S: usize, A: Al> {
    _a: [A; 0],
    b: [u8; S],
}

impl<const S: usize, A: Al> Tr<S, A> {
    pub fn new(id: i64) -> Self {
        let mut b = [0u8; S];
        for (k, x) in b.iter_mut().enumerate() {
            *x = match k {
                0 => id as u8,
                1 => (id >> 8) as u8 ^ 0x5A,
                _ => (id.wrapping_mul(31) as u8).wrapping_add((k * 7) as u8) ^ 0x11,
            }
        }
        Tr { _a: [], b }
    }
    pub fn fresh() -> (Self, i64) {
        let mut id = fresh();
        if S == 1 {
            id &= 255
        }
        (Self::new(id), id)
    }
    pub fn id(&self) -> i64 {
        let id = if S == 1 { self.b[0] as i64 } else { self.b[0] as i64 | ((self.b[1] ^ 0x5A) as i64) << 8 };
        let ok = if S == 1 { ![0, 0xA5, 0xDE, 0xDD, 0xC3].contains(&self.b[0]) } else { id < 0x4000 };
        if !ok {
            return -1;
        }
        for (k, x) in self.b.iter().enumerate().skip(2) {
            if *x != (id.wrapping_mul(31) as u8).wrapping_add((k * 7) as u8) ^ 0x11 {
                return -1;
            }
        }
        id
    }
}

impl<const S: usize, A: Al> Drop for Tr<S, A> {
    fn drop(&mut self) {
        let id = self.id();
        // SAFETY: plain bytes
        for x in self.b.iter_mut() {
            unsafe { std::ptr::write_volatile(x, 0xDD) }
        }
        dropped(id)
    }
}

impl<const S: usize, A: Al> Clone for Tr<S, A> {
    fn clone(&self) -> Self {
        Tr::new(cloning(self.id(), S == 1))
    }
}

/// A zero-sized value: all of them with the same alignment share one identity.
pub struct Zs<A: Al> {
    _a: [A; 0],
}

pub const Z: i64 = 100000;

impl<A: Al> Zs<A> {
    pub fn new() -> Self {
        Zs { _a: [] }
    }
    pub fn ident() -> i64 {
        Z + std::mem::align_of::<A>() as i64
    }
    pub fn id(&self) -> i64 {
        Self::ident()
    }
}
impl<A: Al> Drop for Zs<A> {
    fn drop(&mut self) {
        dropped(Self::ident())
    }
}
impl<A: Al> Clone for Zs<A> {
    fn clone(&self) -> Self {
        let b = with(|l| {
            l.clones.push((Self::ident(), Self::ident()));
            if l.clone > 0 {
                l.clone -= 1;
                l.clone == 0
            } else {
                false
            }
        });
        if b {
            with(|l| l.clones.pop());
            boom()
        }
        Self::new()
    }
}

/// Common interface of the sized values.
pub trait Val: Sized + 'static {
    fn mk() -> (Self, i64);
    fn ident(&self) -> i64;
}
impl<const S: usize, A: Al> Val for Tr<S, A> {
    fn mk() -> (Self, i64) {
        Self::fresh()
    }
    fn ident(&self) -> i64 {
        self.id()
    }
}
impl<A: Al> Val for Zs<A> {
    fn mk() -> (Self, i64) {
        (Self::new(), Self::ident())
    }
    fn ident(&self) -> i64 {
        self.id()
    }
}

pub trait Obj {
    fn comps(&self) -> Vec<i64>;
    fn replace(&mut self) -> Vec<i64>;
}
impl<V: Val> Obj for V {
    fn comps(&self) -> Vec<i64> {
        vec![self.ident()]
    }
    fn replace(&mut self) -> Vec<i64> {
        let (v, id) = quiet(V::mk);
        *self = v;
        quiet(|| vec![id])
    }
}
