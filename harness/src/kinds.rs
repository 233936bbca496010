//! The element types the worlds are run with.
use crate::alloc::{Cat, quiet, track};
use crate::val::*;
use emplacable::{Emplacable, EmplacableFn, Emplacer};
use std::ffi::{CStr, CString, OsStr, OsString};
use std::marker::PhantomData;
use unsized_vec::{UnsizedIter, UnsizedVec, unsize_vec};

#[derive(Clone, Debug, Default)]
pub struct Desc {
    pub c: Vec<i64>,
    pub s: usize,
    pub a: usize,
    /// the address was a multiple of the alignment
    pub ok: bool,
}

pub fn desc<T: ?Sized>(t: &T, comps: fn(&T) -> Vec<i64>) -> Desc {
    let a = align_of_val(t);
    Desc { c: comps(t), s: size_of_val(t), a, ok: (t as *const T as *const u8 as usize) % a == 0 }
}

/// What an operation was given and what came out of it; survives unwinding.
#[derive(Default)]
pub struct Cx {
    pub x: Vec<Desc>,
    pub out: Vec<Desc>,
    /// source values the harness still owns (dropped after the event is recorded)
    pub keep: Vec<Box<dyn std::any::Any>>,
    /// the ids in x come from the clones made
    pub from_clones: bool,
    pub f: String,
    pub fk: u64,
    pub cl: Vec<(i64, i64)>,
}

impl Cx {
    pub fn give(&mut self, c: Vec<i64>, s: usize, a: usize) {
        quiet(|| self.x.push(Desc { c, s, a, ok: true }))
    }
}

pub fn put<T: ?Sized, F: EmplacableFn<T>>(v: &mut UnsizedVec<T>, i: Option<usize>, e: Emplacable<T, F>) {
    match i {
        None => v.push_with(e),
        Some(i) => v.insert_with(i, e),
    }
}

/// An emplacable of the harness's own, which can unwind at the chosen point.
pub fn custom<T: ?Sized>(b: Box<T>, f: String) -> Emplacable<T, impl EmplacableFn<T>> {
    struct Forget<T: ?Sized>(Option<Box<T>>);
    impl<T: ?Sized> Drop for Forget<T> {
        fn drop(&mut self) {
            // the emplacer did not want the value
            if let Some(b) = self.0.take() {
                if std::thread::panicking() {
                    drop(b)
                } else {
                    free_box(b)
                }
            }
        }
    }
    // SAFETY: follows the protocol
    unsafe {
        Emplacable::from_fn(move |em: &mut Emplacer<'_, T>| {
            if f == "p0" && !std::thread::panicking() {
                boom()
            }
            let layout = std::alloc::Layout::for_value(&*b);
            let meta = std::ptr::metadata(&*b);
            let mut h = Forget(Some(b));
            let efn = em.into_fn();
            efn(layout, meta, &mut |p: *mut PhantomData<T>| {
                with(|l| l.asked += 1);
                if f == "p1" && !std::thread::panicking() {
                    boom()
                }
                let b = h.0.take().expect("inner closure called twice");
                if p.is_null() {
                    drop(b);
                } else {
                    let src = &*b as *const T as *const u8;
                    if f == "p2" && !std::thread::panicking() {
                        std::ptr::copy_nonoverlapping(src, p.cast(), layout.size() / 2);
                        h.0 = Some(b);
                        boom()
                    }
                    std::ptr::copy_nonoverlapping(src, p.cast(), layout.size());
                    free_box(b);
                }
            });
            drop(h);
            if f == "p3" && !std::thread::panicking() {
                boom()
            }
        })
    }
}

/// Releases a box without dropping its contents.
pub fn free_box<T: ?Sized>(b: Box<T>) {
    let l = std::alloc::Layout::for_value(&*b);
    let p = Box::into_raw(b) as *mut u8;
    if l.size() > 0 {
        unsafe { std::alloc::dealloc(p, l) }
    }
}

pub trait Kind: 'static {
    type T: ?Sized + 'static;
    const PROV: &'static str;
    /// values have an identity whose destruction is observed
    const TRACK: bool = true;
    fn make(sh: usize, n: usize) -> Box<Self::T>;
    fn comps(t: &Self::T) -> Vec<i64>;
    /// Replaces the value in place; new contents.
    fn replace(t: &mut Self::T) -> Vec<i64>;
    /// Adds by coercion or through a kind-specific emplacable. False: not supported.
    fn add(v: &mut UnsizedVec<Self::T>, i: Option<usize>, src: &str, sh: usize, n: usize, cx: &mut Cx) -> bool;
    /// Kind-specific receivers.  Gives the emplacable back when it has none of that name.
    fn recv<F: EmplacableFn<Self::T>>(e: Emplacable<Self::T, F>, _s: &str, _cx: &mut Cx) -> Result<(), Emplacable<Self::T, F>> {
        Err(e)
    }
    fn clone_from(_to: &mut UnsizedVec<Self::T>, _v: &UnsizedVec<Self::T>) -> bool {
        false
    }
    fn clone(_v: &UnsizedVec<Self::T>) -> Option<UnsizedVec<Self::T>> {
        None
    }
    /// A vec made from a std Vec (or a vec of sized values, by unsizing).
    fn from_sized(_n: usize, _cap: usize, _sh: usize, _cx: &mut Cx) -> Option<UnsizedVec<Self::T>> {
        None
    }
    /// To a std Vec and back.
    fn round_trip(v: UnsizedVec<Self::T>, _cx: &mut Cx) -> UnsizedVec<Self::T> {
        v
    }
    fn default() -> Option<UnsizedVec<Self::T>> {
        None
    }
    /// A vec made by `unsize_vec!`.
    fn mac(_n: usize, _sh: usize, _nc: usize, _cx: &mut Cx) -> Option<UnsizedVec<Self::T>> {
        None
    }
    /// The same iterator, by way of a slice's.
    fn via_slice(_it: UnsizedIter<'_, Self::T>) -> Option<UnsizedIter<'_, Self::T>> {
        None
    }
}

fn outbox<T: ?Sized>(t: &T, comps: fn(&T) -> Vec<i64>, cx: &mut Cx) {
    quiet(|| cx.out.push(desc(t, comps)));
}

// ---------------------------------------------------------------- sized

pub struct Sized1<V>(PhantomData<V>);
impl<V: Val + Clone> Kind for Sized1<V> {
    type T = V;
    const PROV: &'static str = "s";
    fn make(_: usize, _: usize) -> Box<V> {
        let (v, _) = quiet(V::mk);
        Box::new(v)
    }
    fn comps(t: &V) -> Vec<i64> {
        vec![t.ident()]
    }
    fn replace(t: &mut V) -> Vec<i64> {
        let (v, id) = quiet(V::mk);
        *t = v;
        quiet(|| vec![id])
    }
    fn add(v: &mut UnsizedVec<V>, i: Option<usize>, src: &str, _: usize, _: usize, cx: &mut Cx) -> bool {
        match src {
            "emp" => {
                let (val, id) = quiet(V::mk);
                cx.give(quiet(|| vec![id]), size_of::<V>(), align_of::<V>());
                put(v, i, Emplacable::from(val));
                true
            }
            _ => false,
        }
    }
    fn recv<F: EmplacableFn<V>>(e: Emplacable<V, F>, s: &str, cx: &mut Cx) -> Result<(), Emplacable<V, F>> {
        match s {
            "get" => {
                let v = e.get();
                outbox(&v, Self::comps, cx);
                drop(v);
                Ok(())
            }
            "ext" => {
                let mut v: Vec<V> = Vec::new();
                v.extend(Some(e));
                outbox(&v[0], Self::comps, cx);
                drop(v);
                Ok(())
            }
            _ => Err(e),
        }
    }
    fn clone_from(to: &mut UnsizedVec<V>, v: &UnsizedVec<V>) -> bool {
        Clone::clone_from(to, v);
        true
    }
    fn clone(v: &UnsizedVec<V>) -> Option<UnsizedVec<V>> {
        Some(v.clone())
    }
    fn from_sized(n: usize, cap: usize, _: usize, cx: &mut Cx) -> Option<UnsizedVec<V>> {
        let mut v: Vec<V> = Vec::with_capacity(cap);
        for _ in 0..n {
            let (x, id) = quiet(V::mk);
            cx.give(quiet(|| vec![id]), size_of::<V>(), align_of::<V>());
            v.push(x);
        }
        Some(v.into())
    }
    fn round_trip(v: UnsizedVec<V>, cx: &mut Cx) -> UnsizedVec<V> {
        let v: Vec<V> = v.into();
        for x in &v {
            outbox(x, Self::comps, cx)
        }
        UnsizedVec::from(v)
    }
    fn default() -> Option<UnsizedVec<V>> {
        Some(Default::default())
    }
    fn via_slice(it: UnsizedIter<'_, V>) -> Option<UnsizedIter<'_, V>> {
        let s: std::slice::Iter<'_, V> = it.into();
        Some(UnsizedIter::from(s))
    }
}

// ---------------------------------------------------------------- slices

pub struct Slice<V>(PhantomData<V>);

macro_rules! with_n {
    ($n:expr, $N:ident, $e:expr) => {
        match $n {
            0 => { const $N: usize = 0; $e }
            1 => { const $N: usize = 1; $e }
            2 => { const $N: usize = 2; $e }
            3 => { const $N: usize = 3; $e }
            4 => { const $N: usize = 4; $e }
            5 => { const $N: usize = 5; $e }
            _ => { const $N: usize = 7; $e }
        }
    };
}
pub fn clamp_n(n: usize) -> usize {
    if n > 5 { 7 } else { n }
}

pub fn mkarr<V: Val, const N: usize>() -> ([V; N], Vec<i64>) {
    quiet(|| {
        let mut ids = Vec::new();
        let a = std::array::from_fn(|_| {
            let (v, id) = V::mk();
            ids.push(id);
            v
        });
        (a, ids)
    })
}

impl<V: Val + Clone> Kind for Slice<V> {
    type T = [V];
    const PROV: &'static str = "a";
    fn make(_: usize, n: usize) -> Box<[V]> {
        let mut v: Vec<V> = Vec::with_capacity(n);
        for _ in 0..n {
            v.push(quiet(V::mk).0)
        }
        v.into_boxed_slice()
    }
    fn comps(t: &[V]) -> Vec<i64> {
        t.iter().map(V::ident).collect()
    }
    fn replace(t: &mut [V]) -> Vec<i64> {
        let mut r = quiet(Vec::new);
        for x in t {
            let (v, id) = quiet(V::mk);
            *x = v;
            quiet(|| r.push(id));
        }
        r
    }
    fn add(v: &mut UnsizedVec<[V]>, i: Option<usize>, src: &str, _: usize, n: usize, cx: &mut Cx) -> bool {
        let (sz, al) = (size_of::<V>(), align_of::<V>());
        let n = if matches!(src, "uns" | "unse" | "arr") { clamp_n(n) } else { n };
        match src {
            "uns" => with_n!(n, N, {
                let (a, ids) = mkarr::<V, N>();
                cx.give(ids, N * sz, al);
                match i {
                    None => v.push_unsize(a),
                    Some(i) => v.insert_unsize(i, a),
                }
            }),
            "unse" => with_n!(n, N, {
                let (a, ids) = mkarr::<V, N>();
                cx.give(ids, N * sz, al);
                let e: Emplacable<[V], _> = Emplacable::<[V; N], _>::from(a).unsize();
                put(v, i, e)
            }),
            "arr" => with_n!(n, N, {
                let (a, ids) = mkarr::<V, N>();
                cx.give(ids, N * sz, al);
                let a: [Emplacable<V, _>; N] = a.map(Emplacable::from);
                let e: Emplacable<[V], _> = a.into();
                put(v, i, e)
            }),
            "vec" => {
                let mut ids = quiet(Vec::new);
                let a = track(Cat::Arg, || {
                    let mut a: Vec<V> = Vec::with_capacity(n + n % 3);
                    for _ in 0..n {
                        let (x, id) = quiet(V::mk);
                        quiet(|| ids.push(id));
                        a.push(x);
                    }
                    a
                });
                cx.give(ids, n * sz, al);
                let e: Emplacable<[V], _> = a.into();
                put(v, i, e)
            }
            "iter" => {
                let mut ids = quiet(Vec::new);
                let mut vals = quiet(Vec::new);
                for _ in 0..n {
                    let (x, id) = quiet(V::mk);
                    quiet(|| {
                        ids.push(id);
                        vals.push(x)
                    });
                }
                cx.give(ids, n * sz, al);
                put(v, i, Emplacable::from_iter(vals.into_iter().map(Emplacable::from)))
            }
            "ref" => {
                let vals: Box<[V]> = quiet(|| Self::make(0, n));
                cx.from_clones = true;
                cx.give(quiet(|| vec![0; n]), n * sz, al);
                let p: *const [V] = &*vals;
                quiet(|| cx.keep.push(Box::new(vals)));
                // SAFETY: kept alive until after the operation
                put(v, i, Emplacable::from(unsafe { &*p }));
            }
            _ => return false,
        }
        true
    }
    fn recv<F: EmplacableFn<[V]>>(e: Emplacable<[V], F>, s: &str, cx: &mut Cx) -> Result<(), Emplacable<[V], F>> {
        match s {
            "vec" => {
                let v: Vec<V> = e.into_vec();
                let l = quiet(|| desc(&*v, Self::comps));
                quiet(|| cx.out.push(l));
                drop(v);
                Ok(())
            }
            _ => Err(e),
        }
    }
    fn from_sized(n: usize, cap: usize, sh: usize, cx: &mut Cx) -> Option<UnsizedVec<[V]>> {
        with_n!(sh, N, {
            let mut v: UnsizedVec<[V; N]> = UnsizedVec::with_capacity(cap);
            for _ in 0..n {
                let (x, ids) = mkarr::<V, N>();
                cx.give(ids, N * size_of::<V>(), align_of::<V>());
                v.push(x);
            }
            Some(v.unsize())
        })
    }
    fn mac(n: usize, sh: usize, nc: usize, cx: &mut Cx) -> Option<UnsizedVec<[V]>> {
        macro_rules! one {
            ($N:expr) => {{
                let (a, ids) = mkarr::<V, { $N }>();
                cx.give(ids, $N * size_of::<V>(), align_of::<V>());
                a
            }};
        }
        Some(with_n!(clamp_n(sh), N, {
            match n {
                0 => unsize_vec![],
                1 => unsize_vec![one!(N)],
                2 => unsize_vec![one!(3), one!(N)],
                3 => unsize_vec![one!(N), one!(1), one!(N),],
                _ if nc % 2 == 0 => unsize_vec![one!(2), one!(N), one!(0), one!(N)],
                _ => unsize_vec![one!(N), one!(2), one!(N), one!(1), one!(5)],
            }
        }))
    }
}

// ---------------------------------------------------------------- trait objects

pub struct Dyn;

macro_rules! with_shape {
    ($sh:expr, $V:ident, $e:expr) => {
        match $sh {
            0 => { type $V = Tr<1, A1>; $e }
            1 => { type $V = Tr<2, A2>; $e }
            2 => { type $V = Tr<3, A1>; $e }
            3 => { type $V = Tr<4, A4>; $e }
            4 => { type $V = Tr<8, A8>; $e }
            5 => { type $V = Tr<16, A8>; $e }
            6 => { type $V = Tr<24, A8>; $e }
            7 => { type $V = Tr<16, A16>; $e }
            8 => { type $V = Tr<32, A32>; $e }
            9 => { type $V = Zs<A1>; $e }
            10 => { type $V = Zs<A8>; $e }
            11 => { type $V = Zs<A32>; $e }
            12 => { type $V = Tr<5, A1>; $e }
            13 => { type $V = Tr<64, A64>; $e }
            14 => { type $V = Tr<40, A8>; $e }
            15 => { type $V = Tr<128, A128>; $e }
            16 => { type $V = Tr<48, A16>; $e }
            17 => { type $V = Tr<6, A2>; $e }
            18 => { type $V = Tr<9, A1>; $e }
            19 => { type $V = Tr<32, A16>; $e }
            20 => { type $V = Tr<300, A4>; $e }
            _ => { type $V = Tr<12, A4>; $e }
        }
    };
}

impl Kind for Dyn {
    type T = dyn Obj;
    const PROV: &'static str = "u";
    fn make(sh: usize, _: usize) -> Box<dyn Obj> {
        with_shape!(sh, V, Box::new(quiet(V::mk).0))
    }
    fn comps(t: &(dyn Obj + 'static)) -> Vec<i64> {
        t.comps()
    }
    fn replace(t: &mut (dyn Obj + 'static)) -> Vec<i64> {
        t.replace()
    }
    fn add(v: &mut UnsizedVec<dyn Obj>, i: Option<usize>, src: &str, sh: usize, _: usize, cx: &mut Cx) -> bool {
        match src {
            "uns" => with_shape!(sh, V, {
                let (a, id) = quiet(V::mk);
                cx.give(quiet(|| vec![id]), size_of::<V>(), align_of::<V>());
                match i {
                    None => v.push_unsize(a),
                    Some(i) => v.insert_unsize(i, a),
                }
            }),
            "unse" => with_shape!(sh, V, {
                let (a, id) = quiet(V::mk);
                cx.give(quiet(|| vec![id]), size_of::<V>(), align_of::<V>());
                let e: Emplacable<dyn Obj, _> = Emplacable::<V, _>::from(a).unsize();
                put(v, i, e)
            }),
            _ => return false,
        }
        true
    }
    fn from_sized(n: usize, cap: usize, sh: usize, cx: &mut Cx) -> Option<UnsizedVec<dyn Obj>> {
        with_shape!(sh, V, {
            let mut v: UnsizedVec<V> = UnsizedVec::with_capacity(cap);
            for _ in 0..n {
                let (x, id) = quiet(V::mk);
                cx.give(quiet(|| vec![id]), size_of::<V>(), align_of::<V>());
                v.push(x);
            }
            Some(v.unsize())
        })
    }
    fn mac(n: usize, sh: usize, nc: usize, cx: &mut Cx) -> Option<UnsizedVec<dyn Obj>> {
        macro_rules! one {
            ($V:ty) => {{
                let (a, id) = quiet(<$V>::mk);
                cx.give(quiet(|| vec![id]), size_of::<$V>(), align_of::<$V>());
                a
            }};
        }
        Some(with_shape!(sh, V, {
            match n {
                0 => unsize_vec![],
                1 => unsize_vec![one!(V)],
                2 => unsize_vec![one!(Tr<3, A1>), one!(V)],
                3 => unsize_vec![one!(V), one!(Tr<16, A16>), one!(V),],
                _ if nc % 2 == 0 => unsize_vec![one!(Tr<8, A8>), one!(V), one!(Zs<A1>), one!(V)],
                _ => unsize_vec![one!(V), one!(Tr<32, A32>), one!(Tr<5, A1>), one!(V), one!(Tr<2, A2>)],
            }
        }))
    }
}

// ---------------------------------------------------------------- structs with an unsized tail

pub struct Tail<X: ?Sized> {
    h: Tr<4, A4>,
    t: X,
}
pub struct TailK;
impl Kind for TailK {
    type T = Tail<[Tr<2, A2>]>;
    const PROV: &'static str = "u";
    fn make(_: usize, n: usize) -> Box<Self::T> {
        with_n!(n, N, {
            let (a, _) = mkarr::<Tr<2, A2>, N>();
            let h = quiet(Tr::fresh).0;
            Box::new(Tail { h, t: a })
        })
    }
    fn comps(t: &Self::T) -> Vec<i64> {
        let mut v = vec![t.h.id()];
        v.extend(t.t.iter().map(|x| x.id()));
        v
    }
    fn replace(t: &mut Self::T) -> Vec<i64> {
        let (h, id) = quiet(Tr::fresh);
        t.h = h;
        let mut r = quiet(|| vec![id]);
        let r2 = Slice::replace(&mut t.t);
        quiet(|| r.extend(r2));
        r
    }
    fn add(v: &mut UnsizedVec<Self::T>, i: Option<usize>, src: &str, _: usize, n: usize, cx: &mut Cx) -> bool {
        match src {
            "uns" | "unse" => with_n!(n, N, {
                let (t, ids) = mkarr::<Tr<2, A2>, N>();
                let (h, id) = quiet(Tr::fresh);
                let ids = quiet(|| [vec![id], ids].concat());
                let x = Tail { h, t };
                cx.give(ids, size_of_val(&x), 4);
                if src == "uns" {
                    match i {
                        None => v.push_unsize(x),
                        Some(i) => v.insert_unsize(i, x),
                    }
                } else {
                    put(v, i, Emplacable::<Tail<[Tr<2, A2>; N]>, _>::from(x).unsize())
                }
            }),
            _ => return false,
        }
        true
    }
    fn from_sized(n: usize, cap: usize, sh: usize, cx: &mut Cx) -> Option<UnsizedVec<Self::T>> {
        with_n!(sh, N, {
            let mut v: UnsizedVec<Tail<[Tr<2, A2>; N]>> = UnsizedVec::with_capacity(cap);
            for _ in 0..n {
                let (t, ids) = mkarr::<Tr<2, A2>, N>();
                let (h, id) = quiet(Tr::fresh);
                let ids = quiet(|| [vec![id], ids].concat());
                let x = Tail { h, t };
                cx.give(ids, size_of_val(&x), 4);
                v.push(x);
            }
            Some(v.unsize())
        })
    }
}

// ---------------------------------------------------------------- lengths beyond any memory

/// Slices without size, as long as a length can be; a length is told by its place in the table.
pub struct Huge;
const LENGTHS: [usize; 8] = [0, 1, 2, 255, 1 << 32, isize::MAX as usize, 1 << 63, usize::MAX];
macro_rules! huge_n {
    ($n:expr, $N:ident, $e:expr) => {
        match $n % 8 {
            0 => { const $N: usize = LENGTHS[0]; $e }
            1 => { const $N: usize = LENGTHS[1]; $e }
            2 => { const $N: usize = LENGTHS[2]; $e }
            3 => { const $N: usize = LENGTHS[3]; $e }
            4 => { const $N: usize = LENGTHS[4]; $e }
            5 => { const $N: usize = LENGTHS[5]; $e }
            6 => { const $N: usize = LENGTHS[6]; $e }
            _ => { const $N: usize = LENGTHS[7]; $e }
        }
    };
}
impl Kind for Huge {
    type T = [()];
    const PROV: &'static str = "a";
    const TRACK: bool = false;
    fn make(_: usize, n: usize) -> Box<[()]> {
        huge_n!(n, N, Box::new([(); N]))
    }
    fn comps(t: &[()]) -> Vec<i64> {
        vec![LENGTHS.iter().position(|&l| l == t.len()).map_or(-1, |k| k as i64)]
    }
    fn replace(t: &mut [()]) -> Vec<i64> {
        quiet(|| Self::comps(t))
    }
    fn add(v: &mut UnsizedVec<[()]>, i: Option<usize>, src: &str, _: usize, n: usize, cx: &mut Cx) -> bool {
        cx.give(quiet(|| vec![(n % 8) as i64]), 0, 1);
        match src {
            "uns" => huge_n!(n, N, match i {
                None => v.push_unsize([(); N]),
                Some(i) => v.insert_unsize(i, [(); N]),
            }),
            "unse" => huge_n!(n, N, put(v, i, Emplacable::<[(); N], _>::from([(); N]).unsize::<[()]>())),
            "ref" => {
                let b = Self::make(0, n);
                put(v, i, Emplacable::<[()], _>::from(&*b))
            }
            _ => return false,
        }
        true
    }
    fn from_sized(n: usize, cap: usize, sh: usize, cx: &mut Cx) -> Option<UnsizedVec<[()]>> {
        Some(huge_n!(sh, N, {
            let mut x: UnsizedVec<[(); N]> = UnsizedVec::with_capacity(cap);
            for _ in 0..n {
                cx.give(quiet(|| vec![(sh % 8) as i64]), 0, 1);
                x.push([(); N])
            }
            x.unsize()
        }))
    }
}

// ---------------------------------------------------------------- strings

pub fn mkstr(n: usize) -> String {
    const T: &[char] = &['a', 'b', 'c', 'd', 'e', 'f', 'g', 'é', 'ß', '€', '𝄞', 'h', '/', '.', ' ', 'l', '/', '\u{7f}'];
    (0..n).map(|_| T[fresh() as usize % T.len()]).collect()
}
fn bytes(b: &[u8]) -> Vec<i64> {
    b.iter().map(|&x| x as i64).collect()
}

pub struct Str;
impl Kind for Str {
    type T = str;
    const PROV: &'static str = "a";
    const TRACK: bool = false;
    fn make(_: usize, n: usize) -> Box<str> {
        let s = quiet(|| mkstr(n));
        Box::from(&*s)
    }
    fn comps(t: &str) -> Vec<i64> {
        bytes(t.as_bytes())
    }
    fn replace(t: &mut str) -> Vec<i64> {
        for b in unsafe { t.as_bytes_mut() } {
            *b = b'A' + (quiet(fresh) % 26) as u8
        }
        quiet(|| bytes(t.as_bytes()))
    }
    fn add(v: &mut UnsizedVec<str>, i: Option<usize>, src: &str, _: usize, n: usize, cx: &mut Cx) -> bool {
        match src {
            "ref" => {
                let s = quiet(|| mkstr(n));
                cx.give(quiet(|| bytes(s.as_bytes())), s.len(), 1);
                put(v, i, Emplacable::from(&*s));
                quiet(|| drop(s));
                true
            }
            _ => false,
        }
    }
    fn recv<F: EmplacableFn<str>>(e: Emplacable<str, F>, s: &str, cx: &mut Cx) -> Result<(), Emplacable<str, F>> {
        match s {
            "get" => {
                let s = e.into_string();
                outbox(&*s, Self::comps, cx);
                Ok(())
            }
            "vec" => {
                let b: Emplacable<[u8], _> = e.into();
                let s = b.into_vec();
                quiet(|| cx.out.push(Desc { c: bytes(&s), s: s.len(), a: 1, ok: true }));
                Ok(())
            }
            _ => Err(e),
        }
    }
}

pub struct CStrK;
impl Kind for CStrK {
    type T = CStr;
    const PROV: &'static str = "a";
    const TRACK: bool = false;
    fn make(_: usize, n: usize) -> Box<CStr> {
        let s = quiet(|| CString::new(mkstr(n)).unwrap());
        Box::from(&*s)
    }
    fn comps(t: &CStr) -> Vec<i64> {
        bytes(t.to_bytes_with_nul())
    }
    fn replace(t: &mut CStr) -> Vec<i64> {
        let n = t.to_bytes().len();
        let p = t as *mut CStr as *mut u8;
        for k in 0..n {
            unsafe { *p.add(k) = b'A' + (quiet(fresh) % 26) as u8 }
        }
        quiet(|| bytes(t.to_bytes_with_nul()))
    }
    fn add(v: &mut UnsizedVec<CStr>, i: Option<usize>, src: &str, _: usize, n: usize, cx: &mut Cx) -> bool {
        match src {
            "ref" => {
                let s = quiet(|| CString::new(mkstr(n)).unwrap());
                cx.give(quiet(|| bytes(s.as_bytes_with_nul())), s.as_bytes_with_nul().len(), 1);
                put(v, i, Emplacable::from(&*s));
                quiet(|| drop(s));
                true
            }
            _ => false,
        }
    }
    fn recv<F: EmplacableFn<CStr>>(e: Emplacable<CStr, F>, s: &str, cx: &mut Cx) -> Result<(), Emplacable<CStr, F>> {
        match s {
            "get" => {
                let s: CString = e.into();
                outbox(&*s, Self::comps, cx);
                Ok(())
            }
            _ => Err(e),
        }
    }
}

pub struct OsStrK;
impl Kind for OsStrK {
    type T = OsStr;
    const PROV: &'static str = "u";
    const TRACK: bool = false;
    fn make(_: usize, n: usize) -> Box<OsStr> {
        let s = quiet(|| OsString::from(mkstr(n)));
        Box::from(&*s)
    }
    fn comps(t: &OsStr) -> Vec<i64> {
        bytes(t.as_encoded_bytes())
    }
    fn replace(t: &mut OsStr) -> Vec<i64> {
        t.make_ascii_uppercase();
        quiet(|| bytes(t.as_encoded_bytes()))
    }
    fn add(v: &mut UnsizedVec<OsStr>, i: Option<usize>, src: &str, _: usize, n: usize, cx: &mut Cx) -> bool {
        match src {
            "ref" => {
                let s = quiet(|| OsString::from(mkstr(n)));
                cx.give(quiet(|| bytes(s.as_encoded_bytes())), s.len(), 1);
                put(v, i, Emplacable::from(&*s));
                quiet(|| drop(s));
                true
            }
            _ => false,
        }
    }
    fn recv<F: EmplacableFn<OsStr>>(e: Emplacable<OsStr, F>, s: &str, cx: &mut Cx) -> Result<(), Emplacable<OsStr, F>> {
        match s {
            "get" => {
                let s: OsString = e.into();
                outbox(&*s, Self::comps, cx);
                Ok(())
            }
            _ => Err(e),
        }
    }
}
