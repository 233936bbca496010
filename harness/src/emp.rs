//! Emplacables: every way of making one against every way of consuming it, and the by-value helpers.
use crate::alloc::{self, Cat, quiet, st, track};
use crate::kinds::*;
use crate::val::*;
use crate::world::*;
use emplacable::*;
use std::ffi::{CStr, CString, OsStr, OsString};
use std::marker::PhantomData;
use std::panic::{AssertUnwindSafe, catch_unwind};
use std::path::{Path, PathBuf};
use std::pin::Pin;
use std::ptr::Pointee;
use std::rc::Rc;
use std::sync::Arc;
use unsized_vec::UnsizedVec;

type V8 = Tr<8, A8>;
type V2 = Tr<2, A2>;
type V16 = Tr<16, A16>;
type Z4 = Zs<A4>;
type Z32 = Zs<A32>;

/// A type whose values can be looked at.
pub trait Show: 'static {
    fn comps(&self) -> Vec<i64>;
    /// the metadata as a number
    fn meta(m: <Self as Pointee>::Metadata) -> i64;
}
macro_rules! show_sized {
    ($($t:ty),*) => {$(
        impl Show for $t {
            fn comps(&self) -> Vec<i64> { vec![self.ident()] }
            fn meta(_: ()) -> i64 { -1 }
        }
    )*};
}
show_sized!(V8, V2, V16, Z4, Z32, Tr<300, A4>, Tr<1, A1>);
#[derive(Clone, Copy)]
pub struct Cp(u32);
impl Show for Cp {
    fn comps(&self) -> Vec<i64> {
        vec![self.0 as i64]
    }
    fn meta(_: ()) -> i64 {
        -1
    }
}
impl<V: Show> Show for [V] {
    fn comps(&self) -> Vec<i64> {
        self.iter().flat_map(|x| x.comps()).collect()
    }
    fn meta(m: usize) -> i64 {
        cl(m) as i64
    }
}
impl<V: Show, const N: usize> Show for [V; N] {
    fn comps(&self) -> Vec<i64> {
        self.iter().flat_map(|x| x.comps()).collect()
    }
    fn meta(_: ()) -> i64 {
        -1
    }
}
impl Show for u8 {
    fn comps(&self) -> Vec<i64> {
        vec![*self as i64]
    }
    fn meta(_: ()) -> i64 {
        -1
    }
}
fn by(b: &[u8]) -> Vec<i64> {
    b.iter().map(|&x| x as i64).collect()
}
impl Show for str {
    fn comps(&self) -> Vec<i64> {
        by(self.as_bytes())
    }
    fn meta(m: usize) -> i64 {
        cl(m) as i64
    }
}
impl Show for CStr {
    fn comps(&self) -> Vec<i64> {
        by(self.to_bytes_with_nul())
    }
    fn meta(m: usize) -> i64 {
        cl(m) as i64
    }
}
impl Show for OsStr {
    fn comps(&self) -> Vec<i64> {
        by(self.as_encoded_bytes())
    }
    fn meta(m: usize) -> i64 {
        cl(m) as i64
    }
}
impl Show for Path {
    fn comps(&self) -> Vec<i64> {
        by(self.as_os_str().as_encoded_bytes())
    }
    fn meta(m: usize) -> i64 {
        cl(m) as i64
    }
}
impl Show for dyn Obj {
    fn comps(&self) -> Vec<i64> {
        Obj::comps(self)
    }
    fn meta(_: <dyn Obj as Pointee>::Metadata) -> i64 {
        -1
    }
}
impl Show for Tail<[V2]> {
    fn comps(&self) -> Vec<i64> {
        TailK::comps(self)
    }
    fn meta(m: usize) -> i64 {
        cl(m) as i64
    }
}

/// Everything one scenario records.
#[derive(Default)]
pub struct Ex {
    pub x: Vec<Desc>,
    pub out: Vec<Desc>,
    /// the length the source claims, and what it has
    pub claim: i64,
    pub calls: i64,
    pub ann: [i64; 5],
    pub f: String,
    pub fk: u64,
    pub part: Option<usize>,
    /// neighbours in the vec the value came from or went to: before, and whether they stayed
    pub same: bool,
    /// an allocator fault to arm once the source is ready
    pub alloc: Option<(u64, bool)>,
    pub clones: bool,
    pub na: bool,
    pub n: usize,
    pub m: i64,
    pub keep: Vec<Box<dyn std::any::Any>>,
    pub dst: String,
    /// (address, size) of things that must not change while the value is delivered
    pub guard: Vec<(usize, Vec<u8>)>,
}
impl Ex {
    fn arm(&mut self) {
        if let Some((k, all)) = self.alloc.take() {
            alloc::arm(k, all)
        }
    }
    fn give(&mut self, c: Vec<i64>, s: usize, a: usize) {
        quiet(|| self.x.push(Desc { c, s, a, ok: true }))
    }
    fn out<T: Show + ?Sized>(&mut self, t: &T) {
        quiet(|| {
            let a = align_of_val(t);
            let p = t as *const T as *const u8 as usize;
            let s = size_of_val(t);
            let live = s == 0 || place(p, s).is_some() || !(0x6000_0000_0000..0x6000_8000_0000).contains(&p);
            let c = if live && p % a == 0 { t.comps() } else { vec![-2] };
            self.out.push(Desc { c, s, a, ok: p % a == 0 })
        })
    }
    fn guard_on(&mut self, p: usize, s: usize) {
        quiet(|| {
            let b = unsafe { std::slice::from_raw_parts(p as *const u8, s) }.to_vec();
            self.guard.push((p, b))
        })
    }
    fn guards_ok(&self) -> bool {
        quiet(|| self.guard.iter().all(|(p, b)| unsafe { std::slice::from_raw_parts(*p as *const u8, b.len()) } == &b[..]))
    }
}

/// Consumes an emplacable.
fn sink<T: Show + ?Sized, F: EmplacableFn<T>>(e: Emplacable<T, F>, s: &str, ex: &mut Ex) {
    ex.arm();
    match s {
        "drop" => drop(e),
        "forget" => e.forget(),
        // never run at all: leaked, or taken apart and its closure dropped
        "keep" => std::mem::forget(e),
        "fn" => drop(e.into_fn()),
        "box" => {
            let b: Box<T> = box_new_with(e);
            ex.out(&*b);
        }
        "pin" => {
            let b: Pin<Box<T>> = box_pin_with(e);
            ex.out(&*b);
        }
        "rc" => {
            let b = rc_new_with(e);
            let c = b.clone();
            ex.out(&*b);
            drop(b);
            drop(c);
        }
        "rcp" => {
            let b = rc_pin_with(e);
            ex.out(&*b);
        }
        "rci" => {
            let b: Rc<T> = e.into();
            ex.out(&*b);
        }
        "arc" => {
            let b = arc_new_with(e);
            let c = b.clone();
            ex.out(&*b);
            drop(b);
            drop(c);
        }
        "arcp" => {
            let b = arc_pin_with(e);
            ex.out(&*b);
        }
        "arci" => {
            let b: Arc<T> = e.into();
            ex.out(&*b);
        }
        "vec" => {
            let mut v: UnsizedVec<T> = UnsizedVec::new();
            v.push_with(e);
            ex.out(&v[0]);
            ex.same &= v.len() == 1;
        }
        "vec2" => {
            // goes on as an emplacable leaving a vec
            let mut v: UnsizedVec<T> = UnsizedVec::new();
            v.push_with(e);
            let mut w: UnsizedVec<T> = UnsizedVec::new();
            w.insert_with(0, v.remove_into(0));
            let b = box_new_with(w.pop_into().unwrap());
            ex.out(&*b);
            ex.same &= v.is_empty() && w.is_empty();
        }
        "memdrop" | "mem" | "null" | "none" | "pan0" => {
            let mut calls = 0;
            let mut ann = [0i64; 5];
            let mut ok = true;
            let mut got: Option<Desc> = None;
            let g = ex.guards_ok();
            let exr = &*ex;
            let what = s;
            {
                let mut go = |l: std::alloc::Layout, m: <T as Pointee>::Metadata, inner: &mut dyn FnMut(*mut PhantomData<T>)| {
                    calls += 1;
                    let dang: *const T = std::ptr::from_raw_parts(l.align() as *const u8, m);
                    ann = [
                        cl(l.size()) as i64,
                        cl(l.align()) as i64,
                        T::meta(m),
                        unsafe { cl(std::mem::size_of_val_raw(dang)) as i64 },
                        unsafe { cl(std::mem::align_of_val_raw(dang)) as i64 },
                    ];
                    ok &= exr.guards_ok();
                    match what {
                        "null" => inner(std::ptr::null_mut()),
                        "none" => (),
                        "pan0" => boom(),
                        _ => {
                            let p = if l.size() == 0 { l.align() as *mut u8 } else { track(Cat::Arg, || unsafe { std::alloc::alloc(l) }) };
                            struct D(*mut u8, std::alloc::Layout);
                            impl Drop for D {
                                fn drop(&mut self) {
                                    if self.1.size() > 0 {
                                        unsafe { std::alloc::dealloc(self.0, self.1) }
                                    }
                                }
                            }
                            let d = D(p, l);
                            inner(p as *mut PhantomData<T>);
                            ok &= exr.guards_ok();
                            let w: *mut T = std::ptr::from_raw_parts_mut(p, m);
                            quiet(|| {
                                let t = unsafe { &*w };
                                got = Some(Desc { c: t.comps(), s: size_of_val(t), a: align_of_val(t), ok: true })
                            });
                            unsafe { std::ptr::drop_in_place(w) };
                            drop(d);
                        }
                    }
                };
                let f = e.into_fn();
                // SAFETY: follows the protocol
                let r = catch_unwind(AssertUnwindSafe(|| f(unsafe { Emplacer::from_fn(&mut go) })));
                if let Err(p) = r {
                    ex.calls = calls;
                    ex.ann = ann;
                    ex.same &= ok && g;
                    std::panic::resume_unwind(p)
                }
            }
            ex.calls = calls;
            ex.ann = ann;
            ex.same &= ok && g;
            if let Some(d) = got {
                quiet(|| ex.out.push(d))
            }
        }
        _ => ex.na = true,
    }
}

fn sink_sized<T: Show, F: EmplacableFn<T>>(e: Emplacable<T, F>, s: &str, ex: &mut Ex) {
    ex.arm();
    match s {
        "get" => {
            let v = e.get();
            ex.out(&v);
        }
        "ext" => {
            let mut v: Vec<T> = Vec::new();
            v.extend(Some(e));
            ex.same &= v.len() == 1;
            ex.out(&v[0]);
        }
        "coll" => {
            let v: Vec<T> = Some(e).into_iter().collect();
            ex.same &= v.len() == 1;
            ex.out(&v[0]);
        }
        _ => sink(e, s, ex),
    }
}

fn sink_slice<T: Show, F: EmplacableFn<[T]>>(e: Emplacable<[T], F>, s: &str, ex: &mut Ex)
where
    [T]: Show,
{
    ex.arm();
    match s {
        "ivec" => {
            let v: Vec<T> = e.into_vec();
            ex.out(&*v);
        }
        "fvec" => {
            let v: Vec<T> = Vec::from(e);
            ex.out(&*v);
        }
        _ => sink(e, s, ex),
    }
}

/// Collects several emplacables into an ordinary vec.
fn many<V: Val + Show, F: EmplacableFn<V>>(l: Vec<Emplacable<V, F>>, s: &str, ex: &mut Ex) {
    struct H<I>(I, (usize, Option<usize>), usize, usize);
    impl<I: Iterator> Iterator for H<I> {
        type Item = I::Item;
        fn next(&mut self) -> Option<I::Item> {
            self.3 += 1;
            if self.3 == self.2 {
                boom()
            }
            self.0.next()
        }
        fn size_hint(&self) -> (usize, Option<usize>) {
            self.1
        }
    }
    let n = l.len();
    let hint = match ex.m {
        0 => (n, Some(n)),
        1 => (0, None),
        2 => (n / 2, Some(n)),
        3 => (n, Some(n + 9)),
        4 => (n + 3, Some(n + 3)),
        _ => (0, Some(0)),
    };
    let at = if ex.f == "iter" { ex.fk as usize } else { 0 };
    let it = H(l.into_iter(), hint, at, 0);
    ex.arm();
    match s {
        "coll" => {
            let v: Vec<V> = it.collect();
            ex.out(&*v)
        }
        "ext" => {
            let mut pre = quiet(Vec::new);
            let mut v: Vec<V> = track(Cat::Arg, || {
                (0..2)
                    .map(|_| {
                        let (x, i) = quiet(V::mk);
                        quiet(|| pre.push(i));
                        x
                    })
                    .collect()
            });
            let r = catch_unwind(AssertUnwindSafe(|| v.extend(it)));
            ex.same &= quiet(|| v.len() >= 2 && (size_of::<V>() == 0 || Show::comps(&v[..2]) == pre));
            v.drain(..2).for_each(std::mem::forget);
            if let Err(p) = r {
                drop(v);
                std::panic::resume_unwind(p)
            }
            ex.out(&*v)
        }
        _ => ex.na = true,
    }
}

fn sink_str<F: EmplacableFn<str>>(e: Emplacable<str, F>, s: &str, ex: &mut Ex) {
    ex.arm();
    match s {
        "istr" => {
            let v = e.into_string();
            ex.out(&*v);
        }
        "fstr" => {
            let v = String::from(e);
            ex.out(&*v);
        }
        _ => sink(e, s, ex),
    }
}

/// The value itself, once its emplacable's part `k` was told to unwind.
fn part_fault(ex: &Ex, k: usize) -> String {
    quiet(|| if ex.f.starts_with('p') && ex.fk as usize == k + 1 { ex.f.clone() } else { "none".into() })
}

/// A sized value in a box, made before the operation.
fn bx<V: Val>(ids: &mut Vec<i64>) -> Box<V> {
    track(Cat::Arg, || {
        let (v, id) = quiet(V::mk);
        quiet(|| ids.push(id));
        Box::new(v)
    })
}

fn slices<V: Val + Show + Clone>(src: &str, s: &str, ex: &mut Ex) {
    let fixed = src.starts_with("arr") || src.starts_with("val") || src == "nest";
    let n = if !fixed { ex.n } else { match ex.n { n @ (0..=5 | 33 | 300) => n, _ => 7 } };
    let (sz, al) = (size_of::<V>(), align_of::<V>());
    let mut ids: Vec<i64> = vec![];
    macro_rules! with_n {
        ($n:expr, $N:ident, $e:expr) => {
            match $n {
                0 => { const $N: usize = 0; $e }
                1 => { const $N: usize = 1; $e }
                2 => { const $N: usize = 2; $e }
                3 => { const $N: usize = 3; $e }
                4 => { const $N: usize = 4; $e }
                5 => { const $N: usize = 5; $e }
                33 => { const $N: usize = 33; $e }
                300 => { const $N: usize = 300; $e }
                _ => { const $N: usize = 7; $e }
            }
        };
    }
    match src {
        "ref" => {
            let vals: Box<[V]> = quiet(|| (0..n).map(|_| V::mk().0).collect());
            ex.clones = true;
            ex.give(quiet(|| Show::comps(&*vals)), n * sz, al);
            let p: *const [V] = &*vals;
            quiet(|| ex.keep.push(Box::new(vals)));
            sink_slice(Emplacable::from(unsafe { &*p }), s, ex)
        }
        "box" => {
            let b: Box<[V]> = track(Cat::Arg, || (0..n).map(|_| quiet(V::mk).0).collect::<Vec<V>>().into_boxed_slice());
            ex.give(quiet(|| Show::comps(&*b)), n * sz, al);
            sink_slice(Emplacable::from(b), s, ex)
        }
        "vec" => {
            let b: Vec<V> = track(Cat::Arg, || {
                let mut v = Vec::with_capacity(n + ex.m.max(0) as usize);
                v.extend((0..n).map(|_| quiet(V::mk).0));
                v
            });
            ex.give(quiet(|| Show::comps(&*b)), n * sz, al);
            sink_slice(Emplacable::from(b), s, ex)
        }
        "arr" | "arru" | "arrn" => with_n!(n, N, {
            let (a, i) = mkarr::<V, N>();
            ex.give(i, n * sz, al);
            let a: [Emplacable<V, _>; N] = a.map(Emplacable::from);
            match src {
                "arr" => sink_slice(Emplacable::<[V], _>::from(a), s, ex),
                "arru" => sink_slice(Emplacable::<[V; N], _>::from(a).unsize::<[V]>(), s, ex),
                _ => sink_sized(Emplacable::<[V; N], _>::from(a), s, ex),
            }
        }),
        "val" | "vals" | "valu" => with_n!(n, N, {
            let (a, i) = mkarr::<V, N>();
            ex.give(i, n * sz, al);
            match src {
                "val" => sink_sized(Emplacable::<[V; N], _>::from(a), s, ex),
                "vals" => sink_slice(Emplacable::<[V], _>::from(Emplacable::<[V; N], _>::from(a)), s, ex),
                _ => sink_slice(Emplacable::<[V; N], _>::from(a).unsize::<[V]>(), s, ex),
            }
        }),
        "arrb" => with_n!(n, N, {
            let a: [Emplacable<V, _>; N] = std::array::from_fn(|_| Emplacable::from(bx::<V>(&mut ids)));
            ex.give(ids, n * sz, al);
            sink_slice(Emplacable::<[V], _>::from(a), s, ex)
        }),
        "arrc" => with_n!(n, N, {
            let mut k = 0;
            let a: [Emplacable<V, _>; N] = std::array::from_fn(|_| {
                k += 1;
                custom(bx::<V>(&mut ids), part_fault(ex, k - 1))
            });
            ex.give(ids, n * sz, al);
            sink_slice(Emplacable::<[V], _>::from(a), s, ex)
        }),
        "iter" | "iterb" | "iterc" | "iterl" | "iterp" => {
            // claims `claim` elements, has n
            struct L<I>(I, usize, usize, usize);
            impl<I: Iterator> Iterator for L<I> {
                type Item = I::Item;
                fn next(&mut self) -> Option<I::Item> {
                    self.3 += 1;
                    if self.3 == self.2 {
                        boom()
                    }
                    self.0.next()
                }
                fn size_hint(&self) -> (usize, Option<usize>) {
                    (self.1, Some(self.1))
                }
            }
            impl<I: Iterator> ExactSizeIterator for L<I> {
                fn len(&self) -> usize {
                    self.1
                }
            }
            let claim = if src == "iterl" { ex.m.max(0) as usize } else { n };
            ex.claim = claim as i64;
            let at = if src == "iterp" && ex.f == "iter" { ex.fk as usize } else { 0 };
            match src {
                "iterb" => {
                    let l: Vec<Box<V>> = (0..n).map(|_| bx::<V>(&mut ids)).collect();
                    ex.give(ids, n * sz, al);
                    sink_slice(Emplacable::<V, _>::from_iter(L(l.into_iter().map(Emplacable::<V, _>::from), claim, at, 0)), s, ex)
                }
                "iterc" => {
                    let l: Vec<(Box<V>, String)> = (0..n).map(|k| (bx::<V>(&mut ids), part_fault(ex, k))).collect();
                    ex.give(ids, n * sz, al);
                    sink_slice(Emplacable::from_iter(L(l.into_iter().map(|(b, f)| custom(b, f)), claim, at, 0)), s, ex)
                }
                _ => {
                    let l: Vec<V> = quiet(|| {
                        (0..n)
                            .map(|_| {
                                let (v, id) = V::mk();
                                ids.push(id);
                                v
                            })
                            .collect()
                    });
                    ex.give(ids, n * sz, al);
                    sink_slice(Emplacable::<V, _>::from_iter(L(l.into_iter().map(Emplacable::<V, _>::from), claim, at, 0)), s, ex)
                }
            }
        }
        "nest" => with_n!(n, N, {
            // an iterator of arrays of emplacables
            let k = ex.m.clamp(0, 4) as usize;
            let mut all = vec![];
            let mut rows = vec![];
            for _ in 0..k {
                let (a, i) = mkarr::<V, N>();
                quiet(|| all.extend(i));
                rows.push(a);
            }
            ex.give(all, k * n * sz, al);
            ex.claim = k as i64;
            let e = Emplacable::<[V; N], _>::from_iter(rows.into_iter().map(|r| Emplacable::<[V; N], _>::from(r.map(Emplacable::from))));
            sink_slice(e, s, ex)
        }),
        "many" | "manyb" | "manyc" => {
            let bs: Vec<(V, String)> = quiet(|| {
                (0..n)
                    .map(|k| {
                        let (v, id) = V::mk();
                        ids.push(id);
                        (v, part_fault(ex, k))
                    })
                    .collect()
            });
            ex.give(ids, n * sz, al);
            macro_rules! list {
                ($f:expr) => {
                    track(Cat::Arg, || bs.into_iter().map($f).collect::<Vec<_>>())
                };
            }
            match src {
                "many" => many(list!(|(v, _)| Emplacable::<V, _>::from(v)), s, ex),
                "manyb" => many(list!(|(v, _)| Emplacable::<V, _>::from(Box::new(v))), s, ex),
                _ => many(list!(|(v, f)| custom(Box::new(v), f)), s, ex),
            }
        }
        "pop" | "rem" => {
            let mut v: UnsizedVec<[V]> = UnsizedVec::new();
            let at = if src == "pop" { 2 } else { ex.m.clamp(0, 2) as usize };
            for k in 0..3 {
                let b: Box<[V]> = track(Cat::Arg, || (0..if k == at { n } else { k + 1 }).map(|_| quiet(V::mk).0).collect::<Vec<V>>().into_boxed_slice());
                if k == at {
                    ex.give(quiet(|| Show::comps(&*b)), n * sz, al);
                }
                v.push_with(Emplacable::from(b))
            }
            leaving(v, at, src, s, ex)
        }
        "cus" => {
            let b: Box<[V]> = track(Cat::Arg, || (0..n).map(|_| quiet(V::mk).0).collect::<Vec<V>>().into_boxed_slice());
            ex.give(quiet(|| Show::comps(&*b)), n * sz, al);
            ex.fk = 1;
            let f = part_fault(ex, 0);
            sink_slice(custom(b, f), s, ex)
        }
        _ => ex.na = true,
    }
}

/// Takes element `at` out of the vec and checks its neighbours.
fn leaving<T: Show + ?Sized>(mut v: UnsizedVec<T>, at: usize, src: &str, s: &str, ex: &mut Ex) {
    let n = v.len();
    let mut oth = quiet(Vec::new);
    for k in 0..n {
        if k != at {
            let r = &v[k];
            ex.guard_on(r as *const T as *const u8 as usize, size_of_val(r));
            quiet(|| oth.push(r.comps()));
        }
    }
    let fixed = s;
    let r = catch_unwind(AssertUnwindSafe(|| {
        if src == "pop" {
            sink(v.pop_into().unwrap(), fixed, ex)
        } else {
            sink(v.remove_into(at), fixed, ex)
        }
    }));
    ex.guard.clear();
    let now: Vec<Vec<i64>> = quiet(|| v.iter().map(|x| x.comps()).collect());
    quiet(|| {
        let gone = now == oth;
        let back = r.is_err() && now.len() == oth.len() + 1;
        ex.same &= gone || back;
        // what is left is not part of the scenario
        ex.keep.push(Box::new(v));
    });
    if let Err(p) = r {
        std::panic::resume_unwind(p)
    }
}

fn sized<V: Val + Show>(src: &str, s: &str, ex: &mut Ex) {
    let (sz, al) = (size_of::<V>(), align_of::<V>());
    match src {
        "val" => {
            let (v, id) = quiet(V::mk);
            ex.give(quiet(|| vec![id]), sz, al);
            sink_sized(Emplacable::from(v), s, ex)
        }
        "box" => {
            let mut ids = quiet(Vec::new);
            let b = bx::<V>(&mut ids);
            ex.give(ids, sz, al);
            sink_sized(Emplacable::<V, _>::from(b), s, ex)
        }
        "cus" => {
            let mut ids = quiet(Vec::new);
            let b = bx::<V>(&mut ids);
            ex.give(ids, sz, al);
            ex.fk = 1;
            let f = part_fault(ex, 0);
            sink_sized(custom(b, f), s, ex)
        }
        "pop" | "rem" => {
            let mut v: UnsizedVec<V> = UnsizedVec::new();
            let at = if src == "pop" { 2 } else { ex.m.clamp(0, 2) as usize };
            for k in 0..3 {
                let (x, id) = quiet(V::mk);
                if k == at {
                    ex.give(quiet(|| vec![id]), sz, al);
                }
                v.push(x)
            }
            leaving(v, at, src, s, ex)
        }
        _ => ex.na = true,
    }
}

macro_rules! with_shape2 {
    ($sh:expr, $V:ident, $e:expr) => {
        match $sh % 8 {
            0 => { type $V = Tr<1, A1>; $e }
            1 => { type $V = Tr<24, A8>; $e }
            2 => { type $V = Tr<3, A1>; $e }
            3 => { type $V = Tr<32, A32>; $e }
            4 => { type $V = Zs<A8>; $e }
            5 => { type $V = Tr<128, A128>; $e }
            6 => { type $V = Zs<A32>; $e }
            _ => { type $V = Tr<300, A4>; $e }
        }
    };
}

fn dynamic(src: &str, s: &str, ex: &mut Ex) {
    let sh = ex.n;
    match src {
        "box" => {
            let b: Box<dyn Obj> = track(Cat::Arg, || Dyn::make(sh, 0));
            ex.give(quiet(|| b.comps()), size_of_val(&*b), align_of_val(&*b));
            sink(Emplacable::<dyn Obj, _>::from(b), s, ex)
        }
        "cus" => {
            let b: Box<dyn Obj> = track(Cat::Arg, || Dyn::make(sh, 0));
            ex.give(quiet(|| b.comps()), size_of_val(&*b), align_of_val(&*b));
            ex.fk = 1;
            let f = part_fault(ex, 0);
            sink(custom(b, f), s, ex)
        }
        "uns" => with_shape2!(sh, V, {
            let (v, id) = quiet(V::mk);
            ex.give(quiet(|| vec![id]), size_of::<V>(), align_of::<V>());
            sink(Emplacable::<V, _>::from(v).unsize::<dyn Obj>(), s, ex)
        }),
        "unsb" => with_shape2!(sh, V, {
            let mut ids = quiet(Vec::new);
            let b = bx::<V>(&mut ids);
            ex.give(ids, size_of::<V>(), align_of::<V>());
            sink(Emplacable::<V, _>::from(b).unsize::<dyn Obj>(), s, ex)
        }),
        "unsc" => with_shape2!(sh, V, {
            let mut ids = quiet(Vec::new);
            let b = bx::<V>(&mut ids);
            ex.give(ids, size_of::<V>(), align_of::<V>());
            ex.fk = 1;
            let f = part_fault(ex, 0);
            sink(custom(b, f).unsize::<dyn Obj>(), s, ex)
        }),
        "pop" | "rem" => {
            let mut v: UnsizedVec<dyn Obj> = UnsizedVec::new();
            let at = if src == "pop" { 2 } else { ex.m.clamp(0, 2) as usize };
            for k in 0..3 {
                let b: Box<dyn Obj> = track(Cat::Arg, || Dyn::make(if k == at { sh } else { sh + 3 * k + 1 }, 0));
                if k == at {
                    ex.give(quiet(|| b.comps()), size_of_val(&*b), align_of_val(&*b));
                }
                v.push_with(Emplacable::from(b))
            }
            leaving(v, at, src, s, ex)
        }
        _ => ex.na = true,
    }
}

fn strings(ty: &str, src: &str, s: &str, ex: &mut Ex) {
    let n = ex.n;
    let text = quiet(|| dressed(mkstr(n), ex.m));
    macro_rules! texts {
        ($t:ty, $make:expr, $sink:expr) => {{
            let b: Box<$t> = track(Cat::Arg, || $make);
            let (c, sz) = quiet(|| (Show::comps(&*b), size_of_val(&*b)));
            ex.give(c, sz, 1);
            match src {
                "ref" => {
                    let p: *const $t = &*b;
                    quiet(|| ex.keep.push(Box::new(b)));
                    $sink(Emplacable::from(unsafe { &*p }), s, ex)
                }
                "box" => $sink(Emplacable::<$t, _>::from(b), s, ex),
                "cus" => {
                    ex.fk = 1;
                    let f = part_fault(ex, 0);
                    $sink(custom(b, f), s, ex)
                }
                "pop" | "rem" => {
                    let mut v: UnsizedVec<$t> = UnsizedVec::new();
                    let at = if src == "pop" { 2 } else { ex.m.clamp(0, 2) as usize };
                    let mut b = Some(b);
                    for k in 0..3 {
                        if k == at {
                            v.push_with(Emplacable::from(b.take().unwrap()))
                        } else {
                            let text = quiet(|| mkstr(k + 1));
                            #[allow(unused_variables)]
                            let text = &text;
                            v.push_with(Emplacable::from(track(Cat::Arg, || -> Box<$t> { other::<$t>(text) })))
                        }
                    }
                    leaving(v, at, src, s, ex)
                }
                _ => ex.na = true,
            }
        }};
    }
    match ty {
        "str" => {
            if src == "bytes" {
                let b: Box<str> = track(Cat::Arg, || Box::from(&*text));
                ex.give(quiet(|| by(b.as_bytes())), b.len(), 1);
                let e: Emplacable<[u8], _> = Emplacable::<str, _>::from(b).into();
                sink_slice(e, s, ex)
            } else if src == "bytesr" {
                ex.give(quiet(|| by(text.as_bytes())), text.len(), 1);
                let e: Emplacable<[u8], _> = Emplacable::<str, _>::from(&*text).into();
                sink_slice(e, s, ex)
            } else if src == "bytesc" {
                let b: Box<str> = track(Cat::Arg, || Box::from(&*text));
                ex.give(quiet(|| by(b.as_bytes())), b.len(), 1);
                ex.fk = 1;
                let f = part_fault(ex, 0);
                let e: Emplacable<[u8], _> = custom(b, f).into();
                sink_slice(e, s, ex)
            } else {
                texts!(str, Box::from(&*text), sink_str)
            }
        }
        "cstr" => texts!(CStr, CString::new(&*text).unwrap().into_boxed_c_str(), |e, s: &str, ex: &mut Ex| sink_c(e, s, ex)),
        "os" => texts!(OsStr, odd(&text, ex.m).into_boxed_os_str(), |e, s: &str, ex: &mut Ex| sink_o(e, s, ex)),
        _ => texts!(Path, PathBuf::from(odd(&text, ex.m)).into_boxed_path(), |e, s: &str, ex: &mut Ex| sink_p(e, s, ex)),
    }
    quiet(|| drop(text));
}
/// The text with something that a careless view would drop.
fn dressed(t: String, m: i64) -> String {
    match m {
        4 => t + "/",
        5 => format!("./{t}/."),
        6 => format!("a//b/{t}//"),
        7 => format!(" \r{t} \t\n"),
        8 => format!("\u{feff}{t}e\u{301}\u{0}"),
        9 => t + "\\",
        _ => t,
    }
}
/// A system string, not valid as text if `m` is 3.
fn odd(t: &str, m: i64) -> OsString {
    use std::os::unix::ffi::OsStringExt;
    let mut b = quiet(|| t.as_bytes().to_vec());
    if m == 3 {
        for x in b.iter_mut().step_by(2) {
            *x |= 0x80
        }
    }
    let l = b.len();
    // made anew, so that it is the argument's
    OsString::from_vec({
        let mut v = Vec::with_capacity(l);
        v.extend_from_slice(&b);
        quiet(|| drop(b));
        v
    })
}
trait Other {
    fn other(s: &str) -> Box<Self>;
}
impl Other for str {
    fn other(s: &str) -> Box<str> {
        s.into()
    }
}
impl Other for CStr {
    fn other(s: &str) -> Box<CStr> {
        CString::new(s).unwrap().into_boxed_c_str()
    }
}
impl Other for OsStr {
    fn other(s: &str) -> Box<OsStr> {
        OsString::from(s).into_boxed_os_str()
    }
}
impl Other for Path {
    fn other(s: &str) -> Box<Path> {
        PathBuf::from(s).into_boxed_path()
    }
}
fn other<T: Other + ?Sized>(s: &str) -> Box<T> {
    T::other(s)
}
fn sink_c<F: EmplacableFn<CStr>>(e: Emplacable<CStr, F>, s: &str, ex: &mut Ex) {
    ex.arm();
    match s {
        "own" => {
            let v: CString = e.into();
            ex.out(&*v)
        }
        _ => sink(e, s, ex),
    }
}
fn sink_o<F: EmplacableFn<OsStr>>(e: Emplacable<OsStr, F>, s: &str, ex: &mut Ex) {
    ex.arm();
    match s {
        "own" => {
            let v: OsString = e.into();
            ex.out(&*v)
        }
        _ => sink(e, s, ex),
    }
}
fn sink_p<F: EmplacableFn<Path>>(e: Emplacable<Path, F>, s: &str, ex: &mut Ex) {
    ex.arm();
    match s {
        "own" => {
            let v: PathBuf = e.into();
            ex.out(&*v)
        }
        _ => sink(e, s, ex),
    }
}

/// Copy elements: no destructors, copied bytewise.
fn copies(src: &str, s: &str, ex: &mut Ex) {
    let vals: Vec<Cp> = quiet(|| (0..ex.n).map(|_| Cp(fresh() as u32 * 65537)).collect());
    ex.give(quiet(|| Show::comps(&*vals)), vals.len() * 4, 4);
    match src {
        "ref" => sink_slice(Emplacable::from(&*vals), s, ex),
        "iter" => {
            ex.claim = vals.len() as i64;
            let it = quiet(|| vals.clone());
            sink_slice(Emplacable::from_iter(it.into_iter().map(Emplacable::from)), s, ex)
        }
        _ => ex.na = true,
    }
    quiet(|| drop(vals));
}

// ---------------------------------------------------------------- by-value helpers

fn helper<T: Show + ?Sized>(x: T, s: &str, ex: &mut Ex) {
    ex.arm();
    match s {
        "bn" => {
            let b = box_new(x);
            ex.out(&*b)
        }
        "bp" => {
            let b = box_pin(x);
            ex.out(&*b)
        }
        "rn" => {
            let b = rc_new(x);
            let c = b.clone();
            ex.out(&*b);
            drop(b);
            drop(c);
        }
        "rp" => {
            let b = rc_pin(x);
            ex.out(&*b)
        }
        "an" => {
            let b = arc_new(x);
            let c = b.clone();
            ex.out(&*b);
            drop(b);
            drop(c);
        }
        "ap" => {
            let b = arc_pin(x);
            ex.out(&*b)
        }
        "push" => {
            let mut v: UnsizedVec<T> = UnsizedVec::new();
            v.push(x);
            ex.out(&v[0])
        }
        "wefp" => {
            // unwinds without using it
            with_emplacable_for(x, |_e| -> u32 { boom() });
        }
        "weff" => {
            // uses it, then unwinds
            with_emplacable_for(x, |e| -> u32 {
                let b = box_new_with(e);
                ex.out(&*b);
                drop(b);
                boom()
            });
        }
        "wefu" => {
            // unused
            let r = with_emplacable_for(x, |_e| 77u32);
            ex.same &= r == 77;
        }
        o => {
            let o = o.strip_prefix("wef:").unwrap_or("bad");
            let r = with_emplacable_for(x, |e| {
                sink(e, o, ex);
                78u32
            });
            ex.same &= r == 78;
        }
    }
}

fn helpers(ty: &str, src: &str, s: &str, ex: &mut Ex) {
    match (ty, src) {
        ("d", "box") => {
            let sh = ex.n;
            let b: Box<dyn Obj> = track(Cat::Arg, || Dyn::make(sh, 0));
            ex.give(quiet(|| b.comps()), size_of_val(&*b), align_of_val(&*b));
            helper::<dyn Obj>(*b, s, ex)
        }
        ("d", "uns") => with_shape2!(ex.n, V, {
            let (v, id) = quiet(V::mk);
            ex.give(quiet(|| vec![id]), size_of::<V>(), align_of::<V>());
            helper::<dyn Obj>(unsize!(v, (V) -> dyn Obj), s, ex)
        }),
        ("l2", "box") => {
            let n = ex.n;
            let b: Box<[V2]> = track(Cat::Arg, || Slice::<V2>::make(0, n));
            ex.give(quiet(|| Show::comps(&*b)), n * 2, 2);
            helper::<[V2]>(*b, s, ex)
        }
        ("l2", "uns") => {
            let (a, ids) = mkarr::<V2, 3>();
            ex.give(ids, 6, 2);
            helper::<[V2]>(unsize!(a, ([V2; 3]) -> [V2]), s, ex)
        }
        ("l16", "uns") => {
            let (a, ids) = mkarr::<V16, 2>();
            ex.give(ids, 32, 16);
            helper::<[V16]>(unsize!(a, ([V16; 2]) -> [V16]), s, ex)
        }
        ("t", "box") => {
            let n = ex.n;
            let b = track(Cat::Arg, || TailK::make(0, n));
            ex.give(quiet(|| Show::comps(&*b)), size_of_val(&*b), align_of_val(&*b));
            helper::<Tail<[V2]>>(*b, s, ex)
        }
        ("str", "box") => {
            let t = quiet(|| mkstr(ex.n));
            let b: Box<str> = track(Cat::Arg, || Box::from(&*t));
            ex.give(quiet(|| by(t.as_bytes())), t.len(), 1);
            quiet(|| drop(t));
            helper::<str>(*b, s, ex)
        }
        ("str", "lit") => {
            macro_rules! lit {
                ($l:literal) => {{
                    ex.give(quiet(|| by($l.as_bytes())), $l.len(), 1);
                    helper::<str>(by_value_str!($l), s, ex)
                }};
            }
            match ex.n % 6 {
                0 => lit!(""),
                1 => lit!("a"),
                2 => lit!("h\u{e9}llo w\u{f6}rld"),
                3 => lit!("0123456789abcdef0123456789abcdef0123456789abcdef0123456789abcdef0"),
                4 => lit!("\u{1d11e}\0x"),
                _ => lit!("plain"),
            }
        }
        ("v8", "val") => {
            let (v, id) = quiet(V8::mk);
            ex.give(quiet(|| vec![id]), 8, 8);
            helper::<V8>(v, s, ex)
        }
        ("z4", "val") => {
            let (v, id) = quiet(Z4::mk);
            ex.give(quiet(|| vec![id]), 0, 4);
            helper::<Z4>(v, s, ex)
        }
        ("z32", "val") => {
            let (v, id) = quiet(Z32::mk);
            ex.give(quiet(|| vec![id]), 0, 32);
            helper::<Z32>(v, s, ex)
        }
        ("v300", "val") => {
            let (v, id) = quiet(Tr::<300, A4>::mk);
            ex.give(quiet(|| vec![id]), 300, 4);
            helper::<Tr<300, A4>>(v, s, ex)
        }
        _ => ex.na = true,
    }
}

/// body: src,sink,n,m,fault
pub fn run(out: &mut Out, ep: u64, kind: &str, body: &str) {
    st().reset();
    with(|l| {
        *l = Log { drops: vec![], clones: vec![], dtor: 0, clone: 0, next: 1, asked: 0 };
    });
    out.pick();
    out.note(&format!("{ep} 0 emplacable"));
    let p: Vec<&str> = body.split(',').collect();
    let (f, fk) = p[4].split_once(':').map_or((p[4], 0), |(a, b)| (a, b.parse::<u64>().unwrap()));
    let (hlp, ty) = kind.split_once(':').map_or(("e", kind), |(a, b)| (a, b));
    let mut ex = Ex { n: p[2].parse().unwrap(), m: p[3].parse().unwrap(), f: f.into(), fk, same: true, claim: -1, ..Ex::default() };
    ex.calls = -1;
    let (src, s) = (p[0], p[1]);
    with(|l| {
        l.dtor = if f == "dtor" { fk as u32 } else { 0 };
        l.clone = if f == "clone" { fk as u32 } else { 0 };
        l.asked = 0;
    });
    match f {
        "alloc" => ex.alloc = Some((fk, false)),
        "allocs" => ex.alloc = Some((fk, true)),
        _ => (),
    }
    let exr = &mut ex;
    let r = catch_unwind(AssertUnwindSafe(|| {
        track(Cat::Lib, || match (hlp, ty) {
            ("h", _) => helpers(ty, src, s, exr),
            (_, "v8") => sized::<V8>(src, s, exr),
            (_, "v300") => sized::<Tr<300, A4>>(src, s, exr),
            (_, "z4") => sized::<Z4>(src, s, exr),
            (_, "z32") => sized::<Z32>(src, s, exr),
            (_, "l2") => slices::<V2>(src, s, exr),
            (_, "l16") => slices::<V16>(src, s, exr),
            (_, "l1") => slices::<Tr<1, A1>>(src, s, exr),
            (_, "lz") => slices::<Z4>(src, s, exr),
            (_, "lz32") => slices::<Z32>(src, s, exr),
            (_, "cp") => copies(src, s, exr),
            (_, "d") => dynamic(src, s, exr),
            _ => strings(ty, src, s, exr),
        })
    }));
    alloc::disarm();
    let res = if r.is_ok() { "ok" } else { "panic" };
    drop(r);
    let (dr, cls) = with(|l| {
        l.dtor = 0;
        l.clone = 0;
        (std::mem::take(&mut l.drops), std::mem::take(&mut l.clones))
    });
    if ex.na {
        return;
    }
    let asked = with(|l| l.asked);
    let rz = st().intact();
    let mem = jmem(&st().evs);
    st().evs.clear();
    if ex.clones {
        // the value to deliver consists of the clones
        for d in ex.x.iter_mut() {
            for c in d.c.iter_mut() {
                *c = cls.iter().find(|k| k.0 == *c).map_or(-4, |k| k.1)
            }
        }
    }
    let track_ids = !matches!(ty, "str" | "cstr" | "os" | "path" | "cp");
    // the source a borrowed value came from, or what else was in the vec, goes now
    let keep = std::mem::take(&mut ex.keep);
    drop(keep);
    let kd = with(|l| std::mem::take(&mut l.drops));
    let mem2 = jmem(&st().evs);
    out.line(&format!("{{\"t\":\"new\",\"ep\":{ep},\"k\":\"{kind}\",\"pv\":\"e\",\"tr\":{}}}", track_ids as u8));
    let cl2: Vec<String> = cls.iter().map(|c| format!("[{},{}]", c.0, c.1)).collect();
    let ann: Vec<i64> = ex.ann.to_vec();
    out.line(&format!(
        "{{\"t\":\"emp\",\"h\":{},\"ty\":\"{ty}\",\"src\":\"{src}\",\"sink\":\"{s}\",\"n\":{},\"m\":{},\"f\":\"{f}\",\"fk\":{fk},\"res\":\"{res}\",\"tr\":{},\"x\":{},\"out\":{},\"claim\":{},\"calls\":{},\"ask\":{},\"ann\":{},\"dr\":{},\"kd\":{},\"cl\":[{}],\"same\":{},\"rz\":{},\"mem\":{mem},\"mem2\":{mem2}}}",
        (hlp == "h") as u8, ex.n, ex.m, track_ids as u8, jdesc(&ex.x), jdesc(&ex.out), ex.claim, ex.calls, asked, jints(&ann), jints(&dr), jints(&kd),
        cl2.join(","), ex.same as u8, rz as u8
    ));
    out.line("{\"t\":\"end\",\"lv\":[],\"la\":[],\"mem\":[]}");
    st().evs.clear();
    out.flush();
}
