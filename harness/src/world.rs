//! Interprets operation scripts against real vecs and records what happened.
use crate::alloc::{self, Cat, quiet, st, track};
use crate::kinds::*;
use crate::val::*;
use emplacable::*;
use std::fmt::Write as _;
use std::io::Write as _;
use std::marker::PhantomData;
use std::panic::{AssertUnwindSafe, catch_unwind};
use unsized_vec::{UnsizedVec, unsized_vec};

pub const HUGE: usize = 1_000_000_000;
pub fn cl(n: usize) -> usize {
    n.min(HUGE)
}

pub struct Out {
    pub files: Vec<std::io::BufWriter<std::fs::File>>,
    pub counts: Vec<u64>,
    pub cur: usize,
    pub side: std::fs::File,
    pub events: u64,
}
impl Out {
    pub fn line(&mut self, s: &str) {
        let f = &mut self.files[self.cur];
        f.write_all(s.as_bytes()).unwrap();
        f.write_all(b"\n").unwrap();
        self.counts[self.cur] += 1;
        self.events += 1;
    }
    pub fn pick(&mut self) {
        self.cur = (0..self.counts.len()).min_by_key(|&i| self.counts[i]).unwrap();
    }
    pub fn flush(&mut self) {
        let c = self.cur;
        self.files[c].flush().unwrap()
    }
    pub fn note(&self, s: &str) {
        use std::os::unix::fs::FileExt;
        let b = format!("{s:<80}");
        self.side.write_all_at(b.as_bytes(), 0).unwrap();
    }
}

#[derive(Clone, Debug, Default)]
pub struct Op {
    pub name: String,
    pub v: usize,
    pub w: usize,
    pub i: i64,
    pub n: i64,
    pub b: i64,
    pub a: i64,
    pub sh: usize,
    pub nc: usize,
    pub src: String,
    pub f: String,
    pub fk: u64,
}

pub fn parse_op(s: &str) -> Op {
    let p: Vec<&str> = s.split(',').collect();
    let num = |k: usize| p.get(k).and_then(|x| x.parse::<i64>().ok()).unwrap_or(0);
    let f = p.get(10).copied().unwrap_or("none");
    let (f, fk) = f.split_once(':').map_or((f, 0), |(a, b)| (a, b.parse().unwrap_or(1)));
    Op {
        name: p[0].into(),
        v: num(1) as usize,
        w: num(2) as usize,
        i: num(3),
        n: num(4),
        b: num(5),
        a: num(6),
        sh: num(7) as usize,
        nc: num(8) as usize,
        src: p.get(9).copied().unwrap_or("").into(),
        f: f.into(),
        fk,
    }
}

fn ints(o: &mut String, v: &[i64]) {
    o.push('[');
    for (k, x) in v.iter().enumerate() {
        if k > 0 {
            o.push(',')
        }
        write!(o, "{x}").unwrap();
    }
    o.push(']');
}
pub fn jints(v: &[i64]) -> String {
    let mut o = String::new();
    ints(&mut o, v);
    o
}
pub fn jdesc(v: &[Desc]) -> String {
    let mut o = String::from("[");
    for (k, d) in v.iter().enumerate() {
        if k > 0 {
            o.push(',')
        }
        o.push_str("{\"c\":");
        ints(&mut o, &d.c);
        write!(o, ",\"s\":{},\"a\":{},\"k\":{}}}", cl(d.s), cl(d.a), d.ok as u8).unwrap();
    }
    o.push(']');
    o
}
pub fn jmem(evs: &[alloc::Ev]) -> String {
    let mut o = String::from("[");
    for (k, e) in evs.iter().enumerate() {
        if k > 0 {
            o.push(',')
        }
        write!(
            o,
            "{{\"t\":\"{}\",\"i\":{},\"s\":{},\"a\":{},\"j\":{},\"z\":{},\"l\":{}}}",
            e.t as char, e.i, cl(e.s), cl(e.a), e.j, cl(e.z), e.lib as u8
        )
        .unwrap();
    }
    o.push(']');
    o
}

pub struct World<K: Kind> {
    pub s: [Option<UnsizedVec<K::T>>; 3],
}

/// Where an address lies: (block id, offset), or (0, 0).
pub fn place(p: usize, size: usize) -> Option<(usize, usize)> {
    let s = st();
    let k = s.find(p)?;
    let b = &s.blocks[k];
    (b.live && p + size <= b.addr + b.size).then_some((k + 1, p - b.addr))
}

pub fn elem_json<T: ?Sized>(o: &mut String, r: &T, comps: fn(&T) -> Vec<i64>) {
    let p = r as *const T as *const u8 as usize;
    let (sz, al) = (size_of_val(r), align_of_val(r));
    let pl = place(p, sz);
    let c = if sz > 0 && pl.is_none() { vec![-2] } else { comps(r) };
    let (b, off) = pl.unwrap_or((0, 0));
    o.push_str("{\"c\":");
    ints(o, &c);
    write!(o, ",\"s\":{},\"a\":{},\"b\":{b},\"o\":{off},\"m\":{}}}", cl(sz), cl(al), p % 256).unwrap();
}

fn key<T: ?Sized>(r: &T) -> (usize, usize) {
    (r as *const T as *const u8 as usize, size_of_val(r))
}

pub fn observe<K: Kind>(v: &mut UnsizedVec<K::T>) -> String {
    let len = v.len();
    let mut o = String::new();
    write!(
        o,
        "{{\"ex\":1,\"len\":{},\"emp\":{},\"cap\":{},\"bc\":{},\"bl\":{},\"al\":{},\"e\":[",
        cl(len),
        v.is_empty() as u8,
        cl(v.capacity()),
        cl(v.byte_capacity()),
        cl(v.byte_len()),
        cl(v.align())
    )
    .unwrap();
    let n = len.min(300);
    let mut keys = Vec::new();
    for i in 0..n {
        if i > 0 {
            o.push(',')
        }
        match v.get(i) {
            Some(r) => {
                keys.push(key(r));
                elem_json(&mut o, r, K::comps)
            }
            None => o.push_str("{\"c\":[-3],\"s\":0,\"a\":1,\"b\":0,\"o\":0,\"m\":0}"),
        }
    }
    let mut it = len <= 300;
    it &= v.iter().map(|r| key(r)).take(310).eq(keys.iter().copied());
    it &= v.iter_mut().map(|r| key(r)).take(310).eq(keys.iter().copied());
    it &= (0..n).all(|i| v.get_mut(i).map(|r| key(r)) == Some(keys[i]));
    it &= (0..n).all(|i| key(&v[i]) == keys[i] && key(&mut v[i]) == keys[i]);
    it &= (0..n).all(|i| unsafe { key(v.get_unchecked(i)) == keys[i] && key(v.get_unchecked_mut(i)) == keys[i] });
    let gn = v.get(len).is_none() && v.get_mut(len).is_none();
    write!(o, "],\"it\":{},\"gn\":{}}}", it as u8, gn as u8).unwrap();
    o
}

pub fn caught(e: Box<dyn std::any::Any + Send>) {
    drop(e)
}

/// Receives an emplacable through the harness's own emplacers.
fn own_recv<T: ?Sized, F: EmplacableFn<T>>(e: Emplacable<T, F>, s: &str, comps: fn(&T) -> Vec<i64>, cx: &mut Cx) -> bool {
    let f = e.into_fn();
    let go = |em: &mut EmplacerFn<'_, T>, f: F| {
        // SAFETY: the emplacers below follow the protocol
        f(unsafe { Emplacer::from_fn(em) })
    };
    match s {
        "null" => go(&mut |_, _, g| g(std::ptr::null_mut()), f),
        "none" => go(&mut |_, _, _| (), f),
        "pan0" => go(&mut |_, _, _| boom(), f),
        "mem" => go(
            &mut |l, m, g| {
                let p = if l.size() == 0 { l.align() as *mut u8 } else { track(Cat::Arg, || unsafe { std::alloc::alloc(l) }) };
                g(p as *mut PhantomData<T>);
                let w: *mut T = std::ptr::from_raw_parts_mut(p, m);
                quiet(|| {
                    let d = desc(unsafe { &*w }, comps);
                    let ok = d.ok && d.s == l.size() && d.a == l.align();
                    cx.out.push(Desc { ok, ..d })
                });
                unsafe { std::ptr::drop_in_place(w) };
                if l.size() > 0 {
                    unsafe { std::alloc::dealloc(p, l) }
                }
            },
            f,
        ),
        _ => return false,
    }
    true
}

/// Receivers for anything leaving a vec.
pub fn receive<K: Kind, F: EmplacableFn<K::T>>(
    e: Emplacable<K::T, F>,
    s: &str,
    w: Option<&mut Option<UnsizedVec<K::T>>>,
    wi: usize,
    cx: &mut Cx,
) {
    fn out<T: ?Sized>(t: &T, comps: fn(&T) -> Vec<i64>, cx: &mut Cx) {
        quiet(|| cx.out.push(desc(t, comps)))
    }
    match s {
        "drop" => drop(e),
        "forget" => e.forget(),
        // never run at all: leaked, or taken apart and its closure dropped
        "keep" => std::mem::forget(e),
        "fn" => drop(e.into_fn()),
        "box" => {
            let b = box_new_with(e);
            out(&*b, K::comps, cx)
        }
        "pin" => {
            let b = box_pin_with(e);
            out(&*b, K::comps, cx)
        }
        "rc" => {
            let b = rc_new_with(e);
            out(&*b, K::comps, cx)
        }
        "rcp" => {
            let b = rc_pin_with(e);
            out(&*b, K::comps, cx)
        }
        "arc" => {
            let b = arc_new_with(e);
            out(&*b, K::comps, cx)
        }
        "arcp" => {
            let b = arc_pin_with(e);
            out(&*b, K::comps, cx)
        }
        "rci" => {
            let b: std::rc::Rc<K::T> = e.into();
            out(&*b, K::comps, cx)
        }
        "arci" => {
            let b: std::sync::Arc<K::T> = e.into();
            out(&*b, K::comps, cx)
        }
        "slot" => w.unwrap().as_mut().unwrap().push_with(e),
        "slotins" => w.unwrap().as_mut().unwrap().insert_with(wi, e),
        "null" | "none" | "pan0" | "mem" => {
            own_recv(e, s, K::comps, cx);
        }
        _ => {
            if let Err(e) = K::recv(e, s, cx) {
                let b = box_new_with(e);
                out(&*b, K::comps, cx)
            }
        }
    }
}

impl<K: Kind> World<K> {
    pub fn run(out: &mut Out, ep: u64, kind: &str, ops: &[Op]) {
        let mut w = World::<K> { s: [None, None, None] };
        st().reset();
        with(|l| {
            l.drops.clear();
            l.clones.clear();
            l.next = 1;
            l.dtor = 0;
            l.clone = 0;
        });
        out.pick();
        out.line(&format!(
            "{{\"t\":\"new\",\"ep\":{ep},\"k\":\"{kind}\",\"pv\":\"{}\",\"tr\":{},\"z\":{},\"ld\":\"{}\"}}",
            K::PROV,
            K::TRACK as u8,
            (kind == "l0") as u8,
            if ops.iter().any(|o| o.name == "clone") { "c" } else { "" },
        ));
        for (k, op) in ops.iter().enumerate() {
            out.note(&format!("{ep} {k} {}", op.name));
            w.step(out, op);
        }
        for v in 1..=3 {
            if w.s[v - 1].is_some() {
                out.note(&format!("{ep} {} drop", ops.len()));
                let op = Op { name: "drop".into(), v, f: "none".into(), ..Op::default() };
                w.step(out, &op);
            }
        }
        let (mut l, mut a) = (vec![], vec![]);
        for (k, b) in st().blocks.iter().enumerate() {
            if b.live {
                if b.lib { &mut l } else { &mut a }.push(k as i64 + 1)
            }
        }
        let m = jmem(&st().evs);
        out.line(&format!("{{\"t\":\"end\",\"lv\":{},\"la\":{},\"mem\":{m}}}", jints(&l), jints(&a)));
        out.flush();
    }

    fn step(&mut self, out: &mut Out, op: &Op) {
        let s = &mut self.s;
        let vi = op.v.clamp(1, 3) - 1;
        let wi = op.w.clamp(1, 3) - 1;
        let creates = matches!(&*op.name, "new" | "wc" | "wcb" | "wcba" | "default" | "from" | "collect" | "mac");
        if !creates && s[vi].is_none() {
            return;
        }
        if op.name == "clone" && (wi == vi || s[wi].is_some() != (op.src == "from")) {
            return;
        }
        if creates && s[vi].is_some() {
            return;
        }
        let (len, cap, bl, bc) = s[vi].as_ref().map_or((0, 0, 0, 0), |v| (v.len(), v.capacity(), v.byte_len(), v.byte_capacity()));
        let idx = match op.i {
            -1 => len,
            -2 => len + 1,
            -3 => usize::MAX,
            -4 => usize::MAX / 2,
            // positions that look valid to whoever drops their upper bits
            -5 => 1 << 32,
            -6 => (1 << 32) + len.saturating_sub(1),
            -7 => (1 << 63) + len.saturating_sub(1),
            -8 => (1 << 61) + len / 2,
            k if k >= 2000 => (k - 2000) as usize % (len + 1),
            k if k >= 1000 => (k - 1000) as usize % len.max(1),
            k => k as usize,
        };
        let num = |k: i64, spare: usize, used: usize| match k {
            -1 => isize::MAX as usize,
            -2 => usize::MAX,
            -3 => isize::MAX as usize + 1,
            -4 => 1usize << 40,
            -5 => spare,
            -6 => spare.saturating_add(1),
            -7 => used,
            -8 => usize::MAX - used,
            -9 => isize::MAX as usize - used,
            k => k as usize,
        };
        let n = num(op.n, cap.saturating_sub(len), len);
        let b = num(op.b, bc.saturating_sub(bl), bl);
        let a = op.a as usize;
        let mut src = op.src.clone();
        if src == "slot" || src == "slotins" {
            if wi == vi || s[wi].is_none() {
                src = "box".into()
            }
        }
        let w_i = s[wi].as_ref().map_or(0, |v| if v.is_empty() { 0 } else { op.n.max(0) as usize % (v.len() + 1) });

        // arguments made beforehand
        let needs_box = matches!(&*op.name, "push" | "ins") && matches!(&*src, "val" | "box" | "cus");
        let mut arg: Option<Box<K::T>> = needs_box.then(|| track(Cat::Arg, || K::make(op.sh, op.nc)));
        let many = if op.name == "mac" {
            if op.src == "uns" { 0 } else { op.n.clamp(0, 5) as usize }
        } else if matches!(&*op.name, "ext" | "collect") { op.n.max(0) as usize } else { 0 };
        let mut args: Vec<Box<K::T>> = (0..many).map(|k| track(Cat::Arg, || K::make(op.sh + k * op.nc % 7, (op.nc + k) % 5))).collect();
        args.reverse();
        let mut cx = Cx { f: op.f.clone(), fk: op.fk, ..Cx::default() };
        for b in arg.iter().chain(args.iter().rev()) {
            cx.x.push(desc(&**b, K::comps))
        }
        with(|l| {
            l.drops.clear();
            l.clones.clear();
            l.dtor = if op.f == "dtor" { op.fk as u32 } else { 0 };
            l.clone = if op.f == "clone" { op.fk as u32 } else { 0 };
        });
        match &*op.f {
            "alloc" => alloc::arm(op.fk, false),
            "allocs" => alloc::arm(op.fk, true),
            _ => (),
        }
        let mut res = "ok";
        // what an error says: 1 the capacity would overflow, 2 the allocator refused
        let mut er = 0;
        let over = unsized_vec::UnsizedVec::<u8>::new().try_reserve(usize::MAX).err();
        st().oom = None;
        let cxr = &mut cx;
        let srcr = &src;
        let r = catch_unwind(AssertUnwindSafe(|| {
            track(Cat::Lib, || -> &'static str {
                let mut ok = |r: Result<(), unsized_vec::TryReserveError>| match r {
                    Ok(()) => "ok",
                    Err(e) => {
                        er = if over.as_ref() == Some(&e) { 1 } else { 2 };
                        "err"
                    }
                };
                match &*op.name {
                    "new" => s[vi] = Some(UnsizedVec::new()),
                    "default" => s[vi] = Some(K::default().unwrap_or_else(UnsizedVec::new)),
                    "wc" => s[vi] = Some(UnsizedVec::with_capacity(n)),
                    "wcb" => s[vi] = Some(UnsizedVec::with_capacity_bytes(n, b)),
                    "wcba" => s[vi] = Some(UnsizedVec::with_capacity_bytes_align(n, b, a)),
                    "from" => match K::from_sized(n, n + b, op.sh, cxr) {
                        Some(v) => s[vi] = Some(v),
                        None => return "na",
                    },
                    "clone" => {
                        let (l, r) = (vi.min(wi), vi.max(wi));
                        let (x, y) = s.split_at_mut(r);
                        let (from, to) = if vi < wi { (&x[l], &mut y[0]) } else { (&y[0], &mut x[l]) };
                        if srcr == "from" {
                            if !K::clone_from(to.as_mut().unwrap(), from.as_ref().unwrap()) {
                                return "na";
                            }
                            return "ok";
                        }
                        match K::clone(from.as_ref().unwrap()) {
                            Some(c) => *to = Some(c),
                            None => return "na",
                        }
                    }
                    "rt" => {
                        let v = s[vi].take().unwrap();
                        s[vi] = Some(K::round_trip(v, cxr))
                    }
                    "push" | "ins" => {
                        let v = s[vi].as_mut().unwrap();
                        let i = (op.name == "ins").then_some(idx);
                        match &**srcr {
                            "val" => {
                                let b = arg.take().unwrap();
                                match i {
                                    None => v.push(*b),
                                    Some(i) => v.insert(i, *b),
                                }
                            }
                            "box" => put(v, i, Emplacable::from(arg.take().unwrap())),
                            "cus" => {
                                let f = quiet(|| op.f.clone());
                                put(v, i, custom(arg.take().unwrap(), f))
                            }
                            o => {
                                if !K::add(v, i, o, op.sh, op.nc, cxr) {
                                    return "na";
                                }
                            }
                        }
                    }
                    "pop" | "rem" => {
                        let (mut v, mut wv) = (None, None);
                        for (k, x) in s.iter_mut().enumerate() {
                            if k == vi {
                                v = Some(x)
                            } else if k == wi {
                                wv = Some(x)
                            }
                        }
                        let v = v.unwrap().as_mut().unwrap();
                        if op.name == "pop" {
                            match v.pop_into() {
                                None => return "none",
                                Some(e) => receive::<K, _>(e, srcr, wv, w_i, cxr),
                            }
                        } else {
                            receive::<K, _>(v.remove_into(idx), srcr, wv, w_i, cxr)
                        }
                    }
                    "set" => {
                        let v = s[vi].as_mut().unwrap();
                        if idx >= v.len() {
                            return "na";
                        }
                        let r: &mut K::T = match &**srcr {
                            "idx" => &mut v[idx],
                            "it" => v.iter_mut().nth(idx).unwrap(),
                            "itb" => {
                                let k = v.len() - 1 - idx;
                                v.iter_mut().nth_back(k).unwrap()
                            }
                            "for" => v.into_iter().nth(idx).unwrap(),
                            "unc" => unsafe { v.get_unchecked_mut(idx) },
                            _ => v.get_mut(idx).unwrap(),
                        };
                        let c = K::replace(r);
                        cxr.give(c, size_of_val(r), align_of_val(r));
                    }
                    "get" => {
                        let v = s[vi].as_mut().unwrap();
                        let r: Option<&K::T> = match &**srcr {
                            "idx" => Some(&v[idx]),
                            "idxm" => Some(&mut v[idx]),
                            "getm" => v.get_mut(idx).map(|x| &*x),
                            _ => v.get(idx),
                        };
                        match r {
                            None => return "none",
                            Some(r) => quiet(|| cxr.out.push(desc(r, K::comps))),
                        }
                    }
                    "ext" | "collect" => {
                        let lo = op.a.max(0) as usize;
                        let f = op.f == "iter";
                        let fk = op.fk as usize;
                        let mut k = 0;
                        struct It<I>(I, usize);
                        impl<I: Iterator> Iterator for It<I> {
                            type Item = I::Item;
                            fn next(&mut self) -> Option<I::Item> {
                                self.0.next()
                            }
                            fn size_hint(&self) -> (usize, Option<usize>) {
                                (self.1, None)
                            }
                        }
                        let argsr = &mut args;
                        let it = It(
                            std::iter::from_fn(|| {
                                k += 1;
                                if f && k == fk {
                                    boom()
                                }
                                argsr.pop().map(Emplacable::from)
                            }),
                            if op.b == 1 { lo } else { many },
                        );
                        if op.name == "ext" {
                            s[vi].as_mut().unwrap().extend(it)
                        } else {
                            s[vi] = Some(it.collect())
                        }
                    }
                    "mac" => {
                        let a = &mut args;
                        let mut nx = || a.pop().unwrap();
                        s[vi] = Some(match (&**srcr, many) {
                            ("uns", _) => match K::mac(n, op.sh, op.nc, cxr) {
                                Some(v) => v,
                                None => return "na",
                            },
                            (_, 0) => unsized_vec![],
                            ("box", 1) => unsized_vec![Emplacable::from(nx())],
                            ("box", 2) => unsized_vec![Emplacable::from(nx()), Emplacable::from(nx())],
                            ("box", 3) => unsized_vec![Emplacable::from(nx()), Emplacable::from(nx()), Emplacable::from(nx()),],
                            (_, 1) => unsized_vec![*nx()],
                            (_, 2) => unsized_vec![*nx(), Emplacable::from(nx())],
                            (_, 3) => unsized_vec![Emplacable::from(nx()), *nx(), *nx()],
                            (_, 4) => unsized_vec![*nx(), Emplacable::from(nx()), *nx(), *nx(),],
                            _ => unsized_vec![*nx(), *nx(), Emplacable::from(nx()), Emplacable::from(nx()), *nx()],
                        })
                    }
                    "drop" => drop(s[vi].take()),
                    o => {
                        let v = s[vi].as_mut().unwrap();
                        match o {
                            "res" => v.reserve(n),
                            "rese" => v.reserve_exact(n),
                            "resb" => v.reserve_capacity_bytes(n, b),
                            "reseb" => v.reserve_exact_capacity_bytes(n, b),
                            "resba" => v.reserve_capacity_bytes_align(n, b, a),
                            "reseba" => v.reserve_exact_capacity_bytes_align(n, b, a),
                            "tres" => return ok(v.try_reserve(n)),
                            "trese" => return ok(v.try_reserve_exact(n)),
                            "tresb" => return ok(v.try_reserve_capacity_bytes(n, b)),
                            "treseb" => return ok(v.try_reserve_exact_capacity_bytes(n, b)),
                            "tresba" => return ok(v.try_reserve_capacity_bytes_align(n, b, a)),
                            "treseba" => return ok(v.try_reserve_exact_capacity_bytes_align(n, b, a)),
                            "stf" => v.shrink_to_fit(),
                            "st" => v.shrink_to(n),
                            "stb" => v.shrink_capacity_bytes_to(n, b),
                            "stba" => v.shrink_capacity_bytes_align_to(n, b, a),
                            _ => return "na",
                        }
                    }
                }
                "ok"
            })
        }));
        alloc::disarm();
        match r {
            Ok(x) => res = x,
            Err(e) => {
                caught(e);
                res = if res == "ok" { "panic" } else { res };
            }
        }
        let (dr, cls) = with(|l| {
            l.dtor = 0;
            l.clone = 0;
            (std::mem::take(&mut l.drops), std::mem::take(&mut l.clones))
        });
        let evs: Vec<alloc::Ev> = st().evs.clone();
        st().evs.clear();
        let om = match st().oom.take() {
            None => String::new(),
            Some(l) => format!("[{},{}]", cl(l.size()), cl(l.align())),
        };
        let rz = st().intact();
        // what the harness still holds of the arguments
        let left: Vec<i64> = arg.iter().chain(args.iter().rev()).flat_map(|b| K::comps(b)).collect();
        let mut ps = String::from("[");
        for k in 0..3 {
            if k > 0 {
                ps.push(',')
            }
            match &mut s[k] {
                None => ps.push_str("{\"ex\":0}"),
                Some(v) => {
                    let o = catch_unwind(AssertUnwindSafe(|| observe::<K>(v)));
                    match o {
                        Ok(o) => ps.push_str(&o),
                        Err(_) => ps.push_str("{\"ex\":2}"),
                    }
                }
            }
        }
        ps.push(']');
        if cx.from_clones {
            let mut k = cls.iter().map(|c| c.1);
            for d in cx.x.iter_mut() {
                for c in d.c.iter_mut() {
                    *c = k.next().unwrap_or(-4)
                }
            }
        }
        if res == "na" {
            return;
        }
        let cls: Vec<String> = cls.iter().map(|c| format!("[{},{}]", c.0, c.1)).collect();
        out.line(&format!(
            "{{\"t\":\"op\",\"op\":\"{}\",\"v\":{},\"w\":{},\"i\":{},\"n\":{},\"b\":{},\"a\":{},\"src\":\"{}\",\"f\":\"{}\",\"fk\":{},\"res\":\"{}\",\"x\":{},\"out\":{},\"dr\":{},\"lf\":{},\"cl\":[{}],\"mem\":{},\"rz\":{},\"wi\":{},\"er\":{},\"om\":[{}],\"ps\":{}}}",
            op.name, vi + 1, wi + 1, cl(idx), cl(n), cl(b), cl(a), src, op.f, op.fk, res,
            jdesc(&cx.x), jdesc(&cx.out), jints(&dr), jints(&left), cls.join(","), jmem(&evs), rz as u8, w_i, er, om, ps
        ));
        drop(arg);
        drop(args);
        drop(cx);
        with(|l| {
            l.drops.clear();
        });
    }
}
