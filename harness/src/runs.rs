//! Long runs of additions at the end.
use crate::alloc::{Cat, st, track};
use crate::kinds::*;
use crate::val::*;
use crate::world::*;
use emplacable::Emplacable;
use std::panic::{AssertUnwindSafe, catch_unwind};
use unsized_vec::UnsizedVec;

/// body: how,count,shape,ncomp,start,chunk
pub fn run<K: Kind>(out: &mut Out, ep: u64, kind: &str, body: &str) {
    st().reset();
    with(|l| {
        *l = Log { drops: vec![], clones: vec![], dtor: 0, clone: 0, next: 1, asked: 0 };
    });
    out.pick();
    out.note(&format!("{ep} 0 run"));
    out.line(&format!("{{\"t\":\"new\",\"ep\":{ep},\"k\":\"run:{kind}\",\"pv\":\"r\",\"tr\":0}}"));
    let p: Vec<&str> = body.split(',').collect();
    let n = |k: usize| p[k].parse::<usize>().unwrap();
    let (how, count, sh, nc, start, chunk) = (p[0], n(1), n(2), n(3), n(4), n(5).max(1));
    let mut total = 0usize;
    let mut ops = 0usize;
    let mut v: UnsizedVec<K::T> = UnsizedVec::new();
    let (mut al0, mut first) = (1, 0);
    let (mut al, mut raises) = (v.align(), 0usize);
    // how things stood whenever something was allocated, thinned out
    let mut pts = String::new();
    let (mut last, mut wall) = (0usize, 0usize);
    let mut acc = |v: &UnsizedVec<K::T>| {
        let s = st();
        let before = total;
        for e in &s.evs {
            if e.lib && (e.t == b'A' || e.t == b'R') {
                total += if e.t == b'A' { e.s } else { e.z };
                ops += 1
            }
        }
        s.evs.clear();
        if v.align() != al {
            al = v.align();
            raises += 1
        }
        if total != before && v.len() >= last + last / 8 {
            last = v.len().max(1);
            wall += 1;
            if wall > 1 {
                pts.push(',');
            }
            pts.push_str(&format!("[{},{},{},{}]", v.len(), cl(v.byte_len()), cl(total), raises));
        }
    };
    let r = catch_unwind(AssertUnwindSafe(|| {
        track(Cat::Lib, || {
            match start {
                0 => (),
                1 => v = UnsizedVec::with_capacity(5),
                2 => v = UnsizedVec::with_capacity_bytes(3, 40),
                3 => v.reserve_exact(1),
                5 => {
                    (0..20).for_each(|_| v.push_with(Emplacable::from(K::make(sh % 22, 1))));
                    (0..15).for_each(|_| drop(v.pop_into()));
                    v.shrink_to_fit()
                }
                6 => v = (0..9).map(|k| Emplacable::from(K::make(sh % 22, k % 3))).collect(),
                7 => {
                    let mut cx = Cx::default();
                    if let Some(w) = K::from_sized(6, 6, sh % 9, &mut cx) {
                        v = w
                    }
                }
                8 => {
                    (0..5).for_each(|_| v.push_with(Emplacable::from(K::make(sh % 22, 2))));
                    if let Some(w) = K::clone(&v) {
                        v = w
                    }
                }
                _ => v = UnsizedVec::with_capacity_bytes_align(2, 64, 32),
            }
            acc(&v);
            al0 = v.align();
            let shape = |k: usize| if sh == 99 { (k / 3) % 22 } else { sh };
            let comps = |k: usize| match nc {
                9 => k % 4,
                // mostly small, sometimes large
                10 => if k % 61 == 60 { 120 } else { k % 3 },
                // ever larger
                11 => (k / 40).min(250),
                n => n,
            };
            let make = |k: usize| track(Cat::Arg, || K::make(shape(k), comps(k)));
            first = v.len();
            let mut k = 0;
            let mut cx = Cx::default();
            while k < count {
                let h = if how == "mix" { ["push", "val", "ins", "insv", "ext", "extl"][(k * 2654435761 >> 7) % 6] } else { how };
                match h {
                    "push" => v.push_with(Emplacable::from(make(k))),
                    "val" => v.push(*make(k)),
                    "uns" => {
                        K::add(&mut v, None, "uns", shape(k), comps(k).min(7), &mut cx);
                        cx = Cx::default()
                    }
                    "ins" => v.insert_with(v.len(), Emplacable::from(make(k))),
                    "insv" => v.insert(v.len(), *make(k)),
                    "alt" => {
                        if k % 2 == 0 {
                            v.push(*make(k))
                        } else {
                            v.push_with(Emplacable::from(make(k)))
                        }
                    }
                    "ext" | "extl" => {
                        let mut left = chunk.min(count - k);
                        let hint = if h == "ext" { left } else { left.min(1) };
                        k += left - 1;
                        struct It<I>(I, usize);
                        impl<I: Iterator> Iterator for It<I> {
                            type Item = I::Item;
                            fn next(&mut self) -> Option<I::Item> {
                                self.0.next()
                            }
                            fn size_hint(&self) -> (usize, Option<usize>) {
                                (self.1, None)
                            }
                        }
                        v.extend(It(
                            std::iter::from_fn(|| {
                                if left == 0 {
                                    return None;
                                }
                                left -= 1;
                                Some(Emplacable::from(make(left)))
                            }),
                            hint,
                        ))
                    }
                    "res" => {
                        v.reserve(1);
                        v.push_with(Emplacable::from(make(k)))
                    }
                    "resb" => {
                        let b = make(k);
                        v.reserve_capacity_bytes_align(1, size_of_val(&*b), align_of_val(&*b));
                        v.push_with(Emplacable::from(b))
                    }
                    o => panic!("unknown run {o}"),
                }
                k += 1;
                acc(&v);
            }
        })
    }));
    let ok = r.is_ok();
    let rz = st().intact();
    out.line(&format!(
        "{{\"t\":\"run\",\"how\":\"{how}\",\"count\":{count},\"len\":{},\"bl\":{},\"al\":{},\"al0\":{al0},\"cap\":{},\"bc\":{},\"tot\":{},\"ops\":{},\"raises\":{raises},\"pts\":[{pts}],\"ok\":{},\"rz\":{}}}",
        cl(v.len() - first), cl(v.byte_len()), cl(v.align()), cl(v.capacity()), cl(v.byte_capacity()), cl(total), ops, ok as u8, rz as u8
    ));
    drop(v);
    st().evs.clear();
    out.line("{\"t\":\"end\",\"lv\":[],\"la\":[],\"mem\":[]}");
    out.flush();
}
