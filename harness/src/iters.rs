//! Iterator sessions: a vec, one iterator, a script of calls on it.
use crate::alloc::st;
use crate::kinds::*;
use crate::val::*;
use crate::world::*;
use std::panic::{AssertUnwindSafe, catch_unwind};
use emplacable::Emplacable;
use unsized_vec::UnsizedVec;

/// What a session does with each reference: remembers which element it was.
struct Rec {
    keys: Vec<(usize, usize)>,
    base: Vec<Vec<i64>>,
    /// yields of the current call: the positions whose place and contents match
    y: Vec<Vec<i64>>,
}
impl Rec {
    fn see<T: ?Sized>(&mut self, t: &T, comps: fn(&T) -> Vec<i64>) {
        let key = (t as *const T as *const u8 as usize, size_of_val(t));
        let known = self.keys.iter().any(|k| *k == key);
        let c = if key.1 > 0 && place(key.0, key.1).is_none() || key.0 % align_of_val(t) != 0 { vec![-2] } else { comps(t) };
        let m = (0..self.keys.len()).filter(|&p| known && self.keys[p] == key && self.base[p] == c).map(|p| p as i64).collect();
        self.y.push(m)
    }
}

trait AsRefT<T: ?Sized> {
    fn r(&self) -> &T;
}
impl<T: ?Sized> AsRefT<T> for &T {
    fn r(&self) -> &T {
        self
    }
}
impl<T: ?Sized> AsRefT<T> for &mut T {
    fn r(&self) -> &T {
        self
    }
}

fn num(s: &str) -> usize {
    match s {
        "max" => usize::MAX,
        "maxm" => usize::MAX - 1,
        "w32" => 1 << 32,
        "w33" => (1 << 33) + 1,
        "w60" => 1 << 60,
        "half" => isize::MAX as usize,
        s => s.parse().unwrap(),
    }
}

/// Runs the script; returns the JSON of the results and the references that came out.
fn session<T: ?Sized, I>(mut it: I, ops: &[&str], rec: &mut Rec, comps: fn(&T) -> Vec<i64>) -> (String, Vec<I::Item>)
where
    I: DoubleEndedIterator + ExactSizeIterator,
    I::Item: AsRefT<T>,
{
    let mut held: Vec<I::Item> = vec![];
    let mut js: Vec<String> = vec![];
    let mut gone = false;
    let mut itr = Some(&mut it);
    for op in ops {
        if gone {
            break;
        }
        let (name, arg) = op.split_once(',').unwrap_or((op, "0"));
        let k = num(arg);
        rec.y.clear();
        let i = itr.take().unwrap();
        let mut q: i64 = 0;
        let mut one = |x: Option<I::Item>, rec: &mut Rec, held: &mut Vec<I::Item>| match x {
            None => 0,
            Some(x) => {
                rec.see(x.r(), comps);
                held.push(x);
                1
            }
        };
        let mut calls = 0usize;
        // "p.": the closure unwinds where it would have stopped
        let (base, pan) = name.strip_prefix("p.").map_or((name, false), |b| (b, true));
        let stop = |n: usize| {
            if pan && n > k {
                boom()
            }
        };
        let unwound = catch_unwind(AssertUnwindSafe(|| match base {
            "nx" => q = one(i.next(), rec, &mut held),
            "nb" => q = one(i.next_back(), rec, &mut held),
            "nt" => q = one(i.nth(k), rec, &mut held),
            "ntb" => q = one(i.nth_back(k), rec, &mut held),
            "all" => {
                q = i.all(|x| {
                    rec.see(x.r(), comps);
                    held.push(x);
                    calls += 1;
                    stop(calls);
                    calls <= k
                }) as i64
            }
            "any" => {
                q = i.any(|x| {
                    rec.see(x.r(), comps);
                    held.push(x);
                    calls += 1;
                    stop(calls);
                    calls > k
                }) as i64
            }
            "pos" => {
                q = i
                    .position(|x| {
                        rec.see(x.r(), comps);
                        held.push(x);
                        calls += 1;
                        stop(calls);
                        calls > k
                    })
                    .map_or(-1, |p| p as i64)
            }
            "rpos" => {
                q = i
                    .rposition(|x| {
                        rec.see(x.r(), comps);
                        held.push(x);
                        calls += 1;
                        stop(calls);
                        calls > k
                    })
                    .map_or(-1, |p| p as i64)
            }
            "find" => {
                let r = i.find(|x| {
                    calls += 1;
                    if calls > k {
                        if pan {
                            rec.see(x.r(), comps);
                        }
                        stop(calls);
                        true
                    } else {
                        rec.see(x.r(), comps);
                        false
                    }
                });
                q = one(r, rec, &mut held)
            }
            "rfind" => {
                let r = i.rfind(|x| {
                    calls += 1;
                    if calls > k {
                        if pan {
                            rec.see(x.r(), comps);
                        }
                        stop(calls);
                        true
                    } else {
                        rec.see(x.r(), comps);
                        false
                    }
                });
                q = one(r, rec, &mut held)
            }
            "fmap" => {
                let r = i.find_map(|x| {
                    rec.see(x.r(), comps);
                    held.push(x);
                    calls += 1;
                    stop(calls);
                    (calls > k).then_some(calls)
                });
                q = r.map_or(-1, |p| p as i64)
            }
            "tf" => {
                let r = i.try_fold(0usize, |n, x| {
                    rec.see(x.r(), comps);
                    held.push(x);
                    stop(n + 1);
                    if n < k { Ok(n + 1) } else { Err(n) }
                });
                q = match r {
                    Ok(n) => n as i64,
                    Err(n) => -1 - n as i64,
                }
            }
            "trf" => {
                let r = i.try_rfold(0usize, |n, x| {
                    rec.see(x.r(), comps);
                    held.push(x);
                    stop(n + 1);
                    if n < k { Ok(n + 1) } else { Err(n) }
                });
                q = match r {
                    Ok(n) => n as i64,
                    Err(n) => -1 - n as i64,
                }
            }
            "take" => {
                for x in i.by_ref().take(k) {
                    rec.see(x.r(), comps);
                    held.push(x);
                    q += 1
                }
            }
            _ => gone = true,
        }));
        if let Err(p) = unwound {
            if !p.is::<Boom>() {
                std::panic::resume_unwind(p)
            }
            q = -9
        }
        let (l, (lo, hi)) = if gone { (0, (0, None)) } else { (i.len(), i.size_hint()) };
        if !gone {
            js.push(format!(
                "{{\"o\":\"{name}\",\"k\":{},\"q\":{q},\"y\":{},\"l\":{},\"lo\":{},\"hi\":{}}}",
                cl(k), jyields(&rec.y), cl(l), cl(lo), hi.map_or(-1, |h| cl(h) as i64)
            ));
            itr = Some(i);
        }
    }
    if gone {
        let last = ops[js.len()];
        let (name, arg) = last.split_once(',').unwrap_or((last, "0"));
        let k = num(arg);
        rec.y.clear();
        let mut q = 0i64;
        match name {
            "count" => q = it.count() as i64,
            "last" => {
                if let Some(x) = it.last() {
                    rec.see(x.r(), comps);
                    held.push(x);
                    q = 1
                }
            }
            "fe" => it.for_each(|x| {
                rec.see(x.r(), comps);
                held.push(x);
                q += 1
            }),
            "fold" => {
                q = it.fold(0, |n, x| {
                    rec.see(x.r(), comps);
                    held.push(x);
                    n + 1
                })
            }
            "rfold" => {
                q = it.rfold(0, |n, x| {
                    rec.see(x.r(), comps);
                    held.push(x);
                    n + 1
                })
            }
            "rev" => {
                for x in it.rev() {
                    rec.see(x.r(), comps);
                    held.push(x);
                    q += 1
                }
            }
            "for" => {
                for x in it {
                    rec.see(x.r(), comps);
                    held.push(x);
                    q += 1
                }
            }
            "skip" => {
                for x in it.skip(k) {
                    rec.see(x.r(), comps);
                    held.push(x);
                    q += 1
                }
            }
            "revskip" => {
                for x in it.rev().skip(k) {
                    rec.see(x.r(), comps);
                    held.push(x);
                    q += 1
                }
            }
            "step" => {
                for x in it.step_by(k + 1) {
                    rec.see(x.r(), comps);
                    held.push(x);
                    q += 1
                }
            }
            "fused" => {
                let mut f = it.fuse();
                for _ in 0..=k {
                    if let Some(x) = f.next() {
                        rec.see(x.r(), comps);
                        held.push(x);
                        q += 1
                    }
                }
            }
            o => panic!("unknown iterator op {o}"),
        }
        js.push(format!(
            "{{\"o\":\"{name}\",\"k\":{},\"q\":{q},\"y\":{},\"l\":0,\"lo\":0,\"hi\":0}}",
            cl(k), jyields(&rec.y)
        ));
    }
    (format!("[{}]", js.join(",")), held)
}

fn jyields(y: &[Vec<i64>]) -> String {
    let v: Vec<String> = y.iter().map(|p| jints(p)).collect();
    format!("[{}]", v.join(","))
}

/// body: how;sh.nc/sh.nc/...;op;op;...
pub fn run<K: Kind>(out: &mut Out, ep: u64, kind: &str, body: &str) {
    st().reset();
    with(|l| {
        *l = Log { drops: vec![], clones: vec![], dtor: 0, clone: 0, next: 1, asked: 0 };
    });
    out.pick();
    out.note(&format!("{ep} 0 iterator"));
    out.line(&format!("{{\"t\":\"new\",\"ep\":{ep},\"k\":\"it:{kind}\",\"pv\":\"i\",\"tr\":0}}"));
    let parts: Vec<&str> = body.split(';').collect();
    let how = parts[0];
    let (how, past) = how.split_once('+').unwrap_or((how, ""));
    let mut v: UnsizedVec<K::T> = UnsizedVec::new();
    crate::alloc::track(crate::alloc::Cat::Lib, || {
        let es: Vec<(usize, usize)> = parts[1]
            .split('/')
            .filter(|s| !s.is_empty())
            .map(|e| e.split_once('.').unwrap())
            .map(|(sh, nc)| (sh.parse().unwrap(), nc.parse().unwrap()))
            .collect();
        // the vec's past must not matter
        let make = |(sh, nc): (usize, usize)| Emplacable::from(K::make(sh, nc));
        match past {
            "front" => es.iter().rev().for_each(|&e| v.insert_with(0, make(e))),
            "rem" => {
                for &e in &es {
                    v.push_with(make(e));
                    v.push_with(make(es[0]));
                }
                for k in 0..es.len() {
                    drop(v.remove_into(k + 1))
                }
            }
            "empty" => {
                v.reserve_capacity_bytes_align(es.len() + 2, if kind == "s0" { 0 } else { 50 }, 64);
                es.iter().for_each(|&e| v.push_with(make(e)))
            }
            "up" => {
                es.iter().for_each(|&e| v.push_with(make(e)));
                v.reserve_capacity_bytes_align(1, 0, 128)
            }
            "down" => {
                v.reserve_capacity_bytes_align(1, 0, 128);
                es.iter().for_each(|&e| v.push_with(make(e)));
                v.shrink_to_fit()
            }
            "coll" => v = es.iter().map(|&e| make(e)).collect(),
            _ => es.iter().for_each(|&e| v.push_with(make(e))),
        }
    });
    let base: Vec<Vec<i64>> = (0..v.len()).map(|i| K::comps(&v[i])).collect();
    let keys: Vec<(usize, usize)> = (0..v.len()).map(|i| (&v[i] as *const K::T as *const u8 as usize, size_of_val(&v[i]))).collect();
    let mut rec = Rec { keys: keys.clone(), base: base.clone(), y: vec![] };
    let ops = &parts[2..];
    // what was written through the references, per yield
    let mut wrote: Vec<((usize, usize), Vec<i64>, Vec<i64>)> = vec![];
    let r = catch_unwind(AssertUnwindSafe(|| match how {
        "iter" => session(v.iter(), ops, &mut rec, K::comps).0,
        "sl" => session(K::via_slice(v.iter()).unwrap_or(v.iter()), ops, &mut rec, K::comps).0,
        "for" => session((&v).into_iter(), ops, &mut rec, K::comps).0,
        o => {
            let (s, held) =
                if o == "mut" { session(v.iter_mut(), ops, &mut rec, K::comps) } else { session((&mut v).into_iter(), ops, &mut rec, K::comps) };
            // all of them at once
            for x in held {
                let key = (&*x as *const K::T as *const u8 as usize, size_of_val(&*x));
                if keys.contains(&key) {
                    let old = K::comps(x);
                    let new = K::replace(x);
                    wrote.push((key, old, new))
                }
            }
            s
        }
    }));
    let rs = match r {
        Ok(s) => s,
        Err(e) => {
            drop(e);
            "[]".into()
        }
    };
    let panicked = rs == "[]" && !ops.is_empty();
    let fin: Vec<Vec<i64>> = (0..v.len()).map(|i| K::comps(&v[i])).collect();
    // the contents that writing must have produced
    let mut want = base.clone();
    let mut used = vec![false; want.len()];
    for (key, old, new) in &wrote {
        if let Some(p) = (0..want.len()).find(|&p| !used[p] && keys[p] == *key && base[p] == *old) {
            want[p] = new.clone();
            used[p] = true
        }
    }
    let same = fin == want;
    out.line(&format!(
        "{{\"t\":\"it\",\"n\":{},\"how\":\"{how}\",\"rs\":{rs},\"pan\":{},\"fin\":{},\"rz\":{}}}",
        base.len(), panicked as u8, same as u8, st().intact() as u8
    ));
    drop(v);
    st().evs.clear();
    out.line("{\"t\":\"end\",\"lv\":[],\"la\":[],\"mem\":[]}");
    out.flush();
}
