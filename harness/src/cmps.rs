//! Comparison, hashing, formatting and serialization.
use crate::alloc::st;
use crate::world::*;
use emplacable::Emplacable;
use serde::ser::{Impossible, Serialize, SerializeSeq, Serializer};
use std::cmp::Ordering;
use std::collections::hash_map::DefaultHasher;
use std::fmt;
use std::hash::{Hash, Hasher};
use std::panic::{AssertUnwindSafe, catch_unwind};
use unsized_vec::UnsizedVec;

/// Partially ordered: 9 is comparable to nothing, itself included.
#[derive(Clone, Copy)]
pub struct P(i64);
/// The same, of another type and size.
#[derive(Clone, Copy)]
pub struct Q(i64, #[allow(dead_code)] i64);
/// Totally ordered.
#[derive(Clone, Copy, PartialEq, Eq, PartialOrd, Ord, Hash)]
pub struct O(i64);
fn pc(a: i64, b: i64) -> Option<Ordering> {
    if a == 9 || b == 9 { None } else { Some(a.cmp(&b)) }
}
impl PartialEq for P {
    fn eq(&self, o: &P) -> bool {
        pc(self.0, o.0) == Some(Ordering::Equal)
    }
}
impl PartialOrd for P {
    fn partial_cmp(&self, o: &P) -> Option<Ordering> {
        pc(self.0, o.0)
    }
}
impl PartialEq<Q> for P {
    fn eq(&self, o: &Q) -> bool {
        pc(self.0, o.0) == Some(Ordering::Equal)
    }
}
impl PartialOrd<Q> for P {
    fn partial_cmp(&self, o: &Q) -> Option<Ordering> {
        pc(self.0, o.0)
    }
}
macro_rules! show {
    ($($t:ty),*) => {$(
        impl fmt::Debug for $t {
            fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
                write!(f, "{}", self.0)
            }
        }
        impl Serialize for $t {
            fn serialize<S: Serializer>(&self, s: S) -> Result<S::Ok, S::Error> {
                s.serialize_i64(self.0)
            }
        }
    )*};
}
show!(P, Q, O);
impl Hash for P {
    fn hash<H: Hasher>(&self, h: &mut H) {
        self.0.hash(h)
    }
}
impl Hash for Q {
    fn hash<H: Hasher>(&self, h: &mut H) {
        self.0.hash(h)
    }
}

/// A trait object compared by number, whatever the type behind it.
pub trait D {
    fn n(&self) -> i64;
}
macro_rules! d {
    ($($t:ty),*) => {$(impl D for $t { fn n(&self) -> i64 { *self as i64 } })*};
}
d!(i8, i16, i32, i64, u128);
impl D for () {
    fn n(&self) -> i64 {
        0
    }
}
impl PartialEq for dyn D {
    fn eq(&self, o: &Self) -> bool {
        self.n() == o.n()
    }
}
impl Eq for dyn D {}
impl PartialOrd for dyn D {
    fn partial_cmp(&self, o: &Self) -> Option<Ordering> {
        Some(self.cmp(o))
    }
}
impl Ord for dyn D {
    fn cmp(&self, o: &Self) -> Ordering {
        self.n().cmp(&o.n())
    }
}
impl Hash for dyn D {
    fn hash<H: Hasher>(&self, h: &mut H) {
        self.n().hash(h)
    }
}
impl fmt::Debug for dyn D {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        write!(f, "{}", self.n())
    }
}
impl Serialize for dyn D {
    fn serialize<S: Serializer>(&self, s: S) -> Result<S::Ok, S::Error> {
        s.serialize_i64(self.n())
    }
}
fn mkd(x: i64, k: usize) -> Box<dyn D> {
    match k % 5 {
        0 if x == 0 => Box::new(()),
        0 => Box::new(x as i8),
        1 => Box::new(x as i16),
        2 => Box::new(x as i32),
        3 => Box::new(x),
        _ => Box::new(x as u128),
    }
}

/// Records what is serialized: nested sequences of integers with their announced lengths.
#[derive(Debug)]
pub struct E0(i64);
impl fmt::Display for E0 {
    fn fmt(&self, _: &mut fmt::Formatter<'_>) -> fmt::Result {
        Ok(())
    }
}
impl std::error::Error for E0 {}
impl serde::ser::Error for E0 {
    fn custom<T: fmt::Display>(_: T) -> Self {
        E0(-1)
    }
}
/// With a number, it fails there: 0 is the beginning of the sequence, then come its elements and its end.
pub struct Ser(Option<i64>);
pub struct Seq(Option<usize>, Vec<String>, Option<i64>);
thread_local! {
    /// How many elements a failing serializer was given.
    static GIVEN: std::cell::Cell<i64> = const { std::cell::Cell::new(0) };
}
impl SerializeSeq for Seq {
    type Ok = String;
    type Error = E0;
    fn serialize_element<T: ?Sized + Serialize>(&mut self, v: &T) -> Result<(), E0> {
        let i = self.1.len() as i64 + 1;
        if self.2.is_some() {
            GIVEN.with(|g| g.set(g.get() + 1));
        }
        if self.2 == Some(i) {
            // once: whoever goes on regardless gets away with it, and is found out
            self.2 = Some(-1);
            return Err(E0(i));
        }
        self.1.push(v.serialize(Ser(None))?);
        Ok(())
    }
    fn end(self) -> Result<String, E0> {
        let i = self.1.len() as i64 + 1;
        if self.2 == Some(i) {
            return Err(E0(i));
        }
        Ok(format!("{{\"l\":{},\"e\":[{}]}}", self.0.map_or(-1, |x| cl(x) as i64), self.1.join(",")))
    }
}
macro_rules! no {
    ($($f:ident($($t:ty),*)),*) => {$(fn $f(self, $(_: $t),*) -> Result<String, E0> { Err(E0(-1)) })*};
}
impl Serializer for Ser {
    type Ok = String;
    type Error = E0;
    type SerializeSeq = Seq;
    type SerializeTuple = Impossible<String, E0>;
    type SerializeTupleStruct = Impossible<String, E0>;
    type SerializeTupleVariant = Impossible<String, E0>;
    type SerializeMap = Impossible<String, E0>;
    type SerializeStruct = Impossible<String, E0>;
    type SerializeStructVariant = Impossible<String, E0>;
    fn serialize_i64(self, v: i64) -> Result<String, E0> {
        Ok(format!("{{\"l\":-2,\"e\":{v}}}"))
    }
    fn serialize_str(self, v: &str) -> Result<String, E0> {
        let b: Vec<String> = v.bytes().map(|b| b.to_string()).collect();
        Ok(format!("{{\"l\":-3,\"e\":[{}]}}", b.join(",")))
    }
    fn serialize_seq(self, l: Option<usize>) -> Result<Seq, E0> {
        if self.0 == Some(0) {
            return Err(E0(0));
        }
        Ok(Seq(l, vec![], self.0))
    }
    no!(serialize_bool(bool), serialize_i8(i8), serialize_i16(i16), serialize_i32(i32), serialize_u8(u8), serialize_u16(u16),
        serialize_u32(u32), serialize_u64(u64), serialize_f32(f32), serialize_f64(f64), serialize_char(char), serialize_bytes(&[u8]),
        serialize_none(), serialize_unit(), serialize_unit_struct(&'static str), serialize_unit_variant(&'static str, u32, &'static str));
    fn collect_str<T: ?Sized + fmt::Display>(self, _: &T) -> Result<String, E0> {
        Err(E0(-1))
    }
    fn serialize_some<T: ?Sized + Serialize>(self, _: &T) -> Result<String, E0> {
        Err(E0(-1))
    }
    fn serialize_newtype_struct<T: ?Sized + Serialize>(self, _: &'static str, _: &T) -> Result<String, E0> {
        Err(E0(-1))
    }
    fn serialize_newtype_variant<T: ?Sized + Serialize>(self, _: &'static str, _: u32, _: &'static str, _: &T) -> Result<String, E0> {
        Err(E0(-1))
    }
    fn serialize_tuple(self, _: usize) -> Result<Impossible<String, E0>, E0> {
        Err(E0(-1))
    }
    fn serialize_tuple_struct(self, _: &'static str, _: usize) -> Result<Impossible<String, E0>, E0> {
        Err(E0(-1))
    }
    fn serialize_tuple_variant(self, _: &'static str, _: u32, _: &'static str, _: usize) -> Result<Impossible<String, E0>, E0> {
        Err(E0(-1))
    }
    fn serialize_map(self, _: Option<usize>) -> Result<Impossible<String, E0>, E0> {
        Err(E0(-1))
    }
    fn serialize_struct(self, _: &'static str, _: usize) -> Result<Impossible<String, E0>, E0> {
        Err(E0(-1))
    }
    fn serialize_struct_variant(self, _: &'static str, _: u32, _: &'static str, _: usize) -> Result<Impossible<String, E0>, E0> {
        Err(E0(-1))
    }
}

fn ord(o: Option<Ordering>) -> i64 {
    match o {
        Some(Ordering::Less) => -1,
        Some(Ordering::Equal) => 0,
        Some(Ordering::Greater) => 1,
        None => 9,
    }
}

fn hash<T: Hash + ?Sized>(t: &T) -> u64 {
    let mut h = DefaultHasher::new();
    t.hash(&mut h);
    h.finish()
}

/// Builds a vec holding `xs`, by one of several histories.
fn build<T: ?Sized>(xs: &[Box<dyn Fn() -> Box<T>>], how: usize) -> UnsizedVec<T> {
    let mut v: UnsizedVec<T> = match how % 4 {
        0 => UnsizedVec::new(),
        1 => UnsizedVec::with_capacity_bytes_align(7, 64, 16),
        2 => UnsizedVec::with_capacity(20),
        _ => UnsizedVec::new(),
    };
    match how / 4 {
        0 => {
            for x in xs {
                v.push_with(Emplacable::from(x()))
            }
        }
        1 => {
            // at the front, with one that is taken out again
            for (k, x) in xs.iter().rev().enumerate() {
                v.insert_with(0, Emplacable::from(x()));
                if k == 0 {
                    v.push_with(Emplacable::from(x()));
                    drop(v.pop_into());
                }
            }
        }
        _ => {
            v.extend(xs.iter().map(|x| Emplacable::from(x())));
            if let Some(x) = xs.first() {
                v.insert_with(v.len() / 2, Emplacable::from(x()));
                drop(v.remove_into(xs.len() / 2));
            }
            v.shrink_to_fit();
        }
    }
    v
}

/// A writer that takes so many bytes and then fails.
struct Short {
    left: usize,
    got: String,
    failed: bool,
    after: bool,
}
impl fmt::Write for Short {
    fn write_str(&mut self, s: &str) -> fmt::Result {
        if self.failed {
            self.after = true;
        }
        if s.len() > self.left {
            self.failed = true;
            return Err(fmt::Error);
        }
        self.left -= s.len();
        self.got.push_str(s);
        Ok(())
    }
}
/// Formats into writers that fail early: how many of them were handled well.
fn short<T: fmt::Debug>(t: &T) -> i64 {
    let full = format!("{t:?}");
    let mut good = 0;
    for left in 0..=full.len() {
        let mut w = Short { left, got: String::new(), failed: false, after: false };
        let r = fmt::Write::write_fmt(&mut w, format_args!("{t:?}"));
        good += (r.is_ok() == (left == full.len()) && full.starts_with(&w.got) && !w.after) as i64;
    }
    good - full.len() as i64
}
/// Serializes into serializers that fail: the error that came back and how many elements they were given.
fn failing<T: Serialize + ?Sized>(t: &T, n: usize) -> String {
    let v: Vec<String> = (0..n as i64 + 3)
        .map(|k| {
            GIVEN.with(|g| g.set(0));
            let r = match t.serialize(Ser(Some(k))) {
                Ok(_) => -5,
                Err(e) => e.0,
            };
            format!("[{r},{}]", GIVEN.with(|g| g.get()))
        })
        .collect();
    format!("[{}]", v.join(","))
}

struct R {
    sh: i64,
    fs: String,
    eq: i64,
    ne: i64,
    pc: i64,
    rel: [i64; 4],
    c: i64,
    heq: i64,
    dbg: String,
    dbga: String,
    ser: String,
}

fn jstr(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

macro_rules! judge {
    ($a:expr, $b:expr, $cmp:expr, $heq:expr) => {{
        let (a, b) = (&$a, &$b);
        R {
            sh: short(a),
            fs: failing(a, a.len()),
            eq: (a == b) as i64,
            ne: (a != b) as i64,
            pc: ord(a.partial_cmp(b)),
            rel: [(a < b) as i64, (a <= b) as i64, (a > b) as i64, (a >= b) as i64],
            c: $cmp,
            heq: $heq,
            dbg: format!("{a:?}"),
            dbga: format!("{a:#?}"),
            ser: a.serialize(Ser(None)).unwrap_or_else(|_| "{\"l\":-9,\"e\":[]}".into()),
        }
    }};
}

/// body: howa;howb;x.x/x/...;x/...   elements separated by '/', their parts by '.'
pub fn run(out: &mut Out, ep: u64, kind: &str, body: &str) {
    st().reset();
    out.pick();
    out.note(&format!("{ep} 0 compare"));
    out.line(&format!("{{\"t\":\"new\",\"ep\":{ep},\"k\":\"cmp:{kind}\",\"pv\":\"c\",\"tr\":0}}"));
    let p: Vec<&str> = body.split(';').collect();
    let list = |s: &str| -> Vec<Vec<i64>> {
        if s.is_empty() {
            return vec![];
        }
        s.split('/').map(|e| e.split('.').filter(|x| !x.is_empty()).map(|x| x.parse::<i64>().unwrap()).collect::<Vec<i64>>()).collect()
    };
    let (ha, hb) = (p[0].parse::<usize>().unwrap(), p[1].parse::<usize>().unwrap());
    let (la, lb) = (list(p[2]), list(p[3]));
    type Mk<T> = Vec<Box<dyn Fn() -> Box<T>>>;
    fn mks<T: ?Sized + 'static>(l: &[Vec<i64>], f: fn(&[i64], usize) -> Box<T>) -> Mk<T> {
        l.iter()
            .cloned()
            .enumerate()
            .map(|(k, x)| {
                let b: Box<dyn Fn() -> Box<T>> = Box::new(move || f(&x, k));
                b
            })
            .collect()
    }
    let r = catch_unwind(AssertUnwindSafe(|| match kind {
        "p" => {
            let f: fn(&[i64], usize) -> Box<P> = |x, _| Box::new(P(x[0]));
            let (a, b) = (build(&mks(&la, f), ha), build(&mks(&lb, f), hb));
            judge!(a, b, 8, (hash(&a) == hash(&b)) as i64)
        }
        "pq" => {
            let a = build(&mks(&la, |x, _| Box::new(P(x[0]))), ha);
            let b = build(&mks(&lb, |x, _| Box::new(Q(x[0], 7))), hb);
            judge!(a, b, 8, (hash(&a) == hash(&b)) as i64)
        }
        "o" => {
            let f: fn(&[i64], usize) -> Box<O> = |x, _| Box::new(O(x[0]));
            let (a, b) = (build(&mks(&la, f), ha), build(&mks(&lb, f), hb));
            judge!(a, b, ord(Some(a.cmp(&b))), (hash(&a) == hash(&b)) as i64)
        }
        "lp" => {
            let f: fn(&[i64], usize) -> Box<[P]> = |x, _| x.iter().map(|&y| P(y)).collect();
            let (a, b) = (build(&mks(&la, f), ha), build(&mks(&lb, f), hb));
            judge!(a, b, 8, (hash(&a) == hash(&b)) as i64)
        }
        "lo" => {
            let f: fn(&[i64], usize) -> Box<[O]> = |x, _| x.iter().map(|&y| O(y)).collect();
            let (a, b) = (build(&mks(&la, f), ha), build(&mks(&lb, f), hb));
            judge!(a, b, ord(Some(a.cmp(&b))), (hash(&a) == hash(&b)) as i64)
        }
        "str" => {
            let f: fn(&[i64], usize) -> Box<str> = |x, _| x.iter().map(|&y| (b'a' + y as u8) as char).collect::<String>().into();
            let (a, b) = (build(&mks(&la, f), ha), build(&mks(&lb, f), hb));
            judge!(a, b, ord(Some(a.cmp(&b))), (hash(&a) == hash(&b)) as i64)
        }
        _ => {
            let (a, b) = (build(&mks(&la, |x, k| mkd(x[0], k)), ha), build(&mks(&lb, |x, k| mkd(x[0], k + 2)), hb));
            judge!(a, b, ord(Some(a.cmp(&b))), (hash(&a) == hash(&b)) as i64)
        }
    }));
    let jl = |l: &[Vec<i64>]| {
        let v: Vec<String> = l.iter().map(|x| jints(x)).collect();
        format!("[{}]", v.join(","))
    };
    let head = format!("{{\"t\":\"cmp\",\"k\":\"{kind}\",\"a\":{},\"b\":{}", jl(&la), jl(&lb));
    match r {
        Ok(r) => out.line(&format!(
            "{head},\"pan\":0,\"eq\":{},\"ne\":{},\"pc\":{},\"rel\":{},\"c\":{},\"heq\":{},\"dbg\":{},\"dbga\":{},\"ser\":{},\"sh\":{},\"fs\":{}}}",
            r.eq, r.ne, r.pc, jints(&r.rel), r.c, r.heq, jstr(&r.dbg), jstr(&r.dbga), r.ser, r.sh, r.fs
        )),
        Err(_) => out.line(&format!("{head},\"pan\":1}}")),
    }
    st().evs.clear();
    out.line("{\"t\":\"end\",\"lv\":[],\"la\":[],\"mem\":[]}");
    out.flush();
}
