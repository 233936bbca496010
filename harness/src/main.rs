#![feature(unsized_fn_params, ptr_metadata, alloc_error_hook, layout_for_ptr)]
#![allow(internal_features)]
mod alloc;
mod cmps;
mod emp;
mod iters;
mod kinds;
mod runs;
mod val;
mod world;

use kinds::*;
use val::*;
use world::*;

unsafe extern "C" {
    fn alarm(s: u32) -> u32;
}

macro_rules! kinds {
    ($kind:expr, $K:ident, $e:expr) => {
        match $kind {
            "s4" => { type $K = Sized1<Tr<4, A4>>; $e }
            "s1" => { type $K = Sized1<Tr<1, A1>>; $e }
            "s0" => { type $K = Sized1<Zs<A8>>; $e }
            "s32" => { type $K = Sized1<Tr<32, A16>>; $e }
            "s24" => { type $K = Sized1<Tr<24, A8>>; $e }
            "l1" => { type $K = Slice<Tr<1, A1>>; $e }
            "l2" => { type $K = Slice<Tr<2, A2>>; $e }
            "l12" => { type $K = Slice<Tr<12, A4>>; $e }
            "l16" => { type $K = Slice<Tr<16, A16>>; $e }
            "l0" => { type $K = Slice<Zs<A4>>; $e }
            "lh" => { type $K = Huge; $e }
            "str" => { type $K = Str; $e }
            "cstr" => { type $K = CStrK; $e }
            "os" => { type $K = OsStrK; $e }
            "d" => { type $K = Dyn; $e }
            "t" => { type $K = TailK; $e }
            k => panic!("unknown kind {k}"),
        }
    };
}

fn dispatch(out: &mut Out, ep: u64, kind: &str, body: &str) {
    match kind.split_once(':') {
        None => {
            let ops: Vec<Op> = body.split(';').filter(|s| !s.is_empty()).map(parse_op).collect();
            kinds!(kind, K, World::<K>::run(out, ep, kind, &ops))
        }
        Some(("it", k)) => kinds!(k, K, iters::run::<K>(out, ep, k, body)),
        Some(("run", k)) => kinds!(k, K, runs::run::<K>(out, ep, k, body)),
        Some(("cmp", k)) => cmps::run(out, ep, k, body),
        _ => emp::run(out, ep, kind, body),
    }
}

fn main() {
    let args: Vec<String> = std::env::args().collect();
    alloc::init();
    if std::env::var("LOUD").is_err() {
        std::panic::set_hook(Box::new(|_| ()));
    }
    std::alloc::set_alloc_error_hook(|l| {
        alloc::st().oom = Some(l);
        boom()
    });
    match &*args[1] {
        // run SCRIPTS PREFIX SHARDS FROM TO
        "run" => {
            let text = std::fs::read_to_string(&args[2]).unwrap();
            let shards: usize = args[4].parse().unwrap();
            let from: usize = args.get(5).map_or(0, |x| x.parse().unwrap());
            let to: usize = args.get(6).map_or(usize::MAX, |x| x.parse().unwrap());
            let mode = |p: String| std::fs::OpenOptions::new().create(true).append(true).open(p).unwrap();
            let mut out = Out {
                files: (0..shards).map(|k| std::io::BufWriter::with_capacity(1 << 16, mode(format!("{}.{k}.ndjson", args[3])))).collect(),
                counts: vec![0; shards],
                cur: 0,
                side: std::fs::File::create(format!("{}.cur", args[3])).unwrap(),
                events: 0,
            };
            for (ep, line) in text.lines().enumerate().take(to).skip(from) {
                let (kind, body) = line.split_once('|').unwrap();
                unsafe { alarm(20) };
                dispatch(&mut out, ep as u64, kind, body);
            }
            unsafe { alarm(0) };
            out.note("done");
            println!("{}", out.events);
        }
        _ => panic!("usage"),
    }
}
