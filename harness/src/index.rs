//! C17: combined indices and quantizers.
use crate::util::*;
use demixer::util::indexer::*;
use demixer::util::quantizers::OccurrenceCountQuantizer;

enum Any { A(Indexer1), B(Indexer2), C(Indexer3), D(Indexer4), E(Indexer5), F(Indexer6) }

macro_rules! each { ($s:expr, $i:ident, $e:expr) => { match $s {
    Any::A($i) => $e, Any::B($i) => $e, Any::C($i) => $e, Any::D($i) => $e, Any::E($i) => $e, Any::F($i) => $e } } }

impl Any {
    fn new(dims: Vec<usize>) -> Any {
        match dims.len() {
            1 => Any::A(Indexer1::new(dims)), 2 => Any::B(Indexer2::new(dims)), 3 => Any::C(Indexer3::new(dims)),
            4 => Any::D(Indexer4::new(dims)), 5 => Any::E(Indexer5::new(dims)), _ => Any::F(Indexer6::new(dims)),
        }
    }
    fn size(&mut self) -> usize { each!(self, i, i.get_array_size()) }
    fn get(&mut self, t: &[usize]) -> usize {
        each!(self, i, { for &v in t.iter() { i.with_sub_index(v); } i.get_array_index_and_reset() })
    }
}

fn ints(v: &[usize]) -> String { arr(v.iter().map(|&x| x as i64)) }

fn digits(mut n: usize) -> String {
    let mut d = vec![];
    while n > 0 { d.push((n & 32767) as i64); n >>= 15; }
    arr(d)
}

pub fn run(ctx: &mut Ctx) {
    let mut rng = ctx.rng(17);
    for n in 0..ctx.scale(150, 1000) {
        let rank = 1 + n % 6;
        let mut dims: Vec<usize> = vec![];
        let mut size = 1;
        for _ in 0..rank {
            let most = [600, 24, 9, 6, 5, 4][rank - 1].min(3000 / size).max(1);
            let d = rng.range(1, most as i64) as usize;
            dims.push(d);
            size *= d;
        }
        let (mut out, mut got) = (vec![], 0);
        let err = guard(|| {
            let mut i = Any::new(dims.clone());
            got = i.size();
            let mut t = vec![0; rank];
            'all: loop {
                out.push(i.get(&t) as i64);
                let mut k = rank;
                loop {
                    if k == 0 { break 'all; }
                    k -= 1;
                    t[k] += 1;
                    if t[k] < dims[k] { break; }
                    t[k] = 0;
                }
            }
        }).err().unwrap_or_default();
        ctx.emit(Obj::new().str("kind", "all").raw("dims", &ints(&dims)).int("size", got as i64)
            .ints("out", out).str("err", &err));
    }
    for n in 0..ctx.scale(150, 1000) {
        let rank = 1 + n % 6;
        let dims: Vec<usize> = match n {
            // the selectors of the predictor
            3 => vec![2, 3, 4, 2], 4 => vec![2, 3, 6, 4, 32], 1 => vec![20, 256],
            _ => (0..rank).map(|_| rng.range(1, [2_000_000_000, 40_000, 1200, 200, 70, 35][rank - 1]) as usize).collect(),
        };
        let tuples: Vec<Vec<usize>> = (0..40).map(|k| dims.iter().map(|&d| match k {
            0 => 0, 1 => d - 1, _ => rng.below(d as u64) as usize }).collect()).collect();
        let (mut out, mut got) = (vec![], 0);
        let err = guard(|| {
            let mut i = Any::new(dims.clone());
            got = i.size();
            for t in tuples.iter() { out.push(i.get(t) as i64); }
        }).err().unwrap_or_default();
        ctx.emit(Obj::new().str("kind", "some").raw("dims", &ints(&dims)).int("size", got as i64)
            .raw("tuples", &list(tuples.iter().map(|t| ints(t)))).ints("out", out).str("err", &err));
    }
    // tuples with an index outside its dimension, or too few or too many indices
    for n in 0..ctx.scale(150, 1000) {
        let rank = 1 + n % 6;
        let dims: Vec<usize> = (0..rank).map(|_| { let small = rng.chance(1, 4); rng.range(1, if small { 3 } else { [2_000_000_000, 40_000, 1200, 200, 70, 35][rank - 1] }) } as usize).collect();
        let good = |rng: &mut Rng| -> Vec<usize> { dims.iter().map(|&d| rng.below(d as u64) as usize).collect() };
        let mut tuples: Vec<Vec<usize>> = (0..rng.below(3)).map(|_| good(&mut rng)).collect();
        let mut last = good(&mut rng);
        match n % 5 {
            0 => { last.pop(); }
            1 => { last.push(0); }
            2 => { let k = rng.below(rank as u64) as usize; last[k] = dims[k]; }
            3 => {
                let (k, b) = (rng.below(rank as u64) as usize, 1 + rng.below(27));
                last[k] = dims[k] + rng.below(1 << b) as usize;
            }
            _ => {}
        }
        tuples.push(last);
        let mut out = vec![];
        let err = guard(|| {
            let mut i = Any::new(dims.clone());
            for t in tuples.iter() {
                let r = guard(|| i.get(t));
                out.push(r.map(|v| v as i64).unwrap_or(-1));
            }
        }).err().unwrap_or_default();
        ctx.emit(Obj::new().str("kind", "misuse").raw("dims", &ints(&dims))
            .raw("tuples", &list(tuples.iter().map(|t| ints(t)))).ints("out", out).str("err", &err));
    }
    // sizes that only just fit, or do not fit, in the 64 bits of an index
    for n in 0..ctx.scale(120, 800) {
        let rank = 2 + n % 5;
        let mut dims: Vec<usize> = vec![];
        let mut size = 1u128;
        let goal = match n % 4 { 0 => 1u128 << 64, 1 => 1u128 << rng.range(60, 68), _ => (1u128 << 64) - rng.below(1 << 20) as u128 };
        for k in 0..rank {
            let left = (rank - k) as u32;
            let d = if left == 1 { // the last dimension makes it just fit, or just not
                let most = ((goal / size).min(1 << 31) as i64 + rng.range(-1, 1)).max(1).min((1 << 31) - 1);
                if rng.chance(1, 6) { 1 + rng.below(most as u64) as usize } else { most as usize }
            } else if n % 3 == 0 { // powers of two
                let bits = 64 / rank as i64;
                1usize << rng.range((bits - 2).max(0), (bits + 2).min(30))
            } else {
                let bits = 64 / rank as i64;
                rng.range(1, ((1i64 << (bits + 1).min(31)) - 1).max(1)) as usize
            };
            dims.push(d);
            size *= d as u128;
        }
        if n % 7 == 0 { dims.reverse(); }
        let tuples: Vec<Vec<usize>> = (0..6).map(|k| dims.iter().map(|&d| match k {
            0 => 0, 1 => d - 1, _ => rng.below(d as u64) as usize }).collect()).collect();
        let mut i = None;
        // a selector may be refused when it is made, or when its size is asked for
        let got = guard(|| { let mut x = Any::new(dims.clone()); let s = x.size(); i = Some(x); s });
        let mut out = vec![];
        let err = match (&got, i) {
            (&Ok(_), Some(ref mut i)) => guard(|| for t in tuples.iter() { out.push(digits(i.get(t))); }).err().unwrap_or_default(),
            _ => String::new(),
        };
        ctx.emit(Obj::new().str("kind", "huge").raw("dims", &ints(&dims)).int("ok", got.is_ok() as i64)
            .raw("size", &digits(got.unwrap_or(0)))
            .raw("tuples", &list(tuples.iter().map(|t| ints(t)))).raw("out", &list(out)).str("err", &err));
    }
    for base in (0..16).map(|k| k * 4096) {
        let (mut out, mut max) = (vec![], 0);
        let last = if base == 61440 { 65535 } else { base + 4096 };
        let err = guard(|| {
            max = OccurrenceCountQuantizer::max_output();
            for v in base..=last { out.push(OccurrenceCountQuantizer::quantize(v as u16) as i64); }
        }).err().unwrap_or_default();
        ctx.emit(Obj::new().str("kind", "count").int("base", base as i64).int("max", max as i64)
            .ints("out", out).str("err", &err));
    }
}
