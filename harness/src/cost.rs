//! C10: logarithms, costs of bits, running costs.
use crate::fixed::{U32, U64};
use crate::util::*;
use demixer::bit::Bit;
use demixer::coding::FinalProbability;
use demixer::estimators::cost::CostTracker;
use demixer::fixed_point::types::{FractOnlyU32, Log2D};
use demixer::fixed_point::{FixU32, FixU64, FixedPoint};
use demixer::history::tree::node::CostTrackers;
use demixer::lut::log2::{one_plus_log2_restricted, Log2Lut};
use demixer::lut::LookUpTables;

fn digits(mut v: u64) -> String {
    let mut out = vec![];
    while v > 0 { out.push((v & 32767) as i64); v >>= 15; }
    arr(out)
}

fn logs<F: Fn(u64) -> Log2D>(ctx: &mut Ctx, rng: &mut Rng, bits: u32, f: u8, log: F) {
    let mut xs: Vec<u64> = vec![0, 1, 2, 3, !0 >> (64 - bits)];
    for k in 0..bits { // mantissas at the ends of their steps
        let p = 1u64 << k;
        xs.push(p);
        xs.push(p - 1);
        if k >= 12 { xs.push(p + (p >> 11)); xs.push(p + (p >> 11) - 1); xs.push(p + p / 2 - 1); }
    }
    for _ in 0..ctx.scale(300, 3000) { xs.push(rng.edgy(bits)); }
    let r = xs.iter().map(|&x| match guard(|| log(x).raw()) {
        Ok(v) => arr(vec![1, v as i64]), Err(_) => "[0,0]".to_string() });
    let r = list(r);
    ctx.emit(Obj::new().str("kind", "log").int("f", f as i64).raw("x", &list(xs.iter().map(|&x| digits(x))))
        .raw("r", &r).str("err", ""));
}

fn prob(rng: &mut Rng) -> u32 {
    match rng.below(4) {
        0 => (rng.edgy(31) as u32).max(1),
        1 => ((1u64 << 31) - 1 - rng.edgy(30)) as u32,
        _ => (rng.next() >> 33) as u32,
    }
}

fn bit(b: u64) -> Bit { if b == 1 { Bit::One } else { Bit::Zero } }

pub fn run(ctx: &mut Ctx) {
    let mut rng = ctx.rng(10);
    let luts = match guard(|| LookUpTables::new()) {
        Ok(l) => l,
        Err(e) => { ctx.emit(Obj::new().str("kind", "table").raw("r", "[]").str("err", &e)); return; }
    };
    let lut: &Log2Lut = luts.log2_lut();
    logs(ctx, &mut rng, 32, 0, |x| U32::<0>::new_unchecked(x as u32).log2(lut));
    logs(ctx, &mut rng, 32, 11, |x| U32::<11>::new_unchecked(x as u32).log2(lut));
    logs(ctx, &mut rng, 32, 31, |x| U32::<31>::new_unchecked(x as u32).log2(lut));
    logs(ctx, &mut rng, 64, 0, |x| U64::<0>::new_unchecked(x).log2(lut));
    logs(ctx, &mut rng, 64, 40, |x| U64::<40>::new_unchecked(x).log2(lut));
    logs(ctx, &mut rng, 64, 63, |x| U64::<63>::new_unchecked(x).log2(lut));

    let mut r = vec![];
    let err = guard(|| { for k in 0..2048 { r.push(lut.log2_restricted(2048 + k) as i64); } }).err().unwrap_or_default();
    ctx.emit(Obj::new().str("kind", "table").ints("r", r).str("err", &err));

    // the logarithm that fills the tables, of numbers in [1/2, 1), and of others that must be refused
    for n in 0..ctx.scale(8, 80) {
        let half = 1u64 << 30;
        let xs: Vec<u64> = (0..200).map(|k| match (n, k % 4) {
            (0, _) => half + k, (1, _) => 2 * half - 1 - k, (2, 0) => rng.edgy(30), (_, 0) => half + rng.edgy(30),
            (_, 1) => 2 * half - 1 - rng.edgy(29),
            _ => half + (rng.next() & (half - 1)) }).collect();
        let r = list(xs.iter().map(|&x| match guard(|| one_plus_log2_restricted(FractOnlyU32::new(x as u32, 31)).raw()) {
            Ok(v) => arr(vec![1, v as i64]), Err(_) => "[0,0]".to_string() }));
        ctx.emit(Obj::new().str("kind", "fine").ints("x", xs.iter().map(|x| *x as i64)).raw("r", &r).str("err", ""));
    }

    for n in 0..ctx.scale(24, 200) {
        let p: Vec<u32> = (0..256u32).map(|k| match n {
            0 => 1 + k,
            1 => (1 << 23) - 1 - k,
            2 => (1 << 22) - 128 + k,
            3 => 1 << (k % 23),
            4 => (1 << 23) - (1 << (k % 23)),
            5 => ((1 << (12 + k % 11)) - 1 + k % 3) & 0x7fffff,
            _ => ((prob(&mut rng) >> 8).max(1)),
        }).collect();
        let mut r = vec![];
        let err = guard(|| for &p in p.iter() {
            let f = FinalProbability::new(p, 23);
            r.push(arr(vec![f.estimate_cost(Bit::Zero, lut).raw() as i64, f.estimate_cost(Bit::One, lut).raw() as i64]));
        }).err().unwrap_or_default();
        ctx.emit(Obj::new().str("kind", "cost").ints("p", p.iter().map(|&x| x as i64)).raw("r", &list(r)).str("err", &err));
    }

    for n in 0..ctx.scale(40, 300) {
        let start = if n == 0 { CostTracker::INITIAL.raw() } else { rng.edgy(16) as u16 };
        let (lo, hi) = *rng.pick(&[(1, 47104), (1, 40), (1, 3000), (30000, 65535), (60000, 65536), (0, 5), (-3, 70000)]);
        let cost: Vec<i64> = (0..120).map(|k| match k % 12 {
            0 => lo, 1 => hi, _ => rng.range(lo, hi) }).collect();
        let mut t = CostTracker::new(start);
        let r: Vec<String> = cost.iter().map(|&c| {
            let ok = match guard(|| t.updated(Log2D::new(c as i32, 11))) { Ok(u) => { t = u; 1 } Err(_) => 0 };
            arr(vec![ok, t.raw() as i64])
        }).collect();
        ctx.emit(Obj::new().str("kind", "track").int("start", start as i64).ints("cost", cost).raw("r", &list(r)).str("err", ""));
    }
    for n in 0..ctx.scale(40, 300) {
        let pair = n % 2 == 1;
        let start = if n < 2 { CostTracker::INITIAL.raw() } else { rng.edgy(16) as u16 };
        let start2 = rng.edgy(16) as u16;
        let skew = rng.below(3);
        let steps: Vec<(u32, u32, u64)> = (0..120).map(|_| (prob(&mut rng), prob(&mut rng),
            match skew { 0 => 0, 1 => 1, _ => rng.below(2) })).collect();
        let mut r = vec![];
        let err = guard(|| {
            let f = |q: u32| FractOnlyU32::new(q, 31);
            let mut t = CostTracker::new(start);
            let mut p = CostTrackers::new(CostTracker::new(start), CostTracker::new(start2));
            for &(q, q2, b) in steps.iter() {
                if pair {
                    p = p.updated(f(q), f(q2), bit(b), &luts);
                    r.push(arr(vec![p.stationary().raw() as i64, p.non_stationary().raw() as i64]));
                } else {
                    t = t.updated_on_bit(f(q), bit(b), &luts);
                    r.push((t.raw() as i64).to_string());
                }
            }
        }).err().unwrap_or_default();
        let o = Obj::new().str("kind", if pair { "pair" } else { "onbit" });
        let o = if pair { o.ints("start", vec![start as i64, start2 as i64]) } else { o.int("start", start as i64) };
        ctx.emit(o.ints("q", steps.iter().map(|s| s.0 as i64)).ints("q2", steps.iter().map(|s| s.1 as i64))
            .ints("bit", steps.iter().map(|s| s.2 as i64)).raw("r", &list(r)).str("err", &err));
    }
    let mut r = vec![];
    let err = guard(|| for n in 0..=1000u16 { r.push(luts.cost_trackers_lut().for_new_node(n).raw() as i64); })
        .err().unwrap_or_default();
    ctx.emit(Obj::new().str("kind", "runs").ints("r", r).str("err", &err));
    let d = CostTrackers::DEFAULT;
    ctx.emit(Obj::new().str("kind", "initial").ints("r", vec![d.stationary().raw() as i64,
        d.non_stationary().raw() as i64, CostTracker::INITIAL.raw() as i64]).str("err", ""));
}
