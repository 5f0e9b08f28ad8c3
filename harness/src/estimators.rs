//! C09: adaptive probability estimators and what is precomputed from them.
use crate::util::*;
use demixer::bit::Bit;
use demixer::estimators::decelerating::DeceleratingEstimator;
use demixer::estimators::fixed_speed::FixedSpeedEstimator;
use demixer::fixed_point::types::FractOnlyU32;
use demixer::fixed_point::FixedPoint;
use demixer::lut::estimator::DeceleratingEstimatorRates;
use demixer::lut::LookUpTables;

fn bit(b: u64) -> Bit { if b == 1 { Bit::One } else { Bit::Zero } }

/// bit sequences with long runs, so that probabilities get to their limits
pub fn gen_bits(rng: &mut Rng, n: usize) -> Vec<u64> {
    let sticky = *rng.pick(&[1u64, 2, 5, 30, 400, 4000]);
    let mut cur = rng.below(2);
    let bias = rng.below(3);
    (0..n).map(|_| {
        if sticky > 1 && rng.chance(1, sticky) { cur ^= 1 }
        if sticky == 1 { cur = match bias { 0 => rng.below(2), 1 => rng.chance(1, 10) as u64, _ => rng.chance(99, 100) as u64 } }
        cur
    }).collect()
}

pub fn run(ctx: &mut Ctx) {
    let luts = LookUpTables::new();
    let rates = luts.d_estimator_rates();
    let mut rng = ctx.rng(9);
    let full = 1u32 << 22;
    for i in 0..ctx.scale(260, 4000) {
        let p0 = match rng.below(6) { 0 => full / 2, 1 => rng.below(5) as u32, 2 => full - rng.below(5) as u32, 3 => rng.edgy(22) as u32,
            4 => full - rng.edgy(22) as u32, _ => rng.below(full as u64 + 1) as u32 }.min(full);
        let n0 = match rng.below(5) { 0 => 0, 1 => rng.below(4), 2 => 1000 - rng.below(4), _ => rng.below(1001) } as u16;
        let fresh = i % 5 == 0;
        let steps = if i % 40 == 0 { 3000 } else { 40 + rng.below(120) as usize };
        let input = gen_bits(&mut rng, steps);
        let (mut p, mut n) = (vec![], vec![]);
        let err = guard(|| {
            let mut e = if fresh { DeceleratingEstimator::new() } else { DeceleratingEstimator::make(FractOnlyU32::new_unchecked(p0 << 9), n0) };
            p.push(e.prediction().raw() as i64); n.push(e.usage_count() as i64);
            for b in input.iter() {
                e.update(bit(*b), rates);
                p.push(e.prediction().raw() as i64); n.push(e.usage_count() as i64);
            }
        }).err().unwrap_or_default();
        ctx.emit(Obj::new().str("kind", "slowing").int("p0", if fresh { full / 2 } else { p0 } as i64).int("n0", if fresh { 0 } else { n0 } as i64)
            .ints("input", input.iter().map(|b| *b as i64)).ints("p", p).ints("n", n).str("err", &err));
    }
    for i in 0..ctx.scale(120, 1500) {
        let p0 = match rng.below(5) { 0 => 0x8000, 1 => 1 + rng.below(130), 2 => 0xffff - rng.below(130), _ => 1 + rng.below(65535) } as u16;
        let steps = if i % 40 == 0 { 3000 } else { 40 + rng.below(120) as usize };
        let input = gen_bits(&mut rng, steps);
        let mut p = vec![];
        let err = guard(|| {
            let mut e = if i % 6 == 0 { FixedSpeedEstimator::default() } else { FixedSpeedEstimator::new(p0) };
            p.push(e.prediction().raw() as i64);
            for b in input.iter() { e.update(bit(*b)); p.push(e.prediction().raw() as i64); }
        }).err().unwrap_or_default();
        ctx.emit(Obj::new().str("kind", "steady").int("p0", if i % 6 == 0 { 0x8000 } else { p0 as i64 })
            .ints("input", input.iter().map(|b| *b as i64)).ints("p", p).str("err", &err));
    }
    // precomputed: contexts that turn from an edge into a node, and predictions of edges
    let mut r = vec![];
    let err = guard(|| {
        for n in 0..=1000u16 {
            let one = luts.d_estimator_cache().for_new_node(Bit::One, n);
            let zero = luts.d_estimator_cache().for_new_node(Bit::Zero, n);
            let (sq, st) = luts.direct_predictions().for_0_bit_run(n);
            r.push(arr(vec![one.prediction().raw() as i64, one.usage_count() as i64,
                zero.prediction().raw() as i64, zero.usage_count() as i64,
                sq.raw() as i64, (st == luts.stretch_lut().stretch(sq)) as i64]));
        }
    }).err().unwrap_or_default();
    ctx.emit(Obj::new().str("kind", "cached").raw("r", &list(r)).str("err", &err));
    for &(factor, addend) in &[(1u32, 2u32), (1, 2), (2, 3), (3, 2), (1, 40)] {
        let mut r = vec![];
        let err = guard(|| {
            let t = DeceleratingEstimatorRates::make(factor, addend);
            for n in 0..=1000u16 { r.push(if (factor, addend) == (1, 2) { rates[n] } else { t[n] }.raw() as i64); }
        }).err().unwrap_or_default();
        ctx.emit(Obj::new().str("kind", "rates").int("factor", factor as i64).int("addend", addend as i64).ints("r", r).str("err", &err));
    }
    let mut refused = vec![];
    for &(p, n) in &[(1u32 << 30, 1001u16), ((1 << 30) + 1, 5), ((1 << 30) + 256, 5), (1 << 30, 1023), (1 << 30, u16::max_value())] {
        refused.push(guard(|| DeceleratingEstimator::make(FractOnlyU32::new_unchecked(p), n)).is_err() as i64);
    }
    refused.push(guard(|| FixedSpeedEstimator::new(0)).is_err() as i64);
    for &b in &[Bit::Zero, Bit::One] { for &n in &[1001u16, 1023] {
        refused.push(guard(|| luts.d_estimator_cache().for_new_node(b, n)).is_err() as i64);
        refused.push(guard(|| luts.direct_predictions().for_0_bit_run(n)).is_err() as i64);
    } }
    ctx.emit(Obj::new().str("kind", "refused").ints("r", refused).str("err", ""));
}
