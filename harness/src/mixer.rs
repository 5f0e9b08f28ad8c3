//! C11: mixers of every kind, driven through cycles of setting inputs, mixing and learning,
//! with forbidden calls in between.
use crate::util::*;
use demixer::bit::Bit;
use demixer::fixed_point::types::{FractOnlyU32, StretchedProbD};
use demixer::fixed_point::FixedPoint;
use demixer::lut::LookUpTables;
use demixer::mixing::mixer::*;

const ST: i64 = 12 << 21;

fn stretched(rng: &mut Rng) -> i32 {
    (match rng.below(8) {
        0 => ST * (rng.below(3) as i64 - 1),
        1 => rng.below(9) as i64 - 4,
        2 => (rng.edgy(24) as i64) * if rng.chance(1, 2) { -1 } else { 1 },
        3 => ST - 1 - rng.below(4) as i64,
        _ => rng.range(-ST, ST),
    }) as i32
}

fn prob(rng: &mut Rng) -> u32 {
    match rng.below(6) {
        0 => (rng.edgy(31) as u32).max(1),
        1 => ((1u64 << 31) - 1 - rng.edgy(30)) as u32,
        _ => ((rng.next() >> 33) as u32).max(1),
    }
}

fn bit(b: i64) -> Bit { if b == 1 { Bit::One } else { Bit::Zero } }
fn p31(q: u32) -> FractOnlyU32 { FractOnlyU32::new(q, 31) }

fn cycle<M: Mixer>(m: &mut M, luts: &LookUpTables, rng: &mut Rng, ev: &mut Vec<String>, max: u16, style: u64, last: bool) -> bool {
    let size = m.size();
    let mut order: Vec<usize> = (0..size).collect();
    for k in (1..size).rev() { order.swap(k, rng.below(k as u64 + 1) as usize); }
    let misuse = last && rng.chance(2, 3);
    let kind = if misuse { rng.below(7) } else { 99 };
    let stop = if size == 0 { 0 } else { rng.below(size as u64) as usize };
    // set one input: [1, i, sq, st, ok]
    let set = |m: &mut M, rng: &mut Rng, ev: &mut Vec<String>, i: usize| {
        let q = prob(rng);
        let s = match style { 0 => luts.stretch_lut().stretch(p31(q)).raw(), 1 => if rng.chance(1, 2) { ST as i32 } else { -ST as i32 },
            // always the same way, so that the weights reach their bounds
            5 | 6 => (if i % 2 == 0 { ST as i32 } else { -ST as i32 }) / (1 + i as i32 % 3), _ => stretched(rng) };
        let ok = guard(|| m.set_input(i, p31(q), StretchedProbD::new(s, 21))).is_ok();
        ev.push(arr(vec![1, i as i64, q as i64, s as i64, ok as i64]));
    };
    // look at one input: [4, i, ok, sq, st]
    let get = |m: &mut M, ev: &mut Vec<String>, i: usize| {
        match guard(|| (m.prediction_sq(i).raw(), m.prediction_st(i).raw())) {
            Ok((q, s)) => ev.push(arr(vec![4, i as i64, 1, q as i64, s as i64])),
            Err(_) => ev.push(arr(vec![4, i as i64, 0, 0, 0])),
        }
    };
    // mix: [2, ok, sq, st, squash(st)]
    let mix = |m: &mut M, ev: &mut Vec<String>| -> u32 {
        match guard(|| m.mix_all(luts.squash_lut())) {
            Ok((q, s)) => {
                let again = guard(|| luts.squash_lut().squash(s).raw() as i64).unwrap_or(-1);
                ev.push(arr(vec![2, 1, q.raw() as i64, s.raw() as i64, again]));
                q.raw()
            }
            Err(_) => { ev.push("[2,0,0,0,0]".to_string()); 1 << 30 }
        }
    };
    // learn: [3, bit, p, max, ok, weights..]
    let learn = |m: &mut M, ev: &mut Vec<String>, b: i64, p: u32, max: u16| -> bool {
        match guard(|| m.update_and_reset(bit(b), p31(p), max, luts.d_estimator_rates())) {
            Ok(()) => {
                let mut v = vec![3, b, p as i64, max as i64, 1];
                for i in 0..size { v.push(m.weight(i).raw() as i64); }
                ev.push(arr(v));
                true
            }
            Err(_) => { ev.push(arr(vec![3, b, p as i64, max as i64, 0])); false }
        }
    };
    for (n, &i) in order.iter().enumerate() {
        if n == stop {
            match kind {
                0 => { mix(m, ev); }
                1 => return learn(m, ev, 1, 1 << 30, max),
                2 => get(m, ev, i),
                3 => if n > 0 { set(m, rng, ev, order[n - 1]) } else { set(m, rng, ev, size) },
                4 => set(m, rng, ev, size),
                5 => get(m, ev, size),
                _ => (),
            }
            if kind < 6 { return false; } // what a refused call leaves behind is not looked at
        }
        set(m, rng, ev, i);
        if rng.chance(1, 6) { get(m, ev, i); }
    }
    let mixed = mix(m, ev);
    if rng.chance(1, 8) { mix(m, ev); }
    let b = match style { 1 | 5 => 0, 2 | 6 => 1, _ => rng.below(2) as i64 };
    let p = match style {
        5 => 1 + rng.below(1 << 20) as u32,
        6 => ((1u64 << 31) - 1 - rng.below(1 << 20)) as u32,
        _ => if rng.chance(1, 3) { prob(rng) } else { mixed },
    };
    if kind == 6 {
        return match rng.below(3) {
            0 => learn(m, ev, 0, 0, max),
            1 => learn(m, ev, b, p, 1001),
            _ => learn(m, ev, 1, p, 0),
        };
    }
    learn(m, ev, b, p.max(1), max)
}

fn drive<M: Mixer, F: FnOnce() -> M>(ctx: &mut Ctx, luts: &LookUpTables, rng: &mut Rng, kind: &str, size: usize, mode: usize, idx: u16, make: F) {
    let name = ["zero", "first", "equal"][mode];
    let head = || Obj::new().str("kind", kind).int("size", size as i64).str("mode", name).int("idx", idx as i64);
    let made = guard(make);
    let mut m = match made {
        Ok(m) => m,
        Err(_) => { ctx.emit(head().int("made", 0).ints("w", vec![]).raw("e", "[]").str("err", "")); return; }
    };
    let w: Vec<i64> = match guard(|| { assert_eq!(m.size(), size); (0..size).map(|i| m.weight(i).raw() as i64).collect() }) {
        Ok(w) => w,
        Err(e) => { ctx.emit(head().int("made", 1).ints("w", vec![]).raw("e", "[]").str("err", &e)); return; }
    };
    let max = match rng.below(4) { 0 => 1000, 1 => idx, 2 => (idx + 3).min(1000), _ => rng.range(idx as i64, 1000) as u16 };
    let cycles = rng.below(ctx.scale(12, 60) as u64) + 2;
    let style = rng.below(7);
    let cycles = if style > 4 { cycles + 12 } else { cycles };
    let mut ev = vec![];
    let err = guard(|| for c in 0..cycles {
        if !cycle(&mut m, luts, rng, &mut ev, max, style, c + 1 == cycles) { break; }
    }).err().unwrap_or_default();
    ctx.emit(head().int("made", 1).ints("w", w).raw("e", &list(ev)).str("err", &err));
}

pub fn run(ctx: &mut Ctx) {
    let mut rng = ctx.rng(11);
    let luts = match guard(|| LookUpTables::new()) {
        Ok(l) => l,
        Err(e) => { ctx.emit(Obj::new().str("kind", "Mixer1").int("size", 1).str("mode", "zero").int("idx", 0).int("made", 1)
            .ints("w", vec![]).raw("e", "[]").str("err", &e)); return; }
    };
    let l = &luts;
    use MixerInitializationMode::*;
    let modes = [AllZero, DominantFirst, EqualSummingToOne];
    for n in 0..ctx.scale(900, 12000) {
        let mut r = rng.fork(n as u64);
        let mode = n % 3;
        let im = modes[mode];
        let idx = match r.below(5) { 0 => 0, 1 => 1000, 2 => 1001 + r.below(3) as u16, _ => r.below(1001) as u16 };
        let idx = if idx > 1000 && r.chance(3, 4) { 10 } else { idx };
        match (n / 3) % 8 {
            0 => drive(ctx, l, &mut r, "Mixer1", 1, mode, idx, || Mixer1::new(idx, im)),
            1 => drive(ctx, l, &mut r, "Mixer2", 2, mode, idx, || Mixer2::new(idx, im)),
            2 => drive(ctx, l, &mut r, "Mixer3", 3, mode, idx, || Mixer3::new(idx, im)),
            3 => drive(ctx, l, &mut r, "Mixer4", 4, mode, idx, || Mixer4::new(idx, im)),
            4 => drive(ctx, l, &mut r, "Mixer5", 5, mode, idx, || Mixer5::new(idx, im)),
            _ => {
                let size = match r.below(6) { 0 => 30, 1 => 31, 2 => 0, _ => 1 + r.below(12) as usize };
                drive(ctx, l, &mut r, "MixerN", size, mode, idx, || MixerN::new(size, idx, im))
            }
        }
    }
    // long learning, up to the limit of the rate
    for n in 0..ctx.scale(4, 24) {
        let mut r = rng.fork(7000 + n as u64);
        let mut m = Mixer2::new(0, modes[n % 3]);
        let w: Vec<i64> = (0..2).map(|i| m.weight(i).raw() as i64).collect();
        let max = [1000u16, 300, 100, 10][n % 4];
        let mut ev = vec![];
        let err = guard(|| for _ in 0..1100 {
            if !cycle(&mut m, l, &mut r, &mut ev, max, [0, 3, 5, 6][n % 4], false) { break; }
        }).err().unwrap_or_default();
        ctx.emit(Obj::new().str("kind", "Mixer2").int("size", 2).str("mode", ["zero", "first", "equal"][n % 3]).int("idx", 0)
            .int("made", 1).ints("w", w).raw("e", &list(ev)).str("err", &err));
    }
}
