//! C12: adaptive probability maps, refined and updated, with every stop probed at the end.
use crate::util::*;
use demixer::bit::Bit;
use demixer::fixed_point::types::{FractOnlyU32, StretchedProbD};
use demixer::fixed_point::FixedPoint;
use demixer::lut::LookUpTables;
use demixer::mixing::apm::AdaptiveProbabilityMap;

const ONE: i64 = 1 << 31;
const LIMIT: i64 = 12 << 21;

struct Sim<'a> { a: AdaptiveProbabilityMap, l: &'a LookUpTables, b: u8, ev: Vec<String> }

impl<'a> Sim<'a> {
    /// [1, context, p, st, precision of the table, ok, result]
    fn refine(&mut self, c: usize, q: u32, s: i32, lut: u8) -> bool {
        let (a, l) = (&mut self.a, self.l);
        let r = guard(|| a.refine(c, FractOnlyU32::new(q, 31), StretchedProbD::new(s, 21), l.apm_lut(lut)).raw());
        let (ok, v) = match r { Ok(v) => (1, v as i64), Err(_) => (0, 0) };
        self.ev.push(arr(vec![1, c as i64, q as i64, s as i64, lut as i64, ok, v]));
        ok == 1
    }
    /// [2, context, bit, rate, fixed, ok]
    fn update(&mut self, c: usize, bit: u64, rate: u8, fixed: bool) -> bool {
        let a = &mut self.a;
        let r = guard(|| a.update_predictions(c, if bit == 1 { Bit::One } else { Bit::Zero }, rate, fixed));
        self.ev.push(arr(vec![2, c as i64, bit as i64, rate as i64, fixed as i64, r.is_ok() as i64]));
        r.is_ok()
    }
    fn st(&self, q: u32) -> i32 { self.l.stretch_lut().stretch(FractOnlyU32::new(q, 31)).raw() }
    fn sq(&self, s: i32) -> u32 { self.l.squash_lut().squash(StretchedProbD::new(s, 21)).raw() }

    fn input(&self, rng: &mut Rng, stops: &[i64]) -> (u32, i32) {
        let n = stops.len() as u64;
        match rng.below(8) {
            0 => { let s = rng.range(-LIMIT, LIMIT) as i32; (self.sq(s), s) }
            1 => { let s = ((rng.below(n) as i64 - (n as i64 / 2)) << (21 - self.b)) as i32; (self.sq(s), s) }
            2 => { // around a stop
                let q = (*rng.pick(stops) + rng.range(-2, 2)).max(1).min(ONE - 1) as u32;
                (q, self.st(q))
            }
            3 => { // in the middle of an interval
                let k = rng.below(n - 1) as usize;
                let q = ((stops[k] + stops[k + 1]) / 2 + rng.range(-3, 3)).max(1).min(ONE - 1) as u32;
                (q, self.st(q))
            }
            4 => { let q = (rng.edgy(31) as u32).max(1); (q, self.st(q)) }
            5 => { let q = (ONE - rng.edgy(31) as i64).max(1).min(ONE - 1) as u32; (q, self.st(q)) }
            _ => { let q = ((rng.next() >> 33) as u32).max(1); (q, self.st(q)) }
        }
    }
}

fn one(ctx: &mut Ctx, l: &LookUpTables, rng: &mut Rng, n: usize) {
    let b = rng.below(3) as u8;
    // many contexts, of which a few are used: some close, some that differ in one high bit
    let large = n % 12 == 7;
    let contexts = if large { *rng.pick(&[256usize, 1000, 4096, 40000, 65536, 70000, 131072]) }
                   else if rng.chance(1, 12) { 0 } else { 1 + rng.below(4) as usize };
    let mut used: Vec<usize> = (0..contexts.min(4)).collect();
    if large {
        let c = rng.below(contexts as u64) as usize;
        used = vec![0, contexts - 1, c, (c + 1) % contexts];
        let bits: Vec<usize> = (0..18).filter(|&k| 1usize << k < contexts).collect();
        for k in 0..3 {
            let m = 1usize << (if k == 0 { bits[bits.len() - 1] } else { *rng.pick(&bits) });
            if c ^ m < contexts { used.push(c ^ m); } else if c & m != 0 { used.push(c - m); }
            used.push(m);
        }
        used.sort();
        used.dedup();
    }
    let head = || Obj::new().int("b", b as i64).int("contexts", contexts as i64)
        .ints("used", used.iter().map(|&c| c as i64));
    let stops: Result<Vec<i64>, String> = guard(|| (0..(24i64 << b) + 1)
        .map(|j| l.squash_lut().squash(StretchedProbD::new(((j - (12 << b)) << (21 - b)) as i32, 21)).raw() as i64).collect());
    let (stops, a) = match stops.and_then(|s| guard(|| AdaptiveProbabilityMap::new(contexts, b, l.squash_lut())).map(|a| (s, a))) {
        Ok(x) => x,
        Err(e) => { ctx.emit(head().ints("stops", vec![]).raw("e", "[]").str("err", &e)); return; }
    };
    let mut s = Sim { a, l, b, ev: vec![] };
    let rate = match rng.below(5) { 0 => 1, 1 => 5, 2 => 29, _ => 1 + rng.below(29) as u8 };
    let style = rng.below(6);
    let cycles = if style == 0 { ctx.scale(90, 300) } else { 5 + rng.below(ctx.scale(40, 200) as u64) as usize };
    let fixed0 = rng.chance(1, 2);
    let err = guard(|| {
        if contexts == 0 {
            if rng.chance(1, 2) { s.refine(0, 1 << 30, 0, b); } else { s.update(0, 0, 1, true); }
            return;
        }
        let same = s.input(rng, &stops);
        for k in 0..cycles {
            let (c, (q, st)) = if style == 0 { (used[used.len() / 2], same) } else { (*rng.pick(&used), s.input(rng, &stops)) };
            if k + 1 == cycles && n % 3 == 0 { // a forbidden call
                match rng.below(7) {
                    0 => { s.update(c, 1, rate, true); }
                    1 => { s.refine(c, q, st, b); s.refine(c, q, st, b); }
                    2 => { s.refine(c, q, st, (b + 1) % 3); }
                    3 => { s.refine(contexts, q, st, b); }
                    4 => { s.refine(c, q, st, b); s.update(contexts, 0, rate, false); }
                    5 => { s.refine(c, q, st, b); s.update(c, rng.below(2), 0, true); }
                    _ => { s.refine(c, q, st, b); s.update(c, rng.below(2), 30 + rng.below(4) as u8, false); }
                }
                return;
            }
            if !s.refine(c, q, st, b) { return; }
            let bit = match style { 0 => n as u64 % 2, 1 => if q as i64 > ONE / 2 { 0 } else { 1 }, _ => rng.below(2) };
            let (r, f) = if style == 0 { (if n % 4 < 2 { 1 } else { rate }, fixed0) } else if rng.chance(1, 4) { (1 + rng.below(29) as u8, rng.chance(1, 2)) } else { (rate, fixed0) };
            if !s.update(c, bit, r, f) { return; }
        }
        for &c in used.iter() {
            for j in 0..stops.len() {
                let st = ((j as i64 - (12 << b)) << (21 - b)) as i32;
                if !s.refine(c, stops[j] as u32, st, b) || !s.update(c, 1, 29, true) { return; }
            }
        }
    }).err().unwrap_or_default();
    ctx.emit(head().ints("stops", stops).raw("e", &list(s.ev)).str("err", &err));
}

pub fn run(ctx: &mut Ctx) {
    let rng = ctx.rng(12);
    let luts = match guard(|| LookUpTables::new()) {
        Ok(l) => l,
        Err(e) => { ctx.emit(Obj::new().int("b", 0).int("contexts", 0).ints("used", vec![]).ints("stops", vec![]).raw("e", "[]").str("err", &e)); return; }
    };
    for n in 0..ctx.scale(300, 4000) {
        let mut r = rng.clone().fork(n as u64);
        one(ctx, &luts, &mut r, n);
    }
}
