//! C19: stretch and squash at boundaries, at random, and where a scan over all
//! arguments finds them furthest from what is expected.
use crate::util::*;
use demixer::fixed_point::types::{FractOnlyU32, StretchedProbD};
use demixer::fixed_point::FixedPoint;
use demixer::lut::LookUpTables;

const ONE: u32 = 1 << 31;
const LIMIT: i32 = 12 << 21;

fn st(l: &LookUpTables, q: u32) -> i32 { l.stretch_lut().stretch(FractOnlyU32::new(q, 31)).raw() }
fn sq(l: &LookUpTables, s: i32) -> u32 { l.squash_lut().squash(StretchedProbD::new(s, 21)).raw() }

/// arguments with the largest measures, per group
struct Worst<const N: usize> { best: Vec<[(f64, i64); N]>, failed: Vec<i64> }
impl<const N: usize> Worst<N> {
    fn new(groups: usize) -> Self { Worst { best: vec![[(-1.0, 0); N]; groups], failed: vec![] } }
    fn see(&mut self, group: usize, m: [f64; N], x: i64) {
        let b = &mut self.best[group];
        for k in 0..N { if m[k] > b[k].0 { b[k] = (m[k], x); } }
    }
    fn merge(&mut self, o: Self) {
        for (b, o) in self.best.iter_mut().zip(o.best) {
            for k in 0..N { if o[k].0 > b[k].0 { b[k] = o[k]; } }
        }
        self.failed.extend(o.failed);
    }
    fn args(self) -> Vec<i64> {
        let mut v: Vec<i64> = self.best.iter().flat_map(|b| b.iter()).filter(|x| x.0 >= 0.0).map(|x| x.1).collect();
        v.extend(self.failed);
        v
    }
}

fn scan<const N: usize, F>(from: i64, to: i64, stride: i64, groups: usize, measure: F) -> Vec<i64>
    where F: Fn(i64) -> (usize, [f64; N]) + Sync {
    let threads = 8i64;
    let mut all = Worst::<N>::new(groups);
    std::thread::scope(|s| {
        let measure = &measure;
        let hs: Vec<_> = (0..threads).map(|t| s.spawn(move || {
            let mut w = Worst::<N>::new(groups);
            let len = (to - from + 1 + threads - 1) / threads;
            let (a, b) = (from + t * len, (from + (t + 1) * len).min(to + 1));
            let mut x = a;
            while x < b && w.failed.len() < 20 {
                let r = guard(|| while x < b {
                    let (g, m) = measure(x);
                    w.see(g, m, x);
                    x += stride;
                });
                if r.is_err() { w.failed.push(x); x += stride; }
            }
            w
        })).collect();
        for h in hs { all.merge(h.join().unwrap()); }
    });
    all.args()
}

pub fn run(ctx: &mut Ctx) {
    let mut rng = ctx.rng(19);
    let luts = match guard(|| LookUpTables::new()) {
        Ok(l) => l,
        Err(e) => { ctx.emit(Obj::new().str("kind", "stretch").raw("r", "[]").str("err", &e)); return; }
    };
    let l = &luts;

    let lowest = 16384.0 / ONE as f64;

    let group = |q: u32| -> usize {
        let (low, side) = if q <= ONE / 2 { (q, 0) } else { (ONE - q, 32) };
        side + low.leading_zeros() as usize
    };
    let mut qs: Vec<i64> = scan::<5, _>(1, ONE as i64 - 2, 1, 64, |q| {
        let q = q as u32;
        let s = st(l, q);
        let p = (q as f64 / ONE as f64).max(lowest).min(1.0 - lowest);
        let exact = (p / (1.0 - p)).ln() * 2097152.0;
        let low = p.min(1.0 - p);
        let i = (low / lowest).floor();
        let wide = if i < 512.0 { 3.0 + 262144.0 / (i * (i + 1.0)) } else { 3.0 };
        (group(q), [(s as f64 - exact).abs() / wide, (s - st(l, q + 1)) as f64, (s + st(l, ONE - q)).abs() as f64,
            (sq(l, s) as f64 - p * ONE as f64).abs(), s.abs() as f64])
    });
    for k in 0..31 { for d in &[-2i64, -1, 0, 1, 2] { qs.push((1 << k) + d); qs.push(ONE as i64 - (1 << k) + d); } }
    for _ in 0..ctx.scale(3000, 40000) {
        let q = match rng.below(3) { 0 => rng.edgy(31) as i64, 1 => ONE as i64 - rng.edgy(31) as i64, _ => (rng.next() >> 33) as i64 };
        qs.push(q);
        qs.push(q & !0x3fff);
    }
    qs.retain(|&q| q > 0 && q < ONE as i64 - 1);
    for part in qs.chunks(200) {
        let mut r = vec![];
        let mut err = String::new();
        for &q in part {
            let q = q as u32;
            match guard(|| { let s = st(l, q); vec![q as i64, s as i64, st(l, q + 1) as i64, st(l, ONE - q) as i64, sq(l, s) as i64] }) {
                Ok(v) => r.push(arr(v)),
                Err(e) => { err = format!("{}: {}", q, e); break; }
            }
        }
        ctx.emit(Obj::new().str("kind", "stretch").raw("r", &list(r)).str("err", &err));
    }

    let mut ss: Vec<i64> = scan::<3, _>(-LIMIT as i64, LIMIT as i64 - 1, 1, 64, |s| {
        let s = s as i32;
        let q = sq(l, s);
        let x = s as f64 / 2097152.0;
        let exact = (1.0 / (1.0 + (-x).exp())).max(lowest).min(1.0 - lowest);
        let low = exact.min(1.0 - exact);
        ((s as i64 + LIMIT as i64) as usize * 64 / (2 * LIMIT as usize),
            [(q as f64 / ONE as f64 - exact).abs() / low, q as f64 - sq(l, s + 1) as f64, (q as i64 + sq(l, -s) as i64 - ONE as i64).abs() as f64])
    });
    for k in 0..25 { for d in &[-1i64, 0, 1] { ss.push((1 << k) + d); ss.push(-(1 << k) + d); } }
    for d in 0..3 { ss.push(LIMIT as i64 - d); ss.push(d - LIMIT as i64); }
    for _ in 0..ctx.scale(3000, 40000) {
        let s = rng.range(-(LIMIT as i64), LIMIT as i64);
        ss.push(s);
        ss.push(s & !0x3fff);
    }
    ss.retain(|&s| s >= -(LIMIT as i64) && s <= LIMIT as i64);
    for part in ss.chunks(200) {
        let mut r = vec![];
        let mut err = String::new();
        for &s in part {
            let s = s as i32;
            match guard(|| vec![s as i64, sq(l, s) as i64, sq(l, (s + 1).min(LIMIT)) as i64, sq(l, -s) as i64]) {
                Ok(v) => r.push(arr(v)),
                Err(e) => { err = format!("{}: {}", s, e); break; }
            }
        }
        ctx.emit(Obj::new().str("kind", "squash").raw("r", &list(r)).str("err", &err));
    }
}
