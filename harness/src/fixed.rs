//! C18: fixed point arithmetic, every function over every width.
use crate::util::*;
use demixer::coding::FinalProbability;
use demixer::fixed_point::types::*;
use demixer::fixed_point::*;

macro_rules! kind {
    ($name:ident, $raw:ty) => {
        #[derive(Clone, Copy, Debug, PartialEq, Eq, PartialOrd, Ord)]
        pub struct $name<const F: u8>($raw);
        impl<const F: u8> FixedPoint for $name<F> {
            type Raw = $raw;
            fn raw(&self) -> $raw { self.0 }
            fn new_unchecked(raw: $raw) -> Self { $name(raw) }
            const FRACTIONAL_BITS: u8 = F;
        }
    };
}
kind!(I32, i32);
kind!(U32, u32);
kind!(I64, i64);
kind!(U64, u64);

/// sign and base 2^15 digits
pub fn num(v: i128) -> String {
    let mut m = v.unsigned_abs();
    let mut out = vec![(v < 0) as i64];
    while m > 0 { out.push((m & 32767) as i64); m >>= 15; }
    arr(out)
}

struct Sample { op: &'static str, bits: u32, sg: bool, rbits: u32, f: u8, f2: u8, fr: u8, x: i128, y: i128, n: i64, lim: u8, r: Result<i128, String> }

fn emit(ctx: &mut Ctx, batch: &mut Vec<Sample>, force: bool) {
    if batch.is_empty() || (batch.len() < 250 && !force) { return; }
    let s = list(batch.iter().map(|s| Obj::new().str("op", s.op).int("bits", s.bits as i64).int("sg", s.sg as i64)
        .int("rbits", s.rbits as i64).int("f", s.f as i64).int("f2", s.f2 as i64).int("fr", s.fr as i64)
        .raw("x", &num(s.x)).raw("y", &num(s.y)).int("n", s.n).int("lim", s.lim as i64).int("ok", s.r.is_ok() as i64)
        .raw("r", &num(*s.r.as_ref().unwrap_or(&0))).done()));
    ctx.emit(Obj::new().str("kind", "fixed").raw("s", &s));
    batch.clear();
}

/// a value of the given width, often at an edge
fn value(rng: &mut Rng, bits: u32, sg: bool) -> i128 {
    let mag_bits = if sg { bits - 1 } else { bits };
    let v = match rng.below(10) {
        0 => (1i128 << mag_bits) - 1 - rng.below(3) as i128,
        1 => rng.below(4) as i128,
        2 => { // around a tie
            let s = 1 + rng.below(mag_bits as u64 - 1) as u32;
            let k = (rng.next() as i128) & ((1i128 << (mag_bits - s)) - 1);
            ((k << s) + (1i128 << (s - 1)) + rng.range(-1, 1) as i128).max(0)
        }
        3 | 4 => { // few bits, far from each other
            let low = rng.below(mag_bits as u64) as u32;
            let mut v = rng.edgy(low) as i128;
            for _ in 0..1 + rng.below(2) { v |= 1i128 << rng.below(mag_bits as u64); }
            v
        }
        _ => rng.edgy(mag_bits) as i128,
    } & ((1i128 << mag_bits) - 1);
    if sg && rng.chance(1, 2) { if v == 0 && rng.chance(1, 4) { -(1i128 << mag_bits) } else { -v } } else { v }
}

fn tie(rng: &mut Rng, bits: u32, sg: bool, s: u32) -> i128 {
    let mag_bits = if sg { bits - 1 } else { bits };
    if s >= mag_bits || rng.chance(1, 2) { return value(rng, bits, sg); }
    let k = rng.edgy(mag_bits - s) as i128;
    let v = ((k << s) + (1i128 << (s - 1)) + rng.range(-1, 1) as i128).max(0) & ((1i128 << mag_bits) - 1);
    if sg && rng.chance(1, 2) { -v } else { v }
}

macro_rules! fracs { ($f:expr, $m:ident, $($a:tt)*) => { match $f {
    0 => $m!(0, $($a)*), 5 => $m!(5, $($a)*), 11 => $m!(11, $($a)*), 21 => $m!(21, $($a)*), 25 => $m!(25, $($a)*),
    31 => $m!(31, $($a)*), 40 => $m!(40, $($a)*), 53 => $m!(53, $($a)*), 63 => $m!(63, $($a)*), _ => unreachable!() } } }
const F32S: [u8; 6] = [0, 5, 11, 21, 25, 31];
const F64S: [u8; 9] = [0, 5, 11, 21, 25, 31, 40, 53, 63];
const FMUL: [u8; 4] = [0, 11, 21, 31];

macro_rules! conv2 { ($fr:literal, $fa:literal, $A:ident, $raw:ty, $R:ident, $to:ident, $x:expr) => {
    $A::<$fa>::new_unchecked($x as $raw).$to::<$R<$fr>>().raw() as i128 } }
macro_rules! conv1 { ($fa:literal, $A:ident, $raw:ty, $R:ident, $to:ident, $fr:expr, $x:expr) => {
    fracs!($fr, conv2, $fa, $A, $raw, $R, $to, $x) } }

macro_rules! mul3 { ($fr:literal, $fa:literal, $fb:literal, $A:ident, $R:ident, $m:path, $x:expr, $y:expr) => {
    { let r: $R<$fr> = $m(&$A::<$fa>::new_unchecked($x as _), &$A::<$fb>::new_unchecked($y as _)); r.raw() as i128 } } }
macro_rules! mul2 { ($fb:literal, $fa:literal, $A:ident, $R:ident, $m:path, $fr:expr, $x:expr, $y:expr) => {
    fracs!($fr, mul3, $fa, $fb, $A, $R, $m, $x, $y) } }
macro_rules! few { ($f:expr, $m:ident, $($a:tt)*) => { match $f {
    0 => $m!(0, $($a)*), 11 => $m!(11, $($a)*), 21 => $m!(21, $($a)*), 31 => $m!(31, $($a)*), _ => unreachable!() } } }
macro_rules! mul1 { ($fa:literal, $A:ident, $R:ident, $m:path, $fb:expr, $fr:expr, $x:expr, $y:expr) => {
    few!($fb, mul2, $fa, $A, $R, $m, $fr, $x, $y) } }

macro_rules! one { ($fa:literal, $A:ident, $raw:ty, $x:expr, $y:expr, $which:expr) => { {
    let a = $A::<$fa>::new_unchecked($x as $raw);
    let b = $A::<$fa>::new_unchecked($y as $raw);
    match $which {
        "add" => a.add(&b).raw() as i128,
        "sub" => a.sub(&b).raw() as i128,
        "trunc" => a.trunc() as i128,
        "mdiv" => a.div($y as $raw).raw() as i128,
        _ => unreachable!(),
    } } } }

/// a float as an odd number times a power of two
fn parts(v: f64) -> (i128, i64) {
    let b = v.to_bits();
    let e = ((b >> 52) & 2047) as i64;
    let m = (b & ((1 << 52) - 1)) as i128 | if e > 0 { 1i128 << 52 } else { 0 };
    if m == 0 || e == 2047 { return (if e == 2047 { 1 } else { 0 }, if e == 2047 { 900 } else { 0 }); }
    let z = m.trailing_zeros();
    let m = m >> z;
    (if v < 0.0 { -m } else { m }, e.max(1) - 1075 + z as i64)
}

macro_rules! to_float { ($fa:literal, $A:ident, $raw:ty, $x:expr, $single:expr) => { {
    let a = $A::<$fa>::new_unchecked($x as $raw);
    if $single { a.as_f32() as f64 } else { a.as_f64() } } } }
macro_rules! from_float { ($fa:literal, $A:ident, $v:expr, $single:expr) => {
    if $single { $A::<$fa>::from_f32($v as f32).raw() as i128 } else { $A::<$fa>::from_f64($v).raw() as i128 } } }

fn floats(b: &mut Vec<Sample>, rng: &mut Rng) {
    for &(bits, sg) in [(32u32, true), (32, false), (64, true), (64, false)].iter() {
        let f = if bits == 32 { *rng.pick(&F32S) } else { *rng.pick(&F64S) };
        let single = rng.chance(1, 3);
        let prec = if single { 24 } else { 53 };
        // often next to a tie between two floats
        let x = if rng.chance(1, 2) { value(rng, bits, sg) } else {
            let top = bits - sg as u32;
            let len = rng.range(2, top as i64) as u32;
            let mut v = (1i128 << (len - 1)) | (rng.next() as i128 & ((1i128 << (len - 1)) - 1));
            if len > prec + 1 { let z = len - prec; v = (v >> z << z) + (1i128 << (z - 1)) + rng.range(-1, 1) as i128; }
            let v = v.min((1i128 << top) - 1);
            if sg && rng.chance(1, 2) { -v } else { v }
        };
        let mut e = 0;
        let r = guard(|| {
            let v = match (bits, sg) {
                (32, true) => fracs!(f, to_float, I32, i32, x, single),
                (32, false) => fracs!(f, to_float, U32, u32, x, single),
                (64, true) => fracs!(f, to_float, I64, i64, x, single),
                _ => fracs!(f, to_float, U64, u64, x, single),
            };
            let (m, k) = parts(v);
            e = k;
            m
        });
        b.push(Sample { op: "tofloat", bits, sg, rbits: bits, f, f2: prec as u8, fr: f, x, y: 0, n: e, lim: 0, r });
        // and back: numbers with up to all the digits of a float, near the ends of the type and far out of it
        let f = if bits == 32 { *rng.pick(&F32S) } else { *rng.pick(&F64S) };
        let mut m = match rng.below(3) { 0 => rng.edgy(prec as u32) as i128, 1 => (1i128 << rng.below(prec as u64)) + rng.range(-1, 1) as i128, _ => (rng.next() as i128) & ((1 << prec) - 1) };
        m = m.max(0).min((1 << prec) - 1);
        if rng.chance(1, 3) { m = -m }
        let len = 128 - m.abs().leading_zeros() as i64;
        let e = rng.range(-3, bits as i64 + 3) - len - f as i64;
        let v = m as f64 * 2f64.powi(e as i32);
        let r = guard(|| match (bits, sg) {
            (32, true) => fracs!(f, from_float, I32, v, single),
            (32, false) => fracs!(f, from_float, U32, v, single),
            (64, true) => fracs!(f, from_float, I64, v, single),
            _ => fracs!(f, from_float, U64, v, single),
        });
        b.push(Sample { op: "fromfloat", bits, sg, rbits: bits, f, f2: prec as u8, fr: f, x: m, y: 0, n: e, lim: 0, r });
        // types with ends of their own
        let single = false;
        let (f, lim) = match (bits, sg, rng.chance(1, 2)) { (32, true, true) => (21, 2), (32, false, true) => (23, 3), (_, _, _) => (bits as u8 - 1, 1) };
        let e = rng.range(-3, if lim == 2 { 5 } else { 1 }) - len;
        let v = m as f64 * 2f64.powi(e as i32);
        let r = guard(|| match (bits, sg, lim) {
            (32, true, 2) => StretchedProbD::from_f64(v).raw() as i128,
            (32, true, _) => FractOnlyI32::from_f64(v).raw() as i128,
            (32, false, 3) => FinalProbability::from_f64(v).raw() as i128,
            (32, false, _) => FractOnlyU32::from_f64(v).raw() as i128,
            (64, true, _) => FractOnlyI64::from_f64(v).raw() as i128,
            _ => FractOnlyU64::from_f64(v).raw() as i128,
        });
        b.push(Sample { op: "fromfloat", bits, sg, rbits: bits, f, f2: 53, fr: f, x: m, y: single as i128, n: e, lim, r });
    }
}

/// fractions stay in [0, 1), stretched probabilities within 12
fn limited(b: &mut Vec<Sample>, rng: &mut Rng) {
    macro_rules! both { ($T:ident, $raw:ty, $bits:expr, $sg:expr, $lim:expr) => { {
        let (bits, sg, f): (u32, bool, u8) = ($bits, $sg, $T::FRACTIONAL_BITS);
        let top = if $lim == 2 { 12i128 << 21 } else { (1i128 << (bits - 1)) - 1 };
        let mut inside = |rng: &mut Rng| {
            let v = match rng.below(4) { 0 => top - rng.edgy(24) as i128, 1 => rng.edgy(24) as i128, _ => value(rng, bits, sg).abs() }.min(top).max(0);
            if $lim == 2 && rng.chance(1, 2) { -v } else { v } };
        let (x, mut y) = (inside(rng), inside(rng));
        if rng.chance(1, 3) { y = if $lim == 2 { (if x < 0 { -top } else { top }) - x } else { top - x } + rng.range(-2, 2) as i128; y = y.max(if $lim == 2 { -top } else { 0 }).min(top); }
        let (p, q) = ($T::new_unchecked(x as $raw), $T::new_unchecked(y as $raw));
        for op in ["add", "sub"].iter() {
            let r = guard(|| if *op == "add" { p.add(&q).raw() as i128 } else { p.sub(&q).raw() as i128 });
            b.push(Sample { op, bits, sg, rbits: bits, f, f2: f, fr: f, x, y, n: 0, lim: $lim, r });
        }
        let any = value(rng, bits, sg);
        let r = guard(|| $T::new(any as $raw, f).raw() as i128);
        b.push(Sample { op: "make", bits, sg, rbits: bits, f, f2: f, fr: f, x: any, y: 0, n: 0, lim: $lim, r });
        b.push(Sample { op: "make", bits, sg, rbits: bits, f, f2: f, fr: f, x, y: 0, n: 0, lim: $lim, r: guard(|| $T::new(x as $raw, f).raw() as i128) });
        // a number of fractional bits that is not that of the type
        let g = (f as i64 + *rng.pick(&[-1i64, 1, 7, -7])) as u8;
        b.push(Sample { op: "misnamed", bits, sg, rbits: bits, f: g, f2: f, fr: f, x, y: 0, n: 0, lim: $lim, r: guard(|| $T::new(x as $raw, g).raw() as i128) });
        b.push(Sample { op: "ulp", bits, sg, rbits: bits, f, f2: f, fr: f, x: 1, y: 0, n: 0, lim: $lim, r: guard(|| $T::ulp().raw() as i128) });
        b.push(Sample { op: "trunc", bits, sg, rbits: bits, f, f2: f, fr: f, x, y: 0, n: 0, lim: 0, r: guard(|| p.trunc() as i128) });
        // conversions into it
        let wide = rng.chance(1, 2);
        let from = if wide { 64u32 } else { 32 };
        let g = *rng.pick(if wide { &F64S[1..] } else { &F32S[1..] });
        let room = from as i64 - 1 - (g as i64 - f as i64).abs().min(from as i64 - 2);
        let mut v = if rng.chance(1, 2) { value(rng, from, sg) } else { rng.edgy(room as u32) as i128 };
        if rng.chance(1, 3) && (g as u32) < from { // around its end
            let end = if $lim == 2 { 12i128 << g } else { 1i128 << g };
            v = (end + rng.range(-3, 3) as i128).min((1i128 << (from - sg as u32)) - 1).max(0);
            if sg && rng.chance(1, 2) { v = -v }
        }
        b.push(Sample { op: "conv", bits: from, sg, rbits: bits, f: g, f2: 0, fr: f, x: v, y: 0, n: 0, lim: $lim, r: guard(|| into!($T, bits, sg, wide, g, v)) });
        if bits == 32 {
            let g = *rng.pick(&FMUL);
            let (u, w) = (value(rng, 32, sg) >> rng.below(20), value(rng, 32, sg) >> rng.below(20));
            let r = guard(|| times!($T, sg, g, u, w));
            b.push(Sample { op: "mul", bits: 32, sg, rbits: 32, f: g, f2: g, fr: f, x: u, y: w, n: 0, lim: $lim, r });
        }
    } } }
    macro_rules! into { ($T:ident, $b:expr, $sg:expr, $wide:expr, $g:expr, $v:expr) => { into_inner!($T, $wide, $g, $v) } }
    macro_rules! times { ($T:ident, $sg:expr, $g:expr, $u:expr, $w:expr) => { times_inner!($T, $g, $u, $w) } }
    { macro_rules! c { ($fa:literal, $A:ident, $raw:ty, $v:expr) => { $A::<$fa>::new_unchecked($v as $raw).to_fix_i32::<FractOnlyI32>().raw() as i128 } }
      macro_rules! into_inner { ($T:ident, $wide:expr, $g:expr, $v:expr) => { if $wide { fracs!($g, c, I64, i64, $v) } else { fracs!($g, c, I32, i32, $v) } } }
      macro_rules! m { ($fa:literal, $T:ident, $u:expr, $w:expr) => { { let r: $T = fix_i32::mul(&I32::<$fa>::new_unchecked($u as i32), &I32::<$fa>::new_unchecked($w as i32)); r.raw() as i128 } } }
      macro_rules! times_inner { ($T:ident, $g:expr, $u:expr, $w:expr) => { few!($g, m, $T, $u, $w) } }
      both!(FractOnlyI32, i32, 32, true, 1); }
    { macro_rules! c { ($fa:literal, $A:ident, $raw:ty, $v:expr) => { $A::<$fa>::new_unchecked($v as $raw).to_fix_u32::<FractOnlyU32>().raw() as i128 } }
      macro_rules! into_inner { ($T:ident, $wide:expr, $g:expr, $v:expr) => { if $wide { fracs!($g, c, U64, u64, $v) } else { fracs!($g, c, U32, u32, $v) } } }
      macro_rules! m { ($fa:literal, $T:ident, $u:expr, $w:expr) => { { let r: $T = fix_u32::mul(&U32::<$fa>::new_unchecked($u as u32), &U32::<$fa>::new_unchecked($w as u32)); r.raw() as i128 } } }
      macro_rules! times_inner { ($T:ident, $g:expr, $u:expr, $w:expr) => { few!($g, m, $T, $u, $w) } }
      both!(FractOnlyU32, u32, 32, false, 1); }
    { macro_rules! c { ($fa:literal, $A:ident, $raw:ty, $v:expr) => { $A::<$fa>::new_unchecked($v as $raw).to_fix_i32::<StretchedProbD>().raw() as i128 } }
      macro_rules! into_inner { ($T:ident, $wide:expr, $g:expr, $v:expr) => { if $wide { fracs!($g, c, I64, i64, $v) } else { fracs!($g, c, I32, i32, $v) } } }
      macro_rules! m { ($fa:literal, $T:ident, $u:expr, $w:expr) => { { let r: $T = fix_i32::mul(&I32::<$fa>::new_unchecked($u as i32), &I32::<$fa>::new_unchecked($w as i32)); r.raw() as i128 } } }
      macro_rules! times_inner { ($T:ident, $g:expr, $u:expr, $w:expr) => { few!($g, m, $T, $u, $w) } }
      both!(StretchedProbD, i32, 32, true, 2); }
    { macro_rules! c { ($fa:literal, $A:ident, $raw:ty, $v:expr) => { $A::<$fa>::new_unchecked($v as $raw).to_fix_i64::<FractOnlyI64>().raw() as i128 } }
      macro_rules! into_inner { ($T:ident, $wide:expr, $g:expr, $v:expr) => { if $wide { fracs!($g, c, I64, i64, $v) } else { fracs!($g, c, I32, i32, $v) } } }
      macro_rules! times_inner { ($T:ident, $g:expr, $u:expr, $w:expr) => { 0i128 } }
      both!(FractOnlyI64, i64, 64, true, 1); }
    { macro_rules! c { ($fa:literal, $A:ident, $raw:ty, $v:expr) => { $A::<$fa>::new_unchecked($v as $raw).to_fix_u64::<FractOnlyU64>().raw() as i128 } }
      macro_rules! into_inner { ($T:ident, $wide:expr, $g:expr, $v:expr) => { if $wide { fracs!($g, c, U64, u64, $v) } else { fracs!($g, c, U32, u32, $v) } } }
      macro_rules! times_inner { ($T:ident, $g:expr, $u:expr, $w:expr) => { 0i128 } }
      both!(FractOnlyU64, u64, 64, false, 1); }
}

pub fn run(ctx: &mut Ctx) {
    let mut rng = ctx.rng(18);
    let mut b: Vec<Sample> = Vec::new();
    let widths = [(16u32, true), (16, false), (32, true), (32, false), (64, true), (64, false)];
    let mk = |op, bits, sg, rbits, f, f2, fr, x, y, n, r| Sample { op, bits, sg, rbits, f, f2, fr, x, y, n, lim: 0, r };
    let rounds = ctx.scale(320, 4000);
    for round in 0..rounds {
        for &(bits, sg) in widths.iter() {
            let n = 1 + rng.below(bits as u64 - 1) as u8;
            let x = tie(&mut rng, bits, sg, n as u32);
            let r = guard(|| match (bits, sg) {
                (16, true) => fix_i16::scaled_down(x as i16, n) as i128,
                (16, false) => fix_u16::scaled_down(x as u16, n) as i128,
                (32, true) => fix_i32::scaled_down(x as i32, n) as i128,
                (32, false) => fix_u32::scaled_down(x as u32, n) as i128,
                (64, true) => fix_i64::scaled_down(x as i64, n) as i128,
                _ => fix_u64::scaled_down(x as u64, n) as i128,
            });
            b.push(mk("down", bits, sg, bits, 0, 0, 0, x, 0, n as i64, r));
            if bits == 16 { continue; }
            // division, half of the time near a tie
            let mut y = value(&mut rng, bits, sg).abs().max(1);
            if sg { y = y.min((1i128 << (bits - 1)) - 1); }
            let mut x = value(&mut rng, bits, sg);
            if rng.chance(1, 2) {
                y = y >> rng.below(bits as u64 - 2); y = y.max(1);
                let q = rng.edgy(bits / 2 - 1) as i128;
                let v = q * y + y / 2 + rng.range(-1, 1) as i128;
                if v >= 0 && v < (1i128 << (bits - sg as u32)) { x = if sg && rng.chance(1, 2) { -v } else { v }; }
            }
            let r = guard(|| match (bits, sg) {
                (32, true) => fix_i32::div(x as i32, y as i32) as i128,
                (32, false) => fix_u32::div(x as u32, y as u32) as i128,
                (64, true) => fix_i64::div(x as i64, y as i64) as i128,
                _ => fix_u64::div(x as u64, y as u64) as i128,
            });
            b.push(mk("div", bits, sg, bits, 0, 0, 0, x, y, 0, r));
            // conversions
            let f = if bits == 32 { *rng.pick(&F32S) } else { *rng.pick(&F64S) };
            for &rbits in [32u32, 64].iter() {
                let fr = if rbits == 32 { *rng.pick(&F32S) } else { *rng.pick(&F64S) };
                let x = if rng.chance(1, 2) { tie(&mut rng, bits, sg, f.saturating_sub(fr).max(1) as u32) } else { value(&mut rng, bits, sg) };
                // what would fit, and a bit above it
                let room = rbits as i64 + f as i64 - fr as i64 - rng.below(3) as i64;
                let top = bits as i64 - sg as i64 - 1;
                let x = if room >= 1 && room <= top && rng.chance(1, 3) {
                    let v = (rng.edgy(room as u32) as i128) | (1i128 << rng.range(room, top.min(room + 2)));
                    if sg && rng.chance(1, 2) { -v } else { v }
                } else { x };
                // fit often
                let x = if rng.chance(1, 2) { let room = (rbits - 1) as i64 - fr as i64 + f as i64; if room < bits as i64 - 1 { x >> (bits as i64 - room).min(126) } else { x } } else { x };
                let r = guard(|| match (bits, sg, rbits) {
                    (32, true, 32) => fracs!(f, conv1, I32, i32, I32, to_fix_i32, fr, x),
                    (32, true, _) => fracs!(f, conv1, I32, i32, I64, to_fix_i64, fr, x),
                    (32, false, 32) => fracs!(f, conv1, U32, u32, U32, to_fix_u32, fr, x),
                    (32, false, _) => fracs!(f, conv1, U32, u32, U64, to_fix_u64, fr, x),
                    (64, true, 32) => fracs!(f, conv1, I64, i64, I32, to_fix_i32, fr, x),
                    (64, true, _) => fracs!(f, conv1, I64, i64, I64, to_fix_i64, fr, x),
                    (64, false, 32) => fracs!(f, conv1, U64, u64, U32, to_fix_u32, fr, x),
                    _ => fracs!(f, conv1, U64, u64, U64, to_fix_u64, fr, x),
                });
                b.push(mk("conv", bits, sg, rbits, f, 0, fr, x, 0, 0, r));
            }
            for which in ["add", "sub", "trunc", "mdiv"].iter() {
                let x = value(&mut rng, bits, sg);
                let mut y = value(&mut rng, bits, sg);
                if *which == "mdiv" { y = y.abs().max(1); if sg { y = y.min((1i128 << (bits - 1)) - 1); } }
                let f = if bits == 32 { *rng.pick(&F32S) } else { *rng.pick(&F64S) };
                let r = guard(|| match (bits, sg) {
                    (32, true) => fracs!(f, one, I32, i32, x, y, *which),
                    (32, false) => fracs!(f, one, U32, u32, x, y, *which),
                    (64, true) => fracs!(f, one, I64, i64, x, y, *which),
                    _ => fracs!(f, one, U64, u64, x, y, *which),
                });
                let op = if *which == "mdiv" { "div" } else { *which };
                b.push(mk(op, bits, sg, bits, f, 0, f, x, y, 0, r));
            }
            // products of 32-bit numbers
            if bits == 32 {
                for &rbits in [32u32, 64].iter() {
                    // a fifth are multiples of large powers of two, of which only the top may get lost
                    let shifted = rng.chance(1, 5);
                    let (f, f2) = if shifted { (0, *rng.pick(&FMUL[..2])) } else { (*rng.pick(&FMUL), *rng.pick(&FMUL)) };
                    let fr = match (rbits, shifted) {
                        (32, true) => *rng.pick(&F32S[3..]),
                        (_, true) => *rng.pick(&F64S[3..]),
                        (32, _) => *rng.pick(&F32S),
                        _ => *rng.pick(&F64S),
                    };
                    let mut x = value(&mut rng, 32, sg);
                    let mut y = value(&mut rng, 32, sg);
                    if shifted {
                        let top = 32 - sg as u64;
                        let mut high = || { let k = 8 + rng.below(top - 10); ((1 + rng.below(7)) as i128) << k & ((1i128 << top) - 1) };
                        x = high();
                        y = high();
                        if sg && rng.chance(1, 2) { x = -x }
                    }
                    let over = 62 - (rbits as i64 - 1 + f as i64 + f2 as i64 - fr as i64);
                    if !shifted && rng.chance(2, 3) && over > 0 { // make it fit
                        let a = rng.below(over as u64 + 1) as u32;
                        x >>= a.min(31); y >>= (over as u32 - a).min(31);
                    }
                    let r = guard(|| match (sg, rbits) {
                        (true, 32) => few!(f, mul1, I32, I32, fix_i32::mul, f2, fr, x, y),
                        (true, _) => few!(f, mul1, I32, I64, fix_i32::mul_wide, f2, fr, x, y),
                        (false, 32) => few!(f, mul1, U32, U32, fix_u32::mul, f2, fr, x, y),
                        _ => few!(f, mul1, U32, U64, fix_u32::mul_wide, f2, fr, x, y),
                    });
                    b.push(mk("mul", 32, sg, rbits, f, f2, fr, x, y, 0, r));
                }
            }
            // complement of a fraction
            let x = value(&mut rng, bits, true).abs().min((1i128 << (bits - 1)) - 1);
            let r = guard(|| match (bits, sg) {
                (32, true) => FractOnlyI32::new_unchecked(x as i32).flip().raw() as i128,
                (32, false) => FractOnlyU32::new_unchecked(x as u32).flip().raw() as i128,
                (64, true) => FractOnlyI64::new_unchecked(x as i64).flip().raw() as i128,
                _ => FractOnlyU64::new_unchecked(x as u64).flip().raw() as i128,
            });
            b.push(mk("flip", bits, sg, bits, (bits - 1) as u8, 0, 0, x, 0, 0, r));
            // change of signedness of fractions and integers
            let x = value(&mut rng, bits, sg);
            let fo = rng.chance(1, 2);
            let r = guard(|| match (bits, sg, fo) {
                (32, true, true) => FractOnlyI32::new_unchecked(x as i32).to_unsigned().raw() as i128,
                (32, true, false) => NoFractI32::new_unchecked(x as i32).to_unsigned().raw() as i128,
                (32, false, true) => FractOnlyU32::new_unchecked(x as u32).to_signed().raw() as i128,
                (32, false, false) => NoFractU32::new_unchecked(x as u32).to_signed().raw() as i128,
                (64, true, true) => FractOnlyI64::new_unchecked(x as i64).to_unsigned().raw() as i128,
                (64, true, false) => NoFractI64::new_unchecked(x as i64).to_unsigned().raw() as i128,
                (64, false, true) => FractOnlyU64::new_unchecked(x as u64).to_signed().raw() as i128,
                (64, false, false) => NoFractU64::new_unchecked(x as u64).to_signed().raw() as i128,
                _ => unreachable!(),
            });
            b.push(mk("sign", bits, sg, bits, 0, 0, 0, x, 0, 0, r));
            if sg {
                let x = value(&mut rng, bits, sg).max(-(1i128 << (bits - 1)) + 1);
                let r = guard(|| if bits == 32 { I32::<21>::new_unchecked(x as i32).neg().raw() as i128 }
                    else { I64::<40>::new_unchecked(x as i64).neg().raw() as i128 });
                b.push(mk("neg", bits, sg, bits, 0, 0, 0, x, 0, 0, r));
            }
        }
        // limited ranges: weights within 8, stretched probabilities within 12
        let lim = (8i128 << 21) + rng.range(-2, 2) as i128;
        let x = match round % 3 { 0 => lim, 1 => -lim, _ => value(&mut rng, 32, true) };
        b.push(mk("clamp", 32, true, 32, 21, 0, 21, x, 8, 0, guard(|| MixerWeight::new_unchecked(x as i32).clamped().raw() as i128)));
        let lim = (12i128 << 40) + rng.range(-2, 2) as i128;
        let x = match round % 3 { 0 => lim, 1 => -lim, _ => value(&mut rng, 64, true) };
        b.push(mk("clamp", 64, true, 64, 40, 0, 40, x, 12, 0, guard(|| StretchedProbQ::new_unchecked(x as i64).clamped().raw() as i128)));
        let lim = (12i128 << 21) + rng.range(-2, 2) as i128;
        let x = match round % 3 { 0 => lim, 1 => -lim, _ => value(&mut rng, 32, true) };
        b.push(mk("limit", 32, true, 32, 21, 0, 21, x, 12, 0, guard(|| StretchedProbD::new(x as i32, 21).raw() as i128)));
        let n = rng.below(8) as u8;
        let x = match round % 4 {
            0 => 12i128 << 21, 1 => -(12i128 << 21),
            2 => ((rng.range(-12, 11) as i128) << 21) + ((rng.below(1 << n) as i128) << (21 - n)) + rng.range(-1, 1) as i128,
            _ => (rng.range(-(12 << 21), 12 << 21)) as i128,
        }.max(-(12i128 << 21)).min(12i128 << 21);
        b.push(mk("interval", 32, true, 32, 21, 0, 0, x, 12, n as i64,
            guard(|| StretchedProbD::new_unchecked(x as i32).to_interval_index(n) as i128)));
        b.push(mk("stops", 32, true, 32, 21, 0, 0, 0, 12, n as i64, guard(|| StretchedProbD::interval_stops_count(n) as i128)));
        b.push(mk("intervals", 32, true, 32, 21, 0, 0, 0, 12, n as i64, guard(|| StretchedProbD::intervals_count(n) as i128)));
        floats(&mut b, &mut rng);
        limited(&mut b, &mut rng);
        emit(ctx, &mut b, false);
    }
    emit(ctx, &mut b, true);
}
