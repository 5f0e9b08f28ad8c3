//! C01 / C02: the range coder.
use crate::util::*;
use demixer::bit::Bit;
use demixer::coding::decoder::Decoder;
use demixer::coding::encoder::Encoder;
use demixer::coding::FinalProbability;
use demixer::fixed_point::FixedPoint;
use std::io::{self, Read, Write};

pub const PMAX: i64 = (1 << 23) - 1;

#[derive(Clone, Copy, PartialEq, Debug)]
pub struct Op { pub kind: u8, pub p: i64 }

fn prob(p: i64) -> FinalProbability { FinalProbability::new(p as u32, 23) }

/// a writer that writes one byte at a time and is interrupted now and then
struct QuirkyWriter { data: Vec<u8>, n: u64 }
impl Write for QuirkyWriter {
    fn write(&mut self, buf: &[u8]) -> io::Result<usize> {
        self.n = self.n.wrapping_mul(6364136223846793005).wrapping_add(1442695040888963407);
        if (self.n >> 60) == 0 { return Err(io::Error::new(io::ErrorKind::Interrupted, "interrupted")); }
        if buf.is_empty() { return Ok(0); }
        self.data.push(buf[0]);
        Ok(1)
    }
    fn flush(&mut self) -> io::Result<()> { Ok(()) }
}

struct QuirkyReader<'a> { data: &'a [u8], pos: usize, n: u64 }
impl<'a> Read for QuirkyReader<'a> {
    fn read(&mut self, buf: &mut [u8]) -> io::Result<usize> {
        self.n = self.n.wrapping_mul(6364136223846793005).wrapping_add(1442695040888963407);
        if (self.n >> 60) == 0 { return Err(io::Error::new(io::ErrorKind::Interrupted, "interrupted")); }
        if buf.is_empty() || self.pos >= self.data.len() { return Ok(0); }
        buf[0] = self.data[self.pos];
        self.pos += 1;
        Ok(1)
    }
}

pub fn encode(ops: &[Op]) -> Result<Vec<u8>, String> {
    let mut w = QuirkyWriter { data: Vec::new(), n: ops.len() as u64 };
    guard(|| {
        let mut enc = Encoder::new(&mut w);
        for op in ops {
            match op.kind {
                0 | 1 => enc.encode_bit(prob(op.p), (op.kind == 1).into()),
                k => enc.encode_rare_event(k == 3),
            }
        }
    })?;
    Ok(w.data)
}

/// decisions read back, bytes consumed, error text
pub fn decode(ops: &[Op], bytes: &[u8]) -> (Vec<u8>, usize, String) {
    let mut out = Vec::new();
    let mut r = QuirkyReader { data: bytes, pos: 0, n: bytes.len() as u64 };
    let res = guard(|| {
        let mut dec = Decoder::new(&mut r);
        for op in ops {
            let k = if op.kind < 2 {
                if dec.decode_bit(prob(op.p)) == Bit::One { 1 } else { 0 }
            } else if dec.decode_rare_event() { 3 } else { 2 };
            out.push(k);
        }
    });
    let pos = r.pos;
    (out, pos, res.err().unwrap_or_default())
}

/// mirror of the interval used only to choose interesting probabilities
struct Steer { buf: i64, rng: i64 }
impl Steer {
    fn norm(&mut self) { while self.rng < 1 << 23 { self.buf = (self.buf << 8) & 0x7fff_ffff; self.rng <<= 8; } }
    fn apply(&mut self, op: Op) {
        self.norm();
        let h = (self.rng * op.p.max(1).min(PMAX)) >> 23;
        match op.kind {
            0 => self.rng = h,
            1 => { self.buf = (self.buf + h) & 0x7fff_ffff; self.rng -= h; }
            2 => self.rng -= 1,
            _ => { self.buf = (self.buf + self.rng - 1) & 0x7fff_ffff; self.rng = 1; }
        }
    }
}

fn gen_random(rng: &mut Rng, n: usize) -> Vec<Op> {
    (0..n).map(|_| {
        if rng.chance(1, 12) { return Op { kind: 2 + rng.below(2) as u8, p: 0 }; }
        let p = match rng.below(8) {
            0 => 1, 1 => PMAX, 2 => rng.range(1, 40), 3 => PMAX - rng.range(0, 40),
            4 => 1 << rng.below(23), 5 => PMAX + 1 - (1 << rng.below(23)),
            _ => rng.range(1, PMAX),
        };
        Op { kind: rng.below(2) as u8, p }
    }).collect()
}

/// mostly likely outcomes: few bytes, many decisions
fn gen_skewed(rng: &mut Rng, n: usize) -> Vec<Op> {
    (0..n).map(|_| {
        if rng.chance(1, 3) { return Op { kind: if rng.chance(1, 60) { 3 } else { 2 }, p: 0 }; }
        let q = 1 << rng.below(16);
        let (p, likely) = if rng.chance(1, 2) { (PMAX + 1 - q, 0) } else { (q, 1) };
        Op { kind: if rng.chance(1, 40) { 1 - likely } else { likely }, p }
    }).collect()
}

/// drive the low end of the interval next to a power of two: a long run of pending
/// maximal digits, resolved with or without a carry
pub fn gen_carry(rng: &mut Rng, n: usize, run: usize) -> Vec<Op> {
    let mut s = Steer { buf: 0, rng: 0x7fff_ffff };
    let mut ops: Vec<Op> = Vec::new();
    let mut pending = 0usize;
    let mut want = 1 + rng.below(run as u64 * 2) as usize;
    if run > 100 { want = run; }
    while ops.len() < n {
        while s.rng < 1 << 23 { s.buf = (s.buf << 8) & 0x7fff_ffff; s.rng <<= 8; pending += 1; }
        let gap = (1i64 << 31) - s.buf; // distance from low to the boundary above
        let p_of = |h: i64| ((h << 23) / s.rng).max(1).min(PMAX);
        let h = |p: i64| (s.rng * p) >> 23;
        let op = if s.buf == 0 || gap >= s.rng {
            // the boundary is outside: wander
            pending = 0;
            if rng.chance(1, 4) { Op { kind: 2 + rng.below(2) as u8, p: 0 } }
            else { Op { kind: rng.below(2) as u8, p: rng.range(1, PMAX) } }
        } else if pending < want {
            // keep [low, low+range) around the boundary and make it small
            let t = 1i64 << rng.range(15, 21);
            if gap > 2 * t { Op { kind: 1, p: p_of(gap - t) } }
            else if s.rng > gap + gap / 2 + 600 { Op { kind: 0, p: p_of(gap + gap / 2 + 300) } }
            else { Op { kind: 0, p: PMAX } }
        } else {
            // resolve: just above, exactly on or below the boundary
            pending = 0;
            want = 1 + rng.below(run as u64 * 2) as usize;
            if run > 100 { want = run; }
            let mut above = p_of(gap);
            while above < PMAX && h(above) < gap { above += 1; }
            match rng.below(5) {
                0 => Op { kind: 0, p: (above - 1).max(1) },
                1 => Op { kind: 1, p: above },
                2 => Op { kind: 3, p: 0 },
                3 => Op { kind: 1, p: (above - 1).max(1) },
                _ => Op { kind: 1, p: (above + rng.range(0, 3)).min(PMAX) },
            }
        };
        s.apply(op);
        ops.push(op);
    }
    ops
}

fn record(ctx: &mut Ctx, kind: &str, ops: &[Op], rng: &mut Rng) {
    ctx.journal(&format!("coder {} ops={:?}", kind, ops.iter().take(2000).map(|o| (o.kind, o.p)).collect::<Vec<_>>()));
    let mut err = String::new();
    let bytes = match encode(ops) { Ok(b) => b, Err(e) => { err = format!("encode: {}", e); Vec::new() } };
    // the code is followed by unrelated data which must not be touched
    let mut padded = bytes.clone();
    for _ in 0..6 { padded.push(rng.next() as u8); }
    let (dec, consumed, derr) = if err.is_empty() { decode(ops, &padded) } else { (vec![], 0, String::new()) };
    if !derr.is_empty() { err = format!("decode: {}", derr); }
    // cut the code short: decoding must stop, never invent decisions from missing bytes
    let cut = if bytes.len() > 4 { rng.range(4, bytes.len() as i64 - 1) as usize } else { 4 };
    let (cdec, _, _) = if err.is_empty() && cut < bytes.len() { decode(ops, &bytes[..cut]) } else { (dec.clone(), 0, String::new()) };
    ctx.emit(Obj::new().str("kind", kind)
        .ints("k", ops.iter().map(|o| o.kind as i64))
        .ints("p", ops.iter().map(|o| o.p.max(1).min(PMAX)))
        .ints("bytes", bytes.iter().map(|b| *b as i64))
        .ints("dec", dec.iter().map(|b| *b as i64))
        .int("consumed", consumed as i64)
        .int("cut", if cut < bytes.len() { cut as i64 } else { -1 })
        .ints("cdec", cdec.iter().map(|b| *b as i64))
        .str("err", &err));
}

fn record_foreign(ctx: &mut Ctx, rng: &mut Rng, n: usize) {
    // decode arbitrary bytes (first byte below 0xff so that the code lies in the interval)
    let mut bytes: Vec<u8> = (0..3 * n + 16).map(|_| match rng.below(6) { 0 => 0xff, 1 => 0, _ => rng.next() as u8 }).collect();
    bytes[0] = rng.below(255) as u8;
    let ops = if rng.chance(1, 2) { gen_random(rng, n) } else { gen_skewed(rng, n) };
    ctx.journal(&format!("foreign bytes={:?} ops={:?}", bytes, ops.iter().map(|o| (o.kind, o.p)).collect::<Vec<_>>()));
    let (dec, consumed, err) = decode(&ops, &bytes);
    ctx.emit(Obj::new().str("kind", "foreign")
        .ints("k", ops.iter().map(|o| o.kind as i64))
        .ints("p", ops.iter().map(|o| o.p.max(1).min(PMAX)))
        .ints("bytes", bytes.iter().map(|b| *b as i64))
        .ints("dec", dec.iter().map(|b| *b as i64))
        .int("consumed", consumed as i64)
        .int("cut", -1).ints("cdec", vec![])
        .str("err", &err));
}

/// large cases, summarised: position of the first wrong decision, sizes, information content
fn record_bulk(ctx: &mut Ctx, kind: &str, ops: &[Op]) {
    ctx.journal(&format!("bulk coder {} with {} decisions", kind, ops.len()));
    let mut err = String::new();
    let bytes = match encode(ops) { Ok(b) => b, Err(e) => { err = format!("encode: {}", e); Vec::new() } };
    let mut padded = bytes.clone();
    padded.extend_from_slice(&[0xa5, 0x5a, 0xff, 0, 0xff, 0xff]);
    let (dec, consumed, derr) = decode(ops, &padded);
    if err.is_empty() && !derr.is_empty() { err = format!("decode: {}", derr); }
    let wrong = ops.iter().zip(dec.iter()).position(|(o, d)| o.kind != *d).map(|x| x as i64)
        .unwrap_or(if dec.len() == ops.len() { -1 } else { dec.len() as i64 });
    // number of renormalisations, from the interval widths alone
    let mut s = Steer { buf: 0, rng: 0x7fff_ffff };
    let mut shifts = 0i64;
    for o in ops {
        while s.rng < 1 << 23 { s.rng <<= 8; shifts += 1; }
        s.apply(*o);
    }
    let maxrun = { let mut m = 0; let mut c = 0; for b in &bytes { if *b == 0xff || *b == 0 { c += 1; if c > m { m = c } } else { c = 0 } } m };
    ctx.emit(Obj::new().str("kind", "bulk").str("what", kind)
        .int("n", ops.len() as i64).int("len", bytes.len() as i64).int("consumed", consumed as i64)
        .int("wrong", wrong).int("decoded", dec.len() as i64).int("shifts", shifts).int("maxrun", maxrun)
        .str("err", &err));
}

pub fn parse_ops(text: &str) -> Vec<Op> {
    let v: Vec<i64> = text.split_whitespace().map(|x| x.parse().unwrap()).collect();
    v.chunks(2).map(|c| Op { kind: c[0] as u8, p: c[1] }).collect()
}

pub fn run(ctx: &mut Ctx) {
    let mut rng = ctx.rng(1);
    // behaviours generated from the specification
    if let Some(path) = ctx.input.clone() {
        for line in std::fs::read_to_string(&path).unwrap().lines() {
            let ops = parse_ops(line);
            record(ctx, "spec", &ops, &mut rng);
        }
    }
    record(ctx, "empty", &[], &mut rng);
    for k in 0..4u8 { for &p in &[1, 2, 1 << 22, PMAX - 1, PMAX, 0, PMAX + 1] {
        record(ctx, "single", &[Op { kind: k, p }], &mut rng);
        for k2 in 0..4u8 { record(ctx, "pair", &[Op { kind: k, p }, Op { kind: k2, p: PMAX - p + 1 }], &mut rng); }
    } }
    let n = ctx.scale(60, 600);
    for i in 0..n {
        let len = 20 + rng.below(180) as usize;
        let ops = gen_random(&mut rng, len);
        record(ctx, "random", &ops, &mut rng);
        let len = 50 + rng.below(400) as usize;
        let ops = gen_skewed(&mut rng, len);
        record(ctx, "skewed", &ops, &mut rng);
        let run = [1, 2, 3, 5, 9, 30][i % 6];
        let ops = gen_carry(&mut rng, 120, run);
        record(ctx, "carry", &ops, &mut rng);
        record_foreign(ctx, &mut rng, 60);
    }
    // very long pending runs
    for &run in &[200usize, 300] {
        let ops = gen_carry(&mut rng, run * 2 + 60, run);
        record(ctx, "longcarry", &ops, &mut rng);
    }
    let m = ctx.scale(6, 40);
    for i in 0..m {
        let ops = gen_random(&mut rng, 200_000); record_bulk(ctx, "random", &ops);
        let ops = gen_skewed(&mut rng, 400_000); record_bulk(ctx, "skewed", &ops);
        let ops = gen_carry(&mut rng, 300_000, [40, 255, 256, 257, 1000, 5000, 40_000, 70_000][i % 8]); record_bulk(ctx, "carry", &ops);
    }
    let ops = gen_carry(&mut rng, 160_000, 66_000); record_bulk(ctx, "carry", &ops);
    let ops: Vec<Op> = (0..3_000_000).map(|_| Op { kind: 2, p: 0 }).chain(Some(Op { kind: 3, p: 0 })).collect();
    record_bulk(ctx, "rare", &ops);
}
