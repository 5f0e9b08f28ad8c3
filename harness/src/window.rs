//! C07: the input window.
use crate::util::*;
use demixer::bit::Bit;
use demixer::history::window::{InputWindow, WindowIndex};
use std::cell::RefCell;

fn observe(w: &InputWindow) -> String {
    let size = w.size();
    let mut i = w.start();
    let mut bytes = vec![];
    let mut idx = vec![];
    for k in 0..size {
        bytes.push(w[i] as i64);
        idx.push(i.raw() as i64);
        if k + 1 < size { i = w.index_increment(i); }
    }
    let suffixes = RefCell::new(vec![]);
    let r = guard(|| w.for_each_suffix(|i| suffixes.borrow_mut().push(i.raw() as i64)));
    Obj::new().int("start", w.start().raw() as i64).int("cursor", if size > 0 { w.cursor().raw() as i64 } else { -1 })
        .int("size", size as i64).int("max", w.max_size() as i64).ints("bytes", bytes).ints("idx", idx)
        .ints("suf", suffixes.into_inner()).str("suf_err", &r.err().unwrap_or_default()).done()
}

pub fn run(ctx: &mut Ctx) {
    let mut rng = ctx.rng(7);
    for case in 0..ctx.scale(160, 2000) {
        let max = 1 + rng.below(match case % 4 { 0 => 3, 1 => 6, _ => 14 }) as usize;
        let shift = rng.below(max as u64) as usize;
        let alphabet: Vec<u8> = match rng.below(3) { 0 => vec![0, 1], 1 => vec![0x5a, 0xda, 0x5b], _ => (0..=255).collect() };
        let mut ops: Vec<String> = vec![];
        let err = guard(|| {
            let mut w = InputWindow::new(max, shift);
            let steps = 20 + rng.below(40);
            let fill = rng.below(3); // tendency to be empty, mixed or full
            ops.push(Obj::new().str("op", "new").ints("a", vec![]).int("r", 0).raw("obs", &observe(&w)).done());
            for _ in 0..steps {
                let mut push = |op: &str, a: Vec<i64>, r: i64, obs: String| {
                    ops.push(Obj::new().str("op", op).ints("a", a).int("r", r).raw("obs", if obs.is_empty() { "{\"size\":-1}" } else { &obs }).done());
                };
                let size = w.size();
                let ring = |k: usize, w: &InputWindow| WindowIndex::new((w.start().raw() + k) % max);
                match rng.below(16) {
                    0 | 1 | 2 => {
                        let grow = match fill { 0 => rng.chance(1, 3), 1 => rng.chance(1, 2), _ => rng.chance(4, 5) };
                        if grow {
                            if size == max && !rng.chance(1, 6) { continue; }
                            let r = guard(|| w.advance_cursor());
                            push("grow", vec![], r.is_ok() as i64, observe(&w));
                            if r.is_err() { break; }
                            if rng.chance(3, 4) { let v = *rng.pick(&alphabet); w.set_byte_at_cursor(v); push("byte", vec![v as i64], 0, observe(&w)); }
                        } else {
                            if size == 0 && !rng.chance(1, 6) { continue; }
                            let r = guard(|| w.advance_start());
                            push("shrink", vec![], r.is_ok() as i64, observe(&w));
                            if r.is_err() { break; }
                        }
                    }
                    3 if size > 0 => {
                        let (b, j) = (rng.below(2), rng.below(8) as usize);
                        w.set_bit_at_cursor(if b == 1 { Bit::One } else { Bit::Zero }, j);
                        push("bit", vec![j as i64, b as i64], 0, observe(&w));
                    }
                    4 if size > 0 => { // stay full
                        if size == max { w.advance_start(); push("shrink", vec![], 1, observe(&w)); }
                        w.advance_cursor(); push("grow", vec![], 1, observe(&w));
                        let v = *rng.pick(&alphabet); w.set_byte_at_cursor(v); push("byte", vec![v as i64], 0, observe(&w));
                    }
                    5 | 6 | 7 | 8 | 9 if size > 0 => {
                        let (a, b) = (rng.below(size as u64) as usize, rng.below(size as u64) as usize);
                        let room = size - a.max(b);
                        let full = rng.below(room as u64 + 1) as usize;
                        let j = if full == room { 7 } else { rng.below(8) as usize };
                        let r = w.compare_for_equal_prefix(ring(a, &w), ring(b, &w), j, full);
                        push("cmp", vec![a as i64, b as i64, full as i64, j as i64], r as i64, String::new());
                    }
                    10 if size > 0 => {
                        let a = rng.below(size as u64) as usize;
                        let n = rng.below((size - a) as u64 + 1) as usize;
                        push("add", vec![a as i64, n as i64], w.index_add(ring(a, &w), n).raw() as i64, String::new());
                        let a = rng.below(size as u64) as usize;
                        push("inc", vec![a as i64], w.index_increment(ring(a, &w)).raw() as i64, String::new());
                        if a > 0 { push("dec", vec![a as i64], w.index_decrement(ring(a, &w)).raw() as i64, String::new()); }
                    }
                    11 if size > 0 => {
                        let a = rng.below(size as u64) as usize;
                        let n = rng.below(a as u64 + 1) as usize;
                        push("sub", vec![a as i64, n as i64], w.index_subtract(ring(a, &w), n).raw() as i64, String::new());
                    }
                    12 if size > 0 => {
                        let a = rng.below(size as u64) as usize;
                        let b = rng.below(a as u64 + 1) as usize;
                        push("diff", vec![a as i64, b as i64], w.index_diff(ring(a, &w), ring(b, &w)) as i64, String::new());
                    }
                    13 if size > 0 => {
                        let (a, b) = (rng.below(size as u64) as usize, rng.below(size as u64) as usize);
                        push("lt", vec![a as i64, b as i64], w.index_is_smaller(ring(a, &w), ring(b, &w)) as i64, String::new());
                        push("le", vec![a as i64, b as i64], w.index_is_smaller_or_equal(ring(a, &w), ring(b, &w)) as i64, String::new());
                    }
                    14 if size > 0 => {
                        let (a, b, j) = (rng.below(size as u64) as usize, rng.below(size as u64) as usize, rng.below(8) as usize);
                        push("differ", vec![a as i64, b as i64, j as i64], w.bytes_differ_on(ring(a, &w), ring(b, &w), j) as i64, String::new());
                        push("get", vec![a as i64, j as i64], w.get_bit(ring(a, &w), j).to_u8() as i64, String::new());
                    }
                    _ => {}
                }
            }
        }).err().unwrap_or_default();
        ctx.emit(Obj::new().str("kind", "window").int("max", max as i64).int("shift", shift as i64)
            .raw("ops", &list(ops)).str("err", &err));
    }
    for case in 0..ctx.scale(3, 12) { large(ctx, &mut rng, case); }
}

/// windows beyond 16-bit sizes: bytes enter in blocks, a few questions after each
fn large(ctx: &mut Ctx, rng: &mut Rng, case: usize) {
    let max = match case % 3 { 0 => 65_530 + rng.below(12), 1 => 66_000 + rng.below(9_000), _ => 100_000 + rng.below(60_000) } as usize;
    let shift = match rng.below(4) { 0 => 0, 1 => max - 1, _ => rng.below(max as u64) as usize };
    let base: Vec<u8> = (0..*rng.pick(&[1usize, 2, 3, 256, 257, 1000])).map(|_| rng.next() as u8).collect();
    let mut ops: Vec<String> = vec![];
    let mut asked = 0;
    let err = guard(|| {
        let mut w = InputWindow::new(max, shift);
        let mut pos = 0usize;
        let total = max * 2 + rng.below(max as u64) as usize;
        let mut next_stop = 0;
        while pos < total {
            // one block
            let n = match rng.below(4) {
                0 if pos < max => max - pos,
                1 => 65_536 - 300,
                2 => 1 + rng.below(700) as usize,
                _ => 10_000 + rng.below(50_000) as usize,
            };
            let mut block: Vec<u8> = (pos..pos + n).map(|i| base[i % base.len()]).collect();
            for _ in 0..rng.below(3) { let k = rng.below(n as u64) as usize; block[k] ^= 1 << rng.below(8); }
            let lazy = rng.chance(1, 2);
            for b in &block {
                if w.size() == max { w.advance_start(); }
                w.advance_cursor();
                if lazy { w.set_byte_at_cursor(*b); }
                else { for j in (0..8).rev() { w.set_bit_at_cursor((b >> j & 1 == 1).into(), j); } }
            }
            pos += n;
            let full = pos >= next_stop;
            if full { next_stop = pos + max; }
            let obs = if full { observe(&w) } else {
                Obj::new().int("start", w.start().raw() as i64).int("cursor", w.cursor().raw() as i64)
                    .int("size", w.size() as i64).int("max", w.max_size() as i64).done()
            };
            ops.push(Obj::new().str("op", "block").ints("a", block.iter().map(|b| *b as i64)).int("r", 0).raw("obs", &obs).int("full", full as i64).done());
            if rng.chance(1, 3) {
                let n = 1 + rng.below(w.size() as u64 / 2) as usize;
                for _ in 0..n { w.advance_start(); }
                ops.push(Obj::new().str("op", "drop").ints("a", vec![n as i64]).int("r", 0).raw("obs", &observe(&w)).int("full", 1).done());
            }
            let size = w.size() as u64;
            let at = |rng: &mut Rng| match rng.below(4) {
                0 => rng.below(size),
                1 => rng.below(3).min(size - 1),
                2 => size - 1 - rng.below(3).min(size - 1),
                _ => { let p = max - w.start().raw(); ((p as u64) + 2 - rng.below(5).min(p as u64)).min(size - 1) }
            } as usize;
            let ring = |k: usize| WindowIndex::new((w.start().raw() + k) % max);
            for _ in 0..14 {
                asked += 1;
                let (mut a, mut b) = (at(rng), at(rng));
                let mut push = |op: &str, a: Vec<i64>, r: i64| {
                    ops.push(Obj::new().str("op", op).ints("a", a).int("r", r).raw("obs", "{\"size\":-1}").int("full", 0).done());
                };
                // any two distances up to the size
                let n = match rng.below(3) { 0 => size as usize - a, 1 => (size as usize - a).min(65_536), _ => rng.below(size - a as u64) as usize };
                push("add", vec![a as i64, n as i64], w.index_add(ring(a), n).raw() as i64);
                let n = match rng.below(3) { 0 => a, 1 => a.min(65_536), _ => rng.below(a as u64 + 1) as usize };
                push("sub", vec![a as i64, n as i64], w.index_subtract(ring(a), n).raw() as i64);
                push("lt", vec![a as i64, b as i64], w.index_is_smaller(ring(a), ring(b)) as i64);
                push("le", vec![a as i64, b as i64], w.index_is_smaller_or_equal(ring(a), ring(b)) as i64);
                push("diff", vec![a.max(b) as i64, a.min(b) as i64], w.index_diff(ring(a.max(b)), ring(a.min(b))) as i64);
                push("inc", vec![a as i64], w.index_increment(ring(a)).raw() as i64);
                if a > 0 { push("dec", vec![a as i64], w.index_decrement(ring(a)).raw() as i64); }
                let j = rng.below(8) as usize;
                push("get", vec![a as i64, j as i64], w.get_bit(ring(a), j).to_u8() as i64);
                push("differ", vec![a as i64, b as i64, j as i64], w.bytes_differ_on(ring(a), ring(b), j) as i64);
                // a period apart, often equal for long
                if rng.chance(2, 3) { a = rng.below(size.min(600)) as usize; b = (a + base.len() * (1 + rng.below(4) as usize)).min(size as usize - 1); }
                let room = size as usize - a.max(b);
                let mut full = match rng.below(4) { 0 => room, 1 => room - 1, 2 => room.min(65_536), _ => rng.below(room as u64 + 1) as usize };
                if asked % 7 == 0 { // up to the first difference
                    full = 0;
                    while full < room && w[ring(a + full)] == w[ring(b + full)] { full += 1; }
                    full = (full + rng.below(2) as usize).min(room);
                }
                let j = if full == room { 7 } else { rng.below(8) as usize };
                push("cmp", vec![a as i64, b as i64, full as i64, j as i64],
                     w.compare_for_equal_prefix(ring(a), ring(b), j, full) as i64);
            }
        }
    }).err().unwrap_or_default();
    ctx.emit(Obj::new().str("kind", "large").int("max", max as i64).int("shift", shift as i64)
        .raw("ops", &list(ops)).str("err", &err));
}
