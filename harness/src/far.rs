//! C03..C05 at scale: texts longer than any 16-bit counter, trees of thousands of nodes. Reports and
//! shapes are recorded at chosen points only; the specification knows what they must be there.
use crate::gens::gen_bytes;
use crate::history::{shape, state_json};
use crate::util::*;
use demixer::history::fat_map::FatMapHistorySource;
use demixer::history::naive::NaiveHistorySource;
use demixer::history::tree::node::CostTrackers;
use demixer::history::tree::TreeHistorySource;
use demixer::history::{CollectedContextStates, HistorySource};
use demixer::lut::LookUpTables;

struct Far { bytes: Vec<u8>, points: Vec<usize>, max_order: usize, window: usize, shift: usize }

/// filler over a few letters, and words that come back after a chosen distance
fn far_case(rng: &mut Rng, len: usize, distances: &[usize]) -> (Vec<u8>, Vec<usize>) {
    let letters: Vec<u8> = (0..2 + rng.below(4)).map(|_| rng.next() as u8 & 0x3f).collect();
    let mut bytes = gen_bytes(rng, len / 2);
    for b in bytes.iter_mut() { *b &= 0x3f; }
    while bytes.len() < len { bytes.push(*rng.pick(&letters)); }
    let mut points = vec![];
    for (n, &d) in distances.iter().enumerate() {
        let word: Vec<u8> = (0..4).map(|k| if k == 0 { 0xc0 + n as u8 } else { 0x40 + (rng.next() as u8 & 0x3f) }).collect();
        let second = len - 12 * (distances.len() - n);
        if second < d { continue; }
        let first = second - d;
        for k in 0..4 { bytes[first + k] = word[k]; bytes[second + k] = word[k]; }
        bytes[second + 4] = bytes[first + 4] ^ 1;
        points.extend(&[second + 1, second + 3, second + 4]);
    }
    points.push(len - 1);
    points.push(len / 2);
    points.sort();
    points.dedup();
    (bytes, points)
}

fn follow<'a, S: HistorySource<'a>>(source: &mut S, case: &Far, everywhere: bool, end: &mut dyn FnMut(&S)) -> Vec<String> {
    let mut states = CollectedContextStates::new(case.max_order);
    let mut out = vec![];
    for (i, byte) in case.bytes.iter().enumerate() {
        source.start_new_byte();
        let point = case.points.binary_search(&i).is_ok();
        if i + 1 == case.bytes.len() { end(source); }
        let mut reports = vec![];
        for bit_index in (0..8).rev() {
            states.reset();
            if everywhere || point { source.gather_history_states(&mut states); }
            if point { reports.push(list(states.items().iter().map(state_json))); }
            let nodes = states.items().iter().filter(|s| s.is_for_node()).count();
            source.process_input_bit(((byte >> bit_index) & 1 == 1).into(), &vec![CostTrackers::DEFAULT; nodes]);
        }
        if point { out.push(list(reports)); }
    }
    out
}

fn emit_far(ctx: &mut Ctx, luts: &LookUpTables, case: &Far, plain: bool) {
    let mut names = vec!["tree"];
    let mut found = vec![];
    ctx.journal(&format!("far text: {} bytes, window {} max_order {} shift {}", case.bytes.len(), case.window, case.max_order, case.shift));
    let mut err = String::new();
    let mut take = |r: Result<Vec<String>, String>, name: &str| match r {
        Ok(r) => found.push(list(r)),
        Err(e) => { found.push("[]".to_string()); err = format!("{}: {}", name, e); }
    };
    take(guard(|| {
        let mut s = TreeHistorySource::new_special(case.window, case.max_order, case.shift, luts);
        follow(&mut s, case, true, &mut |s| s.check_integrity_on_next_byte())
    }), "tree");
    if plain {
        take(guard(|| {
            let mut s = FatMapHistorySource::new(case.window, case.max_order, luts);
            follow(&mut s, case, true, &mut |_| ())
        }), "fat_map");
        take(guard(|| {
            let mut s = NaiveHistorySource::new(case.window, case.max_order, luts);
            follow(&mut s, case, false, &mut |_| ())
        }), "naive");
        names = vec!["tree", "fat_map", "naive"];
    }
    ctx.emit(Obj::new().str("kind", "far").raw("sources", &list(names.iter().map(|n| quote(n))))
        .int("w", case.window as i64).int("mo", case.max_order as i64).int("shift", case.shift as i64)
        .ints("bytes", case.bytes.iter().map(|b| *b as i64))
        .ints("points", case.points.iter().map(|p| *p as i64))
        .raw("rep", &list(found)).str("err", &err));
}

/// a section that returns a few times: contexts of hundreds of bytes
fn deep_case(rng: &mut Rng, slides: bool) -> Far {
    let max_order = *rng.pick(&[130usize, 130, 200, 255, 256, 257, 300]);
    let section_len = max_order + 20 + rng.below(60) as usize;
    let periodic = max_order < 256 && rng.chance(1, 3);
    let section: Vec<u8> = match rng.below(2) {
        0 if periodic => { let w: Vec<u8> = (0..2 + rng.below(5)).map(|_| rng.next() as u8).collect(); (0..section_len).map(|i| w[i % w.len()]).collect() }
        1 if periodic => vec![rng.next() as u8; section_len],
        _ => (0..section_len).map(|_| rng.next() as u8).collect(),
    };
    let mut bytes = gen_bytes(rng, 50);
    let mut starts = vec![];
    for n in 0..3 + rng.below(2) {
        let filler = 5 + rng.below(120) as usize;
        bytes.extend(gen_bytes(rng, filler));
        starts.push(bytes.len());
        // from the second time on with another end
        let keep = if n == 0 { section_len } else { section_len - rng.below(18) as usize };
        bytes.extend(&section[..keep]);
        let last = bytes.len() - 1;
        if n > 0 { bytes[last] ^= 1 << rng.below(8); }
    }
    bytes.extend(gen_bytes(rng, 12));
    let mut points = vec![bytes.len() - 1];
    for &s in &starts[1..] {
        for &o in &[127, 128, 129, 255, 256, 257, max_order, max_order + 1, section_len - 18, section_len - 9, section_len - 3] {
            if s + o < bytes.len() && rng.chance(2, 3) { points.push(s + o); }
        }
    }
    // the window forgets the first sections halfway or in their first bytes
    let n = bytes.len();
    let window = if !slides { n } else { (n - starts[rng.below(2) as usize] - rng.below(max_order as u64 + 9) as usize).max(max_order + 40) };
    if slides {
        for k in 0..5 { let s = *rng.pick(&starts[..2]) + rng.below(max_order as u64) as usize + window - k; if s < n { points.push(s); } }
    }
    points.sort();
    points.dedup();
    if periodic { while points.len() > 3 { let k = rng.below(points.len() as u64) as usize; points.remove(k); } }
    Far { bytes, points, max_order, window, shift: rng.below(window as u64) as usize }
}

/// without sliding
pub fn run_plain(ctx: &mut Ctx) {
    let luts = LookUpTables::new();
    let mut rng = ctx.rng(31);
    for _ in 0..ctx.scale(4, 25) {
        let case = deep_case(&mut rng, false);
        emit_far(ctx, &luts, &case, true);
    }
    for _ in 0..ctx.scale(1, 3) {
        let len = 66_000 + rng.below(3_000) as usize + if ctx.thorough { 70_000 } else { 0 };
        let mut distances = vec![32_768, 65_535, 65_536];
        distances.push(256 + rng.below(600) as usize);
        distances.push(len - 300 - rng.below(900) as usize);
        let (bytes, points) = far_case(&mut rng, len, &distances);
        let case = Far { bytes, points, max_order: 1 + rng.below(4) as usize, window: len, shift: 0 };
        emit_far(ctx, &luts, &case, true);
    }
    for _ in 0..ctx.scale(1, 3) {
        let case = run_case(&mut rng);
        emit_far(ctx, &luts, &case, true);
    }
}

/// more than 65,536 equal bytes, and then others
fn run_case(rng: &mut Rng) -> Far {
    let x = rng.next() as u8;
    let n = 65_537 + rng.below(900) as usize;
    let mut bytes = vec![x; n];
    let mut points = vec![n - 1];
    for _ in 0..4 + rng.below(5) {
        points.push(bytes.len());
        let y = match rng.below(3) { 0 => x, 1 => x ^ 1 << rng.below(8), _ => rng.next() as u8 };
        bytes.push(if points.len() == 2 && x == y { !x } else { y });
    }
    Far { window: bytes.len(), bytes, points, max_order: 1 + rng.below(3) as usize, shift: 0 }
}

/// large windows that slide
pub fn run_sliding(ctx: &mut Ctx) {
    let luts = LookUpTables::new();
    let mut rng = ctx.rng(32);
    for _ in 0..ctx.scale(6, 30) {
        let case = deep_case(&mut rng, true);
        emit_far(ctx, &luts, &case, false);
    }
    for i in 0..ctx.scale(2, 6) {
        let window = if i % 2 == 0 { 66_000 + rng.below(1_500) as usize } else { 2_000 + rng.below(9_000) as usize };
        let len = window * 2 + rng.below(2_000) as usize;
        let distances = [65_536, window - 1, window - 2, window - 3, window - 4, window - 5, window, window + 1, window / 2];
        let (bytes, points) = far_case(&mut rng, len, &distances);
        let case = Far { bytes, points, max_order: 1 + rng.below(4) as usize, window, shift: rng.below(window as u64) as usize };
        emit_far(ctx, &luts, &case, false);
    }
}

/// trees of hundreds or thousands of nodes that grow, collapse and grow again
pub fn run_trees(ctx: &mut Ctx) {
    let luts = LookUpTables::new();
    let mut rng = ctx.rng(33);
    for i in 0..ctx.scale(5, 20) {
        let window = match i % 5 {
            0 | 1 => 300 + rng.below(500),
            2 | 3 => 1_000 + rng.below(1_200),
            _ => if ctx.thorough { 66_000 + rng.below(1_500) } else { 5_000 + rng.below(2_000) },
        } as usize;
        let max_order = 1 + rng.below(6) as usize;
        let mut bytes: Vec<u8> = vec![];
        let mut points = vec![];
        for part in 0..4 {
            let mut n = window / 2 + rng.below(window as u64) as usize;
            // every other tree grows, loses all of its nodes, and grows again
            let kind = match (i % 2, part % 2) { (0, 1) => { n = window + 20; 0 } (0, _) => { n = n.max(window); 2 } _ => rng.below(4) };
            match kind {
                0 => bytes.extend(vec![rng.next() as u8; n]),
                1 => bytes.extend(gen_bytes(&mut rng, n)),
                _ => bytes.extend((0..n).map(|_| rng.next() as u8)),
            }
            points.push(bytes.len() - 1 - if i % 2 == 0 { rng.below(12) } else { rng.below(window as u64 / 3) } as usize);
        }
        let shift = rng.below(window as u64) as usize;
        ctx.journal(&format!("tree: window {} max_order {} shift {} bytes {:?}", window, max_order, shift, bytes));
        let (mut live, mut shapes, mut order) = (vec![], vec![], vec![]);
        let err = guard(|| {
            let mut s = TreeHistorySource::new_special(window, max_order, shift, &luts);
            let mut states = CollectedContextStates::new(max_order);
            for (i, byte) in bytes.iter().enumerate() {
                s.start_new_byte();
                if points.contains(&i) {
                    s.check_integrity_on_next_byte();
                    shapes.push(shape(&s.tree));
                    // a proposed order of the suffixes, which the specification verifies
                    let text = &bytes[(i + 1).saturating_sub(window)..i];
                    let mut all: Vec<usize> = (0..text.len()).collect();
                    all.sort_by_key(|&a| &text[a..(a + max_order + 1).min(text.len())]);
                    order.push(arr(all.iter().map(|a| *a as i64)));
                }
                live.push(s.tree.nodes().live_nodes_count() as i64);
                for bit_index in (0..8).rev() {
                    states.reset();
                    s.gather_history_states(&mut states);
                    let nodes = states.items().iter().filter(|s| s.is_for_node()).count();
                    s.process_input_bit(((byte >> bit_index) & 1 == 1).into(), &vec![CostTrackers::DEFAULT; nodes]);
                }
            }
        }).err().unwrap_or_default();
        ctx.emit(Obj::new().str("kind", "tree").int("w", window as i64).int("mo", max_order as i64).int("shift", shift as i64)
            .ints("bytes", bytes.iter().map(|b| *b as i64)).ints("points", points.iter().map(|p| *p as i64))
            .ints("live", live).raw("shape", &list(shapes)).raw("order", &list(order)).str("err", &err));
    }
}
