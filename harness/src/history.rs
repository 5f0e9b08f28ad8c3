//! C03..C06: history sources, with and without a sliding window.
use crate::gens::*;
use crate::util::*;
use demixer::bit::Bit;
use demixer::estimators::cost::CostTracker;
use demixer::history::fat_map::FatMapHistorySource;
use demixer::history::naive::NaiveHistorySource;
use demixer::history::state::recent_bits::RecentBitsHistory;
use demixer::history::tree::direction::Direction;
use demixer::history::tree::node::CostTrackers;
use demixer::history::tree::nodes::NodeIndex;
use demixer::history::tree::{Tree, TreeHistorySource, TreeState};
use demixer::history::window::WindowIndex;
use demixer::history::{CollectedContextStates, ContextState, HistorySource};
use demixer::fixed_point::FixedPoint;
use demixer::lut::LookUpTables;

/// all remembered bits, oldest first, recovered through the public histogram
pub fn recent_vec(r: RecentBitsHistory) -> Vec<i64> {
    let ones = |r: &RecentBitsHistory| (r.histogram() >> 4) as i64;
    let len = |r: &RecentBitsHistory| ones(r) + (r.histogram() & 15) as i64;
    let n = len(&r);
    let mut cur = r;
    for _ in 0..(15 - n).max(0) { cur = cur.updated(Bit::Zero); }
    // pushing zeros out drops the oldest bits one by one
    let mut out = Vec::new();
    for _ in 0..n {
        let next = cur.updated(Bit::Zero);
        out.push(ones(&cur) - ones(&next));
        cur = next;
    }
    out
}

pub fn state_json(s: &ContextState) -> String {
    match s {
        ContextState::ForEdge { last_occurrence_distance, occurrence_count, repeated_bit } =>
            arr(vec![0, *last_occurrence_distance as i64, *occurrence_count as i64, repeated_bit.to_u32() as i64]),
        ContextState::ForNode { last_occurrence_distance, probability_estimator, recent_bits, bits_runs, cost_trackers } => {
            let mut v = vec![1, *last_occurrence_distance as i64,
                probability_estimator.prediction().raw() as i64, probability_estimator.usage_count() as i64,
                bits_runs.last_bit().to_u32() as i64, bits_runs.last_bit_run_length() as i64,
                bits_runs.opposite_bit_run_length() as i64, bits_runs.last_bit_previous_run_length() as i64,
                cost_trackers.stationary().raw() as i64, cost_trackers.non_stationary().raw() as i64];
            v.extend(recent_vec(*recent_bits));
            arr(v)
        }
    }
}

fn random_costs(states: &[ContextState], rng: &mut Rng, neutral: bool) -> Vec<CostTrackers> {
    states.iter().filter(|s| s.is_for_node()).map(|_| if neutral { CostTrackers::DEFAULT } else {
        // back to what a new node may have, to the extremes, or anywhere
        let mut one = || match rng.below(8) {
            0 => CostTracker::INITIAL,
            1 => CostTracker::new(*rng.pick(&[0, 0xffff])),
            _ => CostTracker::new(rng.next() as u16),
        };
        let (a, b) = (one(), one());
        if rng.chance(1, 6) { CostTrackers::DEFAULT } else { CostTrackers::new(a, b) }
    }).collect()
}

fn costs_json(c: &[CostTrackers]) -> String {
    list(c.iter().map(|c| arr(vec![c.stationary().raw() as i64, c.non_stationary().raw() as i64])))
}


/// what a history source reported before each bit
pub fn follow<'a, S: HistorySource<'a>>(source: &mut S, case: &Case, rng: &mut Rng, neutral: bool,
                                    reports: &mut Vec<String>, costs: &mut Vec<String>,
                                    each: &mut dyn FnMut(&S, usize)) {
    let mut states = CollectedContextStates::new(case.max_order);
    for byte in case.bytes.iter() {
        source.start_new_byte();
        for bit_index in (0..8).rev() {
            each(source, bit_index);
            states.reset();
            source.gather_history_states(&mut states);
            reports.push(list(states.items().iter().map(state_json)));
            let c = random_costs(states.items(), rng, neutral);
            costs.push(costs_json(&c));
            source.process_input_bit(((byte >> bit_index) & 1 == 1).into(), &c);
        }
    }
}

pub fn shape(tree: &Tree) -> String {
    // every node as [depth, offset of its oldest-path left leaf, of a right leaf, left is leaf, right is leaf]
    let mut out = Vec::new();
    if tree.tree_state() == TreeState::Proper {
        fn some_leaf(tree: &Tree, node: NodeIndex, dir: Direction) -> WindowIndex {
            let mut c = tree.nodes()[node].child(dir);
            let mut steps = 0;
            while c.is_node_index() {
                steps += 1;
                assert!(steps < 1_000_000, "cyclic tree");
                c = tree.nodes()[c.to_node_index()].child(Direction::Left);
            }
            c.to_window_index()
        }
        let mut stack = vec![tree.get_root_node_index()];
        while let Some(n) = stack.pop() {
            assert!(out.len() < 1_000_000, "cyclic tree");
            let node = &tree.nodes()[n];
            let l = tree.window.index_diff(some_leaf(tree, n, Direction::Left), tree.window.start());
            let r = tree.window.index_diff(some_leaf(tree, n, Direction::Right), tree.window.start());
            let (lc, rc) = (node.child(Direction::Left), node.child(Direction::Right));
            out.push(arr(vec![node.depth() as i64, l as i64, r as i64,
                lc.is_window_index() as i64, rc.is_window_index() as i64]));
            if lc.is_node_index() { stack.push(lc.to_node_index()); }
            if rc.is_node_index() { stack.push(rc.to_node_index()); }
        }
    }
    list(out)
}

pub fn emit_tree(ctx: &mut Ctx, kind: &str, case: &Case, luts: &LookUpTables, rng: &mut Rng) {
    ctx.journal(&format!("{} window={} max_order={} shift={} bytes={:?}", kind, case.window, case.max_order, case.shift, case.bytes));
    let (mut reports, mut costs, mut live, mut shapes, mut starts) = (vec![], vec![], vec![], vec![], vec![]);
    let err = guard(|| {
        let mut s = TreeHistorySource::new_special(case.window, case.max_order, case.shift, luts);
        follow(&mut s, case, rng, false, &mut reports, &mut costs, &mut |s, bit_index| {
            if bit_index == 7 {
                s.check_integrity_on_next_byte();
                shapes.push(shape(&s.tree));
                starts.push(s.tree.window.size() as i64);
            }
            live.push(s.tree.nodes().live_nodes_count() as i64);
        });
    }).err().unwrap_or_default();
    ctx.emit(Obj::new().str("kind", kind).str("source", "tree")
        .int("w", case.window as i64).int("mo", case.max_order as i64).int("shift", case.shift as i64)
        .ints("bytes", case.bytes.iter().map(|b| *b as i64))
        .raw("rep", &list(reports)).raw("costs", &list(costs))
        .ints("live", live).raw("shape", &list(shapes)).ints("size", starts)
        .str("err", &err));
}

pub fn emit_plain<'a, S: HistorySource<'a>>(ctx: &mut Ctx, name: &str, case: &Case, luts: &'a LookUpTables,
                                            rng: &mut Rng, neutral: bool) {
    ctx.journal(&format!("{} max_order={} bytes={:?}", name, case.max_order, case.bytes));
    let (mut reports, mut costs) = (vec![], vec![]);
    let err = guard(|| {
        let mut s = S::new(case.window, case.max_order, luts);
        follow(&mut s, case, rng, neutral, &mut reports, &mut costs, &mut |_, _| ());
    }).err().unwrap_or_default();
    ctx.emit(Obj::new().str("kind", "plain").str("source", name)
        .int("w", case.window as i64).int("mo", case.max_order as i64).int("shift", 0)
        .ints("bytes", case.bytes.iter().map(|b| *b as i64))
        .raw("rep", &list(reports)).raw("costs", &list(costs))
        .raw("live", "[]").raw("shape", "[]").raw("size", "[]")
        .str("err", &err));
}

fn emit_luts(ctx: &mut Ctx, luts: &LookUpTables) {
    ctx.emit(Obj::new().str("kind", "luts").ints("cost", (0..=1000u16).map(|n| luts.cost_trackers_lut().for_new_node(n).raw() as i64))
        .str("err", ""));
}

/// no sliding: the three sources
pub fn run_plain(ctx: &mut Ctx) {
    let luts = LookUpTables::new();
    let mut rng = ctx.rng(3);
    emit_luts(ctx, &luts);
    {
        // run lengths beyond the counters' limit
        let mut bytes = vec![b'q'; 1003];
        bytes.extend(b"pqqr");
        let case = Case { max_order: 1, window: bytes.len(), shift: 0, bytes };
        emit_plain::<NaiveHistorySource>(ctx, "naive", &case, &luts, &mut rng, true);
        emit_plain::<FatMapHistorySource>(ctx, "fat_map", &case, &luts, &mut rng, false);
        emit_tree(ctx, "plain", &case, &luts, &mut rng);
    }
    for _ in 0..ctx.scale(1, 6) {
        let case = deep_case(&mut rng, false);
        emit_plain::<FatMapHistorySource>(ctx, "fat_map", &case, &luts, &mut rng, false);
        emit_plain::<NaiveHistorySource>(ctx, "naive", &case, &luts, &mut rng, true);
        emit_tree(ctx, "plain", &case, &luts, &mut rng);
    }
    for i in 0..ctx.scale(24, 220) {
        let n = 2 + rng.below(if i % 3 == 0 { 34 } else { 18 }) as usize;
        let bytes = gen_bytes(&mut rng, n);
        let case = Case { max_order: *rng.pick(&[0, 1, 2, 3, 5, 9, n]), window: n + rng.below(3) as usize, shift: 0, bytes };
        emit_plain::<NaiveHistorySource>(ctx, "naive", &case, &luts, &mut rng, true);
        emit_plain::<FatMapHistorySource>(ctx, "fat_map", &case, &luts, &mut rng, false);
        let shift = rng.below(case.window as u64) as usize;
        let tree_case = Case { shift, ..case };
        emit_tree(ctx, "plain", &tree_case, &luts, &mut rng);
    }
    for case in hunt(&mut rng, ctx.scale(60_000, 1_000_000), false, 4) {
        emit_plain::<NaiveHistorySource>(ctx, "naive", &case, &luts, &mut rng, true);
        emit_plain::<FatMapHistorySource>(ctx, "fat_map", &case, &luts, &mut rng, false);
        emit_tree(ctx, "plain", &case, &luts, &mut rng);
    }
}

/// small windows that slide many times
pub fn run_sliding(ctx: &mut Ctx) {
    let luts = LookUpTables::new();
    let mut rng = ctx.rng(4);
    emit_luts(ctx, &luts);
    // counters and cost tables at their limits
    for &(a, b, len) in &[(b'a', b'b', 1060usize), (0u8, 255u8, 2030)] {
        let mut bytes: Vec<u8> = (0..len).map(|i| if i % 2 == 0 { a } else { b }).collect();
        let at = len - 12;
        bytes[at] = a ^ 4; bytes[at + 5] = b;
        let case = Case { window: 5 + rng.below(4) as usize, max_order: 1 + rng.below(2) as usize, shift: rng.below(5) as usize, bytes };
        emit_tree(ctx, "sliding", &case, &luts, &mut rng);
    }
    {
        let mut bytes = vec![b'q'; 1012];
        bytes.extend(b"pqqqqpqq");
        let case = Case { window: 1004 + rng.below(6) as usize, max_order: 2, shift: 7, bytes };
        emit_tree(ctx, "sliding", &case, &luts, &mut rng);
    }
    for i in 0..ctx.scale(2, 10) {
        let case = deep_case(&mut rng, i % 2 == 0);
        emit_tree(ctx, "sliding", &case, &luts, &mut rng);
    }
    let n = ctx.scale(150, 1200);
    for i in 0..n {
        let window = match i % 4 { 0 => 1 + rng.below(4), 1 => 2 + rng.below(7), 2 => 5 + rng.below(12), _ => 2 + rng.below(30) } as usize;
        let len = window + rng.below(30 + 2 * window as u64) as usize;
        let bytes = gen_bytes(&mut rng, len);
        let max_order = if rng.chance(1, 5) { rng.below(2 * window as u64 + 3) as usize } else { rng.below(window as u64 + 1).min(7) as usize };
        let case = Case { window, max_order, shift: rng.below(window as u64) as usize, bytes };
        emit_tree(ctx, "sliding", &case, &luts, &mut rng);
    }
    for case in hunt(&mut rng, ctx.scale(150_000, 3_000_000), true, 6) {
        emit_tree(ctx, "sliding", &case, &luts, &mut rng);
    }
}

/// kinds and distances before a bit, or all there is but the costs
fn seen(states: &CollectedContextStates, all: bool, out: &mut Vec<i64>) {
    out.clear();
    for s in states.items() {
        out.push(s.last_occurrence_distance() as i64 * 2 + s.is_for_node() as i64);
        if !all { continue; }
        match s {
            ContextState::ForEdge { occurrence_count, repeated_bit, .. } =>
                out.push(*occurrence_count as i64 * 2 + repeated_bit.to_u32() as i64),
            ContextState::ForNode { probability_estimator, recent_bits, bits_runs, .. } => out.extend(&[
                probability_estimator.prediction().raw() as i64, probability_estimator.usage_count() as i64,
                recent_bits.histogram() as i64, bits_runs.last_bit_run_length() as i64,
                bits_runs.opposite_bit_run_length() as i64, bits_runs.last_bit_previous_run_length() as i64]),
        }
    }
}

/// do the repository's own sources disagree, or stop?  Only a hint where to look: the
/// specification judges such cases.
fn suspicious(case: &Case, slide: bool, luts: &LookUpTables) -> bool {
    guard(|| {
        let mut tree = TreeHistorySource::new_special(case.window, case.max_order, case.shift, luts);
        let mut fat = FatMapHistorySource::new(case.bytes.len() + 1, case.max_order, luts);
        let mut naive = NaiveHistorySource::new(case.bytes.len() + 1, case.max_order, luts);
        let mut states = CollectedContextStates::new(case.max_order);
        let (mut a, mut b) = (vec![], vec![]);
        for (i, &byte) in case.bytes.iter().enumerate() {
            if slide {
                // only what is inside the window
                naive = NaiveHistorySource::new(case.window + 1, case.max_order, luts);
                for &old in &case.bytes[(i + 1).saturating_sub(case.window)..i] {
                    naive.start_new_byte();
                    for bit in bits(old) { naive.process_input_bit(bit, &[]); }
                }
            } else { fat.start_new_byte(); }
            tree.start_new_byte();
            naive.start_new_byte();
            if i % 7 == 3 { tree.check_integrity_on_next_byte(); }
            for bit in bits(byte) {
                states.reset();
                naive.gather_history_states(&mut states);
                seen(&states, !slide, &mut b);
                if !slide {
                    states.reset();
                    fat.gather_history_states(&mut states);
                    seen(&states, !slide, &mut a);
                    if a != b { return true; }
                    let nodes = states.items().iter().filter(|s| s.is_for_node()).count();
                    fat.process_input_bit(bit, &vec![CostTrackers::DEFAULT; nodes]);
                }
                states.reset();
                tree.gather_history_states(&mut states);
                seen(&states, !slide, &mut a);
                if a != b { return true; }
                let nodes = states.items().iter().filter(|s| s.is_for_node()).count();
                tree.process_input_bit(bit, &vec![CostTrackers::DEFAULT; nodes]);
                naive.process_input_bit(bit, &[]);
            }
        }
        false
    }).unwrap_or(true)
}

/// the most suspicious of many cases, at most so many
fn hunt(rng: &mut Rng, n: usize, slide: bool, most: usize) -> Vec<Case> {
    let lanes = 8;
    let salt = rng.next();
    let found: Vec<Vec<(usize, Case)>> = std::thread::scope(|scope| {
        let running: Vec<_> = (0..lanes).map(|lane| scope.spawn(move || {
            let luts = LookUpTables::new();
            let mut found = vec![];
            for i in (lane..n).step_by(lanes) {
                let mut rng = Rng::new(salt.wrapping_add(i as u64 * 0x9e37_79b9));
                let case = small_case(&mut rng, slide);
                if suspicious(&case, slide, &luts) { found.push((i, case)); }
            }
            found
        })).collect();
        running.into_iter().map(|r| r.join().unwrap()).collect()
    });
    let mut found: Vec<(usize, Case)> = found.into_iter().flatten().collect();
    found.sort_by_key(|f| f.0);
    found.into_iter().take(most).map(|f| f.1).collect()
}

fn small_case(rng: &mut Rng, slide: bool) -> Case {
    let most = *rng.pick(&[5, 12, 28]);
    let window = 1 + rng.below(most) as usize;
    let len = if slide { window + rng.below(40) as usize } else { 1 + rng.below(40) as usize };
    let bytes = if rng.chance(1, 2) { gen_bytes(rng, len) } else {
        // mostly one letter
        let base = rng.next() as u8;
        let others: Vec<u8> = (0..1 + rng.below(4)).map(|_| base ^ (1 << rng.below(8)) as u8).collect();
        let bias = 2 + rng.below(5);
        (0..len).map(|_| if rng.below(bias) > 0 { base } else { *rng.pick(&others) }).collect()
    };
    let window = if slide { window } else { len + rng.below(3) as usize };
    Case { window, max_order: rng.below(window.min(9) as u64 + 1) as usize, shift: rng.below(window as u64) as usize, bytes }
}

/// hunt for panics only, many inputs
pub fn run_fuzz(ctx: &mut Ctx) {
    let luts = LookUpTables::new();
    let mut rng = ctx.rng(5);
    let n = ctx.scale(20_000, 400_000);
    let mut bad = 0;
    for _ in 0..n {
        let window = 1 + rng.below(24) as usize;
        let len = 1 + rng.below(80) as usize;
        let bytes = gen_bytes(&mut rng, len);
        let case = Case { window, max_order: rng.below(12) as usize, shift: rng.below(window as u64) as usize, bytes };
        ctx.journal(&format!("w={} mo={} shift={} {:?}", case.window, case.max_order, case.shift, case.bytes));
        let (mut a, mut b) = (vec![], vec![]);
        let r = guard(|| {
            let mut s = TreeHistorySource::new_special(case.window, case.max_order, case.shift, &luts);
            follow(&mut s, &case, &mut rng, false, &mut a, &mut b, &mut |s, i| if i == 7 { s.check_integrity_on_next_byte() });
        });
        if let Err(e) = r {
            bad += 1;
            if bad < 20 { println!("PANIC {} : w={} mo={} shift={} at={} {:?}", e, case.window, case.max_order, case.shift, a.len(), case.bytes); }
        }
    }
    println!("fuzz cases {} panics {}", n, bad);
}
