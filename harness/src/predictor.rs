//! C13, C14: predictions of the whole predictor, and of its parts driven one by one.
use crate::gens::*;
use crate::util::*;
use demixer::bit::Bit;
use demixer::estimators::cost::CostTracker;
use demixer::estimators::decelerating::DeceleratingEstimator;
use demixer::fixed_point::types::FractOnlyU32;
use demixer::fixed_point::FixedPoint;
use demixer::history::state::bits_runs::BitsRunsTracker;
use demixer::history::state::recent_bits::RecentBitsHistory;
use demixer::history::tree::node::CostTrackers;
use demixer::history::tree::TreeHistorySource;
use demixer::history::{CollectedContextStates, ContextState, HistorySource};
use demixer::lut::LookUpTables;
use demixer::predictor::chain::ContextsChainPredictionMixer;
use demixer::predictor::post_process::PredictionFinalizer;
use demixer::predictor::Predictor;
use demixer::util::last_bytes::LastBytesCache;

fn whole(ctx: &mut Ctx, bytes: &[u8], luts: &LookUpTables) {
    ctx.journal(&format!("predictor bytes={:?}", bytes));
    let mut finals = vec![];
    let err = guard(|| {
        let mut p = Predictor::new(luts);
        for &b in bytes {
            p.start_new_byte();
            for bit in bits(b) {
                finals.push(p.predict().raw() as i64);
                p.update(bit);
            }
        }
    }).err().unwrap_or_default();
    ctx.emit(Obj::new().str("kind", "whole").int("w", 10_000_000).int("mo", 20)
        .ints("bytes", bytes.iter().map(|b| *b as i64)).ints("final", finals)
        .ints("sq", vec![]).ints("st", vec![]).raw("costs", "[]").str("err", &err));
}

/// a section of random bytes, something else for long, and the section again: how the second copy was predicted
fn recall(ctx: &mut Ctx, section: usize, between: usize, style: usize, luts: &LookUpTables, rng: &mut Rng) {
    let copy: Vec<u8> = (0..section).map(|_| rng.next() as u8).collect();
    let block: Vec<u8> = (0..[1, 40, 5000, between, between][style].max(1)).map(|_| rng.next() as u8).collect();
    ctx.journal(&format!("recall section={:?} between={} style={}", copy, between, style));
    let mut given = vec![];
    let err = guard(|| {
        let mut p = Predictor::new(luts);
        for n in 0..2 * section + between {
            let again = n >= section + between;
            let b = if n < section { copy[n] } else if again { copy[n - section - between] } else {
                let k = n - section;
                block[if style == 4 { k / 200 * 100 + k % 100 } else { k % block.len() }]
            };
            p.start_new_byte();
            for bit in bits(b) {
                let q = p.predict();
                if again { given.push(q.raw() as i64); }
                p.update(bit);
            }
        }
    }).err().unwrap_or_default();
    ctx.emit(Obj::new().str("kind", "recall").int("w", 10_000_000).int("mo", 20)
        .ints("copy", copy.iter().map(|b| *b as i64)).int("between", between as i64).ints("given", given)
        .ints("bytes", vec![]).ints("final", vec![]).str("err", &err));
}

fn parts(ctx: &mut Ctx, w: usize, mo: usize, bytes: &[u8], luts: &LookUpTables) {
    ctx.journal(&format!("parts window={} max_order={} bytes={:?}", w, mo, bytes));
    let (mut finals, mut sq, mut st, mut costs) = (vec![], vec![], vec![], vec![]);
    let err = guard(|| {
        let mut last = LastBytesCache::new();
        let mut source = TreeHistorySource::new(w, mo, luts);
        let mut contexts = CollectedContextStates::new(mo);
        let mut chain = ContextsChainPredictionMixer::new(mo, luts);
        let mut finalizer = PredictionFinalizer::new(luts);
        for &b in bytes {
            last.start_new_byte();
            source.start_new_byte();
            for bit in bits(b) {
                contexts.reset();
                source.gather_history_states(&mut contexts);
                let n = contexts.items().len();
                let mixed = chain.predict(&contexts, last.unfinished_byte().raw());
                sq.push(mixed.0.raw() as i64);
                st.push(mixed.1.raw() as i64);
                finals.push(finalizer.refine(mixed.0, mixed.1, n, &last).raw() as i64);
                let c = chain.update(bit, &contexts);
                costs.push(list(c.iter().map(|c| arr(vec![c.stationary().raw() as i64, c.non_stationary().raw() as i64]))));
                source.process_input_bit(bit, &c);
                finalizer.update(bit, n, &last);
                last.on_next_bit(bit);
            }
        }
    }).err().unwrap_or_default();
    ctx.emit(Obj::new().str("kind", "parts").int("w", w as i64).int("mo", mo as i64)
        .ints("bytes", bytes.iter().map(|b| *b as i64)).ints("final", finals)
        .ints("sq", sq).ints("st", st).raw("costs", &list(costs)).str("err", &err));
}

/// a context that need not belong to any text
fn any_context(rng: &mut Rng, node: bool, vary: u64) -> ContextState {
    let near = |rng: &mut Rng, edges: &[u64]| { let e = *rng.pick(edges); (e + rng.below(3)).saturating_sub(1) };
    let dist = if rng.below(4) < vary { near(rng, &[2, 100, 1000, 10_000, 9_000_000]).max(1) } else { 7 } as usize;
    let count = |rng: &mut Rng| (if rng.chance(1, 3) { near(rng, &[2, 3, 4, 6, 8, 12, 16, 24, 32, 64, 96, 128, 256, 512, 768, 1000]) }
        else if rng.chance(1, 4) { rng.below(1001) } else { 1 + rng.below(4) }).min(1000) as u16;
    if !node {
        return ContextState::ForEdge { last_occurrence_distance: dist, occurrence_count: count(rng).max(1), repeated_bit: (rng.below(2) == 1).into() };
    }
    let p = match rng.below(5) { 0 => rng.edgy(22), 1 => (1 << 22) - 1 - rng.edgy(21), _ => rng.below(1 << 22) }.max(1);
    // the last three runs: the oldest first
    let (c, b, a) = (if rng.chance(1, 4) { 0 } else { count(rng) }, count(rng), count(rng).max(1));
    let last: Bit = (rng.below(2) == 1).into();
    let mut runs = BitsRunsTracker::for_bit_run(last, c);
    if c == 0 { runs = BitsRunsTracker::for_bit_run(!last, b); } else { for _ in 0..b.max(1) { runs = runs.updated(!last); } }
    for _ in 0..a { runs = runs.updated(last); }
    let cost = |rng: &mut Rng| CostTracker::new(match rng.below(4) { 0 => rng.edgy(16) as u16, 1 => 0x8000, _ => rng.next() as u16 });
    let s = cost(rng);
    // the ratios that matter
    let n = match rng.below(9) {
        k @ 0..=5 => {
            let x = s.raw() as u64;
            let y = [x + x / 2, x + x / 8, x, x * 8 / 9, x * 2 / 3, x / 2][k as usize] + rng.below(5);
            CostTracker::new(y.saturating_sub(2).min(65535) as u16)
        }
        _ => cost(rng),
    };
    let (s, n) = if rng.below(4) < vary { (s, n) } else { (CostTracker::INITIAL, CostTracker::INITIAL) };
    ContextState::ForNode {
        last_occurrence_distance: dist,
        probability_estimator: DeceleratingEstimator::make(FractOnlyU32::new((p as u32) << 9, 31), count(rng)),
        recent_bits: RecentBitsHistory::for_bit_run(last, 3),
        bits_runs: runs,
        cost_trackers: CostTrackers::new(s, n),
    }
}

fn chain_alone(ctx: &mut Ctx, mo: usize, steps: usize, luts: &LookUpTables, rng: &mut Rng) {
    ctx.journal(&format!("chain of made-up contexts, max_order={} steps={}", mo, steps));
    let vary = rng.below(5);
    let same_byte = rng.next() as u8;
    let pool: Vec<Vec<ContextState>> = (0..1 + rng.below(40)).map(|_| {
        let n = rng.below(mo as u64 + 2) as usize;
        let nodes = rng.below(n as u64 + 1) as usize;
        let mut v: Vec<ContextState> = vec![];
        for k in 0..n {
            let mut c = any_context(rng, k < nodes, vary);
            if k > 0 && rng.chance(1, 3) {
                // nearly like the one below
                let d = c.last_occurrence_distance();
                if v[k - 1].is_for_node() == c.is_for_node() { c = v[k - 1].clone(); }
                match c {
                    ContextState::ForNode { ref mut last_occurrence_distance, ref mut probability_estimator, .. } => {
                        *last_occurrence_distance = d;
                        let (p, n) = (probability_estimator.prediction(), probability_estimator.usage_count());
                        match rng.below(4) {
                            0 => *probability_estimator = DeceleratingEstimator::make(p, if n < 1000 { n + 1 } else { n - 1 }),
                            1 => *probability_estimator = DeceleratingEstimator::make(FractOnlyU32::new((p.raw() ^ 512).max(512), 31), n),
                            _ => (),
                        }
                    }
                    ContextState::ForEdge { ref mut last_occurrence_distance, ref mut occurrence_count, .. } => {
                        *last_occurrence_distance = d;
                        if rng.chance(1, 3) { *occurrence_count = (*occurrence_count + 1).min(1000); }
                    }
                }
            }
            v.push(c);
        }
        v
    }).collect();
    let (mut sq, mut st, mut costs, mut reps, mut bytes, mut in_bits) = (vec![], vec![], vec![], vec![], vec![], vec![]);
    let err = guard(|| {
        let mut chain = ContextsChainPredictionMixer::new(mo, luts);
        let mut contexts = CollectedContextStates::new(mo);
        for _ in 0..steps {
            contexts.reset();
            for c in rng.pick(&pool) { contexts.push(c.clone()); }
            let byte = if rng.chance(2, 3) { same_byte } else { rng.next() as u8 };
            let bit = rng.below(2 + vary) > 0;
            reps.push(list(contexts.items().iter().map(crate::history::state_json)));
            bytes.push(byte as i64);
            in_bits.push(bit as i64);
            let mixed = chain.predict(&contexts, byte);
            sq.push(mixed.0.raw() as i64);
            st.push(mixed.1.raw() as i64);
            let c = chain.update(bit.into(), &contexts);
            costs.push(list(c.iter().map(|c| arr(vec![c.stationary().raw() as i64, c.non_stationary().raw() as i64]))));
        }
    }).err().unwrap_or_default();
    let n = sq.len();
    ctx.emit(Obj::new().str("kind", "chain").int("w", 1).int("mo", mo as i64).ints("bytes", bytes).ints("bits", in_bits)
        .ints("final", vec![0; n]).ints("sq", sq).ints("st", st).raw("costs", &list(costs)).raw("rep", &list(reps)).str("err", &err));
}

fn finalizer_alone(ctx: &mut Ctx, bytes: &[u8], luts: &LookUpTables, rng: &mut Rng) {
    ctx.journal(&format!("final refinement, bytes={:?}", bytes));
    let (mut finals, mut sq, mut st) = (vec![], vec![], vec![]);
    let style = rng.below(3);
    let err = guard(|| {
        let mut last = LastBytesCache::new();
        let mut finalizer = PredictionFinalizer::new(luts);
        for &b in bytes {
            last.start_new_byte();
            for bit in bits(b) {
                let q = match if style == 0 { rng.below(4) } else { 2 + style } {
                    0 => rng.edgy(31), 1 => (1 << 31) - 1 - rng.edgy(30), 2 => 1 << rng.below(31),
                    3 => if bit.is_0() { 0x7fff_ffff - rng.below(3) } else { 1 + rng.below(3) },
                    _ => rng.next() >> 33,
                }.max(1) as u32;
                let q = FractOnlyU32::new(q, 31);
                let s = luts.stretch_lut().stretch(q);
                sq.push(q.raw() as i64);
                st.push(s.raw() as i64);
                finals.push(finalizer.refine(q, s, rng.below(22) as usize, &last).raw() as i64);
                finalizer.update(bit, rng.below(22) as usize, &last);
                last.on_next_bit(bit);
            }
        }
    }).err().unwrap_or_default();
    ctx.emit(Obj::new().str("kind", "final").int("w", 1).int("mo", 0).ints("bytes", bytes.iter().map(|b| *b as i64))
        .ints("final", finals).ints("sq", sq).ints("st", st).raw("costs", "[]").str("err", &err));
}

/// words separated by spaces, with repeated phrases
pub fn run_model(ctx: &mut Ctx) {
    let luts = LookUpTables::new();
    let mut rng = ctx.rng(14);
    for i in 0..ctx.scale(8, 60) {
        let n = [160, 100, 60, 20, 120, 40, 90, 12][i % 8];
        let bytes = if i % 2 == 0 { gen_words(&mut rng, n) } else { gen_bytes(&mut rng, n) };
        whole(ctx, &bytes, &luts);
    }
    for i in 0..ctx.scale(32, 300) {
        let n = 10 + rng.below(90) as usize;
        let bytes = if i % 3 == 0 { gen_words(&mut rng, n) } else { gen_bytes(&mut rng, n) };
        let w = match i % 3 { 0 => n, 1 => 2 + rng.below(n as u64) as usize, _ => n + 5 };
        let mo = *rng.pick(&[0, 1, 2, 3, 5, 8, 20]);
        parts(ctx, w, mo, &bytes, &luts);
    }
    for i in 0..ctx.scale(40, 400) {
        let steps = 20 + rng.below(400) as usize;
        chain_alone(ctx, [1, 3, 5, 0, 20][i % 5], steps, &luts, &mut rng);
    }
    for _ in 0..ctx.scale(16, 120) {
        let n = 2 + rng.below(40) as usize;
        let bytes = gen_bytes(&mut rng, n);
        finalizer_alone(ctx, &bytes, &luts, &mut rng);
    }
    let far: &[(usize, usize)] = if ctx.thorough { &[(0, 300_000), (1, 200_000), (2, 1_000_000), (4, 2_000_000), (3, 9_990_000), (3, 10_010_000)] }
        else { &[(3, 300_000), (2, 110_000), (1, 3000), (0, 40_000), (4, 30_000)] };
    for &(style, between) in far { recall(ctx, 60 + rng.below(60) as usize, between, style, &luts, &mut rng); }
}
