//! C08: summaries of bit histories.
use crate::history::recent_vec;
use crate::util::*;
use demixer::bit::Bit;
use demixer::history::state::bits_runs::BitsRunsTracker;
use demixer::history::state::recent_bits::RecentBitsHistory;

fn bit(b: u64) -> Bit { if b == 1 { Bit::One } else { Bit::Zero } }

fn recent_json(r: RecentBitsHistory) -> String {
    let mut v = vec![r.is_valid() as i64, r.histogram() as i64, r.last_7_bits() as i64];
    v.extend(recent_vec(r));
    arr(v)
}

fn runs_json(r: &BitsRunsTracker) -> String {
    arr(vec![r.last_bit().to_u32() as i64, r.last_bit_run_length() as i64, r.opposite_bit_run_length() as i64,
             r.last_bit_previous_run_length() as i64, r.is_single_bit_run() as i64])
}

pub fn run(ctx: &mut Ctx) {
    let mut rng = ctx.rng(8);
    let empty = || RecentBitsHistory::for_bit_run(Bit::Zero, 0);
    // every history of up to 15 bits, and what one more bit does to the full ones
    let mut out: Vec<String> = vec![];
    let err = guard(|| {
        let mut layer = vec![empty()];
        for len in 0..=15 {
            if len > 0 {
                let mut next = Vec::with_capacity(layer.len() * 2);
                for r in layer.iter() { next.push(r.updated(Bit::Zero)); next.push(r.updated(Bit::One)); }
                layer = next;
            }
            for r in layer.iter() { out.push(recent_json(*r)); }
        }
        // full: dropping the oldest bit leads to a history that is already known
        for (k, r) in layer.iter().enumerate() {
            for b in 0..2u64 {
                let n = r.updated(bit(b));
                let known = layer[((k << 1) & 0x7fff) | b as usize];
                out.push(arr(vec![(n == known) as i64]));
            }
        }
    }).err().unwrap_or_default();
    // split into runs so that all cores work
    let n = out.len().max(1);
    let part = 4096;
    let mut at = 0;
    while at < n {
        let to = (at + part).min(out.len());
        ctx.emit(Obj::new().str("kind", "recent_all").int("first", at as i64).raw("r", &list(out[at.min(to)..to].iter().cloned())).str("err", &err));
        at += part;
    }
    for i in 0..ctx.scale(60, 800) {
        let (mut a, mut b, mut c) = (vec![], vec![], vec![]);
        let mut input = vec![];
        let start = rng.below(4);
        let sb = rng.below(2);
        let sn = match rng.below(5) { 0 => rng.below(3), 1 => rng.below(20), 2 => 998 + rng.below(5), 3 => rng.below(1001), _ => rng.next() & 0xffff } as u16;
        let steps = if i % 10 == 0 { 1100 } else { 10 + rng.below(60) as usize };
        let err = guard(|| {
            let (mut r, mut t) = match start {
                0 => (empty(), BitsRunsTracker::new()),
                1 => (RecentBitsHistory::for_bit_run(bit(sb), sn), BitsRunsTracker::for_bit_run(bit(sb), sn)),
                _ => (RecentBitsHistory::for_new_node(bit(sb), sn), BitsRunsTracker::for_new_node(bit(sb), sn)),
            };
            let sticky = 1 + rng.below(if steps > 1000 { 1200 } else { 12 });
            let mut cur = rng.below(2);
            for k in 0..=steps {
                a.push(recent_json(r));
                b.push(runs_json(&t));
                // equality with a tracker started over is equality of what is reported
                c.push((t == BitsRunsTracker::for_bit_run(t.last_bit(), t.last_bit_run_length())) as i64);
                if k == steps { break; }
                if rng.chance(1, sticky) { cur ^= 1; }
                input.push(cur as i64);
                r = r.updated(bit(cur));
                t = t.updated(bit(cur));
            }
        }).err().unwrap_or_default();
        ctx.emit(Obj::new().str("kind", "bits").int("start", start as i64).int("sb", sb as i64).int("sn", sn as i64)
            .ints("input", input).raw("recent", &list(a)).raw("runs", &list(b)).ints("same", c).str("err", &err));
    }
    // every run length
    let mut v = vec![];
    let err = guard(|| {
        for n in 0..=u16::max_value() {
            if n > 1100 && n % 997 != 0 && n != u16::max_value() && n & (n - 1) != 0 { continue; }
            for b in 0..2 {
                for node in 0..2 {
                    let (r, t) = if node == 0 { (RecentBitsHistory::for_bit_run(bit(b), n), BitsRunsTracker::for_bit_run(bit(b), n)) }
                        else { (RecentBitsHistory::for_new_node(bit(b), n), BitsRunsTracker::for_new_node(bit(b), n)) };
                    v.push(Obj::new().int("n", n as i64).int("b", b as i64).int("node", node).raw("recent", &recent_json(r)).raw("runs", &runs_json(&t)).done());
                }
            }
        }
    }).err().unwrap_or_default();
    for part in v.chunks(600) {
        ctx.emit(Obj::new().str("kind", "starts").raw("r", &list(part.iter().cloned())).str("err", &err));
    }
}
