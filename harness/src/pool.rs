//! C24: the storage of the tree's inner nodes.
use crate::util::*;
use demixer::bit::Bit;
use demixer::estimators::cost::CostTracker;
use demixer::estimators::decelerating::DeceleratingEstimator;
use demixer::fixed_point::FixedPoint;
use demixer::history::state::bits_runs::BitsRunsTracker;
use demixer::history::state::recent_bits::RecentBitsHistory;
use demixer::history::tree::direction::Direction;
use demixer::history::tree::node::{CostTrackers, Node};
use demixer::history::tree::node_child::{NodeChild, NodeChildren};
use demixer::history::tree::nodes::{NodeIndex, Nodes};
use demixer::history::window::WindowIndex;
use demixer::lut::LookUpTables;

fn bit(b: i64) -> Bit { (b == 1).into() }
fn costs(c: i64) -> CostTrackers { CostTrackers::new(CostTracker::new(c as u16), CostTracker::new(65535 - c as u16)) }

#[derive(Clone)]
struct Raw { ts: i64, depth: i64, l: i64, r: i64, kids: Vec<i64>, b: i64, n: i64, c: i64 }

fn child(kind: i64, x: i64) -> NodeChild {
    if kind == 0 { WindowIndex::new(x as usize).into() } else { NodeIndex::new(x as usize).into() }
}

fn raw(rng: &mut Rng) -> Raw {
    let mut kid = |rng: &mut Rng| {
        let kind = rng.below(2) as i64;
        let x = if rng.chance(1, 3) { rng.edgy(31) as i64 } else { rng.range(0, 40) };
        vec![kind, x.max(kind)]
    };
    let mut kids = kid(rng);
    kids.extend(kid(rng));
    let count = |rng: &mut Rng| match rng.below(4) { 0 => rng.range(990, 1000), 1 => rng.range(0, 1000), _ => rng.range(0, 4) };
    Raw {
        ts: if rng.chance(1, 3) { rng.edgy(31) as i64 } else { rng.range(0, 50) },
        depth: if rng.chance(1, 3) { rng.edgy(16) as i64 } else { rng.range(0, 30) },
        l: count(rng), r: count(rng), kids,
        b: rng.below(2) as i64, n: rng.range(0, 20), c: rng.edgy(16) as i64,
    }
}

fn node(x: &Raw, luts: &LookUpTables) -> Node {
    let mut e = DeceleratingEstimator::new();
    for _ in 0..x.n { e.update(bit(1 - x.b), luts.d_estimator_rates()); }
    e.update(bit(x.b), luts.d_estimator_rates());
    Node::new(WindowIndex::new(x.ts as usize), e, x.depth as usize, costs(x.c),
              BitsRunsTracker::for_new_node(bit(x.b), x.n as u16), x.l as u16, x.r as u16,
              RecentBitsHistory::for_new_node(bit(x.b), x.n as u16),
              NodeChildren::new([child(x.kids[0], x.kids[1]), child(x.kids[2], x.kids[3])]))
}

fn kid(c: NodeChild) -> Vec<i64> {
    if c.is_window_index() { vec![0, c.to_window_index().raw() as i64] } else { vec![1, c.to_node_index().raw() as i64] }
}

fn seen(n: &Node) -> Vec<i64> {
    let mut v = vec![n.text_start().raw() as i64, n.depth() as i64, n.left_count() as i64, n.right_count() as i64];
    v.extend(kid(n.child(Direction::Left)));
    v.extend(kid(n.child(Direction::Right)));
    let (e, r, q) = (n.probability_estimator(), n.bits_runs(), n.recent_bits());
    v.extend(vec![n.cost_trackers().stationary().raw() as i64, n.cost_trackers().non_stationary().raw() as i64,
                  e.prediction().raw() as i64, e.usage_count() as i64,
                  r.last_bit().to_u32() as i64, r.last_bit_run_length() as i64, r.opposite_bit_run_length() as i64,
                  r.last_bit_previous_run_length() as i64, q.histogram() as i64, q.last_7_bits() as i64]);
    v
}

fn history(ctx: &mut Ctx, rng: &mut Rng, luts: &LookUpTables, run: usize) {
    let limit = if run < 6 { run + 1 } else { rng.range(2, 14) as usize };
    let steps = ctx.scale(90, 140);
    let raws: Vec<Raw> = (0..12).map(|_| raw(rng)).collect();
    let (mut ops, mut views): (Vec<String>, Vec<String>) = (vec![], vec![]);
    // ends with something that has to be refused: one too many, or a root that is not there
    let to_the_end = run % 2 == 0;
    let err = guard(|| {
        let nodes: Vec<Node> = raws.iter().map(|x| node(x, luts)).collect();
        let mut pool = Nodes::new(limit);
        let mut held: Vec<i64> = vec![];          // places given out, the root's included once it is there
        let mut most = 8;                          // filling and emptying take turns
        for s in 0..steps {
            if s % 15 == 0 { most = rng.below(11); }
            let last = s + 1 == steps;
            let inner = held.iter().filter(|&&k| k != 0).count();
            let room = inner + 1 < limit;
            let (mut op, mut arg, mut val) = (3, -1i64, 0i64);
            let some = if held.is_empty() { -1 } else { *rng.pick(&held) };
            if last && to_the_end {
                if !room { op = 0 } else if !held.contains(&0) { op = 3; arg = 0 } else { op = 5; arg = 0 }
            } else if rng.chance(1, 2) && room && rng.below(10) < most {
                op = 0
            } else if held.is_empty() || rng.chance(1, 25) {
                op = 1; arg = 0
            } else {
                match rng.below(14) {
                    0..=3 if some > 0 && rng.below(10) >= most => { op = 2; arg = some }
                    4 | 5 => { op = 1; arg = some }
                    6..=9 => { op = 4; arg = some }
                    10 if held.contains(&0) && rng.chance(1, 6) => { op = 5; arg = 0 }
                    _ => { op = 3; arg = some }
                }
            }
            if op == 0 { arg = rng.range(1, raws.len() as i64) }
            if op == 1 { val = rng.range(1, raws.len() as i64) }
            if op == 4 { val = rng.below(2) as i64 + 2 * rng.edgy(16) as i64 }
            // the same bit several times, so that counts and runs get to their ends
            let times = if op == 4 && rng.chance(1, 5) { rng.range(2, 12) } else { 1 };
            for _ in 0..times {
                let mut view = vec![];
                let at = |k: i64| NodeIndex::new(k as usize);
                let r = guard(|| {
                    let out = match op {
                        0 => pool.add_node(nodes[arg as usize - 1].clone()).to_node_index().raw() as i64,
                        1 => { pool.update_node(at(arg), nodes[val as usize - 1].clone()); 0 }
                        2 => { pool.delete_node(at(arg)); 0 }
                        3 => { view = seen(&pool[at(arg)]); 0 }
                        4 => {
                            pool[at(arg)].update_on_next_bit(bit(val % 2), costs(val / 2), luts.d_estimator_rates());
                            0
                        }
                        _ => { pool.update_node(at(0), Node::INVALID); 0 }
                    };
                    (out, pool.live_nodes_count() as i64)
                });
                let (ok, mut out, count) = match r { Ok((o, c)) => (1, o, c), Err(_) => (0, 0, 0) };
                if op == 3 && ok == 1 { views.push(arr(view)); out = views.len() as i64 }
                ops.push(arr(vec![op, arg, val, ok, out, count]));
                if ok == 0 { return; }
                match op {
                    0 => held.push(out),
                    1 => if !held.contains(&arg) { held.push(arg) },
                    2 | 5 => held.retain(|&k| k != arg),
                    _ => {}
                }
            }
        }
        // in the end every place is read once more
        for k in held {
            let view = match guard(|| seen(&pool[NodeIndex::new(k as usize)])) {
                Ok(v) => v,
                Err(_) => { ops.push(arr(vec![3, k, 0, 0, 0, 0])); return }
            };
            views.push(arr(view));
            ops.push(arr(vec![3, k, 0, 1, views.len() as i64, pool.live_nodes_count() as i64]));
        }
    }).err().unwrap_or_default();
    let nodes = list(raws.iter().map(describe));
    ctx.emit(Obj::new().str("kind", "pool").int("limit", limit as i64).raw("nodes", &nodes)
        .raw("ops", &list(ops)).raw("seen", &list(views)).raw("many", "[]").str("err", &err));
}

/// a pool of many places: filled, partly emptied, and filled up again
fn large(ctx: &mut Ctx, rng: &mut Rng, luts: &LookUpTables, limit: usize, steps: usize) {
    let raws: Vec<Raw> = (0..12).map(|_| raw(rng)).collect();
    let (mut ops, mut views, mut many): (Vec<String>, Vec<String>, Vec<String>) = (vec![], vec![], vec![]);
    let err = guard(|| {
        let nodes: Vec<Node> = raws.iter().map(|x| node(x, luts)).collect();
        let at = |k: i64| NodeIndex::new(k as usize);
        let mut pool = Nodes::new(limit);
        pool.update_node(at(0), nodes[0].clone());
        ops.push(arr(vec![1, 0, 1, 1, 0, pool.live_nodes_count() as i64]));
        let mut held: Vec<i64> = vec![];
        for s in 0..steps {
            let free = limit - 1 - held.len();
            let which = rng.below(nodes.len() as u64) as usize;
            match s % 4 {
                0 => {
                    let n = if s % 8 == 0 { free } else { rng.below(free as u64 + 1) as usize };
                    let got = guard(|| (0..n).map(|_| pool.add_node(nodes[which].clone()).to_node_index().raw() as i64)
                        .collect::<Vec<i64>>());
                    many.push(arr(got.clone().unwrap_or_default()));
                    ops.push(arr(vec![6, many.len() as i64, which as i64 + 1, got.is_ok() as i64, 0,
                                      guard(|| pool.live_nodes_count() as i64).unwrap_or(-1)]));
                    match got { Ok(v) => held.extend(v), Err(_) => return }
                }
                1 => {
                    // in order of age, backwards or mixed
                    if held.is_empty() { continue }
                    let most = if rng.chance(1, 2) { 3 } else { 1 << 20 };
                    let n = rng.range(1, (held.len() as i64).min(most)) as usize;
                    let mut out = vec![];
                    let style = rng.below(3);
                    for _ in 0..n {
                        let k = match style { 0 => 0, 1 => held.len() - 1, _ => rng.below(held.len() as u64) as usize };
                        out.push(held.swap_remove(k));
                    }
                    let r = guard(|| for &k in out.iter() { pool.delete_node(at(k)) });
                    many.push(arr(out));
                    ops.push(arr(vec![7, many.len() as i64, 0, r.is_ok() as i64, 0,
                                      guard(|| pool.live_nodes_count() as i64).unwrap_or(-1)]));
                    if r.is_err() { return }
                }
                _ => {
                    if held.is_empty() { continue }
                    let k = if s % 4 == 2 { *rng.pick(&held) } else { *held.last().unwrap() };
                    match guard(|| seen(&pool[at(k)])) {
                        Ok(v) => {
                            views.push(arr(v));
                            ops.push(arr(vec![3, k, 0, 1, views.len() as i64, pool.live_nodes_count() as i64]));
                        }
                        Err(_) => { ops.push(arr(vec![3, k, 0, 0, 0, 0])); return }
                    }
                }
            }
        }
    }).err().unwrap_or_default();
    let nodes = list(raws.iter().map(describe));
    ctx.emit(Obj::new().str("kind", "pool").int("limit", limit as i64).raw("nodes", &nodes)
        .raw("ops", &list(ops)).raw("seen", &list(views)).raw("many", &list(many)).str("err", &err));
}

fn describe(x: &Raw) -> String {
    Obj::new().int("ts", x.ts).int("depth", x.depth).int("l", x.l).int("r", x.r)
        .ints("kids", x.kids.clone()).int("b", x.b).int("n", x.n).int("c", x.c).done()
}

fn pair(x: u64) -> Vec<i64> { vec![(x >> 31) as i64, (x & 0x7fff_ffff) as i64] }

fn children(ctx: &mut Ctx, rng: &mut Rng) {
    let mut nums: Vec<u64> = vec![0, 1, 2, 3, 255, 256, 65535, 65536];
    for k in &[24u32, 29, 30, 31, 32, 33, 48] { for d in 0..3 { nums.push((1u64 << k) - 1 + d); } }
    for _ in 0..ctx.scale(150, 1500) { nums.push(rng.edgy(31)); }
    for _ in 0..40 { nums.push(rng.edgy(50)); }
    let mut r = vec![];
    for form in 0..2i64 {
        for &x in nums.iter() {
            let made = guard(|| -> NodeChild {
                if form == 0 { WindowIndex::new(x as usize).into() } else { NodeIndex::new(x as usize).into() }
            });
            let mut v = vec![form];
            v.extend(pair(x));
            match made {
                Err(_) => v.extend(vec![0, 0, 0, 0, 0, 0, 0]),
                Ok(c) => {
                    v.push(1);
                    v.extend(vec![c.is_valid() as i64, c.is_window_index() as i64, c.is_node_index() as i64]);
                    let as_window = || guard(|| c.to_window_index().raw() as u64);
                    let as_node = || guard(|| c.to_node_index().raw() as u64);
                    let (own, other) = if form == 0 { (as_window(), as_node()) } else { (as_node(), as_window()) };
                    v.extend(own.map(pair).unwrap_or(vec![-1, 0]));
                    v.push(other.is_ok() as i64);
                }
            }
            r.push(arr(v));
        }
    }
    ctx.emit(Obj::new().str("kind", "child").raw("r", &list(r)).str("err", ""));
}

fn made(ctx: &mut Ctx, rng: &mut Rng) {
    let mut r = vec![];
    for n in 0..ctx.scale(250, 2000) {
        let ts = match n % 5 { 0 => (1u64 << 31) - 2 + rng.below(4), 1 => rng.edgy(40), _ => rng.edgy(31) };
        let depth = match n % 4 { 0 => 65534 + rng.below(4), 1 => rng.edgy(20), _ => rng.edgy(16) };
        let valid = !rng.chance(1, 6);
        let x = guard(|| {
            let recent = if valid { RecentBitsHistory::for_new_node(Bit::One, 3) } else { RecentBitsHistory::INVALID };
            let n = Node::new(WindowIndex::new(ts as usize), DeceleratingEstimator::new(), depth as usize,
                              CostTrackers::DEFAULT, BitsRunsTracker::for_new_node(Bit::One, 3), 3, 1, recent,
                              NodeChildren::new([child(0, 3), child(0, 4)]));
            (n.text_start().raw() as u64, n.depth() as i64)
        });
        let mut v = pair(ts);
        v.extend(pair(depth));
        v.push(valid as i64);
        match x {
            Err(_) => v.extend(vec![0, 0, 0, 0]),
            Ok((t, d)) => { v.push(1); v.extend(pair(t)); v.push(d) }
        }
        r.push(arr(v));
    }
    ctx.emit(Obj::new().str("kind", "made").raw("r", &list(r)).str("err", ""));
}

pub fn run(ctx: &mut Ctx) {
    let mut rng = ctx.rng(24);
    let luts = LookUpTables::new();
    for n in 0..ctx.scale(160, 1200) {
        let mut r = rng.fork(n as u64);
        history(ctx, &mut r, &luts, n);
    }
    for &(limit, steps) in &[(300, 40), (5000, 40), (70000, 20)] {
        for _ in 0..ctx.scale(1, 4) { large(ctx, &mut rng, &luts, limit, steps); }
    }
    children(ctx, &mut rng);
    made(ctx, &mut rng);
}
