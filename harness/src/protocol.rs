//! C15: sequences of calls, generated by the specification, on every stateful component.
use crate::util::*;
use demixer::bit::Bit;
use demixer::coding::decoder::Decoder;
use demixer::coding::FinalProbability;
use demixer::estimators::decelerating::DeceleratingEstimator;
use demixer::fixed_point::types::{FractOnlyU32, StretchedProbD};
use demixer::fixed_point::FixedPoint;
use demixer::history::fat_map::FatMapHistorySource;
use demixer::history::naive::NaiveHistorySource;
use demixer::history::state::bits_runs::BitsRunsTracker;
use demixer::history::state::recent_bits::RecentBitsHistory;
use demixer::history::tree::direction::Direction;
use demixer::history::tree::node::{CostTrackers, Node};
use demixer::history::tree::node_child::{NodeChild, NodeChildren};
use demixer::history::tree::nodes::{NodeIndex, Nodes};
use demixer::history::tree::TreeHistorySource;
use demixer::history::window::{InputWindow, WindowIndex};
use demixer::history::{CollectedContextStates, ContextState, HistorySource};
use demixer::lut::LookUpTables;
use demixer::mixing::apm::AdaptiveProbabilityMap;
use demixer::mixing::mixer::*;
use demixer::predictor::chain::ContextsChainPredictionMixer;
use demixer::predictor::kits::{EstimatorsWithIndexer, MixersWithIndexer};
use demixer::predictor::post_process::PredictionFinalizer;
use demixer::predictor::stats::PredictionStatistics;
use demixer::predictor::Predictor;
use demixer::util::indexer::*;
use demixer::util::last_bytes::LastBytesCache;
use std::collections::HashMap;

struct Machine { kind: String, p: HashMap<String, String> }
impl Machine {
    fn int(&self, k: &str) -> usize { self.p[k].parse().unwrap() }
    fn text(&self, k: &str) -> &str { &self.p[k] }
    fn ints(&self, k: &str) -> Vec<usize> { self.p[k].split(',').filter(|x| !x.is_empty()).map(|x| x.parse().unwrap()).collect() }
}
#[derive(Clone)]
struct Call { name: String, text: Vec<String> }
impl Call {
    fn n(&self, i: usize) -> usize { self.text[i].parse().unwrap() }
    fn i(&self, i: usize) -> i64 { self.text[i].parse().unwrap() }
    fn rest(&self, from: usize) -> Vec<usize> { self.text[from..].iter().map(|x| x.parse().unwrap()).collect() }
    fn json(&self, extra: &[i64]) -> String {
        let mut v = vec![quote(&self.name)];
        for t in self.text.iter() { v.push(if t.parse::<i64>().is_ok() { t.clone() } else { quote(t) }); }
        v.extend(extra.iter().map(|x| x.to_string()));
        list(v)
    }
}

fn bit(rng: &mut Rng) -> Bit { rng.chance(1, 2).into() }
fn any(luts: &LookUpTables, rng: &mut Rng) -> (FractOnlyU32, StretchedProbD) {
    let sq = FractOnlyU32::new((1 + rng.below((1 << 31) - 1)) as u32, 31);
    (sq, luts.stretch_lut().stretch(sq))
}

/// what one call is: more numbers to record with it, or a refusal
type Answer = Result<Vec<i64>, Vec<i64>>;
type Step<'a> = Box<dyn FnMut(&Call, &mut Rng) -> Answer + 'a>;

fn plain<R>(r: Result<R, String>) -> Answer { r.map(|_| vec![]).map_err(|_| vec![]) }

macro_rules! indexer_step { ($t:ident, $dims:expr) => {{
    let mut x = $t::new($dims);
    Box::new(move |c: &Call, _: &mut Rng| match c.name.as_str() {
        "sub" => plain(guard(|| { x.with_sub_index(c.n(0)); })),
        "get" => plain(guard(|| x.get_array_index_and_reset())),
        _ => plain(guard(|| x.get_array_size())),
    })
}} }

fn mixer_step<'a, M: Mixer + 'a>(mut m: M, luts: &'a LookUpTables) -> Step<'a> {
    Box::new(move |c, rng| match c.name.as_str() {
        "set" => { let v = any(luts, rng); plain(guard(|| m.set_input(c.n(0), v.0, v.1))) }
        "sq" => plain(guard(|| m.prediction_sq(c.n(0)))),
        "st" => plain(guard(|| m.prediction_st(c.n(0)))),
        "weight" => plain(guard(|| m.weight(c.n(0)))),
        "mix" => plain(guard(|| m.mix_all(luts.squash_lut()))),
        _ => { let (b, v) = (bit(rng), any(luts, rng)); plain(guard(|| m.update_and_reset(b, v.0, c.n(0) as u16, luts.d_estimator_rates()))) }
    })
}

fn mode(n: usize) -> MixerInitializationMode {
    match n { 0 => MixerInitializationMode::AllZero, 1 => MixerInitializationMode::DominantFirst, _ => MixerInitializationMode::EqualSummingToOne }
}

fn history_step<'a, H: HistorySource<'a> + 'a>(m: &Machine, luts: &'a LookUpTables) -> Step<'a> {
    let order = m.int("order");
    let mut h = H::new(m.int("most"), order, luts);
    Box::new(move |c, rng| match c.name.as_str() {
        "start" => plain(guard(|| h.start_new_byte())),
        "look" => plain(guard(|| h.gather_history_states(&mut CollectedContextStates::new(order)))),
        _ => {
            let mut seen = CollectedContextStates::new(order);
            let _ = guard(|| h.gather_history_states(&mut seen));
            let nodes = seen.items().iter().filter(|x| x.is_for_node()).count();
            let edges = seen.items().len() - nodes;
            let given = (nodes as i64 + c.i(0)).max(0) as usize;
            let b = rng.chance(1, 7).into();
            let found = vec![nodes as i64, edges as i64];
            guard(|| h.process_input_bit(b, &vec![CostTrackers::DEFAULT; given])).map(|_| found.clone()).map_err(|_| found.clone())
        }
    })
}

fn edge(n: u16) -> ContextState {
    ContextState::ForEdge { last_occurrence_distance: 3, occurrence_count: n, repeated_bit: Bit::One }
}
fn node(n: u16) -> ContextState {
    ContextState::ForNode {
        last_occurrence_distance: 5, probability_estimator: DeceleratingEstimator::make(FractOnlyU32::HALF, n),
        recent_bits: RecentBitsHistory::for_bit_run(Bit::Zero, n), bits_runs: BitsRunsTracker::for_bit_run(Bit::Zero, n),
        cost_trackers: CostTrackers::DEFAULT }
}
fn contexts(v: Vec<ContextState>) -> CollectedContextStates {
    let mut c = CollectedContextStates::new(v.len());
    for x in v { c.push(x); }
    c
}

fn tree_node() -> Node {
    Node::new(WindowIndex::new(1), DeceleratingEstimator::new(), 3, CostTrackers::DEFAULT,
        BitsRunsTracker::for_bit_run(Bit::One, 1), 1, 1, RecentBitsHistory::for_bit_run(Bit::One, 1),
        NodeChildren::new([WindowIndex::new(1).into(), WindowIndex::new(2).into()]))
}

fn make(c: &Call, luts: &LookUpTables) -> Answer {
    macro_rules! dims { ($t:ident) => { plain(guard(|| $t::new(vec![2; c.n(1)]))) } }
    macro_rules! huge { ($t:ident) => { plain(guard(|| $t::new(vec![1 << 40; c.n(0)]).get_array_size())) } }
    match c.name.as_str() {
        "estimator" => plain(guard(|| DeceleratingEstimator::make(FractOnlyU32::HALF, c.n(0) as u16))),
        "directrun" => plain(guard(|| luts.direct_predictions().for_0_bit_run(c.n(0) as u16))),
        "newnode" => {
            let a = guard(|| luts.d_estimator_cache().for_new_node(Bit::One, c.n(0) as u16));
            let b = guard(|| luts.d_estimator_cache().for_new_node(Bit::Zero, c.n(0) as u16));
            if a.is_ok() != b.is_ok() { panic!("run {} accepted for one last bit only", c.n(0)); }
            plain(a)
        }
        "nodecost" => plain(guard(|| luts.cost_trackers_lut().for_new_node(c.n(0) as u16))),
        "mixer" => {
            let (i, z) = (c.n(1) as u16, MixerInitializationMode::AllZero);
            match c.n(0) {
                1 => plain(guard(|| Mixer1::new(i, z))), 2 => plain(guard(|| Mixer2::new(i, z))),
                3 => plain(guard(|| Mixer3::new(i, z))), 4 => plain(guard(|| Mixer4::new(i, z))),
                _ => plain(guard(|| Mixer5::new(i, z))),
            }
        }
        "mixern" => plain(guard(|| MixerN::new(c.n(0), c.n(1) as u16, mode(c.n(2))))),
        "window" => plain(guard(|| InputWindow::new(c.n(0), c.n(1)))),
        "tree" => plain(guard(|| TreeHistorySource::new_special(c.n(0), 2, c.n(1), luts))),
        "indexer" => match c.n(0) {
            1 => dims!(Indexer1), 2 => dims!(Indexer2), 3 => dims!(Indexer3), 4 => dims!(Indexer4), 5 => dims!(Indexer5), _ => dims!(Indexer6),
        },
        "hugeindex" => match c.n(0) {
            1 => huge!(Indexer1), 2 => huge!(Indexer2), 3 => huge!(Indexer3), 4 => huge!(Indexer4), 5 => huge!(Indexer5), _ => huge!(Indexer6),
        },
        "apmtable" => plain(guard(|| { luts.apm_lut(c.n(0) as u8); })),
        "nodes" => plain(guard(|| Nodes::new(c.n(0)))),
        "child" => match c.text[0].as_str() {
            "window" => plain(guard(|| NodeChild::from(WindowIndex::new(5)).to_window_index())),
            "window-max" => plain(guard(|| NodeChild::from(WindowIndex::new(0x7fff_ffff)).to_window_index())),
            "window-over" => plain(guard(|| NodeChild::from(WindowIndex::new(0x8000_0000)))),
            "node" => plain(guard(|| NodeChild::from(NodeIndex::new(1)).to_node_index())),
            "root" => plain(guard(|| NodeChild::from(NodeIndex::new(0)))),
            "node-over" => plain(guard(|| NodeChild::from(NodeIndex::new(0x8000_0000)))),
            "window-as-node" => plain(guard(|| NodeChild::from(WindowIndex::new(5)).to_node_index())),
            _ => plain(guard(|| NodeChild::from(NodeIndex::new(1)).to_window_index())),
        },
        "recent" => match c.text[0].as_str() {
            "invalid" => plain(guard(|| RecentBitsHistory::INVALID.histogram())),
            "empty" => plain(guard(|| RecentBitsHistory::for_bit_run(Bit::One, 0).histogram())),
            _ => plain(guard(|| RecentBitsHistory::for_bit_run(Bit::One, 1).histogram())),
        },
        "decoder" => { let data = vec![7u8; c.n(0)]; let mut r = &data[..]; plain(guard(|| { Decoder::new(&mut r); })) }
        "probability" => plain(guard(|| FinalProbability::new(c.n(0) as u32, 23))),
        other => panic!("unknown call {}", other),
    }
}

fn component<'a>(m: &Machine, luts: &'a LookUpTables) -> Step<'a> {
    match m.kind.as_str() {
        "bytes" => {
            let mut x = LastBytesCache::new();
            Box::new(move |c, rng| match (c.name.as_str(), c.text.get(0).map(|t| t.as_str()).unwrap_or("")) {
                ("start", _) => plain(guard(|| x.start_new_byte())),
                ("bit", _) => { let b = bit(rng); plain(guard(|| x.on_next_bit(b))) }
                ("unfinished", _) => plain(guard(|| x.unfinished_byte())),
                ("previous", "1") => plain(guard(|| x.previous_byte_1())),
                ("previous", "2") => plain(guard(|| x.previous_byte_2())),
                ("previous", _) => plain(guard(|| x.previous_byte_3())),
                (_, "1") => plain(guard(|| x.hash01_16())),
                (_, "2") => plain(guard(|| x.hash02_16())),
                _ => plain(guard(|| x.hash03_16())),
            })
        }
        "stats" => {
            let mut x = LastBytesCache::new();
            let mut s = PredictionStatistics::new(20, luts);
            Box::new(move |c, rng| match c.name.as_str() {
                "start" => plain(guard(|| x.start_new_byte())),
                "bit" => { let b = bit(rng); plain(guard(|| x.on_next_bit(b))) }
                _ => plain(guard(|| s.start_new_byte(&x))),
            })
        }
        "index" => {
            let d = m.ints("dims");
            match d.len() {
                1 => indexer_step!(Indexer1, d), 2 => indexer_step!(Indexer2, d), 3 => indexer_step!(Indexer3, d),
                4 => indexer_step!(Indexer4, d), 5 => indexer_step!(Indexer5, d), _ => indexer_step!(Indexer6, d),
            }
        }
        "window" => {
            let mut w = InputWindow::new(m.int("most"), m.int("shift"));
            Box::new(move |c, _| plain(guard(|| if c.name == "grow" { w.advance_cursor() } else { w.advance_start() })))
        }
        "mixer" => {
            let (n, i) = (m.int("size"), m.int("step") as u16);
            let z = MixerInitializationMode::DominantFirst;
            if m.text("form") == "any" { return mixer_step(MixerN::new(n, i, z), luts); }
            match n {
                1 => mixer_step(Mixer1::new(i, z), luts), 2 => mixer_step(Mixer2::new(i, z), luts),
                3 => mixer_step(Mixer3::new(i, z), luts), 4 => mixer_step(Mixer4::new(i, z), luts),
                _ => mixer_step(Mixer5::new(i, z), luts),
            }
        }
        "apm" => {
            let mut a = AdaptiveProbabilityMap::new(m.int("contexts"), m.int("bits") as u8, luts.squash_lut());
            Box::new(move |c, rng| match c.name.as_str() {
                "refine" => { let v = any(luts, rng); plain(guard(|| a.refine(c.n(0), v.0, v.1, luts.apm_lut(c.n(1) as u8)))) }
                _ => { let (b, f) = (bit(rng), rng.chance(1, 2)); plain(guard(|| a.update_predictions(c.n(0), b, c.n(1) as u8, f))) }
            })
        }
        "estkit" => {
            let mut k = EstimatorsWithIndexer::new(Indexer2::new(m.ints("dims")));
            Box::new(move |c, rng| match c.name.as_str() {
                "predict" => { let t = c.rest(0); plain(guard(|| k.predict(luts, |x| { for &v in t.iter() { x.with_sub_index(v); } x }))) }
                _ => { let b = bit(rng); plain(guard(|| k.update(b, luts))) }
            })
        }
        "mixkit" => {
            macro_rules! kit { ($mx:ident, $ix:ident) => {{
                let mut k = MixersWithIndexer::new(|| $mx::new(10, MixerInitializationMode::DominantFirst), $ix::new(m.ints("dims")));
                Box::new(move |c: &Call, rng: &mut Rng| match c.name.as_str() {
                    "before" => { let t = c.rest(0); plain(guard(|| k.pre_predict(|x| { for &v in t.iter() { x.with_sub_index(v); } x }))) }
                    "predict" => {
                        let (n, t) = (c.n(0), c.rest(1));
                        let v = any(luts, rng);
                        plain(guard(|| k.predict(|x| { for &v in t.iter() { x.with_sub_index(v); } x },
                            |mx| for i in 0..n { mx.set_input(i, v.0, v.1); }, luts)))
                    }
                    "mixer" => plain(guard(|| { k.current_mixer(); })),
                    _ => { let b = bit(rng); plain(guard(|| k.update(b, c.n(0) as u16, luts))) }
                })
            }} }
            if m.int("size") == 3 { kit!(Mixer3, Indexer3) } else { kit!(Mixer2, Indexer2) }
        }
        "history" => match m.text("source") {
            "naive" => history_step::<NaiveHistorySource>(m, luts),
            "map" => history_step::<FatMapHistorySource>(m, luts),
            _ => history_step::<TreeHistorySource>(m, luts),
        },
        "collect" => {
            let mut x = CollectedContextStates::new(m.int("most") - 1);
            Box::new(move |c, _| plain(guard(|| if c.name == "push" { x.push(edge(1)) } else { x.reset() })))
        }
        "final" => {
            let mut x = LastBytesCache::new();
            let mut f = PredictionFinalizer::new(luts);
            Box::new(move |c, rng| match c.name.as_str() {
                "start" => plain(guard(|| x.start_new_byte())),
                "bit" => { let b = bit(rng); plain(guard(|| x.on_next_bit(b))) }
                "refine" => { let v = any(luts, rng); plain(guard(|| f.refine(v.0, v.1, 3, &x))) }
                _ => { let b = bit(rng); plain(guard(|| f.update(b, 3, &x))) }
            })
        }
        "chain" => {
            let most = m.int("most");
            let mut x = ContextsChainPredictionMixer::new(most - 1, luts);
            Box::new(move |c, rng| {
                let cs = contexts(match c.text[0].as_str() {
                    "none" => vec![],
                    "some" => vec![node(9)],
                    "full" => (0..most).map(|k| if k <= most / 2 { node(9) } else { edge(2) }).collect(),
                    "long" => (0..most + 1).map(|_| node(9)).collect(),
                    _ => vec![edge(4), node(9)],
                });
                let b = bit(rng);
                if c.name == "predict" { plain(guard(|| x.predict(&cs, 1))) } else { plain(guard(|| x.update(b, &cs))) }
            })
        }
        "predictor" => {
            let mut p = Predictor::new(luts);
            Box::new(move |c, rng| match c.name.as_str() {
                "start" => plain(guard(|| p.start_new_byte())),
                "predict" => plain(guard(|| p.predict())),
                _ => { let b = bit(rng); plain(guard(|| p.update(b))) }
            })
        }
        "nodes" => {
            let mut x = Nodes::new(m.int("most"));
            x.update_node(NodeIndex::new(0), tree_node());
            let mut live: Vec<NodeIndex> = vec![];
            Box::new(move |c, rng| {
                if c.name == "add" {
                    let n = guard(|| x.add_node(tree_node()).to_node_index()).map_err(|_| vec![])?;
                    let r = guard(|| x[n].child(Direction::Left));
                    if live.contains(&n) || n.is_root() || r.is_err() { panic!("a live node's place is given to another"); }
                    live.push(n);
                } else {
                    let n = live.remove(rng.below(live.len() as u64) as usize);
                    guard(|| x.delete_node(n)).map_err(|_| vec![])?;
                }
                if x.live_nodes_count() != live.len() + 1 { panic!("nodes are miscounted"); }
                Ok(vec![])
            })
        }
        "make" => Box::new(move |c, _| make(c, luts)),
        other => panic!("unknown machine {}", other),
    }
}

pub fn run(ctx: &mut Ctx) {
    let text = std::fs::read_to_string(ctx.input.clone().expect("input")).unwrap();
    let luts = match guard(|| LookUpTables::new()) {
        Ok(l) => l,
        Err(e) => { ctx.emit(Obj::new().raw("m", "{\"kind\":\"bytes\"}").raw("c", "[]").ints("ok", vec![]).str("err", &e)); return; }
    };
    let mut rng = ctx.rng(15);
    for line in text.lines() {
        ctx.journal(line);
        let parts: Vec<&str> = line.split('\t').collect();
        let mut words = parts[1].split(' ');
        let machine = Machine { kind: words.next().unwrap().to_string(),
            p: words.map(|w| { let i = w.find('=').unwrap(); (w[..i].to_string(), w[i + 1..].to_string()) }).collect() };
        let calls: Vec<Call> = parts[2].split(';').filter(|x| !x.is_empty()).map(|c| {
            let mut w = c.split(' ').map(|x| x.to_string());
            Call { name: w.next().unwrap(), text: w.collect() }
        }).collect();
        let (mut done, mut ok) = (vec![], vec![]);
        let err = guard(|| {
            let mut step = component(&machine, &luts);
            for c in calls.iter() {
                let r = step(c, &mut rng);
                done.push(c.json(match r { Ok(ref v) => v, Err(ref v) => v }));
                ok.push(r.is_ok() as i64);
                if r.is_err() { break; }
            }
        }).err().unwrap_or_default();
        ctx.emit(Obj::new().raw("m", parts[0]).raw("c", &list(done)).ints("ok", ok).str("err", &err));
    }
}
