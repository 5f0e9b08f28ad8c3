//! C13: predictions of equal prefixes, and compression with them.
use crate::gens::*;
use crate::util::*;
use demixer::bit::Bit;
use demixer::coding::decoder::Decoder;
use demixer::coding::encoder::Encoder;
use demixer::coding::FinalProbability;
use demixer::fixed_point::FixedPoint;
use demixer::history::tree::TreeHistorySource;
use demixer::history::{CollectedContextStates, HistorySource};
use demixer::lut::LookUpTables;
use demixer::predictor::chain::ContextsChainPredictionMixer;
use demixer::predictor::post_process::PredictionFinalizer;
use demixer::predictor::Predictor;
use demixer::util::last_bytes::LastBytesCache;

pub trait Model {
    fn start(&mut self);
    fn predict(&mut self) -> FinalProbability;
    fn update(&mut self, bit: Bit);
}

impl<'a> Model for Predictor<'a> {
    fn start(&mut self) { self.start_new_byte() }
    fn predict(&mut self) -> FinalProbability { Predictor::predict(self) }
    fn update(&mut self, bit: Bit) { Predictor::update(self, bit) }
}

/// the parts of the predictor, with a window and an order of our choice
pub struct Parts<'a> {
    last: LastBytesCache,
    source: TreeHistorySource<'a>,
    contexts: CollectedContextStates,
    chain: ContextsChainPredictionMixer<'a>,
    finalizer: PredictionFinalizer<'a>,
}

impl<'a> Parts<'a> {
    pub fn new(w: usize, mo: usize, luts: &'a LookUpTables) -> Self {
        Parts { last: LastBytesCache::new(), source: TreeHistorySource::new(w, mo, luts), contexts: CollectedContextStates::new(mo),
                chain: ContextsChainPredictionMixer::new(mo, luts), finalizer: PredictionFinalizer::new(luts) }
    }
}

impl<'a> Model for Parts<'a> {
    fn start(&mut self) { self.last.start_new_byte(); self.source.start_new_byte(); }
    fn predict(&mut self) -> FinalProbability {
        self.contexts.reset();
        self.source.gather_history_states(&mut self.contexts);
        let mixed = self.chain.predict(&self.contexts, self.last.unfinished_byte().raw());
        self.finalizer.refine(mixed.0, mixed.1, self.contexts.items().len(), &self.last)
    }
    fn update(&mut self, bit: Bit) {
        let n = self.contexts.items().len();
        let c = self.chain.update(bit, &self.contexts);
        self.source.process_input_bit(bit, &c);
        self.finalizer.update(bit, n, &self.last);
        self.last.on_next_bit(bit);
    }
}

#[derive(Clone)]
struct Text { bytes: Vec<u8>, w: usize, mo: usize }      // w = 0: the real predictor

fn model<'a>(t: &Text, luts: &'a LookUpTables) -> Box<dyn Model + 'a> {
    if t.w == 0 { Box::new(Predictor::new(luts)) } else { Box::new(Parts::new(t.w, t.mo, luts)) }
}

fn compress<'a>(t: &Text, luts: &'a LookUpTables, pred: &mut Vec<i64>) -> Vec<u8> {
    let mut code = vec![];
    {
        let mut m = model(t, luts);
        let mut e = Encoder::new(&mut code);
        for &b in &t.bytes {
            m.start();
            for bit in bits(b) {
                let p = m.predict();
                pred.push(p.raw() as i64);
                e.encode_bit(p, bit);
                m.update(bit);
            }
        }
    }
    code
}

/// the decoded bytes and the number of bytes of the code that were read
fn decompress<'a>(t: &Text, code: &[u8], luts: &'a LookUpTables, pred: &mut Vec<i64>, out: &mut Vec<u8>) -> usize {
    let mut input = code;
    {
        let mut m = model(t, luts);
        let mut d = Decoder::new(&mut input);
        for _ in 0..t.bytes.len() {
            m.start();
            let mut byte = 0u8;
            for _ in 0..8 {
                let p = m.predict();
                pred.push(p.raw() as i64);
                let bit = d.decode_bit(p);
                byte = byte << 1 | bit.is_1() as u8;
                m.update(bit);
            }
            out.push(byte);
        }
    }
    code.len() - input.len()
}

/// the same text with another model at work on something else in between
fn again<'a>(t: &Text, other: &[u8], luts: &'a LookUpTables, pred: &mut Vec<i64>) {
    let mut m = model(t, luts);
    let mut o = model(t, luts);
    for (n, &b) in t.bytes.iter().enumerate() {
        m.start();
        let x = if other.is_empty() { 0 } else { other[n % other.len()] };
        o.start();
        for (bit, ob) in bits(b).zip(bits(x)) {
            pred.push(m.predict().raw() as i64);
            o.predict();
            o.update(ob);
            m.update(bit);
        }
    }
}

/// a process of its own predicts, last one first, texts given as lines "w mo byte byte .."
pub fn run_child(ctx: &mut Ctx) {
    let luts = LookUpTables::new();
    for line in std::fs::read_to_string(ctx.input.clone().unwrap()).unwrap().lines().rev() {
        let v: Vec<usize> = line.split_whitespace().map(|x| x.parse().unwrap()).collect();
        let t = Text { w: v[0], mo: v[1], bytes: v[2..].iter().map(|b| *b as u8).collect() };
        let mut pred = vec![];
        let _ = guard(|| compress(&t, &luts, &mut pred));
        ctx.emit(Obj::new().ints("p", pred));
    }
}

fn in_another_process(ctx: &Ctx, texts: &[Text]) -> Vec<String> {
    let base = format!("codec-child-{}", ctx.seed);
    let input = texts.iter().map(|t| format!("{} {} {}\n", t.w, t.mo, t.bytes.iter().map(|b| b.to_string()).collect::<Vec<_>>().join(" "))).collect::<String>();
    std::fs::write(format!("{}.in", base), input).unwrap();
    let r = std::process::Command::new(std::env::current_exe().unwrap())
        .args(&["codec-child", "0", "quick", &format!("{}.out", base), &format!("{}.in", base)]).output().unwrap();
    let text = if r.status.success() { std::fs::read_to_string(format!("{}.out", base)).unwrap() } else { String::new() };
    let _ = std::fs::remove_file(format!("{}.in", base));
    let _ = std::fs::remove_file(format!("{}.out", base));
    let mut v: Vec<String> = text.lines().map(|l| l[5..l.len() - 1].to_string()).collect();
    v.resize(texts.len(), "[]".to_string());
    v.reverse();
    v
}

fn record(ctx: &mut Ctx, t: &Text, base: usize, elsewhere: &str, luts: &LookUpTables, rng: &mut Rng) {
    ctx.journal(&format!("codec w={} mo={} bytes={:?}", t.w, t.mo, t.bytes));
    let (mut pred, mut code, mut pred2, mut dpred, mut dbytes, mut read) = (vec![], vec![], vec![], vec![], vec![], 0);
    let other = gen_bytes(rng, 30);
    let err = guard(|| {
        code = compress(t, luts, &mut pred);
        let fresh;
        again(t, &other, if rng.chance(1, 8) { fresh = LookUpTables::new(); &fresh } else { luts }, &mut pred2);
        let mut padded = code.clone();
        for _ in 0..5 { padded.push(rng.next() as u8); }
        read = decompress(t, &padded, luts, &mut dpred, &mut dbytes);
    }).err().unwrap_or_default();
    ctx.emit(Obj::new().str("kind", "text").int("w", t.w as i64).int("mo", t.mo as i64).int("base", base as i64)
        .ints("bytes", t.bytes.iter().map(|b| *b as i64)).ints("pred", pred).ints("again", pred2).raw("elsewhere", elsewhere)
        .ints("code", code.iter().map(|b| *b as i64)).int("read", read as i64)
        .ints("dpred", dpred).ints("dbytes", dbytes.iter().map(|b| *b as i64)).str("err", &err));
}

const BLOCK: usize = 1024;
fn digests(p: &[i64]) -> Vec<i64> {
    p.chunks(BLOCK).map(|c| (c.iter().fold(0xcbf29ce484222325u64, |h, x| (h ^ *x as u64).wrapping_mul(0x100000001b3)) >> 33) as i64).collect()
}

/// long texts, summarised
fn bulk(t: &Text, what: &str, luts: &LookUpTables) -> Obj {
    let (mut pred, mut code, mut dpred, mut dbytes, mut read) = (vec![], vec![], vec![], vec![], 0);
    let err = guard(|| {
        code = compress(t, luts, &mut pred);
        let mut padded = code.clone();
        padded.extend(&[0x5a, 0xff, 0, 0xff, 1]);
        read = decompress(t, &padded, luts, &mut dpred, &mut dbytes);
    }).err().unwrap_or_default();
    let wrong = t.bytes.iter().zip(dbytes.iter()).position(|(a, b)| a != b).map(|x| x as i64).unwrap_or(-1);
    Obj::new().str("kind", "bulk").str("what", what).int("w", t.w as i64).int("mo", t.mo as i64).int("len", t.bytes.len() as i64)
        .int("block", BLOCK as i64).ints("pred", digests(&pred)).ints("dpred", digests(&dpred))
        .int("min", pred.iter().cloned().min().unwrap_or(1)).int("max", pred.iter().cloned().max().unwrap_or(1))
        .int("count", pred.len() as i64).int("code", code.len() as i64).int("read", read as i64)
        .int("wrong", wrong).int("decoded", dbytes.len() as i64).str("err", &err)
}

pub fn run(ctx: &mut Ctx) {
    let mut rng = ctx.rng(13);
    let luts = match guard(|| LookUpTables::new()) {
        Ok(l) => l,
        Err(e) => { ctx.emit(Obj::new().str("kind", "bulk").str("what", "tables").int("w", 0).int("mo", 0).int("len", 0).int("block", 1)
            .ints("pred", vec![]).ints("dpred", vec![]).int("min", 1).int("max", 1).int("count", 0).int("code", 4).int("read", 4)
            .int("wrong", -1).int("decoded", 0).str("err", &e)); return; }
    };
    // families of texts that share prefixes: (text, index of the first of its family)
    let mut texts: Vec<(Text, usize)> = vec![(Text { bytes: vec![], w: 0, mo: 0 }, 0)];
    // the first and the last ones repeat long parts, in whichever order processes take them
    let part: Vec<u8> = (0..45).map(|_| rng.next() as u8).collect();
    let repeating = |rng: &mut Rng| {
        let mut v = part.clone();
        v.extend(gen_bytes(rng, 3));
        v.extend(&part);
        v.extend(&part[rng.below(20) as usize..]);
        v
    };
    for _ in 0..3 { let bytes = repeating(&mut rng); texts.push((Text { bytes, w: 0, mo: 0 }, 0)); }
    for i in 0..ctx.scale(60, 400) {
        let n = 1 + rng.below([8, 30, 70][i % 3]) as usize;
        let bytes = match i % 4 { 0 => gen_words(&mut rng, n), 1 => vec![rng.next() as u8; n], _ => gen_bytes(&mut rng, n) };
        let (w, mo) = if i % 3 < 2 { (0, 0) } else { (2 + rng.below(n as u64 + 4) as usize, rng.below(8) as usize) };
        let first = texts.len() + 1;
        texts.push((Text { bytes: bytes.clone(), w, mo }, 0));
        for _ in 0..3 {
            let mut v = bytes.clone();
            let at = rng.below(n as u64) as usize;
            match rng.below(3) {
                0 => { v[at] ^= 1 << rng.below(8); }
                1 => { v.truncate(at); let l = 1 + rng.below(20) as usize; v.extend(gen_bytes(&mut rng, l)); }
                _ => { let l = 1 + rng.below(10) as usize; v.extend(gen_words(&mut rng, l)); }
            }
            texts.push((Text { bytes: v, w, mo }, first));
        }
    }
    for _ in 0..2 { let bytes = repeating(&mut rng); texts.push((Text { bytes, w: 0, mo: 0 }, 0)); }
    let all: Vec<Text> = texts.iter().map(|t| t.0.clone()).collect();
    let elsewhere = in_another_process(ctx, &all);
    for ((t, base), e) in texts.iter().zip(elsewhere.iter()) { record(ctx, t, *base, e, &luts, &mut rng); }

    let k = ctx.scale(1, 6);
    let mut jobs: Vec<(&str, Text)> = vec![];
    let t = |bytes: Vec<u8>, w: usize, mo: usize| Text { bytes, w, mo };
    jobs.push(("zeros", t(vec![0; 270_000 * k], 0, 0)));
    jobs.push(("words", t(gen_words(&mut rng, 140_000 * k), 0, 0)));
    jobs.push(("noise", t((0..50_000 * k).map(|_| rng.next() as u8).collect(), 0, 0)));
    let mut run = vec![b'x'; 30_000]; run.extend(b"yz"); run.extend(vec![b'x'; 30_000]); run.push(b'y');
    jobs.push(("long runs", t(run, 0, 0)));
    jobs.push(("period", t((0..60_000 * k).map(|i| (i % 257 % 256) as u8).collect(), 0, 0)));
    for n in 0..ctx.scale(11, 40) {
        let b = if n % 2 == 0 { gen_words(&mut rng, 30_000 * k) } else { gen_bytes(&mut rng, 30_000 * k) };
        jobs.push(("sliding", t(b, [2, 3, 10, 100, 1000, 5000, 1, 7, 40, 300, 12_000][n % 11], [20, 2, 5, 20, 1, 20, 3, 0, 9, 20, 20][n % 11])));
    }
    // beyond the predictor's own window
    if ctx.thorough && ctx.seed < 1000 {
        let mut b = gen_words(&mut rng, 1000);
        while b.len() < 10_300_000 {
            let l = 20 + rng.below(3000) as usize;
            let s = rng.below((b.len() - 900) as u64) as usize;
            let e = (s + l).min(b.len());
            let part = b[s..e].to_vec();
            b.extend(part);
            b.push(rng.next() as u8 & 0x7f);
        }
        jobs.push(("beyond the window", t(b, 0, 0)));
    }
    ctx.journal("long texts");
    let next = std::sync::atomic::AtomicUsize::new(0);
    let out = std::sync::Mutex::new(vec![]);
    std::thread::scope(|s| for _ in 0..8 {
        s.spawn(|| loop {
            let i = next.fetch_add(1, std::sync::atomic::Ordering::SeqCst);
            if i >= jobs.len() { return; }
            let o = bulk(&jobs[i].1, jobs[i].0, &luts);
            out.lock().unwrap().push((i, o));
        });
    });
    let mut out = out.into_inner().unwrap();
    out.sort_by_key(|o| o.0);
    for (_, o) in out { ctx.emit(o); }
}
