//! Shared helpers: deterministic random numbers, ndjson output, panic capture.
use std::fs::File;
use std::io::{BufWriter, Write};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicUsize, Ordering};

#[derive(Clone)]
pub struct Rng(u64);

impl Rng {
    pub fn new(seed: u64) -> Rng {
        let mut r = Rng(seed ^ 0x9e37_79b9_7f4a_7c15);
        for _ in 0..4 { r.next(); }
        r
    }
    pub fn fork(&mut self, salt: u64) -> Rng { Rng::new(self.next() ^ salt.wrapping_mul(0x2545_f491_4f6c_dd1d)) }
    pub fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9e37_79b9_7f4a_7c15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xbf58_476d_1ce4_e5b9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94d0_49bb_1331_11eb);
        z ^ (z >> 31)
    }
    /// uniform in 0..n
    pub fn below(&mut self, n: u64) -> u64 { self.next() % n }
    pub fn range(&mut self, lo: i64, hi: i64) -> i64 { lo + self.below((hi - lo + 1) as u64) as i64 }
    pub fn chance(&mut self, num: u64, den: u64) -> bool { self.below(den) < num }
    pub fn pick<'a, T>(&mut self, items: &'a [T]) -> &'a T { &items[self.below(items.len() as u64) as usize] }
    /// a value of at most `bits` bits with a log-uniform-ish magnitude, biased to edges
    pub fn edgy(&mut self, bits: u32) -> u64 {
        let bits = bits.max(1);
        let b = self.below(bits as u64 + 1) as u32;
        let m = if b == 0 { 0 } else { u64::max_value() >> (64 - b) };
        match self.below(4) {
            0 => (1u64 << b.min(bits - 1)).wrapping_add(self.below(3)).wrapping_sub(1),
            _ => self.next() & m,
        }.min(if bits >= 64 { u64::max_value() } else { (1u64 << bits) - 1 })
    }
}

/// Ctx of one scenario run: where to write, how much to do.
pub struct Ctx {
    pub seed: u64,
    pub thorough: bool,
    pub input: Option<String>,
    out: BufWriter<File>,
    journal: String,
    pub lines: usize,
}

impl Ctx {
    pub fn new(seed: u64, thorough: bool, out: &str, input: Option<String>) -> Ctx {
        Ctx {
            seed, thorough, input, lines: 0,
            out: BufWriter::new(File::create(out).unwrap()),
            journal: format!("{}.journal", out),
        }
    }
    pub fn rng(&self, salt: u64) -> Rng { Rng::new(self.seed.wrapping_mul(1_000_003).wrapping_add(salt)) }
    pub fn scale(&self, quick: usize, thorough: usize) -> usize { if self.thorough { thorough } else { quick } }
    pub fn emit(&mut self, line: Obj) {
        self.out.write_all(line.done().as_bytes()).unwrap();
        self.out.write_all(b"\n").unwrap();
        self.lines += 1;
    }
    /// remember what is about to run, so that a crash or a hang names its input
    pub fn journal(&self, what: &str) { std::fs::write(&self.journal, what).unwrap(); }
    pub fn finish(mut self) {
        self.out.flush().unwrap();
        let _ = std::fs::remove_file(&self.journal);
    }
}

/// A JSON object being built.
pub struct Obj(String);

impl Obj {
    pub fn new() -> Obj { Obj(String::from("{")) }
    fn key(&mut self, k: &str) {
        if self.0.len() > 1 { self.0.push(','); }
        self.0.push('"'); self.0.push_str(k); self.0.push_str("\":");
    }
    pub fn int(mut self, k: &str, v: i64) -> Obj { self.key(k); self.0.push_str(&v.to_string()); self }
    pub fn str(mut self, k: &str, v: &str) -> Obj { self.key(k); self.0.push_str(&quote(v)); self }
    pub fn raw(mut self, k: &str, v: &str) -> Obj { self.key(k); self.0.push_str(v); self }
    pub fn ints<I: IntoIterator<Item = i64>>(mut self, k: &str, v: I) -> Obj {
        self.key(k); self.0.push_str(&arr(v)); self
    }
    pub fn done(mut self) -> String { self.0.push('}'); self.0 }
}

pub fn quote(v: &str) -> String {
    let mut s = String::from("\"");
    for c in v.chars() {
        match c {
            '"' | '\\' => { s.push('\\'); s.push(c) }
            '\n' => s.push(' '),
            c if (c as u32) < 32 => s.push('?'),
            c => s.push(c),
        }
    }
    s.push('"');
    s
}

pub fn arr<I: IntoIterator<Item = i64>>(v: I) -> String {
    let mut s = String::from("[");
    for (i, x) in v.into_iter().enumerate() {
        if i > 0 { s.push(','); }
        s.push_str(&x.to_string());
    }
    s.push(']');
    s
}

pub fn list<I: IntoIterator<Item = String>>(v: I) -> String {
    let mut s = String::from("[");
    for (i, x) in v.into_iter().enumerate() {
        if i > 0 { s.push(','); }
        s.push_str(&x);
    }
    s.push(']');
    s
}

/// <<hi, lo>> with value hi * 2^31 + lo
pub fn wide(v: i64) -> String { format!("[{},{}]", v >> 31, v & 0x7fff_ffff) }

static PANICS: AtomicUsize = AtomicUsize::new(0);
thread_local!(static DEPTH: std::cell::Cell<usize> = std::cell::Cell::new(0));
thread_local!(static LAST: std::cell::RefCell<String> = std::cell::RefCell::new(String::new()));

pub fn install_quiet_panics() {
    std::panic::set_hook(Box::new(|info| {
        PANICS.fetch_add(1, Ordering::SeqCst);
        let msg = if let Some(s) = info.payload().downcast_ref::<&str>() { s.to_string() }
            else if let Some(s) = info.payload().downcast_ref::<String>() { s.clone() }
            else { "panic".to_string() };
        let loc = info.location().map(|l| format!(" at {}:{}", l.file(), l.line())).unwrap_or_default();
        let text = format!("{}{}", msg, loc);
        if DEPTH.with(|d| d.get()) == 0 { eprintln!("panic: {}", text); }
        LAST.with(|l| *l.borrow_mut() = text.chars().take(300).collect());
    }));
}

/// run, turning a panic into Err(message)
pub fn guard<R, F: FnOnce() -> R>(f: F) -> Result<R, String> {
    DEPTH.with(|d| d.set(d.get() + 1));
    let r = catch_unwind(AssertUnwindSafe(f)).map_err(|_| LAST.with(|l| l.borrow().clone()));
    DEPTH.with(|d| d.set(d.get() - 1));
    r
}

pub fn clip(s: &str, n: usize) -> String { s.chars().take(n).collect() }

/// the n lowest bytes, the lowest one first
pub fn bytes_of(v: u64, n: usize) -> Vec<i64> { (0..n).map(|k| (v >> (8 * k) & 255) as i64).collect() }
