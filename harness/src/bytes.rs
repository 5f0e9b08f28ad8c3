//! C16: what the predictor sees of the most recent bytes, and the hash behind it.
use crate::util::*;
use demixer::bit::Bit;
use demixer::util::hash::Fnv1A;
use demixer::util::last_bytes::LastBytesCache;

fn text(rng: &mut Rng, len: usize) -> Vec<u8> {
    let style = rng.below(5);
    let few: Vec<u8> = (0..3).map(|_| rng.next() as u8).collect();
    (0..len).map(|i| match style {
        0 => rng.next() as u8,
        1 => *rng.pick(&few),
        2 => if rng.chance(1, 2) { 0 } else { 255 },
        3 => (i * 37) as u8,
        _ => b"abracadabra "[i % 12],
    }).collect()
}

pub fn run(ctx: &mut Ctx) {
    let mut rng = ctx.rng(16);
    for n in 0..ctx.scale(120, 1200) {
        let len = if n < 10 { n } else { rng.range(1, 60) as usize };
        let bytes = text(&mut rng, len);
        let mut obs: Vec<String> = vec![];
        let err = guard(|| {
            let mut cache = LastBytesCache::new();
            for byte in bytes.iter() {
                cache.start_new_byte();
                for k in (0..8).rev() {
                    // any copy shows the same
                    let c = cache.clone();
                    obs.push(arr(vec![c.unfinished_byte().raw() as i64, c.previous_byte_1() as i64,
                                      c.previous_byte_2() as i64, c.previous_byte_3() as i64, c.hash01_16() as i64,
                                      c.hash02_16() as i64, c.hash03_16() as i64]));
                    let bit: Bit = (byte >> k & 1 == 1).into();
                    cache.on_next_bit(bit);
                }
            }
        }).err().unwrap_or_default();
        ctx.emit(Obj::new().str("kind", "text").ints("bytes", bytes.iter().map(|&x| x as i64))
            .raw("obs", &list(obs)).str("err", &err));
    }
    for n in 0..ctx.scale(300, 3000) {
        let len = if n == 0 { 0 } else { rng.range(0, 24) as usize };
        let data = text(&mut rng, len);
        let mut r = (0u64, 0u32, 0u16);
        let err = guard(|| {
            let feed = || { let mut h = Fnv1A::new(); for &x in data.iter() { h.mix_byte(x) } h };
            r = (feed().into_u64(), feed().into_u32(), feed().into_u16());
        }).err().unwrap_or_default();
        ctx.emit(Obj::new().str("kind", "fnv").ints("data", data.iter().map(|&x| x as i64))
            .ints("h64", bytes_of(r.0, 8)).ints("h32", bytes_of(r.1 as u64, 4)).int("h16", r.2 as i64).str("err", &err));
    }
}
