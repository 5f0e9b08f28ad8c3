//! C20: outputs of the random generator.
use crate::util::*;
use demixer::random::MersenneTwister;

pub fn run(ctx: &mut Ctx) {
    let mut rng = ctx.rng(20);
    let lens = [4usize, 1, 2, 3, 7, 155, 156, 157, 311, 312, 313, 320, 623, 624, 625, 700];
    for n in 0..ctx.scale(56, 400) {
        let vector = n % 2 == 0;
        let key: Vec<u64> = if vector {
            let len = if n / 2 < lens.len() { lens[n / 2] } else { rng.range(1, 40) as usize };
            (0..len).map(|k| if n == 0 { 0x12345 + 0x11111 * k as u64 } else if n % 8 == 4 { rng.next() } else { rng.edgy(64) }).collect()
        } else {
            vec![match n / 2 { 0 => 5489, 1 => 0, 2 => 1, 3 => !0, 4 => 1 << 63, 5 => 19650218, _ => rng.edgy(64) }]
        };
        // enough to pass through the state more than once
        let count = match n % 8 { 0 | 3 => 950, 5 => 640, _ => 320 };
        let mixed = n % 3 != 0;
        let fmt: Vec<u64> = (0..count).map(|_| if mixed { rng.below(5) } else { 0 }).collect();
        let mut out: Vec<String> = vec![];
        let err = guard(|| {
            let mut mt = if vector { MersenneTwister::new_by_vector_seed(&key) }
                else if n == 1 { MersenneTwister::default() } else { MersenneTwister::new_by_scalar_seed(key[0]) };
            let real = |x: f64| (x * 9007199254740992.0) as u64;
            for f in fmt.iter() {
                let v = match f {
                    0 => mt.next_int64(),
                    1 => mt.next_int63() as u64,
                    2 => real(mt.next_real1()),
                    3 => real(mt.next_real2()),
                    _ => real(mt.next_real3()),
                };
                out.push(arr(bytes_of(v, 8)));
            }
        }).err().unwrap_or_default();
        ctx.emit(Obj::new().str("kind", if vector { "vector" } else { "scalar" })
            .raw("key", &list(key.iter().map(|&k| arr(bytes_of(k, 8)))))
            .ints("fmt", fmt.iter().map(|&x| x as i64)).raw("out", &list(out)).str("err", &err));
    }
}
