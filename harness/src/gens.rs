//! Texts: seeded, with the structure that makes contexts occur, branch and slide.
use crate::util::*;
use demixer::bit::Bit;

#[derive(Clone)]
pub struct Case { pub bytes: Vec<u8>, pub max_order: usize, pub window: usize, pub shift: usize }

pub fn bits(b: u8) -> impl Iterator<Item = Bit> { (0..8).rev().map(move |i| ((b >> i) & 1 == 1).into()) }

/// inputs with a lot of repetition at many scales
pub fn gen_bytes(rng: &mut Rng, n: usize) -> Vec<u8> {
    let mut out: Vec<u8> = Vec::new();
    let alphabet: Vec<u8> = match rng.below(6) {
        0 => vec![0, 255],
        1 => vec![b'a', b'b'],
        2 => vec![0x80, 0, 0x81],
        3 => (0..4).map(|_| rng.next() as u8).collect(),
        4 => { let b = rng.next() as u8; vec![b, b ^ 1, b ^ 0x80, b ^ 0x10] }
        _ => (0..=255u8).collect(),
    };
    match rng.below(7) {
        0 => { // fibonacci-like
            let (mut a, mut b) = (vec![alphabet[0]], vec![alphabet[0], alphabet[1]]);
            while b.len() < n { let c = [b.clone(), a.clone()].concat(); a = b; b = c; }
            out = b;
        }
        1 => { // interrupted runs
            while out.len() < n {
                let s = *rng.pick(&alphabet);
                for _ in 0..1 + rng.below(n as u64) { out.push(s); }
                out.push(*rng.pick(&alphabet));
            }
        }
        2 => { // period with defects
            let p: Vec<u8> = (0..1 + rng.below(5)).map(|_| *rng.pick(&alphabet)).collect();
            while out.len() < n {
                out.extend(&p);
                if rng.chance(1, 6) { let i = out.len() - 1; out[i] = *rng.pick(&alphabet); }
            }
        }
        3 | 4 => { // copies of earlier parts
            while out.len() < n {
                if out.is_empty() || rng.chance(1, 4) { out.push(*rng.pick(&alphabet)); }
                else {
                    let s = rng.below(out.len() as u64) as usize;
                    let l = 1 + rng.below(6) as usize;
                    for i in 0..l { let b = out[s + i]; out.push(b); }
                }
            }
        }
        5 => out = vec![alphabet[0]; n],
        _ => while out.len() < n { out.push(*rng.pick(&alphabet)); },
    }
    out.truncate(n);
    out
}

/// runs of one byte, longer than any machine word has bits, interrupted and repeated, with high orders
pub fn deep_case(rng: &mut Rng, slide: bool) -> Case {
    let (a, b) = *rng.pick(&[(b'a', b'b'), (0u8, 128u8), (255, 254), (b'x', b'x' ^ 16)]);
    let run = 66 + rng.below(20) as usize;
    let mut bytes = vec![a; run];
    bytes.push(b);
    bytes.extend(vec![a; run - 3 + rng.below(9) as usize]);
    bytes.extend(&[b, a, a, b]);
    let max_order = *rng.pick(&[64usize, 65, 70, 80, 100, 127]);
    let window = if slide { run + 5 + rng.below(30) as usize } else { bytes.len() };
    if slide { bytes.extend(vec![a; run / 2]); bytes.push(b); bytes.extend(vec![b; 9]); }
    let shift = rng.below(window as u64) as usize;
    Case { bytes, max_order, window, shift }
}

pub fn gen_words(rng: &mut Rng, n: usize) -> Vec<u8> {
    let words: Vec<Vec<u8>> = (0..6).map(|_| (0..1 + rng.below(6)).map(|_| b'a' + rng.below(20) as u8).collect()).collect();
    let mut out = vec![];
    while out.len() < n { out.extend(&words[rng.below(rng.clone().below(6) + 1) as usize % 6]); out.push(if rng.chance(1, 9) { b'\n' } else { b' ' }); }
    out.truncate(n);
    out
}

