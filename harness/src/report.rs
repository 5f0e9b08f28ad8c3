//! C21, C22: what the predictor and the programs print.
use crate::gens::*;
use crate::util::*;
use demixer::coding::encoder::Encoder;
use demixer::estimators::cost::CostTracker;
use demixer::fixed_point::FixedPoint;
use demixer::history::tree::node::CostTrackers;
use demixer::history::tree::TreeHistorySource;
use demixer::history::{CollectedContextStates, ContextState, HistorySource};
use demixer::lut::LookUpTables;
use demixer::predictor::stats::PredictionStatisticsType::*;
use demixer::predictor::Predictor;

/// a decimal number in units of its last of `digits` digits; -1 if it is none
fn number(s: &str, digits: usize) -> i64 {
    let s = s.trim();
    let (whole, frac) = match s.find('.') { Some(i) => (&s[..i], &s[i + 1..]), None => (s, "") };
    if whole.is_empty() || !(whole.to_string() + frac).bytes().all(|b| b.is_ascii_digit()) { return -1; }
    let mut f = frac.to_string();
    while f.len() < digits { f.push('0'); }
    format!("{}{}", whole, &f[..digits]).parse::<i64>().unwrap_or(-1).min(0x7fff_ffff)
}

/// the number that follows a label (and the signs between them)
fn after(text: &str, label: &str, digits: usize) -> i64 {
    match text.find(label) {
        None => -2,
        Some(i) => {
            let rest = text[i + label.len()..].trim_start_matches(|c: char| c == ' ' || c == '=' || c == ':');
            number(rest.split(|c: char| c == ' ' || c == '\n' || c == ',').next().unwrap_or(""), digits)
        }
    }
}

fn program(path: &str, args: &[&str]) -> Result<Vec<u8>, String> {
    let bins = std::env::var("REPO_BINS").unwrap_or_else(|_| "/verif/target/repo/release".into());
    let r = std::process::Command::new(format!("{}/{}", bins, path)).args(args).output().map_err(|e| e.to_string())?;
    if r.status.success() { Ok(r.stdout) }
    else { Err(format!("{} ended with {}: {}", path, r.status, clip(&String::from_utf8_lossy(&r.stderr), 300))) }
}

/// predictions go to the output file, reports to the standard output
pub fn run_child(ctx: &mut Ctx) {
    let luts = LookUpTables::new();
    for line in std::fs::read_to_string(ctx.input.clone().unwrap()).unwrap().lines() {
        if line.starts_with("@") { child_large(ctx, line, &luts); continue; }
        let v: Vec<usize> = line.split_whitespace().map(|x| x.parse().unwrap()).collect();
        let every = v[0];
        let bytes: Vec<u8> = v[1..].iter().map(|b| *b as u8).collect();
        let mut pred = vec![];
        println!("@@TEXT");
        let err = guard(|| {
            let mut p = Predictor::new(&luts);
            for (n, &b) in bytes.iter().enumerate() {
                p.start_new_byte();
                for bit in bits(b) {
                    pred.push(p.predict().raw() as i64);
                    p.update(bit);
                }
                if (n + 1) % every == 0 || n + 1 == bytes.len() {
                    println!("@@SNAP {}", n + 1);
                    p.print_state(&[TotalCostUsingLuts, AverageContextLength, CostsAndOccurrencesPerContextType, CostsAndOccurrencesPerSymbolValue]);
                }
            }
        }).err().unwrap_or_default();
        ctx.emit(Obj::new().ints("p", pred).str("err", &err));
    }
}

const BLOCK: usize = 512;

/// Large texts are recorded in blocks of so many bytes:
/// [bits, [[contexts, unary contexts, bits, cost, occurrences], ...], [[byte, times, cost], ...], exact cost in 1/2^14 bits]
fn child_large(ctx: &mut Ctx, line: &str, luts: &LookUpTables) {
    let v: Vec<&str> = line[1..].split_whitespace().collect();
    let every = v[0].parse::<usize>().unwrap() * BLOCK;
    let bytes = std::fs::read(v[1]).unwrap();
    println!("@@TEXT");
    let mut blocks = vec![];
    let err = guard(|| {
        let mut p = Predictor::new(luts);
        let mut source = TreeHistorySource::new(10_000_000, 20, luts);
        let mut contexts = CollectedContextStates::new(20);
        let (mut exact, mut told) = (0f64, 0i64);
        for (k, block) in bytes.chunks(BLOCK).enumerate() {
            let mut kinds = std::collections::BTreeMap::new();
            let mut symbols = std::collections::BTreeMap::new();
            for &b in block {
                p.start_new_byte();
                source.start_new_byte();
                let mut byte_cost = 0;
                for bit in bits(b) {
                    contexts.reset();
                    source.gather_history_states(&mut contexts);
                    let n = contexts.items().len();
                    let unary = contexts.items().iter().filter(|c| match c { ContextState::ForEdge { .. } => true, _ => false }).count();
                    let times = contexts.items().last().map(|c| c.occurrence_count() as i64).unwrap_or(0);
                    source.process_input_bit(bit, &vec![CostTrackers::new(CostTracker::INITIAL, CostTracker::INITIAL); n - unary]);
                    let q = p.predict();
                    p.update(bit);
                    let cost = q.estimate_cost(bit, luts.log2_lut()).raw() as i64;
                    let pr = q.raw() as f64 / 8388608.0;
                    exact -= (if bit.is_0() { pr } else { 1.0 - pr }).log2();
                    byte_cost += cost;
                    let e = kinds.entry((n, unary)).or_insert((0, 0, 0));
                    *e = (e.0 + 1, e.1 + cost, e.2 + times);
                }
                let e = symbols.entry(b).or_insert((0, 0));
                *e = (e.0 + 1, e.1 + byte_cost);
            }
            let now = (exact * 16384.0).round() as i64;
            blocks.push(format!("[{},{},{},{}]", block.len() * 8,
                list(kinds.iter().map(|(k, v)| arr(vec![k.0 as i64, k.1 as i64, v.0, v.1, v.2]))),
                list(symbols.iter().map(|(k, v)| arr(vec![*k as i64, v.0, v.1]))), now - told));
            told = now;
            let n = k * BLOCK + block.len();
            if n % every == 0 || n == bytes.len() {
                println!("@@SNAP {}", n);
                p.print_state(&[TotalCostUsingLuts, AverageContextLength, CostsAndOccurrencesPerContextType, CostsAndOccurrencesPerSymbolValue]);
            }
        }
    }).err().unwrap_or_default();
    ctx.emit(Obj::new().raw("e", &list(blocks)).str("err", &err));
}

/// [n, lut cost, average context length, types, symbols]
fn snapshot(text: &str) -> String {
    let n = text.split('\n').next().unwrap().trim().parse::<i64>().unwrap();
    let types = list((0..25).map(|t| {
        let label = format!("order {}, unary {},", t / 5, t % 5);
        match text.find(&label) {
            None => arr(vec![-2, -2, -2]),
            Some(i) => {
                let line = text[i..].split('\n').next().unwrap();
                arr(vec![after(line, "count", 2), after(line, "cost", 2), after(line, "avg occur", 3)])
            }
        }
    }));
    // cells of "code char count cost"; the char may be the separator
    let mut symbols = vec![];
    let mut listed = text.split("by symbol value").nth(1).unwrap_or("").split('\n');
    listed.next();
    for line in listed {
        let c: Vec<char> = line.chars().collect();
        let mut i = 0;
        while i < c.len() {
            while i < c.len() && c[i] == ' ' { i += 1; }
            let start = i;
            while i < c.len() && c[i] != ' ' { i += 1; }
            let code = i64::from_str_radix(&c[start..i].iter().collect::<String>(), 16);
            i += 3;       // " c "
            let mut rest = vec![];
            for _ in 0..2 {
                while i < c.len() && c[i] == ' ' { i += 1; }
                let s = i;
                while i < c.len() && c[i] != ' ' { i += 1; }
                rest.push(c[s.min(c.len())..i.min(c.len())].iter().collect::<String>());
            }
            if let Ok(code) = code { symbols.push(arr(vec![code, number(&rest[0], 0), number(&rest[1], 2)])); }
            while i < c.len() && (c[i] == ' ' || c[i] == '|') { i += 1; }
        }
    }
    format!("[{},{},{},{},{}]", n, after(text, "using LUTs)", 2), after(text, "Average context length", 3), types, list(symbols))
}

fn main_figures(text: &str) -> Vec<i64> {
    vec![after(text, "total cost in bytes", 3), after(text, "total cost in bits", 3), after(text, "input length", 0),
         after(text, "average cost", 5), after(text, "compression ratio", 3),
         after(text, "Average context length", 3), after(text, "using LUTs)", 2)]
}

fn texts(ctx: &Ctx, rng: &mut Rng) -> Vec<Vec<u8>> {
    let mut v: Vec<Vec<u8>> = vec![vec![], vec![0], b"a".to_vec(), b"aa".to_vec(), b"ab".to_vec(), vec![255, 255, 255], b"\x00\x80\n".to_vec()];
    v.push(deep_case(rng, false).bytes);
    v.push(vec![b'~'; 150]);
    v.push((0..=255u8).rev().collect());
    // contexts that occur hundreds of times
    v.push(vec![b'_'; 290]);
    v.push((0..330).map(|i| b"of"[i % 2]).collect());
    v.last_mut().unwrap().push(b'x');
    for i in 0..ctx.scale(10, 90) {
        let n = [5, 12, 30, 90, 200][i % 5] + rng.below(40) as usize;
        v.push(if i % 2 == 0 { gen_words(rng, n) } else { gen_bytes(rng, n) });
    }
    v
}

pub fn run(ctx: &mut Ctx) {
    let mut rng = ctx.rng(21);
    let all = texts(ctx, &mut rng);
    let base = format!("report-child-{}", ctx.seed);
    let input: String = all.iter().map(|t| format!("{} {}\n", 1 + rng.below(9), t.iter().map(|b| b.to_string()).collect::<Vec<_>>().join(" "))).collect();
    std::fs::write(format!("{}.in", base), input).unwrap();
    ctx.journal("reports of the predictor");
    let child = std::process::Command::new(std::env::current_exe().unwrap())
        .args(&["report-child", "0", "quick", &format!("{}.out", base), &format!("{}.in", base)]).output().unwrap();
    let out = String::from_utf8_lossy(&child.stdout).into_owned();
    let recorded: Vec<String> = std::fs::read_to_string(format!("{}.out", base)).unwrap_or_default().lines().map(|l| l.to_string()).collect();
    let parts: Vec<&str> = out.split("@@TEXT\n").skip(1).collect();
    for (n, t) in all.iter().enumerate() {
        ctx.journal(&format!("reports of {:?}", t));
        let (pred, mut err) = match recorded.get(n) {
            Some(l) if child.status.success() => {
                let i = l.find("],\"err\":").unwrap();
                (l[5..i + 1].to_string(), l[i + 8..l.len() - 1].trim_matches('"').to_string())
            }
            _ => ("[]".to_string(), format!("the process ended with {}", child.status)),
        };
        let snaps = list(parts.get(n).unwrap_or(&"").split("@@SNAP ").skip(1).map(snapshot));
        let file = format!("{}.txt", base);
        std::fs::write(&file, t).unwrap();
        let mut figures = vec![];
        match program("demixer", &[&file]) {
            Ok(o) => if !t.is_empty() { figures = main_figures(&String::from_utf8_lossy(&o)) },
            Err(e) => if err.is_empty() { err = e },
        }
        ctx.emit(Obj::new().str("kind", "text").ints("bytes", t.iter().map(|b| *b as i64)).raw("pred", &pred)
            .raw("snaps", &snaps).ints("main", figures).str("err", &err));
        let _ = std::fs::remove_file(&file);
    }
    let luts = LookUpTables::new();
    for i in 0..ctx.scale(4, 16) {
        let n = [8192, 120_000, 65_536, 8191, 8193, 16_384, 40_000, 200_000][i % 8];
        let t: Vec<u8> = match i % 8 {
            1 | 7 => (0..n).map(|_| rng.next() as u8).collect(),
            2 => (0..n).map(|_| (rng.next() & 127) as u8).collect(),
            0 | 4 | 6 => gen_words(&mut rng, n),
            _ => gen_bytes(&mut rng, n),
        };
        ctx.journal(&format!("report of {} bytes", n));
        let mut code = vec![];
        let mut err = guard(|| {
            let mut e = Encoder::new(&mut code);
            let mut p = Predictor::new(&luts);
            for &b in &t { p.start_new_byte(); for bit in bits(b) { let x = p.predict(); e.encode_bit(x, bit); p.update(bit); } }
        }).err().unwrap_or_default();
        let file = format!("{}.txt", base);
        std::fs::write(&file, &t).unwrap();
        let (input, output) = (format!("{}.in", base), format!("{}.out", base));
        let _ = std::fs::remove_file(&output);
        std::fs::write(&input, format!("@{} {}\n", 5 + rng.below(40), file)).unwrap();
        let child = std::process::Command::new(std::env::current_exe().unwrap())
            .args(&["report-child", "0", "quick", &output, &input]).output().unwrap();
        let out = String::from_utf8_lossy(&child.stdout).into_owned();
        let recorded = std::fs::read_to_string(&output).unwrap_or_default();
        let blocks = match recorded.find("],\"err\":") {
            Some(i) if child.status.success() => {
                if err.is_empty() { err = recorded.trim()[i + 8..].trim_end_matches('}').trim_matches('"').to_string(); }
                recorded[5..i + 1].to_string()
            }
            _ => { if err.is_empty() { err = format!("the process ended with {}", child.status); } "[]".to_string() }
        };
        let snaps = list(out.split("@@SNAP ").skip(1).map(snapshot));
        let mut figures = vec![-3; 7];
        match program("demixer", &[&file]) {
            Ok(o) => figures = main_figures(&String::from_utf8_lossy(&o)),
            Err(e) => if err.is_empty() { err = e },
        }
        let _ = std::fs::remove_file(&file);
        ctx.emit(Obj::new().str("kind", "file").int("len", n as i64).int("code", code.len() as i64)
            .raw("e", &blocks).raw("snaps", &snaps).ints("main", figures).str("err", &err));
    }
    for x in &["in", "out"] { let _ = std::fs::remove_file(format!("{}.{}", base, x)); }
}

/// what print_histories shows: the bytes, and the contexts before each of their bits
fn listing(out: &[u8]) -> (Vec<i64>, Vec<Vec<i64>>) {
    let (mut seen, mut rep): (Vec<i64>, Vec<Vec<i64>>) = (vec![], vec![]);
    let text = String::from_utf8_lossy(out).into_owned();
    let head = "Processing byte with index: ";
    // the byte itself is printed as a character, which may be a line break
    for block in text.split(head).skip(1) {
        let mut c = block.splitn(2, ", ");
        let index = c.next().unwrap_or("").parse::<i64>().unwrap_or(-1);
        let rest = c.next().unwrap_or("");
        let ch = rest.chars().next().unwrap_or('\u{ffff}');
        seen.push(if index == seen.len() as i64 { ch as i64 } else { -1 });
        let mut bits = vec![vec![]; 8];
        for line in rest.chars().skip(1).collect::<String>().split('\n') {
            let mut p = line.splitn(2, ": ");
            if let (Some(i), Some(items)) = (p.next(), p.next()) {
                if let Ok(i @ 0..=7) = i.trim().parse::<usize>() {
                    bits[7 - i] = items.split(',').map(|x| i64::from_str_radix(x.trim(), 16).unwrap_or(-1)).collect();
                }
            }
        }
        rep.extend(bits);
    }
    (seen, rep)
}

pub fn run_listing(ctx: &mut Ctx) {
    let mut rng = ctx.rng(22);
    let mut all = texts(ctx, &mut rng);
    // only so many bytes are listed
    for &(n, d) in &[(1240, 9), (1234, 5), (1235, 2)] {
        let mut long = vec![b'z'; n];
        for i in 0..d { long[n - 6 - i] = b'x' + rng.below(3) as u8; }
        all.push(long);
    }
    for t in all.iter() {
        let file = format!("listing-{}.txt", ctx.seed);
        std::fs::write(&file, t).unwrap();
        let (mut seen, mut reps, mut err) = (vec![], vec![], String::new());
        for source in &["brute_force", "fat_map", "tree"] {
            ctx.journal(&format!("print_histories {} {:?}", source, t));
            match program("print_histories", &[source, &file]) {
                Ok(o) => { let l = listing(&o); seen.push(arr(l.0)); reps.push(list(l.1.into_iter().map(arr))); }
                Err(e) => err = e,
            }
        }
        ctx.emit(Obj::new().str("kind", "listing").int("len", t.len() as i64)
            .ints("bytes", t.iter().take(1234).map(|b| *b as i64)).raw("seen", &list(seen))
            .raw("rep", &list(reps)).str("err", &err));
        let _ = std::fs::remove_file(&file);
    }
}

/// a decimal number as [whole part, seven digits]; a sign is reported apart
fn seven(text: &str, label: &str) -> (bool, Vec<i64>) {
    let rest = match text.find(label) { None => return (false, vec![-2, 0]), Some(i) => text[i + label.len()..].trim_start() };
    let neg = rest.starts_with('-');
    let x = rest.trim_start_matches('-').split(',').next().unwrap_or("").trim();
    let whole = x.split('.').next().unwrap_or("");
    let frac: String = x.split('.').nth(1).unwrap_or("").chars().chain("0000000".chars()).take(7).collect();
    let int = |s: &str| if !s.is_empty() && s.len() < 10 && s.bytes().all(|b| b.is_ascii_digit()) { s.parse::<i64>().unwrap() } else { -1 };
    (neg, vec![int(whole), int(&frac)])
}

/// what entropy_simulations and bench_sigmoid print
pub fn run_simulation(ctx: &mut Ctx) {
    let mut rng = ctx.rng(23);
    let (mut rows, mut lines, mut err) = (vec![], vec![], String::new());
    ctx.journal("entropy_simulations");
    match program("entropy_simulations", &[]) {
        Err(e) => err = e,
        Ok(o) => {
            let (mut half, mut length) = (-1000, -1);
            for line in String::from_utf8_lossy(&o).lines() {
                if line.starts_with("power:") {
                    half = line[6..].trim().parse::<f64>().map(|x| (2.0 * x) as i64).unwrap_or(-1000);
                } else if line.starts_with("single run length") {
                    length = number(line.split('=').nth(1).unwrap_or(""), 0);
                } else if line.starts_with("LUT:") {
                    rows.push(vec![half, length, after(line, "factor", 0), after(line, "addend", 0)]);
                    lines.push(line.to_string());
                }
            }
        }
    }
    ctx.emit(Obj::new().str("kind", "table").raw("rows", &list(rows.iter().cloned().map(arr))).str("err", &err));
    // every row as such, and some bit by bit: each length with each kind of rates
    let n = lines.len();
    let mut all = vec![ctx.thorough; n];
    for i in (0..128.min(n)).map(|i| i % 64) { all[i + 64 * rng.below((n / 64).max(1) as u64) as usize] = true; }
    for (i, line) in lines.iter().enumerate() {
        let over = seven(line, "overhead:");
        ctx.emit(Obj::new().str("kind", "row").ints("row", rows[i].clone()).int("all", all[i] as i64)
            .ints("prob", seven(line, "probability:").1).ints("cost", seven(line, "total cost:").1)
            .ints("ideal", seven(line, "ideal cost:").1).int("neg", over.0 as i64).ints("over", over.1)
            .ints("ratio", seven(line, "ratio:").1).int("zeros", after(line, "zeros", 0)).int("ones", after(line, "ones", 0))
            .str("err", ""));
    }
    ctx.journal("bench_sigmoid");
    let (mut sums, mut err) = (vec![vec![0, 0]; 3], String::new());
    match program("bench_sigmoid", &[]) {
        Err(e) => err = e,
        Ok(o) => {
            let text = String::from_utf8_lossy(&o).into_owned();
            for (k, label) in ["warmup (checksum:", "squash", "stretch"].iter().enumerate() {
                let rest = text.find(label).map(|i| &text[i + label.len()..]).unwrap_or("");
                let rest = if k == 0 { rest } else { rest.find("chksum:").map(|i| &rest[i + 7..]).unwrap_or("") };
                match rest.split(')').next().unwrap_or("").trim().parse::<i64>() {
                    Ok(x) if x % 10_000 == 0 => { let x = x / 10_000; sums[k] = vec![x >> 31, x & 0x7fff_ffff]; }
                    _ => err = format!("no such sum: {}", clip(rest, 60)),
                }
            }
        }
    }
    ctx.emit(Obj::new().str("kind", "bench").ints("warm", sums[0].clone()).ints("squash", sums[1].clone())
        .ints("stretch", sums[2].clone()).str("err", &err));
}
