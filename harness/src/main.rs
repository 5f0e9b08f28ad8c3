mod util;
mod gens;
#[cfg(feature = "coder")]
mod coder;
#[cfg(feature = "history")]
mod history;
#[cfg(feature = "fixed")]
mod fixed;
#[cfg(feature = "estimators")]
mod estimators;
#[cfg(feature = "bits")]
mod bits;
#[cfg(feature = "window")]
mod window;
#[cfg(feature = "cost")]
mod cost;
#[cfg(feature = "bytes")]
mod bytes;
#[cfg(feature = "random")]
mod random;
#[cfg(feature = "index")]
mod index;
#[cfg(feature = "sigmoid")]
mod sigmoid;
#[cfg(feature = "apm")]
mod apm;
#[cfg(feature = "mixer")]
mod mixer;
#[cfg(feature = "predictor")]
mod predictor;
#[cfg(feature = "codec")]
mod codec;
#[cfg(feature = "protocol")]
mod protocol;
#[cfg(feature = "report")]
mod report;
#[cfg(feature = "far")]
mod far;
#[cfg(feature = "pool")]
mod pool;

fn main() {
    let args: Vec<String> = std::env::args().collect();
    if args.len() < 5 {
        eprintln!("usage: harness SCENARIO SEED quick|thorough OUT [INPUT]");
        std::process::exit(2);
    }
    util::install_quiet_panics();
    let mut ctx = util::Ctx::new(args[2].parse().unwrap(), args[3] == "thorough", &args[4], args.get(5).cloned());
    match args[1].as_str() {
        #[cfg(feature = "coder")]
        "coder" => coder::run(&mut ctx),
        #[cfg(feature = "history")]
        "history" => history::run_plain(&mut ctx),
        #[cfg(feature = "history")]
        "sliding" => history::run_sliding(&mut ctx),
        #[cfg(feature = "far")]
        "far" => far::run_plain(&mut ctx),
        #[cfg(feature = "far")]
        "far-sliding" => far::run_sliding(&mut ctx),
        #[cfg(feature = "far")]
        "trees" => far::run_trees(&mut ctx),
        #[cfg(feature = "window")]
        "window" => window::run(&mut ctx),
        #[cfg(feature = "bits")]
        "bits" => bits::run(&mut ctx),
        #[cfg(feature = "estimators")]
        "estimators" => estimators::run(&mut ctx),
        #[cfg(feature = "bytes")]
        "bytes" => bytes::run(&mut ctx),
        #[cfg(feature = "pool")]
        "pool" => pool::run(&mut ctx),
        #[cfg(feature = "random")]
        "random" => random::run(&mut ctx),
        #[cfg(feature = "index")]
        "index" => index::run(&mut ctx),
        #[cfg(feature = "sigmoid")]
        "sigmoid" => sigmoid::run(&mut ctx),
        #[cfg(feature = "mixer")]
        "mixer" => mixer::run(&mut ctx),
        #[cfg(feature = "apm")]
        "apm" => apm::run(&mut ctx),
        #[cfg(feature = "predictor")]
        "model" => predictor::run_model(&mut ctx),
        #[cfg(feature = "codec")]
        "codec" => codec::run(&mut ctx),
        #[cfg(feature = "codec")]
        "codec-child" => codec::run_child(&mut ctx),
        #[cfg(feature = "protocol")]
        "protocol" => protocol::run(&mut ctx),
        #[cfg(feature = "report")]
        "report" => report::run(&mut ctx),
        #[cfg(feature = "report")]
        "report-child" => report::run_child(&mut ctx),
        #[cfg(feature = "report")]
        "listing" => report::run_listing(&mut ctx),
        #[cfg(feature = "report")]
        "simulation" => report::run_simulation(&mut ctx),
        #[cfg(feature = "cost")]
        "cost" => cost::run(&mut ctx),
        #[cfg(feature = "fixed")]
        "fixed" => fixed::run(&mut ctx),
        #[cfg(feature = "history")]
        "fuzz" => history::run_fuzz(&mut ctx),
        other => { eprintln!("unknown scenario {}", other); std::process::exit(2); }
    }
    println!("lines {}", ctx.lines);
    ctx.finish();
}
