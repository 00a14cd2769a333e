//! /repo/src/main.rs on the kind of runtime its default features give it: one
//! thread. (The monitors need the crate with its `multi-threaded` feature, which
//! makes `Runtime::new()` a pool of threads.)
use clap::derive::Clap;

fn main() {
    env_logger::init();
    let opts = over_there::cli::Opts::parse();
    let mut rt = tokio::runtime::Builder::new()
        .basic_scheduler()
        .enable_all()
        .build()
        .expect("Failed to start runtime");
    if let Err(x) = rt.block_on(over_there::cli::run(opts)) {
        eprintln!("{}", x);
    }
}
