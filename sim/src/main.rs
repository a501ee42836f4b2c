//! Deterministic simulation of ksusig: see /verif/DESIGN.md
mod actor;
mod alloc;
mod check;
mod content;
mod creds;
mod exec;
mod gen;
mod judge;
mod process;
mod refimpl;
mod rng;
mod scenario;
mod sys;
mod world;

/// The command line program itself, compiled from its own sources
use ksusig_cli as app;

#[global_allocator]
static A: alloc::Counting = alloc::Counting;

fn main() {
    let cmd = std::env::args().nth(1).unwrap_or_default();
    exec::install_panic_hook();
    let code = match cmd.as_str() {
        "check" => check::check(),
        "worker" => check::worker(),
        "one" => check::one(),
        "gen" => check::gen_cmd(),
        "replay" => check::replay(),
        _ => {
            eprintln!("usage: ksusim check --prop C01 [--tier quick|thorough] | replay FILE | one FILE | gen ... | worker ...");
            2
        }
    };
    std::process::exit(code);
}
