//! The command line program, compiled from its own sources
#![allow(dead_code, unused, clippy::all)]
include!("/repo/src/main.rs");
/// the program's own main
pub fn run() -> std::process::ExitCode {
    std::process::Termination::report(main())
}
pub use cli::Cli as TheCli;
