//! Deterministic simulation of the command line front end: `cli::run` in server mode and in run mode, with and without a terminal.
mod case;
mod drive;
mod oracle;
mod run;
mod shrink;
fn main() { run::main() }
