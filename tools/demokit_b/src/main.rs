//! Runs one fixed scenario against a server on the loopback interface and prints what happens.
#![allow(dead_code, unused_imports)]
mod ir; mod kit; mod scenario;
fn main() { scenario::run(); std::process::exit(0) }
