//! Runs the command line front end in a child process and a fixed scenario against it, and prints what happens.
#![allow(dead_code, unused_imports)]
mod kit; mod scenario;
fn main() {
    let a: Vec<String> = std::env::args().collect();
    if a.get(1).map(|x| x == "child").unwrap_or(false) { return kit::child(&a[2..]) }
    scenario::run();
    std::process::exit(0)
}
