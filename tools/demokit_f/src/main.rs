//! Runs the program nb in a child process and a fixed scenario against it, and prints what happens.
#![allow(dead_code, unused_imports)]
mod kit; mod scenario;
/// The program itself.
mod nb { include!(concat!(env!("NB_REPO"), "/src/main.rs")); pub fn program() { main() } }
fn main() {
    let a: Vec<String> = std::env::args().collect();
    if a.get(1).map(|x| x == "child").unwrap_or(false) { return kit::child(&a[2..]) }
    if a.iter().any(|x| x == "run") { kit::limits(); return nb::program() }
    scenario::run();
    std::process::exit(0)
}
