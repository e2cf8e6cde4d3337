//! The program `nb` itself: its main file, with the simulator's stand-in for the standard library.
#![no_std]
#![allow(unexpected_cfgs, dead_code, unused_imports, unused_macros)]
#[macro_use] extern crate std as real_std;
#[macro_use] extern crate getrandom as std;
mod nb {
    use real_std::prelude::rust_2024::*;
    include!("/repo/src/main.rs");
    pub fn program() { main() }
}
pub use nb::program;
