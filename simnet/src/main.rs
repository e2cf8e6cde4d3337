//! Deterministic simulation of the networked VM: see /verif/DESIGN.md.
mod case; mod world; mod vm; mod oracle; mod shrink; mod run;
#[path = "../../sim/src/ir.rs"] mod ir;
fn main() { run::main() }
