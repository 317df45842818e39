//! Simulation of the whole terminal interface: `interface::run` with its real event reader, completion
//! engine and compute threads, on a recording terminal.
#![allow(dead_code, unused_imports)]
#[path = "/repo/ogma-shell/interface/mod.rs"]
mod interface;
mod gen;
mod model;
mod world;

fn main() {
    kit::main(&gen::parts())
}
