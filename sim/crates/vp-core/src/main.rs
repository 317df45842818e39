//! Simulation of the core crate: batches, table expressions, files, definitions.
mod bat;
mod defs;
mod c12;
mod c13;
mod tab;
mod world;

fn main() {
    world::warm();
    let a: Vec<String> = std::env::args().collect();
    if a.get(1).map_or(false, |x| x == "eval") {
        return world::repl(&a[2..]);
    }
    let mut parts = vec![];
    parts.extend(bat::parts());
    parts.extend(c12::parts());
    parts.extend(c13::parts());
    parts.extend(tab::parts());
    parts.extend(defs::parts());
    kit::main(&parts)
}
