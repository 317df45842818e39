//! The whole shell in one process: real shell, interface, language crate, over a simulated
//! terminal, file system and scheduler.
mod batch;
mod evals;
mod paths;
mod screen;
mod sess;
mod typed;
fn main() {
    let mut v = paths::parts();
    v.extend(evals::parts());
    v.extend(batch::parts());
    v.extend(typed::parts());
    kit::main(&v)
}
