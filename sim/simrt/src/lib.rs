//! simrt: the deterministic simulation runtime.  See DESIGN.md.
#![allow(static_mut_refs)]
#[allow(invalid_runtime_symbol_definitions, non_upper_case_globals)]
pub mod posix;
pub mod real;
pub mod rng;
pub mod sched;
mod tsan;
pub mod vfs;

/// Start simulating in the calling (only) thread of this process.
pub fn start(cfg: sched::Cfg, on_end: fn(sched::End) -> !) {
    vfs::init(cfg.seed);
    sched::start(cfg, on_end);
}
/// Take what was written to standard output / error so far.
pub fn take_stdout() -> Vec<u8> {
    unsafe { std::mem::take(&mut *(&raw mut posix::STDOUT)) }
}
pub fn take_stderr() -> Vec<u8> {
    unsafe { std::mem::take(&mut *(&raw mut posix::STDERR)) }
}
pub fn push_stdin(b: &[u8]) {
    unsafe { (*(&raw mut posix::STDIN)).extend(b.iter().copied()) }
}
pub fn elapsed_ns() -> u64 {
    sched::now() - sched::MONO_BASE
}
