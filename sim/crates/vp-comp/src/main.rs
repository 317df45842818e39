//! Component level simulation of the interface's parts: completion engine, event reader, line editor, history.
#![allow(dead_code, unused_imports, private_interfaces)]
mod interface {
    #[path = "/repo/ogma-shell/interface/completions.rs"]
    mod completions;
    #[path = "/repo/ogma-shell/interface/events.rs"]
    mod events;
    #[path = "/repo/ogma-shell/interface/history.rs"]
    mod history;
    #[path = "/repo/ogma-shell/interface/input.rs"]
    mod input;
    #[path = "/repo/ogma-shell/interface/theme.rs"]
    mod theme;

    use input::InputBuffer;

    #[path = "/verif/sim/crates/vp-comp/src/harness.rs"]
    pub mod harness;
}
fn main() {
    kit::main(&interface::harness::parts())
}
