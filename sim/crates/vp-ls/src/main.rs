//! Simulation of the language server: documents (C22), answers (C23) and definitions (C24).
mod answers;
mod defs;
mod editor;
mod edits;

fn main() {
    editor::warm();
    answers::warm();
    let mut parts = vec![];
    parts.extend(edits::parts());
    parts.extend(answers::parts());
    parts.extend(defs::parts());
    kit::main(&parts)
}
