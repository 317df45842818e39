//! The real clap, taking its arguments from the harness.
pub use real::*;
pub use real_derive::Parser;
use std::sync::Mutex;

static ARGS: Mutex<Vec<String>> = Mutex::new(Vec::new());
/// The arguments `parse` sees (without the program's name).
pub fn sim_args(a: &[String]) {
    *ARGS.lock().unwrap() = a.to_vec();
}

/// As clap's own: the derive macro of the same name implements it.
pub trait Parser: FromArgMatches + CommandFactory + Sized {
    fn parse() -> Self {
        let mut a = vec!["ogma".to_string()];
        a.extend(ARGS.lock().unwrap().iter().cloned());
        let m = <Self as CommandFactory>::command().get_matches_from(a);
        match <Self as FromArgMatches>::from_arg_matches(&m) {
            Ok(s) => s,
            Err(e) => e.exit(),
        }
    }
}
