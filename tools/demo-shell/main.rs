#![allow(dead_code, unused_imports, unused_variables, unused_mut, deprecated)]
// stands in for the crates which /repo/libs re-exports
extern crate self as libs;
pub use crossbeam;
pub mod divvy {
    use std::sync::{atomic::*, Arc};
    #[derive(Clone, Debug, Default)]
    pub struct Switch(Arc<AtomicBool>);
    impl Switch {
        pub fn off() -> Switch {
            Switch::default()
        }
        pub fn flip_on(&self) {
            self.0.store(true, Ordering::SeqCst)
        }
        pub fn is_on(&self) -> bool {
            self.0.load(Ordering::SeqCst)
        }
        pub fn get(&self) -> bool {
            self.is_on()
        }
    }
}
pub mod colored {
    pub trait Colorize {
        fn yellow(self) -> String;
    }
    impl Colorize for &str {
        fn yellow(self) -> String {
            self.to_string()
        }
    }
}
pub mod fastrand {
    use std::sync::atomic::*;
    static S: AtomicU64 = AtomicU64::new(0x9e3779b97f4a7c15);
    fn next() -> u64 {
        let mut z = S.fetch_add(0x9e3779b97f4a7c15, Ordering::SeqCst);
        z = (z ^ (z >> 30)).wrapping_mul(0xbf58476d1ce4e5b9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94d049bb133111eb);
        z ^ (z >> 31)
    }
    pub fn u64<R>(_: R) -> u64 {
        next()
    }
    pub fn u32<R>(_: R) -> u32 {
        next() as u32
    }
    pub fn u16<R>(_: R) -> u16 {
        next() as u16
    }
    pub fn u8<R>(_: R) -> u8 {
        next() as u8
    }
}
mod interface;
fn main() {
    // a demonstration that hangs fails
    std::thread::spawn(|| {
        std::thread::sleep(std::time::Duration::from_secs(100));
        eprintln!("hangs");
        std::process::exit(3);
    });
    interface::demo::demo();
    println!("ok");
}
