//! Stand-in for `fastrand` 1.x (interior mutability API); seeded from the simulator.
use std::cell::Cell;
use std::ops::{Bound, RangeBounds};

#[derive(Debug)]
pub struct Rng(Cell<u64>);
impl Default for Rng {
    fn default() -> Self {
        Self::new()
    }
}
impl Clone for Rng {
    fn clone(&self) -> Self {
        Rng::with_seed(self.gen())
    }
}
macro_rules! ints { ($($t:ident),*) => {
    impl Rng { $(pub fn $t(&self, r: impl RangeBounds<$t>) -> $t {
        let lo = match r.start_bound() { Bound::Included(&x) => x as i128, Bound::Excluded(&x) => x as i128 + 1, _ => $t::MIN as i128 };
        let hi = match r.end_bound() { Bound::Included(&x) => x as i128, Bound::Excluded(&x) => x as i128 - 1, _ => $t::MAX as i128 };
        assert!(lo <= hi, "empty range");
        let span = (hi - lo) as u128 + 1;
        (lo + (self.gen() as u128 % span) as i128) as $t
    })* }
    $(pub fn $t(r: impl RangeBounds<$t>) -> $t { RNG.with(|x| x.$t(r)) })*
} }
/// Set by the simulation: the next number drawn panics, as a defect in an evaluation would.
pub static PANIC: std::sync::atomic::AtomicBool = std::sync::atomic::AtomicBool::new(false);
thread_local! { static RNG: Rng = Rng::new(); }
ints!(u8, i8, u16, i16, u32, i32, u64, i64, usize, isize);
impl Rng {
    pub fn new() -> Self {
        Rng::with_seed(simrt::sched::entropy())
    }
    pub fn with_seed(s: u64) -> Self {
        Rng(Cell::new(s))
    }
    pub fn seed(&self, s: u64) {
        self.0.set(s)
    }
    fn gen(&self) -> u64 {
        let s = self.0.get().wrapping_add(0x9e3779b97f4a7c15);
        self.0.set(s);
        let mut z = s;
        z = (z ^ (z >> 30)).wrapping_mul(0xbf58476d1ce4e5b9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94d049bb133111eb);
        z ^ (z >> 31)
    }
    pub fn f64(&self) -> f64 {
        (self.gen() >> 11) as f64 / (1u64 << 53) as f64
    }
    pub fn f32(&self) -> f32 {
        self.f64() as f32
    }
    pub fn bool(&self) -> bool {
        self.gen() & 1 == 1
    }
    pub fn shuffle<T>(&self, s: &mut [T]) {
        for i in (1..s.len()).rev() {
            s.swap(i, self.usize(..=i));
        }
    }
}
pub fn f64() -> f64 {
    if PANIC.swap(false, std::sync::atomic::Ordering::SeqCst) {
        panic!("injected: an evaluation panics");
    }
    RNG.with(|r| r.f64())
}
pub fn f32() -> f32 {
    RNG.with(|r| r.f32())
}
pub fn bool() -> bool {
    RNG.with(|r| r.bool())
}
pub fn seed(s: u64) {
    RNG.with(|r| r.seed(s))
}
pub fn shuffle<T>(s: &mut [T]) {
    RNG.with(|r| r.shuffle(s))
}
