//! Implementation of the ThreadSanitizer entry points: every atomic operation of instrumented code is a
//! scheduling point, then performed for real (sequentially consistent: only one thread runs at a time).
use crate::sched::point;
use core::sync::atomic::*;
use Ordering::SeqCst;

#[no_mangle]
pub extern "C" fn __tsan_init() {}
#[no_mangle]
pub extern "C" fn __tsan_atomic_thread_fence(_mo: i32) {
    fence(SeqCst);
}
#[no_mangle]
pub extern "C" fn __tsan_atomic_signal_fence(_mo: i32) {}

macro_rules! ops {
    ($at:ty, $t:ty, $load:ident $store:ident $xchg:ident $add:ident $sub:ident $and:ident $or:ident $xor:ident $nand:ident $cas:ident $cass:ident $casw:ident) => {
        #[no_mangle]
        pub unsafe extern "C" fn $load(p: *const $t, _mo: i32) -> $t {
            point();
            (*(p as *const $at)).load(SeqCst)
        }
        #[no_mangle]
        pub unsafe extern "C" fn $store(p: *mut $t, v: $t, _mo: i32) {
            point();
            (*(p as *const $at)).store(v, SeqCst)
        }
        #[no_mangle]
        pub unsafe extern "C" fn $xchg(p: *mut $t, v: $t, _mo: i32) -> $t {
            point();
            (*(p as *const $at)).swap(v, SeqCst)
        }
        #[no_mangle]
        pub unsafe extern "C" fn $add(p: *mut $t, v: $t, _mo: i32) -> $t {
            point();
            (*(p as *const $at)).fetch_add(v, SeqCst)
        }
        #[no_mangle]
        pub unsafe extern "C" fn $sub(p: *mut $t, v: $t, _mo: i32) -> $t {
            point();
            (*(p as *const $at)).fetch_sub(v, SeqCst)
        }
        #[no_mangle]
        pub unsafe extern "C" fn $and(p: *mut $t, v: $t, _mo: i32) -> $t {
            point();
            (*(p as *const $at)).fetch_and(v, SeqCst)
        }
        #[no_mangle]
        pub unsafe extern "C" fn $or(p: *mut $t, v: $t, _mo: i32) -> $t {
            point();
            (*(p as *const $at)).fetch_or(v, SeqCst)
        }
        #[no_mangle]
        pub unsafe extern "C" fn $xor(p: *mut $t, v: $t, _mo: i32) -> $t {
            point();
            (*(p as *const $at)).fetch_xor(v, SeqCst)
        }
        #[no_mangle]
        pub unsafe extern "C" fn $nand(p: *mut $t, v: $t, _mo: i32) -> $t {
            point();
            (*(p as *const $at)).fetch_nand(v, SeqCst)
        }
        #[no_mangle]
        pub unsafe extern "C" fn $cas(p: *mut $t, exp: $t, v: $t, _mo: i32, _fmo: i32) -> $t {
            point();
            match (*(p as *const $at)).compare_exchange(exp, v, SeqCst, SeqCst) {
                Ok(x) => x,
                Err(x) => x,
            }
        }
        #[no_mangle]
        pub unsafe extern "C" fn $cass(p: *mut $t, exp: *mut $t, v: $t, _mo: i32, _fmo: i32) -> i32 {
            point();
            match (*(p as *const $at)).compare_exchange(*exp, v, SeqCst, SeqCst) {
                Ok(_) => 1,
                Err(x) => {
                    *exp = x;
                    0
                }
            }
        }
        #[no_mangle]
        pub unsafe extern "C" fn $casw(p: *mut $t, exp: *mut $t, v: $t, mo: i32, fmo: i32) -> i32 {
            $cass(p, exp, v, mo, fmo)
        }
    };
}
ops!(AtomicU8, u8, __tsan_atomic8_load __tsan_atomic8_store __tsan_atomic8_exchange __tsan_atomic8_fetch_add __tsan_atomic8_fetch_sub __tsan_atomic8_fetch_and __tsan_atomic8_fetch_or __tsan_atomic8_fetch_xor __tsan_atomic8_fetch_nand __tsan_atomic8_compare_exchange_val __tsan_atomic8_compare_exchange_strong __tsan_atomic8_compare_exchange_weak);
ops!(AtomicU16, u16, __tsan_atomic16_load __tsan_atomic16_store __tsan_atomic16_exchange __tsan_atomic16_fetch_add __tsan_atomic16_fetch_sub __tsan_atomic16_fetch_and __tsan_atomic16_fetch_or __tsan_atomic16_fetch_xor __tsan_atomic16_fetch_nand __tsan_atomic16_compare_exchange_val __tsan_atomic16_compare_exchange_strong __tsan_atomic16_compare_exchange_weak);
ops!(AtomicU32, u32, __tsan_atomic32_load __tsan_atomic32_store __tsan_atomic32_exchange __tsan_atomic32_fetch_add __tsan_atomic32_fetch_sub __tsan_atomic32_fetch_and __tsan_atomic32_fetch_or __tsan_atomic32_fetch_xor __tsan_atomic32_fetch_nand __tsan_atomic32_compare_exchange_val __tsan_atomic32_compare_exchange_strong __tsan_atomic32_compare_exchange_weak);
ops!(AtomicU64, u64, __tsan_atomic64_load __tsan_atomic64_store __tsan_atomic64_exchange __tsan_atomic64_fetch_add __tsan_atomic64_fetch_sub __tsan_atomic64_fetch_and __tsan_atomic64_fetch_or __tsan_atomic64_fetch_xor __tsan_atomic64_fetch_nand __tsan_atomic64_compare_exchange_val __tsan_atomic64_compare_exchange_strong __tsan_atomic64_compare_exchange_weak);
