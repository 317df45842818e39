//! Raw access to the real kernel / real libc, used only by the simulator itself.
use core::arch::asm;
use libc::*;

#[inline]
pub unsafe fn sys(n: i64, a: usize, b: usize, c: usize, d: usize, e: usize, f: usize) -> isize {
    let r: isize;
    asm!("syscall", inlateout("rax") n as isize => r, in("rdi") a, in("rsi") b, in("rdx") c,
         in("r10") d, in("r8") e, in("r9") f, lateout("rcx") _, lateout("r11") _);
    r
}
pub unsafe fn sys3(n: i64, a: usize, b: usize, c: usize) -> isize {
    sys(n, a, b, c, 0, 0, 0)
}
/// libc-style return: sets errno on failure.
pub unsafe fn ret(r: isize) -> isize {
    if r < 0 && r > -4096 {
        *__errno_location() = (-r) as i32;
        -1
    } else {
        r
    }
}
pub fn set_errno(e: i32) {
    unsafe { *__errno_location() = e }
}
pub fn futex_wait(addr: *const u32, val: u32) {
    unsafe {
        sys(SYS_futex, addr as usize, (FUTEX_WAIT | FUTEX_PRIVATE_FLAG) as usize, val as usize, 0, 0, 0);
    }
}
pub fn futex_wake(addr: *const u32) {
    unsafe {
        sys(SYS_futex, addr as usize, (FUTEX_WAKE | FUTEX_PRIVATE_FLAG) as usize, 1, 0, 0, 0);
    }
}
pub fn exit_group(code: i32) -> ! {
    unsafe {
        sys3(SYS_exit_group, code as usize, 0, 0);
    }
    loop {}
}
pub fn write_all(fd: i32, mut b: &[u8]) {
    while !b.is_empty() {
        let n = unsafe { sys3(SYS_write, fd as usize, b.as_ptr() as usize, b.len()) };
        if n == -(EINTR as isize) {
            continue;
        }
        if n <= 0 {
            return;
        }
        b = &b[n as usize..];
    }
}
pub fn real_now_ns() -> u64 {
    let mut ts: timespec = unsafe { core::mem::zeroed() };
    unsafe { sys3(SYS_clock_gettime, CLOCK_MONOTONIC as usize, &mut ts as *mut _ as usize, 0) };
    ts.tv_sec as u64 * 1_000_000_000 + ts.tv_nsec as u64
}

macro_rules! next_fns {
    ($($name:ident : fn($($a:ident : $t:ty),*) -> $r:ty = $sym:literal;)*) => {
        pub struct Next { $(pub $name: Option<unsafe extern "C" fn($($t),*) -> $r>,)* }
        pub static mut NEXT: Next = Next { $($name: None,)* };
        $(pub unsafe fn $name($($a: $t),*) -> $r {
            if NEXT.$name.is_none() {
                let p = dlsym(RTLD_NEXT, concat!($sym, "\0").as_ptr() as *const _);
                if p.is_null() { write_all(2, concat!("simrt: missing ", $sym, "\n").as_bytes()); exit_group(99); }
                NEXT.$name = Some(core::mem::transmute(p));
            }
            (NEXT.$name.unwrap())($($a),*)
        })*
        /// Resolve everything up front, while single threaded.
        pub fn resolve() { unsafe { $(
            if NEXT.$name.is_none() {
                let p = dlsym(RTLD_NEXT, concat!($sym, "\0").as_ptr() as *const _);
                if !p.is_null() { NEXT.$name = Some(core::mem::transmute(p)); }
            }
        )* } }
    };
}
type Start = extern "C" fn(*mut c_void) -> *mut c_void;
next_fns! {
    pthread_create: fn(t: *mut pthread_t, at: *const pthread_attr_t, f: Start, arg: *mut c_void) -> c_int = "pthread_create";
    pthread_join: fn(t: pthread_t, r: *mut *mut c_void) -> c_int = "pthread_join";
    pthread_detach: fn(t: pthread_t) -> c_int = "pthread_detach";
    cxa_thread_atexit: fn(d: unsafe extern "C" fn(*mut c_void), o: *mut c_void, h: *mut c_void) -> c_int = "__cxa_thread_atexit_impl";
    opendir: fn(p: *const c_char) -> *mut DIR = "opendir";
    readdir64: fn(d: *mut DIR) -> *mut dirent64 = "readdir64";
    closedir: fn(d: *mut DIR) -> c_int = "closedir";
    dirfd: fn(d: *mut DIR) -> c_int = "dirfd";
    realpath: fn(p: *const c_char, o: *mut c_char) -> *mut c_char = "realpath";
    fstat64: fn(fd: c_int, b: *mut stat64) -> c_int = "fstat64";
    stat64: fn(p: *const c_char, b: *mut stat64) -> c_int = "stat64";
    lstat64: fn(p: *const c_char, b: *mut stat64) -> c_int = "lstat64";
    getcwd: fn(b: *mut c_char, n: size_t) -> *mut c_char = "getcwd";
}
