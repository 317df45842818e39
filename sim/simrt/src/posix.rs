//! libc entry points, defined here so that the real `std`, `parking_lot`, `crossbeam`, `rayon` … code
//! linked into the executable runs on the simulator.  Outside a simulation everything passes through.
#![allow(clippy::missing_safety_doc)]
use crate::{real, sched, vfs};
use core::ffi::CStr;
use libc::*;
use sched::{active, sim, sync_point, NEVER};
use std::collections::VecDeque;
use vfs::{vfs, FD_BASE};

pub static mut STDOUT: Vec<u8> = Vec::new();
pub static mut STDERR: Vec<u8> = Vec::new();
/// Columns and rows of the terminal.
pub static mut WINSIZE: (u16, u16) = (120, 40);
pub static mut STDIN: VecDeque<u8> = VecDeque::new();

fn e<T>(r: Result<T, i32>, f: impl FnOnce(T) -> isize) -> isize {
    match r {
        Ok(t) => f(t),
        Err(x) => {
            real::set_errno(x);
            -1
        }
    }
}
unsafe fn bytes<'a>(p: *const c_char) -> &'a [u8] {
    CStr::from_ptr(p).to_bytes()
}

pub fn real_ns() -> i64 {
    sched::REAL_BASE as i64 + (sched::now() - sched::MONO_BASE) as i64 + sim().real_off
}

// ------------------------------------------------------------------ threads
#[no_mangle]
pub unsafe extern "C" fn pthread_create(
    t: *mut pthread_t,
    a: *const pthread_attr_t,
    f: extern "C" fn(*mut c_void) -> *mut c_void,
    arg: *mut c_void,
) -> c_int {
    if !active() {
        return real::pthread_create(t, a, f, arg);
    }
    sched::spawn(t, a, f, arg)
}
#[no_mangle]
pub unsafe extern "C" fn pthread_join(t: pthread_t, r: *mut *mut c_void) -> c_int {
    if active() {
        if let Some(x) = sched::join(t, r) {
            return x;
        }
    }
    real::pthread_join(t, r)
}
#[no_mangle]
pub unsafe extern "C" fn pthread_detach(t: pthread_t) -> c_int {
    if active() {
        return 0;
    }
    real::pthread_detach(t)
}
#[no_mangle]
pub unsafe extern "C" fn pthread_setname_np(_t: pthread_t, n: *const c_char) -> c_int {
    if active() {
        sched::set_name(&String::from_utf8_lossy(bytes(n)));
    }
    0
}
#[no_mangle]
pub unsafe extern "C" fn __cxa_thread_atexit_impl(
    d: unsafe extern "C" fn(*mut c_void),
    o: *mut c_void,
    h: *mut c_void,
) -> c_int {
    if active() {
        sched::push_dtor(d, o as usize);
        return 0;
    }
    real::cxa_thread_atexit(d, o, h)
}
#[no_mangle]
pub unsafe extern "C" fn sched_yield() -> c_int {
    if active() {
        sched::yield_now();
        return 0;
    }
    real::ret(real::sys3(SYS_sched_yield, 0, 0, 0)) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn sched_getaffinity(pid: pid_t, n: size_t, set: *mut cpu_set_t) -> c_int {
    if active() {
        core::ptr::write_bytes(set as *mut u8, 0, n);
        for i in 0..sched::cpus() {
            CPU_SET(i as usize, &mut *set);
        }
        return 0;
    }
    let r = real::sys3(SYS_sched_getaffinity, pid as usize, n, set as usize);
    if r > 0 {
        if (r as usize) < n {
            core::ptr::write_bytes((set as *mut u8).add(r as usize), 0, n - r as usize);
        }
        return 0;
    }
    real::ret(r) as c_int
}

unsafe fn ts_ns(p: *const timespec) -> u64 {
    ((*p).tv_sec as u64).saturating_mul(1_000_000_000).saturating_add((*p).tv_nsec as u64)
}

unsafe fn futex(addr: usize, op: c_int, val: u32, ts: *const timespec, val3: u32) -> isize {
    let cmd = op & !(FUTEX_PRIVATE_FLAG | FUTEX_CLOCK_REALTIME);
    match cmd {
        FUTEX_WAIT | FUTEX_WAIT_BITSET => {
            sync_point();
            if *(addr as *const u32) != val {
                real::set_errno(EAGAIN);
                return -1;
            }
            let deadline = if ts.is_null() {
                NEVER
            } else if cmd == FUTEX_WAIT {
                sched::now().saturating_add(ts_ns(ts))
            } else if op & FUTEX_CLOCK_REALTIME != 0 {
                let d = ts_ns(ts) as i64 - real_ns();
                sched::now().saturating_add(d.max(0) as u64)
            } else {
                ts_ns(ts)
            };
            let bits = if cmd == FUTEX_WAIT_BITSET { val3 } else { !0 };
            if sched::wait_on(addr, bits, deadline) {
                0
            } else {
                real::set_errno(ETIMEDOUT);
                -1
            }
        }
        FUTEX_WAKE | FUTEX_WAKE_BITSET => {
            let bits = if cmd == FUTEX_WAKE_BITSET { val3 } else { !0 };
            let n = sched::wake(addr, val as usize, bits);
            sync_point();
            n as isize
        }
        _ => {
            real::set_errno(ENOSYS);
            -1
        }
    }
}

#[no_mangle]
pub unsafe extern "C" fn syscall(n: c_long, a: usize, b: usize, c: usize, d: usize, f: usize, g: usize) -> c_long {
    if active() {
        match n {
            SYS_futex => return futex(a, b as c_int, c as u32, d as *const timespec, g as u32) as c_long,
            SYS_getrandom => return getrandom(a as *mut c_void, b, c as u32) as c_long,
            SYS_sched_yield => return sched_yield() as c_long,
            SYS_copy_file_range | SYS_clone3 | SYS_openat2 => {
                real::set_errno(ENOSYS);
                return -1;
            }
            _ => (),
        }
    }
    real::ret(real::sys(n, a, b, c, d, f, g)) as c_long
}

#[no_mangle]
pub unsafe extern "C" fn getrandom(buf: *mut c_void, n: size_t, flags: c_uint) -> ssize_t {
    if active() {
        for i in 0..n {
            *(buf as *mut u8).add(i) = sched::entropy() as u8;
        }
        return n as ssize_t;
    }
    real::ret(real::sys3(SYS_getrandom, buf as usize, n, flags as usize))
}

// ------------------------------------------------------------------ time
#[no_mangle]
pub unsafe extern "C" fn clock_gettime(id: clockid_t, ts: *mut timespec) -> c_int {
    if active() {
        sched::point();
        let n = match id {
            CLOCK_REALTIME | CLOCK_REALTIME_COARSE => real_ns() as u64,
            _ => sched::now(),
        };
        (*ts).tv_sec = (n / 1_000_000_000) as time_t;
        (*ts).tv_nsec = (n % 1_000_000_000) as c_long;
        return 0;
    }
    real::ret(real::sys3(SYS_clock_gettime, id as usize, ts as usize, 0)) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn nanosleep(ts: *const timespec, rem: *mut timespec) -> c_int {
    if active() {
        sched::sleep_ns(ts_ns(ts));
        return 0;
    }
    real::ret(real::sys3(SYS_nanosleep, ts as usize, rem as usize, 0)) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn clock_nanosleep(id: clockid_t, flags: c_int, ts: *const timespec, rem: *mut timespec) -> c_int {
    if active() {
        if flags & TIMER_ABSTIME != 0 {
            let t = ts_ns(ts);
            if id == CLOCK_REALTIME {
                let d = t as i64 - real_ns();
                sched::sleep_ns(d.max(0) as u64);
            } else {
                sched::sleep_until(t);
            }
        } else {
            sched::sleep_ns(ts_ns(ts));
        }
        return 0;
    }
    -(real::sys(SYS_clock_nanosleep, id as usize, flags as usize, ts as usize, rem as usize, 0, 0) as c_int)
}

// ------------------------------------------------------------------ process
#[no_mangle]
pub unsafe extern "C" fn abort() -> ! {
    if active() {
        sched::end(sched::End::Abort);
    }
    let pid = real::sys3(SYS_getpid, 0, 0, 0) as usize;
    real::sys3(SYS_kill, pid, SIGABRT as usize, 0);
    real::exit_group(134)
}
#[no_mangle]
pub unsafe extern "C" fn exit(code: c_int) -> ! {
    if active() {
        sched::end(sched::End::Exit(code));
    }
    let f = dlsym(RTLD_NEXT, c"exit".as_ptr());
    let f: extern "C" fn(c_int) -> ! = core::mem::transmute(f);
    f(code)
}

// ------------------------------------------------------------------ files
fn ours(fd: c_int) -> bool {
    active() && fd >= FD_BASE
}
#[no_mangle]
pub unsafe extern "C" fn open64(p: *const c_char, flags: c_int, mode: mode_t) -> c_int {
    if active() {
        return e(vfs().open(bytes(p), flags, mode), |f| f as isize) as c_int;
    }
    real::ret(real::sys(SYS_openat, AT_FDCWD as usize, p as usize, (flags | O_LARGEFILE) as usize, mode as usize, 0, 0)) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn open(p: *const c_char, flags: c_int, mode: mode_t) -> c_int {
    open64(p, flags, mode)
}
#[no_mangle]
pub unsafe extern "C" fn openat64(d: c_int, p: *const c_char, flags: c_int, mode: mode_t) -> c_int {
    if active() {
        if d == AT_FDCWD || *p == b'/' as c_char {
            return open64(p, flags, mode);
        }
        real::set_errno(ENOSYS);
        return -1;
    }
    real::ret(real::sys(SYS_openat, d as usize, p as usize, (flags | O_LARGEFILE) as usize, mode as usize, 0, 0)) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn close(fd: c_int) -> c_int {
    if ours(fd) {
        return e(vfs().close(fd), |_| 0) as c_int;
    }
    real::ret(real::sys3(SYS_close, fd as usize, 0, 0)) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn read(fd: c_int, b: *mut c_void, n: size_t) -> ssize_t {
    if ours(fd) {
        return e(vfs().read(fd, core::slice::from_raw_parts_mut(b as *mut u8, n), None), |n| n as isize);
    }
    if active() && fd == 0 {
        let q = &mut *(&raw mut STDIN);
        let mut k = 0;
        while k < n {
            match q.pop_front() {
                Some(c) => *(b as *mut u8).add(k) = c,
                None => break,
            }
            k += 1;
        }
        return k as ssize_t;
    }
    real::ret(real::sys3(SYS_read, fd as usize, b as usize, n))
}
#[no_mangle]
pub unsafe extern "C" fn pread64(fd: c_int, b: *mut c_void, n: size_t, off: off64_t) -> ssize_t {
    if ours(fd) {
        return e(vfs().read(fd, core::slice::from_raw_parts_mut(b as *mut u8, n), Some(off as u64)), |n| n as isize);
    }
    real::ret(real::sys(SYS_pread64, fd as usize, b as usize, n, off as usize, 0, 0))
}
#[no_mangle]
pub unsafe extern "C" fn readv(fd: c_int, v: *const iovec, n: c_int) -> ssize_t {
    if active() && (fd >= FD_BASE || fd == 0) {
        for i in 0..n as usize {
            let x = &*v.add(i);
            if x.iov_len > 0 {
                return read(fd, x.iov_base, x.iov_len);
            }
        }
        return 0;
    }
    real::ret(real::sys3(SYS_readv, fd as usize, v as usize, n as usize))
}
unsafe fn captured(fd: c_int, b: *const c_void, n: size_t) -> bool {
    if active() && (fd == 1 || fd == 2) {
        let s = core::slice::from_raw_parts(b as *const u8, n);
        let o = if fd == 1 { &mut *(&raw mut STDOUT) } else { &mut *(&raw mut STDERR) };
        if o.len() < 8 << 20 {
            o.extend_from_slice(s);
        }
        sync_point();
        return true;
    }
    false
}
#[no_mangle]
pub unsafe extern "C" fn write(fd: c_int, b: *const c_void, n: size_t) -> ssize_t {
    if captured(fd, b, n) {
        return n as ssize_t;
    }
    if ours(fd) {
        return e(vfs().write(fd, core::slice::from_raw_parts(b as *const u8, n), None), |n| n as isize);
    }
    real::ret(real::sys3(SYS_write, fd as usize, b as usize, n))
}
#[no_mangle]
pub unsafe extern "C" fn pwrite64(fd: c_int, b: *const c_void, n: size_t, off: off64_t) -> ssize_t {
    if ours(fd) {
        return e(vfs().write(fd, core::slice::from_raw_parts(b as *const u8, n), Some(off as u64)), |n| n as isize);
    }
    real::ret(real::sys(SYS_pwrite64, fd as usize, b as usize, n, off as usize, 0, 0))
}
#[no_mangle]
pub unsafe extern "C" fn writev(fd: c_int, v: *const iovec, n: c_int) -> ssize_t {
    if active() && (fd >= FD_BASE || fd == 1 || fd == 2) {
        let mut all = vec![];
        for i in 0..n as usize {
            let x = &*v.add(i);
            all.extend_from_slice(core::slice::from_raw_parts(x.iov_base as *const u8, x.iov_len));
        }
        return write(fd, all.as_ptr() as *const c_void, all.len());
    }
    real::ret(real::sys3(SYS_writev, fd as usize, v as usize, n as usize))
}
#[no_mangle]
pub unsafe extern "C" fn lseek64(fd: c_int, off: off64_t, wh: c_int) -> off64_t {
    if ours(fd) {
        return e(vfs().seek(fd, off, wh), |n| n as isize) as off64_t;
    }
    real::ret(real::sys3(SYS_lseek, fd as usize, off as usize, wh as usize)) as off64_t
}
#[no_mangle]
pub unsafe extern "C" fn ftruncate64(fd: c_int, len: off64_t) -> c_int {
    if ours(fd) {
        return e(vfs().truncate(fd, len as u64), |_| 0) as c_int;
    }
    real::ret(real::sys3(SYS_ftruncate, fd as usize, len as usize, 0)) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn fsync(fd: c_int) -> c_int {
    if ours(fd) {
        return e(vfs().sync(fd), |_| 0) as c_int;
    }
    real::ret(real::sys3(SYS_fsync, fd as usize, 0, 0)) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn fdatasync(fd: c_int) -> c_int {
    fsync(fd)
}
#[no_mangle]
pub unsafe extern "C" fn fcntl(fd: c_int, cmd: c_int, arg: usize) -> c_int {
    if ours(fd) {
        return match cmd {
            F_DUPFD | F_DUPFD_CLOEXEC => e(vfs().dup(fd), |f| f as isize) as c_int,
            _ => 0,
        };
    }
    real::ret(real::sys3(SYS_fcntl, fd as usize, cmd as usize, arg)) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn ioctl(fd: c_int, req: c_ulong, arg: usize) -> c_int {
    if active() {
        if req == TIOCGWINSZ {
            let w = &mut *(arg as *mut winsize);
            (w.ws_col, w.ws_row) = WINSIZE;
            w.ws_xpixel = 0;
            w.ws_ypixel = 0;
            return 0;
        }
        real::set_errno(ENOTTY);
        return -1;
    }
    real::ret(real::sys3(SYS_ioctl, fd as usize, req as usize, arg)) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn isatty(fd: c_int) -> c_int {
    if active() {
        return 0;
    }
    let mut t: termios = core::mem::zeroed();
    (real::sys3(SYS_ioctl, fd as usize, TCGETS as usize, &mut t as *mut _ as usize) == 0) as c_int
}

unsafe fn fill(i: vfs::Ino, b: *mut stat64) {
    let (mode, size, (mtime, ctime), nlink) = vfs().stat_ino(i);
    core::ptr::write_bytes(b as *mut u8, 0, core::mem::size_of::<stat64>());
    let b = &mut *b;
    b.st_ino = i;
    b.st_mode = mode;
    b.st_size = size as off64_t;
    b.st_nlink = nlink as nlink_t;
    b.st_blksize = 4096;
    b.st_mtime = (mtime / 1_000_000_000) as time_t;
    b.st_mtime_nsec = (mtime % 1_000_000_000) as i64;
    b.st_ctime = (ctime / 1_000_000_000) as time_t;
    b.st_ctime_nsec = (ctime % 1_000_000_000) as i64;
    b.st_atime = b.st_mtime;
    b.st_atime_nsec = b.st_mtime_nsec;
}
#[no_mangle]
pub unsafe extern "C" fn fstat64(fd: c_int, b: *mut stat64) -> c_int {
    if ours(fd) {
        return e(vfs().fstat(fd), |i| {
            fill(i, b);
            0
        }) as c_int;
    }
    real::fstat64(fd, b)
}
#[no_mangle]
pub unsafe extern "C" fn stat64(p: *const c_char, b: *mut stat64) -> c_int {
    if active() {
        return e(vfs().stat(bytes(p), true), |i| {
            fill(i, b);
            0
        }) as c_int;
    }
    real::stat64(p, b)
}
#[no_mangle]
pub unsafe extern "C" fn lstat64(p: *const c_char, b: *mut stat64) -> c_int {
    if active() {
        return e(vfs().stat(bytes(p), false), |i| {
            fill(i, b);
            0
        }) as c_int;
    }
    real::lstat64(p, b)
}
#[no_mangle]
pub unsafe extern "C" fn fstatat64(d: c_int, p: *const c_char, b: *mut stat64, flags: c_int) -> c_int {
    if active() {
        if d == AT_FDCWD || *p == b'/' as c_char {
            return if flags & AT_SYMLINK_NOFOLLOW != 0 { lstat64(p, b) } else { stat64(p, b) };
        }
        if let Some(dir) = DIRS_BY_FD(d) {
            let mut full = dir;
            full.push(b'/');
            full.extend_from_slice(bytes(p));
            return e(vfs().stat(&full, flags & AT_SYMLINK_NOFOLLOW == 0), |i| {
                fill(i, b);
                0
            }) as c_int;
        }
        real::set_errno(EBADF);
        return -1;
    }
    real::ret(real::sys(SYS_newfstatat, d as usize, p as usize, b as usize, flags as usize, 0, 0)) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn statx(d: c_int, p: *const c_char, flags: c_int, mask: c_uint, b: *mut u8) -> c_int {
    if active() {
        if p.is_null() || b.is_null() {
            real::set_errno(EFAULT);
            return -1;
        }
        let mut st: stat64 = std::mem::zeroed();
        let r = if *p == 0 && flags & AT_EMPTY_PATH != 0 {
            if !ours(d) {
                return real::ret(real::sys(SYS_statx, d as usize, p as usize, flags as usize, mask as usize, b as usize, 0)) as c_int;
            }
            fstat64(d, &mut st)
        } else {
            fstatat64(d, p, &mut st, flags)
        };
        if r != 0 {
            return r;
        }
        std::ptr::write_bytes(b, 0, 256);
        let p32 = |o: usize, v: u32| (b.add(o) as *mut u32).write_unaligned(v);
        let p64 = |o: usize, v: u64| (b.add(o) as *mut u64).write_unaligned(v);
        p32(0, 0x7ff); // basic fields, no birth time
        p32(4, st.st_blksize as u32);
        p32(16, st.st_nlink as u32);
        p32(20, st.st_uid);
        p32(24, st.st_gid);
        (b.add(28) as *mut u16).write_unaligned(st.st_mode as u16);
        p64(32, st.st_ino);
        p64(40, st.st_size as u64);
        p64(48, st.st_blocks as u64);
        for (o, s, n) in [(64, st.st_atime, st.st_atime_nsec), (96, st.st_ctime, st.st_ctime_nsec), (112, st.st_mtime, st.st_mtime_nsec)] {
            p64(o, s as u64);
            p32(o + 8, n as u32);
        }
        p32(140, 1);
        return 0;
    }
    real::ret(real::sys(SYS_statx, d as usize, p as usize, flags as usize, mask as usize, b as usize, 0)) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn futimens(fd: c_int, t: *const timespec) -> c_int {
    if ours(fd) {
        let m = *t.add(1);
        let ns = match m.tv_nsec {
            UTIME_OMIT => return 0,
            UTIME_NOW => vfs().realtime(),
            n => m.tv_sec as u64 * 1_000_000_000 + n as u64,
        };
        return e(vfs().set_mtime(fd, ns), |_| 0) as c_int;
    }
    real::ret(real::sys(SYS_utimensat, fd as usize, 0, t as usize, 0, 0, 0)) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn access(p: *const c_char, mode: c_int) -> c_int {
    if active() {
        return e(vfs().stat(bytes(p), true), |_| 0) as c_int;
    }
    real::ret(real::sys3(SYS_access, p as usize, mode as usize, 0)) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn mkdir(p: *const c_char, mode: mode_t) -> c_int {
    if active() {
        return e(vfs().mkdir(bytes(p), mode), |_| 0) as c_int;
    }
    real::ret(real::sys3(SYS_mkdir, p as usize, mode as usize, 0)) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn rmdir(p: *const c_char) -> c_int {
    if active() {
        return e(vfs().unlink(bytes(p), true), |_| 0) as c_int;
    }
    real::ret(real::sys3(SYS_rmdir, p as usize, 0, 0)) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn unlink(p: *const c_char) -> c_int {
    if active() {
        return e(vfs().unlink(bytes(p), false), |_| 0) as c_int;
    }
    real::ret(real::sys3(SYS_unlink, p as usize, 0, 0)) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn unlinkat(d: c_int, p: *const c_char, fl: c_int) -> c_int {
    if active() {
        if d == AT_FDCWD {
            return if fl & AT_REMOVEDIR != 0 { rmdir(p) } else { unlink(p) };
        }
        real::set_errno(ENOSYS);
        return -1;
    }
    real::ret(real::sys3(SYS_unlinkat, d as usize, p as usize, fl as usize)) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn rename(a: *const c_char, b: *const c_char) -> c_int {
    if active() {
        return e(vfs().rename(bytes(a), bytes(b)), |_| 0) as c_int;
    }
    real::ret(real::sys3(SYS_rename, a as usize, b as usize, 0)) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn symlink(a: *const c_char, b: *const c_char) -> c_int {
    if active() {
        return e(vfs().symlink(bytes(a), bytes(b)), |_| 0) as c_int;
    }
    real::ret(real::sys3(SYS_symlink, a as usize, b as usize, 0)) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn link(a: *const c_char, b: *const c_char) -> c_int {
    if active() {
        return e(vfs().link(bytes(a), bytes(b)), |_| 0) as c_int;
    }
    real::ret(real::sys3(SYS_link, a as usize, b as usize, 0)) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn linkat(d: c_int, a: *const c_char, d2: c_int, b: *const c_char, fl: c_int) -> c_int {
    if active() {
        return link(a, b);
    }
    real::ret(real::sys(SYS_linkat, d as usize, a as usize, d2 as usize, b as usize, fl as usize, 0)) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn readlink(p: *const c_char, b: *mut c_char, n: size_t) -> ssize_t {
    if active() {
        return e(vfs().readlink(bytes(p)), |t| {
            let k = t.len().min(n);
            core::ptr::copy_nonoverlapping(t.as_ptr(), b as *mut u8, k);
            k as isize
        });
    }
    real::ret(real::sys3(SYS_readlink, p as usize, b as usize, n))
}
#[no_mangle]
pub unsafe extern "C" fn chmod(p: *const c_char, mode: mode_t) -> c_int {
    if active() {
        return e(vfs().chmod(bytes(p), mode), |_| 0) as c_int;
    }
    real::ret(real::sys3(SYS_chmod, p as usize, mode as usize, 0)) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn realpath(p: *const c_char, out: *mut c_char) -> *mut c_char {
    if active() {
        return match vfs().realpath(bytes(p)) {
            Ok(r) => {
                let o = if out.is_null() { malloc(r.len() + 1) as *mut c_char } else { out };
                core::ptr::copy_nonoverlapping(r.as_ptr(), o as *mut u8, r.len());
                *o.add(r.len()) = 0;
                o
            }
            Err(x) => {
                real::set_errno(x);
                core::ptr::null_mut()
            }
        };
    }
    real::realpath(p, out)
}
#[no_mangle]
pub unsafe extern "C" fn getcwd(b: *mut c_char, n: size_t) -> *mut c_char {
    if active() {
        let c = vfs().cwd();
        if c.len() + 1 > n {
            real::set_errno(ERANGE);
            return core::ptr::null_mut();
        }
        core::ptr::copy_nonoverlapping(c.as_ptr(), b as *mut u8, c.len());
        *b.add(c.len()) = 0;
        return b;
    }
    real::getcwd(b, n)
}
#[no_mangle]
pub unsafe extern "C" fn chdir(p: *const c_char) -> c_int {
    if active() {
        return e(vfs().chdir(bytes(p)), |_| 0) as c_int;
    }
    real::ret(real::sys3(SYS_chdir, p as usize, 0, 0)) as c_int
}

struct SimDir {
    ents: Vec<(Vec<u8>, u64, u8)>,
    at: usize,
    path: Vec<u8>,
    cur: dirent64,
    fd: c_int,
}
static mut OPEN_DIRS: Vec<(c_int, Vec<u8>)> = Vec::new();
static mut DIR_FD: c_int = 1 << 28;
#[allow(non_snake_case)]
unsafe fn DIRS_BY_FD(fd: c_int) -> Option<Vec<u8>> {
    (*(&raw const OPEN_DIRS)).iter().find(|d| d.0 == fd).map(|d| d.1.clone())
}
#[no_mangle]
pub unsafe extern "C" fn opendir(p: *const c_char) -> *mut DIR {
    if active() {
        return match vfs().opendir(bytes(p)) {
            Ok(ents) => {
                DIR_FD += 1;
                let path = bytes(p).to_vec();
                (*(&raw mut OPEN_DIRS)).push((DIR_FD, path.clone()));
                let d = Box::into_raw(Box::new(SimDir { ents, at: 0, path, cur: core::mem::zeroed(), fd: DIR_FD }));
                vfs().dirs.insert(d as usize);
                d as *mut DIR
            }
            Err(x) => {
                real::set_errno(x);
                core::ptr::null_mut()
            }
        };
    }
    real::opendir(p)
}
#[no_mangle]
pub unsafe extern "C" fn readdir64(d: *mut DIR) -> *mut dirent64 {
    if active() && vfs().dirs.contains(&(d as usize)) {
        sync_point();
        let d = &mut *(d as *mut SimDir);
        let _ = &d.path;
        if d.at >= d.ents.len() {
            return core::ptr::null_mut();
        }
        let (n, i, t) = &d.ents[d.at];
        d.at += 1;
        d.cur.d_ino = *i;
        d.cur.d_type = *t;
        d.cur.d_reclen = core::mem::size_of::<dirent64>() as u16;
        for (k, c) in n.iter().enumerate() {
            d.cur.d_name[k] = *c as c_char;
        }
        d.cur.d_name[n.len()] = 0;
        return &mut d.cur;
    }
    real::readdir64(d)
}
#[no_mangle]
pub unsafe extern "C" fn dirfd(d: *mut DIR) -> c_int {
    if active() && vfs().dirs.contains(&(d as usize)) {
        return (*(d as *mut SimDir)).fd;
    }
    real::dirfd(d)
}
#[no_mangle]
pub unsafe extern "C" fn closedir(d: *mut DIR) -> c_int {
    if active() && vfs().dirs.remove(&(d as usize)) {
        let b = Box::from_raw(d as *mut SimDir);
        (*(&raw mut OPEN_DIRS)).retain(|x| x.0 != b.fd);
        return 0;
    }
    real::closedir(d)
}
