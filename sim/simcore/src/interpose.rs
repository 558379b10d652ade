//! libc entry points that Rust's std (and the crates of the system) call, taken over by the
//! executable: calls of simulated threads on /simfs go to the simulated disk, randomness and
//! clocks come from the seed; everything else goes to the kernel as before.
#![allow(clippy::missing_safety_doc)]
use crate::sched;
use crate::simfs;
use libc::*;
use std::ffi::CStr;

#[inline]
unsafe fn sys6(n: c_long, a: c_long, b: c_long, c: c_long, d: c_long, e: c_long, f: c_long) -> c_long {
    let r: c_long;
    core::arch::asm!("syscall", inlateout("rax") n => r, in("rdi") a, in("rsi") b, in("rdx") c,
        in("r10") d, in("r8") e, in("r9") f, lateout("rcx") _, lateout("r11") _, options(nostack));
    r
}
#[inline]
unsafe fn ret(r: c_long) -> c_long {
    if (-4095..0).contains(&r) {
        *__errno_location() = -r as c_int;
        -1
    } else {
        r
    }
}
unsafe fn simret(r: simfs::R) -> c_long {
    match r {
        Ok(v) => v as c_long,
        Err(e) => {
            *__errno_location() = e;
            -1
        }
    }
}
unsafe fn simpath<'a>(p: *const c_char) -> Option<&'a str> {
    if p.is_null() || !sched::in_sim() {
        return None;
    }
    let s = CStr::from_ptr(p).to_str().ok()?;
    simfs::is_sim_path(s).then_some(s)
}
fn budget() {
    // a simulated program that keeps calling the OS without end must not hang the run
    let n = sched::SYSCALLS.fetch_add(1, std::sync::atomic::Ordering::Relaxed);
    if n > SYSCALL_CAP.load(std::sync::atomic::Ordering::Relaxed) {
        // an entry per run: the harness decides what it means
        RUNAWAY.store(true, std::sync::atomic::Ordering::SeqCst);
    }
}
pub static SYSCALL_CAP: std::sync::atomic::AtomicUsize =
    std::sync::atomic::AtomicUsize::new(5_000_000);
pub static RUNAWAY: std::sync::atomic::AtomicBool = std::sync::atomic::AtomicBool::new(false);
pub fn force_link() {
    let f = [
        open64 as *const () as usize,
        read as *const () as usize,
        write as *const () as usize,
        statx as *const () as usize,
        realpath as *const () as usize,
        getrandom as *const () as usize,
        clock_gettime as *const () as usize,
        syscall as *const () as usize,
    ];
    std::hint::black_box(f);
}
/// Called when a run passes the cap of simulated system calls.
pub static ON_RUNAWAY: std::sync::Mutex<Option<fn()>> = std::sync::Mutex::new(None);
fn simcall() {
    budget();
    if RUNAWAY.load(std::sync::atomic::Ordering::SeqCst) {
        let f = *ON_RUNAWAY.lock().unwrap_or_else(|e| e.into_inner());
        if let Some(f) = f {
            f();
        }
    }
    sched::advance_ns(2_000);
    sched::yield_point();
}

#[no_mangle]
pub unsafe extern "C" fn open64(p: *const c_char, flags: c_int, mode: c_int) -> c_int {
    if let Some(s) = simpath(p) {
        simcall();
        return simret(simfs::open(s, flags)) as c_int;
    }
    ret(sys6(SYS_openat, AT_FDCWD as c_long, p as c_long, flags as c_long, mode as c_long, 0, 0))
        as c_int
}
#[no_mangle]
pub unsafe extern "C" fn open(p: *const c_char, flags: c_int, mode: c_int) -> c_int {
    open64(p, flags, mode)
}
#[no_mangle]
pub unsafe extern "C" fn openat64(d: c_int, p: *const c_char, flags: c_int, mode: c_int) -> c_int {
    if let Some(s) = simpath(p) {
        simcall();
        return simret(simfs::open(s, flags)) as c_int;
    }
    ret(sys6(SYS_openat, d as c_long, p as c_long, flags as c_long, mode as c_long, 0, 0)) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn close(fd: c_int) -> c_int {
    if simfs::is_sim_fd(fd) {
        simcall();
        return simret(simfs::close(fd)) as c_int;
    }
    ret(sys6(SYS_close, fd as c_long, 0, 0, 0, 0, 0)) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn read(fd: c_int, b: *mut c_void, n: size_t) -> ssize_t {
    if simfs::is_sim_fd(fd) {
        simcall();
        return simret(simfs::read_at(fd, std::slice::from_raw_parts_mut(b as *mut u8, n), None))
            as ssize_t;
    }
    ret(sys6(SYS_read, fd as c_long, b as c_long, n as c_long, 0, 0, 0)) as ssize_t
}
#[no_mangle]
pub unsafe extern "C" fn pread64(fd: c_int, b: *mut c_void, n: size_t, o: off64_t) -> ssize_t {
    if simfs::is_sim_fd(fd) {
        simcall();
        return simret(simfs::read_at(
            fd,
            std::slice::from_raw_parts_mut(b as *mut u8, n),
            Some(o as usize),
        )) as ssize_t;
    }
    ret(sys6(SYS_pread64, fd as c_long, b as c_long, n as c_long, o, 0, 0)) as ssize_t
}
#[no_mangle]
pub unsafe extern "C" fn readv(fd: c_int, v: *const iovec, n: c_int) -> ssize_t {
    if simfs::is_sim_fd(fd) {
        for i in 0..n as usize {
            let e = &*v.add(i);
            if e.iov_len > 0 {
                return read(fd, e.iov_base, e.iov_len);
            }
        }
        return 0;
    }
    ret(sys6(SYS_readv, fd as c_long, v as c_long, n as c_long, 0, 0, 0)) as ssize_t
}
#[no_mangle]
pub unsafe extern "C" fn write(fd: c_int, b: *const c_void, n: size_t) -> ssize_t {
    if simfs::is_sim_fd(fd) {
        simcall();
        return simret(simfs::write_at(fd, std::slice::from_raw_parts(b as *const u8, n), None))
            as ssize_t;
    }
    ret(sys6(SYS_write, fd as c_long, b as c_long, n as c_long, 0, 0, 0)) as ssize_t
}
#[no_mangle]
pub unsafe extern "C" fn pwrite64(fd: c_int, b: *const c_void, n: size_t, o: off64_t) -> ssize_t {
    if simfs::is_sim_fd(fd) {
        simcall();
        return simret(simfs::write_at(
            fd,
            std::slice::from_raw_parts(b as *const u8, n),
            Some(o as usize),
        )) as ssize_t;
    }
    ret(sys6(SYS_pwrite64, fd as c_long, b as c_long, n as c_long, o, 0, 0)) as ssize_t
}
#[no_mangle]
pub unsafe extern "C" fn writev(fd: c_int, v: *const iovec, n: c_int) -> ssize_t {
    if simfs::is_sim_fd(fd) {
        let mut all = vec![];
        for i in 0..n as usize {
            let e = &*v.add(i);
            if e.iov_len > 0 {
                all.extend_from_slice(std::slice::from_raw_parts(e.iov_base as *const u8, e.iov_len));
            }
        }
        return write(fd, all.as_ptr() as *const c_void, all.len());
    }
    ret(sys6(SYS_writev, fd as c_long, v as c_long, n as c_long, 0, 0, 0)) as ssize_t
}
#[no_mangle]
pub unsafe extern "C" fn lseek64(fd: c_int, o: off64_t, w: c_int) -> off64_t {
    if simfs::is_sim_fd(fd) {
        return simret(simfs::lseek(fd, o, w)) as off64_t;
    }
    ret(sys6(SYS_lseek, fd as c_long, o, w as c_long, 0, 0, 0)) as off64_t
}
#[no_mangle]
pub unsafe extern "C" fn lseek(fd: c_int, o: off64_t, w: c_int) -> off64_t {
    lseek64(fd, o, w)
}
#[no_mangle]
pub unsafe extern "C" fn fsync(fd: c_int) -> c_int {
    if simfs::is_sim_fd(fd) {
        simcall();
        return simret(simfs::fsync(fd)) as c_int;
    }
    ret(sys6(SYS_fsync, fd as c_long, 0, 0, 0, 0, 0)) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn fdatasync(fd: c_int) -> c_int {
    if simfs::is_sim_fd(fd) {
        simcall();
        return simret(simfs::fsync(fd)) as c_int;
    }
    ret(sys6(SYS_fdatasync, fd as c_long, 0, 0, 0, 0, 0)) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn ftruncate64(fd: c_int, n: off64_t) -> c_int {
    if simfs::is_sim_fd(fd) {
        return simret(simfs::ftruncate(fd, n as usize)) as c_int;
    }
    ret(sys6(SYS_ftruncate, fd as c_long, n, 0, 0, 0, 0)) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn unlink(p: *const c_char) -> c_int {
    if let Some(s) = simpath(p) {
        simcall();
        return simret(simfs::unlink(s)) as c_int;
    }
    ret(sys6(SYS_unlink, p as c_long, 0, 0, 0, 0, 0)) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn rename(a: *const c_char, b: *const c_char) -> c_int {
    if let (Some(x), Some(y)) = (simpath(a), simpath(b)) {
        simcall();
        return simret(simfs::rename(x, y)) as c_int;
    }
    ret(sys6(SYS_rename, a as c_long, b as c_long, 0, 0, 0, 0)) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn mkdir(p: *const c_char, m: mode_t) -> c_int {
    if let Some(s) = simpath(p) {
        return simret(simfs::mkdir(s)) as c_int;
    }
    ret(sys6(SYS_mkdir, p as c_long, m as c_long, 0, 0, 0, 0)) as c_int
}
unsafe fn fill_stat64(b: *mut stat64, v: Result<(bool, u64, u64), i32>) -> c_int {
    match v {
        Ok((dir, size, ino)) => {
            std::ptr::write_bytes(b, 0, 1);
            (*b).st_mode = if dir { S_IFDIR | 0o755 } else { S_IFREG | 0o644 };
            (*b).st_size = size as i64;
            (*b).st_ino = ino;
            (*b).st_nlink = 1;
            (*b).st_blksize = 4096;
            0
        }
        Err(e) => {
            *__errno_location() = e;
            -1
        }
    }
}
#[no_mangle]
pub unsafe extern "C" fn fstat64(fd: c_int, b: *mut stat64) -> c_int {
    if simfs::is_sim_fd(fd) {
        return fill_stat64(b, simfs::stat_fd(fd));
    }
    ret(sys6(SYS_fstat, fd as c_long, b as c_long, 0, 0, 0, 0)) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn stat64(p: *const c_char, b: *mut stat64) -> c_int {
    if let Some(s) = simpath(p) {
        return fill_stat64(b, simfs::stat_path(s));
    }
    ret(sys6(SYS_stat, p as c_long, b as c_long, 0, 0, 0, 0)) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn lstat64(p: *const c_char, b: *mut stat64) -> c_int {
    if let Some(s) = simpath(p) {
        return fill_stat64(b, simfs::stat_path(s));
    }
    ret(sys6(SYS_lstat, p as c_long, b as c_long, 0, 0, 0, 0)) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn statx(
    d: c_int,
    p: *const c_char,
    flags: c_int,
    mask: c_uint,
    b: *mut libc::statx,
) -> c_int {
    let v = if simfs::is_sim_fd(d) && (p.is_null() || *p == 0) {
        Some(simfs::stat_fd(d))
    } else {
        simpath(p).map(simfs::stat_path)
    };
    if let Some(v) = v {
        return match v {
            Ok((dir, size, ino)) => {
                std::ptr::write_bytes(b, 0, 1);
                (*b).stx_mask = STATX_BASIC_STATS;
                (*b).stx_mode = (if dir { S_IFDIR | 0o755 } else { S_IFREG | 0o644 }) as u16;
                (*b).stx_size = size;
                (*b).stx_ino = ino;
                (*b).stx_nlink = 1;
                (*b).stx_blksize = 4096;
                0
            }
            Err(e) => {
                *__errno_location() = e;
                -1
            }
        };
    }
    ret(sys6(SYS_statx, d as c_long, p as c_long, flags as c_long, mask as c_long, b as c_long, 0))
        as c_int
}
#[no_mangle]
pub unsafe extern "C" fn access(p: *const c_char, m: c_int) -> c_int {
    if let Some(s) = simpath(p) {
        return match simfs::stat_path(s) {
            Ok(_) => 0,
            Err(e) => {
                *__errno_location() = e;
                -1
            }
        };
    }
    ret(sys6(SYS_access, p as c_long, m as c_long, 0, 0, 0, 0)) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn realpath(p: *const c_char, out: *mut c_char) -> *mut c_char {
    if let Some(s) = simpath(p) {
        return match simfs::stat_path(s) {
            Ok(_) if out.is_null() => strdup(p),
            Ok(_) => strcpy(out, p),
            Err(e) => {
                *__errno_location() = e;
                std::ptr::null_mut()
            }
        };
    }
    type F = unsafe extern "C" fn(*const c_char, *mut c_char) -> *mut c_char;
    let f = dlsym(RTLD_NEXT, c"realpath".as_ptr());
    std::mem::transmute::<*mut c_void, F>(f)(p, out)
}
#[no_mangle]
pub unsafe extern "C" fn copy_file_range(
    a: c_int, ao: *mut off64_t, b: c_int, bo: *mut off64_t, n: size_t, f: c_uint,
) -> ssize_t {
    if simfs::is_sim_fd(a) || simfs::is_sim_fd(b) {
        *__errno_location() = ENOSYS;
        return -1;
    }
    ret(sys6(SYS_copy_file_range, a as c_long, ao as c_long, b as c_long, bo as c_long, n as c_long, f as c_long)) as ssize_t
}
#[no_mangle]
pub unsafe extern "C" fn sendfile64(a: c_int, b: c_int, o: *mut off64_t, n: size_t) -> ssize_t {
    if simfs::is_sim_fd(a) || simfs::is_sim_fd(b) {
        *__errno_location() = ENOSYS;
        return -1;
    }
    ret(sys6(SYS_sendfile, a as c_long, b as c_long, o as c_long, n as c_long, 0, 0)) as ssize_t
}
#[no_mangle]
pub unsafe extern "C" fn fcntl(fd: c_int, cmd: c_int, arg: c_long) -> c_int {
    if simfs::is_sim_fd(fd) {
        return match cmd {
            F_DUPFD | F_DUPFD_CLOEXEC => simret(simfs::dup(fd)) as c_int,
            _ => 0,
        };
    }
    ret(sys6(SYS_fcntl, fd as c_long, cmd as c_long, arg, 0, 0, 0)) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn flock(fd: c_int, op: c_int) -> c_int {
    if simfs::is_sim_fd(fd) {
        return 0;
    }
    ret(sys6(SYS_flock, fd as c_long, op as c_long, 0, 0, 0, 0)) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn getrandom(b: *mut c_void, n: size_t, f: c_uint) -> ssize_t {
    if sched::in_sim()
        && sched::fill_entropy(std::slice::from_raw_parts_mut(b as *mut u8, n))
    {
        return n as ssize_t;
    }
    ret(sys6(SYS_getrandom, b as c_long, n as c_long, f as c_long, 0, 0, 0)) as ssize_t
}
#[no_mangle]
pub unsafe extern "C" fn clock_gettime(c: clockid_t, t: *mut timespec) -> c_int {
    if sched::in_sim() {
        let n = sched::now_ns();
        (*t).tv_sec = (n / 1_000_000_000) as i64;
        (*t).tv_nsec = (n % 1_000_000_000) as i64;
        return 0;
    }
    ret(sys6(SYS_clock_gettime, c as c_long, t as c_long, 0, 0, 0, 0)) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn syscall(
    n: c_long, a: c_long, b: c_long, c: c_long, d: c_long, e: c_long, f: c_long,
) -> c_long {
    if n == SYS_getrandom && sched::in_sim() {
        return getrandom(a as *mut c_void, b as usize, c as c_uint) as c_long;
    }
    if n == SYS_copy_file_range && (simfs::is_sim_fd(a as i32) || simfs::is_sim_fd(c as i32)) {
        *__errno_location() = ENOSYS;
        return -1;
    }
    ret(sys6(n, a, b, c, d, e, f))
}
#[no_mangle]
pub unsafe extern "C" fn sched_getaffinity(pid: pid_t, n: size_t, m: *mut cpu_set_t) -> c_int {
    if let Some(k) = sched::cpus() {
        std::ptr::write_bytes(m as *mut u8, 0, n);
        for i in 0..k.min(n * 8) {
            *(m as *mut u8).add(i / 8) |= 1 << (i % 8);
        }
        return 0;
    }
    let r = sys6(SYS_sched_getaffinity, pid as c_long, n as c_long, m as c_long, 0, 0, 0);
    if r >= 0 {
        0
    } else {
        ret(r) as c_int
    }
}
