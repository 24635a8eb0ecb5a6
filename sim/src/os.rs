//! Interposed libc symbols: on simulated threads they are served by the
//! simulator, everywhere else they go to the real function.
#![allow(invalid_runtime_symbol_definitions)]
#![allow(clippy::missing_safety_doc)]

use std::cell::Cell;
use std::ffi::CStr;
use std::sync::atomic::{AtomicUsize, Ordering};

use libc::{c_char, c_int, c_long, c_uint, c_void, mode_t, off_t, size_t, ssize_t};

use crate::sim::Sim;

thread_local! {
    static SIM: Cell<*const Sim> = const { Cell::new(std::ptr::null()) };
}

pub fn enter(s: *const Sim) {
    SIM.with(|c| c.set(s));
}

#[inline]
pub fn current() -> Option<&'static Sim> {
    let p = SIM.try_with(|c| c.get()).unwrap_or(std::ptr::null());
    if p.is_null() {
        None
    } else {
        Some(unsafe { &*p })
    }
}

macro_rules! real {
    ($name:literal, $ty:ty) => {{
        static P: AtomicUsize = AtomicUsize::new(0);
        let mut p = P.load(Ordering::Relaxed);
        if p == 0 {
            p = libc::dlsym(libc::RTLD_NEXT, concat!($name, "\0").as_ptr() as *const c_char)
                as usize;
            P.store(p, Ordering::Relaxed);
        }
        std::mem::transmute::<usize, $ty>(p)
    }};
}

fn set_errno(e: c_int) {
    unsafe { *libc::__errno_location() = e }
}

pub fn real_clock(clk: libc::clockid_t) -> u64 {
    let mut ts = libc::timespec { tv_sec: 0, tv_nsec: 0 };
    unsafe {
        real!("clock_gettime", unsafe extern "C" fn(libc::clockid_t, *mut libc::timespec) -> c_int)(
            clk, &mut ts,
        );
    }
    ts.tv_sec as u64 * 1_000_000_000 + ts.tv_nsec as u64
}

#[no_mangle]
pub unsafe extern "C" fn clock_gettime(clk: libc::clockid_t, ts: *mut libc::timespec) -> c_int {
    if let Some(s) = current() {
        let ns = match clk {
            libc::CLOCK_REALTIME | libc::CLOCK_REALTIME_COARSE | libc::CLOCK_TAI => s.wall_ns(),
            _ => s.mono_ns(),
        };
        (*ts).tv_sec = (ns / 1_000_000_000) as libc::time_t;
        (*ts).tv_nsec = (ns % 1_000_000_000) as c_long;
        return 0;
    }
    real!("clock_gettime", unsafe extern "C" fn(libc::clockid_t, *mut libc::timespec) -> c_int)(
        clk, ts,
    )
}

#[no_mangle]
pub unsafe extern "C" fn gettimeofday(tv: *mut libc::timeval, tz: *mut c_void) -> c_int {
    if let Some(s) = current() {
        let ns = s.wall_ns();
        (*tv).tv_sec = (ns / 1_000_000_000) as libc::time_t;
        (*tv).tv_usec = ((ns % 1_000_000_000) / 1000) as libc::suseconds_t;
        return 0;
    }
    real!("gettimeofday", unsafe extern "C" fn(*mut libc::timeval, *mut c_void) -> c_int)(tv, tz)
}

#[no_mangle]
pub unsafe extern "C" fn nanosleep(a: *const libc::timespec, b: *mut libc::timespec) -> c_int {
    if let Some(s) = current() {
        s.advance((*a).tv_sec as u64 * 1_000_000_000 + (*a).tv_nsec as u64);
        return 0;
    }
    real!(
        "nanosleep",
        unsafe extern "C" fn(*const libc::timespec, *mut libc::timespec) -> c_int
    )(a, b)
}

#[no_mangle]
pub unsafe extern "C" fn clock_nanosleep(
    clk: libc::clockid_t,
    flags: c_int,
    a: *const libc::timespec,
    b: *mut libc::timespec,
) -> c_int {
    if let Some(s) = current() {
        let t = (*a).tv_sec as u64 * 1_000_000_000 + (*a).tv_nsec as u64;
        if flags & libc::TIMER_ABSTIME != 0 {
            let now = s.mono_ns();
            s.advance(t.saturating_sub(now));
        } else {
            s.advance(t);
        }
        return 0;
    }
    real!(
        "clock_nanosleep",
        unsafe extern "C" fn(
            libc::clockid_t,
            c_int,
            *const libc::timespec,
            *mut libc::timespec,
        ) -> c_int
    )(clk, flags, a, b)
}

#[no_mangle]
pub unsafe extern "C" fn epoll_wait(
    fd: c_int,
    ev: *mut libc::epoll_event,
    max: c_int,
    timeout: c_int,
) -> c_int {
    let epoll_wait = real!(
        "epoll_wait",
        unsafe extern "C" fn(c_int, *mut libc::epoll_event, c_int, c_int) -> c_int
    );
    if let Some(s) = current() {
        // Only the main future of the run can have been woken here.
        let woken = epoll_wait(fd, ev, max, 0);
        if woken <= 0 {
            s.idle(timeout);
            return 0;
        }
        return woken;
    }
    epoll_wait(fd, ev, max, timeout)
}

#[no_mangle]
pub unsafe extern "C" fn getrandom(buf: *mut c_void, len: size_t, flags: c_uint) -> ssize_t {
    if let Some(s) = current() {
        s.os_random(std::slice::from_raw_parts_mut(buf as *mut u8, len));
        return len as ssize_t;
    }
    real!("getrandom", unsafe extern "C" fn(*mut c_void, size_t, c_uint) -> ssize_t)(
        buf, len, flags,
    )
}

#[no_mangle]
pub unsafe extern "C" fn getentropy(buf: *mut c_void, len: size_t) -> c_int {
    if let Some(s) = current() {
        s.os_random(std::slice::from_raw_parts_mut(buf as *mut u8, len));
        return 0;
    }
    real!("getentropy", unsafe extern "C" fn(*mut c_void, size_t) -> c_int)(buf, len)
}

// Six register arguments are what every Linux system call uses.
#[no_mangle]
pub unsafe extern "C" fn syscall(
    n: c_long,
    a: c_long,
    b: c_long,
    c: c_long,
    d: c_long,
    e: c_long,
    f: c_long,
) -> c_long {
    if n == libc::SYS_getrandom {
        if let Some(s) = current() {
            s.os_random(std::slice::from_raw_parts_mut(a as *mut u8, b as usize));
            return b;
        }
    }
    let ret: c_long;
    std::arch::asm!("syscall", inlateout("rax") n => ret, in("rdi") a, in("rsi") b, in("rdx") c,
        in("r10") d, in("r8") e, in("r9") f, lateout("rcx") _, lateout("r11") _);
    if ret < 0 && ret > -4096 {
        set_errno(-ret as c_int);
        return -1;
    }
    ret
}

// ---------------------------------------------------------------- files

/// What the simulator wants to happen with a file operation.
pub enum FileFault {
    None,
    Errno(c_int),
    /// Only that many bytes are read or written
    Short(usize),
}

unsafe fn open_impl(
    s: &Sim,
    path: *const c_char,
    flags: c_int,
    call: impl FnOnce() -> c_int,
) -> c_int {
    let p = CStr::from_ptr(path).to_bytes();
    let writes = flags & (libc::O_WRONLY | libc::O_RDWR | libc::O_CREAT | libc::O_TRUNC) != 0;
    if !s.disk.inside(p) {
        if writes {
            set_errno(libc::EACCES);
            return -1;
        }
        return call();
    }
    if let FileFault::Errno(e) = s.file_op(if writes { "open-write" } else { "open-read" }, p, 0) {
        set_errno(e);
        return -1;
    }
    let fd = call();
    if fd >= 0 {
        s.disk.track(fd);
    }
    fd
}

#[no_mangle]
pub unsafe extern "C" fn open64(path: *const c_char, flags: c_int, mode: mode_t) -> c_int {
    let f = real!("open64", unsafe extern "C" fn(*const c_char, c_int, mode_t) -> c_int);
    match current() {
        Some(s) => open_impl(s, path, flags, || f(path, flags, mode)),
        None => f(path, flags, mode),
    }
}

#[no_mangle]
pub unsafe extern "C" fn open(path: *const c_char, flags: c_int, mode: mode_t) -> c_int {
    let f = real!("open", unsafe extern "C" fn(*const c_char, c_int, mode_t) -> c_int);
    match current() {
        Some(s) => open_impl(s, path, flags, || f(path, flags, mode)),
        None => f(path, flags, mode),
    }
}

#[no_mangle]
pub unsafe extern "C" fn close(fd: c_int) -> c_int {
    if let Some(s) = current() {
        s.disk.untrack(fd);
    }
    real!("close", unsafe extern "C" fn(c_int) -> c_int)(fd)
}

fn fd_fault(fd: c_int, op: &'static str, len: usize) -> FileFault {
    match current() {
        Some(s) if s.disk.tracked(fd) => s.file_op(op, b"", len),
        _ => FileFault::None,
    }
}

#[no_mangle]
pub unsafe extern "C" fn write(fd: c_int, buf: *const c_void, len: size_t) -> ssize_t {
    let f = real!("write", unsafe extern "C" fn(c_int, *const c_void, size_t) -> ssize_t);
    match fd_fault(fd, "write", len) {
        FileFault::None => f(fd, buf, len),
        FileFault::Short(n) => f(fd, buf, n.min(len)),
        FileFault::Errno(e) => {
            set_errno(e);
            -1
        }
    }
}

#[no_mangle]
pub unsafe extern "C" fn pwrite64(
    fd: c_int,
    buf: *const c_void,
    len: size_t,
    off: off_t,
) -> ssize_t {
    let f = real!("pwrite64", unsafe extern "C" fn(c_int, *const c_void, size_t, off_t) -> ssize_t);
    match fd_fault(fd, "write", len) {
        FileFault::None => f(fd, buf, len, off),
        FileFault::Short(n) => f(fd, buf, n.min(len), off),
        FileFault::Errno(e) => {
            set_errno(e);
            -1
        }
    }
}

#[no_mangle]
pub unsafe extern "C" fn read(fd: c_int, buf: *mut c_void, len: size_t) -> ssize_t {
    let f = real!("read", unsafe extern "C" fn(c_int, *mut c_void, size_t) -> ssize_t);
    match fd_fault(fd, "read", len) {
        FileFault::None => f(fd, buf, len),
        FileFault::Short(n) => f(fd, buf, n.min(len)),
        FileFault::Errno(e) => {
            set_errno(e);
            -1
        }
    }
}

macro_rules! fd_call {
    ($name:ident, $lit:literal, $op:literal $(, $arg:ident : $ty:ty)*) => {
        #[no_mangle]
        pub unsafe extern "C" fn $name(fd: c_int $(, $arg: $ty)*) -> c_int {
            let f = real!($lit, unsafe extern "C" fn(c_int $(, $ty)*) -> c_int);
            match fd_fault(fd, $op, 0) {
                FileFault::Errno(e) => {
                    set_errno(e);
                    -1
                }
                _ => f(fd $(, $arg)*),
            }
        }
    };
}
fd_call!(fsync, "fsync", "fsync");
fd_call!(fdatasync, "fdatasync", "fsync");
fd_call!(ftruncate, "ftruncate", "truncate", len: off_t);
fd_call!(ftruncate64, "ftruncate64", "truncate", len: off_t);

/// None: call the real function. Some: errno.
unsafe fn path_fault(op: &'static str, paths: &[*const c_char]) -> Option<c_int> {
    let s = current()?;
    for p in paths {
        if !s.disk.inside(CStr::from_ptr(*p).to_bytes()) {
            return Some(libc::EACCES);
        }
    }
    match s.file_op(op, CStr::from_ptr(paths[0]).to_bytes(), 0) {
        FileFault::Errno(e) => Some(e),
        _ => None,
    }
}

macro_rules! path_call {
    ($name:ident, $lit:literal, $op:literal, [$($p:ident),*] $(, $arg:ident : $ty:ty)*) => {
        #[no_mangle]
        pub unsafe extern "C" fn $name($($p: *const c_char),* $(, $arg: $ty)*) -> c_int {
            let f = real!($lit, unsafe extern "C" fn($(path_call!(@t $p)),* $(, $ty)*) -> c_int);
            match path_fault($op, &[$($p),*]) {
                Some(e) => {
                    set_errno(e);
                    -1
                }
                None => f($($p),* $(, $arg)*),
            }
        }
    };
    (@t $p:ident) => { *const c_char };
}
path_call!(rename, "rename", "rename", [a, b]);
path_call!(link, "link", "link", [a, b]);
path_call!(unlink, "unlink", "unlink", [a]);
path_call!(rmdir, "rmdir", "rmdir", [a]);
path_call!(mkdir, "mkdir", "mkdir", [a], mode: mode_t);
path_call!(chmod, "chmod", "chmod", [a], mode: mode_t);
path_call!(truncate, "truncate", "truncate", [a], len: off_t);
path_call!(truncate64, "truncate64", "truncate", [a], len: off_t);

#[no_mangle]
pub unsafe extern "C" fn unlinkat(dir: c_int, path: *const c_char, flags: c_int) -> c_int {
    if let Some(s) = current() {
        // Used by remove_dir_all only, which the code under test has no reason to call.
        let _ = s;
        set_errno(libc::EACCES);
        return -1;
    }
    real!("unlinkat", unsafe extern "C" fn(c_int, *const c_char, c_int) -> c_int)(dir, path, flags)
}

#[no_mangle]
pub unsafe extern "C" fn copy_file_range(
    a: c_int,
    ao: *mut off_t,
    b: c_int,
    bo: *mut off_t,
    len: size_t,
    flags: c_uint,
) -> ssize_t {
    let f = real!(
        "copy_file_range",
        unsafe extern "C" fn(c_int, *mut off_t, c_int, *mut off_t, size_t, c_uint) -> ssize_t
    );
    match fd_fault(b, "write", len) {
        FileFault::None => f(a, ao, b, bo, len, flags),
        FileFault::Short(n) => f(a, ao, b, bo, n.min(len), flags),
        FileFault::Errno(e) => {
            set_errno(e);
            -1
        }
    }
}

#[no_mangle]
pub unsafe extern "C" fn statx(
    dir: c_int,
    path: *const c_char,
    flags: c_int,
    mask: c_uint,
    buf: *mut libc::statx,
) -> c_int {
    if let Some(s) = current() {
        let p = if path.is_null() { &[][..] } else { CStr::from_ptr(path).to_bytes() };
        let inside = if p.is_empty() { s.disk.tracked(dir) } else { s.disk.inside(p) };
        if inside {
            if let FileFault::Errno(e) = s.file_op("stat", p, 0) {
                set_errno(e);
                return -1;
            }
        }
    }
    real!(
        "statx",
        unsafe extern "C" fn(c_int, *const c_char, c_int, c_uint, *mut libc::statx) -> c_int
    )(dir, path, flags, mask, buf)
}

/// Runs something of the harness outside of the simulation.
pub fn outside<T>(f: impl FnOnce() -> T) -> T {
    let old = SIM.with(|c| c.replace(std::ptr::null()));
    let r = f();
    SIM.with(|c| c.set(old));
    r
}

/// CPU time of another thread, in nanoseconds.
pub fn process_cpu(pid: libc::pid_t) -> u64 {
    unsafe {
        let mut clk: libc::clockid_t = 0;
        if libc::clock_getcpuclockid(pid, &mut clk) != 0 {
            return 0;
        }
        real_clock(clk)
    }
}

/// A run that asks for far too much memory ends, and nothing else does.
pub fn limit_memory() {
    let pages: u64 = std::fs::read_to_string("/proc/self/statm")
        .ok()
        .and_then(|s| s.split(' ').next().and_then(|p| p.parse().ok()))
        .unwrap_or(0);
    let max = pages * 4096 + (3 << 30);
    let l = libc::rlimit {
        rlim_cur: max,
        rlim_max: max,
    };
    unsafe { libc::setrlimit(libc::RLIMIT_AS, &l) };
}
