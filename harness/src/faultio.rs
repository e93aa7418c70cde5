//! Stand-ins for the C library's `read`, `write`, `writev` and `open64` which pass every call on to the
//! kernel unless the calling thread has asked for faults. A binary that includes this file gets its
//! standard library's file operations through them.
#![allow(dead_code)]
use std::cell::Cell;

#[derive(Clone, Copy)]
pub struct Plan {
    /// the calls to disturb
    pub reads: bool,
    pub writes: bool,
    pub opens: bool,
    /// at most so many bytes per call
    pub short: usize,
    /// every so manieth call is interrupted (0: none)
    pub interrupt: u64,
    /// the first call that fails
    pub fail: u64,
    /// whether it is the only one
    pub once: bool,
    pub errno: i32,
}

pub const NONE: Plan = Plan { reads: false, writes: false, opens: false, short: usize::MAX, interrupt: 0, fail: u64::MAX, once: false, errno: libc::EIO };

thread_local! {
    static PLAN: Cell<Option<Plan>> = const { Cell::new(None) };
    static CALLS: Cell<u64> = const { Cell::new(0) };
    static FAILED: Cell<u64> = const { Cell::new(0) };
}

struct Off;
impl Drop for Off {
    fn drop(&mut self) {
        PLAN.with(|p| p.set(None));
    }
}

/// Runs `f` under the plan; how many calls it made of the disturbed kinds, and how many of them failed.
pub fn with<T>(plan: Plan, f: impl FnOnce() -> T) -> (T, u64, u64) {
    CALLS.with(|c| c.set(0));
    FAILED.with(|c| c.set(0));
    let off = Off;
    PLAN.with(|p| p.set(Some(plan)));
    let r = f();
    drop(off);
    (r, CALLS.with(|c| c.get()), FAILED.with(|c| c.get()))
}

unsafe fn errno(e: i32) -> isize {
    *libc::__errno_location() = e;
    -1
}

/// What is to become of a call: an error, or how many bytes it may move.
fn decide(on: impl Fn(&Plan) -> bool) -> Result<usize, i32> {
    let p = match PLAN.try_with(|p| p.get()) {
        Ok(Some(p)) if on(&p) => p,
        _ => return Ok(usize::MAX),
    };
    let k = CALLS.with(|c| {
        let k = c.get();
        c.set(k + 1);
        k
    });
    if k == p.fail || (k > p.fail && !p.once) {
        FAILED.with(|c| c.set(c.get() + 1));
        return Err(p.errno);
    }
    if p.interrupt > 0 && k % (p.interrupt + 1) == p.interrupt {
        return Err(libc::EINTR);
    }
    Ok(p.short)
}

#[no_mangle]
pub unsafe extern "C" fn read(fd: libc::c_int, buf: *mut libc::c_void, n: usize) -> isize {
    let n = if fd > 2 {
        match decide(|p| p.reads) {
            Ok(m) => n.min(m),
            Err(e) => return errno(e),
        }
    } else {
        n
    };
    libc::syscall(libc::SYS_read, fd, buf, n) as isize
}

#[no_mangle]
pub unsafe extern "C" fn write(fd: libc::c_int, buf: *const libc::c_void, n: usize) -> isize {
    let n = if fd > 2 {
        match decide(|p| p.writes) {
            Ok(m) => n.min(m),
            Err(e) => return errno(e),
        }
    } else {
        n
    };
    libc::syscall(libc::SYS_write, fd, buf, n) as isize
}

#[no_mangle]
pub unsafe extern "C" fn writev(fd: libc::c_int, iov: *const libc::iovec, n: libc::c_int) -> isize {
    if fd > 2 && PLAN.try_with(|p| p.get().is_some()).unwrap_or(false) {
        for i in 0..n as usize {
            let v = &*iov.add(i);
            if v.iov_len > 0 {
                return write(fd, v.iov_base, v.iov_len);
            }
        }
    }
    libc::syscall(libc::SYS_writev, fd, iov, n) as isize
}

#[no_mangle]
pub unsafe extern "C" fn open64(path: *const libc::c_char, flags: libc::c_int, mode: libc::mode_t) -> libc::c_int {
    if let Err(e) = decide(|p| p.opens) {
        return errno(e) as libc::c_int;
    }
    libc::syscall(libc::SYS_openat, libc::AT_FDCWD, path, flags, mode) as libc::c_int
}
