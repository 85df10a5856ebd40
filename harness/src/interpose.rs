//! Interposed C library calls: shadow images of what was synchronized, and fault injection.
//! (Single-threaded use: each case runs in its own forked process.)
use crate::util::Image;
use std::collections::BTreeMap;

#[derive(Default)]
pub struct State {
    /// record an image of each file at every successful fsync/fdatasync
    pub track: bool,
    pub images: BTreeMap<String, Image>,
    pub harness_error: Option<String>,
    /// fault: bits 1 write, 2 truncate, 4 fsync, 8 read, 16 open, 32 mkdir
    pub fault_class: u32,
    /// only for these files (0: all): bits 1 key, 2 val, 4 idx, 8 htx
    pub fault_files: u32,
    pub fault_skip: u32,
    pub fault_times: u32,
    pub fault_errno: i32,
    /// the write is done in part and reported so, no error
    pub fault_short: bool,
    pub fired: u32,
    pub writes: u64,
    pub truncs: u64,
    pub syncs: u64,
}

static mut STATE: Option<State> = None;

#[allow(static_mut_refs)]
pub fn state() -> &'static mut State {
    unsafe {
        if STATE.is_none() {
            STATE = Some(State::default());
        }
        STATE.as_mut().unwrap()
    }
}

pub fn disarm() {
    let s = state();
    s.fault_class = 0;
    s.fault_files = 0;
    s.fault_times = 0;
}

#[cfg(not(feature = "asan"))]
mod hooks {
    use super::{state, State};
    use crate::util::Image;
    use libc::{c_int, c_void, off64_t, size_t, ssize_t};

    fn set_errno(e: i32) {
        unsafe { *libc::__errno_location() = e }
    }
    /// is the file one of those that are meant
    fn file_meant(fd: c_int, files: u32) -> bool {
        let mut b = [0u8; 512];
        let link = format!("/proc/self/fd/{}\0", fd);
        let n = unsafe { libc::readlink(link.as_ptr() as *const libc::c_char, b.as_mut_ptr() as *mut libc::c_char, b.len()) };
        if n < 4 {
            return false;
        }
        let bit = match &b[n as usize - 4..n as usize] {
            b".key" => 1,
            b".val" => 2,
            b".idx" => 4,
            b".htx" => 8,
            _ => 0,
        };
        files & bit != 0
    }
    fn fires(s: &mut State, class: u32, fd: c_int) -> bool {
        if s.fault_class & class == 0 || s.fault_times == 0 {
            return false;
        }
        if s.fault_files != 0 && !file_meant(fd, s.fault_files) {
            return false;
        }
        if s.fault_skip > 0 {
            s.fault_skip -= 1;
            return false;
        }
        s.fault_times -= 1;
        s.fired += 1;
        true
    }

    unsafe fn do_write(fd: c_int, buf: *const c_void, n: size_t, off: Option<off64_t>) -> ssize_t {
        let mut n = n;
        if fd > 2 {
            let s = state();
            s.writes += 1;
            if fires(s, 1, fd) {
                if s.fault_short {
                    n = (n / 2).max(1).min(n);
                } else {
                    set_errno(s.fault_errno);
                    return -1;
                }
            }
        }
        match off {
            None => libc::syscall(libc::SYS_write, fd, buf, n) as ssize_t,
            Some(o) => libc::syscall(libc::SYS_pwrite64, fd, buf, n, o) as ssize_t,
        }
    }

    #[no_mangle]
    pub unsafe extern "C" fn write(fd: c_int, buf: *const c_void, n: size_t) -> ssize_t {
        do_write(fd, buf, n, None)
    }
    #[no_mangle]
    pub unsafe extern "C" fn pwrite64(fd: c_int, buf: *const c_void, n: size_t, off: off64_t) -> ssize_t {
        do_write(fd, buf, n, Some(off))
    }
    #[no_mangle]
    pub unsafe extern "C" fn pwrite(fd: c_int, buf: *const c_void, n: size_t, off: off64_t) -> ssize_t {
        do_write(fd, buf, n, Some(off))
    }
    #[no_mangle]
    pub unsafe extern "C" fn writev(fd: c_int, iov: *const libc::iovec, cnt: c_int) -> ssize_t {
        if fd > 2 {
            let s = state();
            s.writes += 1;
            if fires(s, 1, fd) && !s.fault_short {
                set_errno(s.fault_errno);
                return -1;
            }
        }
        libc::syscall(libc::SYS_writev, fd, iov, cnt) as ssize_t
    }
    #[no_mangle]
    pub unsafe extern "C" fn read(fd: c_int, buf: *mut c_void, n: size_t) -> ssize_t {
        if fd > 2 {
            let s = state();
            if !s.fault_short && fires(s, 8, fd) {
                set_errno(s.fault_errno);
                return -1;
            }
        }
        libc::syscall(libc::SYS_read, fd, buf, n) as ssize_t
    }
    #[no_mangle]
    pub unsafe extern "C" fn open64(path: *const libc::c_char, flags: c_int, mode: libc::mode_t) -> c_int {
        let s = state();
        if !s.fault_short && fires(s, 16, -1) {
            set_errno(s.fault_errno);
            return -1;
        }
        libc::syscall(libc::SYS_openat, libc::AT_FDCWD, path, flags, mode) as c_int
    }
    #[no_mangle]
    pub unsafe extern "C" fn mkdir(path: *const libc::c_char, mode: libc::mode_t) -> c_int {
        let s = state();
        if !s.fault_short && fires(s, 32, -1) {
            set_errno(s.fault_errno);
            return -1;
        }
        libc::syscall(libc::SYS_mkdirat, libc::AT_FDCWD, path, mode) as c_int
    }
    unsafe fn do_trunc(fd: c_int, len: off64_t) -> c_int {
        let s = state();
        s.truncs += 1;
        if !s.fault_short && fires(s, 2, fd) {
            set_errno(s.fault_errno);
            return -1;
        }
        libc::syscall(libc::SYS_ftruncate, fd, len) as c_int
    }
    #[no_mangle]
    pub unsafe extern "C" fn ftruncate64(fd: c_int, len: off64_t) -> c_int {
        do_trunc(fd, len)
    }
    #[no_mangle]
    pub unsafe extern "C" fn ftruncate(fd: c_int, len: off64_t) -> c_int {
        do_trunc(fd, len)
    }
    unsafe fn do_sync(fd: c_int, nr: libc::c_long) -> c_int {
        let s = state();
        s.syncs += 1;
        if !s.fault_short && fires(s, 4, fd) {
            set_errno(s.fault_errno);
            return -1;
        }
        let r = libc::syscall(nr, fd) as c_int;
        if r == 0 && s.track {
            let link = format!("/proc/self/fd/{}", fd);
            let res = std::fs::read_link(&link)
                .map_err(|e| format!("HARNESS: {}", e))
                .and_then(|p| Image::of(&p).map(|i| (p, i)));
            match res {
                Ok((p, i)) => {
                    s.images.insert(p.to_string_lossy().to_string(), i);
                }
                Err(e) => s.harness_error = Some(e),
            }
        }
        r
    }
    #[no_mangle]
    pub unsafe extern "C" fn fsync(fd: c_int) -> c_int {
        do_sync(fd, libc::SYS_fsync)
    }
    #[no_mangle]
    pub unsafe extern "C" fn fdatasync(fd: c_int) -> c_int {
        do_sync(fd, libc::SYS_fdatasync)
    }
}
