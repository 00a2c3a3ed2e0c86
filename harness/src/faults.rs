//! Replacements of the libc file calls. Everything passes through unless it is armed. Included by the checks that
//! need it (not part of the library, so that the other checks use the ordinary calls).
use std::ffi::{c_char, c_int, c_long, c_void, CStr};
use std::sync::atomic::{AtomicBool, AtomicI32, AtomicI64, AtomicU32, AtomicUsize, Ordering::*};

extern "C" {
    fn syscall(n: c_long, ...) -> c_long;
    fn __errno_location() -> *mut c_int;
    fn _exit(code: c_int) -> !;
}
pub static ARMED: AtomicBool = AtomicBool::new(false);
pub static AT: AtomicI64 = AtomicI64::new(-1);
/// 0 kill before, 1 fail with errno, 2 cut short, 3 cut short then kill, 4 cut short, then every later write fails
pub static KIND: AtomicU32 = AtomicU32::new(0);
pub static ARG: AtomicUsize = AtomicUsize::new(0);
pub static ERRNO: AtomicI32 = AtomicI32::new(0);
pub static CALLS: AtomicI64 = AtomicI64::new(0);
pub static MUTATIONS: AtomicI64 = AtomicI64::new(0);
pub static LOG_N: AtomicUsize = AtomicUsize::new(0);
pub static LOG: [AtomicU32; 4096] = [const { AtomicU32::new(0) }; 4096];
static FDS: [AtomicBool; 4096] = [const { AtomicBool::new(false) }; 4096];
/// Called before every file call, if set.
pub static STEP: std::sync::OnceLock<fn(u32, usize)> = std::sync::OnceLock::new();
/// Largest number of bytes of one read or write (0: no limit).
pub static PIECE: AtomicUsize = AtomicUsize::new(0);
static FULL: AtomicBool = AtomicBool::new(false);

pub const OPEN: u32 = 1;
pub const OPENW: u32 = 2;
pub const READ: u32 = 3;
pub const WRITE: u32 = 4;
pub const MUTATE: u32 = 5;
pub const SYNC: u32 = 6;
pub const CLOSE: u32 = 7;
pub const SEEK: u32 = 8;

unsafe fn fail(e: c_int) -> c_long {
    *__errno_location() = e;
    -1
}
/// What to do at this call: None = go on.
unsafe fn enter(what: u32, size: usize) -> Option<(u32, usize)> {
    if let Some(f) = STEP.get() {
        f(what, size);
    }
    let i = CALLS.fetch_add(1, SeqCst);
    let n = LOG_N.fetch_add(1, SeqCst);
    if n < 4096 {
        LOG[n].store(what | (size.min(0xff_ffff) as u32) << 8, SeqCst);
    }
    if i != AT.load(SeqCst) {
        return None;
    }
    let k = KIND.load(SeqCst);
    if k == 0 {
        _exit(137);
    }
    Some((k, ARG.load(SeqCst)))
}
unsafe fn simple(what: u32, path: bool, n: c_long, a: [c_long; 4]) -> c_long {
    if ARMED.load(SeqCst) && path {
        if what == MUTATE {
            MUTATIONS.fetch_add(1, SeqCst);
        }
        if let Some((1, _)) = enter(what, 0) {
            return fail(ERRNO.load(SeqCst));
        }
    }
    syscall(n, a[0], a[1], a[2], a[3])
}
unsafe fn ours(path: *const c_char) -> bool {
    let b = CStr::from_ptr(path).to_bytes();
    !b.starts_with(b"/")
}
unsafe fn tracked(fd: c_int) -> bool {
    ARMED.load(SeqCst) && (0..4096).contains(&fd) && FDS[fd as usize].load(SeqCst)
}

const SYS_READ: c_long = 0;
const SYS_WRITE: c_long = 1;
const SYS_CLOSE: c_long = 3;
const SYS_LSEEK: c_long = 8;
const SYS_PREAD: c_long = 17;
const SYS_PWRITE: c_long = 18;
const SYS_WRITEV: c_long = 20;
const SYS_FSYNC: c_long = 74;
const SYS_FDATASYNC: c_long = 75;
const SYS_FTRUNCATE: c_long = 77;
const SYS_RENAME: c_long = 82;
const SYS_MKDIR: c_long = 83;
const SYS_RMDIR: c_long = 84;
const SYS_LINK: c_long = 86;
const SYS_UNLINK: c_long = 87;
const SYS_FALLOCATE: c_long = 285;
const SYS_OPENAT: c_long = 257;
const SYS_COPY_FILE_RANGE: c_long = 326;
const AT_FDCWD: c_long = -100;

unsafe fn do_open(dir: c_long, path: *const c_char, flags: c_int, mode: u32) -> c_int {
    let watch = ARMED.load(SeqCst) && ours(path);
    if watch {
        let w = flags & 3 != 0 || flags & 0o100 != 0 || flags & 0o1000 != 0;
        if w {
            MUTATIONS.fetch_add(1, SeqCst);
        }
        if let Some((1, _)) = enter(if w { OPENW } else { OPEN }, 0) {
            return fail(ERRNO.load(SeqCst)) as c_int;
        }
    }
    let fd = syscall(SYS_OPENAT, dir, path, flags as c_long, mode as c_long) as c_int;
    if (0..4096).contains(&fd) {
        FDS[fd as usize].store(watch, SeqCst);
    }
    fd
}
#[no_mangle]
pub unsafe extern "C" fn open(path: *const c_char, flags: c_int, mode: u32) -> c_int {
    do_open(AT_FDCWD, path, flags, mode)
}
#[no_mangle]
pub unsafe extern "C" fn open64(path: *const c_char, flags: c_int, mode: u32) -> c_int {
    do_open(AT_FDCWD, path, flags, mode)
}
#[no_mangle]
pub unsafe extern "C" fn openat(dir: c_int, path: *const c_char, flags: c_int, mode: u32) -> c_int {
    do_open(dir as c_long, path, flags, mode)
}
#[no_mangle]
pub unsafe extern "C" fn openat64(dir: c_int, path: *const c_char, flags: c_int, mode: u32) -> c_int {
    do_open(dir as c_long, path, flags, mode)
}
#[no_mangle]
pub unsafe extern "C" fn close(fd: c_int) -> c_int {
    if tracked(fd) {
        FDS[fd as usize].store(false, SeqCst);
        let _ = enter(CLOSE, 0);
    }
    syscall(SYS_CLOSE, fd as c_long) as c_int
}
unsafe fn transfer(what: u32, fd: c_int, n: usize, go: impl Fn(usize) -> c_long) -> isize {
    if tracked(fd) {
        if what == WRITE {
            MUTATIONS.fetch_add(1, SeqCst);
            if FULL.load(SeqCst) {
                return fail(28) as isize;
            }
        }
        match enter(what, n) {
            Some((1, _)) => return fail(ERRNO.load(SeqCst)) as isize,
            Some((k @ 2..=4, j)) => {
                let r = if j == 0 { 0 } else { go(j.min(n)) };
                match k {
                    2 => return r as isize,
                    3 => _exit(137),
                    _ => {
                        FULL.store(true, SeqCst);
                        return if j == 0 { fail(28) as isize } else { r as isize };
                    }
                }
            }
            _ => (),
        }
        let most = PIECE.load(SeqCst);
        if most > 0 && n > most {
            return go(most) as isize;
        }
    }
    go(n) as isize
}
#[no_mangle]
pub unsafe extern "C" fn write(fd: c_int, buf: *const c_void, n: usize) -> isize {
    transfer(WRITE, fd, n, |m| syscall(SYS_WRITE, fd as c_long, buf, m))
}
#[no_mangle]
pub unsafe extern "C" fn pwrite64(fd: c_int, buf: *const c_void, n: usize, off: i64) -> isize {
    transfer(WRITE, fd, n, |m| syscall(SYS_PWRITE, fd as c_long, buf, m, off))
}
#[repr(C)]
pub struct IoVec {
    base: *const c_void,
    len: usize,
}
#[no_mangle]
pub unsafe extern "C" fn writev(fd: c_int, v: *const IoVec, n: c_int) -> isize {
    if tracked(fd) && n > 0 {
        let first = &*v;
        return transfer(WRITE, fd, first.len, |m| syscall(SYS_WRITE, fd as c_long, first.base, m));
    }
    syscall(SYS_WRITEV, fd as c_long, v, n as c_long) as isize
}
#[no_mangle]
pub unsafe extern "C" fn read(fd: c_int, buf: *mut c_void, n: usize) -> isize {
    transfer(READ, fd, n, |m| syscall(SYS_READ, fd as c_long, buf, m))
}
#[no_mangle]
pub unsafe extern "C" fn pread64(fd: c_int, buf: *mut c_void, n: usize, off: i64) -> isize {
    transfer(READ, fd, n, |m| syscall(SYS_PREAD, fd as c_long, buf, m, off))
}
#[no_mangle]
pub unsafe extern "C" fn copy_file_range(a: c_int, ao: *mut i64, b: c_int, bo: *mut i64, n: usize, f: u32) -> isize {
    transfer(WRITE, b, n, |m| syscall(SYS_COPY_FILE_RANGE, a as c_long, ao, b as c_long, bo, m, f as c_long))
}
#[no_mangle]
pub unsafe extern "C" fn lseek64(fd: c_int, off: i64, w: c_int) -> i64 {
    simple(SEEK, tracked(fd), SYS_LSEEK, [fd as c_long, off, w as c_long, 0])
}
#[no_mangle]
pub unsafe extern "C" fn fsync(fd: c_int) -> c_int {
    simple(SYNC, tracked(fd), SYS_FSYNC, [fd as c_long, 0, 0, 0]) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn fdatasync(fd: c_int) -> c_int {
    simple(SYNC, tracked(fd), SYS_FDATASYNC, [fd as c_long, 0, 0, 0]) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn ftruncate64(fd: c_int, n: i64) -> c_int {
    simple(MUTATE, tracked(fd), SYS_FTRUNCATE, [fd as c_long, n, 0, 0]) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn ftruncate(fd: c_int, n: i64) -> c_int {
    simple(MUTATE, tracked(fd), SYS_FTRUNCATE, [fd as c_long, n, 0, 0]) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn fallocate64(fd: c_int, m: c_int, o: i64, n: i64) -> c_int {
    simple(MUTATE, tracked(fd), SYS_FALLOCATE, [fd as c_long, m as c_long, o, n]) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn rename(a: *const c_char, b: *const c_char) -> c_int {
    simple(MUTATE, ours(a), SYS_RENAME, [a as c_long, b as c_long, 0, 0]) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn link(a: *const c_char, b: *const c_char) -> c_int {
    simple(MUTATE, ours(a), SYS_LINK, [a as c_long, b as c_long, 0, 0]) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn unlink(a: *const c_char) -> c_int {
    simple(MUTATE, ours(a), SYS_UNLINK, [a as c_long, 0, 0, 0]) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn mkdir(a: *const c_char, mode: u32) -> c_int {
    simple(MUTATE, ours(a), SYS_MKDIR, [a as c_long, mode as c_long, 0, 0]) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn rmdir(a: *const c_char) -> c_int {
    simple(MUTATE, ours(a), SYS_RMDIR, [a as c_long, 0, 0, 0]) as c_int
}
