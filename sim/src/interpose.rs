//! libc entry points as the linked program sees them.  Outside a simulation they fall through
//! to the kernel or to libc proper; inside one, paths under /sim go to the in-memory file
//! system, and nothing outside it can be changed.
use crate::{fs, rt};
use libc::*;
use std::ffi::CStr;

macro_rules! real {
    ($name:ident : fn($($t:ty),*) -> $r:ty) => {{
        static mut P: usize = 0;
        unsafe {
            if P == 0 {
                P = dlsym(RTLD_NEXT, concat!(stringify!($name), "\0").as_ptr() as *const c_char) as usize;
            }
            std::mem::transmute::<usize, unsafe extern "C" fn($($t),*) -> $r>(P)
        }
    }};
}

fn err(e: i32) -> c_int {
    unsafe { *__errno_location() = e };
    -1
}
fn ret(r: i64) -> i64 {
    if r < 0 && r > -4096 {
        err(-r as i32);
        -1
    } else {
        r
    }
}
unsafe fn pstr<'a>(p: *const c_char) -> &'a str {
    CStr::from_ptr(p).to_str().unwrap_or("?")
}
unsafe fn simpath<'a>(p: *const c_char) -> Option<&'a str> {
    if !rt::active() || p.is_null() {
        return None;
    }
    let s = pstr(p);
    if fs::is_sim(s) { Some(s) } else { None }
}
fn res<T>(r: Result<T, i32>, f: impl FnOnce(T) -> i64) -> i64 {
    match r {
        Ok(v) => f(v),
        Err(e) => err(e) as i64,
    }
}

#[no_mangle]
pub unsafe extern "C" fn sim_syscall(n: i64, a: i64, b: i64, c: i64, d: i64, e: i64, f: i64) -> i64 {
    if rt::active() {
        match n {
            SYS_futex => return rt::futex(a as usize, b, c as u32, d as *const timespec),
            SYS_gettid => return 10_000 + rt::my_tid() as i64,
            SYS_getrandom => {
                rt::fill_random(std::slice::from_raw_parts_mut(a as *mut u8, b as usize));
                return b;
            }
            SYS_copy_file_range | SYS_sendfile | SYS_splice => return err(EINVAL) as i64,
            SYS_utimensat if b == 0 && fs::is_fd(a as i32) => return 0,
            SYS_statx => {
                return statx(a as i32, b as *const c_char, c as i32, d as u32, e as *mut libc::statx) as i64
            }
            _ => {}
        }
    }
    ret(rt::raw_syscall(n, a, b, c, d, e, f))
}

#[no_mangle]
pub unsafe extern "C" fn sim_open(p: *const c_char, flags: i32, mode: u32) -> i32 {
    sim_openat(AT_FDCWD, p, flags, mode)
}
unsafe fn at_path(dfd: i32, p: *const c_char) -> Option<Result<String, i32>> {
    if !rt::active() {
        return None;
    }
    if p.is_null() {
        return Some(Err(EFAULT));
    }
    let s = pstr(p);
    if s.starts_with('/') {
        return if fs::is_sim(s) { Some(Ok(s.to_string())) } else { None };
    }
    if fs::is_fd(dfd) {
        return Some(match fs::fd_path(dfd) {
            Some(d) => Ok(format!("{d}/{s}")),
            None => Err(ENOENT),
        });
    }
    None
}
#[no_mangle]
pub unsafe extern "C" fn sim_openat(dfd: i32, p: *const c_char, flags: i32, mode: u32) -> i32 {
    match at_path(dfd, p) {
        Some(Ok(s)) => return res(fs::open(&s, flags), |fd| fd as i64) as i32,
        Some(Err(e)) => return err(e),
        None => {}
    }
    if rt::active() {
        let s = pstr(p);
        if flags & (O_WRONLY | O_RDWR | O_CREAT | O_TRUNC) != 0 && s != "/dev/null" {
            return err(EROFS);
        }
        if s.starts_with("/proc/self/cgroup") || s.starts_with("/sys/fs/cgroup") {
            return err(ENOENT);
        }
    }
    ret(rt::raw_syscall(SYS_openat, dfd as i64, p as i64, flags as i64, mode as i64, 0, 0)) as i32
}
#[no_mangle]
pub unsafe extern "C" fn sim_fcntl(fd: i32, cmd: i32, arg: i64) -> i32 {
    if fs::is_fd(fd) {
        return match cmd {
            F_DUPFD | F_DUPFD_CLOEXEC => res(fs::dup(fd), |f| f as i64) as i32,
            _ => 0,
        };
    }
    ret(rt::raw_syscall(SYS_fcntl, fd as i64, cmd as i64, arg, 0, 0, 0)) as i32
}
#[no_mangle]
pub unsafe extern "C" fn sim_ioctl(fd: i32, req: u64, arg: i64) -> i32 {
    if fs::is_fd(fd) {
        return err(ENOTTY);
    }
    ret(rt::raw_syscall(SYS_ioctl, fd as i64, req as i64, arg, 0, 0, 0)) as i32
}

#[no_mangle]
pub unsafe extern "C" fn read(fd: i32, buf: *mut u8, n: usize) -> isize {
    if fs::is_fd(fd) {
        return res(fs::read(fd, std::slice::from_raw_parts_mut(buf, n), None), |x| x as i64) as isize;
    }
    if fd == 0 && rt::active() {
        let mut q = STDIN.lock().unwrap();
        while q.1 && q.0.is_empty() {
            q = STDIN_MORE.wait(q).unwrap();
        }
        let k = n.min(q.0.len()).min(997);
        std::ptr::copy_nonoverlapping(q.0.as_ptr(), buf, k);
        q.0.drain(..k);
        return k as isize;
    }
    ret(rt::raw_syscall(SYS_read, fd as i64, buf as i64, n as i64, 0, 0, 0)) as isize
}
/// What is left of the standard input, and whether more may come.
static STDIN: std::sync::Mutex<(Vec<u8>, bool)> = std::sync::Mutex::new((Vec::new(), false));
static STDIN_MORE: std::sync::Condvar = std::sync::Condvar::new();
pub fn set_stdin(d: &[u8]) {
    STDIN.lock().unwrap().0 = d.to_vec();
}
/// The standard input becomes a pipe that somebody writes to, until it is closed.
pub fn stdin_pipe(open: bool) {
    STDIN.lock().unwrap().1 = open;
    STDIN_MORE.notify_all();
}
pub fn feed_stdin(d: &[u8]) {
    STDIN.lock().unwrap().0.extend_from_slice(d);
    STDIN_MORE.notify_all();
}

/// What has been written to the standard output and not been read, when that is a pipe.
struct OutPipe {
    on: bool,
    data: Vec<u8>,
}
const PIPE: usize = 1 << 16;
static OUT: std::sync::Mutex<OutPipe> = std::sync::Mutex::new(OutPipe { on: false, data: Vec::new() });
static OUT_MORE: std::sync::Condvar = std::sync::Condvar::new();
static OUT_ROOM: std::sync::Condvar = std::sync::Condvar::new();
pub fn stdout_pipe(on: bool) {
    OUT.lock().unwrap().on = on;
    OUT_MORE.notify_all();
}
/// Reads from that pipe; nothing once it is closed and empty.
pub fn take_stdout(max: usize) -> Vec<u8> {
    let mut o = OUT.lock().unwrap();
    while o.on && o.data.is_empty() {
        o = OUT_MORE.wait(o).unwrap();
    }
    let k = max.min(o.data.len());
    let d = o.data.drain(..k).collect();
    OUT_ROOM.notify_all();
    d
}
/// Whoever read what simulated process 2 prints is gone.
static DEAF: std::sync::atomic::AtomicBool = std::sync::atomic::AtomicBool::new(false);
pub fn nobody_reads() {
    DEAF.store(true, std::sync::atomic::Ordering::Relaxed);
    drop(OUT.lock().unwrap());
    OUT_ROOM.notify_all();
}
fn deaf() -> bool {
    DEAF.load(std::sync::atomic::Ordering::Relaxed) && rt::my_pid() == 2
}
unsafe fn to_pipe(fd: i32, bufs: &[(*const u8, usize)]) -> Option<isize> {
    if fd != 1 || !rt::active() {
        return None;
    }
    let mut o = OUT.lock().unwrap();
    if !o.on {
        return None;
    }
    while o.data.len() >= PIPE && !deaf() {
        o = OUT_ROOM.wait(o).unwrap();
    }
    if deaf() {
        return Some(res::<()>(Err(EPIPE), |_| 0) as isize);
    }
    let mut n = 0;
    for (p, len) in bufs {
        let k = (*len).min(PIPE - o.data.len());
        o.data.extend_from_slice(std::slice::from_raw_parts(*p, k));
        n += k;
    }
    OUT_MORE.notify_all();
    Some(n as isize)
}
#[no_mangle]
pub unsafe extern "C" fn pread64(fd: i32, buf: *mut u8, n: usize, off: i64) -> isize {
    if fs::is_fd(fd) {
        let b = std::slice::from_raw_parts_mut(buf, n);
        return res(fs::read(fd, b, Some(off as usize)), |x| x as i64) as isize;
    }
    ret(rt::raw_syscall(SYS_pread64, fd as i64, buf as i64, n as i64, off, 0, 0)) as isize
}
/// A write to the standard output (or error) of the simulated process that fails.
fn out_fault(fd: i32) -> Option<isize> {
    if !(1..=2).contains(&fd) || !rt::active() || rt::quiet() {
        return None;
    }
    if deaf() {
        return Some(res::<()>(Err(EPIPE), |_| 0) as isize);
    }
    match fs::other_fault("out", if fd == 1 { "stdout" } else { "stderr" }) {
        Ok(()) => None,
        Err(e) => Some(res::<()>(Err(e), |_| 0) as isize),
    }
}
#[no_mangle]
pub unsafe extern "C" fn write(fd: i32, buf: *const u8, n: usize) -> isize {
    if fs::is_fd(fd) {
        return res(fs::write(fd, std::slice::from_raw_parts(buf, n), None), |x| x as i64) as isize;
    }
    if let Some(e) = out_fault(fd) {
        return e;
    }
    if let Some(n) = to_pipe(fd, &[(buf, n)]) {
        return n;
    }
    let r = ret(rt::raw_syscall(SYS_write, fd as i64, buf as i64, n as i64, 0, 0, 0)) as isize;
    if fd > 2 {
        rt::real_fd_written();
    }
    r
}
#[no_mangle]
pub unsafe extern "C" fn pwrite64(fd: i32, buf: *const u8, n: usize, off: i64) -> isize {
    if fs::is_fd(fd) {
        let b = std::slice::from_raw_parts(buf, n);
        return res(fs::write(fd, b, Some(off as usize)), |x| x as i64) as isize;
    }
    ret(rt::raw_syscall(SYS_pwrite64, fd as i64, buf as i64, n as i64, off, 0, 0)) as isize
}
#[no_mangle]
pub unsafe extern "C" fn writev(fd: i32, iov: *const iovec, cnt: i32) -> isize {
    if fs::is_fd(fd) {
        let mut all = Vec::new();
        for i in 0..cnt {
            let v = &*iov.add(i as usize);
            all.extend_from_slice(std::slice::from_raw_parts(v.iov_base as *const u8, v.iov_len));
        }
        return res(fs::write(fd, &all, None), |x| x as i64) as isize;
    }
    if let Some(e) = out_fault(fd) {
        return e;
    }
    let bufs: Vec<(*const u8, usize)> = (0..cnt as usize).map(|i| ((*iov.add(i)).iov_base as *const u8, (*iov.add(i)).iov_len)).collect();
    if let Some(n) = to_pipe(fd, &bufs) {
        return n;
    }
    let r = ret(rt::raw_syscall(SYS_writev, fd as i64, iov as i64, cnt as i64, 0, 0, 0)) as isize;
    if fd > 2 {
        rt::real_fd_written();
    }
    r
}
#[no_mangle]
pub unsafe extern "C" fn lseek64(fd: i32, off: i64, wh: i32) -> i64 {
    if fs::is_fd(fd) {
        return res(fs::lseek(fd, off, wh), |x| x);
    }
    ret(rt::raw_syscall(SYS_lseek, fd as i64, off, wh as i64, 0, 0, 0))
}
#[no_mangle]
pub unsafe extern "C" fn close(fd: i32) -> i32 {
    if fs::is_fd(fd) {
        return res(fs::close(fd), |_| 0) as i32;
    }
    ret(rt::raw_syscall(SYS_close, fd as i64, 0, 0, 0, 0, 0)) as i32
}
#[no_mangle]
pub unsafe extern "C" fn fsync(fd: i32) -> i32 {
    if fs::is_fd(fd) {
        return res(fs::fsync(fd), |_| 0) as i32;
    }
    ret(rt::raw_syscall(SYS_fsync, fd as i64, 0, 0, 0, 0, 0)) as i32
}
#[no_mangle]
pub unsafe extern "C" fn fdatasync(fd: i32) -> i32 {
    fsync(fd)
}
#[no_mangle]
pub unsafe extern "C" fn ftruncate64(fd: i32, n: i64) -> i32 {
    if fs::is_fd(fd) {
        return res(fs::ftruncate(fd, n), |_| 0) as i32;
    }
    ret(rt::raw_syscall(SYS_ftruncate, fd as i64, n, 0, 0, 0, 0)) as i32
}
#[no_mangle]
pub unsafe extern "C" fn ftruncate(fd: i32, n: i64) -> i32 {
    ftruncate64(fd, n)
}
#[no_mangle]
pub unsafe extern "C" fn flock(fd: i32, op: i32) -> i32 {
    if fs::is_fd(fd) {
        return res(fs::flock(fd, op), |_| 0) as i32;
    }
    ret(rt::raw_syscall(SYS_flock, fd as i64, op as i64, 0, 0, 0, 0)) as i32
}

unsafe fn fill_stat(buf: *mut stat64, s: &fs::Stat) {
    std::ptr::write_bytes(buf as *mut u8, 0, std::mem::size_of::<stat64>());
    let b = &mut *buf;
    b.st_dev = 77;
    b.st_ino = s.ino;
    b.st_nlink = 1;
    b.st_mode = if s.dir { S_IFDIR | 0o755 } else { S_IFREG | 0o644 };
    b.st_size = s.size as i64;
    b.st_blksize = 4096;
    b.st_mtime = (s.mtime / 1_000_000_000) as i64;
    b.st_mtime_nsec = (s.mtime % 1_000_000_000) as i64;
}
#[no_mangle]
pub unsafe extern "C" fn stat64(p: *const c_char, buf: *mut stat64) -> i32 {
    fstatat64(AT_FDCWD, p, buf, 0)
}
#[no_mangle]
pub unsafe extern "C" fn lstat64(p: *const c_char, buf: *mut stat64) -> i32 {
    fstatat64(AT_FDCWD, p, buf, AT_SYMLINK_NOFOLLOW)
}
#[no_mangle]
pub unsafe extern "C" fn fstat64(fd: i32, buf: *mut stat64) -> i32 {
    if fs::is_fd(fd) {
        return res(fs::fstat(fd), |s| {
            fill_stat(buf, &s);
            0
        }) as i32;
    }
    ret(rt::raw_syscall(SYS_fstat, fd as i64, buf as i64, 0, 0, 0, 0)) as i32
}
#[no_mangle]
pub unsafe extern "C" fn fstatat64(dfd: i32, p: *const c_char, buf: *mut stat64, fl: i32) -> i32 {
    match at_path(dfd, p) {
        Some(Ok(s)) => {
            return res(fs::stat(&s), |s| {
                fill_stat(buf, &s);
                0
            }) as i32
        }
        Some(Err(e)) => return err(e),
        None => {}
    }
    ret(rt::raw_syscall(SYS_newfstatat, dfd as i64, p as i64, buf as i64, fl as i64, 0, 0)) as i32
}
#[no_mangle]
pub unsafe extern "C" fn statx(dfd: i32, p: *const c_char, fl: i32, mask: u32, buf: *mut libc::statx) -> i32 {
    let r = if fs::is_fd(dfd) && (p.is_null() || *p == 0) {
        Some(fs::fstat(dfd))
    } else {
        match at_path(dfd, p) {
            Some(Ok(s)) => Some(fs::stat(&s)),
            Some(Err(e)) => Some(Err(e)),
            None => None,
        }
    };
    match r {
        Some(r) => res(r, |s| {
            std::ptr::write_bytes(buf as *mut u8, 0, std::mem::size_of::<libc::statx>());
            let b = &mut *buf;
            b.stx_mask = 0x7ff;
            b.stx_blksize = 4096;
            b.stx_nlink = 1;
            b.stx_mode = if s.dir { S_IFDIR | 0o755 } else { S_IFREG | 0o644 } as u16;
            b.stx_ino = s.ino;
            b.stx_size = s.size;
            b.stx_mtime.tv_sec = (s.mtime / 1_000_000_000) as i64;
            b.stx_mtime.tv_nsec = (s.mtime % 1_000_000_000) as u32;
            0
        }) as i32,
        None => ret(rt::raw_syscall(SYS_statx, dfd as i64, p as i64, fl as i64, mask as i64, buf as i64, 0)) as i32,
    }
}
#[no_mangle]
pub unsafe extern "C" fn mkdir(p: *const c_char, mode: u32) -> i32 {
    if let Some(s) = simpath(p) {
        return res(fs::mkdir(s), |_| 0) as i32;
    }
    if rt::active() {
        return err(EROFS);
    }
    ret(rt::raw_syscall(SYS_mkdir, p as i64, mode as i64, 0, 0, 0, 0)) as i32
}
#[no_mangle]
pub unsafe extern "C" fn unlink(p: *const c_char) -> i32 {
    unlinkat(AT_FDCWD, p, 0)
}
#[no_mangle]
pub unsafe extern "C" fn rmdir(p: *const c_char) -> i32 {
    unlinkat(AT_FDCWD, p, AT_REMOVEDIR)
}
#[no_mangle]
pub unsafe extern "C" fn unlinkat(dfd: i32, p: *const c_char, fl: i32) -> i32 {
    match at_path(dfd, p) {
        Some(Ok(s)) => return res(fs::unlink(&s, fl & AT_REMOVEDIR != 0), |_| 0) as i32,
        Some(Err(e)) => return err(e),
        None => {}
    }
    if rt::active() {
        return err(EROFS);
    }
    ret(rt::raw_syscall(SYS_unlinkat, dfd as i64, p as i64, fl as i64, 0, 0, 0)) as i32
}
#[no_mangle]
pub unsafe extern "C" fn rename(a: *const c_char, b: *const c_char) -> i32 {
    if let (Some(x), Some(y)) = (simpath(a), simpath(b)) {
        return res(fs::rename(x, y), |_| 0) as i32;
    }
    if rt::active() {
        return err(EXDEV);
    }
    ret(rt::raw_syscall(SYS_rename, a as i64, b as i64, 0, 0, 0, 0)) as i32
}
macro_rules! denied {
    ($($name:ident($($a:ident: $t:ty),*) = $sys:expr;)*) => { $(
        #[no_mangle]
        pub unsafe extern "C" fn $name($($a: $t),*) -> i32 {
            if rt::active() {
                return err(EPERM);
            }
            let v = [$($a as i64),*];
            ret(rt::raw_syscall($sys, v[0], v[1], *v.get(2).unwrap_or(&0), *v.get(3).unwrap_or(&0), 0, 0)) as i32
        }
    )* };
}
denied! {
    link(a: *const c_char, b: *const c_char) = SYS_link;
    symlink(a: *const c_char, b: *const c_char) = SYS_symlink;
    kill(a: i32, b: i32) = SYS_kill;
}
#[no_mangle]
pub unsafe extern "C" fn chmod(p: *const c_char, m: u32) -> i32 {
    if let Some(s) = simpath(p) {
        return res(fs::touch_meta(s), |_| 0) as i32;
    }
    if rt::active() {
        return err(EROFS);
    }
    ret(rt::raw_syscall(SYS_chmod, p as i64, m as i64, 0, 0, 0, 0)) as i32
}
#[no_mangle]
pub unsafe extern "C" fn fchmod(fd: i32, m: u32) -> i32 {
    if fs::is_fd(fd) {
        return 0;
    }
    ret(rt::raw_syscall(SYS_fchmod, fd as i64, m as i64, 0, 0, 0, 0)) as i32
}
#[no_mangle]
pub unsafe extern "C" fn futimens(fd: i32, t: *const timespec) -> i32 {
    if fs::is_fd(fd) {
        return 0;
    }
    ret(rt::raw_syscall(SYS_utimensat, fd as i64, 0, t as i64, 0, 0, 0)) as i32
}
#[no_mangle]
pub unsafe extern "C" fn utimensat(d: i32, p: *const c_char, t: *const timespec, f: i32) -> i32 {
    match at_path(d, p) {
        Some(Ok(s)) => return res(fs::touch_meta(&s), |_| 0) as i32,
        Some(Err(e)) => return err(e),
        None => {}
    }
    if rt::active() {
        return err(EROFS);
    }
    ret(rt::raw_syscall(SYS_utimensat, d as i64, p as i64, t as i64, f as i64, 0, 0)) as i32
}
#[no_mangle]
pub unsafe extern "C" fn access(p: *const c_char, m: i32) -> i32 {
    if let Some(s) = simpath(p) {
        return res(fs::stat(s), |_| 0) as i32;
    }
    ret(rt::raw_syscall(SYS_access, p as i64, m as i64, 0, 0, 0, 0)) as i32
}
#[no_mangle]
pub unsafe extern "C" fn readlink(p: *const c_char, b: *mut c_char, n: usize) -> isize {
    if let Some(s) = simpath(p) {
        return res(fs::stat(s), |_| err(EINVAL) as i64) as isize;
    }
    ret(rt::raw_syscall(SYS_readlink, p as i64, b as i64, n as i64, 0, 0, 0)) as isize
}
#[no_mangle]
pub unsafe extern "C" fn realpath(p: *const c_char, out: *mut c_char) -> *mut c_char {
    if let Some(s) = simpath(p) {
        return match fs::stat(s) {
            Ok(_) => {
                let n = std::ffi::CString::new(fs::norm(s)).unwrap();
                strdup(n.as_ptr())
            }
            Err(e) => {
                err(e);
                std::ptr::null_mut()
            }
        };
    }
    (real!(realpath: fn(*const c_char, *mut c_char) -> *mut c_char))(p, out)
}

// ---- directories ----
const DIR_MAGIC: u64 = 0x51_d1_51_d1_51;
#[repr(C)]
struct SimDir {
    magic: u64,
    fd: i32,
    ents: Vec<(String, bool, u64)>,
    pos: usize,
    ent: dirent64,
}
unsafe fn simdir<'a>(d: *mut DIR) -> Option<&'a mut SimDir> {
    if rt::active() && (d as *const u64).read_unaligned() == DIR_MAGIC {
        Some(&mut *(d as *mut SimDir))
    } else {
        None
    }
}
unsafe fn mkdirp(path: &str, fd: i32) -> *mut DIR {
    match fs::readdir(path) {
        Ok(ents) => {
            let _q = rt::Quiet::new();
            Box::into_raw(Box::new(SimDir { magic: DIR_MAGIC, fd, ents, pos: 0, ent: std::mem::zeroed() })) as *mut DIR
        }
        Err(e) => {
            err(e);
            std::ptr::null_mut()
        }
    }
}
#[no_mangle]
pub unsafe extern "C" fn opendir(p: *const c_char) -> *mut DIR {
    if let Some(s) = simpath(p) {
        return match fs::open(s, O_RDONLY | O_DIRECTORY) {
            Ok(fd) => mkdirp(s, fd),
            Err(e) => {
                err(e);
                std::ptr::null_mut()
            }
        };
    }
    (real!(opendir: fn(*const c_char) -> *mut DIR))(p)
}
#[no_mangle]
pub unsafe extern "C" fn fdopendir(fd: i32) -> *mut DIR {
    if fs::is_fd(fd) {
        return match fs::fd_path(fd) {
            Some(p) => mkdirp(&p, fd),
            None => {
                err(ENOENT);
                std::ptr::null_mut()
            }
        };
    }
    (real!(fdopendir: fn(i32) -> *mut DIR))(fd)
}
#[no_mangle]
pub unsafe extern "C" fn readdir64(d: *mut DIR) -> *mut dirent64 {
    if let Some(s) = simdir(d) {
        let Some((name, dir, ino)) = s.ents.get(s.pos) else { return std::ptr::null_mut() };
        s.pos += 1;
        s.ent = std::mem::zeroed();
        s.ent.d_ino = *ino;
        s.ent.d_type = if *dir { DT_DIR } else { DT_REG };
        s.ent.d_reclen = std::mem::size_of::<dirent64>() as u16;
        for (i, b) in name.bytes().enumerate() {
            s.ent.d_name[i] = b as c_char;
        }
        return &mut s.ent;
    }
    (real!(readdir64: fn(*mut DIR) -> *mut dirent64))(d)
}
#[no_mangle]
pub unsafe extern "C" fn closedir(d: *mut DIR) -> i32 {
    if let Some(s) = simdir(d) {
        let _q = rt::Quiet::new();
        let _ = fs::close(s.fd);
        drop(Box::from_raw(d as *mut SimDir));
        return 0;
    }
    (real!(closedir: fn(*mut DIR) -> i32))(d)
}
#[no_mangle]
pub unsafe extern "C" fn dirfd(d: *mut DIR) -> i32 {
    if let Some(s) = simdir(d) {
        return s.fd;
    }
    (real!(dirfd: fn(*mut DIR) -> i32))(d)
}

// ---- time, randomness, scheduling ----
#[no_mangle]
pub unsafe extern "C" fn clock_gettime(id: i32, t: *mut timespec) -> i32 {
    if rt::active() {
        let (s, n) = rt::clock_gettime(id);
        (*t).tv_sec = s;
        (*t).tv_nsec = n;
        return 0;
    }
    ret(rt::raw_syscall(SYS_clock_gettime, id as i64, t as i64, 0, 0, 0, 0)) as i32
}
#[no_mangle]
pub unsafe extern "C" fn gettimeofday(t: *mut timeval, _z: *mut c_void) -> i32 {
    if rt::active() {
        let (s, n) = rt::clock_gettime(CLOCK_REALTIME);
        (*t).tv_sec = s;
        (*t).tv_usec = n / 1000;
        return 0;
    }
    ret(rt::raw_syscall(SYS_gettimeofday, t as i64, 0, 0, 0, 0, 0)) as i32
}
#[no_mangle]
pub unsafe extern "C" fn time(t: *mut time_t) -> time_t {
    let mut ts: timespec = std::mem::zeroed();
    clock_gettime(CLOCK_REALTIME, &mut ts);
    if !t.is_null() {
        *t = ts.tv_sec;
    }
    ts.tv_sec
}
#[no_mangle]
pub unsafe extern "C" fn nanosleep(t: *const timespec, rem: *mut timespec) -> i32 {
    if rt::active() {
        rt::sleep_ns((*t).tv_sec as u64 * 1_000_000_000 + (*t).tv_nsec as u64);
        return 0;
    }
    ret(rt::raw_syscall(SYS_nanosleep, t as i64, rem as i64, 0, 0, 0, 0)) as i32
}
#[no_mangle]
pub unsafe extern "C" fn clock_nanosleep(id: i32, fl: i32, t: *const timespec, rem: *mut timespec) -> i32 {
    if rt::active() {
        let ns = (*t).tv_sec as u64 * 1_000_000_000 + (*t).tv_nsec as u64;
        let ns = if fl & TIMER_ABSTIME != 0 { ns.saturating_sub(rt::now_mono()) } else { ns };
        rt::sleep_ns(ns);
        return 0;
    }
    -(rt::raw_syscall(SYS_clock_nanosleep, id as i64, fl as i64, t as i64, rem as i64, 0, 0) as i32)
}
#[no_mangle]
pub unsafe extern "C" fn getrandom(b: *mut u8, n: usize, fl: u32) -> isize {
    if rt::active() {
        rt::fill_random(std::slice::from_raw_parts_mut(b, n));
        return n as isize;
    }
    ret(rt::raw_syscall(SYS_getrandom, b as i64, n as i64, fl as i64, 0, 0, 0)) as isize
}
#[no_mangle]
pub unsafe extern "C" fn sched_yield() -> i32 {
    if rt::active() {
        rt::sched_yield();
        return 0;
    }
    ret(rt::raw_syscall(SYS_sched_yield, 0, 0, 0, 0, 0, 0)) as i32
}
#[no_mangle]
pub unsafe extern "C" fn sched_getaffinity(pid: i32, n: usize, set: *mut cpu_set_t) -> i32 {
    if rt::active() {
        std::ptr::write_bytes(set as *mut u8, 0, n);
        for i in 0..rt::ncpu() as usize {
            CPU_SET(i, &mut *set);
        }
        return 0;
    }
    let r = ret(rt::raw_syscall(SYS_sched_getaffinity, pid as i64, n as i64, set as i64, 0, 0, 0));
    if r >= 0 {
        std::ptr::write_bytes((set as *mut u8).add(r as usize), 0, n - r as usize);
        0
    } else {
        -1
    }
}
#[no_mangle]
pub unsafe extern "C" fn getpid() -> i32 {
    if rt::active() {
        return rt::my_pid() as i32;
    }
    rt::raw_syscall(SYS_getpid, 0, 0, 0, 0, 0, 0) as i32
}
static CWD: std::sync::OnceLock<Vec<u8>> = std::sync::OnceLock::new();
pub fn set_cwd(d: &str) {
    let _ = CWD.set(d.as_bytes().to_vec());
}
#[no_mangle]
pub unsafe extern "C" fn getcwd(buf: *mut c_char, n: usize) -> *mut c_char {
    match CWD.get() {
        Some(d) if rt::active() && !buf.is_null() => {
            if d.len() >= n {
                *__errno_location() = ERANGE;
                return std::ptr::null_mut();
            }
            std::ptr::copy_nonoverlapping(d.as_ptr(), buf as *mut u8, d.len());
            *buf.add(d.len()) = 0;
            buf
        }
        _ => (real!(getcwd: fn(*mut c_char, usize) -> *mut c_char))(buf, n),
    }
}
#[no_mangle]
pub unsafe extern "C" fn exit(code: i32) -> ! {
    if rt::active() {
        crate::cli::exit(code);
    }
    (real!(exit: fn(i32) -> !))(code)
}
#[no_mangle]
pub unsafe extern "C" fn abort() -> ! {
    if rt::active() && rt::my_pid() == 2 {
        crate::cli::abort();
    }
    (real!(abort: fn() -> !))()
}
#[no_mangle]
pub unsafe extern "C" fn gettid() -> i32 {
    if rt::active() {
        return 10_000 + rt::my_tid() as i32;
    }
    rt::raw_syscall(SYS_gettid, 0, 0, 0, 0, 0, 0) as i32
}
#[no_mangle]
pub unsafe extern "C" fn epoll_wait(fd: i32, evs: *mut epoll_event, max: i32, timeout: i32) -> i32 {
    if rt::active() {
        return rt::epoll_wait(fd, evs, max, timeout);
    }
    ret(rt::raw_syscall(SYS_epoll_wait, fd as i64, evs as i64, max as i64, timeout as i64, 0, 0)) as i32
}
#[no_mangle]
pub unsafe extern "C" fn pthread_create(
    out: *mut pthread_t,
    attr: *const pthread_attr_t,
    f: extern "C" fn(*mut c_void) -> *mut c_void,
    arg: *mut c_void,
) -> i32 {
    let real = real!(pthread_create: fn(*mut pthread_t, *const pthread_attr_t, extern "C" fn(*mut c_void) -> *mut c_void, *mut c_void) -> i32);
    if rt::active() {
        if !rt::quiet() {
            if let Err(e) = fs::other_fault("thread", "spawn") {
                return e;
            }
        }
        return rt::thread_create(real, out, attr, f as usize, arg as usize);
    }
    real(out, attr, f, arg)
}
#[no_mangle]
pub unsafe extern "C" fn pthread_join(t: pthread_t, out: *mut *mut c_void) -> i32 {
    let real = real!(pthread_join: fn(pthread_t, *mut *mut c_void) -> i32);
    if rt::active() {
        rt::thread_join(t as u64);
    }
    real(t, out)
}

// ---- heap at a fixed address, with allocation as a scheduling point ----
//
// Two arenas: one for the simulated program, one for everything else (the harness, the
// simulator), so that addresses seen by the program do not depend on what the simulator keeps.
pub struct SimAlloc;
const BASE: usize = 0x2000_0000_0000;
const SIZE: usize = 64 << 30;
struct Arena {
    bump: usize,
    free: [usize; 128],
}
static mut ARENAS: [Arena; 2] = [Arena { bump: 0, free: [0; 128] }, Arena { bump: 0, free: [0; 128] }];
const PROG: usize = BASE + SIZE / 2;

static LOCK: std::sync::atomic::AtomicBool = std::sync::atomic::AtomicBool::new(false);

fn class(size: usize, align: usize) -> (usize, usize) {
    let s = size.max(align).max(16);
    // four classes per power of two above 64
    let p = s.next_power_of_two();
    if align > 16 {
        return (p.trailing_zeros() as usize + 64, p);
    }
    if p <= 64 {
        return (p.trailing_zeros() as usize, p);
    }
    let half = p / 2;
    let tq = half + half / 2;
    if s <= tq {
        (p.trailing_zeros() as usize + 32 - 6, tq)
    } else {
        (p.trailing_zeros() as usize, p)
    }
}

unsafe impl std::alloc::GlobalAlloc for SimAlloc {
    unsafe fn alloc(&self, l: std::alloc::Layout) -> *mut u8 {
        rt::on_alloc();
        let (c, sz) = class(l.size(), l.align());
        while LOCK.swap(true, std::sync::atomic::Ordering::Acquire) {
            std::hint::spin_loop();
        }
        let which = (rt::active() && !rt::quiet()) as usize;
        #[allow(static_mut_refs)]
        let ar = &mut ARENAS[which];
        let p = if ar.free[c] != 0 {
            let p = ar.free[c];
            ar.free[c] = *(p as *const usize);
            p
        } else {
            if ar.bump == 0 && which == 0 {
                let m = rt::raw_syscall(
                    SYS_mmap,
                    BASE as i64,
                    SIZE as i64,
                    (PROT_READ | PROT_WRITE) as i64,
                    (MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED_NOREPLACE) as i64,
                    -1,
                    0,
                );
                if m as usize != BASE {
                    rt::raw_syscall(SYS_exit_group, 97, 0, 0, 0, 0, 0);
                }
                ar.bump = BASE;
            }
            if ar.bump == 0 {
                ar.bump = PROG;
            }
            let a = if c >= 64 { sz } else { 16 };
            let p = (ar.bump + a - 1) & !(a - 1);
            ar.bump = p + sz;
            if ar.bump > BASE + SIZE || (which == 0 && ar.bump > PROG) {
                rt::raw_syscall(SYS_exit_group, 96, 0, 0, 0, 0, 0);
            }
            p
        };
        LOCK.store(false, std::sync::atomic::Ordering::Release);
        p as *mut u8
    }
    unsafe fn dealloc(&self, p: *mut u8, l: std::alloc::Layout) {
        let (c, _) = class(l.size(), l.align());
        while LOCK.swap(true, std::sync::atomic::Ordering::Acquire) {
            std::hint::spin_loop();
        }
        #[allow(static_mut_refs)]
        let ar = &mut ARENAS[(p as usize >= PROG) as usize];
        *(p as *mut usize) = ar.free[c];
        ar.free[c] = p as usize;
        LOCK.store(false, std::sync::atomic::Ordering::Release);
    }
    unsafe fn realloc(&self, p: *mut u8, l: std::alloc::Layout, n: usize) -> *mut u8 {
        let (c, sz) = class(l.size(), l.align());
        let (c2, _) = class(n, l.align());
        if c == c2 && n <= sz {
            return p;
        }
        let q = self.alloc(std::alloc::Layout::from_size_align_unchecked(n, l.align()));
        std::ptr::copy_nonoverlapping(p, q, l.size().min(n));
        self.dealloc(p, l);
        q
    }
}
