//! The seam: libc entry points defined in this binary, so that everything the Rust standard
//! library asks of the operating system on behalf of the code under test is answered by the
//! simulated `World`. Paths under /sim and descriptors from FD_BASE up are simulated; the rest is
//! passed to the kernel. Clock, randomness and process id are simulated on actor threads only.
#![allow(clippy::missing_safety_doc, unknown_lints, invalid_runtime_symbol_definitions)]
use crate::world::{World, FD_BASE};
use libc::{c_char, c_int, c_long, c_uint, c_void, iovec, mode_t, off_t, size_t, ssize_t, timespec};
use std::cell::Cell;
use std::ffi::CStr;
use std::sync::{Condvar, Mutex, MutexGuard};

pub static WORLD: Mutex<Option<Box<World>>> = Mutex::new(None);

pub const NO_ACTOR: u32 = u32::MAX;
thread_local! {
    static ACTOR: Cell<u32> = const { Cell::new(NO_ACTOR) };
}

pub fn set_actor(a: u32) {
    ACTOR.with(|c| c.set(a));
}
pub fn actor() -> u32 {
    ACTOR.try_with(|c| c.get()).unwrap_or(NO_ACTOR)
}

/// The simulated machine; what it allocates is not the program's memory
pub struct Held(MutexGuard<'static, Option<Box<World>>>);
impl std::ops::Deref for Held {
    type Target = Option<Box<World>>;
    fn deref(&self) -> &Self::Target {
        &self.0
    }
}
impl std::ops::DerefMut for Held {
    fn deref_mut(&mut self) -> &mut Self::Target {
        &mut self.0
    }
}
impl Drop for Held {
    fn drop(&mut self) {
        crate::alloc::outside(false);
    }
}
pub fn world() -> Held {
    let g = WORLD.lock().unwrap_or_else(|e| e.into_inner());
    crate::alloc::outside(true);
    Held(g)
}

/// Exit status that tells the parent "the code keeps calling without end".
pub const EXIT_HANG: i32 = 78;

// ---- scheduling: one baton, passed at system calls ----

#[derive(Default)]
pub struct Sched {
    pub current: u32,
    pub alive: Vec<bool>,
    /// (call number, actor that runs next)
    pub preempt: Vec<(u64, u32)>,
    pub switches: u64,
}
pub static SCHED: Mutex<Option<Sched>> = Mutex::new(None);
pub static SCHED_CV: Condvar = Condvar::new();

fn sched() -> MutexGuard<'static, Option<Sched>> {
    SCHED.lock().unwrap_or_else(|e| e.into_inner())
}

pub fn sched_start(n: u32, preempt: Vec<(u64, u32)>, first: u32) {
    *sched() = Some(Sched { current: first, alive: vec![true; n as usize], preempt, switches: 0 });
}
pub fn sched_stop() -> u64 {
    sched().take().map_or(0, |s| s.switches)
}
/// Block until it is this actor's turn (used at thread start and after a switch)
pub fn wait_turn(me: u32) {
    let mut g = sched();
    loop {
        match &*g {
            Some(s) if s.current != me => {}
            _ => return,
        }
        g = SCHED_CV.wait(g).unwrap_or_else(|e| e.into_inner());
    }
}
pub fn actor_done(me: u32) {
    let mut g = sched();
    if let Some(s) = &mut *g {
        s.alive[me as usize] = false;
        if let Some(n) = s.alive.iter().position(|a| *a) {
            s.current = n as u32;
        }
    }
    SCHED_CV.notify_all();
}
/// The scheduler's decision before call number `n` of this run
fn yield_point(me: u32, n: u64) {
    let mut g = sched();
    if let Some(s) = &mut *g {
        if let Some(i) = s.preempt.iter().position(|p| p.0 == n) {
            let to = s.preempt[i].1;
            if to != me && s.alive.get(to as usize) == Some(&true) {
                s.current = to;
                s.switches += 1;
                SCHED_CV.notify_all();
                drop(g);
                wait_turn(me);
            }
        }
    }
}

/// A system call straight to the kernel, with errno set as libc does
#[inline(never)]
pub unsafe fn raw(n: c_long, a: [c_long; 6]) -> c_long {
    let r: c_long;
    std::arch::asm!("syscall", inlateout("rax") n => r, in("rdi") a[0], in("rsi") a[1], in("rdx") a[2],
        in("r10") a[3], in("r8") a[4], in("r9") a[5], out("rcx") _, out("r11") _, options(nostack));
    if (-4095..0).contains(&r) {
        set_errno(-r as c_int);
        -1
    } else {
        r
    }
}
macro_rules! raw {
    ($n:expr $(, $a:expr)* $(,)?) => {{
        let v: &[c_long] = &[$($a as c_long),*];
        let mut a = [0 as c_long; 6];
        a[..v.len()].copy_from_slice(v);
        raw($n as c_long, a)
    }};
}
/// `syscall(2)`: some crates reach the kernel through it
#[no_mangle]
pub unsafe extern "C" fn syscall(n: c_long, a: c_long, b: c_long, c: c_long, d: c_long, e: c_long, f: c_long) -> c_long {
    match n {
        libc::SYS_getrandom => getrandom(a as *mut c_void, b as size_t, c as c_uint) as c_long,
        libc::SYS_statx => statx(a as c_int, b as *const c_char, c as c_int, d as c_uint, e as *mut libc::statx) as c_long,
        libc::SYS_clock_gettime => clock_gettime(a as c_int, b as *mut timespec) as c_long,
        libc::SYS_futex if waits(a, b) => futex_wait(a, b, c, d, e, f),
        _ => raw(n, [a, b, c, d, e, f]),
    }
}
/// Does an actor wait for a lock of the program (and not for one of the simulator)?
fn waits(addr: c_long, op: c_long) -> bool {
    fn within<T>(x: &T, addr: usize) -> bool {
        let s = x as *const T as usize;
        (s..s + std::mem::size_of::<T>()).contains(&addr)
    }
    let a = addr as usize;
    let op = op as c_int & libc::FUTEX_CMD_MASK;
    matches!(op, libc::FUTEX_WAIT | libc::FUTEX_WAIT_BITSET)
        && actor() != NO_ACTOR
        && !within(&WORLD, a)
        && !within(&SCHED, a)
        && !within(&SCHED_CV, a)
}
/// Whoever waits for a lock passes the baton on: its holder may be another actor
unsafe fn futex_wait(a: c_long, b: c_long, c: c_long, d: c_long, e: c_long, f: c_long) -> c_long {
    let me = actor();
    let word = &*(a as *const std::sync::atomic::AtomicU32);
    let same = || word.load(std::sync::atomic::Ordering::SeqCst) == c as u32;
    let mut alone = 0;
    for round in 0u32.. {
        if !same() {
            set_errno(libc::EAGAIN);
            return -1;
        }
        if d != 0 && round > 0 {
            set_errno(libc::ETIMEDOUT);
            return -1;
        }
        let other = {
            let mut g = sched();
            g.as_mut().and_then(|s| {
                let n = s.alive.len() as u32;
                let to = (1..n).map(|k| (me + k) % n).find(|k| s.alive[*k as usize])?;
                s.current = to;
                s.switches += 1;
                SCHED_CV.notify_all();
                Some(to)
            })
        };
        if other.is_some() {
            wait_turn(me);
        } else if d != 0 {
            return raw(libc::SYS_futex, [a, b, c, d, e, f]);
        } else {
            // a thread of the program's own is left to wait for
            let t = timespec { tv_sec: 0, tv_nsec: 20_000_000 };
            raw(libc::SYS_futex, [a, (libc::FUTEX_WAIT | libc::FUTEX_PRIVATE_FLAG) as c_long, c, &t as *const _ as c_long, 0, 0]);
            alone += 1;
        }
        if round > 200_000 || alone > 1_500 {
            libc::_exit(EXIT_HANG)
        }
    }
    0
}
thread_local! {
    static HARNESS_RAND: std::cell::RefCell<Option<crate::rng::Rng>> = const { std::cell::RefCell::new(None) };
}
/// Run harness code (not an actor) with deterministic randomness
pub fn with_rand<T>(seed: u64, f: impl FnOnce() -> T) -> T {
    HARNESS_RAND.with(|r| *r.borrow_mut() = Some(crate::rng::Rng::new(seed)));
    let v = f();
    HARNESS_RAND.with(|r| *r.borrow_mut() = None);
    v
}

fn set_errno(e: c_int) {
    unsafe { *libc::__errno_location() = e }
}

/// Run one simulated call on behalf of the calling thread.
fn call<T>(f: impl FnOnce(&mut World, u32) -> Result<T, i32>) -> Result<T, i32> {
    let me = match actor() {
        NO_ACTOR => sched().as_ref().map_or(0, |s| s.current),
        a => {
            let n = world().as_ref().map_or(0, |w| w.calls + 1);
            yield_point(a, n);
            a
        }
    };
    let mut g = world();
    match &mut *g {
        Some(w) => {
            let r = f(w, me);
            if w.calls > w.max_calls.saturating_mul(2) {
                unsafe { libc::_exit(EXIT_HANG) }
            }
            r
        }
        None => Err(libc::ENXIO),
    }
}

unsafe fn sim_path<'a>(p: *const c_char) -> Option<&'a str> {
    if p.is_null() {
        return None;
    }
    let s = CStr::from_ptr(p).to_str().ok()?;
    if s == "/sim" || s.starts_with("/sim/") {
        Some(s)
    } else {
        None
    }
}
fn sim_fd(fd: c_int) -> bool {
    fd >= FD_BASE
}
macro_rules! ret {
    ($e:expr, $t:ty) => {
        match $e {
            Ok(v) => v as $t,
            Err(e) => {
                set_errno(e);
                -1 as $t
            }
        }
    };
}

unsafe fn do_open(dirfd: c_int, p: *const c_char, flags: c_int, mode: mode_t) -> c_int {
    match sim_path(p) {
        Some(s) => ret!(call(|w, a| w.open(a, s, flags, mode)), c_int),
        None => raw!(libc::SYS_openat, dirfd, p, flags, mode) as c_int,
    }
}
#[no_mangle]
pub unsafe extern "C" fn open(p: *const c_char, flags: c_int, mode: mode_t) -> c_int {
    do_open(libc::AT_FDCWD, p, flags, mode)
}
#[no_mangle]
pub unsafe extern "C" fn open64(p: *const c_char, flags: c_int, mode: mode_t) -> c_int {
    do_open(libc::AT_FDCWD, p, flags, mode)
}
#[no_mangle]
pub unsafe extern "C" fn openat(d: c_int, p: *const c_char, flags: c_int, mode: mode_t) -> c_int {
    do_open(d, p, flags, mode)
}
#[no_mangle]
pub unsafe extern "C" fn openat64(d: c_int, p: *const c_char, flags: c_int, mode: mode_t) -> c_int {
    do_open(d, p, flags, mode)
}
#[no_mangle]
pub unsafe extern "C" fn creat(p: *const c_char, mode: mode_t) -> c_int {
    do_open(libc::AT_FDCWD, p, libc::O_WRONLY | libc::O_CREAT | libc::O_TRUNC, mode)
}
#[no_mangle]
pub unsafe extern "C" fn creat64(p: *const c_char, mode: mode_t) -> c_int {
    creat(p, mode)
}
#[no_mangle]
pub unsafe extern "C" fn close(fd: c_int) -> c_int {
    if sim_fd(fd) {
        ret!(call(|w, a| w.close(a, fd)), c_int)
    } else {
        raw!(libc::SYS_close, fd) as c_int
    }
}
#[no_mangle]
pub unsafe extern "C" fn read(fd: c_int, buf: *mut c_void, n: size_t) -> ssize_t {
    if sim_fd(fd) {
        match call(|w, a| w.read(a, fd, n, None)) {
            Ok(v) => {
                std::ptr::copy_nonoverlapping(v.as_ptr(), buf as *mut u8, v.len());
                v.len() as ssize_t
            }
            Err(e) => {
                set_errno(e);
                -1
            }
        }
    } else {
        raw!(libc::SYS_read, fd, buf, n) as ssize_t
    }
}
#[no_mangle]
pub unsafe extern "C" fn pread64(fd: c_int, buf: *mut c_void, n: size_t, off: off_t) -> ssize_t {
    if sim_fd(fd) {
        match call(|w, a| w.read(a, fd, n, Some(off as u64))) {
            Ok(v) => {
                std::ptr::copy_nonoverlapping(v.as_ptr(), buf as *mut u8, v.len());
                v.len() as ssize_t
            }
            Err(e) => {
                set_errno(e);
                -1
            }
        }
    } else {
        raw!(libc::SYS_pread64, fd, buf, n, off) as ssize_t
    }
}
#[no_mangle]
pub unsafe extern "C" fn pread(fd: c_int, buf: *mut c_void, n: size_t, off: off_t) -> ssize_t {
    pread64(fd, buf, n, off)
}
#[no_mangle]
pub unsafe extern "C" fn readv(fd: c_int, iov: *const iovec, cnt: c_int) -> ssize_t {
    if sim_fd(fd) {
        let iovs = std::slice::from_raw_parts(iov, cnt as usize);
        let total: usize = iovs.iter().map(|v| v.iov_len).sum();
        match call(|w, a| w.read(a, fd, total, None)) {
            Ok(v) => {
                let mut rest = &v[..];
                for i in iovs {
                    let k = rest.len().min(i.iov_len);
                    std::ptr::copy_nonoverlapping(rest.as_ptr(), i.iov_base as *mut u8, k);
                    rest = &rest[k..];
                }
                v.len() as ssize_t
            }
            Err(e) => {
                set_errno(e);
                -1
            }
        }
    } else {
        raw!(libc::SYS_readv, fd, iov, cnt) as ssize_t
    }
}
/// Standard output and error of an actor are captured; no scheduling point (std holds its lock).
fn capture(fd: c_int, bytes: &[u8]) -> Option<ssize_t> {
    let a = actor();
    if a == NO_ACTOR || !(fd == 1 || fd == 2) {
        return None;
    }
    let mut g = world();
    match &mut *g {
        Some(w) => {
            let mut bytes = bytes;
            if fd == 1 {
                match w.out_fault(a, bytes.len()) {
                    Ok(n) => bytes = &bytes[..n],
                    Err(e) => {
                        set_errno(e);
                        return Some(-1);
                    }
                }
            }
            let m = if fd == 1 { &mut w.out } else { &mut w.err };
            let v = m.entry(a).or_default();
            if v.len() < 1 << 20 {
                v.extend_from_slice(bytes);
            }
            Some(bytes.len() as ssize_t)
        }
        None => None,
    }
}
#[no_mangle]
pub unsafe extern "C" fn write(fd: c_int, buf: *const c_void, n: size_t) -> ssize_t {
    if sim_fd(fd) {
        let b = std::slice::from_raw_parts(buf as *const u8, n);
        return ret!(call(|w, a| w.write(a, fd, b, None)), ssize_t);
    }
    if fd == 1 || fd == 2 {
        if let Some(n) = capture(fd, std::slice::from_raw_parts(buf as *const u8, n)) {
            return n;
        }
    }
    raw!(libc::SYS_write, fd, buf, n) as ssize_t
}
#[no_mangle]
pub unsafe extern "C" fn pwrite64(fd: c_int, buf: *const c_void, n: size_t, off: off_t) -> ssize_t {
    if sim_fd(fd) {
        let b = std::slice::from_raw_parts(buf as *const u8, n);
        return ret!(call(|w, a| w.write(a, fd, b, Some(off as u64))), ssize_t);
    }
    raw!(libc::SYS_pwrite64, fd, buf, n, off) as ssize_t
}
#[no_mangle]
pub unsafe extern "C" fn pwrite(fd: c_int, buf: *const c_void, n: size_t, off: off_t) -> ssize_t {
    pwrite64(fd, buf, n, off)
}
#[no_mangle]
pub unsafe extern "C" fn writev(fd: c_int, iov: *const iovec, cnt: c_int) -> ssize_t {
    let gather = || {
        let mut v = Vec::new();
        for i in std::slice::from_raw_parts(iov, cnt as usize) {
            v.extend_from_slice(std::slice::from_raw_parts(i.iov_base as *const u8, i.iov_len));
        }
        v
    };
    if sim_fd(fd) {
        let v = gather();
        return ret!(call(|w, a| w.write(a, fd, &v, None)), ssize_t);
    }
    if (fd == 1 || fd == 2) && actor() != NO_ACTOR {
        let v = gather();
        if let Some(n) = capture(fd, &v) {
            return n;
        }
    }
    raw!(libc::SYS_writev, fd, iov, cnt) as ssize_t
}
#[no_mangle]
pub unsafe extern "C" fn lseek64(fd: c_int, off: off_t, whence: c_int) -> off_t {
    if sim_fd(fd) {
        ret!(call(|w, a| w.seek(a, fd, off, whence)), off_t)
    } else {
        raw!(libc::SYS_lseek, fd, off, whence) as off_t
    }
}
#[no_mangle]
pub unsafe extern "C" fn lseek(fd: c_int, off: off_t, whence: c_int) -> off_t {
    lseek64(fd, off, whence)
}

unsafe fn fill_stat(st: *mut libc::stat64, v: (u32, u64, u64)) {
    let mut s: libc::stat64 = std::mem::zeroed();
    s.st_mode = v.0;
    s.st_size = v.1 as i64;
    s.st_ino = v.2;
    s.st_dev = 77;
    s.st_nlink = 1;
    s.st_blksize = 4096;
    s.st_blocks = (v.1 as i64 + 511) / 512;
    *st = s;
}
macro_rules! stat_ret {
    ($st:expr, $e:expr) => {
        match $e {
            Ok(v) => {
                fill_stat($st, v);
                0
            }
            Err(e) => {
                set_errno(e);
                -1
            }
        }
    };
}
#[no_mangle]
pub unsafe extern "C" fn fstat64(fd: c_int, st: *mut libc::stat64) -> c_int {
    if sim_fd(fd) {
        return stat_ret!(st, call(|w, a| w.fstat(a, fd)));
    }
    raw!(libc::SYS_fstat, fd, st) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn fstat(fd: c_int, st: *mut libc::stat64) -> c_int {
    fstat64(fd, st)
}
#[no_mangle]
pub unsafe extern "C" fn stat64(p: *const c_char, st: *mut libc::stat64) -> c_int {
    match sim_path(p) {
        Some(s) => stat_ret!(st, call(|w, a| w.stat(a, s, true))),
        None => raw!(libc::SYS_newfstatat, libc::AT_FDCWD, p, st, 0) as c_int,
    }
}
#[no_mangle]
pub unsafe extern "C" fn stat(p: *const c_char, st: *mut libc::stat64) -> c_int {
    stat64(p, st)
}
#[no_mangle]
pub unsafe extern "C" fn lstat64(p: *const c_char, st: *mut libc::stat64) -> c_int {
    match sim_path(p) {
        Some(s) => stat_ret!(st, call(|w, a| w.stat(a, s, false))),
        None => {
            raw!(libc::SYS_newfstatat, libc::AT_FDCWD, p, st, libc::AT_SYMLINK_NOFOLLOW)
                as c_int
        }
    }
}
#[no_mangle]
pub unsafe extern "C" fn lstat(p: *const c_char, st: *mut libc::stat64) -> c_int {
    lstat64(p, st)
}
#[no_mangle]
pub unsafe extern "C" fn fstatat64(d: c_int, p: *const c_char, st: *mut libc::stat64, fl: c_int) -> c_int {
    if let Some(s) = sim_path(p) {
        return stat_ret!(st, call(|w, a| w.stat(a, s, fl & libc::AT_SYMLINK_NOFOLLOW == 0)));
    }
    if sim_fd(d) {
        return stat_ret!(st, call(|w, a| w.fstat(a, d)));
    }
    raw!(libc::SYS_newfstatat, d, p, st, fl) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn statx(
    d: c_int,
    p: *const c_char,
    flags: c_int,
    mask: c_uint,
    st: *mut libc::statx,
) -> c_int {
    let r = if let Some(s) = sim_path(p) {
        call(|w, a| w.stat(a, s, flags & libc::AT_SYMLINK_NOFOLLOW == 0))
    } else if sim_fd(d) {
        call(|w, a| w.fstat(a, d))
    } else {
        return raw!(libc::SYS_statx, d, p, flags, mask, st) as c_int;
    };
    match r {
        Ok(v) => {
            let mut s: libc::statx = std::mem::zeroed();
            s.stx_mask = libc::STATX_BASIC_STATS;
            s.stx_mode = v.0 as u16;
            s.stx_size = v.1;
            s.stx_ino = v.2;
            s.stx_nlink = 1;
            s.stx_blksize = 4096;
            s.stx_blocks = v.1.div_ceil(512);
            s.stx_dev_minor = 77;
            *st = s;
            0
        }
        Err(e) => {
            set_errno(e);
            -1
        }
    }
}
#[no_mangle]
pub unsafe extern "C" fn ftruncate64(fd: c_int, n: off_t) -> c_int {
    if sim_fd(fd) {
        return ret!(call(|w, a| w.ftruncate(a, fd, n as u64)), c_int);
    }
    raw!(libc::SYS_ftruncate, fd, n) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn ftruncate(fd: c_int, n: off_t) -> c_int {
    ftruncate64(fd, n)
}
#[no_mangle]
pub unsafe extern "C" fn fsync(fd: c_int) -> c_int {
    if sim_fd(fd) {
        return ret!(call(|w, a| w.fsync(a, fd)), c_int);
    }
    raw!(libc::SYS_fsync, fd) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn fdatasync(fd: c_int) -> c_int {
    if sim_fd(fd) {
        return ret!(call(|w, a| w.fsync(a, fd)), c_int);
    }
    raw!(libc::SYS_fdatasync, fd) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn flock(fd: c_int, op: c_int) -> c_int {
    if sim_fd(fd) {
        return 0;
    }
    raw!(libc::SYS_flock, fd, op) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn rename(a: *const c_char, b: *const c_char) -> c_int {
    match (sim_path(a), sim_path(b)) {
        (Some(x), Some(y)) => ret!(call(|w, ac| w.rename(ac, x, y)), c_int),
        (None, None) => raw!(libc::SYS_rename, a, b) as c_int,
        _ => {
            set_errno(libc::EXDEV);
            -1
        }
    }
}
#[no_mangle]
pub unsafe extern "C" fn renameat(d: c_int, a: *const c_char, e: c_int, b: *const c_char) -> c_int {
    match (sim_path(a), sim_path(b)) {
        (None, None) => raw!(libc::SYS_renameat, d, a, e, b) as c_int,
        _ => rename(a, b),
    }
}
#[no_mangle]
pub unsafe extern "C" fn renameat2(d: c_int, a: *const c_char, e: c_int, b: *const c_char, fl: c_uint) -> c_int {
    match (sim_path(a), sim_path(b)) {
        (None, None) => raw!(libc::SYS_renameat2, d, a, e, b, fl) as c_int,
        _ if fl == 0 => rename(a, b),
        _ => {
            set_errno(libc::EINVAL);
            -1
        }
    }
}
#[no_mangle]
pub unsafe extern "C" fn unlink(p: *const c_char) -> c_int {
    match sim_path(p) {
        Some(s) => ret!(call(|w, a| w.unlink(a, s)), c_int),
        None => raw!(libc::SYS_unlink, p) as c_int,
    }
}
#[no_mangle]
pub unsafe extern "C" fn unlinkat(d: c_int, p: *const c_char, fl: c_int) -> c_int {
    match sim_path(p) {
        Some(s) => ret!(call(|w, a| w.unlink(a, s)), c_int),
        None => raw!(libc::SYS_unlinkat, d, p, fl) as c_int,
    }
}
#[no_mangle]
pub unsafe extern "C" fn link(a: *const c_char, b: *const c_char) -> c_int {
    match (sim_path(a), sim_path(b)) {
        (Some(x), Some(y)) => ret!(call(|w, ac| w.link(ac, x, y)), c_int),
        (None, None) => raw!(libc::SYS_link, a, b) as c_int,
        _ => {
            set_errno(libc::EXDEV);
            -1
        }
    }
}
#[no_mangle]
pub unsafe extern "C" fn linkat(d: c_int, a: *const c_char, e: c_int, b: *const c_char, fl: c_int) -> c_int {
    match (sim_path(a), sim_path(b)) {
        (None, None) => raw!(libc::SYS_linkat, d, a, e, b, fl) as c_int,
        _ => link(a, b),
    }
}
#[no_mangle]
pub unsafe extern "C" fn mkdir(p: *const c_char, mode: mode_t) -> c_int {
    match sim_path(p) {
        Some(s) => ret!(call(|w, a| w.mkdir(a, s)), c_int),
        None => raw!(libc::SYS_mkdir, p, mode) as c_int,
    }
}
#[no_mangle]
pub unsafe extern "C" fn chmod(p: *const c_char, mode: mode_t) -> c_int {
    match sim_path(p) {
        Some(s) => ret!(call(|w, a| w.chmod(a, s, mode)), c_int),
        None => raw!(libc::SYS_chmod, p, mode) as c_int,
    }
}
#[no_mangle]
pub unsafe extern "C" fn fchmod(fd: c_int, mode: mode_t) -> c_int {
    if sim_fd(fd) {
        return ret!(call(|w, a| w.fchmod(a, fd, mode)), c_int);
    }
    raw!(libc::SYS_fchmod, fd, mode) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn fchmodat(d: c_int, p: *const c_char, mode: mode_t, fl: c_int) -> c_int {
    match sim_path(p) {
        Some(s) => ret!(call(|w, a| w.chmod(a, s, mode)), c_int),
        None => raw!(libc::SYS_fchmodat, d, p, mode, fl) as c_int,
    }
}
#[no_mangle]
pub unsafe extern "C" fn access(p: *const c_char, mode: c_int) -> c_int {
    match sim_path(p) {
        Some(s) => ret!(call(|w, a| w.stat(a, s, true).map(|_| 0)), c_int),
        None => raw!(libc::SYS_access, p, mode) as c_int,
    }
}
#[no_mangle]
pub unsafe extern "C" fn realpath(p: *const c_char, out: *mut c_char) -> *mut c_char {
    match sim_path(p) {
        Some(s) => match call(|w, a| w.realpath(a, s)) {
            Ok(q) => {
                let dst = if out.is_null() { libc::malloc(4096) as *mut c_char } else { out };
                std::ptr::copy_nonoverlapping(q.as_ptr(), dst as *mut u8, q.len());
                *dst.add(q.len()) = 0;
                dst
            }
            Err(e) => {
                set_errno(e);
                std::ptr::null_mut()
            }
        },
        None => {
            // good enough for the harness: the kernel resolves it
            let fd = raw!(libc::SYS_openat, libc::AT_FDCWD, p, libc::O_PATH | libc::O_CLOEXEC, 0);
            if fd < 0 {
                return std::ptr::null_mut();
            }
            let link = format!("/proc/self/fd/{fd}\0");
            let dst = if out.is_null() { libc::malloc(4096) as *mut c_char } else { out };
            let n = raw!(libc::SYS_readlink, link.as_ptr(), dst, 4095);
            raw!(libc::SYS_close, fd);
            if n < 0 {
                return std::ptr::null_mut();
            }
            *dst.add(n as usize) = 0;
            dst
        }
    }
}
#[no_mangle]
pub unsafe extern "C" fn readlink(p: *const c_char, buf: *mut c_char, n: size_t) -> ssize_t {
    match sim_path(p) {
        Some(s) => match call(|w, a| w.readlink(a, s)) {
            Ok(t) => {
                let k = t.len().min(n);
                std::ptr::copy_nonoverlapping(t.as_ptr(), buf as *mut u8, k);
                k as ssize_t
            }
            Err(e) => {
                set_errno(e);
                -1
            }
        },
        None => raw!(libc::SYS_readlink, p, buf, n) as ssize_t,
    }
}
#[no_mangle]
pub unsafe extern "C" fn fcntl(fd: c_int, cmd: c_int, arg: c_long) -> c_int {
    if sim_fd(fd) {
        return match cmd {
            libc::F_DUPFD | libc::F_DUPFD_CLOEXEC => ret!(call(|w, a| w.dup(a, fd)), c_int),
            libc::F_GETFD | libc::F_GETFL | libc::F_SETFD | libc::F_SETFL => 0,
            _ => {
                set_errno(libc::EINVAL);
                -1
            }
        };
    }
    raw!(libc::SYS_fcntl, fd, cmd, arg) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn fcntl64(fd: c_int, cmd: c_int, arg: c_long) -> c_int {
    fcntl(fd, cmd, arg)
}
#[no_mangle]
pub unsafe extern "C" fn copy_file_range(
    i: c_int,
    oi: *mut i64,
    o: c_int,
    oo: *mut i64,
    n: size_t,
    fl: c_uint,
) -> ssize_t {
    if sim_fd(i) || sim_fd(o) {
        set_errno(libc::EXDEV);
        return -1;
    }
    raw!(libc::SYS_copy_file_range, i, oi, o, oo, n, fl) as ssize_t
}
#[no_mangle]
pub unsafe extern "C" fn sendfile64(o: c_int, i: c_int, off: *mut i64, n: size_t) -> ssize_t {
    if sim_fd(i) || sim_fd(o) {
        set_errno(libc::EINVAL);
        return -1;
    }
    raw!(libc::SYS_sendfile, o, i, off, n) as ssize_t
}
#[no_mangle]
pub unsafe extern "C" fn sendfile(o: c_int, i: c_int, off: *mut i64, n: size_t) -> ssize_t {
    sendfile64(o, i, off, n)
}
#[no_mangle]
pub unsafe extern "C" fn splice(i: c_int, oi: *mut i64, o: c_int, oo: *mut i64, n: size_t, fl: c_uint) -> ssize_t {
    if sim_fd(i) || sim_fd(o) {
        set_errno(libc::EINVAL);
        return -1;
    }
    raw!(libc::SYS_splice, i, oi, o, oo, n, fl) as ssize_t
}
#[no_mangle]
pub unsafe extern "C" fn clock_gettime(id: c_int, ts: *mut timespec) -> c_int {
    let a = actor();
    if a != NO_ACTOR {
        if let Some(w) = &mut *world() {
            let ns: i128 = if id == libc::CLOCK_REALTIME || id == libc::CLOCK_REALTIME_COARSE {
                w.now(a)
            } else {
                w.elapsed as i128
            };
            (*ts).tv_sec = ns.div_euclid(1_000_000_000) as i64;
            (*ts).tv_nsec = ns.rem_euclid(1_000_000_000) as i64;
            return 0;
        }
    }
    raw!(libc::SYS_clock_gettime, id, ts) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn gettimeofday(tv: *mut libc::timeval, tz: *mut c_void) -> c_int {
    if actor() != NO_ACTOR {
        let mut ts: timespec = std::mem::zeroed();
        clock_gettime(libc::CLOCK_REALTIME, &mut ts);
        (*tv).tv_sec = ts.tv_sec;
        (*tv).tv_usec = ts.tv_nsec / 1000;
        return 0;
    }
    raw!(libc::SYS_gettimeofday, tv, tz) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn time(out: *mut i64) -> i64 {
    let mut ts: timespec = std::mem::zeroed();
    clock_gettime(libc::CLOCK_REALTIME, &mut ts);
    if !out.is_null() {
        *out = ts.tv_sec;
    }
    ts.tv_sec
}
#[no_mangle]
pub unsafe extern "C" fn getrandom(buf: *mut c_void, n: size_t, fl: c_uint) -> ssize_t {
    if actor() != NO_ACTOR {
        if let Some(w) = &mut *world() {
            if let Some(r) = &mut w.rand {
                let b = std::slice::from_raw_parts_mut(buf as *mut u8, n);
                r.fill(b);
                return n as ssize_t;
            }
        }
    }
    let done = HARNESS_RAND.try_with(|h| match h.try_borrow_mut() {
        Ok(mut g) => match &mut *g {
            Some(r) => {
                r.fill(std::slice::from_raw_parts_mut(buf as *mut u8, n));
                true
            }
            None => false,
        },
        Err(_) => false,
    });
    if done == Ok(true) {
        return n as ssize_t;
    }
    raw!(libc::SYS_getrandom, buf, n, fl) as ssize_t
}
#[no_mangle]
pub unsafe extern "C" fn getpid() -> c_int {
    let a = actor();
    if a != NO_ACTOR {
        if let Some(w) = &*world() {
            return (w.pid_base + a) as c_int;
        }
    }
    raw!(libc::SYS_getpid) as c_int
}
