//! One command run as a whole process: the program's own `main`, argument parsing and exit status
//! included. The child is a fork of the simulator; its simulated machine is merged back.
use crate::actor::{self, Out};
use crate::exec::Done;
use crate::scenario::{Op, Scenario};
use crate::sys;
use crate::world::{Call, Node};
use serde::{Deserialize, Serialize};
use std::collections::BTreeMap;
use std::ffi::CString;
use std::os::fd::{AsRawFd, FromRawFd, OwnedFd};
use std::sync::atomic::{AtomicI32, AtomicPtr, Ordering::SeqCst};

static ARGC: AtomicI32 = AtomicI32::new(0);
static ARGV: AtomicPtr<*const libc::c_char> = AtomicPtr::new(std::ptr::null_mut());
/// descriptor of the report, in the child only
static REPORT: AtomicI32 = AtomicI32::new(-1);

extern "C" fn init(argc: i32, argv: *mut *const libc::c_char, _env: *mut *const libc::c_char) {
    ARGC.store(argc, SeqCst);
    ARGV.store(argv, SeqCst);
}
#[used]
#[link_section = ".init_array.00098"]
static INIT: extern "C" fn(i32, *mut *const libc::c_char, *mut *const libc::c_char) = init;

/// How many arguments the process can be given
pub fn room() -> usize {
    ARGC.load(SeqCst) as usize
}

#[derive(Serialize, Deserialize, Default)]
struct Back {
    code: i32,
    panicked: bool,
    files: Vec<(String, u32, usize)>,
    gone: Vec<String>,
    calls: u64,
    hard: u64,
    hard_by_actor: BTreeMap<u32, u64>,
    clock_reads: Vec<(u32, i64, u32)>,
    clock: (i64, u32),
    elapsed: u64,
    events_fired: u64,
    runaway: bool,
    fired: BTreeMap<String, u64>,
    per_class: BTreeMap<Call, u64>,
    trace_hash: u64,
    trace: Option<Vec<String>>,
    out: Vec<u8>,
    err: Vec<u8>,
}

static BEFORE: std::sync::Mutex<BTreeMap<String, usize>> = std::sync::Mutex::new(BTreeMap::new());

/// The C library's exit, as the program reaches it
#[no_mangle]
pub unsafe extern "C" fn exit(code: libc::c_int) -> ! {
    let fd = REPORT.load(SeqCst);
    if fd >= 0 {
        report(fd, code, false);
    }
    if fd < 0 {
        libc::fflush(std::ptr::null_mut());
    }
    libc::_exit(code)
}

fn report(fd: i32, code: i32, panicked: bool) {
    sys::set_actor(sys::NO_ACTOR);
    let mut g = sys::world();
    let Some(w) = g.as_mut() else { return };
    let before = BEFORE.lock().unwrap_or_else(|e| e.into_inner());
    let mut b = Back { code, panicked, ..Default::default() };
    let mut blobs: Vec<u8> = vec![];
    for (p, n) in &w.names {
        if let Node::File(i) = n {
            let ino = &w.inodes[*i];
            let id = std::sync::Arc::as_ptr(&ino.data) as usize;
            if before.get(p) != Some(&id) {
                b.files.push((p.clone(), ino.mode, ino.data.len()));
                blobs.extend(ino.data.iter());
            }
        }
    }
    b.gone = before.keys().filter(|p| !w.names.contains_key(*p)).cloned().collect();
    b.calls = w.calls;
    b.hard = w.hard;
    b.hard_by_actor = w.hard_by_actor.clone();
    let split = |t: i128| (t.div_euclid(1_000_000_000) as i64, t.rem_euclid(1_000_000_000) as u32);
    b.clock_reads = w.clock_reads.iter().map(|(a, t)| (*a, split(*t).0, split(*t).1)).collect();
    b.clock = split(w.clock);
    b.elapsed = w.elapsed as u64;
    b.events_fired = w.events_fired;
    b.runaway = w.runaway;
    b.fired = w.fired.clone();
    b.per_class = w.per_class.clone();
    b.trace_hash = w.trace_hash;
    b.trace = w.trace.clone();
    b.out = w.out.get(&0).cloned().unwrap_or_default();
    b.err = w.err.get(&0).cloned().unwrap_or_default();
    let head = serde_json::to_vec(&b).unwrap_or_default();
    let mut all = (head.len() as u64).to_le_bytes().to_vec();
    all.extend(head);
    all.extend(blobs);
    let mut off = 0;
    while off < all.len() {
        let n = unsafe { libc::pwrite(fd, all[off..].as_ptr() as *const _, all.len() - off, off as i64) };
        if n <= 0 {
            break;
        }
        off += n as usize;
    }
}

pub fn run(sc: &Scenario, op: &Op) -> (Done, Option<i32>) {
    let Some(args) = actor::argv(sc, op) else { return (Done::Res(Err("not a command".into())), None) };
    if args.len() + 1 > room() {
        return (Done::Res(Err("harness: no room for the arguments".into())), None);
    }
    let fd = unsafe { libc::memfd_create(c"report".as_ptr(), 0) };
    if fd < 0 {
        return (Done::Res(Err("harness: no memfd".into())), None);
    }
    let fd = unsafe { OwnedFd::from_raw_fd(fd) };
    let total;
    {
        let mut g = sys::world();
        let w = g.as_mut().expect("world");
        total = w.total_bytes();
        let mut b = BEFORE.lock().unwrap_or_else(|e| e.into_inner());
        b.clear();
        for (p, n) in &w.names {
            if let Node::File(i) = n {
                b.insert(p.clone(), std::sync::Arc::as_ptr(&w.inodes[*i].data) as usize);
            }
        }
    }
    let pid = unsafe { libc::fork() };
    if pid < 0 {
        return (Done::Res(Err("harness: fork".into())), None);
    }
    if pid == 0 {
        REPORT.store(fd.as_raw_fd(), SeqCst);
        let argv = ARGV.load(SeqCst);
        let n = args.len();
        for (i, a) in args.into_iter().enumerate() {
            let c = CString::new(a).unwrap_or_default();
            unsafe { *argv.add(i) = c.into_raw() };
        }
        unsafe { *argv.add(n) = std::ptr::null() };
        sys::set_actor(0);
        crate::alloc::arm((96 << 20) + 16 * total);
        let r = std::panic::catch_unwind(|| {
            use std::io::Write;
            let r = crate::app::run();
            let _ = std::io::stdout().flush();
            r
        });
        let code = match r {
            Ok(c) if c == std::process::ExitCode::SUCCESS => 0,
            Ok(_) => 1,
            Err(_) => 101,
        };
        crate::alloc::disarm();
        if code == 101 {
            let m = crate::exec::take_panic(0);
            if let Some(w) = sys::world().as_mut() {
                w.err.insert(0, m.into_bytes());
            }
        }
        report(fd.as_raw_fd(), code, code == 101);
        unsafe { libc::_exit(code) }
    }
    let mut st = 0;
    unsafe { libc::waitpid(pid, &mut st, 0) };
    let status = if libc::WIFEXITED(st) { libc::WEXITSTATUS(st) } else { 128 + libc::WTERMSIG(st) };
    let len = unsafe { libc::lseek(fd.as_raw_fd(), 0, libc::SEEK_END) }.max(0) as usize;
    let mut all = vec![0u8; len];
    let mut off = 0;
    while off < len {
        let n = unsafe { libc::pread(fd.as_raw_fd(), all[off..].as_mut_ptr() as *mut _, len - off, off as i64) };
        if n <= 0 {
            break;
        }
        off += n as usize;
    }
    let k = all.get(..8).map(|b| u64::from_le_bytes(b.try_into().unwrap_or_default()) as usize).unwrap_or(0);
    let back: Option<Back> = all.get(8..8 + k).and_then(|b| serde_json::from_slice(b).ok());
    let Some(b) = back else {
        // it died without a report: allocation limit, runaway or a crash. Same verdict as in a thread
        unsafe { libc::_exit(if status == 0 { 99 } else { status }) }
    };
    let mut g = sys::world();
    let w = g.as_mut().expect("world");
    let mut at = 8 + k;
    for (p, mode, n) in &b.files {
        w.put(p, all[at..at + n].to_vec());
        w.set_mode(p, mode & 0o7777);
        at += n;
    }
    for p in &b.gone {
        w.remove(p);
    }
    w.calls = b.calls;
    w.hard = b.hard;
    w.hard_by_actor = b.hard_by_actor;
    w.clock_reads = b.clock_reads.iter().map(|(a, s, n)| (*a, *s as i128 * 1_000_000_000 + *n as i128)).collect();
    w.clock = b.clock.0 as i128 * 1_000_000_000 + b.clock.1 as i128;
    w.elapsed = b.elapsed as u128;
    w.events_fired = b.events_fired;
    w.runaway = b.runaway;
    w.fired = b.fired;
    w.per_class = b.per_class;
    w.trace_hash = b.trace_hash;
    w.trace = b.trace;
    w.out.insert(0, b.out);
    let errs = String::from_utf8_lossy(&b.err).to_string();
    w.err.insert(0, b.err);
    let done = if b.panicked {
        Done::Panic(errs)
    } else if b.code == 0 {
        match op {
            Op::Verify { .. } => Done::Res(Ok(Out::Verify { valid: true, v2: None, stamp: None, why: String::new() })),
            _ => Done::Res(Ok(Out::Unit)),
        }
    } else {
        Done::Res(Err(errs))
    };
    (done, Some(b.code))
}
