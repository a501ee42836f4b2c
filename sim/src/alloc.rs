//! Counting allocator: bounds what the code under test may allocate.
use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::Cell;
use std::sync::atomic::{AtomicIsize, Ordering::Relaxed};

pub struct Counting;

static LIVE: AtomicIsize = AtomicIsize::new(0);
static PEAK: AtomicIsize = AtomicIsize::new(0);
/// Hard limit on live bytes; above it the process reports and exits.
static LIMIT: AtomicIsize = AtomicIsize::new(isize::MAX);

/// Exit status that tells the parent "memory limit exceeded".
pub const EXIT_MEM: i32 = 77;

thread_local! {
    static OUTSIDE: Cell<u32> = const { Cell::new(0) };
}
/// Memory of the simulator itself is not counted.
pub fn outside(enter: bool) {
    let _ = OUTSIDE.try_with(|c| c.set(if enter { c.get() + 1 } else { c.get().saturating_sub(1) }));
}
fn counted() -> bool {
    OUTSIDE.try_with(|c| c.get() == 0).unwrap_or(true)
}

fn sub(n: usize) {
    if counted() {
        LIVE.fetch_sub(n as isize, Relaxed);
    }
}
fn add(n: usize) {
    if !counted() {
        return;
    }
    let n = n as isize;
    let now = LIVE.fetch_add(n, Relaxed).wrapping_add(n);
    if now > PEAK.load(Relaxed) {
        PEAK.store(now, Relaxed);
        if now > LIMIT.load(Relaxed) {
            LIMIT.store(isize::MAX, Relaxed);
            unsafe { libc::_exit(EXIT_MEM) };
        }
    }
}

unsafe impl GlobalAlloc for Counting {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        add(l.size());
        System.alloc(l)
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        add(l.size());
        System.alloc_zeroed(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        sub(l.size());
        System.dealloc(p, l)
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        if n > l.size() {
            add(n - l.size());
        } else {
            sub(l.size() - n);
        }
        System.realloc(p, l, n)
    }
}

pub fn live() -> isize {
    LIVE.load(Relaxed)
}
/// Start a measurement: peak := live; anything above live + budget ends the process.
pub fn arm(budget: usize) -> isize {
    let l = live();
    PEAK.store(l, Relaxed);
    LIMIT.store(l.saturating_add(budget as isize), Relaxed);
    l
}
pub fn disarm() {
    LIMIT.store(isize::MAX, Relaxed);
}
pub fn peak() -> isize {
    PEAK.load(Relaxed)
}
