//! Counting, poisoning global allocator. Counters are process wide; workers that use them are
//! single threaded.
use std::alloc::{GlobalAlloc, Layout, System};
use std::sync::atomic::{AtomicBool, AtomicI64, AtomicU64, Ordering::Relaxed};

pub struct Counting;

static ALLOCS: AtomicU64 = AtomicU64::new(0);
static DEALLOCS: AtomicU64 = AtomicU64::new(0);
static LIVE: AtomicI64 = AtomicI64::new(0);
static PEAK: AtomicI64 = AtomicI64::new(0);
static MAXREQ: AtomicU64 = AtomicU64::new(0);
/// requests above this fail (null), so that a runaway allocation ends the process quickly
static LIMIT: AtomicU64 = AtomicU64::new(3 << 30);
static LAYOUT_BAD: AtomicBool = AtomicBool::new(false);

fn on_alloc(n: usize) {
    ALLOCS.fetch_add(1, Relaxed);
    let l = LIVE.fetch_add(n as i64, Relaxed) + n as i64;
    PEAK.fetch_max(l, Relaxed);
    MAXREQ.fetch_max(n as u64, Relaxed);
}
fn on_free(n: usize) {
    DEALLOCS.fetch_add(1, Relaxed);
    LIVE.fetch_sub(n as i64, Relaxed);
}
fn too_big(n: usize) -> bool {
    n as u64 > LIMIT.load(Relaxed) || LIVE.load(Relaxed) + n as i64 > (6i64 << 30)
}

const POISON: bool = cfg!(not(any(miri, vcmon_san)));

unsafe impl GlobalAlloc for Counting {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        if too_big(l.size()) {
            MAXREQ.fetch_max(l.size() as u64, Relaxed);
            return std::ptr::null_mut();
        }
        let p = System.alloc(l);
        if !p.is_null() {
            on_alloc(l.size());
            if POISON && l.size() <= 4096 {
                std::ptr::write_bytes(p, 0xA5, l.size());
            }
        }
        p
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        if too_big(l.size()) {
            MAXREQ.fetch_max(l.size() as u64, Relaxed);
            return std::ptr::null_mut();
        }
        let p = System.alloc_zeroed(l);
        if !p.is_null() {
            on_alloc(l.size());
        }
        p
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        on_free(l.size());
        if POISON && l.size() <= 4096 {
            std::ptr::write_bytes(p, 0xDB, l.size());
        }
        System.dealloc(p, l)
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        if too_big(n) {
            MAXREQ.fetch_max(n as u64, Relaxed);
            return std::ptr::null_mut();
        }
        let q = System.realloc(p, l, n);
        if !q.is_null() {
            on_free(l.size());
            on_alloc(n);
        }
        q
    }
}

#[global_allocator]
static GLOBAL: Counting = Counting;

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub struct Snap {
    pub allocs: u64,
    pub live: i64,
}
pub fn snap() -> Snap {
    Snap {
        allocs: ALLOCS.load(Relaxed),
        live: LIVE.load(Relaxed),
    }
}
/// number of allocations (including reallocations) performed by f
pub fn count_allocs<R>(f: impl FnOnce() -> R) -> (R, u64) {
    let a = ALLOCS.load(Relaxed);
    let r = f();
    let b = ALLOCS.load(Relaxed);
    (r, b - a)
}
/// (result, peak live bytes above the start, biggest single request)
pub fn peak<R>(f: impl FnOnce() -> R) -> (R, i64, u64) {
    let start = LIVE.load(Relaxed);
    PEAK.store(start, Relaxed);
    MAXREQ.store(0, Relaxed);
    let r = f();
    (r, PEAK.load(Relaxed) - start, MAXREQ.load(Relaxed))
}
pub fn set_limit(n: u64) {
    LIMIT.store(n, Relaxed);
}
pub fn layout_bad() -> bool {
    LAYOUT_BAD.load(Relaxed)
}
