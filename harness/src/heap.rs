//! Counts what the process requests from the heap, while switched on.
use std::alloc::{GlobalAlloc, Layout, System};
use std::sync::atomic::{AtomicBool, AtomicI64, AtomicU64, Ordering::Relaxed};

pub struct Counting;
static ON: AtomicBool = AtomicBool::new(false);
static LIVE: AtomicI64 = AtomicI64::new(0);
static PEAK: AtomicI64 = AtomicI64::new(0);
static TOTAL: AtomicU64 = AtomicU64::new(0);
static CALLS: AtomicU64 = AtomicU64::new(0);

fn plus(n: usize) {
    let l = LIVE.fetch_add(n as i64, Relaxed) + n as i64;
    PEAK.fetch_max(l, Relaxed);
    TOTAL.fetch_add(n as u64, Relaxed);
    CALLS.fetch_add(1, Relaxed);
}
unsafe impl GlobalAlloc for Counting {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        if ON.load(Relaxed) {
            plus(l.size());
        }
        System.alloc(l)
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        if ON.load(Relaxed) {
            plus(l.size());
        }
        System.alloc_zeroed(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        if ON.load(Relaxed) {
            LIVE.fetch_sub(l.size() as i64, Relaxed);
        }
        System.dealloc(p, l)
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        if ON.load(Relaxed) {
            LIVE.fetch_sub(l.size() as i64, Relaxed);
            plus(n);
        }
        System.realloc(p, l, n)
    }
}
/// Switched on once, before anything else, by the checks that use it.
pub fn on() {
    ON.store(true, Relaxed);
}
pub fn live() -> i64 {
    LIVE.load(Relaxed)
}
#[derive(Clone, Copy, Debug, Default)]
pub struct Usage {
    /// most bytes held at one time, beyond those held at the start
    pub peak: i64,
    pub total: u64,
    pub calls: u64,
    /// seconds of processor time, of all threads
    pub cpu: f64,
}
extern "C" {
    fn clock_gettime(id: i32, ts: *mut [i64; 2]) -> i32;
}
fn cpu() -> f64 {
    let mut t = [0i64; 2];
    // CLOCK_PROCESS_CPUTIME_ID
    match unsafe { clock_gettime(2, &mut t) } {
        0 => t[0] as f64 + t[1] as f64 / 1e9,
        _ => 0.0,
    }
}
pub fn measure<T>(f: impl FnOnce() -> T) -> (T, Usage) {
    let (l, t, c) = (LIVE.load(Relaxed), TOTAL.load(Relaxed), CALLS.load(Relaxed));
    PEAK.store(l, Relaxed);
    let t0 = cpu();
    let r = f();
    let cpu = cpu() - t0;
    let u = Usage { cpu, peak: PEAK.load(Relaxed) - l, total: TOTAL.load(Relaxed) - t, calls: CALLS.load(Relaxed) - c };
    (r, u)
}
