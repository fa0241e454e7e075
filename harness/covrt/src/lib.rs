//! Run-time callbacks for LLVM's SanitizerCoverage. This crate itself is never instrumented (see
//! rustc-wrap.sh). It provides: a per-thread count of executed edges with a limit (so that an
//! endless loop ends the process in a way that depends only on the input), an edge map (used to keep
//! inputs that reach new code) and the constants that instrumented code compares with (used as a
//! dictionary by generators).
pub mod sched;
pub mod token;

use std::cell::Cell;
use std::sync::atomic::{AtomicU32, AtomicU64, AtomicU8, AtomicUsize, Ordering::Relaxed};

pub const EXIT_STEPS: i32 = 77;
pub const MAP: usize = 1 << 18;

thread_local! {
    static STEPS: Cell<u64> = const { Cell::new(0) };
    static RECORD: Cell<bool> = const { Cell::new(false) };
}
static LIMIT: AtomicU64 = AtomicU64::new(u64::MAX);
static EDGES: AtomicU32 = AtomicU32::new(0);
#[allow(clippy::declare_interior_mutable_const)]
const Z8: AtomicU8 = AtomicU8::new(0);
static HITS: [AtomicU8; MAP] = [Z8; MAP];
static SEEN: [AtomicU8; MAP] = [Z8; MAP];
const DICT: usize = 512;
#[allow(clippy::declare_interior_mutable_const)]
const Z64: AtomicU64 = AtomicU64::new(0);
static CONSTS: [AtomicU64; DICT] = [Z64; DICT];
static TOUCHED: [AtomicU32; 1 << 16] = {
    #[allow(clippy::declare_interior_mutable_const)]
    const Z: AtomicU32 = AtomicU32::new(0);
    [Z; 1 << 16]
};
static NTOUCHED: AtomicUsize = AtomicUsize::new(0);

#[no_mangle]
pub unsafe extern "C" fn __sanitizer_cov_trace_pc_guard_init(start: *mut u32, stop: *mut u32) {
    if start == stop || *start != 0 {
        return;
    }
    let mut p = start;
    while p < stop {
        let n = EDGES.fetch_add(1, Relaxed) + 1;
        *p = n % (MAP as u32);
        p = p.add(1);
    }
}

#[no_mangle]
pub unsafe extern "C" fn __sanitizer_cov_trace_pc_guard(guard: *mut u32) {
    let s = STEPS.with(|s| {
        let n = s.get() + 1;
        s.set(n);
        n
    });
    if s > LIMIT.load(Relaxed) {
        libc::_exit(EXIT_STEPS);
    }
    let g = *guard as usize;
    sched::edge(g);
    token::edge();
    if HITS[g].load(Relaxed) == 0 {
        if !RECORD.with(|r| r.get()) {
            return;
        }
        HITS[g].store(1, Relaxed);
        let i = NTOUCHED.fetch_add(1, Relaxed);
        if i < TOUCHED.len() {
            TOUCHED[i].store(g as u32, Relaxed);
        }
    }
}

fn note(c: u64) {
    if c < 2 || !RECORD.with(|r| r.get()) {
        return;
    }
    let h = (c.wrapping_mul(0x9E37_79B9_7F4A_7C15) >> 55) as usize;
    for i in 0..4 {
        let slot = &CONSTS[(h + i) % DICT];
        let v = slot.load(Relaxed);
        if v == c {
            return;
        }
        if v == 0 {
            slot.store(c, Relaxed);
            return;
        }
    }
}

macro_rules! cmps {
    ($($f:ident $c:ident $t:ty),*) => { $(
        #[no_mangle] pub extern "C" fn $f(_a: $t, _b: $t) {}
        #[no_mangle] pub extern "C" fn $c(a: $t, _b: $t) { note(a as u64) }
    )* };
}
cmps!(
    __sanitizer_cov_trace_cmp1 __sanitizer_cov_trace_const_cmp1 u8,
    __sanitizer_cov_trace_cmp2 __sanitizer_cov_trace_const_cmp2 u16,
    __sanitizer_cov_trace_cmp4 __sanitizer_cov_trace_const_cmp4 u32,
    __sanitizer_cov_trace_cmp8 __sanitizer_cov_trace_const_cmp8 u64
);
#[no_mangle]
pub unsafe extern "C" fn __sanitizer_cov_trace_switch(_v: u64, cases: *const u64) {
    let n = *cases as usize;
    for i in 0..n.min(64) {
        note(*cases.add(2 + i));
    }
}

/// Executed edges of this thread since the last reset.
pub fn steps() -> u64 {
    STEPS.with(|s| s.get())
}
pub fn reset_steps() {
    STEPS.with(|s| s.set(0));
}
pub fn set_limit(l: u64) {
    LIMIT.store(l, Relaxed);
}
/// Starts recording edges and constants for one case on this thread.
pub fn start() {
    let n = NTOUCHED.swap(0, Relaxed).min(TOUCHED.len());
    for i in 0..n {
        HITS[TOUCHED[i].load(Relaxed) as usize].store(0, Relaxed);
    }
    RECORD.with(|r| r.set(true));
}
pub(crate) fn record_here() {
    RECORD.with(|r| r.set(true));
}
pub fn stop() {
    RECORD.with(|r| r.set(false));
}
/// Number of edges of the last case that no earlier case had reached; marks them as reached.
pub fn new_edges() -> usize {
    let n = NTOUCHED.load(Relaxed).min(TOUCHED.len());
    let mut new = 0;
    for i in 0..n {
        let g = TOUCHED[i].load(Relaxed) as usize;
        if SEEN[g].load(Relaxed) == 0 {
            SEEN[g].store(1, Relaxed);
            new += 1;
        }
    }
    new
}
pub fn instrumented() -> bool {
    EDGES.load(Relaxed) > 0
}
pub fn edges_total() -> u32 {
    EDGES.load(Relaxed)
}
pub fn constants() -> Vec<u64> {
    CONSTS.iter().map(|c| c.load(Relaxed)).filter(|c| *c != 0).collect()
}
