//! Serialised threads. Between `start` and the end of its body exactly one of the registered threads runs at a
//! time, and which one is decided at basic-block boundaries by a given list of segments. A thread that cannot
//! go on (it waits for one that is not scheduled) loses its turn after a while, so that no schedule can
//! dead-lock correct code.
use std::cell::Cell;
use std::sync::atomic::{AtomicBool, AtomicU64, AtomicUsize, Ordering::SeqCst};
use std::sync::{Condvar, Mutex, MutexGuard};
use std::time::Duration;

struct State {
    plan: Vec<(usize, u64)>,
    at: usize,
    present: Vec<bool>,
    done: Vec<bool>,
    quantum: u64,
    stolen: u64,
    switches: u64,
}
static STATE: Mutex<State> = Mutex::new(State {
    plan: Vec::new(),
    at: 0,
    present: Vec::new(),
    done: Vec::new(),
    quantum: 64,
    stolen: 0,
    switches: 0,
});
static CV: Condvar = Condvar::new();
static CURRENT: AtomicUsize = AtomicUsize::new(usize::MAX);
static TURN: AtomicU64 = AtomicU64::new(0);
static PROGRESS: AtomicU64 = AtomicU64::new(0);
pub(crate) static ON: AtomicBool = AtomicBool::new(false);

thread_local! {
    static ME: Cell<usize> = const { Cell::new(usize::MAX) };
    static LEFT: Cell<u64> = const { Cell::new(0) };
    static HELD: Cell<u64> = const { Cell::new(u64::MAX) };
}
fn lock() -> MutexGuard<'static, State> {
    STATE.lock().unwrap_or_else(|e| e.into_inner())
}

/// A new schedule for n threads. Segments name a thread and a number of basic blocks.
pub fn start(n: usize, plan: Vec<(usize, u64)>, quantum: u64) {
    let mut s = lock();
    s.plan = plan;
    s.at = 0;
    s.present = vec![false; n];
    s.done = vec![false; n];
    s.quantum = quantum.max(1);
    s.stolen = 0;
    s.switches = 0;
    CURRENT.store(usize::MAX, SeqCst);
    TURN.fetch_add(1, SeqCst);
    ON.store(true, SeqCst);
}
/// (turns taken from a thread that did not get on, changes of thread)
pub fn stop() -> (u64, u64) {
    ON.store(false, SeqCst);
    let s = lock();
    (s.stolen, s.switches)
}
/// The calling thread is thread i; returns when it is its turn.
pub fn enter(i: usize) {
    let mut s = lock();
    s.present[i] = true;
    if s.present.iter().all(|p| *p) {
        next(&mut s, usize::MAX);
    }
    wait(s, i);
    ME.with(|m| m.set(i));
}
/// The calling thread has nothing more to do under control.
pub fn leave() {
    let i = ME.with(|m| m.replace(usize::MAX));
    if i == usize::MAX {
        return;
    }
    let mut s = lock();
    s.done[i] = true;
    if CURRENT.load(SeqCst) == i {
        next(&mut s, i);
    }
}
fn grant(s: &mut State, t: usize, n: u64) {
    s.switches += 1;
    CURRENT.store(t, SeqCst);
    PROGRESS.store(n, SeqCst); // the holder's budget, taken when it starts
    TURN.fetch_add(1, SeqCst);
    CV.notify_all();
}
fn next(s: &mut State, from: usize) {
    while s.at < s.plan.len() {
        let (t, n) = s.plan[s.at];
        s.at += 1;
        let t = t % s.done.len();
        if !s.done[t] && n > 0 {
            grant(s, t, n);
            return;
        }
    }
    let n = s.done.len();
    let first = if from == usize::MAX { 0 } else { from + 1 };
    for d in 0..n {
        let t = (first + d) % n;
        if !s.done[t] {
            let q = s.quantum;
            grant(s, t, q);
            return;
        }
    }
    CURRENT.store(usize::MAX, SeqCst);
}
fn wait(mut s: MutexGuard<'static, State>, i: usize) {
    let mut seen = TURN.load(SeqCst);
    loop {
        if CURRENT.load(SeqCst) == i {
            LEFT.with(|l| l.set(PROGRESS.load(SeqCst)));
            HELD.with(|h| h.set(TURN.load(SeqCst)));
            return;
        }
        let (g, r) = CV.wait_timeout(s, Duration::from_millis(150)).unwrap_or_else(|e| e.into_inner());
        s = g;
        let now = TURN.load(SeqCst);
        if r.timed_out() && now == seen && s.present.iter().all(|p| *p) && CURRENT.load(SeqCst) != i {
            s.stolen += 1;
            let q = s.quantum;
            grant(&mut s, i, q);
        }
        seen = TURN.load(SeqCst);
    }
}
#[inline]
pub(crate) fn edge() {
    if ON.load(std::sync::atomic::Ordering::Relaxed) {
        slow();
    }
}
#[inline(never)]
fn slow() {
    let i = ME.with(|m| m.get());
    if i == usize::MAX {
        return;
    }
    let left = LEFT.with(|l| {
        let v = l.get();
        l.set(v.saturating_sub(1));
        v
    });
    let lost = CURRENT.load(SeqCst) != i;
    if left > 1 && !lost {
        return;
    }
    let mut s = lock();
    if CURRENT.load(SeqCst) == i && HELD.with(|h| h.get()) == TURN.load(SeqCst) {
        next(&mut s, i);
    }
    wait(s, i);
}
