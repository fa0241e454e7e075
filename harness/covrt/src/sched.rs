//! Controlled background threads. Threads that the code under test spawns are stopped at chosen points
//! (the m-th basic block they had not executed before) until the main thread lets them go on, and the main
//! thread can be made to let them run at a chosen point inside one of its own operations. A pause always ends
//! by itself after a while, so no schedule can dead-lock correct code.
use std::cell::{Cell, RefCell};
use std::collections::BTreeSet;
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering::SeqCst};
use std::sync::{Condvar, Mutex, MutexGuard};
use std::time::{Duration, Instant};

#[derive(Clone, Copy, PartialEq, Debug)]
enum St {
    Running,
    Paused,
    Done,
}
struct Slot {
    tid: i32,
    state: St,
    go: u64,
    gone: bool,
}
struct State {
    pauses: Vec<Vec<u64>>,
    slots: Vec<Slot>,
    base: BTreeSet<i32>,
    free: bool,
    timeouts: u64,
}
static ON: AtomicBool = AtomicBool::new(false);
static FREE: AtomicBool = AtomicBool::new(false);
static EPOCH: AtomicU64 = AtomicU64::new(0);
static STATE: Mutex<State> =
    Mutex::new(State { pauses: Vec::new(), slots: Vec::new(), base: BTreeSet::new(), free: false, timeouts: 0 });
static CV: Condvar = Condvar::new();

const NONE: u32 = 0;
const MAIN: u32 = 1;
const OTHER: u32 = 2; // first worker: OTHER, and so on
struct AtExit;
impl Drop for AtExit {
    fn drop(&mut self) {
        let r = ROLE.with(|r| r.get());
        if r >= OTHER && EPOCH.load(SeqCst) == MYEPOCH.with(|e| e.get()) {
            let mut s = lock();
            let i = (r - OTHER) as usize;
            if i < s.slots.len() {
                s.slots[i].state = St::Done;
            }
            CV.notify_all();
        }
        ROLE.with(|r| r.set(NONE));
        QUIET.with(|q| q.set(true));
        NEXT.with(|n| n.set(u64::MAX));
    }
}
thread_local! {
    static ROLE: Cell<u32> = const { Cell::new(NONE) };
    static QUIET: Cell<bool> = const { Cell::new(false) };
    static MYEPOCH: Cell<u64> = const { Cell::new(0) };
    static NEW: Cell<u64> = const { Cell::new(0) };
    // 0 until the thread is known; u64::MAX: nothing to stop for
    static NEXT: Cell<u64> = const { Cell::new(0) };
    static AT: Cell<usize> = const { Cell::new(0) };
    static BITS: RefCell<Vec<u64>> = const { RefCell::new(Vec::new()) };
    static PAUSES: RefCell<Vec<u64>> = const { RefCell::new(Vec::new()) };
    static EXIT: AtExit = const { AtExit };
}
fn lock() -> MutexGuard<'static, State> {
    STATE.lock().unwrap_or_else(|e| e.into_inner())
}
fn gettid() -> i32 {
    unsafe { libc::syscall(libc::SYS_gettid) as i32 }
}
/// Index of the controlled thread this is.
pub fn worker() -> Option<usize> {
    let r = ROLE.with(|r| r.get());
    if r >= OTHER {
        Some((r - OTHER) as usize)
    } else {
        None
    }
}

/// Called for every executed edge while control is on.
#[inline]
pub(crate) fn edge(g: usize) {
    if !ON.load(std::sync::atomic::Ordering::Relaxed) || NEXT.with(|n| n.get()) == u64::MAX {
        return;
    }
    slow(g);
}
#[inline(never)]
fn slow(g: usize) {
    let role = ROLE.with(|r| r.get());
    if role == NONE {
        if QUIET.with(|q| q.get()) {
            return;
        }
        register();
    }
    if NEXT.with(|n| n.get()) == u64::MAX {
        return;
    }
    let fresh = BITS.with(|b| {
        let mut b = b.borrow_mut();
        if b.is_empty() {
            b.resize(crate::MAP / 64, 0);
        }
        let (i, m) = (g / 64, 1u64 << (g % 64));
        let f = b[i] & m == 0;
        b[i] |= m;
        f
    });
    if !fresh {
        return;
    }
    let n = NEW.with(|n| {
        let v = n.get();
        n.set(v + 1);
        v
    });
    if n < NEXT.with(|x| x.get()) {
        return;
    }
    if role == MAIN {
        NEXT.with(|x| x.set(u64::MAX));
        release();
        settle_for(Duration::from_millis(30), false);
    } else {
        advance();
        pause();
    }
}
fn advance() {
    let at = AT.with(|a| {
        let v = a.get();
        a.set(v + 1);
        v
    });
    NEXT.with(|x| x.set(PAUSES.with(|p| p.borrow().get(at + 1).copied().unwrap_or(u64::MAX))));
}
fn register() {
    let _ = EXIT.try_with(|_| ());
    let mut s = lock();
    if s.base.contains(&gettid()) {
        // not a thread of the code under test: the one that waits for the one that runs cases
        drop(s);
        QUIET.with(|q| q.set(true));
        NEXT.with(|x| x.set(u64::MAX));
        return;
    }
    let k = s.slots.len();
    s.slots.push(Slot { tid: gettid(), state: St::Running, go: 0, gone: false });
    let p = if s.pauses.is_empty() { Vec::new() } else { s.pauses[k % s.pauses.len()].clone() };
    drop(s);
    NEXT.with(|x| x.set(p.first().copied().unwrap_or(u64::MAX)));
    PAUSES.with(|q| *q.borrow_mut() = p);
    MYEPOCH.with(|e| e.set(EPOCH.load(SeqCst)));
    ROLE.with(|r| r.set(OTHER + k as u32));
    crate::record_here();
    CV.notify_all();
}
fn pause() {
    let i = match worker() {
        Some(i) => i,
        None => return,
    };
    let epoch = MYEPOCH.with(|e| e.get());
    if FREE.load(SeqCst) || EPOCH.load(SeqCst) != epoch {
        return;
    }
    let mut s = lock();
    if s.free || i >= s.slots.len() {
        return;
    }
    let ticket = s.slots[i].go;
    s.slots[i].state = St::Paused;
    CV.notify_all();
    let end = Instant::now() + Duration::from_millis(400);
    while !s.free && EPOCH.load(SeqCst) == epoch && s.slots[i].go == ticket {
        let now = Instant::now();
        if now >= end {
            s.timeouts += 1;
            break;
        }
        s = CV.wait_timeout(s, end - now).unwrap_or_else(|e| e.into_inner()).0;
    }
    if i < s.slots.len() {
        s.slots[i].state = St::Running;
    }
}

fn tasks() -> Vec<i32> {
    let mut v = Vec::new();
    if let Ok(d) = std::fs::read_dir("/proc/self/task") {
        for e in d.flatten() {
            if let Some(t) = e.file_name().to_str().and_then(|t| t.parse().ok()) {
                v.push(t);
            }
        }
    }
    v
}

/// Starts controlling: threads seen from now on get the given pause points, in turn.
pub fn begin(pauses: Vec<Vec<u64>>) {
    let mut s = lock();
    s.pauses = pauses;
    s.slots.clear();
    s.base = tasks().into_iter().collect();
    s.free = false;
    s.timeouts = 0;
    drop(s);
    FREE.store(false, SeqCst);
    EPOCH.fetch_add(1, SeqCst);
    ROLE.with(|r| r.set(MAIN));
    NEXT.with(|x| x.set(u64::MAX));
    ON.store(true, SeqCst);
}
/// The calling thread lets the others run at its m-th new block from here (u64::MAX: never).
pub fn main_point(m: u64) {
    NEXT.with(|x| x.set(u64::MAX));
    if m != u64::MAX {
        BITS.with(|b| b.borrow_mut().clear());
        NEW.with(|n| n.set(0));
        NEXT.with(|x| x.set(m));
    }
}
pub fn release() {
    let mut s = lock();
    for t in s.slots.iter_mut() {
        if t.state == St::Paused {
            t.go += 1;
            t.state = St::Running;
        }
    }
    drop(s);
    CV.notify_all();
}
/// Whether threads may run without stopping.
pub fn free(on: bool) {
    let mut s = lock();
    s.free = on;
    FREE.store(on, SeqCst);
    drop(s);
    CV.notify_all();
}
fn settle_for(limit: Duration, fresh: bool) -> bool {
    let end = Instant::now() + limit;
    loop {
        // threads that exist but have not run anything yet
        let mut unknown = false;
        let mut s = lock();
        if fresh {
            let now = tasks();
            for i in 0..s.slots.len() {
                if s.slots[i].state == St::Done && !s.slots[i].gone && !now.contains(&s.slots[i].tid) {
                    s.slots[i].gone = true;
                }
            }
            unknown = now.iter().any(|t| !s.base.contains(t) && !s.slots.iter().any(|x| x.tid == *t && !x.gone));
        }
        let busy = s.slots.iter().any(|t| t.state == St::Running || (fresh && t.state == St::Done && !t.gone));
        if !busy && !unknown {
            return true;
        }
        let now = Instant::now();
        if now >= end {
            return false;
        }
        let wait = if fresh { Duration::from_micros(100) } else { end - now };
        let _ = CV.wait_timeout(s, wait.min(end - now));
    }
}
/// Waits until every thread is stopped at a point or has ended.
pub fn settle() -> bool {
    settle_for(Duration::from_secs(2), true)
}
/// (threads seen, stopped now, ended)
pub fn counts() -> (usize, usize, usize) {
    let s = lock();
    (
        s.slots.len(),
        s.slots.iter().filter(|t| t.state == St::Paused).count(),
        s.slots.iter().filter(|t| t.state == St::Done).count(),
    )
}
pub fn timeouts() -> u64 {
    lock().timeouts
}
/// Lets everything run to its end. False if some thread does not end.
pub fn finish() -> bool {
    main_point(u64::MAX);
    free(true);
    let ok = settle_for(Duration::from_secs(30), true);
    ok
}
/// As `finish`, and stops controlling.
pub fn end() -> bool {
    let ok = finish();
    ON.store(false, SeqCst);
    ok
}
