//! File system calls under control. The functions of the C library that change files are replaced by ones that
//! number the calls, copy a directory just before chosen calls (what a process killed there leaves behind), cut
//! chosen writes short, and let chosen calls of background threads fail.
use covrt::sched;
use libc::{c_char, c_int, c_long, c_void, mode_t, off64_t, size_t, ssize_t};
use std::cell::Cell;
use std::path::{Path, PathBuf};
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering::SeqCst};
use std::sync::{Mutex, MutexGuard};

#[derive(Clone, Copy, Debug)]
pub struct FsFault {
    pub worker: usize,
    /// The n-th call of that thread, from 1.
    pub n: u64,
    pub errno: c_int,
    /// Every later call of the thread fails too.
    pub lasting: bool,
}
struct State {
    from: Option<PathBuf>,
    to: Option<PathBuf>,
    /// Numbers of the calls before which to copy, descending.
    kills: Vec<u64>,
    count: u64,
    taken: usize,
    short: Vec<u64>,
    writes: u64,
    faults: Vec<FsFault>,
    epoch: u64,
    /// (the n-th call from now of the calling thread, error, later ones too)
    next: Option<(u64, c_int, bool)>,
}
/// Seed and percentage of reads and writes that are cut short or interrupted, calls so far.
static JITTER: [AtomicU64; 3] = [AtomicU64::new(0), AtomicU64::new(0), AtomicU64::new(0)];
static ODD: AtomicU64 = AtomicU64::new(0);
static ON: AtomicBool = AtomicBool::new(false);
/// Calls of threads that are no workers that change something, whether they fail or not.
static CHANGES: AtomicU64 = AtomicU64::new(0);
static TAKEN: AtomicU64 = AtomicU64::new(0);
static FIRED: AtomicU64 = AtomicU64::new(0);
static SHORT: AtomicU64 = AtomicU64::new(0);
static STATE: Mutex<State> = Mutex::new(State {
    from: None,
    to: None,
    kills: Vec::new(),
    count: 0,
    taken: 0,
    short: Vec::new(),
    writes: 0,
    faults: Vec::new(),
    epoch: 0,
    next: None,
});
thread_local! {
    static BYPASS: Cell<bool> = const { Cell::new(false) };
    static MINE: Cell<(u64, u64)> = const { Cell::new((0, 0)) };
}
fn lock() -> MutexGuard<'static, State> {
    STATE.lock().unwrap_or_else(|e| e.into_inner())
}

/// Copies of `from` go to `to`0, `to`1 and so on. Of the changing calls, writes of eight bytes are numbered like
/// any other if `all`, and not at all otherwise.
pub fn begin(from: &Path, to: &Path, mut kills: Vec<u64>, mut short: Vec<u64>, faults: Vec<FsFault>) {
    kills.sort_unstable_by(|a, b| b.cmp(a));
    kills.dedup();
    short.sort_unstable_by(|a, b| b.cmp(a));
    short.dedup();
    let mut s = lock();
    s.epoch += 1;
    s.from = Some(from.to_path_buf());
    s.to = Some(to.to_path_buf());
    s.kills = kills;
    s.short = short;
    s.faults = faults;
    s.next = None;
    s.count = 0;
    s.writes = 0;
    s.taken = 0;
    TAKEN.store(0, SeqCst);
    FIRED.store(0, SeqCst);
    SHORT.store(0, SeqCst);
    ON.store(true, SeqCst);
}
pub fn end() {
    ON.store(false, SeqCst);
    // a call that is under way is over when the lock is free
    drop(lock());
}
/// From now on some reads and writes do less than they were asked to, or nothing because of a signal.
pub fn jitter(seed: u64, percent: u64) {
    JITTER[0].store(seed, SeqCst);
    JITTER[2].store(0, SeqCst);
    ODD.store(0, SeqCst);
    JITTER[1].store(percent.min(40), SeqCst);
}
/// Reads and writes that were cut short or interrupted.
pub fn odd() -> u64 {
    ODD.load(SeqCst)
}
fn mix(mut x: u64) -> u64 {
    x = (x ^ (x >> 30)).wrapping_mul(0xbf58476d1ce4e5b9);
    x = (x ^ (x >> 27)).wrapping_mul(0x94d049bb133111eb);
    x ^ (x >> 31)
}
/// How much of a read or write to do, or -1.
fn odd_size(n: usize) -> isize {
    let percent = JITTER[1].load(SeqCst);
    if percent == 0 || n == 0 || BYPASS.try_with(|b| b.get()).unwrap_or(true) {
        return n as isize;
    }
    let x = mix(JITTER[0].load(SeqCst).wrapping_mul(0x9e3779b97f4a7c15).wrapping_add(JITTER[2].fetch_add(1, SeqCst)));
    if x % 100 >= percent {
        return n as isize;
    }
    ODD.fetch_add(1, SeqCst);
    match x / 100 % 4 {
        0 => {
            set_errno(libc::EINTR);
            -1
        }
        1 => 1,
        2 => n.div_ceil(2) as isize,
        _ => (n - 1).max(1) as isize,
    }
}
/// Lets a call fail that is made by a thread that is no worker.
pub fn fail_next(x: Option<(u64, c_int, bool)>) {
    lock().next = x;
}
/// Calls so far that change something, whether they failed or not.
pub fn changes() -> u64 {
    CHANGES.load(SeqCst)
}
/// Copies taken so far.
pub fn taken() -> usize {
    TAKEN.load(SeqCst) as usize
}
/// (calls that failed, writes cut short)
pub fn counts() -> (u64, u64) {
    (FIRED.load(SeqCst), SHORT.load(SeqCst))
}
pub fn copy(i: usize) -> PathBuf {
    let s = lock();
    numbered(s.to.as_ref().unwrap(), i)
}
fn numbered(p: &Path, i: usize) -> PathBuf {
    let mut n = p.as_os_str().to_owned();
    n.push(i.to_string());
    PathBuf::from(n)
}
fn copy_dir(from: &Path, to: &Path) {
    let _ = std::fs::create_dir_all(to);
    if let Ok(d) = std::fs::read_dir(from) {
        for e in d.flatten() {
            let t = to.join(e.file_name());
            if e.path().is_dir() {
                copy_dir(&e.path(), &t);
            } else {
                let _ = std::fs::copy(e.path(), t);
            }
        }
    }
}
fn set_errno(e: c_int) {
    unsafe { *libc::__errno_location() = e }
}

enum Call {
    Other,
    Write(usize),
    Read,
}
/// Runs one call; `f` gets how much of a write to do.
fn call<R: From<i8>>(c: Call, f: impl FnOnce(usize) -> R) -> R {
    let len = if let Call::Write(n) = c { n } else { 0 };
    if !ON.load(SeqCst) || BYPASS.try_with(|b| b.get()).unwrap_or(true) {
        return f(len);
    }
    let _ = BYPASS.try_with(|b| b.set(true));
    let r = guarded(c, len, f);
    let _ = BYPASS.try_with(|b| b.set(false));
    r
}
fn guarded<R: From<i8>>(c: Call, len: usize, f: impl FnOnce(usize) -> R) -> R {
    let mut s = lock();
    let changing = !matches!(c, Call::Read);
    if let Some(w) = sched::worker() {
        let (epoch, mut n) = MINE.with(|m| m.get());
        if epoch != s.epoch {
            n = 0;
        }
        n += 1;
        MINE.with(|m| m.set((s.epoch, n)));
        if let Some(x) = s.faults.iter().find(|x| x.worker == w && (x.n == n || x.lasting && x.n < n)) {
            FIRED.fetch_add(1, SeqCst);
            set_errno(x.errno);
            return R::from(-1);
        }
    }
    if changing && sched::worker().is_none() {
        CHANGES.fetch_add(1, SeqCst);
    }
    if let (None, Some((n, errno, lasting))) = (sched::worker(), s.next) {
        s.next = Some((n - 1, errno, lasting));
        if n == 1 {
            s.next = if lasting { Some((1, errno, lasting)) } else { None };
            FIRED.fetch_add(1, SeqCst);
            set_errno(errno);
            return R::from(-1);
        }
    }
    if !changing {
        // reads need not be ordered
        drop(s);
        return f(len);
    }
    if len != 8 {
        s.count += 1;
        if s.kills.last() == Some(&s.count) {
            s.kills.pop();
            copy_dir(s.from.as_ref().unwrap(), &numbered(s.to.as_ref().unwrap(), s.taken));
            s.taken += 1;
            TAKEN.store(s.taken as u64, SeqCst);
        }
    }
    let mut n = len;
    if len > 1 {
        s.writes += 1;
        if s.short.last() == Some(&s.writes) {
            s.short.pop();
            n = (len / 2).max(1);
            SHORT.fetch_add(1, SeqCst);
        }
    }
    f(n)
}

macro_rules! sys {
    ($n:expr $(, $a:expr)*) => { libc::syscall($n as c_long $(, $a)*) }
}

#[no_mangle]
pub unsafe extern "C" fn write(fd: c_int, buf: *const c_void, n: size_t) -> ssize_t {
    if fd <= 2 {
        return sys!(libc::SYS_write, fd, buf, n) as ssize_t;
    }
    let n = odd_size(n);
    if n < 0 {
        return -1;
    }
    call::<i64>(Call::Write(n as usize), |n| sys!(libc::SYS_write, fd, buf, n)) as ssize_t
}
#[no_mangle]
pub unsafe extern "C" fn read(fd: c_int, buf: *mut c_void, n: size_t) -> ssize_t {
    if fd <= 2 {
        return sys!(libc::SYS_read, fd, buf, n) as ssize_t;
    }
    let n = odd_size(n);
    if n < 0 {
        return -1;
    }
    call::<i64>(Call::Read, |_| sys!(libc::SYS_read, fd, buf, n as usize)) as ssize_t
}
#[no_mangle]
pub unsafe extern "C" fn open64(path: *const c_char, flags: c_int, mode: mode_t) -> c_int {
    let c = if flags & (libc::O_CREAT | libc::O_TRUNC) != 0 { Call::Other } else { Call::Read };
    call::<i64>(c, |_| sys!(libc::SYS_openat, libc::AT_FDCWD, path, flags, mode)) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn mkdir(path: *const c_char, mode: mode_t) -> c_int {
    call::<i64>(Call::Other, |_| sys!(libc::SYS_mkdir, path, mode)) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn rmdir(path: *const c_char) -> c_int {
    call::<i64>(Call::Other, |_| sys!(libc::SYS_rmdir, path)) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn unlink(path: *const c_char) -> c_int {
    call::<i64>(Call::Other, |_| sys!(libc::SYS_unlink, path)) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn unlinkat(dir: c_int, path: *const c_char, flags: c_int) -> c_int {
    call::<i64>(Call::Other, |_| sys!(libc::SYS_unlinkat, dir, path, flags)) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn rename(a: *const c_char, b: *const c_char) -> c_int {
    call::<i64>(Call::Other, |_| sys!(libc::SYS_rename, a, b)) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn ftruncate64(fd: c_int, n: off64_t) -> c_int {
    call::<i64>(Call::Other, |_| sys!(libc::SYS_ftruncate, fd, n)) as c_int
}
