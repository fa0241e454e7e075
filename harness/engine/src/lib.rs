pub mod elem;
pub mod rng;
pub use rng::{mix, Rng};

use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::{Cell, RefCell};
use std::collections::BTreeMap;
use std::fmt::Write as _;
use std::panic::{catch_unwind, AssertUnwindSafe};

// ---------------------------------------------------------------- allocation accounting
pub struct Counting;
thread_local! {
    static LIVE: Cell<i64> = const { Cell::new(0) };
    static ALLOCS: Cell<u64> = const { Cell::new(0) };
    static MAXLIVE: Cell<i64> = const { Cell::new(i64::MAX) };
}
pub const EXIT_MEM: i32 = 78;
unsafe impl GlobalAlloc for Counting {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        grow(l.size() as i64);
        ALLOCS.with(|a| a.set(a.get() + 1));
        System.alloc(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        LIVE.with(|c| c.set(c.get() - l.size() as i64));
        System.dealloc(p, l)
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        grow(n as i64 - l.size() as i64);
        System.realloc(p, l, n)
    }
}
fn grow(by: i64) {
    let n = LIVE.with(|c| {
        let n = c.get() + by;
        c.set(n);
        n
    });
    if n > MAXLIVE.with(|m| m.get()) {
        unsafe { libc::_exit(EXIT_MEM) }
    }
}
#[global_allocator]
static ALLOC: Counting = Counting;
/// Bytes allocated and not freed by this thread.
pub fn live_bytes() -> i64 {
    LIVE.with(|c| c.get())
}
pub fn alloc_calls() -> u64 {
    ALLOCS.with(|c| c.get())
}

// ---------------------------------------------------------------- cases
pub type Op = [u64; 4];
#[derive(Clone, Debug, Default, PartialEq)]
pub struct Case {
    pub cfg: Vec<u64>,
    pub ops: Vec<Op>,
}
impl Case {
    pub fn c(&self, i: usize) -> u64 {
        self.cfg.get(i).copied().unwrap_or(0)
    }
    pub fn encode(&self) -> String {
        let mut s = String::with_capacity(16 + self.ops.len() * 12);
        s.push_str("cfg");
        for c in &self.cfg {
            let _ = write!(s, " {}", c);
        }
        s.push('\n');
        for o in &self.ops {
            let _ = writeln!(s, "{} {} {} {}", o[0], o[1], o[2], o[3]);
        }
        s.push_str("end\n");
        s
    }
    pub fn decode(s: &str) -> Case {
        let mut case = Case::default();
        for line in s.lines() {
            if line == "end" {
                break;
            }
            let mut it = line.split_whitespace();
            if line.starts_with('#') || line.starts_with("target") {
                continue;
            }
            if line.starts_with("cfg") {
                it.next();
                case.cfg = it.map(|x| x.parse().unwrap()).collect();
            } else {
                let v: Vec<u64> = it.map(|x| x.parse().unwrap()).collect();
                if v.len() == 4 {
                    case.ops.push([v[0], v[1], v[2], v[3]]);
                }
            }
        }
        case
    }
    pub fn hash(&self) -> u64 {
        let mut h = 0x1234_5678u64;
        for c in &self.cfg {
            h = mix(h ^ c);
        }
        h = mix(h ^ 0xabcdef);
        for o in &self.ops {
            for x in o {
                h = mix(h ^ x);
            }
        }
        h
    }
}

// ---------------------------------------------------------------- failures
/// F: functional mismatch or unexpected panic. O: ownership. X: cost bound.
#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Kind {
    F,
    O,
    X,
}
#[derive(Debug)]
pub struct Fail {
    pub kind: Kind,
    pub msg: String,
}
pub type Res<T = ()> = Result<T, Fail>;
pub fn fail<T>(kind: Kind, msg: String) -> Res<T> {
    Err(Fail { kind, msg })
}
#[macro_export]
macro_rules! ck {
    ($c:expr, $($a:tt)*) => {
        if !($c) { return Err($crate::Fail { kind: $crate::Kind::F, msg: format!($($a)*) }); }
    };
}
#[macro_export]
macro_rules! ck_eq {
    ($a:expr, $b:expr, $($m:tt)*) => {{
        let (a, b) = (&$a, &$b);
        if a != b {
            return Err($crate::Fail { kind: $crate::Kind::F,
                msg: format!("{}: got {:?}, expected {:?}", format!($($m)*), a, b) });
        }
    }};
}

thread_local! {
    static PANIC: RefCell<String> = const { RefCell::new(String::new()) };
}
pub fn catch<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    catch_unwind(AssertUnwindSafe(f)).map_err(|_| PANIC.with(|p| p.borrow().clone()))
}

#[derive(Default)]
pub struct Ctx {
    pub labels: BTreeMap<&'static str, u64>,
    pub nontrivial: bool,
    pub thorough: bool,
    /// Closeness to breaking the property, where a case can say so; cases that come closer are mutated.
    pub score: u64,
}
impl Ctx {
    pub fn label(&mut self, l: &'static str) {
        *self.labels.entry(l).or_insert(0) += 1;
    }
    pub fn label_n(&mut self, l: &'static str, n: u64) {
        *self.labels.entry(l).or_insert(0) += n;
    }
    pub fn mark(&mut self) {
        self.nontrivial = true;
    }
}

// ---------------------------------------------------------------- targets
pub struct Gen {
    pub thorough: bool,
    /// Position of the case in this shard and constants the code under test compared with so far.
    pub index: u64,
    pub dict: Vec<u64>,
}
pub struct Target {
    pub name: &'static str,
    pub quick: u64,
    pub thorough: u64,
    /// Executed edges allowed per case (any normal case stays far below).
    pub steps: u64,
    /// Whether all memory must be returned at the end of a case (single threaded targets).
    pub balanced: bool,
    pub gen: Box<dyn Fn(&mut Rng, &Gen) -> Case>,
    pub run: Box<dyn Fn(&Case, &mut Ctx) -> Res>,
    /// Percentage of cases made by mutating an earlier case that reached new code.
    pub mutate: u64,
}
impl Target {
    pub fn new(
        name: &'static str,
        quick: u64,
        thorough: u64,
        gen: impl Fn(&mut Rng, &Gen) -> Case + 'static,
        run: impl Fn(&Case, &mut Ctx) -> Res + 'static,
    ) -> Target {
        Target {
            name,
            quick,
            thorough,
            steps: 400_000_000,
            balanced: true,
            gen: Box::new(gen),
            run: Box::new(run),
            mutate: 25,
        }
    }
    pub fn steps(mut self, n: u64) -> Self {
        self.steps = n;
        self
    }
    pub fn unbalanced(mut self) -> Self {
        self.balanced = false;
        self
    }
    pub fn no_mutate(mut self) -> Self {
        self.mutate = 0;
        self
    }
}
pub struct Prop {
    pub id: &'static str,
    pub rule: &'static str,
    pub accept: &'static [Kind],
    pub targets: Vec<Target>,
}

/// Runs one case with all the generic oracles around it.
fn run_case(t: &Target, case: &Case, ctx: &mut Ctx) -> Res {
    let leaked = run_once(t, case, ctx)?;
    if t.balanced && leaked > 0 {
        // state initialised lazily by the first case may stay; a leak shows again
        let leaked = run_once(t, case, ctx)?;
        if leaked > 0 {
            return fail(Kind::O, format!("{} bytes still allocated after everything was dropped", leaked));
        }
    }
    Ok(())
}

static ALONE: std::sync::atomic::AtomicBool = std::sync::atomic::AtomicBool::new(false);
extern "C" fn on_alarm(_: libc::c_int) {
    unsafe { libc::_exit(covrt::EXIT_STEPS) }
}

static START: std::sync::OnceLock<fn()> = std::sync::OnceLock::new();
/// What to do before every case, so that no case depends on the ones before it.
pub fn on_case_start(f: fn()) {
    let _ = START.set(f);
}

fn run_once(t: &Target, case: &Case, ctx: &mut Ctx) -> Res<i64> {
    if let Some(f) = START.get() {
        f();
    }
    elem::reset_registry();
    elem::reset_cmps();
    covrt::set_limit(t.steps);
    // a case that stops making progress (a deadlock) ends like one that never terminates
    let seconds = if ALONE.load(std::sync::atomic::Ordering::Relaxed) { 40 } else { 150 };
    unsafe {
        libc::alarm(seconds);
    }
    covrt::start();
    covrt::reset_steps();
    PANIC.with(|p| *p.borrow_mut() = String::with_capacity(4096));
    let mut inner = Ctx { thorough: ctx.thorough, ..Ctx::default() };
    let before = live_bytes();
    let r = match catch(|| (t.run)(case, &mut inner)) {
        Ok(r) => r,
        Err(m) => fail(Kind::F, format!("unexpected panic: {}", m)),
    };
    covrt::stop();
    unsafe {
        libc::alarm(0);
    }
    covrt::set_limit(u64::MAX);
    for (k, v) in std::mem::take(&mut inner.labels) {
        ctx.label_n(k, v);
    }
    ctx.nontrivial |= inner.nontrivial;
    ctx.score = inner.score;
    let errs = elem::ownership_errors();
    if !errs.is_empty() {
        return fail(Kind::O, errs[0].clone());
    }
    drop(errs);
    r?;
    let live = elem::live_elements();
    if live != 0 {
        return fail(Kind::O, format!("{} elements never dropped, first ids {:?}", live, elem::undropped()));
    }
    elem::reset_registry();
    Ok(live_bytes() - before - ctx_bytes())
}
/// Labels first seen in this case stay allocated in the totals: they are not a leak. The re-run in
/// `run_case` sees them already present, so no correction is needed.
fn ctx_bytes() -> i64 {
    0
}

fn mutate(rng: &mut Rng, corpus: &[Case], dict: &[u64]) -> Case {
    let mut c = corpus[rng.below(corpus.len() as u64) as usize].clone();
    for _ in 0..rng.range(1, 4) {
        let n = c.ops.len() as u64;
        match rng.below(8) {
            0 if n > 1 => {
                let i = rng.below(n);
                let j = (i + rng.len(n)).min(n);
                c.ops.drain(i as usize..j as usize);
            }
            1 if n > 0 && n < 5000 => {
                let i = rng.below(n);
                let j = (i + rng.len(n)).min(n);
                let part: Vec<Op> = c.ops[i as usize..j as usize].to_vec();
                let at = rng.below(n + 1) as usize;
                c.ops.splice(at..at, part);
            }
            2 if n < 5000 => {
                let o = &corpus[rng.below(corpus.len() as u64) as usize].ops;
                if !o.is_empty() {
                    let i = rng.below(o.len() as u64);
                    let j = (i + rng.len(o.len() as u64)).min(o.len() as u64);
                    let part: Vec<Op> = o[i as usize..j as usize].to_vec();
                    let at = rng.below(n + 1) as usize;
                    c.ops.splice(at..at, part);
                }
            }
            3 if n > 0 => {
                let i = rng.below(n) as usize;
                let f = rng.range(1, 3) as usize;
                let d = rng.range(1, 3);
                c.ops[i][f] = if rng.chance(50) { c.ops[i][f].wrapping_add(d) } else { c.ops[i][f].saturating_sub(d) };
            }
            4 if n > 0 && !dict.is_empty() => {
                let i = rng.below(n) as usize;
                let f = rng.range(1, 3) as usize;
                let v = rng.pick(dict);
                c.ops[i][f] = match rng.below(3) {
                    0 => v,
                    1 => v.wrapping_add(1),
                    _ => v.wrapping_sub(1),
                };
            }
            5 if n > 1 => {
                let (i, j) = (rng.below(n) as usize, rng.below(n) as usize);
                let f = rng.range(1, 3) as usize;
                c.ops[i][f] = c.ops[j][f];
            }
            6 if n > 1 => {
                let (i, j) = (rng.below(n) as usize, rng.below(n) as usize);
                c.ops[i][0] = c.ops[j][0];
            }
            7 if n > 1 => {
                let (i, j) = (rng.below(n) as usize, rng.below(n) as usize);
                c.ops.swap(i, j);
            }
            _ => {}
        }
    }
    c
}

struct Status(i32);
impl Status {
    fn put(&self, s: &str) {
        unsafe {
            libc::pwrite(self.0, s.as_ptr() as *const libc::c_void, s.len(), 0);
        }
    }
}

pub fn seed_of(seed: u64, prop: &str, target: &str, shard: u64, i: u64) -> u64 {
    let mut h = mix(seed ^ 0x5eed);
    for b in prop.bytes().chain(target.bytes()) {
        h = mix(h ^ b as u64);
    }
    mix(mix(h ^ shard) ^ i)
}

fn worker(prop: &Prop, tier: &str, seed: u64, shard: u64, nshards: u64, dir: &str, scale: f64) -> i32 {
    let thorough = tier == "thorough";
    let status = {
        let p = std::ffi::CString::new(format!("{}/status.{}", dir, shard)).unwrap();
        let fd = unsafe { libc::open(p.as_ptr(), libc::O_CREAT | libc::O_RDWR | libc::O_TRUNC, 0o644) };
        assert!(fd >= 0);
        Status(fd)
    };
    let mut out = String::new();
    let mut hashes: Vec<u8> = Vec::new();
    let mut failed = false;
    let mut samples = 0;
    for (ti, t) in prop.targets.iter().enumerate() {
        let total = if thorough { t.thorough } else { t.quick };
        let total = ((total as f64 * scale).ceil() as u64).max(1);
        let mut ctx = Ctx { thorough, ..Ctx::default() };
        let mut corpus: Vec<Case> = Vec::new();
        let (mut ran, mut nontriv, mut mutated, mut opsum) = (0u64, 0u64, 0u64, 0u64);
        let mut i = shard;
        let mut dict: Vec<u64> = Vec::new();
        let mut best: Vec<u64> = Vec::new();
        // the first cases of each process grow lazily initialised state; run one ahead of accounting
        while i < total {
            let mut rng = Rng::new(seed_of(seed, prop.id, t.name, shard, i));
            if ran % 64 == 0 {
                dict = covrt::constants();
            }
            let case = if !corpus.is_empty() && rng.chance(t.mutate) {
                mutated += 1;
                mutate(&mut rng, &corpus, &dict)
            } else {
                (t.gen)(&mut rng, &Gen { thorough, index: i, dict: dict.clone() })
            };
            let mut text = format!("target {}\n", t.name);
            text.push_str(&case.encode());
            status.put(&text);
            ctx.nontrivial = false;
            ctx.score = 0;
            let r = run_case(t, &case, &mut ctx);
            ran += 1;
            opsum += case.ops.len() as u64;
            if covrt::new_edges() > 0 && corpus.len() < 256 && case.ops.len() < 4000 {
                corpus.push(case.clone());
            } else if ctx.score > 0 && case.ops.len() < 4000 && (best.len() < 16 || ctx.score > best[0]) {
                best.push(ctx.score);
                best.sort_unstable();
                if best.len() > 16 {
                    best.remove(0);
                }
                if corpus.len() >= 64 {
                    let i = rng.below(corpus.len() as u64) as usize;
                    corpus[i] = case.clone();
                } else {
                    corpus.push(case.clone());
                }
            }
            if ctx.nontrivial {
                nontriv += 1;
                hashes.extend_from_slice(&mix(case.hash() ^ ti as u64).to_le_bytes());
                if samples < 2 && shard == 0 && case.ops.len() < 60 {
                    samples += 1;
                    let _ = writeln!(out, "SAMPLE {} {}", t.name, case.encode().replace('\n', "; "));
                }
            }
            if let Err(f) = r {
                if prop.accept.contains(&f.kind) {
                    let p = format!("{}/fail.{}", dir, shard);
                    std::fs::write(p, &text).unwrap();
                    let _ = writeln!(out, "FAIL {} {} {:?} {}", i, t.name, f.kind, f.msg.replace('\n', " "));
                    failed = true;
                    break;
                }
                ctx.label("cases cut short by a failure another property reports");
            }
            i += nshards;
        }
        let _ = writeln!(out, "RAN {} {} {} {} {} {}", t.name, ran, nontriv, mutated, corpus.len(), opsum);
        for (k, v) in &ctx.labels {
            let _ = writeln!(out, "LABEL {}\t{}\t{}", t.name, k, v);
        }
        if failed {
            break;
        }
    }
    let _ = writeln!(out, "EDGES {}", covrt::edges_total());
    std::fs::write(format!("{}/hashes.{}", dir, shard), &hashes).unwrap();
    std::fs::write(format!("{}/out.{}", dir, shard), &out).unwrap();
    if failed {
        1
    } else {
        0
    }
}

pub fn main(props: Vec<Prop>) {
    std::panic::set_hook(Box::new(|info| {
        let msg = if let Some(s) = info.payload().downcast_ref::<&str>() {
            s.to_string()
        } else if let Some(s) = info.payload().downcast_ref::<String>() {
            s.clone()
        } else {
            String::from("?")
        };
        let loc = info.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        let _ = PANIC.try_with(|p| {
            if let Ok(mut p) = p.try_borrow_mut() {
                p.clear();
                let _ = write!(p, "{} at {}", msg, loc);
            }
        });
    }));
    unsafe {
        libc::signal(libc::SIGALRM, on_alarm as *const () as libc::sighandler_t);
    }
    let args: Vec<String> = std::env::args().collect();
    ALONE.store(args[1] == "one", std::sync::atomic::Ordering::Relaxed);
    let find = |id: &str| props.iter().find(|p| p.id == id).unwrap_or_else(|| panic!("no property {}", id));
    let code = match args[1].as_str() {
        "worker" => {
            // worker PROP TIER SEED SHARD NSHARDS DIR SCALE
            MAXLIVE.with(|m| m.set(3 << 30));
            worker(
                find(&args[2]),
                &args[3],
                args[4].parse().unwrap(),
                args[5].parse().unwrap(),
                args[6].parse().unwrap(),
                &args[7],
                args[8].parse().unwrap(),
            )
        }
        "one" => {
            // one PROP FILE OUT: exit 0 holds, 1 fails
            MAXLIVE.with(|m| m.set(3 << 30));
            let p = find(&args[2]);
            let text = std::fs::read_to_string(&args[3]).unwrap();
            let name = text
                .lines()
                .find_map(|l| l.strip_prefix("target "))
                .expect("no target line")
                .trim()
                .to_string();
            let t = p.targets.iter().find(|t| t.name == name).expect("no such target");
            let case = Case::decode(&text);
            let mut ctx = Ctx::default();
            let r = run_case(t, &case, &mut ctx);
            let (msg, code) = match r {
                Err(f) if p.accept.contains(&f.kind) => (format!("{:?} {}", f.kind, f.msg), 1),
                Err(f) => (format!("ignored {:?} {}", f.kind, f.msg), 0),
                Ok(()) => (format!("holds steps={} cmps={}", covrt::steps(), elem::cmps()), 0),
            };
            if args.len() > 4 {
                std::fs::write(&args[4], &msg).unwrap();
            } else {
                eprintln!("{}", msg);
            }
            code
        }
        "list" => {
            for p in &props {
                println!("PROP {}\t{}", p.id, p.rule);
                for t in &p.targets {
                    println!("TARGET {}\t{}\t{}\t{}", p.id, t.name, t.quick, t.thorough);
                }
            }
            0
        }
        _ => panic!("bad command"),
    };
    unsafe { libc::_exit(code) }
}
