//! C16, C17: the concurrent stack under generated schedules.
use covrt::token;
use engine::elem::Tr;
use engine::*;
use extended_collections::sync::Stack;
use std::collections::{HashMap, HashSet};
use std::sync::atomic::{AtomicU64, Ordering::SeqCst};
use std::sync::{Arc, Mutex};

const PUSH: u64 = 0;
const POP: u64 = 1;
const LEN: u64 = 2;
const COLLECT: u64 = 3;
const DROPKEPT: u64 = 4;
const SEG: u64 = 5;
const BEFORE: u64 = 6;

trait Item: 'static + Send + Sync {
    fn make() -> Self;
    fn id(&self) -> u64;
    fn ok(&self) -> bool;
}
impl Item for Tr {
    fn make() -> Tr {
        Tr::new()
    }
    fn id(&self) -> u64 {
        Tr::id(self) as u64
    }
    fn ok(&self) -> bool {
        Tr::ok(self)
    }
}
static NEXT: AtomicU64 = AtomicU64::new(0);
/// Owns a heap string besides being tracked, and is large.
struct Big {
    t: Tr,
    text: String,
    _room: [u64; 20],
}
impl Item for Big {
    fn make() -> Big {
        let t = Tr::new();
        let text = format!("element {}", t.id());
        Big { t, text, _room: [7; 20] }
    }
    fn id(&self) -> u64 {
        self.t.id() as u64
    }
    fn ok(&self) -> bool {
        self.t.ok() && self.text == format!("element {}", self.t.id()) && self._room == [7; 20]
    }
}
/// Plain data.
struct Num(u64);
impl Item for Num {
    fn make() -> Num {
        Num(NEXT.fetch_add(1, SeqCst))
    }
    fn id(&self) -> u64 {
        self.0
    }
    fn ok(&self) -> bool {
        self.0 < NEXT.load(SeqCst)
    }
}

// ------------------------------------------------------------------ histories and linearizability
#[derive(Clone, Debug, PartialEq)]
enum Ev {
    Push(u64),
    Pop(Option<u64>),
    Len(usize),
    Empty(bool),
}
#[derive(Clone, Debug)]
struct Call {
    thread: usize,
    ev: Ev,
    from: u64,
    to: u64,
}
static CLOCK: AtomicU64 = AtomicU64::new(0);
fn tick() -> u64 {
    CLOCK.fetch_add(1, SeqCst)
}

/// Whether some order of the calls, consistent with real time, is what a sequential stack does; None if the
/// search was given up. A pop that fits can always be taken at once: whatever an order does before it and on top
/// of the element is balanced and can as well come after it. So only the order of pushes is searched, and an
/// element may not go on top of one that was popped before its own pop began.
fn linearizable(calls: &[Call]) -> Option<bool> {
    let n = calls.len();
    assert!(n <= 64);
    let before: Vec<u64> = calls
        .iter()
        .map(|c| calls.iter().enumerate().filter(|(_, d)| d.to < c.from).map(|(i, _)| 1u64 << i).sum())
        .collect();
    let popped: HashMap<u64, (u64, u64)> =
        calls.iter().filter_map(|c| if let Ev::Pop(Some(v)) = c.ev { Some((v, (c.from, c.to))) } else { None }).collect();
    let may_cover = |v: u64, u: u64| match (popped.get(&v), popped.get(&u)) {
        (_, None) => true,
        (None, Some(_)) => false,
        (Some(v), Some(u)) => !(u.1 < v.0),
    };
    let mut seen: HashSet<(u64, Vec<u64>)> = HashSet::new();
    let mut todo = vec![(0u64, Vec::<u64>::new())];
    while let Some((mut mask, mut stack)) = todo.pop() {
        loop {
            let fit = (0..n).find(|&i| {
                mask >> i & 1 == 0
                    && before[i] & !mask == 0
                    && matches!(calls[i].ev, Ev::Pop(got) if got == stack.last().copied())
            });
            match fit {
                Some(i) => {
                    mask |= 1 << i;
                    stack.pop();
                }
                None => break,
            }
        }
        if mask.count_ones() as usize == n {
            return Some(true);
        }
        if !seen.insert((mask, stack.clone())) {
            continue;
        }
        if seen.len() > 60_000 {
            return None;
        }
        let mut next: Vec<(u64, usize, u64)> = (0..n)
            .filter(|&i| mask >> i & 1 == 0 && before[i] & !mask == 0)
            .filter_map(|i| match calls[i].ev {
                Ev::Push(v) if stack.iter().all(|u| may_cover(v, *u)) => Some((calls[i].to, i, v)),
                _ => None,
            })
            .collect();
        next.sort();
        for (_, i, v) in next.into_iter().rev() {
            let mut s = stack.clone();
            s.push(v);
            todo.push((mask | 1 << i, s));
        }
    }
    Some(false)
}

fn show(calls: &[Call]) -> String {
    let mut v: Vec<&Call> = calls.iter().collect();
    v.sort_by_key(|c| c.from);
    v.iter().map(|c| format!("t{} {:?} [{}-{}]", c.thread, c.ev, c.from, c.to)).collect::<Vec<_>>().join(", ")
}

// ------------------------------------------------------------------ generation
// cfg: [threads, quantum]; operations: o[1] is the thread.
fn gen(rng: &mut Rng, g: &Gen) -> Case {
    let threads = match rng.below(6) {
        0 => 4,
        1 | 2 => 3,
        _ => 2,
    };
    let quantum = rng.pick(&[7, 40, 200, 1000, 100000]);
    let mut ops = Vec::new();
    let kinds: [u64; 5] = match rng.below(6) {
        0 => [50, 50, 0, 0, 0],
        1 => [30, 60, 0, 10, 5],
        2 => [20, 30, 10, 30, 5],
        3 => [10, 60, 5, 30, 10],
        4 => [60, 30, 10, 5, 5],
        _ => [35, 35, 15, 15, 10],
    };
    for _ in 0..rng.below(5) {
        ops.push([BEFORE, 0, 0, 0]);
    }
    let most = if g.thorough { 9 } else { 6 };
    for t in 0..threads {
        for _ in 0..rng.range(1, if threads > 3 { most - 2 } else { most }) {
            let k = rng.weighted(&kinds) as u64;
            ops.push([k, t, rng.range(1, 3), 0]);
        }
    }
    // a few or many switches, at any distance
    let style = rng.below(4);
    let n = match style {
        0 => rng.below(4),
        1 => rng.below(10),
        _ => rng.range(4, 40),
    };
    for _ in 0..n {
        let len = match rng.below(5) {
            0 => rng.range(1, 6),
            1 => rng.range(1, 40),
            2 => rng.range(1, 1500),
            _ => rng.range(1, 300),
        };
        ops.push([SEG, rng.below(threads), len, 0]);
    }
    Case { cfg: vec![threads, quantum], ops }
}

/// Makes the reclamation scheme free what it may.
fn collect(n: u64) {
    for _ in 0..n {
        crossbeam_epoch::pin().flush();
    }
}

fn run<E: Item>(case: &Case, ctx: &mut Ctx) -> Res {
    let threads = (case.c(0) % 5).max(1) as usize;
    let quantum = (case.c(1) % 200_000).max(1);
    let mut bodies: Vec<Vec<Op>> = vec![Vec::new(); threads];
    let mut plan = Vec::new();
    let mut calls: Vec<Call> = Vec::new();
    NEXT.store(0, SeqCst);
    let stack: Arc<Stack<E>> = Arc::new(if case.ops.len() % 2 == 0 { Stack::new() } else { Stack::default() });
    let mut total = 0;
    for o in &case.ops {
        match o[0] {
            SEG => plan.push(((o[1] % 8) as usize, o[2] % 100_000)),
            BEFORE if total < 31 => {
                total += 1;
                let e = E::make();
                let (id, from) = (e.id(), tick());
                stack.push(e);
                calls.push(Call { thread: 99, ev: Ev::Push(id), from, to: tick() });
            }
            PUSH | POP | LEN | COLLECT | DROPKEPT if total < 31 => {
                total += 1;
                bodies[(o[1] % threads as u64) as usize].push(*o);
            }
            _ => {}
        }
    }
    token::start(threads, plan, quantum);
    let log: Arc<Mutex<Vec<Call>>> = Arc::new(Mutex::new(Vec::new()));
    let bad: Arc<Mutex<Vec<String>>> = Arc::new(Mutex::new(Vec::new()));
    let mut handles = Vec::new();
    for (t, body) in bodies.into_iter().enumerate() {
        let (stack, log, bad) = (stack.clone(), log.clone(), bad.clone());
        handles.push(std::thread::spawn(move || {
            struct Leave;
            impl Drop for Leave {
                fn drop(&mut self) {
                    token::leave();
                }
            }
            let mut mine: Vec<Call> = Vec::with_capacity(64);
            let mut kept: Vec<E> = Vec::with_capacity(64);
            let r = catch(|| {
                let _leave = Leave;
                token::enter(t);
                for o in &body {
                    let from;
                    let ev = match o[0] {
                        PUSH => {
                            let e = E::make();
                            let id = e.id();
                            from = tick();
                            stack.push(e);
                            Ev::Push(id)
                        }
                        POP => {
                            from = tick();
                            let got = stack.try_pop();
                            let id = got.as_ref().map(|e| e.id());
                            kept.extend(got);
                            Ev::Pop(id)
                        }
                        LEN => {
                            from = tick();
                            if o[2] % 2 == 0 {
                                Ev::Empty(stack.is_empty())
                            } else {
                                Ev::Len(stack.len())
                            }
                        }
                        DROPKEPT => {
                            if !kept.iter().all(|e| e.ok()) {
                                panic!("a popped element changed");
                            }
                            kept.clear();
                            continue;
                        }
                        _ => {
                            collect(o[2] % 4);
                            continue;
                        }
                    };
                    mine.push(Call { thread: t, ev, from, to: tick() });
                }
            });
            if let Err(m) = r {
                bad.lock().unwrap().push(format!("thread {}: unexpected panic: {}", t, m));
            }
            if !kept.iter().all(|e| e.ok()) {
                bad.lock().unwrap().push(format!("thread {}: a popped element changed", t));
            }
            log.lock().unwrap().extend(mine);
        }));
    }
    for h in handles {
        let _ = h.join();
    }
    let (stolen, switches) = token::stop();
    ctx.label_n("turns taken from a thread that did not get on", stolen);
    ctx.label_n("thread switches", switches);
    let b = bad.lock().unwrap();
    ck!(b.is_empty(), "{}", b[0]);
    drop(b);
    calls.extend(log.lock().unwrap().drain(..));
    // nothing is running: the counters are exact
    let pushes = calls.iter().filter(|c| matches!(c.ev, Ev::Push(_))).count();
    let pops = calls.iter().filter(|c| matches!(c.ev, Ev::Pop(Some(_)))).count();
    ck!(pops <= pushes, "{} elements popped after {} pushes: {}", pops, pushes, show(&calls));
    ck!(stack.len() == pushes - pops, "len is {} with {} elements left: {}", stack.len(), pushes - pops, show(&calls));
    ck!(stack.is_empty() == (pushes == pops), "is_empty with {} elements left: {}", pushes - pops, show(&calls));
    // approximate, but never off by more than the calls under way
    for c in &calls {
        let n = match c.ev {
            Ev::Len(n) => n,
            Ev::Empty(b) => {
                if b {
                    0
                } else {
                    continue;
                }
            }
            _ => continue,
        };
        let count = |push: bool, started: bool| {
            calls
                .iter()
                .filter(|d| match d.ev {
                    Ev::Push(_) => push,
                    Ev::Pop(Some(_)) => !push,
                    _ => false,
                })
                .filter(|d| if started { d.from < c.to } else { d.to < c.from })
                .count()
        };
        let most = count(true, true) - count(false, false).min(count(true, true));
        let least = count(true, false).saturating_sub(count(false, true));
        ck!(
            n >= least && n <= most,
            "len is {} where at least {} and at most {} elements can be present: {}",
            n,
            least,
            most,
            show(&calls)
        );
    }
    // what is left comes out in order; a part of it may go with the stack
    let part = case.ops.len() % 3;
    let left = pushes - pops;
    let take = if part == 0 { left + 1 } else { left / part };
    for _ in 0..take {
        let from = tick();
        let got = stack.try_pop();
        ck!(got.as_ref().map_or(true, |e| e.ok()), "an element popped at the end changed");
        calls.push(Call { thread: 98, ev: Ev::Pop(got.map(|e| e.id())), from, to: tick() });
    }
    calls.retain(|c| matches!(c.ev, Ev::Push(_) | Ev::Pop(_)));
    let lin = linearizable(&calls);
    if lin.is_none() {
        ctx.label("history too concurrent to decide");
    }
    ck!(lin != Some(false), "no order of the calls is that of a stack: {}", show(&calls));
    let s = Arc::try_unwrap(stack).unwrap_or_else(|_| unreachable!());
    drop(s);
    let overlap = calls.iter().any(|a| calls.iter().any(|b| a.thread != b.thread && a.from < b.to && b.from < a.to));
    if overlap {
        ctx.mark();
    }
    Ok(())
}

// ------------------------------------------------------------------ one thread
// Long histories: the order, the counters, ownership, and the memory of nodes.
fn gen_seq(rng: &mut Rng, g: &Gen) -> Case {
    let total = rng.len(if g.thorough { 4000 } else { 800 });
    let mut ops = Vec::new();
    while (ops.len() as u64) < total {
        let p = rng.pick(&[10, 40, 50, 60, 95]);
        for _ in 0..rng.len(total) {
            let k = if rng.chance(4) {
                rng.range(LEN, DROPKEPT)
            } else if rng.chance(p) {
                PUSH
            } else {
                POP
            };
            ops.push([k, 0, rng.range(1, 3), 0]);
        }
    }
    Case { cfg: vec![], ops }
}
fn run_seq<E: Item>(case: &Case, ctx: &mut Ctx) -> Res {
    NEXT.store(0, SeqCst);
    let stack: Stack<E> = Stack::new();
    let mut model: Vec<u64> = Vec::new();
    let mut kept: Vec<E> = Vec::new();
    let mut pops = 0;
    for o in &case.ops {
        match o[0] {
            PUSH => {
                let e = E::make();
                model.push(e.id());
                stack.push(e);
            }
            POP => {
                let got = stack.try_pop();
                ck_eq!(got.as_ref().map(|e| e.id()), model.pop(), "try_pop leaving {} elements", model.len());
                pops += got.is_some() as u64;
                kept.extend(got);
            }
            COLLECT => collect(o[2] % 4),
            DROPKEPT => {
                ck!(kept.iter().all(|e| e.ok()), "a popped element changed");
                kept.clear();
            }
            _ => {}
        }
        ck_eq!(stack.len(), model.len(), "len");
        ck_eq!(stack.is_empty(), model.is_empty(), "is_empty");
    }
    if case.ops.len() % 4 == 0 {
        while let Some(e) = stack.try_pop() {
            ck_eq!(Some(e.id()), model.pop(), "try_pop at the end");
        }
    }
    drop(stack);
    ck!(kept.iter().all(|e| e.ok()), "a popped element changed when the stack was dropped");
    if pops > 2 {
        ctx.mark();
    }
    Ok(())
}
/// Memory: after everything is reclaimed nothing of the stack is left.
fn run_mem(case: &Case, ctx: &mut Ctx) -> Res {
    let once = |case: &Case, ctx: &mut Ctx| -> Res<i64> {
        let before = live_bytes();
        run_seq::<Big>(case, ctx)?;
        collect(40);
        Ok(live_bytes() - before)
    };
    collect(40);
    once(case, ctx)?;
    let (a, b) = (once(case, ctx)?, once(case, ctx)?);
    // nodes of this element type are far larger than what the reclamation scheme may keep for itself
    let pushes = case.ops.iter().filter(|o| o[0] == PUSH).count() as i64;
    if pushes > 40 {
        ctx.label("memory balance checked");
        let most = 64 * 200;
        if a.min(b) > most.max(pushes * 60) {
            return fail(Kind::O, format!("{} bytes are left after {} pushes and the drop of the stack", a.min(b), pushes));
        }
    }
    Ok(())
}

fn t<E: Item>(name: &'static str, quick: u64, thorough: u64) -> Target {
    Target::new(name, quick, thorough, gen, run::<E>).unbalanced()
}
fn s<E: Item>(name: &'static str, quick: u64, thorough: u64) -> Target {
    Target::new(name, quick, thorough, gen_seq, run_seq::<E>).unbalanced()
}

fn body() {
    const RULE: &str = "non-trivial: calls of different threads overlapped in time (threads targets), or more than two elements were popped (sequential targets)";
    let v = vec![
        Prop {
            id: "C16",
            rule: RULE,
            accept: &[Kind::F],
            targets: vec![
                t::<Num>("threads-numbers", 48000, 2000000),
                t::<Tr>("threads-tracked", 12000, 500000),
                s::<Num>("sequential", 2000, 100000),
            ],
        },
        Prop {
            id: "C17",
            rule: RULE,
            accept: &[Kind::O],
            targets: vec![
                t::<Tr>("threads-tracked", 24000, 1000000),
                t::<Big>("threads-big", 24000, 1000000),
                s::<Big>("sequential", 2000, 100000),
                Target::new("memory", 1200, 50000, gen_seq, run_mem).unbalanced(),
            ],
        },
    ];
    engine::main(v);
}

fn main() {
    let w = std::thread::Builder::new().stack_size(2 << 20).spawn(body).unwrap();
    let _ = w.join();
    std::process::exit(2);
}
