//! Elements whose ownership is tracked, and keys whose comparisons are counted.
use std::borrow::Borrow;
use std::cell::Cell;
use std::cmp::Ordering;
use std::sync::Mutex;

struct Registry {
    state: Vec<u8>, // 1 live, 2 dropped
    live: usize,
    errors: Vec<String>,
}
static REG: Mutex<Registry> = Mutex::new(Registry { state: Vec::new(), live: 0, errors: Vec::new() });

fn reg() -> std::sync::MutexGuard<'static, Registry> {
    REG.lock().unwrap_or_else(|e| e.into_inner())
}

pub fn reset_registry() {
    let mut r = reg();
    r.state = Vec::new();
    r.live = 0;
    r.errors = Vec::new();
}
pub fn live_elements() -> usize {
    reg().live
}
/// Elements that are still there are not leaks.
pub fn forget_live() {
    reg().live = 0;
}
pub fn ownership_errors() -> Vec<String> {
    reg().errors.clone()
}
pub fn undropped() -> Vec<u32> {
    let r = reg();
    r.state.iter().enumerate().filter(|x| *x.1 == 1).map(|x| x.0 as u32).take(8).collect()
}

/// A value that owns heap memory and knows when it is dropped.
pub struct Tr {
    id: u32,
    heap: Box<(u32, u32)>,
}
impl Tr {
    pub fn new() -> Tr {
        let mut r = reg();
        let id = r.state.len() as u32;
        r.state.push(1);
        r.live += 1;
        drop(r);
        Tr { id, heap: Box::new((id, !id)) }
    }
    pub fn id(&self) -> u32 {
        self.id
    }
    pub fn ok(&self) -> bool {
        self.heap.0 == self.id && self.heap.1 == !self.id
    }
}
impl Drop for Tr {
    fn drop(&mut self) {
        let fine = self.heap.0 == self.id && self.heap.1 == !self.id;
        let mut r = reg();
        let id = self.id as usize;
        if !fine {
            r.errors.push(format!("element {} has corrupt contents when dropped", self.id));
        }
        match r.state.get(id).copied() {
            Some(1) => {
                r.state[id] = 2;
                r.live -= 1;
            }
            Some(_) => r.errors.push(format!("element {} dropped twice", id)),
            None => r.errors.push(format!("element {} dropped but never created", id)),
        }
        self.heap.0 = 0xdead_beef;
    }
}

thread_local! {
    static CMPS: Cell<u64> = const { Cell::new(0) };
}
pub fn cmps() -> u64 {
    CMPS.with(|c| c.get())
}
pub fn reset_cmps() {
    CMPS.with(|c| c.set(0));
}

/// The part of a key that is ordered; comparisons are counted.
#[derive(Clone, Copy, PartialEq, Eq, Debug, Hash)]
pub struct Q(pub u32);
impl Ord for Q {
    fn cmp(&self, o: &Q) -> Ordering {
        CMPS.with(|c| c.set(c.get() + 1));
        self.0.cmp(&o.0)
    }
}
impl PartialOrd for Q {
    fn partial_cmp(&self, o: &Q) -> Option<Ordering> {
        Some(self.cmp(o))
    }
}

/// A key ordered by `q` alone; `tag` tells equal keys apart; `tr` tracks ownership.
pub struct K {
    pub q: Q,
    pub tag: u32,
    pub tr: Tr,
}
impl K {
    pub fn new(q: u32, tag: u32) -> K {
        K { q: Q(q), tag, tr: Tr::new() }
    }
}
impl PartialEq for K {
    fn eq(&self, o: &K) -> bool {
        self.q == o.q
    }
}
impl Eq for K {}
impl Ord for K {
    fn cmp(&self, o: &K) -> Ordering {
        self.q.cmp(&o.q)
    }
}
impl PartialOrd for K {
    fn partial_cmp(&self, o: &K) -> Option<Ordering> {
        Some(self.cmp(o))
    }
}
impl Borrow<Q> for K {
    fn borrow(&self) -> &Q {
        &self.q
    }
}

/// A value with a number and tracked ownership.
pub struct V {
    pub n: u32,
    pub tr: Tr,
}
impl V {
    pub fn new(n: u32) -> V {
        V { n, tr: Tr::new() }
    }
}
