//! C31: elements whose comparisons panic or contradict each other, or whose destructors panic. Results may be anything
//! and elements may be lost or leaked, but nothing may be used after it was freed, dropped twice or read from where no
//! element is.
use engine::elem::{Tr, V};
use engine::*;
use extended_collections::avl_tree::{AvlMap, AvlSet};
use extended_collections::red_black_tree::{RedBlackMap, RedBlackSet};
use extended_collections::skiplist::{SkipList, SkipMap, SkipSet};
use extended_collections::splay_tree::{SplayMap, SplaySet};
use extended_collections::sync::Stack;
use extended_collections::treap::{TreapList, TreapMap, TreapSet};
use std::cell::Cell;
use std::cmp::Ordering;

const INSERT: u64 = 0;
const REMOVE: u64 = 1;
const GET: u64 = 2;
const GETMUT: u64 = 3;
const NEAR: u64 = 4;
const ENDS: u64 = 5;
const ITER: u64 = 6;
const ITERMUT: u64 = 7;
const INTO: u64 = 8;
const CLEAR: u64 = 9;
const ALG: u64 = 10;
const CUT: u64 = 11;
const WILD: u64 = 12;
const NOPS: u64 = 13;

thread_local! {
    /// Comparisons until something happens, what happens, percentage of false answers, state, comparisons so far.
    static PLAN: Cell<(u64, u64, u64, u64, u64)> = const { Cell::new((u64::MAX, 0, 0, 0, 0)) };
    /// Destructors until one of them panics.
    static BOMB: Cell<u64> = const { Cell::new(u64::MAX) };
    /// The collection is at work.
    static INSIDE: Cell<bool> = const { Cell::new(false) };
}
fn inside<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    INSIDE.with(|i| i.set(true));
    let r = catch(f);
    INSIDE.with(|i| i.set(false));
    r
}
pub struct W {
    q: u32,
    tr: Tr,
}
impl W {
    fn new(q: u64) -> W {
        W { q: q as u32 % 4096, tr: Tr::new() }
    }
    fn check(&self) -> bool {
        self.tr.ok()
    }
}
impl Drop for W {
    fn drop(&mut self) {
        if INSIDE.with(|i| i.get()) && !std::thread::panicking() {
            let left = BOMB.with(|b| b.get());
            if left == 0 {
                BOMB.with(|b| b.set(u64::MAX));
                panic!("a destructor panics");
            }
            if left != u64::MAX {
                BOMB.with(|b| b.set(left - 1));
            }
        }
    }
}
fn compare(a: &W, b: &W) -> Ordering {
    let (left, what, rate, state, done) = PLAN.with(|p| p.get());
    let state = mix(state + 1);
    PLAN.with(|p| p.set((left.saturating_sub(1), what, rate, state, done + 1)));
    if done > 100_000 {
        panic!("too many comparisons");
    }
    if left == 0 {
        PLAN.with(|p| p.set((u64::MAX, what, rate, state, done + 1)));
    }
    let pick = match (left, what % 4) {
        (0, 0) => panic!("a comparison panics"),
        (0, w) => Some(w - 1),
        _ if state % 100 < rate => Some(state / 100 % 3),
        _ => None,
    };
    match pick {
        Some(0) => Ordering::Less,
        Some(1) => Ordering::Equal,
        Some(_) => Ordering::Greater,
        None => a.q.cmp(&b.q),
    }
}
impl PartialEq for W {
    fn eq(&self, o: &W) -> bool {
        compare(self, o) == Ordering::Equal
    }
}
impl Eq for W {}
impl PartialOrd for W {
    fn partial_cmp(&self, o: &W) -> Option<Ordering> {
        Some(compare(self, o))
    }
}
impl Ord for W {
    fn cmp(&self, o: &W) -> Ordering {
        compare(self, o)
    }
}

/// Every reference that comes out is followed.
pub trait Wild: Sized + 'static {
    fn new() -> Self;
    fn put(&mut self, k: W) -> bool;
    fn del(&mut self, k: &W) -> bool;
    fn has(&self, k: &W) -> bool;
    fn change(&mut self, k: &W) -> bool;
    fn near(&self, k: &W) -> bool;
    fn ends(&self) -> bool;
    fn walk(&self, n: usize) -> bool;
    fn walk_mut(&mut self, n: usize) -> bool;
    fn consume(self, n: usize) -> bool;
    fn wipe(&mut self);
    fn alg(self, _o: Self, _which: u64) -> Self {
        self
    }
    fn cut(&mut self, _k: &W, _inclusive: bool) -> Option<Self> {
        None
    }
}
fn all<'a>(it: impl Iterator<Item = (&'a W, Option<&'a V>)>, n: usize) -> bool {
    // a damaged list can be endless
    let mut left = n.min(5000);
    for (k, v) in it {
        if !k.check() || v.map_or(false, |v| !v.tr.ok()) {
            return false;
        }
        if left == 0 {
            break;
        }
        left -= 1;
    }
    true
}
fn own(it: impl Iterator<Item = (W, Option<V>)>, n: usize) -> bool {
    let mut left = n.min(5000);
    for (k, v) in it {
        if !k.check() || v.map_or(false, |v| !v.tr.ok()) {
            return false;
        }
        if left == 0 {
            break;
        }
        left -= 1;
    }
    true
}
macro_rules! wild_map {
    ($m:ident $($alg:ident)? $(, $cut:ident)?) => {
        impl Wild for $m<W, V> {
            fn new() -> Self { $m::new() }
            fn put(&mut self, k: W) -> bool {
                let v = V::new(k.q);
                self.insert(k, v).map_or(true, |(k, v)| k.check() && v.tr.ok())
            }
            fn del(&mut self, k: &W) -> bool { self.remove(k).map_or(true, |(k, v)| k.check() && v.tr.ok()) }
            fn has(&self, k: &W) -> bool { self.contains_key(k); self.get(k).map_or(true, |v| v.tr.ok()) }
            fn change(&mut self, k: &W) -> bool {
                self.get_mut(k).map_or(true, |v| { let ok = v.tr.ok(); *v = V::new(1); ok })
            }
            fn near(&self, k: &W) -> bool {
                self.floor(k).map_or(true, |k| k.check()) && self.ceil(k).map_or(true, |k| k.check())
            }
            fn ends(&self) -> bool {
                let _ = (self.len(), self.is_empty());
                self.min().map_or(true, |k| k.check()) && self.max().map_or(true, |k| k.check())
            }
            fn walk(&self, n: usize) -> bool { all(self.iter().map(|(k, v)| (k, Some(v))), n) }
            fn walk_mut(&mut self, n: usize) -> bool {
                all(self.iter_mut().map(|(k, v)| { *v = V::new(2); (k, Some(&*v)) }), n)
            }
            fn consume(self, n: usize) -> bool { own(self.into_iter().map(|(k, v)| (k, Some(v))), n) }
            fn wipe(&mut self) { self.clear() }
            $(
                fn alg(self, o: Self, which: u64) -> Self {
                    let _ = stringify!($alg);
                    match which % 6 {
                        0 => $m::union(self, o),
                        1 => $m::intersection(self, o),
                        2 => $m::difference(self, o),
                        3 => $m::symmetric_difference(self, o),
                        4 => self + o,
                        _ => self - o,
                    }
                }
            )?
            $( fn cut(&mut self, k: &W, inclusive: bool) -> Option<Self> { Some(self.$cut(k, inclusive)) } )?
        }
    };
}
macro_rules! wild_set {
    ($m:ident $($alg:ident)? $(, $cut:ident)?) => {
        impl Wild for $m<W> {
            fn new() -> Self { $m::new() }
            fn put(&mut self, k: W) -> bool { self.insert(k).map_or(true, |k| k.check()) }
            fn del(&mut self, k: &W) -> bool { self.remove(k).map_or(true, |k| k.check()) }
            fn has(&self, k: &W) -> bool { self.contains(k); true }
            fn change(&mut self, _: &W) -> bool { true }
            fn near(&self, k: &W) -> bool {
                self.floor(k).map_or(true, |k| k.check()) && self.ceil(k).map_or(true, |k| k.check())
            }
            fn ends(&self) -> bool {
                let _ = (self.len(), self.is_empty());
                self.min().map_or(true, |k| k.check()) && self.max().map_or(true, |k| k.check())
            }
            fn walk(&self, n: usize) -> bool { all(self.iter().map(|k| (k, None)), n) }
            fn walk_mut(&mut self, n: usize) -> bool { self.walk(n) }
            fn consume(self, n: usize) -> bool { own(self.into_iter().map(|k| (k, None)), n) }
            fn wipe(&mut self) { self.clear() }
            $(
                fn alg(self, o: Self, which: u64) -> Self {
                    let _ = stringify!($alg);
                    match which % 6 {
                        0 => $m::union(self, o),
                        1 => $m::intersection(self, o),
                        2 => $m::difference(self, o),
                        3 => $m::symmetric_difference(self, o),
                        4 => self + o,
                        _ => self - o,
                    }
                }
            )?
            $( fn cut(&mut self, k: &W, inclusive: bool) -> Option<Self> { Some(self.$cut(k, inclusive)) } )?
        }
    };
}
macro_rules! wild_list {
    ($m:ident) => {
        impl Wild for $m<W> {
            fn new() -> Self { $m::new() }
            fn put(&mut self, k: W) -> bool { let i = k.q as usize % (self.len() + 1); self.insert(i, k); true }
            fn del(&mut self, k: &W) -> bool {
                let i = k.q as usize % self.len().max(1);
                self.is_empty() || self.remove(i).check()
            }
            fn has(&self, k: &W) -> bool { self.get(k.q as usize).map_or(true, |k| k.check()) }
            fn change(&mut self, k: &W) -> bool {
                self.get_mut(k.q as usize).map_or(true, |v| { let ok = v.check(); *v = W::new(1); ok })
            }
            fn near(&self, _: &W) -> bool { true }
            fn ends(&self) -> bool { self.get(self.len()).is_none() }
            fn walk(&self, n: usize) -> bool { all(self.iter().map(|k| (k, None)), n) }
            fn walk_mut(&mut self, n: usize) -> bool { all(self.iter_mut().map(|k| { *k = W::new(2); (&*k, None) }), n) }
            fn consume(self, n: usize) -> bool { own(self.into_iter().map(|k| (k, None)), n) }
            fn wipe(&mut self) { self.clear() }
            fn alg(self, o: Self, _: u64) -> Self { self + o }
        }
    };
}
wild_list!(SkipList);
wild_list!(TreapList);
impl Wild for Stack<W> {
    fn new() -> Self { Stack::new() }
    fn put(&mut self, k: W) -> bool { self.push(k); true }
    fn del(&mut self, _: &W) -> bool { self.try_pop().map_or(true, |k| k.check()) }
    fn has(&self, _: &W) -> bool { self.is_empty() == (self.len() == 0) }
    fn change(&mut self, _: &W) -> bool { true }
    fn near(&self, _: &W) -> bool { true }
    fn ends(&self) -> bool { true }
    fn walk(&self, _: usize) -> bool { true }
    fn walk_mut(&mut self, _: usize) -> bool { true }
    fn consume(self, n: usize) -> bool {
        for _ in 0..n {
            match self.try_pop() {
                Some(k) if !k.check() => return false,
                Some(_) => {}
                None => break,
            }
        }
        true
    }
    fn wipe(&mut self) { *self = Stack::new() }
}
wild_map!(AvlMap);
wild_map!(RedBlackMap);
wild_map!(SplayMap);
wild_map!(SkipMap alg);
wild_map!(TreapMap alg, split_off);
wild_set!(AvlSet);
wild_set!(RedBlackSet);
wild_set!(SplaySet);
wild_set!(SkipSet alg);
wild_set!(TreapSet alg, split_off);

pub fn history(rng: &mut Rng, _: &Gen) -> Case {
    let rate = rng.pick(&[0, 0, 0, 2, 10, 40]);
    let ks = rng.pick(&[4, 10, 40, 300]);
    let mut ops = Vec::new();
    for _ in 0..rng.range(1, 5) {
        let mix: [u64; NOPS as usize] = match rng.below(4) {
            0 => [60, 10, 4, 2, 2, 2, 2, 2, 0, 0, 1, 1, 8],
            1 => [20, 40, 4, 2, 2, 2, 2, 2, 1, 1, 2, 1, 12],
            2 => [30, 20, 4, 2, 2, 2, 4, 2, 2, 1, 10, 6, 12],
            _ => [40, 20, 10, 5, 10, 2, 6, 2, 1, 1, 3, 2, 3],
        };
        for _ in 0..rng.len(120) {
            let k = rng.weighted(&mix) as u64;
            ops.push(match k {
                WILD => [k, rng.len(24) , rng.pick(&[0, 0, 0, 1, 2, 3, 4, 4, 4]), 0],
                _ => [k, rng.below(ks), rng.below(2), rng.len(60)],
            });
        }
    }
    Case { cfg: vec![rate, rng.below(1 << 30)], ops }
}

pub fn run<M: Wild>(case: &Case, ctx: &mut Ctx) -> Res {
    let rate = case.c(0) % 101;
    PLAN.with(|p| p.set((u64::MAX, 0, rate, case.c(1) >> 1, 0)));
    BOMB.with(|b| b.set(u64::MAX));
    let mut regs: Vec<M> = vec![M::new(), M::new()];
    let mut panics = 0;
    for (i, o) in case.ops.iter().enumerate() {
        let r = (o[2] % 2) as usize;
        let n = (o[3] % 5000) as usize;
        PLAN.with(|p| {
            let mut v = p.get();
            v.4 = 0;
            p.set(v)
        });
        let key = W::new(o[1]);
        let done = match o[0] {
            INSERT => inside(|| regs[r].put(key)),
            REMOVE => inside(|| regs[r].del(&key)),
            GET => inside(|| regs[r].has(&key)),
            GETMUT => inside(|| regs[r].change(&key)),
            NEAR => inside(|| regs[r].near(&key)),
            ENDS => inside(|| regs[r].ends()),
            ITER => inside(|| regs[r].walk(n)),
            ITERMUT => inside(|| regs[r].walk_mut(n)),
            CLEAR => inside(|| {
                regs[r].wipe();
                true
            }),
            INTO => {
                let m = std::mem::replace(&mut regs[r], M::new());
                inside(|| m.consume(n))
            }
            ALG => {
                let b = regs.pop().unwrap();
                let a = regs.pop().unwrap();
                let x = inside(|| a.alg(b, o[1]));
                let ok = x.is_ok();
                regs.push(x.unwrap_or_else(|_| M::new()));
                regs.push(M::new());
                if ok { Ok(true) } else { Err(String::new()) }
            }
            CUT => {
                let x = inside(|| regs[r].cut(&key, o[3] % 2 == 1));
                match x {
                    Ok(Some(m)) => {
                        inside(|| { regs[1 - r] = m; true })
                    }
                    Ok(None) => Ok(true),
                    Err(e) => Err(e),
                }
            }
            WILD if o[2] % 8 >= 4 => {
                BOMB.with(|b| b.set(o[1] % 1000));
                Ok(true)
            }
            WILD => {
                PLAN.with(|p| {
                    let mut v = p.get();
                    v.0 = o[1] % 1000;
                    v.1 = o[2];
                    p.set(v)
                });
                Ok(true)
            }
            _ => Ok(true),
        };
        match done {
            Ok(true) => {}
            Ok(false) => return fail(Kind::O, format!("op {}: an element that is not there was handed out", i)),
            Err(_) => panics += 1,
        }
    }
    ctx.label_n("operations that panicked", panics);
    if panics > 0 || rate > 0 {
        ctx.mark();
    }
    PLAN.with(|p| p.set((u64::MAX, 0, 0, 0, 0)));
    if case.c(1) % 2 == 0 {
        BOMB.with(|b| b.set(u64::MAX));
    }
    // whatever happened, both collections can be looked through and dropped
    for (i, mut m) in regs.into_iter().enumerate() {
        if !inside(|| m.walk(usize::MAX) && m.walk_mut(usize::MAX) && m.ends()).unwrap_or(true) {
            return fail(Kind::O, "an element that is not there was handed out at the end".to_string());
        }
        if (case.ops.len() + i) % 2 == 0 {
            if !inside(|| m.consume(3)).unwrap_or(true) {
                return fail(Kind::O, "an element that is not there was handed out at the end".to_string());
            }
        } else {
            let _ = inside(|| drop(m));
        }
    }
    engine::elem::forget_live();
    Ok(())
}
