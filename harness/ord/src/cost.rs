//! C08, C09: how many comparisons (or executed edges) operations take, and how deep they recurse.
use engine::elem::{cmps, Q};
use engine::*;
use extended_collections::avl_tree::{AvlMap, AvlSet};
use extended_collections::red_black_tree::{RedBlackMap, RedBlackSet};
use extended_collections::skiplist::{SkipList, SkipMap, SkipSet};
use extended_collections::splay_tree::{SplayMap, SplaySet};
use extended_collections::treap::{TreapList, TreapMap, TreapSet};
use std::collections::BTreeSet;

/// What the cost checks need of a map or set. Keys are `Q`, whose comparisons are counted.
pub trait Ordered: Sized + 'static {
    fn new() -> Self;
    fn put(&mut self, k: u32);
    fn del(&mut self, k: u32) -> bool;
    fn has(&self, k: u32) -> bool;
    fn has_mut(&mut self, k: u32) -> bool;
    fn lo(&self, k: u32) -> Option<u32>;
    fn hi(&self, k: u32) -> Option<u32>;
    fn ends(&self) -> (Option<u32>, Option<u32>);
    fn count(&self) -> usize;
    fn wipe(&mut self);
    fn walk(&self, n: usize) -> usize;
    fn consume(self, n: usize) -> usize;
    fn join(self, _o: Self) -> Self {
        unreachable!()
    }
    fn cut(&mut self, _k: u32) -> Option<Self> {
        None
    }
    /// Whether `has_mut` has mutable access, so that an adaptive tree can restructure in it.
    const MUTABLE_LOOKUP: bool;
    /// Whether uniting with a single element is a cheap operation.
    const QUICK_JOIN: bool;
}
macro_rules! ordered_map {
    ($m:ident $(, join $j:ident)? $(, cut $c:ident)?) => {
        impl Ordered for $m<Q, u32> {
            const MUTABLE_LOOKUP: bool = true;
            const QUICK_JOIN: bool = false $(|| !stringify!($c).is_empty())?;
            fn new() -> Self { $m::new() }
            fn put(&mut self, k: u32) { self.insert(Q(k), k); }
            fn del(&mut self, k: u32) -> bool { self.remove(&Q(k)).is_some() }
            fn has(&self, k: u32) -> bool { self.get(&Q(k)).is_some() }
            fn has_mut(&mut self, k: u32) -> bool { self.get_mut(&Q(k)).is_some() }
            fn lo(&self, k: u32) -> Option<u32> { self.floor(&Q(k)).map(|q| q.0) }
            fn hi(&self, k: u32) -> Option<u32> { self.ceil(&Q(k)).map(|q| q.0) }
            fn ends(&self) -> (Option<u32>, Option<u32>) { (self.min().map(|q| q.0), self.max().map(|q| q.0)) }
            fn count(&self) -> usize { self.len() }
            fn wipe(&mut self) { self.clear() }
            fn walk(&self, n: usize) -> usize { self.iter().take(n).count() }
            fn consume(self, n: usize) -> usize { self.into_iter().take(n).count() }
            $(fn join(self, o: Self) -> Self { $m::$j(self, o) })?
            $(fn cut(&mut self, k: u32) -> Option<Self> { Some(self.$c(&Q(k), true)) })?
        }
    };
}
macro_rules! ordered_set {
    ($m:ident $(, join $j:ident)? $(, cut $c:ident)?) => {
        impl Ordered for $m<Q> {
            const MUTABLE_LOOKUP: bool = false;
            const QUICK_JOIN: bool = false $(|| !stringify!($c).is_empty())?;
            fn new() -> Self { $m::new() }
            fn put(&mut self, k: u32) { self.insert(Q(k)); }
            fn del(&mut self, k: u32) -> bool { self.remove(&Q(k)).is_some() }
            fn has(&self, k: u32) -> bool { self.contains(&Q(k)) }
            fn has_mut(&mut self, k: u32) -> bool { self.contains(&Q(k)) }
            fn lo(&self, k: u32) -> Option<u32> { self.floor(&Q(k)).map(|q| q.0) }
            fn hi(&self, k: u32) -> Option<u32> { self.ceil(&Q(k)).map(|q| q.0) }
            fn ends(&self) -> (Option<u32>, Option<u32>) { (self.min().map(|q| q.0), self.max().map(|q| q.0)) }
            fn count(&self) -> usize { self.len() }
            fn wipe(&mut self) { self.clear() }
            fn walk(&self, n: usize) -> usize { self.iter().take(n).count() }
            fn consume(self, n: usize) -> usize { self.into_iter().take(n).count() }
            $(fn join(self, o: Self) -> Self { $m::$j(self, o) })?
            $(fn cut(&mut self, k: u32) -> Option<Self> { Some(self.$c(&Q(k), true)) })?
        }
    };
}
ordered_map!(AvlMap);
ordered_set!(AvlSet);
ordered_map!(RedBlackMap);
ordered_set!(RedBlackSet);
ordered_map!(SplayMap);
ordered_set!(SplaySet);
ordered_map!(SkipMap, join union);
ordered_set!(SkipSet, join union);
ordered_map!(TreapMap, join union, cut split_off);
ordered_set!(TreapSet, join union, cut split_off);

// ---------------------------------------------------------------- C08
/// Levels a balanced tree of n keys may have.
#[derive(Clone, Copy)]
pub enum Shape {
    Avl,
    RedBlack,
}
fn levels(s: Shape, n: usize) -> f64 {
    match s {
        Shape::Avl => 1.4405 * ((n + 2) as f64).log2(),
        Shape::RedBlack => 2.0 * ((n + 1) as f64).log2(),
    }
}

struct Meter<M: Ordered> {
    m: M,
    keys: BTreeSet<u32>,
    shape: Shape,
    per_level: u64,
    worst: f64,
}
impl<M: Ordered> Meter<M> {
    fn new(shape: Shape) -> Self {
        // comparisons one level costs, from a map with one key
        let mut per_level = 1;
        for k in [4, 5, 6] {
            for what in 0..6 {
                let mut m = M::new();
                m.put(5);
                let c = cmps();
                match what {
                    0 => drop(m.has(k)),
                    1 => drop(m.lo(k)),
                    2 => drop(m.hi(k)),
                    3 => drop(m.has_mut(k)),
                    4 => m.put(k),
                    _ => drop(m.del(k)),
                }
                per_level = per_level.max(cmps() - c);
            }
        }
        Meter { m: M::new(), keys: BTreeSet::new(), shape, per_level: per_level.min(3), worst: 0.0 }
    }
    fn op(&mut self, what: &str, k: u32, f: impl FnOnce(&mut M, u32)) -> Res {
        let n = self.keys.len();
        let c = cmps();
        f(&mut self.m, k);
        let d = cmps() - c;
        // removals may visit a level more than once because they rotate on the way down
        let slack = if what == "remove" { 2.0 } else { 1.0 };
        let spare = if matches!(what, "insert" | "remove") { 2.0 } else { 1.0 };
        let bound = self.per_level as f64 * (slack * levels(self.shape, n) + spare);
        if n > 8 {
            self.worst = self.worst.max(d as f64 / bound);
        }
        if d as f64 > bound {
            return fail(
                Kind::X,
                format!("{}({}) compares keys {} times in a collection of {} keys (at most {:.0} expected)", what, k, d, n, bound),
            );
        }
        Ok(())
    }
    fn put(&mut self, k: u32) -> Res {
        self.op("insert", k, |m, k| m.put(k))?;
        self.keys.insert(k);
        Ok(())
    }
    fn del(&mut self, k: u32) -> Res {
        self.op("remove", k, |m, k| {
            m.del(k);
        })?;
        self.keys.remove(&k);
        Ok(())
    }
    fn look(&mut self, k: u32) -> Res {
        self.op("get", k, |m, k| drop(m.has(k)))?;
        self.op("get_mut", k, |m, k| drop(m.has_mut(k)))?;
        self.op("floor", k, |m, k| drop(m.lo(k)))?;
        self.op("ceil", k, |m, k| drop(m.hi(k)))
    }
    fn sweep(&mut self, most: usize) -> Res {
        let step = (self.keys.len() / most.max(1)).max(1);
        let ks: Vec<u32> = self.keys.iter().copied().step_by(step).collect();
        for k in ks {
            self.look(k)?;
            self.look(k.wrapping_add(1))?;
        }
        Ok(())
    }
}

pub fn balance_history(rng: &mut Rng, g: &Gen) -> Case {
    let mut ops: Vec<Op> = Vec::new();
    let big = g.index % 16 == 15;
    let unit = if big { 2000 } else { rng.pick(&[12, 40, 120, 400]) };
    for _ in 0..rng.range(2, 14) {
        let k = match rng.below(10) {
            0..=3 => rng.range(5, 6),
            4 => 11,
            5 => 14,
            6 => rng.range(7, 8),
            7 => rng.range(9, 10),
            8 => 12,
            _ => 13,
        };
        let a = match rng.below(3) {
            0 => 0,
            1 => rng.below(1 << 20),
            _ => rng.below(4 * unit),
        };
        ops.push([k, a, rng.len(unit), rng.pick(&[1, 1, 2, 3, 7, 64])]);
        for _ in 0..rng.below(6) {
            ops.push([rng.below(5), rng.below(4 * unit), 0, 0]);
        }
        if rng.chance(50) {
            // take the same rank out again and again
            ops.push([13, rng.below(1000), rng.len(unit), 0]);
        }
    }
    Case { cfg: vec![], ops }
}

pub fn run_balance<M: Ordered>(shape: Shape) -> impl Fn(&Case, &mut Ctx) -> Res {
    move |case, ctx| {
        let mut t: Meter<M> = Meter::new(shape);
        let mut budget = 40_000i64;
        let mut peak = 0;
        let mut removed = 0;
        for (i, op) in case.ops.iter().enumerate() {
            let a = op[1] as u32 & 0xff_ffff;
            let n = op[2].min(6000) as u32;
            let stride = (op[3] as u32 & 0xff).max(1);
            let kind = op[0] % 16;
            if kind >= 5 {
                budget -= n as i64;
            }
            if budget < 0 {
                break;
            }
            removed += matches!(kind, 1 | 7 | 8 | 9 | 10 | 12 | 13) as u32;
            match kind {
                0 => t.put(a)?,
                1 => t.del(a)?,
                2 | 3 | 4 => t.look(a)?,
                5 => (0..n).try_for_each(|j| t.put(a + j * stride))?,
                6 => (0..n).rev().try_for_each(|j| t.put(a + j * stride))?,
                7 => (0..n).try_for_each(|j| t.del(a + j * stride))?,
                8 => (0..n).rev().try_for_each(|j| t.del(a + j * stride))?,
                9 => {
                    for _ in 0..n {
                        if let Some(k) = t.keys.iter().next().copied() {
                            t.del(k)?;
                        }
                    }
                }
                10 => {
                    for _ in 0..n {
                        if let Some(k) = t.keys.iter().next_back().copied() {
                            t.del(k)?;
                        }
                    }
                }
                11 => {
                    let mut r = Rng::new(op[1]);
                    for _ in 0..n {
                        let k = r.below(1 << 22) as u32;
                        t.put(k)?;
                    }
                }
                12 => {
                    let mut r = Rng::new(op[1]);
                    let mut ks: Vec<u32> = t.keys.iter().copied().collect();
                    for _ in 0..n.min(ks.len() as u32) {
                        let j = r.below(ks.len() as u64) as usize;
                        let k = ks.swap_remove(j);
                        t.del(k)?;
                    }
                }
                13 => {
                    let mut ks: Vec<u32> = t.keys.iter().copied().collect();
                    for _ in 0..n {
                        if ks.is_empty() {
                            break;
                        }
                        let j = (op[1] % 1000) as usize * ks.len() / 1000;
                        let k = ks.remove(j);
                        t.del(k)?;
                    }
                }
                14 => {
                    for j in 0..n {
                        t.put(if j % 2 == 0 { a + j } else { (a + 2 * n).wrapping_sub(j) })?;
                    }
                }
                _ => t.sweep(40)?,
            }
            peak = peak.max(t.keys.len());
            if kind >= 5 {
                t.sweep(30)?;
            }
            let _ = i;
        }
        t.sweep(usize::MAX)?;
        ck_eq!(t.m.count(), t.keys.len(), "len at the end");
        ctx.score = (t.worst * 1000.0) as u64;
        if peak >= 16 && removed >= 1 {
            ctx.mark();
        }
        if peak >= 1000 {
            ctx.label("peak >= 1000 keys");
        }
        Ok(())
    }
}

// Greedy adversary: start from the sparsest balanced shape, then at every step try some updates and
// keep the one that leaves the longest search path for the number of keys left.
fn sparse(h: u32, base: u32, mirror: bool, out: &mut Vec<(u32, u32)>, depth: u32) -> u32 {
    if h == 0 {
        return base;
    }
    let (a, b) = if mirror { (h.saturating_sub(2), h - 1) } else { (h - 1, h.saturating_sub(2)) };
    let me = sparse(a, base, mirror, out, depth + 1);
    out.push((depth, me * 8));
    sparse(b, me + 1, mirror, out, depth + 1)
}

pub fn adversary_case(rng: &mut Rng, _: &Gen) -> Case {
    let shape = rng.weighted(&[6, 2, 1]) as u64;
    Case { cfg: vec![shape, rng.range(6, 10), rng.next() >> 16, rng.range(8, 40), rng.below(4)], ops: vec![] }
}

pub fn run_adversary<M: Ordered>(shape: Shape) -> impl Fn(&Case, &mut Ctx) -> Res {
    move |case, ctx| {
        let c = |i: usize| case.cfg.get(i).copied().unwrap_or(0);
        let h = (c(1) % 11) as u32;
        let mut rng = Rng::new(c(2));
        let tries = 1 + c(3) % 40;
        let mut hist: Vec<(bool, u32)> = Vec::new();
        match c(0) % 3 {
            0 => {
                let mut v = Vec::new();
                sparse(h, 1, c(2) % 2 == 1, &mut v, 0);
                v.sort();
                hist.extend(v.into_iter().map(|(_, k)| (true, k)));
            }
            1 => hist.extend(order(c(4), 1 << (h % 8), c(2)).into_iter().map(|k| (true, (k + 1) * 8))),
            _ => hist.extend((0..1u32 << (h % 8)).map(|_| (true, rng.below(4000) as u32 * 8 + 8))),
        }
        // excess of the longest path over the bound; the keys that are there
        let measure = |hist: &[(bool, u32)]| -> Result<(f64, Vec<u32>), Fail> {
            let mut t: Meter<M> = Meter::new(shape);
            for &(put, k) in hist {
                if put {
                    t.put(k)?
                } else {
                    t.del(k)?
                }
            }
            let mut longest = 0;
            let ks: Vec<u32> = t.keys.iter().copied().collect();
            for &k in &ks {
                for q in [k, k + 1] {
                    let c = cmps();
                    t.m.has(q);
                    longest = longest.max(cmps() - c);
                }
                t.look(k)?;
            }
            Ok((longest as f64 / t.per_level as f64 - levels(shape, ks.len()), ks))
        };
        let (mut best, mut ks) = measure(&hist)?;
        let mut tries_done = 0;
        while ks.len() > 4 && hist.len() < 260 {
            let mut next: Option<(f64, Vec<u32>, (bool, u32))> = None;
            for _ in 0..tries {
                let k = ks[rng.below(ks.len() as u64) as usize];
                let step = if c(4) % 4 == 3 && rng.chance(20) { (true, k + 1 + rng.below(7) as u32) } else { (false, k) };
                hist.push(step);
                let r = measure(&hist);
                hist.pop();
                let (x, left) = r.map_err(|mut f| {
                    f.msg = format!("{} after {:?} then {:?}", f.msg, hist, step);
                    f
                })?;
                tries_done += 1;
                if next.as_ref().map_or(true, |n| x > n.0) {
                    next = Some((x, left, step));
                }
            }
            let (x, left, step) = next.unwrap();
            hist.push(step);
            ks = left;
            best = best.max(x);
        }
        ctx.label_n("histories measured", tries_done);
        ctx.score = ((best + 10.0).max(0.0) * 100.0) as u64;
        if tries_done >= 100 {
            ctx.mark();
        }
        Ok(())
    }
}

// ---------------------------------------------------------------- C09
/// A key order: ascending, descending, zig-zag, blocks, random.
fn order(which: u64, n: u32, seed: u64) -> Vec<u32> {
    let mut v: Vec<u32> = (0..n).collect();
    match which % 8 {
        0 => {}
        1 => v.reverse(),
        2 => {
            for j in 0..n {
                v[j as usize] = if j % 2 == 0 { j / 2 } else { n - 1 - j / 2 };
            }
        }
        3 => {
            // ascending blocks, taken backwards
            let b = (n / 16).max(1) as usize;
            let mut w = Vec::new();
            for c in v.chunks(b).rev() {
                w.extend_from_slice(c);
            }
            v = w;
        }
        4 => {
            // middle outwards
            for j in 0..n {
                v[j as usize] = if j % 2 == 0 { n / 2 + j / 2 } else { n / 2 - j / 2 - 1 }.min(n - 1);
            }
        }
        5 => {
            // bit-reversed
            let bits = 32 - n.leading_zeros();
            v = (0..1u64 << bits).map(|j| (j as u32).reverse_bits() >> (32 - bits.max(1))).filter(|j| *j < n).collect();
        }
        _ => {
            let mut r = Rng::new(seed);
            for a in (1..v.len()).rev() {
                let b = r.below(a as u64 + 1) as usize;
                v.swap(a, b);
            }
        }
    }
    v
}

pub fn scale_history(sizes: &'static [u64]) -> impl Fn(&mut Rng, &Gen) -> Case {
    move |rng, g| {
        let top = if g.thorough && rng.chance(20) { 400_000 } else { rng.pick(sizes) };
        let mut ops = Vec::new();
        if rng.chance(15) {
            // deep on both sides where the structure allows it, then taken apart at once
            ops.push([0, rng.pick(sizes), rng.pick(&[0, 1, 2, 2, 2, 4, 4]), 0]);
            ops.push([rng.range(5, 7), rng.below(6), 0, 0]);
            return Case { cfg: vec![], ops };
        }
        for _ in 0..rng.range(1, 4) {
            let n = (top / 4 + rng.below(3 * top / 4 + 1)).max(1);
            let k = rng.weighted(&[5, 2, 2, 2, 2, 1, 1, 1]) as u64;
            ops.push([if ops.is_empty() { 0 } else { k }, n, rng.below(8), rng.below(1 << 20)]);
            if rng.chance(65) {
                ops.push([1, n, rng.below(8), rng.below(1 << 20)]);
            }
        }
        let few = if rng.chance(50) { rng.below(12) } else { rng.below(top + 1) };
        ops.push([rng.range(4, 8), few, rng.below(8), rng.below(1 << 20)]);
        Case { cfg: vec![], ops }
    }
}

/// `adaptive`: only operations that may restructure are cheap (splay tree).
pub fn run_scale<M: Ordered>(adaptive: bool, joins: bool) -> impl Fn(&Case, &mut Ctx) -> Res {
    move |case, ctx| {
        let mut m = M::new();
        let mut have: BTreeSet<u32> = BTreeSet::new();
        let mut peak = 1usize;
        let mut budget = 1_500_000i64;
        for (i, op) in case.ops.iter().enumerate() {
            let n = op[1].min(400_000) as u32;
            budget -= n as i64;
            if budget < 0 {
                break;
            }
            let c = cmps();
            let mut did = 0u64;
            let mut extra = 0u64; // cost outside the bound
            let name;
            match op[0] % 8 {
                0 => {
                    name = "insert";
                    for k in order(op[2], n, op[3]) {
                        m.put(k);
                        have.insert(k);
                        did += 1;
                    }
                }
                1 => {
                    name = "look up";
                    for k in order(op[2], n.min(100_000), op[3]) {
                        if adaptive && !M::MUTABLE_LOOKUP {
                            let there = m.del(k);
                            ck_eq!(there, have.contains(&k), "lookup of {}", k);
                            if there {
                                m.put(k);
                            }
                        } else {
                            ck_eq!(m.has_mut(k), have.contains(&k), "lookup of {}", k);
                        }
                        if adaptive && did % 4 == 3 {
                            // keep to operations that restructure
                            m.put(k);
                            have.insert(k);
                        }
                        did += 2;
                    }
                    if adaptive {
                        // sets and shared lookups cannot restructure: they must only not overflow the stack
                        let b = cmps();
                        for k in [0, n / 2, n, n.wrapping_mul(7) % n.max(1)] {
                            ck_eq!(m.has(k), have.contains(&k), "get({})", k);
                            ck_eq!(m.lo(k), have.range(..=k).next_back().copied(), "floor({})", k);
                            ck_eq!(m.hi(k), have.range(k..).next().copied(), "ceil({})", k);
                        }
                        extra += cmps() - b;
                    } else {
                        for k in order(op[2] + 1, n.min(20_000), op[3]) {
                            ck_eq!(m.has(k), have.contains(&k), "get({})", k);
                            ck_eq!(m.lo(k), have.range(..=k).next_back().copied(), "floor({})", k);
                            ck_eq!(m.hi(k), have.range(k..).next().copied(), "ceil({})", k);
                            did += 3;
                        }
                    }
                }
                2 => {
                    name = "remove";
                    for k in order(op[2], n, op[3]) {
                        ck_eq!(m.del(k), have.remove(&k), "remove({})", k);
                        did += 1;
                    }
                }
                3 => {
                    name = "insert and remove in turn";
                    for k in order(op[2], n, op[3]) {
                        m.put(k.wrapping_mul(3) % 400_000);
                        have.insert(k.wrapping_mul(3) % 400_000);
                        did += 1;
                        if k % 2 == 0 {
                            ck_eq!(m.del(k), have.remove(&k), "remove({})", k);
                            did += 1;
                        }
                    }
                }
                4 if joins => {
                    name = "unite with single elements";
                    let n = match op[3] % 4 {
                        2 | 3 if !M::QUICK_JOIN => n.min(300),
                        2 | 3 => n.min(20_000),
                        _ => n.min(60_000),
                    };
                    let single = op[3] % 4 >= 2;
                    // built apart, as a balanced binary tree of unions, each operand made on its own
                    let mut parts: Vec<M> = Vec::new();
                    let far = if op[3] / 4 % 2 == 0 { 0 } else { 400_000 };
                    for k in order(op[2] % 3, n, 0) {
                        let mut s = M::new();
                        s.put(far + k);
                        have.insert(far + k);
                        if !single {
                            parts.push(s);
                        } else if op[3] % 4 == 2 {
                            m = m.join(s);
                        } else {
                            m = s.join(m);
                        }
                    }
                    if single {
                        did += 4 * n as u64;
                        extra += if M::QUICK_JOIN { 0 } else { u64::MAX / 2 };
                    }
                    let width = parts.len();
                    while parts.len() > 1 {
                        let mut next = Vec::new();
                        let mut it = parts.into_iter();
                        while let Some(a) = it.next() {
                            next.push(match it.next() {
                                Some(b) => a.join(b),
                                None => a,
                            });
                        }
                        parts = next;
                    }
                    did += 4 * width as u64;
                    if let Some(all) = parts.pop() {
                        m = m.join(all);
                    }
                    did += have.len() as u64;
                    ck_eq!(m.count(), have.len(), "len after uniting");
                    // the result must be as good as one built by insertion
                    let b = cmps();
                    let mut looks = 0u64;
                    for k in have.iter().step_by((have.len() / 2000).max(1)) {
                        ck!(m.has(*k), "get({}) after uniting", k);
                        looks += 1;
                    }
                    let d = cmps() - b;
                    let lim = bound(looks, have.len(), adaptive);
                    if have.len() > 500 && d > lim {
                        return fail(Kind::X, format!("op {}: {} lookups in a union of {} keys compare {} times, at most {} expected", i, looks, have.len(), d, lim));
                    }
                    extra += d;
                }
                5 => {
                    name = "walk";
                    ck_eq!(m.walk(n as usize), have.len().min(n as usize), "iter");
                    did += 1;
                }
                6 => {
                    name = "consume";
                    let old = std::mem::replace(&mut m, M::new());
                    let want = have.len().min(n as usize);
                    ck_eq!(old.consume(n as usize), want, "into_iter");
                    have.clear();
                    did += 1;
                }
                _ => {
                    name = "cut or clear";
                    if let Some(right) = m.cut(n / 2) {
                        let r = have.split_off(&(n / 2 + 1));
                        ck_eq!(right.count(), r.len(), "split_off");
                        ck_eq!(m.count(), have.len(), "split_off: what stays");
                        did += 1;
                        for k in r.iter().take(500) {
                            ck!(right.has(*k), "split_off: lookup of {}", k);
                            did += 1;
                        }
                    } else {
                        m.wipe();
                        have.clear();
                        did += 1;
                    }
                }
            }
            peak = peak.max(have.len());
            let d = (cmps() - c).saturating_sub(extra);
            let lim = bound(did, peak, adaptive);
            if d > lim {
                return fail(
                    Kind::X,
                    format!("op {}: {} x {} (order {}) with up to {} keys compares keys {} times, at most {} expected", i, name, did, op[2] % 8, peak, d, lim),
                );
            }
            ck_eq!(m.count(), have.len(), "len after op {}", i);
        }
        let e = (have.iter().next().copied(), have.iter().next_back().copied());
        ck_eq!(m.ends(), e, "min and max at the end");
        if peak >= 1000 {
            ctx.mark();
        }
        if peak >= 100_000 {
            ctx.label("peak >= 100000 keys");
        }
        drop(m);
        Ok(())
    }
}
/// Expected n log n, with a generous constant; a linear operation exceeds it a hundredfold.
fn bound(ops: u64, n: usize, adaptive: bool) -> u64 {
    let l = ((n + 2) as f64).log2();
    let mut b = 12.0 * ops as f64 * (l + 2.0) + 400.0;
    if adaptive {
        b += 6.0 * n as f64 * l; // potential left by the past
    }
    b as u64
}

// ---------------------------------------------------------------- C09, lists
pub trait Seq: Sized + 'static {
    fn new() -> Self;
    fn ins(&mut self, i: usize, v: u32);
    fn del(&mut self, i: usize) -> u32;
    fn at(&self, i: usize) -> Option<u32>;
    fn at_mut(&mut self, i: usize) -> Option<u32>;
    fn count(&self) -> usize;
    fn join(self, o: Self) -> Self;
    fn consume(self, n: usize) -> usize;
    fn walk(&self) -> Vec<u32>;
}
macro_rules! seq {
    ($l:ident) => {
        impl Seq for $l<u32> {
            fn new() -> Self { $l::new() }
            fn ins(&mut self, i: usize, v: u32) { self.insert(i, v) }
            fn del(&mut self, i: usize) -> u32 { self.remove(i) }
            fn at(&self, i: usize) -> Option<u32> { self.get(i).copied() }
            fn at_mut(&mut self, i: usize) -> Option<u32> { self.get_mut(i).copied() }
            fn count(&self) -> usize { self.len() }
            fn join(self, o: Self) -> Self { self + o }
            fn consume(self, n: usize) -> usize { self.into_iter().take(n).count() }
            fn walk(&self) -> Vec<u32> { self.iter().copied().collect() }
        }
    };
}
seq!(SkipList);
seq!(TreapList);

/// Executed edges an operation on a list may take; a linear walk takes hundreds of times as many.
fn edge_bound(ops: u64, n: usize) -> u64 {
    let l = ((n + 2) as f64).log2();
    (ops as f64 * (600.0 * l + 6000.0)) as u64 + 200_000
}

pub fn run_list_scale<L: Seq>(case: &Case, ctx: &mut Ctx) -> Res {
    let mut m = L::new();
    let mut len = 0usize;
    let mut peak = 1usize;
    let mut budget = 900_000i64;
    for (i, op) in case.ops.iter().enumerate() {
        let n = op[1].min(400_000);
        budget -= n as i64;
        if budget < 0 {
            break;
        }
        let mut r = Rng::new(op[3]);
        let place = |len: usize, r: &mut Rng, j: u64| -> usize {
            match op[2] % 8 {
                0 => len,
                1 => 0,
                2 => if j % 2 == 0 { 0 } else { len },
                3 => len / 2,
                4 => len - len.min(3),
                5 => (j as usize).wrapping_mul(7) % (len + 1),
                _ => r.below(len as u64 + 1) as usize,
            }
        };
        let s = covrt::steps();
        let mut did = 0u64;
        let name;
        match op[0] % 8 {
            0 | 3 | 7 => {
                name = "insert";
                for j in 0..n {
                    let p = place(len, &mut r, j);
                    m.ins(p, j as u32);
                    len += 1;
                    did += 1;
                }
            }
            1 => {
                name = "get";
                for j in 0..n.min(50_000) {
                    let p = place(len, &mut r, j);
                    ck_eq!(m.at(p).is_some(), p < len, "get({})", p);
                    ck_eq!(m.at_mut(p).is_some(), p < len, "get_mut({})", p);
                    did += 2;
                }
            }
            2 | 5 => {
                name = "remove";
                for j in 0..n.min(len as u64) {
                    let p = place(len, &mut r, j).min(len - 1);
                    m.del(p);
                    len -= 1;
                    did += 1;
                }
            }
            4 => {
                name = "concatenate single elements";
                let n = n.min(60_000);
                let mut parts: Vec<L> = Vec::new();
                for j in 0..n {
                    let mut s = L::new();
                    s.ins(0, j as u32);
                    match (op[3] % 4, parts.is_empty()) {
                        (2, false) => {
                            let all = parts.pop().unwrap();
                            parts.push(all.join(s));
                        }
                        (3, _) => {
                            m = s.join(m);
                            len += 1;
                        }
                        _ => parts.push(s),
                    }
                }
                while parts.len() > 1 {
                    let mut next = Vec::new();
                    let mut it = parts.into_iter();
                    while let Some(a) = it.next() {
                        next.push(match it.next() {
                            Some(b) => a.join(b),
                            None => a,
                        });
                    }
                    parts = next;
                }
                did += 4 * n + 10;
                if let Some(all) = parts.pop() {
                    let w = all.walk();
                    ck!(w.iter().enumerate().all(|(a, b)| a as u32 == *b), "op {}: concatenation of single elements", i);
                    did += n;
                    m = m.join(all);
                    len += n as usize;
                }
                ck_eq!(m.count(), len, "len after concatenation");
                if op[3] % 4 == 3 && n > 0 {
                    ck_eq!((m.at(0), m.at(n as usize - 1)), (Some(n as u32 - 1), Some(0)), "op {}: ends of what was put in front", i);
                }
                for j in 0..2000u64 {
                    if len > 0 {
                        let p = (j.wrapping_mul(0x9E37_79B9) % len as u64) as usize;
                        ck!(m.at(p).is_some(), "get({}) of {}", p, len);
                        did += 1;
                    }
                }
            }
            _ => {
                name = "consume";
                let old = std::mem::replace(&mut m, L::new());
                ck_eq!(old.consume(n as usize), len.min(n as usize), "into_iter");
                did += len as u64 + 1;
                len = 0;
            }
        }
        peak = peak.max(len);
        let d = covrt::steps() - s;
        let lim = edge_bound(did, peak);
        if d > lim {
            return fail(
                Kind::X,
                format!("op {}: {} x {} (places {}) with up to {} elements executes {} edges, at most {} expected", i, name, did, op[2] % 8, peak, d, lim),
            );
        }
        ctx.score = ctx.score.max(d * 1000 / lim);
        ck_eq!(m.count(), len, "len after op {}", i);
    }
    if peak >= 1000 {
        ctx.mark();
    }
    if peak >= 100_000 {
        ctx.label("peak >= 100000 elements");
    }
    Ok(())
}
