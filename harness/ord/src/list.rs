//! C10, C11 (and C12): lists against a vector.
use engine::elem::V;
use engine::*;
use extended_collections::skiplist::SkipList;
use extended_collections::treap::TreapList;

pub type It<'a, T> = Box<dyn Iterator<Item = T> + 'a>;

/// An element that can be made from a number and read back, reporting whether its memory is intact.
pub trait Elem: 'static {
    fn make(n: u32) -> Self;
    fn read(&self) -> Option<u32>;
    fn set(&mut self, n: u32);
}
impl Elem for V {
    fn make(n: u32) -> V {
        V::new(n)
    }
    fn read(&self) -> Option<u32> {
        if self.tr.ok() {
            Some(self.n)
        } else {
            None
        }
    }
    fn set(&mut self, n: u32) {
        self.n = n
    }
}
/// An element with a large alignment.
#[repr(align(64))]
pub struct Wide {
    n: u32,
}
impl Elem for Wide {
    fn make(n: u32) -> Wide {
        Wide { n }
    }
    fn read(&self) -> Option<u32> {
        if self as *const Wide as usize % 64 == 0 {
            Some(self.n)
        } else {
            None
        }
    }
    fn set(&mut self, n: u32) {
        self.n = n
    }
}

pub trait List<E: Elem>: Sized + 'static {
    fn new() -> Self;
    fn default_() -> Self;
    fn insert(&mut self, i: usize, e: E);
    fn remove(&mut self, i: usize) -> E;
    fn push_front(&mut self, e: E);
    fn push_back(&mut self, e: E);
    fn pop_front(&mut self) -> E;
    fn pop_back(&mut self) -> E;
    fn get(&self, i: usize) -> Option<&E>;
    fn get_mut(&mut self, i: usize) -> Option<&mut E>;
    fn len(&self) -> usize;
    fn is_empty(&self) -> bool;
    fn clear(&mut self);
    fn iter(&self) -> It<'_, &E>;
    fn iter_ref(&self) -> It<'_, &E>;
    fn iter_mut(&mut self) -> It<'_, &mut E>;
    fn iter_ref_mut(&mut self) -> It<'_, &mut E>;
    fn into_iter_(self) -> It<'static, E>;
    fn concat(self, o: Self) -> Self;
    fn at(&self, i: usize) -> &E;
    fn at_mut(&mut self, i: usize) -> &mut E;
}
macro_rules! list_impl {
    ($l:ident) => {
        impl<E: Elem> List<E> for $l<E> {
            fn new() -> Self {
                $l::new()
            }
            fn default_() -> Self {
                Default::default()
            }
            fn insert(&mut self, i: usize, e: E) {
                $l::insert(self, i, e)
            }
            fn remove(&mut self, i: usize) -> E {
                $l::remove(self, i)
            }
            fn push_front(&mut self, e: E) {
                $l::push_front(self, e)
            }
            fn push_back(&mut self, e: E) {
                $l::push_back(self, e)
            }
            fn pop_front(&mut self) -> E {
                $l::pop_front(self)
            }
            fn pop_back(&mut self) -> E {
                $l::pop_back(self)
            }
            fn get(&self, i: usize) -> Option<&E> {
                $l::get(self, i)
            }
            fn get_mut(&mut self, i: usize) -> Option<&mut E> {
                $l::get_mut(self, i)
            }
            fn len(&self) -> usize {
                $l::len(self)
            }
            fn is_empty(&self) -> bool {
                $l::is_empty(self)
            }
            fn clear(&mut self) {
                $l::clear(self)
            }
            fn iter(&self) -> It<'_, &E> {
                Box::new($l::iter(self))
            }
            fn iter_ref(&self) -> It<'_, &E> {
                Box::new(IntoIterator::into_iter(self))
            }
            fn iter_mut(&mut self) -> It<'_, &mut E> {
                Box::new($l::iter_mut(self))
            }
            fn iter_ref_mut(&mut self) -> It<'_, &mut E> {
                Box::new(IntoIterator::into_iter(self))
            }
            fn into_iter_(self) -> It<'static, E> {
                Box::new(IntoIterator::into_iter(self))
            }
            fn concat(self, o: Self) -> Self {
                self + o
            }
            fn at(&self, i: usize) -> &E {
                &self[i]
            }
            fn at_mut(&mut self, i: usize) -> &mut E {
                &mut self[i]
            }
        }
    };
}
list_impl!(SkipList);
list_impl!(TreapList);

pub const INSERT: u64 = 0;
pub const REMOVE: u64 = 1;
pub const PUSHF: u64 = 2;
pub const PUSHB: u64 = 3;
pub const POPF: u64 = 4;
pub const POPB: u64 = 5;
pub const GET: u64 = 6;
pub const GETMUT: u64 = 7;
pub const INDEX: u64 = 8;
pub const INDEXMUT: u64 = 9;
pub const ITER: u64 = 10;
pub const ITERMUT: u64 = 11;
pub const INTO: u64 = 12;
pub const CLEAR: u64 = 13;
pub const CONCAT: u64 = 14;
pub const LEN: u64 = 15;
pub const OOB: u64 = 16;
pub const BATCH: u64 = 17;
pub const FRESH: u64 = 18;
pub const REBUILD: u64 = 19;
pub const NOPS: u64 = 20;

pub fn history(rng: &mut Rng, max: u64) -> Vec<Op> {
    let mut ops = Vec::new();
    let total = rng.len(max);
    while (ops.len() as u64) < total {
        let n = rng.len((total / 2).max(8));
        let mix: [u64; NOPS as usize] = match rng.below(6) {
            0 => [60, 2, 10, 20, 1, 1, 2, 0, 0, 0, 0, 0, 0, 0, 1, 0, 0, 1, 0, 0],
            1 => [5, 60, 1, 1, 10, 10, 2, 0, 0, 0, 1, 0, 0, 0, 1, 0, 0, 0, 0, 0],
            2 => [40, 40, 3, 3, 3, 3, 4, 1, 1, 1, 1, 1, 0, 0, 3, 1, 1, 1, 0, 0],
            3 => [10, 10, 5, 5, 5, 5, 20, 10, 10, 10, 4, 4, 1, 1, 4, 4, 6, 1, 1, 1],
            4 => [10, 20, 5, 5, 5, 5, 5, 1, 1, 1, 1, 1, 0, 0, 15, 1, 1, 4, 1, 1],
            _ => [20, 15, 6, 8, 6, 8, 8, 4, 4, 4, 3, 3, 2, 1, 5, 2, 3, 2, 1, 1],
        };
        let reg = rng.below(3);
        let style = rng.below(4);
        for _ in 0..n {
            let k = rng.weighted(&mix) as u64;
            let idx = match style {
                0 => rng.below(4),
                1 => u64::MAX / 2 - rng.below(4), // interpreted modulo the length: near a random place
                _ => rng.below(1 << 32),
            };
            let r = if rng.chance(80) { reg } else { rng.below(3) };
            ops.push([k, idx, rng.below(1 << 20), r + 3 * rng.below(64)]);
        }
    }
    ops
}

fn read<E: Elem>(e: &E) -> Option<u32> {
    e.read()
}

pub fn check<E: Elem, L: List<E>>(l: &L, model: &[u32], what: &str) -> Res {
    ck_eq!(l.len(), model.len(), "{}: len", what);
    ck_eq!(l.is_empty(), model.is_empty(), "{}: is_empty", what);
    let mut n = 0;
    for e in l.iter().take(model.len() + 2) {
        let want = model.get(n).copied();
        ck!(want.is_some() && read(e) == want, "{}: element {} is {:?} instead of {:?}", what, n, read(e), want);
        n += 1;
    }
    ck_eq!(n, model.len(), "{}: elements yielded", what);
    Ok(())
}
fn check_gets<E: Elem, L: List<E>>(l: &mut L, model: &[u32], what: &str) -> Res {
    let step = (model.len() / 64).max(1);
    for i in (0..model.len()).step_by(step) {
        ck_eq!(l.get(i).and_then(read), Some(model[i]), "{}: get({})", what, i);
        ck_eq!(l.get_mut(i).and_then(|e| read(e)), Some(model[i]), "{}: get_mut({})", what, i);
    }
    ck!(l.get(model.len()).is_none(), "{}: get(len)", what);
    Ok(())
}

pub fn run<E: Elem, L: List<E>>(case: &Case, ctx: &mut Ctx) -> Res {
    let mut ls: Vec<L> = vec![L::new(), L::default_(), L::new()];
    let mut ms: Vec<Vec<u32>> = vec![vec![]; 3];
    let (mut peak, mut removed, mut joined) = (0, 0, 0);
    for (i, op) in case.ops.iter().enumerate() {
        let r = (op[3] % 3) as usize;
        let aux = op[3] / 3;
        let v = op[2] as u32;
        let m = &mut ms[r];
        let l = &mut ls[r];
        let n = m.len();
        let at = if n == 0 { 0 } else { (op[1] % n as u64) as usize };
        match op[0] % NOPS {
            INSERT => {
                let at = (op[1] % (n as u64 + 1)) as usize;
                l.insert(at, E::make(v));
                m.insert(at, v);
            }
            REMOVE => {
                if n > 0 {
                    ck_eq!(read(&l.remove(at)), Some(m.remove(at)), "op {}: remove({}) of {}", i, at, n);
                    removed += 1;
                } else {
                    ck!(catch(|| l.remove(op[1] as usize)).is_err(), "op {}: remove from an empty list", i);
                }
            }
            PUSHF => {
                l.push_front(E::make(v));
                m.insert(0, v);
            }
            PUSHB => {
                l.push_back(E::make(v));
                m.push(v);
            }
            POPF => {
                if n > 0 {
                    ck_eq!(read(&l.pop_front()), Some(m.remove(0)), "op {}: pop_front", i);
                    removed += 1;
                } else {
                    ck!(catch(|| l.pop_front()).is_err(), "op {}: pop_front of an empty list returns", i);
                }
            }
            POPB => {
                if n > 0 {
                    ck_eq!(read(&l.pop_back()), m.pop(), "op {}: pop_back", i);
                    removed += 1;
                } else {
                    ck!(catch(|| l.pop_back()).is_err(), "op {}: pop_back of an empty list returns", i);
                }
            }
            GET => {
                let at = (op[1] % (n as u64 + 2)) as usize;
                ck_eq!(l.get(at).map(read), m.get(at).map(|x| Some(*x)), "op {}: get({}) of {}", i, at, n);
            }
            GETMUT => {
                let at = (op[1] % (n as u64 + 2)) as usize;
                let got = l.get_mut(at).map(|e| {
                    let o = read(e);
                    e.set(v);
                    o
                });
                let want = m.get_mut(at).map(|x| Some(std::mem::replace(x, v)));
                ck_eq!(got, want, "op {}: get_mut({}) of {}", i, at, n);
            }
            INDEX => {
                let at = (op[1] % (n as u64 + 2)) as usize;
                let got = catch(|| read(l.at(at))).ok();
                ck_eq!(got, m.get(at).map(|x| Some(*x)), "op {}: [{}] of {} (None is a panic)", i, at, n);
            }
            INDEXMUT => {
                let at = (op[1] % (n as u64 + 2)) as usize;
                let got = catch(|| {
                    let e = l.at_mut(at);
                    let o = read(e);
                    e.set(v);
                    o
                })
                .ok();
                let want = m.get_mut(at).map(|x| Some(std::mem::replace(x, v)));
                ck_eq!(got, want, "op {}: [{}] of {} mutably (None is a panic)", i, at, n);
            }
            ITER => {
                check(l, m, &format!("op {}: iter()", i))?;
                let got: Vec<_> = l.iter_ref().take(n + 2).map(read).collect();
                let want: Vec<_> = m.iter().map(|x| Some(*x)).collect();
                ck_eq!(got, want, "op {}: (&list).into_iter()", i);
                check_gets(l, m, &format!("op {}", i))?;
            }
            ITERMUT => {
                let upto = if aux % 2 == 0 { usize::MAX } else { aux as usize };
                let it = if aux % 4 < 2 { l.iter_mut() } else { l.iter_ref_mut() };
                let mut seen = 0;
                for e in it.take(n + 2) {
                    if seen >= upto {
                        break;
                    }
                    ck!(seen < n, "op {}: iter_mut() yields more than {} elements", i, n);
                    ck_eq!(read(e), Some(m[seen]), "op {}: iter_mut() element {}", i, seen);
                    m[seen] = m[seen].wrapping_add(v);
                    let w = m[seen];
                    e.set(w);
                    seen += 1;
                }
                ck_eq!(seen, n.min(upto), "op {}: iter_mut() elements", i);
                check(l, m, &format!("op {}: after iter_mut()", i))?;
            }
            INTO => {
                let take = if aux % 3 == 0 { usize::MAX } else { aux as usize };
                let old = std::mem::replace(l, L::new());
                let mut it = old.into_iter_();
                for (j, x) in m.iter().enumerate().take(take) {
                    let got = it.next().map(|e| read(&e));
                    ck_eq!(got, Some(Some(*x)), "op {}: into_iter() element {}", i, j);
                }
                if take >= n {
                    ck!(it.next().is_none(), "op {}: into_iter() yields more than the list held", i);
                } else {
                    ctx.label("partial into_iter");
                }
                drop(it);
                m.clear();
            }
            CLEAR => {
                l.clear();
                m.clear();
                check(l, m, &format!("op {}: clear()", i))?;
            }
            CONCAT => {
                let o = (r + 1 + (aux % 2) as usize) % 3;
                if ms[r].len() + ms[o].len() <= 30_000 {
                    let a = std::mem::replace(&mut ls[r], L::new());
                    let b = std::mem::replace(&mut ls[o], L::new());
                    let mb = std::mem::take(&mut ms[o]);
                    if !ms[r].is_empty() && !mb.is_empty() {
                        joined += 1;
                        ctx.label("concatenation of two non-empty lists");
                    }
                    ls[r] = a.concat(b);
                    ms[r].extend(mb);
                    let what = format!("op {}: concatenation", i);
                    check(&ls[r], &ms[r], &what)?;
                    check_gets(&mut ls[r], &ms[r], &what)?;
                }
            }
            LEN => {
                ck_eq!(l.len(), n, "op {}: len()", i);
                ck_eq!(l.is_empty(), n == 0, "op {}: is_empty()", i);
            }
            OOB => {
                // indices past the end, up to the largest there is
                let far = match aux % 8 {
                    0 => n,
                    1 => n + 1,
                    2 => usize::MAX,
                    3 => usize::MAX - 1,
                    4 => usize::MAX - n,
                    5 => usize::MAX / 2 + 1,
                    6 => (1 << 32) + n,
                    _ => n.saturating_add(op[1] as usize),
                };
                let what = format!("op {}: index {} of {}", i, far, n);
                ck!(l.get(far).is_none(), "{}: get", what);
                ck!(l.get_mut(far).is_none(), "{}: get_mut", what);
                ck!(catch(|| read(l.at(far))).is_err(), "{}: indexing does not panic", what);
                ck!(catch(|| read(l.at_mut(far))).is_err(), "{}: mutable indexing does not panic", what);
                ck!(catch(|| l.remove(far)).is_err(), "{}: remove does not panic", what);
                if far > n {
                    ck!(catch(|| l.insert(far, E::make(v))).is_err(), "{}: insert does not panic", what);
                }
                check(l, m, &what)?;
            }
            BATCH => {
                // many insertions at one place
                let at = (op[1] % (n as u64 + 1)) as usize;
                let k = (aux as usize).min(40);
                for j in 0..k {
                    l.insert(at, E::make(v.wrapping_add(j as u32)));
                    m.insert(at, v.wrapping_add(j as u32));
                }
            }
            FRESH => {
                *l = L::default_();
                m.clear();
            }
            _ => {
                let old = std::mem::replace(l, L::new());
                let mut all: Vec<E> = old.into_iter_().collect();
                if aux % 2 == 0 {
                    all.reverse();
                    m.reverse();
                }
                for e in all {
                    l.push_back(e);
                }
                check(l, m, &format!("op {}: rebuilt", i))?;
            }
        }
        ck_eq!(ls[r].len(), ms[r].len(), "len after op {}", i);
        if ms[r].len() <= 8 || i % 61 == 0 || i + 1 == case.ops.len() {
            check(&ls[r], &ms[r], &format!("after op {}", i))?;
        }
        peak = peak.max(ms[r].len());
    }
    for r in 0..3 {
        check_gets(&mut ls[r], &ms[r], "at the end")?;
    }
    if peak >= 6 && removed >= 2 {
        ctx.mark();
    }
    if joined > 0 && removed > 0 {
        ctx.label("history with removals and concatenation");
    }
    Ok(())
}
