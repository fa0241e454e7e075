//! C01-C05 (and, through the same histories, C12): maps and sets against BTreeMap.
use crate::api::*;
use engine::elem::V;
use engine::*;
use std::collections::BTreeMap;
use std::ops::Bound::*;

pub const INSERT: u64 = 0;
pub const REMOVE: u64 = 1;
pub const GET: u64 = 2;
pub const GETMUT: u64 = 3;
pub const CONTAINS: u64 = 4;
pub const FLOOR: u64 = 5;
pub const CEIL: u64 = 6;
pub const MINMAX: u64 = 7;
pub const LEN: u64 = 8;
pub const ITER: u64 = 9;
pub const ITERMUT: u64 = 10;
pub const CLEAR: u64 = 11;
pub const INDEX: u64 = 12;
pub const INTO: u64 = 13;
pub const PARTIAL: u64 = 14;
pub const INDEXMUT: u64 = 15;
pub const FRESH: u64 = 16;
pub const POPMIN: u64 = 17;
pub const POPMAX: u64 = 18;
pub const REBUILD: u64 = 19;
pub const NOPS: u64 = 20;

/// Histories: a few phases, each with its own operation mix and key order.
pub fn history(rng: &mut Rng, g: &Gen, max: u64) -> Vec<Op> {
    let ks = match rng.below(8) {
        0 => 4,
        1 => 8,
        2 => 16,
        3 => 40,
        4 => 64,
        5 => 256,
        6 => 4096,
        _ => 1 << 32,
    };
    let mut ops = Vec::new();
    let total = rng.len(max);
    let mut cursor = rng.below(ks);
    let mut recent: Vec<u64> = Vec::new();
    while (ops.len() as u64) < total {
        let n = rng.len((total / 2).max(8));
        let order = rng.below(8);
        let step = rng.range(1, 3);
        // operation mixes: grow, shrink, churn, read, everything
        let mix: [u64; NOPS as usize] = match rng.below(6) {
            0 => [90, 4, 1, 1, 0, 1, 1, 1, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0],
            1 => [8, 60, 2, 0, 1, 1, 1, 1, 0, 0, 0, 0, 0, 0, 0, 0, 0, 12, 12, 0],
            2 => [45, 45, 3, 1, 1, 2, 2, 1, 0, 1, 0, 0, 0, 0, 0, 0, 0, 2, 2, 0],
            3 => [10, 10, 20, 5, 8, 15, 15, 4, 2, 2, 2, 0, 2, 0, 3, 2, 0, 0, 0, 0],
            4 => [70, 20, 0, 0, 0, 0, 0, 0, 0, 1, 0, 0, 0, 0, 0, 0, 0, 5, 5, 1],
            _ => [30, 20, 8, 4, 4, 8, 8, 3, 2, 3, 3, 1, 2, 1, 3, 2, 1, 3, 3, 1],
        };
        for _ in 0..n {
            let k = rng.weighted(&mix) as u64;
            let key = match order {
                0 => {
                    cursor = (cursor + step) % ks;
                    cursor
                }
                1 => {
                    cursor = (cursor + ks - step) % ks;
                    cursor
                }
                2 => {
                    // zig-zag between the ends
                    cursor += 1;
                    if cursor % 2 == 0 {
                        (cursor / 2) % ks
                    } else {
                        ks - 1 - (cursor / 2) % ks
                    }
                }
                3 => {
                    // clusters
                    if rng.chance(10) {
                        cursor = rng.below(ks);
                    }
                    (cursor + rng.below(6)) % ks
                }
                4 if !recent.is_empty() => {
                    let r = recent[rng.below(recent.len() as u64) as usize];
                    match rng.below(4) {
                        0 => (r + 1) % ks,
                        1 => r.saturating_sub(1),
                        _ => r,
                    }
                }
                5 if rng.chance(3) => rng.pick(&[0, u32::MAX as u64, ks - 1, ks / 2]),
                6 if !g.dict.is_empty() && rng.chance(10) => rng.pick(&g.dict) % ks,
                _ => rng.below(ks),
            };
            if k == INSERT {
                if recent.len() < 64 {
                    recent.push(key);
                } else {
                    let i = rng.below(64) as usize;
                    recent[i] = key;
                }
            }
            ops.push([k, key, rng.below(1 << 20), rng.below(64)]);
        }
    }
    ops
}

/// How often the whole contents are compared.
fn full_now(i: usize, n: usize, total: usize) -> bool {
    i + 1 == total || n <= 12 || i % 97 == 0
}

type Model<C> = BTreeMap<C, (u32, u32)>;

fn rd<S: Keys>(k: &S::K) -> (S::C, u32) {
    S::read(k)
}

pub fn check_iter<'a, S: Keys>(
    it: impl Iterator<Item = (&'a S::K, u32)>,
    model: &Model<S::C>,
    what: &str,
) -> Res {
    let mut n = 0;
    let mut m = model.iter();
    for (k, v) in it {
        let (c, tag) = rd::<S>(k);
        match m.next() {
            Some((mc, (mt, mv))) => {
                ck!(
                    *mc == c && *mt == tag && *mv == v,
                    "{}: entry {} is {:?}#{}={} instead of {:?}#{}={}",
                    what, n, c, tag, v, mc, mt, mv
                );
            }
            None => ck!(false, "{}: yields {:?}={} beyond the last entry", what, c, v),
        }
        n += 1;
    }
    if let Some((c, _)) = m.next() {
        ck!(false, "{}: stops after {} entries, {:?} missing", what, n, c);
    }
    Ok(())
}

fn hint(what: &str, h: (usize, Option<usize>), left: usize) -> Res {
    ck!(h.0 <= left && h.1.map_or(true, |u| u >= left), "{}: size_hint {:?} with {} left", what, h, left);
    Ok(())
}

pub fn check_map<S: Keys, M: Map<S>>(m: &M, model: &Model<S::C>, what: &str) -> Res {
    ck_eq!(m.len(), model.len(), "{}: len", what);
    ck_eq!(m.is_empty(), model.is_empty(), "{}: is_empty", what);
    let it = m.iter();
    hint(what, it.size_hint(), model.len())?;
    check_iter::<S>(it.map(|(k, v)| (k, v.n)).take(model.len() + 2), model, what)
}

/// Runs one operation on the map and the model.
#[allow(clippy::too_many_lines)]
pub fn map_op<S: Keys, M: Map<S>>(
    m: &mut M,
    model: &mut Model<S::C>,
    op: &Op,
    i: usize,
    ctx: &mut Ctx,
) -> Res {
    let c = S::canon(op[1]);
    let tag = i as u32 + 1;
    let tag_ = |k: &S::K| S::read(k).1;
    let t0 = S::read(&S::make(&c, tag)).1; // families without tags read back 0
    match op[0] % NOPS {
        INSERT => {
            let got = m.insert(S::make(&c, tag), V::new(op[2] as u32));
            let want = model.insert(c.clone(), (t0, op[2] as u32));
            if want.is_some() {
                ctx.label("replace");
            }
            let got = got.map(|(k, v)| {
                let (c, t) = rd::<S>(&k);
                (c, t, v.n, S::intact(&k) && v.tr.ok())
            });
            let want = want.map(|(t, v)| (c.clone(), t, v, true));
            ck_eq!(got, want, "op {}: insert({:?})", i, c);
        }
        REMOVE => {
            let got = S::with_q(&c, |q| m.remove(q));
            let want = model.remove(&c);
            if want.is_some() {
                ctx.label("remove hit");
            }
            let got = got.map(|(k, v)| {
                let (c, t) = rd::<S>(&k);
                (c, t, v.n, S::intact(&k) && v.tr.ok())
            });
            let want = want.map(|(t, v)| (c.clone(), t, v, true));
            ck_eq!(got, want, "op {}: remove({:?})", i, c);
        }
        GET => {
            let got = S::with_q(&c, |q| m.get(q).map(|v| v.n));
            ck_eq!(got, model.get(&c).map(|x| x.1), "op {}: get({:?})", i, c);
        }
        GETMUT => {
            let got = S::with_q(&c, |q| {
                m.get_mut(q).map(|v| {
                    let o = v.n;
                    v.n = op[2] as u32;
                    o
                })
            });
            let want = model.get_mut(&c).map(|x| std::mem::replace(&mut x.1, op[2] as u32));
            ck_eq!(got, want, "op {}: get_mut({:?})", i, c);
        }
        CONTAINS => {
            let got = S::with_q(&c, |q| m.contains(q));
            ck_eq!(got, model.contains_key(&c), "op {}: contains_key({:?})", i, c);
        }
        FLOOR => {
            let got = S::with_q(&c, |q| m.floor(q).map(|k| rd::<S>(k)));
            let want = model.range(..=c.clone()).next_back().map(|(k, v)| (k.clone(), v.0));
            ck_eq!(got, want, "op {}: floor({:?})", i, c);
        }
        CEIL => {
            let got = S::with_q(&c, |q| m.ceil(q).map(|k| rd::<S>(k)));
            let want = model.range(c.clone()..).next().map(|(k, v)| (k.clone(), v.0));
            ck_eq!(got, want, "op {}: ceil({:?})", i, c);
        }
        MINMAX => {
            let got = m.min().map(|k| rd::<S>(k));
            ck_eq!(got, model.iter().next().map(|(k, v)| (k.clone(), v.0)), "op {}: min()", i);
            let got = m.max().map(|k| rd::<S>(k));
            ck_eq!(got, model.iter().next_back().map(|(k, v)| (k.clone(), v.0)), "op {}: max()", i);
        }
        LEN => {
            ck_eq!(m.len(), model.len(), "op {}: len()", i);
            ck_eq!(m.is_empty(), model.is_empty(), "op {}: is_empty()", i);
        }
        ITER => {
            check_map::<S, M>(m, model, &format!("op {}: iter()", i))?;
            let it = m.iter_ref().map(|(k, v)| (k, v.n)).take(model.len() + 2);
            check_iter::<S>(it, model, &format!("op {}: (&map).into_iter()", i))?;
        }
        ITERMUT => {
            let add = op[2] as u32;
            let what = format!("op {}: iter_mut()", i);
            // mutate a prefix only
            let upto = if op[3] % 2 == 0 { usize::MAX } else { op[3] as usize };
            for (j, x) in model.values_mut().enumerate() {
                if j < upto {
                    x.1 = x.1.wrapping_add(add);
                }
            }
            let n = model.len();
            let it = if op[3] % 4 < 2 { m.iter_mut() } else { m.iter_ref_mut() };
            hint(&what, it.size_hint(), n)?;
            let mut seen = 0;
            let mut m2 = model.iter();
            for (j, (k, v)) in it.take(n + 2).enumerate() {
                if j >= upto {
                    break;
                }
                v.n = v.n.wrapping_add(add);
                let (c, t) = rd::<S>(k);
                let want = m2.next().map(|(c, x)| (c.clone(), x.0, x.1));
                ck_eq!(Some((c, t, v.n)), want, "{} entry {}", what, j);
                seen += 1;
            }
            ck_eq!(seen, n.min(upto), "{}: entries", what);
            check_map::<S, M>(m, model, &what)?;
        }
        CLEAR => {
            m.clear();
            model.clear();
            ctx.label("clear");
            check_map::<S, M>(m, model, &format!("op {}: clear()", i))?;
        }
        INDEX | INDEXMUT => {
            let want = model.get(&c).map(|x| x.1);
            let got = if op[0] % NOPS == INDEX {
                catch(|| S::with_q(&c, |q| m.at(q).n)).ok()
            } else {
                catch(|| {
                    S::with_q(&c, |q| {
                        let v = m.at_mut(q);
                        let o = v.n;
                        v.n = op[2] as u32;
                        o
                    })
                })
                .ok()
            };
            if op[0] % NOPS == INDEXMUT {
                if let Some(x) = model.get_mut(&c) {
                    x.1 = op[2] as u32;
                }
            }
            ck_eq!(got, want, "op {}: index {:?} (None is a panic)", i, c);
        }
        INTO => {
            let take = if op[3] % 3 == 0 { usize::MAX } else { op[3] as usize };
            if take < model.len() {
                ctx.label("partial into_iter");
            }
            let old = std::mem::replace(m, M::new());
            let what = format!("op {}: into_iter()", i);
            let mut it = old.into_iter_();
            hint(&what, it.size_hint(), model.len())?;
            let mut left = model.len();
            for (j, (c, (t, v))) in model.iter().enumerate() {
                if j >= take {
                    break;
                }
                let got = it.next().map(|(k, v)| (S::read(&k).0, tag_(&k), v.n, S::intact(&k) && v.tr.ok()));
                ck_eq!(got, Some((c.clone(), *t, *v, true)), "{} entry {}", what, j);
                left -= 1;
                if j % 7 == 0 {
                    hint(&what, it.size_hint(), left)?;
                }
            }
            if left == 0 {
                ck!(it.next().is_none(), "{}: yields more than the map held", what);
            }
            drop(it);
            model.clear();
        }
        PARTIAL => {
            let n = (op[3] as usize).min(model.len());
            let got: Vec<_> = m.iter().take(n).map(|(k, v)| (S::read(k).0, v.n)).collect();
            let want: Vec<_> = model.iter().take(n).map(|(k, v)| (k.clone(), v.1)).collect();
            ck_eq!(got, want, "op {}: iter().take({})", i, n);
        }
        FRESH => {
            *m = M::default_();
            model.clear();
        }
        POPMIN | POPMAX => {
            let c = if op[0] % NOPS == POPMIN { model.keys().next() } else { model.keys().next_back() };
            if let Some(c) = c.cloned() {
                let got = S::with_q(&c, |q| m.remove(q)).map(|(k, v)| (tag_(&k), v.n));
                let want = model.remove(&c);
                ck_eq!(got, want, "op {}: remove({:?})", i, c);
                ctx.label("remove hit");
            }
        }
        REBUILD => {
            // move everything through into_iter into a new map, last first or first first
            let old = std::mem::replace(m, M::new());
            let mut all: Vec<_> = old.into_iter_().collect();
            if op[3] % 2 == 0 {
                all.reverse();
            }
            for (k, v) in all {
                let c = S::read(&k).0;
                let r = m.insert(k, v);
                ck!(r.is_none(), "op {}: into_iter yielded {:?} twice", i, c);
            }
            check_map::<S, M>(m, model, &format!("op {}: rebuilt map", i))?;
        }
        _ => {}
    }
    Ok(())
}

pub fn run_map<S: Keys, M: Map<S>>(case: &Case, ctx: &mut Ctx) -> Res {
    let mut m = M::new();
    let mut model: Model<S::C> = BTreeMap::new();
    let (mut peak, mut removed) = (0, 0);
    for (i, op) in case.ops.iter().enumerate() {
        map_op::<S, M>(&mut m, &mut model, op, i, ctx)?;
        ck_eq!(m.len(), model.len(), "len after op {}", i);
        if full_now(i, model.len(), case.ops.len()) {
            check_map::<S, M>(&m, &model, &format!("after op {}", i))?;
        }
        peak = peak.max(model.len());
        removed += (op[0] % NOPS == REMOVE) as u32;
    }
    if peak >= 6 && removed >= 2 {
        ctx.mark();
    }
    if peak >= 100 {
        ctx.label("peak >= 100 entries");
    }
    // every key, its neighbours and both ends, in borrowed form
    let keys: Vec<S::C> = model.keys().cloned().collect();
    for c in keys.iter().take(40) {
        let v = model[c];
        let got = S::with_q(c, |q| m.get(q).map(|v| v.n));
        ck_eq!(got, Some(v.1), "at the end: get({:?})", c);
        let got = S::with_q(c, |q| m.floor(q).map(|k| S::read(k)));
        ck_eq!(got, Some((c.clone(), v.0)), "at the end: floor({:?})", c);
        let got = S::with_q(c, |q| m.ceil(q).map(|k| S::read(k)));
        ck_eq!(got, Some((c.clone(), v.0)), "at the end: ceil({:?})", c);
    }
    for w in keys.windows(2).take(20) {
        // between two neighbours, seen from a removed middle key
        let below = model.range((Unbounded, Excluded(w[1].clone()))).next_back().map(|x| x.0.clone());
        ck_eq!(below, Some(w[0].clone()), "model");
    }
    let it = m.into_iter_();
    let mut want = model.iter();
    for (k, v) in it {
        let got = Some((S::read(&k).0, S::read(&k).1, v.n));
        let w = want.next().map(|(c, x)| (c.clone(), x.0, x.1));
        ck_eq!(got, w, "final into_iter");
    }
    ck!(want.next().is_none(), "final into_iter stops early");
    Ok(())
}

pub fn check_set<S: Keys, M: Set<S>>(m: &M, model: &BTreeMap<S::C, u32>, what: &str) -> Res {
    ck_eq!(m.len(), model.len(), "{}: len", what);
    ck_eq!(m.is_empty(), model.is_empty(), "{}: is_empty", what);
    let it = m.iter();
    hint(what, it.size_hint(), model.len())?;
    let got: Vec<_> = it.take(model.len() + 2).map(|k| S::read(k)).collect();
    let want: Vec<_> = model.iter().map(|(c, t)| (c.clone(), *t)).collect();
    ck_eq!(got, want, "{}: contents", what);
    Ok(())
}

pub fn set_op<S: Keys, M: Set<S>>(
    m: &mut M,
    model: &mut BTreeMap<S::C, u32>,
    op: &Op,
    i: usize,
    ctx: &mut Ctx,
) -> Res {
    let c = S::canon(op[1]);
    let k = S::make(&c, i as u32 + 1);
    let t0 = S::read(&k).1;
    let pair = |c: &S::C, t: &u32| (c.clone(), *t);
    match op[0] % NOPS {
        INSERT | GETMUT | INDEXMUT => {
            let got = m.insert(k).map(|k| S::read(&k));
            let want = model.insert(c.clone(), t0).map(|t| (c.clone(), t));
            ck_eq!(got, want, "op {}: insert({:?})", i, c);
        }
        REMOVE => {
            let got = m.remove(&c).map(|k| S::read(&k));
            let want = model.remove(&c).map(|t| (c.clone(), t));
            ck_eq!(got, want, "op {}: remove({:?})", i, c);
        }
        GET | CONTAINS | INDEX => {
            ck_eq!(m.contains(&c), model.contains_key(&c), "op {}: contains({:?})", i, c);
        }
        FLOOR => {
            let want = model.range(..=c.clone()).next_back().map(|(c, t)| pair(c, t));
            ck_eq!(m.floor(&c).map(|k| S::read(k)), want, "op {}: floor({:?})", i, c);
        }
        CEIL => {
            let want = model.range(c.clone()..).next().map(|(c, t)| pair(c, t));
            ck_eq!(m.ceil(&c).map(|k| S::read(k)), want, "op {}: ceil({:?})", i, c);
        }
        MINMAX => {
            ck_eq!(m.min().map(|k| S::read(k)), model.iter().next().map(|(c, t)| pair(c, t)), "op {}: min", i);
            ck_eq!(m.max().map(|k| S::read(k)), model.iter().next_back().map(|(c, t)| pair(c, t)), "op {}: max", i);
        }
        LEN | ITER | ITERMUT => {
            check_set::<S, M>(m, model, &format!("op {}", i))?;
            let got: Vec<_> = m.iter_ref().take(model.len() + 2).map(|k| S::read(k)).collect();
            let want: Vec<_> = model.iter().map(|(c, t)| pair(c, t)).collect();
            ck_eq!(got, want, "op {}: (&set).into_iter()", i);
        }
        CLEAR => {
            m.clear();
            model.clear();
        }
        INTO => {
            let take = if op[3] % 3 == 0 { usize::MAX } else { op[3] as usize };
            let old = std::mem::replace(m, M::new());
            let mut it = old.into_iter_();
            for (c, t) in model.iter().take(take) {
                ck_eq!(it.next().map(|k| S::read(&k)), Some(pair(c, t)), "op {}: into_iter()", i);
            }
            if take >= model.len() {
                ck!(it.next().is_none(), "op {}: into_iter() yields more than the set held", i);
            } else {
                ctx.label("partial into_iter");
            }
            model.clear();
        }
        PARTIAL => {
            let n = (op[3] as usize).min(model.len());
            let got: Vec<_> = m.iter().take(n).map(|k| S::read(k)).collect();
            let want: Vec<_> = model.iter().take(n).map(|(c, t)| pair(c, t)).collect();
            ck_eq!(got, want, "op {}: iter().take({})", i, n);
        }
        FRESH => {
            *m = M::default_();
            model.clear();
        }
        POPMIN | POPMAX => {
            let c = if op[0] % NOPS == POPMIN { model.keys().next() } else { model.keys().next_back() };
            if let Some(c) = c.cloned() {
                let want = model.remove(&c).map(|t| (c.clone(), t));
                ck_eq!(m.remove(&c).map(|k| S::read(&k)), want, "op {}: remove({:?})", i, c);
            }
        }
        REBUILD => {
            let old = std::mem::replace(m, M::new());
            let mut all: Vec<_> = old.into_iter_().collect();
            if op[3] % 2 == 0 {
                all.reverse();
            }
            for k in all {
                ck!(m.insert(k).is_none(), "op {}: into_iter yielded a key twice", i);
            }
        }
        _ => {}
    }
    Ok(())
}

pub fn run_set<S: Keys, M: Set<S>>(case: &Case, ctx: &mut Ctx) -> Res {
    let mut m = M::new();
    let mut model: BTreeMap<S::C, u32> = BTreeMap::new();
    let (mut peak, mut removed) = (0, 0);
    for (i, op) in case.ops.iter().enumerate() {
        set_op::<S, M>(&mut m, &mut model, op, i, ctx)?;
        ck_eq!(m.len(), model.len(), "len after op {}", i);
        if full_now(i, model.len(), case.ops.len()) {
            check_set::<S, M>(&m, &model, &format!("after op {}", i))?;
        }
        peak = peak.max(model.len());
        removed += (op[0] % NOPS == REMOVE) as u32;
    }
    if peak >= 6 && removed >= 2 {
        ctx.mark();
    }
    Ok(())
}
