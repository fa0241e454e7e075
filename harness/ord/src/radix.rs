//! C13, C14 (and C12): radix maps and sets against BTreeMap over byte strings.
use engine::elem::V;
use engine::*;
use extended_collections::radix::{RadixMap, RadixSet};
use std::collections::BTreeMap;

pub const INSERT: u64 = 0;
pub const REMOVE: u64 = 1;
pub const GET: u64 = 2;
pub const GETMUT: u64 = 3;
pub const CONTAINS: u64 = 4;
pub const MINMAX: u64 = 5;
pub const LEN: u64 = 6;
pub const ITER: u64 = 7;
pub const ITERMUT: u64 = 8;
pub const CLEAR: u64 = 9;
pub const INDEX: u64 = 10;
pub const INTO: u64 = 11;
pub const INDEXMUT: u64 = 12;
pub const DRAIN: u64 = 13;
pub const FRESH: u64 = 14;
pub const PREFIX: u64 = 15;
pub const REMOVEK: u64 = 16;
pub const REBUILD: u64 = 17;
pub const NOPS: u64 = 18;

/// A byte string from a number: op[1] picks the letters, op[3] the alphabet and length.
/// Alphabets are tiny, so that prefixes, forks and the empty string are common.
pub fn key(x: u64, shape: u64) -> Vec<u8> {
    let letters: &[u8] = match shape % 8 {
        0 => b"ab",
        1 => b"abc",
        2 => &[0, 255],
        3 => &[0, 1, 127, 128, 255],
        4 => b"a",
        5 => &[b'a', 0, b'b', 255],
        _ => b"ab",
    };
    let n = letters.len() as u64;
    let mut out = Vec::new();
    let mut x = if n == 1 { x % 300 } else { x };
    // the same run repeated makes long keys
    let rep = match (shape / 8) % 8 {
        7 => 40,
        6 => 5,
        _ => 1,
    };
    while x > 0 {
        x -= 1;
        for _ in 0..rep {
            out.push(letters[(x % n) as usize]);
        }
        x /= n;
    }
    out.reverse();
    out
}

pub fn history(rng: &mut Rng, max: u64, prefix_heavy: bool) -> Vec<Op> {
    let mut ops = Vec::new();
    let total = rng.len(max);
    let shape = rng.below(64);
    let space = rng.pick(&[3, 7, 15, 40, 127, 1000, 1 << 20]);
    while (ops.len() as u64) < total {
        let n = rng.len((total / 2).max(6));
        let p = if prefix_heavy { 40 } else { 3 };
        let mix: [u64; NOPS as usize] = match rng.below(5) {
            0 => [70, 5, 3, 1, 1, 1, 0, 1, 0, 0, 0, 0, 0, 0, 0, p, 2, 0],
            1 => [5, 20, 2, 1, 1, 2, 0, 1, 0, 0, 0, 0, 0, 1, 0, p, 40, 0],
            2 => [40, 20, 4, 1, 1, 2, 0, 1, 1, 0, 1, 0, 1, 1, 0, p, 20, 0],
            3 => [10, 5, 20, 8, 6, 4, 2, 3, 3, 1, 4, 1, 4, 1, 1, p, 5, 1],
            _ => [30, 15, 8, 4, 3, 3, 2, 3, 2, 1, 2, 1, 2, 1, 1, p, 15, 1],
        };
        for _ in 0..n {
            let k = rng.weighted(&mix) as u64;
            let s = if rng.chance(90) { shape } else { rng.below(64) };
            let x = if rng.chance(85) { rng.below(space) } else { rng.below(6) };
            ops.push([k, x, rng.below(1 << 20), s]);
        }
    }
    ops
}

type Model = BTreeMap<Vec<u8>, u32>;

pub fn prefix_oracle(model: &Model, q: &[u8]) -> Vec<Vec<u8>> {
    let common = |k: &[u8]| k.iter().zip(q.iter()).take_while(|p| p.0 == p.1).count();
    let best = match model.keys().map(|k| common(k)).max() {
        None => return vec![],
        Some(b) => b,
    };
    if !q.is_empty() && best == 0 {
        return model.keys().filter(|k| k.is_empty()).cloned().collect();
    }
    model.keys().filter(|k| common(k) == best).cloned().collect()
}

fn show(k: &[u8]) -> String {
    if k.len() > 40 {
        format!("{:?}..({} bytes)", &k[..20], k.len())
    } else {
        format!("{:?}", String::from_utf8_lossy(k))
    }
}

pub fn check(m: &RadixMap<V>, model: &Model, what: &str) -> Res {
    ck_eq!(m.len(), model.len(), "{}: len", what);
    ck_eq!(m.is_empty(), model.is_empty(), "{}: is_empty", what);
    let mut n = 0;
    let mut want = model.iter();
    for (k, v) in m.iter() {
        let w = want.next();
        ck!(
            w.map_or(false, |w| *w.0 == k && *w.1 == v.n && v.tr.ok()),
            "{}: entry {} is {}={} instead of {:?}",
            what, n, show(&k), v.n, w.map(|w| (show(w.0), w.1))
        );
        n += 1;
    }
    ck_eq!(n, model.len(), "{}: entries yielded", what);
    Ok(())
}

pub fn run_map(case: &Case, ctx: &mut Ctx) -> Res {
    run_map_(case, ctx, false)
}
pub fn run_map_prefix(case: &Case, ctx: &mut Ctx) -> Res {
    run_map_(case, ctx, true)
}
fn run_map_(case: &Case, ctx: &mut Ctx, prefix: bool) -> Res {
    let mut m: RadixMap<V> = RadixMap::new();
    let mut model: Model = BTreeMap::new();
    let (mut peak, mut removed, mut emptied) = (0, 0, 0);
    for (i, op) in case.ops.iter().enumerate() {
        let k = key(op[1], op[3]);
        let v = op[2] as u32;
        match op[0] % NOPS {
            INSERT => {
                let got = m.insert(&k, V::new(v)).map(|(k, v)| (k, v.n));
                let want = model.insert(k.clone(), v).map(|v| (k.clone(), v));
                ck_eq!(got, want, "op {}: insert({})", i, show(&k));
            }
            REMOVE | REMOVEK => {
                // a random key, or one that is there
                let k = if op[0] % NOPS == REMOVEK && !model.is_empty() {
                    model.keys().nth((op[1] % model.len() as u64) as usize).unwrap().clone()
                } else {
                    k
                };
                let got = m.remove(&k).map(|(k, v)| (k, v.n));
                let want = model.remove(&k).map(|v| (k.clone(), v));
                removed += want.is_some() as u32;
                ck_eq!(got, want, "op {}: remove({})", i, show(&k));
                if want.is_some() && model.is_empty() {
                    emptied += 1;
                }
            }
            GET => ck_eq!(m.get(&k).map(|v| v.n), model.get(&k).copied(), "op {}: get({})", i, show(&k)),
            GETMUT => {
                let got = m.get_mut(&k).map(|x| std::mem::replace(&mut x.n, v));
                let want = model.get_mut(&k).map(|x| std::mem::replace(x, v));
                ck_eq!(got, want, "op {}: get_mut({})", i, show(&k));
            }
            CONTAINS => {
                ck_eq!(m.contains_key(&k), model.contains_key(&k), "op {}: contains_key({})", i, show(&k))
            }
            MINMAX => {
                ck_eq!(m.min(), model.keys().next().cloned(), "op {}: min()", i);
                ck_eq!(m.max(), model.keys().next_back().cloned(), "op {}: max()", i);
            }
            LEN => {
                ck_eq!(m.len(), model.len(), "op {}: len()", i);
                ck_eq!(m.is_empty(), model.is_empty(), "op {}: is_empty()", i);
            }
            ITER => {
                check(&m, &model, &format!("op {}: iter()", i))?;
                let got: Vec<_> = (&m).into_iter().map(|(k, v)| (k, v.n)).collect();
                let want: Vec<_> = model.iter().map(|(k, v)| (k.clone(), *v)).collect();
                ck_eq!(got, want, "op {}: (&map).into_iter()", i);
            }
            ITERMUT => {
                let upto = if op[3] % 2 == 0 { usize::MAX } else { op[3] as usize };
                let mut want = model.iter_mut();
                let mut n = 0;
                for (k, x) in m.iter_mut() {
                    if n >= upto {
                        break;
                    }
                    let w = want.next();
                    ck!(
                        w.as_ref().map_or(false, |w| *w.0 == k && *w.1 == x.n),
                        "op {}: iter_mut() entry {} is {}={}, expected {:?}", i, n, show(&k), x.n, w
                    );
                    x.n = x.n.wrapping_add(v);
                    *w.unwrap().1 = x.n;
                    n += 1;
                }
                ck_eq!(n, model.len().min(upto), "op {}: iter_mut() entries", i);
                let mut all = 0;
                for (k, x) in &mut m {
                    ck_eq!(Some(x.n), model.get(&k).copied(), "op {}: (&mut map).into_iter() {}", i, show(&k));
                    all += 1;
                }
                ck_eq!(all, model.len(), "op {}: (&mut map).into_iter() entries", i);
            }
            CLEAR => {
                m.clear();
                model.clear();
            }
            INDEX | INDEXMUT => {
                let want = model.get(&k).copied();
                let got = if op[0] % NOPS == INDEX {
                    catch(|| m[k.as_slice()].n).ok()
                } else {
                    if let Some(x) = model.get_mut(&k) {
                        *x = v;
                    }
                    catch(|| std::mem::replace(&mut m[k.as_slice()].n, v)).ok()
                };
                ck_eq!(got, want, "op {}: [{}] (None is a panic)", i, show(&k));
            }
            INTO => {
                let take = if op[3] % 3 == 0 { usize::MAX } else { op[3] as usize };
                let old = std::mem::replace(&mut m, RadixMap::new());
                let mut it = old.into_iter();
                for (j, (k, v)) in model.iter().enumerate().take(take) {
                    let got = it.next().map(|(k, v)| (k, v.n));
                    ck_eq!(got, Some((k.clone(), *v)), "op {}: into_iter() entry {}", i, j);
                }
                if take >= model.len() {
                    ck!(it.next().is_none(), "op {}: into_iter() yields more than the map held", i);
                } else {
                    ctx.label("partial into_iter");
                }
                model.clear();
            }
            DRAIN => {
                // becomes empty by removals, in some order
                let mut ks: Vec<_> = model.keys().cloned().collect();
                match op[1] % 3 {
                    0 => ks.reverse(),
                    1 => {
                        let mut r = Rng::new(op[1]);
                        for a in (1..ks.len()).rev() {
                            let b = r.below(a as u64 + 1) as usize;
                            ks.swap(a, b);
                        }
                    }
                    _ => {}
                }
                for k in ks {
                    let got = m.remove(&k).map(|(k, v)| (k, v.n));
                    ck_eq!(got, model.remove(&k).map(|v| (k.clone(), v)), "op {}: remove({})", i, show(&k));
                    removed += 1;
                    ck_eq!(m.get(&k).map(|v| v.n), None, "op {}: get after remove({})", i, show(&k));
                }
                emptied += 1;
            }
            FRESH => {
                m = Default::default();
                model.clear();
            }
            PREFIX if !prefix => {}
            PREFIX => {
                let got = m.get_longest_prefix(&k);
                let want = prefix_oracle(&model, &k);
                if want.len() > 1 {
                    ctx.label("prefix query with several answers");
                }
                ck_eq!(got, want, "op {}: get_longest_prefix({}) of {:?}", i, show(&k),
                    model.keys().take(20).map(|k| show(k)).collect::<Vec<_>>());
            }
            _ => {
                let mut all: Vec<_> = std::mem::replace(&mut m, RadixMap::new()).into_iter().collect();
                if op[1] % 2 == 0 {
                    all.reverse();
                }
                for (k, v) in all {
                    ck!(m.insert(&k, v).is_none(), "op {}: into_iter yielded {} twice", i, show(&k));
                }
            }
        }
        ck_eq!(m.len(), model.len(), "len after op {}", i);
        if model.len() <= 12 || i % 61 == 0 || i + 1 == case.ops.len() {
            check(&m, &model, &format!("after op {}", i))?;
        }
        peak = peak.max(model.len());
    }
    ck_eq!(m.min(), model.keys().next().cloned(), "at the end: min()");
    ck_eq!(m.max(), model.keys().next_back().cloned(), "at the end: max()");
    for (k, v) in model.iter().take(60) {
        ck_eq!(m.get(k).map(|v| v.n), Some(*v), "at the end: get({})", show(k));
        // one byte more and one less
        let mut l = k.clone();
        l.push(b'a');
        ck_eq!(m.get(&l).map(|v| v.n), model.get(&l).copied(), "at the end: get({})", show(&l));
        if !k.is_empty() {
            let s = &k[..k.len() - 1];
            ck_eq!(m.get(s).map(|v| v.n), model.get(s).copied(), "at the end: get({})", show(s));
        }
    }
    if peak >= 4 && removed >= 2 {
        ctx.mark();
    }
    if emptied > 0 {
        ctx.label("map emptied by removals");
    }
    Ok(())
}

/// Same key set, several histories: all must give the same answers to prefix queries.
pub fn run_history_free(case: &Case, ctx: &mut Ctx) -> Res {
    let mut model: Model = BTreeMap::new();
    let mut lived: RadixMap<V> = RadixMap::new();
    let mut qs: Vec<Vec<u8>> = vec![vec![]];
    let mut removed = 0;
    for op in &case.ops {
        let k = key(op[1], op[3]);
        match op[0] % NOPS {
            REMOVE | REMOVEK | GET => {
                let k = if op[0] % NOPS == REMOVE || model.is_empty() {
                    k
                } else {
                    model.keys().nth((op[1] % model.len() as u64) as usize).unwrap().clone()
                };
                let a = lived.remove(&k).is_some();
                let b = model.remove(&k).is_some();
                removed += b as u32;
                ck_eq!(a, b, "remove({})", show(&k));
                qs.push(k);
            }
            INSERT | GETMUT | CONTAINS | MINMAX => {
                lived.insert(&k, V::new(0));
                model.insert(k, 0);
            }
            _ => qs.push(k),
        }
    }
    let mut fresh: RadixMap<V> = RadixMap::new();
    for k in model.keys() {
        fresh.insert(k, V::new(0));
    }
    let mut back: RadixSet = RadixSet::new();
    for k in model.keys().rev() {
        back.insert(k);
    }
    let mut more = Vec::new();
    for k in model.keys().take(20) {
        more.push(k.clone());
        let mut l = k.clone();
        l.push(op_byte(k));
        more.push(l.clone());
        l.pop();
        l.pop();
        more.push(l);
    }
    qs.extend(more);
    for q in &qs {
        let want = prefix_oracle(&model, q);
        let keys = || model.keys().take(20).map(|k| show(k)).collect::<Vec<_>>();
        ck_eq!(fresh.get_longest_prefix(q), want, "get_longest_prefix({}) of {:?}", show(q), keys());
        ck_eq!(lived.get_longest_prefix(q), want, "get_longest_prefix({}) of {:?} after removals", show(q), keys());
        ck_eq!(back.get_longest_prefix(q), want, "set: get_longest_prefix({}) of {:?}", show(q), keys());
        if want.len() > 1 && !q.is_empty() {
            ctx.label("prefix query with several answers");
        }
    }
    if model.len() >= 2 && removed >= 1 {
        ctx.mark();
    }
    Ok(())
}
fn op_byte(k: &[u8]) -> u8 {
    k.last().copied().unwrap_or(b'a')
}

pub fn run_set(case: &Case, ctx: &mut Ctx) -> Res {
    let mut m = RadixSet::new();
    let mut model: Model = BTreeMap::new();
    let (mut peak, mut removed) = (0, 0);
    for (i, op) in case.ops.iter().enumerate() {
        let k = key(op[1], op[3]);
        match op[0] % NOPS {
            INSERT | GETMUT => {
                let got = m.insert(&k);
                let want = model.insert(k.clone(), 0).map(|_| k.clone());
                ck_eq!(got, want, "op {}: insert({})", i, show(&k));
            }
            REMOVE | REMOVEK => {
                let k = if op[0] % NOPS == REMOVEK && !model.is_empty() {
                    model.keys().nth((op[1] % model.len() as u64) as usize).unwrap().clone()
                } else {
                    k
                };
                let want = model.remove(&k).map(|_| k.clone());
                removed += want.is_some() as u32;
                ck_eq!(m.remove(&k), want, "op {}: remove({})", i, show(&k));
            }
            GET | CONTAINS | INDEX | INDEXMUT => {
                ck_eq!(m.contains(&k), model.contains_key(&k), "op {}: contains({})", i, show(&k))
            }
            MINMAX => {
                ck_eq!(m.min(), model.keys().next().cloned(), "op {}: min()", i);
                ck_eq!(m.max(), model.keys().next_back().cloned(), "op {}: max()", i);
            }
            CLEAR => {
                m.clear();
                model.clear();
            }
            INTO => {
                let take = if op[3] % 3 == 0 { usize::MAX } else { op[3] as usize };
                let old = std::mem::replace(&mut m, RadixSet::new());
                let got: Vec<_> = old.into_iter().take(take).collect();
                let want: Vec<_> = model.keys().take(take).cloned().collect();
                ck_eq!(got, want, "op {}: into_iter().take({})", i, take);
                model.clear();
            }
            DRAIN => {
                let ks: Vec<_> = model.keys().cloned().collect();
                for k in ks {
                    ck_eq!(m.remove(&k), Some(k.clone()), "op {}: remove({})", i, show(&k));
                    removed += 1;
                }
                model.clear();
            }
            FRESH => {
                m = Default::default();
                model.clear();
            }
            _ => {}
        }
        ck_eq!(m.len(), model.len(), "len after op {}", i);
        ck_eq!(m.is_empty(), model.is_empty(), "is_empty after op {}", i);
        if model.len() <= 12 || i % 61 == 0 || i + 1 == case.ops.len() {
            let got: Vec<_> = m.iter().take(model.len() + 2).collect();
            let want: Vec<_> = model.keys().cloned().collect();
            ck_eq!(got, want, "contents after op {}", i);
        }
        peak = peak.max(model.len());
    }
    if peak >= 4 && removed >= 2 {
        ctx.mark();
    }
    Ok(())
}
