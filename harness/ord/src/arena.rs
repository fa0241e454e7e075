//! C15 (and C12): the typed arena against a map from entries to values.
use crate::list::Elem;
use engine::*;
use extended_collections::arena::{Entry, TypedArena};

pub fn history(rng: &mut Rng, max: u64) -> Case {
    let chunk = match rng.below(6) {
        0 => 1,
        1 => 2,
        2 => 3,
        3 => rng.range(1, 16),
        4 => 1024,
        _ => rng.range(0, 8),
    };
    let mut ops = Vec::new();
    let total = rng.len(max);
    while (ops.len() as u64) < total {
        let n = rng.len((total / 2).max(8));
        let mix: [u64; 8] = match rng.below(4) {
            0 => [70, 10, 4, 4, 4, 2, 1, 1],
            1 => [10, 60, 4, 4, 4, 4, 2, 1],
            2 => [40, 40, 3, 3, 3, 4, 3, 1],
            _ => [20, 20, 15, 10, 10, 10, 5, 1],
        };
        let style = rng.below(4);
        for _ in 0..n {
            let which = match style {
                0 => 0,
                1 => u64::MAX / 2 - rng.below(3),
                _ => rng.below(1 << 32),
            };
            ops.push([rng.weighted(&mix) as u64, which, rng.below(1 << 20), 0]);
        }
    }
    Case { cfg: vec![chunk], ops }
}

fn contents<E: Elem>(a: &TypedArena<E>, live: &[(Entry, u32)], dead: &[Entry], what: &str) -> Res {
    for (e, v) in live {
        ck_eq!(a.get(e).map(|x| x.read()), Some(Some(*v)), "{}: get({:?}) of a live entry", what, e);
    }
    for e in dead {
        ck!(a.get(e).is_none(), "{}: get({:?}) of a freed entry finds {:?}", what, e, a.get(e).map(|x| x.read()));
    }
    Ok(())
}

pub fn run<E: Elem>(case: &Case, ctx: &mut Ctx) -> Res {
    let chunk = case.c(0) as usize % 4096;
    let mut a: TypedArena<E> = TypedArena::new(chunk);
    let mut live: Vec<(Entry, u32)> = Vec::new();
    let mut dead: Vec<Entry> = Vec::new(); // freed and not allocated again
    let mut allocated = 0usize; // slots ever created
    let (mut frees, mut reused) = (0, 0);
    for (i, op) in case.ops.iter().enumerate() {
        let v = op[2] as u32;
        let pick = |n: usize| (op[1] % n.max(1) as u64) as usize;
        match op[0] % 8 {
            0 => {
                let x = E::make(v);
                let before = live_bytes();
                let e = a.allocate(x);
                let grown = live_bytes() - before;
                let chunk_bytes = (chunk * std::mem::size_of::<E>()) as i64;
                ck!(
                    dead.is_empty() || chunk_bytes == 0 || grown < chunk_bytes,
                    "op {}: allocate took {} bytes although {:?} is free",
                    i,
                    grown,
                    dead
                );
                ck!(live.iter().all(|x| x.0 != e), "op {}: allocate returned the live entry {:?}", i, e);
                match dead.iter().position(|x| *x == e) {
                    Some(p) => {
                        dead.swap_remove(p);
                        reused += 1;
                    }
                    None => {
                        ck!(dead.is_empty(), "op {}: a new slot {:?} was made while {:?} was free", i, e, dead[0]);
                        allocated += 1;
                    }
                }
                live.push((e, v));
            }
            1 => {
                if !live.is_empty() {
                    let (e, w) = live.swap_remove(pick(live.len()));
                    let got = a.free(&e);
                    ck_eq!(got.read(), Some(w), "op {}: free({:?})", i, e);
                    dead.push(e);
                    frees += 1;
                }
            }
            2 => {
                if !live.is_empty() {
                    let p = pick(live.len());
                    let (e, w) = live[p];
                    ck_eq!(a.get(&e).map(|x| x.read()), Some(Some(w)), "op {}: get({:?})", i, e);
                    ck_eq!(catch(|| a[e].read()).ok(), Some(Some(w)), "op {}: [{:?}]", i, e);
                }
            }
            3 => {
                if !live.is_empty() {
                    let p = pick(live.len());
                    let e = live[p].0;
                    let got = a.get_mut(&e).map(|x| {
                        let o = x.read();
                        x.set(v);
                        o
                    });
                    ck_eq!(got, Some(Some(live[p].1)), "op {}: get_mut({:?})", i, e);
                    live[p].1 = v;
                }
            }
            4 => {
                if !live.is_empty() {
                    let p = pick(live.len());
                    let e = live[p].0;
                    let got = catch(|| {
                        let x = &mut a[e];
                        let o = x.read();
                        x.set(v);
                        o
                    });
                    ck_eq!(got.ok(), Some(Some(live[p].1)), "op {}: [{:?}] mutably", i, e);
                    live[p].1 = v;
                }
            }
            5 => {
                // a freed entry
                if !dead.is_empty() {
                    let e = dead[pick(dead.len())];
                    ck!(a.get(&e).is_none(), "op {}: get({:?}) of a freed entry", i, e);
                    ck!(a.get_mut(&e).is_none(), "op {}: get_mut({:?}) of a freed entry", i, e);
                    ck!(catch(|| a[e].read()).is_err(), "op {}: [{:?}] of a freed entry", i, e);
                    ck!(catch(|| a[e].set(1)).is_err(), "op {}: [{:?}] of a freed entry mutably", i, e);
                    ck!(catch(|| a.free(&e)).is_err(), "op {}: free({:?}) twice returns", i, e);
                    ctx.label("free of a freed entry");
                    contents(&a, &live, &dead, &format!("op {}: after a rejected free", i))?;
                }
            }
            6 => {
                // entries of a larger arena, never handed out by this one
                let mut b: TypedArena<u8> = TypedArena::new(chunk.max(1));
                let es: Vec<Entry> = (0..allocated + 2).map(|_| b.allocate(0)).collect();
                let e = es[allocated + pick(2)];
                if chunk > 0 && live.iter().all(|x| x.0 != e) && dead.iter().all(|x| *x != e) {
                    ck!(a.get(&e).is_none(), "op {}: get({:?}) of an entry never allocated", i, e);
                    ck!(a.get_mut(&e).is_none(), "op {}: get_mut({:?}) of an entry never allocated", i, e);
                    ck!(catch(|| a.free(&e)).is_err(), "op {}: free({:?}) of an entry never allocated", i, e);
                    contents(&a, &live, &dead, &format!("op {}: after a rejected free", i))?;
                }
            }
            _ => contents(&a, &live, &dead, &format!("op {}", i))?,
        }
        if live.len() + dead.len() <= 8 || i % 61 == 0 || i + 1 == case.ops.len() {
            contents(&a, &live, &dead, &format!("after op {}", i))?;
        }
    }
    if frees >= 2 && reused >= 1 && live.len() + dead.len() >= 4 {
        ctx.mark();
    }
    if chunk > 0 && allocated > chunk {
        ctx.label("several chunks");
    }
    Ok(())
}
