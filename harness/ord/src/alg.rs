//! C06, C07 (and C12): set algebra on maps and sets, in the middle of histories.
use crate::api::*;
use crate::dict::*;
use engine::*;
use std::collections::BTreeMap;

pub const ALG: u64 = NOPS; // op[2] % 6 says which
pub const SPLIT: u64 = NOPS + 1;
pub const N2: u64 = NOPS + 2;
/// Register of an operation: two bits above the key.
const REG: u32 = 40;

pub fn history(rng: &mut Rng, g: &Gen, max: u64, split: bool) -> Vec<Op> {
    let mut ops: Vec<Op> = Vec::new();
    let rounds = rng.range(1, 6);
    let space = rng.pick(&[4, 8, 16, 60, 500, 1 << 32]);
    for _ in 0..rounds {
        for r in 0..3u64 {
            if rng.chance(25) {
                continue;
            }
            let shift = match rng.below(5) {
                0 => rng.below(space), // ranges that partly overlap
                _ => 0,
            };
            let even = rng.chance(15);
            let max = if rng.chance(20) { 4 } else { max / 4 };
            for mut o in dict_history(rng, g, max.max(2)) {
                o[1] = (o[1] % space + shift) & 0xffff_ffff;
                if even {
                    o[1] = o[1] / 2 * 2 + (r & 1);
                }
                o[1] |= r << REG;
                ops.push(o);
            }
        }
        for _ in 0..rng.range(1, 3) {
            let r = rng.below(3);
            let k = if split && rng.chance(35) { SPLIT } else { ALG };
            ops.push([k, rng.below(space) | (r << REG), rng.below(6), rng.below(64)]);
        }
    }
    ops
}
fn dict_history(rng: &mut Rng, g: &Gen, max: u64) -> Vec<Op> {
    crate::dict::history(rng, g, max)
}

fn apply<C: Ord + Clone, X: Clone>(which: u64, l: &BTreeMap<C, X>, r: &BTreeMap<C, X>) -> BTreeMap<C, X> {
    let mut out = BTreeMap::new();
    for (k, v) in l {
        let both = r.contains_key(k);
        let keep = match which {
            0 | 4 => true,
            1 => both,
            _ => !both,
        };
        if keep {
            out.insert(k.clone(), v.clone());
        }
    }
    if matches!(which, 0 | 3 | 4) {
        for (k, v) in r {
            if !l.contains_key(k) {
                out.insert(k.clone(), v.clone());
            }
        }
    }
    out
}
const NAMES: [&str; 6] = ["union", "intersection", "difference", "symmetric_difference", "+", "-"];

fn split_model<C: Ord + Clone, X: Clone>(
    m: &BTreeMap<C, X>,
    at: &C,
    inclusive: bool,
) -> (BTreeMap<C, X>, BTreeMap<C, X>) {
    let stays = |k: &C| if inclusive { k <= at } else { k < at };
    let a = m.iter().filter(|x| stays(x.0)).map(|x| (x.0.clone(), x.1.clone())).collect();
    let b = m.iter().filter(|x| !stays(x.0)).map(|x| (x.0.clone(), x.1.clone())).collect();
    (a, b)
}

/// Lookups all over the result, so that its inner structure is exercised, not only its bottom level.
fn probe_map<S: Keys, M: Map<S>>(m: &mut M, model: &BTreeMap<S::C, (u32, u32)>, what: &str) -> Res {
    let step = (model.len() / 24).max(1);
    for (c, x) in model.iter().step_by(step) {
        ck_eq!(S::with_q(c, |q| m.get(q).map(|v| v.n)), Some(x.1), "{}: get({:?})", what, c);
        ck_eq!(S::with_q(c, |q| m.floor(q).map(|k| S::read(k))), Some((c.clone(), x.0)), "{}: floor({:?})", what, c);
        ck_eq!(S::with_q(c, |q| m.ceil(q).map(|k| S::read(k))), Some((c.clone(), x.0)), "{}: ceil({:?})", what, c);
    }
    let first = model.iter().next().map(|(k, v)| (k.clone(), v.0));
    let last = model.iter().next_back().map(|(k, v)| (k.clone(), v.0));
    ck_eq!(m.min().map(|k| S::read(k)), first, "{}: min()", what);
    ck_eq!(m.max().map(|k| S::read(k)), last, "{}: max()", what);
    Ok(())
}

pub fn run_map<S: Keys, M: Map<S> + Alg<S>>(case: &Case, ctx: &mut Ctx) -> Res {
    let mut ms: Vec<M> = vec![M::new(), M::default_(), M::new()];
    let mut models: Vec<BTreeMap<S::C, (u32, u32)>> = vec![BTreeMap::new(); 3];
    let (mut joined, mut later) = (false, false);
    for (i, op) in case.ops.iter().enumerate() {
        let r = ((op[1] >> REG) % 3) as usize;
        match op[0] % N2 {
            ALG => {
                let o = (r + 1 + (op[3] % 2) as usize) % 3;
                let which = op[2] % 6;
                let a = std::mem::replace(&mut ms[r], M::new());
                let b = std::mem::replace(&mut ms[o], M::new());
                let (ma, mb) = (std::mem::take(&mut models[r]), std::mem::take(&mut models[o]));
                if ma.keys().any(|k| mb.contains_key(k)) && ma.len() + mb.len() >= 4 && ma != mb {
                    joined = true;
                    ctx.label("operands that overlap");
                }
                models[r] = apply(which, &ma, &mb);
                ms[r] = M::alg(which, a, b);
                let what = format!("op {}: {}", i, NAMES[which as usize]);
                check_map::<S, M>(&ms[r], &models[r], &what)?;
                probe_map::<S, M>(&mut ms[r], &models[r], &what)?;
            }
            SPLIT => {
                let c = S::canon(op[1]);
                let inc = op[2] % 2 == 1;
                if let Some(right) = ms[r].split(&c, inc) {
                    let o = (r + 1 + (op[3] % 2) as usize) % 3;
                    let (a, b) = split_model(&models[r], &c, inc);
                    if !a.is_empty() && !b.is_empty() {
                        joined = true;
                        ctx.label("split into two non-empty parts");
                    }
                    let what = format!("op {}: split_off({:?}, {})", i, c, inc);
                    check_map::<S, M>(&ms[r], &a, &format!("{}: what stays", what))?;
                    check_map::<S, M>(&right, &b, &format!("{}: what is returned", what))?;
                    ms[o] = right;
                    models[r] = a;
                    models[o] = b;
                    probe_map::<S, M>(&mut ms[r], &models[r], &what)?;
                    probe_map::<S, M>(&mut ms[o], &models[o], &what)?;
                }
            }
            _ => {
                let mut op2 = *op;
                op2[1] &= 0xffff_ffff;
                map_op::<S, M>(&mut ms[r], &mut models[r], &op2, i, ctx)?;
                later |= joined;
            }
        }
        ck_eq!(ms[r].len(), models[r].len(), "len after op {}", i);
        if models[r].len() <= 8 || i % 61 == 0 {
            check_map::<S, M>(&ms[r], &models[r], &format!("after op {}", i))?;
        }
    }
    for r in 0..3 {
        check_map::<S, M>(&ms[r], &models[r], "at the end")?;
        probe_map::<S, M>(&mut ms[r], &models[r], "at the end")?;
    }
    if joined {
        ctx.mark();
    }
    if later {
        ctx.label("results used by later operations");
    }
    Ok(())
}

pub fn run_set<S: Keys, M: Set<S> + Alg<S>>(case: &Case, ctx: &mut Ctx) -> Res {
    let mut ms: Vec<M> = vec![M::new(), M::default_(), M::new()];
    let mut models: Vec<BTreeMap<S::C, u32>> = vec![BTreeMap::new(); 3];
    let mut joined = false;
    let probe = |m: &M, model: &BTreeMap<S::C, u32>, what: &str| -> Res {
        let step = (model.len() / 24).max(1);
        for (c, t) in model.iter().step_by(step) {
            ck!(m.contains(c), "{}: contains({:?})", what, c);
            ck_eq!(m.floor(c).map(|k| S::read(k)), Some((c.clone(), *t)), "{}: floor({:?})", what, c);
            ck_eq!(m.ceil(c).map(|k| S::read(k)), Some((c.clone(), *t)), "{}: ceil({:?})", what, c);
        }
        Ok(())
    };
    for (i, op) in case.ops.iter().enumerate() {
        let r = ((op[1] >> REG) % 3) as usize;
        match op[0] % N2 {
            ALG => {
                let o = (r + 1 + (op[3] % 2) as usize) % 3;
                let which = op[2] % 6;
                let a = std::mem::replace(&mut ms[r], M::new());
                let b = std::mem::replace(&mut ms[o], M::new());
                let (ma, mb) = (std::mem::take(&mut models[r]), std::mem::take(&mut models[o]));
                joined |= ma.keys().any(|k| mb.contains_key(k)) && ma.len() + mb.len() >= 4;
                models[r] = apply(which, &ma, &mb);
                ms[r] = M::alg(which, a, b);
                let what = format!("op {}: {}", i, NAMES[which as usize]);
                check_set::<S, M>(&ms[r], &models[r], &what)?;
                probe(&ms[r], &models[r], &what)?;
            }
            SPLIT => {
                let c = S::canon(op[1]);
                let inc = op[2] % 2 == 1;
                if let Some(right) = ms[r].split(&c, inc) {
                    let o = (r + 1 + (op[3] % 2) as usize) % 3;
                    let (a, b) = split_model(&models[r], &c, inc);
                    joined |= !a.is_empty() && !b.is_empty();
                    let what = format!("op {}: split_off({:?}, {})", i, c, inc);
                    check_set::<S, M>(&ms[r], &a, &format!("{}: what stays", what))?;
                    check_set::<S, M>(&right, &b, &format!("{}: what is returned", what))?;
                    ms[o] = right;
                    models[r] = a;
                    models[o] = b;
                }
            }
            _ => {
                let mut op2 = *op;
                op2[1] &= 0xffff_ffff;
                set_op::<S, M>(&mut ms[r], &mut models[r], &op2, i, ctx)?;
            }
        }
        ck_eq!(ms[r].len(), models[r].len(), "len after op {}", i);
        if models[r].len() <= 8 || i % 61 == 0 {
            check_set::<S, M>(&ms[r], &models[r], &format!("after op {}", i))?;
        }
    }
    for r in 0..3 {
        check_set::<S, M>(&ms[r], &models[r], "at the end")?;
        probe(&ms[r], &models[r], "at the end")?;
    }
    if joined {
        ctx.mark();
    }
    Ok(())
}
