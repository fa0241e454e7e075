//! C18-C22: the on-disk B+ tree map against BTreeMap.
mod types;

use engine::*;
use extended_collections::bp_tree::BpMap;
use std::collections::BTreeMap;
use std::fs;
use std::path::{Path, PathBuf};
use types::*;

const INSERT: u64 = 0;
const REMOVE: u64 = 1;
const GET: u64 = 2;
const CONTAINS: u64 = 3;
const ENDS: u64 = 4;
const ITER: u64 = 5;
const PARTIAL: u64 = 6;
const CLEAR: u64 = 7;
const REOPEN: u64 = 8;
const OVERSIZE: u64 = 9;
const GROW: u64 = 10;
const SHRINK: u64 = 11;
const RECREATE: u64 = 12;
const CYCLE: u64 = 13;
const POPMIN: u64 = 14;
const POPMAX: u64 = 15;
const NOPS: usize = 16;

#[derive(Clone, Copy, PartialEq)]
enum Mode {
    Dict,
    Types,
    Reopen,
    Oversize,
    Pages,
    Error,
}

// cfg: type is the target; [leaf degree or 0, internal degree, size parameter, seed, percentage of reads and writes
// that are cut short or interrupted]
fn gen(mode: Mode, max: u64, wide: u64) -> impl Fn(&mut Rng, &Gen) -> Case {
    move |rng, g| {
        let max = if g.index % 61 == 60 { max * 6 } else { max };
        let s = match rng.below(6) {
            0 => rng.range(0, 4),
            1 => rng.range(4, 24),
            2 => rng.range(20, 100),
            3 if wide > 100 => rng.range(100, wide),
            _ => rng.range(5, 40),
        };
        let (ld, id) = match rng.below(12) {
            0 => (0, 0),
            1 => (rng.range(1, 4), rng.range(2, 4)),
            2 => (rng.range(1, 60), rng.range(2, 40)),
            3 => (rng.range(1, 400), rng.range(2, 500)),
            _ => (rng.range(1, 12), rng.range(2, 9)),
        };
        let odd = if rng.chance(25) { rng.pick(&[1, 5, 20, 40]) } else { 0 };
        let mut ops = history(rng, g, mode, max);
        if mode == Mode::Error {
            let percent = rng.pick(&[10, 40, 70]);
            for op in ops.iter_mut() {
                op[3] %= 1 << 16;
                if rng.chance(percent) {
                    // which call fails (from 1), how, and whether later ones of the operation fail too
                    let n = if rng.chance(70) { rng.range(1, 8) } else { rng.len(60) };
                    op[3] |= n << 16 | rng.below(4) << 32;
                }
            }
        }
        Case { cfg: vec![ld, id, s, 0, odd], ops }
    }
}

fn history(rng: &mut Rng, g: &Gen, mode: Mode, max: u64) -> Vec<Op> {
    let ks = match rng.below(8) {
        0 => 6,
        1 => 16,
        2 => 40,
        3 => 64,
        4 => 120,
        5 => 300,
        6 => 4096,
        _ => 1 << 32,
    };
    let mut ops: Vec<Op> = Vec::new();
    let total = rng.len(max);
    let mut cursor = rng.below(ks);
    let mut recent: Vec<u64> = Vec::new();
    while (ops.len() as u64) < total {
        let n = rng.len((total / 2).max(8));
        let order = rng.below(8);
        let step = rng.range(1, 3);
        let mut mix: [u64; NOPS] = match rng.below(6) {
            0 => [90, 4, 2, 0, 1, 1, 0, 0, 0, 0, 1, 0, 0, 0, 0, 0],
            1 => [8, 60, 2, 1, 1, 1, 0, 0, 0, 0, 0, 1, 0, 0, 8, 8],
            2 => [45, 45, 4, 1, 1, 1, 1, 0, 0, 0, 1, 1, 0, 0, 2, 2],
            3 => [10, 10, 25, 8, 6, 3, 4, 0, 0, 0, 0, 0, 0, 0, 0, 0],
            4 => [60, 20, 0, 0, 0, 1, 0, 0, 0, 0, 2, 2, 0, 0, 4, 4],
            _ => [30, 20, 8, 4, 3, 3, 3, 1, 0, 0, 1, 1, 1, 0, 3, 3],
        };
        match mode {
            Mode::Dict => {}
            Mode::Types => mix[REOPEN as usize] += 2,
            Mode::Reopen => {
                mix[REOPEN as usize] += if rng.chance(50) { 3 } else { 15 };
                mix[RECREATE as usize] += 1;
            }
            Mode::Oversize => {
                mix[REOPEN as usize] += 2;
                mix[OVERSIZE as usize] += 15;
            }
            Mode::Error => {
                mix[REOPEN as usize] += 4;
                mix[PARTIAL as usize] += 2;
                mix[CLEAR as usize] += 1;
            }
            Mode::Pages => {
                mix[REOPEN as usize] += 2;
                mix[CYCLE as usize] += 2;
                mix[GROW as usize] += 4;
                mix[SHRINK as usize] += 4;
            }
        }
        for _ in 0..n {
            let k = rng.weighted(&mix) as u64;
            let key = match order {
                0 => {
                    cursor = (cursor + step) % ks;
                    cursor
                }
                1 => {
                    cursor = (cursor + ks - step) % ks;
                    cursor
                }
                2 => {
                    cursor += 1;
                    if cursor % 2 == 0 {
                        (cursor / 2) % ks
                    } else {
                        ks - 1 - (cursor / 2) % ks
                    }
                }
                3 => {
                    if rng.chance(10) {
                        cursor = rng.below(ks);
                    }
                    (cursor + rng.below(6)) % ks
                }
                4 | 5 if !recent.is_empty() => {
                    let r = recent[rng.below(recent.len() as u64) as usize];
                    match rng.below(4) {
                        0 => (r + 1) % ks,
                        1 => r.saturating_sub(1),
                        _ => r,
                    }
                }
                6 if !g.dict.is_empty() && rng.chance(10) => rng.pick(&g.dict) % ks,
                _ => rng.below(ks),
            };
            if k == INSERT {
                if recent.len() < 64 {
                    recent.push(key);
                } else {
                    let i = rng.below(64) as usize;
                    recent[i] = key;
                }
            }
            let c = match k {
                GROW | SHRINK | CYCLE => rng.len(if mode == Mode::Pages { 120 } else { 200 }),
                _ => rng.below(64),
            };
            ops.push([k, key, rng.below(1 << 20), c]);
        }
    }
    ops
}

/// Equal keys that can be told apart are kept with what was stored: the map replaces key and value.
struct Run<T: Ty> {
    path: PathBuf,
    map: Option<BpMap<T::K, T::V>>,
    model: BTreeMap<T::K, (T::K, T::V)>,
    s: u64,
    /// degrees asked for, and lower estimates of the actual ones
    deg: (usize, usize),
    ld: usize,
    id: usize,
    peak: usize,
    /// file lengths at which the file had grown, with the peak contents then
    grown: Vec<(u64, usize)>,
    base: u64,
    last: u64,
    unit: u64,
}

fn scratch() -> PathBuf {
    PathBuf::from(std::env::var("VERIF_SCRATCH").unwrap_or_else(|_| "/dev/shm".into()))
}
struct Dir(PathBuf);
impl Drop for Dir {
    fn drop(&mut self) {
        fsrt::jitter(0, 0);
        fsrt::fail_next(None);
        fsrt::end();
        let _ = fs::remove_dir_all(&self.0);
    }
}
fn gcd(a: u64, b: u64) -> u64 {
    if b == 0 {
        a
    } else {
        gcd(b, a % b)
    }
}
fn size(p: &Path) -> u64 {
    fs::metadata(p).map(|m| m.len()).unwrap_or(0)
}
macro_rules! io {
    ($e:expr, $($a:tt)*) => {
        match $e {
            Ok(x) => x,
            Err(e) => return fail(Kind::F, format!("{}: error {}", format!($($a)*), e)),
        }
    };
}
fn shape<T: Ty>(k: &T::K) -> (String, u64) {
    (format!("{:?}", k), T::tag(k))
}

impl<T: Ty> Run<T> {
    fn create(&mut self, must: bool) -> Res<bool> {
        self.map = None;
        let (s, (ld, id)) = (self.s, self.deg);
        let path = self.path.clone();
        let r = catch(move || {
            if ld == 0 {
                BpMap::<T::K, T::V>::new(&path, T::ksz(s), T::vsz(s))
            } else {
                BpMap::with_degrees(&path, T::ksz(s), T::vsz(s), ld, id)
            }
        });
        match r {
            Ok(m) => self.map = Some(io!(m, "creating the map")),
            Err(m) => {
                if must {
                    return fail(Kind::F, format!("creating the map panics: {}", m));
                }
                return Ok(false);
            }
        }
        self.model.clear();
        self.last = size(&self.path);
        Ok(true)
    }
    fn m(&mut self) -> &mut BpMap<T::K, T::V> {
        self.map.as_mut().unwrap()
    }
    fn insert(&mut self, x: u64, v: u64) -> Res {
        let (k, v) = (T::key(x, self.s), T::val(v, self.s));
        let old = self.model.remove(&k);
        let got = io!(self.m().insert(k.clone(), v.clone()), "insert({:?})", k);
        ck_eq!(
            got.as_ref().map(|(k, v)| (shape::<T>(k), v.clone())),
            old.map(|(k, v)| (shape::<T>(&k), v)),
            "insert({:?}) into {} entries",
            k,
            self.model.len()
        );
        self.model.insert(k.clone(), (k, v));
        self.peak = self.peak.max(self.model.len());
        self.measure()
    }
    fn remove(&mut self, k: &T::K) -> Res {
        let old = self.model.remove(k);
        let got = io!(T::remove(self.m(), k), "remove({:?})", k);
        ck_eq!(
            got.as_ref().map(|(k, v)| (shape::<T>(k), v.clone())),
            old.map(|(k, v)| (shape::<T>(&k), v)),
            "remove({:?}) leaving {} entries",
            k,
            self.model.len()
        );
        self.measure()
    }
    fn measure(&mut self) -> Res {
        let now = size(&self.path);
        if now > self.last {
            self.unit = gcd(now - self.last, self.unit);
            self.grown.push((now, self.peak));
        }
        self.last = now;
        Ok(())
    }
    fn look(&mut self, k: &T::K) -> Res {
        let want = self.model.get(k).map(|e| e.1.clone());
        let got = io!(T::get(self.m(), k), "get({:?})", k);
        ck_eq!(got, want, "get({:?})", k);
        Ok(())
    }
    fn ends(&mut self) -> Res {
        let lo = self.model.values().next().map(|e| shape::<T>(&e.0));
        let hi = self.model.values().next_back().map(|e| shape::<T>(&e.0));
        let n = self.model.len();
        let got = io!(self.m().min(), "min").map(|k| shape::<T>(&k));
        ck_eq!(got, lo, "min of {} entries", n);
        let got = io!(self.m().max(), "max").map(|k| shape::<T>(&k));
        ck_eq!(got, hi, "max of {} entries", n);
        ck_eq!(self.m().len(), n, "len");
        ck_eq!(self.m().is_empty(), n == 0, "is_empty of {} entries", n);
        Ok(())
    }
    fn full(&mut self, limit: usize, by_ref: bool) -> Res {
        let want: Vec<_> = self.model.values().cloned().collect();
        same::<T>(self.m(), &want, limit, by_ref)?;
        if limit == usize::MAX {
            self.ends()?;
        }
        Ok(())
    }
    fn reopen(&mut self, times: u64, other: bool, killed: bool) -> Res {
        let copy = self.path.with_extension("copy");
        if killed {
            // what a process killed here, with the map still open, leaves behind
            fs::copy(&self.path, &copy).unwrap();
        }
        self.map = None;
        if killed {
            fs::rename(&copy, &self.path).unwrap();
        }
        if other {
            // the file is all there is to a map: it may be moved
            let to = self.path.with_extension("moved");
            fs::rename(&self.path, &to).unwrap();
            self.path = to;
        }
        for _ in 0..times {
            self.map = None;
            self.map = Some(io!(BpMap::open(&self.path), "open"));
        }
        Ok(())
    }
    /// Pages a tree of the given peak contents can need when every node is at its minimum.
    fn pages(&self, peak: usize) -> u64 {
        let min_leaf = ((self.ld + 1) / 2).max(1);
        let min_int = ((self.id + 1) / 2).max(2);
        let mut level = (peak / min_leaf).max(1);
        let mut total = level;
        while level > 1 {
            level = (level / min_int).max(1);
            total += level;
        }
        total as u64
    }
    fn check_pages(&self) -> Res {
        let mut at = 0;
        for (len, peak) in &self.grown {
            at = *len;
            let have = (at - self.base) / self.unit.max(1) + 1;
            let bound = self.pages(*peak) + 2;
            if have > bound {
                return fail(
                    Kind::X,
                    format!("the file has {} pages of {} bytes but the map never held more than {} entries, which need at most {} pages",
                        have, self.unit, peak, bound),
                );
            }
        }
        let _ = at;
        Ok(())
    }
}

fn same<T: Ty>(map: &mut BpMap<T::K, T::V>, want: &[(T::K, T::V)], limit: usize, by_ref: bool) -> Res {
    let mut i = 0;
    let it = if by_ref { (&mut *map).into_iter() } else { io!(map.iter_mut(), "iter_mut") };
    for e in it.take(limit.min(want.len() + 3)) {
        let (k, v) = io!(e, "iteration at {}", i);
        ck!(i < want.len(), "iteration yields {:?} after all {} entries", k, want.len());
        ck_eq!((shape::<T>(&k), &v), (shape::<T>(&want[i].0), &want[i].1), "entry {} of {} in iteration", i, want.len());
        i += 1;
    }
    ck_eq!(i, limit.min(want.len()), "number of entries iterated of {}", want.len());
    Ok(())
}

/// The n-th key of a pseudo-random or ordered sequence.
fn seq(seed: u64, kind: u64, i: u64) -> u64 {
    match kind % 4 {
        0 => seed % 1000 + i,
        1 => seed % 1000 + 100_000 - i,
        2 => mix(seed ^ i) % 100_000,
        _ => (seed % 1000 + i * 37) % 251,
    }
}

fn run<T: Ty>(case: &Case, ctx: &mut Ctx, mode: Mode) -> Res {
    static N: std::sync::atomic::AtomicU64 = std::sync::atomic::AtomicU64::new(0);
    reset_tags();
    let n = N.fetch_add(1, std::sync::atomic::Ordering::Relaxed);
    let dir = Dir(scratch().join(format!("bp-{}-{}", std::process::id(), n)));
    fs::create_dir_all(&dir.0).unwrap();
    fsrt::jitter(case.c(3) ^ case.c(2) << 20 ^ case.c(0) << 40, case.c(4) % 41);
    let s = case.c(2);
    let (k, v) = (T::ksz(s), T::vsz(s));
    // degrees a page surely has room for; beyond, the map may refuse
    let (mut ld, mut id) = (case.c(0) as usize, case.c(1) as usize);
    let sure = |ld: usize, id: usize| 64 + ld as u64 * (k + v + 16) <= 4096 && 64 + id as u64 * (k + 24) <= 4096;
    if ld > 0 {
        while ld > 1 && 24 + ld as u64 * (k + v) > 4096 {
            ld = ld / 2;
        }
        while id > 2 && 24 + id as u64 * (k + 8) > 4096 {
            id = id / 2;
        }
        id = id.max(2);
    } else if !sure(1, 2) {
        ld = 1;
        id = 2;
    }
    let mut r = Run::<T> {
        path: dir.0.join("map"),
        map: None,
        model: BTreeMap::new(),
        s,
        deg: (ld, id),
        ld,
        id,
        peak: 0,
        grown: Vec::new(),
        base: 0,
        last: 0,
        unit: 0,
    };
    if mode == Mode::Reopen && s % 3 == 0 {
        // left over from something else
        fs::write(&r.path, vec![0xa5u8; 9000]).unwrap();
    }
    if !r.create(ld == 0 || sure(ld, id))? {
        ctx.label("degrees refused as too large for a block");
        return Ok(());
    }
    if mode == Mode::Error {
        fsrt::begin(&dir.0, &dir.0.join("copy"), Vec::new(), Vec::new(), Vec::new());
        return errors::<T>(&mut r, case, ctx);
    }
    if ld == 0 {
        ctx.label("default degrees");
        // the default degrees are whatever fills a block; bounds on pages need a lower estimate
        r.ld = ((4096 - 64) / (k + v + 16)).max(1) as usize;
        r.id = ((4096 - 64) / (k + 24)).max(2) as usize;
    }
    r.base = size(&r.path);
    r.last = r.base;
    let mut twin = None;
    if mode == Mode::Reopen {
        let mut t = Run::<T> {
            path: dir.0.join("twin"),
            map: None,
            model: BTreeMap::new(),
            s,
            deg: (ld, id),
            ld,
            id,
            peak: 0,
            grown: Vec::new(),
            base: 0,
            last: 0,
            unit: 0,
        };
        t.create(true)?;
        twin = Some(t);
    }
    let (mut removed, mut special) = (0u64, 0u64);
    for (i, op) in case.ops.iter().enumerate() {
        let (a, b) = (op[1] & ((1 << 40) - 1), op[2] & ((1 << 40) - 1));
        let c = if op[0] >= GROW { op[3] % 800 } else { op[3] };
        let mut changed = true;
        match op[0] {
            INSERT => {
                r.insert(a, b)?;
                if let Some(t) = &mut twin {
                    t.insert(a, b)?;
                }
            }
            REMOVE => {
                let k = T::key(a, s);
                removed += r.model.contains_key(&k) as u64;
                r.remove(&k)?;
                if let Some(t) = &mut twin {
                    t.remove(&k)?;
                }
            }
            POPMIN | POPMAX => {
                let k = if op[0] == POPMIN { r.model.keys().next() } else { r.model.keys().next_back() };
                if let Some(k) = k.cloned() {
                    removed += 1;
                    r.remove(&k)?;
                    if let Some(t) = &mut twin {
                        t.remove(&k)?;
                    }
                }
            }
            GET => {
                changed = false;
                let k = T::key(a, s);
                r.look(&k)?;
                if let (Some(k), 0) = (T::big_key(a, s, 1 + b % 9), c % 4) {
                    // too big to be stored, so not there
                    r.look(&k)?;
                    ck_eq!(io!(T::contains(r.m(), &k), "contains_key"), false, "contains_key of an oversized key");
                    ck!(io!(T::remove(r.m(), &k), "remove").is_none(), "removing an oversized key finds one");
                }
            }
            CONTAINS => {
                changed = false;
                let k = T::key(a, s);
                let want = r.model.contains_key(&k);
                ck_eq!(io!(T::contains(r.m(), &k), "contains_key"), want, "contains_key({:?})", k);
            }
            ENDS => {
                changed = false;
                r.ends()?;
            }
            ITER => {
                changed = false;
                r.full(usize::MAX, a % 2 == 0)?;
            }
            PARTIAL => {
                changed = false;
                r.full((b % (r.model.len() as u64 + 2)) as usize, a % 2 == 0)?;
            }
            CLEAR => {
                for r in Some(&mut r).into_iter().chain(twin.as_mut()) {
                    io!(r.m().clear(), "clear");
                    r.model.clear();
                    r.measure()?;
                }
            }
            REOPEN => {
                if mode == Mode::Reopen && a % 2 == 0 {
                    r.full(usize::MAX, false)?;
                }
                special += (r.model.len() >= 4) as u64;
                r.reopen(1 + b % 3, c % 8 == 0, c % 4 == 1)?;
                r.full(usize::MAX, false)?;
                if let Some(t) = &mut twin {
                    ck_eq!(size(&r.path), size(&t.path), "file size of the reopened map against the one never closed");
                }
                changed = false;
            }
            RECREATE => {
                for r in Some(&mut r).into_iter().chain(twin.as_mut()) {
                    r.map = None;
                    r.create(true)?;
                }
            }
            GROW => {
                for r in Some(&mut r).into_iter().chain(twin.as_mut()) {
                    for j in 0..c {
                        r.insert(seq(a, b, j), b + j)?;
                    }
                }
            }
            SHRINK => {
                let keys: Vec<T::K> = r.model.keys().cloned().collect();
                let n = (c as usize).min(keys.len());
                for j in 0..n {
                    let k = match b % 4 {
                        0 => keys[j].clone(),
                        1 => keys[keys.len() - 1 - j].clone(),
                        2 => keys[(mix(a ^ j as u64) % keys.len() as u64) as usize].clone(),
                        _ => keys[(keys.len() - n) / 2 + j].clone(),
                    };
                    removed += r.model.contains_key(&k) as u64;
                    r.remove(&k)?;
                    if let Some(t) = &mut twin {
                        t.remove(&k)?;
                    }
                    if (mode == Mode::Reopen || mode == Mode::Pages) && b % 5 == 4 && j % 2 == 0 {
                        r.reopen(1, false, j % 4 == 0)?;
                    }
                }
            }
            OVERSIZE => {
                changed = oversize::<T>(&mut r, a, b, c, ctx)?;
                special += changed as u64;
            }
            CYCLE => {
                cycle::<T>(&mut r, a, b, c, ctx)?;
                special += 1;
            }
            _ => changed = false,
        }
        if changed && (i + 1 == case.ops.len() || r.model.len() <= 10 || i % 97 == 0) {
            r.full(usize::MAX, false)?;
        }
    }
    r.full(usize::MAX, false)?;
    if let Some(t) = &mut twin {
        t.full(usize::MAX, false)?;
        r.reopen(1, false, false)?;
        r.full(usize::MAX, false)?;
        ck_eq!(size(&r.path), size(&t.path), "file size of the reopened map against the one never closed");
    }
    if mode == Mode::Pages {
        probe::<T>(&mut r, &dir.0)?;
        r.check_pages()?;
    }
    ctx.label_n("reads and writes cut short or interrupted", fsrt::odd());
    // take it apart
    let keys: Vec<T::K> = r.model.keys().cloned().collect();
    if keys.len() <= 400 {
        let seed = case.c(3) ^ case.ops.len() as u64;
        let mut order: Vec<usize> = (0..keys.len()).collect();
        order.sort_by_key(|i| mix(seed ^ *i as u64));
        for (n, i) in order.iter().enumerate() {
            r.remove(&keys[*i])?;
            if n % 16 == 0 || order.len() - n < 8 {
                r.full(usize::MAX, false)?;
            }
        }
    } else {
        for k in keys.iter().step_by(29) {
            r.look(k)?;
        }
    }
    if r.peak >= 6 {
        ctx.label("cases reaching at least 6 entries");
    }
    if r.unit > 0 {
        ctx.label("cases with more than one page");
    }
    if r.peak > r.ld * 3 {
        ctx.label("cases with several leaves");
    }
    if r.unit > 0 && removed >= 2 && (special > 0 || matches!(mode, Mode::Dict | Mode::Types)) {
        ctx.mark();
    }
    Ok(())
}

/// The true page size: what the file grows by.
fn probe<T: Ty>(r: &mut Run<T>, dir: &Path) -> Res {
    if r.unit == 0 {
        return Ok(());
    }
    let mut p = Run::<T> {
        path: dir.join("probe"),
        map: None,
        model: BTreeMap::new(),
        s: r.s,
        deg: r.deg,
        ld: r.ld,
        id: r.id,
        peak: 0,
        grown: Vec::new(),
        base: 0,
        last: 0,
        unit: r.unit,
    };
    p.create(false)?;
    if p.map.is_some() {
        for x in 0..(4 * r.ld as u64 + 8).min(600) {
            p.insert(x * 3, x)?;
            if p.grown.len() >= 2 {
                break;
            }
        }
    }
    r.unit = p.unit;
    Ok(())
}

/// An insert that must be refused, and what the map and its file look like after it.
fn oversize<T: Ty>(r: &mut Run<T>, a: u64, b: u64, c: u64, ctx: &mut Ctx) -> Res<bool> {
    let by = match b % 4 {
        0 => 1,
        1 => 2 + b % 9,
        2 => 100,
        _ => 5000,
    };
    let s = r.s;
    let (k, v) = match c % 3 {
        0 => match T::big_key(a, s, by) {
            Some(k) => (k, T::val(b, s)),
            None => return Ok(false),
        },
        1 => match T::big_val(b, s, by) {
            Some(v) => (T::key(a, s), v),
            None => return Ok(false),
        },
        _ => match (T::big_key(a, s, by), T::big_val(b, s, by)) {
            (Some(k), Some(v)) => (k, v),
            _ => return Ok(false),
        },
    };
    ctx.label(match c % 3 {
        0 => "oversized key",
        1 => "oversized value",
        _ => "oversized key and value",
    });
    if r.model.contains_key(&k) {
        ctx.label("oversized value for a present key");
    }
    let what = format!("insert of {} bytes too many", by);
    let map = r.map.as_mut().unwrap();
    if let Ok(x) = catch(|| map.insert(k.clone(), v.clone())) {
        return fail(Kind::F, format!("{} is not refused: it returns {}", what, if x.is_ok() { "Ok" } else { "Err" }));
    }
    r.look(&k)?;
    let want: Vec<_> = r.model.values().cloned().collect();
    // as a later open sees it, even if this map is never used again
    let copy = r.path.with_extension("copy");
    fs::copy(&r.path, &copy).unwrap();
    {
        let mut m: BpMap<T::K, T::V> = io!(BpMap::open(&copy), "open after {}", what);
        ck_eq!(m.len(), want.len(), "len in the file after {}", what);
        same::<T>(&mut m, &want, usize::MAX, false)?;
    }
    fs::remove_file(&copy).unwrap();
    r.full(usize::MAX, false)?;
    Ok(true)
}

/// From an empty tree, the same growth and removal again and again needs no page twice.
fn cycle<T: Ty>(r: &mut Run<T>, a: u64, b: u64, c: u64, ctx: &mut Ctx) -> Res {
    let keys: Vec<T::K> = r.model.keys().cloned().collect();
    for k in keys {
        r.remove(&k)?;
    }
    let before = r.last;
    let times = 2 + (a >> 8) % 3;
    let mut first = 0;
    for t in 0..times {
        for j in 0..c {
            r.insert(seq(a, b, j), j)?;
            if t > 0 && (mix(a ^ j) ^ t) % 64 == 0 {
                r.reopen(1, false, j % 2 == 0)?;
            }
        }
        r.full(usize::MAX, false)?;
        let mut keys: Vec<T::K> = r.model.keys().cloned().collect();
        match (b >> 4) % 4 {
            0 => {}
            1 => keys.reverse(),
            2 => {
                let h = keys.len() / 2;
                keys.rotate_left(h);
            }
            _ => {
                // a fixed shuffle
                let mut o: Vec<usize> = (0..keys.len()).collect();
                o.sort_by_key(|i| mix(a ^ *i as u64));
                keys = o.iter().map(|i| keys[*i].clone()).collect();
            }
        }
        // how often the file is closed, or left by a killed process, and opened again meanwhile
        let every = [0, 3, 17, 1][((b >> 6) % 4) as usize];
        for (j, k) in keys.into_iter().enumerate() {
            r.remove(&k)?;
            if every > 0 && (mix(a ^ 77 ^ j as u64) ^ t) % every == 0 {
                r.reopen(1, false, j % 2 == 0)?;
            }
        }
        if every > 0 {
            ctx.label("cycles with the file reopened between removals");
        }
        if t == 0 {
            first = r.last;
            if first > before {
                ctx.label("cycles in which the file grew");
            }
        } else if r.last > first {
            return fail(
                Kind::X,
                format!("filling and emptying the map the same way again grew its file from {} to {} bytes (round {} of {} keys)", first, r.last, t + 1, c),
            );
        }
    }
    Ok(())
}

type Got<R> = Result<R, extended_collections::bp_tree::Error>;

/// Runs one operation while a call it makes fails. `None` if it reported the error, in which case the map has
/// what it had before: it was left alone if nothing had been written, and is restored otherwise.
fn attempt<T: Ty, R>(
    r: &mut Run<T>,
    fault: u64,
    what: &str,
    ctx: &mut Ctx,
    f: impl FnOnce(&mut Run<T>) -> Got<R>,
) -> Res<Option<R>> {
    let n = fault & 0xffff;
    if n == 0 {
        return Ok(Some(io!(f(r), "{}", what)));
    }
    let before = fs::read(&r.path).unwrap();
    let (fired, changes) = (fsrt::counts().0, fsrt::changes());
    let errno = [5, 28][(fault >> 16 & 1) as usize];
    fsrt::fail_next(Some((n, errno, fault >> 17 & 1 == 1)));
    let got = catch(|| f(&mut *r));
    fsrt::fail_next(None);
    let fired = fsrt::counts().0 - fired;
    let changed = fsrt::changes() != changes;
    let got = match got {
        Ok(x) => x,
        Err(m) => return fail(Kind::F, format!("{} panics when a file-system call fails: {}", what, m)),
    };
    match got {
        Ok(x) => {
            if fired > 0 {
                ctx.label("operations that did their work although a call failed");
            }
            Ok(Some(x))
        }
        Err(e) if fired == 0 => fail(Kind::F, format!("{}: error {} although no call failed", what, e)),
        Err(_) => {
            if changed {
                ctx.label("writing operations that reported the error");
                r.map = None;
                fs::write(&r.path, &before).unwrap();
            } else {
                ctx.label("reading operations that reported the error");
                ck!(fs::read(&r.path).unwrap() == before, "{} failed before it wrote anything, but the file has changed", what);
            }
            if r.map.is_none() {
                r.map = Some(io!(BpMap::open(&r.path), "open after {} failed", what));
            }
            if r.model.len() <= 40 {
                r.full(usize::MAX, false)?;
            } else {
                r.ends()?;
            }
            Ok(None)
        }
    }
}
/// Any operation, with a call of the file system failing.
fn errors<T: Ty>(r: &mut Run<T>, case: &Case, ctx: &mut Ctx) -> Res {
    let s = r.s;
    let mut seen = 0u64;
    let put = |r: &mut Run<T>, a: u64, b: u64, f: u64, ctx: &mut Ctx| -> Res {
        let (k, v) = (T::key(a, s), T::val(b, s));
        let (k2, v2) = (k.clone(), v.clone());
        if let Some(got) = attempt(r, f, "insert", ctx, move |r| r.m().insert(k2, v2))? {
            let old = r.model.insert(k.clone(), (k, v));
            let old = old.map(|(k, v)| (shape::<T>(&k), v));
            ck_eq!(got.map(|(k, v)| (shape::<T>(&k), v)), old, "insert of key {}", a);
            r.peak = r.peak.max(r.model.len());
        }
        Ok(())
    };
    let take = |r: &mut Run<T>, k: &T::K, f: u64, ctx: &mut Ctx| -> Res {
        if let Some(got) = attempt(r, f, "remove", ctx, |r| T::remove(r.m(), k))? {
            let old = r.model.remove(k).map(|(k, v)| (shape::<T>(&k), v));
            ck_eq!(got.map(|(k, v)| (shape::<T>(&k), v)), old, "remove({:?})", k);
        }
        Ok(())
    };
    for (i, op) in case.ops.iter().enumerate() {
        let (a, b) = (op[1] & ((1 << 40) - 1), op[2] & ((1 << 40) - 1));
        let (c, f) = (op[3] % 200, op[3] >> 16);
        // the first and later ones of many operations
        let later = |j: u64| if j == 0 || mix(a ^ b << 8 ^ j) % 6 == 0 { f } else { 0 };
        let reported = fsrt::counts().0;
        match op[0] {
            INSERT => put(r, a, b, f, ctx)?,
            GROW => {
                for j in 0..c {
                    put(r, seq(a, b, j), b + j, later(j), ctx)?;
                }
            }
            REMOVE => take(r, &T::key(a, s), f, ctx)?,
            POPMIN | POPMAX => {
                let k = if op[0] == POPMIN { r.model.keys().next() } else { r.model.keys().next_back() };
                if let Some(k) = k.cloned() {
                    take(r, &k, f, ctx)?;
                }
            }
            SHRINK => {
                let keys: Vec<T::K> = r.model.keys().cloned().collect();
                for j in 0..(c as usize).min(keys.len()) {
                    let k = match b % 3 {
                        0 => &keys[j],
                        1 => &keys[keys.len() - 1 - j],
                        _ => &keys[(mix(a ^ j as u64) % keys.len() as u64) as usize],
                    };
                    take(r, k, later(j as u64), ctx)?;
                }
            }
            GET => {
                let k = T::key(a, s);
                if let Some(got) = attempt(r, f, "get", ctx, |r| T::get(r.m(), &k))? {
                    ck_eq!(got, r.model.get(&k).map(|e| e.1.clone()), "get({:?})", k);
                }
            }
            CONTAINS => {
                let k = T::key(a, s);
                if let Some(got) = attempt(r, f, "contains_key", ctx, |r| T::contains(r.m(), &k))? {
                    ck_eq!(got, r.model.contains_key(&k), "contains_key({:?})", k);
                }
            }
            ENDS => {
                let got = if a % 2 == 0 {
                    attempt(r, f, "min", ctx, |r| r.m().min())?
                } else {
                    attempt(r, f, "max", ctx, |r| r.m().max())?
                };
                if let Some(got) = got {
                    let e = if a % 2 == 0 { r.model.values().next() } else { r.model.values().next_back() };
                    ck_eq!(got.map(|k| shape::<T>(&k)), e.map(|e| shape::<T>(&e.0)), "min or max");
                }
            }
            ITER | PARTIAL => {
                let want: Vec<_> = r.model.values().map(|(k, v)| (shape::<T>(k), v.clone())).collect();
                let limit = if op[0] == ITER { usize::MAX } else { (b % (want.len() as u64 + 2)) as usize };
                let mut got = Vec::new();
                let all = attempt(r, f, "iteration", ctx, |r| {
                    for e in r.m().iter_mut()?.take(limit.min(want.len() + 3)) {
                        let (k, v) = e?;
                        got.push((shape::<T>(&k), v));
                    }
                    Ok(())
                })?;
                let n = got.len();
                ck!(n <= want.len() && got[..] == want[..n], "iteration with a failing call yields {:?} of {:?}", got, want);
                if all.is_some() {
                    ck_eq!(n, want.len().min(limit), "number of entries iterated without an error");
                }
            }
            CLEAR => {
                if attempt(r, f, "clear", ctx, |r| r.m().clear())?.is_some() {
                    r.model.clear();
                    r.full(usize::MAX, false)?;
                }
            }
            REOPEN => {
                r.map = None;
                attempt(r, f, "open", ctx, |r| {
                    r.map = Some(BpMap::open(&r.path)?);
                    Ok(())
                })?;
                r.full(usize::MAX, false)?;
            }
            _ => {}
        }
        seen += (fsrt::counts().0 != reported && r.model.len() >= 2) as u64;
        if i % 53 == 0 || r.model.len() <= 8 {
            r.full(usize::MAX, false)?;
        }
    }
    r.full(usize::MAX, false)?;
    ctx.label_n("reads and writes cut short or interrupted", fsrt::odd());
    r.reopen(1, false, false)?;
    r.full(usize::MAX, false)?;
    ctx.label_n("operations during which calls failed, with 2 or more entries", seen);
    if r.peak >= 6 && seen >= 3 {
        ctx.mark();
    }
    Ok(())
}

const RULE_E: &str = "non-trivial: at least 3 operations during which a file-system call failed while the map had 2 or more entries, and at least 6 entries at some time; distinct by the hash of the whole case";
const RULE: &str = "non-trivial: the tree grows beyond one page and the history contains at least 2 removals of present keys; distinct by the hash of the whole case";
const RULE_R: &str = "non-trivial: the tree grows beyond one page, the history contains at least 2 removals and at least one reopening with 4 or more entries; distinct by the hash of the whole case";
const RULE_O: &str = "non-trivial: the tree grows beyond one page, the history contains at least 2 removals and at least one rejected insert; distinct by the hash of the whole case";
const RULE_P: &str = "non-trivial: the tree grows beyond one page, the history contains at least 2 removals and at least one fill-and-empty cycle; distinct by the hash of the whole case";

fn t<T: Ty + 'static>(name: &'static str, mode: Mode, quick: u64, thorough: u64, max: u64, wide: u64) -> Target {
    Target::new(name, quick, thorough, gen(mode, max, wide), move |c: &Case, x: &mut Ctx| run::<T>(c, x, mode))
        .steps(4_000_000_000)
}

fn main() {
    let w = std::thread::Builder::new().stack_size(2 << 20).spawn(body).unwrap();
    let _ = w.join();
    std::process::exit(2);
}

fn body() {
    use Mode::*;
    let v = vec![
        Prop {
            id: "C18",
            rule: RULE,
            accept: &[Kind::F],
            targets: vec![
                t::<Ints>("u32-u64", Dict, 8000, 400000, 300, 0),
                t::<Roomy>("u32-u64-roomy", Dict, 4000, 200000, 300, 1900),
                t::<Tags>("equal-keys", Dict, 3000, 150000, 300, 0),
                t::<Strs>("strings", Dict, 2000, 100000, 300, 900),
            ],
        },
        Prop {
            id: "C19",
            rule: RULE,
            accept: &[Kind::F],
            targets: vec![
                t::<Strs>("strings", Types, 2000, 100000, 200, 1900),
                t::<StrInt>("string-u32", Types, 2000, 100000, 200, 1900),
                t::<Bytes>("u8-u8", Types, 2000, 100000, 200, 0),
                t::<IntBlob>("i64-bytes", Types, 2000, 100000, 200, 3900),
                t::<OptVec>("option-option", Types, 2000, 100000, 200, 3900),
                t::<Enums>("enums", Types, 2000, 100000, 200, 1900),
                t::<Tuples>("tuple-unit", Types, 2000, 100000, 200, 1900),
                t::<Chars>("char-bool", Types, 2000, 100000, 200, 0),
                t::<Roomy>("u32-u64-roomy", Types, 1000, 100000, 200, 1900),
            ],
        },
        Prop {
            id: "C20",
            rule: RULE_R,
            accept: &[Kind::F],
            targets: vec![
                t::<Ints>("u32-u64", Reopen, 5000, 200000, 250, 0),
                t::<Strs>("strings", Reopen, 3000, 120000, 250, 1900),
                t::<Enums>("enums", Reopen, 2000, 100000, 250, 1900),
                t::<Roomy>("u32-u64-roomy", Reopen, 2000, 100000, 250, 1900),
            ],
        },
        Prop {
            id: "C21",
            rule: RULE_O,
            accept: &[Kind::F],
            targets: vec![
                t::<Strs>("strings", Oversize, 3000, 120000, 200, 1900),
                t::<IntBlob>("i64-bytes", Oversize, 2000, 100000, 200, 3900),
                t::<Enums>("enums", Oversize, 2000, 100000, 200, 1900),
                t::<OptVec>("option-option", Oversize, 2000, 100000, 200, 3900),
                t::<Tuples>("tuple-unit", Oversize, 2000, 100000, 200, 1900),
            ],
        },
        Prop {
            id: "C22",
            rule: RULE_P,
            accept: &[Kind::F, Kind::X],
            targets: vec![
                t::<Ints>("u32-u64", Pages, 3000, 120000, 200, 0),
                t::<Roomy>("u32-u64-roomy", Pages, 2000, 100000, 200, 1900),
                t::<StrInt>("string-u32", Pages, 2000, 100000, 200, 1900),
            ],
        },
        Prop {
            id: "C33",
            rule: RULE_E,
            accept: &[Kind::F],
            targets: vec![
                t::<Ints>("u32-u64", Error, 16000, 300000, 150, 0),
                t::<Strs>("strings", Error, 7000, 150000, 150, 900),
                t::<Roomy>("u32-u64-roomy", Error, 5000, 100000, 150, 1900),
            ],
        },
    ];
    engine::main(v);
}
