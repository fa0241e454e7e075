//! C23-C29: the log-structured merge map against BTreeMap, with its compaction threads under control.
mod types;

use covrt::sched;
use engine::*;
use extended_collections::lsm_tree::compaction::{CompactionIter, LeveledStrategy, SizeTieredStrategy};
use extended_collections::lsm_tree::LsmMap;
use std::collections::{BTreeMap, BTreeSet};
use std::fs;
use std::marker::PhantomData;
use std::path::PathBuf;
use std::sync::atomic::Ordering::SeqCst;
use types::*;

const INSERT: u64 = 0;
const REMOVE: u64 = 1;
const GET: u64 = 2;
const ENDS: u64 = 3;
const LEN: u64 = 4;
const HINT: u64 = 5;
const ITER: u64 = 6;
const FLUSH: u64 = 7;
const CLEAR: u64 = 8;
const RELEASE: u64 = 9;
const REOPEN: u64 = 10;
const DIRTY: u64 = 11;
const IOPEN: u64 = 12;
const ISTEP: u64 = 13;
const ICLOSE: u64 = 14;
const BULKIN: u64 = 15;
const BULKOUT: u64 = 16;
const PAUSE: u64 = 17;
const FAULT: u64 = 18;
const CHECK: u64 = 19;
const DIRS: u64 = 20;
const KILL: u64 = 21;
const SHORT: u64 = 22;
const FSFAULT: u64 = 23;
const ERR: u64 = 24;
const NOPS: usize = 21;

#[derive(Clone, Copy, PartialEq)]
enum Mode {
    Dict,
    Reopen,
    Dirty,
    Iter,
    Fault,
    Disk,
    Kill,
    Error,
}

// ------------------------------------------------------------------ generation
// cfg: [memory, table count, size, a, b, free running, percentage of reads and writes cut short or interrupted]; o[3] of an operation: 0, or 1 + the new block of the
// calling thread at which stopped compactions are let go.
fn gen(mode: Mode, leveled: bool) -> impl Fn(&mut Rng, &Gen) -> Case {
    move |rng, g| {
        let mem = match rng.below(8) {
            0 => 0,
            1 => rng.range(1, 80),
            2 => rng.range(200, 900),
            3 if g.thorough => rng.range(500, 4000),
            _ => rng.range(30, 300),
        };
        let count = match rng.below(5) {
            0 => 1,
            1 => 2,
            _ => rng.range(1, 6),
        };
        let (size, a, b) = if leveled {
            let size = match rng.below(12) {
                0 => 0,
                1 => rng.range(1, 100),
                2 | 3 => 1 << 20,
                _ => rng.range(60, 700),
            };
            let a = match rng.below(4) {
                0 => rng.range(3, 10),
                _ => rng.range(1, 3),
            };
            let b = match rng.below(4) {
                0 => 1,
                1 => 10,
                _ => rng.range(1, 3),
            };
            (size, a, b)
        } else {
            let size = match rng.below(6) {
                0 => 0,
                1 | 2 => rng.range(40, 600),
                3 => rng.range(300, 4000),
                4 => rng.range(0, 40),
                _ => 1 << 40,
            };
            let size = if mode == Mode::Disk && rng.chance(60) { 1 << 40 } else { size };
            let (lo, hi) = match rng.below(6) {
                0 => (100, 100),
                1 => (rng.range(0, 100), rng.range(100, 400)),
                2 => (0, rng.pick(&[150, 200, 400, 900])),
                3 => (rng.range(0, 60), rng.range(150, 900)),
                _ => (50, 150),
            };
            (size, lo, hi)
        };
        let free = rng.chance(8) as u64;
        let mut case = Case { cfg: vec![mem, count, size, a, b, free, if rng.chance(15) { rng.pick(&[1, 5, 20]) } else { 0 }], ops: Vec::new() };
        for k in 0..rng.below(6) {
            let k = if rng.chance(70) { k } else { rng.below(24) };
            for _ in 0..rng.range(1, 3) {
                let m = match rng.below(6) {
                    0 => 0,
                    1 => rng.below(20),
                    2 => rng.below(150),
                    3 => rng.range(300, 1500),
                    _ => rng.below(900),
                };
                case.ops.push([PAUSE, k, m, 0]);
            }
        }
        if mode == Mode::Fault {
            for _ in 0..rng.range(1, 6) {
                let kind = rng.below(5) + 5 * rng.below(2) + if rng.chance(15) { 10 } else { 0 };
                let n = match rng.below(4) {
                    0 => 1,
                    1 => rng.range(1, 12),
                    2 => rng.range(1, 60),
                    _ => rng.range(1, 300),
                };
                case.ops.push([FAULT, rng.below(6), kind, n]);
            }
        }
        if mode == Mode::Fault && rng.chance(50) {
            if rng.chance(60) {
                case.ops.retain(|o| o[0] != FAULT);
            }
            for _ in 0..rng.range(1, 4) {
                let n = match rng.below(3) {
                    0 => rng.range(1, 12),
                    1 => rng.range(1, 60),
                    _ => rng.range(1, 300),
                };
                case.ops.push([FSFAULT, rng.below(6), n, rng.below(8)]);
            }
        }
        if mode == Mode::Kill {
            for _ in 0..rng.range(1, 6) {
                let n = match rng.below(4) {
                    0 => rng.below(40),
                    1 => rng.below(2000),
                    _ => rng.below(400),
                };
                case.ops.push([KILL, n, 0, 0]);
            }
        }
        if mode != Mode::Error && rng.chance(20) {
            for _ in 0..rng.range(1, 8) {
                case.ops.push([SHORT, rng.len(600), 0, 0]);
            }
        }
        history(rng, g, mode, mem, &mut case.ops);
        case
    }
}

fn history(rng: &mut Rng, g: &Gen, mode: Mode, mem: u64, ops: &mut Vec<Op>) {
    let ks = rng.pick(&[3, 6, 12, 24, 40, 80, 300]);
    let most = match (g.thorough && g.index % 7 == 0, mem < 30) {
        (true, false) => 1500,
        (false, true) => 200,
        _ => 500,
    };
    let total = ops.len() as u64 + rng.len(most) + 4;
    let mut cursor = rng.below(ks);
    let mut id = 1;
    while (ops.len() as u64) < total {
        let n = rng.len((total / 2).max(8));
        let order = rng.below(4);
        let iters = rng.chance(40);
        let pad = rng.pick(&[0, 0, 3, 20, 120]);
        let mut mix: [u64; NOPS] = match rng.below(6) {
            0 => [80, 6, 6, 1, 0, 1, 1, 1, 0, 6, 0, 0, 0, 0, 0, 4, 0, 0, 0, 3, 0],
            1 => [10, 70, 6, 2, 1, 1, 1, 2, 0, 6, 0, 0, 0, 0, 0, 0, 4, 0, 0, 3, 0],
            2 => [40, 40, 6, 3, 1, 1, 1, 1, 0, 10, 0, 0, 0, 0, 0, 2, 2, 0, 0, 4, 0],
            3 => [15, 15, 20, 10, 5, 5, 5, 5, 1, 8, 0, 0, 0, 0, 0, 1, 1, 0, 0, 4, 0],
            4 => [60, 20, 2, 1, 0, 0, 0, 6, 0, 3, 0, 0, 0, 0, 0, 3, 3, 0, 0, 2, 0],
            _ => [30, 30, 4, 2, 1, 1, 2, 2, 3, 6, 0, 0, 0, 0, 0, 3, 3, 0, 0, 3, 0],
        };
        match mode {
            Mode::Dict => {}
            Mode::Kill => {
                mix[CLEAR as usize] += 1;
                mix[REOPEN as usize] += 1;
                mix[DIRTY as usize] += 1;
            }
            Mode::Reopen => {
                mix[REOPEN as usize] += rng.pick(&[3, 15]);
                if iters {
                    mix[IOPEN as usize] += 6;
                    mix[ISTEP as usize] += 4;
                    mix[ICLOSE as usize] += 1;
                }
            }
            Mode::Dirty => {
                mix[DIRTY as usize] += rng.pick(&[4, 20]);
                mix[REOPEN as usize] += 1;
                if iters {
                    mix[IOPEN as usize] += 6;
                    mix[ISTEP as usize] += 4;
                    mix[ICLOSE as usize] += 1;
                }
            }
            Mode::Iter => {
                mix[IOPEN as usize] += 8;
                mix[ISTEP as usize] += 16;
                mix[ICLOSE as usize] += 3;
                mix[ITER as usize] += 1;
            }
            Mode::Error => {
                mix[REOPEN as usize] += 1;
                mix[DIRTY as usize] += 1;
                mix[CHECK as usize] += 2;
                mix[CLEAR as usize] = 0;
                mix[FLUSH as usize] += 2;
                mix[LEN as usize] += 1;
                mix[ITER as usize] += 1;
            }
            Mode::Fault => {
                mix[REOPEN as usize] += 1;
                mix[DIRTY as usize] += 1;
                mix[CHECK as usize] += 4;
            }
            Mode::Disk => {
                mix[DIRS as usize] += 6;
                mix[REOPEN as usize] += 2;
                mix[CLEAR as usize] += 1;
                if iters {
                    mix[IOPEN as usize] += 6;
                    mix[ISTEP as usize] += 4;
                    mix[ICLOSE as usize] += 1;
                }
            }
        }
        for _ in 0..n {
            let k = rng.weighted(&mix) as u64;
            let key = match order {
                0 => {
                    cursor = (cursor + 1) % ks;
                    cursor
                }
                1 => {
                    if rng.chance(15) {
                        cursor = rng.below(ks);
                    }
                    (cursor + rng.below(4)) % ks
                }
                2 if !g.dict.is_empty() && rng.chance(4) => rng.pick(&g.dict) % ks,
                _ => rng.below(ks),
            };
            let at = if rng.chance(12) { 1 + rng.len(160) } else { 0 };
            id += 1;
            if mode == Mode::Error && rng.chance(15) {
                let n = match rng.below(3) {
                    0 => rng.range(1, 5),
                    1 => rng.range(1, 16),
                    _ => rng.range(1, 80),
                };
                ops.push([ERR, n, rng.below(8), 0]);
            }
            ops.push(match k {
                INSERT => [k, key, id << 16 | if rng.chance(50) { 0 } else { rng.below(pad + 1) }, at],
                BULKIN | BULKOUT => [k, key, rng.len(60) | rng.range(1, 3) << 16, at],
                RELEASE => [k, rng.below(3), 0, 0],
                REOPEN => [k, rng.pick(&[1, 1, 1, 2]), 0, 0],
                DIRTY => [k, rng.below(2), 0, 0],
                IOPEN | ICLOSE => [k, rng.below(4), 0, at],
                ISTEP => [k, rng.below(4), rng.len(40), at],
                _ => [k, key, rng.below(64), at],
            });
            // what the directory says right after it was emptied, or after a flush
            if matches!(k, CLEAR | FLUSH) && rng.chance(25) {
                match mode {
                    Mode::Reopen | Mode::Disk => ops.push([REOPEN, rng.range(1, 2), 0, 0]),
                    Mode::Dirty | Mode::Fault | Mode::Kill => ops.push([DIRTY, 0, 0, 0]),
                    _ => {}
                }
            }
        }
    }
}

// ------------------------------------------------------------------ running
struct Guard(PathBuf);
impl Drop for Guard {
    fn drop(&mut self) {
        // background threads must have ended before anything else uses the directory
        sched::end();
        fsrt::end();
        fsrt::jitter(0, 0);
        let _ = fs::remove_dir_all(&self.0);
    }
}
#[derive(Clone)]
enum Log<K> {
    Put(K, Val),
    Del(K),
    Clear,
}
struct Snap<K> {
    it: Box<CompactionIter<K, Val>>,
    want: Vec<(K, Val)>,
    at: usize,
    writes: usize,
}
struct Sut<K: Key, S: Strat<K>> {
    map: Option<LsmMap<K, Val, S>>,
    model: BTreeMap<K, Val>,
    base: BTreeMap<K, Val>,
    log: Vec<Log<K>>,
    used: BTreeSet<u64>,
    iters: Vec<Option<Snap<K>>>,
    path: PathBuf,
    p: Params,
    free: bool,
    writes: usize,
    overlap: u64,
    nth: u64,
    /// What may be in each copy of the directory: the state at the last flush before it, the operations since.
    copies: Vec<(BTreeMap<K, Val>, Vec<Log<K>>)>,
    /// Whether the harness can read the parameters in the directory.
    known: bool,
    faulty: bool,
    /// The sizes of the entries in memory, where tables are counted.
    in_memory: Option<BTreeMap<K, u64>>,
    /// Whether tables are counted.
    count: bool,
    /// Size of the writes that the last reopening did not find.
    lost: u64,
    _m: PhantomData<S>,
}
fn size_of<T: serde::Serialize>(x: &T) -> u64 {
    bincode::serialized_size(x).unwrap()
}
macro_rules! io {
    ($e:expr, $($m:tt)*) => {
        match $e {
            Ok(x) => x,
            Err(e) => return fail(Kind::F, format!("{} failed: {:?}", format!($($m)*), e)),
        }
    };
}

impl<K: Key, S: Strat<K>> Sut<K, S> {
    fn m(&mut self) -> &mut LsmMap<K, Val, S> {
        self.map.as_mut().unwrap()
    }
    fn settle(&self) {
        if !self.free {
            sched::settle();
        }
    }
    /// Before an operation that waits for the compaction thread.
    fn joining(&self) {
        sched::free(true);
    }
    /// To be called before the flushed state is replaced.
    fn copied(&mut self) {
        while self.copies.len() < fsrt::taken() {
            self.copies.push((self.base.clone(), self.log.clone()));
        }
    }
    fn joined(&mut self) {
        sched::free(false);
        self.copied();
        self.base = self.model.clone();
        self.log.clear();
        if self.count {
            self.in_memory = Some(BTreeMap::new());
        }
    }
    /// The number of tables and compactions before a write, if no compaction is under way.
    fn before(&self) -> Option<(usize, usize)> {
        let c = sched::counts();
        if self.in_memory.is_none() || c.0 != c.2 {
            return None;
        }
        let n = self.dirs().len();
        if sched::counts() == c { Some((n, c.0)) } else { None }
    }
    fn wrote(&mut self, k: K, size: u64, before: Option<(usize, usize)>) -> Res {
        let limit = self.p.mem;
        let sum = match self.in_memory {
            None => return Ok(()),
            Some(ref mut m) => {
                m.insert(k, size);
                let sum: u64 = m.values().sum();
                if sum > limit {
                    m.clear();
                }
                sum
            }
        };
        if let (true, Some((n, threads))) = (sum <= limit, before) {
            let now = self.dirs().len();
            // a compaction is counted before it creates anything
            ck!(
                now <= n || sched::counts().0 > threads,
                "a write created a table although {} bytes are in memory and the limit is {}", sum, limit
            );
        }
        Ok(())
    }
    fn put(&mut self, x: u64, v: Val) -> Res {
        let k = K::make(x);
        self.used.insert(x);
        self.writes += 1;
        self.log.push(Log::Put(k.clone(), v.clone()));
        self.model.insert(k.clone(), v.clone());
        let before = self.before();
        let size = 9 + size_of(&v) + size_of(&k);
        io!(self.m().insert(k.clone(), v), "insert({:?})", k);
        self.wrote(k, size, before)
    }
    fn del(&mut self, x: u64) -> Res {
        let k = K::make(x);
        self.used.insert(x);
        self.writes += 1;
        self.log.push(Log::Del(k.clone()));
        self.model.remove(&k);
        let before = self.before();
        let size = 9 + size_of(&k);
        io!(self.m().remove(k.clone()), "remove({:?})", k);
        self.wrote(k, size, before)
    }
    fn look(&mut self, x: u64) -> Res {
        let k = K::make(x);
        let want = self.model.get(&k).cloned();
        let got = io!(K::get(self.m(), &k), "get({:?})", k);
        ck_eq!(got, want, "get({:?})", k);
        Ok(())
    }
    fn ends(&mut self) -> Res {
        let lo = self.model.keys().next().cloned();
        let hi = self.model.keys().next_back().cloned();
        let n = self.model.len();
        ck_eq!(io!(self.m().min(), "min"), lo, "min of {} entries", n);
        ck_eq!(io!(self.m().max(), "max"), hi, "max of {} entries", n);
        Ok(())
    }
    fn hint(&mut self) -> Res {
        let n = self.model.len();
        let got = io!(self.m().len_hint(), "len_hint");
        ck!(got >= n, "len_hint is {} with {} entries", got, n);
        Ok(())
    }
    fn all(&mut self, turn: u64) -> Res {
        let used: Vec<u64> = self.used.iter().copied().collect();
        if !used.is_empty() {
            let n = used.len().min(48);
            for i in 0..n {
                self.look(used[(i + turn as usize) % used.len()])?;
            }
        }
        self.ends()?;
        self.hint()
    }
    fn full(&mut self) -> Res {
        self.joining();
        let want: Vec<(K, Val)> = self.model.iter().map(|(k, v)| (k.clone(), v.clone())).collect();
        let it = io!(self.m().iter(), "iter");
        let mut n = 0;
        for e in it {
            let e = io!(e, "iterator step {}", n);
            ck!(n < want.len(), "iter yields {:?} after all {} entries", e, want.len());
            ck_eq!(e, want[n], "entry {} of iter over {} entries", n, want.len());
            n += 1;
        }
        ck_eq!(n, want.len(), "number of entries yielded by iter");
        self.joined();
        Ok(())
    }
    fn len(&mut self, empty: bool) -> Res {
        self.joining();
        let n = self.model.len();
        if empty {
            ck_eq!(io!(self.m().is_empty(), "is_empty"), n == 0, "is_empty with {} entries", n);
        } else {
            ck_eq!(io!(self.m().len(), "len"), n, "len");
        }
        self.joined();
        Ok(())
    }
    fn flush(&mut self) -> Res {
        self.joining();
        io!(self.m().flush(), "flush");
        self.joined();
        Ok(())
    }
    fn reopen(&mut self, times: u64) -> Res {
        self.flush()?;
        self.iters.iter_mut().for_each(|i| *i = None);
        for _ in 0..times.clamp(1, 3) {
            self.map = None;
            let mut s = io!(S::reopen(&self.path), "open of a flushed map");
            self.strategy(&mut s)?;
            self.map = Some(LsmMap::new(s));
        }
        Ok(())
    }
    /// A strategy that was opened and not used yet, when everything was flushed.
    fn strategy(&mut self, s: &mut S) -> Res {
        ck_eq!(s.get_max_in_memory_size(), self.p.mem, "the memory limit of the opened strategy");
        if self.known {
            ck!(S::known(&self.path, &self.p), "the directory no longer states the parameters {:?}", self.p);
        }
        let n = self.model.len();
        ck_eq!(io!(s.len(), "len"), n, "len of the opened strategy");
        ck_eq!(io!(s.is_empty(), "is_empty"), n == 0, "is_empty of the opened strategy");
        ck!(io!(s.len_hint(), "len_hint") >= n, "len_hint of the opened strategy is below {}", n);
        ck_eq!(io!(s.min(), "min"), self.model.keys().next().cloned(), "min of the opened strategy");
        ck_eq!(io!(s.max(), "max"), self.model.keys().next_back().cloned(), "max of the opened strategy");
        Ok(())
    }
    fn dirty(&mut self) -> Res {
        self.iters.iter_mut().for_each(|i| *i = None);
        sched::free(true);
        self.map = None;
        sched::free(false);
        self.map = Some(LsmMap::new(io!(S::reopen(&self.path), "open of a map dropped without flush")));
        self.copied();
        self.prefix("drop without flush")?;
        // everything else had to be written to a table before
        ck!(
            self.faulty || self.lost <= self.p.mem,
            "a map dropped without flush loses entries of {} bytes, its memory limit is {}", self.lost, self.p.mem
        );
        Ok(())
    }
    fn prefix(&mut self, what: &str) -> Res {
        let mut got = Vec::new();
        let it = io!(self.m().iter(), "iter after {} and open", what);
        for e in it {
            got.push(io!(e, "iterator step after {} and open", what));
        }
        self.copied();
        let mut state = self.base.clone();
        let all = std::mem::take(&mut self.log);
        let mut log = all.iter().cloned();
        let same = |s: &BTreeMap<K, Val>, got: &[(K, Val)]| {
            s.len() == got.len() && s.iter().zip(got).all(|(a, b)| a.0 == &b.0 && a.1 == &b.1)
        };
        let mut found = same(&state, &got);
        while !found {
            match log.next() {
                None => break,
                Some(Log::Put(k, v)) => {
                    state.insert(k, v);
                }
                Some(Log::Del(k)) => {
                    state.remove(&k);
                }
                Some(Log::Clear) => state.clear(),
            }
            found = same(&state, &got);
        }
        ck!(
            found,
            "after {} and open the map holds {:?}, which is the state after no prefix of the operations since the flush that left {:?}; all of them would leave {:?}",
            what, got, self.base, self.model
        );
        self.lost = 0;
        // the latest state that explains the contents
        let mut later = state.clone();
        let mut missing: BTreeMap<K, u64> = BTreeMap::new();
        for l in log {
            let (k, size) = match l {
                Log::Put(k, v) => {
                    let size = 9 + size_of(&v);
                    later.insert(k.clone(), v);
                    (k, size)
                }
                Log::Del(k) => {
                    later.remove(&k);
                    (k, 9)
                }
                Log::Clear => {
                    later.clear();
                    missing.clear();
                    continue;
                }
            };
            let size = size + size_of(&k);
            missing.insert(k, size);
            if same(&later, &got) {
                missing.clear();
            }
        }
        self.lost = missing.values().sum();
        self.model = state.clone();
        self.base = state;
        Ok(())
    }
    fn dirs(&self) -> Vec<PathBuf> {
        let mut v: Vec<PathBuf> = fs::read_dir(&self.path)
            .map(|d| d.flatten().map(|e| e.path()).filter(|p| p.is_dir()).collect())
            .unwrap_or_default();
        v.sort();
        v
    }
    /// A directory is in use if and only if the map cannot be opened without it.
    fn in_use(&self, d: &PathBuf) -> bool {
        let away = self.path.with_extension("away");
        fs::rename(d, &away).unwrap();
        let r = S::reopen(&self.path).is_err();
        fs::rename(&away, d).unwrap();
        r
    }
    fn live(&mut self) -> Res {
        let dirs = self.dirs();
        let meta = fs::read(self.path.join("metadata.dat")).unwrap_or_default();
        let named = |d: &PathBuf| {
            let name = d.file_name().unwrap().to_string_lossy().into_owned().into_bytes();
            meta.windows(name.len()).any(|w| w == name)
        };
        self.nth += 1;
        for (i, d) in dirs.iter().enumerate() {
            let suspect = !named(d);
            if suspect || dirs.len() <= 6 || (i as u64 + self.nth) % 5 == 0 {
                ck!(self.in_use(d), "a table directory that the map does not use is still there, {} tables in all", dirs.len());
            }
        }
        Ok(())
    }
    fn close_all(&mut self) {
        self.iters.iter_mut().for_each(|i| *i = None);
    }
    /// A compaction that is due happens, and leaves as few tables as the parameters promise.
    fn bounded(&mut self, id: u64, only_removals: bool) -> Res {
        self.close_all();
        self.flush()?;
        for i in 0..=self.p.count as u64 {
            if only_removals {
                self.del(i)?;
            } else {
                self.put(1, Val::make(id, 0))?;
            }
            self.flush()?;
        }
        // a compaction that failed may have left something behind
        let dirs = self.dirs();
        let dirs = if dirs.len() > self.p.count { dirs.iter().filter(|d| self.in_use(d)).count() } else { dirs.len() };
        if self.known {
            ck!(S::known(&self.path, &self.p), "the directory no longer states the parameters {:?}", self.p);
        }
        if let Some(m) = S::excess(&self.path, &self.p, dirs) {
            return fail(Kind::F, format!("compaction is behind: {}", m));
        }
        Ok(())
    }
    fn iopen(&mut self, i: usize) -> Res {
        self.iters[i] = None;
        self.joining();
        let want: Vec<(K, Val)> = self.model.iter().map(|(k, v)| (k.clone(), v.clone())).collect();
        let it = io!(self.m().iter(), "iter");
        self.joined();
        let writes = self.writes;
        self.iters[i] = Some(Snap { it, want, at: 0, writes });
        Ok(())
    }
    fn istep(&mut self, i: usize, n: u64, ctx: &mut Ctx) -> Res {
        let writes = self.writes;
        let s = match self.iters[i].as_mut() {
            Some(s) => s,
            None => return Ok(()),
        };
        if s.writes < writes && s.at < s.want.len() {
            ctx.label("iterator steps after later writes");
        }
        for _ in 0..n {
            match s.it.next() {
                None => {
                    ck_eq!(s.at, s.want.len(), "number of entries yielded by an iterator of a snapshot");
                    self.iters[i] = None;
                    break;
                }
                Some(e) => {
                    let e = io!(e, "iterator step {}", s.at);
                    ck!(s.at < s.want.len(), "an iterator yields {:?} after all {} entries", e, s.want.len());
                    ck_eq!(e, s.want[s.at], "entry {} of an iterator of a snapshot of {} entries", s.at, s.want.len());
                    s.at += 1;
                }
            }
        }
        Ok(())
    }
}

fn entries<K: Key>(it: Box<CompactionIter<K, Val>>, want: &[(K, Val)]) -> Res<bool> {
    let mut n = 0;
    for e in it {
        let e = match e {
            Ok(e) => e,
            Err(_) => return Ok(false),
        };
        ck!(n < want.len(), "iter yields {:?} after all {} entries", e, want.len());
        ck_eq!(e, want[n], "entry {} of iter over {} entries", n, want.len());
        n += 1;
    }
    ck_eq!(n, want.len(), "number of entries yielded by iter");
    Ok(true)
}
impl<K: Key, S: Strat<K>> Sut<K, S> {
    /// One operation during which a call fails: it fails and changes nothing else, or does what it is there for.
    fn failing(&mut self, o: &Op, plan: (u64, i32, bool), ctx: &mut Ctx) -> Res {
        let x = o[1] % 4096;
        let k = K::make(x);
        let n = self.model.len();
        let v = Val::make(o[2] >> 16, o[2] % 65536 % 2000);
        let before = fsrt::counts().0;
        let waits = matches!(o[0], LEN | ITER | FLUSH);
        if waits {
            self.joining();
        }
        let m = self.map.as_mut().unwrap();
        let model = &self.model;
        fsrt::fail_next(Some(plan));
        let r: Res<bool> = (|| {
            match o[0] {
                INSERT => Ok(m.insert(k.clone(), v.clone()).is_ok()),
                REMOVE => Ok(m.remove(k.clone()).is_ok()),
                GET => match K::get(m, &k) {
                    Ok(got) => {
                        ck_eq!(got, model.get(&k).cloned(), "get({:?}) while a call fails", k);
                        Ok(true)
                    }
                    Err(_) => Ok(false),
                },
                ENDS => {
                    let (lo, hi) = (m.min(), m.max());
                    if let Ok(ref lo) = lo {
                        ck_eq!(lo.as_ref(), model.keys().next(), "min while a call fails");
                    }
                    if let Ok(ref hi) = hi {
                        ck_eq!(hi.as_ref(), model.keys().next_back(), "max while a call fails");
                    }
                    Ok(lo.is_ok() && hi.is_ok())
                }
                LEN if x % 2 == 1 => match m.is_empty() {
                    Ok(got) => {
                        ck_eq!(got, n == 0, "is_empty with {} entries while a call fails", n);
                        Ok(true)
                    }
                    Err(_) => Ok(false),
                },
                LEN => match m.len() {
                    Ok(got) => {
                        ck_eq!(got, n, "len while a call fails");
                        Ok(true)
                    }
                    Err(_) => Ok(false),
                },
                HINT => match m.len_hint() {
                    Ok(got) => {
                        ck!(got >= n, "len_hint is {} with {} entries while a call fails", got, n);
                        Ok(true)
                    }
                    Err(_) => Ok(false),
                },
                ITER => match m.iter() {
                    Ok(it) => {
                        let want: Vec<(K, Val)> = model.iter().map(|(k, v)| (k.clone(), v.clone())).collect();
                        entries(it, &want)
                    }
                    Err(_) => Ok(false),
                },
                _ => Ok(m.flush().is_ok()),
            }
        })();
        fsrt::fail_next(None);
        if waits {
            sched::free(false);
        }
        let fired = fsrt::counts().0 > before;
        let done = r?;
        ck!(done || fired, "operation {} fails although no call did", o[0]);
        if fired && !done {
            ctx.label("operations that failed");
        }
        if fired && done {
            ctx.label("operations that succeeded although a call failed");
        }
        if matches!(o[0], INSERT | REMOVE) {
            let new = if o[0] == INSERT { Some(v.clone()) } else { None };
            self.used.insert(x);
            self.writes += 1;
            let got = io!(K::get(self.m(), &k), "get({:?}) after a failed write", k);
            let took = got == new;
            ck!(
                took || !done && got == self.model.get(&k).cloned(),
                "after a write that {} get({:?}) is {:?}, before it was {:?}, and {:?} was written",
                if done { "succeeded" } else { "failed" }, k, got, self.model.get(&k), new
            );
            if took {
                match new {
                    Some(v) => {
                        self.log.push(Log::Put(k.clone(), v.clone()));
                        self.model.insert(k, v);
                    }
                    None => {
                        self.log.push(Log::Del(k.clone()));
                        self.model.remove(&k);
                    }
                }
            }
        } else if waits && done {
            self.joined();
        }
        Ok(())
    }
}

fn run<K: Key, S: Strat<K>>(case: &Case, ctx: &mut Ctx, mode: Mode) -> Res {
    let scratch = PathBuf::from(std::env::var("VERIF_SCRATCH").unwrap_or_else(|_| "/tmp".into()));
    let guard = Guard(scratch.join("lsm"));
    let _ = fs::remove_dir_all(&guard.0);
    fs::create_dir_all(&guard.0).unwrap();
    let leveled = S::NAME == "leveled";
    let p = Params {
        mem: case.c(0) % 8192,
        count: (case.c(1) % 16).max(1) as usize,
        size: if leveled { case.c(2) % (1 << 21) } else { case.c(2) % (1 << 41) },
        a: if leveled { (case.c(3) % 16).max(1) } else { case.c(3) % 101 },
        b: if leveled { (case.c(4) % 16).max(1) } else { case.c(4) % 1000 },
    };
    let mut pauses: Vec<Vec<u64>> = vec![Vec::new(); 24];
    let mut faults = Vec::new();
    let (mut kills, mut shorts, mut fsfaults) = (Vec::new(), Vec::new(), Vec::new());
    for o in &case.ops {
        match o[0] {
            PAUSE => pauses[(o[1] % 24) as usize].push(o[2] % 4096),
            KILL if mode == Mode::Kill => kills.push(o[1] % 100_000 + 1),
            SHORT if !matches!(mode, Mode::Kill | Mode::Error) => shorts.push(o[1] % 100_000 + 1),
            FSFAULT if mode == Mode::Fault => fsfaults.push(fsrt::FsFault {
                worker: (o[1] % 16) as usize,
                n: (o[2] % 4096).max(1),
                errno: [libc::EIO, libc::ENOSPC, libc::EMFILE, libc::EACCES][(o[3] % 4) as usize],
                lasting: o[3] / 4 % 2 == 1,
            }),
            FAULT if mode == Mode::Fault => {
                let f = o[2] % 20;
                let fault = Fault {
                    worker: (o[1] % 16) as usize,
                    kind: (f % 5) as usize,
                    n: (o[3] % 4096).max(1),
                    panic: f / 5 % 2 == 1,
                };
                if f / 10 == 1 {
                    for worker in 0..12 {
                        faults.push(Fault { worker, ..fault });
                    }
                } else {
                    faults.push(fault);
                }
            }
            _ => {}
        }
    }
    pauses.iter_mut().for_each(|v| v.sort_unstable());
    let faulty = !faults.is_empty() || !fsfaults.is_empty();
    arm(faults);
    sched::begin(pauses);
    let odd = if matches!(mode, Mode::Kill | Mode::Error) { 0 } else { case.c(6) % 41 };
    fsrt::jitter(case.c(0) ^ case.c(2) << 20, odd);
    let path = guard.0.join("map");
    let s = io!(S::create(&path, &p), "new");
    fsrt::begin(&path, &guard.0.join("copy"), kills, shorts, fsfaults);
    let mut t: Sut<K, S> = Sut {
        map: Some(LsmMap::new(s)),
        model: BTreeMap::new(),
        base: BTreeMap::new(),
        log: Vec::new(),
        used: BTreeSet::new(),
        iters: (0..4).map(|_| None).collect(),
        path,
        p,
        free: case.c(5) % 2 == 1,
        writes: 0,
        overlap: 0,
        nth: 0,
        copies: Vec::new(),
        known: S::known(&guard.0.join("map"), &p),
        faulty: faulty || mode == Mode::Error,
        in_memory: if mode == Mode::Disk { Some(BTreeMap::new()) } else { None },
        count: mode == Mode::Disk,
        lost: 0,
        _m: PhantomData,
    };
    let mut dirties = 0;
    let mut reopens = 0;
    let mut late = false;
    let iters = matches!(mode, Mode::Iter | Mode::Reopen | Mode::Dirty | Mode::Disk);
    let mut err: Option<(u64, i32, bool)> = None;
    for (i, o) in case.ops.iter().enumerate() {
        if o[0] == ERR && mode == Mode::Error {
            let errno = [libc::EIO, libc::ENOSPC, libc::EMFILE, libc::EACCES][(o[2] % 4) as usize];
            err = Some(((o[1] % 4096).max(1), errno, o[2] / 4 % 2 == 1));
            continue;
        }
        sched::main_point(if o[3] == 0 { u64::MAX } else { (o[3] - 1) % 4096 });
        let running = {
            let c = sched::counts();
            c.0 > c.2
        };
        let plan = if matches!(o[0], INSERT | REMOVE | GET | ENDS | LEN | HINT | ITER | FLUSH) { err.take() } else { None };
        match o[0] {
            _ if plan.is_some() => t.failing(o, plan.unwrap(), ctx)?,
            INSERT => t.put(o[1] % 4096, Val::make(o[2] >> 16, o[2] % 65536 % 2000))?,
            REMOVE => t.del(o[1] % 4096)?,
            GET => {
                t.look(o[1] % 4096)?;
                let k = K::make(o[1] % 4096);
                let want = t.model.contains_key(&k);
                ck_eq!(io!(K::has(t.m(), &k), "contains_key"), want, "contains_key({:?})", k);
            }
            ENDS => t.ends()?,
            LEN => t.len(o[1] % 2 == 1)?,
            HINT => t.hint()?,
            ITER => t.full()?,
            FLUSH => t.flush()?,
            CLEAR => {
                t.close_all();
                t.joining();
                io!(t.m().clear(), "clear");
                sched::free(false);
                t.writes += 1;
                t.in_memory.iter_mut().for_each(|m| m.clear());
                t.log.push(Log::Clear);
                t.model.clear();
                let left = t.dirs().len();
                ck!(left == 0, "{} table directories are left after clear", left);
                ctx.label("clear");
            }
            RELEASE => {
                for _ in 0..=o[1] % 3 {
                    sched::release();
                    t.settle();
                }
            }
            REOPEN if mode != Mode::Dict => {
                if t.iters.iter().any(|i| i.is_some()) {
                    ctx.label("flush before reopening with an iterator alive");
                }
                t.reopen(o[1])?;
                t.all(i as u64)?;
                t.full()?;
                reopens += 1;
                ctx.label("reopen after flush");
            }
            DIRTY if matches!(mode, Mode::Dirty | Mode::Fault | Mode::Kill | Mode::Error) => {
                if running {
                    ctx.label("map dropped while a compaction was under way");
                    late = true;
                }
                if !t.log.is_empty() {
                    ctx.label("map dropped with writes since the last flush");
                }
                t.dirty()?;
                t.all(i as u64)?;
                dirties += 1;
            }
            IOPEN if iters => t.iopen((o[1] % 4) as usize)?,
            ISTEP if iters => t.istep((o[1] % 4) as usize, o[2] % 1000, ctx)?,
            ICLOSE => t.iters[(o[1] % 4) as usize] = None,
            BULKIN | BULKOUT => {
                let (n, step) = (o[2] % 65536 % 320, (o[2] >> 16) % 64);
                for j in 0..n {
                    let x = (o[1] % 4096 + j * step) % 4096;
                    if o[0] == BULKIN {
                        t.put(x, Val::make(i as u64 * 1000 + j, o[2] % 7))?;
                    } else {
                        t.del(x)?;
                    }
                    if j % 4 == 3 {
                        t.settle();
                    }
                }
            }
            CHECK => t.all(o[1] % 4096)?,
            DIRS if mode == Mode::Disk => {
                t.close_all();
                t.flush()?;
                t.live()?;
                if o[2] % 2 == 1 {
                    t.bounded(i as u64, o[2] % 4 == 1)?;
                    t.live()?;
                }
            }
            _ => continue,
        }
        t.copied();
        if running {
            t.overlap += 1;
        }
        t.settle();
    }
    sched::main_point(u64::MAX);
    for i in 0..4 {
        t.istep(i, u64::MAX, ctx)?;
    }
    t.all(0)?;
    t.full()?;
    t.len(false)?;
    sched::finish();
    sched::free(false);
    let (failed, cut) = fsrt::counts();
    let fired = FIRED.load(SeqCst) + failed;
    arm(Vec::new());
    fsrt::end();
    ctx.label_n("writes cut short", cut);
    ctx.label_n("reads and writes cut short or interrupted", fsrt::odd());
    fsrt::jitter(0, 0);
    t.copied();
    let copies = std::mem::take(&mut t.copies);
    let kills = copies.len();
    for (i, (base, log)) in copies.into_iter().enumerate() {
        t.close_all();
        sched::free(true);
        t.map = None;
        sched::free(false);
        io!(fs::remove_dir_all(&t.path), "removal of the directory");
        io!(fs::rename(fsrt::copy(i), &t.path), "renaming of a copy");
        t.map = Some(LsmMap::new(io!(S::reopen(&t.path), "open of a directory whose process was killed")));
        t.model = base.clone();
        for l in &log {
            match l {
                Log::Put(k, v) => drop(t.model.insert(k.clone(), v.clone())),
                Log::Del(k) => drop(t.model.remove(k)),
                Log::Clear => t.model.clear(),
            }
        }
        if !log.is_empty() {
            ctx.label("killed with writes since the last flush");
        }
        t.base = base;
        t.log = log;
        t.prefix("a kill")?;
        // what is written from now on wins
        for j in 0..4 {
            t.put(j * 3 % 7, Val::make((1 << 39) + j, 0))?;
            t.del(j * 3 % 5 + 1)?;
        }
        t.all(i as u64)?;
        t.reopen(1)?;
        t.all(i as u64 + 1)?;
        t.full()?;
    }
    ctx.label_n("kills", kills as u64);
    if matches!(mode, Mode::Iter | Mode::Fault | Mode::Disk | Mode::Error) {
        t.bounded(1 << 40, case.ops.len() % 2 == 0)?;
        if mode == Mode::Disk {
            t.live()?;
        }
        t.all(0)?;
        t.full()?;
    }
    if matches!(mode, Mode::Reopen | Mode::Dirty | Mode::Fault | Mode::Error) {
        t.reopen(1)?;
        t.all(0)?;
        t.full()?;
    }
    ck!(sched::finish(), "a compaction thread does not end");
    let (threads, _, _) = sched::counts();
    ctx.label_n("compactions", threads as u64);
    ctx.label_n("operations while a compaction was under way", t.overlap);
    ctx.label_n("pauses that ended by themselves", sched::timeouts());
    ctx.label_n("failures injected", fired);
    let ok = match mode {
        Mode::Dict => threads > 0 && t.overlap > 0,
        Mode::Reopen => reopens > 0 && threads > 0,
        Mode::Dirty => dirties > 0 && (late || threads > 0),
        Mode::Iter => threads > 0,
        Mode::Fault => fired > 0 && faulty,
        Mode::Disk => threads > 0,
        Mode::Error => failed > 0,
        Mode::Kill => kills > 0 && threads > 0,
    };
    if ok {
        ctx.mark();
    }
    Ok(())
}

fn t<K: Key, S: Strat<K> + 'static>(name: &'static str, mode: Mode, quick: u64, thorough: u64) -> Target {
    let leveled = S::NAME == "leveled";
    Target::new(name, quick, thorough, gen(mode, leveled), move |c, ctx| run::<K, S>(c, ctx, mode))
        .steps(2_000_000_000)
        .unbalanced()
}

type SN = SizeTieredStrategy<Num, Val>;
type ST = SizeTieredStrategy<Text, Val>;
type LN = LeveledStrategy<Num, Val>;
type LT = LeveledStrategy<Text, Val>;

fn both(mode: Mode, quick: u64, thorough: u64) -> Vec<Target> {
    vec![
        t::<Num, SN>("size-tiered-numbers", mode, quick, thorough),
        t::<Num, LN>("leveled-numbers", mode, quick, thorough),
        t::<Text, ST>("size-tiered-strings", mode, quick / 2, thorough / 2),
        t::<Text, LT>("leveled-strings", mode, quick / 2, thorough / 2),
    ]
}

fn props() {
    use Mode::*;
    let v = vec![
        Prop {
            id: "C23",
            rule: "non-trivial: at least one compaction thread ran and an operation was performed while it was under way",
            accept: &[Kind::F],
            targets: vec![
                t::<Num, SN>("numbers", Dict, 4000, 200000),
                t::<Text, ST>("strings", Dict, 2500, 100000),
            ],
        },
        Prop {
            id: "C24",
            rule: "non-trivial: at least one compaction thread ran and an operation was performed while it was under way",
            accept: &[Kind::F],
            targets: vec![
                t::<Num, LN>("numbers", Dict, 4000, 200000),
                t::<Text, LT>("strings", Dict, 2500, 100000),
            ],
        },
        Prop {
            id: "C25",
            rule: "non-trivial: a compaction ran and the map was reopened after a flush",
            accept: &[Kind::F],
            targets: both(Reopen, 2400, 80000),
        },
        Prop {
            id: "C26",
            rule: "non-trivial: a compaction ran and the map was dropped without flush and reopened",
            accept: &[Kind::F],
            targets: both(Dirty, 2400, 80000),
        },
        Prop {
            id: "C27",
            rule: "non-trivial: at least one compaction ran",
            accept: &[Kind::F],
            targets: both(Iter, 2400, 80000),
        },
        Prop {
            id: "C28",
            rule: "non-trivial: at least one failure was injected into a compaction thread",
            accept: &[Kind::F],
            targets: both(Fault, 2400, 80000),
        },
        Prop {
            id: "C29",
            rule: "non-trivial: at least one compaction ran",
            accept: &[Kind::F],
            targets: both(Disk, 2400, 80000),
        },
        Prop {
            id: "C30",
            rule: "non-trivial: a compaction ran and the process was killed at least once",
            accept: &[Kind::F],
            targets: both(Kill, 2400, 80000),
        },
        Prop {
            id: "C32",
            rule: "non-trivial: at least one file-system call made by an operation failed",
            accept: &[Kind::F],
            targets: both(Error, 2400, 80000),
        },
    ];
    engine::main(v);
}

fn main() {
    let w = std::thread::Builder::new().stack_size(2 << 20).spawn(props).unwrap();
    let _ = w.join();
    std::process::exit(2);
}
