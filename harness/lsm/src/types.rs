//! Key and value types that can fail on request inside a background thread, and the two strategies.
use covrt::sched;
use extended_collections::lsm_tree::compaction::{CompactionStrategy, LeveledStrategy, SizeTieredStrategy};
use extended_collections::lsm_tree::{LsmMap, Result};
use serde::de::{Deserialize, DeserializeOwned, Deserializer, Error as _};
use serde::ser::{Error as _, Serialize, Serializer};
use std::borrow::Borrow;
use std::cell::Cell;
use std::cmp::Ordering;
use std::fmt::Debug;
use std::hash::{Hash, Hasher};
use std::path::Path;
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering::SeqCst};
use std::sync::Mutex;

// ------------------------------------------------------------- injected failures
pub const DECODE: usize = 0;
pub const ENCODE: usize = 1;
pub const CMP: usize = 2;
pub const HASH: usize = 3;
pub const CLONE: usize = 4;
/// The n-th event of one kind in background thread `worker` fails.
#[derive(Clone, Copy, Debug)]
pub struct Fault {
    pub worker: usize,
    pub kind: usize,
    pub n: u64,
    pub panic: bool,
}
static ARMED: AtomicBool = AtomicBool::new(false);
static PLAN: Mutex<Vec<Fault>> = Mutex::new(Vec::new());
pub static FIRED: AtomicU64 = AtomicU64::new(0);
thread_local! {
    static SEEN: Cell<[u64; 5]> = const { Cell::new([0; 5]) };
}
pub fn arm(plan: Vec<Fault>) {
    ARMED.store(!plan.is_empty(), SeqCst);
    *PLAN.lock().unwrap() = plan;
    FIRED.store(0, SeqCst);
}
fn event(kind: usize) -> std::result::Result<(), ()> {
    if !ARMED.load(SeqCst) {
        return Ok(());
    }
    let w = match sched::worker() {
        Some(w) => w,
        None => return Ok(()),
    };
    let n = SEEN.with(|s| {
        let mut v = s.get();
        v[kind] += 1;
        s.set(v);
        v[kind]
    });
    let hit = {
        let p = PLAN.lock().unwrap_or_else(|e| e.into_inner());
        p.iter().find(|f| f.worker == w && f.kind == kind && f.n == n).copied()
    };
    match hit {
        None => Ok(()),
        Some(f) => {
            FIRED.fetch_add(1, SeqCst);
            if f.panic || kind >= CMP {
                panic!("injected failure");
            }
            Err(())
        }
    }
}
fn must(kind: usize) {
    let _ = event(kind);
}

// ------------------------------------------------------------- keys
pub trait Key: 'static + Clone + Ord + Hash + Debug + Send + Sync + Serialize + DeserializeOwned {
    fn make(x: u64) -> Self;
    fn get<C: CompactionStrategy<Self, Val>>(m: &mut LsmMap<Self, Val, C>, k: &Self) -> Result<Option<Val>>;
    fn has<C: CompactionStrategy<Self, Val>>(m: &mut LsmMap<Self, Val, C>, k: &Self) -> Result<bool>;
}
/// Ordered as numbers: u32.
#[derive(Debug, PartialEq, Eq)]
pub struct Num(pub u32);
/// A string key that is looked up through str.
#[derive(Debug, PartialEq, Eq)]
pub struct Text(pub String);

macro_rules! hooked {
    ($t:ident, $inner:ty) => {
        impl Clone for $t {
            fn clone(&self) -> Self {
                must(CLONE);
                $t(self.0.clone())
            }
        }
        impl Ord for $t {
            fn cmp(&self, o: &Self) -> Ordering {
                must(CMP);
                self.0.cmp(&o.0)
            }
        }
        impl PartialOrd for $t {
            fn partial_cmp(&self, o: &Self) -> Option<Ordering> {
                Some(self.cmp(o))
            }
        }
        impl Hash for $t {
            fn hash<H: Hasher>(&self, h: &mut H) {
                must(HASH);
                self.0.hash(h)
            }
        }
        impl Serialize for $t {
            fn serialize<S: Serializer>(&self, s: S) -> std::result::Result<S::Ok, S::Error> {
                event(ENCODE).map_err(|_| S::Error::custom("injected failure"))?;
                self.0.serialize(s)
            }
        }
        impl<'de> Deserialize<'de> for $t {
            fn deserialize<D: Deserializer<'de>>(d: D) -> std::result::Result<Self, D::Error> {
                event(DECODE).map_err(|_| D::Error::custom("injected failure"))?;
                <$inner>::deserialize(d).map($t)
            }
        }
    };
}
hooked!(Num, u32);
hooked!(Text, String);
impl Key for Num {
    fn make(x: u64) -> Num {
        Num(x as u32)
    }
    fn get<C: CompactionStrategy<Self, Val>>(m: &mut LsmMap<Self, Val, C>, k: &Self) -> Result<Option<Val>> {
        m.get(k)
    }
    fn has<C: CompactionStrategy<Self, Val>>(m: &mut LsmMap<Self, Val, C>, k: &Self) -> Result<bool> {
        m.contains_key(k)
    }
}
impl Borrow<str> for Text {
    fn borrow(&self) -> &str {
        &self.0
    }
}
impl Key for Text {
    fn make(x: u64) -> Text {
        let mut s = format!("{}", x / 4);
        match x % 4 {
            0 => {}
            1 => s.push('é'),
            2 => s = "q".repeat((x / 4 % 50) as usize) + &s,
            _ => s = if x < 4 { String::new() } else { format!("\0{}", s) },
        }
        Text(s)
    }
    fn get<C: CompactionStrategy<Self, Val>>(m: &mut LsmMap<Self, Val, C>, k: &Self) -> Result<Option<Val>> {
        m.get(k.0.as_str())
    }
    fn has<C: CompactionStrategy<Self, Val>>(m: &mut LsmMap<Self, Val, C>, k: &Self) -> Result<bool> {
        m.contains_key(k.0.as_str())
    }
}

// ------------------------------------------------------------- values
#[derive(Debug, PartialEq, Eq)]
pub struct Val(pub u64, pub Vec<u8>);
impl Val {
    pub fn make(id: u64, size: u64) -> Val {
        Val(id, vec![(id % 251) as u8; size as usize])
    }
}
impl Clone for Val {
    fn clone(&self) -> Self {
        must(CLONE);
        Val(self.0, self.1.clone())
    }
}
impl Serialize for Val {
    fn serialize<S: Serializer>(&self, s: S) -> std::result::Result<S::Ok, S::Error> {
        event(ENCODE).map_err(|_| S::Error::custom("injected failure"))?;
        (self.0, &self.1).serialize(s)
    }
}
impl<'de> Deserialize<'de> for Val {
    fn deserialize<D: Deserializer<'de>>(d: D) -> std::result::Result<Self, D::Error> {
        event(DECODE).map_err(|_| D::Error::custom("injected failure"))?;
        <(u64, Vec<u8>)>::deserialize(d).map(|(a, b)| Val(a, b))
    }
}

// ------------------------------------------------------------- strategies
#[derive(Clone, Copy, Debug)]
pub struct Params {
    pub mem: u64,
    pub count: usize,
    pub size: u64,
    pub a: u64,
    pub b: u64,
}
pub trait Strat<K: Key>: CompactionStrategy<K, Val> + Sized {
    const NAME: &'static str;
    fn create(path: &Path, p: &Params) -> Result<Self>;
    fn reopen(path: &Path) -> Result<Self>;
    /// What is wrong with the number of tables once every compaction that was due has completed.
    fn excess(path: &Path, p: &Params, dirs: usize) -> Option<String>;
    /// Whether the directory states these parameters in the way the harness knows.
    fn known(path: &Path, p: &Params) -> bool;
}
impl<K: Key> Strat<K> for SizeTieredStrategy<K, Val> {
    const NAME: &'static str = "size-tiered";
    fn create(path: &Path, p: &Params) -> Result<Self> {
        SizeTieredStrategy::new(path, p.mem, p.count, p.size, p.a as f64 / 100.0, p.b as f64 / 100.0)
    }
    fn reopen(path: &Path) -> Result<Self> {
        SizeTieredStrategy::open(path)
    }
    fn excess(_path: &Path, p: &Params, dirs: usize) -> Option<String> {
        // every table is in the smallest bucket: more than `count` of them are merged into one
        if p.size >= 1 << 30 && dirs > p.count {
            return Some(format!("{} tables of the smallest bucket, at most {} may stay", dirs, p.count));
        }
        None
    }
    fn known(path: &Path, p: &Params) -> bool {
        let m: Option<(u64, usize, u64, f64, f64)> =
            std::fs::read(path.join("metadata.dat")).ok().and_then(|b| bincode::deserialize(&b).ok());
        m == Some((p.mem, p.count, p.size, p.a as f64 / 100.0, p.b as f64 / 100.0))
    }
}
impl<K: Key> Strat<K> for LeveledStrategy<K, Val> {
    const NAME: &'static str = "leveled";
    fn create(path: &Path, p: &Params) -> Result<Self> {
        LeveledStrategy::new(path, p.mem, p.count, p.size, p.a as usize, p.b)
    }
    fn reopen(path: &Path) -> Result<Self> {
        LeveledStrategy::open(path)
    }
    fn excess(path: &Path, p: &Params, dirs: usize) -> Option<String> {
        type Meta<K> = (u64, usize, u64, usize, u64, Vec<String>, Vec<Vec<(K, String)>>);
        let buf = std::fs::read(path.join("metadata.dat")).ok()?;
        let m: Meta<K> = bincode::deserialize(&buf).ok()?;
        if m.0 != p.mem || m.1 != p.count || m.2 != p.size || m.3 != p.a as usize || m.4 != p.b {
            return None; // some other format
        }
        let total = m.5.len() + m.6.iter().map(|l| l.len()).sum::<usize>();
        if total > dirs {
            return None;
        }
        if m.5.len() > p.count {
            return Some(format!("{} unsorted tables, at most {} may stay", m.5.len(), p.count));
        }
        for (i, l) in m.6.iter().enumerate() {
            let most = (p.a as u128) * (p.b as u128).pow(i.min(20) as u32);
            if l.len() as u128 > most {
                return Some(format!("{} tables in level {}, at most {} may stay", l.len(), i + 1, most));
            }
        }
        None
    }
    fn known(path: &Path, p: &Params) -> bool {
        let m: Option<(u64, usize, u64, usize, u64)> =
            std::fs::read(path.join("metadata.dat")).ok().and_then(|b| bincode::deserialize(&b).ok());
        m == Some((p.mem, p.count, p.size, p.a as usize, p.b))
    }
}
