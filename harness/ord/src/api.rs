//! One interface over the five ordered maps and sets.
use engine::elem::{K, Q, V};
use extended_collections::avl_tree::{AvlMap, AvlSet};
use extended_collections::red_black_tree::{RedBlackMap, RedBlackSet};
use extended_collections::skiplist::{SkipMap, SkipSet};
use extended_collections::splay_tree::{SplayMap, SplaySet};
use extended_collections::treap::{TreapMap, TreapSet};

/// A family of keys: how to build one, how to look one up in borrowed form and how to read it back.
pub trait Keys: 'static {
    type K: Ord + 'static;
    type Q: Ord + ?Sized + 'static;
    type C: Ord + Clone + std::fmt::Debug + 'static;
    const NAME: &'static str;
    fn canon(n: u64) -> Self::C;
    fn make(c: &Self::C, tag: u32) -> Self::K;
    fn with_q<R>(c: &Self::C, f: impl FnOnce(&Self::Q) -> R) -> R;
    fn read(k: &Self::K) -> (Self::C, u32);
    /// Whether the key's memory is intact.
    fn intact(k: &Self::K) -> bool;
}
pub struct Tracked;
impl Keys for Tracked {
    type K = K;
    type Q = Q;
    type C = u32;
    const NAME: &'static str = "tracked";
    fn canon(n: u64) -> u32 {
        n as u32
    }
    fn make(c: &u32, tag: u32) -> K {
        K::new(*c, tag)
    }
    fn with_q<R>(c: &u32, f: impl FnOnce(&Q) -> R) -> R {
        f(&Q(*c))
    }
    fn read(k: &K) -> (u32, u32) {
        (k.q.0, k.tag)
    }
    fn intact(k: &K) -> bool {
        k.tr.ok()
    }
}
/// Strings of varying length looked up by &str.
pub struct Strings;
impl Keys for Strings {
    type K = String;
    type Q = str;
    type C = String;
    const NAME: &'static str = "string";
    fn canon(n: u64) -> String {
        // short alphabet, so that prefixes, the empty string and long strings all occur
        let n = n as u32;
        let mut s = String::new();
        let mut x = n as u64;
        while x > 0 {
            s.push((b'a' + (x % 3) as u8) as char);
            x /= 3;
        }
        s
    }
    fn make(c: &String, _tag: u32) -> String {
        c.clone()
    }
    fn with_q<R>(c: &String, f: impl FnOnce(&str) -> R) -> R {
        f(c.as_str())
    }
    fn read(k: &String) -> (String, u32) {
        (k.clone(), 0)
    }
    fn intact(_: &String) -> bool {
        true
    }
}

pub type It<'a, T> = Box<dyn Iterator<Item = T> + 'a>;

pub trait Map<S: Keys>: Sized + 'static {
    fn new() -> Self;
    fn default_() -> Self;
    fn insert(&mut self, k: S::K, v: V) -> Option<(S::K, V)>;
    fn remove(&mut self, k: &S::Q) -> Option<(S::K, V)>;
    fn contains(&self, k: &S::Q) -> bool;
    fn get(&self, k: &S::Q) -> Option<&V>;
    fn get_mut(&mut self, k: &S::Q) -> Option<&mut V>;
    fn floor(&self, k: &S::Q) -> Option<&S::K>;
    fn ceil(&self, k: &S::Q) -> Option<&S::K>;
    fn min(&self) -> Option<&S::K>;
    fn max(&self) -> Option<&S::K>;
    fn len(&self) -> usize;
    fn is_empty(&self) -> bool;
    fn clear(&mut self);
    fn iter(&self) -> It<'_, (&S::K, &V)>;
    fn iter_ref(&self) -> It<'_, (&S::K, &V)>;
    fn iter_mut(&mut self) -> It<'_, (&S::K, &mut V)>;
    fn iter_ref_mut(&mut self) -> It<'_, (&S::K, &mut V)>;
    fn into_iter_(self) -> It<'static, (S::K, V)>;
    fn at(&self, k: &S::Q) -> &V;
    fn at_mut(&mut self, k: &S::Q) -> &mut V;
}
pub trait Alg<S: Keys>: Sized {
    /// 0 union, 1 intersection, 2 difference, 3 symmetric difference, 4 `+`, 5 `-`
    fn alg(which: u64, l: Self, r: Self) -> Self;
    fn split(&mut self, k: &S::C, inclusive: bool) -> Option<Self>;
}

pub trait Set<S: Keys>: Sized + 'static {
    fn new() -> Self;
    fn default_() -> Self;
    fn insert(&mut self, k: S::K) -> Option<S::K>;
    fn remove(&mut self, k: &S::C) -> Option<S::K>;
    fn contains(&self, k: &S::C) -> bool;
    fn floor(&self, k: &S::C) -> Option<&S::K>;
    fn ceil(&self, k: &S::C) -> Option<&S::K>;
    fn min(&self) -> Option<&S::K>;
    fn max(&self) -> Option<&S::K>;
    fn len(&self) -> usize;
    fn is_empty(&self) -> bool;
    fn clear(&mut self);
    fn iter(&self) -> It<'_, &S::K>;
    fn iter_ref(&self) -> It<'_, &S::K>;
    fn into_iter_(self) -> It<'static, S::K>;
}

macro_rules! map_impl {
    ($m:ident, $s:ty, $k:ty, $q:ty) => {
        impl Map<$s> for $m<$k, V> {
            fn new() -> Self {
                $m::new()
            }
            fn default_() -> Self {
                Default::default()
            }
            fn insert(&mut self, k: $k, v: V) -> Option<($k, V)> {
                $m::insert(self, k, v)
            }
            fn remove(&mut self, k: &$q) -> Option<($k, V)> {
                $m::remove(self, k)
            }
            fn contains(&self, k: &$q) -> bool {
                $m::contains_key(self, k)
            }
            fn get(&self, k: &$q) -> Option<&V> {
                $m::get(self, k)
            }
            fn get_mut(&mut self, k: &$q) -> Option<&mut V> {
                $m::get_mut(self, k)
            }
            fn floor(&self, k: &$q) -> Option<&$k> {
                $m::floor(self, k)
            }
            fn ceil(&self, k: &$q) -> Option<&$k> {
                $m::ceil(self, k)
            }
            fn min(&self) -> Option<&$k> {
                $m::min(self)
            }
            fn max(&self) -> Option<&$k> {
                $m::max(self)
            }
            fn len(&self) -> usize {
                $m::len(self)
            }
            fn is_empty(&self) -> bool {
                $m::is_empty(self)
            }
            fn clear(&mut self) {
                $m::clear(self)
            }
            fn iter(&self) -> It<'_, (&$k, &V)> {
                Box::new($m::iter(self))
            }
            fn iter_ref(&self) -> It<'_, (&$k, &V)> {
                Box::new(IntoIterator::into_iter(self))
            }
            fn iter_mut(&mut self) -> It<'_, (&$k, &mut V)> {
                Box::new($m::iter_mut(self))
            }
            fn iter_ref_mut(&mut self) -> It<'_, (&$k, &mut V)> {
                Box::new(IntoIterator::into_iter(self))
            }
            fn into_iter_(self) -> It<'static, ($k, V)> {
                Box::new(IntoIterator::into_iter(self))
            }
            fn at(&self, k: &$q) -> &V {
                &self[k]
            }
            fn at_mut(&mut self, k: &$q) -> &mut V {
                &mut self[k]
            }
        }
    };
}
map_impl!(AvlMap, Tracked, K, Q);
map_impl!(AvlMap, Strings, String, str);
map_impl!(RedBlackMap, Tracked, K, Q);
map_impl!(RedBlackMap, Strings, String, str);
map_impl!(SplayMap, Tracked, K, Q);
map_impl!(SplayMap, Strings, String, str);
map_impl!(SkipMap, Tracked, K, Q);
map_impl!(SkipMap, Strings, String, str);
map_impl!(TreapMap, Tracked, K, Q);
map_impl!(TreapMap, Strings, String, str);

// Sets differ in how keys may be passed: `own` sets take &T in remove, the others a borrowed form.
macro_rules! set_impl {
    ($m:ident, $s:ty, $k:ty, |$c:ident| $look:expr, |$d:ident| $rm:expr) => {
        impl Set<$s> for $m<$k> {
            fn new() -> Self {
                $m::new()
            }
            fn default_() -> Self {
                Default::default()
            }
            fn insert(&mut self, k: $k) -> Option<$k> {
                $m::insert(self, k)
            }
            fn remove(&mut self, $d: &<$s as Keys>::C) -> Option<$k> {
                $m::remove(self, $rm)
            }
            fn contains(&self, $c: &<$s as Keys>::C) -> bool {
                $m::contains(self, $look)
            }
            fn floor(&self, $c: &<$s as Keys>::C) -> Option<&$k> {
                $m::floor(self, $look)
            }
            fn ceil(&self, $c: &<$s as Keys>::C) -> Option<&$k> {
                $m::ceil(self, $look)
            }
            fn min(&self) -> Option<&$k> {
                $m::min(self)
            }
            fn max(&self) -> Option<&$k> {
                $m::max(self)
            }
            fn len(&self) -> usize {
                $m::len(self)
            }
            fn is_empty(&self) -> bool {
                $m::is_empty(self)
            }
            fn clear(&mut self) {
                $m::clear(self)
            }
            fn iter(&self) -> It<'_, &$k> {
                Box::new($m::iter(self))
            }
            fn iter_ref(&self) -> It<'_, &$k> {
                Box::new(IntoIterator::into_iter(self))
            }
            fn into_iter_(self) -> It<'static, $k> {
                Box::new(IntoIterator::into_iter(self))
            }
        }
    };
}
set_impl!(AvlSet, Tracked, K, |c| &Q(*c), |c| &K::new(*c, u32::MAX));
set_impl!(RedBlackSet, Tracked, K, |c| &Q(*c), |c| &K::new(*c, u32::MAX));
set_impl!(SplaySet, Tracked, K, |c| &Q(*c), |c| &K::new(*c, u32::MAX));
set_impl!(SkipSet, Tracked, K, |c| &Q(*c), |c| &Q(*c));
set_impl!(TreapSet, Tracked, K, |c| &Q(*c), |c| &K::new(*c, u32::MAX));
set_impl!(AvlSet, Strings, String, |c| c.as_str(), |c| c);
set_impl!(RedBlackSet, Strings, String, |c| c.as_str(), |c| c);
set_impl!(SplaySet, Strings, String, |c| c.as_str(), |c| c);
set_impl!(SkipSet, Strings, String, |c| c.as_str(), |c| c.as_str());
set_impl!(TreapSet, Strings, String, |c| c, |c| c);

macro_rules! alg_impl {
    ($m:ident, [$($g:ty),*], $s:ty, |$x:ident, $c:ident, $inc:ident| $split:expr) => {
        impl Alg<$s> for $m<$($g),*> {
            fn alg(which: u64, l: Self, r: Self) -> Self {
                match which {
                    0 => $m::union(l, r),
                    1 => $m::intersection(l, r),
                    2 => $m::difference(l, r),
                    3 => $m::symmetric_difference(l, r),
                    4 => l + r,
                    _ => l - r,
                }
            }
            fn split(&mut self, $c: &<$s as Keys>::C, $inc: bool) -> Option<Self> {
                let $x = self;
                $split
            }
        }
    };
}
alg_impl!(SkipMap, [K, V], Tracked, |_x, _c, _i| None);
alg_impl!(SkipSet, [K], Tracked, |_x, _c, _i| None);
alg_impl!(TreapMap, [K, V], Tracked, |x, c, i| Some(x.split_off(&Q(*c), i)));
alg_impl!(TreapSet, [K], Tracked, |x, c, i| Some(x.split_off(&K::new(*c, u32::MAX), i)));
