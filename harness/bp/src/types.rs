//! Key and value types of the on-disk maps, with the sizes a user would declare for them.
use extended_collections::bp_tree::{BpMap, Result};
use serde::de::DeserializeOwned;
use serde::ser::Serialize;
use serde_derive::{Deserialize, Serialize};
use std::cmp::Ordering;
use std::fmt::Debug;

pub trait Ty {
    type K: Ord + Clone + Debug + Serialize + DeserializeOwned;
    type V: PartialEq + Clone + Debug + Serialize + DeserializeOwned;
    /// Declared maximum serialized sizes for the size parameter s.
    fn ksz(s: u64) -> u64;
    fn vsz(s: u64) -> u64;
    fn key(x: u64, s: u64) -> Self::K;
    fn val(x: u64, s: u64) -> Self::V;
    /// Ones that do not fit, too big by `by` bytes, where the type has any.
    fn big_key(_x: u64, _s: u64, _by: u64) -> Option<Self::K> {
        None
    }
    fn big_val(_x: u64, _s: u64, _by: u64) -> Option<Self::V> {
        None
    }
    /// What tells equal keys apart.
    fn tag(_k: &Self::K) -> u64 {
        0
    }
    fn get(m: &mut BpMap<Self::K, Self::V>, k: &Self::K) -> Result<Option<Self::V>> {
        m.get(k)
    }
    fn contains(m: &mut BpMap<Self::K, Self::V>, k: &Self::K) -> Result<bool> {
        m.contains_key(k)
    }
    fn remove(m: &mut BpMap<Self::K, Self::V>, k: &Self::K) -> Result<Option<(Self::K, Self::V)>> {
        m.remove(k)
    }
}

/// A string of at most `max` bytes, different for different x where there is room.
pub fn text(x: u64, max: u64) -> String {
    let max = max as usize;
    let mut s = format!("{}", x / 8);
    match x % 8 {
        0 => {
            // padded to the limit
            while s.len() < max {
                s.push('z');
            }
        }
        1 => {
            while s.len() + 2 <= max {
                s.push('é');
            }
        }
        2 => s.insert(0, '\0'),
        3 if x % 64 == 3 => s.clear(),
        4 => {
            while s.len() < max {
                s.insert(0, 'q');
            }
        }
        _ => s.push((b'a' + (x % 8) as u8) as char),
    }
    while s.len() > max {
        s.pop();
    }
    s
}
fn bytes(x: u64, max: u64) -> Vec<u8> {
    let len = match x % 5 {
        0 => max,
        1 => 0,
        2 => max.min(1),
        _ => engine::mix(x) % (max + 1),
    };
    (0..len).map(|i| engine::mix(x ^ i << 32) as u8).collect()
}

/// The example of the documentation.
pub struct Ints;
impl Ty for Ints {
    type K = u32;
    type V = u64;
    fn ksz(_: u64) -> u64 {
        4
    }
    fn vsz(_: u64) -> u64 {
        8
    }
    fn key(x: u64, _: u64) -> u32 {
        x as u32
    }
    fn val(x: u64, _: u64) -> u64 {
        x
    }
}
/// The same, declared larger than needed.
pub struct Roomy;
impl Ty for Roomy {
    type K = u32;
    type V = u64;
    fn ksz(s: u64) -> u64 {
        4 + s
    }
    fn vsz(s: u64) -> u64 {
        8 + s / 3
    }
    fn key(x: u64, _: u64) -> u32 {
        x as u32
    }
    fn val(x: u64, _: u64) -> u64 {
        x
    }
}
pub struct Bytes;
impl Ty for Bytes {
    type K = u8;
    type V = u8;
    fn ksz(_: u64) -> u64 {
        1
    }
    fn vsz(_: u64) -> u64 {
        1
    }
    fn key(x: u64, _: u64) -> u8 {
        x as u8
    }
    fn val(x: u64, _: u64) -> u8 {
        x as u8
    }
}
pub struct Strs;
impl Ty for Strs {
    type K = String;
    type V = String;
    fn ksz(s: u64) -> u64 {
        8 + s
    }
    fn vsz(s: u64) -> u64 {
        8 + s / 2
    }
    fn key(x: u64, s: u64) -> String {
        text(x, s)
    }
    fn val(x: u64, s: u64) -> String {
        text(x, s / 2)
    }
    fn big_key(x: u64, s: u64, by: u64) -> Option<String> {
        let mut k = text(x, s);
        while k.len() < (s + by) as usize {
            k.push('~');
        }
        Some(k)
    }
    fn big_val(x: u64, s: u64, by: u64) -> Option<String> {
        let mut k = text(x, s / 2);
        while k.len() < (s / 2 + by) as usize {
            k.push('~');
        }
        Some(k)
    }
    fn get(m: &mut BpMap<String, String>, k: &String) -> Result<Option<String>> {
        m.get(k.as_str())
    }
    fn contains(m: &mut BpMap<String, String>, k: &String) -> Result<bool> {
        m.contains_key(k.as_str())
    }
    fn remove(m: &mut BpMap<String, String>, k: &String) -> Result<Option<(String, String)>> {
        m.remove(k.as_str())
    }
}
pub struct StrInt;
impl Ty for StrInt {
    type K = String;
    type V = u32;
    fn ksz(s: u64) -> u64 {
        8 + s
    }
    fn vsz(_: u64) -> u64 {
        4
    }
    fn key(x: u64, s: u64) -> String {
        text(x, s)
    }
    fn val(x: u64, _: u64) -> u32 {
        x as u32
    }
    fn big_key(x: u64, s: u64, by: u64) -> Option<String> {
        Strs::big_key(x, s, by)
    }
    fn get(m: &mut BpMap<String, u32>, k: &String) -> Result<Option<u32>> {
        m.get(k.as_str())
    }
    fn contains(m: &mut BpMap<String, u32>, k: &String) -> Result<bool> {
        m.contains_key(k.as_str())
    }
    fn remove(m: &mut BpMap<String, u32>, k: &String) -> Result<Option<(String, u32)>> {
        m.remove(k.as_str())
    }
}
pub struct IntBlob;
impl Ty for IntBlob {
    type K = i64;
    type V = Vec<u8>;
    fn ksz(_: u64) -> u64 {
        8
    }
    fn vsz(s: u64) -> u64 {
        8 + s
    }
    fn key(x: u64, _: u64) -> i64 {
        (x as i64).wrapping_mul(if x % 2 == 0 { 1 } else { -1 })
    }
    fn val(x: u64, s: u64) -> Vec<u8> {
        bytes(x, s)
    }
    fn big_val(x: u64, s: u64, by: u64) -> Option<Vec<u8>> {
        Some(vec![x as u8; (s + by) as usize])
    }
}
pub struct OptVec;
impl Ty for OptVec {
    type K = Option<u16>;
    type V = Option<Vec<u8>>;
    fn ksz(_: u64) -> u64 {
        3
    }
    fn vsz(s: u64) -> u64 {
        9 + s
    }
    fn key(x: u64, _: u64) -> Option<u16> {
        if x % 37 == 5 {
            None
        } else {
            Some(x as u16)
        }
    }
    fn val(x: u64, s: u64) -> Option<Vec<u8>> {
        if x % 7 == 3 {
            None
        } else {
            Some(bytes(x, s))
        }
    }
    fn big_val(x: u64, s: u64, by: u64) -> Option<Option<Vec<u8>>> {
        Some(Some(vec![x as u8; (s + by) as usize]))
    }
}
#[derive(Clone, Debug, PartialEq, Eq, PartialOrd, Ord, Serialize, Deserialize)]
pub enum Shape {
    Unit,
    One(u8),
    Pair(u16, String),
    Named { a: bool, b: Option<Box<Shape>> },
}
pub struct Enums;
impl Ty for Enums {
    type K = Shape;
    type V = Shape;
    fn ksz(s: u64) -> u64 {
        18 + s
    }
    fn vsz(s: u64) -> u64 {
        18 + s
    }
    fn key(x: u64, s: u64) -> Shape {
        match x % 4 {
            0 if x % 256 == 0 => Shape::Unit,
            0 => Shape::Pair((x / 4) as u16, "w".repeat(((x / 4) % 5).min(s) as usize)),
            1 => Shape::One((x / 4) as u8),
            2 => Shape::Pair((x / 8) as u16, text(x, s + 4)),
            _ => Shape::Named { a: x % 8 == 3, b: Some(Box::new(Shape::One((x / 8) as u8))) },
        }
    }
    fn val(x: u64, s: u64) -> Shape {
        Enums::key(engine::mix(x), s)
    }
    fn big_key(x: u64, s: u64, by: u64) -> Option<Shape> {
        Some(Shape::Pair(x as u16, "k".repeat((s + 4 + by) as usize)))
    }
    fn big_val(x: u64, s: u64, by: u64) -> Option<Shape> {
        Some(Shape::Pair(x as u16, "v".repeat((s + 4 + by) as usize)))
    }
}
pub struct Tuples;
impl Ty for Tuples {
    type K = (u8, String, bool);
    type V = ();
    fn ksz(s: u64) -> u64 {
        10 + s
    }
    fn vsz(_: u64) -> u64 {
        0
    }
    fn key(x: u64, s: u64) -> (u8, String, bool) {
        ((x % 3) as u8, text(x / 3, s), x % 2 == 0)
    }
    fn val(_: u64, _: u64) {}
    fn big_key(x: u64, s: u64, by: u64) -> Option<(u8, String, bool)> {
        Some(((x % 3) as u8, "k".repeat((s + by) as usize), x % 2 == 0))
    }
}
pub struct Chars;
impl Ty for Chars {
    type K = char;
    type V = bool;
    fn ksz(_: u64) -> u64 {
        4
    }
    fn vsz(_: u64) -> u64 {
        1
    }
    fn key(x: u64, _: u64) -> char {
        std::char::from_u32((x as u32).wrapping_mul(if x % 3 == 0 { 0x1001 } else { 1 }) % 0x110000).unwrap_or('\u{10ffff}')
    }
    fn val(x: u64, _: u64) -> bool {
        x % 2 == 0
    }
}
/// Keys that are equal to keys they can be told apart from.
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Tagged {
    pub ord: u32,
    pub tag: u32,
}
impl PartialEq for Tagged {
    fn eq(&self, o: &Self) -> bool {
        self.ord == o.ord
    }
}
impl Eq for Tagged {}
impl PartialOrd for Tagged {
    fn partial_cmp(&self, o: &Self) -> Option<Ordering> {
        Some(self.cmp(o))
    }
}
impl Ord for Tagged {
    fn cmp(&self, o: &Self) -> Ordering {
        self.ord.cmp(&o.ord)
    }
}
pub struct Tags;
thread_local! {
    static NEXT: std::cell::Cell<u32> = const { std::cell::Cell::new(0) };
}
pub fn reset_tags() {
    NEXT.with(|n| n.set(0));
}
impl Ty for Tags {
    type K = Tagged;
    type V = u16;
    fn ksz(_: u64) -> u64 {
        8
    }
    fn vsz(_: u64) -> u64 {
        2
    }
    fn key(x: u64, _: u64) -> Tagged {
        Tagged { ord: x as u32, tag: NEXT.with(|n| n.replace(n.get() + 1)) }
    }
    fn val(x: u64, _: u64) -> u16 {
        x as u16
    }
    fn tag(k: &Tagged) -> u64 {
        k.tag as u64
    }
}
