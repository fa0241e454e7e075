mod alg;
mod api;
mod arena;
mod cost;
mod dict;
mod list;
mod radix;
mod wild;

use api::*;
use cost::Shape;
use engine::elem::{K, Q, V};
use engine::*;
use extended_collections::avl_tree::{AvlMap, AvlSet};
use extended_collections::red_black_tree::{RedBlackMap, RedBlackSet};
use extended_collections::skiplist::{SkipList, SkipMap, SkipSet};
use extended_collections::splay_tree::{SplayMap, SplaySet};
use extended_collections::treap::{TreapList, TreapMap, TreapSet};
use list::Wide;

const RULE: &str = "non-trivial: the history reaches at least 6 entries at once and contains at least 2 removals; distinct by the hash of the whole case";
const ALG_RULE: &str = "non-trivial: some operation of the history combines two operands with a common key (or splits one into two non-empty parts); distinct by the hash of the whole case";
const LIST_RULE: &str = "non-trivial: some list reaches at least 6 elements and the history contains at least 2 removals; distinct by the hash of the whole case";

fn gen(max: u64) -> impl Fn(&mut Rng, &Gen) -> Case {
    move |rng, g| {
        let max = if g.index % 61 == 60 { max * 8 } else { max };
        Case { cfg: vec![], ops: dict::history(rng, g, max) }
    }
}
fn gen_alg(max: u64, split: bool) -> impl Fn(&mut Rng, &Gen) -> Case {
    move |rng, g| {
        let max = if g.index % 61 == 60 { max * 8 } else { max };
        Case { cfg: vec![], ops: alg::history(rng, g, max, split) }
    }
}
fn gen_list(max: u64) -> impl Fn(&mut Rng, &Gen) -> Case {
    move |rng, g| {
        let max = if g.index % 61 == 60 { max * 8 } else { max };
        Case { cfg: vec![], ops: list::history(rng, max) }
    }
}
fn gen_radix(max: u64, prefix: bool) -> impl Fn(&mut Rng, &Gen) -> Case {
    move |rng, _g| Case { cfg: vec![], ops: radix::history(rng, max, prefix) }
}

macro_rules! dicts {
    ($v:ident, $id:expr, $m:ident, $s:ident) => {
        $v.push(Prop {
            id: $id,
            rule: RULE,
            accept: &[Kind::F],
            targets: vec![
                Target::new("map-tracked", 72000, 3000000, gen(400), dict::run_map::<Tracked, $m<K, V>>),
                Target::new("set-tracked", 36000, 1500000, gen(300), dict::run_set::<Tracked, $s<K>>),
                Target::new("map-string", 24000, 1200000, gen(300), dict::run_map::<Strings, $m<String, V>>),
                Target::new("set-string", 12000, 600000, gen(300), dict::run_set::<Strings, $s<String>>),
            ],
        });
    };
}

/// Everything runs on the stack that Rust gives a thread by default.
fn main() {
    let t = std::thread::Builder::new().stack_size(2 << 20).spawn(run).unwrap();
    let _ = t.join();
    std::process::exit(2);
}

fn run() {
    let mut v: Vec<Prop> = Vec::new();
    dicts!(v, "C01", AvlMap, AvlSet);
    dicts!(v, "C02", RedBlackMap, RedBlackSet);
    dicts!(v, "C03", SplayMap, SplaySet);
    dicts!(v, "C04", SkipMap, SkipSet);
    dicts!(v, "C05", TreapMap, TreapSet);
    v.push(Prop {
        id: "C06",
        rule: ALG_RULE,
        accept: &[Kind::F],
        targets: vec![
            Target::new("map", 40000, 1500000, gen_alg(200, false), alg::run_map::<Tracked, SkipMap<K, V>>),
            Target::new("set", 20000, 800000, gen_alg(200, false), alg::run_set::<Tracked, SkipSet<K>>),
        ],
    });
    v.push(Prop {
        id: "C07",
        rule: ALG_RULE,
        accept: &[Kind::F],
        targets: vec![
            Target::new("map", 40000, 1500000, gen_alg(200, true), alg::run_map::<Tracked, TreapMap<K, V>>),
            Target::new("set", 20000, 800000, gen_alg(200, true), alg::run_set::<Tracked, TreapSet<K>>),
        ],
    });
    v.push(Prop {
        id: "C08",
        rule: "non-trivial: the collection reaches at least 16 keys and the history removes keys (adversary targets: at least 100 histories were measured); distinct by the hash of the whole case",
        accept: &[Kind::X],
        targets: vec![
            Target::new("avl-map", 6000, 300000, cost::balance_history, cost::run_balance::<AvlMap<Q, u32>>(Shape::Avl)),
            Target::new("avl-set", 1500, 60000, cost::balance_history, cost::run_balance::<AvlSet<Q>>(Shape::Avl)),
            Target::new("rb-map", 6000, 300000, cost::balance_history, cost::run_balance::<RedBlackMap<Q, u32>>(Shape::RedBlack)),
            Target::new("rb-set", 1500, 60000, cost::balance_history, cost::run_balance::<RedBlackSet<Q>>(Shape::RedBlack)),
            Target::new("avl-adversary", 64, 2000, cost::adversary_case, cost::run_adversary::<AvlMap<Q, u32>>(Shape::Avl)).steps(60_000_000_000),
            Target::new("rb-adversary", 64, 2000, cost::adversary_case, cost::run_adversary::<RedBlackMap<Q, u32>>(Shape::RedBlack)).steps(60_000_000_000),
        ],
    });
    const BIG: &[u64] = &[2000, 10_000, 60_000, 120_000];
    let big = |t: Target| t.steps(60_000_000_000);
    v.push(Prop {
        id: "C09",
        rule: "non-trivial: the collection reaches at least 1000 elements; distinct by the hash of the whole case",
        accept: &[Kind::X, Kind::F],
        targets: vec![
            big(Target::new("treap-map", 48, 2000, cost::scale_history(BIG), cost::run_scale::<TreapMap<Q, u32>>(false, true))),
            big(Target::new("treap-set", 24, 1000, cost::scale_history(BIG), cost::run_scale::<TreapSet<Q>>(false, true))),
            big(Target::new("skip-map", 48, 2000, cost::scale_history(BIG), cost::run_scale::<SkipMap<Q, u32>>(false, true))),
            big(Target::new("skip-set", 24, 1000, cost::scale_history(BIG), cost::run_scale::<SkipSet<Q>>(false, true))),
            big(Target::new("splay-map", 48, 2000, cost::scale_history(BIG), cost::run_scale::<SplayMap<Q, u32>>(true, false))),
            big(Target::new("splay-set", 24, 1000, cost::scale_history(BIG), cost::run_scale::<SplaySet<Q>>(true, false))),
            big(Target::new("skip-list", 40, 2000, cost::scale_history(BIG), cost::run_list_scale::<SkipList<u32>>)),
            big(Target::new("treap-list", 40, 2000, cost::scale_history(BIG), cost::run_list_scale::<TreapList<u32>>)),
        ],
    });
    v.push(Prop {
        id: "C10",
        rule: LIST_RULE,
        accept: &[Kind::F],
        targets: vec![
            Target::new("tracked", 60000, 2500000, gen_list(300), list::run::<V, SkipList<V>>),
            Target::new("aligned", 6000, 200000, gen_list(200), list::run::<Wide, SkipList<Wide>>),
        ],
    });
    v.push(Prop {
        id: "C11",
        rule: LIST_RULE,
        accept: &[Kind::F],
        targets: vec![
            Target::new("tracked", 60000, 2500000, gen_list(300), list::run::<V, TreapList<V>>),
            Target::new("aligned", 6000, 200000, gen_list(200), list::run::<Wide, TreapList<Wide>>),
        ],
    });
    v.push(Prop {
        id: "C12",
        rule: "non-trivial: as for the property the target's histories come from (at least 4 to 6 elements at once and at least 2 removals or frees, or operands with a common key); distinct by the hash of the whole case",
        accept: &[Kind::O],
        targets: vec![
            Target::new("avl-map", 6000, 250000, gen(300), dict::run_map::<Tracked, AvlMap<K, V>>),
            Target::new("avl-set", 2500, 100000, gen(300), dict::run_set::<Tracked, AvlSet<K>>),
            Target::new("rb-map", 6000, 250000, gen(300), dict::run_map::<Tracked, RedBlackMap<K, V>>),
            Target::new("rb-set", 2500, 100000, gen(300), dict::run_set::<Tracked, RedBlackSet<K>>),
            Target::new("splay-map", 6000, 250000, gen(300), dict::run_map::<Tracked, SplayMap<K, V>>),
            Target::new("splay-set", 2500, 100000, gen(300), dict::run_set::<Tracked, SplaySet<K>>),
            Target::new("skip-map", 8000, 250000, gen_alg(200, false), alg::run_map::<Tracked, SkipMap<K, V>>),
            Target::new("skip-set", 4000, 100000, gen_alg(200, false), alg::run_set::<Tracked, SkipSet<K>>),
            Target::new("treap-map", 8000, 250000, gen_alg(200, true), alg::run_map::<Tracked, TreapMap<K, V>>),
            Target::new("treap-set", 4000, 100000, gen_alg(200, true), alg::run_set::<Tracked, TreapSet<K>>),
            Target::new("skip-list", 8000, 250000, gen_list(300), list::run::<V, SkipList<V>>),
            Target::new("treap-list", 8000, 250000, gen_list(300), list::run::<V, TreapList<V>>),
            Target::new("radix-map", 8000, 250000, gen_radix(200, true), radix::run_map_prefix),
            Target::new("arena", 8000, 250000, |r, _| arena::history(r, 200), arena::run::<V>),
        ],
    });
    v.push(Prop {
        id: "C13",
        rule: "non-trivial: the history reaches at least 4 keys at once and contains at least 2 removals; distinct by the hash of the whole case",
        accept: &[Kind::F],
        targets: vec![
            Target::new("map", 60000, 2500000, gen_radix(200, false), radix::run_map),
            Target::new("set", 20000, 800000, gen_radix(200, false), radix::run_set),
        ],
    });
    v.push(Prop {
        id: "C14",
        rule: "non-trivial: for history-free, at least 2 keys are stored at the end and at least 1 was removed; for histories, at least 4 keys at once and 2 removals; distinct by the hash of the whole case",
        accept: &[Kind::F],
        targets: vec![
            Target::new("history-free", 40000, 1500000, gen_radix(60, false), radix::run_history_free),
            Target::new("histories", 30000, 1200000, gen_radix(120, true), radix::run_map_prefix),
        ],
    });
    v.push(Prop {
        id: "C15",
        rule: "non-trivial: at least 2 entries are freed, 1 slot is reused and 4 slots exist; distinct by the hash of the whole case",
        accept: &[Kind::F],
        targets: vec![
            Target::new("tracked", 60000, 2500000, |r, _| arena::history(r, 250), arena::run::<V>),
            Target::new("aligned", 6000, 200000, |r, _| arena::history(r, 250), arena::run::<Wide>),
        ],
    });
    engine::on_case_start(extended_collections::vp_reset_rng);
    let w = |name: &'static str, n: u64, run: fn(&Case, &mut Ctx) -> Res| Target::new(name, n, n * 40, wild::history, run).unbalanced();
    v.push(Prop {
        id: "C31",
        rule: "non-trivial: at least one operation was left by a panicking comparison or destructor, or comparisons contradict each other; distinct by the hash of the whole case",
        accept: &[Kind::F, Kind::O],
        targets: vec![
            w("skip-map", 30000, wild::run::<SkipMap<wild::W, V>>),
            w("skip-list", 15000, wild::run::<SkipList<wild::W>>),
            w("treap-list", 3000, wild::run::<TreapList<wild::W>>),
            w("stack", 3000, wild::run::<extended_collections::sync::Stack<wild::W>>),
            w("skip-set", 20000, wild::run::<SkipSet<wild::W>>),
            w("treap-map", 10000, wild::run::<TreapMap<wild::W, V>>),
            w("treap-set", 5000, wild::run::<TreapSet<wild::W>>),
            w("splay-map", 10000, wild::run::<SplayMap<wild::W, V>>),
            w("splay-set", 5000, wild::run::<SplaySet<wild::W>>),
            w("avl-map", 5000, wild::run::<AvlMap<wild::W, V>>),
            w("avl-set", 2500, wild::run::<AvlSet<wild::W>>),
            w("rb-map", 5000, wild::run::<RedBlackMap<wild::W, V>>),
            w("rb-set", 2500, wild::run::<RedBlackSet<wild::W>>),
        ],
    });
    engine::main(v);
}
