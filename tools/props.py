#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (edit the table here, then run this)."""
import json, os
P = []
def p(id, title, statement, over, qtext, why, files, mechanism, state=(), observe=(), hook=None):
    P.append({
        "id": id, "title": title, "statement": statement,
        "quantifier": {"over": over, "text": qtext},
        "why_tests_cant": why,
        "anchors": {
            "files": files,
            "state": [{"name": a, "meaning": b, "where": c} for a, b, c in state],
            "mechanism": [{"name": a, "where": b} for a, b in mechanism],
            "observe_at": list(observe), "hook_needed": hook,
        },
    })

DICT = ("After any sequence of operations {n} behaves as a sorted dictionary over the key order: every result (insert and "
        "remove returning the old pair or None, get/get_mut/contains/index by any borrowed form, floor, ceil, min, max, len, is_empty, clear) equals "
        "that of a reference ordered map, and iter, iter_mut and into_iter each yield exactly its entries once, in ascending order. "
        "Inserting a key equal to a stored one replaces and returns the stored pair; indexing an absent key panics and changes nothing; the set variants agree in the same way.")
DWHY = ("Quantifies over all operation histories and key types. The unit tests run a handful of operations on at most ten integer keys, and the "
        "one random integration test inserts then removes distinct u32 keys, with almost no interleaving, no ordered queries on a churned "
        "tree, no keys that are equal but distinguishable, and no borrowed lookups.")
DQ = "every finite sequence of public operations, every key set and insertion order (random, sorted, reversed, clustered), every Ord + Borrow key type"
DO = ["return values of every public method", "the sequences yielded by iter/iter_mut/into_iter", "panics"]
def d(id, name, mod, title, extra):
    p(id, title, DICT.format(n=name), ["histories", "inputs"], DQ, DWHY,
      [f"src/{mod}/map.rs", f"src/{mod}/set.rs"] + extra[0], extra[1], observe=DO)
d("C01", "an AVL map", "avl_tree", "AvlMap and AvlSet are sorted dictionaries under any history",
  (["src/avl_tree/tree.rs", "src/avl_tree/node.rs"], [("recursive insert/remove with rebalancing; two-child removal through the in-order successor", "src/avl_tree/tree.rs: insert, remove, combine_subtrees, balance")]))
d("C02", "a red-black map", "red_black_tree", "RedBlackMap and RedBlackSet are sorted dictionaries under any history",
  (["src/red_black_tree/tree.rs", "src/red_black_tree/node.rs"], [("left-leaning red-black insert, remove, remove_min, balance", "src/red_black_tree/tree.rs")]))
d("C03", "a splay map", "splay_tree", "SplayMap and SplaySet are sorted dictionaries under any history",
  (["src/splay_tree/tree.rs", "src/splay_tree/node.rs"], [("top-down splay before every access, then split or join at the root", "src/splay_tree/tree.rs: splay, insert, remove")]))
d("C04", "a skip-list map", "skiplist", "SkipMap and SkipSet are sorted dictionaries under any history",
  ([], [("towers of raw forward pointers with geometric heights", "src/skiplist/map.rs: insert, remove, get, floor, ceil")]))
d("C05", "a treap map", "treap", "TreapMap and TreapSet are sorted dictionaries under any history",
  (["src/treap/tree.rs", "src/treap/node.rs"], [("heap-ordered random priorities; insert and remove by split and merge; cached subtree sizes", "src/treap/tree.rs")]))

ALG = ("For any two {n}, union, intersection, difference and symmetric difference (also written + and -, for maps and sets) contain exactly the keys "
       "set algebra prescribes, union and intersection keeping the left operand's pair for a common key. The result reports the right length, iterates in "
       "ascending order and remains a fully working collection under every later operation.")
p("C06", "SkipMap and SkipSet set algebra follows the set laws for any operands", ALG.format(n="skip-list maps or sets"), ["inputs", "histories"],
  "every pair of operands (empty, disjoint, nested, interleaved, equal, different heights), chained algebra, and every operation sequence on the result",
  "Each operation is tested on one pair of three-element sets, almost always with both operands of equal height and no use of the result afterwards.",
  ["src/skiplist/map.rs", "src/skiplist/set.rs"],
  [("in-place splicing of both operands' towers level by level", "src/skiplist/map.rs: union, intersection, map_difference")],
  observe=["returned map contents, len and iteration", "later operations on the result"])
p("C07", "TreapMap and TreapSet algebra and split_off follow the set laws", ALG.format(n="treap maps or sets")[:-1] +
  "; split_off(key, inclusive) moves the larger keys to the returned collection, the key itself staying behind when inclusive.", ["inputs", "histories"],
  "every pair of operands, every split key and side, chained algebra and splits, and every operation sequence on the results",
  "Each operation is tested on one pair of three-element sets; recursion on differing priorities, large operands and later use are not reached.",
  ["src/treap/map.rs", "src/treap/set.rs", "src/treap/tree.rs"],
  [("recursive split by the higher-priority root, then merge", "src/treap/tree.rs: split, merge, union, inter, subtract")],
  observe=["contents, len and iteration of both halves / of the result", "later operations on them"])
p("C08", "AVL and red-black operations take logarithmic comparisons in the worst case",
  "In an AVL or red-black map or set holding n keys, every lookup, floor, ceil and insert compares keys at most about 1.45 log2(n+2) (AVL) or 2 log2(n+1) (red-black) times, plus a small constant, and a removal at most about twice as often. "
  "This holds after every history of insertions and removals, not only for random ones, so no access order can make operations slow or recursion deep.",
  ["histories", "inputs"], "every history, in particular sorted, reversed, zig-zag, successor-heavy and remove-one-side deletion orders",
  "No test looks at cost or shape; a tree that stopped rebalancing passes all of them.",
  ["src/avl_tree/tree.rs", "src/avl_tree/node.rs", "src/red_black_tree/tree.rs", "src/red_black_tree/node.rs"],
  [("height fields kept by update and rebalancing by balance on every modified path", "src/avl_tree/tree.rs"), ("red-black invariants", "src/red_black_tree/tree.rs")],
  state=[("height", "cached height of an AVL subtree", "src/avl_tree/node.rs")], observe=["number of key comparisons per call, counted by the key type"])
p("C09", "Treap, skip-list and splay structures stay efficient at scale in any order",
  "For any access order, however sorted or adversarial, n operations on a treap or skip-list map, set or list, including one united or concatenated from separately built ones, cost O(n log n) comparisons or steps in total (expected); so do n inserts, removes and get_muts of a splay map or set (amortised). "
  "No operation, including lookups in, dropping or consuming a collection of a hundred thousand elements built in sorted order, exhausts a default thread stack.",
  ["histories", "inputs"], "every insertion/access/removal order up to 10^5 elements, including fully sorted ones and sorted scans",
  "Tests use a thousand random keys at most; degenerate shapes (sorted splay insertion, towers of height one, constant priorities) only show at scale.",
  ["src/splay_tree/tree.rs", "src/splay_tree/map.rs", "src/treap/tree.rs", "src/treap/implicit_tree.rs", "src/skiplist/map.rs", "src/skiplist/list.rs"],
  [("splaying the accessed path", "src/splay_tree/tree.rs: splay"), ("random priorities", "src/treap/map.rs: insert"), ("random tower heights", "src/skiplist/map.rs: gen_random_height")],
  observe=["comparisons counted by the key type", "executed basic blocks", "process survival on an 8 MiB stack"])
p("C10", "SkipList is a sequence under any history",
  "After any sequence of operations a skip list equals a reference vector: insert, remove, push and pop at either end, get, get_mut and indexing at every usize index, concatenation with +, len, is_empty, clear and all three iterators agree with it in value and order. "
  "Out-of-range get returns None for every index; out-of-range insert, remove and indexing and popping an empty list panic and leave the list unchanged.",
  ["histories", "inputs"], "every operation sequence including concatenations of lists with different histories; every usize index",
  "Unit tests use up to six elements and never operate on a concatenated list; the random test only inserts and removes at random positions.",
  ["src/skiplist/list.rs"], [("link distances adjusted on every insert, remove and concatenation", "src/skiplist/list.rs: insert, remove, add")],
  state=[("distance", "number of elements a link jumps over", "src/skiplist/list.rs: Link")], observe=DO)
p("C11", "TreapList is a sequence under any history",
  "After any sequence of operations a treap list equals a reference vector: insert, remove, push and pop at either end, get, get_mut and indexing at every usize index, concatenation with +, len, is_empty, clear and all three iterators agree with it in value and order. "
  "Out-of-range get returns None for every index; out-of-range insert, remove and indexing and popping an empty list panic and leave the list unchanged.",
  ["histories", "inputs"], "every operation sequence including concatenations; every usize index",
  "Unit tests use up to six elements and never operate on a concatenated list.",
  ["src/treap/list.rs", "src/treap/implicit_tree.rs", "src/treap/node.rs"], [("implicit-key split and merge with cached sizes", "src/treap/implicit_tree.rs")],
  state=[("len", "cached subtree size", "src/treap/node.rs: ImplicitNode")], observe=DO)
p("C12", "In-memory collections drop every element exactly once and leak nothing",
  "Every key, value or element moved into an in-memory collection (maps, sets, lists, radix map, arena) is either moved out to the caller exactly once or dropped exactly once, no later than when the collection or its consuming iterator is dropped. "
  "This holds for replaced pairs, clear, set algebra, concatenation, split_off and partially consumed into_iter, and no memory stays allocated afterwards nor is freed memory touched.",
  ["histories", "inputs"], "every history ending in a drop at any point, with every partially consumed iterator, for element types that own heap memory",
  "Existing tests store plain integers, for which double drops, leaks and use after free are invisible.",
  ["src/skiplist/map.rs", "src/skiplist/list.rs", "src/arena.rs", "src/treap/map.rs", "src/splay_tree/map.rs", "src/radix/map.rs"],
  [("Node::free reading key and value out of a raw allocation, Node::deallocate, Drop impls", "src/skiplist/map.rs, src/skiplist/list.rs"), ("Drop of map and into_iter", "src/skiplist/*.rs")],
  observe=["drop counts per element", "live heap bytes before and after", "AddressSanitizer"])
p("C13", "RadixMap and RadixSet are byte-string dictionaries in lexicographic order",
  "After any sequence of operations a radix map equals a reference map over byte strings: insert, remove, get, get_mut, contains, index, len, is_empty, clear, min, max agree for every key including the empty one, keys that are prefixes of each other and keys with arbitrary bytes. "
  "iter, iter_mut and into_iter yield each entry once in lexicographic order, and the map stays usable after becoming empty in any way; the set variant agrees likewise.",
  ["histories", "inputs"], "every history over arbitrary byte-string keys",
  "Unit tests use a few short ASCII keys and stop after the removals; the random test inserts then removes once.",
  ["src/radix/map.rs", "src/radix/set.rs", "src/radix/tree.rs", "src/radix/node.rs"], [("node splitting on insert, merging on remove, sorted sibling lists", "src/radix/node.rs: split, merge, insert_child; src/radix/tree.rs: insert, remove")], observe=DO)
p("C14", "get_longest_prefix depends only on the keys and returns all best matches",
  "get_longest_prefix(q) returns, in lexicographic order, exactly the stored keys that share with q the longest common prefix any stored key shares with it; if q is non-empty and that prefix is empty, only the empty key, if stored, is returned. "
  "The answer is a function of the stored key set alone, never of the order of insertions and removals that built it.",
  ["inputs", "histories"], "every key set, query and history leading to the key set",
  "Six fixed examples; none has a query diverging at an inner node with several children, and none is reached through removals.",
  ["src/radix/tree.rs", "src/radix/map.rs", "src/radix/set.rs"], [("descent along the query, then collection of the subtree", "src/radix/tree.rs: get_longest_prefix")], observe=["the returned list"])
p("C15", "TypedArena entries stay valid until freed and never alias",
  "For every chunk size and sequence of allocations and frees, each live entry keeps reading back (get, get_mut, index) the value stored through it and no two live entries alias. A freed slot reads as None until it is allocated again, freed slots are reused before new chunks are allocated, and freeing an entry that is not live panics and leaves the arena unchanged.",
  ["histories", "inputs"], "every chunk size >= 1 and every allocate/free/write sequence", "Unit tests make a few allocations with one chunk size.",
  ["src/arena.rs"], [("free list threaded through vacant slots, chunk list", "src/arena.rs: allocate, free")], state=[("head", "first free slot", "src/arena.rs")], observe=["get/get_mut/index results", "panics", "allocator calls"])
p("C16", "The concurrent stack is linearizable as a LIFO stack under any schedule",
  "For any number of threads pushing and popping concurrently, the observed results correspond to some sequential LIFO order consistent with real time: nothing is lost, duplicated or invented and try_pop returns None only if the stack was empty at some moment during the call. "
  "Used sequentially it is exactly a LIFO stack, len and is_empty are exact whenever no call is under way, and never off by more than the calls under way account for.",
  ["schedules", "histories"], "every interleaving of atomic steps of 2-4 threads' push/try_pop/len calls, every sequential history",
  "The unit tests are single threaded except for one free-running multi-thread test that samples a few schedules.",
  ["src/sync/stack.rs"], [("compare-and-set of head with epoch protection", "src/sync/stack.rs: push, try_pop"), ("atomic length counter", "src/sync/stack.rs")], observe=["values returned to each thread with call/return order", "len at quiescence"])
p("C17", "The concurrent stack never frees or drops an element twice and leaks none",
  "Under any schedule each pushed value is dropped exactly once: by the popper that received it, or with the stack if it was never popped. No node is read after it was reclaimed, for element types that own heap memory, and dropping a non-empty stack drops its remaining elements.",
  ["schedules", "histories"], "every interleaving, every history ending in a drop of the stack with elements inside", "Tests push plain integers, so double drops and leaks are invisible.",
  ["src/sync/stack.rs"], [("deferred destruction through crossbeam-epoch", "src/sync/stack.rs: try_pop")], observe=["drop counts", "AddressSanitizer"])
p("C18", "BpMap is a sorted dictionary for every degree and history",
  "For every legal pair of leaf and internal degrees, and for the default ones, after any sequence of insert, remove, get, contains_key, min, max, len, is_empty, clear and full iteration a B+ tree map agrees with a reference ordered map, insert and remove returning the replaced or removed pair. Iteration yields each entry exactly once in ascending order.",
  ["histories", "configurations"], "all leaf degrees >= 1 and internal degrees >= 2 (small ones exhaustively), default degrees with trees of several levels, all histories",
  "Unit tests use degrees 3 and 3 and about ten keys; the random test inserts then removes with default degrees; replacing a key in a full leaf of higher degree is never done.",
  ["src/bp_tree/map.rs", "src/bp_tree/node.rs", "src/bp_tree/pager.rs"], [("node split, borrow and merge", "src/bp_tree/node.rs, src/bp_tree/map.rs: insert, remove"), ("linked leaves for iteration", "src/bp_tree/map.rs: BpMapIterMut")], observe=DO)
p("C19", "BpMap stores keys and values of any declared-size types without corruption",
  "A B+ tree map created with the given maximum serialized key and value sizes stores and returns unchanged every key and value whose serialized form fits, whatever their types: variable length, empty, exactly the maximum, enums, options, strings, tuples. Writing one page never alters another, so all other entries and their order are unaffected.",
  ["inputs", "configurations", "histories"], "key and value types with fixed and variable encodings, all declared sizes, all fill levels", "Tests only store u32 to u64 and one String example below the limit.",
  ["src/bp_tree/node.rs", "src/bp_tree/pager.rs"], [("page size computed from degrees and declared sizes", "src/bp_tree/node.rs: get_max_size, get_degree"), ("fixed-size pages at index * page size", "src/bp_tree/pager.rs")], observe=["contents read back, also after reopening"])
p("C20", "A reopened BpMap has exactly the contents it had when it was dropped",
  "Dropping a B+ tree map (or killing its process) between any two operations and opening its file again yields a map with the same length, entries, order, degrees and behaviour under every further operation, any number of times.",
  ["histories"], "every history with reopen at every point, for all degrees", "One unit test opens a file after a single insert.",
  ["src/bp_tree/pager.rs", "src/bp_tree/map.rs"], [("metadata and pages written through on each operation", "src/bp_tree/pager.rs: Metadata, open")], observe=["all observations after open"])
p("C21", "BpMap rejects oversized keys and values without any effect",
  "An insert whose serialized key or value exceeds the declared size is rejected with a panic before anything is modified: the map, and the file as seen by a later open, keep exactly their previous contents and remain fully usable.",
  ["inputs", "histories"], "all states of the map, all oversize amounts on key, value or both, including replacements", "Two should_panic tests on an empty map, which look at nothing afterwards.",
  ["src/bp_tree/map.rs", "src/bp_tree/pager.rs"], [("size validation before the descent", "src/bp_tree/pager.rs: validate_key, validate_value")], observe=["panic", "contents afterwards and after reopen"])
p("C22", "BpMap recycles freed pages: file size is bounded by peak contents",
  "The file of a B+ tree map never grows while pages freed by removals are available: over any history its size is bounded by a constant plus the space for the largest number of entries ever held at once, not by the number of operations. Recycling a page never disturbs live ones.",
  ["histories"], "long churn histories of inserts and removals with reopenings", "No test looks at the file size; page reuse across several frees is not exercised.",
  ["src/bp_tree/pager.rs"], [("free page list threaded through freed pages", "src/bp_tree/pager.rs: allocate_node, deallocate_node")], state=[("free_page", "head of the free list", "src/bp_tree/pager.rs: Metadata")], observe=["file length", "contents"])
LS = ("With {s} compaction, whatever its parameters and whenever background compactions start and finish, after any sequence of operations an LSM map agrees with a reference ordered map on get, contains_key, len, is_empty, min, max and full ascending iteration; newer writes win and deleted keys never come back. "
      "len_hint is never below len, and clear empties the map for good.")
LW = "Quantifies over histories and over when the background thread finishes; the tests run a few operations that never trigger a compaction, or one bulk load whose compaction timing is whatever the machine gives."
p("C23", "LsmMap with size-tiered compaction is a sorted dictionary under any timing", LS.format(s="size-tiered"), ["histories", "schedules", "configurations"],
  "all histories, strategy parameters and start/finish times of compactions relative to operations", LW, ["src/lsm_tree/map.rs", "src/lsm_tree/compaction/size_tiered.rs", "src/lsm_tree/sstable.rs"],
  [("bucketed merges in a thread, metadata swapped in later", "src/lsm_tree/compaction/size_tiered.rs: compact, try_replace_metadata"), ("tombstones and logical times", "src/lsm_tree/sstable.rs")], observe=DO)
p("C24", "LsmMap with leveled compaction is a sorted dictionary under any timing", LS.format(s="leveled"), ["histories", "schedules", "configurations"],
  "all histories, strategy parameters (from one to many levels) and start/finish times of compactions", LW, ["src/lsm_tree/map.rs", "src/lsm_tree/compaction/leveled.rs", "src/lsm_tree/sstable.rs"],
  [("merges into non-overlapping levels in a thread, metadata swapped in later", "src/lsm_tree/compaction/leveled.rs: compact, try_replace_metadata")], observe=DO)
p("C25", "Flushed LsmMap contents survive drop and reopen",
  "After flush returns, dropping the map without any further step and opening its directory with the same strategy yields exactly the same contents and behaviour, for either strategy and at any point of any history, including a map never written to and repeated reopening. Writes made after reopening supersede older ones.",
  ["histories", "configurations"], "all histories with flush+drop+open at any point, both strategies", "One test per strategy opens a directory once after a bulk load.",
  ["src/lsm_tree/compaction/size_tiered.rs", "src/lsm_tree/compaction/leveled.rs", "src/lsm_tree/sstable.rs"], [("metadata.dat and logical_time.dat rewritten on change", "src/lsm_tree/compaction/*.rs: try_compact, flush, open")], observe=["all observations after open"])
p("C26", "Reopening an unflushed LsmMap yields a consistent prefix of its history",
  "If an LSM map is dropped without flush, even while a compaction is running, opening its directory succeeds and yields exactly the contents after some prefix of the operations that includes everything up to the last completed flush; no earlier write is lost, no deleted key returns and no operation is half visible. The writes that are missing are recent ones that fit together within max_in_memory_size, since whatever exceeds it is written to a table at once.",
  ["crash_points", "histories", "schedules"], "every drop point and compaction state, both strategies", "No test drops an unflushed map.",
  ["src/lsm_tree/map.rs", "src/lsm_tree/compaction/size_tiered.rs", "src/lsm_tree/compaction/leveled.rs"], [("whole-memtable flushes; table list persisted on each flush and swap", "src/lsm_tree/compaction/*.rs")], observe=["contents after open"])
p("C27", "LsmMap iterators are ascending snapshots unaffected by later operations",
  "An LSM map iterator yields exactly the entries present when it was created, once each in ascending order, no matter which inserts, removals, flushes, lookups and further iterations happen before it is exhausted or dropped. After all iterators are dropped compaction resumes and contents stay right.",
  ["histories", "schedules"], "all interleavings of partially consumed iterators with map operations, both strategies", "Tests consume an iterator at once.",
  ["src/lsm_tree/compaction/size_tiered.rs", "src/lsm_tree/compaction/leveled.rs"], [("metadata_lock_count keeps compactions from starting", "src/lsm_tree/compaction/*.rs: iter, try_compact")], observe=["yielded entries"])
p("C28", "A failing background compaction never loses or changes data",
  "If a background compaction stops at any point with an error or a panic, the map keeps answering exactly as before, flush, iteration and reopening still work, and later operations behave normally.",
  ["fault_sequences", "histories"], "every point at which decoding, cloning or hashing an entry or a file-system call fails in the compaction thread, once or repeatedly", "No test makes a compaction fail.",
  ["src/lsm_tree/compaction/size_tiered.rs", "src/lsm_tree/compaction/leveled.rs"], [("compaction works on a metadata snapshot that is published only on success", "src/lsm_tree/compaction/*.rs: compact, spawn_compaction_thread")], observe=["all observations after the fault"])
p("C29", "Completed compactions leave only live tables on disk",
  "Once flush has returned with no iterator alive, and no compaction having failed or been abandoned by a drop, every table directory on disk is one the map still uses, so superseded, emptied and unused tables are reclaimed, and each compaction bounds the number of tables as its parameters promise. After clear no table is left. A table is written only by a flush, or when the entries in memory exceed max_in_memory_size.",
  ["histories", "configurations"], "all histories and parameters, both strategies", "No test looks at the directory.",
  ["src/lsm_tree/compaction/size_tiered.rs", "src/lsm_tree/compaction/leveled.rs", "src/lsm_tree/sstable.rs"], [("removal of replaced tables when metadata is swapped", "src/lsm_tree/compaction/*.rs: try_replace_metadata")], observe=["table directories on disk against those listed in metadata.dat"])
p("C30", "Killing the process at any moment leaves an LSM directory that opens",
  "If the process is killed between any two file-system calls of an LSM map, whether made by the caller's thread or by a compaction, opening the directory succeeds and yields exactly the contents after some prefix of the operations that includes everything up to the last completed flush. Tables named by the metadata are always complete and present, and what is written after opening supersedes what was written before the kill.",
  ["crash_points", "schedules", "histories"], "every file-system call that changes something (create, write, truncate, remove) as a crash point, both strategies", "No test stops a map in the middle of an operation.",
  ["src/lsm_tree/compaction/size_tiered.rs", "src/lsm_tree/compaction/leveled.rs", "src/lsm_tree/sstable.rs", "src/lsm_tree/map.rs"],
  [("new tables are complete before the metadata names them; replaced tables are removed after it no longer does", "src/lsm_tree/compaction/*.rs: try_compact, try_replace_metadata, clear")], observe=["contents after open", "contents after later writes"])
p("C31", "Panicking or inconsistent element code never breaks memory safety",
  "If a comparison or destructor of an element panics in the middle of an operation of an in-memory collection, or the element type's ordering is inconsistent, the operation may panic, elements may be lost or leaked and results may be wrong, but no element is used after it was freed, dropped twice or read where there is none: the collection can still be used, iterated and dropped.",
  ["fault_sequences", "histories"], "every comparison or destructor call as a point where it panics or lies, all histories, every collection that calls such code", "No test has an element whose comparison or destructor panics.",
  ["src/skiplist/map.rs", "src/skiplist/list.rs", "src/treap/map.rs", "src/splay_tree/map.rs", "src/sync/stack.rs"],
  [("nodes linked at several heights and freed by hand", "src/skiplist/map.rs: insert, remove, clear, set operations; src/skiplist/list.rs: clear")], observe=["AddressSanitizer reports", "every element handed out", "double drops"])
p("C32", "A failed file-system call loses nothing an LSM map had accepted",
  "If a file-system call made by an LSM operation other than clear fails without effect, the operation returns an error or does what it is there for: a result it returns is right, a write that reports an error either took effect or did not, and everything written before stays readable. Once calls succeed again, all operations behave normally, compactions run, and flush and reopen keep the contents.",
  ["fault_sequences", "histories", "schedules"], "every file-system call of insert, remove, get, contains_key, min, max, len, is_empty, len_hint, iteration and flush, failing once or from then on until the operation ends, both strategies", "No test makes a call fail.",
  ["src/lsm_tree/map.rs", "src/lsm_tree/compaction/size_tiered.rs", "src/lsm_tree/compaction/leveled.rs", "src/lsm_tree/sstable.rs"],
  [("the in-memory tree is given up only when its table is in place", "src/lsm_tree/map.rs: try_compact"), ("errors pass through merging iterators", "src/lsm_tree/compaction/*.rs: iter, len")], observe=["results while a call fails", "contents afterwards, after flush and after reopening", "number of tables"])
p("C33", "A failed file-system call is never reported as success by a BpMap",
  "If a file-system call made by an operation of a B+ tree map fails without effect, the operation returns an error or does all it is there for: a result it returns, and an entry an iterator yields, is right, and an insert, remove or clear that returns Ok has taken effect for good. An operation that fails before it has attempted to write leaves the map and its file as they were, and the map goes on working; opening the file fails without harm.",
  ["fault_sequences", "histories", "configurations"], "every file-system call of open, insert, remove, get, contains_key, min, max, clear and iteration, failing once or from then on until the operation ends, all degrees, all histories", "No test makes a call fail.",
  ["src/bp_tree/pager.rs", "src/bp_tree/map.rs"],
  [("errors of reads and writes passed on", "src/bp_tree/pager.rs: get_page, write_node, allocate_node, deallocate_node, set_len, set_root_page, clear; src/bp_tree/map.rs: BpMapIterMut")], observe=["results while a call fails", "contents afterwards", "the file's bytes"])
out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for x in P:
        assert len(x["title"]) <= 80, (x["id"], len(x["title"]))
        f.write(json.dumps(x) + "\n")
print(len(P), "properties")
