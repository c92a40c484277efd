#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (authoring aid; the .jsonl is what counts)."""
import json, os

P = []
def prop(id, title, statement, over, text, why, files, mech, observe, state=None):
    P.append(dict(id=id, title=title, statement=statement,
                  quantifier=dict(over=over, text=text), why_tests_cant=why,
                  anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech],
                               observe_at=observe, hook_needed=None,
                               **({"state": [dict(name=a, meaning=b, where=c) for a, b, c in state]} if state else {}))))

BR = ("branch keys", "for every child, the highest key its subtree may hold; the index every search walks", "src/branch.rs keys")
SZ = ("size", "number of entries, maintained beside the nodes", "src/lib.rs PalmTree.size")

prop("C01", "Point operations behave as an ordered map under every history",
 "After any history of insertions (ordinary or recursive), removals by key, removals of the lowest or highest entry and in-place updates, every lookup, return value and reported length equals that of an ordinary sorted map given the same calls. Overwriting a present key returns the old value and keeps the key instance already stored; operations on an absent key change nothing, and indexing with an absent key panics. This holds however thinned out or emptied the tree has become and whatever the key order of the calls.",
 ["histories", "inputs", "configurations"],
 "all finite sequences of point operations over all key orders, from any constructed start, for trees of any height",
 "Unit tests insert in ascending order into one tree; the property test draws u8 keys, so its trees never exceed two levels and it samples short histories. Multi-level trees thinned by removals and then re-grown are never reached.",
 ["src/lib.rs", "src/branch.rs", "src/leaf.rs", "src/search.rs", "src/array.rs", "src/entry.rs"],
 [("descent by branch keys", "src/search.rs path_for/walk_path; src/branch.rs get, get_mut, get_linear"),
  ("insertion with node splitting", "src/search.rs PathedPointer::insert, push_last; src/lib.rs split_root; src/branch.rs insert, split; src/leaf.rs split"),
  ("removal with empty-node pruning", "src/search.rs PathedPointer::remove; src/lib.rs remove, remove_lowest, remove_highest"),
  ("recursive insertion", "src/lib.rs insert_recursive; src/branch.rs insert")],
 ["insert", "insert_recursive", "get", "get_linear", "get_mut", "remove", "remove_lowest", "remove_highest", "len", "is_empty", "Index", "IndexMut"],
 [BR, SZ])

prop("C02", "The entry view agrees with the map at every key",
 "Asking for the entry of a key reports it occupied exactly when the key is present, and the entry exposes that key. Reading, replacing, updating in place or removing through an occupied entry, and inserting through a vacant one, has exactly the effect and result of the corresponding map operation, and the reference an entry hands out designates the stored value. Obtaining an entry and dropping it, or only reading through it, changes nothing.",
 ["histories", "inputs"],
 "all keys, all tree shapes reachable by any history, all entry operations",
 "Two unit tests walk 0..131072 in ascending order with insert or remove only; get_mut, into_mut, remove_entry, the reference returned by a vacant insert and all non-ascending orders are never exercised.",
 ["src/entry.rs", "src/search.rs", "src/lib.rs"],
 [("entry cursor", "src/entry.rs Entry::new; src/search.rs exact_key"),
  ("vacant insert with split and retry", "src/entry.rs VacantEntry::insert; src/search.rs insert, push_last"),
  ("occupied access and removal", "src/entry.rs OccupiedEntry")],
 ["entry()", "Entry", "VacantEntry", "OccupiedEntry"], [BR, SZ])

prop("C03", "Shared iteration visits every entry once, in order, from both ends",
 "Iterating over a tree by reference yields exactly its entries, each once, in ascending key order from the front and descending from the back, for any interleaving of steps from the two ends. The ends meet without gap or repetition, an exhausted iterator stays exhausted, and a cloned iterator continues independently from the same position. Iteration always terminates and leaves the tree unchanged.",
 ["histories", "inputs"],
 "all trees reachable by any history, all interleavings of front and back steps and clones",
 "Tests iterate bulk-loaded trees entirely forward or entirely backward; interleaved ends, clones, and trees with thinned or pruned nodes above two levels are not covered.",
 ["src/iter/ref_iter.rs", "src/search.rs", "src/iter/mod.rs"],
 [("double-ended cursor pair", "src/iter/ref_iter.rs next, next_back"),
  ("stepping across nodes", "src/search.rs step_forward, step_back, lowest, highest")],
 ["iter()", "IntoIterator for &PalmTree", "Iter::clone"])

prop("C04", "Range queries return exactly the entries inside the bounds",
 "For every tree and every pair of included, excluded or absent bounds, a range query yields exactly the entries whose keys satisfy both bounds, in order from either end, whether or not the bound keys are or ever were present. It panics precisely when the start lies above the end or both bounds exclude the same key. Range queries leave the tree unchanged.",
 ["histories", "inputs"],
 "all trees reachable by any history, all nine combinations of bound kinds, all bound keys",
 "Tests use half-open ranges on u8 keys or a few fixed bulk-loaded trees; inclusive ends and exclusive starts at absent or deleted keys are never tried.",
 ["src/iter/mod.rs", "src/search.rs", "src/iter/ref_iter.rs"],
 [("bound positioning", "src/iter/mod.rs paths_from_range; src/search.rs key_or_higher, higher_than_key, key_or_lower, lower_than_key"),
  ("bound validation", "src/iter/mod.rs paths_from_range")],
 ["range()"], [BR])

prop("C05", "Mutable iteration and ranges reach each entry once and writes stick",
 "Mutable iteration over a whole tree or a range visits exactly the entries the shared iterator would, each handed out at most once, from either end in any interleaving. A value written through a handed-out reference is the value the map holds afterwards, also when several of those references are kept and written later. No other entry, key or length changes, and an invalid range panics as it does for shared ranges.",
 ["histories", "inputs"],
 "all trees reachable by any history, all ranges, all interleavings of both ends, all write patterns",
 "The tests only read through range_mut and iter_mut; none writes through it, and none steps from both ends.",
 ["src/iter/mut_iter.rs", "src/iter/mod.rs", "src/search.rs"],
 [("double-ended mutable cursors", "src/iter/mut_iter.rs"), ("value access", "src/search.rs value_mut")],
 ["iter_mut()", "range_mut()", "IntoIterator for &mut PalmTree"])

prop("C06", "Consuming iteration yields every entry once and counts exactly",
 "Turning a tree into an owning iterator yields exactly its entries, each once, ascending from the front and descending from the back in any interleaving, and always terminates. The reported remaining length is exact before every step, an exhausted iterator stays exhausted from both ends, and dropping it part-way releases what is left.",
 ["histories", "inputs"],
 "all trees reachable by any history, all interleavings of front and back steps, stopping at any point",
 "Tests consume a bulk-loaded tree front to back only; the back end, mixed ends, remaining length and partial consumption are never exercised.",
 ["src/iter/owned.rs", "src/search.rs", "src/leaf.rs"],
 [("popping leaves from both ends", "src/iter/owned.rs next, next_back; src/leaf.rs pop_front, pop_back"),
  ("exact length", "src/iter/owned.rs size_hint, remaining")],
 ["into_iter()", "OwnedIter::len", "OwnedIter::size_hint"])

prop("C07", "Bulk construction equals inserting one by one",
 "A tree bulk-loaded from sorted input, collected from arbitrary input, converted from a standard sorted map, or extended by owned or borrowed pairs holds exactly the entries obtained by inserting the same pairs one at a time, the last value winning for a repeated key. The result is a fully working tree for every input length: all later lookups, iterations, ranges, insertions and removals behave as on a tree built by insertion.",
 ["inputs", "histories"],
 "all input sequences of all lengths (in particular around every node-capacity boundary) followed by any history",
 "One unit test loads one size (131072) and only looks keys up; other tests load below 100 entries, and lengths at node-full boundaries of three or more levels are not tried.",
 ["src/lib.rs", "src/branch.rs", "src/leaf.rs"],
 [("bottom-up bulk load", "src/lib.rs load, push_stack, trim_root"),
  ("collect, extend, convert", "src/lib.rs FromIterator, Extend, From<BTreeMap>")],
 ["load()", "collect()", "extend()", "From<BTreeMap>"])

prop("C08", "Checked builds reject unordered bulk-load input",
 "In a build with debug assertions, bulk-loading input that is not strictly ascending by key (out of order or with a repeated key, at any position) panics instead of producing a tree. Strictly ascending input of any length is never rejected.",
 ["inputs"],
 "all key sequences with at least one adjacent non-ascending pair at any position, and all strictly ascending ones",
 "No test feeds unordered input at all.",
 ["src/lib.rs"],
 [("order validation", "src/lib.rs load, debug_assertions block")],
 ["load()"])

prop("C09", "Merging and appending build the union with the stated side winning",
 "Merging two trees, as a tree or as an iterator, appending one to another, and the addition operators on owned or borrowed trees all yield the sorted union of their entries with no key repeated or lost. For keys present in both, left-merges and left-appends keep the entry of the receiving or left tree, and right-merges, right-appends and additions keep that of the right or other tree; a borrowed operand is left unchanged. The result is a fully working tree, also when either operand is empty, emptied, or lies wholly before or after the other.",
 ["inputs", "histories"],
 "all pairs of trees reachable by any histories, including of different node sizes and pointer kinds where the operators allow it",
 "No existing test calls any merge, append or addition operation.",
 ["src/lib.rs", "src/iter/merge.rs"],
 [("sorted merge with tie rule", "src/iter/merge.rs; src/lib.rs merge_left_from, merge_right_from"),
  ("append and operators", "src/lib.rs append_left, append_right, Add, AddAssign")],
 ["merge_left(_iter)", "merge_right(_iter)", "append_left", "append_right", "Add", "AddAssign", "MergeIter"])

prop("C10", "Equality, ordering, hash and debug output depend only on the entries",
 "Two trees compare equal exactly when they hold the same entries, order lexicographically by their entry sequences as sorted maps do, and hash equal whenever they are equal, no matter how each was built, grown or thinned. The debug output of a tree is that of a sorted map with the same entries, and that of a borrowing iterator a map of the entries it has yet to yield, which printing leaves in place.",
 ["inputs", "histories"],
 "all pairs of trees with equal or nearly equal contents, built through any histories, including values with partial orders",
 "No existing test compares, orders, hashes or prints trees.",
 ["src/lib.rs", "src/iter/ref_iter.rs"],
 [("content-based comparison", "src/lib.rs PartialEq, Eq, PartialOrd, Ord, Hash, Debug")],
 ["==", "partial_cmp", "cmp", "hash", "{:?}"])

prop("C11", "Clones are independent snapshots for every pointer kind",
 "A clone of a tree holds the same entries at the moment of cloning, and from then on nothing done to either - insertion, removal, in-place update, entry access, mutable iteration, consumption, merging or dropping - is observable through the other, for unique, shared and thread-shared trees alike, not even if it is done while an operation on the other is calling into a key or value. Cloning a shared or thread-shared tree copies no entries.",
 ["histories", "configurations"],
 "all histories over any number of clones of clones, all pointer kinds, all mutating operations on any of them",
 "The only clone in the tests is of a unique tree that is immediately consumed; shared and thread-shared trees appear in no test.",
 ["src/pointer.rs", "src/lib.rs", "src/branch.rs", "src/search.rs", "src/entry.rs", "src/iter/owned.rs", "src/iter/mut_iter.rs"],
 [("copy on write at the root", "src/pointer.rs make_mut"), ("deep node copy", "src/branch.rs Clone, src/leaf.rs Clone"),
  ("mutating cursors", "src/search.rs, src/entry.rs, src/iter")],
 ["Clone", "StdPalmTree", "ImPalmTree", "SyncPalmTree"])

prop("C12", "Every key and value is dropped exactly once and nothing leaks",
 "Over any history, each key and value handed to a tree is either returned to the caller or dropped by the tree exactly once; a removed entry is not retained, and replaced values are given back. When all trees, iterators and clones are gone, no key, value or heap block allocated on their behalf remains, and a tree whose entries were all removed holds on to no more than a constant number of heap blocks.",
 ["histories", "inputs"],
 "all histories of all operations, with owning iterators and clones dropped at any point, for all pointer kinds",
 "All tests use plain integers, for which a leak or a double drop is invisible.",
 ["src/array.rs", "src/branch.rs", "src/leaf.rs", "src/branch/node.rs", "src/pointer.rs", "src/iter/owned.rs"],
 [("manual element ownership", "src/array.rs; src/leaf.rs Drop; src/branch.rs Drop"),
  ("type-erased children", "src/branch/node.rs; src/pointer.rs drop_ptr"),
  ("pruning of empty nodes", "src/search.rs remove")],
 ["Drop", "remove", "into_iter"])

prop("C13", "Misbehaving keys and values never corrupt memory",
 "If a key's comparison, a key's or value's clone, destructor, equality, formatting or hashing, or an iterator the tree is fed from panics at any point of any operation, or comparisons are inconsistent, the tree never drops an entry twice, exposes a dropped or uninitialised one, hands out one value for writing twice in the same mutable iteration, or crashes the process; the tree can still be read and dropped afterwards. Wrong contents, leaks and panics are allowed in these cases, corruption is not.",
 ["fault_sequences", "histories"],
 "a single injected panic at any callback (comparison, key clone, value clone, drop, value comparison, formatting, hashing, advancing a source iterator) of any operation of any history, or an arbitrary inconsistent comparison for part of it, for all pointer kinds",
 "No test has a panicking or inconsistent key or value.",
 ["src/array.rs", "src/leaf.rs", "src/branch.rs", "src/search.rs", "src/entry.rs", "src/lib.rs"],
 [("user code never runs while an array slot is duplicated or uninitialised", "src/array.rs insert, insert_pair, remove, clone"),
  ("bounds from lengths, not from comparisons", "src/search.rs find_key*, src/branch.rs")],
 ["all operations under catch_unwind"])

prop("C14", "Thread-shared trees can be read and forked across threads",
 "Threads holding clones of one thread-shared tree, or a shared reference to it, may read, iterate, modify their own clone, consume and drop it concurrently. Each thread observes exactly the contents its own clone should have, the common original stays as it was, and when all are gone every key and value has been dropped exactly once.",
 ["schedules", "histories"],
 "all histories of per-thread operations on clones of a common tree, under the schedules the operating system produces",
 "No test uses thread-shared trees or threads.",
 ["src/pointer.rs", "src/lib.rs"],
 [("atomic reference counting and copy on write", "src/pointer.rs SyncShared")],
 ["SyncPalmTree across std::thread"])

prop("C15", "Trees cross threads only when their contents may",
 "A uniquely owned tree can be sent to, or shared with, another thread exactly when a standard sorted map of the same keys and values can; a thread-shared one exactly when an atomically reference-counted sorted map can; a shared (non-atomic) one never. Programs that would move or share thread-bound keys or values through a tree do not compile.",
 ["programs", "configurations"],
 "all key and value types composed of thread-safe, send-only, share-only and thread-bound parts, for all three pointer kinds",
 "A single compile-fail test covers borrowing; nothing checks thread-safety bounds.",
 ["src/pointer.rs"],
 [("Send and Sync bounds", "src/pointer.rs unsafe impl Send/Sync for Pointer")],
 ["Send / Sync of PalmTree"])

prop("C16", "Behaviour is the same for every node size, pointer kind and entry type",
 "The same history of calls produces the same observable results for every supported leaf and branch capacity (any sizes above three, odd or even, equal or not), every pointer kind, and every key and value representation, including zero-sized, large, heap-owning and strongly aligned types. Capacities of three and less, which nodes do not support, are refused by the compiler. Builds with and without internal assertions, or with the crate's optional features, which all build, agree, and no internal assertion or unexpected panic fires on valid use.",
 ["configurations", "histories"],
 "all node capacities above three, all pointer kinds, all key/value representations, all histories",
 "All tests use one configuration: 64/64, unique, plain integers, debug build.",
 ["src/config.rs", "src/array.rs", "src/branch.rs", "src/leaf.rs", "src/pointer.rs", "src/branch/node.rs"],
 [("capacity-generic nodes", "src/array.rs, src/config.rs"), ("capacity-generic splitting", "src/leaf.rs split, src/branch.rs split"),
  ("pointer kinds", "src/pointer.rs")],
 ["TreeConfig", "PointerKind"])

prop("C17", "Lookups, updates and iteration cost what a balanced tree should",
 "A lookup, removal or range start performs a number of key comparisons at most logarithmic in the number of operations performed on the tree so far, with a small constant factor, in whatever order keys arrived. So does an insertion on average; a single one that splits nodes may cost another factor of the tree's height. Iteration performs a bounded number of comparisons per entry, and bulk loading and merging a bounded number per input pair.",
 ["inputs", "histories"],
 "all key orders and histories, tree sizes up to hundreds of thousands of entries, several node capacities",
 "Tests check results only; a linear scan or a degenerate tree would pass them.",
 ["src/search.rs", "src/branch.rs", "src/leaf.rs", "src/lib.rs"],
 [("binary search in nodes", "src/search.rs find_key*, src/leaf.rs binary_search"), ("balanced splitting", "src/search.rs insert, src/lib.rs split_root, load")],
 ["Ord::cmp call counts"])

prop("C18", "Trees grow to any size and height",
 "A tree of any supported node size accepts as many entries as memory allows, inserted in any order or bulk-loaded, and continues to answer lookups, ranges and iteration correctly, to shrink entry by entry to nothing, and to grow again. No internal limit on height or size makes an operation panic or misbehave.",
 ["inputs", "histories", "configurations"],
 "all insertion orders and sizes up to several hundred thousand entries at the smallest node sizes (more than sixteen levels)",
 "Tests insert 131072 ascending keys at node size 64, which is three levels.",
 ["src/search.rs", "src/lib.rs", "src/branch.rs"],
 [("cursor path storage", "src/search.rs PtrPath"), ("root splitting", "src/lib.rs split_root"), ("multi-level load", "src/lib.rs load")],
 ["insert", "load", "range", "iter", "remove"])

prop("C19", "Safe calls touch only memory that is theirs",
 "Whatever safe calls are made on trees, iterators and entries, in any order and for any well-behaved keys and values, whatever iterators and bounds they are given, the library reads only memory that is allocated, initialised, aligned and of the type it is read as, writes only memory of its own, frees every block once and as it was allocated, and the process never crashes. No unsafe code of the library relies on anything a caller can break through safe calls.",
 ["histories", "inputs", "configurations"],
 "all histories of all public calls, over all pointer kinds, node sizes and entry types",
 "Tests only see wrong results; stray reads, freed memory and misuse of uninitialised slots often give right ones by chance.",
 ["src/array.rs", "src/branch/node.rs", "src/branch.rs", "src/leaf.rs", "src/pointer.rs", "src/search.rs", "src/entry.rs", "src/iter/owned.rs", "src/iter/mut_iter.rs", "src/iter/ref_iter.rs"],
 [("uninitialised slots and moves between them", "src/array.rs"), ("type-erased children told apart by a flag", "src/branch/node.rs, src/branch.rs has_branches"),
  ("raw-pointer cursors", "src/search.rs PathedPointer"), ("nodes turned into raw pointers and back", "src/pointer.rs")],
 ["every public call"])

prop("C20", "Borrows of a tree are tracked by the compiler as of a standard map",
 "A program that would use a reference, iterator or entry obtained from a tree after the tree has been changed through another path, moved or dropped, that would hold two mutable references to one entry, or that would keep borrowed keys or values in a tree beyond the life of what they borrow from, does not compile, just as with a standard sorted map. Programs that respect these rules do compile: a handed-out reference lives as long as the borrow of the tree it came from, whatever happens to the iterator, key or range used to obtain it.",
 ["inputs"],
 "all programs that borrow from trees, iterators and entries",
 "What the compiler accepts is decided by signatures, lifetimes and variances, which no run of a test observes; the one doc-test covers two mutable iterators.",
 ["src/lib.rs", "src/entry.rs", "src/iter/ref_iter.rs", "src/iter/mut_iter.rs", "src/iter/owned.rs", "src/search.rs", "src/pointer.rs"],
 [("lifetimes of handed-out references", "src/lib.rs get, get_mut, iter, range, entry"), ("lifetimes and variance of cursors kept as raw pointers", "src/search.rs PathedPointer, src/iter/"),
  ("references that outlive an entry", "src/entry.rs into_mut, insert")],
 ["get", "get_mut", "index", "iter", "iter_mut", "range", "range_mut", "entry", "into_iter", "merge_left_iter"])

here = os.path.dirname(os.path.abspath(__file__))
with open(os.path.join(here, "..", "properties.jsonl"), "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, p["id"]
        f.write(json.dumps(p) + "\n")
print(len(P))
