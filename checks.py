"""What each check runs: (profile, cases, wall limit in seconds) per tier, and how its cases count."""

W = 240
T = 1800


def plan(dbg, rel, factor=25, asan=0, miri=0, feat=0):
    """Numbers of cases: with internal assertions, without, under AddressSanitizer, in the interpreter, with the crate's features."""
    q = [(p, n, W) for p, n in (("dbg", dbg), ("rel", rel), ("asan", asan), ("miri", miri), ("feat", feat)) if n]
    hunt = [("hunt", dbg * factor // 3, T // 2)]
    return dict(quick=q, thorough=[(p, n * factor, T) for p, n, _ in q] + hunt)


TRUST = " Nothing is claimed beyond the generated cases. Trusts the model, proptest, rustc and the checking allocator."

CHECKS = {
    "C01": dict(
        technique="model-based random testing of call histories against a sorted-map model, with shrinking",
        note="Every return value, length and lookup of all generated histories equals the model's, in checked and unchecked builds." + TRUST,
        rule="A case is a configuration, a construction, and up to 14 (thorough: 40) mutations of generated kinds, "
             "followed by a full audit and a drain in a generated order. Non-trivial: the tree reached at least "
             "three levels, at least two mutations ran and something was removed.",
        plan=plan(80000, 80000),
    ),
    "C02": dict(
        technique="model-based random testing of entry operations against a sorted-map model, with shrinking",
        note="Every entry operation of all generated sequences had the model's effect and result." + TRUST,
        rule="A case is a tree built by a generated history and up to 40 (thorough: 120) entry operations at generated keys, then a full "
             "audit and drain. Non-trivial: at least two levels, two occupied and two vacant entries were used.",
        plan=plan(50000, 50000),
    ),
    "C03": dict(
        technique="random iterator scripts against the model's sorted entries (deque oracle), with shrinking",
        note="Every step of every generated two-ended, cloned iteration script yielded the model's entry." + TRUST,
        rule="A case is a tree built by a generated history and up to 6 (thorough: 20) scripts of front/back/nth/clone steps ended in a "
             "generated way. Non-trivial: more than one leaf of entries, and an iterator was stepped from both ends or cloned part-way.",
        plan=plan(50000, 50000),
    ),
    "C04": dict(
        technique="random ranges and iterator scripts against the model filtered by the bounds, plus exhaustive bound sweeps of key windows",
        note="Every generated range yielded exactly the model's entries or panicked exactly when it had to." + TRUST,
        rule="A case is a tree built by a generated history and up to 24 (thorough: 80) ranges with generated bound kinds at present, absent "
             "and removed keys, each iterated by a script; one case in five also tries all nine kinds of all bound pairs in a key window. "
             "Non-trivial: more than a leaf of entries, some range proper, some bound key absent.",
        plan=plan(30000, 30000),
    ),
    "C05": dict(
        technique="random mutable iteration scripts and write patterns against the model, with shrinking",
        note="Every generated mutable iteration handed out the model's entries, disjointly, and its writes were the final values." + TRUST,
        rule="A case is a tree built by a generated history and up to 6 (thorough: 20) whole or range mutable iterations, writing through some references at "
             "once and through kept ones later, with mutations in between. Non-trivial: more than a leaf of entries, several writes, and "
             "an iterator stepped from both ends or references into several leaves kept.",
        plan=plan(40000, 40000),
    ),
    "C06": dict(
        technique="random consuming-iterator scripts against the model's sorted entries and exact remaining lengths, with an edge budget for termination",
        note="Every step of every generated consuming iteration yielded the model's entry and length, and terminated." + TRUST,
        rule="A case is a tree built by a generated history and one script of front/back/nth steps on its consuming iterator, ended or "
             "abandoned in a generated way. Non-trivial: more than a leaf of entries and stepped from both ends.",
        plan=plan(60000, 60000),
    ),
    "C07": dict(
        technique="differential random testing of bulk construction against one-by-one insertion into a sorted-map model, followed by a generated history",
        note="Every bulk-built or extended tree held what one-by-one insertion gives and worked through a generated history." + TRUST,
        rule="A case is a bulk construction (load, collect, from a standard map, extension by owned or borrowed pairs) of a generated length around "
             "node-capacity boundaries and order with repeats, then up to 8 (thorough: 24) mutations and a full audit and drain. Non-trivial: at least two "
             "levels, and a history follows or more than two levels.",
        plan=plan(30000, 30000),
    ),
    "C08": dict(
        technique="random input sequences with injected order flaws against the adjacent-pair predicate",
        note="In checked builds load panicked exactly on the generated inputs that are not strictly ascending." + TRUST,
        rule="A case is an ascending key sequence of a generated length with no, one or several injected flaws (repeat, swap, moved, reversed, "
             "arbitrary) at generated positions, in particular at node boundaries. Non-trivial: at least two keys and a flaw, or more than a leaf.",
        plan=dict(quick=[("dbg", 60000, W)], thorough=[("dbg", 1500000, T), ("hunt", 500000, T // 2)]),
    ),
    "C09": dict(
        technique="model-based random testing of merges, appends and additions against the union of two sorted-map models with the side rule",
        note="Every merge, append and addition of all generated pairs gave the model's union, left borrowed operands alone and worked on." + TRUST,
        rule="A case is two trees built by generated histories, placed alike, overlapping or apart, up to three operations on clones of "
             "them, then one on themselves, followed by up to 6 (thorough: 20) mutations of the result, a full audit and drain. Non-trivial: both trees "
             "hold more than a leaf of entries.",
        plan=plan(30000, 30000),
    ),
    "C10": dict(
        technique="differential random testing of comparison, ordering, hashing and formatting against standard sorted maps with the same entries",
        note="All comparisons, orderings, hashes and debug outputs of the generated pairs were those of standard sorted maps." + TRUST,
        rule="A case is a tree built by a generated history and a second one with the same or slightly perturbed contents, built in another "
             "way (load, insertion, thinning a larger tree, editing a clone). Non-trivial: more than a leaf of entries.",
        plan=plan(30000, 30000),
    ),
    "C11": dict(
        technique="model-based random testing of histories over several clones, each audited against its own sorted-map model after every act, with clone counting",
        note="After every act on one of several clones all others still were what their own models say; cloning shared trees cloned no entry." + TRUST,
        rule="A case is a tree built by a generated history, then up to 14 (thorough: 50) acts on any of up to six clones: cloning, mutation, entries, "
             "mutable iteration, partial consumption kept for later, merging, dropping, iterating one or keeping references into it while another changes, acting on one at a call from an operation on another. "
             "Non-trivial: more than a leaf of entries, and one of two or more clones was changed.",
        plan=plan(24000, 24000),
    ),
    "C12": dict(
        technique="random histories over keys and values that register every instance, with exact accounting of live instances and heap blocks",
        note="In all generated histories the live keys, values and heap blocks were those the remaining trees account for, down to none." + TRUST,
        rule="A case is a tree built by a generated history, then up to 12 (thorough: 40) acts on it or on clones of it (mutation, entries, partial "
             "consumption and merging, dropping), then each tree is kept, thinned or emptied and dropped; live instances are compared after every act. "
             "Non-trivial: more than two leaves of entries and at least two acts.",
        plan=plan(30000, 30000),
    ),
    "C13": dict(
        technique="random histories with fault injection: one callback panics or comparisons lie, over registered instances, then everything is read, changed and dropped",
        note="After every generated fault no instance was dropped twice, read when not alive, or found in two places, and the process lived on." + TRUST,
        rule="A case is a tree built by a generated history, a fault (the n-th comparison, key clone, value clone, key drop or value drop panics; "
             "a window of comparisons answers wrongly in one of six ways; or both), steps under which it strikes, and steps on what is left; every tree "
             "is read in all ways after the fault and in the end. Running out of the edge budget under wrong comparisons says nothing and is counted as "
             "inconclusive. Non-trivial: more than a leaf of entries and the fault struck during a step.",
        fuel_is_violation=False,
        plan=plan(20000, 30000, miri=64),
    ),
    "C14": dict(
        technique="random multi-threaded histories on clones of, and a shared reference to, one thread-shared tree, each thread against its own sorted-map model, with instance counting",
        note="Under every schedule that came up each thread saw its own model's contents, the original stayed, and every instance was dropped once." + TRUST,
        rule="A case is a thread-shared tree built by a generated history and two to four threads that start together and each read the original, clone it, "
             "change, consume, merge and drop their own clones, in generated orders; the original stays or is dropped meanwhile. Each case runs under one "
             "schedule the operating system makes. Non-trivial: more than a leaf of entries, two or more threads, more than three steps.",
        jobs=4,
        plan=plan(8000, 12000, miri=160),
    ),
    "C15": dict(
        technique="generated key and value types put to the compiler, differential against standard maps of the same types, with generated programs that move or share trees",
        note="For all generated types the compiler lets trees cross threads exactly when the standard counterpart may, and the generated programs agree." + TRUST,
        rule="A case is a key and a value type composed at random (quick: up to 3 levels, thorough: 5) of thread-safe, send-only, share-only and thread-bound parts, a "
             "pointer kind and a configuration, for which the compiler evaluates Send and Sync of the tree, its references, iterators and entries; or a program that "
             "sends or shares a tree of such (or of generic, bounded) types, compiled with the tree and with the standard counterpart. Non-trivial: a type other than u8 is involved.",
        compiler="types",
    ),
    "C16": dict(
        technique="the same random history over many combinations of node sizes, pointer kinds and entry types, transcripts compared with that of a sorted-map model; generated capacities put to the compiler",
        note="Every generated history gave the model's transcript in all combinations it was run over, in checked and unchecked builds." + TRUST,
        rule="A case is a history of up to 14 (thorough: 40) steps (runs of insertions and removals, bulk construction, merging, forks, ranges, iteration, "
             "consumption) in terms of numbers only, run over two to six of 65 combinations of node sizes (4 to 1000, odd, even, unequal), pointer kinds and key/value "
             "types; all answers are compared. Non-trivial: two or more combinations, one of them with three or more levels. Or a generated configuration put to the "
             "compiler; non-trivial: one of its capacities is eight or less.",
        compiler="capacities",
        plan=plan(9000, 14000, feat=3000),
    ),
    "C17": dict(
        technique="random histories with a comparison-counting key, each operation against a logarithmic bound in the number of operations so far",
        note="Every operation of all generated histories stayed within its bound on key comparisons." + TRUST,
        rule="A case is up to nine phases (bulk loading, insertion in ascending, descending, random, alternating, strided, bit-reversed or blocked order, insertion "
             "beside one key, removal in such orders, thinning, merging, lookups, ranges, iteration) over one of eleven node-size configurations; the comparisons of "
             "every single operation are counted. Non-trivial: three or more levels and more than 20 lookups or removals.",
        plan=plan(6000, 8000),
    ),
    "C18": dict(
        technique="large random growth and shrinkage histories against a sorted-map model, sampled while running and compared in full in the end",
        note="All generated trees, up to several hundred thousand entries at the smallest node sizes, grew, worked, shrank to nothing and grew again." + TRUST,
        rule="A case is up to five phases (bulk loading, insertion and removal in ascending, descending, random, alternating, strided or blocked order, merging, "
             "thinning, emptying, mutable iteration, iteration and consumption by scripts) of up to half a million entries each, over node sizes 4, 5 and 64 in three pointer kinds; "
             "lookups and ranges are sampled after every 4099 changes and after every phase, in the end all entries are compared, removed one by one, and some inserted "
             "again; some use nodes of 2^17 entries (thorough: also five-level trees of node size 64). Non-trivial: over 20000 entries and changes.",
        plan=plan(200, 240),
    ),
    "C19": dict(
        technique="random histories of all kinds of calls under memory monitors: registered instances and a checking allocator, AddressSanitizer, and the Miri interpreter",
        note="No call of any generated history used memory that was not its own, as far as each monitor can tell: the interpreter sees every access, of the "
             "cases it is given; AddressSanitizer sees accesses outside live heap blocks. The aliasing rules for references are not judged." + TRUST,
        rule="A case is a tree built by a generated history and up to 10 (thorough: 30) calls of any kind on it and clones of it: mutation, entries, iterators of all kinds "
             "driven by scripts, ranges of all bounds, partial consumption, merging, comparison and formatting, bounds and sources that misreport, unordered loads. Cases of up to 14000 (thorough: 40000) edges are also "
             "interpreted. What calls answer is not judged. Non-trivial: more than a leaf of entries and more than one call.",
        fuel_is_violation=False,
        plan=plan(30000, 30000, asan=25000, miri=360),
    ),
    "C20": dict(
        technique="generated borrowing programs and signatures put to the compiler, differential against the standard map and a bodiless map with the same methods",
        note="No generated program that the standard map rejects compiles with a tree, and those that respect borrows do. Trusts rustc's borrow checker. "
             "Nothing is claimed beyond the generated programs.",
        rule="A case is a function of 3 to 10 (nested: more) generated statements that make trees of owned or borrowed values, take references, iterators and entries "
             "in all ways, change, move and drop things and use what was taken; or one that passes such a thing through a signature of generated lifetimes. It is compiled with "
             "the tree (5 configurations), with BTreeMap, and with a map of the tree's methods without bodies. Non-trivial: a signature, or more than three statements.",
        compiler="borrows",
    ),
}
for _c in CHECKS.values():
    _c.setdefault("level", "exploration")

NOT_APPLICABLE = {}
