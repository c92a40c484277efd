"""Node capacities, put to the compiler: a configuration is accepted exactly when both its capacities are above three.

Smaller nodes cannot be split or do not even have room for one entry, so accepting them would let safe code write outside
of them. Each configuration is one line of a program; errors are attributed to lines.
"""
import concurrent.futures, hashlib, random, re
import sendsync

PRELUDE = """#![allow(unused)]
use palmtree::*; use typenum::consts::*; use typenum::{UInt, UTerm};
"""
# The largest that typenum names one by one, and some above.
BIG = [1025, 2000, 4095, 4096, 10000, 65535]
TYPES = ["u8", "u64", "String", "()", "Box<u32>", "[u64; 9]", "Vec<u8>", "Option<char>"]


def number(n, r):
    """A type for a number: its name, or its binary digits."""
    if n <= 1024 and r.random() < 0.7:
        return f"U{n}"
    t = "UTerm"
    for d in bin(n)[2:] if n else "":
        t = f"UInt<{t}, B{d}>"
    return t


def gen(r):
    def cap():
        x = r.random()
        return r.randrange(0, 8) if x < 0.55 else r.randrange(4, 70) if x < 0.85 else r.randrange(70, 1025) if x < 0.97 else r.choice(BIG)
    return cap(), cap(), r.choice(["Unique", "Shared", "SyncShared"])


def line(n, c, r):
    leaf, branch, kind = c
    l, b, k, v = number(leaf, r), number(branch, r), r.choice(TYPES), r.choice(TYPES)
    form = r.randrange(3)
    if form == 0:
        return f"pub struct C{n}; impl<K, V> TreeConfig<K, V> for C{n} {{ type BranchSize = {b}; type LeafSize = {l}; type PointerKind = {kind}; }}"
    if form == 1:
        return f"pub struct C{n}; impl TreeConfig<{k}, {v}> for C{n} {{ type BranchSize = {b}; type LeafSize = {l}; type PointerKind = {kind}; }}"
    return (f"pub struct C{n}<P>(P); impl<K, V, P: PointerKind> TreeConfig<K, V> for C{n}<P> "
            f"{{ type BranchSize = {b}; type LeafSize = {l}; type PointerKind = P; }} pub fn f{n}() -> PalmTree<{k}, {v}, C{n}<{kind}>> {{ PalmTree::new() }}")


def run(res, prop, seed, tier, scratch, env, harness):
    r = random.Random(f"capacities-{seed}")
    cc = sendsync.Rustc(scratch, env, harness)
    cases = [(a, b, "Unique") for a in range(6) for b in range(6)]
    cases += [gen(r) for _ in range(4000 if tier == "quick" else 60000)]
    chunk = 200
    parts = [cases[i:i + chunk] for i in range(0, len(cases), chunk)]
    srcs = [[line(n, c, r) for n, c in enumerate(p)] for p in parts]
    head = PRELUDE.count("\n")

    def one(j):
        return cc.check(PRELUDE + "\n".join(srcs[j]) + "\n", f"cap{j}")
    with concurrent.futures.ThreadPoolExecutor(8) as ex:
        for p, src, (rc, err) in zip(parts, srcs, ex.map(one, range(len(parts)))):
            at = {int(m.group(1)) - head - 1 for m in re.finditer(r"p\.rs:(\d+):\d+: error", err)}
            if (rc != 0) != bool(at) or any(not 0 <= i < len(p) for i in at):
                res.error = "the compiler gave up on the configurations: " + err[-1500:]
                return
            for i, c in enumerate(p):
                res.evaluations += 1
                right = c[0] > 3 and c[1] > 3
                k = "capacities, supported" if right else "capacities, too small"
                res.classes[k] = res.classes.get(k, 0) + 1
                if min(c[:2]) <= 8:
                    res.hashes.add(int(hashlib.sha256(repr(c).encode()).hexdigest()[:15], 16))
                if right == (i in at) and not res.program_failure:
                    res.program_failure = dict(
                        message=f"a configuration with leaves of {c[0]} and branches of {c[1]} is {'rejected' if right else 'accepted'}: {src[i]}",
                        program=PRELUDE + src[i] + "\n", expect="compiles" if right else "rejected")
    res.counters["configurations put to the compiler"] = len(cases)


replay = sendsync.replay
