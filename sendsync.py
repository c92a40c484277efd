"""C15: generated key and value types, put to the compiler.

A case is a pair of types built from thread-safe, send-only, share-only and thread-bound parts. The compiler decides for
each tree type whether it may be sent to or shared with another thread, and the answer is compared with that for a
standard sorted map of the same types (uniquely owned trees), an Arc of one (thread-shared trees), or never (shared
ones). Part of the cases are whole programs that do move or share a tree, which must compile exactly when the same
program with the standard map does.
"""
import concurrent.futures, hashlib, json, os, random, re, subprocess, time

# name, is it Ord + Clone (so that it can be the key of an entry)
ATOMS = [
    ("u8", 1), ("u32", 1), ("String", 1), ("()", 1), ("bool", 1), ("&'static str", 1), ("AtomicU32", 0),
    ("*const u8", 1), ("*mut u8", 1), ("NonNull<u8>", 1), ("SendOnly", 1), ("SyncOnly", 1), ("Bound", 1), ("Rc<u8>", 1),
    ("MutexGuard<'static, u8>", 0), ("Cell<u8>", 0), ("RefCell<String>", 0), ("Mutex<u8>", 0), ("fn()", 1), ("Sender<u8>", 0),
    ("Receiver<u8>", 0), ("Box<dyn Fn()>", 0), ("Box<dyn Fn() + Send>", 0), ("Box<dyn Fn() + Sync>", 0),
    ("Box<dyn Fn() + Send + Sync>", 0), ("PhantomData<*const u8>", 1), ("std::rc::Weak<u8>", 0), ("Arc<u8>", 1),
]
# template, arity, Ord + Clone if all its parts are, weight
WRAPS = [
    ("Box<{}>", 1, 1), ("Vec<{}>", 1, 1), ("Option<{}>", 1, 1), ("[{}; 3]", 1, 1), ("({}, {})", 2, 1), ("Rc<{}>", 1, 1),
    ("Arc<{}>", 1, 1), ("Cell<{}>", 1, 0), ("RefCell<{}>", 1, 0), ("Mutex<{}>", 1, 0), ("RwLock<{}>", 1, 0),
    ("&'static {}", 1, 1), ("PhantomData<{}>", 1, 1), ("BTreeMap<{}, {}>", 2, 1), ("NonNull<{}>", 1, 1), ("Sender<{}>", 1, 0),
    ("Receiver<{}>", 1, 0), ("MutexGuard<'static, {}>", 1, 0), ("std::sync::Weak<{}>", 1, 0), ("Result<{}, {}>", 2, 1),
    ("PalmTree<{}, {}, Tree64<Unique>>", 2, 0), ("PalmTree<{}, {}, Tree64<Shared>>", 2, 0),
    ("PalmTree<{}, {}, Tree64<SyncShared>>", 2, 0), ("ManuallyDrop<{}>", 1, 1), ("MaybeUninit<{}>", 1, 0), ("OnceLock<{}>", 1, 0),
    ("Iter<'static, {}, {}, Tree64<Unique>>", 2, 0), ("OwnedIter<{}, {}, Tree64<Unique>>", 2, 0),
]

PRELUDE = """#![allow(unused, deprecated)]
use palmtree::*;
use std::cell::{Cell, RefCell}; use std::collections::BTreeMap; use std::marker::PhantomData;
use std::mem::{ManuallyDrop, MaybeUninit}; use std::ptr::NonNull;
use std::rc::Rc; use std::sync::atomic::AtomicU32; use std::sync::mpsc::{channel, Sender, Receiver}; use std::sync::{Arc, Mutex, MutexGuard, RwLock, OnceLock};
use typenum::consts::*;
#[derive(Clone, PartialEq, Eq, PartialOrd, Ord)] pub struct SendOnly(*const u8);
unsafe impl Send for SendOnly {}
#[derive(Clone, PartialEq, Eq, PartialOrd, Ord)] pub struct SyncOnly(*const u8);
unsafe impl Sync for SyncOnly {}
#[derive(Clone, PartialEq, Eq, PartialOrd, Ord)] pub struct Bound(*const u8);
pub struct Small<P: PointerKind>(PhantomData<P>);
impl<K, V, P: PointerKind> TreeConfig<K, V> for Small<P> { type BranchSize = U4; type LeafSize = U5; type PointerKind = P; }
pub struct Own1; pub struct Rc1; pub struct Arc1;
impl<K, V> TreeConfig<K, V> for Own1 { type BranchSize = U16; type LeafSize = U7; type PointerKind = Unique; }
impl<K, V> TreeConfig<K, V> for Rc1 { type BranchSize = U16; type LeafSize = U7; type PointerKind = Shared; }
impl<K, V> TreeConfig<K, V> for Arc1 { type BranchSize = U16; type LeafSize = U7; type PointerKind = SyncShared; }
"""
PROBE = """
pub struct Is<T: ?Sized>(PhantomData<T>);
pub trait No { const SEND: bool = false; const SYNC: bool = false; }
impl<T: ?Sized> No for Is<T> {}
impl<T: ?Sized + Send> Is<T> { pub const SEND: bool = true; }
impl<T: ?Sized + Sync> Is<T> { pub const SYNC: bool = true; }
"""
# per pointer kind: configurations, and the standard counterpart
KINDS = {
    "unique": (["Tree64<Unique>", "Small<Unique>", "Own1"], "BTreeMap<K, V>"),
    "thread-shared": (["Tree64<SyncShared>", "Small<SyncShared>", "Arc1"], "Arc<BTreeMap<K, V>>"),
    "shared": (["Tree64<Shared>", "Small<Shared>", "Rc1"], "Rc<u8>"),
}


SAFE_ATOMS = [a for a in ATOMS if a[0] in ("u8", "u32", "String", "()", "bool", "&'static str", "AtomicU32", "Mutex<u8>", "fn()", "Arc<u8>")]
SAFE_WRAPS = [w for w in WRAPS if w[0] in (
    "Box<{}>", "Vec<{}>", "Option<{}>", "[{}; 3]", "({}, {})", "Arc<{}>", "Mutex<{}>", "RwLock<{}>", "BTreeMap<{}, {}>", "Result<{}, {}>",
    "&'static {}", "PhantomData<{}>", "PalmTree<{}, {}, Tree64<Unique>>", "PalmTree<{}, {}, Tree64<SyncShared>>", "OnceLock<{}>")]


def gen_type(r, depth, tame=None):
    """A type expression as (template, parts) with whether it is Ord + Clone. Tame ones have few thread-bound parts."""
    if tame is None:
        tame = r.random() < 0.5
    odd = not tame or r.random() < 0.08
    if depth == 0 or r.random() < 0.35:
        n, o = r.choice(ATOMS if odd else SAFE_ATOMS)
        return (n, (), bool(o))
    t, a, o = r.choice(WRAPS if odd else SAFE_WRAPS)
    parts = tuple(gen_type(r, depth - 1, tame) for _ in range(a))
    return (t, parts, bool(o) and all(p[2] for p in parts))


def show(t):
    return t[0].format(*[show(p) for p in t[1]]) if t[1] else t[0]


def smaller(t):
    """Simpler types to try in place of one."""
    for p in t[1]:
        yield p
    for i, p in enumerate(t[1]):
        for q in smaller(p):
            parts = t[1][:i] + (q,) + t[1][i + 1:]
            yield (t[0], parts, t[2] and q[2])
    if t[0] != "u8":
        yield ("u8", (), True)


def probe_case(n, k, v, kind, cfg):
    """Source of one case; every check has a code that names it."""
    k_, v_ = show(k), show(v)
    out = [f"const C{n}: () = {{ type K = {k_}; type V = {v_}; type T = PalmTree<K, V, {cfg}>; type M = {KINDS[kind][1]};"]

    def check(cond, code):
        out.append(f'  if !({cond}) {{ panic!("case {n} {code}") }}')
    check("<Is<T>>::SEND == <Is<M>>::SEND", "tree Send")
    check("<Is<T>>::SYNC == <Is<M>>::SYNC", "tree Sync")
    check("<Is<&'static T>>::SEND == <Is<&'static M>>::SEND", "reference Send")
    check("<Is<&'static mut T>>::SEND == <Is<&'static mut M>>::SEND", "mutable reference Send")
    # Nothing else a tree hands out carries thread-bound contents to another thread either.
    ksend, ksync = "<Is<(K, V)>>::SEND", "<Is<(K, V)>>::SYNC"
    check(f"!<Is<Iter<'static, K, V, {cfg}>>>::SEND || {ksync}", "Iter Send")
    check(f"!<Is<Iter<'static, K, V, {cfg}>>>::SYNC || {ksync}", "Iter Sync")
    check(f"!<Is<IterMut<'static, K, V, {cfg}>>>::SEND || (<Is<V>>::SEND && <Is<K>>::SYNC)", "IterMut Send")
    check(f"!<Is<IterMut<'static, K, V, {cfg}>>>::SYNC || {ksync}", "IterMut Sync")
    check(f"!<Is<OwnedIter<K, V, {cfg}>>>::SEND || <Is<M>>::SEND", "OwnedIter Send")
    check(f"!<Is<OwnedIter<K, V, {cfg}>>>::SYNC || <Is<M>>::SYNC", "OwnedIter Sync")
    if k[2]:
        check(f"!<Is<Entry<'static, K, V, {cfg}>>>::SEND || <Is<M>>::SEND", "Entry Send")
        check(f"!<Is<Entry<'static, K, V, {cfg}>>>::SYNC || <Is<M>>::SYNC", "Entry Sync")
    out.append("};")
    return "\n".join(out)


USES = [
    ("sent", "pub fn p{g}(t: {t}) {w} {{ std::thread::spawn(move || drop(t)); }}"),
    ("shared", "pub fn p{g}(t: &'static {t}) {w} {{ std::thread::spawn(move || {{ let _u: &{t} = t; }}); }}"),
    ("sent through a channel", "pub fn p{g}(t: {t}) {w} {{ let (s, r) = channel(); s.send(t).ok(); std::thread::spawn(move || r.recv().map(drop)); }}"),
    ("in a scoped thread", "pub fn p{g}(t: &{t}) {w} {{ std::thread::scope(|s| {{ s.spawn(|| {{ let _u: &{t} = t; }}); }}); }}"),
    ("in a static lock", "pub fn p{g}(t: {t}) {w} {{ let m = Arc::new(Mutex::new(t)); std::thread::spawn(move || drop(m)); }}"),
]


def use_program(use, tree, map_, k, v, generic):
    """The same program with a tree and with a map; types may be those of a generic function."""
    progs = []
    for t in (tree, map_):
        body = USES[use][1]
        if generic is None:
            src = f"type K = {show(k)}; type V = {show(v)}; type T = {t};\n" + body.format(g="", w="", t="T")
        else:
            src = f"type Tr<K, V> = {t};\n" + body.format(
                g=f"<K: 'static{generic[0]}, V: 'static{generic[1]}>", w="", t="Tr<K, V>")
        progs.append(PRELUDE + src + "\nfn main() {}\n")
    return progs


def stamp_of(repo):
    h = hashlib.sha256()
    for root, dirs, files in os.walk(repo):
        dirs[:] = sorted(d for d in dirs if d not in (".git", "target"))
        for f in sorted(files):
            if f.endswith((".rs", ".toml")):
                p = os.path.join(root, f)
                h.update(p.encode())
                h.update(open(p, "rb").read())
    return h.hexdigest()


class Rustc:
    def __init__(self, scratch, env, harness):
        self.scratch, self.n = scratch, 0
        e = dict(env)
        e["CARGO_TARGET_DIR"] = os.path.join(harness, "target", "types")
        # Cargo goes by time stamps; contents are what counts.
        stamp, sfile = stamp_of("/repo"), os.path.join(e["CARGO_TARGET_DIR"], "repo-stamp")
        if os.path.exists(sfile) and open(sfile).read() != stamp:
            subprocess.run(["cargo", "clean", "-q", "-p", "palmtree", "--profile", "dbg", "--target", "x86_64-unknown-linux-gnu"],
                           cwd=harness, env=e, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
        cmd = ["cargo", "build", "--offline", "--locked", "--lib", "--profile", "dbg", "--message-format=json-render-diagnostics", "-q"]
        p = subprocess.run(cmd, cwd=harness, env=e, capture_output=True, text=True)
        if p.returncode != 0:
            raise RuntimeError("the tree could not be built:\n" + p.stderr[-3000:])
        with open(sfile, "w") as f:
            f.write(stamp)
        libs = {}
        for l in p.stdout.splitlines():
            m = json.loads(l)
            if m.get("reason") == "compiler-artifact":
                for f in m["filenames"]:
                    if f.endswith(".rlib") or f.endswith(".rmeta"):
                        libs.setdefault(m["target"]["name"], []).append((f.endswith(".rmeta"), f))
        self.args = []
        for n in ("palmtree", "typenum"):
            f = sorted(libs[n])[0][1]
            self.args += ["--extern", f"{n}={f}"]
            self.args += ["-L", "dependency=" + os.path.dirname(f)]
        self.env = e

    def check(self, src, name):
        d = os.path.join(self.scratch, name)
        os.makedirs(d, exist_ok=True)
        f = os.path.join(d, "p.rs")
        open(f, "w").write(src)
        p = subprocess.run(["rustc", "--edition", "2021", "--crate-type", "lib", "--crate-name", "p", "--emit=metadata", "-o",
                            os.path.join(d, "p.rmeta"), "--target", "x86_64-unknown-linux-gnu", "--error-format=short", "-Adeprecated",
                            "--cap-lints", "allow", f] + self.args, env=self.env, capture_output=True, text=True, timeout=300)
        return p.returncode, p.stderr


THREAD_ERRORS = re.compile(r"error\[E0277\].*cannot be (sent|shared) between threads safely")


def verdict(rc, err):
    """True: compiles; False: rejected for crossing threads; None: something else."""
    if rc == 0:
        return True
    errs = [l for l in err.splitlines() if "error" in l and "aborting" not in l and "could not compile" not in l]
    if errs and all(THREAD_ERRORS.search(l) for l in errs):
        return False
    return None


def run(res, prop, seed, tier, scratch, env, harness):
    r = random.Random(f"palmtree-{seed}-{prop}")
    n_probe, n_use, depth = (8000, 240, 3) if tier == "quick" else (150000, 4000, 5)
    cc = Rustc(scratch, env, harness)
    t0 = time.time()
    cases, seen = [], set()
    base = [(a[0], (), bool(a[1])) for a in ATOMS]
    while len(cases) < n_probe:
        i = len(cases)
        if i < 3 * len(base):  # every part on its own, with each kind
            k, v = (base[i // 3], ("u8", (), True)) if r.random() < 0.5 else (("u8", (), True), base[i // 3])
            kind = list(KINDS)[i % 3]
        else:
            k, v = gen_type(r, r.randint(0, depth)), gen_type(r, r.randint(0, depth))
            kind = r.choice(["unique", "unique", "thread-shared", "thread-shared", "shared"])
        cases.append((k, v, kind, r.choice(KINDS[kind][0])))
    chunk = 100
    parts = [list(enumerate(cases))[i:i + chunk] for i in range(0, len(cases), chunk)]

    def one(j):
        src = PRELUDE + PROBE + "\n".join(probe_case(n, *c) for n, c in parts[j]) + "\nfn main() {}\n"
        return cc.check(src, f"probe{j}")
    bad = {}
    sent = {"probes": 0}
    with concurrent.futures.ThreadPoolExecutor(8) as ex:
        for j, (rc, err) in zip(range(len(parts)), ex.map(one, range(len(parts)))):
            res.evaluations += len(parts[j])
            if rc == 0:
                continue
            found = re.findall(r"case (\d+) ([A-Za-z ]+)", err)
            other = [l for l in err.splitlines() if "error[" in l and "E0080" not in l]
            if not found or other:
                res.error = "the compiler rejected the probes for another reason: " + err[-1500:]
                return
            for n, code in found:
                bad.setdefault(int(n), code.strip())
    for k, v, kind, cfg in cases:
        nontrivial = bool(k[1] or v[1]) or show(k) not in ("u8",) or show(v) not in ("u8",)
        if nontrivial:
            seen.add(f"{show(k)}|{show(v)}|{cfg}")
        res.classes["probes, " + kind] = res.classes.get("probes, " + kind, 0) + 1
    for k, v, kind, cfg in cases[200:203]:
        res.samples.append({"key": show(k), "value": show(v), "tree": cfg, "counterpart": KINDS[kind][1]})
    if bad:
        n = min(bad)
        k, v, kind, cfg = cases[n]
        code = bad[n]

        def fails(k, v):
            rc, err = cc.check(PRELUDE + PROBE + probe_case(0, k, v, kind, cfg) + "\nfn main() {}\n", "shrink")
            m = re.search(r"case 0 ([A-Za-z ]+)", err)
            return m.group(1).strip() if rc != 0 and m else None
        code, k, v = shrink(fails, code, k, v)
        src = PRELUDE + PROBE + probe_case(0, k, v, kind, cfg) + "\nfn main() {}\n"
        res.program_failure = dict(
            message=f"{code}: a {kind} tree of keys {show(k)} and values {show(v)} ({cfg}) and {KINDS[kind][1]} of the same differ",
            key=show(k), value=show(v), tree=cfg, counterpart=KINDS[kind][1], program=src, expect="compiles")
        res.hashes |= {int(hashlib.sha256(s.encode()).hexdigest()[:15], 16) for s in seen}
        return
    # Whole programs.
    progs = []
    bounds = ["", " + Send", " + Sync", " + Send + Sync"]
    for i in range(n_use):
        kind = r.choice(["unique", "unique", "thread-shared", "thread-shared", "shared"])
        cfg = r.choice(KINDS[kind][0])
        use = r.randrange(len(USES))
        generic = (r.choice(bounds), r.choice(bounds)) if i % 3 == 0 else None
        tame = r.random() < 0.6
        k, v = (gen_type(r, 1, tame), gen_type(r, 1, tame))
        progs.append((use, kind, cfg, generic, k, v))

    def two(j):
        use, kind, cfg, generic, k, v = progs[j]
        a, b = use_program(use, f"PalmTree<K, V, {cfg}>", KINDS[kind][1] if kind != "shared" else "Rc<(K, V)>", k, v, generic)
        ra, rb = cc.check(a, f"use{j}a"), cc.check(b, f"use{j}b")
        return a, b, verdict(*ra), verdict(*rb), ra[1], rb[1]
    with concurrent.futures.ThreadPoolExecutor(8) as ex:
        for j, (a, b, va, vb, ea, eb) in zip(range(len(progs)), ex.map(two, range(len(progs)))):
            res.evaluations += 1
            use, kind, cfg, generic, k, v = progs[j]
            if va is None or vb is None:
                res.error = "the compiler rejected a program for another reason: " + (ea if va is None else eb)[-1500:] + (a if va is None else b)[len(PRELUDE):]
                return
            seen.add(f"{use}{cfg}{generic}{show(k)}|{show(v)}")
            for c in ("programs, " + kind, "programs that compile" if vb else "programs that do not compile"):
                res.classes[c] = res.classes.get(c, 0) + 1
            if va != vb and not getattr(res, "program_failure", None):
                res.program_failure = dict(
                    message=f"a {kind} tree {USES[use][0]}: the program {'compiles' if va else 'does not compile'} with the tree and "
                            f"{'does' if vb else 'does not'} with the standard map: {a[len(PRELUDE):]} {ea[-600:]}",
                    program=a, expect="compiles" if vb else "rejected")
    res.counters["probes"] = len(cases)
    res.counters["program pairs"] = len(progs)
    res.hashes |= {int(hashlib.sha256(s.encode()).hexdigest()[:15], 16) for s in seen}


def shrink(fails, code, k, v):
    t0, go = time.time(), True
    while go and time.time() - t0 < 60:
        go = False
        for k2, v2 in [(q, v) for q in smaller(k)] + [(k, q) for q in smaller(v)]:
            if (k2, v2) == (k, v):
                continue
            c = fails(k2, v2)
            if c:
                code, k, v, go = c, k2, v2, True
                break
    return code, k, v


def replay(rep, scratch, env, harness):
    cc = Rustc(scratch, env, harness)
    rc, err = cc.check(rep["program"], "replay")
    got = rc == 0
    if got == (rep["expect"] == "compiles"):
        print("holds")
        return 0
    print("fails:", rep["message"], err[-1500:])
    return 1
