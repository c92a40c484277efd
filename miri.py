#!/usr/bin/env python3
"""Runs generated cases in the Miri interpreter, which stops at any use of memory that is out of bounds, uninitialised,
freed, misaligned or of the wrong type, and at data races.

  miri.py BIN SEED FILE    judge the cases of FILE: exit 0 (hold), 1 (fail), 2 (nothing can be said)

Cases are generated and first run natively, and only those that take a limited number of edges are interpreted. The crate
is built without its build script, which asks for compiler features that have since changed on nightly compilers; the
sources are those of /repo.
"""
import concurrent.futures, hashlib, json, os, re, subprocess, sys, tempfile, time
import tomllib

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = "/repo"
TARGET = os.path.join(HERE, "miri", "target")
SHIM = os.path.join(TARGET, "ws", "palmtree")
WS = os.path.join(TARGET, "ws", "harness")


class Missing(Exception):
    pass


def toml(v):
    if isinstance(v, dict):
        return "{ " + ", ".join(f"{json.dumps(k)} = {toml(x)}" for k, x in v.items()) + " }"
    if isinstance(v, list):
        return "[" + ", ".join(toml(x) for x in v) + "]"
    return json.dumps(v)


def put(path, text):
    os.makedirs(os.path.dirname(path), exist_ok=True)
    if not os.path.exists(path) or open(path).read() != text:
        with open(path, "w") as f:
            f.write(text)


def workspace():
    """A manifest for the crate of /repo without its build script, and one for the harness on top of it."""
    m = tomllib.load(open(os.path.join(REPO, "Cargo.toml"), "rb"))
    p = m["package"]
    lib = dict(m.get("lib", {}))
    lib["path"] = os.path.join(REPO, lib.get("path", "src/lib.rs"))
    out = ["[package]", 'name = "palmtree"', f'version = {toml(p["version"])}', f'edition = {toml(p.get("edition", "2015"))}',
           "[lib]"] + [f"{k} = {toml(v)}" for k, v in lib.items()] + ["[workspace]", "[features]"]
    out += [f"{json.dumps(k)} = {toml(v)}" for k, v in m.get("features", {}).items()]
    out += ["[dependencies]"] + [f"{json.dumps(k)} = {toml(v)}" for k, v in m.get("dependencies", {}).items()]
    put(os.path.join(SHIM, "Cargo.toml"), "\n".join(out) + "\n")
    h = tomllib.load(open(os.path.join(HERE, "harness", "Cargo.toml"), "rb"))
    deps = dict(h["dependencies"], palmtree={"path": "../palmtree"})
    src = os.path.join(HERE, "harness", "src")
    out = ["[package]", 'name = "palmtree-verif"', 'version = "0.0.0"', f'edition = {toml(h["package"]["edition"])}', "publish = false",
           "build = false", "[workspace]", "[lib]", f'path = {toml(os.path.join(src, "lib.rs"))}', "[dependencies]"]
    out += [f"{k} = {toml(v)}" for k, v in deps.items()]
    for b in sorted(os.listdir(os.path.join(src, "bin"))):
        out += ["[[bin]]", f"name = {toml(b[:-3])}", f'path = {toml(os.path.join(src, "bin", b))}']
    put(os.path.join(WS, "Cargo.toml"), "\n".join(out) + "\n")
    lock = os.path.join(WS, "Cargo.lock")
    if not os.path.exists(lock):
        put(lock, open(os.path.join(HERE, "harness", "Cargo.lock")).read())


def command(name, seed, args):
    env = {k: v for k, v in os.environ.items() if not k.startswith(("RUSTFLAGS", "CARGO_ENCODED", "CARGO_BUILD", "RUST_BACKTRACE", "RUSTC"))}
    env.update(CARGO_NET_OFFLINE="true", CARGO_TARGET_DIR=TARGET, RUSTFLAGS="-Awarnings", RUST_BACKTRACE="0",
               MIRIFLAGS=f"-Zmiri-disable-isolation -Zmiri-disable-stacked-borrows -Zmiri-seed={seed}")
    return dict(args=["cargo", "+nightly", "miri", "run", "-q", "--offline", "--bin", name, "--"] + args, cwd=WS, env=env)


def build(names):
    try:
        workspace()
        stamp = hash_tree()
        sfile = os.path.join(TARGET, "repo-stamp")
        if os.path.exists(sfile) and open(sfile).read() != stamp:
            # Cargo goes by time stamps; contents are what counts.
            c = command("x", 0, [])
            subprocess.run(["cargo", "+nightly", "clean", "-q", "--offline", "-p", "palmtree", "--target", "x86_64-unknown-linux-gnu"],
                           cwd=WS, env=c["env"], stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
        for n in names:
            c = command(n, 0, ["no-such-mode"])
            p = subprocess.run(c["args"], cwd=c["cwd"], env=c["env"], capture_output=True, text=True, timeout=600)
            if "modes: " not in p.stderr:
                raise Missing("the interpreter cannot be used: " + p.stderr.strip()[-3000:])
        put(sfile, stamp)
    except (OSError, subprocess.SubprocessError, KeyError, ValueError) as e:
        raise Missing(f"the interpreter cannot be used: {e!r}")


def hash_tree():
    h = hashlib.sha256()
    for root, dirs, files in os.walk(os.path.join(REPO, "src")):
        dirs.sort()
        for f in sorted(files):
            p = os.path.join(root, f)
            h.update(p.encode())
            h.update(open(p, "rb").read())
    return h.hexdigest()


def verdict(code, err):
    """(holds | fails | unknown, case number, message)"""
    cases = re.findall(r"^CASE (\d+)$", err, re.M)
    at = int(cases[-1]) if cases else None
    m = re.search(r"^FAILED (.*)", err, re.M | re.S)
    if m:
        return "fails", at, m.group(1).strip()[:2000]
    if code == 0:
        return "holds", at, ""
    m = re.search(r"^error: (.*)", err, re.M)
    what = m.group(1) if m else err.strip()[-500:]
    rest = err[m.start():] if m else ""
    frames = [l.strip() for l in rest.splitlines() if re.match(r"\s+(\d+: |at /|-->)", l)][:14]
    text = "\n".join([what] + frames)
    if at is not None and re.match(r"Undefined Behavior|abnormal termination|the evaluated program (aborted|deadlocked)|deadlock", what):
        return "fails", at, text
    return "unknown", at, text


def interpret(name, seed, path, wall):
    c = command(name, seed, ["list", "--file", path, "--wall", str(int(wall))])
    try:
        p = subprocess.run(c["args"], cwd=c["cwd"], env=c["env"], capture_output=True, text=True, errors="replace", timeout=wall + 120)
    except subprocess.TimeoutExpired as e:
        err = (e.stderr or b"").decode(errors="replace")
        return ("unknown", None, "stopped by time limit"), err.count("\nDONE ")
    return verdict(p.returncode, p.stderr), len(re.findall(r"^DONE ", p.stderr, re.M))


def lines_of(f):
    return open(f).read().splitlines() if os.path.exists(f) else []


def pick(native, seed, tier, frm, to, step, want, out):
    """Have the native build choose cases; one that ends the process is passed over, for other stages to judge."""
    end = time.time() + 60
    while frm < to and time.time() < end and len(lines_of(out)) < want:
        p = subprocess.run([native, "pick", "--seed", str(seed), "--tier", tier, "--from", str(frm), "--to", str(to), "--step", str(step),
                            "--want", str(want - len(lines_of(out))), "--min-edges", "0",
                            "--max-edges", "40000" if tier == "thorough" else "14000", "--wall", str(max(1, int(end - time.time()))),
                            "--progress", out + ".at", "--out", out], stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
        if p.returncode == 0 or not os.path.exists(out + ".at"):
            return
        frm = int(open(out + ".at").read()) + step


def run(res, name, native, seed, tier, first, count, wall, scratch, jobs, required):
    """Interpret up to `count` cases, each of `jobs` processes under a schedule of its own."""
    t0 = time.time()
    info = res.interpreted = {"cases": 0, "of": 0, "seeds": []}
    try:
        build([name])
    except Missing as e:
        info["not_run"] = str(e)[-2000:]
        if required:
            res.error = str(e)
        return
    per = (count + jobs - 1) // jobs
    picked = [os.path.join(scratch, f"miri-{j}") for j in range(jobs)]
    with concurrent.futures.ThreadPoolExecutor(jobs) as ex:
        list(ex.map(lambda a: pick(native, seed, tier, first + a[0], first + 1000 * count, jobs, per, a[1]), enumerate(picked)))
    info["picked_s"] = round(time.time() - t0, 1)
    todo = [f for f in picked if os.path.exists(f) and os.path.getsize(f)]
    info["of"] = sum(len(lines_of(f)) for f in todo)
    left = max(10, wall - (time.time() - t0))
    with concurrent.futures.ThreadPoolExecutor(jobs) as ex:
        seeds = [(seed * 7919 + j) % 1_000_000 for j in range(len(todo))]
        outs = list(ex.map(lambda a: interpret(name, a[1], a[0], left), zip(todo, seeds)))
    info["seeds"] = seeds
    notes = []
    for (f, s), ((v, at, msg), done) in zip(zip(todo, seeds), outs):
        info["cases"] += done
        for l in lines_of(f)[:done]:
            res.hashes.add(int.from_bytes(hashlib.sha256(l.split(" ", 2)[2].encode()).digest()[:8], "little"))
        if v == "fails" and not res.failure:
            res.failure = ("miri", at, at, 1, msg)
            res.miri_seed = s
        elif v == "unknown":
            notes.append(msg[:300])
    res.evaluations += info["cases"]
    info["wall_s"] = round(time.time() - t0, 1)
    if notes:
        info["inconclusive"] = notes
    if required and not res.failure and info["cases"] == 0:
        res.error = "no case could be interpreted: " + "; ".join(notes)[:2000]


def replay(r, name):
    try:
        build([name])
    except Missing as e:
        print(e)
        return 2
    with tempfile.NamedTemporaryFile("w", suffix=".case", delete=False) as f:
        for i, c in enumerate(r["cases"]):
            f.write(f"{i} 0 {json.dumps(c)}\n")
    try:
        for seed in range(8):
            (v, _, msg), _ = interpret(name, seed, f.name, 300)
            if v != "holds":
                print(f"{v}: {msg}")
                return 1 if v == "fails" else 2
        print("holds")
        return 0
    finally:
        os.remove(f.name)


if __name__ == "__main__":
    (v, _, msg), _ = interpret(sys.argv[1], int(sys.argv[2]), sys.argv[3], 60)
    print(msg)
    sys.exit({"holds": 0, "fails": 1}.get(v, 2))
