#!/usr/bin/env python3
"""Driver of the palmtree checks.

  check.py C01                 run the check of a property (VERIF_SEED, VERIF_TIER from the environment)
  check.py replay FILE         run a recorded failing case again
  check.py setup               try the tools: build one harness

Exit 0: held on everything explored; 1: violation (with a VIOLATION line); 2: no answer.
"""
import hashlib, json, os, re, shutil, signal, struct, subprocess, sys, tempfile, time

HERE = os.path.dirname(os.path.abspath(__file__))
HARNESS = os.path.join(HERE, "harness")
REPO = "/repo"
TRIPLE = "x86_64-unknown-linux-gnu"
JOBS = max(1, min(8, os.cpu_count() or 1))
sys.path.insert(0, HERE)
from checks import CHECKS  # noqa: E402
import borrows  # noqa: E402
import capacities  # noqa: E402
import miri  # noqa: E402
import sendsync  # noqa: E402
compilers = {"types": sendsync, "borrows": borrows, "capacities": capacities}


def log(*a):
    print(*a, flush=True)


def target_dir(profile):
    return os.path.join(HARNESS, "target", profile) if profile in ("asan", "feat") else os.path.join(HARNESS, "target")


def cargo_profile(profile):
    """Profile "asan" is "dbg" under AddressSanitizer, "feat" is "dbg" with all features of the crate, "hunt" is "dbg" searching."""
    return "dbg" if profile in ("asan", "feat", "hunt") else profile


def bin_path(name, profile):
    return os.path.join(target_dir(profile), TRIPLE, cargo_profile(profile), name)


def repo_stamp():
    h = hashlib.sha256()
    for root, dirs, files in os.walk(REPO):
        dirs[:] = sorted(d for d in dirs if d not in (".git", "target"))
        for f in sorted(files):
            if f.endswith((".rs", ".toml")):
                p = os.path.join(root, f)
                h.update(p.encode())
                h.update(open(p, "rb").read())
    return h.hexdigest()


def env_for(profile):
    env = dict(os.environ)
    for k in ("RUSTFLAGS", "CARGO_TARGET_DIR", "CARGO_BUILD_TARGET", "CARGO_ENCODED_RUSTFLAGS", "RUST_BACKTRACE"):
        env.pop(k, None)
    env["CARGO_NET_OFFLINE"] = "true"
    env["CARGO_TARGET_DIR"] = target_dir(profile)
    if profile == "asan":
        env["RUSTC_BOOTSTRAP"] = "1"
        env["CARGO_ENCODED_RUSTFLAGS"] = "\x1f".join([
            "-Zsanitizer=address", "--cfg=vt_asan",
            "-Cpasses=sancov-module", "-Cllvm-args=-sanitizer-coverage-level=3",
            "-Cllvm-args=-sanitizer-coverage-trace-pc-guard"])
    return env


def build(names, profiles):
    """Build binaries from the current tree; False and the compiler's words if that fails."""
    stamp = repo_stamp()
    jobs = []
    for prof in profiles:
        tdir = target_dir(prof)
        os.makedirs(tdir, exist_ok=True)
        sfile = os.path.join(tdir, "repo-stamp-" + prof)
        cargo_prof = cargo_profile(prof)
        env = env_for(prof)
        old = open(sfile).read() if os.path.exists(sfile) else None
        if old is not None and old != stamp:
            # Cargo goes by time stamps; contents are what counts.
            subprocess.run(["cargo", "clean", "-q", "-p", "palmtree", "--profile", cargo_prof, "--target", TRIPLE],
                           cwd=HARNESS, env=env, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
        cmd = ["cargo", "build", "-q", "--offline", "--locked", "--profile", cargo_prof]
        if prof == "feat":
            cmd += ["--features", "crate_features"]
        for n in names:
            cmd += ["--bin", n]
        out = tempfile.TemporaryFile()
        jobs.append((prof, sfile, out, subprocess.Popen(cmd, cwd=HARNESS, env=env, stdout=out, stderr=out)))
    ok, text = True, ""
    for prof, sfile, out, p in jobs:
        if p.wait() != 0:
            ok = False
            out.seek(0)
            text += "\n".join(l for l in out.read().decode(errors="replace").splitlines()[-60:])
        else:
            with open(sfile, "w") as f:
                f.write(stamp)
    return ok, text


class Result:
    def __init__(self):
        self.evaluations = 0
        self.hashes = set()
        self.classes = {}
        self.counters = {}
        self.maxima = {}
        self.samples = []
        self.inconclusive = 0
        self.edges = {}
        self.stopped_early = False
        self.failure = None  # (profile, index, from, step, message)
        self.program_failure = None  # what to write into the replay file
        self.error = None
        self.interpreted = None
        self.bred = None
        self.found = None  # the case a search ended with

    def merge(self, o, hashes, profile):
        self.evaluations += o["evaluations"]
        self.hashes |= hashes
        for k, v in o["classes"].items():
            self.classes[k] = self.classes.get(k, 0) + v
        for k, v in o["counters"].items():
            self.counters[k] = self.counters.get(k, 0) + v
        for k, v in o["maxima"].items():
            self.maxima[k] = max(self.maxima.get(k, 0), v)
        self.samples += [s for s in o["samples"] if len(self.samples) < 6]
        e = self.edges.get(profile, (0, 0))
        self.edges[profile] = (max(e[0], o["edges_covered"]), o["edges_total"])
        self.stopped_early |= o["stopped_early"]


def run_cases(res, prop, name, profile, seed, tier, first, count, wall, scratch, fuel_is_violation, jobs=JOBS, extra_env=None):
    exe = bin_path(name, profile)
    fscale = "1"
    deadline = time.time() + wall
    env = dict(os.environ)
    env.update(extra_env or {})
    if profile == "asan":
        env["VT_NO_RLIMIT"] = "1"
        env["ASAN_OPTIONS"] = "detect_leaks=0:allocator_may_return_null=0:abort_on_error=1:handle_segv=1:quarantine_size_mb=32"
    workers = {}

    def start(shard, frm):
        tag = os.path.join(scratch, f"{profile}-{shard}-{frm}")
        err = open(tag + ".err", "wb")
        cmd = [exe, "work", "--seed", str(seed), "--tier", tier, "--from", str(frm), "--to", str(first + count),
               "--step", str(jobs), "--progress", tag + ".prog", "--out", tag + ".json", "--fuel-scale", fscale,
               "--wall", str(max(1, int(deadline - time.time())))]
        p = subprocess.Popen(cmd, stdout=err, stderr=err, env=env, start_new_session=True)
        workers[shard] = dict(p=p, tag=tag, frm=frm, last=None, since=time.time())

    def progress(w):
        try:
            return struct.unpack("<Q", open(w["tag"] + ".prog", "rb").read(8))[0]
        except (OSError, struct.error):
            return None

    def collect(w):
        try:
            o = json.load(open(w["tag"] + ".json"))
            b = open(w["tag"] + ".json.hashes", "rb").read()
        except (OSError, ValueError):
            return None
        res.merge(o, set(struct.unpack(f"<{len(b)//8}Q", b)), profile)
        return o

    def kill_all():
        for w in workers.values():
            try:
                os.killpg(w["p"].pid, signal.SIGKILL)
            except OSError:
                pass
            w["p"].wait()

    for s in range(jobs):
        start(s, first + s)
    while workers and not res.failure and not res.error:
        time.sleep(0.02)
        for s in list(workers):
            w = workers[s]
            rc = w["p"].poll()
            if rc is None:
                pr = progress(w)
                if pr != w["last"]:
                    w["last"], w["since"] = pr, time.time()
                elif time.time() - w["since"] > 200:
                    res.error = f"case {pr} has run for 200 s without a verdict"
                    break
                continue
            del workers[s]
            err = open(w["tag"] + ".err", "rb").read().decode(errors="replace")[-2000:]
            if rc == 0:
                if collect(w) is None:
                    res.error = "a worker left no result"
            elif rc == 1:
                o = collect(w)
                if not o or not o.get("failed"):
                    res.error = "a worker failed without saying why: " + err
                else:
                    res.failure = (profile, o["failed"][0], w["frm"], jobs, o["failed"][1])
            elif rc == 77 and not fuel_is_violation:
                idx = progress(w)
                res.inconclusive += 1
                res.evaluations += (idx - w["frm"]) // jobs + 1
                if idx + jobs < first + count:
                    start(s, idx + jobs)
            elif rc == 77 or rc in (-signal.SIGSEGV, -signal.SIGABRT, -signal.SIGBUS, -signal.SIGILL, -signal.SIGFPE, -signal.SIGTRAP):
                res.failure = (profile, progress(w), w["frm"], jobs, f"exit {rc}: {err}")
            else:
                res.error = f"worker ended with {rc}: {err}"
            if res.failure or res.error:
                break
    kill_all()


def run_hunt(res, prop, name, seed, tier, first, count, wall, scratch, fuel_is_violation, jobs):
    """The coverage-guided search: each process breeds cases of its own from those that ran something new."""
    deadline = time.time() + wall
    info = res.bred = {"cases": 0, "kept_for_new_coverage": 0}
    per = (count + jobs - 1) // jobs
    workers, serial = [], 0

    def start(left):
        nonlocal serial
        serial += 1
        tag = os.path.join(scratch, f"hunt-{serial}")
        err = open(tag + ".err", "wb")
        p = subprocess.Popen([bin_path(name, "hunt"), "hunt", "--seed", str(seed), "--tier", tier, "--from", str(first + serial),
                              "--count", str(left), "--progress", tag + ".prog", "--case", tag + ".case", "--out", tag + ".json",
                              "--wall", str(max(1, int(deadline - time.time())))], stdout=err, stderr=err, start_new_session=True)
        workers.append(dict(p=p, tag=tag, left=left, last=None, since=time.time()))

    def progress(w):
        try:
            return struct.unpack("<Q", open(w["tag"] + ".prog", "rb").read(8))[0]
        except (OSError, struct.error):
            return 0

    for _ in range(jobs):
        start(per)
    while workers and not res.failure and not res.error:
        time.sleep(0.02)
        for w in list(workers):
            rc, at = w["p"].poll(), progress(w)
            if rc is None:
                if at != w["last"]:
                    w["last"], w["since"] = at, time.time()
                elif time.time() - w["since"] > 200:
                    res.error = f"a bred case has run for 200 s without a verdict"
                    break
                continue
            workers.remove(w)
            err = open(w["tag"] + ".err", "rb").read().decode(errors="replace")[-2000:]
            if rc in (0, 1):
                try:
                    o = json.load(open(w["tag"] + ".json"))
                    b = open(w["tag"] + ".json.hashes", "rb").read()
                except (OSError, ValueError):
                    res.error = "a worker left no result: " + err
                    break
                res.merge(o, set(struct.unpack(f"<{len(b)//8}Q", b)), "hunt")
                info["cases"] += o["evaluations"]
                info["kept_for_new_coverage"] += o["kept"]
                message = o["failed"][1] if o.get("failed") else None
            elif rc == 77 and not fuel_is_violation:
                res.inconclusive += 1
                res.evaluations += at
                info["cases"] += at
                if at < w["left"] and time.time() < deadline:
                    start(w["left"] - at)
                message = None
            elif rc == 77 or rc in (-signal.SIGSEGV, -signal.SIGABRT, -signal.SIGBUS, -signal.SIGILL, -signal.SIGFPE, -signal.SIGTRAP):
                message = f"exit {rc}: {err}"
            else:
                res.error = f"worker ended with {rc}: {err}"
                break
            if message is not None:
                res.failure = ("hunt", f"{w['tag'].rsplit('-', 1)[1]}-{at}", first, jobs, message)
                res.found = os.path.join(scratch, "found.case")
                shutil.copy(w["tag"] + ".case", res.found)
                break
    for w in workers:
        try:
            os.killpg(w["p"].pid, signal.SIGKILL)
        except OSError:
            pass
        w["p"].wait()


def report_violation(prop, name, res, seed, tier):
    profile, index, frm, step, message = res.failure
    os.makedirs(os.path.join(HERE, "replays"), exist_ok=True)
    rep = os.path.join("replays", f"{prop}-{profile}-{seed}-{index}.json")
    path = os.path.join(HERE, rep)
    if os.path.exists(path):
        os.remove(path)
    log(f"case {index} ({profile}) failed: {message.strip()[:2000]}")
    env = dict(os.environ)
    exe, via = bin_path(name, profile), []
    if profile == "asan":
        env["VT_NO_RLIMIT"] = "1"
        env["ASAN_OPTIONS"] = "detect_leaks=0:abort_on_error=1"
    if profile == "miri":
        exe = bin_path(name, "dbg")
        via = ["--via", f"{sys.executable} {os.path.join(HERE, 'miri.py')} {name} {res.miri_seed}"]
    which = ["--case", res.found] if profile == "hunt" else ["--index", str(index), "--from", str(frm), "--step", str(step)]
    p = subprocess.run([exe, "shrink", "--seed", str(seed), "--tier", tier,
                        "--replay", path, "--profile", profile, "--wall", "60"] + which + via,
                       capture_output=True, text=True, env=env)
    if p.returncode == 0 and os.path.exists(path):
        log("minimal case: " + p.stdout.strip()[:2000])
    else:
        # A verdict that depends on the schedule or on addresses: keep the case as generated.
        if profile == "hunt":
            show = subprocess.run(["cat", res.found], capture_output=True, text=True)
        else:
            show = subprocess.run([exe, "show", "--seed", str(seed), "--tier", tier, "--index", str(index)],
                                  capture_output=True, text=True, env=env)
        with open(path, "w") as f:
            json.dump({"property": prop, "profile": profile, "message": message,
                       "cases": [json.loads(show.stdout)] if show.returncode == 0 else []}, f, indent=1)
        log("the case did not fail again when run alone: " + (p.stdout + p.stderr).strip()[:500])
    log(f"VIOLATION property={prop} replay={rep}")


def write_evidence(prop, chk, res, seed, tier, t0, violations, extra=None):
    cov = {
        "evaluations": res.evaluations,
        "distinct_nontrivial": len(res.hashes),
        "rule": chk["rule"],
        "samples": res.samples[:4],
        "case_classes": res.classes,
        "counters": res.counters,
        "maxima": res.maxima,
        "edges": {p: {"covered_by_best_worker": e[0], "instrumented": e[1]} for p, e in res.edges.items()},
    }
    if res.inconclusive:
        cov["inconclusive"] = res.inconclusive
    if res.stopped_early:
        cov["stopped_by_time_limit"] = True
    cov.update(extra or {})
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    ev = {"property": prop, "tier": tier, "seed": seed, "level": chk["level"], "coverage": cov,
          "assumptions": chk.get("assumptions", []), "wall_s": round(time.time() - t0, 2), "violations": violations}
    tmp = os.path.join(HERE, "evidence", f".{prop}.tmp")
    with open(tmp, "w") as f:
        json.dump(ev, f, indent=1)
    os.replace(tmp, os.path.join(HERE, "evidence", f"{prop}.json"))


def known_findings(prop):
    """Open findings of a property: lines 'open: property=<id> case=<file> <what fails>'. The file holds the failing case."""
    out = []
    p = os.path.join(HERE, "KNOWN_FINDINGS.txt")
    if os.path.exists(p):
        for l in open(p):
            if l.startswith("open:") and f"property={prop} " in l:
                out.append(l[5:].strip())
    return out


def run_check(prop):
    chk = CHECKS[prop]
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--tier" in sys.argv:
        tier = sys.argv[sys.argv.index("--tier") + 1]
    seed = int(os.environ.get("VERIF_SEED", "1") or "1")
    t0 = time.time()
    name = prop.lower()
    plan = chk.get("plan", {}).get(tier, [])
    profiles = ["dbg" if p in ("miri", "hunt") else p for p, _, _ in plan]
    ok, text = build([name], [p for p in dict.fromkeys(profiles) if p != "feat"]) if plan else (True, "")
    if not ok:
        log(text)
        log("the check could not be built")
        return 2
    ok, text = build([name], ["feat"]) if "feat" in profiles else (True, "")
    if not ok:
        message = "the crate builds as it is but not with all of its features:\n" + text[-2000:]
        rep = os.path.join("replays", f"{prop}-feat-build.json")
        os.makedirs(os.path.join(HERE, "replays"), exist_ok=True)
        with open(os.path.join(HERE, rep), "w") as f:
            json.dump({"property": prop, "profile": "feat", "message": message, "cases": []}, f, indent=1)
        write_evidence(prop, chk, Result(), seed, tier, t0, 1, {})
        log(message)
        log(f"VIOLATION property={prop} replay={rep}")
        return 1
    tb = time.time()
    for line in known_findings(prop):
        log("KNOWN-FINDING: " + line)
    scratch = tempfile.mkdtemp(prefix=f"palmtree-{prop}-")
    res = Result()
    extra = {"build_s": round(tb - t0, 2)}
    try:
        if chk.get("compiler"):
            try:
                compilers[chk["compiler"]].run(res, prop, seed, tier, scratch, env_for("dbg"), HARNESS)
            except (RuntimeError, subprocess.SubprocessError, OSError) as e:
                res.error = str(e)
            extra["compiler"] = subprocess.run(["rustc", "-V"], capture_output=True, text=True).stdout.strip()
            if res.program_failure and not res.error:
                rep = os.path.join("replays", f"{prop}-{seed}.json")
                os.makedirs(os.path.join(HERE, "replays"), exist_ok=True)
                with open(os.path.join(HERE, rep), "w") as f:
                    json.dump(dict({"property": prop, "profile": chk["compiler"]}, **res.program_failure), f, indent=1)
                write_evidence(prop, chk, res, seed, tier, t0, 1, extra)
                log(res.program_failure["message"])
                log(f"VIOLATION property={prop} replay={rep}")
                return 1
        first = 0
        for profile, count, wall in plan:
            if res.failure or res.error:
                break
            if profile == "miri":
                miri.run(res, name, bin_path(name, "dbg"), seed, tier, first, count, wall, scratch, JOBS, chk.get("miri_required", False))
                extra["interpreted"] = res.interpreted
                first += 1000 * count
                continue
            if profile == "hunt":
                run_hunt(res, prop, name, seed, tier, first, count, wall, scratch, chk.get("fuel_is_violation", True), chk.get("jobs", JOBS))
                extra["guided_search"] = res.bred
                first += count
                continue
            run_cases(res, prop, name, profile, seed, tier, first, count, wall, scratch,
                      chk.get("fuel_is_violation", True), chk.get("jobs", JOBS))
            first += count
        if res.error:
            log("no answer: " + res.error)
            write_evidence(prop, chk, res, seed, tier, t0, 0, dict(extra, error=res.error))
            return 2
        if res.failure:
            write_evidence(prop, chk, res, seed, tier, t0, 1, extra)
            report_violation(prop, name, res, seed, tier)
            return 1
        write_evidence(prop, chk, res, seed, tier, t0, 0, extra)
        log(f"{prop} held: {res.evaluations} cases, {len(res.hashes)} distinct non-trivial, "
            f"{time.time()-t0:.1f} s (build {tb-t0:.1f} s)")
        return 0
    finally:
        shutil.rmtree(scratch, ignore_errors=True)


def replay(path):
    r = json.load(open(path))
    if r["profile"] in compilers:
        scratch = tempfile.mkdtemp(prefix="palmtree-replay-")
        try:
            return compilers[r["profile"]].replay(r, scratch, env_for("dbg"), HARNESS)
        finally:
            shutil.rmtree(scratch, ignore_errors=True)
    name = r["property"].lower()
    if r["profile"] == "miri":
        return miri.replay(r, name)
    ok, text = build([name], ["dbg" if r["profile"] == "hunt" else r["profile"]])
    if not ok:
        log(text)
        return 1 if r["profile"] == "feat" and build([name], ["dbg"])[0] else 2
    if r["profile"] == "feat" and not r["cases"]:
        log("it builds with all features")
        return 0
    p = subprocess.run([bin_path(name, r["profile"]), "replay", "--file", os.path.abspath(path)])
    return p.returncode


def main():
    if len(sys.argv) < 2:
        print(__doc__)
        return 2
    a = sys.argv[1]
    if a == "replay":
        return replay(sys.argv[2])
    if a == "setup":
        # Every check builds what it needs from the tree it finds; this shows early that the tools are there.
        ok, text = build(["c08"], ["dbg"])
        if not ok:
            log(text)
        return 0
    return run_check(a)


if __name__ == "__main__":
    sys.exit(main())
