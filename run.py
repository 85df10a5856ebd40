#!/usr/bin/env python3
"""Check one property of siamesedb: build from /repo, search with generated cases, shrink, report.

usage: run.py PROPERTY [--tier quick|thorough] [--seed N]
       run.py --build            build every binary
       run.py --replay FILE      replay a case on the builds it failed on
exit 0: held on everything explored; 1: VIOLATION line; 2: no answer
"""
import fcntl, hashlib, json, os, pathlib, shutil, signal, subprocess, sys, time

VERIF = pathlib.Path(__file__).resolve().parent
REPO = pathlib.Path("/repo")
HARNESS = VERIF / "harness"
BUILD = VERIF / "build"
TARGET = "x86_64-unknown-linux-gnu"

# name -> (toolchain, cargo arguments, RUSTFLAGS, path of the binary)
BUILDS = {
    "base": ([], ["--release"], "", "release"),
    "small": ([], ["--release", "--features", "small"], "", "release"),
    # what a user's release build is: without debug assertions and overflow checks
    "rel": ([], ["--profile", "plain"], "", "plain"),
    "rel-small": ([], ["--profile", "plain", "--features", "small"], "", "plain"),
    "asan": (["+nightly"], ["--profile", "plain", "--features", "asan", "--target", TARGET],
             "-Zsanitizer=address -Zub-checks=yes", TARGET + "/plain"),
    "asan-small": (["+nightly"], ["--profile", "plain", "--features", "asan,small", "--target", TARGET],
                   "-Zsanitizer=address -Zub-checks=yes", TARGET + "/plain"),
}
# other configurations of the library (C19): name -> (features of the harness, features of the library)
D = "vf_u64u64,node_cache,buf_default,vf_node_u64,idx_straight,idx_find_uu,htx"
CONFIGS = {
    "nohtx": ("small,nohtx", "vf_u64u64,node_cache,buf_default,vf_node_u64,idx_straight,idx_find_uu"),
    "nocache": ("small", "vf_u64u64,buf_default,vf_node_u64,idx_straight,idx_find_uu,htx"),
    "plain": ("", "vf_u64u64,node_cache,buf_default,htx"),
    "vu64": ("nofsck", "vf_vu64,node_cache,buf_default,htx"),
    "vu64-32": ("small,nofsck,nohtx", "vf_vu64,vf_node_u32,node_cache,buf_default,idx_find_uu"),
    "vu64-short": ("nofsck", "vf_vu64,node_cache,buf_default,htx,tr_has_short_key"),
    "short": ("small,nofsck", D + ",tr_has_short_key"),
    "large": ("", D + ",nc_large,print_hits"),
    "lru": ("small", D + ",nc_lru"),
    "lfu": ("small", D + ",nc_lfu,siamese_debug,buf_debug"),
    "buflru": ("small", "vf_u64u64,node_cache,buf_auto_buf_size,buf_overf_rem_half,buf_pin_zero,buf_lru,vf_node_u64,idx_straight,htx"),
}
for _n, (_h, _l) in CONFIGS.items():
    _f = ["config"] + [x for x in _h.split(",") if x] + ["siamesedb/" + x for x in _l.split(",")]
    BUILDS["cfg-" + _n] = ([], ["--release", "--no-default-features", "--features", ",".join(_f)], "", "release")
# cases per worker in the quick tier: (base, small); the thorough tier does THOROUGH times as many longer ones
QUICK = {
    "C01": (1200, 1400), "C02": (1800, 2400), "C03": (1200, 2000), "C04": (900, 1300), "C05": (600, 1800),
    "C06": (1800, 2200), "C07": (2000, 2200), "C08": (450, 700), "C09": (2400, 2600), "C10": (2200, 2800),
    "C11": (800, 1200), "C12": (1100, 1400), "C13": (2400, 2400), "C14": (750, 1100), "C15": (750, 1500),
    "C16": (800, 1100), "C17": (1200, 1200), "C18": (5000, 5000), "C20": (1800, 2800), "C21": (1000, 1200),
    "C19": (350, 350), "C22": (1500, 2000), "C23": (110, 180),
}
ASAN_CASES = 220
THOROUGH = 12
CAP_QUICK = 300      # seconds; only reached on a machine much slower than the one this was made for
CAP_THOROUGH = 3000
LEVEL = {}


def tree_hash():
    h = hashlib.sha256()
    files = []
    for base, names in ((REPO, ["src", "Cargo.toml", "build.rs", "README.md"]), (HARNESS, ["src", "Cargo.toml", "Cargo.lock"])):
        for n in names:
            p = base / n
            if p.is_file():
                files.append(p)
            elif p.is_dir():
                files += [q for q in p.rglob("*") if q.is_file()]
    for p in sorted(files):
        h.update(str(p).encode() + b"\0" + hashlib.sha256(p.read_bytes()).digest())
    return h.hexdigest()


def build(names):
    """Build what is needed from the current tree. Contents decide what is rebuilt, not time stamps."""
    BUILD.mkdir(exist_ok=True)
    with open(BUILD / ".lock", "w") as lock:
        fcntl.flock(lock, fcntl.LOCK_EX)
        want = tree_hash()
        procs = []
        bad = []
        for n in names:
            tc, args, flags, sub = BUILDS[n]
            tdir = BUILD / n
            stamp = tdir / "stamp"
            exe = tdir / sub / "sdbcheck"
            if exe.exists() and stamp.exists() and stamp.read_text() == want:
                continue
            if stamp.exists():
                stamp.unlink()
            env = dict(os.environ, RUSTFLAGS=flags, CARGO_NET_OFFLINE="true")
            env.pop("CARGO_TARGET_DIR", None)
            if tdir.exists():
                prof = [a for a in args if a.startswith("--target") or a == TARGET]
                for pkg in ("siamesedb", "sdbcheck"):
                    subprocess.run(["cargo", *tc, "clean", "--offline", "-p", pkg, "--target-dir", str(tdir),
                                    *(["--release"] if "--release" in args else ["--profile", "plain"]), *prof],
                                   cwd=HARNESS, env=env, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
            tdir.mkdir(exist_ok=True)
            log = open(tdir / "build.log", "w")
            p = subprocess.Popen(["cargo", *tc, "build", "--offline", "--locked", *args, "--target-dir", str(tdir)],
                                 cwd=HARNESS, env=env, stdout=log, stderr=subprocess.STDOUT)
            procs.append((n, p, stamp, exe, tdir))
        for n, p, stamp, exe, tdir in procs:
            if p.wait() != 0 or not exe.exists():
                bad.append(n)
                sys.stderr.write((tdir / "build.log").read_text()[-4000:])
            else:
                stamp.write_text(want)
        if bad:
            print("cannot build: " + ", ".join(bad))
            # the default build has to be there; another configuration that does not compile is left out
            if "base" in bad or len(bad) == len(names):
                sys.exit(2)
    return {n: str(BUILD / n / BUILDS[n][3] / "sdbcheck") for n in names if n not in bad}


def plan(prop, tier):
    """[(build, shard, cases)]"""
    b, s = QUICK[prop]
    f = THOROUGH if tier == "thorough" else 1
    if prop == "C19":
        return [("cfg-" + n, i, b * f) for i, n in enumerate(CONFIGS)]
    if prop == "C17":
        a = ASAN_CASES * f
        return [("base", 0, b * f), ("small", 1, s * f)] + \
               [("asan", i, a) for i in (2, 3, 4)] + [("asan-small", i, a) for i in (5, 6, 7)]
    return [("base" if i < 3 else "rel", i, b * f) for i in range(4)] + \
           [("small" if i < 7 else "rel-small", i, s * f) for i in range(4, 8)]


def scratch_dirs(pids):
    for base in ("/dev/shm", "/tmp"):
        for pid in pids:
            for d in pathlib.Path(base).glob("sdbcheck.%d" % pid):
                shutil.rmtree(d, ignore_errors=True)


def run_tool(exe, args, timeout):
    p = subprocess.Popen([exe, *args], stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, text=True, start_new_session=True)
    try:
        out, _ = p.communicate(timeout=timeout)
        return p.returncode, out.strip()
    except subprocess.TimeoutExpired:
        os.killpg(p.pid, signal.SIGKILL)
        p.wait()
        return 2, "timeout"
    finally:
        scratch_dirs([p.pid])


def known():
    out = []
    f = VERIF / "known-findings.txt"
    if f.exists():
        for l in f.read_text().splitlines():
            l = l.strip()
            if l.startswith("open: property="):
                # open: property=<id> replay=<path> match=<text of the failure>|<what fails>
                head, what = l[len("open: "):].split("|", 1)
                d = dict(x.split("=", 1) for x in head.split(" ", 2))
                d["what"] = what.strip()
                out.append(d)
    return out


def report(prop, bname, exe, text, msg, t0):
    """Confirm in a fresh process, shrink, store the replay file. -> path or None"""
    d = VERIF / "replays"
    d.mkdir(exist_ok=True)
    h = hashlib.sha256(text.encode()).hexdigest()[:10]
    raw = d / ("%s-%s.raw" % (prop, h))
    raw.write_text("# build %s\n%s" % (bname, text))
    again = None
    for _ in range(3):
        rc, out = run_tool(exe, ["replay", str(raw)], 250)
        if rc == 1:
            again = out
            break
    if again is None:
        print("not reproduced in a fresh process, ignored: %s" % msg)
        return None
    out = d / ("%s-%s.case" % (prop, h))
    budget = max(10, min(90, int(700 - (time.time() - t0))))
    if "HANG" in msg:
        budget = min(budget, 90)
    run_tool(exe, ["shrink", str(raw), str(out), "--budget", str(budget)], budget + 130)
    final = again
    if out.exists() and out.stat().st_size > 0:
        body = out.read_text()
        out.write_text("# build %s\n%s" % (bname, body))
        rc, o = run_tool(exe, ["replay", str(out)], 250)
        if rc != 1:
            shutil.copy(raw, out)
        else:
            final = o
    else:
        shutil.copy(raw, out)
    raw.unlink()
    print(final)
    return out


def main():
    a = sys.argv[1:]
    if a and a[0] == "--build":
        build(list(BUILDS))
        return 0
    if a and a[0] == "--replay":
        text = pathlib.Path(a[1]).read_text()
        names = [l.split()[2] for l in text.splitlines() if l.startswith("# build ")] or ["base", "small"]
        exes = build(names)
        rc = 0
        for n in exes:
            r, o = run_tool(exes[n], ["replay", a[1]], 400)
            print(n, o)
            rc = max(rc, r)
        return rc
    prop = a[0]
    tier = os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    if "--tier" in a:
        tier = a[a.index("--tier") + 1]
    if "--seed" in a:
        seed = int(a[a.index("--seed") + 1])
    t0 = time.time()
    work = plan(prop, tier)
    names = list(dict.fromkeys(w[0] for w in work))
    exes = build(names)
    work = [w for w in work if w[0] in exes]
    names = [n for n in names if n in exes]
    tb = time.time()
    cap = CAP_THOROUGH if tier == "thorough" else CAP_QUICK
    tmp = pathlib.Path("/tmp/sdbrun.%d" % os.getpid())
    tmp.mkdir(parents=True, exist_ok=True)
    failures = []  # (build, case text, message)
    unanswered = []

    # failures of the past, on every build
    nreg = 0
    for f in sorted((VERIF / "regress").glob(prop + "-*.case")):
        for n in names:
            rc, o = run_tool(exes[n], ["replay", str(f)], 250)
            nreg += 1
            if rc == 1:
                failures.append((n, f.read_text(), o))
            elif rc != 0:
                unanswered.append("%s: %s" % (f.name, o))

    outs = []
    if not failures:
        procs = []
        for b, shard, cases in work:
            out = tmp / ("w%d.json" % shard)
            p = subprocess.Popen([exes[b], "worker", "--prop", prop, "--tier", tier, "--seed", str(seed), "--shard", str(shard),
                                  "--cases", str(cases), "--cap", str(cap), "--out", str(out)],
                                 stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL, start_new_session=True)
            procs.append((b, shard, p, out))
        live = list(procs)
        stop = False
        deadline = time.time() + cap + 120
        while live and not stop:
            time.sleep(0.1)
            for x in list(live):
                b, shard, p, out = x
                if p.poll() is None:
                    continue
                live.remove(x)
                try:
                    d = json.loads(out.read_text())
                except Exception:
                    unanswered.append("worker %d (%s) ended with %s and no result" % (shard, b, p.returncode))
                    continue
                d["build"] = b
                outs.append(d)
                if "fail" in d:
                    failures.append((b, d["case"], d["fail"]))
                    stop = True
                elif "harness" in d:
                    unanswered.append("worker %d (%s): %s" % (shard, b, d["harness"]))
            if time.time() > deadline:
                unanswered.append("workers did not end")
                stop = True
        for b, shard, p, out in procs:
            if p.poll() is None:
                try:
                    os.killpg(p.pid, signal.SIGKILL)
                except ProcessLookupError:
                    pass
                p.wait()
        scratch_dirs([p.pid for _, _, p, _ in procs])

    violations = []
    for b, text, msg in failures[:3]:
        k = [f for f in known() if f["property"] == prop and f.get("match") and f["match"] in msg]
        if k:
            continue
        path = report(prop, b, exes[b], text, msg, t0)
        if path:
            violations.append((path, msg))
            break
    for f in known():
        if f["property"] == prop:
            print("KNOWN-FINDING: property=%s %s" % (prop, f["what"]))

    totals = {}
    hashes = set()
    samples = []
    per = {}
    ev = 0
    planned = 0
    rule = ""
    slow = 0
    withc = {}
    for d in outs:
        ev += d["cases"]
        planned += d["planned"]
        rule = d["rule"]
        slow = max(slow, d["slowest_ms"])
        hashes.update((d["build"] if prop == "C19" else d["build"].endswith("small"), h) for h in d["hashes"])
        per[d["build"]] = per.get(d["build"], 0) + d["cases"]
        for k, v in d["totals"].items():
            totals[k] = totals.get(k, 0) + v
        for k, v in d["with"].items():
            withc[k] = withc.get(k, 0) + v
        if len(samples) < 4:
            samples += d["samples"][:1]
    ev += nreg
    evd = {
        "property": prop,
        "tier": tier if tier in ("quick", "thorough") else "quick",
        "seed": seed,
        "level": LEVEL.get(prop, "exploration"),
        "coverage": {
            "evaluations": ev,
            "distinct_nontrivial": len(hashes),
            "rule": "every case is a generated configuration and operation history run in a process of its own; "
                    "non-trivial: " + rule + "; distinct by the text of the case and the " + ("configuration" if prop == "C19" else "branching factor"),
            "samples": samples,
            "cases_planned": planned + nreg,
            "cases_per_build": per,
            "regression_replays": nreg,
            "events": totals,
            "cases_with_event": withc,
            "slowest_case_ms": slow,
            "build_s": round(tb - t0, 1),
            "unanswered": unanswered,
        },
        "assumptions": [
            "the file system keeps what write, ftruncate and fsync were given",
            "one process uses a database at a time",
        ],
        "wall_s": round(time.time() - t0, 2),
        "violations": len(violations),
    }
    (VERIF / "evidence").mkdir(exist_ok=True)
    (VERIF / "evidence" / (prop + ".json")).write_text(json.dumps(evd, indent=1))
    shutil.rmtree(tmp, ignore_errors=True)
    for path, msg in violations:
        print("VIOLATION property=%s replay=%s" % (prop, path))
    print("%s: %d cases, %d distinct non-trivial, %.1f s" % (prop, ev, len(hashes), time.time() - t0))
    if violations:
        return 1
    if unanswered:
        for u in unanswered:
            print("no answer: " + u)
        return 2
    return 0


if __name__ == "__main__":
    sys.exit(main())
