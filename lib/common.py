"""Building, running, known findings, evidence: shared by every check."""
import hashlib, json, os, shutil, subprocess, sys, tempfile, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = "/repo"
BUILD = os.path.join(VERIF, ".build")
TARGET = os.path.join(BUILD, "target")
ENV = dict(os.environ)


def _env():
    """The sandbox's build environment (what /opt/vp/build.sh uses)."""
    try:
        out = subprocess.run(["bash", "-c", ". /opt/vp/env.sh >/dev/null 2>&1; env -0"], capture_output=True).stdout
        for kv in out.split(b"\0"):
            if b"=" in kv:
                k, v = kv.split(b"=", 1)
                ENV[k.decode()] = v.decode(errors="replace")
    except OSError:
        pass
    ENV["CARGO_NET_OFFLINE"] = "true"
    ENV.pop("CARGO_TARGET_DIR", None)
    # The flags of a caller must not leak into the builds.
    ENV.pop("RUSTFLAGS", None)


_env()


def tree_hash(*dirs):
    h = hashlib.sha256()
    for d in dirs:
        if os.path.isfile(d):
            h.update(open(d, "rb").read())
            continue
        for base, ds, fs in os.walk(d):
            ds.sort()
            for f in sorted(fs):
                p = os.path.join(base, f)
                h.update(p.encode() + b"\0")
                h.update(open(p, "rb").read())
    return h.hexdigest()


class CheckError(Exception):
    """Something is wrong with the check itself, not with the property."""


def cargo(args, target=TARGET, extra_env=None, toolchain=None, timeout=1500):
    cmd = ["cargo"] + ([toolchain] if toolchain else []) + args
    env = dict(ENV, CARGO_TARGET_DIR=target)
    if extra_env:
        env.update(extra_env)
    p = subprocess.run(cmd, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout)
    if p.returncode != 0:
        sys.stderr.write(p.stdout.decode(errors="replace")[-4000:])
        raise CheckError("build failed: " + " ".join(cmd))


def _fresh(target, toolchain=None):
    """Cargo judges freshness by time stamps, which copies of the tree may not preserve: forget what was
    built from the sources when their content is not what was built."""
    want = tree_hash(REPO + "/src", REPO + "/Cargo.toml", VERIF + "/harness/src", VERIF + "/harness/Cargo.toml")
    stamp = os.path.join(target, "vp-content-hash")
    have = open(stamp).read() if os.path.exists(stamp) else None
    if have != want:
        if os.path.isdir(target):
            for base, ds, _ in os.walk(target):
                for d in list(ds):
                    if os.path.basename(base) == ".fingerprint" and d.split("-")[0] in ("posidonius", "vph"):
                        shutil.rmtree(os.path.join(base, d), ignore_errors=True)
        os.makedirs(target, exist_ok=True)
        open(stamp, "w").write(want)


def build_harness():
    os.makedirs(BUILD, exist_ok=True)
    _fresh(TARGET)
    cargo(["build", "--offline", "--manifest-path", VERIF + "/harness/Cargo.toml"])
    return os.path.join(TARGET, "debug", "vph")


def build_binary():
    t = os.path.join(BUILD, "bin")
    _fresh(t)
    cargo(["build", "--offline", "--bin", "posidonius", "--manifest-path", REPO + "/Cargo.toml"], target=t,
          extra_env={"CARGO_PROFILE_DEV_OPT_LEVEL": "2", "CARGO_PROFILE_DEV_DEBUG": "line-tables-only", "CARGO_INCREMENTAL": "0"})
    return os.path.join(t, "debug", "posidonius")


def program_env(scratch):
    """Build the executable and the library that intercepts its file operations."""
    so = os.path.join(scratch, "shim.so")
    p = subprocess.run(["gcc", "-O1", "-shared", "-fPIC", "-o", so, VERIF + "/shim/shim.c", "-ldl"], capture_output=True)
    if p.returncode != 0:
        raise CheckError("shim: " + p.stderr.decode(errors="replace")[-500:])
    return {"VP_BIN": build_binary(), "VP_SHIM": so}


def big_stack():
    import resource
    try:
        resource.setrlimit(resource.RLIMIT_STACK, (resource.RLIM_INFINITY, resource.RLIM_INFINITY))
    except (ValueError, OSError):
        soft, hard = resource.getrlimit(resource.RLIMIT_STACK)
        resource.setrlimit(resource.RLIMIT_STACK, (hard, hard))


class Scratch:
    def __enter__(self):
        os.makedirs(BUILD, exist_ok=True)
        self.path = tempfile.mkdtemp(prefix="vp-", dir=os.environ.get("VP_SCRATCH", "/tmp"))
        return self.path

    def __exit__(self, *a):
        shutil.rmtree(self.path, ignore_errors=True)


def known_findings(prop):
    out = {}
    path = os.path.join(VERIF, "KNOWN_FINDINGS.txt")
    for line in open(path):
        if line.startswith("known: "):
            w = line.split(None, 3)
            if w[1] == "property=" + prop and w[2].startswith("key="):
                out[w[2][4:]] = w[3].strip()
    return out


def run_harness(vph, name, tier, seed, budget, scratch, extra=(), env=None):
    """Run one workload of the harness; returns its report."""
    out = os.path.join(scratch, name + ".json")
    cmd = [vph, name, "--tier", tier, "--seed", str(seed), "--budget", str(budget), "--scratch", os.path.join(scratch, name),
           "--out", out] + list(extra)
    env = dict(ENV, RUST_MIN_STACK="33554432", RUST_BACKTRACE="0", **(env or {}))
    t0 = time.time()
    hard = max(5 * budget, budget + 300) if tier == "thorough" else budget + 420
    try:
        p = subprocess.run(cmd, env=env, stdout=subprocess.DEVNULL, stderr=subprocess.PIPE, preexec_fn=big_stack, timeout=hard)
    except subprocess.TimeoutExpired:
        return {"cases": 0, "planned": 0, "evaluations": 0, "counts": {}, "distinct": 0, "signatures": [], "samples": [], "worst_ratio": {},
                "violations": [{"key": "hang", "msg": "the workload did not end within %d s (planned %d s)" % (hard, budget), "case": -1, "detail": None}],
                "inconclusive": 0, "wall_s": time.time() - t0}
    if p.returncode != 0 or not os.path.exists(out):
        if p.returncode < 0:
            return {"cases": 0, "planned": 0, "evaluations": 0, "counts": {}, "distinct": 0, "signatures": [], "samples": [], "worst_ratio": {},
                    "violations": [{"key": "crash", "msg": "the process died from signal %d: %s" % (-p.returncode, p.stderr.decode(errors="replace")[-500:]),
                                    "case": -1, "detail": None}], "inconclusive": 0, "wall_s": time.time() - t0}
        raise CheckError("harness: exit %s %s" % (p.returncode, p.stderr.decode(errors="replace")[-2000:]))
    return json.load(open(out))


def merge(a, b):
    """Merge a second report into the first."""
    if a is None:
        return b
    for k in ("cases", "planned", "evaluations", "distinct", "inconclusive", "wall_s"):
        a[k] += b[k]
    for k, v in b["counts"].items():
        a["counts"][k] = a["counts"].get(k, 0) + v
    for k, v in b["worst_ratio"].items():
        a["worst_ratio"][k] = max(a["worst_ratio"].get(k, 0), v)
    a["signatures"] += b["signatures"]
    a["samples"] += b["samples"]
    a["violations"] += b["violations"]
    return a


def empty_report():
    return {"cases": 0, "planned": 0, "evaluations": 0, "counts": {}, "distinct": 0, "signatures": [], "samples": [], "worst_ratio": {},
            "violations": [], "inconclusive": 0, "wall_s": 0.0}


def finish(prop, tier, seed, level, rule, assumptions, rep, t0):
    """Verdict, evidence, replay file, exit code."""
    known = known_findings(prop)
    new, old = [], {}
    for v in rep["violations"]:
        if v["key"] in known:
            old.setdefault(v["key"], v)
        else:
            new.append(v)
    for k in sorted(old):
        print("KNOWN-FINDING: property=%s %s (%s)" % (prop, known[k], old[k]["msg"][:200]))
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    ev = {
        "property": prop, "tier": tier, "seed": seed, "level": level, "wall_s": round(time.time() - t0, 2), "violations": len(new),
        "coverage": {
            "evaluations": rep["cases"], "distinct_nontrivial": rep["distinct"], "rule": rule,
            "samples": rep["samples"][:8] or ["none"],
            "monitor_events": rep["evaluations"], "monitor_counts": rep["counts"],
            "worst_error_over_tolerance": {k: float("%.3g" % v) for k, v in rep["worst_ratio"].items()},
            "signatures_seen": rep["signatures"][:40], "planned_cases": rep["planned"], "inconclusive_cases": rep["inconclusive"],
        },
        "assumptions": assumptions,
    }
    for k, v in rep.get("extra", {}).items():
        ev["coverage"][k] = v
    with open(os.path.join(VERIF, "evidence", prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    if new:
        d = os.path.join(VERIF, "replay")
        os.makedirs(d, exist_ok=True)
        path = os.path.join(d, "%s-%s-seed%d.json" % (prop, tier, seed))
        with open(path, "w") as f:
            json.dump({"property": prop, "tier": tier, "seed": seed,
                       "how": "python3 /verif/run.py %s %s with VERIF_SEED=%d; one case: .build/target/debug/vph %s --seed %d --tier %s --case N --scratch DIR --out FILE" % (prop, tier, seed, prop, seed, tier),
                       "violations": new[:50]}, f, indent=1)
        seen = set()
        for v in new:
            if v["key"] not in seen and len(seen) < 10:
                seen.add(v["key"])
                print("  case %s: %s" % (v["case"], v["msg"][:600]))
        print("VIOLATION property=%s replay=%s" % (prop, path))
        return 1
    # A run that observed too little decides nothing.
    if rep["cases"] < max(1, 0.2 * rep["planned"]) or rep["evaluations"] == 0 or rep["inconclusive"] > 0.3 * max(1, rep["cases"]):
        raise CheckError("too little observed: %d of %d cases, %d monitor events, %d inconclusive" % (rep["cases"], rep["planned"], rep["evaluations"], rep["inconclusive"]))
    print("ok property=%s tier=%s seed=%d cases=%d distinct=%d monitor events=%d in %.1f s" % (prop, tier, seed, rep["cases"], rep["distinct"], rep["evaluations"], time.time() - t0))
    return 0
