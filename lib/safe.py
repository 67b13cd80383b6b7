"""Instrumented builds for C25: AddressSanitizer, and the interpreter of the undefined-behaviour rules."""
import json, os, subprocess, threading, time
import common as c

HOST = "x86_64-unknown-linux-gnu"


def asan_build():
    t = os.path.join(c.BUILD, "asan")
    c._fresh(t)
    c.cargo(["build", "--offline", "--target", HOST, "--manifest-path", c.VERIF + "/harness/Cargo.toml"], target=t, toolchain="+nightly",
            extra_env={"RUSTFLAGS": "-Zsanitizer=address -Cdebuginfo=1", "CARGO_PROFILE_DEV_OPT_LEVEL": "1"})
    return os.path.join(t, HOST, "debug", "vph")


def bad(key, msg, case=-1):
    r = c.empty_report()
    r["violations"].append({"key": key, "msg": msg, "case": case, "detail": None})
    return r


def renamed(rep, prefix):
    rep["counts"] = {prefix + k: v for k, v in rep["counts"].items()}
    rep["signatures"] = [prefix + s for s in rep["signatures"]]
    for v in rep["violations"]:
        v["key"] = prefix + v["key"]
        v["msg"] = prefix + v["msg"]
    return rep


def miri(args, timeout):
    env = dict(c.ENV, CARGO_TARGET_DIR=os.path.join(c.BUILD, "miri"), MIRIFLAGS="-Zmiri-disable-isolation -Zmiri-ignore-leaks", RUST_BACKTRACE="0")
    p = subprocess.run(["cargo", "+nightly", "miri", "run", "--offline", "--manifest-path", c.VERIF + "/harness/Cargo.toml", "--"] + args,
                       env=env, stdout=subprocess.DEVNULL, stderr=subprocess.PIPE, timeout=timeout)
    return p.returncode, p.stderr.decode(errors="replace")


def c25(tier, seed, budget, scratch):
    rep = None
    vph = asan_build()
    env = {"ASAN_OPTIONS": "detect_leaks=0:detect_stack_use_after_return=0:abort_on_error=1"}
    rep = c.merge(rep, renamed(c.run_harness(vph, "C25S", tier, seed, budget / 4, scratch, env=env), "asan: "))
    # The interpreter: one process for each case, tables from the native program.
    native = os.path.join(c.TARGET, "debug", "vph")
    c._fresh(os.path.join(c.BUILD, "miri"))
    cases = list(range(4)) if tier == "quick" else list(range(64))
    lanes, end = (4 if tier == "quick" else 8), time.time() + budget / 2
    out, lock = {}, threading.Lock()

    def one(k, timeout):
        d = os.path.join(scratch, "miri%d" % k)
        subprocess.run([native, "tables", "--scratch", d, "--out", d + ".json"], env=dict(c.ENV), stdout=subprocess.DEVNULL)
        o = d + "-out.json"
        try:
            rc, err = miri(["C25M", "--seed", str(seed), "--tier", tier, "--case", str(k), "--scratch", d, "--out", o], timeout)
        except subprocess.TimeoutExpired:
            return None
        if rc != 0 or not os.path.exists(o):
            if "Undefined Behavior" in err or "error: abnormal termination" in err or "unsupported operation" not in err and "could not compile" not in err:
                at = [i for i, l in enumerate(err.splitlines()) if l.startswith("error")]
                return bad("miri", "the interpreter stopped: " + "\n".join(err.splitlines()[at[0]:][:12] if at else err.splitlines()[-12:]), k)
            raise c.CheckError("miri: " + err[-1500:])
        return json.load(open(o))

    def lane(mine):
        for k in mine:
            if time.time() > end and k >= lanes:
                return
            try:
                r = one(k, 500)
            except Exception as e:
                r = e
            with lock:
                out[k] = r

    out[0] = one(0, 500)  # builds
    rest = [k for k in cases if k > 0]
    ts = [threading.Thread(target=lane, args=(rest[i::lanes],)) for i in range(lanes)]
    for t in ts:
        t.start()
    for t in ts:
        t.join()
    done = 0
    for k in sorted(out):
        if isinstance(out[k], Exception):
            raise out[k]
        if out[k] is not None:
            done += 1
            rep = c.merge(rep, renamed(out[k], "miri: "))
    rep["counts"]["interpreted cases"] = done
    return rep
