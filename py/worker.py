"""Monitors on the Python package of posidonius (C23, C24): run under numpy, with stand-ins for what is not installed.

worker.py WHAT --root DIR --gen DIR --fun DIR --bin FILE --seed N --lane K --lanes N --budget S --cases N --out FILE"""
import argparse, builtins, contextlib, io, json, math, os, random, runpy, struct, subprocess, sys, time, traceback, warnings

ap = argparse.ArgumentParser()
ap.add_argument("what")
for k in ("root", "gen", "fun", "bin", "out"):
    ap.add_argument("--" + k)
for k in ("seed", "lane", "lanes", "cases"):
    ap.add_argument("--" + k, type=int)
ap.add_argument("--budget", type=float)
ap.add_argument("--scripts")
ap.add_argument("--thorough", type=int, default=0)
ap.add_argument("--examples", type=int, default=0)
A = ap.parse_args()
sys.path[:0] = [os.path.join(os.path.dirname(os.path.abspath(__file__)), "stubs"), A.root]
sys.dont_write_bytecode = True
warnings.simplefilter("ignore")
import numpy as np

np.seterr(all="ignore")
END = time.time() + A.budget
TAU = 2 * math.pi


class Ctx(object):
    def __init__(self):
        self.rep = {"cases": 0, "planned": 0, "evaluations": 0, "counts": {}, "distinct": 0, "signatures": [], "samples": [], "worst_ratio": {},
                    "violations": [], "inconclusive": 0, "wall_s": 0.0}
        self.sigs, self.case, self.detail = set(), -1, None

    def ev(self, name, n=1):
        self.rep["evaluations"] += n
        self.rep["counts"][name] = self.rep["counts"].get(name, 0) + n

    def fail(self, key, msg):
        if len(self.rep["violations"]) < 200:
            self.rep["violations"].append({"key": key, "msg": "%s: %s" % (key, msg), "case": self.case, "detail": self.detail})

    def leq(self, name, err, tol, msg):
        self.ev(name)
        err = float(err)
        r = err / tol
        self.rep["worst_ratio"][name] = max(self.rep["worst_ratio"].get(name, 0.), r if math.isfinite(r) else 1e300)
        if not err <= tol:
            self.fail(name, "%g > %g %s" % (err, tol, msg()))
            return False
        return True

    def ok(self, name, cond, msg):
        self.ev(name)
        if not cond:
            self.fail(name, msg())
        return cond

    def sig(self, s):
        self.sigs.add(s)

    def sample(self, s):
        if len(self.rep["samples"]) < 2:
            self.rep["samples"].append(s)


C = Ctx()


@contextlib.contextmanager
def quiet():
    # Also closes what the code under test opens and leaves open.
    with contextlib.redirect_stdout(io.StringIO()):
        yield


def call(name, f):
    """What a function of the package returns, or None (a violation) when it raises."""
    try:
        with quiet():
            return f()
    except Exception as e:
        C.fail(name, "raised %s: %s" % (type(e).__name__, traceback.format_exc().strip().splitlines()[-3:]))
        return None


def attempt(f, *a):
    """One case. What the package returned may have a shape no judgement can deal with: that is a violation."""
    try:
        return f(*a)
    except (LookupError, ValueError, TypeError, AttributeError, ArithmeticError, AssertionError, NameError, StopIteration, struct.error, subprocess.TimeoutExpired) as e:
        C.fail("unusable-result", "%s: %s %s" % (f.__name__, type(e).__name__, traceback.format_exc().strip().splitlines()[-4:]))


def execute(args, cwd):
    p = subprocess.run([A.bin] + args, cwd=cwd, stdin=subprocess.DEVNULL, stdout=subprocess.DEVNULL, stderr=subprocess.PIPE, timeout=200)
    return p.returncode, p.stderr.decode(errors="replace")


REC = 156


def records(b):
    """Own decoding of a history: list of rows."""
    return [struct.unpack_from("<ddi17d", b, k) for k in range(0, len(b) - len(b) % REC, REC)]


def main():
    t0 = time.time()
    with quiet():
        import posidonius
    import importlib
    importlib.import_module("side" + A.what[1:]).run(posidonius, t0)
    C.rep["signatures"] = sorted(C.sigs)
    C.rep["distinct"] = len(C.sigs)
    C.rep["wall_s"] = time.time() - t0
    json.dump(C.rep, open(A.out, "w"))


if __name__ == "__main__":
    sys.modules["worker"] = sys.modules["__main__"]
    main()
