"""The Python half of posidonius under the monitors of py/ (C23, C24)."""
import json, math, os, shutil, subprocess, time
import common as c

LANES = 8


def wide(src, dst):
    """The tables with ages a real star may have (the examples of the repository start at millions of years)."""
    for base, _, files in os.walk(src):
        out = os.path.join(dst, os.path.relpath(base, src))
        os.makedirs(out, exist_ok=True)
        for f in files:
            rows = open(os.path.join(base, f)).read().splitlines()
            head = [r for r in rows[:1] if r[:1].isalpha()]
            rows = [r.split() for r in rows[len(head):] if r.strip()]
            if rows and f != "empty.dat":
                lo, hi = (4., 10.5) if f == "rg2BD.dat" else (3., 11.)
                n = len(rows)
                for k, r in enumerate(rows):
                    t = lo + (hi - lo) * k / (n - 1)
                    r[0] = repr(t if "Gallet" in base else 10. ** t)
            with open(os.path.join(out, f), "w") as g:
                g.write("\n".join(head + [" ".join(r) for r in rows]) + ("\n" if head or rows else ""))


def package(root, tables, inside=False):
    os.makedirs(root)
    shutil.copytree(os.path.join(c.REPO, "posidonius"), os.path.join(root, "posidonius"))
    for d in ("scripts", "cases"):
        shutil.copytree(os.path.join(c.REPO, d), os.path.join(root, d))
    # As in the repository, or as installed.
    d = os.path.join(root, "posidonius" if inside else ".", "input")
    shutil.copytree(tables, d)
    # Only those of Baraffe et al. (2015) have a line of headings for Python; the library takes one anywhere.
    for f in os.listdir(os.path.join(d, "Bolmont_Mathis_2016")):
        f = os.path.join(d, "Bolmont_Mathis_2016", f)
        t = open(f).read()
        if t[:1].isalpha():
            open(f, "w").write(t.split("\n", 1)[1])


def side(what, tier, seed, budget, scratch):
    vph, exe = os.path.join(c.TARGET, "debug", "vph"), c.build_binary()
    rep = c.run_harness(vph, "C23G", tier, seed, budget / 4, scratch)
    rep["cases"] = rep["planned"] = 0
    total = 6000 if tier == "thorough" else 1200
    fun = os.path.join(scratch, "none")
    if what == "C23":
        rep = c.merge(rep, c.run_harness(vph, "C23F", tier, seed, budget / 4, scratch))
        rep["cases"] = rep["planned"] = 0
        fun = os.path.join(scratch, "C23F", "fun")
    t = os.path.join(scratch, "tables")
    subprocess.run([vph, "tables", "--scratch", t, "--out", t + ".json"], env=dict(c.ENV), stdout=subprocess.DEVNULL, check=True)
    wide(os.path.join(t, "input"), os.path.join(scratch, "wide"))
    package(os.path.join(scratch, "plain"), os.path.join(t, "input"))
    package(os.path.join(scratch, "installed"), os.path.join(t, "input"), inside=True)
    package(os.path.join(scratch, "examples"), os.path.join(scratch, "wide"))
    jobs = []
    for k in range(LANES):
        jobs.append((k, ["installed", "plain"][k % 2], []))
    if what == "C23":
        jobs.append((LANES, "examples", ["--examples", "1"]))
    running, end = [], time.time() + budget + 400
    for k, root, extra in jobs:
        root = os.path.join(scratch, root)
        out = os.path.join(scratch, "lane%d.json" % k)
        cmd = ["python3-vt", os.path.join(c.VERIF, "py", "worker.py"), what, "--root", root, "--gen", os.path.join(scratch, "C23G", "gen"), "--fun", fun,
               "--bin", exe, "--out", out, "--seed", str(seed), "--lane", str(k), "--lanes", str(LANES), "--cases", str(total), "--budget", str(budget * .75),
               "--scripts", root, "--thorough", "1" if tier == "thorough" else "0"] + extra
        err = open(out + ".err", "wb")
        running.append((k, out, subprocess.Popen(cmd, env=dict(c.ENV, OMP_NUM_THREADS="1", OPENBLAS_NUM_THREADS="1"), stdin=subprocess.DEVNULL, stdout=subprocess.DEVNULL,
                                                 stderr=err, cwd=scratch, preexec_fn=c.big_stack)))
    for k, out, p in running:
        try:
            p.wait(timeout=max(1., end - time.time()))
        except subprocess.TimeoutExpired:
            for q in running:
                q[2].kill()
            r = c.empty_report()
            r["violations"].append({"key": "hang", "msg": "the Python package did not end in %d s" % (budget + 400), "case": -1, "detail": None})
            return c.merge(rep, r)
        text = open(out + ".err", errors="replace").read()
        if p.returncode != 0 or not os.path.exists(out):
            if "side2" in text or "in main\n" not in text or not os.path.exists(os.path.join(c.REPO, "posidonius", "__init__.py")):
                raise c.CheckError("worker %d: exit %s %s" % (k, p.returncode, text[-1500:]))
            # The package cannot even be loaded.
            r = c.empty_report()
            r["violations"].append({"key": "import", "msg": text[-600:], "case": -1, "detail": None})
            rep = c.merge(rep, r)
            continue
        rep = c.merge(rep, json.load(open(out)))
    rep["signatures"] = sorted(set(rep["signatures"]))
    rep["distinct"] = len(rep["signatures"])
    return rep


def c23(tier, seed, budget, scratch):
    return side("C23", tier, seed, budget, scratch)


def c24(tier, seed, budget, scratch):
    return side("C24", tier, seed, budget, scratch)
