"""C24: the Python analysis of histories against the recorded bytes and own formulas."""
import json, math, os, random, runpy, struct, sys, time, traceback
from fractions import Fraction
import numpy as np
from worker import A, C, END, REC, TAU, attempt, call, execute, quiet, records

FIELDS = ("current_time", "time_step", "particle", "position_x", "position_y", "position_z", "spin_x", "spin_y", "spin_z", "velocity_x", "velocity_y", "velocity_z",
          "mass", "radius", "radius_of_gyration_2", "love_number", "scaled_dissipation_factor", "lag_angle", "denergy_dt", "migration_timescale")
AU, MSUN, DAY, GSI = 1.49597870700e11, 1.9818e30, 86400., 6.67428e-11
K2 = GSI * MSUN * DAY * DAY / AU ** 3
YEAR = 365.25


def same(a, b):
    return struct.pack("<d", a) == struct.pack("<d", b)


def read_back(P, path, b, n, what):
    """Every complete snapshot, bit by bit, and nothing else."""
    want = records(b)
    whole = len(want) - len(want) % n
    got = call("read", lambda: P.analysis.history.read(path))
    if got is None:
        return None
    m, d = got
    C.ok("bodies", m == n, lambda: "%s: %d bodies, wrote %d" % (what, m, n))
    if not C.ok("complete-snapshots", len(d) == whole, lambda: "%s: %d rows, %d bytes have %d whole ones of %d bodies" % (what, len(d), len(b), whole, n)):
        return None
    bad = []
    for j, f in enumerate(FIELDS):
        col = d[f]
        if j == 2:
            if [int(q) for q in col] != [w[2] for w in want[:whole]]:
                bad.append(f)
        elif np.asarray(col, dtype="<f8").tobytes() != np.array([w[j] for w in want[:whole]], dtype="<f8").tobytes():
            bad.append(f)
    C.ok("read-exactly", not bad, lambda: "%s: %s differ from the recorded bytes" % (what, bad))
    C.ev("values-read", whole * 20)
    return want[:whole]


def orbit(mu, x, v):
    """a, e, i of relative states (arrays of rows)."""
    r, w = np.sqrt((x * x).sum(1)), (v * v).sum(1)
    h = np.cross(x, v)
    hn = np.sqrt((h * h).sum(1))
    ev = np.cross(v, h) / mu[:, None] - x / r[:, None]
    a = 1. / (2. / r - w / mu)
    i = np.arctan2(np.hypot(h[:, 0], h[:, 1]), h[:, 2])
    return a, np.sqrt((ev * ev).sum(1)), i, h


def rel(got, want, scale):
    with np.errstate(all="ignore"):
        return float(np.max(np.abs(np.asarray(got, dtype=float) - want) / scale)) if len(want) else 0.


def elements(name, got, want, what):
    (ga, ge, gi), (a, e, i) = [np.atleast_1d(x) for x in got], want
    use = (e < 0.98) & (a > 0)
    if not use.any():
        return
    C.leq(name + "-a", rel(np.asarray(ga)[use], a[use], np.abs(a[use])), 1e-11 / (1 - e[use].max()) ** 2, lambda: what)
    C.leq(name + "-e", rel(np.asarray(ge)[use], e[use], 1.), (1e-11 + 1e-14 / max(e[use].min(), 1e-8)) / (1 - e[use].max()) ** 2, lambda: what)
    C.leq(name + "-i", rel(np.asarray(gi)[use], i[use], 1.), 1e-7, lambda: what)


def classify(P, path, rows, n, ref, what, discard=False):
    """The derived orbits about a body of reference; None when not to be had."""
    got = call("read", lambda: P.analysis.history.read(path))
    if got is None:
        return None
    d = got[1]
    r = np.array(rows)
    out = call("classify", lambda: P.analysis.history.classify(n, d, reference_particle_index=ref, discard_first_hundred_years=discard))
    if out is None:
        return None
    star, planets, keys = out
    if discard:
        r = r[r[:, 0] / YEAR >= 100.]
        C.ev("first century left out")
    s = r.reshape(-1, n, 20)
    others = [k for k in range(n) if k != ref]
    C.ok("keys", list(keys) == [str(k) for k in others] and sorted(planets) == sorted(keys), lambda: "%s: %s" % (what, keys))
    if not C.ok("rows", len(star) == len(s) and all(len(planets[k]) == len(s) for k in keys), lambda: "%s: %d of %d snapshots" % (what, len(star), len(s))):
        return None
    for j, f in enumerate(FIELDS[3:12]):
        zero = f[0] in "pv"
        C.ok("reference-at-rest" if zero else "reference-spin", (np.asarray(star[f]) == (0. if zero else s[:, ref, 3 + j])).all(), lambda: "%s: %s" % (what, f))
    C.leq("years", rel(star["current_time"], s[:, ref, 0] / YEAR, np.maximum(s[:, ref, 0] / YEAR, 1e-300)), 1e-15, lambda: what)
    for k in others:
        q = planets[str(k)]
        hel = s[:, k, 3:12].copy()
        hel[:, 0:3] -= s[:, ref, 3:6]
        hel[:, 6:9] -= s[:, ref, 9:12]
        for j, f in enumerate(FIELDS[3:12]):
            C.ok("heliocentric", (np.asarray(q[f]) == hel[:, j]).all(), lambda: "%s: body %d %s" % (what, k, f))
        for j in list(range(12, 20)) + [1]:
            C.ok("kept", np.asarray(q[FIELDS[j]], dtype="<f8").tobytes() == s[:, k, j].astype("<f8").tobytes(), lambda: "%s: body %d %s" % (what, k, FIELDS[j]))
        C.leq("years", rel(q["current_time"], s[:, k, 0] / YEAR, np.maximum(s[:, k, 0] / YEAR, 1e-300)), 1e-15, lambda: what)
        # About the barycentre of all of the others.
        rest = [b for b in range(n) if b != k]
        m = s[:, rest, 12]
        M = m.sum(1)
        cx = (m[:, :, None] * (s[:, rest, 3:6] - s[:, ref, None, 3:6])).sum(1) / M[:, None]
        cv = (m[:, :, None] * (s[:, rest, 9:12] - s[:, ref, None, 9:12])).sum(1) / M[:, None]
        a, e, i, h = orbit(K2 * (M + s[:, k, 12]), hel[:, 0:3] - cx, hel[:, 6:9] - cv)
        elements("two-bodies" if n == 2 else "orbit", (q["semi-major_axis"], q["eccentricity"], q["inclination"]), (a + np.sqrt((cx * cx).sum(1)), e, i),
                 "%s: body %d about %d" % (what, k, ref))
    return star, planets, keys, s


def angle(a, b):
    return np.arctan2(np.sqrt((np.cross(a, b) ** 2).sum(1)), (a * b).sum(1))


def fold(x, center):
    return (x - center + 180.) % 360. - 180. + center


def resonance_data(P, star, planets, keys, s, ref, n, what):
    got = call("resonance-data", lambda: P.analysis.resonances.calculate_resonance_data(star, keys, planets))
    if got is None:
        return
    # One snapshot gives numbers instead of arrays.
    t, a, e, g, nn, M, q, Q = [[np.atleast_1d(y) for y in x] for x in got]
    for j, k in enumerate(b for b in range(n) if b != ref):
        mu = K2 * (s[:, k, 12] + s[:, ref, 12])
        x, v = s[:, k, 3:6] - s[:, ref, 3:6], s[:, k, 9:12] - s[:, ref, 9:12]
        wa, we, wi, h = orbit(mu, x, v)
        use = (we > 1e-3) & (we < 0.9) & (np.sin(wi) > 1e-4) & (wa > 0)
        elements("resonance", (a[j], e[j], wi), (wa, we, wi), what)
        bound = (we < .98) & (wa > 0)
        if bound.any():
            f = 1e-11 / (1 - we[bound].max()) ** 2 + 1e-14 / max(we[bound].min(), 1e-8)
            C.leq("resonance-perihelion", rel(np.asarray(q[j])[bound], (wa * (1 - we))[bound], wa[bound]), f, lambda: what)
            C.leq("resonance-aphelion", rel(np.asarray(Q[j])[bound], (wa * (1 + we))[bound], wa[bound]), f, lambda: what)
        if use.any():
            ev = np.cross(v, h) / mu[:, None] - x / np.sqrt((x * x).sum(1))[:, None]
            node = np.arctan2(h[:, 0], -h[:, 1])
            nd = np.stack([np.cos(node), np.sin(node), 0 * node], 1)
            w = np.arctan2((np.cross(nd, ev) * h).sum(1) / np.sqrt((h * h).sum(1)), (nd * ev).sum(1))
            hn = np.sqrt((h * h).sum(1))
            f = np.arctan2((np.cross(ev, x) * h).sum(1) / hn, (ev * x).sum(1))
            E = 2 * np.arctan2(np.sqrt(1 - we) * np.sin(f / 2), np.sqrt(1 + we) * np.cos(f / 2))
            m = E - we * np.sin(E)
            deg = 180. / math.pi
            tol = deg * (1e-6 / np.sin(wi[use]).min() + 1e-9 / we[use].min() + 1e-6)
            for name, got, want in (("node", nn[j], node * deg), ("pericentre", g[j], w * deg), ("mean-anomaly", M[j], m * deg)):
                got = np.asarray(got)[use]
                C.ok("resonance-degrees", ((got >= 0) & (got <= 360)).all(), lambda: "%s: %s %s" % (what, name, got[:5]))
                C.leq("resonance-" + name, float(np.abs(fold(got - want[use], 0.)).max()), tol * (3. if name != "mean-anomaly" else 30.), lambda: "%s: body %d: %s want %s" % (what, k, got[:3], want[use][:3]))
        C.leq("resonance-time", rel(t[j], s[:, k, 0] / YEAR, np.maximum(s[:, k, 0], 1.)), 1e-15, lambda: what)


def script(name, argv, key):
    old = sys.argv
    path = os.path.join(A.scripts, "scripts", name)
    sys.argv = [path] + argv
    import matplotlib
    del matplotlib.texts[:]
    try:
        with quiet():
            runpy.run_path(path, run_name="__main__")
        err = None
    except BaseException as e:
        err = "%s %s" % (e, traceback.format_exc().strip().splitlines()[-3:])
    finally:
        sys.argv = old
    return err


def table(path):
    with open(path) as f:
        lines = f.read().split("\n")
    head = lines[0].split("\t")
    body = [l.split("\t") for l in lines[1:] if l]
    return head, body


def num(t):
    return math.nan if t == "" else float(t)


def raw(path, rows, n, what):
    err = script("raw_history.py", [path], "raw")
    if not C.ok("raw-runs", err is None, lambda: "%s: %s" % (what, err)):
        return
    s = [rows[k::n] for k in range(n)]
    for k in range(n):
        f = path[:-4] + "_%d.txt" % k
        if not C.ok("raw-written", os.path.exists(f), lambda: "%s: no %s" % (what, os.path.basename(f))):
            return
        head, body = table(f)
        C.ok("raw-columns", head == [c for c in FIELDS if c != "particle"], lambda: "%s: %s" % (what, head))
        ok = len(body) == len(s[k])
        for got, want in zip(body, s[k]):
            w = [x for j, x in enumerate(want) if j != 2]
            ok = ok and len(got) == len(w) and all(num(a) == b or b != b and num(a) != num(a) for a, b in zip(got, w))
        C.ok("raw-values", ok, lambda: "%s: body %d: text differs from the record" % (what, k))
        os.unlink(f)


def heat(a, e, w, o, mp, ms, r, k2dt):
    """Mean dissipation of constant time lag (Hut 1981; Leconte et al. 2010), SI."""
    n = np.sqrt(GSI * (mp + ms) / a ** 3)
    x = w / n
    K = 1.5 * k2dt * GSI * ms ** 2 / r * (r / a) ** 6 * n * n
    z = 1. - e * e
    na = (1 + 31 / 2 * e ** 2 + 255 / 8 * e ** 4 + 185 / 16 * e ** 6 + 25 / 64 * e ** 8) / z ** 7.5
    nb = (1 + 15 / 2 * e ** 2 + 45 / 8 * e ** 4 + 5 / 16 * e ** 6) / z ** 6
    om = (1 + 3 * e ** 2 + 3 / 8 * e ** 4) / z ** 4.5
    return 2 * K * (na - 2 * nb * np.cos(o) * x + (1 + np.cos(o) ** 2) / 2 * om * x * x), 2 * K * (na + 2 * nb * np.abs(x) + om * x * x)


def explore(tree, path, case, rows, n, what):
    ref = max(range(n), key=lambda k: tree["universe"]["particles"][k]["mass"])
    err = script("explore_history.py", [case, path], "explore")
    if not C.ok("explore-runs", err is None, lambda: "%s: %s" % (what, err)):
        return
    head, body = table(path[:-4] + ".txt")
    r = np.array(rows).reshape(-1, n, 20)
    others = [k for k in range(n) if k != ref]
    N = len(r)
    if not C.ok("explore-rows", len(body) == N * len(others), lambda: "%s: %d rows" % (what, len(body))):
        return
    col = {h: np.array([b[j] if h == "planet" else num(b[j]) for b in body]) for j, h in enumerate(head)}
    star = r[:, ref]
    sspin = star[:, 6:9]
    sw = np.sqrt((sspin ** 2).sum(1))
    m0 = r[0, :, 12]
    # Total angular momentum: of the orbits about the common barycentre, and of the spins.
    M = m0.sum()
    x = r[:, :, 3:6] - (m0[None, :, None] * r[:, :, 3:6]).sum(1)[:, None] / M
    v = r[:, :, 9:12] - (m0[None, :, None] * r[:, :, 9:12]).sum(1)[:, None] / M
    inertia = r[:, :, 14] * m0[None, :] * r[:, :, 13] ** 2
    parts = np.concatenate([m0[None, :, None] * np.cross(x, v), inertia[:, :, None] * r[:, :, 6:9]], 1)
    L = np.sqrt((parts.sum(1) ** 2).sum(1))
    dL = np.abs(L - L[0]) / L[0]
    if N > 1:
        dL[0] = dL[1]
    steady = all((r[:, k, 13] == r[0, k, 13]).all() and (r[:, k, 14] == r[0, k, 14]).all() for k in others)
    for j, k in enumerate(others):
        g = {h: c[j * N:(j + 1) * N] for h, c in col.items()}
        who = "%s: body %d" % (what, k)
        C.ok("explore-planet", (g["planet"] == str(k)).all(), lambda: who)
        x, v, w = r[:, k, 3:6] - star[:, 3:6], r[:, k, 9:12] - star[:, 9:12], r[:, k, 6:9]
        rest = [b for b in range(n) if b != k]
        m = r[:, rest, 12]
        cx = (m[:, :, None] * (r[:, rest, 3:6] - star[:, None, 3:6])).sum(1) / m.sum(1)[:, None]
        cv = (m[:, :, None] * (r[:, rest, 9:12] - star[:, None, 9:12])).sum(1) / m.sum(1)[:, None]
        a, e, i, _ = orbit(K2 * (m.sum(1) + r[:, k, 12]), x - cx, v - cv)
        a = a + np.sqrt((cx * cx).sum(1))
        deg = 180. / math.pi
        elements("explore", (g["semi-major_axis_AU"], g["eccentricity"], g["inclination_deg"] / deg), (a, e, i), who)
        C.leq("explore-time", rel(g["current_time"], r[:, k, 0] / YEAR, np.maximum(r[:, k, 0], 1.)), 1e-15, lambda: who)
        h = np.cross(x, v)
        pw = np.sqrt((w ** 2).sum(1))
        mp, rp = r[:, k, 12], r[:, k, 13]
        if sw.min() > 0:
            C.leq("explore-star-obliquity", rel(g["star_obliquity_deg"], angle(h, sspin) * deg, 1.), 5e-6, lambda: who)
            C.leq("explore-corotation", rel(g["corotation_radius_AU"], (K2 * (star[0, 12] + mp[0]) / sw ** 2) ** (1 / 3.), 1e-300 + np.abs(g["corotation_radius_AU"])), 1e-11, lambda: who)
            C.leq("explore-star-rotation", rel(g["star_rotation_period_days"], TAU / sw, TAU / sw), 1e-13, lambda: who)
        obl = angle(h, w)
        if pw.min() > 0:
            C.leq("explore-obliquity", rel(g["planet_obliquity_deg"], obl * deg, 1.), 5e-6, lambda: who)
            C.leq("explore-rotation", rel(g["planet_rotation_period_hours"], 24 * TAU / pw, 24 * TAU / pw), 1e-13, lambda: who)
        use = (e < .95) & (a > 0)
        if use.all():
            ee = np.asarray(g["eccentricity"], dtype=float)
            al = (1 + 7.5 * ee ** 2 + 45 / 8 * ee ** 4 + 5 / 16 * ee ** 6) / (1 + 3 * ee ** 2 + 3 / 8 * ee ** 4) / (1 - ee ** 2) ** 1.5
            ps = TAU / (al * np.sqrt(K2 * (star[0, 12] + mp[0]) / a ** 3))
            C.leq("explore-pseudo-synchronization", rel(g["planet_pseudo_synchronization_period"], ps, ps), 1e-9, lambda: who)
        W, F, mW, mF = (g[q] for q in ("energy_lost_due_to_tides_W", "energy_lost_due_to_tides_W_per_m2", "mean_energy_lost_due_to_tides_W", "mean_energy_lost_due_to_tides_W_per_m2"))
        area = 4 * math.pi * (rp * AU) ** 2
        if tree["universe"]["consider_effects"]["tides"]:
            de = r[:, k, 18] * MSUN * AU ** 2 / DAY ** 3
            # The solar mass in the conversion of units has three digits.
            C.leq("explore-heat", rel(W, de, np.abs(de) + 1e-300), 6e-3, lambda: "%s: %s want %s" % (who, W[:3], de[:3]))
            C.leq("explore-flux", rel(F, W / area, np.abs(W / area) + 1e-300), 1e-12, lambda: who)
            if use.all() and pw.min() > 0:
                want, size = heat(a * AU, e, pw / DAY, obl, mp * MSUN, star[0, 12] * MSUN, rp * AU, 2.465278e-3 * DAY)
                C.leq("explore-mean-heat", rel(mW, want, size), 1e-7, lambda: "%s: %s want %s" % (who, mW[:3], want[:3]))
                eff = tree["universe"]["particles"][k]["tides"]["effect"]
                scale = 0.
                for role in ("CentralBody", "OrbitingBody"):
                    if isinstance(eff, dict) and role in eff and "ConstantTimeLag" in eff[role]:
                        scale = eff[role]["ConstantTimeLag"]["dissipation_factor_scale"]
                C.leq("explore-mean-flux", rel(mF, mW / area * scale, np.abs(mW / area * scale) + 1e-300), 1e-12, lambda: who)
        else:
            C.ok("explore-no-tides", not any(q.any() for q in (W, F, mW, mF)), lambda: who)
        if steady and sw.min() > 0:
            C.leq("explore-angular-momentum", rel(g["conservation_of_angular_momentum"], dL, 1.), 1e-13 * (np.sqrt((parts ** 2).sum(2)).sum(1) / L[0]).max() * 10, lambda: "%s: %s want %s" % (who, g["conservation_of_angular_momentum"][:3], dL[:3]))
    os.unlink(path[:-4] + ".txt")


def real(P, k, d, r):
    """A history written by the executable."""
    n, name = len(k["sys"]["b"]), k["name"]
    what = "%s %s, %d bodies" % (name, k["kind"], n)
    for f in os.listdir(d):
        os.unlink(os.path.join(d, f))
    case, hist = os.path.join(d, "case.json"), os.path.join(d, "run_history.bin")
    json.dump(k["tree"], open(case, "w"))
    rc, e = execute(["start", "case.json", "run.bin", "run_history.bin"], d)
    b = open(hist, "rb").read() if os.path.exists(hist) else b""
    if rc != 0 and not any(m in e for m in ("destroyed by", "ollision", "ejected", "closed orbits")):
        C.ev("not simulated")
        return
    if len(b) < REC * n:
        C.ev("nothing recorded")
        return
    C.detail = {"kind": k["kind"], "name": name, "n": n, "bytes": len(b)}
    rows = read_back(P, hist, b, n, what)
    if rows is None:
        return
    # Cut anywhere behind the first snapshot.
    torn = os.path.join(d, "torn_history.bin")
    for cut in {len(b) - 1, n * REC, n * REC + 1, len(b) - REC, len(b) - n * REC + 1} | {r.randrange(n * REC, len(b) + 1) for _ in range(4)}:
        if n * REC <= cut <= len(b):
            open(torn, "wb").write(b[:cut])
            read_back(P, torn, b[:cut], n, "%s cut at %d of %d" % (what, cut, len(b)))
            C.ev("cut inside a record" if cut % REC else ("cut between snapshots" if cut % (n * REC) == 0 else "cut inside a snapshot"))
    if not all(math.isfinite(x) for w in rows for x in w[3:15]):
        C.ev("not finite")
        return
    massive = max(range(n), key=lambda q: k["sys"]["b"][q]["m"])
    for ref in {massive, r.randrange(n)}:
        got = classify(P, hist, rows, n, ref, what)
        if got and n > 1:
            resonance_data(P, got[0], got[1], got[2], got[3], ref, n, what + " about %d" % ref)
    raw(hist, rows, n, what)
    if n > 1:
        explore(k["tree"], hist, case, rows, n, what)
    C.sig("%s %s n=%d" % (name, k["kind"], n))
    C.sample("%s: %d records" % (what, len(rows)))


def synthetic(P, r, d):
    """Arbitrary values, any number of bodies and snapshots, torn anywhere."""
    n, m = r.randint(1, 10), r.choice([1, 2, 3, r.randint(4, 60)])
    odd = [0., -0., math.inf, -math.inf, math.nan, 5e-324, -1e308, 1e-300]

    def value():
        return r.choice(odd) if r.random() < .1 else (r.uniform(-1, 1) * 10 ** r.uniform(-30, 30) if r.random() < .9 else struct.unpack("<d", struct.pack("<Q", r.getrandbits(64)))[0])
    full = b"".join(struct.pack("<ddi17d", t * 1.5, value(), k, *[value() for _ in range(17)]) for t in range(m + 1) for k in range(n))
    cut = m * n * REC + r.choice([0, 0, r.randrange(n * REC), r.randrange(n) * REC])
    b = full[:cut]
    f = os.path.join(d, r.choice(["a_history.bin", "b.dat", "run.2.bin"]))
    open(f, "wb").write(b)
    C.detail = {"bodies": n, "snapshots": m, "bytes": len(b)}
    rows = read_back(P, f, b, n, "%d bodies, %d bytes" % (n, len(b)))
    C.sig("synthetic n=%d tail=%d" % (n, (cut - m * n * REC) // REC))
    if rows and f.endswith(".bin") and r.random() < .2:
        raw(f, rows, n, "%d bodies" % n)
    os.unlink(f)
    # Nothing to read.
    open(f, "wb").write(full[:r.randrange(REC)])
    try:
        with quiet():
            P.analysis.history.read(f)
        bad = True
    except Exception:
        bad = False
    C.ok("empty-refused", not bad, lambda: "less than a record was accepted")
    os.unlink(f)


def kepler(mu, a, e, i, w, n, m):
    E = m + e * math.sin(m)
    for _ in range(60):
        E -= (E - e * math.sin(E) - m) / (1 - e * math.cos(E))
    k = math.sqrt(mu / a ** 3)
    x, y = a * (math.cos(E) - e), a * math.sqrt(1 - e * e) * math.sin(E)
    q = 1 - e * math.cos(E)
    u, v = -a * k * math.sin(E) / q, a * k * math.sqrt(1 - e * e) * math.cos(E) / q

    def rot(x, y):
        x, y = x * math.cos(w) - y * math.sin(w), x * math.sin(w) + y * math.cos(w)
        y, z = y * math.cos(i), y * math.sin(i)
        return [x * math.cos(n) - y * math.sin(n), x * math.sin(n) + y * math.cos(n), z]
    return rot(x, y), rot(u, v)


def resonant(P, r, d):
    """Planets that keep an exact resonance, and the programs that look for it."""
    q, p = r.choice([(2, 1), (3, 2), (4, 3), (5, 3), (3, 1), (5, 4), (5, 2)])
    many = r.choice([520, 20, 60, 499, 500, 501, 1010, 260])
    third = r.random() < .5
    star = 10 ** r.uniform(-1, .3)
    a1, tiny = 10 ** r.uniform(-2, .5), 1e-14
    a2 = a1 * (q / p) ** (2 / 3.)
    el = [[a, r.uniform(.02, .3), r.uniform(.02, .6), r.uniform(0, TAU), r.uniform(0, TAU), 0.] for a in (a1, a2)]
    l1, l2 = r.uniform(0, TAU), r.uniform(0, TAU)
    pl = [el[0][:5] + [l1, math.sqrt(K2 * star / a1 ** 3)], el[1][:5] + [l2, math.sqrt(K2 * star / a2 ** 3)]]
    if third:
        a3 = a2 * r.uniform(3, 6)
        pl.append([a3, .1, .3, 1., 2., 3., math.sqrt(K2 * star / a3 ** 3)])
    n = len(pl) + 1
    off = [r.gauss(0, 1) for _ in range(6)]
    out, t = [], 0.
    for _ in range(many):
        out.append(struct.pack("<ddi17d", t, 1., 0, *off[:3], 0., 0., 1., *off[3:], star, .005, .06, .1, 1., 0., 0., 0.))
        for k, (a, e, i, w, nn, m, f) in enumerate(pl):
            x, v = kepler(K2 * (star + tiny), a, e, i, w, nn, m + f * t)
            out.append(struct.pack("<ddi17d", t, 1., k + 1, *[o + c for o, c in zip(off, x)], 0., 0., 1., *[o + c for o, c in zip(off[3:], v)], tiny, 1e-5, .3, .3, 1., 0., 0., 0.))
        t += TAU / pl[0][6] * r.uniform(.3, 3.)
    f = os.path.join(d, "res_history.bin")
    open(f, "wb").write(b"".join(out))
    what = "%d snapshots, %d:%d" % (many, q, p)
    C.detail = {"snapshots": many, "resonance": "%d:%d" % (q, p), "a": a1, "e": [x[1] for x in pl]}
    rows = records(b"".join(out))
    got = classify(P, f, rows, n, 0, what)
    if got:
        resonance_data(P, got[0], got[1], got[2], got[3], 0, n, what)
    if t / YEAR > 100:
        classify(P, f, rows, n, 0, what, discard=True)
    import matplotlib
    err = script("explore_timed_resonances.py", [f], "timed")
    shown = list(matplotlib.texts)
    C.ok("timed-runs", err is None, lambda: "%s: %s" % (what, err))
    if err is None and many >= 30:
        C.ok("timed-finds", "%d:%d" % (q, p) in shown, lambda: "%s: shows %s" % (what, sorted(set(shown))))
    err = script("explore_single_resonance.py", [f, "1", "2", str(q), str(p)], "single")
    C.ok("single-runs", err is None, lambda: "%s: %s" % (what, err))
    C.sig("resonance %d:%d, %d snapshots" % (q, p, many))
    os.unlink(f)


def angles(P, r):
    """Which angles librate, and which resonances are near a ratio of periods."""
    R = P.analysis.resonances
    for _ in range(20):
        ratio, unc, dl, nl, sm = r.uniform(.98, 6), r.uniform(0, .1), r.randint(1, 15), r.randint(2, 30), r.randint(1, 20)
        got = call("possible-resonances", lambda: R.get_possible_resonances(ratio, uncertainty=unc, denominator_limit=dl, numerator_limit=nl, sampling=sm))
        if got is not None:
            lo, hi = max(ratio * (1 - unc), 1.), ratio * (1 + unc)
            want = set()
            for k in range(sm):
                x = lo + (hi - lo) / sm * k
                want.add(min((Fraction(round(x * q), q) for q in range(1, dl + 1)), key=lambda f: (abs(f - Fraction(x)), f.denominator)))
            want = sorted((f for f in want if f.numerator < nl), key=lambda f: (f.numerator, f))
            C.ok("possible-resonances", list(got) == want, lambda: "ratio %r uncertainty %r limits %d %d, %d values: %s want %s" % (ratio, unc, dl, nl, sm, got, want))
        N, q = r.randint(5, 60), r.choice([Fraction(2, 1), Fraction(3, 2), Fraction(5, 3), Fraction(1, 1), Fraction(7, 4)])
        A_ = [np.array([r.uniform(0, 360) for _ in range(N)]) for _ in range(6)]
        center, thr = r.choice([0., 90., -90., 180., 37.]), r.uniform(10, 100)
        if r.random() < .7:
            # Make one of the angles librate.
            j, amp, c = r.randint(0, q.numerator - q.denominator), r.uniform(0, 120), r.uniform(-180, 180)
            g1, n1, M1, g2, n2, _ = A_
            w1, w2, l1 = g1 + n1, g2 + n2, M1 + g1 + n1
            phi = np.array([c + amp * math.sin(r.uniform(0, TAU)) for _ in range(N)])
            l2 = (phi + q.denominator * l1 + j * w1 + (q.numerator - q.denominator - j) * w2) / q.numerator
            A_[5] = (l2 - w2) % 360. if q.numerator == 1 else l2 - w2
        got = call("is-resonance", lambda: R.is_resonance(q, *[x.copy() for x in A_], nb_points=N, angle_center_value=center, std_threshold=thr))
        g1, n1, M1, g2, n2, M2 = A_
        base = q.numerator * (M2 + g2 + n2) - q.denominator * (M1 + g1 + n1)
        o = q.numerator - q.denominator
        std = min(float(np.std(fold(base - j * (g1 + n1) - (o - j) * (g2 + n2), center))) for j in range(o + 1))
        edge = min(float(np.min(np.abs(fold(base - j * (g1 + n1) - (o - j) * (g2 + n2) - center - 180., 0.)))) for j in range(o + 1))
        if got is not None and abs(std - thr) > 1e-6 and edge > 1e-9:
            C.ok("is-resonance", bool(got) == (std < thr), lambda: "%s: %s, spread %r threshold %r" % (q, got, std, thr))
            C.ev("librates" if std < thr else "circulates")
        k = r.randint(1, 40)
        got = call("subplots", lambda: R.get_subplot_shape(k))
        if got is not None:
            x, y = got
            C.ok("subplots", x * y >= k and abs(x - y) <= 1 and (x - 1) * y < k, lambda: "%d: %s" % (k, got))
        a, e, w, ob = 10 ** r.uniform(8, 12), r.choice([0., r.uniform(0, .9)]), 10 ** r.uniform(-8, -3), r.choice([0., r.uniform(0, math.pi)])
        ms, mp, rp, kd = MSUN * 10 ** r.uniform(-2, 1), 6e24 * 10 ** r.uniform(-2, 3), 10 ** r.uniform(5, 8), 10 ** r.uniform(0, 4)
        nn = math.sqrt(GSI * (ms + mp) / a ** 3)
        if r.random() < .4:
            w = nn * r.uniform(.5, 2.)
        if r.random() < .1:
            w, e, ob = nn, 0., 0.
        got = call("energydot", lambda: P.analysis.computation.energydot(a, e, w, ob, GSI, mp, ms, rp, kd))
        if got is not None:
            want, size = heat(a, e, w, ob, mp, ms, rp, kd)
            C.leq("energydot", abs(got - want) / size, 1e-12, lambda: "a %r e %r spin %r obliquity %r: %r want %r" % (a, e, w, ob, got, want))
            C.ok("energydot-not-negative", got >= -1e-14 * size, lambda: "a %r e %r spin %r obliquity %r: %r" % (a, e, w, ob, got))


def run(P, t0):
    d = os.path.join(os.path.dirname(A.out), "hist%d" % A.lane)
    os.makedirs(d, exist_ok=True)
    mine = [k for k in range(A.cases) if k % A.lanes == A.lane]
    C.rep["planned"] = len(mine)
    r = random.Random(A.seed * 1000 + 500 + A.lane)
    for k in range(40 if A.thorough else 8):
        attempt(angles, P, r)
    for k in range(300 if A.thorough else 40):
        attempt(synthetic, P, r, d)
    for k in range(30 if A.thorough else 4):
        attempt(resonant, P, r, d)
    for k in mine:
        if time.time() > END:
            break
        f = os.path.join(A.gen, "%d.json" % k)
        C.rep["cases"] += 1
        if os.path.exists(f):
            C.case = k
            j = json.load(open(f))
            if j["refused"] is None:
                attempt(real, P, j, d, random.Random(A.seed * 7919 + k))
