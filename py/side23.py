"""C23: the Python case builder and helpers against the library."""
import contextlib, io, json, math, os, random, runpy, sys
import numpy as np
from worker import A, C, END, REC, TAU, attempt, call, execute, quiet, records
import time

INTEGRATOR = {"LeapFrog": ("LeapFrog", None), "Ias15": ("Ias15", None), "Jacobi": ("WHFast", "Jacobi"),
              "Democratic": ("WHFast", "DemocraticHeliocentric"), "Whds": ("WHFast", "WHDS")}


def build(P, k, write_to):
    """The system of a case, built with the Python package."""
    s, on = k["sys"], k["sys"]["on"]
    E = P.effects
    u = P.Universe(s["t0"], s["tl"], k["dt"], k["rec"], k["hist"], P.ConsiderEffects({
        "tides": on["tides"], "rotational_flattening": on["flat"], "general_relativity": on["gr"], "disk": on["disk"],
        "wind": on["wind"], "evolution": on["evo"]}))
    for i, b in enumerate(s["b"]):
        p = P.Particle(b["m"], b["r"], b["rg"], P.Axes(*b["x"]), P.Axes(*b["v"]), P.Axes(*b["w"]))
        host = s["th"] == i
        if b["tide"]:
            (name, q), = b["tide"].items()
            if name == "Ctl":
                m = E.tides.ConstantTimeLag({"dissipation_factor_scale": q["scale"], "dissipation_factor": q["sigma"], "love_number": q["k2"]})
            elif name == "Creep":
                m = E.tides.CreepCoplanar({"uniform_viscosity_coefficient": q["eta"]})
            else:
                pad = [0.] * (1024 - len(q["w"]))
                m = E.tides.Kaula({"love_number_excitation_frequency": q["w"] + pad, "imaginary_part_love_number": q["im"] + pad,
                                   "real_part_love_number": q["re"] + pad, "num_datapoints": len(q["w"])})
            p.set_tides((E.tides.CentralBody if host else E.tides.OrbitingBody)(m))
        if b["flat"]:
            (name, q), = b["flat"].items()
            if name == "Oblate":
                m = E.rotational_flattening.OblateSpheroid({"love_number": q["k"]})
            else:
                m = E.rotational_flattening.CreepCoplanar({"uniform_viscosity_coefficient": q["eta"]})
            p.set_rotational_flattening((E.rotational_flattening.CentralBody if host else E.rotational_flattening.OrbitingBody)(m))
        if s["gh"] and s["gh"][0] == i:
            p.set_general_relativity(E.general_relativity.CentralBody({"Kidder": "Kidder1995", "Anderson": "Anderson1975", "Newhall": "Newhall1983"}[s["gh"][1]]))
        elif b["gr"]:
            p.set_general_relativity(E.general_relativity.OrbitingBody())
        if b["wind"]:
            p.set_wind(E.wind.Interaction({"k_factor": b["wind"][0], "rotation_saturation": b["wind"][1]}))
        if s["dh"] and s["dh"][0] == i:
            d = s["dh"][1]
            q = {"inner_edge_distance": d["rin"], "outer_edge_distance": d["rout"], "lifetime": d["life"], "alpha": d["alpha"],
                 "surface_density_normalization": d["sigma0"], "mean_molecular_weight": d["mu"]}
            # What is zero need not be given.
            p.set_disk(E.disk.CentralBody({x: y for x, y in q.items() if y != 0.}))
        elif b["disk"]:
            p.set_disk(E.disk.OrbitingBody())
        if b["evo"] != "None":
            (name, q), = b["evo"].items()
            p.set_evolution(getattr(P, name)(q))
        if k["refs"][i] >= 0:
            p.set_reference(P.particles.particle.ReferenceParticle(k["refs"][i]))
        u.add_particle(p)
    integ, coord = INTEGRATOR[k["kind"]]
    if coord:
        u.write(write_to, integrator=integ, whfast_alternative_coordinates=coord)
    else:
        u.write(write_to, integrator=integ)


START = [0.]


def differ(a, b, path, out, skip, exact=0.):
    """Differences of two trees of values; what Python leaves out has to be something that is not part of the state."""
    if len(out) > 8:
        return
    if isinstance(a, dict) and isinstance(b, dict):
        for k in a:
            if k in skip:
                continue
            if k not in b:
                out.append((path + "." + k, "missing", a[k] if not isinstance(a[k], (list, dict)) else "..."))
            else:
                # The ages of a table are counted from the start of the simulation: what is left keeps the rounding of the larger numbers.
                ages = k == "time" and isinstance(a[k], list) and a[k] and all(isinstance(x, (int, float)) for x in a[k])
                differ(a[k], b[k], path + "." + k, out, skip, 4e-16 * (START[0] + max(abs(a[k][0]), abs(a[k][-1]))) if ages else 0.)
        for k in b:
            if k not in a and k not in skip:
                out.append((path + "." + k, "added", ""))
    elif isinstance(a, list) and isinstance(b, list):
        if len(a) != len(b):
            out.append((path, "lengths", "%d %d" % (len(a), len(b))))
            return
        for i, (u, v) in enumerate(zip(a, b)):
            differ(u, v, "%s[%d]" % (path, i), out, skip, exact)
    elif isinstance(a, bool) or isinstance(b, bool) or not isinstance(a, (int, float)) or not isinstance(b, (int, float)):
        if a != b:
            out.append((path, a, b))
    else:
        if a != b and not abs(a - b) <= exact + 2e-13 * max(abs(a), abs(b)):
            out.append((path, a, b))


def case(P, k, d):
    C.detail = {"kind": k["kind"], "name": k["name"], "on": k["sys"]["on"], "n": len(k["sys"]["b"])}
    what = "%s %s, %d bodies" % (k["name"], k["kind"], len(k["sys"]["b"]))
    pj, rj = os.path.join(d, "p.json"), os.path.join(d, "r.json")
    for f in os.listdir(d):
        os.unlink(os.path.join(d, f))
    err = None
    try:
        with quiet():
            build(P, k, pj)
    except Exception as e:
        import traceback
        err = "%s [%s]" % (e, " / ".join(traceback.format_exc().strip().splitlines()[-3:-1]))
    if k["refused"] is not None:
        if err is None:
            rc, _ = execute(["start", "p.json", "p.bin", "p_history.bin"], d)
            C.ok("refused-by-both", rc != 0, lambda: "%s: the library refuses the case (%s), Python and the executable accept it" % (what, k["refused"][:200]))
        else:
            C.ev("refused-by-both")
        return
    if not C.ok("built", err is None, lambda: "%s: Python refuses the case: %s" % (what, err)):
        return
    t = json.load(open(pj))
    out = []
    # The factor of relativity of a body that takes no part in it: the library fills it in, and uses it nowhere.
    for x in (t, k["tree"]):
        for q in x["universe"]["particles"]:
            if q["general_relativity"]["effect"] == "Disabled":
                q["general_relativity"]["parameters"]["internal"]["factor"] = 0.
    START[0] = abs(k["sys"]["t0"])
    differ(k["tree"], t, "", out, SKIP)
    C.ok("same-case", not out, lambda: "%s: (path, library, Python) %s" % (what, out[:5]))
    json.dump(k["tree"], open(rj, "w"))
    hist = {}
    for q in ("p", "r"):
        rc, e = execute(["start", q + ".json", q + ".bin", q + "_history.bin"], d)
        stop = any(m in e for m in ("destroyed by", "ollision", "ejected", "closed orbits"))
        hist[q] = (rc, e, stop, open(os.path.join(d, q + "_history.bin"), "rb").read() if os.path.exists(os.path.join(d, q + "_history.bin")) else b"")
    (rc, e, stop, hp), (rc2, e2, stop2, hr) = hist["p"], hist["r"]
    if rc2 != 0 and not stop2:
        C.fail("library-case-runs", "%s: exit %s %s" % (what, rc2, e2[:300]))
        return
    C.ok("executable-accepts", rc == rc2 and stop == stop2 or k["kind"] == "Ias15" and (stop or stop2), lambda: "%s: exit %s (library's: %s) %s" % (what, rc, rc2, e[:300]))
    # The step IAS15 chooses comes from a term at the level of the rounding errors: a bit of difference in the input moves the moments of the records.
    free = k["kind"] == "Ias15"
    n = len(k["sys"]["b"])
    if not C.ok("same-history-length", (len(hp) == len(hr) or free and abs(len(hp) - len(hr)) <= 156 * n) and len(hr) > 0 or stop or stop2, lambda: "%s: %d bytes, library's %d" % (what, len(hp), len(hr))):
        return
    if hp == hr:
        C.ev("identical histories")
    a, b = np.array(records(hp)), np.array(records(hr))
    if free:
        a, b = a[:min(len(a), len(b))], b[:min(len(a), len(b))]
    if len(a) == len(b) and len(a):
        C.ok("history-ids", (a[:, 2] == b[:, 2]).all() and (a[:, 2] == np.arange(len(a)) % n).all(), lambda: what)
        C.ok("history-finite", (np.isfinite(a[:, :19]) == np.isfinite(b[:, :19])).all(), lambda: what)
        scale = np.maximum(np.abs(a), np.abs(b))
        for lo in (3, 6, 9):
            scale[:, lo:lo + 3] = np.sqrt((scale[:, lo:lo + 3] ** 2).sum(axis=1))[:, None]
        turned = np.zeros(len(a))
        if free:
            # How far the fastest body turns between the moments of the two records, and sizes over the whole history
            turned = np.abs(a[:, 0] - b[:, 0]) * np.max(scale[:, 9] / (scale[:, 3] + 1e-300))
            for q in range(n):
                scale[q::n] = scale[q::n].max(axis=0)
        for cols, tol, name in ((slice(0, 2), 1e-9, "times"), (slice(3, 6), 3e-8, "positions"), (slice(6, 9), 3e-7, "spins"), (slice(9, 12), 3e-8, "velocities"),
                                (slice(12, 17), 1e-10, "parameters")):
            if free and name == "times":
                # Only the moments: the step length follows the noise
                t = np.maximum(np.abs(b[:, 0]), np.abs(b[:, 1]))
                C.leq("history-times", (np.abs(a[:, 0] - b[:, 0]) / (t + 1e-300)).max(), 1e-2, lambda: what)
                continue
            x, y = a[:, cols], b[:, cols]
            with np.errstate(all="ignore"):
                r = np.where((x == y) | (np.isnan(x) & np.isnan(y)), 0., np.abs(x - y) / (scale[:, cols] + 1e-300))
                r = r / (tol + 3. * turned)[:, None]
            C.leq("history-" + name, r.max(), 1., lambda: what)
    C.sig("%s %s n=%d on=%s" % (k["name"], k["kind"], len(k["sys"]["b"]), sorted(q for q, v in k["sys"]["on"].items() if v)))
    C.sample("%s: trees equal, %d records compared" % (what, len(a)))


# Not part of the state: a number that identifies the previous snapshot, where the last search in a table ended, and scratch values computed before each use.
SKIP = {"hash", "left_index", "polynomials"}


def close(x, y, tol, scale):
    return np.max(np.abs(np.asarray(x, dtype=float) - np.asarray(y, dtype=float))) / scale / tol


def turn(x):
    return abs((x + math.pi) % TAU - math.pi)


def functions(P, f):
    T = P.tools
    for (m, q, e, i, p, n, l), want in f["cart"]:
        # As documented for a planet about a star: one argument with the sum of masses ...
        got = call("cartesian", lambda: T.calculate_cartesian_coordinates(m, q, e, i, p, n, l))
        if got is None:
            continue
        x, v = got
        g = [float(np.asarray(w).reshape(-1)[0]) for w in (x.x(), x.y(), x.z(), v.x(), v.y(), v.z())]
        cond = 1. / abs(1. - e) if abs(1. - e) < .05 else 1.
        rs, vs = np.linalg.norm(want[:3]), np.linalg.norm(want[3:])
        args = "m %r q %r e %r i %r p %r n %r l %r" % (m, q, e, i, p, n, l)
        # A solver good to 1e-9, and a mean anomaly far from the first turn.
        tol = 4e-9 * cond * (1 + abs(l) * 1e-3)
        C.leq("cartesian-position", np.linalg.norm(np.subtract(g[:3], want[:3])), tol * max(rs, q), lambda: args)
        C.leq("cartesian-velocity", np.linalg.norm(np.subtract(g[3:], want[3:])), tol * max(vs, math.sqrt(T.G * m / q)), lambda: args)
        # ... or the masses one by one: about a star elsewhere.
        if e < 1:
            sm, pm = m * 0.99, m * 0.01
            zero = P.Axes(0., 0., 0.)
            got = call("cartesian-about-star", lambda: T.calculate_cartesian_coordinates(pm, q, e, i, p, n, l, masses=sm, positions=zero, velocities=zero))
            if got is not None:
                x, v = got
                g = [float(np.asarray(w).reshape(-1)[0]) for w in (x.x(), x.y(), x.z(), v.x(), v.y(), v.z())]
                C.leq("cartesian-about-star", np.linalg.norm(np.subtract(g[:3], want[:3])), tol * max(rs, q), lambda: args)
    rows = []
    for (m, x, y, z, u, v, w), want, e in f["elem"]:
        got = call("elements", lambda: T.calculate_keplerian_orbital_elements(m, P.Axes(x, y, z), P.Axes(u, v, w)))
        if got is None:
            continue
        g = [float(np.asarray(k).reshape(-1)[0]) for k in got]
        rows.append(g)
        elements(want, g, e, "elements", lambda: "m %r x %r %r %r v %r %r %r: %s, library %s" % (m, x, y, z, u, v, w, g, want))
    # All at once.
    if len(rows) == len(f["elem"]):
        q = np.array([k[0] for k in f["elem"]])
        got = call("elements-of-many", lambda: T.calculate_keplerian_orbital_elements(q[:, 0].copy(), P.Axes(q[:, 1].copy(), q[:, 2].copy(), q[:, 3].copy()), P.Axes(q[:, 4].copy(), q[:, 5].copy(), q[:, 6].copy())))
        if got is not None:
            g = np.array(got).T
            for k, (r, one) in enumerate(zip(g, rows)):
                C.ok("elements-of-many", len(g) == len(rows) and all(a == b or abs(a - b) <= 1e-12 * abs(b) + 1e-15 or a != a and b != b for a, b in zip(r, one)), lambda: "%s: together %s, alone %s" % (f["elem"][k], r.tolist(), one))
    for (w, i, o, l), want in f["spin"]:
        s = call("spin", lambda: T.calculate_spin(w, i, o, l))
        if s is not None:
            C.leq("spin", np.linalg.norm([s.x() - want[0], s.y() - want[1], s.z() - want[2]]), 1e-14 * w, lambda: "w %r i %r o %r l %r" % (w, i, o, l))
        s = call("spin", lambda: T.calculate_spin(w, i, o))
        if s is not None:
            C.leq("spin-without-node", np.linalg.norm([s.x(), s.y() + w * math.sin(o + i), s.z() - w * math.cos(o + i)]), 1e-14 * w, lambda: "w %r i %r o %r" % (w, i, o))
    for (a, e, ms, mp), want in f["sync"]:
        g = call("pseudo-synchronization", lambda: T.calculate_pseudo_synchronization_period(a, e, ms, mp))
        if g is not None:
            C.leq("pseudo-synchronization", abs(g - want), 1e-13 * want, lambda: "a %r e %r masses %r %r" % (a, e, ms, mp))
    for q in f["interp"]:
        for t, l, k in zip(q["t"], q["linear"], q["cosine"]):
            for name, fn, want in (("linear-interpolation", T.linear_interpolation, l), ("cosine-interpolation", T.cosine_interpolation, k)):
                for x, y in ((q["x"], q["y"]), (np.array(q["x"]), np.array(q["y"]))):
                    g = call(name, lambda: fn(t, x, y))
                    if g is not None:
                        C.leq(name, abs(g - want), 1e-13, lambda: "at %r of %r %r" % (t, q["x"], q["y"]))
    C.sig("functions")


def elements(want, g, e, name, msg):
    """The same elements, as far as they are defined (circles and flat orbits leave sums of angles only)."""
    a, q, ec, i, p, n, l, f = g
    A_, Q_, E_, I_, P_, N_, L_, F_ = want
    near = 1. / max(abs(1. - e), 1e-6)
    C.leq(name + "-a", abs(a - A_), 1e-11 * near * abs(A_), msg)
    C.leq(name + "-q", abs(q - Q_), (1e-11 * near + min(1e-7, 1e-14 / max(E_, 1e-9))) * abs(A_ if e < 1 else Q_), msg)
    C.leq(name + "-e", abs(ec - E_), 1e-7 if E_ < 1e-6 else 1e-11 * near / min(E_, 1.), msg)
    C.leq(name + "-i", abs(i - I_), 1e-7, msg)
    si = math.sin(I_)
    # From arc cosines, which lose half of the digits next to 0 and pi.
    tol = 2e-7 + 1e-12 / max(si, 1e-9) + (1e-13 / E_ if E_ > 3e-8 else 1.)
    tol = 3. * math.sqrt(tol * tol + 1e-14) * near + 3e-15 / max(E_, 1e-9) ** 2 + 5e-8 / max(E_, 1e-9)
    if si > 1e-5 and tol < 0.3:
        C.leq(name + "-node", turn(n - N_), 3e-7 / si, msg)
    if E_ > 1e-6 and tol < 0.3 and e < 1.:
        C.leq(name + "-perihelion", turn(p - P_) if si > 1e-5 or si == 0. and I_ < 1. else 0., tol + 3e-7 / max(si, 1e-5), msg)
        C.leq(name + "-anomaly", turn(l - L_), tol / math.sqrt(max(1. - e * e, 1e-12)) * 10., msg)
    elif E_ > 1e-6 and e > 1:
        C.leq(name + "-anomaly", abs(l - L_), 1e-6 * near * (1 + abs(L_)), msg)


def relation(P, r):
    T = P.tools
    for k in range(40):
        m, rock = 10 ** r.uniform(-2, 1.5), r.uniform(0, 1)
        lg = math.log10(m)
        want = (0.0592 * rock + 0.0975) * lg * lg + (0.2337 * rock + 0.4938) * lg + 0.3102 * rock + 0.7932
        g = call("mass-radius", lambda: T.mass_radius_relation(m, planet_mass_type="factor", planet_percent_rock=rock))
        h = call("mass-radius", lambda: T.mass_radius_relation(m / 332946.050895, planet_mass_type="AU", planet_percent_rock=rock))
        for v in (g, h):
            if v is not None:
                C.leq("mass-radius", abs(v - want), 1e-12, lambda: "m %r rock %r: %r want %r" % (m, rock, v, want))
        n = r.randint(1, 6)
        ms = [10 ** r.uniform(-6, 1) for _ in range(n)]
        xs = [[r.gauss(0, 1) for _ in range(6)] for _ in range(n)]
        g = call("barycentre", lambda: T.calculate_center_of_mass(ms, [P.Axes(*x[:3]) for x in xs], [P.Axes(*x[3:]) for x in xs]))
        if g is not None:
            M = sum(ms)
            w = [sum(mm * x[j] for mm, x in zip(ms, xs)) / M for j in range(6)]
            got = [g[1].x(), g[1].y(), g[1].z(), g[2].x(), g[2].y(), g[2].z()]
            C.leq("barycentre", max(abs(u - v) for u, v in zip(w, got)) + abs(g[0] - M), 1e-13 * (1 + M), lambda: "%r %r" % (ms, xs))


def constants(P):
    """Units: those of the library are in the cases compared; here against the definitions."""
    K = P.constants
    au, sun, day = 1.49597870700e11, 1.9818e30, 86400.
    g = 6.67428e-11 * sun * day * day / au ** 3
    for name, got, want in (("K2", K.K2, g), ("K", K.K, math.sqrt(g)), ("R_SUN", K.R_SUN, 6.957e8 / au), ("R_EARTH", K.R_EARTH, 6.3781e6 / au),
                            ("M_EARTH", K.M_EARTH, 1 / 332946.050895), ("M2AU", K.M2AU, 1 / au), ("TWO_PI", K.TWO_PI, TAU), ("DEG2RAD", K.DEG2RAD, math.pi / 180),
                            ("RAD2DEG", K.RAD2DEG, 180 / math.pi), ("PI", K.PI, math.pi), ("HOUR", K.HOUR, 3600.), ("DAY", K.DAY, day), ("YEAR", K.YEAR, 365.25 * day),
                            ("AU", K.AU, au), ("M_SUN", K.M_SUN, sun), ("M2EARTH", K.M2EARTH, 332946.050895), ("G", K.G, g), ("G_SI", K.G_SI, 6.67428e-11),
                            ("BOLTZMANN_CONSTANT", K.BOLTZMANN_CONSTANT, 1.380649e-23 / (sun * au * au) * day * day), ("MASS_HYDROGEN_ATOM", K.MASS_HYDROGEN_ATOM, 1.672162841e-27 / sun)):
        C.leq("constant-" + name, abs(got - want), 1e-13 * want, lambda: "%r want %r" % (got, want))


def refusals(P, r, d):
    """What the library refuses is refused."""
    E = P.effects
    f = os.path.join(d, "x.json")

    def body(m=1., x=0.):
        return P.Particle(m, 0.004, 0.4, P.Axes(x, 0., 0.), P.Axes(0., 0.017 / math.sqrt(x) if x else 0., 0.), P.Axes(0., 0., 1.))

    def uni(**on):
        return P.Universe(0., 10., 0.1, 100., 100., P.ConsiderEffects(on))

    ctl = lambda: E.tides.ConstantTimeLag({"dissipation_factor_scale": 1., "dissipation_factor": 1., "love_number": .3})
    obl = lambda: E.rotational_flattening.OblateSpheroid({"love_number": .3})
    creep = lambda eta: {"uniform_viscosity_coefficient": eta}
    disk = {"inner_edge_distance": .01, "outer_edge_distance": 10., "lifetime": 1e5, "alpha": 1e-2, "surface_density_normalization": 1e-4, "mean_molecular_weight": 2.4}

    def two(setter, on):
        def go():
            u = uni(**on)
            for m, x in ((1., 0.), (1e-3, 1.)):
                b = body(m, x)
                setter(b)
                u.add_particle(b)
            u.write(f)
        return go

    def gr_small():
        u = uni(general_relativity=True)
        for m, x in ((1., 0.), (1e-3, 1.)):
            b = body(m, x)
            b.set_general_relativity(E.general_relativity.CentralBody("Kidder1995") if m < 1. else E.general_relativity.OrbitingBody())
            u.add_particle(b)
        u.write(f)

    def mixed(first, t, fl):
        def go():
            b = body()
            if first:
                b.set_tides(t)
                b.set_rotational_flattening(fl)
            else:
                b.set_rotational_flattening(fl)
                b.set_tides(t)
        return go

    def many(n):
        def go():
            u = uni()
            for k in range(n):
                u.add_particle(body(1. if k == 0 else 1e-9, 0. if k == 0 else 1. + k))
            u.write(f)
        return go

    def unknown_integrator():
        u = uni()
        u.add_particle(body())
        u.write(f, integrator="Euler")

    def unknown_coordinates():
        u = uni()
        u.add_particle(body())
        u.write(f, whfast_alternative_coordinates="Polar")

    def late(evo, t0):
        def go():
            u = P.Universe(t0, 10., 0.1, 100., 100., P.ConsiderEffects({"evolution": True}))
            b = body()
            b.set_evolution(evo())
            u.add_particle(b)
            u.write(f)
        return go

    def within(evo, at, share):
        def go():
            ts = evo().get_evolver(0.)["time"]
            t0 = ts[0] + (ts[-1] - ts[0]) * at
            u = P.Universe(t0, (ts[-1] - t0) * share, 10., 0.1, 100., P.ConsiderEffects({"evolution": True}))
            b = body()
            b.set_evolution(evo())
            u.add_particle(b)
            u.write(f)
        return go

    eta = 10 ** r.uniform(-9, -3)
    T, F = E.tides, E.rotational_flattening
    todo = [
        ("two tidal hosts", True, two(lambda b: b.set_tides(T.CentralBody(ctl())), dict(tides=True))),
        ("two tidal hosts, tides off", False, two(lambda b: b.set_tides(T.CentralBody(ctl())), dict(tides=False))),
        ("two flattening hosts", True, two(lambda b: b.set_rotational_flattening(F.CentralBody(obl())), dict(rotational_flattening=True))),
        ("two relativity hosts", True, two(lambda b: b.set_general_relativity(E.general_relativity.CentralBody("Kidder1995")), dict(general_relativity=True))),
        ("two disk hosts", True, two(lambda b: b.set_disk(E.disk.CentralBody(disk)), dict(disk=True))),
        ("relativity host not the most massive", True, gr_small),
        ("ten bodies", False, many(10)), ("eleven bodies", True, many(11)),
        ("unknown integrator", True, unknown_integrator), ("unknown coordinates", True, unknown_coordinates),
        ("unknown mass of a star", True, late(lambda: P.GalletBolmont2017(r.uniform(2., 9.)), 1e9)),
        ("up to the end of the table", False, within(lambda: P.BolmontMathis2016(1.0), r.uniform(.01, .99), r.uniform(.5, .999))),
        ("beyond the table", True, within(lambda: P.GalletBolmont2017(1.0), r.uniform(.01, .99), r.uniform(1.001, 2.))),
        ("up to the end of the table", False, within(lambda: P.LeconteChabrier2013(False), r.uniform(.5, .99), r.uniform(.5, .999))),
        ("beyond the table", True, within(lambda: P.Baraffe2015(1.0), r.uniform(.01, .99), r.uniform(1.001, 2.))),
        ("before the table", True, late(lambda: P.BolmontMathis2016(1.0), -1e12)),
    ]
    for first in (True, False):
        todo += [
            ("creep tides with an oblate spheroid", True, mixed(first, T.OrbitingBody(T.CreepCoplanar(creep(eta))), F.OrbitingBody(obl()))),
            ("creep flattening with constant time lag", True, mixed(first, T.OrbitingBody(ctl()), F.OrbitingBody(F.CreepCoplanar(creep(eta))))),
            ("different viscosities", True, mixed(first, T.OrbitingBody(T.CreepCoplanar(creep(eta))), F.OrbitingBody(F.CreepCoplanar(creep(eta * 2.))))),
            ("the same viscosity", False, mixed(first, T.OrbitingBody(T.CreepCoplanar(creep(eta))), F.OrbitingBody(F.CreepCoplanar(creep(eta))))),
        ]
    for name, refused, go in todo:
        try:
            with quiet():
                go()
            err = None
        except Exception as e:
            err = e
        C.ok("refused" if refused else "accepted", (err is not None) == refused, lambda: "%s: %s" % (name, "accepted" if err is None else "refused: %s" % err))
        C.sig(name)


def example(path, d):
    """One of the example cases: it has to be written, and the executable has to start it."""
    argv, out = sys.argv, os.path.join(d, "case.json")
    for f in os.listdir(d):
        os.unlink(os.path.join(d, f))
    sys.argv = [path, out]
    name = os.path.relpath(path, A.scripts)
    try:
        with quiet():
            runpy.run_path(path, run_name="__main__")
        err = None
    except BaseException as e:
        import traceback
        err = "%s %s" % (e, traceback.format_exc().strip().splitlines()[-3:])
    finally:
        sys.argv = argv
    if err and ("not found" in err or "No such file" in err):
        C.ev("example needs data that is not here")
        return
    if not C.ok("example-written", err is None and os.path.exists(out), lambda: "%s: %s" % (name, err)):
        return
    t = json.load(open(out))
    t["universe"]["time_limit"] = 20.5 * t["time_step"]
    t["historic_snapshot_period"] = t["time_step"]
    n = t["universe"]["n_particles"]
    C.ok("example-consistent", t["current_time"] == 0. and n >= 2 and all(p["mass"] > 0 for p in t["universe"]["particles"][:n]), lambda: name)
    mt = sum(p["mass"] for p in t["universe"]["particles"])
    for j in "xyz":
        C.leq("example-barycentre", abs(sum(p["mass"] * p["inertial_position"][j] for p in t["universe"]["particles"])) / mt, 1e-15, lambda: name)
        C.leq("example-barycentre-velocity", abs(sum(p["mass"] * p["inertial_velocity"][j] for p in t["universe"]["particles"])) / mt, 1e-16, lambda: name)
    json.dump(t, open(out, "w"))
    rc, e = execute(["start", "case.json", "run.bin", "run_history.bin"], d)
    C.ok("example-runs", rc == 0, lambda: "%s: exit %s %s" % (name, rc, e[:300]))
    if rc == 0:
        b = open(os.path.join(d, "run_history.bin"), "rb").read()
        a = np.array(records(b))
        C.ok("example-history", len(b) % (REC * n) == 0 and len(a) >= 2 * n and np.isfinite(a[:, :15]).all(), lambda: "%s: %d bytes" % (name, len(b)))
    C.sig("example " + name)


def run(P, t0):
    import worker
    d = os.path.join(os.path.dirname(A.out), "run%d" % A.lane)
    os.makedirs(d, exist_ok=True)
    if A.examples:
        for q, (base, f) in enumerate(sorted((b, f) for b, _, fs in os.walk(os.path.join(A.scripts, "cases")) for f in fs if f.endswith(".py"))):
            C.case = q
            attempt(example, os.path.join(base, f), d)
        return
    mine = [k for k in range(A.cases) if k % A.lanes == A.lane]
    C.rep["planned"] = len(mine)
    attempt(constants, P)
    r = random.Random(A.seed * 1000 + A.lane)
    attempt(relation, P, r)
    attempt(refusals, P, r, d)
    for k in sorted(os.listdir(A.fun)):
        if int(k.split(".")[0]) % A.lanes == A.lane and time.time() < END:
            C.case = int(k.split(".")[0])
            attempt(functions, P, json.load(open(os.path.join(A.fun, k))))
    for k in mine:
        if time.time() > END:
            break
        f = os.path.join(A.gen, "%d.json" % k)
        C.rep["cases"] += 1
        if os.path.exists(f):
            C.case = k
            attempt(case, P, json.load(open(f)), d)
        else:
            C.ev("too-strong")
