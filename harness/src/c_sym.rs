//! Symmetries of the results (C18) and silence of what is switched off (C19).
use crate::c_force::{self, all_bound};
use crate::c_run::{self, gentle};
use crate::drive::*;
use crate::fw::Ctx;
use crate::phys;
use crate::sys::*;
use crate::util::*;
use posidonius::IgnoreGravityTerms as Ig;

fn has_kaula(s: &Sys) -> bool {
    s.b.iter().any(|b| matches!(b.tide, Some(TideM::Kaula { .. })))
}
fn detail(s: &Sys) -> serde_json::Value {
    if has_kaula(s) {
        let mut q = s.clone();
        for b in q.b.iter_mut() {
            if let Some(TideM::Kaula { .. }) = b.tide {
                b.tide = Some(TideM::Kaula { w: vec![], re: vec![], im: vec![] });
            }
        }
        serde_json::json!(q)
    } else {
        serde_json::json!(s)
    }
}
fn stop(m: &str) -> bool {
    m.contains("destroyed by") || m.contains("Collision") || m.contains("has been ejected") || m.contains("require closed orbits")
}

/// Which rotations leave the physics alone: none of the models tied to the reference plane is there.
fn any_rotation(s: &Sys, planar: bool) -> bool {
    !planar && !has_kaula(s) && !(s.on.disk && s.dh.is_some())
}

fn rotate_state(st: &State, r: &Rot) -> State {
    let f = |v: &Vec<V3>| v.iter().map(|&q| r.mul(q)).collect();
    State { x: f(&st.x), v: f(&st.v), l: f(&st.l) }
}
fn permute<T: Clone>(v: &[T], perm: &[usize]) -> Vec<T> {
    perm.iter().map(|&i| v[i].clone()).collect()
}

/// The relativistic spin terms of Kidder are a known finding: without spins they are silent.
fn kidder(s: &Sys) -> bool {
    s.on.gr && s.gh.map_or(false, |(_, g)| g == Gr::Kidder)
}

/// The prescription of Anderson is written in Jacobi coordinates, which follow the order of the list.
fn anderson(s: &Sys) -> bool {
    s.on.gr && s.gh.map_or(false, |(_, g)| g == Gr::Anderson)
}

/// A permutation; where the order of the other bodies matters, only the place of the star is free.
fn permutation(c: &mut Ctx, n: usize, star: usize, ordered: bool) -> Vec<usize> {
    if ordered {
        let mut q: Vec<usize> = (0..n).filter(|&i| i != star).collect();
        q.insert(c.r.below(n), star);
        q
    } else {
        let mut q: Vec<usize> = (0..n).collect();
        c.r.shuffle(&mut q);
        q
    }
}

/// Per effect: sizes that set the scale of rounding.
fn sizes(s: &Sys, o: &Out) -> (f64, f64) {
    let a = (0..s.n()).map(|i| s.b[i].m * o.total.a[i].norm()).fold(0., f64::max);
    let l = (0..s.n()).map(|i| o.total.dl[i].norm()).fold(0., f64::max);
    (a, l)
}

/// C18, one evaluation: forces, torques and derived quantities follow permutation and rotation.
pub fn c18(c: &mut Ctx) {
    let k = c.case % 9 == 0;
    let (s, star, planar) = c_force::mixed(c, k);
    let n = s.n();
    c.detail = serde_json::json!({ "sys": detail(&s) });
    let perm = permutation(c, n, star, anderson(&s));
    let sp = s.permuted(&perm);
    let rot = if any_rotation(&s, planar) { Rot::random(&mut c.r) } else { Rot::z(c.r.uni(0., 6.28)) };
    let mut d = Driver::new(&s);
    let mut dp = Driver::new(&sp);
    let mut dr = Driver::new(&s);
    for _ in 0..if has_kaula(&s) { 2 } else { 5 } {
        let t = if s.on.evo { c.r.uni(0., s.tl) } else { c.r.uni(0., 1e5) };
        // Kaula tides are written in spherical coordinates about the reference plane: their orbits are
        // turned only within it.
        let flat = planar || has_kaula(&s) && c.r.chance(0.7);
        let turn = flat || !has_kaula(&s);
        let mut st = rand_state(&mut c.r, &s, star, t, 0.3, if flat { 0. } else { 1. }, flat);
        if s.th.map_or(false, |h| !all_bound(&s, &st, h)) && (s.on.evo || planar || has_kaula(&s)) || s.dh.map_or(false, |(h, _)| s.on.disk && !all_bound(&s, &st, h)) {
            continue;
        }
        if kidder(&s) {
            for l in st.l.iter_mut() {
                *l = Z3;
            }
        }
        let p = phys::pars(&s, t);
        if phys::near_regime(&s, &p, &st) || planar && phys::creep_edge(&s, &p, &st) {
            continue;
        }
        let o = d.eval(t, &st, Ig::None);
        let op = dp.eval(t, &State { x: permute(&st.x, &perm), v: permute(&st.v, &perm), l: permute(&st.l, &perm) }, Ig::None);
        let or = dr.eval(t, &rotate_state(&st, &rot), Ig::None);
        let (fa, fl) = sizes(&s, &o);
        let tol = if has_kaula(&s) { 1e-8 } else if planar { 1e-6 } else { 1e-10 };
        for (j, &i) in perm.iter().enumerate() {
            let what = |e: &str| format!("{} of body {} of {} (at {} after permutation {:?})", e, i, n, j, perm);
            c.veq("permuted-gravity", op.newton[j], o.newton[i], 0., 1e-11, || what("gravity"));
            c.veq("permuted-acceleration", op.total.a[j], o.total.a[i], fa / s.b[i].m, 1e-11, || what("acceleration"));
            c.veq("permuted-torque", op.total.dl[j], o.total.dl[i], fl, 1e-11, || what("torque"));
            c.leq("permuted-heat", (op.heat[j] - o.heat[i]).abs(), 1e-11 * o.heat[i].abs().max(1e-300), || what("heat"));
            if s.b[i].disk && s.on.disk && o.tmig[i].is_finite() {
                c.leq("permuted-migration", (op.tmig[j] - o.tmig[i]).abs(), 1e-11 * o.tmig[i].abs(), || what("migration time"));
            }
        }
        for i in 0..if turn { n } else { 0 } {
            let what = |e: &str| format!("{} of body {} of {}", e, i, n);
            c.veq("rotated-gravity", or.newton[i], rot.mul(o.newton[i]), 0., 1e-11, || what("gravity"));
            c.veq("rotated-acceleration", or.total.a[i], rot.mul(o.total.a[i]), fa / s.b[i].m, tol, || what("acceleration"));
            c.veq("rotated-torque", or.total.dl[i], rot.mul(o.total.dl[i]), fl, tol, || what("torque"));
            c.ok("rotated-radius", or.r[i] == o.r[i] && or.rg2[i] == o.rg2[i], || what("radius"));
        }
        c.sig(format!("n={} star={} host={:?} on={:?} kaula={} planar={}", n, star, s.th, [s.on.tides, s.on.flat, s.on.gr, s.on.disk, s.on.wind, s.on.evo].map(|b| b as u8), has_kaula(&s), planar));
    }
    c.sample(|| format!("{} bodies, star {}, effects {:?}, permutation {:?}", n, star, s.on, perm));
}

/// Bring a final state to another time with the reference solution.
fn at(s: &Sys, st: &State, t: f64, t1: f64, p: f64) -> State {
    if t == t1 {
        st.clone()
    } else {
        phys::integrate(s, st, t, t1, 0.05 * p, 1e-13)
    }
}

/// C18 along runs.
pub fn c18t(c: &mut Ctx) {
    let pl = match c_run::plan(c) {
        Some(p) => p,
        None => return,
    };
    let mut s = pl.s.clone();
    if kidder(&s) {
        // Spin terms of Kidder: known finding.
        for b in s.b.iter_mut() {
            b.w = Z3;
        }
    }
    if has_kaula(&s) && pl.kind == Int::Ias15 {
        return;
    }
    let star = pl.star;
    let n = s.n();
    let p = s.shortest_period();
    let steps = if c.thorough { 300. } else { 150. };
    let t = steps * pl.dt;
    if s.on.evo && s.tl < 1.2 * t {
        return;
    }
    if !s.on.evo {
        s.tl = 2. * t;
    }
    let init = phys::initial(&s);
    if s.dh.map_or(false, |(h, _)| s.on.disk && !all_bound(&s, &init, h)) || s.th.map_or(false, |h| (s.on.tides || s.on.flat) && !all_bound(&s, &init, h)) {
        return;
    }
    c.detail = serde_json::json!({ "sys": detail(&s), "kind": pl.kind, "dt": pl.dt });
    let perm = permutation(c, n, star, pl.kind == Int::Jacobi || anderson(&s));
    let rot = if any_rotation(&s, pl.name == "creep") { Rot::random(&mut c.r) } else { Rot::z(c.r.uni(0., 6.28)) };
    let (dx, dv) = (c.r.unit() * c.r.log(1e-2, 10.), c.r.unit() * c.r.log(1e-4, 3e-2));
    let base = match run_sim(&s, pl.kind, pl.dt, t) {
        Ok(r) => r,
        Err(m) if stop(&m) => {
            c.ev("encounter");
            return;
        }
        Err(m) => {
            c.fail("run-failed", m);
            return;
        }
    };
    if pl.name == "creep" && !c_run::gentle_at(&s, pl.dt, base.t, &base.st) {
        c.ev("too-strong");
        return;
    }
    // Rounding error of the initial barycentric state grows along the run (Lyapunov and phase error).
    let orbits = t / p;
    let loose = if pl.name == "creep" { 1e3 } else if has_kaula(&s) { 1e2 } else { 1. };
    let grow = 3e-12 * (1. + orbits) * (1. + orbits) * loose * if pl.kind == Int::Ias15 { 30. } else { 1. };
    // How much the run amplifies small differences, and for IAS15 how much it depends on its steps.
    let mut amp: (f64, f64) = (0., 0.);
    for k in 0..2 {
        let mut q = s.clone();
        for b in q.b.iter_mut() {
            b.x += c.r.unit() * b.x.norm() * 1e-12;
            b.v += c.r.unit() * b.v.norm() * 1e-12;
            b.w += c.r.unit() * b.w.norm() * 1e-12;
        }
        if pl.name == "creep" {
            q = s.clone();
            for b in q.b.iter_mut() {
                b.x = b.x * (1. + 1e-12 * c.r.unit().0);
                b.v = b.v * (1. + 1e-12 * c.r.unit().0);
            }
        }
        let dt = if pl.kind == Int::Ias15 { pl.dt * [0.61, 1.37][k] } else { pl.dt };
        match run_sim(&q, pl.kind, dt, t) {
            Ok(r) => {
                let st = if r.t != base.t { at(&s, &r.st, r.t, base.t, p) } else { r.st };
                let (e, l) = diff(&st, &base.st, star);
                amp = (amp.0.max(e), amp.1.max(l));
            }
            Err(_) => {
                c.ev("encounter");
                return;
            }
        }
    }
    if amp.0 > 1e-6 {
        c.ev("chaotic");
        return;
    }
    let amp = (amp.0 * 10., if pl.kind == Int::Ias15 { (1e-3f64).max(amp.1 * 10.) } else { amp.1 * 10. });
    let rin = s.barycentric();
    let dist = (0..n).filter(|&i| i != star).map(|i| (rin.b[i].x - rin.b[star].x).norm()).fold(f64::INFINITY, f64::min);
    let vel = (0..n).filter(|&i| i != star).map(|i| (rin.b[i].v - rin.b[star].v).norm()).fold(f64::INFINITY, f64::min);
    let size = |q: &Sys| q.b.iter().map(|b| b.x.norm() / dist + b.v.norm() / vel).fold(0., f64::max);
    for (name, q) in [("permuted", s.permuted(&perm)), ("rotated", s.rotated(&rot)), ("shifted", s.shifted(dx, dv))] {
        if name == "rotated" && has_kaula(&s) {
            continue;
        }
        let r = match run_sim(&q, pl.kind, pl.dt, t) {
            Ok(r) => r,
            Err(m) => {
                c.fail("run-failed", format!("{} {:?} {}: {}", pl.name, pl.kind, name, m));
                continue;
            }
        };
        // Back to the original description.
        let back = match name {
            "permuted" => {
                let inv: Vec<usize> = (0..n).map(|i| perm.iter().position(|&k| k == i).unwrap()).collect();
                State { x: permute(&r.st.x, &inv), v: permute(&r.st.v, &inv), l: permute(&r.st.l, &inv) }
            }
            "rotated" => {
                let m = &rot.0;
                let tr = Rot([V3(m[0].0, m[1].0, m[2].0), V3(m[0].1, m[1].1, m[2].1), V3(m[0].2, m[1].2, m[2].2)]);
                rotate_state(&r.st, &tr)
            }
            _ => r.st.clone(),
        };
        if pl.kind != Int::Ias15 {
            c.ok("same-end", r.t == base.t, || format!("{} {:?} {}: ends at {} instead of {}", pl.name, pl.kind, name, r.t, base.t));
        }
        let b = if r.t != base.t { at(&s, &back, r.t, base.t, p) } else { back };
        let (e, l) = diff(&b, &base.st, star);
        let tol = grow + 1e-15 * (1. + orbits) * (1. + orbits) * 10. * (size(&q) + size(&s)) * loose;
        let what = || format!("{} {:?} {} bodies star {} {:.1} orbits perm {:?}", pl.name, pl.kind, n, star, orbits, perm);
        c.leq(&format!("{}-orbits", name), e, tol + amp.0, what);
        c.leq(&format!("{}-spins", name), l, 30. * tol + amp.1, what);
    }
    c.sig(format!("run {} {:?} n={} star={} on={:?}", pl.name, pl.kind, n, star, [s.on.tides, s.on.flat, s.on.gr, s.on.disk, s.on.wind, s.on.evo].map(|b| b as u8)));
    c.sample(|| format!("run of {} {:?}: {} bodies, {} steps, permuted, rotated and shifted", pl.name, pl.kind, n, base.steps));
}

/// Exact equality of two runs.
fn identical(a: &Run, b: &Run) -> Option<String> {
    if a.t != b.t || a.steps != b.steps {
        return Some(format!("ends at {} after {} steps instead of {} after {}", b.t, b.steps, a.t, a.steps));
    }
    for i in 0..a.st.x.len() {
        for (n, p, q) in [("position", a.st.x[i], b.st.x[i]), ("velocity", a.st.v[i], b.st.v[i]), ("spin angular momentum", a.st.l[i], b.st.l[i]), ("spin", a.spin[i], b.spin[i])] {
            if p != q {
                return Some(format!("{} of body {}: {:?} instead of {:?}", n, i, q, p));
            }
        }
        if a.r[i] != b.r[i] {
            return Some(format!("radius of body {}", i));
        }
    }
    None
}

const EFFECTS: [&str; 6] = ["tides", "flattening", "relativity", "disk", "wind", "evolution"];

fn flag<'a>(on: &'a mut On, e: &str) -> &'a mut bool {
    match e {
        "tides" => &mut on.tides,
        "flattening" => &mut on.flat,
        "relativity" => &mut on.gr,
        "disk" => &mut on.disk,
        "wind" => &mut on.wind,
        _ => &mut on.evo,
    }
}

/// The system without any trace of an effect.
fn without(s: &Sys, e: &str) -> Sys {
    let mut q = s.clone();
    *flag(&mut q.on, e) = false;
    for b in q.b.iter_mut() {
        match e {
            "tides" => b.tide = None,
            "flattening" => b.flat = None,
            "relativity" => b.gr = false,
            "disk" => b.disk = false,
            "wind" => b.wind = None,
            _ => b.evo = Evo::None,
        }
    }
    match e {
        "relativity" => q.gh = None,
        "disk" => q.dh = None,
        _ => {}
    }
    if q.b.iter().all(|b| b.tide.is_none() && b.flat.is_none()) {
        q.th = None;
    }
    q
}

/// A system with all the effects configured (none with a strength of zero), tame enough to run.
fn full(c: &mut Ctx) -> (Sys, usize) {
    let evo = c.r.chance(0.3);
    let (mut s, star) = if evo {
        c_run::evolving(c, On::all())
    } else {
        crate::c_traj::compact(c, On { evo: false, ..On::all() }, (2, 5), false)
    };
    s.on = On::all();
    if !evo {
        s.on.evo = false;
    }
    (s, star)
}

/// C19.
pub fn c19(c: &mut Ctx) {
    let kind = INTS[(c.case % 5) as usize];
    let (mut s, star) = full(c);
    let n = s.n();
    // A random subset is on.
    for e in EFFECTS {
        if c.r.chance(0.5) {
            *flag(&mut s.on, e) = false;
        }
    }
    if s.th.is_none() {
        return;
    }
    let p = s.shortest_period();
    let dt = p / *c.r.pick(&[40., 100.]);
    let steps = if c.thorough { 150. } else { 60. };
    let t = steps * dt;
    if s.tl < 1.2 * t || !gentle(&Sys { on: On { evo: s.on.evo, ..On::all() }, ..s.clone() }, dt) {
        c.ev("too-strong");
        return;
    }
    c.detail = serde_json::json!({ "sys": &s, "kind": kind, "dt": dt, "t": t });
    let base = match run_sim(&s, kind, dt, t) {
        Ok(r) => r,
        Err(m) if stop(&m) => {
            c.ev("encounter");
            return;
        }
        Err(m) => {
            c.fail("run-failed", m);
            return;
        }
    };
    let check = |c: &mut Ctx, name: &str, e: &str, q: &Sys, rounding: bool| {
        match run_sim(q, kind, dt, t) {
            Err(m) if stop(&m) => c.ev("encounter"),
            Err(m) => c.fail("run-failed", format!("{} {}: {}", name, e, m)),
            Ok(r) => {
                if rounding {
                    // Terms that are zero may still change the order of the operations.
                    let st = if r.t != base.t { at(&s, &r.st, r.t, base.t, p) } else { r.st.clone() };
                    let (d, l) = diff(&st, &base.st, star);
                    c.leq(name, d.max(l), if kind == Int::Ias15 { 1e-9 } else { 1e-10 }, || format!("{} {:?}: {} bodies", e, kind, n));
                } else {
                    let m = identical(&base, &r);
                    c.ok(name, m.is_none(), || format!("{} {:?} with {:?}: {}", e, kind, s.on, m.clone().unwrap()));
                }
            }
        }
    };
    for e in EFFECTS {
        let on = *flag(&mut s.on.clone(), e);
        if !on {
            // Configured but switched off: as if it were not there.
            check(c, "off-is-absent", e, &without(&s, e), false);
        }
        // Switched on, but set on no body.
        if !on {
            let mut q = without(&s, e);
            *flag(&mut q.on, e) = true;
            check(c, "on-nobody-is-absent", e, &q, false);
            // Only a central body, no orbiting one.
            let mut q = without(&s, e);
            *flag(&mut q.on, e) = true;
            let ok = match e {
                "tides" => {
                    q.th = s.th;
                    q.b[s.th.unwrap()].tide = s.b[s.th.unwrap()].tide.clone();
                    true
                }
                "flattening" => {
                    q.th = s.th;
                    q.b[s.th.unwrap()].flat = s.b[s.th.unwrap()].flat.clone();
                    true
                }
                "disk" => {
                    q.dh = s.dh;
                    true
                }
                _ => false,
            };
            if ok {
                check(c, "central-alone-is-absent", e, &q, true);
            }
            // Only orbiting bodies, no central one.
            let mut q = without(&s, e);
            *flag(&mut q.on, e) = true;
            let h = s.th.unwrap();
            for i in 0..n {
                match e {
                    "tides" if i != h => q.b[i].tide = s.b[i].tide.clone(),
                    "flattening" if i != h => q.b[i].flat = s.b[i].flat.clone(),
                    "relativity" => q.b[i].gr = s.b[i].gr,
                    "disk" => q.b[i].disk = s.b[i].disk,
                    _ => {}
                }
            }
            if !matches!(e, "wind" | "evolution") {
                check(c, "no-central-is-absent", e, &q, false);
            }
            // Zero strength.
            let mut q = s.clone();
            *flag(&mut q.on, e) = true;
            let mut done = true;
            for b in q.b.iter_mut() {
                match e {
                    "tides" => {
                        if b.tide.is_some() {
                            b.tide = Some(TideM::Ctl { scale: 1., sigma: 0., k2: 0. })
                        }
                    }
                    "flattening" => {
                        if b.flat.is_some() {
                            b.flat = Some(FlatM::Oblate { k: 0. })
                        }
                    }
                    "wind" => {
                        if let Some((_, sat)) = b.wind {
                            b.wind = Some((0., sat))
                        }
                    }
                    "disk" => {}
                    _ => done = false,
                }
            }
            if e == "disk" {
                if let Some((_, d)) = q.dh.as_mut() {
                    d.sigma0 = 0.;
                }
            }
            // Dynamical tides do not depend on the strength given by the user.
            if e == "tides" && q.b.iter().any(|b| b.evo != Evo::None) && q.on.evo {
                done = false;
            }
            if done {
                check(c, "zero-strength-is-absent", e, &q, true);
            }
        }
    }
    // Additivity, in one evaluation.
    let mut d = Driver::new(&s);
    for _ in 0..4 {
        let tt = if s.on.evo { c.r.uni(0., s.tl) } else { c.r.uni(0., 1e5) };
        let st = rand_state(&mut c.r, &s, star, tt, 0.3, 1., false);
        let o = d.eval(tt, &st, Ig::None);
        let (mut a, mut l, mut sa, mut sl) = (vec![Z3; n], vec![Z3; n], vec![0.; n], vec![0.; n]);
        for e in EFFECTS {
            if e == "evolution" || !*flag(&mut s.on, e) {
                continue;
            }
            let mut q = s.clone();
            q.on = On { evo: s.on.evo, ..On::none() };
            *flag(&mut q.on, e) = true;
            let x = Driver::new(&q).eval(tt, &st, Ig::None);
            for i in 0..n {
                a[i] += x.total.a[i];
                l[i] += x.total.dl[i];
                sa[i] += x.total.a[i].norm();
                sl[i] += x.total.dl[i].norm();
            }
        }
        for i in 0..n {
            c.veq("sum-of-accelerations", o.total.a[i], a[i], sa[i], 1e-12, || format!("body {} of {}, {:?}", i, n, s.on));
            c.veq("sum-of-torques", o.total.dl[i], l[i], sl[i], 1e-12, || format!("body {} of {}, {:?}", i, n, s.on));
        }
    }
    c.sig(format!("{:?} n={} star={} on={:?}", kind, n, star, [s.on.tides, s.on.flat, s.on.gr, s.on.disk, s.on.wind, s.on.evo].map(|b| b as u8)));
    c.sample(|| format!("{:?}: {} bodies, star {}, {} steps with {:?}; the other effects off, absent, on nobody, of zero strength", kind, n, star, base.steps, s.on));
}
