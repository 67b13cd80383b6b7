//! Monitors of the additional effects along integrated runs: what an effect changes in positions,
//! velocities and spins (run with the effect minus run without it), against the same difference of the
//! reference solution.
use crate::drive::*;
use crate::fw::Ctx;
use crate::phys::{self, PI};
use crate::sys::*;
use crate::util::*;

pub const COARSE: f64 = 100.;

/// Difference of two states relative to the star: position, velocity in units of the orbit, spin.
fn delta(on: &State, off: &State, star: usize) -> Vec<(V3, V3, V3)> {
    (0..on.x.len()).map(|i| ((on.x[i] - on.x[star]) - (off.x[i] - off.x[star]), (on.v[i] - on.v[star]) - (off.v[i] - off.v[star]), on.l[i] - off.l[i])).collect()
}

pub struct Judge {
    /// Relative error of the change of orbit and of spin for which there is something to see.
    pub orbit: Option<f64>,
    pub spin: Option<f64>,
    pub what: String,
}

/// Compare changes; the floor is relative to the full quantity.
fn judge(lib: &[(V3, V3, V3)], want: &[(V3, V3, V3)], at: &State, star: usize, floor: f64, moved: &[f64], unc: &[(V3, V3, V3)]) -> Judge {
    let mut j = Judge { orbit: None, spin: None, what: String::new() };
    for i in 0..lib.len() {
        if i != star {
            let (r, v) = ((at.x[i] - at.x[star]).norm(), (at.v[i] - at.v[star]).norm());
            let bad = !(lib[i].0.norm() + lib[i].1.norm() + lib[i].2.norm()).is_finite();
            let size = want[i].0.norm() / r + want[i].1.norm() / v;
            let err = ((lib[i].0 - want[i].0).norm() / r + (lib[i].1 - want[i].1).norm() / v - 0.5 * unc.get(i).map_or(0., |u| u.0.norm() / r + u.1.norm() / v)).max(0.);
            let err = if bad { f64::INFINITY } else { err };
            let e = if err.is_finite() { (err - floor).max(0.) / size.max(1e-300) } else { f64::INFINITY };
            // Too small to be judged (but it must be as small in the library).
            let e = if size < 30. * floor { if err < 2. * size + 30. * floor { continue } else { e } } else { e };
            if j.orbit.map_or(true, |q| e > q) {
                j.orbit = Some(e);
                j.what = format!("orbit of body {}: change {:?} {:?} want {:?} {:?} (relative size {:e})", i, lib[i].0, lib[i].1, want[i].0, want[i].1, size);
            }
        }
        let l = at.l[i].norm();
        let size = want[i].2.norm().max(0.3 * moved[i]);
        let err = ((lib[i].2 - want[i].2).norm() - 0.5 * unc.get(i).map_or(0., |u| u.2.norm())).max(0.);
        let fl = 1e-11 * l;
        if size > 30. * fl || err > 2. * size + 30. * fl || !err.is_finite() {
            let e = if err.is_finite() { (err - fl).max(0.) / size.max(1e-300) } else { f64::INFINITY };
            if j.spin.map_or(true, |q| e > q) {
                j.spin = Some(e);
                j.what += &format!(" spin of body {}: change {:?} want {:?} of {:e}", i, lib[i].2, want[i].2, l);
            }
        }
    }
    j
}

/// Run `s` with and without its effects with one integrator; both solutions against the reference.
/// `tol`: largest relative error of the change.
pub fn traj(c: &mut Ctx, name: &str, s: &Sys, star: usize, kinds: &[Int], periods: f64, spo: f64) {
    let p = s.shortest_period();
    let steps = (periods * spo).ceil();
    let t = periods * p;
    let dt = t / steps;
    let mut s = s.clone();
    if !s.on.evo {
        s.tl = 2. * t;
    }
    if s.tl < 1.1 * t {
        return;
    }
    let mut off = s.clone();
    off.on = On::none();
    if s.on.evo {
        off.on.evo = true;
    }
    c.detail = serde_json::json!({ "sys": if s.b.iter().any(|b| matches!(b.tide, Some(TideM::Kaula { .. }))) { serde_json::json!("Kaula") } else { serde_json::json!(&s) }, "dt": dt, "t": t });
    let init = phys::initial(&s);
    let reference = |q: &Sys, t: f64| phys::integrate(q, &init, 0., t, 0.1 * p, if name == "kaula" { 1e-11 } else { 1e-12 });
    // How much each spin moves on the way (its net change may nearly cancel).
    let mut moved = vec![0.; s.n()];
    let mut cur = init.clone();
    for q in 0..16 {
        let nx = phys::integrate(&s, &cur, t * q as f64 / 16., t * (q + 1) as f64 / 16., 0.1 * p, 1e-9);
        for i in 0..s.n() {
            moved[i] += (nx.l[i] - cur.l[i]).norm();
        }
        cur = nx;
    }
    let ref_on = reference(&s, t);
    let ref_off = reference(&off, t);
    if !safe(&s, &ref_on, 1.05) || !safe(&s, &ref_off, 1.05) {
        return;
    }
    let want = delta(&ref_on, &ref_off, star);
    for &kind in kinds {
        let (a, b) = match (run_sim(&s, kind, dt, t), run_sim(&off, kind, dt, t)) {
            (Ok(a), Ok(b)) => (a, b),
            (Err(m), _) | (_, Err(m)) if m.contains("destroyed by") || m.contains("Collision") || m.contains("ejected") => {
                // Whether that is right is decided by C20.
                c.ev("encounter");
                continue;
            }
            (Err(m), _) | (_, Err(m)) => {
                c.fail("run-failed", format!("{} {:?}: {}", name, kind, m));
                continue;
            }
        };
        if kind != Int::Ias15 && diff(&b.st, &ref_off, star).0 > 3e-3 {
            // The step does not resolve the orbits: the change cannot be judged.
            c.ev("unresolved");
            continue;
        }
        let j = if kind == Int::Ias15 {
            // Its steps are its own: reference at the times it ended.
            let (wa, wb) = (reference(&s, a.t), reference(&off, b.t));
            let mut lib = delta(&a.st, &wa, star);
            let wl = delta(&b.st, &wb, star);
            let w2 = delta(&wa, &reference(&off, a.t), star);
            for i in 0..lib.len() {
                lib[i] = (lib[i].0 - wl[i].0 + w2[i].0, lib[i].1 - wl[i].1 + w2[i].1, lib[i].2 + w2[i].2);
            }
            judge(&lib, &w2, &wa, star, if name == "kaula" || name == "creep" { 3e-9 } else { 1e-9 }, &moved, &[])
        } else if kind == Int::LeapFrog {
            // First order for forces that depend on the velocity: extrapolate two step sizes.
            let (a2, b2) = match (run_sim(&s, kind, dt / 2., t), run_sim(&off, kind, dt / 2., t)) {
                (Ok(a), Ok(b)) => (a, b),
                _ => {
                    c.ev("encounter");
                    continue;
                }
            };
            let lib = delta(&a.st, &b.st, star);
            let mut l2 = delta(&a2.st, &b2.st, star);
            for i in 0..lib.len() {
                l2[i] = (l2[i].0 * 2. - lib[i].0, l2[i].1 * 2. - lib[i].1, l2[i].2 * 2. - lib[i].2);
            }
            let unc: Vec<_> = (0..lib.len()).map(|i| (l2[i].0 - lib[i].0, l2[i].1 - lib[i].1, l2[i].2 - lib[i].2)).collect();
            judge(&l2, &want, &ref_on, star, if name == "kaula" || name == "creep" { 3e-9 } else { 1e-10 }, &moved, &unc)
        } else {
            judge(&delta(&a.st, &b.st, star), &want, &ref_on, star, if name == "kaula" || name == "creep" { 3e-9 } else { 1e-10 }, &moved, &[])
        };
        let tol = tolerance(kind)
            * match name {
                "creep" => 10.,
                "tides" => 0.3,
                // The disk's inner edge is a kink.
                "disk" => if kind == Int::Ias15 { 20. } else { 2. },
                "flattening" => 4.,
                "relativity" => 0.3,
                _ => 1.,
            };
        if let Some(e) = j.orbit {
            c.leq(&format!("orbit-{}-{:?}", name, kind), e, tol, || format!("{:?} {} bodies star {}: {}", kind, s.n(), star, j.what));
        }
        // Creep: stiff, and nearly cancelling over an orbit.
        let tol = tol
            * match name {
                "creep" => 5.,
                "tides" => 0.1,
                "flattening" => 0.1,
                // The torque depends on nothing but the spin: no error of the orbit enters.
                "wind" => if kind == Int::Ias15 { 1e-2 } else { 1e-4 },
                _ => 1.,
            };
        if let Some(e) = j.spin {
            c.leq(&format!("spin-{}-{:?}", name, kind), e, tol, || format!("{:?} {} bodies star {}: {}", kind, s.n(), star, j.what));
        }
        if j.orbit.is_some() || j.spin.is_some() {
            c.sig(format!("run {} {:?} n={} star={}", name, kind, s.n(), star));
        } else {
            c.ev("too-small-to-see");
        }
    }
    c.sample(|| format!("{}: {} bodies, star {}, {} steps of {:.4} days with {:?}", name, s.n(), star, steps, dt, kinds));
}

fn tolerance(kind: Int) -> f64 {
    match kind {
        Int::Ias15 => 1e-3,
        _ => 3e-2,
    }
}

/// A compact system in which the effects act strongly within a few orbits.
pub fn compact(c: &mut Ctx, want: On, n: (usize, usize), planar: bool) -> (Sys, usize) {
    let o = GenOpt { n, emax: 0.25, imax: if planar { 0. } else { 0.6 }, mr: *c.r.pick(&[(1e-6, 1e-4), (1e-5, 1e-3), (1e-4, 1e-3)]), a0: (0.008, 0.03), coplanar_spin: planar, ..GenOpt::default() };
    let (mut s, star) = gen(&mut c.r, &o);
    s.on = want;
    if want.tides || want.flat {
        s.th = Some(star);
    }
    for i in 0..s.n() {
        if want.tides && (i == star || c.r.chance(0.85)) {
            let kdt = c.r.log(1e-3, 3e-2);
            s.b[i].tide = Some(TideM::Ctl { scale: *c.r.pick(&[1., 1., 0.5, 3.]), sigma: sigma_of(s.b[i].r, kdt), k2: c.r.uni(0.05, 1.) });
        }
        if want.flat && (i == star || c.r.chance(0.85)) {
            s.b[i].flat = Some(FlatM::Oblate { k: c.r.uni(0.1, 1.5) });
        }
        if want.gr && i != star && c.r.chance(0.85) {
            s.b[i].gr = true;
        }
        if want.disk && i != star && c.r.chance(0.85) {
            s.b[i].disk = true;
        }
        if want.wind && c.r.chance(0.7) {
            let w = s.b[i].w.norm();
            let sat = w * *c.r.pick(&[0.3, 3.]);
            // Braking time of some days to years.
            let inertia = s.b[i].m * s.b[i].rg.powi(2) * s.b[i].r.powi(2);
            let k = inertia / (w.min(sat).powi(2) * (s.b[i].r / crate::consts::R_SUN / s.b[i].m).sqrt() * c.r.log(10., 1e4));
            s.b[i].wind = Some((k, sat));
        }
    }
    if want.gr {
        s.gh = Some((star, *c.r.pick(&[Gr::Kidder, Gr::Anderson, Gr::Newhall])));
    }
    if want.disk {
        s.dh = Some((star, DiskP { rin: if c.r.chance(0.5) { 0. } else { 0.004 }, rout: c.r.uni(1., 100.), life: c.r.log(3., 1e4), alpha: c.r.log(1e-2, 1e-1), sigma0: 1.126e-7 * c.r.log(1e4, 1e6), mu: c.r.uni(1., 3.) }));
    }
    (s, star)
}

fn kinds(c: &mut Ctx) -> Vec<Int> {
    let a = INTS[(c.case % 5) as usize];
    vec![a]
}

fn one(c: &mut Ctx, name: &str, want: On, planar: bool) {
    let (s, star) = compact(c, want, (2, 4), planar);
    let k = kinds(c);
    let per = c.r.uni(4., 12.);
    traj(c, name, &s, star, &k, per, if k[0] == Int::LeapFrog { 800. } else { COARSE });
}

pub fn c04t(c: &mut Ctx) {
    one(c, "tides", On { tides: true, ..On::none() }, false);
}
pub fn c06t(c: &mut Ctx) {
    one(c, "flattening", On { flat: true, ..On::none() }, false);
}
pub fn c09t(c: &mut Ctx) {
    one(c, "relativity", On { gr: true, ..On::none() }, false);
}
pub fn c10t(c: &mut Ctx) {
    one(c, "wind", On { wind: true, ..On::none() }, false);
}
pub fn c11t(c: &mut Ctx) {
    one(c, "disk", On { disk: true, ..On::none() }, false);
}
pub fn c07t(c: &mut Ctx) {
    let (mut s, star) = compact(c, On { tides: true, flat: true, ..On::none() }, (2, 3), true);
    s.on.flat = c.r.chance(0.5);
    for i in 0..s.n() {
        if s.b[i].tide.is_some() {
            let per = s.shortest_period();
            let g = 2. * PI / per * c.r.log(0.3, 10.);
            let eta = 3. * K2 * s.b[i].m * s.b[i].m / (8. * PI * s.b[i].r.powi(4) * g);
            s.b[i].tide = Some(TideM::Creep { eta });
            s.b[i].flat = Some(FlatM::Creep { eta });
        } else {
            s.b[i].flat = None;
        }
    }
    let k = kinds(c);
    let per = c.r.uni(4., 12.);
    traj(c, "creep", &s, star, &k, per, if k[0] == Int::LeapFrog { 800. } else { COARSE });
}
pub fn c08t(c: &mut Ctx) {
    let (mut s, star) = compact(c, On { tides: true, ..On::none() }, (2, 2), true);
    // The number of terms of the series changes with the eccentricity: stay away from the jumps.
    let st = phys::initial(&s);
    let o = 1 - star;
    let e = phys::kepler(K2 * (s.b[0].m + s.b[1].m), st.x[o] - st.x[star], st.v[o] - st.v[star]).e;
    if [0.1, 0.15, 0.2, 0.25, 0.3].iter().any(|q| (e - q).abs() < 5e-3) {
        c.ev("at-a-jump");
        return;
    }
    for i in 0..s.n() {
        s.b[i].tide = if i == star { Some(TideM::Ctl { scale: 1., sigma: 0., k2: 0. }) } else { Some(gen_kaula(&mut c.r)) };
    }
    let k = kinds(c);
    let per = c.r.uni(3., 6.);
    traj(c, "kaula", &s, star, &k, per, if k[0] == Int::LeapFrog { 400. } else { COARSE });
}
