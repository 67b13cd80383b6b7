//! One-evaluation monitors of the additional effects: the accelerations, torques and derived
//! quantities that the library computes for arbitrary states, against the reference formulas.
use crate::drive::*;
use crate::fw::Ctx;
use crate::phys::{self, Eff};
use crate::sys::*;
use crate::tables;
use crate::util::*;
use posidonius::IgnoreGravityTerms as Ig;

pub const IGS: [Ig; 3] = [Ig::None, Ig::WHFastOne, Ig::WHFastTwo];

fn masses(s: &Sys) -> Vec<f64> {
    s.b.iter().map(|b| b.m).collect()
}

/// Compare one effect; `scale` per body for accelerations, torques on the scale of their own size.
pub fn same(c: &mut Ctx, name: &str, got: &Eff, want: &Eff, asc: &[f64], lsc: &[f64], tol: f64, what: &str) {
    for i in 0..got.a.len() {
        c.veq(&format!("{}-acceleration", name), got.a[i], want.a[i], asc[i], tol, || format!("{} body {}", what, i));
        c.veq(&format!("{}-torque", name), got.dl[i], want.dl[i], lsc[i], tol, || format!("{} body {}", what, i));
    }
}

/// Size of the terms of the tidal force and torque: the sums may cancel, the terms may not be wrong.
fn scales(s: &Sys, e: &Eff, st: &State, h: usize) -> (Vec<f64>, Vec<f64>) {
    let n = s.n();
    let mut a: Vec<f64> = e.a.iter().map(|v| v.norm()).collect();
    let mut l: Vec<f64> = e.dl.iter().map(|v| v.norm()).collect();
    // host: sum of the sizes of the reactions
    a[h] = (0..n).filter(|&i| i != h).map(|i| s.b[i].m * a[i]).sum::<f64>() / s.b[h].m;
    l[h] = l[h].max((0..n).filter(|&i| i != h).map(|i| l[i]).fold(0., f64::max) * 1e-3);
    for i in 0..n {
        if i != h {
            // A torque is the moment of a force: rounding of the force limits it.
            let d = (st.x[i] - st.x[h]).norm();
            l[i] = l[i].max(1e-5 * s.b[i].m * a[i] * d);
        }
    }
    (a, l)
}

/// A random state; sometimes special: circular synchronous, retrograde spin, aligned spins, no spin.
fn special_state(r: &mut Rng, s: &Sys, comp: Option<usize>, star: usize, h: usize, t: f64) -> (State, &'static str) {
    let mut st = rand_state_comp(r, s, comp, star, t, 0.5, 3., false);
    let p = phys::pars(s, t);
    match r.below(8) {
        0 => {
            // Circular, synchronous, no obliquity for one orbiting body.
            let i = loop {
                let i = r.below(s.n());
                if i != h && Some(i) != comp {
                    break i;
                }
            };
            let d = (st.x[i] - st.x[h]).norm();
            let mu = K2 * (s.b[i].m + s.b[h].m);
            let u = r.unit();
            let x = (st.x[i] - st.x[h]) / d;
            let tdir = u.cross(x).unit();
            st.v[i] = st.v[h] + tdir * (mu / d).sqrt();
            st.l[i] = x.cross(tdir) * ((mu / d.powi(3)).sqrt() * p[i].inertia);
            (st, "synchronous")
        }
        1 => {
            for i in 0..s.n() {
                st.l[i] = V3(0., 0., st.l[i].norm() * r.sign());
            }
            (st, "spin along z")
        }
        2 => {
            for i in 0..s.n() {
                if r.chance(0.5) {
                    st.l[i] = Z3;
                }
            }
            (st, "without spin")
        }
        3 => {
            for i in 0..s.n() {
                if i != h {
                    let o = (st.x[i] - st.x[h]).cross(st.v[i] - st.v[h]).unit();
                    st.l[i] = o * st.l[i].norm() * r.sign();
                }
            }
            (st, "no obliquity")
        }
        _ => (st, "any"),
    }
}

fn base(c: &mut Ctx, want: On) -> (Sys, usize) {
    let o = GenOpt { n: (2, if c.r.chance(0.3) { 10 } else { 5 }), emax: 0.3, imax: 1., mr: *c.r.pick(&[(1e-7, 1e-3), (1e-4, 0.3)]), ..GenOpt::default() };
    let (mut s, star) = gen(&mut c.r, &o);
    decorate(&mut c.r, &mut s, star, want);
    (s, star)
}

/// Sometimes a distant companion makes the host of the effects not the most massive body.
fn maybe_companion(c: &mut Ctx, s: &mut Sys, star: usize) -> (Option<usize>, usize) {
    if s.n() < 10 && s.gh.is_none() && c.r.chance(0.2) {
        let k = add_companion(&mut c.r, s, false);
        (Some(k), if star >= k { star + 1 } else { star })
    } else {
        (None, star)
    }
}

fn tides_only() -> On {
    On { tides: true, ..On::none() }
}

/// C04: constant time lag.
pub fn c04(c: &mut Ctx) {
    let evo = c.r.chance(0.4);
    let (mut s, star) = base(c, tides_only());
    if evo {
        s.on.evo = true;
        let k = if c.r.chance(0.7) { star } else { c.r.below(s.n()) };
        set_evo(&mut c.r, &mut s, k);
        // Several bodies with their own internal structure at once.
        for i in 0..s.n() {
            if i != k && c.r.chance(0.4) {
                set_second_evo(&mut c.r, &mut s, i);
            }
        }
    }
    let (comp, star) = maybe_companion(c, &mut s, star);
    let h = s.th.unwrap();
    c.detail = serde_json::json!({ "sys": &s });
    let mut d = Driver::new(&s);
    for q in 0..8 {
        let t = if s.on.evo { c.r.uni(0., s.tl) } else { c.r.uni(0., 1e6) };
        let (mut st, mut kind) = special_state(&mut c.r, &s, comp, star, h, t);
        let p = phys::pars(&s, t);
        if s.on.evo && c.r.chance(0.3) && all_bound(&s, &st, h) {
            // Rotation in and around the range of frequencies of the inertial waves, also in the host.
            kind = "inertial waves";
            let j = loop {
                let j = c.r.below(s.n());
                if j != h {
                    break j;
                }
            };
            for i in 0..s.n() {
                let o = if i == h { j } else { i };
                let n = phys::kepler(crate::consts::K2 * (s.b[o].m + s.b[h].m), st.x[o] - st.x[h], st.v[o] - st.v[h]).n;
                st.l[i] = c.r.unit() * (n * c.r.uni(0.3, 2.) * p[i].inertia);
            }
        }
        if phys::near_regime(&s, &p, &st) && s.on.evo {
            continue;
        }
        // Bound orbit about the tidal host only where the model needs it.
        if s.on.evo && !all_bound(&s, &st, h) {
            continue;
        }
        let ig = *c.r.pick(&IGS);
        let out = d.eval(t, &st, ig);
        let want = phys::tides(&s, &p, &st);
        let (asc, _) = scales(&s, &want.eff, &st, h);
        let (asc, lsc) = ctl_scales(&s, &p, &st, h, asc);
        same(c, "tide", &out.tides, &want.eff, &asc, &lsc, 1e-10, &format!("state {} ({}) host {} star {}", q, kind, h, star));
        for i in 0..s.n() {
            if i != h && s.b[i].tide.is_some() {
                // Scale: what the same tide would dissipate with everything adding up.
                let m = (st.v[i] - st.v[h]).norm() + (st.x[i] - st.x[h]).norm() * (st.l[i] / p[i].inertia).norm();
                let sp = phys::sigma(&s, &p, &phys::spins(&p, &st), &st, i, h);
                let dd = (st.x[i] - st.x[h]).norm();
                let f = 18. * s.b[h].m.powi(2) * p[i].r.powi(10) * sp / dd.powi(8);
                c.leq("heat", (out.heat[i] - want.heat[i]).abs(), 1e-11 * f * m * m + 1e-300, || format!("tidal heat of body {} ({}): {:e} want {:e}", i, kind, out.heat[i], want.heat[i]));
                c.ok("heat-sign", out.heat[i] >= -1e-11 * f * m * m, || format!("negative tidal heat {:e} of body {} ({})", out.heat[i], i, kind));
            } else {
                c.ok("no-heat", out.heat[i] == 0., || format!("tidal heat {:e} of body {} that raises none", out.heat[i], i));
            }
        }
        for i in 0..s.n() {
            c.veq("sum", out.total.a[i], out.tides.a[i], 0., 1e-14, || "total of a single effect".into());
        }
        c.sig(format!("n={} host={} star={} {} evo={} {:?}", s.n(), h, star, kind, s.on.evo, ig));
    }
    c.sample(|| format!("constant time lag: {} bodies, host {}, star {}", s.n(), h, star));
}

/// Scales of the terms of the constant-time-lag force and torque, which cancel near synchronism.
fn ctl_scales(s: &Sys, p: &[phys::Par], st: &State, h: usize, mut asc: Vec<f64>) -> (Vec<f64>, Vec<f64>) {
    let w = phys::spins(p, st);
    let mut lsc = vec![0.; s.n()];
    for i in 0..s.n() {
        if i != h && s.b[i].tide.is_some() {
            let (dd, vv) = ((st.x[i] - st.x[h]).norm(), (st.v[i] - st.v[h]).norm());
            let own = 4.5 * s.b[h].m.powi(2) * p[i].r.powi(10) * phys::sigma(s, p, &w, st, i, h) / dd.powi(7) * (dd * w[i].norm() + vv);
            let host = 4.5 * s.b[i].m.powi(2) * p[h].r.powi(10) * phys::sigma(s, p, &w, st, h, i) / dd.powi(7) * (dd * w[h].norm() + vv);
            lsc[i] += own;
            lsc[h] += host;
            let f = (own + host) / dd;
            asc[i] += f / s.b[i].m;
            asc[h] += f / s.b[h].m;
        }
    }
    (asc, lsc)
}

pub fn all_bound(s: &Sys, st: &State, h: usize) -> bool {
    (0..s.n()).filter(|&i| i != h).all(|i| {
        let mu = K2 * (s.b[i].m + s.b[h].m);
        let x = st.x[i] - st.x[h];
        let v = st.v[i] - st.v[h];
        0.5 * v.norm2() < 0.98 * mu / x.norm()
    })
}

/// C06: oblate spheroids.
pub fn c06(c: &mut Ctx) {
    let (mut s, star) = base(c, On { flat: true, ..On::none() });
    if c.r.chance(0.3) {
        s.on.evo = true;
        let k = c.r.below(s.n());
        set_evo(&mut c.r, &mut s, k);
    }
    let (comp, star) = maybe_companion(c, &mut s, star);
    let h = s.th.unwrap();
    c.detail = serde_json::json!({ "sys": &s });
    let mut d = Driver::new(&s);
    for q in 0..8 {
        let t = if s.on.evo { c.r.uni(0., s.tl) } else { 0. };
        let (st, kind) = special_state(&mut c.r, &s, comp, star, h, t);
        let p = phys::pars(&s, t);
        let ig = *c.r.pick(&IGS);
        let out = d.eval(t, &st, ig);
        let want = phys::flat(&s, &p, &st);
        let (asc, mut lsc) = scales(&s, &want, &st, h);
        for i in 0..s.n() {
            let f = (st.x[i] - st.x[h]).norm() * s.b[i].m * asc[i];
            lsc[i] = 10. * lsc[i].max(1e-4 * f);
            lsc[h] = lsc[h].max(1e-3 * f);
        }
        same(c, "flattening", &out.flat, &want, &asc, &lsc, 1e-10, &format!("state {} ({}) host {} star {}", q, kind, h, star));
        // The force is the gradient of the potential of both bodies (numerical derivative).
        if q == 0 {
            gradient(c, &s, &p, &st, h, &out.flat);
        }
        c.sig(format!("n={} host={} star={} {} evo={}", s.n(), h, star, kind, s.on.evo));
    }
    c.sample(|| format!("oblate spheroids: {} bodies, host {}, star {}", s.n(), h, star));
}

/// J2 potential energy of each pair, differentiated numerically.
fn gradient(c: &mut Ctx, s: &Sys, p: &[phys::Par], st: &State, h: usize, got: &Eff) {
    let w = phys::spins(p, st);
    for i in 0..s.n() {
        let (ki, kh) = match (&s.b[i].flat, &s.b[h].flat) {
            (Some(FlatM::Oblate { k: a }), Some(FlatM::Oblate { k: b })) if i != h => (*a, *b),
            _ => continue,
        };
        let pot = |x: V3| {
            let d = x.norm();
            let one = |m: f64, other: f64, r: f64, k: f64, om: V3| {
                let o = om.norm();
                if o == 0. {
                    return 0.;
                }
                // J2 = k omega^2 R^3 / (3 G m)
                let j2 = k * o * o * r.powi(3) / (3. * K2 * m);
                let sn = x.dot(om) / (d * o);
                K2 * m * other / d * j2 * (r / d).powi(2) * 0.5 * (3. * sn * sn - 1.)
            };
            one(s.b[h].m, s.b[i].m, p[h].r, kh, w[h]) + one(s.b[i].m, s.b[h].m, p[i].r, ki, w[i])
        };
        let x = st.x[i] - st.x[h];
        let e = 1e-4 * x.norm();
        let der = |u: V3| -(8. * (pot(x + e * u) - pot(x - e * u)) - (pot(x + 2. * e * u) - pot(x - 2. * e * u))) / (12. * e);
        let f = V3(der(V3(1., 0., 0.)), der(V3(0., 1., 0.)), der(V3(0., 0., 1.)));
        c.veq("gradient", got.a[i] * s.b[i].m, f, f.norm(), 1e-7, || format!("body {}", i));
    }
}

/// Creep system: coplanar, spins along z.
fn creep_sys(c: &mut Ctx) -> (Sys, usize) {
    let o = GenOpt { n: (2, 5), emax: 0.35, imax: 0., mr: *c.r.pick(&[(1e-7, 1e-3), (1e-3, 0.3)]), coplanar_spin: true, ..GenOpt::default() };
    let (mut s, star) = gen(&mut c.r, &o);
    let tid = c.r.chance(0.85);
    let fl = !tid || c.r.chance(0.6);
    s.on = On { tides: tid, flat: fl, ..On::none() };
    s.th = Some(star);
    for i in 0..s.n() {
        if i == star || c.r.chance(0.8) {
            // relaxation factor gamma from far below to far above the orbital frequencies
            let g = c.r.log(1e-4, 1e6);
            let eta = if c.r.chance(0.12) { 0. } else { 3. * K2 * s.b[i].m * s.b[i].m / (8. * phys::PI * s.b[i].r.powi(4) * g) };
            if tid && (i == star || c.r.chance(0.9)) {
                s.b[i].tide = Some(TideM::Creep { eta });
            }
            if fl && (i == star || c.r.chance(0.9)) {
                s.b[i].flat = Some(FlatM::Creep { eta });
            }
        }
    }
    (s, star)
}

/// C07: creep tides and flattening.
pub fn c07(c: &mut Ctx) {
    let (mut s, mut star) = creep_sys(c);
    let mut comp = None;
    if c.r.chance(0.25) {
        comp = Some(add_companion(&mut c.r, &mut s, true));
        star = s.th.unwrap();
    }
    c.detail = serde_json::json!({ "sys": &s });
    let mut d = Driver::new(&s);
    for q in 0..8 {
        let mut st = rand_state_comp(&mut c.r, &s, comp, star, 0., 0.35, 0., true);
        let p = phys::pars(&s, 0.);
        if c.r.chance(0.6) {
            // spins near synchronism, on both sides
            for i in 0..s.n() {
                let k = if i == star { (0..s.n()).find(|&k| k != star && Some(k) != comp).unwrap() } else { i };
                let kp = phys::kepler(K2 * (s.b[k].m + s.b[star].m), st.x[k] - st.x[star], st.v[k] - st.v[star]);
                st.l[i] = V3(0., 0., kp.n * c.r.uni(0.5, 2.5) * p[i].inertia);
            }
        }
        if phys::creep_edge(&s, &p, &st) {
            continue;
        }
        let ig = *c.r.pick(&IGS);
        let out = d.eval(0., &st, ig);
        let tid = phys::tides(&s, &p, &st);
        let fl = phys::flat(&s, &p, &st);
        let what = format!("state {} star {}", q, star);
        let sc = |e: &Eff| {
            let (a, mut l) = scales(&s, e, &st, star);
            for i in 0..s.n() {
                l[i] = 1e4 * l[i].max(1e-3 * s.b[i].m * a[i] * (st.x[i] - st.x[star]).norm());
            }
            // the host's torque is a sum over the orbiting bodies
            let (ms, rs) = (s.b[star].m, p[star].r);
            l[star] = l[star].max(100. * (0..s.n()).filter(|&i| i != star).map(|i| K2 * s.b[i].m.powi(2) * rs.powi(5) / (st.x[i] - st.x[star]).norm().powi(6)).sum::<f64>());
            (a, l)
        };
        if s.on.tides {
            let (a, l) = sc(&tid.eff);
            same(c, "creep-tide", &out.tides, &tid.eff, &a, &l, 1e-8, &what);
        }
        if s.on.flat {
            let (a, l) = sc(&fl);
            same(c, "creep-flattening", &out.flat, &fl, &a, &l, 1e-8, &what);
        }
        for i in 0..s.n() {
            for e in [&out.tides, &out.flat] {
                c.ok("creep-plane", e.a[i].2 == 0. && e.dl[i].0 == 0. && e.dl[i].1 == 0., || format!("force or torque out of the plane: {:?} {:?}", e.a[i], e.dl[i]));
            }
            // Torque of the orbiting body balances the moment of its own force.
            if i != star && s.on.tides {
                let x = st.x[i] - st.x[star];
                let mom = x.cross(out.tides.a[i] * s.b[i].m);
                c.leq("creep-balance", (mom + out.tides.dl[i]).norm(), 1e-11 * (out.tides.a[i] * s.b[i].m).norm() * x.norm() + 1e-300, || format!("body {}", i));
            }
            if let Some(TideM::Creep { eta }) = &s.b[i].tide {
                if *eta == 0. && i != star {
                    c.ok("creep-null", out.tides.a[i] == Z3 && out.tides.dl[i] == Z3, || format!("body {} with null viscosity responds: {:?} {:?}", i, out.tides.a[i], out.tides.dl[i]));
                }
            }
        }
        c.sig(format!("n={} host={} companion={:?} tides={} flat={}", s.n(), star, comp, s.on.tides, s.on.flat));
    }
    c.sample(|| format!("creep: {} bodies, star {} tides {} flattening {}", s.n(), star, s.on.tides, s.on.flat));
}

/// C08: Kaula tides in the orbiting bodies.
pub fn c08(c: &mut Ctx) {
    let o = GenOpt { n: (2, 4), emax: 0.4, imax: 0., mr: *c.r.pick(&[(1e-7, 1e-3), (1e-3, 0.1)]), coplanar_spin: true, ..GenOpt::default() };
    let (mut s, star) = gen(&mut c.r, &o);
    s.on.tides = true;
    s.th = Some(star);
    s.b[star].tide = Some(TideM::Ctl { scale: 1., sigma: 0., k2: 0. });
    for i in 0..s.n() {
        if i != star && (s.n() == 2 || c.r.chance(0.8)) {
            s.b[i].tide = Some(gen_kaula(&mut c.r));
        }
    }
    let mut comp = None;
    let mut star = star;
    if c.r.chance(0.25) {
        comp = Some(add_companion(&mut c.r, &mut s, true));
        star = s.th.unwrap();
    }
    c.detail = serde_json::json!({ "masses": masses(&s), "star": star });
    let mut d = Driver::new(&s);
    for q in 0..5 {
        let emax = *c.r.pick(&[0., 0.02, 0.1, 0.2, 0.4]);
        let tilt = q >= 3;
        let mut st = rand_state_comp(&mut c.r, &s, comp, star, 0., emax, if tilt { 0.5 } else { 0. }, true);
        let p = phys::pars(&s, 0.);
        for i in 0..s.n() {
            if i != star {
                let kp = phys::kepler(K2 * (s.b[i].m + s.b[star].m), st.x[i] - st.x[star], st.v[i] - st.v[star]);
                let om = kp.n * *c.r.pick(&[0.21, 0.9, 1.0001, 1.3, 1.7, 3.07, 10.3]);
                let o = (st.x[i] - st.x[star]).cross(st.v[i] - st.v[star]).unit();
                let axis = if tilt { (o + c.r.unit() * 0.4).unit() } else { V3(0., 0., 1.) };
                st.l[i] = axis * om * p[i].inertia;
            }
        }
        let near = (0..s.n()).filter(|&i| i != star).any(|i| {
            let e = phys::kepler(K2 * (s.b[i].m + s.b[star].m), st.x[i] - st.x[star], st.v[i] - st.v[star]).e;
            [0.1, 0.15, 0.2, 0.25, 0.3].iter().any(|b| (e - b).abs() < 1e-6) || (e < 1e-7 && e > 1e-9)
        });
        if near {
            continue;
        }
        let out = d.eval(0., &st, *c.r.pick(&IGS));
        let (mut sum, mut sz) = (Z3, 0.);
        for i in 0..s.n() {
            sum += s.b[i].m * out.tides.a[i];
            sz += s.b[i].m * out.tides.a[i].norm();
        }
        c.leq("kaula-reaction", sum.norm(), 1e-12 * sz + 1e-300, || "the host does not feel the reaction".into());
        if !tilt {
            let want = phys::tides(&s, &p, &st).eff;
            let (asc, lsc) = scales(&s, &want, &st, star);
            let mut ee: f64 = 0.;
            for i in 0..s.n() {
                let kp = phys::kepler(K2 * (s.b[i].m + s.b[star].m), st.x[i] - st.x[star], st.v[i] - st.v[star]);
                if i != star {
                    // The code has the exact G_210 where the tables are truncated series.
                    ee = if s.b[i].tide.is_some() { ee.max(kp.e) } else { ee };
                    c.veq("kaula-acceleration", out.tides.a[i], want.a[i], asc[i], 1e-8 + 60. * kp.e.powi(8), || format!("body {} e {}", i, kp.e));
                }
                if i != star {
                    let x = st.x[i] - st.x[star];
                    // relative to the size of the torque with everything in phase
                    let sc = lsc[i].max(1e-3 * s.b[i].m * asc[i] * x.norm());
                    c.veq("kaula-torque", out.tides.dl[i], want.dl[i], sc, 3e-8, || format!("body {} e<{}", i, emax));
                }
            }
            c.veq("kaula-acceleration", out.tides.a[star], want.a[star], asc[star], 1e-8 + 60. * ee.powi(8), || format!("host, e {}", ee));
        }
        // Linearity in the table: doubling the table doubles the response; a zero table gives none.
        let scaled = |f: f64| {
            let mut q = s.clone();
            for b in q.b.iter_mut() {
                if let Some(TideM::Kaula { re, im, .. }) = &mut b.tide {
                    re.iter_mut().chain(im.iter_mut()).for_each(|v| *v *= f);
                }
            }
            q
        };
        if q == 0 || q == 3 {
            for f in [0., -2.5] {
                let o2 = Driver::new(&scaled(f)).eval(0., &st, Ig::None);
                for i in 0..s.n() {
                    let l = out.tides.dl[i].norm().max(1e-6 * s.b[i].m * out.tides.a[i].norm() * (st.x[i] - st.x[star]).norm());
                    c.veq("kaula-linear", o2.tides.a[i], f * out.tides.a[i], out.tides.a[i].norm(), 1e-12, || format!("body {} factor {}", i, f));
                    c.veq("kaula-linear-torque", o2.tides.dl[i], f * out.tides.dl[i], l, 1e-9, || format!("body {} factor {}", i, f));
                }
            }
            // Purely real table: no secular torque in the plane.
            if !tilt {
                let mut q = s.clone();
                for b in q.b.iter_mut() {
                    if let Some(TideM::Kaula { im, .. }) = &mut b.tide {
                        im.iter_mut().for_each(|v| *v = 0.);
                    }
                }
                let o3 = Driver::new(&q).eval(0., &st, Ig::None);
                for i in 0..s.n() {
                    let l = s.b[i].m * o3.tides.a[i].norm() * (st.x[i] - st.x[star]).norm();
                    c.leq("kaula-elastic", o3.tides.dl[i].norm(), 1e-11 * l + 1e-300, || format!("torque on body {} without dissipation", i));
                }
            }
        }
        c.sig(format!("n={} host={} companion={:?} e<{} tilt={}", s.n(), star, comp, emax, tilt));
    }
    c.sample(|| format!("Kaula tides: {} bodies, star {}", s.n(), star));
}

/// C09: general relativity.
pub fn c09(c: &mut Ctx) {
    let (mut s, star) = base(c, On { gr: true, ..On::none() });
    let g = [Gr::Kidder, Gr::Anderson, Gr::Newhall][(c.case % 3) as usize];
    s.gh = Some((star, g));
    for i in 0..s.n() {
        // Keep the expansion parameter small, as the models assume.
        s.b[i].r = s.b[i].r.min(1e-3);
    }
    c.detail = serde_json::json!({ "sys": &s });
    let spinless = g == Gr::Kidder && c.r.chance(0.4);
    let mut d = Driver::new(&s);
    for q in 0..6 {
        let mut st = rand_state(&mut c.r, &s, star, 0., 0.6, 3., false);
        if spinless {
            st.l.iter_mut().for_each(|l| *l = Z3);
        }
        let p = phys::pars(&s, 0.);
        let ig = *c.r.pick(&IGS);
        let out = d.eval(0., &st, ig);
        let what = format!("{:?} state {} {:?} star {}", g, q, ig, star);
        match g {
            Gr::Kidder => {
                let w = phys::gr_kidder(&s, &p, &st);
                let (asc, _) = scales(&s, &w.first, &st, star);
                // The first-order acceleration must be there whatever the rest.
                let right = (0..s.n()).all(|i| (out.gr.a[i] - w.right.a[i]).norm() <= 1e-10 * asc[i].max(w.right.a[i].norm()) && (out.gr.dl[i] - w.right.dl[i]).norm() <= 1e-9 * w.right.dl[i].norm());
                let asis = (0..s.n()).all(|i| (out.gr.a[i] - w.asis.a[i]).norm() <= 1e-9 * asc[i].max(w.asis.a[i].norm()) && (out.gr.dl[i] - w.asis.dl[i]).norm() <= 1e-9 * w.asis.dl[i].norm());
                c.ev("kidder");
                if !right {
                    if asis {
                        c.fail("kidder-second-order-and-spin-terms", format!("second-order and spin-orbit terms of Kidder (1995) {}", what));
                    } else {
                        let k = (0..s.n()).max_by(|&a, &b| ((out.gr.a[a] - w.asis.a[a]).norm() / asc[a].max(1e-300)).partial_cmp(&((out.gr.a[b] - w.asis.a[b]).norm() / asc[b].max(1e-300))).unwrap_or(std::cmp::Ordering::Equal)).unwrap();
                        c.fail("kidder", format!("{}: body {} acceleration {:?} first-order {:?} torque {:?} want {:?}", what, k, out.gr.a[k], w.first.a[k], out.gr.dl[k], w.right.dl[k]));
                    }
                }
            }
            Gr::Anderson => {
                let w = phys::gr_anderson(&s, &st);
                let (asc, _) = scales(&s, &w, &st, star);
                for i in 0..s.n() {
                    c.veq("anderson", out.gr.a[i], w.a[i], asc[i], 1e-5, || format!("{} body {}", what, i));
                }
            }
            Gr::Newhall => {
                let w = phys::gr_newhall(&s, &st);
                let (asc, _) = scales(&s, &w, &st, star);
                for i in 0..s.n() {
                    c.veq("newhall", out.gr.a[i], w.a[i], asc[i], 1e-5, || format!("{} body {}", what, i));
                }
            }
        }
        for i in 0..s.n() {
            if i != star && !s.b[i].gr {
                c.ok("gr-not-participating", out.gr.a[i] == Z3 && out.gr.dl[i] == Z3, || format!("{} body {} takes no part but gets {:?}", what, i, out.gr.a[i]));
            }
        }
        c.sig(format!("{:?} n={} star={} {:?} spinless={}", g, s.n(), star, ig, spinless));
    }
    c.sample(|| format!("{:?}: {} bodies, star {}", g, s.n(), star));
}

/// C10: wind.
pub fn c10(c: &mut Ctx) {
    let other = On { tides: c.r.chance(0.4), flat: c.r.chance(0.3), evo: c.r.chance(0.4), wind: true, ..On::none() };
    let (mut s, star) = base(c, other);
    let k = c.r.below(s.n());
    s.b[k].wind = Some((c.r.log(1e-18, 1e-12), c.r.log(0.1, 10.)));
    c.detail = serde_json::json!({ "sys": &s });
    let mut d = Driver::new(&s);
    for q in 0..8 {
        let t = if s.on.evo { c.r.uni(0., s.tl) } else { 0. };
        let mut st = rand_state(&mut c.r, &s, star, t, 0.5, 3., false);
        if s.on.evo && s.th.map_or(false, |h| !all_bound(&s, &st, h)) {
            continue;
        }
        let p = phys::pars(&s, t);
        for i in 0..s.n() {
            if let Some((_, sat)) = s.b[i].wind {
                // either side of saturation
                let om = sat * *c.r.pick(&[0., 1e-3, 0.5, 0.999, 1.001, 2., 100.]);
                st.l[i] = c.r.unit() * om * p[i].inertia;
            }
        }
        let out = d.eval(t, &st, *c.r.pick(&IGS));
        let want = phys::wind(&s, &p, &st);
        for i in 0..s.n() {
            c.veq("wind", out.wind.dl[i], want.dl[i], 0., 1e-11, || format!("state {} body {}", q, i));
            let sum = out.tides.dl[i] + out.flat.dl[i] + out.wind.dl[i];
            c.veq("wind-in-total", out.total.dl[i], sum, out.tides.dl[i].norm() + out.flat.dl[i].norm() + out.wind.dl[i].norm(), 1e-13, || format!("body {}", i));
            if !s.on.tides && !s.on.flat {
                c.ok("wind-no-force", out.total.a[i] == Z3, || format!("wind accelerates body {}", i));
            }
        }
        c.sig(format!("n={} star={} with={}{}{}", s.n(), star, s.on.tides, s.on.flat, s.on.evo));
    }
    c.sample(|| format!("wind on body {} of {}", k, s.n()));
}

/// C11: disk.
pub fn c11(c: &mut Ctx) {
    let (mut s, star) = base(c, On { disk: true, ..On::none() });
    let dh = if s.n() > 2 && c.r.chance(0.1) { c.r.below(s.n()) } else { star };
    let dp = gen_disk(&mut c.r, 0.05);
    s.dh = Some((dh, dp));
    for i in 0..s.n() {
        s.b[i].disk = i != dh && c.r.chance(0.75);
    }
    let (comp, star) = maybe_companion(c, &mut s, star);
    let dh = s.dh.unwrap().0;
    c.detail = serde_json::json!({ "sys": &s });
    let mut d = Driver::new(&s);
    for q in 0..8 {
        let t = dp.life * *c.r.pick(&[0., 1e-3, 0.5, 1., 3., 20.]);
        let st = rand_state_comp(&mut c.r, &s, comp, star, t, 0.6, 1., false);
        if !all_bound(&s, &st, dh) {
            continue;
        }
        let near = (0..s.n()).any(|i| i != dh && (((st.x[i] - st.x[dh]).norm() - dp.rin) / dp.rin).abs() < 1e-9);
        if near {
            continue;
        }
        let out = d.eval(t, &st, *c.r.pick(&IGS));
        let (want, tm) = phys::disk(&s, &st, t);
        let (asc, _) = scales(&s, &want, &st, dh);
        for i in 0..s.n() {
            c.veq("disk-acceleration", out.disk.a[i], want.a[i], asc[i], 1e-10, || format!("state {} body {} t/life {}", q, i, t / dp.life));
            if tm[i].is_finite() && i != dh && s.b[i].disk {
                c.leq("migration-timescale", (out.tmig[i] - tm[i]).abs(), 1e-10 * tm[i].abs(), || format!("body {}: {:e} want {:e}", i, out.tmig[i], tm[i]));
            }
            c.veq("disk-total", out.total.a[i], out.disk.a[i], 0., 1e-14, || format!("body {}", i));
            c.ok("disk-no-torque", out.total.dl[i] == Z3, || format!("disk torque on the spin of body {}", i));
        }
        c.sig(format!("n={} star={} host={} edge={} t={:.3}", s.n(), star, dh, dp.rin > 0., t / dp.life));
    }
    c.sample(|| format!("disk around {} of {}: inner edge {:.4}", dh, s.n(), dp.rin));
}

/// C12: evolution tables at every time, in every order.
pub fn c12(c: &mut Ctx) {
    let all = tables::all_evo();
    let e = all[(c.case as usize) % all.len()];
    let o = GenOpt { n: (2, 4), ..GenOpt::default() };
    let (mut s, star) = gen(&mut c.r, &o);
    decorate(&mut c.r, &mut s, star, tides_only());
    s.on.evo = true;
    s.tl = 1e9;
    let k = c.r.below(s.n());
    let (a, b) = tables::span(e);
    s.t0 = if c.r.chance(0.1) { a } else { c.r.uni(a, a + 0.6 * (b - a)) };
    s.tl = (b - s.t0) * if c.r.chance(0.1) { 1. } else { c.r.uni(0.5, 0.999) };
    s.b[k].evo = e;
    if c.r.chance(0.3) {
        // a second evolving body whose table covers the same ages
        let e2 = *c.r.pick(&all);
        let (a2, b2) = tables::span(e2);
        let k2 = (k + 1) % s.n();
        if s.t0 > a2 && s.t0 < b2 {
            s.b[k2].evo = e2;
            s.tl = s.tl.min(b2 - s.t0);
        }
    }
    for i in 0..s.n() {
        if let Some(t) = tables::tab(s.b[i].evo) {
            if (t.radius(s.t0) - s.b[i].r).abs() < 3e-6 {
                s.b[i].r = t.radius(s.t0);
            }
            if let Some(g) = t.rg2(s.t0) {
                if (g - s.b[i].rg.powi(2)).abs() < 3e-6 {
                    s.b[i].rg = g.sqrt();
                }
            }
        }
    }
    c.detail = serde_json::json!({ "sys": &s, "evolution": format!("{:?}", e) });
    let tab = tables::tab(e).unwrap();
    let mut d = Driver::new(&s);
    let h = s.th.unwrap();
    let mut t = 0.;
    for q in 0..60 {
        // forward, backward, repeated, exactly on table entries
        t = match c.r.below(6) {
            0 => t,
            1 => (t + c.r.log(1e-6, 1.) * s.tl).min(s.tl),
            2 => (t - c.r.log(1e-6, 1.) * s.tl).max(0.),
            3 => (*c.r.pick(&tab.age) - s.t0).max(0.).min(s.tl),
            4 => {
                let x = *c.r.pick(&tab.age) - s.t0;
                (x + x.abs() * 1e-15 * c.r.sign()).max(0.).min(s.tl)
            }
            _ => c.r.uni(0., s.tl),
        };
        let st = rand_state(&mut c.r, &s, star, t, 0.3, 1., false);
        let p = phys::pars(&s, t);
        let out = d.eval(t, &st, Ig::None);
        let w = phys::spins(&p, &st);
        for i in 0..s.n() {
            let what = || format!("body {} {:?} age {} (query {})", i, s.b[i].evo, s.t0 + t, q);
            c.leq("radius", (out.r[i] - p[i].r).abs(), 1e-9 * p[i].r, || format!("{} got {:e} want {:e}", what(), out.r[i], p[i].r));
            c.leq("gyration", (out.rg2[i] - p[i].rg2).abs(), 1e-9 * p[i].rg2, || format!("{} got {:e} want {:e}", what(), out.rg2[i], p[i].rg2));
            c.leq("inertia", (out.inertia[i] - p[i].inertia).abs(), 3e-9 * p[i].inertia, what);
            c.veq("spin", out.spin[i], w[i], 0., 5e-9, what);
            // the angular momentum itself is untouched
            let l = va(d.u.particles[i].angular_momentum);
            c.ok("angular-momentum", l == st.l[i], what);
            if p[i].invq.is_some() {
                let lag = phys::lag(&p[i], w[i]);
                c.leq("lag", (out.lag[i] - lag).abs(), 3e-8 * lag, || format!("{} got {:e} want {:e}", what(), out.lag[i], lag));
            }
        }
        if !phys::near_regime(&s, &p, &st) && all_bound(&s, &st, h) {
            let want = phys::tides(&s, &p, &st).eff;
            let (asc, lsc) = scales(&s, &want, &st, h);
            same(c, "evolved-tide", &out.tides, &want, &asc, &lsc, 1e-7, &format!("age {} {:?}", s.t0 + t, e));
        }
    }
    // Leaving the table is refused.
    let mut bad = s.clone();
    match c.r.below(2) {
        0 => bad.t0 = a - c.r.log(1e-3, 10.) * 365.25,
        _ => bad.tl = (b - s.t0) + c.r.log(1e-3, 10.) * 365.25,
    }
    c.ok("span-refused", crate::fw::guard(|| bad.universe()).is_err(), || format!("{:?} start {} end {} table {}..{}", e, bad.t0, bad.t0 + bad.tl, a, b));
    c.sig(format!("{:?} body={} star={}", e, k, star));
    c.sample(|| format!("{:?} on body {} of {}, ages {}..{}", e, k, s.n(), s.t0, s.t0 + s.tl));
}

/// A system with any mixture of models, for the laws that hold for all of them.
pub fn mixed(c: &mut Ctx, kaula: bool) -> (Sys, usize, bool) {
    match c.r.below(if kaula { 6 } else { 5 }) {
        0 => {
            let (mut s, star) = creep_sys(c);
            if c.r.chance(0.3) {
                s.on.disk = true;
                s.dh = Some((star, gen_disk(&mut c.r, 0.05)));
                for i in 0..s.n() {
                    s.b[i].disk = i != star && c.r.chance(0.7);
                }
            }
            (s, star, true)
        }
        5 => {
            let o = GenOpt { n: (2, 4), imax: 0.6, ..GenOpt::default() };
            let (mut s, star) = gen(&mut c.r, &o);
            s.on.tides = true;
            s.th = Some(star);
            s.b[star].tide = Some(gen_ctl(&mut c.r, s.b[star].r));
            for i in 0..s.n() {
                if i != star {
                    s.b[i].tide = if c.r.chance(0.6) { Some(gen_kaula(&mut c.r)) } else if c.r.chance(0.5) { Some(gen_ctl(&mut c.r, s.b[i].r)) } else { None };
                }
            }
            (s, star, false)
        }
        _ => {
            let want = On { tides: c.r.chance(0.7), flat: c.r.chance(0.6), gr: c.r.chance(0.5), disk: c.r.chance(0.5), wind: c.r.chance(0.5), evo: c.r.chance(0.3) };
            let (s, star) = base(c, want);
            (s, star, false)
        }
    }
}

/// C03: action and reaction.
pub fn c03(c: &mut Ctx) {
    let (mut s, star, planar) = mixed(c, true);
    if let Some((k, _)) = s.gh {
        s.gh = Some((k, Gr::Kidder));
    }
    let kaula = s.b.iter().any(|b| matches!(b.tide, Some(TideM::Kaula { .. })));
    c.detail = serde_json::json!({ "masses": masses(&s), "star": star, "host": s.th, "on": s.on });
    let mut d = Driver::new(&s);
    for q in 0..if kaula { 2 } else { 8 } {
        let t = if s.on.evo { c.r.uni(0., s.tl) } else { c.r.uni(0., 1e5) };
        let st = rand_state(&mut c.r, &s, star, t, 0.3, if planar { 0. } else { 1. }, planar);
        if s.th.map_or(false, |h| !all_bound(&s, &st, h)) && (s.on.evo || planar || kaula) {
            continue;
        }
        let out = d.eval(t, &st, *c.r.pick(&IGS));
        for (name, e) in [("tides", &out.tides), ("flattening", &out.flat), ("disk", &out.disk), ("relativity", &out.gr), ("total", &out.total)] {
            let (mut f, mut sz) = (Z3, 0.);
            for i in 0..s.n() {
                f += s.b[i].m * e.a[i];
                sz += s.b[i].m * e.a[i].norm();
            }
            c.leq(&format!("reaction-{}", name), f.norm(), 1e-12 * sz + 1e-300, || format!("net force {:?} of {:e} (state {}, host {:?}, star {})", f, sz, q, s.th, star));
            c.ok("finite", f.finite(), || format!("{} net force {:?}", name, f));
        }
        for i in 0..s.n() {
            let part = [
                (s.on.tides && s.b[i].tide.is_some(), &out.tides, "tides"),
                (s.on.flat && s.b[i].flat.is_some(), &out.flat, "flattening"),
                (s.on.disk && (s.b[i].disk || s.dh.map(|x| x.0) == Some(i)), &out.disk, "disk"),
                (s.on.gr && (s.b[i].gr || s.gh.map(|x| x.0) == Some(i)), &out.gr, "relativity"),
                (s.on.wind && s.b[i].wind.is_some(), &out.wind, "wind"),
            ];
            for (takes, e, name) in part {
                if !takes {
                    c.ok(&format!("not-participating-{}", name), e.a[i] == Z3 && e.dl[i] == Z3, || format!("body {} gets {:?} {:?} from {}", i, e.a[i], e.dl[i], name));
                }
            }
        }
        c.sig(format!("n={} star={} host={:?} on={:?} kaula={} creep={}", s.n(), star, s.th, [s.on.tides, s.on.flat, s.on.gr, s.on.disk].map(|b| b as u8), kaula, planar));
    }
    c.sample(|| format!("{} bodies, star {}, host {:?}, effects {:?}", s.n(), star, s.th, s.on));
}

/// C05 (instantaneous part): torques against moments, and dissipation.
pub fn c05(c: &mut Ctx) {
    let want = On { tides: c.r.chance(0.8), flat: c.r.chance(0.7), ..On::none() };
    let want = if want.tides || want.flat { want } else { tides_only() };
    let (mut s, star) = base(c, want);
    let (comp, star) = maybe_companion(c, &mut s, star);
    let h = s.th.unwrap();
    c.detail = serde_json::json!({ "sys": &s });
    let m = masses(&s);
    let mut d = Driver::new(&s);
    for q in 0..8 {
        let (st, kind) = special_state(&mut c.r, &s, comp, star, h, 0.);
        let out = d.eval(0., &st, *c.r.pick(&IGS));
        let p = phys::pars(&s, 0.);
        let (_, lsc) = ctl_scales(&s, &p, &st, h, vec![0.; s.n()]);
        for (name, e) in [("tides", &out.tides), ("flattening", &out.flat)] {
            let (mut l, mut sz) = (Z3, if name == "tides" { lsc.iter().sum() } else { 0. });
            for i in 0..s.n() {
                let mo = (st.x[i] - st.x[h]).cross(m[i] * e.a[i]);
                l += mo + e.dl[i];
                sz += e.dl[i].norm() + 1e-5 * (st.x[i] - st.x[h]).norm() * m[i] * e.a[i].norm();
            }
            c.leq(&format!("torque-balance-{}", name), l.norm(), 1e-9 * sz + 1e-300, || format!("{} state {} ({}): residual {:?} of {:e}", name, q, kind, l, sz));
        }
        // Tides: power on orbit and spins without the conservative part is never positive.
        if s.on.tides {
            let w = phys::spins(&p, &st);
            let (mut pw, mut sz) = (0., 0.);
            for i in 0..s.n() {
                sz += lsc[i] * (w[i].norm() + if i == h { 0. } else { (st.v[i] - st.v[h]).norm() / (st.x[i] - st.x[h]).norm() });
                if i == h {
                    pw += out.tides.dl[h].dot(w[h]);
                    continue;
                }
                if s.b[i].tide.is_none() {
                    continue;
                }
                let x = st.x[i] - st.x[h];
                let v = st.v[i] - st.v[h];
                let dd = x.norm();
                let cons = -3. * K2 / dd.powi(7) * (m[i] * m[i] * p[h].r.powi(5) * phys::love(&s, &p, h) + m[h] * m[h] * p[i].r.powi(5) * phys::love(&s, &p, i));
                let f = m[i] * out.tides.a[i] - cons * x / dd;
                pw += f.dot(v) + out.tides.dl[i].dot(w[i]);
                sz += m[i] * out.tides.a[i].norm() * v.norm() + out.tides.dl[i].norm() * w[i].norm();
            }
            c.leq("tidal-power", pw, 1e-11 * sz + 1e-300, || format!("tides add mechanical energy: {:e} of {:e} ({})", pw, sz, kind));
        }
        c.sig(format!("n={} star={} host={} {} {}{}", s.n(), star, h, kind, s.on.tides, s.on.flat));
    }
    c.sample(|| format!("{} bodies, host {}, tides {} flattening {}", s.n(), h, s.on.tides, s.on.flat));
}
