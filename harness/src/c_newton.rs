//! C01 and C02: Newtonian trajectories and conservation laws.
use crate::drive::*;
use crate::fw::Ctx;
use crate::phys;
use crate::sys::*;
use crate::util::*;

const PI: f64 = std::f64::consts::PI;

fn masses(s: &Sys) -> Vec<f64> {
    s.b.iter().map(|b| b.m).collect()
}

fn opts(r: &mut Rng, n: (usize, usize)) -> GenOpt {
    GenOpt {
        n,
        emax: *r.pick(&[0.05, 0.3, 0.5]),
        imax: *r.pick(&[0.05, 0.8, 3.1]),
        mr: if r.chance(0.5) { (1e-8, 1e-4) } else { (1e-5, 3e-3) },
        ..GenOpt::default()
    }
}

/// Relative error of a run against the reference, NaN-safe.
fn run_err(c: &mut Ctx, s: &Sys, star: usize, kind: Int, dt: f64, t: f64, want: &State) -> Option<f64> {
    match run_sim(s, kind, dt, t) {
        Ok(run) => {
            c.leq("final-time", (run.t - t).abs(), 1e-9 * t, || format!("{:?} dt {} ended at {} instead of {}", kind, dt, run.t, t));
            let (e, l) = diff(&run.st, want, star);
            c.leq("spin-constant", l, 1e-12, || format!("{:?}: spin changed without torque", kind));
            Some(e)
        }
        Err(m) => {
            c.fail("run-failed", format!("{:?} dt {}: {}", kind, dt, m));
            None
        }
    }
}

pub fn c01(c: &mut Ctx) {
    match c.case % 4 {
        0 => force(c),
        1 => two_body(c),
        _ => many(c),
    }
}

/// The acceleration of every body, against direct summation.
fn force(c: &mut Ctx) {
    let o = opts(&mut c.r, (2, 10));
    let (s, star) = gen(&mut c.r, &o);
    c.detail = serde_json::json!({ "sys": &s });
    let m = masses(&s);
    let mut d = Driver::new(&s);
    for k in 0..6 {
        let st = rand_state(&mut c.r, &s, star, 0., 0.6, 3.1, false);
        let out = d.eval(0., &st, posidonius::IgnoreGravityTerms::None);
        let want = phys::newton(&m, &st.x);
        for i in 0..s.n() {
            // scale: largest single contribution (cancellation in the star's sum)
            let sc = (0..s.n()).filter(|&j| j != i).map(|j| K2 * m[j] / (st.x[i] - st.x[j]).norm2()).fold(0., f64::max);
            c.veq("gravity", out.newton[i], want[i], sc, 1e-13, || format!("body {} of {}, state {}", i, s.n(), k));
            c.veq("no-extra", out.total.a[i], Z3, sc, 1e-300, || format!("body {}", i));
        }
    }
    c.sig(format!("force n={} star={}", s.n(), star));
    c.sample(|| format!("acceleration of {} bodies, most massive at position {}", s.n(), star));
}

/// Two bodies: WHFast is exact for any step; others follow.
fn two_body(c: &mut Ctx) {
    let hyper = c.r.chance(0.2);
    let ratio = *c.r.pick(&[1e-9, 1e-6, 1e-3, 0.05, 0.5, 1.]);
    let ms = c.r.log(0.05, 2.);
    let m = ms * ratio;
    let mu = K2 * (ms + m);
    let a = c.r.log(0.01, 1.);
    let (i, n, w) = (c.r.uni(0., 3.1), c.r.uni(0., 6.28), c.r.uni(0., 6.28));
    let e = if hyper { c.r.uni(1.05, 4.) } else { *c.r.pick(&[0., 0.01, 0.3, 0.7, 0.9, 0.97]) };
    let (x, v, tscale) = if hyper {
        let f = c.r.uni(-1., 0.8) * (-1. / e).acos() * 0.9;
        let (x, v) = conic(mu, a, e, i, n, w, f);
        (x, v, 2. * PI * (a * a * a / mu).sqrt())
    } else {
        let (x, v) = orbit(mu, a, e, i, n, w, c.r.uni(0., 2. * PI));
        (x, v, 2. * PI * (a * a * a / mu).sqrt())
    };
    let r = 1e-3 * a * (1. - e).abs().max(0.02);
    let mut s = Sys { b: vec![Body::point(ms, r, Z3, Z3), Body::point(m, r * ratio.powf(0.333), x, v)], th: None, gh: None, dh: None, on: On::none(), t0: 0., tl: 1e9 };
    let star = if c.r.chance(0.5) { 0 } else { 1 };
    if star == 1 {
        s = s.permuted(&[1, 0]);
    }
    if c.r.chance(0.7) {
        s = s.shifted(c.r.unit() * c.r.log(1e-3, 3.), c.r.unit() * c.r.log(1e-4, 3e-2));
    }
    let frac = if hyper { c.r.log(1e-3, 0.3) } else { c.r.log(1e-2, 3.7) };
    let dt = tscale * frac;
    let steps = c.r.int(1, 40) as f64;
    let t = steps * dt;
    c.detail = serde_json::json!({ "sys": &s, "dt": dt, "t": t, "e": e });
    let init = phys::initial(&s);
    let want = phys::integrate(&s, &init, 0., t, 0.05 * tscale, 1e-14);
    // Out of the domain (100 AU) is not this property's business.
    if (want.x[0] - want.x[1]).norm() > 50. {
        return;
    }
    for kind in [Int::Jacobi, Int::Democratic, Int::Whds] {
        // Democratic heliocentric is not exact for two bodies of comparable mass.
        if kind == Int::Democratic && ratio > 1e-8 {
            continue;
        }
        // WHDS uses the reduced Kepler problem, exact for two bodies.
        if let Some(err) = run_err(c, &s, star, kind, dt, t, &want) {
            let tol = (2e-10 * (1. + t / tscale) / (1. - e).abs().min(1.).max(0.01).powi(2)).max(if kind == Int::Democratic { 1e-5 * (1. + t / tscale) } else { 0. });
            c.leq(&format!("two-body-{:?}", kind), err, tol, || format!("{:?} e {} mass ratio {} dt/P {} steps {}", kind, e, ratio, frac, steps));
        }
    }
    c.sig(format!("two-body e={:.2} ratio={:.0e} star={} long={}", if hyper { 2. } else { e }, ratio, star, frac > 1.));
    c.sample(|| format!("two bodies e={:.3} mass ratio {:.1e}, {} steps of {:.3} periods", e, ratio, steps, frac));
}

/// Relative size of the softening of the Jacobi coordinates (1e-12 AU^2 added to squared distances).
fn soft(s: &Sys, star: usize) -> f64 {
    (0..s.n()).filter(|&i| i != star).map(|i| 4e-12 / (s.b[i].x - s.b[star].x).norm2()).fold(0., f64::max)
}

/// Many bodies: convergence to the reference with the order of the scheme.
fn many(c: &mut Ctx) {
    let big = if c.thorough { 10 } else { 6 };
    let top = if c.r.chance(0.2) { 10 } else { big };
    let o = opts(&mut c.r, (2, top));
    let (s, star) = gen(&mut c.r, &o);
    let p = s.shortest_period();
    let nper = c.r.uni(1., 3.);
    // common multiple of the two steps used
    let n1 = (nper * 300.).ceil();
    let t = nper * p;
    let dt = t / n1;
    c.detail = serde_json::json!({ "sys": &s, "dt": dt, "t": t });
    let init = phys::initial(&s);
    let want = phys::integrate(&s, &init, 0., t, 0.1 * p, 1e-13);
    let fine = phys::integrate(&s, &init, 0., t, 0.05 * p, 1e-14);
    let (self_err, _) = diff(&want, &fine, star);
    if self_err > 1e-9 {
        panic!("reference integrator: not converged {:e}", self_err);
    }
    for kind in INTS {
        if kind == Int::Ias15 {
            // IAS15 ends at the step that passes the limit: integrate the reference to that time.
            match run_sim(&s, kind, dt, t) {
                Ok(run) => {
                    let w = phys::integrate(&s, &init, 0., run.t, 0.1 * p, 1e-14);
                    let (e, _) = diff(&run.st, &w, star);
                    c.leq("ias15", e, 1e-8, || format!("IAS15 n {} star {} after {} periods", s.n(), star, nper));
                    c.ok("ias15-end", run.t <= t + 0.5 * dt + 1e-9 * t && run.t > 0., || format!("IAS15 ended at {} limit {}", run.t, t + 0.5 * dt));
                }
                Err(m) => c.fail("run-failed", format!("{:?}: {}", kind, m)),
            }
            continue;
        }
        let e1 = run_err(c, &s, star, kind, dt, t, &fine);
        let e2 = run_err(c, &s, star, kind, dt / 4., t, &fine);
        if let (Some(e1), Some(e2)) = (e1, e2) {
            // Second order: 16 for a quarter of the step; below the floor rounding rules.
            let floor = 2e-10 + if kind == Int::Jacobi { soft(&s, star) * 20. * nper } else { 0. };
            c.leq(&format!("order-{:?}", kind), e2, (e1 / 10.).max(floor), || format!("{:?}: error {:e} at dt, {:e} at dt/4 (second order would give a factor 16), n {} star {}", kind, e1, e2, s.n(), star));
            c.leq(&format!("accuracy-{:?}", kind), e1, 0.2, || format!("{:?}: error {:e} with P/300 steps", kind, e1));
        }
    }
    c.sig(format!("many n={} star={} e={} i={}", s.n(), star, o.emax, o.imax));
    c.sample(|| format!("{} bodies, most massive at {}, {:.1} periods", s.n(), star, nper));
}

/// Per-step conservation monitors.
pub fn c02(c: &mut Ctx) {
    let o = opts(&mut c.r, (2, 10));
    let (s, star) = gen(&mut c.r, &o);
    let p = s.shortest_period();
    let m = masses(&s);
    let mt: f64 = m.iter().sum();
    let kind = INTS[(c.case % 5) as usize];
    let per_orbit = *c.r.pick(&[40., 100., 250.]);
    let dt = p / per_orbit;
    let steps = if c.thorough { 20000. } else { 3000. };
    c.detail = serde_json::json!({ "sys": &s, "dt": dt, "steps": steps, "kind": kind });
    let t_end = steps * dt;
    let init = phys::initial(&s);
    let (e0, l0) = (phys::energy(&m, &init), phys::orbital_l(&m, &init));
    let xs = (0..s.n()).map(|i| (init.x[i] - init.x[star]).norm()).fold(0., f64::max);
    let vs = (0..s.n()).map(|i| (init.v[i] - init.v[star]).norm()).fold(0., f64::max);
    // sum of the sizes of the terms
    let lsc: f64 = (0..s.n()).map(|i| m[i] * init.x[i].cross(init.v[i]).norm()).sum();
    // energy of the orbits (star-planet terms)
    let (mut bx, mut bv, mut dl): (f64, f64, f64) = (0., 0., 0.);
    let (mut first_x, mut first_v) = (0., 0.);
    let mut es: Vec<f64> = vec![];
    let mut k = 0usize;
    let run = run_watch(&s, kind, dt, t_end, |_, u| {
        let st = state_of(u);
        let (mut x, mut v) = (Z3, Z3);
        for i in 0..m.len() {
            x += m[i] * st.x[i];
            v += m[i] * st.v[i];
        }
        if k == 0 {
            first_x = x.norm() / mt;
            first_v = v.norm() / mt;
        }
        bx = bx.max(x.norm() / mt);
        bv = bv.max(v.norm() / mt);
        dl = dl.max((phys::orbital_l(&m, &st) - l0).norm() / lsc);
        es.push((phys::energy(&m, &st) - e0) / e0.abs());
        k += 1;
    });
    if let Err(e) = run {
        c.fail("run-failed", format!("{:?}: {}", kind, e));
        return;
    }
    let n = (k as f64).sqrt().max(10.);
    let sh: f64 = s.b.iter().map(|b| b.x.norm()).fold(0., f64::max) + xs;
    let shv: f64 = s.b.iter().map(|b| b.v.norm()).fold(0., f64::max) + vs;
    c.leq("barycentre-start", first_x, 1e-14 * sh, || "position of the barycentre at the start".into());
    c.leq("barycentre-velocity-start", first_v, 1e-14 * shv, || "velocity of the barycentre at the start".into());
    c.leq("barycentre-velocity", bv, 1e-15 * shv * n * 10., || format!("{:?}", kind));
    c.leq("barycentre", bx, 1e-15 * (sh + shv * t_end) * n * 10., || format!("{:?}", kind));
    // Rounding, plus for the star's share the rounding of its own coordinates.
    c.leq("angular-momentum", dl, 1e-15 * n * 30. * (1. + 0. * mt), || format!("{:?} n {} star {} {} steps", kind, s.n(), star, k));
    // Energy: compare the level of the first and of the last quarter; the oscillation itself is bounded.
    let q = es.len() / 4;
    let mean = |v: &[f64]| v.iter().sum::<f64>() / v.len() as f64;
    let amp = es.iter().fold(0f64, |a, b| a.max(b.abs()));
    let drift = (mean(&es[es.len() - q..]) - mean(&es[..q])).abs();
    let round = 1e-15 * n * 30. + if kind == Int::Jacobi { soft(&s, star) } else { 0. };
    c.leq(&format!("energy-drift-{:?}", kind), drift, (0.25 * amp).max(round), || format!("{:?}: drift {:e}, oscillation {:e} over {} steps of P/{}", kind, drift, amp, k, per_orbit));
    let bound = match kind {
        Int::Ias15 => 1e-9,
        _ => 0.3,
    };
    c.leq("energy-bounded", amp, bound, || format!("{:?}", kind));
    c.sig(format!("{:?} n={} star={} steps/orbit={}", kind, s.n(), star, per_orbit));
    c.sample(|| format!("{:?} {} bodies {} steps: |dL|/L {:e}, energy amplitude {:e}, drift {:e}", kind, s.n(), k, dl, amp, drift));
}
