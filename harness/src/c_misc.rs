//! Encounters (C20), refused configurations (C21), orbital elements (C22).
use crate::c_force;
use crate::drive::*;
use crate::fw::{guard, Ctx};
use crate::phys;
use crate::sys::*;
use crate::tables;
use crate::util::*;
use posidonius as p;
use posidonius::IgnoreGravityTerms as Ig;

const TAU: f64 = 2. * std::f64::consts::PI;
const PI: f64 = std::f64::consts::PI;

fn stopped(m: &str) -> bool {
    m.contains("destroyed by") || m.contains("Collision") || m.contains("has been ejected")
}

fn roche(s: &Sys, i: usize, j: usize) -> f64 {
    let (a, b) = if s.b[i].m > s.b[j].m { (i, j) } else { (j, i) };
    s.b[b].r / 0.462 * (s.b[a].m / s.b[b].m).powf(1. / 3.)
}

fn limit(s: &Sys, i: usize, j: usize) -> f64 {
    roche(s, i, j).max(s.b[i].r + s.b[j].r)
}

/// Bodies anywhere within `size` of the most massive one, all pairs well apart.
fn scattered(c: &mut Ctx, n: usize, size: f64) -> Option<(Sys, usize)> {
    let mut b = vec![];
    for _ in 0..n {
        let m = c.r.log(1e-10, 2.);
        b.push(Body::point(m, c.r.log(1e-5, 3e-2), Z3, Z3));
    }
    let mut s = Sys { b, th: None, gh: None, dh: None, on: On::none(), t0: 0., tl: 1e5 };
    let big = s.most_massive();
    if s.b.iter().enumerate().any(|(i, b)| i != big && b.m > 0.99 * s.b[big].m) {
        return None;
    }
    for i in 0..n {
        for _ in 0..300 {
            let x = if i == big { Z3 } else { c.r.unit() * size * c.r.f().powf(0.5) };
            s.b[i].x = x;
            let far = (0..n).filter(|&j| j != i && (j < i || j == big)).all(|j| (s.b[j].x - x).norm() > 2. * limit(&s, i, j));
            if far {
                break;
            }
        }
    }
    for i in 0..n {
        for j in 0..i {
            if (s.b[i].x - s.b[j].x).norm() < 1.5 * limit(&s, i, j) {
                return None;
            }
        }
    }
    Some((s, big))
}

const IGS: [Ig; 3] = [Ig::None, Ig::WHFastOne, Ig::WHFastTwo];

/// C20, one evaluation.
pub fn c20(c: &mut Ctx) {
    let n = c.r.int(2, 10);
    let (s, big) = match scattered(c, n, 98.) {
        Some(q) => q,
        None => return,
    };
    c.detail = serde_json::json!({ "sys": &s });
    let mut u = Box::new(s.universe());
    u.calculate_roche_radiuses();
    let x0: Vec<V3> = s.b.iter().map(|b| b.x).collect();
    // (name, state, radii, must stop?) ; None when too close to the limit to say
    let expect = |x: &Vec<V3>, r: &Vec<f64>| -> Option<bool> {
        let mut hit = false;
        let mut near = false;
        for i in 0..n {
            for j in 0..i {
                let d = (x[i] - x[j]).norm();
                let l = roche(&s, i, j).max(r[i] + r[j]);
                hit |= d < l * (1. - 1e-12);
                near |= (d / l - 1.).abs() <= 1e-12;
            }
            if i != big {
                let d = (x[i] - x[big]).norm();
                hit |= d > 100. * (1. + 1e-12);
                near |= (d / 100. - 1.).abs() <= 1e-12;
            }
        }
        if hit {
            Some(true)
        } else if near {
            None
        } else {
            Some(false)
        }
    };
    let r0: Vec<f64> = s.b.iter().map(|b| b.r).collect();
    for k in 0..24 {
        let (mut x, mut r) = (x0.clone(), r0.clone());
        let mut kind = "apart";
        let mut pair = (0, 0);
        if k > 0 {
            let i = c.r.below(n);
            let mut j = c.r.below(n - 1);
            if j >= i {
                j += 1;
            }
            pair = (i, j);
            let eps = c.r.log(1e-9, 0.5) * c.r.sign();
            match k % 4 {
                0 | 1 => {
                    kind = "pair";
                    x[i] = x[j] + c.r.unit() * limit(&s, i, j) * (1. + eps);
                }
                2 => {
                    kind = "far";
                    if i == big {
                        x[j] = x[big] + c.r.unit() * 100. * (1. + eps.max(-0.3));
                    } else {
                        x[i] = x[big] + c.r.unit() * 100. * (1. + eps.max(-0.3));
                    }
                }
                _ => {
                    kind = "grown";
                    let d = (x[i] - x[j]).norm();
                    let f = c.r.f();
                    r[i] = d * (1. + eps) * f;
                    r[j] = d * (1. + eps) * (1. - f);
                }
            }
        }
        let want = match expect(&x, &r) {
            Some(w) => w,
            None => continue,
        };
        for ig in IGS {
            for i in 0..n {
                u.particles[i].inertial_position = ax(x[i]);
                u.particles[i].radius = r[i];
            }
            let res = guard(|| u.gravity_calculate_acceleration(ig));
            let what = |e: &str| format!("{} {:?} bodies {:?} of {} (most massive {}), {:?}: {:?}", kind, e, pair, n, big, ig, res);
            match &res {
                Ok(()) => {
                    c.ok("stops-on-encounter", !want, || what("no stop"));
                }
                Err(m) if stopped(m) => {
                    c.ok("stops-only-on-encounter", want, || what("stop"));
                }
                Err(_) => c.fail("panic", what("panic")),
            }
        }
        c.sig(format!("{} n={} pair={:?} big={} stop={}", kind, n, pair, big, want));
    }
    c.sample(|| format!("{} bodies, most massive {}: pairs at their limits", n, big));
}

/// C20 along runs.
pub fn c20t(c: &mut Ctx) {
    let kind = INTS[(c.case % 5) as usize];
    let n = c.r.int(2, 6);
    let inside = c.r.chance(0.5);
    let f = if inside { c.r.uni(0.3, 0.93) } else { c.r.uni(1.1, 2.5) };
    let which = c.r.below(3);
    // The pair (a, b) that meets; the others are far and light.
    let mut b: Vec<Body> = vec![];
    let ms = c.r.log(0.1, 1.5);
    let dt;
    let (ia, ib);
    let name;
    let steps;
    match which {
        0 => {
            // A planet passes the star.
            name = "plunge";
            let m = ms * c.r.log(1e-8, 1e-3);
            let rs = crate::consts::R_SUN * c.r.uni(0.3, 2.);
            let rp = c.r.log(3e-5, 2e-3);
            b.push(Body::point(ms, rs, Z3, Z3));
            b.push(Body::point(m, rp, Z3, Z3));
            let q = Sys { b: b.clone(), th: None, gh: None, dh: None, on: On::none(), t0: 0., tl: 1. };
            let l = limit(&q, 0, 1);
            if l > 1. {
                return;
            }
            let per = f * l;
            let e = *c.r.pick(&[0.5, 0.8, 0.95, 1.3, 3.]) * c.r.uni(0.99, 1.01);
            let mu = K2 * (ms + m);
            let vq = (mu * (1. + e) / per).sqrt();
            dt = c.r.uni(0.01, 0.04) * per / vq;
            // Inbound, at a few times the limit (or the apocentre).
            let r0 = if e < 1. { (l * c.r.uni(1.3, 3.)).min(per * (1. + e) / (1. - e) * 0.95) } else { l * c.r.uni(1.3, 3.) };
            if r0 < 1.1 * l {
                return;
            }
            let cf = (per * (1. + e) / r0 - 1.) / e;
            if cf.abs() > 1. {
                return;
            }
            let (x, v) = conic(mu, per, e, c.r.uni(0., PI), c.r.uni(0., TAU), c.r.uni(0., TAU), -cf.acos());
            b[1].x = x;
            b[1].v = v;
            ia = 0;
            ib = 1;
            // Free fall time from r0, doubled.
            let tt = 2. * (r0 / ((2. * mu / r0).sqrt().max(v.norm() * 0.3)));
            steps = (tt / dt).min(4000.);
        }
        1 => {
            // Two planets meet far from the star.
            name = "meeting";
            let rs = crate::consts::R_SUN;
            b.push(Body::point(ms, rs, Z3, Z3));
            for _ in 0..2 {
                b.push(Body::point(ms * c.r.log(1e-9, 1e-6), c.r.log(1e-4, 1e-3), Z3, Z3));
            }
            let q = Sys { b: b.clone(), th: None, gh: None, dh: None, on: On::none(), t0: 0., tl: 1. };
            let l = limit(&q, 1, 2);
            let x = c.r.unit() * c.r.uni(5., 40.);
            let w = c.r.unit();
            let side = w.cross(c.r.unit()).unit();
            let speed = c.r.uni(0.003, 0.02);
            let d0 = c.r.uni(2., 4.) * l * f.max(1.);
            // relative path: w direction, offset f*l
            let rel = side * (f * l) - w * d0;
            b[1].x = x + rel * 0.5;
            b[2].x = x - rel * 0.5;
            b[1].v = w * (0.5 * speed);
            b[2].v = w * (-0.5 * speed);
            dt = c.r.uni(0.01, 0.05) * l / speed;
            ia = 1;
            ib = 2;
            steps = 2. * d0 / speed / dt;
        }
        _ => {
            name = "ejection";
            b.push(Body::point(ms, crate::consts::R_SUN, Z3, Z3));
            b.push(Body::point(ms * c.r.log(1e-8, 1e-3), 1e-4, Z3, Z3));
            let w = c.r.unit();
            let speed = c.r.uni(0.02, 0.05);
            dt = c.r.uni(0.5, 2.);
            let k = c.r.uni(5., 60.);
            b[1].x = w * (100. - k * speed * dt);
            b[1].v = w * speed;
            ia = 0;
            ib = 1;
            steps = if inside { k + 20. } else { 0.8 * k };
        }
    }
    // Company: light, far from everything, also farther than 100 AU from each other.
    let center = c.r.unit();
    while b.len() < n {
        let k = b.len() as f64;
        let dist = c.r.uni(55., 90.);
        let mut w = if b.len() % 2 == 0 { center } else { -center };
        w = (w + c.r.unit() * 0.2).unit();
        let mut q = Body::point(ms * 1e-12 * (1. + 0.1 * k), 1e-7, w * dist, Z3);
        q.v = w.cross(c.r.unit()).unit() * c.r.uni(0., 1e-3);
        if b.iter().any(|o| (o.x - q.x).norm() < 1.) {
            break;
        }
        b.push(q);
    }
    let n = b.len();
    let mut perm: Vec<usize> = (0..n).collect();
    c.r.shuffle(&mut perm);
    let at = |i: usize| perm.iter().position(|&k| k == i).unwrap();
    let s = Sys { b, th: None, gh: None, dh: None, on: On::none(), t0: 0., tl: 1e9 }.permuted(&perm);
    let (ia, ib) = (at(ia), at(ib));
    let big = s.most_massive();
    c.detail = serde_json::json!({ "sys": &s, "kind": kind, "dt": dt, "name": name, "f": f });
    // Everybody is safe at the start.
    let safe = (0..n).all(|i| (0..i).all(|j| (s.b[i].x - s.b[j].x).norm() > 1.05 * limit(&s, i, j)) && (s.b[i].x - s.b[big].x).norm() < 100.);
    if !safe {
        return;
    }
    let mut states: Vec<State> = vec![];
    let res = run_watch(&s, kind, dt, steps * dt, |_, u| states.push(state_of(u)));
    let bad = |st: &State, slack: f64| -> bool {
        (0..n).any(|i| (0..i).any(|j| (st.x[i] - st.x[j]).norm() < (1. - slack) * limit(&s, i, j))) || (0..n).any(|i| (st.x[i] - st.x[big]).norm() > 100. * (1. + slack * 0.1))
    };
    let what = || format!("{} {:?} f {:.3} bodies {} {} of {}, {} states, {:?}", name, kind, f, ia, ib, n, states.len(), res.as_ref().map(|r| r.steps));
    // Two consecutive states clearly beyond a limit: an evaluation in between was, too.
    let over = states.windows(2).position(|w| bad(&w[0], 0.03) && bad(&w[1], 0.03));
    c.ok("never-goes-on", over.is_none(), || format!("{} at step {:?}", what(), over));
    match &res {
        Ok(_) => {
            c.ok("run-stops", !inside || states[..states.len().saturating_sub(1)].iter().all(|q| !bad(q, 0.)), what);
        }
        Err(m) if stopped(m) => {
            c.ok("run-stops-only-on-encounter", inside, what);
            // The last state seen was about to cross a limit.
            if kind != Int::Ias15 {
                if let Some(st) = states.last() {
                    let reach = |i: usize, j: usize| (st.v[i] - st.v[j]).norm() * dt * 2. + 0.02 * limit(&s, i, j);
                    let near = (0..n).any(|i| (0..i).any(|j| (st.x[i] - st.x[j]).norm() < limit(&s, i, j) + reach(i, j)))
                        || (0..n).any(|i| (st.x[i] - st.x[big]).norm() > 100. - (st.v[i] - st.v[big]).norm() * dt * 2.);
                    c.ok("stops-at-the-encounter", near, what);
                }
            }
            let msg = if name == "ejection" { "has been ejected" } else { "par" };
            c.ok("explicit-message", m.contains(msg), || format!("{}: {}", what(), m));
        }
        Err(m) => c.fail("run-failed", format!("{}: {}", what(), m)),
    }
    c.sig(format!("{} {:?} n={} pair={},{} big={} inside={}", name, kind, n, ia, ib, big, inside));
    c.sample(|| format!("{} {:?}: {} bodies, pair {} {} passes at {:.3} of its limit", name, kind, n, ia, ib, f));
}

/// Build a simulation and make it ready; the message when it is refused.
fn build(s: &Sys, kind: Int, dt: f64) -> Result<Sim, String> {
    build_particles(s.particles_fn(), s, kind, dt)
}

type Make<'a> = Box<dyn Fn() -> Vec<p::Particle> + 'a>;

impl Sys {
    fn particles_fn<'a>(&'a self) -> Make<'a> {
        Box::new(move || self.particles())
    }
}

fn effects(on: On) -> p::ConsiderEffects {
    p::ConsiderEffects { tides: on.tides, rotational_flattening: on.flat, general_relativity: on.gr, disk: on.disk, wind: on.wind, evolution: on.evo }
}

fn build_particles(make: Make, s: &Sys, kind: Int, dt: f64) -> Result<Sim, String> {
    guard(|| {
        let u = p::Universe::new(s.t0, s.tl, make(), effects(s.on));
        let mut sim = Sim::new(kind, dt, 1e12, 1e12, u);
        sim.int().initialize_physical_values();
        sim
    })
}

fn tide_of(r: &mut Rng, radius: f64) -> p::TidalModel {
    match gen_ctl(r, radius) {
        TideM::Ctl { scale, sigma, k2 } => p::TidalModel::ConstantTimeLag(p::ConstantTimeLagParameters { dissipation_factor_scale: scale, dissipation_factor: sigma, love_number: k2 }),
        _ => unreachable!(),
    }
}

/// C21.
pub fn c21(c: &mut Ctx) {
    let kind = INTS[(c.case % 5) as usize];
    let (mut s, star, _) = c_force::mixed(c, c.case % 11 == 0);
    let n = s.n();
    let dt = s.shortest_period() / 100.;
    if !dt.is_finite() {
        return;
    }
    c.detail = serde_json::json!({ "masses": s.b.iter().map(|b| b.m).collect::<Vec<f64>>(), "on": s.on, "star": star, "th": s.th });
    // Valid: accepted and able to make a step.
    match build(&s, kind, dt) {
        Ok(mut sim) => {
            c.ev("accepted");
            if let Err(m) = guard(|| sim.int().iterate(&mut null_writer(), true).is_ok()) {
                if !stopped(&m) && !m.contains("require closed") {
                    c.fail("first-step", m);
                }
            }
        }
        Err(m) => {
            c.fail("accepted", format!("a valid configuration of {} bodies with {:?} is refused: {}", n, s.on, m));
            return;
        }
    }
    let other = |r: &mut Rng, k: usize| {
        let mut j = r.below(n - 1);
        if j >= k {
            j += 1;
        }
        j
    };
    // Valid variations at the edge of what is refused.
    {
        let mut q = s.clone();
        while q.n() < 10 {
            let k = q.n() as f64;
            let mut b = Body::point(1e-15, 1e-9, q.b[star].x + V3(40. + k, 1. + k, 0.3 * k), q.b[star].v + V3(0., 0., 1e-4));
            b.w = V3(0., 0., 1.);
            q.b.push(b);
        }
        let r = build(&q, kind, dt);
        c.ok("ten-bodies-accepted", r.is_ok(), || format!("ten bodies are refused: {:?}", r.as_ref().err()));
        let k = q.n() as f64;
        for extra in 1..=c.r.int(1, 3) {
            q.b.push(Body::point(1e-15, 1e-9, q.b[star].x + V3(50. + k + extra as f64, 1., 0.), q.b[star].v));
            let r = build(&q, kind, dt);
            c.ok("refused", r.is_err(), || format!("{} bodies are accepted", q.n()));
        }
        c.sig("more than ten".into());
    }
    for _ in 0..6 {
        let w = c.r.below(13);
        let seed = c.r.u64();
        let mut r = Rng::new(seed);
        let (name, refused, res): (&str, bool, Result<Sim, String>) = match w {
            0 if s.on.tides && s.th.is_some() => {
                let j = other(&mut r, s.th.unwrap());
                let m = tide_of(&mut r, s.b[j].r);
                let mk: Make = Box::new(|| {
                    let mut v = s.particles();
                    v[j].rotational_flattening = p::RotationalFlattening::new(p::RotationalFlatteningEffect::Disabled);
                    v[j].set_tides(p::Tides::new(p::TidesEffect::CentralBody(m.clone())));
                    v
                });
                ("two tidal hosts", true, build_particles(mk, &s, kind, dt))
            }
            1 if s.on.flat && s.th.is_some() => {
                let j = other(&mut r, s.th.unwrap());
                let mk: Make = Box::new(|| {
                    let mut v = s.particles();
                    v[j].tides = p::Tides::new(p::TidesEffect::Disabled);
                    v[j].set_rotational_flattening(p::RotationalFlattening::new(p::RotationalFlatteningEffect::CentralBody(p::RotationalFlatteningModel::OblateSpheroid(p::OblateSpheroidParameters { love_number: 0.3 }))));
                    v
                });
                ("two flattening hosts", true, build_particles(mk, &s, kind, dt))
            }
            2 if s.on.gr && s.gh.is_some() => {
                let j = other(&mut r, s.gh.unwrap().0);
                let imp = *r.pick(&[p::GeneralRelativityImplementation::Kidder1995, p::GeneralRelativityImplementation::Anderson1975, p::GeneralRelativityImplementation::Newhall1983]);
                let off = r.chance(0.25);
                let mk: Make = Box::new(|| {
                    let mut v = s.particles();
                    v[j].set_general_relativity(p::GeneralRelativity::new(p::GeneralRelativityEffect::CentralBody(if off { p::GeneralRelativityImplementation::Disabled } else { imp })));
                    v
                });
                (if off { "second relativity host without implementation" } else { "two relativity hosts" }, !off, build_particles(mk, &s, kind, dt))
            }
            3 if s.on.disk && s.dh.is_some() => {
                let (h, d) = s.dh.unwrap();
                if d.rin == 0. && d.rout == 0. {
                    continue;
                }
                let j = other(&mut r, h);
                let off = r.chance(0.25);
                let (rin, rout) = if off { (0., 0.) } else { *r.pick(&[(0., 10.), (0.01, 10.), (0.1, 0.)]) };
                let mk: Make = Box::new(|| {
                    let mut v = s.particles();
                    v[j].set_disk(p::Disk::new(p::DiskEffect::CentralBody(p::DiskProperties { inner_edge_distance: rin, outer_edge_distance: rout, lifetime: 1e5, alpha: 1e-2, surface_density_normalization: 1e-4, mean_molecular_weight: 2.4 })));
                    v
                });
                (if off { "second disk host without extension" } else { "two disk hosts" }, !off, build_particles(mk, &s, kind, dt))
            }
            4 => {
                // Hosts of tides and flattening.
                let i = r.below(n);
                let j = other(&mut r, i);
                let mut q = s.clone();
                for b in q.b.iter_mut() {
                    b.tide = None;
                    b.flat = None;
                }
                q.th = None;
                q.on.tides = r.chance(0.75);
                q.on.flat = r.chance(0.75);
                let m = tide_of(&mut r, q.b[i].r);
                let qq = q.clone();
                let mk: Make = Box::new(|| {
                    let mut v = qq.particles();
                    v[i].set_tides(p::Tides::new(p::TidesEffect::CentralBody(m.clone())));
                    v[j].set_rotational_flattening(p::RotationalFlattening::new(p::RotationalFlatteningEffect::CentralBody(p::RotationalFlatteningModel::OblateSpheroid(p::OblateSpheroidParameters { love_number: 0.3 }))));
                    v
                });
                let no = q.on.tides && q.on.flat;
                (if no { "different hosts for tides and flattening" } else { "different hosts, one effect off" }, no, build_particles(mk, &q, kind, dt))
            }
            5 => {
                // Relativity host that is not the most massive body.
                let big = s.most_massive();
                let j = other(&mut r, big);
                let mut q = s.clone();
                q.b.iter_mut().for_each(|b| b.gr = true);
                q.gh = Some((j, *r.pick(&[Gr::Kidder, Gr::Anderson, Gr::Newhall])));
                q.on.gr = r.chance(0.8);
                ("relativity host not the most massive", q.on.gr, build(&q, kind, dt))
            }
            6 | 7 => {
                // Mixed models or viscosities in one body.
                let j = r.below(n);
                let host = s.th == Some(j);
                let ctl = tide_of(&mut r, s.b[j].r);
                let eta = r.log(1e-9, 1e-3);
                let v2 = if r.chance(0.5) { eta } else { eta * r.uni(1.01, 3.) };
                let creep_t = p::TidalModel::CreepCoplanar(p::CreepCoplanarParameters { uniform_viscosity_coefficient: eta });
                let creep_f = p::RotationalFlatteningModel::CreepCoplanar(p::CreepCoplanarParameters { uniform_viscosity_coefficient: v2 });
                let obl = p::RotationalFlatteningModel::OblateSpheroid(p::OblateSpheroidParameters { love_number: 0.3 });
                let (ct, cf) = (r.chance(0.5), r.chance(0.5));
                let no = ct != cf || ct && cf && v2 != eta;
                let first = r.chance(0.5);
                let mk: Make = Box::new(|| {
                    let mut v = s.particles();
                    let t = if ct { creep_t.clone() } else { ctl.clone() };
                    let f = if cf { creep_f } else { obl };
                    v[j].tides = p::Tides::new(p::TidesEffect::Disabled);
                    v[j].rotational_flattening = p::RotationalFlattening::new(p::RotationalFlatteningEffect::Disabled);
                    let set_t = |v: &mut Vec<p::Particle>| v[j].set_tides(p::Tides::new(if host { p::TidesEffect::CentralBody(t.clone()) } else { p::TidesEffect::OrbitingBody(t.clone()) }));
                    let set_f = |v: &mut Vec<p::Particle>| v[j].set_rotational_flattening(p::RotationalFlattening::new(if host { p::RotationalFlatteningEffect::CentralBody(f) } else { p::RotationalFlatteningEffect::OrbitingBody(f) }));
                    if first {
                        set_t(&mut v);
                        set_f(&mut v);
                    } else {
                        set_f(&mut v);
                        set_t(&mut v);
                    }
                    v
                });
                // Only the refusal is judged: the rest may be a creep model on an inclined orbit.
                if !no {
                    let res = guard(|| mk().len());
                    c.ok("accepted", res.is_ok(), || format!("same models refused: {:?}", res));
                    continue;
                }
                ("mixed creep models", true, build_particles(mk, &s, kind, dt))
            }
            8 => {
                // Mass without a table.
                let k = r.below(n);
                let mut q = s.clone();
                let bad = r.uni(0.002, 0.008) * r.sign();
                q.b[k].evo = match r.below(5) {
                    0 => Evo::GalletBolmont2017(*r.pick(&[0.3, 0.5, 1.0, 1.2, 1.4]) + bad),
                    1 => Evo::BolmontMathis2016(*r.pick(&[0.4, 1.0, 1.5]) + bad),
                    2 => Evo::Baraffe2015(*r.pick(&[0.1, 0.5, 1.0, 1.4]) + bad),
                    3 => Evo::Leconte2011(*r.pick(&[0.01, 0.05, 0.08]) + bad * 0.1),
                    _ => Evo::Baraffe1998(*r.pick(&[0.1, 1.0]) + bad),
                };
                q.on.evo = true;
                q.t0 = 1e8 * 365.25;
                q.tl = 1.;
                ("no table for the mass", true, build(&q, kind, dt))
            }
            9 | 10 => {
                // Ages outside of the table.
                let k = r.below(n);
                let e = tables::random_evo(&mut r);
                let mut q = s.clone();
                for b in q.b.iter_mut() {
                    b.evo = Evo::None;
                }
                q.b[k].evo = e;
                q.on.evo = true;
                let (a, b) = tables::span(e);
                let w = b - a;
                let (t0, tl, no) = match r.below(4) {
                    0 => (a - r.log(1e-3, 0.3) * a.max(1.), 1., true),
                    1 => (a + r.f() * 0.5 * w, w * 1.01, true),
                    2 => (a + r.f() * 0.5 * w, 0.49 * w, false),
                    _ => {
                        let t0 = a + r.f() * 0.9 * w;
                        (t0, (b - t0) * (1. + r.log(1e-6, 1.)), true)
                    }
                };
                q.t0 = t0;
                q.tl = tl;
                // Its radius may swallow a neighbour: only the building is judged.
                let res = guard(|| {
                    let u = p::Universe::new(q.t0, q.tl, q.particles(), effects(q.on));
                    Sim::new(kind, dt, 1e12, 1e12, u)
                });
                ("age outside of the table", no, res)
            }
            _ => {
                // New time limits on a running simulation.
                let mut q = s.clone();
                q.tl = if q.on.evo { q.tl } else { 1e5 };
                let mut sim = match build(&q, kind, dt) {
                    Ok(x) => x,
                    Err(_) => continue,
                };
                let ok = guard(|| {
                    for _ in 0..5 {
                        let _ = sim.int().iterate(&mut null_writer(), true);
                    }
                });
                if ok.is_err() {
                    continue;
                }
                let t = sim.t();
                let past = guard(|| sim.int().set_time_limit(t * r.uni(0.1, 0.9)));
                c.ok("refused", past.is_err(), || format!("time limit before the current time accepted ({:?})", kind));
                let evolving: Vec<Evo> = q.b.iter().map(|b| b.evo).filter(|e| *e != Evo::None).collect();
                if q.on.evo && !evolving.is_empty() {
                    let end = evolving.iter().map(|e| tables::span(*e).1 - q.t0).fold(f64::INFINITY, f64::min);
                    let late = guard(|| sim.int().set_time_limit(end * (1. + r.log(1e-6, 1.))));
                    c.ok("refused", late.is_err(), || format!("time limit after the end of the table accepted ({:?})", kind));
                    let fine = guard(|| sim.int().set_time_limit(end * r.uni(0.9, 0.999)));
                    c.ok("accepted", fine.is_ok(), || format!("time limit within the table refused ({:?}): {:?}", kind, fine));
                } else {
                    let fine = guard(|| sim.int().set_time_limit(t * r.uni(1.1, 1e6)));
                    c.ok("accepted", fine.is_ok(), || format!("later time limit refused ({:?}): {:?}", kind, fine));
                }
                c.sig(format!("new time limit {:?} evo={}", kind, q.on.evo));
                continue;
            }
        };
        let err = res.err();
        if refused {
            c.ok("refused", err.is_some(), || format!("{}: accepted with {} bodies, star {}, seed {}", name, n, star, seed));
        } else {
            // Other reasons (an encounter at the start) may still refuse it.
            let fine = err.as_ref().map_or(true, |m| stopped(m));
            c.ok("accepted", fine, || format!("{}: refused: {:?}", name, err));
        }
        c.sig(format!("{} {:?} n={}", name, kind, n));
    }
    c.sample(|| format!("{} bodies, {:?}, {:?}: accepted; refused with inconsistencies put in", n, s.on, kind));
    s.tl = 0.;
}

fn wrap(a: f64) -> f64 {
    let mut d = a % TAU;
    if d > PI {
        d -= TAU;
    }
    if d < -PI {
        d += TAU;
    }
    d.abs()
}

/// Eccentric (or hyperbolic) anomaly by bisection and Newton.
fn solve_kepler(e: f64, m: f64) -> f64 {
    if e < 1. {
        let mm = m - TAU * (m / TAU).round();
        let (mut lo, mut hi) = (mm - e, mm + e);
        let mut x = mm;
        for _ in 0..200 {
            let f = x - e * x.sin() - mm;
            if f > 0. {
                hi = x;
            } else {
                lo = x;
            }
            let mut y = x - f / (1. - e * x.cos());
            if !(y > lo && y < hi) {
                y = 0.5 * (lo + hi);
            }
            if (y - x).abs() <= 1e-16 * x.abs() {
                break;
            }
            x = y;
        }
        x
    } else {
        let s = if m < 0. { -1. } else { 1. };
        let m = m.abs();
        let (mut lo, mut hi) = (0f64, (2. * m / e + 1.8).ln().max(1.) + (6. * m).powf(1. / 3.) + 1.);
        let mut x = (m / e + ((m / e).powi(2) + 1.).sqrt()).ln().min(hi);
        for _ in 0..300 {
            let f = e * x.sinh() - x - m;
            if f > 0. {
                hi = x;
            } else {
                lo = x;
            }
            let mut y = x - f / (e * x.cosh() - 1.);
            if !(y > lo && y < hi) {
                y = 0.5 * (lo + hi);
            }
            if (y - x).abs() <= 1e-16 * x.abs() {
                break;
            }
            x = y;
        }
        s * x
    }
}

fn angle(r: &mut Rng) -> f64 {
    match r.below(8) {
        0 => *r.pick(&[0., PI / 2., PI, 1.5 * PI, TAU]),
        1 => r.log(1e-12, 1e-2),
        2 => TAU - r.log(1e-12, 1e-2),
        3 => *r.pick(&[PI / 2., PI, 1.5 * PI]) + r.log(1e-12, 1e-2) * r.sign(),
        _ => r.uni(0., TAU),
    }
}

/// Own elements to Cartesian, any conic but the parabola.
fn from_elements(mu: f64, q: f64, e: f64, i: f64, arg: f64, node: f64, m: f64) -> (V3, V3) {
    let x = solve_kepler(e, m);
    let (a, b) = (q / (1. - e), ((1. - e) * (1. + e)).abs().sqrt());
    if e < 1. {
        let rate = (mu / a.powi(3)).sqrt() / (1. - e * x.cos());
        // cos(x) - e without cancellation near the pericentre
        let px = q - 2. * a * (0.5 * x).sin().powi(2);
        place(px, a * b * x.sin(), -a * x.sin() * rate, a * b * x.cos() * rate, i, node, arg)
    } else {
        let rate = (mu / (-a).powi(3)).sqrt() / (e * x.cosh() - 1.);
        let px = q - 2. * (-a) * (0.5 * x).sinh().powi(2);
        place(px, -a * b * x.sinh(), a * x.sinh() * rate, -a * b * x.cosh() * rate, i, node, arg)
    }
}

/// C22.
pub fn c22(c: &mut Ctx) {
    let mu = K2 * c.r.log(1e-3, 10.);
    let q = c.r.log(1e-3, 100.);
    let e = match c.r.below(10) {
        0 => 0.,
        1 => c.r.log(1e-12, 1e-3),
        2 => c.r.uni(0.9, 0.999),
        3 => 1. - c.r.log(1e-9, 1e-2),
        4 => 1. + c.r.log(1e-6, 1e-1),
        5 => c.r.uni(1.05, 4.),
        6 => c.r.log(4., 50.),
        _ => c.r.uni(0., 0.95),
    };
    let inc = match c.r.below(6) {
        0 => 0.,
        1 => PI,
        2 => c.r.log(1e-9, 1e-2),
        3 => PI - c.r.log(1e-9, 1e-2),
        _ => c.r.uni(0., PI),
    };
    let node = angle(&mut c.r);
    let arg = angle(&mut c.r);
    let m = if e < 1. {
        let m = angle(&mut c.r);
        match c.r.below(5) {
            0 => m - TAU,
            1 => m + TAU * c.r.int(1, 5) as f64,
            _ => m,
        }
    } else {
        c.r.sign() * c.r.log(1e-8, 1e4)
    };
    c.detail = serde_json::json!({ "mu": mu, "q": q, "e": e, "i": inc, "node": node, "arg": arg, "m": m });
    let class = if e == 0. {
        "circle"
    } else if e < 1e-3 {
        "near circle"
    } else if e < 0.99 {
        "ellipse"
    } else if e < 1.01 {
        "near parabola"
    } else {
        "hyperbola"
    };
    let what = || format!("{} q {:e} e {:e} i {:e} node {:e} arg {:e} M {:e} mu {:e}", class, q, e, inc, node, arg, m, mu);
    let t = p::tools::calculate_cartesian_coordinates(mu, q, e, inc, node + arg, node, m);
    let (x, v) = (V3(t.0, t.1, t.2), V3(t.3, t.4, t.5));
    let (wx, wv) = from_elements(mu, q, e, inc, arg, node, m);
    // The anomaly follows from the mean anomaly with 1/(1 - e cos E), the angles are sums.
    let mr = if e < 1. { m.abs().max(1.) } else { 1. };
    let ea = solve_kepler(e, m);
    let cond = if e < 1. { 1. / (1. - e * ea.cos()) } else { 1. / (e * ea.cosh() - 1.) };
    let sens = (1. + mr * cond.min(1e8)) * if class == "near parabola" { 1. / (1. - e).abs() } else { 1. };
    // The closed-form solver of Nijenhuis is good to about 1e-9.
    let tol = 3e-15 * (10. + sens) + if class == "ellipse" { 2e-9 } else { 0. };
    c.leq(&format!("{}-position", class), (x - wx).norm(), tol * wx.norm().max(q), what);
    c.leq(&format!("{}-velocity", class), (v - wv).norm(), tol * wv.norm().max((mu / q).sqrt()), what);
    // Two-body relations of what was returned.
    let a = q / (1. - e);
    let en = 0.5 * v.norm2() - mu / x.norm();
    c.leq("energy", (en + mu / (2. * a)).abs(), 3e-13 * (mu / x.norm()).max(0.5 * v.norm2()) * (1. + sens * 1e-2), what);
    let h = x.cross(v);
    let lever = x.norm() * v.norm() / h.norm();
    c.leq("angular-momentum", (h.norm2() / (mu * q * (1. + e)) - 1.).abs(), 1e-13 * (10. + sens) * lever, what);
    // A parabola of the same pericentre.
    {
        let l = c.r.sign() * c.r.log(1e-6, 1e3);
        let t = p::tools::calculate_cartesian_coordinates(mu, q, 1., inc, node + arg, node, l);
        let (x, v) = (V3(t.0, t.1, t.2), V3(t.3, t.4, t.5));
        // D + D^3/3 = l
        let mut dd = l.signum() * (3. * l.abs()).powf(1. / 3.).min(l.abs());
        for _ in 0..100 {
            dd -= (dd + dd.powi(3) / 3. - l) / (1. + dd * dd);
        }
        let rate = (2. * mu / q).sqrt() / (1. + dd * dd);
        let (wx, wv) = place(q * (1. - dd * dd), 2. * q * dd, -dd * rate, rate, inc, node, arg);
        c.leq("parabola-position", (x - wx).norm(), 1e-12 * wx.norm(), what);
        c.leq("parabola-velocity", (v - wv).norm(), 1e-12 * wv.norm(), what);
    }
    // And back.
    let (ga, gq, ge, gi, gp, gn, gm, gper) = p::tools::calculate_keplerian_orbital_elements(mu, ax(x), ax(v));
    let back = class != "near parabola" && e < 30. && m.abs() < 1e3;
    let d = 1e-15 * (1. + x.norm() / q);
    let near1 = 1. / (1. - e).abs();
    if back {
        c.leq("back-semi-major-axis", (ga / a - 1.).abs(), 300. * d * (1. + near1) + 1e-13 * sens, what);
        c.leq("back-pericentre", (gq / q - 1.).abs(), if e > 1e-3 { 200. * d * (1. + near1) / e.min(1.) } else { 1e-7 }, what);
        c.leq("back-eccentricity", (ge - e).abs(), if e > 1e-6 { 120. * d * (1. + e * e) / e.min(1.) } else { 1.5e-7 }, what);
        c.leq("back-inclination", (gi - inc).abs(), 5e-8f64.min(1e-14 * lever / inc.sin().abs().max(1e-300)).max(3e-14 * lever), what);
        if e < 1. {
            c.leq("back-period", (gper / (TAU * (a.powi(3) / mu).sqrt()) - 1.).abs(), 150. * d * (1. + near1) + 1e-13 * sens, what);
            c.ok("back-range", gm >= 0. && gm <= TAU * (1. + 1e-15) && gn >= 0. && gn <= TAU * (1. + 1e-15), || format!("{} got M {} node {}", what(), gm, gn));
        }
        // The elements together describe the same place: an angle is only as good as the cosine it comes from.
        let (bx, bv) = from_elements(mu, gq, ge, gi, gp - gn, gn, gm);
        let k = if ge == 0. { 3e-8 } else { let z = 8. * d * (1. + near1) * (1. + e) / e.min(1.).powi(2); z.sqrt().min(z / (if e < 1. { ea.sin().abs() } else { ea.sinh().abs() }).max(1e-300)) };
        let k = k * 24. * cond.max(1.) + 1e-11 * (1. + e) * (1. + near1) + 3e-8;
        c.leq("back-state", (bx - x).norm(), k * x.norm().max(q), || format!("{} got {:?}", what(), (ga, gq, ge, gi, gp, gn, gm)));
        c.leq("back-state-velocity", (bv - v).norm(), k * v.norm().max((mu / q).sqrt()), || format!("{} got {:?}", what(), (ga, gq, ge, gi, gp, gn, gm)));
        // Each angle where it is defined.
        if inc.sin().abs() > 1e-6 {
            c.leq("back-node", wrap(gn - node), 1e-14 * lever / inc.sin().abs().min(1.) + 1e-13, what);
        }
        if e > 1e-4 && inc.sin().abs() > 1e-4 {
            c.leq("back-perihelion", wrap(gp - node - arg), 1e-8 + 1e-13 / e, what);
        }
        if e > 1e-4 && e < 0.98 {
            c.leq("back-mean-anomaly", wrap(gm - m), k * 10., || format!("{} got {}", what(), gm));
        }
    }
    let (pq, pe) = p::tools::calculate_perihelion_distance_and_eccentricity(mu, ax(x), ax(v));
    if back {
        c.leq("pericentre-only", (pq / q - 1.).abs(), if e > 1e-3 { 200. * d * (1. + near1) / e.min(1.) } else { 1e-7 }, what);
        c.leq("eccentricity-only", (pe - e).abs(), if e > 1e-6 { 120. * d * (1. + e * e) / e.min(1.) } else { 1.5e-7 }, what);
    }
    // Eccentricity vector.
    let ev = va(p::tools::calculate_eccentricity_vector(mu, ax(x), ax(v)));
    let want = v.cross(h) / mu - x.unit();
    c.leq("eccentricity-vector", (ev - want).norm(), 1e-14 * (10. + x.norm() * v.norm2() / mu), what);
    // Angle between the orbit and an equator.
    let ob = match c.r.below(4) {
        0 => 0.,
        1 => c.r.log(1e-6, 1e-2),
        _ => c.r.uni(0., PI),
    };
    let hh = h.unit();
    let side = hh.cross(c.r.unit()).unit();
    let spin = (hh * ob.cos() + side * ob.sin()) * c.r.log(1e-3, 100.);
    let got = p::tools::calculate_inclination_orbital_equatorial_plane(ax(x), ax(v), ax(spin));
    c.leq("obliquity", (got - ob).abs(), 1e-7f64.min(3e-14 / ob.sin().abs().max(1e-300)).max(1e-13) * (1. + 1e-2 * x.norm() / q), || format!("{} obliquity {:e} got {:e}", what(), ob, got));
    // Spin of given obliquity about an orbit of given inclination and node.
    let w = c.r.log(1e-3, 100.);
    let sv = va(p::tools::calculate_spin(w, inc, ob, node));
    c.leq("spin-norm", (sv.norm() / w - 1.).abs(), 1e-13, || format!("spin {:?} for {:e}", sv, w));
    let normal = V3(inc.sin() * node.sin(), -inc.sin() * node.cos(), inc.cos());
    c.leq("spin-obliquity", ((sv.dot(normal) / w).clamp(-1., 1.) - ob.cos()).abs(), 1e-13, || format!("spin {:?} obliquity {:e} inclination {:e} node {:e}", sv, ob, inc, node));
    // Pseudo-synchronisation (Hut 1981).
    if e < 0.99 {
        let (m1, m2) = (c.r.log(0.01, 2.), c.r.log(1e-8, 1e-2));
        let per = p::tools::calculate_pseudo_synchronization_period(a, e, m1, m2);
        let e2 = e * e;
        let f = (1. + 7.5 * e2 + 45. / 8. * e2 * e2 + 5. / 16. * e2.powi(3)) / ((1. + 3. * e2 + 3. / 8. * e2 * e2) * (1. - e2).powf(1.5));
        let n = (K2 * (m1 + m2) / a.powi(3)).sqrt();
        let want = TAU / (f * n);
        c.leq("pseudo-synchronous", (per / want - 1.).abs(), 1e-4, || format!("{} got {} want {}", what(), per, want));
    }
    c.sig(format!("{} i={} node={} arg={} M={}", class, (inc * 4. / PI).floor(), (node * 4. / PI).floor(), (arg * 4. / PI).floor(), if e < 1. { (wrap(m) * m.sin().signum() * 4. / PI).floor() } else { m.signum() * m.abs().log10().floor() }));
    c.sample(what);
    let _ = phys::kepler;
}
