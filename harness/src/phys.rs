//! Reference physics: every force, torque and evolution law written from its published form, without
//! using any code of the crate under test (only its numerical constants).
use crate::sys::*;
use crate::tables;
use crate::util::*;
use crate::consts as k;

pub const PI: f64 = std::f64::consts::PI;
pub const C2: f64 = k::SPEED_OF_LIGHT_2;

/// Physical parameters of a body at one time.
#[derive(Clone, Debug)]
pub struct Par {
    pub r: f64,
    pub rg2: f64,
    pub inertia: f64,
    pub k2: Option<f64>,
    pub invq: Option<f64>,
}

/// Parameters at simulation time t.
pub fn pars(s: &Sys, t: f64) -> Vec<Par> {
    s.b.iter()
        .map(|b| {
            let mut p = Par { r: b.r, rg2: b.rg * b.rg, inertia: 0., k2: None, invq: None };
            if s.on.evo {
                if let Some(tab) = tables::tab(b.evo) {
                    let age = s.t0 + t;
                    p.r = tab.radius(age);
                    if let Some(g) = tab.rg2(age) {
                        p.rg2 = g;
                    }
                    p.k2 = tab.love(age);
                    p.invq = tab.invq(age);
                }
            }
            p.inertia = b.m * p.rg2 * p.r * p.r;
            p
        })
        .collect()
}

#[derive(Clone, Debug)]
pub struct Eff {
    pub a: Vec<V3>,
    pub dl: Vec<V3>,
}

impl Eff {
    pub fn zero(n: usize) -> Eff {
        Eff { a: vec![Z3; n], dl: vec![Z3; n] }
    }
    pub fn add(&mut self, o: &Eff) {
        for i in 0..self.a.len() {
            self.a[i] += o.a[i];
            self.dl[i] += o.dl[i];
        }
    }
}

pub fn spins(p: &[Par], st: &State) -> Vec<V3> {
    (0..p.len()).map(|i| st.l[i] / p[i].inertia).collect()
}

pub fn newton(m: &[f64], x: &[V3]) -> Vec<V3> {
    let n = m.len();
    let mut a = vec![Z3; n];
    for i in 0..n {
        for j in 0..i {
            let d = x[j] - x[i];
            let r2 = d.norm2();
            let q = d / (r2 * r2.sqrt());
            a[i] += K2 * m[j] * q;
            a[j] -= K2 * m[i] * q;
        }
    }
    a
}

pub struct Kep {
    pub a: f64,
    pub e: f64,
    pub n: f64,
    /// Mean anomaly.
    pub m: f64,
    /// True anomaly.
    pub f: f64,
}

/// Elliptic elements that matter for the tidal models.
pub fn kepler(mu: f64, r: V3, v: V3) -> Kep {
    let d = r.norm();
    let a = 1. / (2. / d - v.norm2() / mu);
    let ev = v.cross(r.cross(v)) / mu - r / d;
    let e = ev.norm();
    let n = (mu / (a * a * a)).sqrt();
    // e cos E, e sin E
    let ec = 1. - d / a;
    let es = r.dot(v) / (mu * a).sqrt();
    let ea = if e > 0. { es.atan2(ec) } else { 0. };
    let m = ea - es;
    let f = ((1. - e * e).max(0.).sqrt() * ea.sin()).atan2(ea.cos() - e);
    Kep { a, e, n, m, f }
}

/// Scaled dissipation factor of body `i` when its companion is `j`, and its lag angle.
pub fn sigma(s: &Sys, p: &[Par], w: &[V3], st: &State, i: usize, j: usize) -> f64 {
    let (scale, sg) = match &s.b[i].tide {
        Some(TideM::Ctl { scale, sigma, .. }) => (*scale, *sigma),
        _ => return 0.,
    };
    let dynamic = matches!(s.b[i].evo, Evo::BolmontMathis2016(_) | Evo::GalletBolmont2017(_) | Evo::LeconteChabrier2013(true));
    if dynamic {
        let mu = K2 * (s.b[i].m + s.b[j].m);
        let kp = kepler(mu, st.x[i] - st.x[j], st.v[i] - st.v[j]);
        let om = w[i].norm();
        let half = (om - kp.n).abs();
        if half < om {
            let lag = lag(&p[i], w[i]);
            return scale * (2. * K2 / (3. * p[i].r.powi(5)) * lag / half.max(k::SMOOTHING_FACTOR_DYN_TIDE_COROTATION) + sg);
        }
    }
    scale * sg
}

pub fn lag(p: &Par, w: V3) -> f64 {
    0.75 * w.norm2() / k::SUN_DYN_FREQ_2 * p.invq.unwrap_or(0.)
}

pub fn love(s: &Sys, p: &[Par], i: usize) -> f64 {
    match &s.b[i].tide {
        Some(TideM::Ctl { k2, .. }) => p[i].k2.unwrap_or(*k2),
        _ => 0.,
    }
}

/// True when the pair's dissipation is close to a regime change (where rounding decides).
pub fn near_regime(s: &Sys, p: &[Par], st: &State) -> bool {
    let w = spins(p, st);
    let h = match s.th {
        Some(h) => h,
        None => return false,
    };
    for i in 0..s.n() {
        if i == h {
            continue;
        }
        let mu = K2 * (s.b[i].m + s.b[h].m);
        let kp = kepler(mu, st.x[i] - st.x[h], st.v[i] - st.v[h]);
        for q in [i, h] {
            let om = w[q].norm();
            let half = (om - kp.n).abs();
            if (half - om).abs() < 1e-6 * om || (half - k::SMOOTHING_FACTOR_DYN_TIDE_COROTATION).abs() < 1e-5 || half < 1e-4 * om {
                return true;
            }
        }
    }
    false
}

pub struct Tide {
    pub eff: Eff,
    /// Heat rate of the tide raised in each orbiting body (constant time lag only).
    pub heat: Vec<f64>,
    /// Force of each orbiting body due to its own tide (creep).
    pub own: Vec<V3>,
}

pub fn tides(s: &Sys, p: &[Par], st: &State) -> Tide {
    let n = s.n();
    let mut o = Tide { eff: Eff::zero(n), heat: vec![0.; n], own: vec![Z3; n] };
    let h = match s.th {
        Some(h) if s.on.tides && s.b[h].tide.is_some() => h,
        _ => return o,
    };
    let w = spins(p, st);
    let (mh, rh, wh) = (s.b[h].m, p[h].r, w[h]);
    for i in 0..n {
        if i == h {
            continue;
        }
        let model = match &s.b[i].tide {
            Some(t) => t,
            None => continue,
        };
        let (m, rp, wp) = (s.b[i].m, p[i].r, w[i]);
        let x = st.x[i] - st.x[h];
        let v = st.v[i] - st.v[h];
        let d = x.norm();
        let vr = x.dot(v) / d;
        let f;
        match model {
            TideM::Ctl { .. } => {
                let ss = sigma(s, p, &w, st, h, i);
                let sp = sigma(s, p, &w, st, i, h);
                let fos = 4.5 * m * m * rh.powi(10) * ss / d.powi(7);
                let fop = 4.5 * mh * mh * rp.powi(10) * sp / d.powi(7);
                let cons = -3. * K2 / d.powi(7) * (m * m * rh.powi(5) * love(s, p, h) + mh * mh * rp.powi(5) * love(s, p, i));
                let diss_p = -13.5 * vr / d.powi(8) * mh * mh * rp.powi(10) * sp;
                let diss_s = -13.5 * vr / d.powi(8) * m * m * rh.powi(10) * ss;
                let frad = cons + diss_p + diss_s;
                f = (frad + (fos + fop) * vr / d) * x / d + fos / d * (wh.cross(x) - v) + fop / d * (wp.cross(x) - v);
                // Minus the moment of the part of the force raised by each tide.
                let tp = -fop * (d * wp - x.dot(wp) * x / d - x.cross(v) / d);
                o.eff.dl[i] += tp;
                // Power lost by orbit and spin through the planetary tide (conservative part excluded).
                let fdiss = (diss_p + fop * vr / d) * x / d + fop / d * (wp.cross(x) - v);
                o.heat[i] = -fdiss.dot(v) - tp.dot(wp);
                if let Some(TideM::Ctl { .. }) = &s.b[h].tide {
                    let ts = -fos * (d * wh - x.dot(wh) * x / d - x.cross(v) / d);
                    o.eff.dl[h] += ts;
                }
            }
            TideM::Creep { eta } => {
                let kp = kepler(K2 * (m + mh), x, v);
                let sh = creep_shape(&kp, m, mh, rp, *eta, wp.2, true, false);
                let c = K2 * m * mh * rp * rp / d.powi(4);
                f = V3(x.0, x.1, 0.) / d * (-c * (0.9 * sh.0 + 0.6 * sh.2)) + V3(-x.1, x.0, 0.) / d * (0.6 * c * sh.1);
                o.eff.dl[i] += V3(0., 0., -0.6 * c * d * sh.1);
            }
            TideM::Kaula { w: tw, re, im } => {
                let (fk, dl) = kaula_planar(m, mh, rp, wp.norm(), x, v, tw, re, im);
                f = fk;
                o.eff.dl[i] += dl;
            }
        }
        if let Some(TideM::Creep { eta }) = &s.b[h].tide {
            let kp = kepler(K2 * (m + mh), x, v);
            let sh = creep_shape(&kp, mh, m, rh, *eta, wh.2, true, false);
            o.eff.dl[h] += V3(0., 0., -0.6 * K2 * m * mh * rh * rh / d.powi(3) * sh.1);
        }
        o.own[i] = f;
        o.eff.a[i] += f / m;
        o.eff.a[h] -= f / mh;
    }
    o
}

pub fn flat(s: &Sys, p: &[Par], st: &State) -> Eff {
    let n = s.n();
    let mut o = Eff::zero(n);
    let h = match s.th {
        Some(h) if s.on.flat && s.b[h].flat.is_some() => h,
        _ => return o,
    };
    let w = spins(p, st);
    let (mh, rh, wh) = (s.b[h].m, p[h].r, w[h]);
    for i in 0..n {
        if i == h {
            continue;
        }
        let model = match &s.b[i].flat {
            Some(t) => t,
            None => continue,
        };
        let (m, rp, wp) = (s.b[i].m, p[i].r, w[i]);
        let x = st.x[i] - st.x[h];
        let v = st.v[i] - st.v[h];
        let d = x.norm();
        match model {
            FlatM::Oblate { k: kp } => {
                // Gradient of the degree-two potential of each spin-flattened body.
                let kh = match &s.b[h].flat {
                    Some(FlatM::Oblate { k }) => *k,
                    _ => 0.,
                };
                let one = |mass_other: f64, r: f64, k2: f64, om: V3| -> V3 {
                    let c = mass_other * k2 * r.powi(5) / 6.;
                    let q = x.dot(om);
                    x * (-3. * c * om.norm2() / d.powi(5) + 15. * c * q * q / d.powi(7)) + om * (-6. * c * q / d.powi(5))
                };
                let fs = one(m, rh, kh, wh);
                let fp = one(mh, rp, *kp, wp);
                let f = fs + fp;
                o.a[i] += f / m;
                o.a[h] -= f / mh;
                o.dl[i] -= x.cross(fp);
                o.dl[h] -= x.cross(fs);
            }
            FlatM::Creep { eta } => {
                let kp = kepler(K2 * (m + mh), x, v);
                let sh = creep_shape(&kp, m, mh, rp, *eta, wp.2, false, true);
                let c = K2 * m * mh * rp * rp / d.powi(4);
                let f = V3(x.0, x.1, 0.) / d * (-0.6 * c * sh.2);
                o.a[i] += f / m;
                o.a[h] -= f / mh;
                o.dl[i] += V3(0., 0., -0.6 * c * d * sh.1);
                if let Some(FlatM::Creep { eta }) = &s.b[h].flat {
                    let sh = creep_shape(&kp, mh, m, rh, *eta, wh.2, false, true);
                    o.dl[h] += V3(0., 0., -0.6 * K2 * m * mh * rh * rh / d.powi(3) * sh.1);
                }
            }
        }
    }
    o
}

/// Whether the creep response of a body is near the boundary between its two regimes.
pub fn creep_edge(s: &Sys, p: &[Par], st: &State) -> bool {
    let h = match s.th {
        Some(h) => h,
        None => return false,
    };
    let w = spins(p, st);
    let eta = |i: usize| match (&s.b[i].tide, &s.b[i].flat) {
        (Some(TideM::Creep { eta }), _) => *eta,
        (_, Some(FlatM::Creep { eta })) => *eta,
        _ => 0.,
    };
    for i in 0..s.n() {
        if i == h {
            continue;
        }
        let kp = kepler(K2 * (s.b[i].m + s.b[h].m), st.x[i] - st.x[h], st.v[i] - st.v[h]);
        for q in [i, h] {
            if eta(q) == 0. {
                continue;
            }
            let g = 3. * K2 * s.b[q].m * s.b[q].m / (8. * PI * p[q].r.powi(4) * eta(q));
            let lim = if g < kp.n { 0.9 * kp.n } else { kp.n * (1. + 7. * kp.e * kp.e) };
            if (w[q].2 - lim).abs() < 1e-6 * lim || (g - kp.n).abs() < 1e-6 * kp.n {
                return true;
            }
        }
    }
    false
}

fn poly(c: &[f64; 8], e: f64) -> f64 {
    let mut s = 0.;
    for q in (0..8).rev() {
        s = s * e + c[q];
    }
    s
}

/// Equatorial prolateness (real, imaginary) and polar oblateness of a creeping body.
#[allow(clippy::too_many_arguments)]
pub fn creep_shape(kp: &Kep, m: f64, comp: f64, r: f64, eta: f64, om: f64, tid: bool, rot: bool) -> V3 {
    if eta == 0. {
        return Z3;
    }
    let g = 3. * K2 * m * m / (8. * PI * r.powi(4) * eta);
    let er = if tid { 15. * comp * r.powi(3) / (4. * m * kp.a.powi(3)) } else { 0. };
    let ez = if rot { 5. * om * om * r.powi(3) / (4. * K2 * m) } else { 0. };
    let (n, e) = (kp.n, kp.e);
    let lim = if g < n { 0.9 * n } else { n * (1. + 7. * e * e) };
    if om < lim {
        let x = n / g;
        let mu = comp / (m + comp);
        let al = 1. - 3. * mu * er;
        let d1 = 1. + x * x;
        let da = 1. + al * al * x * x;
        let (cm, sm) = (kp.m.cos(), kp.m.sin());
        let ep = er * (1. + 1.5 * e * e - 4. * x * x * e * e / da) + 3. * er * e / d1 * (cm + x * sm);
        let z = er * (0.5 + 0.75 * e * e)
            + ez * (1. + 12. * e * e * (1. + al * x * x) / (d1 * da) + 2. * (1. - al) * (1. - al) * x * x * e * e / da)
            + 1.5 * er * e / d1 * ((1. - 16. * mu * x * x * ez / da) * cm + (x + 8. * mu * x * (1. - al * x * x) * ez / da) * sm);
        let de = 3. * x * e * e / d1 * (2. + (1. + al) * x * x) / da - 2. * x * e / da * (cm + al * x * sm);
        V3(ep * (2. * de).cos(), ep * (2. * de).sin(), z)
    } else {
        let h = hansen();
        let (mut a, mut b, mut z) = (0., 0., 0.);
        for q in -7i32..=7 {
            // Prolateness: harmonic j = 2 - q of the tide-raising potential.
            let j = 2 - q;
            let c = poly(&h.two[(j + 5) as usize], e);
            let nu = 2. * om - j as f64 * n;
            let th = j as f64 * kp.m - 2. * kp.f;
            let den = g * g + nu * nu;
            a += g * c * (g * th.cos() - nu * th.sin()) / den;
            b += g * c * (g * th.sin() + nu * th.cos()) / den;
            let c0 = poly(&h.zero[(q + 7) as usize], e);
            let (jm, jn) = (q as f64 * kp.m, q as f64 * n);
            z += c0 * (g * g * jm.cos() + g * jn * jm.sin()) / (g * g + jn * jn);
        }
        V3(er * a, er * b, 0.5 * er * z + ez)
    }
}

/// Taylor coefficients (e^0..e^7) of the Hansen coefficients X^{-3,2}_j (j = -5..9) and X^{-3,0}_j
/// (j = -7..7), obtained by contour integration.
pub struct Hansen {
    pub two: Vec<[f64; 8]>,
    pub zero: Vec<[f64; 8]>,
}

#[derive(Clone, Copy)]
pub struct Cx(pub f64, pub f64);
impl Cx {
    pub fn mul(self, o: Cx) -> Cx {
        Cx(self.0 * o.0 - self.1 * o.1, self.0 * o.1 + self.1 * o.0)
    }
    fn add(self, o: Cx) -> Cx {
        Cx(self.0 + o.0, self.1 + o.1)
    }
    fn scale(self, k: f64) -> Cx {
        Cx(self.0 * k, self.1 * k)
    }
    fn inv(self) -> Cx {
        let d = self.0 * self.0 + self.1 * self.1;
        Cx(self.0 / d, -self.1 / d)
    }
    fn exp(self) -> Cx {
        let r = self.0.exp();
        Cx(r * self.1.cos(), r * self.1.sin())
    }
    fn sqrt(self) -> Cx {
        let r = (self.0 * self.0 + self.1 * self.1).sqrt();
        let a = self.1.atan2(self.0) / 2.;
        Cx(r.sqrt() * a.cos(), r.sqrt() * a.sin())
    }
}

pub fn hansen() -> &'static Hansen {
    static H: std::sync::OnceLock<Hansen> = std::sync::OnceLock::new();
    H.get_or_init(|| {
        let ne = 64;
        let ni = 256;
        let rho = 0.3;
        let taylor = |m: i32, j: i32| -> [f64; 8] {
            let mut out = [0.; 8];
            for q in 0..ne {
                let ph = 2. * PI * q as f64 / ne as f64;
                let e = Cx(rho * ph.cos(), rho * ph.sin());
                let one_e2 = Cx(1., 0.).add(e.mul(e).scale(-1.));
                let root = one_e2.sqrt();
                let mut sum = Cx(0., 0.);
                for t in 0..ni {
                    let ea = 2. * PI * t as f64 / ni as f64;
                    let den = Cx(1., 0.).add(e.scale(-ea.cos()));
                    // exp(if)
                    let xf = Cx(ea.cos(), 0.).add(e.scale(-1.)).add(Cx(0., 1.).mul(root).scale(ea.sin())).mul(den.inv());
                    let mut term = den.inv().mul(den.inv());
                    for _ in 0..m {
                        term = term.mul(xf);
                    }
                    // exp(-ij(E - e sin E))
                    let arg = Cx(0., -(j as f64)).mul(Cx(ea, 0.).add(e.scale(-ea.sin())));
                    sum = sum.add(term.mul(arg.exp()));
                }
                let x = sum.scale(1. / ni as f64);
                for (d, o) in out.iter_mut().enumerate() {
                    let w = Cx((d as f64 * ph).cos(), -(d as f64 * ph).sin());
                    *o += x.mul(w).0 / ne as f64 / rho.powi(d as i32);
                }
            }
            out
        };
        Hansen { two: (-5..=9).map(|j| taylor(2, j)).collect(), zero: (-7..=7).map(|j| taylor(0, j)).collect() }
    })
}

fn table(x: f64, w: &[f64], y: &[f64]) -> f64 {
    let n = w.len();
    if x <= w[0] {
        return y[0];
    }
    if x >= w[n - 1] {
        return y[n - 1];
    }
    let mut i = 0;
    while w[i + 1] < x {
        i += 1;
    }
    let f = (x - w[i]) / (w[i + 1] - w[i]);
    y[i] + f * (y[i + 1] - y[i])
}

pub fn kaula_order(e: f64) -> i32 {
    if e > 0.3 {
        7
    } else if e > 0.25 {
        6
    } else if e > 0.2 {
        5
    } else if e > 0.15 {
        4
    } else if e > 0.1 {
        3
    } else {
        2
    }
}

/// Force on the orbiting body and its spin torque, for spin along the orbit normal (+z).
#[allow(clippy::too_many_arguments)]
pub fn kaula_planar(m: f64, mh: f64, rp: f64, om: f64, x: V3, v: V3, tw: &[f64], re: &[f64], im: &[f64]) -> (V3, V3) {
    let kp = kepler(K2 * (m + mh), x, v);
    let d = x.norm();
    let n_s = kp.n / k::DAY;
    let om_s = om / k::DAY;
    let h = hansen();
    let love = |freq: f64| -> Cx {
        let w = freq.abs();
        Cx(-table(w, tw, re), freq.signum() * if freq == 0. { 0. } else { table(w, tw, im) })
    };
    let ord = kaula_order(kp.e);
    let c = -K2 * mh * mh * rp.powi(5) / (kp.a.powi(6) * d);
    let (mut fr, mut ft, mut sec) = (0., 0., 0.);
    for q in -ord..=ord {
        let g20q = poly(&h.two[(2 + q + 5) as usize], kp.e);
        let g21q = poly(&h.zero[(q + 7) as usize], kp.e);
        let k20 = love(q as f64 * n_s);
        let k22 = love((2 + q) as f64 * n_s - 2. * om_s);
        for j in -ord..=ord {
            let g20j = poly(&h.two[(2 + j + 5) as usize], kp.e);
            let g21j = poly(&h.zero[(j + 7) as usize], kp.e);
            let al = (j - q) as f64 * kp.m;
            let ex = Cx(al.cos(), al.sin());
            let z0 = k20.mul(ex);
            let z2 = k22.mul(ex);
            fr += 0.75 * g21q * g21j * z0.0 + 2.25 * g20q * g20j * z2.0;
            let t = 1.5 * g20q * g20j * z2.1;
            ft += t;
            if q == j {
                sec += t;
            }
        }
    }
    let ur = x / d;
    let hz = x.cross(v).unit();
    let ut = hz.cross(ur);
    let f = c * fr * ur + c * ft * ut;
    let dl = -(x.cross(c * sec * ut));
    (f, dl)
}

/// Kidder (1995): the first-order term, and the second-order plus spin-orbit terms both as printed in
/// the paper ("right") and as the code has always had them ("asis", see known findings).
pub struct Kidder {
    pub first: Eff,
    pub right: Eff,
    pub asis: Eff,
}

pub fn gr_kidder(s: &Sys, p: &[Par], st: &State) -> Kidder {
    let n = s.n();
    let mut o = Kidder { first: Eff::zero(n), right: Eff::zero(n), asis: Eff::zero(n) };
    let h = match s.gh {
        Some((h, Gr::Kidder)) if s.on.gr => h,
        _ => return o,
    };
    let _ = p;
    let mh = s.b[h].m;
    for i in 0..n {
        if i == h || !s.b[i].gr {
            continue;
        }
        let m = s.b[i].m;
        let x = st.x[i] - st.x[h];
        let v = st.v[i] - st.v[h];
        let d = x.norm();
        let u = x / d;
        let vr = u.dot(v);
        let v2 = v.norm2();
        let gm = K2 * (mh + m);
        let et = mh * m / ((mh + m) * (mh + m));
        let g = gm / (d * d * C2);
        let a1 = -g * ((1. + 3. * et) * v2 - 2. * (2. + et) * gm / d - 1.5 * et * vr * vr) * u + g * 2. * (2. - et) * vr * v;
        let br = 0.75 * (12. + 29. * et) * (gm / d) * (gm / d) + et * (3. - 4. * et) * v2 * v2 + 15. / 8. * et * (1. - 3. * et) * vr.powi(4)
            - 1.5 * et * (3. - 4. * et) * vr * vr * v2
            - 0.5 * et * (13. - 4. * et) * gm / d * v2
            - (2. + 25. * et + 2. * et * et) * gm / d * vr * vr;
        let bv = -0.5 * vr * (et * (15. + 4. * et) * v2 - (4. + 41. * et + 8. * et * et) * gm / d - 3. * et * (3. + 2. * et) * vr * vr);
        let a2 = -g * (br * u + bv * v);
        let (sp, sh) = (st.l[i], st.l[h]);
        let tot = sp + sh;
        let dl = (mh - m) / (mh + m) * (mh + m) * (sp / m - sh / mh);
        let e2 = v.cross(7. * tot + 3. * dl);
        let e3 = 3. * vr * u.cross(3. * tot + dl);
        let uv = u.cross(v);
        let q = 2. * tot + dl;
        let e1_asis = V3(6. * u.0 * uv.0 * q.0, 6. * u.1 * uv.1 * q.1, 6. * u.2 * uv.2 * q.2);
        let e1 = 6. * uv.dot(q) * u;
        let gc = K2 / C2;
        let so_asis = gc * (e1_asis - e2 + e3);
        let so = gc / d.powi(3) * (e1 - e2 + e3);
        let ln = mh * m / (mh + m) * x.cross(v);
        let tor = |own: V3, other: V3, mo: f64, ms: f64| (2. + 1.5 * mo / ms) * ln.cross(own) - other.cross(own) + 3. * u.dot(other) * u.cross(own);
        let th = gc * tor(sh, sp, m, mh);
        let tp = gc * tor(sp, sh, mh, m);
        let put = |e: &mut Eff, a: V3, lp: V3, lh: V3| {
            e.a[i] += a;
            e.a[h] -= m / mh * a;
            e.dl[i] += lp;
            e.dl[h] += lh;
        };
        put(&mut o.first, a1, Z3, Z3);
        put(&mut o.right, a1 + a2 / C2 + so, tp / d.powi(3), th / d.powi(3));
        put(&mut o.asis, a1 + a2 + so_asis, tp, th);
    }
    o
}

pub fn gr_anderson(s: &Sys, st: &State) -> Eff {
    let n = s.n();
    let mut o = Eff::zero(n);
    let h = match s.gh {
        Some((h, Gr::Anderson)) if s.on.gr => h,
        _ => return o,
    };
    let m: Vec<f64> = s.b.iter().map(|b| b.m).collect();
    let nw = newton(&m, &st.x);
    let list: Vec<usize> = (0..n).filter(|&i| i != h && s.b[i].gr).collect();
    let mu = K2 * m[h];
    // Jacobi coordinates: each body relative to the barycentre of the host and the previous ones.
    let (mut mt, mut cx, mut cv, mut ca) = (m[h], m[h] * st.x[h], m[h] * st.v[h], m[h] * nw[h]);
    let mut corr = vec![];
    let mut mass_in = vec![];
    for &i in &list {
        let x = st.x[i] - cx / mt;
        let v = st.v[i] - cv / mt;
        let a = nw[i] - ca / mt;
        mass_in.push(mt);
        cx += m[i] * st.x[i];
        cv += m[i] * st.v[i];
        ca += m[i] * nw[i];
        mt += m[i];
        let r = x.norm();
        // canonical velocity: v = vi (1 - A(vi))
        let mut vi = v;
        for _ in 0..60 {
            let aa = (0.5 * vi.norm2() + 3. * mu / r) / C2;
            vi = v / (1. - aa);
        }
        let aa = (0.5 * vi.norm2() + 3. * mu / r) / C2;
        let b = (mu / r - 1.5 * vi.norm2()) * mu / r.powi(3) / C2;
        let vd = a + b * x;
        let dd = (vi.dot(vd) - 3. * mu / r.powi(3) * x.dot(v)) / C2;
        corr.push(b * (1. - aa) * x - aa * a - dd * vi);
    }
    // Back to the inertial frame with the common barycentre unaccelerated: body k moves relative to
    // the inner barycentre by corr_k.
    let mut com = Z3; // acceleration of the barycentre of host and bodies up to k
    for q in (0..list.len()).rev() {
        let i = list[q];
        let inner = mass_in[q];
        let tot = inner + m[i];
        let c_in = com - m[i] / tot * corr[q];
        o.a[i] = c_in + corr[q];
        com = c_in;
    }
    o.a[h] = com;
    o
}

pub fn gr_newhall(s: &Sys, st: &State) -> Eff {
    let n = s.n();
    let mut o = Eff::zero(n);
    let h = match s.gh {
        Some((h, Gr::Newhall)) if s.on.gr => h,
        _ => return o,
    };
    let m: Vec<f64> = s.b.iter().map(|b| b.m).collect();
    let nw = newton(&m, &st.x);
    let part = |i: usize| i == h || s.b[i].gr;
    let pot: Vec<f64> = (0..n)
        .map(|i| (0..n).filter(|&j| j != i).map(|j| K2 * m[j] / (st.x[i] - st.x[j]).norm()).sum::<f64>())
        .collect();
    for i in 0..n {
        if !part(i) {
            continue;
        }
        let mut a = Z3;
        for j in 0..n {
            if j == i || !(part(i) || part(j)) {
                continue;
            }
            let d = st.x[j] - st.x[i];
            let r = d.norm();
            let g = K2 * m[j];
            let (vi, vj) = (st.v[i], st.v[j]);
            let f = -4. * pot[i] - pot[j] + vi.norm2() + 2. * vj.norm2() - 4. * vi.dot(vj) - 1.5 * (d.dot(vj) / r).powi(2) + 0.5 * d.dot(nw[j]);
            a += g / r.powi(3) * f / C2 * d;
            a += g / r.powi(3) * (-d).dot(4. * vi - 3. * vj) / C2 * (vi - vj);
            a += 3.5 * g / r / C2 * nw[j];
        }
        o.a[i] = a;
    }
    o
}

pub fn wind(s: &Sys, p: &[Par], st: &State) -> Eff {
    let n = s.n();
    let mut o = Eff::zero(n);
    if !s.on.wind {
        return o;
    }
    for i in 0..n {
        if let Some((kf, sat)) = s.b[i].wind {
            let w = st.l[i] / p[i].inertia;
            let u = w.norm().min(sat);
            o.dl[i] = -kf * u * u * ((p[i].r / k::R_SUN) / s.b[i].m).sqrt() * w;
        }
    }
    o
}

/// Disk: effect and migration timescale of each body.
pub fn disk(s: &Sys, st: &State, t: f64) -> (Eff, Vec<f64>) {
    let n = s.n();
    let mut o = Eff::zero(n);
    let mut tm = vec![0.; n];
    let (h, dp) = match s.dh {
        Some(x) if s.on.disk && (x.1.rin != 0. || x.1.rout != 0.) => x,
        _ => return (o, tm),
    };
    let mh = s.b[h].m;
    for i in 0..n {
        if i == h || !s.b[i].disk {
            continue;
        }
        let m = s.b[i].m;
        let x = st.x[i] - st.x[h];
        let v = st.v[i] - st.v[h];
        let d = x.norm();
        let gm = K2 * (mh + m);
        let a = 1. / (2. / d - v.norm2() / gm);
        let sig = if d > dp.rin { dp.sigma0 / d * (-d / dp.rout).exp() * (1. - (dp.rin / d).sqrt()) * (-t / dp.life).exp() } else { 0. };
        if sig <= 0. {
            tm[i] = f64::INFINITY;
            continue;
        }
        let temp = 280. / d.sqrt() * mh;
        let cs2 = k::BOLTZMANN_CONSTANT * temp / (dp.mu * k::MASS_HYDROGEN_ATOM);
        let om = (K2 * mh / d.powi(3)).sqrt();
        let nu = dp.alpha * cs2 / om;
        let t_mig = a / (1.5 * nu / a) / (2. * sig * a * a / m).min(1.);
        tm[i] = t_mig;
        let te = 0.1 * t_mig;
        let acc = -(v / t_mig) - 2. * x.dot(v) / (d * d * te) * x - V3(0., 0., 2. * v.2 / te);
        o.a[i] += acc;
        o.a[h] -= m / mh * acc;
    }
    (o, tm)
}

/// Everything together. `kidder_asis`: use the code's historical second-order/spin terms.
pub fn total(s: &Sys, t: f64, st: &State) -> Eff {
    let p = pars(s, t);
    let n = s.n();
    let m: Vec<f64> = s.b.iter().map(|b| b.m).collect();
    let mut o = Eff { a: newton(&m, &st.x), dl: vec![Z3; n] };
    if s.on.tides {
        o.add(&tides(s, &p, st).eff);
    }
    if s.on.flat {
        o.add(&flat(s, &p, st));
    }
    if s.on.gr {
        if let Some((_, g)) = s.gh {
            match g {
                Gr::Kidder => o.add(&gr_kidder(s, &p, st).asis),
                Gr::Anderson => o.add(&gr_anderson(s, st)),
                Gr::Newhall => o.add(&gr_newhall(s, st)),
            }
        }
    }
    if s.on.disk {
        o.add(&disk(s, st, t).0);
    }
    if s.on.wind {
        o.add(&wind(s, &p, st));
    }
    o
}

// ------------------------------------------------------------------------------------------------
// Reference integration: Gragg-Bulirsch-Stoer extrapolation.

fn pack(st: &State) -> Vec<f64> {
    let mut y = vec![];
    for q in [&st.x, &st.v, &st.l] {
        for v in q.iter() {
            y.extend([v.0, v.1, v.2]);
        }
    }
    y
}
fn unpack(y: &[f64]) -> State {
    let n = y.len() / 9;
    let g = |o: usize| (0..n).map(|i| V3(y[o + 3 * i], y[o + 3 * i + 1], y[o + 3 * i + 2])).collect::<Vec<_>>();
    State { x: g(0), v: g(3 * n), l: g(6 * n) }
}

pub fn deriv(s: &Sys, t: f64, y: &[f64]) -> Vec<f64> {
    let st = unpack(y);
    let e = total(s, t, &st);
    let mut d = Vec::with_capacity(y.len());
    for v in st.v.iter().chain(e.a.iter()).chain(e.dl.iter()) {
        d.extend([v.0, v.1, v.2]);
    }
    d
}

/// Integrate from t0 to t1 to relative accuracy `tol` with at most `hmax` long steps.
pub fn integrate(s: &Sys, st: &State, t0: f64, t1: f64, hmax: f64, tol: f64) -> State {
    let mut y = pack(st);
    let n = s.n();
    let mut t = t0;
    let dir = (t1 - t0).signum();
    let mut h = hmax.min((t1 - t0).abs()) * dir;
    const SEQ: [usize; 10] = [2, 4, 6, 8, 10, 12, 14, 16, 18, 20];
    let block = |y: &[f64], o: usize| (0..3 * n).map(|i| y[o + i] * y[o + i]).sum::<f64>().sqrt();
    let mut guard = 0;
    while (t1 - t) * dir > 1e-14 * t1.abs().max(1.) {
        guard += 1;
        if guard > 40_000 {
            panic!("reference integrator: too many steps");
        }
        if (t + h - t1) * dir > 0. {
            h = t1 - t;
        }
        let d0 = deriv(s, t, &y);
        let mut tab: Vec<Vec<f64>> = vec![];
        let mut done = None;
        for (row, &ns) in SEQ.iter().enumerate() {
            let hs = h / ns as f64;
            let mut a = y.clone();
            let mut b: Vec<f64> = y.iter().zip(&d0).map(|(q, d)| q + hs * d).collect();
            for q in 1..ns {
                let d = deriv(s, t + q as f64 * hs, &b);
                let c: Vec<f64> = a.iter().zip(&d).map(|(z, d)| z + 2. * hs * d).collect();
                a = b;
                b = c;
            }
            let d = deriv(s, t + h, &b);
            let mut cur: Vec<f64> = (0..y.len()).map(|i| 0.5 * (a[i] + b[i] + hs * d[i])).collect();
            let mut newrow = vec![cur.clone()];
            for q in 0..row {
                let ratio = (SEQ[row] as f64 / SEQ[row - q - 1] as f64).powi(2);
                let prev = &tab[q];
                let ext: Vec<f64> = (0..y.len()).map(|i| cur[i] + (cur[i] - prev[i]) / (ratio - 1.)).collect();
                cur = ext;
                newrow.push(cur.clone());
            }
            if row > 0 {
                let prev = &newrow[row - 1];
                let diff: Vec<f64> = cur.iter().zip(prev).map(|(a, b)| a - b).collect();
                let mut err: f64 = 0.;
                for o in [0, 3 * n, 6 * n] {
                    let sc = block(&y, o);
                    if sc > 0. {
                        err = err.max(block(&diff, o) / sc);
                    }
                }
                // spins: each body on its own scale
                for i in 0..n {
                    let o = 6 * n + 3 * i;
                    let sc = (y[o].powi(2) + y[o + 1].powi(2) + y[o + 2].powi(2)).sqrt();
                    let e = (diff[o].powi(2) + diff[o + 1].powi(2) + diff[o + 2].powi(2)).sqrt();
                    if sc > 0. {
                        err = err.max(e / sc);
                    }
                }
                if err < tol {
                    done = Some((cur, row));
                    break;
                }
            }
            tab = newrow;
        }
        match done {
            Some((yn, row)) => {
                y = yn;
                t += h;
                if row <= 6 {
                    h *= 1.4;
                }
                if h.abs() > hmax {
                    h = hmax * dir;
                }
            }
            None => {
                h *= 0.5;
                if h.abs() < 1e-9 * hmax {
                    panic!("reference integrator: step underflow");
                }
            }
        }
    }
    unpack(&y)
}

pub fn initial(s: &Sys) -> State {
    let b = s.barycentric();
    let p = pars(s, 0.);
    State { x: b.b.iter().map(|b| b.x).collect(), v: b.b.iter().map(|b| b.v).collect(), l: (0..s.n()).map(|i| p[i].inertia * s.b[i].w).collect() }
}

pub fn energy(m: &[f64], st: &State) -> f64 {
    let n = m.len();
    let mut e = 0.;
    for i in 0..n {
        e += 0.5 * m[i] * st.v[i].norm2();
        for j in 0..i {
            e -= K2 * m[i] * m[j] / (st.x[i] - st.x[j]).norm();
        }
    }
    e
}

pub fn orbital_l(m: &[f64], st: &State) -> V3 {
    let mut l = Z3;
    for i in 0..m.len() {
        l += m[i] * st.x[i].cross(st.v[i]);
    }
    l
}
