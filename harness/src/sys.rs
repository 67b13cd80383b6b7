//! Descriptions of simulations (independent of the code under test), a generator of them, and the
//! translation into the library's own types.
use crate::tables;
use crate::util::*;
use posidonius as p;
use serde::{Deserialize, Serialize};

pub use crate::consts::K2;

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub enum TideM {
    Ctl { scale: f64, sigma: f64, k2: f64 },
    Creep { eta: f64 },
    /// Frequencies (rad/s), real and imaginary parts of the Love number.
    Kaula { w: Vec<f64>, re: Vec<f64>, im: Vec<f64> },
}

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub enum FlatM {
    Oblate { k: f64 },
    Creep { eta: f64 },
}

#[derive(Clone, Copy, Debug, Serialize, Deserialize, PartialEq)]
pub enum Gr {
    Kidder,
    Anderson,
    Newhall,
}

#[derive(Clone, Copy, Debug, Serialize, Deserialize, PartialEq)]
pub enum Evo {
    None,
    GalletBolmont2017(f64),
    BolmontMathis2016(f64),
    Baraffe2015(f64),
    Leconte2011(f64),
    Baraffe1998(f64),
    LeconteChabrier2013(bool),
}

#[derive(Clone, Copy, Debug, Serialize, Deserialize, PartialEq)]
pub struct DiskP {
    pub rin: f64,
    pub rout: f64,
    pub life: f64,
    pub alpha: f64,
    pub sigma0: f64,
    pub mu: f64,
}

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub struct Body {
    pub m: f64,
    pub r: f64,
    /// Radius of gyration (not squared).
    pub rg: f64,
    pub x: V3,
    pub v: V3,
    pub w: V3,
    pub tide: Option<TideM>,
    pub flat: Option<FlatM>,
    pub gr: bool,
    pub wind: Option<(f64, f64)>,
    pub disk: bool,
    pub evo: Evo,
}

#[derive(Clone, Copy, Debug, Serialize, Deserialize, PartialEq)]
pub struct On {
    pub tides: bool,
    pub flat: bool,
    pub gr: bool,
    pub disk: bool,
    pub wind: bool,
    pub evo: bool,
}

impl On {
    pub fn none() -> On {
        On { tides: false, flat: false, gr: false, disk: false, wind: false, evo: false }
    }
    pub fn all() -> On {
        On { tides: true, flat: true, gr: true, disk: true, wind: true, evo: true }
    }
}

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub struct Sys {
    pub b: Vec<Body>,
    /// Central body of tides and flattening.
    pub th: Option<usize>,
    pub gh: Option<(usize, Gr)>,
    pub dh: Option<(usize, DiskP)>,
    pub on: On,
    /// Age at the start and duration, days.
    pub t0: f64,
    pub tl: f64,
}

pub fn ax(v: V3) -> p::Axes {
    p::Axes { x: v.0, y: v.1, z: v.2 }
}
pub fn va(a: p::Axes) -> V3 {
    V3(a.x, a.y, a.z)
}

pub fn kaula_params(w: &[f64], re: &[f64], im: &[f64]) -> p::KaulaParameters {
    let mut a = [0.; 1024];
    let mut b = [0.; 1024];
    let mut c = [0.; 1024];
    a[..w.len()].copy_from_slice(w);
    b[..w.len()].copy_from_slice(re);
    c[..w.len()].copy_from_slice(im);
    p::KaulaParameters {
        love_number_excitation_frequency: a,
        real_part_love_number: b,
        imaginary_part_love_number: c,
        num_datapoints: w.len() as f64,
        polynomials: p::Polynomials::new(),
        kaula_tidal_force: p::Axes { x: 0., y: 0., z: 0. },
    }
}

pub fn evo_type(e: Evo) -> p::EvolutionType {
    match e {
        Evo::None => p::EvolutionType::NonEvolving,
        Evo::GalletBolmont2017(m) => p::EvolutionType::GalletBolmont2017(m),
        Evo::BolmontMathis2016(m) => p::EvolutionType::BolmontMathis2016(m),
        Evo::Baraffe2015(m) => p::EvolutionType::Baraffe2015(m),
        Evo::Leconte2011(m) => p::EvolutionType::Leconte2011(m),
        Evo::Baraffe1998(m) => p::EvolutionType::Baraffe1998(m),
        Evo::LeconteChabrier2013(d) => p::EvolutionType::LeconteChabrier2013(d),
    }
}

impl Body {
    pub fn point(m: f64, r: f64, x: V3, v: V3) -> Body {
        Body { m, r, rg: 0.5, x, v, w: V3(0., 0., 0.1), tide: None, flat: None, gr: false, wind: None, disk: false, evo: Evo::None }
    }

    pub fn particle(&self, central: bool, gr_central: Option<Gr>, disk_central: Option<DiskP>) -> p::Particle {
        let mut q = p::Particle::new(self.m, self.r, self.rg, ax(self.x), ax(self.v), ax(self.w));
        if let Some(t) = &self.tide {
            let model = match t {
                TideM::Ctl { scale, sigma, k2 } => p::TidalModel::ConstantTimeLag(p::ConstantTimeLagParameters {
                    dissipation_factor_scale: *scale,
                    dissipation_factor: *sigma,
                    love_number: *k2,
                }),
                TideM::Creep { eta } => p::TidalModel::CreepCoplanar(p::CreepCoplanarParameters { uniform_viscosity_coefficient: *eta }),
                TideM::Kaula { w, re, im } => p::TidalModel::Kaula(kaula_params(w, re, im)),
            };
            q.set_tides(p::Tides::new(if central { p::TidesEffect::CentralBody(model) } else { p::TidesEffect::OrbitingBody(model) }));
        }
        if let Some(f) = &self.flat {
            let model = match f {
                FlatM::Oblate { k } => p::RotationalFlatteningModel::OblateSpheroid(p::OblateSpheroidParameters { love_number: *k }),
                FlatM::Creep { eta } => p::RotationalFlatteningModel::CreepCoplanar(p::CreepCoplanarParameters { uniform_viscosity_coefficient: *eta }),
            };
            q.set_rotational_flattening(p::RotationalFlattening::new(if central {
                p::RotationalFlatteningEffect::CentralBody(model)
            } else {
                p::RotationalFlatteningEffect::OrbitingBody(model)
            }));
        }
        if let Some(g) = gr_central {
            let i = match g {
                Gr::Kidder => p::GeneralRelativityImplementation::Kidder1995,
                Gr::Anderson => p::GeneralRelativityImplementation::Anderson1975,
                Gr::Newhall => p::GeneralRelativityImplementation::Newhall1983,
            };
            q.set_general_relativity(p::GeneralRelativity::new(p::GeneralRelativityEffect::CentralBody(i)));
        } else if self.gr {
            q.set_general_relativity(p::GeneralRelativity::new(p::GeneralRelativityEffect::OrbitingBody));
        }
        if let Some((k, sat)) = self.wind {
            q.set_wind(p::Wind::new(p::WindEffect::Interaction, k, sat));
        }
        if let Some(d) = disk_central {
            q.set_disk(p::Disk::new(p::DiskEffect::CentralBody(p::DiskProperties {
                inner_edge_distance: d.rin,
                outer_edge_distance: d.rout,
                lifetime: d.life,
                alpha: d.alpha,
                surface_density_normalization: d.sigma0,
                mean_molecular_weight: d.mu,
            })));
        } else if self.disk {
            q.set_disk(p::Disk::new(p::DiskEffect::OrbitingBody));
        }
        q.set_evolution(evo_type(self.evo));
        q
    }
}

impl Sys {
    pub fn n(&self) -> usize {
        self.b.len()
    }
    pub fn most_massive(&self) -> usize {
        let mut k = 0;
        for i in 0..self.n() {
            if self.b[i].m > self.b[k].m {
                k = i;
            }
        }
        k
    }

    pub fn particles(&self) -> Vec<p::Particle> {
        (0..self.n())
            .map(|i| {
                let gc = self.gh.and_then(|(k, g)| if k == i { Some(g) } else { None });
                let dc = self.dh.and_then(|(k, d)| if k == i { Some(d) } else { None });
                self.b[i].particle(self.th == Some(i), gc, dc)
            })
            .collect()
    }

    pub fn universe(&self) -> p::Universe {
        p::Universe::new(
            self.t0,
            self.tl,
            self.particles(),
            p::ConsiderEffects {
                tides: self.on.tides,
                rotational_flattening: self.on.flat,
                general_relativity: self.on.gr,
                disk: self.on.disk,
                wind: self.on.wind,
                evolution: self.on.evo,
            },
        )
    }

    /// The same system with the bodies in the order `perm` (perm[k] = old index of new body k).
    pub fn permuted(&self, perm: &[usize]) -> Sys {
        let inv = |i: usize| perm.iter().position(|&q| q == i).unwrap();
        let mut s = self.clone();
        s.b = perm.iter().map(|&i| self.b[i].clone()).collect();
        s.th = self.th.map(inv);
        s.gh = self.gh.map(|(i, g)| (inv(i), g));
        s.dh = self.dh.map(|(i, d)| (inv(i), d));
        s
    }
    pub fn rotated(&self, r: &Rot) -> Sys {
        let mut s = self.clone();
        for b in s.b.iter_mut() {
            b.x = r.mul(b.x);
            b.v = r.mul(b.v);
            b.w = r.mul(b.w);
        }
        s
    }
    pub fn shifted(&self, dx: V3, dv: V3) -> Sys {
        let mut s = self.clone();
        for b in s.b.iter_mut() {
            b.x += dx;
            b.v += dv;
        }
        s
    }

    /// Barycentric copy (what Universe::new does).
    pub fn barycentric(&self) -> Sys {
        let mt: f64 = self.b.iter().map(|b| b.m).sum();
        let mut x = Z3;
        let mut v = Z3;
        for b in &self.b {
            x += b.m * b.x;
            v += b.m * b.v;
        }
        self.shifted(-(x / mt), -(v / mt))
    }

    pub fn shortest_period(&self) -> f64 {
        let mut best = f64::INFINITY;
        for i in 0..self.n() {
            for j in 0..i {
                let mu = K2 * (self.b[i].m + self.b[j].m);
                let r = self.b[i].x - self.b[j].x;
                let v = self.b[i].v - self.b[j].v;
                let e = 0.5 * v.norm2() - mu / r.norm();
                if e < 0. {
                    let a = -mu / (2. * e);
                    // Only pairs that are really bound to each other matter, but a bound is fine.
                    let p = 2. * std::f64::consts::PI * (a * a * a / mu).sqrt();
                    if p < best {
                        best = p;
                    }
                }
            }
        }
        best
    }
}

/// Relative state of an orbit (elements to Cartesian, own implementation).
pub fn orbit(mu: f64, a: f64, e: f64, inc: f64, node: f64, peri: f64, mean: f64) -> (V3, V3) {
    // a > 0, e < 1
    let mut ea = mean + e * mean.sin();
    for _ in 0..200 {
        let f = ea - e * ea.sin() - mean;
        let d = f / (1. - e * ea.cos());
        ea -= d.max(-1.).min(1.);
        if d.abs() < 1e-15 {
            break;
        }
    }
    let (s, c) = (ea.sin(), ea.cos());
    let b = (1. - e * e).sqrt();
    let x = a * (c - e);
    let y = a * b * s;
    let rate = (mu / (a * a * a)).sqrt() / (1. - e * c);
    let vx = -a * s * rate;
    let vy = a * b * c * rate;
    place(x, y, vx, vy, inc, node, peri)
}

pub fn place(x: f64, y: f64, vx: f64, vy: f64, inc: f64, node: f64, peri: f64) -> (V3, V3) {
    let rz = |v: V3, t: f64| V3(v.0 * t.cos() - v.1 * t.sin(), v.0 * t.sin() + v.1 * t.cos(), v.2);
    let rx = |v: V3, t: f64| V3(v.0, v.1 * t.cos() - v.2 * t.sin(), v.1 * t.sin() + v.2 * t.cos());
    let go = |v: V3| rz(rx(rz(v, peri), inc), node);
    (go(V3(x, y, 0.)), go(V3(vx, vy, 0.)))
}

/// Conic with given eccentricity (any) and pericentre distance, at true anomaly f.
pub fn conic(mu: f64, q: f64, e: f64, inc: f64, node: f64, peri: f64, f: f64) -> (V3, V3) {
    let pp = q * (1. + e);
    let r = pp / (1. + e * f.cos());
    let k = (mu / pp).sqrt();
    place(r * f.cos(), r * f.sin(), -k * f.sin(), k * (e + f.cos()), inc, node, peri)
}

#[derive(Clone, Debug)]
pub struct GenOpt {
    pub n: (usize, usize),
    pub emax: f64,
    pub imax: f64,
    /// Range of the mass ratio planet/star.
    pub mr: (f64, f64),
    /// Innermost semi-major axis range.
    pub a0: (f64, f64),
    pub coplanar_spin: bool,
    pub shift: bool,
    /// Probability of putting the star first.
    pub first: f64,
}

impl Default for GenOpt {
    fn default() -> Self {
        GenOpt { n: (2, 10), emax: 0.3, imax: 0.6, mr: (1e-8, 1e-3), a0: (0.01, 0.1), coplanar_spin: false, shift: true, first: 0.4 }
    }
}

/// A star with well separated planets, in random list order. Returns the index of the star.
pub fn gen(r: &mut Rng, o: &GenOpt) -> (Sys, usize) {
    let n = r.int(o.n.0, o.n.1);
    let ms = r.log(0.08, 1.5);
    let rs = crate::consts::R_SUN * ms.powf(0.8) * r.uni(0.7, 1.3);
    let mut bodies = vec![Body::point(ms, rs, Z3, Z3)];
    let w = r_period(r, 0.5, 20.);
    bodies[0].w = spin_vec(r, w, o.coplanar_spin);
    bodies[0].rg = r.uni(0.2, 0.6);
    let emax = if n > 6 { o.emax.min(0.08) } else if n > 4 { o.emax.min(0.25) } else { o.emax };
    let mut a = r.log(o.a0.0, o.a0.1);
    bodies[0].r = bodies[0].r.min(0.3 * a * (1. - emax));
    for _ in 1..n {
        let m = ms * r.log(o.mr.0, o.mr.1);
        // Earth-like to Jupiter-like density.
        let rho = r.log(0.4, 1.6);
        let rp = (crate::consts::R_EARTH * (m / crate::consts::M_EARTH).powf(1. / 3.) * rho).max(crate::consts::R_EARTH * 0.02);
        let e = emax * r.f();
        // Never inside the Roche limit.
        let rp = rp.min(0.5 * a * (1. - e) * 0.462 * (m / ms).powf(1. / 3.));
        let inc = o.imax * r.f();
        let (x, v) = orbit(K2 * (ms + m), a, e, inc, r.uni(0., 6.28), r.uni(0., 6.28), r.uni(0., 6.28));
        let mut b = Body::point(m, rp, x, v);
        b.rg = r.uni(0.3, 0.6);
        let w = r_period(r, 0.5, 10.);
        b.w = spin_vec(r, w, o.coplanar_spin);
        bodies.push(b);
        a *= r.uni(1.4, if n > 6 { 1.7 } else { 2.2 }) * (1. + emax) / (1. - emax);
    }
    let mut s = Sys { b: bodies, th: Some(0), gh: None, dh: None, on: On::none(), t0: 0., tl: 1e5 };
    let mut perm: Vec<usize> = (0..n).collect();
    if !r.chance(o.first) {
        r.shuffle(&mut perm);
    }
    s = s.permuted(&perm);
    if o.shift && r.chance(0.7) {
        s = s.shifted(r.unit() * r.log(1e-3, 3.), r.unit() * r.log(1e-4, 3e-2));
    }
    let star = s.th.unwrap();
    (s, star)
}

pub fn r_period(r: &mut Rng, a: f64, b: f64) -> f64 {
    2. * std::f64::consts::PI / r.log(a, b)
}

pub fn spin_vec(r: &mut Rng, w: f64, coplanar: bool) -> V3 {
    if coplanar {
        V3(0., 0., w)
    } else if r.chance(0.15) {
        V3(0., 0., if r.chance(0.3) { -w } else { w })
    } else {
        r.unit() * w
    }
}

/// Dissipation factor of a body of radius `r` with k2 times time lag `kdt` (days).
pub fn sigma_of(r: f64, kdt: f64) -> f64 {
    2. * K2 * kdt / (3. * r.powi(5))
}

pub fn gen_ctl(r: &mut Rng, radius: f64) -> TideM {
    let kdt = r.log(1e-7, 3e-2);
    TideM::Ctl { scale: *r.pick(&[1., 1., 1., 0.5, 10., 0.]), sigma: if r.chance(0.08) { 0. } else { sigma_of(radius, kdt) }, k2: if r.chance(0.08) { 0. } else { r.uni(0.01, 1.5) } }
}

/// A full Love number table (1024 frequencies in rad/s).
pub fn gen_kaula(r: &mut Rng) -> TideM {
    let lo = r.log(1e-9, 1e-7);
    let hi = r.log(3e-4, 1e-2);
    let mut w: Vec<f64> = (0..1024).map(|_| r.log(lo, hi)).collect();
    w.sort_by(|a, b| a.partial_cmp(b).unwrap());
    for i in 1..1024 {
        if w[i] <= w[i - 1] {
            w[i] = w[i - 1] * (1. + 1e-9);
        }
    }
    let w0 = r.log(1e-7, 1e-3);
    let (k0, k1, noise) = (r.uni(0.1, 1.4), r.uni(0.01, 0.5), r.uni(0., 0.2));
    let re = w.iter().map(|&x| k0 / (1. + (x / w0).powi(2)) + 0.05 + noise * (0.5 + 0.5 * (x.ln() * 3.).sin())).collect();
    let im = w.iter().map(|&x| k1 * (x / w0) / (1. + (x / w0).powi(2)) + 0.1 * noise * (0.5 + 0.5 * (x.ln() * 5.).cos())).collect();
    TideM::Kaula { w, re, im }
}

pub fn gen_disk(r: &mut Rng, a_in: f64) -> DiskP {
    // Surface densities of 1..1e4 g/cm2 at 1 AU in Msun/AU^2: 1 g/cm2 = 1.126e-7 Msun/AU^2
    DiskP {
        rin: if r.chance(0.2) { 0. } else { a_in * r.uni(0.2, 1.6) },
        rout: r.log(1., 100.),
        life: r.log(1e3, 1e8),
        alpha: r.log(1e-4, 1e-1),
        sigma0: 1.126e-7 * r.log(10., 1e4),
        mu: r.uni(1., 3.),
    }
}

/// Sprinkle effects on a system. `star` is the index of the main central body.
pub fn decorate(r: &mut Rng, s: &mut Sys, star: usize, want: On) {
    let n = s.n();
    s.on = want;
    s.th = if want.tides || want.flat { Some(if n > 2 && r.chance(0.15) { r.below(n) } else { star }) } else { None };
    for i in 0..n {
        let host = s.th == Some(i);
        if want.tides && (host || r.chance(0.75)) {
            s.b[i].tide = Some(gen_ctl(r, s.b[i].r));
        }
        if want.flat && (host || r.chance(0.75)) {
            s.b[i].flat = Some(FlatM::Oblate { k: r.uni(0.01, 1.5) });
        }
        if want.gr && i != star && r.chance(0.75) {
            s.b[i].gr = true;
        }
        if want.wind && r.chance(0.4) {
            s.b[i].wind = Some((r.log(1e-18, 1e-14), r.log(0.1, 10.)));
        }
        if want.disk && i != star && r.chance(0.75) {
            s.b[i].disk = true;
        }
    }
    if want.gr {
        s.gh = Some((star, *r.pick(&[Gr::Kidder, Gr::Anderson, Gr::Newhall])));
    }
    if want.disk {
        let amin = (0..n).filter(|&i| i != star).map(|i| (s.b[i].x - s.b[star].x).norm()).fold(f64::INFINITY, f64::min);
        s.dh = Some((star, gen_disk(r, amin)));
    }
    if want.evo {
        let k = if r.chance(0.7) { star } else { r.below(n) };
        set_evo(r, s, k);
    }
}

/// Give body k an evolution model, with start age inside its table.
pub fn set_evo(r: &mut Rng, s: &mut Sys, k: usize) {
    let e = tables::random_evo(r);
    s.b[k].evo = e;
    let (a, b) = tables::span(e);
    s.t0 = r.uni(a, a + 0.5 * (b - a));
    // Either exactly what the table says at the start, or clearly something else.
    let t = tables::tab(e).unwrap();
    let (tr, tg) = (t.radius(s.t0), t.rg2(s.t0));
    if r.chance(0.5) || (tr - s.b[k].r).abs() < 3e-6 {
        s.b[k].r = tr;
    }
    if let Some(g) = tg {
        if r.chance(0.5) || (g - s.b[k].rg * s.b[k].rg).abs() < 3e-6 {
            s.b[k].rg = g.sqrt();
        }
    }
    s.tl = s.tl.min((b - s.t0) * 0.98);
}

/// Another evolving body, whose table covers the ages at hand.
pub fn set_second_evo(r: &mut Rng, s: &mut Sys, k: usize) -> bool {
    let all = tables::all_evo();
    for _ in 0..20 {
        let e = *r.pick(&all);
        let (a, b) = tables::span(e);
        if s.t0 <= a || s.t0 >= b {
            continue;
        }
        s.b[k].evo = e;
        let t = tables::tab(e).unwrap();
        if r.chance(0.5) || (t.radius(s.t0) - s.b[k].r).abs() < 3e-6 {
            s.b[k].r = t.radius(s.t0);
        }
        if let Some(g) = t.rg2(s.t0) {
            if r.chance(0.5) || (g - s.b[k].rg * s.b[k].rg).abs() < 3e-6 {
                s.b[k].rg = g.sqrt();
            }
        }
        s.tl = s.tl.min((b - s.t0) * 0.98);
        return true;
    }
    false
}

#[derive(Clone, Copy, Debug, PartialEq, Serialize, Deserialize)]
pub enum Int {
    LeapFrog,
    Ias15,
    Jacobi,
    Democratic,
    Whds,
}

pub const INTS: [Int; 5] = [Int::LeapFrog, Int::Ias15, Int::Jacobi, Int::Democratic, Int::Whds];

pub enum Sim {
    L(Box<p::LeapFrog>),
    I(Box<p::Ias15>),
    W(Box<p::WHFast>),
}

impl Sim {
    pub fn new(kind: Int, dt: f64, recovery: f64, historic: f64, u: p::Universe) -> Sim {
        match kind {
            Int::LeapFrog => Sim::L(Box::new(p::LeapFrog::new(dt, recovery, historic, u))),
            Int::Ias15 => Sim::I(Box::new(p::Ias15::new(dt, recovery, historic, u))),
            Int::Jacobi => Sim::W(Box::new(p::WHFast::new(dt, recovery, historic, u, p::whfast::CoordinatesType::Jacobi))),
            Int::Democratic => Sim::W(Box::new(p::WHFast::new(dt, recovery, historic, u, p::whfast::CoordinatesType::DemocraticHeliocentric))),
            Int::Whds => Sim::W(Box::new(p::WHFast::new(dt, recovery, historic, u, p::whfast::CoordinatesType::WHDS))),
        }
    }
    pub fn int(&mut self) -> &mut dyn p::Integrator {
        match self {
            Sim::L(x) => x.as_mut(),
            Sim::I(x) => x.as_mut(),
            Sim::W(x) => x.as_mut(),
        }
    }
    pub fn u(&self) -> &p::Universe {
        match self {
            Sim::L(x) => &x.universe,
            Sim::I(x) => &x.universe,
            Sim::W(x) => &x.universe,
        }
    }
    pub fn u_mut(&mut self) -> &mut p::Universe {
        match self {
            Sim::L(x) => &mut x.universe,
            Sim::I(x) => &mut x.universe,
            Sim::W(x) => &mut x.universe,
        }
    }
    pub fn t(&self) -> f64 {
        match self {
            Sim::L(x) => x.current_time,
            Sim::I(x) => x.current_time,
            Sim::W(x) => x.current_time,
        }
    }
}

/// Dynamical state: barycentric positions, velocities and spin angular momenta.
#[derive(Clone, Debug)]
pub struct State {
    pub x: Vec<V3>,
    pub v: Vec<V3>,
    pub l: Vec<V3>,
}

pub fn state_of(u: &p::Universe) -> State {
    let n = u.n_particles;
    State {
        x: (0..n).map(|i| va(u.particles[i].inertial_position)).collect(),
        v: (0..n).map(|i| va(u.particles[i].inertial_velocity)).collect(),
        l: (0..n).map(|i| va(u.particles[i].angular_momentum)).collect(),
    }
}

pub fn put_state(u: &mut p::Universe, s: &State) {
    for i in 0..u.n_particles {
        u.particles[i].inertial_position = ax(s.x[i]);
        u.particles[i].inertial_velocity = ax(s.v[i]);
        u.particles[i].angular_momentum = ax(s.l[i]);
    }
}

/// Whether a state is well away from the limits at which the program stops (closeness by `margin`).
pub fn safe(s: &Sys, st: &State, margin: f64) -> bool {
    let big = s.most_massive();
    for i in 0..s.n() {
        for j in 0..i {
            let d = (st.x[i] - st.x[j]).norm();
            let (ri, rj) = (rmax(s, i), rmax(s, j));
            let (big_m, small_m, small_r) = if s.b[i].m > s.b[j].m { (s.b[i].m, s.b[j].m, rj) } else { (s.b[j].m, s.b[i].m, ri) };
            let roche = small_r / 0.462 * (big_m / small_m).powf(1. / 3.);
            if d < margin * roche.max(ri + rj) {
                return false;
            }
        }
        if (st.x[i] - st.x[big]).norm() > 95. {
            return false;
        }
    }
    true
}

/// Largest radius a body can have.
pub fn rmax(s: &Sys, i: usize) -> f64 {
    match tables::tab(s.b[i].evo) {
        Some(t) if s.on.evo => t.radius.iter().fold(s.b[i].r, |a, b| a.max(*b)),
        _ => s.b[i].r,
    }
}
