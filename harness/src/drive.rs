//! Running the code under test: single force evaluations and whole simulations.
use crate::fw::guard;
use crate::phys::{self, Eff};
use crate::sys::*;
use crate::util::*;
use posidonius as p;
use std::fs::{File, OpenOptions};
use std::io::BufWriter;

/// What one evaluation of the additional effects left in the particles.
#[derive(Clone, Debug)]
pub struct Out {
    pub tides: Eff,
    pub flat: Eff,
    pub gr: Eff,
    pub wind: Eff,
    pub disk: Eff,
    pub total: Eff,
    pub newton: Vec<V3>,
    pub heat: Vec<f64>,
    pub tmig: Vec<f64>,
    pub lag: Vec<f64>,
    pub spin: Vec<V3>,
    pub r: Vec<f64>,
    pub rg2: Vec<f64>,
    pub inertia: Vec<f64>,
    pub shape: Vec<V3>,
}

pub struct Driver {
    pub u: Box<p::Universe>,
}

impl Driver {
    pub fn new(s: &Sys) -> Driver {
        let mut u = Box::new(s.universe());
        u.calculate_spin_and_evolving_quantities(0., true);
        Driver { u }
    }

    pub fn eval(&mut self, t: f64, st: &State, ign: p::IgnoreGravityTerms) -> Out {
        let u = &mut self.u;
        put_state(u, st);
        u.gravity_calculate_acceleration(ign);
        u.inertial_to_heliocentric();
        u.calculate_additional_effects(t, true, true, true, ign);
        if u.consider_effects.tides {
            u.calculate_denergy_dt();
        }
        self.read()
    }

    pub fn read(&self) -> Out {
        let u = &self.u;
        let n = u.n_particles;
        let q = |f: &dyn Fn(&p::Particle) -> p::Axes| (0..n).map(|i| va(f(&u.particles[i]))).collect::<Vec<V3>>();
        let g = |f: &dyn Fn(&p::Particle) -> f64| (0..n).map(|i| f(&u.particles[i])).collect::<Vec<f64>>();
        Out {
            tides: Eff { a: q(&|b| b.tides.parameters.output.acceleration), dl: q(&|b| b.tides.parameters.output.dangular_momentum_dt) },
            flat: Eff {
                a: q(&|b| b.rotational_flattening.parameters.output.acceleration),
                dl: q(&|b| b.rotational_flattening.parameters.output.dangular_momentum_dt),
            },
            gr: Eff {
                a: q(&|b| b.general_relativity.parameters.output.acceleration),
                dl: q(&|b| b.general_relativity.parameters.output.dangular_momentum_dt),
            },
            wind: Eff { a: vec![Z3; n], dl: q(&|b| b.wind.parameters.output.dangular_momentum_dt) },
            disk: Eff { a: q(&|b| b.disk.parameters.output.acceleration), dl: vec![Z3; n] },
            total: Eff { a: q(&|b| b.inertial_additional_acceleration), dl: q(&|b| b.dangular_momentum_dt) },
            newton: q(&|b| b.inertial_acceleration),
            heat: g(&|b| b.tides.parameters.internal.denergy_dt),
            tmig: g(&|b| b.disk.parameters.internal.migration_timescale),
            lag: g(&|b| b.tides.parameters.internal.lag_angle),
            spin: q(&|b| b.spin),
            r: g(&|b| b.radius),
            rg2: g(&|b| b.radius_of_gyration_2),
            inertia: g(&|b| b.moment_of_inertia),
            shape: q(&|b| b.tides.parameters.internal.shape),
        }
    }
}

pub fn null_writer() -> BufWriter<File> {
    BufWriter::new(OpenOptions::new().write(true).open("/dev/null").unwrap())
}

/// Result of a whole run.
pub struct Run {
    pub t: f64,
    pub st: State,
    pub steps: usize,
    pub r: Vec<f64>,
    pub spin: Vec<V3>,
}

pub fn set_tl(s: &Sys, tl: f64) -> Sys {
    let mut q = s.clone();
    q.tl = tl;
    q
}

/// Creep tides (a series in the eccentricity) far outside their domain.
pub fn wild(s: &Sys, u: &p::Universe) -> bool {
    let h = match s.th {
        Some(h) => h,
        None => return false,
    };
    let creep = |b: &Body| matches!(b.tide, Some(TideM::Creep { .. })) || matches!(b.flat, Some(FlatM::Creep { .. }));
    if !s.b.iter().any(creep) {
        return false;
    }
    let st = state_of(u);
    (0..s.n()).any(|i| i != h && (creep(&s.b[i]) || creep(&s.b[h])) && phys::kepler(K2 * (s.b[i].m + s.b[h].m), st.x[i] - st.x[h], st.v[i] - st.v[h]).e > 0.8)
}

/// Run to the last step not after t_end; `watch` sees every state (including the first).
pub fn run_watch(s: &Sys, kind: Int, dt: f64, t_end: f64, mut watch: impl FnMut(f64, &p::Universe)) -> Result<Run, String> {
    let q = set_tl(s, t_end + 0.5 * dt);
    let q2 = s.clone();
    guard(move || {
        let mut sim = Sim::new(kind, dt, 1e12, 1e12, q.universe());
        let mut w = null_writer();
        let mut steps = 0;
        sim.int().initialize_physical_values();
        watch(0., sim.u());
        loop {
            match sim.int().iterate(&mut w, true) {
                Ok(_) => {
                    steps += 1;
                    if wild(&q2, sim.u()) {
                        panic!("harness: creep tides require closed orbits");
                    }
                    watch(sim.t(), sim.u());
                }
                Err(_) => {
                    steps += 1;
                    watch(sim.t(), sim.u());
                    break;
                }
            }
        }
        let u = sim.u();
        Run {
            t: sim.t(),
            st: state_of(u),
            steps,
            r: (0..u.n_particles).map(|i| u.particles[i].radius).collect(),
            spin: (0..u.n_particles).map(|i| va(u.particles[i].spin)).collect(),
        }
    })
}

pub fn run_sim(s: &Sys, kind: Int, dt: f64, t_end: f64) -> Result<Run, String> {
    run_watch(s, kind, dt, t_end, |_, _| {})
}

/// Largest relative position/velocity difference (relative to the distance and speed about `star`),
/// and largest relative spin difference.
pub fn diff(a: &State, b: &State, star: usize) -> (f64, f64) {
    let mut e: f64 = 0.;
    let mut l: f64 = 0.;
    for i in 0..a.x.len() {
        if i != star {
            let dx = (a.x[i] - a.x[star]) - (b.x[i] - b.x[star]);
            let dv = (a.v[i] - a.v[star]) - (b.v[i] - b.v[star]);
            e = e.max(dx.norm() / (b.x[i] - b.x[star]).norm());
            e = e.max(dv.norm() / (b.v[i] - b.v[star]).norm());
        }
        let s = b.l[i].norm();
        if s > 0. {
            l = l.max((a.l[i] - b.l[i]).norm() / s);
        }
        if !a.x[i].finite() || !a.v[i].finite() || !a.l[i].finite() {
            return (f64::INFINITY, f64::INFINITY);
        }
    }
    (e, l)
}

/// A new random state for the bodies of `s`: fresh orbits about `star`, fresh spins.
pub fn rand_state(r: &mut Rng, s: &Sys, star: usize, t: f64, emax: f64, imax: f64, coplanar_spin: bool) -> State {
    for _ in 0..1000 {
        let st = rand_state_any(r, s, star, t, emax, imax, coplanar_spin);
        if safe(s, &st, 1.3) {
            return st;
        }
    }
    panic!("reference integrator: no safe state found");
}

fn rand_state_any(r: &mut Rng, s: &Sys, star: usize, t: f64, emax: f64, imax: f64, coplanar_spin: bool) -> State {
    let n = s.n();
    let p = phys::pars(s, t);
    let mut st = State { x: vec![Z3; n], v: vec![Z3; n], l: vec![Z3; n] };
    let mut order: Vec<usize> = (0..n).filter(|&i| i != star).collect();
    r.shuffle(&mut order);
    let mut a = r.log(0.02, 0.1).max(4. * rmax(s, star));
    for &i in &order {
        let need = rmax(s, i) / 0.462 * (s.b[star].m / s.b[i].m).powf(1. / 3.);
        a = a.max(1.5 * need / (1. - emax));
        let (x, v) = orbit(K2 * (s.b[star].m + s.b[i].m), a, emax * r.f(), imax * r.f(), r.uni(0., 6.28), r.uni(0., 6.28), r.uni(0., 6.28));
        st.x[i] = x;
        st.v[i] = v;
        a *= (r.uni(1.3, 2.) * (1. + 2. * emax)).min((40f64 / 0.1).powf(1. / n as f64));
    }
    let mt: f64 = s.b.iter().map(|b| b.m).sum();
    let (mut cx, mut cv) = (Z3, Z3);
    for i in 0..n {
        cx += s.b[i].m * st.x[i];
        cv += s.b[i].m * st.v[i];
    }
    for i in 0..n {
        st.x[i] -= cx / mt;
        st.v[i] -= cv / mt;
        let w = r_period(r, 0.3, 20.);
        st.l[i] = p[i].inertia * spin_vec(r, w, coplanar_spin);
    }
    st
}

/// The system with one more body, more massive than all the others and far away: the host of the
/// effects is then not the most massive body. Returns its index.
pub fn add_companion(r: &mut Rng, s: &mut Sys, coplanar: bool) -> usize {
    let mt: f64 = s.b.iter().map(|b| b.m).sum();
    let m = mt * r.uni(1.5, 10.);
    let d = r.uni(15., 40.);
    let sp = (K2 * (m + mt) / d).sqrt();
    let (u, w) = if coplanar {
        let f = r.uni(0., 6.28);
        (V3(f.cos(), f.sin(), 0.), V3(-f.sin(), f.cos(), 0.))
    } else {
        let u = r.unit();
        (u, u.cross(r.unit()).unit())
    };
    let mut b = Body::point(m, 1e-3, u * d, w * sp);
    b.w = V3(0., 0., 0.3);
    let k = r.below(s.n() + 1);
    let up = |i: usize| if i >= k { i + 1 } else { i };
    s.b.insert(k, b);
    s.th = s.th.map(up);
    s.gh = s.gh.map(|(i, g)| (up(i), g));
    s.dh = s.dh.map(|(i, g)| (up(i), g));
    k
}

/// Like rand_state, when body `comp` (if any) is the far companion of all the others.
pub fn rand_state_comp(r: &mut Rng, s: &Sys, comp: Option<usize>, star: usize, t: f64, emax: f64, imax: f64, coplanar: bool) -> State {
    let k = match comp {
        None => return rand_state(r, s, star, t, emax, imax, coplanar),
        Some(k) => k,
    };
    let mut q = s.clone();
    q.b.remove(k);
    q.th = None;
    q.gh = None;
    q.dh = None;
    let st0 = if star > k { star - 1 } else { star };
    let mut st = rand_state(r, &q, st0, t, emax, imax, coplanar);
    let mt: f64 = q.b.iter().map(|b| b.m).sum();
    let d = r.uni(55., 65.);
    let sp = (K2 * (s.b[k].m + mt) / d).sqrt();
    let f = r.uni(0., 6.28);
    st.x.insert(k, V3(d * f.cos(), d * f.sin(), 0.));
    st.v.insert(k, V3(-sp * f.sin(), sp * f.cos(), 0.));
    st.l.insert(k, V3(0., 0., 1e-8));
    let all: f64 = s.b.iter().map(|b| b.m).sum();
    let (mut cx, mut cv) = (Z3, Z3);
    for i in 0..s.n() {
        cx += s.b[i].m * st.x[i];
        cv += s.b[i].m * st.v[i];
    }
    for i in 0..s.n() {
        st.x[i] -= cx / all;
        st.v[i] -= cv / all;
    }
    if (0..s.n()).any(|i| (st.x[i] - st.x[k]).norm() > 95.) {
        return rand_state_comp(r, s, comp, star, t, emax, imax, coplanar);
    }
    st
}
