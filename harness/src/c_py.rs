//! What the library builds and computes, written down for the Python package to be compared with (C23, C24).
use crate::c_run::plan;
use crate::c_snap::*;
use crate::drive::*;
use crate::fw::{guard, Ctx};
use crate::sys::*;
use crate::util::*;
use posidonius as p;
use serde_json::{json, Value};
use std::f64::consts::PI;
use std::fs;
use std::path::PathBuf;

fn out(dir: &str, c: &Ctx, v: &Value) {
    let d = PathBuf::from(dir);
    fs::create_dir_all(&d).unwrap();
    fs::write(d.join(format!("{}.json", c.case)), serde_json::to_vec(v).unwrap()).unwrap();
}

/// A case: description, and the case as built by the library.
pub fn c23g(c: &mut Ctx) {
    let pl = match plan(c) {
        Some(q) => q,
        None => return,
    };
    let (mut s, kind, dt) = (pl.s, pl.kind, pl.dt);
    let n = if c.case % 16 == 3 { 300. } else { 60. };
    s.tl = (n + c.r.f()) * dt;
    let hist = dt * c.r.log(0.4, 8.);
    let rec = s.tl * c.r.uni(2., 5.);
    // Options that are switched although nothing needs them, and the other way around.
    if c.r.chance(0.2) {
        for k in [&mut s.on.tides, &mut s.on.flat, &mut s.on.gr, &mut s.on.disk, &mut s.on.wind] {
            if c.r.chance(0.3) {
                *k = !*k;
            }
        }
    }
    // Twins: which of two equally massive bodies counts as the most massive one.
    let mut twins = false;
    if c.r.chance(0.2) && s.n() > 1 && !s.b.iter().any(|b| matches!(b.tide, Some(TideM::Kaula { .. }))) {
        let big = (0..s.n()).fold(0, |a, i| if s.b[i].m > s.b[a].m { i } else { a });
        let i = c.r.below(s.n());
        twins = i != big;
        s.b[i].m = s.b[big].m;
    }
    let refs: Vec<i64> = (0..s.n()).map(|_| if c.r.chance(0.2) { c.r.below(s.n()) as i64 } else { -1 }).collect();
    let made = guard(|| {
        let mut v = s.particles();
        for (q, r) in v.iter_mut().zip(&refs) {
            if *r >= 0 {
                q.reference = p::Reference::Particle(*r as usize);
            }
        }
        let on = p::ConsiderEffects { tides: s.on.tides, rotational_flattening: s.on.flat, general_relativity: s.on.gr, disk: s.on.disk, wind: s.on.wind, evolution: s.on.evo };
        let u = p::Universe::new(s.t0, s.tl, v, on);
        let mut sim = Sim::new(kind, dt, rec, hist, u);
        tree(sim.int())
    });
    c.ev("cases built");
    let (tree, err) = match made {
        Ok(t) => (t, Value::Null),
        Err(m) => (Value::Null, json!(m)),
    };
    c.sig(format!("{} {:?} n={} twins={} on={:?}", pl.name, kind, s.n(), twins, s.on));
    if twins {
        c.ev("two bodies of the same, largest mass");
    }
    out("gen", c, &json!({ "sys": &s, "kind": format!("{:?}", kind), "dt": dt, "hist": hist, "rec": rec, "refs": refs, "tree": tree, "refused": err, "name": pl.name }));
}

fn angle(r: &mut Rng) -> f64 {
    match r.below(6) {
        0 => 0.,
        1 => *r.pick(&[0.5 * PI, PI, 1.5 * PI]),
        _ => r.uni(0., 2. * PI),
    }
}

/// Values of the helper functions for random arguments.
pub fn c23f(c: &mut Ctx) {
    let mut cart = vec![];
    let mut elem = vec![];
    for _ in 0..40 {
        let mass = c.r.log(1e-3, 10.);
        let q = c.r.log(1e-3, 100.);
        let e = match c.r.below(8) {
            0 => 0.,
            1 => c.r.log(1e-7, 1e-3),
            2 => c.r.uni(0.9, 0.99),
            3 => c.r.uni(1.02, 4.),
            4 => c.r.uni(4., 30.),
            _ => c.r.uni(0., 0.95),
        };
        let inc = match c.r.below(6) {
            0 => 0.,
            1 => PI - c.r.log(1e-6, 1e-2),
            2 => c.r.log(1e-6, 1e-2),
            _ => c.r.uni(0., PI),
        };
        let node = angle(&mut c.r);
        let arg = angle(&mut c.r);
        let m = if e < 1. { c.r.uni(-2. * PI, 6. * PI) } else { c.r.sign() * c.r.log(1e-4, 1e3) };
        let t = p::tools::calculate_cartesian_coordinates(K2 * mass, q, e, inc, node + arg, node, m);
        cart.push(json!([[mass, q, e, inc, node + arg, node, m], [t.0, t.1, t.2, t.3, t.4, t.5]]));
        let k = p::tools::calculate_keplerian_orbital_elements(K2 * mass, p::Axes { x: t.0, y: t.1, z: t.2 }, p::Axes { x: t.3, y: t.4, z: t.5 });
        elem.push(json!([[mass, t.0, t.1, t.2, t.3, t.4, t.5], [k.0, k.1, k.2, k.3, k.4, k.5, k.6, k.7], e]));
    }
    let mut spin = vec![];
    let mut sync = vec![];
    for _ in 0..20 {
        let (w, i, o, l) = (c.r.log(1e-3, 1e2), c.r.uni(0., PI), c.r.uni(0., PI), angle(&mut c.r));
        let s = p::tools::calculate_spin(w, i, o, l);
        spin.push(json!([[w, i, o, l], [s.x, s.y, s.z]]));
        let (a, e, ms, mp) = (c.r.log(1e-3, 10.), c.r.uni(0., 0.9), c.r.log(1e-2, 3.), c.r.log(1e-9, 1e-2));
        sync.push(json!([[a, e, ms, mp], p::tools::calculate_pseudo_synchronization_period(a, e, ms, mp)]));
    }
    let mut interp = vec![];
    for _ in 0..10 {
        let n = c.r.int(2, 30) as usize;
        let mut x = vec![c.r.uni(-5., 5.)];
        for _ in 1..n {
            let d = c.r.log(1e-3, 10.);
            x.push(x[x.len() - 1] + d);
        }
        let y: Vec<f64> = (0..n).map(|_| c.r.uni(-3., 3.)).collect();
        let mut t = vec![x[0] - 1., x[0], x[n - 1], x[n - 1] + 1., x[n / 2]];
        for _ in 0..10 {
            t.push(c.r.uni(x[0], x[n - 1]));
        }
        let l: Vec<f64> = t.iter().map(|q| p::tools::linear_interpolation(*q, &x, &y).0).collect();
        let k: Vec<f64> = t.iter().map(|q| p::tools::cosine_interpolation(*q, &x, &y).0).collect();
        interp.push(json!({ "x": x, "y": y, "t": t, "linear": l, "cosine": k }));
    }
    c.ev("tables of function values");
    out("fun", c, &json!({ "cart": cart, "elem": elem, "spin": spin, "sync": sync, "interp": interp }));
}
