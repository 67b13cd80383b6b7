//! Repeatability, finiteness and absence of internal failures (C25).
use crate::c_run::{gentle, parse, plan, REC};
use crate::drive::wild;
use crate::fw::{guard, Ctx};
use crate::sys::*;
use crate::util::*;
use std::fs::{self, File};
use std::io::{BufWriter, Write};

fn stop(m: &str) -> bool {
    m.contains("destroyed by") || m.contains("Collision") || m.contains("has been ejected") || m.contains("require closed orbits")
}

/// Special geometries, where angles, cross products and differences vanish.
fn quirk(c: &mut Ctx, s: &mut Sys, star: usize, flat: bool) -> &'static str {
    let mu = |s: &Sys, i: usize| K2 * (s.b[star].m + s.b[i].m);
    let which = c.r.below(9);
    let name = ["axes", "retrograde", "polar", "no-spin", "anti-spin", "lying-spin", "synchronous", "mean-angles", "huge-shift"][which];
    let (x0, v0) = (s.b[star].x, s.b[star].v);
    let shift = if which == 8 { (c.r.unit() * 1e3, c.r.unit() * 1.) } else { (Z3, Z3) };
    for i in 0..s.n() {
        if i == star {
            match which {
                3 => s.b[i].w = Z3,
                4 => s.b[i].w = V3(0., 0., -s.b[i].w.norm()),
                5 => s.b[i].w = V3(s.b[i].w.norm(), 0., 0.),
                _ => {}
            }
            continue;
        }
        let m = mu(s, i);
        let (x, v) = (s.b[i].x - x0, s.b[i].v - v0);
        let a = 1. / (2. / x.norm() - v.dot(v) / m);
        if !(a > 0.) || a > 50. {
            return "none";
        }
        let quarter = c.r.below(4) as f64 * std::f64::consts::PI / 2.;
        let pi = std::f64::consts::PI;
        let e = (1. - x.cross(v).dot(x.cross(v)) / (m * a)).max(0.).sqrt();
        let place = match which {
            0 => Some(orbit(m, a, 0., 0., 0., 0., quarter)),
            1 if !flat => Some(orbit(m, a, e, pi, 0., 0., quarter)),
            2 if !flat => Some(orbit(m, a, e, pi / 2., 0., 0., quarter)),
            6 => Some(orbit(m, a, 0., 0., 0., 0., c.r.uni(0., 6.28))),
            7 if !flat => Some(orbit(m, a, e, 0.3, quarter, quarter, quarter)),
            _ => None,
        };
        let k = s.b[i].w.norm();
        match which {
            0 | 1 | 2 => {
                if let Some((mut px, mut pv)) = place {
                    // exactly on the axes
                    let (nx, nv) = (px.norm(), pv.norm());
                    let snap = |q: f64, n: f64| if q.abs() < 1e-12 * n { 0. } else { q };
                    px = V3(snap(px.0, nx), snap(px.1, nx), snap(px.2, nx));
                    pv = V3(snap(pv.0, nv), snap(pv.1, nv), snap(pv.2, nv));
                    s.b[i].x = px + x0;
                    s.b[i].v = pv + v0;
                }
            }
            3 => s.b[i].w = Z3,
            4 => s.b[i].w = V3(0., 0., -k),
            5 if !flat => s.b[i].w = V3(0., k, 0.),
            6 => {
                let (px, pv) = place.unwrap();
                s.b[i].x = px + x0;
                s.b[i].v = pv + v0;
                s.b[i].w = V3(0., 0., (m / (a * a * a)).sqrt());
            }
            7 => {
                if let Some((px, pv)) = place {
                    s.b[i].x = px + x0;
                    s.b[i].v = pv + v0;
                }
            }
            _ => {}
        }
    }
    for b in s.b.iter_mut() {
        b.x += shift.0;
        b.v += shift.1;
    }
    name
}

struct Done {
    bytes: Vec<u8>,
    t: f64,
    end: State,
    steps: usize,
}

fn go(c: &Ctx, tag: &str, s: &Sys, kind: Int, dt: f64, hist: f64, cap: usize) -> Result<Done, String> {
    let path = crate::c_run::scratch_file(c, tag);
    let out = guard(|| {
        let mut w = BufWriter::new(File::create(&path).unwrap());
        let mut sim = Sim::new(kind, dt, 1e12, hist, s.universe());
        sim.int().initialize_physical_values();
        let mut steps = 0;
        while steps < cap {
            steps += 1;
            if sim.int().iterate(&mut w, true).is_err() {
                break;
            }
            if std::env::var("VP_SHOW").is_ok() {
                eprintln!("step {} t {:e} {:?}", steps, sim.t(), state_of(sim.u()));
            }
            if wild(s, sim.u()) {
                panic!("harness: creep tides require closed orbits");
            }
        }
        w.flush().unwrap();
        drop(w);
        Done { bytes: fs::read(&path).unwrap(), t: sim.t(), end: state_of(sim.u()), steps }
    });
    let _ = fs::remove_file(&path);
    out
}

fn look(c: &mut Ctx, steps: f64, twice: bool) {
    let pl = match plan(c) {
        Some(p) => p,
        None => return,
    };
    let (mut s, kind, dt) = (pl.s, pl.kind, pl.dt);
    // Oblique Kaula tides on an orbit without node are discontinuous: IAS15 would shrink its step for ever.
    let kaula = s.b.iter().any(|b| matches!(b.tide, Some(TideM::Kaula { .. })));
    let q = if c.r.chance(0.6) && !(kaula && kind == Int::Ias15) { quirk(c, &mut s, pl.star, pl.name == "creep") } else { "none" };
    if q != "none" && (!gentle(&s, dt) || !safe(&s, &crate::phys::initial(&s), 1.05)) {
        c.ev("too-strong");
        return;
    }
    let limit = ((steps + c.r.f()) * dt).min(if s.on.evo { s.tl } else { f64::INFINITY });
    s.tl = limit;
    let hist = dt * c.r.log(0.3, 6.);
    c.detail = serde_json::json!({ "sys": if kaula { serde_json::json!("Kaula") } else { serde_json::json!(&s) }, "kind": kind, "dt": dt, "period": hist, "quirk": q });
    let what = format!("{} ({}) {:?} {} bodies {:?}", pl.name, q, kind, s.n(), s.on);
    if std::env::var("VP_SHOW").is_ok() {
        eprintln!("{} {}", what, c.detail);
    }
    let a = match go(c, "a", &s, kind, dt, hist, 20000) {
        Ok(a) => a,
        Err(m) if stop(&m) => {
            c.ev("encounter");
            return;
        }
        Err(m) => {
            c.fail("no-internal-failure", format!("{}: {}", what, m));
            return;
        }
    };
    c.ev("no-internal-failure");
    c.ok("run-ends", a.steps < 20000, || format!("{}: {} steps until {} of {}", what, a.steps, a.t, limit));
    c.ok("history-size", a.bytes.len() % (REC * s.n()) == 0 && !a.bytes.is_empty(), || format!("{}: {} bytes", what, a.bytes.len()));
    let inner = s.dh.map_or(0., |d| d.1.rin);
    for (k, r) in parse(&a.bytes).iter().enumerate() {
        let f = [r.t, r.dt, r.x.0, r.x.1, r.x.2, r.w.0, r.w.1, r.w.2, r.v.0, r.v.1, r.v.2, r.m, r.r, r.rg2, r.love, r.sigma, r.lag, r.heat];
        c.ok("finite-record", f.iter().all(|v| v.is_finite()), || format!("{}: record {} {:?}", what, k, r));
        let on = s.on.disk && inner > 0.;
        c.ok("finite-migration", r.tmig.is_finite() || (on && r.tmig == f64::INFINITY), || format!("{}: record {} {:?}", what, k, r));
    }
    c.ok("finite-end", (0..s.n()).all(|i| a.end.x[i].finite() && a.end.v[i].finite() && a.end.l[i].finite()), || what.clone());
    if twice {
        match go(c, "b", &s, kind, dt, hist, 20000) {
            Ok(b) => {
                let at = a.bytes.iter().zip(&b.bytes).position(|(x, y)| x != y);
                c.ok("repeatable", a.bytes == b.bytes, || format!("{}: {} and {} bytes, first difference at {:?}", what, a.bytes.len(), b.bytes.len(), at));
                let same = (0..s.n()).all(|i| a.end.x[i] == b.end.x[i] && a.end.v[i] == b.end.v[i] && a.end.l[i] == b.end.l[i]);
                c.ok("repeatable-end", same && a.t == b.t, || what.clone());
            }
            Err(m) => c.fail("repeatable", format!("{}: the second run failed: {}", what, m)),
        }
    }
    c.sig(format!("{}-{}-{:?}-{}", pl.name, q, kind, s.n()));
    c.sample(|| format!("{}: {} steps, {} records", what, a.steps, a.bytes.len() / REC));
}

pub fn c25(c: &mut Ctx) {
    let n = if c.thorough { 250. } else { 60. };
    look(c, n, true)
}

/// For instrumented builds.
pub fn c25s(c: &mut Ctx) {
    look(c, 25., false)
}

/// For the interpreter.
pub fn c25m(c: &mut Ctx) {
    look(c, 2., false)
}
