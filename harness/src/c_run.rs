//! Monitors evaluated after every step of whole runs that write their history: state consistency,
//! evolution, conservation, and the history records themselves.
use crate::c_force;
use crate::c_traj;
use crate::drive::*;
use crate::fw::{guard, Ctx};
use crate::phys;
use crate::sys::*;
use crate::tables;
use crate::util::*;
use std::fs::{File, OpenOptions};
use std::io::{BufWriter, Read, Seek, SeekFrom, Write};

pub const REC: usize = 156;

#[derive(Clone, Debug)]
pub struct Rec {
    pub t: f64,
    pub dt: f64,
    pub id: i32,
    pub x: V3,
    pub w: V3,
    pub v: V3,
    pub m: f64,
    pub r: f64,
    pub rg2: f64,
    pub love: f64,
    pub sigma: f64,
    pub lag: f64,
    pub heat: f64,
    pub tmig: f64,
}

pub fn parse(b: &[u8]) -> Vec<Rec> {
    b.chunks_exact(REC)
        .map(|c| {
            let f = |k: usize| f64::from_le_bytes([c[k], c[k + 1], c[k + 2], c[k + 3], c[k + 4], c[k + 5], c[k + 6], c[k + 7]]);
            let g = |k: usize| f(20 + 8 * k);
            let v = |k: usize| V3(g(k), g(k + 1), g(k + 2));
            Rec { t: f(0), dt: f(8), id: i32::from_le_bytes([c[16], c[17], c[18], c[19]]), x: v(0), w: v(3), v: v(6), m: g(9), r: g(10), rg2: g(11), love: g(12), sigma: g(13), lag: g(14), heat: g(15), tmig: g(16) }
        })
        .collect()
}

pub fn scratch_file(c: &Ctx, tag: &str) -> std::path::PathBuf {
    std::env::current_dir().unwrap().join(format!("{}_{}_{:?}.tmp", tag, c.case, std::thread::current().id()).replace(|q| q == '(' || q == ')', ""))
}

/// One step as seen from outside: state and time before it, records it wrote.
pub struct Step {
    pub t: f64,
    pub st: State,
    pub recs: Vec<Rec>,
}

pub struct Recorded {
    pub steps: Vec<Step>,
    pub t_end: f64,
    pub last: State,
    pub bytes: usize,
    /// Snapshots in the history according to the simulation.
    pub count: usize,
}

/// Run to completion (time limit `tl` of the system), recording with the given period.
pub fn record(c: &Ctx, s: &Sys, kind: Int, dt: f64, hist: f64, max_steps: usize) -> Result<Recorded, String> {
    let path = scratch_file(c, "hist");
    let out = guard(|| {
        let f = File::create(&path).unwrap();
        let mut rd = OpenOptions::new().read(true).open(&path).unwrap();
        let mut w = BufWriter::new(f);
        let mut sim = Sim::new(kind, dt, 1e12, hist, s.universe());
        sim.int().initialize_physical_values();
        let mut seen = 0u64;
        let mut steps = vec![];
        loop {
            let (t, st) = (sim.t(), state_of(sim.u()));
            let done = sim.int().iterate(&mut w, true).is_err();
            w.flush().unwrap();
            let mut buf = vec![];
            rd.seek(SeekFrom::Start(seen)).unwrap();
            rd.read_to_end(&mut buf).unwrap();
            seen += buf.len() as u64;
            steps.push(Step { t, st, recs: parse(&buf) });
            if done || steps.len() >= max_steps {
                break;
            }
        }
        let count = sim.int().get_n_historic_snapshots();
        Recorded { count, t_end: sim.t(), last: state_of(sim.u()), steps, bytes: seen as usize }
    });
    let _ = std::fs::remove_file(&path);
    out
}

fn stop(m: &str) -> bool {
    m.contains("destroyed by") || m.contains("Collision") || m.contains("has been ejected") || m.contains("require closed orbits")
}

/// A system with evolving bodies whose radii stay well inside the orbits.
pub fn evolving(c: &mut Ctx, want: On) -> (Sys, usize) {
    let o = GenOpt { n: (2, 5), emax: 0.2, a0: (0.15, 0.4), mr: (1e-7, 1e-3), ..GenOpt::default() };
    let (mut s, star) = gen(&mut c.r, &o);
    decorate(&mut c.r, &mut s, star, On { evo: false, ..want });
    s.th = if want.tides || want.flat { Some(star) } else { None };
    for i in 0..s.n() {
        // decorate may have picked another host
        if i == star {
            if want.tides && s.b[i].tide.is_none() {
                s.b[i].tide = Some(gen_ctl(&mut c.r, s.b[i].r));
            }
            if want.flat && s.b[i].flat.is_none() {
                s.b[i].flat = Some(FlatM::Oblate { k: 0.3 });
            }
        }
    }
    s.on = On { evo: true, ..want };
    s.tl = 1e9;
    let (r0, g0) = (s.b[star].r, s.b[star].rg);
    set_evo(&mut c.r, &mut s, star);
    let _ = (r0, g0);
    (s, star)
}

pub struct Plan {
    pub s: Sys,
    pub star: usize,
    pub kind: Int,
    pub dt: f64,
    pub name: &'static str,
}

/// Whether the effects are perturbations, as they have to be for the integrators to make sense.
pub fn gentle(s: &Sys, dt: f64) -> bool {
    gentle_at(s, dt, 0., &phys::initial(s))
}

pub fn gentle_at(s: &Sys, dt: f64, t: f64, st: &State) -> bool {
    let p = phys::pars(s, t);
    let m: Vec<f64> = s.b.iter().map(|b| b.m).collect();
    let kaula = s.b.iter().any(|b| matches!(b.tide, Some(TideM::Kaula { .. })));
    let tot = if kaula {
        let mut q = s.clone();
        for b in q.b.iter_mut() {
            if let Some(TideM::Kaula { .. }) = b.tide {
                b.tide = Some(TideM::Ctl { scale: 1., sigma: sigma_of(b.r, 1e-2), k2: 1. });
            }
        }
        phys::total(&q, t, st)
    } else {
        phys::total(s, t, st)
    };
    let nw = phys::newton(&m, &st.x);
    (0..s.n()).all(|i| {
        let extra = (tot.a[i] - nw[i]).norm();
        // relative to the pull, and the velocity change of a step to the velocity
        extra < 3e-3 * nw[i].norm() && tot.dl[i].norm() * dt < 0.03 * st.l[i].norm() && p[i].inertia > 0.
    })
}

pub fn plan(c: &mut Ctx) -> Option<Plan> {
    let kind = INTS[(c.case % 5) as usize];
    let which = c.r.below(10);
    let (s, star, name) = match which {
        0..=3 => {
            let want = On { tides: c.r.chance(0.6), flat: c.r.chance(0.5), gr: c.r.chance(0.4), disk: c.r.chance(0.3), wind: c.r.chance(0.5), evo: false };
            let (s, star) = c_traj::compact(c, want, (2, 5), false);
            (s, star, "compact")
        }
        4..=6 => {
            let want = On { tides: c.r.chance(0.5), flat: c.r.chance(0.4), gr: c.r.chance(0.3), disk: c.r.chance(0.3), wind: c.r.chance(0.5), evo: true };
            let (s, star) = evolving(c, want);
            (s, star, "evolving")
        }
        _ => {
            let (mut s, star, planar) = c_force::mixed(c, c.case % 7 == 0);
            if s.th.is_some() && s.th != Some(star) || s.on.evo {
                // a planet as host: effects may be violent
                s.on.evo = false;
                for b in s.b.iter_mut() {
                    b.evo = Evo::None;
                }
            }
            (s, star, if planar { "creep" } else { "mixed" })
        }
    };
    let p = s.shortest_period();
    let per = *c.r.pick(&[30., 60., 200.]);
    if !gentle(&s, p / per) {
        c.ev("too-strong");
        return None;
    }
    Some(Plan { dt: p / per, s, star, kind, name })
}

/// What the monitors of one property look at.
#[derive(Clone, Copy, PartialEq)]
pub enum Look {
    Spin,
    Evolution,
    History,
    Barycentre,
}

fn torque_free(s: &Sys, i: usize) -> bool {
    let host = s.th == Some(i);
    let tides = s.on.tides && s.b[i].tide.is_some() && s.th.is_some();
    let flat = s.on.flat && s.b[i].flat.is_some() && s.th.is_some();
    let wind = s.on.wind && s.b[i].wind.is_some();
    let gr = s.on.gr && s.gh.map_or(false, |(h, g)| g == Gr::Kidder && (h == i || s.b[i].gr));
    let _ = host;
    !(tides || flat || wind || gr)
}

fn runs(c: &mut Ctx, look: Look) {
    let pl = match plan(c) {
        Some(p) => p,
        None => return,
    };
    let mut s = pl.s.clone();
    let steps = if c.thorough { 400. } else { 120. };
    let t = steps * pl.dt;
    let limit = (t + c.r.f() * pl.dt).min(if s.on.evo { s.tl } else { f64::INFINITY });
    s.tl = limit;
    // recording period: every step, a multiple, incommensurate, longer than the run
    let hist = match if look == Look::History { c.r.below(7) } else { c.r.below(3) } {
        0 | 1 => pl.dt * c.r.uni(0.05, 0.9),
        2 => pl.dt,
        3 => pl.dt * c.r.int(2, 20) as f64,
        4 => pl.dt * c.r.uni(1., 15.),
        5 => limit * c.r.uni(0.2, 0.6),
        _ => limit * c.r.uni(1.1, 5.),
    };
    let kaula = s.b.iter().any(|b| matches!(b.tide, Some(TideM::Kaula { .. })));
    c.detail = serde_json::json!({ "sys": if kaula { serde_json::json!("Kaula") } else { serde_json::json!(&s) }, "kind": pl.kind, "dt": pl.dt, "period": hist });
    let r = match record(c, &s, pl.kind, pl.dt, hist, 100_000) {
        Ok(r) => r,
        Err(m) if stop(&m) => {
            c.ev("encounter");
            return;
        }
        Err(m) => {
            c.fail("run-failed", format!("{} {:?}: {}", pl.name, pl.kind, m));
            return;
        }
    };
    if pl.name == "creep" && r.steps.iter().any(|q| !gentle_at(&s, pl.dt, q.t, &q.st)) {
        // Stiff: the step is too long for it.
        c.ev("too-strong");
        return;
    }
    let what = |k: usize, i: usize| format!("{} {:?} body {} of {} at step {} (t {})", pl.name, pl.kind, i, s.n(), k, r.steps[k].t);
    match look {
        Look::Spin => {
            let l0 = &r.steps[0].st.l;
            for (k, q) in r.steps.iter().enumerate() {
                for i in 0..s.n() {
                    if torque_free(&s, i) {
                        c.ok("no-torque-no-change", q.st.l[i] == l0[i], || format!("{}: {:?} was {:?}", what(k, i), q.st.l[i], l0[i]));
                    }
                    if let Some(rec) = q.recs.get(i) {
                        let inertia = rec.m * rec.rg2 * rec.r * rec.r;
                        c.veq("spin-inertia", inertia * rec.w, q.st.l[i], 0., 1e-13, || what(k, i));
                    }
                }
            }
            for i in 0..s.n() {
                if torque_free(&s, i) {
                    c.ok("no-torque-no-change", r.last.l[i] == l0[i], || format!("end, body {}", i));
                }
            }
        }
        Look::Evolution => {
            for (k, q) in r.steps.iter().enumerate() {
                let p = phys::pars(&s, q.t);
                for (i, rec) in q.recs.iter().enumerate() {
                    let tol = if s.on.evo && s.b[i].evo != Evo::None { 1e-9 } else { 4e-16 };
                    c.leq("recorded-radius", (rec.r - p[i].r).abs(), tol * p[i].r, || format!("{} got {:e} want {:e}", what(k, i), rec.r, p[i].r));
                    c.leq("recorded-gyration", (rec.rg2 - p[i].rg2).abs(), tol * p[i].rg2, || format!("{} got {:e} want {:e}", what(k, i), rec.rg2, p[i].rg2));
                    c.veq("evolved-spin", rec.w, q.st.l[i] / p[i].inertia, 0., 5. * tol.max(1e-13), || what(k, i));
                    let k2 = phys::love(&s, &p, i);
                    if s.b[i].tide.is_some() && s.on.tides && s.th.is_some() {
                        if let Some(TideM::Ctl { .. }) = s.b[i].tide {
                            c.leq("recorded-love", (rec.love - k2).abs(), tol * k2 + 1e-300, || format!("{} got {:e} want {:e}", what(k, i), rec.love, k2));
                        }
                    }
                }
            }
        }
        Look::Barycentre => {
            if s.on.gr && s.gh.map_or(false, |(_, g)| g != Gr::Kidder) {
                return;
            }
            let m: Vec<f64> = s.b.iter().map(|b| b.m).collect();
            let mt: f64 = m.iter().sum();
            let sh: f64 = s.b.iter().map(|b| b.x.norm()).fold(0., f64::max) + (0..s.n()).map(|i| r.steps[0].st.x[i].norm()).fold(0., f64::max);
            let shv: f64 = s.b.iter().map(|b| b.v.norm()).fold(0., f64::max) + (0..s.n()).map(|i| r.steps[0].st.v[i].norm()).fold(0., f64::max);
            let n = (r.steps.len() as f64).sqrt() * 30.;
            for (k, st) in r.steps.iter().map(|q| &q.st).chain(std::iter::once(&r.last)).enumerate() {
                let (mut x, mut v) = (Z3, Z3);
                for i in 0..m.len() {
                    x += m[i] * st.x[i];
                    v += m[i] * st.v[i];
                }
                c.leq("barycentre-velocity", v.norm() / mt, 1e-15 * shv * n, || format!("{} {:?} step {}", pl.name, pl.kind, k));
                c.leq("barycentre-position", x.norm() / mt, 1e-15 * (sh + shv * limit) * n, || format!("{} {:?} step {}", pl.name, pl.kind, k));
            }
        }
        Look::History => history(c, &s, &pl, &r, hist, limit),
    }
    c.sig(format!("{} {:?} n={} star={} on={:?}", pl.name, pl.kind, s.n(), pl.star, [s.on.tides, s.on.flat, s.on.gr, s.on.disk, s.on.wind, s.on.evo].map(|b| b as u8)));
    c.sample(|| format!("{} {:?}: {} bodies, {} steps of {:.4} days, {} bytes of history with period {:.4}", pl.name, pl.kind, s.n(), r.steps.len(), pl.dt, r.bytes, hist));
}

fn history(c: &mut Ctx, s: &Sys, pl: &Plan, r: &Recorded, hist: f64, limit: f64) {
    let n = s.n();
    let dt = pl.dt;
    let ias = pl.kind == Int::Ias15;
    let mut last = 0.;
    let mut count = 0;
    let eps = |x: f64| 1e-11 * (x.abs() + dt);
    c.ok("snapshots-counted", r.count * n * REC == r.bytes, || format!("{} {:?}: {} snapshots counted, {} bytes written", pl.name, pl.kind, r.count, r.bytes));
    for (k, q) in r.steps.iter().enumerate() {
        let what = |i: usize| format!("{} {:?} body {} at step {} (t {}, step {}, period {})", pl.name, pl.kind, i, k, q.t, dt, hist);
        if !ias {
            c.leq("step-times", (q.t - k as f64 * dt).abs(), eps(k as f64 * dt), || what(0));
        }
        let has = !q.recs.is_empty();
        c.ok("whole-snapshots", !has || q.recs.len() == n, || format!("{} records: {}", q.recs.len(), what(0)));
        // When it has to be there.
        if k == 0 {
            c.ok("first-record", has && q.t == 0., || what(0));
        } else if ias {
            // a period after the previous record
            let due = last + hist;
            if (q.t - due).abs() > eps(due) {
                c.ok("cadence", has == (q.t > due), || format!("record {} but due at {}: {}", has, due, what(0)));
            }
        } else {
            // the count-th multiple of the period is due
            let due = count as f64 * hist;
            if (q.t - due).abs() > eps(due) {
                c.ok("cadence", has == (q.t > due), || format!("record {} but multiple {} is due at {}: {}", has, count, due, what(0)));
            } else if !has {
                c.ev("late-by-rounding");
            }
        }
        if !has {
            continue;
        }
        count += 1;
        last = q.t;
        let pq = phys::pars(s, q.t);
        for (i, rec) in q.recs.iter().enumerate() {
            c.ok("record-time", rec.t == q.t, || format!("{} recorded as {}", what(i), rec.t));
            c.ok("record-order", rec.id == i as i32, || format!("{} id {}", what(i), rec.id));
            c.ok("record-position", rec.x == q.st.x[i], || format!("{} got {:?} state {:?}", what(i), rec.x, q.st.x[i]));
            c.ok("record-velocity", rec.v == q.st.v[i], || format!("{} got {:?} state {:?}", what(i), rec.v, q.st.v[i]));
            c.ok("record-mass", rec.m == s.b[i].m, || what(i));
            // Size, shape and spin of the moment of the record
            let tol = if s.on.evo && s.b[i].evo != Evo::None { 1e-9 } else { 4e-16 };
            c.leq("record-radius", (rec.r - pq[i].r).abs(), tol * pq[i].r, || format!("{} got {:e} want {:e}", what(i), rec.r, pq[i].r));
            c.leq("record-gyration", (rec.rg2 - pq[i].rg2).abs(), tol * pq[i].rg2, || format!("{} got {:e} want {:e}", what(i), rec.rg2, pq[i].rg2));
            c.veq("record-spin", rec.w, q.st.l[i] / pq[i].inertia, 0., 5. * tol.max(1e-13), || what(i));
            if let (Some(TideM::Ctl { .. }), true, true) = (&s.b[i].tide, s.on.tides, s.th.is_some()) {
                let k2 = phys::love(s, &pq, i);
                c.leq("record-love", (rec.love - k2).abs(), tol * k2 + 1e-300, || format!("{} got {:e} want {:e}", what(i), rec.love, k2));
            }
            if !ias {
                c.ok("record-step", rec.dt == dt, || format!("{} got {}", what(i), rec.dt));
            }
        }
        if k == 0 {
            continue;
        }
        // Tidal heat and migration time: of the last force evaluation, within the step just done.
        let (a, b) = (&r.steps[k - 1], q);
        let p0 = phys::pars(s, a.t);
        let p1 = phys::pars(s, b.t);
        if s.on.tides && s.b.iter().all(|b| b.tide.as_ref().map_or(true, |t| matches!(t, TideM::Ctl { .. }))) && s.th.is_some() && !phys::near_regime(s, &p1, &b.st) && !phys::near_regime(s, &p0, &a.st) && c_force::all_bound(s, &b.st, s.th.unwrap()) {
            let (h0, h1) = (phys::tides(s, &p0, &a.st).heat, phys::tides(s, &p1, &b.st).heat);
            for i in 0..n {
                // changes within the step, of the force and of the spin
                let lim = 3. * (h1[i] - h0[i]).abs() + 0.02 * h1[i].abs().max(h0[i].abs()) + heat_terms(s, &p1, &b.st, i) * 12. * dt / pl.dt_period(s);
                c.leq("record-heat", (q.recs[i].heat - h1[i]).abs(), lim.max(1e-300), || format!("{} got {:e} want {:e} (before {:e})", what(i), q.recs[i].heat, h1[i], h0[i]));
            }
        }
        if s.on.disk {
            let (m0, m1) = (phys::disk(s, &a.st, a.t).1, phys::disk(s, &b.st, b.t).1);
            for i in 0..n {
                let far = s.dh.map_or(false, |(h, d)| (b.st.x[i] - b.st.x[h]).norm() > 1.3 * d.rin);
                if s.b[i].disk && far && m0[i].is_finite() && m1[i].is_finite() {
                    // How much it changes within a step, at mixed moments too: exponentially far out in the disk, without limit for nearly parabolic orbits.
                    let (mut lo, mut hi) = (m1[i].min(m0[i]), m1[i].max(m0[i]));
                    for v in [&a.st.v, &b.st.v] {
                        for f in [0., 0.25, 0.5, 1.] {
                            let mut q = b.st.clone();
                            for j in 0..n {
                                q.v[j] = v[j];
                                q.x[j] = b.st.x[j] - (f * (b.t - a.t)) * b.st.v[j];
                            }
                            let m = phys::disk(s, &q, b.t).1[i];
                            lo = if m > 0. { lo.min(m) } else { f64::NEG_INFINITY };
                            hi = hi.max(m);
                        }
                    }
                    if !(hi - lo < 0.5 * m1[i].abs()) {
                        c.ev("migration-time-unsteady");
                        continue;
                    }
                    let lim = 3. * (hi - lo) + 0.1 * m1[i].abs();
                    c.leq("record-migration", (q.recs[i].tmig - m1[i]).abs(), lim, || format!("{} got {:e} want {:e}", what(i), q.recs[i].tmig, m1[i]));
                }
            }
        }
    }
    c.ok("file-size", r.bytes == count * n * REC, || format!("{} bytes for {} snapshots of {} bodies", r.bytes, count, n));
    // The end: the last full step that fits.
    if !ias {
        c.ok("ends-in-time", r.t_end <= limit + eps(limit) && r.t_end + dt > limit - eps(limit), || format!("ended at {} limit {} step {}", r.t_end, limit, dt));
    } else {
        c.ok("ends-in-time", r.t_end <= limit * (1. + 1e-12), || format!("ended at {} limit {}", r.t_end, limit));
    }
    // Output settings never change the physics.
    if let Ok(o) = record(c, s, pl.kind, dt, 1e13, r.steps.len() + 1000) {
        let same = o.steps.len() == r.steps.len() && o.t_end == r.t_end && (0..n).all(|i| o.last.x[i] == r.last.x[i] && o.last.v[i] == r.last.v[i] && o.last.l[i] == r.last.l[i]);
        c.ok("output-is-passive", same, || format!("{} {:?} period {}: {:?} / {:?}", pl.name, pl.kind, hist, o.last.x, r.last.x));
    } else {
        c.fail("output-is-passive", format!("{:?}: stops when it records nothing", pl.kind));
    }
}

impl Plan {
    fn dt_period(&self, s: &Sys) -> f64 {
        s.shortest_period()
    }
}

/// Size of the terms that make up the heat rate of body i.
fn heat_terms(s: &Sys, p: &[phys::Par], st: &State, i: usize) -> f64 {
    let h = s.th.unwrap();
    if i == h {
        return 0.;
    }
    let w = st.l[i] / p[i].inertia;
    let x = st.x[i] - st.x[h];
    let v = st.v[i] - st.v[h];
    if let Some(TideM::Ctl { .. }) = s.b[i].tide {
        let sg = phys::sigma(s, p, &phys::spins(p, st), st, i, h);
        let k = 4.5 * s.b[h].m.powi(2) * p[i].r.powi(10) * sg / x.norm().powi(8);
        return k * (v.norm2() + x.norm2() * w.norm2()) * 2.;
    }
    0.
}

pub fn c13(c: &mut Ctx) {
    runs(c, Look::Spin);
}
pub fn c12t(c: &mut Ctx) {
    runs(c, Look::Evolution);
}
pub fn c16r(c: &mut Ctx) {
    runs(c, Look::History);
}
/// C16, and the solution itself, after very many steps.
pub fn c16l(c: &mut Ctx) {
    let kind = INTS[(c.case % 5) as usize];
    let o = GenOpt { n: (2, 2), emax: 0.3, mr: (1e-7, 1e-3), ..GenOpt::default() };
    let (mut s, star) = gen(&mut c.r, &o);
    let steps = (66_000 + c.r.below(if c.thorough { 500_000 } else { 8_000 })) as f64;
    let p = s.shortest_period();
    let dt = p / if kind == Int::LeapFrog { 300. } else { 50. };
    // IAS15 takes its own, longer steps.
    s.tl = dt * steps * if kind == Int::Ias15 { 3. } else { 1. };
    let hist = dt * c.r.uni(0.3, 0.99);
    c.detail = serde_json::json!({ "sys": &s, "dt": dt, "kind": kind, "period": hist, "long": true });
    let pl = Plan { s: s.clone(), star, kind, dt, name: "long" };
    let r = match record(c, &s, kind, dt, hist, usize::MAX) {
        Ok(r) => r,
        Err(m) => {
            c.fail("run-failed", format!("long {:?}: {}", kind, m));
            return;
        }
    };
    history(c, &s, &pl, &r, hist, s.tl);
    let k = r.steps.len() as f64;
    // The orbit repeats itself: shape, plane and phase after thousands of revolutions.
    let i = 1 - star;
    let mu = K2 * (s.b[0].m + s.b[1].m);
    let rel = |st: &State| (st.x[i] - st.x[star], st.v[i] - st.v[star]);
    let (a, b) = (rel(&r.steps[0].st), rel(&r.last));
    let (ka, kb) = (phys::kepler(mu, a.0, a.1), phys::kepler(mu, b.0, b.1));
    let rev = r.t_end / p;
    let tol = match kind { Int::LeapFrog => 2e-3, Int::Democratic => 1e-5, _ => 1e-13 * k.sqrt() * 30. };
    let what = || format!("{:?} after {} steps, {:.0} revolutions", kind, k, rev);
    c.leq("long-axis", (kb.a - ka.a).abs() / ka.a, tol, what);
    c.leq("long-eccentricity", (kb.e - ka.e).abs(), tol, what);
    let (la, lb) = (a.0.cross(a.1), b.0.cross(b.1));
    c.leq("long-plane", (la / la.norm() - lb / lb.norm()).norm(), 1e-13 * k.sqrt() * 30., what);
    if kind != Int::LeapFrog && kind != Int::Democratic {
        let d = kb.m - ka.m - ka.n * r.t_end;
        let d = (d / (2. * std::f64::consts::PI)).round() * 2. * std::f64::consts::PI - d;
        c.leq("long-phase", d.abs() * ka.e, 1e-13 * k.sqrt() * 30. * rev * 6., what);
    }
    c.sig(format!("long {:?} star={} {}k steps", kind, star, (k / 1e3) as usize));
    c.sample(|| format!("long {:?}: {} steps, {:.0} revolutions, {} bytes of history", kind, k, rev, r.bytes));
}

pub fn c03t(c: &mut Ctx) {
    runs(c, Look::Barycentre);
}

/// C05 along runs: total angular momentum with tides and oblateness.
pub fn c05t(c: &mut Ctx) {
    let kind = INTS[(c.case % 5) as usize];
    let want = On { tides: c.r.chance(0.8), flat: c.r.chance(0.6), ..On::none() };
    let want = if want.tides || want.flat { want } else { On { tides: true, ..On::none() } };
    let (mut s, star) = c_traj::compact(c, want, (2, 4), false);
    let p = s.shortest_period();
    let per = if kind == Int::LeapFrog { 400. } else { 60. };
    let dt = p / per;
    let t = dt * if c.thorough { 4000. } else { 1200. };
    s.tl = t * 2.;
    c.detail = serde_json::json!({ "sys": &s, "dt": dt, "kind": kind });
    let m: Vec<f64> = s.b.iter().map(|b| b.m).collect();
    let ltot = |st: &State| {
        let mut l = phys::orbital_l(&m, st);
        for i in 0..m.len() {
            l += st.l[i];
        }
        l
    };
    let init = phys::initial(&s);
    let l0 = ltot(&init);
    let lsc: f64 = (0..s.n()).map(|i| m[i] * init.x[i].cross(init.v[i]).norm() + init.l[i].norm()).sum();
    let (mut worst, mut moved, mut k) = (0f64, 0f64, 0usize);
    let mut prev = init.clone();
    let r = run_watch(&s, kind, dt, t, |_, u| {
        let st = state_of(u);
        worst = worst.max((ltot(&st) - l0).norm());
        for i in 0..m.len() {
            moved += (st.l[i] - prev.l[i]).norm();
        }
        prev = st;
        k += 1;
    });
    match r {
        Err(m) if stop(&m) => {
            c.ev("encounter");
            return;
        }
        Err(m) => {
            c.fail("run-failed", m);
            return;
        }
        Ok(_) => {}
    }
    let round = 1e-14 * lsc * (k as f64).sqrt() * 5.;
    let lim = round + moved * match kind { Int::LeapFrog => 0.006, Int::Ias15 => 1e-6, _ => 1e-9 };
    c.leq(&format!("total-L-{:?}", kind), worst, lim, || format!("{:?} {} bodies star {}: total angular momentum changes by {:e} while {:e} is exchanged (rounding {:e})", kind, s.n(), star, worst, moved, round));
    if moved * 1e-2 > round {
        c.sig(format!("{:?} n={} star={} tides={} flat={}", kind, s.n(), star, s.on.tides, s.on.flat));
    } else {
        c.ev("nothing-exchanged");
    }
    c.sample(|| format!("{:?} {} bodies, {} steps: exchanged {:e}, total changed by {:e} of {:e}", kind, s.n(), k, moved, worst, lsc));
    let _ = tables::all_evo;
}
