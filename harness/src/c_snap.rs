//! Snapshots in process: restored state (C26), interrupted and resumed runs (C14).
use crate::c_force;
use crate::c_run::{plan, REC};
use crate::drive::*;
use crate::fw::{guard, Ctx};
use crate::sys::*;
use crate::util::*;
use posidonius as p;
use posidonius::output;
use posidonius::Integrator;
use std::fs::{self, File, OpenOptions};
use std::io::{BufWriter, Write};
use std::path::{Path, PathBuf};

pub fn stop(m: &str) -> bool {
    m.contains("destroyed by") || m.contains("Collision") || m.contains("has been ejected") || m.contains("require closed orbits")
}

/// A directory of the case, removed at the end.
pub struct Dir(pub PathBuf);

impl Dir {
    pub fn new(c: &Ctx, tag: &str) -> Dir {
        let d = crate::c_run::scratch_file(c, tag);
        let _ = fs::remove_dir_all(&d);
        fs::create_dir_all(&d).unwrap();
        Dir(d)
    }
    pub fn at(&self, f: &str) -> PathBuf {
        self.0.join(f)
    }
}

impl Drop for Dir {
    fn drop(&mut self) {
        let _ = fs::remove_dir_all(&self.0);
    }
}

pub fn name_of(i: &dyn Integrator) -> &'static str {
    let a = i.as_any();
    if a.is::<p::WHFast>() {
        "WHFast"
    } else if a.is::<p::Ias15>() {
        "Ias15"
    } else if a.is::<p::LeapFrog>() {
        "LeapFrog"
    } else {
        "?"
    }
}

pub fn name_kind(k: Int) -> &'static str {
    match k {
        Int::LeapFrog => "LeapFrog",
        Int::Ias15 => "Ias15",
        _ => "WHFast",
    }
}

pub fn universe(i: &dyn Integrator) -> &p::Universe {
    let a = i.as_any();
    if let Some(w) = a.downcast_ref::<p::WHFast>() {
        &w.universe
    } else if let Some(w) = a.downcast_ref::<p::Ias15>() {
        &w.universe
    } else {
        &a.downcast_ref::<p::LeapFrog>().unwrap().universe
    }
}

/// Complete equality of two integrators.
fn equal(a: &dyn Integrator, b: &dyn Integrator) -> bool {
    let (x, y) = (a.as_any(), b.as_any());
    macro_rules! eq {
        ($t:ty) => {
            if let (Some(u), Some(v)) = (x.downcast_ref::<$t>(), y.downcast_ref::<$t>()) {
                return u == v;
            }
        };
    }
    eq!(p::WHFast);
    eq!(p::Ias15);
    eq!(p::LeapFrog);
    false
}

/// As a tree of values (maps in a fixed order).
pub fn tree(a: &dyn Integrator) -> serde_json::Value {
    let x = a.as_any();
    if let Some(w) = x.downcast_ref::<p::WHFast>() {
        serde_json::to_value(w).unwrap()
    } else if let Some(w) = x.downcast_ref::<p::Ias15>() {
        serde_json::to_value(w).unwrap()
    } else {
        serde_json::to_value(x.downcast_ref::<p::LeapFrog>().unwrap()).unwrap()
    }
}

/// First path at which two trees differ by more than a relative tolerance.
pub fn tree_diff(a: &serde_json::Value, b: &serde_json::Value, tol: f64, skip: &[&str], path: &str) -> Option<String> {
    use serde_json::Value as V;
    match (a, b) {
        (V::Object(x), V::Object(y)) => {
            for (k, v) in x {
                if skip.contains(&k.as_str()) {
                    continue;
                }
                match y.get(k) {
                    None => return Some(format!("{}.{} missing", path, k)),
                    Some(w) => {
                        if let Some(d) = tree_diff(v, w, tol, skip, &format!("{}.{}", path, k)) {
                            return Some(d);
                        }
                    }
                }
            }
            y.keys().find(|k| !x.contains_key(*k) && !skip.contains(&k.as_str())).map(|k| format!("{}.{} added", path, k))
        }
        (V::Array(x), V::Array(y)) => {
            if x.len() != y.len() {
                return Some(format!("{} lengths {} {}", path, x.len(), y.len()));
            }
            (0..x.len()).find_map(|k| tree_diff(&x[k], &y[k], tol, skip, &format!("{}[{}]", path, k)))
        }
        (V::Number(x), V::Number(y)) => {
            let (u, v) = (x.as_f64().unwrap(), y.as_f64().unwrap());
            if u == v || (u - v).abs() <= tol * u.abs().max(v.abs()) {
                None
            } else {
                Some(format!("{}: {} {}", path, u, v))
            }
        }
        _ => {
            if a == b {
                None
            } else {
                Some(format!("{}: {} {}", path, a, b))
            }
        }
    }
}

fn has_null_number(v: &serde_json::Value, path: &str) -> bool {
    // Non-finite numbers turn into null; options are legitimately null, so look by name.
    use serde_json::Value as V;
    match v {
        V::Object(x) => x.iter().any(|(k, w)| has_null_number(w, k)),
        V::Array(x) => x.iter().any(|w| has_null_number(w, path)),
        V::Null => path == "migration_timescale",
        _ => false,
    }
}

pub fn bits(u: &p::Universe) -> Vec<u64> {
    let s = state_of(u);
    let mut o = vec![];
    for k in 0..s.x.len() {
        for v in [s.x[k], s.v[k], s.l[k], va(u.particles[k].spin)] {
            o.extend([v.0.to_bits(), v.1.to_bits(), v.2.to_bits()]);
        }
        o.extend([u.particles[k].radius.to_bits(), u.particles[k].radius_of_gyration_2.to_bits()]);
    }
    o
}

fn any_system(c: &mut Ctx) -> Option<(Sys, Int, f64, &'static str)> {
    if c.r.chance(0.7) {
        plan(c).map(|p| (p.s, p.kind, p.dt, p.name))
    } else {
        let kind = INTS[(c.case % 5) as usize];
        let (s, _, planar) = c_force::mixed(c, c.case % 9 == 0);
        if planar {
            return None;
        }
        let dt = s.shortest_period() / 60.;
        Some((s, kind, dt, if planar { "creep" } else { "mixed" }))
    }
}

/// The evolution of a body of interest must fit in the run.
fn limited(s: &mut Sys, t: f64) -> f64 {
    if s.on.evo {
        s.tl = s.tl.min(t);
    } else {
        s.tl = t;
    }
    s.tl
}

fn open_writer(path: &Path, append: bool) -> BufWriter<File> {
    if append {
        BufWriter::new(OpenOptions::new().append(true).create(true).open(path).unwrap())
    } else {
        BufWriter::new(File::create(path).unwrap())
    }
}

/// C26.
pub fn c26(c: &mut Ctx) {
    let (mut s, kind, dt, name) = match any_system(c) {
        Some(x) => x,
        None => return,
    };
    if !dt.is_finite() {
        return;
    }
    limited(&mut s, 400. * dt);
    let kaula = s.b.iter().any(|b| matches!(b.tide, Some(TideM::Kaula { .. })));
    c.detail = serde_json::json!({ "sys": if kaula { serde_json::json!("Kaula") } else { serde_json::json!(&s) }, "kind": kind, "dt": dt });
    let d = Dir::new(c, "c26");
    let hist = dt * c.r.uni(0.5, 6.);
    let k0 = *c.r.pick(&[0usize, 0, 1, 2, 3, 7, 30, 100]);
    let more = c.r.int(1, 25);
    let init_before = c.r.chance(0.5);
    let what = || format!("{} {:?} {} bodies {:?} after {} steps", name, kind, s.n(), s.on, k0);
    // Bring a simulation to the point of the snapshot.
    let sim = guard(|| {
        let mut sim = Sim::new(kind, dt, 1e12, hist, s.universe());
        if k0 > 0 || init_before {
            sim.int().initialize_physical_values();
        }
        let mut w = open_writer(&d.at("h0.bin"), false);
        for _ in 0..k0 {
            if sim.int().iterate(&mut w, true).is_err() {
                break;
            }
            if wild(&s, sim.u()) {
                panic!("harness: creep tides require closed orbits");
            }
        }
        w.flush().unwrap();
        sim
    });
    let mut sim = match sim {
        Ok(x) => x,
        Err(m) if stop(&m) => {
            c.ev("encounter");
            return;
        }
        Err(m) => {
            c.fail("run-failed", format!("{}: {}", what(), m));
            return;
        }
    };
    if !bits(sim.u()).iter().all(|b| f64::from_bits(*b).abs() < 1e100) {
        c.ev("blown-up");
        return;
    }
    let bin = d.at(*c.r.pick(&["s.bin", "s.dat", "snap.shot.bin"]));
    let json = d.at("s.json");
    let mut w = open_writer(&d.at("h0.bin"), true);
    let wrote = guard(|| {
        sim.int().write_recovery_snapshot(&bin, &mut w);
    });
    if let Err(m) = wrote {
        c.fail("snapshot-not-written", format!("{}: {}", what(), m));
        return;
    }
    let back = guard(|| output::restore_snapshot(&bin));
    let mut back = match back {
        Ok(Ok(b)) => b,
        r => {
            c.fail("not-restored", format!("{}: {:?}", what(), r.map(|x| x.err())));
            return;
        }
    };
    c.ok("type-recognised", name_of(back.as_ref()) == name_kind(kind), || format!("{} came back as {}", what(), name_of(back.as_ref())));
    if sim.t() == 0. {
        // Restoring also makes a new simulation ready.
        let _ = guard(|| sim.int().initialize_physical_values());
    }
    c.ok("same-counters", back.get_n_historic_snapshots() == sim.int().get_n_historic_snapshots() && back.get_n_particles() == s.n() && back.get_current_time() == sim.t(), what);
    let same = equal(sim.int(), back.as_ref());
    if !same {
        let (a, b) = (tree(sim.int()), tree(back.as_ref()));
        c.ok("same-state", false, || format!("{}: {}", what(), tree_diff(&a, &b, 0., &[], "").unwrap_or_else(|| { let mut o = vec![]; nulls(&a, "", &mut o); format!("a part that is not in the file, or not-a-number in {:?}", o) })));
    } else {
        c.ev("same-state");
    }
    // JSON describes the same up to rounding.
    let mut w2 = null_writer();
    let jr = guard(|| {
        sim.int().write_recovery_snapshot(&json, &mut w2);
        output::restore_snapshot(&json)
    });
    let infinite = (0..s.n()).any(|i| !sim.u().particles[i].disk.parameters.internal.migration_timescale.is_finite());
    match jr {
        Ok(Ok(j)) => {
            c.ok("json-type", name_of(j.as_ref()) == name_kind(kind), || format!("{} json came back as {}", what(), name_of(j.as_ref())));
            let df = tree_diff(&tree(sim.int()), &tree(j.as_ref()), if sim.t() == 0. { 1e-13 } else { 4e-16 }, &["hash", "last_recovery_snapshot_time"], "");
            c.ok("json-same-state", df.is_none(), || format!("{}: {:?}", what(), df));
        }
        r => {
            let r = r.map(|x| x.err());
            let t = tree(sim.int());
            c.ok("json-restored", infinite && sim.t() > 0., || { let mut o = vec![]; nulls(&t, "", &mut o); format!("{}: {:?} {:?}", what(), r, o) });
        }
    }
    // Both go on the same way.
    let (pa, pb) = (d.at("ha.bin"), d.at("hb.bin"));
    let go = |i: &mut dyn Integrator, path: &Path| {
        guard(|| {
            let mut w = open_writer(path, false);
            let mut end = vec![];
            for _ in 0..more {
                end.push(i.iterate(&mut w, true));
                if wild(&s, universe(i)) {
                    panic!("harness: creep tides require closed orbits");
                }
                if end.last().unwrap().is_err() {
                    break;
                }
            }
            w.flush().unwrap();
            end
        })
    };
    let ra = go(sim.int(), &pa);
    let rb = go(back.as_mut(), &pb);
    let short = |m: &Result<Vec<Result<bool, String>>, String>| match m {
        Ok(v) => format!("{:?}", v),
        Err(m) => if stop(m) { "stopped".into() } else { m.clone() },
    };
    c.ok("continues-same-return", short(&ra) == short(&rb), || format!("{}: {} then {}", what(), short(&ra), short(&rb)));
    if ra.is_ok() && rb.is_ok() {
        let (ha, hb) = (fs::read(&pa).unwrap(), fs::read(&pb).unwrap());
        c.ok("continues-same-history", ha == hb, || format!("{}: {} and {} bytes", what(), ha.len(), hb.len()));
        c.ok("continues-same-state", bits(sim.u()) == bits(universe(back.as_ref())) && sim.t() == back.get_current_time(), what);
    }
    // Files that are no snapshots.
    let good = fs::read(&bin).unwrap();
    let text = fs::read(&json).unwrap();
    let mut tries: Vec<(String, &str, Vec<u8>)> = vec![("empty".into(), "x.bin", vec![]), ("empty".into(), "x.json", vec![])];
    // A WHFast file cut to just the length that a LeapFrog file of the same bodies has.
    let mut alone = 0;
    if name_kind(kind) == "WHFast" {
        let r = guard(|| {
            let mut l = Sim::new(Int::LeapFrog, dt, 1e12, hist, s.universe());
            l.int().write_recovery_snapshot(&d.at("leap.bin"), &mut null_writer());
        });
        if r.is_ok() {
            alone = fs::metadata(d.at("leap.bin")).unwrap().len() as usize;
            if alone < good.len() && k0 == 0 {
                let path = d.at("x.bin");
                fs::write(&path, &good[..alone]).unwrap();
                let r = guard(|| output::restore_snapshot(&path).is_ok());
                c.ok("whfast-cut-to-leapfrog-length", r != Ok(true), || format!("{}: {} of {} bytes", what(), alone, good.len()));
            }
        }
    }
    for _ in 0..4 {
        let k = match c.r.below(4) {
            0 => good.len() - c.r.int(1, 8.min(good.len())),
            1 => c.r.below(64.min(good.len())),
            _ => c.r.below(good.len()),
        };
        if k != alone {
            tries.push((format!("cut at {} of {}", k, good.len()), "x.bin", good[..k].to_vec()));
        }
        let k = c.r.below(text.len().saturating_sub(2).max(1));
        tries.push((format!("text cut at {} of {}", k, text.len()), "x.json", text[..k].to_vec()));
    }
    let noise: Vec<u8> = (0..c.r.int(1, 4000)).map(|_| c.r.below(256) as u8).collect();
    tries.push(("noise".into(), "x.bin", noise.clone()));
    tries.push(("noise".into(), "x.json", noise));
    tries.push(("history".into(), "x.bin", fs::read(&pa).unwrap_or_default()));
    tries.push(("text as binary".into(), "x.bin", text.clone()));
    tries.push(("binary as text".into(), "x.json", good.clone()));
    tries.push(("other text".into(), "x.json", br#"{"time_step": 0.1, "universe": {"particles": []}}"#.to_vec()));
    for (t, f, b) in tries {
        let path = d.at(f);
        fs::write(&path, &b).unwrap();
        let r = guard(|| output::restore_snapshot(&path).is_ok());
        c.ok("refuses-other-files", r != Ok(true), || format!("{}: {} taken for a simulation", what(), t));
    }
    let miss = guard(|| output::restore_snapshot(&d.at("nothing.bin")).is_ok());
    c.ok("refuses-missing-file", miss != Ok(true), what);
    c.sig(format!("{} {:?} n={} t0={} on={:?}", name, kind, s.n(), k0 == 0, s.on));
    c.sample(|| format!("{}: {} bytes of snapshot, then {} more steps with both", what(), good.len(), more));
    let _ = (has_null_number, REC);
}

/// What the executable does: iterate and write the snapshots that are due, until the end or a
/// number of steps. Returns whether it has ended and how many snapshots were written.
pub fn drive_run(i: &mut dyn Integrator, w: &mut BufWriter<File>, snap: &Path, steps: Option<usize>, on_snap: &mut dyn FnMut()) -> Result<bool, String> {
    guard(|| {
        let mut k = 0;
        loop {
            if steps.map_or(false, |n| k >= n) {
                return false;
            }
            match i.iterate(w, true) {
                Ok(due) => {
                    if due {
                        i.write_recovery_snapshot(snap, w);
                        on_snap();
                    }
                }
                Err(_) => return true,
            }
            k += 1;
        }
    })
}

fn expected_bytes(i: &dyn Integrator) -> u64 {
    i.get_n_historic_snapshots() as u64 * output::n_bytes_per_particle_in_historic_snapshot() * i.get_n_particles() as u64
}

/// C14 in process.
pub fn c14(c: &mut Ctx) {
    let (mut s, kind, dt, name) = match any_system(c) {
        Some(x) => x,
        None => return,
    };
    if !dt.is_finite() {
        return;
    }
    let steps = c.r.int(20, if c.thorough { 400 } else { 150 });
    let tl = limited(&mut s, (steps as f64 + c.r.f()) * dt);
    let kaula = s.b.iter().any(|b| matches!(b.tide, Some(TideM::Kaula { .. })));
    let hist = dt * c.r.log(0.3, 30.);
    let rec = dt * c.r.log(1., steps as f64);
    c.detail = serde_json::json!({ "sys": if kaula { serde_json::json!("Kaula") } else { serde_json::json!(&s) }, "kind": kind, "dt": dt, "historic": hist, "recovery": rec });
    let d = Dir::new(c, "c14");
    let what = || format!("{} {:?} {} bodies {:?}, step {}, limit {}, records every {}, snapshots every {}", name, kind, s.n(), s.on, dt, tl, hist, rec);
    // Without interruption.
    let (ha, sa) = (d.at("a_h.bin"), d.at("a.bin"));
    let r = guard(|| {
        let mut sim = Sim::new(kind, dt, rec, hist, s.universe());
        sim.int().initialize_physical_values();
        sim
    });
    let mut a = match r {
        Ok(x) => x,
        Err(m) => {
            if !stop(&m) {
                c.fail("run-failed", format!("{}: {}", what(), m));
            }
            return;
        }
    };
    let mut wa = open_writer(&ha, false);
    let mut snaps = 0;
    let mut total = 0;
    // Count the steps too.
    let ended = guard(|| loop {
        total += 1;
        match a.int().iterate(&mut wa, true) {
            Ok(due) => {
                if due {
                    a.int().write_recovery_snapshot(&sa, &mut wa);
                    snaps += 1;
                }
            }
            Err(_) => break,
        }
        if wild(&s, a.u()) {
            panic!("harness: creep tides require closed orbits");
        }
        if total > 20000 {
            panic!("reference integrator: too many steps");
        }
    });
    drop(wa);
    match ended {
        Ok(()) => {}
        Err(m) if stop(&m) => {
            c.ev("encounter");
            return;
        }
        Err(m) => {
            c.fail("run-failed", format!("{}: {}", what(), m));
            return;
        }
    }
    let full = fs::read(&ha).unwrap();
    let want = bits(a.u());
    // With interruptions.
    for round in 0..3 {
        let (hb, sb) = (d.at(&format!("b{}_h.bin", round)), d.at(&format!("b{}.bin", round)));
        let mut cuts = 0;
        let mut log: Vec<String> = vec![];
        let res: Result<(Vec<u64>, f64), String> = guard(|| {
            let mut sim = Sim::new(kind, dt, rec, hist, s.universe());
            sim.int().initialize_physical_values();
            let mut cur: Box<dyn Integrator> = match sim {
                Sim::L(x) => x,
                Sim::I(x) => x,
                Sim::W(x) => x,
            };
            let mut w = output::get_universe_history_writer(&hb, 0);
            loop {
                let n = c.r.int(1, (total as usize).max(2));
                let n = if cuts >= 4 { None } else { Some(n) };
                let mut taken = 0;
                match drive_run(cur.as_mut(), &mut w, &sb, n, &mut || taken += 1) {
                    Ok(true) => break,
                    Ok(false) => {}
                    Err(m) => panic!("{}", m),
                }
                if !sb.exists() {
                    continue;
                }
                cuts += 1;
                // The crash: what is in the buffer is lost or not, garbage may follow.
                let mode = c.r.below(3);
                match mode {
                    0 => drop(w.into_parts()),
                    1 => drop(w),
                    _ => {
                        drop(w);
                        let mut f = OpenOptions::new().append(true).open(&hb).unwrap();
                        let junk: Vec<u8> = (0..c.r.int(1, 1000)).map(|_| c.r.below(256) as u8).collect();
                        f.write_all(&junk).unwrap();
                    }
                }
                let t_cut = cur.get_current_time();
                drop(cur);
                // The current snapshot or its backup.
                let mut backups: Vec<PathBuf> = fs::read_dir(&d.0).unwrap().map(|e| e.unwrap().path()).filter(|p| p != &sb && p.file_name().unwrap().to_string_lossy().starts_with(&format!("b{}.", round))).collect();
                backups.sort();
                if !backups.is_empty() && c.r.chance(0.4) {
                    let b = c.r.pick(&backups).clone();
                    fs::copy(&b, &sb).unwrap();
                }
                cur = output::restore_snapshot(&sb).expect("restored");
                cur.set_snapshot_periods(-1., -1.);
                cur.set_time_limit(-1.);
                log.push(format!("cut at {} mode {} back to {}", t_cut, mode, cur.get_current_time()));
                w = output::get_universe_history_writer(&hb, expected_bytes(cur.as_ref()));
            }
            drop(w);
            (bits(universe(cur.as_ref())), cur.get_current_time())
        });
        match res {
            Ok((b, t)) => {
                let got = fs::read(&hb).unwrap();
                let at = (0..got.len().min(full.len())).find(|&k| got[k] != full[k]);
                c.ok("resumed-history", got == full, || format!("{}: {} and {} bytes, first difference {:?}, {:?}", what(), got.len(), full.len(), at, log));
                c.ok("resumed-final-state", b == want && t == a.t(), || format!("{}: {:?}", what(), log));
            }
            Err(m) => c.fail("resume-failed", format!("{}: {} {:?}", what(), m, log)),
        }
        c.sig(format!("{} {:?} cuts={} snaps={}", name, kind, cuts, (snaps as f64).log2().floor()));
        c.ev("interrupted-run");
    }
    c.sig(format!("{} {:?} n={} on={:?}", name, kind, s.n(), s.on));
    c.sample(|| format!("{}: {} steps, {} snapshots, {} bytes of history, 3 interrupted runs", what(), total, snaps, full.len()));
}

/// Where a tree that was finite has a null for a number.
pub fn nulls(a: &serde_json::Value, path: &str, out: &mut Vec<String>) {
    use serde_json::Value as V;
    match a {
        V::Object(x) => x.iter().for_each(|(k, w)| nulls(w, &format!("{}.{}", path, k), out)),
        V::Array(x) => x.iter().enumerate().for_each(|(k, w)| nulls(w, &format!("{}[{}]", path, k), out)),
        V::Null => out.push(path.to_string()),
        _ => {}
    }
}
