//! The executable itself: crashes and faults at every file operation (C15), repeated
//! interruptions (C14B), options and pre-existing files (C17).
use crate::c_run::{plan, REC};
use crate::c_snap::*;
use crate::drive::*;
use crate::fw::{guard, Ctx};
use crate::sys::*;
use posidonius::output;
use posidonius::Integrator;
use std::collections::BTreeMap;
use std::fs::{self, File};
use std::io::{BufWriter, Read};
use std::os::unix::process::ExitStatusExt;
use std::path::{Path, PathBuf};
use std::process::{Command, Stdio};
use std::time::{Duration, Instant};

fn bin() -> String {
    std::env::var("VP_BIN").expect("VP_BIN")
}

fn shim() -> String {
    std::env::var("VP_SHIM").expect("VP_SHIM")
}

#[derive(Clone, Debug)]
struct Ran {
    code: Option<i32>,
    signal: Option<i32>,
    err: String,
    secs: f64,
    ops: usize,
    letters: String,
}

impl Ran {
    fn fine(&self) -> bool {
        self.code == Some(0)
    }
    /// It said no: an error code, but no crash.
    fn refused(&self) -> bool {
        matches!(self.code, Some(k) if k != 0)
    }
    fn say(&self) -> String {
        format!("code {:?} signal {:?} {}", self.code, self.signal, self.err.lines().take(3).collect::<Vec<_>>().join(" | ").chars().take(200).collect::<String>())
    }
}

/// Run the executable in a directory.
fn exec(dir: &Path, args: &[&str], at: usize, mode: &str) -> Ran {
    let log = dir.join(".ops");
    let _ = fs::remove_file(&log);
    let t0 = Instant::now();
    let mut ch = Command::new(bin())
        .args(args)
        .current_dir(dir)
        .env("LD_PRELOAD", shim())
        .env("VP_LOG", &log)
        .env("VP_AT", at.to_string())
        .env("VP_MODE", mode)
        .env("RUST_BACKTRACE", "0")
        .stdin(Stdio::null())
        .stdout(Stdio::null())
        .stderr(Stdio::piped())
        .spawn()
        .expect("executable");
    let mut late = false;
    let st = loop {
        match ch.try_wait().unwrap() {
            Some(s) => break s,
            None => {
                if t0.elapsed() > Duration::from_secs(120) {
                    late = true;
                    let _ = ch.kill();
                }
                std::thread::sleep(Duration::from_micros(300));
            }
        }
    };
    let mut err = String::new();
    let _ = ch.stderr.take().unwrap().read_to_string(&mut err);
    if late {
        err = format!("not ended after 120 s {}", err);
    }
    let b = fs::read(&log).unwrap_or_default();
    let ops = if b.len() >= 8 { u64::from_le_bytes([b[0], b[1], b[2], b[3], b[4], b[5], b[6], b[7]]) as usize } else { 0 };
    let letters = if b.len() > 8 { String::from_utf8_lossy(&b[8..(8 + ops).min(b.len())]).to_string() } else { String::new() };
    let _ = fs::remove_file(&log);
    Ran { code: st.code(), signal: st.signal(), err, secs: t0.elapsed().as_secs_f64(), ops, letters }
}

/// A case file and what every run of it has to record.
struct Case {
    s: Sys,
    kind: Int,
    dt: f64,
    hist: f64,
    rec: f64,
    tl: f64,
    name: &'static str,
    json: Vec<u8>,
    /// Every step: time, next time step, records of all bodies.
    dense: Vec<(f64, f64, Vec<u8>)>,
    /// Longest limit the dense run covers.
    tmax: f64,
}

impl Case {
    /// History for periods and a limit: `changes` are (time from which, period).
    fn history(&self, changes: &[(f64, f64)], limit: f64) -> Vec<u8> {
        let mut last = -1.;
        let mut out = vec![];
        for (k, (t, dt, b)) in self.dense.iter().enumerate() {
            if k > 0 && t + dt > limit {
                break;
            }
            let p = changes.iter().filter(|q| q.0 <= *t).last().unwrap().1;
            if last < 0. {
                last = 0.;
                out.extend_from_slice(b);
            } else if last + p <= *t {
                last = if self.kind == Int::Ias15 { *t } else { last + p };
                out.extend_from_slice(b);
            }
        }
        out
    }
    fn expected(&self) -> Vec<u8> {
        self.history(&[(0., self.hist)], self.tl)
    }
    /// Times at the end of the steps until a limit.
    fn steps(&self, limit: f64) -> usize {
        self.dense.iter().enumerate().take_while(|(k, d)| *k == 0 || d.0 + d.1 <= limit).count()
    }
    fn what(&self) -> String {
        format!("{} {:?} {} bodies, step {}, limit {}, records every {}, snapshots every {}", self.name, self.kind, self.s.n(), self.dt, self.tl, self.hist, self.rec)
    }
}

/// A case of about `n` steps with about `snaps` snapshots.
fn make_case(c: &mut Ctx, n: usize, snaps: usize) -> Option<Case> {
    let p = plan(c)?;
    let (mut s, kind, dt, name) = (p.s, p.kind, p.dt, p.name);
    let tl = (n as f64 + c.r.f()) * dt;
    let tmax = if s.on.evo { (1.6 * tl).min(s.tl) } else { 1.6 * tl };
    if tl > 0.95 * tmax {
        return None;
    }
    s.tl = tl;
    let hist = dt * c.r.log(0.4, 8.);
    let rec = tl / snaps as f64 * c.r.uni(0.9, 1.2);
    let made = guard(|| {
        let mut sim = Sim::new(kind, dt, rec, hist, s.universe());
        serde_json::to_vec_pretty(&tree(sim.int())).unwrap()
    });
    let json = match made {
        Ok(j) => j,
        Err(m) => {
            c.fail("run-failed", format!("case not built: {}", m));
            return None;
        }
    };
    let d = Dir::new(c, "dense");
    let (cp, hp) = (d.at("c.json"), d.at("h.bin"));
    fs::write(&cp, &json).unwrap();
    let r = guard(|| {
        let mut i = output::restore_snapshot(&cp).expect("case");
        i.set_snapshot_periods(dt * 1e-6, 1e300);
        i.set_time_limit(tmax);
        let mut w = BufWriter::new(File::create(&hp).unwrap());
        let mut k = 0;
        while i.iterate(&mut w, true).is_ok() {
            k += 1;
            if k > 20000 {
                panic!("reference integrator: too many steps");
            }
            if wild(&s, universe(i.as_ref())) {
                panic!("harness: creep tides require closed orbits");
            }
        }
    });
    match r {
        Ok(()) => {}
        Err(m) if stop(&m) || m.contains("reference integrator") => {
            c.ev("encounter");
            return None;
        }
        Err(m) => {
            c.fail("run-failed", m);
            return None;
        }
    }
    let b = fs::read(&hp).unwrap();
    let len = REC * s.n();
    let f = |b: &[u8]| f64::from_le_bytes([b[0], b[1], b[2], b[3], b[4], b[5], b[6], b[7]]);
    let dense = b.chunks_exact(len).map(|q| (f(q), f(&q[8..]), q.to_vec())).collect();
    Some(Case { s, kind, dt, hist, rec, tl, name, json, dense, tmax })
}

const CASE: &str = "case.json";
const SNAP: &str = "run.bin";
const HIST: &str = "run_history.bin";

fn fresh(d: &Dir, name: &str, k: &Case) -> PathBuf {
    let p = d.at(name);
    fs::create_dir_all(&p).unwrap();
    fs::write(p.join(CASE), &k.json).unwrap();
    p
}

fn files(dir: &Path) -> BTreeMap<String, Vec<u8>> {
    let mut m = BTreeMap::new();
    for e in fs::read_dir(dir).unwrap() {
        let e = e.unwrap();
        let n = e.file_name().to_string_lossy().to_string();
        if n != ".ops" && e.file_type().unwrap().is_file() {
            m.insert(n, fs::read(e.path()).unwrap());
        }
    }
    m
}

/// Snapshots in a directory from which the run can go on: (file, time).
fn usable(dir: &Path, case_name: &str, hist: &str) -> Vec<(String, f64)> {
    snapshots(dir, case_name, hist).into_iter().filter(|x| x.2).map(|x| (x.0, x.1)).collect()
}

/// The complete snapshots in the directory, latest first: name, time, and whether the history has all the records they count.
fn snapshots(dir: &Path, case_name: &str, hist: &str) -> Vec<(String, f64, bool)> {
    let len = fs::metadata(dir.join(hist)).map(|m| m.len()).unwrap_or(0);
    let mut out = vec![];
    for e in fs::read_dir(dir).unwrap() {
        let n = e.unwrap().file_name().to_string_lossy().to_string();
        if n == case_name || n == hist || n == ".ops" {
            continue;
        }
        let p = dir.join(&n);
        if let Ok(Ok(i)) = guard(|| output::restore_snapshot(&p)) {
            let need = i.get_n_historic_snapshots() as u64 * i.get_n_particles() as u64 * REC as u64;
            if i.get_current_time() > 0. {
                out.push((n, i.get_current_time(), need <= len));
            }
        }
    }
    out.sort_by(|a, b| b.1.partial_cmp(&a.1).unwrap().then(a.0.cmp(&b.0)));
    out
}

fn same_history(c: &mut Ctx, name: &str, dir: &Path, want: &[u8], what: impl Fn() -> String) -> bool {
    let got = fs::read(dir.join(HIST)).unwrap_or_default();
    let at = (0..got.len().min(want.len())).find(|&k| got[k] != want[k]);
    c.ok(name, got == want, || format!("{}: {} bytes, expected {}, first difference at {:?}", what(), got.len(), want.len(), at))
}

const START: [&str; 5] = ["start", CASE, SNAP, HIST, "--silent"];

/// C15: killed, or refused, at every operation on files.
pub fn c15(c: &mut Ctx) {
    let n = c.r.int(20, 60);
    let snaps = c.r.int(2, 5);
    let k = match make_case(c, n, snaps) {
        Some(k) => k,
        None => return,
    };
    c.detail = serde_json::json!({ "kind": k.kind, "dt": k.dt, "historic": k.hist, "recovery": k.rec, "limit": k.tl, "case": String::from_utf8_lossy(&k.json).len() });
    let want = k.expected();
    let d = Dir::new(c, "c15");
    let p = fresh(&d, "whole", &k);
    let r = exec(&p, &START, 0, "");
    if !c.ok("whole-run", r.fine(), || format!("{}: {}", k.what(), r.say())) {
        return;
    }
    same_history(c, "whole-history", &p, &want, || k.what());
    let total = r.ops;
    let letters: Vec<char> = r.letters.chars().collect();
    let last = usable(&p, CASE, HIST);
    if !c.ok("snapshot-at-the-end", !last.is_empty(), || format!("{}: no usable snapshot after the run", k.what())) {
        return;
    }
    let t_last = last[0].1;
    let _ = fs::remove_dir_all(&p);
    // Which operations: all renames and opens, and as many writes as there is time for.
    let cap = if c.thorough { 400 } else { 24 };
    let mut at: Vec<usize> = (1..=total).collect();
    if total > cap {
        let mut keep: Vec<usize> = (1..=total).filter(|&q| letters[q - 1] != 'w').collect();
        let mut rest: Vec<usize> = (1..=total).filter(|&q| letters[q - 1] == 'w').collect();
        c.r.shuffle(&mut rest);
        c.r.shuffle(&mut keep);
        keep.truncate(cap / 2);
        rest.truncate(cap - keep.len());
        keep.extend(rest);
        keep.sort();
        at = keep;
    }
    let mut seen: Vec<(usize, &str, Option<f64>)> = vec![];
    for &q in &at {
        let w = letters[q - 1] == 'w';
        for mode in ["before", "torn"] {
            if mode == "torn" && !w {
                continue;
            }
            let p = fresh(&d, "kill", &k);
            let r = exec(&p, &START, q, mode);
            let what = || format!("{}; killed {} operation {} of {} ({})", k.what(), mode, q, total, letters[q - 1]);
            c.ok("killed", r.signal == Some(9), || format!("{}: {}", what(), r.say()));
            let all = snapshots(&p, CASE, HIST);
            c.ok("history-before-snapshot", all.iter().all(|x| x.2), || format!("{}: a snapshot counts records that are not in the history: {:?}", what(), all));
            let u = usable(&p, CASE, HIST);
            let t = u.first().map(|x| x.1);
            // Never less than what an earlier crash left.
            let before = seen.iter().filter_map(|x| x.2).fold(None, |a: Option<f64>, b| Some(a.map_or(b, |a| a.max(b))));
            c.ok("resumable", before.is_none() || t.map_or(false, |t| t >= before.unwrap()), || format!("{}: usable {:?}, an earlier crash left {:?}", what(), u, before));
            seen.push((q, mode, t));
            if !u.is_empty() {
                let which = if c.r.chance(0.7) { 0 } else { c.r.below(u.len()) };
                // The history counts only together with its snapshot.
                go_on(c, &k, &d, &p, &u[which].0, &want, &what());
                c.sig(format!("{} {} {:?} n={} from {}", mode, letters[q - 1], k.kind, k.s.n(), if u[which].0 == SNAP { "current" } else { "backup" }));
            } else {
                c.sig(format!("{} {} {:?} nothing yet", mode, letters[q - 1], k.kind));
            }
            let _ = fs::remove_dir_all(&p);
        }
    }
    let _ = t_last;
    c.sample(|| format!("{}: {} operations ({})", k.what(), total, r.letters));
    // Faults: an operation fails once, or the disk is full from there on, or a write is short.
    let faults = if c.thorough { 60 } else { 8 };
    for _ in 0..faults {
        let q = c.r.int(1, total);
        let mode = *c.r.pick(&["fail", "full", "short", "fail"]);
        if mode == "short" && letters[q - 1] != 'w' {
            continue;
        }
        let p = fresh(&d, "fault", &k);
        let r = exec(&p, &START, q, mode);
        let what = || format!("{}; {} at operation {} of {} ({})", k.what(), mode, q, total, letters[q - 1]);
        let all = snapshots(&p, CASE, HIST);
        c.ok("history-before-snapshot", all.iter().all(|x| x.2), || format!("{}: a snapshot counts records that are not in the history: {:?}", what(), all));
        let u = usable(&p, CASE, HIST);
        if r.fine() {
            c.ok("fault-noticed", mode != "full", || format!("{}: {}", what(), r.say()));
            same_history(c, "fault-complete-history", &p, &want, what);
            c.ok("fault-complete-snapshot", u.first().map_or(false, |x| x.1 >= t_last), || format!("{}: {:?}", what(), u));
        } else {
            c.ok("fault-reported", r.refused() && mode != "short", || format!("{}: {}", what(), r.say()));
            let before = seen.iter().filter(|x| x.0 <= q).filter_map(|x| x.2).fold(None, |a: Option<f64>, b| Some(a.map_or(b, |a| a.max(b))));
            c.ok("fault-resumable", before.is_none() || u.first().map_or(false, |x| x.1 >= before.unwrap()), || format!("{}: {:?}, a crash before left {:?}", what(), u, before));
        }
        if let Some(x) = u.first() {
            if !r.fine() {
                go_on(c, &k, &d, &p, &x.0.clone(), &want, &what());
            }
        }
        c.sig(format!("{} {} {:?} {}", mode, letters[q - 1], k.kind, r.fine()));
        let _ = fs::remove_dir_all(&p);
    }
}

/// Resume in a directory after a crash, sometimes crashing again, and compare the end.
fn go_on(c: &mut Ctx, k: &Case, d: &Dir, p: &Path, snap: &str, want: &[u8], what: &str) {
    let mut snap = snap.to_string();
    // As it is, or put back under the first name.
    if snap != SNAP && c.r.chance(0.5) {
        fs::copy(p.join(&snap), p.join(SNAP)).unwrap();
        snap = SNAP.into();
    }
    let mut story = what.to_string();
    for round in 0..4 {
        let args = ["resume", snap.as_str(), HIST, "--silent"];
        let again = round < 3 && c.r.chance(0.25);
        let r = if again {
            let at = c.r.int(1, 25);
            let mode = *c.r.pick(&["before", "torn", "after"]);
            story = format!("{}; resumed from {}, killed {} operation {}", story, snap, mode, at);
            exec(p, &args, at, mode)
        } else {
            exec(p, &args, 0, "")
        };
        if r.signal == Some(9) && again {
            c.ev("killed-again");
            let u = usable(p, CASE, HIST);
            if !c.ok("resumable-again", !u.is_empty(), || story.clone()) {
                return;
            }
            snap = u[0].0.clone();
            continue;
        }
        if c.ok("resumes", r.fine(), || format!("{}; resumed from {}: {}", story, snap, r.say())) {
            same_history(c, "resumed-history", p, want, || format!("{}; resumed from {}", story, snap));
        }
        return;
    }
    let _ = (k, d);
}

/// C14 with the executable: killed again and again at random operations.
pub fn c14b(c: &mut Ctx) {
    let n = c.r.int(30, 120);
    let snaps = c.r.int(3, 20);
    let k = match make_case(c, n, snaps) {
        Some(k) => k,
        None => return,
    };
    c.detail = serde_json::json!({ "kind": k.kind, "dt": k.dt, "historic": k.hist, "recovery": k.rec, "limit": k.tl });
    let want = k.expected();
    let d = Dir::new(c, "c14b");
    for round in 0..4 {
        let p = fresh(&d, &format!("r{}", round), &k);
        let mut story = vec![];
        let mut args: Vec<String> = START.iter().map(|s| s.to_string()).collect();
        for turn in 0..12 {
            let at = if turn < 11 && c.r.chance(0.85) { c.r.int(1, 60) } else { 0 };
            let mode = *c.r.pick(&["before", "torn", "after"]);
            let a: Vec<&str> = args.iter().map(|s| s.as_str()).collect();
            let r = exec(&p, &a, at, mode);
            story.push(format!("{} killed {} {}", args[..2].join(" "), mode, at));
            if r.signal == Some(9) {
                let u = usable(&p, CASE, HIST);
                if u.is_empty() {
                    // Nothing to resume from yet: start over.
                    let _ = fs::remove_dir_all(&p);
                    fresh(&d, &format!("r{}", round), &k);
                    args = START.iter().map(|s| s.to_string()).collect();
                    continue;
                }
                let w = if c.r.chance(0.7) { 0 } else { c.r.below(u.len()) };
                args = vec!["resume".into(), u[w].0.clone(), HIST.into(), "--silent".into()];
                if c.r.chance(0.3) {
                    // The user keeps a part of the lost history.
                    let f = p.join(HIST);
                    let mut b = fs::read(&f).unwrap();
                    b.extend((0..c.r.int(1, 400)).map(|x| x as u8));
                    fs::write(&f, &b).unwrap();
                }
                continue;
            }
            let what = || format!("{}: {:?}", k.what(), story);
            if c.ok("ends", r.fine(), || format!("{} {}", what(), r.say())) {
                same_history(c, "history-after-interruptions", &p, &want, what);
                // The last snapshot resumes to the same end once more.
                let r = exec(&p, &["resume", SNAP, HIST, "--silent"], 0, "");
                if p.join(SNAP).exists() && c.ok("resumes-after-the-end", r.fine() || !usable(&p, CASE, HIST).iter().any(|x| x.0 == SNAP), || format!("{} {}", what(), r.say())) && r.fine() {
                    same_history(c, "history-resumed-after-the-end", &p, &want, what);
                }
            }
            break;
        }
        c.sig(format!("{} {:?} n={} turns={}", k.name, k.kind, k.s.n(), story.len()));
        c.sample(|| format!("{}: {:?}", k.what(), story));
        let _ = fs::remove_dir_all(&p);
    }
}

fn time_of(p: &Path) -> Option<f64> {
    match guard(|| output::restore_snapshot(p)) {
        Ok(Ok(i)) => Some(i.get_current_time()),
        _ => None,
    }
}

/// C17.
pub fn c17(c: &mut Ctx) {
    let n = c.r.int(20, 80);
    let snaps = c.r.int(2, 8);
    let k = match make_case(c, n, snaps) {
        Some(k) => k,
        None => return,
    };
    c.detail = serde_json::json!({ "kind": k.kind, "dt": k.dt, "historic": k.hist, "recovery": k.rec, "limit": k.tl });
    let d = Dir::new(c, "c17");
    let want = k.expected();
    // --- start
    let p = fresh(&d, "a", &k);
    let junk: Vec<u8> = (0..c.r.int(0, 3000)).map(|_| c.r.below(256) as u8).collect();
    for pre in 0..3 {
        let q = fresh(&d, &format!("pre{}", pre), &k);
        if pre != 1 {
            fs::write(q.join(SNAP), &junk).unwrap();
        }
        if pre != 0 {
            fs::write(q.join(HIST), &junk).unwrap();
        }
        let was = files(&q);
        let r = exec(&q, &START, 0, "");
        c.ok("start-refuses-existing", r.refused(), || format!("existing {}: {}", ["snapshot", "history", "both"][pre], r.say()));
        c.ok("start-leaves-existing", files(&q) == was, || format!("existing {} of {} bytes changed by a start ({:?} -> {:?})", ["snapshot", "history", "both"][pre], junk.len(), was.keys(), files(&q).iter().map(|x| (x.0.clone(), x.1.len())).collect::<Vec<_>>()));
    }
    // A case that cannot be read leaves nothing behind.
    {
        let q = fresh(&d, "bad", &k);
        match c.r.below(3) {
            0 => fs::write(q.join(CASE), &k.json[..c.r.below(k.json.len() - 2)]).unwrap(),
            1 => fs::remove_file(q.join(CASE)).unwrap(),
            _ => fs::write(q.join(CASE), b"{}").unwrap(),
        }
        let was = files(&q);
        let r = exec(&q, &START, 0, "");
        c.ok("start-refuses-bad-case", r.refused() && files(&q) == was, || r.say());
    }
    // Loud or silent, both are the same run.
    let args: Vec<&str> = if c.r.chance(0.3) { START[..4].to_vec() } else { START.to_vec() };
    let r = exec(&p, &args, 0, "");
    if !c.ok("start", r.fine(), || format!("{}: {}", k.what(), r.say())) {
        return;
    }
    same_history(c, "start-history", &p, &want, || k.what());
    c.ok("start-leaves-the-case", fs::read(p.join(CASE)).unwrap() == k.json, || k.what());
    // The snapshot is at most a period old.
    let ts = time_of(&p.join(SNAP));
    let steps = k.steps(k.tl);
    let t_end = k.dense.get(steps).map_or(k.tl, |x| x.0);
    let maxdt = k.dense.iter().fold(0f64, |a, x| a.max(x.1));
    c.ok("snapshot-period", ts.map_or(false, |t| t >= t_end - k.rec - 3. * maxdt), || format!("{}: last snapshot at {:?} of {}", k.what(), ts, t_end));
    let ts = match ts {
        Some(t) => t,
        None => return,
    };
    let u = usable(&p, CASE, HIST);
    let save = files(&p);
    // Restore the directory of the finished run (or of one of its backups).
    let back = |c: &mut Ctx, name: &str| -> (PathBuf, f64) {
        let q = d.at(name);
        let _ = fs::remove_dir_all(&q);
        fs::create_dir_all(&q).unwrap();
        for (n, b) in &save {
            fs::write(q.join(n), b).unwrap();
        }
        if u.len() > 1 && c.r.chance(0.5) {
            let w = c.r.below(u.len());
            fs::copy(p.join(&u[w].0), q.join(SNAP)).unwrap();
            (q, u[w].1)
        } else {
            (q, ts)
        }
    };
    // --- resume to the same limit; a longer history than the snapshot knows is replaced.
    {
        let (q, t0) = back(c, "same");
        if c.r.chance(0.5) {
            let mut b = save[HIST].clone();
            b.extend((0..c.r.int(1, 500)).map(|x| (x * 7) as u8));
            fs::write(q.join(HIST), b).unwrap();
        }
        let r = exec(&q, &["resume", SNAP, HIST, "--silent"], 0, "");
        c.ok("resume", r.fine(), || format!("{} from {}: {}", k.what(), t0, r.say()));
        same_history(c, "resume-history", &q, &want, || format!("{} from {}", k.what(), t0));
    }
    // --- a history of more than four gigabytes (sparse): what was recorded is kept, what is new goes to its end
    if c.case % 10 == 3 {
        let q = d.at("huge");
        let _ = fs::remove_dir_all(&q);
        fs::create_dir_all(&q).unwrap();
        let per = k.s.n() * REC;
        let had = {
            let i = guard(|| output::restore_snapshot(&p.join(SNAP))).unwrap().unwrap();
            let mut t = tree(i.as_ref());
            let had = i.get_n_historic_snapshots();
            let many = (1usize << 32) / per + 1 + c.r.below(1000) + had;
            t["n_historic_snapshots"] = serde_json::json!(many);
            // Not what is infinite (the migration time inside the inner edge of a disk).
            let i: Option<Box<dyn Integrator>> = match k.kind {
                Int::Ias15 => serde_json::from_value::<posidonius::Ias15>(t).ok().map(|x| Box::new(x) as _),
                Int::LeapFrog => serde_json::from_value::<posidonius::LeapFrog>(t).ok().map(|x| Box::new(x) as _),
                _ => serde_json::from_value::<posidonius::WHFast>(t).ok().map(|x| Box::new(x) as _),
            };
            i.map(|mut i| {
                guard(|| i.write_recovery_snapshot(&q.join(SNAP), &mut null_writer())).unwrap();
                let f = fs::File::create(q.join(HIST)).unwrap();
                f.set_len((many * per) as u64 + 77).unwrap();
                (had, many)
            })
        };
        if let Some(had) = had {
        let r = exec(&q, &["resume", SNAP, HIST, "--silent"], 0, "");
        c.ok("resume-huge", r.fine(), || format!("{} from {}: {}", k.what(), ts, r.say()));
        let len = fs::metadata(q.join(HIST)).map_or(0, |m| m.len());
        let tail = want.len() - had.0 * per;
        let all = (had.1 * per) as u64 + tail as u64;
        let fine = len == all && {
            use std::io::{Read, Seek, SeekFrom};
            let mut f = fs::File::open(q.join(HIST)).unwrap();
            f.seek(SeekFrom::Start((had.1 * per) as u64)).unwrap();
            let mut b = vec![];
            f.read_to_end(&mut b).unwrap();
            b[..] == want[had.0 * per..]
        };
        c.ok("resume-huge-history", fine, || format!("{} from {}: {} bytes before, {} after, expected {}", k.what(), ts, had.1 * per, len, all));
        }
        let _ = fs::remove_dir_all(&q);
    }
    // --- history too short
    {
        let (q, t0) = back(c, "short");
        let need = {
            let i = guard(|| output::restore_snapshot(&q.join(SNAP))).unwrap().unwrap();
            i.get_n_historic_snapshots() * i.get_n_particles() * REC
        };
        let cut = match c.r.below(3) {
            0 => need - 1,
            1 => need - (k.s.n() * REC).min(need),
            _ => c.r.below(need),
        };
        fs::write(q.join(HIST), &save[HIST][..cut]).unwrap();
        let was = files(&q);
        let r = exec(&q, &["resume", SNAP, HIST, "--silent"], 0, "");
        c.ok("resume-refuses-short-history", r.refused(), || format!("{} from {}: {} of {} bytes: {}", k.what(), t0, cut, need, r.say()));
        c.ok("resume-leaves-short-history", files(&q) == was, || format!("{} from {}: {} of {} bytes", k.what(), t0, cut, need));
    }
    // --- new limit
    {
        let (q, t0) = back(c, "limit");
        let t2 = c.r.uni(t0 + 3. * maxdt, 0.97 * k.tmax);
        if t2 > t0 + 2. * maxdt && t2 < 0.97 * k.tmax {
            let s2 = format!("{:?}", t2);
            let r = exec(&q, &["resume", SNAP, HIST, "--silent", "--time-limit", &s2], 0, "");
            let w2 = k.history(&[(0., k.hist)], t2);
            c.ok("resume-new-limit", r.fine(), || format!("{} from {} to {}: {}", k.what(), t0, t2, r.say()));
            same_history(c, "resume-new-limit-history", &q, &w2, || format!("{} from {} to {}", k.what(), t0, t2));
            // And on to another one: the snapshot keeps the new limit.
            if let Some(t1) = time_of(&q.join(SNAP)) {
                let r = exec(&q, &["resume", SNAP, HIST, "--silent"], 0, "");
                if t1 > t0 {
                    c.ok("resume-keeps-limit", r.fine(), || format!("{} from {} to {}: {}", k.what(), t1, t2, r.say()));
                    same_history(c, "resume-keeps-limit-history", &q, &w2, || format!("{} from {} to {}", k.what(), t1, t2));
                }
            }
        }
        let (q, t0) = back(c, "past");
        let was = files(&q);
        let t2 = format!("{:?}", t0 * c.r.uni(0.05, 0.95));
        let r = exec(&q, &["resume", SNAP, HIST, "--silent", "--time-limit", &t2], 0, "");
        c.ok("resume-refuses-past-limit", r.refused(), || format!("{} from {} to {}: {}", k.what(), t0, t2, r.say()));
        c.ok("resume-refused-leaves-files", files(&q) == was, || format!("{} from {} to {}", k.what(), t0, t2));
    }
    // --- new historic period (with a new limit)
    {
        let (q, t0) = back(c, "period");
        let p2 = k.dt * c.r.log(0.4, 12.);
        let t2 = (t0 + (k.tmax - t0) * c.r.uni(0.5, 0.97)).max(t0 + 3. * maxdt);
        if t2 < 0.98 * k.tmax {
            let (a, b) = (format!("{:?}", p2), format!("{:?}", t2));
            let r = exec(&q, &["resume", SNAP, HIST, "--silent", "--historic-snapshot-period", &a, "--time-limit", &b], 0, "");
            let w2 = k.history(&[(0., k.hist), (t0, p2)], t2);
            c.ok("resume-new-period", r.fine(), || format!("{} from {} to {} every {}: {}", k.what(), t0, t2, p2, r.say()));
            same_history(c, "resume-new-period-history", &q, &w2, || format!("{} from {} to {} every {}", k.what(), t0, t2, p2));
        }
    }
    // --- new recovery period
    {
        let (q, t0) = back(c, "recovery");
        let t2 = (t0 + (k.tmax - t0) * c.r.uni(0.6, 0.97)).max(t0 + 5. * maxdt);
        if t2 < 0.98 * k.tmax {
            let often = c.r.chance(0.6);
            let r2 = if often { c.r.uni(0.5, 4.) * maxdt } else { (t2 - t0) * 3. };
            let (a, b) = (format!("{:?}", r2), format!("{:?}", t2));
            let was = fs::read(q.join(SNAP)).unwrap();
            let r = exec(&q, &["resume", SNAP, HIST, "--silent", "--recovery-snapshot-period", &a, "--time-limit", &b], 0, "");
            c.ok("resume-new-recovery", r.fine(), || format!("{} from {} to {} every {}: {}", k.what(), t0, t2, r2, r.say()));
            same_history(c, "resume-new-recovery-history", &q, &k.history(&[(0., k.hist)], t2), || format!("{} from {} to {} snapshots every {}", k.what(), t0, t2, r2));
            let t1 = time_of(&q.join(SNAP)).unwrap_or(-1.);
            let end = k.dense.get(k.steps(t2)).map_or(t2, |x| x.0);
            if often {
                c.ok("recovery-period-shorter", t1 >= end - r2 - 3. * maxdt, || format!("{}: snapshots every {}: last at {} of {}", k.what(), r2, t1, end));
            } else {
                c.ok("recovery-period-longer", fs::read(q.join(SNAP)).unwrap() == was, || format!("{}: snapshots every {}: one at {} before {}", k.what(), r2, t1, end));
            }
        }
    }
    // --- things that are no options
    {
        let (q, _) = back(c, "usage");
        let was = files(&q);
        let bad: Vec<Vec<&str>> = vec![
            vec![],
            vec!["resume", SNAP],
            vec!["start", CASE, SNAP],
            vec!["resume", "missing.bin", HIST],
            vec!["resume", SNAP, HIST, "--time-limit", "soon"],
            vec!["start", CASE, SNAP, HIST, "--limit", "-3"],
        ];
        let b = c.r.pick(&bad).clone();
        let r = exec(&q, &b, 0, "");
        c.ok("usage-refused", r.refused() && files(&q) == was, || format!("{:?}: {}", b, r.say()));
    }
    c.sig(format!("{} {:?} n={} backups={}", k.name, k.kind, k.s.n(), u.len()));
    c.sample(|| k.what());
}

/// C17: the execution time limit.
pub fn c17l(c: &mut Ctx) {
    // A long run of a small system: the limit of a second comes first.
    let k = match make_case(c, 30, 3) {
        Some(k) => k,
        None => return,
    };
    if k.s.on.evo || k.s.b.iter().any(|b| matches!(b.tide, Some(TideM::Kaula { .. })) || matches!(b.tide, Some(TideM::Creep { .. })) || matches!(b.flat, Some(FlatM::Creep { .. }))) {
        return;
    }
    let d = Dir::new(c, "c17l");
    let p = d.at("run");
    fs::create_dir_all(&p).unwrap();
    // How many steps make about two seconds.
    let mut v: serde_json::Value = serde_json::from_slice(&k.json).unwrap();
    let set = |v: &mut serde_json::Value, tl: f64, hist: f64, rec: f64| {
        v["universe"]["time_limit"] = serde_json::json!(tl);
        v["historic_snapshot_period"] = serde_json::json!(hist);
        v["recovery_snapshot_period"] = serde_json::json!(rec);
    };
    let probe = 3000. * k.dt;
    set(&mut v, probe, probe, probe * 10.);
    fs::write(p.join(CASE), serde_json::to_vec(&v).unwrap()).unwrap();
    let r = exec(&p, &START, 0, "");
    if !r.fine() {
        c.ev("encounter");
        return;
    }
    let tl = probe * (4. / r.secs.max(0.005)).max(1.);
    let want = {
        let q = d.at("whole");
        fs::create_dir_all(&q).unwrap();
        set(&mut v, tl, tl / 50., tl * 0.15);
        fs::write(q.join(CASE), serde_json::to_vec(&v).unwrap()).unwrap();
        let r = exec(&q, &START, 0, "");
        if !r.fine() || r.secs < 2.5 {
            c.ev("encounter");
            return;
        }
        fs::read(q.join(HIST)).unwrap()
    };
    let _ = fs::remove_dir_all(&p);
    fs::create_dir_all(&p).unwrap();
    fs::write(p.join(CASE), serde_json::to_vec(&v).unwrap()).unwrap();
    let what = || format!("{} to {}", k.what(), tl);
    let r = exec(&p, &["start", CASE, SNAP, HIST, "--silent", "--limit", "1"], 0, "");
    c.ok("limit-start", r.fine(), || format!("{}: {}", what(), r.say()));
    let finished = fs::read(p.join(HIST)).map_or(false, |h| h == want);
    if finished && r.secs < 2.5 {
        // The machine was faster this time: nothing to stop.
        c.ev("done before the limit");
        return;
    }
    c.ok("limit-honoured", !finished, || format!("{}: went on to the end for {} s", what(), r.secs));
    c.ok("limit-not-early", r.secs >= 0.99, || format!("{}: {} s", what(), r.secs));
    let mut t = time_of(&p.join(SNAP)).unwrap_or(-1.);
    c.ok("limit-snapshot", t > 0., || format!("{}: snapshot at {}", what(), t));
    let h = fs::read(p.join(HIST)).unwrap();
    c.ok("limit-history-so-far", want.starts_with(&h), || what());
    let mut turns = 0;
    loop {
        turns += 1;
        let r = exec(&p, &["resume", SNAP, HIST, "--silent", "--limit", if turns > 1 { "2" } else { "1" }], 0, "");
        if !c.ok("limit-resume", r.fine(), || format!("{}: {}", what(), r.say())) {
            break;
        }
        let t2 = time_of(&p.join(SNAP)).unwrap_or(-1.);
        if fs::read(p.join(HIST)).unwrap() == want || turns > 30 {
            break;
        }
        if !c.ok("limit-progress", t2 > t, || format!("{}: snapshot at {} after {}", what(), t2, t)) {
            break;
        }
        t = t2;
    }
    same_history(c, "limit-history", &p, &want, what);
    c.sig(format!("{:?} n={} turns={}", k.kind, k.s.n(), turns));
    c.sample(|| format!("{}: {} times resumed", what(), turns));
}

/// The executable run twice on the same case leaves the same results (C25).
pub fn c25b(c: &mut Ctx) {
    let n = 5 + c.r.below(60);
    let snaps = 1 + c.r.below(3);
    let k = match make_case(c, n, snaps) {
        Some(k) => k,
        None => return,
    };
    let d = Dir::new(c, "c25b");
    let mut seen: Vec<(Vec<u8>, serde_json::Value, usize)> = vec![];
    for name in ["one", "a-second-directory-of-another-name"] {
        let p = fresh(&d, name, &k);
        let r = exec(&p, &START, 0, "");
        if !c.ok("executable-ends", r.fine(), || format!("{}: {}", k.what(), r.say())) {
            return;
        }
        c.ok("executable-silent", r.err.is_empty(), || format!("{}: {}", k.what(), r.say()));
        let f = files(&p);
        let hist = f.get(HIST).cloned().unwrap_or_default();
        let snap = match guard(|| output::restore_snapshot(&p.join(SNAP)).map(|i| tree(i.as_ref()))) {
            Ok(Ok(t)) => t,
            _ => serde_json::Value::Null,
        };
        seen.push((hist, snap, f.len()));
    }
    let (a, b) = (&seen[0], &seen[1]);
    c.ok("executable-repeats", a.0 == b.0, || format!("{}: histories of {} and {} bytes differ", k.what(), a.0.len(), b.0.len()));
    c.ok("executable-as-library", a.0 == k.expected(), || format!("{}: history of {} bytes is not that of the run in process", k.what(), a.0.len()));
    // The hash is taken from a text that lists maps in random order.
    let diff = tree_diff(&a.1, &b.1, 0., &["hash"], "");
    c.ok("executable-snapshot-repeats", diff.is_none(), || format!("{}: last snapshots differ at {:?}", k.what(), diff));
    c.ok("executable-files-repeat", a.2 == b.2, || format!("{}: {} and {} files", k.what(), a.2, b.2));
    let all = a.0.chunks_exact(8).len() > 0;
    c.ev(if all { "executable-recorded" } else { "executable-empty" });
    c.sig(format!("exe {} {:?} {}", k.name, k.kind, k.s.n()));
}
