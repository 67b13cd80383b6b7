//! Framework: cases, verdicts, evidence.
use crate::util::*;
use serde::Serialize;
use std::cell::RefCell;
use std::collections::{BTreeMap, BTreeSet};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicUsize, Ordering};
use std::sync::Mutex;
use std::time::Instant;

#[derive(Clone, Debug, Serialize)]
pub struct Viol {
    /// Stable identification of what failed (matched against the known findings).
    pub key: String,
    pub msg: String,
    pub case: u64,
    pub detail: serde_json::Value,
}

pub struct Ctx {
    pub seed: u64,
    pub case: u64,
    pub thorough: bool,
    pub r: Rng,
    pub counts: BTreeMap<String, u64>,
    pub evals: u64,
    pub sigs: BTreeSet<String>,
    pub viols: Vec<Viol>,
    pub detail: serde_json::Value,
    pub samples: Vec<String>,
    pub maxima: BTreeMap<String, f64>,
}

impl Ctx {
    /// Count one evaluation of a monitor under a name.
    pub fn ev(&mut self, name: &str) {
        self.evals += 1;
        *self.counts.entry(name.to_string()).or_insert(0) += 1;
    }
    pub fn sig(&mut self, s: String) {
        self.sigs.insert(s);
    }
    pub fn fail(&mut self, key: &str, msg: String) {
        let d = self.detail.clone();
        self.viols.push(Viol { key: key.to_string(), msg, case: self.case, detail: d });
    }
    /// Monitor: `err` must not exceed `tol`.
    pub fn leq(&mut self, name: &str, err: f64, tol: f64, msg: impl Fn() -> String) -> bool {
        self.ev(name);
        let ratio = err / tol;
        let m = self.maxima.entry(name.to_string()).or_insert(0.);
        if ratio > *m || !ratio.is_finite() {
            *m = if ratio.is_finite() { ratio } else { 1e300 };
        }
        if err <= tol {
            true
        } else {
            let t = msg();
            self.fail(name, format!("{}: {:e} > {:e} {}", name, err, tol, t));
            false
        }
    }
    pub fn ok(&mut self, name: &str, cond: bool, msg: impl Fn() -> String) -> bool {
        self.ev(name);
        if !cond {
            let t = msg();
            self.fail(name, format!("{}: {}", name, t));
        }
        cond
    }
    /// Vectors equal to a relative tolerance (with an absolute scale).
    pub fn veq(&mut self, name: &str, got: V3, want: V3, scale: f64, tol: f64, what: impl Fn() -> String) -> bool {
        let err = (got - want).norm();
        let lim = tol * scale.max(want.norm());
        self.leq(name, if got.finite() { err } else { f64::INFINITY }, lim.max(1e-300), || format!("{} got {:?} want {:?}", what(), got, want))
    }
    pub fn sample(&mut self, f: impl Fn() -> String) {
        if self.samples.len() < 2 {
            let s = f();
            self.samples.push(s);
        }
    }
}

thread_local! {
    static LAST: RefCell<String> = RefCell::new(String::new());
}

pub fn install_hook() {
    std::panic::set_hook(Box::new(|info| {
        let msg = if let Some(s) = info.payload().downcast_ref::<&str>() {
            s.to_string()
        } else if let Some(s) = info.payload().downcast_ref::<String>() {
            s.clone()
        } else {
            "panic".to_string()
        };
        let loc = info.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        LAST.with(|l| *l.borrow_mut() = format!("{} [{}]", msg, loc));
    }));
}

/// Run something of the library, returning the panic message when it panics.
pub fn guard<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    catch_unwind(AssertUnwindSafe(f)).map_err(|_| LAST.with(|l| l.borrow().clone()))
}

/// A case takes seconds at most; after this time it is considered as never ending.
pub const STUCK: f64 = 400.;

pub type CaseFn = fn(&mut Ctx);

#[derive(Clone)]
pub struct Args {
    pub seed: u64,
    pub thorough: bool,
    pub case: Option<u64>,
    pub cases: Option<u64>,
    pub budget: f64,
    pub threads: usize,
}

#[derive(Clone, Serialize)]
pub struct Report {
    pub cases: u64,
    pub planned: u64,
    pub evaluations: u64,
    pub counts: BTreeMap<String, u64>,
    pub distinct: u64,
    pub signatures: Vec<String>,
    pub samples: Vec<String>,
    pub worst_ratio: BTreeMap<String, f64>,
    pub violations: Vec<Viol>,
    pub inconclusive: u64,
    pub wall_s: f64,
}

pub fn run(f: CaseFn, planned: u64, a: &Args) -> Report {
    let t0 = Instant::now();
    let next = AtomicUsize::new(0);
    let list: Vec<u64> = match a.case {
        Some(c) => vec![c],
        None => (0..a.cases.unwrap_or(planned)).collect(),
    };
    let a: &'static Args = Box::leak(Box::new(a.clone()));
    let list: &'static Vec<u64> = Box::leak(Box::new(list));
    let next: &'static AtomicUsize = Box::leak(Box::new(next));
    // Case and start of each worker; None when it has nothing more to do.
    let nw = a.threads.min(list.len()).max(1);
    let busy: &'static Vec<Mutex<Option<(u64, Instant)>>> = Box::leak(Box::new((0..nw).map(|_| Mutex::new(Some((u64::MAX, Instant::now())))).collect()));
    let out: &'static Mutex<Report> = Box::leak(Box::new(Mutex::new(Report {
        cases: 0,
        planned: list.len() as u64,
        evaluations: 0,
        counts: BTreeMap::new(),
        distinct: 0,
        signatures: vec![],
        samples: vec![],
        worst_ratio: BTreeMap::new(),
        violations: vec![],
        inconclusive: 0,
        wall_s: 0.,
    })));
    let sigs: &'static Mutex<BTreeSet<String>> = Box::leak(Box::new(Mutex::new(BTreeSet::new())));
    {
        let mut hs = vec![];
        for me in 0..nw {
            let b = std::thread::Builder::new().stack_size(1 << 29);
            hs.push(
                b.spawn(move || loop {
                    *busy[me].lock().unwrap() = None;
                    let k = next.fetch_add(1, Ordering::SeqCst);
                    if k >= list.len() || (a.case.is_none() && t0.elapsed().as_secs_f64() > a.budget) {
                        break;
                    }
                    let case = list[k];
                    *busy[me].lock().unwrap() = Some((case, Instant::now()));
                    let mut c = Ctx {
                        seed: a.seed,
                        case,
                        thorough: a.thorough,
                        r: Rng::stream(a.seed, case),
                        counts: BTreeMap::new(),
                        evals: 0,
                        sigs: BTreeSet::new(),
                        viols: vec![],
                        detail: serde_json::Value::Null,
                        samples: vec![],
                        maxima: BTreeMap::new(),
                    };
                    let res = guard(|| f(&mut c));
                    let mut inconclusive = 0;
                    if let Err(m) = res {
                        if m.contains("reference integrator") {
                            inconclusive = 1;
                        } else {
                            c.fail("panic", format!("unexpected panic: {}", m));
                        }
                    }
                    let mut o = out.lock().unwrap();
                    o.cases += 1;
                    o.inconclusive += inconclusive;
                    o.evaluations += c.evals;
                    for (k, v) in c.counts {
                        *o.counts.entry(k).or_insert(0) += v;
                    }
                    for (k, v) in c.maxima {
                        let e = o.worst_ratio.entry(k).or_insert(0.);
                        if v > *e {
                            *e = v;
                        }
                    }
                    if o.samples.len() < 8 {
                        o.samples.extend(c.samples);
                    }
                    if o.violations.len() < 200 {
                        o.violations.extend(c.viols);
                    }
                    sigs.lock().unwrap().extend(c.sigs);
                })
                .unwrap(),
            );
        }
        // Wait for the workers, leaving behind the ones that are stuck in a case.
        loop {
            std::thread::sleep(std::time::Duration::from_millis(20));
            let mut left = false;
            let mut stuck = vec![];
            for (h, b) in hs.iter().zip(busy) {
                if h.is_finished() {
                    continue;
                }
                match *b.lock().unwrap() {
                    Some((case, t)) if case != u64::MAX && t.elapsed().as_secs_f64() > STUCK => stuck.push(case),
                    _ => left = true,
                }
            }
            if !left {
                let mut o = out.lock().unwrap();
                for case in stuck {
                    o.violations.push(Viol { key: "does-not-end".into(), msg: format!("case {} has not ended after {} s", case, STUCK), case, detail: serde_json::Value::Null });
                }
                break;
            }
        }
    }
    let mut o = out.lock().unwrap().clone();
    let s = sigs.lock().unwrap().clone();
    o.distinct = s.len() as u64;
    o.signatures = s.into_iter().take(40).collect();
    o.violations.sort_by_key(|v| v.case);
    o.wall_s = t0.elapsed().as_secs_f64();
    o
}
