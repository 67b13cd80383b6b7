//! Synthetic stand-ins for the evolution tables (the repository does not ship `input/`), written to
//! the scratch directory in the format of the originals, and the reference interpolation of them.
use crate::sys::Evo;
use crate::util::*;
use crate::consts::{M2AU, R_SUN};
use std::collections::HashMap;
use std::fs;
use std::path::Path;
use std::sync::OnceLock;

pub const GB: [(f64, &str); 10] = [
    (0.3, "M_03_Z_0134.dat"), (0.4, "M_04_Z_0134.dat"), (0.6, "M_06_Z_0134.dat"), (0.7, "M_07_Z_0134.dat"), (0.8, "M_08_Z_0134.dat"),
    (0.9, "M_09_Z_0134.dat"), (1.0, "M_10_Z_0134.dat"), (1.1, "M_11_Z_0134.dat"), (1.2, "M_12_Z_0134.dat"), (1.4, "M_14_Z_0134.dat"),
];
pub const B15: [(f64, &str); 29] = [
    (0.010, "0010_Msun.dat"), (0.015, "0015_Msun.dat"), (0.020, "0020_Msun.dat"), (0.030, "0030_Msun.dat"), (0.040, "0040_Msun.dat"),
    (0.050, "0050_Msun.dat"), (0.060, "0060_Msun.dat"), (0.070, "0070_Msun.dat"), (0.072, "0072_Msun.dat"), (0.075, "0075_Msun.dat"),
    (0.080, "0080_Msun.dat"), (0.09, "0090_Msun.dat"), (0.11, "0110_Msun.dat"), (0.13, "0130_Msun.dat"), (0.15, "0150_Msun.dat"),
    (0.17, "0170_Msun.dat"), (0.20, "0200_Msun.dat"), (0.30, "0300_Msun.dat"), (0.40, "0400_Msun.dat"), (0.50, "0500_Msun.dat"),
    (0.60, "0600_Msun.dat"), (0.70, "0700_Msun.dat"), (0.80, "0800_Msun.dat"), (0.90, "0900_Msun.dat"), (1.00, "1000_Msun.dat"),
    (1.10, "1100_Msun.dat"), (1.20, "1200_Msun.dat"), (1.30, "1300_Msun.dat"), (1.40, "1400_Msun.dat"),
];
pub const L11: [(f64, &str); 12] = [
    (0.010, "mass_10.0000.dat"), (0.012, "mass_12.0000.dat"), (0.015, "mass_15.0000.dat"), (0.020, "mass_20.0000.dat"),
    (0.030, "mass_30.0000.dat"), (0.040, "mass_40.0000.dat"), (0.050, "mass_50.0000.dat"), (0.060, "mass_60.0000.dat"),
    (0.070, "mass_70.0000.dat"), (0.072, "mass_72.0000.dat"), (0.075, "mass_75.0000.dat"), (0.080, "mass_80.0000.dat"),
];
pub const B98: [(f64, &str); 2] = [(0.1, "01Msun.dat"), (1.0, "SRad_Spli_M-1_0000.dat")];
pub const BM: [(f64, &str); 12] = [
    (0.4, "L04Z02r.dat"), (0.5, "L05Z02r.dat"), (0.6, "L06Z02r.dat"), (0.7, "L07Z02r.dat"), (0.8, "L08Z02r.dat"), (0.9, "L09Z02r.dat"),
    (1.0, "L10Z02r.dat"), (1.1, "L11Z02r.dat"), (1.2, "L12Z02r.dat"), (1.3, "L13Z02r.dat"), (1.4, "L14Z02r.dat"), (1.5, "L15Z02r.dat"),
];

/// Table in physical units: age in days, radius in AU.
#[derive(Clone, Debug, Default)]
pub struct Tab {
    pub age: Vec<f64>,
    pub radius: Vec<f64>,
    pub rg2: Option<Vec<f64>>,
    pub love: Option<Vec<f64>>,
    pub invq: Option<Vec<f64>>,
}

fn interp(x: f64, xs: &[f64], ys: &[f64]) -> f64 {
    let n = xs.len();
    if x <= xs[0] {
        return ys[0];
    }
    if x >= xs[n - 1] {
        return ys[n - 1];
    }
    let mut k = 0;
    while xs[k + 1] < x {
        k += 1;
    }
    let f = (x - xs[k]) / (xs[k + 1] - xs[k]);
    ys[k] * (1. - f) + ys[k + 1] * f
}

impl Tab {
    pub fn radius(&self, age: f64) -> f64 {
        interp(age, &self.age, &self.radius)
    }
    pub fn rg2(&self, age: f64) -> Option<f64> {
        self.rg2.as_ref().map(|y| interp(age, &self.age, y))
    }
    pub fn love(&self, age: f64) -> Option<f64> {
        self.love.as_ref().map(|y| interp(age, &self.age, y))
    }
    pub fn invq(&self, age: f64) -> Option<f64> {
        self.invq.as_ref().map(|y| interp(age, &self.age, y))
    }
}

static TABS: OnceLock<HashMap<String, Tab>> = OnceLock::new();

fn key(e: Evo) -> String {
    let near = |list: &[(f64, &str)], m: f64| {
        list.iter().find(|(x, _)| (x - m).abs() < 1.01e-3 * x.max(0.1)).map(|(_, f)| f.to_string()).unwrap_or_default()
    };
    match e {
        Evo::None => String::new(),
        Evo::GalletBolmont2017(m) => format!("Gallet_Bolmont_2017/{}", near(&GB, m)),
        Evo::BolmontMathis2016(m) => format!("Bolmont_Mathis_2016/{}", near(&BM, m)),
        Evo::Baraffe2015(m) => format!("Baraffe_2015/{}", near(&B15, m)),
        Evo::Leconte2011(m) => format!("Leconte_2011/{}", near(&L11, m)),
        Evo::Baraffe1998(m) => format!("Baraffe_1998/{}", near(&B98, m)),
        Evo::LeconteChabrier2013(_) => "Leconte_Chabrier_2013/Jupiter.dat".to_string(),
    }
}

/// Table of a model, or None when it does not evolve.
pub fn tab(e: Evo) -> Option<Tab> {
    if e == Evo::None {
        return None;
    }
    let mut t = TABS.get().expect("tables not written").get(&key(e)).unwrap_or_else(|| panic!("no table for {:?}", e)).clone();
    if e == Evo::LeconteChabrier2013(false) {
        t.invq = None;
    }
    Some(t)
}

pub fn span(e: Evo) -> (f64, f64) {
    let t = tab(e).unwrap();
    (t.age[0], t.age[t.age.len() - 1])
}

pub fn random_evo(r: &mut Rng) -> Evo {
    match r.below(7) {
        0 => Evo::GalletBolmont2017(r.pick(&GB).0),
        1 => Evo::BolmontMathis2016(r.pick(&BM).0),
        2 => Evo::Baraffe2015(r.pick(&B15).0),
        3 => Evo::Leconte2011(r.pick(&L11).0),
        4 => Evo::Baraffe1998(r.pick(&B98).0),
        5 => Evo::LeconteChabrier2013(true),
        _ => Evo::LeconteChabrier2013(false),
    }
}

pub fn all_evo() -> Vec<Evo> {
    let mut v = vec![Evo::LeconteChabrier2013(true), Evo::LeconteChabrier2013(false)];
    v.extend(GB.iter().map(|x| Evo::GalletBolmont2017(x.0)));
    v.extend(BM.iter().map(|x| Evo::BolmontMathis2016(x.0)));
    v.extend(B15.iter().map(|x| Evo::Baraffe2015(x.0)));
    v.extend(L11.iter().map(|x| Evo::Leconte2011(x.0)));
    v.extend(B98.iter().map(|x| Evo::Baraffe1998(x.0)));
    v
}

/// Random walk between lo and hi.
fn walk(r: &mut Rng, n: usize, lo: f64, hi: f64) -> Vec<f64> {
    let mut v = r.uni(lo, hi);
    (0..n)
        .map(|_| {
            v += r.uni(-0.15, 0.15) * (hi - lo);
            v = v.max(lo).min(hi);
            if v == lo || v == hi {
                v = r.uni(lo, hi);
            }
            v
        })
        .collect()
}

fn ages(r: &mut Rng, n: usize) -> Vec<f64> {
    // years
    let mut t = r.uni(2., 30.);
    (0..n)
        .map(|_| {
            t += r.log(0.01, 0.5);
            t
        })
        .collect()
}

/// The interpreter finds the files written by the native program: it needs only the numbers.
macro_rules! txt {
    ($f:literal $(, $e:expr)*) => {{
        if cfg!(miri) {
            $(let _ = &$e;)*
            String::new()
        } else {
            format!($f $(, $e)*)
        }
    }};
}

/// Write all tables below `dir/input` and remember their content. Deterministic.
pub fn write_all(dir: &Path) {
    let inp = dir.join("input");
    let mut tabs = HashMap::new();
    let put = |name: &str, text: String| {
        if cfg!(miri) && inp.join("empty.dat").exists() {
            return;
        }
        let p = inp.join(name);
        fs::create_dir_all(p.parent().unwrap()).unwrap();
        fs::write(p, text).unwrap();
    };
    put("empty.dat", String::new());
    let mk = |name: &str| Rng::new(hash64(name));
    for (_, f) in GB.iter() {
        let name = format!("Gallet_Bolmont_2017/{}", f);
        let mut r = mk(&name);
        let n = r.int(30, 80);
        let (ag, rad, q) = (ages(&mut r, n), walk(&mut r, n, 0.3, 2.5), walk(&mut r, n, 2., 5.));
        let mut text = String::new();
        let mut t = Tab { invq: Some(vec![]), ..Tab::default() };
        for i in 0..n {
            let lg = ag[i].log10();
            text += &txt!("{:?} {:?} {:?} {:?}", lg, r.uni(1., 9.), r.uni(1., 9.), rad[i]);
            for _ in 4..10 {
                text += &txt!(" {:?}", r.uni(1., 9.));
            }
            text += &txt!(" {:?} {:?}\n", q[i], r.uni(1., 9.));
            t.age.push(10f64.powf(lg) * 365.25);
            t.radius.push(rad[i] * R_SUN);
            t.invq.as_mut().unwrap().push(1. / 10f64.powf(q[i]));
        }
        put(&name, text);
        tabs.insert(name, t);
    }
    for (_, f) in B15.iter() {
        let name = format!("Baraffe_2015/{}", f);
        let mut r = mk(&name);
        let n = r.int(30, 80);
        let (ag, rad, rg2) = (ages(&mut r, n), walk(&mut r, n, 0.1, 2.), walk(&mut r, n, 0.05, 0.3));
        let mut text = String::from("age mass radius rg2\n");
        let mut t = Tab { rg2: Some(rg2.clone()), ..Tab::default() };
        for i in 0..n {
            text += &txt!("{:?} {:?} {:?} {:?} {:?}\n", ag[i], r.uni(1., 9.), rad[i], rg2[i], r.uni(1., 9.));
            t.age.push(ag[i] * 365.25);
            t.radius.push(rad[i] * R_SUN);
        }
        put(&name, text);
        tabs.insert(name, t);
    }
    // Leconte 2011 with the auxiliary table of gyration radii.
    let mut ra = mk("rg2BD");
    let na = 50;
    let aux_age: Vec<f64> = {
        let mut a = 20.;
        (0..na)
            .map(|_| {
                a += ra.log(0.05, 0.8);
                a
            })
            .collect()
    };
    let aux: Vec<Vec<f64>> = (0..12).map(|_| walk(&mut ra, na, 0.1, 0.3)).collect();
    let mut text = String::new();
    for i in 0..na {
        text += &txt!("{:?}", aux_age[i]);
        for c in &aux {
            text += &txt!(" {:?}", c[i]);
        }
        text += "\n";
    }
    put("Leconte_2011/rg2BD.dat", text);
    for (k, (_, f)) in L11.iter().enumerate() {
        let name = format!("Leconte_2011/{}", f);
        let mut r = mk(&name);
        let mut ag = vec![];
        let mut a = r.uni(17., 19.);
        while a < aux_age[na - 1] + 2. {
            a += r.log(0.02, 0.6);
            ag.push(a);
        }
        let n = ag.len();
        let rad = walk(&mut r, n, 0.08, 0.4);
        let mut text = String::new();
        let mut t = Tab { rg2: Some(vec![]), ..Tab::default() };
        for i in 0..n {
            text += &txt!("{:?} {:?} {:?}\n", ag[i], rad[i], r.uni(1., 9.));
            if ag[i] >= aux_age[0] && ag[i] <= aux_age[na - 1] {
                t.age.push(ag[i] * 365.25);
                t.radius.push(rad[i] * R_SUN);
                let g = interp(ag[i], &aux_age, &aux[k]);
                t.rg2.as_mut().unwrap().push((g * 1e7 + 0.5).floor() / 1e7);
            }
        }
        put(&name, text);
        tabs.insert(name, t);
    }
    for (k, (_, f)) in B98.iter().enumerate() {
        let name = format!("Baraffe_1998/{}", f);
        let mut r = mk(&name);
        let n = r.int(30, 80);
        let unit = if k == 0 { 1. } else { 6.957e8 };
        let (ag, rad) = (ages(&mut r, n), walk(&mut r, n, 0.1 * unit, 1.5 * unit));
        let mut text = String::new();
        let mut t = Tab::default();
        for i in 0..n {
            text += &txt!("{:?} {:?} {:?}\n", ag[i], rad[i], r.uni(1., 9.));
            t.age.push(ag[i] * 365.25);
            t.radius.push(rad[i] * if k == 0 { R_SUN } else { M2AU });
        }
        put(&name, text);
        tabs.insert(name, t);
    }
    for (_, f) in BM.iter() {
        let name = format!("Bolmont_Mathis_2016/{}", f);
        let mut r = mk(&name);
        let n = r.int(30, 80);
        let (ag, rad) = (ages(&mut r, n), walk(&mut r, n, 0.3, 2.));
        let q: Vec<f64> = (0..n).map(|_| r.log(1e-5, 1e-2)).collect();
        let mut text = String::from("age radius invq\n");
        let mut t = Tab { invq: Some(q.clone()), ..Tab::default() };
        for i in 0..n {
            text += &txt!("{:?} {:?} {:?} {:?}\n", ag[i], rad[i], q[i], r.uni(1., 9.));
            t.age.push(ag[i] * 365.25);
            t.radius.push(rad[i] * R_SUN);
        }
        put(&name, text);
        tabs.insert(name, t);
    }
    {
        let name = "Leconte_Chabrier_2013/Jupiter.dat".to_string();
        let mut r = mk(&name);
        let n = 70;
        let (ag, rad) = (ages(&mut r, n), walk(&mut r, n, 6e7, 1.2e8));
        let (lv, rg2) = (walk(&mut r, n, 0.2, 0.6), walk(&mut r, n, 0.2, 0.3));
        let q: Vec<f64> = (0..n).map(|_| r.log(1e-5, 1e-2)).collect();
        let mut text = String::new();
        let mut t = Tab { rg2: Some(rg2.clone()), love: Some(lv.clone()), invq: Some(q.clone()), ..Tab::default() };
        for i in 0..n {
            text += &txt!("{:?} {:?} {:?} {:?} {:?} {:?}\n", ag[i], rad[i], lv[i], rg2[i], r.uni(1., 9.), q[i]);
            t.age.push(ag[i] * 365.25);
            t.radius.push(rad[i] * M2AU);
        }
        put(&name, text);
        tabs.insert(name, t);
    }
    let _ = TABS.set(tabs);
}
