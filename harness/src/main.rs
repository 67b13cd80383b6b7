#![allow(dead_code)]
mod consts;
mod drive;
mod fw;
mod phys;
mod sys;
mod tables;
mod util;
mod c_cli;
mod c_force;
mod c_misc;
mod c_newton;
mod c_py;
mod c_run;
mod c_safe;
mod c_snap;
mod c_sym;
mod c_traj;

use std::path::PathBuf;

fn main() {
    let mut it = std::env::args().skip(1);
    let what = it.next().expect("check");
    let mut a = fw::Args { seed: 1, thorough: false, case: None, cases: None, budget: 60., threads: 8 };
    let mut scratch = PathBuf::from(".");
    let mut out = PathBuf::from("result.json");
    while let Some(k) = it.next() {
        let v = it.next().expect("value");
        match k.as_str() {
            "--seed" => a.seed = v.parse().unwrap(),
            "--tier" => a.thorough = v == "thorough",
            "--case" => a.case = Some(v.parse().unwrap()),
            "--cases" => a.cases = Some(v.parse().unwrap()),
            "--budget" => a.budget = v.parse().unwrap(),
            "--threads" => a.threads = v.parse().unwrap(),
            "--scratch" => scratch = PathBuf::from(v),
            "--out" => out = PathBuf::from(v),
            _ => panic!("unknown option {}", k),
        }
    }
    let out = std::env::current_dir().unwrap().join(out);
    std::fs::create_dir_all(&scratch).unwrap();
    std::env::set_current_dir(&scratch).unwrap();
    tables::write_all(&std::env::current_dir().unwrap());
    fw::install_hook();
    let (f, quick, thorough): (fw::CaseFn, u64, u64) = match what.as_str() {
        "tables" => return,
        "C01" => (c_newton::c01, 400, 8000),
        "C02" => (c_newton::c02, 150, 3000),
        "C03" => (c_force::c03, 30000, 1500000),
        "C04" => (c_force::c04, 30000, 1500000),
        "C05" => (c_force::c05, 30000, 1500000),
        "C06" => (c_force::c06, 30000, 1500000),
        "C07" => (c_force::c07, 30000, 1500000),
        "C08" => (c_force::c08, 2000, 60000),
        "C09" => (c_force::c09, 30000, 1500000),
        "C10" => (c_force::c10, 30000, 1500000),
        "C11" => (c_force::c11, 30000, 1500000),
        "C12" => (c_force::c12, 3000, 100000),
        "C04T" => (c_traj::c04t, 300, 10000),
        "C06T" => (c_traj::c06t, 300, 10000),
        "C07T" => (c_traj::c07t, 300, 10000),
        "C08T" => (c_traj::c08t, 100, 2000),
        "C09T" => (c_traj::c09t, 300, 10000),
        "C10T" => (c_traj::c10t, 300, 10000),
        "C11T" => (c_traj::c11t, 300, 10000),
        "C03T" => (c_run::c03t, 200, 6000),
        "C05T" => (c_run::c05t, 200, 6000),
        "C12T" => (c_run::c12t, 200, 6000),
        "C13" => (c_run::c13, 400, 12000),
        "C18" => (c_sym::c18, 60000, 1500000),
        "C18T" => (c_sym::c18t, 1500, 30000),
        "C19" => (c_sym::c19, 600, 15000),
        "C20" => (c_misc::c20, 20000, 800000),
        "C20T" => (c_misc::c20t, 3000, 100000),
        "C21" => (c_misc::c21, 4000, 150000),
        "C22" => (c_misc::c22, 400000, 20000000),
        "C14" => (c_snap::c14, 1500, 40000),
        "C14B" => (c_cli::c14b, 800, 20000),
        "C15" => (c_cli::c15, 300, 6000),
        "C17" => (c_cli::c17, 800, 20000),
        "C17L" => (c_cli::c17l, 16, 120),
        "C25" => (c_safe::c25, 20000, 400000),
        "C25S" => (c_safe::c25s, 3000, 60000),
        "C25M" => (c_safe::c25m, 10, 60),
        "C25B" => (c_cli::c25b, 400, 8000),
        "C26" => (c_snap::c26, 3000, 100000),
        "C23G" => (c_py::c23g, 1200, 6000),
        "C23F" => (c_py::c23f, 120, 1000),
        "C16L" => (c_run::c16l, 10, 40),
        "C16" => (c_run::c16r, 4000, 60000),
        _ => panic!("unknown check {}", what),
    };
    let rep = fw::run(f, if a.thorough { thorough } else { quick }, &a);
    std::fs::write(out, serde_json::to_string_pretty(&rep).unwrap()).unwrap();
}
