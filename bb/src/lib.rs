//! Checks of the running program.
pub mod chain;
pub mod clients;
pub mod disk;
pub mod fail;
pub mod keep;
pub mod long;
pub mod reuse;
pub mod rpc;
pub mod run;
pub mod web;
pub mod wide;
use common::report::Check;

pub type F = fn(&Check);

pub const CHECKS: &[(&str, &str, F)] = &[
    ("C01", "exploration", chain::c01),
    ("C02", "exploration", chain::c02),
    ("C03", "exploration", chain::c03),
    ("C04", "exploration", chain::c04),
    ("C05", "exploration", chain::c05),
    ("C06", "exploration", chain::c06),
    ("C07", "exploration", chain::c07),
    ("C08", "fault_enumeration", disk::c08),
    ("C09", "exploration", disk::c09),
    ("C10", "exploration", disk::c10),
    // the in-process harness (ib) adds its own sections to these
    ("C11", "exploration", wide::c11),
    ("C12", "exploration", wide::c12),
    ("C17", "exploration", wide::c17),
    ("C19", "exploration", wide::c19),
    ("C20", "exploration", wide::c20),
    ("C13", "exploration", web::c13),
    ("C14", "exploration", web::c14),
    ("C15", "exploration", rpc::c15),
    ("C16", "exploration", rpc::c16),
    ("C18", "exploration", rpc::c18),
    ("C21", "exploration", rpc::c21),
    ("C22", "exploration", keep::c22),
    ("C23", "exploration", keep::c23),
    ("C24", "exploration", keep::c24),
    ("C25", "exploration", clients::c25),
    ("C26", "exploration", long::c26),
    ("C27", "exploration", reuse::c27),
    ("C28", "exploration", reuse::c28),
    ("C29", "exploration", reuse::c29),
    ("C30", "exploration", fail::c30),
    ("C31", "exploration", fail::c31),
];

pub fn main_with(checks: &[(&str, &str, F)]) -> ! {
    let args: Vec<String> = std::env::args().collect();
    let mut replay = None;
    let id = if args[1] == "replay" {
        let v: serde_json::Value = serde_json::from_slice(&std::fs::read(&args[2]).expect("replay file")).expect("replay file");
        replay = Some((v["section"].as_str().unwrap().to_string(), v["case"].clone()));
        v["property"].as_str().unwrap().to_string()
    } else {
        args[1].clone()
    };
    let (id, level, f) = checks.iter().find(|c| c.0 == id).expect("unknown property");
    let mut k = Check::new(id, level);
    k.replay = replay;
    // as many files as one may have
    unsafe {
        let mut l = libc::rlimit { rlim_cur: 0, rlim_max: 0 };
        libc::getrlimit(libc::RLIMIT_NOFILE, &mut l);
        l.rlim_cur = l.rlim_max;
        libc::setrlimit(libc::RLIMIT_NOFILE, &l);
    }
    f(&k);
    k.finish()
}
