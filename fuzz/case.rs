//! Coverage-guided search over the same cases as the harness: libFuzzer's bytes are the choices of one suite's generator,
//! FUZZ_CASE=<property>/<suite> selects it.
#![no_main]
#![allow(clippy::all, dead_code)]
#[path = "../harness/src/amodel.rs"]
mod amodel;
#[path = "../harness/src/isa.rs"]
mod isa;
#[path = "../harness/src/pbt.rs"]
#[macro_use]
mod pbt;
#[path = "../harness/src/progs.rs"]
mod progs;
#[path = "../harness/src/props/mod.rs"]
mod props;
#[path = "../harness/src/refsim.rs"]
mod refsim;
#[path = "../harness/src/rig.rs"]
mod rig;

use std::sync::LazyLock;

static SUITE: LazyLock<(pbt::Suite, Vec<String>)> = LazyLock::new(|| {
    pbt::install_hook();
    let sel = std::env::var("FUZZ_CASE").expect("FUZZ_CASE");
    let (id, name) = sel.split_once('/').expect("FUZZ_CASE=<property>/<suite>");
    let p = props::all().into_iter().find(|p| p.id == id).expect("property");
    let known = std::env::var("VERIF_ROOT").map(|r| pbt::load_known(&format!("{r}/KNOWN_FINDINGS.txt"))).unwrap_or_default();
    let known = known.into_iter().filter(|k| k.property == id).map(|k| k.sig).collect();
    (p.suites.into_iter().find(|s| s.name == name).expect("suite"), known)
});

libfuzzer_sys::fuzz_target!(|data: &[u8]| {
    let (s, known) = &*SUITE;
    if let Some((_, f)) = pbt::fuzz_case(s, data) {
        if !known.contains(&f.sig) {
            eprintln!("[{}] {}", f.sig, f.msg);
            std::process::abort();
        }
    }
});
