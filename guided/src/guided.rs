//! Coverage-guided search: the generated inputs of a property's random sub-checks, their choices
//! drawn from the bytes libFuzzer mutates. The first byte selects the sub-check.
#![no_main]
use libfuzzer_sys::fuzz_target;
use std::sync::OnceLock;
use vcore::runner::{guided_subs, Case, Check};
use vcore::tape::Src;

static CHECK: OnceLock<Check> = OnceLock::new();

fuzz_target!(init: {
    vcore::runner::install_hook();
    let id = std::env::var("VERIF_CHECK").expect("VERIF_CHECK");
    let _ = CHECK.set(lang::checks().into_iter().find(|c| c.id == id).expect("check"));
}, |data: &[u8]| {
    let check = CHECK.get().unwrap();
    let subs = guided_subs(check);
    let Some((first, rest)) = data.split_first() else { return };
    let sub = subs[*first as usize % subs.len()];
    let mut c = Case::default();
    if let Err(f) = (sub.f)(&mut Src::bytes(rest), &mut c) {
        if f.sig.is_empty() {
            eprintln!("{}: {}", sub.name, f.msg);
            std::process::abort()
        }
    }
});
