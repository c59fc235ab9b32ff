//! P17, P18 and P20: the construction macros, the structures and the derive macro.
pub mod ast {
    use dot_structures as ds;
    include!("../../core/src/adapter.rs");
}
mod p17;
mod p18;
mod p20;
mod prog;

fn main() {
    let thorough = std::env::var("VERIF_TIER").as_deref() == Ok("thorough");
    let scale: u64 = std::env::var("VERIF_SCALE").ok().and_then(|s| s.parse().ok()).unwrap_or(100);
    let mut checks = vec![p17::check(), p18::check(), p20::check()];
    let args: Vec<String> = std::env::args().collect();
    let id = args.get(1).cloned().unwrap_or_default();
    if args.len() < 3 {
        if let Some(c) = checks.iter_mut().find(|c| c.id == id) {
            let n = (if thorough { c.subs[0].thorough } else { c.subs[0].quick }) * scale / 100;
            match id.as_str() {
                "P17" => p17::prepare_all(c, n),
                "P20" => p20::prepare_all(c, n),
                _ => {}
            }
        }
    }
    let code = vcore::runner::main_code(checks);
    prog::clean();
    std::process::exit(code);
}
