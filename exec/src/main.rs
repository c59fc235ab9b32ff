//! Checks on running dot: P12..P15. The same program is the stand-in for dot when it is called by
//! that name, and the child process in which faults of the environment are set up.
mod checks;
mod child;
mod retained;
mod scratch;
mod standin;

#[global_allocator]
static ALLOCATOR: retained::Counting = retained::Counting;

fn main() {
    let mut args = std::env::args_os();
    let me = args.next().unwrap_or_default();
    if std::path::Path::new(&me).file_name().is_some_and(|n| n == "dot") {
        standin::run();
    }
    if args.next().is_some_and(|a| a == "--child") {
        child::run(&args.next().expect("spec"));
    }
    let code = scratch::with_scratch(|| {
        let mut all = checks::checks();
        all.push(retained::check());
        vcore::runner::main_code(all)
    });
    std::process::exit(code)
}
