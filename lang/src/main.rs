use lang::checks;
fn main() {
    lang::helpers::maybe_child();
    vcore::runner::main(checks());
}
