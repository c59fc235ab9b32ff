//! Checks on parsing and printing: P01..P11, P19.
pub mod ast {
    use graphviz_rust::dot_structures as ds;
    include!("../../core/src/adapter.rs");
}
pub mod helpers;
pub mod parsing;
pub mod printing;
pub mod purity;
pub mod graphviz;
pub mod corpus;
pub mod growth;
pub mod rejecting;

pub fn checks() -> Vec<vcore::runner::Check> {
    let mut v = parsing::checks();
    v.extend(printing::checks());
    v.extend(graphviz::checks());
    v.extend(purity::checks());
    v.push(rejecting::check());
    v
}
