//! Answers one line per request: what this build of the library makes of it.
mod ast {
    use graphviz_rust::dot_structures as ds;
    include!("../../core/src/adapter.rs");
}
use ast::*;
use graphviz_rust::attributes as at;
use graphviz_rust::dot_generator::*;
use graphviz_rust::dot_structures as ds;
use graphviz_rust::dot_structures::*;
use graphviz_rust::into_attr::IntoAttribute;
use graphviz_rust::printer::{DotPrinter, PrinterContext};
use serde_json::{json, Value};
use std::io::{BufRead, Write};
use std::panic::{catch_unwind, AssertUnwindSafe};
use vcore::gen::{self, Cfg};
use vcore::refprint::{gen_opts, Opt, Opts};
use vcore::tape::Src;

fn context(o: &Opts) -> PrinterContext {
    let mut c = match &o.new {
        None => PrinterContext::default(),
        Some((semi, step, sep, size)) => PrinterContext::new(*semi, *step, sep.clone(), *size),
    };
    for x in &o.calls {
        match x {
            Opt::Inline => c.always_inline(),
            Opt::Semi => c.with_semi(),
            Opt::Mult => c.with_node_mult_attr_s_l(),
            Opt::NoComma => c.with_no_node_mult_attr_s_l_comma(),
            Opt::Step(n) => c.with_indent_step(*n),
            Opt::Sep(s) => c.with_line_sep(s.clone()),
            Opt::Size(n) => c.with_inline_size(*n),
        };
    }
    c
}

/// parse, what came of it, and its print
fn parsed(text: &str, src: &mut Src) -> String {
    match graphviz_rust::parse(text) {
        Err(e) => format!("rejected: {e}"),
        Ok(g) => {
            let o = gen_opts(src);
            let p = g.print(&mut context(&o));
            let again = graphviz_rust::parse(&p).map(|h| graph_to(&h) == graph_to(&g));
            format!("{:?}\n{p}\n{again:?}", graph_to(&g))
        }
    }
}

fn built(src: &mut Src) -> String {
    let g = gen::graph(src, &Cfg::built());
    let d = graph_of(&g);
    let o = gen_opts(src);
    let mut c = context(&o);
    let once = d.print(&mut c);
    let twice = d.print(&mut c);
    let back = graphviz_rust::parse(&once).map(|h| format!("{:?}", graph_to(&h)));
    format!("{d:?}\n{once}\n{}\n{back:?}", if once == twice { "the same twice".to_string() } else { twice })
}

fn word(src: &mut Src) -> String {
    match src.draw(3) {
        0 => gen::word(src, true),
        1 => gen::quoted(src, &Cfg::built()),
        _ => src.pick(&["", "a b", "é", "\"", "\\", "{}", "<b>", "x_"]).to_string(),
    }
}

/// what the helpers, macros and structures give
fn values(src: &mut Src) -> String {
    let mut out = vec![];
    for _ in 0..1 + src.count(4, 12) {
        let (a, b, c) = (word(src), word(src), word(src));
        let x = f32::from_bits(src.draw(1 << 32) as u32);
        let n = src.draw(1 << 32) as u32 as i32;
        out.push(match src.draw(24) {
            0 => format!("{:?}", at::NodeAttributes::label(a)),
            1 => format!("{:?}", at::EdgeAttributes::arrowhead(at::arrowhead::box_)),
            2 => format!("{:?}", at::EdgeAttributes::arrowtail(at::arrowtail::open)),
            3 => format!("{:?}", at::NodeAttributes::shape(at::shape::box_)),
            4 => format!("{:?}", at::GraphAttributes::nodesep(x)),
            5 => format!("{:?}", at::NodeAttributes::sides(n)),
            6 => format!("{:?}", at::GraphAttributes::center(n > 0)),
            7 => format!("{:?} {:?}", at::NodeAttributes::color(at::color_name::antiquewhite), at::color::default().into_attr()),
            8 => format!("{:?}", at::NodeAttributes::margin_separate(x, n as f32)),
            9 => format!("{:?} {:?}", at::shape::default().into_attr(), at::rank::same.into_attr()),
            10 => format!("{:?} {:?} {:?} {:?}", id!(), id!(a), id!(esc b), id!(html c)),
            11 => format!("{:?} {:?} {:?} {:?}", port!(), port!(, a), port!(id!(b)), port!(id!(esc b), c)),
            12 => format!("{:?} {:?} {:?}", node_id!(), node_id!(a), node_id!(esc b, port!(id!(c)))),
            13 => format!("{:?} {:?} {:?}", attr!(a, b), attr!(esc a, html b), attr!(a, esc c)),
            14 => format!("{:?} {:?}", GraphAttributes::new("Graph", vec![attr!(a, b), attr!(b, c)]), stmt!(GraphAttributes::new("edge", vec![attr!(a, c)]))),
            15 => format!("{:?} {:?} {:?}", node!(), node!(a; attr!(b, c)), node!(esc a => port!(id!(b), c), vec![attr!(b, c)])),
            16 => format!("{:?}", edge!(node_id!(a) => node_id!(b) => subgraph!(c); attr!(a, b))),
            17 => format!("{:?}", edge!(node_id!(a) => subgraph!(esc b; node!(c)); attr!(a, b), attr!(b, c))),
            18 => format!("{:?}", subgraph!(a, vec![stmt!(node!(b)), stmt!(attr!(b, c)), stmt!(GraphAttributes::new("node", vec![attr!(a, b)]))])),
            19 => format!("{:?} {:?}", graph!(strict di id!(a); node!(b), attr!(b, c)), graph!(id!(c), vec![stmt!(node!(a))])),
            20 => {
                let w = *src.pick(&["graph", "NODE", "Edge", "digraph", ""]);
                format!("{:?}", catch_unwind(|| GraphAttributes::new(w, vec![])).map_err(|_| "refused"))
            }
            21 => format!("{} {} {} {}", id!(), id!(a), id!(esc b), id!(html c)),
            22 => {
                let mut s = subgraph!(a);
                s.add_stmt(stmt!(node!(b)));
                let mut g = graph!(di id!(c));
                g.add_stmt(s.clone().into());
                g.add_stmt(stmt!(edge!(s => node_id!(a))));
                format!("{g:?} {}", g == g.clone())
            }
            _ => {
                use std::collections::HashSet;
                let h: HashSet<NodeId> = [node_id!(a), node_id!(b), node_id!(esc a), node_id!(a)].into_iter().collect();
                format!("{} {:?} {}", h.len(), ds::Node::new(node_id!(a), vec![]), id!(a) == id!(b))
            }
        });
    }
    out.join("\n")
}

fn main() {
    // the plain functions are there whether or not processes can be run
    #[cfg(feature = "exec")]
    let _ = graphviz_rust::exec_dot;
    std::panic::set_hook(Box::new(|_| {}));
    let answer = || {
        let stdin = std::io::stdin();
        let mut out = std::io::stdout();
        for l in stdin.lock().lines() {
            let Ok(l) = l else { break };
            let v: Value = serde_json::from_str(&l).expect("request");
            let tape: Vec<u64> = v["tape"].as_array().map(|t| t.iter().map(|x| x.as_u64().unwrap()).collect()).unwrap_or_default();
            let mut src = Src::replay(tape);
            let r = catch_unwind(AssertUnwindSafe(|| match v["op"].as_str() {
                Some("text") => parsed(v["text"].as_str().unwrap(), &mut src),
                Some("built") => built(&mut src),
                _ => values(&mut src),
            }));
            let r = r.unwrap_or_else(|_| "panic".to_string());
            let _ = writeln!(out, "{}", json!({ "r": r }));
            let _ = out.flush();
        }
    };
    std::thread::Builder::new().stack_size(64 << 20).spawn(answer).unwrap().join().unwrap()
}
