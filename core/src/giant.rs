//! Graphs that are extreme in one dimension: counts and lengths around the sizes of machine types.
use crate::model::*;

const SIZES: [usize; 28] = [9, 10, 11, 16, 17, 24, 25, 31, 32, 33, 50, 51, 64, 65, 100, 101, 127, 128, 129, 255, 256, 257, 300, 1000, 1025, 4097, 32_769, 65_537];
const DEPTHS: [usize; 8] = [20, 32, 40, 64, 65, 100, 129, 150];
pub const KINDS: usize = 16;
pub const COUNT: usize = KINDS * SIZES.len();

fn p(s: impl Into<String>) -> Id {
    Id::Plain(s.into())
}
fn n(id: Id) -> NodeId {
    NodeId { id, port: None }
}
fn attrs(k: usize) -> Vec<Attr> {
    (0..k).map(|i| Attr(p(format!("k{i}")), p(format!("{i}")))).collect()
}

/// the k-th of COUNT graphs, and what it is
pub fn giant(k: usize) -> (String, Graph) {
    let kind = k % KINDS;
    let size = SIZES[k / KINDS % SIZES.len()];
    let deep = DEPTHS[k / KINDS % DEPTHS.len()];
    let di = k / KINDS % 2 == 0;
    let q = |s: &str| Id::Quoted(format!("\"{}\"", s.repeat(size)));
    let long = |v: usize| match v {
        0 => p("n".repeat(size)),
        1 => p(format!("1{}.5", "0".repeat(size - 3))),
        2 => q("x;"),
        3 => q("\\\""),
        4 => Id::Html(format!("<{}>", "<b>x</b>".repeat(size))),
        5 => p("\u{e9}".repeat(size)),
        _ => Id::Html(format!("<{}{}>", "<".repeat(size), ">".repeat(size))),
    };
    let nest = |edge: usize| {
        let mut ss = vec![Stmt::Node(n(p("core")), attrs(1))];
        for d in 0..deep {
            let id = if d % 3 == 0 { Id::Anon } else { p(format!("s{d}")) };
            let s = Sub { id, stmts: std::mem::take(&mut ss) };
            ss.push(match edge {
                0 => Stmt::Sub(s),
                1 => Stmt::Edge(Edge { pair: true, vs: vec![Vertex::N(n(p("a"))), Vertex::S(s)], attrs: vec![] }),
                2 => Stmt::Edge(Edge { pair: true, vs: vec![Vertex::S(s), Vertex::N(n(p("a")))], attrs: attrs(1) }),
                _ => Stmt::Edge(Edge { pair: false, vs: vec![Vertex::N(n(p("a"))), Vertex::S(s), Vertex::N(n(p("b")))], attrs: vec![] }),
            });
            if d % 4 == 1 {
                ss.push(Stmt::Attr(Attr(p("x"), p(format!("{d}")))))
            }
        }
        ss
    };
    let (what, stmts) = match kind {
        0 => (format!("{size} statements"), (0..size).map(|i| Stmt::Node(n(p(format!("n{i}"))), vec![])).collect()),
        1 => (format!("{size} attributes of a node"), vec![Stmt::Node(n(p("a")), attrs(size))]),
        2 => (
            format!("{size} attributes of an edge and of defaults"),
            vec![
                Stmt::Edge(Edge { pair: true, vs: vec![Vertex::N(n(p("a"))), Vertex::N(n(p("b")))], attrs: attrs(size) }),
                Stmt::GAttr(GKind::Edge, attrs(size)),
                Stmt::GAttr(GKind::Graph, attrs(size)),
            ],
        ),
        3 => (
            format!("a chain of {size} vertices"),
            vec![Stmt::Edge(Edge {
                pair: false,
                vs: (0..size).map(|i| if size % 4 == 1 && i % 7 == 3 { Vertex::S(Sub { id: Id::Anon, stmts: vec![] }) } else { Vertex::N(n(p(format!("n{i}")))) }).collect(),
                attrs: attrs(size % 3),
            })],
        ),
        4 => (
            format!("{size} subgraphs"),
            (0..size).map(|i| Stmt::Sub(Sub { id: if i % 2 == 0 { p(format!("s{i}")) } else { Id::Anon }, stmts: vec![Stmt::Node(n(p("a")), vec![])] })).collect(),
        ),
        5 => (format!("{size} edges"), (0..size).map(|i| Stmt::Edge(Edge { pair: true, vs: vec![Vertex::N(n(p(format!("n{i}")))), Vertex::N(n(p("b")))], attrs: attrs(i % 3) })).collect()),
        6..=9 => (format!("nesting {deep} of form {}", kind - 6), nest(kind - 6)),
        10 => (format!("attributes: {size} bare ones"), attrs(size).into_iter().map(Stmt::Attr).collect()),
        _ => {
            let mut ss = vec![];
            for v in [kind - 11, (kind - 11 + 5) % 7] {
                let i = long(v);
                ss.push(Stmt::Node(NodeId { id: i.clone(), port: Some(Port { id: Some(i.clone()), compass: Some("ne".into()) }) }, vec![Attr(i.clone(), p("x")), Attr(p("x"), i.clone())]));
                ss.push(Stmt::Sub(Sub { id: i.clone(), stmts: vec![Stmt::Attr(Attr(i.clone(), i))] }));
            }
            (format!("identifiers of length {size}, form {}", kind - 11), ss)
        }
    };
    let id = if k % 5 == 0 { Id::Anon } else { p("g") };
    (what, Graph { di, strict: k % 3 == 0, id, stmts })
}
