//! P18: the structures as values: growing, converting, comparing, hashing, cloning, showing.
use crate::ast::*;
use dot_structures as ds;
use std::collections::hash_map::DefaultHasher;
use std::hash::{Hash, Hasher};
use vcore::gen::{self, Cfg};
use vcore::model as m;
use vcore::runner::*;
use vcore::tape::{hash64, Src};

fn key(c: &mut Case, shown: String) {
    c.key = hash64(&[shown.as_bytes()]);
    c.sample = Some(shown);
}

fn cfg() -> Cfg {
    Cfg::built()
}

/// The statements of a graph, with what anonymous ids hold as well, through the Debug text.
fn stmts_of(g: &ds::Graph) -> &[ds::Stmt] {
    match g {
        ds::Graph::Graph { stmts, .. } | ds::Graph::DiGraph { stmts, .. } => stmts,
    }
}

/// a history of additions and clones of graphs and subgraphs, against plain lists
fn growth(src: &mut Src, c: &mut Case) -> Result<(), Fail> {
    let mut budget = 12;
    // every live graph with its model; subgraphs likewise
    let mut gs: Vec<(ds::Graph, m::Graph)> = vec![];
    let mut ss: Vec<(ds::Subgraph, m::Sub)> = vec![];
    let mut log = String::new();
    let first = m::Graph { strict: src.chance(50), di: src.chance(50), id: gen::id(src, &cfg()), stmts: if src.chance(50) { vec![] } else { gen::stmts(src, &cfg(), 2, &mut budget) } };
    log.push_str(&format!("start {first:?}\n"));
    gs.push((graph_of(&first), first));
    let first = m::Sub { id: gen::id(src, &cfg()), stmts: vec![] };
    ss.push((sub_of(&first), first));
    let n = 2 + src.count(8, 60);
    let mut adds = 0;
    for _ in 0..n {
        let mut b = 6;
        match src.weighted(&[6, 4, 2, 1, 2]) {
            0 => {
                let i = src.below(gs.len());
                let st = gen::stmt(src, &cfg(), 2, &mut b);
                log.push_str(&format!("graph {i} add {st:?}\n"));
                let (g, model) = &mut gs[i];
                let d = stmt_of(&st);
                if let Err(e) = guarded(|| g.add_stmt(d)) {
                    return fail(format!("add_stmt panics: {e}"), log);
                }
                model.stmts.push(st);
                adds += 1;
            }
            1 => {
                let i = src.below(ss.len());
                let st = gen::stmt(src, &cfg(), 2, &mut b);
                log.push_str(&format!("subgraph {i} add {st:?}\n"));
                let (s, model) = &mut ss[i];
                let d = stmt_of(&st);
                if let Err(e) = guarded(|| s.add_stmt(d)) {
                    return fail(format!("add_stmt panics: {e}"), log);
                }
                model.stmts.push(st);
                adds += 1;
            }
            2 => {
                let i = src.below(gs.len());
                log.push_str(&format!("clone graph {i}\n"));
                let x = gs[i].clone();
                gs.push(x);
                c.label("cloned");
            }
            3 => {
                let i = src.below(ss.len());
                log.push_str(&format!("clone subgraph {i}\n"));
                let x = ss[i].clone();
                ss.push(x);
                c.label("cloned");
            }
            _ => {
                // a subgraph as it stands becomes a statement of a graph
                let (i, j) = (src.below(ss.len()), src.below(gs.len()));
                log.push_str(&format!("subgraph {i} into graph {j}\n"));
                let (s, sm) = ss[i].clone();
                gs[j].0.add_stmt(s.into());
                gs[j].1.stmts.push(m::Stmt::Sub(sm));
                adds += 1;
                c.label("a grown subgraph added");
            }
        }
    }
    c.nontrivial = adds > 1;
    c.label_if(adds > 5, "more than five additions");
    for (i, (g, model)) in gs.iter().enumerate() {
        if graph_to(g) != *model || stmts_of(g).len() != model.stmts.len() {
            return fail(format!("graph {i} is {g:?} after the history, which should be {model:?}"), log);
        }
    }
    for (i, (s, model)) in ss.iter().enumerate() {
        if sub_to(s) != *model {
            return fail(format!("subgraph {i} is {s:?} after the history, which should be {model:?}"), log);
        }
    }
    key(c, log);
    Ok(())
}

fn stmt_of(s: &m::Stmt) -> ds::Stmt {
    match graph_of(&m::Graph { strict: false, di: true, id: m::Id::Plain("g".into()), stmts: vec![s.clone()] }) {
        ds::Graph::DiGraph { mut stmts, .. } => stmts.pop().unwrap(),
        _ => unreachable!(),
    }
}
fn sub_of(s: &m::Sub) -> ds::Subgraph {
    match stmt_of(&m::Stmt::Sub(s.clone())) {
        ds::Stmt::Subgraph(s) => s,
        _ => unreachable!(),
    }
}

fn conversions(src: &mut Src, c: &mut Case) -> Result<(), Fail> {
    let mut b = 10;
    let st = gen::stmt(src, &cfg(), 2, &mut b);
    key(c, format!("{st:?}"));
    c.nontrivial = true;
    let d = stmt_of(&st);
    let shown = format!("{d:?}");
    let back: ds::Stmt = match d {
        ds::Stmt::Node(n) => {
            // a node built through its constructor, and its id as a vertex
            let v: ds::Vertex = n.id.clone().into();
            if !matches!(&v, ds::Vertex::N(i) if format!("{i:?}") == format!("{:?}", n.id)) {
                return fail(format!("the node id {:?} becomes the vertex {v:?}", n.id), shown);
            }
            let made = ds::Node::new(n.id.clone(), n.attributes.clone());
            if format!("{made:?}") != format!("{n:?}") {
                return fail(format!("Node::new gives {made:?}"), shown);
            }
            c.label("node");
            made.into()
        }
        ds::Stmt::Edge(e) => {
            c.label("edge");
            e.into()
        }
        ds::Stmt::Attribute(a) => {
            c.label("attribute");
            a.into()
        }
        ds::Stmt::GAttribute(a) => {
            c.label("default attributes");
            a.into()
        }
        ds::Stmt::Subgraph(s) => {
            c.label("subgraph");
            let v: ds::Vertex = s.clone().into();
            if !matches!(&v, ds::Vertex::S(t) if format!("{t:?}") == format!("{s:?}")) {
                return fail(format!("the subgraph becomes the vertex {v:?}"), shown);
            }
            s.into()
        }
    };
    if format!("{back:?}") != shown {
        return fail(format!("converted into a statement it is {back:?}"), shown);
    }
    Ok(())
}

fn groups(src: &mut Src, c: &mut Case) -> Result<(), Fail> {
    let word = *src.pick(&["graph", "node", "edge"]);
    let mut name: String = word.chars().map(|ch| if src.chance(50) { ch.to_ascii_uppercase() } else { ch }).collect();
    let damaged = src.chance(50);
    if damaged {
        match src.weighted(&[2, 2, 2, 2, 2, 3]) {
            0 => name.insert(src.below(name.len() + 1), *src.pick(&['s', ' ', '_', 'e', '\n', '\u{0}'])),
            5 => {
                // one or two characters of any kind, anywhere
                for _ in 0..1 + src.below(2) {
                    let at = (0..=name.len()).filter(|i| name.is_char_boundary(*i)).collect::<Vec<_>>();
                    let ch = match src.below(4) {
                        0 => *src.pick(&['\u{200b}', '\u{feff}', '\u{301}', '\u{a0}', '\u{85}', '\u{2028}', 'é', 'ſ', 'ı', 'İ', 'K', '\u{ad}', '\u{10ffff}', '\r', '\t', '"', '\'', '<', '[', ':', '.', '-', '#', '/']),
                        1 => (src.below(128) as u8) as char,
                        _ => char::from_u32(0x80 + src.below(0x2f80) as u32).unwrap_or('ü'),
                    };
                    name.insert(*src.pick(&at), ch)
                }
            }
            1 => {
                name.remove(src.below(name.len()));
            }
            2 => name = src.pick(&["", "graphs", "digraph", "subgraph", "strict", "nodes", " node", "edge ", "ＥＤＧＥ", "nоde", "grаph", "\u{131}", "g", "attr", "edges", "Node!", "GRAPH\n"]).to_string(),
            3 => {
                let i = src.below(name.len());
                let ch = (b'a' + src.below(26) as u8) as char;
                name.replace_range(i..i + 1, &ch.to_string());
            }
            _ => name = gen::word(src, false),
        }
    }
    let meant = match name.to_ascii_lowercase().as_str() {
        "graph" => Some(m::GKind::Graph),
        "node" => Some(m::GKind::Node),
        "edge" => Some(m::GKind::Edge),
        _ => None,
    };
    let attrs = gen::attrs(src, &cfg());
    let shown = format!("GraphAttributes::new({name:?}, {attrs:?})");
    key(c, shown.clone());
    c.nontrivial = true;
    c.label(if meant.is_some() { "a group" } else { "refused" });
    let built: Vec<ds::Attribute> = ast_attrs(&attrs);
    match (guarded(|| ds::GraphAttributes::new(&name, built)), meant) {
        (Ok(g), Some(k)) if gattr_to(&g) == (k, attrs) => Ok(()),
        (Err(_), None) => Ok(()),
        (Ok(g), _) => fail(format!("the group is {g:?}"), shown),
        (Err(e), _) => fail(format!("it is refused: {e}"), shown),
    }
}

fn ast_attrs(a: &[m::Attr]) -> Vec<ds::Attribute> {
    match stmt_of(&m::Stmt::Node(m::NodeId { id: m::Id::Plain("n".into()), port: None }, a.to_vec())) {
        ds::Stmt::Node(n) => n.attributes,
        _ => unreachable!(),
    }
}

fn hash_of<T: Hash>(t: &T) -> u64 {
    let mut h = DefaultHasher::new();
    t.hash(&mut h);
    h.finish()
}

fn text_of(i: &ds::Id) -> String {
    match i {
        ds::Id::Html(s) => format!("html {s}"),
        ds::Id::Escaped(s) => format!("esc {s}"),
        ds::Id::Plain(s) => s.clone(),
        ds::Id::Anonymous(s) => format!("anon {s}"),
    }
}

fn id_drawn(src: &mut Src) -> ds::Id {
    let t = match src.weighted(&[3, 1, 1]) {
        0 => src.pick(&["a", "b", "ab", "", "\"a\"", "<a>", "esc a", "html a", "anon a", "é", "a\n", "{}"]).to_string(),
        1 => gen::word(src, false),
        _ => gen::quoted(src, &cfg()),
    };
    match src.draw(4) {
        0 => ds::Id::Html(t),
        1 => ds::Id::Escaped(t),
        2 => ds::Id::Plain(t),
        _ => ds::Id::Anonymous(t),
    }
}

/// identifiers, ports and node ids: equal exactly when spelled alike; equal ones hash alike
fn identifiers(src: &mut Src, c: &mut Case) -> Result<(), Fail> {
    fn port(src: &mut Src) -> ds::Port {
        ds::Port(if src.chance(50) { Some(id_drawn(src)) } else { None }, if src.chance(50) { Some(src.pick(&["n", "ne", "", "_"]).to_string()) } else { None })
    }
    fn node(src: &mut Src) -> ds::NodeId {
        ds::NodeId(id_drawn(src), if src.chance(50) { Some(port(src)) } else { None })
    }
    let x = node(src);
    let mut y = if src.chance(60) { x.clone() } else { node(src) };
    if src.chance(50) {
        match src.draw(4) {
            0 => y.0 = id_drawn(src),
            1 => y.1 = None,
            2 => y.1 = Some(port(src)),
            _ => {
                if let Some(p) = &mut y.1 {
                    p.1 = Some("s".into())
                }
            }
        }
    }
    key(c, format!("{x:?} {y:?}"));
    // the Debug text spells every part
    let same = format!("{x:?}") == format!("{y:?}");
    c.nontrivial = true;
    c.label(if same { "equal" } else { "different" });
    let shown = format!("{x:?}\n{y:?}");
    if (x == y) != same || (y == x) != same || (x != y) == same {
        return fail(format!("comparing gives {}", x == y), shown);
    }
    if (x.0 == y.0) != (format!("{:?}", x.0) == format!("{:?}", y.0)) || (x.1 == y.1) != (format!("{:?}", x.1) == format!("{:?}", y.1)) {
        return fail("parts compare wrongly", shown);
    }
    if same && (hash_of(&x) != hash_of(&y)) || x.0 == y.0 && hash_of(&x.0) != hash_of(&y.0) || x.1 == y.1 && hash_of(&x.1) != hash_of(&y.1) {
        return fail("equal values hash differently", shown);
    }
    let set: std::collections::HashSet<&ds::NodeId> = [&x, &y].into_iter().collect();
    if set.len() != if same { 1 } else { 2 } {
        return fail("a set of the two has the wrong size", shown);
    }
    if x.0.to_string() != text_of(&x.0) {
        return fail(format!("it is shown as {:?}, not {:?}", x.0.to_string(), text_of(&x.0)), shown);
    }
    Ok(())
}

/// change one thing, somewhere in a graph
fn change(src: &mut Src, g: &mut m::Graph) -> &'static str {
    fn in_id(src: &mut Src, i: &mut m::Id) {
        *i = match (&*i, src.draw(3)) {
            (m::Id::Plain(s), 0) => m::Id::Quoted(s.clone()),
            (m::Id::Quoted(s), 0) => m::Id::Plain(s.clone()),
            (m::Id::Html(s), 0) => m::Id::Quoted(s.clone()),
            (m::Id::Plain(s), _) => m::Id::Plain(format!("{s}x")),
            (m::Id::Quoted(s), _) => m::Id::Quoted(format!("{s} ")),
            (m::Id::Html(s), _) => m::Id::Html(format!("{s}x")),
            (m::Id::Anon, _) => m::Id::Plain(String::new()),
        }
    }
    fn in_attrs(src: &mut Src, a: &mut Vec<m::Attr>) {
        if a.is_empty() || src.chance(30) {
            let at = src.below(a.len() + 1);
            a.insert(at, m::Attr(m::Id::Plain("k".into()), m::Id::Plain("v".into())))
        } else {
            let i = src.below(a.len());
            match src.draw(3) {
                0 => in_id(src, &mut a[i].0),
                1 => in_id(src, &mut a[i].1),
                _ => {
                    a.remove(i);
                }
            }
        }
    }
    fn in_node(src: &mut Src, n: &mut m::NodeId) {
        match (&mut n.port, src.draw(4)) {
            (p @ None, 0) => *p = Some(m::Port { id: Some(m::Id::Plain("p".into())), compass: None }),
            (Some(p), 1) => p.compass = if p.compass.as_deref() == Some("n") && p.id.is_some() { None } else { Some("n".into()) },
            (p @ Some(_), 2) => *p = None,
            (Some(m::Port { id: Some(i), .. }), 3) => in_id(src, i),
            _ => in_id(src, &mut n.id),
        }
    }
    fn in_stmts(src: &mut Src, ss: &mut Vec<m::Stmt>) -> &'static str {
        if ss.is_empty() || src.chance(15) {
            let at = src.below(ss.len() + 1);
            ss.insert(at, m::Stmt::Attr(m::Attr(m::Id::Plain("k".into()), m::Id::Plain("v".into()))));
            return "a statement more";
        }
        let i = src.below(ss.len());
        if src.chance(10) {
            ss.remove(i);
            return "a statement less";
        }
        if ss.len() > 1 && src.chance(10) {
            let j = src.below(ss.len());
            ss.swap(i, j);
            return "two statements swapped";
        }
        match &mut ss[i] {
            m::Stmt::Node(n, a) => {
                if src.chance(50) {
                    in_node(src, n)
                } else {
                    in_attrs(src, a)
                }
                "a node"
            }
            m::Stmt::Edge(e) => match src.draw(5) {
                4 if e.vs.len() == 2 => {
                    e.pair = !e.pair;
                    "a pair or a chain of two"
                }
                0 => {
                    in_attrs(src, &mut e.attrs);
                    "an edge's attributes"
                }
                1 if e.vs.len() > 1 => {
                    let last = e.vs.len() - 1;
                    e.vs.swap(0, last);
                    "an edge turned round"
                }
                _ => {
                    let k = src.below(e.vs.len());
                    match &mut e.vs[k] {
                        m::Vertex::N(n) => in_node(src, n),
                        m::Vertex::S(s) => {
                            in_stmts(src, &mut s.stmts);
                        }
                    }
                    "a vertex"
                }
            },
            m::Stmt::Attr(a) => {
                if src.chance(50) {
                    in_id(src, &mut a.0)
                } else {
                    in_id(src, &mut a.1)
                }
                "an attribute"
            }
            m::Stmt::GAttr(k, a) => {
                if src.chance(50) {
                    *k = match k {
                        m::GKind::Graph => m::GKind::Node,
                        m::GKind::Node => m::GKind::Edge,
                        m::GKind::Edge => m::GKind::Graph,
                    }
                } else {
                    in_attrs(src, a)
                }
                "default attributes"
            }
            m::Stmt::Sub(s) => {
                if src.chance(30) {
                    in_id(src, &mut s.id);
                    "a subgraph's id"
                } else {
                    in_stmts(src, &mut s.stmts)
                }
            }
        }
    }
    match src.weighted(&[1, 1, 1, 8]) {
        0 => {
            g.strict = !g.strict;
            "strictness"
        }
        1 => {
            g.di = !g.di;
            "the kind of graph"
        }
        2 => {
            in_id(src, &mut g.id);
            "the id"
        }
        _ => in_stmts(src, &mut g.stmts),
    }
}

/// graphs are equal exactly when their parts are; clones are equal and independent
fn comparison(src: &mut Src, c: &mut Case) -> Result<(), Fail> {
    let cf = cfg().sized(src);
    let g = gen::graph(src, &cf);
    let mut h = g.clone();
    let changed = src.chance(75);
    if changed {
        let l = change(src, &mut h);
        c.label(l);
    }
    let same = g == h;
    c.label(if same { "equal" } else { "different" });
    c.nontrivial = !g.stmts.is_empty();
    key(c, format!("{g:?} / {h:?}"));
    let (x, y) = (graph_of(&g), graph_of(&h));
    let shown = format!("{x:?}\n{y:?}");
    if (x == y) != same || (y == x) != same || (x != y) == same {
        return fail(format!("comparing the graphs gives {}", x == y), shown);
    }
    // statement by statement
    for (a, b) in g.stmts.iter().zip(&h.stmts) {
        let (p, q) = (stmt_of(a), stmt_of(b));
        if (p == q) != (a == b) {
            return fail(format!("comparing the statements {p:?} and {q:?} gives {}", p == q), shown);
        }
    }
    let before = format!("{x:?}");
    let mut k = x.clone();
    if k != x || format!("{k:?}") != before {
        return fail(format!("the clone is {k:?}"), shown);
    }
    k.add_stmt(stmt_of(&m::Stmt::Attr(m::Attr(m::Id::Plain("k".into()), m::Id::Plain("v".into())))));
    if k == x || format!("{x:?}") != before {
        return fail("adding to a clone changes the original, or nothing", shown);
    }
    Ok(())
}

pub fn check() -> Check {
    Check {
        id: "P18",
        rule: "a case is a history of additions and clones, one element converted, one group name, a pair of node ids, or a pair of graphs that differ in at most one place; non-trivial: more than one addition, or a graph with a statement; distinct by the whole case",
        assumptions: vec!["the structures of /repo/dot-structures (the published crate the root package pulls in has the same source)"],
        subs: vec![
            Sub::random("histories", 150_000, 3_000_000, growth),
            Sub::random("conversions", 300_000, 4_000_000, conversions),
            Sub::random("groups of defaults", 500_000, 4_000_000, groups),
            Sub::random("identifiers", 1_000_000, 10_000_000, identifiers),
            Sub::random("comparisons", 300_000, 4_000_000, comparison),
        ],
    }
}
