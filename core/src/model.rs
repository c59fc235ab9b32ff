//! The harness's own description of a DOT graph, independent of the code under test.

#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub enum Id {
    Plain(String),
    /// with its quotes
    Quoted(String),
    /// with its angle brackets
    Html(String),
    Anon,
}

#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub struct Port {
    pub id: Option<Id>,
    pub compass: Option<String>,
}

#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub struct NodeId {
    pub id: Id,
    pub port: Option<Port>,
}

#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub struct Attr(pub Id, pub Id);

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum GKind {
    Graph,
    Node,
    Edge,
}

impl GKind {
    pub fn word(self) -> &'static str {
        match self {
            GKind::Graph => "graph",
            GKind::Node => "node",
            GKind::Edge => "edge",
        }
    }
}

#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub enum Vertex {
    N(NodeId),
    S(Sub),
}

#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub struct Sub {
    pub id: Id,
    pub stmts: Vec<Stmt>,
}

#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub struct Edge {
    /// a pair: exactly two vertices held as a pair, not as a chain
    pub pair: bool,
    pub vs: Vec<Vertex>,
    pub attrs: Vec<Attr>,
}

#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub enum Stmt {
    Node(NodeId, Vec<Attr>),
    Edge(Edge),
    Attr(Attr),
    GAttr(GKind, Vec<Attr>),
    Sub(Sub),
}

#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub struct Graph {
    pub di: bool,
    pub strict: bool,
    pub id: Id,
    pub stmts: Vec<Stmt>,
}

pub const COMPASS: [&str; 10] = ["n", "ne", "e", "se", "s", "sw", "w", "nw", "c", "_"];
pub const KEYWORDS: [&str; 6] = ["graph", "digraph", "subgraph", "node", "edge", "strict"];

pub fn is_keyword(s: &str) -> bool {
    KEYWORDS.iter().any(|k| k.eq_ignore_ascii_case(s))
}

/// Facts about a graph, used to classify cases.
#[derive(Default, Debug, Clone)]
pub struct Facts {
    pub stmts: usize,
    pub depth: usize,
    pub edges: usize,
    pub chains: usize,
    pub sub_in_edge: usize,
    pub edge_starts_with_sub: usize,
    pub anon_subs: usize,
    pub named_subs: usize,
    pub ports: usize,
    pub attrs: usize,
    pub multi_attr_lists: usize,
    pub gattrs: usize,
    pub empty_gattrs: usize,
    pub bare: usize,
    pub quoted: usize,
    pub html: usize,
    pub numerals: usize,
    pub nonascii: usize,
    pub ids: usize,
}

impl Graph {
    pub fn facts(&self) -> Facts {
        let mut f = Facts::default();
        fid(&self.id, &mut f);
        fstmts(&self.stmts, 1, &mut f);
        f
    }
}
fn fid(i: &Id, f: &mut Facts) {
    f.ids += 1;
    match i {
        Id::Quoted(s) | Id::Html(s) | Id::Plain(s) => {
            if !s.is_ascii() {
                f.nonascii += 1
            }
        }
        Id::Anon => {}
    }
    match i {
        Id::Quoted(_) => f.quoted += 1,
        Id::Html(_) => f.html += 1,
        Id::Plain(s) if s.starts_with(|c: char| c.is_ascii_digit() || c == '.' || c == '-') => f.numerals += 1,
        _ => {}
    }
}
fn fattrs(a: &[Attr], f: &mut Facts) {
    f.attrs += a.len();
    if a.len() > 1 {
        f.multi_attr_lists += 1
    }
    for x in a {
        fid(&x.0, f);
        fid(&x.1, f);
    }
}
fn fnode(n: &NodeId, f: &mut Facts) {
    fid(&n.id, f);
    if let Some(p) = &n.port {
        f.ports += 1;
        if let Some(i) = &p.id {
            fid(i, f)
        }
    }
}
fn fsub(s: &Sub, d: usize, f: &mut Facts) {
    if s.id == Id::Anon {
        f.anon_subs += 1
    } else {
        f.named_subs += 1;
        fid(&s.id, f)
    }
    fstmts(&s.stmts, d + 1, f)
}
fn fstmts(ss: &[Stmt], d: usize, f: &mut Facts) {
    f.depth = f.depth.max(d);
    for s in ss {
        f.stmts += 1;
        match s {
            Stmt::Node(n, a) => {
                fnode(n, f);
                fattrs(a, f)
            }
            Stmt::Edge(e) => {
                f.edges += 1;
                if e.vs.len() > 2 {
                    f.chains += 1
                }
                if matches!(e.vs.first(), Some(Vertex::S(_))) {
                    f.edge_starts_with_sub += 1
                }
                for v in &e.vs {
                    match v {
                        Vertex::N(n) => fnode(n, f),
                        Vertex::S(s) => {
                            f.sub_in_edge += 1;
                            fsub(s, d, f)
                        }
                    }
                }
                fattrs(&e.attrs, f)
            }
            Stmt::Attr(a) => {
                f.bare += 1;
                fid(&a.0, f);
                fid(&a.1, f)
            }
            Stmt::GAttr(_, a) => {
                f.gattrs += 1;
                if a.is_empty() {
                    f.empty_gattrs += 1
                }
                fattrs(a, f)
            }
            Stmt::Sub(s) => fsub(s, d, f),
        }
    }
}

/// The identifiers of a graph, for walking over them.
pub fn each_stmt<'a>(ss: &'a [Stmt], f: &mut dyn FnMut(&'a Stmt)) {
    for s in ss {
        f(s);
        match s {
            Stmt::Sub(x) => each_stmt(&x.stmts, f),
            Stmt::Edge(e) => {
                for v in &e.vs {
                    if let Vertex::S(x) = v {
                        each_stmt(&x.stmts, f)
                    }
                }
            }
            _ => {}
        }
    }
}

/// the attributes of a graph in order of appearance
pub fn each_attr<'a>(ss: &'a [Stmt], f: &mut dyn FnMut(&'a Attr)) {
    for s in ss {
        match s {
            Stmt::Node(_, a) | Stmt::GAttr(_, a) => a.iter().for_each(&mut *f),
            Stmt::Attr(a) => f(a),
            Stmt::Sub(x) => each_attr(&x.stmts, f),
            Stmt::Edge(e) => {
                for v in &e.vs {
                    if let Vertex::S(x) = v {
                        each_attr(&x.stmts, f)
                    }
                }
                e.attrs.iter().for_each(&mut *f)
            }
        }
    }
}

/// the same graph with every identifier replaced
pub fn map_ids(g: &Graph, f: &mut dyn FnMut(&Id) -> Id) -> Graph {
    fn attrs(a: &[Attr], f: &mut dyn FnMut(&Id) -> Id) -> Vec<Attr> {
        a.iter().map(|a| Attr(f(&a.0), f(&a.1))).collect()
    }
    fn node(n: &NodeId, f: &mut dyn FnMut(&Id) -> Id) -> NodeId {
        NodeId { id: f(&n.id), port: n.port.as_ref().map(|p| Port { id: p.id.as_ref().map(&mut *f), compass: p.compass.clone() }) }
    }
    fn sub(s: &Sub, f: &mut dyn FnMut(&Id) -> Id) -> Sub {
        Sub { id: f(&s.id), stmts: stmts(&s.stmts, f) }
    }
    fn stmts(ss: &[Stmt], f: &mut dyn FnMut(&Id) -> Id) -> Vec<Stmt> {
        ss.iter()
            .map(|s| match s {
                Stmt::Node(n, a) => Stmt::Node(node(n, f), attrs(a, f)),
                Stmt::GAttr(k, a) => Stmt::GAttr(*k, attrs(a, f)),
                Stmt::Attr(a) => Stmt::Attr(Attr(f(&a.0), f(&a.1))),
                Stmt::Sub(x) => Stmt::Sub(sub(x, f)),
                Stmt::Edge(e) => Stmt::Edge(Edge {
                    pair: e.pair,
                    vs: e
                        .vs
                        .iter()
                        .map(|v| match v {
                            Vertex::N(n) => Vertex::N(node(n, f)),
                            Vertex::S(x) => Vertex::S(sub(x, f)),
                        })
                        .collect(),
                    attrs: attrs(&e.attrs, f),
                }),
            })
            .collect()
    }
    Graph { di: g.di, strict: g.strict, id: f(&g.id), stmts: stmts(&g.stmts, f) }
}

/// the identifier with a number to its name, where it has a name
pub fn with_number(i: &Id, number: &str) -> Id {
    match i {
        Id::Plain(s) if !is_keyword(s) && s.starts_with(|c: char| c == '_' || c.is_alphabetic()) => Id::Plain(format!("{s}{number}")),
        Id::Quoted(s) if s.len() > 1 => Id::Quoted(format!("{}{number}\"", &s[..s.len() - 1])),
        _ => i.clone(),
    }
}
