// Included by the harness crates: conversion between the harness's model and the dot_structures
// types in scope as `ds`.
use vcore::model as m;

pub fn id_to(i: &ds::Id) -> m::Id {
    match i {
        ds::Id::Plain(s) => m::Id::Plain(s.clone()),
        ds::Id::Escaped(s) => m::Id::Quoted(s.clone()),
        ds::Id::Html(s) => m::Id::Html(s.clone()),
        ds::Id::Anonymous(_) => m::Id::Anon,
    }
}
pub fn attr_to(a: &ds::Attribute) -> m::Attr {
    m::Attr(id_to(&a.0), id_to(&a.1))
}
pub fn attrs_to(a: &[ds::Attribute]) -> Vec<m::Attr> {
    a.iter().map(attr_to).collect()
}
pub fn port_to(p: &ds::Port) -> m::Port {
    m::Port { id: p.0.as_ref().map(id_to), compass: p.1.clone() }
}
pub fn node_id_to(n: &ds::NodeId) -> m::NodeId {
    m::NodeId { id: id_to(&n.0), port: n.1.as_ref().map(port_to) }
}
pub fn sub_to(s: &ds::Subgraph) -> m::Sub {
    m::Sub { id: id_to(&s.id), stmts: stmts_to(&s.stmts) }
}
pub fn vertex_to(v: &ds::Vertex) -> m::Vertex {
    match v {
        ds::Vertex::N(n) => m::Vertex::N(node_id_to(n)),
        ds::Vertex::S(s) => m::Vertex::S(sub_to(s)),
    }
}
pub fn edge_to(e: &ds::Edge) -> m::Edge {
    let (pair, vs) = match &e.ty {
        ds::EdgeTy::Pair(a, b) => (true, vec![vertex_to(a), vertex_to(b)]),
        ds::EdgeTy::Chain(v) => (false, v.iter().map(vertex_to).collect()),
    };
    m::Edge { pair, vs, attrs: attrs_to(&e.attributes) }
}
pub fn gattr_to(g: &ds::GraphAttributes) -> (m::GKind, Vec<m::Attr>) {
    match g {
        ds::GraphAttributes::Graph(a) => (m::GKind::Graph, attrs_to(a)),
        ds::GraphAttributes::Node(a) => (m::GKind::Node, attrs_to(a)),
        ds::GraphAttributes::Edge(a) => (m::GKind::Edge, attrs_to(a)),
    }
}
pub fn stmt_to(s: &ds::Stmt) -> m::Stmt {
    match s {
        ds::Stmt::Node(n) => m::Stmt::Node(node_id_to(&n.id), attrs_to(&n.attributes)),
        ds::Stmt::Subgraph(s) => m::Stmt::Sub(sub_to(s)),
        ds::Stmt::Attribute(a) => m::Stmt::Attr(attr_to(a)),
        ds::Stmt::GAttribute(g) => {
            let (k, a) = gattr_to(g);
            m::Stmt::GAttr(k, a)
        }
        ds::Stmt::Edge(e) => m::Stmt::Edge(edge_to(e)),
    }
}
pub fn stmts_to(s: &[ds::Stmt]) -> Vec<m::Stmt> {
    s.iter().map(stmt_to).collect()
}
pub fn graph_to(g: &ds::Graph) -> m::Graph {
    match g {
        ds::Graph::Graph { id, strict, stmts } => m::Graph { di: false, strict: *strict, id: id_to(id), stmts: stmts_to(stmts) },
        ds::Graph::DiGraph { id, strict, stmts } => m::Graph { di: true, strict: *strict, id: id_to(id), stmts: stmts_to(stmts) },
    }
}

/// builds structures; anonymous ids get the texts given by `anon`
pub struct Build<'a> {
    pub anon: &'a mut dyn FnMut() -> String,
}
impl<'a> Build<'a> {
    pub fn id(&mut self, i: &m::Id) -> ds::Id {
        match i {
            m::Id::Plain(s) => ds::Id::Plain(s.clone()),
            m::Id::Quoted(s) => ds::Id::Escaped(s.clone()),
            m::Id::Html(s) => ds::Id::Html(s.clone()),
            m::Id::Anon => ds::Id::Anonymous((self.anon)()),
        }
    }
    pub fn attr(&mut self, a: &m::Attr) -> ds::Attribute {
        ds::Attribute(self.id(&a.0), self.id(&a.1))
    }
    pub fn attrs(&mut self, a: &[m::Attr]) -> Vec<ds::Attribute> {
        a.iter().map(|x| self.attr(x)).collect()
    }
    pub fn node_id(&mut self, n: &m::NodeId) -> ds::NodeId {
        ds::NodeId(self.id(&n.id), n.port.as_ref().map(|p| ds::Port(p.id.as_ref().map(|i| self.id(i)), p.compass.clone())))
    }
    pub fn sub(&mut self, s: &m::Sub) -> ds::Subgraph {
        ds::Subgraph { id: self.id(&s.id), stmts: self.stmts(&s.stmts) }
    }
    pub fn vertex(&mut self, v: &m::Vertex) -> ds::Vertex {
        match v {
            m::Vertex::N(n) => ds::Vertex::N(self.node_id(n)),
            m::Vertex::S(s) => ds::Vertex::S(self.sub(s)),
        }
    }
    pub fn edge(&mut self, e: &m::Edge) -> ds::Edge {
        let mut vs: Vec<ds::Vertex> = e.vs.iter().map(|v| self.vertex(v)).collect();
        let ty = if e.pair {
            let r = vs.pop().unwrap();
            let l = vs.pop().unwrap();
            ds::EdgeTy::Pair(l, r)
        } else {
            ds::EdgeTy::Chain(vs)
        };
        ds::Edge { ty, attributes: self.attrs(&e.attrs) }
    }
    pub fn gattr(&mut self, k: m::GKind, a: &[m::Attr]) -> ds::GraphAttributes {
        let a = self.attrs(a);
        match k {
            m::GKind::Graph => ds::GraphAttributes::Graph(a),
            m::GKind::Node => ds::GraphAttributes::Node(a),
            m::GKind::Edge => ds::GraphAttributes::Edge(a),
        }
    }
    pub fn stmt(&mut self, s: &m::Stmt) -> ds::Stmt {
        match s {
            m::Stmt::Node(n, a) => ds::Stmt::Node(ds::Node { id: self.node_id(n), attributes: self.attrs(a) }),
            m::Stmt::Edge(e) => ds::Stmt::Edge(self.edge(e)),
            m::Stmt::Attr(a) => ds::Stmt::Attribute(self.attr(a)),
            m::Stmt::GAttr(k, a) => ds::Stmt::GAttribute(self.gattr(*k, a)),
            m::Stmt::Sub(s) => ds::Stmt::Subgraph(self.sub(s)),
        }
    }
    pub fn stmts(&mut self, s: &[m::Stmt]) -> Vec<ds::Stmt> {
        s.iter().map(|x| self.stmt(x)).collect()
    }
    pub fn graph(&mut self, g: &m::Graph) -> ds::Graph {
        let id = self.id(&g.id);
        let stmts = self.stmts(&g.stmts);
        if g.di {
            ds::Graph::DiGraph { id, strict: g.strict, stmts }
        } else {
            ds::Graph::Graph { id, strict: g.strict, stmts }
        }
    }
}
/// anonymous ids as the macros make them
#[allow(dead_code)]
pub fn graph_of(g: &m::Graph) -> ds::Graph {
    Build { anon: &mut || String::new() }.graph(g)
}
