//! A reference parser over the reference lexer, from the documented grammar of DOT.
use crate::model::*;
use crate::reflex::{lex, Tok};

#[derive(Clone, Debug, PartialEq)]
pub enum Verdict {
    /// a DOT document with this meaning
    Accept(Graph),
    /// not strict DOT, but if it is accepted it has this meaning
    Lenient(Graph, &'static str),
    /// not a DOT document
    Reject(String),
    /// implementations differ; no judgement
    Unknown(&'static str),
}

struct P {
    toks: Vec<Tok>,
    i: usize,
    di: bool,
    mismatch: bool,
    odd_port: bool,
    depth: usize,
}

type R<T> = Result<T, String>;

impl P {
    fn peek(&self) -> Option<&Tok> {
        self.toks.get(self.i)
    }
    fn peek2(&self) -> Option<&Tok> {
        self.toks.get(self.i + 1)
    }
    fn is(&self, c: char) -> bool {
        self.peek() == Some(&Tok::P(c))
    }
    fn eat(&mut self, c: char) -> bool {
        if self.is(c) {
            self.i += 1;
            true
        } else {
            false
        }
    }
    fn expect(&mut self, c: char) -> R<()> {
        if self.eat(c) {
            Ok(())
        } else {
            Err(format!("expected {c} at token {}", self.i))
        }
    }
    fn kw(&mut self, k: &str) -> bool {
        if self.peek().is_some_and(|t| t.is_kw(k)) {
            self.i += 1;
            true
        } else {
            false
        }
    }
    fn id(&mut self) -> R<Id> {
        match self.peek() {
            Some(Tok::Id(i)) => {
                let i = i.clone();
                self.i += 1;
                Ok(i)
            }
            _ => Err(format!("expected an id at token {}", self.i)),
        }
    }
    fn has_id(&self) -> bool {
        matches!(self.peek(), Some(Tok::Id(_)))
    }
    fn file(&mut self) -> R<Graph> {
        let strict = self.kw("strict");
        let di = if self.kw("digraph") {
            true
        } else if self.kw("graph") {
            false
        } else {
            return Err(format!("expected graph or digraph at token {}", self.i));
        };
        self.di = di;
        let id = if self.has_id() { self.id()? } else { Id::Anon };
        let stmts = self.body()?;
        if self.i != self.toks.len() {
            return Err(format!("text after the document at token {}", self.i));
        }
        Ok(Graph { di, strict, id, stmts })
    }
    fn body(&mut self) -> R<Vec<Stmt>> {
        self.depth += 1;
        if self.depth > 2000 {
            return Err("too deep for the reference parser".into());
        }
        self.expect('{')?;
        let mut v = vec![];
        while !self.is('}') {
            if self.peek().is_none() {
                return Err(format!("missing }} at token {}", self.i));
            }
            v.push(self.stmt()?);
            self.eat(';');
        }
        self.expect('}')?;
        self.depth -= 1;
        Ok(v)
    }
    fn attrs(&mut self) -> R<Option<Vec<Attr>>> {
        if !self.is('[') {
            return Ok(None);
        }
        let mut v = vec![];
        while self.eat('[') {
            while !self.is(']') {
                let k = self.id()?;
                self.expect('=')?;
                let x = self.id()?;
                v.push(Attr(k, x));
                if !self.eat(';') {
                    self.eat(',');
                }
            }
            self.expect(']')?;
        }
        Ok(Some(v))
    }
    fn at_subgraph(&self) -> bool {
        self.is('{') || self.peek().is_some_and(|t| t.is_kw("subgraph"))
    }
    fn subgraph(&mut self) -> R<Sub> {
        let mut id = Id::Anon;
        if self.kw("subgraph") && self.has_id() {
            id = self.id()?
        }
        Ok(Sub { id, stmts: self.body()? })
    }
    fn node_id(&mut self) -> R<NodeId> {
        let id = self.id()?;
        let mut port = None;
        if self.eat(':') {
            let a = self.id()?;
            if self.eat(':') {
                let b = self.id()?;
                let c = match &b {
                    Id::Plain(s) if COMPASS.contains(&s.as_str()) => s.clone(),
                    Id::Plain(_) => {
                        self.i -= 1;
                        return Err(format!("not a compass point at token {}", self.i));
                    }
                    _ => {
                        self.odd_port = true;
                        String::new()
                    }
                };
                port = Some(Port { id: Some(a), compass: Some(c) })
            } else {
                port = Some(match &a {
                    Id::Plain(s) if COMPASS.contains(&s.as_str()) => Port { id: None, compass: Some(s.clone()) },
                    _ => Port { id: Some(a), compass: None },
                })
            }
        }
        Ok(NodeId { id, port })
    }
    fn vertex(&mut self) -> R<Vertex> {
        if self.at_subgraph() {
            Ok(Vertex::S(self.subgraph()?))
        } else {
            Ok(Vertex::N(self.node_id()?))
        }
    }
    fn stmt(&mut self) -> R<Stmt> {
        for k in [GKind::Graph, GKind::Node, GKind::Edge] {
            if self.peek().is_some_and(|t| t.is_kw(k.word())) {
                self.i += 1;
                return match self.attrs()? {
                    Some(a) => Ok(Stmt::GAttr(k, a)),
                    None => Err(format!("expected [ at token {}", self.i)),
                };
            }
        }
        if self.has_id() && self.peek2() == Some(&Tok::P('=')) {
            let k = self.id()?;
            self.i += 1;
            return Ok(Stmt::Attr(Attr(k, self.id()?)));
        }
        let first = self.vertex()?;
        let mut vs = vec![first];
        while let Some(Tok::Op(d)) = self.peek() {
            if *d != self.di {
                self.mismatch = true
            }
            self.i += 1;
            let v = self.vertex()?;
            vs.push(v)
        }
        if vs.len() > 1 {
            let pair = vs.len() == 2;
            let attrs = self.attrs()?.unwrap_or_default();
            return Ok(Stmt::Edge(Edge { pair, vs, attrs }));
        }
        match vs.pop().unwrap() {
            Vertex::S(s) => Ok(Stmt::Sub(s)),
            Vertex::N(n) => {
                let a = self.attrs()?.unwrap_or_default();
                Ok(Stmt::Node(n, a))
            }
        }
    }
}

/// the structure of a text that is known to be a document, without a verdict on its oddities
pub fn read(text: &str) -> Option<Graph> {
    P { toks: lex(text).toks, i: 0, di: false, mismatch: false, odd_port: false, depth: 0 }.file().ok()
}

/// for a text that is no document: start and end of the first token that no document has in its place,
/// in characters
pub fn place(text: &str) -> (usize, usize) {
    let l = lex(text);
    let mut p = P { toks: l.toks, i: 0, di: false, mismatch: false, odd_port: false, depth: 0 };
    let _ = p.file();
    let n = text.chars().count();
    l.at.get(p.i).copied().unwrap_or((n, n))
}

pub fn parse(text: &str) -> Verdict {
    let l = lex(text);
    let mut p = P { toks: l.toks, i: 0, di: false, mismatch: false, odd_port: false, depth: 0 };
    let r = p.file();
    if let Some(o) = l.odd.first() {
        return Verdict::Unknown(o);
    }
    match r {
        Ok(_) if p.odd_port => Verdict::Unknown("compass point that is not a plain id"),
        Ok(g) if p.mismatch => Verdict::Lenient(g, "edge operator of the other kind of graph"),
        Ok(g) => Verdict::Accept(g),
        Err(_) if p.depth > 2000 => Verdict::Unknown("too deep"),
        Err(e) => {
            // a keyword in the place of an identifier: readings differ
            let lo = p.i.saturating_sub(2);
            if p.odd_port || p.toks[lo.min(p.toks.len())..(p.i + 1).min(p.toks.len())].iter().any(|t| matches!(t, Tok::Kw(_))) {
                // the header of a document is never an identifier
                if p.i > 2 || p.toks.get(p.i).is_some_and(|t| matches!(t, Tok::Kw(_))) {
                    return Verdict::Unknown("keyword in the place of an id");
                }
            }
            Verdict::Reject(e)
        }
    }
}
