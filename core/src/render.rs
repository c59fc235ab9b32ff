//! Writes a graph as DOT text in a freely chosen notation, and the tokens it must consist of.
use crate::model::*;
use crate::reflex::Tok;
use crate::tape::Src;

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Notation {
    /// one space, no optional parts
    Plain,
    /// every free choice of notation is drawn
    Free,
    /// as Free, but only what Graphviz reads the same way
    Graphviz,
}

/// a token of the text, possibly optional ones already chosen
fn toks(g: &Graph, src: &mut Src, free: bool) -> Vec<Tok> {
    let mut o = vec![];
    if g.strict {
        o.push(kw("strict", src, free))
    }
    o.push(kw(if g.di { "digraph" } else { "graph" }, src, free));
    if g.id != Id::Anon {
        o.push(Tok::Id(g.id.clone()))
    }
    body(&g.stmts, g.di, src, free, &mut o);
    o
}

fn kw(k: &str, src: &mut Src, free: bool) -> Tok {
    if free && src.chance(15) {
        let mut s = String::new();
        for c in k.chars() {
            s.push(if src.chance(50) { c.to_ascii_uppercase() } else { c })
        }
        Tok::Kw(s)
    } else {
        Tok::Kw(k.into())
    }
}

fn body(ss: &[Stmt], di: bool, src: &mut Src, free: bool, o: &mut Vec<Tok>) {
    o.push(Tok::P('{'));
    for s in ss {
        stmt(s, di, src, free, o);
        if free && src.chance(45) {
            o.push(Tok::P(';'))
        }
    }
    o.push(Tok::P('}'));
}

fn node_id(n: &NodeId, o: &mut Vec<Tok>) {
    o.push(Tok::Id(n.id.clone()));
    if let Some(p) = &n.port {
        if let Some(i) = &p.id {
            o.push(Tok::P(':'));
            o.push(Tok::Id(i.clone()))
        }
        if let Some(c) = &p.compass {
            o.push(Tok::P(':'));
            o.push(Tok::Id(Id::Plain(c.clone())))
        }
    }
}

fn sub(s: &Sub, di: bool, src: &mut Src, free: bool, o: &mut Vec<Tok>) {
    if s.id != Id::Anon {
        o.push(kw("subgraph", src, free));
        o.push(Tok::Id(s.id.clone()))
    } else if !free || !src.chance(50) {
        o.push(kw("subgraph", src, free))
    }
    body(&s.stmts, di, src, free, o)
}

fn attr_list(a: &[Attr], required: bool, src: &mut Src, free: bool, o: &mut Vec<Tok>) {
    if a.is_empty() && !required && !(free && src.chance(12)) {
        return;
    }
    let mut open = false;
    let mut lists = 0;
    for x in a {
        if free && !open && src.chance(4) {
            o.push(Tok::P('['));
            o.push(Tok::P(']'));
        }
        if !open {
            o.push(Tok::P('['));
            open = true;
            lists += 1;
        }
        o.push(Tok::Id(x.0.clone()));
        o.push(Tok::P('='));
        o.push(Tok::Id(x.1.clone()));
        if free {
            match src.weighted(&[50, 30, 20]) {
                0 => {}
                1 => o.push(Tok::P(',')),
                _ => o.push(Tok::P(';')),
            }
            if src.chance(12) {
                o.push(Tok::P(']'));
                open = false
            }
        }
    }
    if lists == 0 {
        o.push(Tok::P('['));
        open = true
    }
    if open {
        o.push(Tok::P(']'))
    }
    if free && src.chance(4) {
        o.push(Tok::P('['));
        o.push(Tok::P(']'));
    }
}

fn stmt(s: &Stmt, di: bool, src: &mut Src, free: bool, o: &mut Vec<Tok>) {
    match s {
        Stmt::Node(n, a) => {
            node_id(n, o);
            attr_list(a, false, src, free, o)
        }
        Stmt::Attr(a) => {
            o.push(Tok::Id(a.0.clone()));
            o.push(Tok::P('='));
            o.push(Tok::Id(a.1.clone()))
        }
        Stmt::GAttr(k, a) => {
            o.push(kw(k.word(), src, free));
            attr_list(a, true, src, free, o)
        }
        Stmt::Sub(x) => sub(x, di, src, free, o),
        Stmt::Edge(e) => {
            for (i, v) in e.vs.iter().enumerate() {
                if i > 0 {
                    o.push(Tok::Op(di))
                }
                match v {
                    Vertex::N(n) => node_id(n, o),
                    Vertex::S(x) => sub(x, di, src, free, o),
                }
            }
            attr_list(&e.attrs, false, src, free, o)
        }
    }
}

fn idchar(c: char) -> bool {
    c.is_ascii_alphanumeric() || c == '_' || c == '.' || c == '-' || !c.is_ascii()
}

/// must these two tokens be kept apart by white space or a comment?
pub fn must_separate(a: &Tok, b: &Tok) -> bool {
    let wordish = |t: &Tok| matches!(t, Tok::Kw(_) | Tok::Id(Id::Plain(_)));
    if !(wordish(a) && wordish(b)) {
        return false;
    }
    a.text().chars().next_back().is_some_and(idchar) && b.text().chars().next().is_some_and(idchar)
}

fn comment_text(src: &mut Src, block: bool, gv: bool) -> String {
    const PARTS: [&str; 32] = [
        "x", " ", "\"", "{", "}", "[", "]", ";", "->", "--", "//", "#", "<", ">", "graph", "/", "'", "=", "\\", "/*", "a=b", "subgraph {", "\t", "\u{e9}", "1", "strict",
        "note", ":", "<!--", ",", "\\\"", "node [a=b]",
    ];
    let mut s = String::new();
    for _ in 0..src.count(3, 9) {
        if block && src.chance(15) {
            s.push_str(*src.pick(&["\n", "\r\n", "*", "**", "* /"]))
        } else if !gv && src.chance(6) {
            match crate::gen::any_char(src) {
                '\n' | '\r' if !block => s.push('\u{b}'),
                c => s.push(c),
            }
        } else {
            s.push_str(*src.pick(&PARTS))
        }
    }
    if block {
        // no end of comment inside
        while s.contains("*/") {
            s = s.replace("*/", "* /")
        }
        // the closing marker must be the first one
        if s.ends_with('*') && src.chance(50) {
            s.push(' ')
        }
    }
    s
}

fn trivia(src: &mut Src, o: &mut String, must: bool, gv: bool) {
    let start = o.len();
    let n = match src.weighted(&[60, 28, 12]) {
        0 => 0,
        1 => 1,
        _ => src.range(2, 4),
    };
    for _ in 0..n {
        match src.weighted(&[30, 20, 8, 8, 5, 12, 10, 7]) {
            0 => o.push(' '),
            1 => o.push('\n'),
            2 => o.push('\t'),
            3 => o.push_str("\r\n"),
            4 => o.push('\r'),
            5 => {
                o.push_str("/*");
                o.push_str(&comment_text(src, true, gv));
                o.push_str("*/")
            }
            6 => {
                o.push_str("//");
                o.push_str(&comment_text(src, false, gv));
                o.push_str(*src.pick(&["\n", "\r\n"]))
            }
            _ => {
                // Graphviz knows this comment at the start of a line only
                if gv && !o.ends_with('\n') {
                    o.push('\n')
                }
                if gv {
                    // "# 1 "x"" is a line directive there
                    o.push_str("# c")
                } else {
                    o.push('#')
                }
                o.push_str(&comment_text(src, false, gv));
                o.push_str(*src.pick(&["\n", "\r\n"]))
            }
        }
    }
    if must && o.len() == start {
        o.push(' ')
    }
}

/// The text of a graph in the given notation.
pub fn render(g: &Graph, src: &mut Src, how: Notation) -> String {
    let free = how != Notation::Plain;
    let ts = toks(g, src, free);
    join(&ts, src, how)
}

pub fn join(ts: &[Tok], src: &mut Src, how: Notation) -> String {
    let mut o = String::new();
    if how == Notation::Plain {
        for (i, t) in ts.iter().enumerate() {
            if i > 0 {
                o.push(' ')
            }
            o.push_str(&t.text())
        }
        return o;
    }
    let gv = how == Notation::Graphviz;
    // one text is dense, the next one full of white space
    let dense = src.chance(30);
    if src.chance(20) {
        trivia(src, &mut o, false, gv)
    }
    for (i, t) in ts.iter().enumerate() {
        if i > 0 {
            let must = must_separate(&ts[i - 1], t);
            if dense {
                if must {
                    o.push(' ')
                }
            } else {
                trivia(src, &mut o, must, gv)
            }
        }
        o.push_str(&t.text())
    }
    if src.chance(30) {
        trivia(src, &mut o, false, gv)
    }
    // a comment may end the text without a line end
    if src.chance(4) {
        o.push_str(*src.pick(&["//", "/**/", "\n#", "// }", "\n# {\"", "/***/"]))
    }
    o
}

/// the tokens of a graph in their plainest form
pub fn plain_toks(g: &Graph) -> Vec<Tok> {
    toks(g, &mut Src::replay(vec![]), false)
}
