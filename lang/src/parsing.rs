use crate::ast::*;
use crate::corpus::DOCS;
use crate::helpers::*;
use graphviz_rust::dot_structures as ds;
use std::collections::HashSet;
use std::num::NonZeroUsize;
use vcore::gen::{self, Cfg};
use vcore::giant;
use vcore::model::{self as m, Id};
use vcore::refparse::{self, Verdict};
use vcore::refprint::gen_opts;
use vcore::render::{render, Notation};
use vcore::runner::*;
use vcore::tape::Src;

/// Compares the library's reading of any text with the reference reading.
/// `reject` asks for rejections to be checked too, `accept` for acceptances.
pub fn against_reference(text: &str, accept: bool, reject: bool, c: &mut Case) -> Result<Option<(m::Graph, ds::Graph)>, Fail> {
    let v = refparse::parse(text);
    let got = lib_parse(text)?;
    match (v, got) {
        (Verdict::Unknown(_), _) => {
            c.label("no judgement");
            Ok(None)
        }
        (Verdict::Accept(want), Ok(g)) | (Verdict::Lenient(want, _), Ok(g)) => {
            c.label("accepted");
            let have = graph_to(&g);
            if accept && have != want {
                return bad(format!("the document denotes another graph\n{}", diff(&want, &have)), text);
            }
            Ok(Some((want, g)))
        }
        (Verdict::Accept(_), Err(e)) => {
            if accept {
                return bad(format!("a valid document was rejected: {}", short(&e)), text);
            }
            Ok(None)
        }
        (Verdict::Lenient(..), Err(_)) => {
            c.label("leniency");
            Ok(None)
        }
        (Verdict::Reject(_), Err(e)) => {
            c.label("rejected");
            if e.is_empty() {
                return bad("rejected without a message", text);
            }
            Ok(None)
        }
        (Verdict::Reject(why), Ok(g)) => {
            if reject {
                return bad(format!("text that is not a DOT document was accepted ({why}), as {}", short(&format!("{:?}", graph_to(&g)))), text);
            }
            Ok(None)
        }
    }
}

fn structure(how: Notation) -> impl Fn(&mut Src, &mut Case) -> R {
    move |src, c| {
        let g = gen::graph(src, &Cfg::parsed());
        let text = render(&g, src, how);
        c.input(&text);
        let f = classify(c, &g);
        c.nontrivial = f.stmts >= 1;
        let got = graph_to(&must_parse(&text)?);
        if got != g {
            return bad(format!("the document denotes another graph\n{}", diff(&g, &got)), text);
        }
        Ok(())
    }
}

fn any_char(src: &mut Src) -> char {
    let v = match src.weighted(&[50, 15, 15, 10, 10]) {
        0 => src.draw(0x60) + 0x20,
        1 => src.draw(0x20),
        2 => src.draw(0x180) + 0x80,
        3 => src.draw(0x10000),
        _ => src.draw(0x110000),
    };
    char::from_u32(v as u32).unwrap_or('\u{fffd}')
}

/// an identifier from its definition, not from a list of samples
fn wild_id(src: &mut Src) -> Id {
    match src.below(4) {
        0 => {
            let mut s = String::new();
            for i in 0..src.range(1, 6) {
                loop {
                    let ch = any_char(src);
                    if ch.is_ascii_alphabetic() || ch == '_' || !ch.is_ascii() || (i > 0 && ch.is_ascii_digit()) {
                        s.push(ch);
                        break;
                    }
                    if src.exhausted() {
                        s.push('a');
                        break;
                    }
                    if src.chance(20) {
                        s.push('k');
                        break;
                    }
                }
            }
            if m::is_keyword(&s) || s.starts_with('\u{feff}') {
                s.insert(0, '_')
            }
            Id::Plain(s)
        }
        1 => Id::Plain(gen::numeral(src)),
        2 => {
            let mut s = String::from("\"");
            for _ in 0..src.count(6, 30) {
                match any_char(src) {
                    '"' => s.push_str("\\\""),
                    '\\' => {
                        s.push('\\');
                        s.push(any_char(src));
                    }
                    ch => s.push(ch),
                }
            }
            s.push('"');
            Id::Quoted(s)
        }
        _ => {
            let mut s = String::from("<");
            let mut depth = 1;
            for _ in 0..src.count(6, 30) {
                match any_char(src) {
                    '<' => {
                        s.push('<');
                        depth += 1
                    }
                    '>' if depth > 1 => {
                        s.push('>');
                        depth -= 1
                    }
                    '>' => s.push('"'),
                    ch => s.push(ch),
                }
            }
            for _ in 0..depth {
                s.push('>')
            }
            Id::Html(s)
        }
    }
}

fn identifiers(src: &mut Src, c: &mut Case) -> R {
    let mut next = |src: &mut Src| wild_id(src);
    let portid = |i: Id| match &i {
        Id::Plain(s) if m::COMPASS.contains(&s.as_str()) => Id::Plain(format!("{s}_")),
        _ => i,
    };
    let nid = |src: &mut Src, next: &mut dyn FnMut(&mut Src) -> Id| m::NodeId {
        id: next(src),
        port: if src.chance(60) { Some(m::Port { id: Some(portid(next(src))), compass: if src.chance(50) { Some(src.pick(&m::COMPASS).to_string()) } else { None } }) } else { None },
    };
    let mut stmts = vec![];
    for _ in 0..src.range(1, 3) {
        stmts.push(match src.below(5) {
            0 => m::Stmt::Node(nid(src, &mut next), vec![m::Attr(next(src), next(src)), m::Attr(next(src), next(src))]),
            1 => m::Stmt::Edge(m::Edge { pair: true, vs: vec![m::Vertex::N(nid(src, &mut next)), m::Vertex::N(nid(src, &mut next))], attrs: vec![m::Attr(next(src), next(src))] }),
            2 => m::Stmt::Attr(m::Attr(next(src), next(src))),
            3 => m::Stmt::Sub(m::Sub { id: next(src), stmts: vec![m::Stmt::Node(nid(src, &mut next), vec![])] }),
            _ => m::Stmt::GAttr(m::GKind::Edge, vec![m::Attr(next(src), next(src))]),
        })
    }
    let g = m::Graph { di: src.chance(50), strict: src.chance(50), id: next(src), stmts };
    let text = render(&g, src, Notation::Free);
    c.input(&text);
    classify(c, &g);
    c.nontrivial = true;
    let got = graph_to(&must_parse(&text)?);
    if got != g {
        return bad(format!("the document denotes another graph\n{}", diff(&g, &got)), text);
    }
    Ok(())
}

fn large(src: &mut Src, c: &mut Case) -> R {
    let cfg = Cfg { max_depth: 5, stmts: (60, 400), budget: 2500, ..Cfg::parsed() };
    let mut b = cfg.budget;
    let n = src.range(50, 400);
    let mut stmts = vec![];
    for _ in 0..n {
        stmts.push(gen::stmt(src, &Cfg { stmts: (4, 10), ..cfg.clone() }, 1, &mut b))
    }
    let g = m::Graph { di: src.chance(50), strict: false, id: Id::Anon, stmts };
    let text = render(&g, src, Notation::Free);
    c.input(&text);
    classify(c, &g);
    c.nontrivial = true;
    let got = graph_to(&must_parse(&text)?);
    if got != g {
        return bad(format!("the document denotes another graph\n{}", diff(&g, &got)), text);
    }
    Ok(())
}

/// graphs extreme in one dimension, in plain and in free notation
fn extremes(src: &mut Src, c: &mut Case) -> R {
    let k = src.below(giant::COUNT);
    let (what, g) = giant::giant(k);
    c.input(&what);
    c.nontrivial = true;
    let mut rnd = Src::random(seed() ^ k as u64);
    for how in [Notation::Plain, Notation::Free] {
        let text = render(&g, &mut rnd, how);
        let lib = match lib_parse(&text)? {
            Ok(x) => x,
            Err(e) => return bad(format!("a valid document ({what}) was rejected: {}", short(&e)), what),
        };
        let got = graph_to(&lib);
        if got != g {
            return bad(format!("the document ({what}) denotes another graph\n{}", diff(&g, &got)), what);
        }
    }
    Ok(())
}

/// one piece of white space or one comment of great length
fn extreme_trivia(src: &mut Src, c: &mut Case) -> R {
    const UNITS: [(&str, &str, &str); 9] = [("", " ", ""), ("", "\n", ""), ("", "\t\r\n", ""), ("/*", "x", "*/"), ("/*", "*", "*/"), ("//", "x", "\n"), ("", "#\n", ""), ("", "/**/", ""), ("#", " {", "\n")];
    const N: [usize; 8] = [127, 255, 256, 1000, 4096, 32_768, 65_536, 300_000];
    let k = src.below(UNITS.len() * N.len());
    let (a, u, z) = UNITS[k % UNITS.len()];
    let t = format!("{a}{}{z}", u.repeat(N[k / UNITS.len()]));
    let what = format!("{a}{u}{u}...{z} with {} times {u:?} between the tokens", N[k / UNITS.len()]);
    c.input(&what);
    c.nontrivial = true;
    let ts = ["", "strict", "digraph", "g", "{", "a", "[", "x", "=", "y", "]", "a", "->", "b", ";", "subgraph", "s", "{", "}", "}", ""];
    let want = match refparse::parse(&ts.join(" ")) {
        Verdict::Accept(g) => g,
        _ => unreachable!(),
    };
    match lib_parse(&ts.join(&t))? {
        Ok(g) if graph_to(&g) == want => {}
        Ok(g) => return bad(format!("{what}: another graph\n{}", diff(&want, &graph_to(&g))), what),
        Err(e) => return bad(format!("{what}: rejected: {}", short(&e)), what),
    }
    // only in front of the document, and only behind it
    for text in [format!("{t}graph {{}}"), format!("graph {{}}{t}")] {
        if let Err(e) = lib_parse(&text)? {
            return bad(format!("{what}, at an end of the document: rejected: {}", short(&e)), what);
        }
    }
    Ok(())
}

/// characters that look like nothing, at every gap of documents: they are no white space of DOT
fn not_blank(src: &mut Src, c: &mut Case) -> R {
    const CS: [char; 44] = [
        '\u{0}', '\u{1}', '\u{4}', '\u{7}', '\u{8}', '\u{b}', '\u{c}', '\u{e}', '\u{1a}', '\u{1b}', '\u{1c}', '\u{1d}', '\u{1e}', '\u{1f}', '\u{7f}', '\u{80}', '\u{85}', '\u{a0}', '\u{ad}', '\u{1680}',
        '\u{180e}', '\u{2000}', '\u{2002}', '\u{2003}', '\u{2009}', '\u{200a}', '\u{200b}', '\u{200c}', '\u{200d}', '\u{200e}', '\u{2028}', '\u{2029}', '\u{202f}', '\u{205f}', '\u{2060}', '\u{3000}', '\u{feff}',
        '\u{fffd}', '\u{e000}', '\\', '+', '*', '&', '|',
    ];
    const TEXTS: [&[&str]; 4] = [
        &["graph", "{", "}"],
        &["strict", "digraph", "g", "{", "a", "->", "b", "[", "x", "=", "y", "]", ";", "}"],
        &["graph", "\"g\"", "{", "\"a\"", "[", "\"x\"", "=", "<y>", ",", "z", "=", "1", "]", "subgraph", "<s>", "{", "\"b\"", "--", "<c>", "}", "}"],
        &["digraph", "{", "node", "[", "]", "1", ":", "2", ":", "n", "->", "{", "}", "x", "=", "-1", "}"],
    ];
    let k = src.below(CS.len() * TEXTS.len() * 3);
    let ch = CS[k % CS.len()];
    let ts = TEXTS[k / CS.len() % TEXTS.len()];
    let around = ["", " ", "\n"][k / CS.len() / TEXTS.len()];
    c.input(&format!("{ch:?} between {around:?} at every gap of {}", ts.join(" ")));
    c.nontrivial = true;
    let mut sub = Case::default();
    for gap in 0..=ts.len() {
        for n in [1, 2] {
            let it = ch.to_string().repeat(n);
            let mut s = ts[..gap].join(" ");
            s.push_str(around);
            s.push_str(&it);
            s.push_str(around);
            s.push_str(&ts[gap..].join(" "));
            c.evals += 1;
            c.more_keys.push(vcore::tape::hash64(&[s.as_bytes()]));
            against_reference(&s, true, true, &mut sub)?;
        }
    }
    Ok(())
}

/// every ordered pair of statement forms, with and without separators: what follows what
fn statement_pairs() -> (u64, impl Fn(&mut Src, &mut Case) -> R) {
    const FORMS: [&str; 34] = [
        "a", "\"q\"", "<h>", "1", "-1.", "a:p", "a:n", "a:p:se", "a:\"p\"", "a[x=y]", "a[]", "a:p[x=y][z=w]", "a->b", "a->b[x=y]", "a->b->c", "a->b->c[x=y;]", "a:p->b:q:n",
        "a->{b c}", "a->subgraph s{b}[x=y]", "{a}->b", "{a b}->{c}->d[x=y]", "subgraph s{a}->b", "subgraph{a}", "subgraph s{a}", "{}", "{a;b}", "x=y", "\"x\"=<y>", "x=1",
        "graph[x=y]", "node[]", "edge[x=y,z=w]", "node[x=y][z=w]", "subgraph \"s\"{x=y}",
    ];
    const SEPS: [&str; 5] = [" ", ";", "\n", "; ", "/**/"];
    let n = (FORMS.len() * FORMS.len() * SEPS.len() * 2) as u64;
    (n, move |src, c| {
        let k = src.draw(n) as usize;
        let di = k % 2 == 0;
        let sep = SEPS[k / 2 % SEPS.len()];
        let a = FORMS[k / 2 / SEPS.len() % FORMS.len()];
        let b = FORMS[k / 2 / SEPS.len() / FORMS.len()];
        let mut text = format!("{} {{{a}{sep}{b}}}", if di { "digraph" } else { "graph" });
        if !di {
            text = text.replace("->", "--")
        }
        c.input(&text);
        c.nontrivial = true;
        against_reference(&text, true, true, c)?;
        Ok(())
    })
}

/// words that begin or end as a keyword does, or are one in another case, wherever a word may stand
fn near_keywords() -> (u64, impl Fn(&mut Src, &mut Case) -> R) {
    const WORDS: [&str; 14] = ["graph", "digraph", "subgraph", "strict", "node", "edge", "Graph", "DIGRAPH", "subGraph", "STRICT", "Node", "EDGE", "n", "_"];
    const REST: [&str; 48] = [
        "", "0", "1", "2", "3", "4", "5", "6", "7", "8", "9", "_", "a", "z", "s", "h", "A", "Z", "N", "\u{80}", "\u{e9}", "\u{a0}", "\u{65e5}", "-1", ".5", ".", "\"\"", "<>", "{", ":n", ":e", "0 ", "_1", "1a", "\u{feff}", "\0",
        "graph", "node", "edge", "strict", "digraph", "ne", "sw", "e", "--", "->", "=", "[]",
    ];
    const PLACES: [(&str, &str); 22] = [
        ("graph{", "}"), ("graph{", "{}}"), ("graph{", " {a}}"), ("graph{", " x{}}"), ("graph{", " x}"), ("graph{", "=x}"), ("graph{x=", "}"), ("graph{x=", " y=z}"), ("graph{", "--x}"), ("graph{x--", "}"), ("graph{x--", "{y}}"),
        ("graph{", "[x=y]}"), ("graph{x[", "=y]}"), ("graph{x[y=", "]}"), ("graph{x:", "}"), ("graph{x:", ":n}"), ("graph{x:y:", "}"), ("graph{subgraph ", "{}}"), ("graph ", "{}"), ("", "{}"), ("", " graph{}"), ("strict ", " g{}"),
    ];
    let n = (WORDS.len() * REST.len() * PLACES.len()) as u64;
    (n, move |src, c| {
        let k = src.draw(n) as usize;
        let w = WORDS[k % WORDS.len()];
        let r = REST[k / WORDS.len() % REST.len()];
        let (a, z) = PLACES[k / WORDS.len() / REST.len()];
        let text = format!("{a}{w}{r}{z}");
        c.input(&text);
        c.nontrivial = true;
        against_reference(&text, true, true, c)?;
        // and in front of the word
        let text = format!("{a}{r}{w}{z}");
        c.evals = 2;
        c.more_keys.push(vcore::tape::hash64(&[text.as_bytes()]));
        against_reference(&text, true, true, c)?;
        Ok(())
    })
}

fn corpus(accept: bool, reject: bool) -> Sub {
    Sub::all("fixed documents", DOCS.len() as u64, move |src, c| {
        let text = DOCS[src.below(DOCS.len())];
        c.input(text);
        c.nontrivial = true;
        against_reference(text, accept, reject, c)?;
        Ok(())
    })
}

fn damaged(accept: bool, reject: bool) -> impl Fn(&mut Src, &mut Case) -> R {
    move |src, c| {
        let cfg = Cfg { budget: 14, stmts: (2, 5), ..Cfg::parsed() };
        let mut b = cfg.budget;
        let g = m::Graph {
            di: src.chance(50),
            strict: src.chance(20),
            id: if src.chance(50) { gen::id(src, &cfg) } else { Id::Anon },
            stmts: gen::stmts(src, &cfg, 0, &mut b),
        };
        let (text, kind) = mutate(src, &g);
        c.input(&text);
        c.label(kind);
        let v = refparse::parse(&text);
        c.nontrivial = match v {
            Verdict::Reject(_) => reject,
            Verdict::Accept(_) | Verdict::Lenient(..) => accept,
            Verdict::Unknown(_) => false,
        };
        against_reference(&text, accept, reject, c)?;
        Ok(())
    }
}

/// every prefix and every one-token deletion/duplication of a document
fn every_cut(src: &mut Src, c: &mut Case) -> R {
    let cfg = Cfg { budget: 8, stmts: (2, 4), ..Cfg::parsed() };
    let mut b = cfg.budget;
    let g = m::Graph { di: src.chance(50), strict: src.chance(20), id: if src.chance(50) { gen::id(src, &cfg) } else { Id::Anon }, stmts: gen::stmts(src, &cfg, 0, &mut b) };
    let text = render(&g, src, Notation::Free);
    c.input(&text);
    c.nontrivial = true;
    let mut k = 0;
    let mut sub = Case::default();
    // of a long document the ends in full and the rest in steps
    let step = 1 + text.len() / 1500;
    for (n, (i, _)) in text.char_indices().enumerate() {
        if step > 1 && n % step > 0 && i > 300 && i + 300 < text.len() {
            continue;
        }
        let t = &text[..i];
        k += 1;
        against_reference(t, false, true, &mut sub)?;
        c.more_keys.push(vcore::tape::hash64(&[t.as_bytes()]));
    }
    let ts = vcore::reflex::lex(&text).toks;
    for i in 0..ts.len().min(60) {
        for dup in [false, true] {
            let mut u = ts.clone();
            if dup {
                u.insert(i, ts[i].clone())
            } else {
                u.remove(i);
            }
            let t = vcore::render::join(&u, &mut Src::replay(vec![]), Notation::Plain);
            k += 1;
            against_reference(&t, false, true, &mut sub)?;
            c.more_keys.push(vcore::tape::hash64(&[t.as_bytes()]));
        }
    }
    c.evals = k;
    Ok(())
}

fn spellings(src: &mut Src, c: &mut Case) -> R {
    let g = gen::graph(src, &Cfg::parsed());
    let a = render(&g, &mut Src::replay(vec![]), Notation::Plain);
    let b = render(&g, src, Notation::Free);
    let d = render(&g, src, Notation::Free);
    c.input(&b);
    let f = classify(c, &g);
    c.label_if(b.contains("/*"), "block comment");
    c.label_if(b.contains("//"), "line comment");
    c.label_if(b.contains('#'), "hash comment");
    c.nontrivial = f.stmts >= 1 && a != b;
    let both = || format!("{b}\n=== and, in other notation:\n{a}\n=== or\n{d}");
    let read = |t: &str| -> Result<Result<m::Graph, String>, Fail> { Ok(lib_parse(t)?.map(|g| graph_to(&g))) };
    let (x, y, z) = (read(&a)?, read(&b)?, read(&d)?);
    match (&x, &y, &z) {
        (Ok(x), Ok(y), Ok(z)) => {
            if x != y {
                return bad(format!("two notations of one document denote different graphs\n{}", diff(x, y)), both());
            }
            if x != z {
                return bad(format!("two notations of one document denote different graphs\n{}", diff(x, z)), both());
            }
        }
        (Err(_), Err(_), Err(_)) => {}
        _ => {
            return bad(
                format!("one notation of a document is accepted and another is not: plain {}, free {}, free {}", x.is_ok(), y.is_ok(), z.is_ok()),
                both(),
            )
        }
    }
    Ok(())
}

/// what is notation elsewhere is text inside quotes and angle brackets: letters in its place change that text only
fn notation_as_text(src: &mut Src, c: &mut Case) -> R {
    const IN: [&str; 28] = [
        "//", "/*", "*/", "#", "# x", "http://a/b", "/* x */", "\n# x\n", "a//b\n", "\n#", "// x", ";", ",", "a;b", "[x=y]", "{", "}", "{}", "a:n", "=", " = ", "--", "#fff", "/**/", "a/*b", "#\n#", "/", "*",
    ];
    let letter = |s: &str| -> String { s.chars().map(|x| "/*#;,[]{}=:".find(x).map_or(x, |i| char::from(b'A' + i as u8))).collect() };
    let swap = |i: &Id| match i {
        Id::Quoted(s) => Id::Quoted(letter(s)),
        Id::Html(s) => Id::Html(letter(s)),
        i => i.clone(),
    };
    let g0 = gen::graph(src, &Cfg { budget: 12, ..Cfg::parsed() });
    let mut n = 0;
    let g = m::map_ids(&g0, &mut |i| {
        if *i == Id::Anon || !src.chance(35) {
            return i.clone();
        }
        n += 1;
        let mut s = String::new();
        for _ in 0..src.range(1, 3) {
            s.push_str(*src.pick(&["", "a", " ", "x y"]));
            s.push_str(*src.pick(&IN))
        }
        match src.below(3) {
            0 => Id::Quoted(format!("\"{s}\"")),
            1 => Id::Html(format!("<{s}>")),
            _ => Id::Html(format!("<<b>{s}</b>>")),
        }
    });
    let h = m::map_ids(&g, &mut |i| swap(i));
    let tape = src.range(0, 1_000_000) as u64;
    let how = if src.chance(50) { Notation::Free } else { Notation::Plain };
    let a = render(&g, &mut Src::random(tape), how);
    let b = render(&h, &mut Src::random(tape), how);
    c.input(&a);
    c.nontrivial = n > 0;
    let both = || format!("{a}\n=== and with letters:\n{b}");
    match (lib_parse(&a)?, lib_parse(&b)?) {
        (Ok(x), Ok(y)) => {
            let (x, y) = (m::map_ids(&graph_to(&x), &mut |i| swap(i)), graph_to(&y));
            if x != y {
                return bad(format!("text in quotes or angle brackets is taken for notation\n{}", diff(&y, &x)), both());
            }
            Ok(())
        }
        (Err(_), Err(_)) => Ok(()),
        (x, y) => bad(format!("text in quotes or angle brackets is taken for notation: with it accepted {}, with letters {}", x.is_ok(), y.is_ok()), both()),
    }
}

/// one piece of trivia put at every gap between the tokens of a document
fn trivia_everywhere(src: &mut Src, c: &mut Case) -> R {
    const T: [&str; 20] = [
        " ", "\n", "\r\n", "\t", "\r", "/**/", "/***/", "/* } */", "//\n", "// }\n", "# {\n", "#\n", "//\"\n", "/*\"*/", "/*\n*/", "//\r\n", "/*//*/", "///*\n", "  \n\t", "/*#*/",
    ];
    let cfg = Cfg { budget: 8, stmts: (2, 4), ..Cfg::parsed() };
    let mut b = cfg.budget;
    let g = m::Graph { di: src.chance(50), strict: src.chance(30), id: if src.chance(50) { gen::id(src, &cfg) } else { Id::Anon }, stmts: gen::stmts(src, &cfg, 0, &mut b) };
    let ts = vcore::render::plain_toks(&g);
    let t = *src.pick(&T);
    let plain = vcore::render::join(&ts, &mut Src::replay(vec![]), Notation::Plain);
    let base = match lib_parse(&plain)? {
        Ok(x) => graph_to(&x),
        Err(_) => return Ok(()),
    };
    c.input(&format!("{t:?} at every gap of {plain}"));
    c.nontrivial = true;
    c.evals = ts.len() as u64 + 1;
    for gap in 0..=ts.len() {
        let mut s = String::new();
        for (i, x) in ts.iter().enumerate() {
            if i == gap {
                s.push_str(t)
            } else if i > 0 && (vcore::render::must_separate(&ts[i - 1], x) || gap % 2 == 0) {
                s.push(' ')
            }
            s.push_str(&x.text())
        }
        if gap == ts.len() {
            s.push_str(t)
        }
        match lib_parse(&s)? {
            Ok(x) => {
                let y = graph_to(&x);
                if y != base {
                    return bad(format!("{t:?} between tokens changes the meaning\n{}", diff(&base, &y)), s);
                }
            }
            Err(e) => return bad(format!("{t:?} between tokens makes the document rejected: {}", short(&e)), s),
        }
    }
    Ok(())
}

fn random_text(src: &mut Src, c: &mut Case) -> R {
    let text = match src.weighted(&[30, 30, 40]) {
        0 => {
            let mut s = String::new();
            for _ in 0..src.count(30, 200) {
                s.push(any_char(src))
            }
            s
        }
        1 => {
            const W: [&str; 40] = [
                "graph", "digraph", "strict", "subgraph", "node", "edge", "{", "}", "[", "]", ";", ",", "=", ":", "->", "--", "\"", "\\", "<", ">", "/*", "*/", "//", "#", "\n", "a", "n", "1", ".",
                "-", " ", "\u{0}", "\u{e9}", "\u{1f600}", "\r", "graph {", "a:b", "a->b", "[a=b]", "x",
            ];
            let mut s = String::new();
            for _ in 0..src.count(20, 120) {
                s.push_str(*src.pick(&W))
            }
            s
        }
        _ => {
            let g = gen::graph(src, &Cfg { budget: 14, ..Cfg::parsed() });
            mutate(src, &g).0
        }
    };
    c.input(&text);
    c.nontrivial = text.len() >= 4;
    match lib_parse(&text)? {
        Ok(_) => c.label("accepted"),
        Err(e) => {
            c.label("rejected");
            if e.trim().is_empty() {
                return bad("rejected without a message", text);
            }
        }
    }
    Ok(())
}

/// nested texts: (openings, closings) repeated, around a core
const NEST: [(&str, &str, &str, &str, &str); 16] = [
    ("graph {", "{", "a", "}", "}"),
    ("graph {", "subgraph {", "a", "}", "}"),
    ("graph {", "subgraph s {", "a", "}", "}"),
    ("graph {", "a -- {", "b", "}", "}"),
    ("graph {", "{", "a", "} -- b", "}"),
    ("graph {", "a -- subgraph x {", "b", "} -- c [x=y]", "}"),
    ("graph { a [x=", "<", "b", ">", "] }"),
    ("graph {", "{", "a", "", ""),
    ("graph {", "subgraph s {", "a -- ", "}", "}"),
    ("graph { a [x=", "<", "b", "", "] }"),
    ("graph {", "a -- {", "[", "}", "}"),
    ("graph {", "{ a; {b} ", "=", "}", "}"),
    ("graph {", "a [x=y] b -- {", "c", "} [x=", "}"),
    ("graph {", "{{", "", "}}", " x"),
    ("graph {", "{ {a} -- ", "b", "}", "} }"),
    ("", "graph {", "", "}", ""),
];

/// those that nest subgraphs in a document that the library accepts
pub const SUBGRAPH_NEST: [usize; 7] = [0, 1, 2, 3, 4, 5, 15];

pub fn deep_text(kind: usize, depth: usize) -> String {
    let (a, o, core, z, b) = NEST[kind % NEST.len()];
    format!("{a}{}{core}{}{b}", o.repeat(depth), z.repeat(depth))
}

/// stack use: deeply nested text in a process of its own, on stacks of several sizes
fn deep(src: &mut Src, c: &mut Case) -> R {
    const DEPTHS: [usize; 12] = [10, 100, 200, 400, 700, 1000, 1600, 5000, 8000, 15000, 30000, 100000];
    const STACKS: [usize; 3] = [0, 2 << 20, 1 << 20];
    let k = src.draw((NEST.len() * DEPTHS.len() * STACKS.len()) as u64) as usize;
    let kind = k % NEST.len();
    let depth = DEPTHS[k / NEST.len() % DEPTHS.len()];
    let stack = STACKS[k / NEST.len() / DEPTHS.len()];
    let what = format!("nesting {depth} of {:?} on a stack of {}", NEST[kind], if stack == 0 { "the main thread".into() } else { format!("{stack} bytes") });
    c.input(&what);
    c.nontrivial = true;
    c.label(if depth >= 1000 { "nesting 1000+" } else { "nesting below 1000" });
    // the nesting that must be handled: 200 levels per MiB of stack
    let must = 200 * if stack == 0 { 8 } else { stack >> 20 };
    let args = ["--child-deep".to_string(), kind.to_string(), depth.to_string(), stack.to_string()];
    let s = match run_child(&args) {
        Child::Endless => return bad(format!("parsing did not end within {CHILD_S} s"), what),
        Child::Ended(true, _, s, _) => s,
        Child::Ended(false, status, s, err) => {
            let overflow = err.contains("has overflowed its stack");
            if overflow && depth > must && SUBGRAPH_NEST.contains(&kind) {
                return Err(Fail { sig: "stack-overflow-converting-nested-subgraphs".into(), msg: format!("stack overflow: {status}"), input: what });
            }
            return bad(format!("parsing ended the process: {status} (said {s:?}; {})", short(&err)), what);
        }
    };
    match s.trim() {
        "err message" => c.label("rejected"),
        "ok\ndropped" => c.label("accepted"),
        _ => return bad(format!("parsing gave {s:?}"), what),
    }
    Ok(())
}

/// calls of grammar rules allowed per byte of text; the current grammar needs less than a quarter
const CALLS_PER_BYTE: usize = 600;

/// work: the number of grammar steps is bounded by a multiple of the length of the text
fn work(src: &mut Src, c: &mut Case) -> R {
    let text = match src.weighted(&[50, 30, 20]) {
        0 => {
            // nested, with something wrong inside or after it
            let kind = src.below(NEST.len());
            let deep = if src.chance(25) { 200 } else { 40 };
            deep_text(kind, src.range(1, deep))
        }
        1 => {
            let g = gen::graph(src, &Cfg { max_depth: 14, ..Cfg::parsed() });
            mutate(src, &g).0
        }
        _ => {
            // openings of every sort mixed, some of them closed
            const OPEN: [(&str, &str); 10] =
                [("{", "}"), ("subgraph {", "}"), ("subgraph s{", "}"), ("a -- {", "}"), ("{a} -- {", "}"), ("a [x=<", ">]"), ("<", ">"), ("a -- subgraph s {", "} -- b"), ("b;{", "};"), ("x=y {", "}[")];
            let mut s = String::from("graph {");
            let mut close = vec![];
            for _ in 0..src.range(5, 45) {
                let (o, z) = *src.pick(&OPEN);
                s.push_str(o);
                close.push(z)
            }
            s.push_str(*src.pick(&["a", "", "=", "-- a", "\"", "["]));
            for z in close.iter().rev() {
                if src.chance(97) {
                    s.push_str(z)
                }
            }
            s.push_str(*src.pick(&["}", "", "} x"]));
            s
        }
    };
    c.input(&text);
    c.nontrivial = text.len() >= 20;
    let limit = CALLS_PER_BYTE * (text.len() + 20);
    pest::set_call_limit(NonZeroUsize::new(limit));
    let r = guarded(|| graphviz_rust::parse(&text));
    pest::set_call_limit(None);
    match r {
        Err(p) => bad(format!("parse panicked: {p}"), text),
        Ok(Err(e)) if e.contains("call limit") => bad(format!("more than {limit} grammar steps for {} bytes", text.len()), text),
        Ok(r) => {
            c.label(if r.is_ok() { "accepted" } else { "rejected" });
            Ok(())
        }
    }
}

pub const LONG: [(&str, &str, &str, &str); 18] = [
    ("graph {", "a;", "", "}"),
    ("graph {", "a [x=y]\n", "", "}"),
    ("digraph {a", "->b", "", "}"),
    ("graph {a--", "{a}--", "b", "}"),
    ("graph {a [", "x=y,", "", "]}"),
    ("graph {a ", "[x=y]", "", "}"),
    ("graph {", "node []", "", "}"),
    ("graph {", "x=y ", "", "}"),
    ("graph {", "{a b} ", "", "}"),
    ("graph {a [x=\"", "ab", "", "\"]}"),
    ("graph {a [x=<", "<b>", "", ">]}"),
    ("graph {", "a", "", "}"),
    ("graph {", "1", "", "}"),
    ("graph {/*", "* ", "", "*/}"),
    ("graph {", "// x\n", "", "}"),
    ("graph {", " \t\r\n", "", "}"),
    ("", "graph ", "", "{}"),
    ("graph {a:b", ":c", "", "}"),
];

pub fn long_text(kind: usize, n: usize) -> String {
    let (a, r, core, z) = LONG[kind % LONG.len()];
    format!("{a}{}{core}{z}", r.repeat(n))
}

/// long and flat texts on small stacks, read (and printed, copied and compared) in a process of its own
pub fn long_on_small_stacks(printing: bool) -> (u64, impl Fn(&mut Src, &mut Case) -> R) {
    ((LONG.len() * 2) as u64, move |src, c| long_child(src, c, printing))
}

fn long_child(src: &mut Src, c: &mut Case, printing: bool) -> R {
    const STACKS: [usize; 2] = [0, 1 << 20];
    let k = src.below(LONG.len() * STACKS.len());
    let (kind, stack) = (k % LONG.len(), STACKS[k / LONG.len()]);
    let (a, r, core, z) = LONG[kind];
    let n = 100_000;
    let what = format!("{a}{r}{r}... ({n} times) {core}{z} on a stack of {}", if stack == 0 { "the main thread".into() } else { format!("{stack} bytes") });
    c.input(&what);
    c.nontrivial = true;
    let mut args = vec!["--child-long".to_string(), kind.to_string(), n.to_string(), stack.to_string()];
    if printing {
        args.push("print".into())
    }
    match run_child(&args) {
        Child::Endless => bad(format!("reading and printing did not end within {CHILD_S} s"), what),
        Child::Ended(false, status, s, err) => bad(format!("reading and printing ended the process: {status} (said {s:?}; {})", short(&err)), what),
        Child::Ended(true, _, s, _) if s.trim() == "err message" => {
            c.label("rejected");
            Ok(())
        }
        Child::Ended(true, _, s, _) if s == "ok\ndropped\n" || s.starts_with("ok\nprinted ") && s.ends_with("\nequal\ndropped\n") => {
            c.label("accepted");
            Ok(())
        }
        Child::Ended(true, _, s, _) => bad(format!("reading and printing gave {s:?}"), what),
    }
}

/// long texts of every sort: time must not run away (quadratic work takes hours here, linear work under a second)
fn long(src: &mut Src, c: &mut Case) -> R {
    const ENDS: [&str; 4] = ["", "x", "\"", "{"];
    let k = src.draw((LONG.len() * ENDS.len()) as u64) as usize;
    let (a, r, core, z) = LONG[k % LONG.len()];
    let end = ENDS[k / LONG.len()];
    const N: usize = 150_000;
    let text = format!("{a}{}{core}{z}{end}", r.repeat(N));
    let what = format!("{a}{r}{r}... ({N} times) {core}{z}{end}");
    c.input(&what);
    c.nontrivial = true;
    let t = std::time::Instant::now();
    let r = lib_parse(&text)?;
    c.label(if r.is_ok() { "accepted" } else { "rejected" });
    drop(r);
    let s = t.elapsed().as_secs();
    if s > 90 {
        return bad(format!("{s} s for {} bytes", text.len()), what);
    }
    Ok(())
}

fn anon_ids(g: &ds::Graph) -> (Vec<String>, usize) {
    fn sub(s: &ds::Subgraph, v: &mut Vec<String>) {
        if let ds::Id::Anonymous(x) = &s.id {
            v.push(x.clone())
        }
        go(&s.stmts, v)
    }
    fn go(ss: &[ds::Stmt], v: &mut Vec<String>) {
        for s in ss {
            match s {
                ds::Stmt::Subgraph(s) => sub(s, v),
                ds::Stmt::Edge(e) => {
                    let vs: Vec<&ds::Vertex> = match &e.ty {
                        ds::EdgeTy::Pair(a, b) => vec![a, b],
                        ds::EdgeTy::Chain(x) => x.iter().collect(),
                    };
                    for x in vs {
                        if let ds::Vertex::S(s) = x {
                            sub(s, v)
                        }
                    }
                }
                _ => {}
            }
        }
    }
    let mut v = vec![];
    let (id, stmts) = match g {
        ds::Graph::Graph { id, stmts, .. } | ds::Graph::DiGraph { id, stmts, .. } => (id, stmts),
    };
    if let ds::Id::Anonymous(x) = id {
        v.push(x.clone())
    }
    go(stmts, &mut v);
    let n = v.len();
    (v, n)
}

fn model_anons(g: &m::Graph) -> usize {
    let mut n = (g.id == Id::Anon) as usize;
    m::each_stmt(&g.stmts, &mut |s| match s {
        m::Stmt::Sub(x) => n += (x.id == Id::Anon) as usize,
        m::Stmt::Edge(e) => n += e.vs.iter().filter(|v| matches!(v, m::Vertex::S(x) if x.id == Id::Anon)).count(),
        _ => {}
    });
    n
}

fn distinct_anons(src: &mut Src, c: &mut Case) -> R {
    let mut seen: HashSet<String> = HashSet::new();
    let mut total = 0;
    let mut texts = vec![];
    for _ in 0..src.range(1, 4) {
        let mut g = gen::graph(src, &Cfg::parsed());
        if src.chance(60) {
            // more unnamed ones
            for _ in 0..src.range(1, 10) {
                let inner = vec![m::Stmt::Sub(m::Sub { id: Id::Anon, stmts: vec![] })];
                g.stmts.push(m::Stmt::Sub(m::Sub { id: Id::Anon, stmts: inner }))
            }
        }
        let text = render(&g, src, Notation::Free);
        texts.push(text.clone());
        // the same text twice gives different identities
        for _ in 0..src.range(1, 2) {
            let want = model_anons(&g);
            let lib = match lib_parse(&text)? {
                Ok(x) => x,
                Err(_) => return Ok(()),
            };
            let (v, n) = anon_ids(&lib);
            if n != want {
                return bad(format!("{want} unnamed elements, {n} anonymous identities"), text);
            }
            for x in v {
                total += 1;
                if !seen.insert(x.clone()) {
                    return bad(format!("the anonymous identity {x:?} appears twice"), texts.join("\n=== then\n"));
                }
            }
        }
    }
    c.input(&texts.join("\n=== then\n"));
    c.nontrivial = total >= 2;
    c.label_if(total >= 2, "2+ unnamed");
    c.label_if(total >= 20, "20+ unnamed");
    Ok(())
}

/// many unnamed elements at once: in one parse, in many parses, and in parses of several threads
fn crowds(src: &mut Src, c: &mut Case) -> R {
    const SHAPES: [(&str, usize, usize, usize); 7] = [
        // what is repeated, how often, in how many parses, in how many threads
        ("{}", 250_000, 1, 1),
        ("subgraph {}", 30_000, 4, 2),
        ("a->{}->subgraph{b} ", 20_000, 3, 4),
        ("{{}{}{{}}} ", 20_000, 2, 8),
        ("{} ", 40, 400, 8),
        ("", 0, 4_000, 8),
        ("{a} subgraph s{} ", 3, 800, 16),
    ];
    let (unit, n, parses, threads) = SHAPES[src.below(SHAPES.len())];
    let text = format!("digraph {{{}}}", unit.repeat(n));
    let per = 1 + n * match unit {
        "a->{}->subgraph{b} " => 2,
        "{{}{}{{}}} " => 5,
        _ => 1,
    };
    c.input(&format!("{parses} parses in each of {threads} threads of digraph {{{n} times {unit:?}}}"));
    c.nontrivial = true;
    c.label("crowd of unnamed elements");
    let each = || -> Result<Vec<String>, Fail> {
        let mut all = vec![];
        for _ in 0..parses {
            let g = match lib_parse(&text)? {
                Ok(g) => g,
                Err(_) => continue,
            };
            let (v, k) = anon_ids(&g);
            if k != per {
                return bad(format!("{per} unnamed elements, {k} anonymous identities"), short(&text));
            }
            all.extend(v)
        }
        Ok(all)
    };
    let got: Vec<Result<Vec<String>, Fail>> = std::thread::scope(|s| {
        let hs: Vec<_> = (0..threads).map(|_| s.spawn(each)).collect();
        hs.into_iter().map(|h| h.join().unwrap_or_else(|_| bad("a parsing thread panicked", short(&text)))).collect()
    });
    let mut seen = HashSet::new();
    for r in got {
        for x in r? {
            if !seen.insert(x.clone()) {
                return bad(format!("the anonymous identity {x:?} appears twice among {} unnamed elements", threads * parses * per), short(&text));
            }
        }
    }
    c.evals = seen.len() as u64;
    Ok(())
}

fn anons_not_printed(src: &mut Src, c: &mut Case) -> R {
    let g = gen::graph(src, &Cfg::built());
    let mark = "ANON__LEAK_";
    let sentinel = match src.below(3) {
        0 => mark.to_string(),
        1 => format!("\"{mark}"),
        _ => format!("{{{mark}"),
    };
    let o = gen_opts(src);
    let lib = built(&g, &sentinel);
    let anons = model_anons(&g);
    let show = || format!("{g:?}\noptions {o:?}");
    c.key = vcore::tape::hash64(&[show().as_bytes()]);
    c.sample = Some(show());
    c.nontrivial = anons > 0;
    c.label_if(g.id == Id::Anon, "unnamed graph");
    let text = lib_print(&lib, &mut context(&o), &show)?;
    if text.contains(mark) {
        return bad(format!("the anonymous identity is printed: {}", short(&text)), show());
    }
    let back = match lib_parse(&text)? {
        Ok(x) => graph_to(&x),
        Err(e) => return bad(format!("the printed text is rejected: {}\n{}", short(&e), short(&text)), show()),
    };
    let n = model_anons(&back);
    if n != anons {
        return bad(format!("{anons} unnamed elements were printed, {n} are read back: {}", short(&text)), show());
    }
    Ok(())
}

fn normalise(damage: bool) -> impl Fn(&mut Src, &mut Case) -> R {
    move |src, c| {
        let text = if damage {
            let g = gen::graph(src, &Cfg { budget: 20, ..Cfg::parsed() });
            mutate(src, &g).0
        } else {
            let g = gen::graph(src, &Cfg::parsed());
            render(&g, src, Notation::Free)
        };
        let o = gen_opts(src);
        c.input(&text);
        stable(&text, &o, c)
    }
}

pub fn stable(text: &str, o: &vcore::refprint::Opts, c: &mut Case) -> R {
    let (want, g) = match refparse::parse(text) {
        Verdict::Accept(w) | Verdict::Lenient(w, _) => match lib_parse(text)? {
            Ok(g) => (w, g),
            Err(_) => {
                c.label("rejected");
                return Ok(());
            }
        },
        _ => {
            c.label("not a document");
            return Ok(());
        }
    };
    c.nontrivial = !want.stmts.is_empty();
    classify(c, &want);
    let show = || format!("{text}\n=== options {o:?}");
    let t1 = lib_print(&g, &mut context(o), &show)?;
    let g1 = match lib_parse(&t1)? {
        Ok(g) => g,
        Err(e) => return bad(format!("the printed text is rejected: {}\n{}", short(&e), short(&t1)), show()),
    };
    let have = graph_to(&g1);
    if have != want {
        return bad(format!("the normalised text denotes another graph than the original\n{}\n{}", diff(&want, &have), short(&t1)), show());
    }
    let t2 = lib_print(&g1, &mut context(o), &show)?;
    if t1 != t2 {
        return bad(format!("printing again gives another text\n{}\n=== then\n{}", short(&t1), short(&t2)), show());
    }
    Ok(())
}

pub fn checks() -> Vec<Check> {
    let (npairs, pairs) = statement_pairs();
    let (npairs3, pairs3) = statement_pairs();
    let (nnear, near) = near_keywords();
    let (nnear3, near3) = near_keywords();
    let (nlong, long_small) = long_on_small_stacks(false);
    vec![
        Check {
            id: "P01",
            rule: "a case is a generated graph written as DOT in a freely drawn notation (or an enumerated pair of statement forms, or a word near a keyword in an enumerated place, or a damaged document that the reference reader still accepts); non-trivial: at least one statement, distinct by text",
            assumptions: vec!["the reference reader (verif/core) is the documented DOT grammar", "no '+' concatenation"],
            subs: vec![
                corpus(true, false),
                Sub::all("statement pairs", npairs, pairs),
                Sub::all("near keywords", nnear, near),
                Sub::all("extremes", giant::COUNT as u64, extremes),
                Sub::random("structure", 400_000, 6_000_000, structure(Notation::Free)),
                Sub::random("plain notation", 80_000, 1_000_000, structure(Notation::Plain)),
                Sub::random("identifiers", 400_000, 4_000_000, identifiers),
                Sub::random("large documents", 900, 6_000, large),
                Sub::random("damaged but valid", 400_000, 4_000_000, damaged(true, false)),
            ],
        },
        Check {
            id: "P02",
            rule: "a case is one generated graph in three notations (plain and two freely drawn ones), or one piece of white space or comment put at every gap of a document, or a document with notation inside quoted and HTML identifiers and the same with letters in its place; non-trivial: notations differ and at least one statement, distinct by text",
            assumptions: vec!["a lone carriage return does not end a line comment in the generated texts (readings differ)"],
            subs: vec![
                Sub::random("spellings", 200_000, 3_500_000, spellings),
                Sub::random("notation as text", 150_000, 2_000_000, notation_as_text),
                Sub::all("long trivia", 9 * 8, extreme_trivia),
                Sub::random("trivia at every gap", 30_000, 400_000, trivia_everywhere),
            ],
        },
        Check {
            id: "P03",
            rule: "a case is a generated document damaged in tokens or characters, truncated, surrounded by garbage, or a soup of tokens, or every prefix and one-token change of a document; non-trivial: the reference reader says it is not a DOT document; distinct by text",
            assumptions: vec!["no judgement where keywords stand in the place of identifiers, edge operators of the other kind, '+'"],
            subs: vec![
                corpus(false, true),
                Sub::all("statement pairs", npairs3, pairs3),
                Sub::all("near keywords", nnear3, near3),
                Sub::all("characters that are no white space", 44 * 4 * 3, not_blank),
                Sub::random("damaged", 1_200_000, 15_000_000, damaged(false, true)),
                Sub::random("every cut", 12_000, 200_000, every_cut),
            ],
        },
        Check {
            id: "P04",
            rule: "a case is a random string, token soup or damaged document; or a nested text under a bound of 600 grammar steps per byte; or a text nested up to 100000 deep parsed in a child process on stacks of 8, 2 and 1 MiB; or a text of 32 KiB and the same 32 times as long, compared by processor time; non-trivial: at least 4 (20) bytes, or any nested text; distinct by text",
            assumptions: vec!["grammar steps are counted by pest's call limit", "stacks of at least 1 MiB", "processor time beyond 5 times the proportionate one, three times in a row, is not noise"],
            subs: vec![
                Sub::random("random text", 900_000, 15_000_000, random_text),
                Sub::random("bounded work", 40_000, 1_000_000, work).threads(1),
                Sub::random("growth", 128, 3_000, crate::growth::parsing),
                Sub::all("long texts", 18 * 4, long),
                Sub::all("long texts on small stacks", nlong, long_small),
                Sub::all("deep nesting", (NEST.len() * 12 * 3) as u64, deep),
            ],
        },
        Check {
            id: "P06",
            rule: "a case is a text in free notation or a damaged one that is accepted, with drawn printing options; non-trivial: accepted with at least one statement, distinct by text",
            assumptions: vec!["documents that use keywords as identifiers are left out"],
            subs: vec![
                Sub::all("fixed documents", DOCS.len() as u64, |src, c| {
                    let t = DOCS[src.below(DOCS.len())];
                    c.input(t);
                    stable(t, &vcore::refprint::Opts { new: None, calls: vec![] }, c)
                }),
                Sub::random("free notation", 200_000, 4_000_000, normalise(false)),
                Sub::random("damaged but accepted", 400_000, 4_000_000, normalise(true)),
            ],
        },
        Check {
            id: "P19",
            rule: "a case is a sequence of one to four documents parsed once or twice, all anonymous identities collected; or a graph built in code with marked anonymous identities, printed and read back; non-trivial: at least two (one) unnamed elements",
            assumptions: vec!["random 64-bit identities do not collide by chance in one case"],
            subs: vec![Sub::all("crowds", 7, crowds), Sub::random("distinct", 60_000, 2_000_000, distinct_anons), Sub::random("not printed", 80_000, 2_000_000, anons_not_printed)],
        },
    ]
}
