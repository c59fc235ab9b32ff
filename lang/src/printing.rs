use crate::ast::*;
use crate::helpers::*;
use graphviz_rust::dot_structures as ds;
use graphviz_rust::printer::{AttributeValuePrinter, DotPrinter, PrinterContext};
use std::sync::{Arc, Mutex};
use vcore::gen::{self, Cfg};
use vcore::giant;
use vcore::model::{self as m, Id};
use vcore::reflex::{essential, lex, Tok};
use vcore::refprint::{self, gen_opt, gen_opts, Layout, Opt, Opts, Printer};
use vcore::render::plain_toks;
use vcore::runner::*;
use vcore::tape::{hash64, Src};

fn show(g: &m::Graph, o: &Opts) -> String {
    format!("{g:?}\noptions {o:?}")
}

fn note(c: &mut Case, g: &m::Graph, o: &Opts) {
    let s = show(g, o);
    c.key = hash64(&[s.as_bytes()]);
    c.sample = Some(s);
    let l = o.layout();
    c.label_if(l.multi.is_none(), "inline");
    c.label_if(l.multi.as_deref().is_some_and(|s| s != "\n"), "unusual separator");
    c.label_if(l.semi, "semicolons");
    c.label_if(l.mult, "attributes on separate lines");
    c.label_if(!l.comma, "no commas");
    c.label_if(l.step == 0, "step 0");
    c.label_if(l.size < 30, "small inline size");
}

/// a graph built in code: ports may hold a compass word as their id
fn built_graph(src: &mut Src) -> m::Graph {
    let mut g = gen::graph(src, &Cfg::built());
    if src.chance(15) {
        for s in &mut g.stmts {
            if let m::Stmt::Node(n, _) = s {
                if n.port.is_none() {
                    n.port = Some(m::Port { id: Some(Id::Plain("ne".into())), compass: None })
                }
            }
        }
    }
    g
}

/// some identifiers replaced by the one without a text, wherever an identifier may stand
fn partly_unnamed(src: &mut Src, g: m::Graph) -> m::Graph {
    m::map_ids(&g, &mut |i| if src.chance(12) { Id::Anon } else { i.clone() })
}

fn round_trip(src: &mut Src, c: &mut Case) -> R {
    let g = built_graph(src);
    let o = gen_opts(src);
    note(c, &g, &o);
    let f = classify(c, &g);
    c.nontrivial = f.stmts >= 1;
    let s = || show(&g, &o);
    let text = lib_print(&built(&g, ""), &mut context(&o), &s)?;
    match lib_parse(&text)? {
        Ok(x) => {
            let (want, have) = (canonical(&g), graph_to(&x));
            if want != have {
                return bad(format!("the printed graph reads as another graph\n{}\nprinted: {}", diff(&want, &have), short(&text)), s());
            }
            Ok(())
        }
        Err(e) => bad(format!("the printed graph is rejected: {}\nprinted: {}", short(&e), short(&text)), s()),
    }
}

/// the reference reader reads the print as well: the round trip is not two errors cancelling out
fn independent_reading(src: &mut Src, c: &mut Case) -> R {
    let g = built_graph(src);
    let o = gen_opts(src);
    note(c, &g, &o);
    let f = classify(c, &g);
    c.nontrivial = f.stmts >= 1;
    let s = || show(&g, &o);
    let text = lib_print(&built(&g, ""), &mut context(&o), &s)?;
    match vcore::refparse::parse(&text) {
        vcore::refparse::Verdict::Accept(have) => {
            let want = canonical(&g);
            if want != have {
                return bad(format!("the printed text denotes another graph\n{}\nprinted: {}", diff(&want, &have), short(&text)), s());
            }
            Ok(())
        }
        v => bad(format!("the printed text is not a DOT document of the graph: {v:?}\nprinted: {}", short(&text)), s()),
    }
}

/// graphs extreme in one dimension under some option sets; with the reference printer if `exact`
fn extremes(exact: bool) -> impl Fn(&mut Src, &mut Case) -> R {
    move |src, c| {
        let k = src.below(giant::COUNT);
        let (what, g) = giant::giant(k);
        c.input(&what);
        c.nontrivial = true;
        let mut rnd = Src::random(seed() ^ k as u64);
        let lib = built(&g, "");
        for i in 0..3 {
            let o = if i == 0 { Opts { new: None, calls: vec![] } } else { gen_opts(&mut rnd) };
            let s = || format!("{what}\noptions {o:?}");
            let text = lib_print(&lib, &mut context(&o), &s)?;
            if exact {
                same(&refprint::print(&g, &o), &text, "layout", s())?;
                continue;
            }
            match lib_parse(&text)? {
                Ok(x) => {
                    let have = graph_to(&x);
                    if g != have {
                        return bad(format!("the printed graph ({what}) reads as another graph\n{}", diff(&g, &have)), s());
                    }
                }
                Err(e) => return bad(format!("the printed graph ({what}) is rejected: {}", short(&e)), s()),
            }
        }
        Ok(())
    }
}

/// all statement pairs with all separators: what follows what, for every way to keep them apart
fn pair_sweep() -> (u64, impl Fn(&mut Src, &mut Case) -> R) {
    let p = |s: &str| Id::Plain(s.into());
    let n = |s: &str| m::NodeId { id: Id::Plain(s.into()), port: None };
    let at = |k: &str, v: &str| m::Attr(Id::Plain(k.into()), Id::Plain(v.into()));
    let node = |s: &str| m::Stmt::Node(m::NodeId { id: Id::Plain(s.into()), port: None }, vec![]);
    let sub = |id: Id, ss: Vec<m::Stmt>| m::Sub { id, stmts: ss };
    let q = |s: &str| Id::Quoted(format!("\"{s}\""));
    let mut forms = vec![
        node("a"),
        node("1."),
        node("-1"),
        node("\u{e9}"),
        m::Stmt::Node(m::NodeId { id: q("q"), port: None }, vec![]),
        m::Stmt::Node(m::NodeId { id: Id::Html("<h>".into()), port: None }, vec![]),
        m::Stmt::Node(m::NodeId { id: p("a"), port: Some(m::Port { id: Some(p("p")), compass: Some("n".into()) }) }, vec![]),
        m::Stmt::Node(m::NodeId { id: p("a"), port: Some(m::Port { id: Some(q("p")), compass: None }) }, vec![at("x", "y")]),
        m::Stmt::Node(n("a"), vec![at("x", "y"), at("z", "1")]),
        m::Stmt::Attr(at("x", "y")),
        m::Stmt::Attr(m::Attr(q("x"), Id::Html("<y>".into()))),
        m::Stmt::GAttr(m::GKind::Graph, vec![]),
        m::Stmt::GAttr(m::GKind::Node, vec![at("x", "y"), at("z", "w")]),
        m::Stmt::GAttr(m::GKind::Edge, vec![at("x", "y")]),
        m::Stmt::Sub(sub(Id::Anon, vec![])),
        m::Stmt::Sub(sub(p("s"), vec![node("a"), node("b")])),
        m::Stmt::Sub(sub(q("s"), vec![m::Stmt::Attr(at("x", "y"))])),
    ];
    let vs: Vec<m::Vertex> = vec![
        m::Vertex::N(n("a")),
        m::Vertex::S(sub(Id::Anon, vec![node("b"), node("c")])),
        m::Vertex::S(sub(p("s"), vec![m::Stmt::Node(n("a"), vec![at("x", "y"), at("z", "w")]), node("d")])),
    ];
    for a in &vs {
        for b in &vs {
            forms.push(m::Stmt::Edge(m::Edge { pair: true, vs: vec![a.clone(), b.clone()], attrs: vec![] }));
            forms.push(m::Stmt::Edge(m::Edge { pair: false, vs: vec![a.clone(), b.clone(), m::Vertex::N(n("9"))], attrs: vec![at("x", "y"), at("u", "v")] }));
        }
    }
    let seps = ["\n", "", " ", "\r\n", "\t"];
    let sizes = [90usize, 0];
    let mut opts: Vec<Opts> = vec![];
    for sep in seps {
        for size in sizes {
            for step in [2usize, 0] {
                for bits in 0..8 {
                    let mut calls = vec![Opt::Sep(sep.into()), Opt::Size(size), Opt::Step(step)];
                    if bits & 1 != 0 {
                        calls.push(Opt::Semi)
                    }
                    if bits & 2 != 0 {
                        calls.push(Opt::Mult)
                    }
                    if bits & 4 != 0 {
                        calls.push(Opt::NoComma)
                    }
                    opts.push(Opts { new: None, calls: calls.clone() });
                    opts.push(Opts { new: Some((false, 2, "\n".into(), 90)), calls });
                }
            }
        }
    }
    let total = (forms.len() * forms.len()) as u64;
    (total, move |src, c| {
        let k = src.draw(total) as usize;
        let (a, b) = (&forms[k % forms.len()], &forms[k / forms.len()]);
        c.evals = opts.len() as u64;
        c.nontrivial = true;
        for (i, o) in opts.iter().enumerate() {
            let g = m::Graph { di: (k + i) % 2 == 0, strict: false, id: Id::Anon, stmts: vec![a.clone(), b.clone()] };
            let s = || show(&g, o);
            if i == 0 {
                c.key = hash64(&[s().as_bytes()]);
                c.sample = Some(s());
            } else {
                c.more_keys.push(hash64(&[s().as_bytes()]));
            }
            let text = lib_print(&built(&g, ""), &mut context(o), &s)?;
            match lib_parse(&text)? {
                Ok(x) => {
                    let have = graph_to(&x);
                    if have != canonical(&g) {
                        return bad(format!("the printed graph reads as another graph\n{}\nprinted: {}", diff(&canonical(&g), &have), short(&text)), s());
                    }
                }
                Err(e) => return bad(format!("the printed graph is rejected: {}\nprinted: {}", short(&e), short(&text)), s()),
            }
        }
        Ok(())
    })
}

fn tokens_equal(src: &mut Src, c: &mut Case) -> R {
    let g = built_graph(src);
    let want = essential(&plain_toks(&g));
    let n = src.range(2, 4);
    let f = classify(c, &g);
    c.nontrivial = f.stmts >= 1;
    c.evals = n as u64;
    let lib = built(&g, "");
    let mut texts: Vec<(Opts, String)> = vec![];
    for k in 0..n {
        let o = if k == 0 { Opts { new: None, calls: vec![] } } else { gen_opts(src) };
        note(c, &g, &o);
        let s = || show(&g, &o);
        let text = lib_print(&lib, &mut context(&o), &s)?;
        let have = essential(&lex(&text).toks);
        if have != want {
            let i = have.iter().zip(&want).take_while(|(a, b)| a == b).count();
            let t = |v: &[Tok]| v[i.saturating_sub(3).min(v.len())..(i + 4).min(v.len())].iter().map(|t| t.text()).collect::<Vec<_>>().join(" ");
            return bad(format!("the printed tokens are not those of the graph from token {i} on\nexpected … {} …\ngot … {} …\nprinted: {}", t(&want), t(&have), short(&text)), s());
        }
        texts.push((o, text));
    }
    Ok(())
}

/// pieces printed on their own have the tokens of the piece
fn piece_tokens(src: &mut Src, c: &mut Case) -> R {
    let cfg = Cfg::built();
    let mut b = 10;
    let s = gen::stmt(src, &cfg, 1, &mut b);
    let o = gen_opts(src);
    let g = m::Graph { di: false, strict: false, id: Id::Anon, stmts: vec![s.clone()] };
    note(c, &g, &o);
    c.nontrivial = true;
    let inp = || show(&g, &o);
    let lib = built(&g, "");
    let ds::Graph::Graph { stmts, .. } = &lib else { unreachable!() };
    let mut ctx = context(&o);
    let text = match guarded(|| piece_print(&stmts[0], &mut ctx)) {
        Ok(t) => t,
        Err(p) => return bad(format!("print panicked: {p}"), inp()),
    };
    let all = plain_toks(&g);
    let want = essential(&all[2..all.len() - 1]);
    let have = essential(&lex(&text).toks);
    if want != have {
        return bad(format!("a piece prints other tokens: {}", short(&text)), inp());
    }
    Ok(())
}

fn piece_print(s: &ds::Stmt, ctx: &mut PrinterContext) -> String {
    match s {
        ds::Stmt::Node(n) => n.print(ctx),
        ds::Stmt::Edge(e) => e.print(ctx),
        ds::Stmt::Attribute(a) => a.print(ctx),
        ds::Stmt::GAttribute(a) => a.print(ctx),
        ds::Stmt::Subgraph(s) => s.print(ctx),
    }
}

fn same(want: &str, have: &str, what: &str, input: String) -> R {
    if want == have {
        return Ok(());
    }
    let i = want.chars().zip(have.chars()).take_while(|(a, b)| a == b).count();
    let cutout = |s: &str| s.chars().skip(i.saturating_sub(30)).take(80).collect::<String>();
    bad(format!("{what}: texts differ at character {i}\nexpected …{:?}…\ngot …{:?}…\nexpected text:\n{}\ngot:\n{}", cutout(want), cutout(have), short(want), short(have)), input)
}

fn layout(src: &mut Src, c: &mut Case) -> R {
    let mut g = built_graph(src);
    if src.chance(8) {
        g = partly_unnamed(src, g);
        c.label("identifiers without a text");
    }
    let mut o = gen_opts(src);
    if src.chance(40) {
        // an inline size at the length of one of the edges
        o.calls.retain(|x| !matches!(x, Opt::Size(_)));
        let l = o.layout();
        let mut lens = vec![];
        let p = Printer { l: &Layout { size: 0, ..l.clone() }, di: g.di, value: None };
        m::each_stmt(&g.stmts, &mut |s| {
            if let m::Stmt::Edge(_) = s {
                lens.push(p.stmt_alone(s).len())
            }
        });
        if !lens.is_empty() {
            let k = *src.pick(&lens);
            o.calls.push(Opt::Size((k + src.below(3)).saturating_sub(1)));
            c.label("inline size at an edge's length");
        }
    }
    note(c, &g, &o);
    let f = classify(c, &g);
    c.nontrivial = f.stmts >= 1;
    let s = || show(&g, &o);
    let text = lib_print(&built(&g, ""), &mut context(&o), &s)?;
    same(&refprint::print(&g, &o), &text, "layout", s())
}

fn piece_layout(src: &mut Src, c: &mut Case) -> R {
    let cfg = Cfg::built();
    let mut b = 10;
    let s = gen::stmt(src, &cfg, 1, &mut b);
    let o = gen_opts(src);
    let g = m::Graph { di: false, strict: false, id: Id::Anon, stmts: vec![s.clone()] };
    note(c, &g, &o);
    c.nontrivial = true;
    let inp = || show(&g, &o);
    let lib = built(&g, "");
    let ds::Graph::Graph { stmts, .. } = &lib else { unreachable!() };
    let l = o.layout();
    let p = Printer { l: &l, di: false, value: None };
    let want = p.stmt_alone(&s);
    let have = match guarded(|| piece_print(&stmts[0], &mut context(&o))) {
        Ok(t) => t,
        Err(e) => return bad(format!("print panicked: {e}"), inp()),
    };
    same(&want, &have, "a piece on its own", inp())?;
    let want = format!("{want}{}", if l.semi { ";" } else { "" });
    let have = match guarded(|| stmts[0].print(&mut context(&o))) {
        Ok(t) => t,
        Err(e) => return bad(format!("print panicked: {e}"), inp()),
    };
    same(&want, &have, "a statement on its own", inp())
}

/// layout facts checked without the reference printer, line by line
fn lines(src: &mut Src, c: &mut Case) -> R {
    // identifiers without line ends, edges too long to be inlined or without subgraphs
    let g = gen::graph(src, &Cfg::built());
    let mut multi_line_id = false;
    let mut no = |i: &Id| {
        if let Id::Quoted(s) | Id::Html(s) = i {
            multi_line_id |= s.contains('\n')
        }
    };
    no(&g.id);
    m::each_attr(&g.stmts, &mut |a| {
        no(&a.0);
        no(&a.1)
    });
    m::each_stmt(&g.stmts, &mut |s| {
        let node = |n: &m::NodeId, no: &mut dyn FnMut(&Id)| {
            no(&n.id);
            if let Some(m::Port { id: Some(i), .. }) = &n.port {
                no(i)
            }
        };
        match s {
            m::Stmt::Node(n, _) => node(n, &mut no),
            m::Stmt::Sub(s) => no(&s.id),
            m::Stmt::Edge(e) => e.vs.iter().for_each(|v| match v {
                m::Vertex::N(n) => node(n, &mut no),
                m::Vertex::S(s) => no(&s.id),
            }),
            _ => {}
        }
    });
    let step = src.range(1, 6);
    let semi = src.chance(50);
    let mut calls = vec![Opt::Step(step), Opt::Size(0)];
    if semi {
        calls.push(Opt::Semi)
    }
    let o = Opts { new: None, calls };
    note(c, &g, &o);
    let s = || show(&g, &o);
    let text = lib_print(&built(&g, ""), &mut context(&o), &s)?;
    if multi_line_id || g.stmts.is_empty() {
        return Ok(());
    }
    // one line per statement and per closing brace; empty lines only in empty bodies
    let f = classify(c, &g);
    c.nontrivial = f.stmts >= 1;
    let mut depth = 0usize;
    let mut ended = 0usize;
    for line in text.split('\n') {
        if line.is_empty() {
            continue;
        }
        let toks = lex(line).toks;
        let close_first = toks.first() == Some(&Tok::P('}'));
        if close_first && depth == 0 {
            return bad(format!("unbalanced layout:\n{}", short(&text)), s());
        }
        let d = if close_first { depth - 1 } else { depth };
        let pad = line.len() - line.trim_start_matches(' ').len();
        if pad != d * step {
            return bad(format!("line {line:?} is indented by {pad}, not by {}:\n{}", d * step, short(&text)), s());
        }
        for t in &toks {
            match t {
                Tok::P('{') => depth += 1,
                Tok::P('}') => depth -= 1,
                Tok::P(';') => ended += 1,
                _ => {}
            }
        }
    }
    let want = if semi { f.stmts } else { 0 };
    if ended != want {
        return bad(format!("{ended} semicolons for {} statements (asked for: {semi}):\n{}", f.stmts, short(&text)), s());
    }
    Ok(())
}

fn no_edges(ss: &[m::Stmt]) -> bool {
    let mut ok = true;
    m::each_stmt(ss, &mut |s| ok &= !matches!(s, m::Stmt::Edge(_)));
    ok
}

/// a history on one context, against a fresh context after every step
fn history(src: &mut Src, c: &mut Case) -> R {
    let mut o = gen_opts(src);
    let mut ctx = context(&o);
    // custom printers of values, in the order of their registration
    let mut regs: Vec<(Id, usize, usize)> = vec![];
    let register = |ctx: &mut PrinterContext, (i, kind, tag): &(Id, usize, usize)| {
        let (kind, tag) = (*kind, *tag);
        ctx.with_attr_value_printer(Build { anon: &mut String::new }.id(i), Box::new(move |v, sep, ind, step| custom(kind, tag, v, sep, ind, step)));
    };
    let fresh = |o: &Opts, regs: &[(Id, usize, usize)]| {
        let mut x = context(o);
        regs.iter().for_each(|r| register(&mut x, r));
        x
    };
    let mut log = vec![format!("context {o:?}")];
    let steps = src.range(2, 9);
    let mut prints = 0;
    let mut last: Option<m::Graph> = None;
    for _ in 0..steps {
        match src.weighted(&[50, 16, 16, 12, 6]) {
            0 | 1 => {
                let again = last.is_some() && src.chance(30);
                let g = match (&last, again) {
                    (Some(g), true) => g.clone(),
                    _ => {
                        let g = gen::graph(src, &Cfg { budget: 12, ..Cfg::built() });
                        if src.chance(12) {
                            c.label("identifiers without a text");
                            partly_unnamed(src, g)
                        } else {
                            g
                        }
                    }
                };
                log.push(format!("print {g:?}"));
                let inp = || log.join("\n");
                let lib = built(&g, "");
                let before = lib.clone();
                let want = lib_print(&lib, &mut fresh(&o, &regs), &inp)?;
                let have = lib_print(&lib, &mut ctx, &inp)?;
                prints += 1;
                same(&want, &have, "a used context prints differently from a fresh one", inp())?;
                if lib != before {
                    return bad("printing changed the graph", inp());
                }
                last = Some(g)
            }
            2 => {
                let x = gen_opt(src);
                apply(&mut ctx, &x);
                log.push(format!("option {x:?}"));
                o.calls.push(x);
                c.label("options changed in between");
            }
            4 => {
                let i = match (&last, src.chance(70)) {
                    (Some(g), true) => {
                        let mut names = vec![];
                        m::each_attr(&g.stmts, &mut |a| names.push(a.0.clone()));
                        if names.is_empty() {
                            Id::Plain("color".into())
                        } else {
                            src.pick(&names).clone()
                        }
                    }
                    _ => Id::Plain(src.pick(&["color", "label", "x", "shape"]).to_string()),
                };
                let r = (i, src.below(9), regs.len());
                log.push(format!("printer {r:?}"));
                register(&mut ctx, &r);
                regs.push(r);
                c.label("custom printer registered in between");
            }
            _ => {
                let mut b = 6;
                let s = gen::stmt(src, &Cfg { max_depth: 2, ..Cfg::built() }, 0, &mut b);
                // the operator of an edge on its own is that of the last graph: left out
                if !no_edges(std::slice::from_ref(&s)) {
                    continue;
                }
                let mut g = m::Graph { di: false, strict: false, id: Id::Anon, stmts: vec![s] };
                if src.chance(12) {
                    g = partly_unnamed(src, g)
                }
                log.push(format!("print piece {:?}", g.stmts[0]));
                let inp = || log.join("\n");
                let lib = built(&g, "");
                let ds::Graph::Graph { stmts, .. } = &lib else { unreachable!() };
                let r = guarded(|| (piece_print(&stmts[0], &mut fresh(&o, &regs)), piece_print(&stmts[0], &mut ctx)));
                match r {
                    Ok((w, h)) => same(&w, &h, "a used context prints a piece differently from a fresh one", inp())?,
                    Err(p) => return bad(format!("print panicked: {p}"), inp()),
                }
                prints += 1;
                c.label("piece printed");
            }
        }
    }
    let s = log.join("\n");
    c.key = hash64(&[s.as_bytes()]);
    c.sample = Some(s);
    c.nontrivial = prints >= 2;
    c.evals = prints.max(1);
    c.label_if(prints >= 4, "4+ prints on one context");
    Ok(())
}

type Calls = Arc<Mutex<Vec<String>>>;

/// reads and prints a document of its own, with a value printer of its own; the value unless that goes wrong
fn inner_work(tag: usize, v: &str) -> String {
    const DOC: &str = "digraph inner { node [k=v] a -> { b -> c [k=w] } [l=\"m\"] }";
    let once = || {
        let g = graphviz_rust::parse(DOC).ok()?;
        let mut ctx = PrinterContext::default();
        ctx.with_attr_value_printer(graphviz_rust::dot_structures::Id::Plain("k".into()), Box::new(move |v, _, _, _| format!("{v}{tag}")));
        Some(graphviz_rust::print(g, &mut ctx))
    };
    let want = format!("digraph inner {{\n  node[k=v{tag}]\n  a -> subgraph  {{b -> c [k=w{tag}]}} [l=\"m\"]\n}}");
    let have = once();
    let squeezed = |s: &str| s.split_whitespace().collect::<String>();
    match have {
        Some(t) if squeezed(&t) == squeezed(&want) => v.to_string(),
        t => format!("{v} while {t:?} is printed amid it"),
    }
}

/// what the custom printers of these checks do with a value
fn custom(kind: usize, tag: usize, v: &str, sep: &str, indent: &str, step: usize) -> String {
    match kind {
        0 => format!("\"<{tag}>{}\"", v.trim_matches('"')),
        1 => format!("const{tag}"),
        2 => String::new(),
        3 => format!("{v}{v}"),
        4 => v.to_uppercase(),
        5 => format!("\"{tag} {} {step}\"", v.len()),
        // uses the library itself
        8 => inner_work(tag, v),
        6 => format!("<{sep}{indent}{}{v}{sep}{indent}>", " ".repeat(step.min(64))),
        _ => format!("{:?}", (tag, v, sep, indent, step)),
    }
}

fn value_printers(src: &mut Src, c: &mut Case) -> R {
    let mut g = built_graph(src);
    if src.chance(50) {
        // make sure attributes occur
        let cfg = Cfg::built();
        let k = src.range(1, 3);
        for _ in 0..k {
            g.stmts.push(m::Stmt::Node(gen::node_id(src, &cfg), (0..src.range(1, 3)).map(|_| gen::attr(src, &cfg)).collect()))
        }
    }
    if src.chance(8) {
        g = partly_unnamed(src, g);
        c.label("identifiers without a text");
    }
    let o = gen_opts(src);
    let mut names: Vec<Id> = vec![];
    m::each_attr(&g.stmts, &mut |a| names.push(a.0.clone()));
    let mut regs: Vec<(Id, usize)> = vec![];
    for _ in 0..src.range(1, 4) {
        let i = if names.is_empty() || src.chance(30) {
            // a relative of a name: same text, other kind; or not there at all
            match names.first() {
                Some(Id::Plain(s)) if src.chance(60) => Id::Quoted(format!("\"{s}\"")),
                Some(Id::Plain(s)) => Id::Quoted(s.clone()),
                Some(Id::Quoted(s)) => Id::Plain(s.clone()),
                Some(Id::Html(s)) => Id::Plain(s.clone()),
                _ => Id::Plain("absent".into()),
            }
        } else {
            src.pick(&names).clone()
        };
        regs.push((i, src.below(9)))
    }
    let calls: Calls = Default::default();
    let mut ctx = context(&o);
    for (tag, (i, kind)) in regs.iter().enumerate() {
        let (kind, calls) = (*kind, calls.clone());
        let f: Box<AttributeValuePrinter> = Box::new(move |v, sep, ind, step| {
            calls.lock().unwrap().push(v.to_string());
            custom(kind, tag, v, sep, ind, step)
        });
        let mut unnamed = || String::new();
        ctx.with_attr_value_printer(Build { anon: &mut unnamed }.id(i), f);
    }
    // the last registration for a name counts
    let find = |n: &Id| regs.iter().enumerate().rev().find(|(_, (i, _))| i == n).map(|(tag, (_, kind))| (tag, *kind));
    let inp = || format!("{}\nprinters {regs:?}", show(&g, &o));
    note(c, &g, &o);
    c.key = hash64(&[inp().as_bytes()]);
    c.sample = Some(inp());
    let hits = names.iter().filter(|n| find(n).is_some()).count();
    c.nontrivial = hits > 0;
    c.label_if(hits > 1, "2+ values printed by custom printers");
    c.label_if(hits > 0 && hits < names.len(), "some attributes custom, others not");
    let mut distinct: Vec<&Id> = regs.iter().map(|r| &r.0).collect();
    distinct.sort_by_key(|i| format!("{i:?}"));
    distinct.dedup();
    c.label_if(distinct.len() < regs.len(), "printer replaced");
    let l = o.layout();
    let value = |n: &Id, v: &str, sep: &str, ind: &str, step: usize| find(n).map(|(tag, kind)| custom(kind, tag, v, sep, ind, step));
    let want = Printer { l: &l, di: g.di, value: Some(&value) }.graph(&g);
    let have = lib_print(&built(&g, ""), &mut ctx, &inp)?;
    same(&want, &have, "custom value printers", inp())?;
    // the values handed over are those of the attributes, each at least once
    let mut expected: Vec<String> = vec![];
    m::each_attr(&g.stmts, &mut |a| {
        if find(&a.0).is_some() {
            expected.push(match &a.1 {
                Id::Plain(s) | Id::Quoted(s) | Id::Html(s) => s.clone(),
                Id::Anon => String::new(),
            })
        }
    });
    let got = calls.lock().unwrap().clone();
    for e in &expected {
        if !got.contains(e) {
            return bad(format!("the custom printer was not given the value {e:?}"), inp());
        }
    }
    for x in &got {
        if !expected.contains(x) {
            return bad(format!("a custom printer was given {x:?}, which is no value of its attribute"), inp());
        }
    }
    Ok(())
}

/// without a printer for a name the text is that of a context without printers
fn printers_elsewhere(src: &mut Src, c: &mut Case) -> R {
    let g = built_graph(src);
    let o = gen_opts(src);
    let mut names: Vec<Id> = vec![];
    m::each_attr(&g.stmts, &mut |a| names.push(a.0.clone()));
    let mut i = gen::id(src, &Cfg::built());
    while names.contains(&i) {
        i = Id::Plain(format!("{i:?}x").chars().filter(|c| c.is_ascii_alphanumeric()).collect())
    }
    note(c, &g, &o);
    c.nontrivial = !names.is_empty();
    let inp = || format!("{}\nprinter for {i:?}", show(&g, &o));
    let lib = built(&g, "");
    let want = lib_print(&lib, &mut context(&o), &inp)?;
    let mut ctx = context(&o);
    ctx.with_attr_value_printer(Build { anon: &mut String::new }.id(&i), Box::new(|_, _, _, _| "CUSTOM".into()));
    let have = lib_print(&lib, &mut ctx, &inp)?;
    same(&want, &have, "a printer for an absent attribute", inp())
}

pub fn checks() -> Vec<Check> {
    let (np, pairs) = pair_sweep();
    vec![
        Check {
            id: "P05",
            rule: "a case is a graph built in code with drawn printer options, printed and read back by the library (and by the reference reader); or a pair of statement forms under 320 option combinations; non-trivial: at least one statement; distinct by graph and options",
            assumptions: vec!["identifiers are valid DOT identifiers and not keywords", "line separators consist of white space"],
            subs: vec![
                Sub::all("statement pairs under all options", np, pairs),
                Sub::all("extremes", giant::COUNT as u64, extremes(false)),
                Sub::random("round trip", 350_000, 6_000_000, round_trip),
                Sub::random("independent reading", 300_000, 3_000_000, independent_reading),
            ],
        },
        Check {
            id: "P07",
            rule: "a case is a graph built in code printed under two to four option sets, or one statement printed on its own; non-trivial: at least one statement; distinct by graph and options",
            assumptions: vec!["tokens by the reference lexer; semicolons, commas, empty lists and the word subgraph before a brace are optional notation"],
            subs: vec![Sub::random("tokens", 300_000, 4_000_000, tokens_equal), Sub::random("pieces", 300_000, 4_000_000, piece_tokens)],
        },
        Check {
            id: "P08",
            rule: "a case is a graph (or a single statement) with drawn options, its text compared byte for byte with a reference printer without state; or checked line by line for indentation and semicolons; non-trivial: at least one statement; distinct by graph and options",
            assumptions: vec!["the length of an edge is that of its multi-line text in bytes"],
            subs: vec![
                Sub::all("extremes", giant::COUNT as u64, extremes(true)),
                Sub::random("layout", 800_000, 6_000_000, layout),
                Sub::random("pieces", 300_000, 3_000_000, piece_layout),
                Sub::random("lines", 300_000, 2_000_000, lines),
            ],
        },
        Check {
            id: "P09",
            rule: "a case is a history of two to nine option changes and prints (graphs, pieces, the same graph again) on one context, each print compared with a fresh context; non-trivial: at least two prints; distinct by history",
            assumptions: vec!["the operator of an edge printed on its own follows the last graph and is left out"],
            subs: vec![Sub::random("history", 400_000, 3_000_000, history)],
        },
        Check {
            id: "P10",
            rule: "a case is a graph, options and one to four registrations of custom value printers (for names in the graph, names of the same text and other kind, absent names, names registered before), compared with a reference printer; non-trivial: a value goes through a custom printer; distinct by all of these",
            assumptions: vec!["custom printers are functions of their arguments"],
            subs: vec![Sub::random("printers", 700_000, 4_000_000, value_printers), Sub::random("printers elsewhere", 200_000, 1_000_000, printers_elsewhere)],
        },
    ]
}
