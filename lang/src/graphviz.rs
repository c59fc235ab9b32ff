
use crate::helpers::*;
use std::collections::BTreeMap;
use std::io::Write;
use std::process::{Command, Stdio};
use vcore::gen::{self, Cfg};
use vcore::model::{self as m, Id};
use vcore::refprint::{gen_opts, Opts};
use vcore::refparse::{self, Verdict};
use vcore::render::{render, Notation};
use vcore::runner::*;
use vcore::tape::Src;

/// Graphviz's own canonical form of a text, or its complaint.
pub fn canonical_form(text: &str) -> Result<String, String> {
    let mut ch = Command::new("nop")
        .stdin(Stdio::piped())
        .stdout(Stdio::piped())
        .stderr(Stdio::piped())
        .spawn()
        .expect("graphviz's nop");
    let mut i = ch.stdin.take().unwrap();
    let t = text.as_bytes().to_vec();
    let w = std::thread::spawn(move || {
        let _ = i.write_all(&t);
    });
    let out = ch.wait_with_output().expect("nop");
    let _ = w.join();
    let err = String::from_utf8_lossy(&out.stderr).to_string();
    // warnings may go with success; a syntax error does not
    if !out.status.success() || err.contains("syntax error") {
        return Err(err);
    }
    Ok(String::from_utf8_lossy(&out.stdout).to_string())
}

/// The canonical form without what Graphviz leaves to chance: it orders named subgraphs by the
/// address of their names, and writes the attributes of a node (or of an edge of a strict graph)
/// where it comes across it first.
#[derive(PartialEq, Debug, Default)]
struct Meaning {
    kind: (bool, bool),
    name: Option<Id>,
    body: Body,
    nodes: BTreeMap<String, BTreeMap<String, String>>,
    edges: BTreeMap<String, BTreeMap<String, String>>,
}

#[derive(PartialEq, Eq, PartialOrd, Ord, Debug, Default)]
struct Body {
    name: String,
    defaults: BTreeMap<String, String>,
    items: Vec<String>,
    subs: Vec<Body>,
}

fn meaning(canon: &str) -> Option<Meaning> {
    let g = refparse::read(canon)?;
    let mut m = Meaning { kind: (g.di, g.strict), name: Some(g.id.clone()), ..Default::default() };
    let body = collect(&g, &g.stmts, String::new(), &mut m);
    m.body = body;
    Some(m)
}

fn collect(g: &m::Graph, stmts: &[m::Stmt], name: String, m: &mut Meaning) -> Body {
    let mut b = Body { name, ..Default::default() };
    for s in stmts {
        match s {
            m::Stmt::Node(n, at) => {
                let k = format!("{:?}", n.id);
                b.items.push(k.clone());
                m.nodes.entry(k).or_default().extend(at.iter().map(|a| (format!("{:?}", a.0), format!("{:?}", a.1))));
            }
            m::Stmt::Edge(e) => {
                let at = e.attrs.iter().map(|a| (format!("{:?}", a.0), format!("{:?}", a.1)));
                let mut ends: Vec<String>;
                if g.strict {
                    // the ports are attributes like the others, written once
                    let v: Vec<(String, String)> = e.vs.iter().filter_map(|v| if let m::Vertex::N(n) = v { Some((format!("{:?}", n.id), format!("{:?}", n.port))) } else { None }).collect();
                    ends = v.iter().map(|x| x.0.clone()).collect();
                    if !g.di {
                        ends.sort()
                    }
                    let all = m.edges.entry(ends.join(" ")).or_default();
                    all.extend(at);
                    all.extend(v.iter().filter(|x| x.1 != "None").map(|x| (format!("port of {}", x.0), x.1.clone())));
                } else {
                    ends = e.vs.iter().map(|v| format!("{v:?}")).collect();
                    ends.extend(at.map(|(a, b)| format!("{a}={b}")));
                }
                b.items.push(ends.join(" "));
            }
            m::Stmt::Attr(a) => {
                b.defaults.insert(format!("graph {:?}", a.0), format!("{:?}", a.1));
            }
            m::Stmt::GAttr(k, at) => b.defaults.extend(at.iter().map(|a| (format!("{} {:?}", k.word(), a.0), format!("{:?}", a.1)))),
            m::Stmt::Sub(x) => {
                let x = collect(g, &x.stmts, format!("{:?}", x.id), m);
                b.subs.push(x)
            }
        }
    }
    b.subs.sort();
    b
}

fn same(a: &str, b: &str) -> bool {
    a == b
        || match (meaning(a), meaning(b)) {
            (Some(x), Some(y)) => x == y,
            // Graphviz 2.43 writes html names of graphs as strings that may not be readable
            (None, None) => {
                let lines = |s: &str| {
                    let mut v: Vec<String> = s.lines().map(|l| l.trim().to_string()).collect();
                    v.sort();
                    v
                };
                lines(a) == lines(b)
            }
            _ => false,
        }
}

fn first_difference(a: &str, b: &str) -> String {
    let (a, b) = match (meaning(a), meaning(b)) {
        (Some(a), Some(b)) => (format!("{a:#?}"), format!("{b:#?}")),
        _ => (a.to_string(), b.to_string()),
    };
    let n = a.lines().zip(b.lines()).take_while(|(x, y)| x == y).count();
    let around = |s: &str| s.lines().skip(n.saturating_sub(6)).take(12).map(|l| l.trim()).collect::<Vec<_>>().join("\n");
    format!("original:\n{}\nprinted:\n{}", around(&a), around(&b))
}

fn cfg() -> Cfg {
    Cfg { graphviz: true, ..Cfg::parsed() }
}

/// want: what Graphviz says of the original
fn compare(want: &Result<String, String>, printed: &str, input: String) -> R {
    // only what Graphviz accepts is judged
    let Ok(want) = want else { return Ok(()) };
    match canonical_form(printed) {
        Ok(h) if same(want, &h) => Ok(()),
        Ok(h) => bad(format!("Graphviz reads another graph from the printed text\n{}\n--- original\n{}\n--- printed\n{}", first_difference(want, &h), short(want), short(&h)), input),
        Err(e) => bad(format!("Graphviz rejects the printed text: {}\n{}", short(&e), short(printed)), input),
    }
}

fn parsed(src: &mut Src, c: &mut Case) -> R {
    let g = gen::graph(src, &cfg());
    let text = render(&g, src, Notation::Graphviz);
    let o = gen_opts(src);
    c.input(&text);
    let f = classify(c, &g);
    let want = canonical_form(&text);
    c.label_if(want.is_err(), "not accepted by Graphviz");
    c.nontrivial = f.stmts >= 1 && want.is_ok();
    let lib = match lib_parse(&text)? {
        Ok(l) => l,
        Err(e) if want.is_ok() => return bad(format!("Graphviz accepts the document and the library does not: {}", short(&e)), text),
        Err(_) => return Ok(()),
    };
    let inp = || format!("{text}\n=== options {o:?}");
    let printed = lib_print(&lib, &mut context(&o), &inp)?;
    compare(&want, &printed, inp())
}

fn built_graphs(src: &mut Src, c: &mut Case) -> R {
    let g = gen::graph(src, &Cfg { built: true, ..cfg() });
    let o = gen_opts(src);
    let plain = render(&g, &mut Src::replay(vec![]), Notation::Plain);
    c.input(&format!("{plain}\n=== options {o:?}"));
    let f = classify(c, &g);
    let want = canonical_form(&plain);
    c.label_if(want.is_err(), "not accepted by Graphviz");
    c.nontrivial = f.stmts >= 1 && want.is_ok();
    let inp = || format!("{g:?}\n=== options {o:?}");
    let printed = lib_print(&built(&g, ""), &mut context(&o), &inp)?;
    compare(&want, &printed, inp())
}

/// damaged texts: what Graphviz accepts and the library accepts means the same to both
fn damaged(src: &mut Src, c: &mut Case) -> R {
    let cf = Cfg { budget: 10, stmts: (2, 5), ..cfg() };
    let mut b = cf.budget;
    let g = m::Graph { di: src.chance(50), strict: src.chance(20), id: if src.chance(50) { gen::id(src, &cf) } else { Id::Anon }, stmts: gen::stmts(src, &cf, 0, &mut b) };
    let (text, kind) = mutate(src, &g);
    c.input(&text);
    c.label(kind);
    // one document of strict DOT only: Graphviz reads many graphs from a file and ignores what follows
    let Verdict::Accept(_) = refparse::parse(&text) else { return Ok(()) };
    // (and Graphviz 2.43 mixes up html and other strings with the same content)
    if text.contains(['#', '\0', '\r', '<']) {
        return Ok(());
    }
    let Ok(lib) = lib_parse(&text)? else { return Ok(()) };
    let o = Opts { new: None, calls: vec![] };
    let printed = lib_print(&lib, &mut context(&o), &|| text.clone())?;
    let want = canonical_form(&text);
    c.label_if(want.is_ok(), "accepted by all");
    c.nontrivial = want.is_ok();
    compare(&want, &printed, text.clone())
}

pub fn checks() -> Vec<Check> {
    vec![Check {
        id: "P11",
        rule: "a case is a document in free notation (or a damaged one that stays valid, or a graph built in code with its plain text) and its print by the library under drawn options, both given to Graphviz's nop and its canonical forms compared; non-trivial: Graphviz accepts the original and it has a statement; distinct by text",
        assumptions: vec!["Graphviz 2.43 as installed; # comments at the start of a line", "documents Graphviz rejects are not judged"],
        subs: vec![
            Sub::random("parsed documents", 36_000, 150_000, parsed),
            Sub::random("built graphs", 30_000, 120_000, built_graphs),
            Sub::random("damaged documents", 60_000, 150_000, damaged),
        ],
    }]
}
