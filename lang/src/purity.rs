//! Nothing but the input counts (P22), and printing takes work in proportion (P23).
use crate::ast::*;
use crate::helpers::*;
use graphviz_rust::dot_structures as ds;
use graphviz_rust::printer::{DotPrinter, PrinterContext};
use std::sync::{Arc, Barrier, Mutex};
use vcore::gen::{self, Cfg};
use vcore::model::{self as m, Id};
use vcore::refparse::{self, Verdict};
use vcore::refprint::{self, gen_opts, Opts};
use vcore::render::{plain_toks, render, Notation};
use vcore::runner::*;
use vcore::tape::{hash64, Src};

/// A text of the same length and shape that means something else: one letter changed.
pub fn sibling(src: &mut Src, text: &str) -> String {
    let at: Vec<usize> = text.char_indices().filter(|(_, c)| c.is_ascii_lowercase() || c.is_ascii_digit()).map(|x| x.0).collect();
    if at.is_empty() {
        return text.to_string();
    }
    let i = *src.pick(&at);
    let c = text.as_bytes()[i];
    let d = if c.is_ascii_digit() { (b'0' + (c - b'0' + 1) % 10) as char } else { (b'a' + (c - b'a' + 1) % 26) as char };
    format!("{}{d}{}", &text[..i], &text[i + 1..])
}

struct Work {
    texts: Vec<(String, Verdict)>,
    graphs: Vec<(m::Graph, ds::Graph, Opts, String)>,
}

fn workload(src: &mut Src) -> Work {
    let small = Cfg { budget: 10, stmts: (2, 5), ..Cfg::parsed() };
    let mut texts: Vec<String> = vec![];
    for _ in 0..src.range(1, 4) {
        let g = gen::graph(src, &small);
        let t = match src.below(3) {
            0 => mutate(src, &g).0,
            _ => render(&g, src, Notation::Free),
        };
        for _ in 0..src.below(3) {
            let s = sibling(src, &t);
            texts.push(s)
        }
        texts.push(t);
    }
    let mut graphs = vec![];
    for _ in 0..src.range(1, 3) {
        let mut g = gen::graph(src, &Cfg { built: true, ..small.clone() });
        let size = plain_toks(&g).iter().map(|t| format!("{t:?}").len()).sum::<usize>();
        if src.draw(60) == 59 && !g.stmts.is_empty() && size < 900 {
            // thousands of statements; what is read too
            let n = *src.pick(&[300usize, 1100, 2100, 5000, 9000]) + src.below(3);
            let bare = src.chance(50);
            let (stmts, all) = (std::mem::take(&mut g.stmts), |s: &[m::Stmt]| s.iter().cloned().cycle().take(n).collect());
            g.stmts = if bare { all(&stmts) } else { vec![m::Stmt::Sub(m::Sub { id: Id::Plain("s".into()), stmts: all(&stmts) })] };
            if src.chance(50) {
                texts.push(render(&m::Graph { stmts: g.stmts.iter().take(3000).cloned().collect(), ..g.clone() }, src, Notation::Plain))
            }
        }
        let o = gen_opts(src);
        let want = refprint::print(&g, &o);
        // the same graph of the other kind, with the same options
        let mut h = g.clone();
        h.di = !h.di;
        let other = refprint::print(&h, &o);
        graphs.push((g.clone(), built(&g, ""), o.clone(), want));
        graphs.push((h.clone(), built(&h, ""), o, other));
    }
    let texts = texts.into_iter().map(|t| (t.clone(), refparse::parse(&t))).collect();
    Work { texts, graphs }
}

/// what reading a text gives, without the names of what is unnamed
fn reading(t: &str) -> Result<Result<m::Graph, String>, Fail> {
    Ok(lib_parse(t)?.map(|g| graph_to(&g)))
}

fn judge(t: &str, v: &Verdict, r: &Result<m::Graph, String>, when: &dyn Fn() -> String) -> R {
    match (v, r) {
        (Verdict::Accept(w), Ok(h)) | (Verdict::Lenient(w, _), Ok(h)) if w != h => bad(format!("{}: the document denotes another graph\n{}", when(), diff(w, h)), t),
        (Verdict::Accept(_), Err(e)) => bad(format!("{}: a valid document was rejected: {}", when(), short(e)), t),
        (Verdict::Reject(_), Ok(_)) => bad(format!("{}: a text that is not a document was accepted", when()), t),
        _ => Ok(()),
    }
}

fn names_of(g: &m::Graph) -> Vec<ds::Id> {
    let mut names = vec![];
    m::each_attr(&g.stmts, &mut |a| {
        if a.0 != Id::Anon && !names.contains(&a.0) && names.len() < 6 {
            names.push(a.0.clone())
        }
    });
    names.iter().map(|k| Build { anon: &mut String::new }.id(k)).collect()
}

/// the text of a graph each value of which is printed by something that parses and prints meanwhile
fn amid(w: &Work, k: usize, n: usize) -> Result<String, Fail> {
    let (g, lib, o, _) = &w.graphs[k];
    let inp = || format!("{g:?}\noptions {o:?}");
    let mut ctx = context(o);
    let failed: Arc<Mutex<Option<Fail>>> = Default::default();
    let text = w.texts[n % w.texts.len()].clone();
    let other = w.graphs[n % w.graphs.len()].clone();
    let calls = Arc::new(Mutex::new(0));
    if text.0.len() < 2000 && other.3.len() < 4000 {
        for name in names_of(g) {
            let (failed, text, other, calls) = (failed.clone(), text.clone(), other.clone(), calls.clone());
            ctx.with_attr_value_printer(
                name,
                Box::new(move |v, _, _, _| {
                    // not thousands of times
                    let mut n = calls.lock().unwrap_or_else(|e| e.into_inner());
                    *n += 1;
                    if *n < 20 {
                        let r = reading(&text.0).and_then(|r| judge(&text.0, &text.1, &r, &|| "while a graph is printed".into())).and_then(|_| {
                            let have = lib_print(&other.1, &mut context(&other.2), &|| format!("{:?}", other.0))?;
                            if have != other.3 {
                                return bad(format!("amid the printing of another graph it prints as {} instead of {}", short(&have), short(&other.3)), format!("{:?}\noptions {:?}", other.0, other.2));
                            }
                            Ok(())
                        });
                        if let Err(f) = r {
                            *failed.lock().unwrap_or_else(|e| e.into_inner()) = Some(f)
                        }
                    }
                    v.to_string()
                }),
            );
        }
    }
    let have = lib_print(lib, &mut ctx, &inp)?;
    let f = failed.lock().unwrap_or_else(|e| e.into_inner()).take();
    match f {
        Some(f) => Err(f),
        None => Ok(have),
    }
}

/// prints a graph with a value printer that panics the n-th time: what comes after is none the worse
fn gives_up(w: &Work, k: usize, n: usize) {
    let (g, lib, o, _) = &w.graphs[k];
    let mut ctx = context(o);
    let left = Arc::new(Mutex::new(n));
    for name in names_of(g) {
        let left = left.clone();
        ctx.with_attr_value_printer(
            name,
            Box::new(move |v, _, _, _| {
                let mut l = left.lock().unwrap_or_else(|e| e.into_inner());
                if *l == 0 {
                    drop(l);
                    panic!("a value printer of the harness gives up")
                }
                *l -= 1;
                v.to_string()
            }),
        );
    }
    let _ = guarded(|| lib.print(&mut ctx));
}

/// a history of parses and prints on one thread: everything again later, in another order
fn orders(src: &mut Src, c: &mut Case) -> R {
    let w = workload(src);
    let all: Vec<&str> = w.texts.iter().map(|t| t.0.as_str()).collect();
    let log = all.join("\n=== ");
    c.input(&log);
    let mut first: Vec<Option<Result<m::Graph, String>>> = vec![None; w.texts.len()];
    let mut again = 0;
    for _ in 0..src.range(3, 14) {
        if src.chance(70) {
            let i = src.below(w.texts.len());
            let (t, v) = &w.texts[i];
            let r = reading(t)?;
            judge(t, v, &r, &|| format!("after other parses ({log})"))?;
            match &first[i] {
                None => first[i] = Some(r),
                Some(f) => {
                    again += 1;
                    if *f != r {
                        return bad(format!("the same text reads differently the second time: {} and {}", short(&format!("{f:?}")), short(&format!("{r:?}"))), log);
                    }
                }
            }
        } else {
            let k = src.below(w.graphs.len());
            let (g, lib, o, want) = &w.graphs[k];
            let inp = || format!("{g:?}\noptions {o:?}");
            let how = src.weighted(&[8, 2, 1]);
            let have = match how {
                0 => lib_print(lib, &mut context(o), &inp)?,
                1 => {
                    c.label("other work amid printing");
                    amid(&w, k, src.below(1000))?
                }
                _ => {
                    c.label("a value printer that panics");
                    gives_up(&w, k, src.below(4));
                    continue;
                }
            };
            if have != *want {
                return bad(format!("after other work a graph prints differently\nexpected: {}\ngot: {}", short(want), short(&have)), inp());
            }
        }
    }
    c.nontrivial = again > 0;
    c.label_if(again > 0, "a text read again after others");
    c.label_if(w.texts.iter().any(|t| w.texts.iter().any(|u| u.0 != t.0 && u.0.len() == t.0.len())), "texts of equal length");
    Ok(())
}

/// the same work by several threads at once
fn at_once(src: &mut Src, c: &mut Case) -> R {
    let w = workload(src);
    let log = w.texts.iter().map(|t| t.0.clone()).collect::<Vec<_>>().join("\n=== ");
    c.input(&log);
    let threads = src.range(2, 6);
    let plan: Vec<Vec<usize>> = (0..threads).map(|_| (0..src.range(4, 16)).map(|_| src.below(w.texts.len() + w.graphs.len())).collect()).collect();
    c.evals = plan.iter().map(|p| p.len() as u64).sum();
    c.nontrivial = true;
    let start = Barrier::new(threads);
    let (w, start) = (&w, &start);
    let results: Vec<R> = std::thread::scope(|s| {
        let hs: Vec<_> = plan
            .iter()
            .map(|p| {
                s.spawn(move || -> R {
                    start.wait();
                    for &k in p {
                        if k < w.texts.len() {
                            let (t, v) = &w.texts[k];
                            judge(t, v, &reading(t)?, &|| "while other threads parse and print".to_string())?
                        } else {
                            let k = k - w.texts.len();
                            let (g, lib, o, want) = &w.graphs[k];
                            let inp = || format!("{g:?}\noptions {o:?}");
                            if (k + p.len()) % 5 == 0 {
                                gives_up(w, k, p.len() % 3);
                            }
                            let have = if (k + p.len()) % 4 == 0 { amid(w, k, p[0])? } else { lib_print(lib, &mut context(o), &inp)? };
                            if have != *want {
                                return bad(format!("while other threads work a graph prints differently\nexpected: {}\ngot: {}", short(want), short(&have)), inp());
                            }
                        }
                    }
                    Ok(())
                })
            })
            .collect();
        hs.into_iter().map(|h| h.join().unwrap_or_else(|_| bad("a thread panicked", log.clone()))).collect()
    });
    results.into_iter().collect::<Result<Vec<()>, Fail>>()?;
    Ok(())
}

/// edges whose vertices are subgraphs with edges whose vertices are ... and other nests
fn nest(src: &mut Src, depth: usize) -> (m::Graph, usize) {
    let p = |s: &str| Id::Plain(s.into());
    let n = |s: &str| m::Vertex::N(m::NodeId { id: Id::Plain(s.into()), port: None });
    let value = |k: usize| m::Attr(Id::Plain("k".into()), Id::Plain(format!("{k}")));
    let mut attrs = 1;
    let mut inner = vec![m::Stmt::Node(m::NodeId { id: p("z"), port: None }, vec![value(0)])];
    let fixed = src.below(7);
    for d in 1..=depth {
        let id = if src.chance(30) { p("s") } else { Id::Anon };
        let s = m::Sub { id, stmts: std::mem::take(&mut inner) };
        let kind = if fixed < 6 { fixed } else { src.below(6) };
        let a = if src.chance(30) {
            attrs += 1;
            vec![value(d)]
        } else {
            vec![]
        };
        inner.push(match kind {
            0 => m::Stmt::Edge(m::Edge { pair: true, vs: vec![n("a"), m::Vertex::S(s)], attrs: a }),
            1 => m::Stmt::Edge(m::Edge { pair: true, vs: vec![m::Vertex::S(s), n("a")], attrs: a }),
            2 => m::Stmt::Edge(m::Edge { pair: false, vs: vec![n("a"), m::Vertex::S(s), n("b")], attrs: a }),
            3 => m::Stmt::Edge(m::Edge { pair: false, vs: vec![m::Vertex::S(s), n("a"), n("b"), n("c")], attrs: a }),
            4 => m::Stmt::Edge(m::Edge { pair: true, vs: vec![n("a_name_that_is_too_long_to_be_put_on_one_line_with_anything_else_by_default_as_it_has_over_90_letters"), m::Vertex::S(s)], attrs: a }),
            _ => {
                if !a.is_empty() {
                    attrs -= 1
                }
                m::Stmt::Sub(s)
            }
        });
    }
    (m::Graph { di: src.chance(50), strict: false, id: p("g"), stmts: inner }, attrs)
}

fn print_work(src: &mut Src, c: &mut Case) -> R {
    let deep = *src.pick(&[12, 40, 90]);
    let depth = src.range(2, deep);
    let (g, attrs) = nest(src, depth);
    let o = gen_opts(src);
    let inp = || format!("{g:?}\noptions {o:?}");
    c.key = hash64(&[inp().as_bytes()]);
    c.sample = Some(inp());
    c.nontrivial = depth >= 4;
    c.label_if(depth >= 30, "nesting 30+");
    // values are printed once for the line and once for each attempt to put an edge around them on one line
    let limit = 4 * attrs * (depth + 2);
    let calls = Arc::new(Mutex::new(0usize));
    let mut ctx = context(&o);
    let k = calls.clone();
    ctx.with_attr_value_printer(
        ds::Id::Plain("k".into()),
        Box::new(move |v, _, _, _| {
            let mut n = k.lock().unwrap_or_else(|e| e.into_inner());
            *n += 1;
            if *n > limit {
                drop(n);
                panic!("more than {limit} values printed")
            }
            v.to_string()
        }),
    );
    let lib = built(&g, "");
    match guarded(|| lib.print(&mut ctx)) {
        Ok(t) => {
            let want = refprint::print(&g, &o);
            if t != want {
                return bad(format!("the nest prints as another text: {}", short(&t)), inp());
            }
            Ok(())
        }
        Err(p) if p.contains("values printed") => bad(format!("printing {attrs} attributes in {depth} nested elements: {p}"), inp()),
        Err(p) => bad(format!("print panicked: {p}"), inp()),
    }
}

/// everything the library parsed on a thread it can print, and print again, on that thread
fn print_totally(src: &mut Src, c: &mut Case) -> R {
    let cfg = Cfg::built();
    let g = gen::graph(src, &cfg);
    let o = gen_opts(src);
    let inp = || format!("{g:?}\noptions {o:?}");
    c.key = hash64(&[inp().as_bytes()]);
    c.sample = Some(inp());
    let f = classify(c, &g);
    c.nontrivial = f.stmts >= 1;
    let lib = built(&g, "");
    let t = lib_print(&lib, &mut context(&o), &inp)?;
    let u = match guarded(|| graphviz_rust::print(lib.clone(), &mut context(&o))) {
        Ok(u) => u,
        Err(p) => return bad(format!("print panicked: {p}"), inp()),
    };
    if t != u {
        return bad("graphviz_rust::print and the method give different texts", inp());
    }
    // every part of it on its own
    let (ds::Graph::Graph { id, stmts, .. } | ds::Graph::DiGraph { id, stmts, .. }) = &lib;
    let mut ctx: PrinterContext = context(&o);
    for s in stmts {
        if let Err(p) = guarded(|| (s.print(&mut ctx), id.print(&mut ctx))) {
            return bad(format!("printing a statement on its own panicked: {p}"), inp());
        }
    }
    match guarded(|| stmts.print(&mut ctx)) {
        Ok(_) => Ok(()),
        Err(p) => bad(format!("printing the statements on their own panicked: {p}"), inp()),
    }
}

/// deep nests that the library reads on a stack it prints on that stack
fn deep_print(src: &mut Src, c: &mut Case) -> R {
    const STACKS: [usize; 3] = [0, 2 << 20, 1 << 20];
    const PARTS: [usize; 4] = [8, 4, 2, 1];
    let kinds = crate::parsing::SUBGRAPH_NEST;
    let k = src.below(kinds.len() * STACKS.len() * PARTS.len());
    let kind = kinds[k % kinds.len()];
    let stack = STACKS[k / kinds.len() % STACKS.len()];
    let depth = 200 * if stack == 0 { 8 } else { stack >> 20 } / PARTS[k / kinds.len() / STACKS.len()];
    let what = format!("nesting {depth} of form {kind} ({}) read and printed on a stack of {}", short(&crate::parsing::deep_text(kind, 3)), if stack == 0 { "the main thread".into() } else { format!("{stack} bytes") });
    c.input(&what);
    c.nontrivial = true;
    match run_child(&["--child-deep".to_string(), kind.to_string(), depth.to_string(), stack.to_string(), "print".to_string()]) {
        Child::Endless => bad(format!("reading and printing did not end within {CHILD_S} s"), what),
        Child::Ended(ok, status, s, err) if s.starts_with("ok") && !(ok && s.contains("printed") && s.contains("\nequal\n") && s.trim().ends_with("dropped")) => {
            bad(format!("printing ended the process: {status} (said {s:?}; {})", short(&err)), what)
        }
        _ => Ok(()),
    }
}

pub fn checks() -> Vec<Check> {
    let (nlong, long_print) = crate::parsing::long_on_small_stacks(true);
    vec![
        Check {
            id: "P22",
            rule: "a case is a set of texts (valid, damaged, and siblings of equal length) and graphs with options, parsed and printed in a drawn order with repetitions on one thread, or by two to six threads at once, each result compared with the reference reader and printer and with the first time; non-trivial: a text is read again, or several threads; distinct by texts",
            assumptions: vec!["the threads are scheduled as the system does it; a barrier starts them together"],
            subs: vec![Sub::random("orders", 100_000, 2_000_000, orders), Sub::random("at once", 12_000, 200_000, at_once).threads(4)],
        },
        Check {
            id: "P23",
            rule: "a case is a nest of edges and subgraphs printed with a counting value printer under drawn options; or a graph and its parts printed in every way offered; or a document nested up to 200 levels per MiB of stack, or with a list or chain of 100000, read and printed in a child process; or a graph whose text has 128 KiB and one 32 times as large, compared by processor time; non-trivial: at least four levels (one statement); distinct by graph and options",
            assumptions: vec!["a value may be printed once per enclosing edge and level, with a margin of four", "nesting within what the parser handles"],
            subs: vec![Sub::random("work", 200_000, 1_500_000, print_work), Sub::random("growth", 240, 4_000, crate::growth::printing), Sub::random("every way to print", 400_000, 3_000_000, print_totally), Sub::all("deep nests", 7 * 3 * 4, deep_print), Sub::all("long texts", nlong, long_print)],
        },
    ]
}
