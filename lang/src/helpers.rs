use crate::ast::*;
use graphviz_rust::dot_structures as ds;
use graphviz_rust::printer::{DotPrinter, PrinterContext};
use std::fmt::Write as _;
use vcore::model::{self as m, Id};
use vcore::refprint::{Opt, Opts};
use vcore::runner::{guarded, Case, Fail};

pub type R = Result<(), Fail>;

pub fn bad<T>(msg: impl Into<String>, input: impl Into<String>) -> Result<T, Fail> {
    Err(Fail { sig: String::new(), msg: msg.into(), input: input.into() })
}

/// parse of the library; a panic fails the property
pub fn lib_parse(text: &str) -> Result<Result<ds::Graph, String>, Fail> {
    match guarded(|| graphviz_rust::parse(text)) {
        Ok(r) => Ok(r),
        Err(p) => bad(format!("parse panicked: {p}"), text),
    }
}

pub fn must_parse(text: &str) -> Result<ds::Graph, Fail> {
    match lib_parse(text)? {
        Ok(g) => Ok(g),
        Err(e) => bad(format!("a valid document was rejected: {}", short(&e)), text),
    }
}

pub fn short(s: &str) -> String {
    vcore::runner::cut(s, 900)
}

pub fn context(o: &Opts) -> PrinterContext {
    let mut c = match &o.new {
        None => PrinterContext::default(),
        Some((semi, step, sep, size)) => PrinterContext::new(*semi, *step, sep.clone(), *size),
    };
    for x in &o.calls {
        apply(&mut c, x)
    }
    c
}

pub fn apply(c: &mut PrinterContext, o: &Opt) {
    match o {
        Opt::Inline => c.always_inline(),
        Opt::Semi => c.with_semi(),
        Opt::Mult => c.with_node_mult_attr_s_l(),
        Opt::NoComma => c.with_no_node_mult_attr_s_l_comma(),
        Opt::Step(n) => c.with_indent_step(*n),
        Opt::Sep(s) => c.with_line_sep(s.clone()),
        Opt::Size(n) => c.with_inline_size(*n),
    };
}

pub fn lib_print(g: &ds::Graph, c: &mut PrinterContext, input: &dyn Fn() -> String) -> Result<String, Fail> {
    match guarded(|| g.print(c)) {
        Ok(s) => Ok(s),
        Err(p) => bad(format!("print panicked: {p}"), input()),
    }
}

pub fn diff(a: &m::Graph, b: &m::Graph) -> String {
    let x = format!("{a:#?}");
    let y = format!("{b:#?}");
    let mut s = String::new();
    let (xs, ys): (Vec<&str>, Vec<&str>) = (x.lines().collect(), y.lines().collect());
    let k = xs.iter().zip(&ys).take_while(|(p, q)| p == q).count();
    let lo = k.saturating_sub(4);
    let _ = write!(s, "first difference at line {k} of the structure\nexpected: {}\ngot:      {}", xs[lo..(k + 5).min(xs.len())].join(" "), ys[lo..(k + 5).min(ys.len())].join(" "));
    short(&s)
}

/// the graph as reading its text gives it
pub fn canonical(g: &m::Graph) -> m::Graph {
    let mut g = g.clone();
    fn port(n: &mut m::NodeId) {
        if let Some(p) = &mut n.port {
            if p.compass.is_none() {
                if let Some(Id::Plain(s)) = &p.id {
                    if m::COMPASS.contains(&s.as_str()) {
                        *p = m::Port { id: None, compass: Some(s.clone()) }
                    }
                }
            }
        }
    }
    fn go(ss: &mut [m::Stmt]) {
        for s in ss {
            match s {
                m::Stmt::Edge(e) => {
                    e.pair = e.vs.len() == 2;
                    for v in &mut e.vs {
                        match v {
                            m::Vertex::N(n) => port(n),
                            m::Vertex::S(s) => go(&mut s.stmts),
                        }
                    }
                }
                m::Stmt::Sub(s) => go(&mut s.stmts),
                m::Stmt::Node(n, _) => port(n),
                _ => {}
            }
        }
    }
    go(&mut g.stmts);
    g
}

pub fn classify(c: &mut Case, g: &m::Graph) -> m::Facts {
    let f = g.facts();
    c.label_if(f.stmts == 0, "empty body");
    c.label_if(f.stmts >= 20, "20+ statements");
    c.label_if(f.depth >= 3, "nesting 3+");
    c.label_if(f.depth >= 8, "nesting 8+");
    c.label_if(f.chains > 0, "edge chain");
    c.label_if(f.sub_in_edge > 0, "subgraph as vertex");
    c.label_if(f.edge_starts_with_sub > 0, "edge starting with subgraph");
    c.label_if(f.anon_subs > 0, "unnamed subgraph");
    c.label_if(f.named_subs > 0, "named subgraph");
    c.label_if(f.ports > 0, "port");
    c.label_if(f.multi_attr_lists > 0, "2+ attributes in a list");
    c.label_if(f.empty_gattrs > 0, "empty default attributes");
    c.label_if(f.gattrs > 0, "default attributes");
    c.label_if(f.bare > 0, "bare attribute");
    c.label_if(f.quoted > 0, "quoted id");
    c.label_if(f.html > 0, "html id");
    c.label_if(f.numerals > 0, "numeral id");
    c.label_if(f.nonascii > 0, "non-ascii id");
    c.label_if(g.di, "digraph");
    c.label_if(g.strict, "strict");
    f
}

pub use vcore::damage::mutate;

pub enum Child {
    /// success, the end of the process in words, stdout, stderr
    Ended(bool, String, String, String),
    /// it was stopped
    Endless,
}

/// how long a child process may take: it needs a few seconds at most
pub const CHILD_S: u64 = 100;

/// this program again with the arguments of a child, for at most CHILD_S seconds
pub fn run_child(args: &[String]) -> Child {
    use std::io::Read;
    let mut p = std::process::Command::new(std::env::current_exe().unwrap())
        .args(args)
        .stdout(std::process::Stdio::piped())
        .stderr(std::process::Stdio::piped())
        .spawn()
        .expect("child");
    let (mut o, mut e) = (p.stdout.take().unwrap(), p.stderr.take().unwrap());
    let ho = std::thread::spawn(move || {
        let mut b = vec![];
        let _ = o.read_to_end(&mut b);
        String::from_utf8_lossy(&b).to_string()
    });
    let he = std::thread::spawn(move || {
        let mut b = vec![];
        let _ = e.read_to_end(&mut b);
        String::from_utf8_lossy(&b).to_string()
    });
    let t = std::time::Instant::now();
    let end = loop {
        if let Some(st) = p.try_wait().expect("child") {
            break Some(st);
        }
        if t.elapsed().as_secs() >= CHILD_S {
            let _ = p.kill();
            let _ = p.wait();
            break None;
        }
        std::thread::sleep(std::time::Duration::from_millis(5));
    };
    let (o, e) = (ho.join().unwrap_or_default(), he.join().unwrap_or_default());
    match end {
        Some(st) => Child::Ended(st.success(), st.to_string(), o, e),
        None => Child::Endless,
    }
}

/// An entry for child processes: parse a deeply nested text in a thread of a given stack size.
pub fn maybe_child() {
    let a: Vec<String> = std::env::args().collect();
    if a.len() >= 5 && (a[1] == "--child-deep" || a[1] == "--child-long") {
        // it does not outlive a check that was ended
        std::thread::spawn(|| {
            std::thread::sleep(std::time::Duration::from_secs(CHILD_S + 20));
            std::process::exit(3)
        });
        let kind: usize = a[2].parse().unwrap();
        let depth: usize = a[3].parse().unwrap();
        let stack: usize = a[4].parse().unwrap();
        let text = if a[1] == "--child-deep" { crate::parsing::deep_text(kind, depth) } else { crate::parsing::long_text(kind, depth) };
        let printing = a.len() >= 6;
        let f = move || {
            let r = graphviz_rust::parse(&text);
            match r {
                Ok(g) => {
                    println!("ok");
                    if printing {
                        // and so is printing it
                        let t = g.print(&mut PrinterContext::default());
                        println!("printed {}", t.matches(['{', '[', '<']).count());
                    }
                    // copying, comparing and giving the graph back is part of using it
                    if printing {
                        let h = g.clone();
                        println!("{}", if h == g { "equal" } else { "unequal" });
                    }
                    drop(g);
                    println!("dropped");
                }
                Err(e) => println!("err {}", if e.is_empty() { "empty" } else { "message" }),
            }
        };
        if stack == 0 {
            f()
        } else {
            std::thread::Builder::new().stack_size(stack).spawn(f).unwrap().join().unwrap()
        }
        std::process::exit(0)
    }
}

/// a graph in code whose anonymous parts carry the given text
pub fn built(g: &m::Graph, anon: &str) -> ds::Graph {
    let mut k = 0;
    Build {
        anon: &mut || {
            k += 1;
            if anon.is_empty() {
                String::new()
            } else {
                format!("{anon}{k}")
            }
        },
    }
    .graph(g)
}
