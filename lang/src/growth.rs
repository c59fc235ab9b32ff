//! The time of the library's work against the size of its input (P04, P23): a text or graph 32 times as large
//! may take 32 times as long, and some more, but not hundreds of times as long. Processor time of the calling
//! thread, the best of several; a suspicion has to hold three times in a row.
use crate::helpers::*;
use graphviz_rust::dot_structures as ds;
use graphviz_rust::printer::DotPrinter;
use vcore::gen::{self, Cfg};
use vcore::model::{self as m, Id};
use vcore::reflex::Tok;
use vcore::refprint::{gen_opts, Opts};
use vcore::render::{join, plain_toks, Notation};
use vcore::runner::*;
use vcore::tape::Src;

pub const TIMES: usize = 32;
/// proportionate work takes TIMES times as long, work that is quadratic TIMES squared
const PARSING: f64 = 5.0 * TIMES as f64;
const PRINTING: f64 = 7.0 * TIMES as f64;

#[repr(C)]
struct Timespec {
    sec: i64,
    nsec: i64,
}
extern "C" {
    fn clock_gettime(clock: i32, t: *mut Timespec) -> i32;
}

/// processor time this thread has used, in seconds
fn cpu() -> f64 {
    let mut t = Timespec { sec: 0, nsec: 0 };
    // CLOCK_THREAD_CPUTIME_ID
    unsafe { clock_gettime(3, &mut t) };
    t.sec as f64 + t.nsec as f64 * 1e-9
}

fn best<T>(n: usize, mut f: impl FnMut() -> Result<T, Fail>) -> Result<f64, Fail> {
    let mut b = f64::MAX;
    for _ in 0..n {
        let t = cpu();
        let r = f()?;
        let d = cpu() - t;
        drop(r);
        b = b.min(d);
        if d > 2.0 {
            break;
        }
    }
    Ok(b)
}

fn judge(allowed: f64, what: &str, mut small: impl FnMut() -> Result<f64, Fail>, mut large: impl FnMut() -> Result<f64, Fail>) -> R {
    let mut said = String::new();
    for _ in 0..3 {
        let (a, b) = (small()?, large()?);
        if b <= allowed * a.max(3e-4) {
            return Ok(());
        }
        let clear = b > 8.0 && b > 2.0 * allowed * a;
        said = format!("{:.1} ms, {TIMES} times the size takes {:.1} ms", a * 1e3, b * 1e3);
        if clear {
            break;
        }
    }
    bad(format!("the work does not stay in proportion: {said}"), what)
}

/// stands for the number of the repetition: a character of identifiers that no generator uses
const NUMBER: char = '\u{e123}';

fn number(i: usize) -> String {
    format!("_{i:06}")
}

/// tokens of the statements of a small graph
fn unit(src: &mut Src, cfg: &Cfg, numbered: bool) -> (m::Graph, String) {
    let mut budget = src.range(1, 4);
    let stmts = gen::stmts(src, cfg, 2, &mut budget);
    let mut g = m::Graph { di: src.chance(50), strict: false, id: Id::Anon, stmts };
    if numbered {
        g = m::map_ids(&g, &mut |i| m::with_number(i, &NUMBER.to_string()))
    }
    let ts = plain_toks(&g);
    let i = ts.iter().position(|t| *t == Tok::P('{')).unwrap_or(0);
    let body = ts[(i + 1).min(ts.len())..ts.len() - 1].to_vec();
    let how = if src.chance(50) { Notation::Free } else { Notation::Plain };
    let s = join(&body, src, how);
    (g, s)
}

/// a text of about the given size, and one TIMES as large, of the same construction
pub struct Texts {
    pub small: String,
    pub large: String,
    pub what: String,
}

pub fn texts(src: &mut Src, size: usize) -> Texts {
    // other names in each repetition, or the same
    let numbered = src.chance(50);
    let (a, r, z) = match src.weighted(&[5, 2, 3]) {
        0 => {
            let (g, s) = unit(src, &Cfg::parsed(), numbered);
            let head = if g.di { "digraph g {" } else { "graph {" };
            (head.to_string(), s + "\n", "}".to_string())
        }
        1 => {
            let (mut k, mut v) = (gen::id(src, &Cfg::parsed()), gen::id(src, &Cfg::parsed()));
            if numbered {
                (k, v) = (m::with_number(&k, &NUMBER.to_string()), m::with_number(&v, &NUMBER.to_string()))
            }
            let t = |i: &Id| join(&[Tok::Id(i.clone())], &mut Src::replay(vec![]), Notation::Plain);
            (format!("graph {{ {} [", src.pick(&["a", "a -- b", "node", "{c} -- d"])), format!("{} = {} ,\n", t(&k), t(&v)), "]}".to_string())
        }
        _ => {
            let (a, r, core, z) = crate::parsing::LONG[src.below(crate::parsing::LONG.len())];
            (a.to_string(), r.to_string(), format!("{core}{z}"))
        }
    };
    // it may be rejected only at the end, or for a missing end
    let z = match src.weighted(&[6, 1, 1, 1, 1]) {
        0 => z,
        1 => String::new(),
        2 => z + " x",
        3 => z + "\"",
        _ => "]".to_string() + &z,
    };
    let n = size / r.len().max(1) + 1;
    let text = |n: usize| match r.contains(NUMBER) {
        true => format!("{a}{}{z}", (0..n).map(|i| r.replace(NUMBER, &number(i))).collect::<String>()),
        false => format!("{a}{}{z}", r.repeat(n)),
    };
    Texts { small: text(n), large: text(TIMES * n), what: format!("{a}{r}... ({n} and {} times){z}", TIMES * n) }
}

pub fn parsing(src: &mut Src, c: &mut Case) -> R {
    let t = texts(src, 32_768);
    c.input(&t.what);
    c.nontrivial = true;
    let ok = lib_parse(&t.small)?.is_ok();
    c.label(if ok { "accepted" } else { "rejected" });
    judge(PARSING, &t.what, || best(3, || lib_parse(&t.small)), || best(2, || lib_parse(&t.large)))
}

/// a graph whose text has about the given size, and one TIMES as large, of the same construction
pub struct Graphs {
    pub small: ds::Graph,
    pub large: ds::Graph,
    pub opts: Opts,
    pub what: String,
    kind: usize,
    nontrivial: bool,
}

pub fn graphs(src: &mut Src, size: usize) -> Result<Graphs, Fail> {
    let cfg = Cfg::built();
    let o = gen_opts(src);
    let n1 = |s: &str| m::Vertex::N(m::NodeId { id: Id::Plain(s.into()), port: None });
    let kind = src.weighted(&[5, 3, 2, 3, 1]);
    let (base, _) = unit(src, &cfg, false);
    let at = gen::attr(src, &cfg);
    let deep = src.below(4);
    let (lone, vs) = {
        let mut budget = 3;
        (src.chance(50), (0..src.range(1, 3)).map(|_| if src.chance(30) { m::Vertex::S(gen::sub(src, &cfg, 1, &mut budget)) } else { m::Vertex::N(gen::node_id(src, &cfg)) }).collect::<Vec<_>>())
    };
    let numbered = src.chance(50);
    let make = |n: usize| -> m::Graph {
        let one = |i: usize, g: &m::Graph| match numbered {
            true => m::map_ids(g, &mut |id| m::with_number(id, &number(i))),
            false => g.clone(),
        };
        let at_of = |i: usize| match numbered {
            true => m::Attr(m::with_number(&at.0, &number(i)), m::with_number(&at.1, &number(i))),
            false => at.clone(),
        };
        let vs_of = |i: usize| {
            let edge = m::Stmt::Edge(m::Edge { pair: false, vs: vs.clone(), attrs: vec![] });
            match one(i, &m::Graph { stmts: vec![edge], ..base.clone() }).stmts.pop() {
                Some(m::Stmt::Edge(e)) => e.vs,
                _ => vec![],
            }
        };
        let list = |n: usize| (0..n).map(at_of).collect::<Vec<_>>();
        let mut stmts: Vec<m::Stmt> = match kind {
            0 => (0..n).flat_map(|i| one(i, &base).stmts).collect(),
            1 if lone => vec![m::Stmt::Node(m::NodeId { id: Id::Plain("a".into()), port: None }, list(n))],
            1 => vec![m::Stmt::Edge(m::Edge { pair: true, vs: vec![n1("a"), n1("b")], attrs: list(n) })],
            2 => vec![m::Stmt::GAttr(m::GKind::Node, list(n))],
            3 => vec![m::Stmt::Edge(m::Edge { pair: false, vs: std::iter::once(n1("a")).chain((0..n).flat_map(vs_of)).chain([n1("z")]).collect(), attrs: list(1) })],
            _ => (0..n).map(|i| m::Stmt::Attr(at_of(i))).collect(),
        };
        for d in 0..deep {
            let s = m::Sub { id: Id::Plain(format!("s{d}")), stmts };
            stmts = vec![if d % 2 == 1 { m::Stmt::Edge(m::Edge { pair: true, vs: vec![n1("a"), m::Vertex::S(s)], attrs: vec![] }) } else { m::Stmt::Sub(s) }];
        }
        m::Graph { stmts, ..base.clone() }
    };
    let print = |g: &ds::Graph| match guarded(|| g.print(&mut context(&o))) {
        Ok(t) => Ok(t),
        Err(p) => bad(format!("print panicked: {p}"), "a long graph"),
    };
    let probe = |n: usize| print(&built(&make(n), "")).map(|t| t.len());
    let (p1, p9) = (probe(1)?, probe(9)?);
    let per = (p9.saturating_sub(p1) / 8).max(1);
    let n = size / per + 1;
    let what = format!("{:?} ({n} and {} times) with {o:?}", make(1), TIMES * n);
    Ok(Graphs { small: built(&make(n), ""), large: built(&make(TIMES * n), ""), opts: o, what, kind, nontrivial: per > 1 })
}

pub fn printing(src: &mut Src, c: &mut Case) -> R {
    let g = graphs(src, 131_072)?;
    c.input(&g.what);
    c.nontrivial = g.nontrivial;
    c.label(["statements", "a list of attributes", "defaults", "a chain", "bare attributes"][g.kind]);
    let print = |x: &ds::Graph| match guarded(|| x.print(&mut context(&g.opts))) {
        Ok(t) => Ok(t),
        Err(p) => bad(format!("print panicked: {p}"), "a long graph"),
    };
    judge(PRINTING, &g.what, || best(3, || print(&g.small)), || best(2, || print(&g.large)))
}
