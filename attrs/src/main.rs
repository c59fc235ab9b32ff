//! P16: the attribute helpers against a table of what each is (spec.txt).
mod table;
use graphviz_rust::attributes as a;
use graphviz_rust::dot_structures as ds;
use graphviz_rust::into_attr::IntoAttribute;
use lang::graphviz::canonical_form;
use lang::helpers::*;
use table::*;
use vcore::gen::{self, Cfg};
use vcore::refprint::gen_opts;
use vcore::runner::*;
use vcore::tape::{hash64, Src};

pub type Values = &'static [(&'static str, fn() -> ds::Attribute)];
pub enum Make {
    Text(fn(String) -> ds::Attribute),
    Bool(fn(bool) -> ds::Attribute),
    F32(fn(f32) -> ds::Attribute),
    I32(fn(i32) -> ds::Attribute),
    Color(fn(a::color_name) -> ds::Attribute),
    Values(Values),
}
pub struct Helper {
    pub name: &'static str,
    pub owner: &'static str,
    pub make: Make,
}

/// An argument, and what the value has to denote.
#[derive(Debug, Clone)]
enum Arg {
    Text(String),
    Bool(bool),
    F32(f32),
    I32(i32),
    Word(&'static str),
}

impl Arg {
    /// whether the text of a value denotes this argument
    fn is(&self, text: &str) -> bool {
        match self {
            Arg::Text(s) => text == s,
            Arg::Word(s) => text == *s,
            Arg::Bool(b) => text == if *b { "true" } else { "false" },
            Arg::I32(i) => text.parse::<i32>() == Ok(*i),
            Arg::F32(f) if f.is_nan() => text.parse::<f32>().is_ok_and(|x| x.is_nan()),
            Arg::F32(f) => text.parse::<f32>().is_ok_and(|x| x == *f && x.is_sign_negative() == f.is_sign_negative()),
        }
    }
}

fn float(src: &mut Src) -> f32 {
    match src.weighted(&[4, 3, 3, 2]) {
        0 => src.draw(400) as f32 / 8.0 - 10.0,
        1 => f32::from_bits(src.u64() as u32),
        2 => *src.pick(&[
            0.0, -0.0, 1.0, -1.0, 0.1, 1e-7, -1e-7, 1e7, 123456789.0, 16777216.0, 1e15, 1e16, 1e21, 3.4028235e38, -3.4028235e38, f32::MIN_POSITIVE, 1e-45, -1e-45, 0.3, 14.0,
            f32::EPSILON, 0.0555, 1.0e10, 8388608.5,
        ]),
        _ => (src.draw(2_000_000) as f32 - 1e6) / 1000.0,
    }
}

fn integer(src: &mut Src) -> i32 {
    match src.weighted(&[4, 3, 3]) {
        0 => src.draw(40) as i32 - 10,
        1 => src.u64() as u32 as i32,
        _ => *src.pick(&[0, 1, -1, i32::MAX, i32::MIN, i32::MAX - 1, i32::MIN + 1, 255, 256, 65535, 65536, 1000, -1000, 1_000_000]),
    }
}

fn text(src: &mut Src) -> String {
    match src.weighted(&[3, 3, 2, 2, 3, 1]) {
        0 => gen::word(src, false),
        1 => format!("\"{}\"", gen::word(src, false)),
        2 => gen::quoted(src, &Cfg::built()),
        3 => gen::html(src, &Cfg::built()),
        4 => {
            let n = src.count(6, 60);
            (0..n).map(|_| *src.pick(&['a', 'B', '0', '_', ' ', '"', '\\', '\n', '\t', '<', '>', '&', ';', '{', '}', '[', ']', ',', '=', '-', '.', 'é', '日', '🦀', '\u{0}', '\u{301}', '#', '/', '*'])).collect()
        }
        _ => src.pick(&["", "_", "__", "a_", "box_", "\"\"", "\\N", "true", "node", "1.0", " ", "x_ ", "_\n"]).to_string(),
    }
}

fn spell(h: &Helper, arg: &Arg) -> String {
    format!("{}::{}({arg:?})", h.owner, h.name)
}

/// Call a helper with a drawn argument.
fn call(src: &mut Src, h: &Helper) -> Result<(Arg, ds::Attribute), Fail> {
    let arg;
    let made = match &h.make {
        Make::Text(f) => {
            let t = text(src);
            arg = Arg::Text(t.clone());
            guarded(|| f(t))
        }
        Make::Bool(f) => {
            let b = src.chance(50);
            arg = Arg::Bool(b);
            guarded(|| f(b))
        }
        Make::F32(f) => {
            let x = float(src);
            arg = Arg::F32(x);
            guarded(|| f(x))
        }
        Make::I32(f) => {
            let x = integer(src);
            arg = Arg::I32(x);
            guarded(|| f(x))
        }
        Make::Color(f) => {
            let (n, c) = *src.pick(COLORS);
            arg = Arg::Word(n);
            guarded(|| f(c()))
        }
        Make::Values(vs) => {
            let (n, f) = *src.pick(vs);
            arg = Arg::Word(n);
            guarded(f)
        }
    };
    match made {
        Ok(x) => Ok((arg, x)),
        Err(e) => bad(format!("{} panics: {e}", spell(h, &arg)), spell(h, &arg)),
    }
}

fn judge(name: &str, arg: &Arg, got: &ds::Attribute, shown: &str) -> Result<(), Fail> {
    if got.0 != ds::Id::Plain(name.to_string()) {
        return bad(format!("{shown} is named {:?}, not {name}", got.0), shown);
    }
    match &got.1 {
        ds::Id::Plain(t) if arg.is(t) => Ok(()),
        v => bad(format!("the value of {shown} is {v:?}, which does not denote the argument"), shown),
    }
}

fn helpers(src: &mut Src, c: &mut Case) -> Result<(), Fail> {
    let h = &HELPERS[src.below(HELPERS.len())];
    let (arg, got) = call(src, h)?;
    let shown = spell(h, &arg);
    c.input(&shown);
    c.nontrivial = !matches!(&arg, Arg::Text(t) if t.is_empty());
    c.label(match &arg {
        Arg::Text(_) => "text",
        Arg::Bool(_) => "bool",
        Arg::F32(_) => "number",
        Arg::I32(_) => "integer",
        Arg::Word(_) => "enumerated",
    });
    judge(h.name, &arg, &got, &shown)
}

/// every value of every enumerated helper and type, every colour, both booleans, every default
fn listed() -> Vec<(String, &'static str, Arg, Box<dyn Fn() -> ds::Attribute + Send + Sync>)> {
    let mut v: Vec<(String, &'static str, Arg, Box<dyn Fn() -> ds::Attribute + Send + Sync>)> = vec![];
    for h in HELPERS {
        match &h.make {
            Make::Values(vs) => {
                for (n, f) in vs.iter() {
                    v.push((format!("{}::{}({n})", h.owner, h.name), h.name, Arg::Word(n), Box::new(f)))
                }
            }
            Make::Color(f) => {
                for (n, c) in COLORS {
                    v.push((format!("{}::{}({n})", h.owner, h.name), h.name, Arg::Word(n), Box::new(move || f(c()))))
                }
            }
            Make::Bool(f) => {
                for b in [false, true] {
                    v.push((format!("{}::{}({b})", h.owner, h.name), h.name, Arg::Bool(b), Box::new(move || f(b))))
                }
            }
            _ => {}
        }
    }
    for (name, vs) in ENUMS {
        for (n, f) in vs.iter() {
            v.push((format!("{name}::{n}.into_attr()"), name, Arg::Word(n), Box::new(f)))
        }
    }
    for (n, c) in COLORS {
        v.push((format!("color_name::{n}.into_attr()"), "color_name", Arg::Word(n), Box::new(move || c().into_attr())))
    }
    for (name, d, f) in DEFAULTS {
        let arg = match HELPERS.iter().find(|h| h.name == *name).map(|h| &h.make) {
            Some(Make::F32(_)) => Arg::F32(d.parse().unwrap()),
            Some(Make::I32(_)) => Arg::I32(d.parse().unwrap()),
            _ => Arg::Word(d),
        };
        v.push((format!("{name}::default().into_attr()"), name, arg, Box::new(f)))
    }
    v
}

/// values that Graphviz (2.43) cannot read as they stand; known findings
fn known_sig(name: &str, arg: &Arg) -> String {
    match (name, arg) {
        ("packmode", Arg::Word(w @ ("node" | "graph"))) => format!("packmode-{w}-is-a-keyword"),
        _ => String::new(),
    }
}

fn owner_stmt(owner: &str, at: ds::Attribute, i: usize) -> ds::Stmt {
    use ds::*;
    let n = |s: String| NodeId(Id::Plain(s), None);
    match owner {
        "GraphAttributes" => Stmt::Attribute(at),
        "NodeAttributes" => Stmt::Node(Node { id: n(format!("n{i}")), attributes: vec![at] }),
        "EdgeAttributes" => Stmt::Edge(Edge { ty: EdgeTy::Pair(Vertex::N(n(format!("e{i}"))), Vertex::N(n(format!("f{i}")))), attributes: vec![at] }),
        _ => Stmt::Subgraph(Subgraph { id: Id::Plain(format!("s{i}")), stmts: vec![Stmt::Attribute(at)] }),
    }
}

/// A helper given text in DOT notation keeps it under a plain id; what reads it back knows its kind.
fn read_as(g: &ds::Graph) -> ds::Graph {
    fn at(a: &mut ds::Attribute) {
        if let ds::Id::Plain(t) = &a.1 {
            if t.starts_with('"') {
                a.1 = ds::Id::Escaped(t.clone())
            } else if t.starts_with('<') {
                a.1 = ds::Id::Html(t.clone())
            }
        }
    }
    fn walk(ss: &mut [ds::Stmt]) {
        for s in ss {
            match s {
                ds::Stmt::Attribute(a) => at(a),
                ds::Stmt::Node(n) => n.attributes.iter_mut().for_each(at),
                ds::Stmt::Edge(e) => e.attributes.iter_mut().for_each(at),
                ds::Stmt::Subgraph(s) => walk(&mut s.stmts),
                _ => {}
            }
        }
    }
    let mut g = g.clone();
    match &mut g {
        ds::Graph::Graph { stmts, .. } | ds::Graph::DiGraph { stmts, .. } => walk(stmts),
    }
    g
}

fn accepted(stmts: Vec<ds::Stmt>, src: &mut Src, nop: bool) -> Result<String, Fail> {
    let g = ds::Graph::DiGraph { id: ds::Id::Plain("g".into()), strict: false, stmts };
    let o = gen_opts(src);
    let shown = format!("{g:?} under {o:?}");
    let t = lib_print(&g, &mut context(&o), &|| shown.clone())?;
    match lib_parse(&t)? {
        Err(e) => return bad(format!("attributes from the helpers do not parse once printed: {}", short(&e)), format!("{shown}\n{t}")),
        Ok(back) if back != read_as(&g) => return bad("attributes from the helpers come back changed", format!("{shown}\n{t}\n{back:?}")),
        Ok(_) => {}
    }
    if nop {
        if let Err(e) = canonical_form(&t) {
            return bad(format!("Graphviz rejects attributes from the helpers: {}", short(&e)), format!("{shown}\n{t}"));
        }
    }
    Ok(t)
}

/// A graph full of attributes from typed helpers and defaults survives printing and parsing.
fn documents(src: &mut Src, c: &mut Case) -> Result<(), Fail> {
    let n = 1 + src.count(8, 40);
    let mut stmts = vec![];
    let typed: Vec<&Helper> = HELPERS.iter().filter(|h| !matches!(h.make, Make::Text(_))).collect();
    let mut names = vec![];
    for i in 0..n {
        if src.chance(15) {
            let (name, d, f) = *src.pick(DEFAULTS);
            if !known_sig(name, &Arg::Word(d)).is_empty() {
                continue;
            }
            let owner = src.pick(HELPERS.iter().filter(|h| h.name == name).collect::<Vec<_>>().as_slice()).owner;
            stmts.push(owner_stmt(owner, f(), i));
            names.push(format!("{name}::default()"));
            c.label("default");
            continue;
        }
        let h = *src.pick(&typed);
        let (arg, at) = call(src, h)?;
        // Graphviz has no notation for the infinities; keywords are known findings of their own
        if matches!(arg, Arg::F32(f) if !f.is_finite()) || !known_sig(h.name, &arg).is_empty() {
            continue;
        }
        names.push(spell(h, &arg));
        stmts.push(owner_stmt(h.owner, at, i));
    }
    c.input(&names.join(" "));
    c.nontrivial = stmts.len() > 1;
    let nop = src.chance(10);
    c.label_if(nop, "also given to Graphviz");
    accepted(stmts, src, nop).map(|_| ())
}

/// Every listed value is accepted, without a warning about what it is, by Graphviz's layout too.
fn understood(name: &str, owner: &str, word: &str, at: ds::Attribute, src: &mut Src) -> Result<(), Fail> {
    let t = accepted(vec![owner_stmt(owner, at, 1)], src, true)?;
    if let "shape" | "arrowhead" | "arrowtail" | "bgcolor" | "color" | "fillcolor" | "fontcolor" | "labelfontcolor" | "pencolor" = name {
        use std::io::Write;
        let extra = t.replacen('{', "{ node [style=filled label=x]; edge [label=y headlabel=z]; ", 1);
        let mut ch = std::process::Command::new("/usr/bin/dot")
            .arg("-Tsvg")
            .stdin(std::process::Stdio::piped())
            .stdout(std::process::Stdio::null())
            .stderr(std::process::Stdio::piped())
            .spawn()
            .expect("dot");
        ch.stdin.take().unwrap().write_all(extra.as_bytes()).unwrap();
        let out = ch.wait_with_output().unwrap();
        let err = String::from_utf8_lossy(&out.stderr).to_string();
        if err.contains("nknown") || err.contains("not a known") || err.contains("unrecognized") {
            return bad(format!("Graphviz does not know {name}={word}: {}", short(&err)), t);
        }
    }
    Ok(())
}

fn main() {
    lang::helpers::maybe_child();
    let all = std::sync::Arc::new(listed());
    let n = all.len() as u64;
    let some = all.clone();
    let every = move |src: &mut Src, c: &mut Case| {
        let (shown, name, arg, f) = &all[src.draw(n) as usize];
        c.input(shown);
        c.nontrivial = true;
        c.label(if shown.contains("default") { "default" } else { "value" });
        match guarded(f) {
            Ok(at) => judge(name, arg, &at, shown),
            Err(e) => bad(format!("{shown} panics: {e}"), shown.clone()),
        }
    };
    // one owner of each enumerated attribute and value, and each default, given to Graphviz
    let picks: Vec<usize> = (0..some.len())
        .filter(|i| {
            let (shown, name, _, _) = &some[*i];
            !shown.contains("into_attr") && HELPERS.iter().find(|h| h.name == *name).is_some_and(|h| shown.starts_with(h.owner)) || shown.contains("default")
        })
        // the colours are one list: three attributes take them through the layout engine
        .filter(|i| !matches!(some[*i].1, "color" | "labelfontcolor" | "bgcolor") || some[*i].0.contains("default"))
        .collect();
    let m = picks.len() as u64;
    let graphviz = move |src: &mut Src, c: &mut Case| {
        let (shown, name, arg, f) = &some[picks[src.draw(m) as usize]];
        let owner = HELPERS.iter().find(|h| h.name == *name).unwrap().owner;
        c.input(shown);
        c.nontrivial = true;
        let word = match arg {
            Arg::Word(w) => w,
            _ => "",
        };
        let mut r = understood(name, owner, word, f(), src);
        if let Err(e) = &mut r {
            e.sig = known_sig(name, arg);
        }
        r
    };
    let margins = |src: &mut Src, c: &mut Case| {
        let (h, v) = (float(src), float(src));
        let shown = format!("NodeAttributes::margin_separate({h:?}, {v:?})");
        c.key = hash64(&[shown.as_bytes()]);
        c.sample = Some(shown.clone());
        c.nontrivial = true;
        let at = match guarded(|| a::NodeAttributes::margin_separate(h, v)) {
            Ok(x) => x,
            Err(e) => return bad(format!("{shown} panics: {e}"), shown),
        };
        if at.0 != ds::Id::Plain("margin".into()) {
            return bad(format!("{shown} is named {:?}", at.0), shown);
        }
        let (raw, escaped) = match &at.1 {
            ds::Id::Plain(t) => (t.clone(), false),
            ds::Id::Escaped(t) => (t.trim_matches('"').to_string(), true),
            v => return bad(format!("{shown} has the value {v:?}"), shown),
        };
        let right = raw.split_once(',').is_some_and(|(x, y)| Arg::F32(h).is(x.trim()) && Arg::F32(v).is(y.trim()));
        if !right {
            return bad(format!("the value of {shown} is {raw:?}"), shown);
        }
        if !h.is_finite() || !v.is_finite() {
            return Ok(());
        }
        let mut r = accepted(vec![owner_stmt("NodeAttributes", at, 1)], src, false).map(|_| ());
        if let Err(e) = &mut r {
            if !escaped {
                e.sig = "margin_separate-unquoted-pair".into();
            }
        }
        r
    };
    runner_main(n, m, every, graphviz, margins)
}

fn runner_main(
    n: u64,
    m: u64,
    every: impl Fn(&mut Src, &mut Case) -> Result<(), Fail> + Send + Sync + 'static,
    graphviz: impl Fn(&mut Src, &mut Case) -> Result<(), Fail> + Send + Sync + 'static,
    margins: impl Fn(&mut Src, &mut Case) -> Result<(), Fail> + Send + Sync + 'static,
) {
    vcore::runner::main(vec![Check {
        id: "P16",
        rule: "a case is one helper call with a drawn argument, one listed value or default, or a document full of helper-made attributes under drawn print options; non-trivial: not the empty text, a document with at least two attributes; distinct by call or by list of calls",
        assumptions: vec![
            "the table attrs/spec.txt: helpers, owners, kinds, values and defaults as Graphviz documents them",
            "infinities and not-a-number have no notation in Graphviz and are checked for their text only",
            "text helpers carry DOT text as given: quoting it is the caller's part, as the documentation's examples show",
        ],
        subs: vec![
            Sub::random("helper calls", 2_000_000, 40_000_000, helpers),
            Sub::all("every value and default", n, every),
            Sub::random("documents of helper attributes", 30_000, 600_000, documents),
            Sub::random("separate margins", 20_000, 200_000, margins),
            Sub::all("values known to Graphviz", m, graphviz),
        ],
    }])
}
