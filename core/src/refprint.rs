//! A pure reference printer: the documented layout as a function of graph and options,
//! with no state carried along.
use crate::model::*;
use crate::tape::Src;

#[derive(Clone, Debug, PartialEq)]
pub enum Opt {
    Inline,
    Semi,
    Mult,
    NoComma,
    Step(usize),
    Sep(String),
    Size(usize),
}

/// The options of a context, as the sequence of calls that makes them.
#[derive(Clone, Debug, PartialEq)]
pub struct Opts {
    /// PrinterContext::new(semi, step, line separator, inline size) instead of default()
    pub new: Option<(bool, usize, String, usize)>,
    pub calls: Vec<Opt>,
}

/// What the options amount to.
#[derive(Clone, Debug)]
pub struct Layout {
    pub semi: bool,
    pub mult: bool,
    pub comma: bool,
    pub step: usize,
    pub size: usize,
    /// separator in multi-line text; None: everything inline
    pub multi: Option<String>,
    pub inline: String,
}

impl Opts {
    pub fn layout(&self) -> Layout {
        let (mut l, mut sep) = match &self.new {
            None => (Layout { semi: false, mult: false, comma: true, step: 2, size: 90, multi: None, inline: String::new() }, "\n".to_string()),
            Some((semi, step, s, size)) => (Layout { semi: *semi, mult: false, comma: true, step: *step, size: *size, multi: None, inline: s.clone() }, s.clone()),
        };
        for o in &self.calls {
            match o {
                Opt::Inline => sep = l.inline.clone(),
                Opt::Semi => l.semi = true,
                Opt::Mult => l.mult = true,
                Opt::NoComma => l.comma = false,
                Opt::Step(n) => l.step = *n,
                Opt::Sep(s) => sep = s.clone(),
                Opt::Size(n) => l.size = *n,
            }
        }
        if sep != l.inline {
            l.multi = Some(sep)
        }
        l
    }
}

/// a text that keeps tokens apart: white space, now and then with a comment
fn separator(src: &mut Src) -> String {
    match src.weighted(&[150, 36, 13, 1]) {
        0 => src.pick(&["\n", "", "\r\n", " ", "\t", "\n\n", "\n  ", "\r"]).to_string(),
        1 => (0..src.range(1, 6)).map(|_| *src.pick(&[' ', '\n', '\t', '\r'])).collect(),
        3 => src.pick(&["\n", " ", "\r\n", "\t"]).repeat(src.range(6, 1000)),
        _ => src.pick(&["/**/", " /* x */ ", "\n// x\n", "\n#\n", "\n\n/*\n*/\n"]).to_string(),
    }
}

pub fn gen_opt(src: &mut Src) -> Opt {
    match src.weighted(&[14, 14, 20, 10, 14, 14, 14]) {
        0 => Opt::Semi,
        1 => Opt::Inline,
        2 => Opt::Mult,
        3 => Opt::NoComma,
        4 => Opt::Step(match src.weighted(&[140, 50, 9, 1]) {
            0 => *src.pick(&[2usize, 0, 1, 3, 4, 7, 8]),
            1 => src.range(5, 40),
            2 => src.range(40, 300),
            _ => src.range(300, 5000),
        }),
        5 => Opt::Sep(separator(src)),
        _ => Opt::Size(match src.weighted(&[40, 30, 30, 5]) {
            0 => *src.pick(&[90usize, 0, 1, 5, 1000, usize::MAX]),
            1 => src.range(2, 40),
            3 => src.range(200, 5000),
            _ => src.range(20, 200),
        }),
    }
}

pub fn gen_opts(src: &mut Src) -> Opts {
    let new = if src.chance(25) {
        Some((
            src.chance(50),
            if src.chance(95) { src.range(0, 5) } else { src.range(5, 40) },
            if src.chance(85) { src.pick(&["\n", "", " ", "\r\n", "\t"]).to_string() } else { separator(src) },
            *src.pick(&[90usize, 0, 20, 40, 1000]),
        ))
    } else {
        None
    };
    let n = src.count(2, 7);
    Opts { new, calls: (0..n).map(|_| gen_opt(src)).collect() }
}

/// Replaces the value of an attribute; gets name, printed value, separator, indentation, step.
pub type ValueFn<'a> = &'a dyn Fn(&Id, &str, &str, &str, usize) -> Option<String>;

pub struct Printer<'a> {
    pub l: &'a Layout,
    pub di: bool,
    pub value: Option<ValueFn<'a>>,
}

/// where in the layout something is printed
#[derive(Clone, Copy)]
struct At {
    /// columns of the current statement
    indent: usize,
    inline: bool,
}

fn id(i: &Id) -> &str {
    match i {
        Id::Plain(s) | Id::Quoted(s) | Id::Html(s) => s,
        Id::Anon => "",
    }
}

fn idchar(c: char) -> bool {
    c.is_ascii_alphanumeric() || c == '_' || c == '.' || c == '-' || !c.is_ascii()
}

impl<'a> Printer<'a> {
    fn sep(&self, at: At) -> &str {
        match (&self.l.multi, at.inline) {
            (Some(s), false) => s,
            _ => &self.l.inline,
        }
    }
    fn pad(&self, at: At) -> String {
        if at.inline {
            String::new()
        } else {
            " ".repeat(at.indent)
        }
    }
    fn deeper(&self, at: At) -> At {
        At { indent: at.indent + self.l.step, ..at }
    }
    fn top(&self) -> At {
        At { indent: 0, inline: self.l.multi.is_none() }
    }
    pub fn graph(&self, g: &Graph) -> String {
        let at = self.top();
        format!(
            "{}{} {} {{{}{}{}}}",
            if g.strict { "strict " } else { "" },
            if g.di { "digraph" } else { "graph" },
            id(&g.id),
            self.sep(at),
            self.stmts(&g.stmts, self.deeper(at)),
            self.sep(at)
        )
    }
    fn stmts(&self, ss: &[Stmt], at: At) -> String {
        let mut o = String::new();
        for (i, s) in ss.iter().enumerate() {
            if i > 0 {
                o.push_str(self.sep(at))
            }
            let t = format!("{}{}{}", self.pad(at), self.stmt_text(s, at), if self.l.semi { ";" } else { "" });
            // nothing else between two words: a blank keeps them apart
            if o.ends_with(idchar) && t.starts_with(idchar) {
                o.push(' ')
            }
            o.push_str(&t)
        }
        o
    }
    fn stmt_text(&self, s: &Stmt, at: At) -> String {
        match s {
            Stmt::Node(n, a) => format!("{}{}", self.node_id(n), self.attrs(a, at)),
            Stmt::Attr(a) => self.attr(a, at),
            Stmt::GAttr(k, a) => {
                let t = self.attrs(a, at);
                format!("{}{}", k.word(), if a.is_empty() { "[]".into() } else { t })
            }
            Stmt::Sub(x) => self.sub(x, at),
            Stmt::Edge(e) => self.edge(e, at),
        }
    }
    pub fn stmt_alone(&self, s: &Stmt) -> String {
        self.stmt_text(s, self.top())
    }
    fn sub(&self, s: &Sub, at: At) -> String {
        format!("subgraph {} {{{}{}{}{}}}", id(&s.id), self.sep(at), self.stmts(&s.stmts, self.deeper(at)), self.sep(at), self.pad(at))
    }
    fn node_id(&self, n: &NodeId) -> String {
        let mut o = id(&n.id).to_string();
        if let Some(p) = &n.port {
            for x in [p.id.as_ref().map(id), p.compass.as_deref()].into_iter().flatten() {
                o.push(':');
                o.push_str(x)
            }
        }
        o
    }
    fn attr(&self, a: &Attr, at: At) -> String {
        let v = id(&a.1);
        let v = self.value.and_then(|f| f(&a.0, v, self.sep(at), &self.pad(at), self.l.step)).unwrap_or_else(|| v.to_string());
        format!("{}={}", id(&a.0), v)
    }
    fn attrs(&self, a: &[Attr], at: At) -> String {
        let v: Vec<String> = a.iter().map(|x| self.attr(x, at)).collect();
        if v.is_empty() {
            return String::new();
        }
        if v.len() == 1 || !self.l.mult {
            return format!("[{}]", v.join(" "));
        }
        let inner = self.deeper(at);
        let sep = self.sep(at);
        let comma = if at.inline || self.l.comma || sep.is_empty() { "," } else { "" };
        let glue = format!("{comma}{sep}{}", self.pad(inner));
        format!("[{sep}{}{}{sep}{}]", self.pad(inner), v.join(&glue), self.pad(at))
    }
    fn edge_at(&self, e: &Edge, at: At) -> String {
        let mut o = String::new();
        for (i, v) in e.vs.iter().enumerate() {
            if i > 0 {
                o.push_str(if self.di { " -> " } else { " -- " })
            }
            match v {
                Vertex::N(n) => o.push_str(&self.node_id(n)),
                Vertex::S(s) => o.push_str(&self.sub(s, at)),
            }
        }
        let a = self.attrs(&e.attrs, at);
        if e.pair && !a.is_empty() {
            o.push(' ')
        }
        o + &a
    }
    fn edge(&self, e: &Edge, at: At) -> String {
        let t = self.edge_at(e, at);
        if !at.inline && t.len() <= self.l.size {
            self.edge_at(e, At { inline: true, ..at })
        } else {
            t
        }
    }
}

pub fn print(g: &Graph, o: &Opts) -> String {
    let l = o.layout();
    Printer { l: &l, di: g.di, value: None }.graph(g)
}
