//! P17: programs that use the construction macros in every documented form, against the structure
//! each spells, written out with plain constructors.
use crate::prog::*;
use vcore::runner::*;
use vcore::tape::Src;

pub const EXTERNS: Externs = &[("dot_generator", "dot_generator_local"), ("dot_structures", "dot_structures_local")];

/// An expression and what it must equal.
#[derive(Clone)]
struct E {
    mac: String,
    want: String,
}

pub struct G<'a, 'b> {
    src: &'a mut Src,
    texts: usize,
    once: usize,
    budget: usize,
    forms: &'b mut Vec<&'static str>,
}

const WORDS: &[&str] = &["a", "abc", "node", "esc", "html", "strict", "di", "graph", "a b", "x_1", "", "\\\"q\\\"", "<b>", "é", "{}", "{x}", "1.5", "\\n", "Node"];

impl G<'_, '_> {
    fn arg(&mut self) -> String {
        let k = if self.texts > 0 && self.src.chance(70) { self.src.below(self.texts) } else { self.texts };
        if k == self.texts {
            self.texts += 1;
        }
        format!("s[{k}]")
    }

    /// an expression with a text to show, and an expression of type String for that text
    fn text(&mut self) -> (String, String) {
        let w = self.src.weighted(&[12, 5, 4, 3, 3, 3, 3, 3, 2, 2, 2, 2, 2, 2, 2, 2, 2, 2, 2, 2, 2, 2]);
        let form = ["a literal", "an indexed value", "a reference", "a number", "format!", "a call", "a method call", "a field", "a Display value", "a path call", "a block", "parentheses", "a variable", "if", "match", "concat!", "counted", "char or bool", "arithmetic", "a raw string", "a closure call", "a float"][w];
        self.forms.push(form);
        let s = |x: &str| format!("({x}).to_string()");
        match w {
            0 => {
                let l = format!("\"{}\"", self.src.pick(WORDS));
                (l.clone(), format!("String::from({l})"))
            }
            1 => {
                let a = self.arg();
                (a.clone(), format!("{a}.clone()"))
            }
            2 => {
                let a = self.arg();
                (format!("&{a}"), format!("{a}.clone()"))
            }
            3 => {
                let n = *self.src.pick(&["0", "1", "-1", "-5i32", "42u8", "-7i64", "1000"]);
                (n.to_string(), s(n))
            }
            4 => {
                let a = self.arg();
                let e = format!("format!(\"n{{}}\", {a})");
                (e, format!("[\"n\", &{a}].concat()"))
            }
            5 => {
                let a = self.arg();
                (format!("twice(&{a})"), format!("[&{a}[..], &{a}[..]].concat()"))
            }
            6 => {
                let a = self.arg();
                let e = *self.src.pick(&[".as_str()", ".clone()", ".to_string()", ".trim()", ".to_uppercase()", ".len()", ".chars().rev().collect::<String>()"]);
                (format!("{a}{e}"), s(&format!("{a}{e}")))
            }
            7 => {
                let a = self.arg();
                (format!("deep::P {{ name: {a}.clone() }}.name"), format!("{a}.clone()"))
            }
            8 => {
                let a = self.arg();
                (format!("Shown(&{a})"), format!("[&{a}[..], \"!\"].concat()"))
            }
            9 => {
                let a = self.arg();
                (format!("deep::id(&{a})"), format!("{a}.clone()"))
            }
            10 => {
                let a = self.arg();
                (format!("{{ let t = &{a}; t }}"), format!("{a}.clone()"))
            }
            11 => {
                let (m, w) = self.text();
                (format!("({m})"), w)
            }
            12 => {
                // variables named like what the macros use inside
                let v = *self.src.pick(&["attrs", "stmts", "stmts_vec", "attrs_vec", "edges_vec", "id", "name", "x", "html", "esc", "strict", "di", "node", "graph", "edge"]);
                (v.to_string(), format!("String::from(\"variable {v}\")"))
            }
            13 => {
                let a = self.arg();
                (format!("if {a}.is_empty() {{ \"none\" }} else {{ &{a} }}"), format!("(if {a}.is_empty() {{ \"none\" }} else {{ &{a}[..] }}).to_string()"))
            }
            14 => {
                let a = self.arg();
                (format!("match {a}.len() {{ 0 => \"zero\", _ => \"more\" }}"), format!("(if {a}.is_empty() {{ \"zero\" }} else {{ \"more\" }}).to_string()"))
            }
            15 => ("concat!(\"a\", 1, 'c')".into(), "String::from(\"a1c\")".into()),
            16 => {
                let (m, w) = self.text();
                let k = self.once;
                self.once += 1;
                (format!("once[{k}].hit(&({m}))"), w)
            }
            17 => {
                let c = *self.src.pick(&["'c'", "'\\''", "true", "false", "!true"]);
                (c.to_string(), s(c))
            }
            18 => {
                let a = self.arg();
                let e = format!("{a}.len() {} {}", self.src.pick(&["+", "*", "<<", "|", "&", "^"]), 1 + self.src.draw(3));
                (e.clone(), s(&e))
            }
            19 => ("r#\"a \"raw\" \\ text\"#".into(), "String::from(\"a \\\"raw\\\" \\\\ text\")".into()),
            20 => {
                let a = self.arg();
                (format!("(|t: &str| t.len())(&{a})"), s(&format!("{a}.len()")))
            }
            _ => {
                let n = *self.src.pick(&["1.5", "-0.25", "1e10", "f32::MAX", "0.1f32 + 0.2", "2.0"]);
                (n.to_string(), s(n))
            }
        }
    }

    /// an optional prefix and a text; the identifier it spells
    fn prefixed(&mut self) -> E {
        let (m, w) = self.text();
        match self.src.weighted(&[4, 3, 3]) {
            0 => E { mac: m, want: format!("Id::Plain({w})") },
            1 => {
                self.forms.push("esc");
                E { mac: format!("esc {m}"), want: format!("Id::Escaped([\"\\\"\", &{w}, \"\\\"\"].concat())") }
            }
            _ => {
                self.forms.push("html");
                E { mac: format!("html {m}"), want: format!("Id::Html({w})") }
            }
        }
    }

    const ANON: &'static str = "Id::Anonymous(String::new())";

    fn id(&mut self) -> E {
        if self.src.chance(15) {
            return E { mac: "id!()".into(), want: Self::ANON.into() };
        }
        let p = self.prefixed();
        E { mac: format!("id!({})", p.mac), want: p.want }
    }

    fn port(&mut self) -> E {
        match self.src.weighted(&[1, 2, 3, 2]) {
            0 => E { mac: "port!()".into(), want: "Port(None, None)".into() },
            1 => {
                let (m, w) = self.text();
                E { mac: format!("port!(, {m})"), want: format!("Port(None, Some({w}))") }
            }
            2 => {
                let i = self.id();
                let (m, w) = self.text();
                E { mac: format!("port!({}, {m})", i.mac), want: format!("Port(Some({}), Some({w}))", i.want) }
            }
            _ => {
                let i = self.id();
                E { mac: format!("port!({})", i.mac), want: format!("Port(Some({}), None)", i.want) }
            }
        }
    }

    fn node_id(&mut self) -> E {
        match self.src.weighted(&[1, 5, 3]) {
            0 => E { mac: "node_id!()".into(), want: format!("NodeId({}, None)", Self::ANON) },
            1 => {
                let i = self.prefixed();
                E { mac: format!("node_id!({})", i.mac), want: format!("NodeId({}, None)", i.want) }
            }
            _ => {
                let i = self.prefixed();
                let p = self.port();
                E { mac: format!("node_id!({}, {})", i.mac, p.mac), want: format!("NodeId({}, Some({}))", i.want, p.want) }
            }
        }
    }

    fn attr(&mut self) -> E {
        let (k, v) = (self.prefixed(), self.prefixed());
        E { mac: format!("attr!({}, {})", k.mac, v.mac), want: format!("Attribute({}, {})", k.want, v.want) }
    }

    fn wrap(&mut self, mac: String) -> String {
        match self.src.weighted(&[10, 1, 1, 1]) {
            0 => mac,
            1 => format!("({mac})"),
            2 => format!("{{ {mac} }}"),
            _ => {
                let k = self.once;
                self.once += 1;
                format!("once[{k}].hit({mac})")
            }
        }
    }

    fn attr_list(&mut self, least: usize) -> (Vec<String>, String) {
        let n = least + self.src.count(2, 6);
        let mut ms = vec![];
        let mut ws = vec![];
        for _ in 0..n {
            let a = self.attr();
            ms.push(self.wrap(a.mac));
            ws.push(a.want);
        }
        (ms, format!("Vec::from([{}])", ws.join(", ")))
    }

    /// a vector of the items, spelled one way or another
    fn vector(&mut self, items: &[String]) -> String {
        let list = items.join(", ");
        match self.src.weighted(&[6, 1, 1, 1]) {
            0 => format!("vec![{list}]"),
            1 if items.is_empty() => "Vec::new()".into(),
            1 | 2 => format!("Vec::from([{list}])"),
            _ if items.is_empty() => "vec![]".into(),
            _ => format!("{{ let mut v = Vec::new(); {} v }}", items.iter().map(|i| format!("v.push({i});")).collect::<String>()),
        }
    }

    /// the attributes of a node or edge: nothing, `, vec` or `; a, b`
    fn attr_tail(&mut self) -> (String, String) {
        match self.src.weighted(&[3, 4, 4]) {
            0 => (String::new(), "Vec::new()".into()),
            1 => {
                let (ms, w) = self.attr_list(0);
                self.forms.push("attributes as a vector");
                (format!(", {}", self.vector(&ms)), w)
            }
            _ => {
                let (ms, w) = self.attr_list(1);
                self.forms.push("attributes listed");
                (format!("; {}", ms.join(", ")), w)
            }
        }
    }

    fn gattrs(&mut self) -> E {
        let (kind, name) = *self.src.pick(&[("graph", "Graph"), ("node", "Node"), ("edge", "Edge")]);
        match self.src.weighted(&[1, 4, 4, 1]) {
            0 => E { mac: "attrs!()".into(), want: "GraphAttributes::Graph(Vec::new())".into() },
            1 => {
                let (ms, w) = self.attr_list(0);
                E { mac: format!("attrs!({kind} {})", self.vector(&ms)), want: format!("GraphAttributes::{name}({w})") }
            }
            2 => {
                let (ms, w) = self.attr_list(1);
                E { mac: format!("attrs!({kind}; {})", ms.join(", ")), want: format!("GraphAttributes::{name}({w})") }
            }
            _ => {
                let (ms, w) = self.attr_list(0);
                E { mac: format!("GraphAttributes::new(\"{kind}\", {})", self.vector(&ms)), want: format!("GraphAttributes::{name}({w})") }
            }
        }
    }

    fn node(&mut self) -> E {
        if self.src.chance(8) {
            return E { mac: "node!()".into(), want: format!("Node {{ id: NodeId({}, None), attributes: Vec::new() }}", Self::ANON) };
        }
        let i = self.prefixed();
        let (pm, pw) = if self.src.chance(35) {
            let p = self.port();
            self.forms.push("a node with a port");
            (format!(" => {}", p.mac), format!("Some({})", p.want))
        } else {
            (String::new(), "None".into())
        };
        let (tm, tw) = self.attr_tail();
        E { mac: format!("node!({}{pm}{tm})", i.mac), want: format!("Node {{ id: NodeId({}, {pw}), attributes: {tw} }}", i.want) }
    }

    fn vertex(&mut self, depth: usize) -> E {
        if depth == 0 || self.src.chance(65) {
            let n = self.node_id();
            E { mac: self.wrap(n.mac), want: format!("Vertex::N({})", n.want) }
        } else {
            let s = self.subgraph(depth - 1);
            self.forms.push("a subgraph as a vertex");
            E { mac: self.wrap(s.mac), want: format!("Vertex::S({})", s.want) }
        }
    }

    fn edge(&mut self, depth: usize) -> E {
        let n = 2 + if self.src.chance(50) { 1 + self.src.count(1, 5) } else { 0 };
        let vs: Vec<E> = (0..n).map(|_| self.vertex(depth)).collect();
        let (tm, tw) = self.attr_tail();
        let ms: Vec<&str> = vs.iter().map(|v| v.mac.as_str()).collect();
        let ws: Vec<&str> = vs.iter().map(|v| v.want.as_str()).collect();
        self.forms.push(if n == 2 { "a pair" } else { "a chain" });
        let ty = if n == 2 { format!("EdgeTy::Pair({})", ws.join(", ")) } else { format!("EdgeTy::Chain(Vec::from([{}]))", ws.join(", ")) };
        E { mac: format!("edge!({}{tm})", ms.join(" => ")), want: format!("Edge {{ ty: {ty}, attributes: {tw} }}") }
    }

    /// an element, and the statement it becomes
    fn delegate(&mut self, depth: usize) -> E {
        let (e, variant) = match self.src.weighted(&[4, 3, 3, 2, if depth > 0 { 3 } else { 0 }]) {
            0 => (self.node(), "Node"),
            1 => (self.edge(depth), "Edge"),
            2 => (self.attr(), "Attribute"),
            3 => (self.gattrs(), "GAttribute"),
            _ => (self.subgraph(depth - 1), "Subgraph"),
        };
        let mac = self.wrap(e.mac);
        E { mac, want: format!("Stmt::{variant}({})", e.want) }
    }

    /// the statements of a graph or subgraph: nothing, `, vec` or `; a, b`
    fn body(&mut self, depth: usize) -> (String, String) {
        let n = if self.budget == 0 { 0 } else { self.src.count(2, 5).min(self.budget) };
        self.budget -= n;
        match self.src.weighted(&[1, 3, 4]) {
            0 => (String::new(), "Vec::new()".into()),
            1 => {
                let mut ms = vec![];
                let mut ws = vec![];
                for _ in 0..n {
                    let d = self.delegate(depth);
                    ms.push(match self.src.weighted(&[4, 1, 1]) {
                        0 => format!("stmt!({})", d.mac),
                        1 => format!("Stmt::from({})", d.mac),
                        _ => format!("stmt!({{ {} }})", d.mac),
                    });
                    ws.push(d.want);
                }
                self.forms.push("statements as a vector");
                (format!(", {}", self.vector(&ms)), format!("Vec::from([{}])", ws.join(", ")))
            }
            _ => {
                let mut ms = vec![];
                let mut ws = vec![];
                for _ in 0..n.max(1) {
                    let d = self.delegate(depth);
                    ms.push(d.mac);
                    ws.push(d.want);
                }
                self.forms.push("statements listed");
                (format!("; {}", ms.join(", ")), format!("Vec::from([{}])", ws.join(", ")))
            }
        }
    }

    fn subgraph(&mut self, depth: usize) -> E {
        let anon = self.src.chance(25);
        let (bm, bw) = self.body(depth);
        if anon && !bm.starts_with(',') {
            return E { mac: format!("subgraph!({bm})"), want: format!("Subgraph {{ id: {}, stmts: {bw} }}", Self::ANON) };
        }
        let i = self.prefixed();
        E { mac: format!("subgraph!({}{bm})", i.mac), want: format!("Subgraph {{ id: {}, stmts: {bw} }}", i.want) }
    }

    fn graph(&mut self, depth: usize) -> E {
        let (strict, di) = (self.src.chance(50), self.src.chance(50));
        let (bm, bw) = self.body(depth);
        let i = self.id();
        let pre = format!("{}{}", if strict { "strict " } else { "" }, if di { "di " } else { "" });
        self.forms.push(match (strict, di) {
            (true, true) => "strict di",
            (true, false) => "strict",
            (false, true) => "di",
            _ => "plain graph",
        });
        E {
            mac: format!("graph!({pre}{}{bm})", i.mac),
            want: format!("Graph::{} {{ id: {}, strict: {strict}, stmts: {bw} }}", if di { "DiGraph" } else { "Graph" }, i.want),
        }
    }
}

/// One case: a macro expression, and the program that compares it.
pub fn program(src: &mut Src) -> (Prog, String, Vec<&'static str>) {
    let mut forms = vec![];
    let kind = src.weighted(&[6, 4, 3, 4, 3, 2, 2, 1, 1, 2]);
    let mut g = G { src, texts: 0, once: 0, budget: 14, forms: &mut forms };
    let (ty, e) = match kind {
        0 => ("Graph", g.graph(2)),
        1 => ("Subgraph", g.subgraph(2)),
        2 => ("Node", g.node()),
        3 => ("Edge", g.edge(2)),
        4 => ("Attribute", g.attr()),
        5 => ("GraphAttributes", g.gattrs()),
        6 => ("NodeId", g.node_id()),
        7 => ("Port", g.port()),
        8 => ("Id", g.id()),
        _ => {
            let d = g.delegate(1);
            ("Stmt", E { mac: format!("stmt!({})", d.mac), want: d.want })
        }
    };
    let (texts, once) = (g.texts, g.once);
    let mut vars = String::new();
    for v in ["attrs", "stmts", "stmts_vec", "attrs_vec", "edges_vec", "id", "name", "x", "html", "esc", "strict", "di", "node", "graph", "edge"] {
        if e.want.contains(&format!("\"variable {v}\"")) {
            vars.push_str(&format!("    let {v} = \"variable {v}\";\n"));
        }
    }
    let counters = (0..once).map(|_| "Once::new()").collect::<Vec<_>>().join(", ");
    let module = format!(
        "use dot_generator::*;\nuse dot_structures::*;\nuse super::{{deep, twice, Once, Shown}};\npub fn run(s: &[String]) -> Result<(), String> {{\n    let once: [Once; {once}] = [{counters}];\n    let want: {ty} = {};\n{vars}    let got: {ty} = {};\n    if got != want || format!(\"{{got:?}}\") != format!(\"{{want:?}}\") {{ return Err(format!(\"it is {{got:?}}, not {{want:?}}\")) }}\n    if let Some(k) = once.iter().position(|o| o.0.get() != 1) {{ return Err(format!(\"an argument is evaluated {{}} times\", once[k].0.get())) }}\n    Ok(())\n}}",
        e.want, e.mac
    );
    (Prog { module, texts }, e.mac, forms)
}

const ROUNDS: usize = 200;

fn case(src: &mut Src, c: &mut Case) -> Result<(), Fail> {
    let (p, shown, forms) = program(src);
    c.input(&shown);
    c.nontrivial = shown.matches("!(").count() > 1 || p.texts > 0;
    for f in forms {
        if !c.labels.contains(&f) {
            c.label(f)
        }
    }
    match outcome(&p, EXTERNS, seed(), ROUNDS) {
        Ok(n) => {
            c.evals = n;
            Ok(())
        }
        Err(e) => fail(format!("the construction is not what it spells: {e}"), shown),
    }
}

pub fn check() -> Check {
    Check {
        id: "P17",
        rule: "a case is a program expression using the construction macros, compiled against the repository's macros and evaluated with drawn texts (evaluations), compared with the structure written out with constructors; non-trivial: more than one macro or an argument from outside; distinct by expression",
        assumptions: vec!["the macros of /repo/dot-generator (the published crate the root package pulls in is not this repository's code)", "arguments are expressions that can be shown, as the macros' documentation says"],
        subs: vec![Sub::random("programs", 5_000, 60_000, case)],
    }
}

pub fn prepare_all(check: &Check, n: u64) {
    let sub = &check.subs[0];
    let ps = (0..n).map(|i| program(&mut case_src(check.id, sub, seed(), i)).0).collect();
    prepare(ps, EXTERNS, seed(), ROUNDS);
}
