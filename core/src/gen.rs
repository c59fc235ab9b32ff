//! Generators of graphs and identifiers, on the choice tape.
use crate::model::*;
use crate::tape::Src;

#[derive(Clone)]
pub struct Cfg {
    pub max_depth: usize,
    /// mean and cap of the number of statements per body
    pub stmts: (usize, usize),
    pub budget: usize,
    pub nonascii: bool,
    /// chains may have exactly two vertices and pairs may appear: only for graphs built in code
    pub built: bool,
    /// only what Graphviz understands as this parser does
    pub graphviz: bool,
}

impl Cfg {
    pub fn parsed() -> Cfg {
        Cfg { max_depth: 4, stmts: (3, 12), budget: 60, nonascii: true, built: false, graphviz: false }
    }
    pub fn built() -> Cfg {
        Cfg { built: true, ..Cfg::parsed() }
    }
    /// picks an overall size for this case
    pub fn sized(mut self, src: &mut Src) -> Cfg {
        match src.weighted(&[550, 250, 100, 55, 40, 5]) {
            0 => {}
            1 => self.stmts = (1, 3),
            2 => {
                self.stmts = (6, 40);
                self.budget = 160
            }
            3 => {
                self.max_depth = 14;
                self.stmts = (1, 3);
                self.budget = 60
            }
            5 => {
                self.max_depth = 60;
                self.stmts = (1, 2);
                self.budget = 120
            }
            _ => {
                self.max_depth = 3;
                self.stmts = (1, 2);
                self.budget = 12
            }
        }
        self
    }
}

const NAMES: [&str; 14] = ["a", "b", "c", "d", "x", "y", "n1", "A", "B2", "foo", "bar_baz", "_x", "Z9", "long_name_0123456789"];
const KEYISH: [&str; 34] = [
    "N", "NE", "Sw", "C", "__", "nn", "nne", "sn", "cc", "ew",
    "nodes", "node1", "graphx", "graph_", "digraphs", "digraph2", "subgraphs", "subgraph1", "subgraph_a", "strictly", "strict_", "edges", "edge_1", "Graph_",
    "NODEx", "n0de", "nodee", "egde", "sub", "strictgraph", "graphgraph", "di", "edge\u{e9}", "_node",
];
const NUMS: [&str; 18] = ["0", "1", "42", "007", "1.", "0.", ".5", ".05", "-1", "-.5", "-0", "-007", "3.14", "-2.50", "00.00", "12345678901234567890", "-1.", ".0"];
const UNI: [&str; 10] = ["\u{e9}", "\u{fc}n\u{ef}c\u{f6}de", "\u{65e5}\u{672c}", "\u{416}1", "\u{80}", "\u{a0}", "\u{10ffff}", "x\u{300}", "\u{2028}", "a\u{feff}b"];
/// quoted and html forms of texts that mean something, or something else, as plain ids
const TWINS: [&str; 26] = [
    "a", "b", "c", "x", "A", "n", "ne", "_", "c", "1", "-1", ".5", "1.", "graph", "node", "edge", "subgraph", "digraph", "strict", "color", "label", "a:b", "a->b", "a b", "foo", "true",
];
const COLORS: [&str; 8] = ["red", "blue", "green", "box", "1", "true", "circle", "0.5"];
const KEYS: [&str; 10] = ["color", "label", "shape", "style", "weight", "len", "fontsize", "tooltip", "a", "b"];

/// names that mean something to Graphviz, as attributes
const ATTRIBUTES: [&str; 173] = [
    "_background", "area", "arrowhead", "arrowtail", "arrowsize", "bb", "center", "charset", "class", "colorscheme", "comment", "compound", "concentrate", "Damping", "decorate", "defaultdist", "constraint", "dim", "dimen", "clusterrank", "dir", "diredgeconstraints", "distortion", "dpi", "edgetarget", "edgetooltip", "edgeURL", "epsilon", "esep", "fixedsize", "fontname", "href", "id", "fontsize", "fontnames", "fontpath", "forcelabels", "gradientangle", "group", "head_lp", "headclip", "headhref", "headlabel", "headtarget", "headtooltip", "headURL", "height", "image", "imagepos", "imagescale", "imagepath", "inputscale", "K", "label", "label_scheme", "labelangle", "labeldistance", "labelfloat", "labelfontname", "labelfontsize", "labelhref", "labeljust", "labelloc", "labeltarget", "labeltooltip", "labelURL", "landscape", "layer", "layerlistsep", "layers", "layerselect", "layersep", "layout", "len", "levels", "levelsgap", "lhead", "lheight", "lwidth", "lp", "margin", "ltail", "maxiter", "mclimit", "mindist", "minlen", "mode", "model", "mosek", "newrank", "nodesep", "normalize", "notranslate", "nslimit", "nslimit1", "ordering", "orientation", "outputorder", "nojustify", "overlap", "overlap_shrink", "pack", "overlap_scaling", "pad", "page", "packmode", "pagedir", "penwidth", "peripheries", "pin", "pos", "quadtree", "quantum", "rank", "rankdir", "ranksep", "ratio", "rects", "regular", "remincross", "repulsiveforce", "resolution", "root", "rotate", "rotation", "samehead", "sametail", "samplepoints", "searchsize", "scale", "sep", "shapefile", "shape", "showboxes", "sides", "skew", "smoothing", "size", "sortv", "splines", "start", "style", "stylesheet", "tail_lp", "tailhref", "taillabel", "tailtarget", "tailtooltip", "tailURL", "target", "tooltip", "URL", "tailclip", "truecolor", "vertices", "viewport", "voro_margin", "weight", "width", "xdotversion", "xlabel", "xlp", "z", "bgcolor", "color", "fillcolor", "fontcolor", "labelfontcolor", "pencolor", "cluster", "edgehref", "TBbalance", "beautify",
];
/// as values
const VALUES: [&str; 138] = [
    "true", "false", "yes", "no", "True", "FALSE", "none", "nil", "null", "default", "same", "min", "max", "source", "sink", "LR", "TB", "BT", "RL", "BL", "record", "Mrecord", "plaintext", "point", "ellipse", "circle", "doublecircle", "polygon", "egg", "star", "cylinder", "note", "folder", "component", "house", "diamond", "filled", "rounded", "dashed", "dotted", "bold", "invis", "solid", "wedged", "striped", "radial", "normal", "inv", "vee", "crow", "tee", "obox", "back", "forward", "both", "ortho", "polyline", "curved", "spline", "line", "compound", "global", "local", "out", "scale", "scalexy", "prism", "voronoi", "vpsc", "compress", "orthoxy", "ipsep", "auto", "major", "KK", "sgd", "hier", "circuit", "subset", "center", "fill", "depth", "width", "height", "breadthfirst", "nodesfirst", "edgesfirst", "array", "clust", "t", "b", "l", "r", "c", "n", "s", "e", "w", "tl", "br", "png", "svg", "dot", "neato", "fdp", "sfdp", "twopi", "circo", "osage", "patchwork", "red", "black", "white", "transparent", "invisible", "inf", "nan", "NaN", "infinity", "undefined", "Arial", "Helvetica", "Times", "G", "N", "E", "T", "H", "L", "latin1", "utf8", "x11", "svg12", "accent3", "set19", "self", "_blank", "_graphviz",
];
/// as values in quotes
const QUOTED: [&str; 74] = [
    "1,2", "1,2!", "1,2,3", "0,0 1,1 2,2 3,3", "s,1,2 e,3,4 5,6 7,8", "#ff0000", "#FF000080", "0.5 0.5 0.5", "0.1,0.2,0.3", "/blues9/3", "//red", "red:blue", "red;0.5:blue", "\\N", "\\G", "\\E", "\\T", "\\H", "\\L", "a\\nb", "a\\lb\\r", "<p> a|{b|<q> c}", "a|b", "{a|b}", "filled,rounded", "setlinewidth(2)", "bold,dashed", "&lt;b&gt;", "&amp;", "&#931;", "&nbsp;", "http://a.b/c?d=e&f=g#h", "mailto:x@y", "javascript:alert(1)", "file:///etc", "C:\\dir\\file", "%d%s", "$HOME", "`x`", "~", "", " ", "0", "1", "-1", "1e5", "0x10", "7,10!", "8.5x11", "2;3", "cluster", "cluster_0", "true", "false", "strict", "digraph", "UTF-8", "ISO-8859-1", "node:port", "node:port:n", "a -- b", "a -> b", "label=x", "[a=b]", "{}", "}", "// x", "/* x */", "# x", "<b>x</b>", "<", ">", "\\\"", "\\\\",
];
/// as names of subgraphs
const GROUPS: [&str; 19] = [
    "cluster", "cluster_0", "cluster0", "cluster_a", "clusters", "Cluster", "CLUSTER_1", "cluster1", "cluster_", "clusterrank", "_cluster", "legend", "main", "top", "rank1", "same", "root", "start", "end",
];

fn meant(src: &mut Src, cfg: &Cfg) -> Id {
    match src.below(5) {
        0 => Id::Plain(src.pick(&ATTRIBUTES).to_string()),
        1 => Id::Plain(src.pick(&VALUES).to_string()),
        2 => Id::Plain(src.pick(&GROUPS).to_string()),
        3 => Id::Quoted(format!("\"{}\"", src.pick(&VALUES))),
        _ if !cfg.graphviz && src.chance(15) => {
            const LABELS: [&str; 10] = [
                "<b>", "<<b>x</b>>", "<<table><tr><td port=\"p\">x</td></tr></table>>", "<a<br/>b>", "<<img src=\"a.png\"/>>", "<&lt;>", "<>", "< >", "<<font color=\"red\">x</font>>", "<<i>x</i><sub>1</sub>>",
            ];
            Id::Html(src.pick(&LABELS).to_string())
        }
        _ => Id::Quoted(format!("\"{}\"", src.pick(&QUOTED))),
    }
}

/// any character there is, the unusual ones more often
pub fn any_char(src: &mut Src) -> char {
    const ODD: [char; 22] = [
        '\u{0}', '\u{1a}', '\u{4}', '\u{7}', '\u{8}', '\u{b}', '\u{c}', '\u{1b}', '\u{7f}', '\u{85}', '\u{a0}', '\u{ad}', '\u{200b}', '\u{200d}', '\u{200e}', '\u{2028}', '\u{2029}', '\u{202e}',
        '\u{3000}', '\u{feff}', '\u{fffd}', '\u{ffff}',
    ];
    let c = match src.weighted(&[30, 30, 15, 15, 10]) {
        0 => Some(*src.pick(&ODD)),
        1 => return src.range(0, 0x7f) as u8 as char,
        2 => char::from_u32(src.range(0x80, 0x24f) as u32),
        3 => char::from_u32(src.range(0x250, 0xffff) as u32),
        _ => char::from_u32(src.range(0x10000, 0x10ffff) as u32),
    };
    c.unwrap_or('\u{e9}')
}

pub fn word(src: &mut Src, nonascii: bool) -> String {
    const FIRST: &[u8] = b"abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ_";
    const REST: &[u8] = b"abcdefghijklmnopqrstuvwxyz0123456789_ABCDEFGHIJKLMNOPQRSTUVWXYZ";
    let mut s = String::new();
    s.push(*src.pick(FIRST) as char);
    for _ in 0..src.count(4, 20) {
        s.push(*src.pick(REST) as char)
    }
    if nonascii && src.chance(12) {
        for _ in 0..src.range(1, 3) {
            let at = if src.chance(50) { 0 } else { s.len() };
            match any_char(src) {
                c if c.is_ascii() => s.insert(at, '_'),
                c => s.insert(at, c),
            }
        }
    }
    if is_keyword(&s) {
        s.push('_')
    }
    s
}

pub fn numeral(src: &mut Src) -> String {
    if src.chance(50) {
        return src.pick(&NUMS).to_string();
    }
    let mut s = String::new();
    if src.chance(40) {
        s.push('-')
    }
    let d = |src: &mut Src, s: &mut String, lo: usize| {
        for _ in 0..src.range(lo, 4) {
            s.push((b'0' + src.below(10) as u8) as char)
        }
    };
    if src.chance(30) {
        s.push('.');
        d(src, &mut s, 1)
    } else {
        d(src, &mut s, 1);
        if src.chance(50) {
            s.push('.');
            d(src, &mut s, 0)
        }
    }
    s
}

pub fn quoted(src: &mut Src, cfg: &Cfg) -> String {
    const PARTS: [&str; 68] = [
        "a", " ", "x y", "\\\"", "\\\\", "\\n", "\n", "{", "}", "[", "]", ";", ",", "=", "->", "--", "//", "/*", "*/", "#", "<", ">", ":", "'", "graph", "\\l", "\t",
        "node", "1", ".", "-", "\\G", "\\\n", "(", "%", "@", "|", "  ", "\r\n", "subgraph", "\\{", "0", "<b>", "</b>", "&lt;", "/", "*", "+", "\\N", "strict",
        "\\r", "Z", "_", "!", "# x\n", "// y\n", "\\\\\\\"", "\\ ",
        "&amp;", "&amp;amp;", "&quot;", "&#34;", "&#x3c;", "&amp", "&", "\\x41", "\\u{41}", "\\T",
    ];
    let mut s = String::from("\"");
    for _ in 0..src.count(3, 14) {
        if cfg.nonascii && src.chance(6) {
            s.push_str(*src.pick(&["\u{e9}", "\u{1f600}", "\u{a0}", "\\\u{e9}", "\u{2028}"]))
        } else if !cfg.graphviz && cfg.nonascii && src.chance(4) {
            match any_char(src) {
                '"' | '\\' => s.push('\r'),
                c => s.push(c),
            }
        } else {
            s.push_str(*src.pick(&PARTS))
        }
    }
    s.push('"');
    s
}

pub fn html(src: &mut Src, cfg: &Cfg) -> String {
    fn body(src: &mut Src, cfg: &Cfg, depth: usize, out: &mut String) {
        const PARTS: [&str; 34] = [
            "b", " ", "text", "\"", "/*", "*/", "//", "#", "&lt;", "&gt;", "\n", "{", "}", "[", "]", ";", "\\", "\\\"", "=", "-", "i", "br/",
            "/b", "'", ",", ":", "1", "!--", "--", "\t", "node", "\r\n", "\"x\"", "graph {a",
        ];
        for _ in 0..src.count(2, 8) {
            if depth < 4 && src.chance(25) {
                out.push('<');
                body(src, cfg, depth + 1, out);
                out.push('>');
            } else if cfg.nonascii && src.chance(5) {
                out.push('\u{e9}')
            } else if !cfg.graphviz && cfg.nonascii && src.chance(4) {
                match any_char(src) {
                    '<' | '>' => out.push('\r'),
                    c => out.push(c),
                }
            } else {
                out.push_str(*src.pick(&PARTS))
            }
        }
    }
    // Graphviz 2.43 mixes up html and other strings with the same content
    let mut s = String::from(if cfg.graphviz { "<<i/>" } else { "<" });
    body(src, cfg, 0, &mut s);
    s.push('>');
    s
}

pub fn id(src: &mut Src, cfg: &Cfg) -> Id {
    match src.weighted(&[40, 8, 6, 8, 8, 5, 13, 6, 5, 4, 1]) {
        0 => Id::Plain(src.pick(&NAMES).to_string()),
        1 => Id::Plain(word(src, cfg.nonascii)),
        2 => Id::Plain(src.pick(&COMPASS).to_string()),
        3 => {
            let k = *src.pick(&KEYISH);
            Id::Plain(if !cfg.nonascii && !k.is_ascii() { "nodes" } else { k }.to_string())
        }
        4 => Id::Plain(numeral(src)),
        5 if cfg.nonascii => Id::Plain(src.pick(&UNI).to_string()),
        5 => Id::Plain("a".into()),
        6 => Id::Quoted(quoted(src, cfg)),
        7 => Id::Html(html(src, cfg)),
        8 => {
            let t = *src.pick(&TWINS);
            if src.chance(25) && !t.contains('>') {
                Id::Html(if cfg.graphviz { format!("<<i/>{t}>") } else { format!("<{t}>") })
            } else {
                Id::Quoted(format!("\"{t}\""))
            }
        }
        9 => meant(src, cfg),
        _ => long(src, cfg),
    }
}

/// an identifier of some hundred characters, or of many thousand
fn long(src: &mut Src, cfg: &Cfg) -> Id {
    let n = if !cfg.graphviz && src.chance(5) { src.range(60, 14_000) } else { src.range(3, 60) };
    let unit = if cfg.nonascii && src.chance(30) { "l\u{e9}" } else { "long_" };
    match src.below(4) {
        0 => Id::Plain(unit.repeat(n)),
        1 => Id::Plain(format!("{}.{}", "12345".repeat(n), "67890".repeat(src.below(20)))),
        2 => {
            // with something else before, between and behind
            let unit = if src.chance(50) { "long text; " } else { "\\\"\\\\" };
            let (a, b) = (quoted(src, cfg), quoted(src, cfg));
            let k = src.below(n + 1);
            let inner = |s: &str| s[1..s.len() - 1].to_string();
            Id::Quoted(format!("\"{}{}{}{}\"", unit.repeat(k), inner(&a), unit.repeat(n - k), inner(&b)))
        }
        _ => {
            let (a, b) = (html(src, cfg), html(src, cfg));
            Id::Html(format!("<<i/>{}{}{}{}>", "<b>long</b>".repeat(n / 2), &a[1..a.len() - 1], "<b>long</b>".repeat(n / 2), &b[1..b.len() - 1]))
        }
    }
}

trait Weight {
    fn weight(&self) -> usize {
        1
    }
}
impl Weight for Attr {}
impl Weight for Vertex {
    fn weight(&self) -> usize {
        match self {
            Vertex::S(s) => 1 + s.stmts.iter().map(|s| s.weight()).sum::<usize>(),
            _ => 1,
        }
    }
}
impl Weight for Stmt {
    fn weight(&self) -> usize {
        match self {
            Stmt::Sub(s) => 1 + s.stmts.iter().map(|s| s.weight()).sum::<usize>(),
            Stmt::Edge(e) => 1 + e.vs.iter().map(|v| v.weight()).sum::<usize>(),
            _ => 1,
        }
    }
}

/// now and then something occurs again: right behind itself or later; nothing large, as that would double at every level
fn echo<T: Clone + Weight>(src: &mut Src, v: &mut Vec<T>) {
    if !v.is_empty() && src.chance(7) {
        let i = src.below(v.len());
        if v[i].weight() > 24 {
            return;
        }
        let x = v[i].clone();
        let at = if src.chance(60) { i + 1 } else { v.len() };
        v.insert(at, x)
    }
}

pub fn attr(src: &mut Src, cfg: &Cfg) -> Attr {
    let k = match src.weighted(&[60, 20, 20]) {
        0 => Id::Plain(src.pick(&KEYS).to_string()),
        1 => id(src, cfg),
        _ => Id::Plain(src.pick(&ATTRIBUTES).to_string()),
    };
    let v = match src.weighted(&[35, 45, 20]) {
        0 => Id::Plain(src.pick(&COLORS).to_string()),
        1 => id(src, cfg),
        _ => meant(src, cfg),
    };
    Attr(k, v)
}

pub fn attrs(src: &mut Src, cfg: &Cfg) -> Vec<Attr> {
    let n = match src.weighted(&[80, 60, 50, 9, 1]) {
        0 => 0,
        1 => 1,
        2 => src.range(2, 4),
        3 => src.range(5, 9),
        _ => src.range(10, 70),
    };
    let mut v = (0..n).map(|_| attr(src, cfg)).collect();
    echo(src, &mut v);
    if !v.is_empty() && src.chance(4) {
        // the same name once more, with another value
        let k = src.pick(&v).0.clone();
        v.push(Attr(k, attr(src, cfg).1))
    }
    v
}

pub fn port(src: &mut Src, cfg: &Cfg) -> Port {
    let pid = |src: &mut Src| loop {
        let i = id(src, cfg);
        // a lone port spelled like a compass point is a compass point
        if let Id::Plain(s) = &i {
            if COMPASS.contains(&s.as_str()) {
                return (Id::Plain(s.clone()), true);
            }
        }
        return (i, false);
    };
    match src.weighted(&[40, 30, 30]) {
        0 => {
            let (i, compass) = pid(src);
            if compass {
                let Id::Plain(s) = i else { unreachable!() };
                Port { id: None, compass: Some(s) }
            } else {
                Port { id: Some(i), compass: None }
            }
        }
        1 => Port { id: None, compass: Some(src.pick(&COMPASS).to_string()) },
        _ => Port { id: Some(pid(src).0), compass: Some(src.pick(&COMPASS).to_string()) },
    }
}

pub fn node_id(src: &mut Src, cfg: &Cfg) -> NodeId {
    let i = id(src, cfg);
    let p = if src.chance(25) { Some(port(src, cfg)) } else { None };
    NodeId { id: i, port: p }
}

fn vertex(src: &mut Src, cfg: &Cfg, depth: usize, budget: &mut usize) -> Vertex {
    if depth < cfg.max_depth && *budget > 0 && src.chance(22) {
        Vertex::S(sub(src, cfg, depth, budget))
    } else {
        Vertex::N(node_id(src, cfg))
    }
}

pub fn sub(src: &mut Src, cfg: &Cfg, depth: usize, budget: &mut usize) -> Sub {
    let i = match src.weighted(&[48, 40, 12]) {
        0 => Id::Anon,
        1 => id(src, cfg),
        _ => Id::Plain(src.pick(&GROUPS).to_string()),
    };
    Sub { id: i, stmts: stmts(src, cfg, depth + 1, budget) }
}

pub fn edge(src: &mut Src, cfg: &Cfg, depth: usize, budget: &mut usize) -> Edge {
    let n = match src.weighted(&[120, 60, 19, 1]) {
        0 => 2,
        1 => 3,
        2 => src.range(4, 7),
        _ => src.range(8, 40),
    };
    let mut vs: Vec<Vertex> = (0..n).map(|_| vertex(src, cfg, depth, budget)).collect();
    echo(src, &mut vs);
    let n = vs.len();
    let pair = if cfg.built && n == 2 { !src.chance(15) } else { n == 2 };
    Edge { pair, vs, attrs: attrs(src, cfg) }
}

pub fn stmt(src: &mut Src, cfg: &Cfg, depth: usize, budget: &mut usize) -> Stmt {
    let deep = depth < cfg.max_depth;
    let w_sub = if !deep { 0 } else if cfg.max_depth > 20 { 400 } else if cfg.max_depth > 8 { 45 } else { 12 };
    match src.weighted(&[34, 26, 12, 14, w_sub]) {
        0 => Stmt::Node(node_id(src, cfg), attrs(src, cfg)),
        1 => Stmt::Edge(edge(src, cfg, depth, budget)),
        2 => Stmt::Attr(attr(src, cfg)),
        3 => Stmt::GAttr(*src.pick(&[GKind::Graph, GKind::Node, GKind::Edge]), attrs(src, cfg)),
        _ => Stmt::Sub(sub(src, cfg, depth, budget)),
    }
}

pub fn stmts(src: &mut Src, cfg: &Cfg, depth: usize, budget: &mut usize) -> Vec<Stmt> {
    let n = src.count(cfg.stmts.0, cfg.stmts.1);
    let mut v = vec![];
    for _ in 0..n {
        if *budget == 0 || src.exhausted() {
            break;
        }
        *budget -= 1;
        v.push(stmt(src, cfg, depth, budget));
    }
    if v.len() < 20 {
        echo(src, &mut v)
    }
    v
}

/// one list of the graph (statements, attributes, a chain) grown to dozens or hundreds of elements
fn stretch(src: &mut Src, ss: &mut Vec<Stmt>) {
    fn grow<T: Clone + Weight>(v: &mut Vec<T>, len: usize) {
        let all: usize = v.iter().map(|x| x.weight()).sum();
        let n = v.len();
        let len = len.min(3000 * n / all.max(1));
        for i in n..len {
            let x = v[i % n].clone();
            v.push(x)
        }
    }
    // what to do with the k-th list, counting from 0; the number of lists
    fn walk(ss: &mut Vec<Stmt>, k: usize, len: usize, at: &mut usize) {
        *at += !ss.is_empty() as usize;
        if !ss.is_empty() && *at == k + 1 {
            grow(ss, len)
        }
        for s in ss {
            match s {
                Stmt::Node(_, a) | Stmt::GAttr(_, a) => {
                    *at += !a.is_empty() as usize;
                    if !a.is_empty() && *at == k + 1 {
                        grow(a, len)
                    }
                }
                Stmt::Sub(x) => walk(&mut x.stmts, k, len, at),
                Stmt::Attr(_) => {}
                Stmt::Edge(e) => {
                    *at += !e.attrs.is_empty() as usize;
                    if !e.attrs.is_empty() && *at == k + 1 {
                        grow(&mut e.attrs, len)
                    }
                    if !e.pair {
                        *at += 1;
                        if *at == k + 1 {
                            grow(&mut e.vs, len)
                        }
                    }
                    for v in &mut e.vs {
                        if let Vertex::S(x) = v {
                            walk(&mut x.stmts, k, len, at)
                        }
                    }
                }
            }
        }
    }
    let mut n = 0;
    walk(ss, usize::MAX - 1, 0, &mut n);
    if n > 0 {
        let k = src.below(n);
        let len = match src.below(3) {
            0 => src.range(8, 40),
            1 => src.range(40, 130),
            _ => src.range(130, 530),
        };
        walk(ss, k, len, &mut 0)
    }
}

pub fn graph(src: &mut Src, cfg: &Cfg) -> Graph {
    let cfg = cfg.clone().sized(src);
    let di = src.chance(50);
    let strict = src.chance(30);
    let i = if src.chance(60) { id(src, &cfg) } else { Id::Anon };
    let mut budget = cfg.budget;
    let mut ss = stmts(src, &cfg, 0, &mut budget);
    if ss.is_empty() && src.chance(90) {
        let mut b = 5;
        ss.push(stmt(src, &cfg, 0, &mut b));
    }
    if src.draw(400) == 399 {
        stretch(src, &mut ss)
    }
    Graph { di, strict, id: i, stmts: ss }
}
