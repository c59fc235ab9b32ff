use crate::scratch::{self, entries, Dir};
use crate::standin::{hex, unhex, CTL};
use graphviz_rust::cmd::{CommandArg, Format, Layout};
use graphviz_rust::dot_structures as ds;
use graphviz_rust::printer::PrinterContext;
use lang::helpers::{bad, built, context, lib_print, short, R};
use serde_json::{json, Value};
use std::ffi::OsStr;
use std::io;
use std::os::unix::ffi::OsStrExt;
use std::path::PathBuf;
use std::process::{Command, Stdio};
use vcore::gen::{self, Cfg};
use vcore::model as m;
use vcore::refprint::{gen_opts, Opts};
use vcore::render::{render, Notation};
use vcore::runner::*;
use vcore::tape::{hash64, Src};

/// every format with Graphviz's name for it
pub const FORMATS: [(Format, &str); 55] = [
    (Format::Bmp, "bmp"),
    (Format::Cgimage, "cgimage"),
    (Format::Canon, "canon"),
    (Format::Dot, "dot"),
    (Format::Gv, "gv"),
    (Format::Xdot, "xdot"),
    (Format::Xdot12, "xdot1.2"),
    (Format::Xdot14, "xdot1.4"),
    (Format::Eps, "eps"),
    (Format::Exr, "exr"),
    (Format::Fig, "fig"),
    (Format::Gd, "gd"),
    (Format::Gd2, "gd2"),
    (Format::Gif, "gif"),
    (Format::Gtk, "gtk"),
    (Format::Ico, "ico"),
    (Format::Cmap, "cmap"),
    (Format::Ismap, "ismap"),
    (Format::Imap, "imap"),
    (Format::Cmapx, "cmapx"),
    (Format::ImapNp, "imap_np"),
    (Format::CmapxNp, "cmapx_np"),
    (Format::Jpg, "jpg"),
    (Format::Jpeg, "jpeg"),
    (Format::Jpe, "jpe"),
    (Format::Jp2, "jp2"),
    (Format::Json, "json"),
    (Format::Json0, "json0"),
    (Format::DotJson, "dot_json"),
    (Format::XdotJson, "xdot_json"),
    (Format::Pdf, "pdf"),
    (Format::Pic, "pic"),
    (Format::Pct, "pct"),
    (Format::Pict, "pict"),
    (Format::Plain, "plain"),
    (Format::PlainExt, "plain-ext"),
    (Format::Png, "png"),
    (Format::Pov, "pov"),
    (Format::Ps, "ps"),
    (Format::Ps2, "ps2"),
    (Format::Psd, "psd"),
    (Format::Sgi, "sgi"),
    (Format::Svg, "svg"),
    (Format::Svgz, "svgz"),
    (Format::Tga, "tga"),
    (Format::Tif, "tif"),
    (Format::Tiff, "tiff"),
    (Format::Tk, "tk"),
    (Format::Vml, "vml"),
    (Format::Vmlz, "vmlz"),
    (Format::Vrml, "vrml"),
    (Format::Vbmp, "wbmp"),
    (Format::Webp, "webp"),
    (Format::Xlib, "xlib"),
    (Format::X11, "x11"),
];
pub const LAYOUTS: [(Layout, &str); 8] = [
    (Layout::Dot, "dot"),
    (Layout::Neato, "neato"),
    (Layout::Twopi, "twopi"),
    (Layout::Circo, "circo"),
    (Layout::Fdp, "fdp"),
    (Layout::Asage, "osage"),
    (Layout::Patchwork, "patchwork"),
    (Layout::Sfdp, "sfdp"),
];

#[derive(Clone, Debug)]
enum Arg {
    Custom(String),
    Output(String),
    /// converted with From or not
    Layout(usize, bool),
    Format(usize, bool),
}

impl Arg {
    fn lib(&self) -> CommandArg {
        match self {
            Arg::Custom(s) => CommandArg::Custom(s.clone()),
            Arg::Output(s) => CommandArg::Output(s.clone()),
            Arg::Layout(i, true) => LAYOUTS[*i].0.into(),
            Arg::Layout(i, false) => CommandArg::Layout(LAYOUTS[*i].0),
            Arg::Format(i, true) => FORMATS[*i].0.into(),
            Arg::Format(i, false) => CommandArg::Format(FORMATS[*i].0),
        }
    }
    /// what dot must be given for it
    fn want(&self) -> String {
        match self {
            Arg::Custom(s) => s.clone(),
            Arg::Output(s) => format!("-o{s}"),
            Arg::Layout(i, _) => format!("-K{}", LAYOUTS[*i].1),
            Arg::Format(i, _) => format!("-T{}", FORMATS[*i].1),
        }
    }
}

fn gen_string(src: &mut Src) -> String {
    const W: [&str; 46] = [
        "link.svg", "out", "d", "d/x.svg", "none", "old.svg", "-", "--", "-T", "-Tsvg", "-K", "-o", "-o out", " ", "a", "x.svg", "/", "..", "\"", "'", "\\", "$HOME", "*", "?", "=", "-Gname=a b", "-Nshape=box", "-Ecolor=red", ";", "&", "|", ">", "<", "\n",
        "\t", "é", "日本", "😀", "%s", "{}", "~", "-v", "#", ",", "\r", "A",
    ];
    // beginnings and ends that mean something to shells, to file systems or to dot
    const ENDS: [&str; 36] = [
        "./", "../", "~/", "/", "//", "file://", "C:\\", ".\\", "-", "--", "---", "-o", "-o./", "+", "@", "=", ":", ".", "..", "...", "\"", "'", " ", "%20", "$PWD/", "`", "$(", "\\\\?\\", "-O", "-?", "-T:", ".svg", ".svg.svg",
        "/.", "/..", "/",
    ];
    let mut s = String::new();
    if src.chance(20) {
        s.push_str(*src.pick(&ENDS))
    }
    for _ in 0..src.count(2, 8) {
        if src.chance(6) {
            match gen::any_char(src) {
                // an argument cannot hold it
                '\0' => s.push('\u{1}'),
                c => s.push(c),
            }
        } else {
            s.push_str(*src.pick(&W))
        }
    }
    if src.chance(12) {
        s.push_str(*src.pick(&ENDS))
    }
    if src.chance(1) && !s.is_empty() {
        s = s.repeat(src.range(2, 90_000 / s.len()))
    }
    s
}

fn gen_args(src: &mut Src) -> Vec<Arg> {
    let n = src.count(2, 8);
    let mut v: Vec<Arg> = vec![];
    if src.draw(300) == 299 {
        // many
        for i in 0..src.range(20, 1500) {
            v.push(Arg::Custom(format!("-Ga{i}=b")))
        }
    }
    for _ in 0..n {
        let a = match src.weighted(&[40, 15, 20, 20, 5]) {
            0 => Arg::Custom(gen_string(src)),
            1 => Arg::Output(gen_string(src)),
            2 => Arg::Layout(src.below(LAYOUTS.len()), src.chance(50)),
            3 => Arg::Format(src.below(FORMATS.len()), src.chance(50)),
            _ => match v.last() {
                Some(a) => a.clone(),
                None => Arg::Custom(String::new()),
            },
        };
        v.push(a)
    }
    v
}

fn gen_text(src: &mut Src) -> String {
    match src.weighted(&[45, 30, 10, 15]) {
        0 => {
            let g = gen::graph(src, &Cfg::parsed());
            render(&g, src, Notation::Free)
        }
        1 => {
            const W: [&str; 22] =
                ["graph {", "}", "a", "\0", "\n", "\r\n", "\r", "é", "日本", "😀", "\u{feff}", " ", "\"", "\u{7f}", "\u{2028}", "a--b;", "\\", "%", "#", "\u{1}", "\u{ffff}", "digraph"];
            let mut s = String::new();
            for _ in 0..src.count(12, 60) {
                s.push_str(*src.pick(&W))
            }
            s
        }
        2 => String::new(),
        _ => {
            // sizes around the buffers on the way
            const SIZES: [usize; 10] = [4095, 4096, 4097, 8191, 8192, 8193, 65535, 65536, 65537, 1_500_000];
            let n = *src.pick(&SIZES) + src.below(3);
            let unit = *src.pick(&["a;", "é", "日", "x -- y\n", "b"]);
            let mut s = unit.repeat(n / unit.len());
            while s.len() < n {
                s.push('.')
            }
            s
        }
    }
}

fn gen_bytes(src: &mut Src, small: bool) -> Vec<u8> {
    let n = match src.weighted(&[30, 40, if small { 0 } else { 30 }]) {
        0 => 0,
        1 => src.range(1, 200),
        _ => *src.pick(&[4096usize, 8192, 65535, 65536, 65537, 131072, 300_000, 1_000_003]),
    };
    let mut r = vcore::tape::Rng::new(src.draw(1 << 16));
    match src.below(3) {
        // any bytes
        0 => (0..n).map(|_| r.next() as u8).collect(),
        // text with all sorts of line ends, at both ends too
        1 => (0..n).map(|_| b"\n\r\n a<>\tz\0"[(r.next() % 10) as usize]).collect(),
        // text
        _ => "<svg é>\n".bytes().cycle().take(n).collect(),
    }
}

#[derive(Clone, Debug)]
struct Plan {
    text: String,
    args: Vec<Arg>,
    /// where among the arguments the script of the stand-in goes; None: it is left where it looks by itself
    ctl_at: Option<usize>,
    stdout: Vec<u8>,
    stderr: Vec<u8>,
    order: u64,
    exit: i64,
    signal: Option<i64>,
    before: u64,
    after: u64,
    /// in the middle of what it writes, with order 2
    within: u64,
    /// closes its output and goes on for so long
    close: Option<u64>,
    /// waits for others: where, and how many there are
    meet: Option<(PathBuf, usize)>,
}

impl Plan {
    fn new(text: String, args: Vec<Arg>, src: &mut Src) -> Plan {
        let ctl_at = Some(src.below(args.len() + 1));
        Plan { text, args, ctl_at, stdout: vec![], stderr: vec![], order: 0, exit: 0, signal: None, before: 0, after: 0, within: 0, close: None, meet: None }
    }
    fn streams(mut self, src: &mut Src) -> Plan {
        self.stdout = gen_bytes(src, false);
        let small = src.chance(70);
        self.stderr = gen_bytes(src, small);
        self.order = src.draw(3);
        self
    }
    fn key(&self) -> u64 {
        hash64(&[self.text.as_bytes(), format!("{:?}{:?}{}{:?}{:?}", self.args, self.ctl_at, self.exit, self.signal, self.order).as_bytes(), &self.stdout, &self.stderr])
    }
    fn show(&self) -> String {
        format!(
            "text of {} bytes: {:?}\nargs {:?}, script at {:?}\nstdout of {} bytes: {:?}\nstderr of {} bytes: {:?}\norder {} exit {} signal {:?} delays {} {} {} closes {:?}",
            self.text.len(),
            cut(&self.text, 200),
            self.args,
            self.ctl_at,
            self.stdout.len(),
            cut(&String::from_utf8_lossy(&self.stdout), 100),
            self.stderr.len(),
            cut(&String::from_utf8_lossy(&self.stderr), 100),
            self.order,
            self.exit,
            self.signal,
            self.before,
            self.after,
            self.within,
            self.close
        )
    }
    fn label(&self, c: &mut Case) {
        c.label_if(self.stdout.len() > 65536, "output above a pipe's buffer");
        c.label_if(self.stderr.len() > 65536, "diagnostics above a pipe's buffer");
        c.label_if(self.stdout.is_empty(), "empty output");
        c.label_if(std::str::from_utf8(&self.stdout).is_err(), "output that is not text");
        c.label_if(self.text.len() > 65536, "graph above 64 KiB");
        c.label_if(self.args.len() >= 2, "2+ arguments");
        c.label_if(self.ctl_at.is_none() && self.args.is_empty(), "no arguments");
    }
}

struct Report {
    args: Vec<Vec<u8>>,
    path: Option<Vec<u8>>,
    extra: u64,
    read: bool,
    same: bool,
    input: Option<Vec<u8>>,
    cwd: Option<Vec<u8>>,
    env: Option<Vec<u8>>,
    again: bool,
    met: bool,
    exe: Option<Vec<u8>>,
}

/// the script of the stand-in for a plan, in the directory of the case
fn script(p: &Plan, d: &Dir) -> (PathBuf, Vec<Arg>) {
    let ctl = match p.ctl_at {
        Some(_) => d.0.join("ctl"),
        None => scratch::default_ctl(),
    };
    let mut args = p.args.clone();
    if let Some(i) = p.ctl_at {
        args.insert(i, Arg::Custom(format!("{CTL}{}", ctl.display())))
    }
    let file = |n: &str, b: &[u8]| {
        let f = d.0.join(n);
        std::fs::write(&f, b).unwrap();
        f.display().to_string()
    };
    let v = json!({
        "expect": args.iter().map(|a| hex(a.want().as_bytes())).collect::<Vec<_>>(),
        "report": d.0.join("report").display().to_string(),
        "stdout": file("stdout", &p.stdout), "stderr": file("stderr", &p.stderr), "order": p.order,
        "exit": p.exit, "signal": p.signal, "delay_before": p.before, "delay_after": p.after, "delay_within": p.within, "close": p.close,
        "meet": p.meet.as_ref().map(|m| m.0.display().to_string()), "meet_n": p.meet.as_ref().map(|m| m.1),
    });
    std::fs::write(&ctl, v.to_string()).unwrap();
    (ctl, args)
}

fn read_report(d: &Dir) -> Option<Report> {
    let v: Value = serde_json::from_slice(&std::fs::read(d.0.join("report")).ok()?).ok()?;
    Some(Report {
        args: v["args"].as_array()?.iter().map(|x| unhex(x.as_str().unwrap())).collect(),
        path: v["path"].as_str().map(unhex),
        extra: v["extra"].as_u64()?,
        read: v["read"] == true,
        same: v["same"] == true,
        input: std::fs::read(d.0.join("report.in")).ok(),
        cwd: v["cwd"].as_str().map(unhex),
        env: std::fs::read(d.0.join("report.env")).ok(),
        met: v["met"] == true,
        exe: v["exe"].as_str().map(unhex),
        again: d.0.join("report.again").exists(),
    })
}

enum How<'a> {
    Text,
    Graph(ds::Graph, &'a mut PrinterContext),
}

fn run_plan(p: &Plan, how: How) -> Result<(io::Result<Vec<u8>>, Option<Report>), Fail> {
    let d = Dir::new();
    let (ctl, args) = script(p, &d);
    let lib: Vec<CommandArg> = args.iter().map(|a| a.lib()).collect();
    let r = match how {
        How::Text => guarded(|| graphviz_rust::exec_dot(p.text.clone(), lib)),
        How::Graph(g, ctx) => guarded(|| graphviz_rust::exec(g, ctx, lib)),
    };
    let rep = read_report(&d);
    if p.ctl_at.is_none() {
        let _ = std::fs::remove_file(ctl);
    }
    if let Some(r) = &rep {
        surroundings(p, r)?
    }
    if let Some(e) = scratch::cwd_changed() {
        return bad(e, p.show());
    }
    match r {
        Ok(r) => Ok((r, rep)),
        Err(e) => bad(format!("exec panicked: {e}"), p.show()),
    }
}

/// dot was given the arguments and the graph
fn handed_over(p: &Plan, rep: &Option<Report>) -> R {
    let Some(r) = rep else { return bad("dot was not run", p.show()) };
    let mut args = r.args.clone();
    if let Some(path) = &r.path {
        let i = args.iter().rposition(|a| a == path).expect("path among the arguments");
        args.remove(i);
    }
    let mut want: Vec<Vec<u8>> = p.args.iter().map(|a| a.want().into_bytes()).collect();
    if p.ctl_at.is_some() {
        args.retain(|a| !a.starts_with(CTL.as_bytes()));
    }
    if r.again {
        return bad("dot was run more than once", p.show());
    }
    if r.extra > 1 || args != want {
        let s = |v: &[Vec<u8>]| v.iter().map(|a| String::from_utf8_lossy(a).to_string()).collect::<Vec<_>>();
        return bad(format!("dot was given the arguments {:?} for {:?}", s(&r.args), s(&want)), p.show());
    }
    want.clear();
    if !r.read {
        return bad("dot could not read the graph", p.show());
    }
    if !r.same {
        return bad("the graph changed or went away while dot was running", p.show());
    }
    match &r.input {
        Some(i) if i == p.text.as_bytes() => Ok(()),
        Some(i) => {
            let n = i.iter().zip(p.text.as_bytes()).take_while(|(a, b)| a == b).count();
            bad(format!("dot was given another graph of {} bytes instead of {}, different from byte {n} on: {:?}", i.len(), p.text.len(), cut(&String::from_utf8_lossy(&i[n..]), 200)), p.show())
        }
        None => bad("dot read no graph", p.show()),
    }
}

/// dot runs where the caller is, with the caller's environment
fn surroundings(p: &Plan, r: &Report) -> R {
    if r.again {
        return bad("dot was run more than once", p.show());
    }
    let here = std::env::current_dir().ok().map(|d| d.as_os_str().as_bytes().to_vec());
    if r.cwd != here {
        let s = |v: &Option<Vec<u8>>| v.as_ref().map(|v| String::from_utf8_lossy(v).to_string());
        return bad(format!("dot runs in the directory {:?}, its caller in {:?}", s(&r.cwd), s(&here)), p.show());
    }
    let Some(env) = &r.env else { return Ok(()) };
    let have: std::collections::HashSet<&[u8]> = env.split(|b| *b == 0).collect();
    for (k, v) in std::env::vars_os() {
        let mut e = k.as_bytes().to_vec();
        e.push(b'=');
        e.extend_from_slice(v.as_bytes());
        if !have.contains(&e[..]) {
            return bad(format!("dot does not have its caller's {:?} in its environment", String::from_utf8_lossy(&e)), p.show());
        }
    }
    Ok(())
}

fn same_output(p: &Plan, r: &io::Result<Vec<u8>>) -> R {
    match r {
        Ok(o) if *o == p.stdout => Ok(()),
        Ok(o) => {
            let n = o.iter().zip(&p.stdout).take_while(|(a, b)| a == b).count();
            bad(format!("another output of {} bytes instead of {}, different from byte {n} on", o.len(), p.stdout.len()), p.show())
        }
        Err(e) => bad(format!("dot succeeded, exec says {e:?}"), p.show()),
    }
}

fn gone(p: &Plan, rep: &Option<Report>) -> R {
    if let Some(path) = rep.as_ref().and_then(|r| r.path.as_ref()) {
        if PathBuf::from(OsStr::from_bytes(path)).exists() {
            return bad(format!("the temporary file {} is still there", String::from_utf8_lossy(path)), p.show());
        }
    }
    Ok(())
}

// ---- P12

fn hands_over(src: &mut Src, c: &mut Case) -> R {
    let text = gen_text(src);
    let args = gen_args(src);
    let p = Plan::new(text, args, src).streams(src);
    c.key = p.key();
    c.sample = Some(p.show());
    c.nontrivial = !p.text.is_empty() || !p.stdout.is_empty();
    p.label(c);
    let (r, rep) = run_plan(&p, How::Text)?;
    handed_over(&p, &rep)?;
    same_output(&p, &r)
}

/// the script is not among the arguments: the arguments are exactly the generated ones, also none
fn hands_over_bare(src: &mut Src, c: &mut Case) -> R {
    let text = gen_text(src);
    let args = gen_args(src);
    let mut p = Plan::new(text, args, src).streams(src);
    p.ctl_at = None;
    c.key = p.key();
    c.sample = Some(p.show());
    c.nontrivial = true;
    p.label(c);
    let (r, rep) = run_plan(&p, How::Text)?;
    handed_over(&p, &rep)?;
    same_output(&p, &r)
}

/// a context with options and value printers of its own, that has printed before
fn prepared(o: &Opts, keys: &[ds::Id], before: &[ds::Graph]) -> Result<PrinterContext, Fail> {
    let mut ctx = context(o);
    for (i, k) in keys.iter().enumerate() {
        let f: Box<graphviz_rust::printer::AttributeValuePrinter> = Box::new(move |v, ind, sep, step| format!("\"{i} {} {} {} {step}\"", v.len(), ind.len(), sep.len()));
        ctx.with_attr_value_printer(k.clone(), f);
    }
    for g in before {
        lib_print(g, &mut ctx, &|| format!("{g:?}"))?;
    }
    Ok(ctx)
}

fn hands_over_graph(src: &mut Src, c: &mut Case) -> R {
    let cfg = Cfg { built: true, ..Cfg::parsed() };
    let g = gen::graph(src, &cfg);
    let o = gen_opts(src);
    let lib = built(&g, "");
    let mut keys: Vec<ds::Id> = vec![];
    if src.chance(30) {
        // those of the first attributes there are
        fn find(ss: &[m::Stmt], out: &mut Vec<m::Id>) {
            for s in ss {
                match s {
                    m::Stmt::Node(_, l) | m::Stmt::GAttr(_, l) => out.extend(l.iter().map(|a| a.0.clone())),
                    m::Stmt::Attr(a) => out.push(a.0.clone()),
                    m::Stmt::Edge(e) => out.extend(e.attrs.iter().map(|a| a.0.clone())),
                    m::Stmt::Sub(s) => find(&s.stmts, out),
                }
            }
        }
        let mut have = vec![];
        find(&g.stmts, &mut have);
        have.retain(|k| *k != m::Id::Anon);
        have.truncate(src.range(1, 3));
        keys.extend(have.into_iter().map(|k| match k {
            m::Id::Plain(s) => ds::Id::Plain(s),
            m::Id::Quoted(s) => ds::Id::Escaped(s),
            m::Id::Html(s) => ds::Id::Html(s),
            m::Id::Anon => unreachable!(),
        }))
    }
    let mut before = vec![];
    while before.len() < 2 && src.chance(40) {
        let b = gen::graph(src, &Cfg { budget: 6, ..cfg.clone() });
        before.push(built(&b, ""))
    }
    let text = lib_print(&lib, &mut prepared(&o, &keys, &[])?, &|| format!("{g:?}"))?;
    let args = gen_args(src);
    let p = Plan::new(text.clone(), args, src).streams(src);
    c.key = p.key();
    c.sample = Some(format!("{}\noptions {o:?}, value printers for {keys:?}, {} graphs printed before", p.show(), before.len()));
    c.nontrivial = !g.stmts.is_empty();
    p.label(c);
    c.label_if(!keys.is_empty(), "custom value printers");
    c.label_if(!before.is_empty(), "a context that has printed before");
    let mut ctx = prepared(&o, &keys, &before)?;
    let (r, rep) = run_plan(&p, How::Graph(lib.clone(), &mut ctx))?;
    handed_over(&p, &rep)?;
    same_output(&p, &r)?;
    // the context is as good as before
    let after = lib_print(&lib, &mut ctx, &|| format!("{g:?}"))?;
    if after != text {
        return bad(format!("after the execution the context prints {} instead of {}", short(&after), short(&text)), p.show());
    }
    Ok(())
}

/// Seconds dot takes, and where: before it reads the graph, after it, within its output.
const SLOW: [(u64, u8); 9] = [(2, b'w'), (4, b'b'), (7, b'a'), (12, b'w'), (17, b'b'), (22, b'a'), (32, b'w'), (46, b'b'), (64, b'a')];
const SLOWER: [(u64, u8); 4] = [(95, b'w'), (125, b'b'), (190, b'a'), (310, b'w')];

/// a dot that takes its time is waited for
fn slow(src: &mut Src, c: &mut Case) -> R {
    let mut plans = vec![];
    for (i, (s, at)) in SLOW.iter().chain(if c.tier_thorough { &SLOWER[..] } else { &[] }).enumerate() {
        for fails in [false, true] {
            let mut p = Plan::new(format!("graph slow{i} {{ a; b; }}"), vec![Arg::Format(42, true)], src);
            p.stdout = format!("output after {s} seconds\n").repeat(7).into_bytes();
            p.stderr = format!("diagnostics after {s} seconds\n").repeat(3).into_bytes();
            p.order = 2;
            if fails {
                p.exit = 1
            }
            *match at {
                b'b' => &mut p.before,
                b'a' => &mut p.after,
                _ => &mut p.within,
            } = s * 1000;
            plans.push(p)
        }
    }
    c.evals = plans.len() as u64;
    c.nontrivial = true;
    c.input(&plans.iter().map(|p| p.show()).collect::<Vec<_>>().join("\n"));
    let results: Vec<R> = std::thread::scope(|s| {
        let hs: Vec<_> = plans
            .iter()
            .map(|p| {
                s.spawn(move || {
                    let (r, rep) = run_plan(p, How::Text)?;
                    handed_over(p, &rep)?;
                    judge_ending(p, &r)?;
                    gone(p, &rep)
                })
            })
            .collect();
        hs.into_iter().map(|h| h.join().expect("thread of the harness")).collect()
    });
    results.into_iter().collect()
}

/// a modest document that the real dot can draw
fn drawing(src: &mut Src) -> String {
    let di = src.chance(50);
    let mut s = String::from(if di { "digraph" } else { "graph" });
    s.push_str(*src.pick(&["", " g", " \"a b\""]));
    s.push_str(" {\n");
    let op = if di { "->" } else { "--" };
    const LABELS: [&str; 8] = ["x", "\"a b\"", "\"é\"", "\"日本\"", "\"<&>\"", "<<b>b</b>>", "\"a\\nb\"", "\"\""];
    const SHAPES: [&str; 6] = ["box", "ellipse", "circle", "diamond", "plaintext", "record"];
    for i in 0..src.range(1, 7) {
        s.push_str(&format!("  n{i} [label={} shape={}];\n", src.pick(&LABELS), src.pick(&SHAPES)))
    }
    for _ in 0..src.count(3, 8) {
        s.push_str(&format!("  n{} {op} n{};\n", src.below(6), src.below(6)))
    }
    if src.chance(40) {
        s.push_str("  subgraph cluster_a { label=inner; n0; n1 }\n")
    }
    s.push('}');
    s
}

/// what running dot directly gives
fn direct(text: &str, args: &[Arg], d: &Dir) -> (Option<i32>, Vec<u8>, String) {
    let f = d.0.join("direct.gv");
    std::fs::write(&f, text).unwrap();
    let o = Command::new(scratch::real_dot()).args(args.iter().map(|a| a.want())).arg(&f).stdin(Stdio::null()).output().expect("dot");
    (o.status.code(), o.stdout, String::from_utf8_lossy(&o.stderr).replace(&f.display().to_string(), "\u{1}"))
}

/// formats whose bytes depend on nothing but the graph
fn stable_format(src: &mut Src) -> usize {
    let name = *src.pick(&STABLE);
    FORMATS.iter().position(|f| f.1 == name).unwrap()
}
const STABLE: [&str; 24] = [
    "canon", "dot", "gv", "xdot", "xdot1.2", "xdot1.4", "fig", "cmap", "ismap", "imap", "cmapx", "imap_np", "cmapx_np", "json", "json0", "dot_json", "xdot_json", "pic", "plain", "plain-ext", "pov", "svg", "vml", "png",
];

/// Some layouts come out a little differently once in a while, whoever runs dot: what differs has to
/// differ every time.
fn persistent(mut f: impl FnMut() -> R) -> R {
    let mut r = f();
    for _ in 0..6 {
        if r.is_ok() {
            break;
        }
        r = f()
    }
    r
}

fn against_direct(text: &str, args: &[Arg], bytes: bool) -> R {
    persistent(|| once_against_direct(text, args, bytes))
}

fn once_against_direct(text: &str, args: &[Arg], bytes: bool) -> R {
    let d = Dir::new();
    let (code, out, err) = direct(text, args, &d);
    // some output holds dates or addresses
    let bytes = bytes && direct(text, args, &d).1 == out;
    let lib: Vec<CommandArg> = args.iter().map(|a| a.lib()).collect();
    let show = || format!("{text}\n=== args {args:?}");
    let r = match guarded(|| graphviz_rust::exec_dot(text.to_string(), lib)) {
        Ok(r) => r,
        Err(e) => return bad(format!("exec panicked: {e}"), show()),
    };
    match (code, r) {
        (Some(0), Ok(o)) if o == out || !bytes => Ok(()),
        (Some(0), Ok(o)) => bad(format!("dot writes {} bytes when run directly, {} bytes are returned", out.len(), o.len()), show()),
        (Some(0), Err(e)) => bad(format!("dot succeeds when run directly, exec says {e:?}"), show()),
        (_, Ok(_)) => bad(format!("dot fails when run directly (status {code:?}), exec succeeds"), show()),
        (_, Err(e)) => {
            let m = e.to_string();
            // the name of the input differs
            for part in err.split('\u{1}') {
                if !m.contains(part.trim()) {
                    return bad(format!("dot says {err:?}, the error says {m:?}"), show());
                }
            }
            Ok(())
        }
    }
}

fn real_output(src: &mut Src, c: &mut Case) -> R {
    let text = drawing(src);
    let f = stable_format(src);
    let mut args = vec![Arg::Format(f, src.chance(50))];
    if src.chance(50) {
        args.insert(0, Arg::Layout(src.below(LAYOUTS.len()), src.chance(50)))
    }
    if src.chance(30) {
        args.push(Arg::Custom(src.pick(&["-Gbgcolor=red", "-Nshape=box", "-Ecolor=blue", "-Gdpi=50", "-q"]).to_string()))
    }
    c.input(&format!("{text}\n=== args {args:?}"));
    c.nontrivial = true;
    against_direct(&text, &args, true)
}

/// output directed to a file
fn real_file(src: &mut Src, c: &mut Case) -> R {
    let text = drawing(src);
    let d = Dir::new();
    let f = stable_format(src);
    let name = src.pick(&["out.svg", "a b.svg", "é.png", "-x", "$HOME", "a'b\"c", "x=y", "日本"]).to_string();
    let (a, b) = (d.0.join(format!("lib-{name}")), d.0.join(format!("dot-{name}")));
    let args = |p: &PathBuf, o: bool| {
        let mut v = vec![Arg::Format(f, true), Arg::Output(p.display().to_string())];
        if o {
            v.reverse()
        }
        v
    };
    let order = src.chance(50);
    if src.chance(30) {
        // something longer is there already
        std::fs::write(&a, "old".repeat(100_000)).unwrap();
    }
    c.input(&format!("{text}\n=== {:?}", args(&PathBuf::from(&name), order)));
    c.nontrivial = true;
    let show = || format!("{text}\n=== {:?}", args(&a, order));
    let g = graphviz_rust::parse(&text).ok().filter(|_| src.chance(50));
    persistent(|| {
        let lib: Vec<CommandArg> = args(&a, order).iter().map(|x| x.lib()).collect();
        let mut want_text = text.clone();
        let r = match &g {
            Some(g) => {
                let g = g.clone();
                want_text = lib_print(&g, &mut Default::default(), &show)?;
                guarded(|| graphviz_rust::exec(g, &mut Default::default(), lib))
            }
            None => guarded(|| graphviz_rust::exec_dot(text.clone(), lib)),
        };
        let (code, _, err) = direct(&want_text, &args(&b, order), &d);
        match r {
            Err(e) => bad(format!("exec panicked: {e}"), show()),
            Ok(Err(e)) if code == Some(0) => bad(format!("dot succeeds when run directly, exec says {e:?}"), show()),
            Ok(Ok(_)) if code != Some(0) => bad(format!("dot fails when run directly, exec succeeds: {err}"), show()),
            Ok(Err(_)) => Ok(()),
            Ok(Ok(o)) => {
                if !o.is_empty() {
                    return bad(format!("{} bytes returned, with the output directed to a file", o.len()), show());
                }
                let (x, y) = (std::fs::read(&a), std::fs::read(&b));
                match (x, y) {
                    (Ok(x), Ok(y)) if x == y => Ok(()),
                    (x, y) => bad(format!("the output file holds {:?} bytes, run directly {:?}", x.map(|v| v.len()).ok(), y.map(|v| v.len()).ok()), show()),
                }
            }
        }
    })
}

// ---- P13

fn gen_signal(src: &mut Src) -> i64 {
    *src.pick(&[libc::SIGKILL, libc::SIGTERM, libc::SIGSEGV, libc::SIGABRT, libc::SIGINT, libc::SIGHUP, libc::SIGPIPE, libc::SIGQUIT, libc::SIGALRM, libc::SIGUSR1, libc::SIGBUS, libc::SIGFPE, libc::SIGXFSZ]) as i64
}

fn gen_ending(p: &mut Plan, src: &mut Src) {
    match src.weighted(&[55, 25, 20]) {
        0 => p.exit = src.range(1, 255) as i64,
        1 => p.signal = Some(gen_signal(src)),
        _ => {}
    }
    if src.chance(15) {
        p.close = Some(src.draw(60))
    }
}

fn judge_ending(p: &Plan, r: &io::Result<Vec<u8>>) -> R {
    let ok = p.signal.is_none() && p.exit == 0;
    match r {
        Ok(_) if !ok => bad("dot failed and exec succeeds", p.show()),
        Err(e) if ok => bad(format!("dot exits with 0 and exec says {e:?}"), p.show()),
        Err(e) => {
            let want = String::from_utf8_lossy(&p.stderr).to_string();
            if !e.to_string().contains(want.trim()) {
                return bad(format!("the error {:?} does not carry dot's diagnostics", cut(&e.to_string(), 300)), p.show());
            }
            Ok(())
        }
        Ok(_) => same_output(p, r),
    }
}

fn endings(src: &mut Src, c: &mut Case) -> R {
    let text = if src.chance(80) { "graph { a }".to_string() } else { gen_text(src) };
    let args = gen_args(src);
    let mut p = Plan::new(text, args, src).streams(src);
    if src.chance(50) {
        p.stderr = format!("Error: <stdin>: syntax error in line {} near '{}'\n", src.range(1, 99), src.pick(&["{", "é", "->"])).into_bytes()
    }
    gen_ending(&mut p, src);
    c.key = p.key();
    c.sample = Some(p.show());
    c.nontrivial = true;
    c.label(if p.signal.is_some() {
        "killed"
    } else if p.exit != 0 {
        "exit status"
    } else if p.stderr.is_empty() {
        "success"
    } else {
        "success with warnings"
    });
    let (r, rep) = run_plan(&p, How::Text)?;
    handed_over(&p, &rep)?;
    judge_ending(&p, &r)
}

/// every exit status and signal once
fn every_ending(src: &mut Src, c: &mut Case) -> R {
    let k = src.draw(256 + 31) as i64;
    let mut p = Plan::new("graph {}".into(), vec![], &mut Src::replay(vec![]));
    p.stdout = b"output".to_vec();
    p.stderr = b"diagnostics".to_vec();
    if k < 256 {
        p.exit = k
    } else {
        let s = k - 256 + 1;
        // those that do not end a process
        if [libc::SIGSTOP, libc::SIGTSTP, libc::SIGTTIN, libc::SIGTTOU, libc::SIGCONT, libc::SIGCHLD, libc::SIGURG, libc::SIGWINCH].contains(&(s as i32)) {
            return Ok(());
        }
        p.signal = Some(s)
    }
    c.key = k as u64;
    c.sample = Some(p.show());
    c.nontrivial = true;
    let (r, _) = run_plan(&p, How::Text)?;
    judge_ending(&p, &r)
}

/// broken or damaged documents given to the real dot
fn real_errors(src: &mut Src, c: &mut Case) -> R {
    let mut text = drawing(src);
    let cs: Vec<char> = text.chars().collect();
    for _ in 0..src.count(1, 3) {
        let i = src.below(cs.len());
        text = match src.below(4) {
            0 => cs[..i].iter().collect(),
            1 => cs.iter().enumerate().filter(|(j, _)| *j != i).map(|(_, c)| *c).collect(),
            2 => format!("{}{}", text, src.pick(&["}", "{", "x", "]"])),
            _ => cs.iter().enumerate().map(|(j, c)| if j == i { '{' } else { *c }).collect(),
        };
    }
    let name = *src.pick(&["svg", "dot", "plain", "psd", "canon"]);
    let f = FORMATS.iter().position(|f| f.1 == name).unwrap();
    let mut args = vec![Arg::Format(f, true)];
    if src.chance(20) {
        args.push(Arg::Custom(src.pick(&["-Tfoo", "-Kbar", "-Z", "-o/nonexistent-dir/x.svg", "nonexistent-input.gv"]).to_string()))
    }
    c.input(&format!("{text}\n=== args {args:?}"));
    c.nontrivial = true;
    // a file that Graphviz crashes on is not for comparing
    let d = Dir::new();
    let first = direct(&text, &args, &d);
    if first.0.is_none() || first != direct(&text, &args, &d) {
        return Ok(());
    }
    c.label(if first.0 == Some(0) { "drawn" } else { "dot fails" });
    against_direct(&text, &args, true)
}

#[derive(Clone, Copy, Debug, PartialEq)]
enum Fault {
    NoDot,
    NotExecutable,
    Directory,
    Garbage,
    NoInterpreter,
    TmpMissing,
    TmpIsFile,
    TmpUnwritable,
    FileSize,
    NulInArgument,
    HugeArgument,
    FewFiles,
    NoProcesses,
    CwdGone,
    TmpOddName,
    TmpRelative,
    NoTmpFilesLeft,
}
const FAULTS: [Fault; 17] = [
    Fault::NoDot,
    Fault::NotExecutable,
    Fault::Directory,
    Fault::Garbage,
    Fault::NoInterpreter,
    Fault::TmpMissing,
    Fault::TmpIsFile,
    Fault::TmpUnwritable,
    Fault::FileSize,
    Fault::NulInArgument,
    Fault::HugeArgument,
    Fault::FewFiles,
    Fault::NoProcesses,
    Fault::CwdGone,
    Fault::TmpOddName,
    Fault::TmpRelative,
    Fault::NoTmpFilesLeft,
];

/// one execution in a process whose environment is at fault
fn fault(leak: bool) -> impl Fn(&mut Src, &mut Case) -> R {
    use Fault::*;
    move |src, c| {
        let f = *src.pick(&FAULTS);
        let d = Dir::new();
        // open to the unprivileged user
        let open = |p: &PathBuf, mode: u32| {
            use std::os::unix::fs::PermissionsExt;
            std::fs::set_permissions(p, std::fs::Permissions::from_mode(mode)).unwrap();
        };
        open(&d.0, 0o777);
        let bin = d.0.join("bin");
        let mut tmp = d.0.join("tmp");
        let cwd = d.0.join("cwd");
        for x in [&bin, &tmp, &cwd] {
            std::fs::create_dir(x).unwrap();
            open(x, 0o777);
        }
        let dot = bin.join("dot");
        let link = || std::os::unix::fs::symlink(scratch::bin().join("dot"), &dot).unwrap();
        let text = match src.below(3) {
            0 => "graph { a }".to_string(),
            1 => "digraph {\n".to_string() + &"  a -> b;\n".repeat(src.range(1, 2000)) + "}",
            _ => gen_text(src),
        };
        let mut p = Plan::new(text, vec![], &mut Src::replay(vec![]));
        p.stdout = gen_bytes(src, true);
        p.stderr = gen_bytes(src, true);
        if src.chance(25) {
            gen_ending(&mut p, src)
        }
        let mut spec = json!({"path": hex(bin.as_os_str().as_bytes()), "cwd": hex(cwd.as_os_str().as_bytes()), "result": d.0.join("result").display().to_string()});
        let mut extra: Vec<String> = vec![];
        let mut must_fail = false;
        let mut must_work = false;
        let mut tmpname: Vec<u8> = tmp.as_os_str().as_bytes().to_vec();
        let mut what = format!("{f:?}");
        match f {
            NoDot => must_fail = true,
            NotExecutable => {
                std::fs::copy(scratch::bin().join("dot"), &dot).unwrap();
                open(&dot, 0o644);
                must_fail = true
            }
            Directory => {
                std::fs::create_dir(&dot).unwrap();
                must_fail = true
            }
            Garbage => {
                std::fs::write(&dot, b"\x7fELF\x02\x01\x01garbage").unwrap();
                open(&dot, 0o755);
                must_fail = true
            }
            NoInterpreter => {
                std::fs::write(&dot, "#!/nonexistent/interpreter\n").unwrap();
                open(&dot, 0o755);
                must_fail = true
            }
            TmpMissing => {
                link();
                tmpname = tmp.join("missing").as_os_str().as_bytes().to_vec();
            }
            TmpIsFile => {
                link();
                let x = tmp.join("file");
                std::fs::write(&x, "x").unwrap();
                tmpname = x.as_os_str().as_bytes().to_vec();
            }
            TmpUnwritable => {
                link();
                open(&tmp, 0o555);
                spec["uid"] = json!(65534);
            }
            FileSize => {
                link();
                // around the limit
                let limit = src.range(2, 40) * 1024;
                let n = match src.below(4) {
                    0 => limit,
                    1 => limit + 1,
                    2 => limit - 1,
                    _ => src.range(1, 3 * limit),
                };
                p.text = "a;".repeat(n / 2) + if n % 2 == 1 { "\n" } else { "" };
                p.stdout.truncate(60);
                p.stderr.truncate(60);
                spec["fsize"] = json!(limit);
                what += &format!(" {limit} text {n}");
            }
            NulInArgument => {
                link();
                extra.push(src.pick(&["\0", "a\0b", "-Tsvg\0"]).to_string());
                must_fail = true
            }
            HugeArgument => {
                link();
                extra.push("x".repeat(src.range(131_072, 400_000)));
                must_fail = true
            }
            FewFiles => {
                link();
                let n = src.range(4, 14);
                spec["nofile"] = json!(n);
                what += &format!(" {n}");
            }
            NoProcesses => {
                link();
                spec["uid"] = json!(65534);
                spec["nproc"] = json!(0);
                must_fail = true
            }
            CwdGone => {
                link();
                spec["remove_cwd"] = json!(true);
                must_work = true
            }
            TmpOddName => {
                link();
                let odd: [&[u8]; 7] = [b"a b", b"\xff\xfe", b"-Tsvg", b"x\ny", b"'\"$(x)", b"*?", "日本 é".as_bytes()];
                tmp = tmp.join(OsStr::from_bytes(*src.pick(&odd)));
                std::fs::create_dir(&tmp).unwrap();
                tmpname = tmp.as_os_str().as_bytes().to_vec();
                must_work = true;
                what += &format!(" {:?}", tmp.file_name().unwrap())
            }
            TmpRelative => {
                link();
                let rel = *src.pick(&["rel", "-rel", "./rel", "a b", "."]);
                tmp = cwd.join(rel);
                let _ = std::fs::create_dir(&tmp);
                tmpname = rel.as_bytes().to_vec();
                must_work = true;
                what += &format!(" {rel}")
            }
            NoTmpFilesLeft => {
                // other files in the directory are none of its business
                link();
                scratch::others(&tmp);
                for i in 0..src.range(1, 4) {
                    std::fs::write(tmp.join(format!(".tmp{i}abcde")), "mine").unwrap()
                }
                must_work = true
            }
        }
        spec["tmpdir"] = json!(hex(&tmpname));
        let (_, args) = script(&p, &d);
        let mut a: Vec<String> = args.iter().map(|x| x.want()).collect();
        a.extend(extra);
        spec["args"] = json!(a.iter().map(|x| hex(x.as_bytes())).collect::<Vec<_>>());
        spec["text"] = json!(hex(p.text.as_bytes()));
        std::fs::write(d.0.join("spec"), spec.to_string()).unwrap();
        let list = |x: &PathBuf| entries(x).into_iter().map(|p| (p.clone(), std::fs::read(&p).ok())).collect::<Vec<_>>();
        let before = list(&tmp);
        let cwd_before = list(&cwd);
        let o = Command::new(scratch::bin().join("dot")).arg0("exec-child").arg("--child").arg(d.0.join("spec")).stdin(Stdio::null()).output().expect("child");
        let res: Option<Value> = std::fs::read(d.0.join("result")).ok().and_then(|b| serde_json::from_slice(&b).ok());
        let rep = read_report(&d);
        c.label(match f {
            NoDot | NotExecutable | Directory | Garbage | NoInterpreter => "dot cannot be started",
            TmpMissing | TmpIsFile | TmpUnwritable => "no temporary directory",
            FileSize => "disk full while writing",
            FewFiles | NoProcesses | HugeArgument | NulInArgument => "the system refuses",
            _ => "odd but working environment",
        });
        let show = || format!("{what}\n{}", p.show());
        c.key = hash64(&[show().as_bytes()]);
        c.sample = Some(show());
        c.nontrivial = true;
        let Some(res) = res else {
            return bad(format!("the process ended without a result: {} {}", o.status, short(&String::from_utf8_lossy(&o.stderr))), show());
        };
        if res["skip"] == true {
            c.label("not possible here");
            c.nontrivial = false;
            return Ok(());
        }
        if let Some(m) = res["panic"].as_str() {
            return bad(format!("exec panicked: {m}"), show());
        }
        if let (Some(r), true) = (&rep, f != CwdGone) {
            if r.cwd.as_deref() != Some(cwd.as_os_str().as_bytes()) {
                return bad(format!("dot does not run in its caller's directory, but in {:?}", r.cwd.as_ref().map(|v| String::from_utf8_lossy(v).to_string())), show());
            }
        }
        if leak {
            let after = list(&tmp);
            if before != after {
                let n = |v: &[(PathBuf, Option<Vec<u8>>)]| v.iter().map(|x| x.0.display().to_string()).collect::<Vec<_>>();
                return bad(format!("the temporary directory held {:?}, now {:?}", n(&before), n(&after)), show());
            }
            if f != CwdGone && f != TmpRelative && list(&cwd) != cwd_before {
                return bad("something was left in the current directory", show());
            }
            if let Some(path) = rep.as_ref().and_then(|r| r.path.as_ref()) {
                let path = PathBuf::from(OsStr::from_bytes(path));
                if path.is_absolute() && path.exists() {
                    return bad(format!("{} is left", path.display()), show());
                }
            }
            return Ok(());
        }
        let success = p.signal.is_none() && p.exit == 0;
        if let Some(out) = res["ok"].as_str() {
            if must_fail {
                return bad("exec succeeds, though dot cannot have been run", show());
            }
            // success only with the whole graph handed over to a dot that succeeded
            handed_over(&p, &rep)?;
            if !success {
                return bad("dot failed and exec succeeds", show());
            }
            return same_output(&p, &Ok(unhex(out)));
        }
        let e = res["err"].as_str().unwrap_or("?").to_string();
        if must_work {
            handed_over(&p, &rep).map_err(|x| Fail { msg: format!("{} (exec says {e})", x.msg), input: show(), ..x })?;
            return judge_ending(&p, &Err(io::Error::other(e)));
        }
        // dot is never run on a part of the graph
        if rep.is_some() {
            handed_over(&p, &rep)?;
        }
        Ok(())
    }
}
use std::os::unix::process::CommandExt;

// ---- sizes

/// MiB of the graph, of the output and of the diagnostics
const SIZES: [(usize, usize, usize); 12] =
    [(0, 3, 0), (3, 0, 0), (0, 0, 3), (9, 9, 0), (0, 17, 1), (17, 0, 0), (0, 0, 20), (33, 1, 0), (1, 40, 0), (65, 0, 0), (0, 72, 0), (0, 131, 33)];

/// bytes each of whose parts tells where it is
fn counted(mib: usize) -> Vec<u8> {
    let mut v = Vec::with_capacity(mib << 20);
    let mut i = 0u32;
    while v.len() < mib << 20 {
        v.extend_from_slice(format!("{i:07x};").as_bytes());
        i += 1
    }
    v.extend_from_slice(&b"end\n"[..mib % 5]);
    v
}

/// one execution of a big graph, with a big output or big diagnostics
fn sizes(what: u8) -> impl Fn(&mut Src, &mut Case) -> R {
    move |src, c| {
        let (t, o, e) = SIZES[src.below(SIZES.len())];
        c.input(&format!("a graph of {t} MiB, {o} MiB of output, {e} MiB of diagnostics"));
        c.nontrivial = true;
        let mut p = Plan::new(String::from_utf8(counted(t)).unwrap(), vec![Arg::Format(0, false)], &mut Src::replay(vec![]));
        (p.stdout, p.stderr) = (counted(o), counted(e));
        if what != b'o' {
            p.exit = 1
        }
        let (r, rep) = run_plan(&p, How::Text)?;
        match what {
            b'e' => judge_ending(&p, &r),
            b'o' => {
                handed_over(&p, &rep)?;
                same_output(&p, &r)
            }
            _ => {
                gone(&p, &rep)?;
                let left = scratch::left();
                if !left.is_empty() {
                    return bad(format!("temporary files are left: {left:?}"), p.show());
                }
                Ok(())
            }
        }
    }
}

// ---- P14

fn leaves_nothing(src: &mut Src, c: &mut Case) -> R {
    // a history of executions, successful and failing
    let mut shows = vec![];
    for _ in 0..src.range(1, 5) {
        let text = gen_text(src);
        let args = gen_args(src);
        let mut p = Plan::new(text, args, src);
        p.stdout = gen_bytes(src, true);
        p.stderr = gen_bytes(src, true);
        if src.chance(60) {
            gen_ending(&mut p, src)
        }
        shows.push(p.show());
        c.label(if p.signal.is_some() || p.exit != 0 { "dot fails" } else { "dot succeeds" });
        let graph = src.chance(30);
        let (_, rep) = if graph {
            let o = gen_opts(src);
            let g = gen::graph(src, &Cfg { budget: 8, ..Cfg::parsed() });
            run_plan(&p, How::Graph(built(&g, ""), &mut context(&o)))?
        } else {
            run_plan(&p, How::Text)?
        };
        gone(&p, &rep)?;
        if rep.as_ref().is_some_and(|r| !r.read || !r.same) {
            return bad("the graph could not be read while dot was running", shows.join("\n=== then\n"));
        }
        let left = scratch::left();
        if !left.is_empty() {
            return bad(format!("temporary files are left, or those of others touched: {left:?}"), shows.join("\n=== then\n"));
        }
    }
    c.evals = shows.len() as u64;
    c.input(&shows.join("\n=== then\n"));
    c.nontrivial = true;
    Ok(())
}

fn concurrent(src: &mut Src, c: &mut Case) -> R {
    let n = src.range(2, 16);
    let mut plans: Vec<Vec<Plan>> = vec![];
    for t in 0..n {
        let mut v = vec![];
        for k in 0..src.range(1, 3) {
            let text = match src.below(5) {
                // often the same text in several executions
                0 => "graph { same }".to_string(),
                1 => gen_text(src),
                _ => format!("graph t{t} {{ k{k} }}"),
            };
            let mut p = Plan::new(text, if src.chance(30) { gen_args(src) } else { vec![] }, src);
            p.stdout = format!("output of {t} {k} {}\n", "x".repeat(*src.pick(&[0usize, 10, 5000, 100_000]))).into_bytes();
            p.stderr = format!("diagnostics of {t} {k}").into_bytes();
            p.before = src.draw(8);
            p.after = src.draw(12);
            if src.chance(25) {
                gen_ending(&mut p, src)
            }
            v.push(p)
        }
        plans.push(v)
    }
    let show = plans.iter().enumerate().map(|(i, v)| format!("thread {i}: {}", v.iter().map(|p| p.show()).collect::<Vec<_>>().join(" then "))).collect::<Vec<_>>().join("\n");
    c.evals = plans.iter().map(|v| v.len() as u64).sum();
    c.input(&show);
    c.nontrivial = true;
    c.label(if n >= 8 { "8+ threads" } else { "2 to 7 threads" });
    let start = std::sync::Barrier::new(n);
    let results: Vec<R> = std::thread::scope(|s| {
        let hs: Vec<_> = plans
            .iter()
            .map(|v| {
                let start = &start;
                s.spawn(move || {
                    start.wait();
                    for p in v {
                        let (r, rep) = run_plan(p, How::Text)?;
                        handed_over(p, &rep)?;
                        judge_ending(p, &r)?;
                        gone(p, &rep)?;
                    }
                    Ok(())
                })
            })
            .collect();
        hs.into_iter().map(|h| h.join().expect("thread of the harness")).collect()
    });
    for r in results {
        r.map_err(|f| Fail { input: format!("{}\n=== among\n{show}", f.input), ..f })?
    }
    let left = scratch::left();
    if !left.is_empty() {
        return bad(format!("temporary files are left, or those of others touched: {left:?}"), show);
    }
    Ok(())
}

/// far more executions at once than a short name has values
fn crowd(src: &mut Src, c: &mut Case) -> R {
    let n = src.range(70, 160);
    let sizes = [0usize, 10, 5000];
    let plans: Vec<Plan> = (0..n)
        .map(|t| {
            let mut p = Plan::new(format!("graph t{t} {{ {} }}", "x ".repeat(*src.pick(&sizes))), vec![], src);
            p.stdout = format!("output of {t}").into_bytes();
            p.after = 500;
            if src.chance(10) {
                gen_ending(&mut p, src)
            }
            p
        })
        .collect();
    let show = format!("{n} executions at once\n{}", plans[0].show());
    c.evals = n as u64;
    c.key = hash64(&plans.iter().map(|p| p.key().to_le_bytes()).collect::<Vec<_>>().iter().map(|b| &b[..]).collect::<Vec<_>>());
    c.sample = Some(show.clone());
    c.nontrivial = true;
    let start = std::sync::Barrier::new(n);
    let results: Vec<R> = std::thread::scope(|s| {
        let hs: Vec<_> = plans
            .iter()
            .map(|p| {
                let start = &start;
                s.spawn(move || {
                    start.wait();
                    let (r, rep) = run_plan(p, How::Text)?;
                    handed_over(p, &rep)?;
                    judge_ending(p, &r)?;
                    gone(p, &rep)
                })
            })
            .collect();
        hs.into_iter().map(|h| h.join().expect("thread of the harness")).collect()
    });
    for r in results {
        r.map_err(|f| Fail { input: format!("{}\n=== among {show}", f.input), ..f })?
    }
    let left = scratch::left();
    if !left.is_empty() {
        return bad(format!("temporary files are left, or those of others touched: {left:?}"), show);
    }
    Ok(())
}

/// processes of their own execute at the same time; then again, with files of others where theirs were
fn processes(src: &mut Src, c: &mut Case) -> R {
    let home = Dir::new();
    let tmp = home.0.join("tmp");
    std::fs::create_dir(&tmp).unwrap();
    let n = src.range(2, 6);
    scratch::others(&tmp);
    let listing = || entries(&tmp).into_iter().map(|p| (p.clone(), std::fs::read(&p).unwrap_or_default())).collect::<Vec<_>>();
    let mut theirs: Vec<(PathBuf, Vec<u8>)> = listing();
    let mut shows = vec![];
    for wave in 0..2 {
        let mut started = vec![];
        for t in 0..n {
            let text = match src.below(4) {
                0 => "graph { same }".to_string(),
                1 => gen_text(src),
                _ => format!("graph w{wave} {{ p{t} }}"),
            };
            let mut p = Plan::new(text, if src.chance(30) { gen_args(src) } else { vec![] }, src);
            p.stdout = format!("output of {t} {wave}").into_bytes();
            p.after = src.draw(60);
            if src.chance(15) {
                gen_ending(&mut p, src)
            }
            let d = Dir::new();
            let (_, args) = script(&p, &d);
            // an argument of the system holds no NUL
            let spec = json!({
                "result": d.0.join("result").display().to_string(),
                "tmpdir": hex(tmp.as_os_str().as_bytes()),
                "args": args.iter().map(|x| hex(x.want().as_bytes())).collect::<Vec<_>>(),
                "text": hex(p.text.as_bytes()),
            });
            std::fs::write(d.0.join("spec"), spec.to_string()).unwrap();
            shows.push(format!("wave {wave}, process {t}: {}", p.show()));
            started.push((p, d));
        }
        let running: Vec<_> = started
            .iter()
            .map(|(_, d)| Command::new(scratch::bin().join("dot")).arg0("exec-child").arg("--child").arg(d.0.join("spec")).stdin(Stdio::null()).stdout(Stdio::null()).stderr(Stdio::null()).spawn().expect("child"))
            .collect();
        let show = || format!("{}\n=== the last of these", shows.join("\n"));
        for mut r in running {
            r.wait().expect("child");
        }
        let mut paths = vec![];
        for (p, d) in &started {
            let res: Value = match std::fs::read(d.0.join("result")).ok().and_then(|b| serde_json::from_slice(&b).ok()) {
                Some(v) => v,
                None => return bad("a process ended without a result", show()),
            };
            if let Some(m) = res["panic"].as_str() {
                return bad(format!("exec panicked: {m}"), show());
            }
            let r = match res["ok"].as_str() {
                Some(o) => Ok(unhex(o)),
                None => Err(io::Error::other(res["err"].as_str().unwrap_or("?").to_string())),
            };
            let rep = read_report(d);
            let within = |f: Fail| Fail { input: show(), ..f };
            handed_over(p, &rep).map_err(|f| Fail { msg: format!("{} (exec says {r:?})", f.msg), ..within(f) })?;
            judge_ending(p, &r).map_err(within)?;
            paths.extend(rep.and_then(|r| r.path));
        }
        let mut left = listing();
        left.sort();
        theirs.sort();
        if left != theirs {
            let n = |v: &[(PathBuf, Vec<u8>)]| v.iter().map(|x| x.0.display().to_string()).collect::<Vec<_>>();
            return bad(format!("of the files of others {:?} and those of the executions is left {:?}, or changed", n(&theirs), n(&left)), show());
        }
        if wave == 0 {
            for path in paths {
                let path = PathBuf::from(OsStr::from_bytes(&path));
                if path.starts_with(&tmp) && !theirs.iter().any(|t| t.0 == path) && std::fs::write(&path, b"of someone else").is_ok() {
                    theirs.push((path, b"of someone else".to_vec()))
                }
            }
        }
    }
    c.evals = 2 * n as u64;
    c.input(&shows.join("\n"));
    c.nontrivial = true;
    c.label_if(!theirs.is_empty(), "files of others in the way");
    Ok(())
}

/// one execution, of whatever outcome; what it was
pub fn any_execution(src: &mut Src) -> Result<String, Fail> {
    let text = gen_text(src);
    let mut args = gen_args(src);
    let refused = src.chance(20);
    if refused {
        // the system does not start dot with this
        args.push(Arg::Custom(src.pick(&["\0".to_string(), "a\0b".to_string(), "x".repeat(200_000)]).clone()))
    }
    let mut p = Plan::new(text, args, src);
    p.stdout = gen_bytes(src, true);
    p.stderr = gen_bytes(src, true);
    if src.chance(50) {
        gen_ending(&mut p, src)
    }
    let _ = run_plan(&p, How::Text)?;
    Ok(p.show())
}

/// an execution that can be repeated
pub fn one_execution(src: &mut Src) -> (String, impl FnMut() -> Result<(), Fail>) {
    let text = format!("graph {{ {} }}", "a; ".repeat(src.range(0, 300)));
    let mut p = Plan::new(text, gen_args(src), src);
    p.stdout = gen_bytes(src, true);
    p.stderr = gen_bytes(src, true);
    if src.chance(50) {
        gen_ending(&mut p, src)
    }
    let d = Dir::new();
    let (_, args) = script(&p, &d);
    let show = p.show();
    let run = move || {
        let lib: Vec<CommandArg> = args.iter().map(|a| a.lib()).collect();
        let _d = &d;
        match guarded(|| graphviz_rust::exec_dot(p.text.clone(), lib)) {
            Ok(_) => Ok(()),
            Err(e) => bad(format!("exec panicked: {e}"), p.show()),
        }
    };
    (show, run)
}

/// as many executions as there are wait for each other: none waits for another to end
fn side_by_side(src: &mut Src, c: &mut Case) -> R {
    let n = src.range(2, 24);
    let meet = Dir::new();
    let mut plans = vec![];
    for t in 0..n {
        let mut p = Plan::new(format!("graph t{t} {{ }}"), vec![], src);
        p.stdout = format!("output of {t}").into_bytes();
        p.meet = Some((meet.0.clone(), n));
        if src.chance(20) {
            gen_ending(&mut p, src)
        }
        plans.push((p, src.chance(40)))
    }
    let show = || format!("{n} executions that wait for each other\n{}", plans.iter().map(|p| p.0.show()).collect::<Vec<_>>().join("\n"));
    c.evals = n as u64;
    c.input(&show());
    c.nontrivial = true;
    let results: Vec<R> = std::thread::scope(|s| {
        let hs: Vec<_> = plans
            .iter()
            .enumerate()
            .map(|(t, (p, graph))| {
                s.spawn(move || {
                    let (mut p, g) = (p.clone(), ds::Graph::Graph { id: ds::Id::Plain(format!("t{t}")), strict: false, stmts: vec![] });
                    let (r, rep) = if *graph {
                        p.text = lib_print(&g, &mut Default::default(), &|| "an empty graph".into())?;
                        run_plan(&p, How::Graph(g, &mut Default::default()))?
                    } else {
                        run_plan(&p, How::Text)?
                    };
                    if rep.as_ref().is_some_and(|r| !r.met) {
                        return bad("one execution waits for another to end", p.show());
                    }
                    handed_over(&p, &rep)?;
                    judge_ending(&p, &r)
                })
            })
            .collect();
        hs.into_iter().map(|h| h.join().expect("thread of the harness")).collect()
    });
    for r in results {
        r.map_err(|f| Fail { input: format!("{}\n=== among {}", f.input, show()), ..f })?
    }
    let left = scratch::left();
    if !left.is_empty() {
        return bad(format!("temporary files are left, or those of others touched: {left:?}"), show());
    }
    Ok(())
}

/// executions while a graph is printed for another, and after one whose printing has failed
fn amid_printing(src: &mut Src, c: &mut Case) -> R {
    use std::sync::{Arc, Mutex};
    let n = src.range(1, 3);
    let key = || ds::Id::Plain("k".into());
    let attr = |i: usize| ds::Attribute(key(), ds::Id::Plain(format!("v{i}")));
    let stmts = (0..n).map(|i| ds::Stmt::Node(ds::Node { id: ds::NodeId(ds::Id::Plain(format!("n{i}")), None), attributes: vec![attr(i)] })).collect();
    let g = ds::Graph::DiGraph { id: ds::Id::Plain("g".into()), strict: src.chance(50), stmts };
    let text = lib_print(&g, &mut Default::default(), &|| "a small graph".into())?;
    let mut inner = vec![];
    for _ in 0..n {
        let (t, a) = (gen_text(src), gen_args(src));
        let mut p = Plan::new(t, a, src).streams(src);
        if src.chance(40) {
            gen_ending(&mut p, src)
        }
        inner.push(p)
    }
    let fails = src.chance(50);
    let a = gen_args(src);
    let outer = Plan::new(text, a, src).streams(src);
    let show = || format!("{}\n=== while this is printed\n{}{}", inner.iter().map(|p| p.show()).collect::<Vec<_>>().join("\n"), outer.show(), if fails { "\n=== after a graph whose printing panics" } else { "" });
    c.evals = n as u64 + 1;
    c.input(&show());
    c.nontrivial = true;
    c.label(if fails { "after printing that panics" } else { "no printing that panics" });
    if fails {
        let mut ctx = PrinterContext::default();
        ctx.with_attr_value_printer(key(), Box::new(|_, _, _, _| panic!("a value printer of the harness gives up")));
        let d = Dir::new();
        let (_, args) = script(&outer, &d);
        let _ = guarded(|| graphviz_rust::exec(g.clone(), &mut ctx, args.iter().map(|a| a.lib()).collect()));
        let left = scratch::left();
        if !left.is_empty() {
            return bad(format!("after a graph whose printing panics, temporary files are left, or those of others touched: {left:?}"), show());
        }
    }
    let said: Arc<Mutex<Option<Fail>>> = Default::default();
    let mut ctx = PrinterContext::default();
    let (plans, s) = (inner.clone(), said.clone());
    ctx.with_attr_value_printer(
        key(),
        Box::new(move |v, _, _, _| {
            let i: usize = v.trim_start_matches('v').parse().unwrap_or(0);
            let p = &plans[i % plans.len()];
            let r = run_plan(p, How::Text).and_then(|(r, rep)| {
                handed_over(p, &rep)?;
                judge_ending(p, &r)?;
                gone(p, &rep)
            });
            if let Err(f) = r {
                *s.lock().unwrap_or_else(|e| e.into_inner()) = Some(f)
            }
            v.to_string()
        }),
    );
    let (r, rep) = run_plan(&outer, How::Graph(g, &mut ctx))?;
    if let Some(f) = said.lock().unwrap_or_else(|e| e.into_inner()).take() {
        return Err(Fail { input: show(), ..f });
    }
    handed_over(&outer, &rep)?;
    judge_ending(&outer, &r)?;
    let left = scratch::left();
    if !left.is_empty() {
        return bad(format!("temporary files are left, or those of others touched: {left:?}"), show());
    }
    Ok(())
}

/// One process executes several times, and in between its path, its directory for temporary files, its
/// current directory and its environment change, and dot is put away and back: each execution is as it
/// would be in a process of its own.
fn changing(src: &mut Src, c: &mut Case) -> R {
    let d = Dir::new();
    let sub = |kind: &str, i: usize| {
        let p = d.0.join(format!("{kind}{i}"));
        std::fs::create_dir(&p).unwrap();
        p
    };
    let bins: Vec<PathBuf> = (0..3).map(|i| sub("bin", i)).collect();
    let tmps: Vec<PathBuf> = (0..3).map(|i| sub("tmp", i)).collect();
    let cwds: Vec<PathBuf> = (0..3).map(|i| sub("cwd", i)).collect();
    let standin = scratch::bin().join("dot");
    let dots: Vec<PathBuf> = bins.iter().map(|b| b.join("dot")).collect();
    for x in &dots {
        if std::fs::hard_link(&standin, x).is_err() {
            std::fs::copy(&standin, x).unwrap();
        }
    }
    let mut there = [true; 3];
    let bytes = |p: &PathBuf| hex(p.as_os_str().as_bytes());
    const VARS: [&str; 3] = ["VERIF_A", "LC_ALL", "GVBINDIR_X"];
    let mut vars: Vec<(String, Option<String>)> = vec![];
    let mut plans = vec![];
    let mut steps = vec![];
    let mut shows = vec![];
    for k in 0..src.range(2, 6) {
        let mut step = json!({});
        let mut what = vec![];
        let mut moves = vec![];
        for (i, is) in there.iter_mut().enumerate() {
            if src.chance(25) {
                let away = bins[i].join("away");
                moves.push(if *is { json!([bytes(&dots[i]), bytes(&away)]) } else { json!([bytes(&away), bytes(&dots[i])]) });
                *is = !*is;
                what.push(format!("dot {} bin{i}", if *is { "put back into" } else { "taken away from" }))
            }
        }
        step["moves"] = json!(moves);
        let mut order: Vec<usize> = (0..3).collect();
        for i in (1..3).rev() {
            order.swap(i, src.below(i + 1))
        }
        order.truncate(src.range(1, 3));
        let path: Vec<String> = order.iter().map(|i| bins[*i].display().to_string()).collect();
        step["path"] = json!(hex(path.join(":").as_bytes()));
        let t = src.below(tmps.len());
        step["tmpdir"] = json!(bytes(&tmps[t]));
        // the others are not there meanwhile
        let lone = src.chance(30);
        step["only"] = json!(if lone { tmps.iter().enumerate().filter(|x| x.0 != t).map(|x| bytes(x.1)).collect::<Vec<_>>() } else { vec![] });
        let w = src.below(cwds.len());
        step["cwd"] = json!(bytes(&cwds[w]));
        let var = src.pick(&VARS).to_string();
        let value = if src.chance(30) { None } else { Some(format!("{}{k}", src.pick(&["C", "", "de_DE.UTF-8", "x y"]))) };
        step["env"] = json!([[hex(var.as_bytes()), value.as_ref().map(|v| hex(v.as_bytes()))]]);
        what.push(format!("path {order:?}, tmp{t}{}, cwd{w}, {var}={value:?}", if lone { " and no other" } else { "" }));
        vars.retain(|v| v.0 != var);
        vars.push((var, value));
        let text = match src.below(3) {
            0 => "graph { same }".to_string(),
            1 => format!("graph t{k} {{ }}"),
            _ => gen_text(src),
        };
        let mut p = Plan::new(text, if src.chance(40) { gen_args(src) } else { vec![] }, src);
        p.stdout = format!("output of {k}").into_bytes();
        p.stderr = format!("diagnostics of {k}").into_bytes();
        if src.chance(25) {
            gen_ending(&mut p, src)
        }
        let own = Dir::new();
        let (_, args) = script(&p, &own);
        step["args"] = json!(args.iter().map(|x| hex(x.want().as_bytes())).collect::<Vec<_>>());
        step["text"] = json!(hex(p.text.as_bytes()));
        shows.push(format!("{}: {}", what.join(", "), p.show()));
        steps.push(step);
        let expected = order.iter().find(|i| there[**i]).map(|i| dots[*i].clone());
        plans.push((p, own, expected, cwds[w].clone(), vars.clone()))
    }
    c.evals = plans.len() as u64;
    let show = shows.join("\n=== then\n");
    c.input(&show);
    c.nontrivial = true;
    c.label_if(plans.iter().any(|p| p.2.is_none()), "without a dot for a while");
    let spec = json!({"result": d.0.join("result").display().to_string(), "steps": steps});
    std::fs::write(d.0.join("spec"), spec.to_string()).unwrap();
    let o = Command::new(&standin).arg0("exec-child").arg("--child").arg(d.0.join("spec")).stdin(Stdio::null()).output().expect("child");
    let res: Option<Value> = std::fs::read(d.0.join("result")).ok().and_then(|b| serde_json::from_slice(&b).ok());
    let Some(res) = res else {
        return bad(format!("the process ended without a result: {} {}", o.status, short(&String::from_utf8_lossy(&o.stderr))), show);
    };
    for (k, (p, own, dot, cwd, vars)) in plans.iter().enumerate() {
        let at = |f: Fail| Fail { msg: format!("execution {k}: {}", f.msg), input: show.clone(), ..f };
        let wrong = |m: String| -> R { bad(m, "").map_err(at) };
        let one = &res[k];
        if let Some(m) = one["panic"].as_str() {
            return wrong(format!("exec panicked: {m}"));
        }
        let r = match one["ok"].as_str() {
            Some(o) => Ok(unhex(o)),
            None => Err(io::Error::other(one["err"].as_str().unwrap_or("?").to_string())),
        };
        let rep = read_report(own);
        let Some(dot) = dot else {
            if let Some(rep) = rep {
                return wrong(format!("there is no dot on the path, {:?} is run", rep.exe.map(|e| String::from_utf8_lossy(&e).to_string())));
            }
            if r.is_ok() {
                return wrong("there is no dot on the path and exec succeeds".into());
            }
            continue;
        };
        handed_over(p, &rep).map_err(|f| at(Fail { msg: format!("{} (exec says {r:?})", f.msg), ..f }))?;
        judge_ending(p, &r).map_err(at)?;
        let rep = rep.expect("report");
        let text = |b: &Option<Vec<u8>>| b.as_ref().map(|b| String::from_utf8_lossy(b).to_string());
        if rep.exe.as_deref() != Some(dot.as_os_str().as_bytes()) {
            return wrong(format!("the dot on the path is {dot:?}, {:?} is run", text(&rep.exe)));
        }
        if rep.cwd.as_deref() != Some(cwd.as_os_str().as_bytes()) {
            return wrong(format!("dot runs in {:?}, its caller in {cwd:?}", text(&rep.cwd)));
        }
        let env: Vec<&[u8]> = rep.env.as_deref().unwrap_or(&[]).split(|b| *b == 0).collect();
        for (k, v) in vars {
            let start = format!("{k}=");
            let has = env.iter().find_map(|e| e.strip_prefix(start.as_bytes())).map(|v| String::from_utf8_lossy(v).to_string());
            if has != *v {
                return wrong(format!("{k} is {v:?}, and {has:?} for dot"));
            }
        }
        if one["left"] != json!([]) {
            return wrong(format!("{} is left", one["left"]));
        }
    }
    Ok(())
}

// ---- P15

fn names(src: &mut Src, c: &mut Case) -> R {
    let k = src.draw(2 * (FORMATS.len() + LAYOUTS.len()) as u64) as usize;
    let (k, into) = (k / 2, k % 2 == 1);
    let arg = if k < FORMATS.len() { Arg::Format(k, into) } else { Arg::Layout(k - FORMATS.len(), into) };
    let mut p = Plan::new("graph {}".into(), vec![arg], &mut Src::replay(vec![]));
    p.stdout = b"x".to_vec();
    c.input(&format!("{:?} is {}", p.args, p.args[0].want()));
    c.nontrivial = true;
    let (r, rep) = run_plan(&p, How::Text)?;
    handed_over(&p, &rep)?;
    same_output(&p, &r)
}

fn arguments(src: &mut Src, c: &mut Case) -> R {
    let mut args = gen_args(src);
    if args.is_empty() {
        args.push(Arg::Output(gen_string(src)))
    }
    let p = Plan::new("graph {}".into(), args, src);
    c.key = p.key();
    c.sample = Some(format!("{:?}", p.args));
    c.nontrivial = true;
    c.label_if(p.args.iter().any(|a| matches!(a, Arg::Output(_))), "output file");
    c.label_if(p.args.iter().any(|a| a.want().contains([' ', '\n', '"', '\''])), "white space or quotes");
    c.label_if(p.args.iter().any(|a| a.want().is_empty()), "empty argument");
    let (r, rep) = run_plan(&p, How::Text)?;
    handed_over(&p, &rep)?;
    same_output(&p, &r)
}

/// every layout and format that does not need a screen, by the real dot
fn real_names(src: &mut Src, c: &mut Case) -> R {
    let k = src.draw((FORMATS.len() * (LAYOUTS.len() + 1)) as u64) as usize;
    let f = k % FORMATS.len();
    let name = FORMATS[f].1;
    if ["xlib", "x11", "gtk", "cgimage"].contains(&name) {
        return Ok(());
    }
    let mut args = vec![Arg::Format(f, false)];
    if k / FORMATS.len() > 0 {
        args.push(Arg::Layout(k / FORMATS.len() - 1, false))
    }
    let text = "graph g { a -- b; b -- c; c -- a; subgraph cluster_x { d; e }; d -- a [label=x]; a [shape=box URL=u] }";
    c.input(&format!("{args:?} on {text}"));
    c.nontrivial = true;
    against_direct(text, &args, STABLE.contains(&name))
}

pub fn checks() -> Vec<Check> {
    vec![
        Check {
            id: "P12",
            rule: "a case is one execution: generated text (or graph and printing options), arguments, and output of the stand-in for dot, compared with what the stand-in reports and wrote; or a drawing by the real dot compared with running it directly; non-trivial: text or output not empty, distinct by all of these",
            assumptions: vec!["the program found as dot on the path is run", "Graphviz 2.43 for the comparisons with the real dot"],
            subs: vec![
                Sub::random("texts", 9_000, 300_000, hands_over),
                Sub::random("arguments as given", 1_500, 40_000, hands_over_bare).threads(1),
                Sub::random("graphs", 6_000, 200_000, hands_over_graph),
                Sub::all("sizes", SIZES.len() as u64, sizes(b'o')).threads(2),
                Sub::all("slow", 1, slow),
                Sub::random("surroundings that change", 900, 30_000, changing),
                Sub::random("real output", 500, 10_000, real_output),
                Sub::random("real output files", 500, 10_000, real_file),
            ],
        },
        Check {
            id: "P13",
            rule: "a case is one execution in which the stand-in exits with a generated status or signal after generated output and diagnostics, or the environment is at fault (dot missing or not startable, temporary directory missing, full or unwritable, limits of the system), or the real dot is given a damaged document; non-trivial: all; distinct by script, text and fault",
            assumptions: vec!["diagnostics are compared as lossy UTF-8"],
            subs: vec![
                Sub::all("every ending", 256 + 31, every_ending),
                Sub::all("sizes", SIZES.len() as u64, sizes(b'e')).threads(2),
                Sub::all("slow", 1, slow),
                Sub::random("endings", 9_000, 300_000, endings),
                Sub::random("faults", 4_000, 150_000, fault(false)),
                Sub::random("real errors", 800, 15_000, real_errors),
            ],
        },
        Check {
            id: "P14",
            rule: "a case is a history of one to five executions with the temporary directory listed after each, or 2 to 16 threads executing at the same time with generated delays, or 70 to 160 with their executions all under way, or 2 to 6 processes in one temporary directory, twice, files of others standing the second time where theirs were the first, or an execution in a faulty environment with the directories listed before and after; non-trivial: all; distinct by the scripts",
            assumptions: vec!["schedules are those the system gives, spread by delays in the stand-in"],
            subs: vec![
                Sub::all("sizes", SIZES.len() as u64, sizes(b'l')).threads(1),
                Sub::random("histories", 1_000, 30_000, leaves_nothing).threads(1),
                Sub::random("concurrent", 300, 12_000, concurrent).threads(1),
                Sub::random("side by side", 40, 1_500, side_by_side).threads(1),
                Sub::random("amid printing", 300, 10_000, amid_printing).threads(1),
                Sub::random("crowd", 12, 400, crowd).threads(1),
                Sub::random("processes", 400, 12_000, processes),
                Sub::random("faults", 4_000, 100_000, fault(true)),
            ],
        },
        Check {
            id: "P15",
            rule: "every format and layout once through each conversion; generated argument lists; every format with every layout by the real dot, run directly and through the library; non-trivial: all; distinct by arguments",
            assumptions: vec!["Graphviz's documented names as listed in the harness", "bytes are compared for formats without dates or compression"],
            subs: vec![
                Sub::all("names", 2 * (FORMATS.len() + LAYOUTS.len()) as u64, names),
                Sub::random("arguments", 8_000, 250_000, arguments),
                Sub::all("names to the real dot", (FORMATS.len() * (LAYOUTS.len() + 1)) as u64, real_names),
                Sub::random("real output", 500, 15_000, real_output),
            ],
        },
    ]
}
