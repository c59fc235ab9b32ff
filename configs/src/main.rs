//! P21: the library built four ways answers alike.
use serde_json::{json, Value};
use std::cell::RefCell;
use std::io::{BufRead, BufReader, Write};
use std::path::PathBuf;
use std::process::{Child, ChildStdin, ChildStdout, Command, Stdio};
use std::sync::OnceLock;
use vcore::damage::mutate;
use vcore::gen::{self, Cfg};
use vcore::refparse::{self, Verdict};
use vcore::refprint::gen_opts;
use vcore::render::{render, Notation};
use vcore::runner::*;
use vcore::tape::{hash64, Src};

const CONFIGS: [(&str, &str, bool); 4] = [
    ("published helpers, with execution", "published", true),
    ("published helpers, without execution", "published", false),
    ("repository's helpers, with execution", "local", true),
    ("repository's helpers, without execution", "local", false),
];

type Built = Result<PathBuf, String>;

fn builds() -> &'static [Built] {
    static B: OnceLock<Vec<Built>> = OnceLock::new();
    B.get_or_init(|| {
        std::thread::scope(|s| {
            let hs: Vec<_> = CONFIGS
                .iter()
                .map(|(_, dir, exec)| {
                    s.spawn(move || {
                        let target = verif_dir().join(format!("target/probe-{dir}-{}", if *exec { "exec" } else { "plain" }));
                        let mut c = Command::new("cargo");
                        c.args(["build", "--release", "--offline", "--manifest-path"]).arg(verif_dir().join("configs").join(dir).join("Cargo.toml")).env("CARGO_TARGET_DIR", &target);
                        if *exec {
                            c.args(["--features", "exec"]);
                        }
                        let out = c.output().expect("cargo");
                        if out.status.success() {
                            Ok(target.join("release/probe"))
                        } else {
                            Err(String::from_utf8_lossy(&out.stderr).to_string())
                        }
                    })
                })
                .collect();
            hs.into_iter().map(|h| h.join().unwrap()).collect()
        })
    })
}

struct Probe {
    child: Child,
    to: ChildStdin,
    from: BufReader<ChildStdout>,
}

impl Probe {
    fn start(i: usize) -> Probe {
        let exe = builds()[i].as_ref().expect("built");
        let mut child = Command::new(exe).stdin(Stdio::piped()).stdout(Stdio::piped()).stderr(Stdio::null()).spawn().expect("probe");
        let to = child.stdin.take().unwrap();
        let from = BufReader::new(child.stdout.take().unwrap());
        Probe { child, to, from }
    }
    fn ask(&mut self, req: &str) -> Option<String> {
        writeln!(self.to, "{req}").ok()?;
        self.to.flush().ok()?;
        let mut l = String::new();
        self.from.read_line(&mut l).ok()?;
        serde_json::from_str::<Value>(&l).ok()?["r"].as_str().map(|s| s.to_string())
    }
}

impl Drop for Probe {
    fn drop(&mut self) {
        let _ = self.child.kill();
        let _ = self.child.wait();
    }
}

thread_local! { static PROBES: RefCell<Vec<Option<Probe>>> = const { RefCell::new(vec![]) }; }

/// What each configuration makes of a request; a probe that dies is an answer, too.
fn ask_all(req: &Value) -> Vec<String> {
    let req = req.to_string();
    PROBES.with(|p| {
        let mut p = p.borrow_mut();
        if p.is_empty() {
            *p = (0..CONFIGS.len()).map(|_| None).collect();
        }
        (0..CONFIGS.len())
            .map(|i| {
                let x = p[i].get_or_insert_with(|| Probe::start(i));
                match guarded(|| x.ask(&req)) {
                    Ok(Some(a)) => a,
                    _ => {
                        p[i] = None;
                        "the process died".into()
                    }
                }
            })
            .collect()
    })
}

fn agree(req: Value, shown: &str) -> Result<String, Fail> {
    let mut answers = ask_all(&req);
    for i in 1..answers.len() {
        if answers[i] != answers[0] {
            let at = answers[0].bytes().zip(answers[i].bytes()).take_while(|(a, b)| a == b).count();
            let near = |s: &str| s.bytes().skip(at.saturating_sub(60)).take(300).map(|b| b as char).collect::<String>();
            return fail(
                format!("the configurations differ: {} gives ...{:?}, {} gives ...{:?}", CONFIGS[0].0, near(&answers[0]), CONFIGS[i].0, near(&answers[i])),
                shown,
            );
        }
    }
    Ok(answers.swap_remove(0))
}

fn texts(src: &mut Src, c: &mut Case) -> Result<(), Fail> {
    let cfg = Cfg::parsed().sized(src);
    let g = gen::graph(src, &cfg);
    let (text, what) = match src.weighted(&[4, 5, 1]) {
        0 => (render(&g, src, Notation::Free), "valid"),
        1 => mutate(src, &g),
        _ => {
            let n = src.count(12, 80);
            ((0..n).map(|_| *src.pick(&['{', '}', '[', ']', 'a', 'g', 'r', 'p', 'h', ' ', '"', '\\', '<', '>', '-', ';', ',', '=', ':', '/', '*', '#', '\n', '0', '.', 'é'])).collect(), "random")
        }
    };
    let tape: Vec<u64> = (0..12).map(|_| src.draw(1 << 20)).collect();
    c.input(&text);
    c.label(what);
    let a = agree(json!({"op": "text", "text": text, "tape": tape}), &text)?;
    let rejected = a.starts_with("rejected");
    c.label(if rejected { "rejected by all" } else { "accepted by all" });
    c.nontrivial = !text.trim().is_empty();
    match refparse::parse(&text) {
        Verdict::Accept(_) if rejected => fail("a valid document is rejected in every configuration", text),
        Verdict::Accept(m) if !a.starts_with(&format!("{m:?}\n")) => fail("a valid document is read wrongly in every configuration", text),
        _ => Ok(()),
    }
}

fn drawn(op: &'static str) -> impl Fn(&mut Src, &mut Case) -> Result<(), Fail> {
    move |src, c| {
        // the probe draws the same things from the same tape
        let start = src.used().len();
        if op == "built" {
            let g = gen::graph(src, &Cfg::built());
            let o = gen_opts(src);
            c.nontrivial = !g.stmts.is_empty();
            c.sample = Some(format!("{g:?} {o:?}"));
        } else {
            for _ in 0..80 {
                src.draw(1 << 32);
            }
            c.nontrivial = true;
        }
        let tape = src.used()[start..].to_vec();
        let shown = format!("{op} from the tape {tape:?}");
        c.key = hash64(&[shown.as_bytes()]);
        let a = agree(json!({"op": op, "tape": tape}), c.sample.as_deref().unwrap_or(&shown))?;
        if c.sample.is_none() {
            c.sample = Some(a);
        }
        Ok(())
    }
}

fn built(src: &mut Src, c: &mut Case) -> Result<(), Fail> {
    let i = src.draw(CONFIGS.len() as u64) as usize;
    c.input(CONFIGS[i].0);
    c.nontrivial = true;
    match &builds()[i] {
        Ok(_) => Ok(()),
        Err(e) => {
            let errs: Vec<&str> = e.lines().skip_while(|l| !l.starts_with("error")).take(40).collect();
            fail(format!("the configuration does not build: {}", errs.join("\n")), CONFIGS[i].0)
        }
    }
}

fn main() {
    if builds().iter().all(|b| b.is_err()) {
        eprintln!("ERROR: the probe does not build in any configuration\n{}", builds()[0].as_ref().unwrap_err());
        std::process::exit(3);
    }
    vcore::runner::main(vec![Check {
        id: "P21",
        rule: "a case is a text (valid, damaged or random), a graph built in code with print options, or a list of helper, macro and structure values, given to the library built four ways; non-trivial: a text that is not blank, a graph with a statement; distinct by request",
        assumptions: vec!["macro forms that the published dot-generator supports: the repository's repairs of others are not published yet"],
        subs: vec![
            Sub::all("builds", CONFIGS.len() as u64, built),
            Sub::random("texts", 60_000, 1_500_000, texts),
            Sub::random("built graphs", 40_000, 1_000_000, drawn("built")),
            Sub::random("values", 30_000, 600_000, drawn("values")),
        ],
    }])
}
