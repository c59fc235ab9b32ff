//! Compiling and running generated programs against the helper crates of the repository.
use std::collections::HashMap;
use std::path::{Path, PathBuf};
use std::process::Command;
use std::sync::atomic::{AtomicU64, Ordering};
use std::sync::{Mutex, OnceLock};
use vcore::runner::verif_dir;
use vcore::tape::hash64;

/// One generated program case: items of a module with `pub fn run(s: &[String]) -> Result<(), String>`.
#[derive(Clone)]
pub struct Prog {
    pub module: String,
    /// how many argument texts it wants
    pub texts: usize,
}

impl Prog {
    pub fn key(&self) -> u64 {
        hash64(&[self.module.as_bytes()])
    }
}

pub struct Libs {
    externs: HashMap<String, PathBuf>,
    deps: PathBuf,
}

/// The directory the generated programs are compiled in; removed when the run ends.
pub fn scratch() -> &'static Path {
    static D: OnceLock<PathBuf> = OnceLock::new();
    D.get_or_init(|| {
        let d = std::env::temp_dir().join(format!("vprog-{}", std::process::id()));
        std::fs::create_dir_all(&d).expect("scratch");
        *vcore::runner::AT_EXIT.lock().unwrap() = Some(clean);
        d
    })
}

pub fn clean() {
    let d = std::env::temp_dir().join(format!("vprog-{}", std::process::id()));
    let _ = std::fs::remove_dir_all(&d);
}

/// Build the helper crates from the repository's tree and find what to link.
pub fn libs() -> &'static Libs {
    static L: OnceLock<Libs> = OnceLock::new();
    L.get_or_init(|| {
        let target = verif_dir().join("target/macros-deps");
        let out = Command::new("cargo")
            .args(["build", "--offline", "--message-format=json", "--manifest-path"])
            .arg(verif_dir().join("macros/deps/Cargo.toml"))
            .env("CARGO_TARGET_DIR", &target)
            .output()
            .expect("cargo");
        if !out.status.success() {
            eprintln!("ERROR: cannot build the helper crates of the repository\n{}", String::from_utf8_lossy(&out.stderr));
            std::process::exit(3);
        }
        let mut externs = HashMap::new();
        for l in String::from_utf8_lossy(&out.stdout).lines() {
            let Ok(v) = serde_json::from_str::<serde_json::Value>(l) else { continue };
            if v["reason"] != "compiler-artifact" {
                continue;
            }
            let name = v["target"]["name"].as_str().unwrap_or("").replace('-', "_");
            let local = v["manifest_path"].as_str().unwrap_or("").starts_with("/repo/");
            let Some(f) = v["filenames"].as_array().and_then(|fs| fs.iter().filter_map(|f| f.as_str()).find(|f| f.ends_with(".rlib") || f.ends_with(".so"))) else { continue };
            externs.insert(if local { format!("{name}_local") } else { name }, PathBuf::from(f));
        }
        Libs { externs, deps: target.join("debug/deps") }
    })
}

/// Which crates a program sees, by the name it uses.
pub type Externs = &'static [(&'static str, &'static str)];

const PRELUDE: &str = r##"
#![allow(warnings)]
use std::panic::{catch_unwind, AssertUnwindSafe};
struct Rng(u64);
impl Rng {
    fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9e3779b97f4a7c15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xbf58476d1ce4e5b9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94d049bb133111eb);
        z ^ (z >> 31)
    }
    fn below(&mut self, n: u64) -> u64 { self.next() % n }
    fn text(&mut self) -> String {
        const W: &[&str] = &["a", "b", "node", "abc", "x_1", "", " ", "\"", "\"q\"", "<b>", "<<i>x</i>>", "\\", "\\n", "a b", "{}", "{0}", "é", "日本", "1", "-1.5", "a;b", "a=b", "\n", "\u{0}", "🦀", "esc", "html", "graph", "Strict", "%s", "_", "a_"];
        match self.below(3) {
            0 => W[self.below(W.len() as u64) as usize].to_string(),
            1 => (0..1 + self.below(3)).map(|_| W[self.below(W.len() as u64) as usize]).collect(),
            _ => (0..self.below(9)).map(|_| char::from_u32(32 + self.below(95) as u32).unwrap()).collect(),
        }
    }
}
/// a user's own type that can be shown
pub struct Shown<'a>(pub &'a str);
impl<'a> std::fmt::Display for Shown<'a> {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { f.write_str(self.0)?; f.write_str("!") }
}
pub fn twice(s: &str) -> String { format!("{s}{s}") }
pub mod deep { pub fn id(s: &str) -> &str { s } pub struct P { pub name: String } impl P { pub fn name(&self) -> &str { &self.name } } }
/// counts the evaluations of an argument
pub struct Once(pub std::cell::Cell<u32>);
impl Once { pub fn new() -> Once { Once(std::cell::Cell::new(0)) } pub fn hit<T>(&self, t: T) -> T { self.0.set(self.0.get() + 1); t } }
fn esc(s: &str) -> String { s.chars().flat_map(|c| c.escape_default()).collect() }
fn drive(i: usize, texts: usize, seed: u64, rounds: usize, f: fn(&[String]) -> Result<(), String>) {
    let mut r = Rng(seed);
    for k in 0..rounds {
        let s: Vec<String> = (0..texts).map(|j| if k == 0 { format!("t{j}") } else { r.text() }).collect();
        match catch_unwind(AssertUnwindSafe(|| f(&s))) {
            Ok(Ok(())) => {}
            Ok(Err(e)) => { println!("{i}\tfail\t{}", esc(&format!("with the texts {s:?}: {e}"))); return }
            Err(_) => { println!("{i}\tfail\t{}", esc(&format!("with the texts {s:?}: it panics"))); return }
        }
        if texts == 0 { println!("{i}\tok\t1"); return }
    }
    println!("{i}\tok\t{rounds}");
}
"##;

static SERIAL: AtomicU64 = AtomicU64::new(0);

/// Compile the programs as one; the compiler's complaint if it does not.
fn compile(ps: &[&Prog], ex: Externs, seed: u64, rounds: usize) -> Result<PathBuf, String> {
    let l = libs();
    let n = SERIAL.fetch_add(1, Ordering::SeqCst);
    let src = scratch().join(format!("p{n}.rs"));
    let exe = scratch().join(format!("p{n}"));
    let mut text = String::from(PRELUDE);
    for (i, p) in ps.iter().enumerate() {
        text.push_str(&format!("mod t{i} {{\n{}\n}}\n", p.module));
    }
    text.push_str("fn main() {\n    std::panic::set_hook(Box::new(|_| {}));\n");
    for (i, p) in ps.iter().enumerate() {
        text.push_str(&format!("    drive({i}, {}, {}, {rounds}, t{i}::run);\n", p.texts, seed ^ p.key()));
    }
    text.push_str("}\n");
    std::fs::write(&src, text).expect("source");
    let mut c = Command::new("rustc");
    c.args(["--edition", "2021", "--crate-name", "prog", "-C", "debuginfo=0", "-C", "opt-level=0", "-C", "codegen-units=4", "--cap-lints", "allow", "-L"])
        .arg(format!("dependency={}", l.deps.display()))
        .arg("-o")
        .arg(&exe)
        .arg(&src);
    for (name, lib) in ex {
        let Some(p) = l.externs.get(*lib) else {
            eprintln!("ERROR: no artifact of {lib}");
            std::process::exit(3);
        };
        c.arg("--extern").arg(format!("{name}={}", p.display()));
    }
    let out = c.output().expect("rustc");
    let _ = std::fs::remove_file(&src);
    if out.status.success() {
        return Ok(exe);
    }
    Err(String::from_utf8_lossy(&out.stderr).chars().take(3000).collect())
}

type Outcome = Result<u64, String>;

fn run_exe(exe: &Path, n: usize) -> Vec<Option<Outcome>> {
    let out = Command::new(exe).output().expect("program");
    let mut v: Vec<Option<Outcome>> = vec![None; n];
    for l in String::from_utf8_lossy(&out.stdout).lines() {
        let mut p = l.splitn(3, '\t');
        let (Some(i), Some(w), Some(t)) = (p.next(), p.next(), p.next()) else { continue };
        if let Some(x) = i.parse::<usize>().ok().and_then(|i| v.get_mut(i)) {
            *x = Some(if w == "ok" { Ok(t.parse().unwrap_or(1)) } else { Err(t.to_string()) })
        }
    }
    if !out.status.success() {
        if let Some(x) = v.iter_mut().find(|x| x.is_none()) {
            *x = Some(Err(format!("the program ends with {}", out.status)))
        }
    }
    let _ = std::fs::remove_file(exe);
    v
}

/// The outcomes of the programs, in order, up to and including the first that fails to compile.
fn batch(ps: &[&Prog], ex: Externs, seed: u64, rounds: usize) -> Vec<Option<Outcome>> {
    match compile(ps, ex, seed, rounds) {
        Ok(exe) => run_exe(&exe, ps.len()),
        Err(e) if ps.len() == 1 => vec![Some(Err(format!("it does not compile: {e}")))],
        Err(_) => {
            let (a, b) = ps.split_at(ps.len() / 2);
            let mut v = batch(a, ex, seed, rounds);
            if v.iter().all(|x| matches!(x, Some(Ok(_)))) {
                v.extend(batch(b, ex, seed, rounds));
            } else {
                v.extend(b.iter().map(|_| None));
            }
            v
        }
    }
}

static DONE: Mutex<Option<HashMap<u64, Outcome>>> = Mutex::new(None);

/// Compile and run many programs ahead of the cases that ask for them.
pub fn prepare(ps: Vec<Prog>, ex: Externs, seed: u64, rounds: usize) {
    libs();
    let next = AtomicU64::new(0);
    let size = ps.len().div_ceil(16).clamp(1, 120);
    let parts: Vec<&[Prog]> = ps.chunks(size).collect();
    std::thread::scope(|s| {
        for _ in 0..8 {
            s.spawn(|| loop {
                let i = next.fetch_add(1, Ordering::SeqCst) as usize;
                let Some(part) = parts.get(i) else { break };
                let refs: Vec<&Prog> = part.iter().collect();
                let r = batch(&refs, ex, seed, rounds);
                let mut d = DONE.lock().unwrap();
                let d = d.get_or_insert_with(HashMap::new);
                for (p, r) in refs.iter().zip(r) {
                    if let Some(r) = r {
                        d.insert(p.key(), r);
                    }
                }
            });
        }
    });
}

/// The outcome of one program: known already, or found out now.
pub fn outcome(p: &Prog, ex: Externs, seed: u64, rounds: usize) -> Outcome {
    if let Some(r) = DONE.lock().unwrap().as_ref().and_then(|d| d.get(&p.key()).cloned()) {
        return r;
    }
    let r = batch(&[p], ex, seed, rounds).pop().flatten().unwrap_or_else(|| Err("no outcome".into()));
    DONE.lock().unwrap().get_or_insert_with(HashMap::new).insert(p.key(), r.clone());
    r
}
