//! A scratch directory of the run: the stand-in on the path, a TMPDIR of its own.
use std::path::{Path, PathBuf};
use std::sync::atomic::{AtomicU64, Ordering};
use std::sync::OnceLock;

static ROOT: OnceLock<PathBuf> = OnceLock::new();
static REAL: OnceLock<PathBuf> = OnceLock::new();
static N: AtomicU64 = AtomicU64::new(0);

pub fn root() -> &'static Path {
    ROOT.get().expect("scratch")
}
/// the real dot
pub fn real_dot() -> &'static Path {
    REAL.get().expect("dot")
}
pub fn tmp() -> PathBuf {
    root().join("tmp")
}
pub fn bin() -> PathBuf {
    root().join("bin")
}
pub fn default_ctl() -> PathBuf {
    root().join("default.ctl")
}

pub struct Dir(pub PathBuf);
impl Dir {
    pub fn new() -> Dir {
        let p = root().join(format!("c{}", N.fetch_add(1, Ordering::SeqCst)));
        std::fs::create_dir(&p).expect("case directory");
        Dir(p)
    }
}
impl Drop for Dir {
    fn drop(&mut self) {
        let _ = std::fs::remove_dir_all(&self.0);
    }
}

/// Files of others in a temporary directory, some of them long there: names such as the library's own
/// may have, and others.
pub fn others(dir: &Path) {
    let pid = std::process::id();
    let names: Vec<String> = [".tmpAbCd12", ".tmp000000", ".tmpzzzzzz", ".tmp", "tmp", ".tmpold", "graph.dot", "graph.gv", "input.dot", "dot", ".dot", "graphviz", "graphviz-rust", "graphviz-rust-1.dot", "graphviz_1.gv", "graphviz.svg", "dot.tmp", "x.lock", "rust-graphviz.lock", ".graphviz.lock"]
        .iter()
        .map(|s| s.to_string())
        .chain([format!(".tmp{pid}"), format!("graphviz-{pid}.dot"), format!("dot-{pid}"), format!("{pid}")])
        .collect();
    let day = std::time::Duration::from_secs(86_400);
    let now = std::time::SystemTime::now();
    for (i, n) in names.iter().enumerate() {
        let p = dir.join(n);
        std::fs::write(&p, if i % 4 == 3 { String::new() } else { format!("of others {n}\n") }).unwrap();
        let f = std::fs::File::options().write(true).open(&p).unwrap();
        let at = match i % 3 {
            0 => now - day * (2 + 50 * (i as u32 % 5)),
            1 => now,
            _ => now - day / 12,
        };
        f.set_modified(at).unwrap()
    }
    let d = dir.join(".tmpDiReCt");
    std::fs::create_dir(&d).unwrap();
    std::fs::write(d.join(".tmpInSide"), "of others").unwrap();
    // one cannot set the time of a directory the way of a file
    let _ = std::process::Command::new("touch").arg("-d").arg("2001-01-01").arg(&d).status();
}

type Listing = Vec<(PathBuf, Option<Vec<u8>>)>;
static OTHERS: OnceLock<Listing> = OnceLock::new();
static HERE: OnceLock<Listing> = OnceLock::new();

fn listing(p: &Path) -> Listing {
    let mut v = vec![];
    for e in entries(p) {
        v.push((e.clone(), std::fs::read(&e).ok()));
        if e.is_dir() && !e.is_symlink() {
            v.extend(listing(&e))
        }
    }
    v
}

/// what is in the temporary directory and was not, and what was and is gone or changed
pub fn left() -> Vec<String> {
    let had = OTHERS.get().expect("others");
    let now = listing(&tmp());
    if *had == now {
        return vec![];
    }
    let mut v = vec![];
    for (p, _) in now.iter().filter(|(p, _)| !had.iter().any(|h| h.0 == *p)) {
        v.push(format!("{} is left", p.display()));
        let _ = std::fs::remove_file(p);
    }
    for h in had {
        if !now.contains(h) {
            v.push(format!("{} of someone else is gone or changed", h.0.display()));
            match &h.1 {
                Some(b) => std::fs::write(&h.0, b).unwrap(),
                None => std::fs::create_dir(&h.0).unwrap(),
            }
        }
    }
    v
}

fn furnish(cwd: &Path) {
    std::fs::create_dir_all(cwd.join("d")).unwrap();
    for n in ["link.svg", "none"] {
        let _ = std::fs::remove_file(cwd.join(n));
    }
    for n in ["x.svg", "a", "A", "out", "old.svg", "d/x.svg"] {
        std::fs::write(cwd.join(n), format!("{n} of the user\n")).unwrap()
    }
    std::os::unix::fs::symlink("x.svg", cwd.join("link.svg")).unwrap();
    std::os::unix::fs::symlink("nowhere", cwd.join("none")).unwrap();
}

/// what has happened to the files of the user where the executions take place
pub fn cwd_changed() -> Option<String> {
    let had = HERE.get().expect("here");
    let cwd = root().join("cwd");
    // what the real dot draws there is its business
    let mut now = listing(&cwd);
    now.retain(|(p, _)| !p.extension().is_some_and(|e| e == "png"));
    if now == *had && cwd.join("link.svg").is_symlink() {
        return None;
    }
    let mut v: Vec<String> = now.iter().filter(|x| !had.contains(x)).map(|x| format!("{} is there or changed", x.0.display())).collect();
    v.extend(had.iter().filter(|h| !now.contains(h)).map(|h| format!("{} is gone or changed", h.0.display())));
    for x in now.iter().filter(|x| !had.contains(x)) {
        let _ = std::fs::remove_file(&x.0);
    }
    furnish(&cwd);
    Some(format!("in the current directory, not by dot: {v:?}"))
}

struct Guard;
impl Drop for Guard {
    fn drop(&mut self) {
        let _ = std::fs::remove_dir_all(root());
    }
}

pub fn entries(p: &Path) -> Vec<PathBuf> {
    let mut v: Vec<PathBuf> = std::fs::read_dir(p).map(|d| d.flatten().map(|e| e.path()).collect()).unwrap_or_default();
    v.sort();
    v
}

pub fn with_scratch(f: impl FnOnce() -> i32) -> i32 {
    let path = std::env::var_os("PATH").unwrap_or_default();
    let real = std::env::split_paths(&path).map(|d| d.join("dot")).find(|p| p.is_file()).unwrap_or_else(|| PathBuf::from("/usr/bin/dot"));
    let _ = REAL.set(real);
    let r = std::env::temp_dir().join(format!("verif-exec-{}", std::process::id()));
    let _ = std::fs::remove_dir_all(&r);
    std::fs::create_dir_all(&r).expect("scratch directory");
    let _ = ROOT.set(r);
    let _g = Guard;
    *vcore::runner::AT_EXIT.lock().unwrap() = Some(|| {
        let _ = std::fs::remove_dir_all(root());
    });
    std::fs::create_dir(tmp()).unwrap();
    others(&tmp());
    let _ = OTHERS.set(listing(&tmp()));
    let cwd = root().join("cwd");
    furnish(&cwd);
    let _ = HERE.set(listing(&cwd));
    std::env::set_current_dir(&cwd).unwrap();
    std::fs::create_dir(bin()).unwrap();
    std::fs::copy(std::env::current_exe().unwrap(), bin().join("dot")).unwrap();
    let mut p = std::ffi::OsString::from(bin());
    p.push(":");
    p.push(&path);
    // no other thread runs yet
    std::env::set_var("PATH", p);
    std::env::set_var("TMPDIR", tmp());
    std::env::set_var("VREAL_DOT", real_dot());
    std::env::set_var("VCTL_DEFAULT", default_ctl());
    // what else dot must find as its caller has it
    for (k, v) in [("LC_ALL", "C.UTF-8"), ("LANG", "C.UTF-8"), ("LC_NUMERIC", "C"), ("DOTFONTPATH", "/nonexistent/fonts"), ("GDFONTPATH", "/nonexistent/fonts"), ("VERIF_ODD", " a=b\n\"é' "), ("VERIF_EMPTY", "")] {
        std::env::set_var(k, v)
    }
    std::env::remove_var("RUST_BACKTRACE");
    f()
}
