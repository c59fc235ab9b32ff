//! Runs the generated cases of a property, shrinks the first failure, writes evidence and replays.
use crate::tape::{hash64, shrink, Src};
use serde_json::{json, Value};
use std::cell::{Cell, RefCell};
use std::collections::{BTreeMap, HashSet};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::path::{Path, PathBuf};
use std::sync::atomic::{AtomicU64, Ordering};
use std::sync::{Arc, Barrier, Mutex};
use std::time::Instant;

#[derive(Debug, Clone)]
pub struct Fail {
    /// exact identity of the failing input, call site or history, for known findings
    pub sig: String,
    pub msg: String,
    pub input: String,
}

pub fn fail<T>(msg: impl Into<String>, input: impl Into<String>) -> Result<T, Fail> {
    Err(Fail { sig: String::new(), msg: msg.into(), input: input.into() })
}

/// What one case reports about itself.
#[derive(Default)]
pub struct Case {
    pub index: u64,
    pub tier_thorough: bool,
    pub nontrivial: bool,
    pub key: u64,
    pub labels: Vec<&'static str>,
    pub sample: Option<String>,
    /// inputs tried inside this case, if more than one
    pub evals: u64,
    /// further distinct non-trivial inputs tried inside this case
    pub more_keys: Vec<u64>,
}

impl Case {
    pub fn label(&mut self, l: &'static str) {
        if !self.labels.contains(&l) {
            self.labels.push(l)
        }
    }
    pub fn label_if(&mut self, c: bool, l: &'static str) {
        if c {
            self.label(l)
        }
    }
    pub fn input(&mut self, text: &str) {
        self.key = hash64(&[text.as_bytes()]);
        self.sample = Some(text.to_string());
    }
}

pub type CaseFn = Box<dyn Fn(&mut Src, &mut Case) -> Result<(), Fail> + Send + Sync>;

pub struct Sub {
    pub name: &'static str,
    pub quick: u64,
    pub thorough: u64,
    /// case i is given the tape [i]: the sub-check enumerates 0..quick
    pub enumerated: bool,
    pub threads: usize,
    pub f: CaseFn,
}

impl Sub {
    pub fn random(name: &'static str, quick: u64, thorough: u64, f: impl Fn(&mut Src, &mut Case) -> Result<(), Fail> + Send + Sync + 'static) -> Sub {
        Sub { name, quick, thorough, enumerated: false, threads: 8, f: Box::new(f) }
    }
    pub fn all(name: &'static str, n: u64, f: impl Fn(&mut Src, &mut Case) -> Result<(), Fail> + Send + Sync + 'static) -> Sub {
        Sub { name, quick: n, thorough: n, enumerated: true, threads: 8, f: Box::new(f) }
    }
    pub fn threads(mut self, n: usize) -> Sub {
        self.threads = n;
        self
    }
}

pub struct Check {
    pub id: &'static str,
    pub rule: &'static str,
    pub assumptions: Vec<&'static str>,
    pub subs: Vec<Sub>,
}

thread_local! {
    static IN_LIB: Cell<bool> = const { Cell::new(false) };
    static PANIC: RefCell<String> = const { RefCell::new(String::new()) };
    static SLOT: Cell<usize> = const { Cell::new(usize::MAX) };
}

/// since when (milliseconds of the process, plus one) worker t is inside a call of the code under test
static LIB_SINCE: [AtomicU64; 64] = [const { AtomicU64::new(0) }; 64];

fn now_ms() -> u64 {
    static START: std::sync::OnceLock<Instant> = std::sync::OnceLock::new();
    START.get_or_init(Instant::now).elapsed().as_millis() as u64 + 1
}

/// what the code under test has ended the process with: 0 nothing, else the slot of the worker plus one
static ABORTED: AtomicU64 = AtomicU64::new(0);

extern "C" {
    fn signal(n: i32, handler: usize) -> usize;
    fn raise(n: i32) -> i32;
    fn sleep(s: u32) -> u32;
    fn setrlimit(what: i32, limit: *const [u64; 2]) -> i32;
}
const SIGABRT: i32 = 6;
const RLIMIT_AS: i32 = 9;

/// A stack overflow, or memory that cannot be had, aborts the process: when that happens within the code under test,
/// the thread stops here while another one writes the verdict.
extern "C" fn on_abort(_: i32) {
    if IN_LIB.with(|c| c.get()) {
        ABORTED.store(SLOT.with(|s| s.get()).min(63) as u64 + 1, Ordering::SeqCst);
        unsafe { sleep(20) };
    }
    unsafe {
        signal(SIGABRT, 0);
        raise(SIGABRT);
    }
}

fn watch_aborts() {
    unsafe {
        signal(SIGABRT, on_abort as *const () as usize);
        // an allocation without bounds fails before it takes the machine
        setrlimit(RLIMIT_AS, &[26 << 30, 26 << 30]);
    }
}

pub fn install_hook() {
    let old = std::panic::take_hook();
    std::panic::set_hook(Box::new(move |i| {
        if IN_LIB.with(|c| c.get()) {
            let m = format!("{}", i);
            PANIC.with(|p| *p.borrow_mut() = m.chars().take(600).collect());
        } else {
            old(i)
        }
    }));
}

/// Calls the code under test; a panic in it is a failure of the property.
pub fn guarded<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    let prev = IN_LIB.with(|c| c.replace(true));
    let slot = SLOT.with(|s| s.get());
    let before = LIB_SINCE.get(slot).map_or(0, |x| x.swap(now_ms(), Ordering::Relaxed));
    let r = catch_unwind(AssertUnwindSafe(f));
    if let Some(x) = LIB_SINCE.get(slot) {
        x.store(before, Ordering::Relaxed)
    }
    IN_LIB.with(|c| c.set(prev));
    r.map_err(|_| PANIC.with(|p| p.borrow().clone()))
}

pub fn verif_dir() -> PathBuf {
    std::env::var_os("VERIF_DIR").map(PathBuf::from).unwrap_or_else(|| PathBuf::from("/verif"))
}

/// VERIF_SEED, whatever it looks like
pub fn seed() -> u64 {
    let s = std::env::var("VERIF_SEED").unwrap_or_else(|_| "1".into());
    s.trim().parse::<u64>().unwrap_or_else(|_| hash64(&[s.as_bytes()]) >> 1)
}

#[derive(Default)]
struct Stats {
    cases: u64,
    evals: u64,
    nontrivial: u64,
    keys: HashSet<u64>,
    labels: BTreeMap<&'static str, u64>,
    samples: BTreeMap<u64, String>,
    known: BTreeMap<String, u64>,
}

impl Stats {
    fn merge(&mut self, o: Stats) {
        self.cases += o.cases;
        self.evals += o.evals;
        self.nontrivial += o.nontrivial;
        self.keys.extend(o.keys);
        for (k, v) in o.labels {
            *self.labels.entry(k).or_default() += v;
        }
        self.samples.extend(o.samples);
        while self.samples.len() > 3 {
            self.samples.pop_last();
        }
        for (k, v) in o.known {
            *self.known.entry(k).or_default() += v;
        }
    }
    fn add(&mut self, c: Case) {
        self.cases += 1;
        self.evals += c.evals.max(1);
        for l in c.labels {
            *self.labels.entry(l).or_default() += 1;
        }
        if c.nontrivial {
            self.nontrivial += 1;
            self.keys.insert(c.key);
            self.keys.extend(c.more_keys);
            if let Some(s) = c.sample {
                if self.samples.len() < 3 || self.samples.keys().next_back().is_some_and(|k| c.index < *k) {
                    self.samples.insert(c.index, cut(&s, 700));
                    while self.samples.len() > 3 {
                        self.samples.pop_last();
                    }
                }
            }
        }
    }
}

pub fn cut(s: &str, n: usize) -> String {
    if s.chars().count() <= n {
        s.to_string()
    } else {
        let mut t: String = s.chars().take(n).collect();
        t.push_str("…");
        t
    }
}

pub fn case_src(check: &str, sub: &Sub, seed: u64, i: u64) -> Src {
    if sub.enumerated {
        Src::replay(vec![i])
    } else {
        Src::random(hash64(&[check.as_bytes(), sub.name.as_bytes(), &seed.to_le_bytes(), &i.to_le_bytes()]))
    }
}

fn run_one(sub: &Sub, src: &mut Src, index: u64, thorough: bool) -> (Case, Result<(), Fail>) {
    let mut c = Case { index, tier_thorough: thorough, ..Default::default() };
    let r = (sub.f)(src, &mut c);
    (c, r)
}

/// signatures of the known findings of a property
fn known_findings(id: &str) -> Vec<(String, String)> {
    let p = verif_dir().join("known_findings.txt");
    let text = std::fs::read_to_string(p).unwrap_or_default();
    let mut v = vec![];
    for l in text.lines() {
        // finding: property=P16 sig=xxx text
        let Some(rest) = l.strip_prefix("finding: property=") else { continue };
        let Some((pid, rest)) = rest.split_once(' ') else { continue };
        let Some(rest) = rest.strip_prefix("sig=") else { continue };
        let (sig, text) = rest.split_once(' ').unwrap_or((rest, ""));
        if pid == id {
            v.push((sig.to_string(), text.to_string()));
        }
    }
    v
}

const ABORTS: &str = "the library aborts the process: out of stack or memory, or a panic while panicking";
const CASE_WATCHDOG_S: u64 = 400;
/// a single call of the code under test that takes this long does not end (they take milliseconds)
const CALL_WATCHDOG_S: u64 = 150;

pub fn main(checks: Vec<Check>) -> ! {
    std::process::exit(main_code(checks))
}

/// What to do before the process is ended from inside the runner (a scratch directory to remove).
pub static AT_EXIT: Mutex<Option<fn()>> = Mutex::new(None);

fn quit(code: i32) -> ! {
    if let Ok(Some(f)) = AT_EXIT.lock().map(|f| *f) {
        f()
    }
    std::process::exit(code)
}

pub fn main_code(checks: Vec<Check>) -> i32 {
    install_hook();
    let args: Vec<String> = std::env::args().skip(1).collect();
    let id = args.first().cloned().unwrap_or_default();
    let Some(check) = checks.into_iter().find(|c| c.id == id) else {
        eprintln!("unknown property {id:?}");
        return 2;
    };
    if args.get(1).map(|s| s.as_str()) == Some("--replay") {
        return replay(&check, Path::new(&args[2]));
    }
    if args.get(1).map(|s| s.as_str()) == Some("--guided") {
        return guided(&check, &args[2..]);
    }
    let thorough = std::env::var("VERIF_TIER").as_deref() == Ok("thorough");
    run(&check, thorough)
}

/// the sub-checks a coverage-guided search drives: the random ones that are quick
pub fn guided_subs(check: &Check) -> Vec<&Sub> {
    const SLOW: [&str; 8] = ["growth", "bounded work", "large documents", "at once", "every cut", "trivia at every gap", "work", "not printed"];
    check.subs.iter().filter(|s| !s.enumerated && !SLOW.contains(&s.name)).collect()
}

/// `found <file>`: what libFuzzer found, as a violation with a replay;
/// `done <executions> <features> <seconds>`: into the evidence
fn guided(check: &Check, args: &[String]) -> i32 {
    if args[0] == "found" {
        let data = std::fs::read(&args[1]).expect("what was found");
        let subs = guided_subs(check);
        let Some((first, rest)) = data.split_first() else { return 2 };
        let sub = subs[*first as usize % subs.len()];
        let mut src = Src::bytes(rest);
        let (_, r) = run_one(sub, &mut src, u64::MAX, true);
        let known = known_findings(check.id);
        return match r {
            Err(f) if !known.iter().any(|(k, _)| *k == f.sig) => {
                let p = report(check, sub, u64::MAX, src.used(), f, true, &known);
                println!("VIOLATION property={} replay={}", check.id, p.display());
                1
            }
            _ => 0,
        };
    }
    let n = |i: usize| args.get(i).and_then(|x| x.parse::<u64>().ok()).unwrap_or(0);
    let p = verif_dir().join("evidence").join(format!("{}.json", check.id));
    let mut v: Value = serde_json::from_str(&std::fs::read_to_string(&p).expect("evidence")).expect("json");
    v["coverage"]["guided"] = json!({"executions": n(1), "features_covered": n(2), "seconds": n(3), "sub_checks": guided_subs(check).iter().map(|s| s.name).collect::<Vec<_>>()});
    let all = v["coverage"]["evaluations"].as_u64().unwrap_or(0) + n(1);
    v["coverage"]["evaluations"] = json!(all);
    std::fs::write(&p, serde_json::to_string_pretty(&v).unwrap()).expect("evidence");
    0
}

fn replay(check: &Check, path: &Path) -> i32 {
    let v: Value = serde_json::from_str(&std::fs::read_to_string(path).expect("replay file")).expect("json");
    let sub = check.subs.iter().find(|s| Some(s.name) == v["sub"].as_str()).expect("sub-check of the replay");
    let index = v["index"].as_u64().unwrap_or(0);
    watch_aborts();
    let (id, shown) = (check.id, path.display().to_string());
    let begun = Arc::new(Barrier::new(2));
    let there = begun.clone();
    std::thread::spawn(move || {
        there.wait();
        loop {
        std::thread::sleep(std::time::Duration::from_millis(50));
        if ABORTED.load(Ordering::SeqCst) != 0 {
            println!("{ABORTS}\nVIOLATION property={id} replay={shown}");
            quit(1)
        }
    }});
    begun.wait();
    let mut src = match v["tape"].as_array() {
        Some(t) => Src::replay(t.iter().map(|x| x.as_u64().unwrap()).collect()),
        // the case was cut off while it ran: generate it again
        None => case_src(check.id, sub, v["seed"].as_u64().unwrap_or(1), index),
    };
    let thorough = v["tier"] == "thorough";
    let case = || run_one(sub, &mut src, index, thorough).1;
    let r = std::thread::scope(|s| std::thread::Builder::new().stack_size(256 << 20).spawn_scoped(s, case).expect("thread").join().expect("case"));
    match r {
        Ok(()) => {
            println!("replay passes");
            0
        }
        Err(f) => {
            println!("{}\ninput:\n{}", f.msg, f.input);
            println!("VIOLATION property={} replay={}", check.id, path.display());
            1
        }
    }
}

fn run(check: &Check, thorough: bool) -> i32 {
    watch_aborts();
    let start = Instant::now();
    let seed = seed();
    let known = known_findings(check.id);
    let mut total = Stats::default();
    let mut per_sub = vec![];
    let mut violation: Option<(String, PathBuf)> = None;
    // reduce the work for a smoke run: VERIF_SCALE in percent
    let scale: u64 = std::env::var("VERIF_SCALE").ok().and_then(|s| s.parse().ok()).unwrap_or(100);
    let only = std::env::var("VERIF_SUB").ok();
    for sub in &check.subs {
        if only.as_deref().is_some_and(|o| o != sub.name) {
            continue;
        }
        let n = if thorough { sub.thorough } else { sub.quick };
        let n = if sub.enumerated { n } else { (n * scale / 100).max(1) };
        let t0 = Instant::now();
        let (stats, failure) = run_sub(check, sub, seed, n, thorough, &known);
        per_sub.push(json!({
            "name": sub.name, "cases": stats.cases, "evaluations": stats.evals, "nontrivial_cases": stats.nontrivial,
            "distinct_nontrivial": stats.keys.len(), "enumerated": sub.enumerated,
            "classes": stats.labels, "known_findings_hit": stats.known, "wall_s": t0.elapsed().as_secs_f64(),
        }));
        eprintln!("{} {}: {} cases, {} evaluations, {} distinct non-trivial, {:.1}s", check.id, sub.name, stats.cases, stats.evals, stats.keys.len(), t0.elapsed().as_secs_f64());
        if std::env::var("VERIF_LABELS").is_ok() {
            for (k, v) in &stats.labels {
                eprintln!("    {k}: {v}");
            }
        }
        let name = sub.name;
        let mut stats = stats;
        stats.samples = stats.samples.into_iter().map(|(k, v)| (k, v)).collect();
        let base = (per_sub.len() as u64) << 48;
        let samples: Vec<(u64, String)> = std::mem::take(&mut stats.samples).into_iter().collect();
        let keep = std::mem::take(&mut total.samples);
        total.merge(stats);
        total.samples = keep;
        for (k, v) in samples {
            total.samples.insert(base | k, format!("[{name}] {v}"));
        }
        if let Some((index, tape, first)) = failure {
            let path = report(check, sub, index, tape, first, thorough, &known);
            violation = Some((sub.name.to_string(), path));
            break;
        }
    }
    if std::env::var("VERIF_LABELS").is_ok() {
        let status = std::fs::read_to_string("/proc/self/status").unwrap_or_default();
        eprintln!("{:?}", status.lines().filter(|l| l.starts_with("VmPeak") || l.starts_with("VmHWM")).collect::<Vec<_>>());
    }
    let samples: Vec<&String> = total.samples.values().take(12).collect();
    let ev = json!({
        "property": check.id, "tier": if thorough {"thorough"} else {"quick"}, "seed": seed, "level": "exploration",
        "coverage": {
            "evaluations": total.evals,
            "distinct_nontrivial": total.keys.len(),
            "rule": check.rule,
            "samples": samples,
            "classes": total.labels,
            "sub_checks": per_sub,
        },
        "assumptions": check.assumptions,
        "wall_s": start.elapsed().as_secs_f64(),
        "violations": if violation.is_some() {1} else {0},
    });
    let dir = verif_dir().join("evidence");
    let _ = std::fs::create_dir_all(&dir);
    std::fs::write(dir.join(format!("{}.json", check.id)), serde_json::to_string_pretty(&ev).unwrap()).expect("evidence");
    for (sig, text) in &known {
        if total.known.contains_key(sig) {
            println!("KNOWN-FINDING: property={} {} ({})", check.id, sig, text);
        }
    }
    match violation {
        Some((_, p)) => {
            println!("VIOLATION property={} replay={}", check.id, p.display());
            1
        }
        None => {
            println!("OK property={} evaluations={} distinct_nontrivial={}", check.id, total.evals, total.keys.len());
            0
        }
    }
}

type Failure = (u64, Vec<u64>, Fail);

fn run_sub(check: &Check, sub: &Sub, seed: u64, n: u64, thorough: bool, known: &[(String, String)]) -> (Stats, Option<Failure>) {
    let next = AtomicU64::new(0);
    let min_fail = AtomicU64::new(u64::MAX);
    let failure: Mutex<Option<Failure>> = Mutex::new(None);
    let total = Mutex::new(Stats::default());
    let threads = sub.threads.min(n.max(1) as usize).max(1);
    let epoch = Instant::now();
    let beats: Vec<AtomicU64> = (0..threads).map(|_| AtomicU64::new(0)).collect();
    let currents: Vec<AtomicU64> = (0..threads).map(|_| AtomicU64::new(0)).collect();
    let done = AtomicU64::new(0);
    let broken = AtomicU64::new(0);
    // who counts threads must not see this one come
    let begun = Barrier::new(threads + 1);
    std::thread::scope(|s| {
        let begun = &begun;
        for t in 0..threads {
            let (next, min_fail, failure, total, beats, currents, done, broken) = (&next, &min_fail, &failure, &total, &beats, &currents, &done, &broken);
            std::thread::Builder::new()
                .stack_size(256 << 20)
                .spawn_scoped(s, move || {
                    SLOT.with(|s| s.set(t));
                    begun.wait();
                    let mut st = Stats::default();
                    let chunk = (n / (threads as u64 * 50)).clamp(1, 64);
                    'outer: loop {
                        let lo = next.fetch_add(chunk, Ordering::SeqCst);
                        if lo >= n {
                            break;
                        }
                        for i in lo..(lo + chunk).min(n) {
                            if i > min_fail.load(Ordering::SeqCst) || broken.load(Ordering::SeqCst) != 0 {
                                break 'outer;
                            }
                            beats[t].store(epoch.elapsed().as_secs() + 1, Ordering::SeqCst);
                            currents[t].store(i, Ordering::SeqCst);
                            let mut src = case_src(check.id, sub, seed, i);
                            let r = catch_unwind(AssertUnwindSafe(|| run_one(sub, &mut src, i, thorough)));
                            let (c, r) = match r {
                                Ok(x) => x,
                                Err(_) => {
                                    eprintln!("ERROR: the harness itself panicked in {} {} case {}", check.id, sub.name, i);
                                    broken.store(1, Ordering::SeqCst);
                                    break 'outer;
                                }
                            };
                            st.add(c);
                            if let Err(f) = r {
                                if !f.sig.is_empty() && known.iter().any(|(k, _)| *k == f.sig) {
                                    *st.known.entry(f.sig).or_default() += 1;
                                    continue;
                                }
                                let prev = min_fail.fetch_min(i, Ordering::SeqCst);
                                if i < prev {
                                    let mut g = failure.lock().unwrap();
                                    if g.as_ref().is_none_or(|(j, _, _)| i < *j) {
                                        *g = Some((i, src.used(), f));
                                    }
                                }
                            }
                        }
                    }
                    beats[t].store(0, Ordering::SeqCst);
                    total.lock().unwrap().merge(st);
                    done.fetch_add(1, Ordering::SeqCst);
                })
                .expect("thread");
        }
        // a call of the code under test that does not end is a failure;
        // a case of the harness that does not end is an error of the run, not a verdict
        let (beats, currents, done) = (&beats, &currents, &done);
        s.spawn(move || {
            begun.wait();
            while done.load(Ordering::SeqCst) < threads as u64 {
                std::thread::sleep(std::time::Duration::from_millis(50));
                let now = epoch.elapsed().as_secs() + 1;
                let aborted = ABORTED.load(Ordering::SeqCst) as usize;
                if aborted > 0 {
                    // a thread of the case's own has no slot: then the case is one of those that run
                    let i = currents.get(aborted - 1).unwrap_or(&currents[0]).load(Ordering::SeqCst);
                    let f = Fail { sig: String::new(), msg: ABORTS.into(), input: format!("case {i} of seed {seed}") };
                    let p = write_replay(check, sub, i, Value::Null, thorough, f, 0);
                    println!("{} {} case {i} fails: {ABORTS}", check.id, sub.name);
                    violation_now(check, i, thorough, &p);
                }
                for t in 0..threads {
                    let l = LIB_SINCE.get(t).map_or(0, |x| x.load(Ordering::Relaxed));
                    if l != 0 && now_ms() > l + CALL_WATCHDOG_S * 1000 {
                        let i = currents[t].load(Ordering::SeqCst);
                        let f = Fail { sig: String::new(), msg: format!("a call of the library did not return for {CALL_WATCHDOG_S} s"), input: format!("case {i} of seed {seed}") };
                        let p = write_replay(check, sub, i, Value::Null, thorough, f, 0);
                        violation_now(check, i, thorough, &p);
                    }
                    let b = beats[t].load(Ordering::SeqCst);
                    if b != 0 && now > b + CASE_WATCHDOG_S {
                        eprintln!("ERROR: {} {} case {} ran for more than {} s", check.id, sub.name, currents[t].load(Ordering::SeqCst), CASE_WATCHDOG_S);
                        quit(3);
                    }
                }
            }
        });
    });
    if broken.load(Ordering::SeqCst) != 0 {
        quit(2);
    }
    let f = failure.into_inner().unwrap();
    (total.into_inner().unwrap(), f)
}

fn report(check: &Check, sub: &Sub, index: u64, tape: Vec<u64>, first: Fail, thorough: bool, known: &[(String, String)]) -> PathBuf {
    let t0 = Instant::now();
    let mut last = None;
    let unshrunk = Fail { sig: String::new(), msg: "found, and not yet shrunk when the run was cut off".into(), input: format!("case {index} of seed {}", seed()) };
    let early = write_replay(check, sub, index, json!(tape), thorough, unshrunk, 0);
    let over = AtomicU64::new(0);
    // shrink on a big stack, too
    let (tape, runs) = std::thread::scope(|s| {
        let last = &mut last;
        let (over, early) = (&over, &early);
        let begun = Arc::new(Barrier::new(2));
        let there = begun.clone();
        s.spawn(move || {
            there.wait();
            // a smaller input may hang where the larger one failed
            while over.load(Ordering::SeqCst) == 0 {
                std::thread::sleep(std::time::Duration::from_millis(50));
                if t0.elapsed().as_secs() > CALL_WATCHDOG_S || ABORTED.load(Ordering::SeqCst) != 0 {
                    violation_now(check, index, thorough, early);
                }
            }
        });
        let r = std::thread::Builder::new()
            .stack_size(256 << 20)
            .spawn_scoped(s, move || {
                begun.wait();
                let mut attempt = |t: &[u64]| -> Option<Vec<u64>> {
                    if t0.elapsed().as_secs() > 60 {
                        return None;
                    }
                    let mut src = Src::replay(t.to_vec());
                    let r = catch_unwind(AssertUnwindSafe(|| run_one(sub, &mut src, index, thorough)));
                    match r {
                        Ok((_, Err(f))) if !known.iter().any(|(k, _)| *k == f.sig) => {
                            *last = Some(f);
                            Some(src.used())
                        }
                        _ => None,
                    }
                };
                if attempt(&tape).is_none() {
                    eprintln!("note: the failure did not recur when replayed at once");
                }
                let budget = if sub.enumerated { 1 } else { 4000 };
                let (best, runs) = shrink(tape, budget, &mut attempt);
                attempt(&best);
                (best, runs)
            })
            .expect("thread")
            .join();
        over.store(1, Ordering::SeqCst);
        r.expect("shrink")
    });
    let f = last.unwrap_or(Fail { msg: format!("{} (did not recur on replay)", first.msg), ..first });
    println!("{} {} case {} fails: {}\n--- input\n{}\n---", check.id, sub.name, index, cut(&f.msg, 2000), cut(&f.input, 3000));
    write_replay(check, sub, index, json!(tape), thorough, f, runs)
}

/// Ends the run with a violation from inside a hanging call.
fn violation_now(check: &Check, evals: u64, thorough: bool, replay: &Path) -> ! {
    let ev = json!({"property": check.id, "tier": if thorough {"thorough"} else {"quick"}, "seed": seed(), "level": "exploration",
        "coverage": {"evaluations": evals, "distinct_nontrivial": evals.min(1), "rule": check.rule, "samples": [replay.display().to_string()]},
        "wall_s": now_ms() as f64 / 1000.0, "violations": 1});
    let dir = verif_dir().join("evidence");
    let _ = std::fs::create_dir_all(&dir);
    let _ = std::fs::write(dir.join(format!("{}.json", check.id)), serde_json::to_string_pretty(&ev).unwrap());
    println!("VIOLATION property={} replay={}", check.id, replay.display());
    quit(1)
}

fn write_replay(check: &Check, sub: &Sub, index: u64, tape: Value, thorough: bool, f: Fail, runs: usize) -> PathBuf {
    let v = json!({"property": check.id, "sub": sub.name, "index": index, "seed": seed(), "tier": if thorough {"thorough"} else {"quick"},
        "tape": tape, "message": f.msg, "input": f.input, "sig": f.sig, "shrink_runs": runs,
        "replay_with": format!("bash run_check.sh {} --replay <this file>", check.id)});
    let dir = verif_dir().join("out");
    let _ = std::fs::create_dir_all(&dir);
    let p = dir.join(format!("{}-{}.json", check.id, sub.name.replace(' ', "-")));
    std::fs::write(&p, serde_json::to_string_pretty(&v).unwrap()).expect("replay file");
    p
}
