//! Nothing is kept (P25): memory, file descriptors, child processes and threads after the library's work.
use lang::growth;
use lang::helpers::{bad, context, lib_parse, lib_print, short, R};
use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::Cell;
use vcore::gen::{self, Cfg};
use vcore::reflex::Tok;
use vcore::refprint::{gen_opts, Opt};
use vcore::render::{render, Notation};
use vcore::runner::*;
use vcore::tape::Src;

/// the system's allocator, with an account per thread
pub struct Counting;

thread_local! {
    static LIVE: Cell<i64> = const { Cell::new(0) };
    static PEAK: Cell<i64> = const { Cell::new(0) };
}

fn add(n: i64) {
    let _ = LIVE.try_with(|l| {
        let v = l.get() + n;
        l.set(v);
        let _ = PEAK.try_with(|p| p.set(p.get().max(v)));
    });
}

unsafe impl GlobalAlloc for Counting {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        add(l.size() as i64);
        System.alloc(l)
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        add(l.size() as i64);
        System.alloc_zeroed(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        add(-(l.size() as i64));
        System.dealloc(p, l)
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        add(n as i64 - l.size() as i64);
        System.realloc(p, l, n)
    }
}

fn live() -> i64 {
    LIVE.with(|l| l.get())
}

/// bytes f has taken at most at a time
fn peak<T>(f: impl FnOnce() -> Result<T, Fail>) -> Result<i64, Fail> {
    let before = live();
    PEAK.with(|p| p.set(before));
    let r = f();
    let p = PEAK.with(|p| p.get()) - before;
    r.map(|_| p)
}

const STEPS: usize = 26;
/// so many steps in a row may not keep something each
const LAST: usize = 18;

/// work of one shape again and again: the memory it keeps stops growing
fn steady(what: &str, again: bool, show: &dyn Fn() -> String, mut step: impl FnMut(usize) -> Result<(), Fail>) -> R {
    let mut kept = Vec::with_capacity(STEPS);
    for i in 0..STEPS {
        let before = live();
        step(i)?;
        kept.push(live() - before);
    }
    let last = &kept[STEPS - LAST..];
    let sum = last.iter().sum::<i64>();
    if last.iter().all(|k| *k > 0) {
        return bad(format!("{what} keeps memory each time, {sum} bytes in {LAST} times"), show());
    }
    if again && sum > 0 {
        // the same work again, so nothing more has to be kept; what grows by doubling grows twice in this time
        for times in [2, 4] {
            let before = live();
            for i in 0..times * STEPS {
                step(i % STEPS)?
            }
            let more = live() - before;
            if more <= 0 {
                return Ok(());
            }
        }
        return bad(format!("{what} keeps memory, {sum} bytes in {LAST} times and more later"), show());
    }
    Ok(())
}

fn memory(src: &mut Src, c: &mut Case) -> R {
    let g = gen::graph(src, &Cfg { budget: 12, ..Cfg::parsed() });
    let damaged = src.chance(25);
    let base = if damaged { vcore::damage::mutate(src, &g).0 } else { render(&g, src, Notation::Free) };
    if base.len() > 50_000 {
        return Ok(());
    }
    // the same again, or texts of the same shape with other names
    let again = src.chance(30);
    let mut texts = vec![base];
    while texts.len() < STEPS {
        let last = &texts[texts.len() - 1];
        let mut next = last.clone();
        if !again {
            for _ in 0..2 {
                next = lang::purity::sibling(src, &next)
            }
        }
        texts.push(next)
    }
    let o = gen_opts(src);
    c.input(&format!("{}\noptions {o:?}, {}", texts[0], if again { "the same again" } else { "with other names" }));
    c.evals = 3 * STEPS as u64;
    let show = || format!("{}\n=== last of {STEPS} texts of its shape; options {o:?}", texts[STEPS - 1]);
    let ok = lib_parse(&texts[0])?.is_ok();
    c.label(if ok { "accepted" } else { "rejected" });
    c.label(if again { "the same again" } else { "other names each time" });
    c.nontrivial = true;
    steady("parsing", again, &show, |i| lib_parse(&texts[i]).map(|_| ()))?;
    let input = || texts[0].clone();
    steady("parsing and printing", again, &show, |i| match lib_parse(&texts[i])? {
        Ok(g) => lib_print(&g, &mut context(&o), &input).map(|_| ()),
        Err(_) => Ok(()),
    })?;
    let mut ctx = context(&o);
    steady("printing with one context", again, &show, |i| match lib_parse(&texts[i])? {
        Ok(g) => lib_print(&g, &mut ctx, &input).map(|_| ()),
        Err(_) => Ok(()),
    })
}

const MANY: usize = 3000;

/// thousands of times: what is kept does not grow after the first third
fn memory_in_the_long_run(src: &mut Src, c: &mut Case) -> R {
    let g = gen::graph(src, &Cfg { budget: 5, ..Cfg::parsed() });
    let damaged = src.chance(25);
    let base = if damaged { vcore::damage::mutate(src, &g).0 } else { render(&g, src, Notation::Plain) };
    if base.len() > 400 {
        return Ok(());
    }
    let number = !src.chance(30);
    let o = gen_opts(src);
    c.input(&format!("{base}\noptions {o:?}, {}", if number { "each followed by a comment with its number" } else { "the same again" }));
    c.evals = MANY as u64;
    let mut ctx = context(&o);
    let text = |i: usize| if number { format!("/*{i:6}*/{base}{}", if damaged { format!("x{i:06}") } else { String::new() }) } else { base.clone() };
    let ok = lib_parse(&text(0))?.is_ok();
    c.label(if ok { "accepted" } else { "rejected" });
    c.nontrivial = true;
    let mut first = 0;
    for i in 0..MANY {
        if let Ok(mut g) = lib_parse(&text(i))? {
            if number {
                rename(&mut g, i)
            }
            lib_print(&g, &mut ctx, &|| text(i))?;
        }
        if i == MANY / 3 {
            first = live()
        }
    }
    let more = live() - first;
    if more > 0 {
        return bad(format!("parsing and printing with one context has kept {more} bytes more after {MANY} times than after {}", MANY / 3), text(MANY - 1));
    }
    Ok(())
}

/// another name of the same length for the graph
fn rename(g: &mut graphviz_rust::dot_structures::Graph, i: usize) {
    let (graphviz_rust::dot_structures::Graph::Graph { id, .. } | graphviz_rust::dot_structures::Graph::DiGraph { id, .. }) = g;
    *id = graphviz_rust::dot_structures::Id::Plain(format!("g{i:06}"))
}

fn proportion(what: &str, small: i64, large: i64, show: &str, c: &mut Case) -> R {
    c.nontrivial = true;
    let times = growth::TIMES as i64;
    if large > 4 * times * small.max(4096) {
        return bad(format!("{what} takes {small} bytes at most, and {large} for {times} times the size"), show);
    }
    Ok(())
}

fn peak_parsing(src: &mut Src, c: &mut Case) -> R {
    let t = growth::texts(src, 3000);
    c.input(&t.what);
    let (s, l) = (peak(|| lib_parse(&t.small))?, peak(|| lib_parse(&t.large))?);
    proportion("parsing", s, l, &t.what, c)
}

fn peak_printing(src: &mut Src, c: &mut Case) -> R {
    let g = growth::graphs(src, 3000)?;
    c.input(&g.what);
    let print = |x| lib_print(x, &mut context(&g.opts), &|| g.what.clone());
    let (s, l) = (peak(|| print(&g.small))?, peak(|| print(&g.large))?);
    proportion("printing", s, l, &g.what, c)
}

/// a small graph with options of any size, or one deep or long: what is taken stays in proportion to the text
fn for_the_text(src: &mut Src, c: &mut Case) -> R {
    let g = gen::graph(src, &Cfg { budget: 9, ..Cfg::built() });
    let mut o = gen_opts(src);
    const ROUND: [usize; 12] = [64, 100, 128, 256, 512, 1000, 1024, 2048, 4096, 10_000, 65_536, 100_000];
    let any = |src: &mut Src| match src.below(3) {
        0 => *src.pick(&ROUND) + src.below(3) - 1,
        1 => src.range(1, 300),
        _ => src.range(300, 150_000),
    };
    if src.chance(70) {
        o.calls.push(Opt::Step(any(src)))
    }
    if src.chance(40) {
        o.calls.push(Opt::Size(if src.chance(30) { usize::MAX - src.below(3) } else { any(src) }))
    }
    if src.chance(15) {
        o.calls.push(Opt::Sep(src.pick(&["\n", " ", "\n\t"]).repeat(any(src) / 8 + 1)))
    }
    c.input(&format!("{g:?} with {o:?}"));
    let lib = lang::helpers::built(&g, "");
    let input = || format!("{g:?} with {o:?}");
    let mut n = 0;
    let mut ctx = context(&o);
    let taken = peak(|| {
        n = lib_print(&lib, &mut ctx, &input)?.len();
        Ok(())
    })?;
    c.nontrivial = n > 0;
    c.label_if(n > 100_000, "text above 100 KB");
    // a group is laid out over several lines before it is put on one
    let l = o.layout();
    let toks = vcore::render::plain_toks(&g);
    let lines = toks.len() as i64 + 4;
    let open = toks.iter().fold((0i64, 0i64), |(d, most), t| match t {
        Tok::P('{' | '[') => (d + 1, most.max(d + 1)),
        Tok::P('}' | ']') => (d - 1, most),
        _ => (d, most),
    });
    let laid_out = n as i64 + lines * (open.1 * l.step as i64 + l.multi.as_ref().map_or(0, |s| s.len() as i64));
    if taken > 24 * laid_out + 65_536 {
        return bad(format!("printing {n} bytes takes {taken} bytes at most"), input());
    }
    Ok(())
}

/// open file descriptors, threads and children of this process
fn held() -> (Vec<String>, usize, bool) {
    let list = |p: &str| -> Vec<String> { std::fs::read_dir(p).map(|d| d.flatten().map(|e| e.file_name().to_string_lossy().to_string()).collect()).unwrap_or_default() };
    let mut fds: Vec<String> = list("/proc/self/fd");
    fds.retain(|f| std::fs::read_link(format!("/proc/self/fd/{f}")).is_ok());
    fds.sort();
    let mut info: libc::siginfo_t = unsafe { std::mem::zeroed() };
    let children = unsafe { libc::waitid(libc::P_ALL, 0, &mut info, libc::WEXITED | libc::WNOHANG | libc::WNOWAIT) } == 0;
    (fds, list("/proc/self/task").len(), children)
}

/// a thread of the harness may just have ended
fn no_more(now: &(Vec<String>, usize, bool), before: &(Vec<String>, usize, bool)) -> bool {
    now.0.iter().all(|f| before.0.contains(f)) && now.1 <= before.1 && now.2 <= before.2
}

pub fn executions(src: &mut Src, c: &mut Case) -> R {
    let before = held();
    let mut shows = vec![];
    let n = src.range(1, 6);
    for _ in 0..n {
        shows.push(crate::checks::any_execution(src)?);
        let mut now = held();
        // a thread that is ending may need a moment
        for _ in 0..40 {
            if no_more(&now, &before) {
                break;
            }
            std::thread::sleep(std::time::Duration::from_millis(25));
            now = held()
        }
        if !no_more(&now, &before) {
            let inp = shows.join("\n=== then\n");
            return bad(format!("open files, threads and children were {before:?}, and are {now:?}"), short(&inp));
        }
    }
    c.evals = n as u64;
    c.input(&shows.join("\n=== then\n"));
    c.nontrivial = true;
    Ok(())
}

/// executions of one shape again and again
fn execution_memory(src: &mut Src, c: &mut Case) -> R {
    let (show, mut run) = crate::checks::one_execution(src);
    c.input(&show);
    c.nontrivial = true;
    c.evals = STEPS as u64;
    steady("executing dot", true, &|| show.clone(), |_| run())
}

pub fn check() -> Check {
    Check {
        id: "P25",
        rule: "a case is 26 parses, prints or executions of one shape (texts that differ in names, or the same again), after each of which the memory kept is counted; or a text or graph and one 32 times as large, the memory taken at most being compared; or a small graph and options of any size, the memory taken being compared with the text; or a history of executions, after each of which open files, threads and children are listed; non-trivial: all; distinct by input",
        assumptions: vec!["memory is counted by the allocator, per thread", "what stops growing within eight repetitions is not kept for good"],
        // what grows by doubling shows best before much is kept
        subs: vec![
            Sub::random("memory kept by executions", 200, 5_000, execution_memory).threads(1),
            Sub::random("memory kept in the long run", 900, 60_000, memory_in_the_long_run),
            Sub::random("memory kept", 25_000, 600_000, memory),
            Sub::random("memory taken to parse", 2_500, 60_000, peak_parsing),
            Sub::random("memory taken to print", 1_500, 40_000, peak_printing),
            Sub::random("memory taken for the text", 20_000, 500_000, for_the_text),
            Sub::random("files, threads, children", 1_200, 30_000, executions).threads(1),
        ],
    }
}
