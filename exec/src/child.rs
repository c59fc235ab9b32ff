//! A process in which the environment is at fault: sets up what the fault needs, runs the library.
use crate::standin::{hex, unhex};
use serde_json::{json, Value};
use std::ffi::OsStr;
use std::os::unix::ffi::OsStrExt;

/// this sandbox does not allow setting up the fault
fn skip(done: &mut std::fs::File) -> ! {
    use std::io::Write;
    done.write_all(b"{\"skip\":true}").expect("result");
    std::process::exit(0)
}

/// several executions, the surroundings changing in between
fn several(steps: &[Value], result: &str) -> ! {
    std::panic::set_hook(Box::new(|_| {}));
    let os = |v: &Value| OsStr::from_bytes(&unhex(v.as_str().unwrap())).to_os_string();
    let mut results = vec![];
    let no = vec![];
    let list = |v: &'_ Value| v.as_array().cloned().unwrap_or_default();
    for s in steps {
        for m in s["moves"].as_array().unwrap_or(&no) {
            std::fs::rename(os(&m[0]), os(&m[1])).expect("move")
        }
        std::env::set_current_dir(os(&s["cwd"])).expect("cwd");
        std::env::set_var("PATH", os(&s["path"]));
        std::env::set_var("TMPDIR", os(&s["tmpdir"]));
        for e in s["env"].as_array().unwrap_or(&no) {
            match e[1].is_null() {
                true => std::env::remove_var(os(&e[0])),
                false => std::env::set_var(os(&e[0]), os(&e[1])),
            }
        }
        let absent: Vec<_> = list(&s["only"]).iter().map(os).collect();
        for d in &absent {
            std::fs::remove_dir(d).expect("remove")
        }
        let text = String::from_utf8(unhex(s["text"].as_str().unwrap())).unwrap();
        let args = list(&s["args"]).iter().map(|a| graphviz_rust::cmd::CommandArg::Custom(String::from_utf8(unhex(a.as_str().unwrap())).unwrap())).collect();
        let mut out = outcome(text, args);
        let mut left: Vec<String> = vec![];
        for d in [&s["tmpdir"], &s["cwd"]] {
            left.extend(std::fs::read_dir(os(d)).expect("list").flatten().map(|e| e.path().display().to_string()))
        }
        out["left"] = json!(left);
        results.push(out);
        for d in &absent {
            std::fs::create_dir_all(d).expect("create")
        }
    }
    std::fs::write(result, Value::from(results).to_string()).expect("result");
    std::process::exit(0)
}

fn outcome(text: String, args: Vec<graphviz_rust::cmd::CommandArg>) -> Value {
    match std::panic::catch_unwind(move || graphviz_rust::exec_dot(text, args)) {
        Ok(Ok(b)) => json!({"ok": hex(&b)}),
        Ok(Err(e)) => json!({"err": e.to_string()}),
        Err(p) => json!({"panic": p.downcast_ref::<String>().cloned().or(p.downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or_default()}),
    }
}

pub fn run(spec: &OsStr) -> ! {
    let v: Value = serde_json::from_slice(&std::fs::read(spec).expect("spec")).expect("json");
    if let Some(steps) = v["steps"].as_array() {
        several(steps, v["result"].as_str().unwrap())
    }
    let text = String::from_utf8(unhex(v["text"].as_str().unwrap())).unwrap();
    let args: Vec<graphviz_rust::cmd::CommandArg> =
        v["args"].as_array().unwrap().iter().map(|a| graphviz_rust::cmd::CommandArg::Custom(String::from_utf8(unhex(a.as_str().unwrap())).unwrap())).collect();
    let bytes = |k: &str| v[k].as_str().map(unhex);
    let mut done = std::fs::File::create(v["result"].as_str().unwrap()).expect("result file");
    // this process is single threaded
    if let Some(d) = bytes("cwd") {
        std::env::set_current_dir(OsStr::from_bytes(&d)).expect("cwd");
        if v["remove_cwd"] == true {
            std::fs::remove_dir(OsStr::from_bytes(&d)).expect("remove cwd")
        }
    }
    if let Some(p) = bytes("path") {
        std::env::set_var("PATH", OsStr::from_bytes(&p))
    }
    if let Some(p) = bytes("tmpdir") {
        std::env::set_var("TMPDIR", OsStr::from_bytes(&p))
    }
    unsafe {
        let set = |done: &mut std::fs::File, what, n: u64| {
            let l = libc::rlimit { rlim_cur: n, rlim_max: n };
            if libc::setrlimit(what, &l) != 0 {
                skip(done)
            }
        };
        if let Some(n) = v["fsize"].as_u64() {
            libc::signal(libc::SIGXFSZ, libc::SIG_IGN);
            set(&mut done, libc::RLIMIT_FSIZE, n);
        }
        if let Some(u) = v["uid"].as_u64() {
            libc::setgroups(0, std::ptr::null());
            if libc::setgid(u as u32) != 0 || libc::setuid(u as u32) != 0 {
                skip(&mut done)
            }
        }
        if let Some(n) = v["nproc"].as_u64() {
            set(&mut done, libc::RLIMIT_NPROC, n);
        }
        if let Some(n) = v["nofile"].as_u64() {
            set(&mut done, libc::RLIMIT_NOFILE, n);
        }
    }
    std::panic::set_hook(Box::new(|_| {}));
    let out = outcome(text, args);
    use std::io::Write;
    done.write_all(out.to_string().as_bytes()).expect("result");
    std::process::exit(0)
}
