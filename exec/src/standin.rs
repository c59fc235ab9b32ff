//! The stand-in for dot: reports what it is given and does what its script says. Without a script
//! it gives its place to the real dot.
use serde_json::{json, Value};
use std::ffi::{OsStr, OsString};
use std::io::{Read, Write};
use std::os::unix::ffi::OsStrExt;
use std::os::unix::process::CommandExt;
use std::path::PathBuf;

pub const CTL: &str = "-Gvctl=";

pub fn hex(b: &[u8]) -> String {
    b.iter().map(|x| format!("{x:02x}")).collect()
}
pub fn unhex(s: &str) -> Vec<u8> {
    (0..s.len() / 2).map(|i| u8::from_str_radix(&s[2 * i..2 * i + 2], 16).unwrap()).collect()
}

fn read_input(path: Option<&OsStr>) -> std::io::Result<Vec<u8>> {
    let mut v = vec![];
    match path {
        Some(p) => std::fs::File::open(p)?.read_to_end(&mut v)?,
        None => std::io::stdin().read_to_end(&mut v)?,
    };
    Ok(v)
}

pub fn run() -> ! {
    let args: Vec<OsString> = std::env::args_os().skip(1).collect();
    let ctl: Option<PathBuf> = args
        .iter()
        .find_map(|a| a.as_bytes().strip_prefix(CTL.as_bytes()))
        .map(|b| PathBuf::from(OsStr::from_bytes(b)))
        .or_else(|| std::env::var_os("VCTL_DEFAULT").map(PathBuf::from).filter(|p| p.exists()));
    let Some(ctl) = ctl else {
        let real = std::env::var_os("VREAL_DOT").expect("VREAL_DOT");
        let e = std::process::Command::new(real).args(&args).exec();
        eprintln!("{e}");
        std::process::exit(99)
    };
    // whoever waits for a stand-in that is stuck gets an answer
    let patience = std::fs::read(&ctl).ok().and_then(|b| serde_json::from_slice::<Value>(&b).ok()).map_or(0, |v| {
        ["delay_before", "delay_after", "delay_within"].iter().map(|k| v[*k].as_u64().unwrap_or(0)).sum::<u64>()
    });
    std::thread::spawn(move || {
        std::thread::sleep(std::time::Duration::from_millis(25_000 + patience));
        std::process::exit(97)
    });
    let r = (|| -> std::io::Result<Value> {
        let v: Value = serde_json::from_slice(&std::fs::read(&ctl)?)?;
        let report = v["report"].as_str().unwrap_or("");
        if std::path::Path::new(report).exists() {
            std::fs::write(format!("{report}.again"), "")?;
        }
        let sleep = |k: &str| std::thread::sleep(std::time::Duration::from_millis(v[k].as_u64().unwrap_or(0)));
        sleep("delay_before");
        // those that run at the same time wait for each other
        let mut met = true;
        if let Some(d) = v["meet"].as_str() {
            std::fs::write(format!("{d}/{}", std::process::id()), "")?;
            let n = v["meet_n"].as_u64().unwrap_or(0) as usize;
            let start = std::time::Instant::now();
            met = loop {
                if std::fs::read_dir(d)?.count() >= n {
                    break true;
                }
                if start.elapsed().as_secs() >= 18 {
                    break false;
                }
                std::thread::sleep(std::time::Duration::from_millis(3))
            }
        }
        // what is left of the arguments when the expected ones are taken away is the input
        let mut rest: Vec<OsString> = args.clone();
        for e in v["expect"].as_array().into_iter().flatten() {
            let e = unhex(e.as_str().unwrap_or(""));
            if let Some(i) = rest.iter().position(|a| a.as_bytes() == e) {
                rest.remove(i);
            }
        }
        let path = rest.last().cloned();
        let first = read_input(path.as_deref());
        sleep("delay_after");
        let again = if path.is_some() { read_input(path.as_deref()) } else { Ok(first.as_ref().cloned().unwrap_or_default()) };
        let same = matches!((&first, &again), (Ok(a), Ok(b)) if a == b);
        if let Ok(x) = &first {
            std::fs::write(format!("{report}.in"), x)?;
        }
        let mut env = vec![];
        for (k, x) in std::env::vars_os() {
            env.extend_from_slice(k.as_bytes());
            env.push(b'=');
            env.extend_from_slice(x.as_bytes());
            env.push(0)
        }
        std::fs::write(format!("{report}.env"), env)?;
        let rep = json!({
            "args": args.iter().map(|a| hex(a.as_bytes())).collect::<Vec<_>>(),
            "path": path.as_ref().map(|p| hex(p.as_bytes())),
            "extra": rest.len(),
            "read": first.is_ok(),
            "same": same,
            "met": met,
            "exe": std::env::current_exe().ok().map(|d| hex(d.as_os_str().as_bytes())),
            "pid": std::process::id(),
            "cwd": std::env::current_dir().ok().map(|d| hex(d.as_os_str().as_bytes())),
        });
        std::fs::write(report, rep.to_string())?;
        Ok(v)
    })();
    let v = match r {
        Ok(v) => v,
        Err(e) => {
            eprintln!("stand-in: {e}");
            std::process::exit(98)
        }
    };
    let load = |k: &str| v[k].as_str().map(|p| std::fs::read(p).expect("stream")).unwrap_or_default();
    let (out, err) = (load("stdout"), load("stderr"));
    let wo = |b: &[u8]| {
        let _ = std::io::stdout().lock().write_all(b);
        let _ = std::io::stdout().flush();
    };
    let we = |b: &[u8]| {
        let _ = std::io::stderr().write_all(b);
    };
    match v["order"].as_u64().unwrap_or(0) {
        0 => {
            we(&err);
            wo(&out)
        }
        1 => {
            wo(&out);
            we(&err)
        }
        _ => {
            let n = 8;
            for i in 0..n {
                if i == n / 2 {
                    std::thread::sleep(std::time::Duration::from_millis(v["delay_within"].as_u64().unwrap_or(0)))
                }
                let part = |b: &[u8]| b[b.len() * i / n..b.len() * (i + 1) / n].to_vec();
                wo(&part(&out));
                we(&part(&err));
            }
        }
    }
    if let Some(ms) = v["close"].as_u64() {
        // it goes on without anything more to say
        unsafe {
            libc::close(1);
            libc::close(2);
        }
        std::thread::sleep(std::time::Duration::from_millis(ms))
    }
    if let Some(s) = v["signal"].as_i64() {
        unsafe {
            // no core files
            let l = libc::rlimit { rlim_cur: 0, rlim_max: 0 };
            libc::setrlimit(libc::RLIMIT_CORE, &l);
            libc::signal(s as i32, libc::SIG_DFL);
            let mut set: libc::sigset_t = std::mem::zeroed();
            libc::sigemptyset(&mut set);
            libc::sigprocmask(libc::SIG_SETMASK, &set, std::ptr::null_mut());
            libc::kill(libc::getpid(), s as i32);
        }
        std::thread::sleep(std::time::Duration::from_secs(20));
    }
    std::process::exit(v["exit"].as_i64().unwrap_or(0) as i32)
}
