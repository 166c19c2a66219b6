//! The same input gives the same output: in a process, between threads and
//! between processes, whatever else was done before or is done meanwhile.

use crate::cfg::*;
use crate::ctx::{hash, Ctx};
use crate::gen::{self, Overlap, Prof};
use crate::rng::Rng;
use crate::route;
use crate::sys;
use crate::text;
use std::path::{Path, PathBuf};
use std::process::{Command, Stdio};

/// What the library makes of a text: the code, or the report of its errors.
pub fn whole(t: &str) -> String {
    let r = std::panic::catch_unwind(|| {
        let mut w: Vec<u8> = vec![];
        match wayfinder::parse::route_config(t) {
            Ok((rest, c)) => {
                w.extend(format!("read, {} bytes left\n", rest.0.len()).bytes());
                w.extend(c.stringify().bytes());
                w.extend(format!("{:?}\n", c).bytes());
                let mut code: Vec<u8> = vec![];
                match std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| wayfinder::gen::codegen(&mut code, &c))) {
                    Ok(Ok(())) => w.extend(&code),
                    Ok(Err(e)) => w.extend(format!("refused: {}\n", e).bytes()),
                    Err(_) => w.extend(b"refused with a panic\n"),
                }
            }
            r => {
                w.extend(b"errors\n");
                wayfinder::parse::errors::show_errors(&mut w, t, r, "");
            }
        }
        String::from_utf8_lossy(&w).to_string()
    });
    r.unwrap_or_else(|_| "panic".into())
}

/// The C library's `getenv` and `clock_gettime`, in our place: to know which
/// variables the library asks for, and to give it another time of day.
pub mod surroundings {
    use std::ffi::CStr;
    use std::os::raw::{c_char, c_int, c_long};
    use std::sync::atomic::{AtomicBool, AtomicI64, Ordering::SeqCst};
    use std::sync::Mutex;

    extern "C" {
        static environ: *const *const c_char;
        fn syscall(n: c_long, ...) -> c_long;
    }
    pub static WATCH: AtomicBool = AtomicBool::new(false);
    pub static SHIFT: AtomicI64 = AtomicI64::new(0);
    pub static ASKED: Mutex<Vec<String>> = Mutex::new(vec![]);
    pub static CLOCK: AtomicBool = AtomicBool::new(false);

    #[no_mangle]
    pub unsafe extern "C" fn getenv(name: *const c_char) -> *const c_char {
        let name = CStr::from_ptr(name).to_bytes();
        if WATCH.load(SeqCst) {
            if let Ok(mut a) = ASKED.lock() {
                let n = String::from_utf8_lossy(name).to_string();
                if a.len() < 1000 && !a.contains(&n) {
                    a.push(n);
                }
            }
        }
        let mut p = environ;
        while !p.is_null() && !(*p).is_null() {
            let e = CStr::from_ptr(*p).to_bytes();
            if e.len() > name.len() && &e[..name.len()] == name && e[name.len()] == b'=' {
                return (*p).add(name.len() + 1);
            }
            p = p.add(1);
        }
        std::ptr::null()
    }

    #[repr(C)]
    pub struct Time {
        s: i64,
        ns: i64,
    }

    #[no_mangle]
    pub unsafe extern "C" fn clock_gettime(id: c_int, t: *mut Time) -> c_int {
        let n = if cfg!(target_arch = "aarch64") { 113 } else { 228 };
        let r = syscall(n, id as c_long, t) as c_int;
        if id == 0 && r == 0 {
            if WATCH.load(SeqCst) {
                CLOCK.store(true, SeqCst);
            }
            (*t).s += SHIFT.load(SeqCst);
        }
        r
    }
}

/// Child process: `--whole DIR N THREADS ORDER`: every file n of DIR, in some
/// order, on some threads; a line `n hash` each, and the text itself in OUT.
pub fn child(args: &[String]) -> i32 {
    let dir = Path::new(&args[0]);
    let n: usize = args[1].parse().unwrap();
    let threads: usize = args[2].parse().unwrap();
    let order: u64 = args[3].parse().unwrap();
    let out = PathBuf::from(&args[4]);
    let mut idx: Vec<usize> = (0..n).collect();
    match order {
        0 => {}
        1 => idx.reverse(),
        o => Rng::new(o).shuffle(&mut idx),
    }
    let texts: Vec<String> = (0..n).map(|k| std::fs::read_to_string(dir.join(format!("{}", k))).unwrap()).collect();
    let gate = std::sync::atomic::AtomicUsize::new(0);
    {
        use std::sync::atomic::Ordering::SeqCst;
        let shift = std::env::var("WF_SHIFT").ok().and_then(|s| s.parse().ok()).unwrap_or(0);
        surroundings::SHIFT.store(shift, SeqCst);
        surroundings::WATCH.store(true, SeqCst);
    }
    std::thread::scope(|s| {
        for t in 0..threads {
            let (idx, texts, gate, out) = (&idx, &texts, &gate, &out);
            // with and without a name
            let b = match (t as u64 + order) % 3 {
                0 => std::thread::Builder::new(),
                1 => std::thread::Builder::new().name("main".into()),
                _ => std::thread::Builder::new().name(format!("reader-{}", t)),
            };
            b.stack_size(64 << 20)
                .spawn_scoped(s, move || {
                    let mut mine: Vec<usize> = idx.clone();
                    if threads > 1 {
                        // every thread reads every text, each in its own order
                        Rng::new(order * 100 + t as u64).shuffle(&mut mine);
                    }
                    // released together, as closely as can be
                    use std::sync::atomic::Ordering::SeqCst;
                    gate.fetch_add(1, SeqCst);
                    let mut spins = 0;
                    while gate.load(SeqCst) < threads {
                        spins += 1;
                        if spins > 20_000 {
                            std::thread::yield_now();
                        } else {
                            std::hint::spin_loop();
                        }
                    }
                    let mut res = vec![];
                    for k in mine {
                        res.push((k, whole(&texts[k])));
                    }
                    res.sort();
                    let mut b = String::new();
                    for (k, r) in &res {
                        b.push_str(&format!("{} {:016x}\n", k, hash(r)));
                        let p = out.join(format!("t{}-{}", t, k));
                        // kept only where they differ from the first process's
                        if let Ok(first) = std::fs::read(dir.join(format!("out-{}", k))) {
                            if first != r.as_bytes() {
                                let _ = std::fs::write(p, r);
                            }
                        } else {
                            let _ = std::fs::write(dir.join(format!("out-{}", k)), r);
                        }
                    }
                    std::fs::write(out.join(format!("done-{}", t)), b).unwrap();
                })
                .unwrap();
        }
    });
    {
        use std::sync::atomic::Ordering::SeqCst;
        surroundings::WATCH.store(false, SeqCst);
        let mut asked = surroundings::ASKED.lock().unwrap().clone();
        asked.retain(|n| !n.starts_with("RUST_"));
        if surroundings::CLOCK.load(SeqCst) {
            asked.push("=the time of day".into());
        }
        std::fs::write(out.join("asked"), asked.join("\n")).unwrap();
    }
    0
}

/// A text that differs from another one in a little only: whatever is kept
/// from one of them must not be taken for the other's.
fn sibling(t: &str, r: &mut Rng) -> String {
    let mut ls: Vec<String> = t.split('\n').map(|s| s.to_string()).collect();
    let slash = ls.iter().position(|l| l.trim_end() == "/").unwrap_or(0);
    match r.below(7) {
        0 => ls.insert(0, format!("const SIBLING_{}: usize = {};", r.below(5), r.below(5))),
        1 if slash > 0 => {
            let k = r.below(slash);
            ls.remove(k);
        }
        1 | 2 => {
            for l in ls.iter_mut().take(slash) {
                l.push_str(" // other");
            }
        }
        3 => {
            // the same length, another handler
            for l in ls.iter_mut().skip(slash) {
                let w = l.trim_start().to_uppercase();
                if w.starts_with("GET ") || w.starts_with("POST ") || w.starts_with("PUT ") || w.starts_with("DELETE ") {
                    if let Some(c) = l.pop() {
                        l.push(if c == 'q' { 'w' } else { 'q' });
                        break;
                    }
                }
            }
        }
        4 => {
            for l in ls.iter_mut().skip(slash + 1) {
                if r.pct(30) && l.contains("u32") {
                    *l = l.replace("u32", "u64");
                }
            }
        }
        5 => {
            let k = r.below(ls.len());
            ls.insert(k, String::new());
        }
        _ => {
            let mut cs: Vec<char> = t.chars().collect();
            if !cs.is_empty() {
                let k = r.below(cs.len());
                cs[k] = *r.pick(&['x', '!', ' ', 'Q', '_']);
            }
            return cs.into_iter().collect();
        }
    }
    ls.join("\n")
}

fn corpus(ctx: &Ctx, j: u64, n: usize) -> Vec<String> {
    let mut all: Vec<String> = (0..n - n / 3)
        .map(|k| {
            let mut r = Rng::stream(ctx.seed ^ 0xc16, j, k as u64);
            match r.below(10) {
                0..=3 => {
                    let p = Prof { modules: 3, redirects: 2, kids: 6, budget: 60, ..Prof::default() };
                    let c = gen::config(&mut r, &Prof { odd: 0, lib_types: false, ..p });
                    print(&c, Style::random(&mut r), &mut r)
                }
                4 => plain(&text::any(&mut r)),
                _ => text::broken(&mut r),
            }
        })
        .collect();
    let mut r = Rng::stream(ctx.seed ^ 0x51b, j, 0);
    while all.len() < n {
        let k = r.below(n - n / 3);
        let t = sibling(&all[k], &mut r);
        all.push(t);
    }
    all
}

fn first_diff(a: &str, b: &str) -> String {
    for (n, (x, y)) in a.lines().zip(b.lines()).enumerate() {
        if x != y {
            return format!("line {}: {:?} / {:?}", n + 1, x, y);
        }
    }
    format!("{} / {} lines", a.lines().count(), b.lines().count())
}

fn processes(ctx: &Ctx, j: usize) {
    let n = if ctx.thorough { 400 } else { 150 };
    let texts = corpus(ctx, j as u64, n);
    let j = j as u64;
    runs(ctx, &format!("p{}", j), &texts, &[(1, 0), (1, 1), (1, 2 + j), (1, 0), (4, 5 + j), (8, 9 + j), (8, 17 + j), (2, 3)]);
}

/// Many short processes whose threads all make their first errors at once.
fn first_use(ctx: &Ctx, j: usize) {
    let mut seen = std::collections::HashSet::new();
    let mut texts: Vec<String> = vec![];
    for k in 0..600u64 {
        let t = text::broken(&mut Rng::stream(ctx.seed ^ 0xf1, j as u64, k));
        if t.len() > 400 {
            continue;
        }
        if let Ok(Some(rep)) = ctx.guard(&t, || text::report(&t, "")) {
            let m: Vec<&str> = rep.lines().skip(1).step_by(2).map(|l| l.trim()).collect();
            if seen.insert(hash(&m.join("|"))) && texts.len() < 24 {
                texts.push(t);
            }
        }
    }
    ctx.count("kinds of error reports used for first-use races", texts.len() as u64);
    let n = if ctx.thorough { 400 } else { 60 };
    let rs: Vec<(usize, u64)> = (0..n).map(|q| (if q == 0 { 1 } else { 8 }, 1000 + q as u64 + (j * 1000) as u64)).collect();
    runs(ctx, &format!("f{}", j), &texts, &rs);
}

// (threads, order)
fn runs(ctx: &Ctx, name: &str, texts: &[String], runs: &[(usize, u64)]) {
    let n = texts.len();
    let dir = ctx.scratch.join(name);
    let _ = std::fs::create_dir_all(&dir);
    for (k, t) in texts.iter().enumerate() {
        let _ = std::fs::write(dir.join(format!("{}", k)), t);
    }
    let mut told = 0;
    // what the library asks its surroundings for, and what else they may say
    let mut asked: Vec<String> = vec![];
    let mut todo: Vec<(usize, u64, Option<(String, String)>)> = runs.iter().map(|(t, o)| (*t, *o, None)).collect();
    let mut q = 0;
    while q < todo.len() {
        let (threads, order, more) = &todo[q].clone();
        q += 1;
        if ctx.out_of_time() || told > 3 {
            break;
        }
        let out = dir.join(format!("run{}", q - 1));
        let _ = std::fs::create_dir_all(&out);
        let mut c = Command::new(std::env::current_exe().expect("own path"));
        let whole = format!("{}\n{}\n{}\n{}\n{}", dir.display(), n, threads, order, out.display());
        c.stdin(Stdio::null());
        // in other surroundings
        if let Some((k, v)) = more {
            c.env(k, v);
        } else {
            // another time of day, and another day
            c.env("WF_SHIFT", ["0", "3600", "40000", "86400", "-86400", "31536000", "700000000"][(q - 1) % 7]);
        }
        match (q - 1) % 5 {
            _ if more.is_some() => {}
            1 => {
                c.env("LANG", "de_DE.UTF-8").env("LC_ALL", "tr_TR.UTF-8").env("TZ", "Asia/Tokyo").env("COLUMNS", "20").env("TERM", "xterm-256color");
            }
            2 => {
                c.env("PROFILE", "release").env("DEBUG", "true").env("OPT_LEVEL", "3").env("CARGO", "/usr/bin/cargo").env("TARGET", "wasm32-unknown-unknown");
                c.env("CARGO_MANIFEST_DIR", "/nowhere").env("OUT_DIR", "/nowhere/out").env("NUM_JOBS", "3").env("RUST_BACKTRACE", "1");
            }
            3 => {
                c.current_dir("/");
                c.env_clear();
            }
            4 => {
                c.env("CLICOLOR_FORCE", "1").env("NO_COLOR", "1").env("RUST_LOG", "trace").env("HOME", "/nowhere").env("USER", "nobody");
            }
            _ => {}
        }
        c.env("WF_WHOLE", whole);
        if more.is_none() && q % 2 == 0 {
            for k in 0..q % 10 {
                c.arg(["--release", "-v", "x.routes", "--test-threads=1", ""][k % 5]);
            }
            if q % 4 == 0 {
                use std::os::unix::process::CommandExt;
                c.arg0("/nowhere/build-script-build");
            }
        }
        sys::limit(&mut c, sys::RLIMIT_CORE, 0, 0);
        sys::limit(&mut c, sys::RLIMIT_CPU, 300, 310);
        let d = sys::run(&mut c, &out, "log", 300);
        match d.end {
            sys::End::Exit(0) => {}
            sys::End::Signal(s) if [4, 6, 7, 8, 11].contains(&s) => {
                ctx.violation(format!("a process reading and generating was ended by signal {}", s), vec![]);
                continue;
            }
            sys::End::Signal(24) => {
                ctx.violation("a process reading and generating did not come to an end in 300 s of CPU time".into(), vec![]);
                continue;
            }
            _ => {
                ctx.unknown(format!("a process did not finish: {}", String::from_utf8_lossy(&d.err).chars().take(200).collect::<String>()));
                continue;
            }
        }
        for n in std::fs::read_to_string(out.join("asked")).unwrap_or_default().lines() {
            if asked.iter().any(|a| a == n) || asked.len() > 20 {
                continue;
            }
            asked.push(n.to_string());
            ctx.count("things the library asked its surroundings for", 1);
            if n.starts_with('=') {
                continue;
            }
            for v in ["", "0", "1", "true", "release", "x86_64-unknown-linux-gnu", "/nowhere", "1700000000", "de_DE.UTF-8", "\u{e9}"] {
                todo.push((1, 0, Some((n.to_string(), v.to_string()))));
            }
        }
        for t in 0..*threads {
            let b = std::fs::read_to_string(out.join(format!("done-{}", t))).unwrap_or_default();
            let m = b.lines().count();
            if m != n {
                ctx.unknown("a process left no answers".into());
            }
            ctx.count("evaluations", m as u64);
            ctx.count(if *threads > 1 { "texts processed by concurrent threads" } else { "texts processed by one thread" }, m as u64);
        }
        ctx.count("processes", 1);
        for f in std::fs::read_dir(&out).into_iter().flatten().flatten() {
            let name = f.file_name().to_string_lossy().to_string();
            if !name.starts_with('t') {
                continue;
            }
            let k: usize = name.split('-').nth(1).and_then(|x| x.parse().ok()).unwrap_or(0);
            let a = std::fs::read_to_string(dir.join(format!("out-{}", k))).unwrap_or_default();
            let b = std::fs::read_to_string(f.path()).unwrap_or_default();
            if told > 3 {
                break;
            }
            told += 1;
            ctx.violation(
                format!(
                    "one text gives different results in different runs ({} threads, order {}{}): {}",
                    threads,
                    order,
                    more.as_ref().map(|(k, v)| format!(", {}={:?}", k, v)).unwrap_or_default(),
                    first_diff(&a, &b)
                ),
                vec![
                    ("text.routes".into(), texts[k].clone().into_bytes()),
                    ("first".into(), a.into_bytes()),
                    ("other".into(), b.into_bytes()),
                ],
            );
        }
    }
    for t in texts {
        ctx.distinct(hash(t));
    }
    ctx.sample(format!("{:?}", texts[0].chars().take(120).collect::<String>()));
    let _ = std::fs::remove_dir_all(&dir);
}

fn in_process(ctx: &Ctx, j: usize) {
    for k in 0..40 {
        let mut r = Rng::stream(ctx.seed ^ 0x16c, j as u64, k);
        let p = Prof { modules: 4, redirects: 3, kids: 8, budget: 80, overlap: Overlap::Any, query: 40, ..Prof::default() };
        let c = gen::config(&mut r, &p);
        let lib = lcfg(&c);
        let f = |x: &str| vec![("config.routes".to_string(), plain(&c).into_bytes()), ("code.rs".to_string(), x.as_bytes().to_vec())];
        let a = match route::generate(ctx, &lib) {
            Ok(a) => a,
            Err(_) => {
                ctx.count("configurations without code", 1);
                continue;
            }
        };
        ctx.distinct(hash(&a));
        let printed = lib.stringify();
        let mut others: Vec<String> = vec![];
        for _ in 0..4 {
            others.push(route::generate(ctx, &lib).unwrap_or_else(|e| e));
        }
        others.push(route::generate(ctx, &lib.clone()).unwrap_or_else(|e| e));
        others.push(route::generate(ctx, &lcfg(&c)).unwrap_or_else(|e| e));
        if c.writable() {
            if let Ok((_, again)) = wayfinder::parse::route_config(&plain(&c)) {
                others.push(route::generate(ctx, &again).unwrap_or_else(|e| e));
            }
        }
        std::thread::scope(|s| {
            let mut hs: Vec<_> = (0..2).map(|_| s.spawn(|| route::generate(ctx, &lib).unwrap_or_else(|e| e))).collect();
            for name in ["main", "worker-7"] {
                let b = std::thread::Builder::new().name(name.into()).stack_size(32 << 20);
                hs.push(b.spawn_scoped(s, || route::generate(ctx, &lib).unwrap_or_else(|e| e)).expect("thread"));
            }
            for h in hs {
                others.push(h.join().unwrap());
            }
        });
        ctx.count("evaluations", others.len() as u64);
        ctx.count("repeated generations in one process", others.len() as u64);
        for o in &others {
            if *o != a {
                ctx.violation(format!("code generated twice for one configuration differs: {}", first_diff(&a, o)), f(&a));
                break;
            }
        }
        if lib.stringify() != printed {
            ctx.violation("a configuration is printed differently after code was generated".into(), f(&a));
        }
    }
}

pub fn c16(ctx: &Ctx) {
    ctx.rule("configurations and texts (valid and damaged) are read, printed, generated and reported on again and again: in one process, from copies, on several threads at once, and in processes of their own that take the texts in different orders and with 1 to 8 threads; all results are compared byte for byte with the first; compiled routers are asked by 8 threads at once and compared with one thread; one evaluation is one such result; distinct = text or configuration");
    let (a, b) = if ctx.thorough { (24, 120) } else { (4, 24) };
    ctx.parallel(b, |j| in_process(ctx, j));
    for j in 0..a {
        if ctx.out_of_time() {
            break;
        }
        processes(ctx, j);
    }
    ctx.parallel(if ctx.thorough { 32 } else { 8 }, |j| first_use(ctx, j));
    crate::routing::concurrent(ctx);
}
