mod app;
mod builder;
mod cfg;
mod compose;
mod conflict;
mod cost;
mod ctx;
mod determ;
mod docs;
mod emit;
mod gen;
mod reader;
mod reqs;
mod rng;
mod route;
mod routing;
mod spec;
mod sys;
mod text;
mod ty;

use ctx::Ctx;
use std::process::Command;

fn work(id: &str) -> i32 {
    ctx::silence_panics();
    let ctx = Ctx::new(id);
    let run: fn(&Ctx) = match id {
        "C01" => routing::c01,
        "C02" => routing::c02,
        "C03" => routing::c03,
        "C04" => routing::c04,
        "C05" => routing::c05,
        "C06" => routing::c06,
        "C07" => routing::c07,
        "C08" => routing::c08,
        "C09" => routing::c09,
        "C10" => routing::c10,
        "C11" => routing::c11,
        "C12" => text::c12,
        "C13" => text::c13,
        "C14" => text::c14,
        "C15" => text::c15,
        "C16" => determ::c16,
        "C17" => compose::c17,
        "C18" => compose::c18,
        "C19" => builder::c19,
        "C24" => builder::c24,
        "C20" => conflict::c20,
        "C21" => routing::c21,
        "C22" => docs::c22,
        "C25" => cost::c25,
        "C23" => compose::c23,
        _ => {
            eprintln!("unknown check {}", id);
            return 2;
        }
    };
    let done = std::sync::atomic::AtomicBool::new(false);
    let code = std::thread::scope(|s| {
        // the watchdog: library code that does not come back
        s.spawn(|| {
            let mut n = 0;
            while !done.load(std::sync::atomic::Ordering::Relaxed) {
                std::thread::sleep(std::time::Duration::from_millis(100));
                n += 1;
                if n % 20 != 0 {
                    continue;
                }
                if let Some(what) = ctx.stuck() {
                    ctx.violation(
                        "no answer after 25 s of CPU time on one case".into(),
                        vec![("case".into(), what.into_bytes())],
                    );
                    let code = ctx.finish();
                    ctx::remove_scratch(&ctx.scratch);
                    std::process::exit(code);
                }
            }
        });
        run(&ctx);
        done.store(true, std::sync::atomic::Ordering::Relaxed);
        ctx.finish()
    });
    ctx::remove_scratch(&ctx.scratch);
    code
}

/// Runs the check in a process of its own: if code under test takes that
/// process down, there is still someone to say so.
fn supervise(id: &str) -> i32 {
    let ctx = Ctx::new(id);
    let mut c = Command::new(std::env::current_exe().expect("own path"));
    c.arg("--worker").arg(id);
    sys::limit(&mut c, sys::RLIMIT_CORE, 0, 0);
    let secs = if ctx.thorough { 3600 } else { 840 };
    let t = std::time::SystemTime::now();
    let code = match sys::go(&mut c, secs) {
        sys::End::Exit(c) => c,
        sys::End::Signal(s) if [4, 6, 7, 8, 11].contains(&s) => {
            // what was each thread of the worker doing?
            let mut cases = vec![];
            let root = ctx.scratch.parent().unwrap().to_path_buf();
            for d in std::fs::read_dir(&root).into_iter().flatten().flatten() {
                let name = d.file_name().to_string_lossy().to_string();
                if !name.starts_with(&format!("{}-", id)) || d.path() == ctx.scratch {
                    continue;
                }
                if d.metadata().and_then(|m| m.modified()).map(|m| m < t).unwrap_or(true) {
                    continue;
                }
                for f in std::fs::read_dir(d.path()).into_iter().flatten().flatten() {
                    let n = f.file_name().to_string_lossy().to_string();
                    if n.starts_with("slot-") {
                        if let Ok(b) = std::fs::read(f.path()) {
                            if !b.is_empty() {
                                cases.push((format!("case-{}", n), b));
                            }
                        }
                    }
                }
                ctx::remove_scratch(&d.path());
            }
            if cases.is_empty() {
                println!("inconclusive: the check was ended by signal {} outside of any case", s);
                2
            } else {
                ctx.violation(format!("the process was ended by signal {} (stack overflow or abort) in one of these cases", s), cases);
                ctx.finish()
            }
        }
        sys::End::Signal(s) => {
            println!("inconclusive: the check was ended by signal {}", s);
            2
        }
        sys::End::Timeout => {
            println!("inconclusive: the check did not finish in {} s", secs);
            2
        }
        sys::End::NoStart(e) => {
            println!("inconclusive: {}", e);
            2
        }
    };
    ctx::remove_scratch(&ctx.scratch);
    code
}

fn main() {
    let args: Vec<String> = std::env::args().collect();
    // told by a variable, where it is not to have arguments, or other ones
    let told: Vec<String> = std::env::var("WF_WHOLE").map(|t| t.split('\n').map(String::from).collect()).unwrap_or_default();
    let code = match args.get(1).map(|s| s.as_str()) {
        _ if !told.is_empty() => {
            ctx::silence_panics();
            determ::child(&told)
        }
        Some("--worker") => work(&args[2]),
        Some("--whole") => {
            ctx::silence_panics();
            determ::child(&args[2..])
        }
        Some(id) => supervise(id),
        None => 2,
    };
    std::process::exit(code);
}
