//! Builds from end to end, with inputs, outputs and settings that fail.

use crate::cfg::*;
use crate::ctx::{hash, Ctx};
use crate::gen::{self, Prof};
use crate::rng::Rng;
use crate::route;
use crate::sys::{self, End};
use crate::text;
use std::io::Write;
use std::os::unix::ffi::{OsStrExt, OsStringExt};
use std::path::{Path, PathBuf};
use std::process::{Command, Stdio};

fn tool(name: &str) -> PathBuf {
    std::env::current_exe().expect("own path").with_file_name(name)
}

/// Text of a route file and the code for it.
fn input(ctx: &Ctx, r: &mut Rng, budget: usize) -> Option<(Cfg, String, String)> {
    let p = Prof { odd: 0, lib_types: false, redirects: 1, budget: budget.min(60), ..Prof::default() };
    let mut c = gen::config(r, &p);
    if r.pct(25) {
        // the code is written, not compiled: any line will do
        let h = if r.pct(40) { format!("\u{feff}{}", r.pick(&["/", "use x;", "", "// x"])) } else { text::header(r) };
        c.headers.insert(0, h);
    }
    if r.pct(8) {
        // a line longer than anybody's line
        let long = |r: &mut Rng| "long".repeat(*r.pick(&[30, 64, 70, 128, 251, 300, 1025, 2050, 17000]));
        match r.below(3) {
            0 => c.headers.push(format!("// {}", long(r))),
            1 => {
                let l = long(r);
                let lit = Seg::Lit(l.chars().take(3000).collect());
                c.root.kids.push((lit, Node { res: vec![Res { method: 0, modules: vec![], name: "LongOne".into(), redirect: false, query: vec![] }], ..Node::default() }));
            }
            _ => {
                let name = format!("L{}", long(r));
                c.root.kids.push((Seg::Lit("longname".into()), Node { res: vec![Res { method: 0, modules: vec![], name, redirect: false, query: vec![] }], ..Node::default() }));
            }
        }
    }
    if budget > 100 {
        // a file larger than anybody's buffer
        let n = budget * 1000 / plain(&c).len().max(40) + 1;
        c = gen::copies(&c, n);
    }
    let t = print(&c, Style::random(r), r);
    // as a reader of the text gets it, not as the generator of it has it
    match wayfinder::parse::route_config(&t) {
        Ok((_, lib)) => route::generate(ctx, &lib).ok().map(|code| (c, t.clone(), code)),
        Err(_) => None,
    }
}

/// The configuration with something put to it that the generator refuses.
fn contradictory(ctx: &Ctx, c: &Cfg, r: &mut Rng) -> Option<String> {
    let more = r.pick(&[
        "  zz9\n    GET Zz9\n  zz9\n    POST Zz8\n",
        "  zz9\n    GET Zz9\n  zz8\n    GET Zz9\n",
        "  zz9\n    GET Zz9\n    GET Zz8\n",
        "  zz9\n    {a: u8}\n      GET Zz9\n    {b: u8}\n      GET Zz8\n",
    ]);
    let t = format!("{}{}", plain(c), more);
    match wayfinder::parse::route_config(&t) {
        Ok((_, lib)) if route::generate(ctx, &lib).is_err() => Some(t),
        _ => None,
    }
}

fn refused(r: &mut Rng) -> String {
    const LITTLE: [&str; 22] = [
        "", "\n", "\n\n\n", " ", "   \n", "\t\n", "\r\n\r\n", "\u{feff}", "\u{feff}\n", "\u{a0}\n", "/", "/\n", "/\n\n\n", "\n/\n", "/ \n",
        "use std::fmt;\n", "// nothing yet\n", "use a;\n\n/\n", "\0", "\u{b}\u{c}\n", "null\n", "{}\n",
    ];
    loop {
        let t = if r.pct(40) { r.pick(&LITTLE).to_string() } else { text::broken(r) };
        if wayfinder::parse::route_config(&t).is_err() {
            return t;
        }
    }
}

struct Run<'a> {
    ctx: &'a Ctx,
    dir: PathBuf,
    kind: &'static str,
    cmd: Command,
    /// what to keep in a report
    files: Vec<(String, Vec<u8>)>,
}

struct Seen {
    code: i32,
    out: Vec<u8>,
    err: Vec<u8>,
}

impl<'a> Run<'a> {
    fn go(&mut self) -> Option<Seen> {
        let ctx = self.ctx;
        ctx.count("evaluations", 1);
        ctx.count(&format!("scenario: {}", self.kind), 1);
        // a route file that nobody asked for, if there is one
        self.cmd.stdin(std::fs::File::open(self.dir.join("standard input")).map(Stdio::from).unwrap_or_else(|_| Stdio::null()));
        sys::limit(&mut self.cmd, sys::RLIMIT_CORE, 0, 0);
        sys::limit(&mut self.cmd, sys::RLIMIT_CPU, 20, 22);
        let d = sys::run(&mut self.cmd, &self.dir, "run", 60);
        ctx.distinct(hash(&format!("{} {:?}", self.kind, self.files.first().map(|f| &f.1))));
        match d.end {
            End::Exit(code) => Some(Seen { code, out: d.out, err: d.err }),
            End::Signal(24) => {
                self.bad("did not come to an end in 20 s of CPU time");
                None
            }
            End::Signal(s) if [4, 6, 7, 8, 11].contains(&s) => {
                // ended badly, and not by its own exit status: still a failure status for the caller
                Some(Seen { code: 128 + s, out: d.out, err: d.err })
            }
            End::NoStart(e) => {
                ctx.unknown(e);
                None
            }
            _ => {
                ctx.unknown("the process did not finish".into());
                None
            }
        }
    }
    fn bad(&self, what: &str) {
        let mut f = self.files.clone();
        f.push(("command".into(), format!("{:?}\n", self.cmd).into_bytes()));
        self.ctx.violation(format!("{}: {}", self.kind, what), f);
    }
    fn succeeded(&self, s: &Seen) -> bool {
        if s.code != 0 {
            self.bad(&format!("failed ({}) with all it needs: {}", s.code, lossy(&s.err, 300)));
            return false;
        }
        true
    }
    fn failed(&self, s: &Seen) -> bool {
        if s.code == 0 {
            self.bad("ended successfully");
            return false;
        }
        if s.err.iter().all(|b| b.is_ascii_whitespace()) {
            self.bad("failed without a message");
            return false;
        }
        true
    }
    fn equal(&self, what: &str, got: &[u8], want: &[u8]) {
        if got != want {
            let n = got.iter().zip(want).take_while(|(a, b)| a == b).count();
            self.bad(&format!(
                "{} is not what it must be: {} bytes, expected {}, first difference at {}: ...{:?} instead of ...{:?}",
                what,
                got.len(),
                want.len(),
                n,
                lossy(&got[n..], 60),
                lossy(&want[n..], 60)
            ));
        }
    }
}

fn lossy(b: &[u8], n: usize) -> String {
    String::from_utf8_lossy(b).chars().take(n).collect()
}

fn full() -> Option<std::fs::File> {
    std::fs::OpenOptions::new().write(true).open("/dev/full").ok()
}

/// Run with standard output somewhere of our own choosing.
fn to(cmd: &mut Command, dir: &Path, out: Stdio) -> Option<(i32, Vec<u8>)> {
    let ep = dir.join("own.err");
    let ef = std::fs::File::create(&ep).ok()?;
    cmd.stdin(Stdio::null()).stdout(out).stderr(ef);
    sys::limit(cmd, sys::RLIMIT_CORE, 0, 0);
    match sys::go(cmd, 60) {
        End::Exit(c) => Some((c, std::fs::read(&ep).unwrap_or_default())),
        End::Signal(s) => Some((128 + s, std::fs::read(&ep).unwrap_or_default())),
        _ => None,
    }
}

/// A pipe nobody reads.
fn deaf() -> Option<Stdio> {
    let mut c = Command::new("true").stdin(Stdio::piped()).spawn().ok()?;
    let mut p = c.stdin.take()?;
    let _ = c.wait();
    // another thread's child may hold a copy of the reading end until it execs
    for _ in 0..2000 {
        if p.write_all(b"\n").is_err() {
            return Some(Stdio::from(p));
        }
        std::thread::sleep(std::time::Duration::from_millis(1));
    }
    None
}


const NAMES: [&str; 9] = [
    "app.routes", "r", "with space.routes", "\u{e9}t\u{e9}.routes", "sub/deep/app.routes", "-a.routes", "a.rs", "%s {}.$HOME", "UPPER.ROUTES",
];
const MORE_NAMES: [&str; 6] = ["./dot.routes", "sub/../up.routes", "line\nfeed", "--from=file", "~", "a=b"];

fn builds(ctx: &Ctx, j: usize) {
    let mut r = Rng::stream(ctx.seed ^ 0xc19, j as u64, 0);
    let dir = ctx.scratch.join(format!("w{}", j));
    let man = dir.join("man if est");
    let out = dir.join("out");
    for d in [&dir, &man, &man.join("sub/deep"), &out, &out.join("sub/deep"), &dir.join("src/src"), &man.join("src"), &out.join("src")] {
        let _ = std::fs::create_dir_all(d);
    }
    let (c, t, code) = match input(ctx, &mut r, if j % 12 == 5 { [140, 270][j / 12 % 2] } else { 12 }) {
        Some(x) => x,
        None => return ctx.count("inputs without code (not this property's)", 1),
    };
    let code = code.into_bytes();
    let plain_t = plain(&c);
    let code_of_config = route::generate(ctx, &lcfg(&c)).unwrap_or_default().into_bytes();
    let base_files = vec![("input.routes".to_string(), t.clone().into_bytes())];
    let put = |p: &Path, b: &[u8]| {
        let _ = std::fs::write(p, b);
    };
    let old: Vec<Vec<u8>> = vec![
        b"old\n".to_vec(),
        [&code[..], b"// more\n".repeat(50).as_slice()].concat(),
        vec![b'x'; code.len() * 3],
        vec![],
        // very nearly what is to be written
        {
            let mut v = code.clone();
            let k = r.below(v.len());
            v[k] = if v[k] == b'z' { b'y' } else { b'z' };
            v
        },
        code[..code.len() - 1].to_vec(),
        [&code[..], b"\n"].concat(),
        code.to_ascii_lowercase(),
    ];
    put(&dir.join("plain.routes"), plain_t.as_bytes());
    let start = |kind: &'static str, env: bool, files: &Vec<(String, Vec<u8>)>| -> Run {
        let mut cmd = Command::new(tool("wfbuild"));
        cmd.current_dir(&dir);
        cmd.env_remove("CARGO_MANIFEST_DIR").env_remove("OUT_DIR");
        if env {
            cmd.env("CARGO_MANIFEST_DIR", &man).env("OUT_DIR", &out).arg("env");
        } else {
            cmd.arg("new");
        }
        Run { ctx, dir: dir.clone(), kind, cmd, files: files.clone() }
    };

    // ---- successes
    for env in [true, false] {
        for how in 0..6 {
            let name = file_name(&mut r, true);
            let name = name.to_str().unwrap_or("r");
            let oname = match r.below(10) {
                0..=2 => r.pick(&["routes.rs", "o", "sub/deep/x.rs", "with space"]).to_string().into(),
                3..=5 => r.pick(&[".routes.rs", ".x", "x.rs.bak", "routes.rs~", "x.txt", "-", "a.RS", "x.rs.tmp", "mod.rs", "\u{e9}"]).to_string().into(),
                6 => std::ffi::OsString::from(format!("{}.rs", "n".repeat(*r.pick(&[60, 125, 240, 252])))),
                _ => file_name(&mut r, false),
            };
            let absin = r.pct(35);
            let absout = r.pct(35);
            let flat = |n: &std::ffi::OsStr| -> std::ffi::OsString {
                std::ffi::OsString::from_vec(n.as_bytes().iter().map(|b| if *b == b'/' { b'_' } else { *b }).collect())
            };
            let inp = if env { man.join(name) } else { dir.join(name.replace('/', "_")) };
            let _ = std::fs::remove_file(&inp);
            match r.below(4) {
                // by another name, which is not the one to announce
                0 => {
                    let real = dir.join("elsewhere.routes");
                    put(&real, t.as_bytes());
                    if std::os::unix::fs::symlink(&real, &inp).is_err() {
                        put(&inp, t.as_bytes());
                    }
                }
                _ => put(&inp, t.as_bytes()),
            }
            let oname = match !env && dir.join(flat(&oname)) == inp {
                true => "routes.rs".into(),
                false => oname,
            };
            let target = if env { out.join(&oname) } else { dir.join(flat(&oname)) };
            let given_in: PathBuf = match (absin, env) {
                (true, _) => inp.clone(),
                (false, true) => name.into(),
                (false, false) => name.replace('/', "_").into(),
            };
            let given_out: PathBuf = match (absout, env) {
                (true, _) => target.clone(),
                (false, true) => oname.clone().into(),
                (false, false) => flat(&oname).into(),
            };
            let _ = std::fs::remove_file(&target);
            let was = r.pick(&old).clone();
            let had = r.pct(80);
            if had {
                put(&target, &was);
                // older, newer, or just as old as the input
                let when = std::time::SystemTime::now();
                let when = match r.below(4) {
                    0 => Some(when - std::time::Duration::from_secs(100_000)),
                    1 => Some(when + std::time::Duration::from_secs(100_000)),
                    2 => std::fs::metadata(&inp).and_then(|m| m.modified()).ok(),
                    _ => None,
                };
                if let (Some(w), Ok(f)) = (when, std::fs::OpenOptions::new().write(true).open(&target)) {
                    let _ = f.set_modified(w);
                }
            }
            let (from_config, to_stdout) = (how % 3 == 2, how >= 3);
            let mut run = start(
                match (env, from_config, to_stdout) {
                    (true, false, false) => "build script, file to file",
                    (true, false, true) => "build script, file to standard output",
                    (true, true, false) => "build script, configuration to file",
                    (true, true, true) => "build script, configuration to standard output",
                    (false, false, false) => "file to file",
                    (false, false, true) => "file to standard output",
                    (false, true, false) => "configuration to file",
                    (false, true, true) => "configuration to standard output",
                },
                env,
                &base_files,
            );
            // earlier settings are replaced by later ones
            let (mut a, mut b): (Vec<std::ffi::OsString>, Vec<std::ffi::OsString>) = (vec![], vec![]);
            if r.pct(30) {
                a.extend(if r.pct(50) { ["if".into(), "nowhere".into()] } else { ["ic".into(), dir.join("plain.routes").into()] });
            }
            if r.pct(30) {
                if r.pct(50) {
                    b.push("os".into());
                } else {
                    b.extend(["of".into(), "wrong-target".into()]);
                }
            }
            if from_config {
                a.extend(["ic".into(), dir.join("plain.routes").into()]);
            } else {
                a.extend(["if".into(), given_in.clone().into()]);
            }
            if to_stdout {
                b.push("os".into());
            } else {
                b.extend(["of".into(), given_out.clone().into()]);
            }
            if r.pct(50) {
                a.extend(b);
                run.cmd.args(a);
            } else {
                b.extend(a);
                run.cmd.args(b);
            }
            let s = match run.go() {
                Some(s) => s,
                None => continue,
            };
            if !run.succeeded(&s) {
                continue;
            }
            let want = if from_config { &code_of_config } else { &code };
            let mut stdout = vec![];
            if env && !from_config {
                stdout.extend(b"cargo:rerun-if-changed=");
                stdout.extend(inp.as_os_str().as_bytes());
                stdout.push(b'\n');
            }
            if to_stdout {
                stdout.extend(want);
                let kept = std::fs::read(&target).ok();
                if had && kept.as_deref() != Some(&was[..]) || !had && kept.is_some() {
                    run.bad("a file was written although standard output was asked for");
                }
            } else {
                match std::fs::read(&target) {
                    Ok(got) => run.equal("the output file", &got, want),
                    Err(_) => run.bad("there is no output file"),
                }
            }
            run.equal("standard output", &s.out, &stdout);
            for d in [&dir, &out] {
                if d.join("wrong-target").exists() {
                    run.bad("a target that was replaced by a later setting was written");
                    let _ = std::fs::remove_file(d.join("wrong-target"));
                }
            }
        }
    }

    // ---- several builds of one process, each of its own input
    for env in [true, false] {
        let mut run = start("several builds in one process", env, &base_files);
        let mut wants: Vec<(PathBuf, Vec<u8>)> = vec![];
        let mut stdout = vec![];
        for k in 0..3 {
            let (t2, code2) = match k {
                0 => (t.clone(), code.clone()),
                // the same routes below other headers
                1 => {
                    let t2 = format!("// other\n{}", t);
                    match wayfinder::parse::route_config(&t2).ok().and_then(|x| route::generate(ctx, &x.1).ok()) {
                        Some(c2) => (t2, c2.into_bytes()),
                        None => continue,
                    }
                }
                _ => match input(ctx, &mut r, 5) {
                    Some((_, t2, c2)) => (t2, c2.into_bytes()),
                    None => continue,
                },
            };
            let (ip, op) = (format!("in{}.routes", k), format!("out{}.rs", k % 2));
            let inp = if env { man.join(&ip) } else { dir.join(&ip) };
            let target = if env { out.join(&op) } else { dir.join(&op) };
            put(&inp, t2.as_bytes());
            if k > 0 {
                run.cmd.arg("then").arg(if env { "env" } else { "new" });
            }
            run.cmd.arg("if").arg(&ip).arg("of").arg(&op);
            if env {
                stdout.extend(b"cargo:rerun-if-changed=");
                stdout.extend(inp.as_os_str().as_bytes());
                stdout.push(b'\n');
            }
            wants.retain(|w| w.0 != target);
            wants.push((target, code2));
        }
        if let Some(s) = run.go() {
            if run.succeeded(&s) {
                run.equal("standard output", &s.out, &stdout);
                for (p, want) in &wants {
                    run.equal("the output file", &std::fs::read(p).unwrap_or_default(), want);
                }
            }
        }
    }

    // ---- bad inputs: failure, message, old output kept
    let bad = refused(&mut r);
    let mut notext = t.clone().into_bytes();
    let at = r.below(notext.len() + 1);
    notext.insert(at, *r.pick(&[0xff, 0xc3, 0x80]));
    for env in [true, false] {
        for kind in ["missing input", "directory as input", "input that is not text", "input that is not a route file", "truncated input", "input that contradicts itself"] {
            let name = "bad.routes";
            let inp = if env { man.join(name) } else { dir.join(name) };
            let _ = std::fs::remove_file(&inp);
            let _ = std::fs::remove_dir(&inp);
            let mut fs = base_files.clone();
            match kind {
                // with files of nearly that name
                "missing input" => {
                    for d in [&man, &dir, &out, &dir.join("src")] {
                        for n in ["bad", "bad.routes.routes", "app.routes", "bad.routes~", "bad.routes.bak", "Bad.routes", "bad.routes.txt", "src/bad.routes"] {
                            put(&d.join(n), t.as_bytes());
                        }
                        if *d != inp.parent().unwrap() {
                            put(&d.join("bad.routes"), t.as_bytes());
                        }
                    }
                }
                "directory as input" => {
                    let _ = std::fs::create_dir_all(&inp);
                }
                "input that is not text" => {
                    put(&inp, &notext);
                    fs = vec![("input.routes".to_string(), notext.clone())];
                }
                "input that contradicts itself" => match contradictory(ctx, &c, &mut r) {
                    Some(t) => {
                        put(&inp, t.as_bytes());
                        fs = vec![("input.routes".to_string(), t.into_bytes())];
                    }
                    None => {
                        ctx.count("contradictions the generator does not refuse itself", 1);
                        continue;
                    }
                },
                "truncated input" => {
                    // without its last line end it is not a route file any more
                    let cut = t.trim_end_matches(|c| c == '\n' || c == '\r');
                    if wayfinder::parse::route_config(cut).is_ok() {
                        continue;
                    }
                    put(&inp, cut.as_bytes());
                    fs = vec![("input.routes".to_string(), cut.as_bytes().to_vec())];
                }
                _ => {
                    put(&inp, bad.as_bytes());
                    fs = vec![("input.routes".to_string(), bad.clone().into_bytes())];
                }
            }
            for to_stdout in [false, true] {
                let target = if env { out.join("kept.rs") } else { dir.join("kept.rs") };
                let was = r.pick(&old).clone();
                put(&target, &was);
                let mut run = start(kind, env, &fs);
                run.cmd.arg("if").arg(name);
                if to_stdout {
                    run.cmd.arg("os");
                } else {
                    run.cmd.arg("of").arg("kept.rs");
                }
                if let Some(s) = run.go() {
                    if run.failed(&s) {
                        let so: Vec<u8> = if env {
                            let mut v = b"cargo:rerun-if-changed=".to_vec();
                            v.extend(inp.as_os_str().as_bytes());
                            v.push(b'\n');
                            v
                        } else {
                            vec![]
                        };
                        if !s.out.is_empty() && s.out != so {
                            run.bad(&format!("code was printed for a bad input: {:?}", lossy(&s.out, 200)));
                        }
                        if kind == "input that is not a route file" {
                            let rep = text::report(&bad, "").unwrap_or_default();
                            let err = String::from_utf8_lossy(&s.err).to_string();
                            if rep.is_empty() || !err.contains(&rep) {
                                run.bad("the errors of the route file are not shown");
                            }
                        }
                        // what contradicts itself is no matter of the file it stands in
                        if kind != "input that contradicts itself" && !err_names(&s.err, &inp) {
                            run.bad(&format!("the message does not say which file: {:?}", lossy(&s.err, 200)));
                        }
                    }
                    match std::fs::read(&target) {
                        Ok(got) => run.equal("the old output", &got, &was),
                        Err(_) => run.bad("the old output is gone"),
                    }
                }
            }
        }
    }

    // ---- settings that are missing
    put(&man.join("app.routes"), t.as_bytes());
    put(&dir.join("app.routes"), t.as_bytes());
    let sets: [(&'static str, bool, &[&str]); 6] = [
        ("no input configured", true, &["of", "n.rs"]),
        ("no output configured", true, &["if", "app.routes"]),
        ("nothing configured", true, &[]),
        ("no input configured", false, &["of", "n.rs"]),
        ("no output configured", false, &["if", "app.routes"]),
        ("nothing configured", false, &[]),
    ];
    for (kind, env, args) in sets.iter() {
        let mut run = start(kind, *env, &base_files);
        run.cmd.args(*args);
        if let Some(s) = run.go() {
            run.failed(&s);
        }
    }
    for n in 0..5 {
        let mut run = start("build script variables missing", true, &base_files);
        match n {
            0 => {
                run.cmd.env_remove("OUT_DIR");
            }
            1 => {
                run.cmd.env_remove("CARGO_MANIFEST_DIR");
            }
            2 => {
                run.cmd.env_remove("OUT_DIR").env_remove("CARGO_MANIFEST_DIR");
            }
            3 => {
                run.cmd.env("OUT_DIR", std::ffi::OsStr::from_bytes(b"\xff"));
            }
            _ => {
                run.cmd.env("CARGO_MANIFEST_DIR", std::ffi::OsStr::from_bytes(b"\xff"));
            }
        }
        run.cmd.args(["if", "app.routes", "of", "n.rs"]);
        if let Some(s) = run.go() {
            run.failed(&s);
        }
    }

    // ---- outputs that cannot be had, or not completely
    for env in [true, false] {
        for (kind, at) in [
            ("output in a missing directory", "missing/o.rs"),
            ("output in a missing directory", "target/debug/o.rs"),
            ("output in a missing directory", "out/gen/routes.rs"),
            ("output in a missing directory", "src/./gen/../o.rs"),
            ("output in a missing directory", "../nowhere/o.rs"),
            ("directory as output", "taken"),
            ("directory as output", "."),
            ("full device as output", "/dev/full"),
        ] {
            let _ = std::fs::create_dir_all(dir.join("taken"));
            let _ = std::fs::create_dir_all(out.join("taken"));
            let mut run = start(kind, env, &base_files);
            run.cmd.args(["if", "app.routes", "of", at]);
            if let Some(s) = run.go() {
                run.failed(&s);
            }
        }
        let mut run = start("full device as standard output", env, &base_files);
        ctx.count("evaluations", 1);
        ctx.count("scenario: full device as standard output", 1);
        // (a configuration, so that the code itself is all that is printed)
        run.cmd.arg("ic").arg(dir.join("plain.routes")).arg("os");
        if let Some(f) = full() {
            match to(&mut run.cmd, &dir, Stdio::from(f)) {
                Some((code, err)) => {
                    run.failed(&Seen { code, out: vec![], err });
                }
                None => ctx.unknown("the process did not finish".into()),
            }
        }
        let mut run = start("closed pipe as standard output", env, &base_files);
        ctx.count("evaluations", 1);
        ctx.count("scenario: closed pipe as standard output", 1);
        run.cmd.arg("ic").arg(dir.join("plain.routes")).arg("os");
        if let Some(f) = deaf() {
            match to(&mut run.cmd, &dir, f) {
                Some((code, err)) => {
                    // a process ended by the signal for it says nothing, rightly
                    if code != 128 + 13 {
                        run.failed(&Seen { code, out: vec![], err });
                    }
                }
                None => ctx.unknown("the process did not finish".into()),
            }
        }
    }
    let n = code.len();
    let mut limits: Vec<usize> = vec![0, 1, n / 2, n.saturating_sub(1), n.saturating_sub(2), n.saturating_sub(40), n, n + 1, 4096, 8192];
    for _ in 0..6 {
        limits.push(r.below(n + 1));
    }
    for k in limits {
        // the same for a file and for standard output into a file; output captured through files
        // is limited as well, so nothing else may be printed
        let fits = k >= n;
        for to_stdout in [false, true] {
            let mut run = start(if fits { "room for all of the output" } else { "room for part of the output" }, false, &base_files);
            run.cmd.args(["if", "app.routes"]);
            let target = dir.join("limited.rs");
            put(&target, b"");
            if to_stdout {
                run.cmd.arg("os");
            } else {
                run.cmd.args(["of", "limited.rs"]);
            }
            sys::limit(&mut run.cmd, sys::RLIMIT_FSIZE, k as u64, k as u64);
            sys::ignore_xfsz(&mut run.cmd);
            ctx.count("evaluations", 1);
            ctx.count(&format!("scenario: {}", run.kind), 1);
            let got = {
                let of = match std::fs::File::create(dir.join("limited.out")) {
                    Ok(f) => f,
                    Err(_) => continue,
                };
                // standard error through a pipe is not limited
                run.cmd.stdin(Stdio::null()).stdout(of).stderr(Stdio::piped());
                sys::limit(&mut run.cmd, sys::RLIMIT_CORE, 0, 0);
                run.cmd.output()
            };
            let o = match got {
                Ok(o) => o,
                Err(e) => {
                    ctx.unknown(e.to_string());
                    continue;
                }
            };
            let s = Seen { code: o.status.code().unwrap_or(255), out: vec![], err: o.stderr };
            let written = std::fs::read(if to_stdout { dir.join("limited.out") } else { target.clone() }).unwrap_or_default();
            if fits {
                if run.succeeded(&s) {
                    run.equal("the output", &written, &code);
                }
            } else if s.code == 0 {
                run.bad(&format!("success with {} bytes of {} written", written.len(), n));
            } else {
                run.failed(&s);
            }
        }
    }
    if j == 0 {
        ctx.sample(format!("{:?} -> {} bytes of code", lossy(t.as_bytes(), 120), n));
    }
    let _ = std::fs::remove_dir_all(&dir);
}

fn err_names(err: &[u8], p: &Path) -> bool {
    let name = p.file_name().map(|n| n.as_bytes().to_vec()).unwrap_or_default();
    err.windows(name.len()).any(|w| w == &name[..])
}

// ---- writers that fail -----------------------------------------------------

#[derive(Clone, Copy, PartialEq)]
enum Fault {
    None,
    Error,
    Once,     // one call fails, later ones would not
    Full,     // Ok(0)
    Short,    // one byte at a time
    Interrupt, // now and then
}

struct W {
    got: Vec<u8>,
    calls: usize,
    at: usize,
    fault: Fault,
    struck: bool,
    r: Rng,
}

impl Write for W {
    fn write(&mut self, b: &[u8]) -> std::io::Result<usize> {
        let n = self.calls;
        self.calls += 1;
        match self.fault {
            Fault::Error if n >= self.at => {
                self.struck = true;
                return Err(std::io::Error::new(std::io::ErrorKind::Other, "no more"));
            }
            Fault::Once if n == self.at => {
                self.struck = true;
                return Err(std::io::Error::new(std::io::ErrorKind::Other, "not now"));
            }
            Fault::Full if n >= self.at && !b.is_empty() => {
                self.struck = true;
                return Ok(0);
            }
            Fault::Interrupt if n % 3 == self.at % 3 => {
                self.struck = true;
                return Err(std::io::Error::new(std::io::ErrorKind::Interrupted, "again"));
            }
            Fault::Short if !b.is_empty() => {
                let k = self.r.range(1, b.len());
                self.struck |= k < b.len();
                self.got.extend(&b[..k]);
                return Ok(k);
            }
            _ => {}
        }
        self.got.extend(b);
        Ok(b.len())
    }
    fn flush(&mut self) -> std::io::Result<()> {
        match self.fault {
            Fault::Error | Fault::Full if self.struck => Err(std::io::Error::new(std::io::ErrorKind::Other, "no more")),
            _ => Ok(()),
        }
    }
}

fn writers(ctx: &Ctx, j: usize) {
    let mut r = Rng::stream(ctx.seed ^ 0x19c, j as u64, 1);
    let p = Prof { redirects: 1, headers: 50, query: 40, budget: *r.pick(&[2, 5, 9]), ..Prof::default() };
    let c = gen::config(&mut r, &p);
    let lib = lcfg(&c);
    let code = match route::generate(ctx, &lib) {
        Ok(c) => c.into_bytes(),
        Err(_) => return ctx.count("inputs without code (not this property's)", 1),
    };
    let mut once = |fault: Fault, at: usize, r: &mut Rng| -> usize {
        let mut w = W { got: vec![], calls: 0, at, fault, struck: false, r: Rng::new(r.next()) };
        let res = ctx.guard(&plain(&c), || wayfinder::gen::codegen(&mut w, &lib));
        ctx.count("evaluations", 1);
        ctx.count(
            match fault {
                Fault::None => "writers without faults",
                Fault::Error => "writers failing at some call",
                Fault::Once => "writers failing at one call only",
                Fault::Full => "writers full at some call",
                Fault::Short => "writers taking part of what they are given",
                Fault::Interrupt => "interrupted writers",
            },
            1,
        );
        ctx.distinct(c.shape() ^ hash(&format!("{} {}", fault as u8, at)));
        let name = format!("writer with fault {} at call {}", fault as u8, at);
        let f = || vec![("config.routes".to_string(), plain(&c).into_bytes()), ("fault".to_string(), name.clone().into_bytes()), ("written".to_string(), w.got.clone())];
        let stopping = matches!(fault, Fault::Error | Fault::Once | Fault::Full);
        match res {
            Err(p) => ctx.violation(format!("{}: generating panicked: {}", name, p), f()),
            Ok(Ok(())) if stopping && w.struck => {
                ctx.violation(format!("{}: generating succeeded although writing failed ({} bytes of {})", name, w.got.len(), code.len()), f())
            }
            Ok(Ok(())) if w.got != code => {
                ctx.violation(format!("{}: generating succeeded with other output ({} bytes of {})", name, w.got.len(), code.len()), f())
            }
            Ok(Ok(())) => {}
            Ok(Err(e)) if !stopping => ctx.violation(format!("{}: generating failed: {}", name, e), f()),
            Ok(Err(_)) if !code.starts_with(&w.got) => {
                ctx.violation(format!("{}: what was written before the failure is not the beginning of the code", name), f())
            }
            Ok(Err(_)) => {}
        }
        w.calls
    };
    let n = once(Fault::None, 0, &mut r);
    // every call; of very many, those at both ends and some of the others
    let mut tried = 0;
    let skip = (n / 1500).max(1);
    for at in 0..n {
        if skip > 1 && at >= 200 && at + 200 < n && r.below(skip) != 0 {
            continue;
        }
        tried += 1;
        once(Fault::Error, at, &mut r);
        once(Fault::Once, at, &mut r);
        if at % 5 == 0 {
            once(Fault::Full, at, &mut r);
        }
    }
    for at in 0..6 {
        once(Fault::Short, at, &mut r);
        once(Fault::Interrupt, at, &mut r);
    }
    ctx.count("write calls made to fail, one after another", tried);
}

pub fn c19(ctx: &Ctx) {
    ctx.rule("processes using the builder are run on generated inputs with every combination of source, target and mode, and with every listed failure (inputs, settings, outputs, size limits); exit status, standard output, messages and files are compared with what they must be; and code is generated into writers that fail at every single write call; one evaluation is one run; distinct = (scenario, input) or (configuration, fault, call)");
    ctx.parallel(if ctx.thorough { 300 } else { 24 }, |j| builds(ctx, j));
    ctx.parallel(if ctx.thorough { 600 } else { 48 }, |j| writers(ctx, j));
}

// ---- the command line tool -------------------------------------------------

fn tool_runs(ctx: &Ctx, j: usize) {
    let mut r = Rng::stream(ctx.seed ^ 0xc24, j as u64, 0);
    let dir = ctx.scratch.join(format!("c{}", j));
    let _ = std::fs::create_dir_all(dir.join("sub/deep"));
    let start = |kind: &'static str, file: &Path, body: &[u8]| -> Run {
        let mut cmd = Command::new(tool("wfcmd"));
        cmd.current_dir(&dir).env_remove("CARGO_MANIFEST_DIR").env_remove("OUT_DIR").arg(file);
        if r_env(j) {
            cmd.env("CARGO_MANIFEST_DIR", "/nowhere").env("OUT_DIR", "/nowhere");
        }
        Run { ctx, dir: dir.clone(), kind, cmd, files: vec![("input.routes".into(), body.to_vec())] }
    };
    let _ = std::fs::write(dir.join("standard input"), "/decoy\n  GET Decoy\n");
    for k in 0..6 {
        let (_, t, code) = match input(ctx, &mut r, if (j * 6 + k) % 16 == 13 { [140, 300, 600][j % 3] } else { *[6, 20, 60].get(k % 3).unwrap() }) {
            Some(x) => x,
            None => {
                ctx.count("inputs without code (not this property's)", 1);
                continue;
            }
        };
        let name = &odd_name(&mut r);
        let p = dir.join(name);
        let _ = std::fs::write(&p, &t);
        decoys(&mut r, &dir, name);
        let arg: PathBuf = if r.pct(50) { p.clone() } else { name.into() };
        let mut run = start("valid route file", &arg, t.as_bytes());
        if let Some(s) = run.go() {
            if run.succeeded(&s) {
                run.equal("standard output", &s.out, code.as_bytes());
            }
        }
        if k % 3 == 0 {
            ctx.sample(format!("{:?} -> {} bytes", lossy(t.as_bytes(), 100), code.len()));
            for kind in ["full device as standard output", "closed pipe as standard output"] {
                let mut run = start(kind, &arg, t.as_bytes());
                ctx.count("evaluations", 1);
                ctx.count(&format!("scenario: {}", kind), 1);
                let o = if kind.starts_with("full") { full().map(Stdio::from) } else { deaf() };
                if let Some(o) = o {
                    match to(&mut run.cmd, &dir, o) {
                        Some((code, err)) => {
                            if code != 128 + 13 {
                                run.failed(&Seen { code, out: vec![], err });
                            }
                        }
                        None => ctx.unknown("the process did not finish".into()),
                    }
                }
            }
            for lim in [0, 1, code.len() / 2, code.len() - 1, code.len()] {
                let mut run = start("limited room for standard output", &arg, t.as_bytes());
                ctx.count("evaluations", 1);
                ctx.count("scenario: limited room for standard output", 1);
                sys::limit(&mut run.cmd, sys::RLIMIT_FSIZE, lim as u64, lim as u64);
                sys::ignore_xfsz(&mut run.cmd);
                let op = dir.join("limited.out");
                if let Ok(of) = std::fs::File::create(&op) {
                    run.cmd.stdin(Stdio::null()).stdout(of).stderr(Stdio::piped());
                    if let Ok(o) = run.cmd.output() {
                        let s = Seen { code: o.status.code().unwrap_or(255), out: vec![], err: o.stderr };
                        if lim < code.len() {
                            run.failed(&s);
                        } else if run.succeeded(&s) {
                            run.equal("standard output", &std::fs::read(&op).unwrap_or_default(), code.as_bytes());
                        }
                    }
                }
            }
        }
    }
    // failures
    for k in 0..9 {
        let bad = refused(&mut r).into_bytes();
        let p = dir.join(if k < 2 || r.pct(60) { "bad.routes" } else { *r.pick(&NAMES) });
        let _ = std::fs::remove_file(&p);
        let _ = std::fs::remove_dir_all(&p);
        let (kind, body): (&'static str, Vec<u8>) = match k {
            0 => {
                // with files of nearly that name
                if let Some((_, t, _)) = input(ctx, &mut r, 5) {
                    for n in ["bad", "bad.routes.routes", "app.routes", "bad.routes~", "bad.routes.bak", "Bad.routes", "sub/bad.routes", "bad.routes.txt"] {
                        let _ = std::fs::write(dir.join(n), &t);
                    }
                }
                ("missing file", vec![])
            }
            1 => {
                let _ = std::fs::create_dir_all(&p);
                // with route files in it
                if let Some((_, t, _)) = input(ctx, &mut r, 5) {
                    for n in ["app.routes", "routes", "index.routes", "mod.routes", "bad.routes", ".routes", "main.routes", "routes.routes", "lib.routes"] {
                        let _ = std::fs::write(p.join(n), &t);
                    }
                }
                ("directory", vec![])
            }
            2 => {
                let mut b = bad.clone();
                b.insert(b.len() / 2, 0xff);
                if std::str::from_utf8(&b).is_ok() {
                    continue;
                }
                ("file that is not text", b)
            }
            8 => match input(ctx, &mut r, 12).and_then(|(c, _, _)| contradictory(ctx, &c, &mut r)) {
                Some(t) => ("file that contradicts itself", t.into_bytes()),
                None => continue,
            },
            _ => ("file that is not a route file", bad),
        };
        if k >= 2 {
            let _ = std::fs::write(&p, &body);
            decoys(&mut r, &dir, p.strip_prefix(&dir).unwrap_or(&p).as_os_str());
        }
        let mut run = start(kind, &p, &body);
        if let Some(s) = run.go() {
            if run.failed(&s) {
                if !s.out.is_empty() {
                    run.bad(&format!("something was printed for a bad input: {:?}", lossy(&s.out, 200)));
                }
                if k < 8 && !err_names(&s.err, &p) {
                    run.bad(&format!("the message does not say which file: {:?}", lossy(&s.err, 200)));
                }
                if k > 2 && k < 8 {
                    let t = String::from_utf8_lossy(&body).to_string();
                    let rep = text::report(&t, "").unwrap_or_default();
                    if rep.is_empty() || !String::from_utf8_lossy(&s.err).contains(&rep) {
                        run.bad("the errors of the route file are not shown");
                    }
                }
            }
        }
    }
    let _ = std::fs::remove_dir_all(&dir);
}

/// A name for a file: anything without a slash at its end.
fn odd_name(r: &mut Rng) -> std::ffi::OsString {
    let base = if r.pct(70) { *r.pick(&NAMES) } else { *r.pick(&MORE_NAMES) };
    let mut v = base.as_bytes().to_vec();
    match r.below(8) {
        0 => v.extend(*r.pick(&[&b" "[..], b"\n", b"\t", b".", b"\r", b"~", b"\xff", b"\\", b"\"", b"'", b"#1", b"?x", b"*", b":1"])),
        1 if !base.contains('/') => {
            let front: &[u8] = *r.pick(&[&b" "[..], b"\n", b"~", b"\xff\xfe", b"#", b"@", b"-", b"--", b"=", b"\"", b"\xef\xbb\xbf", b"file:", b"$HOME", b"."]);
            v = [front, &v].concat();
        }
        2 if !base.contains('/') => v = r.pick(&["*.routes", "[a].routes", "-", "--help", "-h", "--version", "-o", "--", "{a,b}", "help", "NUL", "stdin", "\\x"]).as_bytes().to_vec(),
        _ => {}
    }
    std::ffi::OsString::from_vec(v)
}

/// A name as people give it or an odd one; one that can be told in a line if it must.
fn file_name(r: &mut Rng, told: bool) -> std::ffi::OsString {
    loop {
        let n = if r.pct(60) { r.pick(&NAMES).to_string().into() } else { odd_name(r) };
        let t = n.to_str().unwrap_or("\n");
        if !told || !t.contains(|c: char| c.is_control()) {
            return n;
        }
    }
}

/// Other valid route files, of names that a careless reader of `name` would come to.
fn decoys(r: &mut Rng, dir: &Path, name: &std::ffi::OsStr) {
    let n = name.as_bytes();
    let t = String::from_utf8_lossy(n).to_string();
    let mut all: Vec<Vec<u8>> = vec![
        t.trim().into(),
        t.trim_end().into(),
        t.trim_start_matches('-').into(),
        t.trim_matches(|c| c == '"' || c == '\'').into(),
        t.to_lowercase().into(),
        t.to_uppercase().into(),
        t.clone().into(),
        t.replace('\u{fffd}', "").into(),
        t.replace('\u{fffd}', "?").into(),
        t.replace('\\', "/").into(),
        t.split(|c: char| "#?:=@ ".contains(c)).next().unwrap_or("").into(),
        t.split(|c: char| "#?:=@ ".contains(c)).last().unwrap_or("").into(),
        t.trim_end_matches(".routes").into(),
        t.split('.').next().unwrap_or("").into(),
        [n, b".routes"].concat(),
        [n, b"~"].concat(),
        [n, b".bak"].concat(),
        b"app.routes".to_vec(),
        b"a.routes".to_vec(),
        b"b.routes".to_vec(),
    ];
    r.shuffle(&mut all);
    for d in all {
        let p = dir.join(std::ffi::OsString::from_vec(d.clone()));
        let inside = d.first() != Some(&b'/') && !d.windows(2).any(|w| w == b"..");
        if inside && d != n && !d.is_empty() && !p.exists() {
            let _ = std::fs::write(&p, "/decoy\n  GET Decoy\n");
        }
    }
}

fn r_env(j: usize) -> bool {
    j % 2 == 1
}

pub fn c24(ctx: &Ctx) {
    ctx.rule("the command line tool is run on generated route files (valid, damaged, missing, not text) and with outputs that fail; one evaluation compares exit status, standard output and messages of one run with the library's code for the file or with what a failure must look like; distinct = (scenario, input)");
    ctx.parallel(if ctx.thorough { 800 } else { 64 }, |j| tool_runs(ctx, j));
}
