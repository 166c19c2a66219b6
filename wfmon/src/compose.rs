//! Configurations put together in other ways: mounted, written with macros,
//! listed in another order.

use crate::app::{self, Fate, Router};
use crate::cfg::*;
use crate::ctx::{hash, Ctx};
use crate::gen::{self, Overlap, Prof};
use crate::reqs::{self, Plan};
use crate::rng::Rng;
use crate::route::{self, Case, Source};
use crate::sys;
use std::path::{Path, PathBuf};

// ---- mounting --------------------------------------------------------------

/// A configuration to be built by mounting: what is mounted where, in order.
#[derive(Clone, Debug)]
struct Plot {
    headers: Vec<String>,
    root: Node,
    mounts: Vec<(String, Plot)>,
}

/// Take apart: some literal children of the root become mounted configurations.
fn plot(n: &Node, depth: usize, r: &mut Rng) -> Plot {
    let mut own = Node { query: n.query.clone(), res: n.res.clone(), kids: vec![] };
    let mut mounts = vec![];
    for (s, k) in &n.kids {
        match s {
            Seg::Lit(l) if depth < 4 && r.pct(60) => mounts.push((l.clone(), plot(k, depth + 1, r))),
            _ => own.kids.push((s.clone(), k.clone())),
        }
    }
    r.shuffle(&mut mounts);
    Plot { headers: vec![], root: own, mounts }
}

fn plots(p: &mut Plot, f: &mut dyn FnMut(&mut Plot)) {
    f(p);
    for (_, q) in p.mounts.iter_mut() {
        plots(q, f);
    }
}

/// What it must come to.
fn expected(p: &Plot) -> Cfg {
    let mut c = Cfg { headers: p.headers.clone(), root: p.root.clone() };
    for (at, q) in &p.mounts {
        let m = expected(q);
        c.headers.extend(m.headers);
        let mut seen = vec![];
        for h in std::mem::take(&mut c.headers) {
            if !seen.contains(&h) {
                seen.push(h);
            }
        }
        c.headers = seen;
        c.root.kids.push((Seg::Lit(at.clone()), m.root));
    }
    c
}

/// The library's own doing.
fn mounted(p: &Plot, order: usize) -> wayfinder::RouteConfig {
    let mut c = lcfg(&Cfg { headers: p.headers.clone(), root: p.root.clone() });
    for (k, (at, q)) in p.mounts.iter().enumerate() {
        let m = mounted(q, order);
        c = match (order + k) % 3 {
            0 => c.mount(at, m),
            1 => c.mount(at.clone(), m),
            _ => c.mount(at.as_str(), m),
        };
    }
    c
}

fn make_plot(r: &mut Rng, prof: &Prof) -> Plot {
    let c = gen::config(r, prof);
    let mut p = plot(&c.root, 0, r);
    let mut count = 0;
    plots(&mut p, &mut |_| count += 1);
    // every header somewhere, some in several places, in any order
    let hs = c.headers.clone();
    let mut homes: Vec<Vec<usize>> = hs.iter().map(|_| vec![r.below(count)]).collect();
    for h in homes.iter_mut() {
        while r.pct(45) {
            h.push(r.below(count));
        }
    }
    let mut k = 0;
    plots(&mut p, &mut |q| {
        let mut mine: Vec<String> =
            hs.iter().zip(&homes).filter(|(_, home)| home.contains(&k)).map(|(h, _)| h.clone()).collect();
        r.shuffle(&mut mine);
        q.headers = mine;
        k += 1;
    });
    p
}

fn same(want: &Cfg, got: &Cfg) -> Result<(), String> {
    if want == got {
        return Ok(());
    }
    if want.headers != got.headers {
        return Err(format!("headers are {:?}, expected {:?}", got.headers, want.headers));
    }
    let (a, b) = (plain(want), plain(got));
    for (n, (x, y)) in a.lines().zip(b.lines()).enumerate() {
        if x != y {
            return Err(format!("line {} is {:?}, expected {:?}", n + 1, y, x));
        }
    }
    Err("routes are missing or added".into())
}

pub fn c17(ctx: &Ctx) {
    ctx.rule("random configurations are taken apart into a base and mounted configurations (several, nested, headers spread and repeated) and put together again by mounting; one evaluation compares the result with the whole, or one answer of the router generated from it with the reference reading of the whole; distinct = configuration, or (shape, path, method, kind of answer)");
    let prof = Prof { headers: 60, kids: 5, budget: 25, ..Prof::default() };
    let n = if ctx.thorough { 1500 } else { 200 };
    let p2 = prof.clone();
    ctx.parallel(n, |j| {
        for k in 0..30 {
            let mut r = Rng::stream(ctx.seed ^ 0xc17, j as u64, k);
            let (p, wild) = if r.pct(50) {
                (make_plot(&mut r, &p2), false)
            } else {
                // mounting does not care whether a router can be made of it
                let mut c = crate::text::any(&mut r);
                let mut p = plot(&c.root, 0, &mut r);
                let hs = std::mem::take(&mut c.headers);
                plots(&mut p, &mut |q| {
                    q.headers = hs.iter().filter(|_| r.pct(50)).cloned().collect();
                    let mut seen = vec![];
                    q.headers.retain(|h| {
                        let new = !seen.contains(h);
                        seen.push(h.clone());
                        new
                    });
                });
                (p, true)
            };
            let want = expected(&p);
            ctx.count("evaluations", 1);
            ctx.count(if wild { "arbitrary configurations put together" } else { "routable configurations put together" }, 1);
            let mut m = 0;
            plots(&mut p.clone(), &mut |q| m += q.mounts.len() as u64);
            ctx.count("mounts", m);
            ctx.distinct(want.shape());
            if k == 3 && j % 20 == 0 {
                ctx.sample(format!("{:?}", plain(&want).chars().take(200).collect::<String>()));
            }
            let files = || vec![("expected.routes".to_string(), plain(&want).into_bytes()), ("mounts".to_string(), format!("{:#?}", p).into_bytes())];
            match ctx.guard(&plain(&want), || from_lib(&mounted(&p, k as usize))) {
                Err(e) => ctx.violation(format!("mounting panicked: {}", e), files()),
                Ok(got) => {
                    if let Err(e) = same(&want, &got) {
                        ctx.violation(format!("mounting gives something else: {}", e), files());
                    }
                }
            }
        }
    });
    let mut ck = crate::routing::plain_check(ctx);
    ck.make = Box::new(move |r, k| {
        let p = make_plot(r, &prof);
        let cfg = expected(&p);
        // (a panic in here would be the library's: mounting was tried above with the same kinds of input)
        let source = match std::panic::catch_unwind(|| mounted(&p, k)) {
            Ok(c) => Source::Given(c),
            Err(_) => Source::Lib,
        };
        Case { label: "put together by mounting".into(), cfg, source, extra: "String::new()".into(), more: vec![] }
    });
    ck.specials = vec![];
    ck.batches = if ctx.thorough { 150 } else { 20 };
    route::run(ctx, &ck);
}

// ---- macros ----------------------------------------------------------------

const TYPES: [&str; 16] = [
    "String", "u32", "Uuid", "i64", "Ipv4Addr", "a_kind", "Vec<u8>", "Option<String>", "std::net::IpAddr", "(u8, u16)",
    "[u8; 4]", "&'static str", "Result<u8, String>", "crate::support::Tok", "HashMap<String, Vec<u8>>", "bool",
];
const NAMES: [&str; 29] = [
    "type", "match", "static",
    "Index", "Show", "people", "People", "Admin", "x", "a_b", "A1", "_x", "get", "post", "put", "delete", "Get", "param", "root",
    "nested", "modules", "params", "is_redirect", "String", "Route", "\u{e9}t\u{e9}", "\u{65e5}\u{672c}", "header", "self_",
];
const USES: [&str; 13] = [
    "type Id = u32;",
    "const LIMIT: usize = 10;",
    "use a; use b;",
    "use std::net::Ipv4Addr; use x::y as z;",
    "use a; type B = a::C; use d::e;",
    "use uuid::Uuid;",
    "use std::net::Ipv4Addr;",
    "use crate::support::Tok;",
    "use crate::support::Tok as Ticket;",
    "use std::collections::{HashMap, HashSet};",
    "use a::b::c::d::E;",
    "use prelude::*;",
    "use x;",
];

fn mname(r: &mut Rng) -> String {
    if r.pct(20) {
        format!("{}{}", r.pick(&NAMES), r.below(100))
    } else {
        r.pick(&NAMES).to_string()
    }
}

fn mparam(r: &mut Rng) -> P {
    P { name: mname(r), ty: r.pick(&TYPES).to_string() }
}

fn mres(r: &mut Rng) -> Res {
    let redirect = r.pct(25);
    Res {
        method: r.below(4),
        modules: (0..*r.pick(&[0, 0, 1, 1, 2, 3, 6])).map(|_| mname(r)).collect(),
        name: mname(r),
        redirect,
        query: if redirect { vec![] } else { (0..*r.pick(&[0, 0, 1, 2, 4])).map(|_| mparam(r)).collect() },
    }
}

fn mnode(r: &mut Rng, depth: usize) -> Node {
    let mut n = Node::default();
    for _ in 0..*r.pick(&[0, 0, 1, 2]) {
        n.query.push(mparam(r));
    }
    for _ in 0..*r.pick(&[0, 1, 1, 2, 4]) {
        n.res.push(mres(r));
    }
    if depth > 0 {
        for _ in 0..*r.pick(&[0, 1, 2, 3]) {
            let s = if r.pct(40) { Seg::Par(mparam(r)) } else { Seg::Lit(mname(r)) };
            n.kids.push((s, mnode(r, depth - 1)));
        }
    }
    if n.res.is_empty() && n.kids.is_empty() {
        n.res.push(mres(r));
    }
    n
}

fn xparam(p: &P) -> String {
    format!("param!({}: {})", p.name, p.ty)
}

fn xres(x: &Res, r: &mut Rng) -> String {
    let m = ["get", "post", "put", "delete"][x.method];
    let mut h: Vec<String> = x.modules.clone();
    h.push(x.name.clone());
    let mut s = format!("{}!({}{}", m, if x.redirect { "-> " } else { "" }, h.join(if r.pct(20) { " :: " } else { "::" }));
    for q in &x.query {
        // any expression of the right type will do
        if r.pct(15) {
            s.push_str(&format!(", Param::new({:?}, {:?})", q.name, q.ty));
        } else {
            s.push_str(&format!(", {}", xparam(q)));
        }
    }
    s.push(')');
    s
}

fn xroutes(n: &Node, r: &mut Rng) -> String {
    format!(
        "Routes {{ query_parameters: vec![{}], resources: vec![{}], routes: vec![{}] }}",
        n.query.iter().map(xparam).collect::<Vec<_>>().join(", "),
        n.res.iter().map(|x| xres(x, r)).collect::<Vec<_>>().join(", "),
        n.kids
            .iter()
            .map(|(s, k)| {
                let at = match s {
                    Seg::Lit(l) => format!("{:?}", l),
                    Seg::Par(p) => xparam(p),
                };
                format!("NestedRoutes::new({}, {})", at, xroutes(k, r))
            })
            .collect::<Vec<_>>()
            .join(", ")
    )
}

fn library(ctx: &Ctx) -> Option<PathBuf> {
    let target = std::env::var("CARGO_TARGET_DIR").map(PathBuf::from).unwrap_or_else(|_| ctx.home.join("target"));
    let s = std::fs::read_to_string(target.join("rlib.path")).ok()?;
    let p = PathBuf::from(s.trim());
    if p.is_file() {
        Some(p)
    } else {
        None
    }
}

fn macro_batch(ctx: &Ctx, lib: &Path, j: usize) {
    let mut r = Rng::stream(ctx.seed ^ 0xc18, j as u64, 0);
    let mut cfgs: Vec<Cfg> = vec![];
    let mut src = String::from("#[macro_use] extern crate wayfinder;\n#[allow(unused_imports)] use wayfinder::{NestedRoutes, Param, PathSegment, Resource, RouteConfig, Routes, Header};\n");
    let per = 25;
    for k in 0..per {
        let c = if k % 5 == 4 {
            // one that has a router, so that the code can be compared as well
            let mut c = gen::config(&mut r, &Prof { odd: 0, lib_types: false, redirects: 2, ..Prof::default() });
            // the redirect form takes no query parameters
            fn bare(n: &mut Node) {
                n.res.retain(|x| !x.redirect || x.query.is_empty());
                for (_, k) in n.kids.iter_mut() {
                    bare(k);
                }
            }
            bare(&mut c.root);
            c.headers.retain(|h| h.starts_with("use "));
            c
        } else {
            let hs: Vec<String> = (0..*r.pick(&[0, 0, 1, 2, 4])).map(|_| r.pick(&USES).to_string()).collect();
            let d = r.below(4);
            Cfg { headers: hs, root: mnode(&mut r, d) }
        };
        src.push_str(&format!(
            "fn c{}() -> RouteConfig {{ RouteConfig {{ headers: vec![{}], routes: {} }} }}\n",
            k,
            c.headers.iter().map(|h| format!("header!({})", h)).collect::<Vec<_>>().join(", "),
            xroutes(&c.root, &mut r)
        ));
        cfgs.push(c);
    }
    src.push_str("fn main() {\n    let all: Vec<fn() -> RouteConfig> = vec![");
    for k in 0..per {
        src.push_str(&format!("c{}, ", k));
    }
    src.push_str("];\n    for f in all {\n        let c = f();\n        let r = std::panic::catch_unwind(|| { let mut w = vec![]; wayfinder::gen::codegen(&mut w, &c).map(|_| w).ok() }).ok().and_then(|x| x);\n        println!(\"{:?}\\x1f{:?}\", c, r.map(|w| String::from_utf8_lossy(&w).to_string()));\n    }\n}\n");
    let dir = ctx.scratch.join(format!("m{}", j));
    let _ = std::fs::create_dir_all(&dir);
    if std::fs::write(dir.join("macros.rs"), &src).is_err() {
        return ctx.unknown("cannot write scratch files".into());
    }
    let deps = lib.parent().map(|p| p.to_path_buf()).unwrap_or_default();
    let mut c = app::rustc();
    c.current_dir(&dir).args(&["--edition", "2018", "-A", "warnings", "--error-format=short", "-C", "debuginfo=0", "-C", "opt-level=0"]);
    c.arg("--extern").arg(format!("wayfinder={}", lib.display()));
    c.arg("-L").arg(format!("dependency={}", deps.display()));
    c.arg("-L").arg(format!("dependency={}", deps.join("deps").display()));
    c.args(&["-o", "macros", "macros.rs"]);
    let d = sys::run(&mut c, &dir, "rustc", 150);
    match d.end {
        sys::End::Exit(0) => {}
        sys::End::Exit(_) => {
            let e = String::from_utf8_lossy(&d.err).to_string();
            let what: Vec<&str> = e.lines().filter(|l| l.contains(": error")).take(6).collect();
            if what.iter().any(|l| l.starts_with("macros.rs")) {
                ctx.violation(
                    format!("configurations written with the macros do not compile\n{}", what.join("\n")),
                    vec![("macros.rs".into(), src.into_bytes()), ("errors".into(), d.err)],
                );
            } else {
                ctx.unknown(format!("rustc: {}", e.chars().take(400).collect::<String>()));
            }
            return;
        }
        _ => return ctx.unknown("rustc did not finish".into()),
    }
    let mut c = std::process::Command::new(dir.join("macros"));
    sys::limit(&mut c, sys::RLIMIT_CPU, 30, 32);
    let d = sys::run(&mut c, &dir, "run", 100);
    let out = String::from_utf8_lossy(&d.out).to_string();
    let lines: Vec<&str> = out.lines().collect();
    match d.end {
        sys::End::Exit(0) if lines.len() == per => {}
        sys::End::Exit(_) | sys::End::Signal(6) | sys::End::Signal(11) => {
            ctx.violation(
                format!("a program using the macros failed: {}", String::from_utf8_lossy(&d.err).chars().take(400).collect::<String>()),
                vec![("macros.rs".into(), src.into_bytes())],
            );
            return;
        }
        _ => return ctx.unknown("a program using the macros did not finish".into()),
    }
    for (k, c) in cfgs.iter().enumerate() {
        let lib = lcfg(c);
        let mut f = lines[k].splitn(2, '\x1f');
        let got = f.next().unwrap_or("");
        let code = f.next().unwrap_or("");
        ctx.count("evaluations", 1);
        ctx.count("configurations written with macros", 1);
        ctx.count("resources written with macros", c.entries().len() as u64);
        ctx.distinct(hash(got));
        let want = format!("{:?}", lib);
        let line = src.lines().find(|l| l.starts_with(&format!("fn c{}()", k))).unwrap_or("").to_string();
        if k == 0 {
            ctx.sample(line.chars().take(240).collect());
        }
        if got != want {
            let n = got.bytes().zip(want.bytes()).take_while(|(a, b)| a == b).count();
            let from = n.saturating_sub(60);
            let cut = |s: &str| String::from_utf8_lossy(&s.as_bytes()[from.min(s.len())..(n + 60).min(s.len())]).to_string();
            ctx.violation(
                format!("macros make something else: ...{}... instead of ...{}...", cut(got), cut(&want)),
                vec![("macro".into(), line.into_bytes()), ("got".into(), got.as_bytes().to_vec()), ("expected".into(), want.into_bytes())],
            );
            continue;
        }
        // and the same from a route file, where one can say it
        if c.writable() {
            let t = plain(c);
            match ctx.guard(&t, || wayfinder::parse::route_config(&t).map(|(_, c)| c).map_err(|e| format!("{:?}", e))) {
                Ok(Ok(x)) => {
                    ctx.count("evaluations", 1);
                    ctx.count("compared with a route file", 1);
                    if format!("{:?}", x) != got {
                        ctx.violation("the macros and the same route file give different configurations".into(), vec![
                            ("macro".into(), line.clone().into_bytes()),
                            ("text.routes".into(), t.clone().into_bytes()),
                            ("from-text".into(), format!("{:?}", x).into_bytes()),
                            ("from-macros".into(), got.as_bytes().to_vec()),
                        ]);
                        continue;
                    }
                    let mine = ctx
                        .guard(&t, || {
                            let mut w = vec![];
                            wayfinder::gen::codegen(&mut w, &x).map(|_| String::from_utf8_lossy(&w).to_string()).ok()
                        })
                        .ok()
                        .and_then(|x| x);
                    if mine.is_some() {
                        ctx.count("generated code compared", 1);
                    }
                    if format!("{:?}", mine) != code {
                        ctx.violation("code generated from macros and from the same route file differs".into(), vec![
                            ("macro".into(), line.into_bytes()),
                            ("text.routes".into(), t.into_bytes()),
                        ]);
                    }
                }
                _ => ctx.count("route files refused (not this property's)", 1),
            }
        }
    }
    let _ = std::fs::remove_dir_all(&dir);
}

pub fn c18(ctx: &Ctx) {
    ctx.rule("random configurations are written as Rust programs that use the macros, compiled against the library and run; one evaluation compares the value a program made with the one intended, or with the one (and the code) from the same route file; distinct = configuration");
    let lib = match library(ctx) {
        Some(l) => l,
        None => {
            ctx.unknown("the library's file was not found".into());
            return;
        }
    };
    ctx.parallel(if ctx.thorough { 200 } else { 24 }, |j| macro_batch(ctx, &lib, j));
}

// ---- order -----------------------------------------------------------------

fn reorder(n: &mut Node, r: &mut Rng) {
    match r.below(3) {
        0 => n.kids.reverse(),
        _ => r.shuffle(&mut n.kids),
    }
    match r.below(3) {
        0 => n.res.reverse(),
        _ => r.shuffle(&mut n.res),
    }
    for (_, k) in n.kids.iter_mut() {
        reorder(k, r);
    }
}

fn order_batch(ctx: &Ctx, j: usize) {
    let per = 5;
    let dir = ctx.scratch.join(format!("o{}", j));
    let mut routers = vec![];
    let mut fates: Vec<Option<Fate>> = vec![];
    let mut reqs_of = vec![];
    let mut cfgs = vec![];
    for k in 0..per {
        let mut r = Rng::stream(ctx.seed ^ 0xc23, j as u64, k);
        let p = Prof {
            overlap: if k % 2 == 0 { Overlap::Any } else { Overlap::Clean },
            overlap_pct: 60,
            family: 65,
            kids: *r.pick(&[3, 5, 8]),
            budget: *r.pick(&[12, 30, 50]),
            redirects: 2,
            wide: 10,
            ..Prof::default()
        };
        let c = gen::config(&mut r, &p);
        let rq = reqs::requests(&c, &mut r, &Plan { per_entry: 3, mutants: 120, bytes: 0, cap: 500 });
        let lines: Vec<String> = rq.iter().map(|q| q.line()).collect();
        for v in 0..3 {
            let mut d = c.clone();
            if v > 0 {
                reorder(&mut d.root, &mut r);
            }
            match route::generate(ctx, &lcfg(&d)) {
                Ok(code) => {
                    routers.push(Router { code, cfg: d.clone(), extra: "String::new()".into(), lines: lines.clone() });
                    fates.push(None);
                }
                Err(e) => {
                    routers.push(Router { code: String::new(), cfg: d.clone(), extra: "String::new()".into(), lines: lines.clone() });
                    fates.push(Some(Fate::Refused { own: true, errors: e }));
                }
            }
            cfgs.push(d);
        }
        reqs_of.push(rq);
    }
    if let Some(b) = app::build(&dir, &routers, &mut fates) {
        app::run(&dir, &b, &routers, &mut fates, 0);
    }
    for k in 0..per as usize {
        let fate: Vec<&Option<Fate>> = (0..3).map(|v| &fates[3 * k + v]).collect();
        let files = |v: usize| {
            vec![
                ("one.routes".to_string(), plain(&cfgs[3 * k]).into_bytes()),
                ("other.routes".to_string(), plain(&cfgs[3 * k + v]).into_bytes()),
            ]
        };
        for v in 1..3 {
            match (fate[0], fate[v]) {
                (Some(Fate::Ran(a)), Some(Fate::Ran(b))) => {
                    ctx.count("pairs of routers compared", 1);
                    let mut told = 0;
                    let mut n = 0;
                    for (i, q) in reqs_of[k].iter().enumerate() {
                        if let (Some(Some(x)), Some(Some(y))) = (a.get(i), b.get(i)) {
                            n += 1;
                            let h = cfgs[3 * k].shape() ^ hash(&format!("{} {}", q.line(), x.out.kind()));
                            ctx.distinct(h);
                            let same = match (&x.out, &y.out) {
                                // finding K3, or another property's: the message holds a file's name
                                (crate::spec::Out::Panic(_), crate::spec::Out::Panic(_)) => true,
                                (a, b) => a == b && x.p_struct == y.p_struct && x.p_route == y.p_route,
                            };
                            if !same && told < 2 {
                                told += 1;
                                let mut f = files(v);
                                f.push(("request".into(), q.show().into_bytes()));
                                ctx.violation(
                                    format!(
                                        "the order of siblings changes an answer\n{} -> {}\nreordered -> {}{}",
                                        q.show(),
                                        x.out.show(),
                                        y.out.show(),
                                        route::brief(&cfgs[3 * k])
                                    ),
                                    f,
                                );
                            }
                        }
                    }
                    ctx.count("evaluations", n);
                    if k == 0 && !reqs_of[k].is_empty() {
                        let q = &reqs_of[k][reqs_of[k].len() / 2];
                        ctx.sample(format!("{} asked of two orders of {} routes", q.show(), cfgs[3 * k].entries().len()));
                    }
                }
                // a router in one order only
                (Some(Fate::Ran(_)), Some(Fate::Refused { errors, .. })) | (Some(Fate::Refused { errors, .. }), Some(Fate::Ran(_))) => {
                    ctx.violation(format!("there is a router for one order of siblings only\n{}", errors), files(v))
                }
                (Some(Fate::Ran(_)), Some(Fate::Died { how, .. })) | (Some(Fate::Died { how, .. }), Some(Fate::Ran(_))) => {
                    ctx.violation(format!("the router for one order of siblings only {}", how), files(v))
                }
                (Some(Fate::Unknown(s)), _) | (_, Some(Fate::Unknown(s))) => ctx.unknown(s.clone()),
                _ => ctx.count("pairs without any router", 1),
            }
        }
    }
    let _ = std::fs::remove_dir_all(&dir);
}

pub fn c23(ctx: &Ctx) {
    ctx.rule("random configurations and two reorderings of their siblings (routes, parameters, resources, at every level) are generated, compiled and asked the same requests; one evaluation compares two answers to one request; distinct = (configuration, request, kind of answer)");
    ctx.parallel(if ctx.thorough { 400 } else { 32 }, |j| order_batch(ctx, j));
}
