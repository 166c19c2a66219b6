//! Configurations that contradict themselves must not get a router.

use crate::app;
use crate::cfg::*;
use crate::ctx::Ctx;
use crate::gen::{self, Overlap, Prof};
use crate::rng::Rng;
use crate::route::{self, Source};
use crate::sys;
use std::collections::HashSet;
use std::path::Path;

const KINDS: [&str; 14] = [
    "a literal segment twice on one level",
    "a parameter segment twice on one level",
    "two resources for one method and path",
    "a resource and a redirect for one method and path",
    "two redirects for one method and path",
    "one handler at two places",
    "one handler spelled in two ways",
    "two different parameters at one position",
    "a redirect to a handler that does not exist",
    "a redirect to a module that does not exist",
    "a redirect to what is only a redirect itself",
    "a redirect without a path parameter of its target",
    "a redirect without a query parameter of its target",
    "one parameter name twice for one handler",
];

fn node_at<'a>(c: &'a mut Cfg, path: &[usize]) -> &'a mut Node {
    let mut n = &mut c.root;
    for k in path {
        n = &mut n.kids[*k].1;
    }
    n
}

fn places(c: &Cfg) -> Vec<Vec<usize>> {
    fn go(n: &Node, at: &mut Vec<usize>, out: &mut Vec<Vec<usize>>) {
        out.push(at.clone());
        for (k, (_, m)) in n.kids.iter().enumerate() {
            at.push(k);
            go(m, at, out);
            at.pop();
        }
    }
    let mut out = vec![];
    go(&c.root, &mut vec![], &mut out);
    out
}

fn res(method: usize, name: &str) -> Res {
    Res { method, modules: vec![], name: name.into(), redirect: false, query: vec![] }
}

fn leaf(x: Res) -> Node {
    Node { query: vec![], res: vec![x], kids: vec![] }
}

fn put<T>(v: &mut Vec<T>, x: T, r: &mut Rng) {
    let at = r.below(v.len() + 1);
    v.insert(at, x);
}

/// The same name in another spelling with the same Rust name.
fn respell(s: &str) -> Option<String> {
    let other = if s.chars().next()?.is_ascii_uppercase() { snake(s) } else { caps(s) };
    if other != s && !other.contains("__") && !s.contains("__") && caps(&other) == caps(s) && snake(&caps(&other)) == snake(&caps(s)) {
        Some(other)
    } else {
        None
    }
}

/// Everything one level below has these names already.
fn names_in_scope(c: &Cfg, path: &[usize]) -> HashSet<String> {
    let mut s = HashSet::new();
    let mut n = &c.root;
    s.extend(n.query.iter().map(|p| p.name.clone()));
    for k in path {
        if let Seg::Par(p) = &n.kids[*k].0 {
            s.insert(p.name.clone());
        }
        n = &n.kids[*k].1;
        s.extend(n.query.iter().map(|p| p.name.clone()));
    }
    s
}

fn inject(c: &mut Cfg, kind: usize, r: &mut Rng) -> bool {
    let all = places(c);
    let with = |f: &dyn Fn(&Node) -> bool, c: &mut Cfg| -> Vec<Vec<usize>> {
        all.iter().filter(|p| f(node_at(c, p))).cloned().collect()
    };
    let a_handler = |r: &mut Rng, c: &Cfg| -> Option<(Vec<String>, String)> {
        let es = c.entries();
        let es: Vec<&Entry> = es.iter().filter(|e| !e.res.redirect).collect();
        if es.is_empty() {
            return None;
        }
        let e = r.pick(&es);
        Some((e.res.modules.clone(), e.res.name.clone()))
    };
    match kind {
        0 | 1 => {
            let ps = with(&|n| n.kids.iter().any(|(s, _)| matches!(s, Seg::Lit(_)) == (kind == 0)), c);
            if ps.is_empty() {
                return false;
            }
            let n = node_at(c, r.pick(&ps));
            let segs: Vec<Seg> =
                n.kids.iter().map(|(s, _)| s.clone()).filter(|s| matches!(s, Seg::Lit(_)) == (kind == 0)).collect();
            let s = r.pick(&segs).clone();
            let k = if r.pct(50) {
                leaf(res(r.below(4), "InjectedTwin"))
            } else {
                Node { kids: vec![(Seg::Lit("below".into()), leaf(res(0, "InjectedBelow")))], ..Node::default() }
            };
            put(&mut n.kids, (s, k), r);
            true
        }
        2 | 3 | 4 => {
            let ps = with(&|n| n.res.iter().any(|x| kind != 4 || x.redirect), c);
            if ps.is_empty() {
                return false;
            }
            let p = r.pick(&ps).clone();
            let h = a_handler(r, c);
            let n = node_at(c, &p);
            let x = {
                let xs: Vec<&Res> = n.res.iter().filter(|x| kind != 4 || x.redirect).collect();
                (*r.pick(&xs)).clone()
            };
            let mut y = res(x.method, "InjectedOther");
            match kind {
                2 if x.redirect => return false,
                3 if x.redirect => {} // an ordinary one beside a redirect
                3 => {
                    // a redirect for the same, to itself so that all parameters fit
                    y = Res { redirect: true, ..x.clone() };
                }
                4 => {
                    // exactly the same redirect again, or one to elsewhere
                    y = x.clone();
                    if r.pct(50) {
                        if let Some((m, nm)) = h {
                            y.modules = m;
                            y.name = nm;
                        }
                    }
                }
                _ => {}
            }
            put(&mut n.res, y, r);
            true
        }
        5 | 6 => {
            let (m, nm) = match a_handler(r, c) {
                Some(h) => h,
                None => return false,
            };
            let (mut m, mut nm) = (m, nm);
            if kind == 6 {
                let which = r.below(m.len() + 1);
                if which == m.len() {
                    match respell(&nm) {
                        Some(x) => nm = x,
                        None => return false,
                    }
                } else {
                    match respell(&m[which]) {
                        Some(x) => m[which] = x,
                        None => return false,
                    }
                }
            }
            let p = r.pick(&all).clone();
            let n = node_at(c, &p);
            let x = Res { modules: m, ..res(r.below(4), &nm) };
            if n.res.iter().any(|y| y.method == x.method) || r.pct(50) {
                if n.kids.iter().any(|(s, _)| matches!(s, Seg::Lit(l) if l == "injected")) {
                    return false;
                }
                put(&mut n.kids, (Seg::Lit("injected".into()), leaf(x)), r);
            } else {
                put(&mut n.res, x, r);
            }
            true
        }
        7 => {
            let ps = with(&|n| n.kids.iter().any(|(s, _)| matches!(s, Seg::Par(_))), c);
            if ps.is_empty() {
                return false;
            }
            let path = r.pick(&ps).clone();
            let used = names_in_scope(c, &path);
            let n = node_at(c, &path);
            let p = n
                .kids
                .iter()
                .find_map(|(s, _)| match s {
                    Seg::Par(p) => Some(p.clone()),
                    _ => None,
                })
                .unwrap();
            let q = match r.below(3) {
                0 => P { name: "injected_name".into(), ty: p.ty.clone() },
                1 => P { name: p.name.clone(), ty: if p.ty == "u32" { "String".into() } else { "u32".into() } },
                _ => P { name: "injected_name".into(), ty: if p.ty == "u32" { "String".into() } else { "u32".into() } },
            };
            if used.contains(&q.name) {
                return false;
            }
            let k = match r.below(3) {
                0 => leaf(res(r.below(4), "InjectedDyn")),
                1 => Node { kids: vec![(Seg::Lit("below".into()), leaf(res(0, "InjectedBelow")))], ..Node::default() },
                _ => Node { res: vec![res(0, "InjectedDyn")], kids: vec![(Seg::Lit("below".into()), leaf(res(0, "InjectedBelow")))], ..Node::default() },
            };
            put(&mut n.kids, (Seg::Par(q), k), r);
            true
        }
        8 | 9 | 10 => {
            let (m, nm): (Vec<String>, String) = match kind {
                8 => match a_handler(r, c) {
                    Some((m, _)) => (m, "InjectedNowhere".into()),
                    None => return false,
                },
                9 => match a_handler(r, c) {
                    Some((mut m, nm)) => {
                        put(&mut m, "InjectedModule".into(), r);
                        (m, nm)
                    }
                    None => return false,
                },
                _ => (vec![], "InjectedLoop".into()),
            };
            let p = r.pick(&all).clone();
            let n = node_at(c, &p);
            let mut free: Vec<usize> = (0..4).filter(|k| !n.res.iter().any(|x| x.method == *k)).collect();
            r.shuffle(&mut free);
            if free.len() < 2 {
                return false;
            }
            let x = Res { redirect: true, modules: m, ..res(free[0], &nm) };
            if kind == 10 {
                put(&mut n.res, Res { method: free[1], ..x.clone() }, r);
            }
            put(&mut n.res, x, r);
            true
        }
        11 | 12 => {
            // a redirect somewhere of its own, with all but one of what the target needs
            let t = {
                let es = c.entries();
                let es: Vec<&Entry> = es
                    .iter()
                    .filter(|e| {
                        !e.res.redirect
                            && match kind {
                                12 => !e.queries().is_empty(),
                                _ => !e.params().is_empty(),
                            }
                    })
                    .collect();
                if es.is_empty() {
                    return false;
                }
                let e = *r.pick(&es);
                (
                    e.res.modules.clone(),
                    e.res.name.clone(),
                    e.params().into_iter().cloned().collect::<Vec<P>>(),
                    e.queries().into_iter().cloned().collect::<Vec<P>>(),
                )
            };
            let (modules, name, mut ps, mut qs) = t;
            if !c.root.query.is_empty() && kind != 12 && c.root.query.iter().any(|q| !qs.contains(q)) {
                return false;
            }
            qs.retain(|q| !c.root.query.contains(q));
            match kind {
                11 => {
                    let k = r.below(ps.len());
                    ps.remove(k);
                }
                _ => {
                    if qs.is_empty() {
                        return false;
                    }
                    let k = r.below(qs.len());
                    qs.remove(k);
                }
            }
            if c.root.kids.iter().any(|(s, _)| matches!(s, Seg::Lit(l) if l == "injected")) {
                return false;
            }
            let mut n = leaf(Res { method: r.below(4), modules, name, redirect: true, query: qs });
            for p in ps.into_iter().rev() {
                n = Node { kids: vec![(Seg::Par(p), n)], ..Node::default() };
            }
            put(&mut c.root.kids, (Seg::Lit("injected".into()), n), r);
            true
        }
        _ => {
            // a name that is there already: as path parameter, inherited or own query parameter
            let mut cands = vec![];
            for p in &all {
                if !names_in_scope(c, p).is_empty() {
                    cands.push(p.clone());
                }
            }
            if cands.is_empty() {
                return false;
            }
            let at = r.pick(&cands).clone();
            let mut names: Vec<String> = names_in_scope(c, &at).into_iter().collect();
            names.sort();
            let p = P { name: r.pick(&names).clone(), ty: r.pick(&["String", "u32"]).to_string() };
            let n = node_at(c, &at);
            match r.below(3) {
                0 if !n.kids.iter().any(|(s, _)| matches!(s, Seg::Par(_)) || matches!(s, Seg::Lit(l) if l == "injected")) => {
                    let k = Node { kids: vec![(Seg::Par(p), leaf(res(0, "InjectedTwice")))], ..Node::default() };
                    put(&mut n.kids, (Seg::Lit("injected".into()), k), r);
                }
                1 => {
                    let xs: Vec<usize> = (0..n.res.len()).filter(|k| !n.res[*k].redirect).collect();
                    if xs.is_empty() {
                        return false;
                    }
                    let k = *r.pick(&xs);
                    put(&mut n.res[k].query, p, r);
                }
                _ => {
                    if n.res.iter().all(|x| x.redirect) {
                        return false;
                    }
                    put(&mut n.query, p, r);
                }
            }
            true
        }
    }
}

struct Item {
    kind: usize,
    cfg: Cfg,
    source: Source,
    base: bool,
    code: Option<String>,
    how: String,
}

fn batch(ctx: &Ctx, j: usize) {
    let mut items: Vec<Item> = vec![];
    let mut r = Rng::stream(ctx.seed ^ 0xc20, j as u64, 0);
    for k in 0..20 {
        let p = Prof {
            overlap: Overlap::Any,
            redirects: *r.pick(&[0, 1, 3]),
            query: 45,
            params: 60,
            budget: *r.pick(&[3, 8, 20]),
            modules: 3,
            odd: 5,
            ..Prof::default()
        };
        let base = gen::config(&mut r, &p);
        let kind = (j * 20 + k) % KINDS.len();
        let mut c = base.clone();
        let mut ok = false;
        for _ in 0..6 {
            c = base.clone();
            if inject(&mut c, kind, &mut r) && gen::sane(&c).is_err() {
                ok = true;
                break;
            }
        }
        if !ok {
            continue;
        }
        for (cfg, is_base) in [(base, true), (c, false)] {
            let source = route::source(&cfg, &mut r);
            items.push(Item { kind, cfg, source, base: is_base, code: None, how: String::new() });
        }
    }
    for it in items.iter_mut() {
        let case = route::Case { label: String::new(), cfg: it.cfg.clone(), source: it.source.clone(), extra: String::new(), more: vec![] };
        match route::load(ctx, &case).and_then(|lib| route::generate(ctx, &lib)) {
            Ok(c) => it.code = Some(c),
            Err(e) => it.how = format!("refused: {}", e),
        }
    }
    // what rustc says of the others
    let dir = ctx.scratch.join(format!("x{}", j));
    let _ = std::fs::create_dir_all(&dir);
    let mut ids: Vec<usize> = (0..items.len()).filter(|k| items[*k].code.is_some()).collect();
    for k in &ids {
        let _ = std::fs::write(dir.join(format!("r{}.rs", k)), items[*k].code.as_ref().unwrap());
    }
    let _ = std::fs::write(dir.join("support.rs"), include_str!("support.rs"));
    let mut accepted: Option<Vec<usize>> = None;
    while !ids.is_empty() {
        match compile(&dir, &ids) {
            Ok(blamed) if blamed.is_empty() => {
                accepted = Some(ids.clone());
                break;
            }
            Ok(blamed) => {
                for (k, e) in blamed {
                    ids.retain(|x| *x != k);
                    items[k].how = format!("rustc: {}", e);
                }
            }
            Err(e) => return ctx.unknown(e),
        }
    }
    let accepted = accepted.unwrap_or_default();
    let mut base_ok = false;
    for (k, it) in items.iter().enumerate() {
        if it.base {
            base_ok = accepted.contains(&k);
            if !base_ok {
                ctx.count("bases without a router (passed over)", 1);
            }
            continue;
        }
        if !base_ok {
            continue;
        }
        ctx.count("evaluations", 1);
        ctx.count(&format!("conflict: {}", KINDS[it.kind]), 1);
        ctx.distinct(it.cfg.shape());
        if accepted.contains(&k) {
            ctx.violation(
                format!("{} is accepted, and gets a router{}", KINDS[it.kind], route::brief(&it.cfg)),
                vec![
                    ("config.routes".into(), plain(&it.cfg).into_bytes()),
                    ("generated.rs".into(), it.code.clone().unwrap_or_default().into_bytes()),
                ],
            );
        } else {
            let by = if it.how.starts_with("rustc") { "refused by rustc" } else { "refused by the generator" };
            ctx.count(by, 1);
            if k % 17 == 1 {
                ctx.sample(format!("{} -> {}", KINDS[it.kind], it.how.lines().next().unwrap_or("").chars().take(160).collect::<String>()));
            }
        }
    }
    let _ = std::fs::remove_dir_all(&dir);
}

/// Which of the modules (files r<k>.rs) rustc finds errors in.
pub fn compile(dir: &Path, ids: &[usize]) -> Result<Vec<(usize, String)>, String> {
    let mut m = String::from("#![allow(warnings)]\npub mod support;\n");
    for k in ids {
        m.push_str(&format!("#[path = \"r{}.rs\"] pub mod r{};\n", k, k));
    }
    std::fs::write(dir.join("lib.rs"), m).map_err(|e| e.to_string())?;
    let mut c = app::rustc();
    c.current_dir(dir).args(&[
        "--edition", "2018", "--crate-type", "lib", "--crate-name", "all", "--emit=metadata", "-A", "warnings", "--error-format=short",
        "-o", "all.rmeta", "lib.rs",
    ]);
    let d = sys::run(&mut c, dir, "rustc", 150);
    match d.end {
        sys::End::Exit(0) => Ok(vec![]),
        sys::End::Exit(_) => {
            let e = String::from_utf8_lossy(&d.err).to_string();
            let mut out: Vec<(usize, String)> = vec![];
            for l in e.lines().filter(|l| l.contains(": error")) {
                let f = l.split(':').next().unwrap_or("");
                if let Some(k) = f.strip_prefix('r').and_then(|f| f.strip_suffix(".rs")).and_then(|n| n.parse().ok()) {
                    if !out.iter().any(|o| o.0 == k) {
                        out.push((k, l.to_string()));
                    }
                }
            }
            if out.is_empty() {
                return Err(format!("rustc: {}", e.chars().take(400).collect::<String>()));
            }
            Ok(out)
        }
        _ => Err("rustc did not finish".into()),
    }
}

pub fn c20(ctx: &Ctx) {
    ctx.rule("one conflict of 14 kinds is put somewhere into a random valid configuration whose own router compiles; one evaluation is one such configuration that must be refused by the generator or by rustc; distinct = configuration");
    ctx.parallel(if ctx.thorough { 600 } else { 60 }, |j| batch(ctx, j));
}
