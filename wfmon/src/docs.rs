//! What generated documentation says, read back by the monitor's own reader.

use crate::cfg::*;
use crate::ctx::Ctx;
use crate::gen::{self, Overlap, Prof};
use crate::reader;
use crate::rng::Rng;
use crate::route;

struct Docs {
    /// the route file shown for the module
    shown: String,
    /// handler -> the text of its documentation
    handlers: Vec<(String, String)>,
}

fn indent(l: &str) -> usize {
    l.len() - l.trim_start_matches(' ').len()
}

fn comment(l: &str, mark: &str) -> Option<String> {
    let t = l.trim_start();
    let t = t.strip_prefix(mark)?;
    if mark == "///" && t.starts_with('/') {
        return None;
    }
    Some(t.strip_prefix(' ').unwrap_or(t).to_string())
}

fn read(code: &str) -> Result<Docs, String> {
    let mut inner: Vec<String> = vec![];
    let mut handlers = vec![];
    // (name, indentation) of the modules a line is in
    let mut mods: Vec<(String, usize)> = vec![];
    let mut above: Vec<String> = vec![];
    for l in code.lines() {
        if let Some(t) = comment(l, "//!") {
            inner.push(t);
            continue;
        }
        if let Some(t) = comment(l, "///") {
            above.push(t);
            continue;
        }
        let t = l.trim();
        if let Some((_, d)) = mods.last() {
            if t == "}" && indent(l) == *d {
                mods.pop();
                above.clear();
                continue;
            }
        }
        if t.starts_with("#[") {
            continue;
        }
        if let Some(m) = t.strip_prefix("pub mod ").and_then(|m| m.strip_suffix('{')) {
            mods.push((m.trim().trim_start_matches("r#").to_string(), indent(l)));
        } else if let Some(s) = t.strip_prefix("pub struct ") {
            let name: String = s.chars().take_while(|c| c.is_alphanumeric() || *c == '_').collect();
            let mut full = String::new();
            for (m, _) in mods.iter().skip(1) {
                full.push_str(m);
                full.push_str("::");
            }
            full.push_str(&name);
            handlers.push((full, above.join("\n")));
        }
        above.clear();
    }
    let open = inner.iter().position(|l| l.starts_with("```")).ok_or("no block in the module's documentation")?;
    let rest = &inner[open + 1..];
    let close = rest.iter().position(|l| l.trim() == "```").ok_or("the block is not closed")?;
    if rest[close + 1..].iter().any(|l| l.starts_with("```")) {
        return Err("more than one block".into());
    }
    Ok(Docs { shown: rest[..close].join("\n"), handlers })
}

/// The method and template a handler's documentation names: what it has in
/// backquotes.
fn named(doc: &str) -> Option<String> {
    let mut it = doc.split('`');
    it.next()?;
    let t = it.next()?.to_string();
    it.next()?;
    if it.next().is_some() {
        return None;
    }
    Some(t)
}

fn squeezed(t: &str) -> Vec<(usize, String)> {
    t.lines()
        .filter(|l| !l.trim().is_empty())
        .map(|l| (indent(l), l.chars().filter(|c| !c.is_whitespace()).collect()))
        .collect()
}

fn check(c: &Cfg, code: &str) -> Result<(u64, bool), String> {
    let d = read(code)?;
    // the routes shown
    let mut bare = c.clone();
    bare.headers.clear();
    let by_reader = bare.writable();
    if by_reader {
        let got = reader::read(&d.shown).map_err(|e| format!("the documented configuration cannot be read ({}):\n{}", e, d.shown))?;
        if got.root != bare.root {
            return Err(format!("the documented configuration is not the one the router was generated from:\n{}", d.shown));
        }
        if !got.headers.is_empty() {
            return Err(format!("unexpected lines before the documented configuration: {:?}", got.headers));
        }
    } else if squeezed(&d.shown) != squeezed(&plain(&bare)) {
        return Err(format!("the documented configuration is not the one the router was generated from:\n{}", d.shown));
    }
    // what each handler renders
    let mut want: Vec<(String, String)> = vec![];
    for e in c.entries() {
        if !e.res.redirect {
            want.push((e.res.handler(), format!("{} {}", METHODS[e.res.method], e.template())));
        }
    }
    let mut got: Vec<(String, String)> = vec![];
    for (h, doc) in &d.handlers {
        if h == "Error" && !want.iter().any(|(w, _)| w == h) {
            continue; // the matcher's own
        }
        match named(doc) {
            Some(t) => got.push((h.clone(), t)),
            None => return Err(format!("the documentation of {} does not name one route: {:?}", h, doc)),
        }
    }
    want.sort();
    got.sort();
    if want != got {
        let a = want.iter().find(|x| !got.contains(x));
        let b = got.iter().find(|x| !want.contains(x));
        return Err(format!("documented handlers differ from the routes: missing {:?}, unexpected {:?}", a, b));
    }
    Ok((want.len() as u64, by_reader))
}

fn one(ctx: &Ctx, c: &Cfg, r: &mut Rng, k: usize) {
    let source = route::source(c, r);
    let case = route::Case { label: String::new(), cfg: c.clone(), source, extra: String::new(), more: vec![] };
    let code = match route::load(ctx, &case).and_then(|lib| route::generate(ctx, &lib)) {
        Ok(code) => code,
        Err(e) => {
            // that there is no router is another property's business
            ctx.count("configurations without a router (passed over)", 1);
            ctx.sample(e.chars().take(200).collect());
            return;
        }
    };
    ctx.count("evaluations", 1);
    ctx.distinct(c.shape());
    match check(c, &code) {
        Ok((n, by_reader)) => {
            ctx.count("documented handlers compared", n);
            ctx.count(if by_reader { "documented configurations read back" } else { "documented configurations compared by line" }, 1);
            if k % 40 == 3 {
                ctx.sample(format!("{} handlers, {} lines of configuration", n, plain(c).lines().count()));
            }
        }
        Err(e) => ctx.violation(format!("{}\nconfiguration {}", e, route::brief(c)), route::files(&case, &code)),
    }
}

pub fn c22(ctx: &Ctx) {
    ctx.rule("routers are generated for random configurations (built in code and read from files in every layout) and the documentation in their source is read back: the configuration shown for the module, and the route named at every handler struct, compared with the configuration; one evaluation is one router's documentation; distinct = configuration");
    ctx.parallel(if ctx.thorough { 600 } else { 100 }, |j| {
        for k in 0..40 {
            let mut r = Rng::stream(ctx.seed ^ 0xc22, j as u64, k);
            let p = Prof {
                depth: *r.pick(&[1, 3, 5, 12, 60]),
                overlap: Overlap::Any,
                redirects: *r.pick(&[0, 1, 4]),
                query: *r.pick(&[0, 20, 60]),
                params: *r.pick(&[20, 45, 80]),
                budget: *r.pick(&[1, 4, 12, 30, 80]),
                modules: *r.pick(&[0, 2, 4]),
                odd: *r.pick(&[0, 0, 20]),
                lib_types: r.pct(40),
                ..Prof::default()
            };
            let c = gen::config(&mut r, &p);
            one(ctx, &c, &mut r, k as usize);
        }
    });
}
