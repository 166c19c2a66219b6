//! Writes the part of a generated application that uses one router: every
//! name and type a user relies on is spelled out, so that the compiler checks
//! them, and every answer of the router is taken apart exhaustively.

use crate::cfg::*;
use crate::ty;
use std::collections::BTreeMap;

#[derive(Default)]
struct Mod {
    acts: Vec<usize>, // entries
    subs: BTreeMap<String, Mod>, // by caps name
    snake: String,
}

fn full_ty(t: &str) -> String {
    let r = ty::TYPES.iter().find(|x| x.0 == t);
    match r {
        Some(r) => r.2.to_string(),
        None => t.to_string(),
    }
}

/// `extra` is the body of a `fn x() -> String`.
pub fn harness(k: usize, c: &Cfg, extra: &str) -> String {
    let entries = c.entries();
    let mut root = Mod::default();
    for (i, e) in entries.iter().enumerate() {
        if e.res.redirect {
            continue;
        }
        let mut m = &mut root;
        for name in &e.res.modules {
            m = m.subs.entry(caps(name)).or_default();
            m.snake = raw(&snake(name));
        }
        m.acts.push(i);
    }
    let mut s = String::new();
    s.push_str(&format!("use crate::r{}::routes as R;\nuse crate::rt;\n\n", k));

    // one describer per action
    for (i, e) in entries.iter().enumerate() {
        if e.res.redirect {
            continue;
        }
        let (h, at) = (e.res.handler(), e.res.rust_path());
        let ps = e.params();
        let qs = e.queries();
        s.push_str(&format!("fn d{}(x: &R::{}) -> rt::Desc {{\n    rt::same(x);\n", i, at));
        let mut names: Vec<(String, String, String)> = vec![];
        for p in &ps {
            names.push((p.name.clone(), format!("f_{}", p.name), full_ty(&p.ty)));
        }
        for q in &qs {
            names.push((q.name.clone(), format!("f_{}", q.name), format!("Option<{}>", full_ty(&q.ty))));
        }
        let pat: Vec<String> = names.iter().map(|n| format!("{}: ref {}", raw(&n.0), n.1)).collect();
        s.push_str(&format!("    let R::{} {{ {} }} = *x;\n", at, pat.join(", ")));
        for n in &names {
            s.push_str(&format!("    let {}: &{} = {};\n", n.1, n.2, n.1));
        }
        s.push_str("    let p: String = x.to_path();\n");
        let fs: Vec<String> =
            names.iter().map(|n| format!("(\"{}\", format!(\"{{:?}}\", {}))", n.0, n.1)).collect();
        s.push_str(&format!(
            "    rt::Desc {{ handler: \"{}\", method: \"{}\", fields: vec![{}], p_struct: p, p_route: String::new() }}\n}}\n\n",
            h,
            METHODS[e.res.method],
            fs.join(", ")
        ));
    }

    // the enums, module by module
    fn module(s: &mut String, m: &Mod, path: &str, entries: &[Entry], fnname: &str) {
        s.push_str(&format!("fn {}(x: &R::{}Route) -> rt::Desc {{\n    rt::same(x);\n", fnname, path));
        s.push_str("    let p: String = x.to_path();\n");
        if m.acts.is_empty() && m.subs.is_empty() {
            s.push_str("    let _ = p; match *x {}\n}\n\n");
            return;
        }
        s.push_str("    let mut d = match *x {\n");
        for i in &m.acts {
            s.push_str(&format!("        R::{}Route::{}(ref y) => d{}(y),\n", path, caps(&entries[*i].res.name), i));
        }
        for (name, sub) in &m.subs {
            s.push_str(&format!(
                "        R::{}Route::{}(ref y) => {}_{}(y),\n",
                path,
                name,
                fnname,
                sub.snake.trim_start_matches("r#")
            ));
        }
        s.push_str("    };\n");
        s.push_str("    if d.p_route.is_empty() || d.p_route == p { d.p_route = p } else { d.p_route = format!(\"{} but inside {}\", p, d.p_route) }\n    d\n}\n\n");
        for sub in m.subs.values() {
            module(s, sub, &format!("{}{}::", path, sub.snake), entries, &format!("{}_{}", fnname, sub.snake.trim_start_matches("r#")));
        }
    }
    module(&mut s, &root, "", &entries, "route");

    s.push_str(
        "fn conv(x: Result<R::Match<R::Route>, R::Error>) -> rt::Out {
    match x {
        Err(e) => {
            let _: &dyn std::error::Error = &e;
            rt::Out::Err(format!(\"{}\", e), format!(\"{:?}\", e))
        }
        Ok(m) => {
            rt::same(&m);
            match m {
                R::Match::NotFound => rt::Out::NotFound,
                R::Match::NotAllowed => rt::Out::NotAllowed,
                R::Match::Route(r) => rt::Out::Hit(false, route(&r)),
                R::Match::Redirect(r) => rt::Out::Hit(true, route(&r)),
            }
        }
    }
}

pub fn m(path: &[u8], method: &[u8]) -> rt::Out {
    // a request line can come as text or as bytes
    match (std::str::from_utf8(path), path.len() % 4) {
        (Ok(p), 0) => conv(R::match_route(p, method)),
        (Ok(p), 1) => conv(R::match_route(p.to_string(), method.to_vec())),
        (_, 2) => conv(R::match_route(path.to_vec(), &method.to_vec())),
        _ => conv(R::match_route(path, method)),
    }
}

",
    );

    // building requests by hand
    s.push_str("pub fn b(e: usize, t: &[String], q: &[Option<String>]) -> rt::Built {\n    let _ = (t, q);\n    match e {\n");
    for (i, e) in entries.iter().enumerate() {
        if e.res.redirect {
            continue;
        }
        let h = e.res.rust_path();
        let mut fs: Vec<String> = vec![];
        for (j, p) in e.params().iter().enumerate() {
            fs.push(format!("{}: t[{}].parse::<{}>().ok()?", raw(&p.name), j, full_ty(&p.ty)));
        }
        for (j, p) in e.queries().iter().enumerate() {
            fs.push(format!(
                "{}: match q[{}] {{ None => None, Some(ref s) => Some(s.parse::<{}>().ok()?) }}",
                raw(&p.name),
                j,
                full_ty(&p.ty)
            ));
        }
        let value = if fs.is_empty() { format!("R::{}", h) } else { format!("R::{} {{ {} }}", h, fs.join(", ")) };
        // wrap it in the Route enums
        let mut wrap = String::new();
        let mut parens = String::new();
        let mut path = String::new();
        for m in &e.res.modules {
            wrap.push_str(&format!("R::{}Route::{}(", path, caps(m)));
            path.push_str(&format!("{}::", raw(&snake(m))));
            parens.push(')');
        }
        wrap.push_str(&format!("R::{}Route::{}(", path, caps(&e.res.name)));
        parens.push(')');
        s.push_str(&format!(
            "        {} => {{ let v = {}; let mut d = d{}(&v); let r: R::Route = {}v{}; d.p_route = route(&r).p_route; let m = R::Match::Route(r); Some((d, format!(\"{{:?}}\", m))) }}\n",
            i, value, i, wrap, parens
        ));
    }
    s.push_str("        _ => None,\n    }\n}\n\n");
    s.push_str(&format!("pub fn x() -> String {{\n{}\n}}\n", extra));
    s
}

/// `main.rs` of a generated application.
pub fn main_rs(ids: &[usize]) -> String {
    let mut s = String::from("pub mod support;\npub mod rt;\n");
    for k in ids {
        s.push_str(&format!("mod r{};\nmod h{};\n", k, k));
    }
    s.push_str("static ROUTERS: &[rt::Router] = &[\n");
    for k in ids {
        s.push_str(&format!("    rt::Router {{ id: {0}, m: h{0}::m, b: h{0}::b, x: h{0}::x }},\n", k));
    }
    s.push_str("];\nfn main() { rt::main(ROUTERS) }\n");
    s
}
