//! The checks on reading and writing route files.

use crate::cfg::*;
use crate::ctx::{hash, Ctx};
use crate::gen;
use crate::rng::Rng;
use crate::sys;
use nom::types::CompleteStr;

const IDS: [&str; 44] = [
    "a", "b", "x", "Index", "Show", "people", "People", "new", "edit", "_", "__", "_a", "a_b", "A1", "1", "0x", "42",
    "get", "GET", "Get", "post", "posts", "put", "puts", "delete", "deleted", "getter", "\u{e9}t\u{e9}",
    "\u{65e5}\u{672c}\u{8a9e}", "\u{441}\u{43b}\u{43e}\u{432}\u{43e}", "\u{661}", "\u{df}", "String", "Uuid", "u32", "use",
    "mod", "self", "type", "Route", "Match", "q", "lang", "\u{1e9e}x",
];

fn ident(r: &mut Rng) -> String {
    match r.below(12) {
        0 => {
            let n = r.range(1, 40);
            (0..n).map(|_| *r.pick(&['a', 'b', 'Z', '0', '9', '_', '\u{e9}', '\u{4e2d}'])).collect()
        }
        1 => format!("{}{}", r.pick(&IDS), r.below(1000)),
        _ => r.pick(&IDS).to_string(),
    }
}

fn param(r: &mut Rng) -> P {
    P { name: ident(r), ty: ident(r) }
}

pub fn header(r: &mut Rng) -> String {
    let mut h = header_text(r);
    const ODD: [&str; 14] = [" ", "\t", "\u{b}", "\u{c}", "\u{85}", "\u{a0}", "\u{3000}", "\u{2028}", "\u{200b}", "\u{feff}", "\0", ";", "\\", ","];
    if r.pct(12) {
        h.push_str(*r.pick(&ODD));
    }
    if r.pct(8) {
        h.insert_str(0, *r.pick(&ODD));
    }
    h
}

fn header_text(r: &mut Rng) -> String {
    let fixed = [
        "use uuid::Uuid;", "use std::collections::{HashMap, HashSet};", "// a comment", "/* block */", "//", "/**/",
        "//! inner", "/// outer", "  GET Index", "    indented();", "[lang: String]", "{id: Uuid}", "}", "{", "people",
        "GET Index", " /", "const S: &str = \"a b\";", "\tuse tab::bed;", " ", "trailing   ", "\u{65e5}\u{672c}\u{8a9e};", "::", "->",
        "a/b", ":/", "#![allow(x)]", "\\n", "\u{feff}x", ";", "x\u{85}y", "\u{2028}", "'", "/*", "// /", "use a; /",
    ];
    match r.below(10) {
        0 => {
            let n = r.range(1, 60);
            (0..n)
                .map(|i| {
                    let c = char::from_u32(r.below(0x2ff) as u32 + 0x20).unwrap_or('x');
                    if i == 0 && c == '/' {
                        'y'
                    } else {
                        c
                    }
                })
                .collect()
        }
        1 => format!("use m{}::T{};", r.below(50), r.below(50)),
        _ => r.pick(&fixed).to_string(),
    }
}

fn res(r: &mut Rng) -> Res {
    let nm = *r.pick(&[0, 0, 1, 1, 2, 5]);
    let nq = *r.pick(&[0, 0, 0, 1, 2, 6]);
    Res {
        method: r.below(4),
        modules: (0..nm).map(|_| ident(r)).collect(),
        name: ident(r),
        redirect: r.pct(25),
        query: (0..nq).map(|_| param(r)).collect(),
    }
}

fn node(r: &mut Rng, depth: usize, budget: &mut usize) -> Node {
    let mut n = Node::default();
    for _ in 0..*r.pick(&[0, 0, 0, 1, 3]) {
        n.query.push(param(r));
    }
    for _ in 0..*r.pick(&[0, 0, 1, 1, 2, 5]) {
        n.res.push(res(r));
    }
    if depth > 0 {
        let k = *r.pick(&[0, 1, 1, 1, 2, 3]);
        for _ in 0..k {
            if *budget == 0 {
                break;
            }
            *budget -= 1;
            let s = if r.pct(35) { Seg::Par(param(r)) } else { Seg::Lit(ident(r)) };
            n.kids.push((s, node(r, depth - 1, budget)));
        }
    }
    if n.res.is_empty() && n.kids.is_empty() {
        n.res.push(res(r));
    }
    n
}

/// Any configuration a route file can hold, sensible or not.
pub fn any(r: &mut Rng) -> Cfg {
    let mut c = Cfg::default();
    for _ in 0..*r.pick(&[0, 0, 1, 2, 6]) {
        c.headers.push(header(r));
    }
    match r.below(20) {
        0 => {
            // a deep chain
            let d = r.range(8, 120);
            let mut n = Node { query: vec![], res: vec![res(r)], kids: vec![] };
            for _ in 0..d {
                let mut up = Node::default();
                if r.pct(20) {
                    up.query.push(param(r));
                }
                if r.pct(30) {
                    up.res.push(res(r));
                }
                let s = if r.pct(35) { Seg::Par(param(r)) } else { Seg::Lit(ident(r)) };
                up.kids.push((s, n));
                n = up;
            }
            c.root = n;
        }
        1 => {
            // wide
            let mut n = Node::default();
            for _ in 0..r.range(20, 120) {
                let mut b = 2;
                n.kids.push((Seg::Lit(ident(r)), node(r, 1, &mut b)));
            }
            c.root = n;
        }
        2 => {
            let mut g = gen::config(r, &gen::Prof { odd: 0, lib_types: false, ..gen::Prof::default() });
            g.headers.extend(c.headers);
            c = g;
        }
        _ => {
            let mut b = r.range(1, 25);
            let d = r.range(0, 9);
            c.root = node(r, d, &mut b);
        }
    }
    if r.below(3000) == 0 {
        // a file larger than anybody's buffer
        let k = *r.pick(&[40, 70, 140, 270]);
        let n = k * 1000 / plain(&c).len().max(40) + 1;
        c = gen::copies(&c, n);
    }
    c
}

fn read(ctx: &Ctx, t: &str) -> Result<Result<Cfg, String>, String> {
    // outer Err: panic
    ctx.guard(t, || match wayfinder::parse::route_config(t) {
        Ok((rest, c)) => {
            if rest.0.is_empty() {
                Ok(from_lib(&c))
            } else {
                Err(format!("read only up to {:?}", rest.0.chars().take(60).collect::<String>()))
            }
        }
        Err(e) => Err(format!("{:?}", e).chars().take(300).collect()),
    })
}

fn diff(want: &Cfg, got: &Cfg) -> String {
    if want.headers != got.headers {
        return format!("headers: expected {:?}, got {:?}", want.headers, got.headers);
    }
    let (a, b) = (plain(want), plain(got));
    for (n, (x, y)) in a.lines().zip(b.lines()).enumerate() {
        if x != y {
            return format!("item {}: expected {:?}, got {:?}", n + 1, x, y);
        }
    }
    format!("expected {} lines, got {}", a.lines().count(), b.lines().count())
}

fn file(name: &str, s: &str) -> (String, Vec<u8>) {
    (name.to_string(), s.as_bytes().to_vec())
}

fn jobs(ctx: &Ctx, quick: usize) -> usize {
    if ctx.thorough {
        quick * 12
    } else {
        quick
    }
}

const PER: usize = 100;

pub fn c12(ctx: &Ctx) {
    ctx.rule("random configurations (any identifiers the language has, headers of all kinds, up to 120 levels deep) are printed by the library and read back by it, whole and in parts (resources, route blocks, nested routes at any indentation level); one evaluation is one comparison of what was read with what was printed; distinct = printed text");
    let salt = hash(&ctx.id);
    ctx.parallel(jobs(ctx, 500), |j| {
        for k in 0..PER {
            let mut r = Rng::stream(ctx.seed ^ salt, j as u64, k as u64);
            let c = any(&mut r);
            let lib = lcfg(&c);
            let t = match ctx.guard(&plain(&c), || lib.stringify()) {
                Ok(t) => t,
                Err(p) => {
                    ctx.violation(format!("stringify panicked: {}", p), vec![file("config.routes", &plain(&c))]);
                    continue;
                }
            };
            ctx.count("evaluations", 1);
            ctx.count("whole configurations", 1);
            ctx.count("lines printed", t.lines().count() as u64);
            ctx.distinct(hash(&t));
            let f = vec![file("config.routes", &plain(&c)), file("stringified.routes", &t)];
            match ctx.guard(&t, || wayfinder::parse::route_config(&t).map(|(rest, c)| (rest.0.to_string(), c)).map_err(|e| format!("{:?}", e))) {
                Err(p) => ctx.violation(format!("reading back panicked: {}", p), f),
                Ok(Err(e)) => ctx.violation(format!("printed configuration is not read back: {}", e.chars().take(300).collect::<String>()), f),
                Ok(Ok((rest, got))) => {
                    if got != lib || !rest.is_empty() || from_lib(&got) != c {
                        ctx.violation(format!("printed configuration reads back differently: {}", diff(&c, &from_lib(&got))), f)
                    } else if k % 40 == 7 {
                        ctx.sample(t.lines().take(6).collect::<Vec<_>>().join(" | "));
                    }
                }
            }
            // parts, at any level
            let lvl = *r.pick(&[0, 1, 2, 3, 5, 7, 8, 9, 12, 30]);
            part(ctx, "routes", &c, lvl, &lroutes(&c.root), |x| x.stringify(lvl), |t| wayfinder::parse::routes(CompleteStr(t), lvl).map(|(r, v)| (r.0.len(), v)).map_err(|e| format!("{:?}", e)));
            if let Some((s, n)) = c.root.kids.first() {
                part(ctx, "nested routes", &c, lvl, &lnested(s, n), |x| x.stringify(lvl), |t| wayfinder::parse::nested_routes(CompleteStr(t), lvl).map(|(r, v)| (r.0.len(), v)).map_err(|e| format!("{:?}", e)));
            }
            if let Some(x) = c.root.res.first() {
                part(ctx, "a resource", &c, lvl, &lres(x), |x| x.stringify(lvl), |t| wayfinder::parse::resource(CompleteStr(t), lvl).map(|(r, v)| (r.0.len(), v)).map_err(|e| format!("{:?}", e)));
            }
        }
    });
}

fn part<T: PartialEq + std::fmt::Debug>(
    ctx: &Ctx,
    what: &str,
    c: &Cfg,
    lvl: usize,
    x: &T,
    print: impl Fn(&T) -> String,
    parse: impl Fn(&str) -> Result<(usize, T), String>,
) {
    ctx.count("evaluations", 1);
    ctx.count("parts at some level", 1);
    let r = ctx.guard(&plain(c), || {
        let t = print(x);
        let p = parse(&t);
        (t, p)
    });
    match r {
        Err(p) => ctx.violation(format!("printing or reading {} at level {} panicked: {}", what, lvl, p), vec![file("config.routes", &plain(c))]),
        Ok((t, p)) => {
            ctx.distinct(hash(&t));
            let bad = match p {
                Err(e) => Some(format!("is refused: {}", e.chars().take(200).collect::<String>())),
                Ok((rest, _)) if rest > 0 => Some(format!("leaves {} bytes", rest)),
                Ok((_, ref v)) if v != x => Some("reads back differently".into()),
                _ => None,
            };
            if let Some(b) = bad {
                ctx.violation(
                    format!("{} printed at level {} {}", what, lvl, b),
                    vec![file("config.routes", &plain(c)), file("printed", &t)],
                );
            }
        }
    }
}

pub fn c13(ctx: &Ctx) {
    ctx.rule("random configurations are written down by the monitor in random ways the language allows (blank lines anywhere, LF or CRLF, spaces inside brackets, verbs in any case) and read by the library; one evaluation is one file compared with what was written; distinct = file text");
    let salt = hash(&ctx.id);
    ctx.parallel(jobs(ctx, 900), |j| {
        for k in 0..PER {
            let mut r = Rng::stream(ctx.seed ^ salt, j as u64, k as u64);
            let c = any(&mut r);
            for n in 0..2 {
                let st = if n == 0 { Style::random(&mut r) } else { Style { blanks: 60, crlf: *r.pick(&[0, 100, 50]), spaces: 50, case: 50 } };
                let t = print(&c, st, &mut r);
                ctx.count("evaluations", 1);
                ctx.count("lines read", t.lines().count() as u64);
                if st.crlf > 0 {
                    ctx.count("files with CRLF", 1);
                }
                if st.blanks > 0 {
                    ctx.count("files with blank lines", 1);
                }
                ctx.distinct(hash(&t));
                let f = vec![file("as-written.routes", &t), file("plain.routes", &plain(&c))];
                match read(ctx, &t) {
                    Err(p) => ctx.violation(format!("reading a valid route file panicked: {}", p), f),
                    Ok(Err(e)) => ctx.violation(format!("a valid route file is refused: {}", e), f),
                    Ok(Ok(got)) => {
                        if got != c {
                            ctx.violation(format!("a route file reads as something else: {}", diff(&c, &got)), f)
                        } else if k % 50 == 7 {
                            ctx.sample(format!("{:?}", t.chars().take(160).collect::<String>()));
                        }
                    }
                }
            }
        }
    });
}

// ---- broken files ----------------------------------------------------------

/// The tokens of a text, and the indentation of those that start a line.
fn tokens(t: &str) -> Result<Vec<(String, Option<usize>)>, char> {
    let mut out = vec![];
    for line in t.split('\n') {
        let mut first = true;
        let cs: Vec<char> = line.chars().collect();
        let mut i = 0;
        while i < cs.len() {
            let c = cs[i];
            let col = if first { Some(if cs[..i].iter().all(|c| *c == ' ') { i } else { usize::MAX }) } else { None };
            if c.is_alphanumeric() || c == '_' {
                let s = i;
                while i < cs.len() && (cs[i].is_alphanumeric() || cs[i] == '_') {
                    i += 1;
                }
                out.push((cs[s..i].iter().collect(), col));
                first = false;
                continue;
            }
            if c == ':' && cs.get(i + 1) == Some(&':') {
                out.push(("::".into(), col));
                i += 2;
                first = false;
                continue;
            }
            if c == '-' && cs.get(i + 1) == Some(&'>') {
                out.push(("->".into(), col));
                i += 2;
                first = false;
                continue;
            }
            match c {
                '[' | ']' | '{' | '}' | ':' => {
                    out.push((c.to_string(), col));
                    first = false;
                }
                ' ' | '\t' | '\r' => {}
                c => return Err(c),
            }
            i += 1;
        }
    }
    Ok(out)
}

/// The tokens a configuration must come from; the first of each item with its indentation.
fn ast_tokens(c: &Cfg) -> Vec<(String, Option<usize>)> {
    type T = Vec<(String, Option<usize>)>;
    fn p(x: &P, o: &mut T) {
        o.push((x.name.clone(), None));
        o.push((":".into(), None));
        o.push((x.ty.clone(), None));
    }
    fn q(x: &P, lvl: usize, o: &mut T) {
        o.push(("[".into(), Some(2 * lvl)));
        p(x, o);
        o.push(("]".into(), None));
    }
    fn go(n: &Node, lvl: usize, o: &mut T) {
        for x in &n.query {
            q(x, lvl, o);
        }
        for r in &n.res {
            o.push((METHODS[r.method].to_string(), Some(2 * lvl)));
            if r.redirect {
                o.push(("->".into(), None));
            }
            for m in &r.modules {
                o.push((m.clone(), None));
                o.push(("::".into(), None));
            }
            o.push((r.name.clone(), None));
            for x in &r.query {
                q(x, lvl + 1, o);
            }
        }
        for (s, k) in &n.kids {
            match s {
                Seg::Lit(l) => o.push((l.clone(), Some(2 * lvl))),
                Seg::Par(x) => {
                    o.push(("{".into(), Some(2 * lvl)));
                    p(x, o);
                    o.push(("}".into(), None));
                }
            }
            go(k, lvl + 1, o);
        }
    }
    let mut o = vec![];
    go(&c.root, 1, &mut o);
    o
}

/// Is the configuration all of what the text says, and nothing else?
fn accounts_for(t: &str, c: &Cfg) -> Result<(), String> {
    // header lines up to the line that is a single slash
    let mut at = 0;
    let mut headers = vec![];
    let mut found = false;
    for line in t.split_inclusive('\n') {
        let body = line.strip_suffix('\n').unwrap_or(line);
        let body = body.strip_suffix('\r').unwrap_or(body);
        at += line.len();
        if body == "/" {
            found = true;
            break;
        }
        if body.starts_with('/') && !body.starts_with("//") && !body.starts_with("/*") {
            return Err(format!("the line {:?} begins with a slash, and is neither the root nor a comment", body));
        }
        if !body.is_empty() {
            headers.push(body.to_string());
        }
    }
    if !found {
        return Err("there is no line \"/\"".into());
    }
    if headers != c.headers {
        return Err(format!("header lines are {:?}, read as {:?}", headers, c.headers));
    }
    let body = &t[at..];
    let text = match tokens(body) {
        Ok(t) => t,
        Err(ch) => return Err(format!("the character {:?} has no place in the language", ch)),
    };
    let ast = ast_tokens(c);
    for (n, (a, b)) in text.iter().zip(&ast).enumerate() {
        let verb = b.1.is_some() && METHODS.contains(&b.0.as_str()) && a.0.to_uppercase() == b.0;
        if a.0 != b.0 && !verb {
            return Err(format!("token {} is {:?}, read as {:?}", n + 1, a.0, b.0));
        }
        match (a.1, b.1) {
            (x, Some(w)) if x != Some(w) => {
                return Err(format!("{:?} (token {}) stands at {:?}, read as an item indented by {}", a.0, n + 1, x, w))
            }
            _ => {}
        }
    }
    if text.len() != ast.len() {
        return Err(format!("the text has {} tokens, {} were read", text.len(), ast.len()));
    }
    Ok(())
}

fn mutate(t: &str, r: &mut Rng) -> String {
    let mut ls: Vec<String> = t.split('\n').map(|s| s.to_string()).collect();
    let n = ls.len();
    let k = r.below(n);
    match r.below(32) {
        31 => {
            // a line that looks like the root before it, or after it
            let at = if r.pct(60) { 0 } else { k };
            ls.insert(at, r.pick(&["/ people", "/people", "/ ", "/\t", "/\u{b}", "/ /", "/-", "/{id: u8}", "/[q: String]", "/GET A", "/.", "/\\", "/\r"]).to_string());
        }
        0 => {
            ls.remove(k);
        }
        1 => {
            let l = ls[k].clone();
            ls.insert(k, l);
        }
        2 => ls[k].insert(0, ' '),
        3 => ls[k].insert_str(0, "  "),
        4 => {
            if ls[k].starts_with(' ') {
                ls[k].remove(0);
            }
        }
        5 => {
            if ls[k].starts_with("  ") {
                ls[k].replace_range(0..2, "");
            }
        }
        6 => ls[k] = ls[k].replacen("  ", "\t", 1),
        7 => {
            let j = r.below(n);
            ls.swap(k, j);
        }
        8 if k + 1 < n => {
            let l = ls.remove(k + 1);
            ls[k].push_str(&l);
        }
        9 => {
            let j = r.below(n);
            let l = ls.remove(j);
            let at = r.below(ls.len() + 1);
            ls.insert(at, l);
        }
        10 => {
            let g = r.pick(&["???", "  ???", "# note", "  // note", "/", "//", "  /", "GET", "  GET", "  GET ", "    ", "  ->", "  GET ->",
                "  GET A::", "  ::A", "  []", "  [a]", "  [a:]", "  {}", "  {a}", "  {a:}", "  {a: B", "  [a: B", "  a: B", "  }", "  ]",
                "  GET A B", "  GET  A", "  GET A ", "  PATCH A", "  HEAD A", "  a b", "  a-b", "  a.b", "  *", "\u{feff}", "\u{a0}", "  a\u{a0}",
                "  [a: Vec<u8>]", "  {a: b::C}", "  \"x\"", "  a,", "  GET A,", "  GETA", "  get a", "\u{2003}GET A", "  GET\tA",
                "  {a: B}}", "  {{a: B}", "  GET -> -> A", "  GET A->B", "  GET A:::B", "  GET A: :B", "  POST", "use x;"]);
            ls.insert(k, g.to_string());
        }
        11 => {
            let g = r.pick(&["  ", " ", "\t", ",", ";", " x", "x", ":", "::", "->", "]", "}", "//", "\r", " // c", "\u{b}", "\u{c}", "\u{85}"]);
            ls[k].push_str(g);
        }
        12 => {
            // keep only a part
            let cs: Vec<char> = t.chars().collect();
            let m = r.below(cs.len() + 1);
            return cs[..m].iter().collect();
        }
        13 => {
            let cs: Vec<char> = t.chars().collect();
            let m = r.below(cs.len() + 1);
            return cs[m..].iter().collect();
        }
        14 | 15 => {
            let mut cs: Vec<char> = t.chars().collect();
            if !cs.is_empty() {
                let m = r.below(cs.len());
                cs.remove(m);
            }
            return cs.into_iter().collect();
        }
        16 | 17 => {
            let mut cs: Vec<char> = t.chars().collect();
            let m = r.below(cs.len() + 1);
            cs.insert(m, *r.pick(&[' ', '\n', ':', '[', ']', '{', '}', '-', '>', '/', 'a', '_', '\t', '\r', '.', '\u{e9}', '\0', '"', '\\']));
            return cs.into_iter().collect();
        }
        18 => {
            let mut cs: Vec<char> = t.chars().collect();
            if cs.len() > 1 {
                let m = r.below(cs.len() - 1);
                cs.swap(m, m + 1);
            }
            return cs.into_iter().collect();
        }
        19 => {
            // everything one level deeper or shallower from here on
            let deeper = r.pct(50);
            for l in ls.iter_mut().skip(k) {
                if deeper {
                    l.insert_str(0, "  ");
                } else if l.starts_with("  ") {
                    l.replace_range(0..2, "");
                }
            }
        }
        20 => return t.trim_end().to_string(),
        21 => {
            for l in ls.iter_mut() {
                if r.pct(30) {
                    l.push('\r');
                }
            }
        }
        22 => {
            // two files in one
            return format!("{}{}", t, t);
        }
        23 => {
            let mut s = t.to_string();
            s.push_str(r.pick(&["\n\n\n", "  ", "x", "/\n", "\0", "  GET More\n", "    \n", "\t\n"]));
            return s;
        }
        24 => ls[k] = ls[k].replace(' ', ""),
        25 | 26 | 27 => {
            // something more within an item, next to a mark or a word
            let l = &ls[k];
            let at: Vec<usize> = (0..=l.len())
                .filter(|&i| l.is_char_boundary(i) && (i == l.len() || !l[i..].starts_with(|c: char| c.is_alphanumeric() || c == ' ') || i > 0 && l[..i].ends_with(' ')))
                .collect();
            let at = *r.pick(&at);
            let g = r.pick(&[
                ", slug", ",slug", ", slug: B", ", ", ",", "?", "?: ", " = 1", "= 5", "=x", ": C", ":C", ": ", "::", "::C", "<B>", "<", "&", "*", "!", "+",
                "[]", "[a: B]", "{a: B}", "(x)", "()", "|b", "..", ".", "-", "->", "-> ", " -> ", "=>", "/", "/b", "//", "/* c */", "#", "# c", "'", "\"a\"", "$",
                "@", "~", "%20", "\\", ";", " ;", "\u{a0}", "\u{200b}", " x", "  ",
            ]);
            ls[k].insert_str(at, g);
        }
        28 => {
            // one mark for another
            let cs: Vec<char> = ls[k].chars().collect();
            let at: Vec<usize> = (0..cs.len()).filter(|&i| !cs[i].is_alphanumeric() && cs[i] != '_').collect();
            if !at.is_empty() {
                let i = *r.pick(&at);
                let mut cs = cs;
                cs[i] = *r.pick(&[' ', ':', '[', ']', '{', '}', '(', ')', '<', '>', '-', '.', ',', ';', '=', '\t', '/', '\u{a0}', '\u{ff1a}']);
                ls[k] = cs.into_iter().collect();
            }
        }
        29 => {
            // the pieces of an item the other way round, or one twice
            let i = ls[k].len() - ls[k].trim_start().len();
            let mut ws: Vec<String> = ls[k][i..].split(' ').map(|s| s.to_string()).collect();
            let (a, b) = (r.below(ws.len()), r.below(ws.len()));
            if r.pct(50) {
                ws.swap(a, b);
            } else {
                let w = ws[a].clone();
                ws.insert(b, w);
            }
            ls[k] = format!("{}{}", &ls[k][..i], ws.join(" "));
        }
        _ => ls[k] = ls[k].chars().rev().collect(),
    }
    ls.join("\n")
}

fn soup(r: &mut Rng) -> String {
    let toks = [
        "/\n", "/", "\n", "\r\n", "  ", "    ", " ", "GET ", "POST ", "get ", "-> ", "->", "A", "b", "::", ":", "[", "]", "{", "}",
        "[q: String]", "{id: Uuid}", "GET Index\n", "  GET Index\n", "  people\n    GET A\n", "use x;\n", "//", "\u{e9}", "\0", "\t",
    ];
    let n = r.range(0, 40);
    let mut s = String::new();
    if r.pct(60) {
        s.push_str("/\n");
    }
    for _ in 0..n {
        s.push_str(r.pick(&toks));
    }
    s
}

pub fn small(r: &mut Rng) -> Cfg {
    let mut c = Cfg::default();
    for _ in 0..*r.pick(&[0, 0, 1, 2]) {
        c.headers.push(header(r));
    }
    let mut b = r.range(1, 8);
    let d = r.range(0, 4);
    c.root = node(r, d, &mut b);
    c
}

pub fn broken(r: &mut Rng) -> String {
    if r.pct(12) {
        return soup(r);
    }
    let c = small(r);
    let st = if r.pct(60) { Style::plain() } else { Style::random(r) };
    let mut t = print(&c, st, r);
    for _ in 0..*r.pick(&[1, 1, 1, 2, 3, 6]) {
        t = mutate(&t, r);
    }
    t
}

pub fn c14(ctx: &Ctx) {
    ctx.rule("valid route files damaged in 32 ways (lines, indentation, characters, truncation, foreign syntax) and token soup are read by the library; one evaluation is one file; when the library accepts it, every token of the text must be accounted for, in order and at its indentation, by what was read; distinct = file text");
    let salt = hash(&ctx.id);
    ctx.parallel(jobs(ctx, 6000), |j| {
        for k in 0..PER {
            let mut r = Rng::stream(ctx.seed ^ salt, j as u64, k as u64);
            let t = broken(&mut r);
            ctx.count("evaluations", 1);
            ctx.distinct(hash(&t));
            match read(ctx, &t) {
                Err(p) => ctx.violation(format!("reading panicked: {}", p), vec![file("damaged.routes", &t)]),
                Ok(Err(e)) => {
                    ctx.count("damaged files refused", 1);
                    if e.starts_with("read only") {
                        ctx.violation(format!("a file was accepted without reading all of it: {}", e), vec![file("damaged.routes", &t)]);
                    }
                }
                Ok(Ok(c)) => {
                    ctx.count("damaged files still accepted, all accounted for", 1);
                    if let Err(e) = accounts_for(&t, &c) {
                        ctx.violation(
                            format!("a file that is not in the language is accepted: {}\n{:?}", e, t.chars().take(400).collect::<String>()),
                            vec![file("damaged.routes", &t), file("read-as.routes", &plain(&c))],
                        );
                    } else if k % 30 == 3 {
                        ctx.sample(format!("accepted {:?}", t.chars().take(160).collect::<String>()));
                    }
                }
            }
        }
    });
}

/// Citations (line number, column) of a report, or what is wrong with it.
pub fn citations(t: &str, report: &str, prefix: &str) -> Result<Vec<(usize, usize, String)>, String> {
    let lines: Vec<&str> = t.split('\n').collect();
    let mut rest = report;
    let mut out = vec![];
    while !rest.is_empty() {
        let l1 = rest.strip_prefix(prefix).ok_or("a report line lacks its prefix")?;
        let i = l1.find(':').ok_or("no line number")?;
        let no: usize = l1[..i].trim().parse().map_err(|_| format!("no line number in {:?}", &l1[..i.min(40)]))?;
        let want = *lines.get(no.wrapping_sub(1)).ok_or(format!("line {} does not exist", no))?;
        let l2 = l1[i + 1..].strip_prefix(want).ok_or(format!("line {} is not what is quoted for it", no))?;
        let l2 = l2.strip_prefix('\n').ok_or(format!("line {} is not quoted exactly", no))?;
        let l2 = l2.strip_prefix(prefix).ok_or("a report line lacks its prefix")?;
        let l2 = l2.strip_prefix("     ").ok_or("marker line is not aligned")?;
        let pad = l2.len() - l2.trim_start_matches(' ').len();
        let after = l2[pad..].strip_prefix('^').ok_or("no marker")?;
        let nl = after.find('\n').ok_or("message is not ended")?;
        let col = pad + 1;
        if col > want.chars().count() + 1 {
            return Err(format!("the marker is at column {} of a line of {}", col, want.chars().count()));
        }
        out.push((no, col, after[..nl].trim().to_string()));
        rest = &after[nl + 1..];
    }
    Ok(out)
}

pub fn report(t: &str, prefix: &str) -> Option<String> {
    let r = wayfinder::parse::route_config(t);
    if r.is_ok() {
        return None;
    }
    let mut w = vec![];
    wayfinder::parse::errors::show_errors(&mut w, t, r, prefix);
    Some(String::from_utf8_lossy(&w).to_string())
}

/// A file with one faulty line, where an item is complete before it on its
/// own level and on every enclosing one; with the fault's line, and the
/// furthest column it can be said to be at.
fn deep_fault(r: &mut Rng) -> (String, (usize, usize)) {
    let depth = *r.pick(&[0, 0, 1, 2, 3, 4, 5, 7, 10, 20]);
    let mut ls: Vec<String> = vec!["/".into()];
    let mut n = 0;
    let word = |r: &mut Rng, n: &mut usize| {
        *n += 1;
        format!("{}{}", r.pick(&["a", "Abc", "\u{e9}t\u{e9}", "x_1", "\u{4e2d}\u{6587}", "long_name_of_something"]), n)
    };
    for l in 0..depth {
        let i = "  ".repeat(l + 1);
        if r.pct(20) {
            ls.push(format!("{}[{}: String]", i, word(r, &mut n)));
        }
        if r.pct(40) {
            ls.push(format!("{}GET {}", i, word(r, &mut n)));
        }
        for _ in 0..r.range(1, 3) {
            ls.push(if r.pct(70) { format!("{}{}", i, word(r, &mut n)) } else { format!("{}{{{}: u8}}", i, word(r, &mut n)) });
            ls.push(format!("{}  POST {}", i, word(r, &mut n)));
        }
        ls.push(format!("{}{}", i, word(r, &mut n)));
    }
    let i = "  ".repeat(depth + 1);
    for _ in 0..r.range(1, 3) {
        ls.push(format!("{}DELETE {}::{}", i, word(r, &mut n), word(r, &mut n)));
    }
    let w = word(r, &mut n);
    let stray = *r.pick(&["!", " !", "?x", "-", " ;"]);
    let bad = match r.below(6) {
        0 | 1 => format!("{}GET {}::{}{}", i, word(r, &mut n), w, stray),
        2 => {
            ls.push(format!("{}PUT {}", i, word(r, &mut n)));
            format!("{}  [{}: String]{}", i, w, stray)
        }
        3 => {
            ls.push(format!("{}PUT {}", i, word(r, &mut n)));
            format!("{}  [{}: String{}]", i, w, r.pick(&[";", " ;", "!", " !x", "-", "<u8>"]))
        }
        4 => {
            ls.push(format!("{}PUT {}", i, word(r, &mut n)));
            format!("{}  [{} String]", i, w)
        }
        _ => {
            ls.push(format!("{}{}", i, word(r, &mut n)));
            ls.push(format!("{}  PUT {}", i, word(r, &mut n)));
            let w = format!("{}{{{}: {}{}}}", i, w, word(r, &mut n), r.pick(&[";", " ;", "!", " !x", "-", "<u8>"]));
            ls.push(w.clone());
            let at = (ls.len(), 0);
            ls.push(format!("{}  GET {}", i, word(r, &mut n)));
            let col = w.chars().count() + 1;
            return (ls.join("\n") + "\n", (at.0, col));
        }
    };
    let at = (ls.len() + 1, bad.chars().count() + 1);
    ls.push(bad);
    if r.pct(50) {
        ls.push(format!("{}GET {}", i, word(r, &mut n)));
    }
    (ls.join("\n") + "\n", at)
}

/// Files nested more and more deeply, read on a stack of 8 MB as a build
/// script has it.
fn nested(ctx: &Ctx) {
    let dir = ctx.scratch.join("nested");
    let _ = std::fs::create_dir_all(&dir);
    for levels in [50, 100, 200, 4000] {
        for end in ["GET Z", "???", "{id", "GET A B"] {
            let mut t = String::from("/\n");
            for k in 0..levels {
                t.push_str(&format!("{}a{}\n", "  ".repeat(k + 1), k));
            }
            t.push_str(&format!("{}{}\n", "  ".repeat(levels + 1), end));
            let name = format!("nested-{}", levels);
            std::fs::write(dir.join(&name), &t).expect("scratch file");
            let exe = std::env::current_exe().expect("own path").with_file_name("wfcost");
            let mut c = std::process::Command::new(exe);
            c.arg(&name).current_dir(&dir).env("WF_STACK", (8 << 20).to_string()).env("WF_ONLY_READ", "1");
            sys::limit(&mut c, sys::RLIMIT_CPU, 120, 121);
            sys::limit(&mut c, sys::RLIMIT_CORE, 0, 0);
            let d = sys::run(&mut c, &dir, "nested", 600);
            let err = String::from_utf8_lossy(&d.err).to_string();
            ctx.count("evaluations", 1);
            ctx.count("files nested up to 4000 levels, on a stack of 8 MB", 1);
            ctx.distinct(hash(&t));
            let overflow = err.contains("has overflowed its stack");
            match d.end {
                sys::End::Exit(0) => {}
                sys::End::NoStart(e) => ctx.unknown(format!("cannot read a nested file: {}", e)),
                sys::End::Timeout => ctx.unknown("reading a nested file took too long".into()),
                sys::End::Signal(6) if overflow && levels == 4000 && crate::route::listed("K4") => ctx.known(crate::route::noted("K4")),
                _ => ctx.violation(
                    format!("reading a file nested {} levels deep does not end well: {}", levels, err.chars().take(300).collect::<String>()),
                    vec![("nested.routes".to_string(), t.into_bytes())],
                ),
            }
        }
    }
    let _ = std::fs::remove_dir_all(&dir);
}

pub fn c15(ctx: &Ctx) {
    ctx.rule("arbitrary texts (damaged route files, token soup, random bytes, very long and deep files) are read and their errors shown; one evaluation is one text read and reported without panic or hang, every quoted line checked to be that line of the text and every marker to be inside it; for files with one known faulty line, no marker lies past the fault and a fault after complete items is quoted itself; distinct = text");
    let salt = hash(&ctx.id);
    nested(ctx);
    ctx.parallel(jobs(ctx, 1500), |j| {
        for k in 0..PER {
            let mut r = Rng::stream(ctx.seed ^ salt, j as u64, k as u64);
            // any text at all
            let t = match r.below(40) {
                0 => {
                    let n = r.below(200);
                    (0..n).map(|_| char::from_u32(r.below(0x3000) as u32).unwrap_or('x')).collect::<String>()
                }
                1 => {
                    let n = r.range(100, 20_000);
                    r.pick(&["a", "/", "  ", "\n", "[", "{a", "GET ", "::", "\u{e9}"]).repeat(n)
                }
                2 => {
                    let d = r.range(20, 150);
                    let mut s = String::from("/\n");
                    for l in 1..=d {
                        s.push_str(&format!("{}n{}\n", "  ".repeat(l), l));
                    }
                    s.push_str(&"  ".repeat(d + 1));
                    s.push_str(r.pick(&["GET A\n", "???\n", "GET A", ""]));
                    s
                }
                3 => {
                    let n = r.range(100, 1500);
                    let mut s = String::from("/\n");
                    for l in 0..n {
                        s.push_str(&format!("  n{}\n    GET A{}\n", l, l));
                    }
                    s.push_str("???");
                    s
                }
                4 if k % 100 == 0 => {
                    // line numbers of many digits
                    let n = r.range(5_100, 9_000);
                    let mut s = String::from("/\n");
                    for l in 0..n {
                        s.push_str(&format!("  n{}\n    GET A{}\n", l, l));
                    }
                    s.push_str("???");
                    s
                }
                _ => broken(&mut r),
            };
            let prefix = if r.pct(30) { "error: " } else { "" };
            ctx.count("evaluations", 1);
            ctx.distinct(hash(&t));
            match ctx.guard(&t, || report(&t, prefix)) {
                Err(p) => ctx.violation(format!("reading a file or showing its errors panicked: {}", p), vec![file("text.routes", &t)]),
                Ok(None) => ctx.count("texts accepted", 1),
                Ok(Some(rep)) => match citations(&t, &rep, prefix) {
                    Err(e) => ctx.violation(
                        format!("an error report does not describe its file: {}\n{}", e, rep.chars().take(400).collect::<String>()),
                        vec![file("text.routes", &t), file("report", &rep)],
                    ),
                    Ok(c) if c.is_empty() => ctx.violation(
                        "a refused file has no error report".into(),
                        vec![file("text.routes", &t)],
                    ),
                    Ok(c) => {
                        ctx.count("texts refused with a report", 1);
                        ctx.count("lines quoted", c.len() as u64);
                        if k % 50 == 3 {
                            ctx.sample(format!("{:?} -> {:?}", t.chars().take(100).collect::<String>(), c));
                        }
                    }
                },
            }
            // a faulty line deep in a file that is complete so far
            let (t, fault) = deep_fault(&mut r);
            ctx.count("evaluations", 1);
            ctx.distinct(hash(&t));
            match ctx.guard(&t, || report(&t, "")) {
                Err(p) => ctx.violation(format!("reading a file or showing its errors panicked: {}", p), vec![file("text.routes", &t)]),
                Ok(None) => ctx.violation(format!("line {} is not in the language, and is accepted", fault.0), vec![file("text.routes", &t)]),
                Ok(Some(rep)) => match citations(&t, &rep, "") {
                    Err(e) => ctx.violation(format!("an error report does not describe its file: {}", e), vec![file("text.routes", &t), file("report", &rep)]),
                    Ok(cs) => {
                        ctx.count("files with one faulty line after complete items", 1);
                        ctx.count("lines quoted", cs.len() as u64);
                        let bad = if !cs.iter().any(|c| c.0 == fault.0) {
                            Some("the faulty line itself is not reported".to_string())
                        } else {
                            cs.iter().find(|c| (c.0, c.1) > fault).map(|p| format!("line {} column {} is reported, past the fault", p.0, p.1))
                        };
                        if let Some(b) = bad {
                            ctx.violation(
                                format!("the only fault is at line {}: {}\n{}", fault.0, b, rep),
                                vec![file("text.routes", &t), file("report", &rep)],
                            );
                        }
                    }
                },
            }
            // one known fault
            let c = small(&mut r);
            let st = Style { crlf: 0, ..if r.pct(50) { Style::plain() } else { Style { blanks: 30, ..Style::plain() } } };
            let t = print(&c, st, &mut r);
            let mut ls: Vec<&str> = t.split('\n').collect();
            ls.pop();
            let slash = ls.iter().position(|l| *l == "/").unwrap();
            let at = r.range(slash + 1, ls.len());
            let ind = "  ".repeat(r.below(5));
            let word = *r.pick(&["???", "#", ".", "*a", "\"x\"", "\u{2603}", "?GET A"]);
            let g = format!("{}{}", ind, word);
            let before = ls[..at].iter().rev().map(|l| l.trim_start()).find(|l| !l.is_empty() && !l.starts_with('[')).unwrap_or("/");
            ls.insert(at, &g);
            let t = format!("{}\n", ls.join("\n"));
            let fault = (at + 1, ind.len() + 1);
            ctx.count("evaluations", 1);
            ctx.distinct(hash(&t));
            match ctx.guard(&t, || report(&t, "")) {
                Err(p) => ctx.violation(format!("reading a file or showing its errors panicked: {}", p), vec![file("text.routes", &t)]),
                Ok(None) => ctx.violation(format!("line {} is not in the language, and is accepted", fault.0), vec![file("text.routes", &t)]),
                Ok(Some(rep)) => {
                    let cs = match citations(&t, &rep, "") {
                        Ok(c) => c,
                        Err(e) => {
                            ctx.violation(format!("an error report does not describe its file: {}", e), vec![file("text.routes", &t), file("report", &rep)]);
                            continue;
                        }
                    };
                    ctx.count("files with one known fault", 1);
                    let past = cs.iter().find(|c| (c.0, c.1) > fault);
                    // a path segment may be followed by its block only, and as long as nothing in that
                    // block is complete, the report is about the block
                    let w = before.split(' ').next().unwrap_or("").to_uppercase();
                    let segment = !(before.contains(' ') && METHODS.contains(&w.as_str()));
                    let quoted = cs.iter().any(|c| c.0 == fault.0);
                    let bad = if cs.is_empty() {
                        Some("nothing is reported".to_string())
                    } else if let Some(p) = past {
                        Some(format!("line {} column {} is reported, past the fault", p.0, p.1))
                    } else if !segment && !quoted {
                        Some("the faulty line itself is not reported".to_string())
                    } else {
                        None
                    };
                    if let Some(b) = bad {
                        ctx.violation(
                            format!("the only fault is at line {} column {}: {}\n{}", fault.0, fault.1, b, rep),
                            vec![file("text.routes", &t), file("report", &rep)],
                        );
                    }
                }
            }
        }
    });
}
