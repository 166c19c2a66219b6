//! Generators of route configurations.

use crate::cfg::*;
use crate::rng::Rng;
use crate::ty;
use std::collections::{HashMap, HashSet};

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Overlap {
    None,  // a parameter has no literal siblings
    Clean, // literal siblings, but none of the known findings' shapes
    Any,
}

#[derive(Clone, Debug)]
pub struct Prof {
    pub depth: usize,
    pub kids: usize,      // usual maximum of children
    pub wide: usize,      // percent of nodes with many children
    pub params: usize,    // percent of nodes with a parameter child
    pub overlap: Overlap,
    pub overlap_pct: usize,
    pub family: usize,    // percent of literals derived from a sibling
    pub odd: usize,       // percent of literals a route file cannot hold
    pub query: usize,
    pub redirects: usize, // expected number per config
    pub modules: usize,   // maximal module depth
    pub headers: usize,   // percent of configs with headers of their own
    pub budget: usize,    // maximal number of nodes
    pub lib_types: bool,
    pub reserved: usize, // percent of parameters named like a local of the matcher
    pub stretch: usize,  // percent of configurations stretched in one dimension
}

/// One dimension in which a configuration goes beyond the usual.
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Stretch {
    No,
    Deep,    // many levels
    Params,  // many parameters in one path
    Long,    // long literals with long common prefixes
    Names,   // long and odd names
    Modules, // modules in modules in modules
    Query,   // many query parameters
    Big,     // many routes
    Wide,    // very many siblings
}

impl Default for Prof {
    fn default() -> Prof {
        Prof {
            depth: 4,
            kids: 4,
            wide: 3,
            params: 45,
            overlap: Overlap::Clean,
            overlap_pct: 30,
            family: 45,
            odd: 10,
            query: 20,
            redirects: 1,
            modules: 2,
            headers: 15,
            budget: 30,
            lib_types: true,
            reserved: 10,
            stretch: 20,
        }
    }
}

const WORDS: [&str; 72] = [
    "ABC12", "RSS20", "INDEX", "DOWNLOADS", "Q4", "aB", "2024_12_31", "123456789", "_____",
    "한글", "한국", "ｗｉｄｅ", "𠀀𠀁", "𠀁", "привет", "ύλη",
    "aa", "aaa", "00", "www", "0000000",
    "subscriptions", "organisation_units", "notifications",
    "people", "books", "new", "edit", "admin", "search", "api", "v1", "v2", "users", "orders", "items", "a", "b", "x",
    "foo", "foobar", "fo", "fomo", "foosh", "bar", "barn", "about", "help", "login", "log", "logout", "index", "show",
    "news", "newest", "Settings", "API", "0", "42", "2019", "user_groups", "_", "_x", "posts", "post", "p0",
    "café", "cafè", "caf", "日本", "日曜", "é",
];
const ODD: [&str; 14] = [
    "user-groups", "index.html", "robots.txt", "~root", "a-b-c", "v1.0", ".well-known", "a~", "x.tar.gz", "C++", "a,b",
    "me@here", "50%25", "-",
];
const MODS: [&str; 16] = [
    "Type", "static", "Match",
    "People", "books", "Admin", "AdminPanel", "user_groups", "api", "V2", "Orders", "inner", "Deep", "x", "Accounts", "Menüs",
];
const ACTS: [&str; 20] = [
    "Index", "Show", "New", "Create", "Edit", "Update", "Delete", "Search", "show_all", "list", "Home", "AboutUs",
    "step_one_two", "Get", "Upload", "Dashboard", "People", "api_key", "Café", "zur_Höhe",
];
const PARAMS: [&str; 21] = [
    "identifier", "customer_number", "organisation", "created_after", "id", "name", "slug", "a", "b", "user_id", "page", "e", "x1", "title", "kind", "post_id", "lang", "year", "month", "_p", "größe",
];
const QPARAMS: [&str; 15] =
    ["type", "include_archived", "sort_direction", "q", "lang", "sort", "limit", "offset", "debug", "flag", "filter_by", "z", "cursor", "s", "_q"];
const RESERVED: [&str; 9] = ["method", "path", "len", "i", "start", "text", "self_", "route", "routes"];

/// A configuration many times over, each time below a level and in a module of its own.
pub fn copies(c: &Cfg, n: usize) -> Cfg {
    fn rename(n: &mut Node, module: &str) {
        for r in n.res.iter_mut() {
            r.modules.insert(0, module.to_string());
        }
        for (_, k) in n.kids.iter_mut() {
            rename(k, module);
        }
    }
    let mut all = Cfg { headers: c.headers.clone(), root: Node::default() };
    for k in 0..n {
        let mut sub = c.root.clone();
        rename(&mut sub, &format!("Copy{}x", k));
        all.root.kids.push((Seg::Lit(format!("copy{}x", k)), sub));
    }
    all
}

pub fn literal(r: &mut Rng, sibs: &[String], family: usize, odd: usize) -> String {
    if !sibs.is_empty() && r.pct(family) {
        let base = r.pick(sibs).clone();
        let cut = base.chars().count();
        return match r.below(6) {
            0 => format!("{}{}", base, r.pick(&["s", "er", "0", "_", "x", "bar", "S", "é"])),
            1 if cut > 1 => base.chars().take(r.range(1, cut - 1)).collect(),
            2 => {
                let mut cs: Vec<char> = base.chars().collect();
                let k = cs.len() - 1;
                cs[k] = *r.pick(&['a', 'b', 'q', 'Z', '9', 'é', 'è', '한', '힣', '𠀀']);
                cs.into_iter().collect()
            }
            3 => {
                let mut cs: Vec<char> = base.chars().collect();
                cs[0] = *r.pick(&['a', 'b', 'q', 'Z', '9', 'é', 'è', '한', '힣', '𠀀']);
                cs.into_iter().collect()
            }
            4 => base
                .chars()
                .map(|c| if c.is_ascii_uppercase() { c.to_ascii_lowercase() } else { c.to_ascii_uppercase() })
                .collect(),
            _ => format!("{}{}", base.chars().take(r.range(1, cut)).collect::<String>(), r.pick(WORDS.as_slice())),
        };
    }
    if r.pct(odd) {
        return r.pick(&ODD).to_string();
    }
    match r.below(20) {
        0 => {
            let n = r.range(20, 70);
            (0..n).map(|_| (b'a' + r.below(26) as u8) as char).collect()
        }
        1..=3 => ((b'a' + r.below(26) as u8) as char).to_string(),
        4 => format!("{}{}", r.pick(WORDS.as_slice()), r.below(100)),
        _ => r.pick(WORDS.as_slice()).to_string(),
    }
}

fn typ(r: &mut Rng, prof: &Prof) -> String {
    let n = if prof.lib_types && r.pct(10) { ty::TYPES.len() } else { ty::NTEXT };
    if r.pct(35) {
        "String".into()
    } else {
        ty::TYPES[r.below(n)].0.to_string()
    }
}

fn fresh(r: &mut Rng, pool: &[&str], used: &HashSet<String>) -> String {
    for _ in 0..20 {
        let c = r.pick(pool).to_string();
        if !used.contains(&c) {
            return c;
        }
    }
    for n in 0.. {
        let c = format!("{}{}", r.pick(pool), n);
        if !used.contains(&c) {
            return c;
        }
    }
    unreachable!()
}

const ODD_NAMES: [&str; 16] = [
    "step_two_3", "list_", "HTTPServer", "a1_2b", "ABC", "x_", "Z9", "getAllOfThem", "a_b_c_d_e_f", "T_", "Of_The_House", "Type", "Vector",
    "Struct_", "n0", "ÉtéÀLaMer",
];
const ODD_PARAMS: [&str; 40] = [
    "type", "match", "in", "ref", "async", "None", "Some", "Ok", "Err", "Index", "Show", "Route", "String", "P", "M", "Match", "Error", "std", "str", "u32",
    "Id", "userId", "ID", "a__b", "x_", "_", "n0", "param", "what", "e1", "r", "w", "fmt_", "route_id", "__q", "__", "_id", "__Id",
    "___path", "__text",
];

/// A name easily taken for another one.
fn kin(r: &mut Rng, base: &str, of_param: bool) -> String {
    let mut c: Vec<char> = base.chars().collect();
    let k = r.below(c.len());
    match r.below(8) {
        7 if of_param => {
            for _ in 0..*r.pick(&[1, 2, 2, 2, 3]) {
                c.insert(0, '_');
            }
            return c.into_iter().collect();
        }
        0 => c.push('_'),
        1 => c.push(*r.pick(&['0', '1', '2', '9'])),
        2 => c.push(*r.pick(&['s', 'e', 'A', 'Z'])),
        3 | 4 => {
            if c[k].is_ascii_lowercase() {
                c[k] = c[k].to_ascii_uppercase()
            } else {
                c[k] = c[k].to_ascii_lowercase()
            }
        }
        5 if c.len() > 2 => {
            c.pop();
        }
        _ => c.insert(k.max(1), '_'),
    }
    let s: String = c.into_iter().collect();
    let plain = s.chars().next().map_or(false, |c| c.is_alphabetic()) && !s.contains("__") && s != "Self" && s != "self";
    if plain {
        s
    } else {
        base.to_string()
    }
}

fn long_name(r: &mut Rng, first: &str) -> String {
    let n = r.range(15, 60);
    let mut s = first.to_string();
    for _ in 0..n {
        let c = *r.pick(&['a', 'b', 'e', 'n', 't', '_', '0', '7', 'Q']);
        // how two underscores in a row are turned into a type's name is nobody's promise
        if c != '_' || !s.ends_with('_') {
            s.push(c);
        }
    }
    s.push('z');
    s
}

struct G<'a> {
    r: &'a mut Rng,
    p: Prof,
    stretch: Stretch,
    stems: Vec<String>,
    wide_at: usize,
    handlers: HashSet<String>,
    names: Vec<(Vec<String>, String)>,
    // which module a name in the code stands for
    modnames: std::collections::HashMap<String, String>,
    // names taken in the Route enum of each module (variants are caps case)
    variants: HashMap<String, HashMap<String, bool>>,
    nodes: usize,
}

/// The known findings' shapes: literals beside a parameter (see known-findings.txt).
pub fn shape_k1(lits: &[&str]) -> bool {
    if lits.len() < 2 {
        return false;
    }
    // by bytes: two accented letters may share their first
    let mut lcp: &[u8] = lits[0].as_bytes();
    for l in lits {
        let n = lcp.iter().zip(l.bytes()).take_while(|(a, b)| **a == *b).count();
        lcp = &lcp[..n];
    }
    !lcp.is_empty() && !lits.iter().any(|l| l.as_bytes() == lcp)
}

pub fn shape_k2(lits: &[&str]) -> bool {
    lits.len() == 1
}

impl<'a> G<'a> {
    fn handler(&mut self) -> Option<(Vec<String>, String)> {
        for _ in 0..30 {
            let d = if self.p.modules == 0 || self.r.pct(30) { 0 } else { self.r.range(1, self.p.modules) };
            let mut mods = vec![];
            for _ in 0..d {
                mods.push(if self.r.pct(if self.stretch == Stretch::Names { 30 } else { 5 }) {
                    long_name(self.r, "m")
                } else {
                    self.r.pick(&MODS).to_string()
                });
            }
            if !self.names.is_empty() && self.r.pct(if self.stretch == Stretch::Names { 30 } else { 4 }) {
                // a module easily taken for another one
                let mut like = self.r.pick(&self.names).0.clone();
                if !like.is_empty() {
                    let k = self.r.below(like.len());
                    like[k] = kin(self.r, &like[k], false);
                    mods = like;
                }
            }
            let name = if self.r.pct(if self.stretch == Stretch::Names { 70 } else { 8 }) {
                if !self.names.is_empty() && self.r.pct(35) {
                    let (m, base) = self.r.pick(&self.names).clone();
                    if self.r.pct(60) {
                        mods = m;
                    }
                    kin(self.r, &base, false)
                } else if self.r.pct(50) {
                    self.r.pick(&ODD_NAMES).to_string()
                } else {
                    let a = *self.r.pick(&["H", "Commonly", "common_"]);
                    long_name(self.r, a)
                }
            } else if self.r.pct(75) {
                self.r.pick(&ACTS).to_string()
            } else {
                format!("{}{}", self.r.pick(&["Act", "act_", "Item", "do_it_"]), self.r.below(1000))
            };
            if self.take(&mods, &name) {
                self.names.push((mods.clone(), name.clone()));
                return Some((mods, name));
            }
        }
        None
    }

    /// Reserve the names a handler needs; false when they collide with others.
    fn take(&mut self, mods: &[String], name: &str) -> bool {
        let mut at = String::new();
        // check, then take
        for pass in 0..2 {
            at.clear();
            for m in mods {
                // two modules of one name in the code
                let key = format!("{}{}", at, caps(m));
                match self.modnames.get(&key) {
                    Some(n) if n != m => return false,
                    _ if pass == 1 => {
                        self.modnames.insert(key, m.clone());
                    }
                    _ => {}
                }
                let v = self.variants.entry(at.clone()).or_default();
                match v.get(&caps(m)) {
                    Some(true) => return false, // an action
                    Some(false) => {}
                    None if pass == 1 => {
                        v.insert(caps(m), false);
                    }
                    None => {}
                }
                at.push_str(&snake(m));
                at.push_str("::");
            }
            let v = self.variants.entry(at.clone()).or_default();
            if pass == 0 {
                if v.contains_key(&caps(name)) || self.handlers.contains(&format!("{}{}", at, caps(name))) {
                    return false;
                }
            } else {
                v.insert(caps(name), true);
                self.handlers.insert(format!("{}{}", at, caps(name)));
            }
        }
        true
    }

    fn queries(&mut self, used: &mut HashSet<String>, pct: usize) -> Vec<P> {
        let mut out = vec![];
        let mut p = pct;
        let many = self.stretch == Stretch::Query;
        while self.r.pct(p) && out.len() < if many { 12 } else { 4 } {
            let name = if let Some(n) = self.odd_param(used) {
                n
            } else if self.r.pct(self.p.reserved) {
                fresh(self.r, &RESERVED, used)
            } else {
                fresh(self.r, &QPARAMS, used)
            };
            used.insert(name.clone());
            out.push(P { name, ty: typ(self.r, &self.p) });
            p = if many { 85 } else { 40 };
        }
        out
    }

    fn odd_param(&mut self, used: &HashSet<String>) -> Option<String> {
        if !self.r.pct(if self.stretch == Stretch::Names { 60 } else { 10 }) {
            return None;
        }
        let mut others: Vec<&String> = used.iter().collect();
        others.sort();
        let n = if !others.is_empty() && self.r.pct(35) {
            let base = self.r.pick(&others).to_string();
            kin(self.r, &base, true)
        } else if self.r.pct(50) {
            self.r.pick(&ODD_PARAMS).to_string()
        } else {
            long_name(self.r, "p")
        };
        // a single underscore is no name for a field
        if n == "_" || used.contains(&n) {
            return None;
        }
        Some(n)
    }

    fn literal(&mut self, sibs: &[String]) -> String {
        if self.r.pct(if self.stretch == Stretch::Long { 80 } else { 5 }) {
            if self.stems.is_empty() || self.r.pct(5) {
                let n = *self.r.pick(&[14, 15, 16, 17, 30, 31, 32, 33, 62, 64, 65, 100, 127, 128, 200, 255, 256, 257]);
                let c = *self.r.pick(&['a', 'x', '0']);
                self.stems.push((0..n).map(|k| if k % 7 == 3 { 'e' } else { c }).collect());
            }
            let s = self.r.pick(&self.stems).clone();
            let t = *self.r.pick(&["", "b", "c", "bc", "_", "0", "eeeeeeeeeeeeeeeee", "bb"]);
            return format!("{}{}", s, t);
        }
        literal(self.r, sibs, self.p.family, self.p.odd)
    }

    fn node(&mut self, depth: usize, used: &HashSet<String>) -> Node {
        self.nodes += 1;
        let mut n = Node::default();
        let mut used = used.clone();
        n.query = self.queries(&mut used, self.p.query / 2);
        let short = match self.stretch {
            Stretch::Deep | Stretch::Params => 3,
            _ => 25,
        };
        let leaf = depth >= self.p.depth || self.nodes >= self.p.budget || (depth > 0 && self.r.pct(short));
        if !leaf {
            let has_par = self.r.pct(self.p.params);
            let mut nl = if self.p.wide > 0 && self.r.pct(self.p.wide) {
                self.r.range(8, 40)
            } else {
                self.r.range(0, self.p.kids)
            };
            if has_par && (self.p.overlap == Overlap::None || !self.r.pct(self.p.overlap_pct)) {
                nl = 0;
            }
            if !has_par && nl == 0 && matches!(self.stretch, Stretch::Deep | Stretch::Params) {
                nl = 1;
            }
            if depth == self.wide_at {
                nl = self.r.range(60, 280);
            }
            let mut lits: Vec<String> = vec![];
            for _ in 0..nl {
                let l = self.literal(&lits);
                if !lits.contains(&l) {
                    lits.push(l);
                }
            }
            if has_par && self.p.overlap == Overlap::Clean {
                // one literal alone is finding K2, a branching common prefix K1
                let v: Vec<&str> = lits.iter().map(|s| s.as_str()).collect();
                if shape_k2(&v) || shape_k1(&v) {
                    for c in ["q0", "Zed", "_7"] {
                        if !lits.iter().any(|l| l == c) {
                            lits.push(c.to_string());
                        }
                    }
                }
            }
            let mut kids: Vec<Seg> = lits.into_iter().map(Seg::Lit).collect();
            if has_par {
                let name = if let Some(n) = self.odd_param(&used) {
                    n
                } else if self.r.pct(self.p.reserved) {
                    fresh(self.r, &RESERVED, &used)
                } else {
                    fresh(self.r, &PARAMS, &used)
                };
                let ty = typ(self.r, &self.p);
                kids.push(Seg::Par(P { name, ty }));
            }
            self.r.shuffle(&mut kids);
            for s in kids {
                let mut u = used.clone();
                if let Seg::Par(ref p) = s {
                    u.insert(p.name.clone());
                }
                let k = self.node(depth + 1, &u);
                n.kids.push((s, k));
            }
        }
        let need = n.kids.is_empty();
        let mut ms = vec![0, 1, 2, 3];
        self.r.shuffle(&mut ms);
        let cnt = if need {
            *self.r.pick(&[1, 1, 1, 2, 2, 3, 4])
        } else {
            *self.r.pick(&[0, 0, 0, 1, 1, 2, 4])
        };
        for m in ms.into_iter().take(cnt) {
            if let Some((modules, name)) = self.handler() {
                let mut u = used.clone();
                // names below this node are free to repeat these
                let query = self.queries(&mut u, self.p.query);
                n.res.push(Res { method: m, modules, name, redirect: false, query });
            }
        }
        if n.res.is_empty() && n.kids.is_empty() {
            // ran out of names: make one
            for k in 0.. {
                let name = format!("Made{}", k);
                if self.take(&[], &name) {
                    n.res.push(Res { method: 0, modules: vec![], name, redirect: false, query: vec![] });
                    break;
                }
            }
        }
        n
    }
}

/// Add a redirect to an existing handler at a place that has all it needs.
pub fn add_redirect(c: &mut Cfg, r: &mut Rng, overlap: Overlap) -> bool {
    let (name, modules, params, queries) = {
        let es = c.entries();
        let es: Vec<&Entry> = es.iter().filter(|e| !e.res.redirect).collect();
        if es.is_empty() {
            return false;
        }
        let e = if r.pct(60) {
            let with: Vec<&&Entry> = es.iter().filter(|e| !e.params().is_empty()).collect();
            if with.is_empty() {
                r.pick(&es)
            } else {
                *r.pick(&with)
            }
        } else {
            r.pick(&es)
        };
        (
            e.res.name.clone(),
            e.res.modules.clone(),
            e.params().into_iter().cloned().collect::<Vec<P>>(),
            e.queries().into_iter().cloned().collect::<Vec<P>>(),
        )
    };
    let alike: Vec<(Vec<String>, String)> = c
        .entries()
        .iter()
        .filter(|e| {
            let same = |a: Vec<&P>, b: &[P]| a.len() == b.len() && a.iter().all(|p| b.contains(p));
            !e.res.redirect && same(e.params(), &params) && same(e.queries(), &queries)
        })
        .map(|e| (e.res.modules.clone(), e.res.name.clone()))
        .collect();
    let mut params = params;
    if r.pct(50) {
        r.shuffle(&mut params);
    }
    let mut path: Vec<Seg> = vec![];
    // beside resources that are there already, or at a place of its own
    let there: Vec<Vec<Seg>> = c
        .nodes()
        .iter()
        .filter(|(p, n)| {
            let ps: Vec<&P> = p.iter().filter_map(|s| if let Seg::Par(p) = s { Some(p) } else { None }).collect();
            n.res.len() < 4 && ps.len() == params.len() && ps.iter().all(|p| params.contains(p))
        })
        .map(|(p, _)| p.iter().map(|s| (*s).clone()).collect())
        .collect();
    if r.pct(30) && !there.is_empty() {
        path = r.pick(&there).clone();
    } else {
        if !params.is_empty() || r.pct(80) {
            path.push(Seg::Lit(r.pick(&["old", "legacy", "go", "r", "moved", "was"]).to_string()));
        }
        for p in params {
            if r.pct(30) {
                path.push(Seg::Lit(r.pick(&["of", "to", "the"]).to_string()));
            }
            path.push(Seg::Par(p));
        }
        if r.pct(30) {
            path.push(Seg::Lit(r.pick(&["there", "end"]).to_string()));
        }
    }
    // walk, checking before touching anything
    {
        let mut n = &c.root;
        let mut inherited: Vec<&P> = n.query.iter().collect();
        for s in &path {
            if let Some((_, k)) = n.kids.iter().find(|(t, _)| t == s) {
                n = k;
                inherited.extend(n.query.iter());
                continue;
            }
            let has_par = n.kids.iter().any(|(t, _)| matches!(t, Seg::Par(_)));
            let lits = n.kids.iter().filter(|(t, _)| matches!(t, Seg::Lit(_))).count();
            match s {
                Seg::Par(_) if has_par => return false,
                Seg::Par(_) if lits > 0 && overlap != Overlap::Any => return false,
                Seg::Lit(l) if has_par => {
                    let mut v: Vec<&str> = n
                        .kids
                        .iter()
                        .filter_map(|(t, _)| match t {
                            Seg::Lit(l) => Some(l.as_str()),
                            _ => None,
                        })
                        .collect();
                    v.push(l);
                    if overlap != Overlap::Any && (overlap == Overlap::None || shape_k1(&v) || shape_k2(&v)) {
                        return false;
                    }
                }
                _ => {}
            }
            break;
        }
        if inherited.iter().any(|p| !queries.contains(p)) {
            return false;
        }
    }
    let mut n = &mut c.root;
    let mut rest = queries;
    rest.retain(|p| !n.query.contains(p));
    for s in path {
        let k = match n.kids.iter().position(|(t, _)| *t == s) {
            Some(k) => k,
            None => {
                n.kids.push((s, Node::default()));
                n.kids.len() - 1
            }
        };
        n = &mut n.kids[k].1;
        rest.retain(|p| !n.query.contains(p));
    }
    let free: Vec<usize> = (0..4).filter(|m| !n.res.iter().any(|x| x.method == *m)).collect();
    if free.is_empty() {
        return false; // an existing node: nothing was added
    }
    r.shuffle(&mut rest);
    let at = r.below(n.res.len() + 1);
    let method = *r.pick(&free);
    n.res.insert(at, Res { method, modules: modules.clone(), name: name.clone(), redirect: true, query: rest.clone() });
    // several redirects at one place: to the same handler, or to one that takes the same
    let mut free = free;
    free.retain(|m| *m != method);
    while !free.is_empty() && r.pct(35) {
        let m = free.remove(r.below(free.len()));
        let (modules, name) = if alike.is_empty() || r.pct(40) { (modules.clone(), name.clone()) } else { r.pick(&alike).clone() };
        let at = r.below(n.res.len() + 1);
        n.res.insert(at, Res { method: m, modules, name, redirect: true, query: rest.clone() });
    }
    true
}

fn type_headers(c: &mut Cfg) {
    let mut need: Vec<String> = vec![];
    fn want(p: &P, need: &mut Vec<String>) {
        let h = ty::row(&p.ty).1;
        if !h.is_empty() && !need.iter().any(|x| x == h) {
            need.push(h.to_string());
        }
    }
    for (path, n) in c.nodes() {
        for s in path {
            if let Seg::Par(p) = s {
                want(p, &mut need)
            }
        }
        for p in n.query.iter().chain(n.res.iter().flat_map(|r| r.query.iter())) {
            want(p, &mut need)
        }
    }
    for h in need {
        if !c.headers.contains(&h) {
            c.headers.push(h);
        }
    }
}

pub fn config(r: &mut Rng, prof: &Prof) -> Cfg {
    let mut c = Cfg::default();
    let mut prof = prof.clone();
    let mut stretch = Stretch::No;
    let mut wide_at = usize::MAX;
    if r.pct(prof.stretch) {
        use Stretch::*;
        stretch = *r.pick(&[Deep, Deep, Params, Params, Long, Long, Long, Names, Names, Modules, Query, Big, Wide]);
        match stretch {
            Deep => {
                prof.depth = r.range(9, 24);
                prof.kids = 2;
                prof.wide = 0;
                prof.budget = prof.budget.max(30);
            }
            Params => {
                prof.depth = r.range(6, 14);
                prof.kids = 1;
                prof.wide = 0;
                prof.params = 85;
                prof.budget = prof.budget.max(20);
                prof.overlap_pct = prof.overlap_pct.min(15);
            }
            Modules => prof.modules = 6,
            Query => prof.query = 80,
            Big => {
                prof.budget = prof.budget.max(30) * 3;
                prof.kids = 6;
            }
            Wide => {
                wide_at = r.below(2);
                prof.depth = wide_at + 1;
                prof.budget = 3;
            }
            Long | Names | No => {}
        }
    }
    let prof = &prof;
    let mut g = G {
        r,
        p: prof.clone(),
        stretch,
        stems: vec![],
        wide_at,
        handlers: HashSet::new(),
        names: vec![],
        modnames: Default::default(),
        variants: HashMap::new(),
        nodes: 0,
    };
    c.root = g.node(0, &HashSet::new());
    if c.root.res.is_empty() && c.root.kids.is_empty() {
        unreachable!()
    }
    for _ in 0..prof.redirects {
        if r.pct(75) {
            let before = c.clone();
            add_redirect(&mut c, r, prof.overlap);
            if sane(&c).is_err() {
                c = before;
            }
        }
    }
    type_headers(&mut c);
    if r.pct(prof.headers) {
        for h in [
            "use std::collections::HashMap;",
            "// a line of the application's own",
            "#[allow(unused_macros)] macro_rules! own { () => {}; }",
            "const LIMIT: usize = 10;",
        ] {
            if r.pct(40) {
                let at = r.below(c.headers.len() + 1);
                c.headers.insert(at, h.to_string());
            }
        }
    }
    c
}

/// What every reader of a configuration agrees on: is it within the language?
pub fn sane(c: &Cfg) -> Result<(), String> {
    let mut seen = HashSet::new();
    for e in c.entries() {
        let mut names = HashSet::new();
        for p in e.params().iter().chain(e.queries().iter()) {
            if !names.insert(p.name.clone()) {
                return Err(format!("{} has two parameters {}", e.template(), p.name));
            }
        }
        if !e.res.redirect && !seen.insert(e.res.handler()) {
            return Err(format!("two {}", e.res.handler()));
        }
    }
    for (p, n) in c.nodes() {
        let pars = n.kids.iter().filter(|(s, _)| matches!(s, Seg::Par(_))).count();
        if pars > 1 {
            return Err(format!("{:?} has two parameters", p));
        }
        let mut k = HashSet::new();
        for (s, _) in &n.kids {
            if !k.insert(s.clone()) {
                return Err(format!("{:?} twice", s));
            }
        }
        let mut m = HashSet::new();
        for r in &n.res {
            if !m.insert(r.method) {
                return Err("two resources for one method".into());
            }
        }
    }
    for e in c.entries() {
        if e.res.redirect {
            let t = c.entries();
            let t = t.iter().find(|t| !t.res.redirect && t.res.handler() == e.res.handler());
            match t {
                None => return Err(format!("redirect to nowhere {}", e.res.handler())),
                Some(t) => {
                    let key = |e: &Entry| {
                        let mut v: Vec<(String, String, bool)> =
                            e.params().iter().map(|p| (p.name.clone(), p.ty.clone(), false)).collect();
                        v.extend(e.queries().iter().map(|p| (p.name.clone(), p.ty.clone(), true)));
                        v.sort();
                        v
                    };
                    if key(&e) != key(t) {
                        return Err(format!("redirect {} does not fit", e.res.handler()));
                    }
                }
            }
        }
    }
    Ok(())
}
