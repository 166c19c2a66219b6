//! The monitor's own picture of a route configuration, independent of the
//! library's types: what a user wrote down, before any of /repo's code saw it.

use crate::rng::Rng;

pub const METHODS: [&str; 4] = ["GET", "POST", "PUT", "DELETE"];

#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub struct P {
    pub name: String,
    /// the type as written in the configuration
    pub ty: String,
}

#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub enum Seg {
    Lit(String),
    Par(P),
}

#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub struct Res {
    pub method: usize,
    pub modules: Vec<String>,
    pub name: String,
    pub redirect: bool,
    pub query: Vec<P>,
}

#[derive(Clone, Debug, Default, PartialEq, Eq, Hash)]
pub struct Node {
    pub query: Vec<P>,
    pub res: Vec<Res>,
    pub kids: Vec<(Seg, Node)>,
}

#[derive(Clone, Debug, Default, PartialEq, Eq, Hash)]
pub struct Cfg {
    pub headers: Vec<String>,
    pub root: Node,
}

impl Res {
    /// `people::Index`: the module path and the struct a user refers to.
    pub fn handler(&self) -> String {
        let mut s = String::new();
        for m in &self.modules {
            s.push_str(&snake(m));
            s.push_str("::");
        }
        s.push_str(&caps(&self.name));
        s
    }

    /// The same as Rust code spells it.
    pub fn rust_path(&self) -> String {
        let mut s = String::new();
        for m in &self.modules {
            s.push_str(&raw(&snake(m)));
            s.push_str("::");
        }
        s.push_str(&caps(&self.name));
        s
    }
}

/// CapsCase for the naming styles the generators use (Caps or lower_snake).
pub fn caps(s: &str) -> String {
    let mut out = String::new();
    for part in s.split('_') {
        let mut cs = part.chars();
        if let Some(c) = cs.next() {
            out.push(c.to_ascii_uppercase());
            out.extend(cs);
        }
    }
    out
}

/// A name as Rust code spells it.
pub fn raw(s: &str) -> String {
    const KEYWORDS: &str = " abstract as async await become box break const continue do dyn else enum extern false final fn for gen if impl in let \
        loop macro match mod move mut override priv pub ref return static struct trait true try type typeof unsafe unsized use virtual where while yield ";
    if KEYWORDS.contains(&format!(" {} ", s)) {
        format!("r#{}", s)
    } else {
        s.to_string()
    }
}

/// lower_snake for the naming styles the generators use.
pub fn snake(s: &str) -> String {
    let mut out = String::new();
    for (i, c) in s.chars().enumerate() {
        if c.is_ascii_uppercase() {
            if i > 0 {
                out.push('_');
            }
            out.push(c.to_ascii_lowercase());
        } else {
            out.push(c);
        }
    }
    out
}

/// One resource with everything that applies to it.
#[derive(Clone, Debug)]
pub struct Entry<'a> {
    pub path: Vec<&'a Seg>,
    /// query parameters of all enclosing routes, outermost first
    pub inherited: Vec<&'a P>,
    pub res: &'a Res,
}

impl<'a> Entry<'a> {
    pub fn params(&self) -> Vec<&'a P> {
        self.path
            .iter()
            .filter_map(|s| match s {
                Seg::Par(p) => Some(p),
                _ => None,
            })
            .collect()
    }
    pub fn queries(&self) -> Vec<&'a P> {
        let mut q = self.inherited.clone();
        q.extend(self.res.query.iter());
        q
    }
    pub fn template(&self) -> String {
        let segs: Vec<String> = self
            .path
            .iter()
            .map(|s| match s {
                Seg::Lit(l) => l.clone(),
                Seg::Par(p) => format!("{{{}}}", p.name),
            })
            .collect();
        format!("/{}", segs.join("/"))
    }
}

impl Cfg {
    pub fn entries(&self) -> Vec<Entry<'_>> {
        fn go<'a>(n: &'a Node, path: &mut Vec<&'a Seg>, q: &mut Vec<&'a P>, out: &mut Vec<Entry<'a>>) {
            let ql = q.len();
            q.extend(n.query.iter());
            for r in &n.res {
                out.push(Entry { path: path.clone(), inherited: q.clone(), res: r });
            }
            for (s, k) in &n.kids {
                path.push(s);
                go(k, path, q, out);
                path.pop();
            }
            q.truncate(ql);
        }
        let mut out = vec![];
        go(&self.root, &mut vec![], &mut vec![], &mut out);
        out
    }

    pub fn nodes(&self) -> Vec<(Vec<&Seg>, &Node)> {
        fn go<'a>(n: &'a Node, path: &mut Vec<&'a Seg>, out: &mut Vec<(Vec<&'a Seg>, &'a Node)>) {
            out.push((path.clone(), n));
            for (s, k) in &n.kids {
                path.push(s);
                go(k, path, out);
                path.pop();
            }
        }
        let mut out = vec![];
        go(&self.root, &mut vec![], &mut out);
        out
    }

    /// Can this configuration be written as a route file?
    pub fn writable(&self) -> bool {
        fn ident(s: &str) -> bool {
            !s.is_empty() && s.chars().all(|c| c.is_alphanumeric() || c == '_')
        }
        fn par(p: &P) -> bool {
            ident(&p.name) && ident(&p.ty)
        }
        fn go(n: &Node) -> bool {
            (!n.res.is_empty() || !n.kids.is_empty())
                && n.query.iter().all(par)
                && n.res.iter().all(|r| {
                    ident(&r.name) && r.modules.iter().all(|m| ident(m)) && r.query.iter().all(par)
                })
                && n.kids.iter().all(|(s, k)| {
                    (match s {
                        Seg::Lit(l) => ident(l),
                        Seg::Par(p) => par(p),
                    }) && go(k)
                })
        }
        self.headers.iter().all(|h| {
            !h.is_empty()
                && !h.contains('\n')
                && !h.contains('\r')
                && (!h.starts_with('/') || h.starts_with("//") || h.starts_with("/*"))
        }) && go(&self.root)
    }

    /// A fingerprint, for counting distinct cases.
    pub fn shape(&self) -> u64 {
        let mut h = 0xcbf2_9ce4_8422_2325u64;
        for b in plain(self).bytes() {
            h = (h ^ b as u64).wrapping_mul(0x0000_0100_0000_01B3);
        }
        h
    }
}

// ---- to the library's types ------------------------------------------------

fn lp(p: &P) -> wayfinder::Param {
    wayfinder::Param { name: p.name.clone(), typ: p.ty.clone() }
}

pub fn lmethod(m: usize) -> wayfinder::Method {
    match m {
        0 => wayfinder::Method::Get,
        1 => wayfinder::Method::Post,
        2 => wayfinder::Method::Put,
        _ => wayfinder::Method::Delete,
    }
}

pub fn lres(r: &Res) -> wayfinder::Resource {
    wayfinder::Resource {
        method: lmethod(r.method),
        modules: r.modules.clone(),
        name: r.name.clone(),
        is_redirect: r.redirect,
        query_parameters: r.query.iter().map(lp).collect(),
    }
}

pub fn lroutes(n: &Node) -> wayfinder::Routes {
    wayfinder::Routes {
        resources: n.res.iter().map(lres).collect(),
        routes: n.kids.iter().map(|(s, k)| lnested(s, k)).collect(),
        query_parameters: n.query.iter().map(lp).collect(),
    }
}

pub fn lnested(s: &Seg, k: &Node) -> wayfinder::NestedRoutes {
    wayfinder::NestedRoutes {
        path_segment: match s {
            Seg::Lit(l) => wayfinder::PathSegment::Static(l.clone()),
            Seg::Par(p) => wayfinder::PathSegment::Dynamic(lp(p)),
        },
        routes: lroutes(k),
    }
}

pub fn lcfg(c: &Cfg) -> wayfinder::RouteConfig {
    wayfinder::RouteConfig {
        headers: c.headers.iter().map(|h| wayfinder::Header { text: h.clone() }).collect(),
        routes: lroutes(&c.root),
    }
}

// ---- and back, so that what the library built can be compared --------------

pub fn from_routes(r: &wayfinder::Routes) -> Node {
    fn fp(p: &wayfinder::Param) -> P {
        P { name: p.name.clone(), ty: p.typ.clone() }
    }
    Node {
        query: r.query_parameters.iter().map(fp).collect(),
        res: r
            .resources
            .iter()
            .map(|r| Res {
                method: METHODS
                    .iter()
                    .position(|m| lmethod(METHODS.iter().position(|x| x == m).unwrap()) == r.method)
                    .unwrap_or(9),
                modules: r.modules.clone(),
                name: r.name.clone(),
                redirect: r.is_redirect,
                query: r.query_parameters.iter().map(fp).collect(),
            })
            .collect(),
        kids: r
            .routes
            .iter()
            .map(|n| {
                (
                    match &n.path_segment {
                        wayfinder::PathSegment::Static(s) => Seg::Lit(s.clone()),
                        wayfinder::PathSegment::Dynamic(p) => Seg::Par(fp(p)),
                    },
                    from_routes(&n.routes),
                )
            })
            .collect(),
    }
}

pub fn from_lib(c: &wayfinder::RouteConfig) -> Cfg {
    Cfg { headers: c.headers.iter().map(|h| h.text.clone()).collect(), root: from_routes(&c.routes) }
}

// ---- writing route files ---------------------------------------------------

/// How freely to write: the language allows blank lines, either line ending,
/// spaces inside brackets and around the arrow, and verbs in any case.
#[derive(Clone, Copy, Debug, Default)]
pub struct Style {
    pub blanks: usize, // percent of line ends followed by blank lines
    pub crlf: usize,   // percent of line ends written as CRLF
    pub spaces: usize, // percent of optional spaces
    pub case: usize,   // percent of verbs in another case
}

impl Style {
    pub fn plain() -> Style {
        Style::default()
    }
    pub fn random(r: &mut Rng) -> Style {
        let lvl = [0, 0, 15, 50, 100];
        Style {
            blanks: *r.pick(&lvl),
            crlf: *r.pick(&lvl),
            spaces: *r.pick(&lvl),
            case: *r.pick(&lvl),
        }
    }
}

struct Pr<'a> {
    out: String,
    st: Style,
    r: &'a mut Rng,
}

impl<'a> Pr<'a> {
    fn eol(&mut self) {
        let nl = |s: &mut Self| {
            if s.r.pct(s.st.crlf) {
                s.out.push_str("\r\n")
            } else {
                s.out.push('\n')
            }
        };
        nl(self);
        if self.r.pct(self.st.blanks) {
            for _ in 0..self.r.range(1, 3) {
                nl(self);
            }
        }
    }
    fn sp(&mut self) {
        if self.r.pct(self.st.spaces) {
            for _ in 0..self.r.range(1, 3) {
                self.out.push(' ');
            }
        }
    }
    fn ind(&mut self, n: usize) {
        for _ in 0..n {
            self.out.push_str("  ");
        }
    }
    fn par(&mut self, p: &P) {
        self.sp();
        self.out.push_str(&p.name);
        if self.st.spaces > 0 {
            self.sp();
            self.out.push(':');
            self.sp();
        } else {
            self.out.push_str(": ");
        }
        self.out.push_str(&p.ty);
        self.sp();
    }
    fn q(&mut self, p: &P, lvl: usize) {
        self.ind(lvl);
        self.out.push('[');
        self.par(p);
        self.out.push(']');
        self.eol();
    }
    fn res(&mut self, r: &Res, lvl: usize) {
        self.ind(lvl);
        let verb = METHODS[r.method];
        if self.r.pct(self.st.case) {
            for c in verb.chars() {
                if self.r.pct(50) {
                    self.out.push(c.to_ascii_lowercase())
                } else {
                    self.out.push(c)
                }
            }
        } else {
            self.out.push_str(verb);
        }
        self.out.push(' ');
        if r.redirect {
            self.sp();
            self.out.push_str("->");
            if self.st.spaces == 0 {
                self.out.push(' ');
            } else {
                self.sp();
            }
        }
        for m in &r.modules {
            self.out.push_str(m);
            self.out.push_str("::");
        }
        self.out.push_str(&r.name);
        self.eol();
        for p in &r.query {
            self.q(p, lvl + 1);
        }
    }
    fn node(&mut self, n: &Node, lvl: usize) {
        for p in &n.query {
            self.q(p, lvl);
        }
        for r in &n.res {
            self.res(r, lvl);
        }
        for (s, k) in &n.kids {
            self.ind(lvl);
            match s {
                Seg::Lit(l) => self.out.push_str(l),
                Seg::Par(p) => {
                    self.out.push('{');
                    self.par(p);
                    self.out.push('}');
                }
            }
            self.eol();
            self.node(k, lvl + 1);
        }
    }
}

pub fn print(c: &Cfg, st: Style, r: &mut Rng) -> String {
    let mut p = Pr { out: String::new(), st, r };
    if st.blanks > 0 && p.r.pct(st.blanks) {
        p.eol();
    }
    for h in &c.headers {
        p.out.push_str(h);
        p.eol();
    }
    p.out.push('/');
    p.eol();
    p.node(&c.root, 1);
    p.out
}

pub fn plain(c: &Cfg) -> String {
    print(c, Style::plain(), &mut Rng::new(0))
}
