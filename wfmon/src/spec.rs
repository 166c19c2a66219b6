//! What a router must answer: the reference reading of a configuration.

use crate::cfg::*;
use crate::gen;
use crate::ty;

#[derive(Clone, Debug, Eq)]
pub struct Hit {
    pub redirect: bool,
    pub handler: String,
    /// (field, Debug of its value), sorted by name; query parameters included
    pub fields: Vec<(String, String)>,
    /// what to_path must give for it, by the handler's own template
    pub to_path: String,
}

impl PartialEq for Hit {
    // to_path is judged on its own
    fn eq(&self, o: &Hit) -> bool {
        self.redirect == o.redirect && self.handler == o.handler && self.fields == o.fields
    }
}

#[derive(Clone, Debug, PartialEq, Eq)]
pub enum Out {
    NotFound,
    NotAllowed,
    /// a parameter's text is not a value of its type
    Err { param: String, what: String },
    Hit(Hit),
    Panic(String),
}

impl Out {
    pub fn show(&self) -> String {
        match self {
            Out::NotFound => "NotFound".into(),
            Out::NotAllowed => "NotAllowed".into(),
            Out::Err { param, what } => format!("Err(parameter {} {})", param, what),
            Out::Panic(m) => format!("panic: {}", m),
            Out::Hit(h) => format!(
                "{}({} {{{}}}) to_path {:?}",
                if h.redirect { "Redirect" } else { "Route" },
                h.handler,
                h.fields.iter().map(|(n, v)| format!("{}: {}", n, v)).collect::<Vec<_>>().join(", "),
                h.to_path
            ),
        }
    }
    pub fn kind(&self) -> &'static str {
        match self {
            Out::NotFound => "not_found",
            Out::NotAllowed => "not_allowed",
            Out::Err { .. } => "parameter_error",
            Out::Panic(_) => "panic",
            Out::Hit(h) if h.redirect => "redirect",
            Out::Hit(_) => "route",
        }
    }
}

#[derive(Clone, Debug)]
pub struct Expect {
    /// every outcome the specification allows (usually one)
    pub allowed: Vec<Out>,
    /// a panic is not allowed, and any of NotFound/Err(param) is fine
    pub any_refusal: Option<String>,
    /// known findings that touch this request, and what they make of it
    pub keys: Vec<&'static str>,
    pub defect: Vec<Out>,
    /// the request went by a position with both literals and a parameter
    pub overlap: bool,
    /// an empty segment somewhere, where answers may differ
    pub empty_seg: bool,
}

impl Expect {
    pub fn single(&self) -> Option<&Out> {
        if self.allowed.len() == 1 && self.any_refusal.is_none() {
            Some(&self.allowed[0])
        } else {
            None
        }
    }
    pub fn admits(&self, o: &Out) -> bool {
        if self.allowed.contains(o) {
            return true;
        }
        match (&self.any_refusal, o) {
            (Some(_), Out::NotFound) => true,
            (Some(p), Out::Err { param, .. }) => p == param,
            _ => false,
        }
    }
    /// The known finding that explains an outcome the specification forbids.
    pub fn known(&self, o: &Out) -> Option<&'static str> {
        if self.keys.is_empty() || !self.keys.iter().all(|k| crate::route::listed(k)) {
            return None;
        }
        let hit = self.defect.iter().any(|d| match (d, o) {
            (Out::Panic(a), Out::Panic(b)) => b.contains(a.as_str()),
            (a, b) => a == b,
        });
        if hit {
            Some(self.keys[0])
        } else {
            None
        }
    }
    pub fn show(&self) -> String {
        let mut v: Vec<String> = self.allowed.iter().map(|o| o.show()).collect();
        if let Some(p) = &self.any_refusal {
            v.push(format!("NotFound or Err(parameter {})", p));
        }
        v.join(" or ")
    }
}

pub struct Spec<'a> {
    pub cfg: &'a Cfg,
    entries: Vec<Entry<'a>>,
}

struct Walk<'a, 'b> {
    spec: &'b Spec<'a>,
    method: &'b [u8],
    out: Vec<Out>,
    refusal: Option<String>,
    keys: Vec<&'static str>,
    overlap: bool,
    empty: bool,
    defects: bool,
}

impl<'a> Spec<'a> {
    pub fn new(cfg: &'a Cfg) -> Spec<'a> {
        Spec { cfg, entries: cfg.entries() }
    }

    pub fn target(&self, handler: &str) -> Option<&Entry<'a>> {
        self.entries.iter().find(|e| !e.res.redirect && e.res.handler() == handler)
    }
    pub fn entries(&self) -> &[Entry<'a>] {
        &self.entries
    }

    pub fn path_of(&self, handler: &str, vals: &[(String, String)]) -> String {
        let t = match self.target(handler) {
            Some(t) => t,
            None => return String::new(),
        };
        let segs: Vec<String> = t
            .path
            .iter()
            .map(|s| match s {
                Seg::Lit(l) => l.clone(),
                Seg::Par(p) => vals.iter().find(|v| v.0 == p.name).map(|v| v.1.clone()).unwrap_or_default(),
            })
            .collect();
        format!("/{}", segs.join("/"))
    }

    pub fn expect(&self, path: &[u8], method: &[u8]) -> Expect {
        let mut w = self.walk(path, method, false);
        let mut e = Expect {
            allowed: std::mem::take(&mut w.out),
            any_refusal: w.refusal.take(),
            keys: vec![],
            defect: vec![],
            overlap: w.overlap,
            empty_seg: w.empty,
        };
        let d = self.walk(path, method, true);
        e.keys = d.keys;
        e.overlap |= d.overlap;
        e.defect = d.out;
        e
    }

    fn walk<'b>(&'b self, path: &[u8], method: &'b [u8], defects: bool) -> Walk<'a, 'b> {
        let rest = if path.first() == Some(&b'/') { &path[1..] } else { path };
        let segs: Vec<&[u8]> = rest.split(|b| *b == b'/').collect();
        let mut w = Walk {
            spec: self,
            method,
            out: vec![],
            refusal: None,
            keys: vec![],
            overlap: false,
            empty: false,
            defects,
        };
        w.go(&self.cfg.root, &segs, &mut vec![], &mut vec![]);
        if segs.len() == 2 && segs.iter().all(|s| s.is_empty()) {
            // "//": the root with both optional slashes, or an empty segment
            w.terminal(&self.cfg.root, &mut vec![], &self.cfg.root.query.iter().collect::<Vec<_>>());
        }
        w.out.dedup();
        w
    }
}

type Bound = (String, String, String); // name, debug, display

impl<'a, 'b> Walk<'a, 'b> {
    fn add(&mut self, o: Out) {
        if !self.out.contains(&o) {
            self.out.push(o);
        }
    }

    fn terminal(&mut self, n: &'a Node, bound: &mut Vec<Bound>, queries: &[&'a P]) {
        if n.res.is_empty() {
            return self.add(Out::NotFound);
        }
        let res = match n.res.iter().find(|r| METHODS[r.method].as_bytes() == self.method) {
            None => return self.add(Out::NotAllowed),
            Some(r) => r,
        };
        let mut fields: Vec<(String, String)> = bound.iter().map(|b| (b.0.clone(), b.1.clone())).collect();
        for q in queries.iter().copied().chain(res.query.iter()) {
            fields.push((q.name.clone(), "None".into()));
        }
        fields.sort();
        let vals: Vec<(String, String)> = bound.iter().map(|b| (b.0.clone(), b.2.clone())).collect();
        let handler = res.handler();
        let to_path = self.spec.path_of(&handler, &vals);
        self.add(Out::Hit(Hit { redirect: res.redirect, handler, fields, to_path }));
    }

    fn go(&mut self, n: &'a Node, segs: &[&[u8]], bound: &mut Vec<Bound>, queries: &mut Vec<&'a P>) {
        let ql = queries.len();
        queries.extend(n.query.iter());
        self.go2(n, segs, bound, queries);
        queries.truncate(ql);
    }

    fn go2(&mut self, n: &'a Node, segs: &[&[u8]], bound: &mut Vec<Bound>, queries: &mut Vec<&'a P>) {
        if segs.is_empty() {
            return self.terminal(n, bound, queries);
        }
        let seg = segs[0];
        let last_empty = segs.len() == 1 && seg.is_empty();
        let par = n.kids.iter().find_map(|(s, k)| match s {
            Seg::Par(p) => Some((p, k)),
            _ => None,
        });
        if seg.is_empty() {
            if last_empty {
                // one trailing slash is the same place
                self.terminal(n, bound, queries);
                if n.res.is_empty() && par.is_some() {
                    self.empty = true;
                    self.param(par.unwrap(), segs, bound, queries);
                }
            } else {
                self.empty = true;
                self.add(Out::NotFound);
                if let Some(pk) = par {
                    self.param(pk, segs, bound, queries);
                }
            }
            return;
        }
        let lits: Vec<&'a str> = n
            .kids
            .iter()
            .filter_map(|(s, _)| match s {
                Seg::Lit(l) => Some(l.as_str()),
                _ => None,
            })
            .collect();
        let overlap = par.is_some() && !lits.is_empty();
        if overlap {
            self.overlap = true;
        }
        let lit = n.kids.iter().find(|(s, _)| match s {
            Seg::Lit(l) => l.as_bytes() == seg,
            _ => false,
        });
        if self.defects && overlap {
            if gen::shape_k1(&lits) && lit.is_some() {
                self.keys.push("K1");
                return self.param(par.unwrap(), segs, bound, queries);
            }
            if gen::shape_k2(&lits) && lit.is_none() && seg.starts_with(lits[0].as_bytes()) {
                self.keys.push("K2");
                return self.add(Out::NotFound);
            }
        }
        if let Some((_, k)) = lit {
            return self.go(k, &segs[1..], bound, queries);
        }
        match par {
            Some(pk) => self.param(pk, segs, bound, queries),
            None => self.add(Out::NotFound),
        }
    }

    fn param(&mut self, pk: (&'a P, &'a Node), segs: &[&[u8]], bound: &mut Vec<Bound>, queries: &mut Vec<&'a P>) {
        let (p, k) = pk;
        let text = match std::str::from_utf8(segs[0]) {
            Ok(t) => t,
            Err(_) => {
                if self.defects {
                    self.keys.push("K3");
                    self.add(Out::Panic("Utf8Error".into()));
                } else {
                    self.refusal = Some(p.name.clone());
                }
                return;
            }
        };
        match ty::parse(&p.ty, text) {
            Err(what) => self.add(Out::Err { param: p.name.clone(), what }),
            Ok((dbg, disp)) => {
                bound.push((p.name.clone(), dbg, disp));
                self.go(k, &segs[1..], bound, queries);
                bound.pop();
            }
        }
    }
}
