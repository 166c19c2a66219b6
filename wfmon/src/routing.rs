//! The checks that compile generated routers and ask them.

use crate::cfg::*;
use crate::ctx::Ctx;
use crate::gen::{self, Overlap, Prof};
use crate::reqs::{Plan, Req};
use crate::rng::Rng;
use crate::route::{self, special, Case, Check, V};
use crate::spec::{Hit, Out};

// ---- configurations every routing check looks at ---------------------------

pub fn lit(s: &str) -> Seg {
    Seg::Lit(s.into())
}
pub fn par(n: &str, t: &str) -> Seg {
    Seg::Par(P { name: n.into(), ty: t.into() })
}
pub fn get(name: &str) -> Res {
    let mut parts: Vec<String> = name.split("::").map(|s| s.to_string()).collect();
    let n = parts.pop().unwrap();
    Res { method: 0, modules: parts, name: n, redirect: false, query: vec![] }
}
pub fn leaf(name: &str) -> Node {
    Node { query: vec![], res: vec![get(name)], kids: vec![] }
}
pub fn tree(res: Vec<Res>, kids: Vec<(Seg, Node)>) -> Node {
    Node { query: vec![], res, kids }
}
pub fn cfg(root: Node) -> Cfg {
    Cfg { headers: vec![], root }
}

const EXAMPLE: &str = "use crate::support::Tok;

/
  [lang: String]

  users
    GET -> People::Index

  people
    GET People::Index
    POST People::Create

    new
      GET People::New

    {id: Tok}
      GET People::Show
      PUT People::Update
        [name: String]
      DELETE People::Destroy

      edit
        GET People::Edit

  books
    GET Books::Index
    POST Books::Create

    new
      GET Books::New

    {id: Tok}
      GET Books::Show
      PUT Books::update
      DELETE Books::Destroy

      edit
        GET Books::Edit
";

const COMMONS: &str = "/
  foobar
    GET Foo::Bar
  fomo
    GET Fomo::AsUsual
  foosh
    GET Foosh::Ball
  {a: String}
    GET Bar::Dyn
";

const NESTING: &str = "use crate::support::Tok;

/
  GET Index

  {id: Tok}
    GET Admin::People::Show
";

pub fn ask(m: &str, p: &[u8]) -> Req {
    Req { path: p.to_vec(), method: m.as_bytes().to_vec(), kind: "fixed", base: None }
}

pub fn specials() -> Vec<Case> {
    let mut v = vec![];
    let mut ex = route::from_text("example.routes", EXAMPLE);
    ex.more = vec![ask("GET", b"/people/tnew"), ask("GET", b"/people/newton"), ask("GET", b"/users"), ask("PUT", b"/people/t1")];
    v.push(ex);
    let mut co = route::from_text("commons.routes", COMMONS);
    co.more = vec![ask("GET", b"/foobar"), ask("GET", b"/fomo"), ask("GET", b"/fo"), ask("GET", b"/x")];
    v.push(co);
    v.push(route::from_text("nesting.routes", NESTING));
    // one literal beside a parameter
    let mut one = special(
        "new beside {name}",
        cfg(tree(vec![], vec![(lit("new"), leaf("New")), (par("name", "String"), leaf("Show"))])),
    );
    one.more = vec![ask("GET", b"/newton"), ask("GET", b"/new"), ask("GET", b"/ne"), ask("GET", b"/n"), ask("GET", b"/\xff")];
    v.push(one);
    let mut dyn_only = special("{a} alone", cfg(tree(vec![], vec![(par("a", "String"), leaf("Dyn"))])));
    dyn_only.more = vec![ask("GET", b"/\xff"), ask("GET", b"/caf\xc3"), ask("GET", b"/caf\xc3\xa9")];
    v.push(dyn_only);
    // defects found and repaired, so that they stay repaired
    v.push(special(
        "x beside {a}",
        cfg(tree(vec![get("Index")], vec![(lit("x"), leaf("X")), (par("a", "u8"), leaf("Dyn"))])),
    ));
    v.push(special(
        "one literal a prefix of another",
        cfg(tree(
            vec![],
            vec![
                (lit("foo"), tree(vec![get("Foo")], vec![(lit("a"), leaf("A"))])),
                (lit("foobar"), tree(vec![], vec![(lit("b"), leaf("B"))])),
                (lit("foobarbaz"), leaf("Baz")),
            ],
        )),
    ));
    v.push(special(
        "several literals beside {a}",
        cfg(tree(
            vec![],
            vec![
                (lit("apple"), tree(vec![get("Apple")], vec![(lit("x"), leaf("AX")), (par("k", "u8"), leaf("AK"))])),
                (lit("pear"), leaf("Pear")),
                (lit("p"), tree(vec![], vec![(lit("y"), leaf("PY"))])),
                (par("a", "String"), tree(vec![get("Dyn")], vec![(lit("z"), leaf("DZ"))])),
            ],
        )),
    ));
    v.push(special(
        "literals with a shared prefix that is one of them, beside {a}",
        cfg(tree(
            vec![],
            vec![
                (lit("fo"), tree(vec![get("Fo")], vec![(lit("x"), leaf("FX"))])),
                (lit("foo"), leaf("Foo")),
                (lit("fox"), tree(vec![], vec![(lit("y"), leaf("FoxY"))])),
                (par("a", "String"), tree(vec![get("Dyn")], vec![(lit("z"), leaf("DZ"))])),
            ],
        )),
    ));
    let mut n = tree(vec![get("Deep")], vec![]);
    for p in ["method", "path", "len", "i", "start", "text"] {
        n = tree(vec![get(&format!("At{}", caps(p)))], vec![(par(p, "u16"), n)]);
    }
    v.push(special("parameters named like locals", cfg(n)));
    v.push(special("no routes at all", cfg(Node::default())));
    v.push(special("only the root", cfg(leaf("Index"))));
    let four = Node {
        query: vec![],
        res: (0..4).map(|m| Res { method: m, ..get(["A", "B", "C", "D"][m]) }).collect(),
        kids: vec![],
    };
    v.push(special("all methods at the root", cfg(four.clone())));
    let mut n = four;
    for (k, s) in ["one", "two", "three", "four", "five", "six", "seven", "eight", "nine", "ten"].iter().enumerate() {
        n = tree(vec![], vec![(if k % 3 == 2 { par(s, "String") } else { lit(s) }, n)]);
    }
    v.push(special("ten levels", cfg(n)));
    v
}

// ---- profiles --------------------------------------------------------------

fn vary(r: &mut Rng, base: &Prof) -> Prof {
    let mut p = base.clone();
    match r.below(10) {
        0 => {
            p.wide = 60;
            p.depth = 2;
            p.budget = 60;
        }
        1 => {
            p.depth = 9;
            p.kids = 2;
            p.budget = 40;
        }
        2 => {
            p.family = 90;
            p.kids = 6;
        }
        3 => {
            p.params = 90;
            p.depth = 6;
            p.kids = 1;
        }
        4 => {
            p.odd = 50;
        }
        5 => {
            p.depth = 2;
            p.kids = 3;
            p.budget = 8;
        }
        6 => {
            p.reserved = 60;
            p.params = 70;
        }
        _ => {}
    }
    p
}

fn base_check(ctx: &Ctx, judge: Box<dyn Fn(&route::J) -> V + Sync>) -> Check {
    Check {
        specials: specials(),
        make: Box::new(|r, _| {
            let p = vary(r, &Prof::default());
            route::case(r, &p)
        }),
        plan: Plan::default(),
        builds: 0,
        judge,
        judge_build: None,
        judge_extra: None,
        batches: if ctx.thorough { 400 } else { 32 },
        per_batch: 12,
        threads: 0,
        owns_refusal: true,
        owns_time: false,
        reports: &[],
    }
}

fn prof_check(ctx: &Ctx, p: Prof, judge: Box<dyn Fn(&route::J) -> V + Sync>) -> Check {
    let mut c = base_check(ctx, judge);
    c.make = Box::new(move |r, _| {
        let p = vary(r, &p);
        route::case(r, &p)
    });
    c
}

fn broken_if(b: bool, s: &str) -> V {
    if b {
        V::Broken(s.into())
    } else {
        V::Held
    }
}

fn hit(o: &Out) -> Option<&Hit> {
    match o {
        Out::Hit(h) => Some(h),
        _ => None,
    }
}

pub fn c01(ctx: &Ctx) {
    ctx.rule("random configurations (built in code or written as route files) are generated, compiled with rustc and asked exact, near-miss and hostile requests; one evaluation compares which handler one request reached with the reference reading; distinct = (configuration shape, path, method, kind of answer)");
    let mut ck = base_check(
        ctx,
        Box::new(|j| {
            let seen = hit(&j.ans.out);
            let ok = match (j.exp.single(), seen) {
                (Some(Out::Hit(h)), Some(s)) => h.handler == s.handler,
                (Some(Out::Hit(_)), None) => false,
                (_, None) => true,
                (_, Some(s)) => j.exp.allowed.iter().any(|a| hit(a).map(|h| h.handler == s.handler).unwrap_or(false)),
            };
            broken_if(!ok, "a request did not reach the handler configured for it")
        }),
    );
    ck.batches = if ctx.thorough { 500 } else { 36 };
    route::run(ctx, &ck);
}

pub fn c02(ctx: &Ctx) {
    ctx.rule("as C01, judged for requests that reach no resource; one evaluation compares NotFound / NotAllowed with the reference reading; distinct = (configuration shape, path, method, kind of answer)");
    let mut ck = base_check(
        ctx,
        Box::new(|j| {
            let refusal = |o: &Out| matches!(o, Out::NotFound | Out::NotAllowed);
            if !refusal(&j.ans.out) && !j.exp.allowed.iter().any(refusal) {
                return V::NotMine;
            }
            broken_if(!j.exp.admits(&j.ans.out), "NotFound / NotAllowed given wrongly, or not given")
        }),
    );
    ck.plan.mutants = 120;
    route::run(ctx, &ck);
}

pub fn c03(ctx: &Ctx) {
    ctx.rule("as C01 with many typed parameters, judged for requests that reach a resource with parameters; one evaluation compares the name, type and value of every captured parameter with parsing its segment by the standard library; distinct = (configuration shape, path, method, kind of answer)");
    let p = Prof { params: 75, depth: 5, kids: 2, overlap_pct: 20, ..Prof::default() };
    let mut ck = prof_check(
        ctx,
        p,
        Box::new(|j| match j.exp.single() {
            Some(Out::Hit(h)) if h.fields.iter().any(|f| f.1 != "None") => {
                broken_if(!j.exp.admits(&j.ans.out), "a captured parameter is not the segment's text in its declared type")
            }
            _ => V::NotMine,
        }),
    );
    ck.plan.per_entry = 6;
    ck.plan.mutants = 30;
    route::run(ctx, &ck);
}

pub fn c04(ctx: &Ctx) {
    ctx.rule("as C01 with many typed parameters and texts outside their types; one evaluation compares the error (parameter named, underlying error, Display and Debug) with the standard library's own; distinct = (configuration shape, path, method, kind of answer)");
    let p = Prof { params: 80, depth: 5, kids: 2, overlap_pct: 20, ..Prof::default() };
    let mut ck = prof_check(
        ctx,
        p,
        Box::new(|j| {
            let err = |o: &Out| matches!(o, Out::Err { .. });
            if !err(&j.ans.out) && !j.exp.allowed.iter().any(err) {
                return V::NotMine;
            }
            broken_if(!j.exp.admits(&j.ans.out), "a text outside a parameter's type was not answered with its error")
        }),
    );
    ck.plan.per_entry = 8;
    ck.plan.mutants = 40;
    route::run(ctx, &ck);
}

pub fn c05(ctx: &Ctx) {
    ctx.rule("as C01; one evaluation compares the answer to a request with the answer to the same request without its leading slash and/or with one trailing slash; distinct = (configuration shape, path, method, kind of answer)");
    let mut ck = base_check(
        ctx,
        Box::new(|j| match j.base {
            None => V::NotMine,
            Some((b, a)) => {
                if matches!(a.out, Out::Panic(_)) {
                    return V::NotMine;
                }
                let excused = j.exp.empty_seg && j.exp.admits(&j.ans.out);
                if j.ans.out != a.out && !excused {
                    V::Broken(format!("slashes change the answer: {} gave {}", b.show(), a.out.show()))
                } else {
                    V::Held
                }
            }
        }),
    );
    ck.owns_refusal = false;
    // every request of the usual plan also with each slash variant
    ck.make = Box::new(|r, _| {
        let p = vary(r, &Prof::default());
        let mut c = route::case(r, &p);
        let plain = crate::reqs::requests(&c.cfg, r, &Plan { per_entry: 1, mutants: 40, bytes: 0, cap: 250 });
        for q in plain {
            if q.base.is_some() || !q.path.starts_with(b"/") || q.path.ends_with(b"/") || q.path.len() < 2 {
                continue;
            }
            if q.path.windows(2).any(|w| w == b"//") {
                continue;
            }
            let at = c.more.len();
            for (lead, trail) in [(false, false), (true, true), (false, true)] {
                let mut p = q.path.clone();
                if trail {
                    p.push(b'/');
                }
                if !lead {
                    p.remove(0);
                }
                c.more.push(Req { path: p, method: q.method.clone(), kind: "slash", base: Some(at + 3) });
            }
            c.more.push(q);
        }
        c
    });
    route::run(ctx, &ck);
}

pub fn c06(ctx: &Ctx) {
    ctx.rule("as C01 with literals beside parameters at most positions; one evaluation compares the answer to a request that passes such a position with the reference reading (equal literal first, parameter for everything else); distinct = (configuration shape, path, method, kind of answer)");
    let p = Prof { params: 85, overlap: Overlap::Any, overlap_pct: 100, kids: 5, depth: 3, family: 55, ..Prof::default() };
    let q = Prof { overlap: Overlap::Clean, ..p.clone() };
    let mut ck = prof_check(
        ctx,
        p.clone(),
        Box::new(|j| {
            if !j.exp.overlap {
                return V::NotMine;
            }
            broken_if(!j.exp.admits(&j.ans.out), "wrong branch between a literal and a parameter at the same position")
        }),
    );
    ck.make = Box::new(move |r, n| {
        let p = vary(r, if n % 2 == 0 { &p } else { &q });
        route::case(r, &p)
    });
    ck.plan.mutants = 120;
    ck.reports = &["K1", "K2"];
    route::run(ctx, &ck);
}

pub fn c07(ctx: &Ctx) {
    ctx.rule("as C01 with hostile byte strings as paths and methods (truncated, not UTF-8, NUL, very long, repeated slashes), overflow checks on; one evaluation is one request answered without panic, abort or hang; distinct = (configuration shape, path, method, kind of answer)");
    let p = Prof { overlap: Overlap::Any, overlap_pct: 60, params: 55, ..Prof::default() };
    let mut ck = prof_check(
        ctx,
        p,
        Box::new(|j| broken_if(matches!(j.ans.out, Out::Panic(_)), "the matcher panicked")),
    );
    ck.plan = Plan { per_entry: 1, mutants: 200, bytes: 250, cap: 1200 };
    ck.make = {
        let inner = ck.make;
        Box::new(move |r, n| {
            let mut c = inner(r, n);
            // every prefix of a few real paths, byte by byte
            let es = c.cfg.entries();
            for _ in 0..3 {
                let e = r.pick(&es).clone();
                let mut full = crate::reqs::join(&crate::reqs::fill(&e.path, r, None), true, true);
                full.truncate(120);
                for k in 0..=full.len() {
                    c.more.push(Req {
                        path: full[..k].to_vec(),
                        method: METHODS[e.res.method].as_bytes().to_vec(),
                        kind: "prefix",
                        base: None,
                    });
                }
            }
            c
        })
    };
    ck.reports = &["K3"];
    route::run(ctx, &ck);
}

pub fn c08(ctx: &Ctx) {
    ctx.rule("as C01; every value reached by matching, and values built by hand with query parameters present and absent, is asked for its path (struct and every enclosing Route enum), and that path is matched again; one evaluation is one value; distinct = (configuration shape, value or path)");
    let p = Prof { params: 60, depth: 5, query: 35, ..Prof::default() };
    let mut ck = prof_check(
        ctx,
        p,
        Box::new(|j| {
            let (s, h) = match (&j.ans.out, j.exp.single()) {
                (Out::Hit(s), Some(Out::Hit(h))) if s == h => (s, h),
                _ => return V::NotMine,
            };
            if s.to_path != h.to_path {
                return V::Broken(format!("to_path gave {:?}, the handler lives at {:?}", s.to_path, h.to_path));
            }
            if j.ans.p_route != s.to_path {
                return V::Broken(format!("Route::to_path gave {:?}, the struct's {:?}", j.ans.p_route, s.to_path));
            }
            again(j.spec, &s.handler, &s.to_path, j.ans.again.as_ref())
        }),
    );
    ck.builds = 5;
    ck.plan.per_entry = 3;
    ck.plan.mutants = 20;
    ck.judge_build = Some(Box::new(|j| {
        let e = &j.spec.entries()[j.build.entry];
        let mut vals = vec![];
        let mut fields = vec![];
        for (p, t) in e.params().iter().zip(&j.build.texts) {
            match crate::ty::parse(&p.ty, t) {
                Ok((dbg, disp)) => {
                    vals.push((p.name.clone(), disp));
                    fields.push((p.name.clone(), dbg));
                }
                Err(_) => return V::NotMine,
            }
        }
        let h = e.res.handler();
        let want = j.spec.path_of(&h, &vals);
        let s = match &j.ans.out {
            Out::Hit(s) => s,
            o => return V::Broken(format!("a request built by hand: {}", o.show())),
        };
        if s.to_path != want || j.ans.p_route != want {
            return V::Broken(format!(
                "to_path of a request built by hand gave {:?} (Route: {:?}), its template says {:?}",
                s.to_path, j.ans.p_route, want
            ));
        }
        again(j.spec, &h, &want, j.ans.again.as_ref())
    }));
    route::run(ctx, &ck);
}

fn again(spec: &crate::spec::Spec, handler: &str, path: &str, got: Option<&Out>) -> V {
    let t = match spec.target(handler) {
        Some(t) => t,
        None => return V::NotMine,
    };
    let exp = spec.expect(path.as_bytes(), METHODS[t.res.method].as_bytes());
    match got {
        None => V::Broken("no answer for the path".into()),
        Some(o) if exp.admits(o) || exp.known(o).is_some() => V::Held,
        Some(o) => V::Broken(format!("matching the path {:?} again gave {}, expected {}", path, o.show(), exp.show())),
    }
}

pub fn c09(ctx: &Ctx) {
    ctx.rule("as C01 with several redirects per configuration; one evaluation compares Route/Redirect, the target and the parameters carried over for one request; distinct = (configuration shape, path, method, kind of answer)");
    let p = Prof { redirects: 6, params: 60, query: 30, ..Prof::default() };
    let mut ck = prof_check(
        ctx,
        p,
        Box::new(|j| {
            let red = |o: &Out| matches!(o, Out::Hit(h) if h.redirect);
            if !red(&j.ans.out) && !j.exp.allowed.iter().any(red) {
                return V::NotMine;
            }
            if !j.exp.admits(&j.ans.out) {
                return V::Broken("a redirect answered wrongly".into());
            }
            if let (Out::Hit(s), Some(Out::Hit(h))) = (&j.ans.out, j.exp.single()) {
                if s.to_path != h.to_path {
                    return V::Broken(format!("redirect leads to {:?}, its target lives at {:?}", s.to_path, h.to_path));
                }
            }
            V::Held
        }),
    );
    ck.plan.per_entry = 4;
    ck.plan.mutants = 40;
    route::run(ctx, &ck);
}

pub fn c10(ctx: &Ctx) {
    ctx.rule("random configurations over naming styles, module depths, parameter types, queries and redirects are generated and compiled together with an application that names every module, struct, field (with its type), enum variant and function exhaustively; one evaluation is one configuration compiled, run and inspected; distinct = (configuration shape, result)");
    let p = Prof {
        modules: 5,
        query: 35,
        redirects: 2,
        headers: 40,
        reserved: 25,
        overlap: Overlap::Any,
        overlap_pct: 50,
        ..Prof::default()
    };
    let mut ck = prof_check(ctx, p, Box::new(|_| V::NotMine));
    ck.plan = Plan { per_entry: 1, mutants: 0, bytes: 0, cap: 20 };
    ck.builds = 1;
    let extra = "    let f: fn(&'static str, &'static [u8]) -> Result<R::Match<R::Route>, R::Error> = R::match_route;
    let g: fn(String, Vec<u8>) -> Result<R::Match<R::Route>, R::Error> = R::match_route;
    let h: fn(&'static [u8; 1], &'static [u8; 3]) -> Result<R::Match<R::Route>, R::Error> = R::match_route;
    let same = f(\"/\", b\"GET\").ok() == g(\"/\".into(), b\"GET\".to_vec()).ok() && f(\"/\", b\"GET\").ok() == h(b\"/\", b\"GET\").ok();
    let e: Box<dyn std::error::Error> = Box::new(R::Error::fail(\"p\", 5));
    let n: R::Match<u8> = R::Match::NotFound;
    let a: R::Match<u8> = R::Match::NotAllowed;
    let r: R::Match<u8> = R::Match::Route(1);
    let d: R::Match<u8> = R::Match::Redirect(2);
    format!(\"{} {} {:?} {:?} {:?} {:?} {}\", same, e, n, a, r, d, r == d)";
    let want = "true Error parsing 'p' parameter 5 Match::NotFound Match::NotAllowed Match::Route(1) Match::Redirect(2) false";
    for c in ck.specials.iter_mut() {
        c.extra = extra.into();
    }
    let inner = ck.make;
    ck.make = Box::new(move |r, n| {
        let mut c = inner(r, n);
        c.extra = extra.into();
        c
    });
    ck.judge_extra = Some(Box::new(move |_, got, _| {
        broken_if(got != want, &format!("the module's own types are not as documented, expected {:?}", want))
    }));
    ck.batches = if ctx.thorough { 400 } else { 40 };
    route::run(ctx, &ck);
}

pub fn c11(ctx: &Ctx) {
    ctx.rule("as C01 with query parameters at most levels; one evaluation checks that a reached handler has exactly the path parameters and the Option query parameters of its own and every enclosing route, None on a match; distinct = (configuration shape, path, method, kind of answer)");
    let p = Prof { query: 70, depth: 5, kids: 3, redirects: 2, params: 40, ..Prof::default() };
    let mut ck = prof_check(
        ctx,
        p,
        Box::new(|j| match j.exp.single() {
            Some(Out::Hit(h)) if h.fields.iter().any(|f| f.1 == "None") => match &j.ans.out {
                Out::Hit(s) => broken_if(s.handler == h.handler && s.fields != h.fields, "a handler's query parameters are not the ones that apply to it"),
                _ => V::NotMine,
            },
            _ => V::NotMine,
        }),
    );
    ck.plan = Plan { per_entry: 2, mutants: 10, bytes: 0, cap: 400 };
    ck.builds = 2;
    ck.judge_build = Some(Box::new(|j| {
        let e = &j.spec.entries()[j.build.entry];
        let mut fields = vec![];
        for (p, t) in e.params().iter().zip(&j.build.texts) {
            match crate::ty::parse(&p.ty, t) {
                Ok((dbg, _)) => fields.push((p.name.clone(), dbg)),
                Err(_) => return V::NotMine,
            }
        }
        for (p, t) in e.queries().iter().zip(&j.build.queries) {
            match t {
                None => fields.push((p.name.clone(), "None".into())),
                Some(t) => match crate::ty::parse(&p.ty, t) {
                    Ok((dbg, _)) => fields.push((p.name.clone(), format!("Some({})", dbg))),
                    Err(_) => return V::NotMine,
                },
            }
        }
        fields.sort();
        match &j.ans.out {
            Out::Hit(s) => broken_if(s.fields != fields, "query parameters given to a handler are not the ones it holds"),
            _ => V::Broken("a request built by hand could not be used".into()),
        }
    }));
    route::run(ctx, &ck);
}

/// Header lines whose presence and order can be seen from outside.
const TEXT_LINES: [&str; 14] = [
    "b", "  c", "\td", "    e  ", "f\t", "  // not a comment", "}", "pub mod routes {", " /", "g \\ \" h", "use x;", "      ", "\u{4e2d} {} i", "      deep",
];

/// Is a text what was written, but for an indentation common to its lines?
const SAME: &str = r#"    fn same(got: &str, want: &[&str]) -> u32 {
        let g: Vec<&str> = got.split('\n').collect();
        if g.len() != want.len() || g[0] != want[0] { return 0; }
        let d = g[1].len().wrapping_sub(want[1].len());
        g.iter().zip(want).skip(1).all(|(g, w)| g.len() >= d && g.is_char_boundary(d) && g[..d].chars().all(|c| c == ' ') && &g[d..] == *w) as u32
    }
"#;

/// How often the lines stand together in a text, all set in by as many spaces.
fn blocks(code: &str, lines: &[String]) -> usize {
    let ls: Vec<&str> = code.lines().collect();
    let n = lines.len();
    let set_in = |l: &str, h: &str| match l.strip_suffix(h) {
        Some(i) if i.chars().all(|c| c == ' ') => Some(i.len()),
        _ => None,
    };
    let (mut i, mut found) = (0, 0);
    while i + n <= ls.len() {
        match set_in(ls[i], &lines[0]) {
            Some(d) if (1..n).all(|k| set_in(ls[i + k], &lines[k]) == Some(d)) => {
                found += 1;
                i += n;
            }
            _ => i += 1,
        }
    }
    found
}

/// Lines that applications have in their headers, each alone and several together:
/// what they bring in must not get in the way of anything in the generated module.
fn imports(ctx: &Ctx) {
    const NAMES_FMT: [&str; 4] =
        ["use std::fmt;", "use std::fmt::{self, Display};", "use std::{fmt, str};", "use std::{collections::HashMap, fmt};"];
    const USES: [&str; 44] = [
        "use std::str;", "use std::str::FromStr;", "use std::{str, string};", "use std::collections::HashMap;", "use std::collections::*;",
        "use std::io;", "use std::io::Write;", "use std::io::prelude::*;", "use std::io::{self, Read};", "use std::fmt::Write;",
        "use std::fmt::Debug;", "use std::fmt::Display;", "use std::fmt::{Debug, Display, Formatter};", "use std::error;", "use std::error::Error as StdError;",
        "use std::result;", "use std::option;", "use std::string::{String, ToString};", "use std::borrow::Cow;", "use std::net::{IpAddr, Ipv4Addr};",
        "use std::path::{Path, PathBuf};", "use std::num::NonZeroU32;", "use std::time::Duration;", "use std::rc::Rc;", "use std::sync::Arc;",
        "use std::convert::{AsRef, From, Into, TryFrom};", "use std::cmp::{Eq, PartialEq};", "use std::ops::Deref;", "use std::iter;", "use std::slice;",
        "use std::vec::Vec;", "use std::boxed::Box;", "use std::env;", "use std::process;", "use std::mem;", "use std::char;", "use std as s;",
        "use core::fmt::Pointer;", "use std::option::Option::*;", "use std::result::Result::*;", "use std::any::Any;", "use std::hash::Hash;",
        "extern crate core;", "use std::prelude::v1::*;",
    ];
    let mut r = crate::rng::Rng::stream(ctx.seed, crate::ctx::hash("imports"), 0);
    let mut sets: Vec<(bool, Vec<String>)> = vec![];
    for u in USES.iter() {
        sets.push((false, vec![u.to_string()]));
    }
    for _ in 0..if ctx.thorough { 200 } else { 12 } {
        // several that bring in different names
        let mut hs: Vec<String> = vec![];
        for k in ["use std::str;", "use std::io::{self, Read};", "use std::fmt::Debug;", "use std::error;", "use std::collections::*;", "use std::result;", "use std::borrow::Cow;", "use std::mem;"].iter() {
            if r.pct(50) {
                hs.insert(r.below(hs.len() + 1), k.to_string());
            }
        }
        sets.push((false, hs));
    }
    for u in NAMES_FMT.iter() {
        sets.push((true, vec![u.to_string()]));
    }
    let dir = ctx.scratch.join("imports");
    let _ = std::fs::create_dir_all(&dir);
    let _ = std::fs::write(dir.join("support.rs"), include_str!("support.rs"));
    let mut ids = vec![];
    let mut codes = vec![];
    for (k, (_, hs)) in sets.iter().enumerate() {
        let p = Prof { modules: 3, redirects: 2, budget: 8, depth: 3, headers: 0, odd: 0, lib_types: false, ..Prof::default() };
        let words = |hs: &[String]| -> std::collections::HashSet<String> {
            let all = hs.iter().flat_map(|h| h.split(|c: char| !c.is_alphanumeric() && c != '_').map(String::from).collect::<Vec<_>>());
            all.filter(|w| !["", "use", "std", "crate", "as"].contains(&w.as_str())).collect()
        };
        // (whose own header lines do not bring in any of these names again)
        let mut c = gen::config(&mut r, &p);
        while !words(&c.headers).is_disjoint(&words(hs)) {
            c = gen::config(&mut r, &p);
        }
        c.headers.splice(0..0, hs.iter().cloned());
        let case = route::Case { label: String::new(), cfg: c.clone(), source: route::Source::Text(print(&c, Style::plain(), &mut r)), extra: String::new(), more: vec![] };
        let code = route::load(ctx, &case).and_then(|lib| route::generate(ctx, &lib));
        match code {
            Ok(code) => {
                let _ = std::fs::write(dir.join(format!("r{}.rs", k)), &code);
                ids.push(k);
                codes.push(code);
            }
            Err(e) => {
                ctx.violation(format!("no code for header lines {:?}: {}", hs, e), vec![("config.routes".into(), plain(&c).into_bytes())]);
                codes.push(String::new());
            }
        }
    }
    let mut errors: Vec<(usize, String)> = vec![];
    while !ids.is_empty() {
        match crate::conflict::compile(&dir, &ids) {
            Ok(b) if b.is_empty() => break,
            Ok(b) => {
                for (k, e) in b {
                    ids.retain(|x| *x != k);
                    errors.push((k, e));
                }
            }
            Err(e) => return ctx.unknown(e),
        }
    }
    for (k, (names_fmt, hs)) in sets.iter().enumerate() {
        if codes[k].is_empty() {
            continue;
        }
        ctx.count("evaluations", 1);
        ctx.count("header lines with usual imports compiled", 1);
        ctx.distinct(crate::ctx::hash(&codes[k]));
        if let Some((_, e)) = errors.iter().find(|e| e.0 == k) {
            if *names_fmt && e.contains("E0252") && e.contains("`fmt`") && route::listed("K5") {
                ctx.known(route::noted("K5"));
                continue;
            }
            ctx.violation(
                format!("code generated with the header lines {:?} does not compile: {}", hs, e),
                vec![("generated.rs".into(), codes[k].clone().into_bytes())],
            );
        }
    }
    let _ = std::fs::remove_dir_all(&dir);
}

const ITEMS: [&str; 52] = [
    "const _: () = ();",
    "const _: usize = 1;",
    "const A?: &str = \"a\";",
    "static S?: u8 = 1;",
    "pub static PS?: [u8; 2] = [1, 2];",
    "static mut SM?: u8 = 1;",
    "use std::collections::BTreeMap as Map?;",
    "pub use std::collections::HashSet as Set?;",
    "pub(crate) use std::rc::Rc as Rc?;",
    "use std::{cmp::Ordering as Ord?, mem as mem?};",
    "use ::std::sync as sync?;",
    "extern crate std as std?;",
    "pub extern crate core as core?;",
    "extern \"C\" {}",
    "pub struct St?;",
    "#[derive(Debug, Clone)] pub struct D?(pub u8);",
    "pub struct G?<'a, T>(pub &'a T);",
    "pub enum E? { A, B(u8) }",
    "pub union U? { pub a: u8, pub b: i8 }",
    "pub trait T? { fn f(&self) {} }",
    "pub trait Tr? {} impl Tr? for u8 {}",
    "pub struct Im?; impl Im? { pub fn f() {} }",
    "type Al? = u32;",
    "pub type Pal?<T> = Option<T>;",
    "fn f?() {}",
    "pub fn pf?() -> u8 { 1 }",
    "pub const fn cf?() -> u8 { 1 }",
    "pub unsafe fn uf?() {}",
    "pub(crate) fn cr?() {}",
    "pub mod md? {}",
    "mod pm? { pub mod inner {} }",
    "#[cfg(any())] compile_error!(\"never\");",
    "#[cfg(not(any()))] pub fn always?() {}",
    "#[cfg(test)] mod tests? {}",
    "#[allow(dead_code)] const AL?: u8 = 1;",
    "#[rustfmt::skip] pub fn sk?() {}",
    "/// said of what follows\npub fn doc?() {}",
    "/** said of what follows */ pub fn bdoc?() {}",
    "thread_local! { static TL?: u8 = 1; }",
    "use crate as crate?;",
    "#[cfg(any())]\nuse super::up?;",
    "#[cfg(any())]\nuse super::super::up?;",
    "#[cfg(any())]\nuse self::here?::{a, b};",
    "#[cfg(any())]\nuse crate::far?::*;",
    "#[cfg(any())]\npub use super::{a?, b as c};",
    "#[cfg(any())]\nuse nothing?;",
    "#[cfg(any())]\nextern crate nothing?;",
    "#[cfg(any())]\npub(super) use std::rc?;",
    "#[cfg(any())]\npub(in crate::routes) fn f?() {}",
    "#[cfg(any())]\nmod outside?;",
    "#[cfg(any())]\n#[path = \"../x?.rs\"]\nmod path?;",
    "#[allow(unused_macros)] macro_rules! rules? { ($x:expr) => { $x }; }",
];

/// Any lines at all, few and many: the code is looked at, not compiled.
fn any_lines(ctx: &Ctx) {
    let jobs = if ctx.thorough { 1500 } else { 160 };
    ctx.parallel(jobs, |j| {
        for k in 0..100 {
            let mut r = crate::rng::Rng::stream(ctx.seed ^ 0xc21, j as u64, k);
            let p = Prof { modules: 3, redirects: 1, budget: *r.pick(&[2, 4, 10]), depth: 3, headers: 0, odd: 0, lib_types: false, ..Prof::default() };
            let mut c = gen::config(&mut r, &p);
            c.headers.clear();
            for _ in 0..*r.pick(&[1, 1, 2, 2, 3, 4, 7, 12]) {
                let n = c.headers.len();
                match r.below(4) {
                    0 => c.headers.extend(r.pick(&ITEMS).replace('?', &n.to_string()).split('\n').map(|l| l.to_string())),
                    1 if n > 0 => {
                        let again = r.pick(&c.headers).clone();
                        c.headers.push(again);
                    }
                    _ => c.headers.push(crate::text::header(&mut r)),
                }
            }
            c.headers.retain(|h| !h.is_empty() && !h.contains('\r') && !h.contains('\n'));
            if c.headers.is_empty() {
                continue;
            }
            let code = match route::generate(ctx, &lcfg(&c)) {
                Ok(code) => code,
                Err(_) => continue,
            };
            let modules: std::collections::BTreeSet<Vec<String>> = c
                .entries()
                .iter()
                .filter(|e| !e.res.redirect)
                .flat_map(|e| (0..=e.res.modules.len()).map(|k| e.res.modules[..k].iter().map(|m| snake(m)).collect()).collect::<Vec<_>>())
                .collect();
            ctx.count("evaluations", 1);
            ctx.count("generated modules whose header lines were looked up", modules.len().max(1) as u64);
            ctx.distinct(crate::ctx::hash(&code));
            let seen = blocks(&code, &c.headers);
            if seen < modules.len().max(1) {
                ctx.violation(
                    format!("the header lines {:?} stand together, in order and unchanged, {} times in code with {} modules", c.headers, seen, modules.len().max(1)),
                    vec![("config.routes".into(), plain(&c).into_bytes()), ("generated.rs".into(), code.into_bytes())],
                );
            }
        }
    });
}

pub fn c21(ctx: &Ctx) {
    imports(ctx);
    any_lines(ctx);
    ctx.rule("configurations with header lines that declare visible constants, types and macros (each using the lines before it) are compiled, and an application reads them back from every generated module; one evaluation is one configuration; distinct = (configuration shape, what was read)");
    fn build(r: &mut Rng, prof: &Prof) -> (Case, Vec<u32>) {
        let mut c = gen::config(r, prof);
        let mut hs: Vec<String> = vec![];
        let mut vals = vec![];
        let n = r.range(1, 4);
        for k in 0..n {
            let v = r.below(1000) as u32;
            vals.push(v);
            match r.below(6) {
                0 => hs.push(format!("pub const HDR{}: u32 = {};", k, v)),
                1 => {
                    // textual order matters for macro_rules
                    hs.push(format!("#[allow(unused_macros)] macro_rules! mk{} {{ () => {{ pub const HDR{}: u32 = {}; }}; }}", k, k, v));
                    hs.push(format!("mk{}!{{}}", k));
                }
                2 => {
                    // an item over several lines
                    hs.push(format!("pub const HDR{}: u32 =", k));
                    hs.push(format!("    {}", v / 2));
                    hs.push(format!("    + {}", v - v / 2));
                    hs.push("    ;".into());
                }
                3 => {
                    hs.push(format!("// constant {} follows: \"{{}}\" \\ 'x", k));
                    hs.push(format!("pub const HDR{}: u32 = {}; // trailing", k, v));
                }
                4 => {
                    hs.push(format!("pub mod hm{} {{ pub fn f() -> u32 {{ {} }} }}", k, v));
                    hs.push(format!("pub const HDR{}: u32 = {};", k, v));
                }
                _ => {
                    hs.push(format!("pub const HDR{}: u32 = \"{}\".len() as u32 + {};", k, "x\\t{y}", v));
                    vals[k] = v + 5;
                }
            }
        }
        // texts over several lines, in which every space counts
        let mut texts: Vec<Vec<&str>> = vec![];
        if r.pct(70) {
            for _ in 0..r.range(1, 2) {
                let mut t = vec![*r.pick(&["", "a", "x ", "\u{e9}\t", "// no comment"])];
                for _ in 0..r.range(1, 4) {
                    t.push(*r.pick(&TEXT_LINES));
                }
                for (i, l) in t.iter().enumerate() {
                    hs.push(if i == 0 { format!("pub const TXT{}: &str = r#\"{}", texts.len(), l) } else { l.to_string() });
                }
                *hs.last_mut().unwrap() += "\"#;";
                texts.push(t);
            }
        }
        for _ in 0..*r.pick(&[0, 0, 1, 2]) {
            // lines that leave no other trace: comments, attributes, repeated ones
            let l = *r.pick(&["// a comment", "//", "/* a block */", "#[allow(dead_code)]", "   // set in", "/* over", "// tr ail \t"]);
            let at = hs.iter().position(|h| h.starts_with("pub const HDR") && h.ends_with(';')).unwrap_or(0);
            if l == "/* over" {
                hs.insert(at, "      several */".into());
                hs.insert(at, "".to_string() + "  lines // too");
            }
            hs.insert(at, l.to_string());
        }
        // long lines, and many
        if r.pct(50) {
            for _ in 0..*r.pick(&[1, 1, 2, 3, 30]) {
                let words = ["a", "word,", "use", "std::fmt;", "  ", "\u{e9}t\u{e9}", "{}", "//", "{{", "it's", "\"q\"", "\\", "%s", "fn", "=", "/", "\t", "0"];
                let n = *r.pick(&[3, 20, 40, 70, 130, 300, 1100]);
                let mut l = r.pick(&["//", "// ", "  //\t", "/* ", "pub const LONG_?: u32 = 0; //"]).replace('?', &hs.len().to_string());
                while l.len() < n {
                    l.push_str(*r.pick(&words));
                    l.push(' ');
                }
                if l.starts_with("/*") {
                    l.push_str("*/");
                } else if r.pct(50) {
                    l.push('.');
                }
                let at = hs.iter().position(|h| h.starts_with("pub const HDR") && h.ends_with(';')).unwrap_or(0);
                hs.insert(at, l.clone());
                if r.pct(20) && !l.starts_with("pub") {
                    hs.insert(at, l);
                }
            }
        }
        // items of every kind
        if r.pct(70) {
            for _ in 0..*r.pick(&[1, 2, 3, 6]) {
                let l = r.pick(&ITEMS).replace('?', &hs.len().to_string());
                let at = hs.iter().position(|h| h.starts_with("pub const HDR") && h.ends_with(';')).unwrap_or(0);
                for part in l.split('\n').rev() {
                    hs.insert(at, part.to_string());
                }
            }
        }
        hs.extend(std::mem::take(&mut c.headers));
        c.headers = hs;
        // every module of the configuration
        let mut mods: Vec<String> = vec![String::new()];
        for e in c.entries() {
            let mut p = String::new();
            for m in &e.res.modules {
                p.push_str(&format!("{}::", raw(&snake(m))));
                if !mods.contains(&p) {
                    mods.push(p.clone());
                }
            }
        }
        let mut reads = vec![];
        for m in &mods {
            for k in 0..n {
                reads.push(format!("R::{}HDR{}", m, k));
            }
            for (k, t) in texts.iter().enumerate() {
                reads.push(format!("same(R::{}TXT{}, &{:?})", m, k, t));
            }
        }
        let extra = format!("{}    let v: Vec<u32> = vec![{}];\n    format!(\"{{:?}}\", v)", SAME, reads.join(", "));
        let mut want = vec![];
        for _ in &mods {
            want.extend(vals.iter().copied());
            want.extend(texts.iter().map(|_| 1));
        }
        let source = route::source(&c, r);
        (Case { label: format!("want {:?}", want), cfg: c, source, extra, more: vec![] }, want)
    }
    let p = Prof { modules: 4, budget: 12, depth: 3, ..Prof::default() };
    let mut ck = prof_check(ctx, p.clone(), Box::new(|_| V::NotMine));
    ck.specials = vec![];
    ck.make = Box::new(move |r, _| build(r, &p).0);
    ck.plan = Plan { per_entry: 0, mutants: 0, bytes: 0, cap: 1 };
    ck.judge_extra = Some(Box::new(|c, got, code| {
        // the first read of each constant is the root's: all modules must agree with the text
        let mut vals: Vec<u32> = vec![];
        let joined = c.headers.join("\n");
        for k in 0.. {
            let tag = format!("HDR{}: u32 =", k);
            match joined.find(&tag) {
                None => break,
                Some(i) => {
                    let rest = &joined[i + tag.len()..];
                    let expr = &rest[..rest.find(';').unwrap()];
                    let mut v = 0;
                    for t in expr.split('+') {
                        let t = t.trim();
                        v += if t.starts_with('"') { 5 } else { t.parse::<u32>().unwrap() };
                    }
                    vals.push(v);
                }
            }
        }
        vals.extend(c.headers.iter().filter(|h| h.starts_with("pub const TXT")).map(|_| 1));
        let modules: std::collections::BTreeSet<Vec<String>> = c
            .entries()
            .iter()
            .flat_map(|e| (0..=e.res.modules.len()).map(|k| e.res.modules[..k].iter().map(|m| snake(m)).collect()).collect::<Vec<_>>())
            .collect();
        let seen = blocks(code, &c.headers);
        if seen < modules.len().max(1) {
            return V::Broken(format!("the header lines stand together, in order and unchanged, {} times in code with {} modules", seen, modules.len().max(1)));
        }
        let got: Vec<u32> =
            got.trim_matches(|c| c == '[' || c == ']').split(", ").filter_map(|s| s.parse().ok()).collect();
        let ok = !got.is_empty() && got.len() % vals.len() == 0 && got.chunks(vals.len()).all(|g| g == &vals[..]);
        broken_if(!ok, &format!("header lines are not what the modules contain: expected {:?} in every module", vals))
    }));
    ck.batches = if ctx.thorough { 300 } else { 30 };
    route::run(ctx, &ck);
}

/// Routers asked by many threads at once (part of C16).
pub fn concurrent(ctx: &Ctx) {
    let mut ck = base_check(ctx, Box::new(|_| V::NotMine));
    ck.batches = if ctx.thorough { 40 } else { 6 };
    ck.threads = 8;
    ck.owns_refusal = false;
    ck.plan.mutants = 30;
    ck.judge = Box::new(|_| V::Held);
    route::run(ctx, &ck);
}

/// Any answer that is not the reference's.
pub fn plain_check(ctx: &Ctx) -> Check {
    base_check(
        ctx,
        Box::new(|j| broken_if(!j.exp.admits(&j.ans.out), "a request is answered differently than the whole configuration says")),
    )
}
