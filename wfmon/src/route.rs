//! The routing pipeline: configurations in, generated routers compiled and
//! asked, every answer compared with the reference reading.

use crate::app::{self, Ans, Fate, Router};
use crate::cfg::*;
use crate::ctx::{hash, Ctx};
use crate::gen::{self, Prof};
use crate::reqs::{self, Build, Plan, Req};
use crate::rng::Rng;
use crate::spec::{Expect, Out, Spec};

#[derive(Clone)]
pub enum Source {
    Lib,
    Text(String),
    /// already turned into the library's type some other way
    Given(wayfinder::RouteConfig),
}

#[derive(Clone)]
pub struct Case {
    pub label: String,
    pub cfg: Cfg,
    pub source: Source,
    pub extra: String,
    pub more: Vec<Req>,
}

pub enum V {
    NotMine,
    Held,
    Broken(String),
}

pub struct J<'a> {
    pub cfg: &'a Cfg,
    pub spec: &'a Spec<'a>,
    pub req: &'a Req,
    pub exp: &'a Expect,
    pub ans: &'a Ans,
    /// the request this is a slash variant of, and its answer
    pub base: Option<(&'a Req, &'a Ans)>,
}

pub struct JB<'a> {
    pub cfg: &'a Cfg,
    pub spec: &'a Spec<'a>,
    pub build: &'a Build,
    pub ans: &'a Ans,
}

type Judge = Box<dyn Fn(&J) -> V + Sync>;
type JudgeB = Box<dyn Fn(&JB) -> V + Sync>;
/// what a router's extra function said, and the router's code
type JudgeX = Box<dyn Fn(&Cfg, &str, &str) -> V + Sync>;

pub struct Check {
    pub specials: Vec<Case>,
    pub make: Box<dyn Fn(&mut Rng, usize) -> Case + Sync>,
    pub plan: Plan,
    pub builds: usize,
    pub judge: Judge,
    pub judge_build: Option<JudgeB>,
    pub judge_extra: Option<JudgeX>,
    pub batches: usize,
    pub per_batch: usize,
    pub threads: usize,
    /// is it this property's business that a configuration has no usable router?
    pub owns_refusal: bool,
    /// a router that does not come to an end is this check's matter
    pub owns_time: bool,
    /// known findings this check reports (others are passed over)
    pub reports: &'static [&'static str],
}

pub fn noted(key: &str) -> &'static str {
    match key {
        "K1" => "K1 literals that share a branching common prefix beside a parameter are unreachable: the parameter takes their requests (commons.routes GET /foobar)",
        "K2" => "K2 a segment that begins with the only literal beside a parameter is NotFound, not the parameter's (`new` beside {name: String}: GET /newton)",
        "K3" => "K3 bytes that are not UTF-8 in a parameter's segment panic in the matcher (GET /\\xff)",
        "K4" => "K4 reading a file nested thousands of levels deep overflows the stack (parse::route_config, 4000 levels on 8 MB)",
        "K5" => "K5 a header line that brings in the name `fmt` (use std::fmt;) collides with the generated module's own `use std::fmt;`: the generated code does not compile (E0252)",
        _ => "?",
    }
}

/// The findings listed in known-findings.txt.
pub fn listed(key: &str) -> bool {
    static KEYS: std::sync::OnceLock<Vec<String>> = std::sync::OnceLock::new();
    KEYS.get_or_init(|| {
        let home = std::env::var("WF_HOME").unwrap_or_else(|_| "/verif".into());
        let t = std::fs::read_to_string(format!("{}/known-findings.txt", home)).unwrap_or_default();
        t.lines()
            .filter(|l| l.starts_with("finding:"))
            .filter_map(|l| l.split_whitespace().find_map(|w| w.strip_prefix("key=").map(|s| s.to_string())))
            .collect()
    })
    .iter()
    .any(|k| k == key)
}

/// A configuration and how it reaches the library: built in code or written down.
pub fn source(c: &Cfg, r: &mut Rng) -> Source {
    if c.writable() && r.pct(60) {
        Source::Text(print(c, Style::random(r), r))
    } else {
        Source::Lib
    }
}

pub fn case(r: &mut Rng, prof: &Prof) -> Case {
    let cfg = gen::config(r, prof);
    let source = source(&cfg, r);
    Case { label: String::new(), cfg, source, extra: "String::new()".into(), more: vec![] }
}

pub fn special(label: &str, cfg: Cfg) -> Case {
    Case { label: label.into(), cfg, source: Source::Lib, extra: "String::new()".into(), more: vec![] }
}

/// From route file text, read by the monitor's own reader.
pub fn from_text(label: &str, text: &str) -> Case {
    let mut c = special(label, crate::reader::read(text).expect(label));
    c.source = Source::Text(text.to_string());
    c
}

/// The library's configuration for a case.
pub fn load(ctx: &Ctx, c: &Case) -> Result<wayfinder::RouteConfig, String> {
    match &c.source {
        Source::Lib => Ok(lcfg(&c.cfg)),
        Source::Given(g) => Ok(g.clone()),
        Source::Text(t) => {
            let r = ctx.guard(t, || match wayfinder::parse::route_config(t) {
                Ok((rest, c)) if rest.0.is_empty() => Ok(c),
                Ok((rest, _)) => Err(format!("route file only partly read, {:?} left over", rest.0)),
                Err(e) => Err(format!("valid route file refused: {:?}", e).chars().take(400).collect()),
            });
            match r {
                Ok(r) => r,
                Err(p) => Err(format!("reading a valid route file panicked: {}", p)),
            }
        }
    }
}

pub fn generate(ctx: &Ctx, lib: &wayfinder::RouteConfig) -> Result<String, String> {
    let r = ctx.guard(&lib_text(lib), || {
        let mut w = vec![];
        wayfinder::gen::codegen(&mut w, lib).map(|_| w)
    });
    match r {
        Err(p) => Err(format!("generating code panicked: {}", p)),
        Ok(Err(e)) => Err(format!("generating code failed: {}", e)),
        Ok(Ok(w)) => String::from_utf8(w).map_err(|_| "generated code is not UTF-8".into()),
    }
}

fn lib_text(lib: &wayfinder::RouteConfig) -> String {
    // not by the library's own printer: that one is under test as well
    plain(&from_lib(lib))
}

pub fn files(c: &Case, code: &str) -> Vec<(String, Vec<u8>)> {
    let mut v = vec![
        ("config.routes".to_string(), plain(&c.cfg).into_bytes()),
        ("generated.rs".to_string(), code.as_bytes().to_vec()),
    ];
    if let Source::Text(t) = &c.source {
        v.push(("as-written.routes".to_string(), t.clone().into_bytes()));
    }
    v
}

pub fn run(ctx: &Ctx, ck: &Check) {
    let per = ck.per_batch;
    let sp = (ck.specials.len() + per - 1) / per;
    let salt = hash(&ctx.id);
    ctx.parallel(sp + ck.batches, |j| {
        let mut cases = vec![];
        if j < sp {
            for c in ck.specials.iter().skip(j * per).take(per) {
                cases.push(c.clone());
            }
        } else {
            for k in 0..per {
                let mut r = Rng::stream(ctx.seed ^ salt, (j - sp) as u64, k as u64);
                cases.push((ck.make)(&mut r, (j - sp) * per + k));
            }
        }
        batch(ctx, ck, j, &cases);
    });
}

fn batch(ctx: &Ctx, ck: &Check, j: usize, cases: &[Case]) {
    let dir = ctx.scratch.join(format!("b{}", j));
    let mut routers: Vec<Router> = vec![];
    let mut fates: Vec<Option<Fate>> = vec![];
    let mut reqs: Vec<Vec<Req>> = vec![];
    let mut blds: Vec<Vec<Build>> = vec![];
    for (k, c) in cases.iter().enumerate() {
        let mut r = Rng::stream(ctx.seed ^ 0x5eed, j as u64, k as u64);
        if let Err(e) = gen::sane(&c.cfg) {
            eprintln!("generator made a config outside the language: {} {}", c.label, e);
            std::process::exit(3);
        }
        let mut q = c.more.clone();
        let nmore = q.len();
        for mut x in reqs::requests(&c.cfg, &mut r, &ck.plan) {
            x.base = x.base.map(|b| b + nmore);
            q.push(x);
        }
        let b = if ck.builds > 0 { reqs::builds(&c.cfg, &mut r, ck.builds) } else { vec![] };
        let mut lines: Vec<String> = q.iter().map(|q| q.line()).collect();
        lines.extend(b.iter().map(|b| b.line()));
        if ck.judge_extra.is_some() {
            lines.push("X".into());
        }
        let code = load(ctx, c).and_then(|lib| generate(ctx, &lib));
        match code {
            Ok(code) => {
                routers.push(Router { code, cfg: c.cfg.clone(), extra: c.extra.clone(), lines });
                fates.push(None);
            }
            Err(e) => {
                routers.push(Router { code: String::new(), cfg: c.cfg.clone(), extra: c.extra.clone(), lines });
                fates.push(Some(Fate::Refused { own: true, errors: e }));
            }
        }
        reqs.push(q);
        blds.push(b);
    }
    let mut notes = vec![];
    if let Some(b) = app::build(&dir, &routers, &mut fates) {
        notes = app::run(&dir, &b, &routers, &mut fates, ck.threads);
    }
    for n in &notes {
        let f: Vec<&str> = n.splitn(3, '\x1f').collect();
        match f[0] {
            "Tdone" => ctx.count("requests answered by concurrent threads", f[1].parse().unwrap_or(0)),
            "T" => ctx.violation(
                format!("answers differ between threads: request line {} answered {:?}", f[1], f.get(2)),
                vec![("requests".into(), std::fs::read(dir.join("requests")).unwrap_or_default())],
            ),
            _ => ctx.violation(
                format!("concurrent use of the router: {}", n),
                vec![("requests".into(), std::fs::read(dir.join("requests")).unwrap_or_default())],
            ),
        }
    }
    for (k, c) in cases.iter().enumerate() {
        let rt = &routers[k];
        match fates[k].take() {
            None => ctx.unknown("no verdict for a router".into()),
            Some(Fate::Unknown(s)) => ctx.unknown(s),
            Some(Fate::Refused { own, errors }) => {
                ctx.count("routers unusable", 1);
                if !ck.owns_refusal {
                    continue;
                }
                ctx.violation(
                    format!(
                        "{} for a configuration within the language {}\n{}",
                        if own { "no usable router is generated" } else { "the generated router is not as documented" },
                        c.label,
                        errors
                    ),
                    files(c, &rt.code),
                );
            }
            Some(Fate::Died { at, how }) => {
                if !ck.owns_refusal && !(ck.owns_time && how.starts_with("used")) {
                    ctx.count("routers that died", 1);
                    continue;
                }
                let req = reqs[k].get(at).map(|r| r.show()).unwrap_or_else(|| format!("line {}", rt.lines[at]));
                ctx.violation(format!("the matcher {} on {}", how, req), files(c, &rt.code));
            }
            Some(Fate::Ran(ans)) => {
                ctx.count("routers compiled and asked", 1);
                judge(ctx, ck, c, rt, &reqs[k], &blds[k], &ans);
            }
        }
    }
    let _ = std::fs::remove_dir_all(&dir);
}

fn judge(ctx: &Ctx, ck: &Check, c: &Case, rt: &Router, reqs: &[Req], blds: &[Build], ans: &[Option<Ans>]) {
    let spec = Spec::new(&c.cfg);
    let shape = c.cfg.shape();
    let mut evals = 0u64;
    let mut kinds: std::collections::BTreeMap<String, u64> = Default::default();
    let mut hs: Vec<u64> = vec![];
    let mut bad = 0;
    for (i, q) in reqs.iter().enumerate() {
        let a = match ans.get(i) {
            Some(Some(a)) => a,
            _ => continue,
        };
        let exp = spec.expect(&q.path, &q.method);
        if !exp.admits(&a.out) {
            if let Some(key) = exp.known(&a.out) {
                if ck.reports.contains(&key) {
                    ctx.known(noted(key));
                }
                *kinds.entry(format!("passed over: known finding {}", key)).or_insert(0) += 1;
                continue;
            }
        }
        let base = q.base.and_then(|b| match ans.get(b) {
            Some(Some(x)) => Some((&reqs[b], x)),
            _ => None,
        });
        let j = J { cfg: &c.cfg, spec: &spec, req: q, exp: &exp, ans: a, base };
        let v = (ck.judge)(&j);
        if let V::NotMine = v {
            continue;
        }
        evals += 1;
        *kinds.entry(format!("answers: {}", a.out.kind())).or_insert(0) += 1;
        *kinds.entry(format!("requests: {}", q.kind)).or_insert(0) += 1;
        hs.push(shape ^ hash(&format!("{} {} {}", hashb(&q.path), hashb(&q.method), a.out.kind())));
        if evals % 97 == 5 {
            ctx.sample(format!("{} -> {}", q.show(), a.out.show()));
        }
        if let V::Broken(what) = v {
            bad += 1;
            if bad <= 3 {
                let mut f = files(c, &rt.code);
                f.push(("request".into(), format!("{}\n{}\n", q.show(), q.line()).into_bytes()));
                ctx.violation(
                    format!(
                        "{}\nconfiguration {} {}\nrequest  {}\nexpected {}\nobserved {}",
                        what,
                        c.label,
                        brief(&c.cfg),
                        q.show(),
                        exp.show(),
                        a.out.show()
                    ),
                    f,
                );
            }
        }
    }
    if let Some(jb) = &ck.judge_build {
        for (i, b) in blds.iter().enumerate() {
            let a = match ans.get(reqs.len() + i) {
                Some(Some(a)) => a,
                _ => continue,
            };
            let v = jb(&JB { cfg: &c.cfg, spec: &spec, build: b, ans: a });
            if let V::NotMine = v {
                continue;
            }
            evals += 1;
            *kinds.entry("requests built by hand".to_string()).or_insert(0) += 1;
            hs.push(shape ^ hash(&b.line()));
            if let V::Broken(what) = v {
                bad += 1;
                if bad <= 3 {
                    let mut f = files(c, &rt.code);
                    f.push(("built".into(), format!("{:?}\n", b).into_bytes()));
                    ctx.violation(
                        format!("{}\nconfiguration {} {}\nbuilt {:?}\nobserved {}", what, c.label, brief(&c.cfg), b, a.out.show()),
                        f,
                    );
                }
            }
        }
    }
    if let Some(jx) = &ck.judge_extra {
        if let Some(Some(a)) = ans.last() {
            match jx(&c.cfg, &a.p_struct, &rt.code) {
                V::NotMine => {}
                v => {
                    evals += 1;
                    hs.push(shape ^ hash(&a.p_struct));
                    *kinds.entry("routers inspected".to_string()).or_insert(0) += 1;
                    if let V::Broken(what) = v {
                        ctx.violation(
                            format!("{}\nconfiguration {} {}\nobserved {}", what, c.label, brief(&c.cfg), a.p_struct),
                            files(c, &rt.code),
                        );
                    }
                }
            }
        }
    }
    let mut st = ctx.st.lock().unwrap();
    *st.counts.entry("evaluations".into()).or_insert(0) += evals;
    for (k, n) in kinds {
        *st.counts.entry(k).or_insert(0) += n;
    }
    st.distinct.extend(hs);
}

pub fn brief(c: &Cfg) -> String {
    let t = plain(c);
    if t.len() < 900 {
        format!("\n{}", t)
    } else {
        format!("({} lines, see config.routes)", t.lines().count())
    }
}

fn hashb(b: &[u8]) -> u64 {
    let mut h = 0xcbf2_9ce4_8422_2325u64;
    for b in b {
        h = (h ^ *b as u64).wrapping_mul(0x0000_0100_0000_01B3);
    }
    h
}

pub fn differs(exp: &Expect, o: &Out) -> bool {
    !exp.admits(o)
}
