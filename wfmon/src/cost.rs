//! C25: what reading, printing and generating cost, and how it grows.

use crate::cfg::*;
use crate::ctx::{hash, Ctx};
use crate::gen::{self, Prof};
use crate::rng::Rng;
use crate::route::{self, Case, V};
use crate::sys::{self, End};
use crate::text;
use std::process::Command;

/// How a family grows: with more siblings, or with more levels.
#[derive(Clone, Copy, PartialEq, Debug)]
enum Kind {
    Beside,
    Within,
}

struct Family {
    name: String,
    kind: Kind,
    /// a text for a size; sizes double
    text: Box<dyn Fn(usize) -> String>,
    from: usize,
    steps: usize,
}

fn ind(k: usize) -> String {
    "  ".repeat(k)
}

fn each(n: usize, f: impl Fn(usize) -> String) -> String {
    (0..n).map(f).collect()
}

fn named() -> Vec<Family> {
    let mut v: Vec<Family> = vec![];
    let mut add = |name: &str, kind, f: Box<dyn Fn(usize) -> String>| {
        let (from, steps) = if kind == Kind::Within { (10, 3) } else { (20, 4) };
        v.push(Family { name: name.into(), kind, text: f, from, steps });
    };
    use Kind::*;
    let wide = |n: usize| format!("/\n{}", each(n, |k| format!("  s{k}\n    GET A{k}\n")));
    let deep = |n: usize| format!("/\n{}{}GET Z\n", each(n, |k| format!("{0}GET A{k}\n{0}a{k}\n", ind(k + 1))), ind(n + 1));
    add("siblings", Beside, Box::new(wide));
    add("siblings beside a parameter", Beside, Box::new(move |n| format!("{}  {{id: u32}}\n    GET P\n", wide(n))));
    add("siblings with a parameter each", Beside, Box::new(|n| {
        format!("/\n{}", each(n, |k| format!("  s{k}\n    {{id: u32}}\n      GET A{k}\n      tail\n        PUT B{k}\n")))
    }));
    add("literals that are prefixes of each other", Within, Box::new(|n| {
        format!("/\n{}", each(n, |k| format!("  {}\n    GET A{k}\n", "a".repeat(k + 1))))
    }));
    add("the same beside a parameter", Within, Box::new(|n| {
        format!("/\n{}  {{id: u32}}\n    GET P\n", each(n, |k| format!("  {}\n    GET A{k}\n", "a".repeat(k + 1))))
    }));
    add("levels", Within, Box::new(deep));
    add("levels without resources", Within, Box::new(|n| {
        format!("/\n{}{}GET Z\n", each(n, |k| format!("{}a{k}\n", ind(k + 1))), ind(n + 1))
    }));
    add("levels of parameters", Within, Box::new(|n| {
        format!("/\n{}{}GET Z\n", each(n, |k| format!("{}{{p{k}: u32}}\n", ind(k + 1))), ind(n + 1))
    }));
    add("levels of a literal and a parameter", Within, Box::new(|n| {
        format!(
            "/\n{}{}GET Z\n",
            each(n, |k| format!("{0}x\n{0}  GET A{k}\n{0}{{p{k}: u32}}\n", ind(k + 1))),
            ind(n + 1)
        )
    }));
    add("levels of two literals and a parameter", Within, Box::new(|n| {
        format!(
            "/\n{}{}GET Z\n",
            each(n, |k| format!("{0}x\n{0}  GET A{k}\n{0}yx\n{0}  GET B{k}\n{0}{{p{k}: u32}}\n", ind(k + 1))),
            ind(n + 1)
        )
    }));
    add("levels below the literal beside a parameter", Within, Box::new(|n| {
        format!(
            "/\n{}{}GET Z\n{}",
            each(n, |k| format!("{0}x\n", ind(k + 1))),
            ind(n + 1),
            (0..n).rev().map(|k| format!("{0}{{p{k}: u32}}\n{0}  GET A{k}\n", ind(k + 1))).collect::<String>()
        )
    }));
    add("levels with siblings after", Within, Box::new(|n| {
        format!(
            "/\n{}{}GET Z\n{}",
            each(n, |k| format!("{0}x\n", ind(k + 1))),
            ind(n + 1),
            (0..n).rev().map(|k| format!("{0}y\n{0}  GET A{k}\n", ind(k + 1))).collect::<String>()
        )
    }));
    add("levels with query parameters", Within, Box::new(|n| {
        format!("/\n{}{}GET Z\n", each(n, |k| format!("{0}[q{k}: u8]\n{0}GET A{k}\n{0}a{k}\n", ind(k + 1))), ind(n + 1))
    }));
    add("query parameters", Beside, Box::new(|n| format!("/\n  GET A\n{}", each(n, |k| format!("    [q{k}: u8]\n")))));
    add("query parameters of a block", Beside, Box::new(|n| format!("/\n{}  GET A\n", each(n, |k| format!("  [q{k}: u8]\n")))));
    add("query parameters of a block in a block", Beside, Box::new(|n| format!("/\n{}  x\n{}    GET M::A\n      [z: u8]\n", each(n, |k| format!("  [q{k}: u8]\n")), each(n, |k| format!("    [r{k}: u8]\n")))));
    add("parameters of many names at one place each", Beside, Box::new(|n| format!("/\n{}", each(n, |k| format!("  s{k}\n    {{p{k}: u8}}\n      GET A{k}\n        [q{k}: u8]\n")))));
    add("modules in modules", Within, Box::new(|n| format!("/\n  GET {}A\n", each(n, |k| format!("M{k}::")))));
    add("modules", Beside, Box::new(|n| format!("/\n{}", each(n, |k| format!("  a{k}\n    GET M{k}::A\n")))));
    add("handlers of one module", Beside, Box::new(|n| format!("/\n{}", each(n, |k| format!("  a{k}\n    GET M::A{k}\n")))));
    add("redirects", Beside, Box::new(|n| format!("/\n  GET A\n{}", each(n, |k| format!("  s{k}\n    GET -> A\n")))));
    add("header lines", Beside, Box::new(|n| format!("{}/\n  GET M::A\n", each(n, |k| format!("use a{k};\n")))));
    add("header lines and modules", Within, Box::new(|n| {
        format!("{}/\n{}", each(n, |k| format!("use a{k};\n")), each(n, |k| format!("  a{k}\n    GET M{k}::A\n")))
    }));
    add("a long literal", Beside, Box::new(|n| format!("/\n  {}\n    GET A\n", "ab".repeat(4 * n))));
    add("a long handler name", Beside, Box::new(|n| format!("/\n  GET {}\n", "Ab".repeat(8 * n))));
    add("a long parameter name", Beside, Box::new(|n| format!("/\n  {{{}: u8}}\n    GET A\n", "ab".repeat(8 * n))));
    add("blank lines", Beside, Box::new(|n| format!("/\n  GET A\n{}  b\n    GET B\n", "\n".repeat(20 * n))));
    add("fault after levels", Within, Box::new(move |n| format!("{}???\n", deep(n))));
    add("fault within levels", Within, Box::new(move |n| format!("{}{}GET A B\n", deep(n), ind(n + 1))));
    add("fault below every level", Within, Box::new(|n| {
        format!("/\n{}{}GET A B\n", each(n, |k| format!("{0}x\n{0}  GET A{k}\n{0}y{k}\n", ind(k + 1))), ind(n + 1))
    }));
    add("fault at the end of many levels", Within, Box::new(|n| {
        format!("/\n{}{}?\n", each(n, |k| format!("{}a{k}\n", ind(k + 1))), ind(n + 1))
    }));
    add("fault after siblings", Beside, Box::new(move |n| format!("{}???\n", wide(n))));
    add("opening braces", Beside, Box::new(|n| format!("/\n  GET A\n  {}\n", "{".repeat(20 * n))));
    add("opening brackets", Beside, Box::new(|n| format!("/\n  {}\n", "[".repeat(20 * n))));
    add("module marks", Beside, Box::new(|n| format!("/\n  GET A\n  GET {}\n", "a::".repeat(20 * n))));
    add("arrows", Beside, Box::new(|n| format!("/\n  GET A\n  GET {}\n", "-> ".repeat(20 * n))));
    add("spaces", Beside, Box::new(|n| format!("/\n  GET A\n  GET {}A ?\n", " ".repeat(20 * n))));
    add("header lines only", Beside, Box::new(|n| "use a;\n".repeat(20 * n)));
    add("slashes", Beside, Box::new(|n| "/\n".repeat(20 * n)));
    add("blank lines only", Beside, Box::new(|n| "\n".repeat(20 * n)));
    add("indentation only", Beside, Box::new(|n| format!("/\n{}", "  ".repeat(20 * n))));
    v
}

/// A random configuration many times, side by side or each below the last.
fn grown(r: &mut Rng, kind: Kind) -> Family {
    let prof = Prof { stretch: 0, budget: 8, depth: 3, ..Prof::default() };
    let c = gen::config(r, &prof);
    let name = format!("a configuration {}\n{}", if kind == Kind::Beside { "side by side" } else { "below itself" }, plain(&c));
    let base = c.clone();
    let text = move |n: usize| {
        let mut all = gen::copies(&base, n);
        if kind != Kind::Beside {
            let subs = std::mem::take(&mut all.root.kids);
            for (k, (_, mut sub)) in subs.into_iter().enumerate() {
                if k > 0 {
                    sub.kids.push((Seg::Lit("zz_below".into()), std::mem::take(&mut all.root)));
                }
                all.root = sub;
            }
        }
        plain(&all)
    };
    let (from, steps) = if kind == Kind::Within { (6, 3) } else { (4, 4) };
    Family { name, kind, text: Box::new(text), from, steps }
}

/// One random level many times below itself: what leads on, and what stands beside it.
fn chain(r: &mut Rng) -> Family {
    let word = |r: &mut Rng| -> String {
        let n = *r.pick(&[1, 1, 2, 3, 5, 8, 13, 20, 40]);
        (0..n).map(|_| *r.pick(&['a', 'b', 'x', '_', 'Z', '1', '\u{e9}'])).collect()
    };
    let on = word(r);
    let by_param = r.pct(25);
    let mut sibs: Vec<String> = vec![];
    for _ in 0..*r.pick(&[0, 1, 1, 2, 3]) {
        let w = match r.below(4) {
            0 => format!("{}{}", on, word(r)),
            1 => on.chars().take(on.chars().count().max(2) / 2).chain("q".chars()).collect(),
            _ => word(r),
        };
        if w != on && !sibs.contains(&w) {
            sibs.push(w);
        }
    }
    let param = !by_param && r.pct(60);
    let (own, query, redirect, modules) = (r.pct(50), r.pct(15), r.pct(15), r.pct(15));
    let first = r.pct(50);
    let deep_param = r.pct(30);
    let empty = r.pct(20);
    let name = format!("levels of {:?} (parameter {}) beside {:?} (parameter {}), {:?}", on, by_param, sibs, param, (own, query, redirect, modules, first, deep_param, empty));
    let text = move |n: usize| {
        let mut up = String::from("/\n");
        let mut down: Vec<String> = vec![];
        for k in 0..n {
            let i = ind(k + 1);
            let m = if modules { format!("M{}::N::", k) } else { String::new() };
            if query {
                up.push_str(&format!("{}[q{}: u8]\n", i, k));
            }
            if own {
                up.push_str(&format!("{}GET {}Own{}\n", i, m, k));
            }
            let mut beside = String::new();
            for (j, s) in sibs.iter().enumerate() {
                if empty {
                    beside.push_str(&format!("{0}{1}\n{0}  far\n{0}    GET {2}S{3}x{4}\n", i, s, m, k, j));
                } else {
                    beside.push_str(&format!("{0}{1}\n{0}  GET {2}S{3}x{4}\n", i, s, m, k, j));
                }
                if redirect && own {
                    beside.push_str(&format!("{0}    PUT -> {1}Own{2}\n", i, m, k).replacen("    PUT", "  PUT", if empty { 0 } else { 1 }));
                }
            }
            if param {
                beside.push_str(&format!("{0}{{p{1}: u32}}\n{0}  GET {2}P{1}\n", i, k, m));
                if deep_param {
                    beside.push_str(&format!("{0}  {1}\n{0}    GET {2}PP{3}\n", i, on, m, k));
                }
            }
            if first {
                down.push(beside);
            } else {
                up.push_str(&beside);
            }
            up.push_str(&if by_param { format!("{}{{c{}: u32}}\n", i, k) } else { format!("{}{}\n", i, on) });
        }
        up.push_str(&format!("{}GET Zz\n", ind(n + 1)));
        down.reverse();
        up.push_str(&down.concat());
        up
    };
    Family { name, kind: Kind::Within, text: Box::new(text), from: 5, steps: 3 }
}

/// A damaged file many times over, or with the damage at the end.
fn damaged(r: &mut Rng) -> Family {
    let t = text::broken(r);
    let name = format!("a damaged file {:?}", t.chars().take(300).collect::<String>());
    let front = r.pct(50);
    let text = move |n: usize| {
        if front {
            let body = t.strip_prefix("/\n").unwrap_or(&t);
            format!("/\n{}", body.repeat(n))
        } else {
            let mut s = String::from("/\n");
            for k in 0..n {
                s.push_str(&format!("{0}GET A{1}\n{0}a{1}\n", ind(k + 1), k));
            }
            for l in t.lines().skip(1) {
                s.push_str(&format!("{}{}\n", ind(n), l));
            }
            s
        }
    };
    Family { name, kind: Kind::Within, text: Box::new(text), from: 8, steps: 3 }
}

const STEPS: [&str; 4] = ["read", "print", "generate", "report"];

/// Families one after another in a process of its own that counts.
fn measure(ctx: &Ctx, j: usize, fams: &[Family], f_named: bool) {
    let dir = ctx.scratch.join(format!("cost-{}", j));
    let _ = std::fs::create_dir_all(&dir);
    for (f, fam) in fams.iter().enumerate() {
        let mut sizes: Vec<usize> = (0..fam.steps).map(|s| fam.from << s).collect();
        if fam.kind == Kind::Beside {
            // (a literal of a megabyte is not what this is about)
            let far: &[usize] = if f_named && !fam.name.starts_with("a ") { &[8, 64, 512] } else { &[8, 64] };
            let last = sizes[fam.steps - 1];
            sizes.extend(far.iter().map(|k| last * k));
        }
        let files: Vec<String> = sizes.iter().map(|n| format!("{}-{}", f, n)).collect();
        for (n, name) in sizes.iter().zip(&files) {
            std::fs::write(dir.join(name), (fam.text)(*n)).expect("scratch file");
        }
        let exe = std::env::current_exe().expect("own path").with_file_name("wfcost");
        let mut c = Command::new(exe);
        c.args(&files).current_dir(&dir);
        if fam.name.starts_with("a damaged file") {
            c.env("WF_MAY_REFUSE", "1");
        }
        sys::limit(&mut c, sys::RLIMIT_CPU, 60, 61);
        sys::limit(&mut c, sys::RLIMIT_AS, 6 << 30, 6 << 30);
        sys::limit(&mut c, sys::RLIMIT_CORE, 0, 0);
        let d = sys::run(&mut c, &dir, "cost", 600);
        let out = String::from_utf8_lossy(&d.out).to_string();
        let err = String::from_utf8_lossy(&d.err).to_string();
        let last = out.lines().last().unwrap_or("nothing").to_string();
        let at = last.split(' ').next().unwrap_or("");
        let case = |s: &str| vec![("case.routes".to_string(), std::fs::read(dir.join(s)).unwrap_or_default())];
        match d.end {
            End::Exit(0) => {}
            End::NoStart(e) => {
                ctx.unknown(format!("cannot count: {}", e));
                continue;
            }
            End::Timeout => {
                ctx.unknown(format!("counting took too long: {}", fam.name));
                continue;
            }
            End::Signal(s) if s == 24 || s == 9 && out.contains("begins") => {
                ctx.violation(format!("no end after a minute of CPU time: {}\nlast {}", fam.name, last), case(at));
                continue;
            }
            End::Signal(s) => {
                ctx.violation(format!("ended by signal {}: {}\nlast {}\n{}", s, fam.name, last, brief(&err)), case(at));
                continue;
            }
            End::Exit(_) => {
                ctx.violation(format!("reading or generating failed: {}\nlast {}\n{}", fam.name, last, brief(&err)), case(at));
                continue;
            }
        }
        // step -> one row per size: allocations, bytes, peak, output, CPU
        let read = |out: &str, step: &str| -> Vec<(usize, Vec<u64>)> {
            let mut rows = vec![];
            for l in out.lines() {
                let w: Vec<&str> = l.split(' ').collect();
                if w.len() == 7 && w[1] == step {
                    let n = w[0].rsplit('-').next().unwrap().parse().unwrap_or(0);
                    rows.push((n, w[2..].iter().map(|x| x.parse().unwrap_or(0)).collect()));
                }
            }
            rows
        };
        let mut slow: Vec<(&str, usize, usize)> = vec![];
        for step in STEPS {
            let rows = read(&out, step);
            for p in rows.windows(2) {
                let ((n, a), (m, b)) = (&p[0], &p[1]);
                // 2, and 8 for what stands side by side in great numbers
                let times = (*m / *n) as u64;
                if !sizes.windows(2).any(|w| w[0] == *n && w[1] == *m) {
                    continue;
                }
                ctx.count("evaluations", 1);
                ctx.count(&format!("{} measured: {}", if times == 2 { "doublings" } else { "growth by 8" }, step), 1);
                ctx.distinct(hash(&format!("{} {} {}", fam.name, step, n)));
                // most it may cost: siblings are linear, levels cubic, their code quadratic
                // (bytes come in steps: what holds them doubles at once)
                let (cost, output) = if fam.kind == Kind::Beside { ([times * 3 / 2, times * 3, times * 3], times * 3 / 2) } else { ([14; 3], 6) };
                if times > 2 && b[4] > 3 * times * a[4] + 100_000 {
                    slow.push((step, *n, *m));
                }
                let what = ["allocations", "bytes allocated", "bytes in use"];
                for k in 0..3 {
                    let floor = [2000, 400_000, 400_000][k];
                    if b[k] > cost[k] * a[k] + floor {
                        ctx.violation(
                            format!("{} from {} to {} times as large, the {} to {} it grow from {} to {}", fam.name, n, m, what[k], step, a[k], b[k]),
                            case(&format!("{}-{}", f, m)),
                        );
                    }
                }
                if b[3] > output * a[3] + 4000 {
                    ctx.violation(
                        format!("{} from {} to {} times as large, what is written to {} it grows from {} to {} bytes", fam.name, n, m, step, a[3], b[3]),
                        case(&format!("{}-{}", f, m)),
                    );
                }
                if b[4] > 10_000_000 {
                    ctx.violation(format!("{}: {} {} times as large takes {} s", fam.name, step, m, b[4] / 1_000_000), case(&format!("{}-{}", f, m)));
                }
            }
            if let Some((n, r)) = rows.last() {
                ctx.count("allocations counted", r[0]);
                if f % 7 == 3 {
                    ctx.sample(format!("{} {} x{}: {} allocations, {} bytes written", step, fam.name.lines().next().unwrap_or(""), n, r[0], r[3]));
                }
            }
        }
        // time varies: what looked slow has to be slow three times
        if !slow.is_empty() {
            let (step, n, m) = slow[0];
            let mut best = vec![];
            for _ in 0..3 {
                let mut c = Command::new(std::env::current_exe().expect("own path").with_file_name("wfcost"));
                c.args([format!("{}-{}", f, n), format!("{}-{}", f, m)]).current_dir(&dir);
                sys::limit(&mut c, sys::RLIMIT_CPU, 60, 61);
                sys::limit(&mut c, sys::RLIMIT_CORE, 0, 0);
                let d = sys::run(&mut c, &dir, "again", 600);
                let rows = read(&String::from_utf8_lossy(&d.out), step);
                if rows.len() == 2 {
                    best.push((rows[0].1[4], rows[1].1[4]));
                }
            }
            let a = best.iter().map(|p| p.0).max().unwrap_or(0);
            let b = best.iter().map(|p| p.1).min().unwrap_or(0);
            ctx.count("slow steps measured again", 1);
            if best.len() == 3 && b > 24 * a + 100_000 {
                ctx.violation(
                    format!("{} from {} to {} times as large, the time to {} it grows from {} to {} microseconds", fam.name, n, m, step, a, b),
                    vec![("case.routes".to_string(), std::fs::read(dir.join(format!("{}-{}", f, m))).unwrap_or_default())],
                );
            }
        }
    }
    let _ = std::fs::remove_dir_all(&dir);
}

/// Long paths, on the stack a build script has.
fn long_paths(ctx: &Ctx) {
    let dir = ctx.scratch.join("long");
    let _ = std::fs::create_dir_all(&dir);
    let files = [
        ("one literal of 12,000 bytes", format!("/\n  {}\n    GET A\n", "abc".repeat(4000))),
        ("two literals of 6,000 bytes", format!("/\n  {0}x\n    GET A\n  {0}y\n    GET B\n", "abc".repeat(2000))),
        ("a literal of 6,000 bytes beside a parameter", format!("/\n  {}\n    GET A\n  {{id: u8}}\n    GET B\n", "abc".repeat(2000))),
        ("two literals of 4,000 bytes beside a parameter", format!("/\n  y{0}\n    GET A\n  x{0}\n    GET C\n  {{id: u8}}\n    GET B\n", "abcd".repeat(1000))),
        ("60 levels of 100 bytes", {
            let l = "abcde".repeat(20);
            format!("/\n{}{}GET A\n", each(60, |k| format!("{}{}\n", ind(k + 1), l)), ind(61))
        }),
    ];
    for (what, t) in &files {
        std::fs::write(dir.join("long.routes"), t).expect("scratch file");
        let exe = std::env::current_exe().expect("own path").with_file_name("wfcost");
        let mut c = Command::new(exe);
        c.arg("long.routes").current_dir(&dir).env("WF_STACK", (8 << 20).to_string());
        sys::limit(&mut c, sys::RLIMIT_CPU, 60, 61);
        sys::limit(&mut c, sys::RLIMIT_CORE, 0, 0);
        let d = sys::run(&mut c, &dir, "long", 600);
        ctx.count("evaluations", 1);
        ctx.count("long paths on a stack of 8 MB", 1);
        ctx.distinct(hash(t));
        match d.end {
            End::Exit(0) => {}
            End::NoStart(e) => ctx.unknown(format!("cannot read a long path: {}", e)),
            End::Timeout => ctx.unknown("a long path took too long".into()),
            _ => ctx.violation(
                format!("{}: reading, printing or generating does not end well\n{}", what, brief(&String::from_utf8_lossy(&d.err))),
                vec![("long.routes".to_string(), t.clone().into_bytes())],
            ),
        }
    }
    let _ = std::fs::remove_dir_all(&dir);
}

fn brief(s: &str) -> String {
    s.chars().take(600).collect()
}

/// Asks a router about paths of a few sizes; nanoseconds of CPU time each.
const LONG: &str = r##"    #[repr(C)]
    struct Ts { s: i64, ns: i64 }
    extern "C" { fn clock_gettime(id: i32, t: *mut Ts) -> i32; }
    fn cpu() -> u64 { let mut t = Ts { s: 0, ns: 0 }; unsafe { clock_gettime(3, &mut t) }; t.s as u64 * 1_000_000_000 + t.ns as u64 }
    let mut v: Vec<u64> = vec![];
    'all: for start in starts {
        for pattern in ["x", "/", "7", "x/", "%41", "\u{e9}"] {
            for (short, long) in [(1usize << 12, 1usize << 15), (1 << 16, 1 << 19)] {
                let mut pair = [0u64; 2];
                for (k, n) in [short, long].iter().enumerate() {
                    let mut p = start.as_bytes().to_vec();
                    while p.len() < *n { p.extend_from_slice(pattern.as_bytes()); }
                    for again in 0..3 {
                        let t = cpu();
                        let r = R::match_route(&p, "GET");
                        let t = cpu() - t;
                        std::mem::drop(r);
                        pair[k] = if again == 0 { t } else { pair[k].min(t) };
                        // once is enough unless it looks slow
                        if k == 1 && pair[1] <= 32 * pair[0].max(*n as u64) || pair[k] > 2_000_000_000 { break; }
                    }
                }
                v.extend_from_slice(&pair);
                v.push(short as u64);
                if pair[1] > 32 * pair[0].max(short as u64 * 8) { break 'all; }
            }
        }
    }
    format!("{:?}", v)"##;

pub fn c25(ctx: &Ctx) {
    ctx.rule("families of configurations and of damaged files that double in size (named shapes, random levels below themselves, and random configurations side by side or below themselves) are read, printed, generated and reported in a process whose allocations are counted, what stands side by side also at sizes 8 and 64 times as large with its CPU time, and routers are asked paths of 4 and 32 kB, and of 64 and 512 kB; one evaluation is one doubling of one step, or one pair of paths; distinct = (family, step, size) or (configuration, path)");
    let salt = hash(&ctx.id);
    let k = named().len();
    let rounds = if ctx.thorough { 300 } else { 20 };
    let per = 2;
    long_paths(ctx);
    let named_jobs = (k + per - 1) / per;
    ctx.parallel(named_jobs + rounds, |j| {
        if j < named_jobs {
            let mut all = named();
            let to = ((j + 1) * per).min(all.len());
            let mine: Vec<Family> = all.drain(j * per..to).collect();
            measure(ctx, j, &mine, true);
        } else {
            let mut r = Rng::stream(ctx.seed ^ salt, (j - named_jobs) as u64, 0);
            let fams = vec![
                grown(&mut r, Kind::Beside),
                grown(&mut r, Kind::Within),
                chain(&mut r),
                chain(&mut r),
                chain(&mut r),
                chain(&mut r),
                damaged(&mut r),
                damaged(&mut r),
                damaged(&mut r),
            ];
            measure(ctx, j, &fams, false);
        }
    });
    // the matchers
    let mut ck = crate::routing::plain_check(ctx);
    ck.judge = Box::new(|_| V::NotMine);
    ck.specials = vec![];
    ck.owns_refusal = false;
    ck.owns_time = true;
    ck.make = Box::new(|r, _| {
        let p = Prof { params: 60, ..Prof::default() };
        let mut c: Case = route::case(r, &p);
        let mut starts = vec!["/".to_string()];
        let es = c.cfg.entries();
        for _ in 0..3 {
            let e = r.pick(&es).clone();
            let full = crate::reqs::join(&crate::reqs::fill(&e.path, r, None), true, false);
            let full = String::from_utf8_lossy(&full).to_string();
            starts.push(full.clone());
            let cut = full.rfind('/').map(|i| i + 1).unwrap_or(0);
            starts.push(full[..cut].to_string());
        }
        c.extra = format!("    let starts: Vec<&str> = vec!{:?};\n{}", starts, LONG);
        c
    });
    ck.plan = crate::reqs::Plan { per_entry: 0, mutants: 0, bytes: 0, cap: 1 };
    ck.judge_extra = Some(Box::new(|_, got, _| {
        let v: Vec<u64> = got.trim_matches(|c| c == '[' || c == ']').split(", ").filter_map(|s| s.parse().ok()).collect();
        if v.len() < 3 {
            return V::NotMine;
        }
        for p in v.chunks(3) {
            // eight times as long: 8 if linear, 64 if quadratic; nothing counts below 8 ns a byte
            if p[1] > 32 * p[0].max(8 * p[2]) {
                return V::Broken(format!(
                    "a path of {} bytes takes {} times as long as one of {} ({} ns, {} ns)",
                    8 * p[2],
                    p[1] / p[0].max(1),
                    p[2],
                    p[1],
                    p[0]
                ));
            }
        }
        V::Held
    }));
    ck.batches = if ctx.thorough { 40 } else { 8 };
    route::run(ctx, &ck);
}
