// Runtime of the generated applications: reads requests, asks the routers,
// and writes down what they answered, one line per request.

use std::cell::RefCell;
use std::io::{BufRead, Write};
use std::panic;

pub enum Out {
    NotFound,
    NotAllowed,
    Err(String, String),
    Hit(bool, Desc),
}

pub struct Desc {
    pub handler: &'static str,
    pub method: &'static str,
    pub fields: Vec<(&'static str, String)>,
    pub p_struct: String,
    pub p_route: String,
}

pub type Built = Option<(Desc, String)>;

pub struct Router {
    pub id: usize,
    pub m: fn(&[u8], &[u8]) -> Out,
    pub b: fn(usize, &[String], &[Option<String>]) -> Built,
    pub x: fn() -> String,
}

pub fn same<T: std::fmt::Debug + PartialEq + Eq>(_: &T) {}

thread_local! { static LAST: RefCell<String> = RefCell::new(String::new()); }

fn unhex(s: &str) -> Vec<u8> {
    let s = s.trim();
    if s == "." {
        return vec![];
    }
    (0..s.len() / 2).map(|i| u8::from_str_radix(&s[2 * i..2 * i + 2], 16).unwrap()).collect()
}

fn text(s: &str) -> String {
    String::from_utf8(unhex(s)).unwrap()
}

fn desc(d: &Desc) -> String {
    let mut s = format!("{}\x1f{:?}\x1f{:?}", d.handler, d.p_struct, d.p_route);
    for (n, v) in d.fields.iter() {
        s.push_str(&format!("\x1f{}\x1f{}", n, v));
    }
    s
}

fn show(o: &Out) -> String {
    match o {
        Out::NotFound => "NF".into(),
        Out::NotAllowed => "NA".into(),
        Out::Err(d, g) => format!("E\x1f{:?}\x1f{:?}", d, g),
        Out::Hit(r, d) => format!("H\x1f{}\x1f{}", if *r { "D" } else { "R" }, desc(d)),
    }
}

fn guarded<F: FnOnce() -> String + panic::UnwindSafe>(f: F) -> String {
    match panic::catch_unwind(f) {
        Ok(s) => s,
        Err(_) => format!("P\x1f{:?}", LAST.with(|l| l.borrow().clone())),
    }
}

fn one(r: &Router, line: &str) -> String {
    let f: Vec<&str> = line.split(' ').collect();
    if f[0] == "X" {
        let x = r.x;
        return guarded(move || format!("X\x1f{:?}", x()));
    }
    if f[0] == "M" {
        let path = unhex(f[2]);
        let method = unhex(f[3]);
        let m = r.m;
        let mut again = None;
        let first = {
            let cell = panic::AssertUnwindSafe(&mut again);
            guarded(move || {
                let cell = cell;
                let o = m(&path, &method);
                let s = show(&o);
                if let Out::Hit(_, d) = o {
                    *cell.0 = Some((d.p_struct, d.method));
                }
                s
            })
        };
        match again {
            None => first,
            Some((p, meth)) => {
                let second = guarded(move || show(&m(p.as_bytes(), meth.as_bytes())));
                format!("{}\x1e{}", first, second)
            }
        }
    } else {
        let e: usize = f[2].parse().unwrap();
        let nt: usize = f[3].parse().unwrap();
        let ts: Vec<String> = f[4..4 + nt].iter().map(|s| text(s)).collect();
        let qs: Vec<Option<String>> =
            f[4 + nt..].iter().map(|s| if *s == "-" { None } else { Some(text(s)) }).collect();
        let b = r.b;
        let m = r.m;
        guarded(move || match b(e, &ts, &qs) {
            None => "N".into(),
            Some((d, via_match)) => {
                let second = show(&m(d.p_struct.as_bytes(), d.method.as_bytes()));
                format!("B\x1f{:?}\x1f{}\x1e{}", via_match, desc(&d), second)
            }
        })
    }
}

fn work(rs: &'static [Router]) {
    panic::set_hook(Box::new(|i| {
        let m = if let Some(s) = i.payload().downcast_ref::<&str>() {
            s.to_string()
        } else if let Some(s) = i.payload().downcast_ref::<String>() {
            s.clone()
        } else {
            "?".to_string()
        };
        let at = i.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        LAST.with(|l| *l.borrow_mut() = format!("{} at {}", m, at));
    }));
    let by = |line: &str| -> &'static Router {
        let k: usize = line.split(' ').nth(1).unwrap().parse().unwrap();
        rs.iter().find(|r| r.id == k).unwrap()
    };
    let stdin = std::io::stdin();
    let out = std::io::stdout();
    let lines: Vec<String> = stdin.lock().lines().map(|l| l.unwrap()).collect();
    let mut answers = vec![];
    for l in &lines {
        let a = one(by(l), l);
        let mut o = out.lock();
        o.write_all(a.as_bytes()).unwrap();
        o.write_all(b"\n").unwrap();
        o.flush().unwrap();
        answers.push(a);
    }
    let threads: usize = std::env::args().nth(1).map(|s| s.parse().unwrap()).unwrap_or(0);
    if threads > 0 {
        let shared = std::sync::Arc::new((lines, answers));
        let barrier = std::sync::Arc::new(std::sync::Barrier::new(threads));
        let hs: Vec<_> = (0..threads)
            .map(|t| {
                let sh = shared.clone();
                let ba = barrier.clone();
                std::thread::spawn(move || {
                    let (lines, answers) = (&sh.0, &sh.1);
                    let n = lines.len();
                    let mut bad = vec![];
                    ba.wait();
                    for k in 0..n {
                        let j = match t % 3 {
                            0 => k,
                            1 => n - 1 - k,
                            _ => (k * 7919 + t) % n,
                        };
                        let k: usize = lines[j].split(' ').nth(1).unwrap().parse().unwrap();
                        let r = rs.iter().find(|r| r.id == k).unwrap();
                        let a = one(r, &lines[j]);
                        if a != answers[j] {
                            bad.push((j, a));
                        }
                    }
                    (n, bad)
                })
            })
            .collect();
        let mut total = 0;
        let mut o = out.lock();
        for h in hs {
            let (n, bad) = h.join().unwrap();
            total += n;
            for (j, a) in bad {
                writeln!(o, "T\x1f{}\x1f{}", j, a).unwrap();
            }
        }
        writeln!(o, "Tdone\x1f{}", total).unwrap();
    }
}

pub fn main(rs: &'static [Router]) {
    let h = std::thread::Builder::new().stack_size(64 << 20).spawn(move || work(rs)).unwrap();
    h.join().unwrap();
}
