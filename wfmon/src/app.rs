//! Builds generated applications (many routers in one program), runs them
//! over request lines and reads their answers back.

use crate::cfg::*;
use crate::emit;
use crate::spec::{Hit, Out};
use crate::sys;
use std::path::{Path, PathBuf};
use std::process::{Command, Stdio};

pub fn hex(b: &[u8]) -> String {
    if b.is_empty() {
        return ".".into();
    }
    b.iter().map(|x| format!("{:02x}", x)).collect()
}

pub struct Router {
    pub code: String,
    pub cfg: Cfg,
    pub extra: String,
    pub lines: Vec<String>, // request lines, without the router's number
}

#[derive(Clone, Debug)]
pub struct Ans {
    pub out: Out,
    pub p_struct: String,
    pub p_route: String,
    pub again: Option<Out>,
    pub raw: String,
}

pub enum Fate {
    /// one answer for every request line
    Ran(Vec<Option<Ans>>),
    /// rustc refused it; `own`: the errors are in the generated module itself
    Refused { own: bool, errors: String },
    /// the program died or hung on a request
    Died { at: usize, how: String },
    /// could not be decided
    Unknown(String),
}

fn unq(s: &str) -> String {
    // undo {:?} for what we need: keep as is when it cannot be undone
    let s = s.strip_prefix('"').and_then(|s| s.strip_suffix('"')).unwrap_or(s);
    let mut out = String::new();
    let mut it = s.chars();
    while let Some(c) = it.next() {
        if c != '\\' {
            out.push(c);
            continue;
        }
        match it.next() {
            Some('n') => out.push('\n'),
            Some('r') => out.push('\r'),
            Some('t') => out.push('\t'),
            Some('0') => out.push('\0'),
            Some('u') => {
                let h: String = it.by_ref().skip(1).take_while(|c| *c != '}').collect();
                out.push(u32::from_str_radix(&h, 16).ok().and_then(char::from_u32).unwrap_or('?'));
            }
            Some(c) => out.push(c),
            None => {}
        }
    }
    out
}

/// Ok(true): hit with description
fn parse_one(s: &str) -> (Out, String, String) {
    let f: Vec<&str> = s.split('\x1f').collect();
    let none = (String::new(), String::new());
    let o = match f[0] {
        "NF" => Out::NotFound,
        "NA" => Out::NotAllowed,
        "P" => Out::Panic(unq(f.get(1).unwrap_or(&""))),
        "X" => return (Out::NotFound, unq(f.get(1).unwrap_or(&"")), none.1),
        "E" => {
            let disp = unq(f.get(1).unwrap_or(&""));
            let dbg = unq(f.get(2).unwrap_or(&""));
            let parts = dbg
                .strip_prefix("wayfinder::Error { param: \"")
                .and_then(|d| d.strip_suffix(" }"))
                .and_then(|d| d.find("\", what: ").map(|i| (d[..i].to_string(), d[i + 9..].to_string())));
            match parts {
                Some((param, what)) if disp == format!("Error parsing '{}' parameter {}", param, what) => {
                    Out::Err { param, what }
                }
                _ => Out::Err { param: format!("? ({} / {})", disp, dbg), what: String::new() },
            }
        }
        "H" | "B" => {
            let g = if f[0] == "H" { &f[2..] } else { &f[2..] };
            let mut fields: Vec<(String, String)> =
                g[3..].chunks(2).map(|c| (c[0].to_string(), c.get(1).unwrap_or(&"").to_string())).collect();
            fields.sort();
            let ps = unq(g[1]);
            let pr = unq(g[2]);
            return (
                Out::Hit(Hit { redirect: f[0] == "H" && f[1] == "D", handler: g[0].to_string(), fields, to_path: ps.clone() }),
                ps,
                pr,
            );
        }
        _ => Out::Panic(format!("unreadable answer {:?}", s)),
    };
    (o, none.0, none.1)
}

pub fn parse_ans(line: &str) -> Option<Ans> {
    if line == "N" {
        return None;
    }
    let mut parts = line.splitn(2, '\x1e');
    let first = parts.next().unwrap_or("");
    let (out, p_struct, p_route) = parse_one(first);
    let again = parts.next().map(|s| parse_one(s).0);
    Some(Ans { out, p_struct, p_route, again, raw: line.to_string() })
}

pub fn rustc() -> Command {
    let mut c = Command::new("rustc");
    c.env_remove("RUSTFLAGS").stdin(Stdio::null());
    c
}

/// Which routers have errors, with the first messages; true: in the module itself.
fn blame(err: &str, ids: &[usize]) -> Vec<(usize, bool, String)> {
    let mut out: Vec<(usize, bool, String)> = vec![];
    for l in err.lines() {
        if !l.contains(": error") {
            continue;
        }
        let file = l.split(':').next().unwrap_or("");
        let file = file.rsplit('/').next().unwrap_or(file);
        for k in ids {
            let own = file == format!("r{}.rs", k);
            if own || file == format!("h{}.rs", k) {
                match out.iter_mut().find(|o| o.0 == *k) {
                    Some(o) => {
                        o.1 |= own;
                        if o.2.len() < 1500 {
                            o.2.push_str(l);
                            o.2.push('\n');
                        }
                    }
                    None => out.push((*k, own, format!("{}\n", l))),
                }
            }
        }
    }
    out
}

pub struct Built {
    pub bin: PathBuf,
    pub ids: Vec<usize>,
}

/// Write and compile; routers that do not compile are taken out and reported.
pub fn build(dir: &Path, rs: &[Router], fates: &mut Vec<Option<Fate>>) -> Option<Built> {
    let _ = std::fs::create_dir_all(dir);
    let w = |n: &str, s: &str| std::fs::write(dir.join(n), s).is_ok();
    let mut ok = w("support.rs", include_str!("support.rs")) && w("rt.rs", include_str!("rt.rs"));
    for (k, r) in rs.iter().enumerate() {
        if fates[k].is_some() {
            continue;
        }
        ok &= w(&format!("r{}.rs", k), &r.code) && w(&format!("h{}.rs", k), &emit::harness(k, &r.cfg, &r.extra));
    }
    let mut ids: Vec<usize> = (0..rs.len()).filter(|k| fates[*k].is_none()).collect();
    loop {
        if ids.is_empty() {
            return None;
        }
        ok &= w("main.rs", &emit::main_rs(&ids));
        if !ok {
            for k in &ids {
                fates[*k] = Some(Fate::Unknown("cannot write scratch files".into()));
            }
            return None;
        }
        let mut c = rustc();
        // the applications that generated code ends up in are of either edition
        let odd = dir.file_name().and_then(|n| n.to_str()).and_then(|n| n.bytes().last()).map_or(false, |b| b % 2 == 1);
        c.current_dir(dir).args(&[
            "--edition", if odd { "2021" } else { "2018" }, "-A", "warnings", "--crate-name", "app", "--error-format=short",
            "-C", "debuginfo=0", "-C", "opt-level=0", "-C", "overflow-checks=on", "-C", "debug-assertions=on",
            "-o", "app", "main.rs",
        ]);
        let d = sys::run(&mut c, dir, "rustc", 150);
        match d.end {
            sys::End::Exit(0) => return Some(Built { bin: dir.join("app"), ids }),
            sys::End::Exit(_) => {
                let e = String::from_utf8_lossy(&d.err).to_string();
                let bad = blame(&e, &ids);
                if bad.is_empty() {
                    for k in &ids {
                        fates[*k] = Some(Fate::Unknown(format!("rustc: {}", e.chars().take(600).collect::<String>())));
                    }
                    return None;
                }
                for (k, own, errors) in bad {
                    ids.retain(|x| *x != k);
                    fates[k] = Some(Fate::Refused { own, errors });
                }
            }
            _ => {
                for k in &ids {
                    fates[*k] = Some(Fate::Unknown("rustc did not finish".into()));
                }
                return None;
            }
        }
    }
}

/// Ask every router of the application its requests.
pub fn run(dir: &Path, b: &Built, rs: &[Router], fates: &mut Vec<Option<Fate>>, threads: usize) -> Vec<String> {
    let mut notes = vec![];
    let mut todo: Vec<usize> = b.ids.clone();
    while !todo.is_empty() {
        let mut inp = String::new();
        let mut index: Vec<(usize, usize)> = vec![];
        for k in &todo {
            for (j, l) in rs[*k].lines.iter().enumerate() {
                let mut p = l.splitn(2, ' ');
                let head = p.next().unwrap_or("");
                inp.push_str(&format!("{} {} {}\n", head, k, p.next().unwrap_or("")).replace(" \n", "\n"));
                index.push((*k, j));
            }
        }
        let ip = dir.join("requests");
        if std::fs::write(&ip, &inp).is_err() {
            for k in &todo {
                fates[*k] = Some(Fate::Unknown("cannot write scratch files".into()));
            }
            return notes;
        }
        let mut c = Command::new(&b.bin);
        c.stdin(Stdio::from(std::fs::File::open(&ip).unwrap()));
        if threads > 0 {
            c.arg(threads.to_string());
        }
        sys::limit(&mut c, sys::RLIMIT_CPU, 30, 32);
        sys::limit(&mut c, sys::RLIMIT_CORE, 0, 0);
        sys::limit(&mut c, sys::RLIMIT_AS, 8 << 30, 8 << 30);
        let d = sys::run(&mut c, dir, "run", 200);
        let out = String::from_utf8_lossy(&d.out).to_string();
        let mut lines: Vec<&str> = out.split('\n').collect();
        lines.pop(); // what follows the last newline is not an answer
        let n = index.len();
        let got = lines.len().min(n);
        let mut per: Vec<Vec<Option<Ans>>> = vec![vec![]; rs.len()];
        for x in 0..got {
            per[index[x].0].push(parse_ans(lines[x]));
        }
        for l in lines.iter().skip(n) {
            notes.push(l.to_string());
        }
        let bad = match d.end {
            sys::End::Exit(0) if got == n => None,
            sys::End::Signal(24) => Some("used 30 s of CPU time without an answer".to_string()),
            sys::End::Signal(s) if s != 9 && s != 15 => Some(format!("ended by signal {}", s)),
            _ => {
                for k in &todo {
                    fates[*k] = Some(Fate::Unknown(format!(
                        "application did not finish: {}",
                        String::from_utf8_lossy(&d.err).chars().take(300).collect::<String>()
                    )));
                }
                return notes;
            }
        };
        match bad {
            None => {
                for k in &todo {
                    fates[*k] = Some(Fate::Ran(std::mem::take(&mut per[*k])));
                }
                return notes;
            }
            Some(how) => {
                if got >= n {
                    notes.push(format!("Tdied\x1f{}", how));
                    for k in &todo {
                        fates[*k] = Some(Fate::Ran(std::mem::take(&mut per[*k])));
                    }
                    return notes;
                }
                let (k, at) = index[got];
                // those before it are complete
                let mut rest = vec![];
                for t in &todo {
                    if *t == k {
                        fates[k] = Some(Fate::Died { at, how: how.clone() });
                    } else if per[*t].len() == rs[*t].lines.len() {
                        fates[*t] = Some(Fate::Ran(std::mem::take(&mut per[*t])));
                    } else {
                        rest.push(*t);
                    }
                }
                todo = rest;
            }
        }
    }
    notes
}
