//! One run of one check: what it saw, what it found, and how it ends.

use std::cell::RefCell;
use std::collections::{BTreeMap, HashSet};
use std::path::{Path, PathBuf};
use std::sync::atomic::{AtomicBool, AtomicUsize, Ordering};
use std::sync::Mutex;
use std::time::{Duration, Instant};

pub struct Viol {
    pub what: String,
    pub files: Vec<(String, Vec<u8>)>,
}

#[derive(Default)]
pub struct State {
    pub viol: Vec<Viol>,
    pub nviol: u64,
    pub known: BTreeMap<String, u64>,
    pub counts: BTreeMap<String, u64>,
    pub distinct: HashSet<u64>,
    pub samples: Vec<String>,
    pub unknown: Vec<String>,
}

pub struct Ctx {
    pub id: String,
    pub seed: u64,
    pub thorough: bool,
    pub home: PathBuf,
    pub scratch: PathBuf,
    pub t0: Instant,
    pub deadline: Instant,
    pub threads: usize,
    pub only: Option<u64>,
    pub st: Mutex<State>,
    pub stop: AtomicBool,
    slots: Vec<Mutex<Option<Slot>>>,
    next_slot: AtomicUsize,
    pub rule: Mutex<String>,
}

struct Slot {
    tid: String,
    ticks: u64,
    what: String,
}

thread_local! {
    static SLOT: RefCell<Option<usize>> = RefCell::new(None);
    pub static PANIC: RefCell<String> = RefCell::new(String::new());
}

fn ticks(tid: &str) -> u64 {
    let s = std::fs::read_to_string(format!("/proc/self/task/{}/stat", tid)).unwrap_or_default();
    let rest = s.rsplit(')').next().unwrap_or("");
    let f: Vec<&str> = rest.split_whitespace().collect();
    let g = |i: usize| f.get(i).and_then(|x| x.parse::<u64>().ok()).unwrap_or(0);
    g(11) + g(12)
}

fn my_tid() -> String {
    std::fs::read_link("/proc/thread-self")
        .ok()
        .and_then(|p| p.file_name().map(|f| f.to_string_lossy().to_string()))
        .unwrap_or_default()
}

impl Ctx {
    pub fn new(id: &str) -> Ctx {
        let home = PathBuf::from(std::env::var("WF_HOME").unwrap_or_else(|_| "/verif".into()));
        let seed = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1);
        let thorough = std::env::var("VERIF_TIER").map(|t| t == "thorough").unwrap_or(false);
        let target = std::env::var("CARGO_TARGET_DIR").map(PathBuf::from).unwrap_or_else(|_| home.join("target"));
        let scratch = target.join("scratch").join(format!("{}-{}", id, std::process::id()));
        std::fs::create_dir_all(&scratch).expect("scratch directory");
        let t0 = Instant::now();
        let threads = std::thread::available_parallelism().map(|n| n.get()).unwrap_or(4).min(16);
        let secs = std::env::var("WF_SECS").ok().and_then(|s| s.parse().ok()).unwrap_or(if thorough { 600 } else { 200 });
        Ctx {
            id: id.to_string(),
            seed,
            thorough,
            home,
            scratch,
            t0,
            deadline: t0 + Duration::from_secs(secs),
            threads,
            only: std::env::var("WF_ONLY").ok().and_then(|s| s.parse().ok()),
            st: Mutex::new(State::default()),
            stop: AtomicBool::new(false),
            slots: (0..64).map(|_| Mutex::new(None)).collect(),
            next_slot: AtomicUsize::new(0),
            rule: Mutex::new(String::new()),
        }
    }

    pub fn out_of_time(&self) -> bool {
        self.stop.load(Ordering::Relaxed) || Instant::now() > self.deadline
    }

    pub fn count(&self, what: &str, n: u64) {
        *self.st.lock().unwrap().counts.entry(what.to_string()).or_insert(0) += n;
    }
    pub fn distinct(&self, h: u64) {
        self.st.lock().unwrap().distinct.insert(h);
    }
    pub fn sample(&self, s: String) {
        let mut st = self.st.lock().unwrap();
        if st.samples.len() < 12 {
            st.samples.push(s);
        }
    }
    pub fn rule(&self, s: &str) {
        *self.rule.lock().unwrap() = s.to_string();
    }
    pub fn unknown(&self, s: String) {
        self.st.lock().unwrap().unknown.push(s);
    }
    pub fn known(&self, s: &str) {
        *self.st.lock().unwrap().known.entry(s.to_string()).or_insert(0) += 1;
    }
    pub fn violation(&self, what: String, files: Vec<(String, Vec<u8>)>) {
        let mut st = self.st.lock().unwrap();
        st.nviol += 1;
        if st.viol.len() < 8 {
            st.viol.push(Viol { what, files });
        }
        if st.nviol >= 40 {
            self.stop.store(true, Ordering::Relaxed);
        }
    }
    pub fn violated(&self) -> bool {
        self.st.lock().unwrap().nviol > 0
    }

    /// Note what this thread is about to do, for the watchdog and for the
    /// supervisor in case the process does not survive it.
    pub fn begin(&self, what: &str) {
        let n = SLOT.with(|s| {
            let mut s = s.borrow_mut();
            *s.get_or_insert_with(|| self.next_slot.fetch_add(1, Ordering::Relaxed) % 64)
        });
        let tid = my_tid();
        let t = ticks(&tid);
        *self.slots[n].lock().unwrap() = Some(Slot { tid, ticks: t, what: what.to_string() });
        let _ = std::fs::write(self.scratch.join(format!("slot-{}", n)), what);
    }
    pub fn end(&self) {
        if let Some(n) = SLOT.with(|s| *s.borrow()) {
            *self.slots[n].lock().unwrap() = None;
            let _ = std::fs::write(self.scratch.join(format!("slot-{}", n)), "");
        }
    }

    /// Cases that used up 25 s of CPU time of their own.
    pub fn stuck(&self) -> Option<String> {
        for s in &self.slots {
            let s = s.lock().unwrap();
            if let Some(s) = s.as_ref() {
                if ticks(&s.tid).saturating_sub(s.ticks) > 25 * 100 {
                    return Some(s.what.clone());
                }
            }
        }
        None
    }

    /// Run library code that should neither panic nor hang.
    pub fn guard<T>(&self, what: &str, f: impl FnOnce() -> T) -> Result<T, String> {
        self.begin(what);
        let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(f));
        self.end();
        r.map_err(|_| {
            let m = PANIC.with(|p| p.borrow().clone());
            if m.contains("(src/") {
                eprintln!("the monitor itself failed: {}", m);
                std::process::exit(3);
            }
            m
        })
    }

    pub fn parallel(&self, jobs: usize, f: impl Fn(usize) + Sync) {
        let next = AtomicUsize::new(0);
        std::thread::scope(|s| {
            for _ in 0..self.threads {
                std::thread::Builder::new()
                    .stack_size(64 << 20)
                    .spawn_scoped(s, || loop {
                        let j = next.fetch_add(1, Ordering::Relaxed);
                        if j >= jobs || self.out_of_time() {
                            break;
                        }
                        if let Some(o) = self.only {
                            if o != j as u64 {
                                continue;
                            }
                        }
                        f(j)
                    })
                    .expect("thread");
            }
        });
    }

    /// Print the verdict, write the evidence; the exit code.
    pub fn finish(&self) -> i32 {
        let mut st = self.st.lock().unwrap();
        let wall = self.t0.elapsed().as_secs_f64();
        let evals = *st.counts.get("evaluations").unwrap_or(&0);
        let root = self.home.join("evidence").join("replay").join(&self.id);
        let _ = std::fs::remove_dir_all(&root);
        let mut lines = vec![];
        for (n, v) in st.viol.iter().enumerate() {
            let d = root.join(n.to_string());
            let _ = std::fs::create_dir_all(&d);
            let mut readme = format!(
                "property {} violated\n\n{}\n\nrun: VERIF_SEED={} VERIF_TIER={} bash {}/check.sh {}\n",
                self.id,
                v.what,
                self.seed,
                if self.thorough { "thorough" } else { "quick" },
                self.home.display(),
                self.id
            );
            for (name, body) in &v.files {
                let _ = std::fs::write(d.join(name), body);
                readme.push_str(&format!("file: {}\n", name));
            }
            let _ = std::fs::write(d.join("README"), readme);
            let first: String = v.what.lines().take(12).collect::<Vec<_>>().join("\n  ");
            println!("  {}", first);
            lines.push(format!("VIOLATION property={} replay={}", self.id, d.display()));
        }
        for (k, n) in &st.known {
            println!("KNOWN-FINDING: property={} {} [seen {} times]", self.id, k, n);
        }
        let mut j = String::from("{\n");
        j.push_str(&format!(" \"property\": {},\n", js(&self.id)));
        j.push_str(&format!(" \"tier\": \"{}\",\n", if self.thorough { "thorough" } else { "quick" }));
        j.push_str(&format!(" \"seed\": {},\n \"level\": \"{}\",\n", self.seed, level(&self.id)));
        j.push_str(" \"coverage\": {\n");
        j.push_str(&format!("  \"evaluations\": {},\n", evals));
        j.push_str(&format!("  \"distinct_nontrivial\": {},\n", st.distinct.len()));
        j.push_str(&format!("  \"rule\": {},\n", js(&self.rule.lock().unwrap())));
        let obs: Vec<String> = st
            .counts
            .iter()
            .filter(|c| c.0 != "evaluations")
            .map(|(k, v)| format!("   {}: {}", js(k), v))
            .collect();
        j.push_str(&format!("  \"observed\": {{\n{}\n  }},\n", obs.join(",\n")));
        let kn: Vec<String> = st.known.iter().map(|(k, v)| format!("   {}: {}", js(k), v)).collect();
        j.push_str(&format!("  \"known_findings_seen\": {{\n{}\n  }},\n", kn.join(",\n")));
        let un: Vec<String> = st.unknown.iter().take(5).map(|s| js(s)).collect();
        j.push_str(&format!("  \"undecided\": {},\n  \"undecided_samples\": [{}],\n", st.unknown.len(), un.join(", ")));
        if st.samples.is_empty() {
            st.samples.push("none".into());
        }
        let sm: Vec<String> = st.samples.iter().map(|s| format!("   {}", js(s))).collect();
        j.push_str(&format!("  \"samples\": [\n{}\n  ]\n }},\n", sm.join(",\n")));
        j.push_str(&format!(" \"wall_s\": {:.1},\n \"violations\": {}\n}}\n", wall, st.nviol));
        let ev = self.home.join("evidence");
        let _ = std::fs::create_dir_all(&ev);
        let written = std::fs::write(ev.join(format!("{}.json", self.id)), j).is_ok();
        println!(
            "{}: {} evaluations, {} distinct, {} violations, {} undecided, {:.1} s",
            self.id,
            evals,
            st.distinct.len(),
            st.nviol,
            st.unknown.len(),
            wall
        );
        for (k, v) in st.counts.iter() {
            println!("   {:<40} {}", k, v);
        }
        for u in st.unknown.iter().take(3) {
            println!("   undecided: {}", u);
        }
        for l in &lines {
            println!("{}", l);
        }
        if st.nviol > 0 {
            return 1;
        }
        if evals == 0 || st.distinct.len() < 2 || !written {
            println!("inconclusive: too little was observed");
            return 2;
        }
        // a few undecided runs on a loaded machine say nothing; many mean no answer
        if st.unknown.len() as u64 * 20 > evals.max(20) && st.unknown.len() > 5 {
            println!("inconclusive: {} runs could not be decided", st.unknown.len());
            return 2;
        }
        0
    }
}

pub fn level(id: &str) -> &'static str {
    match id {
        "C19" => "fault_enumeration",
        _ => "exploration",
    }
}

pub fn js(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            '\t' => o.push_str("\\t"),
            '\r' => o.push_str("\\r"),
            c if (c as u32) < 0x20 || c as u32 == 0x7f => o.push_str(&format!("\\u{:04x}", c as u32)),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

pub fn silence_panics() {
    std::panic::set_hook(Box::new(|i| {
        let m = if let Some(s) = i.payload().downcast_ref::<&str>() {
            s.to_string()
        } else if let Some(s) = i.payload().downcast_ref::<String>() {
            s.clone()
        } else {
            "panic".to_string()
        };
        let at = i.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        PANIC.with(|p| *p.borrow_mut() = format!("{} ({})", m, at));
        if at.contains("wfmon") || at.starts_with("src/") {
            eprintln!("panic in the monitor itself: {} at {}", m, at);
        }
    }));
}

pub fn hash(s: &str) -> u64 {
    let mut h = 0xcbf2_9ce4_8422_2325u64;
    for b in s.bytes() {
        h = (h ^ b as u64).wrapping_mul(0x0000_0100_0000_01B3);
    }
    h
}

pub fn remove_scratch(p: &Path) {
    if p.to_string_lossy().contains("/scratch/") {
        let _ = std::fs::remove_dir_all(p);
    }
}
