//! Reads route files with the library, prints, generates and reports, and
//! says what each cost: for every file and step one line
//! `file step allocations bytes peak output cpu-microseconds`.

use std::alloc::{GlobalAlloc, Layout, System};
use std::sync::atomic::{AtomicU64, Ordering::Relaxed};

struct Count;
static N: AtomicU64 = AtomicU64::new(0);
static BYTES: AtomicU64 = AtomicU64::new(0);
static LIVE: AtomicU64 = AtomicU64::new(0);
static PEAK: AtomicU64 = AtomicU64::new(0);

unsafe impl GlobalAlloc for Count {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        N.fetch_add(1, Relaxed);
        BYTES.fetch_add(l.size() as u64, Relaxed);
        let live = LIVE.fetch_add(l.size() as u64, Relaxed) + l.size() as u64;
        PEAK.fetch_max(live, Relaxed);
        System.alloc(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        LIVE.fetch_sub(l.size() as u64, Relaxed);
        System.dealloc(p, l)
    }
}

#[global_allocator]
static A: Count = Count;

#[repr(C)]
struct Timespec {
    s: i64,
    ns: i64,
}
extern "C" {
    fn clock_gettime(id: i32, t: *mut Timespec) -> i32;
}

fn cpu() -> u64 {
    let mut t = Timespec { s: 0, ns: 0 };
    unsafe { clock_gettime(3, &mut t) };
    t.s as u64 * 1_000_000 + t.ns as u64 / 1000
}

fn step<T>(file: &str, name: &str, f: impl FnOnce() -> (T, usize)) -> T {
    let (n, b, live, t) = (N.load(Relaxed), BYTES.load(Relaxed), LIVE.load(Relaxed), cpu());
    PEAK.store(live, Relaxed);
    let (v, out) = f();
    let t = cpu() - t;
    let peak = PEAK.load(Relaxed).saturating_sub(live);
    let (n, b) = (N.load(Relaxed) - n, BYTES.load(Relaxed) - b);
    println!("{} {} {} {} {} {} {}", file, name, n, b, peak, out, t);
    v
}

fn main() {
    let work = || {
        for file in std::env::args().skip(1) {
            let t = std::fs::read_to_string(&file).expect("a file");
            println!("{} begins", file);
            let r = step(&file, "read", || (wayfinder::parse::route_config(&t), 0));
            match r {
                Ok((_, c)) if std::env::var_os("WF_ONLY_READ").is_some() => std::mem::forget(c),
                Ok((_, c)) => {
                    step(&file, "print", || ((), c.stringify().len()));
                    let generate = || {
                        step(&file, "generate", || {
                            let mut w = vec![];
                            let ok = wayfinder::gen::codegen(&mut w, &c).is_ok();
                            ((), if ok { w.len() } else { 0 })
                        })
                    };
                    if std::env::var_os("WF_MAY_REFUSE").is_some() {
                        // what a damaged file says may contradict itself
                        let _ = std::panic::catch_unwind(std::panic::AssertUnwindSafe(generate));
                    } else {
                        generate();
                    }
                }
                Err(_) => {
                    step(&file, "report", || {
                        let mut w = vec![];
                        wayfinder::parse::errors::show_errors(&mut w, &t, r, "");
                        ((), w.len())
                    });
                }
            }
            println!("{} ends", file);
        }
    };
    let stack = std::env::var("WF_STACK").ok().and_then(|s| s.parse().ok()).unwrap_or(1 << 30);
    std::thread::Builder::new().stack_size(stack).spawn(work).expect("thread").join().expect("no panic");
}
