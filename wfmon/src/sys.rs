//! The few system calls the monitor needs.

use std::os::unix::process::{CommandExt, ExitStatusExt};
use std::process::{Command, ExitStatus, Stdio};
use std::time::{Duration, Instant};

#[repr(C)]
struct Rlimit {
    cur: u64,
    max: u64,
}

extern "C" {
    fn setrlimit(resource: i32, rlim: *const Rlimit) -> i32;
    fn signal(sig: i32, handler: usize) -> usize;
}

pub const RLIMIT_CPU: i32 = 0;
pub const RLIMIT_FSIZE: i32 = 1;
pub const RLIMIT_AS: i32 = 9;
pub const RLIMIT_CORE: i32 = 4;

pub fn limit(cmd: &mut Command, what: i32, soft: u64, hard: u64) {
    unsafe {
        cmd.pre_exec(move || {
            let r = Rlimit { cur: soft, max: hard };
            if setrlimit(what, &r) != 0 {
                return Err(std::io::Error::last_os_error());
            }
            Ok(())
        });
    }
}

/// With a file size limit, get the error instead of the signal.
pub fn ignore_xfsz(cmd: &mut Command) {
    unsafe {
        cmd.pre_exec(|| {
            signal(25, 1);
            Ok(())
        });
    }
}

pub enum End {
    Exit(i32),
    Signal(i32),
    Timeout,
    NoStart(String),
}

pub struct Done {
    pub end: End,
    pub out: Vec<u8>,
    pub err: Vec<u8>,
}

pub fn status(s: ExitStatus) -> End {
    match s.code() {
        Some(c) => End::Exit(c),
        None => End::Signal(s.signal().unwrap_or(0)),
    }
}

/// Run to the end, with output captured through files, killed after `secs`.
pub fn run(cmd: &mut Command, dir: &std::path::Path, tag: &str, secs: u64) -> Done {
    let op = dir.join(format!("{}.out", tag));
    let ep = dir.join(format!("{}.err", tag));
    let (of, ef) = match (std::fs::File::create(&op), std::fs::File::create(&ep)) {
        (Ok(a), Ok(b)) => (a, b),
        _ => return Done { end: End::NoStart("no scratch file".into()), out: vec![], err: vec![] },
    };
    cmd.stdout(Stdio::from(of)).stderr(Stdio::from(ef));
    let end = go(cmd, secs);
    Done { end, out: std::fs::read(&op).unwrap_or_default(), err: std::fs::read(&ep).unwrap_or_default() }
}

/// The same with the caller's own stdout and stderr.
pub fn go(cmd: &mut Command, secs: u64) -> End {
    let mut ch = match cmd.spawn() {
        Ok(c) => c,
        Err(e) => return End::NoStart(e.to_string()),
    };
    let t = Instant::now();
    let mut nap = 1;
    loop {
        match ch.try_wait() {
            Ok(Some(s)) => return status(s),
            Ok(None) => {}
            Err(e) => return End::NoStart(e.to_string()),
        }
        if t.elapsed() > Duration::from_secs(secs) {
            let _ = ch.kill();
            let _ = ch.wait();
            return End::Timeout;
        }
        std::thread::sleep(Duration::from_millis(nap));
        nap = (nap * 2).min(20);
    }
}
