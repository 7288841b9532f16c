//! Fatal conditions inside a child process: reported on stdout, then the process ends.

use std::io::Write;
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering};

pub static CURRENT: AtomicU64 = AtomicU64::new(u64::MAX);
static DYING: AtomicBool = AtomicBool::new(false);

pub const EXIT_FATAL: i32 = 77;

fn die(msg: &str) -> ! {
    extern "C" {
        fn _exit(c: i32) -> !;
    }
    if !DYING.swap(true, Ordering::SeqCst) {
        let s = format!("\nFATAL {}\n", msg);
        let _ = std::io::stdout().write_all(s.as_bytes());
        let _ = std::io::stdout().flush();
    }
    unsafe { _exit(EXIT_FATAL) }
}

/// no deallocation, no allocation beyond the message
pub fn fatal(msg: &str) -> ! {
    simkern::masked(|| die(msg))
}

pub fn fatal_memory() -> ! {
    die_raw(b"\nFATAL memory limit exceeded\n")
}

fn die_raw(m: &[u8]) -> ! {
    extern "C" {
        fn _exit(c: i32) -> !;
        fn write(fd: i32, p: *const u8, n: usize) -> isize;
    }
    unsafe {
        write(1, m.as_ptr(), m.len());
        _exit(EXIT_FATAL)
    }
}

extern "C" fn on_timer(_s: i32) {
    die_raw(b"\nFATAL the operation did not finish within its processor time limit\n")
}

#[repr(C)]
struct Itv {
    i_sec: i64,
    i_usec: i64,
    v_sec: i64,
    v_usec: i64,
}

extern "C" {
    fn setitimer(which: i32, new: *const Itv, old: *mut Itv) -> i32;
    fn signal(sig: i32, f: extern "C" fn(i32)) -> usize;
}

/// processor time limit for what follows (0: none)
pub fn cpu_limit(sec: i64) {
    unsafe {
        signal(27, on_timer); // SIGPROF
        let v = Itv { i_sec: 0, i_usec: 0, v_sec: sec, v_usec: 0 };
        setitimer(2, &v, std::ptr::null_mut());
    }
}

pub fn install() {
    simkern::set_fatal(fatal);
    std::panic::set_hook(Box::new(|info| {
        simkern::masked(|| {
            let loc = info.location().map(|l| {
                let f = l.file();
                let f = f.rsplit_once("/src/").map(|x| x.1).unwrap_or(f);
                format!("{}", f)
            });
            crate::ops::LAST_PANIC.with(|p| *p.borrow_mut() = loc.unwrap_or_default());
        });
    }));
}

/// processor seconds an execution may take
pub fn op_seconds() -> i64 {
    static V: std::sync::OnceLock<i64> = std::sync::OnceLock::new();
    *V.get_or_init(|| std::env::var("IOSIM_CPU").ok().and_then(|v| v.parse().ok()).unwrap_or(90))
}
