//! OS seams: allocator, futex, random bytes, clock, sleep, yield, thread creation.
//! Every libc entry point through which the Rust standard library (or the library under test) could
//! meet nondeterminism is interposed here; on simulated threads it is served by the kernel, on all
//! other threads it goes to the real system.

use simkern as sk;
use std::alloc::{GlobalAlloc, Layout, System};
use std::sync::atomic::{AtomicBool, AtomicI64, AtomicU32, AtomicU64, Ordering};

pub struct SimAlloc;

/// fill fresh memory with seeded garbage (fault: stale heap contents)
pub static POISON: AtomicBool = AtomicBool::new(false);
pub static POISON_STATE: AtomicU64 = AtomicU64::new(0);
pub static POISONED: AtomicU64 = AtomicU64::new(0);
/// bytes allocated and not yet freed by simulated threads or since the last reset
pub static LIVE: AtomicI64 = AtomicI64::new(0);
pub static PEAK: AtomicI64 = AtomicI64::new(0);
pub static LIMIT: AtomicI64 = AtomicI64::new(i64::MAX);

#[cold]
fn poison(p: *mut u8, n: usize) {
    let mut x = POISON_STATE.load(Ordering::Relaxed);
    let v = sk::splitmix(&mut x);
    POISON_STATE.store(x, Ordering::Relaxed);
    POISONED.fetch_add(1, Ordering::Relaxed);
    let n8 = n / 8;
    let mut w = v;
    unsafe {
        for i in 0..n8 {
            (p as *mut u64).add(i).write_unaligned(w);
            w = w.rotate_left(11) ^ 0x9E3779B97F4A7C15;
        }
        for i in n8 * 8..n {
            p.add(i).write((w >> (8 * (i & 7))) as u8);
        }
    }
}

unsafe impl GlobalAlloc for SimAlloc {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        sk::on_alloc();
        let p = System.alloc(l);
        if POISON.load(Ordering::Relaxed) && !p.is_null() {
            poison(p, l.size());
        }
        count(l.size() as i64);
        p
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        sk::on_alloc();
        count(l.size() as i64);
        System.alloc_zeroed(l)
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, new: usize) -> *mut u8 {
        sk::on_alloc();
        count(new as i64 - l.size() as i64);
        let q = System.realloc(p, l, new);
        if POISON.load(Ordering::Relaxed) && !q.is_null() && new > l.size() {
            poison(q.add(l.size()), new - l.size());
        }
        q
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        count(-(l.size() as i64));
        if POISON.load(Ordering::Relaxed) {
            // freed memory must not be readable as it was
            poison(p, l.size());
        }
        System.dealloc(p, l)
    }
}

#[inline]
fn count(d: i64) {
    let v = LIVE.fetch_add(d, Ordering::Relaxed) + d;
    if v > PEAK.load(Ordering::Relaxed) {
        PEAK.store(v, Ordering::Relaxed);
        if v > LIMIT.load(Ordering::Relaxed) {
            LIMIT.store(i64::MAX, Ordering::Relaxed);
            crate::child::fatal_memory();
        }
    }
}

#[global_allocator]
static GLOBAL: SimAlloc = SimAlloc;

// ------------------------------------------------------------------ libc entry points

extern "C" {
    fn __errno_location() -> *mut i32;
    fn dlsym(handle: *mut u8, name: *const u8) -> *mut u8;
}

unsafe fn ret(r: i64) -> i64 {
    if r < 0 && r > -4096 {
        *__errno_location() = (-r) as i32;
        -1
    } else {
        r
    }
}

#[repr(C)]
pub struct Timespec {
    sec: i64,
    nsec: i64,
}

const SYS_SCHED_YIELD: i64 = 24;
const SYS_NANOSLEEP: i64 = 35;
const SYS_FUTEX: i64 = 202;
const SYS_CLOCK_GETTIME: i64 = 228;
const SYS_CLOCK_NANOSLEEP: i64 = 230;
const SYS_GETRANDOM: i64 = 318;

#[no_mangle]
pub unsafe extern "C" fn syscall(n: i64, a: i64, b: i64, c: i64, d: i64, e: i64, f: i64) -> i64 {
    if sk::active() {
        match n {
            SYS_FUTEX => {
                let op = b & 0x7f;
                match op {
                    0 | 9 => {
                        let mut deadline = u64::MAX;
                        if d != 0 {
                            let t = &*(d as *const Timespec);
                            let us = (t.sec as u64).saturating_mul(1_000_000).saturating_add(t.nsec as u64 / 1000);
                            // FUTEX_WAIT: relative; FUTEX_WAIT_BITSET: absolute on the simulated clock
                            deadline = if op == 0 { sk::now().saturating_add(us) } else { us.saturating_sub(1_000_000) };
                        }
                        return ret(sk::futex_wait(a as *const AtomicU32, c as u32, deadline));
                    }
                    1 | 10 => return sk::futex_wake(a as usize, c.max(0) as usize),
                    _ => {}
                }
            }
            SYS_GETRANDOM => {
                let buf = std::slice::from_raw_parts_mut(a as *mut u8, b as usize);
                if sk::random_bytes(buf) {
                    return b;
                }
            }
            SYS_SCHED_YIELD => {
                sk::yield_now();
                return 0;
            }
            _ => {}
        }
    }
    ret(sk::raw_syscall(n, a, b, c, d, e, f))
}

static FIXED: AtomicU64 = AtomicU64::new(0x1234_5678);

#[no_mangle]
pub unsafe extern "C" fn getrandom(buf: *mut u8, n: usize, _flags: u32) -> isize {
    let s = std::slice::from_raw_parts_mut(buf, n);
    if !sk::random_bytes(s) {
        // outside a simulation (reference runs): fixed keys
        for b in s.iter_mut() {
            let mut x = FIXED.fetch_add(1, Ordering::Relaxed);
            *b = sk::splitmix(&mut x) as u8;
        }
    }
    n as isize
}

#[no_mangle]
pub unsafe extern "C" fn sched_yield() -> i32 {
    if sk::active() {
        sk::yield_now();
        return 0;
    }
    sk::raw_syscall(SYS_SCHED_YIELD, 0, 0, 0, 0, 0, 0) as i32
}

#[no_mangle]
pub unsafe extern "C" fn nanosleep(t: *const Timespec, rem: *mut Timespec) -> i32 {
    if sk::active() {
        sk::sleep_ns(((*t).sec as u64).saturating_mul(1_000_000_000).saturating_add((*t).nsec as u64));
        return 0;
    }
    ret(sk::raw_syscall(SYS_NANOSLEEP, t as i64, rem as i64, 0, 0, 0, 0)) as i32
}

#[no_mangle]
pub unsafe extern "C" fn clock_nanosleep(clk: i32, flags: i32, t: *const Timespec, rem: *mut Timespec) -> i32 {
    if sk::active() {
        let ns = ((*t).sec as u64).saturating_mul(1_000_000_000).saturating_add((*t).nsec as u64);
        let ns = if flags & 1 != 0 { ns.saturating_sub(sk::clock_ns()) } else { ns };
        sk::sleep_ns(ns);
        return 0;
    }
    (-sk::raw_syscall(SYS_CLOCK_NANOSLEEP, clk as i64, flags as i64, t as i64, rem as i64, 0, 0)) as i32
}

#[no_mangle]
pub unsafe extern "C" fn clock_gettime(clk: i32, t: *mut Timespec) -> i32 {
    if sk::active() {
        let ns = sk::clock_ns();
        (*t).sec = (ns / 1_000_000_000) as i64;
        (*t).nsec = (ns % 1_000_000_000) as i64;
        return 0;
    }
    ret(sk::raw_syscall(SYS_CLOCK_GETTIME, clk as i64, t as i64, 0, 0, 0, 0)) as i32
}

type Start = unsafe extern "C" fn(*mut u8) -> *mut u8;
type RealCreate = unsafe extern "C" fn(*mut u64, *const u8, Start, *mut u8) -> i32;
type RealJoin = unsafe extern "C" fn(u64, *mut *mut u8) -> i32;

static REAL_CREATE: AtomicU64 = AtomicU64::new(0);
static REAL_JOIN: AtomicU64 = AtomicU64::new(0);

unsafe fn real(slot: &AtomicU64, name: &[u8]) -> u64 {
    let v = slot.load(Ordering::Relaxed);
    if v != 0 {
        return v;
    }
    let v = dlsym(-1isize as *mut u8, name.as_ptr()) as u64;
    slot.store(v, Ordering::Relaxed);
    v
}

struct Adopt {
    start: Start,
    arg: *mut u8,
    slot: usize,
    word: usize,
}

unsafe extern "C" fn trampoline(p: *mut u8) -> *mut u8 {
    let a = Box::from_raw(p as *mut Adopt);
    sk::adopted_begin(a.slot, a.word);
    let r = (a.start)(a.arg);
    sk::adopted_end(a.slot);
    r
}

#[no_mangle]
pub unsafe extern "C" fn pthread_create(id: *mut u64, attr: *const u8, start: Start, arg: *mut u8) -> i32 {
    let f: RealCreate = std::mem::transmute(real(&REAL_CREATE, b"pthread_create\0"));
    if !sk::active() {
        return f(id, attr, start, arg);
    }
    let (slot, word) = sk::adopt_slot();
    let b = sk::masked(|| Box::into_raw(Box::new(Adopt { start, arg, slot, word })));
    let r = f(id, attr, trampoline, b as *mut u8);
    sk::set_pthread(slot, *id);
    sk::yield_point(20);
    r
}

#[no_mangle]
pub unsafe extern "C" fn pthread_join(id: u64, out: *mut *mut u8) -> i32 {
    let f: RealJoin = std::mem::transmute(real(&REAL_JOIN, b"pthread_join\0"));
    if sk::active() {
        sk::join_wait(id);
    }
    f(id, out)
}

// ------------------------------------------------------------------ compiler instrumentation of the library

/// edges of the library and how many of them have been reached by this process
static GUARDS: AtomicU32 = AtomicU32::new(0);
const MAX_GUARDS: usize = 1 << 18;
static mut REACHED: [u64; MAX_GUARDS / 64] = [0; MAX_GUARDS / 64];
static FRESH: AtomicBool = AtomicBool::new(false);

#[no_mangle]
pub unsafe extern "C" fn __sanitizer_cov_trace_pc_guard_init(start: *mut u32, stop: *mut u32) {
    if start == stop || *start != 0 {
        return;
    }
    let mut p = start;
    while p < stop {
        *p = GUARDS.fetch_add(1, Ordering::Relaxed) + 1;
        p = p.add(1);
    }
}

#[no_mangle]
pub unsafe extern "C" fn __sanitizer_cov_trace_pc_guard(g: *mut u32) {
    if *g != 0 {
        reached(g);
    }
    sk::on_edge();
}

#[cold]
unsafe fn reached(g: *mut u32) {
    let i = (*g as usize).min(MAX_GUARDS - 1);
    *g = 0;
    let w = std::ptr::addr_of_mut!(REACHED[i / 64]);
    *w |= 1 << (i % 64);
    FRESH.store(true, Ordering::Relaxed);
}

pub fn guards() -> u32 {
    GUARDS.load(Ordering::Relaxed)
}

/// the edges reached since the last call
pub fn take_reached() -> Vec<u32> {
    let mut v = Vec::new();
    if FRESH.swap(false, Ordering::Relaxed) {
        for i in 0..MAX_GUARDS / 64 {
            let w = unsafe { std::ptr::addr_of_mut!(REACHED[i]) };
            let mut x = unsafe { std::mem::take(&mut *w) };
            while x != 0 {
                v.push((i * 64) as u32 + x.trailing_zeros());
                x &= x - 1;
            }
        }
    }
    v
}
