//! Deterministic simulation kernel.
//!
//! Every simulated thread is a real OS thread (so thread-locals are real), but exactly one of them
//! runs at any time: the one that holds the baton. The baton changes hands only at decision points
//! (`yield_point`, `block_on`, thread end, allocation preemption, intercepted futex / sched_yield /
//! nanosleep). Who runs next, who is stalled and which victim a thief picks is decided by one seeded
//! PRNG, or read back from a recorded sparse trace of the non-default decisions. Time is simulated:
//! one tick per decision point, jumping forward when nobody can run.
//!
//! All kernel state is only touched by the baton holder, hence the unsynchronised global.

use std::cell::Cell;
use std::collections::BTreeMap;
use std::sync::atomic::{AtomicU32, AtomicU64, Ordering};

pub const NOT_SIM: usize = usize::MAX;

thread_local! {
    static TID: Cell<usize> = const { Cell::new(NOT_SIM) };
    static DEPTH: Cell<u32> = const { Cell::new(0) };
}

// ---------------------------------------------------------------- raw syscalls

#[inline]
pub unsafe fn raw_syscall(n: i64, a: i64, b: i64, c: i64, d: i64, e: i64, f: i64) -> i64 {
    let ret: i64;
    core::arch::asm!(
        "syscall",
        inlateout("rax") n => ret,
        in("rdi") a, in("rsi") b, in("rdx") c, in("r10") d, in("r8") e, in("r9") f,
        lateout("rcx") _, lateout("r11") _,
        options(nostack)
    );
    ret
}

const SYS_FUTEX: i64 = 202;

fn real_wait(word: &AtomicU32, expect: u32) {
    unsafe { raw_syscall(SYS_FUTEX, word as *const _ as i64, 128, expect as i64, 0, 0, 0) };
}

fn real_wake(word: &AtomicU32) {
    unsafe { raw_syscall(SYS_FUTEX, word as *const _ as i64, 1 | 128, i32::MAX as i64, 0, 0, 0) };
}

// ---------------------------------------------------------------- PRNG

#[derive(Clone, Debug)]
pub struct Rng {
    s: [u64; 4],
}

pub fn splitmix(x: &mut u64) -> u64 {
    *x = x.wrapping_add(0x9E3779B97F4A7C15);
    let mut z = *x;
    z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
    z ^ (z >> 31)
}

pub fn mix2(a: u64, b: u64) -> u64 {
    let mut x = a ^ b.wrapping_mul(0xD6E8FEB86659FD93).rotate_left(23);
    splitmix(&mut x)
}

impl Rng {
    pub fn new(seed: u64) -> Self {
        let mut x = seed;
        Rng { s: [splitmix(&mut x), splitmix(&mut x), splitmix(&mut x), splitmix(&mut x)] }
    }
    #[inline]
    pub fn next(&mut self) -> u64 {
        let r = self.s[1].wrapping_mul(5).rotate_left(7).wrapping_mul(9);
        let t = self.s[1] << 17;
        self.s[2] ^= self.s[0];
        self.s[3] ^= self.s[1];
        self.s[1] ^= self.s[2];
        self.s[0] ^= self.s[3];
        self.s[2] ^= t;
        self.s[3] = self.s[3].rotate_left(45);
        r
    }
    #[inline]
    pub fn below(&mut self, n: u64) -> u64 {
        if n == 0 { return 0; }
        ((self.next() as u128 * n as u128) >> 64) as u64
    }
    #[inline]
    pub fn range(&mut self, lo: i64, hi: i64) -> i64 {
        lo + self.below((hi - lo + 1) as u64) as i64
    }
    #[inline]
    pub fn f64(&mut self) -> f64 {
        (self.next() >> 11) as f64 / (1u64 << 53) as f64
    }
    #[inline]
    pub fn chance(&mut self, p: f64) -> bool {
        if p <= 0.0 { return false; }
        self.f64() < p
    }
    pub fn pick<'a, T>(&mut self, v: &'a [T]) -> &'a T {
        &v[self.below(v.len() as u64) as usize]
    }
}

// ---------------------------------------------------------------- configuration and report

#[derive(Clone, Debug)]
pub struct Config {
    pub workers: usize,
    pub sched_seed: u64,
    pub hash_seed: u64,
    /// probability to hand over the baton at a voluntary decision point
    pub p_switch: f64,
    /// probability to preempt at an allocation
    pub p_alloc: f64,
    /// probability to stall the thread that loses the baton
    pub p_stall: f64,
    /// probability that a thief / waiter takes a random candidate instead of the first one
    pub p_steal: f64,
    /// priority scheduling (PCT like) instead of uniform choice
    pub priority: bool,
    /// spurious futex wake-ups and clock jumps
    pub p_os: f64,
    /// probability to preempt at a control-flow edge of the library
    pub p_edge: f64,
    /// replay: the recorded non-default decisions
    pub trace: Option<Vec<(u64, u32)>>,
    /// give up (fatal) after so many decision points + allocations
    pub max_events: u64,
    pub max_allocs: u64,
}

#[derive(Clone, Debug, Default)]
pub struct Stats {
    pub events: u64,
    pub ticks: u64,
    pub switches: u64,
    pub alloc_preempts: u64,
    pub edges: u64,
    pub edge_preempts: u64,
    pub stalls: u64,
    pub stall_ticks: u64,
    pub steals: u64,
    pub nested_steals: u64,
    pub injected_jobs: u64,
    pub jobs: u64,
    pub hash_keys: u64,
    pub futex_waits: u64,
    pub spurious_wakes: u64,
    pub clock_reads: u64,
    pub os_threads: u64,
    pub allocs: u64,
    pub max_overlap: u64,
}

#[derive(Clone, Debug)]
pub struct Report {
    pub stats: Stats,
    pub trace: Vec<(u64, u32)>,
    pub interleaving: u64,
}

#[derive(Clone, Copy, PartialEq, Debug)]
enum State {
    Ready,
    Blocked { k1: usize, k2: usize, deadline: u64 },
    Finished,
}

struct Slot {
    word: Box<AtomicU32>,
    state: State,
    stall_until: u64,
    daemon: bool,
    timed_out: bool,
    prio: u64,
    pthread: u64,
}

struct Kernel {
    cfg: Config,
    slots: Vec<Slot>,
    cur: usize,
    now: u64,
    counter: u64,
    rng: Rng,
    hash_rng: Rng,
    replay: Option<BTreeMap<u64, u32>>,
    trace: Vec<(u64, u32)>,
    stats: Stats,
    ilv: u64,
    shutdown: bool,
    live_clients: usize,
    live_all: usize,
    done: AtomicU32,
    max_allocs: u64,
    edge_rng: Rng,
    /// replay: recorded edge preemptions, the next one last
    edge_replay: Vec<u64>,
}

static mut KERNEL: Option<Box<Kernel>> = None;
static FATAL: AtomicU64 = AtomicU64::new(0);

/// Installs the function that is called, by the baton holder, when the run cannot go on
/// (deadlock, budget). It must not return.
pub fn set_fatal(f: fn(&str) -> !) {
    FATAL.store(f as usize as u64, Ordering::SeqCst);
}

fn fatal(msg: &str) -> ! {
    let f = FATAL.load(Ordering::SeqCst);
    DEPTH.with(|d| d.set(d.get() + 1));
    if f != 0 {
        let f: fn(&str) -> ! = unsafe { std::mem::transmute(f as usize) };
        f(msg)
    }
    eprintln!("simkern fatal: {msg}");
    std::process::exit(97)
}

#[inline]
fn k() -> &'static mut Kernel {
    unsafe { (*std::ptr::addr_of_mut!(KERNEL)).as_mut().expect("no simulation") }
}

#[inline]
pub fn tid() -> usize {
    TID.with(|t| t.get())
}

/// true when called from a simulated thread outside the kernel
#[inline]
pub fn active() -> bool {
    TID.with(|t| t.get()) != NOT_SIM && DEPTH.with(|d| d.get()) == 0
}

#[inline]
pub fn in_sim() -> bool {
    TID.with(|t| t.get()) != NOT_SIM
}

/// Runs `f` with preemption off (kernel-private data structures).
#[inline]
pub fn masked<R>(f: impl FnOnce() -> R) -> R {
    struct G;
    impl Drop for G {
        fn drop(&mut self) {
            DEPTH.with(|d| d.set(d.get() - 1));
        }
    }
    DEPTH.with(|d| d.set(d.get() + 1));
    let _g = G;
    f()
}

impl Kernel {
    /// A decision with `n` alternatives; 0 is the default. `p` is the probability of leaving the
    /// default when exploring.
    fn decide(&mut self, n: usize, p: f64) -> usize {
        let at = self.counter;
        self.counter += 1;
        if n <= 1 {
            return 0;
        }
        if let Some(r) = &self.replay {
            return match r.get(&at) {
                Some(&c) => {
                    let c = c as usize % n;
                    if c != 0 { self.trace.push((at, c as u32)); }
                    c
                }
                None => 0,
            };
        }
        if !self.rng.chance(p) {
            return 0;
        }
        let c = self.rng.below(n as u64) as usize;
        if c != 0 {
            self.trace.push((at, c as u32));
        }
        c
    }

    fn tick(&mut self) {
        self.now += 1;
        self.stats.events += 1;
        if self.stats.events > self.cfg.max_events {
            fatal("step budget exceeded");
        }
    }

    fn wake_due(&mut self) {
        for s in self.slots.iter_mut() {
            if let State::Blocked { deadline, .. } = s.state {
                if deadline <= self.now {
                    s.state = State::Ready;
                    s.timed_out = true;
                }
            }
        }
    }

    fn runnable(&self, i: usize) -> bool {
        let s = &self.slots[i];
        s.state == State::Ready && s.stall_until <= self.now
    }

    /// picks the next thread; `me_ok`: the caller itself may go on
    fn pick(&mut self, me: usize, me_ok: bool) -> usize {
        loop {
            self.wake_due();
            let mut cand: Vec<usize> = Vec::with_capacity(self.slots.len());
            if me_ok && self.runnable(me) {
                cand.push(me);
            }
            for i in 0..self.slots.len() {
                if i != me && self.runnable(i) {
                    cand.push(i);
                }
            }
            if !me_ok && cand.is_empty() && self.runnable(me) {
                cand.push(me);
            }
            if !cand.is_empty() {
                self.stats.max_overlap = self.stats.max_overlap.max(cand.len() as u64);
                if self.cfg.priority && self.replay.is_none() {
                    // highest priority first; occasionally the winner's priority drops
                    let mut best = 0;
                    for (j, &c) in cand.iter().enumerate() {
                        if self.slots[c].prio > self.slots[cand[best]].prio { best = j; }
                    }
                    let at = self.counter;
                    self.counter += 1;
                    if best != 0 { self.trace.push((at, best as u32)); }
                    let c = cand[best];
                    if self.rng.chance(self.cfg.p_switch * 0.2) {
                        self.slots[c].prio = self.rng.next() >> 8;
                    }
                    return c;
                }
                let p = if me_ok && cand[0] == me { self.cfg.p_switch } else { 1.0 };
                let j = self.decide(cand.len(), p);
                return cand[j];
            }
            // nobody can run: let time pass until the next stall or deadline ends
            let mut next = u64::MAX;
            for s in self.slots.iter() {
                match s.state {
                    State::Ready => next = next.min(s.stall_until),
                    State::Blocked { deadline, .. } => next = next.min(deadline),
                    State::Finished => {}
                }
            }
            if next == u64::MAX {
                fatal("deadlock: every thread is blocked");
            }
            self.now = self.now.max(next);
        }
    }

    fn note(&mut self, kind: u64, who: usize) {
        self.ilv = mix2(self.ilv, kind.wrapping_mul(0x100) + who as u64);
    }

    fn give(&mut self, next: usize, kind: u64) {
        if self.cur != next {
            self.stats.switches += 1;
            self.note(kind, next);
        }
        self.cur = next;
        self.slots[next].word.store(1, Ordering::SeqCst);
        real_wake(&self.slots[next].word);
    }
}

/// Waits for the baton. `word` is taken by the creator: the slot table may grow meanwhile.
fn wait_baton(word: usize) {
    let w = unsafe { &*(word as *const AtomicU32) };
    loop {
        if w.swap(0, Ordering::SeqCst) == 1 {
            return;
        }
        real_wait(w, 0);
    }
}

fn word_of(slot: usize) -> usize {
    &*k().slots[slot].word as *const AtomicU32 as usize
}

fn switch(me: usize, next: usize, kind: u64) {
    if next == me {
        return;
    }
    // the word address must be read before the baton is given away
    let w = word_of(me);
    k().give(next, kind);
    wait_baton(w);
}

/// Decision point: the scheduler may hand the baton to somebody else.
pub fn yield_point(kind: u64) {
    if !active() {
        return;
    }
    masked(|| {
        let me = tid();
        let kn = k();
        kn.tick();
        let next = kn.pick(me, true);
        if next != me {
            maybe_stall(me);
        }
        switch(me, next, kind);
    })
}

fn maybe_stall(me: usize) {
    let kn = k();
    let p = kn.cfg.p_stall;
    let s = kn.decide(13, p);
    if s > 0 {
        let d = 1u64 << s;
        kn.slots[me].stall_until = kn.now + d;
        kn.stats.stalls += 1;
        kn.stats.stall_ticks += d;
    }
}

/// Like `yield_point`, but somebody else runs if anybody can.
pub fn yield_now() {
    if !active() {
        return;
    }
    masked(|| {
        let me = tid();
        let kn = k();
        kn.tick();
        let next = kn.pick(me, false);
        switch(me, next, 2);
    })
}

/// Allocation hook: counts, and sometimes preempts.
#[inline]
pub fn on_alloc() {
    if !active() {
        return;
    }
    let kn = k();
    kn.stats.allocs += 1;
    if kn.stats.allocs > kn.max_allocs {
        fatal("allocation budget exceeded");
    }
    if kn.replay.is_none() && kn.cfg.p_alloc <= 0.0 {
        kn.counter += 1;
        return;
    }
    masked(|| {
        let kn = k();
        // decision: preempt here?
        let c = {
            let p = kn.cfg.p_alloc;
            kn.decide(2, p * 2.0)
        };
        if c == 0 {
            return;
        }
        let me = tid();
        kn.tick();
        kn.stats.alloc_preempts += 1;
        let next = kn.pick(me, false);
        if next != me {
            maybe_stall(me);
        }
        switch(me, next, 3);
    })
}

// ---------------------------------------------------------------- control-flow edges of the library

/// edges left until `edge_slow`
static mut EDGE_LEFT: i64 = i64::MAX;
/// edges passed when EDGE_LEFT was set, and the value it was set to
static mut EDGE_BASE: u64 = 0;
static mut EDGE_ARMED: i64 = i64::MAX;

/// nobody runs longer than this many edges when somebody else can
const EDGE_SLICE: u64 = 1 << 22;
/// trace key of an edge preemption
const EDGE_KEY: u64 = 1 << 62;

/// Called at every control-flow edge of the library (compiler instrumentation).
#[inline(always)]
pub fn on_edge() {
    if TID.with(|t| t.get()) == NOT_SIM {
        return;
    }
    unsafe {
        let left = EDGE_LEFT - 1;
        EDGE_LEFT = left;
        if left < 0 {
            edge_slow();
        }
    }
}

/// edges passed since the last reset
pub fn edges() -> u64 {
    unsafe { EDGE_BASE + (EDGE_ARMED - EDGE_LEFT) as u64 }
}

pub fn edges_reset() {
    unsafe {
        EDGE_BASE = 0;
        EDGE_ARMED = i64::MAX;
        EDGE_LEFT = i64::MAX;
    }
}

/// the next call of `edge_slow` is `gap` edges away
fn edge_arm(gap: u64) {
    unsafe {
        EDGE_BASE = edges();
        EDGE_ARMED = gap.max(1) as i64 - 1;
        EDGE_LEFT = EDGE_ARMED;
    }
}

impl Kernel {
    fn edge_next(&mut self) {
        let now = edges();
        let gap = if self.replay.is_some() {
            while self.edge_replay.last().is_some_and(|e| *e <= now) {
                self.edge_replay.pop();
            }
            self.edge_replay.last().map(|e| e - now).unwrap_or(EDGE_SLICE)
        } else if self.cfg.p_edge > 0.0 {
            // geometric gaps, in bursts: dense preemption reaches every part of the run and stays affordable
            let slow = 1.0 + (self.stats.edge_preempts / 4096) as f64;
            let g = if self.edge_rng.chance(1.0 / 256.0) {
                slow * 2f64.powf(8.0 + 12.0 * self.edge_rng.f64())
            } else {
                -(1.0 - self.edge_rng.f64()).ln() / self.cfg.p_edge * slow
            };
            g.min(EDGE_SLICE as f64) as u64 + 1
        } else {
            EDGE_SLICE
        };
        edge_arm(gap.clamp(1, EDGE_SLICE));
    }
}

#[cold]
#[inline(never)]
fn edge_slow() {
    if !active() {
        // at the next edge outside the kernel's own code
        edge_arm(1);
        return;
    }
    masked(|| {
        let me = tid();
        let kn = k();
        kn.trace.push((EDGE_KEY | edges(), 1));
        kn.tick();
        kn.stats.edge_preempts += 1;
        kn.edge_next();
        let next = kn.pick(me, false);
        if next != me {
            maybe_stall(me);
        }
        switch(me, next, 7);
    })
}

/// Blocks the caller until `wake` is called with `k1` or `k2` (0 = unused), or the deadline passes.
/// Returns false on time-out.
pub fn block_on(k1: usize, k2: usize, deadline: u64) -> bool {
    masked(|| {
        let me = tid();
        let kn = k();
        kn.tick();
        kn.slots[me].timed_out = false;
        kn.slots[me].state = State::Blocked { k1, k2, deadline };
        let next = kn.pick(me, false);
        switch(me, next, 4);
        !k().slots[me].timed_out
    })
}

/// Wakes at most `n` threads blocked on the key; returns how many.
pub fn wake(key: usize, n: usize) -> usize {
    let mut c = 0;
    if key == 0 || !in_sim() {
        return 0;
    }
    let kn = k();
    for s in kn.slots.iter_mut() {
        if c == n {
            break;
        }
        if let State::Blocked { k1, k2, .. } = s.state {
            if k1 == key || k2 == key {
                s.state = State::Ready;
                s.timed_out = false;
                c += 1;
            }
        }
    }
    c
}

/// Seeded choice among `n`, default 0 (e.g. which victim to steal from).
pub fn choose(n: usize) -> usize {
    if !in_sim() {
        return 0;
    }
    masked(|| {
        let kn = k();
        let p = kn.cfg.p_steal;
        kn.decide(n, p)
    })
}

pub fn now() -> u64 {
    k().now
}

pub fn shutting_down() -> bool {
    k().shutdown
}

pub fn workers() -> usize {
    if in_sim() { k().cfg.workers } else { 1 }
}

pub fn stats() -> &'static mut Stats {
    &mut k().stats
}

/// folds an application event (operation begin / end) into the interleaving hash
pub fn note(kind: u64) {
    if in_sim() {
        let t = tid();
        k().note(kind, t);
    }
}

/// key on which idle workers wait
pub const WORK: usize = 1;

// ---------------------------------------------------------------- OS seams

/// Random bytes (hash-map keys) for a simulated thread.
pub fn random_bytes(buf: &mut [u8]) -> bool {
    if !in_sim() {
        return false;
    }
    masked(|| {
        let kn = k();
        kn.stats.hash_keys += 1;
        for c in buf.chunks_mut(8) {
            let v = kn.hash_rng.next().to_le_bytes();
            let n = c.len();
            c.copy_from_slice(&v[..n]);
        }
    });
    true
}

/// Simulated monotonic clock in nanoseconds: 1 tick = 1 microsecond, sometimes jumping.
pub fn clock_ns() -> u64 {
    masked(|| {
        let kn = k();
        kn.stats.clock_reads += 1;
        kn.now += 1;
        let p = kn.cfg.p_os;
        let j = kn.decide(20, p);
        if j > 0 {
            kn.now += 1u64 << j;
        }
        (kn.now + 1_000_000) * 1000
    })
}

pub fn sleep_ns(ns: u64) {
    let d = now() + ns / 1000 + 1;
    block_on(0, 0, d);
}

/// FUTEX_WAIT for a simulated thread. Returns 0, -11 (EAGAIN), -110 (ETIMEDOUT) or -4 (EINTR).
/// `deadline` is in simulated ticks.
pub fn futex_wait(word: *const AtomicU32, expect: u32, deadline: u64) -> i64 {
    if unsafe { (*word).load(Ordering::SeqCst) } != expect {
        return -11;
    }
    {
        let kn = k();
        kn.stats.futex_waits += 1;
        let p = kn.cfg.p_os;
        if kn.decide(2, p) == 1 {
            kn.stats.spurious_wakes += 1;
            yield_now();
            return -4;
        }
    }
    if block_on(word as usize, 0, deadline) { 0 } else { -110 }
}

pub fn futex_wake(word: usize, n: usize) -> i64 {
    let c = wake(word, n) as i64;
    yield_point(6);
    c
}

/// Called by the creator: reserves a slot (and its baton word) for a thread the code under test
/// creates itself.
pub fn adopt_slot() -> (usize, usize) {
    masked(|| {
        let kn = k();
        kn.stats.os_threads += 1;
        let prio = kn.rng.next();
        kn.slots.push(Slot {
            word: Box::new(AtomicU32::new(0)),
            state: State::Ready,
            stall_until: 0,
            daemon: false,
            timed_out: false,
            prio,
            pthread: 0,
        });
        kn.live_all += 1;
        kn.live_clients += 1;
        let i = kn.slots.len() - 1;
        (i, word_of(i))
    })
}

pub fn set_pthread(slot: usize, id: u64) {
    k().slots[slot].pthread = id;
}

pub fn adopted_begin(slot: usize, word: usize) {
    begin(slot, word);
}

pub fn adopted_end(slot: usize) {
    end(slot);
}

/// pthread_join of an adopted thread: wait (simulated) until it has finished.
pub fn join_wait(id: u64) {
    loop {
        let mut waitkey = 0;
        for (i, s) in k().slots.iter().enumerate() {
            if s.pthread == id && id != 0 && s.state != State::Finished {
                waitkey = 0x10 + i;
            }
        }
        if waitkey == 0 {
            return;
        }
        block_on(waitkey, 0, u64::MAX);
    }
}

// ---------------------------------------------------------------- running

fn begin(me: usize, word: usize) {
    // wait for the baton before becoming a simulated thread
    wait_baton(word);
    TID.with(|t| t.set(me));
}

fn end(me: usize) {
    DEPTH.with(|d| d.set(d.get() + 1));
    let kn = k();
    kn.slots[me].state = State::Finished;
    kn.live_all -= 1;
    wake(0x10 + me, usize::MAX);
    if !kn.slots[me].daemon {
        kn.live_clients -= 1;
        if kn.live_clients == 0 {
            kn.shutdown = true;
            // stalls end with the workload
            for s in kn.slots.iter_mut() {
                s.stall_until = 0;
            }
            wake(WORK, usize::MAX);
        }
    }
    TID.with(|t| t.set(NOT_SIM));
    if kn.live_all == 0 {
        kn.done.store(1, Ordering::SeqCst);
        real_wake(&kn.done);
    } else {
        let next = kn.pick(me, false);
        kn.give(next, 5);
    }
    DEPTH.with(|d| d.set(d.get() - 1));
}

pub type Body<'a> = Box<dyn FnOnce() + Send + 'a>;

/// Runs the clients to completion on the simulated machine. `worker_main` is the body of the pool's
/// worker threads (daemons; they must return when `shutting_down()`).
pub fn run<'a>(cfg: Config, clients: Vec<Body<'a>>, worker_main: fn(usize)) -> Report {
    assert!(!in_sim());
    let n_clients = clients.len();
    let n = n_clients + cfg.workers;
    let mut rng = Rng::new(cfg.sched_seed);
    let slots = (0..n)
        .map(|i| Slot {
            word: Box::new(AtomicU32::new(0)),
            state: State::Ready,
            stall_until: 0,
            daemon: i >= n_clients,
            timed_out: false,
            prio: rng.next(),
            pthread: 0,
        })
        .collect();
    let hash_rng = Rng::new(cfg.hash_seed ^ 0x5bd1e995);
    let replay = cfg.trace.as_ref().map(|t| t.iter().copied().collect());
    let mut edge_replay: Vec<u64> = cfg.trace.iter().flatten().filter(|t| t.0 & EDGE_KEY != 0).map(|t| t.0 & !EDGE_KEY).collect();
    edge_replay.sort_unstable_by(|a, b| b.cmp(a));
    let edge_rng = Rng::new(cfg.sched_seed ^ 0xed6e);
    edges_reset();
    let max_allocs = cfg.max_allocs;
    let kernel = Kernel {
        slots,
        cur: usize::MAX,
        now: 0,
        counter: 0,
        rng,
        hash_rng,
        replay,
        trace: Vec::new(),
        stats: Stats::default(),
        ilv: 0,
        shutdown: false,
        live_clients: n_clients,
        live_all: n,
        done: AtomicU32::new(0),
        max_allocs,
        edge_rng,
        edge_replay,
        cfg,
    };
    unsafe {
        *std::ptr::addr_of_mut!(KERNEL) = Some(Box::new(kernel));
    }
    let workers = n - n_clients;
    let mut handles = Vec::with_capacity(n);
    for (i, c) in clients.into_iter().enumerate() {
        // SAFETY: every thread is joined below before this function returns
        let c: Body<'static> = unsafe { std::mem::transmute(c) };
        let word = word_of(i);
        handles.push(
            std::thread::Builder::new()
                .stack_size(8 << 20)
                .spawn(move || {
                    begin(i, word);
                    let _ = std::panic::catch_unwind(std::panic::AssertUnwindSafe(c));
                    end(i);
                })
                .expect("spawn"),
        );
    }
    for w in 0..workers {
        let i = n_clients + w;
        let word = word_of(i);
        handles.push(
            std::thread::Builder::new()
                .stack_size(8 << 20)
                .spawn(move || {
                    begin(i, word);
                    worker_main(w);
                    end(i);
                })
                .expect("spawn"),
        );
    }
    // start: the first thread to run is a decision too
    {
        let kn = k();
        kn.edge_next();
        let first = kn.decide(n_clients, 1.0);
        kn.give(first, 0);
    }
    loop {
        let kn = k();
        if kn.done.load(Ordering::SeqCst) == 1 {
            break;
        }
        real_wait(&kn.done, 0);
    }
    for h in handles {
        let _ = h.join();
    }
    let kn = unsafe { (*std::ptr::addr_of_mut!(KERNEL)).take().unwrap() };
    let mut stats = kn.stats;
    stats.edges = edges();
    edges_reset();
    stats.ticks = kn.now;
    Report { stats, trace: kn.trace, interleaving: kn.ilv }
}

/// what the run had done so far (for fatal handlers)
pub fn snapshot_trace() -> Vec<(u64, u32)> {
    unsafe {
        match (*std::ptr::addr_of!(KERNEL)).as_ref() {
            Some(k) => k.trace.clone(),
            None => Vec::new(),
        }
    }
}

