//! Batches of simulated runs, minimisation, replay and evidence.

use crate::child;
use crate::pool::*;
use crate::props;
use crate::scenario::*;
use crate::shrink::Shrinker;
use std::collections::HashSet;
use std::io::{BufRead, Write};
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering};
use std::sync::Mutex;
use std::time::{Duration, Instant};

fn pin(core: usize) {
    extern "C" {
        fn sched_setaffinity(pid: i32, n: usize, mask: *const u64) -> i32;
    }
    let n = std::thread::available_parallelism().map(|n| n.get()).unwrap_or(1);
    let mut m = [0u64; 16];
    let c = core % n.max(1) % 1024;
    m[c / 64] |= 1 << (c % 64);
    unsafe { sched_setaffinity(0, 128, m.as_ptr()) };
}

fn answer(sc: &Scenario, want_trace: bool) -> Answer {
    let r = props::run(sc);
    let mut a = Answer {
        counters: r.counters,
        interleaving: r.interleaving,
        out_hash: r.out_hash,
        ops: sc.ops().count() as u64,
        points: sc.points() as u64,
        known: r.known,
        reached: crate::shims::take_reached(),
        ..Default::default()
    };
    match r.verdict {
        Ok(j) => {
            a.ok = true;
            a.evals = j.evals;
            a.nontrivial = j.nontrivial;
            a.exact = j.exact;
        }
        Err(v) => {
            a.class = v.class;
            a.msg = v.msg;
        }
    }
    if want_trace && !a.ok {
        a.trace = r.trace;
    }
    a
}

pub fn child_main(core: usize) -> i32 {
    pin(core);
    child::install();
    crate::shims::LIMIT.store(2_500_000_000, Ordering::Relaxed);
    let stdin = std::io::stdin();
    let mut line = String::new();
    loop {
        line.clear();
        match stdin.lock().read_line(&mut line) {
            Ok(n) if n > 0 => {}
            _ => return 0,
        }
        let Ok(q) = serde_json::from_str::<Ask>(&line) else { return 3 };
        let a = match q {
            Ask::Seed { prop, seed } => answer(&props::generate(&prop, seed), false),
            Ask::Run { sc } => answer(&sc, true),
        };
        let s = format!("R {}\n", serde_json::to_string(&a).unwrap());
        let mut o = std::io::stdout().lock();
        if o.write_all(s.as_bytes()).is_err() || o.flush().is_err() {
            return 0;
        }
    }
}

fn exe() -> String {
    std::env::current_exe().unwrap().to_string_lossy().into_owned()
}

fn env_u64(n: &str, d: u64) -> u64 {
    std::env::var(n).ok().and_then(|v| v.trim().parse().ok()).unwrap_or(d)
}

pub fn seed_of(base: u64, prop: &str, i: u64) -> u64 {
    simkern::mix2(simkern::mix2(base, prop.bytes().fold(3, |a, b| a * 131 + b as u64)), i) >> 1
}

fn base_dir() -> std::path::PathBuf {
    std::env::var("IOSIM_DIR").map(Into::into).unwrap_or_else(|_| std::env::current_dir().unwrap())
}

#[derive(Default)]
struct Totals {
    runs: u64,
    evals: u64,
    nontrivial: u64,
    exact: u64,
    ops: u64,
    points: u64,
    counters: Counters,
    interleavings: HashSet<u64>,
    outputs: HashSet<u64>,
    known: std::collections::BTreeMap<String, u64>,
    multi: u64,
    reached: HashSet<u32>,
}

pub const KILL_WALL: Duration = Duration::from_secs(400);

fn limit_of(tier: &str) -> u64 {
    env_u64("IOSIM_SECONDS", if tier == "thorough" { 1500 } else { 40 })
}

/// check PROP TIER
pub fn check(a: &[String]) -> i32 {
    let prop = a[0].clone();
    let tier = a.get(1).cloned().unwrap_or_else(|| std::env::var("VERIF_TIER").unwrap_or("quick".into()));
    let base = env_u64("VERIF_SEED", 1);
    let limit = limit_of(&tier);
    let procs = env_u64("IOSIM_PROCS", std::thread::available_parallelism().map(|n| n.get()).unwrap_or(4) as u64).max(1) as usize;
    println!("property={} tier={} seed={} processes={} seconds={}", prop, tier, base, procs, limit);
    let t0 = Instant::now();
    let next = AtomicU64::new(0);
    let stop = AtomicBool::new(false);
    let tot = Mutex::new(Totals::default());
    let found: Mutex<Vec<(u64, u64, Answer)>> = Mutex::new(vec![]);
    let broken = Mutex::new(String::new());
    let samples = Mutex::new(Vec::<serde_json::Value>::new());
    let exe = exe();
    std::thread::scope(|s| {
        for w in 0..procs {
            let (next, stop, tot, found, broken, samples, exe, prop) = (&next, &stop, &tot, &found, &broken, &samples, &exe, &prop);
            s.spawn(move || {
                let mut srv = Server::new(exe, w);
                let mut strikes = 0;
                while !stop.load(Ordering::Relaxed) && t0.elapsed().as_secs_f64() < limit as f64 {
                    let i = next.fetch_add(1, Ordering::Relaxed);
                    let seed = seed_of(base, prop, i);
                    let ans = srv.ask(&Ask::Seed { prop: prop.clone(), seed }, KILL_WALL);
                    if ans.class == "killed" {
                        strikes += 1;
                        if strikes > 3 {
                            *broken.lock().unwrap() = ans.msg;
                            stop.store(true, Ordering::Relaxed);
                        }
                        continue;
                    }
                    let mut t = tot.lock().unwrap();
                    t.runs += 1;
                    t.evals += ans.evals;
                    t.nontrivial += ans.nontrivial;
                    t.exact += ans.exact;
                    t.ops += ans.ops;
                    t.points += ans.points;
                    t.counters.add(&ans.counters);
                    t.interleavings.insert(ans.interleaving);
                    t.outputs.insert(ans.out_hash);
                    t.reached.extend(&ans.reached);
                    t.multi += (ans.counters.switches > 0) as u64;
                    for k in &ans.known {
                        *t.known.entry(k.clone()).or_insert(0) += 1;
                    }
                    drop(t);
                    if i < 5 {
                        samples.lock().unwrap().push(serde_json::json!({"seed": seed, "ok": ans.ok, "operations": ans.ops, "points": ans.points, "events": ans.counters.events, "switches": ans.counters.switches, "interleaving": format!("{:016x}", ans.interleaving)}));
                    }
                    if !ans.ok {
                        found.lock().unwrap().push((i, seed, ans));
                        stop.store(true, Ordering::Relaxed);
                    }
                }
            });
        }
    });
    let wall = t0.elapsed().as_secs_f64();
    let mut found = found.into_inner().unwrap();
    found.sort_by_key(|f| f.0);
    let tot = tot.into_inner().unwrap();
    let broken = broken.into_inner().unwrap();
    let mut code = 0;
    let mut reported = vec![];
    if !broken.is_empty() {
        eprintln!("the machinery failed: {}", broken);
        code = 2;
    }
    for desc in known_list(&prop) {
        println!("KNOWN-FINDING: property={} {}", prop, desc);
    }
    if let Some((_, seed, ans)) = found.first() {
        code = 1;
        println!("seed {} fails: {}: {}", seed, ans.class, ans.msg);
        let path = report(&prop, &tier, *seed, ans);
        println!("VIOLATION property={} replay={}", prop, path);
        reported.push(serde_json::json!({"seed": seed, "class": ans.class, "message": ans.msg, "replay": path}));
    }
    let c = &tot.counters;
    let ev = serde_json::json!({
        "property": prop,
        "tier": tier,
        "seed": base,
        "level": "exploration",
        "wall_s": wall,
        "violations": reported,
        "known_findings_met": tot.known,
        "coverage": {
            "evaluations": tot.evals,
            "distinct_nontrivial": tot.outputs.len(),
            "rule": "one evaluation = one operation result judged by the property's oracle; distinct_nontrivial = simulated runs whose complete result (a hash over every operation's result) differs from every other run's",
            "samples": samples.into_inner().unwrap(),
            "simulated_runs": tot.runs,
            "nontrivial_results": tot.nontrivial,
            "exact_oracle_results": tot.exact,
            "operations": tot.ops,
            "input_points": tot.points,
            "runs_per_hour_one_seed_each": (tot.runs as f64 / wall * 3600.0) as u64,
            "simulated_time_ticks": c.ticks,
            "simulated_time_note": "one tick per scheduling decision plus the length of every injected stall; the library reads no clock (clock reads observed are counted below)",
            "distinct_interleavings": tot.interleavings.len(),
            "interleaving_measure": "hash of the sequence of (decision point kind, thread that runs next) of a run",
            "library_edges_executed": c.edges,
            "library_edges_reached": tot.reached.len(),
            "library_edges_total": crate::shims::guards(),
            "library_edges_note": "control-flow edges the compiler put into i_overlay and into the calling code (where generic library code is compiled); total includes edges of panics, of formatting and of other properties' entry points",
            "runs_with_context_switches": tot.multi,
            "faults": {
                "context_switches": c.switches,
                "preemptions_inside_allocation": c.alloc_preempts,
                "preemptions_at_control_flow_edges": c.edge_preempts,
                "stalled_threads": c.stalls,
                "stall_ticks": c.stall_ticks,
                "stolen_jobs": c.steals,
                "jobs_stolen_while_waiting_inside_another_job": c.nested_steals,
                "jobs_injected_from_client_threads": c.injected_jobs,
                "pool_jobs": c.jobs,
                "caller_panics": c.caller_panics,
                "poisoned_allocations": c.poisoned_allocs,
                "shifted_heap_layouts": c.heap_shifts,
                "random_priority_schedules": c.priority_runs,
                "spurious_wake_ups": c.spurious_wakes,
                "hash_seed_requests": c.hash_keys,
                "clock_reads": c.clock_reads,
                "futex_waits": c.futex_waits,
                "os_threads_started_by_the_library": c.os_threads
            },
            "components": {
                "real": "i_overlay (built from /repo/iOverlay), i_float, i_tree, rayon (slice sort, iterators, join adaptors), the standard library",
                "simulated": "rayon-core (thread pool, deques, latches, sleep), thread scheduling, getrandom/hash keys, clock, sleep, futex, thread creation, allocator contents and preemption",
                "stand_in": "i_shape is vendored at the interface version /repo needs (int::dedup added), the registry copy does not have it"
            }
        },
        "assumptions": [
            "caller threads and pool workers interleave at decision points: job push, steal, latch, blocking call, operation boundary and, with a probability, every memory allocation and every control-flow edge of the library (not of its dependencies); code between two such points runs without preemption",
            "memory is sequentially consistent in the simulation"
        ]
    });
    let dir = base_dir().join("evidence");
    let _ = std::fs::create_dir_all(&dir);
    let p = dir.join(format!("{}.json", prop));
    if let Err(e) = std::fs::write(&p, serde_json::to_string_pretty(&ev).unwrap()) {
        eprintln!("cannot write evidence {}: {}", p.display(), e);
        if code == 0 {
            code = 2;
        }
    }
    println!(
        "{} runs ({} distinct results, {} interleavings), {} results judged ({} exactly), {:.1} s",
        tot.runs,
        tot.outputs.len(),
        tot.interleavings.len(),
        tot.evals,
        tot.exact,
        wall
    );
    if code == 0 && tot.runs == 0 {
        eprintln!("no run was completed");
        return 2;
    }
    code
}

/// lines `known: property=<id> <what>` of the findings file; `fixed:` lines suppress nothing
pub fn known_list(prop: &str) -> Vec<String> {
    let p = base_dir().join("known_findings.txt");
    let head = format!("known: property={} ", prop);
    std::fs::read_to_string(p).unwrap_or_default().lines().filter_map(|l| l.strip_prefix(&head).map(|x| x.to_string())).collect()
}

/// minimise, write the replay file, confirm it in a fresh process
fn report(prop: &str, tier: &str, seed: u64, ans: &Answer) -> String {
    let sc = props::generate(prop, seed);
    let exe = exe();
    let mut srv = Server::new(&exe, 0);
    // a failure that does not come back is reported with its seed as it is
    let again = srv.ask(&Ask::Run { sc: Box::new(sc.clone()) }, KILL_WALL);
    let mut file = sc.clone();
    let mut class = ans.class.clone();
    let mut msg = ans.msg.clone();
    let mut trials = 0;
    let reproduced = !again.ok && again.class == ans.class;
    if reproduced {
        let slow = matches!(class.as_str(), "hang" | "stuck" | "livelock" | "memory");
        let secs = env_u64("IOSIM_SHRINK", if tier == "thorough" { 300 } else { 45 });
        if !slow {
            let mut sh = Shrinker { server: &mut srv, class: class.clone(), deadline: Instant::now() + Duration::from_secs(secs), trials: 0, msg: msg.clone() };
            file = sh.run(&sc);
            trials = sh.trials;
        }
        // a slow failure has just been confirmed as it is
        if !slow {
            srv.fresh();
            let last = srv.ask(&Ask::Run { sc: Box::new(file.clone()) }, KILL_WALL);
            if last.ok || last.class != class {
                file = sc.clone();
            } else {
                msg = last.msg;
                class = last.class;
            }
        }
    } else {
        println!("note: repeating the seed gave {}", if again.ok { "no failure".to_string() } else { format!("{}: {}", again.class, again.msg) });
    }
    let dir = base_dir().join("evidence").join("replays");
    let _ = std::fs::create_dir_all(&dir);
    let p = dir.join(format!("{}-{:016x}.json", prop, seed));
    let j = serde_json::json!({
        "property": prop,
        "seed": seed,
        "class": class,
        "message": msg,
        "minimised": {"trials": trials, "operations": file.ops().count(), "points": file.points(), "workers": file.sched.workers, "explicit_decisions": file.sched.trace.as_ref().map(|t| t.len())},
        "how": "sh tools/replay.sh FILE",
        "scenario": file,
    });
    let _ = std::fs::write(&p, serde_json::to_string_pretty(&j).unwrap());
    println!("minimised to {} operation(s), {} point(s): {}: {}", file.ops().count(), file.points(), class, msg);
    p.to_string_lossy().into_owned()
}

pub fn replay(path: &str) -> i32 {
    let Ok(s) = std::fs::read_to_string(path) else {
        eprintln!("cannot read {}", path);
        return 2;
    };
    let Ok(j) = serde_json::from_str::<serde_json::Value>(&s) else {
        eprintln!("not a replay file");
        return 2;
    };
    let Ok(sc) = serde_json::from_value::<Scenario>(j["scenario"].clone()) else {
        eprintln!("not a replay file");
        return 2;
    };
    let exe = exe();
    let mut srv = Server::new(&exe, 0);
    let a = srv.ask(&Ask::Run { sc: Box::new(sc.clone()) }, KILL_WALL);
    if a.ok {
        println!("no violation: {} results judged, interleaving {:016x}, results {:016x}", a.evals, a.interleaving, a.out_hash);
        return 0;
    }
    println!("{}: {}", a.class, a.msg);
    println!("interleaving {:016x}, results {:016x}", a.interleaving, a.out_hash);
    println!("VIOLATION property={} replay={}", sc.prop, path);
    1
}

/// every seed twice, in different processes on different cores: everything observable must agree
pub fn determinism(a: &[String]) -> i32 {
    let n: u64 = a.first().and_then(|x| x.parse().ok()).unwrap_or(200);
    let exe = exe();
    let next = AtomicU64::new(0);
    let bad = AtomicU64::new(0);
    let total = n * props::CLAIMED.len() as u64;
    let t0 = Instant::now();
    std::thread::scope(|s| {
        for w in 0..8 {
            let (next, bad, exe) = (&next, &bad, &exe);
            s.spawn(move || {
                let mut s1 = Server::new(exe, w);
                let mut s2 = Server::new(exe, w + 3);
                let mut k = 0;
                loop {
                    let i = next.fetch_add(1, Ordering::Relaxed);
                    if i >= total {
                        return;
                    }
                    let prop = props::CLAIMED[(i % props::CLAIMED.len() as u64) as usize];
                    let seed = seed_of(99, prop, i);
                    let q = Ask::Seed { prop: prop.into(), seed };
                    let x = s1.ask(&q, KILL_WALL);
                    // the second process has another history
                    if k % 3 == 0 {
                        s2.fresh();
                    }
                    k += 1;
                    let y = s2.ask(&q, KILL_WALL);
                    let f = |a: &Answer| (a.ok, a.class.clone(), a.msg.clone(), a.interleaving, a.out_hash, serde_json::to_string(&a.counters).unwrap());
                    if f(&x) != f(&y) {
                        bad.fetch_add(1, Ordering::Relaxed);
                        println!("{} seed {} diverges:\n  {:?}\n  {:?}", prop, seed, f(&x), f(&y));
                    }
                }
            });
        }
    });
    let b = bad.load(Ordering::Relaxed);
    println!("{} seeds twice in {:.1} s: {} diverge", total, t0.elapsed().as_secs_f64(), b);
    (b > 0) as i32
}

pub fn dev_shrink(prop: &str, seed: u64) -> i32 {
    let sc = props::generate(prop, seed);
    let exe = exe();
    let mut srv = Server::new(&exe, 1);
    let a = srv.ask(&Ask::Run { sc: Box::new(sc.clone()) }, KILL_WALL);
    if a.ok {
        println!("no failure");
        return 0;
    }
    let secs = env_u64("IOSIM_SHRINK", 20);
    let mut sh = Shrinker { server: &mut srv, class: a.class.clone(), deadline: Instant::now() + Duration::from_secs(secs), trials: 0, msg: a.msg.clone() };
    let m = sh.run(&sc);
    println!("{} {} {}: {} ({} trials)", prop, seed, a.class, sh.msg, sh.trials);
    for (ci, ops) in m.clients.iter().enumerate() {
        for op in ops {
            println!("client {} {:?} form {} rule {} fill {} cw {} simp {} min {} fmin {} inv {} bnd {} closed {} exact {} f32 {} fexp {} order {} graph {} group {} fault {:?} style {:?} {:?}", ci, op.kind, op.form, op.rule, op.fill, op.cw, op.simplify, op.min_area, op.fmin, op.invert, op.boundary, op.closed, op.exact, op.f32, op.fexp, op.order, op.graph, op.group, op.fault, op.style, op.solver);
            println!("  subj {:?}\n  clip {:?}\n  lines {:?}", op.subj, op.clip, op.lines);
        }
    }
    for g in &m.graphs {
        println!("graph {:?} form {} fill {} {:?}\n  subj {:?}\n  clip {:?}\n  lines {:?}", g.kind, g.form, g.fill, g.solver, g.subj, g.clip, g.lines);
    }
    if let Ok(p) = std::env::var("IOSIM_OUT") {
        let _ = std::fs::write(p, serde_json::to_string(&m).unwrap());
    }
    println!("sched workers {} p_switch {} trace {:?}", m.sched.workers, m.sched.p_switch, m.sched.trace.as_ref().map(|t| t.len()));
    0
}

/// development: run seeds in child processes and list what fails
pub fn scan(a: &[String]) -> i32 {
    let (prop, s0, n) = (a[0].clone(), a[1].parse::<u64>().unwrap(), a[2].parse::<u64>().unwrap());
    let show: usize = a.get(3).and_then(|x| x.parse().ok()).unwrap_or(5);
    let exe = exe();
    let next = AtomicU64::new(s0);
    let res = Mutex::new(std::collections::BTreeMap::<String, Vec<(u64, String)>>::new());
    let tot = Mutex::new((0u64, 0u64, 0u64, (0.0, 0u64)));
    let t0 = Instant::now();
    std::thread::scope(|s| {
        for w in 0..8 {
            let (next, res, tot, exe, prop) = (&next, &res, &tot, &exe, &prop);
            s.spawn(move || {
                let mut srv = Server::new(exe, w);
                loop {
                    let seed = next.fetch_add(1, Ordering::Relaxed);
                    if seed >= s0 + n {
                        return;
                    }
                    let t = Instant::now();
                    let a = srv.ask(&Ask::Seed { prop: prop.clone(), seed }, KILL_WALL);
                    let e = t.elapsed().as_secs_f64();
                    let mut g = tot.lock().unwrap();
                    g.0 += a.evals;
                    g.1 += a.nontrivial;
                    g.2 += a.exact;
                    if e > g.3 .0 {
                        g.3 = (e, seed);
                    }
                    drop(g);
                    if !a.ok {
                        res.lock().unwrap().entry(a.class).or_default().push((seed, a.msg));
                    }
                }
            });
        }
    });
    println!("{} {} runs {:.1} s {:?}", prop, n, t0.elapsed().as_secs_f64(), tot.lock().unwrap());
    for (c, mut v) in res.into_inner().unwrap() {
        v.sort();
        println!("  {} x{}", c, v.len());
        for (s, m) in v.iter().take(show) {
            println!("     seed {}: {}", s, m);
        }
    }
    0
}
