//! A scenario is everything one simulated execution depends on.

use crate::ops::*;
use crate::shims;
use serde::{Deserialize, Serialize};
use simkern as sk;
use simkern::Rng;
use std::sync::atomic::Ordering;
use std::sync::Mutex;

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Sched {
    pub workers: usize,
    pub seed: u64,
    pub hash_seed: u64,
    pub p_switch: f64,
    pub p_alloc: f64,
    pub p_stall: f64,
    pub p_steal: f64,
    pub priority: bool,
    pub p_os: f64,
    #[serde(default)]
    pub p_edge: f64,
    /// 0: off
    pub poison: u64,
    /// heap layout perturbation
    pub heap: u64,
    #[serde(default)]
    pub trace: Option<Vec<(u64, u32)>>,
}

impl Sched {
    pub fn random(r: &mut Rng, wide: bool) -> Self {
        Sched {
            workers: if r.chance(0.1) { 1 } else { 1 + r.below(if wide { 8 } else { 4 }) as usize },
            seed: r.next(),
            hash_seed: r.next(),
            p_switch: *r.pick(&[0.0, 0.01, 0.05, 0.2, 0.5, 1.0]),
            p_alloc: *r.pick(&[0.0, 0.0, 0.0005, 0.005, 0.03, 0.2]),
            p_stall: *r.pick(&[0.0, 0.02, 0.2, 0.8]),
            p_steal: *r.pick(&[0.0, 0.3, 1.0]),
            priority: r.chance(0.2),
            p_os: *r.pick(&[0.0, 0.0, 0.05]),
            p_edge: if r.chance(0.5) { 0.0 } else { 10f64.powf(-0.5 - 4.5 * r.f64()) },
            poison: if r.chance(0.5) { r.next() | 1 } else { 0 },
            heap: if r.chance(0.5) { r.next() } else { 0 },
            trace: None,
        }
    }
    pub fn quiet() -> Self {
        Sched { workers: 1, seed: 1, hash_seed: 1, p_switch: 0.0, p_alloc: 0.0, p_stall: 0.0, p_steal: 0.0, priority: false, p_os: 0.0, p_edge: 0.0, poison: 0, heap: 0, trace: None }
    }
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Scenario {
    pub prop: String,
    pub graphs: Vec<Op>,
    pub clients: Vec<Vec<Op>>,
    pub sched: Sched,
}

impl Scenario {
    pub fn ops(&self) -> impl Iterator<Item = &Op> {
        self.clients.iter().flatten()
    }
    pub fn points(&self) -> usize {
        self.ops().map(|o| o.points()).sum::<usize>() + self.graphs.iter().map(|o| o.points()).sum::<usize>()
    }
}

#[derive(Default, Clone, Serialize, Deserialize, Debug)]
pub struct Counters {
    pub events: u64,
    pub ticks: u64,
    pub switches: u64,
    pub alloc_preempts: u64,
    #[serde(default)]
    pub edges: u64,
    #[serde(default)]
    pub edge_preempts: u64,
    pub stalls: u64,
    pub stall_ticks: u64,
    pub steals: u64,
    pub nested_steals: u64,
    pub injected_jobs: u64,
    pub jobs: u64,
    pub hash_keys: u64,
    pub futex_waits: u64,
    pub spurious_wakes: u64,
    pub clock_reads: u64,
    pub os_threads: u64,
    pub poisoned_allocs: u64,
    pub caller_panics: u64,
    pub heap_shifts: u64,
    pub priority_runs: u64,
}

pub struct SimOut {
    pub outs: Vec<Vec<Out>>,
    pub counters: Counters,
    pub interleaving: u64,
    pub trace: Vec<(u64, u32)>,
}

pub const MAX_EVENTS: u64 = 40_000_000;

/// execute the scenario on the simulated machine
pub fn simulate(sc: &Scenario, faults: &[Vec<Option<u64>>]) -> SimOut {
    crate::statics::restore();
    let graphs: Vec<Graph> = sc.graphs.iter().map(build_graph).collect();
    let outs: Vec<Mutex<Vec<Out>>> = sc.clients.iter().map(|_| Mutex::new(Vec::new())).collect();
    let s = &sc.sched;
    let cfg = sk::Config {
        workers: s.workers,
        sched_seed: s.seed,
        hash_seed: s.hash_seed,
        p_switch: s.p_switch,
        p_alloc: s.p_alloc,
        p_stall: s.p_stall,
        p_steal: s.p_steal,
        priority: s.priority,
        p_os: s.p_os,
        p_edge: s.p_edge,
        trace: s.trace.clone(),
        max_events: MAX_EVENTS,
        max_allocs: 400_000_000,
    };
    rayon_core::sim_reset(s.workers);
    let mut bodies: Vec<sk::Body> = Vec::new();
    for (ci, ops) in sc.clients.iter().enumerate() {
        let slot = &outs[ci];
        let graphs = &graphs;
        let fl = &faults[ci];
        bodies.push(Box::new(move || {
            let mut last = Out::None;
            for (i, op) in ops.iter().enumerate() {
                let fed;
                let op = if op.indirect() {
                    fed = sk::masked(|| op.fed(if i > 0 { Some(&last) } else { None }));
                    &fed
                } else {
                    op
                };
                let o = if let Some(f) = fl.get(i).copied().flatten() {
                    let mut o2 = sk::masked(|| op.clone());
                    o2.fault = Some(f);
                    exec(&o2, graphs)
                } else if op.fault.is_some() {
                    let mut o2 = sk::masked(|| op.clone());
                    o2.fault = Some(0);
                    exec(&o2, graphs)
                } else {
                    exec(op, graphs)
                };
                sk::masked(|| {
                    if ops.get(i + 1).is_some_and(|n| n.feed != 0) {
                        last = o.clone();
                    }
                    slot.lock().unwrap().push(o)
                });
            }
        }));
    }
    // a different heap layout
    let mut junk: Vec<Vec<u8>> = Vec::new();
    if s.heap != 0 {
        let mut r = Rng::new(s.heap);
        for _ in 0..r.below(200) {
            junk.push(Vec::with_capacity(8 + r.below(3000) as usize));
        }
        let mut k = 0;
        junk.retain(|_| {
            k += 1;
            k % 3 != 0
        });
    }
    let p0 = shims::POISONED.load(Ordering::Relaxed);
    if s.poison != 0 {
        shims::POISON_STATE.store(s.poison, Ordering::Relaxed);
        shims::POISON.store(true, Ordering::Relaxed);
    }
    let rep = sk::run(cfg, bodies, rayon_core::sim_worker_main);
    shims::POISON.store(false, Ordering::Relaxed);
    drop(junk);
    let st = rep.stats;
    let counters = Counters {
        events: st.events,
        ticks: st.ticks,
        switches: st.switches,
        alloc_preempts: st.alloc_preempts,
        edges: st.edges,
        edge_preempts: st.edge_preempts,
        stalls: st.stalls,
        stall_ticks: st.stall_ticks,
        steals: st.steals,
        nested_steals: st.nested_steals,
        injected_jobs: st.injected_jobs,
        jobs: st.jobs,
        hash_keys: st.hash_keys,
        futex_waits: st.futex_waits,
        spurious_wakes: st.spurious_wakes,
        clock_reads: st.clock_reads,
        os_threads: st.os_threads,
        poisoned_allocs: shims::POISONED.load(Ordering::Relaxed) - p0,
        caller_panics: 0,
        heap_shifts: (s.heap != 0) as u64,
        priority_runs: s.priority as u64,
    };
    SimOut { outs: outs.into_iter().map(|m| m.into_inner().unwrap()).collect(), counters, interleaving: rep.interleaving, trace: rep.trace }
}

impl Counters {
    pub fn add(&mut self, o: &Counters) {
        let a = serde_json::to_value(&*self).unwrap();
        let b = serde_json::to_value(o).unwrap();
        let mut m = serde_json::Map::new();
        for (k, v) in a.as_object().unwrap() {
            m.insert(k.clone(), (v.as_u64().unwrap() + b[k].as_u64().unwrap()).into());
        }
        *self = serde_json::from_value(serde_json::Value::Object(m)).unwrap();
    }
}

/// on a new thread of a process that has just started
fn fresh<R: Send>(f: impl FnOnce() -> R + Send) -> R {
    crate::statics::restore();
    std::thread::scope(|s| {
        let t = std::thread::Builder::new().stack_size(8 << 20).spawn_scoped(s, f).expect("spawn");
        t.join().expect("join")
    })
}

/// what an operation returns on its own, outside the simulation
pub fn alone(op: &Op, graphs: &[Op], sequential: bool) -> (Out, u64) {
    let mut o = op.clone();
    o.fault = op.fault.map(|_| 0);
    if sequential {
        o.solver.mt = None;
    }
    fresh(|| {
        let mut gs: Vec<Graph> = Vec::new();
        if matches!(op.kind, Kind::Extract | Kind::ExtractVectors | Kind::ExtractShapeVectors | Kind::SExtract | Kind::FExtract | Kind::FSExtract) {
            let mut g = graphs[op.graph].clone();
            if sequential {
                g.solver.mt = None;
            }
            o.graph = 0;
            gs.push(build_graph(&g));
        }
        exec_with_calls(&o, &gs)
    })
}

/// the same from the build that has no threads at all
pub fn alone_without_threads(op: &Op) -> Option<Out> {
    let to = |op: &Op| -> Option<crate::seq::ops::Op> { serde_json::from_str(&serde_json::to_string(op).ok()?).ok() };
    let o = to(op)?;
    let out = fresh(|| crate::seq::ops::exec(&o, &[]));
    serde_json::from_str(&serde_json::to_string(&out).ok()?).ok()
}
