//! Minimisation of a failing scenario: every trial runs in a child process.

use crate::ops::*;
use crate::pool::*;
use crate::scenario::*;
use std::time::{Duration, Instant};

pub struct Shrinker<'a> {
    pub server: &'a mut Server,
    pub class: String,
    pub deadline: Instant,
    pub trials: u64,
    pub msg: String,
}

fn same(class: &str, a: &Answer) -> bool {
    !a.ok && a.class == class && a.class != "killed"
}

type Geo = (Vec<crate::geom::Shape>, Vec<crate::geom::Shape>, Vec<crate::geom::Contour>);

fn geo(o: &Op) -> Geo {
    (o.subj.clone(), o.clip.clone(), o.lines.clone())
}

fn set_geo(sc: &mut Scenario, from: &Geo, to: &Geo, same_edges: bool) {
    for o in sc.graphs.iter_mut().chain(sc.clients.iter_mut().flatten()) {
        if o.points() > 0 && geo(o) == *from {
            o.subj = to.0.clone();
            o.clip = to.1.clone();
            o.lines = to.2.clone();
            if o.exact && !same_edges && crate::props::crossings(o).is_none() {
                o.exact = false;
            }
        }
    }
}

fn counts_points(g: &Geo) -> usize {
    g.0.iter().chain(g.1.iter()).flatten().map(|c| c.len()).sum::<usize>() + g.2.iter().map(|c| c.len()).sum::<usize>()
}

/// all contours of a geometry in one list, with their origin
fn flat(g: &Geo) -> Vec<(u8, usize, Vec<crate::geom::Pt>)> {
    let mut v = vec![];
    for (k, s) in [(0u8, &g.0), (1, &g.1)] {
        for (i, sh) in s.iter().enumerate() {
            for c in sh {
                v.push((k, i, c.clone()));
            }
        }
    }
    for c in &g.2 {
        v.push((2, 0, c.clone()));
    }
    v
}

fn unflat(v: &[(u8, usize, Vec<crate::geom::Pt>)]) -> Geo {
    let mut g: Geo = (vec![], vec![], vec![]);
    let mut last: Option<(u8, usize)> = None;
    for (k, i, c) in v {
        if *k == 2 {
            g.2.push(c.clone());
            continue;
        }
        let t = if *k == 0 { &mut g.0 } else { &mut g.1 };
        if last != Some((*k, *i)) {
            t.push(vec![]);
        }
        last = Some((*k, *i));
        t.last_mut().unwrap().push(c.clone());
    }
    g
}

impl<'a> Shrinker<'a> {
    fn try_it(&mut self, sc: &Scenario) -> bool {
        if Instant::now() > self.deadline {
            return false;
        }
        self.trials += 1;
        let a = self.server.ask(&Ask::Run { sc: Box::new(sc.clone()) }, Duration::from_secs(150));
        if same(&self.class, &a) {
            self.msg = a.msg;
            true
        } else {
            false
        }
    }

    fn keep(&mut self, sc: &mut Scenario, cand: Scenario) -> bool {
        if self.try_it(&cand) {
            *sc = cand;
            true
        } else {
            false
        }
    }

    pub fn run(&mut self, start: &Scenario) -> Scenario {
        let mut sc = start.clone();
        for round in 0..4 {
            let before = serde_json::to_string(&sc).unwrap();
            self.structure(&mut sc);
            if round == 0 {
                self.schedule(&mut sc);
            }
            if sc.prop != "C13" || self.class == "region" || self.class == "pieces" || self.class == "lines" || self.class == "panic" || self.class == "crash" {
                self.geometry(&mut sc);
            }
            self.schedule(&mut sc);
            self.simplify_ops(&mut sc);
            if Instant::now() > self.deadline || serde_json::to_string(&sc).unwrap() == before {
                break;
            }
        }
        self.trace(&mut sc);
        sc
    }

    fn structure(&mut self, sc: &mut Scenario) {
        // whole clients, then single operations
        let mut c = 0;
        while c < sc.clients.len() && sc.clients.len() > 1 {
            let mut k = sc.clone();
            k.clients.remove(c);
            if !self.keep(sc, k) {
                c += 1;
            }
        }
        for c in 0..sc.clients.len() {
            let mut i = 0;
            while i < sc.clients[c].len() && sc.clients[c].len() > 1 {
                let mut k = sc.clone();
                k.clients[c].remove(i);
                if !self.keep(sc, k) {
                    i += 1;
                }
            }
        }
        // unused graphs
        let mut g = 0;
        while g < sc.graphs.len() {
            let used = sc.ops().any(|o| o.graph == g && matches!(o.kind, Kind::Extract | Kind::ExtractVectors | Kind::ExtractShapeVectors | Kind::SExtract | Kind::FExtract | Kind::FSExtract));
            if !used {
                let mut k = sc.clone();
                k.graphs.remove(g);
                for o in k.clients.iter_mut().flatten() {
                    if o.graph > g {
                        o.graph -= 1;
                    }
                }
                if self.keep(sc, k) {
                    continue;
                }
            }
            g += 1;
        }
    }

    fn schedule(&mut self, sc: &mut Scenario) {
        let edits: [fn(&mut Sched); 10] = [
            |s| {
                let t = s.trace.clone();
                *s = Sched { seed: s.seed, hash_seed: s.hash_seed, ..Sched::quiet() };
                s.trace = t.map(|_| vec![]);
            },
            |s| s.poison = 0,
            |s| s.heap = 0,
            |s| s.p_alloc = 0.0,
            |s| s.p_edge = 0.0,
            |s| s.p_stall = 0.0,
            |s| s.p_os = 0.0,
            |s| s.priority = false,
            |s| s.p_steal = 0.0,
            |s| s.workers = 1,
        ];
        for e in edits {
            let mut k = sc.clone();
            e(&mut k.sched);
            if serde_json::to_string(&k.sched).unwrap() != serde_json::to_string(&sc.sched).unwrap() {
                self.keep(sc, k);
            }
        }
        while sc.sched.workers > 1 {
            let mut k = sc.clone();
            k.sched.workers -= 1;
            if !self.keep(sc, k) {
                break;
            }
        }
    }

    fn simplify_ops(&mut self, sc: &mut Scenario) {
        let edits: [fn(&mut Op); 5] = [|o| o.solver.mt = None, |o| o.order = 0, |o| o.min_area = 0, |o| o.simplify = false, |o| o.cw = false];
        for e in edits {
            let mut k = sc.clone();
            for o in k.graphs.iter_mut().chain(k.clients.iter_mut().flatten()) {
                e(o);
            }
            if serde_json::to_string(&k).unwrap() != serde_json::to_string(sc).unwrap() {
                self.keep(sc, k);
            }
        }
    }

    fn geometry(&mut self, sc: &mut Scenario) {
        let mut seen: Vec<Geo> = vec![];
        loop {
            let next = sc.graphs.iter().chain(sc.ops()).filter(|o| o.points() > 0).map(geo).find(|g| !seen.contains(g));
            let Some(g) = next else { break };
            let g = self.one_geometry(sc, g);
            seen.push(g);
            if Instant::now() > self.deadline {
                break;
            }
        }
    }

    fn one_geometry(&mut self, sc: &mut Scenario, mut g: Geo) -> Geo {
        // drop groups of contours
        let mut step = flat(&g).len().next_power_of_two() / 2;
        while step >= 1 {
            let mut i = 0;
            loop {
                let f = flat(&g);
                if i >= f.len() || f.len() < 2 {
                    break;
                }
                let mut n = f.clone();
                n.drain(i..(i + step).min(f.len()));
                if n.is_empty() {
                    break;
                }
                let ng = unflat(&n);
                let mut k = sc.clone();
                // dropping whole contours adds no edge, so no crossing either
                set_geo(&mut k, &g, &ng, true);
                if self.keep(sc, k) {
                    g = ng;
                } else {
                    i += step;
                }
                if Instant::now() > self.deadline {
                    return g;
                }
            }
            step /= 2;
        }
        // drop points
        let n = flat(&g).len();
        for ci in 0..n {
            let mut step = (flat(&g)[ci].2.len().next_power_of_two() / 2).max(1);
            loop {
                let mut i = 0;
                loop {
                    let f = flat(&g);
                    if i >= f[ci].2.len() {
                        break;
                    }
                    let mut nf = f.clone();
                    let e = (i + step).min(nf[ci].2.len());
                    nf[ci].2.drain(i..e);
                    let ng = unflat(&nf);
                    if counts_points(&ng) == 0 {
                        break;
                    }
                    let mut k = sc.clone();
                    set_geo(&mut k, &g, &ng, false);
                    if self.keep(sc, k) {
                        g = ng;
                    } else {
                        i += step;
                    }
                    if Instant::now() > self.deadline {
                        return g;
                    }
                }
                if step == 1 {
                    break;
                }
                step /= 2;
            }
        }
        // smaller coordinates
        for _ in 0..3 {
            let f = flat(&g);
            let min = |k: usize| f.iter().flat_map(|c| c.2.iter()).map(|p| p[k]).min().unwrap_or(0);
            let m = [min(0) as i64, min(1) as i64];
            let mut d = [0i64; 2];
            for k in 0..2 {
                for p in f.iter().flat_map(|c| c.2.iter()) {
                    d[k] = crate::workload::gcd(d[k], (p[k] as i64 - m[k]).abs());
                }
            }
            let dd = crate::workload::gcd(d[0], d[1]).max(1);
            let edits: [Box<dyn Fn(i64, usize) -> i64>; 4] = [Box::new(|v, k| v - m[k]), Box::new(|v, k| (v - m[k]) / dd), Box::new(|v, k| m[k] + (v - m[k]) / 2), Box::new(|v, k| (v - m[k]) / 16)];
            let mut any = false;
            for e in edits {
                let mut nf = f.clone();
                for p in nf.iter_mut().flat_map(|c| c.2.iter_mut()) {
                    p[0] = e(p[0] as i64, 0) as i32;
                    p[1] = e(p[1] as i64, 1) as i32;
                }
                let ng = unflat(&nf);
                if ng == g {
                    continue;
                }
                let mut k = sc.clone();
                let was = k.ops().filter(|o| o.exact).count();
                set_geo(&mut k, &g, &ng, false);
                if k.ops().filter(|o| o.exact).count() == was && self.keep(sc, k) {
                    g = ng;
                    any = true;
                    break;
                }
            }
            if !any {
                break;
            }
        }
        g
    }

    /// make the schedule explicit and drop scheduling decisions that do not matter
    fn trace(&mut self, sc: &mut Scenario) {
        if self.class == "crash" || self.class == "hang" || self.class == "stuck" {
            return;
        }
        let a = self.server.ask(&Ask::Run { sc: Box::new(sc.clone()) }, Duration::from_secs(150));
        if !same(&self.class, &a) || a.trace.len() > 200_000 {
            return;
        }
        let mut k = sc.clone();
        k.sched.trace = Some(vec![]);
        if self.keep(sc, k) {
            return;
        }
        let mut k = sc.clone();
        k.sched.trace = Some(a.trace);
        if !self.keep(sc, k) {
            return;
        }
        let mut step = (sc.sched.trace.as_ref().unwrap().len().next_power_of_two() / 2).max(1);
        loop {
            let mut i = 0;
            while i < sc.sched.trace.as_ref().unwrap().len() {
                let mut k = sc.clone();
                let t = k.sched.trace.as_mut().unwrap();
                let e = (i + step).min(t.len());
                t.drain(i..e);
                if !self.keep(sc, k) {
                    i += step;
                }
                if Instant::now() > self.deadline {
                    return;
                }
            }
            if step == 1 {
                break;
            }
            step /= 2;
        }
    }
}
