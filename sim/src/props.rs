//! For every property: what is simulated and how the outcome is judged.

use crate::geom::*;
use crate::mesh_oracle as mesh;
use crate::ops::*;
use crate::oracle::*;
use crate::scenario::*;
use crate::workload as gen;
use crate::workload::{Size, Work};
use simkern::Rng;

pub const CLAIMED: [&str; 20] = ["C01", "C02", "C03", "C04", "C05", "C06", "C07", "C08", "C09", "C10", "C11", "C12", "C13", "C14", "C15", "C16", "C17", "C18", "C19", "C20"];

#[derive(Clone, Debug)]
pub struct Viol {
    /// what kind of difference it is, stable under minimisation
    pub class: String,
    pub msg: String,
}

fn v<T>(class: &str, msg: String) -> Result<T, Viol> {
    Err(Viol { class: class.into(), msg })
}

#[derive(Clone, Debug, Default)]
pub struct Judged {
    /// oracle evaluations (operation results judged)
    pub evals: u64,
    pub nontrivial: u64,
    pub exact: u64,
}

pub struct Ran {
    pub known: Vec<String>,
    pub verdict: Result<Judged, Viol>,
    pub counters: Counters,
    pub interleaving: u64,
    pub trace: Vec<(u64, u32)>,
    pub out_hash: u64,
}

// ------------------------------------------------------------------ configuration

fn strategy(r: &mut Rng) -> u8 {
    *r.pick(&[0u8, 1, 2, 3, 0, 1, 2])
}

/// `precise`: only the precision whose snapping distance the oracles bound tightly
pub fn cfg(r: &mut Rng, exact: bool) -> SolverCfg {
    let presets = [(0usize, 1usize), (0, 0), (1, 1), (0, 2), (2, 2), (2, 3)];
    let p = if exact { *r.pick(&presets) } else if r.chance(0.7) { presets[0] } else { presets[1 + r.below(2) as usize] };
    let mt = match r.below(6) {
        0 | 1 => None,
        2 => Some(1),
        3 => Some(2 + r.below(6) as usize),
        4 => Some(16 + r.below(100) as usize),
        _ => Some(32768),
    };
    SolverCfg { strategy: strategy(r), start: p.0, prog: p.1, mt }
}

fn mt_cfg(r: &mut Rng, n: usize) -> SolverCfg {
    let mut c = cfg(r, true);
    c.mt = Some(match r.below(5) {
        0 | 1 => 1 + r.below(4) as usize,
        2 => 1 + r.below(64) as usize,
        3 => 1 + r.below(2 * n as u64 + 2) as usize,
        _ => {
            if n > 32_000 {
                32768
            } else {
                1 + n / 3
            }
        }
    });
    c
}

pub fn put(op: &mut Op, w: Work) {
    op.subj = w.subj;
    op.clip = w.clip;
    op.lines = w.lines;
    op.closed = w.closed;
    op.exact = w.exact;
}

fn has_lines(k: Kind) -> bool {
    matches!(k, Kind::Clip | Kind::Slice | Kind::FClip | Kind::FSlice)
}

fn style_params(r: &mut Rng, op: &mut Op) {
    op.rule = r.below(7) as u8;
    op.fill = r.below(4) as u8;
    op.cw = r.chance(0.4);
    op.simplify = r.chance(0.6);
    op.invert = r.chance(0.5);
    op.boundary = r.chance(0.5);
    if r.chance(0.15) {
        op.min_area = r.below(40);
    }
}

fn overlay_form(r: &mut Rng) -> u8 {
    *r.pick(&[0u8, 1, 2, 5, 6, 7, 8, 9])
}

/// an integer operation of the given kind on the given input
fn int_op(r: &mut Rng, kind: Kind, w: Work) -> Op {
    let mut op = Op::new(kind);
    put(&mut op, w);
    style_params(r, &mut op);
    op.solver = cfg(r, op.exact);
    match kind {
        Kind::Overlay => op.form = overlay_form(r),
        Kind::Clip | Kind::Slice => {
            op.form = r.below(2) as u8;
            op.order = r.below(5)
        }
        _ => op.form = *r.pick(&[0, 1, 2, 3, 4, 9]),
    }
    op
}

const INT_KINDS: [Kind; 8] = [Kind::Overlay, Kind::Overlay, Kind::Overlay, Kind::Clip, Kind::Slice, Kind::Vectors, Kind::ShapeVectors, Kind::Overlay];
const F_KINDS: [Kind; 4] = [Kind::FOverlay, Kind::FSimplify, Kind::FClip, Kind::FSlice];

fn any_work(r: &mut Rng, size: Size, lines: bool) -> Work {
    match r.below(10) {
        0..=5 => gen::exact(r, size, lines),
        6..=8 => gen::general(r, size, lines),
        _ => gen::nasty(r, lines),
    }
}

/// float operations: coordinates small enough to be exact in the adapter
fn float_work(r: &mut Rng, size: Size, lines: bool) -> Work {
    let mut w = gen::exact(r, size, lines);
    let m = w.subj.iter().chain(w.clip.iter()).flatten().chain(w.lines.iter()).flatten().flat_map(|p| [p[0].unsigned_abs(), p[1].unsigned_abs()]).max().unwrap_or(0);
    if m >= 1 << 20 {
        // translate into range; if the extent is too large, take a small workload
        let f = |v: &Vec<i32>| (*v.iter().min().unwrap() as i64 + *v.iter().max().unwrap() as i64) / 2;
        let xs: Vec<i32> = w.subj.iter().chain(w.clip.iter()).flatten().chain(w.lines.iter()).flatten().map(|p| p[0]).collect();
        let ys: Vec<i32> = w.subj.iter().chain(w.clip.iter()).flatten().chain(w.lines.iter()).flatten().map(|p| p[1]).collect();
        let (cx, cy) = (f(&xs), f(&ys));
        let ext = xs.iter().map(|x| (*x as i64 - cx).abs()).chain(ys.iter().map(|y| (*y as i64 - cy).abs())).max().unwrap();
        if ext >= 1 << 20 {
            return float_work(r, Size::Tiny, lines);
        }
        for c in w.subj.iter_mut().chain(w.clip.iter_mut()).flatten().chain(w.lines.iter_mut()) {
            for p in c.iter_mut() {
                p[0] = (p[0] as i64 - cx) as i32;
                p[1] = (p[1] as i64 - cy) as i32;
            }
        }
    }
    w
}

fn float_op(r: &mut Rng, kind: Kind, w: Work) -> Op {
    let mut op = Op::new(kind);
    put(&mut op, w);
    style_params(r, &mut op);
    op.min_area = 0;
    op.solver = cfg(r, true);
    op.closed = false;
    op.f32 = r.chance(0.4);
    op.fexp = if op.f32 { r.range(-8, 8) as i32 } else { r.range(-30, 30) as i32 };
    if r.chance(0.2) {
        op.fexp = 0;
    }
    op.form = (r.below(5) + 10 * r.below(9)) as u8;
    if r.chance(0.2) {
        op.form += 100;
    }
    op
}

/// coordinates that are no multiples of the adapter's resolution, anywhere on the plane
/// (rounding turns edges on one line into bundles of slivers, which take long to settle: for small inputs only)
const ANYWHERE_MAX: usize = 160;

fn anywhere(r: &mut Rng, op: &mut Op) {
    op.exact = false;
    op.solver = cfg(r, false);
    op.fmin = 0.0;
    op.fexp = 0;
    let m = extent(op) as f64;
    let s = match r.below(5) {
        0 => 0.1,
        1 => 1.0 / 3.0,
        2 => 10f64.powi(r.range(-9, 9) as i32),
        _ => (r.f64() + 0.5) * 2f64.powi(r.range(-20, 20) as i32),
    };
    let far = if op.f32 { 2.0 } else { *r.pick(&[1.0, 100.0, 100000.0]) };
    let o = if r.chance(0.3) { [0.0, 0.0] } else { [(r.f64() - 0.5) * m * s * far, (r.f64() - 0.5) * m * s * far] };
    op.aff = [s, o[0], o[1]];
}

/// empty and degenerate paths, which change nothing
fn hollow(r: &mut Rng, op: &mut Op) {
    let n = 1 + r.below(3);
    for _ in 0..n {
        let some = op.subj.iter().chain(op.clip.iter()).flatten().flatten().next().copied();
        let c: Contour = match (r.below(3), some) {
            (0, Some(p)) => vec![p; 1 + r.below(3) as usize],
            _ => vec![],
        };
        let t = match r.below(3) {
            0 if has_lines(op.kind) => {
                let i = r.below(op.lines.len() as u64 + 1) as usize;
                op.lines.insert(i, c);
                continue;
            }
            1 if !has_lines(op.kind) && op.kind != Kind::FSimplify => &mut op.clip,
            _ => &mut op.subj,
        };
        if t.is_empty() || r.chance(0.3) {
            let i = r.below(t.len() as u64 + 1) as usize;
            t.insert(i, if r.chance(0.5) { vec![] } else { vec![c] });
        } else {
            let k = r.below(t.len() as u64) as usize;
            let i = r.below(t[k].len() as u64 + 1) as usize;
            t[k].insert(i, c);
        }
    }
}

/// many copies of a contour on top of each other: large winding numbers
fn stack(r: &mut Rng, op: &mut Op) {
    let t = if r.chance(0.5) { &mut op.subj } else { &mut op.clip };
    let cs: Vec<Contour> = t.iter().flatten().filter(|c| c.len() > 2).cloned().collect();
    if cs.is_empty() {
        return;
    }
    let c = r.pick(&cs).clone();
    let n = *r.pick(&[3u64, 30, 127, 128, 129, 255, 256, 257, 300]);
    for _ in 0..n {
        t.push(vec![c.clone()]);
    }
}

/// an operation of any kind
fn any_op(r: &mut Rng, size: Size) -> Op {
    match r.below(12) {
        0 | 1 => {
            let k = *r.pick(&F_KINDS);
            let w = float_work(r, size, has_lines(k));
            let mut op = float_op(r, k, w);
            if r.chance(0.2) && op.points() <= ANYWHERE_MAX {
                anywhere(r, &mut op);
            }
            if r.chance(0.15) {
                hollow(r, &mut op);
            }
            op
        }
        2 => mesh::stroke_op(r),
        3 => mesh::outline_op(r),
        _ => {
            let k = *r.pick(&INT_KINDS);
            let w = any_work(r, size, has_lines(k));
            let mut op = int_op(r, k, w);
            if r.chance(0.1) {
                default_form(r, &mut op);
            }
            op
        }
    }
}

/// use the one-shot call with its default parameters
fn default_form(r: &mut Rng, op: &mut Op) {
    match op.kind {
        Kind::Overlay => {
            op.form = 3;
            op.cw = false;
            op.simplify = true;
            op.min_area = 0;
        }
        Kind::Clip => op.form = 2,
        Kind::Slice => {
            op.form = 2;
            op.cw = false;
            op.min_area = 0;
        }
        _ => {}
    }
    if matches!(op.kind, Kind::Clip | Kind::Slice) && !op.closed && r.chance(0.7) {
        op.form = 3 + r.below(4) as u8;
    }
}

/// the same kind of operation with other parameters, sometimes on another input: callers in lockstep use the same
/// parts of the library at the same time with different values
fn sibling(r: &mut Rng, base: &Op) -> Op {
    let mut o = base.clone();
    match base.kind {
        Kind::Stroke | Kind::Outline => {
            if r.chance(0.3) {
                let n = if base.kind == Kind::Stroke { mesh::stroke_op(r) } else { mesh::outline_op(r) };
                return n;
            }
            mesh::join_style(r, &mut o);
            if base.kind == Kind::Stroke {
                for i in [4usize, 6] {
                    o.style[i] = r.below(8) as f64;
                    o.style[i + 1] = *r.pick(&[0.05, 0.2, 0.7]);
                }
            }
        }
        _ => {
            if base.aff[0] == 0.0 && base.fault.is_none() && r.chance(0.3) {
                let mut w = Op::new(base.kind);
                let s = gen::size(r);
                let k = base.kind;
                put(&mut w, if F_KINDS.contains(&k) { float_work(r, s, has_lines(k)) } else { any_work(r, s, has_lines(k)) });
                o.subj = w.subj;
                o.clip = w.clip;
                o.lines = w.lines;
                o.exact = w.exact;
            }
            let (m, simp) = (o.min_area, o.simplify);
            style_params(r, &mut o);
            if F_KINDS.contains(&base.kind) {
                o.min_area = m;
                o.simplify = simp;
            }
            o.solver = cfg(r, o.exact);
        }
    }
    o
}

fn mid_size(r: &mut Rng) -> Size {
    gen::size(r)
}

/// mostly small, sometimes large enough for parallel sorting and strategy thresholds
fn var_size(r: &mut Rng, p_large: f64) -> Size {
    if r.chance(p_large) {
        Size::Large(gen::large_n(r))
    } else {
        gen::size(r)
    }
}

fn is_large(s: Size) -> bool {
    matches!(s, Size::Large(_))
}

// ------------------------------------------------------------------ generation

pub fn generate(prop: &str, seed: u64) -> Scenario {
    let mut rng = Rng::new(simkern::mix2(seed, prop.bytes().fold(7, |a, b| a * 31 + b as u64)));
    let r = &mut rng;
    let mut sc = Scenario { prop: prop.into(), graphs: vec![], clients: vec![], sched: Sched::random(r, prop == "C01" || prop == "C05") };
    match prop {
        "C01" => {
            let n_clients = if r.chance(0.25) { 2 } else { 1 };
            for _ in 0..n_clients {
                let mut ops = vec![];
                for _ in 0..1 + r.below(2) {
                    let size = match r.below(10) {
                        0..=3 => gen::size(r),
                        4..=8 => Size::Large(match r.below(20) {
                            0..=11 => r.range(500, 3000) as usize,
                            12..=17 => r.range(3000, 9000) as usize,
                            18 => r.range(9000, 18_000) as usize,
                            _ => r.range(32_700, 36_000) as usize,
                        }),
                        _ => Size::Medium,
                    };
                    let mut op = if !is_large(size) && r.chance(0.15) {
                        any_op(r, size)
                    } else {
                        let k = *r.pick(&INT_KINDS);
                        let w = if is_large(size) {
                            if r.chance(0.3) {
                                gen::general(r, size_cap(size, 3000), has_lines(k))
                            } else {
                                gen::exact(r, size, has_lines(k))
                            }
                        } else {
                            any_work(r, size, has_lines(k))
                        };
                        int_op(r, k, w)
                    };
                    op.solver = mt_cfg(r, op.points());
                    ops.push(op);
                }
                sc.clients.push(ops);
            }
        }
        "C02" => {
            for _ in 0..1 + r.below(3) {
                let mut ops = vec![];
                for _ in 0..1 + r.below(2) {
                    let size = var_size(r, 0.03);
                    let w = if is_large(size) || r.chance(0.75) { gen::exact(r, size, false) } else { gen::general(r, size, false) };
                    let mut op = int_op(r, Kind::Overlay, w);
                    op.min_area = 0;
                    if !is_large(size) && r.chance(0.03) {
                        stack(r, &mut op);
                    }
                    if r.chance(0.2) {
                        default_form(r, &mut op);
                    } else if r.chance(0.1) {
                        op.form = 4;
                        op.rule = 0;
                        op.order = r.below(4);
                    }
                    ops.push(op);
                }
                sc.clients.push(ops);
            }
        }
        "C03" => {
            let large = r.chance(0.12);
            let size = if large { Size::Large(gen::large_n(r)) } else { gen::size(r) };
            let k = if large { *r.pick(&[Kind::Overlay, Kind::Overlay, Kind::Clip]) } else { *r.pick(&[Kind::Overlay, Kind::Overlay, Kind::Overlay, Kind::Clip, Kind::Slice]) };
            let w = if large || r.chance(0.8) { gen::exact(r, size, has_lines(k)) } else { gen::general(r, size, has_lines(k)) };
            let mut base = int_op(r, k, w);
            base.min_area = 0;
            let mut cfgs: Vec<SolverCfg> = vec![];
            if large {
                for s in [3u8, 0, 1, 2] {
                    if s == 3 || (r.chance(0.4) && !(s == 0 && base.points() > 9000)) {
                        let mut c = cfg(r, base.exact);
                        c.strategy = s;
                        cfgs.push(c);
                    }
                }
            } else {
                for s in [0u8, 1, 2, 3] {
                    let mut c = cfg(r, base.exact);
                    c.strategy = s;
                    cfgs.push(c);
                }
                for _ in 0..r.below(3) {
                    cfgs.push(cfg(r, base.exact));
                }
            }
            let n = 1 + r.below(3) as usize;
            sc.clients = vec![vec![]; n];
            for (i, c) in cfgs.into_iter().enumerate() {
                let mut op = base.clone();
                op.solver = c;
                sc.clients[i % n].push(op);
            }
        }
        "C04" => {
            let ng = 1 + r.below(2) as usize;
            for _ in 0..ng {
                let kind = *r.pick(&[Kind::Extract, Kind::Extract, Kind::Extract, Kind::SExtract, Kind::FExtract, Kind::FSExtract]);
                let size = var_size(r, 0.02);
                let lines = matches!(kind, Kind::SExtract | Kind::FSExtract);
                let flt = matches!(kind, Kind::FExtract | Kind::FSExtract);
                let ms = mid_size(r);
                let w = if flt { float_work(r, ms, lines) } else { any_work(r, size_cap(size, 6000), lines) };
                let mut g = Op::new(kind);
                put(&mut g, w);
                g.fill = r.below(4) as u8;
                g.solver = cfg(r, true);
                g.form = r.below(5) as u8;
                if flt {
                    g.closed = false;
                    g.fexp = r.range(-10, 10) as i32;
                }
                sc.graphs.push(g);
            }
            for _ in 0..2 + r.below(4) {
                let mut ops = vec![];
                for _ in 0..1 + r.below(4) {
                    let gi = r.below(ng as u64) as usize;
                    ops.push(extract_op(r, &sc.graphs[gi], gi));
                }
                sc.clients.push(ops);
            }
        }
        "C05" if r.chance(0.35) => {
            let size = gen::size(r);
            let mut base = match r.below(5) {
                0 | 1 => mesh::stroke_op(r),
                2 => mesh::outline_op(r),
                _ => any_op(r, size),
            };
            let regular = matches!(base.kind, Kind::Stroke | Kind::Outline) && r.chance(0.6);
            if regular {
                if base.closed && r.chance(0.7) {
                    base.closed = false;
                }
                mesh::regular(r, &mut base);
                // small inputs: schedules count, so let them be busy
                if r.chance(0.7) {
                    sc.sched.p_edge = 10f64.powf(-0.7 - 1.5 * r.f64());
                    sc.sched.p_stall = *r.pick(&[0.0, 0.2, 0.8]);
                }
            }
            for _ in 0..2 + r.below(3) {
                let mut ops = vec![];
                for _ in 0..1 + r.below(4) {
                    let mut op = if regular { base.clone() } else { sibling(r, &base) };
                    if regular {
                        mesh::regular(r, &mut op);
                    }
                    if op.uses_solver() && r.chance(0.5) {
                        op.solver = mt_cfg(r, op.points());
                    }
                    ops.push(op);
                }
                sc.clients.push(ops);
            }
        }
        "C05" => {
            for _ in 0..2 + r.below(4) {
                let mut ops = vec![];
                for _ in 0..1 + r.below(3) {
                    let size = if r.chance(0.15) { Size::Large(r.range(500, 5000) as usize) } else { gen::size(r) };
                    let mut op = if is_large(size) {
                        let k = *r.pick(&INT_KINDS);
                        let w = gen::exact(r, size, has_lines(k));
                        int_op(r, k, w)
                    } else {
                        any_op(r, size)
                    };
                    if op.uses_solver() && r.chance(0.7) {
                        op.solver = mt_cfg(r, op.points());
                    }
                    ops.push(op);
                }
                sc.clients.push(ops);
            }
        }
        "C06" => {
            let mut ops = vec![];
            for _ in 0..1 + r.below(3) {
                let s = var_size(r, 0.05);
                let s = size_cap(s, 6000);
                if is_large(s) {
                    let k = *r.pick(&INT_KINDS);
                    let w = gen::exact(r, s, has_lines(k));
                    ops.push(int_op(r, k, w));
                } else {
                    ops.push(any_op(r, s));
                }
            }
            let n = 2 + r.below(2) as usize;
            for i in 0..n {
                let mut o = ops.clone();
                if i > 0 && r.chance(0.5) {
                    o.reverse();
                }
                sc.clients.push(o);
            }
        }
        "C07" => {
            let ng = r.below(2) as usize;
            for _ in 0..ng {
                let mut g = Op::new(Kind::Extract);
                let ms = mid_size(r);
                put(&mut g, any_work(r, ms, false));
                g.fill = r.below(4) as u8;
                g.solver = cfg(r, true);
                sc.graphs.push(g);
            }
            let n = 2 + r.below(3);
            for c in 0..n {
                let mut ops = vec![];
                for i in 0..1 + r.below(3) {
                    if ng > 0 && r.chance(0.3) {
                        ops.push(extract_op(r, &sc.graphs[0], 0));
                    } else if (c == 0 && i == 0) || r.chance(0.4) {
                        ops.push(faulty_op(r));
                    } else {
                        let s = gen::size(r);
                        let mut op = any_op(r, s);
                        if op.uses_solver() && r.chance(0.5) {
                            op.solver.mt = Some(1 + r.below(8) as usize);
                        }
                        ops.push(op);
                    }
                }
                // after a failure the same thread goes on
                if r.chance(0.7) {
                    let s = gen::size(r);
                    ops.push(any_op(r, s));
                }
                sc.clients.push(ops);
            }
        }
        "C08" => {
            for _ in 0..1 + r.below(3) {
                let mut ops = vec![];
                for _ in 0..1 + r.below(2) {
                    let k = *r.pick(&[Kind::Overlay, Kind::Overlay, Kind::Overlay, Kind::Slice]);
                    let size = var_size(r, 0.02);
                    let w = if is_large(size) {
                        gen::exact(r, size, has_lines(k))
                    } else if r.chance(0.3) {
                        gen::scaled(r, size, has_lines(k))
                    } else {
                        any_work(r, size, has_lines(k))
                    };
                    let mut op = int_op(r, k, w);
                    if r.chance(0.3) {
                        op.min_area = *r.pick(&[1u64, 2, 5, 20, 100, 1000, 1_000_000]);
                        if r.chance(0.6) {
                            // the size of something which is there
                            let cs: Vec<&Contour> = op.subj.iter().chain(&op.clip).flatten().collect();
                            if !cs.is_empty() {
                                let c = *r.pick(&cs);
                                op.min_area = (area_units(c) as u64 + r.below(2)).max(1);
                            }
                        }
                    }
                    if r.chance(0.1) {
                        default_form(r, &mut op);
                    }
                    ops.push(op);
                }
                sc.clients.push(ops);
            }
        }
        "C09" => {
            let n = 1 + r.below(3) as usize;
            sc.clients = vec![vec![]; n];
            for g in 0..1 + r.below(3) {
                if r.chance(0.7) {
                    let size = var_size(r, 0.02);
                    let w = gen::exact(r, size, true);
                    let mut op = int_op(r, Kind::Clip, w);
                    op.form = r.below(3) as u8;
                    if r.chance(0.3) && !op.closed {
                        op.form = 3 + r.below(4) as u8;
                    }
                    sc.clients[g as usize % n].push(op);
                } else {
                    // the four clip rules of one input
                    let ms = mid_size(r);
                    let w = any_work(r, ms, true);
                    let base = int_op(r, Kind::Clip, w);
                    for i in 0..4 {
                        let mut op = base.clone();
                        op.invert = i & 1 == 1;
                        op.boundary = i & 2 == 2;
                        op.group = g as u32 + 1;
                        sc.clients[(g as usize + i) % n].push(op);
                    }
                }
            }
        }
        "C10" => {
            let n = 1 + r.below(3) as usize;
            sc.clients = vec![vec![]; n];
            for g in 0..1 + r.below(3) {
                let size = var_size(r, 0.015);
                let w = if is_large(size) || r.chance(0.75) { gen::exact(r, size_cap(size, 5000), true) } else { gen::general(r, size, true) };
                let mut op = int_op(r, Kind::Slice, w);
                op.min_area = 0;
                op.form = r.below(2) as u8;
                if r.chance(0.25) {
                    default_form(r, &mut op);
                }
                op.group = g as u32 + 1;
                if r.chance(0.4) && op.form < 2 {
                    let mut o2 = op.clone();
                    o2.min_area = *r.pick(&[1u64, 2, 3, 10, 50, 200, 5000]);
                    sc.clients[(g as usize + 1) % n].push(o2);
                }
                sc.clients[g as usize % n].push(op);
            }
        }
        "C11" => {
            let n = 1 + r.below(3) as usize;
            sc.clients = vec![vec![]; n];
            for g in 0..1 + r.below(2) {
                let k = *r.pick(&F_KINDS);
                let ms = mid_size(r);
                let mut w = float_work(r, ms, has_lines(k));
                if k == Kind::FSimplify {
                    w.clip = vec![];
                }
                if r.chance(0.35) {
                    // single contours: more containers apply
                    w.subj.truncate(1);
                    w.clip.truncate(1);
                    w.lines.truncate(1);
                    w.subj.iter_mut().chain(w.clip.iter_mut()).for_each(|s| s.truncate(1));
                }
                let mut base = float_op(r, k, w);
                if r.chance(0.3) && matches!(k, Kind::FOverlay | Kind::FSimplify | Kind::FSlice) {
                    let s = 2f64.powi(2 * base.fexp);
                    base.fmin = *r.pick(&[0.75, 1.25, 2.75, 10.25, 30.75, 100.25]) * s * *r.pick(&[1.0, 1.0, 4.0, 16.0]);
                }
                if r.chance(0.3) {
                    if r.chance(0.4) && base.points() < 300 {
                        let w = gen::general(r, ms, has_lines(k));
                        let mut g = base.clone();
                        put(&mut g, w);
                        g.closed = false;
                        if k == Kind::FSimplify {
                            g.clip = vec![];
                        }
                        if g.points() <= ANYWHERE_MAX {
                            base = g;
                        }
                    }
                    if base.points() <= ANYWHERE_MAX {
                        anywhere(r, &mut base);
                    }
                }
                if r.chance(0.15) {
                    hollow(r, &mut base);
                }
                for i in 0..2 + r.below(4) {
                    let mut op = base.clone();
                    op.form = (base.form / 100) * 100 + (10 * r.below(10) + r.below(5)) as u8;
                    if op.form / 10 % 10 == 9 && op.f32 {
                        op.form -= 90;
                    }
                    op.group = g as u32 + 1;
                    if r.chance(0.5) {
                        op.solver.mt = base.solver.mt.map(|_| 1 + r.below(10) as usize);
                    }
                    sc.clients[(g as usize + i as usize) % n].push(op);
                }
            }
        }
        "C12" => {
            let n = 1 + r.below(3) as usize;
            for _ in 0..n {
                let mut ops = vec![];
                for _ in 0..1 + r.below(2) {
                    ops.push(if r.chance(0.5) { mesh::stroke_op(r) } else { mesh::outline_op(r) });
                }
                sc.clients.push(ops);
            }
        }
        "C13" => {
            let n = 1 + r.below(3) as usize;
            sc.clients = vec![vec![]; n];
            let k = *r.pick(&[Kind::Overlay, Kind::Overlay, Kind::Overlay, Kind::Clip, Kind::Slice]);
            let size = size_cap(var_size(r, 0.01), 5000);
            let ex = r.chance(0.8);
            let w = if is_large(size) || ex { gen::exact(r, size, has_lines(k)) } else { gen::general(r, size, has_lines(k)) };
            let mut base = int_op(r, k, w);
            base.min_area = 0;
            base.group = 1;
            let m = 3 + r.below(4) as usize;
            for i in 0..m {
                let mut op = base.clone();
                match k {
                    Kind::Overlay => {
                        op.form = overlay_form(r);
                        if r.chance(0.5) {
                            op.order = r.next() | 1 << 40;
                        }
                    }
                    _ => {
                        op.form = r.below(2) as u8;
                        op.order = r.below(15);
                    }
                }
                if i > 0 && r.chance(0.5) {
                    op.group = 2 + i as u32;
                    variant(r, &mut op);
                }
                sc.clients[i % n].push(op);
            }
        }
        "C14" => {
            for _ in 0..1 + r.below(3) {
                let mut ops = vec![];
                for _ in 0..1 + r.below(3) {
                    let size = if r.chance(0.01) { Size::Large(r.range(300, 6000) as usize) } else { gen::size(r) };
                    let mut op = if r.chance(0.2) && !is_large(size) {
                        any_op(r, size)
                    } else {
                        let k = *r.pick(&[Kind::Overlay, Kind::Overlay, Kind::Clip, Kind::Slice, Kind::Vectors, Kind::ShapeVectors, Kind::Slice]);
                        let w = if is_large(size) {
                            if r.chance(0.5) {
                                gen::general(r, size, has_lines(k))
                            } else {
                                gen::exact(r, size, has_lines(k))
                            }
                        } else {
                            match r.below(3) {
                                0 => gen::nasty(r, has_lines(k)),
                                1 => gen::general(r, size, has_lines(k)),
                                _ => gen::exact(r, size, has_lines(k)),
                            }
                        };
                        let mut op = int_op(r, k, w);
                        let s = op.solver.strategy;
                        op.solver = cfg(r, true);
                        op.solver.strategy = s;
                        if r.chance(0.1) {
                            default_form(r, &mut op);
                        } else if r.chance(0.05) && k == Kind::Overlay {
                            op.form = 4;
                        }
                        op
                    };
                    if r.chance(0.2) && op.is_float() && !matches!(op.kind, Kind::Stroke | Kind::Outline) {
                        // arbitrary floats
                        let gs = gen::size(r);
                        let w = if r.chance(0.5) { gen::nasty(r, has_lines(op.kind)) } else { gen::general(r, gs, has_lines(op.kind)) };
                        put(&mut op, w);
                        op.closed = false;
                        op.fexp = r.range(-60, 60) as i32;
                    }
                    ops.push(op);
                }
                sc.clients.push(ops);
            }
        }
        "C15" => {
            for _ in 0..1 + r.below(2) {
                let size = size_cap(var_size(r, 0.02), 5000);
                let ex = r.chance(0.75);
                let w = if is_large(size) || ex { gen::exact(r, size, false) } else { any_work(r, size, false) };
                let mut base = int_op(r, Kind::Vectors, w);
                base.min_area = 0;
                base.simplify = false;
                base.cw = false;
                let g = sc.clients.len() as u32 * 10 + 1;
                let mut ops = vec![base.clone()];
                for i in 0..1 + r.below(2) as u32 {
                    let mut s = base.clone();
                    s.kind = Kind::ShapeVectors;
                    s.rule = r.below(7) as u8;
                    s.group = g + i;
                    let mut o = s.clone();
                    o.kind = Kind::Overlay;
                    o.form = overlay_form(r);
                    if r.chance(0.5) {
                        ops.push(s);
                        ops.push(o);
                    } else {
                        ops.push(o);
                        ops.push(s);
                    }
                }
                sc.clients.push(ops);
            }
        }
        "C16" => {
            let size = size_cap(var_size(r, 0.02), 5000);
            let w = any_work(r, size, false);
            let mut g = Op::new(Kind::Extract);
            put(&mut g, w);
            g.fill = r.below(4) as u8;
            g.solver = cfg(r, true);
            g.form = r.below(5) as u8;
            let n = 1 + r.below(3) as usize;
            sc.clients = vec![vec![]; n];
            for rule in 0..7u8 {
                let mut op = g.clone();
                op.subj = vec![];
                op.clip = vec![];
                op.rule = rule;
                op.form = 0;
                op.cw = r.chance(0.3);
                op.simplify = r.chance(0.7);
                op.group = 1;
                sc.clients[r.below(n as u64) as usize].push(op);
            }
            if r.chance(0.4) {
                // the same from the one-pass operation
                for rule in 0..7u8 {
                    let mut op = g.clone();
                    op.kind = Kind::Overlay;
                    op.rule = rule;
                    op.form = 0;
                    op.group = 2;
                    op.cw = r.chance(0.3);
                    sc.clients[r.below(n as u64) as usize].push(op);
                }
            }
            sc.clients.retain(|c| !c.is_empty());
            sc.graphs.push(g);
        }
        "C17" => {
            for _ in 0..1 + r.below(3) {
                let mut ops = vec![];
                for _ in 0..1 + r.below(3) {
                    if r.chance(0.3) {
                        // what another operation returned
                        let size = gen::size(r);
                        let k = if r.chance(0.7) { Kind::Overlay } else { Kind::Slice };
                        let w = any_work(r, size, k == Kind::Slice);
                        let mut op = int_op(r, k, w);
                        op.min_area = 0;
                        ops.push(op);
                        let mut d = Op::new(Kind::Decompose);
                        d.feed = 1;
                        ops.push(d);
                    } else {
                        let mut d = Op::new(Kind::Decompose);
                        let n = 1 + r.below(4);
                        d.subj = (0..n).map(|_| vec![gen::knotted(r)]).collect();
                        ops.push(d);
                    }
                }
                sc.clients.push(ops);
            }
        }
        "C18" => {
            for _ in 0..1 + r.below(3) {
                let size = size_cap(var_size(r, 0.01), 3000);
                let base = if is_large(size) || r.chance(0.75) { gen::exact(r, size, true) } else { gen::general(r, size, true) };
                let mut ops: Vec<Op> = vec![];
                let n = 2 + r.below(5) as usize;
                while ops.len() < n {
                    let first = ops.is_empty();
                    let k = if first { *r.pick(&[Kind::Overlay, Kind::Overlay, Kind::Slice]) } else { *r.pick(&[Kind::Overlay, Kind::Overlay, Kind::Overlay, Kind::Overlay, Kind::Slice, Kind::Clip, Kind::Vectors]) };
                    let mut op = int_op(r, k, base.clone());
                    op.min_area = 0;
                    if !has_lines(k) {
                        op.lines = vec![];
                    } else {
                        op.clip = vec![];
                    }
                    if let Some(last) = ops.last().cloned() {
                        if !matches!(last.kind, Kind::Overlay | Kind::Slice) {
                            break;
                        }
                        if r.chance(0.3) && last.kind == Kind::Overlay && last.simplify {
                            // a simplified result is simple already
                            op = Op::new(Kind::Overlay);
                            op.form = *r.pick(&[0u8, 1, 2, 5, 6, 7, 8, 9, 4]);
                            op.fill = if last.cw { *r.pick(&[0u8, 1, 3]) } else { *r.pick(&[0u8, 1, 2]) };
                            op.rule = *r.pick(&[0u8, 0, 3, 4, 6]);
                            if op.form == 4 {
                                op.rule = 0;
                            }
                            op.cw = last.cw;
                            op.solver = cfg(r, base.exact);
                            op.exact = base.exact;
                            op.feed = 1;
                            op.group = 7;
                        } else {
                            op.feed = match k {
                                Kind::Overlay | Kind::Vectors => *r.pick(&[1u8, 1, 2, 2, 3]),
                                _ => *r.pick(&[1u8, 1, 1, 4, 5]),
                            };
                            if op.feed & 1 != 0 && r.chance(0.4) && k == Kind::Overlay {
                                // with only some of the others
                                op.clip.retain(|_| r.chance(0.6));
                            }
                        }
                    }
                    if op.group == 0 && r.chance(0.1) {
                        default_form(r, &mut op);
                        if op.feed & 4 != 0 && has_lines(k) {
                            // lines from a result are closed
                            op.form = 2;
                        }
                    } else if op.group == 0 && k == Kind::Overlay && r.chance(0.25) {
                        op.form = 4;
                        op.rule = 0;
                        op.order = r.below(4);
                    }
                    ops.push(op);
                }
                sc.clients.push(ops);
            }
        }
        "C19" => {
            let n = 1 + r.below(3) as usize;
            sc.clients = vec![vec![]; n];
            for g in 0..1 + r.below(2) {
                let size = size_cap(var_size(r, 0.01), 3000);
                let mut base = match r.below(10) {
                    0 | 1 => {
                        let k = *r.pick(&F_KINDS);
                        let ms = mid_size(r);
                        let w = float_work(r, ms, has_lines(k));
                        let mut op = float_op(r, k, w);
                        if r.chance(0.5) && op.points() <= ANYWHERE_MAX {
                            anywhere(r, &mut op);
                        }
                        if r.chance(0.3) && !matches!(k, Kind::FClip) {
                            op.fmin = (*r.pick(&[0.75, 2.75, 30.75]) * 4f64.powi(op.fexp)) as f32 as f64;
                        }
                        op
                    }
                    2 => mesh::stroke_op(r),
                    3 => mesh::outline_op(r),
                    _ => {
                        let k = *r.pick(&INT_KINDS);
                        let w = match r.below(if is_large(size) { 2 } else { 10 }) {
                            0 | 1 => gen::exact(r, size, has_lines(k)),
                            2..=6 => gen::general(r, size, has_lines(k)),
                            _ => gen::nasty(r, has_lines(k)),
                        };
                        int_op(r, k, w)
                    }
                };
                base.group = g as u32 + 1;
                for i in 0..2 + r.below(3) as usize {
                    let mut op = base.clone();
                    if i > 0 && op.is_float() {
                        op.unit = if op.f32 { r.range(-16, 16) } else { r.range(-60, 60) } as i32;
                    } else if i > 0 {
                        for a in 0..2 {
                            let v = || op.subj.iter().chain(op.clip.iter()).flatten().chain(op.lines.iter()).flatten().map(|p| p[a] as i64);
                            let (lo, hi) = (v().min().unwrap_or(0), v().max().unwrap_or(0));
                            let (d0, d1) = (-gen::LIM - lo, gen::LIM - hi);
                            op.shift[a] = match r.below(6) {
                                0 => 0,
                                1 => d0,
                                2 => d1,
                                3 => r.range(-20, 20).clamp(d0.min(0), d1.max(0)),
                                4 => -lo,
                                _ => {
                                    if d0 < d1 {
                                        r.range(d0, d1)
                                    } else {
                                        0
                                    }
                                }
                            };
                            if op.shift[a] < d0 || op.shift[a] > d1 {
                                op.shift[a] = 0;
                            }
                        }
                    }
                    sc.clients[(g as usize + i) % n].push(op);
                }
            }
        }
        "C20" => {
            let n = 1 + r.below(3) as usize;
            sc.clients = vec![vec![]; n];
            for g in 0..1 + r.below(2) {
                let size = size_cap(var_size(r, 0.01), 3000);
                let k = *r.pick(&[Kind::Overlay, Kind::Overlay, Kind::Overlay, Kind::Slice, Kind::Clip, Kind::Vectors, Kind::ShapeVectors, Kind::FOverlay, Kind::FSlice]);
                let mut base = if F_KINDS.contains(&k) {
                    let ms = mid_size(r);
                    let w = float_work(r, ms, has_lines(k));
                    let mut op = float_op(r, k, w);
                    op.form = op.form / 100 * 100 + 10 * (op.form / 10 % 2) + *r.pick(&[0u8, 2]);
                    if r.chance(0.5) && op.points() <= ANYWHERE_MAX {
                        anywhere(r, &mut op);
                    }
                    op
                } else {
                    let w = match r.below(if is_large(size) { 2 } else { 10 }) {
                        0..=2 => gen::exact(r, size, has_lines(k)),
                        3..=7 => gen::general(r, size, has_lines(k)),
                        _ => gen::nasty(r, has_lines(k)),
                    };
                    int_op(r, k, w)
                };
                base.min_area = 0;
                base.group = g as u32 + 1;
                if r.chance(0.5) {
                    // no spikes and straight runs
                    for c in base.subj.iter_mut().chain(base.clip.iter_mut()).flatten() {
                        while let Some(i) = (0..c.len()).find(|&i| cross3(&c[i], &c[(i + 1) % c.len()], &c[(i + 2) % c.len()]) == 0) {
                            let n = c.len();
                            c.remove((i + 1) % n);
                        }
                    }
                }
                for i in 0..2 + r.below(4) as usize {
                    let mut op = base.clone();
                    if i > 0 {
                        op.twist = if has_lines(k) { 2 * r.below(2) } else { r.below(4) } as u8;
                        op.cw = op.cw != r.chance(0.3);
                        op.simplify = op.simplify != r.chance(0.3);
                    }
                    sc.clients[(g as usize + i) % n].push(op);
                }
            }
        }
        _ => panic!("unknown property {}", prop),
    }
    for op in sc.graphs.iter_mut().chain(sc.clients.iter_mut().flatten()) {
        if op.exact && op.points() <= 400 && crossings(op).is_none() {
            op.exact = false;
        }
    }
    sc
}

fn size_cap(s: Size, m: usize) -> Size {
    match s {
        Size::Large(n) => Size::Large(n.min(m)),
        s => s,
    }
}

fn extract_op(r: &mut Rng, g: &Op, gi: usize) -> Op {
    let kind = match g.kind {
        Kind::Extract => *r.pick(&[Kind::Extract, Kind::Extract, Kind::Extract, Kind::ExtractVectors, Kind::ExtractShapeVectors]),
        k => k,
    };
    let mut op = Op::new(kind);
    style_params(r, &mut op);
    op.form = r.below(2) as u8;
    if r.chance(0.2) && matches!(kind, Kind::FExtract | Kind::FSExtract) {
        op.form += 100;
        op.fmin = r.f64() * 10.0 * 4f64.powi(g.fexp);
    }
    op.graph = gi;
    op
}

/// an operation whose caller code panics at some point
fn faulty_op(r: &mut Rng) -> Op {
    let s = gen::size(r);
    let mut op = match r.below(8) {
        0..=2 => {
            let w = any_work(r, s, false);
            let mut op = int_op(r, Kind::Overlay, w);
            op.form = *r.pick(&[4u8 + 1, 5, 4]);
            op.form = 5; // into_graph with add_path_iter
            if r.chance(0.5) {
                op.form = 14; // overlay_custom with add_path_iter
            }
            op
        }
        3 => {
            let k = if r.chance(0.5) { Kind::Clip } else { Kind::Slice };
            let w = any_work(r, s, true);
            let mut op = int_op(r, k, w);
            op.form = 0;
            op.order = 2;
            op
        }
        4 => {
            let mut op = mesh::stroke_op(r);
            op.form = 9;
            op.f32 = false;
            op
        }
        5 => {
            let mut op = mesh::outline_op(r);
            op.form = 9;
            op.f32 = false;
            op
        }
        _ => {
            let k = *r.pick(&F_KINDS);
            let w = float_work(r, s, has_lines(k));
            let mut op = float_op(r, k, w);
            op.form = (90 + r.below(3)) as u8;
            op.f32 = false;
            op
        }
    };
    op.fault = Some(r.next() >> 8);
    op
}

/// another way of writing the same region
fn variant(r: &mut Rng, op: &mut Op) {
    let line_op = has_lines(op.kind);
    for s in op.subj.iter_mut().chain(op.clip.iter_mut()) {
        for c in s.iter_mut() {
            if c.len() < 3 {
                continue;
            }
            if r.chance(0.5) {
                let k = r.below(c.len() as u64) as usize;
                c.rotate_left(k);
            }
            if r.chance(0.3) {
                // repeat the first point at the end
                c.push(c[0]);
            }
            if r.chance(0.3) {
                let i = r.below(c.len() as u64) as usize;
                c.insert(i, c[i]);
            }
            if r.chance(0.3) {
                // a point on an edge
                let i = r.below(c.len() as u64) as usize;
                let (a, b) = (c[i], c[(i + 1) % c.len()]);
                let (dx, dy) = ((b[0] as i64 - a[0] as i64), (b[1] as i64 - a[1] as i64));
                let g = gen::gcd(dx.abs(), dy.abs());
                if g > 1 {
                    let k = r.range(1, g - 1);
                    c.insert(i + 1, [(a[0] as i64 + dx / g * k) as i32, (a[1] as i64 + dy / g * k) as i32]);
                }
            }
            if r.chance(0.2) && (op.fill == EVEN_ODD || op.fill == NON_ZERO) && false {
                c.reverse();
            }
        }
    }
    // regroup
    if r.chance(0.4) {
        let f = |s: &mut Vec<Shape>| {
            let cs: Vec<Contour> = s.drain(..).flatten().collect();
            *s = cs.into_iter().map(|c| vec![c]).collect();
        };
        f(&mut op.subj);
        f(&mut op.clip);
    }
    if r.chance(0.4) {
        op.subj.reverse();
        op.clip.reverse();
    }
    if line_op && !op.closed {
        // split a path at a vertex
        if r.chance(0.5) {
            if let Some(i) = op.lines.iter().position(|l| l.len() > 2) {
                let l = op.lines[i].clone();
                let k = 1 + r.below(l.len() as u64 - 2) as usize;
                op.lines[i] = l[..=k].to_vec();
                op.lines.push(l[k..].to_vec());
            }
        }
        if r.chance(0.3) {
            op.lines.reverse();
        }
    }
}

// ------------------------------------------------------------------ judging

fn base_edges(op: &Op) -> Vec<Edge> {
    let mut e = Vec::new();
    for c in op.subj.iter().flatten() {
        push_contour(&mut e, c, 0);
    }
    for c in op.clip.iter().flatten() {
        push_contour(&mut e, c, 1);
    }
    e
}

fn line_edges(op: &Op) -> Vec<Edge> {
    let mut e = Vec::new();
    for l in &op.lines {
        if op.closed {
            push_contour(&mut e, l, 1);
        } else {
            push_path(&mut e, l, 1);
        }
    }
    e
}

/// all crossings of the input, if every one is an integer point
pub fn crossings(op: &Op) -> Option<Vec<[i64; 2]>> {
    let mut e = base_edges(op);
    e.extend(line_edges(op));
    exact_crossings(&e)
}

/// the distance within which rounding may move an edge
fn snap_dist(op: &Op) -> f64 {
    // snapping radius 2^start (squared), grows by 2^progression per iteration; a constant radius needs more
    // iterations, each may move a crossing by one unit
    8.0 + 2f64.powf(op.solver.start as f64 / 2.0) + if op.solver.prog == 0 { 48.0 } else { 0.0 } + op.slack
}

const ROWS: usize = 120;

fn shapes_of(op: &Op, out: &Out) -> Result<Vec<Shape>, Viol> {
    match out {
        Out::Shapes(s) => Ok(s.clone()),
        Out::FShapes(s) => {
            let k = 2f64.powi(-op.fexp);
            let mut res = Vec::new();
            for sh in s {
                let mut o = Vec::new();
                for c in sh {
                    let mut oc = Vec::new();
                    for p in c {
                        let q = [f64::from_bits(p[0]) * k, f64::from_bits(p[1]) * k];
                        if q[0] != q[0].round() || q[1] != q[1].round() || q[0].abs() > 1e9 || q[1].abs() > 1e9 {
                            return v("region", format!("output point {:?} is not one of the crossings or corners of the input", [f64::from_bits(p[0]), f64::from_bits(p[1])]));
                        }
                        oc.push([q[0] as i32, q[1] as i32]);
                    }
                    o.push(oc);
                }
                res.push(o);
            }
            Ok(res)
        }
        o => v("kind", format!("unexpected result {}", o.brief())),
    }
}

fn paths_of(op: &Op, out: &Out) -> Result<Vec<Contour>, Viol> {
    match out {
        Out::Paths(s) => Ok(s.clone()),
        Out::FPaths(s) => shapes_of(op, &Out::FShapes(vec![s.clone()])).map(|mut x| x.pop().unwrap()),
        o => v("kind", format!("unexpected result {}", o.brief())),
    }
}

fn dir_of(op: &Op) -> i32 {
    if op.cw {
        -1
    } else {
        1
    }
}

struct Area<'a> {
    op: &'a Op,
    rng: Rng,
}

impl<'a> Area<'a> {
    fn new(op: &'a Op) -> Self {
        Area { op, rng: Rng::new(op.points() as u64 * 77 + 5) }
    }

    /// the set operation oracle; Ok(true) if exact
    fn region(&mut self, shapes: &[Shape], coverage: bool) -> Result<bool, Viol> {
        let op = self.op;
        let base = base_edges(op);
        let lines = if matches!(op.kind, Kind::Slice | Kind::FSlice | Kind::SExtract | Kind::FSExtract) { line_edges(op) } else { vec![] };
        let slice = matches!(op.kind, Kind::Slice | Kind::FSlice | Kind::SExtract | Kind::FSExtract);
        let (rule, fill) = match op.kind {
            Kind::FSimplify => (0, op.fill),
            _ if slice => (0, op.fill),
            _ => (op.rule, op.fill),
        };
        let near: Vec<Edge> = base.iter().chain(lines.iter()).copied().collect();
        let tol = if op.exact { None } else { Some(Tol { edges: &near, dist: snap_dist(op) }) };
        let extra = if op.exact { crossings_cached(op) } else { vec![] };
        let s = Scan { base: &base, shapes, dir: dir_of(op), max_rows: rows_for(op), tol, share: slice, extra };
        let f = move |a: i32, b: i32| rule_holds(rule, filled(fill, a), filled(fill, b));
        s.run(&mut self.rng, if coverage { Some(&f) } else { None }).or_else(|m| v("region", m))?;
        Ok(op.exact)
    }
}

fn rows_for(op: &Op) -> usize {
    let n = op.points();
    if n > 2000 {
        24
    } else if n > 300 {
        60
    } else {
        ROWS
    }
}

fn crossings_cached(op: &Op) -> Vec<[i64; 2]> {
    if op.points() <= 1500 {
        crossings(op).unwrap_or_default()
    } else {
        vec![]
    }
}

/// results that must come from filtering `all` by area: nothing below, nothing above missing
pub fn check_filtered(all: &[Shape], got: &[Shape], keep: &dyn Fn(u128) -> Option<bool>) -> Result<(), String> {
    // `keep` gets the doubled area
    use std::collections::HashMap;
    let mut have: HashMap<Contour, i64> = HashMap::new();
    for c in got.iter().flatten() {
        let a = area2(c).unsigned_abs();
        if keep(a) == Some(false) {
            return Err(format!("a contour with area {} is below the minimum area: {}", a as f64 * 0.5, head(c)));
        }
        *have.entry(canon(c)).or_insert(0) += 1;
    }
    let mut full: HashMap<Contour, i64> = HashMap::new();
    for s in all {
        for (i, c) in s.iter().enumerate() {
            let a = area2(c).unsigned_abs();
            let k = canon(c);
            *full.entry(k.clone()).or_insert(0) += 1;
            let outer = area2(&s[0]).unsigned_abs();
            if keep(a) == Some(true) && (i == 0 || keep(outer) == Some(true)) {
                let e = have.entry(k).or_insert(0);
                *e -= 1;
                if *e < 0 {
                    return Err(format!("a contour with area {} is missing: {}", a as f64 * 0.5, head(c)));
                }
            }
        }
    }
    for c in got.iter().flatten() {
        if !full.contains_key(&canon(c)) {
            return Err(format!("a contour appears only with the minimum area: {}", head(c)));
        }
    }
    Ok(())
}

/// the result with a minimum area is the result without one less the contours below it
fn min_area_only_drops(op: &Op, out: &Out) -> Result<(), Viol> {
    let mut o = op.clone();
    o.min_area = 0;
    let (full, _) = alone(&o, &[], false);
    let m = op.min_area as u128;
    // areas are compared in whole units
    check_filtered(&shapes_of(&o, &full)?, &shapes_of(op, out)?, &|a| Some(a >> 1 >= m)).or_else(|m| v("min-area", m))
}

/// judge one result of an integer or exact float operation on its own
/// input and result of a float call with arbitrary coordinates on a common integer grid
fn on_grid(op: &Op, out: &Out) -> Option<(Op, Out)> {
    let m = fmap(op);
    let num = |x: f64| if op.f32 { x as f32 as f64 } else { x };
    let at = |p: &Pt| m.at(p).map(num);
    let mut lo = [f64::MAX; 2];
    let mut hi = [f64::MIN; 2];
    for p in op.subj.iter().chain(op.clip.iter()).flatten().chain(op.lines.iter()).flatten() {
        let q = at(p);
        for k in 0..2 {
            lo[k] = lo[k].min(q[k]);
            hi[k] = hi[k].max(q[k]);
        }
    }
    let ext = (hi[0] - lo[0]).max(hi[1] - lo[1]);
    if !(ext > 0.0) {
        return None;
    }
    let q = 2f64.powi(27) / ext;
    let c = [(lo[0] + hi[0]) * 0.5, (lo[1] + hi[1]) * 0.5];
    let far = [lo[0], lo[1], hi[0], hi[1]].iter().fold(0.0f64, |m, x| m.max(x.abs()));
    let g = |p: [f64; 2]| [((p[0] - c[0]) * q).round() as i32, ((p[1] - c[1]) * q).round() as i32];
    let gc = |v: &[Contour]| -> Vec<Contour> { v.iter().map(|c| c.iter().map(|p| g(at(p))).collect()).collect() };
    let mut o = op.clone();
    o.subj = op.subj.iter().map(|s| gc(s)).collect();
    o.clip = op.clip.iter().map(|s| gc(s)).collect();
    o.lines = gc(&op.lines);
    o.exact = false;
    o.aff = [0.0; 3];
    o.closed = false;
    // the result is rounded to floats around `far`
    o.slack = 4.0 + if op.f32 { 24.0 + far * q * 2f64.powi(-22) } else { far * q * 2f64.powi(-50) };
    let back = |p: &[u64; 2]| g(p.map(f64::from_bits));
    let r = match out {
        Out::FShapes(s) => Out::Shapes(s.iter().map(|s| s.iter().map(|c| c.iter().map(back).collect()).collect()).collect()),
        Out::FPaths(s) => Out::Paths(s.iter().map(|c| c.iter().map(back).collect()).collect()),
        x => x.clone(),
    };
    Some((o, r))
}

fn on_edge(e: &Edge, t: f64) -> (f64, f64) {
    (e.ax as f64 + (e.bx - e.ax) as f64 * t, e.ay as f64 + (e.by - e.ay) as f64 * t)
}

fn winding(set: &[Edge], x: f64, y: f64, tag: u32) -> i32 {
    let mut w = 0;
    for e in set {
        if e.tag == tag && ((e.ay as f64) > y) != ((e.by as f64) > y) {
            let s = (e.ax as f64) + (e.bx - e.ax) as f64 * ((y - e.ay as f64) / (e.by - e.ay) as f64);
            if s > x {
                w += if e.by > e.ay { 1 } else { -1 };
            }
        }
    }
    w
}

/// the set operation at points far enough from all edges, where rounding may move everything a little
fn region_near(op: &Op, shapes: &[Shape]) -> Result<(), String> {
    let base = base_edges(op);
    let lines = line_edges(op);
    let mut out = Vec::new();
    for c in shapes.iter().flatten() {
        push_contour(&mut out, c, 0);
    }
    let tol = snap_dist(op);
    let simple = matches!(op.kind, Kind::FSimplify | Kind::FSlice);
    let mut rng = Rng::new(op.points() as u64);
    let n = base.len() as u64;
    for i in 0..400 {
        let (x, y) = if i % 4 == 0 || n == 0 {
            ((rng.f64() - 0.5) * 2f64.powi(27), (rng.f64() - 0.5) * 2f64.powi(27))
        } else {
            let (x, y) = on_edge(&base[rng.below(n) as usize], rng.f64());
            let d = tol * 2f64.powf(rng.f64() * if i % 4 == 1 { 2.0 } else { 22.0 });
            let a = rng.f64() * std::f64::consts::TAU;
            (x + d * a.cos(), y + d * a.sin())
        };
        if base.iter().chain(&lines).any(|e| dist_point_edge(x, y, e) <= tol) {
            continue;
        }
        let w = winding(&out, x, y, 0) * dir_of(op);
        let (s, c) = (filled(op.fill, winding(&base, x, y, 0)), filled(op.fill, winding(&base, x, y, 1)));
        let want = rule_holds(if simple { 0 } else { op.rule }, s, c) as i32;
        if w != want {
            return Err(format!("the point {:?} is covered {} times instead of {}", (x, y), w, want));
        }
    }
    Ok(())
}

/// clipped lines, where rounding may move everything a little
fn clip_near(op: &Op, paths: &[Contour]) -> Result<(), String> {
    let sub = base_edges(&Op { clip: vec![], ..op.clone() });
    let lines = line_edges(op);
    let mut out = Vec::new();
    for p in paths {
        if p.len() < 2 {
            return Err(format!("clipped path has {} points", p.len()));
        }
        push_path(&mut out, p, 0);
    }
    let tol = snap_dist(op);
    let dist = |x: f64, y: f64, set: &[Edge]| set.iter().fold(f64::MAX, |m, e| m.min(dist_point_edge(x, y, e)));
    let mut rng = Rng::new(5);
    let inside = |x: f64, y: f64| winding(&sub, x, y, 0);
    for e in &lines {
        for _ in 0..8 {
            let (x, y) = on_edge(e, rng.f64());
            if dist(x, y, &sub) <= 3.0 * tol {
                continue;
            }
            let want = filled(op.fill, inside(x, y)) != op.invert;
            let d = dist(x, y, &out);
            if want && d > tol {
                return Err(format!("the line at {:?} must be kept and is not", (x, y)));
            }
            if !want && d <= tol {
                return Err(format!("the line at {:?} must not be kept and is", (x, y)));
            }
        }
    }
    for e in &out {
        for _ in 0..4 {
            let (x, y) = on_edge(e, rng.f64());
            if dist(x, y, &lines) > tol {
                return Err(format!("the clipped line at {:?} is not near any input line", (x, y)));
            }
        }
    }
    Ok(())
}

fn judge(op: &Op, out: &Out, graphs: &[Op]) -> Result<bool, Viol> {
    if op.aff[0] != 0.0 {
        let Some((o, out)) = on_grid(op, out) else { return Ok(false) };
        if let Out::Paths(p) = &out {
            clip_near(&o, p).or_else(|m| v("lines", m))?;
            return Ok(false);
        }
        let Out::Shapes(s) = &out else { return v("kind", format!("unexpected result {}", out.brief())) };
        region_near(&o, s).or_else(|m| v("region", m))?;
        return Ok(false);
    }
    let eff;
    let op = match op.kind {
        Kind::Extract | Kind::SExtract => {
            let g = &graphs[op.graph];
            let mut o = op.clone();
            o.subj = g.subj.clone();
            o.clip = g.clip.clone();
            o.lines = g.lines.clone();
            o.closed = g.closed;
            o.fill = g.fill;
            o.exact = g.exact;
            o.solver = g.solver.clone();
            eff = o;
            &eff
        }
        _ => op,
    };
    match op.kind {
        Kind::Overlay | Kind::FOverlay | Kind::FSimplify | Kind::Extract => {
            let s = shapes_of(op, out)?;
            let whole = op.min_area == 0 && op.fmin == 0.0;
            Area::new(op).region(&s, whole)
        }
        Kind::Slice | Kind::FSlice | Kind::SExtract => {
            let s = shapes_of(op, out)?;
            let whole = op.min_area == 0 && op.fmin == 0.0;
            let ex = Area::new(op).region(&s, whole)?;
            if op.exact && whole && op.points() <= 1500 {
                let sub = base_edges(&Op { clip: vec![], ..op.clone() });
                let ex = crossings_cached(op);
                check_slice(&sub, &line_edges(op), &s, dir_of(op), op.fill, &ex).or_else(|m| v("pieces", m))?;
            }
            Ok(ex)
        }
        Kind::Clip | Kind::FClip => {
            let p = paths_of(op, out)?;
            if op.exact {
                let sub = base_edges(&Op { clip: vec![], ..op.clone() });
                let ex = crossings_cached(op);
                let mut rng = Rng::new(3);
                check_clip(&sub, &line_edges(op), &p, op.fill, op.invert, op.boundary, rows_for(op), &ex, &mut rng).or_else(|m| v("lines", m))?;
            }
            Ok(op.exact)
        }
        Kind::Vectors => {
            let Out::Vectors(vs) = out else { return v("kind", format!("unexpected result {}", out.brief())) };
            if op.exact {
                let ex = crossings_cached(op);
                let mut rng = Rng::new(3);
                check_vectors(&base_edges(op), vs, op.fill, rows_for(op), &ex, &mut rng).or_else(|m| v("vectors", m))?;
            }
            Ok(op.exact)
        }
        _ => Ok(false),
    }
}

fn structure(op: &Op, out: &Out) -> Result<(), Viol> {
    let s = shapes_of(op, out)?;
    let slice = matches!(op.kind, Kind::Slice);
    let (cw, simp, min) = match (op.kind, op.form) {
        (Kind::Overlay, 3) => (false, true, 0),
        (Kind::Slice, f) if f >= 2 => (false, false, 0),
        _ => (op.cw, op.simplify && !slice, op.min_area),
    };
    check_structure(&s, cw, simp, min).or_else(|m| v("structure", m))?;
    let mut rng = Rng::new(9);
    let sc = Scan { base: &[], shapes: &s, dir: if cw { -1 } else { 1 }, max_rows: rows_for(op), tol: None, share: slice, extra: vec![] };
    sc.run(&mut rng, None).or_else(|m| v("structure", m))
}

/// the four clip rules of one input together
fn clip_identities(base: &Op, res: &[(bool, bool, Vec<Contour>)]) -> Result<(), String> {
    let get = |i: bool, b: bool| res.iter().find(|x| x.0 == i && x.1 == b).map(|x| &x.2);
    let (Some(ii), Some(ie), Some(oi), Some(oe)) = (get(false, true), get(false, false), get(true, false), get(true, true)) else { return Ok(()) };
    // oi = outside with the boundary, oe = outside without
    let mut edges = Vec::new();
    for (t, set) in [ii, ie, oi, oe].into_iter().enumerate() {
        for p in set {
            if p.len() < 2 {
                return Err(format!("clipped path has {} points", p.len()));
            }
            push_path(&mut edges, p, t as u32);
        }
    }
    let mut rng = Rng::new(1);
    let sub = base_edges(&Op { clip: vec![], ..base.clone() });
    let lines = line_edges(base);
    let near: Vec<Edge> = sub.iter().chain(lines.iter()).copied().collect();
    let tol = snap_dist(base);
    for t in 0..2 {
        let tr = t == 1;
        let mut es: Vec<Edge> = edges.iter().copied().chain(sub.iter().map(|e| Edge { tag: 10, ..*e })).chain(lines.iter().map(|e| Edge { tag: 11, ..*e })).map(|e| if tr { e.transposed() } else { e }).collect();
        es.retain(|e| e.ay != e.by);
        let rs = rows(&[&es], &[], ROWS, &mut rng);
        let sg = if tr { 1 } else { -1 };
        let mut hits = Vec::new();
        for y2 in rs {
            row_hits(&es, y2, &mut hits);
            let mut w = 0i32;
            let mut i = 0;
            while i < hits.len() {
                let before = filled(base.fill, w);
                let mut n = [[0i32; 2]; 4];
                let mut has_line = false;
                let mut j = i;
                while j < hits.len() && hits[j].same(&hits[i]) {
                    let h = hits[j];
                    match h.tag {
                        10 => w += sg * h.dir,
                        11 => has_line = true,
                        k => n[k as usize][(h.dir > 0) as usize] += 1,
                    }
                    j += 1;
                }
                let after = filled(base.fill, w);
                let at = if tr { (y2 as f64 / 2.0, hits[i].pos()) } else { (hits[i].pos(), y2 as f64 / 2.0) };
                for d in 0..2 {
                    let (a, b, c, e) = (n[0][d], n[1][d], n[2][d], n[3][d]);
                    if a > 1 || b > 1 || c > 1 || e > 1 {
                        return Err(format!("a clipped line runs {} times through {:?}", a.max(b).max(c).max(e), at));
                    }
                    if a + e != b + c || a + e > 1 || b > a || e > c {
                        return Err(format!("at {:?}: inside {}, inside without boundary {}, outside with boundary {}, outside {}", at, a, b, c, e));
                    }
                    // far from the boundary the side must be right
                    let far = |set: &[Edge]| set.iter().all(|f| dist_point_edge(at.0, at.1, f) > tol);
                    if a + e == 1 && far(&sub) {
                        if (b == 1) != before || (b == 1) != (a == 1) {
                            return Err(format!("at {:?} the winding says {} but the line is reported {}", at, if before { "inside" } else { "outside" }, if b == 1 { "inside" } else { "outside" }));
                        }
                    }
                    if a + e == 1 && far(&lines) {
                        return Err(format!("a clipped line at {:?} is not near any input line", at));
                    }
                }
                let any = n.iter().flatten().any(|k| *k > 0);
                if has_line && !any {
                    // the line must have moved only a little
                    let ok = edges.iter().any(|e| dist_point_edge(at.0, at.1, e) <= tol);
                    if !ok {
                        return Err(format!("the input line at {:?} is in none of the results", at));
                    }
                }
                let _ = (after, &near);
                i = j;
            }
        }
    }
    Ok(())
}

fn hash_out(o: &Out) -> u64 {
    use std::hash::{Hash, Hasher};
    #[derive(Default)]
    struct H(u64);
    impl Hasher for H {
        fn finish(&self) -> u64 {
            self.0
        }
        fn write(&mut self, b: &[u8]) {
            for c in b.chunks(8) {
                let mut x = [0u8; 8];
                x[..c.len()].copy_from_slice(c);
                self.0 = simkern::mix2(self.0, u64::from_le_bytes(x));
            }
        }
    }
    let mut h = H(1);
    o.hash(&mut h);
    h.finish()
}

/// two shape lists have the same coverage
fn same_region(a: &[Shape], da: i32, b: &[Shape], db: i32, max_rows: usize) -> Result<(), String> {
    // as an overlay of the two: subject must be covered iff clip is
    let mut base = Vec::new();
    for c in b.iter().flatten() {
        push_contour(&mut base, c, 0);
    }
    let s = Scan { base: &base, shapes: a, dir: da, max_rows, tol: None, share: true, extra: vec![] };
    let mut rng = Rng::new(2);
    s.run(&mut rng, Some(&|x, _| x * db > 0))
}

pub fn run(sc: &Scenario) -> Ran {
    // what each operation gives on its own
    let prop = sc.prop.as_str();
    let reference = matches!(prop, "C01" | "C04" | "C05" | "C06" | "C07");
    let mut refs: Vec<Vec<Out>> = Vec::new();
    let mut faults: Vec<Vec<Option<u64>>> = Vec::new();
    let mut injected = 0;
    let mut bare = None;
    for ops in &sc.clients {
        let mut rr = Vec::new();
        let mut ff = Vec::new();
        for op in ops {
            let mut f = None;
            if reference {
                crate::child::cpu_limit(crate::child::op_seconds());
                let (o, n) = alone(op, &sc.graphs, prop == "C01");
                if prop == "C01" && op.points() <= 20_000 && bare.is_none() {
                    let s = alone_without_threads(op);
                    if s.as_ref() != Some(&o) {
                        let b = s.map(|s| s.brief()).unwrap_or_default();
                        bare = Some(format!("{}: a build without multithreading gives {} instead of {}", at(refs.len(), rr.len(), op), b, o.brief()));
                    }
                }
                crate::child::cpu_limit(0);
                if let Some(raw) = op.fault {
                    if n > 0 {
                        f = Some(1 + raw % n);
                        injected += 1;
                    }
                }
                rr.push(o);
            }
            ff.push(f);
        }
        refs.push(rr);
        faults.push(ff);
    }
    crate::child::cpu_limit(crate::child::op_seconds());
    let sim = simulate(sc, &faults);
    crate::child::cpu_limit(0);
    let mut counters = sim.counters;
    counters.caller_panics = injected;
    let mut out_hash = 0;
    for o in sim.outs.iter().flatten() {
        out_hash = simkern::mix2(out_hash, hash_out(o));
    }
    let mut verdict = verify(sc, &sim.outs, &refs, &faults);
    if let (true, Some(m)) = (verdict.is_ok(), bare) {
        verdict = v("differs", m);
    }
    Ran { known: vec![], verdict, counters, interleaving: sim.interleaving, trace: sim.trace, out_hash }
}

fn at(ci: usize, oi: usize, op: &Op) -> String {
    format!("client {} operation {} ({:?} form {} rule {} fill {} solver {:?})", ci, oi, op.kind, op.form, op.rule, op.fill, op.solver)
}

fn verify(sc: &Scenario, outs: &[Vec<Out>], refs: &[Vec<Out>], faults: &[Vec<Option<u64>>]) -> Result<Judged, Viol> {
    let mut j = Judged::default();
    let prop = sc.prop.as_str();
    // no operation fails on its own account
    for (ci, ops) in sc.clients.iter().enumerate() {
        for (oi, op) in ops.iter().enumerate() {
            let out = &outs[ci][oi];
            let expected = faults[ci][oi].is_some();
            match out {
                Out::Panic(m) if m == FAULT_MSG && expected => {
                    j.evals += 1;
                    j.nontrivial += 1;
                }
                Out::Panic(m) => return v("panic", format!("{}: panicked: {}", at(ci, oi, op), m)),
                Out::None => return v("kind", format!("{}: no result", at(ci, oi, op))),
                _ if expected => return v("fault", format!("{}: the panic of the caller's code did not reach the caller", at(ci, oi, op))),
                _ => {}
            }
        }
    }
    let tell = |ci: usize, oi: usize, op: &Op| {
        let w = at(ci, oi, op);
        move |e: Viol| Viol { class: e.class, msg: format!("{}: {}", w, e.msg) }
    };
    let all = || sc.clients.iter().enumerate().flat_map(|(ci, ops)| ops.iter().enumerate().map(move |(oi, op)| (ci, oi, op)));
    match prop {
        "C01" | "C04" | "C05" | "C06" | "C07" => {
            for (ci, oi, op) in all() {
                if faults[ci][oi].is_some() {
                    continue;
                }
                j.evals += 1;
                j.nontrivial += !outs[ci][oi].is_empty() as u64;
                if outs[ci][oi] != refs[ci][oi] {
                    let what = match prop {
                        "C01" => "differs from the sequential result",
                        "C04" => "differs from a single extraction of a fresh graph",
                        _ => "differs from its result when it runs alone",
                    };
                    return v("differs", format!("{}: {}: {} instead of {}", at(ci, oi, op), what, outs[ci][oi].brief(), refs[ci][oi].brief()));
                }
            }
        }
        "C02" | "C03" => {
            for (ci, oi, op) in all() {
                j.evals += 1;
                j.nontrivial += !outs[ci][oi].is_empty() as u64;
                j.exact += judge(op, &outs[ci][oi], &sc.graphs).map_err(tell(ci, oi, op))? as u64;
            }
        }
        "C08" => {
            for (ci, oi, op) in all() {
                j.evals += 1;
                j.nontrivial += !outs[ci][oi].is_empty() as u64;
                j.exact += 1;
                structure(op, &outs[ci][oi]).map_err(tell(ci, oi, op))?;
                if op.min_area > 0 && (op.kind == Kind::Overlay && op.form != 3 || op.kind == Kind::Slice && op.form < 2) {
                    min_area_only_drops(op, &outs[ci][oi]).map_err(tell(ci, oi, op))?;
                }
            }
        }
        "C09" => {
            let mut groups: std::collections::BTreeMap<u32, Vec<(bool, bool, Vec<Contour>)>> = Default::default();
            let mut base: std::collections::BTreeMap<u32, &Op> = Default::default();
            for (ci, oi, op) in all() {
                j.evals += 1;
                j.nontrivial += !outs[ci][oi].is_empty() as u64;
                j.exact += judge(op, &outs[ci][oi], &sc.graphs).map_err(tell(ci, oi, op))? as u64;
                if op.group > 0 {
                    groups.entry(op.group).or_default().push((op.invert, op.boundary, paths_of(op, &outs[ci][oi])?));
                    base.insert(op.group, op);
                }
            }
            for (g, res) in groups {
                clip_identities(base[&g], &res).or_else(|m| v("identities", m))?;
            }
        }
        "C10" => {
            for (ci, oi, op) in all() {
                j.evals += 1;
                j.nontrivial += !outs[ci][oi].is_empty() as u64;
                j.exact += judge(op, &outs[ci][oi], &sc.graphs).map_err(tell(ci, oi, op))? as u64;
                if op.min_area > 0 && op.form < 2 {
                    min_area_only_drops(op, &outs[ci][oi]).map_err(tell(ci, oi, op))?;
                }
            }
        }
        "C11" => {
            let mut groups: std::collections::BTreeMap<(u32, bool, bool), (usize, usize, Out)> = Default::default();
            for (ci, oi, op) in all() {
                j.evals += 1;
                j.nontrivial += !outs[ci][oi].is_empty() as u64;
                let eff = float_effective(op);
                j.exact += judge(&eff, &outs[ci][oi], &sc.graphs).map_err(tell(ci, oi, op))? as u64;
                if eff.fmin > 0.0 {
                    let mut o = op.clone();
                    o.fmin = 0.0;
                    let (full, _) = alone(&o, &[], false);
                    let k2 = 4f64.powi(op.fexp);
                    let ext = extent(op) as f64 * 2f64.powi(op.fexp);
                    let eps = ext * ext * 2f64.powi(-50) + eff.fmin * 1e-6;
                    let m = eff.fmin;
                    let keep = |a: u128| {
                        let u = a as f64 * 0.5 * k2;
                        if u > m + eps {
                            Some(true)
                        } else if u < m - eps {
                            Some(false)
                        } else {
                            None
                        }
                    };
                    check_filtered(&shapes_of(&o, &full)?, &shapes_of(op, &outs[ci][oi])?, &keep).or_else(|m| v("min-area", m)).map_err(tell(ci, oi, op))?;
                }
                if op.group > 0 {
                    // rounded inputs depend on the precision of the solver, one of the calls takes none
                    let no_solver = !op.exact && op.kind == Kind::FSimplify && op.form % 10 == 1;
                    let key = (op.group, float_is_default(op), no_solver);
                    match groups.get(&key) {
                        None => {
                            groups.insert(key, (ci, oi, outs[ci][oi].clone()));
                        }
                        Some((_, _, o)) => {
                            if *o != outs[ci][oi] {
                                return v("container", format!("{}: result depends on the container or call: {} instead of {}", at(ci, oi, op), outs[ci][oi].brief(), o.brief()));
                            }
                        }
                    }
                }
            }
        }
        "C12" => {
            for (ci, oi, op) in all() {
                j.evals += 1;
                j.nontrivial += !outs[ci][oi].is_empty() as u64;
                mesh::judge(op, &outs[ci][oi]).or_else(|(c, m)| v(c, m)).map_err(tell(ci, oi, op))?;
                if op.fmin > 0.0 {
                    let mut o = op.clone();
                    o.fmin = 0.0;
                    let (full, _) = alone(&o, &[], false);
                    mesh::min_area(op, &full, &outs[ci][oi]).or_else(|(c, m)| v(c, m)).map_err(tell(ci, oi, op))?;
                }
            }
        }
        "C13" => {
            let mut first: Option<(usize, usize)> = None;
            for (ci, oi, op) in all() {
                j.evals += 1;
                j.nontrivial += !outs[ci][oi].is_empty() as u64;
                if op.group == 1 {
                    match first {
                        None => first = Some((ci, oi)),
                        Some((a, b)) => {
                            if outs[a][b] != outs[ci][oi] {
                                return v("order", format!("{}: result depends on the order or way of adding: {} instead of {}", at(ci, oi, op), outs[ci][oi].brief(), outs[a][b].brief()));
                            }
                        }
                    }
                }
                j.exact += judge(op, &outs[ci][oi], &sc.graphs).map_err(tell(ci, oi, op))? as u64;
            }
            // variants of an exact input cover the identical region
            if let Some((a, b)) = first {
                let o1 = &sc.clients[a][b];
                if o1.exact && matches!(o1.kind, Kind::Overlay | Kind::Slice) {
                    let s1 = shapes_of(o1, &outs[a][b])?;
                    for (ci, oi, op) in all() {
                        if op.group > 1 && op.points() < 600 {
                            let s2 = shapes_of(op, &outs[ci][oi])?;
                            same_region(&s2, dir_of(op), &s1, dir_of(o1), ROWS).or_else(|m| v("variant", m)).map_err(tell(ci, oi, op))?;
                        }
                    }
                }
            }
        }
        "C14" => {
            for (ci, oi, _) in all() {
                j.evals += 1;
                j.nontrivial += !outs[ci][oi].is_empty() as u64;
            }
        }
        "C15" => {
            for (ci, oi, op) in all() {
                j.evals += 1;
                j.nontrivial += !outs[ci][oi].is_empty() as u64;
                if op.kind == Kind::Vectors {
                    j.exact += judge(op, &outs[ci][oi], &sc.graphs).map_err(tell(ci, oi, op))? as u64;
                }
                if op.kind == Kind::ShapeVectors {
                    let Out::VShapes(vs) = &outs[ci][oi] else { return v("kind", outs[ci][oi].brief()) };
                    let sh = all().find(|x| x.2.kind == Kind::Overlay && x.2.group == op.group && x.0 == ci).map(|x| &outs[x.0][x.1]);
                    shape_vectors(op, vs, sh).or_else(|m| v("shape-vectors", m)).map_err(tell(ci, oi, op))?;
                }
            }
        }
        "C17" => {
            for (ci, oi, op) in all() {
                j.evals += 1;
                j.nontrivial += !outs[ci][oi].is_empty() as u64;
                if op.kind == Kind::Decompose {
                    let op = op.fed(oi.checked_sub(1).map(|k| &outs[ci][k]));
                    let Out::Shapes(s) = &outs[ci][oi] else { return v("kind", outs[ci][oi].brief()) };
                    decomposed(&op, s).or_else(|m| v("decomposition", m)).map_err(tell(ci, oi, &op))?;
                    j.exact += 1;
                }
            }
        }
        "C19" => {
            let mut first: std::collections::BTreeMap<u32, (usize, usize)> = Default::default();
            for (ci, oi, op) in all() {
                j.evals += 1;
                j.nontrivial += !outs[ci][oi].is_empty() as u64;
                let Some(&(a, b)) = first.get(&op.group) else {
                    first.insert(op.group, (ci, oi));
                    continue;
                };
                let o = &sc.clients[a][b];
                let d = [op.shift[0] - o.shift[0], op.shift[1] - o.shift[1]];
                let want = outs[a][b].moved(d, op.unit - o.unit, op.f32);
                if outs[ci][oi] != want {
                    return v("moved", format!("{}: the input moved by {:?} and scaled by 2^{} gives {} instead of {}", at(ci, oi, op), d, op.unit - o.unit, outs[ci][oi].brief(), want.brief()));
                }
            }
        }
        "C20" => {
            let mut first: std::collections::BTreeMap<u32, (usize, usize)> = Default::default();
            for (ci, oi, op) in all() {
                j.evals += 1;
                j.nontrivial += !outs[ci][oi].is_empty() as u64;
                let Some(&(a, b)) = first.get(&op.group) else {
                    first.insert(op.group, (ci, oi));
                    continue;
                };
                symmetric(&sc.clients[a][b], &outs[a][b], op, &outs[ci][oi]).or_else(|m| v("symmetry", m)).map_err(tell(ci, oi, op))?;
            }
        }
        "C18" => {
            for (ci, oi, op) in all() {
                j.evals += 1;
                j.nontrivial += !outs[ci][oi].is_empty() as u64;
                let before = oi.checked_sub(1).map(|k| &outs[ci][k]);
                let mut fed = op.fed(before);
                if op.feed != 0 {
                    fed.exact = fed.exact && (fed.points() > 1500 || crossings(&fed).is_some());
                }
                j.exact += judge(&fed, &outs[ci][oi], &sc.graphs).map_err(tell(ci, oi, op))? as u64;
                let same = oi > 0 && {
                    let last = &sc.clients[ci][oi - 1];
                    last.kind == Kind::Overlay && last.simplify && last.cw == op.cw && last.min_area == 0
                };
                if op.group == 7 && same && op.clip.is_empty() {
                    let (s0, s1) = (shapes_of(op, before.unwrap())?, shapes_of(op, &outs[ci][oi])?);
                    if canon_shapes(&s0) != canon_shapes(&s1) && !knotted(&s0) && !knotted(&s1) {
                        return v("fixed-point", format!("{}: the simplified result of the operation before changes when it is simplified again: {} instead of {}", at(ci, oi, op), outs[ci][oi].brief(), before.unwrap().brief()));
                    }
                }
            }
        }
        "C16" => {
            for g in 1..3 {
                let mut res: Vec<(u8, Vec<Shape>, i32)> = vec![];
                for (ci, oi, op) in all() {
                    if op.group == g {
                        j.evals += 1;
                        j.nontrivial += !outs[ci][oi].is_empty() as u64;
                        res.push((op.rule, shapes_of(op, &outs[ci][oi])?, dir_of(op)));
                    }
                }
                let refs: Vec<(u8, &Vec<Shape>, i32)> = res.iter().map(|x| (x.0, &x.1, x.2)).collect();
                let mut rng = Rng::new(4);
                let big = sc.graphs.iter().map(|g| g.points()).sum::<usize>() > 1000;
                check_identities(&refs, if big { 30 } else { ROWS }, &mut rng).or_else(|m| v("identities", m))?;
            }
        }
        _ => {}
    }
    Ok(j)
}

/// the parameters a float call really uses
fn float_effective(op: &Op) -> Op {
    let mut o = op.clone();
    let api = op.form % 10;
    match op.kind {
        Kind::FOverlay | Kind::FSlice if api == 1 || api == 4 => {
            o.cw = false;
            o.fmin = 0.0;
            o.simplify = true;
        }
        _ => {}
    }
    o
}

/// calls with the same key must give the same value
fn float_is_default(op: &Op) -> bool {
    // whether clean-up runs differs between the calls of one group
    match op.form % 10 {
        1 => true,
        2 => op.kind == Kind::FSimplify,
        4 => matches!(op.kind, Kind::FOverlay | Kind::FSlice),
        _ => false,
    }
}

fn extent(op: &Op) -> i64 {
    let mut lo = [i64::MAX; 2];
    let mut hi = [i64::MIN; 2];
    for p in op.subj.iter().chain(op.clip.iter()).flatten().chain(op.lines.iter()).flatten() {
        for k in 0..2 {
            lo[k] = lo[k].min(p[k] as i64);
            hi[k] = hi[k].max(p[k] as i64);
        }
    }
    if lo[0] > hi[0] {
        return 1;
    }
    (hi[0] - lo[0]).max(hi[1] - lo[1]).max(1)
}

/// vector shapes against the shape extraction of the same rule (without simplification)
fn shape_vectors(op: &Op, vs: &[Vec<Vec<[i32; 5]>>], sh: Option<&Out>) -> Result<(), String> {
    let mut shapes: Vec<Shape> = Vec::new();
    for s in vs {
        let mut o = Vec::new();
        if s.is_empty() {
            return Err("a vector shape has no path".into());
        }
        for p in s {
            let n = p.len();
            let mut c = Vec::new();
            for (i, e) in p.iter().enumerate() {
                let nx = &p[(i + 1) % n];
                if (e[2], e[3]) != (nx[0], nx[1]) {
                    return Err(format!("vectors {:?} and {:?} are not connected", e, nx));
                }
                c.push([e[0], e[1]]);
            }
            o.push(c);
        }
        shapes.push(o);
    }
    // flags: the rule holds on exactly one side of every vector, always the same one
    let mut side = None;
    for e in vs.iter().flatten().flatten() {
        let f = e[4] as u32;
        let (l, r) = side_rules(op.rule, f);
        if l == r {
            return Err(format!("vector {:?} has the result on {} sides", e, if l { "both" } else { "no" }));
        }
        if *side.get_or_insert(l) != l {
            return Err(format!("vector {:?} has the result on its {} side, others on the other", e, if l { "left" } else { "right" }));
        }
    }
    // every outer path around its region, holes inside it, nothing covered twice
    let dir = if side == Some(true) { 1 } else { -1 };
    let sc = Scan { base: &[], shapes: &shapes, dir, max_rows: rows_for(op), tol: None, share: false, extra: vec![] };
    sc.run(&mut Rng::new(op.points() as u64 + 9), None)?;
    if let Some(Out::Shapes(s)) = sh {
        let a = canon_shapes(&shapes);
        let rev: Vec<Shape> = s.iter().map(|s| s.iter().map(|c| c.iter().rev().copied().collect()).collect()).collect();
        let b = canon_shapes(s);
        let c = canon_shapes(&rev);
        // a contour touching itself or another one in a point may be traced in more than one way
        if a != b && a != c {
            let a = directed(&shapes);
            if a != directed(s) && a != directed(&rev) {
                return Err(format!("vector shapes {:?} differ from the shapes {:?}", Out::Shapes(shapes).brief(), Out::Shapes(s.clone()).brief()));
            }
        }
    }
    Ok(())
}

fn directed(s: &[Shape]) -> Vec<[i32; 4]> {
    let mut v: Vec<[i32; 4]> = Vec::new();
    for c in s.iter().flatten() {
        for i in 0..c.len() {
            let (a, b) = (c[i], c[(i + 1) % c.len()]);
            v.push([a[0], a[1], b[0], b[1]]);
        }
    }
    v.sort_unstable();
    v
}

/// does the rule hold left and right of a vector with these side flags
/// a contour touches itself: it depends on the start and the direction how it is cut there
fn knotted(s: &[Shape]) -> bool {
    s.iter().flatten().any(|c| {
        let n = c.len();
        let mut p = c.clone();
        p.sort();
        p.windows(2).any(|w| w[0] == w[1])
            || (0..n).any(|i| {
                let (a, b) = (c[i], c[(i + 1) % n]);
                let (x0, x1, y0, y1) = (a[0].min(b[0]), a[0].max(b[0]), a[1].min(b[1]), a[1].max(b[1]));
                c.iter().any(|q| *q != a && *q != b && x0 <= q[0] && q[0] <= x1 && y0 <= q[1] && q[1] <= y1 && cross3(&a, &b, q) == 0)
            })
    })
}

/// the same call with roles, directions or output options exchanged
fn symmetric(o0: &Op, r0: &Out, o1: &Op, r1: &Out) -> Result<(), String> {
    // which points of spikes and straight runs are dropped depends on the direction, and with it what they split
    let straight = |c: &Contour| (0..c.len()).any(|i| cross3(&c[i], &c[(i + 1) % c.len()], &c[(i + 2) % c.len()]) == 0);
    if (o0.twist ^ o1.twist) & 2 != 0 && o0.subj.iter().chain(&o0.clip).flatten().any(straight) {
        return Ok(());
    }
    let swap = (o0.twist ^ o1.twist) & 1 != 0;
    let f = |x: i32| if swap { (x & 3) << 2 | x >> 2 } else { x };
    let fe = |e: &[i32; 5]| [e[0], e[1], e[2], e[3], f(e[4])];
    let want = match r0 {
        Out::Vectors(v) => Out::Vectors(v.iter().map(fe).collect()),
        Out::VShapes(v) => Out::VShapes(v.iter().map(|s| s.iter().map(|c| c.iter().map(fe).collect()).collect()).collect()),
        o => o.clone(),
    };
    let said = format!("twist {} clockwise {} simplify {}: {} where twist {} clockwise {} simplify {} gives {}", o1.twist, o1.cw, o1.simplify, r1.brief(), o0.twist, o0.cw, o0.simplify, r0.brief());
    let whole = matches!(o0.kind, Kind::Overlay | Kind::FOverlay | Kind::Slice | Kind::FSlice);
    let turned = whole && o0.cw != o1.cw;
    let thinned = matches!(o0.kind, Kind::Overlay | Kind::FOverlay) && o0.simplify != o1.simplify;
    if !turned && !thinned {
        return if want == *r1 { Ok(()) } else { Err(said) };
    }
    let ints = |o: &Out| match o {
        Out::Shapes(s) => Some(s.clone()),
        _ => None,
    };
    let (Some(s0), Some(s1)) = (ints(r0), ints(r1)) else { return Ok(()) };
    let form = |s: &[Shape], back: bool| {
        let mut s = s.to_vec();
        for c in s.iter_mut().flatten() {
            if back {
                c.reverse();
            }
            if thinned {
                while let Some(i) = (0..c.len()).find(|&i| cross3(&c[i], &c[(i + 1) % c.len()], &c[(i + 2) % c.len()]) == 0) {
                    let n = c.len();
                    c.remove((i + 1) % n);
                }
            }
        }
        canon_shapes(&s)
    };
    if form(&s0, turned) == form(&s1, false) || knotted(&s0) || knotted(&s1) {
        Ok(())
    } else {
        Err(said)
    }
}

/// the parts of a contour have no point twice and together the edges of the contour
fn decomposed(op: &Op, parts: &[Shape]) -> Result<(), String> {
    let sources: Vec<&Contour> = op.subj.iter().flatten().collect();
    if sources.len() != parts.len() {
        return Err(format!("{} results for {} contours", parts.len(), sources.len()));
    }
    for (c, parts) in sources.into_iter().zip(parts) {
        let mut pts = c.clone();
        pts.sort();
        pts.dedup();
        let repeats = c.len() >= 3 && pts.len() < c.len();
        if repeats == parts.is_empty() {
            return Err(format!("{} was {}", head(c), if repeats { "not split" } else { "split" }));
        }
        if !repeats {
            continue;
        }
        for p in parts {
            let mut q = p.clone();
            q.sort();
            q.dedup();
            if q.len() < p.len() || p.is_empty() {
                return Err(format!("part {} of {} has a point twice", head(p), head(c)));
            }
        }
        let edges = |cs: &[Contour]| {
            let mut e: Vec<[Pt; 2]> = cs.iter().flat_map(|c| (0..c.len()).map(move |i| [c[i], c[(i + 1) % c.len()]])).filter(|e| e[0] != e[1]).collect();
            e.sort();
            e
        };
        if edges(parts) != edges(std::slice::from_ref(c)) {
            return Err(format!("the parts of {} do not have its edges: {:?}", head(c), parts.iter().map(|p| head(p)).collect::<Vec<_>>()));
        }
    }
    Ok(())
}

fn side_rules(rule: u8, f: u32) -> (bool, bool) {
    let b = |k: u32| f >> k & 1 == 1;
    (rule_holds(rule, b(0), b(2)), rule_holds(rule, b(1), b(3)))
}
