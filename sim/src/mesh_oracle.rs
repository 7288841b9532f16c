//! Strokes and outlines: workloads and distance oracles.

use crate::geom::*;
use crate::ops::*;
use simkern::Rng;
use std::f64::consts::PI;

type P2 = [f64; 2];

fn sub(a: P2, b: P2) -> P2 {
    [a[0] - b[0], a[1] - b[1]]
}
fn dot(a: P2, b: P2) -> f64 {
    a[0] * b[0] + a[1] * b[1]
}
fn crs(a: P2, b: P2) -> f64 {
    a[0] * b[1] - a[1] * b[0]
}
fn len(a: P2) -> f64 {
    dot(a, a).sqrt()
}

/// input with the same few angles everywhere: squares, staircases and equal round caps
pub fn regular(r: &mut Rng, op: &mut Op) {
    let k = fscale(op);
    op.min_area = 0;
    op.fmin = 0.0;
    op.style[2] = 2.0;
    op.style[3] = *r.pick(&[0.04, 0.1, 0.2, 0.3, 0.5]);
    match op.kind {
        Kind::Stroke => {
            let g = 20 + r.below(40) as i32;
            op.lines.clear();
            for i in 0..1 + r.below(3) as i32 {
                let mut p = [0, i * 3 * g];
                let mut c = vec![p];
                let up = r.chance(0.5);
                for j in 0..2 + r.below(8) as i32 {
                    if j & 1 == 0 {
                        p[0] += g
                    } else {
                        p[1] += if up || j & 2 == 0 { g } else { -g }
                    }
                    c.push(p);
                }
                op.lines.push(c);
            }
            op.style[0] = (0.2 + 0.6 * r.f64()) * g as f64 * k;
            let caps = if r.chance(0.7) { 2.0 } else { r.below(8) as f64 };
            let q = *r.pick(&[0.05, 0.1, 0.2, 0.7]);
            for i in [4usize, 6] {
                op.style[i] = caps;
                op.style[i + 1] = q;
            }
        }
        _ => {
            let g = 20 + r.below(40) as i32;
            op.subj = (0..1 + r.below(4) as i32)
                .map(|i| {
                    let x = 3 * g * i;
                    if r.chance(0.5) {
                        vec![vec![[x, 0], [x + g, 0], [x + g, g], [x, g]]]
                    } else {
                        vec![vec![[x + g / 2, 0], [x + g, g / 2], [x + g / 2, g], [x, g / 2]]]
                    }
                })
                .collect();
            op.style[0] = (0.1 + 0.5 * r.f64()) * g as f64 * k;
            op.style[1] = op.style[0];
        }
    }
}

pub fn join_style(r: &mut Rng, op: &mut Op) {
    match r.below(3) {
        0 => {
            op.style[2] = 0.0;
        }
        1 => {
            op.style[2] = 1.0;
            op.style[3] = *r.pick(&[0.05, 0.2, 0.7, 1.5, 2.5, 0.05, 0.2, 0.7, 1.5, 2.5, 0.0, -1.0, 4.0]);
        }
        _ => {
            op.style[2] = 2.0;
            op.style[3] = *r.pick(&[0.04, 0.1, 0.3, 0.7, 2.0, 0.04, 0.1, 0.3, 0.7, 0.0, -0.5, 1e-7]);
        }
    }
}

/// a minimum area around the sizes that occur
fn some_min_area(r: &mut Rng, op: &mut Op, g: f64) {
    if op.form % 100 != 1 && r.chance(0.2) {
        op.form %= 100;
        let k = fscale(op);
        op.fmin = (g * g * k * k * *r.pick(&[1e-4, 1e-3, 0.01, 0.1, 0.4]) * (0.5 + r.f64())) as f32 as f64;
    }
}

pub fn stroke_op(r: &mut Rng) -> Op {
    let mut op = Op::new(Kind::Stroke);
    op.closed = r.chance(0.4);
    // points a few units of the integer grid apart, far from each other
    let huge = r.chance(0.12);
    let g = if huge { 1 << (24 + r.below(6)) } else { *r.pick(&[10i64, 40, 200, 1000]) };
    let n = 1 + r.below(3);
    for _ in 0..n {
        let k = 2 + r.below(6);
        let mut p: Vec<Pt> = (0..k).map(|_| [r.range(-g, g) as i32, r.range(-g, g) as i32]).collect();
        if r.chance(0.3) {
            // axis parallel
            for i in 1..p.len() {
                let q = p[i - 1];
                p[i][(i & 1) ^ 1] = q[(i & 1) ^ 1];
            }
        }
        if huge {
            for _ in 0..1 + r.below(6) {
                let i = r.below(p.len() as u64) as usize;
                let q = [p[i][0] + r.range(-3, 3) as i32, p[i][1] + r.range(-3, 3) as i32];
                p.insert(i + 1, q);
            }
        }
        if r.chance(0.2) {
            let i = r.below(p.len() as u64) as usize;
            p.insert(i, p[i]);
        }
        if r.chance(0.15) && op.closed {
            p.push(p[0]);
        }
        op.lines.push(p);
    }
    op.f32 = !huge && r.chance(0.3);
    op.fexp = if r.chance(0.4) { 0 } else { r.range(-6, 6) as i32 };
    // segments not shorter than the width, mostly
    let mut shortest = i64::MAX;
    for p in &op.lines {
        let m = p.len();
        for i in 0..m {
            if i + 1 == m && !op.closed {
                continue;
            }
            let (a, b) = (p[i], p[(i + 1) % m]);
            let l = (((a[0] - b[0]) as f64).powi(2) + ((a[1] - b[1]) as f64).powi(2)).sqrt() as i64;
            if l > 0 {
                shortest = shortest.min(l);
            }
        }
    }
    let w = if r.chance(if huge { 0.7 } else { 0.1 }) {
        // as thin as the grid
        g as f64 * 0.5f64.powf(4.0 + 25.0 * r.f64())
    } else if shortest < i64::MAX && r.chance(0.8) { shortest as f64 * (0.05 + 0.9 * r.f64()) } else { g as f64 * r.f64() };
    op.style[0] = if w < 0.01 { w as f32 as f64 } else { (w * 1024.0).round() / 1024.0 } * fscale(&op);
    join_style(r, &mut op);
    for i in [4usize, 6] {
        op.style[i] = r.below(8) as f64;
        op.style[i + 1] = *r.pick(&[0.05, 0.2, 0.7, 0.05, 0.2, 0.7, 0.0, -2.0, 3.0]);
    }
    op.cw = r.chance(0.4);
    op.form = r.below(4) as u8;
    if r.chance(0.2) {
        op.form += 100;
    }
    some_min_area(r, &mut op, g as f64);
    if r.chance(0.03) {
        op.style[0] = -op.style[0];
    }
    if r.chance(0.05) {
        let i = r.below(op.lines.len() as u64 + 1) as usize;
        op.lines.insert(i, vec![]);
    }
    if r.chance(0.05) {
        let i = r.below(op.lines.len() as u64 + 1) as usize;
        op.lines.insert(i, vec![[r.range(-g, g) as i32, r.range(-g, g) as i32]]);
    }
    op
}

fn star(r: &mut Rng, c: P2, rad: f64, n: usize) -> Vec<Pt> {
    let t0 = r.f64() * 2.0 * PI;
    (0..n)
        .map(|i| {
            let a = t0 + 2.0 * PI * i as f64 / n as f64;
            let q = rad * (0.45 + 0.55 * r.f64());
            [(c[0] + a.cos() * q).round() as i32, (c[1] + a.sin() * q).round() as i32]
        })
        .collect()
}

fn simple_contour(c: &[Pt]) -> bool {
    let mut e = Vec::new();
    push_contour(&mut e, c, 0);
    let n = e.len();
    if n < 3 || n != c.len() {
        return false;
    }
    for i in 0..n {
        for j in i + 1..n {
            let adj = j == i + 1 || (i == 0 && j == n - 1);
            let (a, b) = (&e[i], &e[j]);
            let s = |e: &Edge, p: [i64; 2]| (e.bx - e.ax) as i128 * (p[1] - e.ay) as i128 - (e.by - e.ay) as i128 * (p[0] - e.ax) as i128;
            if adj {
                let (x, y) = if j == i + 1 { (&e[i], &e[j]) } else { (&e[j], &e[i]) };
                if s(x, [y.bx, y.by]) == 0 {
                    return false; // collinear neighbours
                }
                continue;
            }
            let d1 = s(a, [b.ax, b.ay]).signum() * s(a, [b.bx, b.by]).signum();
            let d2 = s(b, [a.ax, a.ay]).signum() * s(b, [a.bx, a.by]).signum();
            if d1 <= 0 && d2 <= 0 {
                return false;
            }
        }
    }
    true
}

pub fn outline_op(r: &mut Rng) -> Op {
    let mut op = Op::new(Kind::Outline);
    let mut x = 0.0;
    for _ in 0..1 + r.below(3) {
        let rad = *r.pick(&[20.0, 80.0, 300.0]);
        let c = [x + rad, r.range(-50, 50) as f64];
        x += 2.2 * rad + r.below(60) as f64;
        let mut outer = vec![];
        for _ in 0..20 {
            let n = 3 + r.below(8) as usize;
            outer = if r.chance(0.3) {
                let (w, h) = ((rad * (0.2 + 0.8 * r.f64())) as i32 + 1, (rad * (0.2 + 0.8 * r.f64())) as i32 + 1);
                let (cx, cy) = (c[0] as i32, c[1] as i32);
                let mut v = vec![[cx - w, cy - h], [cx + w, cy - h], [cx + w, cy + h], [cx - w, cy + h]];
                if r.chance(0.5) {
                    // a notch
                    v.push([cx - w, cy + h / 2]);
                    v.push([cx + w / 2, cy + h / 2]);
                    v.push([cx + w / 2, cy]);
                    v.push([cx - w, cy]);
                }
                v
            } else {
                star(r, c, rad, n)
            };
            if simple_contour(&outer) && area2(&outer) > 0 {
                break;
            }
            outer.clear();
        }
        if outer.is_empty() {
            continue;
        }
        let mut s = vec![outer.clone()];
        if r.chance(0.5) {
            let hn = 3 + r.below(5) as usize;
            let mut h = star(r, c, rad * 0.3, hn);
            if simple_contour(&h) && h.iter().all(|p| inside(&[outer.iter().map(|q| [q[0] as f64, q[1] as f64]).collect()], [p[0] as f64, p[1] as f64]) != 0) {
                // edges must not cross the outer contour
                let mut e1 = Vec::new();
                push_contour(&mut e1, &outer, 0);
                let mut e2 = Vec::new();
                push_contour(&mut e2, &h, 0);
                if e1.iter().all(|a| e2.iter().all(|b| matches!(cross(a, b), Cross::None))) {
                    if area2(&h) > 0 {
                        h.reverse();
                    }
                    s.push(h);
                }
            }
        }
        op.subj.push(s);
    }
    if op.subj.is_empty() {
        op.subj.push(vec![vec![[0, 0], [50, 0], [50, 40], [0, 40]]]);
    }
    let huge = r.chance(0.12);
    if huge {
        // large contours with corners cut by a few units of the grid
        let k = 10 + r.below(9);
        for s in op.subj.iter_mut() {
            for c in s.iter_mut() {
                for p in c.iter_mut() {
                    *p = [p[0] << k, p[1] << k];
                }
                for _ in 0..r.below(4) {
                    let i = r.below(c.len() as u64) as usize;
                    let mut d = c.clone();
                    d.insert(i + 1, [c[i][0] + r.range(-3, 3) as i32, c[i][1] + r.range(-3, 3) as i32]);
                    if simple_contour(&d) && (area2(&d) > 0) == (area2(c) > 0) {
                        *c = d;
                    }
                }
            }
        }
    }
    op.f32 = !huge && r.chance(0.3);
    op.fexp = if r.chance(0.4) { 0 } else { r.range(-6, 6) as i32 };
    let mut shortest = f64::MAX;
    for c in op.subj.iter().flatten() {
        for i in 0..c.len() {
            let (a, b) = (c[i], c[(i + 1) % c.len()]);
            shortest = shortest.min(len([(a[0] - b[0]) as f64, (a[1] - b[1]) as f64]));
        }
    }
    let k = fscale(&op);
    let mut d = |r: &mut Rng| {
        let m = if r.chance(0.1) {
            // as thin as the grid
            80.0 * if huge { 1e4 } else { 1.0 } * 0.5f64.powf(4.0 + 25.0 * r.f64())
        } else if huge && r.chance(0.5) {
            1e4 + 1e7 * r.f64()
        } else if r.chance(0.8) {
            shortest * 0.5
        } else {
            shortest * 2.0
        };
        let v = m * (0.02 + 0.93 * r.f64());
        let v = if m < 0.01 { v as f32 as f64 } else { (v * 1024.0).round() / 1024.0 } * k;
        if r.chance(0.4) {
            -v
        } else {
            v
        }
    };
    op.style[0] = d(r);
    op.style[1] = if r.chance(0.5) { op.style[0] } else { d(r) };
    join_style(r, &mut op);
    op.cw = r.chance(0.4);
    op.form = *r.pick(&[0u8, 1, 2, 3]);
    if op.form == 1 {
        op.cw = false;
    }
    if r.chance(0.2) {
        op.form += 100;
    }
    some_min_area(r, &mut op, 80.0);
    op
}

/// winding number
fn inside(cs: &[Vec<P2>], p: P2) -> i32 {
    let mut w = 0;
    for c in cs {
        let n = c.len();
        for i in 0..n {
            let (a, b) = (c[i], c[(i + 1) % n]);
            if a[1] <= p[1] {
                if b[1] > p[1] && crs(sub(b, a), sub(p, a)) > 0.0 {
                    w += 1;
                }
            } else if b[1] <= p[1] && crs(sub(b, a), sub(p, a)) < 0.0 {
                w -= 1;
            }
        }
    }
    w
}

fn signed_area(c: &[P2]) -> f64 {
    let n = c.len();
    let o = c[0];
    (0..n).map(|i| crs(sub(c[i], o), sub(c[(i + 1) % n], o))).sum::<f64>() * 0.5
}

fn result(op: &Op, out: &Out) -> Result<Vec<Vec<Vec<P2>>>, (&'static str, String)> {
    let Out::FShapes(s) = out else { return Err(("kind", out.brief())) };
    let _ = op;
    Ok(s.iter().map(|s| s.iter().map(|c| c.iter().map(|p| [f64::from_bits(p[0]), f64::from_bits(p[1])]).collect()).collect()).collect())
}

fn well_formed(shapes: &[Vec<Vec<P2>>], cw: bool, eps: f64) -> Result<(), (&'static str, String)> {
    let d = if cw { -1.0 } else { 1.0 };
    for (i, s) in shapes.iter().enumerate() {
        if s.is_empty() {
            return Err(("structure", format!("shape {} has no contour", i)));
        }
        for (j, c) in s.iter().enumerate() {
            if c.len() < 3 {
                return Err(("structure", format!("contour {}/{} has {} points", i, j, c.len())));
            }
            if c.iter().flatten().any(|v| !v.is_finite()) {
                return Err(("structure", format!("contour {}/{} has a coordinate that is not finite", i, j)));
            }
            let per: f64 = (0..c.len()).map(|k| len(sub(c[k], c[(k + 1) % c.len()]))).sum();
            let a = signed_area(c) * d * if j == 0 { 1.0 } else { -1.0 };
            if a < -eps * per {
                return Err(("structure", format!("contour {}/{} has the wrong direction (area {})", i, j, a)));
            }
        }
    }
    Ok(())
}

struct Seg {
    a: P2,
    b: P2,
    d: P2,
    l: f64,
}

fn segs(p: &[P2], closed: bool) -> Vec<Seg> {
    let mut q: Vec<P2> = Vec::new();
    for v in p {
        if q.last() != Some(v) {
            q.push(*v);
        }
    }
    if closed {
        while q.len() > 1 && q[0] == q[q.len() - 1] {
            q.pop();
        }
    }
    let n = q.len();
    if n < 2 {
        return vec![];
    }
    let m = if closed { n } else { n - 1 };
    (0..m)
        .map(|i| {
            let (a, b) = (q[i], q[(i + 1) % n]);
            let v = sub(b, a);
            let l = len(v);
            Seg { a, b, d: [v[0] / l, v[1] / l], l }
        })
        .collect()
}

/// how far a join may reach from its vertex, relative to the radius
fn join_reach(op: &Op) -> f64 {
    if op.style[2] as i32 == 1 {
        let a = op.style[3].clamp(0.01 * PI, 0.99 * PI).max(0.01);
        1.0 / (a * 0.5).sin()
    } else {
        1.0
    }
}

/// how deep `q` lies in a convex polygon, negative outside
fn depth(poly: &[P2], q: P2) -> f64 {
    let n = poly.len();
    let mut area = 0.0;
    for i in 0..n {
        area += crs(poly[i], poly[(i + 1) % n]);
    }
    let s = if area < 0.0 { -1.0 } else { 1.0 };
    let mut m = f64::MAX;
    for i in 0..n {
        let (a, b) = (poly[i], poly[(i + 1) % n]);
        let v = sub(b, a);
        let l = len(v);
        if l > 0.0 {
            m = m.min(s * crs(v, sub(q, a)) / l);
        }
    }
    m
}

/// (certainly covered, possibly covered) by the join of directions d0, d1; `e` is relative to the vertex
fn join_cover(op: &Op, d0: P2, d1: P2, rad: f64, e: P2, eps: f64) -> (bool, bool) {
    let (c, d) = (crs(d0, d1), dot(d0, d1));
    let dist = len(e);
    let near = dist < rad * join_reach(op) + eps;
    let s = if c > 0.0 { rad } else { -rad };
    let (n0, n1) = ([s * d0[1], -s * d0[0]], [s * d1[1], -s * d1[0]]);
    let bevel = depth(&[[0.0, 0.0], n0, n1], e);
    if c.abs() < 1e-3 {
        // nearly straight, or a full turn back, which has no outer side
        return (false, dist < rad + eps || (d < 0.0 && near));
    }
    match op.style[2] as i32 {
        1 => {
            let a = op.style[3].clamp(0.01 * PI, 0.99 * PI).max(0.01);
            let l = rad / (0.5 * a).tan();
            let limited = || depth(&[[0.0, 0.0], n0, [n0[0] + l * d0[0], n0[1] + l * d0[1]], [n1[0] - l * d1[0], n1[1] - l * d1[1]], n1], e);
            let sharp = || {
                let k = 1.0 / (1.0 + d);
                depth(&[[0.0, 0.0], n0, [k * (n0[0] + n1[0]), k * (n0[1] + n1[1])], n1], e)
            };
            let phi = c.abs().atan2(-d);
            let (lo, hi) = if phi < a - 1e-3 {
                let x = limited();
                (x, x)
            } else if phi > a + 1e-3 {
                let x = sharp();
                (x, x)
            } else {
                let (x, y) = (limited(), sharp());
                (x.min(y), x.max(y))
            };
            (lo > eps, hi > -eps)
        }
        2 => {
            let a = op.style[3].clamp(0.01 * PI, 0.25 * PI);
            let sector = dot(e, d0) > eps && dot(e, d1) < -eps;
            let may = dot(e, d0) > -eps && dot(e, d1) < eps && dist < rad + eps;
            (bevel > eps || (sector && dist < rad * (0.75 * a).cos() - eps), may)
        }
        _ => (bevel > eps, bevel > -eps),
    }
}

pub fn judge(op: &Op, out: &Out) -> Result<(), (&'static str, String)> {
    let shapes = result(op, out)?;
    let k = fscale(op);
    let f = |c: &Contour| -> Vec<P2> { c.iter().map(|p| [p[0] as f64 * k, p[1] as f64 * k]).collect() };
    let mut ext = 0f64;
    for p in op.subj.iter().flatten().chain(op.lines.iter()).flatten() {
        ext = ext.max((p[0].abs().max(p[1].abs())) as f64 * k);
    }
    ext += op.style[0].abs() * join_reach(op) + op.style[1].abs() * join_reach(op);
    if op.kind == Kind::Stroke {
        ext += 10.0 * op.style[0].abs();
    }
    let thin = op.style[0].abs().min(if op.kind == Kind::Stroke { f64::MAX } else { op.style[1].abs() }) < 2e-5 * ext;
    let eps = ext * if op.f32 { 2e-5 } else if thin { 1e-8 } else { 1e-7 };
    let cw = op.cw && op.form % 100 != 1;
    well_formed(&shapes, cw, eps)?;
    let flat: Vec<Vec<P2>> = shapes.into_iter().flatten().collect();
    if op.fmin > 0.0 {
        // what a minimum area removes is judged by `min_area`
        return Ok(());
    }
    let mut r = Rng::new(op.points() as u64 + 99);
    if op.kind == Kind::Stroke {
        stroke(op, &flat, &op.lines.iter().map(f).collect::<Vec<_>>(), eps, cw, &mut r)
    } else {
        outline(op, &flat, &op.subj.iter().map(|s| s.iter().map(f).collect()).collect::<Vec<_>>(), eps, cw, &mut r)
    }
}

/// a minimum area removes exactly the contours below it; `full` is the result without one
pub fn min_area(op: &Op, full: &Out, out: &Out) -> Result<(), (&'static str, String)> {
    type Key = Vec<[u64; 2]>;
    let key = |c: &[P2]| -> Key { c.iter().map(|p| [p[0].to_bits(), p[1].to_bits()]).collect() };
    let all = result(op, full)?;
    let got = result(op, out)?;
    let ext = all.iter().flatten().flatten().fold(0f64, |m, p| m.max(p[0].abs()).max(p[1].abs()));
    let eps = op.fmin * 1e-4 + ext * ext * if op.f32 { 1e-4 } else { 1e-7 };
    let side = |a: f64| if a > op.fmin + eps { 1 } else if a < op.fmin - eps { -1 } else { 0 };
    let mut have: std::collections::HashMap<Key, i64> = Default::default();
    for c in got.iter().flatten() {
        let a = signed_area(c).abs();
        if side(a) < 0 {
            return Err(("min-area", format!("a contour with area {} is below the minimum {}", a, op.fmin)));
        }
        *have.entry(key(c)).or_insert(0) += 1;
    }
    for s in &all {
        let outer = side(signed_area(&s[0]).abs());
        for c in s {
            let a = signed_area(c).abs();
            let e = have.entry(key(c)).or_insert(0);
            *e -= 1;
            if *e < 0 && side(a) > 0 && outer > 0 {
                return Err(("min-area", format!("a contour with area {} is missing with the minimum {}", a, op.fmin)));
            }
        }
    }
    if have.values().any(|n| *n > 0) {
        return Err(("min-area", "a contour appears only with the minimum area".into()));
    }
    Ok(())
}

fn cover_count(flat: &[Vec<P2>], p: P2, cw: bool) -> Result<bool, (&'static str, String)> {
    let w = inside(flat, p) * if cw { -1 } else { 1 };
    if w != 0 && w != 1 {
        return Err(("structure", format!("point {:?} is covered {} times", p, w)));
    }
    Ok(w == 1)
}

fn near_out(flat: &[Vec<P2>], p: P2, eps: f64) -> bool {
    flat.iter().any(|c| (0..c.len()).any(|i| {
        let (a, b) = (c[i], c[(i + 1) % c.len()]);
        dist_seg(p[0], p[1], a[0], a[1], b[0], b[1]) < eps
    }))
}

fn stroke(op: &Op, flat: &[Vec<P2>], paths: &[Vec<P2>], eps: f64, cw: bool, r: &mut Rng) -> Result<(), (&'static str, String)> {
    if op.style[0] <= 0.0 && !flat.is_empty() {
        return Err(("region", "a stroke without width is not empty".into()));
    }
    let rad = 0.5 * op.style[0].max(0.0);
    if rad < 8.0 * eps {
        return Ok(());
    }
    let all: Vec<Vec<Seg>> = paths.iter().map(|p| segs(p, op.closed)).collect();
    if all.iter().all(|s| s.is_empty()) {
        if !flat.is_empty() {
            return Err(("region", "a stroke of nothing is not empty".into()));
        }
        return Ok(());
    }
    // around a corner between segments shorter than the width nothing is promised
    let mut bad: Vec<P2> = Vec::new();
    for ss in &all {
        for i in 0..ss.len() {
            let j = if i + 1 < ss.len() {
                i + 1
            } else if op.closed {
                0
            } else {
                break;
            };
            if ss[i].l.min(ss[j].l) < 2.0 * rad {
                bad.push(ss[i].b);
            }
        }
    }
    let cap_reach = |i: usize| -> f64 {
        match op.style[i] as i32 {
            1 => 1.0,
            2 => 2f64.sqrt(),
            k @ 3..=7 => cap_points(k).iter().map(|p| len(*p)).fold(0.0, f64::max),
            _ => 0.0,
        }
    };
    let reach = join_reach(op).min(40.0).max(cap_reach(4)).max(cap_reach(6));
    // points closer than the grid may be taken for one point
    let tiny: Vec<P2> = all.iter().flatten().filter(|s| s.l < 8.0 * eps).flat_map(|s| [s.a, s.b]).collect();
    let full_reach = join_reach(op).max(cap_reach(4)).max(cap_reach(6)).max(1.0);
    for _ in 0..240 {
        let ss = &all[r.below(all.len() as u64) as usize];
        if ss.is_empty() {
            continue;
        }
        let s = &ss[r.below(ss.len() as u64) as usize];
        let q = match r.below(3) {
            0 => {
                let t = s.l * r.f64();
                let h = rad * *r.pick(&[0.0, 0.5, 0.9, 0.99, 1.01, 1.1, 1.5, 3.0]) * if r.chance(0.5) { 1.0 } else { -1.0 };
                [s.a[0] + s.d[0] * t - s.d[1] * h, s.a[1] + s.d[1] * t + s.d[0] * h]
            }
            _ => {
                let c = if r.chance(0.5) { s.a } else { s.b };
                let a = r.f64() * 2.0 * PI;
                let h = rad * *r.pick(&[0.3, 0.7, 0.9, 0.97, 1.03, 1.2, 1.6, 2.5, reach * 0.9, reach * 1.1]);
                [c[0] + h * a.cos(), c[1] + h * a.sin()]
            }
        };
        if tiny.iter().any(|v| len(sub(q, *v)) < full_reach * rad + 16.0 * eps) {
            continue;
        }
        let long = bad.iter().all(|v| len(sub(q, *v)) > rad + eps);
        // what is promised for q
        let mut must = false;
        let mut may = false;
        for ss in &all {
            let m = ss.len();
            for (i, s) in ss.iter().enumerate() {
                let v = sub(q, s.a);
                let (t, h) = (dot(v, s.d), crs(s.d, v).abs());
                if t > eps && t < s.l - eps && h < rad - eps && long {
                    must = true;
                }
                if t > -eps && t < s.l + eps && h < rad + eps {
                    may = true;
                }
                // the join after this segment
                let nx = if i + 1 < m {
                    Some(&ss[i + 1])
                } else if op.closed {
                    Some(&ss[0])
                } else {
                    None
                };
                let e = sub(q, s.b);
                if let Some(n) = nx {
                    let (a, b) = join_cover(op, s.d, n.d, rad, e, eps);
                    must |= a && long;
                    may |= b || (s.l.min(n.l) < 2.0 * rad && len(e) < rad + eps);
                } else {
                    cap(op, 6, e, s.d, rad, eps, long, &mut must, &mut may);
                }
                if i == 0 && !op.closed {
                    cap(op, 4, sub(q, s.a), [-s.d[0], -s.d[1]], rad, eps, long, &mut must, &mut may);
                }
            }
        }
        if near_out(flat, q, eps * 0.25) {
            continue;
        }
        let got = cover_count(flat, q, cw)?;
        if must && !got {
            return Err(("region", format!("point {:?} is closer to the path than half the width but is not covered", q)));
        }
        if !may && got {
            return Err(("region", format!("point {:?} is farther from the path than the stroke reaches but is covered", q)));
        }
    }
    Ok(())
}

#[allow(clippy::too_many_arguments)]
fn cap(op: &Op, i: usize, e: P2, d: P2, rad: f64, eps: f64, long: bool, must: &mut bool, may: &mut bool) {
    let (t, h) = (dot(e, d), crs(d, e).abs());
    let dist = len(e);
    match op.style[i] as i32 {
        0 => {
            if dist < eps {
                *may = true
            }
        }
        1 => {
            let a = op.style[i + 1].clamp(0.01 * PI, 0.25 * PI);
            let n = (PI / a - 1e-5).floor().clamp(2.0, 1024.0);
            if dist < rad * (0.5 * PI / n).cos() - eps && t > eps && long {
                *must = true;
            }
            if dist < rad + eps {
                *may = true;
            }
        }
        2 => {
            if t > eps && t < rad - eps && h < rad - eps && long {
                *must = true;
            }
            if t < rad + eps && t > -eps && h < rad + eps {
                *may = true;
            }
        }
        k => {
            // the template runs from the right side of the path to the left one
            let mut poly: Vec<P2> = vec![[0.0, -rad]];
            poly.extend(cap_points(k).iter().map(|p| [p[0] * rad, p[1] * rad]));
            poly.push([0.0, rad]);
            let q = [t, crs(d, e)];
            let isin = inside(&[poly.clone()], q) != 0;
            let near = near_out(&[poly], q, eps);
            if isin && !near && long {
                *must = true;
            }
            if isin || near {
                *may = true;
            }
        }
    }
}

/// +1 certainly inside the offset of the contour, -1 certainly outside, 0 no promise
fn offset_side(op: &Op, c: &[P2], d: f64, q: P2, eps: f64) -> i32 {
    let ss = segs(c, true);
    let isin = inside(&[c.to_vec()], q) != 0;
    let long = ss.iter().all(|s| s.l >= 2.0 * d.abs());
    let reach = join_reach(op) * d.abs();
    let mut dist = f64::MAX;
    let mut foot = f64::MAX;
    for s in &ss {
        let v = sub(q, s.a);
        let t = dot(v, s.d);
        dist = dist.min(dist_seg(q[0], q[1], s.a[0], s.a[1], s.b[0], s.b[1]));
        if t > eps && t < s.l - eps {
            foot = foot.min(crs(s.d, v).abs());
        }
    }
    if d >= 0.0 {
        if long && ((isin && dist > eps) || foot < d - eps) {
            return 1;
        }
        if !isin && dist > reach + eps {
            return -1;
        }
    } else {
        if isin && dist > reach + eps {
            return 1;
        }
        if long && ((!isin && dist > eps) || foot < -d - eps) {
            return -1;
        }
    }
    0
}

fn outline(op: &Op, flat: &[Vec<P2>], shapes: &[Vec<Vec<P2>>], eps: f64, cw: bool, r: &mut Rng) -> Result<(), (&'static str, String)> {
    let (oo, io) = (op.style[0], op.style[1]);
    if shapes.iter().any(|s| s.iter().enumerate().any(|(i, c)| (signed_area(c) > 0.0) != (i == 0))) {
        // not the documented directions (only while a counterexample is made smaller)
        return Ok(());
    }
    let single = shapes.iter().map(|s| s.len()).sum::<usize>() == 1;
    let reach = join_reach(op).min(40.0);
    for _ in 0..240 {
        let s = r.pick(shapes);
        let c = r.pick(s);
        let i = r.below(c.len() as u64) as usize;
        let (a, b) = (c[i], c[(i + 1) % c.len()]);
        let off = if r.chance(0.5) { oo } else { io };
        let q = match r.below(4) {
            0 => {
                let t = r.f64();
                let v = sub(b, a);
                let l = len(v);
                let h = off.abs() * *r.pick(&[0.1, 0.5, 0.9, 0.98, 1.02, 1.2, 2.0]) * if r.chance(0.5) { 1.0 } else { -1.0 };
                [a[0] + v[0] * t - v[1] / l * h, a[1] + v[1] * t + v[0] / l * h]
            }
            1 => {
                let (c2, t) = (c[r.below(c.len() as u64) as usize], r.f64());
                [a[0] + (c2[0] - a[0]) * t, a[1] + (c2[1] - a[1]) * t]
            }
            _ => {
                let w = r.f64() * 2.0 * PI;
                let h = off.abs() * *r.pick(&[0.5, 0.9, 1.05, 1.5, 3.0, reach * 0.9, reach * 1.05]);
                [a[0] + h * w.cos(), a[1] + h * w.sin()]
            }
        };
        // union over the shapes
        let mut known_in = false;
        let mut known_out = true;
        for s in shapes {
            let o = offset_side(op, &s[0], oo, q, eps);
            let mut ins = o == 1;
            let mut outs = o == -1;
            for h in &s[1..] {
                match offset_side(op, h, -io, q, eps) {
                    1 => {
                        outs = true;
                        ins = false;
                    }
                    0 => ins = false,
                    _ => {}
                }
            }
            known_in |= ins;
            known_out &= outs;
        }
        let _ = single;
        // a hole that outgrows its own shape may cut others, nothing is promised there
        known_in &= shapes.iter().all(|s| s[1..].iter().all(|h| offset_side(op, h, -io, q, eps) == -1));
        if near_out(flat, q, eps * 0.25) {
            continue;
        }
        let got = cover_count(flat, q, cw)?;
        if known_in && !got {
            return Err(("region", format!("point {:?} belongs to the offset region but is not covered", q)));
        }
        if known_out && got {
            return Err(("region", format!("point {:?} does not belong to the offset region but is covered", q)));
        }
    }
    Ok(())
}
