//! Exact geometry for the oracles: row scans with rational hit positions.

use simkern::Rng;

pub type Pt = [i32; 2];
pub type Contour = Vec<Pt>;
pub type Shape = Vec<Contour>;

#[derive(Clone, Copy, Debug)]
pub struct Edge {
    pub ax: i64,
    pub ay: i64,
    pub bx: i64,
    pub by: i64,
    pub tag: u32,
}

impl Edge {
    pub fn new(a: [i64; 2], b: [i64; 2], tag: u32) -> Self {
        Edge { ax: a[0], ay: a[1], bx: b[0], by: b[1], tag }
    }
    pub fn transposed(&self) -> Self {
        Edge { ax: self.ay, ay: self.ax, bx: self.by, by: self.bx, tag: self.tag }
    }
}

pub fn p64(p: &Pt) -> [i64; 2] {
    [p[0] as i64, p[1] as i64]
}

/// closed contour edges
pub fn push_contour(out: &mut Vec<Edge>, c: &[Pt], tag: u32) {
    let n = c.len();
    for i in 0..n {
        let a = &c[i];
        let b = &c[(i + 1) % n];
        if a != b {
            out.push(Edge::new(p64(a), p64(b), tag));
        }
    }
}

/// open path edges
pub fn push_path(out: &mut Vec<Edge>, c: &[Pt], tag: u32) {
    for w in c.windows(2) {
        if w[0] != w[1] {
            out.push(Edge::new(p64(&w[0]), p64(&w[1]), tag));
        }
    }
}

#[derive(Clone, Copy, Debug)]
pub struct Hit {
    /// position q + r/d
    pub q: i64,
    pub r: u64,
    pub d: u64,
    pub tag: u32,
    /// +1 the edge goes up (towards larger y), -1 down
    pub dir: i32,
    pub edge: u32,
}

impl Hit {
    pub fn pos(&self) -> f64 {
        self.q as f64 + self.r as f64 / self.d as f64
    }
    pub fn same(&self, o: &Hit) -> bool {
        self.q == o.q && (self.r as u128) * (o.d as u128) == (o.r as u128) * (self.d as u128)
    }
    pub fn cmp(&self, o: &Hit) -> std::cmp::Ordering {
        self.q
            .cmp(&o.q)
            .then_with(|| ((self.r as u128) * (o.d as u128)).cmp(&((o.r as u128) * (self.d as u128))))
    }
}

#[inline]
pub fn hit_of(e: &Edge, idx: u32, y2: i64) -> Option<Hit> {
    let (a2, b2) = (2 * e.ay, 2 * e.by);
    let dir = if a2 < y2 && y2 < b2 {
        1
    } else if b2 < y2 && y2 < a2 {
        -1
    } else {
        return None;
    };
    // x = ax + (y2 - 2ay) * (bx-ax) / (2*(by-ay))
    let mut num = (y2 - a2) as i128 * (e.bx - e.ax) as i128;
    let mut den = (b2 - a2) as i128;
    if den < 0 {
        num = -num;
        den = -den;
    }
    let q = num.div_euclid(den);
    let r = num.rem_euclid(den);
    Some(Hit { q: e.ax + q as i64, r: r as u64, d: den as u64, tag: e.tag, dir, edge: idx })
}

pub fn row_hits(edges: &[Edge], y2: i64, out: &mut Vec<Hit>) {
    out.clear();
    for (i, e) in edges.iter().enumerate() {
        if let Some(h) = hit_of(e, i as u32, y2) {
            out.push(h);
        }
    }
    out.sort_unstable_by(|a, b| a.cmp(b));
}

/// rows (doubled y) strictly between consecutive vertex heights; at most `max`, sampled.
/// Always odd, so that a row never passes through an integer point.
pub fn rows(sets: &[&[Edge]], extra: &[i64], max: usize, rng: &mut Rng) -> Vec<i64> {
    let mut ys: Vec<i64> = Vec::new();
    for s in sets {
        for e in s.iter() {
            ys.push(e.ay);
            ys.push(e.by);
        }
    }
    ys.extend_from_slice(extra);
    ys.sort_unstable();
    ys.dedup();
    let mut r: Vec<i64> = ys.windows(2).map(|w| (w[0] + w[1]) | 1).collect();
    if r.len() > max {
        for i in 0..max {
            let j = i + rng.below((r.len() - i) as u64) as usize;
            r.swap(i, j);
        }
        r.truncate(max);
        r.sort_unstable();
    }
    r
}

/// result of intersecting two segments
pub enum Cross {
    None,
    Int([i64; 2]),
    NonInt,
}

pub fn cross(e: &Edge, f: &Edge) -> Cross {
    if e.ax.max(e.bx) < f.ax.min(f.bx) || f.ax.max(f.bx) < e.ax.min(e.bx) || e.ay.max(e.by) < f.ay.min(f.by) || f.ay.max(f.by) < e.ay.min(e.by) {
        return Cross::None;
    }
    let dx1 = (e.bx - e.ax) as i128;
    let dy1 = (e.by - e.ay) as i128;
    let dx2 = (f.bx - f.ax) as i128;
    let dy2 = (f.by - f.ay) as i128;
    let den = dx1 * dy2 - dy1 * dx2;
    if den == 0 {
        return Cross::None; // parallel or collinear: only end points matter
    }
    let wx = (f.ax - e.ax) as i128;
    let wy = (f.ay - e.ay) as i128;
    let mut t = wx * dy2 - wy * dx2;
    let mut u = wx * dy1 - wy * dx1;
    let mut d = den;
    if d < 0 {
        d = -d;
        t = -t;
        u = -u;
    }
    if t < 0 || t > d || u < 0 || u > d {
        return Cross::None;
    }
    let nx = t * dx1;
    let ny = t * dy1;
    if nx % d == 0 && ny % d == 0 {
        Cross::Int([e.ax + (nx / d) as i64, e.ay + (ny / d) as i64])
    } else {
        Cross::NonInt
    }
}

/// all crossing points if every crossing is an integer point, None otherwise
pub fn exact_crossings(edges: &[Edge]) -> Option<Vec<[i64; 2]>> {
    let mut v = Vec::new();
    for i in 0..edges.len() {
        for j in i + 1..edges.len() {
            match cross(&edges[i], &edges[j]) {
                Cross::None => {}
                Cross::Int(p) => v.push(p),
                Cross::NonInt => return None,
            }
        }
    }
    Some(v)
}

pub fn dist_point_edge(px: f64, py: f64, e: &Edge) -> f64 {
    dist_seg(px, py, e.ax as f64, e.ay as f64, e.bx as f64, e.by as f64)
}

pub fn dist_seg(px: f64, py: f64, ax: f64, ay: f64, bx: f64, by: f64) -> f64 {
    let (dx, dy) = (bx - ax, by - ay);
    let l2 = dx * dx + dy * dy;
    let t = if l2 == 0.0 { 0.0 } else { (((px - ax) * dx + (py - ay) * dy) / l2).clamp(0.0, 1.0) };
    let (x, y) = (ax + t * dx - px, ay + t * dy - py);
    (x * x + y * y).sqrt()
}

/// twice the signed area, positive for counter-clockwise (y up)
pub fn area2(c: &[Pt]) -> i128 {
    let n = c.len();
    let mut s = 0i128;
    for i in 0..n {
        let a = c[i];
        let b = c[(i + 1) % n];
        s += a[0] as i128 * b[1] as i128 - a[1] as i128 * b[0] as i128;
    }
    s
}

pub fn cross3(a: &Pt, b: &Pt, c: &Pt) -> i128 {
    (b[0] as i128 - a[0] as i128) * (c[1] as i128 - a[1] as i128) - (b[1] as i128 - a[1] as i128) * (c[0] as i128 - a[0] as i128)
}
