//! Seeded workload generators.

use crate::geom::*;
use simkern::Rng;

pub const LIM: i64 = (1 << 30) - 1;

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Size {
    Tiny,
    Small,
    Medium,
    Large(usize),
}

#[derive(Clone, Debug, Default)]
pub struct Work {
    pub subj: Vec<Shape>,
    pub clip: Vec<Shape>,
    pub lines: Vec<Contour>,
    pub closed: bool,
    /// crossings of the input edges are integer points
    pub exact: bool,
}

type L = [i64; 2];

const D4: [L; 8] = [[1, 0], [1, 1], [0, 1], [-1, 1], [-1, 0], [-1, -1], [0, -1], [1, -1]];
const D8: [L; 16] = [
    [1, 0],
    [2, 1],
    [1, 1],
    [1, 2],
    [0, 1],
    [-1, 2],
    [-1, 1],
    [-2, 1],
    [-1, 0],
    [-2, -1],
    [-1, -1],
    [-1, -2],
    [0, -1],
    [1, -2],
    [1, -1],
    [2, -1],
];

struct Lat {
    g: i64,
    dirs8: bool,
    axis: bool,
}

impl Lat {
    fn clampable(&self, p: L) -> bool {
        p[0] >= 0 && p[1] >= 0 && p[0] <= self.g && p[1] <= self.g
    }
    fn pt(&self, r: &mut Rng) -> L {
        [r.range(0, self.g), r.range(0, self.g)]
    }
    fn dir(&self, r: &mut Rng) -> L {
        if self.axis {
            D4[2 * r.below(4) as usize]
        } else if self.dirs8 {
            D8[r.below(16) as usize]
        } else {
            D4[r.below(8) as usize]
        }
    }
    fn rect(&self, r: &mut Rng) -> Vec<L> {
        let m = (self.g / 2).max(1);
        let (w, h) = if r.chance(0.3) { (r.range(1, m), r.range(1, m)) } else { (r.range(1, (m / 2).max(1)), r.range(1, (m / 2).max(1))) };
        let x = r.range(0, self.g - w);
        let y = r.range(0, self.g - h);
        rect(x, y, w, h)
    }
    fn walk(&self, r: &mut Rng, steps: usize) -> Vec<L> {
        let mut p = self.pt(r);
        let s = p;
        let mut v = vec![p];
        let maxlen = (self.g / 2).max(1);
        for _ in 0..steps {
            for _ in 0..6 {
                let d = self.dir(r);
                let k = r.range(1, maxlen);
                let q = [p[0] + d[0] * k, p[1] + d[1] * k];
                if self.clampable(q) {
                    p = q;
                    v.push(p);
                    break;
                }
            }
        }
        // close along lattice directions
        let (dx, dy) = (s[0] - p[0], s[1] - p[1]);
        if !(dx == 0 || dy == 0 || (!self.axis && dx.abs() == dy.abs())) {
            if self.axis || r.chance(0.5) {
                v.push(if r.chance(0.5) { [s[0], p[1]] } else { [p[0], s[1]] });
            } else {
                let k = dx.abs().min(dy.abs());
                v.push([p[0] + k * dx.signum(), p[1] + k * dy.signum()]);
            }
        }
        v
    }
    fn poly(&self, r: &mut Rng) -> Vec<L> {
        let m = (self.g / 4).max(1);
        let k = r.range(1, m);
        let c = [r.range(k, (self.g - k).max(k)), r.range(k, (self.g - k).max(k))];
        let mut v = match r.below(5) {
            0 => vec![[c[0] - k, c[1]], [c[0], c[1] - k], [c[0] + k, c[1]], [c[0], c[1] + k]],
            1 => vec![[c[0] - k, c[1] - k], [c[0] + k, c[1] - k], [c[0] + k, c[1] + k]],
            2 => vec![[c[0] - k, c[1]], [c[0] + k, c[1]], [c[0], c[1] + k]],
            3 => {
                let j = (k / 2).max(1).min(k);
                vec![
                    [c[0] - j, c[1] - k],
                    [c[0] + j, c[1] - k],
                    [c[0] + k, c[1] - j],
                    [c[0] + k, c[1] + j],
                    [c[0] + j, c[1] + k],
                    [c[0] - j, c[1] + k],
                    [c[0] - k, c[1] + j],
                    [c[0] - k, c[1] - j],
                ]
            }
            _ => {
                // bow tie
                vec![[c[0] - k, c[1] - k], [c[0] + k, c[1] + k], [c[0] + k, c[1] - k], [c[0] - k, c[1] + k]]
            }
        };
        for p in v.iter_mut() {
            p[0] = p[0].clamp(0, self.g);
            p[1] = p[1].clamp(0, self.g);
        }
        if !self.lattice_ok(&v) {
            return self.rect(r);
        }
        v
    }
    /// several contours which touch at one point, often the left point of all of them
    fn fan(&self, r: &mut Rng, cs: &mut Vec<Vec<L>>) {
        const D: [L; 9] = [[0, -1], [1, -1], [1, 0], [1, 1], [0, 1], [-1, 1], [-1, 0], [-1, -1], [0, -1]];
        let m = (self.g / 2).max(1);
        let p = [r.range(0, self.g - 1), r.range(0, self.g)];
        let (step, all) = (if self.axis { 2 } else { 1 }, r.chance(0.3));
        let mut fan = Vec::new();
        for i in (0..if all { 8 } else { 4 }).step_by(step) {
            if r.chance(0.2) {
                continue;
            }
            let k = r.range(1, m);
            let (a, b) = (D[i], D[i + step]);
            let a = [p[0] + a[0] * k, p[1] + a[1] * k];
            let l = if self.axis { r.range(1, m) } else { k };
            let b = [p[0] + b[0] * l, p[1] + b[1] * l];
            let mut c = vec![p, a, b];
            if self.axis {
                c.insert(2, [a[0] + b[0] - p[0], a[1] + b[1] - p[1]]);
            }
            if c.iter().all(|q| self.clampable(*q)) && self.lattice_ok(&c) {
                fan.push(c);
            }
        }
        if fan.is_empty() {
            fan.push(self.rect(r));
        }
        cs.append(&mut fan);
    }
    /// all edges along lattice directions
    fn lattice_ok(&self, v: &[L]) -> bool {
        let n = v.len();
        (0..n).all(|i| {
            let (a, b) = (v[i], v[(i + 1) % n]);
            let (dx, dy) = ((b[0] - a[0]).abs(), (b[1] - a[1]).abs());
            dx == 0 || dy == 0 || (!self.axis && (dx == dy || (self.dirs8 && (dx == 2 * dy || dy == 2 * dx))))
        })
    }
    fn comb(&self, r: &mut Rng) -> Vec<L> {
        let n = r.range(2, (self.g / 2).clamp(2, 8));
        let h = r.range(2, self.g.max(2));
        let mut v = vec![[0, 0]];
        // teeth up
        v.push([2 * n - 1, 0]);
        let mut x = 2 * n - 1;
        while x > 0 {
            v.push([x, h]);
            v.push([x - 1, h]);
            if x - 1 > 0 {
                v.push([x - 1, 1]);
                v.push([x - 2, 1]);
            }
            x -= 2;
        }
        let flip = r.chance(0.5);
        for p in v.iter_mut() {
            p[0] = p[0].min(self.g);
            p[1] = p[1].min(self.g);
            if flip {
                p.swap(0, 1);
            }
        }
        v
    }
    fn spiral(&self, r: &mut Rng) -> Vec<L> {
        let g = self.g.max(6);
        let turns = r.range(1, (g / 4).clamp(1, 5));
        let mut outer = vec![];
        let (mut a, mut b, mut c, mut d) = (0i64, 0i64, g, g);
        // corridor of width 1 walked inwards, then back
        let mut path = vec![[a, b]];
        for _ in 0..turns {
            path.push([c, b]);
            path.push([c, d]);
            path.push([a, d]);
            b += 2;
            path.push([a, b]);
            a += 2;
            c -= 2;
            d -= 2;
            if c - a < 2 || d - b < 2 {
                break;
            }
            path.push([a, b]);
        }
        outer.extend(path.iter().copied());
        let e = *outer.last().unwrap();
        // close straight back
        if e[0] != 0 && e[1] != 0 {
            outer.push([e[0], 0]);
        }
        outer
    }
}

fn rect(x: i64, y: i64, w: i64, h: i64) -> Vec<L> {
    vec![[x, y], [x + w, y], [x + w, y + h], [x, y + h]]
}

fn vary(r: &mut Rng, v: &mut Vec<L>) {
    if r.chance(0.4) {
        v.reverse();
    }
    if !v.is_empty() && r.chance(0.5) {
        let k = r.below(v.len() as u64) as usize;
        v.rotate_left(k);
    }
}

/// degenerate decorations which do not change the covered region
fn decorate(r: &mut Rng, v: &mut Vec<L>) {
    if v.len() < 3 {
        return;
    }
    for _ in 0..r.below(3) + 1 {
        let n = v.len();
        let i = r.below(n as u64) as usize;
        match r.below(4) {
            0 => v.insert(i, v[i]),
            1 => {
                // a lattice point on an edge
                let (a, b) = (v[i], v[(i + 1) % n]);
                let (dx, dy) = (b[0] - a[0], b[1] - a[1]);
                let g = gcd(dx.abs(), dy.abs());
                if g > 1 {
                    let k = r.range(1, g - 1);
                    v.insert(i + 1, [a[0] + dx / g * k, a[1] + dy / g * k]);
                }
            }
            2 => {
                // spike along the incoming direction of an edge: go back and forth
                let (a, b) = (v[i], v[(i + 1) % n]);
                let (dx, dy) = (b[0] - a[0], b[1] - a[1]);
                let g = gcd(dx.abs(), dy.abs());
                if g > 0 {
                    let k = r.range(0, g);
                    let p = [a[0] + dx / g * k, a[1] + dy / g * k];
                    v.insert(i + 1, a);
                    v.insert(i + 1, p);
                }
            }
            _ => {
                let f = v[0];
                v.push(f);
            }
        }
    }
}

pub fn gcd(a: i64, b: i64) -> i64 {
    if b == 0 {
        a
    } else {
        gcd(b, a % b)
    }
}

#[derive(Clone, Debug)]
pub struct Emb {
    pub m: [i64; 4],
    pub s: i64,
    pub off: [i64; 2],
}

impl Emb {
    pub fn ident(s: i64) -> Self {
        Emb { m: [1, 0, 0, 1], s, off: [0, 0] }
    }
    pub fn apply(&self, p: &L) -> Pt {
        let x = (self.m[0] * p[0] + self.m[1] * p[1]) * self.s + self.off[0];
        let y = (self.m[2] * p[0] + self.m[3] * p[1]) * self.s + self.off[1];
        debug_assert!(x.abs() <= LIM && y.abs() <= LIM);
        [x as i32, y as i32]
    }
    pub fn random(r: &mut Rng, extent: i64, unit: i64, wide: bool) -> Self {
        let m = match r.below(10) {
            0..=4 => [1, 0, 0, 1],
            5 => *r.pick(&[[0, 1, 1, 0], [-1, 0, 0, 1], [1, 0, 0, -1], [0, -1, 1, 0], [-1, 0, 0, -1]]),
            6 => *r.pick(&[[1, 1, 0, 1], [1, 0, 1, 1], [1, -1, 0, 1], [1, 0, -2, 1]]),
            7 => [1, 1, -1, 1],
            _ => loop {
                let k = if r.chance(0.3) { 40 } else { 3 };
                let m = [r.range(-k, k), r.range(-k, k), r.range(-k, k), r.range(-k, k)];
                if m[0] * m[3] - m[1] * m[2] != 0 {
                    break m;
                }
            },
        };
        let reach = (m[0].abs() + m[1].abs()).max(m[2].abs() + m[3].abs()) * extent.max(1);
        let max_s = (LIM - 10) / reach / unit;
        let k = if max_s <= 1 {
            1
        } else {
            match r.below(4) {
                0 => 1,
                1 => r.range(1, max_s.min(8)),
                2 => 1i64 << r.below(63 - (max_s as u64).leading_zeros() as u64 + 1).min(40),
                _ => {
                    if wide {
                        max_s
                    } else {
                        r.range(1, max_s.min(100_000))
                    }
                }
            }
        };
        let s = unit * k.clamp(1, max_s.max(1));
        let room = LIM - 2 - reach * s;
        let off = if room <= 0 {
            [0, 0]
        } else {
            match r.below(4) {
                0 => [0, 0],
                1 => [-reach * s / 2, -reach * s / 2],
                2 => {
                    let k = room.min(1000);
                    [r.range(-k, k), r.range(-k, k)]
                }
                _ => {
                    if wide {
                        [*r.pick(&[-room, room]), *r.pick(&[-room, room])]
                    } else {
                        let k = room.min(1_000_000);
                        [r.range(-k, k), r.range(-k, k)]
                    }
                }
            }
        };
        Emb { m, s, off }
    }
}

fn group_shapes(r: &mut Rng, cs: Vec<Contour>) -> Vec<Shape> {
    let mut v: Vec<Shape> = Vec::new();
    for c in cs {
        if v.is_empty() || r.chance(0.5) {
            v.push(vec![c]);
        } else {
            v.last_mut().unwrap().push(c);
        }
    }
    v
}

fn lattice_contours(r: &mut Rng, lat: &Lat, n: usize) -> Vec<Vec<L>> {
    let mut cs: Vec<Vec<L>> = Vec::new();
    let flavour = r.below(8);
    while cs.len() < n {
        let k = if flavour < 5 { r.below(10) } else { flavour };
        match k {
            0 | 1 => cs.push(lat.rect(r)),
            2 => {
                let st = 3 + r.below(if n <= 3 { 12 } else { 5 }) as usize;
                cs.push(lat.walk(r, st));
            }
            3 => cs.push(if lat.axis { lat.rect(r) } else { lat.poly(r) }),
            4 => {
                // frame: contour with a hole, maybe an island
                let c = lat.rect(r);
                let (x0, y0, x1, y1) = (c[0][0], c[0][1], c[2][0], c[2][1]);
                let mut d = 1;
                cs.push(c);
                let same = r.chance(0.3);
                let mut hole = true;
                while x1 - x0 - 2 * d >= 1 && y1 - y0 - 2 * d >= 1 && r.chance(0.75) {
                    let mut h = rect(x0 + d, y0 + d, x1 - x0 - 2 * d, y1 - y0 - 2 * d);
                    if hole && !same {
                        h.reverse();
                    }
                    hole = !hole;
                    cs.push(h);
                    d += 1;
                }
            }
            5 => {
                let mut c = lat.comb(r);
                if !lat.lattice_ok(&c) {
                    c = lat.rect(r);
                }
                cs.push(c);
            }
            6 => {
                // checkerboard block
                let w = r.range(2, 5).min(lat.g.max(2));
                let (ox, oy) = (r.range(0, (lat.g - w).max(0)), r.range(0, (lat.g - w).max(0)));
                let par = r.below(2) as i64;
                for i in 0..w {
                    for j in 0..w {
                        if (i + j) & 1 == par && ox + i < lat.g && oy + j < lat.g {
                            cs.push(rect(ox + i, oy + j, 1, 1));
                        }
                    }
                }
            }
            7 => {
                // ring of cells around an empty middle: holes which touch
                let (ox, oy) = (r.range(0, (lat.g - 4).max(0)), r.range(0, (lat.g - 4).max(0)));
                let mut c = rect(ox, oy, 4.min(lat.g), 4.min(lat.g));
                cs.push(c.clone());
                c = rect(ox + 1, oy + 1, 1, 1);
                c.reverse();
                cs.push(c);
                if lat.g >= 4 {
                    let mut c = rect(ox + 2, oy + 2, 1, 1);
                    c.reverse();
                    cs.push(c);
                }
            }
            8 => lat.fan(r, &mut cs),
            _ => {
                if let Some(c) = cs.last().cloned() {
                    let mut c = c;
                    match r.below(3) {
                        0 => {}
                        1 => c.reverse(),
                        _ => {
                            if c.iter().all(|p| p[0] + 1 <= lat.g) {
                                c.iter_mut().for_each(|p| p[0] += 1)
                            }
                        }
                    }
                    cs.push(c);
                } else {
                    let mut c = lat.spiral(r);
                    if !lat.lattice_ok(&c) || c.iter().any(|p| !lat.clampable(*p)) {
                        c = lat.rect(r);
                    }
                    cs.push(c);
                }
            }
        }
    }
    for c in cs.iter_mut() {
        vary(r, c);
    }
    cs
}

fn lattice_lines(r: &mut Rng, lat: &Lat, n: usize, cs: &[Vec<L>]) -> Vec<Vec<L>> {
    let mut v = Vec::new();
    for _ in 0..n {
        let k = r.below(6);
        let mut l: Vec<L> = match k {
            0 => {
                // all the way through
                let t = r.range(0, lat.g);
                match r.below(if lat.axis { 2 } else { 4 }) {
                    0 => vec![[0, t], [lat.g, t]],
                    1 => vec![[t, 0], [t, lat.g]],
                    2 => vec![[t, 0], [lat.g, lat.g - t]],
                    _ => vec![[0, t], [t, 0]],
                }
            }
            1 | 2 => {
                let steps = 1 + r.below(5) as usize;
                let mut p = lat.pt(r);
                let mut v = vec![p];
                for _ in 0..steps {
                    let d = lat.dir(r);
                    let k = r.range(1, lat.g.max(1));
                    let q = [p[0] + d[0] * k, p[1] + d[1] * k];
                    if lat.clampable(q) {
                        p = q;
                        v.push(p);
                    }
                }
                v
            }
            3 if !cs.is_empty() => {
                // along an edge of the shape
                let c = r.pick(cs);
                if c.len() >= 2 {
                    let i = r.below(c.len() as u64) as usize;
                    let (a, b) = (c[i], c[(i + 1) % c.len()]);
                    let (dx, dy) = (b[0] - a[0], b[1] - a[1]);
                    let g = gcd(dx.abs(), dy.abs()).max(1);
                    let (ux, uy) = (dx / g, dy / g);
                    let k0 = r.range(-2, g);
                    let k1 = r.range(0, g + 2);
                    let p = [a[0] + ux * k0, a[1] + uy * k0];
                    let q = [a[0] + ux * k1, a[1] + uy * k1];
                    if lat.clampable(p) && lat.clampable(q) {
                        vec![p, q]
                    } else {
                        vec![a, b]
                    }
                } else {
                    vec![]
                }
            }
            4 => lat.walk(r, 4),
            5 if !cs.is_empty() && r.chance(0.5) => r.pick(cs).clone(),
            _ => {
                let w = lat.rect(r);
                if r.chance(0.5) {
                    vec![w[0], w[1], w[2]]
                } else {
                    vec![w[0], w[1], w[2], w[3], w[0]]
                }
            }
        };
        if r.chance(0.4) {
            l.reverse();
        }
        if r.chance(0.1) && !l.is_empty() {
            let i = r.below(l.len() as u64) as usize;
            l.insert(i, l[i]);
        }
        v.push(l);
    }
    v
}

/// denominators of the coordinates of the crossing of two segments (1: none or a lattice point)
fn cross_den(a: (L, L), b: (L, L)) -> i64 {
    let (p, q) = (a.0, b.0);
    let (r, s) = ([a.1[0] - p[0], a.1[1] - p[1]], [b.1[0] - q[0], b.1[1] - q[1]]);
    let d = r[0] * s[1] - r[1] * s[0];
    if d == 0 {
        return 1;
    }
    let w = [q[0] - p[0], q[1] - p[1]];
    let t = w[0] * s[1] - w[1] * s[0];
    let u = w[0] * r[1] - w[1] * r[0];
    let (t, u, d) = if d < 0 { (-t, -u, -d) } else { (t, u, d) };
    if t < 0 || t > d || u < 0 || u > d {
        return 1;
    }
    let f = |k: i64| d / gcd(d, (t * k).abs());
    let (x, y) = (f(r[0]), f(r[1]));
    x / gcd(x, y) * y
}

fn segs_of(c: &[L], closed: bool) -> Vec<(L, L)> {
    let n = c.len();
    let mut v = Vec::new();
    for i in 0..n {
        if (i + 1 < n || closed) && c[i] != c[(i + 1) % n] {
            v.push((c[i], c[(i + 1) % n]));
        }
    }
    v
}

/// arbitrary directions: a small drawing enlarged until every crossing is an integer point
pub fn scaled(r: &mut Rng, size: Size, lines: bool) -> Work {
    let (g, n_s, n_c, n_l) = match size {
        Size::Tiny => (r.range(2, 9), 1 + r.below(3) as usize, r.below(3) as usize, 1 + r.below(3) as usize),
        Size::Small => (r.range(3, 20), 2 + r.below(6) as usize, r.below(5) as usize, 1 + r.below(5) as usize),
        _ => (r.range(6, 40), 6 + r.below(30) as usize, r.below(20) as usize, 1 + r.below(10) as usize),
    };
    const MAX: i64 = 120_000;
    let closed = lines && r.chance(0.3);
    let flavour = r.below(8);
    let mut segs: Vec<(L, L)> = Vec::new();
    let mut den = 1i64;
    let mut pool: Vec<L> = Vec::new();
    let pt = |r: &mut Rng| -> L { [r.range(0, g), r.range(0, g)] };
    let mut out: [Vec<Vec<L>>; 3] = Default::default();
    let mut misses = 0;
    for part in 0..3 {
        let n = [n_s, n_c, if lines { n_l } else { 0 }][part];
        while out[part].len() < n && misses < 200 {
            let mut cs: Vec<Vec<L>> = Vec::new();
            let k = if flavour < 4 { r.below(8) } else { flavour };
            if part == 2 {
                let m = 2 + r.below(4) as usize;
                cs.push((0..m).map(|_| if !pool.is_empty() && r.chance(0.5) { *r.pick(&pool) } else { pt(r) }).collect());
            } else {
                match k {
                    0 | 1 => cs.push((0..3 + r.below(4)).map(|_| pt(r)).collect()),
                    2 => cs.push((0..3 + r.below(3)).map(|_| if !pool.is_empty() && r.chance(0.7) { *r.pick(&pool) } else { pt(r) }).collect()),
                    3 | 4 | 5 => {
                        // wedges around a common point, some of them joined to fans
                        let c = if r.chance(0.4) { [0, r.range(0, g)] } else { pt(r) };
                        let mut rays: Vec<L> = (0..4 + r.below(9)).map(|_| pt(r)).filter(|p| *p != c).collect();
                        let half = |p: &L| (p[1] < c[1] || (p[1] == c[1] && p[0] < c[0])) as i64;
                        let cr = |a: &L, b: &L| (a[0] - c[0]) * (b[1] - c[1]) - (a[1] - c[1]) * (b[0] - c[0]);
                        rays.sort_by(|a, b| half(a).cmp(&half(b)).then(0.cmp(&cr(a, b))));
                        let mut i = 0;
                        while i + 1 < rays.len() {
                            let m = (2 + r.below(2) as usize).min(rays.len() - i);
                            let mut w = vec![c];
                            w.extend(&rays[i..i + m]);
                            cs.push(w);
                            i += if r.chance(0.6) { m } else { m - 1 };
                        }
                    }
                    6 => {
                        // a room, and wedges inside it which share a corner with it
                        let m = (g / 2).max(1);
                        let c = [r.range(0, m), r.range(g / 4, g - g / 4)];
                        let mut d: Vec<L> = (0..3 + r.below(7)).map(|_| [r.range(0, (g - c[0]) / 2), r.range(-(c[1] / 2), (g - c[1]) / 2)]).filter(|d| d[0] > 0 || d[1] > 0).collect();
                        d.sort_by(|a, b| 0.cmp(&(a[0] * b[1] - a[1] * b[0])));
                        d.dedup_by(|a, b| a[0] * b[1] == a[1] * b[0]);
                        let at = |d: &L, k: i64| [c[0] + k * d[0], c[1] + k * d[1]];
                        if d.len() > 1 {
                            let (x, y) = (r.range((c[0] / 2).min(2), c[0]), r.range(0, (g / 4).min(c[1])));
                            cs.push(rect(x, y, g - x, g - y));
                            if x > 1 {
                                cs.push(rect(0, r.range(0, g - 1), 1, 1));
                            }
                            let mut room = vec![c];
                            room.extend(d.iter().map(|d| at(d, 2)));
                            room.reverse();
                            cs.push(room);
                            for w in d.windows(2) {
                                if r.chance(0.4) {
                                    cs.push(vec![c, at(&w[0], 1), at(&w[1], 1)]);
                                }
                            }
                        }
                    }
                    _ => {
                        // a box with holes which share corners with it or with each other
                        let (x, y, w, h) = (r.range(0, g / 2), r.range(0, g / 2), r.range(1, g - g / 2), r.range(1, g - g / 2));
                        cs.push(rect(x, y, w, h));
                        for _ in 0..1 + r.below(3) {
                            let q = |r: &mut Rng| -> L { [r.range(x, x + w), r.range(y, y + h)] };
                            let mut t: Vec<L> = (0..3).map(|_| q(r)).collect();
                            if let Some(l) = cs.last() {
                                if r.chance(0.5) {
                                    t[0] = *r.pick(l);
                                }
                            }
                            let a = (t[1][0] - t[0][0]) * (t[2][1] - t[0][1]) - (t[1][1] - t[0][1]) * (t[2][0] - t[0][0]);
                            if a > 0 {
                                t.reverse();
                            }
                            cs.push(t);
                        }
                    }
                }
            }
            for c in cs {
                let ns = segs_of(&c, part != 2 || closed);
                let mut d = den;
                for (i, x) in ns.iter().enumerate() {
                    for y in segs.iter().chain(ns[..i].iter()) {
                        let e = cross_den(*x, *y);
                        d = d / gcd(d, e) * e;
                        if d > MAX {
                            break;
                        }
                    }
                    if d > MAX {
                        break;
                    }
                }
                if d > MAX {
                    misses += 1;
                    continue;
                }
                den = d;
                segs.extend(ns);
                pool.extend(&c);
                out[part].push(c);
            }
        }
    }
    let [mut s, mut c, l] = out;
    for v in s.iter_mut().chain(c.iter_mut()) {
        if r.chance(0.3) {
            vary(r, v);
        }
        if r.chance(0.1) {
            decorate(r, v);
        }
    }
    let emb = Emb::random(r, g, den, r.clone().chance(0.3));
    let cv = |v: Vec<Vec<L>>| -> Vec<Contour> { v.iter().map(|c| c.iter().map(|p| emb.apply(p)).collect()).collect() };
    Work { subj: group_shapes(r, cv(s)), clip: group_shapes(r, cv(c)), lines: if lines { cv(l) } else { vec![] }, closed, exact: true }
}

/// workloads whose crossings are all integer points
pub fn exact(r: &mut Rng, size: Size, lines: bool) -> Work {
    if !matches!(size, Size::Large(_)) && r.chance(0.4) {
        return scaled(r, size, lines);
    }
    let dirs8 = r.chance(0.25) && !matches!(size, Size::Large(_));
    let axis = !dirs8 && r.chance(0.35);
    let unit = if dirs8 { 60 } else { 2 };
    let (g, n_s, n_c, n_l) = match size {
        Size::Tiny => (r.range(2, 12), 1 + r.below(2) as usize, r.below(3) as usize, 1 + r.below(2) as usize),
        Size::Small => (r.range(4, 30), 1 + r.below(5) as usize, r.below(6) as usize, 1 + r.below(4) as usize),
        Size::Medium => (r.range(10, 60), 5 + r.below(25) as usize, r.below(25) as usize, 1 + r.below(12) as usize),
        Size::Large(n) => return large(r, n, lines),
    };
    let lat = Lat { g, dirs8, axis };
    let mut s = lattice_contours(r, &lat, n_s);
    let mut c = if n_c > 0 { lattice_contours(r, &lat, n_c) } else { vec![] };
    if !s.is_empty() && !c.is_empty() && r.chance(0.15) {
        // a clip contour equal to a subject contour
        let k = r.pick(&s).clone();
        let i = r.below(c.len() as u64) as usize;
        c[i] = k;
        vary(r, &mut c[i]);
    }
    let mut l = if lines { lattice_lines(r, &lat, n_l, &s) } else { vec![] };
    if r.chance(0.3) {
        for v in s.iter_mut().chain(c.iter_mut()) {
            if r.chance(0.5) {
                decorate(r, v);
            }
        }
    }
    if r.chance(0.08) {
        let d = match r.below(4) {
            0 => vec![],
            1 => vec![lat.pt(r)],
            2 => {
                let p = lat.pt(r);
                vec![p, [p[0], (p[1] + 1).min(lat.g)]]
            }
            _ => {
                let p = lat.pt(r);
                vec![p; 4]
            }
        };
        let i = r.below(s.len() as u64 + 1) as usize;
        s.insert(i, d);
    }
    if r.chance(0.05) {
        s.push(vec![]);
        l.push(vec![]);
    }
    let closed = lines && r.chance(0.3);
    if closed {
        for v in l.iter_mut() {
            // the closing edge has to run along the lattice too
            if let (Some(&a), Some(&b)) = (v.first(), v.last()) {
                if a[0] != b[0] && a[1] != b[1] {
                    v.push([a[0], b[1]]);
                }
            }
        }
    }
    let emb = Emb::random(r, 2 * g + 2, unit, r.clone().chance(0.3));
    let cv = |v: Vec<Vec<L>>| -> Vec<Contour> { v.iter().map(|c| c.iter().map(|p| emb.apply(p)).collect()).collect() };
    Work { subj: group_shapes(r, cv(s)), clip: group_shapes(r, cv(c)), lines: if lines { cv(l) } else { vec![] }, closed, exact: true }
}

/// about `n` input segments, axis lattice
pub fn large(r: &mut Rng, n: usize, lines: bool) -> Work {
    let mut s: Vec<Vec<L>> = Vec::new();
    let mut c: Vec<Vec<L>> = Vec::new();
    let rects = (n / 4).max(2);
    let style = r.below(5);
    let g;
    match style {
        0 => {
            // small overlapping squares
            g = ((rects as f64).sqrt() * *r.pick(&[2.0, 4.0, 8.0])) as i64 + 8;
            for i in 0..rects {
                let (w, h) = (r.range(1, 4), r.range(1, 4));
                let q = rect(r.range(0, g - w), r.range(0, g - h), w, h);
                if i & 1 == 0 {
                    s.push(q)
                } else {
                    c.push(q)
                }
            }
        }
        1 => {
            // checkerboards, shifted
            let k = ((rects as f64 / 1.0).sqrt() as i64).max(2);
            g = 2 * k + 4;
            let mut m = 0;
            'o: for i in 0..2 * k {
                for j in 0..k {
                    if m >= rects {
                        break 'o;
                    }
                    m += 1;
                    let q = rect(i, 2 * j + (i & 1), 1, 1);
                    if r.chance(0.5) {
                        s.push(q)
                    } else {
                        c.push(rect(i, 2 * j, 2, 1))
                    }
                }
            }
        }
        2 => {
            // bars against bars: few inputs, many crossings
            let k = (((rects as f64) / 2.0).sqrt() as i64).max(2);
            g = 2 * k + 2;
            for i in 0..k {
                s.push(rect(2 * i + 1, 0, 1, g));
                c.push(rect(0, 2 * i + 1, g, 1));
            }
        }
        3 => {
            // one big subject with many holes and islands
            let k = ((rects as f64 / 2.0).sqrt() as i64).max(2);
            g = 4 * k + 2;
            s.push(rect(0, 0, g, g));
            for i in 0..k {
                for j in 0..k {
                    let mut h = rect(4 * i + 1, 4 * j + 1, 3, 3);
                    h.reverse();
                    s.push(h);
                    c.push(rect(4 * i + 2, 4 * j + 2, 1 + r.range(0, 2), 1));
                }
            }
        }
        _ => {
            // disjoint cells with diagonals
            let k = ((rects as f64).sqrt() as i64).max(2);
            g = 3 * k + 3;
            for i in 0..k {
                for j in 0..k {
                    let (x, y) = (3 * i, 3 * j);
                    let q = match r.below(3) {
                        0 => vec![[x + 1, y], [x + 2, y + 1], [x + 1, y + 2], [x, y + 1]],
                        1 => vec![[x, y], [x + 3, y], [x + 3, y + 3], [x, y + 3]],
                        _ => vec![[x, y], [x + 2, y], [x + 2, y + 2]],
                    };
                    if r.chance(0.5) {
                        s.push(q)
                    } else {
                        c.push(q)
                    }
                }
            }
        }
    }
    for v in s.iter_mut().chain(c.iter_mut()) {
        if r.chance(0.2) {
            v.reverse();
        }
    }
    let lat = Lat { g, dirs8: false, axis: true };
    let l = if lines {
        let mut l = Vec::new();
        let k = 1 + r.below(40);
        for _ in 0..k {
            let t = r.range(0, g);
            l.push(if r.chance(0.5) { vec![[0, t], [g, t]] } else { vec![[t, g], [t, 0]] });
        }
        if r.chance(0.5) {
            s.append(&mut c);
        }
        if r.chance(0.3) {
            l.push(lat.walk(r, 10));
        }
        l
    } else {
        vec![]
    };
    let emb = Emb::random(r, 2 * g + 8, 2, r.clone().chance(0.3));
    let cv = |v: Vec<Vec<L>>| -> Vec<Contour> { v.iter().map(|c| c.iter().map(|p| emb.apply(p)).collect()).collect() };
    Work { subj: group_shapes(r, cv(s)), clip: group_shapes(r, cv(c)), lines: cv(l), closed: false, exact: true }
}

// ------------------------------------------------------------------ general position

fn rnd(r: &mut Rng, k: i64) -> i32 {
    r.range(-k, k) as i32
}

pub fn general_contour(r: &mut Rng, k: i64, pool: &mut Vec<Pt>) -> Contour {
    let style = r.below(6);
    let mut v: Contour = match style {
        0 => (0..3 + r.below(6)).map(|_| [rnd(r, k), rnd(r, k)]).collect(),
        1 => {
            // star
            let n = 5 + r.below(30) as usize;
            let (cx, cy) = (rnd(r, k / 2 + 1) as f64, rnd(r, k / 2 + 1) as f64);
            let rad = r.f64() * k as f64 * 0.5 + 1.0;
            let t0 = r.f64() * 6.28;
            let step = if r.chance(0.4) { 2.0 } else { 1.0 };
            (0..n)
                .map(|i| {
                    let a = t0 + 6.283185307179586 * step * i as f64 / n as f64;
                    let q = rad * (0.4 + 0.6 * r.f64());
                    [(cx + a.cos() * q) as i32, (cy + a.sin() * q) as i32]
                })
                .collect()
        }
        2 => {
            // sliver
            let (a, b) = ([rnd(r, k), rnd(r, k)], [rnd(r, k), rnd(r, k)]);
            let w = r.range(0, 3.min(k)) as i32;
            let cl = |v: i32| v.clamp(-(LIM as i32), LIM as i32);
            vec![a, b, [cl(b[0] + w), cl(b[1] + 1)], [cl(a[0] + 1), cl(a[1] + w)]]
        }
        3 => {
            let (x0, y0, x1, y1) = (rnd(r, k), rnd(r, k), rnd(r, k), rnd(r, k));
            vec![[x0, y0], [x1, y0], [x1, y1], [x0, y1]]
        }
        4 => {
            // random walk with small steps
            let n = 4 + r.below(30);
            let q = (k / 4).max(1);
            let mut p = [rnd(r, k), rnd(r, k)];
            (0..n)
                .map(|_| {
                    p = [(p[0] as i64 + r.range(-q, q)).clamp(-k, k) as i32, (p[1] as i64 + r.range(-q, q)).clamp(-k, k) as i32];
                    p
                })
                .collect()
        }
        _ => (0..3 + r.below(5))
            .map(|_| if !pool.is_empty() && r.chance(0.6) { *r.pick(pool) } else { [rnd(r, k), rnd(r, k)] })
            .collect(),
    };
    if r.chance(0.15) && !v.is_empty() {
        let i = r.below(v.len() as u64) as usize;
        v.insert(i, v[i]);
    }
    pool.extend(v.iter().take(4));
    v
}

/// contours which touch at one point and have disjoint angles there
fn fan(r: &mut Rng, k: i64, s: &mut Vec<Contour>) {
    let p = [rnd(r, k), rnd(r, k)];
    let all = r.chance(0.3);
    let n = 4 + r.below(12) as usize;
    let mut ends: Vec<[i64; 2]> = (0..n)
        .map(|_| {
            let x = if all { r.range(-k, k) } else { r.range(0, k) };
            [x, r.range(-k, k)]
        })
        .filter(|d| *d != [0, 0] && (p[0] as i64 + d[0]).abs() <= LIM && (p[1] as i64 + d[1]).abs() <= LIM)
        .collect();
    ends.sort_by(|a, b| {
        let h = |d: &[i64; 2]| d[0] < 0 || d[0] == 0 && d[1] > 0;
        h(a).cmp(&h(b)).then((b[0] as i128 * a[1] as i128).cmp(&(a[0] as i128 * b[1] as i128)))
    });
    for c in ends.chunks(2) {
        if let [a, b] = c {
            let q = |d: &[i64; 2]| [(p[0] as i64 + d[0]) as i32, (p[1] as i64 + d[1]) as i32];
            let mut c = vec![p, q(a), q(b)];
            if r.chance(0.3) {
                c.reverse();
            }
            s.insert(r.below(s.len() as u64 + 1) as usize, c);
        }
    }
}

pub fn general(r: &mut Rng, size: Size, lines: bool) -> Work {
    let k = *r.pick(&[2i64, 4, 7, 10, 30, 100, 1000, 30_000, 1_000_000, 100_000_000, 1 << 29]);
    general_k(r, size, lines, k)
}

pub fn general_k(r: &mut Rng, size: Size, lines: bool, k: i64) -> Work {
    let (a, b, l) = match size {
        Size::Tiny => (1, r.below(2), 1),
        Size::Small => (1 + r.below(3), r.below(3), 1 + r.below(3)),
        Size::Medium => (3 + r.below(12), r.below(12), 1 + r.below(8)),
        Size::Large(n) => ((n as u64 / 12).max(1), n as u64 / 12, 20),
    };
    let mut pool = Vec::new();
    // many contours: most of them small, or the number of crossings explodes
    let local = if a + b > 60 { Some(((2 * k) as f64 / ((a + b) as f64).sqrt()).ceil() as i64) } else { None };
    let mut mk = |r: &mut Rng, pool: &mut Vec<Pt>| -> Contour {
        match local {
            Some(q) if !r.chance(0.01) => {
                let mut near = Vec::new();
                let (ox, oy) = (r.range(-k, k), r.range(-k, k));
                let c = general_contour(r, q.min(k), &mut near);
                let c: Contour = c.iter().map(|p| [(p[0] as i64 + ox).clamp(-LIM, LIM) as i32, (p[1] as i64 + oy).clamp(-LIM, LIM) as i32]).collect();
                pool.extend(c.iter().take(1));
                c
            }
            Some(_) => general_contour(r, k, &mut Vec::new()),
            None => general_contour(r, k, pool),
        }
    };
    let mut s: Vec<Contour> = (0..a).map(|_| mk(r, &mut pool)).collect();
    let c: Vec<Contour> = (0..b).map(|_| mk(r, &mut pool)).collect();
    if r.chance(0.08) {
        fan(r, k, &mut s);
    }
    let ls: Vec<Contour> = if lines {
        (0..l)
            .map(|_| (0..2 + r.below(4)).map(|_| if !pool.is_empty() && r.chance(0.4) { *r.pick(&pool) } else { [rnd(r, k), rnd(r, k)] }).collect())
            .collect()
    } else {
        vec![]
    };
    Work { subj: group_shapes(r, s), clip: group_shapes(r, c), lines: ls, closed: lines && r.chance(0.3), exact: false }
}

/// adversarial inputs: extreme coordinates, degenerate contours
pub fn nasty(r: &mut Rng, lines: bool) -> Work {
    let m = LIM as i32;
    let ext = [-m, -m + 1, -1, 0, 1, m - 1, m, m / 2, -m / 2];
    let mut mk = |r: &mut Rng| -> Contour {
        let n = r.below(9) as usize;
        match r.below(5) {
            0 => (0..n).map(|_| [*r.pick(&ext), *r.pick(&ext)]).collect(),
            1 => {
                let p = [*r.pick(&ext), *r.pick(&ext)];
                (0..n).map(|_| p).collect()
            }
            2 => {
                let p: Pt = [rnd(r, 1000), rnd(r, 1000)];
                let d = [rnd(r, 3), rnd(r, 3)];
                (0..n).map(|_| {
                    let k = rnd(r, 5);
                    [p[0] + d[0] * k, p[1] + d[1] * k]
                }).collect()
            }
            3 => (0..n).map(|_| [rnd(r, LIM), rnd(r, LIM)]).collect(),
            _ => (0..n).map(|_| [rnd(r, 2), rnd(r, 2)]).collect(),
        }
    };
    let a = r.below(4);
    let b = r.below(4);
    let l = r.below(4);
    let s: Vec<Contour> = (0..a).map(|_| mk(r)).collect();
    let c: Vec<Contour> = (0..b).map(|_| mk(r)).collect();
    let ls: Vec<Contour> = if lines { (0..l).map(|_| mk(r)).collect() } else { vec![] };
    let mut subj = group_shapes(r, s);
    if r.chance(0.1) {
        subj.push(vec![]);
    }
    Work { subj, clip: group_shapes(r, c), lines: ls, closed: lines && r.chance(0.3), exact: false }
}

/// a contour which passes points several times
pub fn knotted(r: &mut Rng) -> Contour {
    let lim = |v: i64| v.clamp(-LIM, LIM) as i32;
    let n = match r.below(10) {
        0 => r.below(4),
        1..=6 => 3 + r.below(12),
        _ => 10 + r.below(80),
    };
    let k = *r.pick(&[1i64, 2, 3, 6, 20, LIM]);
    let mut v: Contour = match r.below(5) {
        0 => {
            // a few points in any order
            let pool: Vec<Pt> = (0..1 + r.below(n / 2 + 2)).map(|_| [rnd(r, k), rnd(r, k)]).collect();
            (0..n).map(|_| *r.pick(&pool)).collect()
        }
        1 => {
            // a walk
            let mut p = [0i64, 0];
            (0..n)
                .map(|_| {
                    p = [p[0] + r.range(-1, 1), p[1] + r.range(-1, 1)];
                    [lim(p[0]), lim(p[1])]
                })
                .collect()
        }
        2 => {
            // loops inside of loops
            fn grow(r: &mut Rng, k: i64, deep: u64, v: &mut Contour) {
                let p = [rnd(r, k), rnd(r, k)];
                v.push(p);
                for _ in 0..1 + r.below(3) {
                    if deep > 0 && r.chance(0.6) {
                        grow(r, k, deep - 1, v);
                    } else {
                        v.push([rnd(r, k), rnd(r, k)]);
                        v.push([rnd(r, k), rnd(r, k)]);
                    }
                    if v.last() != Some(&p) || r.chance(0.1) {
                        v.push(p);
                    }
                }
            }
            let mut v = vec![];
            let k = if r.chance(0.5) { LIM } else { 50 };
            grow(r, k, 3, &mut v);
            v
        }
        3 => {
            let mut pool = vec![];
            let mut v: Contour = vec![];
            for _ in 0..1 + r.below(4) {
                v.extend(general_contour(r, k.max(4), &mut pool));
            }
            v
        }
        _ => (0..n).map(|_| [rnd(r, k), rnd(r, k)]).collect(),
    };
    if v.len() > 1 {
        let i = r.below(v.len() as u64) as usize;
        v.rotate_left(i);
        for _ in 0..r.below(3) {
            let (i, j) = (r.below(v.len() as u64) as usize, r.below(v.len() as u64) as usize);
            let p = v[i];
            v.insert(j, p);
        }
    }
    v
}

pub fn size(r: &mut Rng) -> Size {
    match r.below(100) {
        0..=49 => Size::Tiny,
        50..=84 => Size::Small,
        _ => Size::Medium,
    }
}

/// segment counts around the internal thresholds
pub fn large_n(r: &mut Rng) -> usize {
    match r.below(10) {
        0..=3 => r.range(600, 3000) as usize,
        4 | 5 => r.range(3900, 4200) as usize,
        6 => r.range(7800, 8300) as usize,
        7 => r.range(15_800, 16_400) as usize,
        8 => r.range(16_400, 24_000) as usize,
        _ => r.range(32_700, 34_000) as usize,
    }
}
