//! Oracles: independent models of what the operations must return.

use crate::geom::*;
use simkern::Rng;
use std::collections::HashMap;

pub const EVEN_ODD: u8 = 0;
pub const NON_ZERO: u8 = 1;
pub const POSITIVE: u8 = 2;
pub const NEGATIVE: u8 = 3;

pub fn filled(fill: u8, w: i32) -> bool {
    match fill {
        EVEN_ODD => w & 1 != 0,
        NON_ZERO => w != 0,
        POSITIVE => w > 0,
        _ => w < 0,
    }
}

/// 0 subject, 1 clip, 2 intersect, 3 union, 4 difference, 5 inverse difference, 6 xor
pub fn rule_holds(rule: u8, s: bool, c: bool) -> bool {
    match rule {
        0 => s,
        1 => c,
        2 => s && c,
        3 => s || c,
        4 => s && !c,
        5 => c && !s,
        _ => s != c,
    }
}

pub struct Tol<'a> {
    /// edges near which a difference is allowed
    pub edges: &'a [Edge],
    pub dist: f64,
}

fn near(tol: &Option<Tol>, x: f64, y: f64, transposed: bool) -> bool {
    match tol {
        None => false,
        Some(t) => {
            let (x, y) = if transposed { (y, x) } else { (x, y) };
            t.edges.iter().any(|e| dist_point_edge(x, y, e) <= t.dist)
        }
    }
}

/// can a gap hold a point farther than the tolerance from both its ends
fn gap_mid(a: &Hit, b: &Hit) -> f64 {
    (a.pos() + b.pos()) * 0.5
}

pub struct Scan<'a> {
    pub base: &'a [Edge],
    pub shapes: &'a [Shape],
    /// +1: outer contours are counter-clockwise
    pub dir: i32,
    pub max_rows: usize,
    pub tol: Option<Tol<'a>>,
    /// output edges may coincide (pieces of a slice share walls)
    pub share: bool,
    pub extra: Vec<[i64; 2]>,
}

impl<'a> Scan<'a> {
    /// `expect(ws, wc)`: is the point covered. None: only structure is checked
    pub fn run(&self, rng: &mut Rng, expect: Option<&dyn Fn(i32, i32) -> bool>) -> Result<(), String> {
        let mut out: Vec<Edge> = Vec::new();
        let mut shape_of: Vec<u32> = Vec::new();
        let mut outer: Vec<bool> = Vec::new();
        for (i, s) in self.shapes.iter().enumerate() {
            for (j, c) in s.iter().enumerate() {
                let tag = 2 + shape_of.len() as u32;
                shape_of.push(i as u32);
                outer.push(j == 0);
                push_contour(&mut out, c, tag);
            }
        }
        for t in 0..2 {
            let tr = t == 1;
            let mut edges: Vec<Edge> = self.base.iter().chain(out.iter()).map(|e| if tr { e.transposed() } else { *e }).collect();
            edges.retain(|e| e.ay != e.by);
            let extra: Vec<i64> = self.extra.iter().map(|p| if tr { p[0] } else { p[1] }).collect();
            let rs = rows(&[&edges], &extra, self.max_rows, rng);
            let sg = if tr { 1 } else { -1 };
            let mut hits = Vec::new();
            let mut wc = vec![0i32; shape_of.len()];
            let mut wsh = vec![0i32; self.shapes.len()];
            for y2 in rs {
                row_hits(&edges, y2, &mut hits);
                wc.iter_mut().for_each(|v| *v = 0);
                wsh.iter_mut().for_each(|v| *v = 0);
                let (mut s, mut c, mut total) = (0i32, 0i32, 0i32);
                let mut i = 0;
                while i < hits.len() {
                    let mut j = i;
                    let mut n_out = 0;
                    while j < hits.len() && hits[j].same(&hits[i]) {
                        let h = hits[j];
                        let d = sg * h.dir;
                        match h.tag {
                            0 => s += d,
                            1 => c += d,
                            k => {
                                let k = (k - 2) as usize;
                                wc[k] += d;
                                wsh[shape_of[k] as usize] += d;
                                total += d;
                                n_out += 1;
                            }
                        }
                        j += 1;
                    }
                    let at = |m: f64| {
                        let y = y2 as f64 / 2.0;
                        if tr {
                            format!("({}, {})", y, m)
                        } else {
                            format!("({}, {})", m, y)
                        }
                    };
                    if n_out > 1 && !self.share {
                        return Err(format!("{} output edges overlap at {}", n_out, at(hits[i].pos())));
                    }
                    for h in &hits[i..j] {
                        if h.tag < 2 {
                            continue;
                        }
                        let k = (h.tag - 2) as usize;
                        let want = if outer[k] { self.dir } else { -self.dir };
                        if wc[k] != 0 && wc[k] != want {
                            return Err(format!("contour {} of shape {} winds {} times (want 0 or {}) right of {}", k, shape_of[k], wc[k], want, at(h.pos())));
                        }
                        let w = wsh[shape_of[k] as usize];
                        if w != 0 && w != self.dir {
                            if std::env::var("IOSIM_SHOW").is_ok() { eprintln!("SHAPE {} of {:?} at {}", shape_of[k], self.shapes, at(h.pos())); }
                            return Err(format!("shape {} covers {} times right of {}: a hole is not inside its outer contour or contours overlap", shape_of[k], w * self.dir, at(h.pos())));
                        }
                    }
                    if total != 0 && total != self.dir {
                        return Err(format!("shapes overlap ({} times) right of {}", total * self.dir, at(hits[i].pos())));
                    }
                    if j < hits.len() {
                        if let Some(f) = expect {
                            let want = f(s, c);
                            let got = total != 0;
                            if want != got {
                                let m = gap_mid(&hits[i], &hits[j]);
                                if !near(&self.tol, m, y2 as f64 / 2.0, tr) {
                                    return Err(format!(
                                        "point {} has subject winding {} and clip winding {}: expected {} but is {}",
                                        at(m),
                                        s,
                                        c,
                                        if want { "covered" } else { "uncovered" },
                                        if got { "covered" } else { "uncovered" }
                                    ));
                                }
                            }
                        }
                    } else if total != 0 {
                        return Err(format!("output contours are not closed at {}", at(hits[i].pos())));
                    }
                    i = j;
                }
            }
        }
        Ok(())
    }
}

pub fn area_units(c: &[Pt]) -> u128 {
    area2(c).unsigned_abs() >> 1
}

/// shape-local well-formedness
pub fn check_structure(shapes: &[Shape], cw: bool, simplified: bool, min_area: u64) -> Result<(), String> {
    for (i, s) in shapes.iter().enumerate() {
        if s.is_empty() {
            return Err(format!("shape {} has no contour", i));
        }
        for (j, c) in s.iter().enumerate() {
            let n = c.len();
            if n < 3 {
                return Err(format!("contour {}/{} has {} points: {:?}", i, j, n, c));
            }
            for k in 0..n {
                let (a, b, d) = (&c[k], &c[(k + 1) % n], &c[(k + 2) % n]);
                if a == b {
                    return Err(format!("contour {}/{} repeats the point {:?}", i, j, a));
                }
                if simplified && cross3(a, b, d) == 0 {
                    return Err(format!("contour {}/{} has collinear neighbours {:?} {:?} {:?}", i, j, a, b, d));
                }
            }
            let a = area2(c);
            let ccw = a > 0;
            let want_ccw = (j == 0) != cw;
            if a == 0 {
                return Err(format!("contour {}/{} has no area: {:?}", i, j, c));
            }
            if ccw != want_ccw {
                return Err(format!("contour {}/{} is {} but should be {}: {:?}", i, j, if ccw { "counter-clockwise" } else { "clockwise" }, if want_ccw { "counter-clockwise" } else { "clockwise" }, head(c)));
            }
            if min_area > 0 && (area_units(c) as u64) < min_area {
                return Err(format!("contour {}/{} has area {} < min_area {}", i, j, area_units(c), min_area));
            }
        }
    }
    Ok(())
}

pub fn head(c: &[Pt]) -> String {
    if c.len() <= 12 {
        format!("{:?}", c)
    } else {
        format!("{:?}.. ({} points)", &c[..12], c.len())
    }
}

/// canonical rotation of a contour
pub fn canon(c: &[Pt]) -> Contour {
    if c.is_empty() {
        return vec![];
    }
    let n = c.len();
    let mut best = 0;
    for i in 1..n {
        for k in 0..n {
            let (a, b) = (c[(i + k) % n], c[(best + k) % n]);
            if a != b {
                if a < b {
                    best = i;
                }
                break;
            }
        }
    }
    (0..n).map(|k| c[(best + k) % n]).collect()
}

/// canonical multiset of shapes, each as sorted holes behind the outer contour
pub fn canon_shapes(shapes: &[Shape]) -> Vec<Shape> {
    let mut v: Vec<Shape> = shapes
        .iter()
        .map(|s| {
            let mut cs: Vec<Contour> = s.iter().map(|c| canon(c)).collect();
            if cs.len() > 1 {
                cs[1..].sort();
            }
            cs
        })
        .collect();
    v.sort();
    v
}

// ------------------------------------------------------------------ clipped lines

pub fn clip_keeps(invert: bool, boundary: bool, sides: u32) -> bool {
    match (invert, boundary) {
        (false, true) => sides >= 1,
        (false, false) => sides == 2,
        (true, false) => sides < 2,
        (true, true) => sides == 0,
    }
}

/// `subj` closed edges, `lines` directed edges, `out` clipped paths
pub fn check_clip(subj: &[Edge], lines: &[Edge], out: &[Contour], fill: u8, invert: bool, boundary: bool, max_rows: usize, extra: &[[i64; 2]], rng: &mut Rng) -> Result<(), String> {
    let mut oe = Vec::new();
    for (i, p) in out.iter().enumerate() {
        if p.len() < 2 {
            return Err(format!("clipped path {} has {} points", i, p.len()));
        }
        for w in p.windows(2) {
            if w[0] == w[1] {
                return Err(format!("clipped path {} repeats {:?}", i, w[0]));
            }
        }
        push_path(&mut oe, p, 2);
    }
    for t in 0..2 {
        let tr = t == 1;
        let mut edges: Vec<Edge> = Vec::new();
        for (set, tag) in [(subj, 0u32), (lines, 1), (&oe[..], 2)] {
            for e in set {
                let mut f = if tr { e.transposed() } else { *e };
                f.tag = tag;
                if f.ay != f.by {
                    edges.push(f);
                }
            }
        }
        let ex: Vec<i64> = extra.iter().map(|p| if tr { p[0] } else { p[1] }).collect();
        let rs = rows(&[&edges], &ex, max_rows, rng);
        let sg = if tr { 1 } else { -1 };
        let mut hits = Vec::new();
        for y2 in rs {
            row_hits(&edges, y2, &mut hits);
            let mut s = 0i32;
            let mut i = 0;
            while i < hits.len() {
                let before = filled(fill, s);
                let mut lines_up = false;
                let mut lines_down = false;
                let mut out_up = 0;
                let mut out_down = 0;
                let mut j = i;
                while j < hits.len() && hits[j].same(&hits[i]) {
                    let h = hits[j];
                    match h.tag {
                        0 => s += sg * h.dir,
                        1 => {
                            if h.dir > 0 {
                                lines_up = true
                            } else {
                                lines_down = true
                            }
                        }
                        _ => {
                            if h.dir > 0 {
                                out_up += 1
                            } else {
                                out_down += 1
                            }
                        }
                    }
                    j += 1;
                }
                let after = filled(fill, s);
                let sides = before as u32 + after as u32;
                let keep = clip_keeps(invert, boundary, sides);
                let want_up = (keep && lines_up) as i32;
                let want_down = (keep && lines_down) as i32;
                if want_up != out_up || want_down != out_down {
                    let (x, y) = if tr { (y2 as f64 / 2.0, hits[i].pos()) } else { (hits[i].pos(), y2 as f64 / 2.0) };
                    if std::env::var("IOSIM_SHOW").is_ok() {
                        let at = |k: usize| hits.get(k).map(|h| h.pos());
                        eprintln!("LINES around {:?} {:?} {:?}", at(i.wrapping_sub(1)), at(i), at(j));
                        for e in &edges {
                            let (lo, hi) = (e.ay.min(e.by), e.ay.max(e.by));
                            if e.tag > 0 && lo * 2 <= y2 + 200 && hi * 2 >= y2 - 200 {
                                eprintln!("  {:?}", e);
                            }
                        }
                    }
                    return Err(format!(
                        "line at ({}, {}) with {} filled sides: expected it {} time(s) along and {} time(s) against increasing {}, got {} and {}",
                        x,
                        y,
                        sides,
                        want_up,
                        want_down,
                        if tr { "x" } else { "y" },
                        out_up,
                        out_down
                    ));
                }
                i = j;
            }
        }
    }
    Ok(())
}

// ------------------------------------------------------------------ vectors

/// vectors are [ax, ay, bx, by, fill]
pub fn check_vectors(base: &[Edge], vecs: &[[i32; 5]], fill: u8, max_rows: usize, extra: &[[i64; 2]], rng: &mut Rng) -> Result<(), String> {
    for t in 0..2 {
        let tr = t == 1;
        let mut edges: Vec<Edge> = base.iter().map(|e| if tr { e.transposed() } else { *e }).collect();
        for (i, v) in vecs.iter().enumerate() {
            let e = Edge::new([v[0] as i64, v[1] as i64], [v[2] as i64, v[3] as i64], 2 + i as u32);
            edges.push(if tr { e.transposed() } else { e });
        }
        edges.retain(|e| e.ay != e.by);
        let ex: Vec<i64> = extra.iter().map(|p| if tr { p[0] } else { p[1] }).collect();
        let rs = rows(&[&edges], &ex, max_rows, rng);
        let sg = if tr { 1 } else { -1 };
        let mut hits = Vec::new();
        for y2 in rs {
            row_hits(&edges, y2, &mut hits);
            let (mut s, mut c) = (0i32, 0i32);
            let mut i = 0;
            while i < hits.len() {
                let (s0, c0) = (filled(fill, s), filled(fill, c));
                let mut vec: Option<(usize, i32)> = None;
                let mut n_base = 0;
                let mut n_vec = 0;
                let mut j = i;
                while j < hits.len() && hits[j].same(&hits[i]) {
                    let h = hits[j];
                    match h.tag {
                        0 => {
                            s += sg * h.dir;
                            n_base += 1
                        }
                        1 => {
                            c += sg * h.dir;
                            n_base += 1
                        }
                        k => {
                            vec = Some(((k - 2) as usize, h.dir));
                            n_vec += 1;
                        }
                    }
                    j += 1;
                }
                let (s1, c1) = (filled(fill, s), filled(fill, c));
                let (x, y) = if tr { (y2 as f64 / 2.0, hits[i].pos()) } else { (hits[i].pos(), y2 as f64 / 2.0) };
                if n_vec > 1 {
                    return Err(format!("{} vectors overlap at ({}, {})", n_vec, x, y));
                }
                if n_vec == 0 && (s0 != s1 || c0 != c1) {
                    return Err(format!("no vector at ({}, {}) where the filling changes", x, y));
                }
                if n_vec == 1 && n_base == 0 {
                    return Err(format!("vector at ({}, {}) where there is no input edge", x, y));
                }
                if let Some((k, d)) = vec {
                    // left side of the vector a->b
                    let west_is_left = (d > 0) != tr;
                    let (ls, rs_) = if west_is_left { (s0, s1) } else { (s1, s0) };
                    let (lc, rc) = if west_is_left { (c0, c1) } else { (c1, c0) };
                    let want = ls as i32 | (rs_ as i32) << 1 | (lc as i32) << 2 | (rc as i32) << 3;
                    if vecs[k][4] != want {
                        return Err(format!("vector {:?} has side flags {:04b}, expected {:04b} at ({}, {})", vecs[k], vecs[k][4], want, x, y));
                    }
                }
                i = j;
            }
        }
    }
    Ok(())
}

// ------------------------------------------------------------------ slices

fn find(p: &mut Vec<u32>, mut a: u32) -> u32 {
    while p[a as usize] != a {
        p[a as usize] = p[p[a as usize] as usize];
        a = p[a as usize];
    }
    a
}

/// x position of an edge at height y (an integer height within the edge): (num, den) with den > 0
fn x_at(e: &Edge, y: i64) -> (i128, i128) {
    let dy = (e.by - e.ay) as i128;
    let num = e.ax as i128 * dy + (y - e.ay) as i128 * (e.bx - e.ax) as i128;
    if dy < 0 {
        (-num, -dy)
    } else {
        (num, dy)
    }
}

fn lt(a: (i128, i128), b: (i128, i128)) -> bool {
    a.0 * b.1 < b.0 * a.1
}

struct Gap {
    left: u32,
    right: u32,
    node: u32,
    shape: i32,
}

/// pieces: exact, every crossing of the input must be an integer point (all heights in `extra`)
pub fn check_slice(subj: &[Edge], lines: &[Edge], shapes: &[Shape], dir: i32, fill: u8, extra: &[[i64; 2]]) -> Result<usize, String> {
    let mut edges: Vec<Edge> = Vec::new();
    for e in subj {
        edges.push(Edge { tag: 0, ..*e });
    }
    for e in lines {
        edges.push(Edge { tag: 1, ..*e });
    }
    let mut shape_of = Vec::new();
    for (i, s) in shapes.iter().enumerate() {
        for c in s {
            push_contour(&mut edges, c, 2 + shape_of.len() as u32);
            shape_of.push(i);
        }
    }
    let horizontals: Vec<Edge> = lines.iter().filter(|e| e.ay == e.by).copied().collect();
    edges.retain(|e| e.ay != e.by);
    let mut ys: Vec<i64> = edges.iter().flat_map(|e| [e.ay, e.by]).chain(extra.iter().map(|p| p[1])).chain(horizontals.iter().map(|e| e.ay)).collect();
    ys.sort_unstable();
    ys.dedup();
    let mut parent: Vec<u32> = Vec::new();
    let mut node_shape: Vec<i32> = Vec::new();
    let mut node_at: Vec<(f64, f64)> = Vec::new();
    let mut prev: Vec<Gap> = Vec::new();
    let mut hits = Vec::new();
    for w in ys.windows(2) {
        let y2 = w[0] + w[1];
        row_hits(&edges, y2, &mut hits);
        let mut gaps: Vec<Gap> = Vec::new();
        let mut s = 0i32;
        let mut wsh: HashMap<usize, i32> = HashMap::new();
        let mut i = 0;
        let mut last_filled = false;
        while i < hits.len() {
            let mut j = i;
            let mut has_line = false;
            while j < hits.len() && hits[j].same(&hits[i]) {
                let h = hits[j];
                match h.tag {
                    0 => s -= h.dir,
                    1 => has_line = true,
                    k => {
                        let sh = shape_of[(k - 2) as usize];
                        let e = wsh.entry(sh).or_insert(0);
                        *e -= h.dir;
                        if *e == 0 {
                            wsh.remove(&sh);
                        }
                    }
                }
                j += 1;
            }
            if j >= hits.len() {
                if !wsh.is_empty() {
                    return Err(format!("pieces are not closed at height {}", y2 as f64 / 2.0));
                }
                break;
            }
            let f = filled(fill, s);
            let mid = (hits[i].pos() + hits[j].pos()) * 0.5;
            let at = (mid, y2 as f64 / 2.0);
            let mut cover: Option<usize> = None;
            for (&sh, &w) in wsh.iter() {
                if w != dir {
                    return Err(format!("piece {} covers {:?} {} times", sh, at, w * dir));
                }
                if let Some(o) = cover {
                    return Err(format!("pieces {} and {} both cover {:?}", o.min(sh), o.max(sh), at));
                }
                cover = Some(sh);
            }
            if f != cover.is_some() {
                return Err(format!("point {:?} (winding {}) should {}be covered by a piece", at, s, if f { "" } else { "not " }));
            }
            if f {
                let id = parent.len() as u32;
                parent.push(id);
                node_shape.push(cover.unwrap() as i32);
                node_at.push(at);
                if last_filled && !has_line {
                    let p = gaps.last().unwrap().node;
                    let (a, b) = (find(&mut parent, p), find(&mut parent, id));
                    parent[a as usize] = b;
                }
                gaps.push(Gap { left: hits[i].edge, right: hits[j].edge, node: id, shape: cover.unwrap() as i32 });
            }
            last_filled = f;
            i = j;
        }
        // vertical neighbours over the height w[0]
        let y = w[0];
        let walls: Vec<(i64, i64)> = horizontals.iter().filter(|e| e.ay == y).map(|e| (e.ax.min(e.bx), e.ax.max(e.bx))).collect();
        for g in &gaps {
            let (l1, r1) = (x_at(&edges[g.left as usize], y), x_at(&edges[g.right as usize], y));
            for h in &prev {
                let (l0, r0) = (x_at(&edges[h.left as usize], y), x_at(&edges[h.right as usize], y));
                let l = if lt(l0, l1) { l1 } else { l0 };
                let r = if lt(r0, r1) { r0 } else { r1 };
                if !lt(l, r) {
                    continue;
                }
                // is (l, r) fully covered by walls?
                let mut pos = l;
                loop {
                    let mut moved = false;
                    for &(a, b) in &walls {
                        let (a, b) = ((a as i128, 1), (b as i128, 1));
                        if !lt(pos, a) && lt(pos, b) {
                            pos = b;
                            moved = true;
                        }
                    }
                    if !moved || !lt(pos, r) {
                        break;
                    }
                }
                if lt(pos, r) {
                    let (a, b) = (find(&mut parent, g.node), find(&mut parent, h.node));
                    parent[a as usize] = b;
                }
            }
        }
        prev = gaps;
    }
    let mut comp_shape: HashMap<u32, i32> = HashMap::new();
    let mut shape_comp: HashMap<i32, u32> = HashMap::new();
    for i in 0..parent.len() {
        let c = find(&mut parent, i as u32);
        let s = node_shape[i];
        if let Some(&o) = comp_shape.get(&c) {
            if o != s {
                return Err(format!("point {:?} is in piece {} but is connected to piece {} without crossing a line", node_at[i], s, o));
            }
        } else {
            comp_shape.insert(c, s);
        }
        if let Some(&o) = shape_comp.get(&s) {
            if o != c {
                return Err(format!("piece {} contains {:?} and other points that a line separates from it", s, node_at[i]));
            }
        } else {
            shape_comp.insert(s, c);
        }
    }
    let _ = prev.iter().map(|g| g.shape).count();
    Ok(comp_shape.len())
}

// ------------------------------------------------------------------ identities between rules

/// results of several rules of one graph: (rule, shapes), all counter-clockwise or all clockwise by `dir`
pub fn check_identities(res: &[(u8, &Vec<Shape>, i32)], max_rows: usize, rng: &mut Rng) -> Result<(), String> {
    let mut edges = Vec::new();
    for (i, (_, shapes, _)) in res.iter().enumerate() {
        for s in shapes.iter() {
            for c in s {
                push_contour(&mut edges, c, i as u32);
            }
        }
    }
    let mut area: HashMap<u8, i128> = HashMap::new();
    for (rule, shapes, d) in res {
        let a: i128 = shapes.iter().flatten().map(|c| area2(c)).sum::<i128>() * *d as i128;
        area.insert(*rule, a);
    }
    let g = |r: u8| area.get(&r).copied();
    let ident: [(&str, &[u8], &[u8]); 5] = [
        ("union = intersection + xor", &[3], &[2, 6]),
        ("subject = intersection + difference", &[0], &[2, 4]),
        ("clip = intersection + inverse difference", &[1], &[2, 5]),
        ("xor = difference + inverse difference", &[6], &[4, 5]),
        ("subject + clip = union + intersection", &[0, 1], &[3, 2]),
    ];
    for (name, l, r) in ident {
        if let (Some(a), Some(b)) = (l.iter().map(|&x| g(x)).sum::<Option<i128>>(), r.iter().map(|&x| g(x)).sum::<Option<i128>>()) {
            if a != b {
                return Err(format!("areas break {}: {} != {} (twice the area)", name, a, b));
            }
        }
    }
    for t in 0..2 {
        let tr = t == 1;
        let mut es: Vec<Edge> = edges.iter().map(|e| if tr { e.transposed() } else { *e }).collect();
        es.retain(|e| e.ay != e.by);
        let rs = rows(&[&es], &[], max_rows, rng);
        let sg = if tr { 1 } else { -1 };
        let mut hits = Vec::new();
        for y2 in rs {
            row_hits(&es, y2, &mut hits);
            let mut w = vec![0i32; res.len()];
            let mut i = 0;
            while i < hits.len() {
                let mut j = i;
                while j < hits.len() && hits[j].same(&hits[i]) {
                    w[hits[j].tag as usize] += sg * hits[j].dir;
                    j += 1;
                }
                let mut v: [Option<i32>; 7] = [None; 7];
                for (k, (rule, _, d)) in res.iter().enumerate() {
                    v[*rule as usize] = Some(w[k] * d);
                }
                for (name, l, r) in ident {
                    if let (Some(a), Some(b)) = (l.iter().map(|&x| v[x as usize]).sum::<Option<i32>>(), r.iter().map(|&x| v[x as usize]).sum::<Option<i32>>()) {
                        if a != b {
                            let (x, y) = if tr { (y2 as f64 / 2.0, hits[i].pos()) } else { (hits[i].pos(), y2 as f64 / 2.0) };
                            return Err(format!("coverage right of ({}, {}) breaks {}", x, y, name));
                        }
                    }
                }
                i = j;
            }
        }
    }
    Ok(())
}
