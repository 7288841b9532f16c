//! Operations on the real library, their parameters and their results.

use crate::geom::*;
use super::lib::core::divide::ContourDecomposition;
use super::lib::core::fill_rule::FillRule;
use super::lib::core::graph::OverlayGraph;
use super::lib::core::overlay::{ContourDirection, Overlay, ShapeType};
use super::lib::core::overlay_rule::OverlayRule;
use super::lib::core::simplify::Simplify;
use super::lib::core::solver::{MultithreadOptions, Precision, Solver, Strategy};
use super::lib::float::clip::FloatClip;
use super::lib::float::filter::ContourFilter;
use super::lib::float::graph::FloatOverlayGraph;
use super::lib::float::overlay::FloatOverlay;
use super::lib::float::simplify::SimplifyShape;
use super::lib::float::single::SingleFloatOverlay;
use super::lib::float::slice::FloatSlice;
use super::lib::float::source::resource::OverlayResource;
use super::lib::float::string_graph::FloatStringGraph;
use super::lib::float::string_overlay::FloatStringOverlay;
use super::lib::i_float::adapter::FloatPointAdapter;
use super::lib::i_float::float::compatible::FloatPointCompatible;
use super::lib::i_float::float::number::FloatNumber;
use super::lib::i_float::int::point::IntPoint;
use super::lib::mesh::outline::offset::OutlineOffset;
use super::lib::mesh::stroke::offset::StrokeOffset;
use super::lib::mesh::style::{LineCap, LineJoin, OutlineStyle, StrokeStyle};
use super::lib::string::clip::{ClipRule, IntClip};
use super::lib::string::graph::StringGraph;
use super::lib::string::overlay::StringOverlay;
use super::lib::string::rule::StringRule;
use super::lib::string::slice::IntSlice;
use super::lib::vector::edge::{VectorEdge, VectorShape};
use serde::{Deserialize, Serialize};
use std::cell::Cell;
use std::panic::{catch_unwind, AssertUnwindSafe};

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub struct SolverCfg {
    /// 0 list, 1 tree, 2 frag, 3 auto
    pub strategy: u8,
    pub start: usize,
    pub prog: usize,
    pub mt: Option<usize>,
}

impl SolverCfg {
    pub fn new(strategy: u8, mt: Option<usize>) -> Self {
        SolverCfg { strategy, start: 0, prog: 1, mt }
    }
    pub fn solver(&self) -> Solver {
        let strategy = match self.strategy {
            0 => Strategy::List,
            1 => Strategy::Tree,
            2 => Strategy::Frag,
            _ => Strategy::Auto,
        };
        let precision = Precision { start: self.start, progression: self.prog };
        // the constructors of the crate, the number of threads set afterwards
        let mut solver = match strategy {
            Strategy::Auto => Solver::with_precision(precision),
            Strategy::List => Solver { strategy, precision, multithreading: None },
            _ => Solver::with_strategy_and_precision(strategy, precision),
        };
        solver.multithreading = self.mt.map(|n| MultithreadOptions { par_sort_min_size: n });
        solver
    }
}

#[derive(Clone, Copy, Debug, Serialize, Deserialize, PartialEq, Eq, Hash)]
pub enum Kind {
    /// integer boolean operation
    Overlay,
    Vectors,
    ShapeVectors,
    Clip,
    Slice,
    FOverlay,
    FSimplify,
    FClip,
    FSlice,
    Stroke,
    Outline,
    /// extraction from a shared graph
    Extract,
    ExtractVectors,
    ExtractShapeVectors,
    SExtract,
    FExtract,
    FSExtract,
    /// contours split at their repeated points
    Decompose,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Op {
    pub kind: Kind,
    /// which of the equivalent ways to call it
    pub form: u8,
    #[serde(default)]
    pub subj: Vec<Shape>,
    #[serde(default)]
    pub clip: Vec<Shape>,
    #[serde(default)]
    pub lines: Vec<Contour>,
    #[serde(default)]
    pub rule: u8,
    #[serde(default)]
    pub fill: u8,
    #[serde(default)]
    pub cw: bool,
    #[serde(default)]
    pub simplify: bool,
    #[serde(default)]
    pub min_area: u64,
    pub solver: SolverCfg,
    #[serde(default)]
    pub invert: bool,
    #[serde(default)]
    pub boundary: bool,
    /// lines are closed
    #[serde(default)]
    pub closed: bool,
    /// 32 or 64 bit floats
    #[serde(default)]
    pub f32: bool,
    /// coordinates are multiplied by this power of two (float operations)
    #[serde(default)]
    pub fexp: i32,
    /// float minimum area
    #[serde(default)]
    pub fmin: f64,
    /// style parameters: width/offset, inner offset, join kind, join value, start cap, cap value, end cap, cap value
    #[serde(default)]
    pub style: [f64; 8],
    /// shared graph
    #[serde(default)]
    pub graph: usize,
    /// caller panics at the n-th call into caller-supplied code
    #[serde(default)]
    pub fault: Option<u64>,
    /// order of adding contours (permutation seed), 0 = as given
    #[serde(default)]
    pub order: u64,
    /// every crossing of the input edges is claimed to be an integer point
    #[serde(default)]
    pub exact: bool,
    #[serde(default)]
    pub group: u32,
    /// float coordinates are then multiplied by [0] and moved by [1], [2] (0: not)
    #[serde(default)]
    pub aff: [f64; 3],
    /// additional tolerance of the judge
    #[serde(default)]
    pub slack: f64,
    /// the result of the operation before is the subject (1), the clip (2), the lines (4)
    #[serde(default)]
    pub feed: u8,
    /// all integer coordinates are moved by this vector
    #[serde(default)]
    pub shift: [i64; 2],
    /// all lengths of a float operation are multiplied by this power of two
    #[serde(default)]
    pub unit: i32,
    /// subject and clip change places and the rule with them (1), contours run backwards and the fill rule follows (2)
    #[serde(default)]
    pub twist: u8,
}

impl Op {
    pub fn new(kind: Kind) -> Self {
        Op {
            kind,
            form: 0,
            subj: vec![],
            clip: vec![],
            lines: vec![],
            rule: 0,
            fill: 0,
            cw: false,
            simplify: true,
            min_area: 0,
            solver: SolverCfg::new(3, None),
            invert: false,
            boundary: false,
            closed: false,
            f32: false,
            fexp: 0,
            fmin: 0.0,
            style: [0.0; 8],
            graph: 0,
            fault: None,
            order: 0,
            exact: false,
            group: 0,
            aff: [0.0; 3],
            slack: 0.0,
            feed: 0,
            shift: [0; 2],
            unit: 0,
            twist: 0,
        }
    }
    pub fn dir(&self) -> ContourDirection {
        if self.cw {
            ContourDirection::Clockwise
        } else {
            ContourDirection::CounterClockwise
        }
    }
    pub fn fill_rule(&self) -> FillRule {
        match self.fill {
            0 => FillRule::EvenOdd,
            1 => FillRule::NonZero,
            2 => FillRule::Positive,
            _ => FillRule::Negative,
        }
    }
    pub fn overlay_rule(&self) -> OverlayRule {
        match self.rule {
            0 => OverlayRule::Subject,
            1 => OverlayRule::Clip,
            2 => OverlayRule::Intersect,
            3 => OverlayRule::Union,
            4 => OverlayRule::Difference,
            5 => OverlayRule::InverseDifference,
            _ => OverlayRule::Xor,
        }
    }
    pub fn clip_rule(&self) -> ClipRule {
        ClipRule { invert: self.invert, boundary_included: self.boundary }
    }
    /// `fed` changes something
    pub fn indirect(&self) -> bool {
        self.feed != 0 || self.shift != [0; 2] || self.unit != 0 || self.twist != 0
    }
    /// the operation with what it really works on
    pub fn fed(&self, before: Option<&Out>) -> Op {
        let mut o = self.clone();
        if self.shift != [0; 2] {
            for p in o.subj.iter_mut().chain(o.clip.iter_mut()).flatten().chain(o.lines.iter_mut()).flatten() {
                *p = [(p[0] as i64 + self.shift[0]) as i32, (p[1] as i64 + self.shift[1]) as i32];
            }
        }
        if self.twist & 1 != 0 {
            std::mem::swap(&mut o.subj, &mut o.clip);
            o.rule = match self.rule {
                0 => 1,
                1 => 0,
                4 => 5,
                5 => 4,
                r => r,
            };
        }
        if self.twist & 2 != 0 {
            o.subj.iter_mut().chain(o.clip.iter_mut()).flatten().for_each(|c| c.reverse());
            o.fill = match self.fill {
                2 => 3,
                3 => 2,
                f => f,
            };
        }
        if self.unit != 0 {
            let k = 2f64.powi(self.unit);
            o.fexp += self.unit;
            o.style[0] *= k;
            o.style[1] *= k;
            o.fmin *= k * k;
            o.aff[1] *= k;
            o.aff[2] *= k;
        }
        if let (true, Some(Out::Shapes(s))) = (self.feed != 0, before) {
            if self.feed & 1 != 0 {
                o.subj = s.clone();
            }
            if self.feed & 2 != 0 {
                o.clip = s.clone();
            }
            if self.feed & 4 != 0 {
                o.lines = s.iter().flatten().cloned().collect();
                o.closed = true;
            }
        }
        o
    }
    pub fn points(&self) -> usize {
        self.subj.iter().chain(self.clip.iter()).flatten().map(|c| c.len()).sum::<usize>() + self.lines.iter().map(|c| c.len()).sum::<usize>()
    }
    pub fn is_float(&self) -> bool {
        matches!(self.kind, Kind::FOverlay | Kind::FSimplify | Kind::FClip | Kind::FSlice | Kind::Stroke | Kind::Outline | Kind::FExtract | Kind::FSExtract)
    }
    /// the operation honours `solver`
    pub fn uses_solver(&self) -> bool {
        match self.kind {
            Kind::Overlay => self.form != 3 && self.form != 4,
            Kind::Clip => self.form < 2,
            Kind::Slice => self.form < 2,
            Kind::Stroke | Kind::Outline | Kind::Decompose => false,
            Kind::FOverlay => self.form % 10 != 1,
            Kind::FClip => self.form % 10 != 1,
            Kind::FSlice => self.form % 10 != 1,
            Kind::FSimplify => self.form % 10 != 1,
            _ => true,
        }
    }
}

/// values compare bit by bit
#[derive(Clone, Debug, PartialEq, Eq, Hash, Serialize, Deserialize)]
pub enum Out {
    Shapes(Vec<Shape>),
    Paths(Vec<Contour>),
    Vectors(Vec<[i32; 5]>),
    VShapes(Vec<Vec<Vec<[i32; 5]>>>),
    FShapes(Vec<Vec<Vec<[u64; 2]>>>),
    FPaths(Vec<Vec<[u64; 2]>>),
    Panic(String),
    None,
}

impl Out {
    /// moved by the vector, multiplied by the power of two
    pub fn moved(&self, d: [i64; 2], unit: i32, f32s: bool) -> Out {
        let p = |p: &Pt| [(p[0] as i64 + d[0]) as i32, (p[1] as i64 + d[1]) as i32];
        let e = |e: &[i32; 5]| {
            let (a, b) = (p(&[e[0], e[1]]), p(&[e[2], e[3]]));
            [a[0], a[1], b[0], b[1], e[4]]
        };
        let k = 2f64.powi(unit);
        let f = |v: &[u64; 2]| {
            let m = |b: u64| {
                let r = f64::from_bits(b) * k;
                (if f32s { r as f32 as f64 } else { r }).to_bits()
            };
            [m(v[0]), m(v[1])]
        };
        match self {
            Out::Shapes(v) => Out::Shapes(v.iter().map(|s| s.iter().map(|c| c.iter().map(p).collect()).collect()).collect()),
            Out::Paths(v) => Out::Paths(v.iter().map(|c| c.iter().map(p).collect()).collect()),
            Out::Vectors(v) => Out::Vectors(v.iter().map(e).collect()),
            Out::VShapes(v) => Out::VShapes(v.iter().map(|s| s.iter().map(|c| c.iter().map(e).collect()).collect()).collect()),
            Out::FShapes(v) => Out::FShapes(v.iter().map(|s| s.iter().map(|c| c.iter().map(f).collect()).collect()).collect()),
            Out::FPaths(v) => Out::FPaths(v.iter().map(|c| c.iter().map(f).collect()).collect()),
            o => o.clone(),
        }
    }
    pub fn is_empty(&self) -> bool {
        match self {
            Out::Shapes(v) => v.is_empty(),
            Out::Paths(v) => v.is_empty(),
            Out::Vectors(v) => v.is_empty(),
            Out::VShapes(v) => v.is_empty(),
            Out::FShapes(v) => v.is_empty(),
            Out::FPaths(v) => v.is_empty(),
            _ => true,
        }
    }
    pub fn brief(&self) -> String {
        let s = match self {
            Out::FShapes(v) => format!("{:?}", v.iter().map(|s| s.iter().map(|c| c.iter().map(|p| [f64::from_bits(p[0]), f64::from_bits(p[1])]).collect::<Vec<_>>()).collect::<Vec<_>>()).collect::<Vec<_>>()),
            Out::FPaths(v) => format!("{:?}", v.iter().map(|c| c.iter().map(|p| [f64::from_bits(p[0]), f64::from_bits(p[1])]).collect::<Vec<_>>()).collect::<Vec<_>>()),
            o => format!("{:?}", o),
        };
        if s.len() > lim() {
            format!("{}... ({} chars)", &s[..lim()], s.len())
        } else {
            s
        }
    }
}

pub enum Graph {
    Bool(OverlayGraph),
    Str(StringGraph),
    F64(FloatOverlayGraph<[f64; 2], f64>),
    FS64(FloatStringGraph<[f64; 2], f64>),
}

// ------------------------------------------------------------------ caller faults

thread_local! {
    static FAULT: Cell<u64> = const { Cell::new(0) };
    static CALLS: Cell<u64> = const { Cell::new(0) };
}

pub const FAULT_MSG: &str = "injected caller fault";

/// a call into caller-supplied code
#[inline]
pub fn caller_code() {
    CALLS.with(|c| c.set(c.get() + 1));
    FAULT.with(|f| {
        let v = f.get();
        if v > 0 {
            f.set(v - 1);
            if v == 1 {
                std::panic::panic_any(FAULT_MSG);
            }
        }
    });
    simkern::yield_point(30);
}

fn arm(op: &Op) {
    FAULT.with(|f| f.set(op.fault.unwrap_or(0)));
    CALLS.with(|c| c.set(0));
}

/// calls into caller-supplied code made by the last operation on this thread
pub fn last_calls() -> u64 {
    CALLS.with(|c| c.get())
}

#[derive(Clone, Copy, Debug)]
pub struct FaultP {
    x: f64,
    y: f64,
}

impl FloatPointCompatible<f64> for FaultP {
    fn from_xy(x: f64, y: f64) -> Self {
        caller_code();
        FaultP { x, y }
    }
    fn x(&self) -> f64 {
        caller_code();
        self.x
    }
    fn y(&self) -> f64 {
        caller_code();
        self.y
    }
}

pub struct FaultRes<P>(pub Vec<Vec<P>>);

pub struct FaultIter<'a, P>(std::slice::Iter<'a, Vec<P>>);

impl<'a, P> Iterator for FaultIter<'a, P> {
    type Item = &'a [P];
    fn next(&mut self) -> Option<Self::Item> {
        caller_code();
        self.0.next().map(|v| v.as_slice())
    }
}

impl<P: FloatPointCompatible<T>, T: FloatNumber> OverlayResource<P, T> for FaultRes<P> {
    type ResourceIter<'a>
        = FaultIter<'a, P>
    where
        P: 'a,
        Self: 'a;
    fn iter_paths(&self) -> FaultIter<'_, P> {
        caller_code();
        FaultIter(self.0.iter())
    }
}

// ------------------------------------------------------------------ conversion

fn ip(p: &Pt) -> IntPoint {
    IntPoint::new(p[0], p[1])
}
fn ic(c: &[Pt]) -> Vec<IntPoint> {
    c.iter().map(ip).collect()
}
fn ics(s: &[Contour]) -> Vec<Vec<IntPoint>> {
    s.iter().map(|c| ic(c)).collect()
}
fn iss(s: &[Shape]) -> Vec<Vec<Vec<IntPoint>>> {
    s.iter().map(|c| ics(c)).collect()
}
fn op_(p: &IntPoint) -> Pt {
    [p.x, p.y]
}
fn oc(c: &[IntPoint]) -> Contour {
    c.iter().map(op_).collect()
}
pub fn oss(s: &[Vec<Vec<IntPoint>>]) -> Vec<Shape> {
    s.iter().map(|s| s.iter().map(|c| oc(c)).collect()).collect()
}
fn ov(e: &VectorEdge) -> [i32; 5] {
    [e.a.x, e.a.y, e.b.x, e.b.y, e.fill as i32]
}
fn ovs(v: &[VectorShape]) -> Out {
    Out::VShapes(v.iter().map(|s| s.iter().map(|p| p.iter().map(ov).collect()).collect()).collect())
}

/// float types of the workload
pub trait F: FloatNumber + 'static {
    fn of(v: f64) -> Self;
    fn to(self) -> f64;
}
impl F for f64 {
    fn of(v: f64) -> f64 {
        v
    }
    fn to(self) -> f64 {
        self
    }
}
impl F for f32 {
    fn of(v: f64) -> f32 {
        v as f32
    }
    fn to(self) -> f64 {
        self as f64
    }
}

pub fn fscale(op: &Op) -> f64 {
    2f64.powi(op.fexp)
}

/// how integer coordinates become floats
#[derive(Clone, Copy)]
pub struct Map {
    k: f64,
    aff: [f64; 3],
}

pub fn fmap(op: &Op) -> Map {
    Map { k: fscale(op), aff: op.aff }
}

impl Map {
    pub fn at(&self, p: &Pt) -> [f64; 2] {
        let q = [p[0] as f64 * self.k, p[1] as f64 * self.k];
        if self.aff[0] == 0.0 {
            q
        } else {
            [q[0] * self.aff[0] + self.aff[1], q[1] * self.aff[0] + self.aff[2]]
        }
    }
}

fn fp<P: FloatPointCompatible<T>, T: F>(p: &Pt, k: Map) -> P {
    let q = k.at(p);
    P::from_xy(T::of(q[0]), T::of(q[1]))
}
fn fc<P: FloatPointCompatible<T>, T: F>(c: &[Pt], k: Map) -> Vec<P> {
    c.iter().map(|p| fp::<P, T>(p, k)).collect()
}
fn fcs<P: FloatPointCompatible<T>, T: F>(s: &[Contour], k: Map) -> Vec<Vec<P>> {
    s.iter().map(|c| fc::<P, T>(c, k)).collect()
}
fn fss<P: FloatPointCompatible<T>, T: F>(s: &[Shape], k: Map) -> Vec<Vec<Vec<P>>> {
    s.iter().map(|c| fcs::<P, T>(c, k)).collect()
}
fn bits<P: FloatPointCompatible<T>, T: F>(p: &P) -> [u64; 2] {
    [p.x().to().to_bits(), p.y().to().to_bits()]
}
fn ofs<P: FloatPointCompatible<T>, T: F>(s: &[Vec<Vec<P>>]) -> Out {
    Out::FShapes(s.iter().map(|s| s.iter().map(|c| c.iter().map(bits::<P, T>).collect()).collect()).collect())
}
fn ofp<P: FloatPointCompatible<T>, T: F>(s: &[Vec<P>]) -> Out {
    Out::FPaths(s.iter().map(|c| c.iter().map(bits::<P, T>).collect()).collect())
}

struct Items<'a> {
    it: std::slice::Iter<'a, Pt>,
}
impl<'a> Iterator for Items<'a> {
    type Item = IntPoint;
    fn next(&mut self) -> Option<IntPoint> {
        caller_code();
        self.it.next().map(ip)
    }
}

// ------------------------------------------------------------------ building

fn contours_in_order(op: &Op) -> Vec<(&Contour, ShapeType)> {
    let mut v: Vec<(&Contour, ShapeType)> = op
        .subj
        .iter()
        .flatten()
        .map(|c| (c, ShapeType::Subject))
        .chain(op.clip.iter().flatten().map(|c| (c, ShapeType::Clip)))
        .collect();
    if op.order != 0 {
        let mut r = simkern::Rng::new(op.order);
        for i in (1..v.len()).rev() {
            let j = r.below(i as u64 + 1) as usize;
            v.swap(i, j);
        }
    }
    v
}

/// all ways of filling an overlay give the same segments (in some order)
pub fn build_overlay(op: &Op, form: u8) -> Overlay {
    if op.order != 0 {
        let mut o = Overlay::new(if op.order & 1 == 0 { 0 } else { op.points() });
        for (c, t) in contours_in_order(op) {
            if op.order & 2 == 0 {
                o.add_contour(&ic(c), t);
            } else {
                o.add_path_iter(Items { it: c.iter() }, t);
            }
        }
        return o;
    }
    match form % 5 {
        0 => Overlay::with_shapes(&iss(&op.subj), &iss(&op.clip)),
        1 => {
            let s: Vec<Contour> = op.subj.iter().flatten().cloned().collect();
            let c: Vec<Contour> = op.clip.iter().flatten().cloned().collect();
            if s.len() == 1 && c.len() == 1 {
                Overlay::with_contour(&ic(&s[0]), &ic(&c[0]))
            } else {
                Overlay::with_contours(&ics(&s), &ics(&c))
            }
        }
        2 => {
            let mut o = Overlay::new(0);
            for (c, t) in contours_in_order(op) {
                o.add_path_iter(Items { it: c.iter() }, t);
            }
            o
        }
        3 => {
            let mut o = Overlay::new(op.points());
            for s in &op.subj {
                o.add_shape(&ics(s), ShapeType::Subject);
            }
            o.add_shapes(&iss(&op.clip), ShapeType::Clip);
            o.clone()
        }
        _ => {
            let mut o = Overlay::new(3);
            for s in &op.clip {
                o.add_contours(&ics(s), ShapeType::Clip);
            }
            for c in op.subj.iter().flatten() {
                o.add_contour(&ic(c), ShapeType::Subject);
            }
            o
        }
    }
}

fn build_string(op: &Op, form: u8) -> StringOverlay {
    let mut o = match form % 5 {
        0 => StringOverlay::with_shapes(&iss(&op.subj)),
        1 => {
            let s: Vec<Contour> = op.subj.iter().flatten().cloned().collect();
            if s.len() == 1 {
                StringOverlay::with_shape_contour(&ic(&s[0]))
            } else {
                StringOverlay::with_shape_contours(&ics(&s))
            }
        }
        2 => {
            let mut o = StringOverlay::new(0);
            for c in op.subj.iter().flatten() {
                o.add_shape_contour_iter(Items { it: c.iter() });
            }
            o
        }
        3 => {
            if op.subj.len() == 1 {
                StringOverlay::with_shape(&ics(&op.subj[0]))
            } else {
                let mut o = StringOverlay::new(7);
                o.add_shapes(&iss(&op.subj));
                o.clone()
            }
        }
        4 if form == 9 => {
            let mut o = StringOverlay::new(1);
            for s in &op.subj {
                o.add_shape_contours(&ics(s));
            }
            o
        }
        _ => {
            let mut o = StringOverlay::new(op.points());
            for c in op.subj.iter().flatten() {
                o.add_shape_contour(&ic(c));
            }
            o
        }
    };
    if op.closed {
        if form & 1 == 0 {
            for l in &op.lines {
                o.add_string_contour(&ic(l));
            }
        } else {
            o.add_string_contours(&ics(&op.lines));
        }
    } else {
        match form % 3 {
            0 => o.add_string_paths(&ics(&op.lines)),
            1 => {
                for l in &op.lines {
                    o.add_string_path(&ic(l));
                }
            }
            _ => {
                for l in &op.lines {
                    let v: Vec<[IntPoint; 2]> = l.windows(2).map(|w| [ip(&w[0]), ip(&w[1])]).collect();
                    if v.len() > 2 {
                        o.add_string_lines(&v);
                    } else {
                        for s in v {
                            o.add_string_line(s);
                        }
                    }
                }
            }
        }
    }
    o
}

pub fn build_graph(op: &Op) -> Graph {
    arm(&Op { fault: None, ..Op::new(op.kind) });
    match op.kind {
        Kind::SExtract => Graph::Str(build_string(op, op.form).into_graph_with_solver(op.fill_rule(), op.solver.solver())),
        Kind::FExtract => {
            let k = fmap(op);
            Graph::F64(
                FloatOverlay::<[f64; 2], f64>::with_subj_and_clip(&fss::<[f64; 2], f64>(&op.subj, k), &fss::<[f64; 2], f64>(&op.clip, k))
                    .into_graph_with_solver(op.fill_rule(), op.solver.solver()),
            )
        }
        Kind::FSExtract => {
            let k = fmap(op);
            Graph::FS64(
                FloatStringOverlay::<[f64; 2], f64>::with_shape_and_string(&fss::<[f64; 2], f64>(&op.subj, k), &fcs::<[f64; 2], f64>(&op.lines, k))
                    .into_graph_with_solver(op.fill_rule(), op.solver.solver()),
            )
        }
        _ => Graph::Bool(build_overlay(op, op.form).into_graph_with_solver(op.fill_rule(), op.solver.solver())),
    }
}

// ------------------------------------------------------------------ float operations over containers

trait Act<P: FloatPointCompatible<T>, T: F> {
    fn go<R0: OverlayResource<P, T> + ?Sized, R1: OverlayResource<P, T> + ?Sized>(&self, a: &R0, b: &R1) -> Out;
    fn go_sized<R0: OverlayResource<P, T>, R1: OverlayResource<P, T>>(&self, a: &R0, b: &R1) -> Out {
        self.go(a, b)
    }
}

struct FAct<'a> {
    op: &'a Op,
    api: u8,
}

impl<'a, P: FloatPointCompatible<T> + 'static, T: F> Act<P, T> for FAct<'a> {
    fn go<R0: OverlayResource<P, T> + ?Sized, R1: OverlayResource<P, T> + ?Sized>(&self, a: &R0, b: &R1) -> Out {
        let op = self.op;
        let solver = op.solver.solver();
        let filter = ContourFilter { min_area: T::of(op.fmin), simplify_contour: op.simplify, clean_result: op.form >= 100 };
        match op.kind {
            Kind::FSimplify => {
                let o = FloatOverlay::with_subj(a);
                let full = ContourFilter { min_area: T::of(op.fmin), simplify_contour: true, clean_result: true };
                match self.api {
                    1 => ofs(&o.overlay_custom(OverlayRule::Subject, op.fill_rule(), op.dir(), full, Default::default())),
                    2 => ofs(&o.overlay_custom(OverlayRule::Subject, op.fill_rule(), op.dir(), full, solver)),
                    3 => {
                        let adapter = FloatPointAdapter::with_iter(a.iter_paths().flatten());
                        let o = FloatOverlay::with_adapter(adapter, 1).unsafe_add_source(a, ShapeType::Subject);
                        ofs(&o.overlay_custom(OverlayRule::Subject, op.fill_rule(), op.dir(), filter, solver))
                    }
                    _ => ofs(&o.overlay_custom(OverlayRule::Subject, op.fill_rule(), op.dir(), filter, solver)),
                }
            }
            _ => {
                let o = FloatOverlay::with_subj_and_clip(a, b);
                match self.api {
                    1 => ofs(&o.overlay(op.overlay_rule(), op.fill_rule())),
                    2 => {
                        let g = o.into_graph_with_solver(op.fill_rule(), solver);
                        ofs(&g.extract_shapes_custom(op.overlay_rule(), op.dir(), filter))
                    }
                    3 => {
                        // contour by contour, the clip first
                        let adapter = FloatPointAdapter::with_iter(b.iter_paths().chain(a.iter_paths()).flatten());
                        let mut o = FloatOverlay::with_adapter(adapter, 1).unsafe_add_source(b, ShapeType::Clip);
                        for c in a.iter_paths() {
                            o = o.unsafe_add_contour(c, ShapeType::Subject);
                        }
                        ofs(&o.overlay_custom(op.overlay_rule(), op.fill_rule(), op.dir(), filter, solver))
                    }
                    4 => ofs(&o.into_graph(op.fill_rule()).extract_shapes(op.overlay_rule())),
                    _ => ofs(&o.clone().overlay_custom(op.overlay_rule(), op.fill_rule(), op.dir(), filter, solver)),
                }
            }
        }
    }
    fn go_sized<R0: OverlayResource<P, T>, R1: OverlayResource<P, T>>(&self, a: &R0, b: &R1) -> Out {
        let op = self.op;
        let solver = op.solver.solver();
        let filter = ContourFilter { min_area: T::of(op.fmin), simplify_contour: op.simplify, clean_result: op.form >= 100 };
        match (op.kind, self.api) {
            (Kind::FSimplify, 1) => ofs(&a.simplify_shape(op.fill_rule(), op.dir(), T::of(op.fmin))),
            (Kind::FSimplify, 2) => ofs(&a.simplify_shape_with_solver(op.fill_rule(), op.dir(), T::of(op.fmin), solver)),
            (Kind::FOverlay, 1) => ofs(&SingleFloatOverlay::overlay(a, b, op.overlay_rule(), op.fill_rule())),
            (Kind::FClip, 1) => ofp(&b.clip_by(a, op.fill_rule(), op.clip_rule())),
            (Kind::FClip, 2) => ofp(&b.clip_by_with_solver(a, op.fill_rule(), op.clip_rule(), solver)),
            (Kind::FClip, _) => ofp(&FloatStringOverlay::with_shape_and_string(a, b).clip_string_lines_with_solver(op.fill_rule(), op.clip_rule(), solver)),
            (Kind::FSlice, 1) => ofs(&a.slice_by(b, op.fill_rule())),
            (Kind::FSlice, 2) => ofs(&a.slice_custom_by(b, op.fill_rule(), op.dir(), filter, solver)),
            (Kind::FSlice, 4) => ofs(&FloatStringOverlay::with_shape_and_string(a, b).into_graph(op.fill_rule()).extract_shapes(StringRule::Slice)),
            (Kind::FSlice | Kind::FClip, 3) => {
                // path by path, the lines first
                let adapter = FloatPointAdapter::with_iter(b.iter_paths().chain(a.iter_paths()).flatten());
                let mut o = FloatStringOverlay::with_adapter(adapter, 1);
                if op.form & 1 == 0 {
                    for l in b.iter_paths() {
                        o = o.unsafe_add_string_line(l);
                    }
                    o = o.unsafe_add_shapes(a);
                } else {
                    for c in a.iter_paths() {
                        o = o.unsafe_add_shape_contour(c);
                    }
                    o = o.unsafe_add_string_lines(b);
                }
                if op.kind == Kind::FClip {
                    ofp(&o.clip_string_lines_with_solver(op.fill_rule(), op.clip_rule(), solver))
                } else {
                    ofs(&o.into_graph_with_solver(op.fill_rule(), solver).extract_shapes_custom(StringRule::Slice, op.dir(), filter))
                }
            }
            (Kind::FSlice, _) => ofs(&FloatStringOverlay::with_shape_and_string(a, b).into_graph_with_solver(op.fill_rule(), solver).extract_shapes_custom(StringRule::Slice, op.dir(), filter)),
            _ => self.go(a, b),
        }
    }
}

fn arr<P: Copy, const N: usize>(v: &[P]) -> [P; N] {
    v.try_into().ok().unwrap()
}

/// dispatch over the containers a caller may use; `form / 10 % 10` selects
fn containers<P: FloatPointCompatible<T> + 'static, T: F, A: Act<P, T>>(op: &Op, act: &A) -> Out {
    let k = fmap(op);
    let a3 = fss::<P, T>(&op.subj, k);
    let b3: Vec<Vec<Vec<P>>> = if matches!(op.kind, Kind::FClip | Kind::FSlice) {
        op.lines.iter().map(|l| vec![fc::<P, T>(l, k)]).collect()
    } else {
        fss::<P, T>(&op.clip, k)
    };
    let a2: Vec<Vec<P>> = a3.iter().flatten().cloned().collect();
    let b2: Vec<Vec<P>> = b3.iter().flatten().cloned().collect();
    let unsized_ok = matches!(op.kind, Kind::FOverlay | Kind::FSimplify);
    match op.form / 10 % 10 {
        1 => act.go_sized(&a2, &b2),
        2 if unsized_ok => act.go(&a3[..], &b3[..]),
        3 if unsized_ok => act.go(&a2[..], &b2[..]),
        4 if a2.len() == 1 && b2.len() == 1 => act.go_sized(&a2[0], &b2[0]),
        5 if a2.len() == 1 && b2.len() == 1 && unsized_ok => act.go(&a2[0][..], &b2[0][..]),
        6 if a2.len() == 1 && b2.len() == 1 => act.go_sized(&&a2[0][..], &&b2[0][..]),
        7 if a2.len() == 1 => match a2[0].len() {
            3 => act.go_sized(&arr::<P, 3>(&a2[0]), &b3),
            4 => act.go_sized(&arr::<P, 4>(&a2[0]), &b3),
            5 => act.go_sized(&arr::<P, 5>(&a2[0]), &b2),
            8 => act.go_sized(&arr::<P, 8>(&a2[0]), &b2),
            _ => act.go_sized(&a2[0], &b3),
        },
        8 => match (a2.len(), b2.len()) {
            (1, _) => act.go_sized(&[a2[0].clone()], &b2),
            (2, _) => act.go_sized(&[a2[0].clone(), a2[1].clone()], &b3),
            (_, 1) => act.go_sized(&a3, &[b2[0].clone()]),
            (_, 2) => act.go_sized(&a2, &[vec![b2[0].clone()], vec![b2[1].clone()]]),
            _ => act.go_sized(&&a2[..], &b3),
        },
        9 => act.go_sized(&FaultRes(a2), &FaultRes(b2)),
        _ => act.go_sized(&a3, &b3),
    }
}

// ------------------------------------------------------------------ execution

/// custom caps, in units of half the width, from the right side of the path to the left one
pub fn cap_points(kind: i32) -> &'static [[f64; 2]] {
    match kind {
        3 => &[[-0.5, -2.0], [1.5, 0.0], [-0.5, 2.0]],
        4 => &[[9.0, 0.25]],
        5 => &[[0.5, -1.0], [0.5, -3.0], [6.0, -3.0], [6.0, 3.0], [0.5, 3.0], [0.5, 1.0]],
        // templates which repeat the corners of the line or their own points
        6 => &[[0.0, -1.0], [2.5, 0.0], [0.0, 1.0]],
        7 => &[[0.0, -2.0], [0.0, -2.0], [1.5, 0.0], [1.5, 0.0], [0.0, 2.0], [0.0, 1.0]],
        _ => &[],
    }
}

fn caps<P: FloatPointCompatible<T>, T: F>(kind: f64, v: f64) -> LineCap<P, T> {
    match kind as i32 {
        1 => LineCap::Round(T::of(v)),
        2 => LineCap::Square,
        3..=7 => LineCap::Custom(cap_points(kind as i32).iter().map(|p| P::from_xy(T::of(p[0]), T::of(p[1]))).collect()),
        _ => LineCap::Butt,
    }
}

fn joins<T: F>(kind: f64, v: f64) -> LineJoin<T> {
    match kind as i32 {
        1 => LineJoin::Miter(T::of(v)),
        2 => LineJoin::Round(T::of(v)),
        _ => LineJoin::Bevel,
    }
}

fn stroke_style<P: FloatPointCompatible<T>, T: F>(op: &Op) -> StrokeStyle<P, T> {
    let s = &op.style;
    StrokeStyle::new(T::of(s[0])).width(T::of(s[0])).line_join(joins(s[2], s[3])).start_cap(caps(s[4], s[5])).end_cap(caps(s[6], s[7]))
}

fn outline_style<T: F>(op: &Op) -> OutlineStyle<T> {
    let s = &op.style;
    if s[0] == s[1] && op.form & 1 == 0 {
        OutlineStyle::new(T::of(s[0])).line_join(joins(s[2], s[3]))
    } else {
        OutlineStyle::new(T::of(0.0)).outer_offset(T::of(s[0])).inner_offset(T::of(s[1])).line_join(joins(s[2], s[3]))
    }
}

fn float_op<P: FloatPointCompatible<T> + 'static, T: F>(op: &Op) -> Out {
    let k = fmap(op);
    match op.kind {
        Kind::Stroke => {
            let p = fcs::<P, T>(&op.lines, k);
            let filter = ContourFilter { min_area: T::of(op.fmin), simplify_contour: op.simplify, clean_result: op.form >= 100 };
            let st = stroke_style::<P, T>(op);
            match op.form % 10 {
                1 => ofs(&p.stroke(st, op.closed)),
                2 if p.len() == 1 => ofs(&p[0].stroke_custom(st, op.closed, op.dir(), filter)),
                3 => ofs(&vec![p].stroke_custom(st, op.closed, op.dir(), filter)),
                9 => ofs(&FaultRes(p).stroke_custom(st, op.closed, op.dir(), filter)),
                _ => ofs(&p.stroke_custom(st, op.closed, op.dir(), filter)),
            }
        }
        Kind::Outline => {
            let p = fss::<P, T>(&op.subj, k);
            let filter = ContourFilter { min_area: T::of(op.fmin), simplify_contour: op.simplify, clean_result: op.form >= 100 };
            let st = outline_style::<T>(op);
            match op.form % 10 {
                1 => ofs(&p.outline(st)),
                2 => {
                    let f: Vec<Vec<P>> = p.into_iter().flatten().collect();
                    ofs(&f.outline_custom(st, op.dir(), filter))
                }
                9 => {
                    let f: Vec<Vec<P>> = p.into_iter().flatten().collect();
                    ofs(&FaultRes(f).outline_custom(st, op.dir(), filter))
                }
                _ => ofs(&p.outline_custom(st, op.dir(), filter)),
            }
        }
        _ => containers::<P, T, FAct>(op, &FAct { op, api: op.form % 10 }),
    }
}

fn run(op: &Op, graphs: &[Graph]) -> Out {
    let solver = op.solver.solver();
    match op.kind {
        Kind::Overlay => match op.form {
            // one-shot with everything default (only for default parameters)
            3 => Out::Shapes(oss(&build_overlay(op, 0).overlay(op.overlay_rule(), op.fill_rule()))),
            4 => {
                let s = iss(&op.subj);
                let r = if s.len() == 1 && s[0].len() == 1 {
                    s[0][0].simplify(op.fill_rule(), op.dir(), op.simplify, op.min_area as usize)
                } else if s.len() == 1 && op.order & 1 == 0 {
                    Simplify::simplify(&s[0], op.fill_rule(), op.dir(), op.simplify, op.min_area as usize)
                } else if op.order & 2 == 0 {
                    Simplify::simplify(&s[..], op.fill_rule(), op.dir(), op.simplify, op.min_area as usize)
                } else {
                    let f: Vec<Vec<IntPoint>> = s.into_iter().flatten().collect();
                    Simplify::simplify(&f[..], op.fill_rule(), op.dir(), op.simplify, op.min_area as usize)
                };
                Out::Shapes(oss(&r))
            }
            f if f % 2 == 1 => {
                let g = build_overlay(op, f / 2).into_graph_with_solver(op.fill_rule(), solver);
                g.validate();
                Out::Shapes(oss(&g.extract_shapes_custom(op.overlay_rule(), op.dir(), op.simplify, op.min_area as usize)))
            }
            f => Out::Shapes(oss(&build_overlay(op, f / 2).overlay_custom(op.overlay_rule(), op.fill_rule(), op.dir(), op.simplify, op.min_area as usize, solver))),
        },
        Kind::Vectors => {
            let o = build_overlay(op, op.form);
            Out::Vectors(o.into_separate_vectors(op.fill_rule(), solver).iter().map(ov).collect())
        }
        Kind::ShapeVectors => {
            let o = build_overlay(op, op.form);
            if op.form & 1 == 0 {
                ovs(&o.into_shape_vectors(op.fill_rule(), op.overlay_rule(), solver))
            } else {
                ovs(&o.into_graph_with_solver(op.fill_rule(), solver).extract_shape_vectors(op.overlay_rule()))
            }
        }
        Kind::Clip => {
            let r = match op.form {
                0 | 1 => build_string(op, op.form + op.order as u8).clip_string_lines_with_solver(op.fill_rule(), op.clip_rule(), solver),
                2 => build_string(op, op.order as u8).clip_string_lines(op.fill_rule(), op.clip_rule()),
                _ => {
                    let s = iss(&op.subj);
                    let l = ics(&op.lines);
                    let (fr, cr) = (op.fill_rule(), op.clip_rule());
                    let segs: Vec<[IntPoint; 2]> = l.iter().flat_map(|p| p.windows(2).map(|w| [w[0], w[1]])).collect();
                    macro_rules! four {
                        ($r:expr) => {
                            match op.form {
                                3 => $r.clip_paths(&l, fr, cr),
                                4 if l.len() == 1 => $r.clip_path(&l[0], fr, cr),
                                5 if segs.len() == 1 => $r.clip_line(segs[0], fr, cr),
                                _ => $r.clip_lines(&segs, fr, cr),
                            }
                        };
                    }
                    if s.len() == 1 && s[0].len() == 1 {
                        four!(s[0][0][..])
                    } else if s.len() == 1 {
                        four!(s[0])
                    } else {
                        four!(s)
                    }
                }
            };
            Out::Paths(r.iter().map(|c| oc(c)).collect())
        }
        Kind::Slice => {
            let r = match op.form {
                0 => build_string(op, op.order as u8).into_graph_with_solver(op.fill_rule(), solver).extract_shapes_custom(StringRule::Slice, op.dir(), op.min_area as usize),
                1 => build_string(op, 1 + op.order as u8).into_graph_with_solver(op.fill_rule(), solver).extract_shapes_custom(StringRule::Slice, op.dir(), op.min_area as usize),
                2 => build_string(op, op.order as u8).into_graph(op.fill_rule()).extract_shapes(StringRule::Slice),
                _ => {
                    let s = iss(&op.subj);
                    let l = ics(&op.lines);
                    let fr = op.fill_rule();
                    let segs: Vec<[IntPoint; 2]> = l.iter().flat_map(|p| p.windows(2).map(|w| [w[0], w[1]])).collect();
                    macro_rules! four {
                        ($r:expr) => {
                            match op.form {
                                3 => $r.slice_by_paths(&l, fr),
                                4 if l.len() == 1 => $r.slice_by_path(&l[0], fr),
                                5 if segs.len() == 1 => $r.slice_by_line(segs[0], fr),
                                _ => $r.slice_by_lines(&segs, fr),
                            }
                        };
                    }
                    if s.len() == 1 && s[0].len() == 1 {
                        four!(s[0][0][..])
                    } else if s.len() == 1 {
                        four!(s[0])
                    } else {
                        four!(s)
                    }
                }
            };
            Out::Shapes(oss(&r))
        }
        Kind::FOverlay | Kind::FSimplify | Kind::FClip | Kind::FSlice | Kind::Stroke | Kind::Outline => {
            if op.form / 10 % 10 == 9 && op.form % 10 != 9 && !op.f32 || op.fault.is_some() {
                float_op::<FaultP, f64>(op)
            } else if op.f32 {
                float_op::<[f32; 2], f32>(op)
            } else {
                float_op::<[f64; 2], f64>(op)
            }
        }
        Kind::Decompose => {
            // one entry for each contour: what it was split into, nothing if it stays as it is
            let one = |c: &[Pt]| ic(c).decompose_contours().map(|v| v.iter().map(|c| oc(c)).collect()).unwrap_or_default();
            Out::Shapes(op.subj.iter().flatten().map(|c| one(c)).collect())
        }
        Kind::Extract => match &graphs[op.graph] {
            Graph::Bool(g) => Out::Shapes(oss(&if op.form & 1 == 0 {
                g.extract_shapes_custom(op.overlay_rule(), op.dir(), op.simplify, op.min_area as usize)
            } else {
                g.extract_shapes(op.overlay_rule())
            })),
            _ => Out::None,
        },
        Kind::ExtractVectors => match &graphs[op.graph] {
            Graph::Bool(g) => Out::Vectors(g.extract_separate_vectors().iter().map(ov).collect()),
            _ => Out::None,
        },
        Kind::ExtractShapeVectors => match &graphs[op.graph] {
            Graph::Bool(g) => ovs(&g.extract_shape_vectors(op.overlay_rule())),
            _ => Out::None,
        },
        Kind::SExtract => match &graphs[op.graph] {
            Graph::Str(g) => Out::Shapes(oss(&if op.form & 1 == 0 {
                g.extract_shapes_custom(StringRule::Slice, op.dir(), op.min_area as usize)
            } else {
                g.extract_shapes(StringRule::Slice)
            })),
            _ => Out::None,
        },
        Kind::FExtract => match &graphs[op.graph] {
            Graph::F64(g) => {
                let filter = ContourFilter { min_area: op.fmin, simplify_contour: op.simplify, clean_result: op.form >= 100 };
                if op.form & 1 == 0 {
                    ofs(&g.extract_shapes_custom(op.overlay_rule(), op.dir(), filter))
                } else {
                    ofs(&g.extract_shapes(op.overlay_rule()))
                }
            }
            _ => Out::None,
        },
        Kind::FSExtract => match &graphs[op.graph] {
            Graph::FS64(g) => {
                let filter = ContourFilter { min_area: op.fmin, simplify_contour: op.simplify, clean_result: op.form >= 100 };
                if op.form & 1 == 0 {
                    ofs(&g.extract_shapes_custom(StringRule::Slice, op.dir(), filter))
                } else {
                    ofs(&g.extract_shapes(StringRule::Slice))
                }
            }
            _ => Out::None,
        },
    }
}

thread_local! {
    pub static LAST_PANIC: std::cell::RefCell<String> = const { std::cell::RefCell::new(String::new()) };
}

pub fn exec(op: &Op, graphs: &[Graph]) -> Out {
    arm(op);
    let r = catch_unwind(AssertUnwindSafe(|| run(op, graphs)));
    FAULT.with(|f| f.set(0));
    match r {
        Ok(o) => o,
        Err(p) => {
            if p.downcast_ref::<&str>() == Some(&FAULT_MSG) {
                Out::Panic(FAULT_MSG.into())
            } else {
                simkern::masked(|| {
                    let m = if let Some(s) = p.downcast_ref::<&str>() {
                        s.to_string()
                    } else if let Some(s) = p.downcast_ref::<String>() {
                        s.clone()
                    } else {
                        "panic".into()
                    };
                    let loc = LAST_PANIC.with(|l| l.borrow().clone());
                    Out::Panic(format!("{} at {}", m, loc))
                })
            }
        }
    }
}

pub fn exec_with_calls(op: &Op, graphs: &[Graph]) -> (Out, u64) {
    let o = exec(op, graphs);
    (o, last_calls())
}

fn lim() -> usize {
    use std::sync::OnceLock;
    static L: OnceLock<usize> = OnceLock::new();
    *L.get_or_init(|| std::env::var("IOSIM_BRIEF").ok().and_then(|v| v.parse().ok()).unwrap_or(400))
}
