//! Independent f64 geometry used as the reference.
use box2d_rs::b2_math::*;
use box2d_rs::b2_shape::*;
use box2d_rs::shapes::b2_chain_shape::*;
use box2d_rs::shapes::b2_edge_shape::*;
use box2d_rs::shapes::b2rs_to_derived_shape::*;
use std::ops::{Add, Mul, Neg, Sub};

#[derive(Clone, Copy, Debug, PartialEq)]
pub struct V {
    pub x: f64,
    pub y: f64,
}
pub const fn v(x: f64, y: f64) -> V {
    V { x, y }
}
impl Add for V {
    type Output = V;
    fn add(self, o: V) -> V {
        v(self.x + o.x, self.y + o.y)
    }
}
impl Sub for V {
    type Output = V;
    fn sub(self, o: V) -> V {
        v(self.x - o.x, self.y - o.y)
    }
}
impl Neg for V {
    type Output = V;
    fn neg(self) -> V {
        v(-self.x, -self.y)
    }
}
impl Mul<V> for f64 {
    type Output = V;
    fn mul(self, o: V) -> V {
        v(self * o.x, self * o.y)
    }
}
impl Mul<f64> for V {
    type Output = V;
    fn mul(self, s: f64) -> V {
        v(self.x * s, self.y * s)
    }
}
impl V {
    pub fn dot(self, o: V) -> f64 {
        self.x * o.x + self.y * o.y
    }
    pub fn cross(self, o: V) -> f64 {
        self.x * o.y - self.y * o.x
    }
    pub fn len(self) -> f64 {
        self.dot(self).sqrt()
    }
    pub fn norm(self) -> V {
        let l = self.len();
        if l > 0.0 {
            self * (1.0 / l)
        } else {
            v(0.0, 0.0)
        }
    }
    /// rotate by +90 degrees
    pub fn perp(self) -> V {
        v(-self.y, self.x)
    }
    pub fn finite(self) -> bool {
        self.x.is_finite() && self.y.is_finite()
    }
}
pub fn d(p: B2vec2) -> V {
    v(p.x as f64, p.y as f64)
}
pub fn b2(p: V) -> B2vec2 {
    B2vec2 { x: p.x as f32, y: p.y as f32 }
}
pub fn b2v(x: f32, y: f32) -> B2vec2 {
    B2vec2 { x, y }
}
pub fn fin(p: B2vec2) -> bool {
    p.x.is_finite() && p.y.is_finite()
}

#[derive(Clone, Copy, Debug)]
pub struct Xf {
    pub p: V,
    pub c: f64,
    pub s: f64,
}
impl Xf {
    pub fn of(t: B2Transform) -> Xf {
        Xf { p: d(t.p), c: t.q.c as f64, s: t.q.s as f64 }
    }
    pub fn new(p: V, a: f64) -> Xf {
        Xf { p, c: a.cos(), s: a.sin() }
    }
    pub fn mul(&self, q: V) -> V {
        self.p + self.rot(q)
    }
    pub fn rot(&self, q: V) -> V {
        v(self.c * q.x - self.s * q.y, self.s * q.x + self.c * q.y)
    }
    pub fn inv_rot(&self, q: V) -> V {
        v(self.c * q.x + self.s * q.y, -self.s * q.x + self.c * q.y)
    }
    pub fn inv_mul(&self, q: V) -> V {
        self.inv_rot(q - self.p)
    }
}
pub fn xf(p: B2vec2, a: f32) -> B2Transform {
    let mut t = B2Transform::default();
    t.set(p, a);
    t
}

/// convex hull of up to a few points (in hull order, CCW for 3+), inflated by radius r
#[derive(Clone, Debug)]
pub struct Cx {
    pub p: Vec<V>,
    pub r: f64,
}

pub fn closest_on_seg(p: V, a: V, b: V) -> V {
    let e = b - a;
    let l2 = e.dot(e);
    if l2 <= 0.0 {
        return a;
    }
    let t = ((p - a).dot(e) / l2).max(0.0).min(1.0);
    a + e * t
}
impl Cx {
    pub fn moved(&self, x: &Xf) -> Cx {
        Cx { p: self.p.iter().map(|q| x.mul(*q)).collect(), r: self.r }
    }
    pub fn edges(&self) -> Vec<(V, V)> {
        let n = self.p.len();
        match n {
            1 => vec![(self.p[0], self.p[0])],
            2 => vec![(self.p[0], self.p[1])],
            _ => (0..n).map(|i| (self.p[i], self.p[(i + 1) % n])).collect(),
        }
    }
    /// signed distance of q to the core boundary for polygons (negative inside)
    pub fn core_sd(&self, q: V) -> f64 {
        let mut best = f64::MAX;
        for (a, b) in self.edges() {
            best = best.min((q - closest_on_seg(q, a, b)).len());
        }
        if self.p.len() >= 3 && self.core_contains(q) {
            -best
        } else {
            best
        }
    }
    /// distance from q to the core set (0 inside)
    pub fn core_dist(&self, q: V) -> f64 {
        self.core_sd(q).max(0.0)
    }
    pub fn core_contains(&self, q: V) -> bool {
        if self.p.len() < 3 {
            return false;
        }
        self.edges().iter().all(|(a, b)| (*b - *a).cross(q - *a) >= 0.0)
    }
    pub fn support(&self, dir: V) -> f64 {
        self.p.iter().map(|q| q.dot(dir)).fold(f64::MIN, f64::max)
    }
    pub fn extent(&self) -> f64 {
        let mut m: f64 = 0.0;
        for a in &self.p {
            for b in &self.p {
                m = m.max((*a - *b).len());
            }
        }
        m + self.r
    }
    pub fn max_abs(&self) -> f64 {
        self.p.iter().map(|q| q.x.abs().max(q.y.abs())).fold(0.0, f64::max)
    }
    /// how far the middle lies inside the surface
    pub fn center_depth(&self) -> f64 {
        self.r - if self.p.len() > 2 { self.core_sd(self.center()) } else { 0.0 }
    }
    pub fn center(&self) -> V {
        let mut c = v(0.0, 0.0);
        for q in &self.p {
            c = c + *q;
        }
        c * (1.0 / self.p.len() as f64)
    }
}
fn seg_cross(a: V, b: V, c: V, dd: V) -> bool {
    let o = |p: V, q: V, r: V| (q - p).cross(r - p);
    let (o1, o2, o3, o4) = (o(a, b, c), o(a, b, dd), o(c, dd, a), o(c, dd, b));
    (o1 > 0.0) != (o2 > 0.0) && (o3 > 0.0) != (o4 > 0.0) && o1 != 0.0 && o2 != 0.0 && o3 != 0.0 && o4 != 0.0
}
pub fn cores_overlap(a: &Cx, b: &Cx) -> bool {
    for (p, q) in a.edges() {
        for (r, s) in b.edges() {
            if seg_cross(p, q, r, s) {
                return true;
            }
        }
    }
    a.p.iter().any(|q| b.core_contains(*q)) || b.p.iter().any(|q| a.core_contains(*q))
}
/// distance between the cores (0 when they overlap) with witness points
pub fn core_distance(a: &Cx, b: &Cx) -> (f64, V, V) {
    if cores_overlap(a, b) {
        return (0.0, a.p[0], b.p[0]);
    }
    let mut best = (f64::MAX, a.p[0], b.p[0]);
    let (ea, eb) = (a.edges(), b.edges());
    for q in &a.p {
        for (r, s) in &eb {
            let c = closest_on_seg(*q, *r, *s);
            let l = (c - *q).len();
            if l < best.0 {
                best = (l, *q, c);
            }
        }
    }
    for q in &b.p {
        for (r, s) in &ea {
            let c = closest_on_seg(*q, *r, *s);
            let l = (c - *q).len();
            if l < best.0 {
                best = (l, c, *q);
            }
        }
    }
    best
}
/// separation of cores along the axis n: how far b is from a in direction n (negative: overlap)
pub fn axis_sep(a: &Cx, b: &Cx, n: V) -> f64 {
    -b.support(-n) - a.support(n)
}
pub fn edge_normals(a: &Cx) -> Vec<V> {
    match a.p.len() {
        1 => vec![],
        2 => {
            let e = (a.p[1] - a.p[0]).norm();
            vec![v(e.y, -e.x), v(-e.y, e.x)]
        }
        _ => a.edges().iter().map(|(p, q)| { let e = (*q - *p).norm(); v(e.y, -e.x) }).collect(),
    }
}
/// signed separation of cores: distance if apart, else minus the penetration depth (min over edge normals)
pub fn core_separation(a: &Cx, b: &Cx) -> f64 {
    let (dist, _, _) = core_distance(a, b);
    if dist > 0.0 {
        return dist;
    }
    let mut best = f64::MIN;
    for n in edge_normals(a) {
        best = best.max(axis_sep(a, b, n));
    }
    for n in edge_normals(b) {
        best = best.max(axis_sep(b, a, n));
    }
    if best == f64::MIN {
        return 0.0;
    }
    best.min(0.0)
}
/// signed separation of the full shapes (cores inflated by their radii)
pub fn separation(a: &Cx, b: &Cx) -> f64 {
    core_separation(a, b) - a.r - b.r
}

/// all children of a library shape as convex sets in local coordinates
pub fn children(s: &dyn B2shapeDynTrait) -> Vec<Cx> {
    let r = s.get_base().m_radius as f64;
    match s.as_derived() {
        ShapeAsDerived::AsCircle(c) => vec![Cx { p: vec![d(c.m_p)], r }],
        ShapeAsDerived::AsEdge(e) => vec![Cx { p: vec![d(e.m_vertex1), d(e.m_vertex2)], r }],
        ShapeAsDerived::AsPolygon(p) => {
            vec![Cx { p: p.m_vertices[..p.m_count].iter().map(|q| d(*q)).collect(), r }]
        }
        ShapeAsDerived::AsChain(c) => chain_edges(c).into_iter().map(|(a, b)| Cx { p: vec![a, b], r }).collect(),
    }
}
pub fn chain_edges(c: &B2chainShape) -> Vec<(V, V)> {
    c.m_vertices.windows(2).map(|w| (d(w[0]), d(w[1]))).collect()
}
/// the front normal of a one-sided child, if it is one-sided
pub fn front_normal(s: &dyn B2shapeDynTrait, child: usize) -> Option<V> {
    match s.as_derived() {
        ShapeAsDerived::AsEdge(e) if e.m_one_sided => {
            let t = (d(e.m_vertex2) - d(e.m_vertex1)).norm();
            Some(v(t.y, -t.x))
        }
        ShapeAsDerived::AsChain(c) => {
            let (a, b) = chain_edges(c)[child];
            let t = (b - a).norm();
            Some(v(t.y, -t.x))
        }
        _ => None,
    }
}
pub fn child_edge(c: &B2chainShape, i: usize) -> B2edgeShape {
    let mut e = B2edgeShape::default();
    c.get_child_edge(&mut e, i);
    e
}
/// (area, centroid, second moment about the origin)
pub fn poly_moments(p: &[V]) -> (f64, V, f64) {
    let n = p.len();
    let (mut a, mut c, mut i) = (0.0, v(0.0, 0.0), 0.0);
    for k in 0..n {
        let (q, r) = (p[k], p[(k + 1) % n]);
        let w = q.cross(r);
        a += w / 2.0;
        c = c + (q + r) * (w / 6.0);
        i += w * (q.dot(q) + q.dot(r) + r.dot(r)) / 12.0;
    }
    (a, c * (1.0 / a), i)
}
pub fn wrap_pi(a: f64) -> f64 {
    let two = 2.0 * std::f64::consts::PI;
    let mut x = a % two;
    if x > std::f64::consts::PI {
        x -= two
    }
    if x < -std::f64::consts::PI {
        x += two
    }
    x
}
