//! Generators of shapes and placements.
use crate::core::Rng;
use crate::geo::*;
use box2d_rs::b2_math::*;
use box2d_rs::b2_shape::*;
use box2d_rs::shapes::b2_chain_shape::*;
use box2d_rs::shapes::b2_circle_shape::*;
use box2d_rs::shapes::b2_edge_shape::*;
use box2d_rs::shapes::b2_polygon_shape::*;
use std::cell::RefCell;
use std::rc::Rc;

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum Kind {
    Circle,
    Poly,
    Edge,
    OneSided,
    Chain,
    Loop,
}
pub const ALL_KINDS: [Kind; 6] = [Kind::Circle, Kind::Poly, Kind::Edge, Kind::OneSided, Kind::Chain, Kind::Loop];

impl Rng {
    pub fn vec(&mut self, r: f32) -> B2vec2 {
        let v = b2v(self.f(-r, r), self.f(-r, r));
        // now and then along an axis
        match self.below(24) { 0 => b2v(v.x, 0.0), 1 => b2v(0.0, v.y), _ => v }
    }
    pub fn dir(&mut self) -> B2vec2 {
        if self.chance(0.08) { return *self.pick(&[b2v(1.0, 0.0), b2v(-1.0, 0.0), b2v(0.0, 1.0), b2v(0.0, -1.0)]); }
        let a = self.f(0.0, 6.2831853);
        b2v(a.cos(), a.sin())
    }
    pub fn xf(&mut self, r: f32) -> B2Transform {
        let p = self.vec(r);
        let a = if self.chance(0.15) {
            // axis-aligned and diagonal placements are the degenerate ones
            *self.pick(&[0.0, 1.5707964, 3.1415927, -1.5707964, 0.7853982])
        } else {
            self.angle()
        };
        xf(p, a)
    }
}

pub fn circle(c: B2vec2, r: f32) -> B2circleShape {
    let mut s = B2circleShape::default();
    s.m_p = c;
    s.base.m_radius = r;
    s
}
pub fn bx(hx: f32, hy: f32) -> B2polygonShape {
    let mut s = B2polygonShape::default();
    if odd(hx) { s.set_as_box_angle(hy, hx, b2v(hx, -hy), 1.0); } // a shape object used before
    s.set_as_box(hx, hy);
    s
}
pub fn bx_at(hx: f32, hy: f32, c: B2vec2, a: f32) -> B2polygonShape {
    let mut s = B2polygonShape::default();
    if odd(hx) { s.set(&[b2v(0.0, 0.0), b2v(1.0, 0.0), b2v(2.0, 1.0), b2v(1.0, 2.0), b2v(0.0, 1.0)]); }
    s.set_as_box_angle(hx, hy, c, a);
    s
}
pub fn edge2(a: B2vec2, b: B2vec2) -> B2edgeShape {
    let mut s = B2edgeShape::default();
    if odd(a.x) { s.set_one_sided(b2v(a.x - 1.0, a.y), b, a, b2v(b.x, b.y + 1.0)); }
    s.set_two_sided(a, b);
    s
}
fn odd(x: f32) -> bool {
    (x.to_bits() >> 9) & 1 == 1
}
pub fn rc<S: B2shapeDynTrait + 'static>(s: S) -> ShapeDefPtr {
    Rc::new(RefCell::new(s))
}

/// a random well-shaped convex polygon (as points in general position on an ellipse), any vertex order
pub fn poly_points(rng: &mut Rng, size: f32) -> Vec<B2vec2> {
    let n = rng.int(3, 8);
    let (rx, ry) = (size * rng.f(0.3, 1.0), size * rng.f(0.3, 1.0));
    let c = if rng.chance(0.4) { rng.vec(size) } else { b2v(0.0, 0.0) };
    let ph = rng.f(0.0, 6.28);
    let tilt = rng.f(0.0, 6.28);
    let mut v: Vec<B2vec2> = (0..n)
        .map(|i| {
            let a = ph + (i as f32 + rng.f(-0.25, 0.25)) * 6.2831853 / n as f32;
            let (x, y) = (rx * a.cos(), ry * a.sin());
            b2v(c.x + x * tilt.cos() - y * tilt.sin(), c.y + x * tilt.sin() + y * tilt.cos())
        })
        .collect();
    for i in (1..v.len()).rev() {
        let j = rng.below(i + 1);
        v.swap(i, j);
    }
    v
}
pub fn poly(rng: &mut Rng, size: f32) -> B2polygonShape {
    let mut s = B2polygonShape::default();
    match rng.below(4) {
        0 => s.set_as_box(size * rng.f(0.2, 1.0), size * rng.f(0.2, 1.0)),
        1 => {
            let c = rng.vec(size);
            s.set_as_box_angle(size * rng.f(0.2, 1.0), size * rng.f(0.2, 1.0), c, rng.angle())
        }
        _ => {
            let p = poly_points(rng, size);
            s.set(&p)
        }
    }
    s
}
pub fn chain_points(rng: &mut Rng, size: f32) -> Vec<B2vec2> {
    let n = rng.int(2, 7);
    let mut p = rng.vec(size);
    let mut a = rng.angle();
    let mut v = vec![p];
    for _ in 1..n {
        a += rng.f(-1.0, 1.0);
        let l = size * rng.f(0.3, 1.2);
        p = b2v(p.x + l * a.cos(), p.y + l * a.sin());
        v.push(p);
    }
    v
}
pub fn loop_points(rng: &mut Rng, size: f32) -> Vec<B2vec2> {
    let n = rng.int(3, 8);
    let sgn = rng.sign();
    let c = rng.vec(size * 0.5);
    (0..n)
        .map(|i| {
            let a = sgn * (i as f32 + rng.f(-0.2, 0.2)) * 6.2831853 / n as f32;
            let r = size * rng.f(0.6, 1.3);
            b2v(c.x + r * a.cos(), c.y + r * a.sin())
        })
        .collect()
}
pub fn shape(rng: &mut Rng, k: Kind, size: f32) -> ShapeDefPtr {
    match k {
        Kind::Circle => {
            let c = if rng.chance(0.5) { b2v(0.0, 0.0) } else { rng.vec(size) };
            rc(circle(c, size * rng.f(0.2, 1.0)))
        }
        Kind::Poly => rc(poly(rng, size)),
        Kind::Edge => {
            let a = rng.vec(size);
            let u = rng.dir();
            let l = size * rng.f(0.3, 2.0);
            rc(edge2(a, b2v(a.x + l * u.x, a.y + l * u.y)))
        }
        Kind::OneSided => {
            let mut p = chain_points(rng, size);
            while p.len() < 4 {
                p = chain_points(rng, size);
            }
            let mut e = B2edgeShape::default();
            if odd(p[0].x) { e.set_two_sided(p[3], p[0]); }
            e.set_one_sided(p[0], p[1], p[2], p[3]);
            rc(e)
        }
        Kind::Chain => {
            let mut p = chain_points(rng, size);
            while p.len() < 4 {
                p = chain_points(rng, size);
            }
            let n = p.len();
            let mut c = B2chainShape::default();
            c.create_chain(&p[1..n - 1], p[0], p[n - 1]);
            rc(c)
        }
        Kind::Loop => {
            let p = loop_points(rng, size);
            let mut c = B2chainShape::default();
            c.create_loop(&p);
            rc(c)
        }
    }
}
pub fn kind(rng: &mut Rng) -> Kind {
    *rng.pick(&[Kind::Circle, Kind::Circle, Kind::Poly, Kind::Poly, Kind::Poly, Kind::Edge, Kind::OneSided, Kind::Chain, Kind::Loop])
}
pub fn solid_kind(rng: &mut Rng) -> Kind {
    *rng.pick(&[Kind::Circle, Kind::Poly, Kind::Poly])
}

/// points, shapes and transforms with whole coordinates
pub fn grid_point(rng: &mut Rng, r: i32) -> B2vec2 {
    b2v(rng.int(-r, r) as f32, rng.int(-r, r) as f32)
}
pub fn grid_xf(rng: &mut Rng) -> B2Transform {
    let (s, c) = *rng.pick(&[(0.0f32, 1.0f32), (1.0, 0.0), (0.0, -1.0), (-1.0, 0.0)]);
    let mut t = B2Transform::default();
    t.p = grid_point(rng, 3);
    t.q.s = s;
    t.q.c = c;
    t
}
pub fn grid_shape(rng: &mut Rng, k: Kind) -> ShapeDefPtr {
    match k {
        Kind::Circle => { let c = grid_point(rng, 1); rc(circle(c, rng.int(1, 3) as f32)) }
        Kind::Poly => {
            let mut s = B2polygonShape::default();
            match rng.below(3) {
                0 => s.set_as_box(rng.int(1, 3) as f32, rng.int(1, 3) as f32),
                1 => s.set(&[b2v(0.0, 0.0), b2v(rng.int(1, 3) as f32, 0.0), b2v(0.0, rng.int(1, 3) as f32)]),
                // an octagon
                _ => s.set(&[b2v(1.0, 2.0), b2v(-1.0, 2.0), b2v(-2.0, 1.0), b2v(-2.0, -1.0), b2v(-1.0, -2.0), b2v(1.0, -2.0), b2v(2.0, -1.0), b2v(2.0, 1.0)]),
            }
            rc(s)
        }
        Kind::Edge => { let a = grid_point(rng, 2); let mut b = a; while b == a { b = match rng.below(3) { 0 => b2v(a.x, rng.int(-2, 2) as f32), 1 => b2v(rng.int(-2, 2) as f32, a.y), _ => grid_point(rng, 2) }; } rc(edge2(a, b)) }
        Kind::OneSided => { let mut e = B2edgeShape::default(); let y = rng.int(-1, 1) as f32; e.set_one_sided(b2v(-3.0, y), b2v(-1.0, y), b2v(1.0, y), b2v(3.0, y + rng.int(-1, 1) as f32)); rc(e) }
        Kind::Chain => { let mut c = B2chainShape::default(); c.create_chain(&[b2v(2.0, 0.0), b2v(0.0, 0.0), b2v(-2.0, 0.0), b2v(-2.0, 2.0)], b2v(3.0, 1.0), b2v(-1.0, 3.0)); rc(c) }
        Kind::Loop => { let mut c = B2chainShape::default(); let mut p = vec![b2v(2.0, 2.0), b2v(-2.0, 2.0), b2v(-2.0, -2.0), b2v(0.0, -2.0), b2v(2.0, -2.0)]; if rng.chance(0.5) { p.reverse(); } c.create_loop(&p); rc(c) }
    }
}
