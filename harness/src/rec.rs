//! A debug drawer that writes down what it is asked to draw.
use crate::geo::*;
use box2d_rs::b2_draw::*;
use box2d_rs::b2_math::*;

pub type Rgb = [f32; 4];
#[derive(Clone, Debug, PartialEq)]
pub enum Dr {
    Poly(Vec<B2vec2>, Rgb),
    Solid(Vec<B2vec2>, Rgb),
    Circle(B2vec2, f32, Rgb),
    Disc(B2vec2, f32, B2vec2, Rgb),
    Seg(B2vec2, B2vec2, Rgb),
    Frame(B2vec2, f32, f32),
    Point(B2vec2, f32, Rgb),
}
#[derive(Default)]
pub struct Rec {
    base: B2draw,
    pub calls: Vec<Dr>,
}
fn rgb(c: B2color) -> Rgb {
    [c.r, c.g, c.b, c.a]
}
impl B2drawTrait for Rec {
    fn get_base(&self) -> &B2draw {
        &self.base
    }
    fn get_base_mut(&mut self) -> &mut B2draw {
        &mut self.base
    }
    fn draw_polygon(&mut self, v: &[B2vec2], c: B2color) {
        self.calls.push(Dr::Poly(v.to_vec(), rgb(c)));
    }
    fn draw_solid_polygon(&mut self, v: &[B2vec2], c: B2color) {
        self.calls.push(Dr::Solid(v.to_vec(), rgb(c)));
    }
    fn draw_circle(&mut self, p: B2vec2, r: f32, c: B2color) {
        self.calls.push(Dr::Circle(p, r, rgb(c)));
    }
    fn draw_solid_circle(&mut self, p: B2vec2, r: f32, axis: B2vec2, c: B2color) {
        self.calls.push(Dr::Disc(p, r, axis, rgb(c)));
    }
    fn draw_segment(&mut self, a: B2vec2, b: B2vec2, c: B2color) {
        self.calls.push(Dr::Seg(a, b, rgb(c)));
    }
    fn draw_transform(&mut self, x: B2Transform) {
        self.calls.push(Dr::Frame(x.p, x.q.s, x.q.c));
    }
    fn draw_point(&mut self, p: B2vec2, size: f32, c: B2color) {
        self.calls.push(Dr::Point(p, size, rgb(c)));
    }
}
/// how far a drawn thing is from another of the same kind, colour aside; infinite for another kind
pub fn far(a: &Dr, b: &Dr) -> f64 {
    let m = |p: &B2vec2, q: &B2vec2| (d(*p) - d(*q)).len();
    let l = |p: &Vec<B2vec2>, q: &Vec<B2vec2>| if p.len() != q.len() { f64::INFINITY } else { p.iter().zip(q).map(|(x, y)| m(x, y)).fold(0.0, f64::max) };
    match (a, b) {
        (Dr::Poly(p, _), Dr::Poly(q, _)) => l(p, q),
        (Dr::Solid(p, _), Dr::Solid(q, _)) => l(p, q),
        (Dr::Circle(p, r, _), Dr::Circle(q, s, _)) => m(p, q).max((r - s).abs() as f64),
        (Dr::Disc(p, r, x, _), Dr::Disc(q, s, y, _)) => m(p, q).max((r - s).abs() as f64).max(m(x, y)),
        (Dr::Seg(p, q, _), Dr::Seg(x, y, _)) => m(p, x).max(m(q, y)).min(m(p, y).max(m(q, x))),
        (Dr::Frame(p, s, c), Dr::Frame(q, t, e)) => m(p, q).max((s - t).abs() as f64).max((c - e).abs() as f64),
        (Dr::Point(p, _, _), Dr::Point(q, _, _)) => m(p, q),
        _ => f64::INFINITY,
    }
}
pub fn colour(a: &Dr) -> Option<Rgb> {
    match a {
        Dr::Poly(_, c) | Dr::Solid(_, c) | Dr::Circle(_, _, c) | Dr::Disc(_, _, _, c) | Dr::Seg(_, _, c) | Dr::Point(_, _, c) => Some(*c),
        Dr::Frame(..) => None,
    }
}
