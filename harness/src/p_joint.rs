//! C30 rigid joints, C31 limits, C32 motors and caps, C33 springs, C34 reactions, C35 gears and pulleys
//!
//! The one-step law: the impulse a joint gave in a step is recovered from the change of the bodies' momentum and judged
//! against what the joint is for, given the relative velocity at the end of the step. Along each free direction the
//! allowed impulse is a decreasing graph of the relative speed (spring + motor + limits), so no solution is prescribed.
use crate::core::*;
use crate::gen::*;
use crate::geo::*;
use crate::p_dyn::{st, St};
use crate::sim::*;
use box2d_rs::joints::*;

const Z: V = V { x: 0.0, y: 0.0 };
fn rot(a: f64, q: V) -> V {
    Xf::new(Z, a).rot(q)
}
fn cr(w: f64, r: V) -> V {
    V { x: -w * r.y, y: w * r.x }
}

/// what the harness knows of a joint
#[derive(Clone, Debug)]
pub struct Spec {
    pub kind: JK,
    pub la: V,
    pub lb: V,
    pub ax: V,
    pub rf: f64,
    pub len: f64,
    pub min: f64,
    pub max: f64,
    pub k: f64,
    pub dm: f64,
    pub lim: bool,
    pub lo: f64,
    pub hi: f64,
    pub motor: bool,
    pub speed: f64,
    pub cap: f64,
    pub target: V,
    pub max_f: f64,
    pub max_t: f64,
    pub off: V,
    pub aoff: f64,
    pub corr: f64,
    pub ga: V,
    pub gb: V,
    pub ratio: f64,
    pub total: f64,
}
/// which features a case uses
#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Focus { Rigid, Limit, Motor, Spring, Reaction }

pub struct Pair {
    pub sim: Sim,
    pub a: usize,
    pub b: usize,
    pub j: usize,
    pub s: Spec,
}

pub fn solid(ctx: &mut Ctx, sim: &mut Sim, t: B2bodyType, p: V, a: f64) -> usize {
    let mut def = Sim::def(t, b2(p), a as f32);
    if t == DYNAMIC {
        if ctx.rng.chance(0.2) { def.linear_damping = ctx.rng.log(0.05, 5.0); }
        if ctx.rng.chance(0.2) { def.angular_damping = ctx.rng.log(0.05, 5.0); }
        if ctx.rng.chance(0.2) { def.gravity_scale = ctx.rng.f(-1.0, 2.0); }
        def.fixed_rotation = ctx.rng.chance(0.1);
    }
    let i = sim.add(def);
    let mut fx = Fx::default();
    fx.filter.group_index = -1;
    fx.density = ctx.rng.log(0.3, 3.0);
    let off = if ctx.rng.chance(0.4) { ctx.rng.vec(0.6) } else { b2v(0.0, 0.0) };
    if ctx.rng.chance(0.5) {
        let (x, y, r) = (ctx.rng.f(0.3, 0.9), ctx.rng.f(0.3, 0.9), ctx.rng.angle());
        sim.fixture(i, &rc(bx_at(x, y, off, r)), Kind::Poly, &fx);
    } else {
        let r = ctx.rng.f(0.3, 0.8);
        sim.fixture(i, &rc(circle(off, r)), Kind::Circle, &fx);
    }
    i
}

fn f32d(x: f64) -> f64 {
    x as f32 as f64
}
fn v32(q: V) -> V {
    V { x: f32d(q.x), y: f32d(q.y) }
}

/// the joint's geometry in a state of the two bodies
pub struct Geo {
    pub ra: V,
    pub rb: V,
    pub dd: V,
    /// world axis (unit)
    pub ax: V,
    pub t: f64,
    pub angle: f64,
}
pub fn geo_of(s: &Spec, a: &St, b: &St) -> Geo {
    let ra = rot(a.a, s.la - a.lc);
    let rb = rot(b.a, s.lb - b.lc);
    let dd = b.c + rb - a.c - ra;
    let ax = match s.kind { JK::Distance => dd.norm(), _ => rot(a.a, s.ax) };
    let t = match s.kind { JK::Distance => dd.len(), _ => ax.dot(dd) };
    Geo { ra, rb, dd, ax, t, angle: b.a - a.a - s.rf }
}

fn new_pair(ctx: &mut Ctx, kind: JK, focus: Focus) -> Pair {
    let g = if ctx.rng.chance(0.3) { b2v(0.0, 0.0) } else { ctx.rng.vec(15.0) };
    let mut sim = Sim::new(g);
    sim.w.borrow_mut().set_allow_sleeping(false);
    let pa = d(ctx.rng.vec(5.0));
    let aa = ctx.rng.angle() as f64;
    let (mut ta, mut tb) = (*ctx.rng.pick(&[STATIC, STATIC, KINEMATIC, DYNAMIC, DYNAMIC, DYNAMIC]), DYNAMIC);
    if kind != JK::Mouse && ctx.rng.chance(0.12) { ta = DYNAMIC; tb = *ctx.rng.pick(&[STATIC, KINEMATIC]); }
    let r = &mut ctx.rng;
    let mut s = Spec { kind, la: v32(d(r.vec(0.9))), lb: v32(d(r.vec(0.9))), ax: v32(d(r.dir())), rf: f32d(r.f(-2.0, 2.0) as f64), len: 0.0, min: 0.0, max: 0.0, k: 0.0, dm: 0.0, lim: false, lo: 0.0, hi: 0.0, motor: false, speed: 0.0, cap: 0.0, target: Z, max_f: 0.0, max_t: 0.0, off: Z, aoff: 0.0, corr: 0.0, ga: Z, gb: Z, ratio: 1.0, total: 0.0 };
    // where the second body starts: joint coordinates, then a small violation
    let (phi, t) = (r.f(-1.5, 1.5) as f64, r.f(-1.5, 1.5) as f64);
    let viol = if r.chance(0.5) { 0.0 } else { r.log(0.001, 0.1) };
    let (ep, ea) = (d(r.vec(viol)), (r.f(-1.0, 1.0) * viol) as f64);
    let spring_k = r.log(1.0, 500.0) as f64;
    let spring_d = if r.chance(0.2) { 0.0 } else { r.log(0.05, 20.0) as f64 };
    match kind {
        JK::Revolute | JK::Prismatic | JK::Wheel => {
            s.lim = match focus { Focus::Rigid => false, Focus::Limit => r.chance(0.9), Focus::Motor => r.chance(0.2), Focus::Spring => r.chance(0.2), Focus::Reaction => r.chance(0.5) };
            let (x, y) = (r.f(-1.6, 1.6) as f64, r.f(-1.6, 1.6) as f64);
            s.lo = f32d(x.min(y));
            s.hi = if r.chance(0.1) { s.lo } else { f32d(x.max(y)) };
            s.motor = match focus { Focus::Rigid => r.chance(0.2), Focus::Limit => r.chance(0.3), Focus::Motor => r.chance(0.9), Focus::Spring => r.chance(0.2), Focus::Reaction => r.chance(0.5) };
            s.speed = f32d(r.f(-6.0, 6.0) as f64);
            s.cap = f32d(r.log(0.1, 300.0) as f64);
            let spring = kind == JK::Wheel && match focus { Focus::Rigid | Focus::Limit | Focus::Motor => r.chance(0.3), _ => true };
            if spring { s.k = f32d(spring_k); s.dm = f32d(spring_d); }
            if kind == JK::Wheel { s.rf = 0.0; }
        }
        JK::Weld => if focus == Focus::Spring || (focus == Focus::Reaction && r.chance(0.5)) || (focus == Focus::Rigid && r.chance(0.3)) { s.k = f32d(spring_k); s.dm = f32d(spring_d); },
        JK::Distance => {
            s.len = f32d(r.f(0.5, 3.0) as f64);
            match focus {
                Focus::Rigid => { s.min = s.len; s.max = s.len; if r.chance(0.3) { s.k = f32d(spring_k); s.dm = f32d(spring_d); } }
                Focus::Limit => { s.min = f32d(s.len * r.f(0.4, 1.0) as f64); s.max = f32d(s.len * r.f(1.0, 1.6) as f64); if r.chance(0.3) { s.k = f32d(spring_k); s.dm = f32d(spring_d); } }
                _ => { s.min = 0.005f32 as f64; s.max = 1e6; s.k = f32d(spring_k); s.dm = f32d(spring_d); if r.chance(0.3) { s.min = f32d(s.len * 0.7); s.max = f32d(s.len * 1.3); } }
            }
        }
        JK::Friction | JK::Motor => { s.max_f = f32d(r.log(0.1, 500.0) as f64); s.max_t = f32d(r.log(0.1, 500.0) as f64); s.corr = f32d(r.f(0.0, 1.0) as f64); s.off = v32(d(r.vec(1.0))); s.aoff = f32d(r.f(-1.0, 1.0) as f64); }
        JK::Mouse => { s.k = f32d(spring_k); s.dm = f32d(spring_d); s.max_f = f32d(r.log(1.0, 2000.0) as f64); }
        _ => {}
    }
    if kind == JK::Motor { s.la = s.off; s.lb = Z; s.rf = s.aoff; }
    // pose of the second body
    let ab = aa + s.rf + if kind == JK::Weld || kind == JK::Prismatic { ea } else { phi };
    let dd = match kind { JK::Distance => { let l = if focus == Focus::Rigid { s.len + ep.x } else { s.len * r.f(0.5, 1.5) as f64 }; rot(phi * 2.0, V { x: l, y: 0.0 }) } JK::Prismatic | JK::Wheel => rot(aa, s.ax) * t + ep, JK::Friction | JK::Motor => d(r.vec(0.5)), _ => ep };
    let pb = pa + rot(aa, s.la) + dd - rot(ab, s.lb);
    let a = solid(ctx, &mut sim, ta, pa, aa);
    let b = solid(ctx, &mut sim, tb, pb, ab);
    let j = make(&mut sim, a, b, &mut s);
    if kind == JK::Mouse { let t = d(ctx.rng.vec(1.0)); s.target = v32(s.target + t); if let JointAsDerivedMut::EMouseJoint(q) = sim.joints[j].p.borrow_mut().as_derived_mut() { q.set_target(b2(s.target)); } }
    Pair { sim, a, b, j, s }
}

/// creates the joint described by the specification
pub fn make(sim: &mut Sim, a: usize, b: usize, s: &mut Spec) -> usize {
    use box2d_rs::b2_joint::B2jointType::*;
    match s.kind {
        JK::Revolute => { let f = B2revoluteJointDef { base: sim.jbase(ERevoluteJoint, a, b, false), local_anchor_a: b2(s.la), local_anchor_b: b2(s.lb), reference_angle: s.rf as f32, enable_limit: s.lim, lower_angle: s.lo as f32, upper_angle: s.hi as f32, enable_motor: s.motor, motor_speed: s.speed as f32, max_motor_torque: s.cap as f32 }; sim.joint(B2JointDefEnum::RevoluteJoint(f), s.kind, a, b, false) }
        JK::Prismatic => { let f = B2prismaticJointDef { base: sim.jbase(EPrismaticJoint, a, b, false), local_anchor_a: b2(s.la), local_anchor_b: b2(s.lb), local_axis_a: b2(s.ax), reference_angle: s.rf as f32, enable_limit: s.lim, lower_translation: s.lo as f32, upper_translation: s.hi as f32, enable_motor: s.motor, motor_speed: s.speed as f32, max_motor_force: s.cap as f32 }; sim.joint(B2JointDefEnum::PrismaticJoint(f), s.kind, a, b, false) }
        JK::Wheel => { let f = B2wheelJointDef { base: sim.jbase(EWheelJoint, a, b, false), local_anchor_a: b2(s.la), local_anchor_b: b2(s.lb), local_axis_a: b2(s.ax), enable_limit: s.lim, lower_translation: s.lo as f32, upper_translation: s.hi as f32, enable_motor: s.motor, motor_speed: s.speed as f32, max_motor_torque: s.cap as f32, stiffness: s.k as f32, damping: s.dm as f32 }; sim.joint(B2JointDefEnum::WheelJoint(f), s.kind, a, b, false) }
        JK::Weld => { let f = B2weldJointDef { base: sim.jbase(EWeldJoint, a, b, false), local_anchor_a: b2(s.la), local_anchor_b: b2(s.lb), reference_angle: s.rf as f32, stiffness: s.k as f32, damping: s.dm as f32 }; sim.joint(B2JointDefEnum::WeldJoint(f), s.kind, a, b, false) }
        JK::Distance => { let f = B2distanceJointDef { base: sim.jbase(EDistanceJoint, a, b, false), local_anchor_a: b2(s.la), local_anchor_b: b2(s.lb), length: s.len as f32, min_length: s.min as f32, max_length: s.max as f32, stiffness: s.k as f32, damping: s.dm as f32 }; sim.joint(B2JointDefEnum::DistanceJoint(f), s.kind, a, b, false) }
        JK::Friction => { let f = B2frictionJointDef { base: sim.jbase(EFrictionJoint, a, b, false), local_anchor_a: b2(s.la), local_anchor_b: b2(s.lb), max_force: s.max_f as f32, max_torque: s.max_t as f32 }; sim.joint(B2JointDefEnum::FrictionJoint(f), s.kind, a, b, false) }
        JK::Motor => { let f = B2motorJointDef { base: sim.jbase(EMotorJoint, a, b, false), linear_offset: b2(s.off), angular_offset: s.aoff as f32, max_force: s.max_f as f32, max_torque: s.max_t as f32, correction_factor: s.corr as f32 }; sim.joint(B2JointDefEnum::MotorJoint(f), s.kind, a, b, false) }
        JK::Mouse => {
            // grabbed where the target is when created
            let t = sim.b(b).borrow().get_world_point(b2(s.lb));
            s.target = d(t);
            let f = B2mouseJointDef { base: sim.jbase(EMouseJoint, a, b, false), target: t, max_force: s.max_f as f32, stiffness: s.k as f32, damping: s.dm as f32 };
            sim.joint(B2JointDefEnum::MouseJoint(f), s.kind, a, b, false)
        }
        JK::Pulley => {
            let f = B2pulleyJointDef { base: sim.jbase(EPulleyJoint, a, b, true), ground_anchor_a: b2(s.ga), ground_anchor_b: b2(s.gb), local_anchor_a: b2(s.la), local_anchor_b: b2(s.lb), length_a: s.len as f32, length_b: s.min as f32, ratio: s.ratio as f32 };
            sim.joint(B2JointDefEnum::PulleyJoint(f), s.kind, a, b, true)
        }
        JK::Gear => unreachable!(),
    }
}

/// changes one parameter through the setters
fn change(ctx: &mut Ctx, p: &mut Pair) {
    let jp = p.sim.joints[p.j].p.clone();
    let mut jb = jp.borrow_mut();
    let r = &mut ctx.rng;
    let s = &mut p.s;
    let w = r.below(4);
    let (x, y) = (r.f(-1.6, 1.6), r.f(-1.6, 1.6));
    let (lo, hi) = (x.min(y), x.max(y));
    let (sp, cap) = (r.f(-6.0, 6.0), r.log(0.1, 300.0));
    // springs are also switched off and on
    let (k, dm) = (if r.chance(0.3) { 0.0 } else { r.log(1.0, 500.0) }, r.log(0.05, 20.0));
    let off = k == 0.0 && s.k > 0.0;
    match jb.as_derived_mut() {
        JointAsDerivedMut::ERevoluteJoint(q) => match w {
            0 => { q.set_limits(lo, hi); s.lo = lo as f64; s.hi = hi as f64; }
            1 => { let f = !s.lim; q.enable_limit(f); s.lim = f; }
            2 => { let f = !s.motor; q.enable_motor(f); s.motor = f; }
            _ => { q.set_motor_speed(sp); q.set_max_motor_torque(cap); s.speed = sp as f64; s.cap = cap as f64; }
        },
        JointAsDerivedMut::EPrismaticJoint(q) => match w {
            0 => { q.set_limits(lo, hi); s.lo = lo as f64; s.hi = hi as f64; }
            1 => { let f = !s.lim; q.enable_limit(f); s.lim = f; }
            2 => { let f = !s.motor; q.enable_motor(f); s.motor = f; }
            _ => { q.set_motor_speed(sp); q.set_max_motor_force(cap); s.speed = sp as f64; s.cap = cap as f64; }
        },
        JointAsDerivedMut::EWheelJoint(q) => match w {
            0 => { q.set_limits(lo, hi); s.lo = lo as f64; s.hi = hi as f64; }
            1 => { let f = !s.lim; q.enable_limit(f); s.lim = f; }
            2 => { let f = !s.motor; q.enable_motor(f); s.motor = f; if r.chance(0.7) { q.set_stiffness(k); q.set_damping(dm); s.k = k as f64; s.dm = dm as f64; } }
            _ => { q.set_motor_speed(sp); q.set_max_motor_torque(cap); s.speed = sp as f64; s.cap = cap as f64; }
        },
        JointAsDerivedMut::EWeldJoint(q) => { q.set_stiffness(k); q.set_damping(dm); s.k = k as f64; s.dm = dm as f64; },
        JointAsDerivedMut::EDistanceJoint(q) => {
            match w {
                0 => { q.set_stiffness(k); q.set_damping(dm); s.k = k as f64; s.dm = dm as f64; }
                1 => { let l = r.f(0.5, 3.0); q.set_length(l); s.len = l as f64; }
                2 => { let l = r.f(0.3, 3.5); let l2 = l + r.f(0.05, 2.0); if (l as f64) < s.max { q.set_min_length(l); q.set_max_length(l2); } else { q.set_max_length(l2); q.set_min_length(l); } s.min = l as f64; s.max = l2 as f64; }
                // a rod of the present length
                _ => { let l = q.get_current_length().max(0.05); q.set_min_length(0.01); q.set_max_length(l); q.set_min_length(l); s.min = l as f64; s.max = l as f64; }
            }
        },
        JointAsDerivedMut::EFrictionJoint(q) => { let (f, t) = (r.log(0.1, 500.0), r.log(0.1, 500.0)); q.set_max_force(f); q.set_max_torque(t); s.max_f = f as f64; s.max_t = t as f64; }
        JointAsDerivedMut::EMotorJoint(q) => match w {
            0 => { let o = r.vec(1.0); q.set_linear_offset(o); s.off = d(o); s.la = d(o); }
            1 => { let o = r.f(-1.0, 1.0); q.set_angular_offset(o); s.aoff = o as f64; s.rf = o as f64; }
            2 => { let c = r.f(0.0, 1.0); q.set_correction_factor(c); s.corr = c as f64; }
            _ => { let (f, t) = (r.log(0.1, 500.0), r.log(0.1, 500.0)); q.set_max_force(f); q.set_max_torque(t); s.max_f = f as f64; s.max_t = t as f64; }
        },
        JointAsDerivedMut::EMouseJoint(q) => match w {
            0 => { let t = b2(s.target) + r.vec(1.0); q.set_target(t); s.target = d(t); }
            1 => { q.set_stiffness(k); q.set_damping(dm); s.k = k as f64; s.dm = dm as f64; }
            _ => { let f = r.log(1.0, 2000.0); q.set_max_force(f); s.max_f = f as f64; }
        },
        _ => {}
    }
    if off && p.s.k == 0.0 { ctx.hit("spring_off"); }
}

/// allowed impulses at relative speed s: a decreasing graph, as (least, greatest)
struct Graph { h: f64, spring: Option<(f64, f64, f64)>, motor: Option<(f64, f64)>, lower: Option<f64>, upper: Option<f64> }
impl Graph {
    fn at(&self, s: f64) -> (f64, f64) {
        let (mut lo, mut hi) = (0.0f64, 0.0f64);
        if let Some((k, dm, c)) = self.spring { let x = -self.h * k * c - self.h * (dm + self.h * k) * s; lo += x; hi += x; }
        if let Some((sp, m)) = self.motor {
            if s < sp { lo += m; hi += m; } else if s > sp { lo -= m; hi -= m; } else { lo -= m; hi += m; }
        }
        if let Some(c) = self.lower { let e = -c.max(0.0) / self.h; if s < e { lo = f64::INFINITY; hi = f64::INFINITY; } else if s == e { hi = f64::INFINITY; } }
        if let Some(c) = self.upper { let e = c.max(0.0) / self.h; if s > e { lo = f64::NEG_INFINITY; hi = f64::NEG_INFINITY; } else if s == e { lo = f64::NEG_INFINITY; } }
        (lo, hi)
    }
}

/// state and load of a body before a step: velocity it would have without the joint
pub fn free_vel(s: &St, b: &BodyPtr<UD>, g: V, f: V, tq: f64, h: f64) -> (V, f64) {
    let q = b.borrow();
    if q.get_type() != DYNAMIC { return (s.v, s.w); }
    let gs = q.get_gravity_scale() as f64;
    let v = (s.v + g * (gs * h) + f * (h / s.m)) * (1.0 / (1.0 + h * q.get_linear_damping() as f64));
    let w = (s.w + if s.i > 0.0 { tq * h / s.i } else { 0.0 }) * (1.0 / (1.0 + h * q.get_angular_damping() as f64));
    (v, w)
}

fn law(ctx: &mut Ctx, kinds: &[JK], focus: Focus) {
    let kind = *ctx.rng.pick(kinds);
    let mut p = new_pair(ctx, kind, focus);
    let warm = ctx.rng.chance(0.8);
    p.sim.w.borrow_mut().set_warm_starting(warm);
    p.sim.vi = 1500;
    p.sim.pi = 20;
    let mut hs: Vec<f32> = vec![];
    let steps = ctx.rng.int(2, 8);
    for n in 0..steps {
        if n > 0 && focus != Focus::Rigid && ctx.rng.chance(0.3) { change(ctx, &mut p); ctx.hit("changed"); }
        p.sim.dt = *ctx.rng.pick(&[1.0f32 / 60.0, 1.0 / 60.0, 1.0 / 30.0, 1.0 / 120.0]);
        let h = p.sim.dt as f64;
        let (pa, pb) = (p.sim.b(p.a), p.sim.b(p.b));
        let mut load = [(Z, 0.0f64), (Z, 0.0f64)];
        for (k, q) in [&pa, &pb].iter().enumerate() {
            let t = q.borrow().get_type();
            if (n == 0 || ctx.rng.chance(0.2)) && t != STATIC && ctx.rng.chance(0.7) {
                let (v, w) = (ctx.rng.vec(6.0), ctx.rng.f(-4.0, 4.0));
                q.borrow_mut().set_linear_velocity(v);
                if !q.borrow().is_fixed_rotation() { q.borrow_mut().set_angular_velocity(w); }
            }
            if t == DYNAMIC && ctx.rng.chance(0.3) {
                let s = st(q);
                let (f, at) = (ctx.rng.vec(40.0), s.c + d(ctx.rng.vec(0.5)));
                let at = b2(at);
                q.borrow_mut().apply_force(f, at, true);
                load[k] = (d(f), (d(at) - s.c).cross(d(f)));
            }
        }
        let (a0, b0) = (st(&pa), st(&pb));
        let g = d(p.sim.w.borrow().get_gravity());
        let (va, wa) = free_vel(&a0, &pa, g, load[0].0, load[0].1, h);
        let (vb, mut wb) = free_vel(&b0, &pb, g, load[1].0, load[1].1, h);
        if kind == JK::Mouse && b0.i > 0.0 { wb *= 0.98; }
        let q = geo_of(&p.s, &a0, &b0);
        // too close to a distance joint's singular point, or far from where the joint belongs
        if kind == JK::Distance && q.t < 0.05 { ctx.hit("singular"); return; }
        p.sim.step();
        ctx.evals += 1;
        let (a1, b1) = (st(&pa), st(&pb));
        let top = [va.len(), vb.len(), wa.abs(), wb.abs(), a1.v.len(), b1.v.len(), a1.w.abs(), b1.w.abs()].iter().cloned().fold(1.0, f64::max);
        if !(a1.v.finite() && b1.v.finite() && a1.w.is_finite() && b1.w.is_finite()) { ctx.fail(format!("not finite after a step with {:?}", p.s)); return; }
        // speed limits cut in, or rounding would blur the law
        if top > 30.0 || (a1.w.abs().max(b1.w.abs()) * h > 1.5) || (a1.v.len().max(b1.v.len()) * h > 1.9) { ctx.hit("too_fast"); return; }
        // the impulse given to B (and taken from A), at B's anchor
        let arm_a = match kind { JK::Prismatic | JK::Wheel | JK::Distance => q.ra + q.dd, _ => q.ra };
        let tv = 4e-4 * top;
        let (ma, mb) = (a0.m, b0.m);
        let dyn_a = ma > 0.0 && pa.borrow().get_type() == DYNAMIC;
        let dyn_b = mb > 0.0 && pb.borrow().get_type() == DYNAMIC;
        let imp = if dyn_b { (b1.v - vb) * mb } else { (a1.v - va) * -ma };
        let m0 = match (dyn_a, dyn_b) { (true, true) => ma.min(mb), (true, false) => ma, _ => mb };
        let tp = tv * m0 + 1e-5 * imp.len();
        let (ia, ib) = (if dyn_a { a0.i } else { 0.0 }, if dyn_b { b0.i } else { 0.0 });
        let i0 = match (ia > 0.0, ib > 0.0) { (true, true) => ia.min(ib), (true, false) => ia, _ => ib };
        let l = if ib > 0.0 { Some(ib * (b1.w - wb) - q.rb.cross(imp)) } else if ia > 0.0 && kind != JK::Mouse { Some(-ia * (a1.w - wa) - arm_a.cross(imp)) } else { None };
        let tl = tv * i0 + 2.0 * tp * (1.0 + q.rb.len() + arm_a.len()) + 1e-5 * imp.len();
        let show = |x: &str| format!("{} [{:?} h {} A {:?}->{:?} B {:?}->{:?} impulse {:?} turn {:?} load {:?}]", x, p.s, h, a0, a1, b0, b1, imp, l, load);
        if kind == JK::Mouse {
            ctx.check((a1.v - va).len() <= tv && (a1.w - wa).abs() <= tv, || show("the mouse joint pushed its first body"));
        } else if dyn_a && dyn_b {
            ctx.check(((a1.v - va) * ma + imp).len() <= 4.0 * tp + (1e-4 * tv + 5e-5 * (1.0 + a1.v.len().max(va.len()))) * ma, || show("the joint's pushes on its two bodies are not opposite"));
            if let (Some(l), true, true) = (l, ia > 0.0, ib > 0.0) { ctx.check((ia * (a1.w - wa) + arm_a.cross(imp) + l).abs() <= 4.0 * tl, || show("the joint's turning of its two bodies is not opposite")); }
            ctx.hit("both_dynamic");
        }
        let wr = b1.w - a1.w;
        let vr = b1.v + cr(b1.w, q.rb) - a1.v - cr(a1.w, arm_a);
        let turns = ia > 0.0 || ib > 0.0;
        let perp = q.ax.perp();
        // relative speeds are exact where nothing but rounding stands in the way
        let ts = 2e-3 * top;
        let graph = |ax: bool| -> Graph {
            let s = &p.s;
            let mut gr = Graph { h, spring: None, motor: None, lower: None, upper: None };
            match (s.kind, ax) {
                (JK::Revolute, false) => { if s.motor { gr.motor = Some((s.speed, h * s.cap)); } if s.lim { gr.lower = Some(q.angle - s.lo); gr.upper = Some(s.hi - q.angle); } }
                (JK::Prismatic, true) => { if s.motor { gr.motor = Some((s.speed, h * s.cap)); } if s.lim { gr.lower = Some(q.t - s.lo); gr.upper = Some(s.hi - q.t); } }
                (JK::Wheel, true) => { if s.k > 0.0 { gr.spring = Some((s.k, s.dm, q.t)); } if s.lim { gr.lower = Some(q.t - s.lo); gr.upper = Some(s.hi - q.t); } }
                (JK::Wheel, false) => if s.motor { gr.motor = Some((s.speed, h * s.cap)); },
                (JK::Weld, false) => if s.k > 0.0 { gr.spring = Some((s.k, s.dm, q.angle)); },
                (JK::Distance, true) => { if s.k > 0.0 { gr.spring = Some((s.k, s.dm, q.t - s.len)); } gr.lower = Some(q.t - s.min); gr.upper = Some(s.max - q.t); }
                (JK::Friction, false) => gr.motor = Some((0.0, h * s.max_t)),
                (JK::Motor, false) => gr.motor = Some((-s.corr * q.angle / h, h * s.max_t)),
                _ => {}
            }
            gr
        };
        let mut judge = |ctx: &mut Ctx, what: &str, gr: &Graph, s: f64, x: f64, ex: f64| {
            // speeds asked for can themselves be large (an offset to be made good in one step)
            let ds = ts + 1e-5 * gr.motor.map_or(0.0, |m| m.0.abs()) + gr.lower.map_or(0.0, |c| 3e-6 * (1.0 + c.abs()) / h) + gr.upper.map_or(0.0, |c| if c < 100.0 { 3e-6 * (1.0 + c.abs()) / h } else { 0.0 });
            // a motor that aims almost exactly where a limit stops it trades impulse with the limit for very long
            if let Some((m, _)) = gr.motor { if [gr.lower.map(|c| -c.max(0.0) / h), gr.upper.map(|c| c.max(0.0) / h)].iter().flatten().any(|c| (c - m).abs() < 0.4) { ctx.hit("motor_near_limit"); return; } }
            let (mut lo, mut hi) = (gr.at(s + ds).0, gr.at(s - ds).1);
            // limits that nearly coincide share the load between them in no particular way until settled
            if let (Some(a), Some(b)) = (gr.lower, gr.upper) { if a + b < 0.1 { if lo.is_finite() { lo = f64::NEG_INFINITY } if hi.is_finite() { hi = f64::INFINITY } if hi == f64::INFINITY && lo == f64::NEG_INFINITY { ctx.hit("tight_limits"); } } }
            // what a spring's impulse cannot resolve below the rounding of its own terms
            let es = ex + gr.spring.map_or(0.0, |(k, dm, c)| h * (dm + h * k) * 1e-6 * top + h * k * 3e-6 * (1.0 + c.abs()));
            ctx.check(x >= lo - es && x <= hi + es, || show(&format!("{}: impulse {} at relative speed {} is outside [{}, {}] (within {})", what, x, s, lo, hi, es)));
            if gr.motor.is_some() { let m = gr.motor.unwrap(); ctx.hit(if (s - m.0).abs() <= ds { "motor_at_speed" } else { "motor_at_cap" }); }
            if let Some(c) = gr.lower { if (s + c.max(0.0) / h).abs() <= ds && x > 4.0 * es { ctx.hit("at_lower"); } else if c > 0.0 { ctx.hit("inside_limits"); } }
            if let Some(c) = gr.upper { if (s - c.max(0.0) / h).abs() <= ds && x < -4.0 * es { ctx.hit("at_upper"); } }
            if gr.spring.is_some() { ctx.hit("spring_pull"); }
        };
        match kind {
            JK::Revolute | JK::Weld => {
                ctx.check(vr.len() <= ts, || show(&format!("the anchors still move apart at {:?}", vr)));
                if kind == JK::Weld && p.s.k == 0.0 { if turns { ctx.check(wr.abs() <= ts, || show(&format!("welded bodies turn against each other at {}", wr))); } }
                else if let Some(l) = l { judge(ctx, "turning", &graph(false), wr, l, tl); }
            }
            JK::Prismatic => {
                let sp = perp.dot(vr);
                ctx.check(sp.abs() <= ts, || show(&format!("still moves off the axis at {}", sp)));
                if turns { ctx.check(wr.abs() <= ts, || show(&format!("still turns at {}", wr))); }
                judge(ctx, "along the axis", &graph(true), q.ax.dot(vr), q.ax.dot(imp), tp);
            }
            JK::Wheel => {
                let sp = perp.dot(vr);
                ctx.check(sp.abs() <= ts, || show(&format!("still moves off the axis at {}", sp)));
                judge(ctx, "along the axis", &graph(true), q.ax.dot(vr), q.ax.dot(imp), tp);
                if let Some(l) = l { judge(ctx, "turning", &graph(false), wr, l, tl); }
            }
            JK::Distance => {
                ctx.check(perp.dot(imp).abs() <= 2.0 * tp, || show("a distance joint pushed sideways"));
                if let Some(l) = l { ctx.check(l.abs() <= tl, || show("a distance joint turned a body")); }
                let sp = q.ax.dot(vr);
                if p.s.min == p.s.max { ctx.check(sp.abs() <= ts, || show(&format!("length still changes at {}", sp))); }
                else { judge(ctx, "along the line", &graph(true), sp, q.ax.dot(imp), tp); }
            }
            JK::Friction | JK::Motor | JK::Mouse => {
                let cap = h * p.s.max_f;
                let (e, te) = match kind {
                    JK::Friction => (vr, ts),
                    JK::Motor => (vr + q.dd * (p.s.corr / h), ts + 1e-4 * q.dd.len() / h),
                    _ => {
                        let gm = 1.0 / (h * (p.s.dm + h * p.s.k));
                        let c = b0.c + q.rb - p.s.target;
                        let bias = c * (h * p.s.k * gm);
                        let ab = b1.v + cr(b1.w, q.rb);
                        (ab + bias + imp * gm, ts + 1e-4 * bias.len() + 1e-4 * gm * imp.len() + gm * tp)
                    }
                };
                ctx.check(imp.len() <= cap * 1.001 + tp, || show(&format!("pushes with {} of at most {}", imp.len() / h, p.s.max_f)));
                if imp.len() < cap * 0.999 - tp {
                    ctx.check(e.len() <= te, || show(&format!("strong enough but still {:?} from its aim", e)));
                    ctx.hit("aim_reached");
                } else {
                    ctx.check(imp.dot(e) <= (te + 1e-3 * e.len()) * imp.len() + tp * e.len(), || show(&format!("at its cap, pushes away from its aim ({:?} left)", e)));
                    ctx.hit("at_force_cap");
                }
                if let Some(l) = l {
                    if kind == JK::Mouse { ctx.check(l.abs() <= tl, || show("a mouse joint turned the body about the grabbed point")); }
                    else { ctx.check(l.abs() <= h * p.s.max_t * 1.001 + tl, || show(&format!("turns with {} of at most {}", l.abs() / h, p.s.max_t))); judge(ctx, "turning", &graph(false), wr, l, tl); }
                }
            }
            _ => {}
        }
        ctx.hit(&format!("{:?}", kind));
        // reported reactions
        let jp = p.sim.joints[p.j].p.clone();
        let jb = jp.borrow();
        if focus == Focus::Reaction {
            let inv = (1.0 / h) as f32;
            let scale = ctx.rng.f(0.1, 3.0) as f64;
            let f = d(jb.get_reaction_force(inv));
            let tq = jb.get_reaction_torque(inv) as f64;
            ctx.check((f * h - imp).len() <= 8.0 * tp + 2e-3 * imp.len(), || show(&format!("reported force {:?} against {:?} given", f, imp * (1.0 / h))));
            if let Some(l) = l { ctx.check((tq * h - l).abs() <= 6.0 * tl + 2e-3 * l.abs(), || show(&format!("reported torque {} against {} given", tq, l / h))); }
            let f2 = d(jb.get_reaction_force((scale / h) as f32));
            let t2 = jb.get_reaction_torque((scale / h) as f32) as f64;
            ctx.check((f2 - f * scale).len() <= 1e-4 * (1.0 + f.len()) && (t2 - tq * scale).abs() <= 1e-4 * (1.0 + tq.abs()), || show("reported reactions do not scale with the inverse step"));
            ctx.hit(&format!("reaction {:?}", kind));
            // the motor's share
            let share = match jb.as_derived() { JointAsDerived::ERevoluteJoint(q) => Some((q.get_motor_torque(inv) as f64, false)), JointAsDerived::EPrismaticJoint(q) => Some((q.get_motor_force(inv) as f64, true)), JointAsDerived::EWheelJoint(q) => Some((q.get_motor_torque(inv) as f64, false)), _ => None };
            if let Some((m, axial)) = share {
                if p.s.motor {
                    ctx.check(m.abs() <= p.s.cap * 1.001 + 1e-3, || show(&format!("motor reports {} of at most {}", m, p.s.cap)));
                    let gr = graph(axial);
                    let total = if axial { Some((q.ax.dot(imp), q.ax.dot(vr), tp)) } else { l.map(|l| (l, wr, tl)) };
                    if let Some((x, s, e)) = total {
                        // no limit within reach: all of it is the motor's
                        let near = |c: Option<f64>, sg: f64| c.map_or(false, |c| (s - sg * c.max(0.0) / h).abs() <= 4.0 * ts + 1e-3 / h);
                        if !near(gr.lower, -1.0) && !near(gr.upper, 1.0) && !(gr.lower.is_some() && p.s.hi - p.s.lo < 0.1) { ctx.check((m * h - x).abs() <= 2.0 * e + 1e-3 * x.abs(), || show(&format!("motor reports {} but gave {}", m, x / h))); ctx.hit("motor_share"); }
                        else { ctx.hit("motor_against_limit"); }
                    }
                } else {
                    ctx.check(m == 0.0, || show(&format!("a motor that is off reports {}", m)));
                }
            }
        }
        // where the joint is after the step
        let r = geo_of(&p.s, &a1, &b1);
        let slide = (top * h).powi(2);
        if focus == Focus::Rigid {
            let (e, ang) = match kind { JK::Revolute => (r.dd.len(), 0.0), JK::Weld => (r.dd.len(), if p.s.k > 0.0 { 0.0 } else { r.angle.abs() }), JK::Prismatic => (r.ax.perp().dot(r.dd).abs(), r.angle.abs()), JK::Wheel => (r.ax.perp().dot(r.dd).abs(), 0.0), JK::Distance => ((r.t - p.s.len).abs(), 0.0), _ => (0.0, 0.0) };
            ctx.max("worst_hold", e);
            ctx.max("worst_hold_angle", ang);
            if slide < 0.01 {
                ctx.check(e <= 0.0051, || show(&format!("joint is off by {} after the step", e)));
                if turns { ctx.check(ang <= 0.0352, || show(&format!("joint is turned off by {} after the step", ang))); }
                ctx.hit("position_held");
            }
        }
        if focus == Focus::Limit && slide < 0.01 && (p.s.lim || kind == JK::Distance) {
            let (x, tol, lo, hi) = match kind { JK::Revolute => (r.angle, 0.0705, p.s.lo, p.s.hi), JK::Distance => (r.t, 0.0055, p.s.min, p.s.max), JK::Wheel => (r.t, 0.03, p.s.lo, p.s.hi), _ => (r.t, 0.04, p.s.lo, p.s.hi) };
            let x0 = match kind { JK::Revolute => q.angle, _ => q.t };
            // where it was inside it stays inside; where outside it comes back, at once unless far out
            if (kind != JK::Revolute || turns) && x0 >= lo - tol && x0 <= hi + tol {
                ctx.check(x >= lo - tol && x <= hi + tol, || show(&format!("went from {} to {} past the limits", x0, x)));
                ctx.hit("limit_held");
            } else if x0 < lo - 0.3 || x0 > hi + 0.3 {
                // from this far the return need not be a straight one
                ctx.hit("far_outside");
                if kind == JK::Wheel { return; }
            } else if kind != JK::Revolute || turns {
                let (o0, o1) = ((lo - x0).max(x0 - hi), (lo - x).max(x - hi));
                ctx.max("worst_outside", o1);
                ctx.check(o1 <= tol.max(if kind == JK::Revolute { o0 + 1e-3 } else { 0.9 * o0 }), || show(&format!("outside by {} before the step and {} after", o0, o1)));
                ctx.hit("limit_returned");
            }
        }
        hs.extend_from_slice(&[a1.v.x as f32, b1.v.x as f32, b1.v.y as f32, b1.w as f32]);
        if ctx.failed() { return; }
    }
    ctx.distinct(hash_f(&hs));
}
const RIGID: [JK; 5] = [JK::Revolute, JK::Weld, JK::Distance, JK::Prismatic, JK::Wheel];
fn c30_law(ctx: &mut Ctx) { law(ctx, &RIGID, Focus::Rigid) }
fn c31_law(ctx: &mut Ctx) { law(ctx, &[JK::Revolute, JK::Distance, JK::Prismatic, JK::Wheel], Focus::Limit) }
fn c32_law(ctx: &mut Ctx) { law(ctx, &[JK::Revolute, JK::Prismatic, JK::Wheel, JK::Friction, JK::Motor, JK::Mouse], Focus::Motor) }
fn c33_law(ctx: &mut Ctx) { law(ctx, &[JK::Distance, JK::Weld, JK::Wheel, JK::Mouse], Focus::Spring) }
fn c34_law(ctx: &mut Ctx) { law(ctx, &[JK::Revolute, JK::Prismatic, JK::Wheel, JK::Friction, JK::Motor, JK::Mouse, JK::Distance, JK::Weld], Focus::Reaction) }

pub fn props() -> Vec<Property> {
    use crate::p_joint2::*;
    vec![
        Property { id: "C30", rule: "a distinct sequence of velocities or poses", parts: vec![part("law", 40000, 700000, c30_law), part("hold", 4000, 120000, hold)], required: vec![("both_dynamic", 1000), ("position_held", 1000), ("Revolute", 500), ("Weld", 500), ("Distance", 500), ("Prismatic", 500), ("Wheel", 500), ("joint_held", 10000), ("disturbed", 200), ("links_4", 100)], assumptions: "" },
        Property { id: "C31", rule: "a distinct sequence of velocities or poses", parts: vec![part("law", 40000, 700000, c31_law), part("assembly", 4000, 120000, limits)], required: vec![("at_lower", 500), ("at_upper", 500), ("inside_limits", 1000), ("limit_held", 1000), ("limit_returned", 200), ("changed", 1000), ("limits_changed", 500), ("on_limit", 2000), ("between_limits", 2000)], assumptions: "" },
        Property { id: "C32", rule: "a distinct sequence of velocities", parts: vec![part("law", 60000, 1000000, c32_law)], required: vec![("motor_at_speed", 1000), ("motor_at_cap", 1000), ("aim_reached", 500), ("at_force_cap", 500), ("changed", 1000), ("Friction", 500), ("Motor", 500), ("Mouse", 500), ("Revolute", 500), ("Prismatic", 500), ("Wheel", 500)], assumptions: "" },
        Property { id: "C33", rule: "a distinct sequence of velocities or deflections", parts: vec![part("law", 50000, 800000, c33_law), part("rest", 2000, 40000, deflection), part("helpers", 4000, 100000, helpers)], required: vec![("spring_pull", 2000), ("rest Distance", 50), ("rest Weld", 50), ("rest Wheel", 50), ("rest Mouse", 50), ("helper", 500), ("changed", 1000), ("spring_off", 1000)], assumptions: "" },
        Property { id: "C34", rule: "a distinct sequence of velocities", parts: vec![part("law", 40000, 700000, c34_law), part("pulley", 10000, 200000, pulley_reaction), part("hanging", 1000, 30000, hanging)], required: vec![("reaction Revolute", 500), ("reaction Prismatic", 500), ("reaction Wheel", 500), ("reaction Weld", 500), ("reaction Distance", 500), ("reaction Friction", 500), ("reaction Motor", 500), ("reaction Mouse", 500), ("reaction Pulley", 500), ("motor_share", 500), ("hung Weld", 100)], assumptions: "" },
        Property { id: "C35", rule: "a distinct sequence of velocities", parts: vec![part("gear_law", 15000, 250000, gear_law), part("gear_run", 2000, 60000, gear_run), part("gear_carrier", 6000, 120000, gear_carrier), part("pulley_law", 20000, 300000, pulley_law), part("pulley_run", 2000, 60000, pulley_run)], required: vec![("load_transmitted", 1000), ("ratio_kept", 1000), ("rope_kept", 1000), ("Revolute-Revolute", 200), ("Revolute-Prismatic", 200), ("Prismatic-Revolute", 200), ("Prismatic-Prismatic", 200), ("negative_ratio", 500), ("driven_first", 100), ("driven_second", 100), ("shared_carrier", 300), ("own_carriers", 600), ("slipped", 400), ("solved", 2000)], assumptions: "" },
    ]
}
