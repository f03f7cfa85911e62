//! C20 free motion, C21 forces and impulses, C22 body mass, C23 body types, C24 momentum, C25 contact impulses, C26 materials
use crate::core::*;
use crate::gen::*;
use crate::geo::*;
use crate::p_manifold::world_manifold;
use crate::sim::*;
use box2d_rs::b2_body::*;
use box2d_rs::b2_shape::*;
use box2d_rs::shapes::b2rs_to_derived_shape::*;
use std::collections::HashMap;

pub const MAX_T: f64 = 2.0;
pub const MAX_R: f64 = 0.5 * std::f64::consts::PI;

/// the observable motion of a body
#[derive(Clone, Copy, Debug)]
pub struct St {
    pub p: V,
    pub a: f64,
    pub c: V,
    pub lc: V,
    pub v: V,
    pub w: f64,
    pub m: f64,
    pub i: f64,
}
pub fn st(b: &BodyPtr<UD>) -> St {
    let b = b.borrow();
    let (m, i) = mass_of(&b);
    St { p: d(b.get_position()), a: b.get_angle() as f64, c: d(b.get_world_center()), lc: d(b.get_local_center()), v: d(b.get_linear_velocity()), w: b.get_angular_velocity() as f64, m, i }
}
/// f64 mass properties (mass, first moment, inertia about the body origin) of one fixture at a density
pub fn ref_mass(s: &dyn B2shapeDynTrait, dens: f64) -> (f64, V, f64) {
    let cx = &children(s)[0];
    match s.as_derived() {
        ShapeAsDerived::AsCircle(_) => {
            let m = std::f64::consts::PI * cx.r * cx.r * dens;
            (m, cx.p[0] * m, m * (0.5 * cx.r * cx.r + cx.p[0].dot(cx.p[0])))
        }
        ShapeAsDerived::AsPolygon(_) => {
            let (a, c, i) = poly_moments(&cx.p);
            (a * dens, c * (a * dens), i * dens)
        }
        _ => (0.0, V { x: 0.0, y: 0.0 }, 0.0),
    }
}
const Z: V = V { x: 0.0, y: 0.0 };
fn lim(v: V, h: f64) -> V {
    let l = v.len() * h;
    if l > MAX_T { v * (MAX_T / l) } else { v }
}
fn lim_w(w: f64, h: f64) -> f64 {
    let r = (w * h).abs();
    if r > MAX_R { w * (MAX_R / r) } else { w }
}
fn rot(a: f64, q: V) -> V {
    Xf::new(Z, a).rot(q)
}

// ------------------------------------------------------------------------------------------------ C20

fn c20_case(ctx: &mut Ctx) {
    let g0 = if ctx.rng.chance(0.2) { b2v(0.0, 0.0) } else { ctx.rng.vec(20.0) };
    let mut sim = Sim::new(g0);
    let mut fx = Fx::default();
    fx.filter.group_index = -1;
    sim.w.borrow_mut().set_allow_sleeping(false);
    let n = ctx.rng.int(1, 4) as usize;
    let fast = ctx.rng.chance(0.3);
    for _ in 0..n {
        let t = if ctx.rng.chance(0.85) { DYNAMIC } else { KINEMATIC };
        let r = ctx.rng.log(0.5, 200.0);
        let mut def = Sim::def(t, ctx.rng.vec(r), ctx.rng.angle() * 3.0);
        def.linear_velocity = if fast { ctx.rng.vec(800.0) } else { ctx.rng.vec(20.0) };
        def.angular_velocity = if fast { ctx.rng.f(-400.0, 400.0) } else { ctx.rng.f(-20.0, 20.0) };
        def.linear_damping = if ctx.rng.chance(0.5) { 0.0 } else { ctx.rng.log(0.01, 20.0) };
        def.angular_damping = if ctx.rng.chance(0.5) { 0.0 } else { ctx.rng.log(0.01, 20.0) };
        def.gravity_scale = if ctx.rng.chance(0.4) { 1.0 } else { ctx.rng.f(-2.0, 3.0) };
        def.fixed_rotation = ctx.rng.chance(0.15);
        if def.fixed_rotation { def.angular_velocity = 0.0; }
        def.bullet = ctx.rng.chance(0.2);
        let b = sim.add(def);
        for _ in 0..ctx.rng.below(4) {
            let k = solid_kind(&mut ctx.rng);
            let size = ctx.rng.log(0.1, 3.0);
            let s = shape(&mut ctx.rng, k, size);
            fx.density = if ctx.rng.chance(0.1) { 0.0 } else { ctx.rng.log(0.05, 50.0) };
            fx.sensor = ctx.rng.chance(0.2);
            sim.fixture(b, &s, k, &fx);
        }
        if t == DYNAMIC && ctx.rng.chance(0.2) {
            let mut md = box2d_rs::b2_shape::B2massData::default();
            md.mass = ctx.rng.log(0.1, 100.0);
            md.center = ctx.rng.vec(1.0);
            md.i = md.mass * (md.center.length_squared() + ctx.rng.log(0.05, 5.0));
            sim.b(b).borrow_mut().set_mass_data(&md);
            ctx.hit("explicit_mass");
        }
    }
    let mut hs = vec![];
    for _ in 0..ctx.rng.int(3, 12) {
        if ctx.rng.chance(0.15) {
            let g = ctx.rng.vec(30.0);
            sim.w.borrow_mut().set_gravity(g);
        }
        sim.dt = *ctx.rng.pick(&[1.0f32 / 60.0, 1.0 / 60.0, 1.0 / 30.0, 1.0 / 240.0, 0.1]);
        sim.vi = ctx.rng.int(1, 10);
        sim.pi = ctx.rng.int(1, 6);
        let h = sim.dt as f64;
        let g = d(sim.w.borrow().get_gravity());
        let mut pre = vec![];
        for i in 0..n {
            let b = sim.b(i);
            if ctx.rng.chance(0.1) { let x = ctx.rng.log(0.01, 5.0); b.borrow_mut().set_linear_damping(x); }
            if ctx.rng.chance(0.1) { let x = ctx.rng.log(0.01, 5.0); b.borrow_mut().set_angular_damping(x); }
            if ctx.rng.chance(0.1) { let x = ctx.rng.f(-2.0, 2.0); b.borrow_mut().set_gravity_scale(x); }
            if ctx.rng.chance(0.1) { let (p, a) = (ctx.rng.vec(50.0), ctx.rng.angle()); b.borrow_mut().set_transform(p, a); }
            let s = st(&b);
            let (mut f, mut tq) = (Z, 0.0f64);
            if ctx.rng.chance(0.5) {
                let mag = ctx.rng.log(0.1, 50.0) * (s.m as f32).max(0.1);
                let fv = ctx.rng.vec(mag);
                let pt = b2(s.c) + ctx.rng.vec(1.0);
                b.borrow_mut().apply_force(fv, pt, true);
                f = f + d(fv);
                tq += (d(pt) - s.c).cross(d(fv));
                let q = ctx.rng.f(-10.0, 10.0) * (s.i as f32).max(0.1);
                b.borrow_mut().apply_torque(q, true);
                tq += q as f64;
                ctx.hit("force_applied");
            }
            pre.push((s, f, tq));
        }
        sim.step();
        ctx.evals += 1;
        for i in 0..n {
            let (s, f, tq) = pre[i];
            let b = sim.b(i);
            let r = st(&b);
            let bb = b.borrow();
            let dynamic = bb.get_type() == DYNAMIC;
            let (mut v, mut w) = (s.v, s.w);
            let mut acc = 0.0;
            if dynamic {
                if s.m > 0.0 {
                    v = v + (g * bb.get_gravity_scale() as f64 + f * (1.0 / s.m)) * h;
                    acc = g.len() + f.len() / s.m;
                }
                if s.i > 0.0 && !bb.is_fixed_rotation() { w += h * tq / s.i; }
                v = v * (1.0 / (1.0 + h * bb.get_linear_damping() as f64));
                w /= 1.0 + h * bb.get_angular_damping() as f64;
            }
            let (vl, wl) = (lim(v, h), lim_w(w, h));
            if (vl - v).len() > 1e-6 { ctx.hit("speed_limited"); }
            if (wl - w).abs() > 1e-6 { ctx.hit("spin_limited"); }
            ctx.hit(if !dynamic { "kinematic_step" } else if s.lc.len() > 1e-3 { "eccentric_step" } else { "centred_step" });
            // inertia about the centre is a difference of two rounded numbers
            let irel = if s.i > 0.0 { 4e-7 * (s.i + 2.0 * s.m * s.lc.dot(s.lc)) / s.i } else { 0.0 };
            let tw = 2e-6 * (s.w.abs() + 1.0) + (1e-5 + 2.0 * irel) * (w - s.w).abs() + 1e-5 * h * if s.i > 0.0 { (tq.abs() + s.c.len() * 1e-1 * f.len()) / s.i } else { 0.0 };
            if dynamic && s.m > 0.0 && s.i < 1e-5 * s.m * s.lc.dot(s.lc) && s.lc.len() > 0.0 { ctx.hit("skipped: badly conditioned inertia"); continue; }
            let tv = 3e-6 * (v.len() + s.v.len() + h * acc) + 1e-6;
            ctx.check((r.v - vl).len() <= tv, || format!("velocity after the step {:?}, expected {:?} (before {:?}, step {}, gravity {:?} × {}, force {:?}, mass {}, damping {})", r.v, vl, s.v, h, g, bb.get_gravity_scale(), f, s.m, bb.get_linear_damping()));
            ctx.check((r.w - wl).abs() <= tw, || format!("spin after the step {}, expected {} (before {}, step {}, torque {}, inertia {}, damping {})", r.w, wl, s.w, h, tq, s.i, bb.get_angular_damping()));
            let tp = 4e-7 * (s.c.len() + r.c.len()) + 2.0 * h * tv + 1e-6;
            ctx.check((r.c - (s.c + vl * h)).len() <= tp, || format!("centre of mass moved from {:?} to {:?}, expected {:?}", s.c, r.c, s.c + vl * h));
            let ta = 4e-7 * (s.a.abs() + 1.0) + 2.0 * h * tw;
            ctx.check((r.a - (s.a + wl * h)).abs() <= ta, || format!("angle went from {} to {}, expected {}", s.a, r.a, s.a + wl * h));
            let org = r.c - rot(r.a, r.lc);
            ctx.check((r.p - org).len() <= 1e-6 * (r.c.len() + r.lc.len() + 1.0) + 1e-6 * r.a.abs() * r.lc.len(), || format!("position {:?} does not match centre {:?}, angle {}, local centre {:?}", r.p, r.c, r.a, r.lc));
            let t = bb.get_transform();
            ctx.check((d(t.p) - r.p).len() < 1e-9 && ((t.q.c as f64) - r.a.cos()).abs() < 1e-6 + 1e-7 * r.a.abs() && ((t.q.s as f64) - r.a.sin()).abs() < 1e-6 + 1e-7 * r.a.abs(), || format!("transform {:?} does not match position {:?} and angle {}", t, r.p, r.a));
            ctx.check((d(bb.get_world_point(bb.get_local_center())) - r.c).len() <= 2e-6 * (r.c.len() + r.lc.len() + 1.0), || "world point of the local centre is not the world centre".to_string());
            hs.extend_from_slice(&[r.p.x as f32, r.v.y as f32]);
            if ctx.failed() { return; }
        }
    }
    ctx.distinct(hash_f(&hs));
}

// ------------------------------------------------------------------------------------------------ C21

fn c21_case(ctx: &mut Ctx) {
    let mut sim = Sim::new(b2v(0.0, 0.0));
    sim.w.borrow_mut().set_allow_sleeping(ctx.rng.chance(0.5));
    let mut fx = Fx::default();
    fx.filter.group_index = -1;
    let n = ctx.rng.int(1, 3) as usize;
    for _ in 0..n {
        let t = *ctx.rng.pick(&[DYNAMIC, DYNAMIC, DYNAMIC, DYNAMIC, KINEMATIC, STATIC]);
        let mut def = Sim::def(t, ctx.rng.vec(10.0), ctx.rng.angle());
        if t != STATIC { def.linear_velocity = ctx.rng.vec(5.0); def.angular_velocity = ctx.rng.f(-5.0, 5.0); }
        def.bullet = ctx.rng.chance(0.3);
        def.fixed_rotation = ctx.rng.chance(0.15);
        if def.fixed_rotation { def.angular_velocity = 0.0; }
        let b = sim.add(def);
        for _ in 0..ctx.rng.int(1, 3) {
            let k = solid_kind(&mut ctx.rng);
            let size = ctx.rng.log(0.2, 2.0);
            let s = shape(&mut ctx.rng, k, size);
            fx.density = ctx.rng.log(0.1, 10.0);
            sim.fixture(b, &s, k, &fx);
        }
    }
    let auto = ctx.rng.chance(0.7);
    sim.w.borrow_mut().set_auto_clear_forces(auto);
    ctx.check(sim.w.borrow().get_auto_clear_forces() == auto, || "automatic clearing of forces reads back wrong".into());
    // pending force and torque on each body, as far as the caller is concerned
    let mut pend: Vec<(V, f64)> = vec![(Z, 0.0); n];
    let mut hs = vec![];
    for _ in 0..ctx.rng.int(6, 24) {
        let i = ctx.rng.below(n);
        let b = sim.b(i);
        let s = st(&b);
        let (awake, dynamic, fixed) = { let q = b.borrow(); (q.is_awake(), q.get_type() == DYNAMIC, q.is_fixed_rotation()) };
        if dynamic && s.i < 1e-3 * s.m * s.lc.dot(s.lc) && !fixed { ctx.hit("skipped: badly conditioned inertia"); return; }
        let wake = ctx.rng.chance(0.5);
        let op = ctx.rng.below(12);
        let mag = s.m.max(0.2) as f32;
        let imp = ctx.rng.vec(5.0 * mag);
        let pt = b2(s.c) + ctx.rng.vec(2.0);
        let tq = ctx.rng.f(-5.0, 5.0) * s.i.max(0.1) as f32;
        let act = dynamic && (awake || wake);
        let (mut ev, mut ew) = (s.v, s.w);
        let mut expect_awake = if dynamic { awake || wake } else { awake };
        let name;
        match op {
            0 | 1 => {
                name = "impulse_at_point";
                b.borrow_mut().apply_linear_impulse(imp, pt, wake);
                if act { ev = ev + d(imp) * (1.0 / s.m); if !fixed { ew += (d(pt) - s.c).cross(d(imp)) / s.i; } }
            }
            2 => {
                name = "impulse_at_centre";
                b.borrow_mut().apply_linear_impulse_to_center(imp, wake);
                if act { ev = ev + d(imp) * (1.0 / s.m); }
            }
            3 => {
                name = "angular_impulse";
                b.borrow_mut().apply_angular_impulse(tq, wake);
                if act && !fixed { ew += tq as f64 / s.i; }
            }
            4 => {
                name = "force_at_point";
                b.borrow_mut().apply_force(imp, pt, wake);
                if act { pend[i].0 = pend[i].0 + d(imp); pend[i].1 += (d(pt) - s.c).cross(d(imp)); }
            }
            5 => {
                name = "force_at_centre";
                b.borrow_mut().apply_force_to_center(imp, wake);
                if act { pend[i].0 = pend[i].0 + d(imp); }
            }
            6 => {
                name = "torque";
                b.borrow_mut().apply_torque(tq, wake);
                if act { pend[i].1 += tq as f64; }
            }
            7 => {
                name = "put_to_sleep";
                expect_awake = awake;
                b.borrow_mut().set_awake(false);
                if b.borrow().get_type() != STATIC {
                    ev = Z; ew = 0.0;
                    expect_awake = false;
                    pend[i] = (Z, 0.0);
                }
            }
            8 => {
                name = "wake_up";
                b.borrow_mut().set_awake(true);
                if b.borrow().get_type() != STATIC { expect_awake = true; }
            }
            9 => {
                name = "clear_forces";
                expect_awake = awake;
                sim.w.borrow_mut().clear_forces();
                for p in pend.iter_mut() { *p = (Z, 0.0); }
            }
            _ => {
                name = "step";
                let pre: Vec<(St, bool)> = (0..n).map(|j| (st(&sim.b(j)), sim.b(j).borrow().is_awake())).collect();
                sim.step();
                let h = sim.dt as f64;
                for j in 0..n {
                    let (s, aw) = pre[j];
                    let b = sim.b(j);
                    let r = st(&b);
                    let q = b.borrow();
                    let (f, t) = pend[j];
                    let (mut v, mut w) = (s.v, s.w);
                    if q.get_type() == DYNAMIC && aw {
                        v = v + f * (h / s.m);
                        if !q.is_fixed_rotation() { w += h * t / s.i; }
                    }
                    v = lim(v, h);
                    w = lim_w(w, h);
                    // a body may fall asleep in the step; only a slow one does
                    let slept = aw && !q.is_awake();
                    if slept { ctx.check(v.len() < 0.011 && w.abs() < 0.036, || format!("body moving at {:?}, {} fell asleep", v, w)); v = Z; w = 0.0; }
                    let tol = 1e-5 * (1.0 + v.len() + h * f.len() / s.m.max(1e-3));
                    let tw = 2e-5 * (1.0 + w.abs()) + 1e-4 * h * t.abs() / s.i.max(1e-6);
                    ctx.check((r.v - v).len() <= tol && (r.w - w).abs() <= tw, || format!("after a step under force {:?} torque {}: velocity {:?} spin {}, expected {:?} {} (was {:?} {}, auto clear {})", f, t, r.v, r.w, v, w, s.v, s.w, auto));
                    if !aw { ctx.check(!q.is_awake() || q.get_type() == STATIC, || "a lone sleeping body woke up".to_string()); ctx.hit("sleeping_step"); }
                    if auto { if (f.len() > 0.0 || t != 0.0) && q.get_type() == DYNAMIC { ctx.hit("force_step"); } pend[j] = (Z, 0.0); }
                    else if slept { pend[j] = (Z, 0.0); }
                    else if f.len() > 0.0 { ctx.hit("force_kept_step"); }
                    hs.push(r.v.x as f32);
                }
                ctx.hit(name);
                if ctx.failed() { return; }
                continue;
            }
        }
        let r = st(&b);
        let q = b.borrow();
        let tv = 1e-5 * (1.0 + ev.len() + s.v.len());
        let tw = 1e-4 * (1.0 + ew.abs() + s.w.abs() + (ew - s.w).abs()) + if s.i > 0.0 { 2e-5 * (d(pt) - s.c).len() * d(imp).len() / s.i } else { 0.0 };
        ctx.check((r.v - ev).len() <= tv && (r.w - ew).abs() <= tw, || format!("{} on a {:?} (awake {}, wake {}): velocity {:?} spin {}, expected {:?} {}", name, q.get_type(), awake, wake, r.v, r.w, ev, ew));
        ctx.check(q.is_awake() == expect_awake || q.get_type() == STATIC, || format!("{} on a {:?} (awake {}, wake {}): awake is {}", name, q.get_type(), awake, wake, q.is_awake()));
        ctx.check((r.p - s.p).len() == 0.0 && r.a == s.a, || format!("{} moved the body", name));
        ctx.hit(name);
        if dynamic && !awake { ctx.hit(if wake { "asleep_woken" } else { "asleep_left" }); }
        if !dynamic && op < 7 { ctx.hit("not_dynamic"); }
        hs.push(r.w as f32);
        if ctx.failed() { return; }
    }
    ctx.distinct(hash_f(&hs));
}

// ------------------------------------------------------------------------------------------------ C22

fn c22_case(ctx: &mut Ctx) {
    let mut sim = Sim::new(b2v(0.0, -10.0));
    let t = if ctx.rng.chance(0.85) { DYNAMIC } else { *ctx.rng.pick(&[STATIC, KINEMATIC]) };
    let mut def = Sim::def(t, ctx.rng.vec(10.0), ctx.rng.angle());
    def.fixed_rotation = ctx.rng.chance(0.2);
    if t != STATIC { def.linear_velocity = ctx.rng.vec(5.0); def.angular_velocity = if def.fixed_rotation && ctx.rng.chance(0.5) { 0.0 } else { ctx.rng.f(-6.0, 6.0) }; }
    let b = sim.add(def);
    let body = sim.b(b);
    // densities in force at the last mass computation
    let mut stale = false;
    let mut explicit: Option<(f64, V, f64)> = None;
    let mut hs = vec![];
    for _ in 0..ctx.rng.int(4, 16) {
        let s = st(&body);
        let old_type = body.borrow().get_type();
        let probe: Vec<V> = (0..2).map(|_| d(ctx.rng.vec(3.0))).collect();
        let vel_at: Vec<V> = probe.iter().map(|q| d(body.borrow().get_linear_velocity_from_local_point(b2(*q)))).collect();
        let mut centre_op = true;
        let before = (s.m, s.lc, s.i);
        let name: &'static str;
        let mut unchanged = false;
        match ctx.rng.below(12) {
            0..=3 => {
                name = "add_fixture";
                let k = if ctx.rng.chance(0.85) { solid_kind(&mut ctx.rng) } else { kind(&mut ctx.rng) };
                let size = ctx.rng.log(0.1, 3.0);
                let sh = shape(&mut ctx.rng, k, size);
                let mut fx = Fx::default();
                fx.density = if ctx.rng.chance(0.2) { 0.0 } else { ctx.rng.log(0.05, 20.0) };
                fx.sensor = ctx.rng.chance(0.1);
                // a fixture without density leaves pending densities pending
                if stale && fx.density == 0.0 { fx.density = 1.0; }
                let weightless = fx.density == 0.0;
                sim.fixture(b, &sh, k, &fx);
                if weightless { if explicit.is_some() || stale { unchanged = true; } } else { explicit = None; stale = false; }
            }
            4 | 5 => {
                name = "destroy_fixture";
                if sim.bodies[b].f.is_empty() { continue; }
                let f = ctx.rng.below(sim.bodies[b].f.len());
                sim.destroy_fixture(b, f);
                explicit = None;
                stale = false;
            }
            6 => {
                name = "set_density";
                if sim.bodies[b].f.is_empty() { continue; }
                let f = ctx.rng.below(sim.bodies[b].f.len());
                let x = if ctx.rng.chance(0.2) { 0.0 } else { ctx.rng.log(0.05, 20.0) };
                sim.bodies[b].f[f].p.borrow_mut().set_density(x);
                stale = true;
                unchanged = true;
            }
            7 | 8 => {
                name = "reset_mass";
                body.borrow_mut().reset_mass_data();
                explicit = None;
                stale = false;
            }
            9 => {
                name = "set_mass_data";
                let mut md = B2massData::default();
                md.mass = if ctx.rng.chance(0.15) { *ctx.rng.pick(&[0.0f32, -1.0]) } else { ctx.rng.log(0.1, 50.0) };
                md.center = ctx.rng.vec(2.0);
                let m = if md.mass > 0.0 { md.mass } else { 1.0 };
                md.i = if ctx.rng.chance(0.15) { 0.0 } else { m * (md.center.length_squared() + ctx.rng.log(0.1, 10.0)) };
                body.borrow_mut().set_mass_data(&md);
                if body.borrow().get_type() == DYNAMIC {
                    let fixed = body.borrow().is_fixed_rotation();
                    let ic = if md.i > 0.0 && !fixed { md.i as f64 - m as f64 * d(md.center).dot(d(md.center)) } else { 0.0 };
                    explicit = Some((m as f64, d(md.center), ic));
                    stale = false;
                } else { unchanged = true; }
            }
            10 => {
                name = "fixed_rotation";
                let f = ctx.rng.chance(0.5);
                let same = body.borrow().is_fixed_rotation() == f;
                body.borrow_mut().set_fixed_rotation(f);
                ctx.check(body.borrow().is_fixed_rotation() == f, || "fixed rotation reads back wrong".into());
                if same { unchanged = true; } else {
                    explicit = None;
                    stale = false;
                    centre_op = false;
                    ctx.check(body.borrow().get_angular_velocity() == 0.0, || "spin left after fixing rotation".into());
                    if (!f || ctx.rng.chance(0.3)) && body.borrow().get_type() != STATIC { let w = ctx.rng.f(-6.0, 6.0); body.borrow_mut().set_angular_velocity(w); }
                }
            }
            _ => {
                name = "set_type";
                let t = *ctx.rng.pick(&[DYNAMIC, DYNAMIC, KINEMATIC, STATIC]);
                let same = t == body.borrow().get_type();
                B2body::set_type(body.clone(), t);
                centre_op = false;
                if same { unchanged = true; } else {
                    explicit = None;
                    stale = false;
                    if t == STATIC { ctx.check(body.borrow().get_linear_velocity() == b2v(0.0, 0.0) && body.borrow().get_angular_velocity() == 0.0, || "a body made static keeps a velocity".into()); }
                    if t != STATIC && old_type == STATIC {
                        let (v, w) = (ctx.rng.vec(5.0), if body.borrow().is_fixed_rotation() { 0.0 } else { ctx.rng.f(-6.0, 6.0) });
                        body.borrow_mut().set_linear_velocity(v);
                        body.borrow_mut().set_angular_velocity(w);
                    }
                }
            }
        }
        ctx.hit(name);
        let r = st(&body);
        let q = body.borrow();
        if unchanged {
            ctx.check(r.m == before.0 && r.lc.x == before.1.x && r.lc.y == before.1.y && r.i == before.2, || format!("{} changed the mass properties from {:?} to {:?}", name, before, (r.m, r.lc, r.i)));
            ctx.hit("unchanged");
        }
        if stale { if ctx.failed() { return; } continue; }
        // expected
        let (mut m, mut mc, mut io) = (0.0, Z, 0.0);
        let mut ill = 0.0f64;
        if q.get_type() == DYNAMIC {
            for f in sim.bodies[b].f.iter() {
                let f = f.p.borrow();
                let dens = f.get_density() as f64;
                if dens == 0.0 { continue; }
                let s = f.get_shape();
                let (a, c, i) = ref_mass(&*s, dens);
                m += a;
                mc = mc + c;
                io += i;
                let cx = &children(&*s)[0];
                if a > 0.0 && cx.p.len() > 2 {
                    let per: f64 = cx.edges().iter().map(|(p, q)| (*q - *p).len()).sum();
                    ill = ill.max(4e-7 * per * cx.max_abs() * dens / a);
                }
            }
        }
        let (em, ec, ei) = match explicit {
            Some(x) => { ctx.hit("explicit_in_force"); x }
            None => {
                let c = if m > 0.0 { mc * (1.0 / m) } else { Z };
                let i = if q.is_fixed_rotation() || m == 0.0 { 0.0 } else { io - m * c.dot(c) };
                (m, c, i)
            }
        };
        let rel = 5e-5 + ill;
        ctx.near(&format!("mass after {}", name), r.m, em, rel * em);
        ctx.check((r.lc - ec).len() <= rel * 4.0 * (1.0 + ec.len()), || format!("local centre after {} is {:?}, expected {:?}", name, r.lc, ec));
        let ri = { let c = q.get_inertia() as f64; c };
        let eo = ei + em * ec.dot(ec);
        ctx.check((ri - eo).abs() <= 6.0 * rel * (io.max(eo)) + 1e-6, || format!("inertia after {} is {}, expected {} (fixed rotation {}, mass {})", name, ri, eo, q.is_fixed_rotation(), em));
        let mut md = B2massData::default();
        q.get_mass_data(&mut md);
        ctx.check(md.mass as f64 == r.m && d(md.center).x == r.lc.x && d(md.center).y == r.lc.y && (md.i as f64 - ri).abs() <= 1e-5 * ri.abs(), || format!("mass data {:?} {:?} {:?} disagree with the separate values {} {:?} {}", md.mass, md.center, md.i, r.m, r.lc, ri));
        // the body itself does not move
        ctx.check((r.p - s.p).len() == 0.0 && r.a == s.a, || format!("{} moved the body from {:?} {} to {:?} {}", name, s.p, s.a, r.p, r.a));
        ctx.check((r.c - (r.p + rot(r.a, r.lc))).len() <= 3e-6 * (1.0 + r.p.len() + r.lc.len()), || format!("world centre {:?} is not at the local centre {:?}", r.c, r.lc));
        if q.get_type() == DYNAMIC && old_type == DYNAMIC && centre_op {
            for (k, p) in probe.iter().enumerate() {
                let v = d(q.get_linear_velocity_from_local_point(b2(*p)));
                ctx.check((v - vel_at[k]).len() <= 2e-5 * (1.0 + s.v.len() + s.w.abs() * (3.0 + r.lc.len() + s.lc.len())), || format!("{} changed the velocity of body point {:?} from {:?} to {:?}", name, p, vel_at[k], v));
            }
            if (r.lc - s.lc).len() > 0.01 && s.w.abs() > 0.1 { ctx.hit("centre_moved_while_spinning"); }
        }
        // the effective mass: an impulse moves the body accordingly
        if q.get_type() == DYNAMIC && em > 0.0 && ctx.rng.chance(0.4) {
            drop(q);
            let imp = ctx.rng.vec(1.0);
            let pt = b2(r.c) + ctx.rng.vec(1.0);
            let (v0, w0) = (r.v, r.w);
            body.borrow_mut().apply_linear_impulse(imp, pt, true);
            let u = st(&body);
            ctx.check((u.v - v0 - d(imp) * (1.0 / em)).len() <= (rel * 4.0 + 1e-5) * (1.0 + v0.len() + d(imp).len() / em), || format!("impulse {:?} on mass {} changed velocity {:?} to {:?}", imp, em, v0, u.v));
            if ei > 0.02 * eo {
                let dw = (d(pt) - r.c).cross(d(imp)) / ei;
                ctx.check((u.w - w0 - dw).abs() <= 1e-4 * (1.0 + w0.abs()) + (rel * 400.0).min(0.5) * dw.abs(), || format!("impulse changed spin by {}, expected {} with inertia {}", u.w - w0, dw, ei));
            } else if ei == 0.0 {
                ctx.check(u.w == w0, || format!("a body without inertia was spun from {} to {}", w0, u.w));
            }
            body.borrow_mut().set_linear_velocity(b2(v0));
            body.borrow_mut().set_angular_velocity(w0 as f32);
            ctx.hit("impulse_probe");
        } else { drop(q); }
        hs.extend_from_slice(&[r.m as f32, r.lc.x as f32, ri as f32]);
        if ctx.failed() { return; }
    }
    ctx.distinct(hash_f(&hs));
}

// ------------------------------------------------------------------------------------------------ C23

fn c23_case(ctx: &mut Ctx) {
    let mut o = SceneOpts::default();
    o.bodies = ctx.rng.int(3, 9) as usize;
    o.joints = if ctx.rng.chance(0.5) { 0 } else { ctx.rng.int(1, 4) as usize };
    o.spread = ctx.rng.f(1.0, 4.0);
    o.sub_stepping = false;
    let mut sim = rand_scene(&mut ctx.rng, &o);
    let cont = ctx.rng.chance(0.5);
    sim.w.borrow_mut().set_continuous_physics(cont);
    for n in 0..ctx.rng.int(20, 60) {
        let snap: HashMap<u32, (B2bodyType, St, bool, bool, bool)> = sim.bodies.iter().map(|b| { let s = st(&b.p); let q = b.p.borrow(); (b.id, (q.get_type(), s, q.is_awake(), q.is_enabled(), q.is_fixed_rotation())) }).collect();
        let step = ctx.rng.chance(0.6);
        let mut dt = 1.0 / 60.0;
        let op;
        if step {
            dt = *ctx.rng.pick(&[1.0f32 / 60.0, 1.0 / 30.0, 1.0 / 120.0]);
            // push everything
            for b in sim.bodies.iter() {
                if ctx.rng.chance(0.2) && b.p.borrow().get_type() != DYNAMIC {
                    let f = ctx.rng.vec(100.0);
                    let p = b.p.borrow().get_position() + ctx.rng.vec(1.0);
                    let k = ctx.rng.below(4);
                    let mut q = b.p.borrow_mut();
                    match k { 0 => q.apply_force(f, p, true), 1 => q.apply_torque(f.x, true), 2 => q.apply_linear_impulse(f, p, true), _ => q.apply_angular_impulse(f.x, true) }
                    ctx.hit("pushed");
                }
            }
            sim.step_dt(dt);
            op = "step";
        } else {
            op = rand_op(&mut sim, &mut ctx.rng, &o);
        }
        sim.take_events();
        ctx.log(|| op.to_string());
        if sim.wild() { ctx.hit("skipped: random joints diverged"); return; }
        if !step { continue; }
        ctx.evals += 1;
        let h = dt as f64;
        for b in sim.bodies.iter() {
            let Some((t, s, aw, en, fixed)) = snap.get(&b.id) else { continue };
            let r = st(&b.p);
            let q = b.p.borrow();
            match *t {
                B2bodyType::B2StaticBody => {
                    ctx.check(r.p.x == s.p.x && r.p.y == s.p.y && r.a == s.a && r.c.x == s.c.x && r.c.y == s.c.y, || format!("operation {}: static body {} moved from {:?} {} to {:?} {}", n, b.id, s.p, s.a, r.p, r.a));
                    ctx.check(r.v.len() == 0.0 && r.w == 0.0, || format!("static body {} has velocity {:?} {}", b.id, r.v, r.w));
                    ctx.hit("static_step");
                }
                B2bodyType::B2KinematicBody => {
                    if !*en {
                        ctx.check(r.p.x == s.p.x && r.p.y == s.p.y && r.a == s.a, || format!("disabled kinematic body {} moved", b.id));
                        continue;
                    }
                    // a slow one may fall asleep and be woken again within the step
                    let slow = s.v.len() < 0.011 && s.w.abs() < 0.036;
                    if *aw && q.is_awake() && !(slow && r.v.len() == 0.0 && r.w == 0.0) {
                        let (v, w) = (lim(s.v, h), lim_w(s.w, h));
                        ctx.check((r.v - v).len() <= 1e-6 * (1.0 + v.len()) && (r.w - w).abs() <= 1e-6 * (1.0 + w.abs()), || format!("kinematic body {} velocity {:?} {} became {:?} {}", b.id, s.v, s.w, r.v, r.w));
                        ctx.check((r.c - s.c - v * h).len() <= 2e-6 * (1.0 + s.c.len()) && (r.a - s.a - w * h).abs() <= 2e-6 * (1.0 + s.a.abs()), || format!("kinematic body {} with velocity {:?} {} went from {:?} {} to {:?} {} in {}", b.id, s.v, s.w, s.c, s.a, r.c, r.a, h));
                        ctx.hit("kinematic_step");
                        if !q.get_contact_list().iter().next().is_none() { ctx.hit("kinematic_in_contact"); }
                    } else if *aw {
                        ctx.check(s.v.len() < 0.011 && s.w.abs() < 0.036, || format!("kinematic body {} moving at {:?} {} fell asleep", b.id, s.v, s.w));
                    }
                }
                _ => {
                    if *fixed && s.w == 0.0 && *en {
                        ctx.check(r.w == 0.0 && r.a == s.a, || format!("operation {}: fixed-rotation body {} turned from {} to {} (spin {})", n, b.id, s.a, r.a, r.w));
                        ctx.hit("fixed_rotation_step");
                        if q.get_contact_list().iter().any(|e| e.borrow().contact.upgrade().map_or(false, |c| c.borrow().get_base().is_touching())) { ctx.hit("fixed_rotation_touching"); }
                    }
                }
            }
        }
        if ctx.failed() { return; }
    }
    ctx.distinct(sim.state_hash());
}
/// moving paddles among fast bodies in a closed room, some of the contacts being switched off
fn c23_rush(ctx: &mut Ctx) {
    let mut sim = Sim::new(b2v(0.0, if ctx.rng.chance(0.5) { 0.0 } else { -10.0 }));
    sim.w.borrow_mut().set_continuous_physics(!ctx.rng.chance(0.1));
    sim.w.borrow_mut().set_allow_sleeping(false);
    let fx = Fx::mat(1.0, ctx.rng.f(0.0, 1.0), ctx.rng.f(0.0, 1.0));
    let size = ctx.rng.f(2.0, 5.0);
    let walls = sim.body(STATIC, b2v(0.0, 0.0), 0.0);
    for i in 0..4 { let a = i as f32 * std::f32::consts::FRAC_PI_2; let s = rc(bx_at(size + 0.2, 0.05, b2v(size * a.sin(), size * a.cos()), -a)); sim.fixture(walls, &s, Kind::Poly, &fx); }
    let mut pads = vec![];
    for _ in 0..ctx.rng.int(1, 3) {
        let mut def = Sim::def(KINEMATIC, ctx.rng.vec(0.7 * size), ctx.rng.angle());
        def.linear_velocity = ctx.rng.log(0.5, 60.0) * ctx.rng.dir();
        def.angular_velocity = if ctx.rng.chance(0.5) { 0.0 } else { ctx.rng.f(-20.0, 20.0) };
        let b = sim.add(def);
        let (hx, hy) = (ctx.rng.f(0.2, 1.5), ctx.rng.f(0.05, 0.3));
        let s: ShapeDefPtr = if ctx.rng.chance(0.6) { rc(bx_at(hx, hy, ctx.rng.vec(0.3), 0.0)) } else { rc(edge2(b2v(-hx, 0.0), b2v(hx, hy))) };
        let k = s.borrow().get_type();
        sim.fixture(b, &s, if k == B2ShapeType::EPolygon { Kind::Poly } else { Kind::Edge }, &fx);
        pads.push(b);
    }
    for _ in 0..ctx.rng.int(1, 5) {
        let mut def = Sim::def(DYNAMIC, ctx.rng.vec(0.7 * size), ctx.rng.angle());
        def.linear_velocity = ctx.rng.log(5.0, 120.0) * ctx.rng.dir();
        def.bullet = ctx.rng.chance(0.4);
        let b = sim.add(def);
        let r = ctx.rng.f(0.1, 0.4);
        if ctx.rng.chance(0.5) { sim.fixture(b, &rc(circle(b2v(0.0, 0.0), r)), Kind::Circle, &fx); } else { sim.fixture(b, &rc(bx(r, r)), Kind::Poly, &fx); }
    }
    if ctx.rng.chance(0.7) {
        let mut k = ctx.rng.int(0, 1 << 30) as u32;
        sim.ev.borrow_mut().pre_hook = Some(Box::new(move |c, _| { k = k.wrapping_mul(1664525).wrapping_add(1013904223); if k >> 31 == 0 { c.set_enabled(false); } }));
        ctx.hit("some_disabled");
    }
    let s0 = st(&sim.b(walls));
    for n in 0..ctx.rng.int(10, 30) {
        let dt = *ctx.rng.pick(&[1.0f32 / 60.0, 1.0 / 30.0, 1.0 / 120.0]);
        let before: Vec<St> = pads.iter().map(|b| st(&sim.b(*b))).collect();
        // throw a dynamic body again now and then
        if ctx.rng.chance(0.3) { let i = sim.bodies.len() - 1; let v = ctx.rng.log(5.0, 120.0) * ctx.rng.dir(); sim.b(i).borrow_mut().set_linear_velocity(v); }
        sim.step_dt(dt);
        ctx.evals += 1;
        let h = dt as f64;
        let touched = sim.take_events().iter().any(|e| matches!(e, Ev::Begin(..)));
        for (b, s) in pads.iter().zip(before.iter()) {
            let r = st(&sim.b(*b));
            let (v, w) = (lim(s.v, h), lim_w(s.w, h));
            ctx.check((r.v - v).len() <= 1e-6 * (1.0 + v.len()) && (r.w - w).abs() <= 1e-6 * (1.0 + w.abs()), || format!("step {}: kinematic velocity {:?} {} became {:?} {}", n, s.v, s.w, r.v, r.w));
            ctx.check((r.c - s.c - v * h).len() <= 1e-5 * (1.0 + s.c.len()) && (r.a - s.a - w * h).abs() <= 1e-5 * (1.0 + s.a.abs()), || format!("step {}: a kinematic body with velocity {:?} {} went from {:?} {} to {:?} {} in {}", n, s.v, s.w, s.c, s.a, r.c, r.a, h));
            // and the place it reports is the place its centre says
            ctx.check((r.p - r.c).len() <= 1e-6, || format!("step {}: a kinematic body is at {:?} with its centre at {:?}", n, r.p, r.c));
            ctx.hit(if touched { "paddle_step_touching" } else { "paddle_step" });
        }
        let r = st(&sim.b(walls));
        ctx.check(r.p.x == s0.p.x && r.p.y == s0.p.y && r.a == s0.a && r.v.len() == 0.0 && r.w == 0.0, || format!("step {}: the static walls moved", n));
        if ctx.failed() { return; }
    }
    ctx.distinct(sim.state_hash());
}
/// a body in touch with others changes type and then behaves as its new type
/// changing the type there and back before a step: what was asked of the old body is forgotten
fn c23_flip(ctx: &mut Ctx) {
    let mut sim = Sim::new(ctx.rng.vec(10.0));
    let fx = Fx::mat(ctx.rng.log(0.5, 5.0), 0.5, 0.0);
    let (p, a) = (ctx.rng.vec(10.0), ctx.rng.angle());
    let x = sim.box_body(DYNAMIC, p, a, 0.5, ctx.rng.f(0.2, 2.0), &fx);
    for _ in 0..ctx.rng.int(0, 3) { sim.step(); }
    let (v, w) = (ctx.rng.vec(5.0), ctx.rng.f(-3.0, 3.0));
    let body = sim.b(x);
    body.borrow_mut().set_linear_velocity(v);
    body.borrow_mut().set_angular_velocity(w);
    let f = ctx.rng.vec(300.0);
    match ctx.rng.below(3) {
        0 => body.borrow_mut().apply_force_to_center(f, true),
        1 => body.borrow_mut().apply_torque(f.x, true),
        _ => { let at = body.borrow().get_position() + ctx.rng.vec(1.0); body.borrow_mut().apply_force(f, at, true); }
    }
    if ctx.rng.chance(0.3) { body.borrow_mut().set_awake(false); body.borrow_mut().set_linear_velocity(v); body.borrow_mut().set_angular_velocity(w); }
    let mut still = false;
    for _ in 0..ctx.rng.int(1, 3) {
        let t = *ctx.rng.pick(&[STATIC, KINEMATIC]);
        B2body::set_type(body.clone(), t);
        let s = st(&body);
        still |= t == STATIC;
        let want = if still { (Z, 0.0) } else { (d(v), w as f64) };
        ctx.check((s.v - want.0).len() < 1e-6 && s.w == want.1 && s.m == 0.0, || format!("made {:?}: velocity {:?} {} expected {:?}, mass {}", t, s.v, s.w, want, s.m));
        ctx.check(body.borrow().is_awake() == (t != STATIC), || format!("made {:?}, awake: {}", t, body.borrow().is_awake()));
        if t == STATIC {
            let k = ctx.rng.below(3);
            let mut q = body.borrow_mut();
            match k { 0 => q.set_awake(true), 1 => { q.set_linear_velocity(v); q.set_angular_velocity(w) } _ => q.apply_linear_impulse_to_center(f, true) }
            drop(q);
            let s = st(&body);
            ctx.check(s.v.len() == 0.0 && s.w == 0.0 && !body.borrow().is_awake(), || format!("a static body has velocity {:?} {} and is awake: {}", s.v, s.w, body.borrow().is_awake()));
        }
    }
    B2body::set_type(body.clone(), DYNAMIC);
    let s = st(&body);
    sim.step();
    let (r, h, g) = (st(&body), sim.dt as f64, d(sim.w.borrow().get_gravity()));
    let v1 = s.v + g * h;
    ctx.check((r.v - v1).len() < 1e-4 && (r.w - s.w).abs() < 1e-4 && (r.c - s.c - v1 * h).len() < 1e-4, || format!("after changing the type to and fro a body of mass {} goes from {:?} {} to {:?} {} in a step, expected velocity {:?}", r.m, s.v, s.w, r.v, r.w, v1));
    ctx.check(body.borrow().is_awake(), || "asleep".into());
    ctx.hit("flip");
    ctx.distinct(hash_f(&[v.x, v.y, w, f.x]));
}
fn c23_change(ctx: &mut Ctx) {
    let g = b2v(0.0, -10.0);
    let mut sim = Sim::new(g);
    let fx = Fx::mat(ctx.rng.log(0.5, 5.0), 0.5, 0.0);
    sim.ground(0.0, 50.0, &fx);
    let types = [DYNAMIC, KINEMATIC, STATIC];
    let t0 = *ctx.rng.pick(&types);
    let x = sim.box_body(t0, b2v(0.0, 0.5), 0.0, 0.5, 0.5, &fx);
    let neighbour = *ctx.rng.pick(&types);
    let y = sim.box_body(neighbour, b2v(ctx.rng.f(0.8, 1.0), 0.5), 0.0, 0.5, 0.5, &fx);
    let on_top = ctx.rng.chance(0.5);
    if on_top { sim.box_body(DYNAMIC, b2v(0.0, 1.45), 0.0, 0.4, 0.4, &fx); }
    for _ in 0..ctx.rng.int(0, 30) { sim.step(); }
    if t0 != STATIC && ctx.rng.chance(0.7) {
        let v = ctx.rng.vec(3.0);
        sim.b(x).borrow_mut().set_linear_velocity(v);
        let w = ctx.rng.f(-2.0, 2.0);
        sim.b(x).borrow_mut().set_angular_velocity(w);
        if ctx.rng.chance(0.5) { sim.step(); }
    }
    sim.b(x).borrow_mut().apply_force_to_center(b2v(500.0, 300.0), true);
    sim.take_events();
    let t1 = *ctx.rng.pick(&types);
    let s = st(&sim.b(x));
    let touching: Vec<_> = sim.contacts().iter().filter(|c| c.borrow().get_base().is_touching()).map(|c| norm_key(contact_key(c.borrow().get_base()))).collect();
    B2body::set_type(sim.b(x), t1);
    ctx.check(sim.b(x).borrow().get_type() == t1, || "type reads back wrong".into());
    ctx.hit(match (t0, t1) {
        (B2bodyType::B2DynamicBody, B2bodyType::B2StaticBody) => "dynamic_to_static",
        (B2bodyType::B2DynamicBody, B2bodyType::B2KinematicBody) => "dynamic_to_kinematic",
        (B2bodyType::B2KinematicBody, B2bodyType::B2DynamicBody) => "kinematic_to_dynamic",
        (B2bodyType::B2KinematicBody, B2bodyType::B2StaticBody) => "kinematic_to_static",
        (B2bodyType::B2StaticBody, B2bodyType::B2DynamicBody) => "static_to_dynamic",
        (B2bodyType::B2StaticBody, B2bodyType::B2KinematicBody) => "static_to_kinematic",
        _ => "same_type",
    });
    let r = st(&sim.b(x));
    ctx.check((r.p - s.p).len() == 0.0 && r.a == s.a, || format!("changing the type moved the body from {:?} to {:?}", s.p, r.p));
    ctx.check((r.m > 0.0) == (t1 == DYNAMIC) && (r.i > 0.0) == (t1 == DYNAMIC), || format!("mass {} inertia {} after changing to {:?}", r.m, r.i, t1));
    if t1 == STATIC { ctx.check(r.v.len() == 0.0 && r.w == 0.0, || format!("velocity {:?} {} after becoming static", r.v, r.w)); }
    else { ctx.check((r.v - s.v).len() < 1e-6 && r.w == s.w, || format!("velocity {:?} {} became {:?} {} by changing from {:?} to {:?}", s.v, s.w, r.v, r.w, t0, t1)); }
    if t0 == t1 { return; }
    let fid = sim.bodies[x].f[0].id;
    // no contact of the old kind survives, each touching one is announced as ended
    for c in sim.contacts() {
        let k = contact_key(c.borrow().get_base());
        ctx.check(k.0 != fid && k.2 != fid, || format!("contact {:?} survived the type change", k));
    }
    let ended: Vec<_> = sim.take_events().iter().filter_map(|e| if let Ev::End(k, _) = e { Some(norm_key(*k)) } else { None }).collect();
    for k in touching.iter().filter(|k| k.0 == fid || k.2 == fid) {
        ctx.check(ended.contains(k), || format!("touching contact {:?} vanished by the type change without an end event", k));
    }
    if ctx.failed() { return; }
    // the pending force died with the old type; the new type's rules hold from the first step
    let pos0 = st(&sim.b(x));
    sim.step();
    let h = sim.dt as f64;
    let r = st(&sim.b(x));
    for c in sim.contacts() {
        let q = c.borrow();
        let (a, b) = (q.get_base().get_fixture_a().borrow().get_body(), q.get_base().get_fixture_b().borrow().get_body());
        ctx.check(a.borrow().get_type() == DYNAMIC || b.borrow().get_type() == DYNAMIC, || "contact between two bodies neither of which is dynamic".into());
    }
    let other = if let Some(f) = sim.bodies[y].f.get(0) { f.id } else { 0 };
    let with_y = sim.contacts().iter().any(|c| { let k = contact_key(c.borrow().get_base()); (k.0, k.2) == (fid, other) || (k.2, k.0) == (fid, other) });
    let near = (st(&sim.b(x)).p - st(&sim.b(y)).p).len() < 0.95;
    if near && (t1 == DYNAMIC || neighbour == DYNAMIC) { ctx.check(with_y, || format!("{:?} body overlapping a {:?} has no contact after the type change", t1, neighbour)); ctx.hit("contact_back"); }
    match t1 {
        B2bodyType::B2StaticBody => { ctx.check(r.p.x == pos0.p.x && r.p.y == pos0.p.y && r.a == pos0.a, || "a body made static moved".into()); }
        B2bodyType::B2KinematicBody => { ctx.check((r.c - pos0.c - pos0.v * h).len() < 3e-6 * (1.0 + pos0.c.len()) && (r.v - pos0.v).len() == 0.0, || format!("a body made kinematic moved from {:?} to {:?} with velocity {:?}", pos0.c, r.c, pos0.v)); }
        _ => {
            // the force of 500 N would show as a velocity change of several m/s
            ctx.check((r.v - pos0.v).x.abs() < 0.5 + 1.2 * pos0.v.len() + 3.0 * pos0.w.abs() || near || on_top, || format!("a force applied before the type change still acts: {:?} to {:?}", pos0.v, r.v));
            ctx.check(r.m > 0.0, || "no mass".into());
        }
    }
    // in the air it falls, hangs or glides
    let far = b2v(20.0, 30.0);
    sim.b(x).borrow_mut().set_transform(far, 0.0);
    sim.b(x).borrow_mut().set_linear_velocity(b2v(0.0, 0.0));
    sim.b(x).borrow_mut().set_angular_velocity(0.0);
    sim.b(x).borrow_mut().set_awake(true);
    let p0 = st(&sim.b(x)).p;
    for _ in 0..6 { sim.step(); }
    let r = st(&sim.b(x));
    let fell = p0.y - r.p.y;
    let expect = if t1 == DYNAMIC { 10.0 * h * h * 21.0 } else { 0.0 };
    ctx.check((fell - expect).abs() < 1e-4, || format!("a {:?} (was {:?}) fell {} in six steps, expected {}", t1, t0, fell, expect));
    ctx.distinct(hash_f(&[r.p.x as f32, r.p.y as f32, pos0.v.x as f32, t0 as i32 as f32, t1 as i32 as f32, pos0.p.x as f32]));
}

// ------------------------------------------------------------------------------------------------ C24

fn momentum(sim: &Sim) -> (V, f64, f64, f64) {
    let (mut p, mut l, mut sc, mut ls) = (Z, 0.0, 0.0f64, 0.0f64);
    for b in sim.bodies.iter() {
        let s = st(&b.p);
        p = p + s.v * s.m;
        l += s.c.cross(s.v) * s.m + s.i * s.w;
        sc += s.m * s.v.len();
        ls += s.m * s.v.len() * s.c.len() + s.i * s.w.abs();
    }
    (p, l, sc, ls)
}
fn energy(sim: &Sim) -> f64 {
    sim.bodies.iter().map(|b| { let s = st(&b.p); 0.5 * s.m * s.v.dot(s.v) + 0.5 * s.i * s.w * s.w }).sum()
}
fn closed_scene(ctx: &mut Ctx, n: usize, rest: bool, fric: bool) -> Sim {
    let mut sim = Sim::new(b2v(0.0, 0.0));
    let r = 0.45 * (n as f32).sqrt() + 0.5;
    let sp = *ctx.rng.pick(&[0.5f32, 3.0, 10.0]);
    for _ in 0..n {
        let mut def = Sim::def(DYNAMIC, ctx.rng.vec(r), ctx.rng.angle());
        // head for the middle, so that bodies meet
        def.linear_velocity = -ctx.rng.f(0.0, sp) * def.position + ctx.rng.vec(1.0);
        def.angular_velocity = ctx.rng.f(-3.0, 3.0);
        def.fixed_rotation = ctx.rng.chance(0.1);
        if def.fixed_rotation { def.angular_velocity = 0.0; }
        def.bullet = ctx.rng.chance(0.2);
        let b = sim.add(def);
        for _ in 0..*ctx.rng.pick(&[1usize, 1, 1, 2]) {
            let k = solid_kind(&mut ctx.rng);
            let size = ctx.rng.log(0.25, 0.7);
            let s = shape(&mut ctx.rng, k, size);
            let fx = Fx::mat(ctx.rng.log(0.3, 3.0), if fric && ctx.rng.chance(0.8) { ctx.rng.f(0.0, 1.5) } else { 0.0 }, if rest && ctx.rng.chance(0.5) { ctx.rng.f(0.0, 1.0) } else { 0.0 });
            sim.fixture(b, &s, k, &fx);
        }
    }
    sim
}
fn c24_case(ctx: &mut Ctx) {
    let n = ctx.rng.int(2, 8) as usize;
    let mut sim = closed_scene(ctx, n, true, true);
    let kinds = [JK::Distance, JK::Friction, JK::Motor, JK::Revolute, JK::Prismatic, JK::Weld, JK::Wheel];
    let nj = if ctx.rng.chance(0.4) { 0 } else { ctx.rng.int(1, 3) };
    for _ in 0..nj {
        let a = ctx.rng.below(n);
        let b = (a + 1 + ctx.rng.below(n - 1)) % n;
        if sim.joints.iter().any(|j| (j.a, j.b) == (sim.bodies[a].id, sim.bodies[b].id) || (j.b, j.a) == (sim.bodies[a].id, sim.bodies[b].id)) { continue; }
        let k = *ctx.rng.pick(&kinds);
        make_joint(&mut sim, &mut ctx.rng, k, a, b);
    }
    let cont = ctx.rng.chance(0.4);
    sim.w.borrow_mut().set_continuous_physics(cont);
    sim.w.borrow_mut().set_allow_sleeping(false);
    let ws = ctx.rng.chance(0.8);
    sim.w.borrow_mut().set_warm_starting(ws);
    sim.vi = ctx.rng.int(1, 10);
    for n in 0..30 {
        sim.dt = *ctx.rng.pick(&[1.0f32 / 60.0, 1.0 / 60.0, 1.0 / 50.0, 1.0 / 120.0]);
        if ctx.rng.chance(0.1) && !sim.joints.is_empty() {
            let j = ctx.rng.below(sim.joints.len());
            tweak_joint(&mut sim, &mut ctx.rng, j);
        }
        let (p0, l0, _, ls0) = momentum(&sim);
        let pre: Vec<St> = sim.bodies.iter().map(|b| st(&b.p)).collect();
        let err: Vec<f64> = sim.joints.iter().map(|j| { let q = j.p.borrow(); (d(q.get_anchor_a()) - d(q.get_anchor_b())).len() }).collect();
        let any_damped = false;
        sim.step();
        if sim.wild() || sim.all_finite().is_err() { ctx.hit("skipped: random joints diverged"); return; }
        let evs = sim.take_events();
        let imp: f64 = evs.iter().filter_map(|e| if let Ev::Post(_, p) = e { Some(p.normal.iter().chain(p.tangent.iter()).map(|x| x.abs() as f64).sum::<f64>()) } else { None }).sum();
        let h = sim.dt as f64;
        // limited speeds lose momentum by design
        // (with continuous collision a limited body may have been stopped later in the step)
        let fr = if cont { 0.2 } else { 0.99 };
        if sim.bodies.iter().any(|b| { let s = st(&b.p); s.v.len() * h > MAX_T * fr || s.w.abs() * h > MAX_R * fr }) { ctx.hit("skipped: speed limited"); return; }
        ctx.evals += 1;
        let (p1, _, sc, _) = momentum(&sim);
        let jimp: f64 = sim.joints.iter().map(|j| d(j.p.borrow().get_reaction_force(1.0 / sim.dt)).len() * h).sum();
        let scale = sc + imp * (1.0 + sim.vi as f64) + jimp * (1.0 + sim.vi as f64);
        ctx.check((p1 - p0).len() <= 3e-6 * scale + 1e-6, || format!("step {}: momentum {:?} became {:?} (scale {}, joints {:?}, continuous {}, velocities {:?} before, {:?} after)", n, p0, p1, scale, sim.joints.iter().map(|j| j.kind).collect::<Vec<_>>(), cont, pre.iter().map(|s| (s.v, s.w)).collect::<Vec<_>>(), sim.bodies.iter().map(|b| { let s = st(&b.p); (s.v, s.w) }).collect::<Vec<_>>()));
        if imp > 0.0 { ctx.hit("contact_step"); }
        if jimp > 0.0 { ctx.hit("joint_step"); }
        if imp > 0.0 && jimp > 0.0 { ctx.hit("contact_and_joint_step"); }
        // angular momentum: new velocities at the positions where the impulses acted
        let offset_joint = sim.joints.iter().any(|j| matches!(j.kind, JK::Friction | JK::Motor));
        let fixed = sim.bodies.iter().any(|b| b.p.borrow().is_fixed_rotation());
        if !cont && !offset_joint && !fixed && !any_damped {
            let mut l1 = 0.0;
            let mut ls = ls0;
            for (k, b) in sim.bodies.iter().enumerate() {
                let s = st(&b.p);
                l1 += pre[k].c.cross(s.v) * s.m + s.i * s.w;
                ls += s.m * s.v.len() * pre[k].c.len() + s.i * s.w.abs();
            }
            let mut slack = 0.0;
            for (k, j) in sim.joints.iter().enumerate() {
                let q = j.p.borrow();
                let f = d(q.get_reaction_force(1.0 / sim.dt)).len() * h;
                // anchors that have drifted apart make the pair of forces a couple
                slack += f * match j.kind { JK::Distance | JK::Prismatic | JK::Wheel => 1e-4 * (1.0 + err[k]), _ => err[k] * 1.05 + 1e-5 };
            }
            let tol = 1e-5 * (ls + (imp + jimp) * (3.0 + sim.vi as f64) * 3.0) + slack + 1e-6;
            ctx.check((l1 - l0).abs() <= tol, || format!("step {}: angular momentum {} became {} (tolerance {}, joints {:?})", n, l0, l1, tol, sim.joints.iter().map(|j| j.kind).collect::<Vec<_>>()));
            ctx.max("angular_err_over_tol", (l1 - l0).abs() / tol);
            ctx.hit("angular_step");
            if imp > 0.0 { ctx.hit("angular_contact_step"); }
        }
        ctx.max("linear_err_over_tol", (p1 - p0).len() / (3e-6 * scale + 1e-6));
        if ctx.failed() { return; }
    }
    ctx.distinct(sim.state_hash());
}
fn c24_energy(ctx: &mut Ctx) {
    let n = if ctx.rng.chance(0.5) { 2 } else { ctx.rng.int(3, 6) as usize };
    // bouncing is judged without friction and one point at a time: elsewhere the law of restitution itself may add energy
    let rest = ctx.rng.chance(0.5);
    let fric = !rest && ctx.rng.chance(0.6);
    let mut sim = closed_scene(ctx, n, rest, fric);
    let cont = !rest && ctx.rng.chance(0.4);
    sim.w.borrow_mut().set_continuous_physics(cont);
    sim.w.borrow_mut().set_allow_sleeping(false);
    let warm = ctx.rng.chance(0.5);
    sim.w.borrow_mut().set_warm_starting(warm);
    sim.vi = 20;
    for n in 0..40 {
        let e0 = energy(&sim);
        let pre: Vec<St> = sim.bodies.iter().map(|b| st(&b.p)).collect();
        sim.step();
        ctx.evals += 1;
        let e1 = energy(&sim);
        let points: Vec<usize> = sim.take_events().iter().filter_map(|e| if let Ev::Post(_, p) = e { Some(p.count) } else { None }).collect();
        if !points.is_empty() { ctx.hit("energy_contact_step"); }
        if e1 < 0.98 * e0 { ctx.hit("energy_lost"); }
        let tol = if rest { if points.len() > 1 || points.iter().any(|c| *c > 1) { continue } ctx.hit("single_bounce_step"); 1e-4 } else if !fric && !warm { ctx.hit("monotone_step"); 1e-3 } else if sim.bodies.len() == 2 { 0.15 } else { 1.0 };
        ctx.max(&format!("energy_gain_{}{}{}", if sim.bodies.len() == 2 { "pair" } else { "group" }, if rest { "_bouncing" } else { "" }, if fric { "_friction" } else if !warm { "_cold" } else { "" }), (e1 - e0) / (e0 + 1e-2));
        ctx.check(e1 <= e0 * (1.0 + tol) + 1e-2 * tol, || format!("step {}: kinetic energy {} became {} ({} bodies, restitution {}, friction {}, states {:?})", n, e0, e1, sim.bodies.len(), rest, fric, pre));
        if ctx.failed() { return; }
    }
    ctx.distinct(sim.state_hash());
}

// ------------------------------------------------------------------------------------------------ C25

/// reads one complete step: gathers pre-solve geometry and post-solve impulses and checks them against the motion
struct PairObs {
    key: Key,
    pts: Vec<(V, V, f64, f64)>, // point, normal, normal impulse, tangent impulse
    friction: f64,
}
fn observe(sim: &Sim, evs: &[Ev], fr: &HashMap<Key, f64>) -> Vec<PairObs> {
    let mut pre: HashMap<Key, PreInfo> = HashMap::new();
    let mut out = vec![];
    for e in evs {
        match e {
            Ev::Pre(k, i) => { pre.insert(*k, i.clone()); }
            Ev::Post(k, i) => {
                let p = match pre.get(k) { Some(p) => p, None => continue };
                let (ra, rb) = (radius(sim, k.0), radius(sim, k.2));
                let w = world_manifold(&p.manifold, p.xa, ra, p.xb, rb);
                let n = d(w.normal);
                let pts = (0..i.count).map(|j| (d(w.points[j]), n, i.normal[j] as f64, i.tangent[j] as f64)).collect();
                out.push(PairObs { key: *k, pts, friction: fr.get(k).copied().unwrap_or(i.friction as f64) });
            }
            _ => {}
        }
    }
    out
}
fn radius(sim: &Sim, id: u32) -> f64 {
    let (b, f) = sim.find_fixture(id).unwrap();
    let q = sim.bodies[b].f[f].p.borrow();
    let r = q.get_shape().get_base().m_radius;
    r as f64
}
fn vel_at(s: &St, c: V, p: V) -> V {
    let r = p - c;
    s.v + V { x: -s.w * r.y, y: s.w * r.x }
}
/// expected velocity before constraints act
fn unconstrained(s: &St, b: &B2body<UD>, g: V, f: V, tq: f64, h: f64) -> (V, f64) {
    if b.get_type() != DYNAMIC { return (s.v, s.w); }
    let mut v = s.v;
    let mut w = s.w;
    if s.m > 0.0 { v = v + (g * b.get_gravity_scale() as f64 + f * (1.0 / s.m)) * h; }
    if s.i > 0.0 { w += h * tq / s.i; }
    (v * (1.0 / (1.0 + h * b.get_linear_damping() as f64)), w / (1.0 + h * b.get_angular_damping() as f64))
}
fn account(ctx: &mut Ctx, sim: &Sim, obs: &[PairObs], pre: &[St], un: &[(V, f64)], vi: f64) {
    let n = sim.bodies.len();
    let mut dp = vec![Z; n];
    let mut dl = vec![0.0f64; n];
    let mut sc = vec![0.0f64; n];
    for o in obs {
        let (a, b) = (sim.find_fixture(o.key.0).unwrap().0, sim.find_fixture(o.key.2).unwrap().0);
        for (p, nn, ni, ti) in o.pts.iter() {
            let t = V { x: nn.y, y: -nn.x };
            let imp = *nn * *ni + t * *ti;
            dp[a] = dp[a] - imp;
            dl[a] -= (*p - pre[a].c).cross(imp);
            dp[b] = dp[b] + imp;
            dl[b] += (*p - pre[b].c).cross(imp);
            sc[a] += imp.len() * (1.0 + (*p - pre[a].c).len());
            sc[b] += imp.len() * (1.0 + (*p - pre[b].c).len());
        }
    }
    // impulses that cancel between iterations leave rounding behind
    let peak: f64 = (0..n).map(|i| pre[i].m * (un[i].0.len() + pre[i].v.len())).sum();
    for i in 0..n {
        let s = st(&sim.bodies[i].p);
        if pre[i].m == 0.0 { continue; }
        let ev = un[i].0 + dp[i] * (1.0 / pre[i].m);
        let tol = 1e-4 * (1.0 + ev.len() + un[i].0.len() + vi * sc[i] / pre[i].m) + 1e-6 * peak / pre[i].m;
        ctx.check((s.v - ev).len() <= tol, || format!("body {}: velocity {:?} after the step, but {:?} plus the reported impulses gives {:?} (mass {})", sim.bodies[i].id, s.v, un[i].0, ev, pre[i].m));
        ctx.max("account_err_over_tol", (s.v - ev).len() / tol);
        if pre[i].i > 0.0 {
            let ew = un[i].1 + dl[i] / pre[i].i;
            let tw = 4e-4 * (1.0 + ew.abs() + vi * sc[i] / pre[i].i) + 1e-6 * peak / pre[i].i;
            ctx.check((s.w - ew).abs() <= tw, || format!("body {}: spin {} after the step, but {} plus the reported impulses gives {}", sim.bodies[i].id, s.w, un[i].1, ew));
        } else {
            ctx.check((s.w - un[i].1).abs() <= 1e-5 * (1.0 + s.w.abs()), || format!("body {} cannot turn but its spin went from {} to {}", sim.bodies[i].id, un[i].1, s.w));
        }
    }
}
fn c25_pair(ctx: &mut Ctx) {
    let g = if ctx.rng.chance(0.7) { b2v(0.0, -10.0) } else { b2v(0.0, 0.0) };
    let mut sim = Sim::new(g);
    sim.w.borrow_mut().set_continuous_physics(false);
    sim.w.borrow_mut().set_allow_sleeping(false);
    sim.vi = 200;
    let mu = *ctx.rng.pick(&[0.0f32, 0.1, 0.5, 1.0, 3.0]);
    let f1 = Fx::mat(ctx.rng.log(0.2, 5.0), mu, 0.0);
    let mut f2 = Fx::mat(ctx.rng.log(0.2, 5.0), if ctx.rng.chance(0.5) { mu } else { ctx.rng.f(0.0, 1.0) }, 0.0);
    if ctx.rng.chance(0.4) { f2.restitution = ctx.rng.f(0.0, 1.0); f2.threshold = ctx.rng.f(0.1, 2.0); }
    let (rest, thr) = (f2.restitution as f64, f1.threshold.min(f2.threshold) as f64);
    // a base of any type below, a body lying on or meeting it
    let base_type = *ctx.rng.pick(&[STATIC, STATIC, KINEMATIC, DYNAMIC]);
    let tilt = if ctx.rng.chance(0.5) { 0.0 } else { ctx.rng.f(-0.6, 0.6) };
    let base = {
        let def = Sim::def(base_type, b2v(0.0, 0.0), tilt);
        let b = sim.add(def);
        match ctx.rng.below(4) {
            0 => { let s = rc(edge2(b2v(-6.0, 0.0), b2v(6.0, 0.0))); sim.fixture(b, &s, Kind::Edge, &f1); if base_type == DYNAMIC { let s = rc(bx_at(6.0, 0.2, b2v(0.0, -0.4), 0.0)); sim.fixture(b, &s, Kind::Poly, &f1); } }
            1 => { let s = rc(circle(b2v(0.0, -3.0), 3.0)); sim.fixture(b, &s, Kind::Circle, &f1); }
            _ => { let s = rc(bx_at(6.0, 0.5, b2v(0.0, -0.5), 0.0)); sim.fixture(b, &s, Kind::Poly, &f1); }
        }
        b
    };
    let up = d(b2v(-tilt.sin(), tilt.cos()));
    let body = {
        let k = ctx.rng.below(3);
        let (s, kind, off): (ShapeDefPtr, Kind, f32) = match k {
            0 => { let r = ctx.rng.f(0.2, 0.8); (rc(circle(b2v(0.0, 0.0), r)), Kind::Circle, r) }
            1 => { let (a, b) = (ctx.rng.f(0.2, 1.0), ctx.rng.f(0.2, 0.8)); (rc(bx(a, b)), Kind::Poly, b) }
            _ => { let size = ctx.rng.f(0.3, 0.8); let s = poly(&mut ctx.rng, size); let lo = s.m_vertices[..s.m_count].iter().fold(0.0f32, |m, v| m.max(-v.y)); (rc(s), Kind::Poly, lo) }
        };
        let gap = ctx.rng.f(-0.01, 0.015);
        let p = up * (off + gap) as f64;
        let mut def = Sim::def(DYNAMIC, b2(p), if k == 0 { ctx.rng.angle() } else { tilt });
        let vt = ctx.rng.f(-4.0, 4.0);
        let vn = if ctx.rng.chance(0.5) { 0.0 } else { ctx.rng.f(-3.0, 0.5) };
        def.linear_velocity = b2(up * vn as f64 + V { x: up.y, y: -up.x } * vt as f64);
        def.angular_velocity = if ctx.rng.chance(0.5) { 0.0 } else { ctx.rng.f(-3.0, 3.0) };
        def.fixed_rotation = ctx.rng.chance(0.15);
        if def.fixed_rotation { def.angular_velocity = 0.0; }
        let b = sim.add(def);
        sim.fixture(b, &s, kind, &f2);
        b
    };
    if base_type != STATIC {
        let v = ctx.rng.vec(1.0);
        sim.b(base).borrow_mut().set_linear_velocity(v);
        if ctx.rng.chance(0.3) { let w = ctx.rng.f(-0.5, 0.5); sim.b(base).borrow_mut().set_angular_velocity(w); }
    }
    let speed = if ctx.rng.chance(0.4) { ctx.rng.f(-3.0, 3.0) } else { 0.0 };
    let over = if ctx.rng.chance(0.3) { Some(ctx.rng.f(0.0, 1.0)) } else { None };
    sim.ev.borrow_mut().pre_hook = Some(Box::new(move |c, _| { c.set_tangent_speed(speed); if let Some(f) = over { c.set_friction(f); } }));
    let emu = over.map_or(((f1.friction * f2.friction) as f64).sqrt(), |x| x as f64);
    let h = sim.dt as f64;
    let mut hs = vec![];
    for n in 0..ctx.rng.int(2, 12) {
        let pre: Vec<St> = sim.bodies.iter().map(|b| st(&b.p)).collect();
        let mut un = vec![];
        for (i, b) in sim.bodies.iter().enumerate() {
            let (mut f, mut tq) = (Z, 0.0);
            if ctx.rng.chance(0.4) && b.p.borrow().get_type() == DYNAMIC {
                let fv = ctx.rng.vec(8.0 * pre[i].m as f32);
                b.p.borrow_mut().apply_force_to_center(fv, true);
                f = d(fv);
                if ctx.rng.chance(0.3) { let t = ctx.rng.f(-5.0, 5.0) * pre[i].i as f32; b.p.borrow_mut().apply_torque(t, true); tq = t as f64; }
            }
            un.push(unconstrained(&pre[i], &b.p.borrow(), d(g), f, tq, h));
        }
        sim.step();
        let evs = sim.take_events();
        let obs = observe(&sim, &evs, &HashMap::new());
        if ctx.verbose { for o in obs.iter() { println!("   {:?} mu {} {:?}", o.key, o.friction, o.pts); } }
        ctx.evals += 1;
        account(ctx, &sim, &obs, &pre, &un, 4.0);
        if base_type == DYNAMIC && obs.is_empty() { continue; }
        for o in obs.iter() {
            ctx.hit(if o.pts.len() == 2 { "two_points" } else { "one_point" });
            ctx.check((o.friction - emu).abs() <= 1e-5 * (1.0 + emu), || format!("contact friction is {}, expected {}", o.friction, emu));
            let (a, b) = (sim.find_fixture(o.key.0).unwrap().0, sim.find_fixture(o.key.2).unwrap().0);
            let (sa, sb) = (st(&sim.bodies[a].p), st(&sim.bodies[b].p));
            let mmin = [&sa, &sb].iter().filter(|s| s.m > 0.0).map(|s| s.m).fold(1e30, f64::min);
            let itot: f64 = o.pts.iter().map(|q| q.2.abs() + q.3.abs()).sum();
            // where friction strongly loads or unloads the normal force the iteration need not converge
            let mut couple = 0.0f64;
            for (p, nn, _, _) in o.pts.iter() {
                let t = V { x: nn.y, y: -nn.x };
                let (mut kn, mut kc) = (0.0, 0.0);
                for (s, c) in &[(&sa, pre[a].c), (&sb, pre[b].c)] {
                    if s.m > 0.0 {
                        kn += 1.0 / s.m;
                        if s.i > 0.0 { let r = *p - *c; kn += r.cross(*nn).powi(2) / s.i; kc += r.cross(*nn) * r.cross(t) / s.i; }
                    }
                }
                couple = couple.max(emu * kc.abs() / kn);
            }
            let strict = couple < if o.pts.len() == 2 { 0.3 } else { 0.6 };
            ctx.hit(if strict { "strict" } else { "loose" });
            let (sn, stt): (f64, f64) = (o.pts.iter().map(|q| q.2).sum(), o.pts.iter().map(|q| q.3).sum());
            ctx.check(!strict || stt.abs() <= emu * sn * 1.05 + 1e-4 * itot + 1e-5 * mmin, || format!("step {}: total friction impulse {} exceeds {} × {} ", n, stt, emu, sn));
            for (p, nn, ni, ti) in o.pts.iter() {
                ctx.check(*ni >= 0.0, || format!("step {}: normal impulse {} pulls", n, ni));
                ctx.check(!strict || (o.pts.len() == 2 && emu > 0.6) || ti.abs() <= emu * ni * 1.03 + 1e-4 * itot + 1e-5 * mmin, || format!("step {}: friction impulse {} exceeds {} × {} ", n, ti, emu, ni));
                // relative velocity at the point, using the positions at the start of the step
                let t = V { x: nn.y, y: -nn.x };
                let rel = vel_at(&sb, pre[b].c, *p) - vel_at(&sa, pre[a].c, *p);
                let (vn, vt) = (rel.dot(*nn), rel.dot(t));
                let vs = 1.0 + pre[a].v.len() + pre[b].v.len();
                let tol = 3e-3 * vs;
                // a point that met the other faster than the threshold is to leave
                let at = |i: usize| { let r = *p - pre[i].c; un[i].0 + V { x: -r.y, y: r.x } * un[i].1 };
                let v0 = (at(b) - at(a)).dot(*nn);
                if rest > 0.0 && (v0 + thr).abs() < 1e-3 * vs { ctx.hit("borderline"); continue; }
                let leave = if rest > 0.0 && v0 < -thr { ctx.hit("bounced"); -rest * v0 } else { 0.0 };
                let vn = vn - leave;
                ctx.check(!strict || vn >= -tol, || format!("step {}: contact point still approaches at {} (normal impulse {})", n, vn, ni));
                ctx.max("approach", -vn);
                if *ni > 1e-3 * mmin && strict { ctx.check(vn <= tol, || format!("step {}: normal impulse {} although the point separates at {}", n, ni, vn)); ctx.hit("pressing"); }
                // friction: the tangential velocity of B relative to A aims at −surface speed along the tangent
                let slip = vt - speed as f64;
                if strict {
                    let sat = ti.abs() >= emu * ni * 0.995 - 1e-4 * mmin;
                    if !sat {
                        ctx.check(slip.abs() <= 1e-2 * vs, || format!("step {}: slips at {} (surface speed {}) though friction {} is below its bound {} × {}", n, slip, speed, ti, emu, ni));
                        ctx.hit("sticking");
                    } else if *ni > 1e-3 * mmin && emu > 0.0 {
                        ctx.check(ti * slip <= 1e-2 * vs * ti.abs(), || format!("step {}: friction impulse {} acts along the slip {}", n, ti, slip));
                        ctx.hit("sliding");
                        if speed != 0.0 { ctx.hit("conveyor"); }
                    }
                }
            }
        }
        let r = st(&sim.b(body));
        hs.extend_from_slice(&[r.v.x as f32, r.w as f32]);
        if ctx.failed() { return; }
    }
    ctx.distinct(hash_f(&hs));
}
/// heaps: the reported impulses account for every body's motion
fn c25_heap(ctx: &mut Ctx) {
    let mut o = SceneOpts::default();
    o.bodies = ctx.rng.int(3, 10) as usize;
    o.joints = 0;
    o.spread = ctx.rng.f(1.0, 2.5);
    o.sub_stepping = false;
    o.kinematic = true;
    let mut sim = rand_scene(&mut ctx.rng, &o);
    sim.w.borrow_mut().set_continuous_physics(false);
    sim.w.borrow_mut().set_allow_sleeping(false);
    let ws = ctx.rng.chance(0.8);
    sim.w.borrow_mut().set_warm_starting(ws);
    for b in sim.bodies.iter() { b.p.borrow_mut().set_awake(true); }
    if ctx.rng.chance(0.5) {
        // contacts switched off for a step are not part of the motion
        let mut k = ctx.rng.u32();
        sim.ev.borrow_mut().pre_hook = Some(Box::new(move |c, _| { k = k.wrapping_mul(1664525).wrapping_add(1013904223); if k >> 30 == 0 { c.set_enabled(false); } }));
        ctx.hit("with_disabled_contacts");
    }
    let h = sim.dt as f64;
    for n in 0..20 {
        if ctx.rng.chance(0.2) && !sim.bodies.is_empty() {
            let i = ctx.rng.below(sim.bodies.len());
            let m = sim.b(i).borrow().get_mass();
            let imp = ctx.rng.vec(3.0 * m);
            sim.b(i).borrow_mut().apply_linear_impulse_to_center(imp, true);
        }
        let g = d(sim.w.borrow().get_gravity());
        let pre: Vec<St> = sim.bodies.iter().map(|b| st(&b.p)).collect();
        let un: Vec<(V, f64)> = sim.bodies.iter().enumerate().map(|(i, b)| unconstrained(&pre[i], &b.p.borrow(), g, Z, 0.0, h)).collect();
        sim.step();
        let evs = sim.take_events();
        let obs = observe(&sim, &evs, &HashMap::new());
        if ctx.verbose { for o in obs.iter() { println!("   {:?} mu {} {:?}", o.key, o.friction, o.pts); } }
        ctx.evals += 1;
        let over = sim.bodies.iter().any(|b| { let s = st(&b.p); s.v.len() * h > 1.9 || s.w.abs() * h > 1.5 });
        if over { ctx.hit("skipped: speed limited"); return; }
        // disabled or sleeping bodies do not follow the rule
        if sim.bodies.iter().any(|b| { let q = b.p.borrow(); !q.is_enabled() }) {
            for (i, b) in sim.bodies.iter().enumerate() { let q = b.p.borrow(); if !q.is_enabled() { let s = st(&b.p); ctx.check((s.v - pre[i].v).len() == 0.0, || "a disabled body changed velocity".into()); } }
            return;
        }
        // a body squeezed between immovable ones draws impulses without bound
        let tot: f64 = obs.iter().flat_map(|o| o.pts.iter()).map(|q| q.2.abs()).sum();
        if tot > 100.0 * pre.iter().map(|s| s.m).sum::<f64>() { ctx.hit("skipped: squeezed"); return; }
        account(ctx, &sim, &obs, &pre, &un, 8.0);
        for o in obs.iter() {
            ctx.hit(if o.pts.len() == 2 { "two_points" } else { "one_point" });
            for (_, _, ni, ti) in o.pts.iter() {
                ctx.check(*ni >= 0.0, || format!("step {}: normal impulse {} pulls", n, ni));
                // with few iterations friction lags behind the normal force it is bounded by, so only its absence is judged
                ctx.check(o.friction > 0.0 || *ti == 0.0, || format!("step {}: friction impulse {} without friction", n, ti));
                if o.friction == 0.0 { ctx.hit("frictionless"); }
            }
        }
        if obs.len() > 1 { ctx.hit("several_contacts"); }
        if ctx.failed() { return; }
    }
    ctx.distinct(sim.state_hash());
}

// ------------------------------------------------------------------------------------------------ C26

fn mixes(ctx: &mut Ctx) {
    let mut sim = Sim::new(b2v(0.0, -10.0));
    let rv = |r: &mut Rng| Fx { density: 1.0, friction: if r.chance(0.2) { 0.0 } else { r.log(0.01, 10.0) }, restitution: if r.chance(0.2) { 0.0 } else { r.f(0.0, 1.5) }, threshold: r.f(0.0, 5.0), ..Default::default() };
    let (fa, fb) = (rv(&mut ctx.rng), rv(&mut ctx.rng));
    let a = sim.body(STATIC, b2v(0.0, 0.0), 0.0);
    let ka = kind(&mut ctx.rng);
    let sa = shape(&mut ctx.rng, ka, 1.0);
    sim.fixture(a, &sa, ka, &fa);
    let b = sim.body(DYNAMIC, ctx.rng.vec(0.3), ctx.rng.angle());
    let kb = solid_kind(&mut ctx.rng);
    let sb = shape(&mut ctx.rng, kb, 1.0);
    sim.fixture(b, &sb, kb, &fb);
    let (sf, sr, st_) = (ctx.rng.f(0.0, 2.0), ctx.rng.f(0.0, 1.0), ctx.rng.f(0.0, 3.0));
    sim.step_dt(0.0);
    let cs = sim.contacts();
    if cs.is_empty() { ctx.hit("no_contact"); return; }
    for c in cs.iter() {
        let mut q = c.borrow_mut();
        let q = q.get_base_mut();
        let ef = ((fa.friction as f64) * fb.friction as f64).sqrt();
        let (er, et) = (fa.restitution.max(fb.restitution), fa.threshold.min(fb.threshold));
        let ok = |q: &box2d_rs::b2_contact::B2contact<UD>| (q.get_friction() as f64 - ef).abs() <= 1e-6 * (1.0 + ef) && q.get_restitution() == er && q.get_restitution_threshold() == et;
        ctx.check(ok(q), || format!("new contact has friction {} restitution {} threshold {}, expected {} {} {}", q.get_friction(), q.get_restitution(), q.get_restitution_threshold(), ef, er, et));
        ctx.check(q.get_tangent_speed() == 0.0, || "new contact has a surface speed".into());
        q.set_friction(sf);
        q.set_restitution(sr);
        q.set_restitution_threshold(st_);
        q.set_tangent_speed(0.25);
        ctx.check(q.get_friction() == sf && q.get_restitution() == sr && q.get_restitution_threshold() == st_ && q.get_tangent_speed() == 0.25, || "contact values read back wrong".into());
        ctx.hit("mixed");
    }
    // overrides last through steps
    sim.step_dt(0.0);
    for c in sim.contacts().iter() {
        let q = c.borrow();
        let q = q.get_base();
        ctx.check(q.get_friction() == sf && q.get_restitution() == sr && q.get_restitution_threshold() == st_ && q.get_tangent_speed() == 0.25, || "a step changed overridden contact values".into());
    }
    // changed fixture values reach a contact by reset only
    let (f2, r2, t2) = (ctx.rng.f(0.0, 2.0), ctx.rng.f(0.0, 1.0), ctx.rng.f(0.0, 3.0));
    {
        let mut f = sim.bodies[b].f[0].p.borrow_mut();
        f.set_friction(f2);
        f.set_restitution(r2);
        f.set_restitution_threshold(t2);
        ctx.check(f.get_friction() == f2 && f.get_restitution() == r2 && f.get_restitution_threshold() == t2, || "fixture values read back wrong".into());
    }
    for c in sim.contacts().iter() {
        let mut q = c.borrow_mut();
        let q = q.get_base_mut();
        ctx.check(q.get_friction() == sf && q.get_restitution() == sr && q.get_restitution_threshold() == st_, || "changing a fixture changed an existing contact".into());
        q.reset_friction();
        ctx.check((q.get_friction() as f64 - ((fa.friction * f2) as f64).sqrt()).abs() < 1e-5 * (1.0 + q.get_friction() as f64) && q.get_restitution() == sr && q.get_restitution_threshold() == st_, || "resetting friction is wrong".into());
        q.reset_restitution();
        ctx.check(q.get_restitution() == fa.restitution.max(r2) && q.get_restitution_threshold() == st_, || "resetting restitution is wrong".into());
        q.reset_restitution_threshold();
        ctx.check(q.get_restitution_threshold() == fa.threshold.min(t2), || "resetting the restitution threshold is wrong".into());
        ctx.hit("reset");
    }
    ctx.distinct(hash_f(&[fa.friction, fb.restitution, f2]));
}
/// a body meets a surface head-on and leaves by the law of restitution
fn bounce(ctx: &mut Ctx) {
    let mut sim = Sim::new(b2v(0.0, 0.0));
    let cont = ctx.rng.chance(0.5);
    sim.w.borrow_mut().set_continuous_physics(cont);
    sim.w.borrow_mut().set_allow_sleeping(false);
    sim.vi = 30;
    let rv = |r: &mut Rng| Fx { density: r.log(0.3, 3.0), friction: r.f(0.0, 1.0), restitution: if r.chance(0.3) { 0.0 } else if r.chance(0.2) { r.f(1.0, 1.5) } else { r.f(0.0, 1.0) }, threshold: if r.chance(0.5) { 1.0 } else { r.f(0.0, 4.0) }, ..Default::default() };
    let (fa, fb) = (rv(&mut ctx.rng), rv(&mut ctx.rng));
    let e = fa.restitution.max(fb.restitution) as f64;
    let th = fa.threshold.min(fb.threshold) as f64;
    let ta = *ctx.rng.pick(&[STATIC, STATIC, KINEMATIC, DYNAMIC]);
    // the target: its surface is the x axis or passes through the origin
    let k = ctx.rng.below(5);
    let a = sim.body(ta, b2v(0.0, 0.0), 0.0);
    match k {
        0 => { let s = rc(edge2(b2v(-2.0, 0.0), b2v(2.0, 0.0))); sim.fixture(a, &s, Kind::Edge, &fa); if ta == DYNAMIC { let s = rc(circle(b2v(0.0, -0.3), 0.3)); sim.fixture(a, &s, Kind::Circle, &fa); } }
        1 => { let s = rc(circle(b2v(0.0, -0.5), 0.5)); sim.fixture(a, &s, Kind::Circle, &fa); }
        2 => {
            let mut c = box2d_rs::shapes::b2_chain_shape::B2chainShape::default();
            c.create_chain(&[b2v(3.0, 0.0), b2v(-3.0, 0.0)], b2v(4.0, 0.0), b2v(-4.0, 0.0));
            let s = rc(c);
            sim.fixture(a, &s, Kind::Chain, &fa);
            if ta == DYNAMIC { let s = rc(circle(b2v(0.0, -0.3), 0.3)); sim.fixture(a, &s, Kind::Circle, &fa); }
        }
        _ => { let s = rc(bx_at(2.0, 0.3, b2v(0.0, -0.3), 0.0)); sim.fixture(a, &s, Kind::Poly, &fa); }
    }
    if ta == DYNAMIC {
        // hit along the line of centres: both centres on the y axis
        let c = sim.b(a).borrow().get_local_center();
        if c.x.abs() > 1e-5 { ctx.hit("skipped"); return; }
    }
    let flat = ctx.rng.chance(0.4) && k != 1;
    let speed = if ctx.rng.chance(0.5) { th as f32 * ctx.rng.f(0.2, 2.0) + 0.01 } else { ctx.rng.log(0.2, 50.0) };
    if ((speed as f64) - th).abs() < 1e-3 * (1.0 + th) { ctx.hit("borderline"); return; }
    let gap = ctx.rng.f(0.03, 0.3);
    let (s, kd, off) = if flat { let (x, y) = (ctx.rng.f(0.2, 0.8), ctx.rng.f(0.2, 0.8)); (rc(bx(x, y)), Kind::Poly, y) } else { let r = ctx.rng.f(0.2, 0.6); (rc(circle(b2v(0.0, 0.0), r)), Kind::Circle, r) };
    let base_v = if ta == STATIC { 0.0 } else { ctx.rng.f(-2.0, 2.0) };
    let mut def = Sim::def(DYNAMIC, b2v(0.0, off + gap), 0.0);
    def.bullet = ctx.rng.chance(0.3);
    def.linear_velocity = b2v(0.0, base_v - speed);
    let b = sim.add(def);
    sim.fixture(b, &s, kd, &fb);
    sim.b(a).borrow_mut().set_linear_velocity(b2v(0.0, base_v));
    // turn the whole scene
    let th0 = if ctx.rng.chance(0.5) { 0.0 } else { ctx.rng.angle() };
    if th0 != 0.0 {
        for i in &[a, b] {
            let (p, v) = { let q = sim.b(*i); let q = q.borrow(); (q.get_position(), q.get_linear_velocity()) };
            let (p, v) = (rot(th0 as f64, d(p)), rot(th0 as f64, d(v)));
            sim.b(*i).borrow_mut().set_transform(b2(p), th0);
            sim.b(*i).borrow_mut().set_linear_velocity(b2(v));
        }
    }
    let up = rot(th0 as f64, V { x: 0.0, y: 1.0 });
    let over = if ctx.rng.chance(0.15) { Some(ctx.rng.f(0.0, 1.0)) } else { None };
    if let Some(x) = over { sim.ev.borrow_mut().begin_hook = Some(Box::new(move |c, _| c.set_restitution(x))); ctx.hit("override"); }
    let e = over.map_or(e, |x| x as f64);
    sim.dt = *ctx.rng.pick(&[1.0f32 / 60.0, 1.0 / 240.0]);
    let expect = if speed as f64 > th { e * speed as f64 } else { 0.0 };
    let (ma, mb) = (st(&sim.b(a)).m, st(&sim.b(b)).m);
    let mut hit_ = false;
    let steps = (gap / (speed * sim.dt)) as usize + 40;
    if steps > 3000 { return; }
    // a body that does not bounce, or tunnels in the first step without continuous collision, is judged on what happened
    for _ in 0..steps {
        sim.step();
        ctx.evals += 1;
        let evs = sim.take_events();
        if ctx.verbose { for x in evs.iter() { println!("   {:?}", x); } println!("   {:?} {:?}", st(&sim.b(a)), st(&sim.b(b))); }
        // a box that stops just where contact starts may touch with one corner first, by rounding
        if flat { for x in evs.iter() { if let Ev::Pre(_, p) = x { let g = (d(p.xb.p) - d(p.xa.p)).dot(up).abs() - off as f64; if p.manifold.point_count == 1 && (g - 0.02).abs() < 1e-4 { ctx.hit("skipped: first corner"); return; } } } }
        if evs.iter().any(|x| matches!(x, Ev::Post(..))) { hit_ = true; break; }
        // without continuous collision a fast body may jump in so deep that it is pushed out sideways
        let gap_now = (st(&sim.b(b)).p - st(&sim.b(a)).p).dot(up) - off as f64;
        if gap_now < -0.1 { ctx.hit("jumped_in"); return; }
    }
    if !hit_ { ctx.hit("missed"); return; }
    let rel = |sim: &Sim| { let (x, y) = (st(&sim.b(a)), st(&sim.b(b))); y.v - x.v };
    let r0 = rel(&sim);
    let tol = 2e-3 * (1.0 + speed as f64);
    ctx.check((r0.dot(up) - expect).abs() <= tol, || format!("hit at {} with restitution {} and threshold {}: leaves at {}, expected {} ({:?} against {:?}, flat {}, continuous {})", speed, e, th, r0.dot(up), expect, kd, k, flat, cont));
    ctx.check((r0 - up * r0.dot(up)).len() <= tol, || format!("a head-on hit went sideways: {:?}", r0));
    ctx.check(st(&sim.b(b)).w.abs() <= 4.0 * tol, || format!("a head-on hit made the body spin at {}", st(&sim.b(b)).w));
    if ta == DYNAMIC {
        let (x, y) = (st(&sim.b(a)), st(&sim.b(b)));
        let cm = (x.v * ma + y.v * mb) * (1.0 / (ma + mb));
        let cm0 = base_v as f64 - speed as f64 * mb / (ma + mb);
        ctx.check((cm.dot(up) - cm0).abs() <= tol, || format!("common velocity {} expected {}", cm.dot(up), cm0));
        ctx.hit("between_dynamic");
    } else {
        ctx.hit("against_fixed");
    }
    ctx.hit(if expect > 0.0 { "bounced" } else if speed as f64 <= th { "below_threshold" } else { "inelastic" });
    if flat { ctx.hit("flat"); }
    // and keeps leaving
    if expect > 0.05 { for _ in 0..5 { sim.step(); } let r1 = rel(&sim); ctx.check((r1.dot(up) - expect).abs() <= 2.0 * tol, || format!("speed after leaving is {}, expected {}", r1.dot(up), expect)); }
    ctx.distinct(hash_f(&[r0.x as f32, r0.y as f32, speed, e as f32]));
}
/// a spinning body meets a spinning one with a single smooth point: the points part at the restitution of their approach
fn bounce_spin(ctx: &mut Ctx) {
    let mut sim = Sim::new(b2v(0.0, 0.0));
    sim.w.borrow_mut().set_continuous_physics(false);
    sim.w.borrow_mut().set_allow_sleeping(false);
    sim.vi = 10;
    let rv = |r: &mut Rng| Fx { density: r.log(0.3, 3.0), friction: 0.0, restitution: if r.chance(0.2) { 0.0 } else { r.f(0.0, 1.0) }, threshold: if r.chance(0.5) { 1.0 } else { r.f(0.0, 4.0) }, ..Default::default() };
    let (fa, fb) = (rv(&mut ctx.rng), rv(&mut ctx.rng));
    let e = fa.restitution.max(fb.restitution) as f64;
    let th = fa.threshold.min(fb.threshold) as f64;
    let (ka, kb) = (solid_kind(&mut ctx.rng), solid_kind(&mut ctx.rng));
    let (za, zb) = (ctx.rng.f(0.4, 1.2), ctx.rng.f(0.4, 1.2));
    let (s1, s2) = (shape(&mut ctx.rng, ka, za), shape(&mut ctx.rng, kb, zb));
    let ta = ctx.rng.xf(3.0);
    let (c1, c2) = (children(&*s1.borrow())[0].clone(), children(&*s2.borrow())[0].clone());
    let gap = ctx.rng.f(-0.004, 0.01) as f64;
    let tb = crate::p_manifold::place_gap(&mut ctx.rng, &c1, ta, &c2, gap);
    let t1 = *ctx.rng.pick(&[STATIC, KINEMATIC, DYNAMIC, DYNAMIC]);
    let a = sim.body(t1, ta.p, ta.q.get_angle());
    let b = sim.body(DYNAMIC, tb.p, tb.q.get_angle());
    sim.fixture(a, &s1, ka, &fa);
    sim.fixture(b, &s2, kb, &fb);
    for i in &[a, b] {
        if sim.b(*i).borrow().get_type() == STATIC { continue; }
        let (v, w) = (ctx.rng.vec(4.0), if ctx.rng.chance(0.3) { 0.0 } else { ctx.rng.f(-6.0, 6.0) });
        sim.b(*i).borrow_mut().set_linear_velocity(v);
        sim.b(*i).borrow_mut().set_angular_velocity(w);
    }
    let pre = [st(&sim.b(a)), st(&sim.b(b))];
    sim.step();
    ctx.evals += 1;
    let evs = sim.take_events();
    let obs = observe(&sim, &evs, &HashMap::new());
    if obs.len() != 1 { ctx.hit("missed"); return; }
    let o = &obs[0];
    if o.pts.len() != 1 { ctx.hit("two_points"); return; }
    let (ia, ib) = (sim.find_fixture(o.key.0).unwrap().0, sim.find_fixture(o.key.2).unwrap().0);
    let post = [st(&sim.b(a)), st(&sim.b(b))];
    let (p, n, ni, ti) = o.pts[0];
    let v0 = (vel_at(&pre[ib], pre[ib].c, p) - vel_at(&pre[ia], pre[ia].c, p)).dot(n);
    let v1 = (vel_at(&post[ib], pre[ib].c, p) - vel_at(&post[ia], pre[ia].c, p)).dot(n);
    let vs = 1.0 + pre[0].v.len() + pre[1].v.len() + pre[0].w.abs() + pre[1].w.abs();
    if (v0 + th).abs() < 1e-4 * vs || v0.abs() < 1e-4 * vs { ctx.hit("borderline"); return; }
    ctx.check(ti == 0.0, || format!("friction impulse {} between smooth bodies", ti));
    let want = if v0 < -th { ctx.hit("spun"); -e * v0 } else if v0 < 0.0 { ctx.hit("spun_slow"); 0.0 } else { ctx.hit("parting"); v0 };
    ctx.check((v1 - want).abs() <= 1e-3 * vs, || format!("points meeting at {} with restitution {} and threshold {} part at {} (impulse {}, {:?} and {:?})", v0, e, th, v1, ni, ka, kb));
    ctx.distinct(hash_f(&[v0 as f32, v1 as f32]));
}

pub fn props() -> Vec<Property> {
    vec![
        Property { id: "C20", rule: "a distinct sequence of positions and velocities", parts: vec![part("free", 300000, 5000000, c20_case)], required: vec![("speed_limited", 200), ("spin_limited", 200), ("eccentric_step", 2000), ("kinematic_step", 500), ("force_applied", 2000), ("explicit_mass", 200)], assumptions: "sleeping off; bodies filtered apart" },
        Property { id: "C21", rule: "a distinct sequence of velocities", parts: vec![part("push", 400000, 6000000, c21_case)], required: vec![("impulse_at_point", 1000), ("impulse_at_centre", 1000), ("angular_impulse", 1000), ("force_step", 1000), ("force_kept_step", 300), ("asleep_woken", 300), ("asleep_left", 300), ("not_dynamic", 300), ("clear_forces", 500)], assumptions: "no gravity" },
        Property { id: "C22", rule: "a distinct sequence of mass properties", parts: vec![part("mass", 500000, 8000000, c22_case)], required: vec![("add_fixture", 1000), ("destroy_fixture", 1000), ("set_density", 500), ("reset_mass", 500), ("set_mass_data", 500), ("fixed_rotation", 500), ("set_type", 300), ("centre_moved_while_spinning", 500), ("explicit_in_force", 300), ("impulse_probe", 1000)], assumptions: "" },
        Property { id: "C23", rule: "a distinct final state", parts: vec![part("load", 40000, 600000, c23_case), part("change", 80000, 1200000, c23_change), part("rush", 20000, 300000, c23_rush), part("flip", 20000, 300000, c23_flip)], required: vec![("static_step", 5000), ("kinematic_step", 1000), ("kinematic_in_contact", 300), ("fixed_rotation_step", 500), ("fixed_rotation_touching", 100), ("pushed", 1000), ("dynamic_to_static", 100), ("static_to_dynamic", 100), ("kinematic_to_dynamic", 100), ("dynamic_to_kinematic", 100), ("kinematic_to_static", 100), ("static_to_kinematic", 100), ("contact_back", 100), ("paddle_step_touching", 3000), ("some_disabled", 1000), ("flip", 10000)], assumptions: "whole steps (no sub-stepping)" },
        Property { id: "C24", rule: "a distinct final state", parts: vec![part("momentum", 40000, 600000, c24_case), part("energy", 40000, 600000, c24_energy)], required: vec![("contact_step", 5000), ("joint_step", 5000), ("contact_and_joint_step", 1000), ("angular_step", 5000), ("angular_contact_step", 1000), ("energy_lost", 100), ("energy_contact_step", 5000), ("single_bounce_step", 1000), ("monotone_step", 1000)], assumptions: "speeds below the limits" },
        Property { id: "C25", rule: "a distinct sequence of velocities", parts: vec![part("pair", 60000, 1000000, c25_pair), part("heap", 60000, 1000000, c25_heap)], required: vec![("one_point", 1000), ("two_points", 1000), ("pressing", 1000), ("sticking", 500), ("sliding", 500), ("conveyor", 100), ("several_contacts", 1000), ("strict", 2000), ("frictionless", 200), ("bounced", 1000)], assumptions: "continuous collision off, so that a step has one velocity solution" },
        Property { id: "C26", rule: "distinct material values and outcome", parts: vec![part("mixing", 80000, 1200000, mixes), part("bounce", 80000, 1200000, bounce), part("spin", 80000, 1200000, bounce_spin)], required: vec![("mixed", 1000), ("reset", 1000), ("bounced", 500), ("below_threshold", 300), ("inelastic", 100), ("flat", 300), ("between_dynamic", 300), ("against_fixed", 500), ("override", 100), ("spun", 1000), ("spun_slow", 1000)], assumptions: "" },
    ]
}
