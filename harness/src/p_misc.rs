//! C46 definitions, getters, setters, initialisers and conversions
use crate::core::*;
use crate::dump::*;
use crate::gen::*;
use crate::geo::*;
use crate::sim::*;
use std::rc::Rc;

type Snap = Vec<(String, Vals)>;
fn fl(b: bool) -> f64 {
    if b { 1.0 } else { 0.0 }
}
fn f(x: f32) -> Vec<f64> {
    vec![x as f64]
}
fn p2(x: B2vec2) -> Vec<f64> {
    vec![x.x as f64, x.y as f64]
}
fn bo(x: bool) -> Vec<f64> {
    vec![fl(x)]
}
fn contact_vals(c: &B2contact<UD>) -> Vals {
    vec![("friction", c.get_friction() as f64), ("restitution", c.get_restitution() as f64), ("restitution threshold", c.get_restitution_threshold() as f64), ("tangent speed", c.get_tangent_speed() as f64), ("enabled", fl(c.is_enabled())), ("touching", fl(c.is_touching())), ("points", c.get_manifold().point_count as f64)]
}
fn world_vals(sim: &Sim) -> Vals {
    let w = sim.w.borrow();
    let g = w.get_gravity();
    vec![("gravity", g.x as f64), ("gravity", g.y as f64), ("allow sleeping", fl(w.get_allow_sleeping())), ("warm starting", fl(w.get_warm_starting())), ("continuous", fl(w.get_continuous_physics())), ("sub-stepping", fl(w.get_sub_stepping())), ("auto clear", fl(w.get_auto_clear_forces())), ("bodies", w.get_body_count() as f64), ("joints", w.get_joint_count() as f64), ("locked", fl(w.is_locked()))]
}
fn snap(sim: &Sim, contacts: bool) -> Snap {
    let mut s: Snap = vec![("world".into(), world_vals(sim))];
    for h in sim.bodies.iter() {
        let b = h.p.borrow();
        let mut v = body_vals(&b);
        v.extend(mass_vals(&b));
        s.push((format!("body {}", h.id), v));
        for q in h.f.iter() { s.push((format!("fixture {}", q.id), fixture_vals(&q.p.borrow()))); }
    }
    for j in sim.joints.iter() { s.push((format!("joint {}", j.id), joint_vals(&*j.p.borrow()))); }
    if contacts {
        let mut c: Vec<(String, Vals)> = sim.contacts().iter().map(|c| { let c = c.borrow(); (format!("contact {:?}", contact_key(c.get_base())), contact_vals(c.get_base())) }).collect();
        c.sort_by(|a, b| a.0.cmp(&b.0));
        s.extend(c);
    }
    s
}
/// what a call should have done: values that are now as given, and values nobody promises anything about
#[derive(Default)]
struct Change {
    set: Vec<(String, &'static str, Vec<f64>)>,
    free: Vec<(String, &'static str)>,
}
impl Change {
    fn put(mut self, o: &str, n: &'static str, v: Vec<f64>) -> Change {
        self.set.push((o.to_string(), n, v));
        self
    }
    fn any(mut self, o: &str, ns: &[&'static str]) -> Change {
        for n in ns { self.free.push((o.to_string(), n)); }
        self
    }
}
fn judge(ctx: &mut Ctx, what: &str, before: &Snap, after: &Snap, ch: &Change) {
    if !ctx.check(before.len() == after.len(), || format!("{} changed the number of objects: {} against {}", what, before.len(), after.len())) { return; }
    for (a, b) in before.iter().zip(after.iter()) {
        if !ctx.check(a.0 == b.0 && a.1.len() == b.1.len(), || format!("{}: {} against {}", what, a.0, b.0)) { return; }
        let mut want = a.1.clone();
        for (o, n, v) in ch.set.iter().filter(|x| x.0 == a.0) {
            let mut k = 0;
            for w in want.iter_mut().filter(|w| w.0 == *n) { w.1 = v[k]; k += 1; }
            if k != v.len() { panic!("harness: {} has no {}", o, n); }
        }
        for (w, g) in want.iter().zip(b.1.iter()) {
            if ch.free.iter().any(|x| x.0 == a.0 && x.1 == w.0) { continue; }
            let same = w.1 == g.1 || (w.1.is_nan() && g.1.is_nan());
            if !ctx.check(same, || format!("after {}, the {} of {} is {} where {} is expected", what, w.0, a.0, g.1, w.1)) { return; }
        }
    }
}
fn scene(ctx: &mut Ctx) -> (Sim, SceneOpts) {
    let mut o = SceneOpts::default();
    o.bodies = 4 + ctx.rng.below(4);
    o.joints = 0;
    o.spread = *ctx.rng.pick(&[1.5, 4.0, 10.0]);
    let mut sim = rand_scene(&mut ctx.rng, &o);
    for _ in 0..1 + ctx.rng.below(5) { rand_joint(&mut sim, &mut ctx.rng, &o.joint_kinds); }
    if ctx.rng.chance(0.3) {
        for _ in 0..2 { rand_joint(&mut sim, &mut ctx.rng, &[JK::Revolute, JK::Prismatic]); }
        make_joint(&mut sim, &mut ctx.rng, JK::Gear, 0, 1);
    }
    (sim, o)
}

// ---------------------------------------------------------------------------------------------------- definitions

fn want(ctx: &mut Ctx, what: &str, got: &Vals, name: &'static str, exp: &[f64], rel: f64) {
    let g: Vec<f64> = got.iter().filter(|x| x.0 == name).map(|x| x.1).collect();
    if g.len() != exp.len() { panic!("harness: {} has no {}", what, name); }
    for (a, b) in g.iter().zip(exp) {
        let ok = a == b || (a - b).abs() <= rel * (1.0 + a.abs().max(b.abs()));
        ctx.check(ok, || format!("{}: {} is {:?}, expected {:?}", what, name, g, exp));
    }
}
fn c46_defaults(ctx: &mut Ctx) {
    let b = B2bodyDef::<UD>::default();
    ctx.check(b.position == b2v(0.0, 0.0) && b.angle == 0.0 && b.linear_velocity == b2v(0.0, 0.0) && b.angular_velocity == 0.0 && b.linear_damping == 0.0 && b.angular_damping == 0.0, || "default body definition is not at rest at the origin".into());
    ctx.check(b.allow_sleep && b.awake && !b.fixed_rotation && !b.bullet && b.enabled && b.gravity_scale == 1.0 && b.body_type == STATIC && b.user_data.is_none(), || "default body definition flags".into());
    let x = B2fixtureDef::<UD>::default();
    ctx.check(x.shape.is_none() && x.friction == 0.2 && x.restitution == 0.0 && x.restitution_threshold == 1.0 && x.density == 0.0 && !x.is_sensor && x.user_data.is_none(), || "default fixture definition".into());
    ctx.check(x.filter.category_bits == 1 && x.filter.mask_bits == 0xFFFF && x.filter.group_index == 0, || "default filter".into());
    let z = b2v(0.0, 0.0);
    let j = B2distanceJointDef::<UD>::default();
    ctx.check(j.base.jtype == B2jointType::EDistanceJoint && !j.base.collide_connected && j.local_anchor_a == z && j.local_anchor_b == z && j.length == 1.0 && j.min_length == 0.0 && j.max_length == B2_MAX_FLOAT && j.stiffness == 0.0 && j.damping == 0.0, || "default distance joint definition".into());
    let j = B2frictionJointDef::<UD>::default();
    ctx.check(j.base.jtype == B2jointType::EFrictionJoint && !j.base.collide_connected && j.local_anchor_a == z && j.local_anchor_b == z && j.max_force == 0.0 && j.max_torque == 0.0, || "default friction joint definition".into());
    let j = B2gearJointDef::<UD>::default();
    ctx.check(j.base.jtype == B2jointType::EGearJoint && !j.base.collide_connected && j.joint1.is_none() && j.joint2.is_none() && j.ratio == 1.0, || "default gear joint definition".into());
    let j = B2mouseJointDef::<UD>::default();
    ctx.check(j.base.jtype == B2jointType::EMouseJoint && !j.base.collide_connected && j.target == z && j.max_force == 0.0 && j.stiffness == 0.0 && j.damping == 0.0, || "default mouse joint definition".into());
    let j = B2motorJointDef::<UD>::default();
    ctx.check(j.base.jtype == B2jointType::EMotorJoint && !j.base.collide_connected && j.linear_offset == z && j.angular_offset == 0.0 && j.max_force == 1.0 && j.max_torque == 1.0 && j.correction_factor == 0.3, || "default motor joint definition".into());
    let j = B2pulleyJointDef::<UD>::default();
    ctx.check(j.base.jtype == B2jointType::EPulleyJoint && j.base.collide_connected && j.ground_anchor_a == b2v(-1.0, 1.0) && j.ground_anchor_b == b2v(1.0, 1.0) && j.local_anchor_a == b2v(-1.0, 0.0) && j.local_anchor_b == b2v(1.0, 0.0) && j.length_a == 0.0 && j.length_b == 0.0 && j.ratio == 1.0, || "default pulley joint definition".into());
    let j = B2revoluteJointDef::<UD>::default();
    ctx.check(j.base.jtype == B2jointType::ERevoluteJoint && !j.base.collide_connected && j.local_anchor_a == z && j.local_anchor_b == z && j.reference_angle == 0.0 && !j.enable_limit && j.lower_angle == 0.0 && j.upper_angle == 0.0 && !j.enable_motor && j.motor_speed == 0.0 && j.max_motor_torque == 0.0, || "default revolute joint definition".into());
    let j = B2prismaticJointDef::<UD>::default();
    ctx.check(j.base.jtype == B2jointType::EPrismaticJoint && !j.base.collide_connected && j.local_anchor_a == z && j.local_anchor_b == z && j.local_axis_a == b2v(1.0, 0.0) && j.reference_angle == 0.0 && !j.enable_limit && j.lower_translation == 0.0 && j.upper_translation == 0.0 && !j.enable_motor && j.motor_speed == 0.0 && j.max_motor_force == 0.0, || "default prismatic joint definition".into());
    let j = B2weldJointDef::<UD>::default();
    ctx.check(j.base.jtype == B2jointType::EWeldJoint && !j.base.collide_connected && j.local_anchor_a == z && j.local_anchor_b == z && j.reference_angle == 0.0 && j.stiffness == 0.0 && j.damping == 0.0, || "default weld joint definition".into());
    let j = B2wheelJointDef::<UD>::default();
    ctx.check(j.base.jtype == B2jointType::EWheelJoint && !j.base.collide_connected && j.local_anchor_a == z && j.local_anchor_b == z && j.local_axis_a == b2v(1.0, 0.0) && !j.enable_limit && j.lower_translation == 0.0 && j.upper_translation == 0.0 && !j.enable_motor && j.motor_speed == 0.0 && j.max_motor_torque == 0.0 && j.stiffness == 0.0 && j.damping == 0.0, || "default wheel joint definition".into());
    let g = ctx.rng.vec(20.0);
    let sim = Sim::new(g);
    let w = sim.w.borrow();
    ctx.check(w.get_gravity() == g && w.get_allow_sleeping() && w.get_warm_starting() && w.get_continuous_physics() && !w.get_sub_stepping() && w.get_auto_clear_forces() && !w.is_locked(), || "settings of a new world".into());
    ctx.check(w.get_body_count() == 0 && w.get_joint_count() == 0 && w.get_contact_count() == 0 && w.get_proxy_count() == 0 && w.get_tree_height() == 0 && w.get_tree_balance() == 0, || "a new world is not empty".into());
    ctx.hit("defaults");
    ctx.distinct(ctx.idx);
}
fn c46_body(ctx: &mut Ctx) {
    let r = &mut ctx.rng;
    let mut sim = Sim::new(b2v(0.0, -10.0));
    let t = *r.pick(&[STATIC, KINEMATIC, DYNAMIC]);
    let mut def = Sim::def(t, { let s = *r.pick(&[1.0, 10.0, 500.0]); r.vec(s) }, if r.chance(0.3) { r.f(-50.0, 50.0) } else { r.angle() });
    if t != STATIC { def.linear_velocity = r.vec(30.0); def.angular_velocity = r.f(-20.0, 20.0); }
    def.linear_damping = r.f(0.0, 5.0);
    def.angular_damping = r.f(0.0, 5.0);
    def.allow_sleep = r.chance(0.5);
    def.awake = r.chance(0.5);
    def.fixed_rotation = r.chance(0.5);
    def.bullet = r.chance(0.5);
    def.enabled = r.chance(0.5);
    def.gravity_scale = r.f(-2.0, 2.0);
    let i = sim.add(def.clone());
    let b = sim.b(i);
    let got = body_vals(&b.borrow());
    let mv = mass_vals(&b.borrow());
    let w = "a new body";
    want(ctx, w, &got, "user data", &[sim.bodies[i].id as f64], 0.0);
    want(ctx, w, &got, "type", &[t as i32 as f64], 0.0);
    want(ctx, w, &got, "position", &p2(def.position), 0.0);
    want(ctx, w, &got, "transform", &p2(def.position), 0.0);
    want(ctx, w, &got, "angle", &f(def.angle), 0.0);
    want(ctx, w, &got, "sine", &[(def.angle as f64).sin()], 1e-6);
    want(ctx, w, &got, "cosine", &[(def.angle as f64).cos()], 1e-6);
    want(ctx, w, &got, "velocity", &p2(def.linear_velocity), 0.0);
    want(ctx, w, &got, "angular velocity", &f(def.angular_velocity), 0.0);
    want(ctx, w, &got, "linear damping", &f(def.linear_damping), 0.0);
    want(ctx, w, &got, "angular damping", &f(def.angular_damping), 0.0);
    want(ctx, w, &got, "gravity scale", &f(def.gravity_scale), 0.0);
    want(ctx, w, &got, "sleeping allowed", &bo(def.allow_sleep), 0.0);
    if t != STATIC { want(ctx, w, &got, "awake", &bo(def.awake), 0.0); }
    want(ctx, w, &got, "fixed rotation", &bo(def.fixed_rotation), 0.0);
    want(ctx, w, &got, "bullet", &bo(def.bullet), 0.0);
    want(ctx, w, &got, "enabled", &bo(def.enabled), 0.0);
    want(ctx, w, &got, "fixtures", &[0.0], 0.0);
    want(ctx, w, &mv, "world centre", &p2(def.position), 0.0);
    want(ctx, w, &mv, "local centre", &[0.0, 0.0], 0.0);
    ctx.check(Rc::ptr_eq(&b.borrow().get_world(), &sim.w), || "a body's world is not the world it was made in".into());
    ctx.hit("body_defined");
    // fixtures
    let n = 1 + ctx.rng.below(3);
    for _ in 0..n {
        let (s, k) = rand_shape(&mut ctx.rng, t == DYNAMIC);
        let m = Fx { density: ctx.rng.f(0.0, 5.0), friction: ctx.rng.f(0.0, 2.0), restitution: ctx.rng.f(0.0, 1.5), threshold: ctx.rng.f(0.0, 5.0), sensor: ctx.rng.chance(0.5), filter: B2filter { category_bits: ctx.rng.u32() as u16, mask_bits: ctx.rng.u32() as u16, group_index: ctx.rng.u32() as i16 } };
        let sv = shape_vals(&*s.borrow());
        let q = if ctx.rng.chance(0.2) {
            // the short way of making one
            let q = B2body::create_fixture_by_shape(b.clone(), s.clone(), m.density);
            let g = fixture_vals(&q.borrow());
            let w = "a fixture made from a shape and a density";
            for (n, x) in [("user data", -1.0), ("friction", 0.2f32 as f64), ("restitution", 0.0), ("restitution threshold", 1.0), ("density", m.density as f64), ("sensor", 0.0), ("category", 1.0), ("mask", 65535.0), ("group", 0.0)].iter() { want(ctx, w, &g, *n, &[*x], 0.0); }
            let id = sim.id();
            q.borrow_mut().set_user_data(&Tok::new(id));
            ctx.check(q.borrow().get_user_data().map(|t| t.id) == Some(id), || "fixture user data is not what was set".into());
            sim.bodies[i].f.push(FH { id, p: q.clone(), kind: k });
            ctx.hit("by_shape");
            q
        } else {
            let q = sim.fixture(i, &s, k, &m);
            let q = sim.bodies[i].f[q].p.clone();
            let id = sim.next - 1;
            let g = fixture_vals(&q.borrow());
            let w = "a new fixture";
            for (n, x) in [("user data", id as f64), ("friction", m.friction as f64), ("restitution", m.restitution as f64), ("restitution threshold", m.threshold as f64), ("density", m.density as f64), ("sensor", fl(m.sensor)), ("category", m.filter.category_bits as f64), ("mask", m.filter.mask_bits as f64), ("group", m.filter.group_index as f64)].iter() { want(ctx, w, &g, *n, &[*x], 0.0); }
            q
        };
        let q = q.borrow();
        if let Some(x) = differ(&sv, &shape_vals(&*q.get_shape()), 0.0) { ctx.fail(format!("the fixture's shape is not the one given: {}", x)); return; }
        ctx.check(q.get_type() as i32 == s.borrow().get_type() as i32, || "a fixture's type is not that of its shape".into());
        ctx.check(Rc::ptr_eq(&q.get_body(), &b), || "a fixture's body is not the body it was made on".into());
        // the shape was copied: changing the original changes nothing
        let mut md = B2massData::default();
        q.get_mass_data(&mut md);
        let mut me = B2massData::default();
        s.borrow().compute_mass(&mut me, q.get_density());
        ctx.check(md.mass == me.mass && md.center == me.center && md.i == me.i, || "a fixture's mass data is not that of its shape and density".into());
        ctx.hit("fixture_defined");
    }
    // proxies exist exactly for enabled bodies, one for each child
    let kids: i32 = sim.bodies[i].f.iter().map(|q| q.p.borrow().get_shape().get_child_count() as i32).sum();
    ctx.check(sim.w.borrow().get_proxy_count() == if def.enabled { kids } else { 0 }, || format!("{} proxies for {} children, enabled {}", sim.w.borrow().get_proxy_count(), kids, def.enabled));
    // adding fixtures moves neither body nor its spin
    let now = body_vals(&b.borrow());
    for n in ["position", "angle", "angular velocity", "linear damping", "angular damping", "gravity scale", "sleeping allowed", "awake", "fixed rotation", "bullet", "enabled", "type"].iter() {
        let old: Vec<f64> = got.iter().filter(|x| x.0 == *n).map(|x| x.1).collect();
        want(ctx, "a body given fixtures", &now, *n, &old, 0.0);
    }
    // conversions
    let bb = b.borrow();
    let x = Xf::new(d(bb.get_position()), bb.get_angle() as f64);
    let c = d(bb.get_world_center());
    let (v, w) = (d(bb.get_linear_velocity()), bb.get_angular_velocity() as f64);
    let size = d(bb.get_position()).len();
    for _ in 0..3 {
        let s = *ctx.rng.pick(&[0.5, 3.0, 40.0]);
        let q = ctx.rng.vec(s);
        let tol = 1e-6 * (2.0 + size + 4.0 * s as f64);
        let near = |ctx: &mut Ctx, what: &str, got: B2vec2, exp: V, tol: f64| {
            ctx.check((d(got) - exp).len() <= tol, || format!("{} of {:?} is {:?}, expected {:?}", what, q, got, exp));
        };
        near(ctx, "world point", bb.get_world_point(q), x.mul(d(q)), tol);
        near(ctx, "local point", bb.get_local_point(q), x.inv_mul(d(q)), tol);
        near(ctx, "world vector", bb.get_world_vector(q), x.rot(d(q)), tol);
        near(ctx, "local vector", bb.get_local_vector(q), x.inv_rot(d(q)), tol);
        let vt = tol * (1.0 + w.abs()) + 1e-5 * (1.0 + v.len());
        near(ctx, "velocity at a world point", bb.get_linear_velocity_from_world_point(q), v + w * (d(q) - c).perp(), vt);
        near(ctx, "velocity at a local point", bb.get_linear_velocity_from_local_point(q), v + w * (x.mul(d(q)) - c).perp(), vt);
        ctx.hit("converted");
    }
    let wc = x.mul(d(bb.get_local_center()));
    ctx.check((wc - c).len() <= 1e-6 * (2.0 + size + 4.0 * d(bb.get_local_center()).len()), || format!("world centre {:?} is not where the local centre is {:?}", c, wc));
    ctx.distinct(ctx.idx);
}

// ---------------------------------------------------------------------------------------------------- setters

fn c46_set(ctx: &mut Ctx) {
    let (mut sim, o) = scene(ctx);
    if ctx.rng.chance(0.7) { for _ in 0..1 + ctx.rng.below(4) { sim.step(); } }
    for _ in 0..12 {
        let before = snap(&sim, true);
        let (what, ch, contacts) = match ctx.rng.below(10) {
            0..=3 => set_body(ctx, &mut sim),
            4 | 5 => set_fixture(ctx, &mut sim),
            6 | 7 | 8 => set_joint(ctx, &mut sim),
            _ => set_world(ctx, &mut sim),
        };
        if what.is_empty() { continue; }
        ctx.log(|| what.clone());
        let after = snap(&sim, contacts);
        // contacts that go away wake what they held
        let mut ch = ch;
        if !contacts { for h in sim.bodies.iter().filter(|h| h.p.borrow().is_awake()) { ch = ch.any(&format!("body {}", h.id), &["awake"]); } }
        let before: Snap = if contacts { before } else { before.into_iter().filter(|x| !x.0.starts_with("contact")).collect() };
        judge(ctx, &what, &before, &after, &ch);
        if ctx.failed() { return; }
        ctx.hit("set");
        if ctx.rng.chance(0.15) { rand_op(&mut sim, &mut ctx.rng, &o); }
        if ctx.rng.chance(0.2) { sim.step(); }
        if sim.wild() { break; }
    }
    lists(ctx, &sim);
    ctx.distinct(ctx.idx);
}
fn set_body(ctx: &mut Ctx, sim: &mut Sim) -> (String, Change, bool) {
    let i = ctx.rng.below(sim.bodies.len());
    let b = sim.b(i);
    let id = sim.bodies[i].id;
    let o = format!("body {}", id);
    let (t, awake) = (b.borrow().get_type(), b.borrow().is_awake());
    let r = &mut ctx.rng;
    let flag = r.chance(0.5);
    let x = r.f(-5.0, 5.0);
    let ch = Change::default();
    let k = r.below(14);
    let name = ["linear damping", "angular damping", "gravity scale", "bullet", "sleeping allowed", "awake", "velocity", "spin", "fixed rotation", "transform", "enabled", "type", "user data", "mass data"][k];
    ctx.hit(&format!("body_{}", name.replace(' ', "_")));
    let r = &mut ctx.rng;
    let what = |v: String| format!("setting the {} of {} ({:?}) to {}", name, o, t, v);
    match k {
        0 => { b.borrow_mut().set_linear_damping(x.abs()); (what(x.abs().to_string()), ch.put(&o, "linear damping", f(x.abs())), true) }
        1 => { b.borrow_mut().set_angular_damping(x.abs()); (what(x.abs().to_string()), ch.put(&o, "angular damping", f(x.abs())), true) }
        2 => { b.borrow_mut().set_gravity_scale(x); (what(x.to_string()), ch.put(&o, "gravity scale", f(x)), true) }
        3 => { b.borrow_mut().set_bullet(flag); (what(flag.to_string()), ch.put(&o, "bullet", bo(flag)), true) }
        4 => {
            b.borrow_mut().set_sleeping_allowed(flag);
            let c = ch.put(&o, "sleeping allowed", bo(flag));
            // "if you disable sleeping, the body will be woken"
            let c = if !flag && t != STATIC { c.put(&o, "awake", bo(true)) } else { c };
            (what(flag.to_string()), c, true)
        }
        5 => {
            b.borrow_mut().set_awake(flag);
            if t == STATIC { return (what(flag.to_string()), ch.any(&o, &["awake"]), true); }
            let c = ch.put(&o, "awake", bo(flag));
            (what(flag.to_string()), if flag { c } else { c.put(&o, "velocity", vec![0.0, 0.0]).put(&o, "angular velocity", vec![0.0]) }, true)
        }
        6 => {
            let v = if r.chance(0.2) { b2v(0.0, 0.0) } else { r.vec(8.0) };
            b.borrow_mut().set_linear_velocity(v);
            if t == STATIC { return (what(format!("{:?}", v)), ch, true); }
            let c = ch.put(&o, "velocity", p2(v));
            (what(format!("{:?}", v)), if v != b2v(0.0, 0.0) || awake { c.put(&o, "awake", bo(true)) } else { c }, true)
        }
        7 => {
            let v = if r.chance(0.2) { 0.0 } else { x };
            b.borrow_mut().set_angular_velocity(v);
            if t == STATIC { return (what(v.to_string()), ch, true); }
            let c = ch.put(&o, "angular velocity", f(v));
            (what(v.to_string()), if v != 0.0 || awake { c.put(&o, "awake", bo(true)) } else { c }, true)
        }
        8 => {
            let was = b.borrow().is_fixed_rotation();
            b.borrow_mut().set_fixed_rotation(flag);
            if was == flag { return (what(flag.to_string()), ch, true); }
            // the mass is worked out again, so a body with a mass set by hand changes
            let c = ch.put(&o, "fixed rotation", bo(flag)).put(&o, "angular velocity", vec![0.0]).any(&o, &["mass", "inertia", "mass data mass", "mass data inertia", "local centre", "world centre", "mass data centre", "velocity"]);
            (what(flag.to_string()), c, true)
        }
        9 => {
            let p = r.vec(6.0);
            let a = r.f(-9.0, 9.0);
            b.borrow_mut().set_transform(p, a);
            let (s, c) = ((a as f64).sin(), (a as f64).cos());
            let q = b.borrow().get_transform().q;
            ctx.check((q.s as f64 - s).abs() < 1e-6 && (q.c as f64 - c).abs() < 1e-6, || format!("a body turned to {} has sine {} and cosine {}", a, q.s, q.c));
            let lc = b.borrow().get_local_center();
            let wc = d(b.borrow().get_world_center());
            let exp = Xf::new(d(p), a as f64).mul(d(lc));
            ctx.check((wc - exp).len() < 1e-5 * (1.0 + exp.len()), || format!("centre {:?} after placing, expected {:?}", wc, exp));
            (what(format!("{:?} {}", p, a)), ch.put(&o, "position", p2(p)).put(&o, "transform", p2(p)).put(&o, "angle", f(a)).any(&o, &["sine", "cosine", "world centre"]), true)
        }
        10 => { B2body::set_enabled(b.clone(), flag); (what(flag.to_string()), ch.put(&o, "enabled", bo(flag)), false) }
        11 => {
            let n = *r.pick(&[STATIC, KINEMATIC, DYNAMIC]);
            // the bodies turned by a gear must stay dynamic
            if sim.joints.iter().any(|g| g.deps.iter().any(|q| sim.joints.iter().any(|j| j.id == *q && (j.a == id || j.b == id)))) { return (String::new(), ch, true); }
            B2body::set_type(b.clone(), n);
            if n == t { return (what(format!("{:?}", n)), ch, true); }
            let mut c = ch.put(&o, "type", vec![n as i32 as f64]).any(&o, &["mass", "inertia", "mass data mass", "mass data inertia", "local centre", "world centre", "mass data centre"]);
            // a dynamic body's centre moves to its own mass and its velocity with it
            c = if n == STATIC { c.put(&o, "velocity", vec![0.0, 0.0]).put(&o, "angular velocity", vec![0.0]).any(&o, &["awake"]) } else { c.any(&o, &["velocity"]).put(&o, "awake", bo(true)) };
            (what(format!("{:?}", n)), c, false)
        }
        12 => {
            let n = sim.id();
            b.borrow_mut().set_user_data(&Tok::new(n));
            ctx.check(b.borrow().get_user_data().map(|t| t.id) == Some(n), || "body user data is not what was set".into());
            b.borrow_mut().set_user_data(&Tok::new(id));
            (what(n.to_string()), ch, true)
        }
        _ => {
            if t != DYNAMIC { 
                let m = B2massData { mass: 2.0, center: b2v(0.5, 0.5), i: 3.0 };
                b.borrow_mut().set_mass_data(&m);
                return (what("some".into()), ch, true);
            }
            let c = r.vec(0.6);
            let m = if r.chance(0.15) { 0.0 } else { r.log(0.1, 20.0) };
            let me = if m > 0.0 { m } else { 1.0 };
            let own = r.log(0.05, 10.0);
            let i = own + me * (c.x * c.x + c.y * c.y);
            let fixed = b.borrow().is_fixed_rotation();
            b.borrow_mut().set_mass_data(&B2massData { mass: m, center: c, i });
            let bb = b.borrow();
            let mut g = B2massData::default();
            bb.get_mass_data(&mut g);
            ctx.check(bb.get_mass() == me && g.mass == me, || format!("mass {} set, {} and {} reported", m, bb.get_mass(), g.mass));
            ctx.check(bb.get_local_center() == c && g.center == c, || format!("centre {:?} set, {:?} and {:?} reported", c, bb.get_local_center(), g.center));
            let exp = if fixed { (me * (c.x * c.x + c.y * c.y)) as f64 } else { i as f64 };
            ctx.check((bb.get_inertia() as f64 - exp).abs() <= 1e-5 * (1.0 + exp) && (g.i as f64 - exp).abs() <= 1e-5 * (1.0 + exp), || format!("inertia {} expected, {} and {} reported", exp, bb.get_inertia(), g.i));
            (what(format!("{} {:?} {}", m, c, i)), ch.any(&o, &["mass", "inertia", "mass data mass", "mass data inertia", "local centre", "world centre", "mass data centre", "velocity"]), true)
        }
    }
}
fn set_fixture(ctx: &mut Ctx, sim: &mut Sim) -> (String, Change, bool) {
    let all: Vec<(usize, usize)> = sim.bodies.iter().enumerate().flat_map(|(i, b)| (0..b.f.len()).map(move |j| (i, j))).collect();
    if all.is_empty() { return (String::new(), Change::default(), true); }
    let (i, j) = *ctx.rng.pick(&all);
    let q = sim.bodies[i].f[j].p.clone();
    let o = format!("fixture {}", sim.bodies[i].f[j].id);
    let ob = format!("body {}", sim.bodies[i].id);
    let ch = Change::default();
    let r = &mut ctx.rng;
    let k = r.below(7);
    let name = ["density", "friction", "restitution", "restitution threshold", "sensor", "filter", "user data"][k];
    let x = r.f(0.0, 4.0);
    let flag = r.chance(0.5);
    ctx.hit(&format!("fixture_{}", name.replace(' ', "_")));
    let what = |v: String| format!("setting the {} of {} to {}", name, o, v);
    match k {
        0 => { q.borrow_mut().set_density(x); (what(x.to_string()), ch.put(&o, "density", f(x)), true) }
        1 => { q.borrow_mut().set_friction(x); (what(x.to_string()), ch.put(&o, "friction", f(x)), true) }
        2 => { q.borrow_mut().set_restitution(x); (what(x.to_string()), ch.put(&o, "restitution", f(x)), true) }
        3 => { q.borrow_mut().set_restitution_threshold(x); (what(x.to_string()), ch.put(&o, "restitution threshold", f(x)), true) }
        4 => {
            q.borrow_mut().set_sensor(flag);
            let awake = sim.bodies[i].p.borrow().is_awake();
            let c = ch.put(&o, "sensor", bo(flag));
            // it may wake its body, not put it to sleep
            (what(flag.to_string()), if awake { c.any(&ob, &["awake"]) } else { c }, true)
        }
        5 => {
            let n = B2filter { category_bits: ctx.rng.u32() as u16, mask_bits: ctx.rng.u32() as u16, group_index: ctx.rng.u32() as i16 };
            q.borrow_mut().set_filter_data(n);
            (what("random".into()), ch.put(&o, "category", vec![n.category_bits as f64]).put(&o, "mask", vec![n.mask_bits as f64]).put(&o, "group", vec![n.group_index as f64]), true)
        }
        _ => {
            let n = sim.id();
            q.borrow_mut().set_user_data(&Tok::new(n));
            ctx.check(q.borrow().get_user_data().map(|t| t.id) == Some(n), || "fixture user data is not what was set".into());
            let old = sim.bodies[i].f[j].id;
            q.borrow_mut().set_user_data(&Tok::new(old));
            (what(n.to_string()), ch, true)
        }
    }
}
fn set_world(ctx: &mut Ctx, sim: &mut Sim) -> (String, Change, bool) {
    let r = &mut ctx.rng;
    let k = r.below(6);
    let flag = r.chance(0.5);
    let g = r.vec(12.0);
    let ch = Change::default();
    let name = ["allow sleeping", "warm starting", "continuous", "sub-stepping", "auto clear", "gravity"][k];
    ctx.hit(&format!("world_{}", name.replace(' ', "_").replace('-', "_")));
    let mut w = sim.w.borrow_mut();
    let was = w.get_allow_sleeping();
    match k {
        0 => w.set_allow_sleeping(flag),
        1 => w.set_warm_starting(flag),
        2 => w.set_continuous_physics(flag),
        3 => w.set_sub_stepping(flag),
        4 => w.set_auto_clear_forces(flag),
        _ => w.set_gravity(g),
    }
    drop(w);
    let mut c = ch.put("world", name, if k == 5 { p2(g) } else { bo(flag) });
    if k == 0 && !flag && was {
        // turning sleep off wakes everything; leaving it off need not
        let ids: Vec<(u32, bool)> = sim.bodies.iter().map(|b| (b.id, b.p.borrow().get_type() == STATIC)).collect();
        for (id, st) in ids { let o = format!("body {}", id); c = if st { c.any(&o, &["awake"]) } else { c.put(&o, "awake", bo(true)) }; }
    }
    (format!("setting the world's {} to {:?}", name, if k == 5 { format!("{:?}", g) } else { flag.to_string() }), c, true)
}
fn set_joint(ctx: &mut Ctx, sim: &mut Sim) -> (String, Change, bool) {
    if sim.joints.is_empty() { return (String::new(), Change::default(), true); }
    let i = ctx.rng.below(sim.joints.len());
    let (p, id, kind) = (sim.joints[i].p.clone(), sim.joints[i].id, sim.joints[i].kind);
    let o = format!("joint {}", id);
    // a setter may wake the joint's bodies, never put one to sleep: a body is excused only once it is awake
    let awake_was: Vec<(String, BodyPtr<UD>)> = {
        let q = p.borrow();
        vec![q.get_base().get_body_a(), q.get_base().get_body_b()].into_iter().map(|b| (format!("body {}", b.borrow().get_user_data().map_or(0, |t| t.id)), b)).collect()
    };
    let r = &mut ctx.rng;
    let (x, y, flag, v) = (r.f(0.0, 6.0), r.f(0.0, 6.0), r.chance(0.5), r.vec(4.0));
    let s = r.f(-6.0, 6.0);
    let k = r.below(6);
    let ch = Change::default();
    if k == 5 && r.chance(0.3) {
        let n = sim.id();
        p.borrow_mut().get_base_mut().set_user_data(Tok::new(n));
        ctx.check(p.borrow().get_base().get_user_data().map(|t| t.id) == Some(n), || "joint user data is not what was set".into());
        p.borrow_mut().get_base_mut().set_user_data(Tok::new(id));
        ctx.hit("joint_user_data");
        return (format!("setting the user data of {} ({:?})", o, kind), ch, true);
    }
    let slop = 0.005f32;
    let (what, mut ch): (String, Change) = match p.borrow_mut().as_derived_mut() {
        JointAsDerivedMut::EDistanceJoint(j) => match k {
            0 => { let l = x - 0.3; let e = l.max(slop); let g = j.set_length(l); ctx.check(g == e, || format!("set_length({}) returned {}, expected {}", l, g, e)); (format!("length {}", l), ch.put(&o, "length", f(e))) }
            1 => { let l = x - 0.3; let e = l.max(slop).min(j.get_max_length()); let g = j.set_min_length(l); ctx.check(g == e, || format!("set_min_length({}) with maximum {} returned {}, expected {}", l, j.get_max_length(), g, e)); (format!("min length {}", l), ch.put(&o, "min length", f(e))) }
            2 => { let l = x; let e = l.max(j.get_min_length()); let g = j.set_max_length(l); ctx.check(g == e, || format!("set_max_length({}) with minimum {} returned {}, expected {}", l, j.get_min_length(), g, e)); (format!("max length {}", l), ch.put(&o, "max length", f(e))) }
            3 => { j.set_stiffness(x); (format!("stiffness {}", x), ch.put(&o, "stiffness", f(x))) }
            _ => { j.set_damping(x); (format!("damping {}", x), ch.put(&o, "damping", f(x))) }
        },
        JointAsDerivedMut::EFrictionJoint(j) => match k % 2 {
            0 => { j.set_max_force(x); (format!("max force {}", x), ch.put(&o, "max force", f(x))) }
            _ => { j.set_max_torque(x); (format!("max torque {}", x), ch.put(&o, "max torque", f(x))) }
        },
        JointAsDerivedMut::EGearJoint(j) => { j.set_ratio(s); (format!("ratio {}", s), ch.put(&o, "ratio", f(s))) }
        JointAsDerivedMut::EMouseJoint(j) => match k % 4 {
            0 => { j.set_target(v); (format!("target {:?}", v), ch.put(&o, "target", p2(v))) }
            1 => { j.set_max_force(x); (format!("max force {}", x), ch.put(&o, "max force", f(x))) }
            2 => { j.set_stiffness(x); (format!("stiffness {}", x), ch.put(&o, "stiffness", f(x))) }
            _ => { j.set_damping(x); (format!("damping {}", x), ch.put(&o, "damping", f(x))) }
        },
        JointAsDerivedMut::EMotorJoint(j) => match k {
            0 => { let v = if flag { b2v(v.x, j.get_linear_offset().y) } else { b2v(j.get_linear_offset().x, v.y) }; j.set_linear_offset(v); (format!("linear offset {:?}", v), ch.put(&o, "linear offset", p2(v))) }
            1 => { j.set_angular_offset(s); (format!("angular offset {}", s), ch.put(&o, "angular offset", f(s))) }
            2 => { j.set_max_force(x); (format!("max force {}", x), ch.put(&o, "max force", f(x))) }
            3 => { j.set_max_torque(x); (format!("max torque {}", x), ch.put(&o, "max torque", f(x))) }
            _ => { j.set_correction_factor(x / 6.0); (format!("correction factor {}", x / 6.0), ch.put(&o, "correction factor", f(x / 6.0))) }
        },
        JointAsDerivedMut::EPulleyJoint(_) => return (String::new(), ch, true),
        JointAsDerivedMut::ERevoluteJoint(j) => match k {
            0 => { j.enable_limit(flag); (format!("limit enabled {}", flag), ch.put(&o, "limit enabled", bo(flag))) }
            1 => { let (l, u) = limits(s, x, j.get_lower_limit(), j.get_upper_limit()); j.set_limits(l, u); (format!("limits {} {}", l, u), ch.put(&o, "lower", f(l)).put(&o, "upper", f(u))) }
            2 => { j.enable_motor(flag); (format!("motor enabled {}", flag), ch.put(&o, "motor enabled", bo(flag))) }
            3 => { j.set_motor_speed(s); (format!("motor speed {}", s), ch.put(&o, "motor speed", f(s))) }
            _ => { j.set_max_motor_torque(y); (format!("max motor {}", y), ch.put(&o, "max motor", f(y))) }
        },
        JointAsDerivedMut::EPrismaticJoint(j) => match k {
            0 => { j.enable_limit(flag); (format!("limit enabled {}", flag), ch.put(&o, "limit enabled", bo(flag))) }
            1 => { let (l, u) = limits(s, x, j.get_lower_limit(), j.get_upper_limit()); j.set_limits(l, u); (format!("limits {} {}", l, u), ch.put(&o, "lower", f(l)).put(&o, "upper", f(u))) }
            2 => { j.enable_motor(flag); (format!("motor enabled {}", flag), ch.put(&o, "motor enabled", bo(flag))) }
            3 => { j.set_motor_speed(s); (format!("motor speed {}", s), ch.put(&o, "motor speed", f(s))) }
            _ => { j.set_max_motor_force(y); (format!("max motor {}", y), ch.put(&o, "max motor", f(y))) }
        },
        JointAsDerivedMut::EWeldJoint(j) => match k % 2 {
            0 => { j.set_stiffness(x); (format!("stiffness {}", x), ch.put(&o, "stiffness", f(x))) }
            _ => { j.set_damping(x); (format!("damping {}", x), ch.put(&o, "damping", f(x))) }
        },
        JointAsDerivedMut::EWheelJoint(j) => match ctx.rng.below(7) {
            0 => { j.enable_limit(flag); (format!("limit enabled {}", flag), ch.put(&o, "limit enabled", bo(flag))) }
            1 => { let (l, u) = limits(s, x, j.get_lower_limit(), j.get_upper_limit()); j.set_limits(l, u); (format!("limits {} {}", l, u), ch.put(&o, "lower", f(l)).put(&o, "upper", f(u))) }
            2 => { j.enable_motor(flag); (format!("motor enabled {}", flag), ch.put(&o, "motor enabled", bo(flag))) }
            3 => { j.set_motor_speed(s); (format!("motor speed {}", s), ch.put(&o, "motor speed", f(s))) }
            4 => { j.set_max_motor_torque(y); (format!("max motor {}", y), ch.put(&o, "max motor", f(y))) }
            5 => { j.set_stiffness(x); (format!("stiffness {}", x), ch.put(&o, "stiffness", f(x))) }
            _ => { j.set_damping(x); (format!("damping {}", x), ch.put(&o, "damping", f(x))) }
        },
    };
    ctx.hit(&format!("joint_{:?}", kind).to_lowercase());
    for (n, b) in awake_was.iter() { if b.borrow().is_awake() { ch = ch.any(n, &["awake"]); } }
    (format!("setting on {} ({:?}): {}", o, kind, what), ch, true)
}
/// new limits, often with one of the two left as it was
fn limits(s: f32, x: f32, l: f32, u: f32) -> (f32, f32) {
    if x < 1.5 { (s.min(u), u) } else if x < 3.0 { (l, s.max(l)) } else { (s, s + x) }
}
fn lists(ctx: &mut Ctx, sim: &Sim) {
    let w = sim.w.borrow();
    let mut want: Vec<usize> = sim.bodies.iter().map(|b| Rc::as_ptr(&b.p) as *const u8 as usize).collect();
    let mut got: Vec<usize> = w.get_body_list().iter().map(|b| Rc::as_ptr(&b) as *const u8 as usize).collect();
    let mut chain: Vec<usize> = vec![];
    let mut at = w.get_body_list().iter().next();
    while let Some(b) = at { chain.push(Rc::as_ptr(&b) as *const u8 as usize); at = b.borrow().get_next(); if chain.len() > 1000 { break; } }
    ctx.check(chain == got, || "following the bodies one by one gives another list than the world".into());
    want.sort();
    got.sort();
    ctx.check(want == got && w.get_body_count() == want.len(), || format!("{} bodies in the list, {} counted, {} made", got.len(), w.get_body_count(), want.len()));
    for b in sim.bodies.iter() {
        let mut want: Vec<usize> = b.f.iter().map(|q| Rc::as_ptr(&q.p) as *const u8 as usize).collect();
        let mut got: Vec<usize> = b.p.borrow().get_fixture_list().iter().map(|q| Rc::as_ptr(&q) as *const u8 as usize).collect();
        let mut chain: Vec<usize> = vec![];
        let mut at = b.p.borrow().get_fixture_list().iter().next();
        while let Some(q) = at { chain.push(Rc::as_ptr(&q) as *const u8 as usize); at = q.borrow().get_next(); if chain.len() > 1000 { break; } }
        ctx.check(chain == got, || "following the fixtures one by one gives another list than the body".into());
        want.sort();
        got.sort();
        ctx.check(want == got, || format!("{} fixtures in the list, {} made", got.len(), want.len()));
        for q in b.f.iter() { ctx.check(Rc::ptr_eq(&q.p.borrow().get_body(), &b.p), || "a fixture names another body".into()); }
        let n = sim.joints.iter().filter(|j| j.a == b.id || j.b == b.id).count();
        let g = b.p.borrow().get_joint_list().iter().count();
        ctx.check(n == g, || format!("a body lists {} joints, {} were made", g, n));
    }
    let mut want: Vec<usize> = sim.joints.iter().map(|b| Rc::as_ptr(&b.p) as *const u8 as usize).collect();
    let list: Vec<B2jointPtr<UD>> = w.get_joint_list().iter().collect();
    let mut got: Vec<usize> = list.iter().map(|b| Rc::as_ptr(b) as *const u8 as usize).collect();
    for i in 1..list.len() {
        let n = list[i - 1].borrow().get_base().get_next();
        ctx.check(Rc::as_ptr(&n) as *const u8 as usize == got[i], || "following the joints one by one gives another list than the world".into());
    }
    want.sort();
    got.sort();
    ctx.check(want == got && w.get_joint_count() == want.len(), || format!("{} joints in the list, {} counted, {} made", got.len(), w.get_joint_count(), want.len()));
    let list = sim.contacts();
    ctx.check(list.len() == w.get_contact_count(), || format!("{} contacts in the list, {} counted", list.len(), w.get_contact_count()));
    let mut at = list.first().cloned();
    let mut k = 0;
    while let Some(c) = at {
        ctx.check(k < list.len() && Rc::as_ptr(&c) as *const u8 == Rc::as_ptr(&list[k]) as *const u8, || "following the contacts one by one gives another list than the world".into());
        k += 1;
        if k > list.len() { break; }
        at = c.borrow().get_base().get_next();
    }
    ctx.check(k == list.len(), || "following the contacts one by one stops early".into());
    for b in sim.bodies.iter() {
        let n = list.iter().filter(|c| { let c = c.borrow(); let c = c.get_base(); Rc::ptr_eq(&c.get_fixture_a().borrow().get_body(), &b.p) || Rc::ptr_eq(&c.get_fixture_b().borrow().get_body(), &b.p) }).count();
        let g = b.p.borrow().get_contact_list().iter().count();
        ctx.check(n == g, || format!("a body lists {} contacts, the world lists {} of it", g, n));
    }
    ctx.hit("lists");
}

// ---------------------------------------------------------------------------------------------------- joints

fn c46_joint(ctx: &mut Ctx) {
    let mut sim = Sim::new(b2v(0.0, -10.0));
    for k in 0..3 {
        let t = if k == 0 { *ctx.rng.pick(&[STATIC, KINEMATIC, DYNAMIC]) } else { DYNAMIC };
        let mut def = Sim::def(t, ctx.rng.vec(4.0), if ctx.rng.chance(0.2) { ctx.rng.f(-20.0, 20.0) } else { ctx.rng.angle() });
        if t != STATIC { def.linear_velocity = ctx.rng.vec(5.0); def.angular_velocity = ctx.rng.f(-4.0, 4.0); }
        def.fixed_rotation = ctx.rng.chance(0.1);
        let b = sim.add(def);
        for _ in 0..1 + ctx.rng.below(2) {
            let (s, kd) = rand_shape(&mut ctx.rng, true);
            let m = Fx::mat(ctx.rng.f(0.2, 3.0), 0.3, 0.0);
            sim.fixture(b, &s, kd, &m);
        }
    }
    let (a, b) = *ctx.rng.pick(&[(0usize, 1usize), (1, 0), (1, 2), (2, 1)]);
    let (pa, pb) = (sim.b(a), sim.b(b));
    let (xa, xb) = (Xf::new(d(pa.borrow().get_position()), pa.borrow().get_angle() as f64), Xf::new(d(pb.borrow().get_position()), pb.borrow().get_angle() as f64));
    let kind = *ctx.rng.pick(&[JK::Distance, JK::Friction, JK::Gear, JK::Mouse, JK::Motor, JK::Pulley, JK::Revolute, JK::Prismatic, JK::Weld, JK::Wheel]);
    let collide = ctx.rng.chance(0.5);
    let (w1, w2) = (ctx.rng.vec(5.0), ctx.rng.vec(5.0));
    let axis = ctx.rng.dir();
    let r = &mut ctx.rng;
    let fr: Vec<f32> = (0..6).map(|_| r.f(0.0, 5.0)).collect();
    let (lo, up) = (r.f(-3.0, 0.0), r.f(0.0, 3.0));
    let (f1, f2) = (r.chance(0.5), r.chance(0.5));
    let speed = r.f(-5.0, 5.0);
    let loose = r.chance(0.4);
    let tol = 1e-5;
    let da = (pb.borrow().get_angle() - pa.borrow().get_angle()) as f64;
    let (la, lb) = (xa.inv_mul(d(w1)), xb.inv_mul(d(w2)));
    let lb1 = xb.inv_mul(d(w1));
    let lax = xa.inv_rot(d(axis));
    let name = format!("a new {:?} joint", kind).to_lowercase();
    let vv = |p: V| vec![p.x, p.y];
    // what each getter should say; the definition is either initialised from the placement or filled in by hand
    let mut exp: Vec<(&'static str, Vec<f64>)> = vec![];
    // where the anchors should be in the world
    let (mut ea, mut eb) = (None, None);
    macro_rules! base { ($t:expr) => { sim.jbase($t, a, b, collide) } }
    macro_rules! bodies_set { ($f:expr) => { ctx.check(Rc::ptr_eq($f.base.body_a.as_ref().unwrap(), &pa) && Rc::ptr_eq($f.base.body_b.as_ref().unwrap(), &pb), || format!("initialising {} does not name the bodies", name)); } }
    let ji = match kind {
        JK::Distance => {
            let mut q = B2distanceJointDef::default();
            q.base = base!(B2jointType::EDistanceJoint);
            q.base.body_a = None;
            q.base.body_b = None;
            q.initialize(pa.clone(), pb.clone(), w1, w2);
            bodies_set!(q);
            let len = (d(w1) - d(w2)).len();
            ctx.check((q.length as f64 - len).abs() < 1e-5 * (1.0 + len) && q.min_length == q.length && q.max_length == q.length, || format!("initialised lengths {} {} {} where the anchors are {} apart", q.length, q.min_length, q.max_length, len));
            exp.push(("anchor a", vv(la)));
            exp.push(("anchor b", vv(lb)));
            if loose { q.length = fr[0]; q.min_length = fr[1]; q.max_length = fr[2]; }
            q.stiffness = fr[3];
            q.damping = fr[4];
            let mn = (q.min_length as f64).max(0.005f32 as f64);
            exp.push(("length", vec![(q.length as f64).max(0.005f32 as f64)]));
            exp.push(("min length", vec![mn]));
            exp.push(("max length", vec![(q.max_length as f64).max(mn)]));
            exp.push(("stiffness", f(fr[3])));
            exp.push(("damping", f(fr[4])));
            ea = Some(d(w1));
            eb = Some(d(w2));
            sim.joint(B2JointDefEnum::DistanceJoint(q), kind, a, b, collide)
        }
        JK::Friction => {
            let mut q = B2frictionJointDef::default();
            q.base = base!(B2jointType::EFrictionJoint);
            q.initialize(pa.clone(), pb.clone(), w1);
            bodies_set!(q);
            exp.push(("anchor a", vv(la)));
            exp.push(("anchor b", vv(lb1)));
            q.max_force = fr[0];
            q.max_torque = fr[1];
            exp.push(("max force", f(fr[0])));
            exp.push(("max torque", f(fr[1])));
            ea = Some(d(w1));
            eb = Some(d(w1));
            sim.joint(B2JointDefEnum::FrictionJoint(q), kind, a, b, collide)
        }
        JK::Mouse => {
            let mut q = B2mouseJointDef::default();
            q.base = base!(B2jointType::EMouseJoint);
            q.target = w1;
            q.max_force = fr[0];
            q.stiffness = fr[1];
            q.damping = fr[2];
            exp.push(("target", p2(w1)));
            exp.push(("max force", f(fr[0])));
            exp.push(("stiffness", f(fr[1])));
            exp.push(("damping", f(fr[2])));
            ea = Some(d(w1));
            eb = Some(d(w1));
            sim.joint(B2JointDefEnum::MouseJoint(q), kind, a, b, collide)
        }
        JK::Motor => {
            let mut q = B2motorJointDef::default();
            q.base = base!(B2jointType::EMotorJoint);
            q.initialize(pa.clone(), pb.clone());
            bodies_set!(q);
            exp.push(("linear offset", vv(xa.inv_mul(xb.p))));
            exp.push(("angular offset", vec![da]));
            if loose { q.linear_offset = w2; q.angular_offset = speed; exp = vec![("linear offset", p2(w2)), ("angular offset", f(speed))]; }
            q.max_force = fr[0];
            q.max_torque = fr[1];
            q.correction_factor = fr[2] / 5.0;
            exp.push(("max force", f(fr[0])));
            exp.push(("max torque", f(fr[1])));
            exp.push(("correction factor", f(fr[2] / 5.0)));
            ea = Some(xa.p);
            eb = Some(xb.p);
            sim.joint(B2JointDefEnum::MotorJoint(q), kind, a, b, collide)
        }
        JK::Pulley => {
            let mut q = B2pulleyJointDef::default();
            q.base = base!(B2jointType::EPulleyJoint);
            let (g1, g2) = (ctx.rng.vec(8.0), ctx.rng.vec(8.0));
            q.initialize(pa.clone(), pb.clone(), g1, g2, w1, w2, fr[0] + 0.1);
            bodies_set!(q);
            q.base.collide_connected = collide;
            exp.push(("ground anchor a", p2(g1)));
            exp.push(("ground anchor b", p2(g2)));
            exp.push(("length a", vec![(d(w1) - d(g1)).len()]));
            exp.push(("length b", vec![(d(w2) - d(g2)).len()]));
            if loose { q.length_a = fr[1]; q.length_b = fr[2]; exp.truncate(2); exp.push(("length a", f(fr[1]))); exp.push(("length b", f(fr[2]))); }
            exp.push(("ratio", f(fr[0] + 0.1)));
            ea = Some(d(w1));
            eb = Some(d(w2));
            sim.joint(B2JointDefEnum::PulleyJoint(q), kind, a, b, collide)
        }
        JK::Revolute => {
            let mut q = B2revoluteJointDef::default();
            q.base = base!(B2jointType::ERevoluteJoint);
            q.initialize(pa.clone(), pb.clone(), w1);
            bodies_set!(q);
            exp.push(("anchor a", vv(la)));
            exp.push(("anchor b", vv(lb1)));
            exp.push(("reference angle", vec![da]));
            ea = Some(d(w1));
            eb = Some(d(w1));
            if loose { q.local_anchor_a = w1; q.local_anchor_b = w2; q.reference_angle = speed; exp = vec![("anchor a", p2(w1)), ("anchor b", p2(w2)), ("reference angle", f(speed))]; ea = Some(xa.mul(d(w1))); eb = Some(xb.mul(d(w2))); }
            q.enable_limit = f1; q.lower_angle = lo; q.upper_angle = up; q.enable_motor = f2; q.motor_speed = speed; q.max_motor_torque = fr[0];
            exp.extend(vec![("limit enabled", bo(f1)), ("lower", f(lo)), ("upper", f(up)), ("motor enabled", bo(f2)), ("motor speed", f(speed)), ("max motor", f(fr[0]))]);
            sim.joint(B2JointDefEnum::RevoluteJoint(q), kind, a, b, collide)
        }
        JK::Prismatic => {
            let mut q = B2prismaticJointDef::default();
            q.base = base!(B2jointType::EPrismaticJoint);
            q.initialize(pa.clone(), pb.clone(), w1, axis);
            bodies_set!(q);
            exp.push(("anchor a", vv(la)));
            exp.push(("anchor b", vv(lb1)));
            exp.push(("axis", vv(lax)));
            exp.push(("reference angle", vec![da]));
            ea = Some(d(w1));
            eb = Some(d(w1));
            if loose { q.local_anchor_a = w1; q.local_anchor_b = w2; q.local_axis_a = axis; q.reference_angle = speed; exp = vec![("anchor a", p2(w1)), ("anchor b", p2(w2)), ("axis", p2(axis)), ("reference angle", f(speed))]; ea = Some(xa.mul(d(w1))); eb = Some(xb.mul(d(w2))); }
            q.enable_limit = f1; q.lower_translation = lo; q.upper_translation = up; q.enable_motor = f2; q.motor_speed = speed; q.max_motor_force = fr[0];
            exp.extend(vec![("limit enabled", bo(f1)), ("lower", f(lo)), ("upper", f(up)), ("motor enabled", bo(f2)), ("motor speed", f(speed)), ("max motor", f(fr[0]))]);
            sim.joint(B2JointDefEnum::PrismaticJoint(q), kind, a, b, collide)
        }
        JK::Weld => {
            let mut q = B2weldJointDef::default();
            q.base = base!(B2jointType::EWeldJoint);
            q.initialize(pa.clone(), pb.clone(), w1);
            bodies_set!(q);
            exp.push(("anchor a", vv(la)));
            exp.push(("anchor b", vv(lb1)));
            exp.push(("reference angle", vec![da]));
            ea = Some(d(w1));
            eb = Some(d(w1));
            if loose { q.local_anchor_a = w1; q.local_anchor_b = w2; q.reference_angle = speed; exp = vec![("anchor a", p2(w1)), ("anchor b", p2(w2)), ("reference angle", f(speed))]; ea = Some(xa.mul(d(w1))); eb = Some(xb.mul(d(w2))); }
            q.stiffness = fr[0];
            q.damping = fr[1];
            exp.push(("stiffness", f(fr[0])));
            exp.push(("damping", f(fr[1])));
            sim.joint(B2JointDefEnum::WeldJoint(q), kind, a, b, collide)
        }
        JK::Wheel => {
            let mut q = B2wheelJointDef::default();
            q.base = base!(B2jointType::EWheelJoint);
            q.initialize(pa.clone(), pb.clone(), w1, axis);
            bodies_set!(q);
            exp.push(("anchor a", vv(la)));
            exp.push(("anchor b", vv(lb1)));
            exp.push(("axis", vv(lax)));
            ea = Some(d(w1));
            eb = Some(d(w1));
            if loose { q.local_anchor_a = w1; q.local_anchor_b = w2; q.local_axis_a = axis; exp = vec![("anchor a", p2(w1)), ("anchor b", p2(w2)), ("axis", p2(axis))]; ea = Some(xa.mul(d(w1))); eb = Some(xb.mul(d(w2))); }
            q.enable_limit = f1; q.lower_translation = lo; q.upper_translation = up; q.enable_motor = f2; q.motor_speed = speed; q.max_motor_torque = fr[0];
            q.stiffness = fr[1];
            q.damping = fr[2];
            exp.extend(vec![("limit enabled", bo(f1)), ("lower", f(lo)), ("upper", f(up)), ("motor enabled", bo(f2)), ("motor speed", f(speed)), ("max motor", f(fr[0])), ("stiffness", f(fr[1])), ("damping", f(fr[2]))]);
            sim.joint(B2JointDefEnum::WheelJoint(q), kind, a, b, collide)
        }
        JK::Gear => {
            // 1 and 2 hang on 0
            let k1 = *ctx.rng.pick(&[JK::Revolute, JK::Prismatic]);
            let k2 = *ctx.rng.pick(&[JK::Revolute, JK::Prismatic]);
            let j1 = make_joint(&mut sim, &mut ctx.rng, k1, 0, 1).unwrap();
            let j2 = make_joint(&mut sim, &mut ctx.rng, k2, 0, 2).unwrap();
            let mut q = B2gearJointDef::default();
            let (g1, g2) = if f1 { (j1, j2) } else { (j2, j1) };
            let (ga, gb) = if f1 { (1, 2) } else { (2, 1) };
            q.base = sim.jbase(B2jointType::EGearJoint, ga, gb, collide);
            q.joint1 = Some(sim.joints[g1].p.clone());
            q.joint2 = Some(sim.joints[g2].p.clone());
            q.ratio = speed;
            exp.push(("joint 1", vec![sim.joints[g1].id as f64]));
            exp.push(("joint 2", vec![sim.joints[g2].id as f64]));
            exp.push(("ratio", f(speed)));
            exp.push(("first body", vec![sim.bodies[ga].id as f64]));
            exp.push(("second body", vec![sim.bodies[gb].id as f64]));
            sim.joint(B2JointDefEnum::GearJoint(q), kind, ga, gb, collide)
        }
    };
    let j = sim.joints[ji].p.clone();
    let got = joint_vals(&*j.borrow());
    if kind != JK::Gear {
        exp.push(("first body", vec![sim.bodies[a].id as f64]));
        exp.push(("second body", vec![sim.bodies[b].id as f64]));
    }
    exp.push(("user data", vec![sim.joints[ji].id as f64]));
    exp.push(("collide connected", bo(collide)));
    for (n, e) in exp.iter() { want(ctx, &name, &got, *n, e, tol); }
    if let (Some(ea), Some(eb)) = (ea, eb) {
        let (ga, gb) = (d(j.borrow().get_anchor_a()), d(j.borrow().get_anchor_b()));
        ctx.check((ga - ea).len() < 1e-5 * (10.0 + ea.len()) && (gb - eb).len() < 1e-5 * (10.0 + eb.len()), || format!("{}: anchors {:?} {:?}, expected {:?} {:?}", name, ga, gb, ea, eb));
    }
    ctx.check(j.borrow().get_reaction_force(60.0) == b2v(0.0, 0.0) && j.borrow().get_reaction_torque(60.0) == 0.0, || format!("{} already pushes", name));
    ctx.check(j.borrow().get_base().is_enabled(), || format!("{} is not enabled", name));
    ctx.hit(&format!("new_{:?}", kind).to_lowercase());
    if ctx.failed() { return; }
    // the same numbers after the bodies have moved: the state getters follow the bodies
    for s in 0..3 {
        if s == 1 {
            for k in 0..3 { let (p, an) = (ctx.rng.vec(4.0), ctx.rng.f(-6.0, 6.0)); sim.b(k).borrow_mut().set_transform(p, an); }
        }
        if s == 2 { sim.step(); }
        joint_state(ctx, &sim, ji, s == 2);
        if ctx.failed() { return; }
    }
    // enabled as long as both bodies are
    let n = ctx.rng.below(2);
    let dead = if n == 0 { j.borrow().get_base().get_body_a() } else { j.borrow().get_base().get_body_b() };
    B2body::set_enabled(dead.clone(), false);
    ctx.check(!j.borrow().get_base().is_enabled(), || "a joint stays enabled when one of its bodies is not".into());
    B2body::set_enabled(dead, true);
    ctx.check(j.borrow().get_base().is_enabled(), || "a joint stays disabled when its bodies are enabled".into());
    let now = joint_vals(&*j.borrow());
    if let Some(x) = differ(&got, &now, 0.0) { ctx.fail(format!("{} changed its parameters without being told to: {}", name, x)); }
    ctx.distinct(ctx.idx);
}
fn joint_state(ctx: &mut Ctx, sim: &Sim, ji: usize, stepped: bool) {
    let j = sim.joints[ji].p.borrow();
    let (ra, rb) = (j.get_base().get_body_a(), j.get_base().get_body_b());
    let (a, b) = (ra.borrow(), rb.borrow());
    let (xa, xb) = (Xf::new(d(a.get_position()), a.get_angle() as f64), Xf::new(d(b.get_position()), b.get_angle() as f64));
    let vel = |q: &B2body<UD>, p: V| d(q.get_linear_velocity()) + q.get_angular_velocity() as f64 * (p - d(q.get_world_center())).perp();
    let (wa, wb) = (a.get_angular_velocity() as f64, b.get_angular_velocity() as f64);
    let ang = b.get_angle() as f64 - a.get_angle() as f64;
    let size = 10.0 + xa.p.len() + xb.p.len();
    let big = 1.0 + wa.abs() + wb.abs() + d(a.get_linear_velocity()).len() + d(b.get_linear_velocity()).len();
    let kind = sim.joints[ji].kind;
    let slide = |la: B2vec2, lb: B2vec2, ax: B2vec2| -> (f64, f64) {
        let (pa, pb, n) = (xa.mul(d(la)), xb.mul(d(lb)), xa.rot(d(ax)));
        ((pb - pa).dot(n), (vel(&b, pb) - vel(&a, pa)).dot(n) + (pb - pa).dot(wa * n.perp()))
    };
    let near = |ctx: &mut Ctx, what: &str, g: f64, e: f64, tol: f64| {
        ctx.check((g - e).abs() <= tol, || format!("{:?} joint: {} is {}, the bodies say {}", kind, what, g, e));
        ctx.hit("state_read");
    };
    let tl = 2e-6 * size;
    let ts = 4e-6 * size * big;
    match j.as_derived() {
        JointAsDerived::EDistanceJoint(q) => {
            let l = (xa.mul(d(q.get_local_anchor_a())) - xb.mul(d(q.get_local_anchor_b()))).len();
            near(ctx, "current length", q.get_current_length() as f64, l, tl);
        }
        JointAsDerived::EPulleyJoint(q) => {
            near(ctx, "current length a", q.get_current_length_a() as f64, (d(q.get_anchor_a()) - d(q.get_ground_anchor_a())).len(), tl);
            near(ctx, "current length b", q.get_current_length_b() as f64, (d(q.get_anchor_b()) - d(q.get_ground_anchor_b())).len(), tl);
        }
        JointAsDerived::ERevoluteJoint(q) => {
            near(ctx, "angle", q.get_joint_angle() as f64, ang - q.get_reference_angle() as f64, 1e-5 * (1.0 + ang.abs()));
            near(ctx, "speed", q.get_joint_speed() as f64, wb - wa, 1e-6 * big);
            let (a1, b1) = (xa.mul(d(q.get_local_anchor_a())), xb.mul(d(q.get_local_anchor_b())));
            near(ctx, "anchor a", (d(q.get_anchor_a()) - a1).len(), 0.0, tl);
            near(ctx, "anchor b", (d(q.get_anchor_b()) - b1).len(), 0.0, tl);
            if stepped { near(ctx, "motor torque", (q.get_motor_torque(60.0) - 2.0 * q.get_motor_torque(30.0)).abs() as f64, 0.0, 1e-4 * (1.0 + q.get_motor_torque(60.0).abs() as f64)); }
        }
        JointAsDerived::EPrismaticJoint(q) => {
            let (t, s) = slide(q.get_local_anchor_a(), q.get_local_anchor_b(), q.get_local_axis_a());
            near(ctx, "translation", q.get_joint_translation() as f64, t, tl);
            near(ctx, "speed", q.get_joint_speed() as f64, s, ts);
            if stepped { near(ctx, "motor force", (q.get_motor_force(60.0) - 2.0 * q.get_motor_force(30.0)).abs() as f64, 0.0, 1e-4 * (1.0 + q.get_motor_force(60.0).abs() as f64)); }
        }
        JointAsDerived::EWheelJoint(q) => {
            let (t, s) = slide(q.get_local_anchor_a(), q.get_local_anchor_b(), q.get_local_axis_a());
            near(ctx, "translation", q.get_joint_translation() as f64, t, tl);
            near(ctx, "linear speed", q.get_joint_linear_speed() as f64, s, ts);
            near(ctx, "angle", q.get_joint_angle() as f64, ang, 1e-5 * (1.0 + ang.abs()));
            near(ctx, "angular speed", q.get_joint_angular_speed() as f64, wb - wa, 1e-6 * big);
            if stepped { near(ctx, "motor torque", (q.get_motor_torque(60.0) - 2.0 * q.get_motor_torque(30.0)).abs() as f64, 0.0, 1e-4 * (1.0 + q.get_motor_torque(60.0).abs() as f64)); }
        }
        JointAsDerived::EMotorJoint(q) => {
            near(ctx, "anchor a", (d(q.get_anchor_a()) - xa.p).len(), 0.0, tl);
            near(ctx, "anchor b", (d(q.get_anchor_b()) - xb.p).len(), 0.0, tl);
        }
        JointAsDerived::EMouseJoint(q) => {
            near(ctx, "anchor a", (d(q.get_anchor_a()) - d(q.get_target())).len(), 0.0, tl);
        }
        JointAsDerived::EFrictionJoint(q) => {
            near(ctx, "anchor a", (d(q.get_anchor_a()) - xa.mul(d(q.get_local_anchor_a()))).len(), 0.0, tl);
            near(ctx, "anchor b", (d(q.get_anchor_b()) - xb.mul(d(q.get_local_anchor_b()))).len(), 0.0, tl);
        }
        JointAsDerived::EWeldJoint(q) => {
            near(ctx, "anchor a", (d(q.get_anchor_a()) - xa.mul(d(q.get_local_anchor_a()))).len(), 0.0, tl);
            near(ctx, "anchor b", (d(q.get_anchor_b()) - xb.mul(d(q.get_local_anchor_b()))).len(), 0.0, tl);
        }
        JointAsDerived::EGearJoint(q) => {
            let (j1, j2) = (q.get_joint1(), q.get_joint2());
            near(ctx, "anchor a", (d(q.get_anchor_a()) - d(j1.borrow().get_anchor_b())).len(), 0.0, tl);
            near(ctx, "anchor b", (d(q.get_anchor_b()) - d(j2.borrow().get_anchor_b())).len(), 0.0, tl);
        }
    }
}
/// spring constants from a frequency and a damping ratio
fn c46_spring(ctx: &mut Ctx) {
    let mut sim = Sim::new(b2v(0.0, -10.0));
    for _ in 0..2 {
        let t = *ctx.rng.pick(&[STATIC, KINEMATIC, DYNAMIC, DYNAMIC, DYNAMIC]);
        let m = Fx::mat(ctx.rng.log(0.1, 20.0), 0.3, 0.0);
        let (x, y) = (ctx.rng.log(0.1, 3.0), ctx.rng.log(0.1, 3.0));
        let p = ctx.rng.vec(5.0);
        sim.box_body(t, p, 0.0, x, y, &m);
    }
    let (a, b) = (sim.b(0), sim.b(1));
    let (hz, z) = (ctx.rng.log(0.1, 30.0), ctx.rng.f(0.0, 2.0));
    let two = |x: f64, y: f64| if x > 0.0 && y > 0.0 { x * y / (x + y) } else { x.max(y) };
    let m = two(a.borrow().get_mass() as f64, b.borrow().get_mass() as f64);
    let i = two(a.borrow().get_inertia() as f64, b.borrow().get_inertia() as f64);
    let w = 2.0 * std::f64::consts::PI * hz as f64;
    let (mut k, mut c) = (0.0, 0.0);
    b2_linear_stiffness(&mut k, &mut c, hz, z, a.clone(), b.clone());
    let near = |g: f32, e: f64| (g as f64 - e).abs() <= 1e-5 * (1e-3 + e.abs());
    ctx.check(near(k, m * w * w) && near(c, 2.0 * m * z as f64 * w), || format!("linear spring of {} Hz and ratio {} for mass {}: {} and {}, expected {} and {}", hz, z, m, k, c, m * w * w, 2.0 * m * z as f64 * w));
    b2_angular_stiffness(&mut k, &mut c, hz, z, a, b);
    ctx.check(near(k, i * w * w) && near(c, 2.0 * i * z as f64 * w), || format!("angular spring of {} Hz and ratio {} for inertia {}: {} and {}, expected {} and {}", hz, z, i, k, c, i * w * w, 2.0 * i * z as f64 * w));
    ctx.hit("spring");
    ctx.distinct(ctx.idx);
}

// ---------------------------------------------------------------------------------------------------- contacts

fn c46_contact(ctx: &mut Ctx) {
    let mut sim = Sim::new(b2v(0.0, 0.0));
    let mk = |r: &mut Rng| Fx { density: 1.0, friction: if r.chance(0.15) { 0.0 } else { r.f(0.0, 2.0) }, restitution: r.f(0.0, 1.2), threshold: r.f(0.0, 4.0), sensor: false, filter: B2filter::default() };
    let (m1, m2) = (mk(&mut ctx.rng), mk(&mut ctx.rng));
    let (k1, k2) = if ctx.rng.chance(0.5) { (solid_kind(&mut ctx.rng), kind(&mut ctx.rng)) } else { (kind(&mut ctx.rng), solid_kind(&mut ctx.rng)) };
    let (s1, s2) = (shape(&mut ctx.rng, k1, 1.0), shape(&mut ctx.rng, k2, 1.0));
    let a = sim.body(DYNAMIC, b2v(0.0, 0.0), 0.0);
    let b = sim.body(DYNAMIC, { let p = ctx.rng.vec(0.3); p }, { let x = ctx.rng.angle(); x });
    sim.fixture(a, &s1, k1, &m1);
    sim.fixture(b, &s2, k2, &m2);
    sim.step_dt(0.0);
    let cs = sim.contacts();
    if cs.is_empty() { ctx.hit("apart"); return; }
    let (q1, q2) = (sim.bodies[a].f[0].p.clone(), sim.bodies[b].f[0].p.clone());
    let mixed = |q1: &FixturePtr<UD>, q2: &FixturePtr<UD>| -> (f64, f64, f64) {
        let (q1, q2) = (q1.borrow(), q2.borrow());
        ((q1.get_friction() as f64 * q2.get_friction() as f64).sqrt(), q1.get_restitution().max(q2.get_restitution()) as f64, q1.get_restitution_threshold().min(q2.get_restitution_threshold()) as f64)
    };
    let e = mixed(&q1, &q2);
    let judge = |ctx: &mut Ctx, what: &str, c: &B2contact<UD>, e: (f64, f64, f64), t: f32| {
        ctx.check((c.get_friction() as f64 - e.0).abs() <= 1e-6 * (1.0 + e.0) && (c.get_restitution() as f64 - e.1).abs() <= 1e-6 && (c.get_restitution_threshold() as f64 - e.2).abs() <= 1e-6 && c.get_tangent_speed() == t, || format!("{}: friction {} restitution {} threshold {} tangent speed {}, expected {:?} and {}", what, c.get_friction(), c.get_restitution(), c.get_restitution_threshold(), c.get_tangent_speed(), e, t));
    };
    for c in cs.iter() {
        let c = c.borrow();
        let c = c.get_base();
        judge(ctx, "a new contact", c, e, 0.0);
        let (ca, cb) = (c.get_fixture_a(), c.get_fixture_b());
        ctx.check((Rc::ptr_eq(&ca, &q1) && Rc::ptr_eq(&cb, &q2)) || (Rc::ptr_eq(&ca, &q2) && Rc::ptr_eq(&cb, &q1)), || "a contact names other fixtures".into());
        let (na, nb) = (ca.borrow().get_shape().get_child_count() as i32, cb.borrow().get_shape().get_child_count() as i32);
        ctx.check(c.get_child_index_a() >= 0 && c.get_child_index_a() < na && c.get_child_index_b() >= 0 && c.get_child_index_b() < nb, || "a contact names a child that does not exist".into());
        ctx.check(c.is_enabled(), || "a new contact is not enabled".into());
        ctx.hit("contact");
    }
    if ctx.failed() { return; }
    // what the fixtures are set to later does not reach a standing contact until it is reset
    let n = mk(&mut ctx.rng);
    q1.borrow_mut().set_friction(n.friction);
    q1.borrow_mut().set_restitution(n.restitution);
    q1.borrow_mut().set_restitution_threshold(n.threshold);
    let c = cs[ctx.rng.below(cs.len())].clone();
    judge(ctx, "a contact whose fixture was changed", c.borrow().get_base(), e, 0.0);
    let e2 = mixed(&q1, &q2);
    let own = (ctx.rng.f(0.0, 3.0), ctx.rng.f(0.0, 1.0), ctx.rng.f(0.0, 4.0));
    let t = ctx.rng.f(-4.0, 4.0);
    let which = ctx.rng.below(8);
    let mut now = e;
    {
        let mut c = c.borrow_mut();
        let c = c.get_base_mut();
        if which & 1 != 0 { c.set_friction(own.0); now.0 = own.0 as f64; } else { c.reset_friction(); now.0 = e2.0; }
        judge(ctx, "a contact after its friction was set", c, now, 0.0);
        if which & 2 != 0 { c.set_restitution(own.1); now.1 = own.1 as f64; } else { c.reset_restitution(); now.1 = e2.1; }
        judge(ctx, "a contact after its restitution was set", c, now, 0.0);
        if which & 4 != 0 { c.set_restitution_threshold(own.2); now.2 = own.2 as f64; } else { c.reset_restitution_threshold(); now.2 = e2.2; }
        judge(ctx, "a contact after its threshold was set", c, now, 0.0);
        c.set_tangent_speed(t);
        judge(ctx, "a contact after its tangent speed was set", c, now, t);
        c.set_enabled(false);
        ctx.check(!c.is_enabled(), || "a contact is not disabled".into());
    }
    // these stay through steps; the disabling does not
    sim.step_dt(0.0);
    if sim.contacts().iter().any(|q| Rc::as_ptr(q) as *const u8 == Rc::as_ptr(&c) as *const u8) {
        judge(ctx, "a contact after an update", c.borrow().get_base(), now, t);
        ctx.check(c.borrow().get_base().is_enabled(), || "a contact stays disabled through an update".into());
        ctx.hit("contact_kept");
    }
    ctx.distinct(ctx.idx);
}
/// the joint at the end of the world's list has no next one
fn c46_last(ctx: &mut Ctx) {
    let mut sim = Sim::new(b2v(0.0, 0.0));
    for _ in 0..2 { let p = ctx.rng.vec(3.0); sim.ball(DYNAMIC, p, 0.5, &Fx::mat(1.0, 0.3, 0.0)); }
    make_joint(&mut sim, &mut ctx.rng, JK::Weld, 0, 1);
    let l: Vec<B2jointPtr<UD>> = sim.w.borrow().get_joint_list().iter().collect();
    let last = l[l.len() - 1].clone();
    let r = guarded(|| { last.borrow().get_base().get_next(); });
    if r.is_err() { ctx.fail("[last-joint-next] asking the last joint of the world for the next one panics".into()); }
    ctx.hit("last");
    ctx.distinct(ctx.idx);
}
pub fn props() -> Vec<Property> {
    vec![Property {
        id: "C46",
        rule: "bodies, fixtures, joints of every kind, contacts and worlds are made from random definitions and read back; random setters are called in random running worlds with everything readable recorded before and after, and only the promised values may differ; initialisers, conversions and state getters are compared with the bodies' placement in double precision; lists and one-by-one traversals are compared with what was made",
        parts: vec![part("defaults", 50, 50, c46_defaults), part("body", 100000, 1500000, c46_body), part("set", 40000, 400000, c46_set), part("joint", 100000, 1500000, c46_joint), part("spring", 20000, 500000, c46_spring), part("contact", 30000, 1000000, c46_contact), part("last", 2, 2, c46_last)],
        required: vec![("defaults", 50), ("body_defined", 20000), ("fixture_defined", 40000), ("by_shape", 8000), ("converted", 60000), ("set", 60000), ("lists", 5000), ("body_linear_damping", 2000), ("body_angular_damping", 2000), ("body_gravity_scale", 2000), ("body_bullet", 2000), ("body_sleeping_allowed", 2000), ("body_awake", 2000), ("body_velocity", 2000), ("body_spin", 2000), ("body_fixed_rotation", 2000), ("body_transform", 2000), ("body_enabled", 2000), ("body_type", 2000), ("body_user_data", 2000), ("body_mass_data", 2000), ("fixture_density", 2000), ("fixture_friction", 2000), ("fixture_restitution", 2000), ("fixture_restitution_threshold", 2000), ("fixture_sensor", 2000), ("fixture_filter", 2000), ("fixture_user_data", 2000), ("world_gravity", 1000), ("world_allow_sleeping", 1000), ("joint_distance", 1500), ("joint_friction", 1500), ("joint_gear", 150), ("joint_mouse", 1500), ("joint_motor", 1500), ("joint_revolute", 2500), ("joint_prismatic", 2500), ("joint_weld", 1500), ("joint_wheel", 1500), ("new_distance", 2000), ("new_friction", 2000), ("new_gear", 2000), ("new_mouse", 2000), ("new_motor", 2000), ("new_pulley", 2000), ("new_revolute", 2000), ("new_prismatic", 2000), ("new_weld", 2000), ("new_wheel", 2000), ("state_read", 100000), ("spring", 10000), ("contact", 15000), ("contact_kept", 10000)],
        assumptions: "the order of lists is not judged; a setter may wake the bodies concerned; mass data are recomputed by type and rotation changes",
    }]
}
