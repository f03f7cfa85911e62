//! C45 robustness
use crate::core::*;
use crate::gen::*;
use crate::geo::*;
use crate::p_joint::{make, Spec};
use crate::p_manifold::collide;
use crate::sim::*;
use box2d_rs::b2_collision::*;
use box2d_rs::b2_distance::*;
use box2d_rs::b2_time_of_impact::*;

fn fin(p: B2vec2) -> bool {
    p.x.is_finite() && p.y.is_finite()
}

fn c45_case(ctx: &mut Ctx) {
    let mut o = SceneOpts::default();
    o.bodies = ctx.rng.int(2, 12) as usize;
    o.joints = if ctx.rng.chance(0.5) { 0 } else { ctx.rng.int(1, 6) as usize };
    if o.joints == 0 { o.joint_kinds = vec![JK::Friction, JK::Mouse, JK::Motor]; }
    o.spread = ctx.rng.f(1.0, 6.0);
    o.speed = *ctx.rng.pick(&[2.0f32, 10.0, 100.0]);
    let mut sim = rand_scene(&mut ctx.rng, &o);
    let mut rigid = false;
    for n in 0..80 {
        let pos: Vec<(u32, B2vec2)> = sim.bodies.iter().map(|b| (b.id, b.p.borrow().get_position())).collect();
        let op = rand_op(&mut sim, &mut ctx.rng, &o);
        ctx.log(|| op.to_string());
        ctx.hit(op);
        sim.take_events();
        rigid |= sim.joints.iter().any(|j| is_rigid(j.kind));
        let r = sim.all_finite();
        if r.is_err() && rigid { ctx.hit("skipped: random joints diverged"); return; }
        ctx.check(r.is_ok(), || format!("operation {} ({}): {}", n, op, r.clone().unwrap_err()));
        if ctx.verbose {
            for (id, p) in pos { if let Some(i) = sim.index_of(id) { let q = sim.b(i).borrow().get_position(); let m = (q - p).length(); if m > 8.0 || !m.is_finite() {
                println!("   body {} moved {} at {}", id, m, op);
                for j in sim.joints.iter().filter(|j| j.a == id || j.b == id) { println!("     {:?} joint {} {}-{} force {:?} types {:?} {:?}", j.kind, j.id, j.a, j.b, j.p.borrow().get_reaction_force(60.0), sim.index_of(j.a).map(|i| (sim.b(i).borrow().get_type(), sim.b(i).borrow().get_mass(), sim.b(i).borrow().get_inertia(), sim.b(i).borrow().get_local_center())), sim.index_of(j.b).map(|i| (sim.b(i).borrow().get_type(), sim.b(i).borrow().get_mass(), sim.b(i).borrow().get_inertia()))); }
            } } }
        }
        if ctx.failed() { return; }
    }
    ctx.distinct(sim.state_hash());
}

/// one joint between bodies in degenerate positions with degenerate parameters
fn c45_degenerate(ctx: &mut Ctx) {
    let r = &mut ctx.rng;
    let mut sim = Sim::new(if r.chance(0.3) { b2v(0.0, 0.0) } else { r.vec(20.0) });
    sim.w.borrow_mut().set_warm_starting(r.chance(0.7));
    let at = r.vec(3.0);
    let mut ends = vec![];
    for k in 0..2 {
        let t = *r.pick(&[STATIC, KINEMATIC, DYNAMIC, DYNAMIC, DYNAMIC, DYNAMIC]);
        let p = if k == 0 || r.chance(0.4) { at } else { at + r.vec(2.0) };
        let mut def = Sim::def(t, p, if r.chance(0.5) { 0.0 } else { r.angle() });
        def.fixed_rotation = r.chance(0.25);
        def.allow_sleep = r.chance(0.7);
        if r.chance(0.3) { def.gravity_scale = r.f(-2.0, 2.0); }
        let b = sim.add(def);
        for _ in 0..r.below(3) {
            let mut fx = Fx::default();
            fx.density = *r.pick(&[0.0f32, 1.0, 1.0, 1e-3, 100.0]);
            if r.chance(0.5) { fx.filter.group_index = -1; }
            let kd = *r.pick(&ALL);
            if t == DYNAMIC && matches!(kd, Kind::Chain | Kind::Loop) { continue; }
            let s = shape(r, kd, 0.5);
            sim.fixture(b, &s, kd, &fx);
        }
        if t != STATIC && r.chance(0.5) { let (v, w) = (r.vec(5.0), r.f(-5.0, 5.0)); sim.b(b).borrow_mut().set_linear_velocity(v); sim.b(b).borrow_mut().set_angular_velocity(w); }
        ends.push(b);
    }
    let kind = *r.pick(&[JK::Revolute, JK::Prismatic, JK::Wheel, JK::Weld, JK::Distance, JK::Friction, JK::Motor, JK::Mouse, JK::Pulley]);
    let mut s: Spec = crate::p_joint2::blank(kind);
    let small = |r: &mut Rng| -> V { match r.below(3) { 0 => v(0.0, 0.0), 1 => d(r.vec(0.5)), _ => d(r.vec(1e-4)) } };
    let amount = |r: &mut Rng| -> f64 { (match r.below(4) { 0 => 0.0, 1 => r.log(1e-6, 1e-3), 2 => r.log(1e-2, 1e2), _ => r.log(1e2, 1e4) }) as f64 };
    s.la = small(r);
    s.lb = small(r);
    s.ax = d(r.dir());
    // a joint far from its reference angle corrects by turns that no linearisation covers
    s.rf = (sim.b(ends[1]).borrow().get_angle() - sim.b(ends[0]).borrow().get_angle() + if r.chance(0.5) { 0.0 } else { r.f(-0.5, 0.5) }) as f64;
    s.lim = r.chance(0.6);
    s.lo = (r.sign()) as f64 * amount(r).min(3.0);
    s.hi = s.lo + if r.chance(0.4) { 0.0 } else { amount(r).min(3.0) };
    s.motor = r.chance(0.6);
    s.speed = (r.sign()) as f64 * amount(r).min(50.0);
    s.cap = amount(r);
    // overdamped springs of no stiffness are fine, overly stiff ones are the user's choice
    s.k = amount(r).min(1e3);
    s.dm = amount(r).min(1e2);
    s.len = amount(r).min(3.0);
    s.min = amount(r).min(3.0);
    s.max = s.min + if r.chance(0.4) { 0.0 } else { amount(r).min(3.0) };
    s.max_f = amount(r);
    s.max_t = amount(r);
    s.off = small(r);
    s.aoff = (if r.chance(0.5) { 0.0 } else { r.f(-3.0, 3.0) }) as f64;
    s.corr = *r.pick(&[0.0, 0.3, 1.0]);
    s.ratio = r.log(0.05, 20.0) as f64;
    if kind == JK::Pulley {
        let (pa, pb) = (sim.b(ends[0]).borrow().get_world_point(b2(s.la)), sim.b(ends[1]).borrow().get_world_point(b2(s.lb)));
        // ground anchors at the bodies themselves
        s.ga = d(if r.chance(0.4) { pa } else { pa + r.vec(2.0) });
        s.gb = d(if r.chance(0.4) { pb } else { pb + r.vec(2.0) });
        s.len = (d(pa) - s.ga).len();
        s.min = (d(pb) - s.gb).len();
    }
    // geared to another body that may have nothing to turn or move either; contradicting limits and motors could drive a gear anywhere
    let geared = matches!(kind, JK::Revolute | JK::Prismatic) && sim.b(ends[1]).borrow().get_type() == DYNAMIC && r.chance(0.5);
    if geared {
        let (x, y) = (sim.b(ends[0]), sim.b(ends[1]));
        let (x, y) = (x.borrow(), y.borrow());
        s.rf = (y.get_angle() - x.get_angle()) as f64;
        s.la = d(x.get_local_point(y.get_world_point(b2(s.lb))));
        s.lim = false;
        s.motor = false;
    }
    if kind == JK::Mouse && sim.b(ends[1]).borrow().get_type() != DYNAMIC { ctx.hit("mouse_on_fixed"); return; }
    let mut what = format!("{:?} between {:?} and {:?}", s, sim.b(ends[0]).borrow().get_type(), sim.b(ends[1]).borrow().get_type());
    ctx.log(|| what.clone());
    let j1 = make(&mut sim, ends[0], ends[1], &mut s);
    if geared {
        let r = &mut ctx.rng;
        let mut def = Sim::def(DYNAMIC, at + r.vec(2.0), 0.0);
        def.fixed_rotation = r.chance(0.5);
        let c = sim.add(def);
        if r.chance(0.7) { let mut fx = Fx::default(); fx.density = *r.pick(&[0.0f32, 1.0]); fx.filter.group_index = -1; sim.fixture(c, &rc(bx(0.3, 0.4)), Kind::Poly, &fx); }
        let mut q = s;
        q.kind = *r.pick(&[JK::Revolute, JK::Prismatic]);
        q.rf = 0.0;
        q.motor = false;
        q.lim = false;
        q.la = d(sim.b(c).borrow().get_position() - sim.b(ends[0]).borrow().get_position());
        q.lb = v(0.0, 0.0);
        // a movable carrier held by bodies that cannot move or turn is over-constrained, so only one that cannot move is shared
        let still = sim.b(ends[0]).borrow().get_type() != DYNAMIC;
        let on = if r.chance(0.5) && still { ends[0] } else { sim.body(STATIC, at, 0.0) };
        if on == ends[0] { let p = sim.b(c).borrow().get_position(); q.la = d(sim.b(on).borrow().get_local_point(p)); q.rf = -sim.b(on).borrow().get_angle() as f64; }
        let j2 = make(&mut sim, on, c, &mut q);
        let def = B2gearJointDef { base: sim.jbase(B2jointType::EGearJoint, ends[1], c, false), joint1: Some(sim.joints[j1].p.clone()), joint2: Some(sim.joints[j2].p.clone()), ratio: *ctx.rng.pick(&[1.0f32, -1.0, 0.2, 5.0]) };
        sim.joint(B2JointDefEnum::GearJoint(def), JK::Gear, ends[1], c, false);
        let tell = format!("geared {:?} to {:?} on the same body {} fixed {} masses {} {} {} gear {:?}", kind, q.kind, on == ends[0], sim.b(c).borrow().is_fixed_rotation(), sim.b(ends[0]).borrow().get_mass(), sim.b(ends[1]).borrow().get_mass(), sim.b(c).borrow().get_mass(), q.la);
        ctx.log(|| tell.clone());
        what = format!("{} {}", what, tell);
        ctx.hit("degenerate Gear");
    }
    let n = ctx.rng.int(1, 25);
    for k in 0..n {
        sim.dt = *ctx.rng.pick(&[1.0f32 / 60.0, 1.0 / 60.0, 1.0 / 1000.0, 0.1, 0.0]);
        sim.vi = ctx.rng.int(1, 10) as i32;
        sim.pi = ctx.rng.int(1, 5) as i32;
        if !geared && ctx.rng.chance(0.1) { let j = 0; tweak_joint(&mut sim, &mut ctx.rng, j); }
        sim.step();
        ctx.evals += 1;
        let q = sim.all_finite();
        ctx.check(q.is_ok(), || format!("step {}: {} with {}", k, q.clone().unwrap_err(), what));
        if ctx.failed() { return; }
    }
    ctx.hit(&format!("degenerate {:?}", kind));
    ctx.distinct(sim.state_hash());
}
const ALL: [Kind; 6] = [Kind::Circle, Kind::Poly, Kind::Edge, Kind::OneSided, Kind::Chain, Kind::Loop];

/// extreme sizes, masses, speeds, gravities, steps and places
fn c45_extremes(ctx: &mut Ctx) {
    let r = &mut ctx.rng;
    let g = if r.chance(0.3) { r.log(10.0, 1e4) } else { 10.0 };
    let mut sim = Sim::new(b2v(0.0, -g));
    let size = r.log(0.02, 200.0);
    let far = *r.pick(&[0.0f32, 0.0, 1e3, 1e4]);
    let origin = if far > 0.0 { let u = r.dir(); far * u } else { b2v(0.0, 0.0) };
    let dt = r.log(1e-6, 0.5);
    let fast = *r.pick(&[0.0f32, 10.0, 1e3, 1e5]);
    let n = r.int(2, 12);
    for k in 0..n {
        let t = if k == 0 { STATIC } else { *r.pick(&[DYNAMIC, DYNAMIC, DYNAMIC, KINEMATIC, STATIC]) };
        let mut def = Sim::def(t, origin + r.vec(size * 3.0), r.f(-1000.0, 1000.0));
        if t != STATIC { def.linear_velocity = r.vec(fast); def.angular_velocity = r.f(-fast, fast); }
        def.bullet = r.chance(0.3);
        def.linear_damping = *r.pick(&[0.0f32, 0.1, 1e4]);
        def.angular_damping = *r.pick(&[0.0f32, 0.1, 1e4]);
        def.fixed_rotation = r.chance(0.1);
        def.gravity_scale = *r.pick(&[1.0f32, 1.0, 0.0, -1.0, 100.0]);
        let b = sim.add(def);
        for _ in 0..r.int(1, 3) {
            let mut fx = Fx::default();
            fx.density = if r.chance(0.1) { 0.0 } else { r.log(1e-4, 1e4) };
            fx.friction = *r.pick(&[0.0f32, 0.5, 100.0]);
            fx.restitution = *r.pick(&[0.0f32, 0.5, 1.0]);
            fx.sensor = r.chance(0.05);
            let kd = *r.pick(&ALL);
            // pieces of very different sizes
            let z = (size * if r.chance(0.3) { r.log(0.05, 5.0) } else { 1.0 }).max(0.02);
            let sh = shape(r, if t == DYNAMIC && matches!(kd, Kind::Chain | Kind::Loop) { Kind::Poly } else { kd }, z);
            sim.fixture(b, &sh, kd, &fx);
        }
    }
    ctx.log(|| format!("size {} far {} dt {} fast {} gravity {}", size, far, dt, fast, g));
    for k in 0..40 {
        sim.dt = if ctx.rng.chance(0.9) { dt } else { ctx.rng.log(1e-6, 0.5) };
        sim.vi = ctx.rng.int(1, 12) as i32;
        sim.pi = ctx.rng.int(1, 6) as i32;
        let i = ctx.rng.below(sim.bodies.len());
        let q = sim.b(i);
        match ctx.rng.below(12) {
            0 => { let f = ctx.rng.vec(1e6); let p = q.borrow().get_world_center(); q.borrow_mut().apply_force(f, p, true); }
            1 => { let f = ctx.rng.f(-1e6, 1e6); q.borrow_mut().apply_torque(f, true); }
            2 => { let (p, a) = (origin + ctx.rng.vec(size), ctx.rng.f(-100.0, 100.0)); q.borrow_mut().set_transform(p, a); }
            3 => { let p = origin + ctx.rng.vec(size * 4.0); let e = p + ctx.rng.vec(size * 4.0); let mut c = 0; if p != e { sim.w.borrow().ray_cast(|_: FixturePtr<UD>, _p, _n, _f| { c += 1; 1.0 }, p, e); } }
            _ => {}
        }
        sim.step();
        sim.take_events();
        ctx.evals += 1;
        let e = sim.all_finite();
        ctx.check(e.is_ok(), || format!("step {}: {} [size {} far {} dt {} fast {} gravity {}]", k, e.clone().unwrap_err(), size, far, dt, fast, g));
        if ctx.failed() { return; }
    }
    ctx.add("extreme_contacts", sim.contacts().len() as u64);
    ctx.hit(if size < 0.1 { "tiny" } else if size > 20.0 { "huge" } else { "ordinary" });
    ctx.distinct(sim.state_hash());
}

/// very many bodies in one place
fn c45_crowd(ctx: &mut Ctx) {
    let mut sim = Sim::new(b2v(0.0, -10.0));
    let mut m = Fx::mat(1.0, ctx.rng.f(0.0, 1.0), *ctx.rng.pick(&[0.0f32, 0.5]));
    let n = ctx.rng.int(60, 220);
    let spread = *ctx.rng.pick(&[0.0f32, 0.01, 1.0, 4.0]);
    sim.w.borrow_mut().set_continuous_physics(ctx.rng.chance(0.7));
    sim.ground(-6.0, 20.0, &m);
    for _ in 0..n {
        let p = ctx.rng.vec(spread);
        let a = if ctx.rng.chance(0.5) { 0.0 } else { ctx.rng.angle() };
        m.density = ctx.rng.log(0.1, 10.0);
        let b = sim.body(DYNAMIC, p, a);
        let kd = solid_kind(&mut ctx.rng);
        let sh = if spread == 0.0 { if kd == Kind::Circle { rc(circle(b2v(0.0, 0.0), 0.5)) } else { rc(bx(0.5, 0.5)) } } else { let z = ctx.rng.f(0.2, 0.6); shape(&mut ctx.rng, kd, z) };
        sim.fixture(b, &sh, kd, &m);
    }
    for k in 0..12 {
        sim.step();
        sim.take_events();
        ctx.evals += 1;
        let e = sim.all_finite();
        ctx.check(e.is_ok(), || format!("step {} of a crowd of {} within {}: {}", k, n, spread, e.clone().unwrap_err()));
        // half of them vanish at once
        if k == 8 { for _ in 0..n / 2 { let i = ctx.rng.below(sim.bodies.len() - 1) + 1; sim.destroy_body(i); } ctx.hit("thinned_out"); }
        if ctx.failed() { return; }
    }
    ctx.add("crowd_contacts", sim.contacts().len() as u64);
    ctx.hit("crowd");
    ctx.distinct(sim.state_hash());
}

/// shapes at the edge of what the constructors accept
fn odd_shape(r: &mut Rng) -> (ShapeDefPtr, Kind) {
    let size = if r.chance(0.4) { r.f(0.3, 2.0) } else { r.log(0.02, 500.0) };
    match r.below(12) {
        9 | 10 | 11 => { let k = *r.pick(&ALL); (grid_shape(r, k), k) }
        0 => (rc(circle(r.vec(size), *r.pick(&[0.0f32, 1e-3, 1.0]) * size)), Kind::Circle),
        // slabs and needles
        1 => (rc(bx(size, (size * 0.002).max(0.006))), Kind::Poly),
        2 => (rc(bx_at((size * 0.002).max(0.006), size, r.vec(size), r.angle())), Kind::Poly),
        3 => { let u = r.dir(); let a = r.vec(size); (rc(edge2(a, a + 0.006 * u)), Kind::Edge) }
        _ => { let k = *r.pick(&ALL); (shape(r, k, size), k) }
    }
}
/// the collision functions themselves: identical, coincident, far, tiny and huge inputs
fn c45_calls(ctx: &mut Ctx) {
    let (sa, ka) = odd_shape(&mut ctx.rng);
    let (sb, kb) = if ctx.rng.chance(0.25) { (sa.clone(), ka) } else { odd_shape(&mut ctx.rng) };
    let (a, b) = (sa.borrow(), sb.borrow());
    let r = &mut ctx.rng;
    let far = *r.pick(&[0.0f32, 0.0, 1.0, 100.0, 1e4]);
    let ta = if r.chance(0.3) { grid_xf(r) } else { r.xf(far) };
    let tb = match r.below(6) {
        5 => grid_xf(r),
        0 => ta,
        1 => B2Transform { p: ta.p, q: B2Rot::new(r.angle()) },
        2 => B2Transform { p: ta.p + r.vec(1e-4), q: ta.q },
        3 => B2Transform { p: ta.p + r.vec(3.0), q: B2Rot::new(r.angle()) },
        _ => r.xf(far.max(1.0) * 2.0),
    };
    let (ia, ib) = (r.below(a.get_child_count()), r.below(b.get_child_count()));
    let what = format!("{:?}#{} {:?} at {:?} and {:?}#{} {:?} at {:?}", ka, ia, children(&*a)[ia], ta, kb, ib, children(&*b)[ib], tb);
    ctx.log(|| what.clone());
    let (mut pa, mut pb) = (B2distanceProxy::default(), B2distanceProxy::default());
    pa.set_shape(a.clone_rc(), ia);
    pb.set_shape(b.clone_rc(), ib);
    let mut cache = B2simplexCache::default();
    for use_radii in [false, true] {
        let mut o = B2distanceOutput::default();
        b2_distance_fn(&mut o, &mut cache, &B2distanceInput { proxy_a: pa.clone(), proxy_b: pb.clone(), transform_a: ta, transform_b: tb, use_radii });
        ctx.evals += 1;
        ctx.check(o.distance.is_finite() && o.distance >= 0.0 && fin(o.point_a) && fin(o.point_b), || format!("distance {} between {:?} and {:?} for {}", o.distance, o.point_a, o.point_b, what));
    }
    let _ = b2_test_overlap_shapes(a.clone_rc(), ia, b.clone_rc(), ib, ta, tb);
    let tr = match ctx.rng.below(3) { 0 => b2v(0.0, 0.0), 1 => ctx.rng.vec(1e-4), _ => ctx.rng.vec(50.0) };
    let mut o = B2shapeCastOutput::default();
    let hit = b2_shape_cast(&mut o, B2shapeCastInput { proxy_a: pa.clone(), proxy_b: pb.clone(), transform_a: ta, transform_b: tb, translation_b: tr });
    ctx.check(!hit || (o.lambda.is_finite() && fin(o.normal) && fin(o.point)), || format!("cast by {:?} gives {} {:?} {:?} for {}", tr, o.lambda, o.normal, o.point, what));
    // sweeps
    let mk = |r: &mut Rng, t: &B2Transform| { let c0 = t.p; let a0 = t.q.get_angle(); let far = r.chance(0.2); B2Sweep { local_center: b2v(0.0, 0.0), c0, c: match r.below(3) { 0 => c0, 1 => c0 + r.vec(1e-3), _ => c0 + r.vec(if far { 100.0 } else { 2.0 }) }, a0, a: a0 + *r.pick(&[0.0f32, 1e-4, 1.5]), alpha0: 0.0 } };
    let (s1, s2) = (mk(&mut ctx.rng, &ta), mk(&mut ctx.rng, &tb));
    let t_max = *ctx.rng.pick(&[1.0f32, 1.0, 0.5, 0.0]);
    let mut o = B2toioutput::default();
    b2_time_of_impact(&mut o, &B2toiinput { proxy_a: pa, proxy_b: pb, sweep_a: s1, sweep_b: s2, t_max });
    ctx.check(o.t.is_finite() && o.t >= 0.0 && o.t <= t_max.max(1e-6) * 1.0001, || format!("time of impact {} of {} for {} {:?} {:?}", o.t, t_max, what, s1, s2));
    // manifolds, both shapes as one child each
    let (ca, cb) = (child_shape(&*a, ia), child_shape(&*b, ib));
    let (x, y) = (ca, cb);
    if manifold_pair(&*x, &*y) {
        let m = collide(&*x, &ta, &*y, &tb);
        ctx.check(m.point_count <= 2 && fin(m.local_normal) && fin(m.local_point) && (0..m.point_count).all(|i| fin(m.points[i].local_point)), || format!("manifold {:?} for {}", m.point_count, what));
        if m.point_count > 0 {
            let w = crate::p_manifold::world_manifold(&m, ta, x.get_base().m_radius as f64, tb, y.get_base().m_radius as f64);
            ctx.check(fin(w.normal) && (0..m.point_count).all(|i| fin(w.points[i]) && w.separations[i].is_finite()), || format!("contact points {:?} normal {:?} for {}", w.points, w.normal, what));
            ctx.hit("manifold");
        }
    }
    // rays, also of no length and of no reach
    for _ in 0..3 {
        let p1 = if ctx.rng.chance(0.3) { ta.p + grid_point(&mut ctx.rng, 3) } else { ta.p + ctx.rng.vec(3.0) };
        let p2 = match ctx.rng.below(6) { 4 => b2v(p1.x + ctx.rng.int(-3, 3) as f32, p1.y), 5 => b2v(p1.x, p1.y + ctx.rng.int(-3, 3) as f32), 0 => p1, 1 => p1 + ctx.rng.vec(1e-5), _ => ta.p + ctx.rng.vec(3.0) };
        let i = B2rayCastInput { p1, p2, max_fraction: *ctx.rng.pick(&[1.0f32, 1.0, 0.0, 1e-6, 1e6]) };
        let mut o = B2rayCastOutput::default();
        let hit = a.ray_cast(&mut o, &i, ta, ia);
        ctx.check(!hit || (o.fraction.is_finite() && fin(o.normal)), || format!("ray {:?}-{:?} gives {} {:?} for {}", p1, p2, o.fraction, o.normal, what));
        let mut bb = B2AABB::default();
        a.compute_aabb(&mut bb, ta, ia);
        ctx.check(fin(bb.lower_bound) && fin(bb.upper_bound) && bb.is_valid(), || format!("box {:?} for {}", bb, what));
        let hit = bb.ray_cast(&mut o, &i);
        ctx.check(!hit || o.fraction.is_finite(), || format!("ray against box {:?} gives {}", bb, o.fraction));
        let _ = a.test_point(ta, p1);
    }
    let mut md = B2massData::default();
    a.compute_mass(&mut md, *ctx.rng.pick(&[0.0f32, 1.0, 1e4]));
    ctx.check(md.mass.is_finite() && fin(md.center) && md.i.is_finite() && md.mass >= 0.0 && md.i >= 0.0, || format!("mass {} centre {:?} inertia {} for {}", md.mass, md.center, md.i, what));
    ctx.hit("calls");
    ctx.distinct(hash_f(&[ta.p.x, tb.p.y, tr.x, md.mass]));
}
fn child_shape(s: &dyn B2shapeDynTrait, i: usize) -> std::rc::Rc<dyn B2shapeDynTrait> {
    use box2d_rs::shapes::b2_edge_shape::B2edgeShape;
    use box2d_rs::shapes::b2rs_to_derived_shape::ShapeAsDerived;
    match s.as_derived() { ShapeAsDerived::AsChain(c) => { let mut e = B2edgeShape::default(); c.get_child_edge(&mut e, i); std::rc::Rc::new(e) } _ => s.clone_rc() }
}
fn manifold_pair(a: &dyn B2shapeDynTrait, b: &dyn B2shapeDynTrait) -> bool {
    use B2ShapeType::*;
    matches!((a.get_type(), b.get_type()), (ECircle, ECircle) | (EPolygon, ECircle) | (EPolygon, EPolygon) | (EEdge, ECircle) | (EEdge, EPolygon))
}
pub fn props() -> Vec<Property> {
    vec![Property {
        id: "C45",
        rule: "a distinct final state or input",
        parts: vec![part("histories", 40000, 600000, c45_case), part("degenerate", 200000, 4000000, c45_degenerate), part("extremes", 6000, 120000, c45_extremes), part("crowd", 40, 800, c45_crowd), part("calls", 200000, 4000000, c45_calls)],
        required: vec![("step", 10000), ("calls", 150000), ("manifold", 10000), ("crowd", 20), ("thinned_out", 20), ("tiny", 300), ("huge", 300), ("degenerate Gear", 2000), ("degenerate Distance", 2000), ("degenerate Friction", 2000), ("degenerate Motor", 2000), ("degenerate Mouse", 2000), ("degenerate Prismatic", 2000), ("degenerate Pulley", 2000), ("degenerate Revolute", 2000), ("degenerate Weld", 2000), ("degenerate Wheel", 2000)],
        assumptions: "Valid means accepted by the constructors: sizes from 0.02 to 500, densities to 10000, speeds to 100000, steps to half a second, places to 10000. Worlds in which random, mutually contradicting rigid joints diverge are counted, not judged.",
    }]
}
