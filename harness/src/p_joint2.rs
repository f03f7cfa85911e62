//! joints over time: assemblies that hold, limits, springs at rest, reactions of hanging loads, gears and pulleys
use crate::core::*;
use crate::gen::*;
use crate::geo::*;
use crate::p_dyn::{st, St};
use crate::p_joint::*;
use crate::sim::*;
use box2d_rs::b2_joint::*;
use box2d_rs::joints::*;

const Z: V = V { x: 0.0, y: 0.0 };
fn rot(a: f64, q: V) -> V {
    Xf::new(Z, a).rot(q)
}
fn cr(w: f64, r: V) -> V {
    V { x: -w * r.y, y: w * r.x }
}
fn v32(q: V) -> V {
    V { x: q.x as f32 as f64, y: q.y as f32 as f64 }
}
pub fn blank(kind: JK) -> Spec {
    Spec { kind, la: Z, lb: Z, ax: V { x: 1.0, y: 0.0 }, rf: 0.0, len: 0.0, min: 0.0, max: 0.0, k: 0.0, dm: 0.0, lim: false, lo: 0.0, hi: 0.0, motor: false, speed: 0.0, cap: 0.0, target: Z, max_f: 0.0, max_t: 0.0, off: Z, aoff: 0.0, corr: 0.0, ga: Z, gb: Z, ratio: 1.0, total: 0.0 }
}
/// a block without collisions
fn block(ctx: &mut Ctx, sim: &mut Sim, t: B2bodyType, p: V, a: f64, half: f64) -> usize {
    let i = sim.body(t, b2(p), a as f32);
    let mut fx = Fx::default();
    fx.filter.group_index = -1;
    fx.density = ctx.rng.f(0.7, 1.4);
    let h = ctx.rng.f(0.6, 1.0) * half as f32;
    if ctx.rng.chance(0.3) { sim.fixture(i, &rc(circle(b2v(0.0, 0.0), half as f32)), Kind::Circle, &fx); } else { sim.fixture(i, &rc(bx(half as f32, h)), Kind::Poly, &fx); }
    i
}

/// how far a joint is from where it belongs: (place, angle, past the limits)
fn off(s: &Spec, a: &St, b: &St) -> (f64, f64, f64) {
    let g = geo_of(s, a, b);
    let (e, ang) = match s.kind {
        JK::Revolute => (g.dd.len(), 0.0),
        JK::Weld => (g.dd.len(), if s.k > 0.0 { 0.0 } else { g.angle.abs() }),
        JK::Prismatic => (g.ax.perp().dot(g.dd).abs(), g.angle.abs()),
        JK::Wheel => (g.ax.perp().dot(g.dd).abs(), 0.0),
        JK::Distance => if s.min == s.max { ((g.t - s.len).abs(), 0.0) } else { (0.0, 0.0) },
        _ => (0.0, 0.0),
    };
    let past = if s.kind == JK::Distance && s.min < s.max { (s.min - g.t).max(g.t - s.max) } else if !s.lim { f64::NEG_INFINITY } else { let x = if s.kind == JK::Revolute { g.angle } else { g.t }; (s.lo - x).max(x - s.hi) };
    (e, ang, past)
}

/// an assembly of bodies hung link by link from a fixed or moving one, at ordinary settings
fn assembly(ctx: &mut Ctx, limits: bool, soft: bool) -> bool {
    let mut sim = Sim::new(b2v(0.0, -10.0));
    sim.w.borrow_mut().set_allow_sleeping(ctx.rng.chance(0.5));
    sim.w.borrow_mut().set_warm_starting(true);
    let moving = ctx.rng.chance(0.3);
    let root = sim.body(if moving { KINEMATIC } else { STATIC }, ctx.rng.vec(3.0), ctx.rng.f(-0.5, 0.5));
    let n = ctx.rng.int(1, if limits { 2 } else { 4 }) as usize;
    let mut specs: Vec<(Spec, usize, usize, usize)> = vec![];
    let mut tip = root;
    for k in 0..n {
        let t = st(&sim.b(tip));
        let kind = *ctx.rng.pick(&[JK::Revolute, JK::Revolute, JK::Weld, JK::Distance, JK::Prismatic, JK::Wheel]);
        let mut s = blank(kind);
        let half = ctx.rng.f(0.2, 0.4) as f64;
        let ang = (ctx.rng.f(-0.6, 0.6)) as f64;
        s.la = v32(if k == 0 { d(ctx.rng.vec(0.5)) } else { V { x: (ctx.rng.f(-0.2, 0.2)) as f64, y: -(ctx.rng.f(0.1, 0.4)) as f64 } });
        s.lb = v32(V { x: ctx.rng.f(-0.2, 0.2) as f64, y: ctx.rng.f(0.1, 0.5) as f64 });
        s.ax = v32(d(ctx.rng.dir()).norm());
        s.rf = ((ang - t.a) as f32) as f64;
        let mut gap = Z;
        match kind {
            JK::Revolute | JK::Prismatic | JK::Wheel => {
                s.lim = limits || kind != JK::Revolute;
                s.lo = ctx.rng.f(-0.6, 0.0) as f64;
                s.hi = ctx.rng.f(0.0, 0.6) as f64;
                if ctx.rng.chance(0.1) { s.lo *= 0.15; s.hi = s.lo; }
                s.motor = ctx.rng.chance(0.3);
                s.speed = ctx.rng.f(-3.0, 3.0) as f64;
                s.cap = ctx.rng.f(0.0, 10.0) as f64;
                if kind == JK::Wheel { s.rf = 0.0; if ctx.rng.chance(0.5) { s.k = ctx.rng.f(5.0, 100.0) as f64; s.dm = ctx.rng.f(0.1, 5.0) as f64; } }
            }
            JK::Distance => {
                s.len = ctx.rng.f(0.5, 1.5) as f64;
                s.min = s.len;
                s.max = s.len;
                if limits && ctx.rng.chance(0.7) { s.min = (s.len * 0.7) as f32 as f64; s.max = (s.len * 1.2) as f32 as f64; }
                gap = rot(ctx.rng.f(-2.4, -0.7) as f64, V { x: s.len, y: 0.0 });
            }
            _ => {}
        }
        let pb = t.p + rot(t.a, s.la) + gap - rot(ang, s.lb);
        let b = block(ctx, &mut sim, DYNAMIC, pb, ang, half);
        let j = make(&mut sim, tip, b, &mut s);
        specs.push((s, tip, b, j));
        tip = b;
    }
    if moving { let (v, w) = (ctx.rng.vec(1.0), ctx.rng.f(-0.5, 0.5)); let r = sim.b(root); r.borrow_mut().set_linear_velocity(v); r.borrow_mut().set_angular_velocity(w); }
    // assemblies need iterations to be held by all their joints at once
    if n > 1 { sim.vi = if soft { 80 } else { 300 }; sim.pi = if soft { 40 } else { 400 }; }
    let disturb = ctx.rng.chance(0.4);
    let when = ctx.rng.int(20, 60) as usize;
    let push = ctx.rng.chance(0.5);
    let mut quiet = 20usize;
    let mut hs = vec![];
    for step in 0..240usize {
        if disturb && step == when {
            // one body is put somewhere else a little
            let b = sim.b(specs[ctx.rng.below(n)].2);
            let (dp, da) = (ctx.rng.vec(0.15), ctx.rng.f(-0.2, 0.2));
            let (p, a) = (b.borrow().get_position(), b.borrow().get_angle());
            b.borrow_mut().set_transform(p + dp, a + da);
            b.borrow_mut().set_awake(true);
            quiet = 90;
            ctx.hit("disturbed");
        }
        if limits && ctx.rng.chance(0.01) {
            let k = ctx.rng.below(n);
            let j = sim.joints[specs[k].3].p.clone();
            let s = &mut specs[k].0;
            let (x, y) = (ctx.rng.f(-0.5, 0.1), ctx.rng.f(0.1, 0.5));
            match j.borrow_mut().as_derived_mut() {
                JointAsDerivedMut::ERevoluteJoint(q) => { if ctx.rng.chance(0.3) && (s.lim || q.get_joint_angle().abs() < 1.2) { s.lim = !s.lim; q.enable_limit(s.lim); } else { q.set_limits(x, y); s.lo = x as f64; s.hi = y as f64; } }
                JointAsDerivedMut::EPrismaticJoint(q) => { q.set_limits(x, y); s.lo = x as f64; s.hi = y as f64; }
                JointAsDerivedMut::EWheelJoint(q) => { q.set_limits(x, y); s.lo = x as f64; s.hi = y as f64; }
                JointAsDerivedMut::EDistanceJoint(q) => if s.min < s.max { let (x, y) = (0.4 + x * 0.1, 0.6 + y); q.set_min_length(x); q.set_max_length(y); s.min = x as f64; s.max = y as f64; },
                _ => {}
            }
            // setting limits wakes where the joint provides for it; make sure for all
            for q in specs.iter() { sim.b(q.2).borrow_mut().set_awake(true); }
            quiet = quiet.max(90);
            ctx.hit("limits_changed");
        }
        if push && ctx.rng.chance(0.2) {
            let b = sim.b(specs[ctx.rng.below(n)].2);
            let m = b.borrow().get_mass();
            let (f, at) = (ctx.rng.vec(20.0 * m), b.borrow().get_world_center());
            b.borrow_mut().apply_force(f, at, true);
        }
        sim.step();
        ctx.evals += 1;
        if sim.all_finite().is_err() { ctx.fail(format!("not finite: {:?}", specs.iter().map(|q| q.0.clone()).collect::<Vec<_>>())); return true; }
        let top = specs.iter().map(|q| { let s = st(&sim.b(q.2)); s.v.len().max(s.w.abs() * 0.5) }).fold(0.0, f64::max);
        if top > 12.0 { ctx.hit("too_fast"); quiet = quiet.max(20); }
        if quiet > 0 { quiet -= 1; continue; }
        for (s, a, b, _) in &specs {
            let (e, ang, past) = off(s, &st(&sim.b(*a)), &st(&sim.b(*b)));
            if !limits {
                ctx.max(&format!("place_{:?}_{}", s.kind, n), e);
                ctx.max(&format!("angle_{:?}_{}", s.kind, n), ang);
                let (me, ma) = if n == 1 { (0.008, 0.04) } else { (0.03 * n as f64, 0.06 * n as f64) };
                if soft && n > 1 && (e > me || ang > ma) { return false; }
                ctx.check(e <= me, || format!("step {}: {:?} is off by {} in an assembly of {:?}", step, s.kind, e, specs.iter().map(|q| q.0.clone()).collect::<Vec<_>>()));
                ctx.check(ang <= ma, || format!("step {}: {:?} is turned off by {} in an assembly of {:?}", step, s.kind, ang, specs.iter().map(|q| q.0.clone()).collect::<Vec<_>>()));
                ctx.hit("joint_held");
            } else if past > f64::NEG_INFINITY {
                ctx.max(&format!("past_{:?}_{}", s.kind, n), past);
                let most = match (s.kind == JK::Revolute, n) { (true, 1) => 0.09, (true, _) => 0.3, (false, 1) => 0.02, (false, _) => 0.06 };
                if soft && n > 1 && past > most { return false; }
                ctx.check(past <= most, || format!("step {}: {:?} is past its limits by {} in an assembly of {:?}", step, s.kind, past, specs.iter().map(|q| q.0.clone()).collect::<Vec<_>>()));
                ctx.hit(if past > -0.03 { "on_limit" } else { "between_limits" });
            }
        }
        if ctx.failed() { return true; }
        if step % 20 == 0 { for q in &specs { let s = st(&sim.b(q.2)); hs.push(s.p.x as f32); hs.push(s.a as f32); } }
    }
    ctx.hit(&format!("links_{}", n));
    ctx.distinct(hash_f(&hs));
    true
}
// an assembly that jams for want of iterations (which depends on the order its joints are solved in) gets more of them
fn patient(ctx: &mut Ctx, limits: bool) {
    let rng = ctx.rng.clone();
    if !assembly(ctx, limits, true) {
        ctx.hit("more_iterations");
        ctx.rng = rng;
        assembly(ctx, limits, false);
    }
}
pub fn hold(ctx: &mut Ctx) { patient(ctx, false) }
pub fn limits(ctx: &mut Ctx) { patient(ctx, true) }

/// a load on one spring comes to rest where stiffness says, and the joint then reports that load
pub fn deflection(ctx: &mut Ctx) {
    let kind = *ctx.rng.pick(&[JK::Distance, JK::Weld, JK::Wheel, JK::Mouse]);
    let mut sim = Sim::new(b2v(0.0, -(ctx.rng.f(2.0, 12.0))));
    sim.w.borrow_mut().set_allow_sleeping(false);
    let root = sim.body(STATIC, ctx.rng.vec(5.0), ctx.rng.angle());
    let r = st(&sim.b(root));
    let mut s = blank(kind);
    s.la = v32(d(ctx.rng.vec(1.0)));
    let ang = ctx.rng.f(-1.0, 1.0) as f64;
    let at = r.p + rot(r.a, s.la);
    // the load hangs from its centre, except for the weld, whose arm makes the load turn it
    if kind == JK::Weld { s.lb = v32(V { x: ctx.rng.f(0.3, 1.0) as f64, y: 0.0 }); }
    if kind == JK::Distance { s.len = ctx.rng.f(1.0, 3.0) as f64; s.min = 0.01; s.max = 100.0; }
    let down = rot(-r.a, V { x: 0.0, y: -1.0 });
    s.ax = v32(if kind == JK::Wheel && ctx.rng.chance(0.6) { rot(ctx.rng.f(-1.2, 1.2) as f64, down) } else { down });
    let gap = if kind == JK::Distance { V { x: 0.0, y: -s.len } } else { Z };
    s.rf = ((ang - r.a) as f32) as f64;
    let b = block(ctx, &mut sim, DYNAMIC, at + gap - rot(ang, s.lb), ang, 0.4);
    let q = st(&sim.b(b));
    // frequency and ratio through the helpers
    let (hz, ratio) = (ctx.rng.f(1.0, 4.0), ctx.rng.f(0.5, 1.2));
    let (mut k, mut dm) = (0.0f32, 0.0f32);
    let (pr, pb) = (sim.b(root), sim.b(b));
    let om = 2.0 * std::f64::consts::PI * hz as f64;
    if kind == JK::Weld {
        b2_angular_stiffness(&mut k, &mut dm, hz, ratio, pr, pb.clone());
        let i = pb.borrow().get_inertia() as f64;
        ctx.check((k as f64 - i * om * om).abs() <= 1e-4 * i * om * om && (dm as f64 - 2.0 * i * ratio as f64 * om).abs() <= 1e-4 * i * om * 2.0, || format!("angular stiffness {} damping {} for inertia {} at {} Hz, ratio {}", k, dm, i, hz, ratio));
    } else {
        b2_linear_stiffness(&mut k, &mut dm, hz, ratio, pr, pb.clone());
        ctx.check((k as f64 - q.m * om * om).abs() <= 1e-4 * q.m * om * om && (dm as f64 - 2.0 * q.m * ratio as f64 * om).abs() <= 1e-4 * q.m * om * 2.0, || format!("linear stiffness {} damping {} for mass {} at {} Hz, ratio {}", k, dm, q.m, hz, ratio));
    }
    s.k = k as f64;
    s.dm = dm as f64;
    if kind == JK::Mouse { s.max_f = 1e5; }
    let j = make(&mut sim, root, b, &mut s);
    let g = -sim.w.borrow().get_gravity().y as f64;
    for _ in 0..1500 { sim.step(); }
    let (a1, b1) = (st(&sim.b(root)), st(&sim.b(b)));
    let geo = geo_of(&s, &a1, &b1);
    let weight = q.m * g;
    let sag = weight / s.k;
    let (found, want, scale) = match kind {
        JK::Distance => (geo.t - s.len, sag, sag),
        JK::Wheel => { let c = rot(a1.a, s.ax).dot(V { x: 0.0, y: -1.0 }); (geo.t, sag * c, sag) }
        JK::Mouse => ((d(pb.borrow().get_world_point(b2(s.lb))) - s.target).y, -sag, sag),
        // turning by the weight at its arm: k angle = arm x weight at the angle reached
        _ => { let arm = b1.c - (b1.c + geo.rb); let t = arm.cross(V { x: 0.0, y: -weight }); (geo.angle, t / s.k, (q.m * g / s.k).abs()) }
    };
    ctx.evals += 1;
    ctx.max("deflection_error", (found - want).abs() / (scale + 1e-3));
    ctx.check((found - want).abs() <= 0.02 * scale + 1e-3, || format!("{:?} of stiffness {} under {}: deflection {} instead of {}", kind, s.k, weight, found, want));
    let inv = 60.0;
    let f = d(sim.joints[j].p.borrow().get_reaction_force(inv));
    ctx.check((f - V { x: 0.0, y: weight }).len() <= 0.01 * weight + 1e-3, || format!("{:?} carrying {} reports {:?}", kind, weight, f));
    ctx.hit(&format!("rest {:?}", kind));
    ctx.distinct(hash_f(&[found as f32, k]));
}
/// the helpers for two bodies
pub fn helpers(ctx: &mut Ctx) {
    let mut sim = Sim::new(b2v(0.0, 0.0));
    let mut both = [0usize; 2];
    for q in both.iter_mut() {
        let t = *ctx.rng.pick(&[STATIC, KINEMATIC, DYNAMIC, DYNAMIC]);
        let p = d(ctx.rng.vec(5.0));
        *q = solid(ctx, &mut sim, t, p, 0.0);
    }
    let (pa, pb) = (sim.b(both[0]), sim.b(both[1]));
    let (hz, ratio) = (ctx.rng.log(0.1, 20.0), ctx.rng.f(0.0, 2.0));
    let om = 2.0 * std::f64::consts::PI * hz as f64;
    let join = |x: f64, y: f64| if x > 0.0 && y > 0.0 { x * y / (x + y) } else { x.max(y) };
    let m = join(pa.borrow().get_mass() as f64, pb.borrow().get_mass() as f64);
    let i = join(pa.borrow().get_inertia() as f64, pb.borrow().get_inertia() as f64);
    let (mut k, mut dm) = (7.0f32, 7.0f32);
    b2_linear_stiffness(&mut k, &mut dm, hz, ratio, pa.clone(), pb.clone());
    ctx.evals += 1;
    ctx.check((k as f64 - m * om * om).abs() <= 1e-4 * m * om * om && (dm as f64 - 2.0 * m * ratio as f64 * om).abs() <= 1e-4 * (m * om * 2.0), || format!("linear stiffness {} damping {} for reduced mass {} at {} Hz, ratio {}", k, dm, m, hz, ratio));
    b2_angular_stiffness(&mut k, &mut dm, hz, ratio, pa, pb);
    ctx.check((k as f64 - i * om * om).abs() <= 1e-4 * i * om * om && (dm as f64 - 2.0 * i * ratio as f64 * om).abs() <= 1e-4 * (i * om * 2.0), || format!("angular stiffness {} damping {} for reduced inertia {} at {} Hz, ratio {}", k, dm, i, hz, ratio));
    ctx.hit(if m == 0.0 { "helper_immovable" } else { "helper" });
    ctx.distinct(hash_f(&[k, dm]));
}
/// bodies hanging in a row from a fixed one: each joint reports the weight below it
pub fn hanging(ctx: &mut Ctx) {
    let mut sim = Sim::new(b2v(0.0, -10.0));
    sim.w.borrow_mut().set_allow_sleeping(false);
    let root = sim.body(STATIC, ctx.rng.vec(3.0), 0.0);
    let n = ctx.rng.int(1, 4) as usize;
    let mut tip = root;
    let mut js = vec![];
    let mut ms = vec![];
    for k in 0..n {
        let t = st(&sim.b(tip));
        let kind = *ctx.rng.pick(&[JK::Revolute, JK::Weld, JK::Distance, JK::Prismatic]);
        let mut s = blank(kind);
        s.la = V { x: 0.0, y: if k == 0 { 0.0 } else { -0.3f32 as f64 } };
        s.lb = V { x: 0.0, y: 0.3f32 as f64 };
        s.ax = V { x: 1.0, y: 0.0 };
        let mut gap = Z;
        if kind == JK::Distance { s.len = 1.0; s.min = 1.0; s.max = 1.0; gap = V { x: 0.0, y: -1.0 }; }
        let def = { let mut q = Sim::def(DYNAMIC, b2(t.p + s.la + gap - s.lb), 0.0); q.linear_damping = 2.0; q.angular_damping = 2.0; q };
        let b = sim.add(def);
        let mut fx = Fx::default();
        fx.filter.group_index = -1;
        fx.density = ctx.rng.f(0.7, 1.4);
        sim.fixture(b, &rc(bx(0.3, 0.4)), Kind::Poly, &fx);
        js.push(make(&mut sim, tip, b, &mut s));
        let q = sim.joints[js[k]].p.clone();
        ctx.check(q.borrow().get_reaction_force(60.0).length() == 0.0 && q.borrow().get_reaction_torque(60.0) == 0.0, || format!("a new {:?} joint reports a reaction", kind));
        ms.push(st(&sim.b(b)).m);
        tip = b;
    }
    for _ in 0..400 { sim.step(); }
    for k in 0..n {
        let want = 10.0 / (1.0 + 2.0 / 60.0) * ms[k..].iter().sum::<f64>();
        let q = sim.joints[js[k]].p.borrow();
        let f = d(q.get_reaction_force(60.0));
        let tq = q.get_reaction_torque(60.0) as f64;
        ctx.evals += 1;
        ctx.max("hanging_error", (f - V { x: 0.0, y: want }).len() / want);
        ctx.check((f - V { x: 0.0, y: want }).len() <= 0.02 * want && tq.abs() <= 0.05 * want, || format!("joint {} of {} ({:?}) carries {} but reports {:?} and torque {}", k, n, sim.joints[js[k]].kind, want, f, tq));
        ctx.hit(&format!("hung {:?}", sim.joints[js[k]].kind));
    }
    ctx.distinct(hash_f(&ms.iter().map(|x| *x as f32).collect::<Vec<_>>()));
}

/// a structure hanging at rest stays at rest whatever step lengths and iteration counts follow
pub fn uneven_rest(ctx: &mut Ctx) {
    let mut sim = Sim::new(b2v(0.0, -10.0));
    sim.w.borrow_mut().set_allow_sleeping(false);
    let root = sim.body(STATIC, ctx.rng.vec(3.0), 0.0);
    let n = ctx.rng.int(1, 5) as usize;
    let mut tip = root;
    let mut all = vec![];
    let mut names = vec![];
    for k in 0..n {
        let t = st(&sim.b(tip));
        let pick = ctx.rng.below(if k == 0 { 16 } else { 14 });
        let mut s = blank(match pick { 0 | 1 | 2 => JK::Revolute, 3 | 4 | 13 => JK::Prismatic, 5 | 6 => JK::Wheel, 7 => JK::Weld, 8 | 9 | 10 => JK::Distance, 11 => JK::Friction, 12 => JK::Motor, 14 => JK::Mouse, _ => JK::Pulley });
        s.la = V { x: 0.0, y: if k == 0 { 0.0 } else { -0.3f32 as f64 } };
        s.lb = V { x: 0.0, y: 0.3f32 as f64 };
        let side = V { x: ctx.rng.f(-0.4, 0.4) as f64, y: 0.3f32 as f64 };
        let mut gap = Z;
        s.ax = V { x: 0.0, y: ctx.rng.sign() as f64 };
        match pick {
            // on a stop
            1 => { s.lb = V { x: (ctx.rng.sign() * 0.4f32) as f64, y: 0.0 }; s.lim = true; s.lo = if s.lb.x > 0.0 { -0.5 } else { 0.0 }; s.hi = s.lo + 0.5; }
            // held by its motor
            2 => { s.lb = v32(side); s.motor = true; s.cap = 1e4; }
            3 => { s.lb = v32(side); s.lim = true; s.lo = -0.5; s.hi = 0.5; }
            4 => { s.lb = v32(side); s.motor = true; s.cap = 1e4; }
            5 | 6 => { s.k = ctx.rng.log(50.0, 500.0) as f64; s.dm = s.k * 0.1; if pick == 6 { s.lb = v32(side); s.motor = true; s.cap = 1e4; } }
            7 => { s.lb = v32(side); if ctx.rng.chance(0.3) { s.k = ctx.rng.log(100.0, 500.0) as f64; s.dm = s.k * 0.1; } }
            8 => { s.len = 1.0; s.min = 1.0; s.max = 1.0; gap = V { x: 0.0, y: -1.0 }; }
            9 => { s.len = 1.0; s.min = 0.1; s.max = 1.0; gap = V { x: 0.0, y: -1.0 }; }
            10 => { s.len = 1.0; s.min = 0.1; s.max = 5.0; s.k = ctx.rng.log(50.0, 500.0) as f64; s.dm = s.k * 0.1; gap = V { x: 0.0, y: -1.0 }; }
            11 => { s.lb = v32(side); s.max_f = 1e4; s.max_t = 1e4; }
            12 => { s.la = s.la - v32(side); s.off = v32(s.la); s.lb = Z; s.max_f = 1e4; s.max_t = 1e4; s.corr = 0.3f32 as f64; }
            14 => { s.k = ctx.rng.log(50.0, 500.0) as f64; s.dm = s.k * 0.1; s.max_f = 1e4; }
            15 => { gap = V { x: 0.0, y: -1.0 }; s.ga = v32(t.p + V { x: 2.0, y: 1.0 }); s.gb = v32(t.p); s.len = (s.ga - t.p).len(); s.min = 1.0; s.ratio = ctx.rng.f(0.5, 2.0) as f64; s.total = s.len + s.ratio * s.min; }
            _ => {}
        }
        let def = { let mut q = Sim::def(DYNAMIC, b2(t.p + s.la + gap - s.lb), 0.0); q.linear_damping = 2.0; q.angular_damping = 4.0; q };
        let b = sim.add(def);
        let mut fx = Fx::default();
        fx.filter.group_index = -1;
        fx.density = ctx.rng.f(0.7, 1.4);
        sim.fixture(b, &rc(bx(0.3, 0.4)), Kind::Poly, &fx);
        make(&mut sim, tip, b, &mut s);
        // a slider standing on a strut
        if pick == 13 {
            let mut q = blank(JK::Distance);
            q.la = V { x: s.la.x, y: s.la.y - 2.0 };
            q.lb = s.lb;
            q.min = 2.0;
            q.len = 2.0;
            q.max = 4.0;
            make(&mut sim, tip, b, &mut q);
        }
        names.push((pick, s));
        all.push(b);
        tip = b;
    }
    sim.vi = 60;
    sim.pi = 10;
    for _ in 0..500 { sim.step(); }
    // damping counteracts loads by an amount that depends on the step, so it fades out
    for b in &all { sim.b(*b).borrow_mut().set_linear_damping(0.2); sim.b(*b).borrow_mut().set_angular_damping(0.2); }
    for _ in 0..150 { sim.step(); }
    for b in &all { sim.b(*b).borrow_mut().set_linear_damping(0.0); sim.b(*b).borrow_mut().set_angular_damping(0.0); }
    for _ in 0..150 { sim.step(); }
    let at = |sim: &Sim| -> Vec<St> { all.iter().map(|b| st(&sim.b(*b))).collect() };
    let r0 = at(&sim);
    sim.step();
    let r1 = at(&sim);
    if r0.iter().zip(&r1).any(|(a, b)| (a.c - b.c).len() > 2e-5 || (a.a - b.a).abs() > 2e-5 || b.v.len() > 1e-3 || b.w.abs() > 1e-3) { ctx.hit("not_at_rest"); return; }
    ctx.hit("at_rest");
    for k in 0..12 {
        sim.dt = *ctx.rng.pick(&[1.0f32 / 240.0, 1.0 / 120.0, 1.0 / 60.0, 1.0 / 40.0, 1.0 / 30.0]);
        sim.vi = ctx.rng.int(1, 3) as i32;
        sim.pi = ctx.rng.int(1, 3) as i32;
        sim.step();
        ctx.evals += 1;
        for (i, s) in at(&sim).iter().enumerate() {
            let e = (s.c - r1[i].c).len().max((s.a - r1[i].a).abs());
            ctx.max("uneven_shift", e);
            ctx.max("uneven_speed", s.v.len().max(s.w.abs()));
            ctx.check(e <= 6e-3 && s.v.len() <= 0.08 && s.w.abs() <= 0.08, || format!("resting body {} of {} moved by {} at speed {:?} {} in step {} of length {} [{:?}]", i, n, e, s.v, s.w, k, sim.dt, names));
        }
        if ctx.failed() { return; }
    }
    for (p, _) in &names { ctx.hit(&format!("uneven {}", p)); }
    ctx.distinct(hash_f(&r1.iter().map(|s| s.c.x as f32).chain(r1.iter().map(|s| s.m as f32)).collect::<Vec<_>>()));
}

/// a body on its own joint to a first body that no force moves
struct Geared { b: usize, s: Spec, first: usize }
fn geared(ctx: &mut Ctx, sim: &mut Sim, kind: JK, at: V, on: Option<usize>, carried: bool) -> (Geared, usize) {
    let t = if carried { DYNAMIC } else { *ctx.rng.pick(&[STATIC, STATIC, KINEMATIC]) };
    let (first, at, aa) = match on {
        Some(q) => { let s = st(&sim.b(q)); (q, s.p, s.a) }
        None => { let aa = ctx.rng.angle() as f64; (sim.body(t, b2(at), aa as f32), at, aa as f32 as f64) }
    };
    if carried && on.is_none() {
        let mut fx = Fx::default();
        fx.filter.group_index = -1;
        fx.density = ctx.rng.log(0.3, 3.0);
        let o = if ctx.rng.chance(0.5) { ctx.rng.vec(0.5) } else { b2v(0.0, 0.0) };
        sim.fixture(first, &rc(bx_at(ctx.rng.f(0.4, 1.0), ctx.rng.f(0.4, 1.0), o, 0.7)), Kind::Poly, &fx);
    }
    if t == KINEMATIC {
        let v = ctx.rng.vec(1.0);
        sim.b(first).borrow_mut().set_linear_velocity(v);
        if kind == JK::Revolute { let w = ctx.rng.f(-1.0, 1.0); sim.b(first).borrow_mut().set_angular_velocity(w); }
    }
    let mut s = blank(kind);
    s.la = v32(d(ctx.rng.vec(0.8)));
    s.lb = v32(d(ctx.rng.vec(0.4)));
    s.ax = v32(d(ctx.rng.dir()).norm());
    s.rf = ctx.rng.f(-1.0, 1.0) as f64;
    let phi = if kind == JK::Revolute { ctx.rng.f(-2.0, 2.0) as f64 } else { 0.0 };
    let tr = if kind == JK::Prismatic { ctx.rng.f(-1.0, 1.0) as f64 } else { 0.0 };
    let ab = aa + s.rf + phi;
    let pb = at + rot(aa, s.la) + rot(aa, s.ax) * tr - rot(ab, s.lb);
    let b = sim.body(DYNAMIC, b2(pb), ab as f32);
    let mut fx = Fx::default();
    fx.filter.group_index = -1;
    fx.density = ctx.rng.log(0.3, 3.0);
    let o = if ctx.rng.chance(0.3) { ctx.rng.vec(0.3) } else { b2v(0.0, 0.0) };
    sim.fixture(b, &rc(bx_at(ctx.rng.f(0.3, 0.7), ctx.rng.f(0.3, 0.7), o, 0.3)), Kind::Poly, &fx);
    let j = make(sim, first, b, &mut s);
    (Geared { b, s, first }, j)
}
impl Geared {
    fn coord(&self, sim: &Sim) -> f64 {
        let g = geo_of(&self.s, &st(&sim.b(self.first)), &st(&sim.b(self.b)));
        if self.s.kind == JK::Revolute { g.angle } else { g.t }
    }
    /// momentum along the free coordinate, for given velocities of the body
    fn mom(&self, g: &Geo, b: &St, v: V, w: f64) -> f64 {
        match self.s.kind { JK::Revolute => b.i * w + (V { x: -g.rb.x, y: -g.rb.y }).cross(v) * b.m, _ => g.ax.dot(v) * b.m }
    }
}
fn gear(ctx: &mut Ctx, law: bool) {
    let mut sim = Sim::new(if ctx.rng.chance(0.3) { b2v(0.0, 0.0) } else { ctx.rng.vec(10.0) });
    sim.w.borrow_mut().set_allow_sleeping(false);
    let kinds = [*ctx.rng.pick(&[JK::Revolute, JK::Prismatic]), *ctx.rng.pick(&[JK::Revolute, JK::Prismatic])];
    let (x, j1) = geared(ctx, &mut sim, kinds[0], V { x: -3.0, y: 0.0 }, None, false);
    let (y, j2) = geared(ctx, &mut sim, kinds[1], V { x: 3.0, y: 0.0 }, None, false);
    let ratio = if ctx.rng.chance(0.2) { ctx.rng.sign() } else { ctx.rng.sign() * ctx.rng.log(0.25, 4.0) };
    let c0 = x.coord(&sim) + ratio as f64 * y.coord(&sim);
    let def = B2gearJointDef { base: sim.jbase(B2jointType::EGearJoint, x.b, y.b, false), joint1: Some(sim.joints[j1].p.clone()), joint2: Some(sim.joints[j2].p.clone()), ratio };
    let gj = sim.joint(B2JointDefEnum::GearJoint(def), JK::Gear, x.b, y.b, false);
    let rho = ratio as f64;
    sim.w.borrow_mut().set_warm_starting(ctx.rng.chance(0.8));
    if law { sim.vi = 1500; sim.pi = 20; }
    let steps = if law { ctx.rng.int(2, 8) } else { 240 };
    if !law {
        // bodies that swing forever are braked
        for q in [x.b, y.b] { let (l, a) = (ctx.rng.f(0.0, 1.0), ctx.rng.f(0.0, 1.0)); let q = sim.b(q); q.borrow_mut().set_linear_damping(l); q.borrow_mut().set_angular_damping(a); }
        // and sliders kept within reach
        for (k, j) in [(kinds[0], j1), (kinds[1], j2)] { if k == JK::Prismatic { if let JointAsDerivedMut::EPrismaticJoint(q) = sim.joints[j].p.borrow_mut().as_derived_mut() { q.set_limits(-3.0, 3.0); q.enable_limit(true); } } }
        // a gear working against a stop needs iterations
        if kinds.contains(&JK::Prismatic) { sim.vi = 80; sim.pi = 40; }
        let w = ctx.rng.below(3);
        if w < 2 {
            let (j, sp, cap) = (if w == 0 { j1 } else { j2 }, ctx.rng.f(-4.0, 4.0), ctx.rng.f(1.0, 60.0));
            match sim.joints[j].p.borrow_mut().as_derived_mut() { JointAsDerivedMut::ERevoluteJoint(q) => { q.enable_motor(true); q.set_motor_speed(sp); q.set_max_motor_torque(cap); } JointAsDerivedMut::EPrismaticJoint(q) => { q.enable_motor(true); q.set_motor_speed(sp); q.set_max_motor_force(cap); } _ => {} }
            ctx.hit(if w == 0 { "driven_first" } else { "driven_second" });
        }
    }
    let mut hs = vec![];
    for n in 0..steps {
        sim.dt = if law { *ctx.rng.pick(&[1.0f32 / 60.0, 1.0 / 120.0, 1.0 / 30.0]) } else { 1.0 / 60.0 };
        let h = sim.dt as f64;
        let g = d(sim.w.borrow().get_gravity());
        let mut load = [(Z, 0.0), (Z, 0.0)];
        for (k, q) in [x.b, y.b].iter().enumerate() {
            let q = sim.b(*q);
            if law && n == 0 && ctx.rng.chance(0.7) { let (v, w) = (ctx.rng.vec(4.0), ctx.rng.f(-4.0, 4.0)); q.borrow_mut().set_linear_velocity(v); q.borrow_mut().set_angular_velocity(w); }
            if ctx.rng.chance(if law { 0.4 } else { 0.1 }) {
                let s = st(&q);
                let (f, at) = (ctx.rng.vec(if law { 40.0 } else { 10.0 }), b2(s.c + d(ctx.rng.vec(0.5))));
                q.borrow_mut().apply_force(f, at, true);
                load[k] = (d(f), (d(at) - s.c).cross(d(f)));
            }
        }
        let s0 = [st(&sim.b(x.b)), st(&sim.b(y.b))];
        let g0 = [geo_of(&x.s, &st(&sim.b(x.first)), &s0[0]), geo_of(&y.s, &st(&sim.b(y.first)), &s0[1])];
        let fv = [free_vel(&s0[0], &sim.b(x.b), g, load[0].0, load[0].1, h), free_vel(&s0[1], &sim.b(y.b), g, load[1].0, load[1].1, h)];
        sim.step();
        ctx.evals += 1;
        let s1 = [st(&sim.b(x.b)), st(&sim.b(y.b))];
        let show = |t: String| format!("{} [ratio {} {:?} {:?} before {:?} after {:?} load {:?}]", t, ratio, x.s, y.s, s0, s1, load);
        let top = s1.iter().chain(s0.iter()).map(|s| s.v.len().max(s.w.abs())).chain(fv.iter().map(|q| q.0.len().max(q.1.abs()))).fold(1.0, f64::max);
        if !(top < 1e6) { ctx.fail(show("not finite".into())); return; }
        if law {
            if top > 30.0 || s1.iter().any(|s| s.w.abs() * h > 1.4 || s.v.len() * h > 1.9) { ctx.hit("too_fast"); return; }
            let firsts = [st(&sim.b(x.first)), st(&sim.b(y.first))];
            let sp: Vec<f64> = [&x, &y].iter().enumerate().map(|(k, q)| match q.s.kind { JK::Revolute => s1[k].w - firsts[k].w, _ => g0[k].ax.dot(s1[k].v - firsts[k].v) }).collect();
            let ts = 2e-3 * top * (1.0 + rho.abs());
            ctx.check((sp[0] + rho * sp[1]).abs() <= ts, || show(format!("speeds {} and {} are not in ratio", sp[0], sp[1])));
            // virtual work: no net push along the motion the gear allows
            let m1 = [x.mom(&g0[0], &s0[0], s1[0].v, s1[0].w), y.mom(&g0[1], &s0[1], s1[1].v, s1[1].w)];
            let m0 = [x.mom(&g0[0], &s0[0], fv[0].0, fv[0].1), y.mom(&g0[1], &s0[1], fv[1].0, fv[1].1)];
            let net = -rho * (m1[0] - m0[0]) + (m1[1] - m0[1]);
            let scale = rho.abs() * (s0[0].m + s0[0].i) + s0[1].m + s0[1].i;
            ctx.max("work_error", net.abs() / (scale * top));
            ctx.check(net.abs() <= 3e-3 * scale * top, || show(format!("pushes {} and {} are not in ratio", m1[0] - m0[0], m1[1] - m0[1])));
            if (m1[0] - m0[0]).abs() > 0.05 * top * scale { ctx.hit("load_transmitted"); }
        }
        let c = x.coord(&sim) + rho * y.coord(&sim) - c0;
        let unit = 1.0 + rho.abs();
        // fast turning of an off-centre body can outrun position correction
        if top * h < 0.15 { ctx.max(if law { "law_drift" } else { "drift" }, c.abs() / unit); ctx.check(c.abs() <= (if law { 0.006 } else { 0.1 }) * unit, || show(format!("step {}: coordinates have drifted by {}", n, c))); ctx.hit("ratio_kept"); }
        if ctx.failed() { return; }
        hs.push(s1[0].v.x as f32);
        hs.push(s1[1].w as f32);
    }
    let _ = gj;
    ctx.hit(&format!("{:?}-{:?}", kinds[0], kinds[1]));
    ctx.hit(if rho < 0.0 { "negative_ratio" } else { "positive_ratio" });
    ctx.distinct(hash_f(&hs));
}
/// solves a small linear system, None when it is close to singular
fn solve_small(mut m: Vec<Vec<f64>>, mut b: Vec<f64>) -> Option<Vec<f64>> {
    let n = b.len();
    let sc: Vec<f64> = (0..n).map(|i| m[i][i].max(1e-12).sqrt()).collect();
    for i in 0..n { for j in 0..n { m[i][j] /= sc[i] * sc[j]; } b[i] /= sc[i]; }
    for i in 0..n {
        let p = (i..n).max_by(|x, y| m[*x][i].abs().partial_cmp(&m[*y][i].abs()).unwrap()).unwrap();
        if m[p][i].abs() < 0.02 { return None; }
        m.swap(i, p);
        b.swap(i, p);
        for j in i + 1..n { let f = m[j][i] / m[i][i]; for k in i..n { let q = m[i][k]; m[j][k] -= f * q; } b[j] -= f * b[i]; }
    }
    for i in (0..n).rev() { for k in i + 1..n { b[i] -= m[i][k] * b[k]; } b[i] /= m[i][i]; }
    for i in 0..n { b[i] /= sc[i]; }
    Some(b)
}
/// two gears on carriers that move themselves, or on one shared carrier, against the exact solution of all constraints at once
pub fn gear_carrier(ctx: &mut Ctx) {
    let mut sim = Sim::new(if ctx.rng.chance(0.3) { b2v(0.0, 0.0) } else { ctx.rng.vec(10.0) });
    sim.w.borrow_mut().set_allow_sleeping(false);
    let kinds = [*ctx.rng.pick(&[JK::Revolute, JK::Prismatic]), *ctx.rng.pick(&[JK::Revolute, JK::Prismatic])];
    let shared = ctx.rng.chance(0.3);
    let (x, j1) = geared(ctx, &mut sim, kinds[0], V { x: -2.0, y: 0.0 }, None, true);
    let (y, j2) = geared(ctx, &mut sim, kinds[1], V { x: 2.0, y: 0.0 }, if shared { Some(x.first) } else { None }, true);
    let ratio = if ctx.rng.chance(0.2) { ctx.rng.sign() } else { ctx.rng.sign() * ctx.rng.log(0.25, 4.0) };
    let rho = ratio as f64;
    let c0 = x.coord(&sim) + rho * y.coord(&sim);
    let def = B2gearJointDef { base: sim.jbase(B2jointType::EGearJoint, x.b, y.b, false), joint1: Some(sim.joints[j1].p.clone()), joint2: Some(sim.joints[j2].p.clone()), ratio };
    sim.joint(B2JointDefEnum::GearJoint(def), JK::Gear, x.b, y.b, false);
    sim.w.borrow_mut().set_warm_starting(ctx.rng.chance(0.8));
    sim.vi = 3000;
    sim.pi = 30;
    let mut bs = vec![x.b, y.b, x.first];
    if !shared { bs.push(y.first); }
    let at = |q: usize| bs.iter().position(|z| *z == q).unwrap();
    // the teeth are put out of step: the second body is turned about or moved along its joint
    let slip = if ctx.rng.chance(0.3) { (ctx.rng.sign() * ctx.rng.log(0.02, 0.15)) as f64 } else { 0.0 };
    if slip != 0.0 {
        let (c, s) = (st(&sim.b(y.first)), st(&sim.b(y.b)));
        let g = geo_of(&y.s, &c, &s);
        let (p, a) = if kinds[1] == JK::Revolute { let a = s.a + slip; (s.p + rot(s.a, y.s.lb) - rot(a, y.s.lb), a) } else { (s.p + g.ax * slip, s.a) };
        sim.b(y.b).borrow_mut().set_transform(b2(p), a as f32);
        ctx.hit("slipped");
    }
    let steps = ctx.rng.int(2, 6);
    let mut apart = 0.0f64;
    let mut hs = vec![];
    for n in 0..steps {
        sim.dt = *ctx.rng.pick(&[1.0f32 / 60.0, 1.0 / 120.0, 1.0 / 30.0]);
        let h = sim.dt as f64;
        let grav = d(sim.w.borrow().get_gravity());
        let (mut s0, mut fv) = (vec![], vec![]);
        for q in &bs {
            let q = sim.b(*q);
            if n == 0 && ctx.rng.chance(0.7) { let (v, w) = (ctx.rng.vec(3.0), ctx.rng.f(-3.0, 3.0)); q.borrow_mut().set_linear_velocity(v); q.borrow_mut().set_angular_velocity(w); }
            let s = st(&q);
            let mut load = (Z, 0.0);
            if ctx.rng.chance(0.4) {
                let (f, p) = (ctx.rng.vec(30.0), b2(s.c + d(ctx.rng.vec(0.5))));
                q.borrow_mut().apply_force(f, p, true);
                load = (d(f), (d(p) - s.c).cross(d(f)));
            }
            let s = st(&q);
            fv.push(free_vel(&s, &q, grav, load.0, load.1, h));
            s0.push(s);
        }
        // rows of the constraints: body, linear part, angular part
        let mut rows: Vec<Vec<(usize, V, f64)>> = vec![];
        let mut gear_row: Vec<(usize, V, f64)> = vec![];
        for (q, f) in [(&x, 1.0), (&y, rho)] {
            let (b, c) = (at(q.b), at(q.first));
            let g = geo_of(&q.s, &s0[c], &s0[b]);
            let arm = g.dd + g.ra;
            let slide = |u: V| vec![(b, u, g.rb.cross(u)), (c, u * -1.0, -arm.cross(u))];
            if q.s.kind == JK::Revolute {
                for u in [V { x: 1.0, y: 0.0 }, V { x: 0.0, y: 1.0 }] { rows.push(slide(u)); }
                gear_row.push((b, Z, f));
                gear_row.push((c, Z, -f));
            } else {
                rows.push(slide(g.ax.perp()));
                rows.push(vec![(b, Z, 1.0), (c, Z, -1.0)]);
                for (i, l, w) in slide(g.ax) { gear_row.push((i, l * f, w * f)); }
            }
        }
        rows.push(gear_row);
        let dense: Vec<Vec<(V, f64)>> = rows.iter().map(|r| { let mut o = vec![(Z, 0.0); bs.len()]; for (i, l, w) in r { o[*i].0 = o[*i].0 + *l; o[*i].1 += *w; } o }).collect();
        let k = dense.iter().map(|r| dense.iter().map(|q| (0..bs.len()).map(|i| r[i].0.dot(q[i].0) / s0[i].m + r[i].1 * q[i].1 / s0[i].i).sum()).collect()).collect();
        let err: Vec<f64> = dense.iter().map(|r| (0..bs.len()).map(|i| r[i].0.dot(fv[i].0) + r[i].1 * fv[i].1).sum()).collect();
        let sol = solve_small(k, err);
        sim.step();
        ctx.evals += 1;
        let s1: Vec<St> = bs.iter().map(|q| st(&sim.b(*q))).collect();
        let show = |t: String| format!("{} [step {} ratio {} shared {} slip {} {:?} {:?} before {:?} after {:?} free {:?}]", t, n, ratio, shared, slip, x.s, y.s, s0, s1, fv);
        let top = s1.iter().chain(s0.iter()).map(|s| s.v.len().max(s.w.abs())).chain(fv.iter().map(|q| q.0.len().max(q.1.abs()))).fold(1.0, f64::max);
        if !(top < 1e6) { ctx.fail(show("not finite".into())); return; }
        if top > 30.0 || s1.iter().any(|s| s.w.abs() * h > 1.4 || s.v.len() * h > 1.9) { ctx.hit("too_fast"); return; }
        let mt: f64 = s0.iter().map(|s| s.m).sum();
        let (mut p0, mut p1, mut l0, mut l1) = (Z, Z, 0.0, 0.0);
        let mid = s0.iter().fold(Z, |q, s| q + s.c * (s.m / mt));
        let mut lsc = 0.0;
        for i in 0..bs.len() {
            p0 = p0 + fv[i].0 * s0[i].m;
            p1 = p1 + s1[i].v * s0[i].m;
            l0 += s0[i].i * fv[i].1 + (s0[i].c - mid).cross(fv[i].0) * s0[i].m;
            l1 += s0[i].i * s1[i].w + (s0[i].c - mid).cross(s1[i].v) * s0[i].m;
            lsc += s0[i].i + s0[i].m * (s0[i].c - mid).len();
        }
        ctx.max("momentum_error", (p1 - p0).len() / (mt * top));
        if apart <= 0.006 { ctx.max("spin_error", (l1 - l0).abs() / (lsc * top)); }
        ctx.check((p1 - p0).len() <= 1e-3 * mt * top, || show(format!("momentum went from {:?} to {:?}", p0, p1)));
        ctx.check(apart > 0.006 || (l1 - l0).abs() <= 4e-3 * lsc * top, || show(format!("angular momentum went from {} to {}", l0, l1)));
        match sol {
            Some(l) => {
                let mut e = 0.0f64;
                for i in 0..bs.len() {
                    let (mut v, mut w) = fv[i];
                    for (r, f) in dense.iter().zip(&l) { v = v - r[i].0 * (f / s0[i].m); w -= r[i].1 * f / s0[i].i; }
                    e = e.max((v - s1[i].v).len()).max((w - s1[i].w).abs());
                }
                // closing a slip may pull the joints apart for a moment, and then the constraints are not those of the model
                if apart > 0.006 { ctx.hit("apart_before"); } else {
                    ctx.max("carrier_error", e / top);
                    ctx.check(e <= 0.02 * top, || show(format!("velocities differ from the exact solution by {}", e)));
                    ctx.hit("solved");
                }
            }
            None => ctx.hit("near_singular"),
        }
        // shifting bodies back into step leaves their common centre where the velocities put it
        let c1 = s1.iter().fold(Z, |q, s| q + (s.c) * (s.m / mt));
        let e = (c1 - mid - p1 * (h / mt)).len();
        ctx.max("centre_error", e);
        ctx.check(e <= 2e-4 + 1e-3 * slip.abs(), || show(format!("the common centre jumped by {}", e)));
        let c = x.coord(&sim) + rho * y.coord(&sim) - c0;
        let unit = 1.0 + rho.abs();
        if slip == 0.0 || n > 0 { ctx.max(if slip == 0.0 { "carrier_drift" } else { "slip_left" }, c.abs() / unit); ctx.check(c.abs() <= 0.012 * unit + (slip * rho).abs() * 0.85f64.powi(n as i32), || show(format!("coordinates are out of step by {}", c))); }
        apart = 0.0;
        for q in [&x, &y] {
            let g = geo_of(&q.s, &s1[at(q.first)], &s1[at(q.b)]);
            let e = if q.s.kind == JK::Revolute { g.dd.len() } else { g.ax.perp().dot(g.dd).abs().max(g.angle.abs()) };
            ctx.max("carrier_joint", e);
            apart = apart.max(e);
            ctx.check(e <= 0.05 + 2.0 * slip.abs() * unit, || show(format!("a joint came apart by {}", e)));
        }
        if ctx.failed() { return; }
        for s in &s1 { hs.push(s.v.x as f32); }
    }
    ctx.hit(if shared { "shared_carrier" } else { "own_carriers" });
    ctx.distinct(hash_f(&hs));
}
pub fn gear_law(ctx: &mut Ctx) { gear(ctx, true) }
pub fn gear_run(ctx: &mut Ctx) { gear(ctx, false) }

fn pulley(ctx: &mut Ctx, law: bool, reaction: bool) {
    let mut sim = Sim::new(if law && ctx.rng.chance(0.5) { ctx.rng.vec(10.0) } else { b2v(0.0, -10.0) });
    sim.w.borrow_mut().set_allow_sleeping(false);
    let mut s = blank(JK::Pulley);
    let fixed = if law && ctx.rng.chance(0.2) { ctx.rng.below(2) as i32 } else { -1 };
    let ends: Vec<usize> = (0..2).map(|k| { let (t, p, a) = (if fixed == k { STATIC } else { DYNAMIC }, V { x: if k == 0 { -3.0 } else { 3.0 }, y: 0.0 } + d(ctx.rng.vec(1.0)), ctx.rng.angle() as f64); if law { solid(ctx, &mut sim, t, p, a) } else { block(ctx, &mut sim, t, p, a, 0.4) } }).collect();
    if law { s.la = v32(d(ctx.rng.vec(0.7))); s.lb = v32(d(ctx.rng.vec(0.7))); } else { s.la = v32(d(ctx.rng.vec(0.2))); s.lb = v32(d(ctx.rng.vec(0.2))); }
    let w = [sim.b(ends[0]).borrow().get_world_point(b2(s.la)), sim.b(ends[1]).borrow().get_world_point(b2(s.lb))];
    let up = |ctx: &mut Ctx| if law { rot(ctx.rng.angle() as f64, V { x: 0.0, y: ctx.rng.f(1.0, 5.0) as f64 }) } else { V { x: ctx.rng.f(-0.3, 0.3) as f64, y: ctx.rng.f(4.0, 6.0) as f64 } };
    let (ua, ub) = (up(ctx), up(ctx));
    s.ga = v32(d(w[0]) + ua);
    s.gb = v32(d(w[1]) + ub);
    s.ratio = ctx.rng.log(0.3, 3.0) as f64;
    s.len = ((d(w[0]) - s.ga).len() as f32) as f64;
    s.min = ((d(w[1]) - s.gb).len() as f32) as f64;
    let total = s.len + s.ratio * s.min;
    let j = make(&mut sim, ends[0], ends[1], &mut s);
    let rho = s.ratio;
    sim.w.borrow_mut().set_warm_starting(ctx.rng.chance(0.8));
    if law { sim.vi = 200; sim.pi = 20; }
    let lens = |sim: &Sim| { let (a, b) = (st(&sim.b(ends[0])), st(&sim.b(ends[1]))); ((a.c + rot(a.a, s.la - a.lc) - s.ga), (b.c + rot(b.a, s.lb - b.lc) - s.gb)) };
    let mut hs = vec![];
    for n in 0..if law { ctx.rng.int(2, 8) } else { 240 } {
        sim.dt = if law { *ctx.rng.pick(&[1.0f32 / 60.0, 1.0 / 120.0, 1.0 / 30.0]) } else { 1.0 / 60.0 };
        let h = sim.dt as f64;
        let g = d(sim.w.borrow().get_gravity());
        let mut load = [(Z, 0.0), (Z, 0.0)];
        for k in 0..2 {
            let q = sim.b(ends[k]);
            if fixed == k as i32 { continue; }
            if law && n == 0 && ctx.rng.chance(0.7) { let (v, w) = (ctx.rng.vec(4.0), ctx.rng.f(-4.0, 4.0)); q.borrow_mut().set_linear_velocity(v); if !q.borrow().is_fixed_rotation() { q.borrow_mut().set_angular_velocity(w); } }
            if ctx.rng.chance(if law { 0.4 } else { 0.05 }) {
                let t = st(&q);
                let (f, at) = (ctx.rng.vec(if law { 40.0 } else { 5.0 }), b2(t.c + d(ctx.rng.vec(if law { 0.5 } else { 0.1 }))));
                q.borrow_mut().apply_force(f, at, true);
                load[k] = (d(f), (d(at) - t.c).cross(d(f)));
            }
        }
        let s0 = [st(&sim.b(ends[0])), st(&sim.b(ends[1]))];
        let (la, lb) = lens(&sim);
        // the rope runs out at one side
        if la.len() < 0.6 || lb.len() < 0.6 { ctx.hit("run_out"); break; }
        let u = [la.norm(), lb.norm()];
        let r = [rot(s0[0].a, s.la - s0[0].lc), rot(s0[1].a, s.lb - s0[1].lc)];
        let fv = [free_vel(&s0[0], &sim.b(ends[0]), g, load[0].0, load[0].1, h), free_vel(&s0[1], &sim.b(ends[1]), g, load[1].0, load[1].1, h)];
        sim.step();
        ctx.evals += 1;
        let s1 = [st(&sim.b(ends[0])), st(&sim.b(ends[1]))];
        let top = s1.iter().chain(s0.iter()).map(|s| s.v.len().max(s.w.abs())).chain(fv.iter().map(|q| q.0.len().max(q.1.abs()))).fold(1.0, f64::max);
        let show = |t: String| format!("{} [{:?} before {:?} after {:?} load {:?}]", t, s, s0, s1, load);
        if !(top < 1e6) { ctx.fail(show("not finite".into())); return; }
        if law {
            if top > 30.0 || s1.iter().any(|s| s.w.abs() * h > 1.4 || s.v.len() * h > 1.9) { ctx.hit("too_fast"); return; }
            let imp: Vec<V> = (0..2).map(|k| if fixed == k as i32 { Z } else { (s1[k].v - fv[k].0) * s0[k].m }).collect();
            let tp = 4e-4 * top;
            let mut pull = [None, None];
            for k in 0..2 {
                if fixed == k as i32 { continue; }
                let e = tp * s0[k].m + 1e-4 * imp[k].len();
                ctx.check(u[k].cross(imp[k]).abs() <= e, || show(format!("end {} is pushed across the rope by {:?}", k, imp[k])));
                if s0[k].i > 0.0 { let t = s0[k].i * (s1[k].w - fv[k].1) - r[k].cross(imp[k]); ctx.check(t.abs() <= tp * s0[k].i + e, || show(format!("end {} is turned by {}", k, t))); }
                pull[k] = Some((u[k].dot(imp[k]), e));
            }
            if let [Some((a, ea)), Some((b, eb))] = pull { if !reaction { ctx.check((b - rho * a).abs() <= 2.0 * (eb + rho * ea), || show(format!("pulls {} and {} are not in ratio", a, b))); } if a.abs() > 0.1 { ctx.hit("load_transmitted"); } }
            let sp: Vec<f64> = (0..2).map(|k| u[k].dot(s1[k].v + cr(s1[k].w, r[k]))).collect();
            if !reaction { ctx.check((sp[0] + rho * sp[1]).abs() <= 2e-3 * top * (1.0 + rho), || show(format!("rope speeds {} and {} are not in ratio", sp[0], sp[1]))); }
            if reaction {
                let q = sim.joints[j].p.borrow();
                let inv = 1.0 / sim.dt;
                let f = d(q.get_reaction_force(inv));
                let want = match pull { [_, Some((b, e))] => (u[1] * b, e), [Some((a, e)), _] => (u[1] * (rho * a), rho * e), _ => unreachable!() };
                ctx.check((f * h - want.0).len() <= 2.0 * want.1 + 1e-3 * want.0.len() && q.get_reaction_torque(inv) == 0.0, || show(format!("reported force {:?} against {:?} given to the second body", f, want.0 * (1.0 / h))));
                ctx.hit("reaction Pulley");
            }
        }
        if !reaction {
            let (la, lb) = lens(&sim);
            let c = la.len() + rho * lb.len() - total;
            if top * h < 0.2 && la.len() > 0.6 && lb.len() > 0.6 { ctx.max(if law { "pulley_law_drift" } else { "pulley_drift" }, c.abs() / (1.0 + rho)); ctx.check(c.abs() <= (if law { 0.006 } else { 0.05 }) * (1.0 + rho), || show(format!("step {}: the rope has changed its length by {}", n, c))); ctx.hit("rope_kept"); }
        }
        if ctx.failed() { return; }
        hs.push(s1[0].v.x as f32);
        hs.push(s1[1].v.y as f32);
    }
    ctx.distinct(hash_f(&hs));
}
pub fn pulley_law(ctx: &mut Ctx) { pulley(ctx, true, false) }
pub fn pulley_run(ctx: &mut Ctx) { pulley(ctx, false, false) }
pub fn pulley_reaction(ctx: &mut Ctx) { pulley(ctx, true, true) }
