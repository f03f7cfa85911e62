//! C40 shifting the origin, C41 rigid motion, mirroring and swapping, C47 step settings
//!
//! Results that should agree "up to rounding" are compared against what rounding does: the same question is asked
//! with its input disturbed in the last places, and where that alone changes the answer nothing is judged.
use crate::core::*;
use crate::dump::*;
use crate::gen::*;
use crate::geo::*;
use crate::p_dist::proxy;
use crate::p_manifold::{collide, face_sep, world_manifold};
use crate::sim::*;
use box2d_rs::b2_distance::*;
use box2d_rs::b2_time_of_impact::*;
use box2d_rs::shapes::b2_chain_shape::*;
use box2d_rs::shapes::b2_edge_shape::*;
use box2d_rs::shapes::b2_polygon_shape::*;
use box2d_rs::shapes::b2rs_to_derived_shape::ShapeAsDerived;

/// the answer to a question: `first` and `class` must agree exactly, `vals` closely.
/// With another `order` (of contacts, which decides how they are solved) only `first` is comparable.
#[derive(Clone, Default)]
struct Ans {
    first: Vec<u64>,
    class: Vec<u64>,
    order: Vec<u64>,
    vals: Vec<f64>,
}
/// which way a question is asked
struct How<'a> {
    alt: bool,
    eps: f64,
    noise: Option<&'a mut Rng>,
}
impl<'a> How<'a> {
    fn n(&mut self) -> f64 {
        let e = self.eps;
        self.noise.as_mut().map_or(0.0, |r| e * (2.0 * r.unit() - 1.0))
    }
    fn v(&mut self) -> V {
        v(self.n(), self.n())
    }
}
fn gap(a: &Ans, b: &Ans) -> f64 {
    a.vals.iter().zip(b.vals.iter()).map(|(x, y)| { let e = (x - y).abs(); if e.is_nan() { f64::INFINITY } else { e } }).fold(0.0, f64::max)
}
/// the question has the same answer when asked the other way
fn invariant(ctx: &mut Ctx, what: &str, tol: f64, eps: f64, f: &dyn Fn(&mut How) -> Option<Ans>) -> bool {
    let seed = ctx.rng.u64();
    let ask = |alt: bool, noise: Option<(u64, f64)>| {
        let mut r = Rng::new(noise.map_or(0, |n| n.0));
        let some = noise.is_some();
        f(&mut How { alt, eps: noise.map_or(0.0, |n| n.1), noise: if some { Some(&mut r) } else { None } })
    };
    let base = match ask(false, None) { Some(a) => a, None => { ctx.hit("not_asked"); return true } };
    let mut dev = 0.0f64;
    for k in 0..2 {
        let n = match ask(false, Some((seed ^ k, eps))) { Some(a) => a, None => { ctx.hit("sensitive"); return true } };
        if n.first != base.first || n.class != base.class || n.vals.len() != base.vals.len() { ctx.hit("sensitive"); return true; }
        dev = dev.max(gap(&n, &base));
    }
    let alt = match ask(true, None) { Some(a) => a, None => { ctx.hit("not_asked"); return true } };
    let same_order = alt.order == base.order;
    let close = |dev: f64| alt.first == base.first && (!same_order || (alt.class == base.class && alt.vals.len() == base.vals.len() && gap(&alt, &base) <= tol + 30.0 * dev));
    if !same_order { ctx.hit("other_order"); }
    if !close(dev) {
        // look harder for what rounding can do here before calling it a difference
        for k in 0..36 {
            let e = eps * [1.0, 4.0, 16.0, 64.0][k % 4];
            let n = match ask(false, Some((seed ^ (100 + k as u64), e))) { Some(a) => a, None => { ctx.hit("sensitive"); return true } };
            if n.first != base.first || n.class != base.class || n.vals.len() != base.vals.len() { ctx.hit("sensitive"); return true; }
            dev = dev.max(gap(&n, &base));
        }
    }
    ctx.evals += 1;
    if !close(dev) && dev > 40.0 * eps + 0.3 * tol { ctx.hit("sensitive"); return true; }
    if !close(dev) {
        let worst = (0..base.vals.len().min(alt.vals.len())).max_by(|a, b| (base.vals[*a] - alt.vals[*a]).abs().partial_cmp(&(base.vals[*b] - alt.vals[*b]).abs()).unwrap_or(std::cmp::Ordering::Equal)).unwrap_or(0);
        ctx.fail(format!("{}: differs by {} (allowed {}, disturbing the input changes it by {}); value {} is {:?} against {:?}; states {:?} {:?} against {:?} {:?}", what, gap(&alt, &base), tol + 30.0 * dev, dev, worst, alt.vals.get(worst), base.vals.get(worst), alt.first, alt.class, base.first, base.class));
        return false;
    }
    if same_order { ctx.hit("agreed"); ctx.max("difference_e6", gap(&alt, &base)); }
    true
}
/// a rigid motion, possibly after flipping x
#[derive(Clone, Copy)]
struct Move {
    p: V,
    a: f64,
    flip: bool,
}
impl Move {
    fn rand(rng: &mut Rng, r: f32) -> Move {
        let a = match rng.below(4) { 0 => 0.0, 1 => 0.5 * std::f64::consts::PI * rng.int(-2, 2) as f64, _ => rng.angle() as f64 };
        let p = if rng.chance(0.3) { v(0.0, 0.0) } else { d(rng.vec(r)) };
        Move { p, a, flip: false }
    }
    fn f(&self, q: V) -> V {
        if self.flip { v(-q.x, q.y) } else { q }
    }
    fn dir(&self, q: V) -> V {
        Xf::new(v(0.0, 0.0), self.a).rot(self.f(q))
    }
    fn at(&self, q: V) -> V {
        self.dir(q) + self.p
    }
    fn angle(&self, a: f64) -> f64 {
        if self.flip { self.a - a } else { self.a + a }
    }
    fn spin(&self, w: f64) -> f64 {
        if self.flip { -w } else { w }
    }
    fn back_dir(&self, q: V) -> V {
        self.f(Xf::new(v(0.0, 0.0), self.a).inv_rot(q))
    }
    fn back_at(&self, q: V) -> V {
        self.back_dir(q - self.p)
    }
    fn back_angle(&self, a: f64) -> f64 {
        if self.flip { self.a - a } else { a - self.a }
    }
}
const STAY: Move = Move { p: V { x: 0.0, y: 0.0 }, a: 0.0, flip: false };

// ------------------------------------------------------------------------------------------------ C40

fn near(ctx: &mut Ctx, what: &str, a: B2vec2, want: V, tol: f64) {
    ctx.check((d(a) - want).len() <= tol, || format!("{} is {:?}, expected {:?}", what, a, want));
}
fn strip(mut v: Vals, names: &[&str]) -> Vals {
    v.retain(|x| !names.contains(&x.0));
    v
}
fn found(sim: &Sim, lo: V, hi: V) -> Vec<u32> {
    let mut s = vec![];
    sim.w.borrow().query_aabb(|f: FixturePtr<UD>| { s.push(fix_id(&f)); true }, B2AABB { lower_bound: b2(lo), upper_bound: b2(hi) });
    s.sort();
    s.dedup();
    s
}
fn cast(sim: &Sim, p: V, q: V) -> Vec<(u32, f64)> {
    let mut s = vec![];
    sim.w.borrow().ray_cast(|f: FixturePtr<UD>, _p, _n, t: f32| { s.push((fix_id(&f), t as f64)); 1.0 }, b2(p), b2(q));
    s.sort_by(|a, b| a.0.cmp(&b.0).then(a.1.partial_cmp(&b.1).unwrap()));
    s
}
/// joint coordinates: what a joint measures, in no frame
fn coords(j: &dyn B2jointTraitDyn<UD>) -> Vals {
    match j.as_derived() {
        JointAsDerived::EDistanceJoint(q) => vec![("current length", q.get_current_length() as f64)],
        JointAsDerived::EPulleyJoint(q) => vec![("current length a", q.get_current_length_a() as f64), ("current length b", q.get_current_length_b() as f64)],
        JointAsDerived::ERevoluteJoint(q) => vec![("joint angle", q.get_joint_angle() as f64), ("joint speed", q.get_joint_speed() as f64)],
        JointAsDerived::EPrismaticJoint(q) => vec![("translation", q.get_joint_translation() as f64), ("joint speed", q.get_joint_speed() as f64)],
        JointAsDerived::EWheelJoint(q) => vec![("translation", q.get_joint_translation() as f64), ("linear speed", q.get_joint_linear_speed() as f64), ("joint angle", q.get_joint_angle() as f64), ("angular speed", q.get_joint_angular_speed() as f64)],
        _ => vec![],
    }
}
fn contact_state(sim: &Sim) -> Vec<(Key, bool, bool, Vec<u32>)> {
    sim.contacts().iter().map(|c| {
        let b = c.borrow();
        let b = b.get_base();
        let m = b.get_manifold();
        let mut w = vec![m.point_count as u32, m.manifold_type as u32, m.local_normal.x.to_bits(), m.local_normal.y.to_bits(), m.local_point.x.to_bits(), m.local_point.y.to_bits()];
        for p in m.points[..m.point_count as usize].iter() { w.extend(&[p.local_point.x.to_bits(), p.local_point.y.to_bits(), p.normal_impulse.to_bits(), p.tangent_impulse.to_bits()]); }
        (contact_key(b), b.is_touching(), b.is_enabled(), w)
    }).collect()
}
fn c40_instant(ctx: &mut Ctx) {
    let mut o = SceneOpts::default();
    o.bodies = ctx.rng.int(2, 10) as usize;
    o.joints = ctx.rng.int(0, 7) as usize;
    o.joint_kinds = ALL_JK.to_vec();
    o.spread = ctx.rng.f(2.0, 6.0);
    let mut sim = rand_scene(&mut ctx.rng, &o);
    for _ in 0..ctx.rng.int(0, 25) { rand_op(&mut sim, &mut ctx.rng, &o); }
    for _ in 0..ctx.rng.int(1, 3) {
        if sim.wild() { ctx.hit("wild"); return; }
        sim.take_events();
        let q = match ctx.rng.below(4) { 0 => ctx.rng.vec(1.0), 1 => ctx.rng.vec(20.0), 2 => ctx.rng.vec(1000.0), _ => b2v(ctx.rng.int(-9, 9) as f32, 0.0) };
        let bodies: Vec<(Vals, V, V)> = sim.bodies.iter().map(|b| { let b = b.p.borrow(); let mut v = body_vals(&b); v.extend(mass_vals(&b)); (strip(v, &["position", "transform", "world centre"]), d(b.get_position()), d(b.get_world_center())) }).collect();
        let reach = bodies.iter().map(|b| b.1.len()).fold(0.0, f64::max) + d(q).len() + 10.0;
        let tol = 4e-7 * reach;
        let joints: Vec<(Vals, Vals, V, V)> = sim.joints.iter().map(|j| { let p = j.p.borrow(); (strip(joint_vals(&*p), &["target", "ground anchor a", "ground anchor b"]), coords(&*p), d(p.get_anchor_a()), d(p.get_anchor_b())) }).collect();
        let marks: Vec<Vec<V>> = sim.joints.iter().map(|j| match j.p.borrow().as_derived() { JointAsDerived::EMouseJoint(m) => vec![d(m.get_target())], JointAsDerived::EPulleyJoint(m) => vec![d(m.get_ground_anchor_a()), d(m.get_ground_anchor_b())], _ => vec![] }).collect();
        let cs = contact_state(&sim);
        let dist: Vec<(V, V, Vec<u32>, Vec<u32>)> = (0..6).map(|_| {
            let (a, b) = (d(ctx.rng.vec(o.spread * 1.5)), d(ctx.rng.vec(3.0)));
            let (lo, hi) = (v(a.x, a.y), v(a.x + b.x.abs(), a.y + b.y.abs()));
            let e = v(2.0 * tol, 2.0 * tol);
            (lo, hi, found(&sim, lo + e, hi - e), found(&sim, lo - e, hi + e))
        }).collect();
        let rays: Vec<(V, V, Vec<(u32, f64)>)> = (0..4).map(|_| { let (a, b) = (d(ctx.rng.vec(o.spread * 1.5)), d(ctx.rng.vec(o.spread * 1.5))); (a, b, cast(&sim, a, b)) }).collect();
        let shape = { let w = sim.w.borrow(); (w.get_proxy_count(), w.get_tree_height(), w.get_tree_balance()) };
        let ratio = sim.w.borrow().get_tree_quality() as f64;
        sim.w.borrow().shift_origin(q);
        let q = d(q);
        for (b, old) in sim.bodies.iter().zip(bodies.iter()) {
            let p = b.p.borrow();
            near(ctx, "position", p.get_position(), old.1 - q, tol);
            near(ctx, "transform", p.get_transform().p, old.1 - q, tol);
            near(ctx, "world centre", p.get_world_center(), old.2 - q, tol);
            let mut v = body_vals(&p);
            v.extend(mass_vals(&p));
            let m = differ(&strip(v, &["position", "transform", "world centre"]), &old.0, 0.0);
            ctx.check(m.is_none(), || format!("shifting changed a body: {}", m.unwrap()));
            let c = b.p.borrow().get_world_point(b.p.borrow().get_local_center());
            near(ctx, "world point of the local centre", c, old.2 - q, 2.0 * tol + 1e-6 * old.2.len());
        }
        for (i, (j, old)) in sim.joints.iter().zip(joints.iter()).enumerate() {
            let p = j.p.borrow();
            ctx.hit("joint");
            near(ctx, "first anchor", p.get_anchor_a(), old.2 - q, 3.0 * tol);
            near(ctx, "second anchor", p.get_anchor_b(), old.3 - q, 3.0 * tol);
            let m = differ(&strip(joint_vals(&*p), &["target", "ground anchor a", "ground anchor b"]), &old.0, 0.0);
            ctx.check(m.is_none(), || format!("shifting changed a {:?} joint: {}", j.kind, m.unwrap()));
            let w = sim.bodies.iter().map(|b| b.p.borrow().get_angular_velocity().abs()).fold(0.0, f32::max) as f64;
            let m = coords(&*p).iter().zip(old.1.iter()).find(|(a, b)| (a.1 - b.1).abs() > 20.0 * tol * (1.0 + w)).map(|(a, b)| format!("{} is {} was {}", a.0, a.1, b.1));
            ctx.check(m.is_none(), || format!("shifting changed what a {:?} joint measures: {}", j.kind, m.unwrap()));
            match p.as_derived() {
                JointAsDerived::EMouseJoint(m) => { near(ctx, "mouse target", m.get_target(), marks[i][0] - q, tol); ctx.hit("mouse"); }
                JointAsDerived::EPulleyJoint(m) => { near(ctx, "ground anchor", m.get_ground_anchor_a(), marks[i][0] - q, tol); near(ctx, "ground anchor", m.get_ground_anchor_b(), marks[i][1] - q, tol); ctx.hit("pulley"); }
                _ => {}
            }
        }
        let now = contact_state(&sim);
        ctx.check(now == cs, || format!("shifting changed the contacts: {} were, {} are", cs.len(), now.len()));
        if !cs.is_empty() { ctx.hit("contacts"); }
        for (lo, hi, inner, outer) in dist.iter() {
            let got = found(&sim, *lo - q, *hi - q);
            ctx.check(inner.iter().all(|x| got.contains(x)) && got.iter().all(|x| outer.contains(x)), || format!("the shifted query finds {:?}, before {:?}", got, outer));
            if !inner.is_empty() { ctx.hit("query_found"); }
            if outer.len() < sim.bodies.iter().map(|b| b.f.len()).sum() { ctx.hit("query_missed"); }
        }
        for (a, b, old) in rays.iter() {
            let got = cast(&sim, *a - q, *b - q);
            // a graze may come and go
            let e = 100.0 * tol / (*a - *b).len().max(0.01);
            let lost = old.iter().filter(|x| !got.iter().any(|y| y.0 == x.0 && (y.1 - x.1).abs() < e)).count() + got.iter().filter(|x| !old.iter().any(|y| y.0 == x.0 && (y.1 - x.1).abs() < e)).count();
            if lost > 0 {
                let still = (0..8).any(|k| {
                    let s = v(tol * 8.0 * [1.0, -1.0][k % 2], tol * 8.0 * [1.0, -1.0][k / 2 % 2]) * [1.0, 8.0][k / 4];
                    let x = cast(&sim, *a - q + s, *b - q - s * 0.5);
                    x.len() != got.len() || x.iter().zip(got.iter()).any(|(m, n)| m.0 != n.0 || (m.1 - n.1).abs() > 0.5 * e)
                });
                if still { ctx.hit("graze"); continue; }
            }
            ctx.check(lost == 0, || format!("the shifted ray {:?} to {:?} hits {:?}, before {:?}", a, b, got, old));
            if !old.is_empty() { ctx.hit("ray_hit"); }
        }
        {
            let w = sim.w.borrow();
            ctx.check((w.get_proxy_count(), w.get_tree_height(), w.get_tree_balance()) == shape, || "shifting changed the tree's shape".into());
            let r = w.get_tree_quality() as f64;
            ctx.check((r - ratio).abs() <= 1e-3 * (1.0 + ratio) * (1.0 + 0.02 * q.len()), || format!("tree quality was {} is {}", ratio, r));
        }
        ctx.check(sim.take_events().is_empty(), || "shifting caused contact events".into());
        if sim.bodies.iter().any(|b| !b.p.borrow().is_awake()) { ctx.hit("sleeping"); }
        if sim.bodies.iter().any(|b| !b.p.borrow().is_enabled()) { ctx.hit("disabled"); }
        ctx.hit("shift");
        if ctx.failed() { return; }
        for _ in 0..ctx.rng.int(0, 6) { rand_op(&mut sim, &mut ctx.rng, &o); }
    }
    let h = sim.state_hash();
    ctx.distinct(h);
}
/// the touching pairs
fn keys(sim: &Sim) -> Vec<u64> {
    let mut k: Vec<u64> = sim.contacts().iter().filter(|c| c.borrow().get_base().is_touching()).map(|c| { let k = norm_key(contact_key(c.borrow().get_base())); hash_words(&[k.0 as u64, k.1 as u64, k.2 as u64, k.3 as u64]) }).collect();
    k.sort();
    k
}
/// contacts in the order they are solved
fn order(sim: &Sim) -> Vec<u64> {
    sim.contacts().iter().filter(|c| c.borrow().get_base().is_touching()).map(|c| { let k = contact_key(c.borrow().get_base()); hash_words(&[k.0 as u64, k.1 as u64, k.2 as u64, k.3 as u64]) }).collect()
}
/// step and record, everything taken back to the frame the scene was built in
fn follow(sim: &mut Sim, steps: i32, m: &Move) -> Option<Ans> {
    let mut a = Ans::default();
    for k in 0..steps {
        sim.step();
        if sim.wild() || sim.all_finite().is_err() { return None; }
        let t = keys(sim);
        if k == 0 { a.first = t.clone(); }
        a.class.push(0);
        a.class.extend(t);
        a.class.extend(sim.bodies.iter().map(|b| b.p.borrow().is_awake() as u64));
        a.order.push(0);
        a.order.extend(order(sim));
    }
    for b in sim.bodies.iter() {
        let b = b.p.borrow();
        let (p, u) = (m.back_at(d(b.get_position())), m.back_dir(d(b.get_linear_velocity())));
        a.vals.extend(&[p.x, p.y, m.back_angle(b.get_angle() as f64), 0.03 * u.x, 0.03 * u.y, 0.03 * m.spin(b.get_angular_velocity() as f64)]);
    }
    for j in sim.joints.iter() { a.vals.extend(coords(&*j.p.borrow()).iter().map(|x| if x.0.contains("speed") { 0.03 * x.1 } else { x.1 })); }
    Some(a)
}
fn c40_motion(ctx: &mut Ctx) {
    let seed = ctx.rng.u64();
    let mut o = SceneOpts::default();
    o.bodies = ctx.rng.int(2, 7) as usize;
    o.joints = ctx.rng.int(0, 5) as usize;
    o.joint_kinds = ALL_JK.to_vec();
    o.spread = ctx.rng.f(2.0, 6.0);
    o.sub_stepping = false;
    let warm = ctx.rng.int(0, 30);
    let steps = ctx.rng.int(1, 4);
    let r = *ctx.rng.pick(&[1.0f32, 10.0, 100.0]);
    let q = ctx.rng.vec(r);
    let eps = 1e-7 * (q.length() as f64 + 10.0);
    let mut saw = (false, false);
    {
        let mut sim = rand_scene(&mut Rng::new(seed), &o);
        for _ in 0..warm { sim.step(); }
        if sim.wild() { ctx.hit("wild"); return; }
        saw.0 |= !sim.joints.is_empty();
        saw.1 |= sim.contacts().iter().any(|c| c.borrow().get_base().is_touching());
        ctx.distinct(sim.state_hash());
    }
    let ok = invariant(ctx, &format!("{} steps after shifting the origin by {:?}", steps, q), 2e-5 + 20.0 * eps, eps, &|how: &mut How| {
        let mut sim = rand_scene(&mut Rng::new(seed), &o);
        for _ in 0..warm { sim.step(); }
        for b in sim.bodies.iter() {
            let (p, a) = (b.p.borrow().get_position(), b.p.borrow().get_angle());
            let (x, t) = (b2(d(p) + how.v()), (a as f64 + how.n()) as f32);
            b.p.borrow_mut().set_transform(x, t);
        }
        let m = if how.alt { sim.w.borrow().shift_origin(q); Move { p: d(q) * -1.0, a: 0.0, flip: false } } else { STAY };
        follow(&mut sim, steps, &m)
    });
    if ok { ctx.hit("motion"); if saw.0 { ctx.hit("motion_jointed"); } if saw.1 { ctx.hit("motion_touching"); } }
}
/// joints that refer to fixed places: the rope of a pulley and the target of a mouse joint stay where they were in the room
fn c40_anchors(ctx: &mut Ctx) {
    let seed = ctx.rng.u64();
    let kind = *ctx.rng.pick(&[JK::Mouse, JK::Pulley, JK::Mouse, JK::Pulley, JK::Revolute, JK::Prismatic, JK::Wheel, JK::Weld, JK::Distance, JK::Motor, JK::Friction]);
    let warm = ctx.rng.int(0, 40);
    let steps = ctx.rng.int(1, 30);
    let q = ctx.rng.vec(20.0);
    let eps = 1e-7 * (q.length() as f64 + 10.0);
    ctx.hit(match kind { JK::Mouse => "anchored_mouse", JK::Pulley => "anchored_pulley", _ => "anchored_other" });
    let ok = invariant(ctx, &format!("{:?} joint {} steps after shifting the origin by {:?}", kind, steps, q), 2e-5 * (steps as f64 + 1.0) + 50.0 * eps, eps, &|how: &mut How| {
        let mut r = Rng::new(seed);
        let mut sim = Sim::new(b2v(0.0, -10.0));
        let fx = Fx::mat(1.0, 0.4, 0.0);
        let stat = r.chance(0.5) && kind != JK::Pulley;
        let a = sim.box_body(if stat { STATIC } else { DYNAMIC }, r.vec(1.0) + b2v(-2.0, 0.0), r.angle(), 0.3, 0.2, &fx);
        let b = sim.box_body(DYNAMIC, r.vec(1.0) + b2v(2.0, 0.0), r.angle(), 0.4, 0.3, &fx);
        make_joint(&mut sim, &mut r, kind, a, b);
        for _ in 0..warm { sim.step(); }
        for b in sim.bodies.iter() {
            let (p, a) = (b.p.borrow().get_position(), b.p.borrow().get_angle());
            let (x, t) = (b2(d(p) + how.v()), (a as f64 + how.n()) as f32);
            b.p.borrow_mut().set_transform(x, t);
        }
        let m = if how.alt { sim.w.borrow().shift_origin(q); Move { p: d(q) * -1.0, a: 0.0, flip: false } } else { STAY };
        follow(&mut sim, steps, &m)
    });
    ctx.distinct(seed);
    if ok { ctx.hit("anchored"); }
}
/// a body on its way to something standing still, fast enough to be stopped within a step
fn c40_impact(ctx: &mut Ctx) {
    let seed = ctx.rng.u64();
    let before = ctx.rng.int(0, 5);
    let steps = 6 + ctx.rng.int(0, 6);
    let r = *ctx.rng.pick(&[1.0f32, 5.0, 30.0]);
    let q = ctx.rng.vec(r);
    let eps = 1e-7 * (q.length() as f64 + 20.0);
    let struck = std::cell::Cell::new(false);
    let ok = invariant(ctx, &format!("an impact within {} steps after shifting the origin by {:?}", steps, q), 2e-4 + 100.0 * eps, eps, &|how: &mut How| {
        let mut r = Rng::new(seed);
        let mut sim = Sim::new(b2v(0.0, 0.0));
        let e = r.f(0.0, 0.8);
        let fx = Fx::mat(1.0, 0.0, if r.chance(0.5) { 0.0 } else { e });
        let (o, a) = (r.vec(3.0), r.angle());
        let t = if r.chance(0.7) { STATIC } else { KINEMATIC };
        let w = sim.box_body(t, o, a, r.f(0.02, 0.3), 5.0, &fx);
        let n = b2v(a.cos(), a.sin());
        let s = r.sign();
        let far = r.f(1.5, 6.0);
        let i = sim.body(DYNAMIC, o + (s * far) * n, r.angle());
        let fx = Fx::mat(1.0, 0.0, 0.0);
        sim.fixture(i, &rc(circle(b2v(0.0, 0.0), r.f(0.1, 0.4))), Kind::Circle, &fx);
        sim.b(i).borrow_mut().set_linear_velocity((-s * r.f(20.0, 110.0)) * n);
        if t == KINEMATIC && r.chance(0.5) { let u = r.vec(2.0); sim.b(w).borrow_mut().set_linear_velocity(u); }
        if r.chance(0.3) { sim.b(i).borrow_mut().set_bullet(true); }
        for b in sim.bodies.iter() {
            let (p, a) = (b.p.borrow().get_position(), b.p.borrow().get_angle());
            let (x, t) = (b2(d(p) + how.v()), (a as f64 + how.n()) as f32);
            b.p.borrow_mut().set_transform(x, t);
        }
        for _ in 0..before { sim.step(); }
        let m = if how.alt { sim.w.borrow().shift_origin(q); Move { p: d(q) * -1.0, a: 0.0, flip: false } } else { STAY };
        let u = sim.b(i).borrow().get_linear_velocity();
        let a = follow(&mut sim, steps, &m);
        struck.set((sim.b(i).borrow().get_linear_velocity() - u).length() > 10.0);
        a
    });
    ctx.distinct(seed);
    if ok && struck.get() { ctx.hit("impact"); }
}

// ------------------------------------------------------------------------------------------------ C41

fn move_xf(m: &Move, t: B2Transform, how: &mut How) -> B2Transform {
    let a = (t.q.s as f64).atan2(t.q.c as f64) + how.n();
    let p = m.at(d(t.p) + how.v());
    let a = m.angle(a);
    B2Transform { p: b2(p), q: B2Rot { s: a.sin() as f32, c: a.cos() as f32 } }
}
fn fl(x: B2vec2) -> B2vec2 {
    b2v(-x.x, x.y)
}
/// the shape as seen in a mirror
fn mirrored(s: &dyn B2shapeDynTrait) -> ShapeDefPtr {
    match s.as_derived() {
        ShapeAsDerived::AsCircle(c) => rc(circle(fl(c.m_p), c.base.m_radius)),
        ShapeAsDerived::AsEdge(e) => {
            let mut m = B2edgeShape::default();
            if e.m_one_sided { m.set_one_sided(fl(e.m_vertex3), fl(e.m_vertex2), fl(e.m_vertex1), fl(e.m_vertex0)); } else { m.set_two_sided(fl(e.m_vertex1), fl(e.m_vertex2)); }
            rc(m)
        }
        ShapeAsDerived::AsPolygon(p) => {
            let mut m = B2polygonShape::default();
            let q: Vec<B2vec2> = p.m_vertices[..p.m_count].iter().rev().map(|x| fl(*x)).collect();
            m.set(&q);
            rc(m)
        }
        ShapeAsDerived::AsChain(c) => {
            let mut m = B2chainShape::default();
            let q: Vec<B2vec2> = c.m_vertices.iter().rev().map(|x| fl(*x)).collect();
            m.create_chain(&q, fl(c.m_next_vertex), fl(c.m_prev_vertex));
            rc(m)
        }
    }
}
fn one_child(rng: &mut Rng, size: f32) -> ShapeDefPtr {
    let k = *rng.pick(&[Kind::Circle, Kind::Poly, Kind::Poly, Kind::Edge, Kind::OneSided]);
    shape(rng, k, size)
}
fn place(rng: &mut Rng, a: &Cx, ta: B2Transform, b: &Cx) -> B2Transform {
    let rot = rng.xf(0.0);
    let (ca, cb) = (a.moved(&Xf::of(ta)), b.moved(&Xf::of(rot)));
    let reach = 0.5 * (ca.extent() + cb.extent());
    let f = match rng.below(3) { 0 => rng.f(0.2, 0.8), 1 => rng.f(0.7, 1.1), _ => rng.f(1.0, 3.0) } as f64;
    let want = ca.center() + d(rng.dir()) * (reach * f);
    let mut t = rot;
    t.p = b2(d(rot.p) + (want - cb.center()));
    t
}
fn c41_shapes(ctx: &mut Ctx) {
    let size = ctx.rng.log(0.3, 3.0);
    let (sa, sb) = (one_child(&mut ctx.rng, size), one_child(&mut ctx.rng, size));
    let (xa, xb) = (children(&*sa.borrow())[0].clone(), children(&*sb.borrow())[0].clone());
    let ta = ctx.rng.xf(4.0);
    let tb = place(&mut ctx.rng, &xa, ta, &xb);
    let mut m = Move::rand(&mut ctx.rng, 20.0);
    m.flip = ctx.rng.chance(0.4);
    let (ma, mb) = if m.flip { (mirrored(&*sa.borrow()), mirrored(&*sb.borrow())) } else { (sa.clone(), sb.clone()) };
    let way = if m.flip { "mirrored" } else { "moved" };
    ctx.hit(way);
    let scale = d(ta.p).len() + d(tb.p).len() + m.p.len() + 4.0 * size as f64 + 1.0;
    let eps = 1.5e-7 * scale;
    let shapes = |alt: bool| if alt { (ma.borrow().clone_rc(), mb.borrow().clone_rc()) } else { (sa.borrow().clone_rc(), sb.borrow().clone_rc()) };
    let pose = |how: &mut How| { let n = if how.alt { m } else { STAY }; let a = move_xf(&n, ta, how); let b = move_xf(&n, tb, how); (n, a, b) };
    // distance
    let radii = ctx.rng.chance(0.5);
    invariant(ctx, &format!("distance of {} shapes", way), 4e-6 * scale, eps, &|how: &mut How| {
        let (n, a, b) = pose(how);
        let s = shapes(how.alt);
        let (mut p, mut q) = (B2distanceProxy::default(), B2distanceProxy::default());
        p.set_shape(s.0, 0);
        q.set_shape(s.1, 0);
        let mut out = B2distanceOutput::default();
        b2_distance_fn(&mut out, &mut B2simplexCache::default(), &B2distanceInput { proxy_a: p, proxy_b: q, transform_a: a, transform_b: b, use_radii: radii });
        let w = n.back_dir(d(out.point_b) - d(out.point_a));
        Some(Ans { vals: vec![out.distance as f64, w.x, w.y], ..Default::default() })
    });
    ctx.hit("distance");
    // overlap
    let s = core_distance(&xa.moved(&Xf::of(ta)), &xb.moved(&Xf::of(tb))).0 - xa.r - xb.r;
    if s.abs() > 1e-5 * scale {
        let n = &mut How { alt: true, eps: 0.0, noise: None };
        let (_, a, b) = pose(n);
        let (x, y) = shapes(true);
        let (u, w) = shapes(false);
        let r = (b2_test_overlap_shapes(x, 0, y, 0, a, b), b2_test_overlap_shapes(u, 0, w, 0, ta, tb));
        ctx.check(r.0 == r.1, || format!("overlap of {} shapes is {}, was {}", way, r.0, r.1));
        ctx.hit(if r.1 { "overlap" } else { "no_overlap" });
    }
    // manifold
    let direct = |a: &dyn B2shapeDynTrait, b: &dyn B2shapeDynTrait| matches!((a.as_derived(), b.as_derived()), (ShapeAsDerived::AsCircle(_), ShapeAsDerived::AsCircle(_)) | (ShapeAsDerived::AsPolygon(_), ShapeAsDerived::AsCircle(_)) | (ShapeAsDerived::AsPolygon(_), ShapeAsDerived::AsPolygon(_)) | (ShapeAsDerived::AsEdge(_), ShapeAsDerived::AsCircle(_)) | (ShapeAsDerived::AsEdge(_), ShapeAsDerived::AsPolygon(_)));
    if direct(&*sa.borrow(), &*sb.borrow()) {
        let ok = invariant(ctx, &format!("manifold of {} shapes", way), 1e-5 * scale, eps, &|how: &mut How| {
            let (n, a, b) = pose(how);
            let s = shapes(how.alt);
            let mf = collide(&*s.0, &a, &*s.1, &b);
            let mut ans = Ans { class: vec![mf.point_count as u64], ..Default::default() };
            if mf.point_count > 0 {
                let w = world_manifold(&mf, a, xa.r, b, xb.r);
                let nn = n.back_dir(d(w.normal));
                ans.vals.extend(&[nn.x, nn.y]);
                let mut p: Vec<(V, f64)> = (0..mf.point_count as usize).map(|i| (n.back_at(d(w.points[i])), w.separations[i] as f64)).collect();
                // a mirror may list the two points the other way round
                p.sort_by(|x, y| (x.0.dot(nn.perp())).partial_cmp(&y.0.dot(nn.perp())).unwrap());
                for q in p { ans.vals.extend(&[q.0.x, q.0.y, q.1]); }
            }
            Some(ans)
        });
        if ok { let c = collide(&*sa.borrow(), &ta, &*sb.borrow(), &tb).point_count; if c > 0 { ctx.hit("manifold_points"); } else { ctx.hit("manifold_empty"); } }
        // swapped roles
        let poly = |s: &dyn B2shapeDynTrait| matches!(s.as_derived(), ShapeAsDerived::AsPolygon(_));
        let circ = |s: &dyn B2shapeDynTrait| matches!(s.as_derived(), ShapeAsDerived::AsCircle(_));
        let both = (poly(&*sa.borrow()) && poly(&*sb.borrow())) || (circ(&*sa.borrow()) && circ(&*sb.borrow()));
        if both {
            let (x, y) = (collide(&*sa.borrow(), &ta, &*sb.borrow(), &tb), collide(&*sb.borrow(), &tb, &*sa.borrow(), &ta));
            let (ca, cb) = (xa.moved(&Xf::of(ta)), xb.moved(&Xf::of(tb)));
            let (fa, fb) = (edge_normals(&ca).iter().map(|n| axis_sep(&ca, &cb, *n)).fold(f64::MIN, f64::max), edge_normals(&cb).iter().map(|n| axis_sep(&cb, &ca, *n)).fold(f64::MIN, f64::max));
            let clear = xa.p.len() == 1 || (fa - fb).abs() > 0.1 * B2_LINEAR_SLOP as f64 + 2e-5 * scale;
            let edge = if xa.p.len() == 1 { s.abs() < 1e-5 * scale } else { (face_sep(&ca, &cb) - xa.r - xb.r).abs() < 1e-5 * scale };
            if clear && !edge && (x.point_count > 0) == (y.point_count > 0) && x.point_count > 0 {
                let (u, w) = (world_manifold(&x, ta, xa.r, tb, xb.r), world_manifold(&y, tb, xb.r, ta, xa.r));
                let least = |m: &B2manifold, w: &B2worldManifold| (0..m.point_count as usize).map(|i| w.separations[i] as f64).fold(f64::MAX, f64::min);
                let apart = (d(ta.p) - d(tb.p)).len() > 1e-3 || xa.p.len() > 1;
                // two parallel faces of one shape may be equally good
                let tied = { let mut s: Vec<f64> = edge_normals(&ca).iter().map(|n| axis_sep(&ca, &cb, *n)).chain(edge_normals(&cb).iter().map(|n| axis_sep(&cb, &ca, *n))).collect(); s.sort_by(|a, b| b.partial_cmp(a).unwrap()); s.len() > 1 && s[0] - s[1] < 0.1 * B2_LINEAR_SLOP as f64 + 2e-5 * scale };
                if apart && !tied && (xa.p.len() > 1 || (xa.moved(&Xf::of(ta)).p[0] - xb.moved(&Xf::of(tb)).p[0]).len() > 1e-3 * scale) {
                    ctx.check((d(u.normal) + d(w.normal)).len() < 1e-3, || format!("normals {:?} and, swapped, {:?}", u.normal, w.normal));
                    let (p, q) = (least(&x, &u), least(&y, &w));
                    ctx.check((p - q).abs() < 2e-5 * scale, || format!("least separation {} and, swapped, {}", p, q));
                    ctx.hit("swapped");
                }
            } else if clear && !edge && xa.p.len() == 1 {
                ctx.check(x.point_count == y.point_count, || format!("{} points and, swapped, {}", x.point_count, y.point_count));
            }
        }
    }
    // ray
    let (p1, p2) = (xa.moved(&Xf::of(ta)).center() + d(ctx.rng.vec(3.0 * size)), xa.moved(&Xf::of(ta)).center() + d(ctx.rng.vec(3.0 * size)));
    if (p1 - p2).len() > 0.1 {
        let eps = eps * 2.0;
        invariant(ctx, &format!("ray against a {} shape", way), 2e-5 * scale, eps, &|how: &mut How| {
            let n = if how.alt { m } else { STAY };
            let a = move_xf(&n, ta, how);
            let s = shapes(how.alt).0;
            let mut out = B2rayCastOutput::default();
            let hit = s.ray_cast(&mut out, &B2rayCastInput { p1: b2(n.at(p1 + how.v())), p2: b2(n.at(p2 + how.v())), max_fraction: 1.0 }, a, 0);
            let w = n.back_dir(d(out.normal));
            Some(Ans { class: vec![hit as u64], vals: if hit { vec![out.fraction as f64, w.x, w.y] } else { vec![] }, ..Default::default() })
        });
        ctx.hit("ray");
        invariant(ctx, &format!("point in a {} shape", way), 0.0, eps, &|how: &mut How| {
            let n = if how.alt { m } else { STAY };
            let a = move_xf(&n, ta, how);
            let s = shapes(how.alt).0;
            Some(Ans { class: vec![s.test_point(a, b2(n.at(p1 + how.v()))) as u64], ..Default::default() })
        });
    }
    // mass
    if m.flip {
        let (mut x, mut y) = (B2massData::default(), B2massData::default());
        sa.borrow().compute_mass(&mut x, 1.3);
        ma.borrow().compute_mass(&mut y, 1.3);
        let t = 2e-5 * (1.0 + size as f64).powi(4);
        ctx.check((x.mass - y.mass).abs() as f64 <= t && (x.i - y.i).abs() as f64 <= t && (d(fl(x.center)) - d(y.center)).len() <= t, || format!("mass data {:?} {} {} and of the mirror image {:?} {} {}", x.center, x.mass, x.i, y.center, y.mass, y.i));
    }
    ctx.distinct(hash_f(&[ta.p.x, tb.p.x, tb.p.y, m.a as f32, size]));
}
fn c41_sweeps(ctx: &mut Ctx) {
    let size = ctx.rng.log(0.3, 3.0);
    let (pa, pb) = (proxy(&mut ctx.rng, size), proxy(&mut ctx.rng, size));
    let m = Move::rand(&mut ctx.rng, 20.0);
    let reach = (pa.cx.extent() + pb.cx.extent()).max(0.1);
    let base = d(ctx.rng.vec(5.0));
    let u = d(ctx.rng.dir());
    let start = base - u * (reach * ctx.rng.f(0.5, 3.0) as f64);
    let target = base + u * (reach * ctx.rng.f(-0.5, 3.0) as f64) + d(ctx.rng.vec(reach as f32 * 0.5));
    let spin = *ctx.rng.pick(&[0.0f32, 0.05, 0.5]);
    let (a0, b0) = (ctx.rng.angle(), ctx.rng.angle());
    let (a1, b1) = (a0 + ctx.rng.f(-spin, spin), b0 + ctx.rng.f(-spin, spin));
    let (la, lb) = (b2(pa.cx.center()), b2(pb.cx.center()));
    let to = base + d(ctx.rng.vec(0.2 * reach as f32));
    let scale = base.len() + m.p.len() + target.len() + 2.0 * reach + 1.0;
    let eps = 1.5e-7 * scale;
    let travel = (target - start).len() + (to - base).len();
    let ask = |how: &mut How, swap: bool| {
        let n = if how.alt { m } else { STAY };
        let sa = B2Sweep { local_center: la, c0: b2(n.at(base + how.v())), c: b2(n.at(to + how.v())), a0: n.angle(a0 as f64 + how.n()) as f32, a: n.angle(a1 as f64 + how.n()) as f32, alpha0: 0.0 };
        let sb = B2Sweep { local_center: lb, c0: b2(n.at(start + how.v())), c: b2(n.at(target + how.v())), a0: n.angle(b0 as f64 + how.n()) as f32, a: n.angle(b1 as f64 + how.n()) as f32, alpha0: 0.0 };
        let mut out = B2toioutput::default();
        let inp = if swap { B2toiinput { proxy_a: pb.p.clone(), proxy_b: pa.p.clone(), sweep_a: sb, sweep_b: sa, t_max: 1.0 } } else { B2toiinput { proxy_a: pa.p.clone(), proxy_b: pb.p.clone(), sweep_a: sa, sweep_b: sb, t_max: 1.0 } };
        b2_time_of_impact(&mut out, &inp);
        out
    };
    // times within which the target separation is met to within its tolerance
    let slack = 0.5 * B2_LINEAR_SLOP as f64 / (0.05 * travel).max(1e-3);
    let st = |s: &B2toioutputState| match s { B2toioutputState::ETouching => 1, B2toioutputState::ESeparated => 2, B2toioutputState::EOverlapped => 3, B2toioutputState::EFailed => 4, _ => 5 };
    let ok = invariant(ctx, "time of impact of moved shapes", 1e-4 + 1e-5 * scale, eps, &|how: &mut How| {
        let out = ask(how, false);
        Some(Ans { class: vec![st(&out.state)], vals: vec![out.t as f64], ..Default::default() })
    });
    let o = ask(&mut How { alt: false, eps: 0.0, noise: None }, false);
    if ok { ctx.hit(match st(&o.state) { 1 => "toi_touching", 2 => "toi_separated", _ => "toi_other" }); }
    // swapped: a different feature may carry the search, so only where nothing turns
    if spin == 0.0 {
        let p = ask(&mut How { alt: false, eps: 0.0, noise: None }, true);
        if st(&o.state) <= 2 && st(&p.state) <= 2 {
            if st(&o.state) == st(&p.state) {
                ctx.check(((o.t - p.t) as f64).abs() <= slack.min(0.5) + 1e-4, || format!("time of impact {} and, swapped, {} (slack {})", o.t, p.t, slack));
                ctx.hit("toi_swapped");
            }
        }
    }
    // shape cast
    let ta = xf(b2(base), a0);
    let tb = xf(b2(start), b0);
    let tr = target - start;
    let d0 = core_distance(&pa.cx.moved(&Xf::of(ta)), &pb.cx.moved(&Xf::of(tb))).0 - pa.cx.r.max(0.01) - pb.cx.r.max(0.01);
    if d0 > 0.02 {
        let ok = invariant(ctx, "shape cast of moved shapes", 0.004 / travel.max(0.1) + 1e-4 + 1e-5 * scale, eps, &|how: &mut How| {
            let n = if how.alt { m } else { STAY };
            let a = move_xf(&n, ta, how);
            let b = move_xf(&n, tb, how);
            let mut out = B2shapeCastOutput::default();
            let hit = b2_shape_cast(&mut out, B2shapeCastInput { proxy_a: pa.p.clone(), proxy_b: pb.p.clone(), transform_a: a, transform_b: b, translation_b: b2(n.dir(tr + how.v())) });
            Some(Ans { class: vec![hit as u64], vals: if hit { vec![out.lambda as f64] } else { vec![] }, ..Default::default() })
        });
        if ok { ctx.hit("shape_cast"); }
    }
    ctx.distinct(hash_f(&[a0, b0, target.x as f32, m.a as f32]));
}
fn c41_scene(ctx: &mut Ctx) {
    let seed = ctx.rng.u64();
    let mut o = SceneOpts::default();
    o.bodies = ctx.rng.int(1, 6) as usize;
    let joints = ctx.rng.int(0, 5);
    o.joints = 0;
    o.spread = ctx.rng.f(1.5, 5.0);
    o.sub_stepping = false;
    let warm = ctx.rng.int(0, 30);
    let steps = ctx.rng.int(1, 3);
    let m = Move::rand(&mut ctx.rng, 20.0);
    let kinds = [JK::Distance, JK::Friction, JK::Mouse, JK::Motor, JK::Revolute, JK::Prismatic, JK::Weld, JK::Wheel, JK::Gear, JK::Revolute];
    let eps = 1.5e-7 * (m.p.len() + 15.0);
    let build = |how: &mut How| {
        let mut r = Rng::new(seed);
        let mut sim = rand_scene(&mut r, &o);
        for _ in 0..warm { sim.step(); }
        for b in sim.bodies.iter() { b.p.borrow_mut().set_awake(true); }
        for _ in 0..joints { rand_joint(&mut sim, &mut r, &kinds); }
        let n = if how.alt { m } else { STAY };
        let g = n.dir(d(sim.w.borrow().get_gravity()));
        sim.w.borrow_mut().set_gravity(b2(g));
        for b in sim.bodies.iter() {
            let (p, a, u) = { let b = b.p.borrow(); (b.get_position(), b.get_angle(), b.get_linear_velocity()) };
            let (x, t) = (b2(n.at(d(p) + how.v())), n.angle(a as f64 + how.n()) as f32);
            b.p.borrow_mut().set_transform(x, t);
            b.p.borrow_mut().set_linear_velocity(b2(n.dir(d(u))));
        }
        for j in sim.joints.iter() { if let JointAsDerivedMut::EMouseJoint(q) = j.p.borrow_mut().as_derived_mut() { let t = n.at(d(q.get_target())); q.set_target(b2(t)); } }
        (sim, n)
    };
    let (sim, _) = build(&mut How { alt: false, eps: 0.0, noise: None });
    if sim.wild() { ctx.hit("wild"); return; }
    let saw = (!sim.joints.is_empty(), sim.contacts().iter().any(|c| c.borrow().get_base().is_touching()));
    ctx.distinct(sim.state_hash());
    let ok = invariant(ctx, &format!("{} steps of a scene turned by {} and moved by {:?}", steps, m.a, m.p), 4e-5 + 20.0 * eps, eps, &|how: &mut How| {
        let (mut sim, n) = build(how);
        follow(&mut sim, steps, &n)
    });
    if ok { ctx.hit("scene"); if saw.0 { ctx.hit("scene_jointed"); } if saw.1 { ctx.hit("scene_touching"); } }
}
/// one body against one obstacle, as seen in a mirror
fn c41_mirror(ctx: &mut Ctx) {
    let size = ctx.rng.log(0.3, 1.5);
    let (k, kb) = (*ctx.rng.pick(&[Kind::Circle, Kind::Poly, Kind::Poly]), *ctx.rng.pick(&[Kind::Circle, Kind::Poly, Kind::Edge, Kind::OneSided, Kind::Chain]));
    let (s, t) = (shape(&mut ctx.rng, k, size), shape(&mut ctx.rng, kb, 2.0 * size));
    let (sm, tm) = (mirrored(&*s.borrow()), mirrored(&*t.borrow()));
    let other = if ctx.rng.chance(0.5) { STATIC } else { DYNAMIC };
    let other = if matches!(kb, Kind::Circle | Kind::Poly) { other } else { STATIC };
    let (a0, b0) = (ctx.rng.angle(), ctx.rng.angle());
    let dist = size * ctx.rng.f(0.3, 3.0);
    let at = d(dist * ctx.rng.dir());
    let (u, w) = (d(ctx.rng.vec(8.0)), ctx.rng.f(-4.0, 4.0) as f64);
    let fx = Fx::mat(ctx.rng.f(0.5, 2.0), 0.0, if ctx.rng.chance(0.3) { ctx.rng.f(0.0, 1.0) } else { 0.0 });
    let steps = ctx.rng.int(1, 8);
    let bullet = ctx.rng.chance(0.3);
    let g = d(ctx.rng.vec(10.0));
    let eps = 2e-6;
    let ok = invariant(ctx, &format!("{} steps of a {:?} against a {:?} in a mirror", steps, k, kb), 2e-5 * steps as f64, eps, &|how: &mut How| {
        let n = Move { flip: how.alt, ..STAY };
        let mut sim = Sim::new(b2(n.dir(g)));
        sim.vi = 60;
        sim.pi = 30;
        sim.w.borrow_mut().set_continuous_physics(k == Kind::Circle);
        let a = sim.body(other, b2(n.at(v(0.0, 0.0) + how.v())), n.angle(a0 as f64 + how.n()) as f32);
        sim.fixture(a, if how.alt { &tm } else { &t }, kb, &fx);
        let mut def = Sim::def(DYNAMIC, b2(n.at(at + how.v())), n.angle(b0 as f64 + how.n()) as f32);
        def.linear_velocity = b2(n.dir(u));
        def.angular_velocity = n.spin(w) as f32;
        def.bullet = bullet;
        let b = sim.add(def);
        sim.fixture(b, if how.alt { &sm } else { &s }, k, &fx);
        let mut r = Ans::default();
        for _ in 0..steps {
            r = follow(&mut sim, 1, &n)?;
            let c: Vec<i32> = sim.contacts().iter().filter(|c| c.borrow().get_base().is_touching()).map(|c| c.borrow().get_base().get_manifold().point_count as i32).collect();
            if c.len() > 1 { return None; }
            // two points are corrected one after the other, and the mirror image may list them the other way round
            if c.contains(&2) { r.vals = r.vals.chunks(6).flat_map(|b| b[3..].to_vec()).collect(); r.class.push(7); break; }
        }
        r.order.clear();
        // chain children are numbered from the other end
        if kb == Kind::Chain { r.first.clear(); r.class.clear(); }
        Some(r)
    });
    if ok { ctx.hit("mirror"); }
    ctx.distinct(hash_f(&[a0, b0, at.x as f32, u.x as f32]));
}

// ------------------------------------------------------------------------------------------------ C47

fn pose_bits(b: &BodyPtr<UD>) -> Vec<u64> {
    let b = b.borrow();
    let mut v = body_vals(&b);
    v.extend(mass_vals(&b));
    v.iter().filter(|x| x.0 != "awake").map(|x| x.1.to_bits()).collect()
}
fn c47_zero(ctx: &mut Ctx) {
    let mut o = SceneOpts::default();
    o.bodies = ctx.rng.int(2, 8) as usize;
    o.joints = ctx.rng.int(0, 5) as usize;
    o.joint_kinds = ALL_JK.to_vec();
    o.spread = ctx.rng.f(1.5, 5.0);
    o.sub_stepping = false;
    let mut sim = rand_scene(&mut ctx.rng, &o);
    for _ in 0..ctx.rng.int(2, 12) {
        for _ in 0..ctx.rng.int(0, 4) { rand_op(&mut sim, &mut ctx.rng, &o); }
        if sim.wild() { ctx.hit("wild"); return; }
        sim.take_events();
        let before: Vec<(Vec<u64>, bool)> = sim.bodies.iter().map(|b| (pose_bits(&b.p), b.p.borrow().is_awake())).collect();
        let were: Vec<(Vals, Vals)> = sim.joints.iter().map(|j| { let p = j.p.borrow(); (joint_vals(&*p), coords(&*p)) }).collect();
        sim.step_dt(0.0);
        ctx.hit("zero_step");
        let evs = sim.take_events();
        for (b, old) in sim.bodies.iter().zip(before.iter()) {
            ctx.check(pose_bits(&b.p) == old.0, || format!("a zero-length step changed body {}: {:?}", b.id, body_vals(&b.p.borrow())));
            let awake = b.p.borrow().is_awake();
            ctx.check(awake || !old.1, || format!("a zero-length step put body {} to sleep", b.id));
            if awake && !old.1 {
                // only a change of touching wakes
                let why = evs.iter().any(|e| match e { Ev::Begin(k, _) | Ev::End(k, _) => b.f.iter().any(|f| f.id == k.0 || f.id == k.2), _ => false });
                ctx.check(why, || format!("a zero-length step woke body {} though no contact of it began or ended", b.id));
                ctx.hit("woken");
            }
        }
        for (j, old) in sim.joints.iter().zip(were.iter()) {
            let p = j.p.borrow();
            let m = differ(&joint_vals(&*p), &old.0, 0.0).or(differ(&coords(&*p), &old.1, 0.0));
            ctx.check(m.is_none(), || format!("a zero-length step changed a {:?} joint: {}", j.kind, m.unwrap()));
        }
        ctx.check(!evs.iter().any(|e| matches!(e, Ev::Post(..))), || "a zero-length step reported solving a contact".into());
        if evs.iter().any(|e| matches!(e, Ev::Begin(..))) { ctx.hit("zero_begin"); }
        if evs.iter().any(|e| matches!(e, Ev::End(..))) { ctx.hit("zero_end"); }
        // once more: nothing is left to update, unless a body woken by the first looks at its contacts only now
        if sim.bodies.iter().zip(before.iter()).any(|(b, old)| b.p.borrow().is_awake() != old.1) { continue; }
        let cs = contact_state(&sim);
        sim.step_dt(0.0);
        let evs = sim.take_events();
        ctx.check(!evs.iter().any(|e| matches!(e, Ev::Begin(..) | Ev::End(..))), || "a second zero-length step reported changes of touching".into());
        let key = |s: &Vec<(Key, bool, bool, Vec<u32>)>| { let mut k: Vec<(Key, bool)> = s.iter().map(|c| (norm_key(c.0), c.1)).collect(); k.sort(); k };
        let now = contact_state(&sim);
        ctx.check(key(&cs) == key(&now), || "a second zero-length step changed the contacts".into());
        if ctx.failed() { return; }
    }
    let h = sim.state_hash();
    ctx.distinct(h);
}
/// a zero-length step in between does not change where things go
fn c47_insert(ctx: &mut Ctx) {
    let seed = ctx.rng.u64();
    let mut o = SceneOpts::default();
    o.bodies = ctx.rng.int(2, 7) as usize;
    o.joints = ctx.rng.int(0, 5) as usize;
    o.joint_kinds = ALL_JK.to_vec();
    o.spread = ctx.rng.f(1.5, 5.0);
    o.sub_stepping = false;
    let warm = ctx.rng.int(0, 25);
    let steps = ctx.rng.int(1, 4);
    let extra = ctx.rng.int(1, 3);
    let eps = 1e-6;
    let ok = invariant(ctx, &format!("{} steps after {} zero-length steps", steps, extra), 2e-5, eps, &|how: &mut How| {
        let mut sim = rand_scene(&mut Rng::new(seed), &o);
        for _ in 0..warm { sim.step(); }
        for b in sim.bodies.iter() {
            let (p, a) = (b.p.borrow().get_position(), b.p.borrow().get_angle());
            let (x, t) = (b2(d(p) + how.v()), (a as f64 + how.n()) as f32);
            b.p.borrow_mut().set_transform(x, t);
        }
        // a sleeping body that is woken while contacts are updated looks at its other contacts only the next time
        for b in sim.bodies.iter() { b.p.borrow_mut().set_awake(true); }
        if how.alt { for _ in 0..extra { sim.step_dt(0.0); } }
        if sim.wild() { return None; }
        follow(&mut sim, steps, &STAY)
    });
    ctx.distinct(seed);
    if ok { ctx.hit("inserted"); }
}
fn speeds(sim: &Sim) -> Vec<f64> {
    sim.bodies.iter().flat_map(|b| { let b = b.p.borrow(); let u = d(b.get_linear_velocity()); vec![u.x, u.y, b.get_angular_velocity() as f64] }).collect()
}
/// warm starting and the number of iterations decide how fast the solver gets there, not where
fn c47_converge(ctx: &mut Ctx) {
    let seed = ctx.rng.u64();
    let mut o = SceneOpts::default();
    o.bodies = ctx.rng.int(2, 5) as usize;
    o.joints = 0;
    o.restitution = false;
    o.kinematic = false;
    o.spread = ctx.rng.f(1.0, 3.0);
    o.sub_stepping = false;
    let joints = ctx.rng.int(0, 4);
    let warm = ctx.rng.int(1, 20);
    let dt = *ctx.rng.pick(&[1.0f32 / 60.0, 1.0 / 60.0, 1.0 / 120.0, 1.0 / 30.0]);
    let mut saw = (false, false);
    let mut names: Vec<JK> = vec![];
    let mut run = |vi: i32, warm_starting: bool| -> Option<(Vec<f64>, Vec<f64>)> {
        let mut r = Rng::new(seed);
        let mut sim = rand_scene(&mut r, &o);
        // with friction the solution need not be unique
        for b in sim.bodies.iter() { for f in b.f.iter() { f.p.borrow_mut().set_friction(0.0); } b.p.borrow_mut().set_awake(true); b.p.borrow_mut().set_fixed_rotation(false); }
        // nor where a two-dimensional force is capped; a mouse joint damps the spin it finds
        for _ in 0..joints { rand_joint(&mut sim, &mut r, &[JK::Distance, JK::Revolute, JK::Prismatic, JK::Weld, JK::Wheel, JK::Pulley]); }
        names = sim.joints.iter().map(|j| j.kind).collect();
        sim.w.borrow_mut().set_continuous_physics(false);
        sim.vi = 40;
        for _ in 0..warm { sim.step(); }
        if sim.wild() || sim.bodies.iter().any(|b| b.jump > 1.0) { return None; }
        saw.0 |= !sim.joints.is_empty();
        saw.1 |= sim.contacts().iter().any(|c| c.borrow().get_base().is_touching());
        sim.w.borrow_mut().set_warm_starting(warm_starting);
        sim.vi = vi;
        sim.step_dt(dt);
        let mut f: Vec<f64> = sim.joints.iter().flat_map(|j| { let q = j.p.borrow(); let f = d(q.get_reaction_force(1.0 / dt)); vec![f.x, f.y, q.get_reaction_torque(1.0 / dt) as f64] }).collect();
        for c in sim.contacts() { let c = c.borrow(); let m = c.get_base().get_manifold(); for p in m.points[..m.point_count as usize].iter() { f.push((p.normal_impulse / dt) as f64); } }
        Some((speeds(&sim), f))
    };
    let (a, b, w, c) = match (run(1000, false), run(2500, false), run(1000, true), run(2500, true)) { (Some(a), Some(b), Some(w), Some(c)) => (a, b, w, c), _ => { ctx.hit("wild"); return } };
    let gap = |x: &Vec<f64>, y: &Vec<f64>| x.iter().zip(y.iter()).map(|(p, q)| (p - q).abs()).fold(0.0, f64::max);
    let s = 1.0 + b.0.iter().map(|x| x.abs()).fold(0.0, f64::max);
    // forces that still grow work against each other
    let slow = gap(&a.0, &b.0).max(gap(&w.0, &c.0)).max(1e-2 * gap(&a.1, &b.1)).max(1e-2 * gap(&w.1, &c.1));
    let (b, c) = (b.0, c.0);
    if slow > 1e-5 * s { ctx.hit("slow"); return; }
    let e = gap(&b, &c);
    ctx.max("warm_difference_e6", e / s);
    ctx.check(e <= 5e-3 * s + 50.0 * slow, || format!("velocities after a converged step differ by {} with and without warm starting, joints {:?}: {:?} against {:?}", e, names, c, b));
    ctx.hit("converged");
    if saw.0 { ctx.hit("converged_jointed"); }
    if saw.1 { ctx.hit("converged_touching"); }
    ctx.distinct(seed);
}
/// sub-stepping: one impact per call, the same motion in the end
fn c47_sub(ctx: &mut Ctx) {
    let seed = ctx.rng.u64();
    let k = ctx.rng.int(1, 5);
    let frames = ctx.rng.int(1, 4) as usize;
    let build = |sub: bool| {
        let mut r = Rng::new(seed);
        let mut sim = Sim::new(b2v(0.0, 0.0));
        sim.w.borrow_mut().set_allow_sleeping(false);
        let e = if r.chance(0.5) { 0.0 } else { r.f(0.0, 0.9) };
        let fx = Fx::mat(1.0, r.f(0.0, 0.8), e);
        for i in 0..k {
            let at = b2v(0.0, 20.0 * i as f32);
            let a = r.f(-0.4, 0.4);
            if r.chance(0.5) { sim.box_body(STATIC, at, a, 0.05, 2.0, &fx); } else { let b = sim.body(STATIC, at, a); sim.fixture(b, &rc(edge2(b2v(0.0, -2.0), b2v(0.0, 2.0))), Kind::Edge, &fx); }
            let speed = r.f(40.0, 110.0);
            let mut def = Sim::def(DYNAMIC, at + b2v(-r.f(0.6, 2.5), r.f(-0.5, 0.5)), r.angle());
            def.linear_velocity = b2v(speed, 0.0);
            def.angular_velocity = r.f(-3.0, 3.0);
            def.bullet = r.chance(0.3);
            let b = sim.add(def);
            let s = r.f(0.2, 0.4);
            if r.chance(0.5) { sim.fixture(b, &rc(circle(b2v(0.0, 0.0), s)), Kind::Circle, &fx); } else { sim.fixture(b, &rc(bx(s, s)), Kind::Poly, &fx); }
        }
        // tells by moving that a step begins
        let mut def = Sim::def(DYNAMIC, b2v(-500.0, -500.0), 0.0);
        def.linear_velocity = b2v(1.0, 0.0);
        let mk = sim.add(def);
        sim.fixture(mk, &rc(circle(b2v(0.0, 0.0), 0.5)), Kind::Circle, &fx);
        sim.w.borrow_mut().set_sub_stepping(sub);
        (sim, mk)
    };
    let snap = |s: &Sim| -> Vec<[f64; 6]> { s.bodies.iter().map(|b| { let b = b.p.borrow(); let (p, u) = (b.get_position(), b.get_linear_velocity()); [p.x as f64, p.y as f64, b.get_angle() as f64, u.x as f64, u.y as f64, b.get_angular_velocity() as f64] }).collect() };
    let (mut plain, _) = build(false);
    let mut want = vec![];
    for _ in 0..frames { plain.step(); want.push(snap(&plain)); }
    let (mut sub, mk) = build(true);
    let mut done = vec![];
    let mut calls = 0;
    let mut last = snap(&sub);
    let mut begun = 0;
    while done.len() < frames {
        sub.step();
        calls += 1;
        if !ctx.check(calls < 200, || format!("sub-stepping does not get through {} steps in 200 calls", frames)) { return; }
        let now = snap(&sub);
        if now[mk][0] != last[mk][0] {
            // a new step was begun, so the previous one was complete
            if begun > 0 { done.push(last.clone()); }
            begun += 1;
        } else {
            let moved = (0..now.len()).filter(|i| now[*i] != last[*i]).count();
            ctx.check(moved <= 1, || format!("a call that continued a step moved {} bodies, each of which hits its own wall", moved));
            ctx.hit("continued");
            if moved == 1 { ctx.hit("impact_call"); }
        }
        last = now;
    }
    for (n, (a, b)) in want.iter().zip(done.iter()).enumerate() {
        for (x, y) in a.iter().zip(b.iter()) {
            let e = (0..6).map(|i| (x[i] - y[i]).abs() / if i < 3 { 1.0 } else { 30.0 }).fold(0.0, f64::max);
            ctx.max("sub_difference_e6", e);
            ctx.check(e <= 2e-3, || format!("after step {} a body is at {:?}, with sub-stepping {:?} ({} calls)", n + 1, x, y, calls));
        }
    }
    ctx.hit("sub_stepped");
    ctx.distinct(seed);
}
fn c47_teleport(ctx: &mut Ctx) {
    let mut o = SceneOpts::default();
    o.bodies = ctx.rng.int(2, 8) as usize;
    o.joints = 0;
    o.spread = ctx.rng.f(2.0, 6.0);
    let mut sim = rand_scene(&mut ctx.rng, &o);
    for _ in 0..ctx.rng.int(0, 20) { rand_op(&mut sim, &mut ctx.rng, &o); }
    if sim.wild() || !sim.joints.is_empty() { ctx.hit("wild"); return; }
    for _ in 0..ctx.rng.int(1, 6) {
        let i = ctx.rng.below(sim.bodies.len());
        let p = sim.b(i);
        let keep = |p: &BodyPtr<UD>| { let b = p.borrow(); strip(body_vals(&b), &["position", "angle", "transform", "sine", "cosine"]) };
        let (old, mass) = (keep(&p), strip(mass_vals(&p.borrow()), &["world centre"]));
        let others: Vec<Vec<u64>> = sim.bodies.iter().map(|b| pose_bits(&b.p)).collect();
        let far = ctx.rng.chance(0.3);
        let (x, a) = (ctx.rng.vec(if far { 200.0 } else { o.spread }), if ctx.rng.chance(0.2) { 10.0 * ctx.rng.angle() } else { ctx.rng.angle() });
        p.borrow_mut().set_transform(x, a);
        {
            let b = p.borrow();
            ctx.check(b.get_position() == x && b.get_angle() == a, || format!("placed at {:?} {}, is at {:?} {}", x, a, b.get_position(), b.get_angle()));
            let t = b.get_transform();
            let want = Xf::new(d(x), a as f64);
            ctx.check((t.q.s as f64 - want.s).abs() < 2e-6 * (1.0 + a.abs() as f64) && (t.q.c as f64 - want.c).abs() < 2e-6 * (1.0 + a.abs() as f64) && t.p == x, || format!("transform {:?} after placing at {:?} {}", t, x, a));
            let c = want.mul(d(b.get_local_center()));
            ctx.check((d(b.get_world_center()) - c).len() < 4e-6 * (1.0 + d(x).len() + d(b.get_local_center()).len()), || format!("world centre {:?}, expected {:?}", b.get_world_center(), c));
        }
        let m = differ(&keep(&p), &old, 0.0).or(differ(&strip(mass_vals(&p.borrow()), &["world centre"]), &mass, 0.0));
        ctx.check(m.is_none(), || format!("placing a body changed it: {}", m.unwrap()));
        for (k, b) in sim.bodies.iter().enumerate() { if k != i { ctx.check(pose_bits(&b.p) == others[k], || "placing a body changed another".into()); } }
        // the spatial index knows at once
        if p.borrow().is_enabled() {
            for f in sim.bodies[i].f.iter() {
                let n = f.p.borrow().get_shape().get_child_count();
                for c in children(&*f.p.borrow().get_shape()).iter().take(n) {
                    let c = c.moved(&Xf::of(p.borrow().get_transform()));
                    let q = c.center();
                    let e = v(1e-3, 1e-3);
                    ctx.check(found(&sim, q - e, q + e).contains(&f.id), || format!("fixture {} is not found where its body was placed", f.id));
                }
            }
            let gone = found(&sim, v(-2.0, -2.0) * o.spread as f64, v(2.0, 2.0) * o.spread as f64);
            if far && d(x).len() > 60.0 { for f in sim.bodies[i].f.iter() { ctx.check(!gone.contains(&f.id), || format!("fixture {} is still found where its body was", f.id)); } ctx.hit("far"); }
        }
        ctx.hit("placed");
        if ctx.failed() { return; }
        if ctx.rng.chance(0.5) { sim.step(); if sim.wild() { return; } }
    }
    let h = sim.state_hash();
    ctx.distinct(h);
}
/// neither the way to the new place nor what is left at the old one matters to the next step
fn c47_placed(ctx: &mut Ctx) {
    let seed = ctx.rng.u64();
    let steps = ctx.rng.int(1, 6);
    let mut r = Rng::new(seed);
    let (k, ka) = (*r.pick(&[Kind::Circle, Kind::Poly]), *r.pick(&[Kind::Circle, Kind::Poly, Kind::Edge, Kind::Chain]));
    let (s, t) = (shape(&mut r, k, 0.5), shape(&mut r, ka, 1.0));
    let (x, a) = (d(r.vec(1.5)), r.angle() as f64);
    let (u, w) = (r.vec(5.0), r.f(-3.0, 3.0));
    let from = r.vec(8.0) + b2v(if r.chance(0.5) { 12.0 } else { -12.0 }, 0.0);
    let bullet = r.chance(0.5);
    let fx = Fx::mat(1.0, r.f(0.0, 0.8), 0.0);
    let ta = r.angle();
    let away = ctx.rng.chance(0.5);
    let ok = invariant(ctx, &format!("{} steps after placing a {:?} near a {:?} against one made there", steps, k, ka), 2e-4, 1e-6, &|how: &mut How| {
        let mut sim = Sim::new(b2v(0.0, -10.0));
        let g = sim.body(STATIC, b2v(0.0, 0.0), ta);
        sim.fixture(g, &t, ka, &fx);
        let wall = sim.body(STATIC, b2v(0.0, 0.0), 0.0);
        for e in &[-5.0f32, 5.0] { sim.fixture(wall, &rc(edge2(b2v(*e, -30.0), b2v(*e, 30.0))), Kind::Edge, &fx); }
        let (x, a) = (b2(x + how.v()), (a + how.n()) as f32);
        // made there, or made (or gone) elsewhere and placed
        let mut def = Sim::def(DYNAMIC, if how.alt { from } else { x }, if how.alt { 0.3 } else { a });
        def.bullet = bullet;
        let b = sim.add(def);
        sim.fixture(b, &s, k, &fx);
        if how.alt { if away { for _ in 0..3 { sim.step(); } } sim.bodies[b].p.borrow_mut().set_transform(x, a); }
        sim.bodies[b].p.borrow_mut().set_linear_velocity(u);
        sim.bodies[b].p.borrow_mut().set_angular_velocity(w);
        let r = follow(&mut sim, steps, &STAY)?;
        if sim.contacts().iter().filter(|c| c.borrow().get_base().is_touching()).count() > 1 { return None; }
        // whether the other one is asleep or who is first of the pair is no matter here
        Some(Ans { order: vec![], ..r })
    });
    if ok { ctx.hit("placed_moved_on"); }
    ctx.distinct(seed);
}
/// a wall put into place is in the way of fast bodies as one made there
fn c47_wall(ctx: &mut Ctx) {
    crate::p_rest::bounce(ctx, true);
}
/// whatever is put onto a body that is awake touches it at the next step
fn c47_onto(ctx: &mut Ctx) {
    let mut sim = Sim::new(b2v(0.0, 0.0));
    let (ka, kb) = (*ctx.rng.pick(&[Kind::Circle, Kind::Poly]), *ctx.rng.pick(&[Kind::Circle, Kind::Poly]));
    let fx = Fx::default();
    let t = *ctx.rng.pick(&[DYNAMIC, DYNAMIC, STATIC, KINEMATIC]);
    let (sa, sb) = (shape(&mut ctx.rng, ka, 1.0), shape(&mut ctx.rng, kb, 1.0));
    let from = ctx.rng.vec(5.0) + b2v(40.0, 0.0);
    let (pa, aa) = (ctx.rng.vec(5.0), ctx.rng.angle());
    let flip = ctx.rng.chance(0.5);
    let mk = |sim: &mut Sim, first: bool| {
        let i = if first { sim.body(DYNAMIC, pa, aa) } else { sim.body(t, from, 0.2) };
        if first { sim.fixture(i, &sa, ka, &fx); } else { sim.fixture(i, &sb, kb, &fx); }
        i
    };
    let (a, b) = if flip { let b = mk(&mut sim, false); (mk(&mut sim, true), b) } else { let a = mk(&mut sim, true); (a, mk(&mut sim, false)) };
    for _ in 0..ctx.rng.int(0, 3) { sim.step(); }
    let asleep = t != STATIC && ctx.rng.chance(0.6);
    if asleep { sim.b(b).borrow_mut().set_awake(false); sim.step(); }
    // so that the centres fall together
    let (ca, lb) = (d(sim.b(a).borrow().get_world_center()), children(&*sb.borrow())[0].center());
    let ab = ctx.rng.angle();
    let p = ca - Xf::new(v(0.0, 0.0), ab as f64).rot(lb);
    sim.b(b).borrow_mut().set_transform(b2(p), ab);
    ctx.check(sim.contacts().is_empty(), || "a contact existed at a distance".into());
    sim.take_events();
    let dt = if ctx.rng.chance(0.3) { 0.0 } else { 1.0 / 60.0 };
    sim.step_dt(dt);
    ctx.evals += 1;
    let ev = sim.take_events();
    ctx.check(ev.iter().filter(|e| matches!(e, Ev::Begin(..))).count() == 1, || format!("a {:?} ({:?}, asleep {}) put onto an awake {:?} did not touch it at the next step of {} s: {} contacts", t, kb, asleep, ka, dt, sim.contacts().len()));
    ctx.check(sim.contacts().iter().filter(|c| c.borrow().get_base().is_touching()).count() == 1, || "no touching contact".into());
    // and taken away again it is gone at the next step
    sim.b(b).borrow_mut().set_transform(from, 0.0);
    sim.b(a).borrow_mut().set_awake(true);
    sim.step_dt(dt);
    let ev = sim.take_events();
    ctx.check(ev.iter().filter(|e| matches!(e, Ev::End(..))).count() == 1, || "a body taken away did not end its contact at the next step".into());
    ctx.check(sim.contacts().is_empty(), || "a contact is left with a body taken away".into());
    ctx.hit(if asleep { "put_asleep" } else { "put_awake" });
    ctx.distinct(hash_f(&[pa.x, aa, from.x, ab]));
}
/// without continuous collision a fast body that clears a wall in one step does not notice it; with it, it does
/// many position iterations remove an overlap within the step, few leave more of it
fn c47_apart(ctx: &mut Ctx) {
    let (ka, kb) = (solid_kind(&mut ctx.rng), solid_kind(&mut ctx.rng));
    let (za, zb) = (ctx.rng.f(0.4, 1.2), ctx.rng.f(0.4, 1.2));
    let (s1, s2) = (shape(&mut ctx.rng, ka, za), shape(&mut ctx.rng, kb, zb));
    let ta = ctx.rng.xf(3.0);
    let depth = ctx.rng.f(0.05, 0.3) as f64;
    let (c1, c2) = (children(&*s1.borrow())[0].clone(), children(&*s2.borrow())[0].clone());
    let tb = crate::p_manifold::place_gap(&mut ctx.rng, &c1, ta, &c2, -depth);
    let t1 = if ctx.rng.chance(0.5) { STATIC } else { DYNAMIC };
    let dens = ctx.rng.log(0.3, 3.0);
    let turn = ctx.rng.chance(0.5);
    let mut last: Option<f64> = None;
    for pi in &[1, 3, 10, 60] {
        let mut sim = Sim::new(b2v(0.0, 0.0));
        sim.w.borrow_mut().set_continuous_physics(false);
        sim.pi = *pi;
        let a = sim.body(t1, ta.p, ta.q.get_angle());
        let mut def = Sim::def(DYNAMIC, tb.p, tb.q.get_angle());
        def.fixed_rotation = !turn;
        let b = sim.add(def);
        if !turn { sim.b(a).borrow_mut().set_fixed_rotation(true); }
        sim.fixture(a, &s1, ka, &Fx::mat(dens, 0.3, 0.0));
        sim.fixture(b, &s2, kb, &Fx::mat(dens, 0.3, 0.0));
        let s0 = crate::p_rest::body_sep(&sim, a, b);
        if s0 > -0.03 || s0 < -0.5 { ctx.hit("placed_badly"); return; }
        sim.step();
        ctx.evals += 1;
        let s = crate::p_rest::body_sep(&sim, a, b);
        if let (Some(l), false) = (last, turn) { ctx.check(s >= l - 0.006, || format!("{} position iterations leave the bodies overlapping by {}, fewer by {}", pi, -s, -l)); ctx.max("apart_worse", l - s); }
        if *pi == 60 {
            ctx.max(if turn { "apart_turning" } else { "apart" }, -s);
            // a manifold kept while bodies turn describes them only roughly
            if !turn { ctx.check(s > -0.02, || format!("60 position iterations leave an overlap of {} (it was {}, {:?} {:?})", -s, -s0, ka, kb)); ctx.hit("apart_fixed"); }
            else { ctx.hit("apart_turning"); }
        }
        last = Some(s);
    }
    ctx.distinct(hash_f(&[depth as f32, za, zb]));
}
fn c47_continuous(ctx: &mut Ctx) {
    let seed = ctx.rng.u64();
    let run = |wall: bool, on: bool| {
        let mut r = Rng::new(seed);
        let mut sim = Sim::new(b2v(0.0, -10.0));
        let fx = Fx::mat(1.0, 0.3, 0.0);
        let a = r.f(-0.4, 0.4);
        if wall { if r.chance(0.5) { sim.box_body(STATIC, b2v(0.0, 0.0), a, 0.05, 4.0, &fx); } else { let b = sim.body(STATIC, b2v(0.0, 0.0), a); sim.fixture(b, &rc(edge2(b2v(0.0, -4.0), b2v(0.0, 4.0))), Kind::Edge, &fx); } } else { r.chance(0.5); }
        let mut def = Sim::def(DYNAMIC, b2v(-r.f(0.8, 0.95), r.f(-0.3, 0.3)), r.angle());
        def.linear_velocity = b2v(r.f(110.0, 119.0), 0.0);
        let b = sim.add(def);
        if r.chance(0.5) { sim.fixture(b, &rc(circle(b2v(0.0, 0.0), 0.12)), Kind::Circle, &fx); } else { sim.fixture(b, &rc(bx(0.1, 0.1)), Kind::Poly, &fx); }
        sim.w.borrow_mut().set_continuous_physics(on);
        sim.step();
        let p = sim.bodies[b].p.borrow().get_position();
        let u = sim.bodies[b].p.borrow().get_linear_velocity();
        (p, u)
    };
    let (free, off, on) = (run(false, true), run(true, false), run(true, true));
    ctx.check((d(free.0) - d(off.0)).len() < 1e-5 && (d(free.1) - d(off.1)).len() < 1e-4, || format!("with continuous collision off a body that clears a wall ends at {:?} {:?}, without the wall at {:?} {:?}", off.0, off.1, free.0, free.1));
    ctx.check(on.0.x < 0.3, || format!("with continuous collision on the body ends at {:?}, beyond the wall", on.0));
    ctx.hit("continuous");
    ctx.distinct(seed);
}

pub fn props() -> Vec<Property> {
    vec![
        Property {
            id: "C40",
            rule: "a distinct scene whose origin was shifted",
            parts: vec![part("instant", 30000, 400000, c40_instant), part("motion", 12000, 150000, c40_motion), part("anchors", 20000, 300000, c40_anchors), part("impact", 6000, 150000, c40_impact)],
            required: vec![("shift", 20000), ("joint", 40000), ("mouse", 6000), ("pulley", 4000), ("contacts", 9000), ("sleeping", 10000), ("disabled", 5000), ("query_found", 30000), ("query_missed", 50000), ("ray_hit", 20000), ("motion", 5000), ("motion_jointed", 3000), ("motion_touching", 700), ("anchored_mouse", 1200), ("anchored_pulley", 1200), ("impact", 1000), ("agreed", 10000)],
            assumptions: "Where disturbing the input by about a rounding error already changes the outcome, nothing is judged.",
        },
        Property {
            id: "C41",
            rule: "a distinct question asked in two frames",
            parts: vec![part("shapes", 60000, 800000, c41_shapes), part("sweeps", 40000, 500000, c41_sweeps), part("scene", 12000, 150000, c41_scene), part("mirror", 20000, 300000, c41_mirror)],
            required: vec![("agreed", 150000), ("moved", 12000), ("mirrored", 8000), ("manifold_points", 4000), ("manifold_empty", 4000), ("swapped", 1500), ("overlap", 8000), ("no_overlap", 8000), ("toi_touching", 10000), ("toi_separated", 1500), ("toi_swapped", 4000), ("shape_cast", 12000), ("scene", 5000), ("scene_jointed", 3000), ("scene_touching", 700), ("mirror", 8000)],
            assumptions: "Where disturbing the input by about a rounding error already changes the answer, nothing is judged.",
        },
        Property {
            id: "C47",
            rule: "a distinct scene stepped under two settings",
            parts: vec![part("zero", 20000, 300000, c47_zero), part("insert", 12000, 150000, c47_insert), part("converge", 8000, 120000, c47_converge), part("sub", 20000, 300000, c47_sub), part("teleport", 30000, 400000, c47_teleport), part("placed", 30000, 400000, c47_placed), part("continuous", 20000, 300000, c47_continuous), part("wall", 10000, 150000, c47_wall), part("onto", 20000, 300000, c47_onto), part("apart", 10000, 200000, c47_apart), part("uneven", 1500, 40000, crate::p_joint2::uneven_rest)],
            required: vec![("zero_step", 40000), ("zero_begin", 3000), ("zero_end", 1500), ("inserted", 5000), ("converged", 2500), ("converged_jointed", 1500), ("converged_touching", 500), ("continued", 20000), ("impact_call", 10000), ("sub_stepped", 8000), ("placed", 25000), ("far", 6000), ("placed_moved_on", 12000), ("continuous", 8000), ("placed_wall", 5000), ("put_asleep", 3000), ("put_awake", 3000), ("apart_fixed", 1000), ("apart_turning", 1000), ("at_rest", 800)],
            assumptions: "Solutions are compared where they are unique and the solver has converged.",
        },
    ]
}
