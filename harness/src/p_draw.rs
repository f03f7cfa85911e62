//! C44 debug drawing
use crate::core::*;
use crate::dump::*;
use crate::gen::*;
use crate::geo::*;
use crate::rec::*;
use crate::sim::*;
use box2d_rs::b2_draw::*;
use box2d_rs::shapes::b2rs_to_derived_shape::ShapeAsDerived;
use std::cell::RefCell;
use std::rc::Rc;

const FLAGS: [B2drawShapeFlags; 5] = [B2drawShapeFlags::SHAPE_BIT, B2drawShapeFlags::JOINT_BIT, B2drawShapeFlags::AABB_BIT, B2drawShapeFlags::PAIR_BIT, B2drawShapeFlags::CENTER_OF_MASS_BIT];

struct Want {
    what: &'static str,
    of: u32,
    dr: Dr,
    /// the colour is judged
    col: bool,
}
/// the colour of a body's fixtures says what state it is in
fn body_colour(b: &B2body<UD>) -> (Rgb, &'static str) {
    if b.get_type() == DYNAMIC && b.get_mass() == 0.0 { ([1.0, 0.0, 0.0, 1.0], "massless") }
    else if !b.is_enabled() { ([0.5, 0.5, 0.3, 1.0], "disabled") }
    else if b.get_type() == STATIC { ([0.5, 0.9, 0.5, 1.0], "static") }
    else if b.get_type() == KINEMATIC { ([0.5, 0.5, 0.9, 1.0], "kinematic") }
    else if !b.is_awake() { ([0.6, 0.6, 0.6, 1.0], "asleep") }
    else { ([0.9, 0.7, 0.7, 1.0], "awake") }
}
fn want_fixture(w: &mut Vec<Want>, f: &B2fixture<UD>, x: &Xf, c: Rgb) {
    let of = f.get_user_data().map_or(0, |t| t.id);
    let at = |p: B2vec2| b2(x.mul(d(p)));
    let mut add = |dr: Dr| w.push(Want { what: "shape", of, dr, col: true });
    match f.get_shape().as_derived() {
        ShapeAsDerived::AsCircle(s) => add(Dr::Disc(at(s.m_p), s.base.m_radius, b2(x.rot(v(1.0, 0.0))), c)),
        ShapeAsDerived::AsEdge(e) => {
            let (p, q) = (at(e.m_vertex1), at(e.m_vertex2));
            add(Dr::Seg(p, q, c));
            if !e.m_one_sided { add(Dr::Point(p, 0.0, c)); add(Dr::Point(q, 0.0, c)); }
        }
        ShapeAsDerived::AsPolygon(s) => add(Dr::Solid((0..s.m_count).map(|i| at(s.m_vertices[i])).collect(), c)),
        ShapeAsDerived::AsChain(s) => for q in s.m_vertices.windows(2) { add(Dr::Seg(at(q[0]), at(q[1]), c)) },
    }
}
fn want_joint(w: &mut Vec<Want>, id: u32, j: &dyn B2jointTraitDyn<UD>) {
    let (ba, bb) = (j.get_base().get_body_a(), j.get_base().get_body_b());
    let (xa, xb) = (Xf::of(ba.borrow().get_transform()), Xf::of(bb.borrow().get_transform()));
    let (aa, ab) = (ba.borrow().get_angle() as f64, bb.borrow().get_angle() as f64);
    let (pa, pb) = (d(j.get_anchor_a()), d(j.get_anchor_b()));
    let n = [0.0f32; 4];
    let mut add = |dr: Dr| w.push(Want { what: "joint", of: id, dr, col: false });
    let seg = |p: V, q: V| Dr::Seg(b2(p), b2(q), n);
    let dot = |p: V| Dr::Point(b2(p), 0.0, n);
    let rail = |add: &mut dyn FnMut(Dr), ax: B2vec2, limited: bool, lo: f32, hi: f32| {
        let ax = xa.rot(d(ax));
        add(seg(pa, pb));
        if limited {
            let (l, h) = (pa + lo as f64 * ax, pa + hi as f64 * ax);
            let s = 0.5 * ax.perp();
            add(seg(l, h));
            add(seg(l - s, l + s));
            add(seg(h - s, h + s));
        } else {
            add(seg(pa - ax, pa + ax));
        }
        add(dot(pa));
        add(dot(pb));
    };
    match j.as_derived() {
        JointAsDerived::EDistanceJoint(q) => {
            let ax = if (pb - pa).len() < 1e-6 { pb - pa } else { (pb - pa).norm() };
            add(seg(pa, pb));
            add(dot(pa + q.get_length() as f64 * ax));
            if q.get_min_length() != q.get_max_length() {
                if q.get_min_length() > B2_LINEAR_SLOP { add(dot(pa + q.get_min_length() as f64 * ax)); }
                if q.get_max_length() < B2_MAX_FLOAT { add(dot(pa + q.get_max_length() as f64 * ax)); }
            }
        }
        JointAsDerived::EPulleyJoint(q) => {
            let (ga, gb) = (d(q.get_ground_anchor_a()), d(q.get_ground_anchor_b()));
            add(seg(ga, pa));
            add(seg(gb, pb));
            add(seg(ga, gb));
        }
        JointAsDerived::EMouseJoint(_) => {
            add(dot(pa));
            add(dot(pb));
            add(seg(pa, pb));
        }
        JointAsDerived::EPrismaticJoint(q) => rail(&mut add, q.get_local_axis_a(), q.is_limit_enabled(), q.get_lower_limit(), q.get_upper_limit()),
        JointAsDerived::EWheelJoint(q) => rail(&mut add, q.get_local_axis_a(), q.is_limit_enabled(), q.get_lower_limit(), q.get_upper_limit()),
        JointAsDerived::ERevoluteJoint(q) => {
            let hand = |a: f64| pb + 0.5 * v(a.cos(), a.sin());
            add(dot(pa));
            add(dot(pb));
            add(seg(pb, hand(ab - aa - q.get_reference_angle() as f64)));
            add(Dr::Circle(b2(pb), 0.5, n));
            if q.is_limit_enabled() {
                add(seg(pb, hand(q.get_lower_limit() as f64)));
                add(seg(pb, hand(q.get_upper_limit() as f64)));
            }
            add(seg(xa.p, pa));
            add(seg(pa, pb));
            add(seg(xb.p, pb));
        }
        _ => {
            add(seg(xa.p, pa));
            add(seg(pa, pb));
            add(seg(xb.p, pb));
        }
    }
}
/// boxes drawn for fixtures: each must hold one child, no two the same
fn match_boxes(boxes: &[B2AABB], kids: &[B2AABB], slack: f32) -> bool {
    if boxes.len() != kids.len() { return false; }
    let ok = |b: &B2AABB, k: &B2AABB| {
        let e = 1e-4 * (1.0 + k.upper_bound.x.abs().max(k.upper_bound.y.abs()).max(k.lower_bound.x.abs()).max(k.lower_bound.y.abs()));
        b.lower_bound.x <= k.lower_bound.x + e && b.lower_bound.y <= k.lower_bound.y + e && b.upper_bound.x >= k.upper_bound.x - e && b.upper_bound.y >= k.upper_bound.y - e
            && (slack > 1e3 || b.lower_bound.x <= k.lower_bound.x - slack + e && b.upper_bound.y >= k.upper_bound.y + slack - e)
            && k.lower_bound.x - b.lower_bound.x <= slack + e && k.lower_bound.y - b.lower_bound.y <= slack + e && b.upper_bound.x - k.upper_bound.x <= slack + e && b.upper_bound.y - k.upper_bound.y <= slack + e
    };
    let mut to: Vec<Option<usize>> = vec![None; kids.len()];
    fn aug(b: usize, seen: &mut Vec<bool>, to: &mut Vec<Option<usize>>, adj: &Vec<Vec<usize>>) -> bool {
        for k in adj[b].iter() {
            if seen[*k] { continue; }
            seen[*k] = true;
            if to[*k].is_none() || aug(to[*k].unwrap(), seen, to, adj) { to[*k] = Some(b); return true; }
        }
        false
    }
    let adj: Vec<Vec<usize>> = boxes.iter().map(|b| (0..kids.len()).filter(|k| ok(b, &kids[*k])).collect()).collect();
    (0..boxes.len()).all(|b| { let mut seen = vec![false; kids.len()]; aug(b, &mut seen, &mut to, &adj) })
}
fn everything(sim: &Sim) -> Vec<u64> {
    let mut w = vec![sim.state_hash()];
    for b in sim.bodies.iter() {
        let p = b.p.borrow();
        for x in body_vals(&p).iter().chain(mass_vals(&p).iter()) { w.push(x.1.to_bits()); }
        for f in b.f.iter() { for x in fixture_vals(&f.p.borrow()) { w.push(x.1.to_bits()); } }
    }
    for j in sim.joints.iter() { for x in joint_vals(&*j.p.borrow()) { w.push(x.1.to_bits()); } }
    w
}
/// one drawing of the world with some flags shows what exists
fn judge(ctx: &mut Ctx, sim: &Sim, rec: &Rc<RefCell<Rec>>, on: &[bool; 5], fresh: bool) {
    let before = everything(sim);
    rec.borrow_mut().calls.clear();
    sim.w.borrow().debug_draw();
    ctx.check(everything(sim) == before, || "drawing changed the world".into());
    let calls = rec.borrow().calls.clone();
    let mut big = 1.0f64;
    let mut want: Vec<Want> = vec![];
    for h in sim.bodies.iter() {
        let b = h.p.borrow();
        big = big.max(d(b.get_position()).len());
        let x = Xf::of(b.get_transform());
        if on[0] {
            let (c, name) = body_colour(&b);
            for f in h.f.iter() { ctx.hit(name); want_fixture(&mut want, &f.p.borrow(), &x, c); }
        }
        if on[4] {
            ctx.hit("centre");
            want.push(Want { what: "centre of mass of body", of: h.id, dr: Dr::Frame(b.get_world_center(), x.s as f32, x.c as f32), col: false });
        }
    }
    if on[1] {
        for j in sim.joints.iter() {
            ctx.hit(["distance", "friction", "gear", "mouse", "motor", "pulley", "revolute", "prismatic", "weld", "wheel"][ALL_JK.iter().position(|k| *k == j.kind).unwrap()]);
            want_joint(&mut want, j.id, &*j.p.borrow());
        }
    }
    if on[3] {
        for c in sim.contacts() {
            ctx.hit("pair");
            let c = c.borrow();
            let c = c.get_base();
            let mid = |f: FixturePtr<UD>, i: i32| { let q = f.borrow().get_aabb(i); 0.5 * (q.lower_bound + q.upper_bound) };
            want.push(Want { what: "contact pair with fixture", of: fix_id(&c.get_fixture_a()), dr: Dr::Seg(mid(c.get_fixture_a(), c.get_child_index_a()), mid(c.get_fixture_b(), c.get_child_index_b()), [0.3, 0.9, 0.9, 1.0]), col: true });
        }
    }
    // boxes apart, the rest one to one
    let mut left: Vec<Dr> = vec![];
    let mut boxes = vec![];
    for c in calls.into_iter() {
        if let Dr::Poly(p, col) = &c {
            let lo = p.iter().fold(b2v(f32::MAX, f32::MAX), |a, q| b2v(a.x.min(q.x), a.y.min(q.y)));
            let hi = p.iter().fold(b2v(f32::MIN, f32::MIN), |a, q| b2v(a.x.max(q.x), a.y.max(q.y)));
            let corner = [b2v(lo.x, lo.y), b2v(hi.x, lo.y), b2v(hi.x, hi.y), b2v(lo.x, hi.y)];
            let k = p.iter().position(|q| *q == corner[0]).unwrap_or(0);
            ctx.check(p.len() == 4 && (0..4).all(|i| p[(i + k) % 4] == corner[i]) && *col == [0.9, 0.3, 0.9, 1.0], || format!("an outline is drawn which is no box in the colour of boxes: {:?}", c));
            boxes.push(B2AABB { lower_bound: lo, upper_bound: hi });
        } else {
            left.push(c);
        }
    }
    if ctx.failed() { return; }
    let mut kids = vec![];
    if on[2] {
        for h in sim.bodies.iter() {
            let b = h.p.borrow();
            if !b.is_enabled() { continue; }
            for f in h.f.iter() {
                let f = f.p.borrow();
                for k in 0..f.get_shape().get_child_count() { let mut q = B2AABB::default(); f.get_shape().compute_aabb(&mut q, b.get_transform(), k); kids.push(q); ctx.hit("box"); }
            }
        }
    }
    ctx.check(match_boxes(&boxes, &kids, if fresh { B2_AABB_EXTENSION } else { 1e30 }), || format!("the boxes drawn {:?} are not one around each shape {:?}{}", boxes, kids, if fresh { " with the usual margin" } else { "" }));
    let tol = 2e-5 * big + 1e-4;
    want.sort_by_key(|w| !w.col);
    for w in want.iter() {
        let mut best: Option<(usize, f64)> = None;
        for (i, c) in left.iter().enumerate() {
            if w.col && colour(c) != colour(&w.dr) { continue; }
            let m = far(c, &w.dr);
            if m <= tol && best.map_or(true, |b| m < b.1) { best = Some((i, m)); }
        }
        match best {
            Some((i, _)) => { left.swap_remove(i); ctx.evals += 1; }
            None => { ctx.fail(format!("not drawn: {} {}: {:?}; unexplained drawings {:?}", w.what, w.of, w.dr, &left[..left.len().min(12)])); return; }
        }
    }
    ctx.check(left.is_empty(), || format!("drawn without cause: {:?}", &left[..left.len().min(8)]));
}
fn c44_world(ctx: &mut Ctx) {
    let mut o = SceneOpts::default();
    o.bodies = ctx.rng.int(1, 9) as usize;
    o.joints = ctx.rng.int(0, 4) as usize;
    o.joint_kinds = ALL_JK.to_vec();
    if ctx.rng.chance(0.1) { o.joints = 8; o.joint_kinds = vec![JK::Gear, JK::Revolute, JK::Prismatic]; }
    o.spread = *ctx.rng.pick(&[2.0f32, 5.0, 15.0]);
    let mut rng = Rng::new(ctx.rng.u64());
    let mut sim = rand_scene(&mut rng, &o);
    if ctx.rng.chance(0.02) {
        sim.w.borrow().debug_draw();
        ctx.hit("no_drawer");
    }
    let rec = Rc::new(RefCell::new(Rec::default()));
    sim.w.borrow_mut().set_debug_draw(rec.clone());
    ctx.check(FLAGS.iter().all(|f| !rec.borrow().get_base().get_flags().contains(*f)), || "a new drawer has flags set".into());
    let mut on = [false; 5];
    let n = ctx.rng.int(1, 4);
    let mut moved = false;
    for _ in 0..n {
        // set, append or clear flags
        let mask: Vec<bool> = { let all = ctx.rng.chance(0.15); (0..5).map(|_| all || ctx.rng.chance(0.4)).collect() };
        let mut f = B2drawShapeFlags::empty();
        for i in 0..5 { if mask[i] { f = f | FLAGS[i]; } }
        let how = ctx.rng.below(4);
        {
            let mut r = rec.borrow_mut();
            let b = r.get_base_mut();
            match how {
                0 | 1 => { b.set_flags(f); for i in 0..5 { on[i] = mask[i]; } }
                2 => { b.append_flags(f); for i in 0..5 { on[i] |= mask[i]; } }
                _ => { b.clear_flags(f); for i in 0..5 { on[i] &= !mask[i]; } }
            }
        }
        let got = rec.borrow().get_base().get_flags();
        ctx.check((0..5).all(|i| got.contains(FLAGS[i]) == on[i]), || format!("drawing flags {:?} instead of {:?}", got, on));
        judge(ctx, &sim, &rec, &on, !moved);
        if ctx.failed() { return; }
        ctx.hit("drawn");
        let k = ctx.rng.below(6);
        for _ in 0..k { if ctx.rng.chance(0.4) { rand_op(&mut sim, &mut rng, &o); } sim.step(); moved = true; }
        if sim.wild() || sim.bodies.iter().any(|b| b.p.borrow().get_position().length() > 200.0) { ctx.hit("wild"); return; }
    }
    ctx.distinct(hash_words(&[ctx.idx]));
}
/// falling asleep changes the colour; many states in one world
fn c44_states(ctx: &mut Ctx) {
    let mut sim = Sim::new(b2v(0.0, -10.0));
    let m = Fx::mat(1.0, 0.6, 0.0);
    sim.ground(0.0, 20.0, &m);
    let n = ctx.rng.int(1, 5);
    for i in 0..n {
        let x = 3.0 * i as f32 - 7.0;
        let b = match ctx.rng.below(3) { 0 => sim.ball(DYNAMIC, b2v(x, 0.5), 0.5, &m), _ => sim.box_body(DYNAMIC, b2v(x, 0.5), 0.0, 0.5, 0.5, &m) };
        if ctx.rng.chance(0.2) { let p = sim.b(b); let t = *ctx.rng.pick(&[STATIC, KINEMATIC]); B2body::set_type(p, t); }
        if ctx.rng.chance(0.2) { B2body::set_enabled(sim.b(b), false); }
    }
    let rec = Rc::new(RefCell::new(Rec::default()));
    rec.borrow_mut().get_base_mut().set_flags(FLAGS[0] | FLAGS[2] | FLAGS[3]);
    sim.w.borrow_mut().set_debug_draw(rec.clone());
    let on = [true, false, true, true, false];
    for s in 0..60 {
        sim.step();
        if s % 6 == 5 { judge(ctx, &sim, &rec, &on, false); }
        if ctx.failed() { return; }
    }
    if sim.bodies.iter().any(|b| b.p.borrow().get_type() == DYNAMIC && !b.p.borrow().is_awake()) { ctx.hit("fell_asleep"); }
    ctx.distinct(ctx.idx);
}
pub fn props() -> Vec<Property> {
    vec![Property {
        id: "C44",
        rule: "random worlds of all shapes, body states and joint kinds are drawn into a recorder under random flag sets, fresh and between steps and random operations; every drawn element is matched one to one with what the public getters say should be shown (geometry, and colour where it tells a state), and the world is read before and after",
        parts: vec![part("world", 60000, 1500000, c44_world), part("states", 3000, 60000, c44_states)],
        required: vec![("drawn", 100000), ("awake", 200000), ("asleep", 30000), ("disabled", 20000), ("static", 80000), ("kinematic", 30000), ("massless", 20000), ("box", 400000), ("centre", 200000), ("pair", 80000), ("distance", 6000), ("friction", 8000), ("gear", 1000), ("mouse", 8000), ("motor", 8000), ("pulley", 6000), ("revolute", 8000), ("prismatic", 8000), ("weld", 6000), ("wheel", 6000), ("fell_asleep", 1500), ("no_drawer", 500)],
        assumptions: "point sizes and the colours of joints are not judged; boxes need only hold their shape once the world has been stepped",
    }]
}
