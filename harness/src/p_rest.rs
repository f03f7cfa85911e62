//! C19 chains and one-sided edges, C27 resting, C28 no tunnelling, C29 sleep
use crate::core::*;
use crate::gen::*;
use crate::geo::*;
use crate::p_dyn::{st, St};
use crate::p_manifold::{collide, world_manifold};
use crate::sim::*;
use box2d_rs::b2_body::*;
use box2d_rs::b2_distance::*;
use box2d_rs::b2_math::*;
use box2d_rs::b2_shape::*;
use box2d_rs::joints::*;
use box2d_rs::shapes::b2_chain_shape::*;
use box2d_rs::shapes::b2_edge_shape::*;
use box2d_rs::shapes::b2rs_to_derived_shape::*;
use std::collections::HashMap;

const Z: V = V { x: 0.0, y: 0.0 };
fn rot(a: f64, q: V) -> V {
    Xf::new(Z, a).rot(q)
}

// ------------------------------------------------------------------------------------------------ C19

fn c19_children(ctx: &mut Ctx) {
    let n = ctx.rng.int(3, 14) as usize;
    let is_loop = ctx.rng.chance(0.5);
    let size = ctx.rng.log(0.3, 20.0);
    // points on a jittered circle or a walk, always well apart
    let pts: Vec<B2vec2> = if is_loop {
        (0..n).map(|i| { let a = (i as f32 + ctx.rng.f(-0.3, 0.3)) * 6.2831853 / n as f32; let r = size * ctx.rng.f(0.7, 1.3); b2v(r * a.cos(), r * a.sin()) }).collect()
    } else {
        let mut p = ctx.rng.vec(size);
        (0..n - 1).map(|_| { p = p + ctx.rng.f(0.3, 1.0) * ctx.rng.dir(); p }).collect()
    };
    let (prev, next) = (ctx.rng.vec(size), ctx.rng.vec(size));
    let mut c = B2chainShape::default();
    if is_loop { c.create_loop(&pts) } else { c.create_chain(&pts, prev, next) }
    let m = pts.len();
    let kids = if is_loop { m } else { m - 1 };
    // the same from a copy
    let copy: Option<ShapeDefPtr> = if ctx.rng.chance(0.3) { Some(rc(c.clone())) } else { None };
    let body_xf = ctx.rng.xf(5.0);
    ctx.check(c.get_child_count() == kids, || format!("{} children for {} points, expected {}", c.get_child_count(), m, kids));
    if ctx.failed() { return; }
    for i in 0..kids {
        let mut e = B2edgeShape::default();
        match &copy {
            Some(s) => if let ShapeAsDerived::AsChain(q) = s.borrow().as_derived() { q.get_child_edge(&mut e, i) },
            None => c.get_child_edge(&mut e, i),
        }
        let (v1, v2) = (pts[i], pts[(i + 1) % m]);
        let v0 = if i > 0 { pts[i - 1] } else if is_loop { pts[m - 1] } else { prev };
        let v3 = if i + 2 < m { pts[i + 2] } else if is_loop { pts[(i + 2) % m] } else { next };
        ctx.check(e.m_vertex1 == v1 && e.m_vertex2 == v2, || format!("child {} of {} runs from {:?} to {:?}, expected {:?} to {:?}", i, kids, e.m_vertex1, e.m_vertex2, v1, v2));
        ctx.check(e.m_vertex0 == v0 && e.m_vertex3 == v3, || format!("child {} of {} (loop {}) has neighbours {:?} and {:?}, expected {:?} and {:?}", i, kids, is_loop, e.m_vertex0, e.m_vertex3, v0, v3));
        ctx.check(e.m_one_sided, || format!("child {} is not one-sided", i));
        ctx.check(e.base.m_radius == c.base.m_radius, || format!("child {} has radius {}", i, e.base.m_radius));
        ctx.hit(if is_loop { if i == 0 || i + 2 >= m { "wrapping_child" } else { "loop_child" } } else if i == 0 || i + 1 == kids { "end_child" } else { "chain_child" });
        // the proxy used for distances and casts is the same segment
        let mut p = B2distanceProxy::default();
        match &copy { Some(s) => p.set_shape(s.borrow().clone_rc(), i), None => { let s: ShapeDefPtr = rc(c.clone()); let q = s.borrow().clone_rc(); p.set_shape(q, i) } }
        ctx.check(p.get_vertex_count() == 2 && ((p.get_vertex(0), p.get_vertex(1)) == (v1, v2) || (p.get_vertex(0), p.get_vertex(1)) == (v2, v1)), || format!("distance proxy of child {} is {:?} {:?}", i, p.get_vertex(0), p.get_vertex(1)));
        // a ray across the middle from the front meets it
        let (a, b) = (d(v1), d(v2));
        let mid = (a + b) * 0.5;
        let nn = V { x: (b - a).y, y: -(b - a).x }.norm();
        let x = Xf::of(body_xf);
        let inp = box2d_rs::b2_collision::B2rayCastInput { p1: b2(x.mul(mid + nn * 0.5)), p2: b2(x.mul(mid - nn * 0.5)), max_fraction: 1.0 };
        let mut out = box2d_rs::b2_collision::B2rayCastOutput::default();
        let hit = c.ray_cast(&mut out, &inp, body_xf, i);
        ctx.check(hit && (out.fraction - 0.5).abs() < 1e-3 && d(out.normal).dot(x.rot(nn)) > 0.999, || format!("a ray at the front of child {} gives {} {:?}", i, hit, out));
    }
    ctx.distinct(hash_f(&[pts[0].x, pts[0].y, pts[m - 1].x, n as f32]));
}
/// direct manifolds: nothing from behind, something from the front
fn c19_sides(ctx: &mut Ctx) {
    let len = ctx.rng.log(0.5, 5.0);
    let (v1, v2) = (b2v(0.0, 0.0), b2v(len, 0.0));
    // the front of an edge running in +x is −y
    let (v0, v3) = (b2v(-ctx.rng.f(0.3, 2.0), ctx.rng.f(-0.5, 0.5)), b2v(len + ctx.rng.f(0.3, 2.0), ctx.rng.f(-0.5, 0.5)));
    let mut e = B2edgeShape::default();
    e.set_one_sided(v0, v1, v2, v3);
    let front = ctx.rng.chance(0.5);
    let s: ShapeDefPtr = if ctx.rng.chance(0.5) { let r = ctx.rng.f(0.1, 0.6); rc(circle(ctx.rng.vec(0.2), r)) } else { let z = ctx.rng.f(0.2, 0.6); rc(poly(&mut ctx.rng, z)) };
    let ang = ctx.rng.angle();
    let cx = children(&*s.borrow())[0].moved(&Xf::new(Z, ang as f64));
    let side = if front { -1.0 } else { 1.0 };
    // place it over the middle of the edge, core overlapping the edge line's skin by a known depth
    let reach = cx.support(V { x: 0.0, y: -side });
    let depth = ctx.rng.f(0.005, 0.02) as f64;
    let c = cx.center();
    let x = ctx.rng.f(0.35, 0.65) as f64 * len as f64 - c.x;
    let y = side * (reach - depth);
    // its centre must be clearly on that side
    let cy = c.y + y;
    if cy * side < 0.05 || cx.extent() > len as f64 * 0.6 { ctx.hit("skipped"); return; }
    let base = ctx.rng.xf(10.0);
    let bx_ = Xf::of(base);
    let tb = xf(b2(bx_.mul(V { x, y })), 0.0);
    let mut tb = tb;
    let a0 = (base.q.s as f64).atan2(base.q.c as f64);
    tb.q.set(a0 as f32 + ang);
    let sb = s.borrow();
    let m = collide(&e, &base, &*sb, &tb);
    if front {
        ctx.check(m.point_count > 0, || format!("nothing touches the front of a one-sided edge though overlapping by {}", depth));
        if m.point_count > 0 {
            let w = world_manifold(&m, base, e.base.m_radius as f64, tb, sb.get_base().m_radius as f64);
            let n = bx_.inv_rot(d(w.normal));
            ctx.check(n.y < -0.5, || format!("normal {:?} does not point out of the front", n));
        }
        ctx.hit("front");
    } else {
        ctx.check(m.point_count == 0, || format!("a shape behind a one-sided edge touches it ({} points)", m.point_count));
        ctx.hit("behind");
    }
    // the same edge two-sided touches from both sides
    let mut t = if ctx.rng.chance(0.5) { e.clone() } else { B2edgeShape::default() };
    t.set_two_sided(v1, v2);
    let m = collide(&t, &base, &*sb, &tb);
    ctx.check(m.point_count > 0, || "a two-sided edge is not touched".into());
    ctx.distinct(hash_f(&[len, x as f32, ang]));
}
/// A polygon at a one-sided edge is pushed along a direction between the normals of the edge and of its neighbours
/// (a neighbour turning up counts for nothing), and is left to the neighbour when its own direction lies beyond.
fn c19_cone(ctx: &mut Ctx) {
    let len = ctx.rng.log(0.4, 4.0) as f64;
    let (t0, t2) = (ctx.rng.f(-1.5, 1.5) as f64, ctx.rng.f(-1.5, 1.5) as f64);
    let (v1, v2) = (V { x: 0.0, y: 0.0 }, V { x: len, y: 0.0 });
    // the front is -y; a neighbour turned up (positive angle for the next one) falls away from the front
    let v0 = v1 - V { x: t0.cos(), y: -t0.sin() } * ctx.rng.f(0.3, 3.0) as f64;
    let v3 = v2 + V { x: t2.cos(), y: t2.sin() } * ctx.rng.f(0.3, 3.0) as f64;
    let mut e = B2edgeShape::default();
    e.set_one_sided(b2(v0), b2(v1), b2(v2), b2(v3));
    let z = ctx.rng.f(0.2, 1.2);
    let round = ctx.rng.chance(0.3);
    let s: ShapeDefPtr = if round { rc(circle(ctx.rng.vec(0.3), z)) } else { rc(poly(&mut ctx.rng, z)) };
    let ang = ctx.rng.angle();
    let sb = s.borrow();
    let cx = children(&*sb)[0].moved(&Xf::new(Z, ang as f64));
    let reach = cx.extent();
    let base = ctx.rng.xf(3.0);
    let fr = Xf::of(base);
    let a0 = (base.q.s as f64).atan2(base.q.c as f64);
    for _ in 0..8 {
        let off = V { x: ctx.rng.f(-0.6, 1.6) as f64 * len, y: -ctx.rng.f(0.0, 1.0) as f64 * (reach + cx.r) } - cx.center();
        let c = cx.moved(&Xf::new(off, 0.0));
        // the middle must be clearly in front
        let cen = if round { c.p[0] } else { poly_moments(&c.p).1 };
        if cen.y > -0.01 { continue; }
        let mut tb = xf(b2(fr.mul(off)), 0.0);
        tb.q.set(a0 as f32 + ang);
        let m = collide(&e, &base, &*sb, &tb);
        ctx.evals += 1;
        let n = if m.point_count > 0 {
            let w = world_manifold(&m, base, e.base.m_radius as f64, tb, sb.get_base().m_radius as f64);
            Some(fr.inv_rot(d(w.normal)))
        } else { None };
        // direction as an angle from straight out of the front; positive towards the next neighbour
        let angle = |n: V| n.x.atan2(-n.y);
        let (convex0, convex2) = (t0 > 0.0, t2 > 0.0);
        let (lo, hi) = (if convex0 { -t0 } else { 0.0 }, if convex2 { t2 } else { 0.0 });
        let rr = c.r + e.base.m_radius as f64;
        if round {
            let q = c.p[0];
            let near = closest_on_seg(q, v1, v2);
            let dist = (q - near).len();
            if (dist - rr).abs() < 1e-3 { continue; }
            // over the edge, over a neighbour, or over the corner between them
            let (over0, over2) = ((v1 - v0).norm().dot(v1 - q), (v3 - v2).norm().dot(q - v2));
            let want = if q.x > 1e-3 && q.x < len - 1e-3 { dist < rr }
                else if q.x < -1e-3 { if over0.abs() < 1e-3 { continue } dist < rr && over0 < 0.0 }
                else if q.x > len + 1e-3 { if over2.abs() < 1e-3 { continue } dist < rr && over2 < 0.0 }
                else { continue };
            ctx.check(n.is_some() == want, || format!("circle at {:?} (range {}) near an edge from 0 to {}, neighbours at {:?} and {:?}: touching {}, expected {}", q, rr, len, v0, v3, n.is_some(), want));
            if let Some(n) = n { if want && dist > 0.01 { ctx.check((n - (q - near).norm()).len() < 2e-3, || format!("circle at {:?}: normal {:?}, expected {:?}", q, n, (q - near).norm())); } }
            ctx.hit(if want { "round_touch" } else { "round_apart" });
            ctx.distinct(hash_f(&[len as f32, q.x as f32, q.y as f32]));
            if ctx.failed() { return; }
            continue;
        }
        if let Some(n) = n {
            let a = angle(n);
            ctx.check(a >= lo - 0.115 && a <= hi + 0.115, || format!("pushed at an angle of {} from the front of an edge whose neighbours allow {} to {} (corners turn by {} and {})", a, lo, hi, t0, t2));
            // no give at all on a side whose neighbour rises
            if !convex0 && t0 < -0.01 { ctx.check(a >= -2e-3, || format!("pushed back at an angle of {} though the previous segment rises by {}", a, -t0)); }
            if !convex2 && t2 < -0.01 { ctx.check(a <= 2e-3, || format!("pushed on at an angle of {} though the next segment rises by {}", a, -t2)); }
            ctx.hit(if a.abs() < 1e-3 { "edge_normal" } else { "corner_normal" });
        }
        // clear overlap: the direction of least depth decides
        let se = c.p.iter().map(|p| -p.y).fold(f64::MAX, f64::min);
        let mut best = (-1e30, Z);
        let mut second = -1e30;
        for k in edge_normals(&c) {
            let k = k * -1.0;
            let sp = c.p.iter().map(|p| k.dot(*p)).fold(f64::MAX, f64::min) - k.dot(v1).max(k.dot(v2));
            if sp > best.0 { second = best.0; best = (sp, k); } else if sp > second { second = sp; }
        }
        if se > -0.01 || best.0 > -0.01 { continue; }
        let pref = best.0 - rr - (0.98 * (se - rr) + 0.001);
        let a = angle(best.1);
        let side_prev = a < 0.0;
        if pref < -2e-3 {
            // flat on the edge; away from its middle clipping may leave nothing
            let low = c.p.iter().fold(c.p[0], |m, p| if p.y > m.y { *p } else { m });
            if low.x > 0.02 * len && low.x < 0.98 * len { ctx.check(n.is_some(), || format!("no contact though in by {} and {} (neighbours turn by {} and {})", se, best.0, t0, t2)); }
            if let Some(n) = n { ctx.check(angle(n).abs() < 2e-3, || format!("flattest along the edge normal ({} against {}) but pushed at {}", se, best.0, angle(n))); }
            ctx.hit("flattest_edge");
        } else if pref > 2e-3 && best.0 - second > 2e-3 && a.abs() > 0.01 && a.abs() < 1.5 {
            let (turn, give) = if side_prev { (t0, -lo) } else { (t2, hi) };
            if turn > 0.01 && a.abs() > give + 0.12 {
                ctx.check(n.is_none(), || format!("touching though the direction {} of least depth belongs to the neighbour (turn {})", a, turn));
                ctx.hit("left_to_neighbour");
            } else if turn > 0.01 && a.abs() < give + 0.08 {
                if let Some(n) = n { ctx.check((angle(n) - a).abs() < 2e-3, || format!("least depth at {} within the allowed {} to {}, but pushed at {}", a, lo, hi, angle(n))); ctx.hit("corner_face"); }
            } else if turn < -0.01 {
                if let Some(n) = n { ctx.check(angle(n).abs() < 2e-3, || format!("least depth at {} on the side of a rising neighbour, pushed at {}", a, angle(n))); ctx.hit("snapped"); }
            }
        }
        ctx.distinct(hash_f(&[len as f32, off.x as f32, off.y as f32]));
        if ctx.failed() { return; }
    }
}
fn chain_body(sim: &mut Sim, pts: &[V], fx: &Fx, tilt: f64, org: V, split: bool) -> usize {
    let p: Vec<B2vec2> = pts.iter().map(|q| b2(*q)).collect();
    let b = sim.body(STATIC, b2(org), tilt as f32);
    let n = p.len();
    let prev = p[0] + (p[0] - p[1]);
    let next = p[n - 1] + (p[n - 1] - p[n - 2]);
    if split {
        // the same ground as separate one-sided edges
        for i in 0..n - 1 {
            let mut e = B2edgeShape::default();
            e.set_one_sided(if i > 0 { p[i - 1] } else { prev }, p[i], p[i + 1], if i + 2 < n { p[i + 2] } else { next });
            let s = rc(e);
            sim.fixture(b, &s, Kind::OneSided, fx);
        }
    } else {
        let mut c = B2chainShape::default();
        c.create_chain(&p, prev, next);
        let s = rc(c);
        sim.fixture(b, &s, Kind::Chain, fx);
    }
    b
}
/// (shape, kind, lowest point below the origin)
fn flat_bottom(rng: &mut Rng) -> (ShapeDefPtr, Kind, f32) {
    match rng.below(3) {
        0 => { let r = rng.f(0.15, 0.6); (rc(circle(b2v(0.0, 0.0), r)), Kind::Circle, r) }
        1 => { let (x, y) = (rng.f(0.15, 0.8), rng.f(0.15, 0.5)); (rc(bx(x, y)), Kind::Poly, y) }
        _ => {
            let (x, y) = (rng.f(0.3, 0.8), rng.f(0.3, 0.8));
            let k = rng.f(0.3, 0.9);
            let mut s = box2d_rs::shapes::b2_polygon_shape::B2polygonShape::default();
            s.set(&[b2v(-x, 0.0), b2v(x, 0.0), b2v(k * x, y), b2v(-k * x, y)]);
            (rc(s), Kind::Poly, 0.0)
        }
    }
}
fn c19_slide(ctx: &mut Ctx) {
    let convex = ctx.rng.chance(0.4);
    let tilt = if ctx.rng.chance(0.5) { 0.0 } else { ctx.rng.angle() as f64 };
    let up = rot(tilt, V { x: 0.0, y: 1.0 });
    let right = rot(tilt, V { x: 1.0, y: 0.0 });
    let g = up * -10.0;
    let mut sim = Sim::new(b2(g));
    let cont = ctx.rng.chance(0.6);
    sim.w.borrow_mut().set_continuous_physics(cont);
    let fx = Fx::mat(1.0, 0.0, 0.0);
    // from right to left, so that the front is up
    let mut pts = vec![];
    let mut x = 30.0f64;
    let mut y = 0.0;
    let mut slope = 0.0;
    while x > 0.0 && pts.len() < 120 {
        pts.push(V { x, y: 0.0 });
        x -= ctx.rng.f(0.2, 1.5) as f64;
    }
    pts.push(V { x: -2.0, y: 0.0 });
    pts.push(V { x: -12.0, y: 0.0 });
    if convex {
        // a hill falling away to the right, ever steeper
        let mut q = vec![];
        let mut px = 8.0f64;
        while px < 30.0 {
            slope -= ctx.rng.f(0.02, 0.25) as f64;
            if slope < -1.2 { break; }
            let l = ctx.rng.f(0.5, 3.0) as f64;
            y += slope * l;
            px += l;
            q.push(V { x: px, y });
        }
        q.reverse();
        pts.retain(|p| p.x <= 8.0 - 0.1);
        pts.insert(0, V { x: 8.0, y: 0.0 });
        let mut all = q;
        all.extend(pts);
        pts = all;
    }
    let org = if tilt == 0.0 { Z } else { d(ctx.rng.vec(5.0)) };
    let split = ctx.rng.chance(0.25);
    chain_body(&mut sim, &pts, &fx, tilt, org, split);
    let (s, k, low) = flat_bottom(&mut ctx.rng);
    let rad = if k == Kind::Circle { 0.01 } else { 0.02 };
    let start = if convex { -3.0 } else { *ctx.rng.pick(&[-3.0f64, 15.0]) };
    let speed = ctx.rng.log(0.5, 20.0) as f64 * if convex || start < 0.0 { 1.0 } else { ctx.rng.sign() as f64 };
    let p = org + right * start + up * (low as f64 + rad - 0.003);
    let mut def = Sim::def(DYNAMIC, b2(p), tilt as f32);
    def.linear_velocity = b2(right * speed);
    def.allow_sleep = false;
    def.bullet = ctx.rng.chance(0.2);
    let b = sim.add(def);
    sim.fixture(b, &s, k, &fx);
    let h0 = (d(sim.b(b).borrow().get_world_center()) - org).dot(up);
    let steps = 300;
    let mut crossed = 0u64;
    for n in 0..steps {
        sim.step();
        ctx.evals += 1;
        let r = st(&sim.b(b));
        let (x, h) = ((r.p - org).dot(right), (r.c - org).dot(up));
        let (vt, vn) = (r.v.dot(right), r.v.dot(up));
        if x > 29.0 || x < -10.0 { break; }
        crossed += 1;
        if !convex {
            ctx.check((vt - speed).abs() <= 2e-3 * speed.abs() + 2e-3, || format!("step {}: sliding speed {} became {} at x={} on a flat chain ({:?}, tilt {}, continuous {})", n, speed, vt, x, k, tilt, cont));
            ctx.check(vn.abs() <= 0.02 && r.w.abs() <= 0.05, || format!("step {}: velocity {} off the flat chain, spin {} at x={}", n, vn, r.w, x));
            ctx.check((h - h0).abs() <= 0.012, || format!("step {}: height {} became {} on a flat chain", n, h0, h));
            ctx.max("flat_speed_change", (vt - speed).abs());
            ctx.max("flat_vn", vn.abs());
            ctx.max("flat_spin", r.w.abs());
            ctx.hit("flat_step");
        } else {
            // never thrown up, never slowed
            ctx.check(h <= h0 + 0.012 && vn <= 0.03 + 0.002 * speed, || format!("step {}: thrown up to {} (from {}), rising at {} at x={} on a convex chain", n, h, h0, vn, x));
            // a body tipping over the edge of the flat part trades a little of its speed for spin
            let lo = if x < 7.0 { speed * 0.998 - 2e-3 } else { speed * 0.997 - 0.01 };
            ctx.check(vt >= lo, || format!("step {}: slowed from {} to {} at x={} on a convex chain ({:?})", n, speed, vt, x, k));
            ctx.max("convex_vn", vn);
            ctx.max("convex_loss", (speed - vt) / speed);
            ctx.hit(if x < 7.0 { "flat_step" } else { "convex_step" });
        }
        if ctx.failed() { return; }
    }
    if crossed > 10 { ctx.hit("slid"); }
    ctx.distinct(sim.state_hash());
}
/// bodies pass a one-sided chain from behind and are stopped in front
fn c19_pass(ctx: &mut Ctx) {
    let tilt = ctx.rng.angle() as f64;
    let up = rot(tilt, V { x: 0.0, y: 1.0 });
    let mut sim = Sim::new(b2v(0.0, 0.0));
    let cont = ctx.rng.chance(0.6);
    sim.w.borrow_mut().set_continuous_physics(cont);
    let fx = Fx::mat(1.0, 0.0, 0.0);
    let mut pts = vec![];
    let mut x = 6.0;
    while x > -6.0 { pts.push(V { x, y: 0.0 }); x -= ctx.rng.f(0.4, 3.0) as f64; }
    pts.push(V { x: -8.0, y: 0.0 });
    let split = ctx.rng.chance(0.4);
    chain_body(&mut sim, &pts, &fx, tilt, Z, split);
    let (s, k, _) = flat_bottom(&mut ctx.rng);
    let front = ctx.rng.chance(0.5);
    let speed = ctx.rng.log(0.5, if cont { 60.0 } else { 3.0 });
    let side = if front { 1.0 } else { -1.0 };
    let p = up * (1.5 * side) + rot(tilt, V { x: ctx.rng.f(-1.0, 1.0) as f64, y: 0.0 });
    let mut def = Sim::def(DYNAMIC, b2(p), ctx.rng.angle());
    def.linear_velocity = b2(up * (-side * speed as f64));
    def.fixed_rotation = true;
    def.bullet = ctx.rng.chance(0.3);
    def.allow_sleep = false;
    let b = sim.add(def);
    sim.fixture(b, &s, k, &fx);
    if front && k != Kind::Circle {
        // a sharp corner landing on the join of two segments is passed from each to the other: not judged
        let t = Xf::of(sim.b(b).borrow().get_transform());
        let q: Vec<V> = children(&*s.borrow())[0].moved(&t).p.iter().map(|q| rot(-tilt, *q)).collect();
        let low = q.iter().fold(q[0], |m, q| if q.y < m.y { *q } else { m });
        if pts.iter().any(|p| (p.x - low.x).abs() < 0.1) { ctx.hit("corner_on_join"); return; }
    }
    let steps = ((3.5 / speed) * 60.0) as usize + 20;
    for n in 0..steps.min(600) {
        sim.step();
        ctx.evals += 1;
        let r = st(&sim.b(b));
        let h = r.c.dot(up);
        if front {
            ctx.check(h > -0.02, || format!("step {}: a body coming from the front got behind the chain: {} (speed {}, continuous {})", n, h, speed, cont));
        } else {
            ctx.check((r.v.dot(up) - speed as f64).abs() < 1e-4 * (1.0 + speed as f64), || format!("step {}: a body coming from behind at {} now moves at {} (height {}, {:?}, split {}, continuous {}, {} segments)", n, speed, r.v.dot(up), h, k, split, cont, pts.len() - 1));
            if ctx.failed() && ctx.verbose { for e in sim.take_events() { println!("{:?}", e); } println!("{:?}", pts); println!("{:?}", r); }
        }
        if ctx.failed() { return; }
    }
    let r = st(&sim.b(b));
    if front { ctx.check(r.v.dot(up).abs() < 0.02 * (1.0 + speed as f64), || format!("a body stopped in front of the chain still moves at {}", r.v.dot(up))); }
    else { ctx.check(r.c.dot(up) > 1.0, || format!("a body coming from behind did not pass: {}", r.c.dot(up))); }
    ctx.hit(if front { "stopped_in_front" } else { "passed_from_behind" });
    ctx.distinct(sim.state_hash());
}

// ------------------------------------------------------------------------------------------------ C27

fn body_cx(sim: &Sim, i: usize) -> Vec<Cx> {
    let b = sim.b(i);
    let t = Xf::of(b.borrow().get_transform());
    let mut v = vec![];
    for f in sim.bodies[i].f.iter() {
        let s = f.p.borrow().get_shape();
        for c in children(&*s) { v.push(c.moved(&t)); }
    }
    v
}
pub fn body_sep(sim: &Sim, i: usize, j: usize) -> f64 {
    let (a, b) = (body_cx(sim, i), body_cx(sim, j));
    let mut m = 1e9f64;
    for x in a.iter() { for y in b.iter() { m = m.min(separation(x, y)); } }
    m
}
/// level ground of one of several kinds, its top at height 0 in the frame turned by tilt
fn rand_ground(sim: &mut Sim, rng: &mut Rng, fx: &Fx, tilt: f64, half: f32) -> usize {
    match rng.below(4) {
        0 => {
            let b = sim.body(STATIC, b2v(0.0, 0.0), tilt as f32);
            sim.fixture(b, &rc(bx_at(half, 1.0, b2v(0.0, -1.0), 0.0)), Kind::Poly, fx);
            b
        }
        1 => {
            let b = sim.body(STATIC, b2v(0.0, 0.0), tilt as f32);
            sim.fixture(b, &rc(edge2(b2v(-half, 0.0), b2v(half, 0.0))), Kind::Edge, fx);
            b
        }
        2 => {
            let mut pts = vec![];
            let mut x = half as f64;
            while x > -half as f64 { pts.push(V { x, y: 0.0 }); x -= rng.f(0.6, 4.0) as f64; }
            pts.push(V { x: -half as f64 - 1.0, y: 0.0 });
            chain_body(sim, &pts, fx, tilt, Z, rng.chance(0.3))
        }
        _ => {
            // a kinematic slab that is not moving
            let b = sim.body(KINEMATIC, b2v(0.0, 0.0), tilt as f32);
            sim.fixture(b, &rc(bx_at(half, 0.5, b2v(0.0, -0.5), 0.0)), Kind::Poly, fx);
            b
        }
    }
}
/// a body dropped on the ground comes to rest on it without sinking or gaining energy
fn c27_drop(ctx: &mut Ctx) {
    let tilt = if ctx.rng.chance(0.5) { 0.0 } else { ctx.rng.angle() as f64 };
    let up = rot(tilt, V { x: 0.0, y: 1.0 });
    let g = ctx.rng.log(2.0, 30.0) as f64;
    let mut sim = Sim::new(b2(up * -g));
    sim.w.borrow_mut().set_continuous_physics(ctx.rng.chance(0.6));
    let sleep = ctx.rng.chance(0.3);
    sim.w.borrow_mut().set_allow_sleeping(sleep);
    sim.w.borrow_mut().set_warm_starting(!ctx.rng.chance(0.15));
    let mu = ctx.rng.f(0.2, 1.0);
    let e = if ctx.rng.chance(0.7) { 0.0 } else { ctx.rng.f(0.0, 0.5) };
    let gr = rand_ground(&mut sim, &mut ctx.rng, &Fx::mat(0.0, mu, 0.0), tilt, 40.0);
    let k = solid_kind(&mut ctx.rng);
    let size = ctx.rng.log(0.25, 1.5);
    let s = shape(&mut ctx.rng, k, size);
    let hgt = ctx.rng.f(0.0, 2.0) as f64;
    let mut def = Sim::def(DYNAMIC, b2v(0.0, 0.0), ctx.rng.angle());
    if k == Kind::Circle { def.linear_velocity = b2(up.perp() * ctx.rng.f(-2.0, 2.0) as f64); }
    let b = sim.add(def);
    sim.fixture(b, &s, k, &Fx::mat(ctx.rng.log(0.2, 5.0), mu, e));
    // put its lowest point hgt above the ground
    let cx = body_cx(&sim, b);
    let low = cx[0].p.iter().fold(1e9f64, |m, q| m.min(q.dot(up))) - cx[0].r;
    let p = up * (hgt - low);
    let a = sim.b(b).borrow().get_angle();
    sim.b(b).borrow_mut().set_transform(b2(p), a);
    let ext = cx[0].extent();
    let energy = |r: &St| 0.5 * r.m * r.v.dot(r.v) + 0.5 * r.i * r.w * r.w + r.m * g * r.c.dot(up);
    let r0 = st(&sim.b(b));
    if r0.m <= 0.0 || r0.i <= 0.0 { return; }
    let thin = r0.i < 0.02 * r0.m * ext * ext;
    let e0 = energy(&r0);
    let fall = (2.0 * g * (hgt + 2.0 * ext)).sqrt();
    // without continuous collision only bodies too slow to jump through the ground
    if fall / 60.0 > 0.25 * cx[0].center_depth() || (sim.bodies[gr].f[0].kind != Kind::Poly && k != Kind::Circle) { sim.w.borrow_mut().set_continuous_physics(true); }
    let total = if e > 0.0 { 900 } else { 600 };
    let (mut rest, mut worst) = (0, 0.0f64);
    for n in 0..total {
        sim.step();
        ctx.evals += 1;
        let r = st(&sim.b(b));
        if r.c.dot(up.perp()).abs() > 30.0 { ctx.hit("left_the_ground"); return; }
        let sep = body_sep(&sim, b, gr);
        worst = worst.min(sep);
        let tol = r0.m * (g * 0.03 + 0.02 * fall * fall);
        ctx.check(energy(&r) <= e0 + tol, || format!("step {}: energy rose from {} to {} (mass {}, g {})", n, e0, energy(&r), r0.m, g));
        // it may dip in by what it moves in a step and no more
        ctx.check(sep > -0.02 - 1.3 * fall / 60.0 - g / 900.0, || format!("step {}: sank {} into the ground (falling speed {}, continuous {}, moving at {} turning at {}, ground {:?}, depth {})", n, sep, fall, sim.w.borrow().get_continuous_physics(), r.v.len(), r.w, sim.bodies[gr].f[0].kind, cx[0].center_depth()));
        if n >= total - 60 {
            rest += 1;
            let slow = r.v.len() < 0.02 + 0.002 * g && (r.w * ext).abs() < 0.02 + 0.002 * g;
            // sharp or round bodies may rock or roll for long
            if !slow { ctx.hit("still_moving"); if k != Kind::Circle && !thin && ext < 1.2 && n == total - 1 && e == 0.0 {
                ctx.max("late_speed", r.v.len());
                ctx.check(r.v.len() < 0.3, || format!("a body dropped on the ground still moves at {} after ten seconds", r.v.len()));
            } }
            let vn = r.v.dot(up).abs();
            if slow {
                ctx.check(sep < 0.0251 && sep > -0.013 - 2e-4 * g, || format!("step {}: rests with separation {} from the ground", n, sep));
                ctx.check(vn < 0.02 + 0.018 * g, || format!("step {}: resting body moves at {} vertically", n, vn));
                ctx.max("rest_sep_hi", sep);
                ctx.max("rest_sep_lo", -sep);
                ctx.max("rest_vn", vn);
                ctx.hit("at_rest");
            } else if k == Kind::Circle {
                ctx.check(vn < 0.03 + 0.02 * g + 0.5 * e as f64, || format!("step {}: rolling ball moves at {} vertically", n, vn));
                ctx.check(sep < 0.03 + e as f64 && sep > -0.02, || format!("step {}: rolling ball at separation {}", n, sep));
                ctx.hit("rolling");
            }
        }
        if ctx.failed() { return; }
    }
    let _ = rest;
    ctx.distinct(sim.state_hash());
}
/// stacks, walls and pyramids of boxes stand still
fn c27_stack(ctx: &mut Ctx) {
    let g = ctx.rng.log(5.0, 20.0) as f64;
    let tilt = if ctx.rng.chance(0.5) { 0.0 } else { ctx.rng.angle() as f64 };
    let (up, right) = (rot(tilt, V { x: 0.0, y: 1.0 }), rot(tilt, V { x: 1.0, y: 0.0 }));
    let mut sim = Sim::new(b2(up * -g));
    sim.w.borrow_mut().set_continuous_physics(ctx.rng.chance(0.6));
    let sleep = ctx.rng.chance(0.3);
    sim.w.borrow_mut().set_allow_sleeping(sleep);
    let mu = ctx.rng.f(0.4, 1.0);
    let dens = ctx.rng.log(0.2, 5.0);
    let fx = Fx::mat(dens, mu, 0.0);
    let gr = rand_ground(&mut sim, &mut ctx.rng, &fx, tilt, 30.0);
    let (hx, hy) = (ctx.rng.f(0.5, 0.8), ctx.rng.f(0.25, 0.4));
    let what = ctx.rng.below(3);
    let rows = match what { 0 => ctx.rng.int(1, 5), 1 => ctx.rng.int(2, 5), _ => ctx.rng.int(1, 3) } as usize;
    let skin = 0.02f64;
    let gap = if ctx.rng.chance(0.5) || (what == 0 && rows > 3) { skin - 0.004 } else { skin + ctx.rng.f(0.0, 0.05) as f64 };
    let mut at: Vec<(usize, V, usize)> = vec![];
    let put = |sim: &mut Sim, at: &mut Vec<(usize, V, usize)>, rng: &mut Rng, x: f64, row: usize| {
        let y = gap + hy as f64 + row as f64 * (2.0 * hy as f64 + gap);
        let p = right * x + up * y;
        // boxes or flat-bottomed prisms
        let b = sim.body(DYNAMIC, b2(p), (tilt + if rng.chance(0.3) { std::f64::consts::PI } else { 0.0 }) as f32);
        sim.fixture(b, &rc(bx(hx, hy)), Kind::Poly, &fx);
        at.push((b, p, row));
    };
    for r in 0..rows {
        match what {
            0 => { let j = ctx.rng.f(-0.1, 0.1) as f64 * hx as f64; put(&mut sim, &mut at, &mut ctx.rng, j, r) }
            1 => for c in 0..rows - r { put(&mut sim, &mut at, &mut ctx.rng, (c as f64 - 0.5 * (rows - r - 1) as f64) * 2.2 * hx as f64, r) },
            _ => for c in 0..2 { put(&mut sim, &mut at, &mut ctx.rng, (c as f64 * 2.0 - 1.0) * 2.0 * hx as f64, r) },
        }
    }
    // other piles on the same ground, which have nothing to do with this one
    if what != 2 && ctx.rng.chance(0.5) {
        let side = ctx.rng.sign() as f64;
        for q in 1..=ctx.rng.int(1, 2) {
            let h = ctx.rng.int(1, 5) as usize;
            for r in 0..h { for c in 0..h - r { put(&mut sim, &mut at, &mut ctx.rng, side * 10.0 * q as f64 + (c as f64 - 0.5 * (h - r - 1) as f64) * 2.2 * hx as f64, r) } }
        }
        ctx.hit("several_piles");
    }
    if what == 2 {
        // a plank on two pillars, and a box on it
        let y = gap + rows as f64 * (2.0 * hy as f64 + gap) + 0.2;
        let p = up * y;
        let b = sim.body(DYNAMIC, b2(p), tilt as f32);
        sim.fixture(b, &rc(bx(2.0 * hx + 0.3, 0.2)), Kind::Poly, &fx);
        at.push((b, p, rows));
        let p = p + up * (0.2 + hy as f64 + gap) + right * (ctx.rng.f(-0.5, 0.5) as f64);
        let b = sim.body(DYNAMIC, b2(p), tilt as f32);
        sim.fixture(b, &rc(bx(hx, hy)), Kind::Poly, &fx);
        at.push((b, p, rows + 1));
    }
    let n_steps = 420;
    let mut settled: Vec<St> = vec![];
    // once settled, the pile also stands through steps of changing length
    let vary = ctx.rng.chance(0.4);
    if vary { ctx.hit("uneven_steps"); }
    for n in 0..n_steps {
        if vary && n > 200 { sim.dt = ctx.rng.f(0.004, 0.0167); }
        sim.step();
        ctx.evals += 1;
        if n == 239 { settled = at.iter().map(|(b, _, _)| st(&sim.b(*b))).collect(); }
        if n < 240 { continue; }
        for (j, (b, p, row)) in at.iter().enumerate() {
            let r = st(&sim.b(*b));
            let moved = (r.p - *p).dot(right).abs();
            let drift = (r.p - settled[j].p).dot(right).abs();
            let turn = wrap_pi(r.a - settled[j].a).abs();
            ctx.check(drift < 0.02 && turn < 0.01, || format!("step {}: box of row {} of {} drifts by {} and turns by {} since it settled (g {}, mu {})", n, row, rows, drift, turn, g, mu));
            ctx.check(moved < 0.2, || format!("step {}: box of row {} moved sideways by {}", n, row, moved));
            ctx.check(r.v.len() < 0.12 && r.w.abs() < 0.2, || format!("step {}: box of row {} moves at {} and turns at {}", n, row, r.v.len(), r.w));
            ctx.max("stack_drift", drift);
            ctx.max("stack_moved", moved);
            ctx.max("stack_turn", turn);
            ctx.max("stack_speed", r.v.len());
            ctx.hit("standing");
        }
        if ctx.failed() { return; }
    }
    // no box sank into what is under it
    for (j, (b, _, row)) in at.iter().enumerate() {
        if *row == 0 {
            let s = body_sep(&sim, *b, gr);
            ctx.max("ground_gap_lo", -s);
            ctx.check(s > -0.016 && s < 0.021 + 0.001, || format!("box on the ground rests with separation {}", s));
        }
        for (b2i, _, _) in at.iter().skip(j + 1) {
            let s = body_sep(&sim, *b, *b2i);
            ctx.max("box_gap_lo", -s);
            ctx.check(s > -0.02, || format!("resting boxes overlap by {}", s));
        }
    }
    // weight is carried
    ctx.hit(match what { 0 => "tower", 1 => "pyramid", _ => "bridge" });
    ctx.distinct(sim.state_hash());
}
/// friction decides whether a block on a slope stays or slides, and how fast
fn c27_slope(ctx: &mut Ctx) {
    let mu = ctx.rng.f(0.1, 0.9) as f64;
    let stays = ctx.rng.chance(0.5);
    let tan = mu * if stays { ctx.rng.f(0.0, 0.9) as f64 } else { ctx.rng.f(1.15, 2.5) as f64 };
    let theta = tan.atan() * ctx.rng.sign() as f64;
    let base = if ctx.rng.chance(0.5) { 0.0 } else { ctx.rng.angle() as f64 };
    let tilt = base + theta;
    let (n_, t_) = (rot(tilt, V { x: 0.0, y: 1.0 }), rot(tilt, V { x: 1.0, y: 0.0 }));
    let g = ctx.rng.log(4.0, 20.0) as f64;
    let gv = rot(base, V { x: 0.0, y: -g });
    let mut sim = Sim::new(b2(gv));
    sim.w.borrow_mut().set_continuous_physics(ctx.rng.chance(0.6));
    sim.w.borrow_mut().set_allow_sleeping(stays && ctx.rng.chance(0.3));
    // the two coefficients mix to mu
    let q = ctx.rng.f(0.5, 2.0) as f64;
    let (m1, m2) = ((mu * q) as f32, (mu / q) as f32);
    rand_ground(&mut sim, &mut ctx.rng, &Fx::mat(0.0, m1, 0.0), tilt, 60.0);
    let hy = ctx.rng.f(0.1, 0.3);
    let hx = hy * ctx.rng.f(4.0, 8.0);
    let p = n_ * (hy as f64 + 0.0155);
    let mut def = Sim::def(DYNAMIC, b2(p), tilt as f32);
    let v0 = if stays { 0.0 } else { ctx.rng.f(0.0, 2.0) as f64 * if theta >= 0.0 { -1.0 } else { 1.0 } };
    def.linear_velocity = b2(t_ * v0);
    let b = sim.add(def);
    sim.fixture(b, &rc(bx(hx, hy)), Kind::Poly, &Fx::mat(ctx.rng.log(0.2, 5.0), m2, 0.0));
    let pull = gv.dot(t_);
    let acc = pull - pull.signum() * mu * -gv.dot(n_);
    let mut p0 = st(&sim.b(b));
    let steps = 150;
    let vary = ctx.rng.chance(0.4);
    let mut t = 0.0;
    for n in 0..steps {
        if vary && n > 19 { sim.dt = if ctx.rng.chance(0.5) { 1.0 / 60.0 } else { ctx.rng.f(0.004, 0.0167) }; ctx.hit("uneven_slope"); }
        sim.step();
        ctx.evals += 1;
        let r = st(&sim.b(b));
        if n == 19 { p0 = r; }
        if n > 19 { t += sim.dt as f64; }
        if n < 20 { continue; }
        ctx.check(wrap_pi(r.a - tilt).abs() < 0.02, || format!("step {}: block on a slope turned by {}", n, wrap_pi(r.a - tilt)));
        ctx.check(r.v.dot(n_).abs() < 0.02 + 0.001 * g, || format!("step {}: block on a slope moves at {} off it", n, r.v.dot(n_)));
        let slid = (r.p - p0.p).dot(t_);
        if stays {
            ctx.check(slid.abs() < 0.002, || format!("step {}: block slid by {} on a slope of tangent {} with friction {} (g {})", n, slid, tan, mu, g));
            ctx.max("stay_slide", slid.abs());
            ctx.hit("stays");
        } else {
            let want = p0.v.dot(t_) + acc * t;
            let vt = r.v.dot(t_);
            ctx.check((vt - want).abs() < 0.01 + 0.03 * acc.abs() * t, || format!("step {}: block sliding for {} s has speed {} expected {} (slope {}, friction {})", n, t, vt, want, tan, mu));
            ctx.max("slide_error", (vt - want).abs() / (0.01 + acc.abs() * t));
            ctx.hit("slides");
            if (r.p).dot(t_).abs() > 50.0 { break; }
        }
        if ctx.failed() { return; }
    }
    ctx.distinct(sim.state_hash());
}
/// bodies that start inside each other are pushed apart gently
fn c27_overlap(ctx: &mut Ctx) {
    let mut sim = Sim::new(b2v(0.0, 0.0));
    sim.w.borrow_mut().set_allow_sleeping(false);
    let ka = solid_kind(&mut ctx.rng);
    let kb = solid_kind(&mut ctx.rng);
    // also large bodies deep inside each other, which come apart slowly
    let deep = ctx.rng.chance(0.2);
    let k = if deep { 8.0 } else { 1.0 };
    sim.w.borrow_mut().set_continuous_physics(!deep && ctx.rng.chance(0.5));
    let (sa, sb) = (k * ctx.rng.f(0.4, 1.2), k * ctx.rng.f(0.4, 1.2));
    let (s1, s2) = (shape(&mut ctx.rng, ka, sa), shape(&mut ctx.rng, kb, sb));
    let ta = ctx.rng.xf(3.0);
    let depth = k as f64 * ctx.rng.f(0.05, 0.35) as f64;
    let (c1, c2) = (children(&*s1.borrow())[0].clone(), children(&*s2.borrow())[0].clone());
    let tb = crate::p_manifold::place_gap(&mut ctx.rng, &c1, ta, &c2, -depth);
    let t1 = if ctx.rng.chance(0.5) { STATIC } else { DYNAMIC };
    let a = sim.body(t1, ta.p, ta.q.get_angle());
    let b = sim.body(DYNAMIC, tb.p, tb.q.get_angle());
    let e = if ctx.rng.chance(0.5) { 0.0 } else { ctx.rng.f(0.0, 1.0) };
    let fx = Fx::mat(ctx.rng.log(0.3, 3.0), ctx.rng.f(0.0, 1.0), e);
    sim.fixture(a, &s1, ka, &fx);
    sim.fixture(b, &s2, kb, &fx);
    let sep0 = body_sep(&sim, a, b);
    if sep0 > -0.03 || sep0 < -0.5 * k as f64 { ctx.hit("placed_badly"); return; }
    if deep { ctx.hit("deep"); }
    let (mut last, mut lp) = (sep0, [st(&sim.b(a)), st(&sim.b(b))]);
    let slop = 0.005;
    let mut freed = None;
    for n in 0..120 {
        sim.step();
        ctx.evals += 1;
        let r = [st(&sim.b(a)), st(&sim.b(b))];
        for j in 0..2 {
            let moved = (r[j].c - lp[j].c).len();
            ctx.check(r[j].v.len() < 1e-3 && r[j].w.abs() < 1e-2, || format!("step {}: a body pushed out of another got speed {} and spin {}", n, r[j].v.len(), r[j].w));
            ctx.check(moved < if deep { 1.25 } else { 0.65 }, || format!("step {}: a body pushed out of another jumped by {} (overlap {})", n, moved, last));
            ctx.max(if deep { "push_move_deep" } else { "push_move" }, moved);
            ctx.max("push_speed", r[j].v.len());
            lp[j] = r[j];
        }
        let s = body_sep(&sim, a, b);
        ctx.check(s < 0.021 - 0.8 * sep0, || format!("step {}: bodies overlapping by {} pushed apart to a gap of {}", n, -sep0, s));
        ctx.max("push_gap", (s - 0.021) / -sep0);
        last = s;
        if freed.is_none() && s > -3.2 * slop { freed = Some(n); }
        if ctx.failed() { return; }
    }
    ctx.check(last > -4.0 * slop, || format!("bodies overlapping by {} still overlap by {} after two seconds ({:?} {:?})", -sep0, -last, ka, kb));
    if let Some(n) = freed { ctx.max("push_steps", n as f64); ctx.hit("pushed_apart"); }
    ctx.distinct(sim.state_hash());
}

// ------------------------------------------------------------------------------------------------ C28

/// a closed room of thin walls: the corners, counter-clockwise
fn room(rng: &mut Rng) -> Vec<V> {
    let small = rng.chance(0.3);
    let n = rng.int(if small { 4 } else { 3 }, 8) as usize;
    let r = if small { rng.log(1.2, 3.0) } else { rng.log(3.0, 20.0) } as f64;
    let a0 = rng.angle() as f64;
    (0..n).map(|i| { let a = a0 + i as f64 * 2.0 * std::f64::consts::PI / n as f64; V { x: r * a.cos(), y: r * a.sin() * 0.8 } }).collect()
}
/// how far a point lies outside a convex room
fn outside(pts: &[V], q: V) -> f64 {
    let n = pts.len();
    let mut m = -1e9f64;
    for i in 0..n {
        let e = (pts[(i + 1) % n] - pts[i]).norm();
        m = m.max((q - pts[i]).dot(V { x: e.y, y: -e.x }));
    }
    m
}
fn small_solid(rng: &mut Rng) -> (ShapeDefPtr, Kind) {
    let k = solid_kind(rng);
    match rng.below(3) {
        0 => { let r = rng.log(0.05, 0.4); (rc(circle(b2v(0.0, 0.0), r)), Kind::Circle) }
        1 => { let (x, y) = (rng.log(0.06, 0.4), rng.log(0.06, 0.4)); (rc(bx(x, y)), Kind::Poly) }
        _ => { let z = rng.log(0.2, 0.5); (shape(rng, k, z), k) }
    }
}
fn walls(sim: &mut Sim, rng: &mut Rng, pts: &[V], org: V, fx: &Fx, t: B2bodyType) -> (usize, &'static str) {
    let n = pts.len();
    let b = sim.body(t, b2(org), 0.0);
    let p: Vec<B2vec2> = pts.iter().map(|q| b2(*q)).collect();
    let how = match rng.below(4) {
        0 => {
            for i in 0..n { sim.fixture(b, &rc(edge2(p[i], p[(i + 1) % n])), Kind::Edge, fx); }
            "edges"
        }
        1 => {
            // clockwise order turns the front to the inside
            let mut q = p.clone();
            q.reverse();
            let mut c = B2chainShape::default();
            c.create_loop(&q);
            sim.fixture(b, &rc(c), Kind::Chain, fx);
            "loop"
        }
        2 => {
            for i in 0..n {
                let (u, v) = (pts[i], pts[(i + 1) % n]);
                let (m, e) = ((u + v) * 0.5, v - u);
                let th = rng.log(0.006, 0.1);
                sim.fixture(b, &rc(bx_at((0.5 * e.len()) as f32 + 0.5 * th, th, b2(m), e.y.atan2(e.x) as f32)), Kind::Poly, fx);
            }
            "boxes"
        }
        _ => {
            for i in 0..n {
                let mut e = B2edgeShape::default();
                e.set_one_sided(p[(i + 2) % n], p[(i + 1) % n], p[i], p[(i + n - 1) % n]);
                sim.fixture(b, &rc(e), Kind::OneSided, fx);
            }
            "one-sided"
        }
    };
    (b, how)
}
fn c28_room(ctx: &mut Ctx) {
    let pts = room(&mut ctx.rng);
    let small = pts[0].len().max(pts[1].len()) < 3.0;
    let org = if ctx.rng.chance(0.5) { Z } else { d(ctx.rng.vec(50.0)) };
    let g = if ctx.rng.chance(0.5) { b2v(0.0, 0.0) } else { ctx.rng.vec(20.0) };
    let mut sim = Sim::new(g);
    sim.w.borrow_mut().set_sub_stepping(false);
    sim.dt = *ctx.rng.pick(&[1.0f32 / 60.0, 1.0 / 60.0, 1.0 / 30.0, 1.0 / 120.0]);
    // in a small room it rattles from wall to wall, many times in the life of each contact
    let rattle = small && ctx.rng.chance(0.7);
    let mut fx = Fx::mat(1.0, if rattle { 0.0 } else { ctx.rng.f(0.0, 1.0) }, if rattle { ctx.rng.f(0.9, 1.0) } else if ctx.rng.chance(0.5) { 0.0 } else { ctx.rng.f(0.0, 1.0) });
    let alone = ctx.rng.chance(0.8);
    let wt = if ctx.rng.chance(0.7) { STATIC } else { KINEMATIC };
    let (room_b, how) = walls(&mut sim, &mut ctx.rng, &pts, org, &fx, wt);
    let top = 2.0 / sim.dt;
    // a room on the move
    let moving = wt == KINEMATIC && ctx.rng.chance(0.7);
    let rv = if moving { ctx.rng.log(0.5, 0.4 * top) * ctx.rng.dir() } else { b2v(0.0, 0.0) };
    if moving { sim.b(room_b).borrow_mut().set_linear_velocity(rv); }
    if alone { fx.filter.group_index = -1; }
    let n = ctx.rng.int(1, 5) as usize;
    let mut bs = vec![];
    for _ in 0..n {
        let (s, k) = if small { let r = ctx.rng.log(0.05, 0.2); if ctx.rng.chance(0.6) { (rc(circle(b2v(0.0, 0.0), r)), Kind::Circle) } else { (rc(bx(r, r)), Kind::Poly) } } else { small_solid(&mut ctx.rng) };
        let q = org + d(ctx.rng.vec(0.4)) * (pts[0].len() * 0.5);
        let mut def = Sim::def(DYNAMIC, b2(q), ctx.rng.angle());
        let sp = if rattle { top * ctx.rng.f(0.3, 1.0) } else { ctx.rng.log(1.0, top * if moving { 0.6 } else { 1.2 }) };
        def.linear_velocity = sp * ctx.rng.dir() + rv;
        def.angular_velocity = match ctx.rng.below(4) { 0 => ctx.rng.sign() * ctx.rng.log(0.5, 1.5 / sim.dt), 1 => ctx.rng.f(-0.2, 0.2) / sim.dt, _ => 0.0 };
        def.bullet = ctx.rng.chance(0.3);
        def.fixed_rotation = ctx.rng.chance(0.3);
        let b = sim.add(def);
        fx.density = ctx.rng.log(0.3, 3.0);
        sim.fixture(b, &s, k, &fx);
        bs.push(b);
    }
    let mut hits = 0u64;
    let mut spin = vec![0.0f64; n];
    for step in 0..60 {
        let was: Vec<St> = bs.iter().map(|b| st(&sim.b(*b))).collect();
        let org0 = d(sim.b(room_b).borrow().get_position());
        sim.step();
        ctx.evals += 1;
        let org = d(sim.b(room_b).borrow().get_position());
        let ev = sim.take_events();
        hits += ev.iter().filter(|e| matches!(e, Ev::Begin(..))).count() as u64;
        for (j, b) in bs.iter().enumerate() {
            let r = st(&sim.b(*b));
            let o = outside(&pts, r.c - org);
            if !alone && o >= 0.05 { ctx.hit("pushed_out_by_others"); return; }
            // a corner swinging through a large angle within one step may be missed
            spin[j] = spin[j].max(r.w.abs().max(was[j].w.abs()) * sim.dt as f64);
            if o >= 0.05 && spin[j] > 0.25 && sim.bodies[*b].f[0].kind != Kind::Circle { ctx.hit("spun_out"); return; }
            ctx.max("outside", o);
            if !ctx.check(o < 0.1, || format!("step {}: the centre of a body is {} outside the room of {} ({:?} alone {} small {} room moving at {} bullet {} speed {} before {} turn per step {} before {}, was {} inside)", step, o, how, sim.bodies[*b].f[0].kind, alone, small, d(rv).len(), sim.b(*b).borrow().is_bullet(), r.v.len(), was[j].v.len(), r.w * sim.dt as f64, was[j].w * sim.dt as f64, -outside(&pts, was[j].c - org0))) { return; }
        }
        if step % 10 == 9 && ctx.rng.chance(0.5) {
            // throw it again
            let b = *ctx.rng.pick(&bs);
            let v = top * if moving { 0.6 } else { 1.2 } * ctx.rng.dir() + rv;
            sim.b(b).borrow_mut().set_linear_velocity(v);
            let w = ctx.rng.f(-0.2, 0.2) / sim.dt;
            sim.b(b).borrow_mut().set_angular_velocity(w);
        }
    }
    ctx.add("wall_hits", hits);
    ctx.hit(how);
    if rattle { ctx.hit("rattled"); }
    if moving { ctx.hit("moving_room"); }
    ctx.hit(if alone { "alone" } else { "crowded" });
    ctx.distinct(sim.state_hash());
}

/// a bullet does not get through a moving plate, nor a plain body through a moving kinematic wall
fn c28_plate(ctx: &mut Ctx) {
    let base = ctx.rng.angle() as f64;
    let (n_, t_) = (rot(base, V { x: 0.0, y: 1.0 }), rot(base, V { x: 1.0, y: 0.0 }));
    let org = d(ctx.rng.vec(20.0));
    let mut sim = Sim::new(b2v(0.0, 0.0));
    sim.dt = *ctx.rng.pick(&[1.0f32 / 60.0, 1.0 / 60.0, 1.0 / 30.0]);
    let top = 1.8 / sim.dt;
    let fx = Fx::mat(1.0, ctx.rng.f(0.0, 0.5), if ctx.rng.chance(0.5) { 0.0 } else { ctx.rng.f(0.0, 0.8) });
    let kin = ctx.rng.chance(0.5);
    let half = ctx.rng.f(3.0, 8.0);
    let th = ctx.rng.log(0.01, 0.2);
    let mut def = Sim::def(if kin { KINEMATIC } else { DYNAMIC }, b2(org), base as f32);
    let pv = if kin { ctx.rng.log(1.0, top) as f64 } else if ctx.rng.chance(0.5) { 0.0 } else { ctx.rng.f(-5.0, 5.0) as f64 };
    def.linear_velocity = b2(n_ * pv);
    if !kin { def.bullet = ctx.rng.chance(0.3); }
    let plate = sim.add(def);
    let mut pf = fx.clone();
    pf.density = ctx.rng.f(5.0, 50.0) / th;
    if kin && ctx.rng.chance(0.4) { sim.fixture(plate, &rc(edge2(b2v(-half, 0.0), b2v(half, 0.0))), Kind::Edge, &pf); } else { sim.fixture(plate, &rc(bx(half, th)), Kind::Poly, &pf); }
    let (s, k) = small_solid(&mut ctx.rng);
    let dist = ctx.rng.f(1.0, 6.0) as f64;
    let x = ctx.rng.f(-0.3, 0.3) as f64 * half as f64;
    let mut def = Sim::def(DYNAMIC, b2(org + n_ * dist + t_ * x), ctx.rng.angle());
    // relative approach no faster than the speed limit
    let v = if kin { if ctx.rng.chance(0.5) { 0.0 } else { ctx.rng.f(0.0, (top - pv as f32).max(0.0)) as f64 } } else { ctx.rng.log(8.0, top) as f64 };
    def.linear_velocity = b2(n_ * -v);
    def.angular_velocity = if ctx.rng.chance(0.5) { 0.0 } else { ctx.rng.f(-20.0, 20.0) };
    def.bullet = !kin || ctx.rng.chance(0.2);
    let b = sim.add(def);
    sim.fixture(b, &s, k, &fx);
    let steps = (dist / ((v + pv).max(1.0) * sim.dt as f64)) as usize + 6;
    let mut hit = false;
    for n in 0..steps {
        sim.step();
        ctx.evals += 1;
        for e in sim.take_events() { if let Ev::Begin(..) = e { hit = true; } }
        let t = Xf::of(sim.b(plate).borrow().get_transform());
        let q = t.inv_mul(d(sim.b(b).borrow().get_world_center()));
        if q.x.abs() > half as f64 - 1.0 { break; }
        ctx.check(q.y > -0.02, || format!("step {}: {:?} at {} passed through a {} plate of half thickness {} moving at {}: it is {} behind", n, k, v, if kin { "kinematic" } else { "dynamic" }, th, pv, -q.y));
        if ctx.failed() { return; }
    }
    if hit { ctx.hit(if kin { "kinematic_plate" } else { "bullet_plate" }); }
    ctx.distinct(sim.state_hash());
}
/// bodies bouncing between a wall that stands and one that moves
/// how deep a body is in a wall, seen along the wall's normal n
fn sup(sim: &Sim, b: usize, n: V, wall: usize) -> f64 {
    let (x, w) = (&body_cx(sim, b)[0], &body_cx(sim, wall)[0]);
    x.p.iter().fold(-1e9f64, |m, q| m.max(q.dot(n))) - w.p.iter().fold(1e9f64, |m, q| m.min(q.dot(n))) + if x.p.len() == 1 { x.r } else { 0.0 }
}
fn c28_corridor(ctx: &mut Ctx) {
    let base = ctx.rng.angle() as f64;
    let (n_, t_) = (rot(base, V { x: 0.0, y: 1.0 }), rot(base, V { x: 1.0, y: 0.0 }));
    let mut sim = Sim::new(b2v(0.0, 0.0));
    sim.dt = *ctx.rng.pick(&[1.0f32 / 60.0, 1.0 / 60.0, 1.0 / 30.0]);
    let top = 2.0 / sim.dt;
    let mut fx = Fx::mat(1.0, 0.0, ctx.rng.f(0.7, 1.0));
    fx.filter.group_index = -1;
    let wf = Fx::mat(1.0, 0.0, 0.0);
    let height = ctx.rng.f(1.8, 5.0) as f64;
    // closing in or moving off
    let pv = if ctx.rng.chance(0.5) { ctx.rng.f(0.1, 0.5) * top } else { ctx.rng.log(1.0, 0.4 * top) } as f64 * ctx.rng.sign() as f64;
    let first = ctx.rng.chance(0.5);
    let thin = ctx.rng.chance(0.5);
    let wall = |sim: &mut Sim, rng: &mut Rng, t: B2bodyType, h: f64| {
        let b = sim.body(t, b2(n_ * h), base as f32);
        if rng.chance(0.4) { sim.fixture(b, &rc(edge2(b2v(-60.0, 0.0), b2v(60.0, 0.0))), Kind::Edge, &wf); } else { sim.fixture(b, &rc(bx(60.0, if thin { 0.01 } else { 0.1 })), Kind::Poly, &wf); }
        b
    };
    let (mut plate, mut floor) = (0, 0);
    if first { floor = wall(&mut sim, &mut ctx.rng, STATIC, 0.0); plate = wall(&mut sim, &mut ctx.rng, KINEMATIC, height); }
    let mut bs = vec![];
    for _ in 0..ctx.rng.int(1, 3) {
        let mut def = Sim::def(DYNAMIC, b2(n_ * (ctx.rng.f(0.25, 0.75) as f64 * height) + t_ * ctx.rng.f(-2.0, 2.0) as f64), ctx.rng.angle());
        def.linear_velocity = b2(n_ * (top as f64 * ctx.rng.sign() as f64 * ctx.rng.f(0.3, 1.0) as f64) + t_ * ctx.rng.f(-10.0, 10.0) as f64);
        def.fixed_rotation = true;
        def.bullet = ctx.rng.chance(0.3);
        let b = sim.add(def);
        let z = ctx.rng.log(0.04, 0.3);
        let k = *ctx.rng.pick(&[Kind::Circle, Kind::Poly, Kind::Poly]);
        if k == Kind::Circle { sim.fixture(b, &rc(circle(b2v(0.0, 0.0), z)), k, &fx); } else { sim.fixture(b, &rc(bx(z, z)), k, &fx); }
        bs.push(b);
    }
    if !first { plate = wall(&mut sim, &mut ctx.rng, KINEMATIC, height); floor = wall(&mut sim, &mut ctx.rng, STATIC, 0.0); }
    sim.b(plate).borrow_mut().set_linear_velocity(b2(n_ * pv));
    let mut hits = 0;
    for n in 0..40 {
        sim.step();
        ctx.evals += 1;
        hits += sim.take_events().iter().filter(|e| matches!(e, Ev::Begin(..))).count();
        let lid = d(sim.b(plate).borrow().get_position()).dot(n_);
        if lid < 1.2 { break; }
        for b in bs.iter() {
            let r = st(&sim.b(*b));
            if r.c.dot(t_).abs() > 50.0 { return; }
            let h = r.c.dot(n_);
            let deep = sup(&sim, *b, n_ * -1.0, floor).max(sup(&sim, *b, n_, plate));
            ctx.max("corridor_overlap", deep);
            ctx.check(deep < 0.03, || format!("step {}: {:?} with velocity {:?} is {} deep in a wall (moving at {}; walls made first: {}, thin {})", n, sim.bodies[*b].f[0].kind, r.v, deep, pv, first, thin));
            ctx.check(h > -0.02 && h < lid + 0.02, || format!("step {}: {:?} with velocity {:?} is at height {} between walls at 0 and {} (moving at {}; walls made first: {}, thin {})", n, sim.bodies[*b].f[0].kind, r.v, h, lid, pv, first, thin));
        }
        if ctx.failed() { return; }
    }
    ctx.add("corridor_hits", hits as u64);
    ctx.hit(if pv > 0.0 { "wall_leaving" } else { "wall_closing" });
    ctx.distinct(sim.state_hash());
}
/// nothing obstructs what must not be obstructed
fn c28_free(ctx: &mut Ctx) {
    let base = ctx.rng.angle() as f64;
    let (n_, t_) = (rot(base, V { x: 0.0, y: 1.0 }), rot(base, V { x: 1.0, y: 0.0 }));
    let mut sim = Sim::new(b2v(0.0, 0.0));
    sim.w.borrow_mut().set_allow_sleeping(false);
    let what = ctx.rng.below(6);
    let mut wf = Fx::mat(1.0, 0.5, 0.3);
    let mut bf = Fx::mat(1.0, 0.5, 0.3);
    let speed = if what == 0 { 100.0 } else { ctx.rng.log(1.0, 115.0) } as f64;
    match what {
        0 => sim.w.borrow_mut().set_continuous_physics(false),
        1 => wf.sensor = true,
        2 => bf.sensor = true,
        3 => if ctx.rng.chance(0.5) { wf.filter.group_index = -4; bf.filter.group_index = -4; } else { wf.filter.mask_bits = 2; },
        4 => sim.ev.borrow_mut().pre_hook = Some(Box::new(|c, _| c.set_enabled(false))),
        _ => {}
    }
    let (wt, dyn_wall) = if ctx.rng.chance(0.7) { (STATIC, false) } else if ctx.rng.chance(0.5) { (KINEMATIC, false) } else { (DYNAMIC, true) };
    let w = sim.body(wt, b2v(0.0, 0.0), base as f32);
    sim.fixture(w, &rc(bx(10.0, 0.02)), Kind::Poly, &wf);
    let (s, k) = match ctx.rng.below(2) { 0 => (rc(circle(b2v(0.0, 0.0), 0.1)), Kind::Circle), _ => (rc(bx(0.1, 0.1)), Kind::Poly) };
    // with continuous collision off: steps straddle the wall
    let dist = if what == 0 { 2.5 * speed / 60.0 } else { ctx.rng.f(0.6, 4.0) as f64 };
    let mut def = Sim::def(DYNAMIC, b2(n_ * dist + t_ * (ctx.rng.f(-3.0, 3.0) as f64)), ctx.rng.angle());
    def.linear_velocity = b2(n_ * -speed);
    def.bullet = ctx.rng.chance(0.5);
    let b = sim.add(def);
    sim.fixture(b, &s, k, &bf);
    if what == 5 {
        // linked bodies do not collide
        let mut f = B2motorJointDef::default();
        f.base = sim.jbase(B2jointType::EMotorJoint, w, b, false);
        f.max_force = 0.0;
        f.max_torque = 0.0;
        sim.joint(B2JointDefEnum::MotorJoint(f), JK::Motor, w, b, false);
    }
    let (p0, w0) = (st(&sim.b(b)), st(&sim.b(w)));
    let steps = ((2.0 * dist) / speed * 60.0) as usize + 2;
    let h = sim.dt as f64;
    for n in 1..=steps {
        sim.step();
        ctx.evals += 1;
        let r = st(&sim.b(b));
        let want = p0.c + p0.v * (h * n as f64);
        ctx.check((r.c - want).len() < 1e-4 * (1.0 + dist) && (r.v - p0.v).len() < 1e-5 * (1.0 + speed), || format!("step {}: a body that nothing should stop (case {}) is {} off its straight path with velocity {:?} of {:?}", n, what, (r.c - want).len(), r.v, p0.v));
        if dyn_wall { let q = st(&sim.b(w)); ctx.check((q.c - w0.c).len() < 1e-9 && q.v.len() == 0.0, || format!("step {}: a wall that should not be hit (case {}) moved", n, what)); }
        if ctx.failed() { return; }
    }
    let r = st(&sim.b(b));
    ctx.check(r.c.dot(n_) < -0.3, || "did not pass".into());
    ctx.hit(["continuous_off", "sensor_wall", "sensor_body", "filtered", "disabled", "linked"][what]);
    ctx.distinct(sim.state_hash());
}
/// a fast ball bounces off a thin wall with the right speed and on the right side
fn c28_bounce(ctx: &mut Ctx) {
    let placed = ctx.rng.chance(0.3);
    bounce(ctx, placed);
}
/// ... also off a wall that was put there from elsewhere
pub fn bounce(ctx: &mut Ctx, placed: bool) {
    let base = ctx.rng.angle() as f64;
    let (n_, t_) = (rot(base, V { x: 0.0, y: 1.0 }), rot(base, V { x: 1.0, y: 0.0 }));
    let mut sim = Sim::new(b2v(0.0, 0.0));
    sim.w.borrow_mut().set_allow_sleeping(false);
    sim.vi = ctx.rng.int(1, 10);
    let e = if ctx.rng.chance(0.3) { 0.0 } else { ctx.rng.f(0.0, 1.0) };
    let fx = Fx::mat(1.0, 0.0, e);
    let wt = if placed && ctx.rng.chance(0.3) { KINEMATIC } else { STATIC };
    let w = if placed { let (p, a) = (ctx.rng.vec(20.0), ctx.rng.angle()); sim.body(wt, p, a) } else { sim.body(wt, b2v(0.0, 0.0), base as f32) };
    if ctx.rng.chance(0.5) { sim.fixture(w, &rc(edge2(b2v(-40.0, 0.0), b2v(40.0, 0.0))), Kind::Edge, &fx); } else { sim.fixture(w, &rc(bx(40.0, 0.01)), Kind::Poly, &fx); }
    let r = ctx.rng.log(0.05, 0.5);
    let vn = ctx.rng.log(2.0, 100.0) as f64;
    let vt = if ctx.rng.chance(0.5) { 0.0 } else { ctx.rng.f(-20.0, 20.0) as f64 };
    let dist = r as f64 + ctx.rng.f(0.1, 5.0) as f64;
    let mut def = Sim::def(DYNAMIC, b2(n_ * dist - t_ * 10.0 * (if vt == 0.0 { 0.0 } else { vt.signum() })), 0.0);
    def.linear_velocity = b2(n_ * -vn + t_ * vt);
    def.bullet = ctx.rng.chance(0.3);
    if placed {
        for _ in 0..ctx.rng.int(0, 2) { sim.step(); }
        sim.b(w).borrow_mut().set_transform(b2v(0.0, 0.0), base as f32);
        ctx.hit("placed_wall");
    }
    let (p0, v0) = (d(def.position), d(def.linear_velocity));
    let b = sim.add(def);
    sim.fixture(b, &rc(circle(b2v(0.0, 0.0), r)), Kind::Circle, &fx);
    let steps = (dist / vn * 60.0) as usize + 3;
    let mut touched = false;
    for n in 0..steps {
        sim.step();
        ctx.evals += 1;
        let q = st(&sim.b(b));
        for ev in sim.take_events() { if let Ev::Begin(..) = ev { touched = true; } }
        // nothing is in its way before it gets there
        let free = p0 + v0 * ((n + 1) as f64 / 60.0);
        if free.dot(n_) > r as f64 + 0.06 { ctx.check((q.c - free).len() < 1e-4 * (1.0 + dist + vt.abs()) && (q.v - v0).len() < 1e-4 * (1.0 + vn), || format!("step {}: a ball on its way to a wall is at {:?} with velocity {:?}, expected {:?} and {:?} (wall placed there: {})", n, q.c, q.v, free, v0, placed)); }
        ctx.check(q.c.dot(n_) > 0.5 * r as f64, || format!("step {}: ball of radius {} at {} m/s has its centre {} from the wall", n, r, vn, q.c.dot(n_)));
        if ctx.failed() { return; }
    }
    let q = st(&sim.b(b));
    ctx.check(touched, || "the ball never touched the wall".into());
    ctx.check((q.v.dot(n_) - e as f64 * vn).abs() < 1e-3 * (1.0 + vn), || format!("a ball hitting a wall at {} with restitution {} leaves at {}", vn, e, q.v.dot(n_)));
    ctx.check((q.v.dot(t_) - vt).abs() < 1e-3 * (1.0 + vt.abs()), || format!("tangential speed {} became {} without friction", vt, q.v.dot(t_)));
    ctx.hit(if vn > 30.0 { "fast_bounce" } else { "bounce" });
    ctx.distinct(sim.state_hash());
}

// ------------------------------------------------------------------------------------------------ C29

const LIN: f64 = 0.01;
const ANG: f64 = 2.0 / 180.0 * std::f64::consts::PI;
/// bodies that touch (solidly) or are joined, by index; static bodies connect nothing
fn neighbours(sim: &Sim) -> Vec<Vec<usize>> {
    let mut n = vec![vec![]; sim.bodies.len()];
    let ok = |i: usize| sim.b(i).borrow().get_type() != STATIC && sim.b(i).borrow().is_enabled();
    let mut link = |a: usize, b: usize| if a != b && ok(a) && ok(b) { n[a].push(b); n[b].push(a); };
    for c in sim.contacts() {
        let c = c.borrow();
        let c = c.get_base();
        if !c.is_touching() || !c.is_enabled() { continue; }
        let (fa, fb) = (c.get_fixture_a(), c.get_fixture_b());
        if fa.borrow().is_sensor() || fb.borrow().is_sensor() { continue; }
        let (ia, ib) = (sim.body_of_fixture(fix_id(&fa)), sim.body_of_fixture(fix_id(&fb)));
        if let (Some(a), Some(b)) = (ia, ib) { link(a, b); }
    }
    // a gear does nothing while one of the bodies behind it is disabled, so it is no certain link
    for j in sim.joints.iter().filter(|j| j.kind != JK::Gear) {
        if let (Some(a), Some(b)) = (sim.index_of(j.a), sim.index_of(j.b)) { link(a, b); }
    }
    n
}
/// random histories: sleepers lie still, and nobody falls asleep early, alone or without leave
fn c29_watch(ctx: &mut Ctx) {
    let o = SceneOpts { bodies: ctx.rng.int(2, 9) as usize, joints: ctx.rng.int(0, 3) as usize, joint_kinds: vec![JK::Distance, JK::Friction, JK::Motor, JK::Mouse, JK::Revolute, JK::Prismatic, JK::Wheel, JK::Weld], spread: 3.0, speed: 2.0, sub_stepping: false, restitution: false, ..Default::default() };
    let mut sim = rand_scene(&mut ctx.rng, &o);
    if ctx.rng.chance(0.3) { sim.w.borrow_mut().set_gravity(b2v(0.0, 0.0)); }
    sim.w.borrow_mut().set_continuous_physics(false);
    let mut quiet: HashMap<u32, f64> = HashMap::new();
    let ops = ctx.rng.chance(0.4);
    for n in 0..ctx.rng.int(60, 240) {
        let mut unseen = false;
        if ops && ctx.rng.chance(0.05) {
            for _ in 0..ctx.rng.int(1, 3) {
                let op = rand_op(&mut sim, &mut ctx.rng, &o);
                ctx.log(|| format!("step {} {}", n, op));
                // steps taken in there were not watched
                if op.contains("step") { unseen = true; }
            }
            sim.w.borrow_mut().set_continuous_physics(false);
        }
        sim.dt = if ctx.rng.chance(0.05) { *ctx.rng.pick(&[1.0f32 / 60.0, 1.0 / 30.0, 1.0 / 120.0]) } else { sim.dt };
        if unseen { for h in sim.bodies.iter() { quiet.insert(h.id, 1e3); } }
        let before: Vec<(u32, bool, St, B2vec2, f32)> = sim.bodies.iter().map(|h| { let b = h.p.borrow(); (h.id, b.is_awake(), st(&h.p), b.get_position(), b.get_angle()) }).collect();
        sim.step();
        ctx.evals += 1;
        if sim.wild() { return; }
        let world_ok = sim.w.borrow().get_allow_sleeping();
        let nb = neighbours(&sim);
        for (i, (id, was, s0, p, a)) in before.iter().enumerate() {
            let h = sim.bodies[i].p.clone();
            let b = h.borrow();
            if b.get_type() == STATIC || !b.is_enabled() { continue; }
            let now = b.is_awake();
            let (v, w) = (d(b.get_linear_velocity()), b.get_angular_velocity() as f64);
            // a body may be created asleep with a velocity for when it wakes
            if !now && !*was && (s0.v.len() != 0.0 || s0.w != 0.0) { ctx.hit("created_asleep"); continue; }
            if !now {
                ctx.check(v.len() == 0.0 && w == 0.0, || format!("step {}: body {} sleeps with velocity {:?} {}", n, id, v, w));
                if !*was {
                    let q = b.get_position();
                    ctx.check(q.x.to_bits() == p.x.to_bits() && q.y.to_bits() == p.y.to_bits() && b.get_angle().to_bits() == a.to_bits(), || format!("step {}: sleeping body {} moved from {:?} to {:?}", n, id, p, q));
                    ctx.hit("slept_on");
                }
            }
            if *was && !now {
                let t = quiet.get(id).cloned().unwrap_or(0.0);
                ctx.check(world_ok && b.is_sleeping_allowed(), || format!("step {}: body {} fell asleep though that is not allowed", n, id));
                ctx.check(t + sim.dt as f64 >= 0.5 - 1e-4, || format!("step {}: body {} fell asleep after only {} s of rest", n, id, t));
                ctx.max("early_sleep", -t);
                for j in nb[i].iter() {
                    let o = sim.b(*j);
                    ctx.check(!o.borrow().is_awake(), || format!("step {}: body {} fell asleep but body {} touching or joined to it ({:?}, velocity {:?}) did not", n, id, sim.bodies[*j].id, o.borrow().get_type(), o.borrow().get_linear_velocity()));
                    ctx.hit("group_checked");
                }
                ctx.hit("fell_asleep");
            }
            if !*was && now { ctx.hit("woke"); }
            let still = v.len() <= LIN * 1.0001 && w.abs() <= ANG * 1.0001;
            let t = quiet.entry(*id).or_insert(0.0);
            if now && still { *t += sim.dt as f64; } else { *t = 0.0; }
        }
        if ctx.failed() { return; }
    }
    ctx.distinct(sim.state_hash());
}
/// the thresholds themselves, on lone bodies, and on pairs linked by a powerless joint
fn c29_timing(ctx: &mut Ctx) {
    let mut sim = Sim::new(b2v(0.0, 0.0));
    sim.dt = 1.0 / *ctx.rng.pick(&[30.0f32, 60.0, 60.0, 100.0, 120.0]);
    let mut def = Sim::def(DYNAMIC, ctx.rng.vec(50.0), ctx.rng.angle());
    let ang = ctx.rng.chance(0.5);
    let f = if ctx.rng.chance(0.5) { ctx.rng.f(0.0, 0.97) } else { ctx.rng.f(1.03, 3.0) };
    if ang { def.angular_velocity = f * ANG as f32 * ctx.rng.sign(); } else { def.linear_velocity = f * LIN as f32 * ctx.rng.dir(); }
    let kin = ctx.rng.chance(0.2);
    if kin { def.body_type = KINEMATIC; }
    let b = sim.add(def);
    sim.fixture(b, &rc(bx(0.5, 0.3)), Kind::Poly, &Fx::default());
    // a partner at rest
    let pair = ctx.rng.chance(0.5);
    let mut forbid = ctx.rng.below(5);
    let other = sim.box_body(DYNAMIC, b2v(100.0, 100.0), 0.0, 0.5, 0.5, &Fx::default());
    if pair {
        let mut q = B2frictionJointDef::default();
        q.base = sim.jbase(B2jointType::EFrictionJoint, b, other, true);
        sim.joint(B2JointDefEnum::FrictionJoint(q), JK::Friction, b, other, true);
    }
    match forbid {
        0 => sim.w.borrow_mut().set_allow_sleeping(false),
        1 => sim.b(b).borrow_mut().set_sleeping_allowed(false),
        2 => if pair { sim.b(other).borrow_mut().set_sleeping_allowed(false); } else { forbid = 9 },
        _ => {}
    }
    let sleeps = f < 1.0 && forbid > 2;
    let alone_sleeps = !pair && forbid != 0;
    let mut t = 0.0f64;
    let mut slept = false;
    let until = if ctx.rng.chance(0.3) { 2.0 } else { 0.8 };
    let disturb = if ctx.rng.chance(0.3) { ctx.rng.f(0.1, 0.45) as f64 } else { 1e9 };
    let mut restart = 0.0;
    while t < until {
        if t < disturb && t + sim.dt as f64 >= disturb && f < 1.0 {
            // waking an awake body restarts the clock
            sim.b(b).borrow_mut().set_awake(true);
            restart = t;
            ctx.hit("restarted");
        }
        sim.step();
        t += sim.dt as f64;
        ctx.evals += 1;
        let a = sim.b(b).borrow().is_awake();
        let oa = sim.b(other).borrow().is_awake();
        let t = t - restart;
        if !sleeps {
            ctx.check(a, || format!("a body fell asleep after {} s (speed {} of the tolerance, sleeping forbidden: {})", t, f, forbid));
            if pair { ctx.check(oa, || format!("a body joined to one that stays awake fell asleep after {} s", t)); }
        } else if t < 0.5 - 0.6 * sim.dt as f64 {
            ctx.check(a, || format!("a body fell asleep after {} s", t));
        } else if t > 0.5 + 1.5 * sim.dt as f64 {
            ctx.check(!a, || format!("a body at {} of the sleep tolerance is awake after {} s", f, t));
            if !a { slept = true; }
        }
        if alone_sleeps && t + restart > 0.5 + 1.5 * sim.dt as f64 { ctx.check(!oa, || format!("a body at rest is still awake after {} s", t + restart)); }
        if ctx.failed() { return; }
    }
    ctx.hit(if sleeps { "slept" } else if f > 1.0 { "too_fast" } else { "forbidden" });
    if slept { ctx.check(sim.b(b).borrow().get_linear_velocity().length() == 0.0 && sim.b(b).borrow().get_angular_velocity() == 0.0, || "asleep with a velocity".into()); }
    ctx.distinct(hash_f(&[f, sim.dt, until as f32, disturb as f32]));
}
/// things at rest under gravity do fall asleep
fn c29_settle(ctx: &mut Ctx) {
    let mut sim = Sim::new(b2v(0.0, -10.0));
    let fx = Fx::mat(1.0, 0.6, 0.0);
    let g = rand_ground(&mut sim, &mut ctx.rng, &fx, 0.0, 20.0);
    let mut bs = vec![];
    let n = ctx.rng.int(1, 4);
    for i in 0..n { bs.push(sim.box_body(DYNAMIC, b2v(0.0, 0.52 + i as f32 * 1.02), 0.0, 0.5, 0.5, &fx)); }
    if ctx.rng.chance(0.5) {
        // a weight hanging from the ceiling
        let c = sim.body(STATIC, b2v(5.0, 5.0), 0.0);
        let h = sim.box_body(DYNAMIC, b2v(5.0, 3.0), 0.0, 0.3, 0.3, &fx);
        let k = *ctx.rng.pick(&[JK::Distance, JK::Revolute, JK::Weld, JK::Prismatic]);
        match k {
            JK::Distance => { let mut f = B2distanceJointDef::default(); f.base = sim.jbase(B2jointType::EDistanceJoint, c, h, false); f.initialize(sim.b(c), sim.b(h), b2v(5.0, 5.0), b2v(5.0, 3.0)); sim.joint(B2JointDefEnum::DistanceJoint(f), k, c, h, false); }
            JK::Revolute => { let mut f = B2revoluteJointDef::default(); f.base = sim.jbase(B2jointType::ERevoluteJoint, c, h, false); f.initialize(sim.b(c), sim.b(h), b2v(5.0, 5.0)); sim.joint(B2JointDefEnum::RevoluteJoint(f), k, c, h, false); }
            JK::Weld => { let mut f = B2weldJointDef::default(); f.base = sim.jbase(B2jointType::EWeldJoint, c, h, false); f.initialize(sim.b(c), sim.b(h), b2v(5.0, 5.0)); sim.joint(B2JointDefEnum::WeldJoint(f), k, c, h, false); }
            _ => { let mut f = B2prismaticJointDef::default(); f.base = sim.jbase(B2jointType::EPrismaticJoint, c, h, false); f.initialize(sim.b(c), sim.b(h), b2v(5.0, 5.0), b2v(1.0, 0.0)); sim.joint(B2JointDefEnum::PrismaticJoint(f), k, c, h, false); }
        }
        bs.push(h);
        ctx.hit("hanging");
    }
    let mut t = 0.0;
    let mut done = false;
    for _ in 0..9000 {
        sim.step();
        ctx.evals += 1;
        t += 1.0 / 60.0;
        if bs.iter().all(|b| !sim.b(*b).borrow().is_awake()) { done = true; break; }
    }
    ctx.check(done, || format!("bodies at rest are still awake after {} s: {:?}", t, bs.iter().map(|b| sim.b(*b).borrow().is_awake()).collect::<Vec<_>>()));
    ctx.max("settle_time", t);
    if ctx.failed() { return; }
    // and stay so
    let h = sim.state_hash();
    for _ in 0..20 { sim.step(); }
    ctx.check(sim.state_hash() == h, || "a sleeping scene changed".into());
    // waking any one of a stack wakes the stack at the next step
    let i = ctx.rng.below(n as usize);
    sim.b(bs[i]).borrow_mut().set_awake(true);
    sim.step();
    for j in 0..n as usize { ctx.check(sim.b(bs[j]).borrow().is_awake(), || format!("waking box {} of a stack of {} left box {} asleep", i, n, j)); }
    ctx.check(bs.len() == n as usize || !sim.b(bs[n as usize]).borrow().is_awake(), || "waking a stack woke something it does not touch".into());
    // it settles down again
    let mut done = false;
    for _ in 0..9000 { sim.step(); if bs.iter().all(|b| !sim.b(*b).borrow().is_awake()) { done = true; break; } }
    ctx.check(done, || "a woken stack at rest does not fall asleep again".into());
    let _ = g;
    ctx.hit("settled");
    ctx.distinct(sim.state_hash());
}
/// what wakes a sleeper and what does not
/// Overlapping bodies are pushed out slowly without any velocity: while that lasts they are not at rest.
fn c29_creep(ctx: &mut Ctx) {
    let mut sim = Sim::new(b2v(0.0, 0.0));
    sim.pi = ctx.rng.int(1, 4) as i32;
    sim.vi = ctx.rng.int(1, 10) as i32;
    let fx = Fx::mat(1.0, ctx.rng.f(0.0, 0.8), 0.0);
    let base = ctx.rng.angle();
    let x = Xf::of(xf(ctx.rng.vec(5.0), base));
    let ball = ctx.rng.chance(0.3);
    let half = ctx.rng.f(20.0, 60.0);
    let depth = ctx.rng.f(0.1, 0.9) * half;
    let s = ctx.rng.f(0.3, 0.9) * half;
    // the wall's face is at x = 0, and the nearest way out
    sim.box_body(STATIC, b2(x.mul(V { x: -half as f64, y: 0.0 })), base, half, 4.0 * half, &fx);
    let p = b2(x.mul(V { x: (s - depth.min(s * 0.9)) as f64, y: ctx.rng.f(-1.0, 1.0) as f64 }));
    let b = if ball { sim.ball(DYNAMIC, p, s, &fx) } else { sim.box_body(DYNAMIC, p, base, s, s, &fx) };
    sim.b(b).borrow_mut().set_linear_velocity(b2v(0.0, 0.0));
    let mut moved = 0.0;
    for n in 0..600 {
        let c0 = st(&sim.b(b)).c;
        sim.step();
        ctx.evals += 1;
        let c1 = st(&sim.b(b)).c;
        let m = (c1 - c0).len();
        moved += m;
        if m > 0.02 { ctx.hit("creeping"); }
        let awake = sim.b(b).borrow().is_awake();
        ctx.check(awake || m <= 0.02, || format!("step {}: asleep while it is being moved by {} a step ({} in all)", n, m, moved));
        if ctx.failed() { return; }
        if !awake {
            let sep = (body_sep(&sim, 0, b)).min(0.0);
            ctx.check(sep > -0.06, || format!("step {}: asleep while still overlapping by {}", n, -sep));
            ctx.hit("crept_out");
            break;
        }
    }
    ctx.distinct(sim.state_hash());
}
fn c29_wake(ctx: &mut Ctx) {
    let mut sim = Sim::new(b2v(0.0, 0.0));
    let fx = Fx::mat(1.0, 0.6, 0.0);
    let base = ctx.rng.angle();
    let org = ctx.rng.vec(20.0);
    let x = xf(org, base);
    let at = |q: B2vec2| b2(Xf::of(x).mul(d(q)));
    // two boxes touching, a third jointed to the second, a fourth on its own
    let t0 = if ctx.rng.chance(0.3) { STATIC } else { DYNAMIC };
    let a = sim.box_body(t0, at(b2v(0.0, 0.0)), base, 0.5, 0.5, &fx);
    let b = sim.box_body(DYNAMIC, at(b2v(1.01, 0.0)), base, 0.5, 0.5, &fx);
    let c = sim.box_body(DYNAMIC, at(b2v(3.0, 0.0)), base, 0.5, 0.5, &fx);
    let far = sim.box_body(DYNAMIC, at(b2v(0.0, 30.0)), base, 0.5, 0.5, &fx);
    let k = *ctx.rng.pick(&[JK::Revolute, JK::Prismatic, JK::Wheel, JK::Motor, JK::Mouse, JK::Distance, JK::Friction, JK::Weld, JK::Pulley]);
    let mid = at(b2v(2.0, 0.0));
    let j = match k {
        JK::Revolute => { let mut f = B2revoluteJointDef::default(); f.base = sim.jbase(B2jointType::ERevoluteJoint, b, c, false); f.initialize(sim.b(b), sim.b(c), mid); sim.joint(B2JointDefEnum::RevoluteJoint(f), k, b, c, false) }
        JK::Prismatic => { let mut f = B2prismaticJointDef::default(); f.base = sim.jbase(B2jointType::EPrismaticJoint, b, c, false); f.initialize(sim.b(b), sim.b(c), mid, b2v(1.0, 0.0)); sim.joint(B2JointDefEnum::PrismaticJoint(f), k, b, c, false) }
        JK::Wheel => { let mut f = B2wheelJointDef::default(); f.base = sim.jbase(B2jointType::EWheelJoint, b, c, false); f.initialize(sim.b(b), sim.b(c), mid, b2v(1.0, 0.0)); sim.joint(B2JointDefEnum::WheelJoint(f), k, b, c, false) }
        JK::Motor => { let mut f = B2motorJointDef::default(); f.base = sim.jbase(B2jointType::EMotorJoint, b, c, false); f.initialize(sim.b(b), sim.b(c)); f.max_force = 10.0; f.max_torque = 10.0; sim.joint(B2JointDefEnum::MotorJoint(f), k, b, c, false) }
        JK::Mouse => { let mut f = B2mouseJointDef::default(); f.base = sim.jbase(B2jointType::EMouseJoint, b, c, false); f.target = sim.b(c).borrow().get_position(); f.max_force = 10.0; f.stiffness = 10.0; f.damping = 1.0; sim.joint(B2JointDefEnum::MouseJoint(f), k, b, c, false) }
        _ => { make_joint(&mut sim, &mut ctx.rng, k, b, c).unwrap() }
    };
    for _ in 0..45 { sim.step(); }
    let all = [a, b, c, far];
    // whatever did not settle is of no use here
    for i in all.iter() { if sim.b(*i).borrow().get_type() == DYNAMIC && sim.b(*i).borrow().is_awake() { sim.b(*i).borrow_mut().set_awake(false); ctx.hit("put_to_sleep"); } }
    sim.step();
    if all.iter().any(|i| sim.b(*i).borrow().get_type() == DYNAMIC && sim.b(*i).borrow().is_awake()) { ctx.hit("would_not_sleep"); return; }
    sim.take_events();
    let (ia, ib) = (sim.bodies[a].f[0].id, sim.bodies[b].f[0].id);
    let a_touches_b = sim.contacts().iter().any(|c| { let c = c.borrow(); let k = contact_key(c.get_base()); c.get_base().is_touching() && (k.0 == ia && k.2 == ib || k.0 == ib && k.2 == ia) });
    let awake = |sim: &Sim, i: usize| sim.b(i).borrow().is_awake();
    // any strength and sense
    let fa = ctx.rng.log(1e-2, 2.0) * ctx.rng.sign();
    let v = fa * ctx.rng.dir();
    let op = ctx.rng.below(29);
    let mut must: Vec<usize> = vec![];
    let mut may: Vec<usize> = vec![]; // may wake as well
    let name: &str;
    let still = |sim: &Sim, i: usize| { let q = sim.b(i); let q = q.borrow(); q.get_linear_velocity().length() == 0.0 && q.get_angular_velocity() == 0.0 };
    match op {
        0 => { sim.b(b).borrow_mut().apply_linear_impulse(v, mid, true); must.push(b); name = "linear impulse"; }
        1 => { sim.b(b).borrow_mut().apply_force(v, mid, true); must.push(b); name = "force"; }
        2 => { sim.b(b).borrow_mut().apply_torque(fa, true); must.push(b); name = "torque"; }
        3 => { sim.b(b).borrow_mut().apply_angular_impulse(fa, true); must.push(b); name = "angular impulse"; }
        4 => { sim.b(b).borrow_mut().apply_force_to_center(v, true); must.push(b); name = "central force"; }
        5 => { sim.b(b).borrow_mut().apply_linear_impulse_to_center(v, true); must.push(b); name = "central impulse"; }
        6 => { sim.b(b).borrow_mut().set_linear_velocity(v); must.push(b); name = "velocity"; }
        7 => { sim.b(b).borrow_mut().set_angular_velocity(fa); must.push(b); name = "spin"; }
        8 => { sim.b(b).borrow_mut().set_awake(true); must.push(b); name = "set awake"; }
        9 => { B2body::set_type(sim.b(b), KINEMATIC); must.push(b); may.extend(&[a, c]); name = "type change"; }
        10 => { sim.b(b).borrow_mut().set_sleeping_allowed(false); must.push(b); name = "sleeping forbidden"; }
        11 => { if ctx.rng.chance(0.5) { let i = *ctx.rng.pick(&[b, c, far]); sim.b(i).borrow_mut().set_sleeping_allowed(false); sim.b(i).borrow_mut().set_awake(false); } sim.w.borrow_mut().set_allow_sleeping(false); must.extend(&[b, c, far]); may.push(a); name = "sleeping forbidden in the world"; }
        12 => { let f = sim.bodies[b].f[0].p.clone(); f.borrow_mut().set_sensor(true); must.push(b); may.extend(&[a, c]); name = "made a sensor"; }
        13 => { sim.destroy_joint(j); must.extend(&[b, c]); name = "joint destroyed"; }
        14 => { if !a_touches_b { return; } sim.destroy_body(a); must.push(b - 1); name = "support destroyed"; }
        15 => { if !a_touches_b { return; } sim.destroy_fixture(a, 0); must.push(b); may.push(a); name = "support's fixture destroyed"; }
        16 => { if !a_touches_b { return; } B2body::set_enabled(sim.b(a), false); must.push(b); may.push(a); name = "support disabled"; }
        17 => {
            let mut q = sim.joints[j].p.borrow_mut();
            let w = ctx.rng.below(5);
            let mut both = true;
            match q.as_derived_mut() {
                JointAsDerivedMut::ERevoluteJoint(q) => match w { 0 => q.enable_motor(true), 1 => q.set_motor_speed(1.0), 2 => q.set_max_motor_torque(3.0), 3 => q.enable_limit(true), _ => q.set_limits(-1.5, 1.5) },
                JointAsDerivedMut::EPrismaticJoint(q) => match w { 0 => q.enable_motor(true), 1 => q.set_motor_speed(1.0), 2 => q.set_max_motor_force(3.0), 3 => q.enable_limit(true), _ => q.set_limits(-1.5, 1.5) },
                JointAsDerivedMut::EWheelJoint(q) => match w { 0 => q.enable_motor(true), 1 => q.set_motor_speed(1.0), 2 => q.set_max_motor_torque(3.0), 3 => q.enable_limit(true), _ => q.set_limits(-1.5, 1.5) },
                JointAsDerivedMut::EMotorJoint(q) => if w < 2 { q.set_angular_offset(1.0) } else { let o = q.get_linear_offset(); q.set_linear_offset(o + if w == 2 { b2v(0.0, 0.5) } else { b2v(0.5, 0.0) }) },
                JointAsDerivedMut::EMouseJoint(q) => { both = false; let t = q.get_target(); q.set_target(t + if w < 2 { b2v(0.0, 0.5) } else { b2v(0.5, 0.0) }) }
                _ => return,
            }
            if both { must.extend(&[b, c]); } else { must.push(c); }
            name = "joint setting changed";
        }
        18 => {
            // something moving hits it
            let p = at(b2v(1.01, 4.0));
            let m = sim.box_body(if ctx.rng.chance(0.3) { KINEMATIC } else { DYNAMIC }, p, base, 0.3, 0.3, &fx);
            let vel = b2(Xf::of(x).rot(V { x: 0.0, y: -(ctx.rng.f(1.0, 30.0) as f64) }));
            sim.b(m).borrow_mut().set_linear_velocity(vel);
            let mut hit = false;
            for _ in 0..300 {
                sim.step();
                if sim.take_events().iter().any(|e| matches!(e, Ev::Begin(..))) { hit = true; break; }
                ctx.check(!awake(&sim, b) && !awake(&sim, far), || "a body woke before anything touched it".into());
                if ctx.failed() { return; }
            }
            ctx.check(hit, || "the moving body never touched the sleeper".into());
            ctx.check(awake(&sim, b), || "a sleeping body hit by a moving one stays asleep".into());
            sim.step();
            ctx.check(awake(&sim, c), || "a body joined to one that was hit stays asleep".into());
            ctx.check(!awake(&sim, far), || "a body far from the collision woke".into());
            ctx.hit("wake_hit");
            ctx.distinct(hash_f(&[base, org.x, vel.x]));
            return;
        }
        19 => { let f = sim.bodies[b].f[0].p.clone(); if !a_touches_b { return; } let mut fl = B2filter::default(); fl.mask_bits = 0; f.borrow_mut().set_filter_data(fl); sim.step(); sim.step(); ctx.hit("filter_changed"); return; }
        28 => {
            // what it leans on is moved a little away
            if !a_touches_b || t0 == STATIC { return; }
            let p = at(b2v(-ctx.rng.f(0.03, 0.06), 0.0));
            sim.b(a).borrow_mut().set_transform(p, base);
            sim.b(a).borrow_mut().set_awake(true);
            sim.step();
            ctx.check(sim.take_events().iter().any(|e| matches!(e, Ev::End(..))), || "a body moved off another still touches it".into());
            ctx.check(awake(&sim, b), || "a sleeping body stays asleep when what it touched moves away".into());
            ctx.check(!awake(&sim, far), || "a body far away woke".into());
            ctx.hit("support_moved");
            return;
        }
        // things that do not wake
        20 => { sim.b(b).borrow_mut().apply_linear_impulse(v, mid, false); sim.b(b).borrow_mut().apply_force(v, mid, false); sim.b(b).borrow_mut().apply_torque(fa, false); sim.b(b).borrow_mut().apply_angular_impulse(fa, false); ctx.check(still(&sim, b), || "an impulse without waking set a sleeping body's velocity".into()); name = "impulse without waking"; }
        21 => { sim.b(b).borrow_mut().set_linear_velocity(b2v(0.0, 0.0)); sim.b(b).borrow_mut().set_angular_velocity(0.0); name = "zero velocity"; }
        22 => {
            let mut q = 0;
            sim.w.borrow().query_aabb(|_| { q += 1; true }, B2AABB { lower_bound: org - b2v(50.0, 50.0), upper_bound: org + b2v(50.0, 50.0) });
            sim.w.borrow().ray_cast(|_, _, _, _| { q += 1; 1.0 }, org - b2v(30.0, 30.0), org + b2v(30.0, 30.0));
            name = "queries";
        }
        23 => { sim.b(far).borrow_mut().set_linear_velocity(v); must.push(far); name = "something far moved"; }
        24 => { sim.body(DYNAMIC, at(b2v(0.0, -30.0)), 0.0); name = "something created far away"; }
        25 => {
            // a sensor passes over it
            let m = sim.body(DYNAMIC, at(b2v(1.01, 3.0)), base);
            sim.fixture(m, &rc(bx(0.3, 0.3)), Kind::Poly, &Fx { sensor: true, ..Fx::default() });
            let vel = b2(Xf::of(x).rot(V { x: 0.0, y: -10.0 }));
            sim.b(m).borrow_mut().set_linear_velocity(vel);
            let mut hit = false;
            for _ in 0..60 {
                sim.step();
                hit |= sim.take_events().iter().any(|e| matches!(e, Ev::Begin(..)));
                ctx.check(!awake(&sim, b), || "a sensor woke a sleeping body".into());
                if ctx.failed() { return; }
            }
            if hit { ctx.hit("sensor_passed"); }
            return;
        }
        26 => { sim.b(b).borrow_mut().set_bullet(true); sim.b(b).borrow_mut().set_sleeping_allowed(true); sim.w.borrow_mut().set_allow_sleeping(true); name = "harmless settings"; }
        _ => { sim.step_dt(0.0); sim.w.borrow_mut().clear_forces(); name = "empty step"; }
    }
    ctx.log(|| format!("{} joint {:?}", name, k));
    let n = sim.bodies.len();
    for i in 0..n {
        let h = sim.b(i);
        if h.borrow().get_type() == STATIC || !h.borrow().is_enabled() { continue; }
        if must.contains(&i) { ctx.check(awake(&sim, i), || format!("{} did not wake the body (joint {:?})", name, k)); ctx.hit("must_wake"); }
        else if !may.contains(&i) && i < 4 { ctx.check(!awake(&sim, i), || format!("{} woke body {} that it does not concern (joint {:?})", name, i, k)); ctx.hit("must_not_wake"); }
    }
    if ctx.failed() { return; }
    // the wake-up spreads to everything connected at the next step, and nowhere else
    let group = neighbours(&sim);
    let mut reach: Vec<usize> = (0..n).filter(|i| awake(&sim, *i) && sim.b(*i).borrow().get_type() != STATIC && sim.b(*i).borrow().is_enabled()).collect();
    let first = reach.clone();
    let mut q = 0;
    while q < reach.len() { for k in group[reach[q]].iter() { if !reach.contains(k) { reach.push(*k); } } q += 1; }
    sim.step();
    for i in 0..n.min(4) {
        let h = sim.b(i);
        if h.borrow().get_type() == STATIC || !h.borrow().is_enabled() { continue; }
        // touching may end or begin in the step itself: only the joint is certain
        let joined = sim.joints.iter().any(|j| (j.a == sim.bodies[i].id && first.iter().any(|f| sim.bodies[*f].id == j.b)) || (j.b == sim.bodies[i].id && first.iter().any(|f| sim.bodies[*f].id == j.a)));
        if joined && !sim.joints.is_empty() { ctx.check(awake(&sim, i), || format!("{}: a body joined to a woken one stayed asleep", name)); ctx.hit("spread"); }
        if !reach.contains(&i) { ctx.check(!awake(&sim, i), || format!("{}: body {} not connected to anything awake woke", name, i)); ctx.hit("not_spread"); }
    }
    ctx.hit("waked");
    ctx.distinct(hash_words(&[ctx.idx, op as u64]));
}

pub fn props() -> Vec<Property> {
    vec![
        Property { id: "C19", rule: "distinct chain or final state", parts: vec![part("children", 30000, 400000, c19_children), part("sides", 60000, 800000, c19_sides), part("cone", 60000, 900000, c19_cone), part("slide", 6000, 80000, c19_slide), part("pass", 12000, 200000, c19_pass)], required: vec![("wrapping_child", 1000), ("loop_child", 1000), ("end_child", 1000), ("chain_child", 1000), ("front", 1000), ("behind", 1000), ("edge_normal", 1000), ("corner_normal", 1000), ("left_to_neighbour", 500), ("corner_face", 500), ("snapped", 500), ("round_touch", 1000), ("round_apart", 1000), ("flat_step", 1000), ("convex_step", 500), ("slid", 500), ("stopped_in_front", 500), ("passed_from_behind", 500)], assumptions: "" },
        Property { id: "C27", rule: "distinct final state", parts: vec![part("drop", 1500, 20000, c27_drop), part("stack", 1200, 12000, c27_stack), part("slope", 2500, 40000, c27_slope), part("overlap", 4000, 80000, c27_overlap)], required: vec![("at_rest", 1000), ("rolling", 100), ("standing", 1000), ("tower", 20), ("pyramid", 20), ("bridge", 20), ("several_piles", 50), ("uneven_steps", 50), ("uneven_slope", 1000), ("stays", 1000), ("slides", 1000), ("pushed_apart", 500), ("deep", 100)], assumptions: "" },
        Property { id: "C28", rule: "distinct final state", parts: vec![part("room", 20000, 300000, c28_room), part("plate", 20000, 300000, c28_plate), part("corridor", 15000, 200000, c28_corridor), part("free", 10000, 100000, c28_free), part("bounce", 10000, 100000, c28_bounce)], required: vec![("wall_hits", 1000), ("rattled", 500), ("moving_room", 500), ("edges", 100), ("loop", 100), ("boxes", 100), ("one-sided", 100), ("kinematic_plate", 1000), ("bullet_plate", 1000), ("continuous_off", 100), ("sensor_wall", 100), ("sensor_body", 100), ("filtered", 100), ("disabled", 100), ("linked", 100), ("fast_bounce", 500), ("bounce", 500), ("placed_wall", 500), ("corridor_hits", 10000), ("wall_leaving", 1000), ("wall_closing", 1000)], assumptions: "" },
        Property { id: "C29", rule: "distinct final state or disturbance", parts: vec![part("creep", 300, 6000, c29_creep), part("watch", 6000, 100000, c29_watch), part("timing", 10000, 100000, c29_timing), part("settle", 1000, 10000, c29_settle), part("wake", 20000, 200000, c29_wake)], required: vec![("creeping", 5000), ("crept_out", 100), ("slept_on", 1000), ("fell_asleep", 1000), ("group_checked", 300), ("woke", 300), ("slept", 300), ("too_fast", 300), ("forbidden", 300), ("restarted", 100), ("settled", 300), ("hanging", 100), ("must_wake", 1000), ("must_not_wake", 1000), ("wake_hit", 100), ("sensor_passed", 100), ("support_moved", 100), ("spread", 300), ("not_spread", 300)], assumptions: "" },
    ]
}
