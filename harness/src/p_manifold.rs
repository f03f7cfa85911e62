//! C18 manifolds, C19 chains and one-sided edges
use crate::core::*;
use crate::gen::*;
use crate::geo::*;
use box2d_rs::b2_collision::*;
use box2d_rs::b2_common::*;
use box2d_rs::b2_math::*;
use box2d_rs::b2_shape::*;
use box2d_rs::shapes::b2_edge_shape::*;
use box2d_rs::shapes::b2rs_to_derived_shape::*;

const SLOP: f64 = B2_LINEAR_SLOP as f64;

/// the manifold of a pair the library has a direct function for
pub fn collide(a: &dyn B2shapeDynTrait, ta: &B2Transform, b: &dyn B2shapeDynTrait, tb: &B2Transform) -> B2manifold {
    let mut m = B2manifold::default();
    match (a.as_derived(), b.as_derived()) {
        (ShapeAsDerived::AsCircle(x), ShapeAsDerived::AsCircle(y)) => b2_collide_circles(&mut m, x, ta, y, tb),
        (ShapeAsDerived::AsPolygon(x), ShapeAsDerived::AsCircle(y)) => b2_collide_polygon_and_circle(&mut m, x, ta, y, tb),
        (ShapeAsDerived::AsPolygon(x), ShapeAsDerived::AsPolygon(y)) => b2_collide_polygons(&mut m, x, ta, y, tb),
        (ShapeAsDerived::AsEdge(x), ShapeAsDerived::AsCircle(y)) => b2_collide_edge_and_circle(&mut m, x, ta, y, tb),
        (ShapeAsDerived::AsEdge(x), ShapeAsDerived::AsPolygon(y)) => b2_collide_edge_and_polygon(&mut m, x, ta, y, tb),
        _ => panic!("no direct manifold for this pair"),
    }
    m
}
pub fn world_manifold(m: &B2manifold, ta: B2Transform, ra: f64, tb: B2Transform, rb: f64) -> B2worldManifold {
    let mut w = B2worldManifold::default();
    w.initialize(m, ta, ra as f32, tb, rb as f32);
    w
}
/// best separating axis among face normals (and, for a segment, both its sides)
/// An edge and a polygon that overlap have a point if the deepest feature lies over the other shape's face.
/// Where it lies beside it, clipping may leave nothing.
pub fn clip_sure(a: &Cx, b: &Cx) -> bool {
    let (seg, poly) = if a.p.len() == 2 { (a, b) } else if b.p.len() == 2 { (b, a) } else { return true };
    if poly.p.len() < 3 { return true; }
    let rr = a.r + b.r;
    let (v1, v2) = (seg.p[0], seg.p[1]);
    let len = (v2 - v1).len();
    let t = (v2 - v1) * (1.0 / len);
    let mut edge = (-1e30, false);
    for n in &[V { x: t.y, y: -t.x }, V { x: -t.y, y: t.x }] {
        let (mut s, mut over) = (1e30, false);
        for p in poly.p.iter() {
            let d = n.dot(*p - v1);
            let k = t.dot(*p - v1);
            if d < s { s = d; over = k > 0.02 * len && k < 0.98 * len; }
        }
        if s > edge.0 { edge = (s, over); }
    }
    let mut face = (-1e30, false);
    for i in 0..poly.p.len() {
        let (p, q) = (poly.p[i], poly.p[(i + 1) % poly.p.len()]);
        let l = (q - p).len();
        let u = (q - p) * (1.0 / l);
        let n = V { x: u.y, y: -u.x };
        let (d1, d2) = (n.dot(v1 - p), n.dot(v2 - p));
        let (d, v) = if d1 < d2 { (d1, v1) } else { (d2, v2) };
        let k = u.dot(v - p);
        if d > face.0 { face = (d, k > 0.02 * l && k < 0.98 * l); }
    }
    let pref = face.0 - rr - (0.98 * (edge.0 - rr) + 0.001);
    if pref > 0.002 { face.1 } else if pref < -0.002 { edge.1 } else { face.1 && edge.1 }
}
pub fn face_sep(a: &Cx, b: &Cx) -> f64 {
    let mut best = f64::MIN;
    for n in edge_normals(a) { best = best.max(axis_sep(a, b, n)); }
    for n in edge_normals(b) { best = best.max(axis_sep(b, a, n)); }
    best
}

/// judge one world manifold of the pair (ca, cb); all in world coordinates.
/// Returns false on a violation.
pub fn judge(ctx: &mut Ctx, what: &str, ca: &Cx, cb: &Cx, m: &B2manifold, w: &B2worldManifold, one_sided: bool) -> bool {
    let v0 = ctx.violations.len();
    let scale = ca.max_abs().max(cb.max_abs()).max(1.0);
    let tol = 1e-5 * scale;
    let n = d(w.normal);
    let rr = ca.r + cb.r;
    ctx.check((n.len() - 1.0).abs() < 1e-4, || format!("{}: normal {:?} is not unit length", what, n));
    ctx.check(m.point_count >= 1 && m.point_count <= 2, || format!("{}: {} points", what, m.point_count));
    let s = axis_sep(ca, cb, n);
    let round = ca.p.len() == 1 || cb.p.len() == 1;
    let (e, wa, wb) = core_distance(ca, cb);
    // least penetration
    if round {
        let both_points = ca.p.len() == 1 && cb.p.len() == 1;
        if e > 20.0 * tol {
            let dir = (wb - wa).norm();
            ctx.check((n - dir).len() < 1e-3 + 20.0 * tol / e, || format!("{}: normal {:?}, direction between the closest points {:?}", what, n, dir));
        } else if !both_points {
            // centre inside (or on) the other: face of least depth
            let best = face_sep(ca, cb);
            ctx.check(s >= best - 0.1 * SLOP - 4.0 * tol || best > -20.0 * tol, || format!("{}: axis separation {} along the normal, best {}", what, s, best));
        }
    } else if !one_sided {
        let best = face_sep(ca, cb);
        let lim = 0.1 * SLOP + 0.0205 * (best - rr).abs() + 0.0011 + 4.0 * tol;
        ctx.check(s >= best - lim, || format!("{}: separation along the normal {:?} is {}, the best axis has {}", what, n, s, best));
    }
    let (ha, hb) = (ca.support(n) + ca.r, cb.p.iter().map(|q| q.dot(n)).fold(f64::MAX, f64::min) - cb.r);
    let mut least = f64::MAX;
    for i in 0..m.point_count {
        let p = d(w.points[i]);
        let sp = w.separations[i] as f64;
        least = least.min(sp);
        ctx.check(sp <= 4.0 * tol, || format!("{}: point {} with positive separation {}", what, i, sp));
        let (qa, qb) = (p - n * (0.5 * sp), p + n * (0.5 * sp));
        // one of the two is on its shape's supporting line, the other one on the other shape's core boundary (inflated along the normal)
        let on_a = (qa.dot(n) - ha).abs() < 6.0 * tol && cb.core_sd(qb + n * cb.r).abs() < 6.0 * tol;
        let on_b = (qb.dot(n) - hb).abs() < 6.0 * tol && ca.core_sd(qa - n * ca.r).abs() < 6.0 * tol;
        ctx.check(on_a || on_b, || format!("{}: point {:?} separation {} normal {:?} does not lie between the two surfaces (A {:?} B {:?})", what, p, sp, n, ca, cb));
        // near both shapes
        let reach = -sp + 1.5 * rr + 6.0 * tol;
        ctx.check(ca.core_dist(p) <= ca.r + reach && cb.core_dist(p) <= cb.r + reach, || format!("{}: point {:?} is far from the shapes ({} and {})", what, p, ca.core_dist(p), cb.core_dist(p)));
    }
    ctx.check(least >= s - rr - 6.0 * tol, || format!("{}: separation {} is deeper than the shapes are along the normal ({})", what, least, s - rr));
    if m.point_count == 2 {
        let (i0, i1) = (m.points[0].id, m.points[1].id);
        // an edge vertex and a clip at a polygon corner of the same number share an identifier
        let edge_poly = ca.p.len() == 2 && matches!(m.manifold_type, B2manifoldType::EFaceB);
        ctx.check(edge_poly || format!("{:?}", i0.cf) != format!("{:?}", i1.cf), || format!("{}: both points have the same identifier {:?}", what, i0.cf));
        ctx.hit("two_points");
    }
    ctx.violations.len() == v0
}

fn pair_shapes(rng: &mut Rng, size: f32) -> (ShapeDefPtr, ShapeDefPtr, &'static str) {
    match rng.below(5) {
        0 => (shape(rng, Kind::Circle, size), shape(rng, Kind::Circle, size), "circle-circle"),
        1 => (shape(rng, Kind::Poly, size), shape(rng, Kind::Circle, size), "polygon-circle"),
        2 => (shape(rng, Kind::Poly, size), shape(rng, Kind::Poly, size), "polygon-polygon"),
        3 => (shape(rng, Kind::Edge, size), shape(rng, Kind::Circle, size), "edge-circle"),
        _ => (shape(rng, Kind::Edge, size), shape(rng, Kind::Poly, size), "edge-polygon"),
    }
}
fn grid_pair(rng: &mut Rng) -> (ShapeDefPtr, ShapeDefPtr, &'static str) {
    let (a, b, n) = *rng.pick(&[(Kind::Circle, Kind::Circle, "circle-circle"), (Kind::Poly, Kind::Circle, "polygon-circle"), (Kind::Poly, Kind::Poly, "polygon-polygon"), (Kind::Edge, Kind::Circle, "edge-circle"), (Kind::Edge, Kind::Poly, "edge-polygon")]);
    (grid_shape(rng, a), grid_shape(rng, b), n)
}
/// b placed so that its surface is at roughly `gap` from a's in a random direction
pub fn place_gap(rng: &mut Rng, a: &Cx, ta: B2Transform, b: &Cx, gap: f64) -> B2Transform {
    let mut t = rng.xf(0.0);
    if rng.chance(0.4) {
        // line up with one of a's face directions
        let k = rng.below(4) as f32;
        t = xf(t.p, ta.q.get_angle() + k * 1.5707964 + if rng.chance(0.5) { 0.0 } else { rng.f(-0.02, 0.02) });
    }
    let ca = a.moved(&Xf::of(ta));
    let cb = b.moved(&Xf::of(t));
    let u = d(rng.dir());
    let start = ca.center() - cb.center() + u.perp() * ((ca.extent() + cb.extent()) * rng.f(-0.45, 0.45) as f64);
    // slide along u until the separation is the wanted one
    let (mut lo, mut hi) = (0.0, 2.0 * (ca.extent() + cb.extent() + ca.r + cb.r) + gap.abs() + 1.0);
    for _ in 0..40 {
        let m = 0.5 * (lo + hi);
        let off = start + u * m;
        let q = Cx { p: cb.p.iter().map(|p| *p + off).collect(), r: cb.r };
        if separation(&ca, &q) < gap { lo = m } else { hi = m }
    }
    t.p = b2(d(t.p) + start + u * hi);
    t
}

/// the same polygon or edge with another skin
fn reskin(rng: &mut Rng, s: ShapeDefPtr, size: f32) -> ShapeDefPtr {
    let r = if rng.chance(0.3) { 0.0 } else { rng.log(0.002, 0.3) * size };
    let s = s.borrow();
    match s.as_derived() {
        ShapeAsDerived::AsPolygon(p) => { let mut p = p.clone(); p.base.m_radius = r; rc(p) }
        ShapeAsDerived::AsEdge(e) => { let mut e = e.clone(); e.base.m_radius = r; rc(e) }
        ShapeAsDerived::AsCircle(c) => rc(c.clone()),
        _ => unreachable!(),
    }
}

fn c18_case(ctx: &mut Ctx) {
    let size = ctx.rng.log(0.1, 5.0);
    let grid = ctx.rng.chance(0.2);
    let (sa, sb, name) = if grid { grid_pair(&mut ctx.rng) } else { pair_shapes(&mut ctx.rng, size) };
    // skins other than the usual one
    let skin = !grid && ctx.rng.chance(0.25);
    let (sa, sb) = if skin { ctx.hit("other_skin"); (reskin(&mut ctx.rng, sa, size), reskin(&mut ctx.rng, sb, size)) } else { (sa, sb) };
    let (sa, sb) = (sa.borrow(), sb.borrow());
    let (xa, xb) = (children(&*sa)[0].clone(), children(&*sb)[0].clone());
    let rad = *ctx.rng.pick(&[0.0f32, 5.0, 50.0]);
    let ta = if grid { grid_xf(&mut ctx.rng) } else { ctx.rng.xf(rad) };
    for _ in 0..6 {
        let gap = match ctx.rng.below(5) { 0 => ctx.rng.f(0.0, 0.05), 1 => -ctx.rng.f(0.0, 0.01), 2 => -ctx.rng.f(0.0, 0.1) * size, 3 => -ctx.rng.f(0.0, 1.0) * size, _ => ctx.rng.f(0.0, 1.0) } as f64;
        let mut tb = place_gap(&mut ctx.rng, &xa, ta, &xb, gap);
        if grid { tb = grid_xf(&mut ctx.rng); ctx.hit("grid"); }
        let (ca, cb) = (xa.moved(&Xf::of(ta)), xb.moved(&Xf::of(tb)));
        let rr = ca.r + cb.r;
        let scale = ca.max_abs().max(cb.max_abs()).max(1.0);
        let tol = 1e-5 * scale;
        let m = collide(&*sa, &ta, &*sb, &tb);
        let w = world_manifold(&m, ta, ca.r, tb, cb.r);
        let e = core_distance(&ca, &cb).0;
        let f = face_sep(&ca, &cb);
        let round = ca.p.len() == 1 || cb.p.len() == 1;
        ctx.distinct(hash_f(&[ta.p.x, tb.p.x, tb.p.y, tb.q.s, size]));
        // existence
        // an edge's end may be in by less than the skin without a point
        // without skins, corners that barely cross may be clipped away: the face chosen need not be the best by a tenth of the slop
        let deep = if ca.p.len() == 2 && !round { 0.03 } else if rr < 0.01 { 0.01 + 2.0 * tol } else { 2.0 * tol };
        if e > if round { rr + tol } else { 1.5 * rr + tol } || (!round && f > rr + tol) {
            ctx.hit("apart");
            ctx.check(m.point_count == 0, || format!("{}: {} points though the shapes are {} apart (contact range {})", name, m.point_count, e, rr));
        } else if if round { e < rr - tol } else { e <= 0.0 && f < -deep && clip_sure(&ca, &cb) } {
            ctx.hit(name);
            if round || f < 0.0 {
                ctx.check(m.point_count > 0, || format!("{}: no points though the shapes overlap (core distance {}, face separation {}) A {:?} B {:?}", name, e, f, ca, cb));
            }
        }
        if m.point_count > 0 {
            ctx.hit("judged");
            judge(ctx, name, &ca, &cb, &m, &w, false);
            if e > 0.0 { ctx.hit("judged_in_skin"); }
            ctx.sample(format!("{}: {} points normal ({:.3},{:.3}) separations {:?}", name, m.point_count, w.normal.x, w.normal.y, &w.separations[..m.point_count]));
        }
        if ctx.failed() { return; }
    }
}

/// a box standing flat on a face: the contact patch is known exactly
fn c18_patch(ctx: &mut Ctx) {
    let (wa, wb) = (ctx.rng.f(0.3, 5.0), ctx.rng.f(0.3, 5.0));
    let (ha, hb) = (ctx.rng.f(0.5, 2.0), ctx.rng.f(0.5, 2.0));
    let edge = ctx.rng.chance(0.4);
    let a: ShapeDefPtr = if edge { rc(edge2(b2v(-wa, ha), b2v(wa, ha))) } else { rc(bx(wa, ha)) };
    let b = bx(wb, hb);
    let swap = !edge && ctx.rng.chance(0.5);
    let frame = { let r = *ctx.rng.pick(&[0.0f32, 20.0]); ctx.rng.xf(r) };
    let fx = Xf::of(frame);
    let pr = B2_POLYGON_RADIUS as f64;
    let gap = ctx.rng.f(-0.1, 0.018) as f64;
    let range = (wa + wb) as f64;
    let mut x = ctx.rng.f(-0.9, 0.9) as f64 * range;
    let mut prev: Option<(B2manifold, f64)> = None;
    for _ in 0..5 {
        let (lo, hi) = ((x - wb as f64).max(-wa as f64), (x + wb as f64).min(wa as f64));
        if hi - lo < 0.15 { return; }
        let tilt = 0.0;
        let tb = B2Transform { p: b2(fx.mul(v(x, (ha + hb) as f64 + gap))), q: B2Rot::new(frame.q.get_angle() + tilt) };
        let sa = a.borrow();
        let m = if swap { collide(&b, &tb, &*sa, &frame) } else { collide(&*sa, &frame, &b, &tb) };
        let w = if swap { world_manifold(&m, tb, pr, frame, pr) } else { world_manifold(&m, frame, pr, tb, pr) };
        let up = fx.rot(v(0.0, 1.0)) * if swap { -1.0 } else { 1.0 };
        ctx.hit("patch");
        ctx.distinct(hash_f(&[wa, wb, x as f32, gap as f32]));
        ctx.check(m.point_count == 2, || format!("flat contact has {} points (patch {}..{}, gap {})", m.point_count, lo, hi, gap));
        if m.point_count != 2 { return; }
        ctx.check((d(w.normal) - up).len() < 1e-3, || format!("flat contact normal {:?} expected {:?}", w.normal, up));
        let mut xs = vec![];
        for i in 0..2 {
            let q = fx.inv_mul(d(w.points[i]));
            xs.push(q.x);
            ctx.near("flat contact separation", w.separations[i] as f64, gap - 2.0 * pr, 1e-4);
            ctx.near("flat contact point height", q.y, ha as f64 + 0.5 * gap, 1e-4);
        }
        xs.sort_by(|a, b| a.partial_cmp(b).unwrap());
        // ends of the patch, up to the skin
        ctx.check((xs[0] - lo).abs() < 0.025 && (xs[1] - hi).abs() < 0.025, || format!("flat contact points at {:?}, patch is {}..{}", xs, lo, hi));
        // identifiers persist while sliding does not change the features
        let same_features = |x0: f64, x1: f64| {
            let g = |x: f64| ((x - wb as f64) > -wa as f64 + 0.05, (x - wb as f64) < -wa as f64 - 0.05, (x + wb as f64) < wa as f64 - 0.05, (x + wb as f64) > wa as f64 + 0.05);
            let (p, q) = (g(x0), g(x1));
            p == q && (p.0 || p.1) && (p.2 || p.3)
        };
        if let Some((pm, px)) = prev {
            if same_features(px, x) {
                ctx.hit("persist");
                let ids = |m: &B2manifold| { let mut v = vec![format!("{:?}", m.points[0].id.cf), format!("{:?}", m.points[1].id.cf)]; v.sort(); v };
                ctx.check(ids(&pm) == ids(&m), || format!("identifiers changed from {:?} to {:?} while sliding from {} to {}", ids(&pm), ids(&m), px, x));
                let (mut s1, mut s2) = ([B2pointState::B2NullState; 2], [B2pointState::B2NullState; 2]);
                b2_get_point_states(&mut s1, &mut s2, &pm, &m);
                let ok = s1.iter().chain(s2.iter()).all(|s| *s == B2pointState::B2PersistState);
                ctx.check(ok, || format!("point states {:?} {:?} while sliding", s1, s2));
            }
        }
        prev = Some((m, x));
        let step = ctx.rng.f(-0.03, 0.03) as f64;
        x += step;
    }
}

fn c18_states(ctx: &mut Ctx) {
    let mk = |rng: &mut Rng| {
        let mut m = B2manifold::default();
        m.point_count = rng.below(3);
        for i in 0..2 {
            let f = &mut m.points[i].id.cf;
            f.index_a = rng.below(2) as u8; f.index_b = rng.below(2) as u8; f.type_a = rng.below(2) as u8; f.type_b = rng.below(2) as u8;
        }
        if m.point_count == 2 && format!("{:?}", m.points[0].id.cf) == format!("{:?}", m.points[1].id.cf) { m.points[1].id.cf.index_a = 7; }
        m
    };
    let m1 = mk(&mut ctx.rng);
    let mut m2 = mk(&mut ctx.rng);
    if ctx.rng.chance(0.5) && m1.point_count > 0 && m2.point_count > 0 {
        let (i, j) = (ctx.rng.below(m1.point_count), ctx.rng.below(m2.point_count));
        let o = 1 - j;
        if m2.point_count == 1 || format!("{:?}", m2.points[o].id.cf) != format!("{:?}", m1.points[i].id.cf) { m2.points[j].id = m1.points[i].id; }
    }
    let (mut s1, mut s2) = ([B2pointState::B2PersistState; 2], [B2pointState::B2RemoveState; 2]);
    b2_get_point_states(&mut s1, &mut s2, &m1, &m2);
    let has = |m: &B2manifold, p: &B2manifoldPoint| m.points[..m.point_count].iter().any(|q| format!("{:?}", q.id.cf) == format!("{:?}", p.id.cf));
    for i in 0..2 {
        let e1 = if i >= m1.point_count { B2pointState::B2NullState } else if has(&m2, &m1.points[i]) { B2pointState::B2PersistState } else { B2pointState::B2RemoveState };
        let e2 = if i >= m2.point_count { B2pointState::B2NullState } else if has(&m1, &m2.points[i]) { B2pointState::B2PersistState } else { B2pointState::B2AddState };
        ctx.check(s1[i] == e1 && s2[i] == e2, || format!("point states {:?} {:?}, expected {:?} {:?} at {}: {:?} {:?}", s1, s2, e1, e2, i, m1, m2));
        ctx.hit("state");
    }
    // clipping a segment to a half plane
    let size = ctx.rng.log(0.1, 50.0);
    let (p, q) = (ctx.rng.vec(size), ctx.rng.vec(size));
    let n = ctx.rng.dir();
    let off = ctx.rng.f(-size, size);
    let mut inp = <[B2clipVertex; 2]>::default();
    inp[0].v = p; inp[1].v = q;
    inp[0].id.cf.index_b = 5; inp[1].id.cf.index_b = 6;
    let mut out = <[B2clipVertex; 2]>::default();
    let c = b2_clip_segment_to_line(&mut out, inp, n, off, 3);
    let (d0, d1) = (d(n).dot(d(p)) - off as f64, d(n).dot(d(q)) - off as f64);
    let tol = 1e-5 * size as f64;
    if d0.abs() > tol && d1.abs() > tol {
        let want = if d0 < 0.0 && d1 < 0.0 { 2 } else if d0 > 0.0 && d1 > 0.0 { 0 } else { 2 };
        ctx.check(c == want, || format!("clipping kept {} points, expected {}", c, want));
        if c == 2 && want == 2 {
            let cut = d(p) + (d(q) - d(p)) * (d0 / (d0 - d1));
            let e = if d0 < 0.0 && d1 < 0.0 { [d(p), d(q)] } else if d0 < 0.0 { [d(p), cut] } else { [d(q), cut] };
            let (g0, g1) = (d(out[0].v), d(out[1].v));
            let t = 1e-5 * size as f64 * (1.0 + size as f64 / (d0 - d1).abs().max(1e-3)).min(100.0);
            let ok = ((g0 - e[0]).len() < t && (g1 - e[1]).len() < t) || ((g0 - e[1]).len() < t && (g1 - e[0]).len() < t);
            ctx.check(ok, || format!("clipped to {:?} {:?}, expected {:?}", g0, g1, e));
            ctx.hit("clip");
        }
    }
    ctx.distinct(hash_f(&[p.x, q.y, off]));
}

pub fn props() -> Vec<Property> {
    vec![
        Property {
            id: "C18",
            rule: "a distinct placement of a shape pair",
            parts: vec![part("pairs", 60000, 600000, c18_case), part("patch", 30000, 300000, c18_patch), part("states", 60000, 500000, c18_states)],
            required: vec![("apart", 2000), ("circle-circle", 1000), ("polygon-circle", 1000), ("polygon-polygon", 1000), ("edge-circle", 1000), ("edge-polygon", 1000), ("judged", 10000), ("judged_in_skin", 1000), ("two_points", 3000), ("patch", 3000), ("persist", 1000), ("state", 10000), ("clip", 5000)],
            assumptions: "Near a pair of corners the contact range of polygons is not Euclidean; there, existence is not judged within 1.5 radii.",
        },
    ]
}
#[allow(dead_code)]
fn _unused(_: &B2edgeShape) {}
