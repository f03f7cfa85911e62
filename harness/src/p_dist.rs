//! C15 distance, C16 shape cast, C17 time of impact
use crate::core::*;
use crate::gen::*;
use crate::geo::*;
use box2d_rs::b2_collision::*;
use box2d_rs::b2_common::*;
use box2d_rs::b2_distance::*;
use box2d_rs::b2_math::*;
use box2d_rs::b2_time_of_impact::*;

pub struct Prox {
    pub p: B2distanceProxy,
    pub cx: Cx,
    pub what: &'static str,
}
pub fn proxy(rng: &mut Rng, size: f32) -> Prox {
    match rng.below(4) {
        0 => {
            // raw vertices with any radius
            let n = rng.int(1, 8);
            let pts: Vec<B2vec2> = match n {
                1 => vec![rng.vec(size)],
                2 => {
                    let a = rng.vec(size);
                    let u = rng.dir();
                    let l = size * rng.f(0.1, 2.0);
                    vec![a, a + l * u]
                }
                _ => {
                    let q = poly(rng, size);
                    q.m_vertices[..q.m_count].to_vec()
                }
            };
            let r = *rng.pick(&[0.0f32, 0.01, 0.3]) * if rng.chance(0.5) { size } else { 1.0 };
            let mut p = B2distanceProxy::default();
            p.set_vertices(&pts, r);
            Prox { p, cx: Cx { p: pts.iter().map(|q| d(*q)).collect(), r: r as f64 }, what: "vertices" }
        }
        _ => {
            let k = kind(rng);
            let s = if rng.chance(0.15) { grid_shape(rng, k) } else { shape(rng, k, size) };
            let s = s.borrow();
            let i = rng.below(s.get_child_count());
            let mut p = B2distanceProxy::default();
            p.set_shape(s.clone_rc(), i);
            Prox { p, cx: children(&*s)[i].clone(), what: "shape" }
        }
    }
}

fn check_distance(ctx: &mut Ctx, a: &Prox, b: &Prox, ta: B2Transform, tb: B2Transform, use_radii: bool, out: &B2distanceOutput, tag: &str) -> f64 {
    let (ca, cb) = (a.cx.moved(&Xf::of(ta)), b.cx.moved(&Xf::of(tb)));
    let (dist, _, _) = core_distance(&ca, &cb);
    let scale = ca.max_abs().max(cb.max_abs()).max(ca.extent()).max(cb.extent()).max(0.1);
    let tol = 1e-5 * scale;
    let rsum = ca.r + cb.r;
    let expect = if use_radii { (dist - rsum).max(0.0) } else { dist };
    let got = out.distance as f64;
    ctx.max("dist_err_over_scale", (got - expect).abs() / scale);
    ctx.check((got - expect).abs() <= tol, || format!("{}: distance {} expected {} (radii used: {}) A {:?} B {:?} ta {:?} tb {:?}", tag, got, expect, use_radii, a.cx, b.cx, ta, tb));
    let (pa, pb) = (d(out.point_a), d(out.point_b));
    ctx.check(((pa - pb).len() - got).abs() <= 2.0 * tol, || format!("{}: witness points {:?} {:?} are not {} apart", tag, pa, pb, got));
    if use_radii && dist <= rsum + tol {
        // overlapping rounded shapes: only the zero distance is promised (checked above)
        ctx.hit("overlapping_radii");
    } else if use_radii {
        ctx.check(ca.core_dist(pa) <= ca.r + 2.0 * tol && cb.core_dist(pb) <= cb.r + 2.0 * tol, || format!("{}: witness {:?} or {:?} outside its shape (by {} and {})", tag, pa, pb, ca.core_dist(pa) - ca.r, cb.core_dist(pb) - cb.r));
    } else {
        ctx.check(ca.core_dist(pa) <= 2.0 * tol && cb.core_dist(pb) <= 2.0 * tol, || format!("{}: witness {:?} or {:?} off its set", tag, pa, pb));
    }
    if dist > tol { ctx.hit("apart"); } else { ctx.hit("overlapping"); }
    dist
}

fn place_near(rng: &mut Rng, a: &Cx, ta: B2Transform, b: &Cx) -> B2Transform {
    // put b so that its centre is around a's boundary: touching, near, overlapping or apart
    let tb_rot = rng.xf(0.0);
    let ca = a.moved(&Xf::of(ta));
    let cb = b.moved(&Xf::of(tb_rot));
    let reach = (ca.extent() + cb.extent()) * 0.5;
    let u = rng.dir();
    let f = match rng.below(4) { 0 => rng.f(0.0, 0.5), 1 => rng.f(0.5, 1.2), 2 => rng.f(1.0, 1.6), _ => rng.f(1.5, 6.0) } as f64;
    let want = ca.center() + d(u) * (reach * f);
    let off = want - cb.center();
    let mut t = tb_rot;
    t.p = b2(d(t.p) + off);
    t
}

fn c15_case(ctx: &mut Ctx) {
    let size = ctx.rng.log(0.1, 10.0);
    let a = proxy(&mut ctx.rng, size);
    let sb = size * ctx.rng.log(0.2, 5.0);
    let b = proxy(&mut ctx.rng, sb);
    let r = *ctx.rng.pick(&[0.0f32, 3.0, 50.0]);
    let mut ta = ctx.rng.xf(r);
    let mut tb = place_near(&mut ctx.rng, &a.cx, ta, &b.cx);
    if ctx.rng.chance(0.15) { ta = grid_xf(&mut ctx.rng); tb = grid_xf(&mut ctx.rng); ctx.hit("grid"); }
    let mut cache = B2simplexCache::default();
    for step in 0..4 {
        let use_radii = ctx.rng.chance(0.5);
        let inp = B2distanceInput { proxy_a: a.p.clone(), proxy_b: b.p.clone(), transform_a: ta, transform_b: tb, use_radii };
        // cold
        let mut out = B2distanceOutput::default();
        let mut cold = B2simplexCache::default();
        b2_distance_fn(&mut out, &mut cold, &inp);
        check_distance(ctx, &a, &b, ta, tb, use_radii, &out, "cold cache");
        // warm, with whatever the previous position left
        let mut out2 = B2distanceOutput::default();
        b2_distance_fn(&mut out2, &mut cache, &inp);
        check_distance(ctx, &a, &b, ta, tb, use_radii, &out2, "warm cache");
        if step > 0 { ctx.hit("warm"); }
        // swapped
        let inp = B2distanceInput { proxy_a: b.p.clone(), proxy_b: a.p.clone(), transform_a: tb, transform_b: ta, use_radii };
        let mut out3 = B2distanceOutput::default();
        let mut c3 = B2simplexCache::default();
        b2_distance_fn(&mut out3, &mut c3, &inp);
        check_distance(ctx, &b, &a, tb, ta, use_radii, &out3, "swapped");
        ctx.distinct(hash_f(&[ta.p.x, tb.p.x, tb.p.y, tb.q.s, size]));
        ctx.sample(format!("{} vs {} vertices, distance {}", a.cx.p.len(), b.cx.p.len(), out.distance));
        // move
        match ctx.rng.below(3) {
            0 => { let o = ctx.rng.vec(0.05 * size); tb.p = tb.p + o; }
            1 => { let ang = ctx.rng.angle(); tb = xf(tb.p, ang); }
            _ => { tb = place_near(&mut ctx.rng, &a.cx, ta, &b.cx); if ctx.rng.chance(0.3) { ta = ctx.rng.xf(r); } }
        }
    }
}
fn c15_overlap(ctx: &mut Ctx) {
    let size = ctx.rng.log(0.1, 10.0);
    let (ka, kb) = (kind(&mut ctx.rng), kind(&mut ctx.rng));
    let (sa, sb) = (shape(&mut ctx.rng, ka, size), shape(&mut ctx.rng, kb, size));
    let (sa, sb) = (sa.borrow(), sb.borrow());
    let (ia, ib) = (ctx.rng.below(sa.get_child_count()), ctx.rng.below(sb.get_child_count()));
    let ta = ctx.rng.xf(10.0);
    for _ in 0..4 {
        let (xa, xb) = (&children(&*sa)[ia], &children(&*sb)[ib]);
        let tb = place_near(&mut ctx.rng, xa, ta, xb);
        let (ca, cb) = (xa.moved(&Xf::of(ta)), xb.moved(&Xf::of(tb)));
        let sep = core_distance(&ca, &cb).0 - ca.r - cb.r;
        let tol = 2e-5 * ca.max_abs().max(cb.max_abs()).max(0.1);
        if sep.abs() < tol { ctx.hit("skipped_borderline"); continue; }
        let got = b2_test_overlap_shapes(sa.clone_rc(), ia, sb.clone_rc(), ib, ta, tb);
        ctx.hit(if sep < 0.0 { "overlap_true" } else { "overlap_false" });
        ctx.distinct(hash_f(&[tb.p.x, tb.p.y, tb.q.s]));
        ctx.check(got == (sep < 0.0), || format!("overlap test {:?} {:?} says {} but separation is {}", ka, kb, got, sep));
    }
}

fn c16_case(ctx: &mut Ctx) {
    let size = ctx.rng.log(0.2, 5.0);
    let a = proxy(&mut ctx.rng, size);
    let b = proxy(&mut ctx.rng, size);
    let r = *ctx.rng.pick(&[0.0f32, 5.0, 30.0]);
    let ta = ctx.rng.xf(r);
    let ca = a.cx.moved(&Xf::of(ta));
    let rot = ctx.rng.xf(0.0);
    let cb0 = b.cx.moved(&Xf::of(rot));
    // start apart, aim at a (or past it)
    let u = d(ctx.rng.dir());
    let reach = ca.extent() + cb0.extent();
    let start = ca.center() - u * (reach * ctx.rng.f(0.7, 3.0) as f64);
    let mut tb = rot;
    tb.p = b2(d(rot.p) + (start - cb0.center()));
    let side = u.perp() * (reach * ctx.rng.f(-0.9, 0.9) as f64);
    let len = reach * ctx.rng.f(0.2, 5.0) as f64;
    let aim = (ca.center() + side - start).norm();
    let tr = b2(aim * len);
    let cb = b.cx.moved(&Xf::of(tb));
    let radius_a = ca.r.max(B2_POLYGON_RADIUS as f64);
    let radius_b = cb.r.max(B2_POLYGON_RADIUS as f64);
    let pr = B2_POLYGON_RADIUS as f64;
    // "touching" is meant to within the polygon skin
    let sigma = pr.max(radius_a + radius_b - pr);
    let at = |f: f64| Cx { p: cb.p.iter().map(|q| *q + d(tr) * f).collect(), r: cb.r };
    let d0 = core_distance(&ca, &cb).0;
    if d0 < radius_a + radius_b + 0.02 { ctx.hit("skipped_start_overlap"); return; }
    // reference: distance along a straight motion is convex in f, so ternary search finds its minimum
    let (mut lo, mut hi) = (0.0, 1.0);
    for _ in 0..100 {
        let (m1, m2) = (lo + (hi - lo) / 3.0, hi - (hi - lo) / 3.0);
        // a plateau at zero means overlap; stop there
        let (d1, d2) = (core_distance(&ca, &at(m1)).0, core_distance(&ca, &at(m2)).0);
        if d1 <= 0.0 { hi = m1; lo = m1; break; }
        if d2 <= 0.0 { lo = m2; hi = m2; break; }
        if d1 < d2 { hi = m2 } else { lo = m1 }
    }
    let fmin = 0.5 * (lo + hi);
    let dmin = core_distance(&ca, &at(fmin)).0.min(core_distance(&ca, &at(1.0)).0);
    let slop = 0.004 + 2e-5 * (ca.max_abs() + cb.max_abs() + len);
    let inp = B2shapeCastInput { proxy_a: a.p.clone(), proxy_b: b.p.clone(), transform_a: ta, transform_b: tb, translation_b: tr };
    let mut out = B2shapeCastOutput::default();
    let hit = b2_shape_cast(&mut out, inp);
    if dmin > sigma + slop {
        ctx.hit("miss");
        ctx.check(!hit, || format!("hit reported at {} but the closest approach is {} (target {})", out.lambda, dmin, sigma));
        return;
    }
    if dmin > sigma - slop { ctx.hit("skipped_borderline"); return; }
    ctx.hit("hit");
    ctx.distinct(hash_f(&[tr.x, tr.y, tb.p.x, ta.p.x]));
    if !ctx.check(hit, || format!("no hit reported but the sets come within {} (target {}): A {:?} B {:?} ta {:?} tb {:?} translation {:?}", dmin, sigma, a.cx, b.cx, ta, tb, tr)) { return; }
    let f = out.lambda as f64;
    ctx.check(f >= 0.0 && f <= 1.0, || format!("fraction {} out of range", f));
    // reference first-touch fraction
    let (mut lo, mut hi) = (0.0, fmin);
    for _ in 0..60 {
        let m = 0.5 * (lo + hi);
        if core_distance(&ca, &at(m)).0 > sigma { lo = m } else { hi = m }
    }
    let dist_at = core_distance(&ca, &at(f)).0;
    ctx.max("shape_cast_gap_err", (dist_at - sigma).abs());
    ctx.check((dist_at - sigma).abs() <= slop, || format!("at the reported fraction {} the sets are {} apart, target {} (reference fraction {})", f, dist_at, sigma, hi));
    ctx.check(f <= hi + (slop / len).max(1e-5) * 50.0 && f <= fmin + 1e-3, || format!("reported fraction {} is not the first touch {}", f, hi));
    let n = d(out.normal);
    ctx.check((n.len() - 1.0).abs() < 1e-3, || format!("normal {:?} not unit", n));
    let (dd, wa, wb) = core_distance(&ca, &at(f));
    if dd > 0.3 * sigma && dd > 0.005 {
        let e = (wb - wa).norm();
        let ntol = 0.02 + (2.0 * slop / dd).sqrt();
        ctx.check((n - e).len() < ntol, || format!("normal {:?} expected {:?}", n, e));
    }
    let p = d(out.point);
    ctx.check((ca.core_dist(p) - radius_a).abs() < 0.02 + slop, || format!("point {:?} is {} from A's core (radius {})", p, ca.core_dist(p), radius_a));
    ctx.check((at(f).core_dist(p) - radius_b).abs() < 0.02 + slop, || format!("point {:?} is {} from B's core (radius {})", p, at(f).core_dist(p), radius_b));
    ctx.sample(format!("hit at {} of translation ({},{})", f, tr.x, tr.y));
}

fn sweep_xf(s: &B2Sweep, t: f64) -> Xf {
    let a = (1.0 - t) * s.a0 as f64 + t * s.a as f64;
    let c = d(s.c0) * (1.0 - t) + d(s.c) * t;
    let q = Xf::new(v(0.0, 0.0), a);
    Xf { p: c - q.rot(d(s.local_center)), c: q.c, s: q.s }
}

fn c17_case(ctx: &mut Ctx) {
    let size = ctx.rng.log(0.3, 4.0);
    let a = proxy(&mut ctx.rng, size);
    let b = proxy(&mut ctx.rng, size);
    let spin = *ctx.rng.pick(&[0.0f32, 0.0, 0.01, 0.05, 0.2, 1.5]);
    let mk = |rng: &mut Rng, cx: &Cx, from: V, to: V| {
        let lc = if rng.chance(0.3) { rng.vec(size) } else { b2(cx.center()) };
        let a0 = rng.angle();
        B2Sweep { local_center: lc, c0: b2(from), c: b2(to), a0, a: a0 + rng.f(-spin, spin), alpha0: 0.0 }
    };
    let reach = (a.cx.extent() + b.cx.extent()).max(0.1);
    let base = d(ctx.rng.vec(10.0));
    let u = d(ctx.rng.dir());
    let start = base - u * (reach * ctx.rng.f(0.3, 3.0) as f64);
    let target = base + u * (reach * ctx.rng.f(-0.5, 3.0) as f64) + d(ctx.rng.vec(reach as f32 * 0.6));
    let sa = { let m = d(ctx.rng.vec(reach as f32 * 0.3)); let still = ctx.rng.chance(0.5); mk(&mut ctx.rng, &a.cx, base, if still { base } else { base + m }) };
    let sb = mk(&mut ctx.rng, &b.cx, start, target);
    let t_max = if ctx.rng.chance(0.7) { 1.0 } else { ctx.rng.f(0.1, 1.0) };
    let inp = B2toiinput { proxy_a: a.p.clone(), proxy_b: b.p.clone(), sweep_a: sa, sweep_b: sb, t_max };
    let mut out = B2toioutput::default();
    b2_time_of_impact(&mut out, &inp);
    let total = a.cx.r + b.cx.r;
    let slop = B2_LINEAR_SLOP as f64;
    let target_sep = slop.max(total - 3.0 * slop);
    let scale = d(sa.c0).len() + d(sb.c0).len() + d(sb.c).len() + reach;
    let tol = 0.25 * slop + 1e-5 * scale;
    let dist = |t: f64| core_distance(&a.cx.moved(&sweep_xf(&sa, t)), &b.cx.moved(&sweep_xf(&sb, t))).0;
    let t = out.t as f64;
    ctx.check(t >= 0.0 && t <= t_max as f64 + 1e-6, || format!("time {} outside [0,{}]", t, t_max));
    // normalised angles inside the library shift both angles by whole turns only, so the reference needs none
    // the time of first contact may be missed by what the rotation bends the motion away from a straight one
    let (wa, wb) = ((sa.a - sa.a0).abs() as f64, (sb.a - sb.a0).abs() as f64);
    let rad = |cx: &Cx, s: &B2Sweep| cx.p.iter().map(|q| (*q - d(s.local_center)).len()).fold(0.0, f64::max);
    let (ra, rb) = (rad(&a.cx, &sa), rad(&b.cx, &sb));
    let vel = (d(sa.c - sa.c0) - d(sb.c - sb.c0)).len();
    let far = (d(sa.c0) - d(sb.c0)).len().max((d(sa.c) - d(sb.c)).len()) + ra + rb;
    let bend = ((wa.max(wb).powi(2)) * (far + ra + rb) + 2.0 * wa.max(wb) * vel + ra * wa * wa + rb * wb * wb + 2.0 * wa * wb * (ra + rb)) / 8.0;
    ctx.hit(if bend < 0.02 * reach { "nearly_straight" } else { "bent" });
    let n = 240;
    let first_below = |lim: f64, upto: f64| -> Option<(f64, f64)> {
        for i in 0..=n {
            let s = upto * i as f64 / n as f64;
            let x = dist(s);
            if x < lim { return Some((s, x)); }
        }
        None
    };
    let d0 = dist(0.0);
    let name = format!("{:?}", out.state);
    ctx.hit(&name);
    ctx.distinct(hash_f(&[sa.a0, sb.c0.x, sb.c.y, sb.a]));
    ctx.sample(format!("{} at t={} target separation {}", name, t, target_sep));
    match out.state {
        B2toioutputState::ETouching => {
            let x = dist(t);
            if t > 0.0 {
                ctx.check((x - target_sep).abs() <= 2.0 * tol, || format!("touching reported at t={} where the separation is {} (target {}) sweeps {:?} {:?} A {:?} B {:?}", t, x, target_sep, sa, sb, a.cx, b.cx));
            } else {
                ctx.check(x <= target_sep + 2.0 * tol, || format!("touching at start but separation {} (target {})", x, target_sep));
            }
            if let Some((s, x)) = first_below(target_sep - 2.0 * tol - bend, t) {
                if s < t && d0 > target_sep + 2.0 * tol {
                    ctx.fail(format!("touching reported at t={} but already at t={} the separation is {} (target {}) A {:?} B {:?} sweeps {:?} {:?}", t, s, x, target_sep, a.cx, b.cx, sa, sb));
                }
            }
            ctx.evals += 1;
        }
        B2toioutputState::ESeparated => {
            ctx.check((t - t_max as f64).abs() < 1e-6, || format!("separated but t={} t_max={}", t, t_max));
            if let Some((s, x)) = first_below(target_sep - 2.0 * tol - bend, t_max as f64) {
                ctx.fail(format!("separated reported but at t={} the separation is {} (target {}) A {:?} B {:?} sweeps {:?} {:?}", s, x, target_sep, a.cx, b.cx, sa, sb));
            }
            ctx.evals += 1;
        }
        B2toioutputState::EOverlapped => {
            ctx.check(d0 <= 1e-4 * scale, || format!("overlap reported at start but the cores are {} apart", d0));
            ctx.check(t == 0.0, || format!("overlap reported with t={}", t));
        }
        B2toioutputState::EFailed => {
            // allowed to give up, but not silently on easy input: no rotation
            ctx.check(spin > 0.0, || format!("failed without any rotation: sweeps {:?} {:?} A {:?} B {:?}", sa, sb, a.cx, b.cx));
        }
        B2toioutputState::EUnknown => ctx.fail("state unknown returned".into()),
    }
    if d0 <= 0.0 {
        let ov = matches!(out.state, B2toioutputState::EOverlapped);
        let deep = core_separation(&a.cx.moved(&sweep_xf(&sa, 0.0)), &b.cx.moved(&sweep_xf(&sb, 0.0))) < -1e-4 * scale;
        if deep {
            ctx.check(ov, || format!("cores overlap at the start but {:?} was reported", out.state));
        }
    }
}

pub fn props() -> Vec<Property> {
    vec![
        Property {
            id: "C15",
            rule: "a distinct pair placement whose distance and witness points were compared with the reference",
            parts: vec![part("distance", 200000, 2000000, c15_case), part("overlap", 100000, 1000000, c15_overlap)],
            required: vec![("apart", 20000), ("overlapping", 3000), ("warm", 10000), ("overlap_true", 2000), ("overlap_false", 2000)],
            assumptions: "Tolerance 1e-5 of the scene scale.",
        },
        Property {
            id: "C16",
            rule: "a distinct cast that truly comes to touch",
            parts: vec![part("cast", 200000, 2000000, c16_case)],
            required: vec![("hit", 3000), ("miss", 2000)],
            assumptions: "Touch is meant to within the polygon skin (0.01) and slop; casts within that band of a miss, and starts in touch, are skipped.",
        },
        Property {
            id: "C17",
            rule: "a distinct pair of sweeps with a decided outcome",
            parts: vec![part("toi", 150000, 1500000, c17_case)],
            required: vec![("ETouching", 2000), ("ESeparated", 2000), ("EOverlapped", 200)],
            assumptions: "Earlier contact is looked for at 240 sample times.",
        },
    ]
}
