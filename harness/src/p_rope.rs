//! C43 ropes
use crate::core::*;
use crate::geo::*;
use crate::rec::*;
use box2d_rs::b2_math::*;
use box2d_rs::b2_rope::*;

const STRETCH: [B2stretchingModel; 2] = [B2stretchingModel::B2PbdStretchingModel, B2stretchingModel::B2XpbdStretchingModel];
const BEND: [B2bendingModel; 6] = [
    B2bendingModel::B2SpringAngleBendingModel,
    B2bendingModel::B2PbdAngleBendingModel,
    B2bendingModel::B2XpbdAngleBendingModel,
    B2bendingModel::B2PbdDistanceBendingModel,
    B2bendingModel::B2PbdHeightBendingModel,
    B2bendingModel::B2PbdTriangleBendingModel,
];
const BEND_NAME: [&str; 6] = ["spring angle", "angle", "compliant angle", "distance", "height", "triangle"];
const TWO_PI: f64 = 2.0 * std::f64::consts::PI;

fn copy(r: &B2ropeDef) -> B2ropeDef {
    B2ropeDef { position: r.position, vertices: r.vertices.clone(), gravity: r.gravity, tuning: r.tuning }
}
fn made(d: &B2ropeDef) -> B2rope {
    let mut r = B2rope::default();
    r.create(d);
    r
}
/// where the points of a rope are, and which it shows as fixed, as far as the drawing is a chain of them
fn points(ctx: &mut Ctx, r: &B2rope, n: usize) -> Option<(Vec<V>, Vec<Rgb>)> {
    let mut rec = Rec::default();
    r.draw(&mut rec);
    let pts: Vec<(V, Rgb)> = rec.calls.iter().filter_map(|c| match c { Dr::Point(p, _, c) => Some((d(*p), *c)), _ => None }).collect();
    let segs: Vec<(V, V)> = rec.calls.iter().filter_map(|c| match c { Dr::Seg(p, q, _) => Some((d(*p), d(*q))), _ => None }).collect();
    ctx.evals += 1;
    let same = |p: V, q: V| (p.x.to_bits(), p.y.to_bits()) == (q.x.to_bits(), q.y.to_bits()) || (p - q).len() == 0.0;
    if pts.len() != n || segs.len() + 1 != n || rec.calls.len() != 2 * n - 1 || (0..n - 1).any(|i| !same(segs[i].0, pts[i].0) || !same(segs[i].1, pts[i + 1].0)) {
        ctx.fail(format!("drawing a rope of {} points gives {} points and {} segments which do not chain: {:?}", n, pts.len(), segs.len(), rec.calls));
        return None;
    }
    Some((pts.iter().map(|p| p.0).collect(), pts.iter().map(|p| p.1).collect()))
}
fn told(t: &B2ropeTuning) -> String {
    let k = BEND.iter().position(|b| *b == t.bending_model).unwrap();
    format!("{} stretching stiffness {} at {} per second damped {}, bending by {} stiffness {} at {} per second damped {}{}{}, damping {}", if t.stretching_model == STRETCH[0] { "rigid" } else { "compliant" }, t.stretch_stiffness, t.stretch_hertz, t.stretch_damping, BEND_NAME[k], t.bend_stiffness, t.bend_hertz, t.bend_damping, if t.isometric { ", isometric" } else { "" }, if t.fixed_effective_mass { ", fixed mass" } else { "" }, t.damping)
}
fn finite(ctx: &mut Ctx, p: &[V], what: &str) -> bool {
    let ok = p.iter().all(|q| q.finite());
    ctx.check(ok, || format!("a rope point is not finite ({}): {:?}", what, p))
}
fn rand_tuning(rng: &mut Rng) -> B2ropeTuning {
    B2ropeTuning {
        stretching_model: *rng.pick(&STRETCH),
        bending_model: *rng.pick(&BEND),
        damping: if rng.chance(0.3) { 0.0 } else { rng.f(0.0, 3.0) },
        stretch_stiffness: *rng.pick(&[1.0f32, 1.0, 0.5, 0.1, 0.0]),
        stretch_hertz: *rng.pick(&[0.0f32, 1.0, 5.0, 30.0, 200.0]),
        stretch_damping: *rng.pick(&[0.0f32, 0.1, 1.0, 4.0]),
        bend_stiffness: *rng.pick(&[0.5f32, 1.0, 0.1, 0.0]),
        bend_hertz: *rng.pick(&[0.0f32, 0.5, 1.0, 3.0, 10.0]),
        bend_damping: *rng.pick(&[0.0f32, 0.1, 1.0]),
        isometric: rng.chance(0.5),
        fixed_effective_mass: rng.chance(0.5),
        warm_start: rng.chance(0.5),
    }
}
fn rand_def(rng: &mut Rng, pins: f64) -> B2ropeDef {
    let n = if rng.chance(0.3) { 3 } else { 3 + rng.below(18) };
    let seg = rng.log(0.05, 1.0);
    let mut p = B2vec2::zero();
    let mut a = rng.angle();
    let bend = *rng.pick(&[0.0f32, 0.1, 0.6]);
    let m = rng.log(0.1, 10.0);
    let spread = *rng.pick(&[1.0f32, 2.0, 10.0]);
    let mut vertices = vec![];
    for _ in 0..n {
        let mass = if rng.chance(pins) { 0.0 } else { m * rng.log(1.0 / spread, spread) };
        vertices.push(B2ropeDefVertices { position: p, mass });
        a += bend * rng.f(-1.0, 1.0);
        let l = seg * rng.f(0.7, 1.4);
        p = p + B2vec2::new(l * a.cos(), l * a.sin());
    }
    B2ropeDef { position: rng.vec(20.0), vertices, gravity: if rng.chance(0.2) { B2vec2::zero() } else { rng.vec(10.0) }, tuning: rand_tuning(rng) }
}
fn scale(p: &[V]) -> f64 {
    p.iter().map(|q| q.x.abs().max(q.y.abs())).fold(0.0, f64::max)
}
fn rest(def: &B2ropeDef) -> Vec<f64> {
    def.vertices.windows(2).map(|w| (d(w[1].position) - d(w[0].position)).len()).collect()
}
fn lens(p: &[V]) -> Vec<f64> {
    p.windows(2).map(|w| (w[1] - w[0]).len()).collect()
}

/// pinned points go where they are told; nothing becomes non-finite; the unpinned centre of mass obeys gravity
fn c43_any(ctx: &mut Ctx) {
    let pins = *ctx.rng.pick(&[0.0, 0.0, 0.3, 0.6]);
    let mut def = rand_def(&mut ctx.rng, pins);
    if pins > 0.0 && ctx.rng.chance(0.7) { def.vertices[0].mass = 0.0; }
    if pins > 0.0 && ctx.rng.chance(0.15) {
        let k = ctx.rng.below(def.vertices.len() - 2);
        for i in 0..3 { def.vertices[k + i].mass = 0.0; }
        ctx.hit("three_pins");
    }
    if ctx.rng.chance(0.05) {
        let k = 1 + ctx.rng.below(def.vertices.len() - 1);
        def.vertices[k].position = def.vertices[k - 1].position;
        ctx.hit("zero_segment");
    }
    let n = def.vertices.len();
    let free = def.vertices.iter().all(|q| q.mass > 0.0);
    let mut r = made(&def);
    let mut pos = def.position;
    let (mut prev, cols) = match points(ctx, &r, n) { Some(x) => x, None => return };
    for i in 0..n {
        let e = d(def.vertices[i].position) + d(pos);
        ctx.near("created point x", prev[i].x, e.x, 2e-6 * (1.0 + scale(&prev)));
        ctx.near("created point y", prev[i].y, e.y, 2e-6 * (1.0 + scale(&prev)));
        for j in 0..i {
            let same = (def.vertices[i].mass > 0.0) == (def.vertices[j].mass > 0.0);
            ctx.check((cols[i] == cols[j]) == same, || format!("points {} and {} (masses {} and {}) drawn in {:?} and {:?}", i, j, def.vertices[i].mass, def.vertices[j].mass, cols[i], cols[j]));
        }
    }
    if ctx.failed() { return; }
    let k = BEND.iter().position(|b| *b == def.tuning.bending_model).unwrap();
    ctx.hit(["bend_spring", "bend_angle", "bend_compliant", "bend_distance", "bend_height", "bend_triangle"][k]);
    ctx.hit(if def.tuning.stretching_model == STRETCH[0] { "stretch_rigid" } else { "stretch_compliant" });
    let mt: f64 = def.vertices.iter().map(|q| q.mass as f64).sum();
    let cm = |p: &[V]| { let mut s = v(0.0, 0.0); for (q, w) in p.iter().zip(&def.vertices) { s = s + (w.mass as f64 / mt) * *q; } s };
    let mut vel = v(0.0, 0.0);
    let fixed_dt = 1.0 / *ctx.rng.pick(&[30.0f32, 60.0, 120.0]);
    let vary = ctx.rng.chance(0.3);
    let path = ctx.rng.below(3);
    let it = *ctx.rng.pick(&[0i32, 1, 4, 8, 30]);
    let tame = def.tuning.stretching_model == STRETCH[0] && def.tuning.stretch_stiffness == 1.0 && it >= 4 && path != 2 && !(k == 2 && def.tuning.isometric) && def.tuning.bend_hertz <= 1.0 && def.tuning.bend_stiffness <= 0.5;
    for s in 0..40 {
        let dt = if vary { fixed_dt * ctx.rng.f(0.5, 1.5) } else { fixed_dt };
        match path { 0 => {} 1 => pos = pos + (dt * 2.0) * ctx.rng.vec(5.0), _ => if ctx.rng.chance(0.1) { pos = ctx.rng.vec(30.0) } }
        ctx.log(|| format!("step {} dt {} pos {:?} masses {:?} rest {:?} points {:?}", s, dt, pos, def.vertices.iter().map(|q| q.mass).collect::<Vec<_>>(), rest(&def), prev));
        r.step(dt, it, pos);
        let (now, c2) = match points(ctx, &r, n) { Some(x) => x, None => return };
        if scale(&now) > 1e4 && now.iter().all(|q| q.finite()) { ctx.hit("wild"); return; }
        // an isometric rope bends by its rest lengths, so that one pulled out of shape is bent too far and can run away
        // and a folded angle has no direction to unbend in, so that a slack rope bent by angles can too
        if (def.tuning.isometric || k < 3) && !tame && !now.iter().all(|q| q.finite()) { ctx.hit("runaway"); return; }
        if !finite(ctx, &now, &format!("step {}, {}, {} iterations", s, told(&def.tuning), it)) { return; }
        ctx.check(c2 == cols, || format!("the colours of points changed from {:?} to {:?}", cols, c2));
        let sc = 1.0 + scale(&now).max(scale(&prev));
        for i in 0..n {
            if def.vertices[i].mass > 0.0 { continue; }
            ctx.hit("pin");
            let e = d(def.vertices[i].position) + d(pos);
            let m = (now[i] - e).len();
            ctx.max("pin_off", m / sc);
            ctx.check(m <= 2e-6 * sc, || format!("step {}: pinned point {} is at {:?}, told to be at {:?}", s, i, now[i], e));
        }
        if free && (tame || !def.tuning.isometric && !(k == 0 && def.tuning.bend_hertz > 1.0)) {
            ctx.hit("free_step");
            let e = cm(&prev) + (dt as f64) * ((-(dt as f64) * def.tuning.damping as f64).exp() * vel + (dt as f64) * d(def.gravity));
            let c = cm(&now);
            let m = (c - e).len();
            let tol = 4e-7 * sc * (1.0 + it as f64).sqrt() * 3.0;
            ctx.max("free_centre_off", m / tol);
            ctx.check(m <= tol, || format!("step {} of a free rope ({}, {} iterations): its centre of mass is at {:?}, gravity and damping take it to {:?}", s, BEND_NAME[k], it, c, e));
            vel = (1.0 / dt as f64) * (c - cm(&prev));
        }
        if ctx.failed() { return; }
        prev = now;
    }
    ctx.distinct(hash_words(&[n as u64, k as u64, def.tuning.stretching_model as u64, free as u64, it as u64, ctx.idx % 64]));
}

/// one step of a bending model straightens a bent rope of three points by the amount its stiffness says
fn c43_bend(ctx: &mut Ctx) {
    let k = ctx.rng.below(6);
    let th = ctx.rng.f(0.05, 0.5) * ctx.rng.sign();
    let (l1, l2) = (ctx.rng.f(0.3, 1.5), ctx.rng.f(0.3, 1.5));
    let a0 = ctx.rng.angle();
    let p0 = ctx.rng.vec(2.0);
    let p1 = p0 + l1 * B2vec2::new(a0.cos(), a0.sin());
    let p2 = p1 + l2 * B2vec2::new((a0 + th).cos(), (a0 + th).sin());
    let equal = ctx.rng.chance(0.3);
    let mut ms = [0.0f32; 3];
    let m0 = ctx.rng.log(0.1, 10.0);
    for m in ms.iter_mut() { *m = if equal { m0 } else { m0 * ctx.rng.f(0.5, 2.0) }; }
    let pinned = if equal || ctx.rng.chance(0.4) { 3 } else { ctx.rng.below(3) };
    if pinned < 3 { ms[pinned] = 0.0; ctx.hit("with_pin"); }
    let mut t = B2ropeTuning::default();
    t.bending_model = BEND[k];
    t.stretch_stiffness = 0.0;
    if ctx.rng.chance(0.3) { t.stretching_model = STRETCH[1]; t.stretch_hertz = 0.0; }
    t.bend_stiffness = *ctx.rng.pick(&[0.05f32, 0.1, 0.5, 1.0]);
    t.isometric = ctx.rng.chance(0.5);
    t.fixed_effective_mass = ctx.rng.chance(0.5);
    t.bend_hertz = *ctx.rng.pick(&[0.5f32, 1.0, 2.0]);
    t.bend_damping = if ctx.rng.chance(0.5) { 0.0 } else { ctx.rng.f(0.0, 1.0) };
    let dt = 1.0 / ctx.rng.f(30.0, 120.0);
    let vertices = (0..3).map(|i| B2ropeDefVertices { position: [p0, p1, p2][i], mass: ms[i] }).collect();
    let def = B2ropeDef { position: B2vec2::zero(), vertices, gravity: B2vec2::zero(), tuning: t };
    let mut r = made(&def);
    let (a, _) = match points(ctx, &r, 3) { Some(x) => x, None => return };
    r.step(dt, 1, B2vec2::zero());
    let (b, _) = match points(ctx, &r, 3) { Some(x) => x, None => return };
    if !finite(ctx, &b, "bending") { return; }
    let angle = |p: &[V]| { let (x, y) = (p[1] - p[0], p[2] - p[1]); x.cross(y).atan2(x.dot(y)) };
    let (ta, tb) = (angle(&a), angle(&b));
    let w = (TWO_PI * t.bend_hertz as f64 * dt as f64).powi(2);
    let sg = 2.0 * t.bend_damping as f64 / (TWO_PI * t.bend_hertz as f64 * dt as f64);
    ctx.hit(["bend_spring", "bend_angle", "bend_compliant", "bend_distance", "bend_height", "bend_triangle"][k]);
    let s = t.bend_stiffness as f64;
    let d1 = || format!("bending by {} of {} at {} per second damped {}, stiffness {}, step {}, masses {:?}: points {:?} to {:?}", BEND_NAME[k], ta, t.bend_hertz, t.bend_damping, s, dt, ms, a, b);
    // the share of the bend that one step should take away, to first order
    let share = match k { 0 => w, 1 => s, 2 => 1.0 / (1.0 + sg + 1.0 / w), _ => 0.0 };
    match k {
        0 | 1 | 2 => {
            let got = (ta - tb) / ta;
            if share < 0.15 {
                ctx.hit("angle_rate");
                ctx.max("angle_rate_off", (got / share - 1.0).abs());
                ctx.check((got - share).abs() <= 0.12 * share + 2e-5 / ta.abs(), || format!("{} takes {} of the bend away instead of {}", d1(), got, share));
            } else {
                ctx.hit("angle_part");
                ctx.check(tb.abs() <= (1.0 - 0.6 * share) * ta.abs() + 1e-5, || format!("{} leaves a bend of {}", d1(), tb));
            }
        }
        3 => {
            if ms[0] == 0.0 && ms[2] == 0.0 { ctx.hit("nothing_free"); return; }
            let (la, lb) = ((a[2] - a[0]).len(), (b[2] - b[0]).len());
            let e = la + s * ((a[1] - a[0]).len() + (a[2] - a[1]).len() - la);
            ctx.check((lb - e).abs() <= 1e-5, || format!("{} makes the ends {} apart instead of {}", d1(), lb, e));
        }
        4 => {
            let rr = a[2] - a[0];
            let f = (a[1] - a[0]).dot(rr) / rr.dot(rr);
            let h = |p: &[V]| p[1] - ((1.0 - f) * p[0] + f * p[2]);
            let m = (h(&b) - (1.0 - s) * h(&a)).len();
            ctx.check(m <= 1e-5, || format!("{} leaves the middle {:?} from where it is over the line of the ends instead of {} of {:?}", d1(), h(&b), 1.0 - s, h(&a)));
        }
        _ => {
            let h = |p: &[V]| p[1] - 0.5 * (p[0] + p[2]);
            if equal {
                let m = (h(&b) - (1.0 - s) * h(&a)).len();
                ctx.check(m <= 1e-5, || format!("{} leaves the middle {:?} off half-way between its neighbours instead of {} of {:?}", d1(), h(&b), 1.0 - s, h(&a)));
            } else {
                ctx.check(h(&b).len() <= (1.0 - 0.6 * s) * h(&a).len() + 1e-5, || format!("{} leaves the middle {:?} off half-way between its neighbours, from {:?}", d1(), h(&b), h(&a)));
            }
        }
    }
    // the centre of mass does not move when nothing is pinned, and with no stretching nothing turns the rope as a whole
    ctx.distinct(hash_words(&[k as u64, pinned as u64, t.isometric as u64, ctx.idx]));
}

/// stiff ropes keep their lengths while hanging, swinging and being carried about
fn c43_length(ctx: &mut Ctx) {
    let mut def = rand_def(&mut ctx.rng, 0.0);
    def.vertices.truncate(8);
    let n = def.vertices.len();
    def.vertices[0].mass = 0.0;
    if ctx.rng.chance(0.3) { def.vertices[n - 1].mass = 0.0; ctx.hit("both_ends"); }
    let m0 = ctx.rng.log(0.1, 10.0);
    for q in def.vertices.iter_mut() { if q.mass > 0.0 { q.mass = m0 * ctx.rng.f(0.6, 1.6); } }
    let t = &mut def.tuning;
    t.stretch_stiffness = 1.0;
    t.stretching_model = STRETCH[(ctx.idx % 2) as usize];
    t.stretch_hertz = 300.0;
    t.stretch_damping = 0.0;
    t.damping = ctx.rng.f(0.0, 1.0);
    if t.bending_model == BEND[0] { t.bend_hertz = t.bend_hertz.min(1.0); }
    t.bend_stiffness = t.bend_stiffness.min(0.02);
    let l = rest(&def);
    let mut r = made(&def);
    let mut pos = def.position;
    let it = 200;
    let dt = 1.0 / 60.0;
    let amp = if ctx.rng.chance(0.5) { 0.0 } else { ctx.rng.f(0.1, 1.0) };
    for s in 0..60 {
        let ph = s as f32 * 0.1;
        pos = def.position + amp * l[0] as f32 * B2vec2::new(ph.sin(), (0.7 * ph).sin());
        r.step(dt, it, pos);
        let (p, _) = match points(ctx, &r, n) { Some(x) => x, None => return };
        if !finite(ctx, &p, "hanging") { return; }
        for (i, x) in lens(&p).iter().enumerate() {
            let off = (x / l[i] - 1.0).abs();
            ctx.max(if ctx.idx % 2 == 0 { "rigid_length_off" } else { "compliant_length_off" }, off);
            ctx.check(off <= 0.05, || format!("step {}: segment {} of {} is {} long, {} at rest ({} iterations, {} stretching, {})", s, i, n - 1, x, l[i], it, ["rigid", "compliant"][(def.tuning.stretching_model == STRETCH[1]) as usize], BEND_NAME[BEND.iter().position(|b| *b == def.tuning.bending_model).unwrap()]));
        }
        if ctx.failed() { return; }
    }
    let _ = pos;
    ctx.distinct(ctx.idx);
}

/// a hanging rope settles: stretched by its weight over its stiffness, or bent by gravity's moment over its stiffness
fn c43_sag(ctx: &mut Ctx) {
    let dt = 1.0 / *ctx.rng.pick(&[60.0f32, 120.0]);
    let g = ctx.rng.f(2.0, 10.0);
    let (gx, gy) = { let a = ctx.rng.angle(); (a.cos(), a.sin()) };
    let down = B2vec2::new(gx, gy);
    let mut t = B2ropeTuning::default();
    t.damping = ctx.rng.f(2.0, 5.0);
    t.isometric = ctx.rng.chance(0.5);
    t.fixed_effective_mass = ctx.rng.chance(0.5);
    let stretch = ctx.rng.chance(0.5);
    let off = ctx.rng.vec(3.0);
    if stretch {
        ctx.hit("stretch_settles");
        let n = 3 + ctx.rng.below(4);
        t.stretching_model = STRETCH[1];
        t.stretch_hertz = ctx.rng.f(3.0, 12.0);
        t.stretch_damping = ctx.rng.f(0.1, 1.0);
        t.bending_model = BEND[3];
        t.bend_stiffness = 0.0;
        let l = ctx.rng.f(0.5, 1.5);
        let m = ctx.rng.log(0.1, 10.0);
        let mut vertices = vec![];
        for i in 0..n { vertices.push(B2ropeDefVertices { position: (i as f32 * l) * down, mass: if i == 0 { 0.0 } else { m * ctx.rng.f(0.5, 2.0) } }); }
        let def = B2ropeDef { position: off, vertices, gravity: g * down, tuning: t };
        let mut r = made(&def);
        let mut last = vec![];
        let mut still = 0;
        for _ in 0..3000 {
            r.step(dt, 40, off);
            let (p, _) = match points(ctx, &r, n) { Some(x) => x, None => return };
            if !finite(ctx, &p, "settling") { return; }
            let mv = if last.is_empty() { 1.0 } else { p.iter().zip(&last).map(|(a, b): (&V, &V)| (*a - *b).len()).fold(0.0, f64::max) };
            last = p;
            still = if mv < 3e-6 { still + 1 } else { 0 };
            if still > 20 { break; }
        }
        if still <= 20 { ctx.hit("not_settled"); return; }
        ctx.hit("settled");
        let w = (TWO_PI * t.stretch_hertz as f64).powi(2);
        for i in 0..n - 1 {
            let inv = |q: &B2ropeDefVertices| if q.mass > 0.0 { 1.0 / q.mass as f64 } else { 0.0 };
            let k = w / (inv(&def.vertices[i]) + inv(&def.vertices[i + 1]));
            let below: f64 = def.vertices[i + 1..].iter().map(|q| q.mass as f64).sum();
            let e = l as f64 + below * g as f64 / k;
            let x = (last[i + 1] - last[i]).len();
            ctx.max("stretch_off", (x - e).abs() / e);
            ctx.check((x - e).abs() <= 0.01 * (e - l as f64) + 1e-3, || format!("segment {} at {} per second holding {} against gravity {}: settles at {}, its spring says {}", i, t.stretch_hertz, below, g, x, e));
        }
    } else {
        ctx.hit("bend_settles");
        let k = if ctx.rng.chance(0.5) { 0 } else { 2 };
        t.bending_model = BEND[k];
        t.bend_hertz = ctx.rng.f(1.5, 4.0);
        t.bend_damping = ctx.rng.f(0.1, 0.7);
        let (l1, l2) = (ctx.rng.f(0.5, 1.5), ctx.rng.f(0.3, 1.5));
        let side = ctx.rng.sign();
        let along = B2vec2::new(-side * gy, side * gx);
        let m = ctx.rng.log(0.1, 10.0);
        let tilt = ctx.rng.f(-0.3, 0.3);
        let dir = tilt.cos() * along + tilt.sin() * down;
        let pts = [B2vec2::zero(), l1 * along, l1 * along + l2 * dir];
        let def = B2ropeDef { position: off, vertices: (0..3).map(|i| B2ropeDefVertices { position: pts[i], mass: if i < 2 { 0.0 } else { m } }).collect(), gravity: g * down, tuning: t };
        let mut r = made(&def);
        let mut last = vec![];
        let mut still = 0;
        for _ in 0..3000 {
            r.step(dt, 30, off);
            let (p, _) = match points(ctx, &r, 3) { Some(x) => x, None => return };
            if !finite(ctx, &p, "settling") { return; }
            let mv = if last.is_empty() { 1.0 } else { p.iter().zip(&last).map(|(a, b): (&V, &V)| (*a - *b).len()).fold(0.0, f64::max) };
            last = p;
            still = if mv < 3e-6 { still + 1 } else { 0 };
            if still > 20 { break; }
        }
        if still <= 20 { ctx.hit("not_settled"); return; }
        ctx.hit("settled");
        // g cos(th) = l w^2 th
        let w = (TWO_PI * t.bend_hertz as f64).powi(2);
        let (x, y) = (last[1] - last[0], last[2] - last[1]);
        let th = x.cross(y).atan2(x.dot(y)).abs();
        let want = { let mut q = 0.0f64; for _ in 0..200 { q = 0.5 * q + 0.5 * (g as f64 * q.cos() / (l2 as f64 * w)); } q };
        // the damper may also act on the speed gravity adds within a step
        let low = if k == 0 { want * (1.0 - 2.0 * t.bend_damping as f64 * w.sqrt() * dt as f64) } else { want };
        ctx.max("bend_off", (th - want).abs().min((th - low).abs()));
        ctx.check(th <= 1.03 * want + 2e-3 && th >= 0.97 * low - 2e-3, || format!("a point {} beyond two pinned ones, bending by {} at {} per second against gravity {}: settles at an angle of {}, its spring says {}", l2, BEND_NAME[k], t.bend_hertz, g, th, want));
    }
    ctx.distinct(ctx.idx);
}

/// resetting, zero steps, making again, late tuning, and moving or mirroring the whole
fn c43_again(ctx: &mut Ctx) {
    let mut def = rand_def(&mut ctx.rng, 0.2);
    def.position = ctx.rng.vec(3.0);
    if ctx.rng.chance(0.1) {
        let k = 1 + ctx.rng.below(def.vertices.len() - 1);
        def.vertices[k].position = def.vertices[k - 1].position;
        ctx.hit("zero_segment");
    }
    if def.tuning.bending_model == BEND[0] { def.tuning.bend_hertz = def.tuning.bend_hertz.min(1.0); }
    let n = def.vertices.len();
    let dt = 1.0 / 60.0;
    let it = 1 + ctx.rng.below(8) as i32;
    let seed = ctx.rng.u64();
    let shift = ctx.rng.vec(3.0);
    let run = |ctx: &mut Ctx, r: &mut B2rope, base: B2vec2, k: usize| -> Option<Vec<V>> {
        let mut q = Rng::new(seed);
        let mut out = vec![];
        for _ in 0..k {
            let p = base + q.vec(0.2);
            r.step(dt, it, p);
            out.extend(points(ctx, r, n)?.0);
        }
        Some(out)
    };
    let mut a = made(&def);
    let one = match run(ctx, &mut a, def.position, 10) { Some(x) => x, None => return };
    if one.iter().any(|q| !q.finite()) || scale(&one) > 1e3 { ctx.hit("wild"); return; }
    let same = |ctx: &mut Ctx, what: &str, x: &[V], y: &[V]| {
        let m = x.iter().zip(y).map(|(p, q)| (*p - *q).len()).fold(0.0, f64::max);
        ctx.check(x.len() == y.len() && m == 0.0, || format!("{}: points differ by {}", what, m));
    };
    // a zero step
    let before = match points(ctx, &a, n) { Some(x) => x.0, None => return };
    let mut twin = made(&def);
    let _ = match run(ctx, &mut twin, def.position, 10) { Some(x) => x, None => return };
    a.step(0.0, it, def.position + shift);
    let after = match points(ctx, &a, n) { Some(x) => x.0, None => return };
    same(ctx, "a zero step", &before, &after);
    let x = match run(ctx, &mut a, def.position, 3) { Some(x) => x, None => return };
    let y = match run(ctx, &mut twin, def.position, 3) { Some(x) => x, None => return };
    same(ctx, "going on after a zero step", &x, &y);
    ctx.hit("zero_step");
    // reset puts it back as made at the new place
    let mut d2 = copy(&def);
    d2.position = def.position + shift;
    let place = d2.position;
    a.reset(place);
    let p = match points(ctx, &a, n) { Some(x) => x.0, None => return };
    let fresh = made(&d2);
    let q = match points(ctx, &fresh, n) { Some(x) => x.0, None => return };
    same(ctx, "reset", &p, &q);
    a.reset(def.position);
    let x = match run(ctx, &mut a, def.position, 10) { Some(x) => x, None => return };
    same(ctx, "going on after a reset", &x, &one);
    ctx.hit("reset");
    // created over another rope
    let other = rand_def(&mut ctx.rng, 0.3);
    let mut over = made(&other);
    over.step(dt, it, other.position);
    over.create(&def);
    let x = match run(ctx, &mut over, def.position, 10) { Some(x) => x, None => return };
    same(ctx, "created over another rope", &x, &one);
    // tuned afterwards
    let mut late = copy(&def);
    late.tuning = rand_tuning(&mut ctx.rng);
    let mut late = made(&late);
    late.set_tuning(&def.tuning);
    let x = match run(ctx, &mut late, def.position, 10) { Some(x) => x, None => return };
    same(ctx, "tuned after being created", &x, &one);
    ctx.hit("late_tuning");
    if ctx.failed() { return; }
    // turned and mirrored
    let turn = ctx.rng.angle();
    let mir = if ctx.rng.chance(0.5) { -1.0f32 } else { 1.0 };
    let mv = |p: B2vec2| { let (s, c) = turn.sin_cos(); let q = B2vec2::new(p.x, mir * p.y); B2vec2::new(c * q.x - s * q.y, s * q.x + c * q.y) };
    let mvd = |p: V| { let (s, c) = (turn as f64).sin_cos(); let q = v(p.x, mir as f64 * p.y); v(c * q.x - s * q.y, s * q.x + c * q.y) };
    // a fold can open either way
    let by_angle = def.tuning.bending_model == BEND[0] || def.tuning.bending_model == BEND[1] || def.tuning.bending_model == BEND[2];
    let steps = if by_angle { 2 } else { 6 };
    if by_angle && one[..steps * n].chunks(n).any(|p| p.windows(3).any(|q| { let (x, y) = (q[1] - q[0], q[2] - q[1]); x.cross(y).atan2(x.dot(y)).abs() > 1.2 })) { ctx.hit("folding"); return; }
    let mut noise = 0.0f64;
    for pass in 0..25 {
        let mut nd = copy(&def);
        for q in nd.vertices.iter_mut() { q.position = if pass == 0 { mv(q.position) } else { q.position + [2e-7, 1e-6, 4e-6][pass % 3] * (1.0 + q.position.length()) * ctx.rng.vec(1.0) }; }
        if pass == 0 { nd.gravity = mv(nd.gravity); nd.position = mv(nd.position); }
        let mut r = made(&nd);
        let mut q = Rng::new(seed);
        let mut worst = 0.0f64;
        for k in 0..steps {
            let p = def.position + q.vec(0.2);
            r.step(dt, it, if pass == 0 { mv(p) } else { p });
            let pts = match points(ctx, &r, n) { Some(x) => x.0, None => return };
            for (i, z) in pts.iter().enumerate() {
                let w = one[k * n + i];
                worst = worst.max((*z - if pass == 0 { mvd(w) } else { w }).len());
            }
        }
        if pass == 0 { noise = worst; continue; }
        // the moved one came first: it may differ by what disturbing the shape does
        let tol = 1e-4 + 30.0 * worst;
        if worst > 3e-4 { ctx.hit("sensitive"); return; }
        if noise <= tol { ctx.hit(if mir < 0.0 { "mirrored" } else { "turned" }); ctx.evals += 1; ctx.max("moved_off", noise); return; }
        if pass == 24 { ctx.check(false, || format!("a turned{} rope moves differently by {} (disturbing its points changes it by {}), bending by {}", if mir < 0.0 { " and mirrored" } else { "" }, noise, worst, BEND_NAME[BEND.iter().position(|b| *b == def.tuning.bending_model).unwrap()])); }
    }
    ctx.distinct(ctx.idx);
}

/// ropes without stretching or bending fall freely; a rope that was not created draws and steps as nothing
fn c43_loose(ctx: &mut Ctx) {
    let mut none = B2rope::default();
    none.step(1.0 / 60.0, 4, B2vec2::new(1.0, 2.0));
    none.reset(B2vec2::new(1.0, 2.0));
    none.set_tuning(&B2ropeTuning::default());
    let mut rec = Rec::default();
    none.draw(&mut rec);
    ctx.check(rec.calls.is_empty(), || format!("a rope that was not created draws {:?}", rec.calls));
    let mut def = rand_def(&mut ctx.rng, 0.2);
    let t = &mut def.tuning;
    t.stretch_stiffness = 0.0;
    t.stretch_hertz = 0.0;
    t.bend_stiffness = 0.0;
    t.bend_hertz = 0.0;
    let n = def.vertices.len();
    let mut r = made(&def);
    let mut at: Vec<V> = def.vertices.iter().map(|q| d(q.position) + d(def.position)).collect();
    let mut vel = vec![v(0.0, 0.0); n];
    let dt = 1.0 / ctx.rng.f(30.0, 120.0);
    for s in 0..20 {
        r.step(dt, 5, def.position);
        let (p, _) = match points(ctx, &r, n) { Some(x) => x, None => return };
        if !finite(ctx, &p, "falling loose") { return; }
        for i in 0..n {
            if def.vertices[i].mass > 0.0 {
                vel[i] = (-(dt as f64) * def.tuning.damping as f64).exp() * vel[i] + dt as f64 * d(def.gravity);
                at[i] = at[i] + dt as f64 * vel[i];
                ctx.hit("falling");
            }
            let m = (p[i] - at[i]).len();
            ctx.check(m <= 1e-4 * (1.0 + s as f64), || format!("step {}: point {} of a rope with no stiffness is at {:?}, free fall takes it to {:?}", s, i, p[i], at[i]));
        }
        if ctx.failed() { return; }
    }
    ctx.distinct(ctx.idx);
}

/// a point between two pins on compliant stretching swings along the rope as a damped oscillator
fn c43_swing(ctx: &mut Ctx) {
    let a0 = ctx.rng.angle();
    let u = B2vec2::new(a0.cos(), a0.sin());
    let l = ctx.rng.f(1.0, 3.0);
    let m = ctx.rng.log(0.1, 10.0);
    let mut t = B2ropeTuning::default();
    t.stretching_model = STRETCH[1];
    t.bending_model = BEND[1];
    t.bend_stiffness = 0.0;
    t.stretch_hertz = ctx.rng.f(1.0, 4.0);
    t.stretch_damping = if ctx.rng.chance(0.2) { 0.0 } else { ctx.rng.f(0.05, 1.5) };
    t.damping = if ctx.rng.chance(0.5) { 0.0 } else { ctx.rng.f(0.1, 1.0) };
    let w = TWO_PI * t.stretch_hertz as f64;
    // far from slack: the pull of gravity moves the point by a small part of a segment
    let g = (w * w * l as f64 * ctx.rng.f(0.05, 0.3) as f64 * ctx.rng.sign() as f64) as f32;
    let dt = 1.0 / *ctx.rng.pick(&[30.0f32, 60.0, 120.0]);
    let o = ctx.rng.vec(3.0);
    let vertices = (0..3).map(|i| B2ropeDefVertices { position: (i as f32 * l) * u, mass: if i == 1 { m } else { 0.0 } }).collect();
    let mut r = made(&B2ropeDef { position: o, vertices, gravity: g * u, tuning: t });
    let (h, d) = (dt as f64, (-dt as f64 * t.damping as f64).exp());
    let (mut x, mut v, mut top) = (0.0f64, 0.0f64, 1e-3f64);
    for s in 0..60 {
        r.step(dt, 150, o);
        let (p, _) = match points(ctx, &r, 3) { Some(x) => x, None => return };
        if !finite(ctx, &p, "swinging") { return; }
        v = (d * v + h * g as f64 - 2.0 * w * w * h * x) / (1.0 + 2.0 * w * w * h * h + 4.0 * t.stretch_damping as f64 * w * h);
        x += h * v;
        top = top.max(x.abs());
        let got = (p[1] - p[0]).dot(crate::geo::d(u)) - l as f64;
        // one side is pushed together, so in the end the point evades sideways
        if (p[1] - p[0]).cross(crate::geo::d(u)).abs() > 0.02 * l as f64 && s > 15 { ctx.hit("evades"); break; }
        ctx.max("swing_off", (got - x).abs() / top);
        ctx.check((got - x).abs() <= 0.02 * top + 1e-4, || format!("step {}: a point of mass {} between two pins {} away is {} from the middle, expected {} (gravity {}, {})", s, m, l, got, x, g, told(&t)));
        if ctx.failed() { return; }
    }
    ctx.hit(if t.stretch_damping > 0.0 { "swing_damped" } else { "swing_free" });
    ctx.distinct(ctx.idx);
}

pub fn props() -> Vec<Property> {
    vec![Property {
        id: "C43",
        rule: "ropes of 3 to 20 points with random shapes, masses, pins, gravity, tunings of both stretching and all six bending models, iteration counts, time steps and paths of the carrying position are stepped; what their drawing shows is compared with: pinned points at the place told, the centre of mass of unpinned ropes under gravity and damping alone (constraints conserve momentum), the share of a bend one step of each model takes away, rest lengths of stiff ropes, the settled extension and angle of springy ones, fresh ropes after reset or re-creation, and the turned or mirrored rope",
        parts: vec![
            part("any", 50000, 1200000, c43_any),
            part("bend", 100000, 2400000, c43_bend),
            part("length", 700, 20000, c43_length),
            part("sag", 400, 10000, c43_sag),
            part("again", 20000, 500000, c43_again),
            part("loose", 20000, 500000, c43_loose),
            part("swing", 4000, 60000, c43_swing),
        ],
        required: vec![("pin", 3000000), ("free_step", 300000), ("three_pins", 2000), ("zero_segment", 2500), ("bend_spring", 15000), ("bend_angle", 15000), ("bend_compliant", 15000), ("bend_distance", 15000), ("bend_height", 15000), ("bend_triangle", 15000), ("angle_rate", 25000), ("angle_part", 5000), ("settled", 250), ("reset", 12000), ("late_tuning", 12000), ("turned", 5000), ("mirrored", 5000), ("falling", 2000000), ("swing_damped", 2000), ("swing_free", 400)],
        assumptions: "ropes whose explicit bending spring is too stiff for the time step grow without bound and are counted (wild) once beyond 10000 units; slack ropes bent by angles, or by rest lengths (isometric), can run away when folded or pulled far out of shape: those are counted (runaway) and not judged; lengths are judged at 200 iterations and stiff settings",
    }]
}
