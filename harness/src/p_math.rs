//! C42 math types
use crate::core::*;
use crate::geo::*;
use box2d_rs::b2_math::*;

const E: f64 = 1e-6;

fn num(rng: &mut Rng) -> f32 {
    match rng.below(6) {
        0 => rng.int(-3, 3) as f32,
        1 => rng.sign() * rng.log(1e-3, 1e3),
        _ => rng.f(-10.0, 10.0),
    }
}
fn vec(rng: &mut Rng) -> B2vec2 {
    b2v(num(rng), num(rng))
}
fn vec3(rng: &mut Rng) -> B2Vec3 {
    B2Vec3::new(num(rng), num(rng), num(rng))
}
fn m22(rng: &mut Rng) -> B2Mat22 {
    B2Mat22::new(vec(rng), vec(rng))
}
type M2 = [[f64; 2]; 2];
fn f2(m: B2Mat22) -> M2 {
    [[m.ex.x as f64, m.ey.x as f64], [m.ex.y as f64, m.ey.y as f64]]
}
fn near_v(ctx: &mut Ctx, what: &str, g: B2vec2, e: V, scale: f64) {
    let ok = (d(g) - e).len() <= 4.0 * E * scale.max(1e-12);
    ctx.check(ok, || format!("{}: got {:?} expected {:?}", what, g, e));
}
fn near_s(ctx: &mut Ctx, what: &str, g: f32, e: f64, scale: f64) {
    ctx.near(what, g as f64, e, 4.0 * E * scale.max(1e-12));
}

fn vectors(ctx: &mut Ctx) {
    let r = &mut ctx.rng;
    let (a, b, s) = (vec(r), vec(r), num(r));
    let (da, db) = (d(a), d(b));
    let sc = da.len() + db.len();
    ctx.distinct(hash_f(&[a.x, a.y, b.x, b.y, s]));
    ctx.sample(format!("a={:?} b={:?}", a, b));
    near_v(ctx, "a+b", a + b, da + db, sc);
    near_v(ctx, "a-b", a - b, da - db, sc);
    near_v(ctx, "-a", -a, da * -1.0, sc);
    near_v(ctx, "s*a", s * a, da * s as f64, sc * s.abs() as f64);
    let mut t = a; t += b; near_v(ctx, "a+=b", t, da + db, sc);
    let mut t = a; t -= b; near_v(ctx, "a-=b", t, da - db, sc);
    let mut t = a; t *= s; near_v(ctx, "a*=s", t, da * s as f64, sc * s.abs() as f64);
    near_s(ctx, "dot", b2_dot(a, b), da.dot(db), sc * sc);
    near_s(ctx, "cross", b2_cross(a, b), da.cross(db), sc * sc);
    near_v(ctx, "v x s", b2_cross_vec_by_scalar(a, s), v(s as f64 * da.y, -(s as f64) * da.x), sc * s.abs() as f64);
    near_v(ctx, "s x v", b2_cross_scalar_by_vec(s, a), v(-(s as f64) * da.y, s as f64 * da.x), sc * s.abs() as f64);
    near_s(ctx, "length", a.length(), da.len(), sc);
    near_s(ctx, "length2", a.length_squared(), da.dot(da), sc * sc);
    near_v(ctx, "skew", a.skew(), v(-da.y, da.x), sc);
    near_s(ctx, "distance", b2_distance_vec2(a, b), (da - db).len(), sc);
    near_s(ctx, "distance2", b2_distance_vec2_squared(a, b), (da - db).dot(da - db), sc * sc);
    let mut t = a;
    let l = t.normalize();
    if da.len() > 1e-5 {
        near_s(ctx, "normalize returns length", l, da.len(), sc);
        near_v(ctx, "normalize", t, da.norm(), 1.0);
        ctx.hit("normalized");
    } else {
        ctx.check(l == 0.0 && fin(t), || format!("normalize of tiny {:?} returned {} {:?}", a, l, t));
    }
    let mut z = b2v(0.0, 0.0);
    ctx.check(z.normalize() == 0.0 && z.x == 0.0 && z.y == 0.0, || format!("normalize of zero gives {:?}", z));
    ctx.check(a.get(0) == a.x && a.get(1) == a.y, || "component access".into());
    let mut t = a; t.set_by_index(0, s); ctx.check(t.x == s && t.y == a.y, || "set component 0".into());
    let mut t = a; t.set_by_index(1, s); ctx.check(t.y == s && t.x == a.x, || "set component 1".into());
    let mut t = a; t.set(s, b.x); ctx.check(t.x == s && t.y == b.x, || "set".into());
    t.set_zero(); ctx.check(t.x == 0.0 && t.y == 0.0, || "set_zero".into());
    ctx.check(B2vec2::zero() == b2v(0.0, 0.0) && B2vec2::new(s, a.x) == b2v(s, a.x), || "constructors".into());
    ctx.check(is_equal(a, a) && !not_equal(a, a) && is_equal(a, b) == (a.x == b.x && a.y == b.y) && not_equal(a, b) == (a.x != b.x || a.y != b.y), || format!("equality of {:?} {:?}", a, b));
    let c = b2v(a.x, b.y);
    ctx.check(is_equal(a, c) == (a.y == b.y) && not_equal(a, c) == (a.y != b.y), || format!("equality of {:?} {:?}", a, c));
    let c = b2v(b.x, a.y);
    ctx.check(is_equal(a, c) == (a.x == b.x) && not_equal(a, c) == (a.x != b.x), || format!("equality of {:?} {:?}", a, c));
    // min max clamp abs
    ctx.check(b2_min_vec2(a, b) == b2v(a.x.min(b.x), a.y.min(b.y)), || format!("min {:?} {:?}", a, b));
    ctx.check(b2_max_vec2(a, b) == b2v(a.x.max(b.x), a.y.max(b.y)), || format!("max {:?} {:?}", a, b));
    ctx.check(b2_abs_vec2(a) == b2v(a.x.abs(), a.y.abs()), || format!("abs {:?}", a));
    let (lo, hi) = (b2v(a.x.min(b.x), a.y.min(b.y)), b2v(a.x.max(b.x), a.y.max(b.y)));
    let p = vec(&mut ctx.rng);
    ctx.check(b2_clamp_vec2(p, lo, hi) == b2v(p.x.max(lo.x).min(hi.x), p.y.max(lo.y).min(hi.y)), || format!("clamp {:?} to {:?} {:?} = {:?}", p, lo, hi, b2_clamp_vec2(p, lo, hi)));
    ctx.check(b2_min(a.x, b.x) == a.x.min(b.x) && b2_max(a.x, b.x) == a.x.max(b.x) && b2_clamp(p.x, lo.x, hi.x) == p.x.max(lo.x).min(hi.x) && b2_abs(a.x) == a.x.abs(), || "scalar min/max/clamp/abs".into());
    let (i, j, k) = (ctx.rng.int(-1000, 1000), ctx.rng.int(-1000, 1000), ctx.rng.int(-1500, 1500));
    ctx.check(b2_min(i, j) == i.min(j) && b2_max(i, j) == i.max(j) && b2_abs_i32(i) == i.abs() && b2_clamp(k, i.min(j), i.max(j)) == k.max(i.min(j)).min(i.max(j)), || "integer min/max/clamp/abs".into());
    let (mut x, mut y) = (a, b);
    b2_swap(&mut x, &mut y);
    ctx.check(x == b && y == a, || "swap".into());
    for bad in &[f32::NAN, f32::INFINITY, f32::NEG_INFINITY] {
        ctx.check(!b2_is_valid(*bad) && !b2v(*bad, 1.0).is_valid() && !b2v(1.0, *bad).is_valid(), || format!("{} counted as valid", bad));
    }
    ctx.check(b2_is_valid(s) && a.is_valid(), || "finite counted as invalid".into());
    near_s(ctx, "sqrt", b2_sqrt(s.abs()), (s.abs() as f64).sqrt(), 1.0 + s.abs() as f64);
    near_s(ctx, "atan2", b2_atan2(a.y, a.x), da.y.atan2(da.x), 3.0);
    // 3-vectors
    let (p, q) = (vec3(&mut ctx.rng), vec3(&mut ctx.rng));
    let t3 = |p: B2Vec3| [p.x as f64, p.y as f64, p.z as f64];
    let (a, b) = (t3(p), t3(q));
    let sc = a.iter().chain(b.iter()).map(|x| x.abs()).sum::<f64>();
    near_s(ctx, "dot3", b2_dot_vec3(p, q), a[0] * b[0] + a[1] * b[1] + a[2] * b[2], sc * sc);
    let c = t3(b2_cross_vec3(p, q));
    let e = [a[1] * b[2] - a[2] * b[1], a[2] * b[0] - a[0] * b[2], a[0] * b[1] - a[1] * b[0]];
    for i in 0..3 { ctx.near("cross3", c[i], e[i], 4.0 * E * sc * sc); }
    let (sum, dif, neg, mul) = (t3(p + q), t3(p - q), t3(-p), t3(s * p));
    let (mut pa, mut ps, mut pm) = (p, p, p);
    pa += q; ps -= q; pm *= s;
    let (pa, ps, pm) = (t3(pa), t3(ps), t3(pm));
    for i in 0..3 {
        let l = 4.0 * E * (sc + sc * s.abs() as f64);
        ctx.near("add3", sum[i], a[i] + b[i], l); ctx.near("sub3", dif[i], a[i] - b[i], l);
        ctx.near("neg3", neg[i], -a[i], l); ctx.near("scale3", mul[i], a[i] * s as f64, l);
        ctx.near("add3", pa[i], a[i] + b[i], l); ctx.near("sub3", ps[i], a[i] - b[i], l); ctx.near("scale3", pm[i], a[i] * s as f64, l);
    }
}

fn matrices(ctx: &mut Ctx) {
    let r = &mut ctx.rng;
    let (a, b, x) = (m22(r), m22(r), vec(r));
    let (fa, fb, dx) = (f2(a), f2(b), d(x));
    let n = |m: &M2| m.iter().flatten().map(|x| x.abs()).fold(0.0, f64::max);
    let sc = n(&fa);
    ctx.distinct(hash_f(&[a.ex.x, a.ey.y, b.ex.x, x.x]));
    let mv = |m: &M2, x: V| v(m[0][0] * x.x + m[0][1] * x.y, m[1][0] * x.x + m[1][1] * x.y);
    let tr = |m: &M2| [[m[0][0], m[1][0]], [m[0][1], m[1][1]]];
    let mm = |p: &M2, q: &M2| { let mut o = [[0.0; 2]; 2]; for i in 0..2 { for j in 0..2 { for k in 0..2 { o[i][j] += p[i][k] * q[k][j]; } } } o };
    near_v(ctx, "Ax", b2_mul(a, x), mv(&fa, dx), 2.0 * sc * dx.len());
    near_v(ctx, "A'x", b2_mul_t(a, x), mv(&tr(&fa), dx), 2.0 * sc * dx.len());
    let cmp = |ctx: &mut Ctx, w: &str, g: B2Mat22, e: M2, s: f64| {
        let g = f2(g);
        for i in 0..2 { for j in 0..2 { ctx.near(w, g[i][j], e[i][j], 8.0 * E * s.max(1e-12)); } }
    };
    cmp(ctx, "AB", b2_mul_mat22(a, b), mm(&fa, &fb), sc * n(&fb));
    cmp(ctx, "A'B", b2_mul_t_mat22(a, b), mm(&tr(&fa), &fb), sc * n(&fb));
    cmp(ctx, "A+B", a + b, [[fa[0][0] + fb[0][0], fa[0][1] + fb[0][1]], [fa[1][0] + fb[1][0], fa[1][1] + fb[1][1]]], sc + n(&fb));
    cmp(ctx, "|A|", b2_abs_mat22(a), [[fa[0][0].abs(), fa[0][1].abs()], [fa[1][0].abs(), fa[1][1].abs()]], sc);
    cmp(ctx, "scalars", B2Mat22::new_scalars(a.ex.x, a.ey.x, a.ex.y, a.ey.y), fa, sc);
    let mut t = B2Mat22::zero();
    cmp(ctx, "zero", t, [[0.0; 2]; 2], 1e-12);
    t.set(a.ex, a.ey); cmp(ctx, "set", t, fa, sc);
    t.set_identity(); cmp(ctx, "identity", t, [[1.0, 0.0], [0.0, 1.0]], 1e-12);
    t.set_zero(); cmp(ctx, "set_zero", t, [[0.0; 2]; 2], 1e-12);
    // inverse and solve
    let det = fa[0][0] * fa[1][1] - fa[0][1] * fa[1][0];
    let cond = sc * sc / det.abs().max(1e-300);
    if cond < 1e3 && det.abs() > 1e-6 {
        ctx.hit("solved22");
        let y = a.solve(x);
        let e = v((fa[1][1] * dx.x - fa[0][1] * dx.y) / det, (fa[0][0] * dx.y - fa[1][0] * dx.x) / det);
        near_v(ctx, "solve", y, e, 20.0 * cond * (e.len() + dx.len() / sc));
        let mut am = a;
        let inv = am.get_inverse();
        cmp(ctx, "inverse", inv, [[fa[1][1] / det, -fa[0][1] / det], [-fa[1][0] / det, fa[0][0] / det]], 20.0 * cond * sc / det.abs());
    }
    // singular (exactly)
    let c = b2v(ctx.rng.int(-4, 4) as f32, ctx.rng.int(-4, 4) as f32);
    let k = ctx.rng.int(-2, 2) as f32;
    let mut s = B2Mat22::new(c, k * c);
    let y = s.solve(x);
    ctx.check(y == b2v(0.0, 0.0), || format!("singular solve gave {:?}", y));
    let i = s.get_inverse();
    ctx.check(f2(i).iter().flatten().all(|x| *x == 0.0), || format!("singular inverse gave {:?}", i));
    ctx.hit("singular");
    // 3x3
    let r = &mut ctx.rng;
    let (p, q, w, z) = (vec3(r), vec3(r), vec3(r), vec3(r));
    let m = B2Mat33::new(p, q, w);
    let f = [[p.x as f64, q.x as f64, w.x as f64], [p.y as f64, q.y as f64, w.y as f64], [p.z as f64, q.z as f64, w.z as f64]];
    let zz = [z.x as f64, z.y as f64, z.z as f64];
    let sc = f.iter().flatten().map(|x| x.abs()).fold(0.0, f64::max);
    let zs = zz.iter().map(|x| x.abs()).fold(0.0, f64::max);
    let g = b2_mul_mat33(m, z);
    for (i, gi) in [g.x, g.y, g.z].iter().enumerate() {
        ctx.near("A3x", *gi as f64, (0..3).map(|j| f[i][j] * zz[j]).sum(), 12.0 * E * sc * zs);
    }
    let g = b2_mul22(m, x);
    near_v(ctx, "A22x", g, v(f[0][0] * dx.x + f[0][1] * dx.y, f[1][0] * dx.x + f[1][1] * dx.y), 2.0 * sc * dx.len());
    let det3 = |f: &[[f64; 3]; 3]| f[0][0] * (f[1][1] * f[2][2] - f[1][2] * f[2][1]) - f[0][1] * (f[1][0] * f[2][2] - f[1][2] * f[2][0]) + f[0][2] * (f[1][0] * f[2][1] - f[1][1] * f[2][0]);
    let det = det3(&f);
    let cond = sc.powi(3) / det.abs().max(1e-300);
    if cond < 1e3 && det.abs() > 1e-6 {
        ctx.hit("solved33");
        let y = m.solve33(z);
        let y = [y.x as f64, y.y as f64, y.z as f64];
        for c in 0..3 {
            let mut fc = f;
            for i in 0..3 { fc[i][c] = zz[i]; }
            ctx.near("solve33", y[c], det3(&fc) / det, 100.0 * E * cond * (zs / sc) * 3.0);
        }
    }
    let det2 = f[0][0] * f[1][1] - f[0][1] * f[1][0];
    let sc2 = f[0][0].abs().max(f[0][1].abs()).max(f[1][0].abs()).max(f[1][1].abs());
    let cond = sc2 * sc2 / det2.abs().max(1e-300);
    if cond < 1e3 && det2.abs() > 1e-6 {
        ctx.hit("solved33_22");
        let y = m.solve22(x);
        near_v(ctx, "solve22 of 3x3", y, v((f[1][1] * dx.x - f[0][1] * dx.y) / det2, (f[0][0] * dx.y - f[1][0] * dx.x) / det2), 40.0 * cond * dx.len() / sc2);
        let mut o = B2Mat33::new(z, z, z);
        m.get_inverse22(&mut o);
        let t = 40.0 * cond * sc2 / det2.abs() * E;
        ctx.near("inv22", o.ex.x as f64, f[1][1] / det2, t); ctx.near("inv22", o.ey.x as f64, -f[0][1] / det2, t);
        ctx.near("inv22", o.ex.y as f64, -f[1][0] / det2, t); ctx.near("inv22", o.ey.y as f64, f[0][0] / det2, t);
        for q in &[o.ex.z, o.ey.z, o.ez.x, o.ez.y, o.ez.z] { ctx.check(*q == 0.0, || format!("22 inverse leaves {} in the third row or column", q)); }
    }
    // symmetric inverse
    let sm = B2Mat33::new(p, B2Vec3::new(p.y, q.y, q.z), B2Vec3::new(p.z, q.z, w.z));
    let f = [[p.x as f64, p.y as f64, p.z as f64], [p.y as f64, q.y as f64, q.z as f64], [p.z as f64, q.z as f64, w.z as f64]];
    let det = det3(&f);
    let sc = f.iter().flatten().map(|x| x.abs()).fold(0.0, f64::max);
    let cond = sc.powi(3) / det.abs().max(1e-300);
    if cond < 1e3 && det.abs() > 1e-6 {
        ctx.hit("sym_inverse");
        let mut o = B2Mat33::zero();
        sm.get_sym_inverse33(&mut o);
        let g = [[o.ex.x, o.ey.x, o.ez.x], [o.ex.y, o.ey.y, o.ez.y], [o.ex.z, o.ey.z, o.ez.z]];
        for i in 0..3 { for j in 0..3 {
            let (i1, i2, j1, j2) = ((i + 1) % 3, (i + 2) % 3, (j + 1) % 3, (j + 2) % 3);
            let e = (f[j1][i1] * f[j2][i2] - f[j1][i2] * f[j2][i1]) / det;
            ctx.near("sym inverse33", g[i][j] as f64, e, 100.0 * E * cond * 3.0 / sc);
        } }
    }
    let y = B2Mat33::new(p, p, q).solve33(z);
    let dd = B2Mat33::new(B2Vec3::new(1.0, 2.0, 3.0), B2Vec3::new(2.0, 4.0, 6.0), B2Vec3::new(k, 1.0, k)).solve33(z);
    let _ = y;
    ctx.check(dd.x == 0.0 && dd.y == 0.0 && dd.z == 0.0, || format!("singular 3x3 solve gave {:?}", dd));
    let y = B2Mat33::new(B2Vec3::new(c.x, c.y, 1.0), B2Vec3::new(k * c.x, k * c.y, 2.0), z).solve22(x);
    ctx.check(y == b2v(0.0, 0.0), || format!("singular 22 solve gave {:?}", y));
}

fn transforms(ctx: &mut Ctx) {
    let r = &mut ctx.rng;
    let (a1, a2) = (r.f(-7.0, 7.0), r.f(-7.0, 7.0));
    let (p1, p2, x) = (vec(r), vec(r), vec(r));
    let (q1, q2) = (B2Rot::new(a1), B2Rot::new(a2));
    ctx.distinct(hash_f(&[a1, a2, p1.x, x.y]));
    let rot = |a: f64, x: V| v(a.cos() * x.x - a.sin() * x.y, a.sin() * x.x + a.cos() * x.y);
    let (f1, f2_) = (a1 as f64, a2 as f64);
    let dx = d(x);
    let sc = dx.len() * 4.0;
    near_s(ctx, "sin", q1.s, f1.sin(), 2.0);
    near_s(ctx, "cos", q1.c, f1.cos(), 2.0);
    let mut q = B2Rot::new(a2);
    q.set(a1);
    ctx.check((q.s - q1.s).abs() <= 2e-7 && (q.c - q1.c).abs() <= 2e-7, || "rotation set differs from new".into());
    ctx.near("rotation angle", wrap_pi(q1.get_angle() as f64 - f1), 0.0, 4.0 * E);
    near_v(ctx, "x axis", q1.get_xaxis(), v(f1.cos(), f1.sin()), 2.0);
    near_v(ctx, "y axis", q1.get_yaxis(), v(-f1.sin(), f1.cos()), 2.0);
    q.set_identity();
    ctx.check(q.s == 0.0 && q.c == 1.0, || "identity rotation".into());
    near_v(ctx, "rotate", b2_mul_rot_by_vec2(q1, x), rot(f1, dx), sc);
    near_v(ctx, "unrotate", b2_mul_t_rot_by_vec2(q1, x), rot(-f1, dx), sc);
    let m = b2_mul_rot(q1, q2);
    near_s(ctx, "q1q2 sin", m.s, (f1 + f2_).sin(), 2.0); near_s(ctx, "q1q2 cos", m.c, (f1 + f2_).cos(), 2.0);
    let m = b2_mul_t_rot(q1, q2);
    near_s(ctx, "q1'q2 sin", m.s, (f2_ - f1).sin(), 2.0); near_s(ctx, "q1'q2 cos", m.c, (f2_ - f1).cos(), 2.0);
    let (t1, t2) = (B2Transform::new(p1, q1), B2Transform::new(p2, q2));
    let mut ts = B2Transform::default();
    ts.set(p1, a1);
    ctx.check(ts.p == p1 && (ts.q.s - q1.s).abs() <= 2e-7 && (ts.q.c - q1.c).abs() <= 2e-7, || "transform set".into());
    ts.set_identity();
    ctx.check(ts.p == b2v(0.0, 0.0) && ts.q.s == 0.0 && ts.q.c == 1.0, || "identity transform".into());
    let (d1, d2) = (d(p1), d(p2));
    let sc = 4.0 * (dx.len() + d1.len() + d2.len());
    near_v(ctx, "Tx", b2_mul_transform_by_vec2(t1, x), rot(f1, dx) + d1, sc);
    near_v(ctx, "T'x", b2_mul_t_transform_by_vec2(t1, x), rot(-f1, dx - d1), sc);
    near_v(ctx, "T'Tx", b2_mul_t_transform_by_vec2(t1, b2_mul_transform_by_vec2(t1, x)), dx, 2.0 * sc);
    let c = b2_mul_transform(t1, t2);
    near_v(ctx, "(AB)x", b2_mul_transform_by_vec2(c, x), rot(f1, rot(f2_, dx) + d2) + d1, 2.0 * sc);
    let c = b2_mul_t_transform(t1, t2);
    near_v(ctx, "(A'B)x", b2_mul_transform_by_vec2(c, x), rot(-f1, rot(f2_, dx) + d2 - d1), 2.0 * sc);
    // sweeps
    let r = &mut ctx.rng;
    let s = B2Sweep { local_center: vec(r), c0: vec(r), c: vec(r), a0: r.f(-20.0, 20.0), a: r.f(-20.0, 20.0), alpha0: if r.chance(0.5) { 0.0 } else { r.f(0.0, 0.9) } };
    let beta = match r.below(4) { 0 => 0.0, 1 => 1.0, _ => r.f(0.0, 1.0) };
    let sc = 4.0 * (d(s.local_center).len() + d(s.c0).len() + d(s.c).len() + 1.0);
    let mut o = B2Transform::default();
    s.get_transform(&mut o, beta);
    let pose = |s: &B2Sweep, b: f64| {
        let a = s.a0 as f64 * (1.0 - b) + s.a as f64 * b;
        let c = d(s.c0) * (1.0 - b) + d(s.c) * b;
        (c - rot(a, d(s.local_center)), a)
    };
    let (e, ang) = pose(&s, beta as f64);
    near_v(ctx, "sweep position", o.p, e, 10.0 * sc);
    ctx.near("sweep angle", wrap_pi(o.q.get_angle() as f64 - ang), 0.0, 40.0 * E);
    near_v(ctx, "sweep centre", b2_mul_transform_by_vec2(o, s.local_center), d(s.c0) * (1.0 - beta as f64) + d(s.c) * beta as f64, 10.0 * sc);
    // advance: the rest of the motion stays the same
    let alpha = s.alpha0 + (0.99 - s.alpha0) * ctx.rng.f(0.0, 1.0);
    let mut w = s;
    w.advance(alpha);
    ctx.check(w.alpha0 == alpha && w.c == s.c && w.a == s.a && w.local_center == s.local_center, || format!("advance to {} changed the end: {:?} -> {:?}", alpha, s, w));
    let bt = ((alpha - s.alpha0) / (1.0 - s.alpha0)) as f64;
    near_v(ctx, "advanced start", w.c0, d(s.c0) * (1.0 - bt) + d(s.c) * bt, 10.0 * sc);
    ctx.near("advanced angle", w.a0 as f64, s.a0 as f64 * (1.0 - bt) + s.a as f64 * bt, 40.0 * 4.0 * E);
    ctx.hit("sweep");
    // normalise: the angle into [0, 2pi) turns both ends alike
    let mut w = s;
    w.normalize();
    ctx.check((w.a0 as f64) > -1e-5 && (w.a0 as f64) < 6.2831863, || format!("normalised angle {}", w.a0));
    ctx.near("normalise keeps the motion", (w.a - w.a0) as f64, (s.a - s.a0) as f64, 2e-5);
    ctx.near("normalise by whole turns", wrap_pi(w.a0 as f64 - s.a0 as f64), 0.0, 2e-5);
    ctx.check(w.c0 == s.c0 && w.c == s.c && w.alpha0 == s.alpha0, || "normalise changed the centre".into());
}

fn pow2(ctx: &mut Ctx) {
    // every power of two and its neighbours, and random words
    let mut vals = vec![];
    for b in 0..32u32 { let p = 1u32 << b; vals.extend_from_slice(&[p.wrapping_sub(1), p, p + 1]); }
    for _ in 0..64 { let s = ctx.rng.below(32) as u32; vals.push(ctx.rng.u32() >> s); }
    vals.push(u32::MAX);
    for x in vals {
        ctx.check(b2_is_power_of_two(x) == x.is_power_of_two(), || format!("{} power of two: {}", x, b2_is_power_of_two(x)));
        if x < 1 << 31 {
            // the next strictly larger power of two
            let e = if x == 0 { 1 } else { 1u64 << (64 - (x as u64).leading_zeros()) };
            ctx.check(b2_next_power_of_two(x) as u64 == e, || format!("next power of two after {}: {}", x, b2_next_power_of_two(x)));
            ctx.distinct(x as u64);
        }
    }
    ctx.hit("pow2");
}

pub fn props() -> Vec<Property> {
    vec![Property {
        id: "C42",
        rule: "a distinct random operand tuple whose results were compared with f64 references",
        parts: vec![part("vectors", 150000, 2000000, vectors), part("matrices", 150000, 2000000, matrices), part("transforms", 150000, 2000000, transforms), part("pow2", 200, 5000, pow2)],
        required: vec![("normalized", 50000), ("solved22", 10000), ("solved33", 5000), ("solved33_22", 5000), ("sym_inverse", 1000), ("singular", 50000), ("sweep", 50000), ("pow2", 100)],
        assumptions: "Solves and inverses are judged on systems with condition number below 1e3; exact singular systems use small integers.",
    }]
}
