//! C11 ray casts, C12 boxes and point tests, C13 mass, C14 polygon construction
use crate::core::*;
use crate::gen::*;
use crate::geo::*;
use box2d_rs::b2_collision::*;
use box2d_rs::b2_math::*;
use box2d_rs::b2_shape::*;
use box2d_rs::shapes::b2_polygon_shape::*;
use box2d_rs::shapes::b2rs_to_derived_shape::*;

#[derive(Debug, Clone, Copy)]
pub enum Ray {
    Hit(f64, V),
    Miss,
    Unsure,
}
/// reference ray cast against one child (core geometry; circles with radius), world frame.
/// `tol` is the length below which a decision is not made.
pub fn ref_ray(s: &dyn B2shapeDynTrait, child: usize, x: &Xf, p1: V, p2: V, maxf: f64, tol: f64) -> Ray {
    let dlt = p2 - p1;
    let len = dlt.len();
    if len < tol {
        return Ray::Unsure;
    }
    let u = dlt * (1.0 / len);
    let lmax = maxf * len;
    let cx = children(s)[child].moved(x);
    match s.as_derived() {
        ShapeAsDerived::AsCircle(_) => {
            let c = cx.p[0];
            let r = cx.r;
            let m = p1 - c;
            let off = u.cross(m).abs();
            if (m.len() - r).abs() < tol {
                return Ray::Unsure; // starts on the surface
            }
            // grazing: the discriminant is sensitive
            if (off - r).abs() < tol * (1.0 + 4.0 * (m.len() / r.max(1e-9)).min(1e3)) {
                return Ray::Unsure;
            }
            if off > r || m.len() < r {
                return Ray::Miss;
            }
            let t = -m.dot(u) - (r * r - off * off).sqrt();
            if t < -tol || t > lmax + tol {
                return Ray::Miss;
            }
            if t < tol || t > lmax - tol {
                return Ray::Unsure;
            }
            let n = (p1 + u * t - c).norm();
            Ray::Hit(t / len, n)
        }
        ShapeAsDerived::AsPolygon(_) => {
            let (mut lo, mut hi) = (f64::MIN, f64::MAX);
            let mut nn = v(0.0, 0.0);
            let mut second = f64::MIN;
            let (mut lo_e, mut hi_e) = (0.0, 0.0);
            for (a, b) in cx.edges() {
                let e = (b - a).norm();
                let n = v(e.y, -e.x);
                let num = n.dot(a - p1);
                let den = n.dot(u);
                if den.abs() < 1e-4 {
                    if num < -tol - 1.1e-4 * lmax {
                        return Ray::Miss;
                    }
                    if num < tol + 1.1e-4 * lmax {
                        return Ray::Unsure;
                    }
                    continue;
                }
                let t = num / den;
                if den < 0.0 {
                    if t > lo {
                        second = lo;
                        lo = t;
                        lo_e = tol / -den;
                        nn = n;
                    } else if t > second {
                        second = t;
                    }
                } else if t < hi {
                    hi = t;
                    hi_e = tol / den;
                }
            }
            if (hi - lo).abs() < 4.0 * (tol + lo_e + hi_e) {
                return Ray::Unsure;
            }
            if lo > hi {
                return Ray::Miss;
            }
            if lo.abs() < tol + lo_e || (lo - lmax).abs() < tol + lo_e {
                return Ray::Unsure;
            }
            if lo < 0.0 || lo > lmax {
                return Ray::Miss;
            }
            if lo - second < 4.0 * (tol + lo_e) {
                return Ray::Unsure; // at a corner the normal is a matter of rounding
            }
            Ray::Hit(lo / len, nn)
        }
        _ => {
            let (a, b) = (cx.p[0], cx.p[1]);
            let e = (b - a).norm();
            let el = (b - a).len();
            let n = v(e.y, -e.x);
            let num = n.dot(a - p1);
            let den = n.dot(u);
            if den.abs() < 1e-3 {
                return if num.abs() > tol + 1.1e-3 * lmax { Ray::Miss } else { Ray::Unsure };
            }
            if num.abs() < tol {
                return Ray::Unsure;
            }
            let one_sided = matches!(s.as_derived(), ShapeAsDerived::AsEdge(ed) if ed.m_one_sided);
            let t = num / den;
            if (t - lmax).abs() < tol / den.abs() {
                return Ray::Unsure;
            }
            if t < 0.0 || t > lmax {
                return Ray::Miss;
            }
            let q = p1 + u * t;
            let sx = (q - a).dot(e);
            if sx.abs() < tol / den.abs() || (sx - el).abs() < tol / den.abs() {
                return Ray::Unsure;
            }
            if sx < 0.0 || sx > el {
                return Ray::Miss;
            }
            if one_sided && num > 0.0 {
                return Ray::Miss;
            }
            Ray::Hit(t / len, if num > 0.0 { -n } else { n })
        }
    }
}

pub fn random_ray(rng: &mut Rng, cx: &Cx) -> (B2vec2, B2vec2, f32) {
    let ext = cx.extent().max(0.1) as f32;
    // aim at a point on or near the shape
    let e = cx.edges();
    let (a, b) = e[rng.below(e.len())];
    let mut target = b2(a + (b - a) * rng.unit());
    match rng.below(4) {
        0 => target = b2(cx.center()),
        1 => {
            let o = rng.vec(ext * 0.6);
            target = target + o
        }
        _ => {}
    }
    let dir = rng.dir();
    let back = if rng.chance(0.3) { rng.log(0.005, 0.5) * ext } else { rng.f(0.0, 3.0) * ext };
    let fwd = if rng.chance(0.2) { rng.f(0.0, 0.1) } else { rng.f(0.0, 3.0) * ext };
    let p1 = target - back * dir;
    let p2 = target + fwd * dir;
    let maxf = match rng.below(4) {
        0 => rng.f(0.0, 1.0),
        1 => rng.f(1.0, 2.0),
        _ => 1.0,
    };
    (p1, p2, maxf)
}

fn c11_case(ctx: &mut Ctx) {
    let k = *ctx.rng.pick(&ALL_KINDS);
    // whole numbers everywhere: parallel, collinear and corner cases come out exactly
    let grid = ctx.rng.chance(0.25);
    let size = if grid { 3.0 } else { ctx.rng.log(0.05, 20.0) };
    let s = if grid { grid_shape(&mut ctx.rng, k) } else { shape(&mut ctx.rng, k, size) };
    let s = s.borrow();
    for _ in 0..4 {
        let pos_r = *ctx.rng.pick(&[0.0f32, 5.0, 60.0]);
        let t = if grid { grid_xf(&mut ctx.rng) } else { ctx.rng.xf(pos_r) };
        let x = Xf::of(t);
        let n = s.get_child_count();
        for _ in 0..8 {
            let child = ctx.rng.below(n);
            let cx = children(&*s)[child].moved(&x);
            let (mut p1, mut p2, maxf) = random_ray(&mut ctx.rng, &cx);
            if grid {
                p1 = t.p + grid_point(&mut ctx.rng, 4);
                p2 = match ctx.rng.below(3) { 0 => b2v(p1.x, t.p.y + ctx.rng.int(-4, 4) as f32), 1 => b2v(t.p.x + ctx.rng.int(-4, 4) as f32, p1.y), _ => t.p + grid_point(&mut ctx.rng, 4) };
                if p1 == p2 { continue; }
                ctx.hit("grid_ray");
            }
            let inp = B2rayCastInput { p1, p2, max_fraction: maxf };
            let mut out = B2rayCastOutput::default();
            let hit = s.ray_cast(&mut out, &inp, t, child);
            ctx.check(!hit || (out.fraction >= 0.0 && out.fraction <= maxf * 1.0001 && out.normal.x.is_finite() && out.normal.y.is_finite()), || format!("{:?} child {}: ray {:?}->{:?} max {} hit at {} normal {:?}", k, child, p1, p2, maxf, out.fraction, out.normal));
            let len = (d(p2) - d(p1)).len();
            let scale = cx.max_abs().max(d(p1).len()).max(d(p2).len()).max(len).max(0.1);
            let tol = 4e-6 * scale;
            let r = ref_ray(&*s, child, &x, d(p1), d(p2), maxf as f64, tol);
            match r {
                Ray::Unsure => ctx.hit("skipped_borderline"),
                Ray::Miss => {
                    ctx.hit("miss");
                    ctx.check(!hit, || format!("{:?} child {}: ray {:?}->{:?} max {} reported a hit at {} but misses", k, child, p1, p2, maxf, out.fraction));
                }
                Ray::Hit(f, nn) => {
                    ctx.hit(match k { Kind::Circle => "hit_circle", Kind::Poly => "hit_polygon", Kind::Edge => "hit_edge", Kind::OneSided => "hit_onesided", _ => "hit_chain" });
                    if f * len < 0.05 * size as f64 {
                        ctx.hit("hit_near_start");
                    }
                    let h = hash_f(&[p1.x, p1.y, p2.x, p2.y, t.p.x, size]);
                    ctx.distinct(h);
                    if !ctx.check(hit, || format!("{:?} child {}: ray {:?}->{:?} max {} transform {:?} should hit at fraction {} but was missed", k, child, p1, p2, maxf, t, f)) {
                        continue;
                    }
                    let u = (d(p2) - d(p1)) * (1.0 / len);
                    let cosn = nn.dot(u).abs().max(1e-3);
                    let err = (out.fraction as f64 - f).abs() * len;
                    ctx.check(err <= 10.0 * tol / cosn, || format!("{:?}: ray {:?}->{:?}: fraction {} expected {}", k, p1, p2, out.fraction, f));
                    let on = d(out.normal);
                    ctx.check((on.len() - 1.0).abs() < 1e-3, || format!("{:?}: normal {:?} is not unit", k, on));
                    // circles: the normal turns with the hit point
                    let ntol = 1e-3 + if k == Kind::Circle { 20.0 * tol / cosn / cx.r } else { 0.0 };
                    if ntol < 0.2 {
                        ctx.check((on - nn).len() < ntol, || format!("{:?}: ray {:?}->{:?}: normal {:?} expected {:?}", k, p1, p2, on, nn));
                    }
                    ctx.sample(format!("{:?} ray ({},{})->({},{}) hit at {} normal ({},{})", k, p1.x, p1.y, p2.x, p2.y, out.fraction, out.normal.x, out.normal.y));
                }
            }
        }
    }
}

fn c11_aabb(ctx: &mut Ctx) {
    // the box ray cast
    let c = ctx.rng.vec(10.0);
    let (hx, hy) = (ctx.rng.log(0.05, 5.0), ctx.rng.log(0.05, 5.0));
    let bb = B2AABB { lower_bound: b2v(c.x - hx, c.y - hy), upper_bound: b2v(c.x + hx, c.y + hy) };
    let p = bx_at(hx, hy, c, 0.0);
    let cx = children(&p)[0].clone();
    for _ in 0..10 {
        let (mut p1, mut p2, maxf) = random_ray(&mut ctx.rng, &cx);
        let axis = ctx.rng.below(6);
        if axis == 0 { p2.x = p1.x }
        if axis == 1 { p2.y = p1.y }
        if ctx.rng.chance(0.1) { std::mem::swap(&mut p1, &mut p2) }
        let mut out = B2rayCastOutput::default();
        let hit = bb.ray_cast(&mut out, &B2rayCastInput { p1, p2, max_fraction: maxf });
        let scale = d(p1).len().max(d(p2).len()).max(cx.max_abs());
        let tol = 4e-6 * scale;
        match ref_ray(&p, 0, &Xf::new(v(0.0, 0.0), 0.0), d(p1), d(p2), maxf as f64, tol) {
            Ray::Unsure => ctx.hit("skipped_borderline"),
            Ray::Miss => {
                ctx.hit("aabb_miss");
                ctx.check(!hit, || format!("box {:?} ray {:?}->{:?} max {} hit reported at {}", bb, p1, p2, maxf, out.fraction));
            }
            Ray::Hit(f, n) => {
                ctx.hit("aabb_hit");
                ctx.distinct(hash_f(&[p1.x, p1.y, p2.x, p2.y]));
                let len = (d(p2) - d(p1)).len();
                let u = (d(p2) - d(p1)) * (1.0 / len);
                if ctx.check(hit, || format!("box {:?} ray {:?}->{:?} max {} missed, expected {}", bb, p1, p2, maxf, f)) {
                    ctx.check((out.fraction as f64 - f).abs() * len <= 10.0 * tol / n.dot(u).abs().max(1e-3), || format!("box {:?} ray {:?}->{:?} fraction {} expected {}", bb, p1, p2, out.fraction, f));
                    ctx.check((d(out.normal) - n).len() < 1e-3, || format!("box {:?} ray {:?}->{:?} normal {:?} expected {:?}", bb, p1, p2, out.normal, n));
                }
            }
        }
    }
}

fn c12_case(ctx: &mut Ctx) {
    let k = *ctx.rng.pick(&ALL_KINDS);
    let size = ctx.rng.log(0.05, 20.0);
    let s = shape(&mut ctx.rng, k, size);
    let s = s.borrow();
    for _ in 0..4 {
        let pos_r = *ctx.rng.pick(&[0.0f32, 5.0, 60.0, 500.0]);
        let t = ctx.rng.xf(pos_r);
        let x = Xf::of(t);
        let ch = children(&*s);
        ctx.check(s.get_child_count() == ch.len(), || format!("{:?}: child count {} expected {}", k, s.get_child_count(), ch.len()));
        for (i, c) in ch.iter().enumerate() {
            let c = c.moved(&x);
            let tol = 2e-6 * (c.max_abs() + c.r + 1.0);
            let mut bb = B2AABB::default();
            s.compute_aabb(&mut bb, t, i);
            let lo = v(-c.support(v(-1.0, 0.0)) - c.r, -c.support(v(0.0, -1.0)) - c.r);
            let hi = v(c.support(v(1.0, 0.0)) + c.r, c.support(v(0.0, 1.0)) + c.r);
            let (a, b) = (d(bb.lower_bound), d(bb.upper_bound));
            ctx.check(a.x <= lo.x + tol && a.y <= lo.y + tol && b.x >= hi.x - tol && b.y >= hi.y - tol,
                || format!("{:?} child {}: box {:?} does not contain the shape {:?}..{:?}", k, i, bb, lo, hi));
            ctx.check(a.x >= lo.x - tol && a.y >= lo.y - tol && b.x <= hi.x + tol && b.y <= hi.y + tol,
                || format!("{:?} child {}: box {:?} larger than the shape {:?}..{:?}", k, i, bb, lo, hi));
            ctx.hit("aabb");
            ctx.check(bb.is_valid(), || format!("{:?} box invalid {:?}", k, bb));
        }
        for _ in 0..10 {
            let c = ch[ctx.rng.below(ch.len())].moved(&x);
            let e = c.edges();
            let (a, b) = e[ctx.rng.below(e.len())];
            let base = a + (b - a) * ctx.rng.unit();
            let ext = c.extent().max(0.02) as f32;
            let off = match ctx.rng.below(3) {
                0 => ctx.rng.vec(ext),
                1 => ctx.rng.vec(0.05 * ext),
                _ => { let o = ctx.rng.dir(); (c.r as f32 * ctx.rng.f(0.8, 1.2)) * o }
            };
            let p = b2(base + d(off));
            let got = s.test_point(t, p);
            let q = d(p);
            match k {
                Kind::Circle | Kind::Poly => {
                    let sd = if k == Kind::Circle { c.core_sd(q) - c.r } else { c.core_sd(q) };
                    let tol = 4e-6 * (c.max_abs() + 1.0);
                    if sd.abs() < tol {
                        ctx.hit("skipped_borderline");
                        continue;
                    }
                    ctx.hit(if sd < 0.0 { "inside" } else { "outside" });
                    ctx.distinct(hash_f(&[p.x, p.y, size]));
                    ctx.check(got == (sd < 0.0), || format!("{:?} transform {:?} point {:?}: test says {} but signed distance is {}", k, t, p, got, sd));
                    ctx.sample(format!("{:?} point ({},{}) inside={} signed distance {}", k, p.x, p.y, got, sd));
                }
                _ => {
                    ctx.hit("open_shape");
                    ctx.check(!got, || format!("{:?} contains a point {:?}", k, p));
                }
            }
        }
    }
}

fn c12_aabb_ops(ctx: &mut Ctx) {
    let mk = |r: &mut Rng| {
        let c = r.vec(10.0);
        let h = b2v(r.log(0.01, 5.0), r.log(0.01, 5.0));
        B2AABB { lower_bound: c - h, upper_bound: c + h }
    };
    let a = mk(&mut ctx.rng);
    let mut b = mk(&mut ctx.rng);
    match ctx.rng.below(4) {
        0 => { // touching exactly
            let w = b.upper_bound.x - b.lower_bound.x;
            b.lower_bound.x = a.upper_bound.x;
            b.upper_bound.x = b.lower_bound.x + w;
        }
        1 => { // nested
            b.lower_bound = a.lower_bound + ctx.rng.f(0.0, 0.4) * (a.upper_bound - a.lower_bound);
            b.upper_bound = a.upper_bound - ctx.rng.f(0.0, 0.4) * (a.upper_bound - a.lower_bound);
        }
        _ => {}
    }
    let ov = a.lower_bound.x <= b.upper_bound.x && b.lower_bound.x <= a.upper_bound.x && a.lower_bound.y <= b.upper_bound.y && b.lower_bound.y <= a.upper_bound.y;
    let gap = (a.lower_bound.x - b.upper_bound.x).max(b.lower_bound.x - a.upper_bound.x).max(a.lower_bound.y - b.upper_bound.y).max(b.lower_bound.y - a.upper_bound.y);
    if gap.abs() > 1e-5 || gap == 0.0 {
        ctx.check(b2_test_overlap(a, b) == ov, || format!("overlap of {:?} and {:?} should be {}", a, b, ov));
        ctx.hit(if ov { "boxes_overlap" } else { "boxes_apart" });
    }
    let inside = a.lower_bound.x <= b.lower_bound.x && a.lower_bound.y <= b.lower_bound.y && a.upper_bound.x >= b.upper_bound.x && a.upper_bound.y >= b.upper_bound.y;
    ctx.check(a.contains(&b) == inside, || format!("{:?} contains {:?} should be {}", a, b, inside));
    if inside { ctx.hit("boxes_nested"); }
    let mut c = a;
    c.combine(b);
    let mut e = B2AABB::default();
    e.combine_two(a, b);
    let lo = b2v(a.lower_bound.x.min(b.lower_bound.x), a.lower_bound.y.min(b.lower_bound.y));
    let hi = b2v(a.upper_bound.x.max(b.upper_bound.x), a.upper_bound.y.max(b.upper_bound.y));
    for q in &[c, e] {
        ctx.check(q.lower_bound == lo && q.upper_bound == hi, || format!("union of {:?} and {:?} is {:?}", a, b, q));
    }
    let dd = d(a.upper_bound) - d(a.lower_bound);
    ctx.near("box perimeter", a.get_perimeter() as f64, 2.0 * (dd.x + dd.y), 1e-4);
    let m = (d(a.upper_bound) + d(a.lower_bound)) * 0.5;
    ctx.check((d(a.get_center()) - m).len() < 1e-5, || format!("centre of {:?} is {:?}", a, a.get_center()));
    ctx.check((d(a.get_extents()) - dd * 0.5).len() < 1e-5, || format!("extents of {:?} is {:?}", a, a.get_extents()));
}

fn c13_case(ctx: &mut Ctx) {
    let k = *ctx.rng.pick(&[Kind::Circle, Kind::Poly, Kind::Poly, Kind::Poly, Kind::Edge, Kind::OneSided, Kind::Chain, Kind::Loop]);
    let size = ctx.rng.log(0.05, 30.0);
    let s = shape(&mut ctx.rng, k, size);
    let mut s: ShapeDefPtr = s;
    if k == Kind::Poly && ctx.rng.chance(0.5) {
        // far from the body origin, where naive integration loses precision
        let off = ctx.rng.vec(size * 10.0);
        let pts: Vec<B2vec2> = poly_points(&mut ctx.rng, size).iter().map(|p| *p + off).collect();
        let mut q = B2polygonShape::default();
        q.set(&pts);
        s = rc(q);
        ctx.hit("offset_polygon");
    }
    let s = s.borrow();
    let dens = *ctx.rng.pick(&[0.0f32, 1.0, 0.01, 123.0, 3.5]);
    let mut m = B2massData::default();
    s.compute_mass(&mut m, dens);
    let cx = &children(&*s)[0];
    match k {
        Kind::Circle => {
            let a = std::f64::consts::PI * cx.r * cx.r;
            let mass = a * dens as f64;
            let i = mass * (0.5 * cx.r * cx.r + cx.p[0].dot(cx.p[0]));
            ctx.near("circle mass", m.mass as f64, mass, 2e-6 * mass);
            ctx.check((d(m.center) - cx.p[0]).len() <= 1e-6 * (1.0 + cx.p[0].len()), || format!("circle centre {:?} expected {:?}", m.center, cx.p[0]));
            ctx.near("circle inertia", m.i as f64, i, 5e-6 * i);
            ctx.hit("circle");
        }
        Kind::Poly => {
            let (a, c, i) = poly_moments(&cx.p);
            let mass = a * dens as f64;
            let i = i * dens as f64;
            // the area of a polygon with rounded coordinates is only known relative to its perimeter
            let per: f64 = cx.edges().iter().map(|(p, q)| (*q - *p).len()).sum();
            let rel = 2e-5 + 4e-7 * per * cx.max_abs() / a;
            ctx.near("polygon mass", m.mass as f64, mass, rel * mass);
            ctx.check((d(m.center) - c).len() <= 2.0 * rel * cx.extent() + 1e-6 * cx.max_abs(), || format!("polygon centre {:?} expected {:?}", m.center, c));
            ctx.near("polygon inertia", m.i as f64, i, 4.0 * rel * i);
            if let ShapeAsDerived::AsPolygon(p) = s.as_derived() {
                ctx.check((d(p.m_centroid) - c).len() <= 2.0 * rel * cx.extent() + 1e-6 * cx.max_abs(), || format!("polygon centroid field {:?} expected {:?}", p.m_centroid, c));
            }
            ctx.hit("polygon");
            ctx.max("poly_mass_rel_err", ((m.mass as f64 - mass) / mass.max(1e-30)).abs() / rel);
        }
        _ => {
            ctx.check(m.mass == 0.0 && m.i == 0.0, || format!("{:?} has mass {:?}", k, m));
            if matches!(k, Kind::Edge | Kind::OneSided) {
                let c = (cx.p[0] + cx.p[1]) * 0.5;
                ctx.check((d(m.center) - c).len() < 1e-5 * (1.0 + cx.max_abs()), || format!("edge centre {:?} expected {:?}", m.center, c));
            }
            ctx.hit("massless");
        }
    }
    ctx.distinct(hash_f(&[m.mass, m.i, m.center.x, m.center.y]));
    ctx.sample(format!("{:?} density {} mass {} centre ({},{}) inertia {}", k, dens, m.mass, m.center.x, m.center.y, m.i));
}

fn hull(mut p: Vec<V>) -> Vec<V> {
    p.sort_by(|a, b| (a.x, a.y).partial_cmp(&(b.x, b.y)).unwrap());
    let mut h: Vec<V> = vec![];
    for pass in 0..2 {
        let start = h.len();
        let it: Vec<V> = if pass == 0 { p.clone() } else { p.iter().rev().cloned().collect() };
        for q in it {
            while h.len() >= start + 2 && (h[h.len() - 1] - h[h.len() - 2]).cross(q - h[h.len() - 2]) <= 0.0 {
                h.pop();
            }
            h.push(q);
        }
        h.pop();
    }
    h
}

fn c14_check(ctx: &mut Ctx, s: &B2polygonShape, pts: &[B2vec2], what: &str) {
    let n = s.m_count;
    if !ctx.check(n >= 3 && n <= 8, || format!("{}: {} vertices from {:?}", what, n, pts)) {
        return;
    }
    let q: Vec<V> = s.m_vertices[..n].iter().map(|p| d(*p)).collect();
    let ext = q.iter().map(|p| p.x.abs().max(p.y.abs())).fold(0.0, f64::max);
    let tol = 1e-6 * (ext + 1.0);
    for (i, p) in s.m_vertices[..n].iter().enumerate() {
        ctx.check(pts.iter().any(|a| a.x == p.x && a.y == p.y), || format!("{}: vertex {:?} is not an input point of {:?}", what, p, pts));
        for j in 0..i {
            ctx.check((q[i] - q[j]).len() > 1e-4, || format!("{}: duplicate vertices {:?}", what, p));
        }
    }
    let (area, cen, _) = poly_moments(&q);
    ctx.check(area > 0.0, || format!("{}: not counter-clockwise: {:?} from {:?}", what, q, pts));
    for i in 0..n {
        let (a, b) = (q[i], q[(i + 1) % n]);
        let e = b - a;
        let nn = v(e.y, -e.x).norm();
        ctx.check((d(s.m_normals[i]) - nn).len() < 1e-4 + 1e-6 * ext / e.len(), || format!("{}: normal {} is {:?} expected {:?}", what, i, s.m_normals[i], nn));
        for c in &q {
            ctx.check(nn.dot(*c - a) <= tol, || format!("{}: not convex {:?} from {:?}", what, q, pts));
        }
        for c in pts {
            // points closer than the welding tolerance may be dropped
            ctx.check(nn.dot(d(*c) - a) <= 0.0036 + tol, || format!("{}: input point {:?} outside the hull {:?}", what, c, q));
        }
    }
    let h = hull(pts.iter().map(|p| d(*p)).collect());
    // every clear corner of the true hull must be a vertex
    for i in 0..h.len() {
        let (a, b, c) = (h[(i + h.len() - 1) % h.len()], h[i], h[(i + 1) % h.len()]);
        let dist = (b - closest_on_seg(b, a, c)).len();
        if dist > 0.02 {
            ctx.check(q.iter().any(|p| (*p - b).len() < 0.0036), || format!("{}: hull corner {:?} missing from {:?} (input {:?})", what, b, q, pts));
        }
    }
    let per: f64 = (0..n).map(|i| (q[(i + 1) % n] - q[i]).len()).sum();
    let rel = 1e-5 + 4e-7 * per * (ext + 0.1) / area;
    ctx.check((d(s.m_centroid) - cen).len() < 4.0 * rel * per, || format!("{}: centroid {:?} expected {:?}", what, s.m_centroid, cen));
    let min_edge = (0..n).map(|i| (q[(i + 1) % n] - q[i]).len()).fold(f64::MAX, f64::min);
    let _ = min_edge;
    ctx.check(s.validate(), || format!("{}: fails its own validity test {:?} from {:?}", what, q, pts));
    ctx.check(s.base.m_radius == box2d_rs::b2_common::B2_POLYGON_RADIUS, || format!("{}: radius {}", what, s.base.m_radius));
}

fn c14_case(ctx: &mut Ctx) {
    let size = ctx.rng.log(0.1, 50.0);
    let n = ctx.rng.int(3, 8) as usize;
    let mut pts: Vec<B2vec2> = vec![];
    let mode = ctx.rng.below(6);
    let off = if ctx.rng.chance(0.3) { ctx.rng.vec(size * 5.0) } else { b2v(0.0, 0.0) };
    match mode {
        0 => pts = poly_points(&mut ctx.rng, size),
        1 => for _ in 0..n { pts.push(ctx.rng.vec(size)) }, // with interior points
        2 => { // with exact duplicates
            pts = poly_points(&mut ctx.rng, size);
            while pts.len() < 8 { let p = pts[ctx.rng.below(pts.len())]; pts.push(p); if ctx.rng.chance(0.3) { break } }
            ctx.hit("duplicates");
        }
        3 => { // with near duplicates
            pts = poly_points(&mut ctx.rng, size);
            while pts.len() < 8 { let p = pts[ctx.rng.below(pts.len())]; let o = ctx.rng.vec(0.0015); pts.push(p + o); if ctx.rng.chance(0.3) { break } }
            ctx.hit("near_duplicates");
        }
        4 => { // grid points: many collinear ones
            for _ in 0..n.max(4) { pts.push(b2v(ctx.rng.int(0, 2) as f32 * size, ctx.rng.int(0, 2) as f32 * size)) }
            ctx.hit("grid");
        }
        _ => { // rectangle with midpoints of sides
            let (a, b) = (size, size * ctx.rng.f(0.3, 1.0));
            let all = [b2v(0.0, 0.0), b2v(a, 0.0), b2v(a, b), b2v(0.0, b), b2v(a * 0.5, 0.0), b2v(a, b * 0.5), b2v(a * 0.5, b), b2v(0.0, b * 0.5)];
            pts.extend_from_slice(&all);
            for i in (1..8).rev() { let j = ctx.rng.below(i + 1); pts.swap(i, j); }
            ctx.hit("collinear");
        }
    }
    for p in pts.iter_mut() { *p = *p + off; }
    // only well-conditioned input: a hull with clear area (anything less is rejected by assertion)
    let h = hull(pts.iter().map(|p| d(*p)).collect());
    if h.len() < 3 { ctx.hit("skipped_degenerate"); return; }
    let (a, _, _) = poly_moments(&h);
    let per: f64 = (0..h.len()).map(|i| (h[(i + 1) % h.len()] - h[i]).len()).sum();
    if a < 0.02 * per * per / 16.0 || per < 0.1 { ctx.hit("skipped_degenerate"); return; }
    // skip input whose kept points depend on rounding: pairs right at the welding distance
    for i in 0..pts.len() { for j in 0..i {
        let l = (d(pts[i]) - d(pts[j])).len();
        if l > 0.002 && l < 0.01 { ctx.hit("skipped_degenerate"); return; }
    } }
    // what is left after welding must still be a proper polygon
    let mut kept: Vec<V> = vec![];
    for q in pts.iter() { if kept.iter().all(|k| (*k - d(*q)).len() > 0.002) { kept.push(d(*q)) } }
    if kept.len() < 3 { ctx.hit("skipped_degenerate"); return; }
    let h = hull(kept);
    if h.len() < 3 || poly_moments(&h).0 < 0.01 * per * per / 16.0 { ctx.hit("skipped_degenerate"); return; }
    let mut s = B2polygonShape::default();
    ctx.log(|| format!("mode {} points {:?}", mode, pts));
    if ctx.rng.chance(0.2) { s.set_as_box(3.0, 2.0); } // re-use of an object
    s.set(&pts);
    ctx.hit("hull");
    ctx.distinct(hash_f(&pts.iter().flat_map(|p| vec![p.x, p.y]).collect::<Vec<_>>()));
    ctx.sample(format!("{} points -> {} vertices", pts.len(), s.m_count));
    c14_check(ctx, &s, &pts, "set");
}

fn c14_box(ctx: &mut Ctx) {
    let (hx, hy) = (ctx.rng.log(0.02, 50.0), ctx.rng.log(0.02, 50.0));
    let s = bx(hx, hy);
    let corners = [b2v(-hx, -hy), b2v(hx, -hy), b2v(hx, hy), b2v(-hx, hy)];
    c14_check(ctx, &s, &corners, "box");
    ctx.check(s.m_count == 4, || "box without four vertices".into());
    let c = ctx.rng.vec(30.0);
    let a = ctx.rng.angle();
    let s = bx_at(hx, hy, c, a);
    let x = Xf::new(d(c), a as f64);
    ctx.check(s.m_count == 4, || "oriented box without four vertices".into());
    for (i, q) in corners.iter().enumerate() {
        let w = x.mul(d(*q));
        let tol = 1e-5 * (1.0 + c.length() as f64 + hx as f64 + hy as f64);
        ctx.check((0..4).any(|j| (d(s.m_vertices[j]) - w).len() < tol), || format!("oriented box corner {} {:?} missing: {:?}", i, w, &s.m_vertices[..4]));
    }
    let own: Vec<B2vec2> = s.m_vertices[..4].to_vec();
    let _ = own;
    for i in 0..4 {
        let e = d(s.m_vertices[(i + 1) % 4]) - d(s.m_vertices[i]);
        let nn = v(e.y, -e.x).norm();
        ctx.check((d(s.m_normals[i]) - nn).len() < 1e-3, || format!("oriented box normal {} {:?} expected {:?}", i, s.m_normals[i], nn));
    }
    ctx.check((d(s.m_centroid) - d(c)).len() < 1e-5, || format!("oriented box centroid {:?} expected {:?}", s.m_centroid, c));
    ctx.hit("box");
    ctx.distinct(hash_f(&[hx, hy, c.x, a]));
}

pub fn props() -> Vec<Property> {
    vec![
        Property {
            id: "C11",
            rule: "a ray that truly hits a shape child (reference geometry), counted once per distinct ray and transform",
            parts: vec![part("shapes", 200000, 2000000, c11_case), part("aabb", 60000, 500000, c11_aabb)],
            required: vec![("hit_circle", 1000), ("hit_polygon", 1000), ("hit_edge", 500), ("hit_onesided", 200), ("hit_chain", 500), ("hit_near_start", 500), ("miss", 2000), ("aabb_hit", 1000)],
            assumptions: "Rays whose verdict lies within rounding of a boundary (grazing, corner, end of ray) are skipped and counted.",
        },
        Property {
            id: "C12",
            rule: "a point test with a decided verdict on a solid shape",
            parts: vec![part("shapes", 100000, 1000000, c12_case), part("boxes", 50000, 500000, c12_aabb_ops)],
            required: vec![("aabb", 5000), ("inside", 2000), ("outside", 2000), ("open_shape", 2000), ("boxes_overlap", 300), ("boxes_nested", 100)],
            assumptions: "Points within rounding of the boundary are skipped and counted.",
        },
        Property {
            id: "C13",
            rule: "a shape with its mass data",
            parts: vec![part("shapes", 300000, 3000000, c13_case)],
            required: vec![("circle", 1000), ("polygon", 3000), ("offset_polygon", 1000), ("massless", 1000)],
            assumptions: "Tolerance accounts for f32 vertex coordinates.",
        },
        Property {
            id: "C14",
            rule: "a distinct point set with a hull of clear area",
            parts: vec![part("hull", 300000, 3000000, c14_case), part("box", 50000, 500000, c14_box)],
            required: vec![("hull", 8000), ("duplicates", 500), ("near_duplicates", 200), ("grid", 500), ("collinear", 500), ("box", 3000)],
            assumptions: "Point sets with nearly no area, or with pairs right at the welding distance, are outside the valid input.",
        },
    ]
}
