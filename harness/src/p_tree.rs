//! C08 dynamic tree, C09 broad phase
use crate::core::*;
use crate::geo::*;
use box2d_rs::b2_broad_phase::*;
use box2d_rs::b2_collision::*;
use box2d_rs::b2_common::*;
use box2d_rs::b2_dynamic_tree::*;
use box2d_rs::b2_math::*;
use std::collections::{BTreeMap, BTreeSet};

fn aabb(rng: &mut Rng, world: f32, size: f32) -> B2AABB {
    let c = if rng.chance(0.5) { b2v(rng.int(-5, 5) as f32 * world / 5.0, rng.int(-5, 5) as f32 * world / 5.0) } else { rng.vec(world) };
    let h = match rng.below(5) {
        0 => b2v(0.0, 0.0),
        1 => b2v(size * rng.f(0.0, 5.0), 0.01),
        _ => b2v(size * rng.f(0.0, 1.0), size * rng.f(0.0, 1.0)),
    };
    B2AABB { lower_bound: c - h, upper_bound: c + h }
}
fn overlap(a: &B2AABB, b: &B2AABB) -> bool {
    a.lower_bound.x <= b.upper_bound.x && b.lower_bound.x <= a.upper_bound.x && a.lower_bound.y <= b.upper_bound.y && b.lower_bound.y <= a.upper_bound.y
}
fn contains(o: &B2AABB, i: &B2AABB) -> bool {
    o.lower_bound.x <= i.lower_bound.x && o.lower_bound.y <= i.lower_bound.y && o.upper_bound.x >= i.upper_bound.x && o.upper_bound.y >= i.upper_bound.y
}
fn same(a: &B2AABB, b: &B2AABB) -> bool {
    a.lower_bound == b.lower_bound && a.upper_bound == b.upper_bound
}
struct Item {
    given: B2AABB,
    stored: B2AABB,
    data: u64,
    reach: f32,
}
/// fraction interval of the line inside the box enlarged by `g`
fn slab(b: &B2AABB, p1: V, dl: V, g: f64) -> Option<(f64, f64)> {
    let (mut lo, mut hi) = (f64::MIN, f64::MAX);
    for (p, q, l, u) in &[(p1.x, dl.x, b.lower_bound.x as f64 - g, b.upper_bound.x as f64 + g), (p1.y, dl.y, b.lower_bound.y as f64 - g, b.upper_bound.y as f64 + g)] {
        if u < l { return None; }
        if q.abs() < 1e-12 {
            if *p < *l || *p > *u { return None; }
        } else {
            let (a, c) = ((l - p) / q, (u - p) / q);
            lo = lo.max(a.min(c));
            hi = hi.min(a.max(c));
        }
    }
    if lo <= hi { Some((lo, hi)) } else { None }
}

fn check_query(ctx: &mut Ctx, t: &B2dynamicTree<u64>, live: &BTreeMap<i32, Item>, q: &B2AABB) {
    let mut got: Vec<i32> = vec![];
    t.query(|id: i32| { got.push(id); true }, *q);
    let set: BTreeSet<i32> = got.iter().cloned().collect();
    ctx.check(set.len() == got.len(), || format!("a proxy was visited twice by a query: {:?}", got));
    let want: BTreeSet<i32> = live.iter().filter(|(_, i)| overlap(&i.stored, q)).map(|(k, _)| *k).collect();
    ctx.check(set == want, || format!("query visited {:?}, expected {:?}", set, want));
    if !want.is_empty() { ctx.hit("query_nonempty"); }
    // early stop
    if want.len() > 1 {
        let k = 1 + ctx.rng.below(want.len() - 1);
        let mut n = 0;
        t.query(|_| { n += 1; n < k }, *q);
        ctx.check(n == k, || format!("query stopped by its callback after {} went on to {}", k, n));
    }
}
fn check_ray(ctx: &mut Ctx, t: &B2dynamicTree<u64>, live: &BTreeMap<i32, Item>, world: f32) {
    let (p1, mut p2) = (ctx.rng.vec(world * 1.3), ctx.rng.vec(world * 1.3));
    if ctx.rng.chance(0.2) { p2.x = p1.x; }
    if ctx.rng.chance(0.2) { p2.y = p1.y; }
    let dl = d(p2) - d(p1);
    if dl.len() < 1e-3 { return; }
    let maxf = *ctx.rng.pick(&[1.0f32, 1.0, 0.4, 1.7]);
    let inp = B2rayCastInput { p1, p2, max_fraction: maxf };
    let g = 2e-5 * (world as f64 + d(p1).len().max(d(p2).len()) + dl.len());
    let eps = g / dl.len();
    // mode: see everything, ignore, clip at entry, stop after some
    let mode = ctx.rng.below(4);
    let stop = 1 + ctx.rng.below(4);
    let mut clip = maxf;
    let mut seen: Vec<i32> = vec![];
    let mut bad = None;
    t.ray_cast(|i: &B2rayCastInput, id: i32| {
        seen.push(id);
        if i.max_fraction != clip || i.p1 != p1 || i.p2 != p2 {
            bad = Some((id, i.max_fraction, clip));
        }
        match mode {
            0 => i.max_fraction,
            1 => -1.0,
            2 => {
                let b = &live[&id].stored;
                match slab(b, d(p1), dl, 0.0) {
                    Some((lo, _)) if lo > 0.0 && (lo as f32) < i.max_fraction => { clip = lo as f32; clip }
                    _ => -1.0,
                }
            }
            _ => if seen.len() >= stop { 0.0 } else { -1.0 },
        }
    }, &inp);
    ctx.check(bad.is_none(), || format!("the ray handed to the callback is not the clipped one: {:?}", bad));
    let set: BTreeSet<i32> = seen.iter().cloned().collect();
    ctx.check(set.len() == seen.len(), || format!("a proxy was visited twice by a ray cast: {:?}", seen));
    for id in set.iter() {
        let ok = live.get(id).map_or(false, |i| slab(&i.stored, d(p1), dl, g).map_or(false, |(lo, hi)| hi >= -eps && lo <= maxf as f64 + eps));
        ctx.check(ok, || format!("ray {:?}->{:?} max {} visited proxy {} which it does not cross", p1, p2, maxf, id));
    }
    let must: Vec<i32> = live.iter().filter(|(_, i)| slab(&i.stored, d(p1), dl, -g).map_or(false, |(lo, hi)| hi >= eps && lo <= clip as f64 - eps && hi - lo > 2.0 * eps)).map(|(k, _)| *k).collect();
    if mode == 3 {
        ctx.check(seen.len() <= stop, || "a ray cast went on after the callback returned zero".into());
        if must.len() >= stop { ctx.check(seen.len() == stop, || format!("ray cast visited {} proxies, at least {} are crossed", seen.len(), must.len())); ctx.hit("ray_stopped"); }
    } else {
        for id in must.iter() {
            ctx.check(set.contains(id), || format!("ray {:?}->{:?} max {} (mode {}) did not visit proxy {} with box {:?}", p1, p2, clip, mode, id, live[id].stored));
        }
        if !must.is_empty() { ctx.hit(["ray_all", "ray_ignore", "ray_clip", ""][mode]); }
    }
}

fn check_all(ctx: &mut Ctx, t: &B2dynamicTree<u64>, live: &mut BTreeMap<i32, Item>, rebuilt: bool) {
    for (id, it) in live.iter_mut() {
        ctx.evals += 3;
        let f = t.get_fat_aabb(*id);
        if !same(&f, &it.stored) { ctx.fail(format!("stored box of proxy {} changed from {:?} to {:?} without being moved", id, it.stored, f)); }
        if !contains(&f, &it.given) { ctx.fail(format!("stored box {:?} of proxy {} does not contain its box {:?}", f, id, it.given)); }
        if t.get_user_data(*id) != Some(it.data) { ctx.fail(format!("proxy {} has user data {:?}, expected {}", id, t.get_user_data(*id), it.data)); }
    }
    t.validate();
    let h = t.get_height();
    let n = live.len();
    if n < 2 { ctx.check(h == 0, || format!("height {} with {} proxies", h, n)); }
    else {
        let l = (n as f64).log2();
        ctx.check(h as f64 >= l.ceil() - 1e-9, || format!("height {} too small for {} proxies", h, n));
        if !rebuilt { ctx.check(h as f64 <= 1.8 * l + 3.0, || format!("height {} for {} proxies: not balanced", h, n)); ctx.max("height_over_log2", h as f64 / l); ctx.max("balance", t.get_max_balance() as f64 * 1e-6); }
        ctx.check(t.get_area_ration() >= 1.0 - 1e-5, || format!("area ratio {}", t.get_area_ration()));
    }
}

fn c08_case(ctx: &mut Ctx) {
    let world = *ctx.rng.pick(&[2.0f32, 20.0, 200.0]);
    let size = world * ctx.rng.log(0.01, 0.3);
    let mut t = B2dynamicTree::<u64>::new();
    let mut live: BTreeMap<i32, Item> = BTreeMap::new();
    let mut next = 1u64;
    let mut rebuilt = false;
    let target = *ctx.rng.pick(&[3usize, 12, 60, 200]);
    let ops = target * 4 + 20;
    let mut h = vec![];
    for op in 0..ops {
        let grow = live.len() < target;
        let k = ctx.rng.below(100);
        if live.is_empty() || (k < 40 && grow) || (k < 15 && !grow) {
            let a = aabb(&mut ctx.rng, world, size);
            let id = t.create_proxy(a, &next);
            ctx.check(id >= 0 && !live.contains_key(&id), || format!("new proxy got the identifier {} of a live one", id));
            let stored = t.get_fat_aabb(id);
            ctx.check(t.was_moved(id), || "a new proxy is not marked as moved".into());
            live.insert(id, Item { given: a, stored, data: next, reach: 0.0 });
            next += 1;
            ctx.hit("create");
        } else if k < 60 {
            let id = *live.keys().nth(ctx.rng.below(live.len())).unwrap();
            let it = live.get_mut(&id).unwrap();
            let big = ctx.rng.chance(0.4);
            let off = ctx.rng.vec(if big { world } else { 0.15 });
            let a = if ctx.rng.chance(0.1) { aabb(&mut ctx.rng, world, size) } else { B2AABB { lower_bound: it.given.lower_bound + off, upper_bound: it.given.upper_bound + off } };
            let disp = if ctx.rng.chance(0.4) { off } else if ctx.rng.chance(0.3) { B2vec2::zero() } else { ctx.rng.vec(1.0) };
            if ctx.rng.chance(0.5) { t.clear_moved(id); ctx.check(!t.was_moved(id), || "moved mark not cleared".into()); }
            let before = t.was_moved(id);
            let r = t.move_proxy(id, a, disp);
            let now = t.get_fat_aabb(id);
            if !r { ctx.check(same(&now, &it.stored), || format!("a move that changed nothing changed the stored box of {}", id)); ctx.hit("move_kept"); }
            else { ctx.hit("move_reinserted"); }
            ctx.check(r || contains(&it.stored, &a), || format!("moving proxy {} out of its stored box did not re-insert it", id));
            ctx.check(contains(&now, &a), || format!("after moving, stored box {:?} does not contain {:?}", now, a));
            ctx.check(t.was_moved(id) == (r || before), || format!("moved mark {} after a move that returned {}", t.was_moved(id), r));
            it.given = a;
            it.stored = now;
            if r { it.reach = disp.x.abs().max(disp.y.abs()); }
            // stays a bounded enlargement of the given box
            let lim = 3.0 + 20.0 * it.reach.max(disp.x.abs().max(disp.y.abs()));
            ctx.check(now.lower_bound.x > a.lower_bound.x - lim && now.lower_bound.y > a.lower_bound.y - lim && now.upper_bound.x < a.upper_bound.x + lim && now.upper_bound.y < a.upper_bound.y + lim, || format!("stored box {:?} is far larger than {:?}", now, a));
        } else if k < 75 {
            let id = *live.keys().nth(ctx.rng.below(live.len())).unwrap();
            t.destroy_proxy(id);
            live.remove(&id);
            ctx.hit("destroy");
        } else if k < 78 && live.len() < 80 {
            t.rebuild_bottom_up();
            rebuilt = true;
            ctx.hit("rebuild");
        } else if k < 80 {
            let o = ctx.rng.vec(world);
            t.shift_origin(o);
            for (id, it) in live.iter_mut() {
                let f = t.get_fat_aabb(*id);
                let g = 1e-6 * (world + o.length()) * 4.0;
                let ok = (f.lower_bound - (it.stored.lower_bound - o)).length() < g && (f.upper_bound - (it.stored.upper_bound - o)).length() < g;
                if !ok { ctx.fail(format!("origin shift by {:?} took the box {:?} to {:?}", o, it.stored, f)); }
                it.stored = f;
                // rounding may move the two by an ulp: from here the given box is what is stored, shrunk
                it.given = B2AABB { lower_bound: it.given.lower_bound - o, upper_bound: it.given.upper_bound - o };
                if !contains(&f, &it.given) { it.given = f; }
            }
            ctx.hit("shift");
        } else if k < 92 {
            let a = aabb(&mut ctx.rng, world, size * 3.0);
            check_query(ctx, &t, &live, &a);
        } else {
            check_ray(ctx, &t, &live, world);
        }
        h.push((k as u64) << 32 | live.len() as u64);
        if op % 7 == 0 { check_all(ctx, &t, &mut live, rebuilt); }
        if ctx.failed() { return; }
    }
    check_all(ctx, &t, &mut live, rebuilt);
    for _ in 0..4 { let a = aabb(&mut ctx.rng, world, size * 3.0); check_query(ctx, &t, &live, &a); check_ray(ctx, &t, &live, world); }
    h.push(live.len() as u64);
    ctx.distinct(hash_words(&h));
    ctx.sample(format!("{} operations, {} live proxies, height {}", ops, live.len(), t.get_height()));
    // and empty it again
    let ids: Vec<i32> = live.keys().cloned().collect();
    for id in ids { t.destroy_proxy(id); live.remove(&id); if ctx.rng.chance(0.1) { check_all(ctx, &t, &mut live, rebuilt); } }
    t.validate();
    t.rebuild_bottom_up();
    let all = B2AABB { lower_bound: b2v(-1e6, -1e6), upper_bound: b2v(1e6, 1e6) };
    check_query(ctx, &t, &live, &all);
    check_ray(ctx, &t, &live, world);
    ctx.check(t.get_height() == 0 && t.get_max_balance() == 0, || "empty tree has height".into());
}

/// boxes nested in one another give the deepest trees the rebuild can make
fn c08_nested(ctx: &mut Ctx) {
    let n = 280 + ctx.rng.below(60);
    let mut t = B2dynamicTree::<u64>::new();
    let mut live = BTreeMap::new();
    let rev = ctx.rng.chance(0.5);
    for i in 0..n {
        let k = if rev { n - i } else { i + 1 };
        let r = 1.0 + k as f32;
        let a = B2AABB { lower_bound: b2v(-r, -r), upper_bound: b2v(r, r) };
        let id = t.create_proxy(a, &(k as u64));
        live.insert(id, Item { given: a, stored: t.get_fat_aabb(id), data: k as u64, reach: 0.0 });
    }
    check_all(ctx, &t, &mut live, false);
    t.rebuild_bottom_up();
    check_all(ctx, &t, &mut live, true);
    ctx.max("height", t.get_height() as f64 * 1e-6);
    for _ in 0..6 {
        let r = ctx.rng.f(0.0, n as f32);
        let s = ctx.rng.f(0.0, 1.0) * r;
        let c = ctx.rng.dir();
        let a = B2AABB { lower_bound: r * c, upper_bound: r * c + b2v(s, s) };
        check_query(ctx, &t, &live, &a);
        check_ray(ctx, &t, &live, n as f32);
    }
    ctx.hit("nested");
    ctx.distinct(hash_words(&[n as u64, rev as u64]));
    // what a deep tree does when it is used further
    for _ in 0..60 {
        let id = *live.keys().nth(ctx.rng.below(live.len())).unwrap();
        t.destroy_proxy(id);
        live.remove(&id);
        let r = ctx.rng.f(1.0, n as f32);
        let a = B2AABB { lower_bound: b2v(-r, -r), upper_bound: b2v(r, r) };
        let id = t.create_proxy(a, &7);
        live.insert(id, Item { given: a, stored: t.get_fat_aabb(id), data: 7, reach: 0.0 });
    }
    check_all(ctx, &t, &mut live, true);
    let a = B2AABB { lower_bound: b2v(0.0, 0.0), upper_bound: b2v(1.0, 1.0) };
    check_query(ctx, &t, &live, &a);
}

struct Pairs(Vec<(u64, u64)>, u64);
impl AddPairTrait<u64> for Pairs {
    fn add_pair(&mut self, a: Option<u64>, b: Option<u64>) {
        match (a, b) {
            (Some(a), Some(b)) => self.0.push((a.min(b), a.max(b))),
            _ => self.1 += 1,
        }
    }
}
fn c09_case(ctx: &mut Ctx) {
    let world = *ctx.rng.pick(&[2.0f32, 10.0, 50.0]);
    let size = world * ctx.rng.log(0.02, 0.3);
    let mut bp = B2broadPhase::<u64>::new();
    struct P { id: i32, given: B2AABB, times: u32 }
    let mut live: BTreeMap<u64, P> = BTreeMap::new();
    let mut next = 1u64;
    let target = *ctx.rng.pick(&[4usize, 15, 50, 120]);
    let rounds = 12;
    let mut hist = vec![];
    for round in 0..rounds {
        let n = ctx.rng.below(target + 1) + 1;
        for _ in 0..n {
            let k = ctx.rng.below(100);
            if live.is_empty() || (k < 40 && live.len() < target) {
                let a = aabb(&mut ctx.rng, world, size);
                let id = bp.create_proxy(a, &next);
                live.insert(next, P { id, given: a, times: 1 });
                next += 1;
                ctx.hit("create");
            } else {
                let key = *live.keys().nth(ctx.rng.below(live.len())).unwrap();
                if k < 80 {
                    let p = live.get_mut(&key).unwrap();
                    let big = ctx.rng.chance(0.4);
                    let off = ctx.rng.vec(if big { world } else { 0.15 });
                    let a = B2AABB { lower_bound: p.given.lower_bound + off, upper_bound: p.given.upper_bound + off };
                    let old = bp.get_fat_aabb(p.id);
                    let disp = if ctx.rng.chance(0.7) { off } else if ctx.rng.chance(0.5) { B2vec2::zero() } else { ctx.rng.vec(1.0) };
                    bp.move_proxy(p.id, a, disp);
                    p.given = a;
                    let now = bp.get_fat_aabb(p.id);
                    if !contains(&old, &a) || !same(&old, &now) { p.times += 1; ctx.hit("moved_out"); } else { ctx.hit("moved_inside"); }
                    ctx.check(contains(&now, &a), || "stored box does not contain the given box".into());
                } else if k < 88 {
                    let p = live.get_mut(&key).unwrap();
                    bp.touch_proxy(p.id);
                    p.times += 1;
                    if p.times == 1 { p.times = 2; } // a touched proxy may be reported by both partners
                    p.times += 1;
                    ctx.hit("touch");
                } else {
                    let p = live.remove(&key).unwrap();
                    bp.destroy_proxy(p.id);
                    ctx.hit("destroy");
                }
            }
        }
        if ctx.rng.chance(0.1) {
            let o = ctx.rng.vec(world);
            bp.shift_origin(o);
            for p in live.values_mut() { p.given = B2AABB { lower_bound: p.given.lower_bound - o, upper_bound: p.given.upper_bound - o }; }
        }
        ctx.check(bp.get_proxy_count() as usize == live.len(), || format!("proxy count {} with {} live", bp.get_proxy_count(), live.len()));
        let mut got = Pairs(vec![], 0);
        bp.update_pairs(&mut got);
        ctx.check(got.1 == 0, || "a pair was reported without user data".into());
        let mut count: BTreeMap<(u64, u64), u32> = BTreeMap::new();
        for p in got.0.iter() { *count.entry(*p).or_insert(0) += 1; }
        let keys: Vec<u64> = live.keys().cloned().collect();
        let mut expected = 0;
        for (i, a) in keys.iter().enumerate() {
            for b in keys[i + 1..].iter() {
                let (pa, pb) = (&live[a], &live[b]);
                let (fa, fb) = (bp.get_fat_aabb(pa.id), bp.get_fat_aabb(pb.id));
                let ov = overlap(&fa, &fb);
                ctx.evals += 1;
                if bp.test_overlap(pa.id, pb.id) != ov { ctx.fail(format!("overlap test of {} and {} says {}", a, b, !ov)); }
                let c = count.remove(&(*a, *b)).unwrap_or(0);
                let want = ov && (pa.times > 0 || pb.times > 0);
                if want { expected += 1; }
                if want && c == 0 { ctx.fail(format!("overlapping pair {} {} was not reported in round {} (changes {} {})", a, b, round, pa.times, pb.times)); }
                if !want && c > 0 { ctx.fail(format!("pair {} {} was reported in round {}: overlap {}, changes {} {}", a, b, round, ov, pa.times, pb.times)); }
                if want && c > 1 && pa.times <= 1 && pb.times <= 1 { ctx.fail(format!("pair {} {} was reported {} times in one update", a, b, c)); }
                if want && pa.times <= 1 && pb.times <= 1 { ctx.hit("single_change_pair"); }
                if want && pa.times > 0 && pb.times > 0 { ctx.hit("both_changed_pair"); }
            }
        }
        ctx.check(count.is_empty(), || format!("pairs with unknown or equal partners were reported: {:?}", count));
        ctx.add("pairs", expected);
        hist.push(expected);
        if expected > 30 { ctx.hit("many_pairs_round"); }
        for p in live.values_mut() { p.times = 0; }
        // nothing new without changes
        if ctx.rng.chance(0.3) {
            let mut got = Pairs(vec![], 0);
            bp.update_pairs(&mut got);
            ctx.check(got.0.is_empty() && got.1 == 0, || format!("{} pairs reported without any change", got.0.len()));
        }
        // user data and queries
        let q = aabb(&mut ctx.rng, world, size * 3.0);
        let mut seen = BTreeSet::new();
        bp.query(|id: i32| { seen.insert(id); true }, q);
        let want: BTreeSet<i32> = live.values().filter(|p| overlap(&bp.get_fat_aabb(p.id), &q)).map(|p| p.id).collect();
        ctx.check(seen == want, || format!("query saw {:?}, expected {:?}", seen, want));
        for (k, p) in live.iter() { ctx.evals += 1; if bp.get_user_data(p.id) != Some(*k) { ctx.fail(format!("user data of {} lost", k)); } }
        if ctx.failed() { return; }
    }
    ctx.distinct(hash_words(&hist));
    ctx.sample(format!("pairs per update {:?}", hist));
    let _ = B2_AABB_EXTENSION;
}

/// very many overlapping pairs in one update
fn c09_crowd(ctx: &mut Ctx) {
    let n = *ctx.rng.pick(&[150usize, 400, 700]) + ctx.rng.below(60);
    let mut bp = B2broadPhase::<u64>::new();
    let ids: Vec<i32> = (0..n).map(|i| { let a = aabb(&mut ctx.rng, 1.0, 1.0); bp.create_proxy(a, &(i as u64 + 1)) }).collect();
    for round in 0..3 {
        let from = match round { 0 => n, 1 => ctx.rng.below(n), _ => 1 };
        if round > 0 { for id in &ids[..from] { bp.touch_proxy(*id); } }
        let mut got = Pairs(vec![], 0);
        bp.update_pairs(&mut got);
        let seen: BTreeSet<(u64, u64)> = got.0.iter().cloned().collect();
        let boxes: Vec<B2AABB> = ids.iter().map(|i| bp.get_fat_aabb(*i)).collect();
        let mut want = BTreeSet::new();
        for i in 0..from { for j in 0..n { if i != j && overlap(&boxes[i], &boxes[j]) { want.insert((i.min(j) as u64 + 1, i.max(j) as u64 + 1)); } } }
        ctx.max("crowd_pairs", want.len() as f64);
        ctx.check(seen == want, || format!("{} of {} proxies changed: {} pairs reported, {} expected", from, n, seen.len(), want.len()));
        if ctx.failed() { return; }
    }
    ctx.hit("crowd");
    ctx.distinct(hash_words(&[n as u64, ctx.idx]));
}

pub fn props() -> Vec<Property> {
    vec![
        Property {
            id: "C08",
            rule: "a distinct operation history on a tree",
            parts: vec![part("histories", 12000, 120000, c08_case), part("nested", 16, 160, c08_nested)],
            required: vec![("create", 10000), ("destroy", 5000), ("move_kept", 2000), ("move_reinserted", 2000), ("rebuild", 500), ("shift", 500), ("query_nonempty", 2000), ("ray_all", 300), ("ray_ignore", 300), ("ray_clip", 300), ("ray_stopped", 100), ("nested", 8)],
            assumptions: "Rays are judged with a rounding band; height and balance bounds are dropped after a rebuild, which is allowed to be unbalanced.",
        },
        Property {
            id: "C09",
            rule: "a distinct history of pair counts",
            parts: vec![part("histories", 6000, 60000, c09_case), part("crowd", 16, 160, c09_crowd)],
            required: vec![("pairs", 50000), ("single_change_pair", 10000), ("both_changed_pair", 5000), ("touch", 2000), ("destroy", 5000), ("moved_out", 5000), ("moved_inside", 1000), ("many_pairs_round", 500), ("crowd", 8)],
            assumptions: "A pair may be reported again within one update when one of its proxies was moved or touched more than once.",
        },
    ]
}
