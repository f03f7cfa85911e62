//! C01 determinism, C02 object graph, C03 contact set, C04 touching and manifolds, C05 events, C06 filters,
//! C07 sensors, C10 queries
use crate::core::*;
use crate::gen::*;
use crate::geo::*;
use crate::p_geom::{ref_ray, Ray};
use crate::p_manifold::{face_sep, judge, clip_sure};
use crate::sim::*;
use std::cell::RefCell;
use std::collections::{BTreeMap, BTreeSet};
use std::rc::Rc;

// ------------------------------------------------------------------------------------------------ C01

fn ev_hash(v: &[Ev]) -> u64 {
    let mut w: Vec<u64> = vec![];
    let key = |k: &Key, w: &mut Vec<u64>| { w.push((k.0 as u64) << 32 | k.2 as u64); w.push((k.1 as u64) << 32 | k.3 as u64 & 0xffff_ffff); };
    for e in v {
        match e {
            Ev::Begin(k, _) => { w.push(1); key(k, &mut w) }
            Ev::End(k, _) => { w.push(2); key(k, &mut w) }
            Ev::Pre(k, i) => {
                w.push(3);
                key(k, &mut w);
                w.push(i.manifold.point_count as u64);
                for p in i.manifold.points[..i.manifold.point_count].iter() { w.push((p.local_point.x.to_bits() as u64) << 32 | p.local_point.y.to_bits() as u64); w.push((p.normal_impulse.to_bits() as u64) << 32 | p.tangent_impulse.to_bits() as u64); }
            }
            Ev::Post(k, i) => {
                w.push(4);
                key(k, &mut w);
                for x in i.normal.iter().chain(i.tangent.iter()) { w.push(x.to_bits() as u64); }
            }
        }
    }
    hash_words(&w)
}
fn c01_opts(rng: &mut Rng) -> SceneOpts {
    let mut o = SceneOpts::default();
    o.bodies = rng.int(3, 14) as usize;
    o.joints = rng.int(0, 5) as usize;
    o.spread = rng.f(1.5, 6.0);
    o.speed = *rng.pick(&[2.0f32, 5.0, 30.0]);
    o.gravity = rng.chance(0.8);
    o
}
/// one run of the program described by `seed`; calls `between` after each operation
fn c01_run(seed: u64, ops: usize, mut between: impl FnMut()) -> (Vec<u64>, u64) {
    let mut rng = Rng::new(seed);
    let o = c01_opts(&mut rng);
    let mut sim = rand_scene(&mut rng, &o);
    let mut out = vec![sim.state_hash()];
    let mut contacts = 0;
    for _ in 0..ops {
        rand_op(&mut sim, &mut rng, &o);
        let e = sim.take_events();
        contacts += e.len() as u64;
        out.push(sim.state_hash());
        out.push(ev_hash(&e));
        // what a query sees, in the order it sees it
        let mut q: Vec<u64> = vec![];
        if rng.chance(0.2) {
            sim.w.borrow().query_aabb(|f| { q.push(fix_id(&f) as u64); true }, B2AABB { lower_bound: b2v(-2.0, -2.0), upper_bound: b2v(2.0, 2.0) });
            sim.w.borrow().ray_cast(|f, _, n, fr| { q.push(fix_id(&f) as u64); q.push(fr.to_bits() as u64); q.push(n.x.to_bits() as u64); 1.0 }, b2v(-5.0, 0.3), b2v(5.0, -0.2));
            out.push(hash_words(&q));
        }
        between();
    }
    (out, contacts)
}
fn c01_case(ctx: &mut Ctx) {
    let seed = ctx.rng.u64();
    let ops = 120;
    let (a, n) = c01_run(seed, ops, || {});
    ctx.add("events", n);
    let mode = ctx.rng.below(3);
    let (b, name) = match mode {
        0 => {
            // another world is built, stepped and dropped in between, with allocator churn
            let s2 = ctx.rng.u64();
            let mut r2 = Rng::new(s2);
            let o2 = c01_opts(&mut r2);
            let mut other = rand_scene(&mut r2, &o2);
            let mut junk: Vec<Vec<u8>> = vec![];
            let r = c01_run(seed, ops, || {
                for _ in 0..r2.below(3) { rand_op(&mut other, &mut r2, &o2); }
                other.take_events();
                if r2.chance(0.1) { other = rand_scene(&mut r2, &o2); }
                let n = r2.below(600) + 1;
                junk.push(vec![0u8; n]);
                if junk.len() > 20 { let k = r2.below(junk.len()); junk.swap_remove(k); }
            });
            (r.0, "another world in between")
        }
        1 => {
            let h = std::thread::spawn(move || c01_run(seed, ops, || {}).0);
            let o: Vec<_> = (0..2).map(|i| std::thread::spawn(move || c01_run(mix(seed ^ i), 40, || {}).0)).collect();
            let r = h.join();
            for t in o { let _ = t.join(); }
            match r { Ok(v) => (v, "another thread"), Err(_) => { ctx.fail("run in another thread panicked though the first run did not".into()); return; } }
        }
        _ => (c01_run(seed, ops, || {}).0, "second run"),
    };
    ctx.hit(name);
    ctx.distinct(*a.last().unwrap());
    let k = a.iter().zip(b.iter()).position(|(x, y)| x != y);
    ctx.evals += a.len() as u64;
    ctx.check(k.is_none() && a.len() == b.len(), || format!("{}: observations differ from number {:?} of {}", name, k, a.len()));
    ctx.sample(format!("{} observations equal ({}), {} events", a.len(), name, n));
}

// ------------------------------------------------------------------------------------------------ C02

pub fn graph_ok(ctx: &mut Ctx, sim: &Sim, what: &str) {
    let w = sim.w.borrow();
    let bodies: Vec<BodyPtr<UD>> = w.get_body_list().iter().collect();
    ctx.check(bodies.len() == sim.bodies.len() && w.get_body_count() as usize == sim.bodies.len(), || format!("after {}: {} bodies listed, count {}, {} live", what, bodies.len(), w.get_body_count(), sim.bodies.len()));
    for h in sim.bodies.iter() {
        let k = bodies.iter().filter(|b| Rc::ptr_eq(b, &h.p)).count();
        if k != 1 { ctx.fail(format!("after {}: body {} is listed {} times", what, h.id, k)); }
    }
    let mut proxies = 0;
    for h in sim.bodies.iter() {
        let b = h.p.borrow();
        if b.get_user_data().map(|t| t.id) != Some(h.id) { ctx.fail(format!("after {}: body {} lost its user data", what, h.id)); }
        if !Rc::ptr_eq(&b.get_world(), &sim.w) { ctx.fail(format!("after {}: body {} belongs to another world", what, h.id)); }
        let fs: Vec<FixturePtr<UD>> = b.get_fixture_list().iter().collect();
        ctx.check(fs.len() == h.f.len(), || format!("after {}: body {} lists {} fixtures, has {}", what, h.id, fs.len(), h.f.len()));
        for f in h.f.iter() {
            let k = fs.iter().filter(|x| Rc::ptr_eq(x, &f.p)).count();
            if k != 1 { ctx.fail(format!("after {}: fixture {} is listed {} times", what, f.id, k)); }
            let fp = f.p.borrow();
            if !Rc::ptr_eq(&fp.get_body(), &h.p) { ctx.fail(format!("after {}: fixture {} points to another body", what, f.id)); }
            if fp.get_user_data().map(|t| t.id) != Some(f.id) { ctx.fail(format!("after {}: fixture {} lost its user data", what, f.id)); }
            if b.is_enabled() { proxies += fp.get_shape().get_child_count(); }
        }
        ctx.evals += fs.len() as u64;
        let edges = count_joint_edges(&b);
        let want = sim.joints.iter().filter(|j| j.a == h.id).count() + sim.joints.iter().filter(|j| j.b == h.id).count();
        ctx.check(edges == want, || format!("after {}: body {} lists {} joints, has {}", what, h.id, edges, want));
    }
    ctx.check(w.get_proxy_count() as usize == proxies, || format!("after {}: {} proxies, expected {}", what, w.get_proxy_count(), proxies));
    let joints: Vec<B2jointPtr<UD>> = w.get_joint_list().iter().collect();
    ctx.check(joints.len() == sim.joints.len() && w.get_joint_count() as usize == sim.joints.len(), || format!("after {}: {} joints listed, count {}, {} live", what, joints.len(), w.get_joint_count(), sim.joints.len()));
    for j in sim.joints.iter() {
        let k = joints.iter().filter(|x| Rc::ptr_eq(x, &j.p)).count();
        if k != 1 { ctx.fail(format!("after {}: joint {} is listed {} times", what, j.id, k)); }
        let jb = j.p.borrow();
        let base = jb.get_base();
        let (a, b) = (base.get_body_a().borrow().get_user_data().map_or(0, |t| t.id), base.get_body_b().borrow().get_user_data().map_or(0, |t| t.id));
        ctx.check(a == j.a && b == j.b, || format!("after {}: {:?} joint {} connects {} {} instead of {} {}", what, j.kind, j.id, a, b, j.a, j.b));
        ctx.check(base.get_collide_connected() == j.collide, || format!("after {}: joint {} changed its collide flag", what, j.id));
        if base.get_user_data().map(|t| t.id) != Some(j.id) { ctx.fail(format!("after {}: joint {} lost its user data", what, j.id)); }
    }
    let contacts: Vec<ContactPtr<UD>> = w.get_contact_list().iter().collect();
    ctx.check(contacts.len() == w.get_contact_count() as usize, || format!("after {}: {} contacts listed, count {}", what, contacts.len(), w.get_contact_count()));
    let mut edges = 0;
    for h in sim.bodies.iter() {
        let b = h.p.borrow();
        let list = b.get_contact_list();
        let mut it = list.iter();
        let mut seen: Vec<ContactPtr<UD>> = vec![];
        while let Some(e) = it.next() {
            edges += 1;
            let e = e.borrow();
            let c = e.contact.upgrade();
            let other = e.other.upgrade();
            match (c, other) {
                (Some(c), Some(other)) => {
                    if !contacts.iter().any(|x| Rc::ptr_eq(x, &c)) { ctx.fail(format!("after {}: body {} lists a contact the world does not", what, h.id)); }
                    if seen.iter().any(|x| Rc::ptr_eq(x, &c)) { ctx.fail(format!("after {}: body {} lists a contact twice", what, h.id)); }
                    let cb = c.borrow();
                    let (fa, fb) = (cb.get_base().get_fixture_a(), cb.get_base().get_fixture_b());
                    let (ba, bb) = (fa.borrow().get_body(), fb.borrow().get_body());
                    let o = if Rc::ptr_eq(&ba, &h.p) { bb.clone() } else { ba.clone() };
                    if !(Rc::ptr_eq(&ba, &h.p) || Rc::ptr_eq(&bb, &h.p)) || !Rc::ptr_eq(&o, &other) { ctx.fail(format!("after {}: body {} lists a contact of other bodies", what, h.id)); }
                    drop(cb);
                    seen.push(c);
                }
                _ => ctx.fail(format!("after {}: body {} lists a dead contact", what, h.id)),
            }
        }
    }
    ctx.check(edges == 2 * contacts.len(), || format!("after {}: {} body-side entries for {} contacts", what, edges, contacts.len()));
    for c in contacts.iter() {
        let cb = c.borrow();
        for f in &[cb.get_base().get_fixture_a(), cb.get_base().get_fixture_b()] {
            let ok = sim.bodies.iter().any(|b| b.f.iter().any(|x| Rc::ptr_eq(&x.p, f)));
            if !ok { ctx.fail(format!("after {}: a contact refers to a fixture that is gone", what)); }
        }
    }
    ctx.check(!w.is_locked(), || format!("after {}: world stays locked", what));
    ctx.evals += contacts.len() as u64;
    if contacts.len() > 3 { ctx.hit("with_contacts"); }
    if joints.len() > 1 { ctx.hit("with_joints"); }
}
fn count_joint_edges(b: &B2body<UD>) -> usize {
    b.get_joint_list().iter().count()
}
fn c02_case(ctx: &mut Ctx) {
    let mut o = SceneOpts::default();
    o.bodies = ctx.rng.int(2, 10) as usize;
    o.joints = ctx.rng.int(0, 5) as usize;
    o.spread = ctx.rng.f(1.0, 4.0);
    let mut sim = rand_scene(&mut ctx.rng, &o);
    let mut h = vec![];
    graph_ok(ctx, &sim, "construction");
    for _ in 0..60 {
        let op = rand_op(&mut sim, &mut ctx.rng, &o);
        ctx.log(|| op.to_string());
        ctx.hit(op);
        h.push(op.as_ptr() as u64);
        h.push(sim.bodies.len() as u64);
        graph_ok(ctx, &sim, op);
        sim.take_events();
        if ctx.failed() { return; }
        if sim.wild() { ctx.hit("skipped: joints diverged"); return; }
    }
    ctx.distinct(sim.state_hash());
    ctx.sample(format!("{} bodies {} joints {} contacts after 60 operations", sim.bodies.len(), sim.joints.len(), sim.contacts().len()));
}

// ------------------------------------------------------------------------------------------------ C03

pub fn filter_rule(a: &B2filter, b: &B2filter) -> bool {
    if a.group_index != 0 && a.group_index == b.group_index { return a.group_index > 0; }
    (a.category_bits & b.mask_bits) != 0 && (b.category_bits & a.mask_bits) != 0
}
struct Child {
    b: usize,
    fid: u32,
    child: i32,
    cx: Cx,
    lo: V,
    hi: V,
    filter: B2filter,
    line: bool,
}
fn child_list(sim: &Sim) -> Vec<Child> {
    let mut v = vec![];
    for (i, h) in sim.bodies.iter().enumerate() {
        let b = h.p.borrow();
        if !b.is_enabled() { continue; }
        let x = Xf::of(b.get_transform());
        for f in h.f.iter() {
            let fp = f.p.borrow();
            let s = fp.get_shape();
            for (k, c) in children(&*s).into_iter().enumerate() {
                let cx = c.moved(&x);
                let (mut lo, mut hi) = (V { x: 1e30, y: 1e30 }, V { x: -1e30, y: -1e30 });
                for p in cx.p.iter() {
                    lo = V { x: lo.x.min(p.x - cx.r), y: lo.y.min(p.y - cx.r) };
                    hi = V { x: hi.x.max(p.x + cx.r), y: hi.y.max(p.y + cx.r) };
                }
                v.push(Child { b: i, fid: f.id, child: k as i32, cx, lo, hi, filter: fp.get_filter_data(), line: !matches!(f.kind, Kind::Circle | Kind::Poly) });
            }
        }
    }
    v
}
/// may bodies i and j interact as far as their types and joints are concerned
fn bodies_may(sim: &Sim, i: usize, j: usize) -> bool {
    if i == j { return false; }
    let (a, b) = (sim.bodies[i].p.borrow(), sim.bodies[j].p.borrow());
    if a.get_type() != DYNAMIC && b.get_type() != DYNAMIC { return false; }
    let (x, y) = (sim.bodies[i].id, sim.bodies[j].id);
    !sim.joints.iter().any(|q| !q.collide && ((q.a == x && q.b == y) || (q.a == y && q.b == x)))
}
/// `fresh`: pairs of bodies that lost a joint forbidding collision; they need to move before they are found
fn contacts_ok(ctx: &mut Ctx, sim: &Sim, what: &str, fresh: &BTreeSet<(u32, u32)>, examined: bool) {
    let ch = child_list(sim);
    let mut have: BTreeMap<Key, u32> = BTreeMap::new();
    for c in sim.contacts() {
        let c = c.borrow();
        *have.entry(norm_key(contact_key(c.get_base()))).or_insert(0) += 1;
    }
    let mut index = BTreeMap::new();
    for (i, c) in ch.iter().enumerate() { index.insert((c.fid, c.child), i); }
    for i in 0..ch.len() {
        for j in i + 1..ch.len() {
            let (a, b) = (&ch[i], &ch[j]);
            if a.b == b.b { continue; }
            let e = 1e-3;
            if a.lo.x + e > b.hi.x || b.lo.x + e > a.hi.x || a.lo.y + e > b.hi.y || b.lo.y + e > a.hi.y { continue; }
            if a.line && b.line { continue; }
            if !filter_rule(&a.filter, &b.filter) || !bodies_may(sim, a.b, b.b) { continue; }
            let (x, y) = (sim.bodies[a.b].id, sim.bodies[b.b].id);
            if fresh.contains(&(x.min(y), x.max(y))) { ctx.hit("skipped_after_joint"); continue; }
            let k = norm_key((a.fid, a.child, b.fid, b.child));
            ctx.hit("overlapping_pair");
            let n = have.get(&k).copied().unwrap_or(0);
            if ctx.verbose && n != 1 { for id in &[a.b, b.b] { let h = &sim.bodies[*id]; let q = h.p.borrow(); println!("   body {} {:?} awake {} pos {:?} jump {} fixtures {:?} mass {}", h.id, q.get_type(), q.is_awake(), q.get_position(), h.jump, h.f.iter().map(|f| (f.id, f.kind)).collect::<Vec<_>>(), q.get_mass()); } println!("   boxes {:?}-{:?} {:?}-{:?}", a.lo, a.hi, b.lo, b.hi); for (c, f) in &[(a.child, a.fid), (b.child, b.fid)] { let (x, y) = sim.find_fixture(*f).unwrap(); println!("   stored {:?} v {:?} {} flags cont {}", sim.bodies[x].f[y].p.borrow().get_aabb(*c), sim.bodies[x].p.borrow().get_linear_velocity(), sim.bodies[x].p.borrow().get_angular_velocity(), sim.w.borrow().get_continuous_physics()); } }
            ctx.check(n == 1, || format!("after {}: pair {:?} of bodies {} {} with overlapping boxes has {} contacts", what, k, x, y, n));
        }
    }
    for (k, n) in have.iter() {
        let (ia, ib) = match (index.get(&(k.0, k.1)), index.get(&(k.2, k.3))) {
            (Some(a), Some(b)) => (*a, *b),
            _ => { ctx.fail(format!("after {}: contact {:?} of a disabled or missing object", what, k)); continue; }
        };
        let (a, b) = (&ch[ia], &ch[ib]);
        ctx.check(*n == 1, || format!("after {}: {} contacts for {:?}", what, n, k));
        ctx.check(filter_rule(&a.filter, &b.filter) && bodies_may(sim, a.b, b.b), || format!("after {}: contact {:?} for a pair that may not collide (bodies {} {})", what, k, sim.bodies[a.b].id, sim.bodies[b.b].id));
        ctx.hit("contact");
        if examined {
            let (p, q) = (sim.bodies[a.b].p.borrow(), sim.bodies[b.b].p.borrow());
            if (p.is_awake() && p.get_type() != STATIC) || (q.is_awake() && q.get_type() != STATIC) {
                let (fa, fb) = (sim.find_fixture(k.0).unwrap(), sim.find_fixture(k.2).unwrap());
                let (ba, bb) = (sim.bodies[fa.0].f[fa.1].p.borrow().get_aabb(k.1), sim.bodies[fb.0].f[fb.1].p.borrow().get_aabb(k.3));
                let e = 1e-4 * (1.0 + a.cx.max_abs().max(b.cx.max_abs()) as f32);
                let _ = e;
                let apart = ba.lower_bound.x > bb.upper_bound.x || bb.lower_bound.x > ba.upper_bound.x || ba.lower_bound.y > bb.upper_bound.y || bb.lower_bound.y > ba.upper_bound.y;
                ctx.hit("examined");
                if apart {
                    // the fixture's own box may be the tight one; only clear distance counts
                    let gap = (a.lo.x - b.hi.x).max(b.lo.x - a.hi.x).max(a.lo.y - b.hi.y).max(b.lo.y - a.hi.y);
                    ctx.max("gap_of_contact", gap);
                    ctx.check(gap < sim.reach(a.b) + sim.reach(b.b), || format!("after {}: contact {:?} survives though the boxes are {} apart", what, k, gap));
                }
            }
        }
    }
}
fn c03_case(ctx: &mut Ctx) {
    let mut o = SceneOpts::default();
    // a step that only continues an unfinished one does not look for new pairs
    o.sub_stepping = false;
    o.bodies = ctx.rng.int(3, 10) as usize;
    o.joints = ctx.rng.int(0, 3) as usize;
    o.spread = ctx.rng.f(1.0, 5.0);
    o.speed = *ctx.rng.pick(&[2.0f32, 10.0, 60.0]);
    let mut sim = rand_scene(&mut ctx.rng, &o);
    let mut fresh = BTreeSet::new();
    for _ in 0..50 {
        let before: Vec<(u32, u32)> = sim.joints.iter().filter(|j| !j.collide).map(|j| (j.a.min(j.b), j.a.max(j.b))).collect();
        let op = rand_op(&mut sim, &mut ctx.rng, &o);
        ctx.log(|| op.to_string());
        for p in before { if !sim.joints.iter().any(|j| !j.collide && (j.a.min(j.b), j.a.max(j.b)) == p) { fresh.insert(p); } }
        let newest = sim.bodies.iter().enumerate().flat_map(|(i, b)| b.f.iter().map(move |f| (f.id, i))).max();
        let taking_part = newest.map_or(false, |(_, i)| sim.b(i).borrow().is_enabled());
        if (op == "create fixture" || op == "create body" && !sim.bodies.last().unwrap().f.is_empty()) && taking_part && ctx.rng.chance(0.3) {
            // a step of no length looks for the pairs of what is new, too
            sim.step_dt(0.0);
            if sim.wild() { ctx.hit("skipped: joints diverged"); return; }
            contacts_ok(ctx, &sim, &format!("{} and a zero step", op), &fresh, true);
            ctx.hit("zero_step_after_creation");
        }
        if ctx.rng.chance(0.5) || op == "step" {
            sim.step();
            if sim.wild() { ctx.hit("skipped: joints diverged"); return; }
            contacts_ok(ctx, &sim, &format!("{} and a step", op), &fresh, false);
            if ctx.rng.chance(0.5) {
                sim.step_dt(0.0);
                if sim.wild() { ctx.hit("skipped: joints diverged"); return; }
                contacts_ok(ctx, &sim, &format!("{}, a step and a zero step", op), &fresh, true);
            }
        }
        sim.take_events();
        if ctx.failed() { return; }
    }
    ctx.distinct(sim.state_hash());
}
/// two bodies driven apart and together along a path: the contact comes and goes with the boxes
fn c03_pair(ctx: &mut Ctx) {
    let mut sim = Sim::new(b2v(0.0, 0.0));
    let (ta, tb) = *ctx.rng.pick(&[(DYNAMIC, DYNAMIC), (DYNAMIC, STATIC), (STATIC, DYNAMIC), (KINEMATIC, DYNAMIC), (DYNAMIC, KINEMATIC)]);
    let fx = Fx { sensor: true, ..Default::default() };
    let mut def = Sim::def(ta, b2v(0.0, 0.0), ctx.rng.angle());
    def.allow_sleep = false;
    let a = sim.add(def);
    let mut def = Sim::def(tb, b2v(20.0, 0.0), ctx.rng.angle());
    def.allow_sleep = false;
    let b = sim.add(def);
    let (s, k) = rand_shape(&mut ctx.rng, true);
    sim.fixture(a, &s, k, &fx);
    let (s, k2) = (rc(circle(b2v(0.0, 0.0), 0.4)), Kind::Circle);
    sim.fixture(b, &s, k2, &fx);
    let none = BTreeSet::new();
    for _ in 0..25 {
        let near = ctx.rng.chance(0.5);
        let x = if near { ctx.rng.vec(1.5) } else { let u = ctx.rng.dir(); let r = ctx.rng.f(2.0, 30.0); r * u };
        let ang = ctx.rng.angle();
        let ca = sim.b(a).borrow().get_position();
        let pb = sim.b(b);
        pb.borrow_mut().set_transform(ca + x, ang);
        pb.borrow_mut().set_linear_velocity(b2v(0.0, 0.0));
        sim.step();
        contacts_ok(ctx, &sim, "teleport and step", &none, true);
        // far apart: no contact may remain after the step examined it
        let ch = child_list(&sim);
        let gap = ch.iter().filter(|c| c.b == a).map(|p| ch.iter().filter(|c| c.b == b).map(|q| (p.lo.x - q.hi.x).max(q.lo.x - p.hi.x).max(p.lo.y - q.hi.y).max(q.lo.y - p.hi.y)).fold(f64::MAX, f64::min)).fold(f64::MAX, f64::min);
        if gap > 0.45 {
            ctx.hit("teleported_away");
            let n = sim.contacts().len();
            // boxes hold the margin only: nothing moves here except by teleport
            ctx.check(n == 0, || format!("{} contacts though the boxes are {} apart", n, gap));
        } else if gap < 0.0 { ctx.hit("teleported_near"); }
        if ctx.failed() { return; }
    }
    ctx.distinct(hash_f(&[sim.b(b).borrow().get_position().x]));
}

// ------------------------------------------------------------------------------------------------ C04

/// does the pair touch (manifold non-empty)? None where rounding or the one-sided rules decide
fn solid_truth(ca: &Cx, cb: &Cx, one_sided: bool) -> Option<bool> {
    let rr = ca.r + cb.r;
    let tol = 1e-5 * ca.max_abs().max(cb.max_abs()).max(1.0);
    let e = core_distance(ca, cb).0;
    let f = face_sep(ca, cb);
    let round = ca.p.len() == 1 || cb.p.len() == 1;
    if e > if round { rr + tol } else { 1.5 * rr + tol } || (!round && f > rr + tol) { return Some(false); }
    if one_sided { return None; }
    let deep = if (ca.p.len() == 2 || cb.p.len() == 2) && !round { 0.03 } else { 2.0 * tol };
    // the clipping of an edge and a polygon may leave nothing
    if !round && !clip_sure(ca, cb) { return None; }
    if if round { e < rr - tol } else { e <= 0.0 && f < -deep } { return Some(true); }
    None
}
fn one_sided_of(sim: &Sim, k: Key) -> bool {
    let f = |id: u32| { let (i, j) = sim.find_fixture(id).unwrap(); matches!(sim.bodies[i].f[j].kind, Kind::OneSided | Kind::Chain | Kind::Loop) };
    f(k.0) || f(k.2)
}
fn child_cx(sim: &Sim, fid: u32, child: i32, x: B2Transform) -> Cx {
    let (i, j) = sim.find_fixture(fid).unwrap();
    let s = sim.bodies[i].f[j].p.borrow().get_shape();
    children(&*s)[child as usize].moved(&Xf::of(x))
}
fn judge_contact(ctx: &mut Ctx, sim: &Sim, what: &str, k: Key, m: &B2manifold, touching: bool, sensor: bool, xa: B2Transform, xb: B2Transform) {
    let (ca, cb) = (child_cx(sim, k.0, k.1, xa), child_cx(sim, k.2, k.3, xb));
    let os = one_sided_of(sim, k);
    if sensor {
        let s = separation(&ca, &cb);
        let tol = 2e-5 * ca.max_abs().max(cb.max_abs()).max(1.0);
        if s > tol { ctx.hit("sensor_apart"); ctx.check(!touching, || format!("{}: sensor pair {:?} is {} apart and counts as touching", what, k, s)); }
        if s < -tol { ctx.hit("sensor_overlap"); ctx.check(touching, || format!("{}: sensor pair {:?} overlaps by {} and does not count as touching", what, k, -s)); }
        ctx.check(m.point_count == 0, || format!("{}: sensor pair {:?} has {} manifold points", what, k, m.point_count));
        return;
    }
    ctx.check(touching == (m.point_count > 0), || format!("{}: pair {:?} touching {} with {} manifold points", what, k, touching, m.point_count));
    if ctx.verbose { println!("{:?} {:?}", ca, cb); }
    match solid_truth(&ca, &cb, os) {
        Some(t) => {
            ctx.hit(if t { "solid_overlap" } else { "solid_apart" });
            ctx.check(t == touching, || format!("{}: pair {:?} touching status is {} but geometry says {} (core distance {}, separation {})", what, k, touching, t, core_distance(&ca, &cb).0, separation(&ca, &cb)));
        }
        None => ctx.hit("undecided"),
    }
    if touching && m.point_count > 0 {
        let mut w = B2worldManifold::default();
        w.initialize(m, xa, ca.r as f32, xb, cb.r as f32);
        ctx.hit("manifold");
        judge(ctx, &format!("{} {:?}", what, k), &ca, &cb, m, &w, os);
    }
}
/// contacts an examination looks at: one of the bodies is awake and not static
fn active(sim: &Sim, k: Key) -> bool {
    let g = |id: u32| { let (i, _) = sim.find_fixture(id).unwrap(); let b = sim.bodies[i].p.borrow(); b.is_awake() && b.get_type() != STATIC };
    g(k.0) || g(k.2)
}
fn c04_case(ctx: &mut Ctx) {
    let mut o = SceneOpts::default();
    o.bodies = ctx.rng.int(3, 10) as usize;
    o.joints = ctx.rng.int(0, 2) as usize;
    o.spread = ctx.rng.f(0.8, 3.0);
    o.filters = false;
    o.gravity = ctx.rng.chance(0.7);
    let mut sim = rand_scene(&mut ctx.rng, &o);
    for _ in 0..40 {
        // during real steps: what pre-solve is shown
        let op = rand_op(&mut sim, &mut ctx.rng, &o);
        if sim.wild() { ctx.hit("skipped: joints diverged"); return; }
        let ev = sim.take_events();
        if op == "step" || op == "odd step" {
            for e in ev {
                if let Ev::Pre(k, i) = e {
                    ctx.hit("pre_solve");
                    judge_contact(ctx, &sim, "pre-solve", k, &i.manifold, i.touching, i.sensor, i.xa, i.xb);
                }
            }
        }
        if ctx.failed() { return; }
        // an examination without motion
        if ctx.rng.chance(0.5) {
            let asleep: Vec<(Key, bool, usize)> = sim.contacts().iter().filter_map(|c| { let c = c.borrow(); let k = contact_key(c.get_base()); if active(&sim, k) { None } else { Some((k, c.get_base().is_touching(), c.get_base().get_manifold().point_count)) } }).collect();
            let mut rechecked = BTreeSet::new();
            for c in sim.contacts() { let c = c.borrow(); let k = contact_key(c.get_base()); if active(&sim, k) { rechecked.insert(k); } }
            sim.step_dt(0.0);
            sim.take_events();
            for c in sim.contacts() {
                let c = c.borrow();
                let base = c.get_base();
                let k = contact_key(base);
                if !rechecked.contains(&k) { continue; }
                let (fa, fb) = (base.get_fixture_a(), base.get_fixture_b());
                let sensor = fa.borrow().is_sensor() || fb.borrow().is_sensor();
                let (xa, xb) = (fa.borrow().get_body().borrow().get_transform(), fb.borrow().get_body().borrow().get_transform());
                let m = *base.get_manifold();
                judge_contact(ctx, &sim, "zero step", k, &m, base.is_touching(), sensor, xa, xb);
            }
            for (k, t, n) in asleep {
                // pairs asleep before and still asleep keep what they had
                if sim.find_fixture(k.0).is_none() || sim.find_fixture(k.2).is_none() || active(&sim, k) { continue; }
                for c in sim.contacts() {
                    let c = c.borrow();
                    if contact_key(c.get_base()) == k {
                        ctx.hit("asleep");
                        ctx.check(c.get_base().is_touching() == t && c.get_base().get_manifold().point_count == n, || format!("sleeping pair {:?} changed its status", k));
                    }
                }
            }
            if ctx.failed() { return; }
        }
    }
    ctx.distinct(sim.state_hash());
}
/// two bodies of every shape pair placed at a random gap
fn c04_pair(ctx: &mut Ctx) {
    let mut sim = Sim::new(b2v(0.0, 0.0));
    let ks = [Kind::Circle, Kind::Poly, Kind::Edge, Kind::OneSided, Kind::Chain, Kind::Loop];
    let (ka, kb) = (*ctx.rng.pick(&ks), *ctx.rng.pick(&[Kind::Circle, Kind::Poly]));
    let size = ctx.rng.log(0.2, 3.0);
    let (sa, sb) = (shape(&mut ctx.rng, ka, size), shape(&mut ctx.rng, kb, size));
    let sensor = ctx.rng.chance(0.3);
    let fx = Fx { sensor, ..Default::default() };
    let order = ctx.rng.chance(0.5);
    let (a, b) = (sim.body(DYNAMIC, b2v(0.0, 0.0), 0.0), sim.body(DYNAMIC, b2v(0.0, 0.0), 0.0));
    if order { sim.fixture(a, &sa, ka, &fx); sim.fixture(b, &sb, kb, &Fx::default()); } else { sim.fixture(b, &sb, kb, &fx); sim.fixture(a, &sa, ka, &Fx::default()); }
    let n = children(&*sa.borrow()).len();
    let pick = ctx.rng.below(n);
    let xa = children(&*sa.borrow())[pick].clone();
    let xb = children(&*sb.borrow())[0].clone();
    for _ in 0..8 {
        let ta = ctx.rng.xf(3.0);
        let gap = match ctx.rng.below(4) { 0 => ctx.rng.f(0.0, 0.05), 1 => -ctx.rng.f(0.0, 0.05), 2 => -ctx.rng.f(0.0, 0.5) * size, _ => ctx.rng.f(0.0, 1.0) } as f64;
        let tb = crate::p_manifold::place_gap(&mut ctx.rng, &xa, ta, &xb, gap);
        sim.b(a).borrow_mut().set_transform(ta.p, ta.q.get_angle());
        sim.b(b).borrow_mut().set_transform(tb.p, tb.q.get_angle());
        sim.b(a).borrow_mut().set_awake(true);
        sim.step_dt(0.0);
        sim.take_events();
        ctx.hit(&format!("{:?}-{:?}", ka, kb));
        let mut seen = BTreeSet::new();
        for c in sim.contacts() {
            let c = c.borrow();
            let base = c.get_base();
            let k = contact_key(base);
            seen.insert(norm_key(k));
            let (fa, fb) = (base.get_fixture_a(), base.get_fixture_b());
            let (pa, pb) = (fa.borrow().get_body().borrow().get_transform(), fb.borrow().get_body().borrow().get_transform());
            let m = *base.get_manifold();
            judge_contact(ctx, &sim, &format!("{:?}-{:?}", ka, kb), k, &m, base.is_touching(), sensor, pa, pb);
            // the world manifold the contact itself reports
            if base.is_touching() && !sensor {
                let mut w = B2worldManifold::default();
                base.get_world_manifold(&mut w);
                let (ca, cb) = (child_cx(&sim, k.0, k.1, pa), child_cx(&sim, k.2, k.3, pb));
                let os = one_sided_of(&sim, k);
                judge(ctx, "reported world manifold", &ca, &cb, &m, &w, os);
                ctx.hit("world_manifold");
            }
        }
        // a pair that overlaps has a contact at all
        let (pa, pb) = (sim.b(a).borrow().get_transform(), sim.b(b).borrow().get_transform());
        let (fa, fb) = (sim.bodies[a].f[0].id, sim.bodies[b].f[0].id);
        for i in 0..n {
            let (ca, cb) = (child_cx(&sim, fa, i as i32, pa), child_cx(&sim, fb, 0, pb));
            if separation(&ca, &cb) < -1e-3 { ctx.check(seen.contains(&norm_key((fa, i as i32, fb, 0))), || format!("no contact for overlapping children {} of {:?} and {:?}", i, ka, kb)); }
        }
        if ctx.failed() { return; }
    }
    ctx.distinct(hash_f(&[sim.b(b).borrow().get_position().x]));
}

// ------------------------------------------------------------------------------------------------ C05

#[derive(Default)]
struct Proto {
    open: BTreeSet<Key>,
    /// what each contact looked like when last examined
    last: BTreeMap<Key, Vec<(B2vec2, u32)>>,
}
fn marks(m: &B2manifold) -> Vec<(B2vec2, u32)> {
    (0..m.point_count as usize).map(|i| { let c = m.points[i].id.cf; (m.points[i].local_point, (c.index_a as u32) << 24 | (c.index_b as u32) << 16 | (c.type_a as u32) << 8 | c.type_b as u32) }).collect()
}
impl Proto {
    fn feed(&mut self, ctx: &mut Ctx, ev: &[Ev], what: &str, toi: bool, disabled: &BTreeSet<usize>, solved: bool) {
        let mut pre: BTreeMap<Key, usize> = BTreeMap::new();
        let mut post: BTreeMap<Key, usize> = BTreeMap::new();
        let mut off: BTreeSet<Key> = BTreeSet::new();
        // examined, left enabled and not yet reported as solved
        let mut owed: BTreeSet<Key> = BTreeSet::new();
        let mut npre = 0usize;
        for e in ev {
            match e {
                Ev::Begin(k, t) => {
                    ctx.hit("begin");
                    let k = norm_key(*k);
                    ctx.check(self.open.insert(k), || format!("{}: begin for {:?} which had begun", what, k));
                    ctx.check(*t, || format!("{}: begin for {:?} which is not touching", what, k));
                    self.last.insert(k, vec![]);
                }
                Ev::End(k, _) => {
                    ctx.hit("end");
                    let k = norm_key(*k);
                    ctx.check(self.open.remove(&k), || format!("{}: end for {:?} which had not begun", what, k));
                    owed.remove(&k);
                }
                Ev::Pre(k, i) => {
                    ctx.hit("pre");
                    let k = norm_key(*k);
                    ctx.check(self.open.contains(&k) && i.touching, || format!("{}: pre-solve for {:?} which is not touching", what, k));
                    ctx.check(!i.sensor, || format!("{}: pre-solve for a sensor", what));
                    ctx.check(i.enabled, || format!("{}: contact {:?} is still disabled when examined again", what, k));
                    ctx.check(i.manifold.point_count > 0, || format!("{}: pre-solve without points", what));
                    if let Some(l) = self.last.get(&k) {
                        let old = marks(&i.old);
                        ctx.check(old == *l, || format!("{}: pre-solve for {:?} is given {:?} as the old manifold, at the last examination it was {:?}", what, k, old, l));
                        if !l.is_empty() { ctx.hit("old_manifold"); }
                    }
                    self.last.insert(k, marks(&i.manifold));
                    let c = pre.entry(k).or_insert(0);
                    *c += 1;
                    if !toi { ctx.check(*c == 1, || format!("{}: {} pre-solves for {:?} in one step", what, c, k)); ctx.check(!post.contains_key(&k), || format!("{}: pre-solve after post-solve for {:?}", what, k)); }
                    if disabled.contains(&npre) { off.insert(k); owed.remove(&k); } else { off.remove(&k); owed.insert(k); }
                    npre += 1;
                }
                Ev::Post(k, i) => {
                    ctx.hit("post");
                    let k = norm_key(*k);
                    owed.remove(&k);
                    ctx.check(self.open.contains(&k) && i.touching, || format!("{}: post-solve for {:?} which is not touching", what, k));
                    ctx.check(i.enabled, || format!("{}: post-solve for {:?} which is disabled", what, k));
                    ctx.check(!i.sensor, || format!("{}: post-solve for a sensor", what));
                    ctx.check(i.count <= i.points && i.count >= 1, || format!("{}: post-solve for {:?} with {} impulses for {} points", what, k, i.count, i.points));
                    ctx.check(!off.contains(&k), || format!("{}: post-solve for {:?} though it was disabled", what, k));
                    ctx.check(i.normal.iter().all(|x| *x >= 0.0), || format!("{}: negative normal impulse {:?}", what, i.normal));
                    let c = post.entry(k).or_insert(0);
                    *c += 1;
                    if !toi { ctx.check(*c == 1, || format!("{}: {} post-solves for {:?} in one step", what, c, k)); }
                }
            }
        }
        if solved { ctx.hit("step_settled"); ctx.check(owed.is_empty(), || format!("{}: contacts {:?} were examined and left enabled, but never reported as solved", what, owed)); }
        if !off.is_empty() { ctx.hit("disabled_contacts"); }
    }
    fn balance(&self, ctx: &mut Ctx, sim: &Sim, what: &str) {
        let mut t = BTreeSet::new();
        for c in sim.contacts() { let c = c.borrow(); if c.get_base().is_touching() { t.insert(norm_key(contact_key(c.get_base()))); } }
        ctx.check(t == self.open, || format!("{}: touching {:?}, begun and not ended {:?}", what, t.difference(&self.open).collect::<Vec<_>>(), self.open.difference(&t).collect::<Vec<_>>()));
    }
}
fn c05_case(ctx: &mut Ctx) {
    let mut o = SceneOpts::default();
    o.bodies = ctx.rng.int(3, 10) as usize;
    o.joints = ctx.rng.int(0, 3) as usize;
    o.spread = ctx.rng.f(0.8, 3.0);
    o.sub_stepping = ctx.rng.chance(0.5);
    let mut sim = rand_scene(&mut ctx.rng, &o);
    let disabling = ctx.rng.chance(0.4);
    let toi = ctx.rng.chance(0.4);
    if !toi { sim.w.borrow_mut().set_continuous_physics(false); }
    let which: Rc<RefCell<(usize, BTreeSet<usize>)>> = Rc::new(RefCell::new((0, BTreeSet::new())));
    if disabling {
        let w2 = which.clone();
        let mut r = Rng::new(ctx.rng.u64());
        sim.ev.borrow_mut().pre_hook = Some(Box::new(move |c, _| {
            let mut g = w2.borrow_mut();
            let n = g.0;
            if r.chance(0.4) { g.1.insert(n); c.set_enabled(false); }
            g.0 += 1;
        }));
    }
    let mut p = Proto::default();
    for _ in 0..60 {
        { let mut g = which.borrow_mut(); g.0 = 0; g.1.clear(); }
        let op = rand_op(&mut sim, &mut ctx.rng, &o);
        if sim.wild() { ctx.hit("skipped: joints diverged"); return; }
        if op == "world flag" && !toi { sim.w.borrow_mut().set_continuous_physics(false); }
        ctx.log(|| op.to_string());
        let ev = sim.take_events();
        let dis = which.borrow().1.clone();
        // as a sensor it has no manifold
        if op.contains("sensor") || op.contains("fixture") { p.last.clear(); }
        let stepped = op.contains("step");
        p.feed(ctx, &ev, op, toi, &dis, stepped && op != "zero step" && !o.sub_stepping);
        if !stepped { ctx.check(!ev.iter().any(|e| matches!(e, Ev::Begin(..) | Ev::Pre(..) | Ev::Post(..))), || format!("{} caused begin, pre-solve or post-solve", op)); }
        if ev.iter().any(|e| matches!(e, Ev::End(..))) && !stepped { ctx.hit("end_by_destruction"); }
        p.balance(ctx, &sim, op);
        if ctx.failed() { return; }
    }
    // tearing everything down ends what is open
    while !sim.bodies.is_empty() {
        let i = ctx.rng.below(sim.bodies.len());
        sim.destroy_body(i);
        let ev = sim.take_events();
        p.feed(ctx, &ev, "destroy body", toi, &BTreeSet::new(), false);
        p.balance(ctx, &sim, "destroy body");
        if ctx.failed() { return; }
    }
    ctx.check(p.open.is_empty(), || format!("contacts never ended: {:?}", p.open));
    ctx.distinct(sim.state_hash() ^ ctx.idx);
}
/// a contact disabled in every pre-solve lets the body through as if nothing were there
fn c05_ghost(ctx: &mut Ctx) {
    let g = b2v(0.0, -10.0);
    let (mut s1, mut s2) = (Sim::new(g), Sim::new(g));
    let cont = ctx.rng.chance(0.5);
    let r = ctx.rng.f(0.2, 0.6);
    let h = ctx.rng.f(1.0, 3.0);
    let v0 = b2v(ctx.rng.f(-2.0, 2.0), ctx.rng.f(-5.0, 0.0));
    let w0 = ctx.rng.f(-4.0, 4.0);
    let poly = ctx.rng.chance(0.5);
    let sh = ctx.rng.clone();
    for s in [&mut s1, &mut s2].iter_mut() {
        s.w.borrow_mut().set_continuous_physics(cont);
        let b = s.body(DYNAMIC, b2v(0.0, h), 0.3);
        let mut rr = sh.clone();
        let shp = shape(&mut rr, if poly { Kind::Poly } else { Kind::Circle }, r);
        s.fixture(b, &shp, if poly { Kind::Poly } else { Kind::Circle }, &Fx::mat(1.0, 0.5, 0.3));
        s.b(b).borrow_mut().set_linear_velocity(v0);
        s.b(b).borrow_mut().set_angular_velocity(w0);
    }
    s1.ground(0.0, 50.0, &Fx::default());
    s1.ev.borrow_mut().pre_hook = Some(Box::new(|c, _| c.set_enabled(false)));
    let until = ctx.rng.int(40, 70);
    for i in 0..until {
        s1.step();
        s2.step();
        let (a, b) = (s1.b(0), s2.b(0));
        let (a, b) = (a.borrow(), b.borrow());
        let e = (d(a.get_position()) - d(b.get_position())).len() + (d(a.get_linear_velocity()) - d(b.get_linear_velocity())).len() + (a.get_angular_velocity() - b.get_angular_velocity()).abs() as f64;
        // with continuous physics a disabled contact may still cut the step, which costs rounding only
        ctx.check(e < 2e-3, || format!("step {}: body with disabled contact deviates by {} (position {:?} and {:?})", i, e, a.get_position(), b.get_position()));
        if ctx.failed() { return; }
    }
    let n = s1.ev.borrow().log.iter().filter(|e| matches!(e, Ev::Pre(..))).count();
    ctx.add("ghost_pre", n as u64);
    // enabled again: the body is pushed out or stopped
    ctx.distinct(hash_f(&[r, h, w0]));
}

// ------------------------------------------------------------------------------------------------ C06

struct Rule(Rc<RefCell<BTreeSet<(u32, u32)>>>);
impl B2contactFilter<UD> for Rule {
    fn should_collide(&self, a: FixturePtr<UD>, b: FixturePtr<UD>) -> bool {
        let (x, y) = (fix_id(&a), fix_id(&b));
        !self.0.borrow().contains(&(x.min(y), x.max(y)))
    }
}
fn any_filter(rng: &mut Rng) -> B2filter {
    let mut f = B2filter::default();
    f.category_bits = match rng.below(4) { 0 => 1 << rng.below(16), 1 => 0, 2 => rng.u32() as u16 & rng.u32() as u16, _ => 1 };
    f.mask_bits = match rng.below(5) { 0 => 0xffff, 1 => 0, 2 => !(1 << rng.below(16)), 3 => rng.u32() as u16, _ => 1 << rng.below(16) };
    f.group_index = *rng.pick(&[0i16, 0, 0, 1, -1, 2, -2, 32767, -32768]);
    f
}
fn c06_case(ctx: &mut Ctx) {
    // a cluster of overlapping bodies held in place; solid contacts would push them, so sensors or fixed by no solving
    let mut sim = Sim::new(b2v(0.0, 0.0));
    let n = ctx.rng.int(3, 7) as usize;
    for _ in 0..n {
        let t = *ctx.rng.pick(&[DYNAMIC, DYNAMIC, STATIC, KINEMATIC]);
        let p = ctx.rng.vec(0.3);
        let b = sim.body(t, p, 0.0);
        for _ in 0..ctx.rng.int(1, 2) {
            let f = any_filter(&mut ctx.rng);
            let fx = Fx { sensor: ctx.rng.chance(0.7), filter: f, ..Default::default() };
            let (s, k): (ShapeDefPtr, Kind) = if ctx.rng.chance(0.5) { (rc(circle(b2v(0.0, 0.0), 0.8)), Kind::Circle) } else { (rc(bx(0.8, 0.7)), Kind::Poly) };
            sim.fixture(b, &s, k, &fx);
        }
    }
    let custom = ctx.rng.chance(0.3);
    let banned = Rc::new(RefCell::new(BTreeSet::new()));
    if custom { sim.w.borrow_mut().set_contact_filter(Rc::new(RefCell::new(Rule(banned.clone())))); }
    let mut open: BTreeSet<Key> = BTreeSet::new();
    for round in 0..14 {
        // all bodies overlap all others at all times
        for i in 0..sim.bodies.len() {
            let x = ctx.rng.vec(0.3);
            if ctx.rng.chance(0.3) || sim.b(i).borrow().get_position().length() > 0.3 { sim.b(i).borrow_mut().set_transform(x, 0.0); }
            if sim.b(i).borrow().get_type() != STATIC { sim.b(i).borrow_mut().set_linear_velocity(b2v(0.0, 0.0)); sim.b(i).borrow_mut().set_angular_velocity(0.0); }
        }
        let i = ctx.rng.below(sim.bodies.len());
        let j = ctx.rng.below(sim.bodies[i].f.len());
        let fp = sim.bodies[i].f[j].p.clone();
        match ctx.rng.below(6) {
            0 | 1 => { let f = any_filter(&mut ctx.rng); fp.borrow_mut().set_filter_data(f); ctx.hit("set_filter"); let g = fp.borrow().get_filter_data(); ctx.check(g.category_bits == f.category_bits && g.mask_bits == f.mask_bits && g.group_index == f.group_index, || "filter read back differs".into()); }
            2 if custom => {
                let k = ctx.rng.below(sim.bodies.len());
                let (x, y) = (sim.bodies[i].f[j].id, sim.bodies[k].f[0].id);
                let p = (x.min(y), x.max(y));
                if !banned.borrow_mut().remove(&p) { banned.borrow_mut().insert(p); }
                // the rule is asked again for what is re-filtered
                fp.borrow_mut().refilter();
                ctx.hit("custom_change");
            }
            3 if sim.joints.len() < 3 => {
                let k = ctx.rng.below(sim.bodies.len());
                if k != i {
                    let mut def = B2revoluteJointDef::default();
                    let collide = ctx.rng.chance(0.3);
                    def.base = sim.jbase(B2jointType::ERevoluteJoint, i, k, collide);
                    def.initialize(sim.b(i), sim.b(k), b2v(0.0, 0.0));
                    sim.joint(B2JointDefEnum::RevoluteJoint(def), JK::Revolute, i, k, collide);
                    ctx.hit(if collide { "joint_collide" } else { "joint_no_collide" });
                }
            }
            4 if !sim.joints.is_empty() => {
                let k = ctx.rng.below(sim.joints.len());
                let (a, b) = (sim.joints[k].a, sim.joints[k].b);
                sim.destroy_joint(k);
                ctx.hit("joint_removed");
                // the pair is found again when one of them is re-filtered
                for id in &[a, b] { let x = sim.index_of(*id).unwrap(); for f in sim.bodies[x].f.iter() { f.p.borrow_mut().refilter(); } }
            }
            _ => {}
        }
        let sleepy = ctx.rng.chance(0.2);
        if sleepy { for h in sim.bodies.iter() { h.p.borrow_mut().set_awake(false); } ctx.hit("asleep"); }
        sim.step_dt(1e-4);
        let ev = sim.take_events();
        for e in ev.iter() {
            match e { Ev::Begin(k, _) => { open.insert(norm_key(*k)); } Ev::End(k, _) => { open.remove(&norm_key(*k)); } _ => {} }
        }
        let ch = child_list(&sim);
        let mut have = BTreeSet::new();
        for c in sim.contacts() { let c = c.borrow(); have.insert(norm_key(contact_key(c.get_base()))); }
        for x in 0..ch.len() {
            for y in x + 1..ch.len() {
                if ch[x].b == ch[y].b { continue; }
                let (p, q) = (ch[x].fid, ch[y].fid);
                let rule = if custom { !banned.borrow().contains(&(p.min(q), p.max(q))) } else { filter_rule(&ch[x].filter, &ch[y].filter) };
                let may = rule && bodies_may(&sim, ch[x].b, ch[y].b);
                let (l, h) = (&ch[x], &ch[y]);
                if l.lo.x > h.hi.x || h.lo.x > l.hi.x || l.lo.y > h.hi.y || h.lo.y > l.hi.y { ctx.hit("skipped: pushed apart"); continue; }
                let k = norm_key((p, 0, q, 0));
                ctx.hit(if may { "allowed" } else { "forbidden" });
                ctx.check(have.contains(&k) == may, || format!("round {}: contact {:?} present: {}, rule says {} (filters {:?} {:?}, custom {})", round, k, have.contains(&k), may, fl(&ch[x].filter), fl(&ch[y].filter), custom));
                if !may { ctx.check(!open.contains(&k), || format!("round {}: forbidden pair {:?} still touching", round, k)); }
            }
        }
        if ctx.failed() { return; }
    }
    ctx.distinct(sim.state_hash() ^ ctx.idx);
}
/// fixtures with many children are re-filtered as a whole
fn c06_chains(ctx: &mut Ctx) {
    let mut sim = Sim::new(b2v(0.0, 0.0));
    sim.w.borrow_mut().set_allow_sleeping(ctx.rng.chance(0.5));
    let n = ctx.rng.int(2, 9) as usize;
    let f0 = any_filter(&mut ctx.rng);
    let g = sim.body(*ctx.rng.pick(&[STATIC, KINEMATIC]), b2v(0.0, 0.0), 0.0);
    let mut c = box2d_rs::shapes::b2_chain_shape::B2chainShape::default();
    // gaps are made by standing the balls at the middles of long segments
    let pts: Vec<B2vec2> = (0..=n).map(|i| b2v(4.0 * i as f32, 0.0)).collect();
    c.create_chain(&pts, b2v(-4.0, 0.0), b2v(4.0 * n as f32 + 4.0, 0.0));
    sim.fixture(g, &rc(c), Kind::Chain, &Fx { filter: f0, sensor: ctx.rng.chance(0.5), ..Default::default() });
    let mut at = vec![];
    for i in 0..n {
        if !ctx.rng.chance(0.7) { continue; }
        let b = sim.body(DYNAMIC, b2v(4.0 * i as f32 + 2.0, 0.0), 0.0);
        let f = any_filter(&mut ctx.rng);
        sim.fixture(b, &rc(circle(b2v(0.0, 0.0), 0.3)), Kind::Circle, &Fx { filter: f, sensor: true, ..Default::default() });
        at.push((b, i));
    }
    let fp = sim.bodies[g].f[0].p.clone();
    let mut open: BTreeSet<Key> = BTreeSet::new();
    for round in 0..8 {
        if ctx.rng.chance(0.6) { let f = any_filter(&mut ctx.rng); fp.borrow_mut().set_filter_data(f); ctx.hit("chain_filter"); }
        else if let Some((b, _)) = at.get(ctx.rng.below(at.len().max(1))) { let f = any_filter(&mut ctx.rng); sim.bodies[*b].f[0].p.borrow_mut().set_filter_data(f); }
        sim.step_dt(1e-3);
        for e in sim.take_events().iter() { match e { Ev::Begin(k, _) => { open.insert(norm_key(*k)); } Ev::End(k, _) => { open.remove(&norm_key(*k)); } _ => {} } }
        let have: BTreeSet<Key> = sim.contacts().iter().map(|c| norm_key(contact_key(c.borrow().get_base()))).collect();
        for (b, i) in at.iter() {
            let q = &sim.bodies[*b].f[0];
            let may = filter_rule(&fp.borrow().get_filter_data(), &q.p.borrow().get_filter_data());
            let k = norm_key((sim.bodies[g].f[0].id, *i as i32, q.id, 0));
            ctx.evals += 1;
            ctx.check(have.contains(&k) == may, || format!("round {}: contact with child {} of {} present: {}, rule says {}", round, i, n, have.contains(&k), may));
            if !may { ctx.check(!open.contains(&k), || format!("round {}: forbidden pair with child {} still touching", round, i)); }
            ctx.hit(if may { "child_allowed" } else { "child_forbidden" });
        }
        if ctx.failed() { return; }
    }
    ctx.distinct(hash_words(&[ctx.idx, n as u64, open.len() as u64]));
}
/// a user's rule is asked when a pair is found or re-filtered, not at other times
fn c06_anew(ctx: &mut Ctx) {
    let mut sim = Sim::new(b2v(0.0, 0.0));
    let banned = Rc::new(RefCell::new(BTreeSet::new()));
    sim.w.borrow_mut().set_contact_filter(Rc::new(RefCell::new(Rule(banned.clone()))));
    let t = *ctx.rng.pick(&[STATIC, KINEMATIC, DYNAMIC]);
    let mk = |sim: &mut Sim, t, p| { let b = sim.body(t, p, 0.0); sim.fixture(b, &rc(circle(b2v(0.0, 0.0), 0.8)), Kind::Circle, &Fx { sensor: true, ..Default::default() }); b };
    let a = mk(&mut sim, DYNAMIC, ctx.rng.vec(0.3));
    let b = mk(&mut sim, t, ctx.rng.vec(0.3));
    let (x, y) = (sim.bodies[a].f[0].id, sim.bodies[b].f[0].id);
    let p = (x.min(y), x.max(y));
    let mut present = false;
    let mut fresh = true;
    for round in 0..12 {
        let ban = ctx.rng.chance(0.5);
        if ban { banned.borrow_mut().insert(p); } else { banned.borrow_mut().remove(&p); }
        let ask = ctx.rng.chance(0.5);
        if ask { sim.bodies[if ctx.rng.chance(0.5) { a } else { b }].f[0].p.borrow_mut().refilter(); ctx.hit("asked"); }
        if ask || fresh { present = !ban; }
        fresh = false;
        sim.b(a).borrow_mut().set_awake(true);
        sim.step_dt(*ctx.rng.pick(&[1.0f32 / 60.0, 1.0 / 30.0, 1e-4]));
        ctx.evals += 1;
        let have = sim.contacts().len();
        ctx.check(have == present as usize, || format!("round {}: {} contacts of a pair that was {} when last re-filtered (now {}, re-filtered now: {})", round, have, if present { "allowed" } else { "banned" }, if ban { "banned" } else { "allowed" }, ask));
        if !ask && present == ban { ctx.hit("kept"); }
        if ctx.failed() { return; }
    }
    ctx.distinct(hash_words(&[ctx.idx]));
}
fn fl(f: &B2filter) -> (u16, u16, i16) { (f.category_bits, f.mask_bits, f.group_index) }

// ------------------------------------------------------------------------------------------------ C07

fn c07_case(ctx: &mut Ctx) {
    // bodies in separate lanes, so that nothing but sensors can make a difference
    let seed = ctx.rng.u64();
    let cont = ctx.rng.chance(0.7);
    let build = |sensors: bool| -> (Sim, usize) {
        let mut r = Rng::new(seed);
        let mut sim = Sim::new(b2v(0.0, -10.0));
        sim.w.borrow_mut().set_continuous_physics(cont);
        let g = sim.body(STATIC, b2v(0.0, -1.0), 0.0);
        sim.fixture(g, &rc(bx(100.0, 1.0)), Kind::Poly, &Fx::mat(0.0, 0.6, 0.0));
        let lanes = r.int(1, 4) as usize;
        for l in 0..lanes {
            let mut def = Sim::def(DYNAMIC, b2v(l as f32 * 10.0, r.f(0.6, 6.0)), r.angle());
            def.linear_velocity = b2v(r.f(-0.5, 0.5), if r.chance(0.4) { -r.f(20.0, 100.0) } else { r.f(-3.0, 3.0) });
            def.angular_velocity = r.f(-3.0, 3.0);
            def.bullet = r.chance(0.4);
            let b = sim.add(def);
            if r.chance(0.5) { sim.fixture(b, &rc(circle(b2v(0.0, 0.0), 0.4)), Kind::Circle, &Fx::mat(1.0, 0.4, 0.2)); } else { sim.fixture(b, &rc(bx(0.4, 0.3)), Kind::Poly, &Fx::mat(1.0, 0.4, 0.0)); }
            // sensors: zones in the lane, on moving bodies, on the body itself
            let zones = r.int(0, 3);
            for _ in 0..zones {
                let (s, k) = rand_shape(&mut r, false);
                let p = b2v(l as f32 * 10.0 + r.f(-1.0, 1.0), r.f(0.0, 4.0));
                let a = r.angle();
                let kin = r.chance(0.4);
                let v = r.vec(3.0);
                if sensors {
                    let z = sim.body(if kin { KINEMATIC } else { STATIC }, p, a);
                    sim.fixture(z, &s, k, &Fx { sensor: true, friction: 1.0, restitution: 1.0, ..Default::default() });
                    if kin { sim.b(z).borrow_mut().set_linear_velocity(v); }
                }
            }
            if r.chance(0.5) {
                let (s, k) = rand_shape(&mut r, true);
                if sensors { sim.fixture(b, &s, k, &Fx { sensor: true, density: 0.0, ..Default::default() }); }
            }
        }
        (sim, lanes)
    };
    let (mut s1, lanes) = build(true);
    let (mut s2, _) = build(false);
    let dyn_of = |s: &Sim| -> Vec<usize> { (0..s.bodies.len()).filter(|i| s.b(*i).borrow().get_type() == DYNAMIC).collect() };
    let (d1, d2) = (dyn_of(&s1), dyn_of(&s2));
    let mut open: BTreeSet<Key> = BTreeSet::new();
    for step in 0..70 {
        // transforms the coming examination will see
        s1.step();
        s2.step();
        let ev = s1.take_events();
        for e in ev.iter() {
            match e {
                Ev::Begin(k, _) => { ctx.hit("begin"); open.insert(norm_key(*k)); }
                Ev::End(k, _) => { ctx.hit("end"); open.remove(&norm_key(*k)); }
                Ev::Pre(k, i) => { ctx.check(!i.sensor, || format!("pre-solve for a sensor {:?}", k)); }
                Ev::Post(k, i) => { ctx.check(!i.sensor, || format!("post-solve for a sensor {:?}", k)); }
            }
        }
        // bodies that left their lane could meet, and the order of their contacts may depend on anything
        let px: Vec<B2vec2> = d1.iter().map(|i| s1.b(*i).borrow().get_position()).collect();
        if (0..lanes).any(|i| (0..i).any(|j| (px[i] - px[j]).length() < 3.0)) { ctx.hit("skipped: lanes met"); break; }
        for l in 0..lanes {
            let (a, b) = (s1.b(d1[l]), s2.b(d2[l]));
            let (a, b) = (a.borrow(), b.borrow());
            let e = (d(a.get_position()) - d(b.get_position())).len() + (a.get_angle() - b.get_angle()).abs() as f64 + 0.1 * (d(a.get_linear_velocity()) - d(b.get_linear_velocity())).len();
            if ctx.verbose { println!("{} {} {:?}", step, e, a.get_linear_velocity()); }
            ctx.max("difference", e);
            ctx.check(e < 1e-3, || format!("step {}: body moves differently with sensors around, by {}: {:?} and {:?}", step, e, a.get_position(), b.get_position()));
            // a sleeping body would not be examined: both twins agree on that too, except at the moment itself
        }
        if ctx.failed() { return; }
        if step % 5 == 0 {
            s1.step_dt(0.0);
            s2.step_dt(0.0);
            for e in s1.take_events() { match e { Ev::Begin(k, _) => { open.insert(norm_key(k)); } Ev::End(k, _) => { open.remove(&norm_key(k)); } _ => {} } }
            let ch = child_list(&s1);
            for x in 0..ch.len() {
                for y in x + 1..ch.len() {
                    if ch[x].b == ch[y].b || (ch[x].line && ch[y].line) || !bodies_may(&s1, ch[x].b, ch[y].b) { continue; }
                    let (f, g) = (s1.find_fixture(ch[x].fid).unwrap(), s1.find_fixture(ch[y].fid).unwrap());
                    if !(s1.bodies[f.0].f[f.1].p.borrow().is_sensor() || s1.bodies[g.0].f[g.1].p.borrow().is_sensor()) { continue; }
                    let k = (ch[x].fid, ch[x].child, ch[y].fid, ch[y].child);
                    if !active(&s1, k) { continue; }
                    let s = separation(&ch[x].cx, &ch[y].cx);
                    let t = open.contains(&norm_key(k));
                    let tol = 1e-4 * ch[x].cx.max_abs().max(ch[y].cx.max_abs()).max(1.0);
                    if s < -tol { ctx.hit("sensor_in"); ctx.check(t, || format!("sensor pair {:?} overlaps by {} without a begin", k, -s)); }
                    if s > tol { ctx.hit("sensor_out"); ctx.check(!t, || format!("sensor pair {:?} is {} apart without an end", k, s)); }
                }
            }
        }
        if ctx.failed() { return; }
    }
    ctx.distinct(s1.state_hash());
}
fn c07_toggle(ctx: &mut Ctx) {
    let mut sim = Sim::new(b2v(0.0, -10.0));
    let g = sim.ground(0.0, 20.0, &Fx::default());
    let bx_ = ctx.rng.chance(0.5);
    let b = if bx_ { sim.box_body(DYNAMIC, b2v(0.0, 0.5), 0.0, 0.5, 0.5, &Fx::default()) } else { sim.ball(DYNAMIC, b2v(0.0, 0.5), 0.5, &Fx::default()) };
    let settle = ctx.rng.int(5, 80);
    for _ in 0..settle { sim.step(); }
    sim.take_events();
    let ground = ctx.rng.chance(0.5);
    let f = if ground { sim.bodies[g].f[0].p.clone() } else { sim.bodies[b].f[0].p.clone() };
    f.borrow_mut().set_sensor(true);
    if ground { sim.b(b).borrow_mut().set_awake(true); }
    let y0 = sim.b(b).borrow().get_position().y;
    sim.b(b).borrow_mut().set_linear_velocity(b2v(0.0, 0.0));
    let n = ctx.rng.int(3, 20);
    let mut v = 0.0;
    let mut y = y0 as f64;
    for i in 0..n {
        sim.step();
        v -= 10.0 / 60.0;
        y += v / 60.0;
        let p = sim.b(b).borrow().get_position().y as f64;
        ctx.check((p - y).abs() < 1e-3, || format!("step {} after becoming a sensor: height {}, free fall gives {} (ground toggled: {}, {} steps before)", i, p, y, ground, settle));
        if ctx.failed() { return; }
    }
    let ev = sim.take_events();
    ctx.check(!ev.iter().any(|e| matches!(e, Ev::Pre(..) | Ev::Post(..))), || "pre- or post-solve after becoming a sensor".into());
    for c in sim.contacts() { let c = c.borrow(); ctx.check(c.get_base().get_manifold().point_count == 0, || "a sensor's contact has manifold points".into()); }
    ctx.hit("to_sensor");
    // back to solid: the overlap is pushed out
    f.borrow_mut().set_sensor(false);
    sim.b(b).borrow_mut().set_linear_velocity(b2v(0.0, 0.0));
    sim.b(b).borrow_mut().set_awake(true);
    sim.step();
    let ev = sim.take_events();
    let deep = 0.5 - sim.b(b).borrow().get_position().y;
    if deep > 0.02 && deep < 0.8 {
        ctx.hit("to_solid");
        ctx.check(ev.iter().any(|e| matches!(e, Ev::Pre(..))), || format!("no pre-solve after becoming solid at depth {}", deep));
        ctx.check(ev.iter().any(|e| matches!(e, Ev::Post(..))), || format!("no post-solve after becoming solid at depth {}", deep));
    }
    ctx.distinct(hash_f(&[settle as f32, n as f32, y as f32]));
}

// ------------------------------------------------------------------------------------------------ C10

fn c10_case(ctx: &mut Ctx) {
    let mut o = SceneOpts::default();
    o.bodies = ctx.rng.int(2, 12) as usize;
    o.joints = ctx.rng.int(0, 2) as usize;
    o.spread = ctx.rng.f(1.5, 6.0);
    let mut sim = rand_scene(&mut ctx.rng, &o);
    for _ in 0..25 {
        let op = if ctx.rng.chance(0.3) { let i = ctx.rng.below(sim.bodies.len()); let (x, a) = (ctx.rng.vec(o.spread * 3.0), ctx.rng.angle()); sim.b(i).borrow_mut().set_transform(x, a); "far teleport" } else { rand_op(&mut sim, &mut ctx.rng, &o) };
        if sim.wild() { ctx.hit("skipped: joints diverged"); return; }
        sim.take_events();
        let ch = child_list(&sim);
        let w = sim.w.borrow();
        // region query
        let c = ctx.rng.vec(o.spread * 1.5);
        let h = b2v(ctx.rng.log(0.01, 5.0), ctx.rng.log(0.01, 5.0));
        let q = B2AABB { lower_bound: c - h, upper_bound: c + h };
        let mut got: BTreeMap<u32, usize> = BTreeMap::new();
        w.query_aabb(|f| { *got.entry(fix_id(&f)).or_insert(0) += 1; true }, q);
        let mut most: BTreeMap<u32, usize> = BTreeMap::new();
        let mut least: BTreeMap<u32, usize> = BTreeMap::new();
        for c in ch.iter() {
            let inside = |m: f64| c.lo.x - m <= q.upper_bound.x as f64 && c.hi.x + m >= q.lower_bound.x as f64 && c.lo.y - m <= q.upper_bound.y as f64 && c.hi.y + m >= q.lower_bound.y as f64;
            if inside(-1e-4) { *least.entry(c.fid).or_insert(0) += 1; ctx.hit("in_region"); }
            if inside(sim.reach(c.b)) { *most.entry(c.fid).or_insert(0) += 1; }
        }
        for (f, n) in least.iter() { let g = got.get(f).copied().unwrap_or(0); ctx.check(g >= *n, || format!("after {}: query reported fixture {} {} times, {} of its children are in the region", op, f, g, n)); }
        for (f, g) in got.iter() { let m = most.get(f).copied().unwrap_or(0); if ctx.verbose && *g > m { let (x, _) = sim.find_fixture(*f).unwrap(); let b = sim.bodies[x].p.borrow(); println!("rigid {} jump {} type {:?} pos {:?} q {:?} w {} {:?}", sim.had_rigid, sim.bodies[x].jump, b.get_type(), b.get_position(), q, b.get_angular_velocity(), ch.iter().filter(|c| c.fid == *f).map(|c| (c.lo, c.hi)).collect::<Vec<_>>()); } ctx.check(*g <= m, || format!("after {}: query reported fixture {} {} times, it has {} children anywhere near the region", op, f, g, m)); }
        // stopping
        let total: usize = got.values().sum();
        if total > 0 {
            let stop = ctx.rng.below(total) + 1;
            let mut k = 0;
            w.query_aabb(|_| { k += 1; k < stop }, q);
            ctx.hit("query_stop");
            ctx.check(k == stop, || format!("after {}: query stopped after {} of {} reports, asked for {}", op, k, total, stop));
        }
        // rays
        for _ in 0..2 {
            let (p1, p2) = if ctx.rng.chance(0.5) && !ch.is_empty() {
                let t = ctx.rng.pick(&ch).cx.center();
                let u = ctx.rng.dir();
                let l = ctx.rng.f(0.5, 12.0);
                (b2(t) - l * u, b2(t) + ctx.rng.f(0.1, 6.0) * u)
            } else { (ctx.rng.vec(o.spread * 1.5), ctx.rng.vec(o.spread * 1.5)) };
            if (p1 - p2).length() < 0.05 { continue; }
            let mut want: Vec<(u32, f64, V)> = vec![];
            let mut unsure: BTreeSet<u32> = BTreeSet::new();
            for c in ch.iter() {
                let (i, j) = sim.find_fixture(c.fid).unwrap();
                let s = sim.bodies[i].f[j].p.borrow().get_shape();
                let x = Xf::of(sim.bodies[i].p.borrow().get_transform());
                match ref_ray(&*s, c.child as usize, &x, d(p1), d(p2), 1.0, 2e-4) {
                    Ray::Hit(f, n) => want.push((c.fid, f, n)),
                    Ray::Unsure => { unsure.insert(c.fid); }
                    Ray::Miss => {}
                }
            }
            want.retain(|x| !unsure.contains(&x.0));
            want.sort_by(|a, b| a.1.partial_cmp(&b.1).unwrap());
            let len = (d(p2) - d(p1)).len();
            let tol = 1e-3 / len.min(1.0);
            // everything
            let mut all: Vec<(u32, f32, B2vec2, B2vec2)> = vec![];
            w.ray_cast(|f, p, n, fr| { all.push((fix_id(&f), fr, p, n)); 1.0 }, p1, p2);
            ctx.hit("ray");
            let sure: Vec<_> = all.iter().filter(|x| !unsure.contains(&x.0)).collect();
            ctx.check(sure.len() == want.len(), || format!("after {}: ray {:?} {:?} reported {:?}, expected {:?}", op, p1, p2, sure, want));
            let mut left = want.clone();
            for g in sure.iter() {
                match left.iter().position(|x| x.0 == g.0 && (x.1 - g.1 as f64).abs() < tol && (x.2 - d(g.3)).len() < 0.02) {
                    Some(i) => { left.remove(i); }
                    None => ctx.fail(format!("after {}: ray {:?} {:?} reported {:?}, expected one of {:?}", op, p1, p2, g, want)),
                }
                let at = d(p1) + (d(p2) - d(p1)) * g.1 as f64;
                ctx.check((at - d(g.2)).len() < 1e-4 * (1.0 + len + d(p1).len()), || format!("hit point {:?} is not at fraction {}", g.2, g.1));
                ctx.hit("ray_hit");
            }
            if ctx.failed() { return; }
            if !unsure.is_empty() { ctx.hit("ray_unsure"); continue; }
            // closest
            let mut best: Option<(u32, f32)> = None;
            w.ray_cast(|f, _, _, fr| { best = Some((fix_id(&f), fr)); fr }, p1, p2);
            match (best, want.first()) {
                (None, None) => {}
                (Some(b), Some(e)) => { ctx.hit("ray_closest"); ctx.check((b.1 as f64 - e.1).abs() < tol, || format!("after {}: closest hit at {} expected {}", op, b.1, e.1)); }
                (b, e) => ctx.fail(format!("after {}: closest hit {:?} expected {:?}", op, b, e)),
            }
            // ignoring some fixtures
            if want.len() > 1 {
                let skip = want[0].0;
                let mut best: Option<f32> = None;
                let mut n_skip = 0;
                w.ray_cast(|f, _, _, fr| { if fix_id(&f) == skip { n_skip += 1; -1.0 } else { best = Some(fr); fr } }, p1, p2);
                let e = want.iter().find(|x| x.0 != skip).map(|x| x.1);
                let nw = want.iter().filter(|x| x.0 == skip).count();
                ctx.hit("ray_ignore");
                let tie = want.iter().any(|x| x.0 != skip && x.1 < want[0].1 + tol);
                ctx.check((n_skip >= 1 || tie) && n_skip <= nw, || format!("ignored fixture reported {} times, hit {} times", n_skip, nw));
                ctx.check(match (best, e) { (None, None) => true, (Some(b), Some(e)) => (b as f64 - e).abs() < tol, _ => false }, || format!("closest hit besides the ignored fixture {:?} expected {:?}", best, e));
                // stop at once
                let mut n = 0;
                w.ray_cast(|_, _, _, _| { n += 1; 0.0 }, p1, p2);
                ctx.hit("ray_stop");
                ctx.check(n == 1, || format!("cast went on after zero: {} reports", n));
                // clipping at a chosen fraction on the first report
                let cut = ctx.rng.f(0.1, 0.9) as f64;
                let mut first = true;
                let mut after = vec![];
                let mut f0 = 0.0f32;
                w.ray_cast(|_, _, _, fr| { if first { first = false; f0 = fr; cut.max(1e-3) as f32 } else { after.push(fr); 1.0 } }, p1, p2);
                ctx.hit("ray_cut");
                // a later return of one does not undo the cut: fractions are along the whole ray
                let limit = after.first().copied().unwrap_or(0.0) as f64;
                ctx.check(limit <= cut + tol, || format!("after clipping at {} a hit at {} was reported", cut, limit));
                let _ = f0;
            }
        }
        drop(w);
        if ctx.failed() { return; }
    }
    ctx.distinct(sim.state_hash() ^ ctx.idx);
}

pub fn props() -> Vec<Property> {
    vec![
        Property {
            id: "C01",
            rule: "a distinct final state hash",
            parts: vec![part("twins", 5000, 60000, c01_case)],
            required: vec![("another world in between", 300), ("another thread", 300), ("second run", 300), ("events", 50000)],
            assumptions: "Same build, same machine.",
        },
        Property {
            id: "C02",
            rule: "a distinct history (final state hash)",
            parts: vec![part("histories", 40000, 500000, c02_case)],
            required: vec![("create body", 1000), ("destroy body", 1000), ("create fixture", 1000), ("destroy fixture", 1000), ("create joint", 1000), ("destroy joint", 1000), ("set type", 1000), ("set enabled", 1000), ("step", 5000), ("with_contacts", 10000), ("with_joints", 10000)],
            assumptions: "Joints attached to gears are destroyed after the gears, as the library demands.",
        },
        Property {
            id: "C03",
            rule: "a distinct history (final state hash)",
            parts: vec![part("histories", 10000, 200000, c03_case), part("pair", 15000, 200000, c03_pair)],
            required: vec![("overlapping_pair", 50000), ("contact", 50000), ("examined", 5000), ("teleported_away", 5000), ("teleported_near", 5000)],
            assumptions: "Boxes overlapping by less than 1e-3 are not judged. After a joint that forbade collision is removed, a pair is found when its boxes change.",
        },
        Property {
            id: "C04",
            rule: "a distinct placement or final state",
            parts: vec![part("scenes", 15000, 300000, c04_case), part("pairs", 60000, 800000, c04_pair)],
            required: vec![("pre_solve", 10000), ("solid_overlap", 10000), ("solid_apart", 10000), ("sensor_apart", 2000), ("sensor_overlap", 2000), ("manifold", 10000), ("world_manifold", 3000), ("asleep", 500), ("Circle-Circle", 100), ("Poly-Poly", 100), ("Edge-Poly", 100), ("OneSided-Circle", 100), ("Chain-Poly", 100), ("Loop-Circle", 100)],
            assumptions: "Touching is not judged inside the polygon skin near corners, nor for one-sided edges closer than the contact range (see C19).",
        },
        Property {
            id: "C05",
            rule: "a distinct history",
            parts: vec![part("histories", 30000, 500000, c05_case), part("ghost", 10000, 100000, c05_ghost)],
            required: vec![("begin", 20000), ("end", 20000), ("pre", 50000), ("post", 20000), ("disabled_contacts", 2000), ("end_by_destruction", 3000), ("ghost_pre", 2000), ("old_manifold", 10000)],
            assumptions: "With continuous physics on, a contact may be examined more than once in a step.",
        },
        Property {
            id: "C06",
            rule: "a distinct final state",
            parts: vec![part("clusters", 60000, 1000000, c06_case), part("chains", 10000, 150000, c06_chains), part("anew", 10000, 150000, c06_anew)],
            required: vec![("allowed", 50000), ("forbidden", 50000), ("set_filter", 5000), ("custom_change", 1000), ("joint_collide", 300), ("joint_no_collide", 1000), ("joint_removed", 500), ("asleep", 3000), ("child_allowed", 3000), ("child_forbidden", 3000), ("asked", 3000), ("kept", 3000)],
            assumptions: "After a joint is removed or a custom rule changed, the pair is re-filtered explicitly.",
        },
        Property {
            id: "C07",
            rule: "a distinct final state",
            parts: vec![part("lanes", 15000, 200000, c07_case), part("toggle", 15000, 200000, c07_toggle)],
            required: vec![("begin", 5000), ("end", 2000), ("sensor_in", 3000), ("sensor_out", 10000), ("to_sensor", 1000), ("to_solid", 500)],
            assumptions: "Sensor fixtures carry no mass here, so that the twin without them has the same bodies.",
        },
        Property {
            id: "C10",
            rule: "a distinct history",
            parts: vec![part("histories", 40000, 600000, c10_case)],
            required: vec![("in_region", 20000), ("query_stop", 5000), ("ray", 20000), ("ray_hit", 20000), ("ray_closest", 10000), ("ray_ignore", 3000), ("ray_stop", 3000), ("ray_cut", 3000)],
            assumptions: "Grazing rays are skipped; a region query may also report fixtures whose stored box reaches into the region.",
        },
    ]
}
