//! C36 disabled bodies, C37 freeing, C38 announcements of destruction, C39 saving and loading
use crate::core::*;
use crate::dump::*;
use crate::gen::*;
use crate::geo::*;
use crate::sim::*;
use box2d_rs::serialize::serialize_b2_world::B2worldDeserializeResult;
use std::cell::{Cell, RefCell};
use std::collections::{BTreeMap, HashMap, HashSet};
use std::rc::{Rc, Weak};

// ------------------------------------------------------------------------------------------------ C36

fn bits(b: &BodyPtr<UD>) -> Vec<u64> {
    let b = b.borrow();
    let mut v = body_vals(&b);
    v.extend(mass_vals(&b));
    v.iter().map(|x| x.1.to_bits()).collect()
}
fn box_of(f: &FixturePtr<UD>, child: usize) -> B2AABB {
    let f = f.borrow();
    let x = f.get_body().borrow().get_transform();
    let mut b = B2AABB::default();
    f.get_shape().compute_aabb(&mut b, x, child);
    b
}
fn found(sim: &Sim, id: u32, q: B2AABB) -> usize {
    let mut n = 0;
    sim.w.borrow().query_aabb(|f: FixturePtr<UD>| { if fix_id(&f) == id { n += 1; } true }, q);
    n
}
fn proxies(sim: &Sim) -> usize {
    sim.bodies.iter().filter(|b| b.p.borrow().is_enabled()).map(|b| b.f.iter().map(|f| f.p.borrow().get_shape().get_child_count()).sum::<usize>()).sum()
}
/// nothing in the world shows a disabled body
fn absent(ctx: &mut Ctx, sim: &Sim, i: usize) {
    let h = &sim.bodies[i];
    let n = h.p.borrow().get_contact_list().iter().count();
    ctx.check(n == 0, || format!("disabled body {} has {} contacts", h.id, n));
    for c in sim.contacts() {
        let k = contact_key(c.borrow().get_base());
        if h.f.iter().any(|f| f.id == k.0 || f.id == k.2) { ctx.fail(format!("the world lists contact {:?} of disabled body {}", k, h.id)); return; }
    }
    let p = h.p.borrow().get_position();
    let q = B2AABB { lower_bound: b2v(p.x - 60.0, p.y - 60.0), upper_bound: b2v(p.x + 60.0, p.y + 60.0) };
    let mut seen = vec![];
    sim.w.borrow().query_aabb(|f: FixturePtr<UD>| { seen.push(fix_id(&f)); true }, q);
    ctx.check(!seen.iter().any(|s| h.f.iter().any(|f| f.id == *s)), || format!("a query finds a fixture of disabled body {}", h.id));
    for f in h.f.iter() {
        let b = box_of(&f.p, 0);
        let c = 0.5 * (b.lower_bound + b.upper_bound);
        let dir = ctx.rng.dir();
        let mut hit = false;
        sim.w.borrow().ray_cast(|x: FixturePtr<UD>, _p, _n, _f| { hit |= fix_id(&x) == f.id; 1.0 }, c - 10.0 * dir, c + 10.0 * dir);
        ctx.check(!hit, || format!("a ray hits fixture {} of disabled body {}", f.id, h.id));
    }
}
fn c36_history(ctx: &mut Ctx) {
    let mut o = SceneOpts::default();
    o.bodies = ctx.rng.int(3, 9) as usize;
    o.joints = ctx.rng.int(0, 5) as usize;
    o.joint_kinds = ALL_JK.to_vec();
    o.spread = ctx.rng.f(2.0, 6.0);
    let mut sim = rand_scene(&mut ctx.rng, &o);
    for _ in 0..ctx.rng.int(8, 30) {
        for _ in 0..ctx.rng.int(0, 3) { rand_op(&mut sim, &mut ctx.rng, &o); }
        if sim.wild() { ctx.hit("wild"); return; }
        sim.take_events();
        for _ in 0..ctx.rng.int(0, 2) {
            let i = ctx.rng.below(sim.bodies.len());
            let p = sim.b(i);
            let was = p.borrow().is_enabled();
            let to = if ctx.rng.chance(0.3) { was } else { !was };
            let touching: Vec<Key> = sim.contacts().iter().map(|c| { let b = c.borrow(); (contact_key(b.get_base()), b.get_base().is_touching()) }).filter(|k| k.1 && sim.bodies[i].f.iter().any(|f| f.id == (k.0).0 || f.id == (k.0).2)).map(|k| k.0).collect();
            let before = (sim.state_hash(), sim.w.borrow().get_proxy_count(), bits(&p));
            B2body::set_enabled(p.clone(), to);
            ctx.check(p.borrow().is_enabled() == to, || "the body does not report the state it was set to".into());
            let mut now = bits(&p);
            let mut old = before.2.clone();
            // the enabled flag itself
            now[11] = 0;
            old[11] = 0;
            let woke = now[8] != old[8];
            now[8] = 0;
            old[8] = 0;
            ctx.check(now == old, || format!("setting enabled to {} changed the body's other state", to));
            if to == was {
                ctx.hit("same_state");
                ctx.check(sim.state_hash() == before.0 && sim.w.borrow().get_proxy_count() == before.1 && !woke, || format!("setting enabled to {} again changed something", to));
                ctx.check(sim.take_events().is_empty(), || "setting enabled again caused events".into());
            } else if !to {
                ctx.hit("disabled");
                let ended: Vec<Key> = sim.take_events().iter().filter_map(|e| if let Ev::End(k, _) = e { Some(*k) } else { None }).collect();
                if !touching.is_empty() { ctx.hit("disabled_touching"); }
                let (a, b): (HashSet<Key>, HashSet<Key>) = (touching.iter().cloned().collect(), ended.iter().cloned().collect());
                ctx.check(a == b && ended.len() == a.len(), || format!("disabling ended {:?}, touching were {:?}", ended, touching));
                absent(ctx, &sim, i);
            } else {
                ctx.hit("enabled");
                for f in sim.bodies[i].f.iter() {
                    let n = f.p.borrow().get_shape().get_child_count();
                    for c in 0..n.min(4) {
                        let q = box_of(&f.p, c);
                        let k = found(&sim, f.id, q);
                        ctx.check(k >= 1, || format!("child {} of fixture {} is not found in its own box right after enabling", c, f.id));
                    }
                }
            }
        }
        let n = proxies(&sim);
        ctx.check(sim.w.borrow().get_proxy_count() as usize == n, || format!("{} proxies for {} children of enabled bodies", sim.w.borrow().get_proxy_count(), n));
        let off: Vec<usize> = (0..sim.bodies.len()).filter(|i| !sim.bodies[*i].p.borrow().is_enabled()).collect();
        let before: Vec<Vec<u64>> = off.iter().map(|i| bits(&sim.bodies[*i].p)).collect();
        sim.take_events();
        let dt = *ctx.rng.pick(&[1.0f32 / 60.0, 1.0 / 60.0, 1.0 / 60.0, 0.0, 1.0 / 30.0]);
        sim.step_dt(dt);
        let evs = sim.take_events();
        for (k, i) in off.iter().enumerate() {
            let now = bits(&sim.bodies[*i].p);
            ctx.check(now == before[k], || format!("disabled body {} changed in a step: {:?}", sim.bodies[*i].id, body_vals(&sim.bodies[*i].p.borrow())));
            for e in evs.iter() {
                let key = match e { Ev::Begin(k, _) | Ev::End(k, _) => *k, Ev::Pre(k, _) => *k, Ev::Post(k, _) => *k };
                if sim.bodies[*i].f.iter().any(|f| f.id == key.0 || f.id == key.2) { ctx.fail(format!("event for disabled body {}: {:?}", sim.bodies[*i].id, key)); }
            }
            absent(ctx, &sim, *i);
            ctx.hit("disabled_step");
            if !sim.bodies[*i].f.is_empty() { ctx.hit("disabled_solid"); }
            if sim.joints.iter().any(|j| j.a == sim.bodies[*i].id || j.b == sim.bodies[*i].id) { ctx.hit("disabled_jointed"); }
        }
        if ctx.failed() { return; }
    }
    let h = sim.state_hash();
    ctx.distinct(h);
}
fn same(ctx: &mut Ctx, what: &str, a: &BodyPtr<UD>, b: &BodyPtr<UD>, tol: f64) -> bool {
    let (a, b) = (a.borrow(), b.borrow());
    let (v, w) = (a.get_linear_velocity(), b.get_linear_velocity());
    let e = (d(a.get_position()) - d(b.get_position())).len().max((a.get_angle() - b.get_angle()).abs() as f64);
    let f = (d(v) - d(w)).len().max((a.get_angular_velocity() - b.get_angular_velocity()).abs() as f64);
    let s = 1.0 + d(v).len() + a.get_angular_velocity().abs() as f64 + d(a.get_position()).len();
    if e == 0.0 && f == 0.0 { ctx.hit("identical"); }
    ctx.check(e <= tol * s && f <= 30.0 * tol * s && a.is_awake() == b.is_awake(), || format!("{}: {:?} {} {:?} {} awake {} against {:?} {} {:?} {} awake {}", what, a.get_position(), a.get_angle(), v, a.get_angular_velocity(), a.is_awake(), b.get_position(), b.get_angle(), w, b.get_angular_velocity(), b.is_awake()))
}
/// the rest of the world goes on as if a disabled body had been destroyed
fn c36_others(ctx: &mut Ctx) {
    let seed = ctx.rng.u64();
    let mut o = SceneOpts::default();
    o.bodies = ctx.rng.int(3, 8) as usize;
    o.joints = ctx.rng.int(0, 6) as usize;
    o.joint_kinds = ALL_JK.to_vec();
    o.spread = ctx.rng.f(2.0, 6.0);
    let warm = ctx.rng.int(0, 20);
    let pick = ctx.rng.below(1000);
    let mut w: Vec<Sim> = vec![];
    for gone in [false, true].iter() {
        let mut sim = rand_scene(&mut Rng::new(seed), &o);
        for b in sim.bodies.iter() { if !b.p.borrow().is_enabled() { B2body::set_enabled(b.p.clone(), true); } }
        for _ in 0..warm { sim.step(); }
        if sim.wild() { ctx.hit("wild"); return; }
        let i = pick % sim.bodies.len();
        sim.drop_gears_of_body(i);
        for b in sim.bodies.iter() { b.p.borrow_mut().set_awake(true); }
        if !gone {
            let id = sim.bodies[i].id;
            if sim.joints.iter().any(|j| j.a == id || j.b == id) { ctx.hit("others_jointed"); }
            if sim.bodies[i].p.borrow().get_contact_list().iter().count() > 0 { ctx.hit("others_in_contact"); }
        }
        if *gone { sim.destroy_body(i) } else { B2body::set_enabled(sim.b(i), false) }
        w.push(sim);
    }
    for k in 0..ctx.rng.int(1, 4) {
        for s in w.iter_mut() { s.step(); }
        if w.iter().any(|s| s.wild()) { ctx.hit("wild"); return; }
        let (x, y) = (&w[0], &w[1]);
        for b in y.bodies.iter() {
            let a = x.index_of(b.id).unwrap();
            same(ctx, &format!("{} steps after a body was disabled or destroyed, body {}", k + 1, b.id), &x.bodies[a].p, &b.p, 1e-4);
        }
        if ctx.failed() { return; }
    }
    ctx.hit("others");
    let h = w[0].state_hash();
    ctx.distinct(h);
}
/// a body that was disabled for a while and then enabled goes on as one that was enabled all the time in a world that stood still
fn c36_back(ctx: &mut Ctx) {
    let seed = ctx.rng.u64();
    let kind = if ctx.rng.chance(0.7) { Some(*ctx.rng.pick(&[JK::Distance, JK::Friction, JK::Mouse, JK::Motor, JK::Pulley, JK::Revolute, JK::Prismatic, JK::Weld, JK::Wheel])) } else { None };
    let idle = ctx.rng.int(0, 90);
    let born = ctx.rng.chance(0.3);
    let (moved, extra, first) = (ctx.rng.chance(0.4), ctx.rng.chance(0.3), ctx.rng.chance(0.5));
    let pushed = ctx.rng.chance(0.3);
    if pushed && idle >= 2 { ctx.hit("pushed_disabled"); }
    let mut w: Vec<Sim> = vec![];
    for twin in [false, true].iter() {
        let mut r = Rng::new(seed);
        let mut sim = Sim::new(b2v(0.0, -10.0));
        let fx = Fx::mat(1.0, r.f(0.0, 1.0), 0.0);
        if first { sim.ground(-2.0, 30.0, &fx); }
        let a = sim.box_body(STATIC, r.vec(1.0) + b2v(0.0, 3.0), r.angle(), 0.2, 0.2, &fx);
        let mut def = Sim::def(DYNAMIC, r.vec(1.5), r.angle());
        def.linear_velocity = r.vec(4.0);
        def.angular_velocity = r.f(-3.0, 3.0);
        def.bullet = r.chance(0.2);
        def.enabled = *twin || !born;
        let b = sim.add(def);
        let (s, k) = rand_shape(&mut r, true);
        sim.fixture(b, &s, k, &fx);
        if !first { sim.ground(-2.0, 30.0, &fx); }
        if let Some(k) = kind { make_joint(&mut sim, &mut r, k, a, b); }
        let (x, t) = (r.vec(1.5), r.angle());
        let x = if kind.map_or(false, |k| is_rigid(k)) { sim.bodies[b].p.borrow().get_position() + 0.03 * x } else { x };
        let t = if kind.map_or(false, |k| is_rigid(k)) { sim.bodies[b].p.borrow().get_angle() + 0.03 * t } else { t };
        let (s2, k2) = rand_shape(&mut r, true);
        if !*twin {
            if !born { B2body::set_enabled(sim.b(b), false); }
            // pushed while disabled: forgotten with the step
            if idle >= 2 && pushed { let q = sim.b(b); q.borrow_mut().apply_force(b2v(300.0, 200.0), b2v(0.0, 0.0), true); q.borrow_mut().apply_torque(100.0, true); }
            for _ in 0..idle / 2 { sim.step(); }
        }
        if moved { sim.bodies[b].p.borrow_mut().set_transform(x, t); }
        if extra { sim.fixture(b, &s2, k2, &fx); }
        if !*twin {
            for _ in 0..idle / 2 { sim.step(); }
            if born { ctx.hit("born_disabled"); }
            B2body::set_enabled(sim.b(b), true);
        }
        w.push(sim);
    }
    let bi = if first { 2 } else { 1 };
    for n in 0..ctx.rng.int(1, 12) {
        for s in w.iter_mut() { s.step(); }
        // several contacts are solved in the order they were made, which may differ
        if w.iter().any(|s| s.contacts().len() > 1) { ctx.hit("several_contacts"); return; }
        // the two shapes of the contact may have swapped roles, and ties are then broken the other way
        let tol = if w.iter().any(|s| s.contacts().iter().any(|c| c.borrow().get_base().is_touching())) { 4e-3 } else { 1e-4 };
        same(ctx, &format!("step {} after enabling", n + 1), &w[0].bodies[bi].p, &w[1].bodies[bi].p, tol);
        let (x, y): (Vec<Vec<(Key, bool)>>, ()) = (w.iter().map(|s| { let mut v: Vec<(Key, bool)> = s.contacts().iter().map(|c| { let b = c.borrow(); (norm_key(contact_key(b.get_base())), b.get_base().is_touching()) }).filter(|k| k.1).collect(); v.sort(); v }).collect(), ());
        let _ = y;
        if !x[0].is_empty() { ctx.hit("back_touching"); }
        ctx.check(x[0] == x[1], || format!("touching pairs after enabling are {:?}, always enabled {:?}", x[0], x[1]));
        if ctx.failed() { return; }
    }
    ctx.hit("back");
    if kind.is_some() { ctx.hit("back_jointed"); }
    let h = w[0].state_hash();
    ctx.distinct(h);
}

// ------------------------------------------------------------------------------------------------ C37

struct Watch {
    bodies: Vec<(u32, Weak<RefCell<B2body<UD>>>)>,
    fixtures: Vec<(u32, Weak<RefCell<B2fixture<UD>>>)>,
    joints: Vec<(u32, B2jointWeakPtr<UD>)>,
}
impl Watch {
    fn note(&mut self, sim: &Sim) {
        let (nb, nf, nj) = (self.bodies.last().map_or(0, |x| x.0), self.fixtures.iter().map(|x| x.0).max().unwrap_or(0), self.joints.iter().map(|x| x.0).max().unwrap_or(0));
        for b in sim.bodies.iter() {
            if b.id > nb { self.bodies.push((b.id, Rc::downgrade(&b.p))); }
            for f in b.f.iter() { if f.id > nf { self.fixtures.push((f.id, Rc::downgrade(&f.p))); } }
        }
        self.bodies.sort_by_key(|x| x.0);
        for j in sim.joints.iter() { if j.id > nj { self.joints.push((j.id, Rc::downgrade(&j.p))); } }
    }
    /// ids of destroyed objects that still exist
    fn held(&self, sim: Option<&Sim>) -> Option<String> {
        let (mut b, mut f, mut j): (HashSet<u32>, HashSet<u32>, HashSet<u32>) = Default::default();
        if let Some(s) = sim {
            b = s.bodies.iter().map(|x| x.id).collect();
            f = s.bodies.iter().flat_map(|x| x.f.iter().map(|y| y.id)).collect();
            j = s.joints.iter().map(|x| x.id).collect();
        }
        for (id, p) in self.bodies.iter() { if !b.contains(id) && p.strong_count() > 0 { return Some(format!("destroyed body {} still has {} owners", id, p.strong_count())); } }
        for (id, p) in self.fixtures.iter() { if !f.contains(id) && p.strong_count() > 0 { return Some(format!("destroyed fixture {} still has {} owners", id, p.strong_count())); } }
        for (id, p) in self.joints.iter() { if !j.contains(id) && p.strong_count() > 0 { return Some(format!("destroyed joint {} still has {} owners", id, p.strong_count())); } }
        None
    }
}
fn c37_history(ctx: &mut Ctx) {
    let mut o = SceneOpts::default();
    o.bodies = ctx.rng.int(2, 10) as usize;
    o.joints = ctx.rng.int(0, 6) as usize;
    o.joint_kinds = ALL_JK.to_vec();
    o.spread = ctx.rng.f(2.0, 6.0);
    let tokens = live_tokens();
    let mem = live_bytes();
    let mut rng = ctx.rng.clone();
    let mut w = Watch { bodies: vec![], fixtures: vec![], joints: vec![] };
    let world;
    let mut saved = 0;
    {
        let mut sim = rand_scene(&mut rng, &o);
        world = Rc::downgrade(&sim.w);
        if rng.chance(0.2) { sim.w.borrow_mut().set_contact_filter(Rc::new(RefCell::new(B2contactFilterDefault))); }
        for _ in 0..rng.int(10, 80) {
            w.note(&sim);
            let op = rand_op(&mut sim, &mut rng, &o);
            if sim.wild() { break; }
            w.note(&sim);
            match op { "destroy body" => ctx.hit("destroyed_body"), "destroy fixture" => ctx.hit("destroyed_fixture"), "destroy joint" => ctx.hit("destroyed_joint"), _ => {} }
            if rng.chance(0.05) {
                if let Ok(s) = serde_json::to_string(&*sim.w.borrow()) { saved += s.len(); }
            }
            if rng.chance(0.4) {
                sim.step();
                sim.take_events();
                if let Some(m) = w.held(Some(&sim)) { ctx.check(false, || format!("after {} and a step: {}", op, m)); return; }
                let want = sim.bodies.len() + sim.bodies.iter().map(|b| b.f.len()).sum::<usize>() + sim.joints.len();
                let have = live_tokens() - tokens;
                if !ctx.check(have == want as i64, || format!("after {} and a step {} user data values live for {} objects", op, have, want)) { return; }
                ctx.hit("checked");
            }
        }
        let h = sim.state_hash();
        ctx.distinct(h);
        let touching = sim.contacts().len();
        if touching > 0 { ctx.hit("dropped_with_contacts"); }
        for j in sim.joints.iter() { ctx.hit(match j.kind { JK::Gear => "dropped_gear", JK::Mouse => "dropped_mouse", _ => "dropped_joint" }); }
        // in any order: handles first, the world first, listeners first
        match rng.below(4) {
            0 => { sim.bodies.clear(); sim.joints.clear(); drop(sim); }
            1 => { let Sim { w, bodies, joints, ev, bye, .. } = sim; drop(w); drop(joints); drop(bodies); drop(ev); drop(bye); ctx.hit("world_first"); }
            2 => { let Sim { w, bodies, joints, ev, bye, .. } = sim; drop(ev); drop(bye); drop(bodies); drop(w); drop(joints); }
            _ => drop(sim),
        }
    }
    ctx.check(world.strong_count() == 0, || "the dropped world still has owners".into());
    if let Some(m) = w.held(None) { ctx.check(false, || format!("after the world was dropped: {}", m)); return; }
    drop(world);
    drop(w);
    let left = live_tokens() - tokens;
    ctx.check(left == 0, || format!("{} user data values live after the world was dropped", left));
    ctx.hit("dropped");
    let _ = (mem, saved);
}
/// all memory is given back when the world is dropped
fn c37_bytes(ctx: &mut Ctx) {
    fn run(rng: &mut Rng, o: &SceneOpts, ops: i32) -> u64 {
        let mut sim = rand_scene(rng, o);
        for _ in 0..ops {
            rand_op(&mut sim, rng, o);
            if sim.wild() { break; }
            sim.take_events();
        }
        sim.state_hash()
    }
    let mut o = SceneOpts::default();
    o.bodies = ctx.rng.int(2, 10) as usize;
    o.joints = ctx.rng.int(0, 6) as usize;
    o.joint_kinds = ALL_JK.to_vec();
    o.spread = ctx.rng.f(2.0, 6.0);
    let ops = ctx.rng.int(10, 80);
    let mut rng = ctx.rng.clone();
    let before = live_bytes();
    let h = run(&mut rng, &o, ops);
    let left = live_bytes() - before;
    ctx.check(left == 0, || format!("{} bytes remain allocated after the world was dropped", left));
    ctx.distinct(h);
    ctx.hit("bytes_case");
}
/// repeating an operation and undoing it does not make the world's memory grow
fn c37_cycles(ctx: &mut Ctx) {
    let op = ctx.rng.below(16);
    let mut sim = Sim::new(b2v(0.0, -10.0));
    sim.ev.borrow_mut().log.reserve(4096);
    let fx = Fx::mat(1.0, 0.4, 0.0);
    sim.ground(-2.0, 20.0, &fx);
    let n = ctx.rng.int(1, 5);
    for i in 0..n {
        let r = ctx.rng.f(0.3, 0.6);
        if ctx.rng.chance(0.5) { sim.ball(DYNAMIC, b2v(1.1 * i as f32, -1.2), r, &fx); } else { sim.box_body(DYNAMIC, b2v(1.1 * i as f32, -1.2), 0.0, r, r, &fx); }
    }
    let b = sim.ball(DYNAMIC, b2v(-3.0, -1.0), 0.5, &fx);
    let jk = *ctx.rng.pick(&[JK::Distance, JK::Friction, JK::Mouse, JK::Motor, JK::Pulley, JK::Revolute, JK::Prismatic, JK::Weld, JK::Wheel, JK::Gear]);
    if op == 2 {
        // something to gear together
        for i in 0..2 { let c = sim.box_body(DYNAMIC, b2v(-8.0 - 2.0 * i as f32, 3.0), 0.0, 0.3, 0.3, &fx); make_joint(&mut sim, &mut ctx.rng, JK::Revolute, 0, c); }
    }
    let names = ["create and destroy a body", "create and destroy a fixture", "create and destroy a joint", "disable and enable", "change filter", "teleport away and back", "change type and back", "shift origin and back", "queries", "ray casts", "nothing but steps", "sensor on and off", "save", "refilter", "user data", "destroy a body with everything on it"];
    let mut last = vec![];
    let total = 400;
    for k in 0..total {
        let home = sim.bodies[b].p.borrow().get_position();
        match op {
            0 => { let c = sim.ball(DYNAMIC, b2v(3.0, 0.0), 0.5, &fx); sim.step(); sim.destroy_body(c); }
            1 => { let f = sim.fixture(b, &rc(bx(0.8, 0.2)), Kind::Poly, &fx); sim.step(); sim.destroy_fixture(b, f); }
            2 => { let j = if jk == JK::Gear { let mut r = Rng::new(k as u64 / 7); (0..8).filter_map(|_| make_joint(&mut sim, &mut r, JK::Gear, 0, 1)).next() } else { make_joint(&mut sim, &mut Rng::new(5), jk, 0, b) }; sim.step(); if let Some(j) = j { sim.destroy_joint(j); ctx.hit("cycled_joint"); } }
            3 => { B2body::set_enabled(sim.b(b), false); sim.step(); B2body::set_enabled(sim.b(b), true); }
            4 => { let f = sim.bodies[b].f[0].p.clone(); let mut q = f.borrow().get_filter_data(); q.mask_bits ^= 0xffff; f.borrow_mut().set_filter_data(q); }
            5 => { sim.bodies[b].p.borrow_mut().set_transform(b2v(-3.0, 15.0 + (k % 7) as f32), 0.1); sim.step(); sim.bodies[b].p.borrow_mut().set_transform(home, 0.0); }
            6 => { B2body::set_type(sim.b(b), *[STATIC, KINEMATIC][k % 2..].first().unwrap()); sim.step(); B2body::set_type(sim.b(b), DYNAMIC); }
            7 => { sim.w.borrow().shift_origin(b2v(3.0, 1.0)); sim.step(); sim.w.borrow().shift_origin(b2v(-3.0, -1.0)); }
            8 => { let mut c = 0; sim.w.borrow().query_aabb(|_f: FixturePtr<UD>| { c += 1; true }, B2AABB { lower_bound: b2v(-9.0, -9.0), upper_bound: b2v(9.0, 9.0) }); }
            9 => { let mut c = 0.0; sim.w.borrow().ray_cast(|_f: FixturePtr<UD>, _p, _n, q: f32| { c += q; 1.0 }, b2v(-9.0, -1.0), b2v(9.0, -1.5)); }
            11 => { let f = sim.bodies[b].f[0].p.clone(); let s = f.borrow().is_sensor(); f.borrow_mut().set_sensor(!s); }
            12 => { if k % 8 == 0 { let _ = serde_json::to_string(&*sim.w.borrow()); } }
            13 => { let f = sim.bodies[b].f[0].p.clone(); f.borrow_mut().refilter(); }
            14 => { sim.bodies[b].p.borrow_mut().set_user_data(&Tok::new(7)); let f = sim.bodies[b].f[0].p.clone(); f.borrow_mut().set_user_data(&Tok::new(8)); }
            15 => {
                let c = sim.ball(DYNAMIC, b2v(3.0, 0.5), 0.5, &fx);
                sim.fixture(c, &rc(bx(0.2, 0.9)), Kind::Poly, &fx);
                if jk != JK::Gear { make_joint(&mut sim, &mut Rng::new(9), jk, 0, c); }
                for _ in 0..3 { sim.step(); }
                sim.destroy_body(c);
            }
            _ => {}
        }
        sim.step();
        sim.ev.borrow_mut().log.clear();
        sim.bye.borrow_mut().joints.clear();
        sim.bye.borrow_mut().fixtures.clear();
        if k >= total / 4 && k % 20 == 0 { last.push(live_bytes()); }
    }
    // the least of the last readings against the greatest of the first ones
    let m = last.len() / 3;
    let (early, late) = (*last[..m].iter().max().unwrap(), *last[last.len() - m..].iter().min().unwrap());
    ctx.max("growth_bytes", (late - early).max(0) as f64 * 1e-6);
    ctx.check(late - early <= 3000, || format!("live memory grew from {} to {} bytes over 200 rounds of: {} ({:?}) {:?}", early, late, names[op], jk, last));
    ctx.hit("cycles");
    ctx.distinct(hash_words(&[op as u64, jk as u64, n as u64, sim.state_hash()]));
}

/// run in a child process: makes a large world and drops it
pub fn large(n: usize, mode: &str) {
    let mut sim = Sim::new(b2v(0.0, 0.0));
    let fx = Fx::default();
    let one = sim.body(STATIC, b2v(0.0, 50.0), 0.0);
    for i in 0..n {
        match mode {
            "fixtures" => { sim.fixture(one, &rc(circle(b2v(i as f32, 0.0), 0.4)), Kind::Circle, &fx); }
            _ => {
                let b = sim.ball(DYNAMIC, b2v(if mode == "contacts" { 0.7 } else { 1.0 } * i as f32, 0.0), 0.4, &fx);
                if mode == "joints" {
                    let a = if i == 0 { 0 } else { b - 1 };
                    let mut f = B2distanceJointDef::default();
                    f.base = sim.jbase(B2jointType::EDistanceJoint, a, b, true);
                    f.initialize(sim.b(a), sim.b(b), sim.b(a).borrow().get_position(), sim.b(b).borrow().get_position());
                    sim.joint(B2JointDefEnum::DistanceJoint(f), JK::Distance, a, b, true);
                }
            }
        }
    }
    sim.w.borrow_mut().step(1.0 / 60.0, 1, 1);
    println!("made {} contacts", sim.contacts().len());
    let Sim { w, bodies, joints, ev, bye, .. } = sim;
    drop(joints);
    drop(bodies);
    drop(ev);
    drop(bye);
    drop(w);
    println!("dropped, {} left", live_tokens());
}
/// large worlds can be dropped too
fn c37_large(ctx: &mut Ctx) {
    let mode = ["bodies", "contacts", "joints", "fixtures"][ctx.idx as usize % 4];
    let n = ctx.rng.int(20000, 40000);
    let exe = match std::env::current_exe() { Ok(e) => e, Err(e) => panic!("no executable: {}", e) };
    let o = match std::process::Command::new(exe).args(&["large", &n.to_string(), mode]).output() { Ok(o) => o, Err(e) => panic!("cannot run child: {}", e) };
    let (out, err) = (String::from_utf8_lossy(&o.stdout).to_string(), String::from_utf8_lossy(&o.stderr).to_string());
    if out.contains("made") && err.contains("overflowed its stack") {
        ctx.check(false, || format!("dropping a world with {} {} overflowed the stack", n, mode));
        return;
    }
    if !o.status.success() { panic!("child failed: {:?} {} {}", o.status, out, err); }
    ctx.check(out.contains("dropped, 0 left"), || format!("after dropping a world with {} {}: {}", n, mode, out));
    ctx.hit("large");
    ctx.distinct(n as u64);
}

// ------------------------------------------------------------------------------------------------ C38

fn joints_of(b: &BodyPtr<UD>) -> usize {
    b.borrow().get_joint_list().iter().count()
}
fn c38_case(ctx: &mut Ctx) {
    let mut o = SceneOpts::default();
    o.bodies = ctx.rng.int(3, 10) as usize;
    o.joints = ctx.rng.int(2, 12) as usize;
    o.joint_kinds = ALL_JK.to_vec();
    o.spread = ctx.rng.f(2.0, 6.0);
    let mut sim = rand_scene(&mut ctx.rng, &o);
    for _ in 0..ctx.rng.int(3, 25) {
        for _ in 0..ctx.rng.int(0, 3) { rand_op(&mut sim, &mut ctx.rng, &o); }
        if sim.joints.len() < 4 { for _ in 0..3 { rand_joint(&mut sim, &mut ctx.rng, &ALL_JK); } }
        if sim.wild() { ctx.hit("wild"); return; }
        if sim.bodies.len() < 3 { return; }
        sim.take_events();
        { let mut g = sim.bye.borrow_mut(); g.joints.clear(); g.fixtures.clear(); }
        let quiet = |ctx: &mut Ctx, sim: &Sim, what: &str| {
            let g = sim.bye.borrow();
            ctx.check(g.joints.is_empty() && g.fixtures.is_empty(), || format!("{} announced joints {:?} fixtures {:?}", what, g.joints, g.fixtures));
        };
        match ctx.rng.below(4) {
            0 => {
                // explicit destruction of a joint
                if sim.joints.is_empty() { continue; }
                let j = ctx.rng.below(sim.joints.len());
                let id = sim.joints[j].id;
                if sim.joints.iter().any(|x| x.deps.contains(&id)) { continue; }
                let want: Vec<(u32, usize)> = sim.bodies.iter().map(|b| (b.id, joints_of(&b.p) - (b.id == sim.joints[j].a) as usize - (b.id == sim.joints[j].b) as usize)).collect();
                let (a, b) = (sim.index_of(sim.joints[j].a).unwrap(), sim.index_of(sim.joints[j].b).unwrap());
                sim.destroy_joint(j);
                quiet(ctx, &sim, "destroying a joint");
                for (k, x) in sim.bodies.iter().enumerate() { ctx.check(joints_of(&x.p) == want[k].1, || format!("body {} has {} joints, expected {}", x.id, joints_of(&x.p), want[k].1)); }
                for x in [a, b].iter() { let p = sim.b(*x); if p.borrow().get_type() != STATIC { ctx.check(p.borrow().is_awake(), || "destroying a joint left its body asleep".into()); } }
                ctx.hit("explicit_joint");
            }
            1 => {
                let i = ctx.rng.below(sim.bodies.len());
                if sim.bodies[i].f.is_empty() { continue; }
                let f = ctx.rng.below(sim.bodies[i].f.len());
                sim.destroy_fixture(i, f);
                quiet(ctx, &sim, "destroying a fixture");
                ctx.hit("explicit_fixture");
            }
            _ => {
                let i = ctx.rng.below(sim.bodies.len());
                let id = sim.bodies[i].id;
                // gears that hang on its joints but are not attached to it must go first
                let dying: Vec<u32> = sim.joints.iter().filter(|j| j.kind != JK::Gear && (j.a == id || j.b == id)).map(|j| j.id).collect();
                while let Some(g) = sim.joints.iter().position(|j| j.kind == JK::Gear && j.a != id && j.b != id && j.deps.iter().any(|d| dying.contains(d))) { sim.destroy_joint(g); }
                quiet(ctx, &sim, "destroying gears");
                if ctx.rng.chance(0.4) { for b in sim.bodies.iter() { if ctx.rng.chance(0.6) { b.p.borrow_mut().set_awake(false); } } }
                let want_j: HashSet<u32> = sim.joints.iter().filter(|j| j.a == id || j.b == id).map(|j| j.id).collect();
                let want_f: HashSet<u32> = sim.bodies[i].f.iter().map(|f| f.id).collect();
                if sim.joints.iter().any(|j| j.kind == JK::Gear && want_j.contains(&j.id)) { ctx.hit("gear_announced"); }
                let mut left: BTreeMap<u32, usize> = BTreeMap::new();
                let mut partners: HashSet<u32> = HashSet::new();
                for b in sim.bodies.iter().filter(|b| b.id != id) {
                    let lost = sim.joints.iter().filter(|j| want_j.contains(&j.id) && (j.a == b.id || j.b == b.id)).count();
                    if lost > 0 { partners.insert(b.id); }
                    left.insert(b.id, joints_of(&b.p) - lost);
                }
                let counts = (sim.w.borrow().get_body_count(), sim.w.borrow().get_joint_count());
                let h = sim.bodies.remove(i);
                sim.joints.retain(|j| j.a != id && j.b != id);
                sim.w.borrow_mut().destroy_body(h.p.clone());
                let g = sim.bye.borrow();
                let (gj, gf): (HashSet<u32>, HashSet<u32>) = (g.joints.iter().cloned().collect(), g.fixtures.iter().cloned().collect());
                ctx.check(gj == want_j && g.joints.len() == want_j.len(), || format!("destroying body {} announced joints {:?}, its joints were {:?}", id, g.joints, want_j));
                ctx.check(gf == want_f && g.fixtures.len() == want_f.len(), || format!("destroying body {} announced fixtures {:?}, its fixtures were {:?}", id, g.fixtures, want_f));
                ctx.check(g.bad.is_empty(), || format!("announced in an unusable state: {:?}", g.bad));
                let now = (sim.w.borrow().get_body_count(), sim.w.borrow().get_joint_count());
                ctx.check(now == (counts.0 - 1, counts.1 - want_j.len()), || format!("counts went from {:?} to {:?} with {} joints", counts, now, want_j.len()));
                for b in sim.bodies.iter() {
                    ctx.check(joints_of(&b.p) == left[&b.id], || format!("body {} is left with {} joints, expected {}", b.id, joints_of(&b.p), left[&b.id]));
                    if partners.contains(&b.id) && b.p.borrow().get_type() != STATIC { ctx.check(b.p.borrow().is_awake(), || format!("body {} lost a joint and sleeps", b.id)); ctx.hit("partner"); }
                }
                if !want_j.is_empty() { ctx.hit("with_joints"); }
                if want_f.len() > 1 { ctx.hit("with_fixtures"); }
                if want_j.len() > 1 { ctx.hit("with_many_joints"); }
                ctx.hit("destroyed");
                ctx.distinct(hash_words(&[want_j.len() as u64, want_f.len() as u64, now.0 as u64, now.1 as u64, id as u64]));
            }
        }
        if ctx.failed() { return; }
    }
}

// ------------------------------------------------------------------------------------------------ C39

struct Dump { gravity: (f32, f32), bodies: BTreeMap<u32, (Vals, Vals)>, fixtures: BTreeMap<u32, (u32, Vals)>, joints: BTreeMap<u32, Vals>, order: Vec<u32> }
fn dump(w: &B2worldPtr<UD>) -> Result<Dump, String> {
    let w = w.borrow();
    let g = w.get_gravity();
    let mut o = Dump { gravity: (g.x, g.y), bodies: BTreeMap::new(), fixtures: BTreeMap::new(), joints: BTreeMap::new(), order: vec![] };
    for b in w.get_body_list().iter() {
        let q = b.borrow();
        let id = q.get_user_data().map_or(0, |t| t.id);
        if o.bodies.insert(id, (body_vals(&q), mass_vals(&q))).is_some() { return Err(format!("body {} twice", id)); }
        o.order.push(id);
        for f in q.get_fixture_list().iter() {
            let f = f.borrow();
            let fid = f.get_user_data().map_or(0, |t| t.id);
            if o.fixtures.insert(fid, (id, fixture_vals(&f))).is_some() { return Err(format!("fixture {} twice", fid)); }
        }
    }
    for j in w.get_joint_list().iter() {
        let q = j.borrow();
        let id = q.get_base().get_user_data().map_or(0, |t| t.id);
        if o.joints.insert(id, joint_vals(&*q)).is_some() { return Err(format!("joint {} twice", id)); }
    }
    Ok(o)
}
fn compare(a: &Dump, b: &Dump, rel: f64, own_mass: &HashSet<u32>, mice: &HashSet<u32>) -> Option<String> {
    if (a.gravity.0 - b.gravity.0).abs() > 1e-6 * (1.0 + a.gravity.0.abs()) || (a.gravity.1 - b.gravity.1).abs() > 1e-6 * (1.0 + a.gravity.1.abs()) { return Some(format!("gravity {:?} against {:?}", a.gravity, b.gravity)); }
    if a.bodies.len() != b.bodies.len() || a.fixtures.len() != b.fixtures.len() { return Some(format!("{} bodies, {} fixtures against {}, {}", a.bodies.len(), a.fixtures.len(), b.bodies.len(), b.fixtures.len())); }
    for (id, x) in a.bodies.iter() {
        let y = match b.bodies.get(id) { Some(y) => y, None => return Some(format!("body {} is missing", id)) };
        // the velocity is carried over by way of the origin, whose place is known to so many digits
        let part = |v: &Vals, name: &str, is: bool| -> Vals { v.iter().filter(|q| (q.0 == name) == is).cloned().collect() };
        if let Some(m) = differ(&part(&x.0, "velocity", false), &part(&y.0, "velocity", false), rel) { return Some(format!("body {}: {}", id, m)); }
        let (p, w) = (part(&x.0, "position", true), part(&x.0, "angular velocity", true)[0].1.abs());
        let slack = 1e-6 * w * (2.0 + p[0].1.abs() + p[1].1.abs());
        if let Some(m) = differ(&part(&x.0, "velocity", true), &part(&y.0, "velocity", true), rel + slack) { return Some(format!("body {}: {}", id, m)); }
        if !own_mass.contains(id) { if let Some(m) = differ(&x.1, &y.1, rel.max(2e-5)) { return Some(format!("body {}: {}", id, m)); } }
    }
    for (id, x) in a.fixtures.iter() {
        let y = match b.fixtures.get(id) { Some(y) => y, None => return Some(format!("fixture {} is missing", id)) };
        if x.0 != y.0 { return Some(format!("fixture {} belongs to body {} against {}", id, x.0, y.0)); }
        if let Some(m) = differ(&x.1, &y.1, rel) { return Some(format!("fixture {}: {}", id, m)); }
    }
    if a.joints.keys().filter(|j| !mice.contains(j)).count() != b.joints.len() { return Some(format!("joints {:?} against {:?}", a.joints.keys(), b.joints.keys())); }
    for (id, x) in a.joints.iter().filter(|j| !mice.contains(j.0)) {
        let y = match b.joints.get(id) { Some(y) => y, None => return Some(format!("joint {} is missing", id)) };
        if let Some(m) = differ(x, y, rel) { return Some(format!("joint {}: {} [{:?}]", id, m, x)); }
    }
    None
}
/// a world written and read back
fn round(w: &B2worldPtr<UD>, fmt: usize) -> Result<B2worldPtr<UD>, String> {
    let w = w.borrow();
    match fmt {
        0 => { let s = serde_json::to_string(&*w).map_err(|e| format!("cannot write JSON: {}", e))?; serde_json::from_str::<B2worldDeserializeResult<UD>>(&s).map(|r| r.world).map_err(|e| format!("cannot read back JSON: {}", e)) }
        1 => { let s = serde_json::to_string_pretty(&*w).map_err(|e| format!("cannot write JSON: {}", e))?; serde_json::from_str::<B2worldDeserializeResult<UD>>(&s).map(|r| r.world).map_err(|e| format!("cannot read back JSON: {}", e)) }
        2 => { let s = serde_json::to_value(&*w).map_err(|e| format!("cannot make a JSON value: {}", e))?; Ok(s).and_then(|_| { let t = serde_json::to_vec(&*w).map_err(|e| format!("cannot write JSON: {}", e))?; serde_json::from_slice::<B2worldDeserializeResult<UD>>(&t).map(|r| r.world).map_err(|e| format!("cannot read back JSON: {}", e)) }) }
        _ => { let s = bincode::serialize(&*w).map_err(|e| format!("cannot write binary: {}", e))?; bincode::deserialize::<B2worldDeserializeResult<UD>>(&s).map(|r| r.world).map_err(|e| format!("cannot read back binary: {}", e)) }
    }
}
const FORMATS: [&str; 4] = ["JSON", "pretty JSON", "JSON bytes", "binary"];
fn c39_round(ctx: &mut Ctx) {
    let mut o = SceneOpts::default();
    o.bodies = ctx.rng.int(1, 10) as usize;
    o.joints = ctx.rng.int(0, 12) as usize;
    o.joint_kinds = ALL_JK.to_vec();
    o.spread = ctx.rng.f(2.0, 6.0);
    let mut sim = rand_scene(&mut ctx.rng, &o);
    let mut own: HashSet<u32> = HashSet::new();
    for _ in 0..ctx.rng.int(0, 30) {
        let before: Vec<(u32, f32)> = sim.bodies.iter().map(|b| (b.id, b.p.borrow().get_mass())).collect();
        let op = rand_op(&mut sim, &mut ctx.rng, &o);
        if op == "set mass data" { for (id, m) in before { if let Some(i) = sim.index_of(id) { if sim.bodies[i].p.borrow().get_mass() != m { own.insert(id); } } } for b in sim.bodies.iter() { let mut m = 0.0; for f in b.f.iter() { let mut md = B2massData::default(); f.p.borrow().get_mass_data(&mut md); m += md.mass; } if b.p.borrow().get_type() == DYNAMIC && m == 0.0 { own.insert(b.id); } } }
        if sim.wild() { ctx.hit("wild"); return; }
    }
    // a body given its own mass keeps it only until its fixtures are counted again
    let mice: HashSet<u32> = sim.joints.iter().filter(|j| j.kind == JK::Mouse).map(|j| j.id).collect();
    let fmt = ctx.rng.below(4);
    let before = sim.state_hash();
    let first = match round(&sim.w, fmt) { Ok(w) => w, Err(e) => { ctx.check(false, || format!("{}: {}", FORMATS[fmt], e)); return; } };
    ctx.check(sim.state_hash() == before, || "saving changed the world".into());
    let (a, b) = match (dump(&sim.w), dump(&first)) { (Ok(a), Ok(b)) => (a, b), (Err(e), _) | (_, Err(e)) => { ctx.check(false, || e); return; } };
    // densities changed without a new mass count, and own masses, are not part of what is saved
    let stale: HashSet<u32> = sim.bodies.iter().filter(|b| own.contains(&b.id) || stale_mass(&b.p)).map(|b| b.id).collect();
    let m = compare(&a, &b, 1e-6, &stale, &mice);
    ctx.check(m.is_none(), || format!("{}: {}", FORMATS[fmt], m.unwrap()));
    ctx.hit(FORMATS[fmt]);
    for j in sim.joints.iter() { ctx.hit(&format!("{:?}", j.kind)); }
    for f in sim.bodies.iter().flat_map(|b| b.f.iter()) { ctx.hit(&format!("{:?}", f.kind)); }
    ctx.add("bodies", sim.bodies.len() as u64);
    let fmt2 = ctx.rng.below(4);
    match round(&first, fmt2) {
        Ok(second) => match dump(&second) {
            Ok(c) => { let m = compare(&b, &c, 1e-6, &HashSet::new(), &HashSet::new()); ctx.check(m.is_none(), || format!("second round trip ({} then {}): {}", FORMATS[fmt], FORMATS[fmt2], m.unwrap())); ctx.hit("second"); }
            Err(e) => { ctx.check(false, || e); }
        },
        Err(e) => { ctx.check(false, || format!("second round trip: {}", e)); }
    }
    // the loaded world works
    for _ in 0..3 { first.borrow_mut().step(1.0 / 60.0, 8, 3); }
    ctx.distinct(before);
}
/// the body's mass is not what its fixtures add up to (densities changed since, or own mass)
fn stale_mass(b: &BodyPtr<UD>) -> bool {
    let b = b.borrow();
    if b.get_type() != DYNAMIC { return false; }
    let (mut m, mut i) = (0.0f64, 0.0f64);
    let mut c = V { x: 0.0, y: 0.0 };
    for f in b.get_fixture_list().iter() {
        if f.borrow().get_density() == 0.0 { continue; }
        let mut md = B2massData::default();
        f.borrow().get_mass_data(&mut md);
        m += md.mass as f64;
        i += md.i as f64;
        c = c + d(md.center) * md.mass as f64;
    }
    if m == 0.0 { return (b.get_mass() as f64 - 1.0).abs() > 1e-6 && b.get_mass() != 0.0; }
    (m - b.get_mass() as f64).abs() > 1e-4 * m || (c * (1.0 / m) - d(b.get_local_center())).len() > 1e-4 * (1.0 + c.len() / m) || (!b.is_fixed_rotation() && (i - b.get_inertia() as f64).abs() > 1e-3 * (i + 1e-3))
}
/// the loaded world continues as the original does
fn c39_continue(ctx: &mut Ctx) {
    let mut sim = Sim::new(b2v(0.0, -10.0));
    // warm-start impulses are not saved, so the solver must get there without them
    sim.vi = 1500;
    sim.pi = 20;
    let fx = Fx::mat(1.0, ctx.rng.f(0.2, 0.9), 0.0);
    let ground = sim.ground(-10.0, 200.0, &fx);
    let n = ctx.rng.int(1, 6) as usize;
    let mut pairs = vec![];
    for k in 0..n {
        let x = 12.0 * (k as f32 - 2.5);
        match ctx.rng.below(3) {
            0 => {
                // alone on the ground or falling
                let at = b2v(x, if ctx.rng.chance(0.5) { -9.4 } else { 0.0 });
                let i = if ctx.rng.chance(0.5) { sim.ball(DYNAMIC, at, 0.5, &fx) } else { sim.box_body(DYNAMIC, at, 0.0, 0.5, 0.5, &fx) };
                if ctx.rng.chance(0.5) { sim.bodies[i].p.borrow_mut().set_linear_velocity(b2v(ctx.rng.f(-2.0, 2.0), 0.0)); }
            }
            _ => {
                let a = if ctx.rng.chance(0.5) { sim.box_body(STATIC, b2v(x, 10.0), 0.0, 0.3, 0.3, &fx) } else { let i = sim.box_body(DYNAMIC, b2v(x, 10.0), 0.0, 0.6, 0.4, &fx); sim.bodies[i].p.borrow_mut().set_linear_velocity(ctx.rng.vec(2.0)); i };
                let t = ctx.rng.angle();
                let b = sim.box_body(DYNAMIC, b2v(x, 10.0) + 1.5 * b2v(t.cos(), t.sin()), ctx.rng.angle(), 0.4, 0.3, &fx);
                let k = *ctx.rng.pick(&[JK::Distance, JK::Friction, JK::Motor, JK::Pulley, JK::Revolute, JK::Prismatic, JK::Weld, JK::Wheel]);
                if let Some(j) = make_joint(&mut sim, &mut ctx.rng, k, a, b) { pairs.push(j); ctx.hit("pair"); }
            }
        }
    }
    if n >= 3 && ctx.rng.chance(0.5) {
        // two wheels on the ground body geared together
        for k in 0..2 {
            let b = sim.box_body(DYNAMIC, b2v(-60.0 + 6.0 * k as f32, 30.0), 0.0, 0.5, 0.5, &fx);
            let mut f = B2revoluteJointDef::default();
            f.base = sim.jbase(B2jointType::ERevoluteJoint, ground, b, false);
            f.initialize(sim.b(ground), sim.b(b), b2v(-60.0 + 6.0 * k as f32, 30.0));
            let w = ctx.rng.f(-3.0, 3.0);
            sim.bodies[b].p.borrow_mut().set_angular_velocity(w);
            sim.joint(B2JointDefEnum::RevoluteJoint(f), JK::Revolute, ground, b, false);
        }
        let ids: Vec<usize> = (0..sim.joints.len()).rev().take(2).collect();
        let (i, j) = (ids[1], ids[0]);
        let (ia, ib) = (sim.index_of(sim.joints[i].b).unwrap(), sim.index_of(sim.joints[j].b).unwrap());
        let mut f = B2gearJointDef::default();
        f.base = sim.jbase(B2jointType::EGearJoint, ia, ib, false);
        f.joint1 = Some(sim.joints[i].p.clone());
        f.joint2 = Some(sim.joints[j].p.clone());
        f.ratio = ctx.rng.sign() * ctx.rng.f(0.5, 2.0);
        sim.joint(B2JointDefEnum::GearJoint(f), JK::Gear, ia, ib, false);
        ctx.hit("gear");
    }
    // keep pulleys and gears at their constants: save before they are used, or after a few steps
    for _ in 0..ctx.rng.int(0, 20) { sim.step(); }
    if sim.wild() { ctx.hit("wild"); return; }
    let fmt = ctx.rng.below(4);
    let loaded = match round(&sim.w, fmt) { Ok(w) => w, Err(e) => { ctx.check(false, || e); return; } };
    let by: HashMap<u32, BodyPtr<UD>> = loaded.borrow().get_body_list().iter().map(|b| { let id = b.borrow().get_user_data().unwrap().id; (id, b.clone()) }).collect();
    for k in 0..3 {
        sim.step();
        loaded.borrow_mut().step(sim.dt, sim.vi, sim.pi);
        // bodies of a pair that bump into each other may do so with swapped roles
        if sim.contacts().iter().any(|c| { let k = contact_key(c.borrow().get_base()); c.borrow().get_base().is_touching() && [k.0, k.2].iter().all(|f| sim.body_of_fixture(*f) != Some(ground)) }) { ctx.hit("bumped"); return; }
        for b in sim.bodies.iter() {
            let y = match by.get(&b.id) { Some(y) => y.borrow(), None => { ctx.fail(format!("body {} is missing", b.id)); return; } };
            let x = b.p.borrow();
            let e = (d(x.get_position()) - d(y.get_position())).len().max((x.get_angle() - y.get_angle()).abs() as f64);
            let f = (d(x.get_linear_velocity()) - d(y.get_linear_velocity())).len().max((x.get_angular_velocity() - y.get_angular_velocity()).abs() as f64);
            ctx.max("position", e);
            ctx.max("velocity", f);
            let s = 1.0 + d(x.get_linear_velocity()).len() + x.get_angular_velocity().abs() as f64;
            ctx.check(e <= 1e-3 * s * (k + 1) as f64 && f <= 0.02 * s * (k + 1) as f64 && x.is_awake() == y.is_awake(), || format!("{} steps after loading ({}) body {} ({:?}) is at {:?} {} moving {:?} {} awake {} instead of {:?} {} {:?} {} {}", k + 1, FORMATS[fmt], b.id, sim.joints.iter().filter(|j| j.a == b.id || j.b == b.id).map(|j| j.kind).collect::<Vec<_>>(), y.get_position(), y.get_angle(), y.get_linear_velocity(), y.get_angular_velocity(), y.is_awake(), x.get_position(), x.get_angle(), x.get_linear_velocity(), x.get_angular_velocity(), x.is_awake()));
        }
        if ctx.failed() { return; }
    }
    ctx.hit("continued");
    let h = sim.state_hash();
    ctx.distinct(h);
}

pub fn props() -> Vec<Property> {
    vec![
        Property {
            id: "C36",
            rule: "a distinct history or twin pair of worlds",
            parts: vec![part("history", 20000, 300000, c36_history), part("others", 30000, 600000, c36_others), part("back", 40000, 800000, c36_back)],
            required: vec![("same_state", 5000), ("disabled", 10000), ("disabled_touching", 500), ("enabled", 5000), ("disabled_solid", 30000), ("disabled_jointed", 10000), ("others", 10000), ("others_jointed", 3000), ("others_in_contact", 1500), ("back", 10000), ("back_jointed", 5000), ("back_touching", 2000), ("born_disabled", 3000)],
            assumptions: "twin worlds are compared over at most a dozen steps",
        },
        Property {
            id: "C37",
            rule: "a distinct final state",
            parts: vec![part("history", 20000, 300000, c37_history), part("bytes", 20000, 300000, c37_bytes), part("cycles", 1000, 20000, c37_cycles), part("large", 4, 40, c37_large)],
            required: vec![("checked", 50000), ("destroyed_body", 5000), ("destroyed_fixture", 5000), ("destroyed_joint", 5000), ("dropped", 10000), ("dropped_gear", 20), ("dropped_joint", 5000), ("dropped_mouse", 1000), ("dropped_with_contacts", 2000), ("world_first", 1000), ("bytes_case", 5000), ("cycles", 500), ("cycled_joint", 3000), ("large", 4)],
            assumptions: "memory is counted at the allocator, per thread",
        },
        Property {
            id: "C38",
            rule: "a distinct destruction",
            parts: vec![part("destroy", 80000, 1500000, c38_case)],
            required: vec![("destroyed", 50000), ("explicit_fixture", 10000), ("explicit_joint", 10000), ("gear_announced", 200), ("partner", 50000), ("with_fixtures", 10000), ("with_many_joints", 10000)],
            assumptions: "",
        },
        Property {
            id: "C39",
            rule: "a distinct saved world",
            parts: vec![part("round", 40000, 600000, c39_round), part("continue", 8000, 100000, c39_continue)],
            required: vec![("JSON", 2000), ("binary", 2000), ("second", 10000), ("continued", 5000), ("gear", 1000), ("pair", 10000), ("Gear", 100), ("Mouse", 1000), ("Distance", 1000), ("Friction", 1000), ("Motor", 1000), ("Pulley", 1000), ("Revolute", 1000), ("Prismatic", 1000), ("Weld", 1000), ("Wheel", 1000), ("Circle", 5000), ("Poly", 5000), ("Edge", 2000), ("OneSided", 1000), ("Chain", 2000), ("Loop", 1000)],
            assumptions: "mouse joints and masses set by hand are not saved",
        },
    ]
}
