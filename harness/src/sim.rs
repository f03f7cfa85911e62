//! A world under observation: handles to everything created in it, an event log, random construction and
//! random operations. All choices come from an `Rng`, so the same generator state drives the same history.
use crate::core::*;
use crate::gen::*;
use crate::geo::*;
pub use box2d_rs::b2_body::*;
pub use box2d_rs::b2_collision::*;
pub use box2d_rs::b2_common::*;
pub use box2d_rs::b2_contact::*;
pub use box2d_rs::b2_fixture::*;
pub use box2d_rs::b2_joint::*;
pub use box2d_rs::b2_math::*;
pub use box2d_rs::b2_shape::*;
pub use box2d_rs::b2_world::*;
pub use box2d_rs::b2_world_callbacks::*;
pub use box2d_rs::b2rs_common::UserDataType;
pub use box2d_rs::joints::b2_distance_joint::*;
pub use box2d_rs::joints::b2_friction_joint::*;
pub use box2d_rs::joints::b2_gear_joint::*;
pub use box2d_rs::joints::b2_motor_joint::*;
pub use box2d_rs::joints::b2_mouse_joint::*;
pub use box2d_rs::joints::b2_prismatic_joint::*;
pub use box2d_rs::joints::b2_pulley_joint::*;
pub use box2d_rs::joints::b2_revolute_joint::*;
pub use box2d_rs::joints::b2_weld_joint::*;
pub use box2d_rs::joints::b2_wheel_joint::*;
use serde::{Deserialize, Deserializer, Serialize, Serializer};
use std::cell::{Cell, RefCell};
use std::rc::Rc;

thread_local! { static TOKENS: Cell<i64> = Cell::new(0); }
pub fn live_tokens() -> i64 {
    TOKENS.with(|t| t.get())
}
/// user data whose live instances are counted
#[derive(Debug, PartialEq)]
pub struct Tok {
    pub id: u32,
}
impl Tok {
    pub fn new(id: u32) -> Tok {
        TOKENS.with(|t| t.set(t.get() + 1));
        Tok { id }
    }
}
impl Default for Tok {
    fn default() -> Tok { Tok::new(0) }
}
impl Clone for Tok {
    fn clone(&self) -> Tok { Tok::new(self.id) }
}
impl Drop for Tok {
    fn drop(&mut self) { TOKENS.with(|t| t.set(t.get() - 1)); }
}
impl Serialize for Tok {
    fn serialize<S: Serializer>(&self, s: S) -> Result<S::Ok, S::Error> { self.id.serialize(s) }
}
impl<'de> Deserialize<'de> for Tok {
    fn deserialize<D: Deserializer<'de>>(d: D) -> Result<Tok, D::Error> { Ok(Tok::new(u32::deserialize(d)?)) }
}
#[derive(Clone, Default, Debug, Serialize, Deserialize, PartialEq)]
pub struct UD;
impl UserDataType for UD {
    type Fixture = Tok;
    type Body = Tok;
    type Joint = Tok;
}

pub type Key = (u32, i32, u32, i32);
pub fn norm_key(k: Key) -> Key {
    if (k.0, k.1) <= (k.2, k.3) { k } else { (k.2, k.3, k.0, k.1) }
}
pub fn fix_id(f: &FixturePtr<UD>) -> u32 {
    f.borrow().get_user_data().map_or(0, |t| t.id)
}
pub fn contact_key(c: &B2contact<UD>) -> Key {
    (fix_id(&c.get_fixture_a()), c.get_child_index_a(), fix_id(&c.get_fixture_b()), c.get_child_index_b())
}

#[derive(Clone, Debug)]
pub struct PreInfo {
    pub touching: bool,
    pub enabled: bool,
    pub sensor: bool,
    pub manifold: B2manifold,
    pub old: B2manifold,
    pub xa: B2Transform,
    pub xb: B2Transform,
}
#[derive(Clone, Debug)]
pub struct PostInfo {
    pub touching: bool,
    pub enabled: bool,
    pub sensor: bool,
    pub count: usize,
    pub points: usize,
    pub normal: Vec<f32>,
    pub tangent: Vec<f32>,
    pub friction: f32,
    pub manifold: B2manifold,
}
#[derive(Clone, Debug)]
pub enum Ev {
    Begin(Key, bool),
    End(Key, bool),
    Pre(Key, PreInfo),
    Post(Key, PostInfo),
}
#[derive(Default)]
pub struct Events {
    pub log: Vec<Ev>,
    /// called in pre-solve after recording; may change the contact
    pub pre_hook: Option<Box<dyn FnMut(&mut B2contact<UD>, Key)>>,
    pub begin_hook: Option<Box<dyn FnMut(&mut B2contact<UD>, Key)>>,
}
impl B2contactListener<UD> for Events {
    fn begin_contact(&mut self, c: &mut dyn B2contactDynTrait<UD>) {
        let k = contact_key(c.get_base());
        self.log.push(Ev::Begin(k, c.get_base().is_touching()));
        if let Some(h) = self.begin_hook.as_mut() { h(c.get_base_mut(), k) }
    }
    fn end_contact(&mut self, c: &mut dyn B2contactDynTrait<UD>) {
        let k = contact_key(c.get_base());
        self.log.push(Ev::End(k, c.get_base().is_touching()));
    }
    fn pre_solve(&mut self, c: &mut dyn B2contactDynTrait<UD>, old: &B2manifold) {
        let k = contact_key(c.get_base());
        {
            let b = c.get_base();
            let (fa, fb) = (b.get_fixture_a(), b.get_fixture_b());
            let sensor = fa.borrow().is_sensor() || fb.borrow().is_sensor();
            let (xa, xb) = (fa.borrow().get_body().borrow().get_transform(), fb.borrow().get_body().borrow().get_transform());
            self.log.push(Ev::Pre(k, PreInfo { touching: b.is_touching(), enabled: b.is_enabled(), sensor, manifold: *b.get_manifold(), old: *old, xa, xb }));
        }
        if let Some(h) = self.pre_hook.as_mut() { h(c.get_base_mut(), k) }
    }
    fn post_solve(&mut self, c: &mut dyn B2contactDynTrait<UD>, i: &B2contactImpulse) {
        let k = contact_key(c.get_base());
        let b = c.get_base();
        let sensor = b.get_fixture_a().borrow().is_sensor() || b.get_fixture_b().borrow().is_sensor();
        let n = i.count as usize;
        self.log.push(Ev::Post(k, PostInfo { touching: b.is_touching(), enabled: b.is_enabled(), sensor, count: n, points: b.get_manifold().point_count as usize, normal: i.normal_impulses[..n].to_vec(), tangent: i.tangent_impulses[..n].to_vec(), friction: b.get_friction(), manifold: *b.get_manifold() }));
    }
}
#[derive(Default)]
pub struct Goodbyes {
    pub joints: Vec<u32>,
    pub fixtures: Vec<u32>,
    pub bad: Vec<String>,
}
impl B2destructionListener<UD> for Goodbyes {
    fn say_goodbye_joint(&mut self, j: B2jointPtr<UD>) {
        let b = j.borrow();
        let id = b.get_base().get_user_data().map_or(0, |t| t.id);
        self.joints.push(id);
        // still usable
        let (a, c) = (b.get_base().get_body_a(), b.get_base().get_body_b());
        let _ = a.borrow().get_position();
        let _ = c.borrow().get_position();
        if !fin(b.get_anchor_a()) || !fin(b.get_anchor_b()) { self.bad.push(format!("joint {} has no anchors when announced", id)); }
    }
    fn say_goodbye_fixture(&mut self, f: FixturePtr<UD>) {
        let b = f.borrow();
        let id = b.get_user_data().map_or(0, |t| t.id);
        self.fixtures.push(id);
        let n = b.get_shape().get_child_count();
        if n == 0 { self.bad.push(format!("fixture {} has no shape when announced", id)); }
        let _ = b.get_body().borrow().get_position();
    }
}

pub struct FH {
    pub id: u32,
    pub p: FixturePtr<UD>,
    pub kind: Kind,
}
pub struct BH {
    pub id: u32,
    pub p: BodyPtr<UD>,
    pub f: Vec<FH>,
    pub jump: f32,
    pub size: f32,
}
#[derive(Clone, Copy, PartialEq, Eq, Debug, Hash, PartialOrd, Ord)]
pub enum JK { Distance, Friction, Gear, Mouse, Motor, Pulley, Revolute, Prismatic, Weld, Wheel }
pub const ALL_JK: [JK; 10] = [JK::Distance, JK::Friction, JK::Gear, JK::Mouse, JK::Motor, JK::Pulley, JK::Revolute, JK::Prismatic, JK::Weld, JK::Wheel];
pub struct JH {
    pub id: u32,
    pub p: B2jointPtr<UD>,
    pub kind: JK,
    pub a: u32,
    pub b: u32,
    /// the joints a gear connects
    pub deps: Vec<u32>,
    pub collide: bool,
}
pub struct Sim {
    pub w: B2worldPtr<UD>,
    pub bodies: Vec<BH>,
    pub joints: Vec<JH>,
    pub next: u32,
    pub ev: Rc<RefCell<Events>>,
    pub bye: Rc<RefCell<Goodbyes>>,
    pub dt: f32,
    pub vi: i32,
    pub pi: i32,
    pub had_rigid: bool,
}
pub const STATIC: B2bodyType = B2bodyType::B2StaticBody;
pub const KINEMATIC: B2bodyType = B2bodyType::B2KinematicBody;
pub const DYNAMIC: B2bodyType = B2bodyType::B2DynamicBody;

#[derive(Clone)]
pub struct Fx {
    pub density: f32,
    pub friction: f32,
    pub restitution: f32,
    pub threshold: f32,
    pub sensor: bool,
    pub filter: B2filter,
}
impl Default for Fx {
    fn default() -> Fx {
        Fx { density: 1.0, friction: 0.2, restitution: 0.0, threshold: 1.0, sensor: false, filter: B2filter::default() }
    }
}
impl Fx {
    pub fn mat(density: f32, friction: f32, restitution: f32) -> Fx {
        Fx { density, friction, restitution, ..Default::default() }
    }
}

impl Sim {
    pub fn new(g: B2vec2) -> Sim {
        let w = B2world::<UD>::new(g);
        let ev = Rc::new(RefCell::new(Events::default()));
        let bye = Rc::new(RefCell::new(Goodbyes::default()));
        w.borrow_mut().set_contact_listener(ev.clone());
        w.borrow_mut().set_destruction_listener(bye.clone());
        Sim { w, bodies: vec![], joints: vec![], next: 1, ev, bye, dt: 1.0 / 60.0, vi: 8, pi: 3, had_rigid: false }
    }
    pub fn id(&mut self) -> u32 {
        self.next += 1;
        self.next - 1
    }
    pub fn def(t: B2bodyType, p: B2vec2, a: f32) -> B2bodyDef<UD> {
        B2bodyDef { body_type: t, position: p, angle: a, ..Default::default() }
    }
    /// returns the index of the new body
    pub fn add(&mut self, mut def: B2bodyDef<UD>) -> usize {
        let id = self.id();
        def.user_data = Some(Tok::new(id));
        let p = B2world::create_body(self.w.clone(), &def);
        self.bodies.push(BH { id, p, f: vec![], jump: 0.0, size: 0.0 });
        self.bodies.len() - 1
    }
    pub fn body(&mut self, t: B2bodyType, p: B2vec2, a: f32) -> usize {
        self.add(Sim::def(t, p, a))
    }
    pub fn fixture(&mut self, b: usize, s: &ShapeDefPtr, kind: Kind, m: &Fx) -> usize {
        let id = self.id();
        let def = B2fixtureDef { shape: Some(s.clone()), user_data: Some(Tok::new(id)), friction: m.friction, restitution: m.restitution, restitution_threshold: m.threshold, density: m.density, is_sensor: m.sensor, filter: m.filter };
        let p = B2body::create_fixture(self.bodies[b].p.clone(), &def);
        let mut x = B2Transform::default();
        x.set_identity();
        for c in 0..s.borrow().get_child_count() {
            let mut bb = B2AABB::default();
            s.borrow().compute_aabb(&mut bb, x, c);
            let r = b2v(bb.lower_bound.x.abs().max(bb.upper_bound.x.abs()), bb.lower_bound.y.abs().max(bb.upper_bound.y.abs())).length();
            if r > self.bodies[b].size { self.bodies[b].size = r; }
        }
        self.bodies[b].f.push(FH { id, p, kind });
        self.bodies[b].f.len() - 1
    }
    pub fn box_body(&mut self, t: B2bodyType, p: B2vec2, a: f32, hx: f32, hy: f32, m: &Fx) -> usize {
        let b = self.body(t, p, a);
        self.fixture(b, &rc(bx(hx, hy)), Kind::Poly, m);
        b
    }
    pub fn ball(&mut self, t: B2bodyType, p: B2vec2, r: f32, m: &Fx) -> usize {
        let b = self.body(t, p, 0.0);
        self.fixture(b, &rc(circle(b2v(0.0, 0.0), r)), Kind::Circle, m);
        b
    }
    pub fn ground(&mut self, y: f32, half: f32, m: &Fx) -> usize {
        let b = self.body(STATIC, b2v(0.0, y - 1.0), 0.0);
        self.fixture(b, &rc(bx(half, 1.0)), Kind::Poly, m);
        b
    }
    pub fn b(&self, i: usize) -> BodyPtr<UD> {
        self.bodies[i].p.clone()
    }
    pub fn step(&mut self) {
        self.step_dt(self.dt);
    }
    pub fn step_dt(&mut self, dt: f32) {
        let was: Vec<(B2vec2, f32)> = self.bodies.iter().map(|b| (b.p.borrow().get_position(), b.p.borrow().get_angle())).collect();
        self.w.borrow_mut().step(dt, self.vi, self.pi);
        for (b, p) in self.bodies.iter_mut().zip(was) {
            let m = (b.p.borrow().get_position() - p.0).length() + b.size * (b.p.borrow().get_angle() - p.1).abs().min(2.0);
            if !(m <= b.jump) { b.jump = m; }
        }
    }
    /// how far a stored box may reach beyond the shape: the margin, and the prediction from the body's largest motion
    pub fn reach(&self, i: usize) -> f64 {
        0.3 + 4.0 * (2.5 + 1.5 * self.bodies[i].jump as f64)
    }
    pub fn take_events(&mut self) -> Vec<Ev> {
        std::mem::take(&mut self.ev.borrow_mut().log)
    }
    pub fn index_of(&self, id: u32) -> Option<usize> {
        self.bodies.iter().position(|b| b.id == id)
    }
    pub fn body_of_fixture(&self, id: u32) -> Option<usize> {
        self.bodies.iter().position(|b| b.f.iter().any(|f| f.id == id))
    }
    pub fn find_fixture(&self, id: u32) -> Option<(usize, usize)> {
        for (i, b) in self.bodies.iter().enumerate() {
            if let Some(j) = b.f.iter().position(|f| f.id == id) { return Some((i, j)); }
        }
        None
    }
    pub fn joint(&mut self, def: B2JointDefEnum<UD>, kind: JK, a: usize, b: usize, collide: bool) -> usize {
        let id = self.next - 1;
        let p = self.w.borrow_mut().create_joint(&def);
        let (a, b) = (self.bodies[a].id, self.bodies[b].id);
        self.had_rigid |= is_rigid(kind);
        self.joints.push(JH { id, p, kind, a, b, deps: vec![], collide });
        self.joints.len() - 1
    }
    pub fn jbase(&mut self, t: B2jointType, a: usize, b: usize, collide: bool) -> B2jointDef<UD> {
        let id = self.id();
        B2jointDef { jtype: t, user_data: Some(Tok::new(id)), body_a: Some(self.b(a)), body_b: Some(self.b(b)), collide_connected: collide }
    }
    pub fn destroy_joint(&mut self, i: usize) {
        let j = self.joints.remove(i);
        self.w.borrow_mut().destroy_joint(j.p.clone());
    }
    /// destroys the body (first, as the API demands, gears hanging on its joints)
    pub fn destroy_body(&mut self, i: usize) {
        self.drop_gears_of_body(i);
        let h = self.bodies.remove(i);
        let id = h.id;
        self.joints.retain(|j| j.a != id && j.b != id);
        self.w.borrow_mut().destroy_body(h.p.clone());
    }
    /// a gear has to go before the joints it uses; one that is on the body itself goes first with it
    pub fn drop_gears_of_body(&mut self, i: usize) {
        let id = self.bodies[i].id;
        let dying: Vec<u32> = self.joints.iter().filter(|j| j.kind != JK::Gear && (j.a == id || j.b == id)).map(|j| j.id).collect();
        while let Some(g) = self.joints.iter().position(|j| j.kind == JK::Gear && j.a != id && j.b != id && j.deps.iter().any(|d| dying.contains(d))) {
            self.destroy_joint(g);
        }
    }
    pub fn destroy_fixture(&mut self, b: usize, f: usize) {
        let h = self.bodies[b].f.remove(f);
        B2body::destroy_fixture(self.bodies[b].p.clone(), h.p.clone());
    }
    pub fn rigid_jointed(&self, id: u32) -> bool {
        self.joints.iter().any(|j| is_rigid(j.kind) && (j.a == id || j.b == id))
    }
    /// would a rigid joint between a and b close a loop (all bodies that are not dynamic count as one)
    pub fn linked(&self, a: u32, b: u32) -> bool {
        let node = |id: u32| -> u32 { match self.index_of(id) { Some(i) if self.bodies[i].p.borrow().get_type() == DYNAMIC => id, _ => 0 } };
        let (a, b) = (node(a), node(b));
        let mut group = vec![a];
        let mut k = 0;
        while k < group.len() {
            let x = group[k];
            if x == b { return true; }
            for j in self.joints.iter().filter(|j| is_rigid(j.kind)) {
                let (p, q) = (node(j.a), node(j.b));
                let o = if p == x { q } else if q == x { p } else { continue };
                if !group.contains(&o) { group.push(o); }
            }
            k += 1;
        }
        false
    }
    pub fn contacts(&self) -> Vec<ContactPtr<UD>> {
        self.w.borrow().get_contact_list().iter().collect()
    }
    pub fn kinetic(&self, g: bool) -> f64 {
        let gr = d(self.w.borrow().get_gravity());
        let mut e = 0.0;
        for h in self.bodies.iter() {
            let b = h.p.borrow();
            if b.get_type() != DYNAMIC { continue; }
            let (m, i) = mass_of(&b);
            let v = d(b.get_linear_velocity());
            let w = b.get_angular_velocity() as f64;
            e += 0.5 * m * v.dot(v) + 0.5 * i * w * w;
            if g { e -= m * gr.dot(d(b.get_world_center())) * b.get_gravity_scale() as f64; }
        }
        e
    }
    /// bit-exact hash of what a user can observe
    pub fn state_hash(&self) -> u64 {
        let mut w: Vec<u64> = vec![];
        for h in self.bodies.iter() {
            let b = h.p.borrow();
            let (p, v) = (b.get_position(), b.get_linear_velocity());
            for x in &[p.x, p.y, b.get_angle(), v.x, v.y, b.get_angular_velocity()] { w.push(x.to_bits() as u64); }
            w.push(b.is_awake() as u64 | (b.is_enabled() as u64) << 1);
        }
        for c in self.contacts() {
            let c = c.borrow();
            let c = c.get_base();
            let k = contact_key(c);
            w.push((k.0 as u64) << 32 | k.2 as u64);
            w.push((k.1 as u64) << 32 | k.3 as u64);
            w.push(c.is_touching() as u64 | (c.is_enabled() as u64) << 1);
            let m = c.get_manifold();
            w.push(m.point_count as u64);
            for i in 0..m.point_count as usize { w.push((m.points[i].normal_impulse.to_bits() as u64) << 32 | m.points[i].tangent_impulse.to_bits() as u64); w.push((m.points[i].local_point.x.to_bits() as u64) << 32 | m.points[i].local_point.y.to_bits() as u64); }
        }
        for j in self.joints.iter() {
            let j = j.p.borrow();
            let f = j.get_reaction_force(60.0);
            w.push((f.x.to_bits() as u64) << 32 | f.y.to_bits() as u64);
            w.push(j.get_reaction_torque(60.0).to_bits() as u64);
        }
        hash_words(&w)
    }
    /// random joints can pull against each other until the state explodes; such a history is of no use
    pub fn wild(&self) -> bool {
        self.had_rigid && self.bodies.iter().any(|b| !(b.jump < 50.0) || !(b.p.borrow().get_position().length() < 1e4))
    }
    pub fn all_finite(&self) -> Result<(), String> {
        for h in self.bodies.iter() {
            let b = h.p.borrow();
            let t = b.get_transform();
            if !fin(b.get_position()) || !b.get_angle().is_finite() || !fin(b.get_linear_velocity()) || !b.get_angular_velocity().is_finite() || !fin(b.get_world_center()) || !t.q.s.is_finite() || !t.q.c.is_finite() || !b.get_mass().is_finite() || !b.get_inertia().is_finite() {
                return Err(format!("body {} is not finite: position {:?} angle {} velocity {:?} {}", h.id, b.get_position(), b.get_angle(), b.get_linear_velocity(), b.get_angular_velocity()));
            }
        }
        for c in self.contacts() {
            let c = c.borrow();
            let m = c.get_base().get_manifold();
            for i in 0..m.point_count as usize {
                if !m.points[i].normal_impulse.is_finite() || !m.points[i].tangent_impulse.is_finite() || !fin(m.points[i].local_point) { return Err("contact impulse not finite".into()); }
            }
        }
        for j in self.joints.iter() {
            let p = j.p.borrow();
            if !fin(p.get_reaction_force(60.0)) || !p.get_reaction_torque(60.0).is_finite() || !fin(p.get_anchor_a()) || !fin(p.get_anchor_b()) { return Err(format!("{:?} joint reaction or anchor not finite", j.kind)); }
        }
        Ok(())
    }
}
/// mass and inertia about the centre of mass; infinite-rotation bodies report 0 inertia
pub fn mass_of(b: &B2body<UD>) -> (f64, f64) {
    let m = b.get_mass() as f64;
    let lc = d(b.get_local_center());
    let i = b.get_inertia() as f64 - m * lc.dot(lc);
    (m, if b.is_fixed_rotation() { 0.0 } else { i.max(0.0) })
}

// ------------------------------------------------------------------------------------------------ random scenes

#[derive(Clone)]
pub struct SceneOpts {
    pub gravity: bool,
    pub bodies: usize,
    pub joints: usize,
    pub joint_kinds: Vec<JK>,
    pub ground: bool,
    pub kinematic: bool,
    pub sensors: bool,
    pub filters: bool,
    pub bullets: bool,
    pub restitution: bool,
    pub damping: bool,
    pub multi: bool,
    pub spread: f32,
    pub speed: f32,
    pub sub_stepping: bool,
}
impl Default for SceneOpts {
    fn default() -> SceneOpts {
        SceneOpts { gravity: true, bodies: 8, joints: 2, joint_kinds: vec![JK::Distance, JK::Friction, JK::Mouse, JK::Motor, JK::Pulley, JK::Revolute, JK::Prismatic, JK::Weld, JK::Wheel], ground: true, kinematic: true, sensors: true, filters: true, bullets: true, restitution: true, damping: true, multi: true, spread: 5.0, speed: 5.0, sub_stepping: true }
    }
}
pub fn rand_filter(rng: &mut Rng) -> B2filter {
    let mut f = B2filter::default();
    match rng.below(5) {
        0 => { f.category_bits = 1 << rng.below(4); f.mask_bits = rng.u32() as u16; }
        1 => f.group_index = rng.int(-3, 3) as i16,
        2 => { f.category_bits = 1 << rng.below(3); f.mask_bits = 7 ^ (1 << rng.below(3)); f.group_index = rng.int(-1, 1) as i16; }
        _ => {}
    }
    f
}
pub fn rand_fx(rng: &mut Rng, o: &SceneOpts) -> Fx {
    Fx {
        density: if rng.chance(0.1) { 0.0 } else { rng.log(0.2, 5.0) },
        friction: if rng.chance(0.2) { 0.0 } else { rng.f(0.0, 1.2) },
        restitution: if o.restitution && rng.chance(0.3) { rng.f(0.0, 1.0) } else { 0.0 },
        threshold: if rng.chance(0.2) { rng.f(0.0, 3.0) } else { 1.0 },
        sensor: o.sensors && rng.chance(0.1),
        filter: if o.filters && rng.chance(0.3) { rand_filter(rng) } else { B2filter::default() },
    }
}
/// a chain of very many short segments
pub fn long_chain(rng: &mut Rng) -> (ShapeDefPtr, Kind) {
    let n = rng.int(40, 200);
    let (mut p, mut a) = (rng.vec(4.0), rng.angle());
    let mut v = vec![p];
    for _ in 1..n {
        a += rng.f(-0.4, 0.4);
        let l = rng.f(0.1, 0.3);
        p = b2v(p.x + l * a.cos(), p.y + l * a.sin());
        v.push(p);
    }
    let mut s = box2d_rs::shapes::b2_chain_shape::B2chainShape::default();
    s.create_chain(&v, v[0] - (v[1] - v[0]), v[v.len() - 1] + (v[v.len() - 1] - v[v.len() - 2]));
    (rc(s), Kind::Chain)
}
pub fn rand_shape(rng: &mut Rng, dynamic: bool) -> (ShapeDefPtr, Kind) {
    if !dynamic && rng.chance(0.03) { return long_chain(rng); }
    let k = if dynamic { if rng.chance(0.9) { solid_kind(rng) } else { *rng.pick(&[Kind::Edge, Kind::Chain]) } } else { kind(rng) };
    let size = if dynamic { rng.log(0.15, 1.2) } else { rng.log(0.3, 4.0) };
    (shape(rng, k, size), k)
}
pub fn rand_body(sim: &mut Sim, rng: &mut Rng, o: &SceneOpts) -> usize {
    let k = rng.below(10);
    let t = if k < 7 { DYNAMIC } else if k < 8 && o.kinematic { KINEMATIC } else if k < 9 { STATIC } else { DYNAMIC };
    let mut def = Sim::def(t, rng.vec(o.spread), rng.angle());
    if t != STATIC && rng.chance(0.6) {
        def.linear_velocity = rng.vec(o.speed);
        def.angular_velocity = rng.f(-3.0, 3.0);
        match rng.below(10) { 0 => def.linear_velocity = B2vec2::zero(), 1 => def.angular_velocity = 0.0, _ => {} }
    }
    if o.damping && rng.chance(0.2) { def.linear_damping = rng.f(0.0, 2.0); def.angular_damping = rng.f(0.0, 2.0); }
    def.fixed_rotation = rng.chance(0.1);
    def.bullet = o.bullets && rng.chance(0.2);
    def.gravity_scale = if rng.chance(0.2) { rng.f(-1.0, 2.0) } else { 1.0 };
    def.allow_sleep = !rng.chance(0.1);
    def.awake = !rng.chance(0.1);
    def.enabled = !rng.chance(0.05);
    let b = sim.add(def);
    let n = if o.multi { *rng.pick(&[0usize, 1, 1, 1, 1, 2, 3]) } else { 1 };
    for _ in 0..n {
        let (s, k) = rand_shape(rng, t == DYNAMIC);
        let m = rand_fx(rng, o);
        sim.fixture(b, &s, k, &m);
    }
    b
}
/// a joint between two distinct bodies of the scene; None if nothing suitable
pub fn rand_joint(sim: &mut Sim, rng: &mut Rng, kinds: &[JK]) -> Option<usize> {
    if sim.bodies.len() < 2 { return None; }
    let a = rng.below(sim.bodies.len());
    let mut b = rng.below(sim.bodies.len() - 1);
    if b >= a { b += 1; }
    let k = *rng.pick(kinds);
    if is_rigid(k) && k != JK::Gear && sim.linked(sim.bodies[a].id, sim.bodies[b].id) { return None; }
    make_joint(sim, rng, k, a, b)
}
/// joints whose error is corrected without a force cap
pub fn is_rigid(k: JK) -> bool {
    !matches!(k, JK::Friction | JK::Mouse | JK::Motor)
}
pub fn make_joint(sim: &mut Sim, rng: &mut Rng, k: JK, a: usize, b: usize) -> Option<usize> {
    let (pa, pb) = (sim.b(a), sim.b(b));
    let (ca, cb) = (pa.borrow().get_position(), pb.borrow().get_position());
    let mid = 0.5 * (ca + cb);
    let anchor = if rng.chance(0.5) { mid } else { cb + rng.vec(0.5) };
    let axis = rng.dir();
    let collide = rng.chance(0.4);
    let (freq, ratio) = (rng.f(0.5, 8.0), rng.f(0.0, 1.0));
    let (mut st, mut da) = (0.0, 0.0);
    Some(match k {
        JK::Distance => {
            let mut f = B2distanceJointDef::default();
            f.base = sim.jbase(B2jointType::EDistanceJoint, a, b, collide);
            let (o1, o2) = (rng.vec(0.3), rng.vec(0.3));
            f.initialize(pa.clone(), pb.clone(), ca + o1, cb + o2);
            match rng.below(4) {
                0 => { b2_linear_stiffness(&mut st, &mut da, freq, ratio, pa, pb); f.stiffness = st; f.damping = da; f.min_length = 0.0; f.max_length = B2_MAX_FLOAT; }
                1 => { f.min_length = 0.5 * f.length; f.max_length = 1.5 * f.length; }
                2 => { b2_linear_stiffness(&mut st, &mut da, freq, ratio, pa, pb); f.stiffness = st; f.damping = da; f.min_length = 0.8 * f.length; f.max_length = 1.2 * f.length; }
                _ => {}
            }
            sim.joint(B2JointDefEnum::DistanceJoint(f), k, a, b, collide)
        }
        JK::Friction => {
            let mut f = B2frictionJointDef::default();
            f.base = sim.jbase(B2jointType::EFrictionJoint, a, b, collide);
            f.initialize(pa, pb, anchor);
            f.max_force = rng.f(0.0, 20.0);
            f.max_torque = rng.f(0.0, 10.0);
            sim.joint(B2JointDefEnum::FrictionJoint(f), k, a, b, collide)
        }
        JK::Mouse => {
            let mut f = B2mouseJointDef::default();
            f.base = sim.jbase(B2jointType::EMouseJoint, a, b, collide);
            f.target = cb;
            f.max_force = rng.f(0.0, 200.0);
            b2_linear_stiffness(&mut st, &mut da, freq, 0.7, pa, pb);
            f.stiffness = st;
            f.damping = da;
            sim.joint(B2JointDefEnum::MouseJoint(f), k, a, b, collide)
        }
        JK::Motor => {
            let mut f = B2motorJointDef::default();
            f.base = sim.jbase(B2jointType::EMotorJoint, a, b, collide);
            f.initialize(pa, pb);
            f.max_force = rng.f(0.0, 100.0);
            f.max_torque = rng.f(0.0, 50.0);
            f.correction_factor = rng.f(0.0, 1.0);
            sim.joint(B2JointDefEnum::MotorJoint(f), k, a, b, collide)
        }
        JK::Pulley => {
            let mut f = B2pulleyJointDef::default();
            f.base = sim.jbase(B2jointType::EPulleyJoint, a, b, collide);
            let up = b2v(0.0, rng.f(2.0, 6.0));
            let (o1, o2) = if rng.chance(0.3) { (B2vec2::zero(), B2vec2::zero()) } else { (rng.vec(0.3), rng.vec(0.3)) };
            f.initialize(pa, pb, ca + up, cb + up, ca + o1, cb + o2, rng.f(0.3, 2.5));
            sim.joint(B2JointDefEnum::PulleyJoint(f), k, a, b, collide)
        }
        JK::Revolute => {
            let mut f = B2revoluteJointDef::default();
            f.base = sim.jbase(B2jointType::ERevoluteJoint, a, b, collide);
            f.initialize(pa, pb, anchor);
            f.enable_limit = rng.chance(0.4);
            f.lower_angle = -rng.f(0.0, 1.5);
            f.upper_angle = if rng.chance(0.1) { f.lower_angle } else { rng.f(0.0, 1.5) };
            f.enable_motor = rng.chance(0.4);
            f.motor_speed = rng.f(-5.0, 5.0);
            f.max_motor_torque = rng.f(0.0, 50.0);
            sim.joint(B2JointDefEnum::RevoluteJoint(f), k, a, b, collide)
        }
        JK::Prismatic => {
            let mut f = B2prismaticJointDef::default();
            f.base = sim.jbase(B2jointType::EPrismaticJoint, a, b, collide);
            f.initialize(pa, pb, anchor, axis);
            f.enable_limit = rng.chance(0.4);
            f.lower_translation = -rng.f(0.0, 2.0);
            f.upper_translation = rng.f(0.0, 2.0);
            f.enable_motor = rng.chance(0.4);
            f.motor_speed = rng.f(-5.0, 5.0);
            f.max_motor_force = rng.f(0.0, 50.0);
            sim.joint(B2JointDefEnum::PrismaticJoint(f), k, a, b, collide)
        }
        JK::Weld => {
            let mut f = B2weldJointDef::default();
            f.base = sim.jbase(B2jointType::EWeldJoint, a, b, collide);
            f.initialize(pa.clone(), pb.clone(), anchor);
            if rng.chance(0.4) { b2_angular_stiffness(&mut st, &mut da, freq, ratio, pa, pb); f.stiffness = st; f.damping = da; }
            sim.joint(B2JointDefEnum::WeldJoint(f), k, a, b, collide)
        }
        JK::Wheel => {
            let mut f = B2wheelJointDef::default();
            f.base = sim.jbase(B2jointType::EWheelJoint, a, b, collide);
            f.initialize(pa.clone(), pb.clone(), anchor, axis);
            if rng.chance(0.7) { b2_linear_stiffness(&mut st, &mut da, freq, ratio, pa, pb); f.stiffness = st; f.damping = da; }
            f.enable_limit = rng.chance(0.4);
            f.lower_translation = -rng.f(0.0, 1.0);
            f.upper_translation = rng.f(0.0, 1.0);
            f.enable_motor = rng.chance(0.4);
            f.motor_speed = rng.f(-5.0, 5.0);
            f.max_motor_torque = rng.f(0.0, 50.0);
            sim.joint(B2JointDefEnum::WheelJoint(f), k, a, b, collide)
        }
        JK::Gear => {
            // needs two revolute or prismatic joints
            let c: Vec<usize> = (0..sim.joints.len()).filter(|i| matches!(sim.joints[*i].kind, JK::Revolute | JK::Prismatic) && sim.joints[*i].p.borrow().get_base().get_body_b().borrow().get_type() == DYNAMIC).collect();
            if c.len() < 2 { return None; }
            let i = c[rng.below(c.len())];
            let j = c[rng.below(c.len())];
            if i == j { return None; }
            let (ia, ib) = (sim.index_of(sim.joints[i].b)?, sim.index_of(sim.joints[j].b)?);
            if ia == ib { return None; }
            let mut f = B2gearJointDef::default();
            f.base = sim.jbase(B2jointType::EGearJoint, ia, ib, collide);
            f.joint1 = Some(sim.joints[i].p.clone());
            f.joint2 = Some(sim.joints[j].p.clone());
            f.ratio = rng.sign() * rng.f(0.3, 3.0);
            let deps = vec![sim.joints[i].id, sim.joints[j].id];
            let n = sim.joint(B2JointDefEnum::GearJoint(f), k, ia, ib, collide);
            sim.joints[n].deps = deps;
            n
        }
    })
}
pub fn rand_scene(rng: &mut Rng, o: &SceneOpts) -> Sim {
    let g = if o.gravity { if rng.chance(0.8) { b2v(0.0, -10.0) } else { rng.vec(10.0) } } else { b2v(0.0, 0.0) };
    let mut sim = Sim::new(g);
    if o.ground {
        let m = Fx::mat(0.0, rng.f(0.0, 1.0), 0.0);
        let b = sim.body(STATIC, b2v(0.0, -o.spread - 1.0), 0.0);
        match rng.below(3) {
            0 => { sim.fixture(b, &rc(bx(o.spread * 3.0, 1.0)), Kind::Poly, &m); }
            1 => { sim.fixture(b, &rc(edge2(b2v(-o.spread * 3.0, 0.0), b2v(o.spread * 3.0, 0.0))), Kind::Edge, &m); }
            _ => {
                let mut c = box2d_rs::shapes::b2_chain_shape::B2chainShape::default();
                let n = rng.int(3, 9);
                let mut p = vec![];
                for i in 0..n { let x = o.spread * 3.0 * (1.0 - 2.0 * i as f32 / (n - 1) as f32); p.push(b2v(x, rng.f(-0.5, 0.5))); }
                let (a, z) = (p[0] + b2v(1.0, 0.0), p[p.len() - 1] - b2v(1.0, 0.0));
                c.create_chain(&p, a, z);
                sim.fixture(b, &rc(c), Kind::Chain, &m);
            }
        }
    }
    for _ in 0..o.bodies { rand_body(&mut sim, rng, o); }
    for _ in 0..o.joints { rand_joint(&mut sim, rng, &o.joint_kinds); }
    sim
}

// ------------------------------------------------------------------------------------------------ random operations

/// one random valid call (or small group of calls); returns its name
pub fn rand_op(sim: &mut Sim, rng: &mut Rng, o: &SceneOpts) -> &'static str {
    let nb = sim.bodies.len();
    let k = rng.below(100);
    if nb == 0 || (k < 8 && nb < o.bodies * 2) { rand_body(sim, rng, o); return "create body"; }
    let i = rng.below(nb);
    let p = sim.b(i);
    match k {
        8..=12 => {
            let t = p.borrow().get_type();
            let (s, kd) = rand_shape(rng, t == DYNAMIC);
            let m = rand_fx(rng, o);
            sim.fixture(i, &s, kd, &m);
            "create fixture"
        }
        13..=16 => {
            if sim.bodies[i].f.is_empty() { return "nothing"; }
            let j = rng.below(sim.bodies[i].f.len());
            sim.destroy_fixture(i, j);
            "destroy fixture"
        }
        17..=20 => { if nb > 2 { sim.destroy_body(i); "destroy body" } else { "nothing" } }
        21..=26 => {
            if sim.joints.len() > nb { return "nothing"; }
            let kinds = if rng.chance(0.2) { vec![JK::Gear] } else { o.joint_kinds.clone() };
            match rand_joint(sim, rng, &kinds) { Some(_) => "create joint", None => "nothing" }
        }
        27..=30 => {
            if sim.joints.is_empty() { return "nothing"; }
            let j = rng.below(sim.joints.len());
            let id = sim.joints[j].id;
            while let Some(g) = sim.joints.iter().position(|x| x.deps.contains(&id)) { sim.destroy_joint(g); }
            let j = sim.joints.iter().position(|x| x.id == id).unwrap();
            sim.destroy_joint(j);
            "destroy joint"
        }
        31..=33 => { let mut t = *rng.pick(&[STATIC, KINEMATIC, DYNAMIC, DYNAMIC]); if sim.rigid_jointed(sim.bodies[i].id) { t = DYNAMIC; } B2body::set_type(p, t); "set type" }
        34..=37 => { let e = rng.chance(0.6); B2body::set_enabled(p, e); "set enabled" }
        38..=41 => { let (mut x, mut a) = (rng.vec(o.spread), rng.angle()); if sim.rigid_jointed(sim.bodies[i].id) { x = p.borrow().get_position() + (0.05 / o.spread) * x; a = p.borrow().get_angle() + 0.05 * a; } p.borrow_mut().set_transform(x, a); "set transform" }
        42..=44 => { let (v, w) = (rng.vec(o.speed), rng.f(-5.0, 5.0)); p.borrow_mut().set_linear_velocity(v); p.borrow_mut().set_angular_velocity(w); "set velocity" }
        45..=47 => { let (f, at, wk) = (rng.vec(30.0), rng.vec(0.5), rng.chance(0.8)); let at = p.borrow().get_position() + at; p.borrow_mut().apply_force(f, at, wk); "apply force" }
        48..=50 => { let (f, at, wk) = (rng.vec(3.0), rng.vec(0.5), rng.chance(0.8)); let at = p.borrow().get_position() + at; p.borrow_mut().apply_linear_impulse(f, at, wk); "apply impulse" }
        51 => { p.borrow_mut().apply_angular_impulse(rng.f(-1.0, 1.0), true); "angular impulse" }
        52..=53 => { let a = rng.chance(0.5); p.borrow_mut().set_awake(a); "set awake" }
        54 => { let a = rng.chance(0.7); p.borrow_mut().set_sleeping_allowed(a); "set sleeping allowed" }
        55 => { let a = rng.chance(0.5); p.borrow_mut().set_bullet(a); "set bullet" }
        56 => { let a = rng.chance(0.3); p.borrow_mut().set_fixed_rotation(a); "set fixed rotation" }
        57..=59 => {
            if sim.bodies[i].f.is_empty() { return "nothing"; }
            let j = rng.below(sim.bodies[i].f.len());
            let f = rand_filter(rng);
            let fp = sim.bodies[i].f[j].p.clone();
            fp.borrow_mut().set_filter_data(f);
            "set filter"
        }
        60..=61 => {
            if sim.bodies[i].f.is_empty() { return "nothing"; }
            let j = rng.below(sim.bodies[i].f.len());
            let s = rng.chance(0.4);
            sim.bodies[i].f[j].p.borrow_mut().set_sensor(s);
            "set sensor"
        }
        62 => {
            if sim.bodies[i].f.is_empty() { return "nothing"; }
            let j = rng.below(sim.bodies[i].f.len());
            let fp = sim.bodies[i].f[j].p.clone();
            fp.borrow_mut().set_density(rng.f(0.0, 4.0));
            fp.borrow_mut().set_friction(rng.f(0.0, 1.0));
            fp.borrow_mut().set_restitution(rng.f(0.0, 1.0));
            p.borrow_mut().reset_mass_data();
            "set material"
        }
        63 => { let g = if rng.chance(0.5) { b2v(0.0, -10.0) } else { rng.vec(10.0) }; if o.gravity { sim.w.borrow_mut().set_gravity(g); } "set gravity" }
        64 => { let q = rng.vec(3.0); sim.w.borrow().shift_origin(q); "shift origin" }
        65 => {
            let mut w = sim.w.borrow_mut();
            match rng.below(5) { 0 => w.set_warm_starting(rng.chance(0.7)), 1 => w.set_continuous_physics(rng.chance(0.7)), 2 => { let s = rng.chance(0.2); if o.sub_stepping { w.set_sub_stepping(s) } } 3 => w.set_allow_sleeping(rng.chance(0.7)), _ => w.set_auto_clear_forces(rng.chance(0.8)) }
            "world flag"
        }
        66..=69 => { if sim.joints.is_empty() { return "nothing"; } let j = rng.below(sim.joints.len()); tweak_joint(sim, rng, j); "change joint" }
        70 => { sim.w.borrow_mut().clear_forces(); "clear forces" }
        71..=72 => {
            if sim.bodies[i].f.is_empty() { return "nothing"; }
            let j = rng.below(sim.bodies[i].f.len());
            let fp = sim.bodies[i].f[j].p.clone();
            fp.borrow_mut().refilter();
            "refilter"
        }
        73..=74 => {
            let (l, h) = (rng.vec(o.spread), rng.vec(o.spread));
            let q = B2AABB { lower_bound: b2v(l.x.min(h.x), l.y.min(h.y)), upper_bound: b2v(l.x.max(h.x), l.y.max(h.y)) };
            let mut n = 0;
            sim.w.borrow().query_aabb(|_| { n += 1; true }, q);
            "query"
        }
        75..=76 => {
            let (a, b) = (rng.vec(o.spread), rng.vec(o.spread));
            if (a - b).length() > 0.01 { let mut c = 1.0f32; sim.w.borrow().ray_cast(|_, _, _, f| { c = c.min(f); f }, a, b); }
            "ray cast"
        }
        77 => {
            let mut md = B2massData::default();
            p.borrow().get_mass_data(&mut md);
            md.mass = rng.f(0.1, 5.0);
            md.i = md.mass * (0.1 + md.center.length_squared() * 1.5);
            p.borrow_mut().set_mass_data(&md);
            "set mass data"
        }
        78 => { p.borrow_mut().set_gravity_scale(rng.f(-1.0, 2.0)); p.borrow_mut().set_linear_damping(rng.f(0.0, 1.0)); p.borrow_mut().set_angular_damping(rng.f(0.0, 1.0)); "set damping" }
        79 => { sim.step_dt(0.0); "zero step" }
        80..=82 => { let dt = *rng.pick(&[1.0f32 / 30.0, 1.0 / 120.0, 1.0 / 240.0]); sim.step_dt(dt); "odd step" }
        _ => { sim.step(); "step" }
    }
}
pub fn tweak_joint(sim: &mut Sim, rng: &mut Rng, j: usize) {
    let jp = sim.joints[j].p.clone();
    let mut jb = jp.borrow_mut();
    let (x, y) = (rng.f(0.0, 1.0), rng.f(0.0, 1.0));
    let s = rng.f(-4.0, 4.0);
    let f = rng.chance(0.5);
    let which = rng.below(4);
    match jb.as_derived_mut() {
        JointAsDerivedMut::EDistanceJoint(q) => match which {
            0 => { q.set_length(0.2 + 3.0 * x); }
            1 => { q.set_min_length(x); }
            2 => { q.set_max_length(1.0 + 3.0 * y); }
            _ => { q.set_stiffness(20.0 * x); q.set_damping(y); }
        },
        JointAsDerivedMut::EFrictionJoint(q) => { q.set_max_force(20.0 * x); q.set_max_torque(10.0 * y); }
        JointAsDerivedMut::EGearJoint(q) => q.set_ratio(0.3 + 2.0 * x),
        JointAsDerivedMut::EMouseJoint(q) => { let t = q.get_target(); q.set_target(t + b2v(x - 0.5, y - 0.5)); q.set_max_force(100.0 * x); }
        JointAsDerivedMut::EMotorJoint(q) => { q.set_linear_offset(b2v(x, y)); q.set_angular_offset(s); q.set_max_force(50.0 * x); q.set_max_torque(20.0 * y); q.set_correction_factor(x); }
        JointAsDerivedMut::EPrismaticJoint(q) => match which { 0 => q.set_limits(-x, y), 1 => q.enable_limit(f), 2 => q.enable_motor(f), _ => { q.set_motor_speed(s); q.set_max_motor_force(50.0 * x) } },
        JointAsDerivedMut::EPulleyJoint(_) => {}
        JointAsDerivedMut::ERevoluteJoint(q) => match which { 0 => q.set_limits(-x, y), 1 => q.enable_limit(f), 2 => q.enable_motor(f), _ => { q.set_motor_speed(s); q.set_max_motor_torque(50.0 * x) } },
        JointAsDerivedMut::EWeldJoint(q) => { q.set_stiffness(20.0 * x); q.set_damping(y); }
        JointAsDerivedMut::EWheelJoint(q) => match which { 0 => q.set_limits(-x, y), 1 => q.enable_limit(f), 2 => q.enable_motor(f), _ => { q.set_motor_speed(s); q.set_max_motor_torque(50.0 * x); q.set_stiffness(20.0 * y); } },
    }
}
