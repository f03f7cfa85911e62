//! What the public getters say about an object, as named numbers that can be compared.
use crate::sim::*;
use box2d_rs::shapes::b2rs_to_derived_shape::ShapeAsDerived;

pub type Vals = Vec<(&'static str, f64)>;
fn pt(v: &mut Vals, name: &'static str, p: B2vec2) {
    v.push((name, p.x as f64));
    v.push((name, p.y as f64));
}
fn fl(b: bool) -> f64 {
    if b { 1.0 } else { 0.0 }
}
pub fn shape_vals(s: &dyn B2shapeDynTrait) -> Vals {
    let mut v: Vals = vec![("shape type", s.get_type() as i32 as f64), ("children", s.get_child_count() as f64)];
    match s.as_derived() {
        ShapeAsDerived::AsCircle(c) => {
            v.push(("radius", c.base.m_radius as f64));
            pt(&mut v, "centre", c.m_p);
        }
        ShapeAsDerived::AsEdge(e) => {
            v.push(("radius", e.base.m_radius as f64));
            pt(&mut v, "first end", e.m_vertex1);
            pt(&mut v, "second end", e.m_vertex2);
            v.push(("one-sided", fl(e.m_one_sided)));
            if e.m_one_sided { pt(&mut v, "ghost before", e.m_vertex0); pt(&mut v, "ghost after", e.m_vertex3); }
        }
        ShapeAsDerived::AsPolygon(p) => {
            v.push(("radius", p.base.m_radius as f64));
            v.push(("vertices", p.m_count as f64));
            pt(&mut v, "centroid", p.m_centroid);
            for i in 0..p.m_count { pt(&mut v, "vertex", p.m_vertices[i]); pt(&mut v, "normal", p.m_normals[i]); }
        }
        ShapeAsDerived::AsChain(c) => {
            v.push(("radius", c.base.m_radius as f64));
            v.push(("vertices", c.m_vertices.len() as f64));
            for q in c.m_vertices.iter() { pt(&mut v, "vertex", *q); }
            pt(&mut v, "ghost before", c.m_prev_vertex);
            pt(&mut v, "ghost after", c.m_next_vertex);
        }
    }
    v
}
pub fn fixture_vals(f: &B2fixture<UD>) -> Vals {
    let q = f.get_filter_data();
    let mut v: Vals = vec![
        ("user data", f.get_user_data().map_or(-1.0, |t| t.id as f64)),
        ("fixture type", f.get_type() as i32 as f64),
        ("friction", f.get_friction() as f64),
        ("restitution", f.get_restitution() as f64),
        ("restitution threshold", f.get_restitution_threshold() as f64),
        ("density", f.get_density() as f64),
        ("sensor", fl(f.is_sensor())),
        ("category", q.category_bits as f64),
        ("mask", q.mask_bits as f64),
        ("group", q.group_index as f64),
    ];
    v.extend(shape_vals(&*f.get_shape()));
    v
}
/// everything but the mass
pub fn body_vals(b: &B2body<UD>) -> Vals {
    let mut v: Vals = vec![
        ("user data", b.get_user_data().map_or(-1.0, |t| t.id as f64)),
        ("type", b.get_type() as i32 as f64),
        ("angle", b.get_angle() as f64),
        ("angular velocity", b.get_angular_velocity() as f64),
        ("linear damping", b.get_linear_damping() as f64),
        ("angular damping", b.get_angular_damping() as f64),
        ("gravity scale", b.get_gravity_scale() as f64),
        ("sleeping allowed", fl(b.is_sleeping_allowed())),
        ("awake", fl(b.is_awake())),
        ("fixed rotation", fl(b.is_fixed_rotation())),
        ("bullet", fl(b.is_bullet())),
        ("enabled", fl(b.is_enabled())),
        ("fixtures", b.get_fixture_list().iter().count() as f64),
    ];
    pt(&mut v, "position", b.get_position());
    pt(&mut v, "velocity", b.get_linear_velocity());
    let x = b.get_transform();
    pt(&mut v, "transform", x.p);
    v.push(("sine", x.q.s as f64));
    v.push(("cosine", x.q.c as f64));
    v
}
pub fn mass_vals(b: &B2body<UD>) -> Vals {
    let mut md = B2massData::default();
    b.get_mass_data(&mut md);
    let mut v: Vals = vec![("mass", b.get_mass() as f64), ("inertia", b.get_inertia() as f64), ("mass data mass", md.mass as f64), ("mass data inertia", md.i as f64)];
    pt(&mut v, "local centre", b.get_local_center());
    pt(&mut v, "world centre", b.get_world_center());
    pt(&mut v, "mass data centre", md.center);
    v
}
fn id_of(b: &BodyPtr<UD>) -> f64 {
    b.borrow().get_user_data().map_or(-1.0, |t| t.id as f64)
}
fn jid(j: &B2jointPtr<UD>) -> f64 {
    j.borrow().get_base().get_user_data().map_or(-1.0, |t| t.id as f64)
}
/// the parameters a joint was made with or set to; nothing that depends on where the bodies are
pub fn joint_vals(j: &dyn B2jointTraitDyn<UD>) -> Vals {
    let b = j.get_base();
    let mut v: Vals = vec![
        ("user data", b.get_user_data().map_or(-1.0, |t| t.id as f64)),
        ("joint type", b.get_type() as i32 as f64),
        ("first body", id_of(&b.get_body_a())),
        ("second body", id_of(&b.get_body_b())),
        ("collide connected", fl(b.get_collide_connected())),
    ];
    match j.as_derived() {
        JointAsDerived::EDistanceJoint(q) => {
            pt(&mut v, "anchor a", q.get_local_anchor_a());
            pt(&mut v, "anchor b", q.get_local_anchor_b());
            v.extend(vec![("length", q.get_length() as f64), ("min length", q.get_min_length() as f64), ("max length", q.get_max_length() as f64), ("stiffness", q.get_stiffness() as f64), ("damping", q.get_damping() as f64)]);
        }
        JointAsDerived::EFrictionJoint(q) => {
            pt(&mut v, "anchor a", q.get_local_anchor_a());
            pt(&mut v, "anchor b", q.get_local_anchor_b());
            v.extend(vec![("max force", q.get_max_force() as f64), ("max torque", q.get_max_torque() as f64)]);
        }
        JointAsDerived::EGearJoint(q) => v.extend(vec![("joint 1", jid(&q.get_joint1())), ("joint 2", jid(&q.get_joint2())), ("ratio", q.get_ratio() as f64)]),
        JointAsDerived::EMouseJoint(q) => {
            pt(&mut v, "target", q.get_target());
            v.extend(vec![("max force", q.get_max_force() as f64), ("stiffness", q.get_stiffness() as f64), ("damping", q.get_damping() as f64)]);
        }
        JointAsDerived::EMotorJoint(q) => {
            pt(&mut v, "linear offset", q.get_linear_offset());
            v.extend(vec![("angular offset", q.get_angular_offset() as f64), ("max force", q.get_max_force() as f64), ("max torque", q.get_max_torque() as f64), ("correction factor", q.get_correction_factor() as f64)]);
        }
        JointAsDerived::EPulleyJoint(q) => {
            pt(&mut v, "ground anchor a", q.get_ground_anchor_a());
            pt(&mut v, "ground anchor b", q.get_ground_anchor_b());
            v.extend(vec![("length a", q.get_length_a() as f64), ("length b", q.get_length_b() as f64), ("ratio", q.get_ratio() as f64)]);
        }
        JointAsDerived::ERevoluteJoint(q) => {
            pt(&mut v, "anchor a", q.get_local_anchor_a());
            pt(&mut v, "anchor b", q.get_local_anchor_b());
            v.extend(vec![("reference angle", q.get_reference_angle() as f64), ("limit enabled", fl(q.is_limit_enabled())), ("lower", q.get_lower_limit() as f64), ("upper", q.get_upper_limit() as f64), ("motor enabled", fl(q.is_motor_enabled())), ("motor speed", q.get_motor_speed() as f64), ("max motor", q.get_max_motor_torque() as f64)]);
        }
        JointAsDerived::EPrismaticJoint(q) => {
            pt(&mut v, "anchor a", q.get_local_anchor_a());
            pt(&mut v, "anchor b", q.get_local_anchor_b());
            pt(&mut v, "axis", q.get_local_axis_a());
            v.extend(vec![("reference angle", q.get_reference_angle() as f64), ("limit enabled", fl(q.is_limit_enabled())), ("lower", q.get_lower_limit() as f64), ("upper", q.get_upper_limit() as f64), ("motor enabled", fl(q.is_motor_enabled())), ("motor speed", q.get_motor_speed() as f64), ("max motor", q.get_max_motor_force() as f64)]);
        }
        JointAsDerived::EWeldJoint(q) => {
            pt(&mut v, "anchor a", q.get_local_anchor_a());
            pt(&mut v, "anchor b", q.get_local_anchor_b());
            v.extend(vec![("reference angle", q.get_reference_angle() as f64), ("stiffness", q.get_stiffness() as f64), ("damping", q.get_damping() as f64)]);
        }
        JointAsDerived::EWheelJoint(q) => {
            pt(&mut v, "anchor a", q.get_local_anchor_a());
            pt(&mut v, "anchor b", q.get_local_anchor_b());
            pt(&mut v, "axis", q.get_local_axis_a());
            v.extend(vec![("limit enabled", fl(q.is_limit_enabled())), ("lower", q.get_lower_limit() as f64), ("upper", q.get_upper_limit() as f64), ("motor enabled", fl(q.is_motor_enabled())), ("motor speed", q.get_motor_speed() as f64), ("max motor", q.get_max_motor_torque() as f64), ("stiffness", q.get_stiffness() as f64), ("damping", q.get_damping() as f64)]);
        }
    }
    v
}
/// first difference beyond a relative tolerance
pub fn differ(a: &Vals, b: &Vals, rel: f64) -> Option<String> {
    if a.len() != b.len() { return Some(format!("{} values against {}: {:?} against {:?}", a.len(), b.len(), a.iter().take(4).collect::<Vec<_>>(), b.iter().take(4).collect::<Vec<_>>())); }
    for (x, y) in a.iter().zip(b.iter()) {
        if x.0 != y.0 { return Some(format!("{} against {}", x.0, y.0)); }
        if x.1 == y.1 || (x.1.is_nan() && y.1.is_nan()) { continue; }
        if !((x.1 - y.1).abs() <= rel * (1.0 + x.1.abs().min(y.1.abs()))) { return Some(format!("{} is {} against {}", x.0, x.1, y.1)); }
    }
    None
}
