From c185b297dbdd7bf794094cf3ce5dc3c37b4c0e94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:16:02 +0000
Subject: [PATCH 01/30] fix: polygon ray cast misses surfaces within the first
 3.2% of the ray

---
 src/private/collision/b2_polygon_shape.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/private/collision/b2_polygon_shape.rs b/src/private/collision/b2_polygon_shape.rs
index 5b28678..979ca69 100644
--- a/src/private/collision/b2_polygon_shape.rs
+++ b/src/private/collision/b2_polygon_shape.rs
@@ -237,7 +237,7 @@ pub fn b2_shape_dyn_trait_ray_cast(
 	let p2: B2vec2 = b2_mul_t_rot_by_vec2(xf.q, input.p2 - xf.p);
 	let d: B2vec2 = p2 - p1;
 
-	let (mut lower, mut upper) = (0.032, input.max_fraction);
+	let (mut lower, mut upper) = (0.0, input.max_fraction);
 
 	let mut index: i32 = -1;
 
-- 
2.43.0


From dc44d9247fabab5a9472891390299f30a6de211b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:16:12 +0000
Subject: [PATCH 02/30] fix: b2_clamp_vec2 ignores the upper bound

---
 src/b2_math.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/b2_math.rs b/src/b2_math.rs
index 92454c3..e4c396c 100644
--- a/src/b2_math.rs
+++ b/src/b2_math.rs
@@ -731,7 +731,7 @@ where
 }
 
 pub fn b2_clamp_vec2(a: B2vec2, low: B2vec2, high: B2vec2) -> B2vec2 {
-    return b2_max_vec2(low, b2_max_vec2(a, high));
+    return b2_max_vec2(low, b2_min_vec2(a, high));
 }
 
 pub fn b2_swap<T: Clone>(a: &mut T, b: &mut T) {
-- 
2.43.0


From c37dfe5d11f0ec24cb70f8e7054ab5a7eb9295e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:16:29 +0000
Subject: [PATCH 03/30] fix: set_enabled with the current state must be a no-op

---
 src/private/dynamics/b2_body.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/private/dynamics/b2_body.rs b/src/private/dynamics/b2_body.rs
index 27ea53b..3bbf151 100644
--- a/src/private/dynamics/b2_body.rs
+++ b/src/private/dynamics/b2_body.rs
@@ -493,6 +493,10 @@ pub fn set_enabled<D: UserDataType>(self_: BodyPtr<D>, flag: bool) {
 			return;
 		}
 
+		if flag == self_.is_enabled() {
+			return;
+		}
+
 		self_.m_flags.set(BodyFlags::E_ENABLED_FLAG, flag);
 		m_fixture_list = self_.m_fixture_list.clone();
 		m_xf = self_.m_xf;
-- 
2.43.0


From c69bf4de525d6f3914fb3363e171beddcad5625d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:16:29 +0000
Subject: [PATCH 04/30] fix: refilter panics when the fixture has contacts

---
 src/private/dynamics/b2_fixture.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/private/dynamics/b2_fixture.rs b/src/private/dynamics/b2_fixture.rs
index 6c118cf..60778d4 100644
--- a/src/private/dynamics/b2_fixture.rs
+++ b/src/private/dynamics/b2_fixture.rs
@@ -193,7 +193,7 @@ pub fn b2_fixture_refilter<T:UserDataType>(self_: &mut B2fixture<T>) {
 		let mut contact = contact.borrow_mut();
 		let fixture_a = contact.get_base().get_fixture_a();
 		let fixture_b = contact.get_base().get_fixture_b();
-		if ptr::eq(&*fixture_a.borrow(),self_) || ptr::eq(&*fixture_b.borrow(),self_)
+		if ptr::eq(fixture_a.as_ptr(),self_) || ptr::eq(fixture_b.as_ptr(),self_)
 		{
 			contact.get_base_mut().flag_for_filtering();
 		}
-- 
2.43.0


From 42a76b94f8932ff4a907ca9519d83fda88c4ef51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:17:15 +0000
Subject: [PATCH 05/30] fix: overlapping shape pairs without a contact type
 panic instead of being ignored

---
 src/b2_contact.rs                          | 2 +-
 src/private/dynamics/b2_contact.rs         | 9 +++++----
 src/private/dynamics/b2_contact_manager.rs | 5 ++++-
 3 files changed, 10 insertions(+), 6 deletions(-)

diff --git a/src/b2_contact.rs b/src/b2_contact.rs
index bbca868..1d4f7f2 100644
--- a/src/b2_contact.rs
+++ b/src/b2_contact.rs
@@ -259,7 +259,7 @@ impl<D: UserDataType> B2contact<D> {
 		index_a: i32,
 		fixture_b: FixturePtr<D>,
 		index_b: i32,
-	) -> ContactPtr<D> {
+	) -> Option<ContactPtr<D>> {
 		return private::b2_contact_create(contact_manager, fixture_a, index_a, fixture_b, index_b);
 	}
 	pub(crate) fn destroy(self_: &dyn B2contactDynTrait<D>) {
diff --git a/src/private/dynamics/b2_contact.rs b/src/private/dynamics/b2_contact.rs
index 2a52dc7..bb26a22 100644
--- a/src/private/dynamics/b2_contact.rs
+++ b/src/private/dynamics/b2_contact.rs
@@ -14,19 +14,20 @@ pub fn b2_contact_create<D: UserDataType>(
 	index_a: i32,
 	fixture_b: FixturePtr<D>,
 	index_b: i32,
-) -> ContactPtr<D> {
+) -> Option<ContactPtr<D>> {
 
 	let type1: B2ShapeType = fixture_a.borrow().get_type();
 	let type2: B2ShapeType = fixture_b.borrow().get_type();
 
 	let s_register = &contact_manager.m_registers.s_registers[type1 as usize][type2 as usize];
 
-	let create_fcn = s_register.create_fcn.unwrap();
+	// Some shape pairs (e.g. edge against edge) have no contact type.
+	let create_fcn = s_register.create_fcn?;
 
 	if s_register.primary {
-		return create_fcn(fixture_a, index_a, fixture_b, index_b);
+		return Some(create_fcn(fixture_a, index_a, fixture_b, index_b));
 	} else {
-		return create_fcn(fixture_b, index_b, fixture_a, index_a);
+		return Some(create_fcn(fixture_b, index_b, fixture_a, index_a));
 	}
 }
 
diff --git a/src/private/dynamics/b2_contact_manager.rs b/src/private/dynamics/b2_contact_manager.rs
index d9485ef..0b9e941 100644
--- a/src/private/dynamics/b2_contact_manager.rs
+++ b/src/private/dynamics/b2_contact_manager.rs
@@ -253,7 +253,10 @@ pub fn b2_contact_manager_add_pair<D: UserDataType>(
 	}
 
 	// Call the factory.
-	let c = B2contact::create(&*self_, fixture_a, index_a, fixture_b, index_b);
+	let c = match B2contact::create(&*self_, fixture_a, index_a, fixture_b, index_b) {
+		Some(c) => c,
+		None => return,
+	};
 
 	// Contact creation may swap fixtures.
 	let fixture_a = c.borrow().get_base().get_fixture_a();
-- 
2.43.0


From 6bcdcb48f63b24ed9159318a4876c303bc7febec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:17:20 +0000
Subject: [PATCH 06/30] fix: loading a saved world connects joints to the wrong
 bodies and gears to the wrong joints

---
 src/serialize/serialize_b2_world.rs | 22 ++++++++++++++++++----
 1 file changed, 18 insertions(+), 4 deletions(-)

diff --git a/src/serialize/serialize_b2_world.rs b/src/serialize/serialize_b2_world.rs
index 827e142..99444ed 100644
--- a/src/serialize/serialize_b2_world.rs
+++ b/src/serialize/serialize_b2_world.rs
@@ -8,6 +8,7 @@ use std::marker::PhantomData;
 use std::rc::Rc;
 use std::cell::RefCell;
 
+use crate::b2_body::*;
 use crate::b2_joint::*;
 use crate::b2_math::*;
 use crate::b2rs_common::UserDataType;
@@ -177,6 +178,19 @@ impl<D: UserDataType> Serialize for B2world<D> {
     }
 }
 
+/// The world lists are built by pushing to the front, so they hold the loaded objects in reverse.
+fn bodies_in_file_order<U: UserDataType>(world: &B2worldPtr<U>) -> Vec<BodyPtr<U>> {
+    let mut bodies = world.borrow().m_body_list.iter().collect::<Vec<_>>();
+    bodies.reverse();
+    bodies
+}
+
+fn joints_in_file_order<U: UserDataType>(world: &B2worldPtr<U>) -> Vec<B2jointPtr<U>> {
+    let mut joints = world.borrow().m_joint_list.iter().collect::<Vec<_>>();
+    joints.reverse();
+    joints
+}
+
 pub struct B2worldDeserializeResult<U: UserDataType> {
     pub world: B2worldPtr<U>,
 }
@@ -224,7 +238,7 @@ impl<'de, U: UserDataType> Deserialize<'de> for B2worldDeserializeResult<U> {
 
                 let m_body_array;
                 {
-                    m_body_array = Rc::new(RefCell::new(world.borrow().m_body_list.iter().collect::<Vec<_>>()));
+                    m_body_array = Rc::new(RefCell::new(bodies_in_file_order(&world)));
                 }  
 
                 seq.next_element_seed(B2jointListContext {
@@ -236,7 +250,7 @@ impl<'de, U: UserDataType> Deserialize<'de> for B2worldDeserializeResult<U> {
 
                 let m_all_joints;
                 {
-                    m_all_joints = Rc::new(RefCell::new(world.borrow().m_joint_list.iter().collect::<Vec<_>>()));
+                    m_all_joints = Rc::new(RefCell::new(joints_in_file_order(&world)));
                 }  
 
                 seq.next_element_seed(B2jointListContext {
@@ -268,7 +282,7 @@ impl<'de, U: UserDataType> Deserialize<'de> for B2worldDeserializeResult<U> {
                                 m_world: world.clone().unwrap(),
                             })?;
 
-                            m_body_array = Some(Rc::new(RefCell::new(world.as_ref().unwrap().borrow().m_body_list.iter().collect::<Vec<_>>())));
+                            m_body_array = Some(Rc::new(RefCell::new(bodies_in_file_order(world.as_ref().unwrap()))));
                         }
                         Field::m_joints_list => {                          
  
@@ -278,7 +292,7 @@ impl<'de, U: UserDataType> Deserialize<'de> for B2worldDeserializeResult<U> {
                                 m_all_joints: Rc::default()
                             })?;
 
-                            m_all_joints = Some(Rc::new(RefCell::new(world.as_ref().unwrap().borrow().m_joint_list.iter().collect::<Vec<_>>())));
+                            m_all_joints = Some(Rc::new(RefCell::new(joints_in_file_order(world.as_ref().unwrap()))));
                         }
                         Field::m_gear_joints_list => {                          
 
-- 
2.43.0


From d51b1a82e8171c3d2c4f37250c072fee459e4064 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:17:21 +0000
Subject: [PATCH 07/30] fix: unsaved mouse joints are counted when saving a
 world

---
 src/serialize/serialize_b2_world.rs | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/src/serialize/serialize_b2_world.rs b/src/serialize/serialize_b2_world.rs
index 99444ed..d996730 100644
--- a/src/serialize/serialize_b2_world.rs
+++ b/src/serialize/serialize_b2_world.rs
@@ -150,13 +150,12 @@ impl<D: UserDataType> Serialize for B2world<D> {
         for ref b in self.m_joint_list.iter(){
             let mut j = b.borrow_mut();
             j.get_base_mut().m_index = -1;
-            if j.get_base().m_type!=B2jointType::EGearJoint
+            match j.get_base().m_type
             {
-                not_gear_joint.push(b.clone());
-            }
-            else
-            {
-                gear_joint.push(b.clone());
+                B2jointType::EGearJoint => gear_joint.push(b.clone()),
+                // mouse joints are not saved
+                B2jointType::EMouseJoint => {}
+                _ => not_gear_joint.push(b.clone()),
             }
         }
 
-- 
2.43.0


From 24dd4ab16bf3da128b20b202625600abbe237e4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:17:22 +0000
Subject: [PATCH 08/30] fix: fixture user data is lost when a world is saved

---
 src/serialize/serialize_b2_fixture.rs | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/src/serialize/serialize_b2_fixture.rs b/src/serialize/serialize_b2_fixture.rs
index 2b43560..c873011 100644
--- a/src/serialize/serialize_b2_fixture.rs
+++ b/src/serialize/serialize_b2_fixture.rs
@@ -25,7 +25,7 @@ impl<D: UserDataType> Serialize for B2fixture<D> {
 	where
 		S: Serializer,
 	{
-		let mut state = serializer.serialize_struct("B2fixture", 7)?;
+		let mut state = serializer.serialize_struct("B2fixture", 9)?;
 		state.serialize_field("m_friction", &self.m_friction)?;
 		state.serialize_field("m_restitution", &self.m_restitution)?;
 		state.serialize_field("m_restitution_threshold", &self.m_restitution_threshold)?;
@@ -47,6 +47,7 @@ impl<D: UserDataType> Serialize for B2fixture<D> {
 				state.serialize_field("m_shape", &shape)?;
 			}
 		}
+		state.serialize_field("m_user_data", &self.m_user_data)?;
 		state.end()
 	}
 }
@@ -75,6 +76,7 @@ impl<'de, U: UserDataType> DeserializeSeed<'de> for B2fixtureVisitorContext<U> {
 			m_filter,
 			m_shape_type,
 			m_shape,
+			m_user_data,
 		}
 		struct B2fixtureVisitor<D: UserDataType>(B2fixtureVisitorContext<D>);
 
@@ -147,6 +149,11 @@ impl<'de, U: UserDataType> DeserializeSeed<'de> for B2fixtureVisitorContext<U> {
 					}
 					_ => panic!(),
 				}
+
+				definition.user_data = seq
+					.next_element()?
+					.ok_or_else(|| de::Error::invalid_length(0, &self))?;
+
 				B2body::create_fixture(body, &definition);
 				Ok(())
 			}
@@ -200,6 +207,9 @@ impl<'de, U: UserDataType> DeserializeSeed<'de> for B2fixtureVisitorContext<U> {
 							}
 							_ => panic!(),
 						},
+						Field::m_user_data => {
+							definition.user_data = map.next_value()?;
+						}
 					}
 				}
 				B2body::create_fixture(body, &definition);
-- 
2.43.0


From 8a4203326f8904ee701164844ebb195f514f8b0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:19:20 +0000
Subject: [PATCH 09/30] fix: gear joint must act on the bodies of the joints it
 connects

---
 src/private/dynamics/joints/b2_gear_joint.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/private/dynamics/joints/b2_gear_joint.rs b/src/private/dynamics/joints/b2_gear_joint.rs
index 152b11a..befe73b 100644
--- a/src/private/dynamics/joints/b2_gear_joint.rs
+++ b/src/private/dynamics/joints/b2_gear_joint.rs
@@ -129,9 +129,14 @@ pub(crate) fn new<D: UserDataType>(def: &B2gearJointDef<D>)->B2gearJoint<D>
 
 	let m_impulse = 0.0;
 
+	// A gear joint always acts on the second bodies of the joints it connects.
+	let mut base = B2joint::new(&def.base);
+	base.m_body_a = m_body_a;
+	base.m_body_b = m_body_b;
+
 	return B2gearJoint{
 
-		base: B2joint::new(&def.base),
+		base,
 
 		m_joint1,
 		m_joint2,
-- 
2.43.0


From 4fd8b7b423c8b4f7dc7c1e686a5c5f980b881079 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:34:25 +0000
Subject: [PATCH 10/30] fix: validating or rebuilding an empty dynamic tree
 panics

---
 src/private/collision/b2_dynamic_tree.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/private/collision/b2_dynamic_tree.rs b/src/private/collision/b2_dynamic_tree.rs
index 55619a4..e3420a7 100644
--- a/src/private/collision/b2_dynamic_tree.rs
+++ b/src/private/collision/b2_dynamic_tree.rs
@@ -537,6 +537,10 @@ pub fn compute_height_by_node<T: Clone + Default>(
 }
 
 pub fn compute_height<T: Clone + Default>(self_: &B2dynamicTree<T>) -> i32 {
+	if self_.m_root == B2_NULL_NODE {
+		return 0;
+	}
+
 	let height: i32 = compute_height_by_node(self_, self_.m_root);
 	return height;
 }
@@ -654,6 +658,10 @@ pub fn get_max_balance<T: Clone + Default>(self_: &B2dynamicTree<T>) -> i32 {
 }
 
 pub fn rebuild_bottom_up<T: Clone + Default>(self_: &mut B2dynamicTree<T>) {
+	if self_.m_root == B2_NULL_NODE {
+		return;
+	}
+
 	let mut nodes = Vec::<i32>::new();
 	nodes.resize(self_.m_node_count as usize, -1);
 	let mut count: i32 = 0;
-- 
2.43.0


From ae60e82462c3ab423257cef729ba99f8981587ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 19:05:12 +0000
Subject: [PATCH 11/30] fix: distance joint between bodies without mass
 produces NaN

---
 src/private/dynamics/joints/b2_distance_joint.rs | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/src/private/dynamics/joints/b2_distance_joint.rs b/src/private/dynamics/joints/b2_distance_joint.rs
index 0675253..334588f 100644
--- a/src/private/dynamics/joints/b2_distance_joint.rs
+++ b/src/private/dynamics/joints/b2_distance_joint.rs
@@ -217,7 +217,12 @@ pub(crate) fn solve_velocity_constraints<D: UserDataType>(
 			let vp_b: B2vec2 = v_b + b2_cross_scalar_by_vec(w_b, self_.m_r_b);
 			let cdot: f32 = b2_dot(self_.m_u, vp_b - vp_a);
 
-			let mut impulse: f32 = -self_.m_mass * (cdot + bias);
+			// The bias can be infinite (unbounded length), which must not meet a zero mass.
+			let mut impulse: f32 = if self_.m_mass > 0.0 {
+				-self_.m_mass * (cdot + bias)
+			} else {
+				0.0
+			};
 			let old_impulse: f32 = self_.m_lower_impulse;
 			self_.m_lower_impulse = b2_max(0.0, self_.m_lower_impulse + impulse);
 			impulse = self_.m_lower_impulse - old_impulse;
@@ -238,7 +243,12 @@ pub(crate) fn solve_velocity_constraints<D: UserDataType>(
 			let vp_b: B2vec2 = v_b + b2_cross_scalar_by_vec(w_b, self_.m_r_b);
 			let cdot: f32 = b2_dot(self_.m_u, vp_a - vp_b);
 
-			let mut impulse: f32 = -self_.m_mass * (cdot + bias);
+			// The bias can be infinite (unbounded length), which must not meet a zero mass.
+			let mut impulse: f32 = if self_.m_mass > 0.0 {
+				-self_.m_mass * (cdot + bias)
+			} else {
+				0.0
+			};
 			let old_impulse: f32 = self_.m_upper_impulse;
 			self_.m_upper_impulse = b2_max(0.0, self_.m_upper_impulse + impulse);
 			impulse = self_.m_upper_impulse - old_impulse;
-- 
2.43.0


From 9a8d60d2748c75684e543dfb50a05a09f84f7a97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 19:05:12 +0000
Subject: [PATCH 12/30] fix: stepping panics when the ground body of a geared
 joint is disabled

---
 src/private/dynamics/b2_world.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/private/dynamics/b2_world.rs b/src/private/dynamics/b2_world.rs
index 87add4b..7b87458 100644
--- a/src/private/dynamics/b2_world.rs
+++ b/src/private/dynamics/b2_world.rs
@@ -478,6 +478,13 @@ pub(crate) fn solve<D: UserDataType>(self_: &mut B2world<D>, step: B2timeStep) {
 					continue;
 				}
 
+				// A gear joint also acts on the first bodies of the joints it connects.
+				if let JointAsDerived::EGearJoint(gear) = joint.borrow().as_derived() {
+					if gear.m_body_c.borrow().is_enabled() == false || gear.m_body_d.borrow().is_enabled() == false {
+						continue;
+					}
+				}
+
 				island.add_joint(joint.clone());
 				joint.borrow_mut().get_base_mut().m_island_flag = true;
 
-- 
2.43.0


From cb0f64663a1005833e305c157fdf23da74ee8441 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 19:05:39 +0000
Subject: [PATCH 13/30] fix: prismatic and wheel joints with equal limits are
 pulled to translation zero

---
 src/private/dynamics/joints/b2_prismatic_joint.rs | 4 ++--
 src/private/dynamics/joints/b2_wheel_joint.rs     | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/private/dynamics/joints/b2_prismatic_joint.rs b/src/private/dynamics/joints/b2_prismatic_joint.rs
index fcebeba..42ff342 100644
--- a/src/private/dynamics/joints/b2_prismatic_joint.rs
+++ b/src/private/dynamics/joints/b2_prismatic_joint.rs
@@ -382,8 +382,8 @@ pub(crate) fn solve_position_constraints<D: UserDataType>(
 	if self_.m_enable_limit {
 		let translation: f32 = b2_dot(axis, d);
 		if b2_abs(self_.m_upper_translation - self_.m_lower_translation) < 2.0 * B2_LINEAR_SLOP {
-			c2 = translation;
-			linear_error = b2_max(linear_error, b2_abs(translation));
+			c2 = translation - self_.m_lower_translation;
+			linear_error = b2_max(linear_error, b2_abs(c2));
 			active = true;
 		} else if translation <= self_.m_lower_translation {
 			c2 = b2_min(translation - self_.m_lower_translation, 0.0);
diff --git a/src/private/dynamics/joints/b2_wheel_joint.rs b/src/private/dynamics/joints/b2_wheel_joint.rs
index 6caa2b8..bb13b4f 100644
--- a/src/private/dynamics/joints/b2_wheel_joint.rs
+++ b/src/private/dynamics/joints/b2_wheel_joint.rs
@@ -301,7 +301,7 @@ pub(crate) fn solve_position_constraints<D: UserDataType>(
 		let mut c: f32 = 0.0;
 		let translation: f32 = b2_dot(ax, d);
 		if b2_abs(self_.m_upper_translation - self_.m_lower_translation) < 2.0 * B2_LINEAR_SLOP {
-			c = translation;
+			c = translation - self_.m_lower_translation;
 		} else if translation <= self_.m_lower_translation {
 			c = b2_min(translation - self_.m_lower_translation, 0.0);
 		} else if translation >= self_.m_upper_translation {
-- 
2.43.0


From c1868a53c9e20a583e0f3ce7cdb82aa65740531f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 19:05:39 +0000
Subject: [PATCH 14/30] fix: distance joint keeps old limit impulses when warm
 starting is off

---
 src/private/dynamics/joints/b2_distance_joint.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/private/dynamics/joints/b2_distance_joint.rs b/src/private/dynamics/joints/b2_distance_joint.rs
index 334588f..84ddef6 100644
--- a/src/private/dynamics/joints/b2_distance_joint.rs
+++ b/src/private/dynamics/joints/b2_distance_joint.rs
@@ -172,6 +172,8 @@ pub(crate) fn init_velocity_constraints<D: UserDataType>(
 		w_b += self_.m_inv_ib * b2_cross(self_.m_r_b, p);
 	} else {
 		self_.m_impulse = 0.0;
+		self_.m_lower_impulse = 0.0;
+		self_.m_upper_impulse = 0.0;
 	}
 
 	velocities[self_.m_index_a].v = v_a;
-- 
2.43.0


From 4defb5e334c167f04d79b5dce757b208bd4f4fc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 19:10:28 +0000
Subject: [PATCH 15/30] fix: stepping panics when a touching sensor of a
 sleeping pair becomes solid

---
 src/private/dynamics/b2_world.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/private/dynamics/b2_world.rs b/src/private/dynamics/b2_world.rs
index 7b87458..e7ba9a8 100644
--- a/src/private/dynamics/b2_world.rs
+++ b/src/private/dynamics/b2_world.rs
@@ -441,6 +441,11 @@ pub(crate) fn solve<D: UserDataType>(self_: &mut B2world<D>, step: B2timeStep) {
 					continue;
 				}
 
+				// A contact that was a sensor contact when it was last updated has no points.
+				if contact_base.m_manifold.point_count == 0 {
+					continue;
+				}
+
 				// Skip sensors.
 				let sensor_a: bool = contact_base.m_fixture_a.borrow().m_is_sensor;
 				let sensor_b: bool = contact_base.m_fixture_b.borrow().m_is_sensor;
-- 
2.43.0


From 6befd17530176547d1663382055197c4a0a397d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 19:10:28 +0000
Subject: [PATCH 16/30] fix: stepping panics when a fixture becomes a sensor
 between two sub-steps

---
 src/private/dynamics/b2_world.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/private/dynamics/b2_world.rs b/src/private/dynamics/b2_world.rs
index e7ba9a8..038509d 100644
--- a/src/private/dynamics/b2_world.rs
+++ b/src/private/dynamics/b2_world.rs
@@ -593,6 +593,11 @@ pub(crate) fn solve_toi<D: UserDataType>(self_: &mut B2world<D>, step: B2timeSte
 
 			let alpha: f32;
 			if c_base.m_flags.contains(ContactFlags::E_TOI_FLAG) {
+				// A fixture can become a sensor between two sub-steps.
+				if c_base.m_fixture_a.borrow().m_is_sensor || c_base.m_fixture_b.borrow().m_is_sensor {
+					continue;
+				}
+
 				// This contact has a valid cached TOI.
 				alpha = c_base.m_toi;
 			} else {
-- 
2.43.0


From 38ad516cdb066fe297d6303b13a3899f474163aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 19:18:02 +0000
Subject: [PATCH 17/30] fix: kinematic body woken by a time-of-impact event
 moves without its boxes

---
 src/private/dynamics/b2_world.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/private/dynamics/b2_world.rs b/src/private/dynamics/b2_world.rs
index 038509d..64f6374 100644
--- a/src/private/dynamics/b2_world.rs
+++ b/src/private/dynamics/b2_world.rs
@@ -890,6 +890,10 @@ pub(crate) fn solve_toi<D: UserDataType>(self_: &mut B2world<D>, step: B2timeSte
 			body.m_flags.remove(BodyFlags::E_ISLAND_FLAG);
 
 			if body.m_type != B2bodyType::B2DynamicBody {
+				// A kinematic body that was asleep has been moved for the first time in this step.
+				if body.m_type == B2bodyType::B2KinematicBody {
+					body.synchronize_fixtures_by_world(self_);
+				}
 				continue;
 			}
 
-- 
2.43.0


From 7662b39fb923cb089a2479a3621c5605a106a855 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 19:48:11 +0000
Subject: [PATCH 18/30] fix: mouse joint slows the rotation of a kinematic body

---
 src/private/dynamics/joints/b2_mouse_joint.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/private/dynamics/joints/b2_mouse_joint.rs b/src/private/dynamics/joints/b2_mouse_joint.rs
index c8fd894..aaa3288 100644
--- a/src/private/dynamics/joints/b2_mouse_joint.rs
+++ b/src/private/dynamics/joints/b2_mouse_joint.rs
@@ -61,7 +61,10 @@ pub(crate) fn  init_velocity_constraints<D: UserDataType>(self_: &mut B2mouseJoi
 	self_.m_c *= self_.m_beta;
 
 	// Cheat with some damping
-	w_b *= 0.98;
+	if self_.m_inv_ib > 0.0
+	{
+		w_b *= 0.98;
+	}
 
 	if data.step.warm_starting
 	{
-- 
2.43.0


From 346f08f569199244b70b4405ce4fdff214726600 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 19:55:37 +0000
Subject: [PATCH 19/30] fix: a body put to sleep while moving jumps back when
 something hits it

---
 src/b2_body.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/b2_body.rs b/src/b2_body.rs
index c6212b6..3020e39 100644
--- a/src/b2_body.rs
+++ b/src/b2_body.rs
@@ -797,6 +797,8 @@ mod inline {
 			self_.m_angular_velocity = 0.0;
 			self_.m_force.set_zero();
 			self_.m_torque = 0.0;
+			self_.m_sweep.c0 = self_.m_sweep.c;
+			self_.m_sweep.a0 = self_.m_sweep.a;
 		}
 	}
 
-- 
2.43.0


From ab6373aa414d528fc2a0c4ae417723a57f9698fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 20:11:54 +0000
Subject: [PATCH 20/30] fix: one-sided edge pushes an asymmetric polygon back
 out of its rear side

---
 src/private/collision/b2_collide_edge.rs | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/src/private/collision/b2_collide_edge.rs b/src/private/collision/b2_collide_edge.rs
index bd9344f..2cb8be1 100644
--- a/src/private/collision/b2_collide_edge.rs
+++ b/src/private/collision/b2_collide_edge.rs
@@ -169,7 +169,7 @@ struct B2referenceFace {
 	side_offset2: f32,
 }
 
-fn b2_compute_edge_separation(polygon_b: B2tempPolygon, v1: B2vec2, normal1: B2vec2) -> B2epaxis {
+fn b2_compute_edge_separation(polygon_b: B2tempPolygon, v1: B2vec2, normal1: B2vec2, one_sided: bool) -> B2epaxis {
 	let mut axis = B2epaxis {
 		axis_type: B2ePAxisType::EEdgeA,
 		index: -1,
@@ -179,8 +179,11 @@ fn b2_compute_edge_separation(polygon_b: B2tempPolygon, v1: B2vec2, normal1: B2v
 
 	let axes: [B2vec2; 2] = [normal1, -normal1];
 
+	// A one-sided edge only pushes to its front
+	let axis_count = if one_sided { 1 } else { 2 };
+
 	// Find axis with least overlap (min-max problem)
-	for j in 0..2 {
+	for j in 0..axis_count {
 		let mut sj: f32 = B2_MAX_FLOAT;
 
 		// Find deepest polygon vertex along axis j
@@ -265,7 +268,7 @@ pub fn b2_collide_edge_and_polygon(
 
 	let radius: f32 = polygon_b.base.m_radius + edge_a.base.m_radius;
 
-	let edge_axis: B2epaxis = b2_compute_edge_separation(temp_polygon_b, v1, normal1);
+	let edge_axis: B2epaxis = b2_compute_edge_separation(temp_polygon_b, v1, normal1, one_sided);
 	if edge_axis.separation > radius {
 		return;
 	}
@@ -331,6 +334,12 @@ pub fn b2_collide_edge_and_polygon(
 				primary_axis = edge_axis;
 			}
 		}
+
+		// An axis behind both this edge and its neighbour would push through to the back
+		let normal_n = if side1 { normal0 } else { normal2 };
+		if b2_dot(primary_axis.normal, normal1) < 0.0 && b2_dot(primary_axis.normal, normal_n) < 0.0 {
+			primary_axis = edge_axis;
+		}
 	}
 
 	let mut clip_points = <[B2clipVertex; 2]>::default();
-- 
2.43.0


From 3473ed624800418ba0f52a6f853202f8b56bee66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 21:56:51 +0000
Subject: [PATCH 21/30] fix: wheel joint position correction uses the current
 axis and lever arms

The correction mixed lever arms from the start of the step with current
ones, so an off-centre body could be spun many turns and be left far off
its axis.
---
 src/private/dynamics/joints/b2_wheel_joint.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/private/dynamics/joints/b2_wheel_joint.rs b/src/private/dynamics/joints/b2_wheel_joint.rs
index bb13b4f..9dc1d80 100644
--- a/src/private/dynamics/joints/b2_wheel_joint.rs
+++ b/src/private/dynamics/joints/b2_wheel_joint.rs
@@ -295,8 +295,8 @@ pub(crate) fn solve_position_constraints<D: UserDataType>(
 		let d: B2vec2 = (c_b - c_a) + r_b - r_a;
 
 		let ax: B2vec2 = b2_mul_rot_by_vec2(q_a, self_.m_local_xaxis_a);
-		let s_ax: f32 = b2_cross(d + r_a, self_.m_ax);
-		let s_bx: f32 = b2_cross(r_b, self_.m_ax);
+		let s_ax: f32 = b2_cross(d + r_a, ax);
+		let s_bx: f32 = b2_cross(r_b, ax);
 
 		let mut c: f32 = 0.0;
 		let translation: f32 = b2_dot(ax, d);
@@ -348,8 +348,8 @@ pub(crate) fn solve_position_constraints<D: UserDataType>(
 
 		let inv_mass: f32 = self_.m_inv_mass_a
 			+ self_.m_inv_mass_b
-			+ self_.m_inv_ia * self_.m_s_ay * self_.m_s_ay
-			+ self_.m_inv_ib * self_.m_s_by * self_.m_s_by;
+			+ self_.m_inv_ia * s_ay * s_ay
+			+ self_.m_inv_ib * s_by * s_by;
 
 		let mut impulse: f32 = 0.0;
 		if inv_mass != 0.0 {
-- 
2.43.0


From 3e24f28473f4856ab7e64796d06ada3a049ff2d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 22:03:50 +0000
Subject: [PATCH 22/30] fix: distance joint position correction uses the
 current lever arms

The correction used the effective mass from the start of the step, so an
off-centre body could be spun many turns and be left far off its length.
---
 src/private/dynamics/joints/b2_distance_joint.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/private/dynamics/joints/b2_distance_joint.rs b/src/private/dynamics/joints/b2_distance_joint.rs
index 84ddef6..c4ed041 100644
--- a/src/private/dynamics/joints/b2_distance_joint.rs
+++ b/src/private/dynamics/joints/b2_distance_joint.rs
@@ -314,7 +314,14 @@ pub(crate) fn solve_position_constraints<D: UserDataType>(
 		return true;
 	}
 
-	let impulse: f32 = -self_.m_mass * c;
+	let cr_au: f32 = b2_cross(r_a, u);
+	let cr_bu: f32 = b2_cross(r_b, u);
+	let inv_mass: f32 = self_.m_inv_mass_a
+		+ self_.m_inv_ia * cr_au * cr_au
+		+ self_.m_inv_mass_b
+		+ self_.m_inv_ib * cr_bu * cr_bu;
+
+	let impulse: f32 = if inv_mass > 0.0 { -c / inv_mass } else { 0.0 };
 	let p: B2vec2 = impulse * u;
 
 	c_a -= self_.m_inv_mass_a * p;
-- 
2.43.0


From 351c00496758c7ec9e120a556376074df118a2af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 22:03:55 +0000
Subject: [PATCH 23/30] fix: pulley joint reports the reaction force it applies
 to the second body

The reported force had the opposite sign and left out the ratio.
---
 src/joints/b2_pulley_joint.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/joints/b2_pulley_joint.rs b/src/joints/b2_pulley_joint.rs
index f56a023..3638381 100644
--- a/src/joints/b2_pulley_joint.rs
+++ b/src/joints/b2_pulley_joint.rs
@@ -116,7 +116,7 @@ impl<D: UserDataType> B2jointTraitDyn<D> for B2pulleyJoint<D> {
 	/// Get the reaction force given the inverse time step.
 	/// Unit is n.
 	fn get_reaction_force(&self, inv_dt: f32) -> B2vec2 {
-		let p: B2vec2 = self.m_impulse * self.m_u_b;
+		let p: B2vec2 = -self.m_ratio * self.m_impulse * self.m_u_b;
 		return inv_dt * p;
 	}
 
-- 
2.43.0


From caa0279833af28b978f5166f17b3977e660c3f1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 23:12:23 +0000
Subject: [PATCH 24/30] fix: save the velocity of a body's origin, which is
 what a body definition holds

---
 src/serialize/serialize_b2_body.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/serialize/serialize_b2_body.rs b/src/serialize/serialize_b2_body.rs
index a80c628..73ca277 100644
--- a/src/serialize/serialize_b2_body.rs
+++ b/src/serialize/serialize_b2_body.rs
@@ -13,6 +13,7 @@ use std::cell::RefCell;
 use crate::b2_body::*;
 use crate::b2rs_common::UserDataType;
 use crate::b2_joint::*;
+use crate::b2_math::*;
 use crate::b2_world::*;
 
 use crate::joints::serialize::serialize_b2_distance_joint::*;
@@ -40,7 +41,8 @@ impl<D: UserDataType> B2bodyToDef<D> for B2body<D> {
             body_type: self.m_type,
             position: self.m_xf.p,
             angle: self.m_sweep.a,
-            linear_velocity: self.m_linear_velocity,
+            // a definition gives the velocity of the origin, a body keeps that of its center of mass
+            linear_velocity: self.get_linear_velocity_from_local_point(B2vec2::zero()),
             angular_velocity: self.m_angular_velocity,
             linear_damping: self.m_linear_damping,
             angular_damping: self.m_angular_damping,
-- 
2.43.0


From 3aa847be27bca2b312ad3b0537ab1859e9817d55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 23:38:08 +0000
Subject: [PATCH 25/30] fix: leave three fixed rope points in a row alone
 instead of dividing by zero

---
 src/private/rope/b2_rope.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/private/rope/b2_rope.rs b/src/private/rope/b2_rope.rs
index 9ebfe3e..4751d9e 100644
--- a/src/private/rope/b2_rope.rs
+++ b/src/private/rope/b2_rope.rs
@@ -382,6 +382,10 @@ pub(crate) fn solve_bend_pbd_angle(_self: &mut B2rope) {
 			sum = c.inv_effective_mass;
 		}
 
+		if sum == 0.0 {
+			continue;
+		}
+
 		let impulse: f32 = -stiffness * angle / sum;
 
 		p1 += (c.inv_mass1 * impulse) * j1;
@@ -635,6 +639,10 @@ fn solve_bend_pbd_triangle(_self: &mut B2rope)
 		let wb1: f32 = c.inv_mass3;
 
 		let w: f32 = wb0 + wb1 + 2.0 * wv;
+		if w == 0.0 {
+			continue;
+		}
+
 		let inv_w: f32 = stiffness / w;
 
 		let d: B2vec2 = v - (1.0 / 3.0) * (b0 + v + b1);
-- 
2.43.0


From 91db4b010a6a6867eac55d50f784f05e05b7eead Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 23:38:08 +0000
Subject: [PATCH 26/30] fix: treat a rope spring of zero frequency as no spring

---
 src/private/rope/b2_rope.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/private/rope/b2_rope.rs b/src/private/rope/b2_rope.rs
index 4751d9e..013d30f 100644
--- a/src/private/rope/b2_rope.rs
+++ b/src/private/rope/b2_rope.rs
@@ -306,7 +306,7 @@ pub(crate) fn solve_stretch_xpbd(_self: &mut B2rope, dt: f32) {
 		let j2: B2vec2 = u;
 
 		let sum: f32 = c.inv_mass1 + c.inv_mass2;
-		if sum == 0.0 {
+		if sum == 0.0 || c.spring == 0.0 {
 			continue;
 		}
 
@@ -449,7 +449,7 @@ pub(crate) fn solve_bend_xpbd_angle(_self: &mut B2rope, dt: f32) {
 				+ c.inv_mass3 * b2_dot(j3, j3);
 		}
 
-		if sum == 0.0 {
+		if sum == 0.0 || c.spring == 0.0 {
 			continue;
 		}
 
-- 
2.43.0


From 1bdfb596962b8d0c8eb35e690649bd5448ac4ec2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 23:38:08 +0000
Subject: [PATCH 27/30] fix: draw nothing for a rope that has not been created

---
 src/private/rope/b2_rope.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/private/rope/b2_rope.rs b/src/private/rope/b2_rope.rs
index 013d30f..6ee6dd6 100644
--- a/src/private/rope/b2_rope.rs
+++ b/src/private/rope/b2_rope.rs
@@ -667,6 +667,9 @@ pub(crate) fn draw(_self: &B2rope, draw: &mut dyn B2drawTrait) {
 	let pd = B2color::new(0.7, 0.2, 0.4);
 
 	let m_count = _self.m_positions.len();
+	if m_count == 0 {
+		return;
+	}
 
 	for i in 0..(m_count - 1) {
 		draw.draw_segment(_self.m_positions[i].m_ps, _self.m_positions[i + 1].m_ps, c);
-- 
2.43.0


From b15cab00a098a6bd96fe263525d8bf03826ebf56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 23:44:16 +0000
Subject: [PATCH 28/30] fix: do not pull rope points next to a zero length
 segment to the origin

---
 src/private/rope/b2_rope.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/private/rope/b2_rope.rs b/src/private/rope/b2_rope.rs
index 6ee6dd6..0b6cffb 100644
--- a/src/private/rope/b2_rope.rs
+++ b/src/private/rope/b2_rope.rs
@@ -84,6 +84,8 @@ pub(crate) fn create(_self: &mut B2rope, def: &B2ropeDef) {
 		c.l1 = b2_distance_vec2(p1, p2);
 		c.l2 = b2_distance_vec2(p2, p3);
 		c.lambda = 0.0;
+		c.alpha1 = 0.0;
+		c.alpha2 = 0.0;
 
 		// Pre-compute effective mass (TODO use flattened config)
 		let e1: B2vec2 = p2 - p1;
@@ -588,6 +590,11 @@ pub(crate) fn solve_bend_pbd_height(_self: &mut B2rope) {
 		let mut p2: B2vec2 = _self.m_positions[c.i2 as usize].m_ps;
 		let mut p3: B2vec2 = _self.m_positions[c.i3 as usize].m_ps;
 
+		// No barycentric coordinates for degenerate edges
+		if c.alpha1 == 0.0 && c.alpha2 == 0.0 {
+			continue;
+		}
+
 		// Barycentric coordinates are held constant
 		let d: B2vec2 = c.alpha1 * p1 + c.alpha2 * p3 - p2;
 		let d_len: f32 = d.length();
-- 
2.43.0


From a684fc2461767b39576b6692a429eeeb9eca561a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 01:42:47 +0000
Subject: [PATCH 29/30] fix: drop the leftover impulse of a distance joint
 without spring or equal limits

---
 src/private/dynamics/joints/b2_distance_joint.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/private/dynamics/joints/b2_distance_joint.rs b/src/private/dynamics/joints/b2_distance_joint.rs
index c4ed041..5321997 100644
--- a/src/private/dynamics/joints/b2_distance_joint.rs
+++ b/src/private/dynamics/joints/b2_distance_joint.rs
@@ -157,6 +157,12 @@ pub(crate) fn init_velocity_constraints<D: UserDataType>(
 		self_.m_gamma = 0.0;
 		self_.m_bias = 0.0;
 		self_.m_soft_mass = self_.m_mass;
+
+		// Without a spring nothing would take back an impulse left over from one
+		// or from equal length limits.
+		if self_.m_min_length < self_.m_max_length {
+			self_.m_impulse = 0.0;
+		}
 	}
 
 	if data.step.warm_starting {
-- 
2.43.0


From 1d33228c03cd112dcffc0e42cce344f8ff35c78e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 01:59:41 +0000
Subject: [PATCH 30/30] fix: let the two joints of a gear share a body

---
 src/private/dynamics/joints/b2_gear_joint.rs | 116 +++++++------------
 1 file changed, 39 insertions(+), 77 deletions(-)

diff --git a/src/private/dynamics/joints/b2_gear_joint.rs b/src/private/dynamics/joints/b2_gear_joint.rs
index befe73b..4ee7d5e 100644
--- a/src/private/dynamics/joints/b2_gear_joint.rs
+++ b/src/private/dynamics/joints/b2_gear_joint.rs
@@ -214,20 +214,9 @@ pub(crate) fn init_velocity_constraints<D: UserDataType>(self_: &mut B2gearJoint
 	self_.m_i_d = m_body_d.m_inv_i;
 
 	let a_a: f32 =positions[self_.m_index_a as usize].a;
-	let mut v_a: B2vec2 =velocities[self_.m_index_a as usize].v;
-	let mut w_a: f32 =velocities[self_.m_index_a as usize].w;
-
 	let a_b: f32 =positions[self_.m_index_b as usize].a;
-	let mut v_b: B2vec2 =velocities[self_.m_index_b as usize].v;
-	let mut w_b: f32 =velocities[self_.m_index_b as usize].w;
-
 	let a_c: f32 =positions[self_.m_index_c as usize].a;
-	let mut v_c: B2vec2 =velocities[self_.m_index_c as usize].v;
-	let mut w_c: f32 =velocities[self_.m_index_c as usize].w;
-
 	let a_d: f32 =positions[self_.m_index_d as usize].a;
-	let mut v_d: B2vec2 =velocities[self_.m_index_d as usize].v;
-	let mut w_d: f32 =velocities[self_.m_index_d as usize].w;
 
 	let (q_a, q_b, q_c, q_d) = (B2Rot::new(a_a),B2Rot::new(a_b),B2Rot::new(a_c),B2Rot::new(a_d));
 
@@ -275,41 +264,38 @@ pub(crate) fn init_velocity_constraints<D: UserDataType>(self_: &mut B2gearJoint
 
 	if data.step.warm_starting
 	{
-		v_a += (self_.m_m_a * self_.m_impulse) * self_.m_jv_ac;
-		w_a += self_.m_i_a * self_.m_impulse * self_.m_jw_a;
-		v_b += (self_.m_m_b * self_.m_impulse) * self_.m_jv_bd;
-		w_b += self_.m_i_b * self_.m_impulse * self_.m_jw_b;
-		v_c -= (self_.m_m_c * self_.m_impulse) * self_.m_jv_ac;
-		w_c -= self_.m_i_c * self_.m_impulse * self_.m_jw_c;
-		v_d -= (self_.m_m_d * self_.m_impulse) * self_.m_jv_bd;
-		w_d -= self_.m_i_d * self_.m_impulse * self_.m_jw_d;
+		apply_impulse(self_, self_.m_impulse, velocities);
 	}
 	else
 	{
 		self_.m_impulse = 0.0;
 	}
+}
 
-	velocities[self_.m_index_a as usize].v = v_a;
-	velocities[self_.m_index_a as usize].w = w_a;
-	velocities[self_.m_index_b as usize].v = v_b;
-	velocities[self_.m_index_b as usize].w = w_b;
-	velocities[self_.m_index_c as usize].v = v_c;
-	velocities[self_.m_index_c as usize].w = w_c;
-	velocities[self_.m_index_d as usize].v = v_d;
-	velocities[self_.m_index_d as usize].w = w_d;
+// Applies an impulse in place: the joints of a gear can share a body.
+fn apply_impulse<D: UserDataType>(self_: &B2gearJoint<D>, impulse: f32, velocities: &mut [B2velocity])
+{
+	velocities[self_.m_index_a as usize].v += (self_.m_m_a * impulse) * self_.m_jv_ac;
+	velocities[self_.m_index_a as usize].w += self_.m_i_a * impulse * self_.m_jw_a;
+	velocities[self_.m_index_b as usize].v += (self_.m_m_b * impulse) * self_.m_jv_bd;
+	velocities[self_.m_index_b as usize].w += self_.m_i_b * impulse * self_.m_jw_b;
+	velocities[self_.m_index_c as usize].v -= (self_.m_m_c * impulse) * self_.m_jv_ac;
+	velocities[self_.m_index_c as usize].w -= self_.m_i_c * impulse * self_.m_jw_c;
+	velocities[self_.m_index_d as usize].v -= (self_.m_m_d * impulse) * self_.m_jv_bd;
+	velocities[self_.m_index_d as usize].w -= self_.m_i_d * impulse * self_.m_jw_d;
 }
 
 pub(crate) fn solve_velocity_constraints<D: UserDataType>(self_: &mut B2gearJoint<D>, 
 	_data: &B2solverData, velocities: &mut [B2velocity])
 {
-	let mut v_a: B2vec2 =velocities[self_.m_index_a as usize].v;
-	let mut w_a: f32 =velocities[self_.m_index_a as usize].w;
-	let mut v_b: B2vec2 =velocities[self_.m_index_b as usize].v;
-	let mut w_b: f32 =velocities[self_.m_index_b as usize].w;
-	let mut v_c: B2vec2 =velocities[self_.m_index_c as usize].v;
-	let mut w_c: f32 =velocities[self_.m_index_c as usize].w;
-	let mut v_d: B2vec2 =velocities[self_.m_index_d as usize].v;
-	let mut w_d: f32 =velocities[self_.m_index_d as usize].w;
+	let v_a: B2vec2 =velocities[self_.m_index_a as usize].v;
+	let w_a: f32 =velocities[self_.m_index_a as usize].w;
+	let v_b: B2vec2 =velocities[self_.m_index_b as usize].v;
+	let w_b: f32 =velocities[self_.m_index_b as usize].w;
+	let v_c: B2vec2 =velocities[self_.m_index_c as usize].v;
+	let w_c: f32 =velocities[self_.m_index_c as usize].w;
+	let v_d: B2vec2 =velocities[self_.m_index_d as usize].v;
+	let w_d: f32 =velocities[self_.m_index_d as usize].w;
 
 	let mut cdot: f32 =b2_dot(self_.m_jv_ac, v_a - v_c) + b2_dot(self_.m_jv_bd, v_b - v_d);
 	cdot += (self_.m_jw_a * w_a - self_.m_jw_c * w_c) + (self_.m_jw_b * w_b - self_.m_jw_d * w_d);
@@ -317,36 +303,20 @@ pub(crate) fn solve_velocity_constraints<D: UserDataType>(self_: &mut B2gearJoin
 	let impulse: f32 =-self_.m_mass * cdot;
 	self_.m_impulse += impulse;
 
-	v_a += (self_.m_m_a * impulse) * self_.m_jv_ac;
-	w_a += self_.m_i_a * impulse * self_.m_jw_a;
-	v_b += (self_.m_m_b * impulse) * self_.m_jv_bd;
-	w_b += self_.m_i_b * impulse * self_.m_jw_b;
-	v_c -= (self_.m_m_c * impulse) * self_.m_jv_ac;
-	w_c -= self_.m_i_c * impulse * self_.m_jw_c;
-	v_d -= (self_.m_m_d * impulse) * self_.m_jv_bd;
-	w_d -= self_.m_i_d * impulse * self_.m_jw_d;
-
-	velocities[self_.m_index_a as usize].v = v_a;
-	velocities[self_.m_index_a as usize].w = w_a;
-	velocities[self_.m_index_b as usize].v = v_b;
-	velocities[self_.m_index_b as usize].w = w_b;
-	velocities[self_.m_index_c as usize].v = v_c;
-	velocities[self_.m_index_c as usize].w = w_c;
-	velocities[self_.m_index_d as usize].v = v_d;
-	velocities[self_.m_index_d as usize].w = w_d;
+	apply_impulse(self_, impulse, velocities);
 }
 
 pub(crate) fn solve_position_constraints<D: UserDataType>(self_: &B2gearJoint<D>,
 	_data: &B2solverData, positions: &mut [B2position])->bool
 {
-	let mut c_a: B2vec2 =positions[self_.m_index_a as usize].c;
-	let mut a_a: f32 =positions[self_.m_index_a as usize].a;
-	let mut c_b: B2vec2 =positions[self_.m_index_b as usize].c;
-	let mut a_b: f32 =positions[self_.m_index_b as usize].a;
-	let mut c_c: B2vec2 =positions[self_.m_index_c as usize].c;
-	let mut a_c: f32 =positions[self_.m_index_c as usize].a;
-	let mut c_d: B2vec2 =positions[self_.m_index_d as usize].c;
-	let mut a_d: f32 =positions[self_.m_index_d as usize].a;
+	let c_a: B2vec2 =positions[self_.m_index_a as usize].c;
+	let a_a: f32 =positions[self_.m_index_a as usize].a;
+	let c_b: B2vec2 =positions[self_.m_index_b as usize].c;
+	let a_b: f32 =positions[self_.m_index_b as usize].a;
+	let c_c: B2vec2 =positions[self_.m_index_c as usize].c;
+	let a_c: f32 =positions[self_.m_index_c as usize].a;
+	let c_d: B2vec2 =positions[self_.m_index_d as usize].c;
+	let a_d: f32 =positions[self_.m_index_d as usize].a;
 
 	let (q_a, q_b, q_c, q_d) = (B2Rot::new(a_a),B2Rot::new(a_b),B2Rot::new(a_c),B2Rot::new(a_d));
 
@@ -419,23 +389,15 @@ pub(crate) fn solve_position_constraints<D: UserDataType>(self_: &B2gearJoint<D>
 		impulse = -c / mass;
 	}
 
-	c_a += self_.m_m_a * impulse * jv_ac;
-	a_a += self_.m_i_a * impulse * jw_a;
-	c_b += self_.m_m_b * impulse * jv_bd;
-	a_b += self_.m_i_b * impulse * jw_b;
-	c_c -= self_.m_m_c * impulse * jv_ac;
-	a_c -= self_.m_i_c * impulse * jw_c;
-	c_d -= self_.m_m_d * impulse * jv_bd;
-	a_d -= self_.m_i_d * impulse * jw_d;
-
-	positions[self_.m_index_a as usize].c = c_a;
-	positions[self_.m_index_a as usize].a = a_a;
-	positions[self_.m_index_b as usize].c = c_b;
-	positions[self_.m_index_b as usize].a = a_b;
-	positions[self_.m_index_c as usize].c = c_c;
-	positions[self_.m_index_c as usize].a = a_c;
-	positions[self_.m_index_d as usize].c = c_d;
-	positions[self_.m_index_d as usize].a = a_d;
+	// The same body can appear twice here.
+	positions[self_.m_index_a as usize].c += self_.m_m_a * impulse * jv_ac;
+	positions[self_.m_index_a as usize].a += self_.m_i_a * impulse * jw_a;
+	positions[self_.m_index_b as usize].c += self_.m_m_b * impulse * jv_bd;
+	positions[self_.m_index_b as usize].a += self_.m_i_b * impulse * jw_b;
+	positions[self_.m_index_c as usize].c -= self_.m_m_c * impulse * jv_ac;
+	positions[self_.m_index_c as usize].a -= self_.m_i_c * impulse * jw_c;
+	positions[self_.m_index_d as usize].c -= self_.m_m_d * impulse * jv_bd;
+	positions[self_.m_index_d as usize].a -= self_.m_i_d * impulse * jw_d;
 
 	// TODO_ERIN not implemented
 	return linear_error < B2_LINEAR_SLOP;
-- 
2.43.0

