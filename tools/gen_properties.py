#!/usr/bin/env python3
"""Writes properties.jsonl (the source of the property list)."""
import json, os
P = []
def p(id, title, statement, over, qtext, why, files, mech, observe, state=None):
    assert len(title) <= 80, (id, len(title))
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=qtext), why_tests_cant=why,
        anchors=dict(files=files, state=state or [],
            mechanism=[dict(name=n, where=w) for n, w in mech],
            observe_at=observe, hook_needed=None)))
S = "src/private/"
TESTS = "The five stable tests run one fixed scene or one fixed input each"

p("C01", "Same calls give the same simulation, bit for bit",
  "Two worlds driven by the same sequence of API calls produce bit-identical body states, contact sets, joint reactions and callback event sequences at every step. This holds whatever else the process does in between: other worlds being stepped, other threads simulating, memory being allocated or freed.",
  ["programs", "histories", "schedules"], "all call sequences, all interleavings with unrelated worlds and threads",
  TESTS + " and never compare two runs.",
  ["src/b2_world.rs", S+"dynamics/b2_world.rs", S+"dynamics/b2_island_private.rs", S+"dynamics/b2_contact_manager.rs", "src/b2_broad_phase.rs"],
  [("ordered lists and sorted pair buffer, no address or hash ordering", "src/b2_broad_phase.rs"), ("no mutable globals that influence results", "src/b2_world.rs")],
  ["body transforms/velocities after each step", "contact listener callbacks", "joint reaction getters"])
p("C02", "Body, fixture, joint and contact lists always describe the same world",
  "After any history of creating, destroying, enabling, re-typing and stepping, the world's body and joint lists and counts are exactly the live objects, each body lists exactly its own fixtures, joints and contacts, and every link is two-way. Each live body's fixtures own one broad-phase proxy per shape child while the body is enabled and none otherwise. Destroying an object removes everything that depended on it and nothing else.",
  ["histories"], "all create/destroy/enable/type-change/step histories",
  TESTS + "; none destroys a fixture, a joint or a body and then inspects the lists.",
  ["src/b2_world.rs", S+"dynamics/b2_world.rs", S+"dynamics/b2_body.rs", S+"dynamics/b2_contact_manager.rs", "src/b2rs_double_linked_list.rs", "src/b2rs_linked_list.rs"],
  [("intrusive list insert/remove", "src/b2rs_double_linked_list.rs"), ("destroy_body / destroy_joint / destroy_fixture cascades", S+"dynamics/b2_world.rs")],
  ["world list getters and counts", "body fixture/joint/contact lists", "proxy count"])
p("C03", "A contact exists exactly for each collidable pair whose boxes overlap",
  "After every completed step each pair of fixture children on different bodies, at least one of them dynamic, that may collide and whose bounding boxes overlap has exactly one contact in the world; a pair kept apart by a joint gets its contact when it next moves or is re-filtered after the joint is gone. No contact exists for a pair that may not collide, for a disabled or destroyed object, for two fixtures of one body, or (once the pair has been examined by a step while awake) for a pair whose enlarged boxes are apart.",
  ["histories", "inputs"], "all scenes, motions, teleports, filter and type changes",
  TESTS + "; only hello_world and begin_contact involve contacts at all, with two fixtures.",
  [S+"dynamics/b2_contact_manager.rs", "src/b2_broad_phase.rs", S+"dynamics/b2_world.rs", S+"dynamics/b2_body.rs"],
  [("pair callback with duplicate and filter tests", S+"dynamics/b2_contact_manager.rs"), ("find_new_contacts after each move", S+"dynamics/b2_world.rs")],
  ["world contact list", "fixture bounding boxes"])
p("C04", "Touching status and manifold follow the shapes' current geometry",
  "When a step examines a contact, its touching status says whether the two shapes overlap (within the collision margin) at the transforms the bodies then have, and its manifold is the one for those transforms. Sleeping pairs keep their last status; no contact keeps a manifold from an earlier configuration.",
  ["inputs", "histories"], "all shape pairs, transforms and motion histories",
  TESTS + "; begin_contact checks one circle pair once.",
  [S+"dynamics/b2_contact.rs", S+"dynamics/contacts/", "src/b2_collision.rs"],
  [("contact update evaluates narrow phase each step", S+"dynamics/b2_contact.rs"), ("shape-pair dispatch table", S+"dynamics/b2_contact_registers.rs")],
  ["contact is_touching and manifold after a step", "fixture world transforms"])
p("C05", "Contact events follow the begin / pre-solve / post-solve / end protocol",
  "For each contact, begin and end alternate starting with begin, begin is reported exactly when it starts touching and end exactly when it stops or is destroyed while touching, so at any time the open begins are the touching contacts. Pre-solve is reported only for touching solid contacts, at most once per examination, before solving, with the manifold of the last examination; post-solve only for touching, enabled, solid contacts that were solved, with impulses for the manifold points that were solved. A contact disabled in pre-solve transmits no impulse in that step and is enabled again at the next examination.",
  ["histories", "schedules"], "all scenes, including destruction, disabling, re-filtering and type changes while touching",
  "begin_contact checks that one begin arrives for one pair; no test observes end, pre-solve or post-solve, or destruction while touching.",
  [S+"dynamics/b2_contact.rs", S+"dynamics/b2_contact_manager.rs", S+"dynamics/b2_island_private.rs"],
  [("status change detection in contact update", S+"dynamics/b2_contact.rs"), ("end on destroy", S+"dynamics/b2_contact_manager.rs"), ("post-solve report per island", S+"dynamics/b2_island_private.rs")],
  ["contact listener callbacks"])
p("C06", "Collision filters decide which pairs may collide",
  "Two fixtures interact only if their filters allow it: equal non-zero groups decide by the group's sign, otherwise each one's category must be in the other's mask; a user-supplied filter replaces this rule; bodies joined by a joint that forbids collision never interact. Setting a fixture's filter, re-filtering it, or adding such a joint takes effect at the next step; after a joint is removed or a user-supplied rule changes, the pair is decided anew when it is re-filtered or next found.",
  ["configurations", "histories"], "all filter triples, joint combinations, re-filtering and custom filters over time",
  TESTS + "; no test sets a filter.",
  [S+"dynamics/b2_world_callbacks.rs", S+"dynamics/b2_fixture.rs", S+"dynamics/b2_body.rs", S+"dynamics/b2_contact_manager.rs", S+"dynamics/b2_world.rs"],
  [("should_collide rule", S+"dynamics/b2_world_callbacks.rs"), ("flag for filtering and touch proxies", S+"dynamics/b2_fixture.rs"), ("joint collide_connected test", S+"dynamics/b2_body.rs")],
  ["contact list", "contact listener", "bodies' motion"])
p("C07", "Sensors report overlap but never push",
  "A contact involving a sensor fixture reports begin and end as the shapes start and stop overlapping, never reports pre-solve or post-solve and never changes any body's velocity or position. Turning a fixture into a sensor or back takes effect from the next step.",
  ["histories", "configurations"], "all sensor placements, shapes, toggles and motions",
  TESTS + "; no test uses a sensor that moves through or is toggled.",
  [S+"dynamics/b2_contact.rs", S+"dynamics/b2_world.rs", "src/b2_fixture.rs", S+"dynamics/b2_contact_manager.rs"],
  [("sensor branch in contact update", S+"dynamics/b2_contact.rs"), ("sensor exclusion when building islands and in continuous collision", S+"dynamics/b2_world.rs")],
  ["contact listener", "body velocities with and without the sensor"])
p("C08", "Spatial tree queries and ray casts return exactly the right proxies",
  "After any history of insertions, removals, moves, rebuilds and origin shifts, an AABB query on the dynamic tree visits exactly the live proxies whose stored boxes overlap it, once each, and a ray cast visits every proxy whose box the ray crosses and that the callback's clipping has not excluded. Stored boxes always contain the proxy's last given box; identifiers and user data stay attached to their proxy; the tree keeps a valid, balanced, bounded-height structure.",
  ["histories", "inputs"], "all operation histories, all query boxes and rays, all callback return values",
  TESTS + "; no test uses the tree directly.",
  ["src/b2_dynamic_tree.rs", S+"collision/b2_dynamic_tree.rs"],
  [("insert_leaf / remove_leaf / balance", S+"collision/b2_dynamic_tree.rs"), ("fat boxes", S+"collision/b2_dynamic_tree.rs"), ("stack traversal", "src/b2_dynamic_tree.rs")],
  ["query and ray_cast callbacks", "get_fat_aabb, get_user_data, get_height, validate"])
p("C09", "Broad phase reports every new overlapping pair",
  "A pair update reports each pair of proxies whose enlarged boxes overlap and of which at least one was created, moved out of its box or touched since the last update, never a proxy with itself and never a destroyed proxy, and only once if neither proxy was changed more than once. Pairs not involving such a proxy are not reported.",
  ["histories"], "all create/destroy/move/touch/update histories",
  TESTS + "; none uses the broad phase directly.",
  ["src/b2_broad_phase.rs", S+"collision/b2_broad_phase.rs"],
  [("move buffer and un-buffering on destroy", S+"collision/b2_broad_phase.rs"), ("pair ordering and duplicate suppression", "src/b2_broad_phase.rs")],
  ["add_pair callbacks", "get_fat_aabb, test_overlap, get_proxy_count"])
p("C10", "World queries and ray casts see every fixture where it is now",
  "A world AABB query reports every fixture child whose bounding box overlaps the region, and a world ray cast reports every fixture the ray hits with the exact hit point, normal and fraction, right after any creation, teleport, enabling change or step. The callback's return value controls the cast: zero stops it, a fraction clips it, one continues and minus one ignores the fixture; returning false stops a query. Disabled and destroyed objects are never reported.",
  ["inputs", "histories"], "all scenes, query regions, rays and callback policies",
  TESTS + "; none queries a world.",
  [S+"dynamics/b2_world.rs", "src/b2_world.rs", S+"dynamics/b2_fixture.rs", "src/b2_dynamic_tree.rs"],
  [("ray-cast wrapper", S+"dynamics/b2_world.rs"), ("proxy synchronisation", S+"dynamics/b2_fixture.rs")],
  ["query_aabb / ray_cast callbacks"])
p("C11", "Shape ray casts return the first surface point the ray meets",
  "For every shape and transform, a ray cast reports a hit exactly when the segment meets the surface from outside within its maximum fraction, and then the fraction gives the first such point and the normal is the unit outward surface normal there (facing the ray's start for edges). A ray starting inside a solid shape, or one passing behind a one-sided edge, is not a hit.",
  ["inputs"], "all shapes, children, transforms and rays (any length, grazing, parallel, clipped)",
  TESTS + "; none casts a ray at a shape.",
  [S+"collision/b2_circle_shape.rs", S+"collision/b2_polygon_shape.rs", S+"collision/b2_edge_shape.rs", S+"collision/b2_chain_shape.rs", S+"collision/b2_collision.rs"],
  [("per-shape analytic ray cast", S+"collision/"), ("slab test for boxes", S+"collision/b2_collision.rs")],
  ["shape and fixture ray_cast results"])
p("C12", "Shape bounding boxes and point tests match the shape's point set",
  "The bounding box computed for a shape child under any transform contains every point of the shape including its skin and is no larger than the shape needs. A point test is true exactly for points inside the solid shape without its skin; edges and chains contain no point.",
  ["inputs"], "all shapes, children and transforms, all points",
  TESTS + "; collision_test only computes one polygon's mass.",
  [S+"collision/b2_circle_shape.rs", S+"collision/b2_polygon_shape.rs", S+"collision/b2_edge_shape.rs", S+"collision/b2_chain_shape.rs", "src/b2_fixture.rs"],
  [("compute_aabb / test_point", S+"collision/")],
  ["compute_aabb, test_point on shapes and fixtures"])
p("C13", "Shape mass, centre and inertia equal those of the solid it describes",
  "For every circle and convex polygon, any density and any placement in body space, the reported mass is density times area, the centre is the centroid and the rotational inertia is taken about the body origin. Edges and chains have no mass.",
  ["inputs"], "all shapes, densities and offsets",
  "collision_test checks a single triangle-like polygon at two offsets.",
  [S+"collision/b2_polygon_shape.rs", S+"collision/b2_circle_shape.rs", S+"collision/b2_edge_shape.rs"],
  [("compute_mass", S+"collision/")],
  ["compute_mass", "fixture get_mass_data"])
p("C14", "Polygon construction yields the convex hull of the given points",
  "Setting a polygon from points yields a convex, counter-clockwise polygon whose corners are input points, which contains every input point to within the welding tolerance, with unit outward normals matching its edges and the centroid of its area. Box constructors give exactly the requested box, and a built polygon passes its own validity test.",
  ["inputs"], "all point sets of up to the vertex limit, incl. duplicates, interior, collinear and any order",
  "collision_test builds one polygon from points that already form its hull.",
  [S+"collision/b2_polygon_shape.rs", "src/shapes/b2_polygon_shape.rs"],
  [("gift wrapping with welding", S+"collision/b2_polygon_shape.rs"), ("centroid and normals", S+"collision/b2_polygon_shape.rs")],
  ["polygon vertices, normals, centroid, validate"])
p("C15", "Distance queries return the true separation and its witness points",
  "For any two convex point sets with radii and any transforms, the distance query returns the minimum distance between the sets (zero when they overlap), witness points that lie on the respective sets and are that far apart, and with radii applied the distance reduced by both radii, never below zero, with witnesses on the rounded surfaces when these are apart. The result does not depend on the warm-start cache left by earlier queries of the same pair or on which set comes first, and the overlap test agrees with it.",
  ["inputs", "histories"], "all shape pairs and transforms, cold and warm caches",
  TESTS + "; none calls the distance query.",
  [S+"collision/b2_distance.rs", "src/b2_distance.rs", S+"collision/b2_collision.rs"],
  [("GJK simplex solver", S+"collision/b2_distance.rs"), ("simplex cache validation", S+"collision/b2_distance.rs")],
  ["b2_distance_fn output", "b2_test_overlap_shapes"])
p("C16", "Shape casts stop at first touch",
  "A linear shape cast reports a hit exactly when the moving set comes to touch the fixed one within the translation, and then the reported fraction is the first moment of touch, the point lies on both surfaces and the normal is the unit contact normal. Before the reported fraction the sets are apart.",
  ["inputs"], "all convex pairs, radii, transforms and translations",
  TESTS + "; none calls the shape cast.",
  [S+"collision/b2_distance.rs"],
  [("GJK ray cast", S+"collision/b2_distance.rs")],
  ["b2_shape_cast output"])
p("C17", "Time of impact is the first moment two moving shapes come together",
  "For any pair of shapes and any pair of sweeps, if a touching time is reported then the separation there equals the small target separation and, up to what rotation bends the motion, the shapes are not deeper together at any earlier time; if separation is reported they stay apart for the whole interval to the same accuracy; if they overlap at the start that is what is reported. The reported time lies in the requested interval.",
  ["inputs"], "all convex pairs and all translating and rotating sweeps",
  "math_test only evaluates a sweep; no test computes a time of impact.",
  [S+"collision/b2_time_of_impact.rs", "src/b2_time_of_impact.rs", "src/b2_math.rs"],
  [("conservative advancement with separating-axis root finding", S+"collision/b2_time_of_impact.rs")],
  ["b2_time_of_impact output"])
p("C18", "Contact manifolds describe the real contact between two shapes",
  "For circle, polygon and edge pairs under any transforms, a manifold has points exactly when the shapes are within contact range; its world normal is unit length, points from the first shape to the second and is the direction of (near) least penetration, its points lie in the contact region and its separations equal the measured gap along the normal. Point identifiers persist for unchanged features, and the point-state comparison of two manifolds reports added, persisting and removed points accordingly.",
  ["inputs"], "all shape pairs, transforms, depths and feature combinations",
  TESTS + "; no test looks at a manifold.",
  [S+"collision/b2_collide_circle.rs", S+"collision/b2_collide_polygon.rs", S+"collision/b2_collide_edge.rs", S+"collision/b2_collision.rs"],
  [("separating axis tests, reference/incident clipping", S+"collision/b2_collide_polygon.rs"), ("Voronoi regions and adjacency", S+"collision/b2_collide_edge.rs"), ("world manifold", S+"collision/b2_collision.rs")],
  ["b2_collide_* output", "B2worldManifold", "b2_get_point_states"])
p("C19", "Chains and one-sided edges act as smooth one-sided ground",
  "A chain's children are exactly its consecutive segments with their true neighbours (wrapping around for loops), and a chain or one-sided edge collides only from its front side. A body sliding over the joints of a flat or convex chain is not deflected or stopped by an internal vertex.",
  ["inputs", "histories"], "all chains and loops, approach sides, sliding speeds and shapes",
  TESTS + "; no test creates a chain.",
  [S+"collision/b2_chain_shape.rs", S+"collision/b2_collide_edge.rs", S+"dynamics/contacts/b2_chain_polygon_contact.rs", S+"dynamics/contacts/b2_chain_circle_contact.rs"],
  [("ghost vertices in child edges", S+"collision/b2_chain_shape.rs"), ("one-sided rejection and normal snapping", S+"collision/b2_collide_edge.rs")],
  ["get_child_edge", "manifolds", "body motion along chains"])
p("C20", "Free bodies move by the documented integration rule",
  "A dynamic body without contacts or joints changes velocity by time step times (gravity scaled by its gravity scale plus applied force over mass), torque likewise over inertia, is damped by 1/(1+step·damping), and then moves by the new velocity, limited to the maximum translation and rotation per step. Its position always equals its centre of mass position minus the rotated local centre.",
  ["inputs", "configurations"], "all masses, dampings, gravities, forces, velocities, steps",
  "hello_world checks where one falling box ends; no test varies damping, gravity scale, force, torque or the speed limits.",
  [S+"dynamics/b2_island_private.rs", S+"dynamics/b2_body.rs", "src/b2_body.rs", "src/b2_math.rs"],
  [("velocity and position integration with clamps", S+"dynamics/b2_island_private.rs")],
  ["body transform and velocity after each step"])
p("C21", "Forces and impulses act by Newton's laws and last one step",
  "Applying an impulse at a point changes linear velocity by impulse over mass and angular velocity by its moment about the centre of mass over inertia, at once; forces and torques add up and act during the following step only, unless automatic clearing is off, when they last until cleared. They act only on dynamic bodies; a sleeping body is woken or, if waking is not asked for, left entirely unaffected.",
  ["inputs", "histories", "configurations"], "all impulses, forces, points, body types, sleep states, wake flags, clearing modes",
  TESTS + "; none applies a force or an impulse.",
  ["src/b2_body.rs", S+"dynamics/b2_world.rs", S+"dynamics/b2_island_private.rs"],
  [("accumulators and wake test", "src/b2_body.rs"), ("clear_forces", S+"dynamics/b2_world.rs")],
  ["body velocities"])
p("C22", "A body's mass is always the sum of its fixtures",
  "At all times a dynamic body's mass, centre and inertia are the combined values of its fixtures' shapes and densities (no rotational inertia when rotation is fixed), are updated by adding or destroying a fixture, by a mass reset and by a type change, and are overridden only by explicit mass data, in which no mass means one kilogram. When fixtures or mass data move the centre of mass, the velocity of every body point stays what it was.",
  ["histories", "inputs"], "all fixture add/remove/density/fixed-rotation/type/mass-data histories",
  "collision_test checks a shape's mass, never a body's.",
  [S+"dynamics/b2_body.rs", "src/b2_body.rs", S+"dynamics/b2_fixture.rs"],
  [("reset_mass_data / set_mass_data", S+"dynamics/b2_body.rs")],
  ["get_mass, get_inertia, get_local_center, get_mass_data, velocities"])
p("C23", "Static and kinematic bodies obey no forces",
  "A static body never moves whatever touches, joins or pushes it; a kinematic body moves exactly by its set velocity; a fixed-rotation body never turns by itself. Changing a body's type takes effect fully: masses, velocity, contacts and collision rules become those of the new type.",
  ["histories", "configurations"], "all type combinations and type changes under load",
  TESTS + "; static bodies only appear as ground and are never checked.",
  [S+"dynamics/b2_body.rs", S+"dynamics/b2_island_private.rs", "src/b2_body.rs"],
  [("zero inverse mass", S+"dynamics/b2_body.rs"), ("set_type", S+"dynamics/b2_body.rs")],
  ["body transforms and velocities", "contact list"])
p("C24", "Internal forces conserve momentum",
  "In a system of dynamic bodies without gravity, damping or contact with static or kinematic bodies, each step leaves the total linear momentum unchanged, and its angular momentum unchanged by the velocity solution, whatever contacts and joints act among the bodies. Contacts without restitution do not create kinetic energy, nor does a frictionless one-point collision with restitution of at most one.",
  ["inputs", "histories"], "all closed systems with contacts and joints of every two-body type",
  TESTS + "; none has two dynamic bodies interacting.",
  [S+"dynamics/b2_contact_solver_private.rs", S+"dynamics/joints/", S+"dynamics/b2_island_private.rs"],
  [("equal and opposite impulses", S+"dynamics/b2_contact_solver_private.rs")],
  ["body velocities, masses, inertias"])
p("C25", "Contact forces push, never pull, and friction stays in its cone",
  "Every reported normal impulse is non-negative and, once the iterations have converged, every friction impulse is at most the contact's friction coefficient times the normal impulse; together with gravity and applied forces they account exactly for the bodies' velocity change. Afterwards no solved contact point approaches, and sliding stops unless friction is saturated, in which case friction opposes the sliding (relative to the contact's surface speed).",
  ["inputs", "histories"], "all contact pairs, material values, loads, surface speeds, with one and two points",
  TESTS + "; no test inspects an impulse or friction.",
  [S+"dynamics/b2_contact_solver_private.rs", S+"dynamics/b2_contact.rs"],
  [("accumulated impulse clamping", S+"dynamics/b2_contact_solver_private.rs"), ("two-point block solver", S+"dynamics/b2_contact_solver_private.rs")],
  ["post-solve impulses, manifold impulses, body velocities"])
p("C26", "Restitution and friction follow the materials of the two fixtures",
  "A new contact's friction is the geometric mean, its restitution the larger and its restitution threshold the smaller of its fixtures' values, until overridden or reset on the contact. A body meeting a surface faster than the threshold leaves it with its approach speed times the restitution; at or below the threshold it does not bounce.",
  ["inputs", "configurations"], "all material values and approach speeds, all shape pairs",
  TESTS + "; no test sets restitution.",
  ["src/b2_contact.rs", S+"dynamics/b2_contact_solver_private.rs", S+"dynamics/b2_contact.rs"],
  [("mixing functions", "src/b2_contact.rs"), ("velocity bias", S+"dynamics/b2_contact_solver_private.rs")],
  ["contact getters", "velocity after impact"])
p("C27", "Bodies at rest are supported without sinking, drifting or gaining energy",
  "Bodies resting on ground or in stacks stay separated to within a small slop, come to rest, and do not drift sideways on level ground or slide on slopes gentler than their friction allows. Initially overlapping bodies are pushed apart gradually, without being thrown.",
  ["inputs", "configurations"], "all stacks, slopes, shapes, masses and solver settings in normal range",
  "hello_world lets one box settle on one ground box.",
  [S+"dynamics/b2_contact_solver_private.rs", S+"dynamics/b2_island_private.rs"],
  [("non-linear position correction", S+"dynamics/b2_contact_solver_private.rs"), ("warm starting", S+"dynamics/b2_contact_solver_private.rs")],
  ["fixture geometry and velocities over many steps"])
p("C28", "Fast bodies do not pass through walls",
  "With continuous collision on, a dynamic body whose centre crosses no static or kinematic surface at rest cannot end a step on the far side of a solid static wall, however thin, however fast it moves up to the speed limit (a body with corners turning at most a quarter radian a step); the same holds between a bullet and dynamic bodies. With continuous collision off or for sensors, disabled contacts and filtered pairs, motion is not obstructed.",
  ["inputs", "histories", "configurations"], "all wall and projectile shapes, speeds, spins, bullet flags, sub-stepping modes",
  TESTS + "; nothing moves fast in any test.",
  [S+"dynamics/b2_world.rs", S+"collision/b2_time_of_impact.rs", S+"dynamics/b2_island_private.rs", S+"dynamics/b2_contact_solver_private.rs"],
  [("solve_toi event loop", S+"dynamics/b2_world.rs"), ("TOI island", S+"dynamics/b2_island_private.rs")],
  ["body positions after each step relative to the walls"])
p("C29", "Bodies sleep only at rest, all together, and wake when disturbed",
  "A body falls asleep only after its whole island has been below the sleep speeds for the sleep time with sleeping allowed, and then it has zero velocity and does not move until woken. Anything that should disturb it wakes it: a moving body touching it, impulses and velocity or type changes, a changed motor, limit, offset or target of its joint, the destruction of its joint or of what it touches. Bodies, or worlds, that do not allow sleep never sleep, and an island at rest does fall asleep.",
  ["histories", "configurations"], "all island shapes, disturbances and sleep settings",
  TESTS + "; no test checks is_awake.",
  [S+"dynamics/b2_island_private.rs", "src/b2_body.rs", S+"dynamics/b2_world.rs", S+"dynamics/b2_contact_manager.rs", S+"dynamics/b2_contact.rs"],
  [("island minimum sleep time", S+"dynamics/b2_island_private.rs"), ("set_awake", "src/b2_body.rs"), ("wake on contact and joint changes", S+"dynamics/b2_world.rs")],
  ["is_awake, velocities and transforms over time"])
p("C30", "Rigid joints hold their bodies together",
  "Revolute, weld, distance, prismatic and wheel joints keep their anchors coincident, at their length, on their axis and (weld, prismatic) at their reference angle to within a small tolerance under gravity, loads, spins and motors, and recover from an initial violation. The relative motion a joint leaves free is not resisted.",
  ["inputs", "histories"], "all rigid joint types, anchors, axes, masses, body-type combinations and loads",
  "joint_reactions checks reactions of two joints on one hanging body.",
  [S+"dynamics/joints/", "src/joints/", S+"dynamics/b2_island_private.rs"],
  [("velocity and position constraint solvers", S+"dynamics/joints/")],
  ["anchors, angles and velocities after each step", "joint angle/translation/length getters"])
p("C31", "Joint limits are respected",
  "With limits enabled, a revolute joint's angle, a prismatic or wheel joint's translation and a distance joint's length stay within the limits (to a small tolerance) under any load and return into them when started outside; inside the limits, or with limits disabled, motion is free. Limits take effect when set or enabled during simulation.",
  ["inputs", "histories"], "all limit intervals (including equal limits), loads, speeds and changes over time",
  TESTS + "; no test enables a limit.",
  [S+"dynamics/joints/b2_revolute_joint.rs", S+"dynamics/joints/b2_prismatic_joint.rs", S+"dynamics/joints/b2_wheel_joint.rs", S+"dynamics/joints/b2_distance_joint.rs"],
  [("one-sided limit impulses", S+"dynamics/joints/")],
  ["joint angle/translation/length getters computed from body transforms"])
p("C32", "Motors reach their target within their force limit and never exceed it",
  "A revolute, prismatic or wheel motor drives the relative speed to the set value using no more than its maximum torque or force, and holds it exactly when that suffices; a friction joint, a motor joint and a mouse joint never apply more than their maximum force and torque, and bring relative motion to rest, to the offset or to the target when that suffices. Changing speed, target or maximum during simulation takes effect at the next step.",
  ["inputs", "histories"], "all motor types, speeds, caps, loads and parameter changes",
  TESTS + "; no test uses a motor.",
  [S+"dynamics/joints/", "src/joints/"],
  [("clamped accumulated motor impulse", S+"dynamics/joints/")],
  ["joint speed and motor force getters", "body velocities"])
p("C33", "Springs follow their stiffness and damping",
  "Soft distance, weld, wheel and mouse joints act as springs: one step changes the velocity by the implicit spring-damper law for the given stiffness and damping, and the static deflection under a load is load over stiffness. The helper functions convert frequency and damping ratio to the stiffness and damping that give that oscillation for the two bodies' masses.",
  ["inputs"], "all stiffnesses, dampings, masses, loads and steps for all four joint types",
  TESTS + "; no test uses a soft joint.",
  ["src/b2_joint.rs", S+"dynamics/b2_joint.rs", S+"dynamics/joints/b2_distance_joint.rs", S+"dynamics/joints/b2_weld_joint.rs", S+"dynamics/joints/b2_wheel_joint.rs", S+"dynamics/joints/b2_mouse_joint.rs"],
  [("soft constraint bias and gamma", S+"dynamics/joints/"), ("b2_linear_stiffness / b2_angular_stiffness", S+"dynamics/b2_joint.rs")],
  ["velocity change over a step, equilibrium positions, oscillation"])
p("C34", "Reported joint reactions are the forces actually applied",
  "For a body held by a single joint, the joint's reported reaction force and torque at its anchor, times the time step, account for the whole change of the body's momentum in the step beyond gravity and applied forces; the motor force getter reports the motor's share. They scale with the inverse step passed in and are zero for a joint that is not loaded.",
  ["inputs", "histories"], "all joint types, loads, anchors, warm starting and varying time steps",
  "joint_reactions checks one revolute, one prismatic and one wheel joint in equilibrium.",
  ["src/joints/", S+"dynamics/joints/"],
  [("get_reaction_force / get_reaction_torque", "src/joints/"), ("impulse scaling by the step ratio", S+"dynamics/joints/")],
  ["reaction getters versus body momentum change"])
p("C35", "Gears and pulleys keep their coupling ratio",
  "A gear joint keeps coordinate one plus ratio times coordinate two constant for revolute and prismatic joints in any combination; a pulley joint keeps length one plus ratio times length two constant. The coupling transmits motion and load by that ratio in both directions.",
  ["inputs", "histories"], "all joint pair kinds, ratios of either sign, masses, loads and speeds",
  TESTS + "; no test creates a gear or pulley.",
  [S+"dynamics/joints/b2_gear_joint.rs", S+"dynamics/joints/b2_pulley_joint.rs", "src/joints/b2_gear_joint.rs", "src/joints/b2_pulley_joint.rs"],
  [("four-body gear Jacobian", S+"dynamics/joints/b2_gear_joint.rs"), ("pulley Jacobian", S+"dynamics/joints/b2_pulley_joint.rs")],
  ["joint coordinates and pulley lengths over time"])
p("C36", "Disabled bodies take no part in the simulation",
  "A disabled body is not simulated, has no contacts, is found by no query or ray cast, and joints attached to it do nothing; its other state is kept. Enabling it restores full participation from its current place; setting the state it already has changes nothing.",
  ["histories"], "all enable/disable histories with contacts, joints and queries",
  TESTS + "; no test disables a body.",
  [S+"dynamics/b2_body.rs", S+"dynamics/b2_world.rs", "src/b2_body.rs"],
  [("set_enabled creates and destroys proxies and contacts", S+"dynamics/b2_body.rs"), ("joint is_enabled", "src/b2_joint.rs")],
  ["contact list, queries, motion of neighbours"])
p("C37", "Dropping or destroying objects frees everything they held",
  "Once a body, fixture or joint is destroyed and the caller holds no handle to it, its memory and user data are freed (at the latest when the world is next stepped or dropped); dropping the last handle to a world frees all that the world contained. No history of operations makes live memory grow without bound.",
  ["histories"], "all create/destroy/step histories, with all joint types and callbacks",
  TESTS + "; no test checks that anything is freed.",
  [S+"dynamics/b2_world.rs", "src/b2_world.rs", S+"dynamics/b2_contact_manager.rs", "src/b2_joint.rs", S+"collision/b2_dynamic_tree.rs"],
  [("weak back references", "src/b2_body.rs"), ("list unlinking and world drop", "src/b2_world.rs")],
  ["live user-data instances", "live heap bytes"])
p("C38", "Implicit destruction is announced exactly once",
  "When a body is destroyed, the destruction listener is told once of each of its joints and each of its fixtures that are thereby destroyed, while they are still usable, and of nothing else; explicit destruction of a joint or fixture is not announced. The other bodies lose exactly those joints and are woken.",
  ["histories"], "all destruction orders with fixtures, joints of all types and contacts",
  TESTS + "; no test registers a destruction listener.",
  [S+"dynamics/b2_world.rs"],
  [("destroy_body cascade", S+"dynamics/b2_world.rs")],
  ["destruction listener callbacks", "lists after destruction"])
p("C39", "Saving and loading a world preserves it",
  "Serializing a world and loading it back, in any supported format, yields a world with the same gravity and the same bodies, fixtures, shapes, filters, user data and joints, connecting the same bodies with the same parameters; a second round trip changes nothing more. Mouse joints, contacts, accumulated solver impulses and masses set by hand are not part of a saved world. Apart from those the loaded world continues as the original does to within solver tolerance.",
  ["inputs", "configurations"], "all worlds built from all shape and joint types, JSON and binary formats",
  TESTS + "; no stable test serializes a world.",
  ["src/serialize/", "src/joints/serialize/", "src/shapes/serialize_b2_polygon_shape.rs"],
  [("object indices for joint references", "src/serialize/serialize_b2_world.rs"), ("definition extraction", "src/joints/serialize/")],
  ["world contents before and after", "motion after loading"])
p("C40", "Shifting the origin changes coordinates and nothing else",
  "Shifting a world's origin subtracts the new origin from every body position, joint target and ground anchor and spatial index, so that velocities, contacts, touching states, joint coordinates, queries at correspondingly shifted places and the subsequent motion are unchanged up to rounding.",
  ["inputs", "histories"], "all worlds with all joint types, contacts, sleeping bodies, and shift vectors",
  TESTS + "; no test shifts the origin.",
  [S+"dynamics/b2_world.rs", "src/b2_dynamic_tree.rs", "src/joints/b2_mouse_joint.rs", "src/joints/b2_pulley_joint.rs"],
  [("shift_origin on bodies, joints and tree", S+"dynamics/b2_world.rs")],
  ["positions, queries, subsequent motion against an unshifted twin"])
p("C41", "Results do not depend on where or how the scene is turned or mirrored",
  "Moving or rotating both shapes rigidly leaves distances, times of impact, shape-cast and ray-cast fractions and manifold geometry unchanged up to rounding, and a whole scene (with its gravity) moved or rotated evolves as the moved or rotated original over a step. Swapping the two shapes of a pair gives the mirrored answer.",
  ["inputs"], "all shapes and scenes, all rigid motions of moderate size",
  TESTS + " in one frame.",
  ["src/b2_collision.rs", S+"collision/", S+"dynamics/"],
  [("frame-independent formulas in relative coordinates", S+"collision/")],
  ["collision functions and world steps under rigid motion"])
p("C42", "Math types satisfy their algebraic laws",
  "Vector, matrix, rotation, transform and sweep operations satisfy their defining identities to rounding: products, inverses and solves agree, transposed multiplication undoes multiplication, composition matches sequential application, clamp, min, max and abs act component-wise, and sweeps interpolate, advance and normalise consistently. Singular systems give zero rather than infinities, and the power-of-two helpers are right for every value whose result fits in 32 bits.",
  ["inputs"], "all finite values of moderate size, all 32-bit integers for the helpers",
  "math_test evaluates one sweep at one point.",
  ["src/b2_math.rs", S+"common/b2_math.rs"],
  [("operator and free-function definitions", "src/b2_math.rs")],
  ["function results"])
p("C43", "Ropes keep their pins, lengths and finiteness under every model",
  "For every stretching and bending model, a rope's zero-mass points follow the given position exactly, its free points fall and swing under gravity and damping and are pulled straight and to length as stiffly as tuned, with momentum only from gravity and pins. Stiff ropes keep near their rest lengths, and a rope that is not torn far out of shape never gets a non-finite point, whatever is pinned or of zero length. Reset returns the rope to its bind shape at rest, and a zero step changes nothing.",
  ["inputs", "configurations", "histories"], "all models, tunings, masses, motions and steps",
  TESTS + "; no test uses ropes.",
  [S+"rope/b2_rope.rs", "src/b2_rope.rs"],
  [("position based stretching and bending constraints", S+"rope/b2_rope.rs")],
  ["points drawn by the rope's draw method"])
p("C44", "Debug drawing shows exactly what exists",
  "Debug drawing, according to its flags, draws each fixture's geometry once at its current transform in the colour for its body's state, each joint's anchors, every proxy box, contact pairs and centres of mass, and nothing else. It changes nothing in the world.",
  ["inputs", "configurations"], "all flag sets, shapes, body states and joints",
  TESTS + "; no stable test draws.",
  [S+"dynamics/b2_world.rs", "src/b2_joint.rs", S+"dynamics/b2_joint.rs", S+"dynamics/joints/", "src/b2_draw.rs"],
  [("draw_shape and colour selection", S+"dynamics/b2_world.rs")],
  ["draw callbacks"])
p("C45", "Valid use never panics and never produces non-finite state",
  "No sequence of calls with valid arguments, made outside world callbacks, panics, overflows or hangs, and all positions, velocities, impulses and query results stay finite, even for extreme but valid sizes, masses, speeds, overlaps and object counts.",
  ["histories", "inputs", "configurations"], "all valid API histories, including degenerate geometry accepted by the API",
  TESTS + "; the API combinations exercised are a handful.",
  ["src/", S],
  [("assertions and RefCell borrow discipline throughout", "src/")],
  ["panics", "finite checks on all observable state"])
p("C46", "Objects report what they were defined or set to",
  "Every getter of a freshly created body, fixture, joint, contact or world returns what its definition or documented default gave, every setter is reflected by its getter (after documented clamping) and changes nothing unrelated, and definition initialisers compute anchors, axes, lengths and reference angles from the bodies' current placement. Body point, vector and velocity conversions agree with the body's transform and velocity.",
  ["inputs", "configurations"], "all definition fields and setters of all types with arbitrary valid values",
  TESTS + "; a few getters are read back in them.",
  ["src/b2_body.rs", "src/b2_fixture.rs", "src/joints/", "src/b2_world.rs", "src/b2_joint.rs", S+"dynamics/joints/b2_distance_joint.rs"],
  [("definition copying in constructors", "src/joints/")],
  ["getters"])
p("C47", "Step settings select how a step is done, not what happens to be true",
  "A zero-length step moves nothing but updates contacts; sub-stepping resolves one impact per step call and completes the same motion over several calls; more iterations, warm starting or not, converge to the same physical outcome. Teleporting a body places it exactly and updates collision at once, and a structure at rest stays at rest when step lengths and iteration counts change.",
  ["configurations", "histories"], "all combinations of step length, iteration counts, warm starting, sub-stepping, continuous and sleep settings",
  TESTS + " with one setting.",
  [S+"dynamics/b2_world.rs", "src/b2_world.rs", S+"dynamics/b2_body.rs"],
  [("step pipeline and its switches", S+"dynamics/b2_world.rs"), ("set_transform", S+"dynamics/b2_body.rs")],
  ["state before and after steps under each setting"])
out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for x in P: f.write(json.dumps(x) + "\n")
print(len(P))
