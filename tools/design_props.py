# id -> (generated, oracle, bounds and what is not judged)
D = {
"C01": ("Random histories over the whole API (bodies, fixtures, all joints, queries, toggles, sub-steps).",
 "The history is run twice and more: alone, interleaved call by call with another world, on other threads, after allocator churn. After every call a bit hash of all body states, contacts, joint reactions and recorded events must agree.",
 "Same build, same machine. Address-dependent or hash-order-dependent behaviour shows as a difference between runs."),
"C02": ("Random histories with creation, destruction in any order, enabling, type changes, steps.",
 "A history model knows which objects live. After each call the world's lists and counts, each body's fixture, joint and contact lists, both directions of every link, and the number of proxies are compared with the model.",
 "Joints are destroyed before the gears using them only in the order the library demands (gear first)."),
"C03": ("Histories with teleports, filters, type changes, joints forbidding collision; pairs driven apart and together on a path; steps of no length right after something is created.",
 "After each completed step: all pairs of fixture children, their tight boxes in f64, the collision rule, against the contact list (missing, duplicate, forbidden, stale).",
 "Box overlaps below 1e-3 are not judged; a pair released by a removed joint is expected when it next moves or is re-filtered."),
"C04": ("Scenes, and single pairs of every shape kind at a random gap (also on the whole-number grid).",
 "A zero-length step examines the contact without moving anything; then f64 distance decides touching and the manifold is recomputed from the current transforms through the public collision functions.",
 "Not judged inside the polygon skin near corners and for one-sided edges nearer than the contact range."),
"C05": ("Scenes with destruction, disabling, sensors, filters and contacts disabled in pre-solve; whatever is examined and left enabled must be reported as solved.",
 "An event automaton per contact (begin/end alternation, pre-solve before solving, post-solve only if solved, impulse counts), closed at each step against the list of touching contacts; the *ghost* part compares a world whose contacts are disabled in every pre-solve with one without the obstacle.",
 "With continuous collision on a contact may be examined more than once per step."),
"C06": ("Clusters with random group/category/mask triples, custom filters, forbidding joints, re-filtering, chains with many children.",
 "A reference rule in the harness against contacts and events one step later; *anew* counts that a user rule is asked when a pair is found or re-filtered.",
 "*anew* uses steps of positive length, because a zero step does not look for pairs again."),
"C07": ("Lanes with sensors on either body, moved through each other, toggled.",
 "Begin/end against f64 overlap, no pre/post-solve, and body states equal to a twin world without the sensor fixtures.",
 "Sensors carry no mass here so that the twin's bodies are the same."),
"C08": ("Histories of insert, remove, move, touch, rebuild, shift on the tree; nested boxes for deepest trees.",
 "A flat list of boxes: queries and casts compared with brute force, fat boxes contain tight ones, user data, structure validated, height bound.",
 "Rays have a rounding band; the height bound is dropped after a bottom-up rebuild."),
"C09": ("Histories on the broad phase; crowds of hundreds of overlapping proxies.", "A flat-list model of the moved set; the reported pairs must be exactly the expected ones.", "A pair may be reported twice if a proxy of it was moved or touched twice."),
"C10": ("World histories followed at once by queries and casts with scripted callback returns.",
 "Brute force over all fixtures with f64 ray intersections; the callback's policy is replayed on the reference hit list.",
 "Grazing rays are skipped; a region query may also report fixtures whose stored (enlarged) box reaches into the region."),
"C11": ("All shapes, transforms and rays: generic, aimed at corners, parallel to edges, on the grid, zero length.",
 "f64 analytic intersection of the segment with the solid or curve.", "Hits within rounding of a corner, tangent or end of the ray are counted, not judged."),
"C12": ("Shapes, transforms, points near and far, boxes.", "f64 support points bound the box from both sides, half-planes decide the point test; box combination, containment and overlap by their definitions.", "Points within rounding of the surface are counted."),
"C13": ("Circles and hulls over several decades of size and offset.", "f64 integrals over the polygon's own vertices.", "Tolerance grows with the offset from the origin because vertices are f32."),
"C14": ("Point sets with duplicates, collinear points, grids, near-welding pairs; boxes.", "f64 hull: corners are inputs, orientation, containment, unit normals, centroid; boxes exactly.", "Sets with nearly no area or pairs right at the welding distance are not valid input."),
"C15": ("Proxies of every shape kind and raw points with radii, generic and grid transforms, cache reused along a path.", "f64 exact distance of the hulls; witnesses lie on the sets and are that far apart; cold = warm = swapped; overlap test agrees.", "1e-5 of the scene scale."),
"C16": ("Proxies and translations, near misses, grid.", "f64 bisection on the exact distance along the translation: hit or not, first fraction, point, normal.", "Cases within the skin (0.01) of a miss or starting in touch are skipped."),
"C17": ("Shape pairs and sweeps (spin, off-centre rotation, partial intervals).", "Exact f64 distance at the reported time and at 240 times before it.", "What rotation bends within one sample is allowed for."),
"C18": ("Circle, polygon and edge pairs at gaps from deep overlap to out of range, generic and grid, with the usual and other skins; boxes flat on a face; pairs of manifolds for point states.", "f64 geometry: existence, unit normal, direction, near-least penetration, points in the contact region, separations; exact patch for flat boxes; identifiers under a tiny motion; point states by set algebra on identifiers.", "Near a pair of corners existence is not judged within 1.5 radii."),
"C19": ("Chains and loops of any shape; direct manifolds on both sides; polygons and circles at an edge with neighbours turning either way, where the push must lie between the neighbours' normals or be left to them; bodies sliding over joints and passing from behind.", "Children compared with the vertex list; nothing from behind, something from the front; sliding speed and height stay; a passing body is not deflected until it is in front, a body in front is stopped.", "A corner within 0.1 of a chain join is not judged in *pass*."),
"C20": ("Bodies with any damping, gravity scale, force, torque, speed up to and beyond the limits, off-centre masses.", "f64 prediction of one step.", "Sleeping off, bodies filtered apart; a relative tolerance at the speed limits."),
"C21": ("Sequences of impulses, forces, torques on all body types, awake, asleep, with and without wake; auto-clear on and off.", "f64 prediction of velocities after each call and step.", "No gravity."),
"C22": ("Histories of fixtures, densities, mass data, resets, type and rotation changes.", "f64 aggregate of the shapes; velocity of body points before and after.", "Relative to the sums of absolute values (cancellation far from the origin)."),
"C23": ("Static, kinematic and fixed-rotation bodies under piles, joints, impacts, forces; type changes in touch and to and fro before a step; paddles among bullets with contacts switched off.", "Exact prediction of position and velocity; twin created as the new type from the start.", "Whole steps only."),
"C24": ("Closed systems of bodies with contacts and every joint kind; two-body impacts.", "Total linear and angular momentum before and after each step; kinetic energy not increased.", "Speeds below the limits; angular momentum relative to the step's starting positions."),
"C25": ("Single contacts (one and two points, surface speed, friction from 0) and heaps.", "Reported impulses: non-negative, in the friction cone, equal to the velocity change; complementarity (approach speed zero or impulse zero; friction saturated and opposing or no sliding).", "Continuous collision off so that there is one velocity solution per step; many iterations where convergence is needed."),
"C26": ("Random materials, overrides and resets; head-on and spinning impacts.", "Mixing formulas; approach and departure speeds around the threshold.", "Approach speeds within rounding of the threshold are not judged."),
"C27": ("Drops, stacks, walls, pyramids, slopes on both sides of the friction angle, deep overlaps.", "f64 penetration, drift, kinetic energy, acceleration on the slope; pushed-apart speed and overshoot.", "Stacks are given 4 s to settle; overlap cases with continuous collision off (see corrections)."),
"C28": ("Rooms and corridors of thin walls, plates, kinematic walls, bullets between dynamic bodies, sensors, filtered and disabled contacts.", "Side-of-wall test of every centre after each step; bounce speed and side; free flight where nothing may obstruct.", "Crowded rooms and bodies with corners turning over 0.25 rad per step are counted, not judged."),
"C29": ("Histories; lone bodies and pairs around the speed and time thresholds; settling scenes; a matrix of disturbances; deep overlaps pushed out without velocity.", "A sleep clock per body and island model: nobody sleeps early, alone or without leave; sleepers are still; each disturbance wakes (or does not wake) exactly what it should.", "Bodies created asleep with a velocity are exempt; disabled bodies keep their clock."),
"C30": ("Each rigid joint with random anchors, axes, masses, loads, spins, initial errors; welds with a soft angle, wheels with a spring, motors, distance joints of fixed length that also carry a stiffness; assemblies.", "*law*: velocity conditions after one well-iterated step (constraint satisfied, free directions unresisted) against an f64 solution; *hold*: constraint error from the transforms over time, recovery.", "Per-joint tolerances (wheel 0.03, prismatic 0.04, revolute 0.0705 rad) measured over thorough runs; steps that hit the rotation clamp are counted as too fast."),
"C31": ("Each limited joint inside, at and outside its limits, limits changed, toggled, equal.", "Complementarity per limit in one step; position within limits over time; free inside.", "Limits closer than 0.1 are judged by speed only."),
"C32": ("Each motor, friction, motor and mouse joint with random caps and targets, changed on the way.", "Speed reached or cap reached, never more than the cap; direction; effect at the next step.", "A capped planar force has no unique direction when rotation couples in; then only the cap and energy are judged."),
"C33": ("Springs of each soft joint, also switched off and on; loads; frequencies.", "f64 implicit spring law per step; deflection = load/stiffness; helper formulas for the masses.", "Rest is waited for up to 1500 steps."),
"C34": ("One body on each joint kind under loads; pulleys; rows of hanging bodies.", "Momentum balance with the reported force and torque at the anchor; motor share; scaling with the inverse step.", "Hanging rows get damping to come to rest."),
"C35": ("Gears (all four combinations, any ratio sign) on the ground, on moving carriers and on one shared carrier; pulleys with ratios.", "Coupling error over time, transmitted load, and, for carriers, the exact f64 solution of all constraints at once; momentum.", "Slip is only partly corrected per step, so its decay is bounded, not its value."),
"C36": ("Enable/disable histories; forces on disabled bodies.", "Twin with the body destroyed instead; twin that stood still; queries, proxies, contacts.", "A dozen steps; touching bodies within 4e-3."),
"C37": ("Histories with handles dropped at any time, cycles of do/undo, large worlds.", "Counted user data per object, live bytes at the allocator before and after, no growth over repetitions, no stack overflow on drop.", "Counts per thread."),
"C38": ("Destruction of bodies with fixtures and joints (also joints to the same body, gears excepted).", "The expected set of notices, each once, objects usable during the notice; the partners' lists and wakefulness.", "The order of notices is free."),
"C39": ("Random worlds with every shape, joint, filter, user data.", "Structural comparison after one and two round trips in two formats (text and binary); continued motion.", "Warm-start impulses are lost, so motion is compared at high iteration counts."),
"C40": ("Worlds with a shifted twin; fast bodies on their way to a standing or moving wall when the origin is shifted.", "Positions, joint coordinates, anchors, touching, queries, casts and steps afterwards.", "Outcomes that a rounding-size disturbance changes are not judged."),
"C41": ("Pairs and scenes, rotated, moved, mirrored, swapped.", "The transformed answer of the original.", "As C40; two-point manifolds in the mirror by velocities only."),
"C42": ("Numbers over many decades, angles, singular integer systems, all powers of two.", "f64 identities and definitions.", "Solves with condition number below 1e3."),
"C43": ("Ropes of every model pair, pins anywhere, zero-length segments, re-creation, tuning; a point swinging between two pins on compliant segments.", "Drawn points: pins exact, centre of mass falls, lengths, sag, one-step bending against the model's own stiffness law, reset, mirror.", "Slack or over-stiff explicit settings that run away are counted."),
"C44": ("Worlds in every state and all flag combinations.", "The expected multiset of primitives; world hash before and after.", "Joint colours and point sizes are free."),
"C45": ("Hostile histories; degenerate single joints (zero lengths, coincident anchors, bodies without mass or inertia, gears); extreme sizes, masses, speeds, steps, places; crowds; direct calls of the collision functions on coincident, identical, tiny, huge and grid inputs.", "No panic, no non-finite number in any observable, an iteration/time budget per case that yields *no answer*, not a violation.", "Valid means accepted by the constructors; contradicting rigid joints that diverge are counted."),
"C46": ("Random definitions and setter sequences for every object kind.", "Getters against the definition, setter effect only on its own getter, initialisers in f64, conversions.", "List order is free; setters may wake."),
"C47": ("Worlds under zero steps, sub-steps, warm starting on/off, iteration counts, teleports, walls placed, changing step lengths on hanging structures of 16 link kinds.", "Before/after predicates and twins.", "Compared where the solution is unique and converged; *uneven* bounds 6e-3 and 0.08 m/s."),
}
