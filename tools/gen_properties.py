#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept in step by hand; run after editing)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, state=None, observe=None, hook=None):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files, state=state or [], mechanism=mech, observe_at=observe or [], hook_needed=hook)))
def m(name, where): return dict(name=name, where=where)
def s(name, meaning, where): return dict(name=name, meaning=meaning, where=where)

p("C01", "Forward kinematics is the exact composition along the path to the root",
  "After the world transforms of a chain are updated, the transform returned for and then reported by each of its nodes equals the product, from the root of the tree down to that node, of every joint's origin followed by that joint's motion (a rotation about, or a translation along, its axis by its position; nothing for a fixed joint). This holds for every tree shape, mix of joint types, axes, origins, positions and scalar type, and for every way of building the chain (whole tree, root to an end, or between two nodes, whatever was updated or moved before). The end transform of a serial chain is the product over its own nodes only.",
  ["inputs", "configurations"], "All joint trees, joint types, unit axes, rigid origins and positions within the limits of the scalar type, chains built from a root, an end, or an end and an ancestor.",
  "Tests check one doc-test tree with axis-aligned joints, the f64 z coordinates of three nodes and one unrotated arm; they cannot cover all trees, rotated origins, arbitrary axes, sub-chains or f32.",
  ["src/chain.rs", "src/joint/joint.rs", "src/node.rs"],
  [m("Chain::update_transforms composes parent world and local transform", "src/chain.rs"), m("Joint::local_transform", "src/joint/joint.rs"), m("SerialChain::end_transform", "src/chain.rs")],
  [s("world_transform_cache", "last computed world transform of a joint", "src/joint/joint.rs")],
  ["Chain::update_transforms", "Node::world_transform", "SerialChain::end_transform"])

p("C02", "Checked position setting accepts exactly the values within the limits",
  "Setting a joint position succeeds exactly when the joint is movable and the value lies within its inclusive limits (or it has none), and then the position reads back as precisely that value. Otherwise it fails, the error names the joint and its reason (out of limits with the value and both limits, or fixed), and position, velocity, limits, origin and reported transforms stay as they were. A limited joint never accepts a value that is not a number.",
  ["inputs", "histories"], "All joint types, limits (one-sided infinite, zero width, none), values including limit values and their neighbours, infinities and NaN, in every history of settings.",
  "Doc-tests try 1.0 and -1.0 against 0..2; boundary values, degenerate limits, NaN and state after rejection in a history are not reached.",
  ["src/joint/joint.rs", "src/joint/range.rs", "src/node.rs", "src/errors.rs"],
  [m("Joint::set_joint_position checks type and limits before storing", "src/joint/joint.rs"), m("Range::is_valid", "src/joint/range.rs")],
  [s("position", "joint position", "src/joint/joint.rs")], ["Joint::set_joint_position", "Node::set_joint_position", "Error::OutOfLimitError", "Error::SetToFixedError"])

p("C03", "Clamped position setting stores the nearest value within the limits",
  "After clamped setting of any ordinary (not NaN) value, a movable joint holds exactly the value itself if it is within the limits or there are none, and otherwise exactly the violated limit; a fixed joint is left untouched. For a whole chain the i-th value applies to the i-th movable joint, missing trailing values leave their joints unchanged. The result does not depend on the previous position.",
  ["inputs", "histories"], "All joints, limits, values including infinities and boundary neighbours; vectors no longer or shorter than the chain's degrees of freedom.",
  "Doc-tests clamp 2.0 and -2.0 into -1..1 once; asymmetric, negative-only, zero-width, infinite limits and vectors over mixed chains are not reached.",
  ["src/joint/joint.rs", "src/joint/range.rs", "src/chain.rs", "src/node.rs"],
  [m("Range::clamp", "src/joint/range.rs"), m("Joint::set_joint_position_clamped", "src/joint/joint.rs"), m("Chain::set_joint_positions_clamped", "src/chain.rs")],
  None, ["Joint::joint_position", "Chain::joint_positions"])

p("C04", "Joint position vectors map one to one onto the movable joints of a chain",
  "The degrees of freedom of a chain equal the number of its non-fixed nodes, and position vectors have that length and follow the order of the movable nodes in the chain's iteration. On a chain without mimic joints an accepted vector reads back exactly and changes no joint outside the chain; a vector of another length is rejected, reporting both lengths, with nothing changed. If some value violates its joint's limits the call fails with that joint's error and every joint holds either its old or its requested position.",
  ["inputs", "configurations"], "All chains (trees, arms, sub-chains), and all vectors of right and wrong length, within and outside the limits.",
  "Tests round-trip two fixed vectors without limits; wrong lengths, fixed joints interleaved anywhere, partial limit violations and sub-chains are not tested.",
  ["src/chain.rs"], [m("Chain::from_nodes filters movable nodes once", "src/chain.rs"), m("Chain::set_joint_positions checks length first", "src/chain.rs")],
  [s("movable_nodes", "the nodes which the vector refers to", "src/chain.rs")], ["Chain::dof", "Chain::joint_positions", "Chain::set_joint_positions", "Chain::iter_joints"])

p("C05", "Mimic joints follow their leader",
  "After a successful checked position setting (of one joint or of a whole chain), every joint that mimics another holds that joint's position times its multiplier plus its offset, including joints mimicking a mimic joint and several followers of one leader, wherever they are in the tree. Setting a follower itself is accepted and changes nothing, and re-targeting a follower leaves the former leader without influence on it. If the leader rejects the value nothing changes, if the followed value is not allowed for a follower the call fails, and in no case does a joint take a value outside its limits.",
  ["inputs", "histories"], "All forests of leader/follower relations over all trees, multipliers and offsets, limits, and histories of settings and re-targetings.",
  "One unit test has a single follower without limits and one doc-test another one; chains of followers, limits of followers, re-targeting and histories are not reached.",
  ["src/node.rs", "src/joint/mimic.rs", "src/chain.rs"],
  [m("Node::set_joint_position propagates to mimic children", "src/node.rs"), m("Mimic::mimic_position", "src/joint/mimic.rs"), m("Node::set_mimic_parent", "src/node.rs")],
  [s("mimic_parent / mimic_children", "leader and followers of a node", "src/node.rs")], ["Node::set_joint_position", "Chain::set_joint_positions", "Chain::joint_positions"])

p("C06", "Chains are views: all chains over the same nodes show one shared joint state",
  "In any history of position and origin changes and transform updates made through nodes and several overlapping chains, every chain and node handle reads the same current positions and origins, and nothing else changes. A node's reported world transform is always either absent or the value computed by the most recent update that covered it, and it is absent from the moment its own position or origin was changed until that next update. Changes made through one chain never alter joints outside it that do not follow its joints.",
  ["histories"], "All interleavings of the setters (checked, clamped, unchecked), origin changes and updates over overlapping whole-tree, arm and sub-chains.",
  "No test mixes two chains over the same nodes or reads a transform after a later change, apart from one doc-test line before the first update.",
  ["src/node.rs", "src/joint/joint.rs", "src/chain.rs"],
  [m("setters reset the cached world transform of the joint", "src/joint/joint.rs"), m("nodes are shared handles", "src/node.rs")],
  [s("world_transform_cache", "absent or last computed world transform", "src/joint/joint.rs")], ["Node::world_transform", "Node::joint_position", "Chain::origin", "Joint::joint_velocity"])

p("C07", "Chain construction selects exactly the intended nodes, parents first",
  "A chain built from a root contains the root and all its descendants exactly once; one built from an end contains exactly the path from the root to it; one built between an end and an ancestor contains exactly the path between them, both included, and one built from a list of nodes exactly those, in that order. In all others every node comes after its parent; the order is the same for nodes, joints, links and positions, and each element is found by its name (the first one in that order if names repeat, nothing for an unknown name). Iterating descendants and ancestors of a node visits exactly those nodes, itself first.",
  ["inputs", "configurations"], "All trees, all choices of end and ancestor, names including duplicates and empty ones, nodes with and without links.",
  "Tests look at one six-node tree and sample.urdf; other branchings, depths, duplicate names and sub-chain boundaries are not tested.",
  ["src/chain.rs", "src/iterator.rs", "src/node.rs"],
  [m("Descendants / Ancestors iterators", "src/iterator.rs"), m("Chain::from_root / from_end / from_end_to_root / find", "src/chain.rs")],
  None, ["Chain::iter", "Chain::find", "Chain::iter_links", "Node::iter_descendants", "Node::iter_ancestors"])

p("C08", "A chain converts into a serial chain exactly when it has no branch",
  "Converting a chain built from a root into a serial chain succeeds if and only if no node of it has more than one child. The resulting serial chain has the same nodes in the same order, consecutive nodes being parent and child, and unwrapping gives the same chain back. Serial chains built from an end, or from an end to an ancestor, list exactly the path between them in order.",
  ["inputs"], "All trees built from a root, with branches at any depth; all ends and ancestors.",
  "Doc-tests try a single node and one branch at the root; a branch deep in a long chain is not tested.",
  ["src/chain.rs"], [m("SerialChain::try_new counts children", "src/chain.rs")], None, ["SerialChain::try_new", "SerialChain::unwrap", "SerialChain::from_end_to_root"])

p("C09", "Tree edits keep parent and child relations mutually consistent",
  "After any sequence of attaching nodes (also by the connect macro, also moving a node that already has a parent) and detaching them, a node lists another as child exactly once if and only if that one reports it as its parent, and lists children in the order they were attached. A node is a root exactly if it reports no parent (also when its parent was dropped) and an end exactly if it has no children. Editing relations never changes joint data.",
  ["histories"], "All histories of attach, re-attach, detach and drop operations that create no cycle.",
  "Tests only attach each node once and never detach, move or drop.",
  ["src/node.rs"], [m("Node::set_parent / remove_parent update both sides", "src/node.rs"), m("Node::is_root / is_end", "src/node.rs")],
  [s("parent / children", "weak parent and owned children", "src/node.rs")], ["Node::parent", "Node::children", "Node::is_root", "Node::is_end"])

p("C10", "Cloning a chain gives an equal and independent robot",
  "A clone of a chain that starts at a root has the same nodes in the same order with equal names, types, axes, limits, origins, positions, velocities, links, parent and mimic relations (as far as they lie within the chain), and yields the same position vector and world transforms. Any later change through the clone leaves the original unaffected and vice versa, and the same calls then have the same effect on both. Serial chains clone likewise.",
  ["inputs", "histories"], "All trees and arms with links, limits and mimic relations, then any sequence of changes applied to either or both.",
  "The only test compares a clone of sample.urdf by setting both to the same vector; order of branches, links, mimics and world transforms are not compared.",
  ["src/chain.rs"], [m("Clone for Chain rebuilds nodes, relations, links and mimics", "src/chain.rs")], None, ["Chain::clone", "SerialChain::clone"])

p("C11", "The Jacobian is the derivative of the end pose by the joint positions",
  "Column i of the Jacobian of a serial chain is the rate of change of its end transform (translation, then rotation vector, both in the frame in which the end transform is expressed) when its i-th movable joint moves and the others rest. It has six rows and one column per degree of freedom in the order of the position vector, for rotational and linear joints, fixed joints in between, any origin and any sub-chain. Computing it does not change joint positions.",
  ["inputs", "configurations"], "All serial chains (whole arms and sub-chains inside a moved robot), joint types, axes and positions.",
  "No test looks at the Jacobian; IK tests on two rotational arms pass with slightly wrong Jacobians.",
  ["src/funcs.rs", "src/chain.rs"], [m("jacobian()", "src/funcs.rs")], None, ["jacobian"])

p("C12", "IK success means the constrained pose error is within tolerance",
  "Whenever solving inverse kinematics reports success, the end transform of the arm, recomputed from the joint positions it left behind, differs from the target by less than the allowed distance over the constrained position coordinates and by less than the allowed angle over the constrained rotation coordinates. All joints of the arm are then within their limits. Disabled coordinates may deviate freely, and with nothing constrained it succeeds without moving.",
  ["inputs", "configurations"], "All arms, limits, start positions within the limits, targets (reachable or not), tolerances, multipliers, iteration counts, coordinate masks and ignored joints.",
  "Three IK tests solve for one pose each, without limits and with one mask; they compare joint angles, not pose error.",
  ["src/ik.rs"], [m("solve_with_constraints_internal compares residual of the clamped positions", "src/ik.rs"), m("calc_pose_diff_with_constraints / target_diff_to_len_rot_diff", "src/ik.rs")],
  None, ["InverseKinematicsSolver::solve", "InverseKinematicsSolver::solve_with_constraints", "SerialChain::end_transform"])

p("C13", "IK failure reports why and leaves the robot exactly as it was",
  "Whenever solving fails, all joint positions of the robot are exactly those before the call, and it always returns rather than panicking or hanging, also for unreachable, not finite or singular problems, zero iterations, and start positions outside the limits. An unknown or not movable ignored joint and too few usable joints are reported as such, with usable and needed counts, before anything moves; if exactly as many joints as needed are usable, but one has no effect or a coordinate is not affected by any, that the matrix has no inverse. A failure to converge after at least one iteration reports the iteration limit and the remaining error over the constrained coordinates, which is not within the tolerances, and the secondary objective is evaluated at most once per iteration.",
  ["inputs", "configurations"], "All arms with any limits and start positions, any target pose including NaN and infinities, masks, ignored names (unknown, repeated, too many), tolerances and iteration counts.",
  "No test makes IK fail.",
  ["src/ik.rs", "src/errors.rs"], [m("solve_with_constraints restores the original positions", "src/ik.rs"), m("precondition and joint name checks", "src/ik.rs")],
  None, ["InverseKinematicsSolver::solve_with_constraints", "Error::NotConvergedError", "Error::PreconditionError", "Error::InvalidJointNameError"])

p("C14", "IK moves only the joints it may move",
  "Solving inverse kinematics never changes the position of an ignored joint (named once or several times, anywhere in the arm, redundant or not), of any joint outside the arm, or anything but positions of the arm's own joints. At no point do the secondary objective, or the caller afterwards, see a joint of the arm outside its limits if it started within them. The outcome is the same for two equal robots, and solving again from the same positions gives the same result.",
  ["inputs", "configurations"], "All arms inside larger trees, limits near the start position, ignored joint sets, masks, targets.",
  "One test ignores the last joint of an arm in the redundant case; joints in the middle, the exactly determined case, limits and the rest of the tree are never checked.",
  ["src/ik.rs", "src/chain.rs"], [m("rows of ignored joints are removed and re-inserted as zero", "src/ik.rs"), m("positions are applied clamped", "src/ik.rs")],
  None, ["Constraints::ignored_joint_names", "Chain::joint_positions"])

p("C15", "IK converges to reachable targets near a well-conditioned configuration",
  "For an arm whose constrained Jacobian is well conditioned around the start, and a target that is the pose of nearby positions well within the limits, solving succeeds within a number of iterations that suffices for a damped Newton iteration with a wide margin. This holds for exactly determined and redundant arms, rotational and linear joints, any base and sub-chain, any mask of at most as many coordinates as usable joints, and with ignored joints.",
  ["inputs", "configurations"], "All well-conditioned arm configurations (smallest singular value bounded from below), displacements small against it, multipliers in (0,1], masks and ignored joints.",
  "Tests solve three single problems on two arms, at most one ignored joint, the last.",
  ["src/ik.rs", "src/funcs.rs"], [m("Newton step by LU or SVD of the reduced Jacobian", "src/ik.rs"), m("jacobian()", "src/funcs.rs")],
  None, ["InverseKinematicsSolver::solve_with_constraints"])

p("C16", "A secondary objective moves a redundant arm only within the task's null space",
  "With a secondary objective set on a redundant arm, one solving iteration moves the usable joints by the step multiplier times the sum of the least-norm correction of the pose error and the objective's output projected onto the null space of the constrained Jacobian; clearing it restores the plain least-norm step, and it has no influence when the arm is not redundant. The provided reference-position objective returns, per joint, its weight times the difference between current and reference position, for the positions before the step.",
  ["inputs", "configurations"], "All redundant arms in well-conditioned configurations, objectives, masks, ignored joints, multipliers.",
  "The objective's formula is tested at one point; its projection in the solver is not exercised by any test.",
  ["src/ik.rs"], [m("nullspace projection in solve_one_loop_with_constraints", "src/ik.rs"), m("create_reference_positions_nullspace_function", "src/ik.rs")],
  [s("nullspace_function", "optional secondary objective", "src/ik.rs")], ["JacobianIkSolver::set_nullspace_function", "JacobianIkSolver::clear_nullspace_function", "create_reference_positions_nullspace_function"])

p("C17", "World velocities are the time derivative of the world transforms",
  "After velocities are updated on a chain, the translational and rotational velocity returned and reported for each node are the time derivatives of its world transform when every joint moves with its own joint velocity, for all trees, joint types (fixed ones included), origins, positions and sub-chains. It always returns, world transforms are up to date afterwards, and joint positions and joint velocities are unchanged. A joint velocity can be set and read on movable joints only, setting it on a fixed joint fails.",
  ["inputs", "configurations"], "All trees, joint types, axes, origins, positions, velocities and chains over them.",
  "No test calls it.",
  ["src/chain.rs", "src/joint/velocity.rs", "src/joint/joint.rs"], [m("Chain::update_velocities propagates from parent to child", "src/chain.rs")],
  [s("world_velocity_cache", "last computed world velocity", "src/joint/joint.rs")], ["Chain::update_velocities", "Node::world_velocity", "Joint::set_joint_velocity"])

p("C18", "Link elements are placed at the link's joint transform times their own origin",
  "After the link transforms of a chain are updated, the inertial frame and every visual and collision element of each link have as world transform the world transform of the joint the link is attached to followed by the element's own origin, and joint world transforms are up to date as well. Changing an element's origin or clearing it makes its world transform absent until the next update; geometry, materials, mass, inertia and joint positions are not changed by updates.",
  ["inputs", "histories"], "All trees, any number of visuals and collisions per link, nodes without links, origins, positions and repeated updates.",
  "No test calls it.",
  ["src/chain.rs", "src/link.rs"], [m("Chain::update_link_transforms", "src/chain.rs"), m("set_origin/clear_world_transform of link elements", "src/link.rs")],
  [s("world_transform_cache", "per link element", "src/link.rs")], ["Chain::iter_links", "Visual::world_transform", "Collision::world_transform", "Inertial::world_transform"])

p("C19", "The centre of mass is the mass-weighted mean of the links' inertial origins",
  "The centre of mass of a chain with positive total mass is the sum over its links of mass times the world position of the link's inertial origin, divided by the total mass, at the current joint positions, whatever was updated before. Nodes without a link and massless links do not contribute, and only links within the chain count. Joint positions are unchanged and world transforms are up to date afterwards.",
  ["inputs"], "All trees and sub-chains, masses, inertial origins (rotated too), positions, with links on any subset of nodes.",
  "One test with two links, one of them at the origin.",
  ["src/funcs.rs"], [m("center_of_mass()", "src/funcs.rs")], None, ["center_of_mass"])

p("C20", "URDF conversion reproduces the robot's joint structure and parameters",
  "For every well-formed URDF robot (one tree of links), the resulting chain has a fixed root node standing for the root link and exactly one node per joint, whose parent is the joint that leads to its parent link (the root node for joints on the root link). Each node carries the joint's name, type (revolute and continuous rotate, prismatic slides, all others are fixed), normalised axis, origin from xyz and roll-pitch-yaw, limits (none if they have zero width or are not given) and mimic relation with default multiplier 1 and offset 0. Reading from a file gives the same chain as converting the parsed robot, and unreadable or malformed XML files give an error.",
  ["inputs", "programs"], "All tree-structured URDF documents, optional elements present or absent, elements in any order, numbers in any usual notation.",
  "Tests load one file with revolute joints only and compare counts and two names.",
  ["src/urdf.rs"], [m("From<&urdf_rs::Robot> for Chain", "src/urdf.rs"), m("From<&urdf_rs::Joint> for Joint", "src/urdf.rs"), m("quaternion_from / translation_from / axis_from", "src/urdf.rs")],
  None, ["Chain::from_urdf_file", "Chain::from"])

p("C21", "URDF conversion preserves all link data",
  "Each URDF link appears exactly once, on the node of the joint it is the child of, or on the root node. Its name, mass, inertial origin, symmetric inertia matrix, and, in their order, its visuals and collisions with name, origin, geometry (box, cylinder, capsule, sphere, mesh with scale 1 by default), and material name, colour and texture are equal to the document's, absent optional values becoming empty or zero.",
  ["inputs", "programs"], "All links with any number of visuals and collisions of every geometry kind, optional elements present or absent, for both scalar types.",
  "No test looks at link data after conversion.",
  ["src/urdf.rs", "src/link.rs"], [m("From conversions of Link, Inertial, Visual, Collision, Geometry, Material, Color, Texture", "src/urdf.rs")],
  None, ["Node::link", "Chain::iter_links"])

p("C22", "The order of elements in a URDF does not change the robot",
  "Permuting the link and joint elements of a well-formed URDF robot yields a chain with the same joints, parents, links, limits, mimic relations and, joint by joint, the same world transforms for the same joint positions. Permuting only the links yields the identical chain, including the order of joints.",
  ["inputs", "programs"], "All permutations of the elements of all tree-structured URDF robots, including children declared before their parents and followers before their leaders.",
  "Tests load one file whose elements are in natural order.",
  ["src/urdf.rs"], [m("nodes are created first and connected by link name afterwards", "src/urdf.rs")], None, ["Chain::from"])

p("C23", "Link-to-joint and joint-to-link maps agree with each other and with the chain",
  "For every well-formed URDF robot, the link-to-joint map sends every link to the joint whose child it is and the root link to the reserved root joint name, and the joint-to-link map is exactly its inverse. Both agree with the links carried by the nodes of the converted chain, and names not in the robot are not in the maps.",
  ["inputs"], "All tree-structured robots, including one-link robots.",
  "One doc-test looks up three names in one file; the inverse map is untested.",
  ["src/urdf.rs"], [m("link_to_joint_map / joint_to_link_map", "src/urdf.rs")], None, ["urdf::link_to_joint_map", "urdf::joint_to_link_map"])

p("C24", "IK constraints survive serialisation, absent fields mean constrained",
  "With serialisation enabled, any IK constraint set read back from its serialised form is equal to the original. When reading, each coordinate flag that is absent counts as constrained and an absent list of ignored joints as empty, independently of the other fields, and the default constraint set is the one read from an empty document.",
  ["inputs"], "All combinations of the six flags, each present or absent, and all lists of joint names (any text).",
  "The feature is not enabled in the test run.",
  ["src/ik.rs"], [m("serde attributes of Constraints", "src/ik.rs")], None, ["Constraints"])

p("C25", "Printing a chain shows every node once under its parent",
  "The printed form of a chain has exactly one line per node of the chain, each below its parent's line and before the next node that is not below it, indented by four spaces per level. Each line shows the joint's name, the kind of joint, the signed axis letter if it moves along or about a coordinate axis, and the name of its link if it has one. Printing never panics or hangs, also for an empty chain, and a serial chain prints like its chain.",
  ["inputs"], "All trees, sub-chains and the empty chain, names of any single-line text, principal and oblique axes, both scalar types.",
  "An example prints one tree, nothing checks the text.",
  ["src/chain.rs", "src/node.rs", "src/joint/joint_type.rs"], [m("Display for Chain, Node, Joint, JointType", "src/chain.rs")], None, ["Chain as Display"])

p("C26", "Shared chains stay consistent under concurrent use from several threads",
  "When several threads set positions and origins, read, update transforms and evaluate end poses of chains over the same nodes, every call returns without panic, deadlock or data race in every schedule. Each position read is one that was set for that joint, checked settings never let a joint be seen outside its limits, and once all threads are done each follower matches its leader. A following update then reports the correct transforms of the final positions.",
  ["schedules", "histories"], "All interleavings of a few threads performing short sequences of operations on overlapping chains with mimic joints.",
  "All tests are single-threaded.",
  ["src/node.rs", "src/chain.rs"], [m("each node is guarded by one lock, a leader is held while its followers are set", "src/node.rs")],
  [s("node lock", "mutual exclusion per node", "src/node.rs")], ["Node::set_joint_position", "Chain::update_transforms"])

p("C27", "IK stops at the first iteration within the tolerances, iteration limits nest",
  "Inverse kinematics proceeds in single iterations: a solve with an iteration limit visits the same positions as one-iteration solves each started where the one before ended, and succeeds exactly at the first of them whose constrained error is within the tolerances, leaving exactly those positions. A larger limit never turns success into failure and never changes the positions of a success, a smaller limit than needed fails. Wider tolerances never need more iterations.",
  ["inputs", "histories"], "All solvable and unsolvable problems on all arms, masks, ignored joints, objectives, limits, tolerances and iteration limits.",
  "Tests solve a few problems with one limit each and look at the result only.",
  ["src/ik.rs"], [m("loop of solve_with_constraints", "src/ik.rs"), m("solve_one_loop_with_constraints has no state besides the joint positions", "src/ik.rs")],
  None, ["JacobianIkSolver::solve_with_constraints", "Chain::joint_positions"])

p("C28", "Builders and constructors yield exactly what was asked for",
  "A joint, node or link made by a builder or constructor carries exactly the given name, type, limits, origin (translation and rotation given separately or together in any order, the last of each counting) and elements in the order added; a repeated call replaces the value given before. It starts at position and velocity zero, without world transforms and without relations; whatever is not given is an empty name, a fixed joint, no limits, the identity or no element. The connect macro links its nodes in the order written, a range accepts exactly ordered bounds, and the URDF pose functions yield fixed-axis roll, pitch and yaw rotations and translations.",
  ["inputs", "programs"], "All sequences of builder calls with any values, for both scalar types.",
  "Doc-tests build a few joints with one or two settings.",
  ["src/node.rs", "src/link.rs", "src/joint/joint.rs", "src/joint/range.rs", "src/urdf.rs"],
  [m("NodeBuilder", "src/node.rs"), m("LinkBuilder", "src/link.rs"), m("connect!", "src/node.rs"), m("Range::new", "src/joint/range.rs"), m("isometry_from / quaternion_from / translation_from", "src/urdf.rs")],
  None, ["NodeBuilder", "LinkBuilder", "Joint::new", "Range::new", "connect!"])

p("C29", "Arms of one robot can be solved concurrently",
  "When several threads solve inverse kinematics for arms of one robot that have no joint in common which may move (shared joints are ignored), with a solver each or a common one, every solve gives the same result and positions as if the arms were solved one after another, in every schedule, without panic or deadlock. Joints of no arm stay where they are, others who read positions meanwhile never see one outside the limits, and afterwards an update reports the correct transforms.",
  ["schedules", "inputs"], "All interleavings of a few threads solving for one or more targets each, with arms from the root or from further down.",
  "All tests are single-threaded.",
  ["src/ik.rs", "src/funcs.rs", "src/node.rs", "src/chain.rs"], [m("JacobianIkSolver has no state which solving changes", "src/ik.rs"), m("each node is guarded by one lock", "src/node.rs")],
  [s("node lock", "mutual exclusion per node", "src/node.rs")], ["JacobianIkSolver::solve_with_constraints"])

p("C30", "Chains keep their nodes, and nothing outlives its last owner",
  "A chain lists the nodes it was built from in the same order, whatever is attached, detached or dropped afterwards, and keeps them and everything below them usable; positions set through it read back and its transforms follow the relations that are left. Nodes do not keep their ancestors or leaders alive: a joint whose parent or leader is gone reports none and behaves like a root or an independent joint. When the last handle and chain of a robot are gone all its memory is released, also after mimicking joints below or above, re-attaching, cloning, solving and converting from URDF in any order.",
  ["histories"], "All histories of building, editing, using, cloning and dropping chains, nodes and relations that create no cycle of ancestors or of leaders.",
  "Tests keep every node alive to their end and never look at memory.",
  ["src/node.rs", "src/chain.rs", "src/urdf.rs"], [m("children are owned, parents and mimic relations are weak", "src/node.rs"), m("Chain owns its nodes", "src/chain.rs")],
  [s("parent / children / mimic_parent / mimic_children", "relations of a node", "src/node.rs")], ["Chain::iter", "Node::parent", "Node::mimic_parent", "Node::set_joint_position"])

p("C31", "Reported velocities are those of the last velocity update",
  "The world velocity a node reports is absent, or the value computed by the most recent velocity update which covered it. It becomes absent when the node's own position, velocity or origin is changed, and stays so until the next velocity update that covers it, likewise for its copies and clones, while nothing else changes it. A velocity update also brings the transforms it rests on up to date and reports, for each joint in order, what the node reports afterwards.",
  ["histories"], "All histories of setting, updating, copying and cloning over overlapping chains and trees.",
  "Tests update velocities once in a fresh chain.",
  ["src/funcs.rs", "src/joint/joint.rs", "src/node.rs", "src/chain.rs"], [m("world_velocity_cache is cleared by the setters", "src/joint/joint.rs"), m("update_velocities", "src/chain.rs")],
  [s("world_velocity_cache", "velocity of the last update, or none after a change", "src/joint/joint.rs")], ["Chain::update_velocities", "Node::world_velocity", "Joint::world_velocity"])

p("C32", "Updates and evaluations are right while other threads move joints",
  "Updates of transforms, velocities and links, centres of mass, Jacobians, end poses and clones may run in one thread while others set positions and origins and update the same nodes: each call returns without panic or deadlock in every schedule. Results that do not depend on joints moved meanwhile are those of a sequential run, also if those joints are set to the values they have, and no update leaves a transform or velocity of a former position reported. An update after all threads are done reports the state they left.",
  ["schedules", "histories"], "All interleavings of a few threads performing short sequences of settings, updates and evaluations on overlapping chains with links.",
  "All tests are single-threaded.",
  ["src/chain.rs", "src/funcs.rs", "src/node.rs", "src/link.rs"], [m("update_transforms, update_velocities, update_link_transforms", "src/chain.rs"), m("center_of_mass, jacobian", "src/funcs.rs")],
  [s("node lock", "mutual exclusion per node", "src/node.rs")], ["Chain::update_transforms", "Chain::update_velocities", "Chain::update_link_transforms", "center_of_mass", "jacobian"])

p("C33", "Robots can be edited from several threads",
  "Threads may attach, detach, re-target and link different nodes while others set, read, walk, print, clone and update the robot: every call returns without panic, error or deadlock in every schedule. Afterwards the relations are those of each node's last edit, with children in the order in which each thread attached them, and parts that are not edited are always seen completely. A follower only ever holds a value derived from a leader it had, with the factor and offset of that relation, and afterwards follows exactly its last leader.",
  ["schedules", "histories"], "All interleavings of a few threads, each editing its own nodes below common ones, with readers and setters.",
  "All tests are single-threaded.",
  ["src/node.rs", "src/chain.rs", "src/iterator.rs"], [m("set_parent, remove_parent, set_mimic_parent, set_link", "src/node.rs"), m("set_mimic_children_positions", "src/node.rs"), m("Ancestors, Descendants", "src/iterator.rs")],
  [s("node lock", "mutual exclusion per node", "src/node.rs")], ["Node::set_parent", "Node::remove_parent", "Node::set_mimic_parent", "Node::iter_descendants"])

if __name__ == "__main__":
    import re
    for x in P:
        assert len(x["title"]) <= 80, x["id"]
        # crude sentence count
        n = len(re.findall(r"[.](?:\s|$)", x["statement"]))
        assert n <= 3, (x["id"], n)
    path = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
    with open(path, "w") as f:
        for x in P:
            if x["anchors"]["hook_needed"] is None: pass
            f.write(json.dumps(x, ensure_ascii=False) + "\n")
    print(len(P), "properties")
