#!/usr/bin/env python3
"""Source of properties.jsonl: python3 tools/props_src.py rewrites /verif/properties.jsonl."""
import json, os
P = []
def prop(id, title, statement, over, qtext, why, files, mech, observe):
    S = "orocos_kdl/src/"
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": qtext}, "why_tests_cant": why,
              "anchors": {"files": [f if f.startswith(("python", "orocos")) else S + f for f in files],
                          "mechanism": [{"name": n, "where": (w if w.startswith(("python", "orocos")) else S + w)} for n, w in mech],
                          "observe_at": observe, "hook_needed": None}})

# ---------------------------------------------------------------- frames
prop("F01", "Rotation representations convert without loss",
 "Every rotation factory (RotX/Y/Z, DoRot*, Rot, Rot2, RPY, EulerZYX, EulerZYZ, unit Quaternion) yields the right-handed orthonormal matrix of its documented convention for any finite angles. Every extractor (GetRPY, GetEulerZYX, GetEulerZYZ, GetQuaternion, GetRot, GetRotAngle) returns values inside its documented range, with a unit quaternion or axis and the documented choice at singularities, from which the matching factory rebuilds the same rotation. This includes gimbal lock, half turns, identity and rotations arbitrarily close to them.",
 ["inputs"], "all finite angles, axes and unit quaternions; all rotations, including singular and near-singular ones",
 "framestest samples a few dozen fixed angles; branch thresholds at singularities are hit only at isolated points.",
 ["frames.hpp", "frames.cpp", "frames.inl"], [("factories", "frames.cpp Rotation::RPY/EulerZYZ/Rot2/Quaternion"), ("extractors", "frames.cpp Rotation::GetRPY/GetEulerZYZ/GetQuaternion/GetRotAngle")],
 ["Rotation public API"])
prop("F02", "Frames, twists and wrenches obey rigid-motion algebra",
 "Rotation and Frame products and inverses form a group acting on vectors as R*v+p, and every shortcut (Inverse(x), SetInverse, DoRot*, Make4x4, DH factories, in-place operators) equals the long form. Changing the base frame or reference point of twists and wrenches is an invertible action that composes with the frame product, satisfies the cross-product transport law, and keeps the power dot(twist, wrench) unchanged. Operators on vectors, twists and wrenches obey the vector-space and cross-product laws component by component. Random values are valid values of their type: rotations are orthonormal, positive random values have positive components.",
 ["inputs"], "all finite vectors, rotations, frames, twists and wrenches",
 "framestest checks a handful of hand-picked frames and twists, several operators are never executed.",
 ["frames.hpp", "frames.inl", "frames.cpp"], [("products and inverses", "frames.inl Frame/Rotation operators"), ("reference point changes", "frames.inl Twist::RefPoint, Wrench::RefPoint"), ("DH factories", "frames.cpp Frame::DH, DH_Craig1989")],
 ["Frame, Twist, Wrench operators"])
prop("F03", "diff, addDelta and Integrate are mutually inverse calculus",
 "For every geometric type (scalar, vector, rotation, frame, twist, wrench) diff(a,b,dt) is the constant rate expressed in the base frame that carries a to b in time dt, and addDelta(a, rate, dt) applies it exactly, so addDelta(a, diff(a,b,dt), dt) equals b (and diff recovers the rate for turns below half a revolution). Frame.Integrate(twist, frequency) multiplies the frame by the body-fixed displacement (rotation vector rot/frequency, translation vel/frequency) of one period, and never leaves the rigid motions, including for zero and tiny rotations.",
 ["inputs"], "all pairs of values, all rates, positive and negative dt, turns up to and including half a revolution",
 "framestest covers diff/addDelta for a couple of values, never near half turns or vanishing rotations.",
 ["frames.inl", "frames.hpp", "frames.cpp"], [("diff/addDelta", "frames.inl diff, addDelta"), ("Integrate", "frames.inl Frame::Integrate")], ["diff, addDelta, Frame::Integrate"])
prop("F04", "2D vectors, rotations and frames act consistently",
 "Vector2, Rotation2 and Frame2 form the planar rotation and rigid-motion group: products, inverses, element access, angle extraction and the action on vectors all describe the same 2x2 rotation and 3x3 homogeneous matrix. Embedding a 2D vector into a coordinate plane or into a frame's XY plane and projecting it back onto the same plane is lossless and lands in that plane.",
 ["inputs"], "all finite 2D vectors, angles and frames", "no test executes the 2D classes beyond construction.",
 ["frames.hpp", "frames.inl", "frames.cpp"], [("2D operators", "frames.inl Vector2/Rotation2/Frame2"), ("plane embedding", "frames.inl Set2DXY/Set2DYZ/Set2DZX/Set2DPlane, Set3DXY...")], ["Vector2, Rotation2, Frame2"])
prop("F05", "Text output reads back as the same value; bad text fails safely",
 "Every geometric value written to a stream reads back equal to the printed precision, every accepted alternative notation (rotation as axis-angle, RPY, Euler or matrix, frame as DH or vector plus rotation) reads as the value it denotes, and several values written in sequence read back in sequence. Arbitrary malformed, truncated or oversized text never corrupts memory or hangs: it ends in a reported error (exception or failed stream) or in a value that the text denotes.",
 ["inputs"], "all values and precisions; all byte strings up to a few kB as input text",
 "iotest is not built; no test feeds malformed text.",
 ["frames_io.cpp", "frames_io.hpp", "utilities/utility_io.cxx", "utilities/error_stack.cxx", "kinfam_io.cpp"], [("readers", "frames_io.cpp operator>>"), ("tokenizer", "utilities/utility_io.cxx EatWord/EatSpace/Eat/_EatEnd")], ["operator<<, operator>>"])
prop("F06", "Comparison, hashing, norms and stiffness follow their definitions",
 "Equal(a,b,eps) holds exactly when every component differs by less than eps, == and != are each other's negation and reflexive and symmetric, and identical values hash identically, with every component contributing, for every geometric type. Norm returns the Euclidean length for any magnitude at or above its threshold and zero below it, Normalize returns that norm and leaves a unit vector of the same direction or the documented fallback vector, and both use the threshold they are given. A stiffness maps twists to wrenches linearly, with addition and inversion matching.",
 ["inputs"], "all finite values, thresholds and magnitudes from 1e-150 to 1e150",
 "tests compare a few fixed values with the default eps only.",
 ["frames.inl", "frames.cpp", "stiffness.hpp", "utilities/utility.h", "utilities/hash_combine.h"], [("Equal and ==", "frames.inl Equal"), ("Norm, Normalize", "frames.cpp Vector::Norm, Vector::Normalize"), ("hash", "frames.hpp std::hash specialisations")], ["Equal, operator==, std::hash, Norm, Normalize"])
prop("F07", "Printed models, arrays, matrices and moving values show their whole content",
 "The text operators of joints, segments, chains, trees (also tree2str from any segment), joint arrays, Jacobians, joint-space inertia matrices, geometric values with velocity or acceleration parts and Rall numbers write every element once, in order and in its place, with the precision of the stream, and leave the stream's state alone: name, joint type, axis, origin and tip of every segment of a chain; every segment of a tree below its parent with the number of its joint; every element of an array or matrix in its row and column, kept apart from its neighbours. Element access reads and writes the element that is printed there.",
 ["inputs"], "all chains, trees, arrays and matrices, separators and stream precisions", "no built test reads the text of kinematic models, trees or matrices.",
 ["kinfam_io.cpp", "kinfam_io.hpp", "jntarray.cpp", "jntspaceinertiamatrix.cpp"], [("text output", "kinfam_io.cpp operator<<, tree2str")], ["operator<<, tree2str"])
# ---------------------------------------------------------------- automatic differentiation
prop("A01", "Rall numbers carry exact derivatives",
 "For every operator and elementary function, computing with Rall1d or Rall2d numbers built on a smooth curve x(t) yields the value, first and (for Rall2d) second time derivative of the composed function. RallNd numbers do so for their first N derivatives. Mixed scalar forms, compound assignments (also with the operand itself), comparisons and nested Rall numbers agree with the plain form, and Equal, diff and addDelta are consistent with them.",
 ["inputs"], "all expressions over the provided operators within each function's domain",
 "rallnumbertest is not built; derivative formulas are never executed by the built tests except through FrameVel.",
 ["utilities/rall1d.h", "utilities/rall2d.h", "utilities/rallNd.h", "utilities/traits.h"], [("chain rule", "utilities/rall1d.h, utilities/rall2d.h operators and functions")], ["Rall1d, Rall2d"])
prop("A02", "Velocity-augmented frames differentiate their value",
 "For every operation on VectorVel, RotationVel, FrameVel and TwistVel the derivative part of the result equals the time derivative of the value part when the operands move along any curves with the given values and velocities, with rotation velocities in the base frame. Inverse forms, in-place forms, mixed operands, conversions (twist, inverse twist, value) and factories such as Rot, RotX/Y/Z, Identity agree, and diff/addDelta are mutually inverse.",
 ["inputs"], "all poses, velocities and operand mixes", "framevel tests exist only for a few Python bindings with fixed numbers.",
 ["framevel.hpp", "framevel.inl", "framevel.cpp", "framevel_io.hpp"], [("product rules", "framevel.inl operators"), ("factories", "framevel.inl RotationVel::Rot*")], ["FrameVel family"])
prop("A03", "Acceleration-augmented frames differentiate twice",
 "For every operation on VectorAcc, RotationAcc, FrameAcc and TwistAcc, value, velocity and acceleration parts of the result equal value, first and second time derivative of the operation applied to curves with the operands' value, velocity and acceleration. Inverse forms, in-place forms, mixed operands and conversions agree with the composed long form.",
 ["inputs"], "all poses, velocities and accelerations", "no test executes the acceleration types.",
 ["frameacc.hpp", "frameacc.inl", "frameacc.cpp", "frameacc_io.hpp"], [("second-order product rules", "frameacc.inl operators")], ["FrameAcc family"])
# ---------------------------------------------------------------- kinematic model
prop("K01", "A joint's and segment's twist is the motion of its pose",
 "A joint's pose for position q is the rotation or translation about its stated origin and axis by scale*q+offset (identity for fixed joints), and its twist for rate qdot is the exact velocity of that pose, linear in qdot. A segment's pose is the joint pose composed with its tip frame, its twist is the velocity of the tip, and the tip frame given at construction is recovered at q=0 for every joint type, scale and offset; construction with an inapplicable joint type or invalid type is reported.",
 ["inputs"], "all joint types, axes (any length), origins, scales, offsets, positions and rates", "kinfamtest evaluates one or two positions per joint type with unit scale and no offset.",
 ["joint.hpp", "joint.cpp", "segment.hpp", "segment.cpp"], [("joint pose and twist", "joint.cpp Joint::pose, Joint::twist"), ("segment pose and twist", "segment.cpp Segment::pose, Segment::twist, getFrameToTip")], ["Joint, Segment"])
prop("K02", "Chains and trees mirror their construction history",
 "After any sequence of construction, addSegment, addChain, addTree, copy and assignment (also of an object to itself or into itself), a chain or tree reports exactly the segments, joints, parents, children, joint numbering and counts that the sequence defines. Operations that must fail (unknown hook, duplicate name) report false and add nothing (addChain and addTree keep the part added before the failing segment), and copies never share later changes.",
 ["histories"], "all operation sequences over several chains and trees, including self-reference and failure cases", "kinfamtest builds two fixed trees and copies them once.",
 ["chain.hpp", "chain.cpp", "tree.hpp", "tree.cpp"], [("structure updates", "chain.cpp addSegment/addChain, tree.cpp addSegment/addTreeRecursive/operator=")], ["Chain, Tree accessors"])
prop("K03", "Extracted chains and subtrees keep the tree's kinematics",
 "getChain(a,b) yields a chain whose forward kinematics, for joint values copied by joint name, equals the pose of b relative to a in the tree for every pair of nodes and every configuration and velocity, whether it runs down, up or across the tree and whatever the joints' types, scales and offsets. getSubTree yields the tree below a node with unchanged relative kinematics and properties, and unknown names report failure.",
 ["inputs", "configurations"], "all trees, node pairs and joint positions and rates", "kinfamtest compares a few fixed node pairs with unit scale joints.",
 ["tree.cpp", "tree.hpp", "segment.cpp"], [("path extraction and reversal", "tree.cpp Tree::getChain"), ("subtree extraction", "tree.cpp Tree::getSubTree, addTreeRecursive")], ["Tree::getChain, Tree::getSubTree"])
prop("K04", "Chain position kinematics is the product of its segments",
 "For every chain and joint vector the position solver returns, for each segment number (negative meaning the last one), the product of the segment poses with movable joints taking consecutive joint values and fixed joints none. The all-segments overload returns that pose for every segment, joint arrays of the wrong size or segment numbers out of range are rejected with an error code, and repeated calls give the same answer.",
 ["inputs", "configurations"], "all chains (0..n segments, any joint mix), joint vectors and segment numbers", "solvertest uses four fixed chains at random positions and compares only related solvers.",
 ["chainfksolverpos_recursive.cpp", "chainfksolverpos_recursive.hpp", "chainfksolver.hpp"], [("recursion", "chainfksolverpos_recursive.cpp JntToCart")], ["ChainFkSolverPos_recursive"])
prop("K05", "Velocity kinematics and the Jacobian are derivatives of the pose",
 "The velocity solver returns the pose of every requested segment together with the exact time derivative of that pose, and the Jacobian solver returns the matrix whose columns are the tip twists for unit joint rates, in base frame with the tip as reference point, for the requested segment. Hence Jacobian times joint rates equals the velocity solver's twist and the derivative of the position solver for every chain, and columns of joints beyond the requested segment do not contribute.",
 ["inputs", "configurations"], "all chains, joint positions and rates, and segment numbers", "solvertest compares against finite differences for fixed chains with one tolerance.",
 ["chainfksolvervel_recursive.cpp", "chainjnttojacsolver.cpp", "chainjnttojacsolver.hpp"], [("velocity recursion", "chainfksolvervel_recursive.cpp JntToCart"), ("Jacobian recursion", "chainjnttojacsolver.cpp JntToJac")], ["ChainFkSolverVel_recursive, ChainJntToJacSolver"])
prop("K06", "Jacobian frame changes transform every column as a twist",
 "changeRefPoint, changeBase and changeRefFrame, as methods and as functions with separate or shared destination, transform each column exactly like the corresponding twist operation, so they commute with multiplication by joint rates and are undone by the inverse change. Column access, SetToZero, resize, equality and copies preserve exactly the stored twists, and MultiplyJacobian equals the sum of rate-weighted columns.",
 ["inputs"], "all Jacobians of 0..n columns, points, rotations and frames", "jacobiantest uses random 6-column values for three fixed checks.",
 ["jacobian.hpp", "jacobian.cpp", "jntarray.cpp"], [("column transforms", "jacobian.cpp changeRefPoint/changeBase/changeRefFrame"), ("column access", "jacobian.cpp getColumn/setColumn")], ["Jacobian"])
prop("K07", "The Jacobian derivative solver differentiates the Jacobian",
 "In each of the hybrid, body-fixed and inertial representations the solver's Jdot is the time derivative of the Jacobian in that representation along the given joint motion, and its twist overload equals Jdot times joint rates. With locked joints, the result equals that for the chain whose locked joints do not move, restricted to the unlocked columns; segment numbers select the sub-chain; wrong sizes are reported.",
 ["inputs", "configurations"], "all chains, positions, rates, representations, locked masks and segment numbers", "jacobiandottest checks a KUKA chain with Monte-Carlo values and no locked joints.",
 ["chainjnttojacdotsolver.cpp", "chainjnttojacdotsolver.hpp"], [("partial derivatives", "chainjnttojacdotsolver.cpp getPartialDerivative*, JntToJacDot")], ["ChainJntToJacDotSolver"])
prop("K08", "Tree kinematics agrees with every chain inside the tree",
 "For every tree, segment name and joint vector the tree position solver returns the pose composed along the path from the root, equal to the chain solver on the extracted chain, and the tree Jacobian has that chain's columns at the path's joint indices and zeros elsewhere. Unknown segments and wrong sizes are rejected with distinct negative codes, and trees with few or no joints and the root segment itself are handled.",
 ["inputs", "configurations"], "all trees, segments and joint vectors", "solvertest does not exercise tree kinematics; only PyKDL-free fixed examples exist.",
 ["treefksolverpos_recursive.cpp", "treejnttojacsolver.cpp"], [("tree recursion", "treefksolverpos_recursive.cpp recursiveFk, treejnttojacsolver.cpp JntToJac")], ["TreeFkSolverPos_recursive, TreeJntToJacSolver"])
prop("K09", "The shipped robot models follow their link parameters",
 "At every joint position, rate and acceleration and any gravity, the Puma 560 and Kuka LWR models have the end pose, Jacobian, mass matrix, Coriolis, gravity and inverse dynamics torques of the published link tables (Denavit-Hartenberg parameters, masses, centres of gravity, inertias) they are written from, with a positive definite mass matrix. Every call yields an independent, equal chain.",
 ["inputs"], "both models, all joint states and gravity directions", "no test calls the model library; two tests use private copies of one chain.",
 ["orocos_kdl/models/puma560.cpp", "orocos_kdl/models/kukaLWR_DHnew.cpp"], [("link tables", "orocos_kdl/models/puma560.cpp, orocos_kdl/models/kukaLWR_DHnew.cpp")], ["Puma560, KukaLWR_DHnew"])
prop("K10", "Trees behave the same with shared-pointer tree elements",
 "With the library built with KDL_USE_NEW_TREE_INTERFACE, where a tree's segment map holds shared pointers instead of the elements themselves, trees keep every guarantee they have in the stock build: they mirror their construction history with copies that never share later changes, getChain and getSubTree keep the kinematics, and tree position kinematics, Jacobians, inverse dynamics and inverse kinematics give the results of the mechanism the tree describes.",
 ["histories", "inputs", "configurations"], "the histories and trees of K02, K03, K08, D05 and I05 in the other build configuration", "the test suite is built and run in one configuration only.",
 ["orocos_kdl/src/tree.hpp", "orocos_kdl/src/tree.cpp"], [("tree elements", "orocos_kdl/src/tree.hpp TreeElement, GetTreeElement* macros"), ("building and copying", "orocos_kdl/src/tree.cpp addSegment, operator=, getChain, getSubTree")], ["Tree and the tree solvers, KDL_USE_NEW_TREE_INTERFACE"])
# ---------------------------------------------------------------- inverse kinematics
prop("I01", "Velocity IK solves the twist in the least-squares sense",
 "For every chain and configuration away from rank-decision thresholds, the pseudo-inverse solvers return joint rates that minimise the residual twist and, among those, have minimum norm, so a twist the chain can produce is produced exactly and a redundant or deficient chain is handled. A return code of zero means success; loss of task rank is reported by the documented positive code while the solution stays the finite minimum-norm one, and answers do not depend on what the solver computed earlier.",
 ["inputs", "configurations", "histories"], "all chains with 1..n joints, singular and regular configurations, twists", "solvertest checks two singular configurations of fixed chains.",
 ["chainiksolvervel_pinv.cpp", "chainiksolvervel_pinv_givens.cpp", "chainiksolvervel_pinv_nso.cpp"], [("SVD inversion", "chainiksolvervel_pinv.cpp CartToJnt, chainiksolvervel_pinv_givens.cpp, chainiksolvervel_pinv_nso.cpp")], ["CartToJnt of the velocity IK solvers"])
prop("I02", "Weighted, damped and null-space velocity IK optimise their stated cost",
 "The weighted damped solver returns the joint rates that its joint-space weights, task-space weights and damping define: the weighted minimum-norm least-squares solution with the damped inverse of each singular value, equal to the plain pseudo-inverse for unit weights without damping (where singular values below eps are truncated). The null-space solver adds only motion that leaves the end-effector twist unchanged and moves towards the optimum joint positions, and every result is finite; reported singular values, determinants and statuses match the problem solved, and inconsistent weights are rejected.",
 ["inputs", "configurations"], "all chains, weights, damping values, optimum positions and twists", "solvertest checks one fixed chain with two lambda values.",
 ["chainiksolvervel_wdls.cpp", "chainiksolvervel_wdls.hpp", "chainiksolvervel_pinv_nso.cpp"], [("weighted damping", "chainiksolvervel_wdls.cpp CartToJnt"), ("null-space projection", "chainiksolvervel_pinv_nso.cpp CartToJnt")], ["ChainIkSolverVel_wdls, ChainIkSolverVel_pinv_nso"])
prop("I03", "Position IK reports success only for a joint solution that reaches the target",
 "Whenever a chain position IK solver (Newton-Raphson, with joint limits, or Levenberg-Marquardt) reports success, forward kinematics of the joints it returns matches the target within the solver's tolerance, and with joint limits the joints lie within the limits. When it does not, it reports the documented negative code, stays within its iteration budget, returns finite joints for finite input and reports remaining differences that belong to them; from starting points close to a regular solution it succeeds.",
 ["inputs", "configurations", "histories"], "all chains, targets (reachable or not), start positions, limits, tolerances and iteration budgets", "solvertest checks single fixed chains from nearby random starts.",
 ["chainiksolverpos_nr.cpp", "chainiksolverpos_nr_jl.cpp", "chainiksolverpos_lma.cpp"], [("iterations", "chainiksolverpos_nr.cpp, chainiksolverpos_nr_jl.cpp, chainiksolverpos_lma.cpp CartToJnt")], ["CartToJnt of the position IK solvers"])
prop("I05", "Tree IK meets all endpoint targets it claims and respects its limits",
 "The tree velocity solver returns the damped weighted least-squares joint rates for the stacked endpoint twists given in any subset and order, rejecting unknown endpoints, with endpoints that are given no twist standing still. The tree position solver's success value means every requested endpoint is within tolerance and joints lie within limits; the online solver's one-step result respects the joint position, joint velocity and Cartesian velocity limits, and neither depends on targets of earlier calls.",
 ["inputs", "configurations", "histories"], "all trees, endpoint sets, targets, limits, weights and call sequences", "no built test exercises the tree IK solvers.",
 ["treeiksolvervel_wdls.cpp", "treeiksolverpos_nr_jl.cpp", "treeiksolverpos_online.cpp"], [("stacked least squares", "treeiksolvervel_wdls.cpp CartToJnt"), ("limits", "treeiksolverpos_online.cpp enforceJointVelLimits/enforceCartVelLimits, treeiksolverpos_nr_jl.cpp")], ["TreeIkSolverVel_wdls, TreeIkSolverPos_NR_JL, TreeIkSolverPos_Online"])
prop("I06", "Matrix decompositions reproduce their input",
 "Each SVD routine yields non-negative singular values equal to the matrix's singular values, factors whose columns for non-zero singular values are orthonormal, and a product U S V^T equal to the input for every finite matrix shape it supports, including rank-deficient, zero and repeated-value matrices. The LDL solver returns the solution of the symmetric positive definite system together with factors whose product is the matrix, and wrong dimensions are reported by the documented code.",
 ["inputs"], "all finite matrices of the supported shapes and all condition numbers the routine supports", "solvertest factorises three fixed matrices.",
 ["utilities/svd_HH.cpp", "utilities/svd_eigen_HH.cpp", "utilities/svd_eigen_Macie.hpp", "utilities/ldl_solver_eigen.cpp"], [("decompositions", "utilities/svd_eigen_HH.cpp, utilities/svd_HH.cpp, utilities/svd_eigen_Macie.hpp, utilities/ldl_solver_eigen.cpp")], ["svd_eigen_HH, SVD_HH, svd_eigen_Macie, ldl_solver_eigen"])
# ---------------------------------------------------------------- dynamics
prop("D01", "Inverse dynamics equals the rigid-body equations of motion",
 "For every chain, state, acceleration, gravity and external wrenches (given in each segment's frame), the recursive Newton-Euler solver returns the joint torques of the rigid-body equations of motion of that chain, including the joints' own inertia. The torques are linear in acceleration and in gravity plus external wrenches, and a fixed joint carries no torque entry but transmits its load.",
 ["inputs", "configurations"], "all chains with any joint mix, inertias, states and wrenches", "solvertest compares two solvers on fixed chains; no independent reference.",
 ["chainidsolver_recursive_newton_euler.cpp", "rigidbodyinertia.cpp"], [("forward/backward recursion", "chainidsolver_recursive_newton_euler.cpp CartToJnt")], ["ChainIdSolver_RNE"])
prop("D02", "Mass matrix, Coriolis and gravity terms compose the dynamics",
 "The dynamic parameter solver's mass matrix is symmetric positive semi-definite and gives the chain's kinetic energy, its gravity vector is the gradient of potential energy, and its Coriolis vector makes M qdd + C + G equal to the inverse dynamics torques. Along any motion the Coriolis vector does the work the changing mass matrix requires (energy balance).",
 ["inputs", "configurations"], "all chains, states and gravity vectors", "solvertest and Python dynamicstest check fixed chains at fixed states.",
 ["chaindynparam.cpp", "jntspaceinertiamatrix.cpp"], [("composite rigid body algorithm", "chaindynparam.cpp JntToMass"), ("Coriolis and gravity", "chaindynparam.cpp JntToCoriolis, JntToGravity")], ["ChainDynParam"])
prop("D03", "Forward dynamics inverts inverse dynamics",
 "The recursive forward dynamics solver returns the joint accelerations for which inverse dynamics gives back the applied torques, for every chain with a positive definite mass matrix, gravity, state and external wrenches. One Runge-Kutta step agrees with the exact flow to the method's order, so halving the step shrinks the error accordingly and conservative systems keep their energy.",
 ["inputs", "configurations"], "all chains, states, torques, wrenches and step sizes", "solvertest integrates one fixed chain.",
 ["chainfdsolver_recursive_newton_euler.cpp"], [("M^-1 (tau - bias)", "chainfdsolver_recursive_newton_euler.cpp CartToJnt"), ("RK4", "chainfdsolver_recursive_newton_euler.cpp RK4Integrator")], ["ChainFdSolver_RNE"])
prop("D04", "The Vereshchagin solver satisfies constraints and equations of motion",
 "For every serial chain with one joint per segment (other chains are rejected) the constrained hybrid dynamics solver returns joint accelerations that meet the given end-effector acceleration constraints (alfa^T times the spatial end-effector acceleration including the root's equals beta) and, with the constraint torques -J^T alfa nu of the constraint force magnitudes it reports, satisfy the chain's equations of motion for the given feed-forward torques and external wrenches. Without active constraints it equals unconstrained forward dynamics; constraints with zero columns are ignored; reported total torques and link accelerations belong to the same motion.",
 ["inputs", "configurations"], "all chains, constraint matrices (full or partial rank), energies, torques and wrenches", "solvertest checks fixed 2- and 7-dof chains with fixed constraints.",
 ["chainhdsolver_vereshchagin.cpp", "chainidsolver_vereshchagin.cpp", "articulatedbodyinertia.cpp"], [("three sweeps", "chainhdsolver_vereshchagin.cpp initial_upwards_sweep/downwards_sweep/constraint_calculation/final_upwards_sweep")], ["ChainHdSolver_Vereshchagin, ChainIdSolver_Vereshchagin"])
prop("D05", "Tree inverse dynamics generalises chain inverse dynamics",
 "For every tree the recursive Newton-Euler torques equal the sum of rigid-body contributions over all branches: on an unbranched tree they equal the chain solver's, and a branched tree's torques equal the superposition of the branch chains with shared segments counted once, for any gravity, state and external wrenches per segment. Wrong sizes are reported.",
 ["inputs", "configurations"], "all trees, states and wrenches", "treeinvdyntest checks a fixed two-branch tree.",
 ["treeidsolver_recursive_newton_euler.cpp"], [("tree recursion", "treeidsolver_recursive_newton_euler.cpp rne_step")], ["TreeIdSolver_RNE"])
prop("D06", "The external wrench estimator converges to the applied wrench",
 "When a full-rank chain is held or moved under a constant external end-effector wrench, the estimator's result converges to that wrench, expressed in the end-effector frame, at the rate its gain sets, and stays at zero when no external wrench acts. The estimated joint torque converges likewise, and resetting the initial momentum makes the following estimates independent of the past.",
 ["inputs", "histories"], "all chains, constant wrenches, gains and sample periods within the stability range", "solvertest runs one chain with three fixed wrenches.",
 ["chainexternalwrenchestimator.cpp"], [("momentum observer", "chainexternalwrenchestimator.cpp JntToExtWrench")], ["ChainExternalWrenchEstimator"])
prop("D07", "Inertia objects behave as physical inertias",
 "Rigid-body and articulated-body inertias transform under frames and reference points so that the map from twist to wrench and the kinetic energy are unchanged, compose additively, and undo under the inverse transform. Mass, centre of gravity and rotational inertia given at construction are the ones reported, and a rigid body converted to an articulated one acts identically.",
 ["inputs"], "all masses, centres of gravity, rotational inertias, frames, rotations and points", "inertiatest checks random values for a few of the operators with one composition.",
 ["rigidbodyinertia.cpp", "rigidbodyinertia.hpp", "rotationalinertia.cpp", "articulatedbodyinertia.cpp"], [("transforms", "rigidbodyinertia.cpp operator*, RefPoint; articulatedbodyinertia.cpp operator*, RefPoint")], ["RigidBodyInertia, ArticulatedBodyInertia, RotationalInertia"])
# ---------------------------------------------------------------- joint-space data
prop("J01", "Joint-space containers compute element-wise and alias-safely",
 "Joint arrays, their velocity and acceleration forms, and joint-space inertia matrices compute Add, Subtract, Multiply, Divide, SetToZero, Equal and conversions element by element with the product and quotient rules for derivative parts, and give the same result when source and destination are the same object. Copies are independent, sizes follow resize (new elements of joint arrays being zero) and assignment, and mass-matrix products match plain linear algebra.",
 ["inputs"], "all sizes, values, scalars with derivatives and aliasing patterns", "kinfam and solver tests only touch arrays incidentally.",
 ["jntarray.cpp", "jntarrayvel.cpp", "jntarrayacc.cpp", "jntspaceinertiamatrix.cpp"], [("element-wise operations", "jntarray.cpp, jntarrayvel.cpp, jntarrayacc.cpp Add/Subtract/Multiply/Divide"), ("matrix products", "jntspaceinertiamatrix.cpp Multiply")], ["JntArray, JntArrayVel, JntArrayAcc, JntSpaceInertiaMatrix"])
# ---------------------------------------------------------------- motion
prop("M01", "A path's velocity and acceleration are derivatives of its pose",
 "For every path type Vel(s,sd) and Acc(s,sd,sdd) are the first and second time derivative of Pos(s(t)) for any progress s(t) (where the rotation direction is determined, i.e. away from half turns), poses stay rigid, and Pos starts and ends at the poses the path was built from. Points, lines and circles move along their stated geometry, the path parameter measures linear distance or equivalent-radius-weighted rotation, whichever dominates, and LengthToS converts travelled length to parameter.",
 ["inputs"], "all start/end poses, radii, angles, equivalent radii and progress values", "no built test covers paths.",
 ["path_line.cpp", "path_circle.cpp", "path_point.cpp", "rotational_interpolation_sa.cpp"], [("geometry", "path_line.cpp, path_circle.cpp, path_point.cpp Pos/Vel/Acc/LengthToS"), ("single-axis rotation", "rotational_interpolation_sa.cpp")], ["Path_Line, Path_Circle, Path_Point, RotationalInterpolation_SingleAxis"])
prop("M02", "Composed paths join their parts continuously",
 "A composite path traverses its parts in order with total length their sum, a cyclic path repeats its part the stated number of times, and a rounded composite passes through straight segments joined by tangent arcs of the given radius with position and direction continuous everywhere, starting and ending at the given poses. Lookups return the same answer whatever was asked before, and geometry that cannot be rounded is rejected with the documented error.",
 ["inputs", "histories"], "all part lists, waypoint lists, radii and query sequences", "no built test covers paths.",
 ["path_composite.cpp", "path_cyclic_closed.cpp", "path_roundedcomposite.cpp"], [("lookup", "path_composite.cpp Lookup"), ("rounding", "path_roundedcomposite.cpp Add/Finish")], ["Path_Composite, Path_Cyclic_Closed, Path_RoundedComposite"])
prop("M03", "Cloned and re-read motion objects move identically",
 "A clone of any path, rotational interpolation, velocity profile or trajectory yields the same duration, pose, velocity and acceleration as its original at every time and stays valid after the original is destroyed, with all memory released exactly once. Text written by a path, a dirac, constant-velocity or (half-)trapezoidal profile or a trajectory segment reads back as an object with the same motion (a rounded composite as the composite it consists of); other types are reported as an error on reading, and malformed text is reported as an error without memory errors.",
 ["inputs", "histories"], "all motion objects, ownership flags and input texts", "no built test covers cloning or reading motion objects.",
 ["path.cpp", "path_circle.cpp", "path_line.cpp", "path_composite.cpp", "velocityprofile.cpp", "trajectory.cpp", "trajectory_segment.cpp", "rotational_interpolation.cpp"], [("Clone/Write/Read", "path_*.cpp, velocityprofile_*.cpp, trajectory_*.cpp Clone and Write; path.cpp, velocityprofile.cpp, trajectory.cpp, rotational_interpolation.cpp Read")], ["Clone, Read, Write"])
prop("M04", "Velocity profiles connect their endpoints within their limits",
 "A profile set between two positions starts and ends at them, holds them outside its duration (except the spline, which extrapolates), never exceeds its maximum velocity or acceleration, and Vel and Acc are the time derivatives of Pos; trapezoidal profiles have continuous velocity and are time-optimal, half-trapezoidal ones start or end at speed as configured, rectangular ones move at constant speed. A spline profile meets every boundary position, velocity and acceleration it is given at the stated duration.",
 ["inputs"], "all endpoint pairs (either direction, equal, tiny, huge), limits and times", "velocityprofiletest uses a few fixed forward moves.",
 ["velocityprofile_trap.cpp", "velocityprofile_traphalf.cpp", "velocityprofile_rect.cpp", "velocityprofile_dirac.cpp", "velocityprofile_spline.cpp"], [("SetProfile and evaluation", "velocityprofile_*.cpp SetProfile, Pos, Vel, Acc")], ["VelocityProfile_*"])
prop("M05", "Prescribed durations stretch a profile and never break its limits",
 "Setting a profile with a duration not shorter than its fastest one yields exactly that duration with the same endpoints and the limits still respected; a shorter request yields the fastest profile instead. The trapezoidal duration-stretch and velocity-fraction forms slow the whole motion uniformly, and setting a new profile on a used object equals setting it on a fresh one.",
 ["inputs", "histories"], "all endpoints, limits, durations, velocity fractions and call sequences", "velocityprofiletest covers two durations of one profile.",
 ["velocityprofile_trap.cpp", "velocityprofile_traphalf.cpp", "velocityprofile_rect.cpp", "velocityprofile_dirac.cpp"], [("SetProfileDuration", "velocityprofile_*.cpp SetProfileDuration, SetProfileVelocity")], ["SetProfileDuration, SetProfileVelocity"])
prop("M06", "A trajectory is its path driven by its profile",
 "A trajectory segment's pose, twist and acceleration at time t are the path evaluated along the profile's position, velocity and acceleration, so they are each other's time derivatives, and its duration is the profile's. A composite trajectory plays its parts one after another with total duration their sum, holds the end poses outside it, and keeps working after Destroy and re-adding; a stationary trajectory holds its pose for its duration.",
 ["inputs", "histories"], "all paths, profiles, part lists and times", "no built test covers trajectories.",
 ["trajectory_segment.cpp", "trajectory_composite.cpp", "trajectory_stationary.cpp"], [("composition", "trajectory_segment.cpp, trajectory_composite.cpp Pos/Vel/Acc/Add/Destroy")], ["Trajectory_Segment, Trajectory_Composite, Trajectory_Stationary"])
# ---------------------------------------------------------------- solver contracts
prop("S01", "Solvers reject ill-sized input with an error and no memory error",
 "Every solver given joint arrays, wrench lists, Jacobians or limits whose sizes do not match its chain or tree returns a negative error code (chain solvers the size-mismatch code, which getError also reports with a meaningful strError text; a segment number out of range its own code; a call the solver does not implement the not-implemented code) and never reads or writes outside its buffers. With matching sizes it then works normally, and any chain or tree accepted by the constructor, including empty ones and ones made only of fixed joints, is handled without memory errors.",
 ["inputs", "configurations", "histories"], "all solvers, all size combinations, chains and trees including degenerate ones", "solvertest checks each documented argument once on fixed chains without a memory checker.",
 ["solveri.hpp", "chainiksolverpos_nr.cpp", "chainidsolver_recursive_newton_euler.cpp", "chainfdsolver_recursive_newton_euler.cpp", "chaindynparam.cpp"], [("size guards", "chain*solver*.cpp leading checks"), ("error state", "solveri.hpp SolverI")], ["return codes, getError, strError"])
prop("S02", "After a chain change and update a solver equals a fresh one",
 "When joints are added (by addSegment or addChain) to a chain that a solver refers to, every solver with internal data structures reports that it is not up to date until updateInternalDataStructures is called; solvers without such structures answer for the grown chain at once. After the update every result equals that of a newly constructed solver whose settings were extended neutrally (unit weights, no limits, zero optimum), and updating without a change has no effect on results. Tree solvers holding a copy keep answering for their tree.",
 ["histories"], "all solvers, chain growth sequences and interleavings of update and solve", "solvertest checks return codes for a single growth step and compares no values.",
 ["chain.cpp", "solveri.hpp", "chainfdsolver_recursive_newton_euler.cpp", "chainhdsolver_vereshchagin.cpp", "chainiksolverpos_lma.cpp"], [("internal resize", "chain*solver*.cpp updateInternalDataStructures")], ["updateInternalDataStructures"])
prop("S03", "A solver's answer depends only on its current inputs",
 "Calling any chain or tree solver repeatedly, with other inputs, after failures, or on an equal copy of the chain gives for equal inputs the same answer and return code as the first call of a fresh solver, apart from documented stateful estimators (which setInitialMomentum resets). Inputs are never modified unless documented, and two solvers, also in different threads, never influence each other.",
 ["histories"], "all solvers and call sequences with interleaved failing and degenerate inputs", "each test constructs a solver and calls it for one purpose.",
 ["chainiksolvervel_pinv.cpp", "chainiksolvervel_pinv_givens.cpp", "chainhdsolver_vereshchagin.cpp", "treeiksolverpos_nr_jl.cpp"], [("scratch state", "solver member variables")], ["all solver entry points"])
prop("B01", "The Python bindings expose the C++ semantics",
 "For every bound class and function, results computed through the Python module equal those of the C++ library on the same values: constructors with positional, keyword and default arguments, operators, methods, attributes, conversions, solver results, return codes and what becomes of every argument. Element access reads and writes the element named, and an index out of range (elements, segments, columns) raises IndexError instead of touching other memory. Copies, deep copies and pickles are independent and carry exactly the same value and hash, text is that of the C++ stream operator, comparison operators agree with their C++ counterparts, and solvers and parts of values stay usable after the Python names of what they were made from are gone.",
 ["inputs"], "all values and call sequences through the Python module", "Python tests check fixed values of a subset of the bindings.",
 ["python_orocos_kdl/PyKDL/frames.cpp", "python_orocos_kdl/PyKDL/kinfam.cpp", "python_orocos_kdl/PyKDL/dynamics.cpp", "python_orocos_kdl/PyKDL/framevel.cpp"], [("bindings", "python_orocos_kdl/PyKDL/*.cpp")], ["PyKDL module"])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for p in P:
        f.write(json.dumps(p) + "\n")
print(len(P), "properties")
