#!/usr/bin/env python3
"""Rewrites /verif/DESIGN.md: the text below plus, per property, the laws of its harness, and the tables of planted bugs and repairs."""
import glob, json, os, re
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(H + "/properties.jsonl")]

# oracle and bounds of each property
O = {
"F01": "Each factory against an Eigen matrix built from the documented convention (Rodrigues' formula, products of axis rotations); each extractor by rebuilding: its values are put into the reference factory and must give the rotation back (1e-12 away from, about 1e-7 inside the documented neighbourhood of, a singularity), must lie in the documented range and make the documented choice where the solution is not unique. Angles up to 50 rad.",
"F02": "4x4 matrices for frames, 6x6 adjoint matrices for twists and wrenches (their transport law and the invariance of power), written independently; every shortcut compared with the long form, including operators given the same object twice.",
"F03": "Matrix exponential and logarithm written independently (stable at 0 and pi). diff against the logarithm, addDelta against the exponential, one after the other as a round trip, Integrate against the body-fixed exponential over many steps. Near half turns the axis is only checked up to the conditioning of the logarithm.",
"F04": "2D rotation matrices and 3x3 homogeneous matrices; the action is read through R*v so that element access, constructors and inverses have to agree with it. Frame2::Integrate and Make4x4 are declared and never defined, hence not reachable.",
"F05": "Round trip through text with the precision of the stream, an own reader of the documented notation for the alternative forms, and for damaged text: an exception or a value, the characters consumed as documented, no memory error (AddressSanitizer, exact-size heap buffers), no endless loop (10 s CPU), also on a stream whose device fails.",
"F06": "Definitions evaluated directly: Equal holds iff every component differs by at most eps (checked away from a one-ulp band around eps), == is Equal with the documented tolerance, equal values hash alike and hashing sees every component, Norm by scaled summation in long double.",
"F07": "The expected text is built from the description the object was made from (white space aside, where layout is not documented) and compared as a whole; trees are walked by a reference over the generated parent list; rows are compared one by one so that a transposed or shifted matrix shows, and printed elements are read back.",
"A01": "Hyper-dual numbers in long double (two first derivatives and the mixed second one) for every operator and function; nested Rall types give the second derivatives. Points where the function is not differentiable are excluded by the domain generator.",
"A02": "Jets: every value moves along a curve q0 + v t + a t^2/2, the reference differentiates the matrix expression exactly by truncated Taylor arithmetic; results, mixed-type operators and in-place forms compared.",
"A03": "As A02 with second derivatives.",
"K01": "Pose from own exponential of axis, origin, scale and offset; twist as the exact derivative of that matrix; copies and changed tips against rebuilding from the description.",
"K02": "Model-based histories: each library object is shadowed by a plain list (chains) or parent map (trees); after every operation all observable structure (counts, names, numbers, parents, children, segment contents) is compared, also of the objects not involved.",
"K03": "The chain extracted between any two nodes, placed by the reference kinematics at the same joint values by name, must give the same relative pose and velocity; walking up a joint reverses it. Subtrees by joint name.",
"K04": "Product of reference segment matrices; all intermediate frames; refusals by return code with outputs untouched.",
"K05": "Exact jet derivative of the reference pose; Jacobian columns by unit rates; locked joints give columns of zero; J*qdot against the velocity solver as a second, differential relation.",
"K06": "6x6 reference transforms for columns with fresh, shared and wrongly sized destinations, plain matrices for storage histories.",
"K07": "Second-order jets of the reference pose in the three representations; a second law observes the derivative by central differences of the library's own Jacobian solver.",
"K08": "Reference kinematics of the tree by name for every segment; also agreement with the chain solvers on every root path.",
"K09": "The link tables are kept a second time in the law and turned into the reference model (both Denavit-Hartenberg conventions written out as elementary motions); everything a user computes with the chain is compared, not how it is built.",
"K10": "The laws of K02, K03, K08, D05 and I05 unchanged, compiled against the library built with the other tree interface; when a change makes that configuration fail to build, the stock one is searched instead and the run says so.",
"I01": "The truncated pseudo-inverse of the reference Jacobian from Eigen's Jacobi SVD; cases whose singular values lie within rounding of the threshold are compared against both decisions. Status codes and singular value counts are required to belong to the decision taken.",
"I02": "The closed form of the weighted damped problem from a reference SVD; optimality by the normal equations as an oracle of another kind; the null-space law checks invariance of the end effector and monotonicity of the cost rather than numbers alone.",
"I03": "Soundness oracle: a reported success is put through the reference forward kinematics and must be at the target (or within the weighted tolerance); limits hold; codes and iteration counts belong to the result. Completeness is only required for regular solutions started nearby. A solver with a past equals a fresh one.",
"I05": "The stacked weighted least-squares problem by a reference SVD; the position solver by soundness at every endpoint; the online solver through a recording velocity solver that shows exactly which twist it was asked.",
"I06": "Reconstruction, orthogonality and order of the factors, scaled to the matrix; LDL by residual and by the definition of the factors. Iteration-limited runs must not return success with a wrong decomposition.",
"D01": "Newton-Euler equations of all links projected on the joints (Kane's form) with the exact jets; linearity and power balance as oracles that use no reference dynamics at all.",
"D02": "Reference mass matrix, Coriolis and gravity terms; composition against the inverse dynamics solver; kinetic and potential energy as observed through the velocity solver.",
"D03": "The accelerations are put back into the reference equations of motion and into the library's inverse solver; the integrator against a 16 times finer reference integration, with a textbook step's own error as the bound.",
"D04": "Gauss' principle as stated: M qdd + C + J'f = tau with the constraint forces along the given wrenches and the constrained accelerations met for constraints that the chain can satisfy; link accelerations by the reference. The base acceleration convention is the documented one.",
"D05": "The reference equations over the tree; a decomposition into root paths as a differential relation with the chain solver.",
"D06": "The discrete momentum observer written out from its difference equation and, for the still arm, its closed form; least-norm wrench by a reference SVD; convergence to the applied wrench as the user-visible guarantee.",
"D07": "6x6 spatial inertia matrices; every transform, sum, product and the kinetic energy they give.",
"J01": "Element-wise model with derivatives; the destination is drawn to be fresh or the same object as an operand.",
"M01": "Closed geometry of each path in Eigen (arc, line, single-axis rotation with the documented rate of path length) plus finite differences of what the path itself reports, and rigidity of ends.",
"M02": "The composite's parts asked directly at the local coordinate; joints matched from both sides; lookup histories against a fresh object; the rounded path against reconstructed tangent points and radius.",
"M03": "Original and copy are compared in type, length, pose, velocity, acceleration over a grid; the original is then destroyed (use-after-free is an AddressSanitizer report) and repeated runs are checked for leaks by allocation counting. Text: written with 17 digits and read back.",
"M04": "Invariants: ends, limits, continuity, monotonic time, derivative relations by quadrature and differences, minimal duration from the analytic time-optimal profile; splines against the polynomial solved from the boundary values.",
"M05": "The prescribed duration is kept when it is slower than the fastest and the limits hold always; reuse histories against a fresh object.",
"M06": "Path and profile asked directly; the chain rule for velocity and acceleration; finite differences away from joints; composites by their parts.",
"S01": "A normal call first and again after the refused one must agree; refused calls must return the documented code, keep getError and strError in step, write no memory outside (AddressSanitizer; Eigen assertions are on and count as failures).",
"S02": "Differential: the updated solver against a new one on the grown chain, bit for bit up to 1e-9 of scale; without the update every call must be refused with the documented code.",
"S03": "Differential: every call against the first call of a fresh solver; inputs compared before and after; four threads for hidden shared state.",
"B01": "The interpreter is embedded in the harness: the same call is made through Python and in C++ on equal values, then results, return codes, in-out arguments, exceptions and lifetimes are compared. Arguments that need numpy (absent here) are not reachable: getSigma, setWeightTS/JS, the LMA constructor with weights. Pickle protocols 0 and 1 are not supported by pybind11 and not demanded.",
}
EXTRA = {}
exec(open(H + "/tools/design_extra.py").read()) if os.path.exists(H + "/tools/design_extra.py") else None

def laws(i):
    t = open(H + "/props/%s.cpp" % i).read()
    r = re.findall(r'LAW\(\s*([A-Za-z_0-9]+)\s*,\s*([0-9]+)\s*,\s*"((?:[^"\\]|\\.)*)"', t)
    if i == "M04":
        q = re.search(r'LAW\(NAME, Q, "((?:[^"\\]|\\.)*)"', t).group(1)
        r = [(n, c, q) for n, c in re.findall(r'LAW\((trap\w*|rectangular|dirac), VSpec::\w+, ([0-9]+)\)', t)] if False else [(n, c, q) for n, k, c in re.findall(r'(?m)^\s*\w*LAW\w*\((\w+), (VSpec::\w+), ([0-9]+)\)', t)] + [x for x in r if x[0] != "NAME"]
    return r

out = [open(H + "/tools/design_head.md").read().rstrip() + "\n"]
out.append("\n## Properties\n\nFor each: the oracle and bounds, why sampling by unit tests does not settle it, and the laws (name, cases generated per quick run, what is drawn and when a case counts as non-trivial). The thorough tier multiplies the cases by 40 (at most 560 s) with the same laws and more shrinking time.\n")
for p in props:
    i = p["id"]
    out.append("\n### %s %s\n\n%s\n\nBeyond the tests: %s\n" % (i, p["title"], O[i], p["why_tests_cant"]))
    if i in EXTRA: out.append("\n%s\n" % EXTRA[i])
    out.append("\n" + "".join("* `%s` (%s): %s\n" % l for l in laws(i)))
seeded = sorted(glob.glob(H + "/seeded/*/meta.json"))
out.append("\n## Planted bugs\n\nEach was applied to /repo, built, passed the 89 tests, failed its demonstration, and was undone. `tools/plant.py` writes them, `tools/confirm.py` confirms them and runs the property's check.\n\n| bug | property | caught by | needs |\n|---|---|---|---|\n")
cat = json.load(open(H + "/tools/caught.json")) if os.path.exists(H + "/tools/caught.json") else {}
for f in seeded:
    b = os.path.basename(os.path.dirname(f)); m = json.load(open(f))
    out.append("| %s | %s | %s | %s |\n" % (b, m["property"], cat.get(b, "?"), m["needs"].replace("|", "/")))
k = json.load(open(H + "/known_findings.json"))
out.append("\n## Repaired defects\n\n%d defects of the pinned commit were found by the checks and repaired by `fix:` commits (known_findings.json has one line each, with commit and failing input). Unrepaired findings: %d.\n\n" % (len(k["fixed"]), len(k["findings"])))
by = {}
for l in k["fixed"]:
    m = re.match(r"fixed: property=(\w+) (\w+) (.*)", l); by.setdefault(m.group(1), []).append((m.group(2), m.group(3)))
for p in props:
    for c, t in by.get(p["id"], []): out.append("* %s `%s` %s\n" % (p["id"], c, t))
open(H + "/DESIGN.md", "w").write("".join(out))
print(len("".join(out)), "bytes", len(seeded), "bugs")
