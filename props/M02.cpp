#include "motionref.hpp"
using namespace mo;

static PSpec compositeOf(Src& s) {
    PSpec p; p.k = PSpec::Composite; p.agg = !s.chance(1, 3);
    int n = s.range(1, 7); bool joined = s.flip(); M4 st = frameM(s);
    for (int i = 0; i < n; ++i) {
        PSpec q = !joined ? (s.chance(1, 4) ? anypath(s, 1) : basic(s)) : s.flip() ? line(s, &st) : circle(s, &st);
        st = endOf(q); p.sub.push_back(q);
    }
    return p;
}
static void probe(Src& s, Path& P, const PSpec& p, int n) {
    double sc = p.scale();
    NEAR(P.PathLength(), p.len(), 1e-9 * sc, "length\n" << p.str());
    for (int i = 0; i < n; ++i) {
        double t = std::min(param(s, p), P.PathLength()), sd = s.real(-2, 2), sdd = s.real(-2, 2);
        if (p.len() == 0) sd = sdd = 0;
        checkAt(s, P, p, t, sd, sdd, 1e-8 * sc);
    }
}

LAW(composite, 30000, "composites of 1..7 parts (points, lines, arcs, nested), joined or not, queried at ends, joints and inside; non-trivial: two or more parts of positive length") {
    PSpec p = compositeOf(s); NOTE(p.str());
    Pool pool; std::unique_ptr<Path> P(p.build(pool)); auto& C = dynamic_cast<Path_Composite&>(*P);
    int pos = 0; for (auto& q : p.sub) pos += q.len() > 0; s.nontrivial(pos >= 2);
    EXPECT(C.GetNrOfSegments() == (int)p.sub.size(), "number of parts");
    double sum = 0;
    for (int i = 0; i < C.GetNrOfSegments(); ++i) { sum += p.sub[i].len(); NEAR(C.GetLengthToEndOfSegment(i), sum, 1e-9 * p.scale(), "length to the end of part " << i); NEAR(C.GetSegment(i)->PathLength(), p.sub[i].len(), 1e-9 * p.scale(), "part " << i); }
    probe(s, C, p, s.range(1, 6));
    // the part found for a parameter
    double t = std::min(param(s, p), C.PathLength()), in = -1; int nr = -1;
    C.GetCurrentSegmentLocation(t, nr, in);
    EXPECT(nr >= 0 && nr < C.GetNrOfSegments(), "part number " << nr);
    double b = nr ? C.GetLengthToEndOfSegment(nr - 1) : 0, en = C.GetLengthToEndOfSegment(nr), eps = 1e-9 * (1 + en);
    EXPECT(t >= b - eps && t <= en + eps, "parameter " << t << " is not in part " << nr << " [" << b << "," << en << "]\n" << p.str());
    NEAR(in, t - b, eps, "parameter within the part");
    bool thrown = false; try { C.LengthToS(0.1); } catch (Error_MotionPlanning_Not_Applicable&) { thrown = true; }
    EXPECT(thrown, "LengthToS of a composite is documented as not applicable");
}

LAW(lookup_history, 30000, "two equal composites or rounded composites, one asked a random series of questions first; non-trivial: a question at a joint after another part was visited") {
    PSpec p = s.chance(1, 3) ? rounded(s, 3) : compositeOf(s); NOTE(p.str());
    Pool pool; std::unique_ptr<Path> A(p.build(pool)); std::vector<double> j; p.joints(j);
    int n = s.range(1, 6);
    double L = A->PathLength();
    auto ends = [&](double t) { for (double x : j) if (t == x) return true; return false; };
    // exact joints as the object itself reports them
    std::vector<double> ex; if (auto* c = dynamic_cast<Path_Composite*>(A.get())) for (int i = 0; i < c->GetNrOfSegments(); ++i) ex.push_back(c->GetLengthToEndOfSegment(i));
    if (auto* c = dynamic_cast<Path_RoundedComposite*>(A.get())) for (int i = 0; i < c->GetNrOfSegments(); ++i) ex.push_back(c->GetLengthToEndOfSegment(i));
    for (int i = 0; i < n; ++i) {
        double t = s.flip() && !ex.empty() ? ex[s.raw(ex.size())] : std::min(param(s, p), L), sd = s.real(-2, 2);
        if (L == 0) sd = 0;
        s.nontrivial(i > 0 && (ends(t) || std::find(ex.begin(), ex.end(), t) != ex.end()));
        Pool pool2; std::unique_ptr<Path> B(p.build(pool2));
        MNEAR(e(A->Pos(t)), e(B->Pos(t)), 0, "pose at " << t << " depends on earlier questions\n" << p.str());
        MNEAR(e(A->Vel(t, sd)), e(B->Vel(t, sd)), 0, "velocity at " << t << " depends on earlier questions\n" << p.str());
        MNEAR(e(A->Acc(t, sd, 0.5)), e(B->Acc(t, sd, 0.5)), 0, "acceleration at " << t << " depends on earlier questions\n" << p.str());
    }
}

LAW(cyclic, 20000, "cyclic paths repeating a line, arc, composite or rounded path 1..6 times; non-trivial: at least twice") {
    PSpec p; p.k = PSpec::Cyclic; PSpec q = anypath(s, 1); if (q.len() < 1e-2) { q = PSpec(); q.k = PSpec::Line; q.f1(0, 3) = 1; }
    p.sub.push_back(q); p.times = s.range(1, 6); p.agg = !s.chance(1, 3); NOTE(p.str()); s.nontrivial(p.times > 1);
    Pool pool; std::unique_ptr<Path> P(p.build(pool));
    probe(s, *P, p, s.range(1, 5));
    double t = s.unit() * q.len() * 0.99; int r = s.range(0, p.times - 1);
    MNEAR(e(P->Pos(t + r * q.len())), e(P->Pos(t)), 1e-8 * p.scale() * (1 + 1 / q.len()), "every round is the same\n" << p.str());
    bool thrown = false; try { P->LengthToS(0.1); } catch (Error_MotionPlanning_Not_Applicable&) { thrown = true; }
    EXPECT(thrown, "LengthToS is documented as not applicable");
}

// the geometry a user expects: straight legs towards the way points joined by tangent arcs
LAW(rounded, 30000, "rounded composites over 2..8 way points with leg lengths from millimetres to metres, straight-on points and corners up to 160 degrees; non-trivial: a rounded corner") {
    PSpec p = mo::rounded(s, 2, 8); NOTE(p.str());
    Pool pool; std::unique_ptr<Path> P;
    try { P.reset(p.build(pool)); } catch (Error& er) { FAIL("rejected with error " << er.GetType() << "\n" << p.str()); }
    auto& C = dynamic_cast<Path_RoundedComposite&>(*P);
    bool arc = false; for (auto& q : p.sub) arc = arc || q.k == PSpec::Circle; s.nontrivial(arc);
    EXPECT(C.GetNrOfSegments() == (int)p.sub.size(), "number of parts " << C.GetNrOfSegments() << " expected " << p.sub.size() << "\n" << p.str());
    for (int i = 0; i < C.GetNrOfSegments(); ++i) { EXPECT(C.GetSegment(i)->getIdentifier() == (p.sub[i].k == PSpec::Circle ? Path::ID_CIRCLE : Path::ID_LINE), "kind of part " << i << "\n" << p.str()); NEAR(C.GetSegment(i)->PathLength(), p.sub[i].len(), 1e-7 * p.scale(), "length of part " << i << "\n" << p.str()); }
    double sc = p.scale(), L = C.PathLength(); NEAR(L, p.len(), 1e-7 * sc, "length");
    MNEAR(e(C.Pos(0)), p.pts.front(), 1e-8 * sc, "starts at the first way point\n" << p.str());
    MNEAR(e(C.Pos(L)), p.pts.back(), 1e-7 * sc, "ends at the last way point\n" << p.str());
    // no jumps of position or direction where parts meet, judged on the object itself
    for (int i = 0; i + 1 < C.GetNrOfSegments(); ++i) {
        Path *A = C.GetSegment(i), *B = C.GetSegment(i + 1);
        MNEAR(e(A->Pos(A->PathLength())), e(B->Pos(0)), 1e-7 * sc, "parts " << i << " and " << i + 1 << " do not meet\n" << p.str());
        V3 da = e(A->Vel(A->PathLength(), 1)).head<3>(), db = e(B->Vel(0, 1)).head<3>();
        if (da.norm() > 1e-9 && db.norm() > 1e-9) MNEAR(V3(da.normalized()), V3(db.normalized()), 1e-5, "direction jumps between parts " << i << " and " << i + 1 << "\n" << p.str());
    }
    // arcs have the radius, and the corner they cut is within reach
    for (int i = 0; i < C.GetNrOfSegments(); ++i) if (p.sub[i].k == PSpec::Circle) {
        double u = s.unit() * C.GetSegment(i)->PathLength();
        NEAR((e(C.GetSegment(i)->Pos(u).p) - p.sub[i].c).norm(), p.radius, 1e-7 * sc, "radius of arc " << i << "\n" << p.str());
    }
    for (int i = 0, n = s.range(1, 4); i < n; ++i) {
        double t = std::min(param(s, p), L), b = 0;
        // evaluate the part itself against its expected geometry
        int nr; double in; C.GetCurrentSegmentLocation(t, nr, in); for (int q = 0; q < nr; ++q) b += p.sub[q].len();
        double want = p.sub[nr].len() > 0 ? std::min(in, p.sub[nr].len()) : 0;
        M4 X = e(C.Pos(t)); St r = p.sub[nr].at(want, 1, 0);
        MNEAR(X, r.X, 1e-6 * sc, "pose at " << t << " in part " << nr << "\n" << p.str());
    }
    bool thrown = false; try { C.LengthToS(0.1); } catch (Error_MotionPlanning_Not_Applicable&) { thrown = true; }
    EXPECT(thrown, "LengthToS of a rounded composite is that of its parts, which is not applicable");
}

static int addAll(Path_RoundedComposite& P, const std::vector<M4>& pts, size_t from = 0) {
    for (size_t i = from; i < pts.size(); ++i) { try { P.Add(k(pts[i])); } catch (Error_MotionPlanning& er) { return er.GetType(); } }
    return 0;
}
LAW(rounded_errors, 20000, "way points that cannot be rounded: coinciding ones, reversals, legs shorter than the rounding needs, non-positive equivalent radius; then a usable point instead; all non-trivial") {
    s.nontrivial();
    int kd = s.range(1, 6);
    if (kd == 1) {
        double q = s.flip() ? 0 : -s.uni(0, 3); int type = 0;
        try { Path_RoundedComposite P(0.1, q, new RotationalInterpolation_SingleAxis()); } catch (Error_MotionPlanning_Not_Feasible& er) { type = er.GetType(); EXPECT(std::string(er.Description()).size() > 0, "description"); }
        EXPECT(type == 3101, "equivalent radius " << q << " gives error " << type); return;
    }
    PSpec p = mo::rounded(s, 2, 4); double r = p.radius;
    // the leg under way when the bad point arrives
    M4 st = p.sub.size() > 1 ? p.sub.back().f0 : p.pts[0]; M4 via = p.pts.back();
    V3 ab = P3(via) - P3(st); double abd = ab.norm(); ab /= abd;
    V3 h = unit(s), ax = ab.cross(h); if (ax.norm() < 1e-3) ax = ab.unitOrthogonal(); ax.normalize();
    std::vector<M4> good = p.pts; M4 bad = via; double al = s.uni(0.3, 2.5); int want = 3100 + kd;
    Path_RoundedComposite P(kd >= 5 ? 1 : r, p.eqr, new RotationalInterpolation_SingleAxis());
    if (kd == 2) { good = {p.pts[0], p.pts[0]}; bad = p.pts[1]; }                       // first leg has no length
    if (kd == 3) bad = mk4(rotM(s), P3(via) + unit(s) * (s.flip() ? 0 : 9e-8 * s.unit()));   // second leg has no length
    if (kd == 4) bad = mk4(rotM(s), P3(via) - ab * s.uni(0.1, 2) * abd);                // straight back
    if (kd >= 5) {   // rounding length against the legs, radius 1
        double d = std::tan(al / 2), l1 = kd == 5 ? d * s.uni(0.2, 0.99) : d * s.uni(1.01, 3), l2 = kd == 6 ? d * s.uni(0.2, 0.99) : d * s.uni(0.2, 3);
        good = {st, mk4(R3(via), P3(st) + ab * l1)}; bad = mk4(R3(via), P3(good[1]) + rotm(ax, al) * ab * l2);
    }
    NOTE("kind " << kd << " radius " << (kd >= 5 ? 1 : r) << " bad " << str(MX(bad.topRows<3>())) << "\n" << p.str());
    EXPECT(addAll(P, good) == 0, "usable way points rejected\n" << p.str());
    int n0 = P.GetNrOfSegments(); double l0 = P.PathLength();
    int type = 0; try { P.Add(k(bad)); } catch (Error_MotionPlanning_Not_Feasible& er) { type = er.GetType(); }
    EXPECT(type == want, "error " << type << " instead of " << want << ", radius " << (kd >= 5 ? 1 : r) << " bad " << str(MX(bad.topRows<3>())) << "\n" << p.str());
    EXPECT(P.GetNrOfSegments() == n0 && P.PathLength() == l0, "a rejected way point changed the path");
    if (kd == 2) return;
    // the rejected point leaves the path usable: same as never having offered it
    if (s.flip()) { M4 nx = mk4(R3(via), P3(good.back()) + ab * 3); P.Add(k(nx)); good.push_back(nx); }
    P.Finish();
    Path_RoundedComposite Q(kd >= 5 ? 1 : r, p.eqr, new RotationalInterpolation_SingleAxis()); addAll(Q, good); Q.Finish();
    EXPECT(P.GetNrOfSegments() == Q.GetNrOfSegments() && P.PathLength() == Q.PathLength(), "path after a rejected point differs");
    double t = s.unit() * P.PathLength(); MNEAR(e(P.Pos(t)), e(Q.Pos(t)), 0, "pose after a rejected point differs");
}
LAW(rounded_degenerate, 5000, "a radius too small to be an arc and paths of one way point; non-trivial: a corner") {
    PSpec p = mo::rounded(s, 1, 4);
    if (p.pts.size() == 1) {   // one way point: the path stays there
        Path_RoundedComposite P(p.radius, p.eqr, new RotationalInterpolation_SingleAxis()); P.Add(k(p.pts[0])); P.Finish();
        MNEAR(e(P.Pos(0)), p.pts[0], 1e-12, "a path of one way point stays there"); MNEAR(e(P.Pos(P.PathLength())), p.pts[0], 1e-12, "end"); NEAR(P.PathLength(), 0, 0, "length");
        return;
    }
    bool arc = false; for (auto& q : p.sub) arc = arc || q.k == PSpec::Circle; s.nontrivial(arc);
    Path_RoundedComposite P(s.flip() ? 0 : 9e-7 * s.unit(), p.eqr, new RotationalInterpolation_SingleAxis());
    NOTE(p.str());
    for (auto& f : p.pts) {
        int n0 = P.GetNrOfSegments(); double l0 = P.PathLength();
        try { P.Add(k(f)); } catch (Error_MotionPlanning_Circle_ToSmall&) { EXPECT(P.GetNrOfSegments() == n0 && P.PathLength() == l0, "a rejected way point changed the path\n" << p.str()); return; }
    }
    EXPECT(!arc, "an arc of radius below 1e-6 was accepted\n" << p.str());
}
