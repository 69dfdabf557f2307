#include "gen.hpp"
using namespace g;

static const Joint::JointType ALL[] = {Joint::RotAxis, Joint::RotX, Joint::RotY, Joint::RotZ, Joint::TransAxis, Joint::TransX, Joint::TransY, Joint::TransZ, Joint::Fixed};
static const char* NM[] = {"RotAxis", "RotX", "RotY", "RotZ", "TransAxis", "TransX", "TransY", "TransZ", "Fixed"};
static GenOpt opt() { GenOpt o; o.jinertia = o.jdamp = true; o.zeroscale = true; o.dyn = true; return o; }
static double qgen(Src& s) { return s.chance(1, 6) ? s.real(-300, 300) : s.real(-4, 4); }

LAW(joint, 400000, "joints of all types, axes of any length, origins, scales (incl. negative and 0) and offsets; positions up to 300 and rates; non-trivial: movable with non-zero rate and scale") {
    JSpec j = jspec(s, opt(), "jt");
    double q = qgen(s), qd = s.real(-5, 5), qd2 = s.real(-5, 5);
    NOTE("joint " << str(j) << " q " << q << " qd " << qd);
    Joint J = j.build();
    if (s.flip()) {   // unnamed constructors
        if (j.type == Joint::RotAxis || j.type == Joint::TransAxis) J = Joint(k(j.origin), k(j.axis), (Joint::JointType)j.type, j.scale, j.offset, j.inertia, j.damping, j.stiffness);
        else J = Joint((Joint::JointType)j.type, j.scale, j.offset, j.inertia, j.damping, j.stiffness);
        EXPECT(J.getName() == "NoName", "default name");
    } else EXPECT(J.getName() == "jt", "name");
    s.nontrivial(j.movable() && qd != 0 && j.scale != 0 && q != 0);
    s.label(NM[j.type]);
    EXPECT(J.getType() == (Joint::JointType)j.type, "type"); EXPECT(J.getTypeName() == NM[j.type], "type name " << J.getTypeName());
    EXPECT(J.getScale() == j.scale && J.getOffset() == j.offset && J.getInertia() == j.inertia && J.getDamping() == j.damping && J.getStiffness() == j.stiffness, "stored parameters");
    {   // parameters left out: rate 1, everything else 0, whichever constructor
        auto dflt = [](const Joint& d, int n, Joint::JointType t) { EXPECT(d.getType() == t, "type kept"); EXPECT((n > 0 || d.getScale() == 1) && (n > 1 || d.getOffset() == 0) && (n > 2 || d.getInertia() == 0) && (n > 3 || d.getDamping() == 0) && d.getStiffness() == 0, "parameters left out of a constructor"); };
        auto t = (Joint::JointType)j.type; bool gen = t == Joint::RotAxis || t == Joint::TransAxis;
        if (gen) { Vector o = k(j.origin), a = k(j.axis); dflt(Joint("a", o, a, t), 0, t); dflt(Joint("a", o, a, t, 2), 1, t); dflt(Joint("a", o, a, t, 2, 3), 2, t); dflt(Joint("a", o, a, t, 2, 3, 4), 3, t); dflt(Joint(o, a, t), 0, t); dflt(Joint(o, a, t, 2), 1, t); dflt(Joint(o, a, t, 2, 3), 2, t); dflt(Joint(o, a, t, 2, 3, 4), 3, t); }
        else { dflt(Joint("a", t), 0, t); dflt(Joint("a", t, 2), 1, t); dflt(Joint("a", t, 2, 3), 2, t); dflt(Joint("a", t, 2, 3, 4), 3, t); dflt(Joint{t}, 0, t); dflt(Joint{t, 2}, 1, t); dflt(Joint(t, 2, 3), 2, t); dflt(Joint(t, 2, 3, 4), 3, t); }
    }
    MNEAR(e(J.JointAxis()), j.dir(), 1e-14, "joint axis");
    MNEAR(e(J.JointOrigin()), j.org(), 0, "joint origin");
    double L = 1 + std::fabs(j.scale * q + j.offset), tol = 1e-13 * (L + j.org().norm());
    MNEAR(e(J.pose(q)), j.pose(q), 4 * tol, "pose");
    Jet4 T = jjet(j, q, qd, 0);
    MNEAR(e(J.twist(qd)), twistOf(T), 1e-12 * (1 + std::fabs(qd * j.scale)), "twist is the velocity of the pose");
    MNEAR(e(J.twist(qd + 2 * qd2)), e(J.twist(qd)) + 2 * e(J.twist(qd2)), 1e-12 * 50, "twist linear in the rate");
    Joint C(J), D(Joint::Fixed); D = J;
    MNEAR(e(C.pose(q)), e(J.pose(q)), 0, "copy"); MNEAR(e(D.pose(q)), e(J.pose(q)), 0, "assignment"); MNEAR(e(D.twist(qd)), e(J.twist(qd)), 0, "assignment");
    EXPECT(D.getName() == J.getName() && D.getType() == J.getType(), "assignment");
    // displacement form: pose(q2) relative to pose(q) is a screw of scale*(q2-q) along the axis
    double q2 = qgen(s); M4 rel = inv4(e(J.pose(q))) * e(J.pose(q2));
    double d = j.scale * (q2 - q);
    M4 want = !j.movable() ? M4(M4::Identity()) : j.rotational() ? mk4(rotm(j.dir(), d), V3::Zero()) : mk4(M3::Identity(), j.dir() * d);
    MNEAR(rel, want, 1e-12 * (1 + std::fabs(d) + L + j.org().norm()), "relative displacement");
}

LAW(constructors, 100000, "every constructor with every joint type; non-trivial: the type does not suit the constructor") {
    Joint::JointType t = ALL[s.raw(9)]; bool axt = t == Joint::RotAxis || t == Joint::TransAxis;
    int ctor = (int)s.raw(4); Vector o = vec(s), a = k(unit(s)); double sc = s.real(-2, 2), of = s.real(-2, 2);
    NOTE("type " << NM[t] << " ctor " << ctor);
    bool threw = false;
    try {
        if (ctor == 0) { Joint j("n", t, sc, of); EXPECT(j.getType() == t, "type"); }
        else if (ctor == 1) { Joint j(t, sc, of); EXPECT(j.getType() == t, "type"); }
        else if (ctor == 2) { Joint j("n", o, a, t, sc, of); EXPECT(j.getType() == t, "type"); }
        else { Joint j(o, a, t, sc, of); EXPECT(j.getType() == t, "type"); }
    } catch (const pbt::Failure&) { throw; } catch (const std::exception&) { threw = true; }
    bool want = (ctor < 2) ? axt : !axt;
    s.nontrivial(want);
    EXPECT(threw == want, "constructor " << ctor << " with type " << NM[t] << (threw ? " threw" : " did not throw"));
    // defaults
    Joint f; EXPECT(f.getType() == Joint::Fixed && f.getScale() == 1 && f.getOffset() == 0 && f.getInertia() == 0 && f.getDamping() == 0 && f.getStiffness() == 0, "defaults");
    MNEAR(e(f.pose(sc)), M4::Identity(), 0, "fixed joint pose"); MNEAR(e(f.twist(sc)), V6::Zero(), 0, "fixed joint twist"); MNEAR(e(f.JointAxis()), V3::Zero(), 0, "fixed joint axis");
}

LAW(segment, 300000, "segments with every joint kind, offset and tip frame, after a random sequence of copies and tip or inertia changes; non-trivial: movable, rate and offset non-zero") {
    SSpec x = sspec(s, opt(), "sg");
    Segment S = x.build();
    EXPECT(S.getName() == "sg", "name");
    int ops = s.range(0, 3);
    for (int i = 0; i < ops; ++i) switch (s.raw(5)) {
        case 0: { x.tip = frameM(s); S.setFrameToTip(k(x.tip)); break; }
        case 1: { x.I = ispec(s); S.setInertia(x.I.build()); break; }
        case 2: { Segment C(S); Segment old(S); S.setFrameToTip(k(frameM(s))); S.setInertia(RigidBodyInertia(77)); MNEAR(e(C.getFrameToTip()), e(old.getFrameToTip()), 0, "copy is independent"); EXPECT(C.getInertia().getMass() == old.getInertia().getMass(), "copy is independent"); S = C; break; }
        case 3: { Segment C("other", Joint(Joint::RotX), Frame(Vector(9, 9, 9)), RigidBodyInertia(55)); C = S; if (s.flip()) S = Segment("third", Joint(Joint::TransZ, 3), Frame(Vector(8, 8, 8)), RigidBodyInertia(44)); if (s.flip()) S = C; else { S.~Segment(); new (&S) Segment(C); } break; }
        case 4: { Segment& r = S; S = r; break; }
    }
    double q = qgen(s), qd = s.real(-5, 5);
    NOTE(str(x) << " q " << q << " qd " << qd << " ops " << ops);
    s.nontrivial(x.j.movable() && qd != 0 && x.j.scale != 0 && x.j.offset != 0);
    double L = 1 + std::fabs(x.j.scale * q) + std::fabs(x.j.offset) + x.j.org().norm() + P3(x.tip).norm();
    EXPECT(S.getName() == "sg" && S.getJoint().getName() == "j_sg" && S.getJoint().getType() == (Joint::JointType)x.j.type, "identity");
    MNEAR(e(S.getFrameToTip()), x.tip, 1e-13 * L, "frame to tip");
    MNEAR(e(S.pose(0)), x.tip, 1e-13 * L, "pose at 0 is the tip frame");
    MNEAR(e(S.pose(q)), x.pose(q), 1e-12 * L, "pose");
    MNEAR(e(S.pose(q)), e(S.getJoint().pose(q)) * e(S.getFrameToTipZero()), 1e-12 * L, "pose is joint pose times tip frame");
    MNEAR(e(S.twist(q, qd)), twistOf(sjet(x, q, qd, 0)), 1e-12 * L * (1 + std::fabs(qd * x.j.scale)), "twist is the velocity of the tip");
    NEAR(S.getInertia().getMass(), x.I.m, 0, "mass"); MNEAR(e(S.getInertia().getCOG()), x.I.c, 1e-14 * 10, "centre of gravity");
    { RotationalInertia ri = S.getInertia().getRotationalInertia(); M3 got; for (int a = 0; a < 3; ++a) for (int b = 0; b < 3; ++b) got(a, b) = ri.data[3 * a + b]; MNEAR(got, M3(x.I.Ic - x.I.m * skew(x.I.c) * skew(x.I.c)), 1e-12 * (1 + mx(x.I.Ic)), "rotational inertia"); }
    EXPECT(S.getJoint().getScale() == x.j.scale && S.getJoint().getOffset() == x.j.offset && S.getJoint().getInertia() == x.j.inertia && S.getJoint().getDamping() == x.j.damping && S.getJoint().getStiffness() == x.j.stiffness, "joint parameters");
    double h = 1e-5;   // the derivative as a user would observe it
    if (std::fabs(q) < 10) {
        M4 A = e(S.pose(q - h * qd)), B = e(S.pose(q + h * qd)), D = (B - A) / (2 * h); M4 Z = e(S.pose(q));
        V6 fd; fd << P3(D), vee(R3(D) * R3(Z).transpose());
        MNEAR(e(S.twist(q, qd)), fd, 1e-7 * L * std::pow(1 + std::fabs(qd * x.j.scale), 3), "twist against finite difference");
    }
}

LAW(segment_default, 60000, "segments from the other constructors and defaults; non-trivial: a movable joint") {
    JSpec j = jspec(s, opt(), "jj"); M4 T = frameM(s); ISpec I = ispec(s);
    NOTE(str(j));
    s.nontrivial(j.movable());
    Segment a(j.build(), k(T), I.build()), b("b", j.build()), c("c"), d;
    EXPECT(a.getName() == "NoName" && d.getName() == "NoName" && b.getName() == "b" && c.getName() == "c", "names");
    EXPECT(c.getJoint().getType() == Joint::Fixed && d.getJoint().getType() == Joint::Fixed, "default joint");
    double L = 1 + std::fabs(j.offset) + j.org().norm() + P3(T).norm();
    MNEAR(e(a.getFrameToTip()), T, 1e-13 * L, "tip"); MNEAR(e(b.getFrameToTip()), M4::Identity(), 1e-13 * L, "default tip"); MNEAR(e(c.pose(1)), M4::Identity(), 0, "default segment"); MNEAR(e(c.twist(1, 1)), V6::Zero(), 0, "default segment");
    EXPECT(a.getInertia().getMass() == I.m && b.getInertia().getMass() == 0, "inertia");
    double q = s.real(-3, 3); SSpec x; x.j = j; x.tip = M4::Identity();
    MNEAR(e(b.pose(q)), x.pose(q), 1e-12 * (L + std::fabs(j.scale * q)), "pose with the default tip");
}
