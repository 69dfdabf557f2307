#include "gen.hpp"
using namespace g;

static M3 Rx(double a) { return rotm(V3::UnitX(), a); }
static M3 Ry(double a) { return rotm(V3::UnitY(), a); }
static M3 Rz(double a) { return rotm(V3::UnitZ(), a); }
// angles with extra weight on singular ones and their close neighbourhood
static double ang(Src& s) {
    uint64_t kd = s.raw(8);
    if (kd == 7) return s.uni(-50, 50);
    if (kd == 6) { double b = (double)((int)s.raw(9) - 4) * (M_PI / 2); int ex = s.range(3, 15); return b + (s.flip() ? -1 : 1) * std::pow(10.0, -ex) * s.uni(0.1, 10); }
    return s.angle();
}
static const double TOL = 1e-12;

LAW(factories, 40000, "angles from grid/near-singular/uniform up to +-50 rad and random axes; non-trivial: not the identity") {
    double a = ang(s), b = ang(s), c = ang(s);
    V3 u = unit(s);
    double len = s.chance(1, 2) ? std::pow(10.0, s.uni(-5, 6)) : 1.0;
    NOTE("a " << a << " b " << b << " c " << c << " axis " << str(u.transpose()) << " length " << len);
    s.nontrivial(mx(rotm(u, a) - M3::Identity()) > 1e-9);
    M3 X = Rx(a), Y = Ry(a), Z = Rz(a);
    MNEAR(e(Rotation::RotX(a)), X, TOL, "RotX");
    MNEAR(e(Rotation::RotY(a)), Y, TOL, "RotY");
    MNEAR(e(Rotation::RotZ(a)), Z, TOL, "RotZ");
    MNEAR(e(Rotation::Rot2(k(u), a)), rotm(u, a), TOL, "Rot2");
    MNEAR(e(Rotation::Rot(k(V3(u * len)), a)), rotm(u, a), TOL, "Rot with axis length " << len);
    MNEAR(e(Rotation::RPY(a, b, c)), Rz(c) * Ry(b) * Rx(a), TOL, "RPY");
    MNEAR(e(Rotation::EulerZYX(a, b, c)), Rz(a) * Ry(b) * Rx(c), TOL, "EulerZYX");
    MNEAR(e(Rotation::EulerZYZ(a, b, c)), Rz(a) * Ry(b) * Rz(c), TOL, "EulerZYZ");
    double w = std::cos(a / 2), x = u(0) * std::sin(a / 2), y = u(1) * std::sin(a / 2), z = u(2) * std::sin(a / 2);
    MNEAR(e(Rotation::Quaternion(x, y, z, w)), rotm(u, a), TOL, "Quaternion");
    MNEAR(e(Rotation::Quaternion(-x, -y, -z, -w)), rotm(u, a), TOL, "negated Quaternion");
    M3 B = rotM(s);
    Rotation R = k(B);
    R.DoRotX(a); MNEAR(e(R), B * X, TOL, "DoRotX");
    R = k(B); R.DoRotY(a); MNEAR(e(R), B * Y, TOL, "DoRotY");
    R = k(B); R.DoRotZ(a); MNEAR(e(R), B * Z, TOL, "DoRotZ");
    MNEAR(e(Rotation::Identity()), M3::Identity(), 0, "Identity");
    MNEAR(e(Rotation()), M3::Identity(), 0, "default Rotation");
    // axis too small to be used: identity, as documented
    V3 tiny = u * std::pow(10.0, -(double)s.range(8, 300));
    if (s.chance(1, 4)) tiny.setZero();
    MNEAR(e(Rotation::Rot(k(tiny), a)), M3::Identity(), TOL, "Rot about a vanishing axis " << str(tiny.transpose()));
}

// rotation with heavy weight on the singular sets of every parametrisation
static M3 anyrot(Src& s) {
    switch (s.raw(6)) {
    case 0: return rotM(s);
    case 1: { double r = ang(s), p = (s.flip() ? -1 : 1) * M_PI / 2, y = ang(s); if (s.flip()) p += (s.flip() ? -1 : 1) * std::pow(10.0, -(double)s.range(1, 15)) * s.uni(0.1, 10); return Rz(y) * Ry(p) * Rx(r); }
    case 2: { double al = ang(s), be = s.flip() ? 0 : M_PI, ga = ang(s); if (s.flip()) be += (s.flip() ? -1 : 1) * std::pow(10.0, -(double)s.range(1, 15)) * s.uni(0.1, 10); return Rz(al) * Ry(be) * Rz(ga); }
    case 3: { double a = ang(s), b = ang(s), c = ang(s); return Rz(a) * Ry(b) * Rx(c); }
    case 4: { V3 u = unit(s); double th = s.flip() ? M_PI : 0; th += (s.flip() ? -1 : 1) * std::pow(10.0, -(double)s.range(1, 15)) * s.uni(0.1, 10); return rotm(u, th); }
    default: { V3 u = unit(s); if (s.flip()) u = (V3(1, 1, 1) + 1e-3 * V3(s.uni(-1, 1), s.uni(-1, 1), s.uni(-1, 1))).normalized(); return rotm(u, s.flip() ? M_PI * 2 / 3 + s.uni(-1, 1) * std::pow(10.0, -(double)s.range(0, 14)) : s.uni(-M_PI, M_PI)); }
    }
}

LAW(rpy, 60000, "rotations weighted to gimbal lock; non-trivial: not the identity") {
    M3 m = anyrot(s);
    Rotation R = k(m);
    NOTE("R " << str(m));
    double cp = std::hypot(m(0, 0), m(1, 0));
    s.nontrivial(mx(m - M3::Identity()) > 1e-9);
    s.label(cp < 1e-12 ? "locked" : cp < 1e-6 ? "near-lock" : "regular");
    double r, p, y;
    R.GetRPY(r, p, y);
    double tol = 1e-12 + 2e-15 / std::max(cp, 1e-12);
    EXPECT(std::isfinite(r) && std::isfinite(p) && std::isfinite(y), r << " " << p << " " << y);
    EXPECT(std::fabs(r) <= M_PI + 1e-15 && std::fabs(y) <= M_PI + 1e-15 && std::fabs(p) <= M_PI / 2 + 1e-15, "RPY out of range " << r << " " << p << " " << y);
    MNEAR(e(Rotation::RPY(r, p, y)), m, tol, "RPY(GetRPY) r " << r << " p " << p << " y " << y);
    if (cp < 1e-13) NEAR(r, 0.0, 0.0, "roll is zero in gimbal lock");
    double a, b, c;
    R.GetEulerZYX(a, b, c);
    EXPECT(a == y && b == p && c == r, "GetEulerZYX(" << a << "," << b << "," << c << ") is GetRPY reversed " << r << " " << p << " " << y);
    // regular parameters inside the open ranges are recovered themselves
    double r0 = s.uni(-3.1, 3.1), p0 = s.uni(-1.5, 1.5), y0 = s.uni(-3.1, 3.1);
    Rotation::RPY(r0, p0, y0).GetRPY(r, p, y);
    NEAR(r, r0, 1e-12, "roll recovered"); NEAR(p, p0, 1e-12, "pitch recovered"); NEAR(y, y0, 1e-12, "yaw recovered");
}

LAW(euler_zyz, 60000, "rotations weighted to beta=0 and beta=pi; non-trivial: not the identity") {
    M3 m = anyrot(s);
    Rotation R = k(m);
    NOTE("R " << str(m));
    double sb = std::hypot(m(0, 2), m(1, 2));
    s.nontrivial(mx(m - M3::Identity()) > 1e-9);
    s.label(sb < 1e-8 ? "singular" : sb < 1e-4 ? "near" : "regular");
    double a, b, c;
    R.GetEulerZYZ(a, b, c);
    EXPECT(std::isfinite(a) && std::isfinite(b) && std::isfinite(c), a << " " << b << " " << c);
    EXPECT(std::fabs(a) <= M_PI + 1e-15 && std::fabs(c) <= M_PI + 1e-15 && b >= 0 && b <= M_PI + 1e-15, "ZYZ out of range " << a << " " << b << " " << c);
    MNEAR(e(Rotation::EulerZYZ(a, b, c)), m, sb < 1e-5 ? 4e-6 : 1e-12 + 1e-14 / sb, "EulerZYZ(GetEulerZYZ) " << a << " " << b << " " << c);
    if (sb < 1e-7) NEAR(c, 0.0, 0.0, "gamma is zero at the singularity");
    double a0 = s.uni(-3.1, 3.1), b0 = s.uni(0.05, 3.1), c0 = s.uni(-3.1, 3.1);
    Rotation::EulerZYZ(a0, b0, c0).GetEulerZYZ(a, b, c);
    NEAR(a, a0, 1e-10, "alpha recovered"); NEAR(b, b0, 1e-10, "beta recovered"); NEAR(c, c0, 1e-10, "gamma recovered");
}

LAW(quaternion, 60000, "rotations weighted to half turns and to the switching surfaces of the extraction; non-trivial: not the identity") {
    M3 m = anyrot(s);
    NOTE("R " << str(m));
    s.nontrivial(mx(m - M3::Identity()) > 1e-9);
    double x, y, z, w;
    k(m).GetQuaternion(x, y, z, w);
    double n = std::sqrt(x * x + y * y + z * z + w * w);
    NEAR(n, 1.0, 1e-9, "quaternion norm");
    MNEAR(e(Rotation::Quaternion(x, y, z, w)), m, 1e-9, "Quaternion(GetQuaternion) " << x << " " << y << " " << z << " " << w);
    // and back: the quaternion is recovered up to sign
    V3 u = unit(s); double th = s.angle();
    double q[4] = {u(0) * std::sin(th / 2), u(1) * std::sin(th / 2), u(2) * std::sin(th / 2), std::cos(th / 2)};
    Rotation::Quaternion(q[0], q[1], q[2], q[3]).GetQuaternion(x, y, z, w);
    NEAR(std::fabs(x * q[0] + y * q[1] + z * q[2] + w * q[3]), 1.0, 1e-9, "quaternion recovered up to sign");
}

LAW(axis_angle, 80000, "rotations weighted to angles 0 and pi and their neighbourhood; non-trivial: not the identity") {
    M3 m = anyrot(s);
    Rotation R = k(m);
    double eps = s.chance(1, 3) ? std::pow(10.0, -(double)s.range(3, 11)) : KDL::epsilon;
    NOTE("R " << str(m) << " eps " << eps);
    double th = logm3(m).norm();
    s.nontrivial(th > 1e-9);
    s.label(th < 1e-6 ? "tiny" : th > M_PI - 1e-6 ? "half-turn" : "regular");
    Vector ax;
    double a = R.GetRotAngle(ax, eps);
    V3 u = e(ax);
    EXPECT(std::isfinite(a) && u.allFinite(), "angle " << a << " axis " << str(u.transpose()));
    EXPECT(a >= 0 && a <= M_PI + 1e-15, "angle in [0,pi], got " << a);
    // inside eps of a singularity the angle is snapped to 0 or pi
    double snap = (th < 20 * eps || th > M_PI - 20 * eps) ? 12 * eps + 1e-12 : 1e-10;
    NEAR(a, th, snap, "angle");
    NEAR(u.norm(), 1.0, 1e-12 + 2 * (snap > 1e-9 ? eps : 0), "axis norm");
    // close to pi the axis comes from the vanishing antisymmetric part, whose rounding error limits it
    MNEAR(rotm(u.normalized(), a), m, 2 * snap + 1e-9 + (th > 1 ? 4e-15 / std::max(eps / 2, std::sin(th)) : 0), "rotation about the returned axis by the returned angle " << a << " axis " << str(u.transpose()));
    if (a == 0) EXPECT(std::fabs(u(2)) == 1, "axis for angle 0 is +-Z, got " << str(u.transpose()));
    if (th > M_PI - 0.1 * eps && eps >= 1e-9) EXPECT(u(2) >= -2 * eps, "at a half turn the axis has positive Z component, got " << str(u.transpose()));
    V3 rv = e(R.GetRot());
    double snapd = (th < 2e-5 || th > M_PI - 2e-5) ? 2e-5 : 1e-10;
    NEAR(rv.norm(), th, snapd, "norm of GetRot");
    MNEAR(expm3(rv), m, 2 * snapd, "GetRot as rotation vector");
    // parameters away from singularities are recovered themselves
    V3 u0 = unit(s); double t0 = s.uni(0.01, 3.13);
    a = Rotation::Rot2(k(u0), t0).GetRotAngle(ax);
    NEAR(a, t0, 1e-10, "angle recovered");
    MNEAR(e(ax), u0, 1e-10, "axis recovered");
    MNEAR(e(Rotation::Rot(k(u0), t0).GetRot()), u0 * t0, 1e-9, "rotation vector recovered");
}
