#include "gen.hpp"
using namespace g;

// 6x6 matrix of a rigid body about its reference point: [force; torque] = M [vel; rot]
static M6 mat(double m, const V3& c, const M3& Ic) { M6 X; X << m * M3::Identity(), -m * skew(c), m * skew(c), Ic - m * skew(c) * skew(c); return X; }
static M6 mat(const ISpec& I) { return mat(I.m, I.c, I.Ic); }
static ISpec ispec2(Src& s) { if (s.chance(1, 8)) return ISpec(); ISpec I = ispec(s, false); if (s.chance(1, 8)) { I.Ic.setZero(); } return I; }
template <class T> static M6 probe(const T& I) { M6 X; for (int i = 0; i < 6; ++i) { V6 t = V6::Zero(); t(i) = 1; X.col(i) = e(I * kt(t)); } return X; }
static M6 mat(const ArticulatedBodyInertia& A) { M6 X; X << A.M, A.H.transpose(), A.H, A.I; return X; }
static M6 motion(const M4& T) { M6 X; M3 R = R3(T); X << R, skew(P3(T)) * R, M3::Zero(), R; return X; }   // twist in b about b's origin -> twist in a about a's origin
static M6 moved(const M6& I, const M4& T) { M6 Xi = motion(inv4(T)); return Xi.transpose() * I * Xi; }        // I_a = X^-T I_b X^-1
static M6 refp(const M6& I, const V3& p) { M6 X; X << M3::Identity(), skew(p), M3::Zero(), M3::Identity(); return X.transpose() * I * X; } // twist about the new point -> old point
static std::string st(const ISpec& I) { std::ostringstream o; o << "m " << I.m << " c " << str(I.c.transpose()) << " Ic " << str(I.Ic); return o.str(); }

LAW(rigid, 200000, "rigid bodies (also massless and point masses): construction and accessors, frames, rotations, reference points, sums, scalings, against 6x6 spatial inertia matrices; non-trivial: massive body and a proper rotation") {
    ISpec I = ispec2(s), J = ispec2(s); RigidBodyInertia A = I.build(), B = J.build(); M4 T = frameM(s), U = frameM(s); V3 p = e(vec(s)), p2 = e(vec(s)); double a = s.real(-3, 3); V6 t = e(twist(s));
    NOTE(st(I) << "; other " << st(J) << "; T " << str(T) << " U " << str(U) << " p " << str(p.transpose()) << " a " << a << " twist " << str(t.transpose())); s.nontrivial(I.m > 0 && mx(R3(T) - M3::Identity()) > 1e-3); s.label(I.m == 0 ? "massless" : "massive");
    double tol = 1e-12 * 100 * (1 + I.m + J.m + mx(I.Ic) + mx(J.Ic)); M6 a6 = mat(I), b6 = mat(J);
    NEAR(A.getMass(), I.m, 0, "mass"); MNEAR(e(A.getCOG()), I.m == 0 ? V3(V3::Zero()) : I.c, 1e-13, "centre of gravity"); MNEAR(e(A.getSpatialMomentum()), V3(I.m * I.c), 1e-13 * 10, "first moment"); { M3 R; RotationalInertia ri = A.getRotationalInertia(); for (int i = 0; i < 3; ++i) for (int j = 0; j < 3; ++j) R(i, j) = ri.data[3 * i + j]; MNEAR(R, M3(a6.block<3, 3>(3, 3)), tol, "rotational inertia about the reference point"); }
    MNEAR(probe(A), a6, tol, "inertia"); MNEAR(e(A * kt(t)), V6(a6 * t), tol * 10, "I*twist");
    MNEAR(probe(k(T) * A), moved(a6, T), tol, "frame change"); MNEAR(probe(k(R3(T)) * A), moved(a6, mk4(R3(T), V3::Zero())), tol, "orientation change"); MNEAR(probe(A.RefPoint(k(p))), refp(a6, p), tol, "reference point change");
    MNEAR(probe(A + B), M6(a6 + b6), tol, "sum"); MNEAR(probe(a * A), M6(a * a6), tol * 4, "scaling");
    // group action and undoing, power and energy invariance
    MNEAR(probe(k(T) * (k(U) * A)), probe((k(T) * k(U)) * A), tol * 10, "composition"); MNEAR(probe(k(T).Inverse() * (k(T) * A)), a6, tol * 10, "inverse transform"); MNEAR(probe(A.RefPoint(k(p)).RefPoint(k(V3(-p)))), a6, tol * 10, "inverse reference point change"); MNEAR(probe(A.RefPoint(k(p)).RefPoint(k(p2))), probe(A.RefPoint(k(V3(p + p2)))), tol * 10, "reference points compose");
    Twist tb = kt(t), ta = k(T) * tb; NEAR(dot(ta, (k(T) * A) * ta), dot(tb, A * tb), tol * 1000, "energy under a frame change"); MNEAR(e((k(T) * A) * ta), e(k(T) * (A * tb)), tol * 1000, "momentum under a frame change"); Twist tp = tb.RefPoint(k(p)); NEAR(dot(tp, A.RefPoint(k(p)) * tp), dot(tb, A * tb), tol * 1000, "energy under a reference point change"); MNEAR(e(A.RefPoint(k(p)) * tp), e((A * tb).RefPoint(k(p))), tol * 1000, "momentum under a reference point change");
    NEAR((A + B).getMass(), I.m + J.m, 1e-14 * 10, "mass of the sum"); if (I.m + J.m > 0) MNEAR(e((A + B).getCOG()), V3((I.m * I.c + J.m * J.c) / (I.m + J.m)), 1e-12, "joint centre of gravity");
    if (I.m > 0) MNEAR(e((k(T) * A).getCOG()), V3((T * (Eigen::Vector4d() << I.c, 1).finished()).head<3>()), 1e-12, "centre of gravity moves with the frame");
    EXPECT(e(A * kt(t)).dot(t) >= -tol * 10, "energy is not negative"); MNEAR(probe(RigidBodyInertia::Zero()), M6(M6::Zero()), 0, "Zero"); MNEAR(probe(RigidBodyInertia()), M6(M6::Zero()), 0, "default"); MNEAR(probe(A), a6, tol, "operand unchanged");
}

LAW(articulated, 200000, "articulated bodies (converted rigid ones and general symmetric positive 6x6 blocks): same transforms and operators; non-trivial: a general block matrix and a proper rotation") {
    auto gen = [&](M6& X) { if (s.chance(1, 3)) { ISpec I = ispec2(s); X = mat(I); if (s.flip()) return ArticulatedBodyInertia(I.build()); return ArticulatedBodyInertia(I.m, k(I.c), RotationalInertia(I.Ic(0, 0), I.Ic(1, 1), I.Ic(2, 2), I.Ic(0, 1), I.Ic(0, 2), I.Ic(1, 2))); } M6 B; for (int i = 0; i < 36; ++i) B(i / 6, i % 6) = s.uni(-1, 1); X = B * B.transpose(); return ArticulatedBodyInertia(X.block<3, 3>(0, 0), X.block<3, 3>(3, 0), X.block<3, 3>(3, 3)); };
    M6 a6, b6; ArticulatedBodyInertia A = gen(a6), B = gen(b6); ISpec R = ispec2(s); RigidBodyInertia C = R.build(); M6 c6 = mat(R); M4 T = frameM(s), U = frameM(s); V3 p = e(vec(s)), p2 = e(vec(s)); double a = s.real(-3, 3); V6 t = e(twist(s)); double tol = 1e-12 * 100 * (1 + mx(a6) + mx(b6) + mx(c6));
    NOTE("A " << str(a6) << " B " << str(b6) << " T " << str(T) << " p " << str(p.transpose()) << " a " << a); s.nontrivial(mx(a6.block<3, 3>(0, 0) - a6(0, 0) * M3::Identity()) > 1e-9 && mx(R3(T) - M3::Identity()) > 1e-3);
    MNEAR(mat(A), a6, tol, "construction"); MNEAR(probe(A), a6, tol, "A*twist columns"); MNEAR(e(A * kt(t)), V6(a6 * t), tol * 10, "A*twist");
    MNEAR(mat(k(T) * A), moved(a6, T), tol, "frame change"); MNEAR(mat(k(R3(T)) * A), moved(a6, mk4(R3(T), V3::Zero())), tol, "orientation change"); MNEAR(mat(A.RefPoint(k(p))), refp(a6, p), tol, "reference point change");
    MNEAR(mat(A + B), M6(a6 + b6), tol, "sum"); MNEAR(mat(A - B), M6(a6 - b6), tol, "difference"); MNEAR(mat(A + C), M6(a6 + c6), tol, "sum with a rigid body"); MNEAR(mat(A - C), M6(a6 - c6), tol, "difference with a rigid body"); MNEAR(mat(a * A), M6(a * a6), tol * 4, "scaling"); 
    MNEAR(mat(k(T) * (k(U) * A)), mat((k(T) * k(U)) * A), tol * 10, "composition"); MNEAR(mat(k(T).Inverse() * (k(T) * A)), a6, tol * 10, "inverse transform"); MNEAR(mat(A.RefPoint(k(p)).RefPoint(k(p2))), mat(A.RefPoint(k(V3(p + p2)))), tol * 10, "reference points compose");
    Twist tb = kt(t), ta = k(T) * tb; NEAR(dot(ta, (k(T) * A) * ta), dot(tb, A * tb), tol * 1000, "energy under a frame change"); MNEAR(e((k(T) * A) * ta), e(k(T) * (A * tb)), tol * 1000, "wrench under a frame change"); MNEAR(mat(A), a6, tol, "operand unchanged");
    MNEAR(probe(ArticulatedBodyInertia(C)), c6, tol, "converted rigid body"); MNEAR(mat(k(T) * ArticulatedBodyInertia(C)), probe(k(T) * C), tol, "conversion commutes with a frame change"); MNEAR(mat(ArticulatedBodyInertia(C).RefPoint(k(p))), probe(C.RefPoint(k(p))), tol, "conversion commutes with a reference point change"); MNEAR(mat(ArticulatedBodyInertia()), M6(M6::Zero()), 0, "default"); MNEAR(mat(ArticulatedBodyInertia::Zero()), M6(M6::Zero()), 0, "Zero");
}

LAW(rotational, 100000, "rotational inertias: construction, sums, scalings and action on angular velocities; non-trivial: off-diagonal elements") {
    double x[12]; for (double& v : x) v = s.real(-3, 3); M3 A, B; A << x[0], x[3], x[4], x[3], x[1], x[5], x[4], x[5], x[2]; B << x[6], x[9], x[10], x[9], x[7], x[11], x[10], x[11], x[8]; RotationalInertia a(x[0], x[1], x[2], x[3], x[4], x[5]), b(x[6], x[7], x[8], x[9], x[10], x[11]); V3 w = e(vec(s)); double f = s.real(-3, 3); s.nontrivial(x[3] != 0 && x[4] != 0 && x[5] != 0 && x[3] != x[4]);
    NOTE(str(A) << " " << str(B) << " " << str(w.transpose()) << " " << f); auto m = [](const RotationalInertia& r) { M3 R; for (int i = 0; i < 3; ++i) for (int j = 0; j < 3; ++j) R(i, j) = r.data[3 * i + j]; return R; };
    MNEAR(m(a), A, 0, "elements"); MNEAR(m(a + b), M3(A + B), 1e-14, "sum"); MNEAR(m(f * a), M3(f * A), 1e-14 * 10, "scaling"); MNEAR(e(a * k(w)), V3(A * w), 1e-13, "angular momentum"); MNEAR(m(RotationalInertia()), M3(M3::Zero()), 0, "default"); MNEAR(m(RotationalInertia::Zero()), M3(M3::Zero()), 0, "Zero");
}
