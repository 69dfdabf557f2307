#include "gen.hpp"
using namespace g;
typedef Eigen::Matrix2d M2; typedef Eigen::Vector2d V2;
static V2 e(const Vector2& v) { return V2(v.x(), v.y()); }
static Vector2 v2(Src& s, double m = 5) { double a = s.real(-m, m); return Vector2(a, s.real(-m, m)); }
static M2 rm(double a) { M2 m; m << std::cos(a), -std::sin(a), std::sin(a), std::cos(a); return m; }
static M2 e(const Rotation2& R) { M2 m; for (int i = 0; i < 2; ++i) for (int j = 0; j < 2; ++j) m(i, j) = R(i, j); return m; }
// matrix of the action, read through R*v rather than through element access
static M2 act(const Rotation2& R) { M2 m; m.col(0) = e(R * Vector2(1, 0)); m.col(1) = e(R * Vector2(0, 1)); return m; }
static const double T = 1e-12;

LAW(vector2, 30000, "two 2D vectors and a scalar; non-trivial: all non-zero") {
    Vector2 a = v2(s), b = v2(s); double c = s.real(-9, 9); V2 A = e(a), B = e(b);
    NOTE("a " << str(A) << " b " << str(B) << " c " << c);
    s.nontrivial(A.norm() > 0 && B.norm() > 0 && c != 0);
    double t = 1e-11;
    MNEAR(e(a + b), A + B, t, "+"); MNEAR(e(a - b), A - B, t, "-"); MNEAR(e(-a), -A, 0, "neg"); MNEAR(e(a * c), A * c, t, "*c"); MNEAR(e(c * a), A * c, t, "c*");
    if (std::fabs(c) > 1e-3) MNEAR(e(a / c), A / c, 1e-9, "/");
    Vector2 x = a; x += b; MNEAR(e(x), A + B, t, "+="); x = a; x -= b; MNEAR(e(x), A - B, t, "-="); x = a; x.ReverseSign(); MNEAR(e(x), -A, 0, "ReverseSign");
    for (int i = 0; i < 2; ++i) { const Vector2& ca = a; EXPECT(ca(i) == A(i) && ca[i] == A(i), "element"); x = a; x(i) = c; V2 R = A; R(i) = c; MNEAR(e(x), R, 0, "set"); x = a; x[i] = c; MNEAR(e(x), R, 0, "set"); }
    x = a; x.x(c); MNEAR(e(x), V2(c, A(1)), 0, "x()"); x = a; x.y(c); MNEAR(e(x), V2(A(0), c), 0, "y()");
    SetToZero(x); MNEAR(e(x), V2(0, 0), 0, "SetToZero"); MNEAR(e(Vector2::Zero()), V2(0, 0), 0, "Zero"); MNEAR(e(Vector2()), V2(0, 0), 0, "default");
    Vector2 cp(a); MNEAR(e(cp), A, 0, "copy"); cp = b; MNEAR(e(cp), B, 0, "assign");
    double n = A.norm();
    if (std::max(std::fabs(A(0)), std::fabs(A(1))) >= 1e-6) {
        NEAR(a.Norm(), n, 1e-12 * n, "Norm"); x = a; NEAR(x.Normalize(), n, 1e-12 * n, "Normalize returns the norm"); MNEAR(e(x), A / n, 1e-12, "Normalize");
    } else if (n < 1e-6) { NEAR(a.Norm(), 0.0, 0.0, "Norm below threshold"); x = a; NEAR(x.Normalize(), 0.0, 0.0, "Normalize below threshold"); MNEAR(e(x), V2(1, 0), 0, "fallback"); }
}

LAW(rotation2, 40000, "two angles and a vector; non-trivial: not the identity") {
    double a = s.angle(), b = s.angle(); Vector2 v = v2(s); V2 V = e(v);
    NOTE("a " << a << " b " << b << " v " << str(V));
    M2 A = rm(a), B = rm(b);
    s.nontrivial(mx(A - M2::Identity()) > 1e-9 && mx(B - M2::Identity()) > 1e-9);
    Rotation2 P(a), Q = Rotation2::Rot(b), R;
    double t = 1e-11;
    MNEAR(e(P * v), A * V, t, "R*v"); MNEAR(act(P), A, T, "action"); MNEAR(e(P), A, T, "element access agrees with the action"); MNEAR(e(Q), B, T, "Rot factory elements");
    MNEAR(act(P * Q), A * B, T, "product"); MNEAR(act(P.Inverse()), A.transpose(), T, "Inverse"); MNEAR(e(P.Inverse(v)), A.transpose() * V, t, "Inverse(v)");
    R = P; R.SetInverse(); MNEAR(act(R), A.transpose(), T, "SetInverse"); R = P; R = R * R; MNEAR(act(R), A * A, T, "P=P*P");
    R.SetRot(b); MNEAR(act(R), B, T, "SetRot"); R.SetIdentity(); MNEAR(act(R), M2::Identity(), 0, "SetIdentity"); MNEAR(act(Rotation2::Identity()), M2::Identity(), 0, "Identity"); MNEAR(act(Rotation2()), M2::Identity(), 0, "default");
    MNEAR(act(Rotation2(std::cos(a), std::sin(a))), A, T, "cos/sin ctor"); Rotation2 cp(P); MNEAR(act(cp), A, 0 + T, "copy");
    double g = P.GetRot(); EXPECT(std::fabs(g) <= M_PI + 1e-15, "angle range"); MNEAR(rm(g), A, T, "GetRot");
    double a0 = s.uni(-3.14, 3.14); NEAR(Rotation2(a0).GetRot(), a0, 1e-12, "angle recovered");
    EXPECT(Equal(P, P, 1e-9), "Equal reflexive"); if (mx(A - B) > 1e-3) EXPECT(!Equal(P, Q, 1e-9), "Equal distinguishes");
}

LAW(frame2, 40000, "two planar frames and a vector; non-trivial: rotation and translation present") {
    double a = s.angle(), b = s.angle(); Vector2 p = v2(s), q = v2(s), v = v2(s);
    Frame2 F(Rotation2(a), p), G(Rotation2(b), q), H;
    auto m = [](double an, const Vector2& t) { M3 x = M3::Identity(); x.block<2, 2>(0, 0) = rm(an); x(0, 2) = t.x(); x(1, 2) = t.y(); return x; };
    auto rd = [](const Frame2& f) { M3 x; Frame2 g2(f); for (int i = 0; i < 3; ++i) for (int j = 0; j < 3; ++j) x(i, j) = f(i, j); return x; };
    auto hom = [](const Frame2& f) { M3 x = M3::Identity(); V2 o = e(f * Vector2(0, 0)); x.block<2, 1>(0, 2) = o; x.block<2, 1>(0, 0) = e(f * Vector2(1, 0)) - o; x.block<2, 1>(0, 1) = e(f * Vector2(0, 1)) - o; return x; };
    M3 A = m(a, p), B = m(b, q); V3 V(v.x(), v.y(), 1);
    NOTE("A " << str(A) << " B " << str(B) << " v " << str(V.transpose()));
    s.nontrivial(mx(A.block<2, 2>(0, 0) - M2::Identity()) > 1e-9 && e(p).norm() > 0);
    double t = 1e-11;
    MNEAR(e(F * v), (A * V).head<2>(), t, "F*v"); MNEAR(hom(F), A, t, "action"); MNEAR(rd(F), A, t, "const element access"); for (int i = 0; i < 3; ++i) for (int j = 0; j < 3; ++j) NEAR(F(i, j), A(i, j), t, "element access");
    MNEAR(hom(F * G), A * B, t, "product"); MNEAR(hom(F.Inverse()), A.inverse(), t, "Inverse"); MNEAR(e(F.Inverse(v)), (A.inverse() * V).head<2>(), t, "Inverse(v)");
    H = F; H.SetInverse(); MNEAR(hom(H), A.inverse(), t, "SetInverse"); H = F; H = H * H; MNEAR(hom(H), A * A, t, "F=F*F"); H.SetIdentity(); MNEAR(hom(H), M3::Identity(), 0, "SetIdentity"); MNEAR(hom(Frame2::Identity()), M3::Identity(), 0, "Identity");
    MNEAR(hom(Frame2(Rotation2(a))), m(a, Vector2(0, 0)), t, "Frame2(R)"); MNEAR(hom(Frame2(p)), m(0, p), t, "Frame2(p)"); MNEAR(hom(Frame2()), M3::Identity(), 0, "default"); Frame2 cp(F); MNEAR(hom(cp), A, t, "copy");
    EXPECT(Equal(F, F, 1e-9), "Equal reflexive"); if (mx(A - B) > 1e-3) EXPECT(!Equal(F, G, 1e-9), "Equal distinguishes");
}

LAW(planes, 40000, "a 2D vector, a 3D vector and a frame; non-trivial: generic frame") {
    Vector2 v = v2(s), r; Frame F = frame(s); Vector x = vec(s), y = vec(s); V3 X = e(x);
    Vector2 junk = v2(s);
    NOTE("v " << str(e(v)) << " F " << str(e(F)) << " x " << str(X.transpose()));
    s.nontrivial(mx(R3(e(F)) - M3::Identity()) > 1e-9 && e(v).norm() > 0);
    y = x; y.Set2DXY(v); MNEAR(e(y), V3(v.x(), v.y(), 0), 0, "Set2DXY"); r = junk; r.Set3DXY(y); MNEAR(e(r), e(v), 0, "XY round trip");
    y = x; y.Set2DYZ(v); MNEAR(e(y), V3(0, v.x(), v.y()), 0, "Set2DYZ"); r = junk; r.Set3DYZ(y); MNEAR(e(r), e(v), 0, "YZ round trip");
    y = x; y.Set2DZX(v); MNEAR(e(y), V3(v.y(), 0, v.x()), 0, "Set2DZX"); r = junk; r.Set3DZX(y); MNEAR(e(r), e(v), 0, "ZX round trip");
    y = x; y.Set2DPlane(F, v); MNEAR(e(y), R3(e(F)) * V3(v.x(), v.y(), 0) + P3(e(F)), 1e-11, "Set2DPlane"); r = junk; r.Set3DPlane(F, y); MNEAR(e(r), e(v), 1e-10, "plane round trip");
    r.Set3DXY(x); MNEAR(e(r), V2(X(0), X(1)), 0, "Set3DXY"); r.Set3DYZ(x); MNEAR(e(r), V2(X(1), X(2)), 0, "Set3DYZ"); r.Set3DZX(x); MNEAR(e(r), V2(X(2), X(0)), 0, "Set3DZX");
    r.Set3DPlane(F, x); MNEAR(e(r), (R3(e(F)).transpose() * (X - P3(e(F)))).head<2>(), 1e-11, "Set3DPlane");
}
