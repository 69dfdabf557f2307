#include "gen.hpp"
#include <stiffness.hpp>
using namespace g;

// magnitudes from 1e-3 to 1e3
static Vector bvec(Src& s) { double m = std::pow(10.0, (double)s.range(0, 6) - 3); return vec(s, m); }
static Twist btw(Src& s) { Vector a = bvec(s); return Twist(a, bvec(s)); }
static Wrench bwr(Src& s) { Vector a = bvec(s); return Wrench(a, bvec(s)); }
static Frame bfr(Src& s) { Rotation R = rot(s); return Frame(R, bvec(s)); }
static const double T = 1e-12;
static bool nz(const MX& m) { return mx(m) > 0; }

LAW(vectors, 40000, "three vectors and a scalar of mixed magnitudes; non-trivial: no operand is zero") {
    Vector a = bvec(s), b = bvec(s); double c = s.real(-20, 20);
    V3 A = e(a), B = e(b);
    NOTE("a " << str(A.transpose()) << " b " << str(B.transpose()) << " c " << c);
    s.nontrivial(nz(A) && nz(B) && c != 0);
    double S = 1 + mx(A) + mx(B), t = T * S * S * (1 + std::fabs(c));
    MNEAR(e(a + b), A + B, t, "a+b"); MNEAR(e(a - b), A - B, t, "a-b"); MNEAR(e(-a), -A, 0, "-a");
    MNEAR(e(a * c), A * c, t, "a*c"); MNEAR(e(c * a), A * c, t, "c*a");
    if (std::fabs(c) > 1e-6) MNEAR(e(a / c), A / c, T * (S / std::fabs(c) + 1), "a/c");
    MNEAR(e(a * b), A.cross(B), t, "cross product");
    NEAR(dot(a, b), A.dot(B), t, "dot");
    Vector x = a; x += b; MNEAR(e(x), A + B, t, "+="); x = a; x -= b; MNEAR(e(x), A - B, t, "-=");
    x = a; x += x; MNEAR(e(x), 2 * A, t, "a+=a"); x = a; x -= x; MNEAR(e(x), V3(0, 0, 0), 0, "a-=a");
    x = a; x.ReverseSign(); MNEAR(e(x), -A, 0, "ReverseSign");
    x = Vector(A(0), A(1), A(2)); MNEAR(e(x), A, 0, "ctor");
    for (int i = 0; i < 3; ++i) { EXPECT(x(i) == A(i) && x[i] == A(i), "element " << i); Vector y = a; y(i) = c; EXPECT(e(y)(i) == c, "set"); y = a; y[i] = c; EXPECT(e(y)(i) == c, "set []"); }
    EXPECT(x.x() == A(0) && x.y() == A(1) && x.z() == A(2), "x y z");
    Vector y = a; y.x(B(0)); MNEAR(e(y), V3(B(0), A(1), A(2)), 0, "x()"); y = a; y.y(B(1)); MNEAR(e(y), V3(A(0), B(1), A(2)), 0, "y()"); y = a; y.z(B(2)); MNEAR(e(y), V3(A(0), A(1), B(2)), 0, "z()");
    SetToZero(y); MNEAR(e(y), V3(0, 0, 0), 0, "SetToZero"); MNEAR(e(Vector::Zero()), V3(0, 0, 0), 0, "Zero"); MNEAR(e(Vector()), V3(0, 0, 0), 0, "default");
    y = a; Vector z(a); MNEAR(e(z), A, 0, "copy"); y = y; MNEAR(e(y), A, 0, "self assignment");
}

LAW(rotations, 40000, "two rotations, a vector, a twist and a wrench; non-trivial: neither rotation is the identity") {
    Rotation P = rot(s), Q = rot(s); Vector v = bvec(s); Twist t = btw(s); Wrench w = bwr(s);
    M3 A = e(P), B = e(Q); V3 V = e(v); V6 t6 = e(t), w6 = e(w);
    NOTE("P " << str(A) << " Q " << str(B) << " v " << str(V.transpose()) << " t " << str(t6.transpose()) << " w " << str(w6.transpose()));
    s.nontrivial(mx(A - M3::Identity()) > 1e-9 && mx(B - M3::Identity()) > 1e-9);
    double S = 1 + mx(V) + mx(t6) + mx(w6), tol = T * S;
    MNEAR(e(P * Q), A * B, T, "P*Q"); MNEAR(e(P * v), A * V, tol, "P*v");
    MNEAR(e(P.Inverse()), A.transpose(), T, "Inverse()"); MNEAR(e(P.Inverse(v)), A.transpose() * V, tol, "Inverse(v)");
    Rotation x = P; x.SetInverse(); MNEAR(e(x), A.transpose(), T, "SetInverse");
    x = P; x = x * x; MNEAR(e(x), A * A, T, "P=P*P"); x = P; x = x; MNEAR(e(x), A, 0, "self assignment"); Rotation cp(P); MNEAR(e(cp), A, 0, "copy");
    V6 ref; ref << A * t6.head<3>(), A * t6.tail<3>(); MNEAR(e(P * t), ref, tol, "P*twist");
    ref << A.transpose() * t6.head<3>(), A.transpose() * t6.tail<3>(); MNEAR(e(P.Inverse(t)), ref, tol, "Inverse(twist)");
    ref << A * w6.head<3>(), A * w6.tail<3>(); MNEAR(e(P * w), ref, tol, "P*wrench");
    ref << A.transpose() * w6.head<3>(), A.transpose() * w6.tail<3>(); MNEAR(e(P.Inverse(w)), ref, tol, "Inverse(wrench)");
    MNEAR(e(P.UnitX()), A.col(0), 0, "UnitX"); MNEAR(e(P.UnitY()), A.col(1), 0, "UnitY"); MNEAR(e(P.UnitZ()), A.col(2), 0, "UnitZ");
    x = Q; x.UnitX(P.UnitX()); x.UnitY(P.UnitY()); x.UnitZ(P.UnitZ()); MNEAR(e(x), A, 0, "Unit setters");
    for (int i = 0; i < 3; ++i) { x = Q; M3 R = B; R.col(i) = A.col(i); if (i == 0) x.UnitX(P.UnitX()); else if (i == 1) x.UnitY(P.UnitY()); else x.UnitZ(P.UnitZ()); MNEAR(e(x), R, 0, "single Unit setter " << i); }
    MNEAR(e(Rotation(P.UnitX(), P.UnitY(), P.UnitZ())), A, 0, "column ctor");
    MNEAR(e(Rotation(A(0, 0), A(0, 1), A(0, 2), A(1, 0), A(1, 1), A(1, 2), A(2, 0), A(2, 1), A(2, 2))), A, 0, "element ctor");
    double an = s.chance(1, 3) ? s.magnitude(1e-9, 1) * (s.flip() ? -1 : 1) : s.angle(); NOTE("angle " << an);
    for (int i = 0; i < 3; ++i) { V3 u = V3::Zero(); u(i) = 1; x = P; if (i == 0) x.DoRotX(an); else if (i == 1) x.DoRotY(an); else x.DoRotZ(an); Rotation y = i == 0 ? Rotation::RotX(an) : i == 1 ? Rotation::RotY(an) : Rotation::RotZ(an); MNEAR(e(x), A * rotm(u, an), T, "turn in place about axis " << i); MNEAR(e(x), e(P * y), T, "turn in place equals the product"); }
    for (int i = 0; i < 3; ++i) for (int j = 0; j < 3; ++j) { const Rotation& c = P; EXPECT(c(i, j) == A(i, j), "element"); x = P; x(i, j) = 7; M3 R = A; R(i, j) = 7; MNEAR(e(x), R, 0, "element set"); }
}

LAW(frames, 40000, "three frames, a vector, a twist and a wrench; non-trivial: rotation and translation parts present") {
    Frame F = bfr(s), G = bfr(s), H = bfr(s); Vector v = bvec(s); Twist t = btw(s); Wrench w = bwr(s);
    M4 A = e(F), B = e(G), C = e(H); V3 V = e(v);
    NOTE("F " << str(A) << " G " << str(B) << " v " << str(V.transpose()) << " t " << str(e(t).transpose()) << " w " << str(e(w).transpose()));
    s.nontrivial(mx(R3(A) - M3::Identity()) > 1e-9 && nz(P3(A)) && mx(R3(B) - M3::Identity()) > 1e-9 && nz(P3(B)));
    double S = 1 + mx(A) + mx(B) + mx(C), SV = S + mx(V), SB = (1 + mx(e(t)) + mx(e(w))) * S;
    MNEAR(e(F * G), A * B, T * S, "F*G"); MNEAR(e((F * G) * H), e(F * (G * H)), T * S * 2, "associativity");
    MNEAR(e(F * v), R3(A) * V + P3(A), T * SV, "F*v"); MNEAR(e(F.Inverse()), inv4(A), T * S, "Inverse"); MNEAR(e(F.Inverse(v)), R3(A).transpose() * (V - P3(A)), T * SV, "Inverse(v)");
    MNEAR(e(F * F.Inverse()), M4::Identity(), T * S, "F*F^-1");
    Frame x = F; x = x * x; MNEAR(e(x), A * A, T * S, "F=F*F"); x = F; x = x; MNEAR(e(x), A, 0, "self assignment"); Frame cp(F); MNEAR(e(cp), A, 0, "copy");
    // adjoints: reference point and base change
    V3 tv = e(t.vel), tr = e(t.rot), wf = e(w.force), wt = e(w.torque);
    V6 r;
    r << R3(A) * tv + P3(A).cross(R3(A) * tr), R3(A) * tr; MNEAR(e(F * t), r, T * SB, "F*twist");
    r << R3(A) * wf, R3(A) * wt + P3(A).cross(R3(A) * wf); MNEAR(e(F * w), r, T * SB, "F*wrench");
    M3 RT = R3(A).transpose();
    r << RT * (tv - P3(A).cross(tr)), RT * tr; MNEAR(e(F.Inverse(t)), r, T * SB, "Inverse(twist)");
    r << RT * wf, RT * (wt - P3(A).cross(wf)); MNEAR(e(F.Inverse(w)), r, T * SB, "Inverse(wrench)");
    MNEAR(e(F.Inverse(t)), e(F.Inverse() * t), T * SB * S, "Inverse(twist) long form"); MNEAR(e(F.Inverse(w)), e(F.Inverse() * w), T * SB * S, "Inverse(wrench) long form");
    MNEAR(e((F * G) * t), e(F * (G * t)), T * SB * S * 4, "twist action composes"); MNEAR(e((F * G) * w), e(F * (G * w)), T * SB * S * 4, "wrench action composes");
    NEAR(dot(F * t, F * w), dot(t, w), T * SB * SB * 4, "power invariance");
    Vector d = bvec(s); V3 D = e(d); double SD = SB * (1 + mx(D));
    r << tv + tr.cross(D), tr; MNEAR(e(t.RefPoint(d)), r, T * SD, "twist RefPoint");
    r << wf, wt + wf.cross(D); MNEAR(e(w.RefPoint(d)), r, T * SD, "wrench RefPoint");
    MNEAR(e(t.RefPoint(d).RefPoint(-d)), e(t), T * SD, "twist RefPoint inverse"); MNEAR(e(w.RefPoint(d).RefPoint(-d)), e(w), T * SD, "wrench RefPoint inverse");
    NEAR(dot(t.RefPoint(d), w.RefPoint(d)), dot(t, w), T * SD * SD, "power under RefPoint"); NEAR(dot(w, t), dot(t, w), T * SB * SB, "dot symmetric");
    NEAR(dot(t, w), tv.dot(wf) + tr.dot(wt), T * SB * SB, "power");
    // access
    double m[16]; F.Make4x4(m); for (int i = 0; i < 4; ++i) for (int j = 0; j < 4; ++j) { const Frame& c = F; EXPECT(m[4 * i + j] == A(i, j) && F(i, j) == A(i, j) && c(i, j) == A(i, j), "element " << i << j); }
    MNEAR(e(Frame(F.M)), mk4(R3(A), V3(0, 0, 0)), 0, "Frame(R)"); MNEAR(e(Frame(F.p)), mk4(M3::Identity(), P3(A)), 0, "Frame(p)"); MNEAR(e(Frame(F.M, F.p)), A, 0, "Frame(R,p)");
    MNEAR(e(Frame::Identity()), M4::Identity(), 0, "Identity"); MNEAR(e(Frame()), M4::Identity(), 0, "default");
}

LAW(twists_wrenches, 40000, "two twists, two wrenches and a scalar; non-trivial: all non-zero") {
    Twist a = btw(s), b = btw(s); Wrench u = bwr(s), w = bwr(s); double c = s.real(-20, 20);
    V6 A = e(a), B = e(b), U = e(u), W = e(w);
    NOTE("a " << str(A.transpose()) << " b " << str(B.transpose()) << " u " << str(U.transpose()) << " w " << str(W.transpose()) << " c " << c);
    s.nontrivial(nz(A) && nz(B) && nz(U) && nz(W) && c != 0);
    double S = 1 + mx(A) + mx(B) + mx(U) + mx(W), t = T * S * S * (1 + std::fabs(c));
    MNEAR(e(a + b), A + B, t, "t+t"); MNEAR(e(a - b), A - B, t, "t-t"); MNEAR(e(-a), -A, 0, "-t"); MNEAR(e(a * c), A * c, t, "t*c"); MNEAR(e(c * a), A * c, t, "c*t");
    MNEAR(e(u + w), U + W, t, "w+w"); MNEAR(e(u - w), U - W, t, "w-w"); MNEAR(e(-u), -U, 0, "-w"); MNEAR(e(u * c), U * c, t, "w*c"); MNEAR(e(c * u), U * c, t, "c*w");
    if (std::fabs(c) > 1e-6) { MNEAR(e(a / c), A / c, T * (1 + S / std::fabs(c)), "t/c"); MNEAR(e(u / c), U / c, T * (1 + S / std::fabs(c)), "w/c"); }
    Twist x = a; x += b; MNEAR(e(x), A + B, t, "t+="); x = a; x -= b; MNEAR(e(x), A - B, t, "t-="); x = a; x += x; MNEAR(e(x), 2 * A, t, "t+=t"); x = a; x -= x; MNEAR(e(x), V6(V6::Zero()), 0, "t-=t");
    Wrench y = u; y += w; MNEAR(e(y), U + W, t, "w+="); y = u; y -= w; MNEAR(e(y), U - W, t, "w-="); y = u; y += y; MNEAR(e(y), 2 * U, t, "w+=w");
    x = a; x.ReverseSign(); MNEAR(e(x), -A, 0, "t.ReverseSign"); y = u; y.ReverseSign(); MNEAR(e(y), -U, 0, "w.ReverseSign");
    for (int i = 0; i < 6; ++i) {
        const Twist& ca = a; const Wrench& cu = u;
        EXPECT(ca(i) == A(i) && ca[i] == A(i), "twist element " << i); EXPECT(cu(i) == U(i) && cu[i] == U(i), "wrench element " << i);
        V6 R = A; R(i) = c; x = a; x(i) = c; MNEAR(e(x), R, 0, "twist set " << i); x = a; x[i] = c; MNEAR(e(x), R, 0, "twist set[] " << i);
        R = U; R(i) = c; y = u; y(i) = c; MNEAR(e(y), R, 0, "wrench set " << i); y = u; y[i] = c; MNEAR(e(y), R, 0, "wrench set[] " << i);
    }
    SetToZero(x); SetToZero(y); MNEAR(e(x), V6(V6::Zero()), 0, "zero"); MNEAR(e(y), V6(V6::Zero()), 0, "zero"); MNEAR(e(Twist::Zero()), V6(V6::Zero()), 0, "Zero"); MNEAR(e(Wrench::Zero()), V6(V6::Zero()), 0, "Zero"); MNEAR(e(Twist()), V6(V6::Zero()), 0, "default"); MNEAR(e(Wrench()), V6(V6::Zero()), 0, "default");
    // spatial cross products: Lie bracket and its dual
    V3 av = A.head<3>(), aw = A.tail<3>(), bv = B.head<3>(), bw = B.tail<3>(), f = U.head<3>(), n = U.tail<3>();
    V6 r; r << aw.cross(bv) + av.cross(bw), aw.cross(bw); MNEAR(e(a * b), r, t, "twist x twist");
    r << aw.cross(f), aw.cross(n) + av.cross(f); MNEAR(e(a * u), r, t, "twist x wrench");
    NEAR(dot(a * b, u), -dot(b, a * u), 10 * t * S, "duality of the spatial products");
    MNEAR(e(a * b), -e(b * a), t, "antisymmetry");
    Frame F = bfr(s); double SF = 1 + mx(e(F));
    MNEAR(e((F * a) * (F * b)), e(F * (a * b)), 20 * t * SF * SF, "bracket commutes with frame changes"); MNEAR(e((F * a) * (F * u)), e(F * (a * u)), 20 * t * SF * SF, "dual bracket commutes with frame changes");
}

LAW(denavit_hartenberg, 30000, "DH parameters incl. right angles; non-trivial: at least three non-zero") {
    double a = s.real(-5, 5), al = s.angle(), d = s.real(-5, 5), th = s.angle();
    NOTE("a " << a << " alpha " << al << " d " << d << " theta " << th);
    s.nontrivial((a != 0) + (al != 0) + (d != 0) + (th != 0) >= 3);
    M4 X = mk4(M3::Identity(), V3(a, 0, 0)) * mk4(rotm(V3::UnitX(), al), V3(0, 0, 0)), Z = mk4(M3::Identity(), V3(0, 0, d)) * mk4(rotm(V3::UnitZ(), th), V3(0, 0, 0));
    MNEAR(e(Frame::DH(a, al, d, th)), Z * X, 1e-12, "DH"); MNEAR(e(Frame::DH_Craig1989(a, al, d, th)), X * Z, 1e-12, "DH_Craig1989");
}

// random values of every type: usable as they are
LAW(random_values, 30000, "random and posrandom values of every type from a random seed of the C generator; non-trivial: always") {
    unsigned sd = (unsigned)s.raw(1u << 30); srand(sd); NOTE("seed " << sd); s.nontrivial(); bool pos = s.flip(); double lo = pos ? 0 : -1;
    auto in = [&](const MX& m, const char* w) { EXPECT(m.minCoeff() > lo && m.maxCoeff() < 1, w << (pos ? " (positive)" : "") << " out of range: " << str(m.transpose())); };
    auto rotok = [&](const Rotation& R, const char* w) { EXPECT(so3err(e(R)) < 1e-12, w << " is not a rotation"); };
    #define GEN(T, x) T x; if (pos) posrandom(x); else random(x)
    { double x; if (pos) posrandom(x); else KDL::random(x); MX m(1, 1); m << x; in(m, "double"); } { GEN(Vector, x); in(e(x), "Vector"); } { GEN(Twist, x); in(e(x), "Twist"); } { GEN(Wrench, x); in(e(x), "Wrench"); } { GEN(Rotation, x); rotok(x, "Rotation"); double a, b, c; x.GetEulerZYX(a, b, c); in(V3(a, b, c), "angles of Rotation"); }
    { GEN(Frame, x); rotok(x.M, "Frame.M"); in(e(x.p), "Frame.p"); double a, b, c; x.M.GetEulerZYX(a, b, c); in(V3(a, b, c), "angles of Frame.M"); }
    { GEN(doubleVel, x); Eigen::Vector2d m(x.t, x.grad); in(m, "doubleVel"); } { GEN(VectorVel, x); in(e(x.p), "VectorVel"); in(e(x.v), "VectorVel rate"); } { GEN(TwistVel, x); in(e(x.GetTwist()), "TwistVel"); in(e(x.GetTwistDot()), "TwistVel rate"); }
    { GEN(RotationVel, x); rotok(x.R, "RotationVel"); in(e(x.w), "RotationVel rate"); } { GEN(FrameVel, x); rotok(x.M.R, "FrameVel"); in(e(x.M.w), "FrameVel rotation rate"); in(e(x.p.p), "FrameVel.p"); in(e(x.p.v), "FrameVel.p rate"); }
    { Stiffness x; if (pos) posrandom(x); else random(x); V6 m; for (int i = 0; i < 6; ++i) m(i) = x[i]; EXPECT(m.minCoeff() > 0 && m.maxCoeff() < 1, "stiffness"); }
    #undef GEN
}
