#include "gen.hpp"
#include "stiffness.hpp"
#include <functional>
using namespace g;
typedef std::vector<double*> SL;
static void sl(double& d, SL& o) { o.push_back(&d); }
static void sl(Vector& v, SL& o) { for (double& d : v.data) o.push_back(&d); }
static void sl(Vector2& v, SL& o) { o.push_back(&v(0)); o.push_back(&v(1)); }
static void sl(Rotation& v, SL& o) { for (double& d : v.data) o.push_back(&d); }
static void sl(Frame& v, SL& o) { sl(v.M, o); sl(v.p, o); }
static void sl(Twist& v, SL& o) { sl(v.vel, o); sl(v.rot, o); }
static void sl(Wrench& v, SL& o) { sl(v.force, o); sl(v.torque, o); }
static void sl(VectorVel& v, SL& o) { sl(v.p, o); sl(v.v, o); }
static void sl(RotationVel& v, SL& o) { sl(v.R, o); sl(v.w, o); }
static void sl(FrameVel& v, SL& o) { sl(v.M, o); sl(v.p, o); }
static void sl(TwistVel& v, SL& o) { sl(v.vel, o); sl(v.rot, o); }
static void sl(VectorAcc& v, SL& o) { sl(v.p, o); sl(v.v, o); sl(v.dv, o); }
static void sl(RotationAcc& v, SL& o) { sl(v.R, o); sl(v.w, o); sl(v.dw, o); }
static void sl(FrameAcc& v, SL& o) { sl(v.M, o); sl(v.p, o); }
static void sl(TwistAcc& v, SL& o) { sl(v.vel, o); sl(v.rot, o); }
static void sl(doubleVel& v, SL& o) { sl(v.t, o); sl(v.grad, o); }
static void sl(doubleAcc& v, SL& o) { sl(v.t, o); sl(v.d, o); sl(v.dd, o); }
static void sl(JntArray& v, SL& o) { for (int i = 0; i < v.data.size(); ++i) o.push_back(&v.data(i)); }
static void sl(JntArrayVel& v, SL& o) { sl(v.q, o); sl(v.qdot, o); }
static void sl(JntArrayAcc& v, SL& o) { sl(v.q, o); sl(v.qdot, o); sl(v.qdotdot, o); }
static void sl(Jacobian& v, SL& o) { for (int i = 0; i < v.data.size(); ++i) o.push_back(v.data.data() + i); }
static void sl(JntSpaceInertiaMatrix& v, SL& o) { for (int i = 0; i < v.data.size(); ++i) o.push_back(v.data.data() + i); }

template <class T> static bool eqop(const T& a, const T& b, bool& ne) { ne = a != b; return a == b; }
enum { HASOP = 1, HASNE = 2, HASHASH = 4 };

// pair of values whose components differ by chosen multiples of eps
template <class T> static bool perturb(Src& s, T& b, double eps, std::ostringstream& desc) {
    SL o; sl(b, o);
    bool eq = true;
    if (o.empty()) return true;
    int k = s.range(0, 3);
    for (int i = 0; i < k; ++i) {
        size_t at = s.raw(o.size());
        static const double f[] = {0.3, -0.3, 0.9, -0.9, 1.1, -1.1, 3, -3, 1e3, -1e3, 1e9, -1e9};
        double d = f[s.raw(12)] * eps, old = *o[at];
        *o[at] = old + d;
        desc << "component " << at << " by " << (*o[at] - old) << "; ";
        if (o[at] && !(std::fabs(d) < eps)) eq = false;
        o[at] = &*o[at];
    }
    return eq;
}
template <class T> static void eqtest(Src& s, const char* name, const T& a, double eps, bool defeps) {
    T b(a);
    std::ostringstream d; d.precision(17);
    perturb(s, b, eps, d);
    // decide from the actual components (several perturbations may hit one component)
    SL x, y; T ac(a); sl(ac, x); sl(b, y);
    bool want = true, edge = false;
    for (size_t i = 0; i < x.size(); ++i) { double df = std::fabs(*x[i] - *y[i]); want = want && df < eps; edge = edge || std::fabs(df - eps) < 1e-3 * eps; }
    if (edge) s.discard();
    NOTE(name << " eps " << eps << " changed " << d.str());
    s.label(name); s.label(want ? "equal" : "different");
    s.nontrivial(!d.str().empty());
    EXPECT(Equal(a, b, eps) == want, name << ": Equal(a,b," << eps << ") is " << !want << " for " << d.str());
    EXPECT(Equal(b, a, eps) == want, name << ": Equal is symmetric for " << d.str());
    EXPECT(Equal(a, a, eps) && Equal(b, b, eps), name << ": Equal is reflexive");
    if (defeps) EXPECT(Equal(a, b) == want, name << ": Equal with the default epsilon for " << d.str());
}
template <class T> static void optest(Src& s, const char* name, const T& a, bool exactonly) {
    // a == b at the default epsilon, or bit-wise; tested only where both agree
    T b(a); SL y; sl(b, y);
    bool same = s.flip() || y.empty();
    size_t at = 0;
    if (!same) { at = s.raw(y.size()); *y[at] += (s.flip() ? 1 : -1) * (1e-3 + std::fabs(*y[at]) * 0.01); }
    NOTE(name << " component " << at << (same ? " unchanged" : " changed"));
    EXPECT((a == b) == same, name << ": operator==");
    EXPECT((a != b) == !same, name << ": operator!=");
    EXPECT((b == a) == same && a == a && !(a != a), name << ": operator== symmetric and reflexive");
}
template <class T> static void hashtest(Src& s, const char* name, const T& a) {
    T b(a); SL y; sl(b, y);
    EXPECT(std::hash<T>()(a) == std::hash<T>()(b), name << ": copies hash identically");
    // the same components written into other storage
    T c; SL z; sl(c, z); SL x; T aa(a); sl(aa, x); for (size_t i = 0; i < z.size(); ++i) *z[i] = *x[i];
    EXPECT(std::hash<T>()(a) == std::hash<T>()(c), name << ": equal components hash identically");
    // negative zero equals zero
    for (size_t i = 0; i < z.size(); ++i) if (*z[i] == 0) *z[i] = -*z[i];
    (void)s;
}
template <class T> static void hashdep(Src& s, const char* name, const T& a, T b) {
    EXPECT(std::hash<T>()(a) != std::hash<T>()(b), name << ": the hash ignores a component");
    (void)s;
}

static Vector2 gv2(Src& s) { double a = s.real(-9, 9); return Vector2(a, s.real(-9, 9)); }
static VectorVel gvv(Src& s) { Vector a = vec(s); return VectorVel(a, vec(s)); }
static RotationVel grv(Src& s) { Rotation a = rot(s); return RotationVel(a, vec(s)); }
static FrameVel gfv(Src& s) { RotationVel a = grv(s); return FrameVel(a, gvv(s)); }
static TwistVel gtv(Src& s) { VectorVel a = gvv(s); return TwistVel(a, gvv(s)); }
static VectorAcc gva(Src& s) { Vector a = vec(s), b = vec(s); return VectorAcc(a, b, vec(s)); }
static RotationAcc gra(Src& s) { Rotation a = rot(s); Vector b = vec(s); return RotationAcc(a, b, vec(s)); }
static FrameAcc gfa(Src& s) { RotationAcc a = gra(s); return FrameAcc(a, gva(s)); }
static TwistAcc gta(Src& s) { VectorAcc a = gva(s); return TwistAcc(a, gva(s)); }
static doubleVel gdv(Src& s) { double a = s.real(-9, 9); return doubleVel(a, s.real(-9, 9)); }
static doubleAcc gda(Src& s) { double a = s.real(-9, 9), b = s.real(-9, 9); return doubleAcc(a, b, s.real(-9, 9)); }

LAW(equal, 150000, "a value of any of 21 types and a copy with 0-3 components moved by multiples of eps around 1 (eps 1e-9..0.1); non-trivial: something moved") {
    double eps = std::pow(10.0, -s.range(1, 9));
    struct Keep { double was = KDL::epsilon; ~Keep() { KDL::epsilon = was; } } keep; // the default is a variable the user may set
    bool def = s.chance(1, 4); if (def && s.flip()) eps = KDL::epsilon; else if (def) KDL::epsilon = eps;
    int n = s.range(0, 7);
    switch (s.raw(22)) {
    case 0: eqtest(s, "Vector", vec(s), eps, def); break;
    case 1: eqtest(s, "Rotation", rot(s), eps, def); break;
    case 2: eqtest(s, "Frame", frame(s), eps, def); break;
    case 3: eqtest(s, "Twist", twist(s), eps, def); break;
    case 4: eqtest(s, "Wrench", wrench(s), eps, def); break;
    case 5: eqtest(s, "Vector2", gv2(s), eps, def); break;
    case 6: eqtest(s, "VectorVel", gvv(s), eps, def); break;
    case 7: eqtest(s, "RotationVel", grv(s), eps, def); break;
    case 8: eqtest(s, "FrameVel", gfv(s), eps, def); break;
    case 9: eqtest(s, "TwistVel", gtv(s), eps, def); break;
    case 10: eqtest(s, "VectorAcc", gva(s), eps, def); break;
    case 11: eqtest(s, "RotationAcc", gra(s), eps, def); break;
    case 12: eqtest(s, "FrameAcc", gfa(s), eps, def); break;
    case 13: eqtest(s, "TwistAcc", gta(s), eps, def); break;
    case 14: eqtest(s, "doubleVel", gdv(s), eps, def); break;
    case 15: eqtest(s, "doubleAcc", gda(s), eps, def); break;
    case 16: eqtest(s, "JntArray", kj(jvec(s, n)), eps, def); break;
    case 17: { VX a = jvec(s, n); eqtest(s, "JntArrayVel", JntArrayVel(kj(a), kj(jvec(s, n))), eps, def); break; }
    case 18: { VX a = jvec(s, n), b = jvec(s, n); eqtest(s, "JntArrayAcc", JntArrayAcc(kj(a), kj(b), kj(jvec(s, n))), eps, def); break; }
    case 19: { Jacobian J(n); for (int i = 0; i < n; ++i) J.setColumn(i, twist(s)); eqtest(s, "Jacobian", J, eps, def); break; }
    case 20: { JntSpaceInertiaMatrix M(n); for (int i = 0; i < n; ++i) for (int j = 0; j < n; ++j) M(i, j) = s.real(-2, 2); eqtest(s, "JntSpaceInertiaMatrix", M, eps, def); break; }
    default: { double a = s.real(-9, 9); eqtest(s, "double", a, eps, def); }
    }
}

// Rotation2/Frame2 keep cosine and sine private: perturb through the raw constructor
LAW(equal_planar, 20000, "planar rotations and frames with cosine, sine or origin moved around eps; non-trivial: something moved") {
    double eps = std::pow(10.0, -s.range(1, 9)), a = s.angle();
    static const double f[] = {0, 0.3, -0.9, 1.1, -3};
    double d[4]; for (double& x : d) x = f[s.raw(5)] * eps;
    Vector2 p = gv2(s), q(p.x() + d[2], p.y() + d[3]);
    Rotation2 A(std::cos(a), std::sin(a)), B(std::cos(a) + d[0], std::sin(a) + d[1]);
    s.nontrivial(d[0] || d[1] || d[2] || d[3]);
    bool r = std::fabs(d[0]) < eps && std::fabs(d[1]) < eps, t = std::fabs(d[2]) < eps && std::fabs(d[3]) < eps;
    NOTE("eps " << eps << " d " << d[0] << " " << d[1] << " " << d[2] << " " << d[3]);
    EXPECT(Equal(A, B, eps) == r && Equal(B, A, eps) == r, "Rotation2");
    EXPECT(Equal(Frame2(A, p), Frame2(B, q), eps) == (r && t), "Frame2");
    EXPECT(std::hash<Rotation2>()(A) == std::hash<Rotation2>()(Rotation2(A)) && std::hash<Frame2>()(Frame2(A, p)) == std::hash<Frame2>()(Frame2(A, p)), "planar hash");
    EXPECT(std::hash<Vector2>()(p) == std::hash<Vector2>()(Vector2(p)), "Vector2 hash");
}

LAW(equal_mixed, 60000, "plain value against its velocity- or acceleration-augmented form; non-trivial: derivative parts non-zero") {
    double eps = std::pow(10.0, -s.range(1, 9));
    auto run = [&](auto plain, auto lifted, const char* nm) {
        std::ostringstream d; d.precision(17); auto b = lifted; perturb(s, b, eps, d);
        SL x, y; sl(lifted, x); sl(b, y); bool want = true; for (size_t i = 0; i < x.size(); ++i) { double df = std::fabs(*x[i] - *y[i]); if (std::fabs(df - eps) < 1e-3 * eps) s.discard(); want = want && df < eps; }
        NOTE(nm << " eps " << eps << " " << d.str()); s.nontrivial(!d.str().empty());
        EXPECT(Equal(plain, b, eps) == want, nm << ": Equal(plain, lifted) for " << d.str());
        EXPECT(Equal(b, plain, eps) == want, nm << ": Equal(lifted, plain) for " << d.str());
    };
    switch (s.raw(8)) {
    case 0: { Vector v = vec(s); run(v, VectorVel(v, Vector::Zero()), "VectorVel"); break; }
    case 1: { Rotation v = rot(s); run(v, RotationVel(v, Vector::Zero()), "RotationVel"); break; }
    case 2: { Frame v = frame(s); run(v, FrameVel(RotationVel(v.M, Vector::Zero()), VectorVel(v.p, Vector::Zero())), "FrameVel"); break; }
    case 3: { Twist v = twist(s); run(v, TwistVel(VectorVel(v.vel, Vector::Zero()), VectorVel(v.rot, Vector::Zero())), "TwistVel"); break; }
    case 4: { Vector v = vec(s); run(v, VectorAcc(v, Vector::Zero(), Vector::Zero()), "VectorAcc"); break; }
    case 5: { Rotation v = rot(s); run(v, RotationAcc(v, Vector::Zero(), Vector::Zero()), "RotationAcc"); break; }
    case 6: { Frame v = frame(s); run(v, FrameAcc(RotationAcc(v.M, Vector::Zero(), Vector::Zero()), VectorAcc(v.p, Vector::Zero(), Vector::Zero())), "FrameAcc"); break; }
    default: { Twist v = twist(s); run(v, TwistAcc(VectorAcc(v.vel, Vector::Zero(), Vector::Zero()), VectorAcc(v.rot, Vector::Zero(), Vector::Zero())), "TwistAcc"); }
    }
    // == between plain and velocity forms
    Vector v = vec(s); Vector dv = s.flip() ? Vector::Zero() : Vector(0, 0.5, 0); bool z = dv.x() == 0 && dv.y() == 0;
    EXPECT((v == VectorVel(v, dv)) == z && (VectorVel(v, dv) == v) == z && (v != VectorVel(v, dv)) == !z && (VectorVel(v, dv) != v) == !z, "Vector == VectorVel");
    Rotation R = rot(s); RotationVel RV(R, dv);
    EXPECT((R == RV) == z && (RV == R) == z && (R != RV) == !z && (RV != R) == !z, "Rotation == RotationVel");
    Frame F(R, v); FrameVel FV(RV, VectorVel(v, Vector::Zero()));
    EXPECT((F == FV) == z && (FV == F) == z && (F != FV) == !z && (FV != F) == !z, "Frame == FrameVel");
    Twist T(v, dv); TwistVel TV(VectorVel(v, dv), VectorVel(dv, Vector::Zero()));
    EXPECT((T == TV) == z && (TV == T) == z && (T != TV) == !z && (TV != T) == !z, "Twist == TwistVel");
}

LAW(operators, 60000, "== and != for identical values and values with one clearly different component; non-trivial: always") {
    s.nontrivial();
    switch (s.raw(12)) {
    case 0: optest(s, "Vector", vec(s), false); break;
    case 1: optest(s, "Rotation", rot(s), false); break;
    case 2: optest(s, "Frame", frame(s), false); break;
    case 3: optest(s, "Twist", twist(s), false); break;
    case 4: optest(s, "Wrench", wrench(s), false); break;
    case 5: optest(s, "Vector2", gv2(s), false); break;
    case 6: optest(s, "VectorVel", gvv(s), false); break;
    case 7: optest(s, "RotationVel", grv(s), false); break;
    case 8: optest(s, "FrameVel", gfv(s), false); break;
    case 9: optest(s, "TwistVel", gtv(s), false); break;
    case 10: { int n = s.range(0, 6); Jacobian J(n); for (int i = 0; i < n; ++i) J.setColumn(i, twist(s)); optest(s, "Jacobian", J, false); break; }
    default: { int n = s.range(0, 6); JntArray a = kj(jvec(s, n)), b(a); EXPECT(a == b, "JntArray =="); if (n) { b((unsigned)s.raw(n)) += 0.5; EXPECT(!(a == b), "JntArray == sees a change"); } JntArray c(n + 1); EXPECT(!(a == c) && !Equal(a, c, 1e9) && !Equal(c, a, 1e9), "sizes differ");
        EXPECT(!Equal(Jacobian(n), Jacobian(n + 1), 1e9) && !Equal(JntSpaceInertiaMatrix(n), JntSpaceInertiaMatrix(n + 1), 1e9) && !Equal(JntArrayVel(n), JntArrayVel(n + 1), 1e9) && !Equal(JntArrayAcc(n), JntArrayAcc(n + 1), 1e9), "sizes differ"); }
    }
}

LAW(hash, 60000, "values of every hashable type; non-trivial: all components non-zero") {
    s.nontrivial();
    auto dep = [&](auto a, const char* nm) {   // large change in one non-rotational component
        hashtest(s, nm, a); auto b = a; SL o; sl(b, o); size_t at = s.raw(o.size());
        *o[at] += 1.25; hashdep(s, nm, a, b); NOTE(nm << " component " << at);
    };
    switch (s.raw(12)) {
    case 0: dep(vec(s), "Vector"); break;
    case 1: dep(twist(s), "Twist"); break;
    case 2: dep(wrench(s), "Wrench"); break;
    case 3: dep(gv2(s), "Vector2"); break;
    case 4: dep(gdv(s), "doubleVel"); break;
    case 5: dep(gvv(s), "VectorVel"); break;
    case 6: dep(gtv(s), "TwistVel"); break;
    case 7: dep(gda(s), "doubleAcc"); break;
    case 8: dep(gva(s), "VectorAcc"); break;
    case 9: dep(gta(s), "TwistAcc"); break;
    case 10: { Frame F = frame(s); hashtest(s, "Frame", F); hashtest(s, "Rotation", F.M); Frame G(F.M, F.p + Vector(1, 0, 0)); hashdep(s, "Frame", F, G); Frame H(k(M3(rotm(V3(0.6, 0, 0.8), 0.7) * e(F.M))), F.p); hashdep(s, "Frame", F, H); hashdep(s, "Rotation", F.M, H.M); break; }
    default: {
        FrameVel F = gfv(s); hashtest(s, "FrameVel", F); hashtest(s, "RotationVel", F.M); FrameVel G(F); G.M.w.data[s.raw(3)] += 1; hashdep(s, "FrameVel", F, G); hashdep(s, "RotationVel", F.M, G.M); G = F; G.p.v.data[s.raw(3)] += 1; hashdep(s, "FrameVel", F, G);
        FrameAcc A = gfa(s); hashtest(s, "FrameAcc", A); hashtest(s, "RotationAcc", A.M); FrameAcc B(A); B.M.dw.data[s.raw(3)] += 1; hashdep(s, "FrameAcc", A, B); hashdep(s, "RotationAcc", A.M, B.M); B = A; B.p.dv.data[s.raw(3)] += 1; hashdep(s, "FrameAcc", A, B); }
    }
}

LAW(norm, 80000, "vectors of magnitude 1e-205..1e307 in any direction and any threshold; non-trivial: not axis aligned") {
    bool far = s.chance(1, 4); double mag = s.chance(1, 12) ? 0 : far ? std::pow(10.0, s.uni(-205, 307.5)) : std::pow(10.0, s.uni(-14, 4));
    V3 d = unit(s) * mag; bool def = s.flip();
    double eps = def ? KDL::epsilon : far ? std::pow(10.0, s.uni(-200, -1)) : std::pow(10.0, s.uni(-13, -1));
    Vector v = k(d); double n = d.stableNorm();
    NOTE("v " << str(d.transpose()) << " eps " << eps);
    s.nontrivial(d(0) != 0 && d(1) != 0);
    double big = std::max({std::fabs(d(0)), std::fabs(d(1)), std::fabs(d(2))});
    double got = def ? v.Norm() : v.Norm(eps);
    bool lo = n < eps * (1 - 1e-9), hi = big >= eps;
    // between "every component below the threshold" and "norm above it" either answer is a reading of the documentation
    if (lo) NEAR(got, 0.0, 0.0, "norm below the threshold");
    else if (hi) NEAR(got, n, 1e-14 * n, "norm");
    else EXPECT(got == 0 || std::fabs(got - n) <= 1e-14 * n, "norm near the threshold");
    Vector w(v); double r = def ? w.Normalize() : w.Normalize(eps);
    if (lo) { NEAR(r, 0.0, 0.0, "Normalize below the threshold returns 0"); MNEAR(e(w), V3(1, 0, 0), 0, "fallback vector"); }
    else if (hi) { NEAR(r, n, 1e-14 * n, "Normalize returns the norm"); MNEAR(e(w), d / n, 1e-12, "normalised vector"); NEAR(e(w).norm(), 1.0, 1e-12, "unit length"); }
    Vector2 u(d(0), d(1)); double m = std::hypot(d(0), d(1)), b2 = std::max(std::fabs(d(0)), std::fabs(d(1)));
    got = def ? u.Norm() : u.Norm(eps);
    if (m < eps * (1 - 1e-9)) NEAR(got, 0.0, 0.0, "2D norm below the threshold"); else if (b2 >= eps) NEAR(got, m, 1e-14 * m, "2D norm");
    r = def ? u.Normalize() : u.Normalize(eps);
    if (m < eps * (1 - 1e-9)) { NEAR(r, 0.0, 0.0, "2D Normalize below threshold"); NEAR(u.x(), 1.0, 0.0, "2D fallback"); NEAR(u.y(), 0.0, 0.0, "2D fallback"); }
    else if (b2 >= eps) { NEAR(r, m, 1e-14 * m, "2D Normalize"); NEAR(u.x(), d(0) / m, 1e-12, "2D normalised"); NEAR(u.y(), d(1) / m, 1e-12, "2D normalised"); }
}

LAW(stiffness, 20000, "two diagonal stiffnesses and twists; non-trivial: distinct entries") {
    double a[6], b[6]; for (double& x : a) x = s.uni(0.1, 50); for (double& x : b) x = s.uni(0.1, 50);
    Twist t = twist(s), u = twist(s); double c = s.real(-3, 3); Stiffness A(a), B(b[0], b[1], b[2], b[3], b[4], b[5]), Z;
    s.nontrivial();
    V6 va, vb; for (int i = 0; i < 6; ++i) { va(i) = a[i]; vb(i) = b[i]; EXPECT(A[i] == a[i] && B[i] == b[i] && Z[i] == 0, "entries"); }
    MNEAR(e(A * t), va.cwiseProduct(e(t)), 1e-12, "K*t"); MNEAR(e((A + B) * t), (va + vb).cwiseProduct(e(t)), 1e-11, "(K1+K2)*t"); MNEAR(e((A + B) * t), e(A * t) + e(B * t), 1e-11, "additive");
    MNEAR(e(A * (t * c + u)), e(A * t) * c + e(A * u), 1e-10, "linear"); MNEAR(e(A.Inverse(A * t)), e(t), 1e-12, "inverse"); MNEAR(e(A * A.Inverse(Wrench(u.vel, u.rot))), e(u), 1e-12, "inverse");
    MNEAR(e(Z * t), V6::Zero(), 0, "default is zero"); A[3] = 7; NEAR(A[3], 7.0, 0, "element write");
}

LAW(scalars, 40000, "helpers on plain numbers (min, max, sign, sqr, Norm, LinComb, diff, addDelta, zero and identity, Equal, degrees and radians, random numbers and their range) and the constants; non-trivial: operands differ") {
    auto num = [&] { return s.chance(1, 6) ? 0.0 : s.chance(1, 4) ? (double)s.range(-3, 3) : s.real(-1, 1) * std::pow(10.0, s.range(-6, 6)); };
    double a = num(), b = s.chance(1, 6) ? a : num(), x = num(), y = num(), dt = std::pow(10.0, s.range(-4, 3)), r = 7; NOTE(a << ", " << b << " with " << x << ", " << y << ", dt " << dt); s.nontrivial(a != b);
    EXPECT(KDL::max(a, b) == (a < b ? b : a) && KDL::min(a, b) == (a < b ? a : b), "min, max"); EXPECT(sign(a) == (a < 0 ? -1 : 1), "sign"); EXPECT(sqr(a) == a * a && Norm(a) == (a < 0 ? -a : a), "square and norm");
    double lc = x * a + y * b, tl = 1e-14 * (std::fabs(x * a) + std::fabs(y * b)); NEAR(LinComb(x, a, y, b), lc, tl, "linear combination"); LinCombR(x, a, y, b, r); NEAR(r, lc, tl, "linear combination into a result");
    NEAR(diff(a, b, dt), (b - a) / dt, 1e-14 * (std::fabs(a) + std::fabs(b)) / dt, "difference quotient"); NEAR(addDelta(a, b, dt), a + b * dt, 1e-14 * (std::fabs(a) + std::fabs(b * dt)), "addDelta"); NEAR(addDelta(a, diff(a, b, dt), dt), b, 1e-13 * (std::fabs(a) + std::fabs(b)), "addDelta after diff");
    r = a; SetToZero(r); EXPECT(r == 0, "zero"); r = a; SetToIdentity(r); EXPECT(r == 1, "identity");
    for (int i = 0; i < 4; ++i) { r = 77; random(r); EXPECT(r >= -1 && r <= 1, "random number " << r << " outside -1..1"); r = 77; posrandom(r); EXPECT(r > 0 && r <= 1, "positive random number " << r << " outside 0..1"); }
    NEAR(PI, std::acos(-1.0), 1e-15, "PI"); NEAR(PI_2, std::acos(-1.0) / 2, 1e-15, "PI_2"); NEAR(PI_4, std::acos(-1.0) / 4, 1e-15, "PI_4"); NEAR(deg2rad * 180, std::acos(-1.0), 1e-14, "deg2rad"); NEAR(rad2deg * std::acos(-1.0), 180, 1e-12, "rad2deg");
    NEAR(a * deg2rad * rad2deg, a, 1e-14 * std::fabs(a), "degrees to radians and back");
}
