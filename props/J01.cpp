#include "gen.hpp"
using namespace g;

static VX val(Src& s, int n) { return jvec(s, n, 5); }
static double den(Src& s) { double d = s.uni(0.1, 4); return s.flip() ? -d : d; }
static bool same(const VX& a, const VX& b, double tol) { if (a.size() != b.size()) return false; for (int i = 0; i < a.size(); ++i) if (!(std::fabs(a(i) - b(i)) <= tol)) return false; return true; }
#define CMP(A, B, X) do { VX a_ = (A), b_ = (B); double t_ = 1e-13 * (1 + mx(b_)) * 50; if (!same(a_, b_, t_)) FAIL(X << ": " #A " = " << str(a_.transpose()) << ", expected " << str(b_.transpose())); } while (0)

// a value with derivatives along some curve
struct C2 { VX a, b, c; };
static C2 c2(Src& s, int n) { VX a = val(s, n), b = val(s, n), c = val(s, n); return {a, b, c}; }
static JntArrayAcc acc(const C2& x) { return JntArrayAcc(kj(x.a), kj(x.b), kj(x.c)); }
static JntArrayVel vel(const C2& x) { return JntArrayVel(kj(x.a), kj(x.b)); }
struct D2 { double t, d, dd; };
static C2 mul(const C2& x, D2 f) { return {x.a * f.t, x.b * f.t + x.a * f.d, x.c * f.t + 2 * x.b * f.d + x.a * f.dd}; }
static D2 inv(D2 f) { return {1 / f.t, -f.d / (f.t * f.t), -f.dd / (f.t * f.t) + 2 * f.d * f.d / (f.t * f.t * f.t)}; }
static D2 d2(Src& s) { double t = den(s), d = s.real(-3, 3), dd = s.real(-3, 3); return {t, d, dd}; }

// the result object: fresh (any size), the first operand, or the second one
template <class T> static T& pickDest(Src& s, T& a, T& b, T& fresh, bool two, int& al) { al = (int)s.raw(two ? 4 : 3); return al == 1 ? a : (two && al == 2) ? b : fresh; }

LAW(arrays, 150000, "JntArray Add/Subtract/Multiply/Divide/SetToZero/MultiplyJacobian with a fresh or shared destination, 0..9 joints; non-trivial: shared destination with two or more joints") {
    int n = s.range(0, 9); VX a = val(s, n), b = val(s, n); JntArray A = kj(a), B = kj(b), F = kj(val(s, s.flip() ? n : s.range(0, 9)));
    if (s.chance(1, 8)) { Add(A, A, A); CMP(e(A), VX(2 * a), "Add(x,x,x)"); Subtract(A, A, A); CMP(e(A), VX::Zero(n), "Subtract(x,x,x)"); s.nontrivial(n > 1); return; }
    int op = (int)s.raw(6), al; double f = den(s);
    JntArray& D = pickDest(s, A, B, F, op < 2, al);
    NOTE("op " << op << " alias " << al << " a " << str(a.transpose()) << " b " << str(b.transpose()) << " f " << f);
    s.nontrivial(al == 1 && n > 1); s.label("op" + std::to_string(op) + (al == 1 || (op < 2 && al == 2) ? " shared" : ""));
    if (op == 0) { Add(A, B, D); CMP(e(D), VX(a + b), "Add"); }
    else if (op == 1) { Subtract(A, B, D); CMP(e(D), VX(a - b), "Subtract"); }
    else if (op == 2) { Multiply(A, f, D); CMP(e(D), VX(a * f), "Multiply"); }
    else if (op == 3) { Divide(A, f, D); CMP(e(D), VX(a / f), "Divide"); }
    else if (op == 4) { SetToZero(D); CMP(e(D), VX::Zero(D.rows()), "SetToZero"); }
    else { Jacobian J(n); for (int i = 0; i < n; ++i) J.setColumn(i, twist(s)); V6 w = V6::Zero(); for (int i = 0; i < n; ++i) w += e(J.getColumn(i)) * a(i); Twist t(Vector(3, 3, 3), Vector(4, 4, 4)); MultiplyJacobian(J, A, t); CMP(e(t), w, "MultiplyJacobian"); }
    if (&D != &A) CMP(e(A), a, "first operand"); if (&D != &B) CMP(e(B), b, "second operand");
}

LAW(velocity, 150000, "JntArrayVel operations with plain and derivative scalars, mixed operands, fresh or shared destination; non-trivial: shared destination with nonzero derivative") {
    int n = s.range(0, 7); C2 a = c2(s, n), b = c2(s, n); JntArrayVel A = vel(a), B = vel(b), F = vel(c2(s, s.flip() ? n : s.range(0, 7))); D2 f = d2(s);
    int op = (int)s.raw(9), al; bool two = op == 0 || op == 1;
    JntArrayVel& D = pickDest(s, A, B, F, two, al); JntArray P = kj(b.a);
    NOTE("op " << op << " alias " << al << " a " << str(a.a.transpose()) << " " << str(a.b.transpose()) << " b " << str(b.a.transpose()) << " " << str(b.b.transpose()) << " f " << f.t << " " << f.d);
    s.nontrivial(al == 1 && n > 0 && f.d != 0); s.label("op" + std::to_string(op) + (al == 1 ? " shared" : ""));
    C2 w = a; doubleVel g(f.t, f.d); D2 f1 = {f.t, f.d, 0}, f0 = {f.t, 0, 0};
    // destination sharing only one component with an operand
    if (op == 0) { Add(A, B, D); w.a = a.a + b.a; w.b = a.b + b.b; }
    else if (op == 1) { Subtract(A, B, D); w.a = a.a - b.a; w.b = a.b - b.b; }
    else if (op == 2) { bool inner = s.flip(); if (inner) { Add(A, A.q, D); w.a = a.a * 2; } else { Add(A, P, D); w.a = a.a + b.a; } }
    else if (op == 3) { bool inner = s.flip(); if (inner) { Subtract(A, A.q, D); w.a = a.a * 0; } else { Subtract(A, P, D); w.a = a.a - b.a; } }
    else if (op == 4) { Multiply(A, f.t, D); w = mul(a, f0); }
    else if (op == 5) { Multiply(A, g, D); w = mul(a, f1); }
    else if (op == 6) { Divide(A, f.t, D); w = mul(a, inv(f0)); }
    else if (op == 7) { Divide(A, g, D); w = mul(a, inv(f1)); }
    else { int m = D.q.rows(); SetToZero(D); w.a = VX::Zero(m); w.b = VX::Zero(m); }
    double k = 1e-13 * (1 + mx(w.a) + mx(w.b)) * 100;
    if (!same(e(D.q), w.a, k) || !same(e(D.qdot), w.b, k)) FAIL("op " << op << ": q " << str(e(D.q).transpose()) << " expected " << str(w.a.transpose()) << "; qdot " << str(e(D.qdot).transpose()) << " expected " << str(w.b.transpose()));
    if (&D != &A) { CMP(e(A.q), a.a, "operand"); CMP(e(A.qdot), a.b, "operand"); } if (&D != &B) { CMP(e(B.q), b.a, "operand"); CMP(e(B.qdot), b.b, "operand"); }
    JntArray v = D.value(), d = D.deriv(); CMP(e(v), e(D.q), "value"); CMP(e(d), e(D.qdot), "deriv");
}

LAW(acceleration, 150000, "JntArrayAcc operations with double, doubleVel and doubleAcc scalars, operands of all levels, fresh or shared destination; non-trivial: shared destination with derivative scalar") {
    int n = s.range(0, 6); C2 a = c2(s, n), b = c2(s, n); JntArrayAcc A = acc(a), B = acc(b), F = acc(c2(s, s.flip() ? n : s.range(0, 6))); D2 f = d2(s);
    int op = (int)s.raw(13), al; bool two = op == 0 || op == 1;
    JntArrayAcc& D = pickDest(s, A, B, F, two, al); JntArray P = kj(b.a); JntArrayVel V = vel(b);
    NOTE("op " << op << " alias " << al << " a " << str(a.a.transpose()) << " " << str(a.b.transpose()) << " " << str(a.c.transpose()) << " b " << str(b.a.transpose()) << " " << str(b.b.transpose()) << " f " << f.t << " " << f.d << " " << f.dd);
    s.nontrivial(al == 1 && n > 0 && op > 6); s.label("op" + std::to_string(op) + (al == 1 ? " shared" : ""));
    C2 w = a; doubleVel g(f.t, f.d); doubleAcc h(f.t, f.d, f.dd); D2 f1 = {f.t, f.d, 0}, f0 = {f.t, 0, 0};
    if (op == 0) { Add(A, B, D); w = {a.a + b.a, a.b + b.b, a.c + b.c}; }
    else if (op == 1) { Subtract(A, B, D); w = {a.a - b.a, a.b - b.b, a.c - b.c}; }
    else if (op == 2) { Add(A, V, D); w = {a.a + b.a, a.b + b.b, a.c}; }
    else if (op == 3) { Subtract(A, V, D); w = {a.a - b.a, a.b - b.b, a.c}; }
    else if (op == 4) { Add(A, P, D); w = {a.a + b.a, a.b, a.c}; }
    else if (op == 5) { Subtract(A, P, D); w = {a.a - b.a, a.b, a.c}; }
    else if (op == 6) { Multiply(A, f.t, D); w = mul(a, f0); }
    else if (op == 7) { Multiply(A, g, D); w = mul(a, f1); }
    else if (op == 8) { Multiply(A, h, D); w = mul(a, f); }
    else if (op == 9) { Divide(A, f.t, D); w = mul(a, inv(f0)); }
    else if (op == 10) { Divide(A, g, D); w = mul(a, inv(f1)); }
    else if (op == 11) { Divide(A, h, D); w = mul(a, inv(f)); }
    else { int m = D.q.rows(); SetToZero(D); w = {VX::Zero(m), VX::Zero(m), VX::Zero(m)}; }
    double k = 1e-13 * (1 + mx(w.a) + mx(w.b) + mx(w.c)) * 1000;
    if (!same(e(D.q), w.a, k) || !same(e(D.qdot), w.b, k) || !same(e(D.qdotdot), w.c, k)) FAIL("op " << op << ": q " << str(e(D.q).transpose()) << " expected " << str(w.a.transpose()) << "; qdot " << str(e(D.qdot).transpose()) << " expected " << str(w.b.transpose()) << "; qdotdot " << str(e(D.qdotdot).transpose()) << " expected " << str(w.c.transpose()));
    if (&D != &A) { CMP(e(A.q), a.a, "operand"); CMP(e(A.qdot), a.b, "operand"); CMP(e(A.qdotdot), a.c, "operand"); }
    JntArray v = D.value(), d = D.deriv(), dd = D.dderiv(); CMP(e(v), e(D.q), "value"); CMP(e(d), e(D.qdot), "deriv"); CMP(e(dd), e(D.qdotdot), "dderiv");
}

LAW(matrices, 100000, "joint-space inertia matrices: sums, scalings, matrix-vector products with shared operands and destination, resize, copies; non-trivial: two or more joints") {
    int n = s.range(0, 7); auto mat = [&](int m) { JntSpaceInertiaMatrix A(m); MX x(m, m); for (int i = 0; i < m; ++i) for (int j = 0; j < m; ++j) A(i, j) = x(i, j) = s.real(-4, 4); const JntSpaceInertiaMatrix& c = A; for (int i = 0; i < m; ++i) for (int j = 0; j < m; ++j) EXPECT(c(i, j) == x(i, j) && A.data(i, j) == x(i, j), "element " << i << ", " << j); return A; };
    JntSpaceInertiaMatrix A = mat(n), B = mat(n), F = mat(s.flip() ? n : s.range(0, 7)); MX a = A.data, b = B.data; double f = den(s); int op = (int)s.raw(9), al;
    JntSpaceInertiaMatrix& D = pickDest(s, A, B, F, op < 2, al); s.nontrivial(n > 1); s.label("op" + std::to_string(op));
    NOTE("op " << op << " alias " << al << " n " << n << " A " << str(a) << " B " << str(b) << " f " << f);
    MX w;
    if (op == 0) { Add(A, B, D); w = a + b; } else if (op == 1) { Subtract(A, B, D); w = a - b; } else if (op == 2) { Multiply(A, f, D); w = f * a; } else if (op == 3) { Divide(A, f, D); w = a / f; }
    else if (op == 4) { SetToZero(D); w = MX::Zero(D.data.rows(), D.data.cols()); }
    else if (op == 5) { VX v = val(s, n); JntArray x = kj(v), y(s.flip() ? n : s.range(0, 7)); bool sh = s.flip(); Multiply(A, x, sh ? x : y); VX r = VX::Zero(n); for (int i = 0; i < n; ++i) for (int j = 0; j < n; ++j) r(i) += a(i, j) * v(j); CMP(e(sh ? x : y), r, (sh ? "M*x into x" : "M*x")); if (!sh) CMP(e(x), v, "operand"); return; }
    else if (op == 6) { JntSpaceInertiaMatrix C(A), E; E = A; bool big = n > 0; if (big) { C(0, 0) += 1; E(n - 1, 0) -= 1; } MNEAR(A.data, a, 0, "copies must be independent"); JntSpaceInertiaMatrix& self = A; A = self; MNEAR(A.data, a, 0, "self assignment"); EXPECT((A == C) == !big && (A == E) == !big, "=="); return; }
    else if (op == 7) { // the class documentation: all elements zero after a resize
        int m = s.range(0, 12); { std::vector<double> dirt(m * m + 4, 7.5); volatile double z = dirt[0]; (void)z; } A.resize(m); EXPECT((int)A.rows() == m && (int)A.columns() == m, "size after resize"); MNEAR(A.data, m == n ? MX(MX::Zero(m, m)) : MX(MX::Zero(m, m)), 0, "after resize(" << m << ") from " << n); return; }
    else { double eps = std::pow(10.0, -s.range(1, 9)); bool near = s.flip(); JntSpaceInertiaMatrix C(A); if (n) { int i = (int)s.raw(n), j = (int)s.raw(n); C(i, j) += (s.flip() ? 1 : -1) * eps * (near ? 0.5 : 2); EXPECT(Equal(A, C, eps) == near, "Equal, one element off by " << (near ? 0.5 : 2) << " eps"); EXPECT(Equal(C, A, eps) == near, "Equal is symmetric"); } JntSpaceInertiaMatrix G(n + 1); EXPECT(!Equal(A, G, 1e9), "Equal of different sizes"); EXPECT(A == A, "reflexive"); return; }
    double t = 1e-13 * (1 + mx(w)) * 20; MNEAR(D.data, w, t, "op " << op); if (&D != &A) MNEAR(A.data, a, 0, "operand"); if (&D != &B) MNEAR(B.data, b, 0, "operand");
}

LAW(containers, 100000, "construction, element access, resize sequences, copies, assignment and Equal of JntArray/Vel/Acc against a plain model; non-trivial: a size change keeps elements") {
    std::vector<VX> m(3); std::vector<JntArray> x(3); int steps = s.range(1, 8);
    for (int i = 0; i < 3; ++i) { int n = s.range(0, 6); if (s.flip()) { x[i] = JntArray(n); m[i] = VX::Zero(n); } else { x[i] = JntArray(); m[i] = VX(); if (n) { x[i].resize(n); m[i] = VX::Zero(n); } } }
    for (int k = 0; k < steps; ++k) {
        int i = (int)s.raw(3), j = (int)s.raw(3), op = (int)s.raw(5);
        if (op == 0) { int n = s.range(0, 8); VX w = VX::Zero(n); for (int z = 0; z < std::min(n, (int)m[i].size()); ++z) w(z) = m[i](z); s.nontrivial(n && m[i].size() && n != m[i].size()); x[i].resize(n); m[i] = w; NOTE("resize " << i << " to " << n); }
        else if (op == 1 && m[i].size()) { int z = (int)s.raw(m[i].size()); double v = s.real(-5, 5); if (s.flip()) x[i](z) = v; else x[i](z, 0) = v; m[i](z) = v; NOTE("set " << i << "[" << z << "] " << v); }
        else if (op == 2) { x[i] = x[j]; m[i] = VX(m[j]); NOTE("assign " << i << " from " << j); }
        else if (op == 3) { JntArray c(x[j]); if (c.rows()) c(0) += 1; x[i] = c; VX w = m[j]; if (w.size()) w(0) += 1; m[i] = w; }
        else if (op == 4) { SetToZero(x[i]); m[i].setZero(); }
        for (int z = 0; z < 3; ++z) { EXPECT((int)x[z].rows() == m[z].size() && x[z].columns() == 1, "size of " << z << " is " << x[z].rows() << ", expected " << m[z].size()); const JntArray& cx = x[z]; for (int q = 0; q < m[z].size(); ++q) EXPECT(cx(q) == m[z](q) && cx(q, 0) == m[z](q), "array " << z << " element " << q << " is " << cx(q) << ", expected " << m[z](q)); }
        EXPECT((x[i] == x[j]) == (m[i].size() == m[j].size() && same(m[i], m[j], 1e-6)), "==");
    }
    int n = s.range(0, 6); C2 c = c2(s, n), d = c; JntArrayAcc A = acc(c); double eps = std::pow(10.0, -s.range(1, 9)); bool near = s.flip(); if (n) { int z = (int)s.raw(n); double off = (s.flip() ? 1 : -1) * eps * (near ? 0.5 : 2); int w = (int)s.raw(3); (w == 0 ? d.a : w == 1 ? d.b : d.c)(z) += off; EXPECT(Equal(A, acc(d), eps) == near && Equal(acc(d), A, eps) == near, "Equal(JntArrayAcc)"); EXPECT(Equal(vel(c), vel(d), eps) == (near || w == 2), "Equal(JntArrayVel)"); EXPECT(Equal(kj(c.a), kj(d.a), eps) == (near || w != 0), "Equal(JntArray)"); }
    JntArray Q = kj(c.a), Qd = kj(c.b); JntArrayVel v1(Q), v2(Q, Qd), v3(n), v4; CMP(e(v1.q), c.a, "ctor"); CMP(e(v1.qdot), VX::Zero(n), "ctor"); CMP(e(v2.qdot), c.b, "ctor"); CMP(e(v3.q), VX::Zero(n), "ctor"); CMP(e(v3.qdot), VX::Zero(n), "ctor"); EXPECT(v4.q.rows() == 0 && v4.qdot.rows() == 0, "default");
    JntArrayAcc a1(Q), a2(Q, Qd), a3(n), a4; CMP(e(a1.q), c.a, "ctor"); CMP(e(a1.qdot), VX::Zero(n), "ctor"); CMP(e(a1.qdotdot), VX::Zero(n), "ctor"); CMP(e(a2.qdot), c.b, "ctor"); CMP(e(a2.qdotdot), VX::Zero(n), "ctor"); CMP(e(a3.q), VX::Zero(n), "ctor"); EXPECT(a4.q.rows() == 0 && a4.qdotdot.rows() == 0, "default");
    int r = s.range(0, 8); v2.resize(r); a2.resize(r); EXPECT((int)v2.q.rows() == r && (int)v2.qdot.rows() == r && (int)a2.q.rows() == r && (int)a2.qdot.rows() == r && (int)a2.qdotdot.rows() == r, "resize"); for (int z = 0; z < r; ++z) { EXPECT(v2.q(z) == (z < n ? c.a(z) : 0) && v2.qdot(z) == (z < n ? c.b(z) : 0), "resize of JntArrayVel, element " << z); EXPECT(a2.q(z) == (z < n ? c.a(z) : 0) && a2.qdot(z) == (z < n ? c.b(z) : 0) && a2.qdotdot(z) == 0, "resize of JntArrayAcc, element " << z); }
}
