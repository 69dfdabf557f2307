#include "gen.hpp"
using namespace g;

static MX jm(Src& s, int n) { MX m(6, n); for (int i = 0; i < m.size(); ++i) m(i) = s.real(-3, 3); return m; }
static Jacobian mk(const MX& m) { Jacobian J(m.cols()); J.data = m; return J; }
static V6 refp(const V6& t, const V3& p) { V6 r = t; r.head<3>() += V3(t.tail<3>()).cross(p); return r; }
static V6 base(const V6& t, const M3& R) { V6 r; r << R * t.head<3>(), R * t.tail<3>(); return r; }
static V6 frm(const V6& t, const M3& R, const V3& p) { V6 r; r.tail<3>() = R * t.tail<3>(); r.head<3>() = R * t.head<3>() + p.cross(V3(r.tail<3>())); return r; }
template <class F> static MX each(const MX& m, F f) { MX r(6, m.cols()); for (int i = 0; i < m.cols(); ++i) r.col(i) = f(V6(m.col(i))); return r; }

LAW(transforms, 200000, "Jacobians of 0..9 columns, points, rotations, frames; method, function with separate, equal-size, wrong-size and shared destination; non-trivial: two or more columns and a rotated frame") {
    int n = s.range(0, 9); MX m = jm(s, n); V3 p = e(vec(s)); M3 R = rotM(s); VX qd = jvec(s, n);
    NOTE("J " << str(m) << " p " << str(p.transpose()) << " R " << str(R));
    s.nontrivial(n >= 2 && rotdist(R, M3::Identity()) > 1e-6);
    Frame F(k(R), k(p)); double tol = 1e-12 * 100;
    for (int op = 0; op < 3; ++op) {
        MX want = op == 0 ? each(m, [&](const V6& t) { return refp(t, p); }) : op == 1 ? each(m, [&](const V6& t) { return base(t, R); }) : each(m, [&](const V6& t) { return frm(t, R, p); });
        const char* nm = op == 0 ? "changeRefPoint" : op == 1 ? "changeBase" : "changeRefFrame";
        auto f = [&](const Jacobian& a, Jacobian& b) { return op == 0 ? changeRefPoint(a, k(p), b) : op == 1 ? changeBase(a, k(R), b) : changeRefFrame(a, F, b); };
        Jacobian A = mk(m); if (op == 0) A.changeRefPoint(k(p)); else if (op == 1) A.changeBase(k(R)); else A.changeRefFrame(F);
        MNEAR(A.data, want, tol, nm << " method");
        Jacobian S = mk(m), D = mk(jm(s, n)); EXPECT(f(S, D), nm << " returned false"); MNEAR(D.data, want, tol, nm << " function"); MNEAR(S.data, m, 0, nm << " source");
        EXPECT(f(S, S), nm << " shared destination"); MNEAR(S.data, want, tol, nm << " shared destination");
        int w = s.range(0, 9); Jacobian W = mk(jm(s, w)); MX w0 = W.data; if (w != n) { EXPECT(!f(mk(m), W), nm << " with a destination of other width"); MNEAR(W.data, w0, 0, nm << " rejected call"); }
        // agrees with the twist operations column by column, and commutes with multiplication by joint rates
        for (int i = 0; i < n; ++i) { Twist t = kt(m.col(i)); Twist u = op == 0 ? t.RefPoint(k(p)) : op == 1 ? k(R) * t : F * t; MNEAR(e(D.getColumn(i)), e(u), tol, nm << " column " << i); }
        Twist a, b; MultiplyJacobian(mk(m), kj(qd), a); MultiplyJacobian(D, kj(qd), b); Twist ta = op == 0 ? a.RefPoint(k(p)) : op == 1 ? k(R) * a : F * a;
        MNEAR(e(b), e(ta), 20 * tol, nm << " commutes with joint rates");
        // inverse change
        Jacobian I = D; if (op == 0) I.changeRefPoint(k(V3(-p))); else if (op == 1) I.changeBase(k(M3(R.transpose()))); else I.changeRefFrame(F.Inverse());
        MNEAR(I.data, m, 10 * tol, nm << " undone by the inverse change");
    }
}

LAW(storage, 200000, "Jacobians under random column writes, element writes, resize, SetToZero, copy and assignment against a plain matrix; non-trivial: a resize or a copy followed by a write") {
    int n = s.range(0, 8); Jacobian J(n); MX m = MX::Zero(6, n); MNEAR(J.data, m, 0, "new Jacobian is zero"); Jacobian E; EXPECT(E.columns() == 0 && E.rows() == 6, "default Jacobian");
    int ops = s.range(1, 8); bool sp = false;
    for (int i = 0; i < ops; ++i) {
        switch (s.raw(7)) {
        case 0: case 1: if (n) { int c = (int)s.raw(n); V6 t = jm(s, 1).col(0); J.setColumn(c, kt(t)); m.col(c) = t; NOTE("setColumn " << c); } break;
        case 2: if (n) { int c = (int)s.raw(n), r = (int)s.raw(6); double v = s.real(-3, 3); J(r, c) = v; m(r, c) = v; NOTE("J(" << r << "," << c << ")"); } break;
        case 3: { int w = s.range(0, 8); J.resize(w); NOTE("resize " << w); int kp = std::min(w, n); MX z = MX::Zero(6, w); z.leftCols(kp) = m.leftCols(kp); for (int c = kp; c < w; ++c) { V6 t = jm(s, 1).col(0); J.setColumn(c, kt(t)); z.col(c) = t; } m = z; n = w; sp = true; break; }
        case 4: SetToZero(J); m.setZero(); NOTE("SetToZero"); break;
        case 5: { Jacobian C(J); if (n) C.setColumn(0, Twist(Vector(9, 9, 9), Vector(9, 9, 9))); MNEAR(J.data, m, 0, "original after writing the copy"); sp = true; break; }
        case 6: { Jacobian D((unsigned)s.range(0, 8)); D = J; if (n) { MNEAR(D.data, m, 0, "assigned"); J.setColumn(0, Twist(Vector(8, 8, 8), Vector(8, 8, 8))); } if (n) MNEAR(D.data, m, 0, "assigned copy after writing the original"); J = D; Jacobian& r = J; J = r; sp = true; break; }
        }
        EXPECT((int)J.columns() == n && J.rows() == 6, "size"); MNEAR(J.data, m, 0, "contents");
        for (int c = 0; c < n; ++c) { MNEAR(e(J.getColumn(c)), m.col(c), 0, "getColumn"); const Jacobian& cj = J; for (int r = 0; r < 6; ++r) NEAR(cj(r, c), m(r, c), 0, "operator()"); }
    }
    s.nontrivial(sp);
}

LAW(equality, 150000, "pairs of Jacobians, equal, of other width, or differing in one element by a chosen amount; non-trivial: the difference is within two decades of the threshold") {
    int n = s.range(0, 7), w = s.chance(1, 4) ? s.range(0, 7) : n; MX m = jm(s, n);
    double eps = std::pow(10.0, -s.range(1, 9)), d = eps * s.pick(std::vector<double>{0, 0.01, 0.5, 0.9, 1.1, 2, 50});
    MX o = w == n ? m : jm(s, w); if (w == n && n) o((int)s.raw(6), (int)s.raw(n)) += s.flip() ? d : -d;
    NOTE("A " << str(m) << " B " << str(o) << " eps " << eps << " d " << d);
    s.nontrivial(n && w == n && d > 0);
    bool want = w == n && (n == 0 || d <= eps);
    Jacobian A = mk(m), B = mk(o);
    EXPECT(Equal(A, B, eps) == want, "Equal with eps " << eps << " difference " << d << " gave " << !want); EXPECT(Equal(B, A, eps) == want, "symmetric");
    EXPECT((A == B) == !(A != B), "!= is the negation of =="); EXPECT(A == A && !(A != A), "reflexive"); bool dflt = w == n && (n == 0 || d <= 1e-6); if (std::fabs(d - 1e-6) > 2e-7) EXPECT((A == B) == dflt, "== uses the default threshold");
}

LAW(multiply, 150000, "Jacobian times joint rates; non-trivial: two or more columns") {
    int n = s.range(0, 9); MX m = jm(s, n); VX q = jvec(s, n, 5); V6 w = V6::Zero(); for (int i = 0; i < n; ++i) w += m.col(i) * q(i);
    NOTE("J " << str(m) << " q " << str(q.transpose())); s.nontrivial(n >= 2);
    Twist t(Vector(3, 3, 3), Vector(4, 4, 4)); MultiplyJacobian(mk(m), kj(q), t); MNEAR(e(t), w, 1e-12 * 150, "MultiplyJacobian");
}
