// second-order matrix jets and templated comparison of the velocity/acceleration-augmented geometry classes
#pragma once
#include "gen.hpp"
namespace g {
struct JM { MX a, b, c; };
inline JM jc(const MX& m) { return {m, MX::Zero(m.rows(), m.cols()), MX::Zero(m.rows(), m.cols())}; }
inline JM operator*(const JM& x, const JM& y) { return {x.a * y.a, x.b * y.a + x.a * y.b, x.c * y.a + 2 * x.b * y.b + x.a * y.c}; }
inline JM operator+(const JM& x, const JM& y) { return {x.a + y.a, x.b + y.b, x.c + y.c}; }
inline JM operator-(const JM& x, const JM& y) { return {x.a - y.a, x.b - y.b, x.c - y.c}; }
inline JM operator-(const JM& x) { return {-x.a, -x.b, -x.c}; }
inline JM tr(const JM& x) { return {x.a.transpose(), x.b.transpose(), x.c.transpose()}; }
inline MX sk(const MX& v) { return skew(V3(v)); }
inline JM cross(const JM& x, const JM& y) { return JM{sk(x.a), sk(x.b), sk(x.c)} * y; }
inline JM scal(const JM& s, const JM& x) { return {x.a * s.a(0, 0), s.b(0, 0) * x.a + s.a(0, 0) * x.b, s.c(0, 0) * x.a + 2 * s.b(0, 0) * x.b + s.a(0, 0) * x.c}; }
inline JM recip(const JM& s) { double v = s.a(0, 0), d = s.b(0, 0), dd = s.c(0, 0); MX A(1, 1), B(1, 1), C(1, 1); A << 1 / v; B << -d / (v * v); C << -dd / (v * v) + 2 * d * d / (v * v * v); return {A, B, C}; }
inline JM vstack(const JM& x, const JM& y) { auto f = [](const MX& p, const MX& q) { MX r(p.rows() + q.rows(), p.cols()); r << p, q; return r; }; return {f(x.a, y.a), f(x.b, y.b), f(x.c, y.c)}; }
// rotation jet from R, w, dw (base frame) and back
inline JM rj(const M3& R, const V3& w, const V3& dw) { M3 W = skew(w); return {R, W * R, (skew(dw) + W * W) * R}; }
inline V3 jw(const JM& R) { return vee(R.b * R.a.transpose()); }
inline V3 jdw(const JM& R) { return vee(M3(R.c * R.a.transpose() + R.b * R.b.transpose())); }
struct FJ { JM R, p; };   // frame jet
inline FJ operator*(const FJ& x, const FJ& y) { return {x.R * y.R, x.R * y.p + x.p}; }
inline FJ inv(const FJ& x) { return {tr(x.R), -(tr(x.R) * x.p)}; }

struct VelT { enum { acc = 0 }; typedef VectorVel Vec; typedef RotationVel Rot; typedef FrameVel Frm; typedef TwistVel Twi; typedef doubleVel Dbl; static const char* nm() { return "velocity"; }
    static Vec v(const JM& j) { return Vec(k(V3(j.a)), k(V3(j.b))); } static JM j(const Vec& x) { return {e(x.p), e(x.v), V3::Zero()}; }
    static Rot r(const M3& R, const V3& w, const V3&) { return Rot(k(R), k(w)); } static JM j(const Rot& x) { return rj(e(x.R), e(x.w), V3::Zero()); }
    static Dbl d(const JM& j) { return Dbl(j.a(0, 0), j.b(0, 0)); } static JM j(const Dbl& x) { JM r = jc(MX::Constant(1, 1, x.t)); r.b(0, 0) = x.grad; return r; } };
struct AccT { enum { acc = 1 }; typedef VectorAcc Vec; typedef RotationAcc Rot; typedef FrameAcc Frm; typedef TwistAcc Twi; typedef doubleAcc Dbl; static const char* nm() { return "acceleration"; }
    static Vec v(const JM& j) { return Vec(k(V3(j.a)), k(V3(j.b)), k(V3(j.c))); } static JM j(const Vec& x) { return {e(x.p), e(x.v), e(x.dv)}; }
    static Rot r(const M3& R, const V3& w, const V3& dw) { return Rot(k(R), k(w), k(dw)); } static JM j(const Rot& x) { return rj(e(x.R), e(x.w), e(x.dw)); }
    static Dbl d(const JM& j) { return Dbl(j.a(0, 0), j.b(0, 0), j.c(0, 0)); } static JM j(const Dbl& x) { JM r = jc(MX::Constant(1, 1, x.t)); r.b(0, 0) = x.d; r.c(0, 0) = x.dd; return r; } };

template <class K> struct Aug {
    typedef typename K::Vec Vec; typedef typename K::Rot Rot; typedef typename K::Frm Frm; typedef typename K::Twi Twi; typedef typename K::Dbl Dbl;
    Src& s; Aug(Src& s_) : s(s_) {}
    static constexpr double T = 1e-10;
    void cmp(const JM& g_, const JM& w, const char* what, double amp = 1) {
        double sc = amp * (1 + mx(w.a) + mx(w.b) + mx(w.c));
        MNEAR(g_.a, w.a, T * sc, K::nm() << " " << what << " value"); MNEAR(g_.b, w.b, T * sc, K::nm() << " " << what << " first derivative");
        if (K::acc) MNEAR(g_.c, w.c, T * sc, K::nm() << " " << what << " second derivative");
    }
    void V(const Vec& g_, const JM& w, const char* what, double amp = 1) { cmp(K::j(g_), w, what, amp); }
    void D(const Dbl& g_, const JM& w, const char* what, double amp = 1) { cmp(K::j(g_), w, what, amp); }
    void R(const Rot& g_, const JM& w, const char* what) { cmp(K::j(g_), w, what); }
    void F(const Frm& g_, const FJ& w, const char* what) { R(g_.M, w.R, what); V(g_.p, w.p, what); }
    void W(const Twi& g_, const JM& w, const char* what, double amp = 1) { cmp(vstack(K::j(g_.vel), K::j(g_.rot)), w, what, amp); }
    JM gv() { V3 a = e(vec(s)), b = e(vec(s)); return {a, b, e(vec(s))}; }
    JM gd(double lo, double hi) { MX a(1, 1), b(1, 1), c(1, 1); a << s.real(lo, hi); b << s.real(-2, 2); c << s.real(-2, 2); return {a, b, c}; }
    JM cut(JM x) { if (!K::acc) x.c.setZero(); return x; }

    void vectors() {
        JM x = cut(gv()), y = cut(gv()), d = cut(gd(-3, 3)); Vec X = K::v(x), Y = K::v(y), Z; Dbl Dd = K::d(d);
        V3 c = e(vec(s)); Vector C = k(c); double q = s.real(-3, 3); M3 rm_ = rotM(s); Rotation RR = k(rm_);
        NOTE(K::nm() << " x " << str(x.a.transpose()) << str(x.b.transpose()) << str(x.c.transpose()) << " y " << str(y.a.transpose()) << str(y.b.transpose()) << str(y.c.transpose()) << " c " << str(c.transpose()) << " q " << q << " d " << d.a << "," << d.b << "," << d.c);
        s.nontrivial(x.a.norm() > 0 && x.b.norm() > 0 && y.a.norm() > 0 && y.b.norm() > 0);
        JM cc = jc(c), Q = jc(MX::Constant(1, 1, q)), Rm = jc(rm_), z0 = jc(V3::Zero());
        V(X + Y, x + y, "a+b"); V(X - Y, x - y, "a-b"); V(C + X, cc + x, "c+a"); V(X + C, x + cc, "a+c"); V(C - X, cc - x, "c-a"); V(X - C, x - cc, "a-c");
        V(X * Y, cross(x, y), "a*b"); V(X * C, cross(x, cc), "a*c"); V(C * X, cross(cc, x), "c*a"); V(X * X, z0, "a*a");
        V(X * q, scal(Q, x), "a*q"); V(q * X, scal(Q, x), "q*a"); V(Dd * X, scal(d, x), "d*a"); V(X * Dd, scal(d, x), "a*d"); V(RR * X, Rm * x, "R*a");
        if (std::fabs(q) > 0.05) V(X / q, scal(recip(Q), x), "a/q", 100);
        if (std::fabs(d.a(0, 0)) > 0.05) V(X / Dd, scal(recip(d), x), "a/d", 1e4);
        V(-X, -x, "-a"); Z = X; Z += Y; V(Z, x + y, "+="); Z = X; Z -= Y; V(Z, x - y, "-="); Z = X; Z += Z; V(Z, x + x, "a+=a"); Z = X; Z -= Z; V(Z, z0, "a-=a");
        Z = X; Z = C; V(Z, cc, "=c"); Z = X; Z.ReverseSign(); V(Z, -x, "ReverseSign"); V(Vec::Zero(), z0, "Zero"); Vec cp(X); V(cp, x, "copy"); V(Vec(C), cc, "Vec(c)");
        auto dt = [](const JM& a, const JM& b) { return tr(a) * b; };
        D(dot(X, Y), dt(x, y), "dot(a,b)"); D(dot(X, C), dt(x, cc), "dot(a,c)"); D(dot(C, X), dt(cc, x), "dot(c,a)");
        double n = x.a.norm();
        if (n > 0.01) { JM nn = jc(MX::Constant(1, 1, n)); double f = (x.a.transpose() * x.b)(0, 0) / n; nn.b(0, 0) = f; nn.c(0, 0) = ((x.b.squaredNorm() + (x.a.transpose() * x.c)(0, 0)) - f * f) / n; D(X.Norm(), nn, "Norm", 1e4); }
        if constexpr (!K::acc) { SetToZero(Z); V(Z, z0, "SetToZero"); MNEAR(e(X.value()), x.a, 0, "value"); MNEAR(e(X.deriv()), x.b, 0, "deriv"); }
    }
    struct RR_ { M3 R; V3 w, dw; };
    RR_ gr() { RR_ r; r.R = rotM(s); r.w = e(vec(s)); r.dw = K::acc ? e(vec(s)) : V3(V3::Zero()); return r; }
    JM jr(const RR_& r) { return rj(r.R, r.w, r.dw); }
    JM gtw() { JM a = cut(gv()); return vstack(a, cut(gv())); }
    static JM top(const JM& x) { return {x.a.topRows(3), x.b.topRows(3), x.c.topRows(3)}; }
    static JM bot(const JM& x) { return {x.a.bottomRows(3), x.b.bottomRows(3), x.c.bottomRows(3)}; }
    Twi mk(const JM& t) { return Twi(K::v(top(t)), K::v(bot(t))); }
    static JM rt(const JM& R, const JM& t) { return vstack(R * top(t), R * bot(t)); }
    static JM ft(const FJ& f, const JM& t) { JM w = f.R * bot(t); return vstack(f.R * top(t) + cross(f.p, w), w); }

    void rotations() {
        RR_ A = gr(), B = gr(); JM a = jr(A), b = jr(B), x = cut(gv()), t = gtw(); V3 c = e(vec(s)); M3 m = rotM(s); Twist ct = twist(s);
        Rot RA = K::r(A.R, A.w, A.dw), RB = K::r(B.R, B.w, B.dw), RC; Vec X = K::v(x); Vector C = k(c); Rotation M = k(m);
        NOTE(K::nm() << " A " << str(A.R) << " w " << str(A.w.transpose()) << " dw " << str(A.dw.transpose()) << " B " << str(B.R) << " w " << str(B.w.transpose()) << " dw " << str(B.dw.transpose()) << " x " << str(x.a.transpose()) << str(x.b.transpose()) << str(x.c.transpose()));
        s.nontrivial(A.w.norm() > 0 && B.w.norm() > 0 && mx(A.R - M3::Identity()) > 1e-9);
        JM cc = jc(c), mm = jc(m), tt = jc(e(ct));
        R(RA * RB, a * b, "A*B"); R(M * RA, mm * a, "M*A"); R(RA * M, a * mm, "A*M"); R(RA.Inverse(), tr(a), "Inverse"); RC = RA; RC = RC * RC; R(RC, a * a, "A=A*A");
        V(RA * X, a * x, "A*x"); V(RA * C, a * cc, "A*c"); V(RA.Inverse(X), tr(a) * x, "Inverse(x)"); V(RA.Inverse(C), tr(a) * cc, "Inverse(c)");
        W(RA * mk(t), rt(a, t), "A*t"); W(RA * ct, rt(a, tt), "A*twist"); W(RA.Inverse(mk(t)), rt(tr(a), t), "Inverse(t)"); W(RA.Inverse(ct), rt(tr(a), tt), "Inverse(twist)");
        R(Rot::Identity(), jc(M3::Identity()), "Identity"); RC = RA; RC = M; R(RC, mm, "=M"); R(Rot(M), mm, "Rot(M)"); Rot cp(RA); R(cp, a, "copy"); RC = RB; RC = RA; R(RC, a, "=");
        if constexpr (!K::acc) {
            double th = s.angle(), td = s.real(-3, 3); doubleVel an(th, td);
            auto ax = [&](const V3& u) { return rj(rotm(u, th), u * td, V3::Zero()); };
            R(Rot::RotX(an), ax(V3::UnitX()), "RotX"); R(Rot::RotY(an), ax(V3::UnitY()), "RotY"); R(Rot::RotZ(an), ax(V3::UnitZ()), "RotZ");
            RC = RA; RC.DoRotX(an); R(RC, cut(a * ax(V3::UnitX())), "DoRotX"); RC = RA; RC.DoRotY(an); R(RC, cut(a * ax(V3::UnitY())), "DoRotY"); RC = RA; RC.DoRotZ(an); R(RC, cut(a * ax(V3::UnitZ())), "DoRotZ");
            V3 u = unit(s), v = u * s.uni(0.1, 5); R(Rot::Rot(k(v), an), ax(u), "Rot"); R(Rot::Rot2(k(u), an), ax(u), "Rot2");
            JM ex = jc(V3::UnitX()), ey = jc(V3::UnitY()), ez = jc(V3::UnitZ()); V(RA.UnitX(), a * ex, "UnitX"); V(RA.UnitY(), a * ey, "UnitY"); V(RA.UnitZ(), a * ez, "UnitZ");
            MNEAR(e(RA.value()), A.R, 0, "value"); MNEAR(e(RA.deriv()), A.w, 0, "deriv");
        }
    }
    void frames() {
        RR_ A = gr(), B = gr(); FJ a{jr(A), cut(gv())}, b{jr(B), cut(gv())}; JM x = cut(gv()), t = gtw(); V3 c = e(vec(s)); Twist ct = twist(s);
        Frm FA(K::r(A.R, A.w, A.dw), K::v(a.p)), FB(K::r(B.R, B.w, B.dw), K::v(b.p)), FC; Frame G = frame(s); M4 g4 = e(G); FJ gg{jc(R3(g4)), jc(P3(g4))};
        Vec X = K::v(x); Vector C = k(c); JM cc = jc(c), tt = jc(e(ct));
        NOTE(K::nm() << " A " << str(A.R) << " w " << str(A.w.transpose()) << " dw " << str(A.dw.transpose()) << " p " << str(a.p.a.transpose()) << str(a.p.b.transpose()) << str(a.p.c.transpose()) << " B " << str(B.R) << " w " << str(B.w.transpose()) << " dw " << str(B.dw.transpose()) << " p " << str(b.p.a.transpose()) << str(b.p.b.transpose()) << str(b.p.c.transpose()));
        s.nontrivial(A.w.norm() > 0 && B.w.norm() > 0 && a.p.a.norm() > 0 && b.p.a.norm() > 0 && a.p.b.norm() > 0);
        F(FA * FB, a * b, "A*B"); F(G * FA, gg * a, "G*A"); F(FA * G, a * gg, "A*G"); F(FA.Inverse(), inv(a), "Inverse"); FC = FA; FC = FC * FC; F(FC, a * a, "A=A*A"); F(FA * FA.Inverse(), FJ{jc(M3::Identity()), jc(V3::Zero())}, "A*A.Inverse");
        V(FA * X, a.R * x + a.p, "A*x"); V(FA * C, a.R * cc + a.p, "A*c"); V(FA.Inverse(X), tr(a.R) * (x - a.p), "Inverse(x)"); V(FA.Inverse(C), tr(a.R) * (cc - a.p), "Inverse(c)");
        W(FA * mk(t), ft(a, t), "A*t"); W(FA * ct, ft(a, tt), "A*twist"); W(FA.Inverse(mk(t)), ft(inv(a), t), "Inverse(t)"); W(FA.Inverse(ct), ft(inv(a), tt), "Inverse(twist)");
        F(Frm::Identity(), FJ{jc(M3::Identity()), jc(V3::Zero())}, "Identity"); FC = FA; FC = G; F(FC, gg, "=G"); F(Frm(G), gg, "Frm(G)"); Frm cp(FA); F(cp, a, "copy"); FC = FB; FC = FA; F(FC, a, "=");
        MNEAR(e(FA.GetFrame()), mk4(A.R, a.p.a), 0, "GetFrame"); V6 tw; tw << V3(a.p.b), A.w; MNEAR(e(FA.GetTwist()), tw, 0, "GetTwist");
        if constexpr (K::acc) { V6 at; at << V3(a.p.c), A.dw; MNEAR(e(FA.GetAccTwist()), at, 0, "GetAccTwist"); Frm f2(Frame(k(A.R), k(V3(a.p.a))), kt(tw), kt(at)); F(f2, a, "Frm(frame,twist,acc)"); }
        else { Frm f2(Frame(k(A.R), k(V3(a.p.a))), kt(tw)); F(f2, a, "Frm(frame,twist)"); MNEAR(e(FA.value()), mk4(A.R, a.p.a), 0, "value"); MNEAR(e(FA.deriv()), tw, 0, "deriv"); }
    }
    void twists() {
        JM x = gtw(), y = gtw(), d = cut(gd(-3, 3)), p = cut(gv()); Twi X = mk(x), Y = mk(y), Z; Dbl Dd = K::d(d); double q = s.real(-3, 3); JM Q = jc(MX::Constant(1, 1, q)), z0 = jc(V6::Zero());
        NOTE(K::nm() << " x " << str(x.a.transpose()) << str(x.b.transpose()) << str(x.c.transpose()) << " y " << str(y.a.transpose()) << " q " << q << " d " << d.a << "," << d.b << "," << d.c);
        s.nontrivial(x.a.norm() > 0 && x.b.norm() > 0 && p.a.norm() > 0 && p.b.norm() > 0);
        W(X + Y, x + y, "a+b"); W(X - Y, x - y, "a-b"); W(-X, -x, "-a"); W(X * q, scal(Q, x), "a*q"); W(q * X, scal(Q, x), "q*a"); W(X * Dd, scal(d, x), "a*d"); W(Dd * X, scal(d, x), "d*a");
        if (std::fabs(q) > 0.05) W(X / q, scal(recip(Q), x), "a/q", 100);
        if (std::fabs(d.a(0, 0)) > 0.05) W(X / Dd, scal(recip(d), x), "a/d", 1e4);
        Z = X; Z += Y; W(Z, x + y, "+="); Z = X; Z -= Y; W(Z, x - y, "-="); Z = X; Z += Z; W(Z, x + x, "a+=a"); Z = X; Z -= Z; W(Z, z0, "a-=a"); Z = X; Z.ReverseSign(); W(Z, -x, "ReverseSign"); W(Twi::Zero(), z0, "Zero"); SetToZero(Z); W(Z, z0, "SetToZero"); Twi cp(X); W(cp, x, "copy");
        W(X.RefPoint(K::v(p)), vstack(top(x) + cross(bot(x), p), bot(x)), "RefPoint");
        MNEAR(e(X.GetTwist()), x.a, 0, "GetTwist"); MNEAR(e(X.GetTwistDot()), x.b, 0, "GetTwistDot");
        if constexpr (!K::acc) { W(Twi(kt(x.a), kt(x.b)), x, "Twi(twist,twist)"); W(Twi(kt(x.a)), jc(x.a), "Twi(twist)"); MNEAR(e(X.value()), x.a, 0, "value"); MNEAR(e(X.deriv()), x.b, 0, "deriv"); }
    }
};
}
