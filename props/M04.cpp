#include "motionref.hpp"
using namespace mo;

static void checkProfile(Src& s, const VelocityProfile& P, const VSpec& v, int n) {
    VRef r = v.ref(); double ps = 1 + std::fabs(v.p1) + std::fabs(v.p2); std::string why;
    NEAR(P.Duration(), r.T, 1e-9 * (1 + r.T), "duration\n" << v.str());
    NEAR(P.Pos(0), v.p1, 1e-9 * ps, "starts at the first position\n" << v.str());
    if (r.T > 0 || v.k != VSpec::Dirac) NEAR(P.Pos(P.Duration()), v.p2, 1e-9 * ps, "ends at the second position\n" << v.str());
    double out = s.uni(0, 3) + 1e-6;
    NEAR(P.Pos(-out), v.p1, 1e-12 * ps, "holds the first position before the start\n" << v.str());
    NEAR(P.Pos(P.Duration() + out), v.p2, 1e-9 * ps, "holds the second position after the end\n" << v.str());
    if (v.hasVel()) { NEAR(P.Vel(-out), 0, 0, "still before the start\n" << v.str()); NEAR(P.Vel(P.Duration() + out), 0, 0, "still after the end\n" << v.str()); }
    if (v.hasAcc()) { NEAR(P.Acc(-out), 0, 0, "still before the start\n" << v.str()); NEAR(P.Acc(P.Duration() + out), 0, 0, "still after the end\n" << v.str()); }
    bool lim = v.k != VSpec::Dirac;
    for (int i = 0; i < n; ++i) {
        double t = tval(s, r);
        if (v.k == VSpec::Dirac && r.T == 0 && t == 0) continue;
        EXPECT(profileAt(P, v, r, t, 1e-8, why), why);
        if (lim && v.hasVel()) EXPECT(std::fabs(P.Vel(t)) <= v.mv * (1 + 1e-9) + 1e-12, "velocity " << P.Vel(t) << " at " << t << " exceeds the maximum\n" << v.str());
        if (lim && v.hasAcc()) EXPECT(std::fabs(P.Acc(t)) <= v.ma * (1 + 1e-9) + 1e-12, "acceleration " << P.Acc(t) << " at " << t << " exceeds the maximum\n" << v.str());
    }
    // no detours: between the ends positions run one way only
    double a = s.unit() * r.T, b = s.unit() * r.T; if (a > b) std::swap(a, b);
    double d = P.Pos(b) - P.Pos(a); EXPECT((v.p2 >= v.p1 ? d : -d) >= -1e-12 * ps, "the profile moves backwards between " << a << " and " << b << "\n" << v.str());
}
#define PLAW(NAME, KIND, Q) LAW(NAME, Q, "profiles between two positions (coinciding, micrometres to metres apart, exactly at the limit of reaching the maximum velocity), random limits and times at, inside and outside the ends; non-trivial: positions differ") { \
    VSpec v = vspec(s, KIND); v.mode = 0; NOTE(v.str()); s.nontrivial(v.p1 != v.p2); std::unique_ptr<VelocityProfile> P(v.build()); checkProfile(s, *P, v, s.range(2, 6)); }
PLAW(trap, VSpec::Trap, 80000)
PLAW(traphalf, VSpec::Half, 80000)
PLAW(rectangular, VSpec::Rect, 40000)
PLAW(dirac, VSpec::Dirac, 20000)

LAW(incompatible, 3000, "questions a profile cannot answer (acceleration of constant-velocity ones, velocity of a jump) are reported as an error; all non-trivial") {
    s.nontrivial(); VSpec v = vspec(s, s.flip() ? VSpec::Rect : VSpec::Dirac); std::unique_ptr<VelocityProfile> P(v.build()); NOTE(v.str()); int er = 0;
    try { P->Acc(s.uni(-1, 2)); } catch (Error_MotionPlanning_Incompatible& x) { er = x.GetType(); } EXPECT(er == 3003, "Acc gives error " << er << "\n" << v.str());
    if (v.k == VSpec::Dirac && P->Duration() == 0) { er = 0; try { P->Vel(0.1); } catch (Error_MotionPlanning_Incompatible& x) { er = x.GetType(); } EXPECT(er == 3003, "Vel gives error " << er); }
}
LAW(spline, 60000, "splines with 2, 4 and 6 boundary values and durations from 0.05 to 10 s, several settings on one object; against the polynomial solved from the boundary values; non-trivial: positions differ") {
    VelocityProfile_Spline P; EXPECT(P.Duration() == 0 && P.Pos(0) == 0, "a new spline rests at zero");
    int m = s.range(1, 3);
    for (int q = 0; q < m; ++q) {
        VSpec v = vspec(s, VSpec::Spline); NOTE(v.str()); s.nontrivial(v.p1 != v.p2); v.set(P);
        double T = v.arg; int n = v.mode == 1 ? 2 : v.mode == 3 ? 4 : 6;
        EXPECT(P.Duration() == T, "duration"); double big = 1 + std::fabs(v.p1) + std::fabs(v.p2) + (n > 2 ? (std::fabs(v.v1) + std::fabs(v.v2)) * (1 + T) : 0) + (n > 4 ? (std::fabs(v.a1) + std::fabs(v.a2)) * (1 + T * T) : 0);
        double tol = 1e-10 * big;
        NEAR(P.Pos(0), v.p1, tol, "first position\n" << v.str()); NEAR(P.Pos(T), v.p2, tol, "second position\n" << v.str());
        if (n > 2) { NEAR(P.Vel(0), v.v1, tol / T, "first velocity\n" << v.str()); NEAR(P.Vel(T), v.v2, 10 * tol / T * (1 + T), "second velocity\n" << v.str()); }
        if (n > 4) { NEAR(P.Acc(0), v.a1, tol / T / T * (1 + T * T), "first acceleration\n" << v.str()); NEAR(P.Acc(T), v.a2, 100 * tol / T / T * (1 + T * T), "second acceleration\n" << v.str()); }
        // reference polynomial in u = t/T
        MX A = MX::Zero(n, n); VX b(n); auto row = [&](int i, double u, int d, double val) { for (int j = d; j < n; ++j) { double f = 1; for (int k = 0; k < d; ++k) f *= j - k; A(i, j) = f * std::pow(u, j - d); } b(i) = val; };
        row(0, 0, 0, v.p1); row(1, 1, 0, v.p2); if (n > 2) { row(2, 0, 1, v.v1 * T); row(3, 1, 1, v.v2 * T); } if (n > 4) { row(4, 0, 2, v.a1 * T * T); row(5, 1, 2, v.a2 * T * T); }
        VX c = A.fullPivLu().solve(b); double u = s.unit(), t = u * T, p = 0, d = 0, dd = 0;
        for (int j = 0; j < n; ++j) { p += c(j) * std::pow(u, j); if (j > 0) d += j * c(j) * std::pow(u, j - 1); if (j > 1) dd += j * (j - 1) * c(j) * std::pow(u, j - 2); }
        NEAR(P.Pos(t), p, 10 * tol, "position at " << t << "\n" << v.str()); NEAR(P.Vel(t), d / T, 100 * tol / T, "velocity at " << t << "\n" << v.str()); NEAR(P.Acc(t), dd / T / T, 1000 * tol / T / T, "acceleration at " << t << "\n" << v.str());
    }
}
LAW(spline_instant, 3000, "splines over no time at all take their final values at once (the two-value form its first); non-trivial: positions differ") {
    VSpec v = vspec(s, VSpec::Spline); v.arg = s.flip() ? 0 : 2e-16 * s.unit(); NOTE(v.str()); s.nontrivial(v.p1 != v.p2); std::unique_ptr<VelocityProfile> P(v.build());
    double p = P->Pos(0), w = P->Vel(0), a = P->Acc(0);
    if (v.mode >= 3) { NEAR(p, v.p2, 1e-12, "position"); NEAR(w, v.v2, 1e-12, "velocity"); } else EXPECT(p == v.p1 || p == v.p2, "position");
    if (v.mode == 4) NEAR(a, v.a2, 1e-12, "acceleration"); EXPECT(p == p && w == w && a == a, "finite");
    // no time: nothing but its velocity and acceleration carries it on, however it was set before
    { double t = s.real(-2, 2), w2 = P->Vel(t), p2 = P->Pos(t); NEAR(P->Acc(t), a, 1e-12 * (1 + std::fabs(a)), "acceleration at " << t); NEAR(w2, w + a * t, 1e-12 * (1 + std::fabs(w) + std::fabs(a)) * 4, "velocity at " << t); NEAR(p2, p + w * t + a * t * t / 2, 1e-12 * (1 + std::fabs(p) + std::fabs(w) + std::fabs(a)) * 8, "position at " << t); }
    VelocityProfile_Spline D; double t = s.real(-2, 2); EXPECT(D.Duration() == 0 && D.Pos(t) == 0 && D.Vel(t) == 0 && D.Acc(t) == 0, "a spline that was never set: duration " << D.Duration() << " at " << t << " " << D.Pos(t) << " " << D.Vel(t) << " " << D.Acc(t));
    // the same after another setting on the same object
    VSpec u = vspec(s, VSpec::Spline); u.set(*P); v.set(*P); EXPECT(P->Pos(t) == [&] { std::unique_ptr<VelocityProfile> Q(v.build()); return Q->Pos(t); }(), "depends on the setting before");
}
