#include "motionref.hpp"
using namespace mo;

static void limits(Src& s, const VelocityProfile& P, const VSpec& v, double t) {
    if (v.k == VSpec::Dirac) return;
    EXPECT(std::fabs(P.Vel(t)) <= v.mv * (1 + 1e-9) + 1e-12, "velocity " << P.Vel(t) << " at " << t << " exceeds the maximum\n" << v.str());
    if (v.hasAcc()) EXPECT(std::fabs(P.Acc(t)) <= v.ma * (1 + 1e-9) + 1e-12, "acceleration " << P.Acc(t) << " at " << t << " exceeds the maximum\n" << v.str());
}
static void body(Src& s, VSpec v) {
    NOTE(v.str()); std::unique_ptr<VelocityProfile> P(v.build()); VRef r = v.ref(); std::string why;
    double f = v.fastest(), ps = 1 + std::fabs(v.p1) + std::fabs(v.p2);
    if (v.mode == 1) {
        s.label(v.arg > f ? "longer" : "shorter"); s.nontrivial(v.p1 != v.p2);
        if (v.arg > f * (1 + 1e-12)) EXPECT(std::fabs(P->Duration() - v.arg) <= 1e-12 * v.arg, "duration " << P->Duration() << " requested " << v.arg << "\n" << v.str());
        EXPECT(P->Duration() >= f * (1 - 1e-9) && P->Duration() <= std::max(f, v.arg) * (1 + 1e-9), "duration " << P->Duration() << " fastest " << f << " requested " << v.arg << "\n" << v.str());
    } else s.nontrivial(v.p1 != v.p2);
    NEAR(P->Duration(), r.T, 1e-9 * (1 + r.T), "duration\n" << v.str());
    NEAR(P->Pos(0), v.p1, 1e-9 * ps, "first position\n" << v.str()); if (v.k != VSpec::Dirac || r.T > 0) NEAR(P->Pos(P->Duration()), v.p2, 1e-9 * ps, "second position\n" << v.str());
    NEAR(P->Pos(-0.5), v.p1, 1e-12 * ps, "before the start\n" << v.str()); NEAR(P->Pos(P->Duration() + 0.5), v.p2, 1e-9 * ps, "after the end\n" << v.str());
    for (int i = 0, n = s.range(2, 5); i < n; ++i) { double t = tval(s, r); EXPECT(profileAt(*P, v, r, t, 1e-8, why), why); limits(s, *P, v, t); }
    // uniform slow-down of the fastest motion
    if (v.k == VSpec::Trap && f > 0) {
        VSpec w = v; w.mode = 0; std::unique_ptr<VelocityProfile> F(w.build()); double u = s.unit(), k = P->Duration() / F->Duration();
        NEAR(P->Pos(u * P->Duration()), F->Pos(u * F->Duration()), 1e-9 * ps, "stretched position\n" << v.str());
        if (u > 1e-6 && u < 1 - 1e-6) NEAR(P->Vel(u * P->Duration()) * k, F->Vel(u * F->Duration()), 1e-7 * (1 + v.mv), "stretched velocity\n" << v.str());
    }
}
LAW(trap_duration, 60000, "trapezoidal profiles with requested durations shorter, equal and longer than the fastest; non-trivial: positions differ") { VSpec v = vspec(s, VSpec::Trap); if (v.mode == 0) v.mode = 1; body(s, v); }
LAW(trap_velocity, 40000, "trapezoidal profiles with a requested fraction of the velocity, also outside its range; non-trivial: positions differ") { VSpec v = vspec(s, VSpec::Trap); v.mode = 2; v.arg = s.chance(1, 6) ? s.real(-0.5, 2) : s.uni(0.01, 1); body(s, v); }
LAW(traphalf_duration, 60000, "half-trapezoidal profiles with requested durations shorter, equal and longer than the fastest, up to and beyond the stall point; non-trivial: positions differ") { VSpec v = vspec(s, VSpec::Half); v.mode = 1; double f = v.fastest(), st = 2 * std::fabs(v.p2 - v.p1) / v.mv; uint64_t kk = s.raw(6); v.arg = kk == 0 ? f * s.unit() : kk == 1 ? st : kk == 2 ? st * (1 + s.unit()) : kk == 3 ? f : f * (1 + s.uni(0, 3)); body(s, v); }
LAW(rectangular_duration, 40000, "rectangular profiles in both directions with requested durations shorter, equal and longer than the fastest; non-trivial: positions differ") { VSpec v = vspec(s, VSpec::Rect); v.mode = 1; v.arg = s.chance(1, 6) ? s.real(-1, 3) : v.fastest() * s.uni(0, 3); body(s, v); }
LAW(dirac_duration, 20000, "jump profiles with a duration; non-trivial: positions differ") { VSpec v = vspec(s, VSpec::Dirac); v.mode = 1; v.arg = s.flip() ? 0 : s.uni(0.01, 3); body(s, v); }

LAW(reuse, 40000, "histories of 1..6 settings and limit changes on one object compared with a fresh object after each; non-trivial: two or more settings") {
    VSpec v = vspec(s); std::unique_ptr<VelocityProfile> P(v.make()); int n = s.range(1, 6); s.nontrivial(n >= 2);
    for (int i = 0; i < n; ++i) {
        VSpec w = vspec(s, v.k); w.k = v.k;
        if (s.flip() && w.k != VSpec::Spline) w.setmax(*P); else { w.mv = v.mv; w.ma = v.ma; w.starting = v.starting; }
        v = w; v.set(*P); NOTE(v.str()); std::unique_ptr<VelocityProfile> F(v.build());
        EXPECT(P->Duration() == F->Duration(), "duration " << P->Duration() << " on a used object, " << F->Duration() << " on a fresh one\n" << v.str());
        VRef r = v.ref(); if (v.k == VSpec::Spline) r.T = v.arg;
        double t = tval(s, r);
        EXPECT(P->Pos(t) == F->Pos(t), "Pos(" << t << ") " << P->Pos(t) << " on a used object, " << F->Pos(t) << " on a fresh one\n" << v.str());
        if (v.k != VSpec::Dirac || F->Duration() != 0) EXPECT(P->Vel(t) == F->Vel(t), "Vel(" << t << ") differs on a used object\n" << v.str());
        if (v.hasAcc()) EXPECT(P->Acc(t) == F->Acc(t), "Acc(" << t << ") differs on a used object\n" << v.str());
    }
}
