#include "gen.hpp"
using namespace g;

static double dtg(Src& s) { double d = std::pow(10.0, s.uni(-2, 2)); if (s.raw(3) == 0) d = 1; return s.chance(1, 4) ? -d : d; }

LAW(linear_types, 30000, "pairs of scalars, vectors, twists, wrenches and time steps of both signs; non-trivial: the pair differs") {
    Vector a = vec(s, 10), b = vec(s, 10); Twist ta = twist(s), tb = twist(s); Wrench wa = wrench(s), wb = wrench(s);
    double x = s.real(-10, 10), y = s.real(-10, 10), dt = dtg(s);
    NOTE("a " << str(e(a).transpose()) << " b " << str(e(b).transpose()) << " dt " << dt);
    s.nontrivial(mx(e(a) - e(b)) > 0 && mx(e(ta) - e(tb)) > 0 && mx(e(wa) - e(wb)) > 0);
    double t = 1e-12 * 20, td = t / std::min(1.0, std::fabs(dt)) * std::max(1.0, std::fabs(dt));
    NEAR(diff(x, y, dt), (y - x) / dt, td, "diff scalar"); NEAR(addDelta(x, y, dt), x + y * dt, td * 100, "addDelta scalar"); NEAR(addDelta(x, diff(x, y, dt), dt), y, t, "scalar round trip");
    MNEAR(e(diff(a, b, dt)), (e(b) - e(a)) / dt, td, "diff vector"); MNEAR(e(addDelta(a, b, dt)), e(a) + e(b) * dt, td, "addDelta vector"); MNEAR(e(addDelta(a, diff(a, b, dt), dt)), e(b), t, "vector round trip");
    MNEAR(e(diff(ta, tb, dt)), (e(tb) - e(ta)) / dt, td, "diff twist"); MNEAR(e(addDelta(ta, tb, dt)), e(ta) + e(tb) * dt, td, "addDelta twist"); MNEAR(e(addDelta(ta, diff(ta, tb, dt), dt)), e(tb), t, "twist round trip");
    MNEAR(e(diff(wa, wb, dt)), (e(wb) - e(wa)) / dt, td, "diff wrench"); MNEAR(e(addDelta(wa, wb, dt)), e(wa) + e(wb) * dt, td, "addDelta wrench"); MNEAR(e(addDelta(wa, diff(wa, wb, dt), dt)), e(wb), t, "wrench round trip");
    MNEAR(e(diff(a, b)), e(b) - e(a), t, "default dt"); MNEAR(e(addDelta(a, b)), e(a) + e(b), t, "default dt");
    MNEAR(e(diff(ta, tb)), e(tb) - e(ta), t, "default dt"); MNEAR(e(diff(wa, wb)), e(wb) - e(wa), t, "default dt"); MNEAR(e(addDelta(ta, tb)), e(ta) + e(tb), t, "default dt"); MNEAR(e(addDelta(wa, wb)), e(wa) + e(wb), t, "default dt");
}

LAW(rigid_diff, 80000, "pairs of poses whose relative rotation is weighted to 0 and pi; non-trivial: the orientations differ") {
    M3 A = rotM(s), D = rotM(s), B = D * A;
    if (s.chance(1, 10)) B = A;
    V3 pa = e(vec(s)), pb = e(vec(s));
    double dt = dtg(s);
    V3 w = logm3(B * A.transpose());  // expressed in the base frame
    double th = w.norm();
    NOTE("A " << str(A) << " B " << str(B) << " dt " << dt << " angle " << th);
    s.nontrivial(th > 1e-9);
    s.label(th < 1e-6 ? "tiny" : th > M_PI - 1e-6 ? "half-turn" : "regular");
    double tol = th < 2e-5 || th > M_PI - 2e-5 ? 5e-6 : 1e-9;   // the library treats turns below 1e-6 rad as singular
    Rotation RA = k(A), RB = k(B);
    V3 d = e(diff(RA, RB, dt));
    EXPECT(d.allFinite(), "finite diff");
    NEAR(d.norm() * std::fabs(dt), th, tol, "rotation angle");
    EXPECT(d.norm() * std::fabs(dt) <= M_PI + 1e-9, "angle at most pi");
    MNEAR(expm3(d * dt) * A, B, 2 * tol, "diff is the base-frame rate from A to B");
    if (th < M_PI - 2e-5) {
        MNEAR(d * dt, w, 2 * tol, "diff(A,B)*dt");
        MNEAR(e(diff(RB, RA, dt)), -d, 4 * tol / std::fabs(dt), "diff(B,A) = -diff(A,B)");
    }
    MNEAR(e(diff(RA, RB)), e(diff(RA, RB, 1.0)), 0, "default dt");
    Rotation R2 = addDelta(RA, k(d), dt);
    MNEAR(e(R2), B, 4 * tol, "addDelta(A, diff(A,B,dt), dt)");
    Frame FA(RA, k(pa)), FB(RB, k(pb));
    V6 t = e(diff(FA, FB, dt));
    MNEAR(t.head<3>(), (pb - pa) / dt, 1e-10 / std::min(1.0, std::fabs(dt)), "linear part of frame diff"); MNEAR(t.tail<3>(), d, 0, "angular part of frame diff");
    MNEAR(e(addDelta(FA, kt(t), dt)), mk4(B, pb), 4 * tol, "frame round trip");
}

LAW(rigid_add, 80000, "a pose and a rate; turns from 1e-12 to several revolutions; non-trivial: rotating") {
    M3 A = rotM(s); V3 p = e(vec(s)); double dt = dtg(s);
    V3 u = unit(s); uint64_t kd = s.raw(6);
    double ang = kd == 0 ? 0 : kd == 1 ? std::pow(10.0, -s.uni(1, 12)) : kd == 2 ? M_PI : kd == 3 ? s.uni(0, 20) : s.uni(0, M_PI);
    V3 w = u * ang / dt, v = e(vec(s));
    NOTE("A " << str(A) << " rate " << str(w.transpose()) << " v " << str(v.transpose()) << " dt " << dt << " angle " << ang);
    s.nontrivial(ang > 0);
    double tol = 2e-6 * (ang < 2e-6) + 1e-11 + 1e-14 * ang;
    Rotation R = addDelta(k(A), k(w), dt);
    MNEAR(e(R), expm3(w * dt) * A, tol, "addDelta rotates by exp(rate*dt) in the base frame");
    EXPECT(so3err(e(R)) < 1e-12, "addDelta stays a rotation");
    Twist t(k(v), k(w));
    Frame F = addDelta(Frame(k(A), k(p)), t, dt);
    MNEAR(e(F), mk4(expm3(w * dt) * A, p + v * dt), tol + 1e-11 * std::fabs(dt), "addDelta on a frame");
    if (ang < M_PI - 1e-4 && ang > 1e-4) {
        MNEAR(e(diff(k(A), R, dt)) * dt, w * dt, 1e-9, "diff recovers the rate");
        MNEAR(e(diff(Frame(k(A), k(p)), F, dt)) * dt, (V6() << v * dt, w * dt).finished(), 1e-9 * (1 + std::fabs(dt) * 10), "diff recovers the twist");
    }
    MNEAR(e(addDelta(k(A), k(w))), e(addDelta(k(A), k(w), 1.0)), 0, "default dt");
    MNEAR(e(addDelta(Frame(k(A), k(p)), t)), e(addDelta(Frame(k(A), k(p)), t, 1.0)), 0, "default dt");
    // rotation vector constructor used by both
    MNEAR(e(KDL::Rot(k(V3(u * ang)))), expm3(u * ang), 2e-10 + 1e-14 * ang, "Rot(rotation vector)");
}

LAW(integrate, 60000, "a pose, a body twist, a sampling frequency and a number of steps; non-trivial: rotating and translating") {
    Frame F = frame(s); M4 A = e(F);
    double f = std::pow(10.0, s.uni(-1, 3));
    V3 u = unit(s); uint64_t kd = s.raw(6);
    double n = kd == 0 ? 0 : kd == 1 ? std::pow(10.0, -s.uni(1, 12)) : kd == 2 ? M_PI : s.uni(0, 4);
    V3 w = u * n * f, v = e(vec(s)) * (s.flip() ? f : 1);
    int steps = s.range(1, 6);
    NOTE("F " << str(A) << " twist " << str(v.transpose()) << " " << str(w.transpose()) << " f " << f << " steps " << steps);
    s.nontrivial(n > 0 && v.norm() > 0);
    Twist t(k(v), k(w));
    M4 D = mk4(expm3(w / f), v / f);
    double sc = 1 + mx(A) + v.norm() / f * steps;
    // the library drops the rotation of a twist with |rot| (or |rot|/f) below 1e-6
    double tol = (1e-11 + (n < 2e-6 || w.norm() < 2e-6 ? std::max(2e-6, 2e-6 / f) : 0)) * sc * steps;
    for (int i = 0; i < steps; ++i) {
        F.Integrate(t, f);
        A = A * D;
        MNEAR(e(F), A, tol, "step " << i);
        EXPECT(so3err(e(F.M)) < 1e-11, "Integrate keeps a rotation, error " << so3err(e(F.M)));
    }
}
