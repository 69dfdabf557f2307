#include "dyn.hpp"
#include "chainidsolver_recursive_newton_euler.hpp"
using namespace g;

LAW(torques, 120000, "chains of 0..8 segments (fixed, rotational, prismatic joints with scale, offset, rotor inertia), gravity, states, external wrenches, several calls per solver, against projected Newton-Euler equations; non-trivial: two or more movable joints, moving, with mass") {
    GenOpt o = dynopt(); CSpec c = cspec(s, o, 0, 8); Chain C = c.build(); V3 gr = gravity(s); ChainIdSolver_RNE sol(C, k(gr)); int nj = c.nj();
    for (int r = 0, R = s.range(1, 2); r < R; ++r) {
        VX q = jvec(s, nj, 4), qd = jvec(s, nj, 3), qdd = jvec(s, nj, 5); auto w = wrenches(s, c.ns());
        NOTE(str(c) << "gravity " << str(gr.transpose()) << " q " << str(q.transpose()) << " qd " << str(qd.transpose()) << " qdd " << str(qdd.transpose())); for (size_t i = 0; i < w.size(); ++i) NOTE("wrench " << i << " " << str(w[i].transpose()));
        auto bs = bodies(c, q, qd, qdd); double m = 0; for (auto& b : bs) m += b.I.m; s.nontrivial(nj >= 2 && m > 0 && qd.squaredNorm() > 0 && qdd.squaredNorm() > 0); s.label(nj < c.ns() ? "with fixed joints" : "all movable");
        VX want = invdyn(bs, jointInertias(c), qdd, gr, w); JntArray t = kj(VX::Constant(nj, 3.3));
        JntArray kq = kj(q), kd = kj(qd), kdd = kj(qdd); Wrenches W = kws(w);
        int rc = sol.CartToJnt(kq, kd, kdd, W, t); EXPECT(rc == 0 && sol.getError() == 0, "CartToJnt returned " << rc);
        MNEAR(t.data, want, 1e-12 * dynScale(bs, gr, w, lenOf(c)), "torques");
        MNEAR(e(kq), q, 0, "q input"); MNEAR(e(kd), qd, 0, "qd input"); MNEAR(e(kdd), qdd, 0, "qdd input"); for (size_t i = 0; i < w.size(); ++i) MNEAR(e(W[i]), w[i], 0, "wrench input");
    }
}

LAW(linearity, 60000, "torques as an affine function: superposition in acceleration, and in gravity plus wrenches, at a common state; non-trivial: two or more joints") {
    GenOpt o = dynopt(); CSpec c = cspec_mov(s, o, 1, 7); Chain C = c.build(); int nj = c.nj(); VX q = jvec(s, nj, 4), qd = jvec(s, nj, 3), a = jvec(s, nj, 5), b = jvec(s, nj, 5); V3 g1 = gravity(s), g2 = gravity(s); auto w1 = wrenches(s, c.ns()), w2 = wrenches(s, c.ns()); double x = s.real(-3, 3), y = s.real(-3, 3); s.nontrivial(nj >= 2);
    NOTE(str(c) << "q " << str(q.transpose()) << " qd " << str(qd.transpose()) << " a " << str(a.transpose()) << " b " << str(b.transpose()) << " x " << x << " y " << y);
    auto run = [&](V3 gr, VX qdd, std::vector<V6> w) { ChainIdSolver_RNE sol(C, k(gr)); JntArray t(nj); EXPECT(sol.CartToJnt(kj(q), kj(qd), kj(qdd), kws(w), t) == 0, "CartToJnt"); return VX(t.data); };
    auto mix = [&](double al, double be) { std::vector<V6> w; for (size_t i = 0; i < w1.size(); ++i) w.push_back(V6(al * w1[i] + be * w2[i])); return w; };
    std::vector<V6> z(c.ns(), V6(V6::Zero())); VX Z = VX::Zero(nj); VX base = run(V3::Zero(), Z, z);
    VX lhs = run(x * g1 + y * g2, x * a + y * b, mix(x, y)) - base, rhs = x * (run(g1, a, w1) - base) + y * (run(g2, b, w2) - base);
    double S = dynScale(bodies(c, q, qd, a), g1, w1, lenOf(c)) + dynScale(bodies(c, q, qd, b), g2, w2, lenOf(c)); MNEAR(lhs, rhs, 1e-12 * S * (2 + std::fabs(x) + std::fabs(y)), "superposition");
}

LAW(power, 50000, "power balance as a user observes it: torques times rates equal the rate of kinetic plus potential energy (central difference along the motion) minus external power, no rotor inertia; non-trivial: moving with mass") {
    GenOpt o = dynopt(); o.jinertia = false; CSpec c = cspec_mov(s, o, 1, 6); Chain C = c.build(); int nj = c.nj(); VX q = jvec(s, nj, 4), qd = jvecu(s, nj, 2), qdd = jvecu(s, nj, 2); V3 gr = gravity(s);
    NOTE(str(c) << "q " << str(q.transpose()) << " qd " << str(qd.transpose()) << " qdd " << str(qdd.transpose()) << " g " << str(gr.transpose())); s.nontrivial(nj > 0);
    ChainIdSolver_RNE sol(C, k(gr)); JntArray t(nj); EXPECT(sol.CartToJnt(kj(q), kj(qd), kj(qdd), std::vector<Wrench>(c.ns(), Wrench::Zero()), t) == 0, "CartToJnt");
    auto E = [&](double h) { VX qq = q + h * qd + 0.5 * h * h * qdd, v = qd + h * qdd; double en = 0.5 * v.dot(massm(c, qq) * v); auto T = fk(c, qq); for (int i = 0; i < c.ns(); ++i) { Eigen::Vector4d p; p << c.s[i].I.c, 1; en -= c.s[i].I.m * gr.dot((T[i].a * p).head<3>()); } return en; };
    double h = 1e-4; double dE = (8 * (E(h) - E(-h)) - (E(2 * h) - E(-2 * h))) / (12 * h), sc = dynScale(bodies(c, q, qd, qdd), gr, {}, lenOf(c)) * (1 + qd.norm());
    NEAR(t.data.dot(qd), dE, 1e-7 * sc, "power balance");
}

LAW(rejects, 60000, "wrong sizes of any argument, mixed with valid calls; non-trivial: the call must be rejected") {
    GenOpt o = dynopt(); CSpec c = cspec(s, o, 0, 5); Chain C = c.build(); ChainIdSolver_RNE sol(C, Vector(0, 0, -9.81)); int nj = c.nj(), ns = c.ns();
    for (int r = 0, R = s.range(1, 4); r < R; ++r) {
        int z[5]; bool bad = false; for (int i = 0; i < 5; ++i) { int w = i == 4 ? ns : nj; z[i] = s.chance(1, 4) ? s.range(0, 7) : w; bad |= z[i] != w; }
        NOTE(ns << " segments " << nj << " joints: " << z[0] << " " << z[1] << " " << z[2] << " " << z[3] << " " << z[4]); s.nontrivial(bad);
        JntArray t(z[3]); int rc = sol.CartToJnt(kj(jvec(s, z[0])), kj(jvec(s, z[1])), kj(jvec(s, z[2])), std::vector<Wrench>(z[4], Wrench::Zero()), t), want = bad ? SolverI::E_SIZE_MISMATCH : 0; EXPECT(rc == want && sol.getError() == want, "returned " << rc << ", expected " << want);
    }
}
