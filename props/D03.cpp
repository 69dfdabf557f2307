#include "dyn.hpp"
#include "chainfdsolver_recursive_newton_euler.hpp"
#include "chainidsolver_recursive_newton_euler.hpp"
using namespace g;

static double massScale(const CSpec& c, const VX& q) { double L = lenOf(c), S = 1; VX Z = VX::Zero(q.size()); for (auto& b : bodies(c, q, Z, Z)) S += std::pow(std::max(1.0, mx(b.J)) * L, 2) * (b.I.m * (1 + b.I.c.squaredNorm()) + mx(b.I.Ic)); return S; }
// a mass matrix that is numerically positive definite (else forward dynamics is not defined)
static bool regular(const MX& M, double floor_) { if (!M.rows()) return true; Eigen::SelfAdjointEigenSolver<MX> es(M); return es.eigenvalues()(0) > floor_ * std::max(1e-12, es.eigenvalues()(M.rows() - 1)); }
static MX fullMass(const CSpec& c, const VX& q) { MX M = massm(c, q); M.diagonal() += jointInertias(c); return M; }

LAW(inverse, 100000, "chains of 0..7 segments with positive definite mass matrix, states, torques, wrenches, several calls per solver; the result put into the equations of motion and into the inverse solver; non-trivial: two or more joints, moving") {
    GenOpt o = dynopt(); CSpec c = cspec(s, o, 0, 7); Chain C = c.build(); V3 gr = gravity(s); ChainFdSolver_RNE sol(C, k(gr)); ChainIdSolver_RNE id(C, k(gr)); int nj = c.nj();
    for (int r = 0, R = s.range(1, 2); r < R; ++r) {
        VX q = jvec(s, nj, 4), qd = jvec(s, nj, 3), tau = jvec(s, nj, 20); auto w = wrenches(s, c.ns()); MX M = fullMass(c, q); if (!regular(M, 1e-8)) s.discard();
        NOTE(str(c) << "gravity " << str(gr.transpose()) << " q " << str(q.transpose()) << " qd " << str(qd.transpose()) << " tau " << str(tau.transpose())); for (size_t i = 0; i < w.size(); ++i) NOTE("wrench " << i << " " << str(w[i].transpose()));
        s.nontrivial(nj >= 2 && qd.squaredNorm() > 0); JntArray a = kj(VX::Constant(nj, 3.3)), kq = kj(q), kd = kj(qd), kt_ = kj(tau); Wrenches W = kws(w); int rc = sol.CartToJnt(kq, kd, kt_, W, a); EXPECT(rc == 0 && sol.getError() == 0, "CartToJnt returned " << rc);
        auto bs = bodies(c, q, qd, a.data); double tol = 1e-12 * dynScale(bs, gr, w, lenOf(c)) + 1e-12 * massScale(c, q) * (1 + mx(a.data)) + 1e-12 * mx(tau);
        MNEAR(invdyn(bs, jointInertias(c), a.data, gr, w), tau, tol, "the accelerations in the equations of motion"); JntArray t2(nj); EXPECT(id.CartToJnt(kq, kd, a, W, t2) == 0, "inverse"); MNEAR(t2.data, tau, tol, "inverse dynamics of forward dynamics");
        MNEAR(e(kq), q, 0, "input"); MNEAR(e(kd), qd, 0, "input"); MNEAR(e(kt_), tau, 0, "input"); for (size_t i = 0; i < w.size(); ++i) MNEAR(e(W[i]), w[i], 0, "input");
    }
}

struct Ref { CSpec c; V3 gr; VX tau; std::vector<V6> w; VX acc(const VX& q, const VX& qd) const { VX Z = VX::Zero(q.size()); return fullMass(c, q).ldlt().solve(tau - invdyn(bodies(c, q, qd, Z), jointInertias(c), Z, gr, w)); }
    void step(VX& q, VX& v, double h) const { VX k1 = v, l1 = acc(q, v), k2 = v + h / 2 * l1, l2 = acc(q + h / 2 * k1, k2), k3 = v + h / 2 * l2, l3 = acc(q + h / 2 * k2, k3), k4 = v + h * l3, l4 = acc(q + h * k3, k4); q += h / 6 * (k1 + 2 * k2 + 2 * k3 + k4); v += h / 6 * (l1 + 2 * l2 + 2 * l3 + l4); } };

LAW(integrator, 8000, "one Runge-Kutta step of the library against a 16 times finer integration of the reference model and the error of a textbook step; energy over a step of a conservative system; non-trivial: two or more joints") {
    GenOpt o = dynopt(); CSpec c = cspec_mov(s, o, 1, 5); for (auto& x : c.s) x.j.inertia += 0.2; Chain C = c.build(); int nj = c.nj(); Ref R; R.c = c; R.gr = gravity(s); bool cons = s.flip(); R.tau = cons ? VX(VX::Zero(nj)) : jvecu(s, nj, 5); R.w = cons ? std::vector<V6>(c.ns(), V6(V6::Zero())) : wrenches(s, c.ns());
    VX q = jvecu(s, nj, 3), qd = jvecu(s, nj, 1.5); double h = s.pick(std::vector<double>{0.01, 0.003, 0.02, 0.001});
    NOTE(str(c) << "gravity " << str(R.gr.transpose()) << " q " << str(q.transpose()) << " qd " << str(qd.transpose()) << " tau " << str(R.tau.transpose()) << " h " << h); if (!regular(fullMass(c, q), 1e-6)) s.discard(); s.nontrivial(nj >= 2); s.label(cons ? "conservative" : "driven");
    ChainFdSolver_RNE sol(C, k(R.gr)); unsigned n = nj; double t = s.real(0, 5), dt = h; JntArray kq = kj(q), kd = kj(qd), tau = kj(R.tau), a(nj), dq(nj), dqd(nj), qt(nj), qdt(nj); Wrenches W = kws(R.w);
    sol.RK4Integrator(n, t, dt, kq, kd, tau, W, sol, a, dq, dqd, qt, qdt); EXPECT(n == (unsigned)nj && dt == h, "count and step size must not change");
    VX eq = q, ev = qd, tq = q, tv = qd; for (int i = 0; i < 16; ++i) R.step(eq, ev, h / 16); R.step(tq, tv, h);
    double eo = mx(tq - eq) + mx(tv - ev), ek = mx(e(kq) - eq) + mx(e(kd) - ev), sc = 1 + mx(ev) + mx(R.acc(q, qd)); EXPECT(std::isfinite(ek) && ek <= 4 * eo + 1e-10 * sc, "step error " << ek << ", a fourth-order step has " << eo << "; h " << h << " q " << str(e(kq).transpose()) << " exact " << str(eq.transpose()) << " qd " << str(e(kd).transpose()) << " exact " << str(ev.transpose()));
    MNEAR(e(dq), e(kq) - q, 1e-12 * sc, "dq is the position increment"); MNEAR(e(dqd), e(kd) - qd, 1e-11 * sc, "dq_dot is the velocity increment"); MNEAR(e(tau), R.tau, 0, "input");
    if (cons) { auto E = [&](const VX& x, const VX& v) { double en = 0.5 * v.dot(fullMass(c, x) * v); auto T = fk(c, x); for (int i = 0; i < c.ns(); ++i) { Eigen::Vector4d p; p << c.s[i].I.c, 1; en -= c.s[i].I.m * R.gr.dot((T[i].a * p).head<3>()); } return en; };
        double e0 = E(q, qd), e1 = E(e(kq), e(kd)), ref = std::fabs(E(tq, tv) - e0); EXPECT(std::fabs(e1 - e0) <= 4 * ref + 1e-9 * (1 + std::fabs(e0)) * massScale(c, q), "energy changed from " << e0 << " to " << e1 << "; a fourth-order step changes it by " << ref); }
}

LAW(rejects, 60000, "wrong sizes of any argument, mixed with valid calls; non-trivial: the call must be rejected") {
    GenOpt o = dynopt(); CSpec c = cspec(s, o, 0, 5); for (auto& x : c.s) x.j.inertia += 0.2; Chain C = c.build(); ChainFdSolver_RNE sol(C, Vector(0, 0, -9.81)); int nj = c.nj(), ns = c.ns();
    for (int r = 0, R = s.range(1, 4); r < R; ++r) {
        int z[5]; bool bad = false; for (int i = 0; i < 5; ++i) { int w = i == 4 ? ns : nj; z[i] = s.chance(1, 4) ? s.range(0, 7) : w; bad |= z[i] != w; } s.nontrivial(bad); NOTE(ns << " segments " << nj << " joints: " << z[0] << " " << z[1] << " " << z[2] << " " << z[3] << " " << z[4]);
        JntArray t(z[3]); int rc = sol.CartToJnt(kj(jvec(s, z[0])), kj(jvec(s, z[1])), kj(jvec(s, z[2])), std::vector<Wrench>(z[4], Wrench::Zero()), t), want = bad ? SolverI::E_SIZE_MISMATCH : 0; EXPECT(rc == want && sol.getError() == want, "returned " << rc << ", expected " << want);
    }
}
