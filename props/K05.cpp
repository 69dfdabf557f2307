#include "gen.hpp"
#include "chainfksolverpos_recursive.hpp"
#include "chainfksolvervel_recursive.hpp"
#include "chainjnttojacsolver.hpp"
using namespace g;

static double scaleOf(const CSpec& c) { double L = 1; for (auto& x : c.s) L += P3(x.tip).norm() + 2 * x.j.org().norm() + std::fabs(x.j.scale) * 4 + std::fabs(x.j.offset); return L; }

LAW(velocity, 100000, "chains of 0..10 segments, positions, rates, segment numbers; non-trivial: two or more moving joints") {
    GenOpt o; o.zeroscale = true; CSpec c = cspec(s, o, 0, 10); Chain C = c.build(); ChainFkSolverVel_recursive fv(C); ChainFkSolverPos_recursive fp(C);
    int rounds = s.range(1, 2);
    for (int r = 0; r < rounds; ++r) {
        VX q = jvec(s, c.nj(), 4), qd = jvec(s, c.nj(), 4);
        NOTE(str(c) << "q " << str(q.transpose()) << " qd " << str(qd.transpose()));
        s.nontrivial(c.nj() >= 2 && qd.cwiseAbs().minCoeff() > 0);
        JntArrayVel in(kj(q), kj(qd)); auto P = fk(c, q, qd, VX());
        double L = scaleOf(c), tol = 1e-12 * L * (1 + c.ns());
        int sg = s.range(-2, c.ns()), n = sg < 0 ? c.ns() : sg;
        FrameVel F(frame(s), twist(s)); int rc = sg == -1 ? fv.JntToCart(in, F) : fv.JntToCart(in, F, sg);
        EXPECT(rc >= 0 && fv.getError() == rc, "JntToCart returned " << rc);
        Jet4 want = n ? P[n - 1] : Jet4::cst(M4::Identity());
        MNEAR(e(F.GetFrame()), want.a, tol, "pose of segment " << sg);
        MNEAR(e(F.GetTwist()), twistOf(want), 50 * tol, "twist of segment " << sg << " is the derivative of its pose");
        Frame F0; fp.JntToCart(kj(q), F0, sg); MNEAR(e(F.GetFrame()), e(F0), tol, "pose equals the position solver's");
        std::vector<FrameVel> v(n, FrameVel(frame(s), twist(s)));
        rc = fv.JntToCart(in, v, sg);
        if (n) { EXPECT(rc >= 0 && fv.getError() == rc, "JntToCart(vector) returned " << rc); for (int i = 0; i < n; ++i) { MNEAR(e(v[i].GetFrame()), P[i].a, tol, "pose " << i); MNEAR(e(v[i].GetTwist()), twistOf(P[i]), 50 * tol, "twist " << i); } }
        MNEAR(e(in.q), q, 0, "input"); MNEAR(e(in.qdot), qd, 0, "input");
        // as a user observes it: a finite difference of the position solver
        if (n && c.nj()) {
            double h = 1e-6; Frame A, B; fp.JntToCart(kj(q - h * qd), A, sg); fp.JntToCart(kj(q + h * qd), B, sg);
            M4 D = (e(B) - e(A)) / (2 * h); V6 fd; fd << P3(D), vee(R3(D) * R3(want.a).transpose());
            double sc = 0; for (auto& x : c.s) sc += std::fabs(x.j.scale) * std::max(4.0, mx(qd));
            MNEAR(e(F.GetTwist()), fd, 1e-8 * L + 1e-11 * L * std::pow(1 + sc, 3), "twist against a finite difference of the position solver");
        }
    }
}

LAW(jacobian, 100000, "chains of 0..10 segments, positions, segment numbers and locked-joint masks, several calls on one solver; non-trivial: two or more unlocked joints, or a proper sub-chain") {
    GenOpt o; o.zeroscale = true; CSpec c = cspec(s, o, 0, 10); Chain C = c.build(); ChainJntToJacSolver js(C); ChainFkSolverVel_recursive fv(C);
    int nj = c.nj(); std::vector<bool> lock(nj, false);
    int rounds = s.range(1, 3);
    for (int r = 0; r < rounds; ++r) {
        if (s.chance(1, 3)) { for (int i = 0; i < nj; ++i) lock[i] = s.flip(); EXPECT(js.setLockedJoints(lock) == 0 && js.getError() == 0, "setLockedJoints"); }
        if (s.chance(1, 6)) { std::vector<bool> w(nj + 1, true); EXPECT(js.setLockedJoints(w) == SolverI::E_SIZE_MISMATCH && js.getError() == SolverI::E_SIZE_MISMATCH, "setLockedJoints with wrong size"); }
        if (s.chance(1, 6)) js.updateInternalDataStructures();
        VX q = jvec(s, nj, 4); int sg = s.range(-2, c.ns()), n = sg < 0 ? c.ns() : sg;
        NOTE(str(c) << "q " << str(q.transpose()) << " segment " << sg);
        s.nontrivial(nj >= 2 || (n < c.ns() && n > 0));
        Jacobian J(nj); J.data.setConstant(77.7);
        int rc = sg == -1 ? js.JntToJac(kj(q), J) : js.JntToJac(kj(q), J, sg);
        EXPECT(rc >= 0 && js.getError() == rc, "JntToJac returned " << rc);
        MX full = jac(c, q, n), want = MX::Zero(6, nj); int k2 = 0, last = 0;
        { int j = 0; for (int i = 0; i < n; ++i) j += c.s[i].j.movable(); last = j; }
        for (int j = 0; j < last; ++j) if (!lock[j]) want.col(k2++) = full.col(j);
        double tol = 1e-12 * scaleOf(c) * (2 + c.ns()) * 4;
        EXPECT((int)J.columns() == nj, "columns"); MNEAR(J.data, want, tol, "Jacobian of segment " << sg);
        // Jacobian * rates = velocity solver's twist
        VX qd = jvec(s, nj, 4); VX z = qd, p = VX::Zero(nj); k2 = 0;
        for (int j = 0; j < nj; ++j) if (lock[j]) z(j) = 0; else { if (j < last) p(k2++) = qd(j); }
        FrameVel F(frame(s), twist(s)); fv.JntToCart(JntArrayVel(kj(q), kj(z)), F, sg);
        Twist t; MultiplyJacobian(J, kj(p), t);
        MNEAR(e(t), e(F.GetTwist()), 50 * tol, "J*qdot equals the velocity solver's twist");
        V6 t2 = J.data * p; MNEAR(t2, e(F.GetTwist()), 50 * tol, "J*qdot equals the velocity solver's twist");
    }
}

LAW(rejects, 150000, "wrong joint counts, Jacobian widths and segment numbers mixed with valid calls; non-trivial: the call must be rejected") {
    GenOpt o; CSpec c = cspec(s, o, 0, 6); Chain C = c.build(); ChainJntToJacSolver js(C); ChainFkSolverVel_recursive fv(C); int nj = c.nj();
    int calls = s.range(1, 5);
    for (int i = 0; i < calls; ++i) {
        int a = s.flip() ? nj : s.range(0, 7), b = s.flip() ? nj : s.range(0, 7), sg = s.flip() ? -1 : s.range(-2, c.ns() + 4), n = sg < 0 ? c.ns() : sg;
        NOTE(c.ns() << " segments " << nj << " joints; sizes " << a << " " << b << " segment " << sg);
        Jacobian J(b); int rc = js.JntToJac(kj(jvec(s, a)), J, sg); int want = a != nj || b != nj ? SolverI::E_SIZE_MISMATCH : n > c.ns() ? SolverI::E_OUT_OF_RANGE : 0;
        EXPECT(rc == want && js.getError() == rc, "JntToJac returned " << rc << ", expected " << want);
        JntArrayVel in(kj(jvec(s, a)), kj(jvec(s, b))); FrameVel F;
        rc = fv.JntToCart(in, F, sg); EXPECT(rc == want && fv.getError() == rc, "JntToCart returned " << rc << ", expected " << want);
        int nv = s.flip() ? std::min(n, 20) : s.range(0, 8); std::vector<FrameVel> v(nv);
        rc = fv.JntToCart(in, v, sg); bool vb = want || nv != n;
        if (n || vb) EXPECT(vb ? rc < 0 : rc >= 0, "JntToCart(vector of " << nv << ") returned " << rc);
        if (n || vb) EXPECT(fv.getError() == rc, "getError");
        s.nontrivial(want != 0 || vb);
    }
}
