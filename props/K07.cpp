#include "gen.hpp"
#include "chainjnttojacdotsolver.hpp"
using namespace g;

static double scaleOf(const CSpec& c) { double L = 1; for (auto& x : c.s) L += P3(x.tip).norm() + 2 * x.j.org().norm() + std::fabs(x.j.scale) * 4 + std::fabs(x.j.offset); return L; }
// exact time derivative of the Jacobian of the first seg segments in the given representation (0 hybrid, 1 body-fixed, 2 inertial)
static MX jdot(const CSpec& c, const VX& q, const VX& qd, int seg, int rep) {
    int n = c.nj(); MX D = MX::Zero(6, n), J = jac(c, q, seg);
    std::vector<Jet4> T; Jet4 t = Jet4::cst(M4::Identity()); int j = 0;
    std::vector<Jet4> pre; for (int i = 0; i < seg; ++i) { pre.push_back(t); bool m = c.s[i].j.movable(); t = t * sjet(c.s[i], m ? q(j) : 0, m ? qd(j) : 0, 0); j += m; }
    V3 pt = P3(t.a), pv = P3(t.b); j = 0;
    for (int i = 0; i < seg; ++i) {
        const JSpec& js = c.s[i].j; if (!js.movable()) continue;
        V3 d = R3(pre[i].a) * js.dir() * js.scale, dd = R3(pre[i].b) * js.dir() * js.scale;
        V3 o = P3(pre[i].a) + R3(pre[i].a) * js.org(), od = P3(pre[i].b) + R3(pre[i].b) * js.org();
        if (js.rotational()) { D.block<3, 1>(0, j) = dd.cross(pt - o) + d.cross(pv - od); D.block<3, 1>(3, j) = dd; }
        else D.block<3, 1>(0, j) = dd;
        ++j;
    }
    if (rep == 0) return D;
    MX W = D;
    M3 R = R3(t.a), Rd = R3(t.b);
    for (int i = 0; i < n; ++i) {
        V3 v = J.block<3, 1>(0, i), w = J.block<3, 1>(3, i), vd = D.block<3, 1>(0, i), wd = D.block<3, 1>(3, i);
        if (rep == 1) { W.block<3, 1>(0, i) = Rd.transpose() * v + R.transpose() * vd; W.block<3, 1>(3, i) = Rd.transpose() * w + R.transpose() * wd; }
        else { W.block<3, 1>(0, i) = vd - wd.cross(pt) - w.cross(pv); }
    }
    return W;
}

LAW(derivative, 150000, "chains of 0..9 segments, positions, rates, all three representations, locked masks and segment numbers, several calls on one solver; non-trivial: two or more movable joints with rates") {
    GenOpt o; CSpec c = cspec(s, o, 0, 9); Chain C = c.build(); ChainJntToJacDotSolver sol(C); int nj = c.nj(), rep = 0; std::vector<bool> lock(nj, false);
    int rounds = s.range(1, 3);
    for (int r = 0; r < rounds; ++r) {
        if (s.chance(2, 3)) { rep = (int)s.raw(3); if (s.flip()) sol.setRepresentation(rep); else if (rep == 0) sol.setHybridRepresentation(); else if (rep == 1) sol.setBodyFixedRepresentation(); else sol.setInertialRepresentation(); if (s.chance(1, 8)) sol.setRepresentation(s.flip() ? 7 : -1); }
        if (s.chance(1, 3)) { for (int i = 0; i < nj; ++i) lock[i] = s.chance(1, 3); EXPECT(sol.setLockedJoints(lock) == 0 && sol.getError() == 0, "setLockedJoints"); }
        if (s.chance(1, 8)) sol.updateInternalDataStructures();
        int un = 0; for (int i = 0; i < nj; ++i) un += !lock[i];
        VX q = jvec(s, nj, 4), qd = jvec(s, nj, 3); int sg = s.range(-2, c.ns()), n = sg < 0 ? c.ns() : sg;
        NOTE(str(c) << "q " << str(q.transpose()) << " qd " << str(qd.transpose()) << " representation " << rep << " segment " << sg << " unlocked " << un);
        s.nontrivial(un >= 2 && qd.cwiseAbs().minCoeff() > 0); s.label(std::string(un < nj ? "locked " : "") + (rep == 0 ? "hybrid" : rep == 1 ? "body" : "inertial"));
        VX qe = qd; for (int i = 0; i < nj; ++i) if (lock[i]) qe(i) = 0;
        MX full = jdot(c, q, qe, n, rep), want = MX::Zero(6, un); int last = 0, k2 = 0; for (int i = 0; i < n; ++i) last += c.s[i].j.movable();
        VX qu = VX::Zero(un); { int z = 0; for (int i = 0; i < nj; ++i) if (!lock[i]) { want.col(z) = full.col(i); qu(z++) = qd(i); } } (void)k2; (void)last;
        double L = scaleOf(c), sc = 1; for (auto& x : c.s) sc += std::fabs(x.j.scale); double tol = 1e-12 * L * sc * sc * sc * 10;
        JntArrayVel in(kj(q), kj(qd)); Jacobian D(un); D.data.setConstant(3.3);
        int rc = sg == -1 ? sol.JntToJacDot(in, D) : sol.JntToJacDot(in, D, sg);
        EXPECT(rc == 0 && sol.getError() == 0, "JntToJacDot returned " << rc);
        MNEAR(D.data, want, tol, "Jdot");
        Twist t(Vector(1, 1, 1), Vector(1, 1, 1)); rc = sol.JntToJacDot(in, t, sg);
        EXPECT(rc == 0 && sol.getError() == 0, "JntToJacDot(twist) returned " << rc);
        MNEAR(e(t), V6(want * qu), 20 * tol, "Jdot*qdot");
        MNEAR(e(in.q), q, 0, "input"); MNEAR(e(in.qdot), qd, 0, "input");
    }
}

LAW(observed, 40000, "the derivative as a user observes it: finite differences of ChainJntToJacSolver along the motion, hybrid representation; non-trivial: two or more movable joints") {
    GenOpt o; CSpec c = cspec(s, o, 1, 7); Chain C = c.build(); ChainJntToJacDotSolver sol(C); ChainJntToJacSolver js(C); int nj = c.nj(); VX q = jvec(s, nj, 4), qd = jvec(s, nj, 2);
    NOTE(str(c) << "q " << str(q.transpose()) << " qd " << str(qd.transpose())); s.nontrivial(nj >= 2);
    double h = 1e-5; Jacobian A(nj), B(nj), D(nj); js.JntToJac(kj(q - h * qd), A); js.JntToJac(kj(q + h * qd), B);
    EXPECT(sol.JntToJacDot(JntArrayVel(kj(q), kj(qd)), D) == 0, "JntToJacDot");
    double sc = 1, vmax = std::max(2.0, mx(qd)); for (auto& x : c.s) sc += std::fabs(x.j.scale) * vmax;
    MNEAR(D.data, (B.data - A.data) / (2 * h), 1e-9 * scaleOf(c) * sc + 1e-10 * scaleOf(c) * std::pow(sc, 4), "finite difference of the Jacobian");
}

LAW(rejects, 120000, "wrong sizes of q, qdot, Jacobian and lock mask, segment numbers beyond the chain, mixed with valid calls; non-trivial: the call must be rejected") {
    GenOpt o; CSpec c = cspec(s, o, 0, 6); Chain C = c.build(); ChainJntToJacDotSolver sol(C); int nj = c.nj(), un = nj;
    for (int i = 0, calls = s.range(1, 5); i < calls; ++i) {
        if (s.chance(1, 3)) { int w = s.flip() ? nj : s.range(0, 7); std::vector<bool> l(w); int u = 0; for (int z = 0; z < w; ++z) { l[z] = s.flip(); u += !l[z]; } int rc = sol.setLockedJoints(l), want = w == nj ? 0 : SolverI::E_SIZE_MISMATCH; EXPECT(rc == want, "setLockedJoints returned " << rc); EXPECT(sol.getError() == want, "getError " << sol.getError() << " after setLockedJoints returned " << rc); if (w == nj) un = u; }
        int a = s.flip() ? nj : s.range(0, 7), b = s.flip() ? nj : s.range(0, 7), cc = s.flip() ? un : s.range(0, 7), sg = s.flip() ? -1 : s.range(-2, c.ns() + 4), n = sg < 0 ? c.ns() : sg;
        NOTE(c.ns() << " segments " << nj << " joints; sizes " << a << " " << b << " " << cc << " segment " << sg << " unlocked " << un);
        JntArrayVel in(kj(jvec(s, a)), kj(jvec(s, b))); Jacobian D(cc); Twist t;
        bool bad = a != nj || b != nj; int want = bad || cc != un ? SolverI::E_SIZE_MISMATCH : n > c.ns() ? SolverI::E_OUT_OF_RANGE : 0, wt = bad ? SolverI::E_SIZE_MISMATCH : n > c.ns() ? SolverI::E_OUT_OF_RANGE : 0;
        int rc = sol.JntToJacDot(in, D, sg); EXPECT(rc == want && sol.getError() == want, "JntToJacDot returned " << rc << ", expected " << want);
        rc = sol.JntToJacDot(in, t, sg); EXPECT(rc == wt && sol.getError() == wt, "JntToJacDot(twist) returned " << rc << ", expected " << wt);
        s.nontrivial(want || wt);
        int codes[] = {ChainJntToJacDotSolver::E_JAC_DOT_FAILED, ChainJntToJacDotSolver::E_JACSOLVER_FAILED, ChainJntToJacDotSolver::E_FKSOLVERPOS_FAILED}; for (int z : codes) EXPECT(std::string(sol.strError(z)).find("nknown") == std::string::npos, "text of " << z);
    }
}
