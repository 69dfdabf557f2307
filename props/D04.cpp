#include "dyn.hpp"
#include "chainhdsolver_vereshchagin.hpp"
#include "chainidsolver_vereshchagin.hpp"
using namespace g;

// equations of motion on a base that accelerates with (a0 linear, al0 angular) while at rest: generalised bias + inertia forces
static VX eom(const std::vector<Body>& bs, int n, const V6& root) {
    VX tau = kane(bs, n, V3::Zero()); if (!n) return tau; V3 a0 = root.head<3>(), al0 = root.tail<3>();
    for (auto& b : bs) { M3 R = R3(b.T.a); V3 ch = R * b.I.c, pc = P3(b.T.a) + ch; MX Jv = b.J.topRows(3) - skew(ch) * b.J.bottomRows(3); tau += Jv.transpose() * (b.I.m * (a0 + al0.cross(pc))) + b.J.bottomRows(3).transpose() * (R * b.I.Ic * R.transpose() * al0); }
    return tau;
}
// spatial acceleration of a tip, base axes, origin of the tip as reference point, base acceleration included
static V6 spatial(const Jet4& T, const V6& root) { V6 tw = twistOf(T), a = acctwistOf(T); V3 a0 = root.head<3>(), al0 = root.tail<3>(); V6 r; r << a.head<3>() + a0 + al0.cross(P3(T.a)) - tw.tail<3>().cross(tw.head<3>()), a.tail<3>() + al0; return r; }
static double massScale(const std::vector<Body>& bs, double L) { double S = 1; for (auto& b : bs) S += std::pow(std::max(1.0, mx(b.J)) * L, 2) * (b.I.m * (1 + b.I.c.squaredNorm()) + mx(b.I.Ic)); return S; }
static MX fullMass(const CSpec& c, const VX& q) { MX M = massm(c, q); M.diagonal() += jointInertias(c); return M; }
static V6 rootacc(Src& s) { int kd = (int)s.raw(5); V6 r = V6::Zero(); if (kd == 0) r(2) = 9.81; else if (kd == 1) {} else if (kd == 2) r.head<3>() = e(vec(s, 10)); else r = e(twist(s, 5)); return r; }
// constraint directions: coordinate axes, axes with deactivated columns, unit or general wrenches
static MX alfaGen(Src& s, int nc, std::string& kind) {
    MX A = MX::Zero(6, nc); int kd = (int)s.raw(4);
    if (kd == 0) { kind = "inactive"; return A; }
    std::vector<int> ax{0, 1, 2, 3, 4, 5}; for (int i = 5; i > 0; --i) std::swap(ax[i], ax[s.raw(i + 1)]);
    if (kd == 1) { kind = "axes"; for (int i = 0; i < nc; ++i) A(ax[i], i) = 1; }
    else if (kd == 2) { kind = "axes, some inactive"; for (int i = 0; i < nc; ++i) if (s.flip()) A(ax[i], i) = s.flip() ? 1 : -1; }
    else { kind = "general"; for (int i = 0; i < nc; ++i) for (int r = 0; r < 6; ++r) A(r, i) = s.uni(-1, 1); }
    return A;
}

static void runCase(Src& s, ChainHdSolver_Vereshchagin& sol, const CSpec& c, const V6& root, int nc, bool forceInactive) {
    int nj = c.nj(), ns = c.ns(); VX q = jvec(s, nj, 4), qd = jvec(s, nj, 2), ff = jvec(s, nj, 10), beta = jvec(s, nc, 5); std::string kind; MX A = alfaGen(s, nc, kind); if (forceInactive) { A.setZero(); kind = "inactive"; } auto w = wrenches(s, ns); MX M = fullMass(c, q);
    Eigen::SelfAdjointEigenSolver<MX> es(M); double cond = es.eigenvalues()(nj - 1) / es.eigenvalues()(0); if (!(es.eigenvalues()(0) > 1e-5 * es.eigenvalues()(nj - 1)) || es.eigenvalues()(0) < 1e-6) s.discard();
    NOTE(str(c) << "root acceleration " << str(root.transpose()) << " q " << str(q.transpose()) << " qd " << str(qd.transpose()) << " ff " << str(ff.transpose()) << " alfa " << str(A) << " beta " << str(beta.transpose())); for (int i = 0; i < ns; ++i) NOTE("wrench " << i << " " << str(w[i].transpose()));
    Jacobian al(nc); al.data = A; JntArray a = kj(VX::Constant(nj, 3.3)), ct = kj(VX::Constant(nj, 4.4)), tt(nj), kq = kj(q), kd = kj(qd), kff = kj(ff), kb = kj(beta); Wrenches W = kws(w);
    int rc = sol.CartToJnt(kq, kd, a, al, kb, W, kff, ct); EXPECT(rc == 0 && sol.getError() == 0, "CartToJnt returned " << rc);
    VX nu(nc); sol.getContraintForceMagnitude(nu); sol.getTotalTorque(tt); std::vector<Twist> xdd(ns + 1); sol.getTransformedLinkAcceleration(xdd);
    EXPECT(a.data.allFinite() && ct.data.allFinite() && nu.allFinite() && tt.data.allFinite(), "non-finite result: qdd " << str(a.data.transpose()) << " constraint torques " << str(ct.data.transpose()) << " nu " << str(nu.transpose()));
    auto bs = bodies(c, q, qd, a.data); double L = lenOf(c); std::vector<V6> none; double MS = massScale(bs, L), S = dynScale(bs, root.head<3>(), w, L) + MS * (1 + mx(a.data)) + mx(ff); MX J = bs[ns - 1].J;
    // loss of accuracy through the articulated inertias and the constraint inverse
    MX act(6, 0); for (int i = 0; i < nc; ++i) if (A.col(i).norm() > 0) { act.conservativeResize(6, act.cols() + 1); act.col(act.cols() - 1) = A.col(i); }
    MX Mi = M.inverse(), Q = act.transpose() * J * Mi * J.transpose() * act; double qmax = 0, qmin = 0; if (act.cols()) { Eigen::SelfAdjointEigenSolver<MX> qe(Q); qmax = qe.eigenvalues()(act.cols() - 1); qmin = qe.eigenvalues()(0); }
    bool active = act.cols() > 0, feasible = active && qmin > 1e-6 * qmax && qmin > 1e-7; if (active && !feasible && qmin > 1e-13 * qmax) { s.label("ill-conditioned constraints"); }
    s.nontrivial(feasible && nj >= 2); s.label(kind + (active ? feasible ? ", feasible" : ", not feasible" : ""));
    double amp = 1e-12 * cond * S * (1 + (mx(nu) + 1) * mx(A) * std::max(1.0, mx(J)));
    // (1) equations of motion with the reported constraint torques
    VX ext = VX::Zero(nj); for (int i = 0; i < ns; ++i) ext += bs[i].J.transpose() * w[i];
    MNEAR(eom(bs, nj, root) + jointInertias(c).cwiseProduct(a.data), VX(ff + ct.data + ext), amp, "equations of motion with the reported constraint torques");
    // (2) constraint torques are produced by the reported constraint force at the end effector
    MNEAR(ct.data, VX(-J.transpose() * (A * nu)), amp, "constraint torques against the reported force magnitudes"); if (!active) { MNEAR(ct.data, VX(VX::Zero(nj)), 1e-12 * S, "no constraint, no constraint torque"); }
    // (3) accelerations of all links belong to the same motion
    MNEAR(e(xdd[0]), root, 0, "acceleration of the base"); double as = 1 + mx(root); for (auto& b : bs) as += acctwistOf(b.T).norm() + twistOf(b.T).squaredNorm(); as *= L * L; for (int i = 0; i < ns; ++i) MNEAR(e(xdd[i + 1]), spatial(bs[i].T, root), 1e-11 * as * (1 + mx(a.data) * L), "acceleration of link " << i);
    // (4) the constraints hold wherever they can
    if (feasible) MNEAR(VX(act.transpose() * e(xdd[ns])), [&] { VX b(act.cols()); int z = 0; for (int i = 0; i < nc; ++i) if (A.col(i).norm() > 0) b(z++) = beta(i); return b; }(), 1e-12 * cond * (qmax / qmin) * S * as + 1e-11 * as, "end-effector acceleration constraints");
    // (5) total torque: articulated inertia felt by the joint times its acceleration
    for (int j = 0; j < nj; ++j) { MX sub = M.bottomRightCorner(nj - j, nj - j); double D = 1 / sub.inverse()(0, 0); NEAR(tt(j), D * a(j), 1e-11 * cond * S + 1e-11 * cond * std::fabs(D * a(j)), "total torque of joint " << j); }
    MNEAR(e(kq), q, 0, "input"); MNEAR(e(kd), qd, 0, "input"); MNEAR(e(kff), ff, 0, "input"); MNEAR(e(kb), beta, 0, "input"); MNEAR(al.data, A, 0, "input"); for (int i = 0; i < ns; ++i) MNEAR(e(W[i]), w[i], 0, "input");
}

LAW(motion, 60000, "chains of 1..8 movable joints, base acceleration, states, 1..6 constraints (axes, deactivated columns, general wrenches), torques and wrenches, several calls per solver; equations of motion, constraint forces, link accelerations and constraint satisfaction; non-trivial: feasible active constraints on two or more joints") {
    GenOpt o = dynopt(); o.fixed = false; CSpec c = cspec(s, o, 1, 8); Chain C = c.build(); V6 root = rootacc(s); int nc = s.range(1, 6); ChainHdSolver_Vereshchagin sol(C, kt(root), nc);
    for (int r = 0, R = s.range(1, 3); r < R; ++r) runCase(s, sol, c, root, nc, false);
}

LAW(forward, 30000, "all constraints deactivated: unconstrained forward dynamics; after calls with constraints; non-trivial: two or more joints") {
    GenOpt o = dynopt(); o.fixed = false; CSpec c = cspec(s, o, 1, 7); Chain C = c.build(); V6 root = rootacc(s); int nc = s.range(1, 6); ChainHdSolver_Vereshchagin sol(C, kt(root), nc); s.nontrivial(c.nj() >= 2);
    if (s.flip()) runCase(s, sol, c, root, nc, false); runCase(s, sol, c, root, nc, true);
}

LAW(rejects, 60000, "wrong sizes of any argument, chains with fixed joints, growth without update, mixed with valid calls; non-trivial: the call must be rejected") {
    GenOpt o = dynopt(); o.fixed = s.flip(); CSpec c = cspec(s, o, 0, 5); for (auto& x : c.s) x.j.inertia += 0.2; Chain C = c.build(); int nc = s.range(1, 6); ChainHdSolver_Vereshchagin sol(C, Twist::Zero(), nc); bool fresh = true;
    for (int r = 0, R = s.range(1, 4); r < R; ++r) {
        if (s.chance(1, 5)) { c.s.push_back(sspec(s, o, "n" + std::to_string(c.ns()))); c.s.back().j.inertia += 0.2; C.addSegment(c.s.back().build()); fresh = false; } if (!fresh && s.flip()) { sol.updateInternalDataStructures(); fresh = true; }
        int nj = c.nj(), ns = c.ns(), z[8]; bool bad = false; int want8[8] = {nj, nj, nj, nj, nj, ns, nc, nc}; for (int i = 0; i < 8; ++i) { z[i] = s.chance(1, 8) ? s.range(0, 7) : want8[i]; bad |= z[i] != want8[i]; }
        NOTE(ns << " segments " << nj << " joints " << nc << " constraints"); JntArray q = kj(jvec(s, z[0])), qd = kj(jvec(s, z[1])), qdd(z[2]), ff(z[3]), ct(z[4]); Jacobian al(z[6]); JntArray be(z[7]);
        int rc = sol.CartToJnt(q, qd, qdd, al, be, std::vector<Wrench>(z[5], Wrench::Zero()), ff, ct), want = !fresh ? SolverI::E_NOT_UP_TO_DATE : bad ? SolverI::E_SIZE_MISMATCH : nj != ns ? SolverI::E_NOT_IMPLEMENTED : 0; s.nontrivial(want != 0); EXPECT(rc == want && sol.getError() == want, "returned " << rc << ", expected " << want);
        if (!want) EXPECT(qdd.data.allFinite() && ct.data.allFinite(), "finite result");
    }
}
