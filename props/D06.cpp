#include "dyn.hpp"
#include "chainexternalwrenchestimator.hpp"
using namespace g;

static MX fullMass(const CSpec& c, const VX& q) { MX M = massm(c, q); M.diagonal() += jointInertias(c); return M; }
// body Jacobian: end-effector axes and reference point
static MX jacEE(const CSpec& c, const VX& q) { MX J = jac(c, q, c.ns()); M3 R = R3(fkn(c, q, c.ns())).transpose(); MX B(6, J.cols()); B.topRows(3) = R * J.topRows(3); B.bottomRows(3) = R * J.bottomRows(3); return B; }
// smooth joint motion q0 + v0 t + sum of sines
struct Motion { VX q0, v0, am, om; VX q(double t) const { VX r = q0 + v0 * t; for (int i = 0; i < r.size(); ++i) r(i) += am(i) * std::sin(om(i) * t); return r; } VX qd(double t) const { VX r = v0; for (int i = 0; i < r.size(); ++i) r(i) += am(i) * om(i) * std::cos(om(i) * t); return r; } VX qdd(double t) const { VX r = VX::Zero(q0.size()); for (int i = 0; i < r.size(); ++i) r(i) = -am(i) * om(i) * om(i) * std::sin(om(i) * t); return r; } };
static Motion motion(Src& s, int nj, bool rest) { Motion m; m.q0 = jvecu(s, nj, 2.5); m.v0 = m.am = VX::Zero(nj); m.om = VX::Ones(nj); if (!rest) { if (s.flip()) m.v0 = jvecu(s, nj, 0.5); m.am = jvecu(s, nj, 0.4); for (int i = 0; i < nj; ++i) m.om(i) = s.uni(0.5, 3); } return m; }
// wrench with the smallest norm that explains the torques best; false when a singular value is close to the zero threshold
static bool explain(const MX& J, const VX& tau, V6& w, double& gain, double eps = 1e-5) { Eigen::JacobiSVD<MX> d(J.transpose(), Eigen::ComputeFullU | Eigen::ComputeFullV); w.setZero(); gain = 1; for (int i = 0; i < d.singularValues().size(); ++i) { double x = d.singularValues()(i); if (std::fabs(x - eps) < 1e-9 * (1 + eps)) return false; if (x > 1e-3 && x > eps) { w += d.matrixV().col(i) * d.matrixU().col(i).dot(tau) / x; gain = std::max(gain, 1 / x); } else if (x > 1e-8 && x > eps) return false; else if (x > 1e-8 && eps < 1e-3) return false; } return true; }
// applied wrench w at the end effector, joint torques that realise the motion
static VX torque(const CSpec& c, const V3& gr, const V6& w, const VX& q, const VX& qd, const VX& qdd) { std::vector<V6> ws(c.ns(), V6(V6::Zero())); if (c.ns()) ws.back() = w; return invdyn(bodies(c, q, qd, qdd), jointInertias(c), qdd, gr, ws); }
// discrete first-order momentum observer with the documented gain and low-pass filter
struct Observer { double dt, K, c; VX I, f, p0; MX Mp; bool first = true;
    void reset(const VX& p, const MX& M) { p0 = p; I = f = VX::Zero(p.size()); Mp = M; first = false; }
    void step(const MX& M, const VX& qd, const VX& rest) { VX tot = rest + (M - Mp) / dt * qd; Mp = M; I += (tot + f) * dt; f = c * f + (1 - c) * K * (M * qd - I - p0); } };

static void run(Src& s, bool rest) {
    GenOpt o = dynopt(); int lo = s.chance(2, 3) ? 6 : 1; CSpec c = cspec_mov(s, o, lo, 8); Chain C = c.build(); int nj = c.nj(); V3 gr = gravity(s); double freq = s.pick(std::vector<double>{1000, 500, 200, 100}), dt = 1 / freq, K = s.uni(0.02, 1.2) * freq, fc = s.chance(1, 2) ? 0 : s.uni(0, 0.8); if (!rest) K = s.uni(5, 0.3 * freq);
    double eps = 1e-5; int kd = (int)s.raw(4); if (kd > 1) eps = s.pick(std::vector<double>{1e-3, 0.05, 0.3, 1});
    ChainExternalWrenchEstimator est = kd == 3 ? ChainExternalWrenchEstimator(C, k(gr), freq, K, fc, eps) : ChainExternalWrenchEstimator(C, k(gr), freq, K, fc); if (kd == 2) est.setSVDEps(eps); NOTE(str(c) << "gravity " << str(gr.transpose()) << " frequency " << freq << " gain " << K << " filter " << fc << " zero threshold " << eps);
    Observer ob{dt, K, fc, VX::Zero(nj), VX::Zero(nj), VX::Zero(nj), MX::Zero(nj, nj)}; bool ok = true; double S = 1;
    for (int ep = 0, E = s.range(1, 2); ep < E; ++ep) {
        Motion m = motion(s, nj, rest); V6 w = s.chance(1, 4) ? V6(V6::Zero()) : e(wrench(s, 20)); bool init = ep > 0 || !rest || s.flip(); int N = s.range(1, rest ? 40 : 25); NOTE("episode " << ep << " q0 " << str(m.q0.transpose()) << " v0 " << str(m.v0.transpose()) << " amplitude " << str(m.am.transpose()) << " wrench " << str(w.transpose()) << " steps " << N << (init ? " momentum set" : ""));
        if (init) { JntArray a = kj(m.q(0)), b = kj(m.qd(0)); int rc = est.setInitialMomentum(a, b); EXPECT(rc == 0, "setInitialMomentum returned " << rc); MX M = fullMass(c, m.q(0)); ob.reset(M * m.qd(0), M); }
        for (int i = 1; i <= N; ++i) {
            double t = i * dt; VX q = m.q(t), qd = m.qd(t), qdd = m.qdd(t), Z = VX::Zero(nj); VX tau = torque(c, gr, w, q, qd, qdd); MX M = fullMass(c, q);
            ob.step(M, qd, tau - torque(c, gr, V6::Zero(), q, qd, Z)); auto bs = bodies(c, q, qd, qdd); std::vector<V6> ws(c.ns(), w); S = std::max(S, dynScale(bs, gr, ws, lenOf(c)) + mx(ob.f) + mx(ob.I) * K + mx(M) * (1 + mx(qd)) * (K + freq));
            JntArray kq = kj(q), kd = kj(qd), kt_ = kj(tau), r(nj); Wrench W(Vector(7, 7, 7), Vector(7, 7, 7)); int rc = est.JntToExtWrench(kq, kd, kt_, W); est.getEstimatedJntTorque(r);
            EXPECT(rc == 0 && est.getError() == 0, "JntToExtWrench returned " << rc); double amp = 1e-12 * S * (1 + K * dt) * i; MNEAR(r.data, ob.f, amp, "estimated joint torque at step " << i);
            MNEAR(e(kq), q, 0, "input"); MNEAR(e(kd), qd, 0, "input"); MNEAR(e(kt_), tau, 0, "input");
            MX J = jacEE(c, q); V6 x; double gain; if (explain(J, r.data, x, gain, eps)) { MNEAR(e(W), x, 1e-11 * gain * gain * (1 + mx(J) * mx(J)) * (1 + mx(r.data)) + amp * gain, "wrench that explains the joint torque at step " << i); } else s.label("close to the rank threshold"), ok = false;
            if (rest && fc == 0 && init) { VX text = J.transpose() * w; MNEAR(r.data, VX(text * (1 - std::pow(1 - K * dt, i))), amp, "held still: geometric convergence at step " << i); }
        }
        if (ep == E - 1 && nj > 0 && s.chance(1, 6)) { int it = s.range(1, 8); est.setSVDMaxIter(it); VX q = m.q((N + 1) * dt), Z = VX::Zero(nj); Wrench W; JntArray r(nj); int rc = est.JntToExtWrench(kj(q), kj(m.qd((N + 1) * dt)), kj(Z), W); est.getEstimatedJntTorque(r); NOTE("at most " << it << " iterations"); EXPECT((rc == 0 || rc == SolverI::E_SVD_FAILED) && est.getError() == rc && est.strError(rc), "iteration limit " << it << " returned " << rc); V6 x; double gain; MX J = jacEE(c, q); if (rc == 0 && explain(J, r.data, x, gain, eps)) MNEAR(e(W), x, 1e-11 * gain * gain * (1 + mx(J) * mx(J)) * (1 + mx(r.data)) + 1e-9 * gain * (1 + mx(r.data)), "wrench within the iteration limit"); s.label(rc ? "iteration limit hit" : "iteration limit kept"); }
        VX q = m.q(N * dt); MX J = jacEE(c, q); VX text = J.transpose() * w; if (ok && N >= 10 && mx(w) > 0) s.nontrivial(nj >= 2); Eigen::JacobiSVD<MX> d(J); if (nj >= 6 && d.singularValues()(5) > 1e-3) s.label("full rank");
    }
}
LAW(still, 3000, "chains of 1..8 joints held still (or started at rest), any gain, filter and sampling frequency, one or two episodes separated by a momentum reset: estimates against the discrete observer and its closed form, wrench against the least-norm explanation; non-trivial: a wrench acts for ten or more steps") { run(s, true); }
LAW(moving, 2000, "the same while the joints follow smooth motions with the exact torques of the reference model; non-trivial: a wrench acts for ten or more steps") { run(s, false); }

LAW(converges, 450, "full-rank chains under a constant wrench in the end-effector frame: after the time the gain needs, the estimate is the wrench, to the accuracy of the sampling; zero without one; non-trivial: a wrench acts") {
    GenOpt o = dynopt(); CSpec c = cspec_mov(s, o, 6, 7); int nj = c.nj(); Chain C = c.build(); V3 gr = gravity(s); Motion m = motion(s, nj, s.chance(1, 3)); m.am *= 0.3; m.v0 *= 0.2; double freq = 1000, dt = 1 / freq, K = s.uni(80, 400), fc = s.chance(1, 2) ? 0 : s.uni(0, 0.5); bool zero = s.chance(1, 4), init = s.flip(); V6 w = zero ? V6(V6::Zero()) : e(wrench(s, 20));
    int N = (int)(14 / (K * dt)) + 20; for (int i = 0; i <= N; i += N / 4) { Eigen::JacobiSVD<MX> d(jacEE(c, m.q(i * dt))); if (nj < 6 || d.singularValues()(5) < 0.02) s.discard(); }
    NOTE(str(c) << "gain " << K << " filter " << fc << " q0 " << str(m.q0.transpose()) << " v0 " << str(m.v0.transpose()) << " amplitude " << str(m.am.transpose()) << " frequency " << str(m.om.transpose()) << " wrench " << str(w.transpose())); s.nontrivial(!zero);
    ChainExternalWrenchEstimator est(C, k(gr), freq, K, fc); if (init) est.setInitialMomentum(kj(m.q(0)), kj(m.qd(0))); Wrench W; VX text; MX J; double rate = 0; VX pv, pw; double dm = 0, curv = 0;
    for (int i = 1; i <= N; ++i) { VX q = m.q(i * dt), qd = m.qd(i * dt), qdd = m.qdd(i * dt); est.JntToExtWrench(kj(q), kj(qd), kj(torque(c, gr, w, q, qd, qdd)), W); J = jacEE(c, q); text = J.transpose() * w; if (i > 1) rate = std::max(rate, mx(text - pv) / dt); pv = text; MX M = fullMass(c, q); VX hM = M * qd; dm = std::max(dm, mx(hM)); VX tot = torque(c, gr, V6::Zero(), q, qd, qdd); if (i > 1) curv = std::max(curv, mx(tot - pw) / dt); pw = tot; }
    // the observer follows with time constant 1/K; Euler sampling adds terms proportional to dt
    JntArray r(nj); est.getEstimatedJntTorque(r); VX Z = VX::Zero(nj); auto bs = bodies(c, m.q(N * dt), m.qd(N * dt), m.qdd(N * dt)); double sc = 1 + mx(text); double lag = 3 * rate * (1 / K) / (1 - fc) + 1e-5 * (sc + (init ? 0 : K * dm)); double om = 0; for (int i = 0; i < nj; ++i) om = std::max(om, std::fabs(m.om(i)) ); double smp = (1 + K * dt) * 20 * dt * (mx(fullMass(c, m.q(N * dt))) * lenOf(c) * (mx(m.qd(0)) + mx(m.am)) * (1 + om) * (1 + om) + curv / K);
    EXPECT(mx(r.data - text) <= lag + smp, "estimated joint torque " << str(r.data.transpose()) << " applied " << str(text.transpose()) << " tolerance " << lag + smp); Eigen::JacobiSVD<MX> d(J); double inv = std::sqrt(6.0 * nj) / d.singularValues()(std::min(nj, 6) - 1);
    MNEAR(e(W), w, (lag + smp) * inv + 1e-9 * inv * sc, "estimated wrench"); s.label(mx(m.am) > 0 || mx(m.v0) > 0 ? "moving" : "held still");
}

LAW(sizes, 40000, "wrong sizes, growth of the chain without and with update; non-trivial: the call must be rejected or the chain has grown") {
    GenOpt o = dynopt(); CSpec c = cspec(s, o, 0, 5); Chain C = c.build(); ChainExternalWrenchEstimator est(C, Vector(0, 0, -9.81), 100, 20, 0.1); bool fresh = true; VX tau;
    for (int r = 0, R = s.range(1, 4); r < R; ++r) {
        if (s.chance(1, 4)) { c.s.push_back(sspec(s, o, "n" + std::to_string(c.ns()))); C.addSegment(c.s.back().build()); fresh = false; } if (!fresh && s.flip()) { est.updateInternalDataStructures(); fresh = true; s.nontrivial(true); }
        int nj = c.nj(), z[3]; bool bad = false; for (int i = 0; i < 3; ++i) { z[i] = s.chance(1, 6) ? s.range(0, 7) : nj; bad |= z[i] != nj; } s.nontrivial(bad || !fresh); NOTE(c.ns() << " segments, " << nj << " joints, sizes " << z[0] << " " << z[1] << " " << z[2] << (fresh ? "" : " not updated"));
        Wrench W; int rc = est.JntToExtWrench(kj(jvec(s, z[0])), kj(jvec(s, z[1])), kj(jvec(s, z[2])), W), want = !fresh ? SolverI::E_NOT_UP_TO_DATE : bad ? SolverI::E_SIZE_MISMATCH : 0; EXPECT(rc == want && est.getError() == want && est.strError(rc), "returned " << rc << ", expected " << want);
        bool b2 = z[0] != nj || z[1] != nj; if (fresh) { rc = est.setInitialMomentum(kj(jvec(s, z[0])), kj(jvec(s, z[1]))); EXPECT(rc == (b2 ? (int)SolverI::E_SIZE_MISMATCH : 0), "setInitialMomentum returned " << rc); }
    }
}
