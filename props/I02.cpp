#include "ik.hpp"
#include "chainiksolvervel_wdls.hpp"
#include "chainiksolvervel_pinv.hpp"
#include "chainiksolvervel_pinv_nso.hpp"
using namespace g;

// symmetric weights: identity, positive diagonal, diagonal with zeros, symmetric positive definite, positive block with zeros
static MX weight(Src& s, int n, int& kd) {
    kd = (int)s.raw(5); MX W = MX::Identity(n, n); if (kd == 0) return W;
    if (kd == 1) { for (int i = 0; i < n; ++i) W(i, i) = s.uni(0.2, 3); return W; }
    if (kd == 2) { for (int i = 0; i < n; ++i) W(i, i) = s.flip() ? 0 : s.uni(0.2, 3); return W; }
    MX A(n, n); for (int i = 0; i < n; ++i) for (int j = 0; j < n; ++j) A(i, j) = s.uni(-1, 1); W = A * A.transpose() / n + 0.3 * MX::Identity(n, n);
    if (kd == 4 && n > 1) { int k = (int)s.raw(n); for (int i = 0; i < n; ++i) { bool z = i >= k; if (z) { W.row(i).setZero(); W.col(i).setZero(); } } }
    return W;
}
LAW(weighted_damped, 50000, "chains of 1..9 joints of regular and degenerate structure, regular and singular postures, symmetric joint-space and task-space weights (identity, diagonal, with zeros, dense, block), damping including none, thresholds and iteration limits, weights and damping changed between calls; rates against Mq V f(S) U' Mx of the reference weighted Jacobian, reported singular values, minimum, scaled damping, count and status; non-trivial: two or more joints, non-zero twist and a weight or damping that is not the default") {
    CSpec c = ikchain(s, 1, 9); Chain C = c.build(); int nj = c.nj(); double eps = s.pick(std::vector<double>{1e-5, 1e-3, 0.1, 0.5}); int lim = s.chance(1, 10) ? s.range(1, 8) : 150; ChainIkSolverVel_wdls sol(C, eps, lim); MX Mq = MX::Identity(nj, nj), Mx = MX::Identity(6, 6); double lam = 0; int kq = 0, kx = 0; NOTE(str(c) << "eps " << eps << " iterations " << lim); EXPECT(sol.getSVDResult() == 0 && sol.getNrZeroSigmas() == 0 && sol.getEps() == eps && sol.getLambda() == 0, "initial state");
    for (int r = 0, R = s.range(1, 3); r < R; ++r) {
        if (s.chance(2, 3)) { Mq = weight(s, nj, kq); EXPECT(sol.setWeightJS(Mq) == 0 && sol.getError() == 0, "setWeightJS"); } if (s.chance(2, 3)) { Mx = weight(s, 6, kx); EXPECT(sol.setWeightTS(Mx) == 0 && sol.getError() == 0, "setWeightTS"); }
        if (s.flip()) { lam = s.pick(std::vector<double>{0, 0.01, 0.1, 1, 5}); sol.setLambda(lam); EXPECT(sol.getLambda() == lam, "lambda"); } if (s.chance(1, 4)) { eps = s.pick(std::vector<double>{1e-4, 0.02, 0.3}); sol.setEps(eps); EXPECT(sol.getEps() == eps, "eps"); } if (s.chance(1, 6)) { lim = s.flip() ? 150 : s.range(1, 8); sol.setMaxIter(lim); }
        VX q = posture(s, nj); MX J = jac(c, q, c.ns()), B = Mx * J * Mq; Svd d = svdAt(B, eps); if (!decided(d, eps)) { s.label("undecided rank"); continue; } bool in; V6 v = wantTwist(s, J, in); s.nontrivial(nj >= 2 && mx(v) > 0 && (kq || kx || lam > 0)); NOTE("q " << str(q.transpose()) << " twist " << str(v.transpose()) << " lambda " << lam << " eps " << eps << "\nMq\n" << str(Mq) << "\nMx\n" << str(Mx));
        JntArray o = kj(VX::Constant(nj, 5.5)), kqi = kj(q); int rc = sol.CartToJnt(kqi, kt(v), o); EXPECT(rc == sol.getError() && sol.strError(rc) != 0, "code"); MNEAR(e(kqi), q, 0, "input"); EXPECT(o.data.allFinite(), "finite rates");
        if (lim < 150 && rc == SolverI::E_SVD_FAILED) { s.label("iterations exhausted"); EXPECT(sol.getSVDResult() < 0, "SVD result"); MNEAR(o.data, VX(VX::Zero(nj)), 0, "rates after a failed decomposition"); continue; }
        int k = std::min(6, nj); bool lost = d.r < k; double smin = nj >= 6 ? d.s(5) : 0, ls = smin < eps ? std::sqrt(1 - smin / eps * (smin / eps)) * lam : 0, top = d.s(0); double sc = 1e-12 * (1 + top);
        EXPECT(rc == (lost ? (int)ChainIkSolverVel_wdls::E_CONVERGE_PINV_SINGULAR : 0), "returned " << rc << ", rank " << d.r << " of " << k); EXPECT((int)sol.getNrZeroSigmas() == nj - d.r && sol.getSVDResult() == 0, "zero singular values " << sol.getNrZeroSigmas()); NEAR(sol.getSigmaMin(), smin, sc, "smallest singular value"); NEAR(sol.getLambdaScaled(), ls, 1e-9 * (1 + lam) * (1 + top / eps * 1e-3), "scaled damping");
        Eigen::VectorXd S(nj); EXPECT(sol.getSigma(S) == 0, "getSigma"); for (int i = 0; i < nj; ++i) NEAR(S(i), i < k ? d.s(i) : 0, sc, "singular value " << i); Eigen::VectorXd bad(nj + 1); EXPECT(sol.getSigma(bad) == SolverI::E_SIZE_MISMATCH, "getSigma of a wrong size");
        VX y = VX::Zero(nj); V6 w = Mx * v; for (int i = 0; i < k; ++i) { double f = i < d.r ? 1 / d.s(i) : ls > 0 ? d.s(i) / (d.s(i) * d.s(i) + ls * ls) : 0; y += d.V.col(i) * (f * d.U.col(i).dot(w)); } VX x = Mq * y;
        double tol = 1e-12 * (1 + mx(w)) * (1 + mx(Mq)) * (1 + top) * (1 + top) * ((d.r ? 1 / std::min(1.0, d.gapHi * std::min(1.0, gap(d))) : 1) * (ls > 0 ? 1 + 1 / (ls * ls) : 1)); MNEAR(o.data, x, tol, "weighted damped rates"); s.label(ls > 0 ? "damped" : lost ? "truncated" : nj > 6 ? "redundant" : nj < 6 ? "few joints" : "square");
        if (kq == 2) for (int i = 0; i < nj; ++i) if (Mq(i, i) == 0) NEAR(o(i), 0, 0, "joint of zero weight " << i);
    }
}
LAW(optimality, 50000, "full-rank weighted problems with positive definite weights and no damping: the residual is stationary in the task-space weights and the rates are the least-norm ones in the inverse joint-space weights (normal equations, no decomposition of the code's kind); non-trivial: two or more joints and a non-zero twist") {
    CSpec c = ikchain(s, 1, 9); Chain C = c.build(); int nj = c.nj(); ChainIkSolverVel_wdls sol(C); int kd; auto spd = [&](int n) { MX A(n, n); for (int i = 0; i < n; ++i) for (int j = 0; j < n; ++j) A(i, j) = s.uni(-1, 1); return MX(A * A.transpose() / n + 0.4 * MX::Identity(n, n)); }; (void)kd; MX Mq = spd(nj), Mx = spd(6); sol.setWeightJS(Mq); sol.setWeightTS(Mx); VX q = posture(s, nj); MX J = jac(c, q, c.ns()), B = Mx * J * Mq; Svd d = svdAt(B, 1e-3); if (d.gapLo > 1e-13) s.discard(); bool in; V6 v = wantTwist(s, J, in); NOTE(str(c) << "q " << str(q.transpose()) << " twist " << str(v.transpose()) << "\nMq\n" << str(Mq) << "\nMx\n" << str(Mx)); s.nontrivial(nj >= 2 && mx(v) > 0);
    JntArray o(nj); int rc = sol.CartToJnt(kj(q), kt(v), o); EXPECT(rc >= 0, "returned " << rc); double top = d.s.size() ? d.s(0) : 0, hi = d.r ? d.gapHi : 1, tol = 1e-11 * (1 + mx(v)) * (1 + top) * (1 + top) * (1 + top) / std::min(1.0, hi * hi); V6 res = v - V6(J * o.data); MNEAR(VX(J.transpose() * Mx * Mx * res), VX(VX::Zero(nj)), tol, "stationary residual");
    VX z = Mq.ldlt().solve(o.data); MX N = d.V.rightCols(nj - d.r); MNEAR(VX(N.transpose() * z), VX(VX::Zero(nj - d.r)), tol, "least weighted norm"); if (in) MNEAR(VX(J * o.data), VX(v), tol, "a producible twist is produced");
    s.label(d.r < std::min(6, nj) ? "singular" : nj > 6 ? "redundant" : nj < 6 ? "few joints" : "square");
}
LAW(plain, 30000, "unit weights and no damping: the same rates, status and count as the plain pseudo-inverse solver of the same threshold; non-trivial: two or more joints and a non-zero twist") {
    CSpec c = ikchain(s, 1, 9); Chain C = c.build(); int nj = c.nj(); double eps = s.pick(std::vector<double>{1e-5, 1e-3, 0.1}); ChainIkSolverVel_wdls a(C, eps); ChainIkSolverVel_pinv b(C, eps); NOTE(str(c)); VX q = posture(s, nj); MX J = jac(c, q, c.ns()); Svd d = svdAt(J, eps); if (!decided(d, eps)) s.discard(); bool in; V6 v = wantTwist(s, J, in); s.nontrivial(nj >= 2 && mx(v) > 0); NOTE("q " << str(q.transpose()) << " twist " << str(v.transpose()));
    JntArray x = kj(VX::Constant(nj, 1)), y = kj(VX::Constant(nj, 2)); int ra = a.CartToJnt(kj(q), kt(v), x), rb = b.CartToJnt(kj(q), kt(v), y); EXPECT(ra == rb && a.getNrZeroSigmas() == b.getNrZeroSigmas(), ra << " " << rb); double top = d.s(0); MNEAR(x.data, y.data, 1e-12 * (1 + mx(v)) * (1 + top) * (1 + top) / (d.r ? std::min(1.0, d.gapHi * std::min(1.0, gap(d))) : 1), "rates");
}
LAW(nullspace, 60000, "the null-space solver with random optimum positions, weights (also zero and negative-free) and gain, settings changed between calls: pseudo-inverse plus the projected gradient step; the added motion leaves the end effector unchanged and never increases the cost; non-trivial: added motion that is not zero") {
    CSpec c = ikchain(s, 1, 9); Chain C = c.build(); int nj = c.nj(); double eps = s.pick(std::vector<double>{1e-5, 1e-3, 0.1}), al = s.flip() ? 0.25 : s.uni(0, 2); VX w(nj), opt(nj); auto rw = [&] { for (int i = 0; i < nj; ++i) w(i) = s.chance(1, 4) ? 0 : s.uni(0, 3); }; auto ro = [&] { opt = jvec(s, nj, 3); }; rw(); ro(); bool late = s.chance(1, 3); ChainIkSolverVel_pinv_nso full(C, kj(opt), kj(w), eps, 150, al), plain(C, eps, 150, al); ChainIkSolverVel_pinv_nso& sol = late ? plain : full; NOTE(str(c) << "eps " << eps << " gain " << al);
    if (late) { JntArray o(nj); EXPECT(sol.CartToJnt(kj(VX::Zero(nj)), Twist::Zero(), o) == SolverI::E_SIZE_MISMATCH, "no optimum set"); EXPECT(sol.setOptPos(kj(opt)) == 0 && sol.setWeights(kj(w)) == 0, "set"); }
    for (int r = 0, R = s.range(1, 3); r < R; ++r) {
        if (r && s.flip()) { rw(); EXPECT(sol.setWeights(kj(w)) == 0, "weights"); } if (r && s.flip()) { ro(); EXPECT(sol.setOptPos(kj(opt)) == 0, "optimum"); } if (r && s.flip()) { al = s.uni(0, 2); sol.setAlpha(al); } VX wrong = VX::Zero(nj + 1); EXPECT(sol.setWeights(kj(wrong)) == SolverI::E_SIZE_MISMATCH && sol.setOptPos(kj(wrong)) == SolverI::E_SIZE_MISMATCH, "wrong sizes");
        MNEAR(e(sol.getWeights()), w, 0, "weights kept"); MNEAR(e(sol.getOptPos()), opt, 0, "optimum kept"); EXPECT(sol.getAlpha() == al, "gain kept");
        VX q = s.chance(1, 4) ? VX(opt) : posture(s, nj); MX J = jac(c, q, c.ns()); Svd d = svdAt(J, eps); if (!decided(d, eps)) { s.label("undecided rank"); continue; } bool in; V6 v = wantTwist(s, J, in); NOTE("q " << str(q.transpose()) << " twist " << str(v.transpose()) << " weights " << str(w.transpose()) << " optimum " << str(opt.transpose()) << " gain " << al);
        JntArray o = kj(VX::Constant(nj, 5.5)); int rc = sol.CartToJnt(kj(q), kt(v), o); EXPECT(rc == 0 && sol.getError() == 0, "returned " << rc); VX dq = q - opt, W = w.cwiseProduct(dq); double A = W.squaredNorm(), G = 0.5 * dq.dot(W); if (std::fabs(A - 1e-9) < 1e-12) continue;
        VX x = VX::Zero(nj); for (int i = 0; i < d.r; ++i) x += d.V.col(i) * (d.U.col(i).dot(v) / d.s(i)); MX P = MX::Identity(nj, nj); for (int i = 0; i < d.r; ++i) P -= d.V.col(i) * d.V.col(i).transpose(); VX add = VX::Zero(nj); if (A > 1e-9) add = P * W * (-2 * al * G / A);
        double top = d.s(0), tol = 1e-12 * (1 + mx(v) + 10 * al) * (1 + top) * (1 + top) / (d.r ? std::min(1.0, d.gapHi * std::min(1.0, gap(d))) : 1) * (A > 1e-9 ? 1 + std::fabs(G) / std::sqrt(A) : 1); MNEAR(o.data, VX(x + add), tol, "rates"); s.nontrivial(mx(add) > 1e-6); s.label(mx(add) > 1e-6 ? "moves in the null space" : "no null-space motion");
        VX got = o.data - x; if (d.gapLo < 1e-12) MNEAR(VX(J * got), VX(VX::Zero(6)), tol * (1 + top) * 4, "the added motion leaves the end effector unchanged"); EXPECT(W.dot(got) <= tol * (1 + mx(W)) * nj, "the cost increases");
    }
}
LAW(shapes, 3000, "weight matrices of wrong dimensions, including those with the right number of elements, are rejected and leave the solver unchanged; non-trivial: every case") {
    CSpec c = ikchain(s, 1, 9); Chain C = c.build(); int nj = c.nj(); ChainIkSolverVel_wdls sol(C); NOTE(str(c)); bool ts = s.flip(); int n = ts ? 6 : nj; int r, k; if (s.chance(2, 3)) { std::vector<std::pair<int, int>> f; for (int i = 1; i <= n * n; ++i) if ((n * n) % i == 0 && i != n) f.push_back({i, n * n / i}); if (f.empty()) s.discard(); auto p = s.pick(f); r = p.first; k = p.second; } else { r = s.range(0, 10); k = s.range(0, 10); if (r == n && k == n) s.discard(); } NOTE((ts ? "task" : "joint") << " weights " << r << "x" << k); s.nontrivial();
    MX W = MX::Ones(r, k); int rc = ts ? sol.setWeightTS(W) : sol.setWeightJS(W); EXPECT(rc == SolverI::E_SIZE_MISMATCH && sol.getError() == rc, "returned " << rc); VX q = posture(s, nj); bool in; MX J = jac(c, q, c.ns()); V6 v = wantTwist(s, J, in); ChainIkSolverVel_wdls ref(C); JntArray a(nj), b(nj); int ra = sol.CartToJnt(kj(q), kt(v), a), rb = ref.CartToJnt(kj(q), kt(v), b); EXPECT(ra == rb, "code"); MNEAR(a.data, b.data, 0, "rates");
}
