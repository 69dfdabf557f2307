#include "ik.hpp"
#include "chainiksolvervel_pinv.hpp"
#include "chainiksolvervel_pinv_givens.hpp"
#include "chainiksolvervel_pinv_nso.hpp"
using namespace g;

static VX pinvRef(const Svd& d, const V6& v) { VX x = VX::Zero(d.V.rows()); for (int i = 0; i < d.r; ++i) x += d.V.col(i) * (d.U.col(i).dot(v) / d.s(i)); return x; }
LAW(pseudoinverse, 100000, "chains of 1..9 joints of regular and degenerate structure, regular and singular postures, twists inside and outside the range, several thresholds, iteration limits and calls per solver: joint rates against the truncated pseudo-inverse of the reference Jacobian, status and singular value count; non-trivial: two or more joints and a non-zero twist") {
    CSpec c = ikchain(s, 1, 9); Chain C = c.build(); int nj = c.nj(); double eps = s.pick(std::vector<double>{1e-5, 1e-5, 1e-5, 1e-3, 0.1, 1e-7}); int lim = s.chance(1, 8) ? s.range(1, 8) : 150; ChainIkSolverVel_pinv sol(C, eps, lim); NOTE(str(c) << "eps " << eps << " iterations " << lim);
    for (int r = 0, R = s.range(1, 3); r < R; ++r) {
        VX q = posture(s, nj); MX J = jac(c, q, c.ns()); Svd d = svdAt(J, eps); if (!decided(d, eps)) { s.label("undecided rank"); continue; } bool in; V6 v = wantTwist(s, J, in); s.nontrivial(nj >= 2 && mx(v) > 0); NOTE("q " << str(q.transpose()) << " twist " << str(v.transpose()));
        JntArray o = kj(VX::Constant(nj, 5.5)), kq = kj(q); int rc = sol.CartToJnt(kq, kt(v), o); EXPECT(rc == sol.getError() && sol.strError(rc) != 0, "code"); MNEAR(e(kq), q, 0, "input");
        if (lim < 150 && rc == SolverI::E_SVD_FAILED) { s.label("iterations exhausted"); EXPECT(sol.getSVDResult() < 0, "SVD result"); MNEAR(o.data, VX(VX::Zero(nj)), 0, "rates after a failed decomposition"); continue; }
        bool lost = d.r < std::min(6, nj); EXPECT(rc == (lost ? (int)ChainIkSolverVel_pinv::E_CONVERGE_PINV_SINGULAR : 0), "returned " << rc << ", rank " << d.r << " of " << nj << " joints"); EXPECT((int)sol.getNrZeroSigmas() == nj - d.r && sol.getSVDResult() == 0, "zero singular values " << sol.getNrZeroSigmas()); s.label(lost ? "singular" : nj > 6 ? "redundant" : nj < 6 ? "few joints" : "square");
        double top = d.s(0), tol = 1e-12 * (1 + mx(v)) * (1 + top) * (1 + top) / (d.r ? std::min(1.0, d.gapHi * std::min(1.0, gap(d))) : 1); MNEAR(o.data, pinvRef(d, v), tol, "minimum-norm least-squares rates"); if (in && d.gapLo < 1e-12) MNEAR(MX(J * o.data), v, tol * (1 + top) * 4, "a producible twist is produced");
    }
}
LAW(givens, 60000, "the same for the plane-rotation solver, several related calls per solver; exact rank decisions; non-trivial: two or more joints and a non-zero twist") {
    CSpec c = ikchain(s, 1, 9); Chain C = c.build(); int nj = c.nj(); ChainIkSolverVel_pinv_givens sol(C); NOTE(str(c)); VX q = posture(s, nj);
    for (int r = 0, R = s.range(1, 5); r < R; ++r) {
        if (r) { if (s.flip()) q = posture(s, nj); else q += jvecu(s, nj, 0.05); } MX J = jac(c, q, c.ns()); Svd d0 = svdAt(J, 1e-300); double top = d0.s(0), thr = 1e-7 * top; Svd d = svdAt(J, std::max(thr, 1e-300)); bool in; V6 v = wantTwist(s, J, in); NOTE("q " << str(q.transpose()) << " twist " << str(v.transpose())); JntArray o = kj(VX::Constant(nj, 5.5)), kq = kj(q); int rc = sol.CartToJnt(kq, kt(v), o); EXPECT(rc == 0 && sol.getError() == 0, "returned " << rc); EXPECT(o.data.allFinite(), "finite"); MNEAR(e(kq), q, 0, "input");
        if (top > 0 && (d.gapLo > 1e-14 * top || (d.r && d.gapHi < 1e-4 * top))) { s.label("undecided rank"); continue; } s.nontrivial(nj >= 2 && mx(v) > 0); s.label(d.r < std::min(6, nj) ? "singular" : nj > 6 ? "redundant" : nj < 6 ? "few joints" : "square"); double hi = d.r ? d.gapHi : 1;
        MNEAR(o.data, pinvRef(d, v), 1e-7 * (1 + mx(v)) * (top / hi) * (1 / hi + 1), "minimum-norm least-squares rates");
    }
}
LAW(nullspace, 60000, "the null-space solver at its optimum or with zero gain: the plain pseudo-inverse; non-trivial: two or more joints and a non-zero twist") {
    CSpec c = ikchain(s, 1, 9); Chain C = c.build(); int nj = c.nj(); double eps = s.pick(std::vector<double>{1e-5, 1e-3, 0.1}); bool zero = s.flip(); VX q = posture(s, nj); ChainIkSolverVel_pinv_nso sol(C, kj(zero ? jvec(s, nj, 3) : q), kj(jvec(s, nj, 2)), eps, 150, zero ? 0 : s.uni(0, 2)); NOTE(str(c));
    MX J = jac(c, q, c.ns()); Svd d = svdAt(J, eps); if (!decided(d, eps)) s.discard(); bool in; V6 v = wantTwist(s, J, in); s.nontrivial(nj >= 2 && mx(v) > 0); NOTE("q " << str(q.transpose()) << " twist " << str(v.transpose())); JntArray o = kj(VX::Constant(nj, 5.5)); int rc = sol.CartToJnt(kj(q), kt(v), o); EXPECT(rc == 0 && sol.getSVDResult() == 0, "returned " << rc);
    double top = d.s(0), tol = 1e-12 * (1 + mx(v)) * (1 + top) * (1 + top) / (d.r ? std::min(1.0, d.gapHi * std::min(1.0, gap(d))) : 1); MNEAR(o.data, pinvRef(d, v), tol, "minimum-norm least-squares rates");
}
