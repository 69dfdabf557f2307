#include "ik.hpp"
#include "chainfksolverpos_recursive.hpp"
#include "chainiksolvervel_wdls.hpp"
#include "chainiksolvervel_pinv.hpp"
#include "chainiksolvervel_pinv_nso.hpp"
#include "chainiksolvervel_pinv_givens.hpp"
#include "chainiksolverpos_nr.hpp"
#include "chainiksolverpos_nr_jl.hpp"
#include "chainiksolverpos_lma.hpp"
#include <limits>
#include <memory>
using namespace g;

// a velocity solver that counts its calls, and can be told to fail at the n-th
struct Counted : ChainIkSolverVel { ChainIkSolverVel& in; int calls = 0, failAt = -1, code = -3, worst = 0, last = 0; Counted(ChainIkSolverVel& i) : in(i) {} int CartToJnt(const JntArray& q, const Twist& v, JntArray& o) { ++calls; if (calls == failAt) return error = code; last = in.CartToJnt(q, v, o); worst = std::max(worst, last); return error = last; } int CartToJnt(const JntArray&, const FrameVel&, JntArrayVel&) { return -1; } void updateInternalDataStructures() { in.updateInternalDataStructures(); } };
struct CountedFk : ChainFkSolverPos { ChainFkSolverPos_recursive in; int calls = 0, failAt = -1; CountedFk(const Chain& c) : in(c) {} int JntToCart(const JntArray& q, Frame& f, int n = -1) { ++calls; if (calls == failAt) return error = -4; return error = in.JntToCart(q, f, n); } int JntToCart(const JntArray& q, std::vector<Frame>& f, int n = -1) { return in.JntToCart(q, f, n); } void updateInternalDataStructures() { in.updateInternalDataStructures(); } };
static V6 gapTo(const M4& T, const M4& G) { V6 d; d << V3(P3(G) - P3(T)), V3(R3(T) * logm3(R3(T).transpose() * R3(G))); return d; }
static M4 target(Src& s, const CSpec& c, const VX& q0, int& kd) { kd = (int)s.raw(5); int n = c.nj(); if (kd == 0) return fkn(c, q0, c.ns()); if (kd == 1) return fkn(c, VX(q0 + jvecu(s, n, 0.1)), c.ns()); if (kd == 2) return fkn(c, jvec(s, n, 3), c.ns()); if (kd == 3) return frameM(s, 3); M4 T = fkn(c, q0, c.ns()); T.block<3, 1>(0, 3) += e(vec(s, 0.5)); return T; }
static std::unique_ptr<ChainIkSolverVel> velsolver(Src& s, const Chain& C, int nj, std::string& what) { int kd = (int)s.raw(4); double eps = s.pick(std::vector<double>{1e-5, 1e-3}); if (kd == 0) { what = "pinv"; return std::unique_ptr<ChainIkSolverVel>(new ChainIkSolverVel_pinv(C, eps)); } if (kd == 1) { what = "wdls"; auto* w = new ChainIkSolverVel_wdls(C, eps); w->setLambda(s.pick(std::vector<double>{0, 0.01, 0.1})); return std::unique_ptr<ChainIkSolverVel>(w); } if (kd == 2) { what = "givens"; return std::unique_ptr<ChainIkSolverVel>(new ChainIkSolverVel_pinv_givens(C)); } what = "nso"; return std::unique_ptr<ChainIkSolverVel>(new ChainIkSolverVel_pinv_nso(C, kj(jvec(s, nj, 2)), kj(VX::Ones(nj)), eps)); }

LAW(newton, 20000, "chains of 0..8 joints of any structure, targets at the start, nearby, far, shifted and random, tolerances and iteration limits, four velocity solvers, several calls per solver: a non-negative return means forward kinematics of the returned joints is at the target; codes, budget and finiteness otherwise; non-trivial: at least one iteration that moves") {
    CSpec c = ikchain(s, s.chance(1, 20) ? 0 : 1, 8); Chain C = c.build(); int nj = c.nj(); double eps = s.pick(std::vector<double>{1e-6, 1e-6, 1e-4, 1e-2, 1e-9}); int lim = s.pick(std::vector<int>{100, 100, 20, 3, 1}); std::string what; auto vs = velsolver(s, C, nj, what); Counted cv(*vs); CountedFk fkS(C); ChainIkSolverPos_NR sol(C, fkS, cv, lim, eps); NOTE(str(c) << "eps " << eps << " limit " << lim << " " << what);
    for (int r = 0, R = s.range(1, 3); r < R; ++r) {
        VX q0 = posture(s, nj); int kd; M4 G = target(s, c, q0, kd); JntArray o = kj(VX::Constant(nj, 7)), qi = kj(q0); NOTE("start " << str(q0.transpose()) << "\ntarget " << str(G)); cv.calls = fkS.calls = 0; cv.worst = 0; int rc = sol.CartToJnt(qi, k(G), o);
        EXPECT(rc == sol.getError(), "returned " << rc << ", getError " << sol.getError()); EXPECT(rc == 0 || rc == SolverI::E_DEGRADED || rc == SolverI::E_MAX_ITERATIONS_EXCEEDED, "returned " << rc); EXPECT(cv.calls <= lim && fkS.calls <= lim, "budget: " << cv.calls << " velocity solutions"); EXPECT(o.data.allFinite(), "finite joints"); MNEAR(e(qi), q0, 0, "input"); s.nontrivial(cv.calls > 1); s.label(rc >= 0 ? "reached" : "not reached");
        if (rc >= 0) { V6 d = gapTo(fkn(c, e(o), c.ns()), G); double sc = 1 + mx(e(o)); EXPECT(mx(d.head<3>()) <= eps + 1e-12 * sc * 10 && mx(d.tail<3>()) <= std::max(eps, 2e-6) + 1e-12 * sc, "reported success at distance " << str(d.transpose()) << " joints " << str(e(o).transpose())); EXPECT((rc == SolverI::E_DEGRADED) == (cv.last > 0), "degraded " << rc << " velocity solver " << cv.last); }
        else EXPECT(cv.calls == lim, "gave up after " << cv.calls);
    }
    int at = s.range(1, 3); bool fkfail = s.flip(); VX q0 = posture(s, nj); int kd; M4 G = target(s, c, q0, kd); cv.calls = fkS.calls = 0; (fkfail ? fkS.failAt : cv.failAt) = at; JntArray o(nj); int rc = sol.CartToJnt(kj(q0), k(G), o); if ((fkfail ? fkS.calls : cv.calls) >= at) { EXPECT(rc == (fkfail ? (int)ChainIkSolverPos_NR::E_FKSOLVERPOS_FAILED : (int)ChainIkSolverPos_NR::E_IKSOLVER_FAILED) && sol.getError() == rc, "failing sub-solver: returned " << rc); EXPECT((fkfail ? fkS.calls : cv.calls) == at, "goes on after a failure"); }
}
LAW(limits, 20000, "the same with joint limits (given, changed, default, also degenerate ones), start positions inside and outside the limits: joints within the limits whenever a result is reported, and success only at the target; non-trivial: at least one iteration that moves") {
    CSpec c = ikchain(s, s.chance(1, 20) ? 0 : 1, 8); Chain C = c.build(); int nj = c.nj(); double eps = s.pick(std::vector<double>{1e-6, 1e-6, 1e-4, 1e-2, 1e-9}); int lim = s.pick(std::vector<int>{100, 100, 20, 3, 1}); std::string what; auto vs = velsolver(s, C, nj, what); Counted cv(*vs); CountedFk fkS(C); double inf = std::numeric_limits<double>::max(); VX lo(nj), hi(nj);
    auto mk = [&] { bool wide = s.chance(1, 3); for (int i = 0; i < nj; ++i) { lo(i) = s.uni(-3, 2); hi(i) = lo(i) + (s.chance(1, 12) ? 0 : s.uni(0, wide ? 6 : 2)); if (s.chance(1, 12)) lo(i) = -inf; if (s.chance(1, 12)) hi(i) = inf; } }; bool dflt = s.chance(1, 4); if (dflt) { lo.setConstant(-inf); hi.setConstant(inf); } else mk();
    std::unique_ptr<ChainIkSolverPos_NR_JL> sol(dflt ? new ChainIkSolverPos_NR_JL(C, fkS, cv, lim, eps) : new ChainIkSolverPos_NR_JL(C, kj(lo), kj(hi), fkS, cv, lim, eps)); NOTE(str(c) << "eps " << eps << " limit " << lim << " " << what << (dflt ? " default limits" : ""));
    for (int r = 0, R = s.range(1, 3); r < R; ++r) {
        if (r && s.chance(1, 3)) { mk(); EXPECT(sol->setJointLimits(kj(lo), kj(hi)) == 0, "set limits"); EXPECT(sol->setJointLimits(kj(VX::Zero(nj + 1)), kj(hi)) == SolverI::E_SIZE_MISMATCH && sol->setJointLimits(kj(lo), kj(VX::Zero(nj + 2))) == SolverI::E_SIZE_MISMATCH, "limits of a wrong size"); }
        VX q0 = posture(s, nj); if (!s.chance(1, 4)) for (int i = 0; i < nj; ++i) if (q0(i) < lo(i) || q0(i) > hi(i)) q0(i) = std::max(lo(i), -4.0) + s.unit() * (std::min(hi(i), 4.0) - std::max(lo(i), -4.0)); for (int i = 0; i < nj; ++i) if (!(std::fabs(q0(i)) < 10)) q0(i) = 0; bool inside = true; for (int i = 0; i < nj; ++i) inside = inside && q0(i) >= lo(i) && q0(i) <= hi(i); s.label(inside ? "start within limits" : "start outside limits");
        int kd; M4 G = target(s, c, q0, kd); JntArray o = kj(VX::Constant(nj, 7)), qi = kj(q0); NOTE("limits " << str(lo.transpose()) << " .. " << str(hi.transpose()) << "\nstart " << str(q0.transpose()) << "\ntarget " << str(G)); cv.calls = fkS.calls = 0; int rc = sol->CartToJnt(qi, k(G), o);
        EXPECT(rc == sol->getError(), "returned " << rc << ", getError " << sol->getError()); EXPECT(rc == 0 || rc == SolverI::E_MAX_ITERATIONS_EXCEEDED, "returned " << rc); EXPECT(cv.calls <= lim, "budget"); EXPECT(o.data.allFinite(), "finite joints"); MNEAR(e(qi), q0, 0, "input"); s.nontrivial(cv.calls > 0); s.label(rc >= 0 ? "reached" : "not reached");
        for (int i = 0; i < nj; ++i) EXPECT(o(i) >= lo(i) && o(i) <= hi(i), "joint " << i << " = " << o(i) << " outside its limits, returned " << rc);
        if (rc >= 0) { V6 d = gapTo(fkn(c, e(o), c.ns()), G); double sc = 1 + mx(e(o)); EXPECT(mx(d.head<3>()) <= eps + 1e-12 * sc * 10 && mx(d.tail<3>()) <= std::max(eps, 2e-6) + 1e-12 * sc, "reported success at distance " << str(d.transpose()) << " joints " << str(e(o).transpose())); }
        else EXPECT(cv.calls == lim, "gave up after " << cv.calls);
        if (kd == 0 && inside) { EXPECT(rc == 0, "start at the target: returned " << rc); MNEAR(e(o), q0, 0, "start at the target"); }
    }
    int at = s.range(1, 3); bool fkfail = s.flip(); VX q0 = posture(s, nj); int kd; M4 G = target(s, c, q0, kd); cv.calls = fkS.calls = 0; (fkfail ? fkS.failAt : cv.failAt) = at; JntArray o(nj); int rc = sol->CartToJnt(kj(q0), k(G), o); if ((fkfail ? fkS.calls : cv.calls) >= at) { EXPECT(rc == (fkfail ? (int)ChainIkSolverPos_NR_JL::E_FKSOLVERPOS_FAILED : (int)ChainIkSolverPos_NR_JL::E_IKSOLVERVEL_FAILED) && sol->getError() == rc, "failing sub-solver: returned " << rc); EXPECT((fkfail ? fkS.calls : cv.calls) == at, "goes on after a failure"); }
}
LAW(levenberg, 20000, "Levenberg-Marquardt with the default, random, partly zero task weights, tolerances and limits, several calls per solver: success means the weighted distance of the returned joints is below the tolerance; the weighted distance never grows; reported iteration count, remaining differences and singular values belong to the returned joints; non-trivial: at least one iteration") {
    CSpec c = ikchain(s, s.chance(1, 20) ? 0 : 1, 8); Chain C = c.build(); int nj = c.nj(); double eps = s.pick(std::vector<double>{1e-5, 1e-5, 1e-3, 1e-8, 0.1}); int lim = s.pick(std::vector<int>{500, 100, 20, 3, 1}); double ej = s.pick(std::vector<double>{1e-15, 1e-15, 1e-6}); V6 L; bool dflt = s.flip(); L << 1, 1, 1, .01, .01, .01; if (!dflt) for (int i = 0; i < 6; ++i) L(i) = s.chance(1, 4) ? 0 : s.uni(0.01, 2);
    std::unique_ptr<ChainIkSolverPos_LMA> sol(dflt ? new ChainIkSolverPos_LMA(C, eps, lim, ej) : new ChainIkSolverPos_LMA(C, L, eps, lim, ej)); NOTE(str(c) << "eps " << eps << " limit " << lim << " joint eps " << ej << " weights " << str(L.transpose()));
    for (int r = 0, R = s.range(1, 3); r < R; ++r) {
        VX q0 = posture(s, nj); int kd; M4 G = target(s, c, q0, kd); JntArray o = kj(VX::Constant(nj, 7)), qi = kj(q0); NOTE("start " << str(q0.transpose()) << "\ntarget " << str(G)); int rc = sol->CartToJnt(qi, k(G), o);
        EXPECT(rc == sol->getError() && sol->strError(rc) != 0, "returned " << rc << ", getError " << sol->getError()); EXPECT(rc == 0 || rc == SolverI::E_MAX_ITERATIONS_EXCEEDED || rc == ChainIkSolverPos_LMA::E_GRADIENT_JOINTS_TOO_SMALL || rc == ChainIkSolverPos_LMA::E_INCREMENT_JOINTS_TOO_SMALL, "returned " << rc); EXPECT(sol->lastNrOfIter >= 0 && sol->lastNrOfIter <= lim, "iterations " << sol->lastNrOfIter); EXPECT(o.data.allFinite(), "finite joints"); MNEAR(e(qi), q0, 0, "input"); s.nontrivial(sol->lastNrOfIter > 0); s.label(rc >= 0 ? "reached" : rc == SolverI::E_MAX_ITERATIONS_EXCEEDED ? "iterations exhausted" : "stuck");
        V6 d0 = gapTo(fkn(c, q0, c.ns()), G), d = gapTo(fkn(c, e(o), c.ns()), G); double w0 = L.cwiseProduct(d0).norm(), w = L.cwiseProduct(d).norm(), sc = 1e-12 * (1 + mx(e(o))) * 10, slack = 3e-6 * mx(L.tail<3>()) + sc; EXPECT(rc < 0 || w < eps + slack, "reported success at weighted distance " << w << " joints " << str(e(o).transpose())); EXPECT(w <= w0 + slack, "weighted distance grew from " << w0 << " to " << w); if (w0 < eps * 0.99 - slack) { EXPECT(rc == 0 && sol->lastNrOfIter == 0, "start at the target: returned " << rc); MNEAR(e(o), q0, 0, "start at the target"); }
        double an = d.tail<3>().norm(); bool odd = M_PI - an < 1e-3; NEAR(sol->lastDifference, w, slack + (odd ? 1 : 0), "reported weighted difference, returned " << rc); NEAR(sol->lastTransDiff, d.head<3>().norm(), sc, "reported translational difference, returned " << rc); NEAR(sol->lastRotDiff, an, 3e-6 + (odd ? 1e-2 : 0), "reported rotational difference, returned " << rc);
        EXPECT(sol->lastSV.size() == std::min(6, nj) && sol->lastSV.allFinite(), "reported singular values"); if (rc != SolverI::E_MAX_ITERATIONS_EXCEEDED && (rc < 0 || sol->lastNrOfIter == 0) && w0 * 0 == 0 && (rc < 0 || w0 < eps * 0.99 - slack)) { Svd v = svdAt(MX(L.asDiagonal() * jac(c, e(o), c.ns())), 1e-9); for (int i = 0; i < std::min(6, nj); ++i) NEAR(sol->lastSV(i), v.s(i), (1e-9 + sc) * (1 + v.s(0)), "reported singular value " << i << ", returned " << rc); }
    }
}
LAW(converges, 20000, "regular solutions (smallest singular value bounded away from zero) started from nearby: all solvers reach the target, to at least the tolerance; non-trivial: a start that differs from the solution") {
    GenOpt o; o.offset = true; CSpec c = s.flip() ? ikchain(s, 1, 8) : cspec_mov(s, o, 5, 8); Chain C = c.build(); int nj = c.nj(); if (!nj) s.discard(); VX qs = posture(s, nj); MX J = jac(c, qs, c.ns()); Svd d = svdAt(J, 1e-9); if (d.r < std::min(6, nj) || d.gapHi < 0.05) s.discard(); double S = 1 + mx(J), K = 1; for (auto& x : c.s) if (x.j.movable()) K = std::max(K, std::fabs(x.j.scale)); double del = 0.05 * d.gapHi / (nj * S * K * (1 + K)); if (!(del > 1e-7)) s.discard(); VX q0 = qs + jvecu(s, nj, del); M4 G = fkn(c, qs, c.ns()); NOTE(str(c) << "solution " << str(qs.transpose()) << " start " << str(q0.transpose())); s.nontrivial(mx(q0 - qs) > 0); int kd = (int)s.raw(3); s.label(nj < 6 ? "few joints" : nj == 6 ? "square" : "redundant"); JntArray out(nj); int rc; double eps = 1e-6;
    ChainFkSolverPos_recursive f(C); std::string what; int vk = (int)s.raw(3); std::unique_ptr<ChainIkSolverVel> v(vk == 0 ? (ChainIkSolverVel*)new ChainIkSolverVel_pinv(C) : vk == 1 ? (ChainIkSolverVel*)new ChainIkSolverVel_wdls(C) : new ChainIkSolverVel_pinv_givens(C)); if (kd == 0) { what = "NR"; ChainIkSolverPos_NR n(C, f, *v, 100, eps); rc = n.CartToJnt(kj(q0), k(G), out); } else if (kd == 1) { what = "NR_JL"; ChainIkSolverPos_NR_JL n(C, kj(VX(qs.array() - 1)), kj(VX(qs.array() + 1)), f, *v, 100, eps); rc = n.CartToJnt(kj(q0), k(G), out); } else { what = "LMA"; ChainIkSolverPos_LMA n(C); rc = n.CartToJnt(kj(q0), k(G), out); eps = 1e-5; }
    EXPECT(rc == 0, what << " with velocity solver " << vk << " returned " << rc << " at joints " << str(e(out).transpose())); V6 g6 = gapTo(fkn(c, e(out), c.ns()), G); if (kd == 2) g6.tail<3>() *= 0.01; EXPECT(mx(g6) < eps + 2e-6, what << " missed the target by " << str(g6.transpose()));
}
LAW(history, 6000, "a solver that has served other requests answers a request exactly like a new one; non-trivial: a request that takes iterations") {
    CSpec c = ikchain(s, 1, 8); Chain C = c.build(); int nj = c.nj(); NOTE(str(c)); int kd = (int)s.raw(3); ChainFkSolverPos_recursive f(C); ChainIkSolverVel_pinv v(C), v2(C); ChainIkSolverPos_NR n(C, f, v), n2(C, f, v2); ChainIkSolverPos_NR_JL l(C, kj(VX::Constant(nj, -2)), kj(VX::Constant(nj, 2)), f, v), l2(C, kj(VX::Constant(nj, -2)), kj(VX::Constant(nj, 2)), f, v2); ChainIkSolverPos_LMA m(C), m2(C); ChainIkSolverPos& a = kd == 0 ? (ChainIkSolverPos&)n : kd == 1 ? (ChainIkSolverPos&)l : m; ChainIkSolverPos& b = kd == 0 ? (ChainIkSolverPos&)n2 : kd == 1 ? (ChainIkSolverPos&)l2 : m2; JntArray o(nj), p(nj); int t;
    for (int i = 0, K = s.range(1, 3); i < K; ++i) { VX q = posture(s, nj); a.CartToJnt(kj(q), k(target(s, c, q, t)), o); } VX q = posture(s, nj); M4 G = target(s, c, q, t); NOTE("start " << str(q.transpose()) << "\ntarget " << str(G)); int ra = a.CartToJnt(kj(q), k(G), o), rb = b.CartToJnt(kj(q), k(G), p); EXPECT(ra == rb, ra << " after other requests, " << rb << " from a new solver"); MNEAR(e(o), e(p), 0, "joints"); s.nontrivial(t != 0);
    if (kd == 2) { EXPECT(m.lastNrOfIter == m2.lastNrOfIter, "iterations"); NEAR(m.lastDifference, m2.lastDifference, 0, "difference"); NEAR(m.lastTransDiff, m2.lastTransDiff, 0, "translational difference"); NEAR(m.lastRotDiff, m2.lastRotDiff, 0, "rotational difference"); MNEAR(VX(m.lastSV), VX(m2.lastSV), 0, "singular values"); }
}
