#include "ik.hpp"
#include "treefksolverpos_recursive.hpp"
#include "treeiksolvervel_wdls.hpp"
#include "treeiksolverpos_nr_jl.hpp"
#include "treeiksolverpos_online.hpp"
#include <memory>
#include <set>
#include <algorithm>
using namespace g;

static TSpec iktree(Src& s, int lo, int hi) { GenOpt o; o.offset = true; TSpec t; int kd = (int)s.raw(3); if (kd == 2) { int n = s.range(lo, hi); for (int i = 0; i < n; ++i) { SSpec x; x.name = std::string(1, (char)('a' + s.raw(26))) + std::to_string(i); x.j.name = "j" + x.name; x.j.type = s.chance(1, 4) ? Joint::TransX : Joint::RotZ; x.tip = mk4(M3::Identity(), V3(s.flip() ? 1 : s.uni(0.1, 1), 0, 0)); t.n.push_back({x, (int)s.raw(i + 1) - 1}); } } else t = tspec(s, o, lo, hi); if (!t.nj()) { GenOpt p = o; p.fixed = false; t.n.push_back({sspec(s, p, "m" + std::to_string(t.n.size())), (int)t.n.size() - 1}); } return t; }
static std::vector<int> endpoints(Src& s, const TSpec& t) { std::vector<int> v; int n = (int)t.n.size(); int k = s.range(1, std::min(4, n)); for (int i = 0; i < k; ++i) { int x = s.chance(1, 15) ? -1 : (int)s.raw(n); if (std::find(v.begin(), v.end(), x) == v.end() || s.chance(1, 10)) v.push_back(x); } return v; }
static std::string name(const TSpec& t, int i) { return i < 0 ? t.root : t.n[i].s.name; }
static std::vector<std::string> names(const TSpec& t, const std::vector<int>& v) { std::vector<std::string> r; for (int i : v) r.push_back(name(t, i)); return r; }
static M4 tip(const TSpec& t, const VX& q, int i) { return i < 0 ? M4(M4::Identity()) : fk(t, q, VX(), VX())[i].a; }
// rows of endpoint i for all joints of the tree
static MX tjac(const TSpec& t, const VX& q, int i) { MX J = MX::Zero(6, t.nj()); if (i < 0) return J; CSpec c = pathspec(t, i); auto p = t.path(i); VX qc(c.nj()); std::vector<int> ix; for (int a : p) if (t.n[a].s.j.movable()) { qc((int)ix.size()) = q(t.jnr(a)); ix.push_back(t.jnr(a)); } MX j = jac(c, qc, c.ns()); for (size_t a = 0; a < ix.size(); ++a) J.col(ix[a]) = j.col(a); return J; }
// distinct endpoints in the order in which the solver stacks them
static std::vector<int> order(const TSpec& t, const std::vector<int>& v) { std::map<std::string, int> m; for (int i : v) m[name(t, i)] = i; std::vector<int> r; for (auto& x : m) r.push_back(x.second); return r; }
static MX wmat(Src& s, int n) { int kd = (int)s.raw(4); MX W = MX::Identity(n, n); if (kd == 0) return W; if (kd == 1) { for (int i = 0; i < n; ++i) W(i, i) = s.uni(0.2, 3); return W; } if (kd == 2) { for (int i = 0; i < n; ++i) W(i, i) = s.flip() ? 0 : s.uni(0.2, 3); return W; } MX A(n, n); for (int i = 0; i < n; ++i) for (int j = 0; j < n; ++j) A(i, j) = s.uni(-1, 1); return A * A.transpose() / n + 0.3 * MX::Identity(n, n); }
struct Ref { bool decided; VX x; double norm, tol; };
static Ref wdls(const MX& J, const VX& t, const MX& Wq, const MX& Wy, double lam) { Ref r; MX B = Wy * J * Wq; Svd d0 = svdAt(B, 1e-300); double top = d0.s.size() ? d0.s(0) : 0; Svd d = svdAt(B, std::max(1e-7 * top, 1e-300)); double scale = mx(Wy) * mx(J) * mx(Wq); r.decided = lam > 0 || !(scale > 0) || !(top < 1e-4 * scale || d.gapLo > 1e-13 * top || (d.r && d.gapHi < 1e-4 * top)); VX w = Wy * t, y = VX::Zero(J.cols()); for (int i = 0; i < d.s.size(); ++i) { double f = lam > 0 ? d.s(i) / (d.s(i) * d.s(i) + lam * lam) : i < d.r ? 1 / d.s(i) : 0; y += d.V.col(i) * (f * d.U.col(i).dot(w)); } r.x = Wq * y; r.norm = w.norm(); double hi = d.r ? d.gapHi : 1; r.tol = 1e-11 * (1 + mx(w)) * (1 + mx(Wq)) * (1 + top) * (1 + top) * (lam > 0 ? 1 + 1 / (lam * lam) : 1 / std::min(1.0, hi * hi)); return r; }

LAW(velocity, 30000, "trees of 1..10 segments with any branching and names in any order, 1..4 endpoints anywhere (also the root, repeated, nested), weights, damping including none, twists for all or some endpoints, several calls per solver: rates of the stacked weighted damped least-squares problem, an endpoint without a twist standing still; return value the weighted norm of the twists; unknown endpoints and sizes refused; non-trivial: two or more joints and endpoints and a non-zero twist") {
    TSpec t = iktree(s, 1, 10); Tree T = t.build(); int nj = t.nj(); auto ep = endpoints(s, t); auto od = order(t, ep); int m = 6 * (int)ep.size(); TreeIkSolverVel_wdls sol(T, names(t, ep)); MX Wq = MX::Identity(nj, nj), Wy = MX::Identity(m, m); double lam = 0; NOTE(str(t)); for (int i : ep) NOTE("endpoint " << name(t, i));
    for (int r = 0, R = s.range(1, 3); r < R; ++r) {
        if (s.flip()) { Wq = wmat(s, nj); sol.setWeightJS(Wq); MNEAR(sol.getWeightJS(), Wq, 0, "joint weights"); } if (s.flip()) { Wy = wmat(s, m); sol.setWeightTS(Wy); MNEAR(sol.getWeightTS(), Wy, 0, "task weights"); } if (s.flip()) { lam = s.pick(std::vector<double>{0, 0.01, 0.1, 1}); sol.setLambda(lam); EXPECT(sol.getLambda() == lam, "lambda"); }
        VX q = posture(s, nj); MX J = MX::Zero(m, nj); VX tw = VX::Zero(m); Twists in; bool part = s.chance(1, 4); int k = 0; for (int i : od) { J.block(6 * k, 0, 6, nj) = tjac(t, q, i); if (!part || s.flip()) { V6 v = e(twist(s, 1)); if (s.chance(1, 4)) v = J.block(6 * k, 0, 6, nj) * jvecu(s, nj, 1); tw.segment<6>(6 * k) = v; in[name(t, i)] = kt(v); } ++k; } s.label(in.size() < od.size() ? "some twists" : "all twists"); NOTE("q " << str(q.transpose()) << " twists " << str(tw.transpose()) << (in.size() < od.size() ? " (some not given)" : "") << " lambda " << lam << "\nWq " << str(Wq) << "\nWy " << str(Wy)); s.nontrivial(nj >= 2 && od.size() >= 2 && mx(tw) > 0);
        Ref ref = wdls(J, tw, Wq, Wy, lam); JntArray o = kj(VX::Constant(nj, 5.5)), qi = kj(q); double rc = sol.CartToJnt(qi, in, o); NEAR(rc, ref.norm, 1e-12 * (1 + ref.norm), "returned distance"); EXPECT((int)o.rows() == nj && o.data.allFinite(), "finite rates " << str(e(o).transpose())); MNEAR(e(qi), q, 0, "input"); if (ref.decided) MNEAR(e(o), ref.x, ref.tol, "rates"); else s.label("undecided rank"); s.label(lam > 0 ? "damped" : nj > m ? "redundant" : "overdetermined");
    }
    { Twists in; for (int i : od) in[name(t, i)] = Twist::Zero(); in["no such"] = Twist::Zero(); JntArray o(nj); EXPECT(sol.CartToJnt(kj(VX::Zero(nj)), in, o) == -2, "unknown endpoint"); in.erase("no such"); EXPECT(sol.CartToJnt(kj(VX::Zero(nj + 1)), in, o) < 0, "wrong number of joints"); }
}
// passes the question on and counts
struct CountTree : TreeIkSolverVel { TreeIkSolverVel& in; int calls = 0; explicit CountTree(TreeIkSolverVel& x) : in(x) {} double CartToJnt(const JntArray& q, const Twists& v, JntArray& o) { ++calls; return in.CartToJnt(q, v, o); } };
LAW(position, 12000, "the tree position solver with limits, targets at, near, far from and unrelated to the start, for all or some endpoints, several calls per solver: a non-negative value means all given endpoints are within the tolerance (weighted), limits hold for every result, exhausted budget gives -3, unknown endpoints -2; independent of earlier calls; non-trivial: at least one moving iteration") {
    TSpec t = iktree(s, 1, 8); Tree T = t.build(); int nj = t.nj(); auto ep = endpoints(s, t); auto od = order(t, ep); int m = 6 * (int)ep.size(); double eps = s.pick(std::vector<double>{1e-6, 1e-4, 1e-2}); int lim = s.pick(std::vector<int>{100, 20, 3, 1}); VX lo(nj), hi(nj); for (int i = 0; i < nj; ++i) { lo(i) = s.uni(-3, 1); hi(i) = lo(i) + (s.chance(1, 12) ? 0 : s.uni(0, 5)); } MX Wy = s.flip() ? MX(MX::Identity(m, m)) : wmat(s, m); double lam = s.pick(std::vector<double>{0, 0.01, 0.1});
    TreeFkSolverPos_recursive f(T); TreeIkSolverVel_wdls v(T, names(t, ep)), v2(T, names(t, ep)); v.setWeightTS(Wy); v2.setWeightTS(Wy); v.setLambda(lam); v2.setLambda(lam); CountTree cv(v); TreeIkSolverPos_NR_JL sol(T, names(t, ep), kj(lo), kj(hi), f, cv, lim, eps); NOTE(str(t)); for (int i : ep) NOTE("endpoint " << name(t, i)); NOTE("limits " << str(lo.transpose()) << " .. " << str(hi.transpose()) << " eps " << eps << " budget " << lim << " lambda " << lam << " Wy " << str(Wy));
    for (int r = 0, R = s.range(1, 3); r < R; ++r) {
        VX q0 = posture(s, nj); bool out = s.chance(1, 5); if (!out) for (int i = 0; i < nj; ++i) if (q0(i) < lo(i) || q0(i) > hi(i)) q0(i) = lo(i) + s.unit() * (hi(i) - lo(i)); for (int i = 0; i < nj; ++i) if (!out) q0(i) = std::min(hi(i), std::max(lo(i), q0(i))); int kd = (int)s.raw(5); VX qt = q0; if (kd == 1) qt += jvecu(s, nj, 0.1); if (kd == 2) qt = jvec(s, nj, 3); bool part = s.chance(1, 3); Frames in; for (int i : od) if (!part || s.flip()) in[name(t, i)] = k(kd == 3 ? frameM(s, 2) : kd == 4 ? M4(tip(t, q0, i) * mk4(M3::Identity(), e(vec(s, 0.3)))) : tip(t, qt, i)); s.label(in.size() < od.size() ? "some targets" : "all targets"); NOTE("start " << str(q0.transpose())); for (auto& x : in) NOTE("target " << x.first << " " << str(e(x.second)));
        JntArray o(nj), qi = kj(q0), o2(nj); cv.calls = 0; double rc = sol.CartToJnt(qi, in, o); MNEAR(e(qi), q0, 0, "input"); EXPECT(rc >= 0 || rc == -3, "returned " << rc); EXPECT(rc >= 0 ? cv.calls <= lim : cv.calls == lim, cv.calls << " iterations, budget " << lim << ", returned " << rc); EXPECT(o.data.allFinite(), "finite joints"); s.label(rc >= 0 ? "reached" : "not reached"); for (int i = 0; i < nj; ++i) EXPECT(o(i) >= lo(i) && o(i) <= hi(i), "joint " << i << " = " << o(i) << " outside its limits, returned " << rc);
        s.nontrivial(kd != 0 && lim > 1); VX d = VX::Zero(m); int k_ = 0; for (int i : od) { auto it = in.find(name(t, i)); if (it != in.end()) { M4 P = tip(t, e(o), i), G = e(it->second); d.segment<3>(6 * k_) = P3(G) - P3(P); d.segment<3>(6 * k_ + 3) = R3(P) * logm3(R3(P).transpose() * R3(G)); } ++k_; } double w = (Wy * d).norm(), slack = 1e-5 * mx(Wy) * m; bool odd = false; for (int j = 0; j < k_; ++j) odd = odd || M_PI - d.segment<3>(6 * j + 3).norm() < 1e-3; if (rc >= 0) { EXPECT(w < eps + slack, "reported success at weighted distance " << w << ", joints " << str(e(o).transpose())); EXPECT(rc < eps, "returned " << rc); if (!odd) NEAR(rc, w, slack, "returned distance"); }
        TreeIkSolverPos_NR_JL fresh(T, names(t, ep), kj(lo), kj(hi), f, v2, lim, eps); double r2 = fresh.CartToJnt(qi, in, o2); NEAR(rc, r2, 0, "result depends on earlier calls"); MNEAR(e(o), e(o2), 0, "joints depend on earlier calls");
    }
    { Frames in; for (int i : od) in[name(t, i)] = Frame::Identity(); in["no such"] = Frame::Identity(); JntArray o(nj); EXPECT(sol.CartToJnt(kj(VX::Zero(nj)), in, o) == -2, "unknown endpoint"); in.erase("no such"); EXPECT(sol.CartToJnt(kj(VX::Zero(nj + 1)), in, o) < 0, "wrong number of joints"); TreeIkSolverPos_NR_JL bad(T, names(t, ep), kj(lo), kj(VX(hi.head(nj - 1))), f, v, lim, eps); EXPECT(bad.CartToJnt(kj(VX::Zero(nj)), in, o) < 0, "limits of a wrong size"); }
}
LAW(converges, 12000, "full-rank stacked problems started near a solution: the tree position solver reaches the targets of all endpoints; non-trivial: a start that differs from the solution") {
    TSpec t = iktree(s, 2, 9); Tree T = t.build(); int nj = t.nj(); auto ep = endpoints(s, t); auto od = order(t, ep); int m = 6 * (int)od.size(); VX qs = posture(s, nj); MX J(m, nj); int k_ = 0; for (int i : od) J.block(6 * k_++, 0, 6, nj) = tjac(t, qs, i); Svd d = svdAt(J, 1e-7); if (!d.r || d.gapHi < 0.05 || d.gapLo > 1e-13) s.discard(); if (d.r < std::min(m, nj)) s.discard(); double K = 1, S = 1 + mx(J); for (auto& x : t.n) if (x.s.j.movable()) K = std::max(K, std::fabs(x.s.j.scale)); double del = 0.05 * d.gapHi / (nj * S * K * (1 + K)); VX q0 = qs + jvecu(s, nj, del); s.nontrivial(mx(q0 - qs) > 0); Frames in; for (int i : od) in[name(t, i)] = k(tip(t, qs, i)); TreeFkSolverPos_recursive f(T); TreeIkSolverVel_wdls v(T, names(t, ep)); TreeIkSolverPos_NR_JL sol(T, names(t, ep), kj(VX(qs.array() - 1)), kj(VX(qs.array() + 1)), f, v, 100, 1e-5); NOTE(str(t) << "solution " << str(qs.transpose()) << " start " << str(q0.transpose())); for (int i : ep) NOTE("endpoint " << name(t, i)); JntArray o(nj); double rc = sol.CartToJnt(kj(q0), in, o); EXPECT(rc >= 0, "returned " << rc << " joints " << str(e(o).transpose())); for (int i : od) { M4 P = tip(t, e(o), i), G = tip(t, qs, i); NEAR((P3(P) - P3(G)).norm(), 0, 2e-5, "position"); NEAR(rotdist(R3(P), R3(G)), 0, 2e-5, "orientation"); } s.label(od.size() > 1 ? "several endpoints" : "one endpoint");
}
// a velocity solver that records what it is asked and answers with given rates
struct Rec : TreeIkSolverVel { Twists got; VX answer; double rc = 0.5; double CartToJnt(const JntArray&, const Twists& v, JntArray& o) { got = v; o.data = answer; return rc; } };
LAW(online, 40000, "one step of the online solver over a recording velocity solver, targets from at to far away, Cartesian, joint-velocity and position limits (also zero), starts inside and outside, all or some endpoints, several calls: each endpoint's twist is the pose difference scaled as a whole by the largest overshoot so that both limits hold, joint step is the answer scaled by the largest overshoot, then clamped; non-trivial: a limit is active") {
    TSpec t = iktree(s, 1, 8); Tree T = t.build(); int nj = t.nj(); auto ep = endpoints(s, t); auto od = order(t, ep); VX lo(nj), hi(nj), vm(nj); for (int i = 0; i < nj; ++i) { lo(i) = s.uni(-3, 1); hi(i) = lo(i) + (s.chance(1, 12) ? 0 : s.uni(0, 5)); vm(i) = s.chance(1, 20) ? 0 : s.real(0.01, 2); } double xt = s.real(0.01, 2), xr = s.real(0.01, 2); TreeFkSolverPos_recursive f(T); Rec v; TreeIkSolverPos_Online sol(nj, names(t, ep), kj(lo), kj(hi), kj(vm), xt, xr, f, v); NOTE(str(t)); for (int i : ep) NOTE("endpoint " << name(t, i)); NOTE("limits " << str(lo.transpose()) << " .. " << str(hi.transpose()) << " joint speed " << str(vm.transpose()) << " speed " << xt << " " << xr);
    for (int r = 0, R = s.range(1, 3); r < R; ++r) {
        VX q = posture(s, nj); if (!s.chance(1, 5)) for (int i = 0; i < nj; ++i) q(i) = std::min(hi(i), std::max(lo(i), q(i))); v.answer = jvec(s, nj, 3); if (s.chance(1, 4)) v.answer *= 0.01; v.rc = s.chance(1, 10) ? -1 : s.uni(0, 1); bool part = s.chance(1, 3); Frames in; std::map<std::string, M4> P; for (int i : od) { M4 p = tip(t, q, i); P[name(t, i)] = p; if (part && s.flip()) continue; int kd = (int)s.raw(4); in[name(t, i)] = k(kd == 0 ? p : kd == 1 ? frameM(s, 2) : kd == 2 ? M4(mk4(M3::Identity(), e(vec(s, 2))) * p) : M4(p * mk4(rotm(unit(s), s.uni(0, 3)), V3(s.uni(-.01, .01), 0, 0)))); } NOTE("q " << str(q.transpose()) << " answer " << str(v.answer.transpose())); for (auto& x : in) NOTE("target " << x.first << " " << str(e(x.second))); bool act = false;
        JntArray o(nj), qi = kj(q); double rc = sol.CartToJnt(qi, in, o); NEAR(rc, v.rc, 0, "returned value"); MNEAR(e(qi), q, 0, "input"); EXPECT(v.got.size() == od.size(), "endpoints passed on"); for (auto& x : v.got) { V6 g = e(x.second); if (!in.count(x.first)) { MNEAR(g, V6(V6::Zero()), 0, "endpoint without a target: " << x.first); continue; } M4 G = e(in[x.first]), p = P[x.first]; V6 d; V3 l = logm3(R3(p).transpose() * R3(G)); d << V3(P3(G) - P3(p)), V3(R3(p) * l); if (l.norm() < 1e-4) d.tail<3>() = 0.5 * (R3(p) * 2 * vee(R3(p).transpose() * R3(G))); double a = d.head<3>().norm(), b = d.tail<3>().norm(), fct = 1; if (a > xt) fct = std::min(fct, xt / a); if (b > xr) fct = std::min(fct, xr / b); act = act || fct < 1; EXPECT(g.head<3>().norm() <= xt * (1 + 1e-9) && g.tail<3>().norm() <= xr * (1 + 1e-9), x.first << " exceeds the Cartesian limits: " << str(g.transpose()) << " from " << str(d.transpose())); if (M_PI - b > 1e-3) MNEAR(g, V6(fct * d), 3e-6, "twist of " << x.first); }
        if (rc < 0) continue; double sc = 1; for (int i = 0; i < nj; ++i) if (std::fabs(v.answer(i)) > vm(i)) { sc = std::min(sc, vm(i) / std::fabs(v.answer(i))); act = true; } VX x = q + sc * v.answer; for (int i = 0; i < nj; ++i) { if (x(i) < lo(i) || x(i) > hi(i)) act = true; x(i) = std::min(hi(i), std::max(lo(i), x(i))); EXPECT(o(i) >= lo(i) && o(i) <= hi(i), "joint " << i << " outside its limits"); if (q(i) >= lo(i) && q(i) <= hi(i)) EXPECT(std::fabs(o(i) - q(i)) <= vm(i) + 1e-12 * (1 + std::fabs(q(i))), "joint " << i << " moves by " << o(i) - q(i)); } MNEAR(e(o), x, 1e-12 * (1 + mx(q)), "joints"); s.nontrivial(act); s.label(act ? "limits active" : "free");
    }
    { Frames in; in["no such"] = Frame::Identity(); JntArray o(nj); EXPECT(sol.CartToJnt(kj(VX::Zero(nj)), in, o) == -2, "unknown endpoint"); v.answer = VX::Zero(nj); v.rc = 0; in.clear(); TreeIkSolverPos_Online bad(nj, names(t, ep), kj(lo), kj(VX(hi.head(nj - 1))), kj(vm), xt, xr, f, v); EXPECT(bad.CartToJnt(kj(VX::Zero(nj)), in, o) < 0, "limits of a wrong size"); }
}
LAW(weights_shape, 3000, "weights of wrong dimensions make the velocity solver refuse, not compute; non-trivial: every case") {
    TSpec t = iktree(s, 1, 8); Tree T = t.build(); int nj = t.nj(); auto ep = endpoints(s, t); TreeIkSolverVel_wdls sol(T, names(t, ep)); bool js = s.flip(); int n = js ? nj : 6 * (int)ep.size(), r = std::max(0, n + s.range(-2, 2)), c = std::max(0, n + s.range(-2, 2)); if (r == n && c == n) s.discard(); if (js) sol.setWeightJS(MX::Ones(r, c)); else sol.setWeightTS(MX::Ones(r, c)); NOTE(str(t) << (js ? "joint" : "task") << " weights " << r << "x" << c << " for " << n); s.nontrivial(); Twists in; for (int i : ep) in[name(t, i)] = Twist::Zero(); JntArray o(nj); EXPECT(sol.CartToJnt(kj(VX::Zero(nj)), in, o) < 0, "accepted");
}
