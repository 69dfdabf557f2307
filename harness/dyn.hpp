// Shared helpers of the dynamics harnesses: reference torques by projecting Newton-Euler equations, error scales.
#pragma once
#include "gen.hpp"
#include "chainidsolver.hpp"
#include "treeidsolver.hpp"
namespace g {
inline double lenOf(const CSpec& c) { double L = 1; for (auto& x : c.s) L += P3(x.tip).norm() + 2 * x.j.org().norm() + std::fabs(x.j.scale) * 4 + std::fabs(x.j.offset); return L; }
inline double lenOf(const TSpec& t) { double L = 1; for (auto& n : t.n) L += P3(n.s.tip).norm() + 2 * n.s.j.org().norm() + std::fabs(n.s.j.scale) * 4 + std::fabs(n.s.j.offset); return L; }
inline std::vector<Body> bodies(const TSpec& t, const VX& q, const VX& qd, const VX& qdd) {
    auto T = fk(t, q, qd, qdd); std::vector<Body> b; int n = t.nj();
    for (size_t i = 0; i < t.n.size(); ++i) {
        CSpec c = pathspec(t, (int)i); auto pth = t.path((int)i); VX qc(c.nj()); std::vector<int> idx;
        for (int a : pth) if (t.n[a].s.j.movable()) { qc((int)idx.size()) = q(t.jnr(a)); idx.push_back(t.jnr(a)); }
        MX Jc = jac(c, qc, c.ns()), J = MX::Zero(6, n); for (size_t z = 0; z < idx.size(); ++z) J.col(idx[z]) = Jc.col((int)z);
        b.push_back({T[i], t.n[i].s.I, J});
    }
    return b;
}
inline VX jointInertias(const TSpec& t) { VX d(t.nj()); int j = 0; for (auto& n : t.n) if (n.s.j.movable()) d(j++) = n.s.j.inertia; return d; }
// torques needed for the motion when every body i feels the wrench w[i] (in its own frame, at its origin)
inline VX invdyn(const std::vector<Body>& bs, const VX& Jm, const VX& qdd, const V3& grav, const std::vector<V6>& w) {
    int n = (int)Jm.size(); VX tau = kane(bs, n, grav) + Jm.cwiseProduct(qdd);
    for (size_t i = 0; i < bs.size(); ++i) { M3 R = R3(bs[i].T.a); V6 x; x << R * w[i].head<3>(), R * w[i].tail<3>(); tau -= bs[i].J.transpose() * x; }
    return tau;
}
// magnitude of the terms that are summed up in the torques, the unit of rounding errors
inline double dynScale(const std::vector<Body>& bs, const V3& grav, const std::vector<V6>& w, double L) {
    double S = 1;
    for (size_t i = 0; i < bs.size(); ++i) {
        auto& b = bs[i]; V6 tw = twistOf(b.T), at = acctwistOf(b.T); double om = tw.tail<3>().norm(), v = tw.head<3>().norm(), c = b.I.c.norm(), J = std::max(1.0, mx(b.J)), I = mx(b.I.Ic) + b.I.m * c * c;
        double a = at.head<3>().norm() + grav.norm() + om * (v + om * L), al = at.tail<3>().norm() + om * om;
        S += J * L * (b.I.m * (a + al * c) * (1 + c) + I * al + (w.empty() ? 0 : mx(w[i])));
    }
    return S;
}
inline std::vector<V6> wrenches(Src& s, int n) { std::vector<V6> w; int kd = (int)s.raw(4); for (int i = 0; i < n; ++i) w.push_back(kd == 0 ? V6(V6::Zero()) : (kd == 1 && s.flip()) ? V6(V6::Zero()) : e(wrench(s, 10))); return w; }
inline Wrenches kws(const std::vector<V6>& w) { Wrenches r; for (auto& x : w) r.push_back(kw(x)); return r; }
inline V3 gravity(Src& s) { int k = (int)s.raw(4); if (k == 0) return V3(0, 0, -9.81); if (k == 1) return V3::Zero(); return e(vec(s, 10)); }
inline GenOpt dynopt() { GenOpt o; o.dyn = true; o.jinertia = true; o.jdamp = true; return o; }
}
