// Shared helpers of the inverse-kinematics harnesses.
#pragma once
#include "gen.hpp"
namespace g {
// joint values that include singular postures: zeros, right angles, equal values, random
inline VX posture(Src& s, int n) { int kd = (int)s.raw(5); VX q = VX::Zero(n); if (kd == 0) return q; for (int i = 0; i < n; ++i) q(i) = kd == 1 ? M_PI / 2 * ((int)s.raw(5) - 2) : kd == 2 ? (s.flip() ? 0 : s.uni(-3, 3)) : s.uni(-3, 3); return q; }
// chains with regular and with degenerate structure (repeated axes, planar, coaxial, all prismatic)
inline CSpec ikchain(Src& s, int lo, int hi) {
    GenOpt o; int kd = (int)s.raw(6); o.offset = true; CSpec c; int n = s.range(lo, hi);
    if (kd <= 2) { c = cspec(s, o, lo, hi); }
    else if (kd == 3) { for (int i = 0; i < n; ++i) { SSpec x; x.name = "p" + std::to_string(i); x.j.name = "j" + x.name; x.j.type = Joint::RotZ; x.tip = mk4(M3::Identity(), V3(s.flip() ? 1 : s.uni(0.1, 1), 0, 0)); c.s.push_back(x); } }
    else if (kd == 4) { for (int i = 0; i < n; ++i) { SSpec x; x.name = "c" + std::to_string(i); x.j.name = "j" + x.name; x.j.type = s.flip() ? Joint::RotZ : Joint::TransZ; x.j.scale = s.flip() ? 1 : s.uni(0.2, 2); x.tip = mk4(M3::Identity(), V3(0, 0, s.uni(0, 1))); if (s.chance(1, 5)) x.tip = mk4(M3::Identity(), e(vec(s, 1))); c.s.push_back(x); } }
    else { static const int T[6] = {Joint::RotX, Joint::RotY, Joint::RotZ, Joint::TransX, Joint::TransY, Joint::TransZ}; for (int i = 0; i < n; ++i) { SSpec x; x.name = "a" + std::to_string(i); x.j.name = "j" + x.name; x.j.type = T[s.raw(6)]; x.tip = mk4(s.flip() ? M3(M3::Identity()) : rotM(s), V3(0, 0, s.flip() ? 0 : 1)); c.s.push_back(x); } }
    if (c.nj() == 0 && lo > 0) { GenOpt p = o; p.fixed = false; c.s.push_back(sspec(s, p, "x")); }
    return c;
}
// a desired twist: zero, in the range of J, arbitrary, along one axis
inline V6 wantTwist(Src& s, const MX& J, bool& inrange) { int kd = (int)s.raw(4); inrange = false; V6 v = V6::Zero(); if (kd == 0) { v((int)s.raw(6)) = 1; return v; } if (kd == 1) return e(twist(s, 2)); VX x = jvecu(s, (int)J.cols(), 1); if (J.cols()) v = J * x; inrange = true; return v; }
struct Svd { MX U, V; VX s; int r; double gapLo, gapHi; };  // singular values split at thr
inline Svd svdAt(const MX& A, double thr) { Svd d; int m = (int)A.rows(), n = (int)A.cols(); d.r = 0; d.gapHi = 1e300; d.gapLo = 0; if (!n || !m) { d.U = MX::Identity(m, m); d.V = MX::Identity(n, n); d.s = VX(0); return d; } Eigen::JacobiSVD<MX> j(A, Eigen::ComputeFullU | Eigen::ComputeFullV); d.U = j.matrixU(); d.V = j.matrixV(); d.s = j.singularValues(); for (int i = 0; i < d.s.size(); ++i) if (d.s(i) >= thr) { d.r = i + 1; d.gapHi = d.s(i); } else { d.gapLo = d.s(i); break; } return d; }
// true when the split at the threshold is decided by more than rounding errors
inline bool decided(const Svd& d, double thr) { double top = d.s.size() ? d.s(0) : 0; for (int i = 0; i < d.s.size(); ++i) if (std::fabs(d.s(i) - thr) < 1e-3 * thr + 1e-11 * top) return false; return true; }
inline double gap(const Svd& d) { return d.r ? d.gapHi - d.gapLo : 1; }
}
