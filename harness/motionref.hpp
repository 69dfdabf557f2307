// Motion area: independent descriptions ("specs") of paths, velocity profiles and trajectories, how to build
// the KDL objects from them, and reference evaluators that never call the code under test.
#pragma once
#include "gen.hpp"
#include "path.hpp"
#include "path_point.hpp"
#include "path_line.hpp"
#include "path_circle.hpp"
#include "path_composite.hpp"
#include "path_roundedcomposite.hpp"
#include "path_cyclic_closed.hpp"
#include "rotational_interpolation_sa.hpp"
#include "velocityprofile_trap.hpp"
#include "velocityprofile_traphalf.hpp"
#include "velocityprofile_rect.hpp"
#include "velocityprofile_dirac.hpp"
#include "velocityprofile_spline.hpp"
#include "trajectory_segment.hpp"
#include "trajectory_composite.hpp"
#include "trajectory_stationary.hpp"
#include "utilities/error.h"
#include "utilities/error_stack.h"
#include <memory>
#include <vector>

namespace mo {
using namespace g;

struct St { M4 X = M4::Identity(); V6 v = V6::Zero(), a = V6::Zero(); };

// objects lent to paths built with aggregate=false
struct Pool {
    std::vector<std::unique_ptr<RotationalInterpolation>> o;
    std::vector<std::unique_ptr<Path>> p;
    std::vector<std::unique_ptr<VelocityProfile>> v;
};

// ------------------------------------------------------------------ paths
struct PSpec {
    enum K { Point, Line, TwistLine, Circle, Composite, Cyclic, Rounded } k = Point;
    M4 f0 = M4::Identity(), f1 = M4::Identity();
    V6 tw = V6::Zero();
    double eqr = 1, alpha = 0, radius = 0;
    V3 c = V3::Zero(), pt = V3::Zero();
    int times = 1;
    std::vector<M4> pts;
    std::vector<PSpec> sub;   // parts; for Rounded: the lines and arcs it must consist of
    bool agg = true;

    M3 Rend() const { return k == TwistLine ? M3(expm3(tw.tail<3>()) * R3(f0)) : R3(f1); }
    V3 rv() const { return logm3(R3(f0).transpose() * Rend()); }
    double angle() const { return rv().norm(); }
    V3 lin() const { return k == TwistLine ? V3(tw.head<3>()) : V3(P3(f1) - P3(f0)); }
    double dist() const { return k == Circle ? alpha * (P3(f0) - c).norm() : lin().norm(); }
    double len() const {
        switch (k) {
        case Point: return 0;
        case Line: case TwistLine: case Circle: return std::max(dist(), angle() * eqr);
        case Cyclic: return sub[0].len() * times;
        default: { double L = 0; for (auto& x : sub) L += x.len(); return L; }
        }
    }
    // state at parameter s with rates sd, sdd; side picks the part used at a joint (-1 before, +1 after)
    St at(double s, double sd, double sdd, int side = 1) const {
        St r;
        double L = len();
        switch (k) {
        case Point: r.X = f0; return r;
        case Line: case TwistLine: case Circle: {
            V3 l = rv();
            double u = L > 0 ? s / L : 0, ud = L > 0 ? sd / L : 0, udd = L > 0 ? sdd / L : 0;
            M3 R = R3(f0) * expm3(l * u);
            r.v.tail<3>() = R3(f0) * l * ud; r.a.tail<3>() = R3(f0) * l * udd;
            if (k != Circle) {
                r.X = mk4(R, P3(f0) + lin() * u); r.v.head<3>() = lin() * ud; r.a.head<3>() = lin() * udd;
            } else {
                V3 x = P3(f0) - c; double rad = x.norm(); x /= rad;
                V3 z = x.cross(pt - c).normalized(), y = z.cross(x);
                double p = alpha * u, pd = alpha * ud, pdd = alpha * udd;
                V3 n = x * std::cos(p) + y * std::sin(p), t = -x * std::sin(p) + y * std::cos(p);
                r.X = mk4(R, c + rad * n);
                r.v.head<3>() = rad * t * pd;
                r.a.head<3>() = rad * (t * pdd - n * pd * pd);
            }
            return r;
        }
        case Cyclic: {
            double l1 = sub[0].len(); int n = (int)std::floor(s / l1);
            double in = s - n * l1;
            if (side < 0 && in <= 1e-9 * (1 + l1)) in += l1;
            if (side > 0 && l1 - in <= 1e-9 * (1 + l1)) in = std::max(0.0, in - l1);
            return sub[0].at(std::min(in, l1), sd, sdd, side);
        }
        default: {
            double b = 0;
            for (size_t i = 0; i < sub.size(); ++i) {
                double e = b + sub[i].len();
                bool here = side < 0 ? s <= e + 1e-9 * (1 + e) : s < e - 1e-9 * (1 + e);
                if (here || i + 1 == sub.size()) return sub[i].at(s - b, sd, sdd, side);
                b = e;
            }
            return r;
        }
        }
    }
    // every state the path may report at s: one per part that reaches s (up to rounding)
    void all(double s, double sd, double sdd, std::vector<St>& out) const {
        if (k == Cyclic) {
            double l1 = sub[0].len(), eps = 1e-9 * (1 + l1 * times); int n = (int)std::floor(s / l1); double in = std::min(std::max(0.0, s - n * l1), l1);
            sub[0].all(in, sd, sdd, out);
            if (in <= eps) sub[0].all(l1, sd, sdd, out);
            if (l1 - in <= eps) sub[0].all(0, sd, sdd, out);
        } else if (k == Composite || k == Rounded) {
            double b = 0;
            for (auto& x : sub) { double l = x.len(), e = b + l, eps = 1e-9 * (1 + e); if (s >= b - eps && s <= e + eps) x.all(std::min(std::max(s - b, 0.0), l), sd, sdd, out); b = e; }
        } else out.push_back(at(s, sd, sdd));
    }
    void joints(std::vector<double>& j, double off = 0) const {   // parameters at which parts meet
        if (k == Cyclic) { double l1 = sub[0].len(); for (int i = 0; i < std::min(times, 5); ++i) { j.push_back(off + i * l1); sub[0].joints(j, off + i * l1); } }
        else for (auto& x : sub) { x.joints(j, off); off += x.len(); j.push_back(off); }
    }
    Path* build(Pool& pool) const {
        auto orient = [&]() -> RotationalInterpolation* { auto* o = new RotationalInterpolation_SingleAxis(); if (!agg) pool.o.emplace_back(o); return o; };
        auto lend = [&](Path* p) { if (!agg) pool.p.emplace_back(p); return p; };
        switch (k) {
        case Point: return new Path_Point(g::k(f0));
        case Line: { auto* o = orient(); return new Path_Line(g::k(f0), g::k(f1), o, eqr, agg); }
        case TwistLine: { auto* o = orient(); return new Path_Line(g::k(f0), kt(tw), o, eqr, agg); }
        case Circle: { auto* o = orient(); return new Path_Circle(g::k(f0), g::k(c), g::k(pt), g::k(M3(R3(f1))), alpha, o, eqr, agg); }
        case Cyclic: return new Path_Cyclic_Closed(lend(sub[0].build(pool)), times, agg);
        case Composite: { std::unique_ptr<Path_Composite> p(new Path_Composite()); for (auto& x : sub) p->Add(lend(x.build(pool)), agg); return p.release(); }
        case Rounded: { auto* o = orient(); std::unique_ptr<Path_RoundedComposite> p(new Path_RoundedComposite(radius, eqr, o, agg)); for (auto& f : pts) p->Add(g::k(f)); p->Finish(); return p.release(); }
        }
        return nullptr;
    }
    std::string str() const {
        std::ostringstream o; o.precision(17);
        static const char* n[] = {"Point", "Line", "TwistLine", "Circle", "Composite", "Cyclic", "Rounded"};
        o << n[k] << "{";
        if (k <= Circle) o << "start " << g::str(MX(f0.topRows<3>()));
        if (k == Line) o << " end " << g::str(MX(f1.topRows<3>()));
        if (k == TwistLine) o << " twist " << g::str(MX(tw.transpose()));
        if (k == Circle) o << " centre " << g::str(MX(c.transpose())) << " point " << g::str(MX(pt.transpose())) << " Rend " << g::str(MX(R3(f1))) << " alpha " << alpha;
        if (k == Rounded) { o << "radius " << radius << " points"; for (auto& p : pts) o << "\n  " << g::str(MX(p.topRows<3>())); }
        else for (auto& x : sub) o << "\n  " << x.str();
        if (k == Cyclic) o << " times " << times;
        o << " eqradius " << eqr << (agg ? "" : " lent") << "}";
        return o.str();
    }
    double scale() const {
        double m = 1 + P3(f0).norm() + P3(f1).norm() + tw.norm() + c.norm();
        for (auto& p : pts) m += P3(p).norm();
        for (auto& x : sub) m += x.scale();
        return m;
    }
};

// rotation between two orientations of a path: none, generic, but not so close to zero or a half turn that
// the direction of the rotation is undetermined
inline V3 relrot(Src& s, bool small = false) {
    uint64_t kd = s.raw(6);
    V3 a = unit(s);
    if (kd == 0) return V3::Zero();
    if (kd == 1) return a * (1 + (int)s.raw(11)) * M_PI / 12;
    if (kd == 2 && small) return a * std::pow(10.0, -s.range(2, 4));
    return a * s.uni(0.01, M_PI - 0.01);
}
inline V3 disp(Src& s) {
    uint64_t kd = s.raw(6);
    if (kd == 0) return V3::Zero();
    if (kd == 1) return unit(s) * std::pow(10.0, -s.range(1, 4));
    V3 v = e(vec(s, 2)); if (v.norm() < 1e-4) v = V3::Zero();
    return v;
}
inline double eqradius(Src& s) { return s.flip() ? 1.0 : s.uni(0.02, 4); }
inline PSpec point(Src& s) { PSpec p; p.f0 = frameM(s); return p; }
inline PSpec line(Src& s, const M4* from = nullptr) {
    PSpec p; p.k = PSpec::Line; p.f0 = from ? *from : frameM(s); p.eqr = eqradius(s);
    M3 R = R3(p.f0) * expm3(relrot(s)); p.f1 = mk4(R, P3(p.f0) + disp(s)); return p;
}
inline PSpec twline(Src& s) { PSpec p; p.k = PSpec::TwistLine; p.f0 = frameM(s); p.eqr = eqradius(s); V3 d = disp(s); p.tw << d, relrot(s); return p; }
inline PSpec circle(Src& s, const M4* from = nullptr) {
    PSpec p; p.k = PSpec::Circle; p.f0 = from ? *from : frameM(s); p.eqr = eqradius(s);
    V3 x = unit(s), h = unit(s); V3 z = x.cross(h); if (z.norm() < 1e-3) z = x.unitOrthogonal(); z.normalize();
    double rad = s.flip() ? 1 : s.uni(0.01, 3), th = s.uni(0.05, M_PI - 0.05);
    p.c = P3(p.f0) - x * rad;
    p.pt = p.c + (x * std::cos(th) + z.cross(x) * std::sin(th)) * (s.flip() ? rad : s.uni(0.05, 3));
    uint64_t kd = s.raw(8);
    p.alpha = kd == 0 ? 0 : kd < 3 ? M_PI / 4 * (1 + (int)s.raw(8)) : s.uni(0.01, 7);
    M3 R = R3(p.f0) * expm3(relrot(s)); p.f1 = mk4(R, V3::Zero());
    return p;
}
inline M4 endOf(const PSpec& p) { return p.at(p.len(), 0, 0, -1).X; }

inline PSpec basic(Src& s) { switch (s.raw(6)) { case 0: return point(s); case 1: return twline(s); case 2: case 3: return circle(s); default: return line(s); } }

// a rounded composite: way points whose corners can be rounded with the radius; sub holds the expected parts
inline PSpec rounded(Src& s, int lo = 2, int hi = 6) {
    PSpec p; p.k = PSpec::Rounded; p.eqr = eqradius(s);
    double scale = s.chance(1, 3) ? std::pow(10.0, -s.range(1, 3)) : 1;
    int n = s.range(lo, hi);
    // corners between 0.05 and pi-0.3, legs long enough for the two roundings next to them
    p.radius = s.uni(0.02, 0.6) * scale;
    std::vector<double> al(n + 1, 0), d(n + 1, 0);
    for (int i = 1; i + 1 < n; ++i) { al[i] = s.chance(1, 5) ? 0 : s.chance(1, 4) ? M_PI / 2 : s.uni(0.02, M_PI - 0.3); d[i] = p.radius * std::tan(al[i] / 2); }
    V3 pos = e(vec(s)), dir = unit(s);
    M3 R = rotM(s);
    p.pts.push_back(mk4(R, pos));
    for (int i = 1; i < n; ++i) {
        double leg = d[i - 1] + d[i] + scale * s.uni(0.05, 1);
        // a leg must be longer than each rounding length on its own too; it is by construction
        pos += dir * leg; R = R * expm3(relrot(s));
        p.pts.push_back(mk4(R, pos));
        V3 h = unit(s), ax = dir.cross(h); if (ax.norm() < 1e-3) ax = dir.unitOrthogonal();
        dir = rotm(ax.normalized(), al[i]) * dir; dir.normalize();
    }
    p.agg = !s.chance(1, 4);
    // expected parts
    auto mkline = [&](const M4& a, const M4& b) { PSpec q; q.k = PSpec::Line; q.eqr = p.eqr; q.f0 = a; q.f1 = b; return q; };
    M4 st = p.pts[0];
    for (int i = 1; i < n; ++i) {
        M4 via = p.pts[i];
        if (i + 1 == n) { p.sub.push_back(mkline(st, via)); break; }
        if (al[i] == 0) { p.sub.push_back(mkline(st, via)); st = via; continue; }
        V3 ab = P3(via) - P3(st), bc = P3(p.pts[i + 1]) - P3(via);
        double abd = ab.norm(), bcd = bc.norm(); ab /= abd; bc /= bcd;
        double a = std::atan2(ab.cross(bc).norm(), ab.dot(bc)), dd = p.radius * std::tan(a / 2);
        M4 cs = mk4(R3(st) * expm3(logm3(R3(st).transpose() * R3(via)) * ((abd - dd) / abd)), P3(st) + ab * (abd - dd));
        M4 ce = mk4(R3(via) * expm3(logm3(R3(via).transpose() * R3(p.pts[i + 1])) * (dd / bcd)), P3(via) + bc * dd);
        V3 z = ab.cross(bc).normalized();
        PSpec c; c.k = PSpec::Circle; c.eqr = p.eqr; c.f0 = cs; c.c = P3(cs) + z.cross(ab) * p.radius; c.pt = P3(ce); c.f1 = ce; c.alpha = a;
        p.sub.push_back(mkline(st, cs)); p.sub.push_back(c);
        st = ce;
    }
    return p;
}
inline PSpec anypath(Src& s, int depth = 2) {
    uint64_t kd = depth > 0 ? s.raw(8) : s.raw(4);
    if (kd < 4) { PSpec p = basic(s); if (p.k != PSpec::Point) p.agg = !s.chance(1, 3); return p; }
    if (kd == 4) return rounded(s);
    if (kd == 5) { PSpec p; p.k = PSpec::Cyclic; PSpec q = anypath(s, depth - 1); if (q.len() < 1e-3) { M4 f = mk4(M3::Identity(), V3::Zero()); q = PSpec(); q.k = PSpec::Line; q.f1 = f; q.f1(0, 3) = 1; } p.sub.push_back(q); p.times = s.range(1, 4); p.agg = !s.chance(1, 3); return p; }
    PSpec p; p.k = PSpec::Composite; p.agg = !s.chance(1, 3);
    int n = s.range(1, 5); bool joined = s.flip(); M4 st = frameM(s);
    for (int i = 0; i < n; ++i) {
        PSpec q = !joined ? anypath(s, depth - 1) : s.flip() ? line(s, &st) : circle(s, &st);
        st = endOf(q); p.sub.push_back(q);
    }
    return p;
}

// paths without jumps and without still parts inside: a last-bit difference of the parameter does not show
inline PSpec smooth(Src& s) {
    uint64_t kd = s.raw(6);
    if (kd < 3) { PSpec p = basic(s); if (p.k != PSpec::Point) p.agg = !s.chance(1, 3); return p; }
    if (kd == 3) return rounded(s);
    PSpec p; p.k = PSpec::Composite; p.agg = !s.chance(1, 3); int n = s.range(1, 5); M4 st = frameM(s);
    for (int i = 0; i < n; ++i) { PSpec q = s.flip() ? line(s, &st) : circle(s, &st); if (q.len() < 1e-3) continue; st = endOf(q); p.sub.push_back(q); }
    if (p.sub.empty()) { PSpec q; q.k = PSpec::Line; q.f1(0, 3) = 1; p.sub.push_back(q); }
    return p;
}

// a parameter in [0,L]: ends, joints and interior
inline double param(Src& s, const PSpec& p) {
    double L = p.len(); std::vector<double> j; p.joints(j);
    uint64_t kd = s.raw(8);
    if (kd == 0) return 0;
    if (kd == 1) return L;
    if (kd == 2 && !j.empty()) return std::min(L, j[s.raw(j.size())]);
    return s.unit() * L;
}
inline double stdiff(const St& w, const Frame& X, const Twist* v, const Twist* a, double vs, double as) {
    double d = mx(e(X) - w.X);
    if (v) d = std::max(d, mx(e(*v) - w.v) / vs);
    if (a) d = std::max(d, mx(e(*a) - w.a) / as);
    if (!(d == d)) return 1e300;
    return d;
}
// compare a path with a reference at one parameter; at a joint either adjoining part is accepted
inline void checkAt(Src& s, const Path& P, const PSpec& p, double t, double sd, double sdd, double tol) {
    Frame X = P.Pos(t); Twist v = P.Vel(t, sd), a = P.Acc(t, sd, sdd);
    double vs = 1 + std::fabs(sd) * p.scale(), as = 1 + (std::fabs(sdd) + sd * sd) * p.scale();
    std::vector<St> c; p.all(t, sd, sdd, c);
    if (c.empty()) c.push_back(p.at(t, sd, sdd));
    double best = 1e300; St near = c[0];
    // curvature and turn rates grow with 1/length, so scale by what the reference reports
    for (auto& w : c) { double d = stdiff(w, X, &v, &a, vs * (1 + mx(w.v)), as * (1 + mx(w.a))); if (d < best) { best = d; near = w; } }
    if (!(best <= tol))
        FAIL("at s=" << t << " sd=" << sd << " sdd=" << sdd << " of " << p.len() << ": off by " << best
             << "\n pose " << str(MX(e(X).topRows<3>())) << " expected " << str(MX(near.X.topRows<3>())) << "\n velocity " << str(MX(e(v).transpose())) << " expected " << str(MX(near.v.transpose()))
             << "\n acceleration " << str(MX(e(a).transpose())) << " expected " << str(MX(near.a.transpose())) << "\n" << p.str());
}

// ------------------------------------------------------------------ velocity profiles
struct VPiece { double t, p, v, a; };   // starts at t with p, v and constant a
struct VRef {
    double T = 0, p1 = 0, p2 = 0;
    std::vector<VPiece> q;
    void at(double t, double& p, double& v, double& a, int side = 1) const {
        v = a = 0;
        if (t < 0 || q.empty()) { p = t <= 0 || q.empty() ? (t <= 0 ? p1 : p2) : p1; return; }
        if (t > T) { p = p2; return; }
        size_t i = 0; double eps = 1e-9 * (1 + T);
        while (i + 1 < q.size() && (side > 0 ? q[i + 1].t <= t + eps : q[i + 1].t < t - eps)) ++i;
        double d = t - q[i].t; p = q[i].p + q[i].v * d + 0.5 * q[i].a * d * d; v = q[i].v + q[i].a * d; a = q[i].a;
    }
};
struct VSpec {
    enum K { Trap, Half, Rect, Dirac, Spline } k = Trap;
    double mv = 1, ma = 1; bool starting = true;
    int mode = 0;              // 0 SetProfile, 1 SetProfileDuration, 2 SetProfileVelocity, 3/4 spline with velocities / accelerations
    double p1 = 0, p2 = 0, arg = 0, v1 = 0, v2 = 0, a1 = 0, a2 = 0;
    double fastest() const {
        double d = std::fabs(p2 - p1);
        switch (k) {
        case Trap: return d >= mv * mv / ma ? d / mv + mv / ma : 2 * std::sqrt(d / ma);
        case Half: { if (d == 0) return 0; double v = std::min(mv, std::sqrt(2 * d * ma)); return d / v + v / ma / 2; }
        case Rect: return d / mv;
        default: return 0;
        }
    }
    double T() const {
        double f = fastest();
        if (mode == 1 || mode >= 3) return k == Spline ? arg : std::max(f, arg);
        if (mode == 2) return f / std::min(1.0, std::max(1e-6, arg));
        return f;
    }
    VRef ref() const {
        VRef r; r.T = T(); r.p1 = p1; r.p2 = p2;
        double s = p2 < p1 ? -1 : 1, d = std::fabs(p2 - p1), T = r.T;
        if (d == 0) { r.q.push_back({0, p1, 0, 0}); return r; }
        switch (k) {
        case Trap: {
            double f = fastest() / T, v = d >= mv * mv / ma ? mv : std::sqrt(d * ma); v *= f; double a = ma * f * f, t1 = v / a;
            r.q.push_back({0, p1, 0, s * a});
            r.q.push_back({t1, p1 + s * v * t1 / 2, s * v, 0});
            r.q.push_back({T - t1, p2 - s * v * t1 / 2, s * v, -s * a});
            break;
        }
        case Half: {
            double v = std::min(mv, std::sqrt(2 * d * ma)), a, ts;   // ts: duration of the accelerating part
            bool stall = 2 * d / v <= T;
            if (mode == 0 || T <= fastest()) { a = ma; ts = v / a; stall = false; }
            else { a = stall ? v * v / 2 / d : v * v / 2 / (v * T - d); ts = v / a; }
            if (ts > T) ts = T;
            if (starting) {
                if (stall) { r.q.push_back({0, p1, 0, 0}); r.q.push_back({T - ts, p1, 0, s * a}); }
                else { r.q.push_back({0, p1, 0, s * a}); r.q.push_back({ts, p1 + s * v * ts / 2, s * v, 0}); }
            } else {
                if (stall) { r.q.push_back({0, p1, s * v, -s * a}); r.q.push_back({ts, p2, 0, 0}); }
                else { r.q.push_back({0, p1, s * v, 0}); r.q.push_back({T - ts, p2 - s * v * ts / 2, s * v, -s * a}); }
            }
            break;
        }
        case Rect: r.q.push_back({0, p1, (p2 - p1) / T, 0}); break;
        case Dirac: if (T > 0) r.q.push_back({0, p1, (p2 - p1) / T, 0}); break;
        default: break;
        }
        return r;
    }
    VelocityProfile* make() const {
        switch (k) {
        case Trap: return new VelocityProfile_Trap(mv, ma);
        case Half: return new VelocityProfile_TrapHalf(mv, ma, starting);
        case Rect: return new VelocityProfile_Rectangular(mv);
        case Dirac: return new VelocityProfile_Dirac();
        default: return new VelocityProfile_Spline();
        }
    }
    void setmax(VelocityProfile& v) const {
        if (k == Trap) dynamic_cast<VelocityProfile_Trap&>(v).SetMax(mv, ma);
        if (k == Half) dynamic_cast<VelocityProfile_TrapHalf&>(v).SetMax(mv, ma, starting);
        if (k == Rect) dynamic_cast<VelocityProfile_Rectangular&>(v).SetMax(mv);
    }
    void set(VelocityProfile& v) const {
        if (mode == 0) v.SetProfile(p1, p2);
        else if (mode == 1) v.SetProfileDuration(p1, p2, arg);
        else if (mode == 2) dynamic_cast<VelocityProfile_Trap&>(v).SetProfileVelocity(p1, p2, arg);
        else if (mode == 3) dynamic_cast<VelocityProfile_Spline&>(v).SetProfileDuration(p1, v1, p2, v2, arg);
        else dynamic_cast<VelocityProfile_Spline&>(v).SetProfileDuration(p1, v1, a1, p2, v2, a2, arg);
    }
    VelocityProfile* build() const { auto* v = make(); set(*v); return v; }
    bool hasAcc() const { return k != Rect && k != Dirac; }
    bool hasVel() const { return k != Dirac || T() != 0; }
    std::string str() const {
        static const char* n[] = {"Trap", "TrapHalf", "Rectangular", "Dirac", "Spline"};
        std::ostringstream o; o.precision(17);
        o << n[k] << " maxvel " << mv << " maxacc " << ma << (k == Half ? (starting ? " starting" : " ending") : "") << " mode " << mode << " from " << p1 << " to " << p2 << " arg " << arg;
        if (mode >= 3) o << " v " << v1 << "," << v2 << " a " << a1 << "," << a2;
        return o.str();
    }
};
inline double posval(Src& s, double lo, double hi) { uint64_t kd = s.raw(4); if (kd == 0) return 1; if (kd == 1) return std::pow(10.0, s.uni(std::log10(lo), std::log10(hi))); return s.uni(std::max(lo, 0.05 * hi), hi); }
inline VSpec vspec(Src& s, int kind = -1, bool spline = true) {
    VSpec v; v.k = (VSpec::K)(kind >= 0 ? kind : (int)s.raw(spline ? 5 : 4));
    v.mv = posval(s, 0.01, 5); v.ma = posval(s, 0.01, 10); v.starting = s.flip();
    v.p1 = s.real(-3, 3);
    uint64_t kd = s.raw(8);
    if (kd == 0) v.p2 = v.p1;
    else if (kd == 1) v.p2 = v.p1 + (s.flip() ? 1 : -1) * std::pow(10.0, -s.range(1, 8));
    else if (kd == 2) v.p2 = v.p1 + (s.flip() ? 1 : -1) * v.mv * v.mv / v.ma * (v.k == VSpec::Half ? 0.5 : 1);   // exactly reaching the maximum
    else v.p2 = s.real(-3, 3);
    if (v.k == VSpec::Spline) { v.mode = s.flip() ? 1 : s.flip() ? 3 : 4; v.arg = posval(s, 0.05, 10); v.v1 = s.real(-2, 2); v.v2 = s.real(-2, 2); v.a1 = s.real(-2, 2); v.a2 = s.real(-2, 2); return v; }
    v.mode = (int)s.raw(v.k == VSpec::Trap ? 3 : 2);
    if (v.mode == 1) { double f = v.fastest(); uint64_t kk = s.raw(8); v.arg = kk == 0 ? 0 : kk == 1 ? f : kk == 2 ? f * s.unit() : kk == 3 ? f + s.uni(0, 10) : kk == 4 ? 2 * std::fabs(v.p2 - v.p1) / v.mv : f * (1 + s.uni(0, 4)); }
    if (v.mode == 2) v.arg = s.chance(1, 6) ? s.real(-0.5, 2) : s.uni(0.01, 1);
    return v;
}

// does the profile agree with the reference at time t; where two pieces meet either is accepted
inline bool profileAt(const VelocityProfile& P, const VSpec& sp, const VRef& r, double t, double tol, std::string& why) {
    double ps = 1 + std::fabs(sp.p1) + std::fabs(sp.p2), eps = 1e-8 * r.T + 1e-12;
    std::vector<VPiece> c;   // p, v, a at t
    if (t <= eps) c.push_back({t, r.p1, 0, 0});
    if (t >= r.T - eps) c.push_back({t, r.p2, 0, 0});
    for (size_t i = 0; i < r.q.size(); ++i) {
        double en = i + 1 < r.q.size() ? r.q[i + 1].t : r.T;
        if (t < r.q[i].t - eps || t > en + eps) continue;
        double d = t - r.q[i].t; c.push_back({t, r.q[i].p + r.q[i].v * d + 0.5 * r.q[i].a * d * d, r.q[i].v + r.q[i].a * d, r.q[i].a});
    }
    for (size_t i = 0, n = c.size(); i < n; ++i) if (t <= eps || t >= r.T - eps) { c.push_back(c[i]); c.back().a = 0; }   // the instant of start or end may count as outside the motion
    double gp = P.Pos(t), gv = sp.hasVel() ? P.Vel(t) : 0, ga = sp.hasAcc() && r.T > 0 ? P.Acc(t) : 0;
    for (auto& w : c) {
        if (!(std::fabs(gp - w.p) <= tol * ps)) continue;
        if (sp.hasVel() && !(std::fabs(gv - w.v) <= tol * (ps + std::fabs(w.v)) * (1 + 1 / std::max(1e-3, r.T)))) continue;
        if (sp.hasAcc() && r.T > 0 && !(std::fabs(ga - w.a) <= tol * (ps + std::fabs(w.a)) * (1 + 1 / std::max(1e-3, r.T * r.T)))) continue;
        return true;
    }
    std::ostringstream o; o.precision(17); o << "t=" << t << " of " << r.T << ": p " << gp << " v " << gv << " a " << ga << " expected";
    for (auto& w : c) o << " (p " << w.p << " v " << w.v << " a " << w.a << ")";
    o << "\n" << sp.str(); why = o.str(); return false;
}
inline double tval(Src& s, const VRef& r) {
    uint64_t kd = s.raw(8);
    if (kd == 0) return 0;
    if (kd == 1) return r.T;
    if (kd == 2) return -s.uni(0, 2);
    if (kd == 3) return r.T + s.uni(0, 2) + 1e-6;
    if (kd == 4 && !r.q.empty()) return r.q[s.raw(r.q.size())].t;
    return s.unit() * r.T;
}

inline std::string clearIO() { std::ostringstream o; IOTraceOutput(o); return o.str(); }
}  // namespace mo
