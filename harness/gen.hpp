// Generators of geometric values, chains and trees, together with an independent Eigen reference model
// (poses as 4x4 matrices, derivatives by second-order matrix Taylor jets) that never calls the code under test.
#pragma once
#include "pbt.hpp"
#include <Eigen/Dense>
#include "src_all.hpp"

namespace g {
using pbt::Src;
using namespace KDL;
typedef Eigen::Matrix3d M3;
typedef Eigen::Matrix4d M4;
typedef Eigen::Vector3d V3;
typedef Eigen::VectorXd VX;
typedef Eigen::MatrixXd MX;
typedef Eigen::Matrix<double, 6, 1> V6;
typedef Eigen::Matrix<double, 6, 6> M6;

// ---------- conversions (raw component copies only)
inline V3 e(const Vector& v) { return V3(v.data[0], v.data[1], v.data[2]); }
inline Vector k(const V3& v) { Vector r; r.data[0] = v(0); r.data[1] = v(1); r.data[2] = v(2); return r; }
inline M3 e(const Rotation& R) { M3 m; for (int i = 0; i < 3; ++i) for (int j = 0; j < 3; ++j) m(i, j) = R.data[3 * i + j]; return m; }
inline Rotation k(const M3& m) { Rotation R; for (int i = 0; i < 3; ++i) for (int j = 0; j < 3; ++j) R.data[3 * i + j] = m(i, j); return R; }
inline M4 e(const Frame& F) { M4 m = M4::Identity(); m.block<3, 3>(0, 0) = e(F.M); m.block<3, 1>(0, 3) = e(F.p); return m; }
inline Frame k(const M4& m) { Frame F; F.M = k(M3(m.block<3, 3>(0, 0))); F.p = k(V3(m.block<3, 1>(0, 3))); return F; }
inline V6 e(const Twist& t) { V6 v; v << e(t.vel), e(t.rot); return v; }
inline V6 e(const Wrench& t) { V6 v; v << e(t.force), e(t.torque); return v; }
inline Twist kt(const V6& v) { Twist t; t.vel = k(V3(v.head<3>())); t.rot = k(V3(v.tail<3>())); return t; }
inline Wrench kw(const V6& v) { Wrench t; t.force = k(V3(v.head<3>())); t.torque = k(V3(v.tail<3>())); return t; }
inline VX e(const JntArray& a) { return a.data; }
inline JntArray kj(const VX& v) { JntArray a(v.size()); for (int i = 0; i < v.size(); ++i) a.data(i) = v(i); return a; }

inline M3 skew(const V3& a) { M3 m; m << 0, -a(2), a(1), a(2), 0, -a(0), -a(1), a(0), 0; return m; }
inline V3 vee(const M3& m) { return V3(m(2, 1) - m(1, 2), m(0, 2) - m(2, 0), m(1, 0) - m(0, 1)) * 0.5; }
inline M3 rotm(const V3& unit, double th) { M3 K = skew(unit); return M3::Identity() + std::sin(th) * K + (1 - std::cos(th)) * K * K; }
inline M3 expm3(const V3& w) {  // exact for all magnitudes
    double n = w.norm();
    if (n < 1e-9) return M3::Identity() + skew(w) + 0.5 * skew(w) * skew(w);
    return rotm(w / n, n);
}
// principal rotation vector, stable for all angles including close to pi (independent of KDL: via quaternion)
inline V3 logm3(const M3& R) {
    // quaternion by the largest-component method
    double t = R.trace();
    double q[4];  // w x y z
    if (t >= R(0, 0) && t >= R(1, 1) && t >= R(2, 2)) {
        double s = std::sqrt(std::max(0.0, 1 + t)) * 2; q[0] = s / 4; q[1] = (R(2, 1) - R(1, 2)) / s; q[2] = (R(0, 2) - R(2, 0)) / s; q[3] = (R(1, 0) - R(0, 1)) / s;
    } else if (R(0, 0) >= R(1, 1) && R(0, 0) >= R(2, 2)) {
        double s = std::sqrt(std::max(0.0, 1 + R(0, 0) - R(1, 1) - R(2, 2))) * 2; q[0] = (R(2, 1) - R(1, 2)) / s; q[1] = s / 4; q[2] = (R(0, 1) + R(1, 0)) / s; q[3] = (R(0, 2) + R(2, 0)) / s;
    } else if (R(1, 1) >= R(2, 2)) {
        double s = std::sqrt(std::max(0.0, 1 + R(1, 1) - R(0, 0) - R(2, 2))) * 2; q[0] = (R(0, 2) - R(2, 0)) / s; q[1] = (R(0, 1) + R(1, 0)) / s; q[2] = s / 4; q[3] = (R(1, 2) + R(2, 1)) / s;
    } else {
        double s = std::sqrt(std::max(0.0, 1 + R(2, 2) - R(0, 0) - R(1, 1))) * 2; q[0] = (R(1, 0) - R(0, 1)) / s; q[1] = (R(0, 2) + R(2, 0)) / s; q[2] = (R(1, 2) + R(2, 1)) / s; q[3] = s / 4;
    }
    if (q[0] < 0) for (double& x : q) x = -x;
    V3 v(q[1], q[2], q[3]);
    double n = v.norm();
    if (n < 1e-300) return V3::Zero();
    return v / n * 2 * std::atan2(n, q[0]);
}
inline M4 mk4(const M3& R, const V3& p) { M4 m = M4::Identity(); m.block<3, 3>(0, 0) = R; m.block<3, 1>(0, 3) = p; return m; }
inline M4 inv4(const M4& m) { M3 R = m.block<3, 3>(0, 0).transpose(); return mk4(R, -(R * m.block<3, 1>(0, 3))); }
inline M3 R3(const M4& m) { return m.block<3, 3>(0, 0); }
inline V3 P3(const M4& m) { return m.block<3, 1>(0, 3); }
inline double rotdist(const M3& a, const M3& b) { return logm3(a.transpose() * b).norm(); }
inline bool finite(const MX& m) { return m.allFinite(); }
inline double mx(const MX& m) { return m.size() ? m.cwiseAbs().maxCoeff() : 0.0; }

inline double so3err(const M3& R) { return std::max(mx(R.transpose() * R - M3::Identity()), std::fabs(R.determinant() - 1)); }

// ---------- primitive generators
inline Vector vec(Src& s, double m = 2) { double a = s.real(-m, m), b = s.real(-m, m), c = s.real(-m, m); return Vector(a, b, c); }
inline V3 unit(Src& s) {
    uint64_t kd = s.raw(4);
    if (kd == 0) { V3 v = V3::Zero(); v((int)s.raw(3)) = s.flip() ? -1 : 1; return v; }
    if (kd == 1) { V3 v((int)s.raw(3) - 1, (int)s.raw(3) - 1, (int)s.raw(3) - 1); if (v.norm() == 0) v = V3(0, 0, 1); return v.normalized(); }
    double z = s.uni(-1, 1), f = s.uni(-M_PI, M_PI), r = std::sqrt(std::max(0.0, 1 - z * z));
    return V3(r * std::cos(f), r * std::sin(f), z);
}
inline M3 rotM(Src& s) {
    uint64_t kd = s.raw(8);
    V3 a = unit(s);
    if (kd == 0) return M3::Identity();
    if (kd == 1) { int q = 1 + (int)s.raw(3); M3 m = M3::Identity(); M3 r; int ax = (int)s.raw(3); V3 u = V3::Zero(); u(ax) = 1; double c[4] = {1, 0, -1, 0}, sn[4] = {0, 1, 0, -1}; r = M3::Identity() + sn[q] * skew(u) + (1 - c[q]) * skew(u) * skew(u); return m * r; }
    if (kd == 2) return rotm(a, M_PI);
    if (kd == 3) { int ex = s.range(1, 12); return rotm(a, std::pow(10.0, -ex) * (1 + s.raw(9))); }
    if (kd == 4) { int ex = s.range(1, 12); return rotm(a, M_PI - std::pow(10.0, -ex) * (1 + s.raw(9)) * 0.1); }
    return rotm(a, s.uni(-M_PI, M_PI));
}
inline Rotation rot(Src& s) { return k(rotM(s)); }
inline Frame frame(Src& s, double m = 2) { Rotation R = rot(s); return Frame(R, vec(s, m)); }
inline M4 frameM(Src& s, double m = 2) { return e(frame(s, m)); }
inline Twist twist(Src& s, double m = 2) { Vector a = vec(s, m); return Twist(a, vec(s, m)); }
inline Wrench wrench(Src& s, double m = 2) { Vector a = vec(s, m); return Wrench(a, vec(s, m)); }

// ---------- specs: independent descriptions the KDL objects are built from
struct JSpec {
    int type = Joint::Fixed;  // Joint::JointType
    std::string name = "j";
    V3 origin = V3::Zero(), axis = V3::UnitZ();  // axis unnormalised
    double scale = 1, offset = 0, inertia = 0, damping = 0, stiffness = 0;
    bool movable() const { return type != Joint::Fixed; }
    bool rotational() const { return type == Joint::RotAxis || type == Joint::RotX || type == Joint::RotY || type == Joint::RotZ; }
    V3 dir() const {
        switch (type) {
        case Joint::RotX: case Joint::TransX: return V3::UnitX();
        case Joint::RotY: case Joint::TransY: return V3::UnitY();
        case Joint::RotZ: case Joint::TransZ: return V3::UnitZ();
        case Joint::RotAxis: case Joint::TransAxis: return axis.normalized();
        default: return V3::Zero();
        }
    }
    V3 org() const { return (type == Joint::RotAxis || type == Joint::TransAxis) ? origin : V3(V3::Zero()); }
    Joint build() const {
        if (type == Joint::RotAxis || type == Joint::TransAxis)
            return Joint(name, k(origin), k(axis), (Joint::JointType)type, scale, offset, inertia, damping, stiffness);
        return Joint(name, (Joint::JointType)type, scale, offset, inertia, damping, stiffness);
    }
    M4 pose(double q) const {
        double th = scale * q + offset;
        if (!movable()) return M4::Identity();
        if (rotational()) return mk4(rotm(dir(), th), org());
        return mk4(M3::Identity(), org() + dir() * th);
    }
};
struct ISpec {
    double m = 0;
    V3 c = V3::Zero();
    M3 Ic = M3::Zero();  // about the centre of gravity, in the tip frame's axes
    RigidBodyInertia build() const { return RigidBodyInertia(m, k(c), RotationalInertia(Ic(0, 0), Ic(1, 1), Ic(2, 2), Ic(0, 1), Ic(0, 2), Ic(1, 2))); }
};
struct SSpec {
    std::string name = "s";
    JSpec j;
    M4 tip = M4::Identity();
    ISpec I;
    Segment build() const { return Segment(name, j.build(), k(tip), I.build()); }
    M4 pose(double q) const { return j.pose(q) * inv4(j.pose(0)) * tip; }
};
struct CSpec {
    std::vector<SSpec> s;
    Chain build() const { Chain c; for (auto& x : s) c.addSegment(x.build()); return c; }
    int nj() const { int n = 0; for (auto& x : s) n += x.j.movable(); return n; }
    int ns() const { return (int)s.size(); }
};

struct GenOpt {
    bool fixed = true;      // allow fixed joints
    bool trans = true;      // allow prismatic joints
    bool scale = true;      // allow scale != 1
    bool zeroscale = false;
    bool offset = true;
    bool dyn = false;       // give segments inertia
    bool jinertia = false;  // give joints rotor inertia
    bool jdamp = false;     // damping, stiffness values
    double size = 1;        // length scale
    bool big = true;        // now and then far more segments than usual, now and then odd names
};
// some names are long (no small-string storage) or contain blanks and punctuation
inline std::string oddname(Src& s, const std::string& nm) {
    static const char* tail[] = {"_left_upper_arm_lateral_actuator_link", " with blanks", "/tool.tip-0", "[x](y)#", "_\xc3\xa9t\xc3\xa9"};
    return nm + tail[s.raw(5)];
}

inline JSpec jspec(Src& s, const GenOpt& o, const std::string& name) {
    JSpec j;
    j.name = name;
    static const int rot[] = {Joint::RotZ, Joint::RotX, Joint::RotY, Joint::RotAxis};
    static const int tra[] = {Joint::TransZ, Joint::TransX, Joint::TransY, Joint::TransAxis};
    uint64_t kd = s.raw(8);
    if (o.fixed && kd == 7) j.type = Joint::Fixed;
    else if (o.trans && kd >= 5) j.type = tra[s.raw(4)];
    else j.type = rot[s.raw(4)];
    if (j.type == Joint::RotAxis || j.type == Joint::TransAxis) {
        j.origin = e(vec(s, o.size));
        j.axis = unit(s) * (s.chance(1, 3) ? s.uni(0.05, 5) : 1.0);
    }
    if (o.scale && s.chance(1, 3)) { j.scale = s.uni(0.2, 3) * (s.flip() ? -1 : 1); if (o.zeroscale && s.chance(1, 8)) j.scale = 0; }
    if (o.offset && s.chance(1, 3)) j.offset = s.real(-2, 2);
    if (o.jinertia && s.chance(1, 2)) j.inertia = s.uni(0, 1);
    if (o.jdamp && s.chance(1, 2)) { j.damping = s.uni(0, 1); j.stiffness = s.uni(0, 1); }
    return j;
}
inline ISpec ispec(Src& s, bool allowzero = true, double size = 1) {
    ISpec I;
    if (allowzero && s.chance(1, 10)) return I;
    int form = (int)s.raw(10);   // also point masses and (as tails of chains) rotors without mass
    I.m = s.uni(0.1, 4);
    I.c = e(vec(s, 0.4 * size));
    // point-mass cloud: always a physical inertia
    V3 d = V3(s.uni(0.05, 0.4), s.uni(0.05, 0.4), s.uni(0.05, 0.4)) * size;
    V3 D(d(1) * d(1) + d(2) * d(2), d(0) * d(0) + d(2) * d(2), d(0) * d(0) + d(1) * d(1));
    M3 R = s.flip() ? M3(M3::Identity()) : rotm(unit(s), s.uni(-3, 3));
    M3 A = R * (I.m * D).asDiagonal() * R.transpose();
    I.Ic = (A + A.transpose()) * 0.5;
    if (form == 9) I.Ic.setZero();
    if (allowzero && form == 8) { I.m = 0; I.c.setZero(); }
    return I;
}
inline SSpec sspec(Src& s, const GenOpt& o, const std::string& name) {
    SSpec x;
    x.name = name;
    x.j = jspec(s, o, "j_" + name);
    uint64_t kd = s.raw(6);
    if (kd == 0) x.tip = mk4(M3::Identity(), V3(0, 0, o.size));
    else if (kd == 1) x.tip = mk4(M3::Identity(), e(vec(s, o.size)));
    else x.tip = mk4(rotM(s), e(vec(s, o.size)));
    if (o.dyn) x.I = ispec(s, true, o.size);
    return x;
}
inline CSpec cspec(Src& s, const GenOpt& o, int lo, int hi) {
    CSpec c;
    int n = s.range(lo, hi);
    bool odd = false;
    if (o.big && s.chance(1, 24)) { if (hi >= 4) n = s.range(hi, 3 * hi); odd = s.flip(); }
    for (int i = 0; i < n; ++i) { std::string nm = "s" + std::to_string(i); c.s.push_back(sspec(s, o, odd ? oddname(s, nm) : nm)); }
    return c;
}
// with at least one movable joint
inline CSpec cspec_mov(Src& s, const GenOpt& o, int lo, int hi) {
    CSpec c = cspec(s, o, lo, hi);
    if (c.nj() == 0) { GenOpt p = o; p.fixed = false; c.s.push_back(sspec(s, p, "s" + std::to_string(c.ns()))); }
    return c;
}
struct TSpec {
    struct N { SSpec s; int parent; };
    std::string root = "root";
    std::vector<N> n;
    int nj() const { int c = 0; for (auto& x : n) c += x.s.j.movable(); return c; }
    int jnr(int i) const { int c = 0; for (int a = 0; a < i; ++a) c += n[a].s.j.movable(); return c; }  // index of node i's joint
    std::vector<int> path(int i) const { std::vector<int> p; for (; i >= 0; i = n[i].parent) p.push_back(i); std::reverse(p.begin(), p.end()); return p; }
    const std::string& pname(int i) const { return n[i].parent < 0 ? root : n[n[i].parent].s.name; }
    Tree build() const { Tree t(root); for (size_t i = 0; i < n.size(); ++i) t.addSegment(n[i].s.build(), pname(i)); return t; }
};
inline TSpec tspec(Src& s, const GenOpt& o, int lo, int hi, const std::string& prefix = "t") {
    TSpec t;
    int n = s.range(lo, hi);
    bool odd = false;
    if (o.big && s.chance(1, 24)) { if (hi >= 4) n = s.range(hi, 3 * hi); odd = s.flip(); }
    // names in random alphabetical order, so that map order differs from insertion order
    for (int i = 0; i < n; ++i) {
        std::string nm = prefix + std::string(1, (char)('a' + s.raw(26))) + std::to_string(i);
        if (odd) nm = oddname(s, nm);
        int par = (int)s.raw(i + 1) - 1;
        if (i && s.flip()) par = i - 1;
        t.n.push_back({sspec(s, o, nm), par});
    }
    return t;
}

inline VX jvec(Src& s, int n, double m = 3) { VX v(n); if (s.chance(1, 24)) m *= 10;  // joints many turns away from zero
    for (int i = 0; i < n; ++i) v(i) = s.real(-m, m); return v; }
inline VX jvecu(Src& s, int n, double m = 3) { VX v(n); for (int i = 0; i < n; ++i) v(i) = s.uni(-m, m); return v; }

// ---------- matrix jets: value, first and second time derivative
struct Jet4 {
    M4 a, b, c;
    static Jet4 cst(const M4& m) { return {m, M4::Zero(), M4::Zero()}; }
};
inline Jet4 operator*(const Jet4& x, const Jet4& y) { return {x.a * y.a, x.b * y.a + x.a * y.b, x.c * y.a + 2 * x.b * y.b + x.a * y.c}; }
inline Jet4 jjet(const JSpec& j, double q, double qd, double qdd) {
    if (!j.movable()) return Jet4::cst(M4::Identity());
    double th = j.scale * q + j.offset, td = j.scale * qd, tdd = j.scale * qdd;
    M4 E = j.pose(q);
    if (j.rotational()) {
        M3 K = skew(j.dir()), R = rotm(j.dir(), th);
        M4 B = M4::Zero(), C = M4::Zero();
        B.block<3, 3>(0, 0) = K * R * td;
        C.block<3, 3>(0, 0) = K * R * tdd + K * K * R * td * td;
        return {E, B, C};
    }
    M4 B = M4::Zero(), C = M4::Zero();
    B.block<3, 1>(0, 3) = j.dir() * td;
    C.block<3, 1>(0, 3) = j.dir() * tdd;
    return {E, B, C};
}
inline Jet4 sjet(const SSpec& x, double q, double qd, double qdd) { return jjet(x.j, q, qd, qdd) * Jet4::cst(inv4(x.j.pose(0)) * x.tip); }
// twist of a moving pose: velocity of the origin, angular velocity, both in base coordinates
inline V6 twistOf(const Jet4& T) { V6 v; v << P3(T.b), vee(R3(T.b) * R3(T.a).transpose()); return v; }
inline V6 acctwistOf(const Jet4& T) { V6 v; v << P3(T.c), vee(R3(T.c) * R3(T.a).transpose() + R3(T.b) * R3(T.b).transpose()); return v; }

// poses (with derivatives) of all segments of a chain
inline std::vector<Jet4> fk(const CSpec& c, const VX& q, const VX& qd, const VX& qdd) {
    std::vector<Jet4> r;
    Jet4 T = Jet4::cst(M4::Identity());
    int j = 0;
    for (auto& x : c.s) {
        bool m = x.j.movable();
        T = T * sjet(x, m ? q(j) : 0, m && qd.size() ? qd(j) : 0, m && qdd.size() ? qdd(j) : 0);
        j += m;
        r.push_back(T);
    }
    return r;
}
inline std::vector<Jet4> fk(const CSpec& c, const VX& q) { return fk(c, q, VX(), VX()); }
inline M4 fkn(const CSpec& c, const VX& q, int seg) { M4 T = M4::Identity(); int j = 0; for (int i = 0; i < seg; ++i) { bool m = c.s[i].j.movable(); T = T * c.s[i].pose(m ? q(j) : 0); j += m; } return T; }
// Jacobian of segment `seg` (number of segments), base frame, reference point at its tip
inline MX jac(const CSpec& c, const VX& q, int seg) {
    int n = c.nj();
    MX J = MX::Zero(6, n);
    V3 pt = P3(fkn(c, q, seg));
    M4 T = M4::Identity();
    int j = 0;
    for (int i = 0; i < seg; ++i) {
        const JSpec& js = c.s[i].j;
        if (js.movable()) {
            V3 d = R3(T) * js.dir() * js.scale;
            V3 o = P3(T) + R3(T) * js.org();
            if (js.rotational()) { J.block<3, 1>(0, j) = d.cross(pt - o); J.block<3, 1>(3, j) = d; }
            else J.block<3, 1>(0, j) = d;
        }
        T = T * c.s[i].pose(js.movable() ? q(j) : 0);
        j += js.movable();
    }
    return J;
}

// ---------- tree jets
inline std::vector<Jet4> fk(const TSpec& t, const VX& q, const VX& qd, const VX& qdd) {
    std::vector<Jet4> r(t.n.size());
    for (size_t i = 0; i < t.n.size(); ++i) {
        bool m = t.n[i].s.j.movable();
        int j = t.jnr(i);
        Jet4 T = sjet(t.n[i].s, m ? q(j) : 0, m && qd.size() ? qd(j) : 0, m && qdd.size() ? qdd(j) : 0);
        r[i] = t.n[i].parent < 0 ? T : r[t.n[i].parent] * T;
    }
    return r;
}
inline CSpec pathspec(const TSpec& t, int i) { CSpec c; for (int a : t.path(i)) c.s.push_back(t.n[a].s); return c; }

// ---------- projected Newton-Euler (Kane): generalised forces of the equations of motion
struct Body { Jet4 T; ISpec I; MX J; };  // J: Jacobian of the tip, base frame, w.r.t. all joints
// returns sum_i J_com^T m(a_com - g) + J_w^T (Ic al + w x Ic w)
inline VX kane(const std::vector<Body>& bs, int n, const V3& grav) {
    VX tau = VX::Zero(n);
    if (n == 0) return tau;
    for (auto& b : bs) {
        M3 R = R3(b.T.a);
        V3 ch = R * b.I.c;
        V6 tw = twistOf(b.T), at = acctwistOf(b.T);
        V3 w = tw.tail<3>(), al = at.tail<3>();
        Eigen::Vector4d c4; c4 << b.I.c, 1;
        V3 acom = (b.T.c * c4).head<3>();
        M3 Iw = R * b.I.Ic * R.transpose();
        V3 F = b.I.m * (acom - grav), N = Iw * al + w.cross(Iw * w);
        MX Jv = b.J.topRows(3) - skew(ch) * b.J.bottomRows(3);
        tau += Jv.transpose() * F + b.J.bottomRows(3).transpose() * N;
    }
    return tau;
}
inline std::vector<Body> bodies(const CSpec& c, const VX& q, const VX& qd, const VX& qdd) {
    auto T = fk(c, q, qd, qdd);
    std::vector<Body> b;
    for (int i = 0; i < c.ns(); ++i) b.push_back({T[i], c.s[i].I, jac(c, q, i + 1)});
    return b;
}
inline MX massm(const CSpec& c, const VX& q) {
    int n = c.nj();
    MX M = MX::Zero(n, n);
    if (n == 0) return M;
    for (auto& b : bodies(c, q, VX(), VX())) {
        M3 R = R3(b.T.a);
        MX Jv = b.J.topRows(3) - skew(R * b.I.c) * b.J.bottomRows(3), Jw = b.J.bottomRows(3);
        M += b.I.m * Jv.transpose() * Jv + Jw.transpose() * (R * b.I.Ic * R.transpose()) * Jw;
    }
    return M;
}
inline VX jointInertias(const CSpec& c) { VX d(c.nj()); int j = 0; for (auto& x : c.s) if (x.j.movable()) d(j++) = x.j.inertia; return d; }

// ---------- printing
inline std::string str(const MX& m) { std::ostringstream o; o.precision(17); Eigen::IOFormat f(Eigen::FullPrecision, 0, ", ", "; ", "", "", "[", "]"); o << m.format(f); return o.str(); }
inline std::string str(const JSpec& j) {
    static const char* nm[] = {"RotAxis", "RotX", "RotY", "RotZ", "TransAxis", "TransX", "TransY", "TransZ", "Fixed"};
    std::ostringstream o; o.precision(17);
    o << nm[j.type];
    if (j.type == Joint::RotAxis || j.type == Joint::TransAxis) o << " origin " << str(j.origin.transpose()) << " axis " << str(j.axis.transpose());
    o << " scale " << j.scale << " offset " << j.offset;
    if (j.inertia) o << " inertia " << j.inertia;
    return o.str();
}
inline std::string str(const SSpec& x) {
    std::ostringstream o; o.precision(17);
    o << "segment " << x.name << ": joint " << str(x.j) << "; tip " << str(x.tip.topRows(3));
    if (x.I.m) o << "; m " << x.I.m << " cog " << str(x.I.c.transpose()) << " Ic " << str(x.I.Ic);
    return o.str();
}
inline std::string str(const CSpec& c) { std::ostringstream o; o << c.ns() << " segments, " << c.nj() << " joints\n"; for (auto& x : c.s) o << "  " << str(x) << "\n"; return o.str(); }
inline std::string str(const TSpec& t) { std::ostringstream o; o << "tree " << t.root << ", " << t.n.size() << " segments\n"; for (size_t i = 0; i < t.n.size(); ++i) o << "  (on " << t.pname(i) << ") " << str(t.n[i].s) << "\n"; return o.str(); }

}  // namespace g

// matrix closeness, NaN-safe
#define MNEAR(A, B, TOL, X) do { g::MX a_ = (A), b_ = (B); double t_ = (TOL); \
    if (a_.rows() != b_.rows() || a_.cols() != b_.cols()) FAIL(X << ": " #A " is " << a_.rows() << "x" << a_.cols() << ", expected " << b_.rows() << "x" << b_.cols()); \
    double d_ = g::mx(a_ - b_); if (!(d_ <= t_) || !a_.allFinite()) FAIL(X << ": " #A " = " << g::str(a_) << "\nexpected " #B " = " << g::str(b_) << "\nmax difference " << d_ << " tolerance " << t_); } while (0)
