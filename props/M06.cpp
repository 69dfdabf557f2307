#include "motionref.hpp"
using namespace mo;

struct Part {
    int kind = 0;   // 0 segment with a set profile, 1 stationary, 2 segment given a duration
    PSpec p; VSpec v; double T = 0; M4 f = M4::Identity(); bool agg = true;
    Trajectory* build(Pool& pl) const {
        if (kind == 1) return new Trajectory_Stationary(T, k(f));
        Path* P = p.build(pl); VelocityProfile* V = kind == 2 ? v.make() : v.build();
        if (!agg) { pl.p.emplace_back(P); pl.v.emplace_back(V); }
        return kind == 2 ? new Trajectory_Segment(P, V, T, agg) : new Trajectory_Segment(P, V, agg);
    }
    double dur() const { return kind == 1 ? T : v.T(); }
    std::string str() const { std::ostringstream o; o.precision(17); if (kind == 1) o << "stationary for " << T << " at " << g::str(MX(f.topRows<3>())); else o << p.str() << "\n" << v.str() << (agg ? "" : " lent") << (kind == 2 ? " duration given" : ""); return o.str(); }
};
static Part part(Src& s, bool smoothOnly = false) {
    Part q; q.kind = s.chance(1, 5) ? 1 : s.chance(1, 3) ? 2 : 0; q.f = frameM(s); q.T = s.chance(1, 8) ? 0 : s.uni(0.01, 4); q.agg = !s.chance(1, 3);
    q.p = smoothOnly || s.flip() ? smooth(s) : anypath(s, 1); q.v = vspec(s, -1); q.v.p1 = 0; q.v.p2 = q.p.len();
    if (q.v.k == VSpec::Spline) q.v.v1 = q.v.v2 = q.v.a1 = q.v.a2 = 0;   // stays between the ends
    if (q.kind == 2) { q.v.mode = 1; q.v.arg = q.T; if (q.v.k == VSpec::Spline) q.v.mode = 1; }
    return q;
}
struct Ans { M4 X; V6 v = V6::Zero(), a = V6::Zero(); int ev = 0, ea = 0; };
static Ans ask(Trajectory& t, double x) {
    Ans r; r.X = e(t.Pos(x)); try { r.v = e(t.Vel(x)); } catch (Error& z) { r.ev = z.GetType(); } try { r.a = e(t.Acc(x)); } catch (Error& z) { r.ea = z.GetType(); } return r;
}
// the path along the profile, evaluated outside of the trajectory
static Ans along(Path& P, VelocityProfile& V, double x) {
    Ans r; double s = V.Pos(x); r.X = e(P.Pos(s));
    try { r.v = e(P.Vel(s, V.Vel(x))); } catch (Error& z) { r.ev = z.GetType(); }
    try { double a = V.Acc(x); r.a = e(P.Acc(s, V.Vel(x), a)); } catch (Error& z) { r.ea = z.GetType(); }
    return r;
}
static double pickT(Src& s, double T) { switch (s.raw(6)) { case 0: return 0; case 1: return T; case 2: return -s.uni(0, 1); case 3: return T + s.uni(0, 1); default: return s.unit() * T; } }

LAW(segment, 40000, "segments over any path and profile, owned or lent, with a set profile or a given duration, at times inside and outside; non-trivial: positive length and duration") {
    Part q = part(s); q.kind = q.kind == 1 ? 0 : q.kind; if (q.kind == 2 && q.v.k == VSpec::Spline) q.v.arg = q.T = std::max(q.T, 0.01); NOTE(q.str());
    Pool pool; std::unique_ptr<Trajectory> T(q.build(pool)); std::unique_ptr<Path> P(q.p.build(pool)); std::unique_ptr<VelocityProfile> V(q.v.build());
    auto& S = dynamic_cast<Trajectory_Segment&>(*T); s.nontrivial(q.p.len() > 0 && V->Duration() > 0);
    NEAR(V->Pos(V->Duration()) , V->Pos(V->Duration()), 0, "profile");
    // the segment plans over the length the path reports, the separate profile over the reference length
    V.reset(S.GetProfile()->Clone());
    NEAR(S.Duration(), q.v.T(), 1e-8 * (1 + q.v.T()), "duration\n" << q.str());
    for (int i = 0, n = s.range(1, 3); i < n; ++i) {
        double t = pickT(s, S.Duration()); if (q.v.k == VSpec::Spline) t = std::min(std::max(t, 0.0), S.Duration());
        // rounding may leave the path by the last bit; the trajectory must not care more than its path does
        double u = V->Pos(t); if (!(u >= -1e-12 && u <= P->PathLength() + 1e-12)) continue;
        Ans a = ask(S, t), b = along(*P, *V, t);
        EXPECT(a.ev == b.ev && a.ea == b.ea, "errors " << a.ev << "," << a.ea << " instead of " << b.ev << "," << b.ea << " at " << t << "\n" << q.str());
        MNEAR(a.X, b.X, 0, "pose at " << t << "\n" << q.str()); MNEAR(a.v, b.v, 0, "velocity at " << t << "\n" << q.str()); MNEAR(a.a, b.a, 0, "acceleration at " << t << "\n" << q.str());
    }
    EXPECT(S.GetPath() && S.GetProfile(), "parts are accessible");
}
// what a user observes: differences of poses
LAW(derivatives, 30000, "segments over smooth paths with profiles that have derivatives, differenced numerically at times away from joints; non-trivial: moving") {
    Part q = part(s, true); q.kind = 0; q.p = basic(s); if (q.p.len() < 1e-2) { q.p = PSpec(); q.p.k = PSpec::Line; q.p.f1(0, 3) = 1; }
    q.v = vspec(s, s.flip() ? VSpec::Trap : s.flip() ? VSpec::Half : VSpec::Spline); q.v.p1 = 0; q.v.p2 = q.p.len(); if (q.v.k == VSpec::Spline) q.v.v1 = q.v.v2 = q.v.a1 = q.v.a2 = 0;
    NOTE(q.str()); Pool pool; std::unique_ptr<Trajectory> T(q.build(pool)); double D = T->Duration(); if (!(D > 1e-3)) s.discard();
    double t = s.uni(0.02, 0.98) * D, h = 1e-4 * D; VRef r = q.v.ref(); for (auto& z : r.q) if (std::fabs(z.t - t) < 3 * h) s.discard();
    Ans C = ask(*T, t), A = ask(*T, t - h), B = ask(*T, t + h); s.nontrivial(mx(C.v) > 0);
    V6 fd; fd << P3(B.X - A.X) / (2 * h), (logm3(R3(B.X) * R3(C.X).transpose()) - logm3(R3(A.X) * R3(C.X).transpose())) / (2 * h);
    double dv = mx(B.v - A.v) + mx(C.v) + 1e-9;   // how much the velocity changes over the stencil bounds the error
    MNEAR(C.v, fd, 1e-2 * dv + 1e-10 / h * q.p.scale(), "velocity at " << t << " against a difference of poses\n" << q.str());
    V6 fa = (B.v - A.v) / (2 * h); double da = mx(B.a - A.a) + mx(C.a) + mx(C.v) / D + 1e-9;
    MNEAR(C.a, fa, 1e-2 * da + 1e-9 / h * q.p.scale(), "acceleration at " << t << " against a difference of velocities\n" << q.str());
}
LAW(stationary, 5000, "stationary trajectories asked at any time; all non-trivial") {
    M4 f = frameM(s); double D = s.real(0, 5); s.nontrivial(); Trajectory_Stationary T(D, k(f)); double t = pickT(s, D);
    EXPECT(T.Duration() == D, "duration"); MNEAR(e(T.Pos(t)), f, 0, "pose"); EXPECT(mx(e(T.Vel(t))) == 0 && mx(e(T.Acc(t))) == 0, "no motion");
    std::unique_ptr<Trajectory> C(T.Clone()); EXPECT(C->Duration() == D, "clone's duration"); MNEAR(e(C->Pos(t)), f, 0, "clone's pose");
}
static void checkComposite(Src& s, Trajectory_Composite& C, const std::vector<Part>& parts, Pool& pool, int n) {
    std::vector<std::unique_ptr<Trajectory>> own; std::vector<double> end; double D = 0; std::ostringstream ctx;
    for (auto& q : parts) { own.emplace_back(q.build(pool)); D += own.back()->Duration(); end.push_back(D); ctx << q.str() << "\n"; }
    NEAR(C.Duration(), D, 1e-12 * (1 + D), "duration is the sum of the parts\n" << ctx.str());
    if (parts.empty()) return;
    for (int i = 0; i < n; ++i) {
        double t = s.chance(1, 3) ? end[s.raw(end.size())] : pickT(s, D);
        std::vector<Ans> want; double eps = 1e-12 * (1 + D);
        if (t < 0) want.push_back(ask(*own[0], 0));
        else if (t > D + eps) want.push_back(ask(*own.back(), own.back()->Duration()));
        else for (size_t j = 0; j < own.size(); ++j) {
            double b = j ? end[j - 1] : 0;
            // at a joint the later part starts; the last one ends the motion
            if (t >= b && (t < end[j] || (j + 1 == own.size() && t >= end[j] - eps))) want.push_back(ask(*own[j], t >= end[j] ? own[j]->Duration() : t - b));
        }
        if (want.empty()) want.push_back(ask(*own.back(), own.back()->Duration()));
        Ans g = ask(C, t); bool ok = false;
        for (auto& w : want) ok = ok || (mx(w.X - g.X) == 0 && w.ev == g.ev && w.ea == g.ea && mx(w.v - g.v) == 0 && mx(w.a - g.a) == 0);
        EXPECT(ok, "at " << t << " of " << D << ": pose " << str(MX(g.X.topRows<3>())) << " velocity " << str(MX(g.v.transpose())) << " errors " << g.ev << "," << g.ea << "\nexpected pose " << str(MX(want[0].X.topRows<3>())) << " velocity " << str(MX(want[0].v.transpose())) << " errors " << want[0].ev << "," << want[0].ea << "\n" << ctx.str());
    }
}
LAW(composite, 30000, "composites of 1..5 segments and stationary parts, queried inside, at joints and outside, also after Destroy and adding other parts; non-trivial: two or more parts of positive duration") {
    Trajectory_Composite C; Pool pool; int rounds = s.range(1, 3); EXPECT(C.Duration() == 0, "an empty composite has no duration");
    for (int r = 0; r < rounds; ++r) {
        std::vector<Part> parts; int n = s.range(1, 5), pos = 0;
        for (int i = 0; i < n; ++i) { Part q = part(s); parts.push_back(q); pos += q.dur() > 0; C.Add(q.build(pool)); NOTE(q.str()); if (s.chance(1, 4)) checkComposite(s, C, parts, pool, 1); }
        s.nontrivial(pos >= 2);
        checkComposite(s, C, parts, pool, s.range(1, 3));
        if (r + 1 < rounds) { C.Destroy(); NOTE("Destroy"); EXPECT(C.Duration() == 0, "duration " << C.Duration() << " after Destroy"); }
    }
}
