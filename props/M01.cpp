#include "motionref.hpp"
using namespace mo;

// pose, velocity, acceleration against the stated geometry, plus what a user observes by differencing
static void run(Src& s, const PSpec& p) {
    Pool pool; std::unique_ptr<Path> P(p.build(pool));
    double L = p.len(), sc = p.scale();
    NOTE(p.str());
    NEAR(P->PathLength(), L, 1e-9 * sc, "path length\n" << p.str());
    MNEAR(e(P->Pos(0)), p.at(0, 0, 0).X, 1e-9 * sc, "the path starts at its start pose\n" << p.str());
    // the end as the user stated it
    if (L > 0) {
        M3 Re = p.Rend(); V3 pe = p.k == PSpec::Circle ? P3(p.at(L, 0, 0).X) : V3(P3(p.f0) + p.lin());
        if (p.k == PSpec::Point) { Re = R3(p.f0); pe = P3(p.f0); }
        MNEAR(e(P->Pos(L)), mk4(Re, pe), 1e-8 * sc, "the path ends at its end pose\n" << p.str());
    }
    s.nontrivial(L > 0);
    int n = s.range(1, 4);
    for (int i = 0; i < n; ++i) {
        double t = param(s, p), sd = s.real(-2, 2), sdd = s.real(-2, 2);
        if (L == 0) sd = sdd = 0;   // no progress can be made on a path of no length
        checkAt(s, *P, p, t, sd, sdd, 1e-9 * sc);
        M4 X = e(P->Pos(t));
        EXPECT(so3err(R3(X)) <= 1e-9, "pose is not rigid at " << t << "\n" << p.str());
        // finite difference along s(t) = t + sd*h + sdd*h^2/2
        if (L > 1e-3 && t > 1e-3 * L && t < L * 0.999) {
            double h = 1e-4 * L / (1 + std::fabs(sd) + std::fabs(sdd));
            auto S = [&](double x) { return t + sd * x + sdd * x * x / 2; };
            M4 A = e(P->Pos(S(-h))), B = e(P->Pos(S(h))), C = e(P->Pos(t));
            V6 v = e(P->Vel(t, sd)), a = e(P->Acc(t, sd, sdd));
            double w = 1 + v.norm() + a.norm();
            V3 fv = (P3(B) - P3(A)) / (2 * h), fa = (P3(B) + P3(A) - 2 * P3(C)) / (h * h);
            V3 fw = (logm3(R3(B) * R3(C).transpose()) - logm3(R3(A) * R3(C).transpose())) / (2 * h);
            V3 fwd = (e(P->Vel(S(h), sd + sdd * h)).tail<3>() - e(P->Vel(S(-h), sd - sdd * h)).tail<3>()) / (2 * h);
            double r = p.k == PSpec::Circle ? std::pow(1 + p.alpha, 3) : 1, tol = 1e-5 * w * sc * r;
            MNEAR(V3(v.head<3>()), fv, tol, "linear velocity against a difference of positions\n" << p.str());
            MNEAR(V3(v.tail<3>()), fw, tol, "angular velocity against a difference of orientations\n" << p.str());
            MNEAR(V3(a.head<3>()), fa, 100 * tol + 1e-14 * sc / (h * h), "linear acceleration against a difference of positions\n" << p.str());
            MNEAR(V3(a.tail<3>()), fwd, tol, "angular acceleration against a difference of angular velocities\n" << p.str());
        }
        // LengthToS: linear distance travelled to parameter
        if (p.dist() > 0 && p.k != PSpec::Point) {
            double len = s.unit() * p.dist(); double q = P->LengthToS(len);
            NEAR(q, len * L / p.dist(), 1e-9 * (1 + L), "LengthToS(" << len << ")\n" << p.str());
            V3 d = P3(e(P->Pos(q))) - P3(p.f0);
            if (p.k != PSpec::Circle) NEAR(d.norm(), len, 1e-9 * sc, "distance travelled at LengthToS(" << len << ")\n" << p.str());
            else { double rad = (P3(p.f0) - p.c).norm(); NEAR(d.norm(), std::fabs(2 * rad * std::sin(len / rad / 2)), 1e-9 * sc, "chord travelled at LengthToS"); }
        }
    }
}

LAW(point, 5000, "still poses; non-trivial: none moves, the pose is generic") { PSpec p = point(s); run(s, p); s.nontrivial(mx(p.f0 - M4::Identity()) > 0.1); }
LAW(line, 60000, "straight lines between two frames, with and without rotation and displacement, equivalent radii from 0.02 to 4; non-trivial: positive length") { PSpec p = line(s); p.agg = s.flip(); run(s, p); }
LAW(line_twist, 40000, "straight lines given by a start frame and a base twist; non-trivial: positive length") { PSpec p = twline(s); p.agg = s.flip(); run(s, p); }
LAW(circle, 60000, "arcs given by start frame, centre, plane point, end orientation and angle; non-trivial: positive length") { PSpec p = circle(s); p.agg = s.flip(); run(s, p); }

LAW(circle_errors, 5000, "arcs whose start is at the centre or whose plane point is in line with the start; all non-trivial") {
    PSpec p = circle(s); V3 x = P3(p.f0) - p.c; bool small = s.flip();
    if (small) { p.c = P3(p.f0) - x.normalized() * (s.flip() ? 0 : 9e-7 * s.unit()); }
    else { double f = s.flip() ? 1 : s.uni(0.1, 3); if (s.flip()) f = -f; p.pt = p.c + x * f; }
    s.nontrivial();
    NOTE(p.str());
    Pool pool; int type = 0; Path* P = nullptr;
    try { P = p.build(pool); } catch (Error_MotionPlanning_Circle_ToSmall& er) { type = er.GetType(); EXPECT(std::string(er.Description()).size() > 0, "text"); } catch (Error_MotionPlanning_Circle_No_Plane& er) { type = er.GetType(); }
    delete P;
    EXPECT(type == (small ? 3001 : 3002), "error type " << type << "\n" << p.str());
}

LAW(interpolation, 40000, "single-axis interpolations between two orientations, reused with other ends; non-trivial: the orientations differ") {
    RotationalInterpolation_SingleAxis o; int n = s.range(1, 3);
    for (int i = 0; i < n; ++i) {
        M3 A = rotM(s); V3 l = relrot(s, true); M3 B = A * expm3(l); double al = l.norm();
        NOTE("from " << str(MX(A)) << " by " << str(MX(l.transpose())));
        o.SetStartEnd(k(A), k(B)); s.nontrivial(al > 0);
        NEAR(o.Angle(), al, 1e-9, "angle between the ends");
        MNEAR(e(o.Pos(0)), A, 1e-12, "start"); MNEAR(e(o.Pos(o.Angle())), B, 1e-9, "end");
        double t = s.uni(-1, 4), td = s.real(-2, 2), tdd = s.real(-2, 2);
        V3 ax = al > 0 ? V3(l / al) : V3(V3::Zero());
        if (al > 0) {
            MNEAR(e(o.Pos(t)), M3(A * expm3(ax * t)), 1e-9 / std::min(1.0, al), "orientation at " << t);
            MNEAR(e(o.Vel(t, td)), V3(A * ax * td), 1e-9 / std::min(1.0, al), "angular velocity"); MNEAR(e(o.Acc(t, td, tdd)), V3(A * ax * tdd), 1e-9 / std::min(1.0, al), "angular acceleration");
        }
    }
}
// ends however the two orientations are related, half turns and nearly equal ones included
LAW(any_ends, 40000, "lines and arcs between arbitrary orientations, half turns and nearly equal ones included; non-trivial: the orientations differ") {
    PSpec p = s.flip() ? line(s) : circle(s); M3 D = rotM(s);
    p.f1 = mk4(R3(p.f0) * D, P3(p.f1)); NOTE(p.str());
    Pool pool; std::unique_ptr<Path> P(p.build(pool)); double L = P->PathLength(), sc = p.scale();
    s.nontrivial(mx(D - M3::Identity()) > 1e-9);
    NEAR(L, p.len(), 1e-5 * (1 + p.eqr), "path length\n" << p.str());
    if (L == 0) return;
    MNEAR(e(P->Pos(0)), p.f0, 1e-9 * sc, "start\n" << p.str());
    MNEAR(e(P->Pos(L).M), p.Rend(), 5e-6, "end orientation\n" << p.str());
    MNEAR(e(P->Pos(L).p), P3(p.at(p.len(), 0, 0).X), 1e-5 * sc, "end position\n" << p.str());
    double t = s.unit() * L; M4 X = e(P->Pos(t)); EXPECT(so3err(R3(X)) <= 1e-9, "rigid");
    // constant turning rate about one axis
    V3 w = e(P->Vel(t, 1)).tail<3>();
    MNEAR(R3(X), M3(expm3(w * t) * R3(p.f0)), 1e-8 * sc, "orientation is the start turned by the reported rate\n" << p.str());
}

// an interpolation of the user's own: answers tell what it was asked
struct Asked : RotationalInterpolation {
    double ang; Rotation a, b; int set = 0; static int alive;
    explicit Asked(double x) : ang(x) { ++alive; } Asked(const Asked& o) : ang(o.ang), a(o.a), b(o.b), set(o.set) { ++alive; } ~Asked() { --alive; }
    void SetStartEnd(Rotation x, Rotation y) { a = x; b = y; ++set; }
    double Angle() { return ang; }
    Rotation Pos(double th) const { return a * Rotation::RotZ(th) * Rotation::RotX(th * th); }
    Vector Vel(double th, double thd) const { return Vector(th, thd, 7); }
    Vector Acc(double th, double thd, double thdd) const { return Vector(th, thd, thdd); }
    void Write(std::ostream& o) const { o << "ASKED[]"; }
    RotationalInterpolation* Clone() const { return new Asked(*this); }
};
int Asked::alive = 0;
LAW(own_interpolation, 20000, "lines, lines by twist and arcs over a rotational interpolation written by the user (its axis is not constant), owned or lent, original or clone; it is asked for the angle that belongs to the parameter and its rates, set to the ends of the path, and destroyed with the path exactly if owned; non-trivial: both displacement and angle") {
    double ang = s.chance(1, 6) ? 0 : s.real(0, 3), eqr = s.uni(0.05, 3); int kd = s.range(0, 2); bool agg = s.flip(); PSpec p; p = kd == 0 ? line(s) : kd == 1 ? twline(s) : circle(s); double dist = p.dist(), L = std::max(dist, ang * eqr); NOTE(p.str() << " angle " << ang << " radius " << eqr << (agg ? " owned" : " lent")); s.nontrivial(dist > 0 && ang > 0);
    Asked::alive = 0; Asked* A = new Asked(ang); M3 Re = p.Rend();
    {
        std::unique_ptr<Path> P(kd == 0 ? (Path*)new Path_Line(k(p.f0), k(p.f1), A, eqr, agg) : kd == 1 ? (Path*)new Path_Line(k(p.f0), kt(p.tw), A, eqr, agg) : (Path*)new Path_Circle(k(p.f0), k(p.c), k(p.pt), k(Re), p.alpha, A, eqr, agg));
        EXPECT(A->set >= 1, "the ends were never set"); MNEAR(e(A->a), R3(p.f0), 1e-12, "start orientation given to the interpolation"); MNEAR(e(A->b), Re, 1e-9, "end orientation given to the interpolation"); double sc = 1 + dist + ang;
        NEAR(P->PathLength(), L, 1e-9 * sc, "path length");
        std::unique_ptr<Path> C; int before = Asked::alive; if (s.flip()) { C.reset(P->Clone()); EXPECT(Asked::alive == before + (agg || kd == 2), Asked::alive << " interpolations after the clone, " << before << " before"); std::swap(C, P); if (s.flip()) C.reset(); }
        for (int i = 0; i < 3 && L > 0; ++i) {
            double t = s.unit() * L, sd = s.real(-2, 2), sdd = s.real(-2, 2), q = ang / L; Frame F = P->Pos(t); Twist v = P->Vel(t, sd), a = P->Acc(t, sd, sdd); double tl = 1e-9 * (1 + ang * (1 + std::fabs(sd) + std::fabs(sdd)) * (1 + 1 / L));
            MNEAR(e(F.M), e(Rotation(k(R3(p.f0)) * Rotation::RotZ(t * q) * Rotation::RotX(t * q * t * q))), tl * 10, "orientation at " << t << " of " << L); MNEAR(e(v.rot), V3(t * q, sd * q, 7), tl, "angular velocity at " << t << ", " << sd << " of " << L); MNEAR(e(a.rot), V3(t * q, sd * q, sdd * q), tl, "angular acceleration at " << t << ", " << sd << ", " << sdd << " of " << L);
        }
    }
    EXPECT(Asked::alive == (agg ? 0 : 1), Asked::alive << " interpolations left"); if (!agg) delete A;
}
