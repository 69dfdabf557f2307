#include "motionref.hpp"
#include <sanitizer/allocator_interface.h>
using namespace mo;

// runs f repeatedly: memory still held after each run means something was not released
static void noleak(const char* what, const std::string& ctx, const std::function<void()>& f) {
    f();   // warm up caches (streams, error stack)
    int grows = 0; long first = 0;
    for (int i = 0; i < 3; ++i) { size_t a = __sanitizer_get_current_allocated_bytes(); f(); size_t b = __sanitizer_get_current_allocated_bytes(); if (b > a) { ++grows; first = (long)(b - a); } }
    if (grows == 3) FAIL(what << ": " << first << " bytes are not released\n" << ctx);
}
static double val(const std::function<double()>& f, int& err) { err = 0; try { return f(); } catch (Error& e) { err = e.GetType(); return 0; } }
static bool same(double a, double b, double tol) { return (a != a && b != b) || std::fabs(a - b) <= tol || a == b; }
static void sameProfile(const VelocityProfile& A, const VelocityProfile& B, double t, double tol, const std::string& ctx) {
    int ea, eb; double a, b;
    a = val([&] { return A.Duration(); }, ea); b = val([&] { return B.Duration(); }, eb); EXPECT(ea == eb && same(a, b, tol), "duration " << a << " vs " << b << "\n" << ctx);
    a = val([&] { return A.Pos(t); }, ea); b = val([&] { return B.Pos(t); }, eb); EXPECT(ea == eb && same(a, b, tol), "Pos(" << t << ") " << a << " vs " << b << "\n" << ctx);
    a = val([&] { return A.Vel(t); }, ea); b = val([&] { return B.Vel(t); }, eb); EXPECT(ea == eb && same(a, b, tol), "Vel(" << t << ") " << a << " vs " << b << "\n" << ctx);
    a = val([&] { return A.Acc(t); }, ea); b = val([&] { return B.Acc(t); }, eb); EXPECT(ea == eb && same(a, b, tol), "Acc(" << t << ") " << a << " vs " << b << "\n" << ctx);
}

LAW(path_clone, 25000, "paths of every type and nesting, with owned and lent parts; clones and clones of clones compared before and after the original is destroyed, and a leak check; non-trivial: positive length") {
    PSpec p = anypath(s); NOTE(p.str()); s.nontrivial(p.len() > 0);
    Pool pool; std::unique_ptr<Path> P(p.build(pool)), C(P->Clone()); int depth = s.range(0, 2);
    for (int i = 0; i < depth; ++i) { std::unique_ptr<Path> D(C->Clone()); C = std::move(D); }
    EXPECT(C->getIdentifier() == P->getIdentifier(), "kind of path");
    NEAR(C->PathLength(), P->PathLength(), 1e-9 * p.scale(), "length of the clone\n" << p.str());
    bool gone = s.flip(); if (gone) P.reset();
    for (int i = 0, n = s.range(1, 3); i < n; ++i) {
        double t = std::min(param(s, p), C->PathLength()), sd = s.real(-2, 2), sdd = s.real(-2, 2); if (p.len() == 0) sd = sdd = 0;
        checkAt(s, *C, p, t, sd, sdd, 1e-8 * p.scale());
        if (!gone) checkAt(s, *P, p, t, sd, sdd, 1e-8 * p.scale());
    }
    noleak("cloning and destroying a path", p.str(), [&] { Pool q; std::unique_ptr<Path> A(p.build(q)); std::unique_ptr<Path> B(A->Clone()); A.reset(); });
}
LAW(rounded_clone_extend, 8000, "a rounded composite cloned between way points, then both get the same further points; non-trivial: a corner after the clone") {
    PSpec p = mo::rounded(s, 3, 6); int cut = s.range(0, (int)p.pts.size() - 1); NOTE("cloned after " << cut << "\n" << p.str()); s.nontrivial(cut < (int)p.pts.size() - 1);
    Path_RoundedComposite A(p.radius, p.eqr, new RotationalInterpolation_SingleAxis());
    for (int i = 0; i < cut; ++i) A.Add(k(p.pts[i]));
    std::unique_ptr<Path> C(A.Clone()); auto* B = dynamic_cast<Path_RoundedComposite*>(C.get()); EXPECT(B, "a clone of a rounded composite is one");
    for (int i = cut; i < (int)p.pts.size(); ++i) B->Add(k(p.pts[i]));
    B->Finish();
    double t = param(s, p); if (t > B->PathLength()) t = B->PathLength();
    NEAR(B->PathLength(), p.len(), 1e-7 * p.scale(), "length\n" << p.str());
    checkAt(s, *B, p, t, 1, 0.5, 1e-6 * p.scale());
}
LAW(interpolation_clone, 5000, "clones of a rotational interpolation with its ends set; non-trivial: a rotation between the ends") {
    RotationalInterpolation_SingleAxis o; M3 A = rotM(s); V3 l = relrot(s); s.nontrivial(l.norm() > 0); NOTE(str(MX(A)) << " by " << str(MX(l.transpose())));
    o.SetStartEnd(k(A), k(M3(A * expm3(l)))); std::unique_ptr<RotationalInterpolation> c(o.Clone());
    EXPECT(c->Angle() == o.Angle(), "angle of the clone"); double t = s.uni(0, 3);
    MNEAR(e(c->Pos(t)), e(o.Pos(t)), 0, "pose of the clone"); MNEAR(e(c->Vel(t, 2)), e(o.Vel(t, 2)), 0, "velocity"); MNEAR(e(c->Acc(t, 2, 3)), e(o.Acc(t, 2, 3)), 0, "acceleration");
    M3 B = rotM(s); c->SetStartEnd(k(B), k(M3(B * expm3(relrot(s))))); MNEAR(e(o.Pos(0)), A, 1e-12, "setting the clone does not change the original");
}
LAW(profile_clone, 40000, "profiles of every kind in every way of setting, unset ones, and ones whose limits were changed after setting; non-trivial: endpoints differ") {
    VSpec v = vspec(s); NOTE(v.str()); std::unique_ptr<VelocityProfile> P(v.make());
    bool set = !s.chance(1, 8); if (set) v.set(*P); s.nontrivial(set && v.p1 != v.p2);
    std::string ctx = v.str() + (set ? "" : " (not set)");
    if (s.chance(1, 4)) { VSpec w = v; w.mv = posval(s, 0.1, 5); w.ma = posval(s, 0.1, 5); w.starting = s.flip(); w.setmax(*P); ctx += " then SetMax " + w.str(); NOTE(ctx); }
    std::unique_ptr<VelocityProfile> C(P->Clone()); VRef r = v.ref();
    for (int i = 0, n = s.range(1, 4); i < n; ++i) sameProfile(*C, *P, set ? tval(s, r) : s.uni(-1, 2), 0, ctx);
    // the clone is a profile of its own, with the same limits
    double a = s.real(-2, 2), b = s.real(-2, 2), t = s.uni(0, 2), before = P->Pos(t);
    C->SetProfile(a, b); EXPECT(same(P->Pos(t), before, 0), "setting the clone changed the original\n" << ctx);
    P->SetProfile(a, b); sameProfile(*C, *P, t, 0, ctx + " both set again");
}
LAW(trajectory_clone, 10000, "segment, composite and stationary trajectories over any path and profile, owned and lent; compared before and after the original is destroyed, and a leak check; non-trivial: positive duration and length") {
    struct Part { int kind; PSpec p; VSpec v; double T; M4 f; bool agg; };
    std::vector<Part> parts; int n = s.range(1, 3);
    for (int i = 0; i < n; ++i) {
        Part q; q.kind = s.chance(1, 5) ? 1 : 0; q.f = frameM(s); q.T = s.uni(0, 2); q.p = smooth(s); q.v = vspec(s, -1, false); q.v.p1 = 0; q.v.p2 = q.p.len(); q.agg = !s.chance(1, 3);
        parts.push_back(q); s.nontrivial(q.kind == 0 && q.p.len() > 0);
    }
    Pool pool;
    auto build = [&](Pool& pl) -> Trajectory* {
        auto one = [&](Part& q) -> Trajectory* {
            if (q.kind == 1) return new Trajectory_Stationary(q.T, k(q.f));
            Path* P = q.p.build(pl); VelocityProfile* V = q.v.build();
            if (!q.agg) { pl.p.emplace_back(P); pl.v.emplace_back(V); }
            return new Trajectory_Segment(P, V, q.agg);
        };
        if (parts.size() == 1) return one(parts[0]);
        auto* c = new Trajectory_Composite(); for (auto& q : parts) c->Add(one(q)); return c;
    };
    std::ostringstream ctx; for (auto& q : parts) ctx << (q.kind ? "stationary" : q.p.str() + "\n" + q.v.str()) << "\n"; NOTE(ctx.str());
    std::unique_ptr<Trajectory> A(build(pool)), C(A->Clone());
    double T = A->Duration(), sc = 1; for (auto& q : parts) sc += q.p.scale();
    struct Ans { M4 X; V6 v; int er; };
    auto ask = [&](Trajectory& t, double x) { Ans r; r.er = 0; r.X = e(t.Pos(x)); r.v = V6::Zero(); try { r.v = e(t.Vel(x)); } catch (Error& z) { r.er = z.GetType(); } return r; };
    std::vector<double> ts; std::vector<std::vector<Ans>> want;
    // parts of a path need not meet, so right at a joint a last-bit difference shows: the neighbourhood counts there
    for (int i = 0; i < 3; ++i) { double x = s.uni(-0.1, 1.1) * T, d = 1e-9 * (1 + T); ts.push_back(x); want.push_back({ask(*A, x), ask(*A, x - d), ask(*A, x + d)}); }
    if (s.flip()) A.reset();
    EXPECT(same(C->Duration(), T, 1e-12 * (1 + T)), "duration\n" << ctx.str());
    for (int i = 0; i < 3; ++i) {
        Ans g = ask(*C, ts[i]); bool ok = false;
        for (auto& w : want[i]) ok = ok || (w.er == g.er && mx(w.X - g.X) <= 1e-8 * sc * (1 + mx(w.v)) && mx(w.v - g.v) <= 1e-7 * sc * (1 + mx(w.v)));
        EXPECT(ok, "the clone at " << ts[i] << " of " << T << " has pose " << str(MX(g.X)) << " velocity " << str(MX(g.v.transpose())) << " error " << g.er << ", the original " << str(MX(want[i][0].X)) << " velocity " << str(MX(want[i][0].v.transpose())) << " error " << want[i][0].er << "\n" << ctx.str());
    }
    noleak("cloning and destroying a trajectory", ctx.str(), [&] { Pool q; std::unique_ptr<Trajectory> A(build(q)), B(A->Clone()); A.reset(); });
}

static void allOwned(PSpec& p) { p.agg = true; for (auto& x : p.sub) allOwned(x); }
LAW(path_text, 15000, "paths of every type and nesting written with 17 digits and read back; non-trivial: positive length") {
    PSpec p = anypath(s); NOTE(p.str()); s.nontrivial(p.len() > 0);
    Pool pool; std::unique_ptr<Path> P(p.build(pool)); std::ostringstream o; o.precision(17); P->Write(o); NOTE(o.str());
    std::istringstream in(o.str() + " "); std::unique_ptr<Path> C;
    try { C.reset(Path::Read(in)); } catch (Error& er) { FAIL("written text is not readable: error " << er.GetType() << " " << er.Description() << clearIO() << "\n" << o.str()); }
    EXPECT(clearIO() == "", "the trace of reading is left behind");
    EXPECT(C->getIdentifier() == (p.k == PSpec::Rounded ? Path::ID_COMPOSITE : P->getIdentifier()), "kind of path");
    NEAR(C->PathLength(), P->PathLength(), 1e-9 * p.scale(), "length after reading back\n" << o.str());
    for (int i = 0; i < 3; ++i) { double t = std::min(param(s, p), C->PathLength()), sd = p.len() > 0 ? s.real(-2, 2) : 0; checkAt(s, *C, p, t, sd, 0, 1e-7 * p.scale()); }
}
LAW(rounded_text, 5000, "hand-written ROUNDEDCOMPOSITE texts; non-trivial: a corner") {
    PSpec p = mo::rounded(s, 2, 5); std::ostringstream o; o.precision(17);
    o << "ROUNDEDCOMPOSITE[ " << p.radius << " " << p.eqr << " SingleAxis[] " << p.pts.size() << "\n"; for (auto& f : p.pts) o << k(f) << "\n"; o << "]";
    NOTE(o.str()); s.nontrivial(p.pts.size() > 2); std::istringstream in(o.str()); std::unique_ptr<Path> C;
    try { C.reset(Path::Read(in)); } catch (Error& er) { FAIL("not readable: error " << er.GetType() << clearIO() << "\n" << o.str()); }
    EXPECT(C->getIdentifier() == Path::ID_ROUNDED_COMPOSITE, "kind of path"); NEAR(C->PathLength(), p.len(), 1e-7 * p.scale(), "length");
    double t = std::min(param(s, p), C->PathLength()); checkAt(s, *C, p, t, 1, 0, 1e-6 * p.scale());
}
LAW(profile_text, 15000, "the four readable profiles written with 17 digits, read back, and set alike; non-trivial: endpoints differ") {
    VSpec v = vspec(s, -1, false); NOTE(v.str()); s.nontrivial(v.p1 != v.p2);
    std::unique_ptr<VelocityProfile> P(v.build()); std::ostringstream o; o.precision(17); P->Write(o); std::istringstream in(o.str() + (s.flip() ? " " : "")); std::unique_ptr<VelocityProfile> C;
    try { C.reset(VelocityProfile::Read(in)); } catch (Error& er) { FAIL("written text is not readable: error " << er.GetType() << clearIO() << "\n" << o.str()); }
    EXPECT(clearIO() == "", "the trace of reading is left behind");
    v.set(*C); VRef r = v.ref(); for (int i = 0; i < 3; ++i) sameProfile(*C, *P, tval(s, r), 0, v.str() + o.str());
    // a profile read but not set yet has well-defined values
    std::istringstream in2(o.str() + " "); C.reset(VelocityProfile::Read(in2)); EXPECT(C->Duration() == 0 && C->Pos(0) == 0, "an unset profile has duration " << C->Duration() << " and starts at " << C->Pos(0) << "\n" << o.str());
}
LAW(trajectory_text, 8000, "segment trajectories written with 17 digits and read back, their profile set alike; non-trivial: positive length") {
    PSpec p = smooth(s); VSpec v = vspec(s, -1, false); v.p1 = 0; v.p2 = p.len(); Pool pool; s.nontrivial(p.len() > 0);
    Path* gp = p.build(pool); VelocityProfile* gv = v.build(); Trajectory_Segment T(gp, gv, true);
    std::ostringstream o; o.precision(17); T.Write(o); NOTE(o.str()); std::istringstream in(o.str()); std::unique_ptr<Trajectory> R;
    try { R.reset(Trajectory::Read(in)); } catch (Error& er) { FAIL("written text is not readable: error " << er.GetType() << clearIO() << "\n" << o.str()); }
    EXPECT(clearIO() == "", "the trace of reading is left behind");
    auto* S = dynamic_cast<Trajectory_Segment*>(R.get()); EXPECT(S && S->GetPath() && S->GetProfile(), "a segment with path and profile");
    EXPECT(S->Duration() == 0, "duration before the profile is set: " << S->Duration());
    MNEAR(e(S->Pos(0)), e(gp->Pos(0)), 1e-8 * p.scale(), "rests at the start before the profile is set\n" << o.str());
    v.set(*S->GetProfile()); NEAR(S->Duration(), T.Duration(), 1e-12 * (1 + T.Duration()), "duration");
    double t = s.uni(0, 1) * T.Duration(), d = 1e-9 * (1 + T.Duration()); bool ok = false; M4 X = e(S->Pos(t));
    for (double x : {t, t - d, t + d}) ok = ok || mx(X - e(T.Pos(x))) <= 1e-7 * p.scale() * (1 + v.mv);
    EXPECT(ok, "pose at " << t << " is " << str(MX(X)) << " instead of " << str(MX(e(T.Pos(t)))) << "\n" << o.str());
}
// what cannot be read is reported as an error
LAW(unreadable_text, 3000, "texts of objects that have no reader (spline, composite and stationary trajectories, rotational interpolations other than about a single axis); all non-trivial") {
    s.nontrivial(); std::ostringstream o; int kd = s.range(0, 3); bool err = false;
    if (kd == 0) { VSpec v = vspec(s, VSpec::Spline); std::unique_ptr<VelocityProfile> P(v.build()); P->Write(o); }
    if (kd == 1) { Trajectory_Composite c; c.Add(new Trajectory_Stationary(1, k(frameM(s)))); c.Write(o); }
    if (kd == 2) { Trajectory_Stationary c(1, k(frameM(s))); c.Write(o); }
    if (kd == 3) { PSpec p; p.k = PSpec::Line; p.f0 = frameM(s); p.f1 = frameM(s); Pool pool; std::unique_ptr<Path> P(p.build(pool)); P->Write(o); std::string t = o.str(); size_t q = t.find("SingleAxis"); if (q == std::string::npos) s.discard(); t.replace(q, 10, s.pick(std::vector<std::string>{"THREEAXIS", "TWOAXIS", "threeAxis", "FourAxis", "SingleAxi"})); o.str(t); }
    std::istringstream in(o.str());
    try { if (kd == 3) delete Path::Read(in); else if (kd == 0) delete VelocityProfile::Read(in); else delete Trajectory::Read(in); } catch (Error& er) { err = true; EXPECT(er.GetType() != 0 && std::string(er.Description()) != "", "error type and text"); }
    clearIO(); EXPECT(err, "text without a reader was accepted: " << o.str());
}
LAW(malformed_text, 40000, "valid texts of paths, profiles and trajectories with characters, numbers or whole chunks removed, changed, duplicated or cut off; non-trivial: the text changed") {
    PSpec p = anypath(s, 2); VSpec v = vspec(s, -1, false); v.p1 = 0; v.p2 = 1; std::ostringstream o; o.precision(s.range(3, 17)); int what = s.range(0, 2);
    { Pool pool; if (what == 0) { std::unique_ptr<Path> P(p.build(pool)); P->Write(o); } else if (what == 1) { std::unique_ptr<VelocityProfile> V(v.build()); V->Write(o); } else { Trajectory_Segment T(p.build(pool), v.build()); T.Write(o); } }
    std::string t = o.str(), t0 = t; int n = s.range(1, 3);
    static const char* tok[] = {"[", "]", ",", ";", " ", "0", "-1", "1e400", "nan", "99999999", "-", "#", "//", "/*", "*/", "LINE[", "COMPOSITE[ 3 ", "ROUNDEDCOMPOSITE[ 0.1 0 SingleAxis[] 2", "THREEAXIS[]", "CYCLIC_CLOSED[", "AVERYVERYLONGWORDTHATISLONGERTHANTHESTORAGEOFSIXTYFOURCHARACTERSALLOWS[", "\xff", "\n", "ROT", "DH[1,2,3,4]", "POINT["};
    for (int i = 0; i < n && !t.empty(); ++i) {
        size_t a = s.raw(t.size()), b = std::min(t.size(), a + 1 + s.raw(s.flip() ? 3 : 40));
        switch (s.raw(6)) {
        case 0: t.erase(a, b - a); break;
        case 1: t.erase(a); break;
        case 2: t.insert(a, tok[s.raw(sizeof tok / sizeof *tok)]); break;
        case 3: t.insert(b, t.substr(a, b - a)); break;
        case 4: t[a] = (char)(s.flip() ? 32 + s.raw(95) : s.raw(256)); break;
        default: t.replace(a, b - a, tok[s.raw(sizeof tok / sizeof *tok)]); break;
        }
    }
    s.nontrivial(t != t0); NOTE(t); int err = -1;
    auto read = [&] {
        std::istringstream in(t);
        try {
            if (what == 0) { std::unique_ptr<Path> P(Path::Read(in)); if (P) { double L = P->PathLength(); if (L == L && L < 1e6 && L >= 0) { std::unique_ptr<Path> Q(P->Clone()); } } }
            else if (what == 1) { std::unique_ptr<VelocityProfile> V(VelocityProfile::Read(in)); V->Duration(); }
            else { std::unique_ptr<Trajectory> T(Trajectory::Read(in)); T->Duration(); }
            err = 0;
        } catch (Error& er) { err = er.GetType(); }
        clearIO();
    };
    read(); s.label(err == 0 ? "accepted" : "rejected");
    noleak("reading malformed text", t, read);
}

LAW(text_sequence, 10000, "several paths, profiles and trajectories written to one text one after the other and read back in the same order; after each nothing of it is left in the stream and the reading trace is empty; non-trivial: three or more") {
    struct It { int what; PSpec p; VSpec v; }; std::vector<It> xs; int n = s.range(2, 5); std::ostringstream o; o.precision(17); Pool pool; s.nontrivial(n > 2);
    for (int i = 0; i < n; ++i) { It x; x.what = s.range(0, 3); x.p = x.what == 3 ? smooth(s) : anypath(s, 2); x.v = vspec(s, -1, false); if (x.what == 0) x.v.p1 = 0, x.v.p2 = 1;
        if (x.what == 0) { std::unique_ptr<Path> P(x.p.build(pool)); P->Write(o); }
        else if (x.what == 1) { std::unique_ptr<VelocityProfile> V(x.v.build()); V->Write(o); }
        else if (x.what == 2) { PSpec q = mo::rounded(s, 2, 4); x.p = q; o << "ROUNDEDCOMPOSITE[ " << q.radius << " " << q.eqr << " SingleAxis[] " << q.pts.size() << "\n"; for (auto& f : q.pts) o << k(f) << "\n"; o << "]"; }
        else { x.v.p1 = 0; x.v.p2 = x.p.len(); Trajectory_Segment T(x.p.build(pool), x.v.build()); T.Write(o); }
        o << s.pick(std::vector<std::string>{" ", "\n", "", "  "}); xs.push_back(x); }
    NOTE(o.str()); std::istringstream in(o.str() + " END[ "); clearIO(); Pool keep;
    for (int i = 0; i < n; ++i) { auto& x = xs[i];
        try {
            if (x.what == 0 || x.what == 2) { std::unique_ptr<Path> C(Path::Read(in)); NEAR(C->PathLength(), x.p.len(), 1e-7 * x.p.scale(), "length of item " << i); }
            else if (x.what == 1) { std::unique_ptr<VelocityProfile> C(VelocityProfile::Read(in)); x.v.set(*C); VRef r = x.v.ref(); std::unique_ptr<VelocityProfile> P(x.v.build()); sameProfile(*C, *P, tval(s, r), 0, x.v.str()); }
            else { std::unique_ptr<Trajectory> R(Trajectory::Read(in)); auto* S = dynamic_cast<Trajectory_Segment*>(R.get()); EXPECT(S && S->GetPath(), "a segment with a path"); NEAR(S->GetPath()->PathLength(), x.p.len(), 1e-7 * x.p.scale(), "length of the path of item " << i); }
        } catch (Error& er) { FAIL("item " << i << " is not readable: error " << er.GetType() << " " << er.Description() << clearIO() << "\n" << o.str()); }
        EXPECT(clearIO() == "", "the trace of reading item " << i << " is left behind");
    }
    std::string w; in >> w; EXPECT(w == "END[", "after the last item the stream continues with '" << w << "'");
}
