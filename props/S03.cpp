#include "solvers.hpp"
#include <atomic>
#include <thread>
using namespace sv;

static bool same(int kd, const CSpec& c, const In& in, double rcA, const Nums& a, double rcB, const Nums& b, std::string& why) {
    std::ostringstream o; o.precision(12);
    if (rcA != rcB) { o << "code " << rcA << " instead of " << rcB; why = o.str(); return false; }
    double tol = 1e-9; if (kd == GIVENS) { double cond; if (!givensDecided(c, in.q, cond)) return true; tol = 1e-7 * cond * (1 + mx(in.v)); }
    double w = worst(a, b); if (w <= tol) return true; o << "off by " << w << ": " << sv::str(a) << " instead of " << sv::str(b); why = o.str(); return false;
}
static CSpec anychain(Src& s) { GenOpt o = dynopt(); if (s.flip()) o.fixed = false; int kd = (int)s.raw(6); if (kd == 0) return ikchain(s, 0, 8); return s.chance(1, 10) ? CSpec() : cspec(s, o, 1, s.chance(1, 6) ? 8 : 5); }
// spoils an input: not-a-number, infinite or huge values, wrong sizes are made by the caller
static void poison(Src& s, In& i, bool& bad) { int kd = (int)s.raw(5); bad = kd > 0; double x = kd == 1 ? std::numeric_limits<double>::quiet_NaN() : kd == 2 ? std::numeric_limits<double>::infinity() : kd == 3 ? 1e150 : -1e18; if (kd == 0) return;
    int n = (int)i.q.size(), which = (int)s.raw(6); if (which == 0 && n) i.q((int)s.raw(n)) = x; else if (which == 1 && n) i.qd((int)s.raw(n)) = x; else if (which == 2 && n) { i.qdd((int)s.raw(n)) = x; i.tau((int)s.raw(n)) = x; } else if (which == 3) { i.v((int)s.raw(6)) = x; i.goal(0, 3) = x; for (auto& t : i.twists) t.second(0) = x; for (auto& t : i.goals) t.second(1, 3) = x; } else if (which == 4) { if (!i.w.empty()) i.w[s.raw(i.w.size())](1) = x; if (i.beta.size()) { i.beta(0) = x; i.alfa(2, 0) = x; } for (auto& t : i.wmap) t.second(2) = x; } else { i.goal(1, 1) = x; for (auto& t : i.goals) t.second(0, 0) = x; } }
struct Slot { int kd; CSpec c; std::shared_ptr<Chain> C; Set t; std::unique_ptr<Ad> A; std::vector<In> pool; };

LAW(histories, 25000, "two or three chain solvers (also of one kind, also sharing one chain) called in random order with inputs from a small pool, in between with wrong sizes, not-a-number, infinite or huge values: every clean call is compared with the first call of a fresh solver on an equal chain, inputs must be left alone; non-trivial: a solver is called again after a spoilt or refused call") {
    int n = s.range(1, 3); std::vector<Slot> S; int kd0 = (int)s.raw(NCHAIN); std::string why;
    for (int i = 0; i < n; ++i) { Slot x; x.kd = i && s.flip() ? kd0 : (i ? (int)s.raw(NCHAIN) : kd0); if (i && s.flip()) { x.c = S[0].c; x.C = S[0].C; s.label("shared chain"); } else { x.c = anychain(s); x.C = std::make_shared<Chain>(x.c.build()); } x.t = settings(s, x.c.nj()); x.A = make(x.kd, *x.C, x.t); for (int z = 0; z < 2; ++z) x.pool.push_back(input(s, x.c)); NOTE("solver " << i << ": " << CNAME[x.kd] << " on " << str(x.c)); s.label(CNAME[x.kd]); S.push_back(std::move(x)); }
    std::vector<bool> dirty(n, false);
    for (int r = 0, R = s.range(2, 8); r < R; ++r) {
        int i = (int)s.raw(n); Slot& x = S[i]; In in = s.chance(3, 4) ? x.pool[s.raw(2)] : input(s, x.c);
        if (s.chance(1, 3)) { bool bad; poison(s, in, bad); if (bad) { Call c(in); x.A->go(c); EXPECT(c.inputsKept, CNAME[x.kd] << " changed its input"); dirty[i] = true; NOTE("solver " << i << ": spoilt input"); continue; } }
        if (s.chance(1, 5)) { Call p(in); { auto P = make(x.kd, *x.C, x.t); P->go(p); } if (!p.args.empty()) { int k = (int)s.raw(p.args.size()); Call c(in, k, p.args[k].right + 1); x.A->go(c); dirty[i] = true; NOTE("solver " << i << ": wrong size"); continue; } }
        Chain copy = s.flip() ? Chain(*x.C) : x.c.build(); auto F = make(x.kd, copy, x.t); double rf, rc; bool kept; Nums f = run(*F, in, rf), a = run(*x.A, in, rc, &kept);
        EXPECT(kept, CNAME[x.kd] << " changed its input"); s.nontrivial(dirty[i]); NOTE("solver " << i << ": clean call " << r);
        if (!same(x.kd, x.c, in, rc, a, rf, f, why)) FAIL(CNAME[x.kd] << " (call " << r << (dirty[i] ? ", after refused or spoilt calls" : "") << "): " << why);
    }
    for (auto& x : S) { Chain D = x.c.build(); EXPECT(D.getNrOfSegments() == x.C->getNrOfSegments() && D.getNrOfJoints() == x.C->getNrOfJoints(), "chain"); double z = 0.3; for (unsigned i = 0; i < D.getNrOfSegments(); ++i) MNEAR(e(x.C->getSegment(i).pose(z)), e(D.getSegment(i).pose(z)), 0, "the chain was changed"); }
}
LAW(trees, 25000, "the same for two tree solvers, sharing a tree or not; non-trivial: a solver is called again after a spoilt or refused call") {
    struct TSlot { int kd; TSpec t; std::shared_ptr<Tree> T; Set p; std::unique_ptr<Ad> A; std::vector<In> pool; }; std::vector<TSlot> S; int n = s.range(1, 2);
    for (int i = 0; i < n; ++i) { TSlot x; x.kd = (int)s.raw(NTREE); if (i && s.flip()) { x.t = S[0].t; x.T = S[0].T; } else { x.t = tspec(s, dynopt(), s.chance(1, 10) ? 0 : 1, 6); x.T = std::make_shared<Tree>(x.t.build()); } x.p = settings(s, x.t.nj()); treeEnds(s, x.t, x.p); x.A = makeT(x.kd, *x.T, x.p); for (int z = 0; z < 2; ++z) x.pool.push_back(inputT(s, x.t, x.p)); NOTE("solver " << i << ": " << TNAME[x.kd]); s.label(TNAME[x.kd]); S.push_back(std::move(x)); }
    std::vector<bool> dirty(n, false);
    for (int r = 0, R = s.range(2, 8); r < R; ++r) {
        int i = (int)s.raw(n); TSlot& x = S[i]; In in = s.chance(3, 4) ? x.pool[s.raw(2)] : inputT(s, x.t, x.p);
        if (s.chance(1, 3)) { bool bad; poison(s, in, bad); if (bad) { Call c(in); x.A->go(c); EXPECT(c.inputsKept, "input"); dirty[i] = true; continue; } }
        if (s.chance(1, 5)) { In j = in; if (s.flip()) { j.name = "nobody"; j.twists["nobody"] = V6::Ones(); j.goals["nobody"] = M4::Identity(); Call c(j); x.A->go(c); } else { Call c(in, 0, x.t.nj() + 1); x.A->go(c); EXPECT(c.rc < 0, "size"); } dirty[i] = true; continue; }
        Tree copy = s.flip() ? Tree(*x.T) : x.t.build(); auto F = makeT(x.kd, copy, x.p); double rf, rc; bool kept; Nums f = run(*F, in, rf), a = run(*x.A, in, rc, &kept); EXPECT(kept, TNAME[x.kd] << " changed its input"); s.nontrivial(dirty[i]);
        EXPECT(rc == rf && worst(a, f) <= 1e-9, TNAME[x.kd] << " (call " << r << (dirty[i] ? ", after refused or spoilt calls" : "") << "): " << rc << " " << sv::str(a) << " instead of " << rf << " " << sv::str(f));
    }
}
LAW(tracking, 1500, "hundreds of calls of one chain solver along a joint path through regular and singular postures, each compared with a fresh solver; non-trivial: at least 50 calls on two or more joints") {
    CSpec c = s.flip() ? ikchain(s, 1, 8) : cspec_mov(s, dynopt(), 1, 6); Chain C = c.build(); int nj = c.nj(), kd = s.chance(1, 3) ? GIVENS : (int)s.raw(NCHAIN); Set t = settings(s, nj); auto A = make(kd, C, t); In in = input(s, c); VX step = jvecu(s, nj, s.flip() ? 0.02 : 0.3); int R = s.range(10, 300); if (kd == LMA || kd == NR || kd == NRJL || kd == EST) R = R / 10 + 1; s.nontrivial(R >= 50 && nj > 1); s.label(CNAME[kd]); NOTE(CNAME[kd] << " " << R << " calls on " << str(c)); std::string why;
    for (int r = 0; r < R; ++r) { if (s.chance(1, 30)) in.q = posture(s, nj); else in.q += step; in.v = V6(std::cos(0.1 * r), std::sin(0.1 * r), 0.2, 0.1, -0.3, 0.5); double rc, rf; Nums a = run(*A, in, rc); if (r % 5 && r != R - 1) continue; auto F = make(kd, C, t); Nums f = run(*F, in, rf); if (!same(kd, c, in, rc, a, rf, f, why)) FAIL(CNAME[kd] << ", call " << r << " of a path: " << why); }
}
LAW(threads, 300, "four chain or tree solvers, some of one kind, some on one shared chain, working at the same time in four threads: all answers equal those found beforehand by fresh solvers; non-trivial: two solvers of one kind at least") {
    const int N = 4; struct Job { int kd; CSpec c; std::shared_ptr<Chain> C; Set t; In in[3]; Nums want[3]; double rc[3]; std::unique_ptr<Ad> A; bool tree = false; TSpec ts; std::shared_ptr<Tree> T; }; std::vector<Job> J(N); int k0 = (int)s.raw(NCHAIN), kinds = 0;
    for (int i = 0; i < N; ++i) { Job& x = J[i]; x.tree = s.chance(1, 4); if (x.tree) { x.kd = (int)s.raw(NTREE); x.ts = tspec(s, dynopt(), 1, 5); x.T = std::make_shared<Tree>(x.ts.build()); x.t = settings(s, x.ts.nj()); treeEnds(s, x.ts, x.t); for (int z = 0; z < 3; ++z) { x.in[z] = inputT(s, x.ts, x.t); auto F = makeT(x.kd, *x.T, x.t); x.want[z] = run(*F, x.in[z], x.rc[z]); } x.A = makeT(x.kd, *x.T, x.t); s.label(TNAME[x.kd]); continue; }
        x.kd = s.chance(2, 3) ? k0 : (int)s.raw(NCHAIN); kinds += x.kd == k0; if (i && !J[0].tree && s.flip()) { x.c = J[0].c; x.C = J[0].C; } else { x.c = cspec_mov(s, dynopt(), 1, 6); x.C = std::make_shared<Chain>(x.c.build()); } x.t = settings(s, x.c.nj()); for (int z = 0; z < 3; ++z) { x.in[z] = input(s, x.c); auto F = make(x.kd, *x.C, x.t); x.want[z] = run(*F, x.in[z], x.rc[z]); } x.A = make(x.kd, *x.C, x.t); s.label(CNAME[x.kd]); }
    s.nontrivial(kinds > 1); int reps = 150; std::vector<std::string> err(N); std::atomic<int> ready(0); std::vector<std::thread> th;
    for (int i = 0; i < N; ++i) th.emplace_back([&, i] { Job& x = J[i]; ++ready; while (ready < N) {} int R = !x.tree && (x.kd == LMA || x.kd == NR || x.kd == NRJL) ? reps / 10 : reps; for (int r = 0; r < R && err[i].empty(); ++r) { double rc; Nums a = run(*x.A, x.in[r % 3], rc); std::string why; if (x.tree ? !(rc == x.rc[r % 3] && worst(a, x.want[r % 3]) <= 1e-9) : !same(x.kd, x.c, x.in[r % 3], rc, a, x.rc[r % 3], x.want[r % 3], why)) err[i] = std::string(x.tree ? TNAME[x.kd] : CNAME[x.kd]) + " beside other threads: " + (x.tree ? sv::str(a) + "instead of " + sv::str(x.want[r % 3]) : why); } });
    for (auto& t : th) t.join(); for (auto& x : err) if (!x.empty()) FAIL(x);
}
