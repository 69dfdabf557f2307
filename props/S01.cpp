#include "solvers.hpp"
using namespace sv;

static void codes(SolverI* s, double rc, int err, const char* what) { if (!s) return; EXPECT(err == (int)rc, what << ": returned " << rc << ", getError " << err); const char* t = s->strError((int)rc); EXPECT(t && *t && std::string(t) != "UNKNOWN ERROR", what << ": code " << rc << " is described as '" << (t ? t : "(null)") << "'"); }
static int wrong(Src& s, int n) { int k = (int)s.raw(5), v = k == 0 ? n + 1 : k == 1 ? n - 1 : k == 2 ? 0 : k == 3 ? 2 * n + 1 : n + 3; return v < 0 || v == n ? n + 1 : v; }
// why a call with matching sizes may still be refused
static bool mayFail(int kd, const Set& t, const CSpec& c, const In& i, int rc) {
    if (rc == SolverI::E_NOT_IMPLEMENTED) return (kd == VERID || kd == VERHD) && c.nj() != c.ns();
    if (rc == SolverI::E_OUT_OF_RANGE) return (kd == FKPOS || kd == FKVEL) && i.var != 0 && (i.seg == 0 || (i.seg < 0 && c.ns() == 0));
    if (rc == SolverI::E_SVD_FAILED) return t.maxiter < 150 && (kd == PINV || kd == NSO || kd == WDLS || kd == EST);
    if (rc == SolverI::E_MAX_ITERATIONS_EXCEEDED) return kd == NR || kd == NRJL || kd == LMA;
    if (rc == -100) return ((kd == NR || kd == NRJL) && t.maxiter < 150) || kd == LMA;
    if (rc == -101) return kd == LMA;
    return false;
}
static CSpec anychain(Src& s) { GenOpt o = dynopt(); int kd = (int)s.raw(8); if (kd == 0) return CSpec(); if (kd == 1) { CSpec c = cspec(s, o, 1, 3); for (auto& x : c.s) x.j.type = Joint::Fixed; return c; } if (kd <= 4) o.fixed = false; CSpec c = cspec(s, o, 1, s.chance(1, 6) ? 9 : 5); if (s.chance(1, 6)) for (auto& x : c.s) x.I = ISpec(); return c; }

LAW(sizes, 60000, "any chain solver with any settings on chains of 0..9 segments (empty and fixed-only ones too): a normal call, then calls with one argument of a wrong size and with a segment out of range, then the normal call again: code, getError, strError, no memory error, unchanged answer; non-trivial: a wrong size on a chain with at least one joint") {
    CSpec c = anychain(s); Chain C = c.build(); int nj = c.nj(), kd = (int)s.raw(NCHAIN); Set t = settings(s, nj); auto A = make(kd, C, t); In in = input(s, c); NOTE(CNAME[kd] << " on " << str(c)); s.label(CNAME[kd]);
    if (kd == FD) { bool light = false; for (auto& x : c.s) light = light || x.I.m == 0; if (light) s.label("massless"); }
    Call g0(in); A->go(g0); codes(A->si(), g0.rc, g0.err, "normal call"); EXPECT(g0.rc >= 0 || mayFail(kd, t, c, in, (int)g0.rc), CNAME[kd] << " refused a well-sized call with " << g0.rc);
    bool stopped = g0.rc < 0; int na = (int)g0.args.size();
    for (int r = 0, R = s.range(1, 4); r < R && na; ++r) {
        int k = (int)s.raw(na), bs = wrong(s, g0.args[k].right); NOTE("argument " << g0.args[k].what << " of size " << bs << " instead of " << g0.args[k].right); Call b(in, k, bs); A->go(b); codes(A->si(), b.rc, b.err, "wrong size"); s.nontrivial(nj > 0);
        bool freeOut = (kd == FKPOS || kd == FKVEL) && stopped; if (!freeOut) EXPECT(b.rc == SolverI::E_SIZE_MISMATCH, CNAME[kd] << ": " << g0.args[k].what << " of size " << bs << " instead of " << g0.args[k].right << " gives " << b.rc); else EXPECT(b.rc < 0, "accepted"); EXPECT(b.inputsKept, "inputs changed");
    }
    if (kd <= JACDOT && s.flip()) { In j = in; j.seg = c.ns() + 1 + (int)s.raw(3); j.var = 0; Call b(j); A->go(b); codes(A->si(), b.rc, b.err, "segment out of range"); EXPECT(b.rc == SolverI::E_OUT_OF_RANGE, CNAME[kd] << ": segment " << j.seg << " of " << c.ns() << " gives " << b.rc); }
    Call g1(in); A->go(g1); codes(A->si(), g1.rc, g1.err, "normal call afterwards"); EXPECT(g1.rc == g0.rc, "normal call returned " << g0.rc << ", after refused calls " << g1.rc);
    double cond; if (kd != GIVENS || givensDecided(c, in.q, cond)) { double w = worst(g1.out, g0.out); EXPECT(w <= (kd == GIVENS ? 1e-6 * (1 + cond) : 1e-9), CNAME[kd] << ": answer changed by " << w << " after refused calls: " << sv::str(g0.out) << " then " << sv::str(g1.out)); }
}
LAW(settings, 40000, "settings of a wrong size (locked joints, weights, optimal positions, limits) given by setters or constructors, and velocity solvers of another chain inside a position solver: refused with a code or every call refused, the solver otherwise unchanged; non-trivial: at least one joint") {
    CSpec c = anychain(s); Chain C = c.build(); int nj = c.nj(); Set t = settings(s, nj); t.maxiter = 150; In in = input(s, c); s.nontrivial(nj > 0); int kd = (int)s.raw(9); int bad = wrong(s, nj); NOTE("case " << kd << " size " << bad << " instead of " << nj << " on " << str(c)); s.label("case " + std::to_string(kd));
    auto again = [&](Ad& A, const std::function<int()>& set) { Call a(in); A.go(a); int rc = set(); EXPECT(rc == SolverI::E_SIZE_MISMATCH, "a setting of size " << bad << " instead of " << nj << " was answered " << rc); codes(A.si(), rc, A.si()->getError(), "setter"); Call b(in); A.go(b); EXPECT(a.rc == b.rc && worst(a.out, b.out) <= 1e-9, "a refused setting changed the answer"); };
    if (kd == 0) { AJac A(C, t); again(A, [&] { return A.s.setLockedJoints(std::vector<bool>(bad, true)); }); }
    else if (kd == 1) { AJacDot A(C, t); again(A, [&] { return A.s.setLockedJoints(std::vector<bool>(bad, true)); }); }
    else if (kd == 2) { ANso A(C, t); bool w = s.flip(); again(A, [&] { return w ? A.s->setWeights(JntArray(bad)) : A.s->setOptPos(JntArray(bad)); }); }
    else if (kd == 3) { AWdls A(C, t); int v = (int)s.raw(5), o6 = wrong(s, 6); again(A, [&] { Eigen::VectorXd S(bad); return v == 0 ? A.s->setWeightJS(MX::Identity(bad, bad)) : v == 1 ? A.s->setWeightJS(MX::Zero(nj, bad)) : v == 2 ? A.s->setWeightTS(MX::Identity(o6, o6)) : v == 3 ? A.s->setWeightTS(MX::Zero(o6, 6)) : A.s->getSigma(S); }); }
    else if (kd == 4) { t.lim = true; ANrJl A(C, t); bool w = s.flip(); again(A, [&] { return static_cast<ChainIkSolverPos_NR_JL&>(*A.s).setJointLimits(w ? JntArray(bad) : kj(t.lo), w ? kj(t.hi) : JntArray(bad)); }); }
    else if (kd == 5 || kd == 6) { Set u = t; (s.flip() ? (kd == 5 ? u.lo : u.opt) : (kd == 5 ? u.hi : u.wgt)) = VX::Zero(bad); u.viaSetters = false; u.lim = true; std::unique_ptr<Ad> A = make(kd == 5 ? NRJL : NSO, C, u); Call a(in); A->go(a); EXPECT(a.rc == SolverI::E_SIZE_MISMATCH, "constructed with a list of size " << bad << " instead of " << nj << ", a call gives " << a.rc); codes(A->si(), a.rc, a.err, "call"); }
    else { CSpec d = anychain(s); if (d.nj() == nj) s.discard(); Chain D = d.build(); Set u = settings(s, d.nj()); u.maxiter = 150; bool fkbad = s.flip(); auto v = velAd(fkbad ? C : D, fkbad ? t : u); ChainFkSolverPos_recursive f(fkbad ? D : C); t.piter = 5; std::unique_ptr<ChainIkSolverPos> P; if (kd == 7) P.reset(new ChainIkSolverPos_NR(C, f, velOf(*v), 5)); else P.reset(new ChainIkSolverPos_NR_JL(C, f, velOf(*v), 5));
        in.goal = in.goal * mk4(M3::Identity(), V3(0.5, 0.1, 0.2)); JntArray o(nj); int rc = P->CartToJnt(kj(in.q), k(in.goal), o); codes(P.get(), rc, P->getError(), "mismatched inner solver"); EXPECT(rc == (fkbad ? -101 : -100), "inner solver of another chain: " << rc); }
}
LAW(trees, 40000, "any tree solver on trees of 0..7 segments: joint lists of wrong size, unknown segment and end-point names, weights and limits of wrong size, then a normal call: negative code, no memory error, unchanged answer; non-trivial: at least one joint and a refused call") {
    TSpec t = tspec(s, dynopt(), s.chance(1, 10) ? 0 : 1, 7); if (s.chance(1, 10)) for (auto& n : t.n) n.s.j.type = Joint::Fixed; Tree T = t.build(); int nj = t.nj(), kd = (int)s.raw(NTREE); Set p = settings(s, nj); treeEnds(s, t, p); In in = inputT(s, t, p); auto A = makeT(kd, T, p); NOTE(TNAME[kd]); s.label(TNAME[kd]);
    Call g0(in); A->go(g0); codes(A->si(), g0.rc, g0.err, "normal call"); EXPECT(g0.rc >= 0 || (kd == TNR && g0.rc == -3), TNAME[kd] << " refused a well-sized call with " << g0.rc);
    for (int r = 0, R = s.range(1, 3); r < R; ++r) { int k = (int)s.raw(g0.args.size()), bs = wrong(s, g0.args[k].right); Call b(in, k, bs); A->go(b); codes(A->si(), b.rc, b.err, "wrong size"); s.nontrivial(nj > 0); EXPECT(b.rc < 0, TNAME[kd] << ": " << g0.args[k].what << " of size " << bs << " instead of " << nj << " gives " << b.rc); if (A->si()) EXPECT(b.rc == SolverI::E_SIZE_MISMATCH, TNAME[kd] << ": " << b.rc); EXPECT(b.inputsKept, "inputs changed"); }
    if (kd != TID && s.flip()) { In j = in; j.name = "no such segment"; j.twists["no such segment"] = V6::Ones(); j.goals["no such segment"] = M4::Identity(); Call b(j); A->go(b); EXPECT(b.rc < 0, TNAME[kd] << ": an unknown name gives " << b.rc); }
    if (kd == TVEL || kd == TNR || kd == TON) { Set u = p; int w = (int)s.raw(kd == TON ? 5 : kd == TNR ? 4 : 2), bad = wrong(s, nj); if (w == 0) u.wjs = MX::Identity(bad, bad); else if (w == 1) { int b6 = wrong(s, (int)p.ytask.rows()); u.ytask = MX::Identity(b6, b6); } else if (w == 2) u.lo = VX::Zero(bad); else if (w == 3) u.hi = VX::Zero(bad); else u.qdmax = VX::Zero(bad); auto B = makeT(kd, T, u); Call b(in); B->go(b); EXPECT(b.rc < 0, TNAME[kd] << ": weights or limits (" << w << ") of size " << bad << " instead of " << nj << " give " << b.rc);
        u = p; u.ends.push_back("no such end"); int n = 6 * (int)u.ends.size(); u.ytask = MX::Identity(n, n); auto D = makeT(kd, T, u); Call d(in); D->go(d); EXPECT(d.rc < 0, TNAME[kd] << ": an end point that does not exist gives " << d.rc); }
    Call g1(in); A->go(g1); EXPECT(g1.rc == g0.rc && worst(g1.out, g0.out) <= 1e-9, TNAME[kd] << ": after refused calls " << g0.rc << " " << sv::str(g0.out) << " became " << g1.rc << " " << sv::str(g1.out));
}

// what a solver does not implement is refused
LAW(unimplemented, 8000, "velocity solvers asked for joint velocities along a moving frame, which none implements, between two normal calls; joint arrays of right and wrong size; non-trivial: at least one joint") {
    CSpec c = anychain(s); Chain C = c.build(); int nj = c.nj(), n = s.flip() ? nj : s.range(0, 9), which = (int)s.raw(4); s.nontrivial(nj > 0); NOTE(which << " with " << n << " on " << str(c));
    std::unique_ptr<ChainIkSolverVel> S; if (which == 0) S.reset(new ChainIkSolverVel_pinv(C)); else if (which == 1) S.reset(new ChainIkSolverVel_pinv_givens(C)); else if (which == 2) S.reset(new ChainIkSolverVel_pinv_nso(C)); else S.reset(new ChainIkSolverVel_wdls(C));
    VX q = jvec(s, nj); V6 v = e(twist(s)); JntArray a(nj), b(nj); int r0 = S->CartToJnt(kj(q), kt(v), a); VX x = jvec(s, n), xd = jvec(s, n); JntArrayVel o(kj(x), kj(xd));
    int rc = S->CartToJnt(kj(jvec(s, n)), FrameVel(Frame(k(frameM(s))), kt(v)), o); EXPECT(rc == SolverI::E_NOT_IMPLEMENTED && S->getError() == rc, "returned " << rc << ", getError " << S->getError()); codes(S.get(), rc, S->getError(), "call that is not implemented");
    MNEAR(e(o.q), x, 0, "output"); MNEAR(e(o.qdot), xd, 0, "output"); int r1 = S->CartToJnt(kj(q), kt(v), b); EXPECT(r0 == r1, "normal call returned " << r0 << ", afterwards " << r1); if (which != 1) MNEAR(e(a), e(b), 0, "answer afterwards");
}
