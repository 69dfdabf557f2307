#include "gen.hpp"
#include "chainfksolverpos_recursive.hpp"
using namespace g;

static double scaleOf(const CSpec& c) { double L = 1; for (auto& x : c.s) L += P3(x.tip).norm() + 2 * x.j.org().norm() + std::fabs(x.j.scale) * 4 + std::fabs(x.j.offset); return L; }
static VX qv(Src& s, int n) { return s.chance(1, 8) ? jvec(s, n, 100) : jvec(s, n, 4); }

LAW(pose, 120000, "chains of 0..12 segments with all joint kinds, scales, offsets; positions up to 100; every segment number from -3 to n, in random order on one solver; non-trivial: two or more movable joints and a fixed one, or the chain grows under the solver") {
    GenOpt o; o.zeroscale = true;
    CSpec c = cspec(s, o, 0, 12); Chain C = c.build();
    ChainFkSolverPos_recursive fk1(C);
    int rounds = s.range(1, 3); bool grew = false;
    for (int r = 0; r < rounds; ++r) {
        if (r && s.flip()) { SSpec x = sspec(s, o, "x" + std::to_string(r)); c.s.push_back(x); C.addSegment(x.build()); if (s.flip()) fk1.updateInternalDataStructures(); grew = true; }
        VX q = qv(s, c.nj()); NOTE(str(c) << "q " << str(q.transpose()));
        JntArray Q = kj(q); VX q0 = q;
        double tol = 1e-13 * scaleOf(c) * (1 + mx(q)) * (1 + c.ns());
        auto P = fk(c, q);
        s.nontrivial(grew || (c.nj() >= 2 && c.nj() < c.ns()));
        int tries = s.range(1, 4);
        for (int t = 0; t < tries; ++t) {
            int sg = s.range(-3, c.ns()); int n = sg < 0 ? c.ns() : sg;
            M4 want = n == 0 ? M4(M4::Identity()) : P[n - 1].a;
            Frame F = frame(s);
            int rc = sg == -1 && s.flip() ? fk1.JntToCart(Q, F) : fk1.JntToCart(Q, F, sg);
            EXPECT(rc >= 0, "JntToCart(" << sg << ") returned " << rc); EXPECT(fk1.getError() == rc, "getError");
            MNEAR(e(F), want, tol, "pose of segment " << sg);
            Frame F2; fk1.JntToCart(Q, F2, sg); MNEAR(e(F2), e(F), 0, "same call, same answer");
            std::vector<Frame> v(n, frame(s));
            rc = fk1.JntToCart(Q, v, sg);
            if (n) {
                EXPECT(rc >= 0, "JntToCart(vector, " << sg << ") returned " << rc); EXPECT(fk1.getError() == rc, "getError"); EXPECT((int)v.size() == n, "vector size kept");
                for (int i = 0; i < n; ++i) MNEAR(e(v[i]), P[i].a, tol, "pose " << i << " of the all-segments overload for " << sg);
            }
        }
        MNEAR(e(Q), q0, 0, "joint values are not modified");
    }
}

LAW(rejects, 150000, "wrong joint counts, segment numbers beyond the chain and result vectors of the wrong length, mixed with valid calls; non-trivial: the call must be rejected") {
    GenOpt o; CSpec c = cspec(s, o, 0, 6); Chain C = c.build(); ChainFkSolverPos_recursive fk1(C);
    int calls = s.range(1, 6);
    for (int i = 0; i < calls; ++i) {
        int nq = s.flip() ? c.nj() : s.range(0, 8), sg = s.flip() ? -1 : s.range(-2, c.ns() + 4); int n = sg < 0 ? c.ns() : sg;
        bool bad = nq != c.nj() || n > c.ns();
        NOTE(c.ns() << " segments " << c.nj() << " joints; q size " << nq << " segment " << sg);
        JntArray Q = kj(jvec(s, nq)); Frame F;
        int rc = fk1.JntToCart(Q, F, sg);
        EXPECT(bad ? rc < 0 : rc >= 0, "JntToCart returned " << rc); EXPECT(fk1.getError() == rc, "getError " << fk1.getError() << " after " << rc);
        if (bad) EXPECT(rc == (nq != c.nj() ? SolverI::E_SIZE_MISMATCH : SolverI::E_OUT_OF_RANGE), "error code " << rc);
        const char* m = fk1.strError(rc); EXPECT(m && *m, "error text");
        int nv = s.flip() ? n : s.range(0, 8); if (nv > 30) nv = 30;
        std::vector<Frame> v(nv); bool vbad = bad || nv != n;
        rc = fk1.JntToCart(Q, v, sg);
        if (n || vbad) { EXPECT(vbad ? rc < 0 : rc >= 0, "JntToCart(vector of " << nv << ") returned " << rc); EXPECT(fk1.getError() == rc, "getError " << fk1.getError() << " after " << rc); }
        s.nontrivial(bad || vbad);
    }
}
