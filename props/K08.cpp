#include "gen.hpp"
#include "treefksolverpos_recursive.hpp"
#include "treejnttojacsolver.hpp"
#include "chainfksolverpos_recursive.hpp"
#include "chainjnttojacsolver.hpp"
using namespace g;

LAW(kinematics, 80000, "trees of 0..12 segments built in random order, positions; every segment incl. the root; solvers built on the tree, a copy or a tree changed afterwards; non-trivial: branched with two or more movable joints") {
    GenOpt o; o.zeroscale = true; TSpec t = tspec(s, o, 0, 12); Tree T = t.build(); if (s.chance(1, 3)) { Tree c(T); T = c; }
    TreeFkSolverPos_recursive fkp(T); TreeJntToJacSolver js(T);
    int nj = t.nj(), n = (int)t.n.size(); VX q = jvec(s, nj, 4); NOTE(str(t) << "q " << str(q.transpose()));
    std::map<int, int> kids; bool branched = false; for (auto& x : t.n) branched = ++kids[x.parent] > 1 || branched;
    s.nontrivial(branched && nj >= 2); s.label(nj == 0 ? "no joints" : branched ? "branched" : "unbranched");
    double L = 1; for (auto& x : t.n) L += P3(x.s.tip).norm() + 2 * x.s.j.org().norm() + std::fabs(x.s.j.scale) * 4 + std::fabs(x.s.j.offset);
    double tol = 1e-12 * L * (2 + n);
    auto P = fk(t, q, VX(), VX());
    for (int i = -1; i < n; ++i) {
        std::string nm = i < 0 ? t.root : t.n[i].s.name; M4 want = i < 0 ? M4(M4::Identity()) : P[i].a;
        Frame F = Frame(Vector(7, 7, 7)); int rc = fkp.JntToCart(kj(q), F, nm);
        EXPECT(rc >= 0, "JntToCart(" << nm << ") returned " << rc); MNEAR(e(F), want, tol, "pose of " << nm);
        Jacobian J(nj); J.data.setConstant(5.5); rc = js.JntToJac(kj(q), J, nm); EXPECT(rc >= 0, "JntToJac(" << nm << ") returned " << rc);
        MX W = MX::Zero(6, nj);
        if (i >= 0) { CSpec pc = pathspec(t, i); auto pa = t.path(i); VX pq(pc.nj()); int j = 0; for (int a : pa) if (t.n[a].s.j.movable()) pq(j++) = q(t.jnr(a)); MX jc = jac(pc, pq, pc.ns()); j = 0; for (int a : pa) if (t.n[a].s.j.movable()) W.col(t.jnr(a)) = jc.col(j++);
            // the chain solvers on the extracted chain agree
            Chain c; EXPECT(T.getChain(t.root, nm, c), "getChain"); ChainFkSolverPos_recursive cf(c); ChainJntToJacSolver cj(c); Frame G; Jacobian CJ(pc.nj());
            EXPECT(cf.JntToCart(kj(pq), G) >= 0 && cj.JntToJac(kj(pq), CJ) >= 0, "chain solvers"); MNEAR(e(F), e(G), tol, "tree and chain pose of " << nm); MX JC(6, pc.nj()); j = 0; for (int a : pa) if (t.n[a].s.j.movable()) JC.col(j++) = J.data.col(t.jnr(a)); MNEAR(JC, CJ.data, 4 * tol, "tree and chain Jacobian of " << nm); }
        EXPECT((int)J.columns() == nj, "columns"); MNEAR(J.data, W, 4 * tol, "Jacobian of " << nm);
    }
    // later changes of the user's tree do not disturb the solvers, which hold their own copy
    if (n && s.flip()) { T.addSegment(Segment("later", Joint(Joint::RotX)), t.root); Frame F; int rc = fkp.JntToCart(kj(q), F, t.n[0].s.name); EXPECT(rc >= 0, "JntToCart after the tree grew"); MNEAR(e(F), P[0].a, tol, "pose after the user's tree grew"); }
}

LAW(rejects, 80000, "wrong joint counts, Jacobian widths and unknown names; non-trivial: the call must be rejected") {
    GenOpt o; TSpec t = tspec(s, o, 0, 6); Tree T = t.build(); TreeFkSolverPos_recursive fkp(T); TreeJntToJacSolver js(T); int nj = t.nj();
    for (int i = 0, calls = s.range(1, 5); i < calls; ++i) {
        int a = s.flip() ? nj : s.range(0, 7), b = s.flip() ? nj : s.range(0, 7); bool un = s.flip(); std::string nm = un ? (s.flip() ? "nobody" : "") : t.root;
        NOTE(str(t) << "sizes " << a << " " << b << " name '" << nm << "'");
        Frame F; int rc = fkp.JntToCart(kj(jvec(s, a)), F, nm); bool szf = a != nj, szj = a != nj || b != nj;
        EXPECT((szf || un) ? rc < 0 : rc >= 0, "JntToCart returned " << rc);
        Jacobian J(b); int rj = js.JntToJac(kj(jvec(s, a)), J, nm); EXPECT((szj || un) ? rj < 0 : rj >= 0, "JntToJac returned " << rj);
        if (un && nj != a) {   // size and name problems have different codes
            Frame G; int r2 = fkp.JntToCart(JntArray(nj), G, nm), r3 = fkp.JntToCart(JntArray(a), G, t.root); EXPECT(r2 < 0 && r3 < 0 && r2 != r3, "distinct codes " << r2 << " " << r3);
            Jacobian K2(nj); int r4 = js.JntToJac(JntArray(nj), K2, nm), r5 = js.JntToJac(JntArray(a), K2, t.root); EXPECT(r4 < 0 && r5 < 0 && r4 != r5, "distinct codes " << r4 << " " << r5);
        }
        s.nontrivial(szf || szj || un);
    }
}
