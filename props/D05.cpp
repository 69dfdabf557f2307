#include "dyn.hpp"
#include "treeidsolver_recursive_newton_euler.hpp"
#include "chainidsolver_recursive_newton_euler.hpp"
using namespace g;

static WrenchMap wmap(Src& s, const TSpec& t, std::vector<V6>& w) {
    WrenchMap m; int mode = (int)s.raw(3); w.assign(t.n.size(), V6(V6::Zero()));
    for (size_t i = 0; i < t.n.size(); ++i) if (mode == 2 || (mode == 1 && s.flip())) { w[i] = e(wrench(s, 10)); m[t.n[i].s.name] = kw(w[i]); }
    if (s.chance(1, 4)) m[t.root] = wrench(s, 10);   // the root is fixed: no joint feels it
    return m;
}

LAW(torques, 100000, "trees of 0..10 segments with random branching and names, gravity, states and wrenches on any subset of segments, several calls per solver, against projected Newton-Euler equations; non-trivial: two branches and two movable joints") {
    GenOpt o = dynopt(); TSpec t = tspec(s, o, 0, 10); Tree T = t.build(); V3 gr = gravity(s); TreeIdSolver_RNE sol(T, k(gr)); int nj = t.nj();
    for (int r = 0, R = s.range(1, 2); r < R; ++r) {
        VX q = jvec(s, nj, 4), qd = jvec(s, nj, 3), qdd = jvec(s, nj, 5); std::vector<V6> w; WrenchMap m = wmap(s, t, w);
        NOTE(str(t) << "gravity " << str(gr.transpose()) << " q " << str(q.transpose()) << " qd " << str(qd.transpose()) << " qdd " << str(qdd.transpose()) << " wrenches on " << m.size());
        bool br = false; for (size_t i = 0; i < t.n.size(); ++i) for (size_t j = 0; j < i; ++j) br |= t.n[i].parent == t.n[j].parent; s.nontrivial(br && nj >= 2); s.label(br ? "branched" : "unbranched");
        auto bs = bodies(t, q, qd, qdd); JntArray tau = kj(VX::Constant(nj, 3.3)), kq = kj(q), kd = kj(qd), kdd = kj(qdd); int rc = sol.CartToJnt(kq, kd, kdd, m, tau); EXPECT(rc == 0 && sol.getError() == 0, "CartToJnt returned " << rc);
        MNEAR(tau.data, invdyn(bs, jointInertias(t), qdd, gr, w), 1e-12 * dynScale(bs, gr, w, lenOf(t)), "torques"); MNEAR(e(kq), q, 0, "input"); MNEAR(e(kd), qd, 0, "input"); MNEAR(e(kdd), qdd, 0, "input");
    }
}

LAW(chains, 60000, "an unbranched tree against the chain solver, and a branched one as the sum over leaf-to-root chains built by an own decomposition (each segment's inertia counted on one chain only); non-trivial: two or more joints") {
    GenOpt o = dynopt(); TSpec t = tspec(s, o, 1, 8); int nj = t.nj(); V3 gr = gravity(s); VX q = jvec(s, nj, 4), qd = jvec(s, nj, 3), qdd = jvec(s, nj, 5); std::vector<V6> w; WrenchMap m = wmap(s, t, w); Tree T = t.build(); TreeIdSolver_RNE sol(T, k(gr)); JntArray tau(nj);
    NOTE(str(t) << "gravity " << str(gr.transpose()) << " q " << str(q.transpose()) << " qd " << str(qd.transpose()) << " qdd " << str(qdd.transpose())); s.nontrivial(nj >= 2);
    EXPECT(sol.CartToJnt(kj(q), kj(qd), kj(qdd), m, tau) == 0, "tree solver");
    VX sum = VX::Zero(nj); std::vector<bool> used(t.n.size(), false);
    for (size_t i = 0; i < t.n.size(); ++i) { bool leaf = true; for (auto& n : t.n) leaf &= n.parent != (int)i; if (!leaf) continue;
        auto p = t.path((int)i); CSpec c; Wrenches W; std::vector<int> idx; for (int a : p) { SSpec x = t.n[a].s; if (used[a]) { x.I = ISpec(); x.j.inertia = 0; W.push_back(Wrench::Zero()); } else W.push_back(kw(w[a])); used[a] = true; c.s.push_back(x); if (x.j.movable()) idx.push_back(t.jnr(a)); }
        Chain C = c.build(); ChainIdSolver_RNE cs(C, k(gr)); int n = (int)idx.size(); VX a(n), b(n), d(n); for (int z = 0; z < n; ++z) { a(z) = q(idx[z]); b(z) = qd(idx[z]); d(z) = qdd(idx[z]); } JntArray out(n); EXPECT(cs.CartToJnt(kj(a), kj(b), kj(d), W, out) == 0, "chain solver"); for (int z = 0; z < n; ++z) sum(idx[z]) += out(z); }
    MNEAR(tau.data, sum, 2e-12 * dynScale(bodies(t, q, qd, qdd), gr, w, lenOf(t)), "tree torques against the superposition of its chains");
}

LAW(rejects, 60000, "wrong sizes mixed with valid calls, and growth of the tree with and without update; non-trivial: the call must be rejected") {
    GenOpt o = dynopt(); TSpec t = tspec(s, o, 0, 5); Tree T = t.build(); V3 gr = gravity(s); TreeIdSolver_RNE sol(T, k(gr)); bool fresh = true;
    for (int r = 0, R = s.range(1, 5); r < R; ++r) {
        if (s.chance(1, 3)) { int nj0 = t.nj(); (void)nj0; TSpec::N n{sspec(s, o, "new" + std::to_string(t.n.size())), (int)s.raw(t.n.size() + 1) - 1}; t.n.push_back(n); EXPECT(T.addSegment(n.s.build(), t.pname((int)t.n.size() - 1)), "addSegment"); fresh = false; if (s.flip()) { sol.updateInternalDataStructures(); fresh = true; } }
        int nj = t.nj(), z[4]; bool bad = false; for (int& x : z) { x = s.chance(1, 6) ? s.range(0, 7) : nj; bad |= x != nj; } NOTE("joints " << nj << " sizes " << z[0] << " " << z[1] << " " << z[2] << " " << z[3] << (fresh ? "" : " not updated"));
        VX q = jvec(s, z[0]), qd = jvec(s, z[1]), qdd = jvec(s, z[2]); JntArray tau(z[3]); int rc = sol.CartToJnt(kj(q), kj(qd), kj(qdd), WrenchMap(), tau), want = !fresh ? SolverI::E_NOT_UP_TO_DATE : bad ? SolverI::E_SIZE_MISMATCH : 0; s.nontrivial(want != 0); EXPECT(rc == want && sol.getError() == want, "returned " << rc << ", expected " << want);
        if (!want) { std::vector<V6> w(t.n.size(), V6(V6::Zero())); auto bs = bodies(t, q, qd, qdd); MNEAR(tau.data, invdyn(bs, jointInertias(t), qdd, gr, w), 1e-12 * dynScale(bs, gr, w, lenOf(t)), "torques after growth"); }
    }
}
