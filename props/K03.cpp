#include "gen.hpp"
#include "chainfksolverpos_recursive.hpp"
#include "chainfksolvervel_recursive.hpp"
#include "treefksolverpos_recursive.hpp"
using namespace g;

static GenOpt opt() { GenOpt o; o.jinertia = o.jdamp = true; o.dyn = true; return o; }
static Jet4 invj(const Jet4& T) { M4 I = inv4(T.a); Jet4 r; r.a = I; r.b = -I * T.b * I; r.c = M4::Zero(); return r; }

LAW(get_chain, 150000, "trees of up to 10 segments with all joint kinds, scales and offsets; every random node pair (down, up, across, equal, root), positions and rates; non-trivial: the path contains a movable joint walked upwards") {
    TSpec t = tspec(s, opt(), 1, 10); Tree T = t.build();
    if (s.chance(1, 4)) { Tree c(T); T = c; }
    int n = (int)t.n.size(), a = (int)s.raw(n + 1) - 1, b = (int)s.raw(n + 1) - 1;
    VX q = jvec(s, t.nj()), qd = jvec(s, t.nj());
    auto nm = [&](int i) { return i < 0 ? t.root : t.n[i].s.name; };
    NOTE(str(t) << "getChain(" << nm(a) << ", " << nm(b) << ") q " << str(q.transpose()) << " qd " << str(qd.transpose()));
    Chain c; if (s.flip()) c.addSegment(Segment("old", Joint(Joint::RotX)));
    EXPECT(T.getChain(nm(a), nm(b), c), "getChain between existing segments");
    // path
    auto pa = t.path(a), pb = t.path(b); size_t k2 = 0; while (k2 < pa.size() && k2 < pb.size() && pa[k2] == pb[k2]) ++k2;
    std::vector<int> up(pa.rbegin(), pa.rend() - k2), down(pb.begin() + k2, pb.end());
    EXPECT(c.getNrOfSegments() == up.size() + down.size(), "number of segments " << c.getNrOfSegments() << " expected " << up.size() + down.size());
    std::map<std::string, int> jn; for (int i = 0; i < n; ++i) jn[t.n[i].s.j.name] = t.jnr(i);
    unsigned nj = 0; double L = 1; bool mu = false;
    for (unsigned i = 0; i < c.getNrOfSegments(); ++i) {
        bool isup = i < up.size(); int nd = isup ? up[i] : down[i - up.size()];
        const SSpec& x = t.n[nd].s; const Segment& S = c.getSegment(i); const Joint& J = S.getJoint();
        int body = isup ? t.n[nd].parent : nd;   // the body this segment moves
        EXPECT(S.getName() == nm(body), "segment " << i << " is called " << S.getName() << ", expected " << nm(body));
        EXPECT(J.getName() == x.j.name, "joint " << i << " is called " << J.getName());
        EXPECT((J.getType() != Joint::Fixed) == x.j.movable(), "joint kind of " << J.getName());
        bool rot = J.getType() == Joint::RotX || J.getType() == Joint::RotY || J.getType() == Joint::RotZ || J.getType() == Joint::RotAxis;
        EXPECT(!x.j.movable() || rot == x.j.rotational(), "joint kind of " << J.getName());
        EXPECT(J.getInertia() == x.j.inertia && J.getDamping() == x.j.damping && J.getStiffness() == x.j.stiffness, "mechanical properties of joint " << J.getName() << (isup ? " (walked upwards)" : ""));
        NEAR(S.getInertia().getMass(), body < 0 ? 0.0 : t.n[body].s.I.m, 0, "mass of " << S.getName());
        MNEAR(e(S.getInertia().getCOG()), body < 0 ? V3(V3::Zero()) : t.n[body].s.I.c, 1e-13, "cog of " << S.getName());
        if (x.j.movable()) { ++nj; mu = mu || isup; }
        L += P3(x.tip).norm() + x.j.org().norm() * 2 + std::fabs(x.j.scale) * 3 + std::fabs(x.j.offset);
    }
    EXPECT(c.getNrOfJoints() == nj, "number of joints");
    s.nontrivial(mu); s.label(up.empty() ? "down" : down.empty() ? "up" : "across");
    // forward kinematics with the joint values copied by name
    JntArray cq(nj), cqd(nj); unsigned j = 0;
    for (unsigned i = 0; i < c.getNrOfSegments(); ++i) if (c.getSegment(i).getJoint().getType() != Joint::Fixed) { int z = jn[c.getSegment(i).getJoint().getName()]; cq(j) = q(z); cqd(j) = qd(z); ++j; }
    auto P = fk(t, q, qd, VX());
    auto at = [&](int i) { return i < 0 ? Jet4::cst(M4::Identity()) : P[i]; };
    Jet4 rel = invj(at(a)) * at(b);
    ChainFkSolverPos_recursive fp(c); Frame F;
    EXPECT(fp.JntToCart(cq, F) >= 0, "chain FK");
    MNEAR(e(F), rel.a, 1e-11 * L, "pose of the tip relative to the chain's root");
    ChainFkSolverVel_recursive fv(c); FrameVel V;
    EXPECT(fv.JntToCart(JntArrayVel(cq, cqd), V) >= 0, "chain velocity FK");
    MNEAR(e(V.GetFrame()), rel.a, 1e-11 * L, "pose from the velocity solver");
    MNEAR(e(V.GetTwist()), twistOf(rel), 1e-11 * L * 60, "velocity of the tip relative to the chain's root");
    // intermediate bodies as well
    Jet4 x0 = invj(at(a));
    for (unsigned i = 0; i < c.getNrOfSegments(); ++i) {
        int body = i < up.size() ? t.n[up[i]].parent : down[i - up.size()];
        EXPECT(fp.JntToCart(cq, F, i + 1) >= 0, "chain FK"); MNEAR(e(F), (x0 * at(body)).a, 1e-11 * L, "pose of intermediate segment " << i);
    }
}

LAW(get_chain_unknown, 30000, "getChain and getSubTree with one or both names unknown; non-trivial: every case") {
    TSpec t = tspec(s, opt(), 0, 6); Tree T = t.build(); int n = (int)t.n.size(), a = (int)s.raw(n + 1) - 1;
    std::string nm = a < 0 ? t.root : t.n[a].s.name; Chain c; Tree u;
    std::string bad = s.flip() ? "nobody" : s.flip() ? "" : nm + " ";
    NOTE(str(t) << " name " << nm << " bad " << bad);
    s.nontrivial();
    EXPECT(!T.getChain(nm, bad, c), "unknown tip"); EXPECT(!T.getChain(bad, nm, c), "unknown root"); EXPECT(!T.getChain(bad, bad, c), "unknown root and tip"); EXPECT(!T.getSubTree(bad, u), "unknown subtree");
    EXPECT(T.getChain(nm, nm, c) && c.getNrOfSegments() == 0 && c.getNrOfJoints() == 0, "chain from a segment to itself is empty");
}

LAW(get_subtree, 100000, "subtrees at every node; positions copied by joint name; non-trivial: the subtree has a movable joint and its root is not the tree's") {
    TSpec t = tspec(s, opt(), 1, 10); Tree T = t.build(), U("junk"); U.addSegment(Segment("x", Joint(Joint::RotY)), "junk");
    int n = (int)t.n.size(), a = (int)s.raw(n + 1) - 1; VX q = jvec(s, t.nj());
    auto nm = [&](int i) { return i < 0 ? t.root : t.n[i].s.name; };
    NOTE(str(t) << "getSubTree(" << nm(a) << ") q " << str(q.transpose()));
    EXPECT(T.getSubTree(nm(a), U), "getSubTree of an existing segment");
    std::vector<int> in; unsigned nj = 0; double L = 1;
    for (int i = 0; i < n; ++i) { auto p = t.path(i); bool below = a < 0 || (i != a && std::find(p.begin(), p.end(), a) != p.end()); if (below) { in.push_back(i); nj += t.n[i].s.j.movable(); } L += P3(t.n[i].s.tip).norm() + t.n[i].s.j.org().norm() * 2 + std::fabs(t.n[i].s.j.scale) * 3 + std::fabs(t.n[i].s.j.offset); }
    s.nontrivial(nj > 0 && a >= 0);
    EXPECT(U.getNrOfSegments() == in.size() && U.getSegments().size() == in.size() + 1, "segments"); EXPECT(U.getNrOfJoints() == nj, "joints"); EXPECT(U.getRootSegment()->first == nm(a), "root name");
    JntArray uq(nj); std::vector<int> seen(nj, 0);
    for (int i : in) {
        auto it = U.getSegment(nm(i)); EXPECT(it != U.getSegments().end(), "segment " << nm(i) << " missing");
        const Segment& S = GetTreeElementSegment(it->second); const SSpec& x = t.n[i].s;
        EXPECT(GetTreeElementParent(it->second)->first == t.pname(i), "parent of " << nm(i));
        EXPECT(S.getJoint().getScale() == x.j.scale && S.getJoint().getOffset() == x.j.offset && S.getJoint().getInertia() == x.j.inertia && S.getInertia().getMass() == x.I.m, "properties of " << nm(i));
        if (x.j.movable()) { unsigned z = GetTreeElementQNr(it->second); EXPECT(z < nj && !seen[z], "joint numbers are a permutation"); seen[z] = 1; uq(z) = q(t.jnr(i)); }
    }
    auto P = fk(t, q, VX(), VX()); M4 base = a < 0 ? M4(M4::Identity()) : P[a].a;
    TreeFkSolverPos_recursive fkp(U);
    for (int i : in) { Frame F; EXPECT(fkp.JntToCart(uq, F, nm(i)) >= 0, "tree FK of " << nm(i)); MNEAR(e(F), inv4(base) * P[i].a, 1e-11 * L, "pose of " << nm(i) << " relative to the subtree's root");
        Chain c; EXPECT(U.getChain(nm(a), nm(i), c), "chain in the subtree"); }
    Chain c; if (a >= 0) EXPECT(!U.getChain(t.root, nm(a), c), "the subtree does not contain the old root");
}
