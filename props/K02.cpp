#include "gen.hpp"
using namespace g;

static GenOpt opt() { GenOpt o; o.jinertia = o.jdamp = true; o.dyn = true; return o; }

static void same(const Segment& S, const SSpec& x, const char* w) {
    EXPECT(S.getName() == x.name, w << ": segment name " << S.getName() << " expected " << x.name);
    const Joint& J = S.getJoint();
    EXPECT(J.getName() == x.j.name && J.getType() == (Joint::JointType)x.j.type && J.getScale() == x.j.scale && J.getOffset() == x.j.offset && J.getInertia() == x.j.inertia &&
           J.getDamping() == x.j.damping && J.getStiffness() == x.j.stiffness, w << ": joint of " << x.name);
    double L = 1 + std::fabs(x.j.offset) + x.j.org().norm() + P3(x.tip).norm();
    MNEAR(e(S.getFrameToTip()), x.tip, 1e-12 * L, w << ": tip of " << x.name);
    MNEAR(e(S.pose(0.7)), x.pose(0.7), 1e-12 * (L + 3), w << ": pose of " << x.name);
    NEAR(S.getInertia().getMass(), x.I.m, 0, w << ": mass of " << x.name);
    MNEAR(e(S.getInertia().getCOG()), x.I.c, 1e-13, w << ": cog of " << x.name);
}
static void same(const Chain& C, const CSpec& m, const char* w) {
    EXPECT((int)C.getNrOfSegments() == m.ns(), w << ": " << C.getNrOfSegments() << " segments, expected " << m.ns());
    EXPECT((int)C.getNrOfJoints() == m.nj(), w << ": " << C.getNrOfJoints() << " joints, expected " << m.nj());
    EXPECT((int)C.segments.size() == m.ns(), w << ": segment list");
    for (int i = 0; i < m.ns(); ++i) same(C.getSegment(i), m.s[i], w);
}

LAW(chain_history, 150000, "three chains under random sequences of addSegment (new, own or another chain's segment), addChain (another or itself), copy, assignment (also to itself) and in-place edits; non-trivial: at least one self-reference or copy followed by an edit") {
    const int K = 3; Chain c[K]; CSpec m[K];
    int n = s.range(2, 14), id = 0; bool special = false;
    std::ostringstream log;
    for (int i = 0; i < n; ++i) {
        int a = (int)s.raw(K), b = (int)s.raw(K);
        uint64_t op = s.raw(10);
        if (m[a].ns() > 40) op = 9;
        switch (op) {
        case 0: case 1: case 2: { SSpec x = sspec(s, opt(), "s" + std::to_string(id++ % 5)); NOTE("c" << a << ".addSegment " << str(x)); c[a].addSegment(x.build()); m[a].s.push_back(x); break; }
        case 3: { if (!m[b].ns()) break; int j = (int)s.raw(m[b].ns()); NOTE("c" << a << ".addSegment(c" << b << ".getSegment(" << j << "))"); SSpec x = m[b].s[j]; c[a].addSegment(c[b].getSegment(j)); m[a].s.push_back(x); special = special || a == b; break; }
        case 4: case 5: { NOTE("c" << a << ".addChain(c" << b << ")"); auto v = m[b].s; c[a].addChain(c[b]); m[a].s.insert(m[a].s.end(), v.begin(), v.end()); special = special || (a == b && v.size()); break; }
        case 6: { NOTE("c" << a << " = c" << b); Chain& r = c[a]; r = c[b]; if (a != b) m[a] = m[b]; special = special || (a == b && m[a].ns()); break; }
        case 7: { NOTE("c" << a << " = Chain(c" << b << ")"); Chain t(c[b]); same(t, m[b], "copy"); c[a] = t; m[a] = m[b]; if (t.getNrOfSegments()) { t.getSegment(0).setInertia(RigidBodyInertia(55)); t.addSegment(Segment("z")); } break; }
        case 8: { if (!m[a].ns()) break; int j = (int)s.raw(m[a].ns()); NOTE("edit c" << a << "[" << j << "]"); if (s.flip()) { m[a].s[j].I = ispec(s); c[a].getSegment(j).setInertia(m[a].s[j].I.build()); } else { m[a].s[j].tip = frameM(s); c[a].getSegment(j).setFrameToTip(k(m[a].s[j].tip)); } special = true; break; }
        case 9: { NOTE("c" << a << " = Chain()"); c[a] = Chain(); m[a] = CSpec(); break; }
        }
        for (int q = 0; q < K; ++q) same(c[q], m[q], "chain");
    }
    s.nontrivial(special);
}

// ---- tree model: pre-order numbering of added trees, insertion order of children
struct TM {
    struct N { SSpec s; std::string parent; int q; std::vector<std::string> ch; };
    std::string root; std::map<std::string, N> n; std::vector<std::string> rootch; int nj = 0;
    explicit TM(const std::string& r = "root") : root(r) {}
    bool has(const std::string& x) const { return x == root || n.count(x); }
    const std::vector<std::string>& ch(const std::string& x) const { return x == root ? rootch : n.at(x).ch; }
    bool add(const SSpec& x, const std::string& hook) {
        if (!has(hook) || has(x.name)) return false;
        N e; e.s = x; e.parent = hook; e.q = x.j.movable() ? nj : 0; nj += x.j.movable();
        (hook == root ? rootch : n[hook].ch).push_back(x.name);
        n[x.name] = e;
        return true;
    }
    bool addTree(const TM& o, const std::string& from, const std::string& hook) {
        for (auto& c : o.ch(from)) { if (!add(o.n.at(c).s, hook)) return false; if (!addTree(o, c, c)) return false; }
        return true;
    }
    std::string any(Src& s) const { int i = (int)s.raw(n.size() + 1); if (i == 0) return root; auto it = n.begin(); std::advance(it, i - 1); return it->first; }
    int depth(std::string x) const { int d = 0; while (x != root) { x = n.at(x).parent; ++d; } return d; }
    void pre(const std::string& x, std::vector<std::string>& o) const { o.push_back(x); for (auto& c : ch(x)) pre(c, o); }
};
static void same(const Tree& T, const TM& m, const char* w) {
    EXPECT(T.getNrOfSegments() == m.n.size(), w << ": " << T.getNrOfSegments() << " segments, expected " << m.n.size());
    EXPECT((int)T.getNrOfJoints() == m.nj, w << ": " << T.getNrOfJoints() << " joints, expected " << m.nj);
    EXPECT(T.getSegments().size() == m.n.size() + 1, w << ": map size");
    auto r = T.getRootSegment();
    EXPECT(r != T.getSegments().end() && r->first == m.root && GetTreeElementSegment(r->second).getName() == m.root, w << ": root");
    EXPECT(T.getSegment("no such segment") == T.getSegments().end(), w << ": unknown name");
    auto children = [&](SegmentMap::const_iterator it, const std::vector<std::string>& c, const std::string& nm) {
        const auto& v = GetTreeElementChildren(it->second);
        EXPECT(v.size() == c.size(), w << ": " << nm << " has " << v.size() << " children, expected " << c.size());
        for (size_t i = 0; i < c.size(); ++i) EXPECT(v[i] == T.getSegment(c[i]), w << ": child " << i << " of " << nm);
    };
    children(r, m.rootch, m.root);
    std::vector<bool> used(m.nj, false);
    for (auto& p : m.n) {
        auto it = T.getSegment(p.first);
        EXPECT(it != T.getSegments().end(), w << ": segment " << p.first << " missing");
        same(GetTreeElementSegment(it->second), p.second.s, w);
        EXPECT(GetTreeElementParent(it->second) == T.getSegment(p.second.parent), w << ": parent of " << p.first);
        children(it, p.second.ch, p.first);
        if (p.second.s.j.movable()) {
            int q = GetTreeElementQNr(it->second);
            EXPECT(q == p.second.q, w << ": joint number of " << p.first << " is " << q << ", expected " << p.second.q);
            EXPECT(q >= 0 && q < m.nj && !used[q], w << ": joint numbers are a permutation");
            used[q] = true;
        }
    }
}
static SSpec fresh(Src& s, const TM& m, int& id, bool dup) {
    SSpec x = sspec(s, opt(), "");
    x.name = dup && m.n.size() ? m.any(s) : std::string(1, (char)('a' + s.raw(26))) + std::to_string(id++);
    x.j.name = "j" + x.name;
    return x;
}

LAW(tree_history, 150000, "three trees and a chain under random sequences of addSegment, addChain, addTree, copy, assignment and getSubTree with unknown hooks, duplicate names and self-reference; non-trivial: a self-reference or a failing call or a copy of a branched tree whose joints are not numbered depth-first") {
    const int K = 3; std::vector<Tree> t; std::vector<TM> m;
    for (int i = 0; i < K; ++i) { std::string r = i == 2 && s.flip() ? "base" : "root"; t.emplace_back(r); m.emplace_back(r); }
    int n = s.range(2, 16), id = 0; bool special = false;
    for (int i = 0; i < n; ++i) {
        int a = (int)s.raw(K), b = (int)s.raw(K);
        uint64_t op = s.raw(14);
        if (m[a].n.size() > 30) op = 13;
        switch (op) {
        case 0: case 1: case 2: case 3: case 4: {
            SSpec x = fresh(s, m[a], id, s.chance(1, 8)); std::string h = s.chance(1, 10) ? "nowhere" : m[a].any(s);
            NOTE("t" << a << ".addSegment(" << x.name << " " << str(x.j) << ", " << h << ")");
            bool want = m[a].add(x, h), got = t[a].addSegment(x.build(), h);
            EXPECT(want == got, "addSegment returned " << got); special = special || !want; break; }
        case 5: {   // a segment that lives in this or another tree, hook given by reference to a stored name
            std::string src = m[b].any(s), h = m[a].any(s); auto it = t[b].getSegment(src); if (src == m[b].root) break;
            NOTE("t" << a << ".addSegment(t" << b << "'s " << src << ", " << h << ")");
            bool want = m[a].add(SSpec(m[b].n[src].s), h), got = t[a].addSegment(GetTreeElementSegment(it->second), h);
            EXPECT(want == got, "addSegment returned " << got); special = true; break; }
        case 6: {
            Chain c; CSpec cs; int k2 = s.range(0, 4); for (int q = 0; q < k2; ++q) { SSpec x = fresh(s, m[a], id, s.chance(1, 10)); cs.s.push_back(x); c.addSegment(x.build()); }
            std::string h = s.chance(1, 10) ? "nowhere" : m[a].any(s);
            NOTE("t" << a << ".addChain(" << str(cs) << ", " << h << ")");
            bool want = true; std::string hk = h; for (auto& x : cs.s) { if (!m[a].add(x, hk)) { want = false; break; } hk = x.name; }
            bool got = t[a].addChain(c, h);
            EXPECT(want == got, "addChain returned " << got); special = special || !want; break; }
        case 7: case 8: {
            std::string h = s.chance(1, 10) ? "nowhere" : m[a].any(s);
            NOTE("t" << a << ".addTree(t" << b << ", " << h << ")");
            TM o = m[b]; bool want = m[a].addTree(o, o.root, h), got = t[a].addTree(t[b], h);
            EXPECT(want == got, "addTree returned " << got); special = special || !want || a == b; break; }
        case 9: { NOTE("t" << a << " = t" << b); Tree& r = t[a]; r = t[b]; if (a != b) m[a] = m[b]; special = special || (a == b && m[a].n.size()); break; }
        case 10: { NOTE("t" << a << " = Tree(t" << b << ")"); Tree c(t[b]); same(c, m[b], "copy"); t[a] = c; if (a != b) m[a] = m[b]; c.addSegment(Segment("only in c", Joint(Joint::RotX)), m[b].root); same(t[b], m[b], "copied tree after changing the copy"); special = special || m[b].n.size() > 3; break; }
        case 11: case 12: {
            std::string r = s.chance(1, 10) ? "nowhere" : m[b].any(s); bool ok = m[b].has(r);
            NOTE("t" << b << ".getSubTree(" << r << ", t" << a << ")");
            bool got = t[b].getSubTree(r, t[a]);
            EXPECT(got == ok, "getSubTree returned " << got);
            special = special || a == b || !ok;
            if (ok) { TM o = m[b]; TM u(r); bool w = u.addTree(o, r, r); EXPECT(w, "model"); m[a] = u; }
            break; }
        case 13: { t[a] = Tree(m[a].root); m[a] = TM(m[a].root); break; }
        }
        for (int q = 0; q < K; ++q) same(t[q], m[q], "tree");
    }
    s.nontrivial(special);
    // the printed form lists every segment once, indented by its depth, with its joint number
    int a = (int)s.raw(K); std::string txt = tree2str(t[a], "|", "> ");
    std::vector<std::string> ord; m[a].pre(m[a].root, ord);
    std::istringstream is(txt); std::string line; size_t i = 0;
    while (std::getline(is, line)) {
        EXPECT(i < ord.size() && line.compare(0, 2, "> ") == 0, "tree2str line " << line);
        line = line.substr(2); int d = 0; while (d < (int)line.size() && line[d] == '|') ++d;
        EXPECT(d == m[a].depth(ord[i]) && line.compare(d, ord[i].size() + 1, ord[i] + "(") == 0, "tree2str line " << i << ": " << line << " expected " << ord[i]);
        if (ord[i] != m[a].root && m[a].n[ord[i]].s.j.movable()) EXPECT(line.substr(d + ord[i].size()) == "(q_nr: " + std::to_string(m[a].n[ord[i]].q) + ")", "tree2str line " << line);
        ++i;
    }
    EXPECT(i == ord.size(), "tree2str prints " << i << " of " << ord.size() << " segments");
    std::ostringstream os; os << t[a]; for (auto& x : ord) EXPECT(os.str().find(x + "(q_nr: ") != std::string::npos, "printed tree lacks " << x);
    for (auto& p : m[a].n) { std::ostringstream o2; o2 << GetTreeElementSegment(t[a].getSegment(p.first)->second); EXPECT(o2.str().compare(0, p.first.size() + 1, p.first + ":") == 0 && o2.str().find(p.second.s.j.name) != std::string::npos, "printed segment " << o2.str()); break; }
}
