#include "solvers.hpp"
using namespace sv;

static bool same(int kd, const CSpec& c, const In& in, const Call& a, const Call& b, std::string& why) {
    std::ostringstream o; o.precision(12);
    if (a.rc != b.rc) { o << "code " << a.rc << " instead of " << b.rc; why = o.str(); return false; }
    double tol = 1e-9; if (kd == GIVENS) { double cond; if (!givensDecided(c, in.q, cond)) return true; tol = 1e-7 * cond * (1 + mx(in.v)); }
    double w = worst(a.out, b.out); if (w <= tol) return true; o << "off by " << w << ": " << sv::str(a.out) << " instead of " << sv::str(b.out); why = o.str(); return false;
}
// no zero-mass chains for forward dynamics and the hybrid solver (their answers are not finite there)
static CSpec start(Src& s) { GenOpt o = dynopt(); if (s.flip()) o.fixed = false; return s.chance(1, 8) ? CSpec() : cspec(s, o, 1, 4); }

LAW(growth, 60000, "any chain solver with any settings; 1..3 rounds of growing its chain by segments (addSegment or addChain, movable or fixed), each with calls before the update, one or two updates and calls compared with a solver newly built on the grown chain; also updates without a change in between; non-trivial: the number of joints grew") {
    CSpec c = start(s); Chain C = c.build(); int kd = (int)s.raw(NCHAIN); Set t = settings(s, c.nj()); auto A = make(kd, C, t); s.label(CNAME[kd]); NOTE(CNAME[kd] << " on " << str(c)); std::string why;
    auto fresh = [&](const In& in) { auto D = std::make_shared<Chain>(c.build()); auto B = make(kd, *D, t); std::shared_ptr<Call> b(new Call(in)); B->go(*b); return b; };
    auto compare = [&](const char* when) { In in = input(s, c); if (kd == EST) in.mid = false; auto b = fresh(in); Call a(in); A->go(a); EXPECT(!A->si() || a.err == a.rc, when << ": getError"); if (!same(kd, c, in, a, *b, why)) FAIL(CNAME[kd] << " " << when << ": " << why); };
    if (s.flip()) compare("before any growth");
    bool uptodate = true;
    for (int r = 0, R = s.range(1, 3); r < R; ++r) {
        if (uptodate && s.chance(1, 3)) { In in = input(s, c), im = in; in.mid = false; im.mid = true; Call x(in); A->go(x); A->update(); if (s.flip()) A->update(); Call y(im); A->go(y); if (!same(kd, c, in, y, x, why)) FAIL(CNAME[kd] << ", update without a change: " << why); s.label("no-change update"); }
        In old = input(s, c); int oj = c.nj(), os = c.ns(), add = s.range(1, s.chance(1, 6) ? 5 : 2); GenOpt o = dynopt(); int fx = (int)s.raw(4); if (fx < 2) o.fixed = false; CSpec e; for (int i = 0; i < add; ++i) { SSpec x = sspec(s, o, "n" + std::to_string(os + i)); if (fx == 3) x.j.type = Joint::Fixed; e.s.push_back(x); }
        bool whole = s.flip(); if (whole) C.addChain(e.build()); else for (auto& x : e.s) C.addSegment(x.build()); for (auto& x : e.s) c.s.push_back(x); bool nj = c.nj() != oj; s.nontrivial(nj); NOTE((whole ? "grown at once by " : "grown by ") << str(e));
        t = grown(t, c.nj());
        for (int z = 0, Z = s.range(0, 3); z < Z; ++z) {   // calls without the update
            bool useOld = s.flip(); In in = useOld ? old : input(s, c); Call a(in); A->go(a); EXPECT(!A->si() || a.err == a.rc, "getError");
            if (a.rc == SolverI::E_NOT_UP_TO_DATE) { s.label("refused"); continue; }
            if (nj && structured(kd)) FAIL(CNAME[kd] << " was not told about " << c.nj() - oj << " new joints and answered " << a.rc);
            if (useOld) { if (nj) EXPECT(a.rc < 0, CNAME[kd] << " took joints of the shorter chain: " << a.rc); continue; }
            auto b = fresh(in); if (!same(kd, c, in, a, *b, why)) FAIL(CNAME[kd] << " without the update neither refuses nor answers for the grown chain: " << why);
        }
        if (s.chance(1, 4)) { uptodate = false; continue; }   // grow again before updating
        A->update(); uptodate = true; if (s.chance(1, 4)) A->update();
        for (int z = 0, Z = s.range(1, 2); z < Z; ++z) compare("after growth and update");
    }
    A->update(); compare("at the end");
}
LAW(trees, 40000, "the tree dynamics solver while its tree grows (addSegment, addChain, addTree), calls before and after the update against a new solver; the other tree solvers keep answering for the tree they were given; non-trivial: the number of joints grew") {
    TSpec t = tspec(s, dynopt(), s.chance(1, 8) ? 0 : 1, 5); Tree T = t.build(); int kd = s.flip() ? TID : (int)s.raw(NTREE); Set p = settings(s, t.nj()); treeEnds(s, t, p); auto A = makeT(kd, T, p); s.label(TNAME[kd]); TSpec t0 = t; bool uptodate = true; NOTE(TNAME[kd]);
    for (int r = 0, R = s.range(1, 3); r < R; ++r) {
        if (uptodate && s.flip()) { In in = inputT(s, kd == TID ? t : t0, p); Call x(in); A->go(x); A->update(); Call y(in); A->go(y); EXPECT(x.rc == y.rc && worst(y.out, x.out) <= 1e-9, "update without a change: " << x.rc << " " << y.rc); }
        int oj = t.nj(); TSpec u = tspec(s, dynopt(), 1, 3, "u" + std::to_string(r)); int at = (int)s.raw(t.n.size() + 1) - 1; std::string hook = at < 0 ? t.root : t.n[at].s.name; int how = (int)s.raw(3), base = (int)t.n.size();
        if (how == 0) { u.root = "r"; EXPECT(T.addTree(u.build(), hook), "addTree"); } else if (how == 1) { for (size_t i = 0; i < u.n.size(); ++i) u.n[i].parent = (int)i - 1; Chain c; for (auto& n : u.n) c.addSegment(n.s.build()); EXPECT(T.addChain(c, hook), "addChain"); } else for (auto& n : u.n) EXPECT(T.addSegment(n.s.build(), n.parent < 0 ? hook : u.n[n.parent].s.name), "addSegment");
        // new joints are numbered in the order of insertion; addTree inserts depth first in alphabetical order of the root's children list
        if (how == 0) { std::vector<int> ord; std::function<void(SegmentMap::const_iterator)> go = [&](SegmentMap::const_iterator it) { for (auto& ch : GetTreeElementChildren(it->second)) { for (size_t i = 0; i < u.n.size(); ++i) if (u.n[i].s.name == ch->first) ord.push_back((int)i); go(ch); } }; Tree U = u.build(); go(U.getRootSegment()); std::vector<int> pos(u.n.size()); for (size_t i = 0; i < ord.size(); ++i) pos[ord[i]] = (int)i; for (int i : ord) { auto n = u.n[i]; n.parent = n.parent < 0 ? at : base + pos[n.parent]; t.n.push_back(n); } }
        else for (auto& n : u.n) { auto m = n; m.parent = n.parent < 0 ? at : base + n.parent; t.n.push_back(m); }
        s.nontrivial(t.nj() != oj);
        if (kd != TID) { In in = inputT(s, t0, p); Tree T0 = t0.build(); auto B = makeT(kd, T0, p); Call a(in), b(in); A->go(a); B->go(b); EXPECT(a.rc == b.rc && worst(a.out, b.out) <= 1e-9, TNAME[kd] << " answers differently after the tree it was built from changed: " << a.rc << " " << sv::str(a.out) << " instead of " << b.rc << " " << sv::str(b.out)); continue; }
        if (s.flip()) { In in = inputT(s, t, p); Call a(in); A->go(a); EXPECT(a.rc == SolverI::E_NOT_UP_TO_DATE && a.err == a.rc, "the tree grew without an update and the call gives " << a.rc); }
        if (s.chance(1, 4)) { uptodate = false; continue; }
        A->update(); uptodate = true; In in = inputT(s, t, p); auto D = t.build(); auto B = makeT(kd, D, p); Call a(in), b(in); A->go(a); B->go(b); EXPECT(a.rc == b.rc && worst(a.out, b.out) <= 1e-9, TNAME[kd] << " after growth and update: " << a.rc << " " << sv::str(a.out) << " instead of " << b.rc << " " << sv::str(b.out));
    }
}
