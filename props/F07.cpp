#include "gen.hpp"
#include "kinfam_io.hpp"
#include "frames_io.hpp"
using namespace g;

static std::string dense(const std::string& t) { std::string r; for (char c : t) if (!isspace((unsigned char)c)) r += c; return r; }
static std::string num(double v, int prec) { std::ostringstream o; o.precision(prec); o << v; return o.str(); }
static std::string vtext(const V3& v, int p) { return "[" + num(v(0), p) + "," + num(v(1), p) + "," + num(v(2), p) + "]"; }
static std::string ftext(const M4& f, int p) {
    std::string r = "["; M3 R = R3(f);
    for (int i = 0; i < 3; ++i) r += num(R(i, 0), p) + "," + num(R(i, 1), p) + "," + num(R(i, 2), p) + (i < 2 ? ";" : "]");
    return "[" + r + vtext(P3(f), p) + "]";
}
static const char* tname(const JSpec& j) { static const char* n[] = {"RotAxis", "RotX", "RotY", "RotZ", "TransAxis", "TransX", "TransY", "TransZ", "Fixed"}; switch (j.type) { case Joint::RotAxis: return n[0]; case Joint::RotX: return n[1]; case Joint::RotY: return n[2]; case Joint::RotZ: return n[3]; case Joint::TransAxis: return n[4]; case Joint::TransX: return n[5]; case Joint::TransY: return n[6]; case Joint::TransZ: return n[7]; default: return n[8]; } }
// axis, origin and tip as the object reports them (K01 decides whether they are right)
static std::string jtext(const JSpec& j, const Joint& J, int p) { return j.name + ":[" + tname(j) + ",axis:" + vtext(e(J.JointAxis()), p) + ",origin" + vtext(e(J.JointOrigin()), p) + "]"; }
static std::string stext(const SSpec& x, const Segment& S, int p) { return x.name + ":[" + jtext(x.j, S.getJoint(), p) + ",tip:" + ftext(e(S.getFrameToTip()), p) + "]"; }

LAW(models, 40000, "joints, segments and chains of 0..8 segments of all joint types printed with 1..15 digits; the text without white space is name, type, axis, origin and tip of every segment in order; non-trivial: two or more segments") {
    GenOpt o; o.zeroscale = true; CSpec c = cspec(s, o, 0, 8); Chain C = c.build(); int p = s.range(1, 15); NOTE(str(c) << "digits " << p); s.nontrivial(c.ns() > 1);
    std::string want = "["; for (int i = 0; i < c.ns(); ++i) want += stext(c.s[i], C.getSegment(i), p); want += "]";
    std::ostringstream t; t.precision(p); t << C; EXPECT(dense(t.str()) == dense(want), "chain printed as\n" << t.str() << "\ninstead of\n" << want);
    for (int i = 0; i < c.ns(); ++i) {
        std::ostringstream a, b; a.precision(p); b.precision(p); a << C.getSegment(i); b << C.getSegment(i).getJoint();
        EXPECT(dense(a.str()) == dense(stext(c.s[i], C.getSegment(i), p)), "segment printed as\n" << a.str()); EXPECT(dense(b.str()) == dense(jtext(c.s[i].j, C.getSegment(i).getJoint(), p)), "joint printed as\n" << b.str());
    }
    EXPECT(t.precision() == p && t.good(), "state of the stream");
}

LAW(trees, 40000, "trees of 0..12 segments: every segment once below its parent, with the number of its joint (0 for fixed ones), in the order in which the children are attached; tree2str with random separators and preambles indents by depth, also from an inner segment and level; non-trivial: branched") {
    GenOpt o; TSpec t = tspec(s, o, 0, 12); Tree T = t.build(); NOTE(str(t)); int n = (int)t.n.size(); std::map<int, int> kids; for (auto& x : t.n) if (++kids[x.parent] > 1) s.nontrivial();
    auto label = [&](int i) { return (i < 0 ? t.root : t.n[i].s.name) + "(q_nr: " + std::to_string(i >= 0 && t.n[i].s.j.movable() ? t.jnr(i) : 0) + ")"; };
    std::function<std::string(int)> flat = [&](int i) { std::string r = label(i); for (int k = 0; k < n; ++k) if (t.n[k].parent == i) r += flat(k); return r; };
    std::ostringstream a; a << T; EXPECT(dense(a.str()) == dense(flat(-1)), "tree printed as\n" << a.str() << "\ninstead of\n" << flat(-1));
    std::string sep = s.pick(std::vector<std::string>{"  ", "", "-", " | ", "\t"}), pre = s.pick(std::vector<std::string>{"", "", "# ", ">"});
    std::function<std::string(int, int)> lines = [&](int i, int lv) { std::string r = pre; for (int k = 0; k < lv; ++k) r += sep; r += label(i) + "\n"; for (int k = 0; k < n; ++k) if (t.n[k].parent == i) r += lines(k, lv + 1); return r; };
    EXPECT(tree2str(T, sep, pre) == lines(-1, 0), "tree2str\n" << tree2str(T, sep, pre) << "instead of\n" << lines(-1, 0));
    int i = (int)s.raw(n + 1) - 1, lv = s.range(0, 4); auto it = T.getSegment(i < 0 ? t.root : t.n[i].s.name); EXPECT(tree2str(it, sep, pre, lv) == lines(i, lv), "tree2str of a part\n" << tree2str(it, sep, pre, lv) << "instead of\n" << lines(i, lv));
    std::ostringstream b; b << it; EXPECT(dense(b.str()) == dense(flat(i)), "part printed as\n" << b.str());
    { sep = "  "; pre = ""; EXPECT(tree2str(T) == lines(-1, 0), "tree2str with its defaults\n" << tree2str(T)); }
}

LAW(arrays, 60000, "joint arrays of 0..8, Jacobians of 0..8 columns and square matrices of 0..6 with unsymmetric content, printed with 1..15 digits: every element in its row, in order; element access agrees; non-trivial: two or more columns") {
    int p = s.range(1, 15), n = s.range(0, 8), m = s.range(0, 6); NOTE("sizes " << n << " " << m << " digits " << p); s.nontrivial(n > 1 && m > 1);
    JntArray q(n); Jacobian J(n); JntSpaceInertiaMatrix H(m); VX v(n); MX w(6, n), h(m, m);
    for (int i = 0; i < n; ++i) { v(i) = s.real(-100, 100); q(i) = v(i); for (int j = 0; j < 6; ++j) J(j, i) = w(j, i) = s.real(-10, 10); }
    for (int i = 0; i < m; ++i) for (int j = 0; j < m; ++j) H(i, j) = h(i, j) = s.real(-10, 10);
    const JntSpaceInertiaMatrix& hc = H; const Jacobian& jc = J; const JntArray& qc = q;
    for (int i = 0; i < m; ++i) for (int j = 0; j < m; ++j) { NEAR(hc(i, j), h(i, j), 0, "element " << i << "," << j); NEAR(H.data(i, j), h(i, j), 0, "stored element " << i << "," << j); }
    for (int i = 0; i < n; ++i) { NEAR(qc(i), v(i), 0, "element " << i); for (int j = 0; j < 6; ++j) NEAR(jc(j, i), w(j, i), 0, "element " << j << "," << i); }
    std::ostringstream a, b, c; a.precision(p); b.precision(p); c.precision(p); a << q; b << J; c << H; std::string want = "["; for (int i = 0; i < n; ++i) want += num(v(i), p); want += "]";
    EXPECT(dense(a.str()) == want, "array printed as " << a.str());
    auto rows = [&](const std::string& text, const MX& x, const char* what) {
        EXPECT(text.size() >= 2 && text[0] == '[' && text.back() == ']', what << " printed as\n" << text); std::istringstream in(text.substr(1, text.size() - 2)); std::string l;
        for (int i = 0; i < x.rows(); ++i) { EXPECT(std::getline(in, l).good() || in.eof(), what << ": row " << i << " is missing\n" << text); std::string wr; for (int j = 0; j < x.cols(); ++j) wr += num(x(i, j), p); EXPECT(dense(l) == wr, what << ": row " << i << " is '" << l << "' instead of '" << wr << "'"); }
        std::string rest((std::istreambuf_iterator<char>(in)), {}); EXPECT(dense(rest) == "", what << ": extra text " << rest);
    };
    rows(b.str(), w, "Jacobian"); rows(c.str(), h, "matrix");
    // values of the width of a field and less stay apart
    std::ostringstream d; d.precision(5); JntArray z(n); for (int i = 0; i < n; ++i) z(i) = std::floor(v(i)); d << z; std::istringstream in(d.str().size() > 2 ? d.str().substr(1, d.str().size() - 2) : ""); for (int i = 0; i < n; ++i) { double x = -1e9; in >> x; NEAR(x, z(i), 0, "element " << i << " read from '" << d.str() << "'"); }
}

static std::string rtext(const M3& R, int p) { std::string t = ftext(mk4(R, V3::Zero()), p); return t.substr(1, t.size() - 2 - vtext(V3::Zero(), p).size()); }
LAW(moving, 40000, "vectors, rotations, frames and twists with velocity or acceleration parts and Rall numbers printed with 1..15 digits: value and derivatives in order; non-trivial: derivative parts non-zero") {
    int p = s.range(1, 15); auto V = [&] { V3 v(s.real(-9, 9), s.real(-9, 9), s.real(-9, 9)); return v; }; V3 a = V(), b = V(), c = V(), d = V(), f = V(), h = V(); M3 R = e(rot(s)); s.nontrivial(b.norm() > 0 && c.norm() > 0); NOTE("digits " << p << " rotation " << str(R));
    auto vt = [&](const V3& v) { return vtext(v, p); }; std::string rt = rtext(R, p), got, want; const char* what = "";
    auto put = [&](const char* w, const auto& x, const std::string& t) { std::ostringstream o; o.precision(p); o << x; what = w; got = dense(o.str()); want = dense(t); EXPECT(got == want, what << " printed as " << got << " instead of " << want); EXPECT(o.precision() == p, "precision of the stream"); };
    VectorVel vv(k(a), k(b)); VectorAcc va(k(a), k(b), k(c)); RotationVel rv(k(R), k(b)); RotationAcc ra(k(R), k(b), k(c));
    std::string tv = "{" + vt(a) + "," + vt(b) + "}", ta = "{" + vt(a) + "," + vt(b) + "," + vt(c) + "}", tr = "{" + rt + "," + vt(b) + "}", tq = "{" + rt + "," + vt(b) + "," + vt(c) + "}", tw = "{" + vt(d) + "," + vt(f) + "}", tx = "{" + vt(d) + "," + vt(f) + "," + vt(h) + "}";
    put("VectorVel", vv, tv); put("VectorAcc", va, ta); put("RotationVel", rv, tr); put("RotationAcc", ra, tq);
    put("FrameVel", FrameVel(rv, VectorVel(k(d), k(f))), "{" + tr + "," + tw + "}"); put("FrameAcc", FrameAcc(ra, VectorAcc(k(d), k(f), k(h))), "{" + tq + "," + tx + "}");
    put("TwistVel", TwistVel(vv, VectorVel(k(d), k(f))), "{" + tv + "," + tw + "}"); put("TwistAcc", TwistAcc(va, VectorAcc(k(d), k(f), k(h))), "{" + ta + "," + tx + "}");
    { std::ostringstream o, q; o.precision(p); q.precision(p); o << doubleVel(a(0), a(1)); q << doubleAcc(a(0), a(1), a(2)); std::string x = dense(o.str()), y = dense(q.str()), wx = "(" + num(a(0), p) + "," + num(a(1), p) + ")", wy = "(" + num(a(0), p) + "," + num(a(1), p) + "," + num(a(2), p) + ")";
      EXPECT(x.size() > wx.size() && x.substr(x.size() - wx.size()) == wx, "doubleVel printed as " << x); EXPECT(y.size() > wy.size() && y.substr(y.size() - wy.size()) == wy, "doubleAcc printed as " << y); }
    // the parts of a twist or wrench, planar values
    put("Twist", Twist(k(a), k(b)), vt(a).substr(0, vt(a).size() - 1) + "," + vt(b).substr(1)); put("Wrench", Wrench(k(c), k(d)), vt(c).substr(0, vt(c).size() - 1) + "," + vt(d).substr(1));
    put("Vector2", Vector2(a(0), a(1)), "[" + num(a(0), p) + "," + num(a(1), p) + "]");
}
