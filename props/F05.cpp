#include "gen.hpp"
#include <memory>
#include <cstring>
#include <utilities/error_stack.h>
#include "utilities/utility_io.h"
#include "utilities/error.h"
#include "utilities/error_stack.h"
#include <iomanip>
using namespace g;
typedef Eigen::Matrix2d M2;

// ---- independent reader of the documented notation
struct Bad {};
struct Ref {
    const std::string& t; size_t p = 0; double big = 0;
    explicit Ref(const std::string& x) : t(x) {}
    void ws() {
        for (;;) {
            while (p < t.size() && (t[p] == ' ' || t[p] == '\n' || t[p] == '\t')) ++p;
            if (p < t.size() && t[p] == '#') { while (p < t.size() && t[p] != '\n') ++p; if (p >= t.size()) throw Bad(); continue; }
            if (p + 1 < t.size() && t[p] == '/' && t[p + 1] == '/') { while (p < t.size() && t[p] != '\n') ++p; if (p >= t.size()) throw Bad(); continue; }
            if (p + 1 < t.size() && t[p] == '/' && t[p + 1] == '*') { size_t q = t.find("*/", p + 2); if (q == std::string::npos) throw Bad(); p = q + 2; continue; }
            return;
        }
    }
    void ch(char c) { ws(); if (p >= t.size() || t[p] != c) throw Bad(); ++p; }
    double num() {  // as operator>>(istream&, double) reads it
        std::istringstream is(t.substr(p)); double d; is >> d; if (!is) throw Bad();
        p = is.eof() ? t.size() : p + (size_t)is.tellg(); big = std::max(big, std::fabs(d)); return d;
    }
    double numw() { ws(); return num(); }
    std::string word(const char* delim) {
        ws(); std::string w;
        while (p < t.size() && !strchr(delim, t[p]) && t[p]) {
            w += (char)toupper((unsigned char)t[p]); ++p;
            size_t a = p; ws(); if (p != a) break;   // a space or comment ends the word
        }
        return w;
    }
    VX list(int n) { VX v(n); ch('['); for (int i = 0; i < n; ++i) { v(i) = numw(); ch(i + 1 < n ? ',' : ']'); } return v; }
    VX vector() { std::string w = word("[]"); if (w == "") return list(3); if (w == "ZERO") return VX::Zero(3); throw Bad(); }
    static M3 R(double x, double y, double z, int which) {
        M3 X = rotm(V3::UnitX(), 1 * x), Z = rotm(V3::UnitZ(), z);
        if (which == 0) return rotm(V3::UnitZ(), z) * rotm(V3::UnitY(), y) * X;                       // RPY(x,y,z)
        if (which == 1) return rotm(V3::UnitZ(), x) * rotm(V3::UnitY(), y) * rotm(V3::UnitX(), z);    // EulerZYX
        return rotm(V3::UnitZ(), x) * rotm(V3::UnitY(), y) * Z;                                       // EulerZYZ
    }
    M3 rotation() {
        std::string w = word("[]");
        if (w == "") { M3 m; ch('['); for (int i = 0; i < 3; ++i) for (int j = 0; j < 3; ++j) { m(i, j) = numw(); ch(j < 2 ? ',' : i < 2 ? ';' : ']'); } return m; }
        if (w == "IDENTITY") return M3::Identity();
        int k = w == "RPY" ? 0 : w == "EULERZYX" ? 1 : w == "EULERZYZ" ? 2 : w == "ROT" ? 3 : -1;
        if (k < 0) throw Bad();
        VX v = vector();
        if (k < 3) { v *= M_PI / 180; return R(v(0), v(1), v(2), k); }
        double a = list(1)(0) * M_PI / 180;
        double n = v.norm();
        return n < 1e-6 ? M3(M3::Identity()) : rotm(v / n, a);
    }
    M4 frame() {
        std::string w = word("[");
        if (w == "") { ch('['); M3 R = rotation(); VX p = vector(); ch(']'); return mk4(R, p); }
        if (w == "DH") { VX v = list(4); double al = v(1) * M_PI / 180, th = v(3) * M_PI / 180;
            return mk4(rotm(V3::UnitZ(), th), V3(0, 0, v(2))) * mk4(rotm(V3::UnitX(), al), V3(v(0), 0, 0)); }
        throw Bad();
    }
    VX rot2() { double a = list(1)(0) * M_PI / 180; VX v(4); v << std::cos(a), -std::sin(a), std::sin(a), std::cos(a); return v; }
};
enum Kind { KV, KT, KW, KR, KF, KV2, KR2, KF2, NK };
static const char* kn[] = {"Vector", "Twist", "Wrench", "Rotation", "Frame", "Vector2", "Rotation2", "Frame2"};
static VX flat(const MX& m) { VX v(m.size()); int c = 0; for (int i = 0; i < m.rows(); ++i) for (int j = 0; j < m.cols(); ++j) v(c++) = m(i, j); return v; }
static VX refread(int k, Ref& r) {
    switch (k) {
    case KV: return r.vector(); case KT: case KW: return r.list(6); case KR: return flat(r.rotation()); case KF: return flat(r.frame());
    case KV2: return r.list(2); case KR2: return r.rot2();
    default: { VX v(6); v.head(4) = r.rot2(); v.tail(2) = r.list(2); return v; }
    }
}
static VX f2(const Rotation2& R) { VX v(4); Vector2 x = R * Vector2(1, 0), y = R * Vector2(0, 1); v << x.x(), y.x(), x.y(), y.y(); return v; }
static VX kdlread(int k, std::istream& is) {
    switch (k) {
    case KV: { Vector v; is >> v; return e(v); }
    case KT: { Twist v; is >> v; return e(v); }
    case KW: { Wrench v; is >> v; return e(v); }
    case KR: { Rotation v; is >> v; return flat(e(v)); }
    case KF: { Frame v; is >> v; return flat(e(v)); }
    case KV2: { Vector2 v; is >> v; VX r(2); r << v.x(), v.y(); return r; }
    case KR2: { Rotation2 v; is >> v; return f2(v); }
    default: { Frame2 v; is >> v; VX r(6); r.head(4) = f2(v.M); r.tail(2) << v.p.x(), v.p.y(); return r; }
    }
}
// one generated value: expected components, and its text as KDL prints it
static VX put(Src& s, int k, std::ostream& os) {
    switch (k) {
    case KV: { Vector v = vec(s, 50); os << v; return e(v); }
    case KT: { Twist v = twist(s, 50); os << v; return e(v); }
    case KW: { Wrench v = wrench(s, 50); os << v; return e(v); }
    case KR: { Rotation v = rot(s); os << v; return flat(e(v)); }
    case KF: { Frame v = frame(s, 50); os << v; return flat(e(v)); }
    case KV2: { double a = s.real(-9, 9); Vector2 v(a, s.real(-9, 9)); os << v; VX r(2); r << v.x(), v.y(); return r; }
    case KR2: { double a = s.angle(M_PI); Rotation2 v(a); os << v; VX r(4); r << std::cos(a), -std::sin(a), std::sin(a), std::cos(a); return r; }
    default: { double a = s.angle(M_PI); Rotation2 R(a); double x = s.real(-9, 9); Vector2 p(x, s.real(-9, 9)); os << Frame2(R, p); VX r(6); r << std::cos(a), -std::sin(a), std::sin(a), std::cos(a), p.x(), p.y(); return r; }
    }
}
static std::string sep(Src& s) {
    switch (s.raw(7)) { case 0: return ""; case 1: return " "; case 2: return "\n\t "; case 3: return " // remark ] , [\n"; case 4: return "# remark [\n "; case 5: return " /* a * / ] */ "; default: return "  "; }
}
static std::string num(Src& s, double& v, double m = 200) {
    std::ostringstream o; v = s.real(-m, m);
    switch (s.raw(4)) { case 0: v = std::floor(v); o << v; break; case 1: o << std::setprecision(17) << v; break; case 2: o << std::scientific << std::setprecision(9) << v; break; default: o << std::fixed << std::setprecision(4) << v; }
    v = strtod(o.str().c_str(), nullptr);
    return o.str();
}
static std::string cased(Src& s, std::string w) { uint64_t k = s.raw(3); if (k) for (size_t i = 0; i < w.size(); ++i) if (k == 1 || s.flip()) w[i] = (char)tolower(w[i]); return w; }
static std::string list(Src& s, int n, VX& v, double m = 200) { std::string t = "[" + sep(s); v.resize(n); for (int i = 0; i < n; ++i) { t += num(s, v(i), m) + sep(s) + (i + 1 < n ? "," : "]"); if (i + 1 < n) t += sep(s); } return t; }
// a well formed text written by the test in any accepted notation
static std::string notation(Src& s, int k) {
    VX v;
    switch (k) {
    case KV: if (s.chance(1, 4)) return cased(s, "ZERO") + (s.flip() ? " " : ""); return list(s, 3, v);
    case KT: case KW: return list(s, 6, v);
    case KR: {
        static const char* w[] = {"RPY", "EULERZYX", "EULERZYZ"};
        uint64_t q = s.raw(6);
        if (q < 3) return cased(s, w[q]) + sep(s) + list(s, 3, v, 400);
        if (q == 3) { std::string t = cased(s, "ROT") + list(s, 3, v, 3); return t + sep(s) + list(s, 1, v, 400); }
        if (q == 4) return cased(s, "IDENTITY") + " ";
        std::string t = "[" + sep(s); double d;
        for (int i = 0; i < 9; ++i) t += num(s, d, 1) + sep(s) + (i == 8 ? "]" : i % 3 == 2 ? ";" : ",") + (i == 8 ? "" : sep(s));
        return t;
    }
    case KF: if (s.chance(1, 3)) return cased(s, "DH") + sep(s) + list(s, 4, v, 200);
        { std::string a = "[" + sep(s) + notation(s, KR); std::string b = notation(s, KV); return a + sep(s) + b + sep(s) + "]"; }
    case KV2: return list(s, 2, v);
    case KR2: return list(s, 1, v, 400);
    default: { std::string a = list(s, 1, v, 400); return a + sep(s) + list(s, 2, v); }
    }
}

LAW(round_trip, 40000, "1-4 values of any geometric type printed with 1-17 digits and any separator, then read back in sequence; non-trivial: at least two non-default values") {
    int n = s.range(1, 4), prec = s.flip() ? 17 : s.range(3, 17);
    std::ostringstream os; os << std::setprecision(prec); if (s.chance(1, 5)) os << std::fixed; else if (s.chance(1, 5)) os << std::scientific;
    std::vector<int> ks; std::vector<VX> vs;
    for (int i = 0; i < n; ++i) { int k = (int)s.raw(NK); ks.push_back(k); s.label(kn[k]); vs.push_back(put(s, k, os)); os << (s.flip() ? "" : s.flip() ? " " : "\n\n"); }
    NOTE("text " << os.str());
    s.nontrivial(n > 1 && mx(vs[0]) > 0 && mx(vs[1]) > 0);
    std::istringstream is(os.str() + (s.flip() ? "" : " tail"));
    VX rd;
    for (int i = 0; i < n; ++i) {
        try { rd = kdlread(ks[i], is); } catch (KDL::Error& er) { FAIL("reading printed " << kn[ks[i]] << " number " << i << " raised: " << er.Description()); }
        EXPECT(!is.fail(), "stream still readable after value " << i);
        double tol = std::pow(10.0, 1 - prec) * (1 + mx(vs[i])) * 1.01 + 1e-13;
        if (ks[i] == KR2 || ks[i] == KF2) tol = std::max(tol, std::pow(10.0, 1 - prec) * 180 / 57 + 1e-13);
        MNEAR(rd, vs[i], tol, "value " << i << " of type " << kn[ks[i]]);
    }
}

LAW(notations, 60000, "a value in any accepted notation (matrix, RPY, Euler, axis-angle, DH, ZERO, IDENTITY; any case, with white space and comments); non-trivial: not the plain list form") {
    int k = (int)s.raw(NK);
    std::string t = sep(s) + notation(s, k) + "[";
    NOTE(kn[k] << " text: " << t);
    s.nontrivial(t.find_first_of("aAoOiIrReE#/") != std::string::npos);
    s.label(kn[k]);
    VX want; try { Ref r(t); want = refread(k, r); } catch (Bad&) { s.discard(); }
    std::istringstream is(t); VX got;
    try { got = kdlread(k, is); } catch (KDL::Error& er) { FAIL("valid notation rejected: " << er.Description() << " text: " << t); }
    EXPECT(!is.fail(), "stream good after a valid value");
    MNEAR(got, want, 1e-11 * (1 + mx(want)), "value of " << t);
}

// streambuf that reports an I/O error (exception -> badbit) after some bytes
struct FailBuf : std::streambuf { std::string d; char c; size_t p = 0; FailBuf(std::string x) : d(x) {}
    int underflow() override { if (p >= d.size()) throw std::runtime_error("io"); c = d[p++]; setg(&c, &c, &c + 1); return (unsigned char)c; } };

LAW(malformed, 80000, "valid notation damaged by truncation, byte edits, deletions, duplications, long words or random bytes, also with a failing device; non-trivial: the text differs from a valid one") {
    int k = (int)s.raw(NK);
    std::string t;
    if (s.chance(1, 8)) { int n = s.range(0, 40); for (int i = 0; i < n; ++i) t += s.flip() ? (char)s.raw(256) : s.pick(std::vector<char>{'[', ']', ',', ';', '#', '/', '*', ' ', '\n', 'Z', '1', '-', '.'}); }
    else {
        if (s.flip()) t = notation(s, k); else { std::ostringstream o; put(s, k, o); t = o.str(); }
        int ed = s.range(1, 3);
        for (int i = 0; i < ed && !t.empty(); ++i) switch (s.raw(7)) {
            case 0: t.resize(s.raw(t.size() + 1)); break;
            case 1: t[s.raw(t.size())] = (char)s.raw(256); break;
            case 2: t.erase(s.raw(t.size()), 1 + s.raw(3)); break;
            case 3: { size_t a = s.raw(t.size()), b = s.raw(t.size()); t.insert(b, t.substr(a, s.raw(12))); break; }
            case 4: t.insert(s.raw(t.size() + 1), std::string(s.range(1, 30), (char)('A' + s.raw(26)))); break;
            case 5: { static const char* w[] = {"[", "]", ",", ";", "nan", "inf", "1e999", "0x10", "--1", "/*", "#", "//", "ZERO", "DH", "RPY", "ROT", "IDENTITY", "EULERZYX", "EULERZYZ", "EULERZYXZ", "IDENTITYX", "ZEROZEROZER"}; t.insert(s.raw(t.size() + 1), w[s.raw(22)]); break; }
            default: std::swap(t[s.raw(t.size())], t[s.raw(t.size())]);
        }
    }
    { std::ostringstream o; for (unsigned char c : t) if (c >= 32 && c < 127) o << c; else o << "\\x" << std::hex << (int)c << std::dec; NOTE(kn[k] << " text: " << o.str()); }
    s.nontrivial(!t.empty());
    s.label(kn[k]);
    bool ok = false; VX got;
    if (s.chance(1, 10)) {
        FailBuf fb(t); std::istream is(&fb);
        try { got = kdlread(k, is); ok = !is.fail(); } catch (KDL::Error& er) { EXPECT(er.Description() && *er.Description(), "error description"); }
    } else {
        std::istringstream is(t);
        try { got = kdlread(k, is); ok = !is.fail(); } catch (KDL::Error& er) { EXPECT(er.Description() && *er.Description(), "error description"); }
    }
    if (ok) {
        s.label("accepted");
        VX want; bool valid = true;
        Ref r(t); try { want = refread(k, r); } catch (Bad&) { valid = false; }
        EXPECT(valid, "text that denotes no " << kn[k] << " was read without any error");
        if (got.allFinite() && want.allFinite() && r.big < 1e5) MNEAR(got, want, 1e-9 * (1 + mx(want)), "value read from damaged but valid text");
    }
}

LAW(eat_word, 30000, "random words of 0..20 characters read into buffers of 1..16 bytes; non-trivial: word at least as long as the buffer") {
    int sz = s.range(1, 16), n = s.range(0, 20);
    std::string w; for (int i = 0; i < n; ++i) w += (char)('a' + s.raw(26));
    std::istringstream is(std::string(s.raw(3), ' ') + w + "[rest");
    NOTE("buffer " << sz << " word " << w);
    s.nontrivial(n >= sz);
    std::vector<char> buf(sz, 'x');   // exact-size heap buffer: ASan sees any byte beyond it
    bool big = false;
    try { EatWord(is, "[]", buf.data(), sz); } catch (Error_BasicIO_ToBig&) { big = true; }
    if (n + 1 <= sz) { EXPECT(!big, "word fits"); for (auto& c : w) c = (char)toupper(c); EXPECT(w == buf.data(), "word text " << buf.data()); EXPECT(is.get() == '[', "delimiter left in the stream"); }
    else EXPECT(big, "oversized word reported");
}

LAW(eat_text, 30000, "keyword patterns read with Eat; non-trivial: pattern has several words") {
    std::string pat, txt; int n = s.range(1, 3); bool bad = false;
    for (int i = 0; i < n; ++i) { int l = s.range(1, 5); for (int j = 0; j < l; ++j) { char c = (char)('A' + s.raw(26)); pat += c; char d = c; if (s.chance(1, 40)) { d = (char)('A' + (c - 'A' + 1 + s.raw(25)) % 26); bad = true; } txt += s.flip() ? (char)tolower(d) : d; } if (i + 1 < n) { pat += ' '; int q = s.chance(1, 20) ? 0 : s.range(1, 3); if (!q) bad = true; txt += std::string(q, " \n\t"[s.raw(3)]); } }
    std::istringstream is(" " + txt + "=5");
    NOTE("pattern '" << pat << "' text '" << txt << "'");
    s.nontrivial(n > 1);
    bool err = false; try { Eat(is, pat.c_str()); } catch (KDL::Error&) { err = true; }
    if (!bad) { EXPECT(!err, "matching text accepted"); EXPECT(is.get() == '=', "rest left in the stream"); }
    else if (txt.size() >= pat.size() - 0 || true) { if (!err) { // may still match by accident (dropped space between equal letters cannot)
            std::string a; bool m = true; size_t p = 0; for (size_t i = 0; i < pat.size() && m; ++i) { if (pat[i] == ' ') { size_t b = p; while (p < txt.size() && isspace(txt[p])) ++p; m = p > b; } else m = p < txt.size() && toupper(txt[p++]) == pat[i]; } EXPECT(m, "non-matching text accepted"); } }
}

// the trace of what was being read: a stack of texts
LAW(trace, 40000, "random series of pushes, pops, outputs and extractions into buffers of 0..40 bytes on the trace stack, against a model; texts of 0..60 characters; non-trivial: a text longer than its buffer") {
    std::ostringstream junk; IOTraceOutput(junk); std::vector<std::string> m;
    for (int i = 0, n = s.range(1, 12); i < n; ++i) {
        switch (s.raw(5)) {
        case 0: case 1: { std::string t; for (int j = 0, l = s.flip() ? s.range(0, 8) : s.range(0, 60); j < l; ++j) t += (char)('a' + s.raw(26)); IOTrace(t); m.push_back(t); NOTE("push " << t); break; }
        case 2: if (!m.empty()) { IOTracePop(); m.pop_back(); NOTE("pop"); } break;
        case 3: { int z = s.range(0, 40); std::unique_ptr<char[]> b(new char[z + (z == 0)]); memset(b.get(), 'Z', z + (z == 0)); NOTE("extract into " << z); IOTracePopStr(b.get(), z);
            if (z == 0) { EXPECT(b[0] == 'Z', "a buffer of no size was written"); break; }
            std::string want = m.empty() ? "" : m.back().substr(0, z - 1); if (!m.empty()) { if ((int)m.back().size() >= z) s.nontrivial(); m.pop_back(); }
            EXPECT(std::string(b.get()) == want, "extracted '" << b.get() << "' instead of '" << want << "'"); break; }
        default: { std::ostringstream o; IOTraceOutput(o); std::string want; while (!m.empty()) { want += m.back() + "\n"; m.pop_back(); } EXPECT(o.str() == want, "output '" << o.str() << "' instead of '" << want << "'"); }
        }
    }
    std::ostringstream o; IOTraceOutput(o); std::string want; while (!m.empty()) { want += m.back() + "\n"; m.pop_back(); } EXPECT(o.str() == want, "output '" << o.str() << "' instead of '" << want << "'");
}
// errors are told apart by their type
LAW(errors, 20000, "an input/output error with a random text and number, thrown and caught as its base class; non-trivial: number and text not the defaults") {
    std::string t; for (int j = 0, l = s.range(0, 40); j < l; ++j) t += (char)(' ' + s.raw(90)); int nr = s.range(-3, 8000); s.nontrivial(nr != 0 && t != ""); NOTE("'" << t << "' " << nr);
    try { throw Error_IO(t, nr); } catch (Error& er) { EXPECT(er.GetType() == nr && t == er.Description(), "type " << er.GetType() << " text " << er.Description()); }
}
