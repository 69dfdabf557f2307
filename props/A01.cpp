#include "gen.hpp"
#include "utilities/rall1d.h"
#include "utilities/rall2d.h"
using namespace g;

// reference: hyper-dual numbers, extended precision: value, two first derivatives, mixed second derivative
typedef long double L;
struct H { L v = 0, a = 0, b = 0, c = 0; };
static H op(const H& x, L f, L f1, L f2) { return {f, f1 * x.a, f1 * x.b, f2 * x.a * x.b + f1 * x.c}; }
// f(x,y)
static H op2(const H& x, const H& y, L f, L fx, L fy, L fxx, L fxy, L fyy) {
    return {f, fx * x.a + fy * y.a, fx * x.b + fy * y.b, fx * x.c + fy * y.c + fxx * x.a * x.b + fxy * (x.a * y.b + x.b * y.a) + fyy * y.a * y.b};
}
static H add(const H& x, const H& y) { return op2(x, y, x.v + y.v, 1, 1, 0, 0, 0); }
static H sub(const H& x, const H& y) { return op2(x, y, x.v - y.v, 1, -1, 0, 0, 0); }
static H mul(const H& x, const H& y) { return op2(x, y, x.v * y.v, y.v, x.v, 0, 1, 0); }
static H dvd(const H& x, const H& y) { return op2(x, y, x.v / y.v, 1 / y.v, -x.v / (y.v * y.v), 0, -1 / (y.v * y.v), 2 * x.v / (y.v * y.v * y.v)); }
static H cst(L c) { return {c, 0, 0, 0}; }

// gradient with respect to three variables
struct G3 { double data[3] = {0, 0, 0}; G3() {} G3(double a, double b, double c) : data{a, b, c} {} G3& operator+=(const G3& o) { for (int i = 0; i < 3; ++i) data[i] += o.data[i]; return *this; } G3& operator-=(const G3& o) { for (int i = 0; i < 3; ++i) data[i] -= o.data[i]; return *this; }
    G3& operator*=(double c) { for (double& d : data) d *= c; return *this; } G3& operator/=(double c) { for (double& d : data) d /= c; return *this; } };
static G3 operator+(G3 a, const G3& b) { return a += b; }
static G3 operator-(G3 a, const G3& b) { return a -= b; }
static G3 operator-(G3 a) { return a *= -1; }
static G3 operator*(G3 a, double c) { return a *= c; }
static G3 operator*(double c, G3 a) { return a *= c; }
static G3 operator/(G3 a, double c) { return a /= c; }
static void SetToZero(G3& a) { a = G3(); }
static G3 LinComb(double al, const G3& a, double be, const G3& b) { return al * a + be * b; }
static void LinCombR(double al, const G3& a, double be, const G3& b, G3& r) { G3 t = al * a + be * b; r = t; }
static bool Equal(const G3& a, const G3& b, double eps) { return KDL::Equal(a.data[0], b.data[0], eps) && KDL::Equal(a.data[1], b.data[1], eps) && KDL::Equal(a.data[2], b.data[2], eps); }
typedef Rall1d<double> R1;
typedef Rall2d<double> R2;
typedef Rall1d<R1, R1, double> RN;
typedef Rall1d<double, G3, double> RV;

// per-type conversion: a set of hyper-dual views (a value of type R corresponds to nview of them)
template <class R> struct Tr;
template <> struct Tr<R1> { enum { views = 1 }; static const char* nm() { return "Rall1d<double>"; }
    static R1 mk(const H* h) { return R1((double)h[0].v, (double)h[0].a); }
    static void get(const R1& r, H* h) { h[0] = {r.t, r.grad, 0, 0}; } static bool relevant(int f) { return f < 2; } };
template <> struct Tr<R2> { enum { views = 1 }; static const char* nm() { return "Rall2d<double>"; }
    static R2 mk(const H* h) { return R2((double)h[0].v, (double)h[0].a, (double)h[0].c); }
    static void get(const R2& r, H* h) { h[0] = {r.t, r.d, r.d, r.dd}; } static bool relevant(int) { return true; } };
template <> struct Tr<RN> { enum { views = 1 }; static const char* nm() { return "nested Rall1d"; }
    static RN mk(const H* h) { return RN(R1((double)h[0].v, (double)h[0].a), R1((double)h[0].b, (double)h[0].c)); }
    static void get(const RN& r, H* h) { h[0] = {r.t.t, r.t.grad, r.grad.t, r.grad.grad}; } static bool relevant(int) { return true; } };
template <> struct Tr<RV> { enum { views = 3 }; static const char* nm() { return "Rall1d with 3-vector gradient"; }
    static RV mk(const H* h) { return RV((double)h[0].v, G3((double)h[0].a, (double)h[1].a, (double)h[2].a)); }
    static void get(const RV& r, H* h) { for (int i = 0; i < 3; ++i) h[i] = {r.t, r.grad.data[i], 0, 0}; } static bool relevant(int f) { return f < 2; } };

template <class R> static R gen(Src& s, double lo, double hi) {
    H h[3]; double v = s.real(lo, hi);
    for (int i = 0; i < Tr<R>::views; ++i) { h[i].v = v; h[i].a = s.real(-5, 5); h[i].b = std::is_same<R, R2>::value ? h[i].a : (L)s.real(-5, 5); h[i].c = s.real(-5, 5); }
    return Tr<R>::mk(h);
}
static std::string show(const H& h) { std::ostringstream o; o.precision(17); o << "(" << (double)h.v << "," << (double)h.a << "," << (double)h.b << "," << (double)h.c << ")"; return o.str(); }
template <class R> static std::string show(const R& r) { H h[3]; Tr<R>::get(r, h); std::string t; for (int i = 0; i < Tr<R>::views; ++i) t += show(h[i]); return t; }
template <class R, class F> static void cmp(const char* what, const R& got, const R& x, const R& y, F f, double amp) {
    H g[3], hx[3], hy[3]; Tr<R>::get(got, g); Tr<R>::get(x, hx); Tr<R>::get(y, hy);
    for (int i = 0; i < Tr<R>::views; ++i) {
        H w = f(hx[i], hy[i]);
        L ws[4] = {w.v, w.a, w.b, w.c}, gs[4] = {g[i].v, g[i].a, g[i].b, g[i].c};
        for (int k = 0; k < 4; ++k) {
            if (!Tr<R>::relevant(k) || (std::is_same<R, R2>::value && k == 2)) continue;
            L tol = 1e-12L * amp * (1 + std::fabs(ws[k]));
            if (!(std::fabs(gs[k] - ws[k]) <= tol)) FAIL(Tr<R>::nm() << " " << what << ": result " << show(got) << " expected " << show(w) << " (part " << k << ") for " << show(x) << " and " << show(y));
        }
    }
}

template <class R> static void binary(Src& s) {
    R x = gen<R>(s, -4, 4), y = gen<R>(s, -4, 4);
    double c = s.real(-3, 3);
    H hy[3], hx[3]; Tr<R>::get(y, hy); Tr<R>::get(x, hx);
    bool ydiv = std::fabs((double)hy[0].v) > 0.05, xdiv = std::fabs((double)hx[0].v) > 0.05, cdiv = std::fabs(c) > 0.05;
    NOTE(Tr<R>::nm() << " x " << show(x) << " y " << show(y) << " c " << c);
    s.label(Tr<R>::nm()); s.nontrivial(hx[0].v != 0 && hy[0].v != 0 && hx[0].a != 0 && hy[0].a != 0);
    const double A = 1e3, D = 1e7;   // headroom: division by values down to 0.05 with second derivatives
    auto K = [&](L v) { return cst(v); };
    cmp("x+y", x + y, x, y, add, A); cmp("x-y", x - y, x, y, sub, A); cmp("x*y", x * y, x, y, mul, A); if (ydiv) cmp("x/y", x / y, x, y, dvd, D);
    cmp("x+x", x + x, x, x, add, A); cmp("x*x", x * x, x, x, mul, A);
    cmp("-x", -x, x, y, [&](H a, H) { return sub(K(0), a); }, A);
    cmp("c+x", c + x, x, y, [&](H a, H) { return add(K(c), a); }, A); cmp("x+c", x + c, x, y, [&](H a, H) { return add(a, K(c)); }, A);
    cmp("c-x", c - x, x, y, [&](H a, H) { return sub(K(c), a); }, A); cmp("x-c", x - c, x, y, [&](H a, H) { return sub(a, K(c)); }, A);
    cmp("c*x", c * x, x, y, [&](H a, H) { return mul(K(c), a); }, A); cmp("x*c", x * c, x, y, [&](H a, H) { return mul(a, K(c)); }, A);
    if (xdiv) cmp("c/x", c / x, x, y, [&](H a, H) { return dvd(K(c), a); }, D);
    if (cdiv) cmp("x/c", x / c, x, y, [&](H a, H) { return dvd(a, K(c)); }, D);
    R z;
    z = x; z += y; cmp("x+=y", z, x, y, add, A); z = x; z -= y; cmp("x-=y", z, x, y, sub, A);
    z = x; z += z; cmp("x+=x", z, x, x, add, A); z = x; z -= z; cmp("x-=x", z, x, x, sub, A);
    if constexpr (!std::is_same<R, RN>::value) {
        z = x; z *= y; cmp("x*=y", z, x, y, mul, A); if (ydiv) { z = x; z /= y; cmp("x/=y", z, x, y, dvd, D); }
        z = x; z *= z; cmp("x*=x", z, x, x, mul, A); if (xdiv) { z = x; z /= z; cmp("x/=x", z, x, x, dvd, D); }
    }
    z = x; z += c; cmp("x+=c", z, x, y, [&](H a, H) { return add(a, K(c)); }, A); z = x; z -= c; cmp("x-=c", z, x, y, [&](H a, H) { return sub(a, K(c)); }, A);
    z = x; z *= c; cmp("x*=c", z, x, y, [&](H a, H) { return mul(a, K(c)); }, A); if (cdiv) { z = x; z /= c; cmp("x/=c", z, x, y, [&](H a, H) { return dvd(a, K(c)); }, D); }
    z = x; z = c; cmp("x=c", z, x, y, [&](H, H) { return K(c); }, A);
    R cp(x); cmp("copy", cp, x, y, [&](H a, H) { return a; }, 1);
    z = y; SetToZero(z); cmp("SetToZero", z, x, y, [&](H, H) { return K(0); }, 1); z = y; SetToIdentity(z); cmp("SetToIdentity", z, x, y, [&](H, H) { return K(1); }, 1);
    cmp("Zero", R::Zero(), x, y, [&](H, H) { return K(0); }, 1); cmp("Identity", R::Identity(), x, y, [&](H, H) { return K(1); }, 1);
    NEAR(Norm(x), std::fabs((double)hx[0].v), 0, "Norm");
    if constexpr (!std::is_same<R, RN>::value) {
        double be = s.real(-3, 3);
        cmp("c by ctor", R(c), x, y, [&](H, H) { return K(c); }, 1);
        auto lc = [&](H a, H b) { return add(mul(K(c), a), mul(K(be), b)); };
        cmp("LinComb", LinComb(c, x, be, y), x, y, lc, A); z = x; LinCombR(c, x, be, y, z); cmp("LinCombR", z, x, y, lc, A);
        z = x; LinCombR(c, z, be, y, z); cmp("LinCombR in place", z, x, y, lc, A);
        EXPECT(Equal(x, x, 1e-9) && x == x && !(x != x), "equality reflexive");
        R w = x; H hw[3]; int part = s.raw(std::is_same<R, R2>::value ? 3 : 2); Tr<R>::get(w, hw); int vw = s.raw(Tr<R>::views);
        for (int i = 0; i < Tr<R>::views; ++i) { if (part == 0) hw[i].v += 0.5; } if (part == 1) hw[vw].a += 0.5; if (part == 2) hw[vw].c += 0.5;
        w = Tr<R>::mk(hw);
        EXPECT(!Equal(x, w, 0.1) && !Equal(w, x, 0.1) && Equal(x, w, 0.7) && x != w && !(x == w), "Equal sees part " << part);
        if (std::fabs((double)hx[0].v) > 1e-3) cmp("abs", abs(x), x, y, [&](H a, H) { return a.v < 0 ? sub(K(0), a) : a; }, 1);
    }
}

template <class R> static void unary(Src& s) {
    int f = (int)s.raw(17);
    static const char* nm[] = {"exp", "log", "sin", "cos", "tan", "sinh", "cosh", "tanh", "sqr", "pow", "sqrt", "asin", "acos", "atan", "hypot", "atan2", "composition"};
    double lo = -3, hi = 3;
    if (f == 1 || f == 9 || f == 10) { lo = 0.05; hi = 6; }
    if (f == 4) { lo = -1.4; hi = 1.4; }
    if (f == 11 || f == 12) { lo = -0.97; hi = 0.97; }
    R x = gen<R>(s, lo, hi), y = gen<R>(s, -3, 3);
    H hx[3], hy[3]; Tr<R>::get(x, hx); Tr<R>::get(y, hy);
    L v = hx[0].v, u = hy[0].v, m = s.flip() ? (L)(s.range(-3, 4)) : (L)s.real(-3, 4);
    NOTE(Tr<R>::nm() << " " << nm[f] << " x " << show(x) << " y " << show(y) << " m " << (double)m);
    s.label(nm[f]); s.nontrivial(hx[0].a != 0);
    double A = 1e7;
    switch (f) {
    case 0: cmp("exp", exp(x), x, y, [&](H a, H) { L e_ = expl(v); return op(a, e_, e_, e_); }, A); break;
    case 1: cmp("log", log(x), x, y, [&](H a, H) { return op(a, logl(v), 1 / v, -1 / (v * v)); }, A); break;
    case 2: cmp("sin", sin(x), x, y, [&](H a, H) { return op(a, sinl(v), cosl(v), -sinl(v)); }, A); break;
    case 3: cmp("cos", cos(x), x, y, [&](H a, H) { return op(a, cosl(v), -sinl(v), -cosl(v)); }, A); break;
    case 4: cmp("tan", tan(x), x, y, [&](H a, H) { L t = tanl(v), d = 1 + t * t; return op(a, t, d, 2 * t * d); }, A); break;
    case 5: cmp("sinh", sinh(x), x, y, [&](H a, H) { return op(a, sinhl(v), coshl(v), sinhl(v)); }, A); break;
    case 6: cmp("cosh", cosh(x), x, y, [&](H a, H) { return op(a, coshl(v), sinhl(v), coshl(v)); }, A); break;
    case 7: cmp("tanh", tanh(x), x, y, [&](H a, H) { L t = tanhl(v), d = 1 - t * t; return op(a, t, d, -2 * t * d); }, A); break;
    case 8: cmp("sqr", sqr(x), x, y, [&](H a, H) { return op(a, v * v, 2 * v, 2); }, A); break;
    case 9: cmp("pow", pow(x, (double)m), x, y, [&](H a, H) { L p = powl(v, m); return op(a, p, m * p / v, m * (m - 1) * p / (v * v)); }, A); break;
    case 10: cmp("sqrt", sqrt(x), x, y, [&](H a, H) { L p = sqrtl(v); return op(a, p, 0.5L / p, -0.25L / (p * v)); }, A); break;
    case 11: cmp("asin", asin(x), x, y, [&](H a, H) { L w = 1 - v * v, r = sqrtl(w); return op(a, asinl(v), 1 / r, v / (w * r)); }, A); break;
    case 12: cmp("acos", acos(x), x, y, [&](H a, H) { L w = 1 - v * v, r = sqrtl(w); return op(a, acosl(v), -1 / r, -v / (w * r)); }, A); break;
    case 13: cmp("atan", atan(x), x, y, [&](H a, H) { L w = 1 + v * v; return op(a, atanl(v), 1 / w, -2 * v / (w * w)); }, A); break;
    case 14: { L r = hypotl(v, u); if (r < 0.1) s.discard(); cmp("hypot", hypot(x, y), x, y, [&](H a, H b) { return op2(a, b, r, v / r, u / r, u * u / (r * r * r), -v * u / (r * r * r), v * v / (r * r * r)); }, A); break; }
    case 15: { L q = v * v + u * u; if (q < 0.05) s.discard(); cmp("atan2", atan2(x, y), x, y, [&](H a, H b) { return op2(a, b, atan2l(v, u), u / q, -v / q, -2 * v * u / (q * q), (v * v - u * u) / (q * q), 2 * v * u / (q * q)); }, A); break; }
    default: {   // functional identities hold for all parts
        cmp("sin^2+cos^2", sqr(sin(x)) + sqr(cos(x)), x, y, [&](H, H) { return cst(1); }, A);
        cmp("log(exp)", log(exp(x)), x, y, [&](H a, H) { return a; }, A);
        cmp("cosh^2-sinh^2", sqr(cosh(x)) - sqr(sinh(x)), x, y, [&](H, H) { return cst(1); }, 1e9);
        cmp("x*y/y", x * (y * y + 1.0) / (y * y + 1.0), x, y, [&](H a, H) { return a; }, A);
        cmp("sqrt(sqr)", sqrt(sqr(x) + 0.5) * sqrt(sqr(x) + 0.5) - 0.5, x, y, [&](H a, H) { return mul(a, a); }, A);
    }
    }
}

LAW(operators, 40000, "two Rall numbers with random derivatives, a scalar; every operator, mixed form, compound and aliased assignment; non-trivial: values and derivatives non-zero") {
    switch (s.raw(4)) { case 0: binary<R1>(s); break; case 1: binary<R2>(s); break; case 2: binary<RN>(s); break; default: binary<RV>(s); }
}
LAW(functions, 80000, "elementary functions at random points of their domain; non-trivial: derivative non-zero") {
    switch (s.raw(4)) { case 0: unary<R1>(s); break; case 1: unary<R2>(s); break; case 2: unary<RN>(s); break; default: unary<RV>(s); }
}
LAW(diff_add, 20000, "pairs of doubleVel and a time step; non-trivial: pair differs") {
    double t = s.flip() ? s.uni(0.1, 5) : -s.uni(0.1, 5);
    R1 a = gen<R1>(s, -5, 5), b = gen<R1>(s, -5, 5);
    s.nontrivial(a.t != b.t && a.grad != b.grad);
    R1 d = diff(a, b, t); NEAR(d.t, (b.t - a.t) / t, 1e-12 * 100, "diff"); NEAR(d.grad, (b.grad - a.grad) / t, 1e-12 * 100, "diff");
    R1 c = addDelta(a, d, t); NEAR(c.t, b.t, 1e-12, "round trip"); NEAR(c.grad, b.grad, 1e-12, "round trip");
    d = diff(a, b); NEAR(d.t, b.t - a.t, 1e-12, "diff default"); c = addDelta(a, b); NEAR(c.t, a.t + b.t, 1e-12, "addDelta default"); NEAR(c.grad, a.grad + b.grad, 1e-12, "addDelta default");
    EXPECT(a.value() == a.t && a.deriv() == a.grad, "accessors");
}

// numbers with the first N derivatives; reference: truncated power series in extended precision
#include "utilities/rallNd.h"
namespace {
typedef std::vector<L> PS; // Taylor coefficients
static PS pmul(const PS& a, const PS& b) { PS r(a.size(), 0); for (size_t i = 0; i < a.size(); ++i) for (size_t j = 0; i + j < a.size(); ++j) r[i + j] += a[i] * b[j]; return r; }
static PS pdiv(const PS& a, const PS& b) { PS r(a.size(), 0); for (size_t i = 0; i < a.size(); ++i) { L v = a[i]; for (size_t j = 1; j <= i; ++j) v -= b[j] * r[i - j]; r[i] = v / b[0]; } return r; }
static PS plin(L x, const PS& a, L y, const PS& b) { PS r(a.size()); for (size_t i = 0; i < a.size(); ++i) r[i] = x * a[i] + y * b[i]; return r; }
static PS pone(size_t n, L c) { PS r(n, 0); r[0] = c; return r; }
static PS pdif(const PS& a) { PS r(a.size(), 0); for (size_t i = 1; i < a.size(); ++i) r[i - 1] = i * a[i]; return r; }
static PS pint(const PS& d, L c) { PS r(d.size(), 0); r[0] = c; for (size_t i = 1; i < d.size(); ++i) r[i] = d[i - 1] / i; return r; }
// y' = g(y, x) x' solved order by order: every pass fixes one more coefficient
template <class G> static PS pode(const PS& x, L y0, G g) { PS y = pone(x.size(), y0); for (size_t k = 0; k < x.size(); ++k) y = pint(pmul(g(y), pdif(x)), y0); return y; }
static void psincos(const PS& x, PS& sn, PS& cs) { sn = pone(x.size(), std::sin(x[0])); cs = pone(x.size(), std::cos(x[0])); for (size_t k = 0; k < x.size(); ++k) { PS a = pint(pmul(cs, pdif(x)), sn[0]), b = pint(plin(-1, pmul(sn, pdif(x)), 0, x), cs[0]); sn = a; cs = b; } }
// every component of a number, with the order of the derivative it stands for
static void parts(double v, int k, std::vector<std::pair<int, double>>& o) { o.push_back({k, v}); }
template <class T> static void parts(const Rall1d<T, T, double>& r, int k, std::vector<std::pair<int, double>>& o) { parts(r.t, k, o); parts(r.grad, k + 1, o); }
template <class T> static void parts(const Rall2d<T, T, double>& r, int k, std::vector<std::pair<int, double>>& o) { parts(r.t, k, o); parts(r.d, k + 1, o); parts(r.dd, k + 2, o); }
template <int N> static RallNd<N> rmake(const PS& p) { double d[8]; L f = 1; for (int i = 1; i <= N; ++i) { f *= i; d[i - 1] = (double)(p[i] * f); } return RallNd<N>((double)p[0], d); }
static const char* OPS[] = {"x+y", "x-y", "x*y", "x/y", "c*x", "x*c", "x/c", "c/x", "x+c", "c-x", "-x", "sin", "cos", "exp", "log", "sqrt", "sqr", "atan", "pow", "sinh", "tan", "x+=y", "x*=y", "x-=y", "x/=y"};
template <int N> static void higher(Src& s) {
    PS x(N + 1), y(N + 1); for (int i = 0; i <= N; ++i) { x[i] = s.real(-1.2, 1.2); y[i] = s.real(-1.2, 1.2); } x[0] = std::fabs(x[0]) + 0.3; y[0] = std::copysign(std::fabs(y[0]) + 0.3, y[0]); double c = s.real(-3, 3); if (std::fabs(c) < 0.2) c = 1.5; int op = (int)s.raw(25); NOTE("order " << N << " " << OPS[op] << " c " << c); s.nontrivial(x[1] != 0 && x[N] != 0); s.label("order " + std::to_string(N)); if (op == 20 && std::cos((double)x[0]) < 0.1) s.discard();
    RallNd<N> X = rmake<N>(x), Y = rmake<N>(y), R; PS w, sn, cs; size_t n = N + 1; PS Z = pone(n, 0);
    switch (op) {
    case 0: R = X + Y; w = plin(1, x, 1, y); break; case 1: R = X - Y; w = plin(1, x, -1, y); break; case 2: R = X * Y; w = pmul(x, y); break; case 3: R = X / Y; w = pdiv(x, y); break;
    case 4: R = c * X; w = plin(c, x, 0, x); break; case 5: R = X * c; w = plin(c, x, 0, x); break; case 6: R = X / c; w = plin(1 / (L)c, x, 0, x); break; case 7: R = c / X; w = pdiv(pone(n, c), x); break;
    case 8: R = X + c; w = plin(1, x, 1, pone(n, c)); break; case 9: R = c - X; w = plin(-1, x, 1, pone(n, c)); break; case 10: R = -X; w = plin(-1, x, 0, x); break;
    case 11: R = sin(X); psincos(x, w, cs); break; case 12: R = cos(X); psincos(x, sn, w); break; case 13: R = exp(X); w = pode(x, std::exp(x[0]), [](const PS& q) { return q; }); break;
    case 14: R = log(X); w = pint(pdiv(pdif(x), x), std::log(x[0])); break; case 15: R = sqrt(X); w = pode(x, std::sqrt(x[0]), [&](const PS& q) { return pdiv(pone(n, 0.5L), q); }); break; case 16: R = sqr(X); w = pmul(x, x); break;
    case 17: R = atan(X); w = pint(pdiv(pdif(x), plin(1, pone(n, 1), 1, pmul(x, x))), std::atan(x[0])); break;
    case 18: R = pow(X, c); w = pode(x, std::pow(x[0], (L)c), [&](const PS& q) { return plin(c, pdiv(q, x), 0, x); }); break;
    case 19: { R = sinh(X); PS a = pode(x, std::exp(x[0]), [](const PS& q) { return q; }); w = plin(0.5L, a, -0.5L, pdiv(pone(n, 1), a)); break; }
    case 20: R = tan(X); psincos(x, sn, cs); w = pdiv(sn, cs); break;
    case 21: R = X; R += Y; w = plin(1, x, 1, y); break; case 22: R = X; R *= Y; w = pmul(x, y); break; case 23: R = X; R -= Y; w = plin(1, x, -1, y); break; default: R = X; R /= Y; w = pdiv(x, y);
    }
    std::vector<std::pair<int, double>> o; parts(R, 0, o); L f = 1; std::vector<L> d(N + 1); L sc = 1; for (int i = 0; i <= N; ++i) { if (i) f *= i; d[i] = w[i] * f; sc = std::max(sc, std::fabs(d[i])); }
    for (auto& q : o) { EXPECT(q.first <= N, "order"); NEAR(q.second, (double)d[q.first], 1e-9 * (double)sc, "derivative " << q.first << " of " << OPS[op]); }
}
}
LAW(higher_orders, 30000, "numbers with 1 to 5 derivatives under 25 operations, each component against truncated power series; non-trivial: first and last derivative non-zero") { switch (s.range(1, 5)) { case 1: higher<1>(s); break; case 2: higher<2>(s); break; case 3: higher<3>(s); break; case 4: higher<4>(s); break; default: higher<5>(s); } }
