// The Python module, embedded in this process: every case computes the same thing through Python and directly in C++
// on equal values, and compares results, return codes, and what became of every argument.
#include "gen.hpp"
#include "chainfksolverpos_recursive.hpp"
#include "chainfksolvervel_recursive.hpp"
#include "chainiksolverpos_nr.hpp"
#include "chainiksolverpos_nr_jl.hpp"
#include "chainiksolverpos_lma.hpp"
#include "chainiksolvervel_pinv.hpp"
#include "chainiksolvervel_wdls.hpp"
#include "chainiksolvervel_pinv_nso.hpp"
#include "chainiksolvervel_pinv_givens.hpp"
#include "chainjnttojacsolver.hpp"
#include "chainjnttojacdotsolver.hpp"
#include "chainidsolver_recursive_newton_euler.hpp"
#include "chaindynparam.hpp"
#include <pybind11/embed.h>
#include <pybind11/stl.h>
#include <tuple>
#include <memory>
#include <type_traits>
#include <limits>
using namespace g;
namespace py = pybind11;
extern "C" PyObject* PyInit_PyKDL();

// ---------- the interpreter
struct Py {
    py::object env;
    std::map<std::string, py::object> fns;
    Py() {
        setenv("PYTHONMALLOC", "malloc", 1); setenv("PYTHONNOUSERSITE", "1", 1); setenv("PYTHONDONTWRITEBYTECODE", "1", 1);
        PyImport_AppendInittab("PyKDL", &PyInit_PyKDL);
        py::initialize_interpreter(false);
        env = py::dict();
        py::exec("from PyKDL import *\nimport PyKDL, copy, pickle, gc\nfrom operator import *\n"
                 "def raises(E, f):\n"
                 "    try:\n        f()\n    except E:\n        return True\n    except Exception as x:\n        return repr(x)\n    return 'nothing'\n", env);
    }
    // a Python function of the given parameters, compiled once
    py::object fn(const std::string& code) {
        auto it = fns.find(code);
        if (it == fns.end()) it = fns.emplace(code, py::eval(code, env)).first;
        return it->second;
    }
};
static Py& P() { static Py* p = new Py; return *p; }
// run f; a Python error becomes a failure of the case
template <class F> static void guarded(const F& f) {
    P();
    try { f(); }
    catch (py::error_already_set& e) { std::string m = e.what(); e.restore(); PyErr_Clear(); FAIL("Python raised " << m); }
    catch (py::cast_error& e) { FAIL("result of another type: " << e.what()); }
}

// ---------- flattening: everything a value consists of
struct Flat { std::vector<double> d; std::string s; };
static void fl(Flat& f, double x) { f.d.push_back(x); }
static void fl(Flat& f, int x) { f.s += "i" + std::to_string(x) + ";"; }
static void fl(Flat& f, unsigned x) { f.s += "u" + std::to_string(x) + ";"; }
static void fl(Flat& f, size_t x) { f.s += "z" + std::to_string(x) + ";"; }
static void fl(Flat& f, bool x) { f.s += x ? "T;" : "F;"; }
static void fl(Flat& f, const std::string& x) { f.s += x + ";"; }
static void fl(Flat& f, const Vector& x) { for (double v : x.data) fl(f, v); }
static void fl(Flat& f, const Rotation& x) { for (double v : x.data) fl(f, v); }
static void fl(Flat& f, const Twist& x) { fl(f, x.vel); fl(f, x.rot); }
static void fl(Flat& f, const Wrench& x) { fl(f, x.force); fl(f, x.torque); }
static void fl(Flat& f, const Frame& x) { fl(f, x.M); fl(f, x.p); }
static void fl(Flat& f, const doubleVel& x) { fl(f, x.t); fl(f, x.grad); }
static void fl(Flat& f, const VectorVel& x) { fl(f, x.p); fl(f, x.v); }
static void fl(Flat& f, const TwistVel& x) { fl(f, x.vel); fl(f, x.rot); }
static void fl(Flat& f, const RotationVel& x) { fl(f, x.R); fl(f, x.w); }
static void fl(Flat& f, const FrameVel& x) { fl(f, x.M); fl(f, x.p); }
static void fl(Flat& f, const RotationalInertia& x) { for (double v : x.data) fl(f, v); }
static void fl(Flat& f, const RigidBodyInertia& x) { fl(f, x.getMass()); fl(f, x.getCOG()); fl(f, x.getRotationalInertia()); }
static void fl(Flat& f, const Joint& x) {
    fl(f, x.getName()); fl(f, x.getTypeName()); fl(f, (int)x.getType()); fl(f, x.JointAxis()); fl(f, x.JointOrigin());
    for (double q : {0.0, 0.7, -2.0}) fl(f, x.pose(q));
    fl(f, x.twist(0.9)); fl(f, x.getInertia()); fl(f, x.getDamping()); fl(f, x.getStiffness());
}
static void fl(Flat& f, const Segment& x) { fl(f, x.getName()); fl(f, x.getJoint()); fl(f, x.getFrameToTip()); fl(f, x.getInertia()); fl(f, x.pose(0.6)); }
static void fl(Flat& f, const Chain& x) { fl(f, x.getNrOfJoints()); fl(f, x.getNrOfSegments()); for (unsigned i = 0; i < x.getNrOfSegments(); ++i) fl(f, x.getSegment(i)); }
static void fl(Flat& f, const Tree& x) {
    fl(f, x.getNrOfJoints()); fl(f, x.getNrOfSegments()); fl(f, x.getRootSegment()->first);
    for (auto& p : x.getSegments()) { fl(f, p.first); fl(f, p.second.segment); fl(f, p.second.q_nr); if (p.second.parent != x.getSegments().end() && p.first != x.getRootSegment()->first) fl(f, p.second.parent->first); }
}
static void fl(Flat& f, const Jacobian& x) { fl(f, x.columns()); for (unsigned j = 0; j < x.columns(); ++j) for (int i = 0; i < 6; ++i) fl(f, x(i, j)); }
static void fl(Flat& f, const JntArray& x) { fl(f, x.rows()); for (unsigned i = 0; i < x.rows(); ++i) fl(f, x(i)); }
static void fl(Flat& f, const JntArrayVel& x) { fl(f, x.q); fl(f, x.qdot); }
static void fl(Flat& f, const JntSpaceInertiaMatrix& x) { fl(f, x.rows()); for (unsigned i = 0; i < x.rows(); ++i) for (unsigned j = 0; j < x.columns(); ++j) fl(f, x(i, j)); }
template <class T> static void fl(Flat& f, const std::vector<T>& v) { for (size_t i = 0; i < v.size(); ++i) { T x = v[i]; fl(f, x); } }
template <class... T> static void fl(Flat& f, const std::tuple<T...>& t) { std::apply([&](auto&... x) { (fl(f, x), ...); }, t); }
template <class T> static Flat flat(const T& x) { Flat f; fl(f, x); return f; }
static std::string show(const Flat& f) { std::ostringstream o; o.precision(17); o << f.s << " ["; for (double d : f.d) o << " " << d; o << " ]"; return o.str(); }
static bool same(const Flat& a, const Flat& b) {
    if (a.s != b.s || a.d.size() != b.d.size()) return false;
    double sc = 0; for (double x : b.d) if (std::isfinite(x)) sc = std::max(sc, std::fabs(x));
    for (size_t i = 0; i < a.d.size(); ++i) { if (a.d[i] == b.d[i] || (std::isnan(a.d[i]) && std::isnan(b.d[i]))) continue; if (!(std::fabs(a.d[i] - b.d[i]) <= 1e-12 * sc)) return false; }
    return true;
}
static bool exact(const Flat& a, const Flat& b) {
    if (a.s != b.s || a.d.size() != b.d.size()) return false;
    for (size_t i = 0; i < a.d.size(); ++i) if (!(a.d[i] == b.d[i] || (std::isnan(a.d[i]) && std::isnan(b.d[i])))) return false;
    return true;
}

// ---------- generators of arguments
struct SegNr { int v; };                  // a segment number, perhaps out of range
struct Eps { double v; };                 // a small positive number
static void fl(Flat& f, const SegNr& x) { fl(f, x.v); }
static void fl(Flat& f, const Eps& x) { fl(f, x.v); }
struct Ctx { CSpec c; int n = 0; bool mis = false; };
static Ctx C;
template <class T> struct Gen;
#define GEN(T, ...) template <> struct Gen<T> { static T make(Src& s) { __VA_ARGS__ } }
static double num(Src& s) { return s.real(-3, 3); }
static int len(Src& s) { return C.mis && s.chance(1, 14) ? std::max(0, C.n + s.pick(std::vector<int>{-1, 1, 2})) : C.n; }
GEN(double, return num(s););
GEN(int, return s.range(0, 5););
GEN(unsigned, return (unsigned)s.range(0, 5););
GEN(bool, return s.flip(););
GEN(Eps, return Eps{std::pow(10.0, -s.range(0, 9))};);
GEN(SegNr, return SegNr{s.chance(1, 2) ? -1 : s.range(-3, C.c.ns() + 2)};);
GEN(std::string, static const char* nm[] = {"a", "seg", "", "b c", "root", "\xc3\xa9"}; return nm[s.raw(6)];);
GEN(Vector, return vec(s););
GEN(Rotation, return rot(s););
GEN(Frame, return frame(s););
GEN(Twist, return twist(s););
GEN(Wrench, return wrench(s););
GEN(doubleVel, double a = num(s); return doubleVel(a, num(s)););
GEN(VectorVel, Vector a = vec(s); return VectorVel(a, vec(s)););
GEN(TwistVel, Twist a = twist(s); return TwistVel(a, twist(s)););
GEN(RotationVel, Rotation a = rot(s); return RotationVel(a, vec(s)););
GEN(FrameVel, Frame a = frame(s); return FrameVel(a, twist(s)););
GEN(RotationalInertia, double x[6]; for (double& v : x) v = num(s); return RotationalInertia(x[0], x[1], x[2], x[3], x[4], x[5]););
GEN(RigidBodyInertia, return ispec(s).build(););
static GenOpt opt() { GenOpt o; o.dyn = true; o.jinertia = true; o.jdamp = true; return o; }
GEN(Joint, return jspec(s, opt(), "j").build(););
GEN(Segment, return sspec(s, opt(), "s" + std::to_string(s.raw(5))).build(););
GEN(Chain, return C.c.build(););
GEN(Tree, return tspec(s, opt(), 0, 5).build(););
GEN(JntArray, int n = len(s); JntArray a(n); for (int i = 0; i < n; ++i) a(i) = num(s); return a;);
GEN(JntArrayVel, int n = len(s); JntArray a(n), b(n); for (int i = 0; i < n; ++i) { a(i) = num(s); b(i) = num(s); } return JntArrayVel(a, b););
GEN(Jacobian, int n = len(s); Jacobian J(n); for (int i = 0; i < 6; ++i) for (int j = 0; j < n; ++j) J(i, j) = num(s); return J;);
GEN(JntSpaceInertiaMatrix, int n = len(s); JntSpaceInertiaMatrix J(n); for (int i = 0; i < n; ++i) for (int j = 0; j < n; ++j) J(i, j) = num(s); return J;);
GEN(std::vector<bool>, int n = len(s); std::vector<bool> v(n); for (int i = 0; i < n; ++i) v[i] = s.chance(1, 4); return v;);
GEN(std::vector<Wrench>, int n = C.mis && s.chance(1, 14) ? C.c.ns() + 1 : C.c.ns(); std::vector<Wrench> v; for (int i = 0; i < n; ++i) v.push_back(wrench(s)); return v;);
GEN(Joint::JointType, return (Joint::JointType)s.range(0, 8););
static void fl(Flat& f, const Joint::JointType& x) { fl(f, (int)x); }

template <class T> static py::object toPy(const T& x) { return py::cast(x, py::return_value_policy::copy); }
static py::object toPy(const SegNr& x) { return py::int_(x.v); }
static py::object toPy(const Eps& x) { return py::float_(x.v); }
template <class T> static T fromPy(const py::object& o) { return o.cast<T>(); }
template <> SegNr fromPy<SegNr>(const py::object& o) { return SegNr{o.cast<int>()}; }
template <> Eps fromPy<Eps>(const py::object& o) { return Eps{o.cast<double>()}; }
template <class T> static std::string strOf(const T& x) { return show(flat(x)); }

// a fresh small chain, so that sizes of joint-space arguments agree
static void context(Src& s, bool solver, bool mis) {
    C.mis = false;
    if (solver) { C.c = cspec_mov(s, opt(), 1, 5); C.n = C.c.nj(); C.mis = mis && s.chance(1, 4); }
    else { C.c = cspec(s, opt(), 0, 2); C.n = s.range(0, 5); }
}

// ---------- calls: the same expression in Python and in C++
struct Call { std::string py; std::function<void(Src&)> run; };
template <class T> struct Sig : Sig<decltype(&T::operator())> {};
template <class F, class Rt, class... A> struct Sig<Rt (F::*)(A&...) const> { typedef Rt R; typedef std::tuple<A...> T; };
enum Kind { PLAIN, SOLVER };

// what the driver does with arguments of one type
struct ArgOps {
    const std::type_info* type; bool cls;
    std::shared_ptr<void> (*make)(Src&);
    py::object (*toPy)(void*);
    void (*flC)(Flat&, void*);
    void (*flPy)(Flat&, const py::object&);
};
template <class A> static const ArgOps* ops() {
    static const ArgOps o = {&typeid(A), std::is_class<A>::value && !std::is_same<A, SegNr>::value && !std::is_same<A, Eps>::value && !std::is_same<A, std::string>::value,
        [](Src& s) { return std::shared_ptr<void>(std::make_shared<A>(Gen<A>::make(s))); }, [](void* p) { return toPy(*(A*)p); }, [](Flat& f, void* p) { fl(f, *(A*)p); }, [](Flat& f, const py::object& x) { fl(f, fromPy<A>(x)); }};
    return &o;
}
template <class R> static void flRes(Flat& f, const py::object& x) { fl(f, fromPy<R>(x)); }
struct Sigs { std::vector<const ArgOps*> args; bool isVoid, isBool; void (*res)(Flat&, const py::object&); std::function<void(void**, Flat&)> run; };

static void callOnce(Src& s, const std::string& expr, const Sigs& f, Kind kd) {
    context(s, kd == SOLVER, true);
    const size_t n = f.args.size();
    std::vector<std::shared_ptr<void>> v; for (auto a : f.args) v.push_back(a->make(s));
    std::vector<void*> p(n + 1); std::vector<size_t> from(n + 1);
    for (size_t i = 0; i < n; ++i) {
        from[i] = i; p[i] = v[i].get();
        // the same object given twice
        for (size_t j = 0; j < i; ++j) if (kd == PLAIN && f.args[i]->cls && *f.args[i]->type == *f.args[j]->type && from[j] == j && s.chance(1, 12)) { from[i] = j; p[i] = p[j]; s.label("same object twice"); break; }
    }
    std::string params = "lambda ";
    for (size_t i = 0; i < n; ++i) params += std::string(i ? "," : "") + (char)('a' + i);
    py::object fn = P().fn(params + ": " + expr);
    py::tuple o(n);
    for (size_t i = 0; i < n; ++i) o[i] = from[i] == i ? f.args[i]->toPy(p[i]) : py::object(o[from[i]]);
    Flat before; for (size_t i = 0; i < n; ++i) f.args[i]->flC(before, p[i]);
    if (s.verbose) { NOTE(expr << " with"); for (size_t i = 0; i < n; ++i) { Flat d; f.args[i]->flC(d, p[i]); NOTE("  " << (char)('a' + i) << " = " << (from[i] == i ? show(d) : std::string("the same as ") + (char)('a' + from[i]))); } }
    s.nontrivial(n == 0 || before.d.empty() || std::count(before.d.begin(), before.d.end(), 0.0) < (long)before.d.size());
    Flat want; f.run(p.data(), want);
    guarded([&] {
        py::object r = fn(*o);
        if (f.isVoid) EXPECT(r.is_none(), expr << " returned something"); else {
            if (f.isBool) EXPECT(py::isinstance<py::bool_>(r), expr << " does not return a bool");
            Flat got; f.res(got, r);
            EXPECT(same(got, want), expr << "\nPython gives " << show(got) << "\nC++ gives    " << show(want));
        }
        Flat ap, ac;
        for (size_t i = 0; i < n; ++i) { f.args[i]->flPy(ap, o[i]); f.args[i]->flC(ac, p[i]); }
        EXPECT(same(ap, ac), "arguments after " << expr << "\nin Python " << show(ap) << "\nin C++    " << show(ac));
    });
}
template <class R, class F, class... A, size_t... I> static Sigs sigs(const F& f, std::tuple<A...>*, std::index_sequence<I...>) {
    Sigs g; (g.args.push_back(ops<A>()), ...); g.isVoid = std::is_void<R>::value; g.isBool = std::is_same<R, bool>::value; g.res = nullptr;
    if constexpr (!std::is_void<R>::value) g.res = &flRes<R>;
    g.run = [f](void** p, Flat& want) { (void)p; if constexpr (std::is_void<R>::value) f(*(A*)p[I]...); else fl(want, (const R&)f(*(A*)p[I]...)); };
    return g;
}
// (kept out of line, and with no temporaries in the tables below: compile time)
static __attribute__((noinline)) void put2(std::vector<Call>& t, Kind kd, const char* expr, const Sigs& g) { std::string e = expr; t.push_back({e, [=](Src& s) { callOnce(s, e, g, kd); }}); }
template <class F> static __attribute__((noinline)) void put(std::vector<Call>& t, Kind kd, const char* expr, F f) {
    typedef typename Sig<F>::T T; typedef typename Sig<F>::R R;
    put2(t, kd, expr, sigs<R>(f, (T*)nullptr, std::make_index_sequence<std::tuple_size<T>::value>()));
}
#define E(PY, ...) put(t, PLAIN, PY, [] __VA_ARGS__)
#define S(PY, ...) put(t, SOLVER, PY, [] __VA_ARGS__)
static void any(Src& s, const std::vector<Call>& t) { const Call& c = s.pick(t); c.run(s); }
typedef Vector V; typedef Rotation Ro; typedef Frame Fr; typedef Twist Tw; typedef Wrench Wr;
typedef VectorVel VV; typedef RotationVel RV; typedef FrameVel FV; typedef TwistVel TV; typedef doubleVel DV;
typedef double D;

// element-wise algebra shared by the six-vectors
template <class T> static void six(std::vector<Call>& t) {
    E("a+b", (T& a, T& b) { return a + b; }); E("a-b", (T& a, T& b) { return a - b; }); E("-a", (T& a) { return -a; });
    E("iadd(a,b)", (T& a, T& b) { a += b; return a; }); E("isub(a,b)", (T& a, T& b) { a -= b; return a; });
    E("a*b", (T& a, D& b) { return a * b; }); E("b*a", (T& a, D& b) { return b * a; }); E("a/b", (T& a, D& b) { return a / b; });
    E("a.ReverseSign()", (T& a) { a.ReverseSign(); }); E("a.RefPoint(b)", (T& a, V& b) { return a.RefPoint(b); }); E("a.RefPoint(base=b)", (T& a, V& b) { return a.RefPoint(b); });
    E("SetToZero(a)", (T& a) { SetToZero(a); });
    E("diff(a,b)", (T& a, T& b) { return diff(a, b); }); E("diff(a,b,dt=c)", (T& a, T& b, D& c) { return diff(a, b, c); });
    E("addDelta(a,b)", (T& a, T& b) { return addDelta(a, b); }); E("addDelta(a,b,c)", (T& a, T& b, D& c) { return addDelta(a, b, c); });
    E("[a[i] for i in range(6)]", (T& a) { std::vector<D> r; for (int i = 0; i < 6; ++i) r.push_back(a(i)); return r; });
}
// comparison: on equal, on nearly equal, and on independent values
template <class T> static T nudged(const T& x, int i, double d) { T y = x; double* p = (double*)&y; p[i % (sizeof(T) / sizeof(double))] += d; return y; }
template <class T> static void cmpOps(std::vector<Call>& t) {
    E("a==b", (T& a, T& b) { return a == b; }); E("a!=b", (T& a, T& b) { return a != b; });
    E("Equal(a,b)", (T& a, T& b) { return Equal(a, b); }); E("Equal(a,b,eps=c)", (T& a, T& b, Eps& c) { return Equal(a, b, c.v); });
}
template <class T, class U> static void cmpMixed(std::vector<Call>& t) {
    E("a==b", (T& a, U& b) { return a == b; }); E("a!=b", (T& a, U& b) { return a != b; }); E("b==a", (T& a, U& b) { return b == a; }); E("b!=a", (T& a, U& b) { return b != a; });
    E("Equal(a,b)", (T& a, U& b) { return Equal(a, b); }); E("Equal(b,a,c)", (T& a, U& b, Eps& c) { return Equal(b, a, c.v); });
}

static const std::vector<Call>& framesCalls() {
    static std::vector<Call> t;
    if (!t.empty()) return t;
    // Vector
    E("Vector()", () { return V(); }); E("Vector(a,b,c)", (D& a, D& b, D& c) { return V(a, b, c); }); E("Vector(z=c,x=a,y=b)", (D& a, D& b, D& c) { return V(a, b, c); }); E("Vector(a)", (V& a) { return V(a); }); E("Vector.Zero()", () { return V::Zero(); });
    E("(a.x(),a.y(),a.z())", (V& a) { return std::make_tuple(a.x(), a.y(), a.z()); }); E("a.x(b)", (V& a, D& b) { a.x(b); }); E("a.y(b)", (V& a, D& b) { a.y(b); }); E("a.z(value=b)", (V& a, D& b) { a.z(b); });
    E("a+b", (V& a, V& b) { return a + b; }); E("a-b", (V& a, V& b) { return a - b; }); E("-a", (V& a) { return -a; }); E("iadd(a,b)", (V& a, V& b) { a += b; return a; }); E("isub(a,b)", (V& a, V& b) { a -= b; return a; });
    E("a*b", (V& a, D& b) { return a * b; }); E("b*a", (V& a, D& b) { return b * a; }); E("a/b", (V& a, D& b) { return a / b; }); E("a*b", (V& a, V& b) { return a * b; }); E("dot(a,b)", (V& a, V& b) { return dot(a, b); });
    E("a*2", (V& a) { return a * 2.0; }); E("3*a", (V& a) { return 3.0 * a; });
    E("a.ReverseSign()", (V& a) { a.ReverseSign(); }); E("a.Norm()", (V& a) { return a.Norm(); }); E("a.Norm(b)", (V& a, Eps& b) { return a.Norm(b.v); }); E("a.Norm(eps=b)", (V& a, D& b) { return a.Norm(b); });
    E("a.Normalize()", (V& a) { return a.Normalize(); }); E("a.Normalize(eps=b)", (V& a, D& b) { return a.Normalize(b); }); E("SetToZero(a)", (V& a) { SetToZero(a); });
    E("diff(a,b)", (V& a, V& b) { return diff(a, b); }); E("diff(a,b,c)", (V& a, V& b, D& c) { return diff(a, b, c); }); E("addDelta(a,b)", (V& a, V& b) { return addDelta(a, b); }); E("addDelta(a=a,da=b,dt=c)", (V& a, V& b, D& c) { return addDelta(a, b, c); });
    // Twist, Wrench
    six<Tw>(t); six<Wr>(t);
    E("Twist()", () { return Tw(); }); E("Twist(a,b)", (V& a, V& b) { return Tw(a, b); }); E("Twist(rot=b,vel=a)", (V& a, V& b) { return Tw(a, b); }); E("Twist(a)", (Tw& a) { return Tw(a); }); E("Twist.Zero()", () { return Tw::Zero(); }); E("(a.vel,a.rot)", (Tw& a) { return std::make_tuple(a.vel, a.rot); });
    E("Wrench()", () { return Wr(); }); E("Wrench(a,b)", (V& a, V& b) { return Wr(a, b); }); E("Wrench(torque=b,force=a)", (V& a, V& b) { return Wr(a, b); }); E("Wrench(a)", (Wr& a) { return Wr(a); }); E("Wrench.Zero()", () { return Wr::Zero(); }); E("(a.force,a.torque)", (Wr& a) { return std::make_tuple(a.force, a.torque); });
    E("dot(a,b)", (Tw& a, Wr& b) { return dot(a, b); }); E("dot(b,a)", (Tw& a, Wr& b) { return dot(b, a); });
    // Rotation
    E("Rotation()", () { return Ro(); }); E("Rotation(a,b,c,d,e,f,g,h,i)", (D& a, D& b, D& c, D& d, D& e, D& f, D& g, D& h, D& i) { return Ro(a, b, c, d, e, f, g, h, i); });
    E("Rotation(xx=a,yx=b,zx=c,xy=d,yy=e,zy=f,xz=g,yz=h,zz=i)", (D& a, D& b, D& c, D& d, D& e, D& f, D& g, D& h, D& i) { return Ro(a, b, c, d, e, f, g, h, i); });
    E("Rotation(a,b,c)", (V& a, V& b, V& c) { return Ro(a, b, c); }); E("Rotation(x=a,y=b,z=c)", (V& a, V& b, V& c) { return Ro(a, b, c); }); E("Rotation(a)", (Ro& a) { return Ro(a); }); E("Rotation.Identity()", () { return Ro::Identity(); });
    E("[a[i,j] for i in range(3) for j in range(3)]", (Ro& a) { std::vector<D> r; for (int i = 0; i < 3; ++i) for (int j = 0; j < 3; ++j) r.push_back(a(i, j)); return r; });
    E("a.SetInverse()", (Ro& a) { a.SetInverse(); }); E("a.Inverse()", (Ro& a) { return a.Inverse(); }); E("a.Inverse(b)", (Ro& a, V& b) { return a.Inverse(b); }); E("a.Inverse(b)", (Ro& a, Wr& b) { return a.Inverse(b); }); E("a.Inverse(b)", (Ro& a, Tw& b) { return a.Inverse(b); });
    E("Rotation.RotX(a)", (D& a) { return Ro::RotX(a); }); E("Rotation.RotY(angle=a)", (D& a) { return Ro::RotY(a); }); E("Rotation.RotZ(a)", (D& a) { return Ro::RotZ(a); });
    E("Rotation.Rot(a,b)", (V& a, D& b) { return Ro::Rot(a, b); }); E("Rotation.Rot(angle=b,rotvec=a)", (V& a, D& b) { return Ro::Rot(a, b); }); E("Rotation.Rot2(a,b)", (V& a, D& b) { return Ro::Rot2(a, b); });
    E("Rotation.EulerZYZ(a,b,c)", (D& a, D& b, D& c) { return Ro::EulerZYZ(a, b, c); }); E("Rotation.EulerZYX(a,b,c)", (D& a, D& b, D& c) { return Ro::EulerZYX(a, b, c); }); E("Rotation.RPY(a,b,c)", (D& a, D& b, D& c) { return Ro::RPY(a, b, c); }); E("Rotation.RPY(yaw=c,pitch=b,roll=a)", (D& a, D& b, D& c) { return Ro::RPY(a, b, c); });
    E("Rotation.EulerZYZ(gamma=c,beta=b,alpha=a)", (D& a, D& b, D& c) { return Ro::EulerZYZ(a, b, c); }); E("Rotation.EulerZYX(gamma=c,beta=b,alpha=a)", (D& a, D& b, D& c) { return Ro::EulerZYX(a, b, c); });
    E("Rotation.Quaternion(a,b,c,d)", (D& a, D& b, D& c, D& d) { return Ro::Quaternion(a, b, c, d); }); E("Rotation.Quaternion(w=d,z=c,y=b,x=a)", (D& a, D& b, D& c, D& d) { return Ro::Quaternion(a, b, c, d); });
    E("a.DoRotX(b)", (Ro& a, D& b) { a.DoRotX(b); }); E("a.DoRotY(b)", (Ro& a, D& b) { a.DoRotY(b); }); E("a.DoRotZ(angle=b)", (Ro& a, D& b) { a.DoRotZ(b); });
    E("a.GetRot()", (Ro& a) { return a.GetRot(); }); E("a.GetRotAngle()", (Ro& a) { V x; D r = a.GetRotAngle(x); return std::make_tuple(r, x); }); E("a.GetRotAngle(eps=b)", (Ro& a, Eps& b) { V x; D r = a.GetRotAngle(x, b.v); return std::make_tuple(r, x); });
    E("a.GetEulerZYZ()", (Ro& a) { D x, y, z; a.GetEulerZYZ(x, y, z); return std::make_tuple(x, y, z); }); E("a.GetEulerZYX()", (Ro& a) { D x, y, z; a.GetEulerZYX(x, y, z); return std::make_tuple(x, y, z); }); E("a.GetRPY()", (Ro& a) { D x, y, z; a.GetRPY(x, y, z); return std::make_tuple(x, y, z); });
    E("a.GetQuaternion()", (Ro& a) { D x, y, z, w; a.GetQuaternion(x, y, z, w); return std::make_tuple(x, y, z, w); });
    E("(a.UnitX(),a.UnitY(),a.UnitZ())", (Ro& a) { return std::make_tuple(a.UnitX(), a.UnitY(), a.UnitZ()); }); E("a.UnitX(b)", (Ro& a, V& b) { a.UnitX(b); }); E("a.UnitY(vec=b)", (Ro& a, V& b) { a.UnitY(b); }); E("a.UnitZ(b)", (Ro& a, V& b) { a.UnitZ(b); });
    E("a*b", (Ro& a, V& b) { return a * b; }); E("a*b", (Ro& a, Tw& b) { return a * b; }); E("a*b", (Ro& a, Wr& b) { return a * b; }); E("a*b", (Ro& a, Ro& b) { return a * b; });
    E("diff(a,b)", (Ro& a, Ro& b) { return diff(a, b); }); E("diff(a,b,c)", (Ro& a, Ro& b, D& c) { return diff(a, b, c); }); E("addDelta(a,b)", (Ro& a, V& b) { return addDelta(a, b); }); E("addDelta(a,b,c)", (Ro& a, V& b, D& c) { return addDelta(a, b, c); });
    // Frame
    E("Frame()", () { return Fr(); }); E("Frame(a,b)", (Ro& a, V& b) { return Fr(a, b); }); E("Frame(V=b,R=a)", (Ro& a, V& b) { return Fr(a, b); }); E("Frame(a)", (V& a) { return Fr(a); }); E("Frame(a)", (Ro& a) { return Fr(a); }); E("Frame(a)", (Fr& a) { return Fr(a); }); E("Frame.Identity()", () { return Fr::Identity(); });
    E("[a[i,j] for i in range(3) for j in range(4)]", (Fr& a) { std::vector<D> r; for (int i = 0; i < 3; ++i) for (int j = 0; j < 4; ++j) r.push_back(a(i, j)); return r; }); E("(a.M,a.p)", (Fr& a) { return std::make_tuple(a.M, a.p); });
    E("Frame.DH(a,b,c,d)", (D& a, D& b, D& c, D& d) { return Fr::DH(a, b, c, d); }); E("Frame.DH(theta=d,d=c,alpha=b,a=a)", (D& a, D& b, D& c, D& d) { return Fr::DH(a, b, c, d); }); E("Frame.DH_Craig1989(a,b,c,d)", (D& a, D& b, D& c, D& d) { return Fr::DH_Craig1989(a, b, c, d); }); E("Frame.DH_Craig1989(theta=d,d=c,alpha=b,a=a)", (D& a, D& b, D& c, D& d) { return Fr::DH_Craig1989(a, b, c, d); });
    E("a.Inverse()", (Fr& a) { return a.Inverse(); }); E("a.Inverse(b)", (Fr& a, V& b) { return a.Inverse(b); }); E("a.Inverse(b)", (Fr& a, Wr& b) { return a.Inverse(b); }); E("a.Inverse(b)", (Fr& a, Tw& b) { return a.Inverse(b); });
    E("a.Integrate(b,c)", (Fr& a, Tw& b, D& c) { a.Integrate(b, c); }); E("a.Integrate(sample_frequency=c,twist=b)", (Fr& a, Tw& b, D& c) { a.Integrate(b, c); });
    E("a*b", (Fr& a, V& b) { return a * b; }); E("a*b", (Fr& a, Tw& b) { return a * b; }); E("a*b", (Fr& a, Wr& b) { return a * b; }); E("a*b", (Fr& a, Fr& b) { return a * b; });
    E("diff(a,b)", (Fr& a, Fr& b) { return diff(a, b); }); E("diff(a,b,c)", (Fr& a, Fr& b, D& c) { return diff(a, b, c); }); E("addDelta(a,b)", (Fr& a, Tw& b) { return addDelta(a, b); }); E("addDelta(a,b,dt=c)", (Fr& a, Tw& b, D& c) { return addDelta(a, b, c); });
    cmpOps<V>(t); cmpOps<Tw>(t); cmpOps<Wr>(t); cmpOps<Ro>(t); cmpOps<Fr>(t);
    return t;
}

static const std::vector<Call>& framevelCalls() {
    static std::vector<Call> t;
    if (!t.empty()) return t;
    E("doubleVel(a)", (D& a) { return DV(a); }); E("doubleVel(a,b)", (D& a, D& b) { return DV(a, b); }); E("doubleVel(a)", (DV& a) { return DV(a); }); E("(a.t,a.grad,a.value(),a.deriv())", (DV& a) { return std::make_tuple(a.t, a.grad, a.value(), a.deriv()); }); E("-a", (DV& a) { return -a; });
    E("diff(a,b)", (DV& a, DV& b) { return diff(a, b); }); E("diff(a,b,dt=c)", (DV& a, DV& b, D& c) { return diff(a, b, c); }); E("addDelta(a,b)", (DV& a, DV& b) { return addDelta(a, b); }); E("addDelta(a,b,c)", (DV& a, DV& b, D& c) { return addDelta(a, b, c); });
    // VectorVel
    E("VectorVel(a,b)", (V& a, V& b) { return VV(a, b); }); E("VectorVel(v=b,p=a)", (V& a, V& b) { return VV(a, b); }); E("VectorVel(a)", (V& a) { return VV(a); }); E("VectorVel(a)", (VV& a) { return VV(a); }); E("VectorVel.Zero()", () { return VV::Zero(); }); E("(a.p,a.v,a.value(),a.deriv())", (VV& a) { return std::make_tuple(a.p, a.v, a.value(), a.deriv()); });
    E("a.ReverseSign()", (VV& a) { a.ReverseSign(); }); E("a.Norm()", (VV& a) { return a.Norm(); }); E("a.Norm(eps=b)", (VV& a, Eps& b) { return a.Norm(b.v); }); E("iadd(a,b)", (VV& a, VV& b) { a += b; return a; }); E("isub(a,b)", (VV& a, VV& b) { a -= b; return a; });
    E("a+b", (VV& a, VV& b) { return a + b; }); E("a-b", (VV& a, VV& b) { return a - b; }); E("a+b", (V& a, VV& b) { return a + b; }); E("a-b", (V& a, VV& b) { return a - b; }); E("a+b", (VV& a, V& b) { return a + b; }); E("a-b", (VV& a, V& b) { return a - b; }); E("-a", (VV& a) { return -a; });
    E("a*b", (VV& a, VV& b) { return a * b; }); E("a*b", (VV& a, V& b) { return a * b; }); E("a*b", (V& a, VV& b) { return a * b; }); E("a*b", (D& a, VV& b) { return a * b; }); E("a*b", (VV& a, D& b) { return a * b; }); E("a*b", (DV& a, VV& b) { return a * b; }); E("a*b", (VV& a, DV& b) { return a * b; }); E("a*b", (Ro& a, VV& b) { return a * b; });
    E("a/b", (VV& a, D& b) { return a / b; }); E("a/b", (VV& a, DV& b) { return a / b; }); E("SetToZero(a)", (VV& a) { SetToZero(a); });
    E("dot(a,b)", (VV& a, VV& b) { return dot(a, b); }); E("dot(a,b)", (VV& a, V& b) { return dot(a, b); }); E("dot(a,b)", (V& a, VV& b) { return dot(a, b); });
    // TwistVel
    E("TwistVel()", () { return TV(); }); E("TwistVel(a,b)", (VV& a, VV& b) { return TV(a, b); }); E("TwistVel(rot=b,vel=a)", (VV& a, VV& b) { return TV(a, b); }); E("TwistVel(a,b)", (Tw& a, Tw& b) { return TV(a, b); }); E("TwistVel(v=b,p=a)", (Tw& a, Tw& b) { return TV(a, b); }); E("TwistVel(a)", (Tw& a) { return TV(a); }); E("TwistVel(a)", (TV& a) { return TV(a); }); E("TwistVel.Zero()", () { return TV::Zero(); });
    E("(a.vel,a.rot,a.value(),a.deriv(),a.GetTwist(),a.GetTwistDot())", (TV& a) { return std::make_tuple(a.vel, a.rot, a.value(), a.deriv(), a.GetTwist(), a.GetTwistDot()); });
    E("a.ReverseSign()", (TV& a) { a.ReverseSign(); }); E("a.RefPoint(b)", (TV& a, VV& b) { return a.RefPoint(b); }); E("a.RefPoint(base=b)", (TV& a, VV& b) { return a.RefPoint(b); }); E("isub(a,b)", (TV& a, TV& b) { a -= b; return a; }); E("iadd(a,b)", (TV& a, TV& b) { a += b; return a; });
    E("a*b", (TV& a, D& b) { return a * b; }); E("b*a", (TV& a, D& b) { return b * a; }); E("a/b", (TV& a, D& b) { return a / b; }); E("a*b", (TV& a, DV& b) { return a * b; }); E("b*a", (TV& a, DV& b) { return b * a; }); E("a/b", (TV& a, DV& b) { return a / b; });
    E("a+b", (TV& a, TV& b) { return a + b; }); E("a-b", (TV& a, TV& b) { return a - b; }); E("-a", (TV& a) { return -a; }); E("SetToZero(a)", (TV& a) { SetToZero(a); });
    // RotationVel
    E("RotationVel()", () { return RV(); }); E("RotationVel(a)", (Ro& a) { return RV(a); }); E("RotationVel(a,b)", (Ro& a, V& b) { return RV(a, b); }); E("RotationVel(w=b,R=a)", (Ro& a, V& b) { return RV(a, b); }); E("RotationVel(a)", (RV& a) { return RV(a); }); E("RotationVel.Identity()", () { return RV::Identity(); }); E("(a.R,a.w,a.value(),a.deriv())", (RV& a) { return std::make_tuple(a.R, a.w, a.value(), a.deriv()); });
    E("(a.UnitX(),a.UnitY(),a.UnitZ())", (RV& a) { return std::make_tuple(a.UnitX(), a.UnitY(), a.UnitZ()); }); E("a.Inverse()", (RV& a) { return a.Inverse(); }); E("a.Inverse(b)", (RV& a, VV& b) { return a.Inverse(b); }); E("a.Inverse(b)", (RV& a, V& b) { return a.Inverse(b); }); E("a.Inverse(b)", (RV& a, TV& b) { return a.Inverse(b); }); E("a.Inverse(b)", (RV& a, Tw& b) { return a.Inverse(b); });
    E("a.DoRotX(b)", (RV& a, DV& b) { a.DoRotX(b); }); E("a.DoRotY(b)", (RV& a, DV& b) { a.DoRotY(b); }); E("a.DoRotZ(angle=b)", (RV& a, DV& b) { a.DoRotZ(b); });
    E("RotationVel.RotX(a)", (DV& a) { return RV::RotX(a); }); E("RotationVel.RotY(a)", (DV& a) { return RV::RotY(a); }); E("RotationVel.RotZ(angle=a)", (DV& a) { return RV::RotZ(a); }); E("RotationVel.Rot(a,b)", (V& a, DV& b) { return RV::Rot(a, b); }); E("RotationVel.Rot2(angle=b,rotvec=a)", (V& a, DV& b) { return RV::Rot2(a, b); });
    E("a*b", (RV& a, VV& b) { return a * b; }); E("a*b", (RV& a, V& b) { return a * b; }); E("a*b", (RV& a, TV& b) { return a * b; }); E("a*b", (RV& a, Tw& b) { return a * b; }); E("a*b", (RV& a, RV& b) { return a * b; }); E("a*b", (Ro& a, RV& b) { return a * b; }); E("a*b", (RV& a, Ro& b) { return a * b; });
    // FrameVel
    E("FrameVel()", () { return FV(); }); E("FrameVel(a)", (Fr& a) { return FV(a); }); E("FrameVel(a,b)", (Fr& a, Tw& b) { return FV(a, b); }); E("FrameVel(t=b,T=a)", (Fr& a, Tw& b) { return FV(a, b); }); E("FrameVel(a,b)", (RV& a, VV& b) { return FV(a, b); }); E("FrameVel(p=b,M=a)", (RV& a, VV& b) { return FV(a, b); }); E("FrameVel(a)", (FV& a) { return FV(a); }); E("FrameVel.Identity()", () { return FV::Identity(); });
    E("(a.M,a.p,a.value(),a.deriv(),a.GetFrame(),a.GetTwist())", (FV& a) { return std::make_tuple(a.M, a.p, a.value(), a.deriv(), a.GetFrame(), a.GetTwist()); });
    E("a.Inverse()", (FV& a) { return a.Inverse(); }); E("a.Inverse(b)", (FV& a, VV& b) { return a.Inverse(b); }); E("a.Inverse(b)", (FV& a, V& b) { return a.Inverse(b); }); E("a.Inverse(b)", (FV& a, TV& b) { return a.Inverse(b); }); E("a.Inverse(b)", (FV& a, Tw& b) { return a.Inverse(b); });
    E("a*b", (FV& a, VV& b) { return a * b; }); E("a*b", (FV& a, V& b) { return a * b; }); E("a*b", (FV& a, TV& b) { return a * b; }); E("a*b", (FV& a, Tw& b) { return a * b; }); E("a*b", (FV& a, FV& b) { return a * b; }); E("a*b", (Fr& a, FV& b) { return a * b; }); E("a*b", (FV& a, Fr& b) { return a * b; });
    E("diff(a,b)", (VV& a, VV& b) { return diff(a, b); }); E("diff(a,b,c)", (VV& a, VV& b, D& c) { return diff(a, b, c); }); E("diff(a,b)", (RV& a, RV& b) { return diff(a, b); }); E("diff(a,b,c)", (RV& a, RV& b, D& c) { return diff(a, b, c); }); E("diff(a,b)", (FV& a, FV& b) { return diff(a, b); }); E("diff(a,b,dt=c)", (FV& a, FV& b, D& c) { return diff(a, b, c); });
    E("addDelta(a,b)", (VV& a, VV& b) { return addDelta(a, b); }); E("addDelta(a,b,c)", (VV& a, VV& b, D& c) { return addDelta(a, b, c); }); E("addDelta(a,b)", (RV& a, VV& b) { return addDelta(a, b); }); E("addDelta(a,b,c)", (RV& a, VV& b, D& c) { return addDelta(a, b, c); }); E("addDelta(a,b)", (FV& a, TV& b) { return addDelta(a, b); }); E("addDelta(a,b,dt=c)", (FV& a, TV& b, D& c) { return addDelta(a, b, c); });
    cmpOps<DV>(t); cmpOps<VV>(t); cmpOps<TV>(t); cmpOps<RV>(t); cmpOps<FV>(t);
    cmpMixed<V, VV>(t); cmpMixed<Tw, TV>(t); cmpMixed<Ro, RV>(t); cmpMixed<Fr, FV>(t);
    return t;
}

typedef JntArray Q; typedef JntArrayVel QV; typedef Jacobian J; typedef JntSpaceInertiaMatrix H; typedef RigidBodyInertia RBI; typedef RotationalInertia RI; typedef std::string Str;
static const std::vector<Call>& kinfamCalls() {
    static std::vector<Call> t;
    if (!t.empty()) return t;
    E("Joint()", () { return Joint(); }); E("Joint(a)", (Joint& a) { return Joint(a); }); E("a.pose(b)", (Joint& a, D& b) { return a.pose(b); }); E("a.pose(q=b)", (Joint& a, D& b) { return a.pose(b); }); E("a.twist(b)", (Joint& a, D& b) { return a.twist(b); }); E("a.twist(q_dot=b)", (Joint& a, D& b) { return a.twist(b); });
    E("(a.JointAxis(),a.JointOrigin(),a.getName(),int(a.getType()),a.getTypeName())", (Joint& a) { return std::make_tuple(a.JointAxis(), a.JointOrigin(), a.getName(), (int)a.getType(), a.getTypeName()); });
    E("repr(a)", (Joint& a) { std::ostringstream o; o << a; return o.str(); });
    E("a.getType()", (Joint& a) { return a.getType(); });
    E("int(a)", (Joint::JointType& a) { return (int)a; });
    E("[int(x) for x in (Joint.RotAxis,Joint.RotX,Joint.RotY,Joint.RotZ,Joint.TransAxis,Joint.TransX,Joint.TransY,Joint.TransZ,Joint.Fixed)]", () { return std::vector<int>{Joint::RotAxis, Joint::RotX, Joint::RotY, Joint::RotZ, Joint::TransAxis, Joint::TransX, Joint::TransY, Joint::TransZ, Joint::Fixed}; });
    // inertias
    E("RotationalInertia(a,b,c,d,e,f)", (D& a, D& b, D& c, D& d, D& e, D& f) { return RI(a, b, c, d, e, f); }); E("RotationalInertia(Iyz=f,Ixz=e,Ixy=d,Izz=c,Iyy=b,Ixx=a)", (D& a, D& b, D& c, D& d, D& e, D& f) { return RI(a, b, c, d, e, f); }); E("RotationalInertia(a,b)", (D& a, D& b) { return RI(a, b); }); E("RotationalInertia()", () { return RI(); }); E("RotationalInertia.Zero()", () { return RI::Zero(); });
    E("[a[i] for i in range(9)]", (RI& a) { return std::vector<D>(a.data, a.data + 9); }); E("b*a", (RI& a, D& b) { return b * a; }); E("a+b", (RI& a, RI& b) { return a + b; }); E("a*b", (RI& a, V& b) { return a * b; });
    E("RigidBodyInertia(a,b,c)", (D& a, V& b, RI& c) { return RBI(a, b, c); }); E("RigidBodyInertia(Ic=c,oc=b,m=a)", (D& a, V& b, RI& c) { return RBI(a, b, c); }); E("RigidBodyInertia(a)", (D& a) { return RBI(a); });
    E("RigidBodyInertia(m=a,Ic=b)", (D& a, RI& b) { return RBI(a, V::Zero(), b); }); E("RigidBodyInertia(a,b)", (D& a, V& b) { return RBI(a, b); }); E("RigidBodyInertia()", () { return RBI(); }); E("RigidBodyInertia.Zero()", () { return RBI::Zero(); });
    E("a.RefPoint(b)", (RBI& a, V& b) { return a.RefPoint(b); }); E("(a.getMass(),a.getCOG(),a.getRotationalInertia())", (RBI& a) { return std::make_tuple(a.getMass(), a.getCOG(), a.getRotationalInertia()); });
    E("b*a", (RBI& a, D& b) { return b * a; }); E("a+b", (RBI& a, RBI& b) { return a + b; }); E("a*b", (RBI& a, Tw& b) { return a * b; }); E("a*b", (Fr& a, RBI& b) { return a * b; }); E("a*b", (Ro& a, RBI& b) { return a * b; });
    // Segment
    E("Segment(a,b,c,d)", (Str& a, Joint& b, Fr& c, RBI& d) { return Segment(a, b, c, d); }); E("Segment(name=a,I=d,f_tip=c,joint=b)", (Str& a, Joint& b, Fr& c, RBI& d) { return Segment(a, b, c, d); }); E("Segment(a)", (Str& a) { return Segment(a); }); E("Segment(a,b)", (Str& a, Joint& b) { return Segment(a, b); }); E("Segment(a,b,c)", (Str& a, Joint& b, Fr& c) { return Segment(a, b, c); });
    E("Segment(a,b,c)", (Joint& a, Fr& b, RBI& c) { return Segment(a, b, c); }); E("Segment(a,b)", (Joint& a, Fr& b) { return Segment(a, b); }); E("Segment(a)", (Joint& a) { return Segment(a); }); E("Segment()", () { return Segment(); }); E("Segment(I=b,joint=a)", (Joint& a, RBI& b) { return Segment(a, Fr::Identity(), b); }); E("Segment(f_tip=a)", (Fr& a) { return Segment(Joint(), a); }); E("Segment(a)", (Segment& a) { return Segment(a); });
    E("(a.getFrameToTip(),a.getName(),a.getJoint(),a.getInertia())", (Segment& a) { return std::make_tuple(a.getFrameToTip(), a.getName(), a.getJoint(), a.getInertia()); }); E("a.pose(b)", (Segment& a, D& b) { return a.pose(b); }); E("a.twist(b,c)", (Segment& a, D& b, D& c) { return a.twist(b, c); }); E("a.twist(q_dot=c,q=b)", (Segment& a, D& b, D& c) { return a.twist(b, c); }); E("a.setInertia(b)", (Segment& a, RBI& b) { a.setInertia(b); });
    // Chain, Tree
    E("Chain()", () { return Chain(); }); E("Chain(a)", (Chain& a) { return Chain(a); }); E("a.addSegment(b)", (Chain& a, Segment& b) { a.addSegment(b); }); E("a.addChain(b)", (Chain& a, Chain& b) { a.addChain(b); }); E("(a.getNrOfJoints(),a.getNrOfSegments())", (Chain& a) { return std::make_tuple(a.getNrOfJoints(), a.getNrOfSegments()); }); E("[a.getSegment(i) for i in range(a.getNrOfSegments())]", (Chain& a) { return a.segments; });
    E("repr(a)", (Chain& a) { std::ostringstream o; o << a; return o.str(); });
    E("Tree()", () { return Tree(); }); E("Tree(a)", (Str& a) { return Tree(a); }); E("Tree(root_name=a)", (Str& a) { return Tree(a); }); E("(a.getNrOfJoints(),a.getNrOfSegments())", (Tree& a) { return std::make_tuple(a.getNrOfJoints(), a.getNrOfSegments()); }); E("repr(a)", (Tree& a) { std::ostringstream o; o << a; return o.str(); });
    E("a.addSegment(b,c)", (Tree& a, Segment& b, Str& c) { return a.addSegment(b, c); }); E("a.addSegment(hook_name='root',segment=b)", (Tree& a, Segment& b) { return a.addSegment(b, "root"); }); E("a.addChain(b,'root')", (Tree& a, Chain& b) { return a.addChain(b, "root"); }); E("a.addTree(b,'root')", (Tree& a, Tree& b) { if (&a == &b) throw pbt::Discard(); return a.addTree(b, "root"); });
    // Jacobian
    E("Jacobian()", () { return J(); }); E("Jacobian(a)", (unsigned& a) { return J(a); }); E("Jacobian(nr_columns=a)", (unsigned& a) { return J(a); }); E("Jacobian(a)", (J& a) { return J(a); }); E("(a.rows(),a.columns())", (J& a) { return std::make_tuple(a.rows(), a.columns()); }); E("[a.getColumn(i) for i in range(a.columns())]", (J& a) { std::vector<Tw> r; for (unsigned i = 0; i < a.columns(); ++i) r.push_back(a.getColumn(i)); return r; }); E("a.resize(2) or SetToZero(a)", (J& a) { a.resize(2); SetToZero(a); });
    E("[a[i,j] for i in range(6) for j in range(a.columns())]", (J& a) { std::vector<D> r; for (int i = 0; i < 6; ++i) for (unsigned j = 0; j < a.columns(); ++j) r.push_back(a(i, j)); return r; });
    E("a.changeRefPoint(b)", (J& a, V& b) { a.changeRefPoint(b); }); E("a.changeBase(b)", (J& a, Ro& b) { a.changeBase(b); }); E("a.changeRefFrame(b)", (J& a, Fr& b) { a.changeRefFrame(b); }); E("repr(a)", (J& a) { std::ostringstream o; o << a; return o.str(); }); E("SetToZero(a)", (J& a) { SetToZero(a); });
    E("changeRefPoint(a,b,c)", (J& a, V& b, J& c) { return changeRefPoint(a, b, c); }); E("changeBase(a,b,c)", (J& a, Ro& b, J& c) { return changeBase(a, b, c); }); E("changeRefFrame(a,b,c)", (J& a, Fr& b, J& c) { return changeRefFrame(a, b, c); });
    // JntArray
    E("JntArray()", () { return Q(); }); E("JntArray(a)", (unsigned& a) { return Q(a); }); E("JntArray(size=a)", (unsigned& a) { return Q(a); }); E("JntArray(a)", (Q& a) { return Q(a); }); E("(a.rows(),a.columns())", (Q& a) { return std::make_tuple(a.rows(), a.columns()); }); E("a.resize(b) or SetToZero(a)", (Q& a, unsigned& b) { a.resize(b); SetToZero(a); }); E("list(a)", (Q& a) { std::vector<D> r; for (unsigned i = 0; i < a.rows(); ++i) r.push_back(a(i)); return r; }); E("repr(a)", (Q& a) { std::ostringstream o; o << a; return o.str(); });
    E("a==b", (Q& a, Q& b) { return a == b; }); E("a!=b", (Q& a, Q& b) { return !(a == b); }); E("Equal(a,b)", (Q& a, Q& b) { return Equal(a, b); }); E("Equal(a,b,eps=c)", (Q& a, Q& b, Eps& c) { return Equal(a, b, c.v); });
    E("Add(a,b,c)", (Q& a, Q& b, Q& c) { Add(a, b, c); }); E("Subtract(a,b,c)", (Q& a, Q& b, Q& c) { Subtract(a, b, c); }); E("Multiply(a,b,c)", (Q& a, D& b, Q& c) { Multiply(a, b, c); }); E("Divide(a,b,c)", (Q& a, D& b, Q& c) { Divide(a, b, c); }); E("Divide(src=a,factor=b,dest=c)", (Q& a, D& b, Q& c) { Divide(a, b, c); }); E("MultiplyJacobian(a,b,c)", (J& a, Q& b, Tw& c) { MultiplyJacobian(a, b, c); }); E("SetToZero(a)", (Q& a) { SetToZero(a); });
    // JntArrayVel
    E("JntArrayVel(a)", (Q& a) { return QV(a); }); E("JntArrayVel(a,b)", (Q& a, Q& b) { return QV(a, b); }); E("JntArrayVel(q_dot=b,q=a)", (Q& a, Q& b) { return QV(a, b); }); E("SetToZero(JntArrayVel(a))", (unsigned& a) { QV v(a); SetToZero(v); }); E("(a.q,a.qdot,a.value(),a.deriv())", (QV& a) { return std::make_tuple(a.q, a.qdot, a.value(), a.deriv()); }); E("a.resize(b) or SetToZero(a)", (QV& a, unsigned& b) { a.resize(b); SetToZero(a); });
    E("Add(a,b,c)", (QV& a, QV& b, QV& c) { Add(a, b, c); }); E("Add(a,b,c)", (QV& a, Q& b, QV& c) { Add(a, b, c); }); E("Subtract(a,b,c)", (QV& a, QV& b, QV& c) { Subtract(a, b, c); }); E("Subtract(a,b,c)", (QV& a, Q& b, QV& c) { Subtract(a, b, c); });
    E("Multiply(a,b,c)", (QV& a, D& b, QV& c) { Multiply(a, b, c); }); E("Multiply(a,b,c)", (QV& a, DV& b, QV& c) { Multiply(a, b, c); }); E("Divide(a,b,c)", (QV& a, D& b, QV& c) { Divide(a, b, c); }); E("Divide(a,b,c)", (QV& a, DV& b, QV& c) { Divide(a, b, c); }); E("Equal(a,b)", (QV& a, QV& b) { return Equal(a, b); }); E("Equal(a,b,c)", (QV& a, QV& b, Eps& c) { return Equal(a, b, c.v); });
    // joint-space inertia
    E("JntSpaceInertiaMatrix()", () { return H(); }); E("JntSpaceInertiaMatrix(a)", (int& a) { return H(a); }); E("JntSpaceInertiaMatrix(a)", (H& a) { return H(a); }); E("(a.rows(),a.columns())", (H& a) { return std::make_tuple(a.rows(), a.columns()); }); E("a.resize(b) or SetToZero(a)", (H& a, unsigned& b) { a.resize(b); SetToZero(a); }); E("[a[i,j] for i in range(a.rows()) for j in range(a.columns())]", (H& a) { std::vector<D> r; for (unsigned i = 0; i < a.rows(); ++i) for (unsigned j = 0; j < a.columns(); ++j) r.push_back(a(i, j)); return r; }); E("repr(a)", (H& a) { std::ostringstream o; o << a; return o.str(); });
    E("a==b", (H& a, H& b) { return a == b; }); E("Equal(a,b)", (H& a, H& b) { return Equal(a, b); }); E("Equal(a,b,eps=c)", (H& a, H& b, Eps& c) { return Equal(a, b, c.v); }); E("Add(a,b,c)", (H& a, H& b, H& c) { Add(a, b, c); }); E("Subtract(a,b,c)", (H& a, H& b, H& c) { Subtract(a, b, c); }); E("Multiply(a,b,c)", (H& a, D& b, H& c) { Multiply(a, b, c); }); E("Divide(a,b,c)", (H& a, D& b, H& c) { Divide(a, b, c); }); E("Multiply(a,b,c)", (H& a, Q& b, Q& c) { if (&b == &c) throw pbt::Discard(); Multiply(a, b, c); }); E("SetToZero(a)", (H& a) { SetToZero(a); });
    return t;
}

static std::tuple<int, int, Str> codes(SolverI& s, int r) { return std::make_tuple(r, s.getError(), Str(s.strError(s.getError()))); }
#define CODES "(lambda s,r: (r,s.getError(),s.strError(s.getError())))"
static const std::vector<Call>& solverCalls() {
    static std::vector<Call> t;
    if (!t.empty()) return t;
    S("ChainFkSolverPos_recursive(a).JntToCart(b,c)", (Chain& a, Q& b, Fr& c) { ChainFkSolverPos_recursive s(a); return s.JntToCart(b, c); });
    S("ChainFkSolverPos_recursive(chain=a).JntToCart(q_in=b,p_out=c,segmentNr=d)", (Chain& a, Q& b, Fr& c, SegNr& d) { ChainFkSolverPos_recursive s(a); return s.JntToCart(b, c, d.v); });
    S("ChainFkSolverVel_recursive(a).JntToCart(b,c)", (Chain& a, QV& b, FV& c) { ChainFkSolverVel_recursive s(a); return s.JntToCart(b, c); });
    S("ChainFkSolverVel_recursive(a).JntToCart(b,c,d)", (Chain& a, QV& b, FV& c, SegNr& d) { ChainFkSolverVel_recursive s(a); return s.JntToCart(b, c, d.v); });
    S("(lambda s: " CODES "(s,s.JntToCart(b,c,segmentNr=d)))(ChainFkSolverPos_recursive(a))", (Chain& a, Q& b, Fr& c, SegNr& d) { ChainFkSolverPos_recursive s(a); return codes(s, s.JntToCart(b, c, d.v)); });
    S("ChainJntToJacSolver(a).JntToJac(b,c)", (Chain& a, Q& b, J& c) { ChainJntToJacSolver s(a); return s.JntToJac(b, c); });
    S("ChainJntToJacSolver(a).JntToJac(b,c,seg_nr=d)", (Chain& a, Q& b, J& c, SegNr& d) { ChainJntToJacSolver s(a); return s.JntToJac(b, c, d.v); });
    S("(lambda s: (s.setLockedJoints(d),)+" CODES "(s,s.JntToJac(b,c)))(ChainJntToJacSolver(a))", (Chain& a, Q& b, J& c, std::vector<bool>& d) { ChainJntToJacSolver s(a); int k = s.setLockedJoints(d); return std::tuple_cat(std::make_tuple(k), codes(s, s.JntToJac(b, c))); });
    S("ChainJntToJacDotSolver(a).JntToJacDot(b,c)", (Chain& a, QV& b, J& c) { ChainJntToJacDotSolver s(a); return s.JntToJacDot(b, c); });
    S("ChainJntToJacDotSolver(a).JntToJacDot(b,c,d)", (Chain& a, QV& b, J& c, SegNr& d) { ChainJntToJacDotSolver s(a); return s.JntToJacDot(b, c, d.v); });
    S("ChainJntToJacDotSolver(a).JntToJacDot(b,c,seg_nr=d)", (Chain& a, QV& b, Tw& c, SegNr& d) { ChainJntToJacDotSolver s(a); return s.JntToJacDot(b, c, d.v); });
    S("(lambda s: s.setHybridRepresentation() or " CODES "(s,s.JntToJacDot(b,c)))(ChainJntToJacDotSolver(a))", (Chain& a, QV& b, J& c) { ChainJntToJacDotSolver s(a); s.setHybridRepresentation(); return codes(s, s.JntToJacDot(b, c)); });
    S("(lambda s: s.setBodyFixedRepresentation() or " CODES "(s,s.JntToJacDot(b,c)))(ChainJntToJacDotSolver(a))", (Chain& a, QV& b, J& c) { ChainJntToJacDotSolver s(a); s.setBodyFixedRepresentation(); return codes(s, s.JntToJacDot(b, c)); });
    S("(lambda s: s.setInertialRepresentation() or " CODES "(s,s.JntToJacDot(b,c)))(ChainJntToJacDotSolver(a))", (Chain& a, QV& b, J& c) { ChainJntToJacDotSolver s(a); s.setInertialRepresentation(); return codes(s, s.JntToJacDot(b, c)); });
    S("(lambda s: s.setRepresentation([s.HYBRID,s.BODYFIXED,s.INERTIAL][d%3]) or (s.setLockedJoints(e),)+" CODES "(s,s.JntToJacDot(b,c)))(ChainJntToJacDotSolver(a))", (Chain& a, QV& b, Tw& c, int& d, std::vector<bool>& e) { ChainJntToJacDotSolver s(a); const int r[] = {ChainJntToJacDotSolver::HYBRID, ChainJntToJacDotSolver::BODYFIXED, ChainJntToJacDotSolver::INERTIAL}; s.setRepresentation(r[d % 3]); int k = s.setLockedJoints(e); return std::tuple_cat(std::make_tuple(k), codes(s, s.JntToJacDot(b, c))); });
    S("(lambda s: (s.E_JAC_DOT_FAILED,s.E_JACSOLVER_FAILED,s.E_FKSOLVERPOS_FAILED,s.HYBRID,s.BODYFIXED,s.INERTIAL,s.strError(s.E_JAC_DOT_FAILED)))(ChainJntToJacDotSolver(a))", (Chain& a) { typedef ChainJntToJacDotSolver X; X s(a); return std::make_tuple((int)X::E_JAC_DOT_FAILED, (int)X::E_JACSOLVER_FAILED, (int)X::E_FKSOLVERPOS_FAILED, (int)X::HYBRID, (int)X::BODYFIXED, (int)X::INERTIAL, Str(s.strError(X::E_JAC_DOT_FAILED))); });
    // velocity inverse kinematics
    S("(lambda s: " CODES "(s,s.CartToJnt(b,c,d)))(ChainIkSolverVel_pinv(a))", (Chain& a, Q& b, Tw& c, Q& d) { ChainIkSolverVel_pinv s(a); return codes(s, s.CartToJnt(b, c, d)); });
    S("(lambda s: " CODES "(s,s.CartToJnt(q_dot_out=d,v_in=c,q_in=b)))(ChainIkSolverVel_pinv(a,maxiter=50+f,eps=e))", (Chain& a, Q& b, Tw& c, Q& d, Eps& e, int& f) { ChainIkSolverVel_pinv s(a, e.v, 50 + f); return codes(s, s.CartToJnt(b, c, d)); });
    S("(lambda s: " CODES "(s,s.CartToJnt(b,c,d)))(ChainIkSolverVel_pinv_givens(a))", (Chain& a, Q& b, Tw& c, Q& d) { if (a.getNrOfJoints() > 6) throw pbt::Discard(); ChainIkSolverVel_pinv_givens s(a); return codes(s, s.CartToJnt(b, c, d)); });
    S("(lambda s: " CODES "(s,s.CartToJnt(b,c,d))+(s.getEps(),s.getLambda(),s.getLambdaScaled(),s.getSigmaMin(),s.getNrZeroSigmas(),s.getSVDResult()))(ChainIkSolverVel_wdls(a))", (Chain& a, Q& b, Tw& c, Q& d) { ChainIkSolverVel_wdls s(a); auto k = codes(s, s.CartToJnt(b, c, d)); return std::tuple_cat(k, std::make_tuple(s.getEps(), s.getLambda(), s.getLambdaScaled(), s.getSigmaMin(), s.getNrZeroSigmas(), s.getSVDResult())); });
    S("(lambda s: s.setLambda(e) or s.setEps(f) or s.setMaxIter(100+g) or " CODES "(s,s.CartToJnt(b,c,d))+(s.getEps(),s.getLambda(),s.getLambdaScaled()))(ChainIkSolverVel_wdls(a,1e-4,120))", (Chain& a, Q& b, Tw& c, Q& d, D& e, Eps& f, int& g) { ChainIkSolverVel_wdls s(a, 1e-4, 120); s.setLambda(e); s.setEps(f.v); s.setMaxIter(100 + g); auto k = codes(s, s.CartToJnt(b, c, d)); return std::tuple_cat(k, std::make_tuple(s.getEps(), s.getLambda(), s.getLambdaScaled())); });
    S("(lambda s: (s.getAlpha(),)+" CODES "(s,s.CartToJnt(b,c,d)))(ChainIkSolverVel_pinv_nso(a))", (Chain& a, Q& b, Tw& c, Q& d) { ChainIkSolverVel_pinv_nso s(a); D al = s.getAlpha(); return std::tuple_cat(std::make_tuple(al), codes(s, s.CartToJnt(b, c, d))); });
    S("(lambda s: (s.setWeights(e),s.setOptPos(f),s.setAlpha(g),s.getWeights(),s.getOptPos(),s.getAlpha())+" CODES "(s,s.CartToJnt(b,c,d)))(ChainIkSolverVel_pinv_nso(a,eps=1e-4,maxiter=100,alpha=0.5))", (Chain& a, Q& b, Tw& c, Q& d, Q& e, Q& f, D& g) { ChainIkSolverVel_pinv_nso s(a, 1e-4, 100, 0.5); int i = s.setWeights(e), j = s.setOptPos(f), k = s.setAlpha(g); auto x = std::make_tuple(i, j, k, Q(s.getWeights()), Q(s.getOptPos()), D(s.getAlpha())); return std::tuple_cat(x, codes(s, s.CartToJnt(b, c, d))); });
    // position inverse kinematics
    S("(lambda s: " CODES "(s,s.CartToJnt(b,c,d)))(ChainIkSolverPos_LMA(a))", (Chain& a, Q& b, Fr& c, Q& d) { ChainIkSolverPos_LMA s(a); return codes(s, s.CartToJnt(b, c, d)); });
    S("(lambda s: " CODES "(s,s.CartToJnt(q_init=b,p_in=c,q_out=d)))(ChainIkSolverPos_LMA(a,eps=e,maxiter=20+f,eps_joints=1e-10))", (Chain& a, Q& b, Fr& c, Q& d, Eps& e, int& f) { ChainIkSolverPos_LMA s(a, e.v, 20 + f, 1e-10); return codes(s, s.CartToJnt(b, c, d)); });
    S("(lambda fk,ik: (lambda s: " CODES "(s,s.CartToJnt(b,c,d))+(ik.getError(),))(ChainIkSolverPos_NR(a,fk,ik)))(ChainFkSolverPos_recursive(a),ChainIkSolverVel_pinv(a))", (Chain& a, Q& b, Fr& c, Q& d) { ChainFkSolverPos_recursive fk(a); ChainIkSolverVel_pinv ik(a); ChainIkSolverPos_NR s(a, fk, ik); auto k = codes(s, s.CartToJnt(b, c, d)); return std::tuple_cat(k, std::make_tuple(ik.getError())); });
    S("(lambda fk,ik: (lambda s: " CODES "(s,s.CartToJnt(b,c,d)))(ChainIkSolverPos_NR(eps=e,maxiter=f,chain=a,iksolver=ik,fksolver=fk)))(ChainFkSolverPos_recursive(a),ChainIkSolverVel_wdls(a))", (Chain& a, Q& b, Fr& c, Q& d, Eps& e, unsigned& f) { ChainFkSolverPos_recursive fk(a); ChainIkSolverVel_wdls ik(a); ChainIkSolverPos_NR s(a, fk, ik, f, e.v); return codes(s, s.CartToJnt(b, c, d)); });
    S("(lambda fk,ik: (lambda s: " CODES "(s,s.CartToJnt(b,c,d)))(ChainIkSolverPos_NR_JL(a,e,f,fk,ik)))(ChainFkSolverPos_recursive(a),ChainIkSolverVel_pinv(a))", (Chain& a, Q& b, Fr& c, Q& d, Q& e, Q& f) { ChainFkSolverPos_recursive fk(a); ChainIkSolverVel_pinv ik(a); ChainIkSolverPos_NR_JL s(a, e, f, fk, ik); return codes(s, s.CartToJnt(b, c, d)); });
    S("(lambda fk,ik: (lambda s: " CODES "(s,s.CartToJnt(b,c,d)))(ChainIkSolverPos_NR_JL(eps=g,maxiter=h,q_max=f,q_min=e,chain=a,iksolver=ik,fksolver=fk)))(ChainFkSolverPos_recursive(a),ChainIkSolverVel_pinv(a))", (Chain& a, Q& b, Fr& c, Q& d, Q& e, Q& f, Eps& g, unsigned& h) { ChainFkSolverPos_recursive fk(a); ChainIkSolverVel_pinv ik(a); ChainIkSolverPos_NR_JL s(a, e, f, fk, ik, h, g.v); return codes(s, s.CartToJnt(b, c, d)); });
    // dynamics
    S("(lambda s: " CODES "(s,s.CartToJnt(c,d,e,f,g)))(ChainIdSolver_RNE(a,b))", (Chain& a, V& b, Q& c, Q& d, Q& e, std::vector<Wrench>& f, Q& g) { ChainIdSolver_RNE s(a, b); return codes(s, s.CartToJnt(c, d, e, f, g)); });
    S("ChainIdSolver_RNE(grav=b,chain=a).CartToJnt(torques=g,f_ext=f,q_dot_dot=e,q_dot=d,q=c)", (Chain& a, V& b, Q& c, Q& d, Q& e, std::vector<Wrench>& f, Q& g) { ChainIdSolver_RNE s(a, b); return s.CartToJnt(c, d, e, f, g); });
    S("ChainDynParam(a,b).JntToCoriolis(c,d,e)", (Chain& a, V& b, Q& c, Q& d, Q& e) { ChainDynParam s(a, b); return s.JntToCoriolis(c, d, e); });
    S("ChainDynParam(a,b).JntToMass(c,d)", (Chain& a, V& b, Q& c, H& d) { ChainDynParam s(a, b); return s.JntToMass(c, d); });
    S("ChainDynParam(a,b).JntToGravity(c,d)", (Chain& a, V& b, Q& c, Q& d) { ChainDynParam s(a, b); return s.JntToGravity(c, d); });
    S("ChainDynParam(a,b).JntToCoriolis(coriolis=e,q_dot=d,q=c) or ChainDynParam(a,b).JntToGravity(gravity=f,q=c)", (Chain& a, V& b, Q& c, Q& d, Q& e, Q& f) { ChainDynParam s(a, b); int r = s.JntToCoriolis(c, d, e); return r ? r : s.JntToGravity(c, f); });
    return t;
}

LAW(frames_calls, 200000, "one of the calls of the frames bindings (constructors, operators, methods, free functions, positional, keyword and default arguments), its arguments generated, sometimes the same object given twice; non-trivial: not every number is zero") { any(s, framesCalls()); }
LAW(framevel_calls, 200000, "one of the calls of the velocity bindings; non-trivial: not every number is zero") { any(s, framevelCalls()); }
LAW(kinfam_calls, 200000, "one of the calls of joints, segments, chains, trees, Jacobians, joint arrays, inertias; non-trivial: not every number is zero") { any(s, kinfamCalls()); }
LAW(solver_calls, 60000, "one of the solvers on a random chain of 1..6 segments, called through Python and in C++ with the same arguments, of which one may have another size or an out-of-range segment number; non-trivial: not every number is zero") { any(s, solverCalls()); }

// near-equal pairs: comparison operators on either side of the threshold
template <class T> static void nearPair(Src& s) {
    T a = Gen<T>::make(s); double d = std::pow(10.0, -s.range(3, 9)) * s.pick(std::vector<double>{0, 0.5, 0.99, 1.01, 3});
    double eps = std::pow(10.0, -s.range(3, 9)); T b = nudged(a, (int)s.raw(24), s.flip() ? d : -d);
    NOTE("a " << show(flat(a)) << "\nb " << show(flat(b)) << "\neps " << eps); s.nontrivial(d > 0);
    guarded([&] {
        py::object x = toPy(a), y = toPy(b);
        auto bo = [&](const char* c) { return P().fn(Str("lambda a,b,e: ") + c)(x, y, eps).template cast<bool>(); };
        EXPECT(bo("a==b") == (a == b), "a==b"); EXPECT(bo("a!=b") == (a != b), "a!=b"); EXPECT(bo("Equal(a,b)") == Equal(a, b), "Equal(a,b)"); EXPECT(bo("Equal(a,b,e)") == Equal(a, b, eps), "Equal(a,b,eps)");
        EXPECT(bo("b==a") == (b == a), "b==a");
    });
}
LAW(near_equal, 40000, "pairs of values differing in one number by about the threshold; non-trivial: they differ") {
    switch (s.raw(10)) {
    case 0: nearPair<V>(s); break; case 1: nearPair<Ro>(s); break; case 2: nearPair<Fr>(s); break; case 3: nearPair<Tw>(s); break; case 4: nearPair<Wr>(s); break;
    case 5: nearPair<DV>(s); break; case 6: nearPair<VV>(s); break; case 7: nearPair<RV>(s); break; case 8: nearPair<FV>(s); break; default: nearPair<TV>(s);
    }
}

// ---------- values: text, hash, copy, pickle
template <class T> static Str text(const T& x) { std::ostringstream o; o << x; return o.str(); }
template <class T> static void valueLaws(Src& s, bool pick, const char* write) {
    T a = Gen<T>::make(s); NOTE(typeid(T).name() << " " << show(flat(a)));
    Flat f = flat(a); s.nontrivial(std::count(f.d.begin(), f.d.end(), 0.0) + std::count(f.d.begin(), f.d.end(), 1.0) < (long)f.d.size());
    guarded([&] {
        py::object x = toPy(a);
        EXPECT(P().fn("repr")(x).template cast<Str>() == text(a), "repr"); EXPECT(P().fn("str")(x).template cast<Str>() == text(a), "str");
        EXPECT(P().fn("lambda a: a.__hash__()")(x).template cast<size_t>() == std::hash<T>{}(a), "hash");
        const char* how[] = {"copy.copy", "copy.deepcopy", "lambda a: type(a)(a)", "lambda a: copy.deepcopy([a,a])[1]"};
        for (auto h : how) {
            py::object y = P().fn(h)(x);
            EXPECT(py::isinstance<T>(y) && exact(flat(y.template cast<T>()), f), h << " of " << show(f) << " is " << show(flat(y.template cast<T>())));
            EXPECT(P().fn("lambda a,b: hash(a)==hash(b) and a==b and not a!=b")(x, y).template cast<bool>(), h << ": copy compares or hashes differently");
            P().fn(Str("lambda a: ") + write)(y);
            EXPECT(exact(flat(x.template cast<T>()), f), "writing a copy made by " << h << " changed the original");
        }
        if (pick) {
            int pr = s.range(2, 5); py::object y = P().fn("lambda a,p: pickle.loads(pickle.dumps(a,p))")(x, pr);
            EXPECT(py::isinstance<T>(y), "pickle gives another type");
            EXPECT(exact(flat(y.template cast<T>()), f), "pickling with protocol " << pr << "\nbefore " << show(f) << "\nafter  " << show(flat(y.template cast<T>())));
            py::object z = P().fn("lambda a,p: pickle.loads(pickle.dumps({'k':[a,(a,)]},p))['k']")(x, pr); EXPECT(exact(flat(z[py::int_(0)].template cast<T>()), f), "pickling inside containers");
        }
        EXPECT(exact(flat(x.template cast<T>()), f), "changed by being copied");
    });
}
static Ro anyMatrix(Src& s) { double d[9]; for (double& x : d) x = num(s); return Ro(d[0], d[1], d[2], d[3], d[4], d[5], d[6], d[7], d[8]); }
LAW(values, 40000, "one value of each class: repr, str, hash, copy, deepcopy, copy constructor, pickle with protocols 2..5, and independence of the copies; non-trivial: not every number is 0 or 1") {
    switch (s.raw(10)) {
    case 0: valueLaws<V>(s, true, "a.x(a.x()+1)"); break; case 1: valueLaws<Ro>(s, true, "setitem(a,(1,2),5.0)"); break; case 2: valueLaws<Fr>(s, true, "setitem(a,(1,3),a[1,3]+2)"); break;
    case 3: valueLaws<Tw>(s, true, "setitem(a,4,a[4]+2)"); break; case 4: valueLaws<Wr>(s, true, "a.torque.y(a[4]+3)"); break; case 5: valueLaws<DV>(s, false, "setattr(a,'grad',a.grad+1)"); break;
    case 6: valueLaws<VV>(s, true, "a.v.z(a.v.z()+1)"); break; case 7: valueLaws<RV>(s, true, "a.w.x(a.w.x()+1)"); break; case 8: valueLaws<FV>(s, true, "a.p.v.x(a.p.v.x()+1)"); break; default: valueLaws<TV>(s, true, "a.rot.v.x(a.rot.v.x()+1)");
    }
}

// ---------- indices
static Str rs(const py::object& o) { return py::isinstance<py::bool_>(o) && o.cast<bool>() ? "" : o.cast<Str>(); }
static py::object anyIndex(Src& s, int n, long long& v) {
    P();
    switch (s.raw(6)) { case 0: case 1: v = n ? (long long)s.raw(n) : 0; break; case 2: v = -1 - (long long)s.raw(4); break; case 3: v = n + (long long)s.raw(3); break; case 4: { int e = s.range(7, 40); v = (1ll << e) + s.range(-2, 2); if (s.flip()) v = -v; break; } default: v = s.range(-3, 12); }
    return py::int_(v);
}
template <class T> static void index1(Src& s, int n, const std::function<double&(T&, int)>& at) {
    T a = Gen<T>::make(s); if (n < 0) n = C.n; long long i; py::object k = anyIndex(s, n, i); double w = num(s); bool in = i >= 0 && i < n, big = i < std::numeric_limits<int>::min() || i > std::numeric_limits<int>::max();
    NOTE(typeid(T).name() << " of " << n << " at " << i); s.nontrivial(!in);
    guarded([&] {
        py::object x = toPy(a);
        if (in) {
            EXPECT(P().fn("lambda a,i: a[i]")(x, k).template cast<double>() == at(a, (int)i), "read at " << i);
            P().fn("lambda a,i,w: setitem(a,i,w)")(x, k, w); at(a, (int)i) = w;
        } else {
            Str E1 = big ? "(IndexError,TypeError,OverflowError)" : "IndexError";
            Str r = rs(P().fn("lambda a,i: raises(" + E1 + ",lambda: a[i])")(x, k)); EXPECT(r.empty(), "reading at " << i << " of " << n << " raised " << r);
            r = rs(P().fn("lambda a,i,w: raises(" + E1 + ",lambda: setitem(a,i,w))")(x, k, w)); EXPECT(r.empty(), "writing at " << i << " of " << n << " raised " << r);
        }
        EXPECT(exact(flat(x.template cast<T>()), flat(a)), "after access at " << i << ": " << show(flat(x.template cast<T>())) << " expected " << show(flat(a)));
        EXPECT(P().fn("lambda a: len(list(iter(a)))")(x).template cast<int>() == n, "iteration does not end after " << n);
        Str r = rs(P().fn("lambda a: raises(TypeError,lambda: a['x'])")(x)); EXPECT(r.empty(), "string index raised " << r);
        r = rs(P().fn("lambda a: raises(TypeError,lambda: setitem(a,0,'x'))")(x)); EXPECT(r.empty(), "string value raised " << r);
    });
}
template <class T> static void index2(Src& s, int rows, int cols, const std::function<double&(T&, int, int)>& at) {
    T a = Gen<T>::make(s); if (rows < 0) rows = C.n; if (cols < 0) cols = C.n; long long i, j; py::object k = anyIndex(s, rows, i), l = anyIndex(s, cols, j); double w = num(s);
    const long long lo = std::numeric_limits<int>::min(), hi = std::numeric_limits<int>::max();
    bool in = i >= 0 && i < rows && j >= 0 && j < cols, big = i < lo || i > hi || j < lo || j > hi;
    NOTE(typeid(T).name() << " of " << rows << "x" << cols << " at " << i << "," << j); s.nontrivial(!in);
    guarded([&] {
        py::object x = toPy(a);
        if (in) {
            EXPECT(P().fn("lambda a,i,j: a[i,j]")(x, k, l).template cast<double>() == at(a, (int)i, (int)j), "read at " << i << "," << j);
            P().fn("lambda a,i,j,w: setitem(a,(i,j),w)")(x, k, l, w); at(a, (int)i, (int)j) = w;
        } else {
            Str E1 = big ? "(IndexError,TypeError,OverflowError)" : "IndexError";
            Str r = rs(P().fn("lambda a,i,j: raises(" + E1 + ",lambda: a[i,j])")(x, k, l)); EXPECT(r.empty(), "reading at " << i << "," << j << " of " << rows << "x" << cols << " raised " << r);
            r = rs(P().fn("lambda a,i,j,w: raises(" + E1 + ",lambda: setitem(a,(i,j),w))")(x, k, l, w)); EXPECT(r.empty(), "writing at " << i << "," << j << " raised " << r);
        }
        EXPECT(exact(flat(x.template cast<T>()), flat(a)), "after access at " << i << "," << j << ": " << show(flat(x.template cast<T>())) << " expected " << show(flat(a)));
        for (Str bad : {"a[(0,)]", "a[0,0,0]", "a['x',0]", "a[0]"}) { Str r = rs(P().fn("lambda a: raises(TypeError,lambda: " + bad + ")")(x)); EXPECT(r.empty(), bad << " raised " << r); }
    });
}
LAW(indices, 40000, "reading and writing elements of each indexable class at indices in range, negative, just past the end and huge, against a model; non-trivial: an index is out of range") {
    context(s, false, false);
    switch (s.raw(10)) {
    case 0: index1<V>(s, 3, [](V& a, int i) -> D& { return a.data[i]; }); break;
    case 1: index1<Tw>(s, 6, [](Tw& a, int i) -> D& { return i < 3 ? a.vel.data[i] : a.rot.data[i - 3]; }); break;
    case 2: index1<Wr>(s, 6, [](Wr& a, int i) -> D& { return i < 3 ? a.force.data[i] : a.torque.data[i - 3]; }); break;
    case 3: index2<Ro>(s, 3, 3, [](Ro& a, int i, int j) -> D& { return a.data[3 * i + j]; }); break;
    case 4: index2<Fr>(s, 3, 4, [](Fr& a, int i, int j) -> D& { return j == 3 ? a.p.data[i] : a.M.data[3 * i + j]; }); break;
    case 5: index1<RI>(s, 9, [](RI& a, int i) -> D& { return a.data[i]; }); break;
    case 6: case 7: index1<Q>(s, -1, [](Q& a, int i) -> D& { return a.data(i); }); break;
    case 8: index2<J>(s, 6, -1, [](J& a, int i, int j) -> D& { return a.data(i, j); }); break;
    default: index2<H>(s, -1, -1, [](H& a, int i, int j) -> D& { return a.data(i, j); });
    }
}
LAW(positions, 20000, "columns of Jacobians and segments of chains by number, in range, negative, past the end and huge; non-trivial: out of range") {
    context(s, false, false);
    int what = (int)s.raw(3); long long i; Chain c = C.c.build(); J j = Gen<J>::make(s); Tw t = twist(s);
    int n = what == 0 ? C.c.ns() : C.n; py::object k = anyIndex(s, n, i); bool in = i >= 0 && i < n, odd = i < 0 || i > (long long)std::numeric_limits<unsigned>::max();
    NOTE((what == 0 ? "getSegment" : what == 1 ? "getColumn" : "setColumn") << " " << i << " of " << n); s.nontrivial(!in);
    guarded([&] {
        py::object pc = toPy(c), pj = toPy(j), pt = toPy(t);
        const char* ex = what == 0 ? "c.getSegment(i)" : what == 1 ? "j.getColumn(i)" : "j.setColumn(i,t)";
        if (in) {
            py::object r = P().fn(Str("lambda c,j,t,i: ") + ex)(pc, pj, pt, k);
            if (what == 0) EXPECT(exact(flat(r.cast<Segment>()), flat(c.segments[i])), "segment " << i);
            if (what == 1) EXPECT(exact(flat(r.cast<Tw>()), flat(j.getColumn((unsigned)i))), "column " << i);
            if (what == 2) j.setColumn((unsigned)i, t);
        } else {
            Str r = rs(P().fn(Str("lambda c,j,t,i: raises(") + (odd ? "(IndexError,TypeError,OverflowError)" : "IndexError") + ",lambda: " + ex + ")")(pc, pj, pt, k)); EXPECT(r.empty(), ex << " with " << i << " of " << n << " raised " << r);
        }
        EXPECT(exact(flat(pj.cast<J>()), flat(j)) && exact(flat(pc.cast<Chain>()), flat(c)), "after " << ex << " with " << i);
    });
}

// ---------- construction of a mechanism through Python, and what its trees give back
LAW(construction, 12000, "joints, segments, chains and trees built through Python from a description with randomly omitted, positional or keyword arguments, against those built in C++; chains extracted from the trees; non-trivial: two or more segments") {
    TSpec t = tspec(s, opt(), 1, 6); s.nontrivial(t.n.size() > 1); NOTE(str(t));
    guarded([&] {
        py::object L = P().fn("lambda **k: dict(k)"), tree = P().fn("Tree")(t.root); Tree ct(t.root);
        for (size_t i = 0; i < t.n.size(); ++i) {
            JSpec& j = t.n[i].s.j; bool ax = j.type == Joint::RotAxis || j.type == Joint::TransAxis, named = s.flip();
            if (!named) j.name = "NoName";
            py::dict kw; auto put = [&](const char* k, double v, double d) { if (v != d || s.flip()) kw[k] = v; };
            py::object ty = toPy((Joint::JointType)j.type), jt, tn = py::str(j.name);
            bool pos = s.chance(1, 3);
            if (pos) {
                if (ax) jt = named ? P().fn("Joint")(tn, toPy(k(j.origin)), toPy(k(j.axis)), ty, j.scale, j.offset, j.inertia, j.damping, j.stiffness) : P().fn("Joint")(toPy(k(j.origin)), toPy(k(j.axis)), ty, j.scale, j.offset, j.inertia, j.damping, j.stiffness);
                else jt = named ? P().fn("Joint")(tn, ty, j.scale, j.offset, j.inertia, j.damping, j.stiffness) : P().fn("Joint")(ty, j.scale, j.offset, j.inertia, j.damping, j.stiffness);
            } else {
                if (named) kw["name"] = tn;
                if (ax) { kw["origin"] = toPy(k(j.origin)); kw["axis"] = toPy(k(j.axis)); kw["type"] = ty; } else if (j.type != Joint::Fixed || s.flip()) kw["type"] = ty;
                put("scale", j.scale, 1); put("offset", j.offset, 0); put("inertia", j.inertia, 0); put("damping", j.damping, 0); put("stiffness", j.stiffness, 0);
                jt = P().fn("lambda k: Joint(**k)")(kw);
            }
            Joint cj = j.build(); EXPECT(exact(flat(jt.cast<Joint>()), flat(cj)), "joint: Python " << show(flat(jt.cast<Joint>())) << "\nC++ " << show(flat(cj)));
            Segment cs = t.n[i].s.build(); py::object sg = P().fn("Segment")(t.n[i].s.name, jt, toPy(k(t.n[i].s.tip)), toPy(t.n[i].s.I.build()));
            EXPECT(exact(flat(sg.cast<Segment>()), flat(cs)), "segment: Python " << show(flat(sg.cast<Segment>())) << "\nC++ " << show(flat(cs)));
            bool ok = P().fn("lambda t,s,h: t.addSegment(s,h)")(tree, sg, t.pname((int)i)).cast<bool>(), okc = ct.addSegment(cs, t.pname((int)i));
            EXPECT(ok == okc, "addSegment");
        }
        EXPECT(exact(flat(tree.cast<Tree&>()), flat(ct)), "tree");
        std::vector<Str> names{t.root, "nowhere"}; for (auto& x : t.n) names.push_back(x.s.name);
        for (int r = 0; r < 3; ++r) {
            Str a = s.pick(names), b = s.pick(names); Chain cc; bool ok = ct.getChain(a, b, cc);
            py::object pc = P().fn("lambda t,a,b: t.getChain(a,b)")(tree, a, b);
            EXPECT(exact(flat(pc.cast<Chain&>()), flat(ok ? cc : Chain())), "chain from " << a << " to " << b);
            if (ok) { py::object big = P().fn("lambda t,c,h: (t.addChain(c,h), t.getNrOfSegments(), t.getNrOfJoints())")(P().fn("Tree")("r"), pc, "r"); Tree x("r"); bool k2 = x.addChain(cc, "r"); EXPECT(big[py::int_(0)].cast<bool>() == k2 && big[py::int_(1)].cast<unsigned>() == x.getNrOfSegments() && big[py::int_(2)].cast<unsigned>() == x.getNrOfJoints(), "addChain"); }
        }
        // an axis joint given a wrong type is refused, not built
        Str r = rs(P().fn("lambda o,a,t: raises(Exception,lambda: Joint('x',o,a,t))")(toPy(Vector(0, 0, 0)), toPy(Vector(0, 0, 1)), toPy(Joint::RotX))); EXPECT(r.empty(), "Joint with an axis and type RotX raised " << r);
    });
}

// ---------- references into objects: writing through an attribute writes the object, also after the owner's name is gone
LAW(attributes, 8000, "frames, twists, wrenches, velocity values and joint velocities written through nested attributes, elements and in-place operators in random order, against the same writes in C++; non-trivial: two or more writes") {
    context(s, false, false); if (C.n == 0) C.n = 1;
    Fr f = Gen<Fr>::make(s); FV fv = Gen<FV>::make(s); TV tv = Gen<TV>::make(s); QV q = Gen<QV>::make(s); Wr w = Gen<Wr>::make(s); Tw t = Gen<Tw>::make(s);
    int ops = s.range(2, 14); s.nontrivial(ops > 1);
    guarded([&] {
        py::object pf = toPy(f), pfv = toPy(fv), ptv = toPy(tv), pq = toPy(q), pw = toPy(w), pt = toPy(t);
        auto run = [&](const char* code, const py::object& x, double d, int i, const py::object& y) { NOTE(code << " with " << d << ", " << i); P().fn(Str("lambda x,d,i,y: ") + code)(x, d, i, y); };
        for (int k = 0; k < ops; ++k) {
            D d = num(s); int i = (int)s.raw(3), jn = (int)s.raw(C.n); V v = vec(s); Ro r = rot(s); py::object pv = toPy(v), pr = toPy(r), no = py::none();
            switch (s.raw(16)) {
            case 0: run("setitem(x.p,i,d)", pf, d, i, no); f.p(i) = d; break;
            case 1: run("setitem(x.M,(i,(i+1)%3),d)", pf, d, i, no); f.M(i, (i + 1) % 3) = d; break;
            case 2: run("setattr(x,'p',y)", pf, d, i, pv); f.p = v; break;
            case 3: run("setattr(x,'M',y)", pf, d, i, pr); f.M = r; break;
            case 4: run("x.M.DoRotX(d)", pf, d, i, no); f.M.DoRotX(d); break;
            case 5: run("iadd(x.p,y)", pf, d, i, pv); f.p += v; break;
            case 6: run("x.p.v.y(d)", pfv, d, i, no); fv.p.v.y(d); break;
            case 7: run("setattr(x.M,'w',y)", pfv, d, i, pv); fv.M.w = v; break;
            case 8: run("setitem(x.M.R,(2,i),d)", pfv, d, i, no); fv.M.R(2, i) = d; break;
            case 9: run("setattr(x.rot,'p',y)", ptv, d, i, pv); tv.rot.p = v; break;
            case 10: run("setitem(x.vel.v,i,d)", ptv, d, i, no); tv.vel.v(i) = d; break;
            case 11: run("setitem(x.q,i,d)", pq, d, jn, no); q.q(jn) = d; break;
            case 12: run("setitem(x.qdot,i,d)", pq, d, jn, no); q.qdot(jn) = d; break;
            case 13: run("x.force.x(d)", pw, d, i, no); w.force.x(d); break;
            case 14: run("setattr(x,'torque',y)", pw, d, i, pv); w.torque = v; break;
            default: run("x.rot.ReverseSign()", pt, d, i, no); t.rot.ReverseSign();
            }
            // the value given stays the caller's own
            EXPECT(exact(flat(pv.cast<V>()), flat(v)) && exact(flat(pr.cast<Ro>()), flat(r)), "assigned value changed");
        }
        EXPECT(exact(flat(pf.cast<Fr>()), flat(f)), "frame"); EXPECT(exact(flat(pfv.cast<FV>()), flat(fv)), "frame velocity"); EXPECT(exact(flat(ptv.cast<TV>()), flat(tv)), "twist velocity");
        EXPECT(exact(flat(pq.cast<QV>()), flat(q)), "joint velocities"); EXPECT(exact(flat(pw.cast<Wr>()), flat(w)), "wrench"); EXPECT(exact(flat(pt.cast<Tw>()), flat(t)), "twist");
        // parts outlive the name of the whole
        py::object part = P().fn("lambda f: Frame(f).p")(pf), pq2 = P().fn("lambda q: JntArrayVel(q.q,q.qdot).qdot")(pq), nest = P().fn("lambda f: copy.copy(f).M.w")(pfv);
        P().fn("lambda: gc.collect()")(); py::object junk = P().fn("lambda: [Frame() for i in range(20)]+[JntArrayVel(JntArray(3)) for i in range(20)]")();
        EXPECT(exact(flat(part.cast<V>()), flat(f.p)) && exact(flat(pq2.cast<Q>()), flat(q.qdot)) && exact(flat(nest.cast<V>()), flat(fv.M.w)), "a part kept after its owner was dropped");
    });
}

// ---------- solver sessions: one chain, several solvers kept over a history of chain changes, updates and calls
struct Session {
    Src& s; Chain cc; py::object pc; CSpec& spec;
    std::unique_ptr<ChainFkSolverPos_recursive> fk; std::unique_ptr<ChainJntToJacSolver> jac; std::unique_ptr<ChainIkSolverVel_pinv> ikv; std::unique_ptr<ChainIkSolverVel_wdls> wd; std::unique_ptr<ChainIkSolverPos_NR> nr; std::unique_ptr<ChainIdSolver_RNE> id; std::unique_ptr<ChainDynParam> dp; std::unique_ptr<ChainIkSolverPos_LMA> lma; std::unique_ptr<ChainJntToJacDotSolver> jd; std::unique_ptr<ChainFkSolverVel_recursive> fkv; std::unique_ptr<ChainIkSolverVel_pinv_nso> nso; std::unique_ptr<ChainIkSolverPos_NR_JL> jl;
    py::object pfk, pjac, pikv, pwd, pnr, pid_, pdp, plma, pjd, pfkv, pnso, pjl;
    Session(Src& s_) : s(s_), spec(C.c) {}
    void make() {
        cc = spec.build(); pc = toPy(cc); V g(0, 1, -9.81); Q lo(spec.nj()), hi(spec.nj()); for (int i = 0; i < spec.nj(); ++i) { lo(i) = -2; hi(i) = 2; }
        fk.reset(new ChainFkSolverPos_recursive(cc)); jac.reset(new ChainJntToJacSolver(cc)); ikv.reset(new ChainIkSolverVel_pinv(cc)); wd.reset(new ChainIkSolverVel_wdls(cc)); nr.reset(new ChainIkSolverPos_NR(cc, *fk, *ikv, 30)); id.reset(new ChainIdSolver_RNE(cc, g)); dp.reset(new ChainDynParam(cc, g)); lma.reset(new ChainIkSolverPos_LMA(cc, 1e-5, 50)); jd.reset(new ChainJntToJacDotSolver(cc)); fkv.reset(new ChainFkSolverVel_recursive(cc)); nso.reset(new ChainIkSolverVel_pinv_nso(cc)); jl.reset(new ChainIkSolverPos_NR_JL(cc, lo, hi, *fk, *ikv, 30));
        auto F = [&](const char* c) { return P().fn(Str("lambda c,g,fk,ik,lo,hi: ") + c)(pc, toPy(g), pfk ? pfk : py::none(), pikv ? pikv : py::none(), toPy(lo), toPy(hi)); };
        pfk = F("ChainFkSolverPos_recursive(c)"); pjac = F("ChainJntToJacSolver(c)"); pikv = F("ChainIkSolverVel_pinv(c)"); pwd = F("ChainIkSolverVel_wdls(c)"); pnr = F("ChainIkSolverPos_NR(c,fk,ik,30)"); pid_ = F("ChainIdSolver_RNE(c,g)"); pdp = F("ChainDynParam(c,g)"); plma = F("ChainIkSolverPos_LMA(c,eps=1e-5,maxiter=50)"); pjd = F("ChainJntToJacDotSolver(c)"); pfkv = F("ChainFkSolverVel_recursive(c)"); pnso = F("ChainIkSolverVel_pinv_nso(c)"); pjl = F("ChainIkSolverPos_NR_JL(c,lo,hi,fk,ik,30)");
    }
    void cmp(const char* what, const Flat& a, const Flat& b) { NOTE(what << " -> " << show(b)); EXPECT(same(a, b), what << "\nPython gives " << show(a) << "\nC++ gives    " << show(b)); }
    void call(int which) {
        int n = spec.nj(), ns = spec.ns(); C.n = n; Q q = Gen<Q>::make(s), qd = Gen<Q>::make(s), qdd = Gen<Q>::make(s); Fr f = frame(s); Tw t = twist(s); Q out(n); J J_(n); H h(n);
        if (s.chance(1, 3)) { f = k(fkn(spec, e(q), ns)); }   // a reachable goal
        for (int i = 0; i < n; ++i) { out(i) = 7; for (int j = 0; j < n; ++j) h(i, j) = 0; }
        SetToZero(J_); std::vector<Wrench> w; for (int i = 0; i < ns; ++i) w.push_back(wrench(s));
        py::object pq = toPy(q), pqd = toPy(qd), pqdd = toPy(qdd), pf = toPy(f), pt = toPy(t), po = toPy(out), pJ = toPy(J_), ph = toPy(h), pw = py::cast(w); Flat a, b;
        auto ik = [&](const char* nm, py::object& ps, auto& cs, auto& goal, py::object& pg) {
            int r = cs.CartToJnt(q, goal, out); int pr = P().fn("lambda s,q,g,o: s.CartToJnt(q,g,o)")(ps, pq, pg, po).template cast<int>();
            fl(a, pr); fl(b, r); fl(a, P().fn("lambda s: s.getError()")(ps).template cast<int>()); fl(b, cs.getError()); fl(a, po.cast<Q>()); fl(b, out); cmp(nm, a, b);
        };
        switch (which) {
        case 0: { int r = fk->JntToCart(q, f); fl(a, P().fn("lambda s,q,f: s.JntToCart(q,f)")(pfk, pq, pf).cast<int>()); fl(b, r); fl(a, pf.cast<Fr>()); fl(b, f); cmp("fk", a, b); break; }
        case 1: { int r = jac->JntToJac(q, J_); fl(a, P().fn("lambda s,q,f: s.JntToJac(q,f)")(pjac, pq, pJ).cast<int>()); fl(b, r); fl(a, pJ.cast<J>()); fl(b, J_); cmp("jacobian", a, b); break; }
        case 2: ik("pinv", pikv, *ikv, t, pt); break;
        case 3: ik("wdls", pwd, *wd, t, pt); break;
        case 4: ik("nr", pnr, *nr, f, pf); break;
        case 5: { int r = id->CartToJnt(q, qd, qdd, w, out); fl(a, P().fn("lambda s,q,d,e,w,o: s.CartToJnt(q,d,e,w,o)")(pid_, pq, pqd, pqdd, pw, po).cast<int>()); fl(b, r); fl(a, po.cast<Q>()); fl(b, out); cmp("id", a, b); break; }
        case 6: { int r = dp->JntToMass(q, h); fl(a, P().fn("lambda s,q,h: s.JntToMass(q,h)")(pdp, pq, ph).cast<int>()); fl(b, r); fl(a, ph.cast<H>()); fl(b, h); cmp("mass", a, b); break; }
        case 7: ik("lma", plma, *lma, f, pf); break;
        case 8: { QV v(q, qd); py::object pv = toPy(v); int r = jd->JntToJacDot(v, J_); fl(a, P().fn("lambda s,q,f: s.JntToJacDot(q,f)")(pjd, pv, pJ).cast<int>()); fl(b, r); fl(a, pJ.cast<J>()); fl(b, J_); cmp("jacdot", a, b); break; }
        case 9: { QV v(q, qd); FV g; py::object pv = toPy(v), pg = toPy(g); int r = fkv->JntToCart(v, g); fl(a, P().fn("lambda s,q,f: s.JntToCart(q,f)")(pfkv, pv, pg).cast<int>()); fl(b, r); fl(a, pg.cast<FV>()); fl(b, g); cmp("fkvel", a, b); break; }
        case 10: ik("nso", pnso, *nso, t, pt); break;
        default: ik("nr_jl", pjl, *jl, f, pf);
        }
    }
    void update(int which) {
        SolverI* cs[] = {fk.get(), jac.get(), ikv.get(), wd.get(), nr.get(), id.get(), nullptr, lma.get(), jd.get(), fkv.get(), nso.get(), jl.get()}; py::object* ps[] = {&pfk, &pjac, &pikv, &pwd, &pnr, &pid_, nullptr, &plma, &pjd, &pfkv, &pnso, &pjl};
        if (!cs[which]) return;
        NOTE("update " << which); cs[which]->updateInternalDataStructures(); P().fn("lambda s: s.updateInternalDataStructures()")(*ps[which]);
    }
};
LAW(sessions, 10000, "twelve solvers made on one chain through Python and in C++, then a history of calls, segments added to the chain, single-solver updates, and the names of chain and inner solvers dropped; non-trivial: a call after a change or after the chain's name is gone") {
    context(s, true, false); NOTE(str(C.c)); bool changed = false;
    Session x(s); bool gone = false;
    guarded([&] {
        x.make();
        int ops = s.range(2, 14);
        for (int i = 0; i < ops; ++i) {
            int which = (int)s.raw(12);
            switch (s.raw(8)) {
            case 0: if (gone) break; { SSpec sp = sspec(s, opt(), "x" + std::to_string(i)); C.c.s.push_back(sp); Segment g = sp.build(); NOTE("add " << str(sp)); x.cc.addSegment(g); P().fn("lambda c,s: c.addSegment(s)")(x.pc, toPy(g)); changed = true; break; }
            case 1: case 2: x.update(which); break;
            case 3: if (!gone && s.flip()) { gone = true; changed = true; NOTE("drop the chain and the inner solvers"); x.pc = py::none(); x.pfk = P().fn("lambda c: ChainFkSolverPos_recursive(Chain(c))")(toPy(x.cc)); x.fk.release(); x.fk.reset(new ChainFkSolverPos_recursive(x.cc)); x.pikv = P().fn("lambda c: ChainIkSolverVel_pinv(Chain(c))")(toPy(x.cc)); x.ikv.release(); x.ikv.reset(new ChainIkSolverVel_pinv(x.cc)); P().fn("lambda: gc.collect()")(); break; } break;
            default: x.call(which); s.nontrivial(changed);
            }
        }
    });
}

// ---------- what a solver was made from may go out of scope
LAW(lifetimes, 8000, "a solver made in a Python function from a chain, gravity and inner solvers that only that function named, used after a collection and new allocations, against C++; all non-trivial") {
    context(s, true, false); Chain c = C.c.build(); Q q = Gen<Q>::make(s), d = Gen<Q>::make(s); Fr f = k(fkn(C.c, e(Gen<Q>::make(s)), C.c.ns())); Tw t = twist(s); int n = C.n; s.nontrivial();
    Q lo(n), hi(n), out(n); for (int i = 0; i < n; ++i) { lo(i) = -3; hi(i) = 3; out(i) = 0; }
    int which = (int)s.raw(13);
    static const char* code[] = {
        "ChainFkSolverPos_recursive(Chain(c))", "ChainFkSolverVel_recursive(Chain(c))", "ChainJntToJacSolver(Chain(c))", "ChainJntToJacDotSolver(Chain(c))", "ChainIkSolverVel_pinv(Chain(c))", "ChainIkSolverVel_wdls(Chain(c))", "ChainIkSolverVel_pinv_nso(Chain(c))", "ChainIkSolverVel_pinv_givens(Chain(c))",
        "ChainIkSolverPos_LMA(Chain(c))", "ChainIkSolverPos_NR(Chain(c),ChainFkSolverPos_recursive(Chain(c)),ChainIkSolverVel_pinv(Chain(c)))", "ChainIkSolverPos_NR_JL(Chain(c),JntArray(lo),JntArray(hi),ChainFkSolverPos_recursive(Chain(c)),ChainIkSolverVel_wdls(Chain(c)))", "ChainIdSolver_RNE(Chain(c),Vector(0,0,-9.81))", "ChainDynParam(Chain(c),Vector(0,0,-9.81))"};
    NOTE(code[which] << " on " << str(C.c));
    if (which == 7 && n > 6) s.discard();
    guarded([&] {
        py::object sv = P().fn(Str("lambda c,lo,hi: ") + code[which])(toPy(c), toPy(lo), toPy(hi));
        P().fn("lambda: gc.collect()")(); py::object junk = P().fn("lambda c: [Chain(c) for i in range(8)]")(toPy(C.c.s.size() > 1 ? Chain() : c));
        Flat a, b; auto two = [&](const char* what, const Flat& x, const Flat& y) { EXPECT(same(x, y), what << " after its parts were dropped\nPython gives " << show(x) << "\nC++ gives    " << show(y)); };
        auto ik = [&](auto&& cs, auto& goal) { py::object po = toPy(out), pg = toPy(goal); int r = cs.CartToJnt(q, goal, out); fl(a, P().fn("lambda s,q,g,o: s.CartToJnt(q,g,o)")(sv, toPy(q), pg, po).template cast<int>()); fl(b, r); fl(a, po.cast<Q>()); fl(b, out); two(code[which], a, b); };
        QV v(q, d); J jm(n); SetToZero(jm); FV fv; py::object pf = toPy(f), pfv = toPy(fv), pj = toPy(jm), po = toPy(out);
        ChainFkSolverPos_recursive fk(c); ChainIkSolverVel_pinv iv(c); ChainIkSolverVel_wdls wd(c);
        switch (which) {
        case 0: { fl(b, fk.JntToCart(q, f)); fl(b, f); fl(a, P().fn("lambda s,q,f: s.JntToCart(q,f)")(sv, toPy(q), pf).cast<int>()); fl(a, pf.cast<Fr>()); two(code[which], a, b); break; }
        case 1: { ChainFkSolverVel_recursive x(c); fl(b, x.JntToCart(v, fv)); fl(b, fv); fl(a, P().fn("lambda s,q,f: s.JntToCart(q,f)")(sv, toPy(v), pfv).cast<int>()); fl(a, pfv.cast<FV>()); two(code[which], a, b); break; }
        case 2: { ChainJntToJacSolver x(c); fl(b, x.JntToJac(q, jm)); fl(b, jm); fl(a, P().fn("lambda s,q,f: s.JntToJac(q,f)")(sv, toPy(q), pj).cast<int>()); fl(a, pj.cast<J>()); two(code[which], a, b); break; }
        case 3: { ChainJntToJacDotSolver x(c); fl(b, x.JntToJacDot(v, jm)); fl(b, jm); fl(a, P().fn("lambda s,q,f: s.JntToJacDot(q,f)")(sv, toPy(v), pj).cast<int>()); fl(a, pj.cast<J>()); two(code[which], a, b); break; }
        case 4: ik(ChainIkSolverVel_pinv(c), t); break;
        case 5: ik(ChainIkSolverVel_wdls(c), t); break;
        case 6: ik(ChainIkSolverVel_pinv_nso(c), t); break;
        case 7: ik(ChainIkSolverVel_pinv_givens(c), t); break;
        case 8: ik(ChainIkSolverPos_LMA(c), f); break;
        case 9: ik(ChainIkSolverPos_NR(c, fk, iv), f); break;
        case 10: ik(ChainIkSolverPos_NR_JL(c, lo, hi, fk, wd), f); break;
        case 11: { std::vector<Wrench> w; for (int i = 0; i < C.c.ns(); ++i) w.push_back(wrench(s)); ChainIdSolver_RNE x(c, V(0, 0, -9.81)); fl(b, x.CartToJnt(q, d, q, w, out)); fl(b, out); fl(a, P().fn("lambda s,q,d,w,o: s.CartToJnt(q,d,q,w,o)")(sv, toPy(q), toPy(d), py::cast(w), po).cast<int>()); fl(a, po.cast<Q>()); two(code[which], a, b); break; }
        default: { ChainDynParam x(c, V(0, 0, -9.81)); fl(b, x.JntToGravity(q, out)); fl(b, out); fl(a, P().fn("lambda s,q,o: s.JntToGravity(q,o)")(sv, toPy(q), po).cast<int>()); fl(a, po.cast<Q>()); two(code[which], a, b); }
        }
    });
}
