// One uniform adapter per solver: built from a chain or tree plus settings, called with a generated input whose
// argument sizes can be made wrong one by one, giving the return code and all results as a list of numbers.
#pragma once
#include "dyn.hpp"
#include "ik.hpp"
#include "chainfksolverpos_recursive.hpp"
#include "chainfksolvervel_recursive.hpp"
#include "chainjnttojacsolver.hpp"
#include "chainjnttojacdotsolver.hpp"
#include "chainiksolvervel_pinv.hpp"
#include "chainiksolvervel_pinv_givens.hpp"
#include "chainiksolvervel_pinv_nso.hpp"
#include "chainiksolvervel_wdls.hpp"
#include "chainiksolverpos_nr.hpp"
#include "chainiksolverpos_nr_jl.hpp"
#include "chainiksolverpos_lma.hpp"
#include "chaindynparam.hpp"
#include "chainidsolver_recursive_newton_euler.hpp"
#include "chainidsolver_vereshchagin.hpp"
#include "chainhdsolver_vereshchagin.hpp"
#include "chainfdsolver_recursive_newton_euler.hpp"
#include "chainexternalwrenchestimator.hpp"
#include "treefksolverpos_recursive.hpp"
#include "treejnttojacsolver.hpp"
#include "treeiksolvervel_wdls.hpp"
#include "treeiksolverpos_nr_jl.hpp"
#include "treeiksolverpos_online.hpp"
#include "treeidsolver_recursive_newton_euler.hpp"
#include <cstring>
#include <limits>
#include <memory>
namespace sv {
using namespace g;
typedef std::vector<double> Nums;

struct Set {
    int maxiter = 150, piter = 20, sub = 0, rep = 0, nc = 1, lockedOn = 0;
    double eps = 1e-5, peps = 1e-6, lambda = 0, alpha = 0.25, freq = 100, gain = 30, filt = 0.5;
    VX lo, hi, qdmax, opt, wgt; MX wjs, wts, ytask; std::vector<bool> locked; V6 racc = V6::Zero(), L = V6::Ones(); V3 grav = V3(0, 0, -9.81);
    bool viaSetters = false, lim = true; double xt = 1, xr = 1; std::vector<std::string> ends;
};
// what an input consists of; every adapter uses the parts it needs
struct In { VX q, qd, qdd, tau; V6 v; M4 goal; std::vector<V6> w; MX alfa; VX beta; int seg = -1, var = 0; std::string name; std::map<std::string, M4> goals; std::map<std::string, V6> twists; std::map<std::string, V6> wmap; bool mid = false; };

struct Arg { std::string what; int right; };
struct Call {
    const In& in; int badArg; int badSize; Nums out; std::vector<Arg> args; std::vector<std::function<bool()>> unchanged; double rc = 0;
    Call(const In& i, int ba = -1, int bs = 0) : in(i), badArg(ba), badSize(bs) {}
    int size(const std::string& what, int right) { int k = (int)args.size(); args.push_back({what, right}); return k == badArg ? badSize : right; }
    static double el(const VX& v, int i) { return i < v.size() ? v(i) : 0.25 * i; }
    JntArray arr(const std::string& what, const VX& v) { int n = size(what, (int)v.size()); JntArray a(n); for (int i = 0; i < n; ++i) a.data(i) = el(v, i); return a; }
    JntArray outArr(const std::string& what, int n) { int m = size(what, n); JntArray a(m); for (int i = 0; i < m; ++i) a.data(i) = 7.25 + i; return a; }
    void put(double x) { out.push_back(x); }
    void put(const MX& m) { for (int i = 0; i < m.size(); ++i) out.push_back(m.data()[i]); }
    void put(const JntArray& a) { put(MX(a.data)); }
    void put(const Frame& f) { for (double x : f.M.data) put(x); for (double x : f.p.data) put(x); }
    void put(const Twist& t) { put(MX(e(t))); }
    void put(const Wrench& t) { put(MX(e(t))); }
    // remember an input argument to see that the call leaves it alone
    void watch(const JntArray& a) { VX c = a.data; const JntArray* p = &a; unchanged.push_back([p, c] { return p->data.size() == c.size() && (c.size() == 0 || !std::memcmp(p->data.data(), c.data(), sizeof(double) * c.size())); }); }
    template <class T> void watchRaw(const T& a) { T c = a; const T* p = &a; unchanged.push_back([p, c] { return !std::memcmp(p, &c, sizeof(T)); }); }
    void watch(const Wrenches& w) { Wrenches c = w; const Wrenches* p = &w; unchanged.push_back([p, c] { return p->size() == c.size() && (c.empty() || !std::memcmp(p->data(), c.data(), sizeof(Wrench) * c.size())); }); }
    void watch(const Jacobian& j) { MX c = j.data; const Jacobian* p = &j; unchanged.push_back([p, c] { return p->data.cols() == c.cols() && (c.size() == 0 || !std::memcmp(p->data.data(), c.data(), sizeof(double) * c.size())); }); }
    bool inputsKept = true; SolverI* solver = 0; int err = 0;
    void done(double r) { rc = r; if (solver) err = solver->getError(); for (auto& f : unchanged) if (!f()) inputsKept = false; unchanged.clear(); }
};

struct Ad { virtual ~Ad() {} void go(Call& c) { c.solver = si(); call(c); } virtual void call(Call&) = 0; virtual void update() {} virtual SolverI* si() { return 0; } };

struct AFkPos : Ad { ChainFkSolverPos_recursive s; AFkPos(const Chain& c) : s(c) {} SolverI* si() override { return &s; } void update() override { s.updateInternalDataStructures(); }
    void call(Call& c) override { JntArray q = c.arr("q", c.in.q); c.watch(q); if (c.in.var == 0) { Frame F(Vector(1, 2, 3)); c.done(s.JntToCart(q, F, c.in.seg)); if (c.rc >= 0) c.put(F); } else { std::vector<Frame> F(c.size("poses", c.in.seg < 0 ? (int)c.in.w.size() : c.in.seg)); c.done(s.JntToCart(q, F, c.in.seg)); if (c.rc >= 0) for (auto& f : F) c.put(f); } } };
struct AFkVel : Ad { ChainFkSolverVel_recursive s; AFkVel(const Chain& c) : s(c) {} SolverI* si() override { return &s; } void update() override { s.updateInternalDataStructures(); }
    void call(Call& c) override { JntArrayVel q; q.q = c.arr("q", c.in.q); q.qdot = c.arr("qdot", c.in.qd); c.watch(q.q); c.watch(q.qdot); if (c.in.var == 0) { FrameVel F; c.done(s.JntToCart(q, F, c.in.seg)); if (c.rc >= 0) { c.put(F.value()); c.put(F.deriv()); } } else { std::vector<FrameVel> F(c.size("poses", c.in.seg < 0 ? (int)c.in.w.size() : c.in.seg)); c.done(s.JntToCart(q, F, c.in.seg)); if (c.rc >= 0) for (auto& f : F) { c.put(f.value()); c.put(f.deriv()); } } } };
struct AJac : Ad { ChainJntToJacSolver s; AJac(const Chain& c, const Set& t) : s(c) { if (t.lockedOn) s.setLockedJoints(t.locked); } SolverI* si() override { return &s; } void update() override { s.updateInternalDataStructures(); }
    void call(Call& c) override { JntArray q = c.arr("q", c.in.q); c.watch(q); Jacobian J(c.size("Jacobian", (int)c.in.q.size())); J.data.setConstant(3); c.done(s.JntToJac(q, J, c.in.seg)); if (c.rc >= 0) c.put(J.data); } };
struct AJacDot : Ad { ChainJntToJacDotSolver s; int un; AJacDot(const Chain& c, const Set& t) : s(c), lk(t) { if (t.lockedOn) s.setLockedJoints(t.locked); s.setRepresentation(t.rep); } Set lk; SolverI* si() override { return &s; } void update() override { s.updateInternalDataStructures(); }
    void call(Call& c) override { JntArrayVel q; q.q = c.arr("q", c.in.q); q.qdot = c.arr("qdot", c.in.qd); c.watch(q.q); c.watch(q.qdot); if (c.in.var == 0) { Twist t; c.done(s.JntToJacDot(q, t, c.in.seg)); if (c.rc >= 0) c.put(t); } else { int n = 0; for (int i = 0; i < c.in.q.size(); ++i) n += !(lk.lockedOn && i < (int)lk.locked.size() && lk.locked[i]); Jacobian J(c.size("Jacobian", n)); J.data.setConstant(3); c.done(s.JntToJacDot(q, J, c.in.seg)); if (c.rc >= 0) c.put(J.data); } } };

template <class S> struct AVel : Ad { std::unique_ptr<S> s; SolverI* si() override { return s.get(); } void update() override { s->updateInternalDataStructures(); }
    virtual void extra(Call&) {}
    void call(Call& c) override { JntArray q = c.arr("q", c.in.q); Twist v = kt(c.in.v); c.watch(q); c.watchRaw(v); JntArray o = c.outArr("qdot", (int)c.in.q.size()); c.done(s->CartToJnt(q, v, o)); if (c.rc >= 0) { c.put(o); extra(c); } } };
struct APinv : AVel<ChainIkSolverVel_pinv> { APinv(const Chain& c, const Set& t) { s.reset(new ChainIkSolverVel_pinv(c, t.eps, t.maxiter)); } void extra(Call& c) override { c.put(s->getNrZeroSigmas()); c.put(s->getSVDResult()); } };
struct AGivens : AVel<ChainIkSolverVel_pinv_givens> { AGivens(const Chain& c, const Set&) { s.reset(new ChainIkSolverVel_pinv_givens(c)); } };
struct ANso : AVel<ChainIkSolverVel_pinv_nso> { ANso(const Chain& c, const Set& t) { if (t.viaSetters) { s.reset(new ChainIkSolverVel_pinv_nso(c, t.eps, t.maxiter, 0.1)); s->setOptPos(kj(t.opt)); s->setWeights(kj(t.wgt)); s->setAlpha(t.alpha); } else s.reset(new ChainIkSolverVel_pinv_nso(c, kj(t.opt), kj(t.wgt), t.eps, t.maxiter, t.alpha)); } void extra(Call& c) override { c.put(s->getWeights()); c.put(s->getOptPos()); c.put(s->getAlpha()); } };
struct AWdls : AVel<ChainIkSolverVel_wdls> { int nj; AWdls(const Chain& c, const Set& t) { if (t.viaSetters) { s.reset(new ChainIkSolverVel_wdls(c)); s->setEps(t.eps); s->setMaxIter(t.maxiter); } else s.reset(new ChainIkSolverVel_wdls(c, t.eps, t.maxiter)); s->setWeightJS(t.wjs); s->setWeightTS(t.wts); s->setLambda(t.lambda); }
    void extra(Call& c) override { c.put(s->getNrZeroSigmas()); c.put(s->getSigmaMin()); c.put(s->getLambdaScaled()); c.put(s->getSVDResult()); Eigen::VectorXd S(c.in.q.size()); int r = s->getSigma(S); c.put(r); if (r >= 0) { std::sort(S.data(), S.data() + S.size()); c.put(MX(S)); } } };
inline std::unique_ptr<Ad> velAd(const Chain& c, const Set& t) { return t.sub == 0 ? std::unique_ptr<Ad>(new APinv(c, t)) : t.sub == 1 ? std::unique_ptr<Ad>(new AWdls(c, t)) : std::unique_ptr<Ad>(new ANso(c, t)); }
inline ChainIkSolverVel& velOf(Ad& a) { return *dynamic_cast<ChainIkSolverVel*>(a.si()); }
struct APos : Ad { std::unique_ptr<Ad> vel; std::unique_ptr<ChainFkSolverPos_recursive> fkS; std::unique_ptr<ChainIkSolverPos> s; SolverI* si() override { return s.get(); } void update() override { s->updateInternalDataStructures(); }
    void call(Call& c) override { JntArray q = c.arr("q_init", c.in.q); Frame G = k(c.in.goal); c.watch(q); c.watchRaw(G); JntArray o = c.outArr("q_out", (int)c.in.q.size()); c.done(s->CartToJnt(q, G, o)); if (c.rc >= 0 || c.rc == SolverI::E_MAX_ITERATIONS_EXCEEDED) c.put(o); if (c.rc >= 0) if (auto* l = dynamic_cast<ChainIkSolverPos_LMA*>(s.get())) { c.put(l->lastNrOfIter); c.put(l->lastDifference); c.put(l->lastTransDiff); c.put(l->lastRotDiff); } } };
struct ANr : APos { ANr(const Chain& c, const Set& t) { vel = velAd(c, t); fkS.reset(new ChainFkSolverPos_recursive(c)); s.reset(new ChainIkSolverPos_NR(c, *fkS, velOf(*vel), t.piter, t.peps)); } };
struct ANrJl : APos { ANrJl(const Chain& c, const Set& t) { vel = velAd(c, t); fkS.reset(new ChainFkSolverPos_recursive(c)); if (t.lim && !t.viaSetters) s.reset(new ChainIkSolverPos_NR_JL(c, kj(t.lo), kj(t.hi), *fkS, velOf(*vel), t.piter, t.peps)); else { auto* p = new ChainIkSolverPos_NR_JL(c, *fkS, velOf(*vel), t.piter, t.peps); s.reset(p); if (t.lim) p->setJointLimits(kj(t.lo), kj(t.hi)); } } };
struct ALma : APos { ALma(const Chain& c, const Set& t) { if (t.viaSetters) s.reset(new ChainIkSolverPos_LMA(c, t.peps, t.piter)); else s.reset(new ChainIkSolverPos_LMA(c, t.L, t.peps, t.piter)); } };
struct ADyn : Ad { ChainDynParam s; ADyn(const Chain& c, const Set& t) : s(c, k(t.grav)) {} SolverI* si() override { return &s; } void update() override { s.updateInternalDataStructures(); }
    void call(Call& c) override { int n = (int)c.in.q.size(); JntArray q = c.arr("q", c.in.q); c.watch(q); int v = c.in.var % 3; if (v == 0) { JntSpaceInertiaMatrix H(c.size("inertia matrix", n)); H.data.setConstant(5); c.done(s.JntToMass(q, H)); if (c.rc >= 0) c.put(H.data); } else if (v == 1) { JntArray qd = c.arr("qdot", c.in.qd); c.watch(qd); JntArray o = c.outArr("coriolis", n); c.done(s.JntToCoriolis(q, qd, o)); if (c.rc >= 0) c.put(o); } else { JntArray o = c.outArr("gravity", n); c.done(s.JntToGravity(q, o)); if (c.rc >= 0) c.put(o); } } };
inline Wrenches wl(Call& c, const char* what) { int n = c.size(what, (int)c.in.w.size()); Wrenches w; for (int i = 0; i < n; ++i) w.push_back(i < (int)c.in.w.size() ? kw(c.in.w[i]) : Wrench(Vector(1, 2, 3), Vector(4, 5, 6))); return w; }
struct ARne : Ad { ChainIdSolver_RNE s; ARne(const Chain& c, const Set& t) : s(c, k(t.grav)) {} SolverI* si() override { return &s; } void update() override { s.updateInternalDataStructures(); }
    void call(Call& c) override { JntArray q = c.arr("q", c.in.q), qd = c.arr("qdot", c.in.qd), qdd = c.arr("qdotdot", c.in.qdd); Wrenches w = wl(c, "wrenches"); JntArray o = c.outArr("torques", (int)c.in.q.size()); c.watch(q); c.watch(qd); c.watch(qdd); c.watch(w); c.done(s.CartToJnt(q, qd, qdd, w, o)); if (c.rc >= 0) c.put(o); } };
struct AFd : Ad { ChainFdSolver_RNE s; AFd(const Chain& c, const Set& t) : s(c, k(t.grav)) {} SolverI* si() override { return &s; } void update() override { s.updateInternalDataStructures(); }
    void call(Call& c) override { JntArray q = c.arr("q", c.in.q), qd = c.arr("qdot", c.in.qd), tau = c.arr("torques", c.in.tau); Wrenches w = wl(c, "wrenches"); JntArray o = c.outArr("qdotdot", (int)c.in.q.size()); c.watch(q); c.watch(qd); c.watch(tau); c.watch(w); c.done(s.CartToJnt(q, qd, tau, w, o)); if (c.rc >= 0) c.put(o);
        if (c.rc >= 0 && c.in.var == 2) { unsigned int nj = (unsigned)c.in.q.size(); double t = 0, dt = 0.01; JntArray qq = q, dd = qd, acc(nj), dq(nj), ddq(nj), qt(nj), qdt(nj); s.RK4Integrator(nj, t, dt, qq, dd, tau, w, s, acc, dq, ddq, qt, qdt); c.put(qq); c.put(dd); } } };
template <class V> struct AVer : Ad { V s; int nc; unsigned ns = 0; AVer(const Chain& c, const Set& t) : s(c, kt(t.racc), t.nc), nc(t.nc) {} SolverI* si() override { return &s; } void update() override { s.updateInternalDataStructures(); }
    void call(Call& c) override { int n = (int)c.in.q.size(); JntArray q = c.arr("q", c.in.q), qd = c.arr("qdot", c.in.qd); JntArray qdd = c.outArr("qdotdot", n); int ac = c.size("unit forces", nc); Jacobian A(ac); for (int i = 0; i < ac; ++i) for (int r = 0; r < 6; ++r) A.data(r, i) = c.in.alfa(r, i % 6); JntArray b = c.arr("setpoints", VX(c.in.beta.head(nc))); Wrenches w = wl(c, "wrenches"); JntArray ff = c.arr("torques", c.in.tau); JntArray ct = c.outArr("constraint torques", n);
        c.watch(q); c.watch(qd); c.watch(A); c.watch(b); c.watch(w); c.watch(ff); c.done(s.CartToJnt(q, qd, qdd, A, b, w, ff, ct));
        if (c.rc >= 0) { c.put(qdd); c.put(ct); std::vector<Twist> x(c.in.w.size() + 1); s.getTransformedLinkAcceleration(x); for (auto& t : x) c.put(t); JntArray tt(n); s.getTotalTorque(tt); c.put(tt); Eigen::VectorXd nu = Eigen::VectorXd::Zero(nc); s.getContraintForceMagnitude(nu); c.put(MX(nu)); } } };
// the documented stateful estimator: an input is a whole history that starts with setting the initial momentum
struct AEst : Ad { ChainExternalWrenchEstimator s; AEst(const Chain& c, const Set& t) : s(c, k(t.grav), t.freq, t.gain, t.filt, t.eps, t.maxiter) {} SolverI* si() override { return &s; } void update() override { s.updateInternalDataStructures(); }
    void call(Call& c) override { JntArray q = c.arr("q", c.in.q), qd = c.arr("qdot", c.in.qd); c.watch(q); c.watch(qd); c.done(s.setInitialMomentum(q, qd)); if (c.rc < 0) return;
        JntArray q1 = c.arr("q", c.in.q), qd1 = c.arr("qdot", c.in.qdd), tau = c.arr("torques", c.in.tau); c.watch(q1); c.watch(qd1); c.watch(tau); Wrench w;
        for (int r = 0; r < 3; ++r) { int rc = s.JntToExtWrench(q1, qd1, tau, w); c.done(rc); if (rc < 0) return; c.put(w); JntArray t((unsigned)c.in.q.size()); s.getEstimatedJntTorque(t); c.put(t); for (int i = 0; i < (int)q1.rows(); ++i) q1(i) += 0.01; c.watch(q1); if (c.in.mid) update(); } c.unchanged.clear(); } };

// ---------- trees
struct ATFk : Ad { TreeFkSolverPos_recursive s; ATFk(const Tree& t) : s(t) {} void call(Call& c) override { JntArray q = c.arr("q", c.in.q); c.watch(q); Frame F; c.done(s.JntToCart(q, F, c.in.name)); if (c.rc >= 0) c.put(F); } };
struct ATJac : Ad { TreeJntToJacSolver s; ATJac(const Tree& t) : s(t) {} void call(Call& c) override { JntArray q = c.arr("q", c.in.q); c.watch(q); Jacobian J(c.size("Jacobian", (int)c.in.q.size())); J.data.setConstant(4); c.done(s.JntToJac(q, J, c.in.name)); if (c.rc >= 0) c.put(J.data); } };
inline Twists ktw(const std::map<std::string, V6>& m) { Twists t; for (auto& x : m) t[x.first] = kt(x.second); return t; }
inline Frames kfr(const std::map<std::string, M4>& m) { Frames t; for (auto& x : m) t[x.first] = k(x.second); return t; }
inline void wd(TreeIkSolverVel_wdls& s, const Set& t) { s.setWeightJS(t.wjs); s.setWeightTS(t.ytask); s.setLambda(t.lambda); }
struct ATVel : Ad { TreeIkSolverVel_wdls s; ATVel(const Tree& t, const Set& p) : s(t, p.ends) { wd(s, p); } void call(Call& c) override { JntArray q = c.arr("q", c.in.q); c.watch(q); Twists v = ktw(c.in.twists), v0 = v; JntArray o((unsigned)c.in.q.size()); c.done(s.CartToJnt(q, v, o)); if (v.size() != v0.size()) c.inputsKept = false; if (c.rc >= 0) { c.put(c.rc); c.put(o); } } };
struct ATNr : Ad { TreeFkSolverPos_recursive f; TreeIkSolverVel_wdls v; TreeIkSolverPos_NR_JL s; ATNr(const Tree& t, const Set& p) : f(t), v(t, p.ends), s(t, p.ends, kj(p.lo), kj(p.hi), f, v, p.piter, p.peps) { wd(v, p); } void call(Call& c) override { JntArray q = c.arr("q", c.in.q); c.watch(q); Frames G = kfr(c.in.goals), G0 = G; JntArray o((unsigned)c.in.q.size()); c.done(s.CartToJnt(q, G, o)); if (G.size() != G0.size()) c.inputsKept = false; if (c.rc >= 0 || c.rc == -3) { c.put(c.rc); c.put(o); } } };
struct ATOn : Ad { TreeFkSolverPos_recursive f; TreeIkSolverVel_wdls v; TreeIkSolverPos_Online s; ATOn(const Tree& t, const Set& p) : f(t), v(t, p.ends), s(t.getNrOfJoints(), p.ends, kj(p.lo), kj(p.hi), kj(p.qdmax), p.xt, p.xr, f, v) { wd(v, p); } void call(Call& c) override { JntArray q = c.arr("q", c.in.q); c.watch(q); Frames G = kfr(c.in.goals), G0 = G; JntArray o((unsigned)c.in.q.size()); c.done(s.CartToJnt(q, G, o)); if (G.size() != G0.size()) c.inputsKept = false; if (c.rc >= 0) { c.put(c.rc); c.put(o); } } };
struct ATId : Ad { TreeIdSolver_RNE s; ATId(const Tree& t, const Set& p) : s(t, k(p.grav)) {} SolverI* si() override { return &s; } void update() override { s.updateInternalDataStructures(); }
    void call(Call& c) override { JntArray q = c.arr("q", c.in.q), qd = c.arr("qdot", c.in.qd), qdd = c.arr("qdotdot", c.in.qdd); c.watch(q); c.watch(qd); c.watch(qdd); WrenchMap w; for (auto& x : c.in.wmap) w[x.first] = kw(x.second); size_t n0 = w.size(); JntArray o = c.outArr("torques", (int)c.in.q.size()); c.done(s.CartToJnt(q, qd, qdd, w, o)); if (w.size() != n0) c.inputsKept = false; if (c.rc >= 0) c.put(o); } };

enum { FKPOS, FKVEL, JAC, JACDOT, PINV, GIVENS, NSO, WDLS, NR, NRJL, LMA, DYN, RNE, FD, VERID, VERHD, EST, NCHAIN };
static const char* const CNAME[] = {"fkpos", "fkvel", "jac", "jacdot", "pinv", "givens", "nso", "wdls", "nr", "nr_jl", "lma", "dynparam", "rne", "fd", "vereshchagin", "vereshchagin hd", "estimator"};
enum { TFK, TJAC, TVEL, TNR, TON, TID, NTREE };
static const char* const TNAME[] = {"tree fkpos", "tree jac", "tree wdls", "tree nr_jl", "tree online", "tree rne"};
inline std::unique_ptr<Ad> make(int kd, const Chain& c, const Set& t) {
    switch (kd) {
    case FKPOS: return std::unique_ptr<Ad>(new AFkPos(c)); case FKVEL: return std::unique_ptr<Ad>(new AFkVel(c)); case JAC: return std::unique_ptr<Ad>(new AJac(c, t)); case JACDOT: return std::unique_ptr<Ad>(new AJacDot(c, t));
    case PINV: return std::unique_ptr<Ad>(new APinv(c, t)); case GIVENS: return std::unique_ptr<Ad>(new AGivens(c, t)); case NSO: return std::unique_ptr<Ad>(new ANso(c, t)); case WDLS: return std::unique_ptr<Ad>(new AWdls(c, t));
    case NR: return std::unique_ptr<Ad>(new ANr(c, t)); case NRJL: return std::unique_ptr<Ad>(new ANrJl(c, t)); case LMA: return std::unique_ptr<Ad>(new ALma(c, t)); case DYN: return std::unique_ptr<Ad>(new ADyn(c, t)); case RNE: return std::unique_ptr<Ad>(new ARne(c, t)); case FD: return std::unique_ptr<Ad>(new AFd(c, t));
    case VERID: { std::streambuf* b = std::cout.rdbuf(0); std::unique_ptr<Ad> a(new AVer<ChainIdSolver_Vereshchagin>(c, t)); std::cout.rdbuf(b); return a; }
    case VERHD: return std::unique_ptr<Ad>(new AVer<ChainHdSolver_Vereshchagin>(c, t)); default: return std::unique_ptr<Ad>(new AEst(c, t));
    }
}
inline std::unique_ptr<Ad> makeT(int kd, const Tree& c, const Set& t) {
    switch (kd) { case TFK: return std::unique_ptr<Ad>(new ATFk(c)); case TJAC: return std::unique_ptr<Ad>(new ATJac(c)); case TVEL: return std::unique_ptr<Ad>(new ATVel(c, t)); case TNR: return std::unique_ptr<Ad>(new ATNr(c, t)); case TON: return std::unique_ptr<Ad>(new ATOn(c, t)); default: return std::unique_ptr<Ad>(new ATId(c, t)); }
}
inline bool structured(int kd) { return kd != FKPOS && kd != FKVEL; }  // keeps structures sized by the number of joints

// ---------- generators
inline MX spd(Src& s, int n) { if (s.flip()) return MX::Identity(n, n); MX d = MX::Zero(n, n); for (int i = 0; i < n; ++i) d(i, i) = s.uni(0.2, 2); if (s.flip()) return d; MX a(n, n); for (int i = 0; i < n * n; ++i) a.data()[i] = s.uni(-0.2, 0.2); return d + a * a.transpose(); }
inline Set settings(Src& s, int nj) {
    Set t; t.maxiter = s.chance(1, 8) ? s.range(1, 6) : 150; t.piter = s.pick(std::vector<int>{20, 5, 1, 60}); t.sub = (int)s.raw(3); t.rep = (int)s.raw(3); t.nc = (int)s.raw(7); t.eps = s.pick(std::vector<double>{1e-5, 1e-3, 1e-7}); t.peps = s.pick(std::vector<double>{1e-6, 1e-4, 1e-2});
    t.lambda = s.flip() ? 0 : s.uni(0.01, 0.5); t.alpha = s.uni(0, 0.5); t.freq = s.uni(50, 500); t.gain = s.uni(0, 40); t.filt = s.flip() ? 0 : s.uni(0, 0.9);
    t.lo = VX(nj); t.hi = VX(nj); t.qdmax = VX(nj); t.opt = jvec(s, nj, 2); t.wgt = VX(nj); for (int i = 0; i < nj; ++i) { t.lo(i) = s.uni(-3, 0); t.hi(i) = s.uni(0, 3); t.qdmax(i) = s.uni(0.1, 2); t.wgt(i) = s.uni(0, 2); }
    t.wjs = spd(s, nj); t.wts = spd(s, 6); t.locked.assign(nj, false); t.lockedOn = s.flip(); for (int i = 0; i < nj; ++i) t.locked[i] = s.chance(1, 3); V3 a = e(vec(s, 10)), b = s.flip() ? V3(V3::Zero()) : e(vec(s, 2)); t.racc << a, b; for (int i = 0; i < 6; ++i) t.L(i) = s.flip() ? 1 : s.uni(0.05, 2); t.grav = gravity(s); t.viaSetters = s.flip(); t.lim = s.chance(2, 3); t.xt = s.uni(0.05, 2); t.xr = s.uni(0.05, 2); return t;
}
// the same settings for a grown chain: identity weights, no limits, free joints, resting position zero for new joints
inline Set grown(Set t, int nj) {
    int o = (int)t.lo.size(); double M = std::numeric_limits<double>::max(); auto ext = [&](VX& v, double d) { VX w = VX::Constant(nj, d); w.head(o) = v; v = w; };
    ext(t.lo, -M); ext(t.hi, M); ext(t.qdmax, 1); ext(t.opt, 0); ext(t.wgt, 1); MX w = MX::Identity(nj, nj); w.topLeftCorner(o, o) = t.wjs; t.wjs = w; t.locked.resize(nj, false); return t;
}
inline In input(Src& s, const CSpec& c) {
    In i; int n = c.nj(); i.q = posture(s, n); i.qd = jvec(s, n, 2); i.qdd = jvec(s, n, 2); i.tau = jvec(s, n, 5); i.v = e(twist(s, 2)); VX g = s.flip() ? VX(i.q + jvecu(s, n, 0.3)) : jvec(s, n, 2); i.goal = fkn(c, g, c.ns()); if (s.chance(1, 4)) i.goal = i.goal * frameM(s, 1); i.w = wrenches(s, c.ns()); i.alfa = MX::Zero(6, 6); bool id = s.flip(); for (int a = 0; a < 6; ++a) for (int b = 0; b < 6; ++b) i.alfa(a, b) = id ? a == b : s.uni(-1, 1); i.beta = jvec(s, 6, 3); i.seg = s.chance(2, 3) ? -1 : (int)s.raw(c.ns() + 1); i.var = (int)s.raw(3); i.mid = s.flip(); return i;
}
inline void treeEnds(Src& s, const TSpec& t, Set& p) { p.ends.clear(); for (auto& n : t.n) if (s.chance(1, 3)) p.ends.push_back(n.s.name); if (p.ends.empty() && !t.n.empty()) p.ends.push_back(t.n.back().s.name); p.ytask = spd(s, 6 * (int)p.ends.size()); if (p.piter > 20) p.piter = 20; }
inline In inputT(Src& s, const TSpec& t, const Set& p) {
    In i; int n = t.nj(); i.q = posture(s, n); i.qd = jvec(s, n, 2); i.qdd = jvec(s, n, 2); i.tau = VX::Zero(n); VX g = s.flip() ? VX(i.q + jvecu(s, n, 0.3)) : jvec(s, n, 2); auto T = fk(t, g, VX(), VX()); i.name = t.n.empty() || s.chance(1, 8) ? t.root : t.n[s.raw(t.n.size())].s.name;
    for (auto& x : p.ends) { if (s.chance(4, 5)) i.twists[x] = e(twist(s, 2)); if (s.chance(4, 5)) for (size_t z = 0; z < t.n.size(); ++z) if (t.n[z].s.name == x) i.goals[x] = T[z].a; } for (auto& x : t.n) if (s.flip()) i.wmap[x.s.name] = e(wrench(s, 5)); if (s.chance(1, 5)) i.wmap["nobody"] = e(wrench(s, 5)); return i;
}
inline Nums run(Ad& a, const In& i, double& rc, bool* kept = 0) { Call c(i); a.go(c); rc = c.rc; if (kept) *kept = c.inputsKept; return c.out; }
inline double worst(const Nums& a, const Nums& b) { if (a.size() != b.size()) return 1e300; double w = 0, sc = 1; for (size_t i = 0; i < a.size(); ++i) if (std::isfinite(b[i])) sc = std::max(sc, std::fabs(b[i])); for (size_t i = 0; i < a.size(); ++i) { if (std::isnan(a[i]) && std::isnan(b[i])) continue; if (a[i] == b[i]) continue; double d = std::fabs(a[i] - b[i]) / sc; if (!(d <= 1e300)) d = 1e300; w = std::max(w, d); } return w; }
inline std::string str(const Nums& n) { std::ostringstream o; o.precision(10); for (double x : n) o << x << " "; return o.str(); }
// the solver that continues from its last decomposition is only determined where the rank is clear
inline bool givensDecided(const CSpec& c, const VX& q, double& cond) { MX J = jac(c, q, c.ns()); Svd d0 = svdAt(J, 1e-300); double top = d0.s.size() ? d0.s(0) : 0; if (top == 0) { cond = 1; return true; } Svd d = svdAt(J, 1e-7 * top); cond = top / std::max(1e-300, d.gapHi) * (1 + 1 / d.gapHi); return d.gapLo <= 1e-14 * top && d.gapHi >= 1e-4 * top; }
}
