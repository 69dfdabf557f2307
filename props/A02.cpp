#include "jetm.hpp"
using namespace g;
LAW(vectors, 60000, "moving vectors and scalars; non-trivial: values and velocities non-zero") { Aug<VelT>(s).vectors(); }
LAW(rotations, 40000, "rotating frames (all singular cases included); non-trivial: both rotate") { Aug<VelT>(s).rotations(); }
LAW(frames, 40000, "moving frames; non-trivial: both rotate and translate") { Aug<VelT>(s).frames(); }
LAW(twists, 40000, "changing twists; non-trivial: value and rate non-zero") { Aug<VelT>(s).twists(); }

LAW(diff_add, 40000, "pairs of velocity-augmented values and a time step; non-trivial: the pair differs") {
    double dt = s.flip() ? 1.0 : std::pow(10.0, s.uni(-1, 1)) * (s.flip() ? -1 : 1);
    Frame FA = frame(s), FB = frame(s); Twist ta = twist(s), tb = twist(s); FrameVel a(FA, ta), b(FB, tb);
    M3 A = e(FA.M), B = e(FB.M); V3 w = logm3(B * A.transpose()); double th = w.norm();
    NOTE("a " << str(e(FA)) << " " << str(e(ta).transpose()) << " b " << str(e(FB)) << " " << str(e(tb).transpose()) << " dt " << dt);
    s.nontrivial(th > 1e-9);
    double tol = th < 2e-5 || th > M_PI - 2e-5 ? 1e-5 : 1e-9;
    auto cf = [&](const FrameVel& g_, const FrameVel& w_, const char* what) { MNEAR(e(g_.M.R), e(w_.M.R), tol, what << " rotation"); MNEAR(e(g_.M.w), e(w_.M.w), 1e-9, what << " angular velocity"); MNEAR(e(g_.p.p), e(w_.p.p), 1e-9, what << " position"); MNEAR(e(g_.p.v), e(w_.p.v), 1e-9, what << " velocity"); };
    TwistVel d = diff(a, b, dt);
    MNEAR(e(d.vel.p), (e(FB.p) - e(FA.p)) / dt, 1e-8, "diff of frames: linear part"); MNEAR(e(d.vel.v), (e(tb.vel) - e(ta.vel)) / dt, 1e-8, "diff of frames: linear rate");
    MNEAR(e(d.rot.v), (e(tb.rot) - e(ta.rot)) / dt, 1e-8, "diff of frames: angular rate");
    MNEAR(expm3(e(d.rot.p) * dt) * A, B, 2 * tol, "diff of frames: angular part");
    cf(addDelta(a, d, dt), b, "addDelta(a,diff(a,b)) frames");
    VectorVel r = diff(a.M, b.M, dt); MNEAR(e(r.p), e(d.rot.p), 0, "diff rotations"); MNEAR(e(r.v), e(d.rot.v), 0, "diff rotations");
    RotationVel R = addDelta(a.M, r, dt); MNEAR(e(R.R), B, tol, "rotations"); MNEAR(e(R.w), e(tb.rot), 1e-9, "rotations");
    VectorVel v = diff(a.p, b.p, dt), q = addDelta(a.p, v, dt); MNEAR(e(q.p), e(FB.p), 1e-10, "vectors"); MNEAR(e(q.v), e(tb.vel), 1e-10, "vectors");
    MNEAR(e(diff(a.p, b.p).v), e(tb.vel) - e(ta.vel), 1e-12, "default dt"); cf(addDelta(a, diff(a, b)), b, "default dt");
    // adding an arbitrary rate
    TwistVel x(twist(s), twist(s)); FrameVel f = addDelta(a, x, dt);
    MNEAR(e(f.M.R), expm3(e(x.rot.p) * dt) * A, 2e-6 * (e(x.rot.p).norm() * std::fabs(dt) < 2e-6) + 1e-10, "addDelta rotation"); MNEAR(e(f.M.w), e(ta.rot) + e(x.rot.v) * dt, 1e-9, "addDelta angular velocity"); MNEAR(e(f.p.p), e(FA.p) + e(x.vel.p) * dt, 1e-9, "addDelta position"); MNEAR(e(f.p.v), e(ta.vel) + e(x.vel.v) * dt, 1e-9, "addDelta velocity");
}
