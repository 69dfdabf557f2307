#include "dyn.hpp"
#include "chaindynparam.hpp"
#include "chainidsolver_recursive_newton_euler.hpp"
#include "chainfksolvervel_recursive.hpp"
#include "chainfksolverpos_recursive.hpp"
using namespace g;

LAW(terms, 120000, "chains of 0..8 segments, states and gravity; mass, Coriolis and gravity terms against the reference model, several calls per solver; non-trivial: two or more movable joints, moving, with mass") {
    GenOpt o = dynopt(); CSpec c = cspec(s, o, 0, 8); Chain C = c.build(); V3 gr = gravity(s); ChainDynParam sol(C, k(gr)); int nj = c.nj(); VX Z = VX::Zero(nj);
    for (int r = 0, R = s.range(1, 2); r < R; ++r) {
        VX q = jvec(s, nj, 4), qd = jvec(s, nj, 3);
        NOTE(str(c) << "gravity " << str(gr.transpose()) << " q " << str(q.transpose()) << " qd " << str(qd.transpose()));
        double m = 0; for (auto& x : c.s) m += x.I.m; s.nontrivial(nj >= 2 && m > 0 && qd.squaredNorm() > 0); s.label(nj < c.ns() ? "with fixed joints" : "all movable");
        JntSpaceInertiaMatrix H(nj); H.data.setConstant(2.2); JntArray Cq = kj(VX::Constant(nj, 3.3)), G = kj(VX::Constant(nj, 4.4)); JntArray kq = kj(q), kd = kj(qd);
        int order = (int)s.raw(3);
        for (int z = 0; z < 3; ++z) { int w = (z + order) % 3; int rc = w == 0 ? sol.JntToMass(kq, H) : w == 1 ? sol.JntToCoriolis(kq, kd, Cq) : sol.JntToGravity(kq, G); EXPECT(rc == 0 && sol.getError() == 0, "call " << w << " returned " << rc); }
        double L = lenOf(c), S = dynScale(bodies(c, q, qd, Z), gr, {}, L), SM = 1; for (auto& b : bodies(c, q, Z, Z)) SM += std::pow(std::max(1.0, mx(b.J)) * L, 2) * (b.I.m * (1 + b.I.c.squaredNorm()) + mx(b.I.Ic));
        MX M = massm(c, q); M.diagonal() += jointInertias(c); MNEAR(H.data, M, 1e-13 * SM, "mass matrix"); MNEAR(H.data, H.data.transpose(), 0, "symmetry");
        MNEAR(Cq.data, kane(bodies(c, q, qd, Z), nj, V3::Zero()), 1e-12 * S, "Coriolis"); MNEAR(G.data, kane(bodies(c, q, Z, Z), nj, gr), 1e-12 * S, "gravity");
        MNEAR(e(kq), q, 0, "input"); MNEAR(e(kd), qd, 0, "input");
        if (nj) { Eigen::SelfAdjointEigenSolver<MX> es(H.data); EXPECT(es.eigenvalues()(0) >= -1e-12 * SM, "eigenvalue " << es.eigenvalues()(0)); }
    }
}

LAW(composition, 60000, "M qdd + C + G against the inverse dynamics solver; non-trivial: two or more joints") {
    GenOpt o = dynopt(); CSpec c = cspec_mov(s, o, 1, 7); Chain C = c.build(); V3 gr = gravity(s); ChainDynParam sol(C, k(gr)); ChainIdSolver_RNE id(C, k(gr)); int nj = c.nj(); VX q = jvec(s, nj, 4), qd = jvec(s, nj, 3), qdd = jvec(s, nj, 5); s.nontrivial(nj >= 2);
    NOTE(str(c) << "gravity " << str(gr.transpose()) << " q " << str(q.transpose()) << " qd " << str(qd.transpose()) << " qdd " << str(qdd.transpose()));
    JntSpaceInertiaMatrix H(nj); JntArray Cq(nj), G(nj), t(nj); EXPECT(sol.JntToMass(kj(q), H) == 0 && sol.JntToCoriolis(kj(q), kj(qd), Cq) == 0 && sol.JntToGravity(kj(q), G) == 0 && id.CartToJnt(kj(q), kj(qd), kj(qdd), std::vector<Wrench>(c.ns(), Wrench::Zero()), t) == 0, "calls");
    MNEAR(H.data * qdd + Cq.data + G.data, t.data, 2e-12 * dynScale(bodies(c, q, qd, qdd), gr, {}, lenOf(c)) * (1 + nj), "M qdd + C + G");
}

LAW(energy, 50000, "as a user observes it: kinetic energy from the velocity solver equals qd'M qd/2, gravity equals the potential gradient, qd'(dM/dt)qd = 2 qd'C (finite differences), no rotor inertia; non-trivial: moving with mass") {
    GenOpt o = dynopt(); o.jinertia = false; CSpec c = cspec_mov(s, o, 1, 6); Chain C = c.build(); V3 gr = gravity(s); ChainDynParam sol(C, k(gr)); int nj = c.nj(); VX q = jvec(s, nj, 4), qd = jvecu(s, nj, 2); s.nontrivial();
    NOTE(str(c) << "gravity " << str(gr.transpose()) << " q " << str(q.transpose()) << " qd " << str(qd.transpose()));
    ChainFkSolverVel_recursive fv(C); ChainFkSolverPos_recursive fp(C); double T = 0; for (int i = 0; i < c.ns(); ++i) { FrameVel F; fv.JntToCart(JntArrayVel(kj(q), kj(qd)), F, i + 1); Twist tw = F.M.R.Inverse(F.GetTwist()); T += 0.5 * dot(tw, C.getSegment(i).getInertia() * tw); }
    auto M = [&](const VX& x) { JntSpaceInertiaMatrix H(nj); EXPECT(sol.JntToMass(kj(x), H) == 0, "mass"); return MX(H.data); };
    auto U = [&](const VX& x) { double u = 0; for (int i = 0; i < c.ns(); ++i) { Frame F; fp.JntToCart(kj(x), F, i + 1); u -= C.getSegment(i).getInertia().getMass() * gr.dot(e(F * C.getSegment(i).getInertia().getCOG())); } return u; };
    double L = lenOf(c), S = dynScale(bodies(c, q, qd, VX::Zero(nj)), gr, {}, L) * (1 + qd.norm()); NEAR(0.5 * qd.dot(M(q) * qd), T, 1e-12 * S * L, "kinetic energy");
    JntArray G(nj), Cq(nj); EXPECT(sol.JntToGravity(kj(q), G) == 0 && sol.JntToCoriolis(kj(q), kj(qd), Cq) == 0, "calls"); double h = 1e-4;
    for (int i = 0; i < nj; ++i) { VX d = VX::Zero(nj); d(i) = h; NEAR(G(i), (8 * (U(q + d) - U(q - d)) - (U(q + 2 * d) - U(q - 2 * d))) / (12 * h), 1e-7 * S, "gravity is the potential gradient, joint " << i); }
    MX dM = (8 * (M(q + h * qd) - M(q - h * qd)) - (M(q + 2 * h * qd) - M(q - 2 * h * qd))) / (12 * h); NEAR(qd.dot(dM * qd), 2 * qd.dot(Cq.data), 1e-6 * S * L, "energy balance of the Coriolis forces");
}

LAW(rejects, 60000, "wrong sizes of every argument of every call, mixed with valid calls; non-trivial: the call must be rejected") {
    GenOpt o = dynopt(); CSpec c = cspec(s, o, 0, 5); Chain C = c.build(); ChainDynParam sol(C, Vector(0, 0, -9.81)); int nj = c.nj();
    for (int r = 0, R = s.range(1, 5); r < R; ++r) {
        int z[3]; for (int& x : z) x = s.chance(1, 4) ? s.range(0, 7) : nj; int op = (int)s.raw(3); bool bad = z[0] != nj || z[1] != nj || (op == 1 && z[2] != nj); s.nontrivial(bad); NOTE("joints " << nj << " op " << op << " sizes " << z[0] << " " << z[1] << " " << z[2]);
        JntSpaceInertiaMatrix H(z[1]); JntArray out(z[1]), in(z[0]), in2(z[2]); int rc = op == 0 ? sol.JntToMass(in, H) : op == 1 ? sol.JntToCoriolis(in, in2, out) : sol.JntToGravity(in, out), want = bad ? SolverI::E_SIZE_MISMATCH : 0;
        EXPECT(rc == want, "returned " << rc << ", expected " << want); EXPECT(sol.getError() == want, "getError " << sol.getError() << " after a call that returned " << rc);
    }
}
