#include "dyn.hpp"
#include "chaindynparam.hpp"
#include "chainidsolver_recursive_newton_euler.hpp"
#include "chainfksolverpos_recursive.hpp"
#include "chainjnttojacsolver.hpp"
#include "models/models.hpp"
using namespace g;

// the robots as tables: a, alpha (quarter turns), d, mass, centre of gravity and inertia about it (xx yy zz xy xz yz)
struct Row { double a; int al; double d, m, c[3], I[6]; };
static const Row PUMA[] = {
    {0, 1, 0, 0, {0, 0, 0}, {0, 0.35, 0, 0, 0, 0}},
    {0.4318, 0, 0, 17.4, {-0.3638, 0.006, 0.2275}, {0.13, 0.524, 0.539, 0, 0, 0}},
    {0.0203, -1, 0.15005, 4.8, {-0.0203, -0.0141, 0.070}, {0.066, 0.086, 0.0125, 0, 0, 0}},
    {0, 1, 0.4318, 0.82, {0, 0.019, 0}, {1.8e-3, 1.3e-3, 1.8e-3, 0, 0, 0}},
    {0, -1, 0, 0.34, {0, 0, 0}, {0.3e-3, 0.4e-3, 0.3e-3, 0, 0, 0}},
    {0, 0, 0, 0.09, {0, 0, 0.032}, {0.15e-3, 0.15e-3, 0.04e-3, 0, 0, 0}}};
// modified (Craig) convention: row i leads from joint i to joint i + 1; centre of gravity and inertia about it in the axes of joint i's own frame
static const Row LWR[] = {
    {0, 1, 0, 2, {0, 0, 0}, {0, 0, 0.0115343, 0, 0, 0}},
    {0, -1, 0.4, 2, {0, -0.3120511, -0.0038871}, {-0.5471572, -0.0000302, -0.5423253, 0, 0, 0.0018828}},
    {0, -1, 0, 2, {0, -0.0015515, 0}, {0.0063507, 0, 0.0107804, 0, 0, -0.0005147}},
    {0, 1, 0.39, 2, {0, 0.5216809, 0}, {-1.0436952, 0, -1.0392780, 0, 0, 0.0005324}},
    {0, 1, 0, 2, {0, 0.0119891, 0}, {0.0036654, 0, 0.0060429, 0, 0, 0.0004226}},
    {0, -1, 0, 2, {0, 0.0080787, 0}, {0.0010431, 0, 0.0036376, 0, 0, 0.0000101}},
    {0, 0, 0, 2, {0, 0, 0}, {0.000001, 0, 0.0001203, 0, 0, 0}}};

static M4 tz(double d) { return mk4(M3::Identity(), V3(0, 0, d)); }
static M4 rxq(int q) { M3 r; r << 1, 0, 0, 0, q == 0, -q, 0, q, q == 0; return mk4(r, V3::Zero()); }
static CSpec reference(bool puma) {
    CSpec c; 
    if (!puma) { SSpec b; b.tip = tz(0.31); c.s.push_back(b); }
    for (int i = 0; i < (puma ? 6 : 7); ++i) {
        const Row& r = puma ? PUMA[i] : LWR[i]; SSpec x; x.j.type = Joint::RotZ;
        M4 sh = mk4(M3::Identity(), V3(r.a, 0, 0)), L = puma ? M4(tz(r.d) * sh * rxq(r.al)) : M4(sh * rxq(r.al) * tz(r.d)); x.tip = L;
        x.I.m = r.m; V3 cg(r.c[0], r.c[1], r.c[2]); M3 I; I << r.I[0], r.I[3], r.I[4], r.I[3], r.I[1], r.I[5], r.I[4], r.I[5], r.I[2];
        if (puma) { x.I.c = cg; x.I.Ic = I; } else { M3 R = R3(L); x.I.c = R.transpose() * (cg - P3(L)); x.I.Ic = R.transpose() * I * R; }
        c.s.push_back(x);
    }
    return c;
}
static Chain model(bool puma) { return puma ? Puma560() : KukaLWR_DHnew(); }

LAW(robots, 30000, "Puma 560 and Kuka LWR at random positions, rates, accelerations and gravity: number of joints, end pose, Jacobian, mass matrix, Coriolis, gravity and inverse dynamics against the tables of link parameters (which the law keeps itself); every call yields an independent equal chain; non-trivial: moving") {
    bool puma = s.flip(); CSpec c = reference(puma); Chain C = model(puma); int nj = c.nj(); s.label(puma ? "Puma" : "LWR");
    EXPECT((int)C.getNrOfJoints() == nj, C.getNrOfJoints() << " joints");
    VX q = jvec(s, nj, 4), qd = jvec(s, nj, 3), qdd = jvec(s, nj, 5), Z = VX::Zero(nj); V3 gr = gravity(s); NOTE((puma ? "Puma" : "LWR") << " q " << str(q.transpose()) << " qd " << str(qd.transpose()) << " qdd " << str(qdd.transpose()) << " gravity " << str(gr.transpose())); s.nontrivial(qd.norm() > 0);
    if (s.flip()) { Chain D = model(puma); D.addSegment(Segment("extra", Joint(Joint::RotX))); if (D.getNrOfSegments() > 1) D.getSegment(1).setInertia(RigidBodyInertia(99)); EXPECT((int)model(puma).getNrOfJoints() == nj, "changed by an earlier caller"); C = model(puma); }
    ChainFkSolverPos_recursive fk(C); Frame F; EXPECT(fk.JntToCart(kj(q), F) == 0, "pose"); M4 X = M4::Identity(); for (int i = 0, j = 0; i < c.ns(); ++i) X = X * c.s[i].pose(c.s[i].j.movable() ? q(j++) : 0);
    MNEAR(e(F), X, 1e-6, "end pose");
    auto B = bodies(c, q, qd, qdd); ChainDynParam sol(C, k(gr)); JntSpaceInertiaMatrix H(nj); JntArray Cq(nj), G(nj), t(nj); EXPECT(sol.JntToMass(kj(q), H) == 0 && sol.JntToCoriolis(kj(q), kj(qd), Cq) == 0 && sol.JntToGravity(kj(q), G) == 0, "terms");
    double sc = 30 * (1 + gr.norm() + qd.squaredNorm() + qdd.norm()); MNEAR(H.data, massm(c, q), 1e-5, "mass matrix"); MNEAR(Cq.data, kane(bodies(c, q, qd, Z), nj, V3::Zero()), 1e-6 * sc, "Coriolis"); MNEAR(G.data, kane(bodies(c, q, Z, Z), nj, gr), 1e-6 * sc, "gravity");
    ChainIdSolver_RNE id(C, k(gr)); EXPECT(id.CartToJnt(kj(q), kj(qd), kj(qdd), std::vector<Wrench>(C.getNrOfSegments(), Wrench::Zero()), t) == 0, "inverse dynamics"); MNEAR(t.data, kane(B, nj, gr), 1e-6 * sc, "torques");
    Eigen::SelfAdjointEigenSolver<MX> es(H.data); EXPECT(es.eigenvalues()(0) > 0, "mass matrix has the eigenvalue " << es.eigenvalues()(0));
    ChainJntToJacSolver js(C); Jacobian J(nj); EXPECT(js.JntToJac(kj(q), J) == 0, "Jacobian"); const double h = 1e-6; int j = (int)s.raw(nj); VX qp = q, qm = q; qp(j) += h; qm(j) -= h; Frame A, Bm; fk.JntToCart(kj(qp), A); fk.JntToCart(kj(qm), Bm); Twist dt = diff(Bm, A, 2 * h); for (int i = 0; i < 6; ++i) NEAR(J(i, j), dt(i), 1e-7, "Jacobian row " << i << " column " << j);
}
