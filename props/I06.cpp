#include "gen.hpp"
#include "utilities/svd_eigen_HH.hpp"
#include "utilities/svd_eigen_Macie.hpp"
#include "utilities/svd_HH.hpp"
#include "utilities/ldl_solver_eigen.hpp"
using namespace g;

static MX orth(Src& s, int n) { MX M(n, n); for (int i = 0; i < n; ++i) for (int j = 0; j < n; ++j) M(i, j) = s.uni(-1, 1); if (!n) return M; return Eigen::HouseholderQR<MX>(M).householderQ() * MX::Identity(n, n); }
// matrices of every rank and structure
static MX matrix(Src& s, int m, int n, std::string& kind) {
    MX A = MX::Zero(m, n); int kd = (int)s.raw(9), r = std::min(m, n);
    switch (kd) {
    case 0: kind = "zero"; break;
    case 1: kind = "small integers"; for (int i = 0; i < m; ++i) for (int j = 0; j < n; ++j) A(i, j) = (double)s.range(-2, 2); break;
    case 2: kind = "diagonal"; for (int i = 0; i < r; ++i) A(i, i) = s.real(-3, 3); break;
    case 3: { kind = "low rank"; int k = s.range(0, std::max(0, r - 1)); MX B(m, k), C(k, n); for (int i = 0; i < m; ++i) for (int j = 0; j < k; ++j) B(i, j) = s.uni(-1, 1); for (int i = 0; i < k; ++i) for (int j = 0; j < n; ++j) C(i, j) = s.uni(-1, 1); if (k) A = B * C; break; }
    case 4: { kind = "prescribed singular values"; MX D = MX::Zero(m, n); double v = s.uni(0.1, 3); for (int i = 0; i < r; ++i) { if (!s.chance(1, 2)) v = s.flip() ? s.uni(0, 3) : std::pow(10.0, -s.range(0, 14)); if (s.chance(1, 6)) v = 0; D(i, i) = v; } A = orth(s, m) * D * orth(s, n); break; }
    case 5: kind = "zero rows and columns"; for (int i = 0; i < m; ++i) for (int j = 0; j < n; ++j) A(i, j) = s.uni(-1, 1); for (int i = 0; i < m; ++i) if (s.chance(1, 3)) A.row(i).setZero(); for (int j = 0; j < n; ++j) if (s.chance(1, 3)) A.col(j).setZero(); break;
    case 6: kind = "equal columns"; for (int i = 0; i < m; ++i) for (int j = 0; j < n; ++j) A(i, j) = j && s.chance(1, 3) ? A(i, j - 1) : s.uni(-1, 1); if (n > 1) A.col(n - 1) = A.col(0) * (s.flip() ? 1 : -2); break;
    case 7: kind = "graded"; for (int i = 0; i < m; ++i) for (int j = 0; j < n; ++j) A(i, j) = s.uni(-1, 1) * std::pow(10.0, -(double)s.range(0, 4) * (i + j)); break;
    default: kind = "general"; for (int i = 0; i < m; ++i) for (int j = 0; j < n; ++j) A(i, j) = s.uni(-1, 1);
    }
    if (s.chance(1, 4)) { double f = std::pow(10.0, s.range(-9, 9)); A *= f; kind += ", scaled"; }
    return A;
}
static void verify(const MX& A, const MX& U, const VX& S, const MX& V, bool sorted, double rel) {
    int m = (int)A.rows(), n = (int)A.cols(), r = std::min(m, n); double sc = mx(A) > 0 ? A.norm() : 1, tol = rel * sc; EXPECT(U.allFinite() && S.allFinite() && V.allFinite(), "non-finite factors");
    for (int i = 0; i < n; ++i) EXPECT(S(i) >= 0, "singular value " << i << " is " << S(i)); if (sorted) for (int i = 0; i + 1 < n; ++i) EXPECT(S(i) >= S(i + 1), "singular values are not in decreasing order: " << str(S.transpose()));
    VX ref = VX::Zero(n); if (r) ref.head(r) = Eigen::JacobiSVD<MX>(A).singularValues(); VX got = S; std::sort(got.data(), got.data() + n, std::greater<double>()); MNEAR(got, ref, tol, "singular values");
    MNEAR(V.transpose() * V, MX(MX::Identity(n, n)), rel, "V orthonormal"); MX P = MX::Zero(m, n); for (int i = 0; i < n; ++i) P += U.col(i) * S(i) * V.col(i).transpose(); MNEAR(P, A, tol, "product of the factors");
    // columns of U that belong to non-zero singular values
    std::vector<int> nz; for (int i = 0; i < n; ++i) if (S(i) > 1e3 * tol) nz.push_back(i); for (int a : nz) for (int b : nz) { double x = U.col(a).dot(U.col(b)), w = a == b ? 1.0 : 0.0; NEAR(x, w, rel * 10 * std::max(1.0, tol / std::min(S(a), S(b)) * 1e2), "columns " << a << ", " << b << " of U orthonormal"); }
}
LAW(householder, 60000, "matrices of 1..9 rows and columns: zero, integer, diagonal, low rank, prescribed singular values, zero or equal rows and columns, graded, scaled by 1e-9..1e9; outputs pre-filled; non-trivial: two or more rows and columns, not zero") {
    int m = s.range(1, 9), n = s.range(1, 9); std::string kind; MX A = matrix(s, m, n, kind); s.label(kind); s.nontrivial(m > 1 && n > 1 && mx(A) > 0); NOTE(kind << " " << str(A));
    MX U = MX::Constant(m, n, 5.5), V = MX::Constant(n, n, -4.4), A0 = A; VX S = VX::Constant(n, 3.3), t = VX::Constant(n, 2.2); int rc = svd_eigen_HH(A, U, S, V, t); EXPECT(rc == 0, "returned " << rc); verify(A, U, S, V, true, 1e-12); MNEAR(A, A0, 0, "input");
}
LAW(iterations, 40000, "the same with iteration limits of 1..6: a zero return must come with a correct decomposition, enough iterations must not be reported as failure; non-trivial: at least 2x2") {
    int m = s.range(1, 7), n = s.range(1, 7), lim = s.range(1, 6); std::string kind; MX A = matrix(s, m, n, kind); NOTE("limit " << lim << " " << str(A)); s.nontrivial(m > 1 && n > 1 && mx(A) > 0);
    MX U = MX::Zero(m, n), V = MX::Zero(n, n); VX S = VX::Zero(n), t = VX::Zero(n); int rc = svd_eigen_HH(A, U, S, V, t, lim); s.label(rc == 0 ? "decomposed" : "limit reached"); EXPECT(rc == 0 || rc == -2, "returned " << rc); if (rc == 0) verify(A, U, S, V, true, 1e-12); else EXPECT(n > 1 && std::min(m, n) > 0 && mx(A) > 0, "no iterations are needed");
    Jacobian J(n); if (m == 6) { J.data = A; std::vector<JntArray> u(6, JntArray(n)), v(n, JntArray(n)); JntArray w(n); SVD_HH d(J); rc = d.calculate(J, u, w, v, lim); EXPECT(rc == 0 || rc == -2, "SVD_HH returned " << rc); if (rc == 0) { MX UU(6, n), VV(n, n); for (int i = 0; i < 6; ++i) UU.row(i) = u[i].data.transpose(); for (int i = 0; i < n; ++i) VV.row(i) = v[i].data.transpose(); verify(A, UU, w.data, VV, false, 1e-12); } }
}
LAW(jacobians, 60000, "the Jacobian variant: 6 rows, 1..9 columns, several matrices through one decomposer; non-trivial: two or more columns, not zero") {
    int n = s.range(1, 9); Jacobian J(n); SVD_HH d(J); std::vector<JntArray> u(6, JntArray(n)), v(n, JntArray(n)); JntArray w(n);
    for (int r = 0, R = s.range(1, 3); r < R; ++r) { std::string kind; MX A = matrix(s, 6, n, kind); J.data = A; s.label(kind); s.nontrivial(n > 1 && mx(A) > 0); NOTE(kind << " " << str(A)); int rc = d.calculate(J, u, w, v, 150); EXPECT(rc == 0, "returned " << rc); MX UU(6, n), VV(n, n); for (int i = 0; i < 6; ++i) UU.row(i) = u[i].data.transpose(); for (int i = 0; i < n; ++i) VV.row(i) = v[i].data.transpose(); verify(A, UU, w.data, VV, false, 1e-12); MNEAR(J.data, A, 0, "input"); }
}
LAW(rotations, 40000, "the plane-rotation variant: m >= n, 1..9, sequences of related or unrelated matrices with the switch toggled on each call and factors carried over; non-trivial: second or later call, at least 2x2") {
    int m = s.range(1, 9), n = s.range(1, m); MX U = MX::Identity(m, m), V = MX::Identity(n, n), B(m, n); VX S = VX::Constant(n, 7.7), t(m); bool toggle = s.flip(); std::string kind; MX A = matrix(s, m, n, kind); double thr = s.pick(std::vector<double>{1e-15, 1e-20, 1e-25});
    for (int r = 0, R = s.range(1, 4); r < R; ++r) { toggle = !toggle; if (r) { if (s.flip()) A = matrix(s, m, n, kind); else for (int i = 0; i < m; ++i) for (int j = 0; j < n; ++j) A(i, j) += 0.05 * s.uni(-1, 1) * mx(A); } s.label(kind); s.nontrivial(r > 0 && n > 1 && mx(A) > 0); NOTE("toggle " << toggle << " " << kind << " " << str(A)); svd_eigen_Macie(A, U, S, V, B, t, thr, toggle);
        MX Un = U.leftCols(n); verify(A, Un, S, V, false, 1e-6); MX P = Un * S.asDiagonal() * V.transpose(); MNEAR(P, A, 1e-12 * (A.norm() + 1e-300), "product of the factors"); }
}
LAW(ldl, 60000, "symmetric positive definite systems of 0..9 unknowns, conditioned up to 1e8, factors pre-filled; wrong dimensions of any argument; non-trivial: two or more unknowns") {
    int n = s.range(0, 9), z[9] = {n, n, n, n, n, n, n, n, n}; bool bad = s.chance(1, 4); MX A = MX::Zero(n, n); VX b = jvec(s, n, 5); double cond = 1; if (n) { VX d(n); double lo = 0; for (int i = 0; i < n; ++i) d(i) = std::pow(10.0, -s.uni(0, 1) * (s.flip() ? 8 : 2)); cond = d.maxCoeff() / d.minCoeff(); MX Q = s.chance(1, 4) ? MX(MX::Identity(n, n)) : orth(s, n); A = Q * d.asDiagonal() * Q.transpose() * std::pow(10.0, s.range(-4, 4)); A = MX((A + A.transpose()) * 0.5); (void)lo; }
    NOTE(str(A) << " right side " << str(b.transpose()));
    if (bad) { int i = (int)s.raw(7); z[i + 1] += s.flip() || !n ? 1 : -1; } MX A2 = bad ? MX(MX::Zero(n, z[1])) : A; if (bad && z[1] == n) A2 = A; VX b2 = VX::Zero(z[2]), D = VX::Constant(z[5], 3), q = VX::Constant(z[7], 4), t = VX::Constant(z[6], 5); MX L = MX::Constant(z[3], z[4], 6); if (!bad) b2 = b; s.nontrivial(bad || n > 1);
    int rc = ldl_solver_eigen(A2, b2, L, D, t, q); if (bad) { EXPECT(rc == SolverI::E_SIZE_MISMATCH, "returned " << rc << " for wrong dimensions"); return; }
    EXPECT(rc == 0, "returned " << rc); if (!n) return; double sc = mx(A); for (int i = 0; i < n; ++i) { EXPECT(L(i, i) == 1, "unit diagonal"); for (int j = i + 1; j < n; ++j) EXPECT(L(i, j) == 0, "lower triangular"); EXPECT(D(i) > 0, "positive pivots"); }
    MNEAR(L * D.asDiagonal() * L.transpose(), A, 1e-13 * sc * n, "product of the factors"); MNEAR(A * q, b, 1e-13 * n * n * sc * mx(q) + 1e-13 * mx(b), "residual"); MNEAR(q, VX(A.ldlt().solve(b)), 1e-14 * n * n * cond * (mx(q) + 1e-300), "solution");
}
