// PROPERTY C08
#include "vp_eigen.h"
#include "humoto/humoto.h"
using namespace vp;

struct Mpc : public humoto::MPC
{
    using humoto::MPC::condense;
    using humoto::MPC::condenseTimeInvariant;
    using humoto::MPC::condenseOutput;
};

// states of x(k+1) = A(k) x(k) + B(k) u(k), stacked
template <class A, class B> static VecX simulate(const std::vector<A> &a, const std::vector<B> &b, const VecX &x0, const VecX &u)
{
    long n = x0.size(), m = b[0].cols(), N = a.size();
    VecX out(n * N), x = x0;
    for (long k = 0; k < N; ++k) { x = (MatX(a[k]) * x + MatX(b[k]) * u.segment(k * m, m)).eval(); out.segment(k * n, n) = x; }
    return out;
}
template <class M> static std::vector<M> symSeq(const std::string &n, long cnt, long r, long c)
{
    std::vector<M> v;
    for (long i = 0; i < cnt; ++i) v.push_back(M(symMat(n + std::to_string(i), r, c)));
    return v;
}

CONTRACT(dense_condensing, "MPC::condense(S, U, A, B) for dense matrices")
{
    long n = size("states", 1, 3, 5), m = size("controls", 1, 3, 5), N = size("length", 1, 7, 10);
    std::vector<MatX> A = symSeq<MatX>("A", N, n, n), B = symSeq<MatX>("B", N, n, m);
    MatX S, U;
    if (choose("reused_output", 0, 1)) { S = symMat("S0", 1, 2); U = symMat("U0", n * N, m * N); }
    Mpc::condense(S, U, A, B);
    VecX x0 = symVec("x", n), u = symVec("u", m * N);
    ensures("dimensions", S.rows() == n * N && S.cols() == n && U.rows() == n * N && U.cols() == m * N);
    ensures("S x0 + U u is the simulated trajectory", eqm(S * x0 + U * u, simulate(A, B, x0, u)));
}

CONTRACT(dense_condensing_of_three_states, "MPC::condense(S, U, A, B) for fixed-size matrices")
{
    long N = size("length", 1, 7, 11);
    std::vector<etools::Matrix3> A = symSeq<etools::Matrix3>("A", N, 3, 3);
    std::vector<etools::Matrix3x2> B = symSeq<etools::Matrix3x2>("B", N, 3, 2);
    MatX S, U;
    Mpc::condense(S, U, A, B);
    VecX x0 = symVec("x", 3), u = symVec("u", 2 * N);
    ensures("S x0 + U u is the simulated trajectory", eqm(S * x0 + U * u, simulate(A, B, x0, u)));
}

CONTRACT(time_invariant_condensing, "MPC::condenseTimeInvariant")
{
    long n = size("states", 1, 3, 5), m = size("controls", 1, 3, 5), N = size("length", 1, 7, 10);
    MatX A = symMat("A", n, n), B = symMat("B", n, m), S, U;
    if (choose("reused_output", 0, 1)) { S = symMat("S0", 1, 2); U = symMat("U0", n * N, m * N); }
    Mpc::condenseTimeInvariant(S, U, N, A, B);
    VecX x0 = symVec("x", n), u = symVec("u", m * N);
    ensures("dimensions", S.rows() == n * N && S.cols() == n && U.rows() == n * N && U.cols() == m * N);
    ensures("S x0 + U u is the simulated trajectory", eqm(S * x0 + U * u, simulate(std::vector<MatX>(N, A), std::vector<MatX>(N, B), x0, u)));
}

template <int n, int m, etools::MatrixSparsityType::Type sp> static void blockCondensing(long N)
{
    typedef Eigen::Matrix<Real, n, n> MA;
    typedef EIGENTOOLS_CONSTANT_SIZE_MATRIX(n, m) MB;
    std::vector<MA> A = symSeq<MA>("A", N, n, n);
    std::vector<MB> B = symSeq<MB>("B", N, n, m);
    etools::GenericBlockMatrix<n, n> S;
    etools::BlockMatrix<n, m, sp> U;
    if (choose("reused_output", 0, 1)) { S.setZero(2, 2); U.setZero(N + 1, 1); S(1, 0) = symMat("junk", n, n); }
    Mpc::condense(S, U, A, B);
    VecX x0 = symVec("x", n), u = symVec("u", m * N);
    ensures("dimensions", S.getRaw().rows() == n * N && S.getRaw().cols() == n && U.getRaw().rows() == n * N && U.getRaw().cols() == m * N);
    ensures("block counts", S.getNumberOfBlocksVertical() == N && S.getNumberOfBlocksHorizontal() == 1 && U.getNumberOfBlocksVertical() == N && U.getNumberOfBlocksHorizontal() == N);
    ensures("S x0 + U u is the simulated trajectory", eqm(S.getRaw() * x0 + U.getRaw() * u, simulate(A, B, x0, u)));
}
CONTRACT(block_condensing, "MPC::condense(S, U, A, B) for block matrices")
{
    long cfg = choose("sizes", 0, 3), N = size("length", 1, 7, 10);
    if (cfg == 0) blockCondensing<2, 1, etools::MatrixSparsityType::LEFT_LOWER_TRIANGULAR>(N);
    else if (cfg == 1) blockCondensing<2, 2, etools::MatrixSparsityType::NONE>(N);
    else if (cfg == 2) blockCondensing<2, 2, etools::MatrixSparsityType::LEFT_LOWER_TRIANGULAR>(N);
    else blockCondensing<3, 1, etools::MatrixSparsityType::LEFT_LOWER_TRIANGULAR>(N > 3 ? 3 : N);
}
CONTRACT(condensing_refuses_bad_sizes, "MPC::condense (checks)")
{
    long na = size("A_matrices", 0, 5, 7), nb = size("B_matrices", 0, 5, 7);
    requires_(na != nb || na == 0);
    std::vector<MatX> A = symSeq<MatX>("A", na, 2, 2), B = symSeq<MatX>("B", nb, 2, 1);
    MatX S, U;
    ensuresThrows("mismatching numbers of matrices are refused", [&]() { Mpc::condense(S, U, A, B); });
    std::vector<etools::Matrix2> A2 = symSeq<etools::Matrix2>("A", na, 2, 2), B2 = symSeq<etools::Matrix2>("C", nb, 2, 2);
    etools::GenericBlockMatrix<2, 2> BS; etools::LeftLowerTriangularBlockMatrix<2, 2> BU;
    ensuresThrows("mismatching numbers of matrices are refused (blocks)", [&]() { Mpc::condense(BS, BU, A2, B2); });
}

// ---- outputs: y(k) = D(k) x(k) + E(k) u(k), with x(k) = Ux(k-1) x0 + Uu(k-1) u for any condensed system (Ux, Uu)
static MatX symLower(const std::string &nm, long N, long r, long c)
{
    MatX M = MatX::Zero(N * r, N * c);
    for (long i = 0; i < N; ++i) for (long j = 0; j <= i; ++j) M.block(i * r, j * c, r, c) = symMat(nm + idx("", i, j), r, c);
    return M;
}
template <class D, class E> static VecX outputs(const std::vector<D> &d, const std::vector<E> &e, const MatX &Ux, const MatX &Uu, const VecX &x0, const VecX &u)
{
    long n = x0.size(), N = d.size(), p = d[0].rows(), m = u.size() / N;
    VecX y(p * N), X = Ux * x0 + Uu * u;
    for (long k = 0; k < N; ++k)
    {
        VecX x = k == 0 ? x0 : VecX(X.segment((k - 1) * n, n));
        y.segment(k * p, p) = MatX(d[k]) * x + MatX(e[k]) * u.segment(k * m, m);
    }
    return y;
}
CONTRACT(dense_outputs, "MPC::condenseOutput for dense matrices")
{
    long n = size("states", 1, 3, 5), m = size("controls", 1, 3, 5), p = size("outputs", 1, 3, 5), N = size("length", 1, 7, 11);
    MatX D = symMat("D", p, n), E = symMat("E", p, m), Ux = symMat("Ux", n * N, n), Uu = symLower("Uu", N, n, m), Ox, Ou;
    if (choose("reused_output", 0, 1)) { Ox = symMat("O0", 2, 2); Ou = symMat("O1", p * N, m * N); }
    Mpc::condenseOutput(Ox, Ou, D, E, Ux, Uu);
    VecX x0 = symVec("x", n), u = symVec("u", m * N);
    ensures("dimensions", Ox.rows() == p * N && Ox.cols() == n && Ou.rows() == p * N && Ou.cols() == m * N);
    ensures("Ox x0 + Ou u are the outputs", eqm(Ox * x0 + Ou * u, outputs(std::vector<MatX>(N, D), std::vector<MatX>(N, E), Ux, Uu, x0, u)));
}
template <int n, int m, int p> static void blockOutputs(long N)
{
    typedef EIGENTOOLS_CONSTANT_SIZE_MATRIX(p, n) MD;
    typedef EIGENTOOLS_CONSTANT_SIZE_MATRIX(p, m) ME;
    std::vector<MD> D = symSeq<MD>("D", N, p, n);
    std::vector<ME> E = symSeq<ME>("E", N, p, m);
    MatX ux = symMat("Ux", n * N, n), uu = symLower("Uu", N, n, m);
    const MatX cux = ux, cuu = uu;
    etools::GenericBlockMatrix<n, n> Ux(cux); etools::LeftLowerTriangularBlockMatrix<n, m> Uu(cuu);
    etools::GenericBlockMatrix<p, n> Ox; etools::LeftLowerTriangularBlockMatrix<p, m> Ou;
    if (choose("reused_output", 0, 1)) { Ou.resize(N, N); for (long i = 0; i < N; ++i) for (long j = 0; j < N; ++j) Ou(i, j) = symMat("O" + idx("", i, j), p, m); }
    Mpc::condenseOutput(Ox, Ou, D, E, Ux, Uu);
    VecX x0 = symVec("x", n), u = symVec("u", m * N);
    ensures("dimensions", Ox.getRaw().rows() == p * N && Ox.getRaw().cols() == n && Ou.getRaw().rows() == p * N && Ou.getRaw().cols() == m * N);
    ensures("Ox x0 + Ou u are the outputs", eqm(Ox.getRaw() * x0 + Ou.getRaw() * u, outputs(D, E, ux, uu, x0, u)));
    ensures("inputs are not modified", land({eqm(Ux.getRaw(), ux), eqm(Uu.getRaw(), uu)}));
}
CONTRACT(block_outputs, "MPC::condenseOutput for block matrices")
{
    long cfg = choose("sizes", 0, 2), N = size("length", 1, 7, 11);
    if (cfg == 0) blockOutputs<2, 2, 3>(N);
    else if (cfg == 1) blockOutputs<3, 2, 2>(N);
    else blockOutputs<2, 3, 2>(N);
}
template <int n, int p> static void multiControlOutputs(long N)
{
    typedef EIGENTOOLS_CONSTANT_SIZE_MATRIX(p, n) MD;
    long parts = size("control_parts", 1, 3, 5), mt = 0;
    std::vector<long> m;
    for (long j = 0; j < parts; ++j) { m.push_back(size(idx("controls", j), 1, 3, 5)); mt += m.back(); }
    std::vector<MD> D = symSeq<MD>("D", N, p, n);
    std::vector<MatX> E = symSeq<MatX>("E", N, p, mt);
    const MatX ux = symMat("Ux", n * N, n);
    etools::GenericBlockMatrix<n, n> Ux(ux);
    typedef etools::LeftLowerTriangularBlockMatrix<n, etools::MatrixBlockSizeType::DYNAMIC> BU;
    std::vector<BU> Uu; std::vector<MatX> uu;
    VecX x0 = symVec("x", n);
    std::vector<VecX> u;
    for (long j = 0; j < parts; ++j)
    {
        uu.push_back(symLower("Uu" + std::to_string(j), N, n, m[j]));
        Uu.push_back(BU(etools::MatrixBlockSizeType::UNDEFINED, m[j]));
        Uu.back().setZero(N, N);
        for (long a = 0; a < N; ++a) for (long b = 0; b <= a; ++b) Uu.back()(a, b) = uu.back().block(a * n, b * m[j], n, m[j]);
        u.push_back(symVec("u" + std::to_string(j), m[j] * N));
    }
    etools::GenericBlockMatrix<p, n> Ox;
    std::vector<etools::LeftLowerTriangularBlockMatrix<p, etools::MatrixBlockSizeType::DYNAMIC>> Ou;
    Mpc::condenseOutput(Ox, Ou, D, E, Ux, Uu);
    ensures("one output matrix per control", (long)Ou.size() == parts);
    VecX y = Ox.getRaw() * x0, X = ux * x0, s(p * N);
    for (long j = 0; j < parts; ++j) { y += Ou[j].getRaw() * u[j]; X += uu[j] * u[j]; }
    for (long k = 0; k < N; ++k)
    {
        VecX x = k == 0 ? x0 : VecX(X.segment((k - 1) * n, n)), v(mt);
        long o = 0;
        for (long j = 0; j < parts; ++j) { v.segment(o, m[j]) = u[j].segment(k * m[j], m[j]); o += m[j]; }
        s.segment(k * p, p) = MatX(D[k]) * x + E[k] * v;
    }
    ensures("the outputs for several controls", eqm(y, s));
}
CONTRACT(outputs_of_several_controls, "MPC::condenseOutput for several control vectors")
{
    long cfg = choose("sizes", 0, 1), N = size("length", 1, 7, 11);
    if (cfg == 0) multiControlOutputs<2, 2>(N); else multiControlOutputs<3, 2>(N);
}
