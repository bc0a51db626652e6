// PROPERTY C16
#include "vp_eigen.h"
#include "humoto/humoto.h"
using namespace vp;

static MatX lowerOf(const MatX &full, const MatX &old) { MatX r = old; for (long j = 0; j < r.cols(); ++j) for (long i = j; i < r.rows(); ++i) r(i, j) = full(i, j); return r; }
static Formula lowerEq(const MatX &a, const MatX &b)
{
    if (a.rows() != b.rows() || a.cols() != b.cols()) return Formula(false);
    std::vector<Formula> f;
    for (long j = 0; j < a.cols(); ++j) for (long i = j; i < a.rows(); ++i) f.push_back(eq(a(i, j), b(i, j)));
    return land(f);
}
CONTRACT(normal_matrix, "getATA")
{
    long r = size("rows", 0, 6, 9), c = size("cols", 1, 5, 7);
    MatX A = symMat("A", r, c), H = symMat("H", 1, 2), A0 = A;
    etools::getATA(H, A);
    MatX full = A.transpose() * A;
    ensures("lower triangle of A'A", lowerEq(H, full));
    ensures("argument unchanged", eqm(A, A0));
    etools::convertLLTtoSymmetric(H);
    ensures("completed to A'A", eqm(H, full));
    const long n = 4, off = choose("offset", 0, n - c);
    MatX P(n, n), L = symMat("L", 2, 3); P.setZero(); P.block(off, off, c, c) = full;
    etools::getATA(L, A, off, n);
    ensures("lower triangle of the padded A'A", lowerEq(L, P));
    etools::convertLLTtoSymmetric(L);
    ensures("completed padded A'A", eqm(L, P));
    if (r == 2 && c == 2)
    {
        etools::Matrix2 S = A; MatX Hs;
        etools::getATA(Hs, S);
        ensures("fixed-size argument", lowerEq(Hs, full));
        MatX big = symMat("big", 4, 4);
        etools::getATA(Hs, big.block(1, 1, 3, 2));
        ensures("argument is a block", lowerEq(Hs, MatX(big.block(1, 1, 3, 2)).transpose() * MatX(big.block(1, 1, 3, 2))));
    }
}
CONTRACT(add_normal_matrix, "addATA")
{
    long r = size("rows", 0, 6, 9), c = size("cols", 1, 5, 7);
    MatX A = symMat("A", r, c), full = A.transpose() * A;
    MatX H = symMat("H", c, c), H0 = H;
    etools::addATA(H, A);
    ensures("A'A is added to the lower triangle only", eqm(H, lowerOf(H0 + full, H0)));
    const long n = 4, off = choose("offset", 0, n - c);
    MatX L = symMat("L", n, n), e = L, P(n, n);
    P.setZero(); P.block(off, off, c, c) = full;
    etools::addATA(L, A, off);
    ensures("A'A is added to the lower triangle of its own block only", eqm(L, lowerOf(e + P, e)));
}
CONTRACT(symmetric_completion, "convertLLTtoSymmetric")
{
    long n = size("n", 0, 7, 10);
    MatX M = symMat("M", n, n), M0 = M;
    etools::convertLLTtoSymmetric(M);
    for (long i = 0; i < n; ++i) for (long j = 0; j < n; ++j) ensures("upper triangle mirrors the lower one, which is kept", eq(M(i, j), i >= j ? M0(i, j) : M0(j, i)));
}
CONTRACT(transformation, "transform")
{
    MatX R = symMat("R", 3, 3), t = symMat("t", 3, 1), p = symMat("p", 3, size("points", 1, 5, 7));
    MatX o = etools::transform(p, R, VecX(t));
    MatX e = R * p;
    for (long j = 0; j < p.cols(); ++j) e.col(j) += t;
    ensures("every column is rotated and translated", eqm(o, e));
    etools::Matrix2 R2 = symMat("R2", 2, 2), b = symMat("b", 2, 2); etools::Vector2 t2 = symVec("t2", 2);
    MatX e2 = R2 * b; e2.col(0) += t2; e2.col(1) += t2;
    ensures("fixed sizes", eqm(etools::transform(b, R2, t2), e2));
}
CONTRACT(block_diagonal, "makeBlockDiagonal")
{
    long n = size("matrices", 0, 3, 5), R = 0, C = 0;
    std::vector<MatX> v;
    for (long i = 0; i < n; ++i) { long r = size(idx("rows", i), 0, 2, 4), c = size(idx("cols", i), 0, 2, 4); v.push_back(symMat(idx("m", i), r, c)); R += r; C += c; }
    MatX e(R, C); e.setZero();
    long r = 0, c = 0;
    for (auto &m : v) { e.block(r, c, m.rows(), m.cols()) = m; r += m.rows(); c += m.cols(); }
    ensures("matrices on the diagonal, zeros elsewhere", eqm(etools::makeBlockDiagonal(v), e));
}
CONTRACT(block_diagonal_copies, "makeBlockDiagonal")
{
    long n = size("copies", 0, 5, 7), r = size("rows", 1, 6, 10), c = size("cols", 1, 5, 8);
    MatX m = symMat("m", r, c), e(n * r, n * c); e.setZero();
    for (long i = 0; i < n; ++i) e.block(i * r, i * c, r, c) = m;
    ensures("copies on the diagonal, zeros elsewhere", eqm(etools::makeBlockDiagonal(m, n), e));
    etools::Matrix2 s = symMat("s", 2, 2); MatX es(2 * n, 2 * n); es.setZero();
    for (long i = 0; i < n; ++i) es.block(i * 2, i * 2, 2, 2) = s;
    ensures("copies of a fixed-size matrix", eqm(etools::makeBlockDiagonal(s, n), es));
}
CONTRACT(vertical_concatenation, "concatenateMatricesVertically")
{
    long n = size("matrices", 0, 5, 7), R = 0, C = -1;
    std::vector<MatX> v;
    bool consistent = true;
    for (long i = 0; i < n; ++i)
    {
        long k = choose(idx("kind", i), 0, 3);      // empty, 0 rows with columns, 1 x 2, 2 x 2 (or another width)
        long r = k == 0 ? 0 : k == 1 ? 0 : k - 1, c = k == 0 ? 0 : 2;
        if (k > 1 && i == 3 && choose("other_width", 0, 1)) c = 1;
        v.push_back(symMat(idx("m", i), r, c));
        if (r) { R += r; consistent = consistent && (C < 0 || C == c); C = C < 0 ? c : C; }
    }
    MatX out = symMat("old", 1, 3);
    if (!consistent) { ensuresThrows("different widths are refused", [&]() { etools::concatenateMatricesVertically(out, v); }); return; }
    etools::concatenateMatricesVertically(out, v);
    ensures("height", out.rows() == R);
    if (!R) return;
    MatX e(R, C); long r = 0;
    for (auto &m : v) if (m.size()) { e.block(r, 0, m.rows(), C) = m; r += m.rows(); }
    ensures("one below the other, empty ones left out", eqm(out, e));
}
CONTRACT(horizontal_concatenation, "concatenateMatricesHorizontally")
{
    MatX m[3]; long rows[3], R = 0, C = 0; bool consistent = true; long seen = -1;
    for (int i = 0; i < 3; ++i)
    {
        rows[i] = size(idx("rows", i), 0, 4, 6); long c = rows[i] ? size(idx("cols", i), 1, 4, 6) : 0;
        m[i] = symMat(idx("m", i), rows[i], c);
        if (rows[i]) { consistent = consistent && (seen < 0 || seen == rows[i]); seen = rows[i]; R = rows[i]; C += c; }
    }
    MatX out = symMat("old", 3, 1);
    if (!consistent) { ensuresThrows("different heights are refused", [&]() { etools::concatenateMatricesHorizontally(out, m[0], m[1], m[2]); }); }
    else
    {
        etools::concatenateMatricesHorizontally(out, m[0], m[1], m[2]);
        MatX e(R, C); long c = 0;
        for (int i = 0; i < 3; ++i) if (rows[i]) { e.middleCols(c, m[i].cols()) = m[i]; c += m[i].cols(); }
        ensures("side by side", eqm(out, e));
    }
    if (rows[0] && rows[1] && rows[0] != rows[1]) { ensuresThrows("different heights of two are refused", [&]() { etools::concatenateMatricesHorizontally(out, m[0], m[1]); }); return; }
    etools::concatenateMatricesHorizontally(out, m[0], m[1]);
    MatX e(std::max(rows[0], rows[1]), m[0].cols() + m[1].cols());
    if (rows[0]) e.leftCols(m[0].cols()) = m[0];
    if (rows[1]) e.rightCols(m[1].cols()) = m[1];
    ensures("two side by side", eqm(out, e));
}
CONTRACT(removal, "removeRow, removeColumn")
{
    long r = size("rows", 1, 6, 9), c = size("cols", 1, 5, 7);
    MatX m = symMat("m", r, c), a = m, b = m;
    long i = choose("row", 0, r - 1), j = choose("col", 0, c - 1);
    etools::removeRow(a, i);
    MatX ea(r - 1, c); for (long k = 0; k < r - 1; ++k) ea.row(k) = m.row(k < i ? k : k + 1);
    ensures("exactly that row is gone", eqm(a, ea));
    etools::removeColumn(b, j);
    MatX eb(r, c - 1); for (long k = 0; k < c - 1; ++k) eb.col(k) = m.col(k < j ? k : k + 1);
    ensures("exactly that column is gone", eqm(b, eb));
    MatX d = m;
    ensuresThrows("a row that does not exist is refused", [&]() { etools::removeRow(d, r); });
    ensuresThrows("a row far outside is refused", [&]() { etools::removeRow(d, r + 5); });
    ensuresThrows("a column that does not exist is refused", [&]() { etools::removeColumn(d, c); });
    ensuresThrows("a column far outside is refused", [&]() { etools::removeColumn(d, c + 5); });
    ensures("refused removals change nothing", eqm(d, m));
}
CONTRACT(kronecker_identity, "multiplyBlockKroneckerIdentity")
{
    long br = size("br", 1, 4, 6), bc = size("bc", 1, 4, 6), nv = size("nv", 1, 4, 6), nh = size("nh", 1, 4, 6), n = size("identity", 1, 4, 6);
    MatX m = symMat("m", nv * br, nh * bc), k(nv * br * n, nh * bc * n); k.setZero();
    for (long i = 0; i < nv; ++i) for (long j = 0; j < nh; ++j) for (long q = 0; q < n; ++q) k.block((i * n + q) * br, (j * n + q) * bc, br, bc) = m.block(i * br, j * bc, br, bc);
    ensures("every block is repeated on a diagonal", eqm(etools::multiplyBlockKroneckerIdentity(m, br, bc, n), k));
    MatX odd = symMat("o", 3, 3);
    ensuresThrows("blocks that do not fit are refused", [&]() { etools::multiplyBlockKroneckerIdentity(odd, 2, 1, n); });
    ensuresThrows("blocks that do not fit are refused (columns)", [&]() { etools::multiplyBlockKroneckerIdentity(odd, 1, 2, n); });
}
CONTRACT(row_selection, "selectRows, SelectionMatrix")
{
    long r = size("rows", 1, 6, 8), c = size("cols", 1, 5, 8), step = size("step", 1, 4, 6), first = size("first", 0, 6, 8);
    requires_(first < r);
    MatX m = symMat("m", r, c);
    std::vector<long> pick; for (long i = first; i < r; i += step) pick.push_back(i);
    MatX e((long)pick.size(), c); for (std::size_t i = 0; i < pick.size(); ++i) e.row(i) = m.row(pick[i]);
    ensures("every step-th row", eqm(MatX(etools::selectRows(m, step, first)), e));
    ensures("as a product with a selection matrix", eqm(MatX(etools::SelectionMatrix(step, first) * m), e));
    if (first == 0) ensures("from the first row by default", eqm(MatX(etools::selectRows(m, step)), e));
    VecX v = symVec("v", r);
    VecX ev((long)pick.size()); for (std::size_t i = 0; i < pick.size(); ++i) ev(i) = v(pick[i]);
    ensures("of a vector", eqm(MatX(etools::selectRows(v, step, first)), ev));
}
CONTRACT(cross_product, "CrossProductMatrix")
{
    etools::Vector3 v = symVec("v", 3), w = symVec("w", 3);
    etools::CrossProductMatrix c(v);
    etools::Vector3 x; x << v(1) * w(2) - v(2) * w(1), v(2) * w(0) - v(0) * w(2), v(0) * w(1) - v(1) * w(0);
    MatX S = c.eval();
    ensures("evaluated matrix", eqm(S * w, x));
    ensures("static evaluation", eqm(etools::CrossProductMatrix::eval(v), S));
    ensures("product with a vector", eqm(c * w, x));
    Eigen::Matrix<Real, 2, 3> l = symMat("l", 2, 3);
    ensures("matrix times the cross product matrix", eqm(l * c, l * S));
    etools::Vector3 r = symVec("r", 3); Eigen::Matrix<Real, 2, 3> r2 = symMat("r2", 2, 3);
    c.multiplyRight(r, w); ensures("right product", eqm(r, x));
    c.multiplyLeft(r2, l); ensures("left product", eqm(r2, l * S));
}
CONTRACT(named_sizes, "matrix typedefs")
{
    ensures("square", etools::Matrix2::RowsAtCompileTime == 2 && etools::Matrix2::ColsAtCompileTime == 2 && etools::Matrix3::RowsAtCompileTime == 3 && etools::Matrix6::ColsAtCompileTime == 6);
#define SZ(r, c) ensures("Matrix" #r "x" #c, etools::Matrix##r##x##c::RowsAtCompileTime == r && etools::Matrix##r##x##c::ColsAtCompileTime == c);
#define ROWS(c) SZ(1, c)
    SZ(1, 2) SZ(1, 3) SZ(1, 4) SZ(1, 5) SZ(1, 6) SZ(1, 7) SZ(1, 8) SZ(1, 9) SZ(1, 10)
    SZ(2, 3) SZ(2, 4) SZ(2, 5) SZ(2, 6) SZ(2, 7) SZ(2, 8) SZ(2, 9) SZ(2, 10)
    SZ(3, 2) SZ(3, 4) SZ(3, 5) SZ(3, 6) SZ(3, 7) SZ(3, 8) SZ(3, 9) SZ(3, 10)
    SZ(4, 2) SZ(4, 3) SZ(4, 5) SZ(4, 6) SZ(4, 7) SZ(4, 8) SZ(4, 9) SZ(4, 10)
    SZ(5, 2) SZ(5, 3) SZ(5, 4) SZ(5, 6) SZ(5, 7) SZ(5, 8) SZ(5, 9) SZ(5, 10)
    SZ(6, 2) SZ(6, 3) SZ(6, 4) SZ(6, 5) SZ(6, 7) SZ(6, 8) SZ(6, 9) SZ(6, 10)
    SZ(7, 2) SZ(7, 3) SZ(7, 4) SZ(7, 5) SZ(7, 6) SZ(7, 8) SZ(7, 9) SZ(7, 10)
    SZ(8, 2) SZ(8, 3) SZ(8, 4) SZ(8, 5) SZ(8, 6) SZ(8, 7) SZ(8, 9) SZ(8, 10)
    SZ(9, 2) SZ(9, 3) SZ(9, 4) SZ(9, 5) SZ(9, 6) SZ(9, 7) SZ(9, 8) SZ(9, 10)
    SZ(10, 2) SZ(10, 3) SZ(10, 4) SZ(10, 5) SZ(10, 6) SZ(10, 7) SZ(10, 8) SZ(10, 9)
#undef SZ
#define SZ(n) ensures("Vector" #n, etools::Vector##n::RowsAtCompileTime == n && etools::Vector##n::ColsAtCompileTime == 1 );
    SZ(2) SZ(3) SZ(4) SZ(5) SZ(6) SZ(7) SZ(8) SZ(9) SZ(10)
}
