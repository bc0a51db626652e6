// PROPERTY C15
#include "vp_eigen.h"
#include "humoto/humoto.h"
using namespace vp;
enum { D = etools::MatrixBlockSizeType::DYNAMIC };
typedef etools::MatrixSparsityType SP;
static long dyn(int t, long n) { return t == D ? n : 0; }
static std::string at(const char *s, long i, long j) { return std::string(s) + " " + std::to_string(i) + "," + std::to_string(j); }
static void clear(MatX &m, SP::Type s, long br, long bc)       // zero blocks of the declared sparsity
{
    for (long i = 0; i < m.rows() / br; ++i) for (long j = 0; j < m.cols() / bc; ++j)
        if ((s == SP::DIAGONAL && i != j) || (s == SP::LEFT_LOWER_TRIANGULAR && j > i)) m.block(i * br, j * bc, br, bc).setZero();
}
template <class B> static Formula is(const B &b, const MatX &m) { return eqm(b, m); }
static Formula is(const Real &b, const MatX &m) { return land({Formula(m.rows() == 1 && m.cols() == 1), eq(b, m(0, 0))}); }
template <class B> static void put(B &&b, const MatX &m) { b = m; }
static void put(Real &b, const MatX &m) { b = m(0, 0); }

// ---- access
template <class BM> static void described(const char *what, BM &b, const MatX &m, long br, long bc)
{
    const BM &c = b;
    long nv = m.rows() / br, nh = m.cols() / bc;
    std::string w = what;
    ensures(w + ": dimensions", c.getNumberOfBlocksVertical() == nv && c.getNumberOfBlocksHorizontal() == nh && c.getNumberOfRows() == m.rows() && c.getNumberOfColumns() == m.cols() &&
                                c.getBlockRowsNum() == br && c.getBlockColsNum() == bc);
    ensures(w + ": contents", eqm(MatX(c.getRaw()), m));
    for (long i = 0; i < nv; ++i) for (long j = 0; j < nh; ++j) ensures(at("block", i, j), land({is(c(i, j), m.block(i * br, j * bc, br, bc)), is(b(i, j), m.block(i * br, j * bc, br, bc))}));
    for (long i = 0; i < nv && i < nh; ++i) ensures(at("diagonal block", i, i), land({is(c(i), m.block(i * br, i * bc, br, bc)), is(b(i), m.block(i * br, i * bc, br, bc))}));
    for (long j = 0; j < nh; ++j) for (long f = 0; f < nv; ++f)
    {
        ensures(at("column from", j, f), land({eqm(MatX(c.column(j, f)), m.block(f * br, j * bc, (nv - f) * br, bc)), eqm(MatX(b.column(j, f)), m.block(f * br, j * bc, (nv - f) * br, bc))}));
        for (long n = 1; f + n <= nv; ++n) ensures(at("part of a column", j, f), land({eqm(MatX(c.column(j, f, n)), m.block(f * br, j * bc, n * br, bc)), eqm(MatX(b.column(j, f, n)), m.block(f * br, j * bc, n * br, bc))}));
    }
    for (long i = 0; i < nv; ++i) for (long f = 0; f < nh; ++f)
    {
        ensures(at("row from", i, f), land({eqm(MatX(c.row(i, f)), m.block(i * br, f * bc, br, (nh - f) * bc)), eqm(MatX(b.row(i, f)), m.block(i * br, f * bc, br, (nh - f) * bc))}));
        for (long n = 1; f + n <= nh; ++n) ensures(at("part of a row", i, f), land({eqm(MatX(c.row(i, f, n)), m.block(i * br, f * bc, br, n * bc)), eqm(MatX(b.row(i, f, n)), m.block(i * br, f * bc, br, n * bc))}));
    }
    if (nv && nh) ensures(w + ": whole column and row", land({eqm(MatX(c.column(nh - 1)), m.rightCols(bc)), eqm(MatX(c.row(nv - 1)), m.bottomRows(br))}));
}
template <int R, int C> static void access(long br, long bc)
{
    long nv = size("vertical", 0, 5, 7), nh = size("horizontal", 0, 4, 6);
    MatX m = symMat("m", nv * br, nh * bc);
    typedef etools::GenericBlockMatrix<R, C> B;
    B b(m, dyn(R, br), dyn(C, bc));
    described("constructed", b, m, br, bc);
    B s(dyn(R, br), dyn(C, bc));
    s.set(m);
    described("set", s, m, br, bc);
    if (nv && nh)
    {
        long i = choose("row", 0, nv - 1), j = choose("column", 0, nh - 1);
        MatX v = symMat("v", br, bc), e = m;
        e.block(i * br, j * bc, br, bc) = v;
        put(b(i, j), v);
        ensures("writing a block changes that block only", eqm(b.getRaw(), e));
        B c2 = s;
        MatX cv = symMat("cv", nv * br, bc), rv = symMat("rv", br, nh * bc);
        c2.column(j) = cv; e = m; e.middleCols(j * bc, bc) = cv;
        ensures("writing a column changes that column only", eqm(c2.getRaw(), e));
        c2 = s; c2.row(i) = rv; e = m; e.middleRows(i * br, br) = rv;
        ensures("writing a row changes that row only", eqm(c2.getRaw(), e));
        for (long k = 0; k < br; ++k)
        {
            MatX sel(nv, nh * bc);
            for (long r = 0; r < nv; ++r) sel.row(r) = m.row(r * br + k);
            ensures("selection of a row in each block", eqm(MatX(s.selectRowInBlocksAsMatrix(k)), sel));
            auto map = s.selectRowInBlocks(k);
            ensures("selection of a row in each block, as a block matrix", eqm(MatX(map.getRaw()), sel));
            ensures("selection of a row in each block keeps the columns of blocks", map.getNumberOfBlocksVertical() == nv && map.getNumberOfBlocksHorizontal() == nh && map.getBlockRowsNum() == 1 && map.getBlockColsNum() == bc);
        }
    }
    s.setZero(nh, nv);
    MatX z(nh * br, nv * bc); z.setZero();
    described("zeroed", s, z, br, bc);
    s.resize(nv);
    ensures("square resize", s.getNumberOfRows() == nv * br && s.getNumberOfColumns() == nv * bc && s.getRaw().rows() == nv * br && s.getRaw().cols() == nv * bc && s.getNumberOfBlocksHorizontal() == nv && s.getNumberOfBlocksVertical() == nv);
    s.setZero(nh);
    ensures("square of zeros", eqm(s.getRaw(), MatX(MatX::Zero(nh * br, nh * bc))));
    MatX odd(nv * br + 1, nh * bc); odd.setZero();
    if (br > 1) ensuresThrows("rows that do not fill the blocks are refused", [&]() { s.set(odd); });
    MatX oddc(nv * br, nh * bc + 1); oddc.setZero();
    if (bc > 1) ensuresThrows("columns that do not fill the blocks are refused", [&]() { B x(oddc, dyn(R, br), dyn(C, bc)); });
}
CONTRACT(access_static, "BlockMatrixAccessBase::{set,resize,setZero,column,row,getRaw,selectRowInBlocksAsMatrix}, BlockMatrixSizeSpecificBase::operator(), BlockMatrix::selectRowInBlocks") { access<2, 1>(2, 1); }
CONTRACT(access_static_wide, "BlockMatrixSizeSpecificBase::operator() (static size)") { access<1, 2>(1, 2); }
CONTRACT(access_dynamic, "BlockMatrixSizeSpecificBase<DYNAMIC,DYNAMIC>::operator()") { access<D, D>(size("br", 1, 4, 6), size("bc", 1, 4, 6)); }
CONTRACT(access_dynamic_columns, "BlockMatrixSizeSpecificBase<n,DYNAMIC>::operator()") { access<2, D>(2, size("bc", 1, 4, 6)); }
CONTRACT(access_dynamic_rows, "BlockMatrixSizeSpecificBase<DYNAMIC,n>::operator()") { access<D, 2>(size("br", 1, 4, 6), 2); }
CONTRACT(access_scalar, "BlockMatrixSizeSpecificBase<1,1>::operator()") { access<1, 1>(1, 1); }
CONTRACT(block_size, "BlockMatrixAccessBase::{setBlockSize,initializeBlockSize,finalize}, BlockMatrixInterface, ConstBlockMatrixInterface")
{
    MatX m = symMat("m", 4, 6);
    etools::GenericBlockMatrix<D, D> b;
    b.set(m);
    b.setBlockSize(2, 3); described("first block size", b, m, 2, 3);
    b.setBlockSize(4, 2); described("second block size", b, m, 4, 2);
    ensuresThrows("a block size that does not divide the matrix is refused", [&]() { b.setBlockSize(3, 2); });
    ensuresThrows("a block size that does not divide the matrix is refused (columns)", [&]() { b.setBlockSize(2, 4); });
    ensuresThrows("zero block size is refused", [&]() { b.setBlockSize(0, 2); });
    ensuresThrows("zero block size is refused (columns)", [&]() { b.setBlockSize(2, 0); });
    typedef etools::GenericBlockMatrix<2, 3> S;
    ensuresThrows("static blocks have no run time size", [&]() { S s(m, 2, 0); });
    ensuresThrows("static blocks have no run time size (columns)", [&]() { S s(m, 0, 3); });
    etools::BlockMatrixInterface<2, 3, SP::NONE> w(m);
    described("view", w, m, 2, 3);
    MatX v = symMat("v", 2, 3), e = m; e.block(2, 0, 2, 3) = v;
    w(1, 0) = v;
    ensures("writing through a view writes the viewed matrix", eqm(m, e));
    const etools::ConstBlockMatrixInterface<D, 2, SP::NONE> c(m, 2);
    ensures("constant view", land({eqm(MatX(c(1, 2)), m.block(2, 4, 2, 2)), eqm(MatX(c.getRaw()), m)}));
}
// ---- products
template <int R, int C, SP::Type S> struct Mk { typedef etools::BlockMatrix<R, C, S> T; };
template <class BL> static void products(const char *what, const BL &l, const MatX &lm)
{
    std::string w = what;
    MatX x = symMat("x", lm.cols(), size("right_cols", 0, 4, 6));
    MatX r = symMat("old", 1, 2), e = lm * x;
    l.multiplyRight(r, x);
    ensures(w + " times a matrix", eqm(r, e));
    ensures(w + " times a matrix (operator)", eqm(l * x, e));
    VecX v = symVec("v", lm.cols());
    VecX rv = symVec("oldv", 1);
    l.multiplyRight(rv, v);
    ensures(w + " times a vector", eqm(rv, lm * v));
    ensures(w + " is not changed by products", eqm(MatX(l.getRaw()), lm));
}
template <int R, int C, SP::Type S> static void rightProducts(long br, long bc)
{
    long nv = size("vertical", 1, 5, 7), nh = S == SP::DIAGONAL ? nv : S == SP::NONE ? size("horizontal", 1, 4, 6) : choose("horizontal", 1, nv);
    MatX m = symMat("m", nv * br, nh * bc); clear(m, S, br, bc);
    typename Mk<R, C, S>::T b(m, dyn(R, br), dyn(C, bc));
    products(S == SP::DIAGONAL ? "diagonal" : S == SP::NONE ? "generic" : "triangular", b, m);
}
template <SP::Type S> static void rightProductsAll()
{
    switch (choose("kind", 0, 4))
    {
        case 0: rightProducts<2, 1, S>(2, 1); break;
        case 1: rightProducts<1, 2, S>(1, 2); break;
        case 2: rightProducts<D, D, S>(size("br", 1, 4, 6), size("bc", 1, 4, 6)); break;
        case 3: rightProducts<2, D, S>(2, 2); break;
        case 4: rightProducts<D, 1, S>(2, 1); break;
    }
}
CONTRACT(product_generic, "BlockMatrixBase<NONE>::multiplyRight, operator*(BlockMatrixBase,MatrixBase)") { rightProductsAll<SP::NONE>(); }
CONTRACT(product_diagonal, "BlockMatrixBase<DIAGONAL>::multiplyRight, operator*(BlockMatrixBase,MatrixBase)") { rightProductsAll<SP::DIAGONAL>(); }
CONTRACT(product_triangular, "BlockMatrixBase<LEFT_LOWER_TRIANGULAR>::multiplyRight, operator*(BlockMatrixBase,MatrixBase)") { rightProductsAll<SP::LEFT_LOWER_TRIANGULAR>(); }
CONTRACT(product_scalar_blocks, "BlockMatrixBase<1,1,LEFT_LOWER_TRIANGULAR>::multiplyRight, BlockMatrixBase<1,1,NONE>::multiplyRight")
{
    if (choose("triangular", 0, 1)) rightProducts<1, 1, SP::LEFT_LOWER_TRIANGULAR>(1, 1); else rightProducts<1, 1, SP::NONE>(1, 1);
}
template <int R, int C> static void leftDiagonal(long br, long bc)
{
    long n = size("blocks", 1, 5, 7);
    MatX m = symMat("m", n * br, n * bc); clear(m, SP::DIAGONAL, br, bc);
    etools::DiagonalBlockMatrix<R, C> d(m, dyn(R, br), dyn(C, bc));
    MatX x = symMat("x", size("rows", 0, 4, 6), n * br), r = symMat("old", 1, 2);
    d.multiplyLeft(r, x);
    ensures("a matrix times a diagonal one", eqm(r, x * m));
    MatX bad = symMat("bad", 1, n * br + 1), badr = symMat("badr", n * bc + 1, 1);
    ensuresThrows("sizes that do not match are refused", [&]() { d.multiplyLeft(r, bad); });
    ensuresThrows("sizes that do not match are refused (right)", [&]() { d.multiplyRight(r, badr); });
}
CONTRACT(product_left_diagonal, "BlockMatrixBase<DIAGONAL>::multiplyLeft")
{
    switch (choose("kind", 0, 3))
    {
        case 0: leftDiagonal<2, 1>(2, 1); break;
        case 1: leftDiagonal<1, 2>(1, 2); break;
        case 2: leftDiagonal<D, D>(size("br", 1, 4, 6), size("bc", 1, 4, 6)); break;
        case 3: leftDiagonal<D, 2>(3, 2); break;
    }
}
CONTRACT(product_block_block, "operator*(BlockMatrixBase,BlockMatrixBase<DIAGONAL>), BlockMatrixBase<DIAGONAL>::multiplyRight(BlockMatrixBase)")
{
    long n = size("blocks", 1, 5, 7);
    MatX g = symMat("g", 2 * 1, n * 2), t = symMat("t", n * 1, n * 2), d = symMat("d", n * 2, n * 1), d2 = symMat("e", n * 1, n * 3);
    clear(t, SP::LEFT_LOWER_TRIANGULAR, 1, 2); clear(d, SP::DIAGONAL, 2, 1); clear(d2, SP::DIAGONAL, 1, 3);
    etools::GenericBlockMatrix<1, 2> G(g); etools::LeftLowerTriangularBlockMatrix<1, 2> T(t); etools::DiagonalBlockMatrix<2, 1> E(d); etools::DiagonalBlockMatrix<1, 3> E2(d2);
    ensures("generic times diagonal", eqm(G * E, g * d));
    ensures("triangular times diagonal", eqm(T * E, t * d));
    ensures("diagonal times diagonal", eqm(E * E2, d * d2));
    MatX r = symMat("old", 1, 1);
    E.multiplyRight(r, T);
    ensures("diagonal times triangular", eqm(r, d * t));
    MatX dd = symMat("dd", n * 2, n * 2), gg = symMat("gg", n * 2, 2); clear(dd, SP::DIAGONAL, 2, 2);
    etools::DiagonalBlockMatrix<D, D> DD(dd, 2, 2); etools::GenericBlockMatrix<D, D> GG(gg, 2, 1);
    DD.multiplyRight(r, GG);
    ensures("diagonal times generic", eqm(r, dd * gg));
}
// ---- Kronecker products: every block is repeated along the diagonal of an identity_size x identity_size block
static MatX kron(const MatX &m, long br, long bc, long n)
{
    MatX k(m.rows() * n, m.cols() * n); k.setZero();
    for (long i = 0; i < m.rows() / br; ++i) for (long j = 0; j < m.cols() / bc; ++j) for (long q = 0; q < n; ++q)
        k.block((i * n + q) * br, (j * n + q) * bc, br, bc) = m.block(i * br, j * bc, br, bc);
    return k;
}
template <class K> static void evaluated(const K &k, const MatX &e)
{
    ensures("evaluation", eqm(k.evaluate(), e));
    MatX o = symMat("old", 2, 3);
    k.evaluate(o);
    ensures("evaluation into a matrix", eqm(o, e));
    MatX big = symMat("big", e.rows() + 2, e.cols() + 1), x = big;
    x.block(1, 1, e.rows(), e.cols()) = e;
    k.evaluate(big.block(1, 1, e.rows(), e.cols()));
    ensures("evaluation into a block touches nothing else", eqm(big, x));
}
template <class K, int DR, int DC> static void timesDiagonal(const K &k, const MatX &e, long blocks, long dr, long dc)
{
    MatX dm = symMat("d", blocks * dr, blocks * dc); clear(dm, SP::DIAGONAL, dr, dc);
    etools::DiagonalBlockMatrix<DR, DC> d(dm, dyn(DR, dr), dyn(DC, dc));
    MatX r = symMat("oldr", 1, 2);
    k.multiplyRight(r, d);
    ensures("times a diagonal matrix", eqm(r, e * dm));
    ensures("times a diagonal matrix (operator)", eqm(k * d, e * dm));
    MatX wm = symMat("w", (blocks + 1) * dr, (blocks + 1) * dc); clear(wm, SP::DIAGONAL, dr, dc);
    etools::DiagonalBlockMatrix<DR, DC> w(wm, dyn(DR, dr), dyn(DC, dc));
    ensuresThrows("sizes that do not match are refused", [&]() { k.multiplyRight(r, w); });
}
template <class K> static void timesVector(const K &k, const MatX &e)
{
    VecX v = symVec("v", e.cols()), r = symVec("oldv", 1);
    k.multiplyRight(r, v);
    ensures("times a vector", eqm(r, e * v));
    VecX o = k * v;
    ensures("times a vector (operator)", eqm(o, e * v));
}
template <int R, int C, SP::Type S> static void kronecker(long br, long bc, long n, MatX &m, MatX &e)
{
    long nv = size("vertical", 1, 5, 8), nh = S == SP::DIAGONAL ? nv : S == SP::NONE ? size("horizontal", 1, 4, 6) : choose("horizontal", 1, nv);
    m = symMat("m", nv * br, nh * bc); clear(m, S, br, bc);
    e = kron(m, br, bc, n);
}
template <int R, int C> static void kroneckerGeneric(long br, long bc)
{
    const long n = size("identity", 2, 4, 6);
    MatX m, e; kronecker<R, C, SP::NONE>(br, bc, n, m, e);
    typedef etools::GenericBlockKroneckerProduct<R, C> K;
    K k(m, n, dyn(R, br), dyn(C, bc));
    evaluated(k, e); timesVector(k, e);
    if (n == 2) timesDiagonal<K, 2 * (C > 0 ? C : 1), 1>(k, e, m.cols() / bc, bc * n, 1);
    timesDiagonal<K, D, D>(k, e, m.cols() / bc, bc * n, 2);
    etools::GenericBlockMatrix<R, C> b(m, dyn(R, br), dyn(C, bc));
    ensures("product of a block matrix with identity", eqm(b.getBlockKroneckerProduct(n).evaluate(), e));
    ensuresThrows("identity of size one is refused", [&]() { K bad(m, 1, dyn(R, br), dyn(C, bc)); });
}
template <int R, int C> static void kroneckerDiagonal(long br, long bc)
{
    const long n = size("identity", 2, 4, 6);
    MatX m, e; kronecker<R, C, SP::DIAGONAL>(br, bc, n, m, e);
    typedef etools::DiagonalBlockKroneckerProduct<R, C> K;
    K k(m, n, dyn(R, br), dyn(C, bc));
    evaluated(k, e); timesVector(k, e);
    timesDiagonal<K, D, D>(k, e, m.cols() / bc, bc * n, 2);
}
template <int R, int C> static void kroneckerTriangular(long br, long bc)
{
    const long n = size("identity", 2, 4, 6);
    MatX m, e; kronecker<R, C, SP::LEFT_LOWER_TRIANGULAR>(br, bc, n, m, e);
    typedef etools::LeftLowerTriangularBlockKroneckerProduct<R, C> K;
    K k(m, n, dyn(R, br), dyn(C, bc));
    evaluated(k, e);
    if (n == 2) timesDiagonal<K, 2 * (C > 0 ? C : 1), 1>(k, e, m.cols() / bc, bc * n, 1);
    timesDiagonal<K, D, D>(k, e, m.cols() / bc, bc * n, 2);
    etools::LeftLowerTriangularBlockMatrix<R, C> b(m, dyn(R, br), dyn(C, bc));
    ensures("product of a block matrix with identity", eqm(b.getBlockKroneckerProduct(n).evaluate(), e));
}
CONTRACT(kronecker_generic, "BlockKroneckerProductBase<NONE>::{evaluate,multiplyRight}, operator*, BlockMatrix::getBlockKroneckerProduct")
{
    switch (choose("kind", 0, 2)) { case 0: kroneckerGeneric<2, 1>(2, 1); break; case 1: kroneckerGeneric<1, 2>(1, 2); break; default: kroneckerGeneric<D, D>(2, 1); break; }
}
CONTRACT(kronecker_diagonal, "BlockKroneckerProductBase<DIAGONAL>::{evaluate,multiplyRight}")
{
    switch (choose("kind", 0, 2)) { case 0: kroneckerDiagonal<2, 1>(2, 1); break; case 1: kroneckerDiagonal<1, 2>(1, 2); break; default: kroneckerDiagonal<1, 1>(1, 1); break; }
}
CONTRACT(kronecker_triangular, "BlockKroneckerProductBase<LEFT_LOWER_TRIANGULAR>::{evaluate,multiplyRight}, operator*, BlockMatrix::getBlockKroneckerProduct")
{
    switch (choose("kind", 0, 2)) { case 0: kroneckerTriangular<2, 1>(2, 1); break; case 1: kroneckerTriangular<1, 2>(1, 2); break; default: kroneckerTriangular<D, D>(2, 1); break; }
}
CONTRACT(kronecker_scalar, "BlockKroneckerProductBase<1,1,*>::{evaluate,multiplyRight,multiplyLeft}, operator*")
{
    switch (choose("kind", 0, 1))
    {
        case 0: kroneckerGeneric<1, 1>(1, 1); return;
        case 1: kroneckerTriangular<1, 1>(1, 1); break;
    }
    MatX m = symMat("s", 2, 2); clear(m, SP::LEFT_LOWER_TRIANGULAR, 1, 1);
    etools::LeftLowerTriangularBlockKroneckerProduct<1, 1> k(m, 2);
    MatX dm = symMat("dl", 4, 4), r = symMat("rl", 1, 1); clear(dm, SP::DIAGONAL, 2, 2);
    etools::DiagonalBlockMatrix<2, 2> d(dm);
    k.multiplyLeft(r, d);
    ensures("diagonal times triangular product", eqm(r, dm * kron(m, 1, 1, 2)));
    ensures("diagonal times triangular product (operator)", eqm(d * k, dm * kron(m, 1, 1, 2)));
}
