// Prelude of every contract file: third-party headers first (untouched), then the scalar substitution for /repo's headers.
#pragma once
#include "vp.h"
#include <boost/shared_ptr.hpp>
#include <boost/lexical_cast.hpp>
#include <boost/math/special_functions/fpclassify.hpp>
#include <boost/utility/enable_if.hpp>
#include <boost/mpl/has_xxx.hpp>
#include <boost/mpl/and.hpp>
#ifdef VP_CONCRETE
#include <Eigen/Core>
#include <Eigen/Geometry>
#include <Eigen/LU>
#include <Eigen/QR>
#include <Eigen/Cholesky>
#include <Eigen/SVD>
#else
#include <Eigen/Core>
namespace Eigen
{
    template <> struct NumTraits<vp::Real> : GenericNumTraits<vp::Real>
    {
        typedef vp::Real Real;
        typedef vp::Real NonInteger;
        typedef vp::Real Nested;
        typedef double Literal;
        enum { IsComplex = 0, IsInteger = 0, IsSigned = 1, RequireInitialization = 1, ReadCost = 10, AddCost = 10, MulCost = 10 };
        static inline Real epsilon() { return vp::Real(2.220446049250313e-16); }
        static inline Real dummy_precision() { return vp::Real(1e-12); }
        static inline Real highest() { return vp::Real(1e308); }
        static inline Real lowest() { return vp::Real(-1e308); }
        static inline int digits10() { return 15; }
    };
    template <typename BinaryOp> struct ScalarBinaryOpTraits<vp::Real, double, BinaryOp> { typedef vp::Real ReturnType; };
    template <typename BinaryOp> struct ScalarBinaryOpTraits<double, vp::Real, BinaryOp> { typedef vp::Real ReturnType; };
}
#include <Eigen/Geometry>
#include <Eigen/LU>
#include <Eigen/QR>
#include <Eigen/Cholesky>
#include <Eigen/SVD>
namespace vp
{
    // assumed contract of the linear solvers of Eigen: solve(b) of a regular matrix M is the s with M s = b
    typedef Eigen::Matrix<Real, Eigen::Dynamic, Eigen::Dynamic> SolverMat;
    inline SolverMat &lastSolve() { static SolverMat s; return s; }
    struct AssumedSolver
    {
        SolverMat m;
        bool symmetric;
        template <class B> SolverMat solve(const Eigen::MatrixBase<B> &b0) const
        {
            SolverMat b = b0, s(m.cols(), b.cols());
            if (m.rows() != m.cols() || b.rows() != m.rows()) eigenAssertFailed("dimensions of a linear system", __FILE__, __LINE__);
            if (symmetric) for (long i = 0; i < m.rows(); ++i) for (long j = 0; j < i; ++j) ensures("Cholesky factorisation of a symmetric matrix only", eq(m(i, j), m(j, i)));
            for (long i = 0; i < s.rows(); ++i) for (long j = 0; j < s.cols(); ++j) s(i, j) = Real(mkFresh(Sort::Real, "solved"));
            std::vector<Formula> f;
            for (long i = 0; i < m.rows(); ++i) for (long j = 0; j < b.cols(); ++j)
            {
                Real t = Real(0);
                for (long k = 0; k < m.cols(); ++k) t = t + m(i, k) * s(k, j);
                f.push_back(eq(t, b(i, j)));
            }
            assume(land(f));
            lastSolve() = s;
            return s;
        }
        Eigen::ComputationInfo info() const { return Eigen::Success; }
    };
}
namespace Eigen
{
#define VP_SOLVER(CLASS, SYM)                                                                                                                     \
    template <> class CLASS : public vp::AssumedSolver { public: CLASS() { symmetric = SYM; } template <class B> explicit CLASS(const EigenBase<B> &b) { m = b.derived(); symmetric = SYM; } \
        template <class B> CLASS &compute(const EigenBase<B> &b) { m = b.derived(); return *this; } };
#define VP_COMMA ,
    VP_SOLVER(PartialPivLU<Matrix<vp::Real VP_COMMA Dynamic VP_COMMA Dynamic>>, false)
    VP_SOLVER(FullPivLU<Matrix<vp::Real VP_COMMA Dynamic VP_COMMA Dynamic>>, false)
    VP_SOLVER(ColPivHouseholderQR<Matrix<vp::Real VP_COMMA Dynamic VP_COMMA Dynamic>>, false)
    VP_SOLVER(HouseholderQR<Matrix<vp::Real VP_COMMA Dynamic VP_COMMA Dynamic>>, false)
    VP_SOLVER(FullPivHouseholderQR<Matrix<vp::Real VP_COMMA Dynamic VP_COMMA Dynamic>>, false)
    VP_SOLVER(LLT<Matrix<vp::Real VP_COMMA Dynamic VP_COMMA Dynamic> VP_COMMA Lower>, true)
    VP_SOLVER(LDLT<Matrix<vp::Real VP_COMMA Dynamic VP_COMMA Dynamic> VP_COMMA Lower>, true)
#undef VP_SOLVER
#undef VP_COMMA
}
namespace Eigen
{
#define VP_TD(N, S) typedef Matrix<vp::Real, S, S> VpMatrix##N; typedef Matrix<vp::Real, S, 1> VpVector##N; typedef Matrix<vp::Real, 1, S> VpRowVector##N;
    VP_TD(2d, 2) VP_TD(3d, 3) VP_TD(4d, 4) VP_TD(Xd, Dynamic)
#undef VP_TD
    typedef AngleAxis<vp::Real> VpAngleAxisd;
    typedef Quaternion<vp::Real> VpQuaterniond;
    typedef Rotation2D<vp::Real> VpRotation2Dd;
}
#endif

namespace vp
{
    typedef Eigen::Matrix<Real, Eigen::Dynamic, Eigen::Dynamic> MatX;
    typedef Eigen::Matrix<Real, Eigen::Dynamic, 1> VecX;
    inline std::string idx(const std::string &n, long i) { return n + "_" + std::to_string(i); }
    inline std::string idx(const std::string &n, long i, long j) { return n + "_" + std::to_string(i) + "_" + std::to_string(j); }
    inline VecX symVec(const std::string &n, long s, double lo = -3, double hi = 3) { VecX v(s); for (long i = 0; i < s; ++i) v(i) = sym(idx(n, i), lo, hi); return v; }
    inline MatX symMat(const std::string &n, long r, long c, double lo = -3, double hi = 3) { MatX m(r, c); for (long i = 0; i < r; ++i) for (long j = 0; j < c; ++j) m(i, j) = sym(idx(n, i, j), lo, hi); return m; }
    template <class A, class B> inline Formula eqm(const Eigen::MatrixBase<A> &a0, const Eigen::MatrixBase<B> &b0)
    {
        MatX a = a0, b = b0;
        if (a.rows() != b.rows() || a.cols() != b.cols()) return Formula(false);
        std::vector<Formula> v;
        for (long i = 0; i < a.rows(); ++i) for (long j = 0; j < a.cols(); ++j) v.push_back(eq(a(i, j), b(i, j)));
        return land(v);
    }
    template <class A> inline Formula eqm(const Eigen::MatrixBase<A> &a, double c) { MatX b(a.rows(), a.cols()); b.setConstant(Real(c)); return eqm(a, b); }
    // obligation: calling f raises an exception (of the code's own kind)
    template <class F> inline void ensuresThrows(const std::string &label, F f)
    {
        bool thrown = false;
        try { f(); }
        catch (const EigenAssertFailure &e) { ensures(label + " (own exception, not an Eigen assertion: " + e.what() + ")", false); return; }
        catch (const std::exception &) { thrown = true; }
        ensures(label, thrown);
    }
}

#ifndef VP_CONCRETE
#define double vp::Real
#define MatrixXd VpMatrixXd
#define VectorXd VpVectorXd
#define RowVectorXd VpRowVectorXd
#define Matrix2d VpMatrix2d
#define Matrix3d VpMatrix3d
#define Matrix4d VpMatrix4d
#define Vector2d VpVector2d
#define Vector3d VpVector3d
#define Vector4d VpVector4d
#define RowVector2d VpRowVector2d
#define RowVector3d VpRowVector3d
#define AngleAxisd VpAngleAxisd
#define Quaterniond VpQuaterniond
#define Rotation2Dd VpRotation2Dd
#endif
// a member which is not part of the interface: the statement is checked while the member exists
#define VP_OPTIONAL_MEMBER(NAME)                                                                                       \
    template <class T, class F> auto with_##NAME(T &t, F f, int) -> decltype((void)t.NAME) { f(t.NAME); }              \
    template <class T, class F> void with_##NAME(T &, F, long) {}
#define private public
#define protected public
