// PROPERTY C17
#include "tasks_common.h"
#include "humoto/kktsolver.h"
using namespace vp;
typedef humoto::kktsolver::SolverParameters Par;

// Optimality conditions of  min 1/2 |Ao x - bo|^2  s.t.  Ac x = bc  at the returned x:
//   feasibility  Ac x = bc   and   every feasible direction is stationary:  for all d, Ac d = 0 -> d' (H x + g) = 0
struct Kkt { MatX Ao, Ac; VecX bo, bc; };
// Lagrange multipliers certifying stationarity: found by the solver call (symbolic) or computed here (concrete)
static VecX multipliers(const Kkt &k, const VecX &r)
{
    long n = r.size(), m = k.Ac.rows();
#ifdef VP_CONCRETE
    (void)n; (void)m;
    return -k.Ac.transpose().colPivHouseholderQr().solve(r);
#else
    if (lastSolve().rows() == n + m) return lastSolve().col(0).tail(m);
    return VecX(-lastSolve().col(0).tail(m));
#endif
}
static void checkOptimal(const Kkt &k, const VecX &x, const VecX &reg)
{
    if (k.Ac.rows() > 0) ensures("equality constraints hold at the solution", eqm(k.Ac * x, k.bc));
    VecX r = k.Ao.transpose() * (k.Ao * x - k.bo) + reg.asDiagonal() * x;
    if (k.Ac.rows() == 0) ensures("gradient vanishes at the solution", eqm(r, 0));
    else ensures("gradient is in the range of the constraints", eqm(r, -(k.Ac.transpose() * multipliers(k, r))));
}

static Real det(const MatX &m)
{
    if (m.rows() == 1) return m(0, 0);
    Real s = Real(0);
    for (long j = 0; j < m.cols(); ++j)
    {
        MatX c(m.rows() - 1, m.cols() - 1);
        for (long i = 1; i < m.rows(); ++i) for (long k = 0, q = 0; k < m.cols(); ++k) if (k != j) c(i - 1, q++) = m(i, k);
        s = s + (j % 2 ? Real(-1) : Real(1)) * m(0, j) * det(c);
    }
    return s;
}

CONTRACT(direct_solution, "kktsolver::Solver::{initialize,solveHierarchy,solveDirect}, Solver::solve (LU)")
{
    long n = size("variables", 1, 3, 4), levels = choose("levels", 1, 2), mc = levels == 2 ? choose("constraints", 1, n) : 0, mo = size("objectives", 1, 2, 4);
    PublicProblem p; p.reset(levels);
    Sizes zo = {mo, n, 0, n}, zc = {mc, n, 0, n};
    AnyTask o = makeTask(3, "o", zo, false), c = makeTask(3, "c", zc, false);
    if (levels == 2) p.pushTask(c.task, 0);
    p.pushTask(o.task, levels - 1);
    humoto::Solution sol; DummyModel m; DummyProblem cp(n);
    p.form(sol, m, cp);
    Kkt k = {o.spec().A, levels == 2 ? c.spec().A : MatX(0, n), o.spec().lb, levels == 2 ? c.spec().lb : VecX(0)};
    // the problem has one solution: the KKT matrix is regular
    MatX K = MatX::Zero(n + mc, n + mc);
    K.topLeftCorner(n, n) = k.Ao.transpose() * k.Ao; if (mc) { K.topRightCorner(n, mc) = k.Ac.transpose(); K.bottomLeftCorner(mc, n) = k.Ac; }
    if (concreteMode()) requires_(gt(det(K) * det(K), Real(0.01)));
    Par par; par.solution_method_ = choose("method", 0, 1) ? Par::QR : Par::LU;
    humoto::kktsolver::Solver s(par);
    s.solve(sol, p);
    ensures("status is ok", sol.return_status_ == humoto::SolverStatus::OK);
    ensures("one value per variable", sol.x_.size() == n);
    checkOptimal(k, sol.x_, VecX::Zero(n));
}

CONTRACT(elimination_solution, "kktsolver::Solver::solveWithElimination")
{
    // objectives on single variables (diagonal Hessian)
    long n = size("variables", 1, 4, 6), levels = choose("levels", 1, 2), mc = levels == 2 ? choose("constraints", 1, n) : 0;
    long type = choose("type", 0, 2), T[] = {13, 18, 14};
    PublicProblem p; p.reset(levels);
    Sizes zo = {2, n, 0, n}, zc = {mc, n, 0, n};
    AnyTask o = makeTask(T[type], "o", zo, false), c = makeTask(3, "c", zc, false);
    if (levels == 2) p.pushTask(c.task, 0);
    p.pushTask(o.task, levels - 1);
    humoto::Solution sol; DummyModel m; DummyProblem cp(n);
    p.form(sol, m, cp);
    Kkt k = {o.spec().A, levels == 2 ? c.spec().A : MatX(0, n), o.spec().lb, levels == 2 ? c.spec().lb : VecX(0)};
    if (mc && concreteMode()) requires_(gt(det(k.Ac * k.Ac.transpose()), Real(0.01)));
    Par par; par.solution_method_ = Par::CONSTRAINT_ELIMINATION_LLT;
    par.elimination_regularization_factor_ = sym("regularization", 0.1, 1);
    requires_(ge(par.elimination_regularization_factor_, Real(0.1)));
    VecX reg(n); reg.setConstant(par.elimination_regularization_factor_);
    humoto::kktsolver::Solver s; s.setParameters(par);
    s.solve(sol, p);
    ensures("status is ok", sol.return_status_ == humoto::SolverStatus::OK);
    checkOptimal(k, sol.x_, reg);
}

CONTRACT(refusals, "kktsolver::Solver::solveHierarchy, QPConstraints_AB::initializeConstraints")
{
    long n = 2;
    PublicProblem p; p.reset(2);
    Sizes z = {1, n, 0, n};
    long type = choose("type", 0, N_TASK_TYPES - 1);
    AnyTask c = makeTask(type, "c", z, false), o = makeTask(3, "o", z, false);
    p.pushTask(c.task, 0); p.pushTask(o.task, 1);
    humoto::Solution sol; DummyModel m; DummyProblem cp(n);
    p.form(sol, m, cp);
    long method = choose("method", 0, 1);
    Par par; par.solution_method_ = method == 0 ? Par::UNDEFINED : Par::CONSTRAINT_ELIMINATION_LLT;
    humoto::kktsolver::Solver s(par);
    if (method == 0) ensuresThrows("no method: refused", [&]() { s.solve(sol, p); });
    else if (!c.spec().equality) ensuresThrows("inequalities: refused", [&]() { s.solve(sol, p); });
    else ensuresThrows("elimination with a general objective: refused", [&]() { s.solve(sol, p); });
}

CONTRACT(solver_reuse, "kktsolver::Solver::initialize")
{
    // a solver that solved a constrained problem solves the next, unconstrained one as if it were new
    long n = 2;
    Sizes z2 = {2, n, 0, n}, z1 = {1, n, 0, n};
    PublicProblem a, b; a.reset(2); b.reset(1);
    AnyTask ac = makeTask(3, "ac", z1, false), ao = makeTask(3, "ao", z2, false), bo = makeTask(3, "bo", z2, false);
    a.pushTask(ac.task, 0); a.pushTask(ao.task, 1); b.pushTask(bo.task, 0);
    humoto::Solution sa, sb, sf; DummyModel m; DummyProblem cp(n);
    a.form(sa, m, cp); b.form(sb, m, cp); b.form(sf, m, cp);
    if (concreteMode()) requires_(land({ge(det(bo.spec().A), Real(0.1)), ge(det(ao.spec().A), Real(0.1)), ge(ac.spec().A(0, 0), Real(0.1))}));
    humoto::kktsolver::Solver s;
    s.solve(sa, a);
    s.solve(sb, b);
    ensures("solution of the new problem", eqm(bo.spec().A.transpose() * bo.spec().A * sb.x_, bo.spec().A.transpose() * bo.spec().lb));
}
