// PROPERTY C26
// The solver interfaces against the contracts of the libraries they call (third_party/: arguments recorded, results arbitrary).
#include "tasks_common.h"
#include "humoto/quadprogpp.h"
#include "humoto/qpmad.h"
#include "humoto/qpoases.h"
using namespace vp;
typedef humoto::ConstraintActivationType CAT;
typedef humoto::SolverStatus SS;

struct Hierarchy
{
    PublicProblem p;
    std::vector<AnyTask> cons, obj;
    humoto::Solution sol;
    long n, levels;
    AnyTask &owner(humoto::TaskBase *t) { for (auto &a : cons) if (a.task.get() == t) return a; return obj[0]; }
};
static void bounded(const VecX &v, std::vector<Formula> &f) { for (long i = 0; i < v.size(); ++i) { f.push_back(ge(v(i), -humoto::g_infinity)); f.push_back(le(v(i), humoto::g_infinity)); } }
static void build(Hierarchy &s, const std::string &id, long levels, const std::vector<long> &first, long count, long rows, long objective = 3, const std::vector<long> &second = std::vector<long>())
{
    s.levels = levels;
    s.p.reset(levels);
    Sizes z = {rows, s.n, 0, s.n}, zo = {2, s.n, 0, s.n};
    for (long i = 0; levels == 2 && i < count; ++i)
    {
        std::string name = id + "c" + std::to_string(i);
        const std::vector<long> &types = i && !second.empty() ? second : first;
        s.cons.push_back(makeTask(types[choose(name + "type", 0, (long)types.size() - 1)], name, z, false));
        s.p.pushTask(s.cons.back().task, 0);
    }
    s.obj.push_back(makeTask(objective, id + "o", zo, false));
    s.p.pushTask(s.obj.back().task, levels - 1);
    DummyModel m; DummyProblem cp(s.n);
    s.p.form(s.sol, m, cp);
    // the constraints do not contradict each other
    std::vector<Formula> f;
    for (auto &t : s.cons)
    {
        VecX l = lowerOf(t.spec()), u = upperOf(t.spec());
        bounded(l, f); bounded(u, f);
        for (long i = 0; i < l.size(); ++i) f.push_back(le(l(i), u(i)));
    }
    for (auto &a : s.cons) for (auto &b : s.cons) if (a.spec().simple && b.spec().simple)
        for (long i = 0; i < a.spec().rows(); ++i) for (long j = 0; j < b.spec().rows(); ++j)
            if (holds(eqm(a.spec().A.row(i), b.spec().A.row(j)))) f.push_back(le(lowerOf(a.spec())(i), upperOf(b.spec())(j)));
    if (!f.empty()) requires_(land(f));
}
static std::vector<Formula> stated(const Hierarchy &s, const VecX &x)
{
    std::vector<Formula> f;
    for (auto &t : s.cons) for (long i = 0; i < t.spec().rows(); ++i) { Real p = (t.spec().A.row(i) * x)(0); f.push_back(ge(p, lowerOf(t.spec())(i))); f.push_back(le(p, upperOf(t.spec())(i))); }
    return f;
}
static MatX hessian(const Hierarchy &s) { return s.obj[0].spec().A.transpose() * s.obj[0].spec().A; }
static VecX gradient(const Hierarchy &s) { return -(s.obj[0].spec().A.transpose() * s.obj[0].spec().lb); }

// ---- the libraries: what the last call was given, and what it returns
struct QuadProg
{
    typedef humoto::quadprogpp::Solver S; typedef humoto::quadprogpp::SolverParameters P; typedef humoto::quadprogpp::Solution R;
    static QuadProgpp::Solver::Ghost &g() { return QuadProgpp::Solver::ghost(); }
    static void prepare(const VecX &x, long outcome) { g().x = x; g().ret = outcome == 0 ? Real(0) : outcome == 1 ? Real(1) : std::numeric_limits<Real>::infinity(); if (outcome == 2) requires_(gt(g().ret, Real(1000))); g().calls = 0; }
    static int calls() { return g().calls; }
    static SS::Status expected(long outcome) { return outcome == 0 ? SS::OK : SS::OTHER; }
    static bool hessianIs(const MatX &H) { ensures("Hessian given to the solver", eqm(g().G, H)); return true; }
    static VecX gradient() { return g().g0; }
    static std::vector<Formula> admits(const VecX &x)
    {
        std::vector<Formula> f;
        ensures("sizes of the constraints", g().CE.rows() == x.size() && g().CI.rows() == x.size() && g().CE.cols() == g().ce0.size() && g().CI.cols() == g().ci0.size());
        if (g().CE.rows() == x.size()) for (long i = 0; i < g().ce0.size() && i < g().CE.cols(); ++i) f.push_back(eq((g().CE.col(i).transpose() * x)(0) + g().ce0(i), Real(0)));
        if (g().CI.rows() == x.size()) for (long i = 0; i < g().ci0.size() && i < g().CI.cols(); ++i) f.push_back(ge((g().CI.col(i).transpose() * x)(0) + g().ci0(i), Real(0)));
        return f;
    }
    static void setRegularisation(P &p, const Real &r) { p.regularization_factor_ = r; }
    static bool resultIs(const R &r, long) { return holds(eq(r.quadprogpp_return_value_, g().ret)); }
    static const bool regularises = true;
};
struct QpMad
{
    typedef humoto::qpmad::Solver S; typedef humoto::qpmad::SolverParameters P; typedef humoto::qpmad::Solution R;
    typedef ::qpmad::Solver L;
    static L::Ghost &g() { return L::ghost(); }
    static L::ReturnStatus code(long o) { return o == 0 ? L::OK : o == 1 ? L::INFEASIBLE_INEQUALITY : L::MAXIMAL_NUMBER_OF_ITERATIONS; }
    static void prepare(const VecX &x, long outcome) { g().x = x; g().ret = code(outcome); g().calls = 0; }
    static int calls() { return g().calls; }
    static SS::Status expected(long o) { return o == 0 ? SS::OK : o == 1 ? SS::OTHER : SS::MAX_ITER; }
    static bool hessianIs(const MatX &H)
    {
        bool sizes = g().H.rows() == H.rows() && g().H.cols() == H.cols();
        ensures("size of the Hessian", sizes);
        if (sizes) for (long i = 0; i < H.rows(); ++i) for (long j = 0; j <= i; ++j) ensures("Hessian given to the solver", eq(g().H(i, j), H(i, j)));
        return true;
    }
    static VecX gradient() { return g().h; }
    static std::vector<Formula> admits(const VecX &x)
    {
        std::vector<Formula> f;
        bool sizes = (g().lb.size() == 0 || g().lb.size() == x.size()) && g().lb.size() == g().ub.size() && g().A.rows() == g().Alb.size() && g().A.rows() == g().Aub.size() && (g().A.rows() == 0 || g().A.cols() == x.size());
        ensures("sizes of the constraints", sizes);
        if (!sizes) return f;
        for (long i = 0; i < g().lb.size(); ++i) { f.push_back(ge(x(i), g().lb(i))); f.push_back(le(x(i), g().ub(i))); }
        for (long i = 0; i < g().A.rows(); ++i) { Real p = (g().A.row(i) * x)(0); f.push_back(ge(p, g().Alb(i))); f.push_back(le(p, g().Aub(i))); }
        return f;
    }
    static void setRegularisation(P &p, const Real &r) { p.regularization_factor_ = r; }
    static bool resultIs(const R &r, long o) { return r.qpmad_return_value_ == code(o); }
    static const bool regularises = true;
};
struct QpOases
{
    typedef humoto::qpoases::Solver S; typedef humoto::qpoases::SolverParameters P; typedef humoto::qpoases::Solution R;
    static qpOASES::Ghost &g() { return qpOASES::ghost(); }
    static qpOASES::returnValue code(long o) { return o == 0 ? qpOASES::SUCCESSFUL_RETURN : o == 1 ? qpOASES::RET_INIT_FAILED_INFEASIBILITY : qpOASES::RET_MAX_NWSR_REACHED; }
    static void prepare(const VecX &x, long outcome) { g().x.clear(); for (long i = 0; i < x.size(); ++i) g().x.push_back(x(i)); g().ret = code(outcome); g().iterations_taken = 7; g().calls = 0; }
    static int calls() { return g().calls; }
    static SS::Status expected(long o) { return o == 0 ? SS::OK : o == 1 ? SS::OTHER : SS::MAX_ITER; }
    static bool hessianIs(const MatX &H)
    {
        ensures("number of variables", g().n == H.rows() && (long)g().H.size() == H.rows() * H.rows());
        if ((long)g().H.size() == H.rows() * H.rows()) for (long i = 0; i < H.rows(); ++i) for (long j = 0; j < H.rows(); ++j) ensures("Hessian given to the solver", eq(g().H[i * H.rows() + j], H(i, j)));
        ensures("the Hessian is not promised to be more than it is", g().hessian_type == qpOASES::HST_SEMIDEF || g().hessian_type == qpOASES::HST_UNKNOWN || g().hessian_type == qpOASES::HST_INDEF);
        return true;
    }
    static VecX gradient() { VecX v(g().n); for (long i = 0; i < g().n; ++i) v(i) = g().g[i]; return v; }
    static std::vector<Formula> admits(const VecX &x)
    {
        std::vector<Formula> f;
        long n = x.size();
        if (g().has_lb) for (long i = 0; i < n; ++i) f.push_back(ge(x(i), g().lb[i]));
        if (g().has_ub) for (long i = 0; i < n; ++i) f.push_back(le(x(i), g().ub[i]));
        ensures("rows of general constraints", g().m == 0 || g().has_A);
        if (g().has_A) for (long i = 0; i < g().m; ++i)
        {
            Real p = Real(0);
            for (long j = 0; j < n; ++j) p = p + g().A[i * n + j] * x(j);
            if (g().has_lbA) f.push_back(ge(p, g().lbA[i]));
            if (g().has_ubA) f.push_back(le(p, g().ubA[i]));
        }
        return f;
    }
    static void setRegularisation(P &, const Real &) {}
    static bool resultIs(const R &r, long o) { return r.qpoases_return_value_ == code(o) && r.number_of_iterations_ == 7; }
    static const bool regularises = false;
};

template <class L> static void checkHandedOver(Hierarchy &s, const Real &regularisation)
{
    ensures("the solver is called once", L::calls() == 1);
    if (L::calls() == 0) return;
    MatX H = hessian(s);
    for (long i = 0; i < s.n; ++i) H(i, i) = H(i, i) + regularisation;
    L::hessianIs(H);
    ensures("gradient given to the solver", eqm(L::gradient(), gradient(s)));
    VecX x = symVec("x", s.n);
    std::vector<Formula> finite;
    for (long i = 0; i < s.n; ++i) { finite.push_back(gt(x(i), -humoto::g_infinity)); finite.push_back(lt(x(i), humoto::g_infinity)); }
    for (auto &t : s.cons) for (long i = 0; i < t.spec().rows(); ++i) { Real p = (t.spec().A.row(i) * x)(0); finite.push_back(gt(p, -humoto::g_infinity)); finite.push_back(lt(p, humoto::g_infinity)); }
    requires_(land(finite));
    std::vector<Formula> a = stated(s, x), b = L::admits(x);
    for (auto &f : a) ensures("a point the solver may return satisfies the constraints of the hierarchy", implies(land(b), f));
    for (auto &f : b) ensures("a point of the hierarchy is admitted by the solver", implies(land(a), f));
}
template <class L> static void handedOver()
{
    Hierarchy s; s.n = size("variables", 2, 2, 4);
    long levels = choose("levels", 1, 2);
    static const std::vector<long> T = {0, 1, 3, 7, 15, 17, 18};
    long variant = choose("variant", 0, levels == 1 ? 2 : 1);
    build(s, "", levels, T, 2, 1, variant == 2 ? 13 : 3);
    typename L::P par;
    Real r = Real(0);
    if (L::regularises && variant == 1) { r = sym("regularisation", 0, 1); requires_(ge(r, Real(0))); L::setRegularisation(par, r); }
    VecX y = symVec("y", s.n);
    L::prepare(y, 0);
    if (variant == 1) { typename L::S solver(par); solver.solve(s.sol, s.p); }
    else { typename L::S solver; solver.solve(s.sol, s.p, par); }
    checkHandedOver<L>(s, r);
    ensures("solution reported", eqm(s.sol.x_, y));
    ensures("status reported", s.sol.return_status_ == SS::OK);
}
CONTRACT(quadprogpp_problem, "quadprogpp::Solver::{initialize,solveHierarchy}, Solver::solve")
{
    handedOver<QuadProg>();
}
CONTRACT(qpmad_problem, "qpmad::Solver::{initialize,solveHierarchy}, Solver::solve") { handedOver<QpMad>(); }
CONTRACT(qpoases_problem, "qpoases::Solver::{initialize,solveHierarchy}, Solver::solve") { handedOver<QpOases>(); }

// what a solver solved before does not matter
template <class L> static void reused()
{
    Hierarchy a, b; long other = choose("other", 0, 2);
    a.n = other == 1 ? 1 : 2; b.n = other == 2 ? 1 : 2;
    static const std::vector<long> T = {0, 15};
    build(a, "a", choose("levels_before", 1, 2), T, 1, 1);
    build(b, "b", choose("levels", 1, 2), T, 1, 1);
    typename L::S solver;
    L::prepare(symVec("ya", a.n), choose("failed_before", 0, 1));
    try { solver.solve(a.sol, a.p); } catch (const EigenAssertFailure &) { throw; } catch (const std::exception &) {}
    VecX y = symVec("yb", b.n);
    L::prepare(y, 0);
    typename L::P par;
    solver.setParameters(par);
    solver.solve(b.sol, b.p);
    checkHandedOver<L>(b, Real(0));
    ensures("solution reported", eqm(b.sol.x_, y));
    ensures("status reported", b.sol.return_status_ == SS::OK);
}
CONTRACT(solvers_used_again, "quadprogpp::Solver, qpmad::Solver, qpoases::Solver (used for another problem), Solver::setParameters")
{
    long k = choose("solver", 0, 2);
    if (k == 0) reused<QuadProg>(); else if (k == 1) reused<QpMad>(); else reused<QpOases>();
}

template <class L> static void outcomes()
{
    Hierarchy s; s.n = 2;
    static const std::vector<long> T = {0};
    build(s, "", 2, T, 1, 1);
    typename L::P par;
    long outcome = choose("outcome", 0, 2);
    bool crash = choose("crash", 0, 1), extended = choose("extended", 0, 1);
    par.crash_on_any_failure_ = crash;
    VecX y = symVec("y", s.n);
    L::prepare(y, outcome);
    typename L::S solver(par);
    typename L::R ext;
    DummyModel m; DummyProblem cp(s.n);
    if (extended) s.p.form(ext, m, cp);
    humoto::Solution &sol = extended ? static_cast<humoto::Solution &>(ext) : s.sol;
    bool thrown = false;
    try { solver.solve(sol, s.p); } catch (const EigenAssertFailure &) { throw; } catch (const std::exception &) { thrown = true; }
    ensures("a failure, and only a failure, is an error when it has to be", thrown == (crash && outcome != 0));
    ensures("status reported", sol.return_status_ == L::expected(outcome));
    ensures("solution reported", eqm(sol.x_, y));
    if (extended)
    {
        ensures("result of the solver", L::resultIs(ext, outcome));
        std::string failed = ext.getStatusDescription();
        L::prepare(y, 0);
        solver.solve(ext, s.p);
        ensures("descriptions tell success from failure", outcome == 1 ? (ext.getStatusDescription() != failed || std::is_same<L, QuadProg>::value) : true);
        ensures("the same solver reports the next success", ext.return_status_ == SS::OK);
    }
}
CONTRACT(outcome, "Solver::checkResults, solveHierarchy of the solver interfaces, Solution::getStatusDescription")
{
    long k = choose("solver", 0, 2);
    if (k == 0) outcomes<QuadProg>(); else if (k == 1) outcomes<QpMad>(); else outcomes<QpOases>();
}

template <class L> static void refusals()
{
    PublicProblem p; humoto::Solution sol; DummyModel m; DummyProblem cp(2);
    Sizes z = {1, 2, 0, 2};
    long what = choose("what", 0, 3);
    long levels = what == 0 ? choose("levels", 3, 4) : what == 1 ? 0 : 2;
    p.reset(levels);
    typename L::P par;
    long inequality = what == 2 ? choose("inequality", 0, 3) : -1;
    static const long I[] = {0, 1, 2, 15};
    for (long l = 0; l < levels; ++l) p.pushTask(makeTask(l + 1 == levels && what == 2 ? I[inequality] : 3, "t" + std::to_string(l), z, false).task, l);
    if (levels > 0) p.form(sol, m, cp);
    if (what == 3) par.solve_two_levels_as_qp_ = false;
    typename L::S solver(par);
    L::prepare(symVec("y", 2), 0);
    ensuresThrows("a hierarchy that is no QP is refused", [&]() { solver.solve(sol, p); });
    ensures("and not handed to the solver", L::calls() == 0);
}
CONTRACT(refused, "QPSolverMixin::checkInputs, Solver::solve")
{
    long k = choose("solver", 0, 2);
    if (k == 0) refusals<QuadProg>(); else if (k == 1) refusals<QpMad>(); else refusals<QpOases>();
}
CONTRACT(negative_regularisation, "quadprogpp::Solver::solveHierarchy, qpmad::Solver::solveHierarchy")
{
    Hierarchy s; s.n = 2;
    static const std::vector<long> T = {0};
    build(s, "", 2, T, 1, 1);
    Real r = sym("regularisation", -1, 0);
    requires_(lt(r, Real(0)));
    VecX y = symVec("y", 2);
    if (choose("solver", 0, 1)) { QpMad::P par; par.regularization_factor_ = r; QpMad::S q(par); QpMad::prepare(y, 0); ensuresThrows("negative regularisation is refused", [&]() { q.solve(s.sol, s.p); }); }
    else { QuadProg::P par; par.regularization_factor_ = r; QuadProg::S q(par); QuadProg::prepare(y, 0); ensuresThrows("negative regularisation is refused", [&]() { q.solve(s.sol, s.p); }); }
}

// ---- guesses and active sets: every way of calling the solver
static CAT::Type any(const std::string &name) { static const CAT::Type t[] = {CAT::LOWER_BOUND, CAT::INACTIVE, CAT::UPPER_BOUND, CAT::EQUALITY}; return t[choose(name, 0, 3)]; }
static int sign(const Real &) { return 0; }
struct Guessed { bool solution, active; };
static Guessed call(QpOases::S &q, long how, Hierarchy &s, humoto::ActiveSet &out, const humoto::Solution &x0, const humoto::ActiveSet &a0)
{
    Guessed g = {false, false};
    switch (how)
    {
        case 0: q.solve(s.sol, s.p); break;
        case 1: q.solve(s.sol, s.p, x0); g.solution = true; break;
        case 2: q.solve(s.sol, out, s.p, a0); g.active = true; break;
        case 3: q.solve(s.sol, s.p, a0); g.active = true; break;
        case 4: q.solve(s.sol, out, s.p); break;
        case 5: q.solve(s.sol, out, s.p, x0, a0); g.solution = g.active = true; break;
        case 6: q.solve(s.sol, s.p, x0, a0); g.solution = g.active = true; break;
        case 7: q.solve(s.sol, out, s.p, x0); g.solution = true; break;
        default: { QpOases::P par; q.solve(s.sol, s.p, par); }
    }
    return g;
}
static bool returnsActiveSet(long how) { return how == 2 || how == 4 || how == 5 || how == 7; }
// the variable a row bounds
static long variableOf(const Spec &s, long row) { for (long v = 0; v < s.A.cols(); ++v) if (holds(eq(s.A(row, v), Real(1)))) return v; return -1; }

CONTRACT(guesses, "SolverGuess{Solution,ActiveSet,SolutionActiveSet}Mixin::solve, qpoases::Solver::{setActiveSet,setSolutionGuess,reset}")
{
    Hierarchy s; s.n = 2;
    long how = choose("how", 0, 9), levels = choose("levels", 1, 2), rows = size("rows", 1, 1, 2);
    bool before = how == 9; // solved with guesses before, without any now
    if (before) how = choose("how_now", 0, 2) * 3 / 2;
    static const std::vector<long> T = {0, 15}, T2 = {15, 17, 3};
    build(s, "", levels, T, 2, rows, 3, T2);
    bool uses = how == 2 || how == 3 || how == 5 || how == 6;
    long total = 0;
    for (auto &t : s.cons) total += t.spec().rows();
    humoto::ActiveSet guess, out;
    s.p.initializeActiveSet(guess);
    for (std::size_t l = 0; l < guess.size(); ++l) guess.set(l, CAT::EQUALITY);
    if (levels == 2) for (long i = 0; i < total; ++i) guess[0][i] = !uses ? CAT::UPPER_BOUND : how > 4 ? any(idx("guess", i)) : choose(idx("guess", i), 0, 1) ? CAT::LOWER_BOUND : CAT::UPPER_BOUND;
    humoto::Solution x0; x0.initialize(s.sol, 0.0);
    VecX x = symVec("x0", s.n), y = symVec("y", s.n);
    x0.x_ = x;
    QpOases::S q;
    QpOases::prepare(y, 0);
    qpOASES::Ghost &g = qpOASES::ghost();
    g.working_bounds.assign(s.n, 0); g.working_constraints.assign(8, 0);
    if (before) { call(q, 6, s, out, x0, guess); QpOases::prepare(y, 0); }
    Guessed e = call(q, how, s, out, x0, guess);
    ensures("the solver is called once", g.calls == 1);
    ensures("a guessed solution is used, and no other", g.has_x0 == e.solution);
    if (g.has_x0 && e.solution) for (long i = 0; i < s.n; ++i) ensures("guessed solution", eq(g.x0[i], x(i)));
    ensures("no multipliers are made up", !g.has_y0);
    ensures("a guessed active set is used, and no other", g.has_bounds == e.active && g.has_constraints == e.active);
    ensures("solution reported", eqm(s.sol.x_, y));
    if (!e.active || !g.has_bounds || !g.has_constraints) return;
    long general = 0;
    for (auto &t : s.cons) if (!t.spec().simple) general += t.spec().rows();
    ensures("a state for every row and variable", (long)g.constraints.size() == general && (long)g.bounds.size() == s.n);
    if ((long)g.constraints.size() != general || (long)g.bounds.size() != s.n) return;
    if (levels == 1) { for (long v = 0; v < s.n; ++v) ensures("no bound is active without bounds", g.bounds[v] == qpOASES::ST_INACTIVE); return; }
    std::vector<std::vector<qpOASES::SubjectToStatus>> active(s.n);
    for (auto &ti : s.p[0].tasks_)
        for (std::size_t k = 0; k < ti.location_.length_; ++k)
        {
            long row = (long)(ti.location_.offset_ + k);
            CAT::Type t = guess[0][row];
            qpOASES::SubjectToStatus st = t == CAT::UPPER_BOUND ? qpOASES::ST_UPPER : t == CAT::INACTIVE ? qpOASES::ST_INACTIVE : qpOASES::ST_LOWER;
            const Spec &sp = s.owner(ti.ptr_.get()).spec();
            if (!sp.simple) ensures("guessed state of a general row", g.constraints[row] == st);
            else if (st != qpOASES::ST_INACTIVE) active[variableOf(sp, (long)k)].push_back(st);
        }
    for (long v = 0; v < s.n; ++v)
    {
        bool ok = active[v].empty() ? g.bounds[v] == qpOASES::ST_INACTIVE : false;
        for (auto st : active[v]) ok = ok || g.bounds[v] == st;
        ensures("guessed state of a variable is that of its active bound", ok);
    }
}

CONTRACT(active_sets, "qpoases::Solver::getActiveSet, SolverGuess{ActiveSet,SolutionActiveSet}Mixin::solve")
{
    Hierarchy s; s.n = 2;
    static const std::vector<long> T = {15, 0, 17}, T2 = {15, 18};
    long levels = choose("levels", 1, 2), rows = size("rows", 1, 1, 2);
    build(s, "", levels, T, 2, rows, 3, T2);
    long general = 0;
    for (auto &t : s.cons) if (!t.spec().simple) general += t.spec().rows();
    static const long HOW[] = {2, 4, 5, 7};
    humoto::ActiveSet guess, out;
    s.p.initializeActiveSet(guess);
    for (std::size_t l = 0; l < guess.size(); ++l) guess.set(l, CAT::INACTIVE);
    humoto::Solution x0; x0.initialize(s.sol, 0.0);
    QpOases::prepare(symVec("y", s.n), 0);
    qpOASES::Ghost &g = qpOASES::ghost();
    g.working_bounds.clear(); g.working_constraints.clear();
    for (long v = 0; v < s.n; ++v) g.working_bounds.push_back((int)choose(idx("bound", v), -1, 1));
    for (long i = 0; i < general; ++i) g.working_constraints.push_back((int)choose(idx("constraint", i), -1, 1));
    QpOases::S q;
    call(q, HOW[choose("how", 0, 3)], s, out, x0, guess);
    ensures("one active set per level", (long)out.size() == levels);
    if ((long)out.size() != levels) return;
    for (long l = 0; l < levels; ++l) ensures("one state per row", out[l].size() == s.p[l].getNumberOfConstraints());
    for (std::size_t i = 0; i < out[levels - 1].size(); ++i) ensures("rows of the objective are active", out[levels - 1][i] == CAT::EQUALITY);
    if (levels == 1) return;
    // the tightest bounds of every variable
    VecX lo(s.n), up(s.n);
    std::vector<std::vector<Real>> ls(s.n), us(s.n);
    for (auto &t : s.cons) if (t.spec().simple) for (long i = 0; i < t.spec().rows(); ++i) { long v = variableOf(t.spec(), i); ls[v].push_back(lowerOf(t.spec())(i)); us[v].push_back(upperOf(t.spec())(i)); }
    for (auto &ti : s.p[0].tasks_)
        for (std::size_t k = 0; k < ti.location_.length_; ++k)
        {
            long row = (long)(ti.location_.offset_ + k);
            const Spec &sp = s.owner(ti.ptr_.get()).spec();
            CAT::Type a = out[0][row];
            if (!sp.simple) { int w = g.working_constraints[row]; ensures("state of a general row", a == (w < 0 ? CAT::LOWER_BOUND : w > 0 ? CAT::UPPER_BOUND : CAT::INACTIVE)); continue; }
            long v = variableOf(sp, (long)k);
            int w = g.working_bounds[v];
            if (w == 0) { ensures("a bound of a free variable is inactive", a == CAT::INACTIVE); continue; }
            // active iff no other bound of the variable is tighter
            std::vector<Formula> tightest;
            Real own = w < 0 ? lowerOf(sp)(k) : upperOf(sp)(k);
            if (w < 0) for (auto &o : ls[v]) tightest.push_back(ge(own, o)); else for (auto &o : us[v]) tightest.push_back(le(own, o));
            CAT::Type side = w < 0 ? CAT::LOWER_BOUND : CAT::UPPER_BOUND;
            ensures("state of a bound", a == side || a == CAT::INACTIVE);
            ensures("a bound is active exactly when it is the one that holds the variable", a == side ? land(tightest) : lnot(land(tightest)));
        }
}
CONTRACT(qpoases_options, "qpoases::Solver::solveHierarchy, qpoases::SolverParameters")
{
    Hierarchy s; s.n = 2;
    static const std::vector<long> T = {0};
    build(s, "", 2, T, 1, 1);
    QpOases::P par;
    ensures("defaults of the library for MPC", par.options_.mpc);
    par.max_number_of_iterations_ = (int)choose("iterations", 1, 5) * 100;
    bool timed = choose("timed", 0, 1);
    Real t = sym("time", 0.1, 1);
    requires_(gt(t, Real(0)));
    par.max_cpu_time_ = timed ? t : Real(0);
    par.options_.boundTolerance = sym("tolerance", 1, 2); par.options_.numRefinementSteps = 5;
    QpOases::prepare(symVec("y", 2), 0);
    { QpOases::S q(par); q.solve(s.sol, s.p); }
    qpOASES::Ghost &g = qpOASES::ghost();
    ensures("limit of iterations", g.iterations == par.max_number_of_iterations_);
    ensures("limit of time", g.has_time == timed);
    if (timed) ensures("limit of time", eq(g.time, t));
    ensures("options", g.options.numRefinementSteps == 5 && g.options.mpc && holds(eq(g.options.boundTolerance, par.options_.boundTolerance)));
    ensures("solvers are released", g.alive == 0);
}
