// PROPERTY C07
#include "tasks_common.h"
using namespace vp;

// tightest bounds: lb = max(-inf, L_i), ub = min(inf, U_i) over the bounds of a variable
CONTRACT(tightest_bounds, "ContainerILU::initializeSolutionBounds")
{
    long n = size("variables", 1, 2, 4), m = size("bounds", 0, 3, 6);
    humoto::constraints::ContainerILU c; c.reset(m, n);
    std::vector<long> k(m);
    VecX L = symVec("L", m), U = symVec("U", m);
    for (long i = 0; i < m; ++i) { k[i] = choose(idx("index", i), 0, n - 1); c.getIndices()(i) = (unsigned)k[i]; requires_(land({ge(L(i), -humoto::g_infinity), le(L(i), humoto::g_infinity), ge(U(i), -humoto::g_infinity), le(U(i), humoto::g_infinity)})); }
    c.getLowerBounds() = L; c.getUpperBounds() = U;
    std::vector<Formula> consistent;
    for (long i = 0; i < m; ++i) for (long j = 0; j < m; ++j) if (k[i] == k[j]) consistent.push_back(le(L(i), U(j)));
    VecX lb, ub;
    bool stale = choose("stale_output", 0, 1);
    if (stale) { lb = symVec("stale_l", n); ub = symVec("stale_u", n); }
    bool thrown = false;
    try { c.initializeSolutionBounds(lb, ub); } catch (const EigenAssertFailure &) { throw; } catch (const std::exception &) { thrown = true; }
    ensures("contradicting bounds, and only those, are refused", thrown ? lnot(land(consistent)) : land(consistent));
    if (thrown) return;
    if (m == 0) { ensures("no bounds", lb.size() == 0 && ub.size() == 0); return; }
    ensures("one bound per variable", lb.size() == n && ub.size() == n);
    for (long v = 0; v < n; ++v)
    {
        std::vector<Formula> al = {ge(lb(v), -humoto::g_infinity)}, au = {le(ub(v), humoto::g_infinity)}, el = {eq(lb(v), -humoto::g_infinity)}, eu = {eq(ub(v), humoto::g_infinity)};
        for (long i = 0; i < m; ++i) if (k[i] == v) { al.push_back(ge(lb(v), L(i))); au.push_back(le(ub(v), U(i))); el.push_back(eq(lb(v), L(i))); eu.push_back(eq(ub(v), U(i))); }
        ensures("every stated bound is enforced", land({land(al), land(au)}));
        ensures("nothing tighter than stated is enforced", land({lor(el), lor(eu)}));
    }
}

struct Two
{
    PublicProblem p;
    std::vector<AnyTask> cons, obj;
    humoto::Solution sol;
    long n;
};
static void build(Two &s, const long *types, long ntypes, long cnt)
{
    s.p.reset(2);
    Sizes z = {1, s.n, 0, s.n};
    for (long i = 0; i < cnt; ++i)
    {
        std::string id = "c" + std::to_string(i);
        s.cons.push_back(makeTask(types[choose(id + "type", 0, ntypes - 1)], id, z, false));
        s.p.pushTask(s.cons.back().task, 0);
    }
    s.obj.push_back(makeTask(3, "o", z, false));
    s.p.pushTask(s.obj.back().task, 1);
    DummyModel m; DummyProblem cp(s.n);
    s.p.form(s.sol, m, cp);
}

CONTRACT(bounds_and_two_sided_problem, "OptimizationProblem::getQPProblem<ILU_ALU>, QPConstraints_ILU_ALU::initializeConstraints")
{
    Two s; s.n = 2;
    static const long T[] = {0, 1, 7, 9, 15, 17, 18};
    build(s, T, 7, 2);
    for (auto &t : s.cons) for (long i = 0; i < t.spec().rows(); ++i)
    {
        if (t.spec().lb.size()) requires_(land({ge(t.spec().lb(i), -humoto::g_infinity), le(t.spec().lb(i), humoto::g_infinity)}));
        if (t.spec().ub.size()) requires_(land({ge(t.spec().ub(i), -humoto::g_infinity), le(t.spec().ub(i), humoto::g_infinity)}));
        if (t.spec().lb.size() && t.spec().ub.size()) requires_(le(t.spec().lb(i), t.spec().ub(i)));
    }
    // the bounds on one variable do not contradict each other
    std::vector<AnyTask *> simple, general;
    for (auto &t : s.cons) (t.spec().simple ? simple : general).push_back(&t);
    for (auto *a : simple) for (auto *b : simple) if (holds(eqm(a->spec().A, b->spec().A))) requires_(le(lowerOf(a->spec())(0), upperOf(b->spec())(0)));
    humoto::QPProblem_ILU_ALU qp;
    s.p.getQPProblem(qp, s.sol);
    const humoto::QPProblem_ILU_ALU &q = qp;
    // objective comes from the second level
    MatX H = s.obj[0].spec().A.transpose() * s.obj[0].spec().A; VecX g = -(s.obj[0].spec().A.transpose() * s.obj[0].spec().lb);
    ensures("objective is the one of the last level", land({eqm(q.getHessian(), H), eqm(q.getGradient(), g)}));
    // feasible set: x satisfies the assembled constraints iff it satisfies every task of the first level
    VecX x = symVec("x", s.n);
    for (long i = 0; i < s.n; ++i) requires_(land({gt(x(i), -humoto::g_infinity), lt(x(i), humoto::g_infinity)}));
    std::vector<Formula> stated, assembled;
    for (auto &t : s.cons) { Real p = (t.spec().A.row(0) * x)(0); stated.push_back(ge(p, lowerOf(t.spec())(0))); stated.push_back(le(p, upperOf(t.spec())(0))); }
    const auto &gc = q.getGeneralConstraints();
    ensures("general rows only from general tasks", gc.getA().rows() == (long)general.size());
    for (long i = 0; i < gc.getA().rows(); ++i) { Real p = (gc.getA().row(i) * x)(0); assembled.push_back(ge(p, gc.getLowerBounds()(i))); assembled.push_back(le(p, gc.getUpperBounds()(i))); }
    ensures("bounds on variables iff stated", (q.getSolutionLowerBounds().size() == s.n) == !simple.empty() && q.getSolutionLowerBounds().size() == q.getSolutionUpperBounds().size());
    for (long i = 0; i < q.getSolutionLowerBounds().size(); ++i) { assembled.push_back(ge(x(i), q.getSolutionLowerBounds()(i))); assembled.push_back(le(x(i), q.getSolutionUpperBounds()(i))); }
    for (auto &f : stated) ensures("assembled constraints imply the stated ones", implies(land(assembled), f));
    for (auto &f : assembled) ensures("stated constraints imply the assembled ones", implies(land(stated), f));
    ensures("index form kept", (long)q.getSimpleBounds().getIndices().size() == (long)simple.size());
}

CONTRACT(equality_inequality_problem, "OptimizationProblem::getQPProblem<AB_AL>, QPConstraints_AB_AL::initializeConstraints")
{
    Two s; s.n = 2;
    static const long T[] = {0, 1, 2, 3, 9, 10, 13, 16, 18};
    build(s, T, 9, 2);
    humoto::QPProblem_AB_AL qp;
    s.p.getQPProblem(qp, s.sol);
    const humoto::QPProblem_AB_AL &q = qp;
    MatX H = s.obj[0].spec().A.transpose() * s.obj[0].spec().A; VecX g = -(s.obj[0].spec().A.transpose() * s.obj[0].spec().lb);
    ensures("objective is the one of the last level", land({eqm(q.getHessian(), H), eqm(q.getGradient(), g)}));
    VecX x = symVec("x", s.n);
    std::vector<Formula> stated, assembled;
    for (auto &t : s.cons)
    {
        Real p = (t.spec().A.row(0) * x)(0);
        if (t.spec().equality) stated.push_back(eq(p, t.spec().lb(0)));
        else { if (t.spec().has_lb) stated.push_back(ge(p, t.spec().lb(0))); if (t.spec().has_ub) stated.push_back(le(p, t.spec().ub(0))); }
    }
    for (long i = 0; i < q.getEqualities().getA().rows(); ++i) assembled.push_back(eq((q.getEqualities().getA().row(i) * x)(0), q.getEqualities().getB()(i)));
    for (long i = 0; i < q.getInequalities().getA().rows(); ++i) assembled.push_back(ge((q.getInequalities().getA().row(i) * x)(0), q.getInequalities().getLowerBounds()(i)));
    for (auto &f : stated) ensures("assembled constraints imply the stated ones", implies(land(assembled), f));
    for (auto &f : assembled) ensures("stated constraints imply the assembled ones", implies(land(stated), f));
}

CONTRACT(equality_problem, "OptimizationProblem::getQPProblem<AB>, QPConstraints_AB::initializeConstraints")
{
    Two s; s.n = 2;
    static const long T[] = {0, 3, 8, 14, 16, 18};
    build(s, T, 6, 2);
    bool eqOnly = true; for (auto &t : s.cons) eqOnly = eqOnly && t.spec().equality;
    humoto::QPProblem_AB qp;
    if (!eqOnly) { ensuresThrows("inequalities are refused", [&]() { s.p.getQPProblem(qp, s.sol); }); return; }
    s.p.getQPProblem(qp, s.sol);
    VecX x = symVec("x", s.n);
    std::vector<Formula> stated, assembled;
    for (auto &t : s.cons) stated.push_back(eq((t.spec().A.row(0) * x)(0), t.spec().lb(0)));
    for (long i = 0; i < qp.getEqualities().getA().rows(); ++i) assembled.push_back(eq((qp.getEqualities().getA().row(i) * x)(0), qp.getEqualities().getB()(i)));
    for (auto &f : stated) ensures("assembled constraints imply the stated ones", implies(land(assembled), f));
    for (auto &f : assembled) ensures("stated constraints imply the assembled ones", implies(land(stated), f));
}

CONTRACT(problem_reuse, "OptimizationProblem::getQPProblem (a problem object used again)")
{
    // what was assembled before has no influence
    Two a, b; a.n = 2; b.n = 2;
    static const long T[] = {0, 15};
    build(a, T, 2, 1);
    PublicProblem p;
    Sizes z = {1, 2, 0, 2};
    AnyTask o = makeTask(3, "oo", z, false);
    bool one_level = choose("one_level", 0, 1);
    p.reset(one_level ? 1 : 2);
    AnyTask c = makeTask(3, "cc", z, false);
    if (!one_level) p.pushTask(c.task, 0);
    p.pushTask(o.task, one_level ? 0 : 1);
    humoto::Solution sol; DummyModel m; DummyProblem cp(2);
    p.form(sol, m, cp);
    for (auto &t : a.cons) requires_(land({le(t.spec().lb(0), t.spec().ub(0)), le(t.spec().lb(0), humoto::g_infinity), ge(t.spec().ub(0), -humoto::g_infinity)}));
    humoto::QPProblem_ILU_ALU qp;
    a.p.getQPProblem(qp, a.sol);
    p.getQPProblem(qp, sol);
    MatX H = o.spec().A.transpose() * o.spec().A;
    const humoto::QPProblem_ILU_ALU &q = qp;
    ensures("objective of the last problem", eqm(q.getHessian(), H));
    ensures("constraints of the last problem", q.getGeneralConstraints().getA().rows() == (one_level ? 0 : 1));
    if (!one_level) ensures("constraint of the last problem", eqm(q.getGeneralConstraints().getA(), c.spec().A));
    ensures("bounds of the last problem", q.getSolutionLowerBounds().size() == 0 && q.getSolutionUpperBounds().size() == 0);
}

CONTRACT(number_of_levels, "OptimizationProblem::getQPProblem")
{
    long levels = size("levels", 0, 4, 6);
    PublicProblem p; p.reset(levels);
    Sizes z = {1, 2, 0, 2};
    for (long l = 0; l < levels; ++l) p.pushTask(makeTask(3, "t" + std::to_string(l), z, false).task, l);
    humoto::Solution sol; DummyModel m; DummyProblem cp(2);
    if (levels > 0) p.form(sol, m, cp);
    humoto::QPProblem_AB qp;
    if (levels == 1 || levels == 2) { p.getQPProblem(qp, sol); ensures("one or two levels form a QP", true); }
    else ensuresThrows("other hierarchies are not QPs", [&]() { p.getQPProblem(qp, sol); });
}
