// PROPERTY C02
#include "tasks_common.h"
using namespace vp;

static Formula lowerEq(const MatX &H, const MatX &S)
{
    if (H.rows() != S.rows() || H.cols() != S.cols()) return Formula(false);
    std::vector<Formula> v;
    for (long i = 0; i < S.rows(); ++i) for (long j = 0; j <= i; ++j) v.push_back(eq(H(i, j), S(i, j)));
    return land(v);
}

CONTRACT(single_task, "Constraints*::{getATAandATb,addATAandATb}, etools::{getATA,addATA}")
{
    long type = choose("type", 0, N_TASK_TYPES - 1), n = size("variables", 1, 5, 7);
    Sizes z = chooseSizes(type, "", 0, 3, n);
    AnyTask t = makeTask(type, "t", z, true);
    MatX H = symMat("H0", n, n), H0 = H; VecX g = symVec("g0", n), g0 = g;
    bool add = choose("add", 0, 1);
    if (!typeIsEquality(type))
    {
        ensuresThrows("inequalities are not objectives", [&]() { if (add) t.task->addATAandATb(H, g); else t.task->getATAandATb(H, g); });
        return;
    }
    if (!add && choose("fresh_output", 0, 1)) { H.resize(0, 0); g.resize(0); }
    if (add) t.task->addATAandATb(H, g); else t.task->getATAandATb(H, g);
    MatX AtA = t.spec().A.transpose() * t.spec().A; VecX Atb = t.spec().A.transpose() * t.spec().lb;
    if (add) { AtA += H0; Atb += g0; }
    ensures("lower triangle of A'A", lowerEq(H, AtA));
    ensures("A'b", eqm(g, Atb));
}

struct LevelSetup
{
    std::vector<AnyTask> tasks;
    PublicProblem problem;
    humoto::Solution solution;
    long n;
};
// one hierarchy level with up to `cnt` equality tasks of arbitrary types
static void buildObjective(LevelSetup &s, long cnt, bool only_simple)
{
    s.problem.reset(1);
    for (long i = 0; i < cnt; ++i)
    {
        std::string p = "t" + std::to_string(i);
        static const long eqTypes[] = {3, 4, 8, 9, 13, 14, 18, 19};
        long k = only_simple ? choose(p + "type", 4, 7) : choose(p + "type", 0, 7);
        long type = eqTypes[k];
        Sizes z = {1, s.n, 0, s.n};
        if (type == 8 || type == 9) { z.off = s.n - 1; z.w = 1; }
        s.tasks.push_back(makeTask(type, p, z, false));
        s.problem.pushTask(s.tasks.back().task, 0);
    }
    DummyModel m; DummyProblem cp(s.n);
    s.problem.form(s.solution, m, cp);
}

CONTRACT(stacked_objective, "HierarchyLevel::getObjective, OptimizationProblem::getQPProblem, QPObjective::{initializeObjective,getHessian,getGradient,getHessianType,getStatus}")
{
    LevelSetup s; s.n = size("variables", 1, 2, 5);
    long cnt = size("tasks", 1, 3, 4);
    buildObjective(s, cnt, false);
    bool upper = choose("full_hessian", 0, 1);
    humoto::QPProblem_AB qp;
    s.problem.getQPProblem(qp, s.solution, upper);
    MatX H = MatX::Zero(s.n, s.n); VecX g = VecX::Zero(s.n);
    bool simple = true;
    for (auto &t : s.tasks) { H += t.spec().A.transpose() * t.spec().A; g -= t.spec().A.transpose() * t.spec().lb; simple = simple && t.spec().simple; }
    const humoto::QPProblem_AB &cqp = qp;
    ensures("gradient is -sum A'b", eqm(cqp.getGradient(), g));
    if (upper) ensures("hessian is sum A'A", eqm(cqp.getHessian(), H));
    else ensures("lower triangle of the hessian is that of sum A'A", lowerEq(cqp.getHessian(), H));
    ensures("status after assembly", cqp.getStatus() == humoto::QPObjective::INITIALIZED);
    ensures("type of the hessian", cqp.getHessianType() == (simple ? humoto::QPObjective::HESSIAN_DIAGONAL : upper ? humoto::QPObjective::HESSIAN_GENERIC : humoto::QPObjective::HESSIAN_LOWER_TRIANGULAR));
}

CONTRACT(objective_value, "OptimizationProblem::getQPProblem (meaning of the objective)")
{
    // 2*(1/2 x'Hx + g'x) + sum b'b = sum |A x - b|^2 for every x
    LevelSetup s; s.n = 2;
    buildObjective(s, 2, false);
    humoto::QPProblem_AB qp;
    s.problem.getQPProblem(qp, s.solution, true);
    const humoto::QPProblem_AB &cqp = qp;
    VecX x = symVec("x", s.n);
    Real lhs = x.dot(cqp.getHessian() * x) + Real(2) * cqp.getGradient().dot(x), rhs = Real(0);
    for (auto &t : s.tasks) { VecX r = t.spec().A * x - t.spec().lb; rhs += r.dot(r); lhs += t.spec().lb.dot(t.spec().lb); }
    ensures("objective is the sum of squared residuals", eq(lhs, rhs));
}

CONTRACT(regularization, "QPObjective::{regularize,getHessian,getGradient}")
{
    LevelSetup s; s.n = size("variables", 1, 5, 8);
    buildObjective(s, 1, false);
    humoto::QPProblem_AB qp;
    s.problem.getQPProblem(qp, s.solution, true);
    const humoto::QPProblem_AB &cqp = qp;
    MatX H = cqp.getHessian(); VecX g = cqp.getGradient();
    Real f = sym("factor");
    qp.regularize(f);
    MatX E = H + f * MatX::Identity(s.n, s.n);
    ensures("regularization adds the factor to the diagonal only", land({eqm(cqp.getHessian(), E), eqm(cqp.getGradient(), g)}));
    ensures("status after modification", cqp.getStatus() == humoto::QPObjective::MODIFIED);
}

CONTRACT(inequality_objectives_are_refused, "QPObjective::initializeObjective, QPSolverMixin::checkInputs")
{
    long type = choose("type", 0, N_TASK_TYPES - 1), other = choose("with_equality", 0, 1);
    Sizes z = {1, 2, 0, 2};
    PublicProblem p; p.reset(1);
    AnyTask t = makeTask(type, "t", z, false), e = makeTask(3, "e", z, false);
    p.pushTask(t.task, 0);
    if (other) p.pushTask(e.task, 0);
    humoto::Solution sol; DummyModel m; DummyProblem cp(2);
    p.form(sol, m, cp);
    humoto::QPProblem_AB qp;
    if (!typeIsEquality(type)) ensuresThrows("an objective with inequalities is refused", [&]() { p.getQPProblem(qp, sol); });
    else { p.getQPProblem(qp, sol); ensures("equalities are accepted", true); }
}
