// PROPERTY C21
#include "wpg_common.h"
#include "hierarchy_form.h"
using namespace vp;
using namespace humoto::wpg04;
typedef humoto::walking::PointMassModel6z PM;

struct Setup
{
    Scene s;
    humoto::wpg04::MPCforWPG mpc;
    VecX x;
    long M;
    Setup(long lo, long hi, long elapsed, long ss_hi = 1)
    {
        makeScene(s, lo, hi, elapsed, true, ss_hi);
        mpc.setParameters(s.mp);
        if (mpc.update(s.model, s.fsm, s.wp) != humoto::ControlProblemStatus::OK) throw PathInfeasible();
        M = (long)s.starts.size();
        x = symVec("x", 2 * (s.N + M));
    }
    void parse()
    {
        humoto::Solution sol;
        sol.initialize(mpc.getSolutionStructure(), 0.0);
        sol.x_ = x;
        mpc.parseSolution(sol);
    }
    template <class Task> void form(Task &t) { Alone(t).form(s.model, mpc); }
};
struct Stated { MatX A; VecX lb, ub; };
static Stated stated(const humoto::TaskBase &t, long n)
{
    Stated r;
    humoto::constraints::ContainerALU c;
    c.reset(t.getNumberOfConstraints(), n);
    t.copyTo(c, 0);
    r.A = c.getA(); r.lb = c.getLowerBounds(); r.ub = c.getUpperBounds();
    return r;
}
// an equality task: its residual for every solution
static void ensuresResidual(const humoto::TaskBase &t, const VecX &x, const VecX &expected)
{
    Stated r = stated(t, x.size());
    ensures("the task is an equality", t.isEquality());
    ensures("equality", eqm(r.lb, r.ub));
    ensures("residual of the task", eqm(r.A * x - r.lb, expected));
}
// simple bounds on the variables [first, first + lb.size())
static void ensuresBounds(const humoto::TaskBase &t, long n, long first, const VecX &lb, const VecX &ub)
{
    Stated r = stated(t, n);
    MatX A = MatX::Zero(lb.size(), n);
    for (long i = 0; i < lb.size(); ++i) A(i, first + i) = Real(1);
    ensures("the constrained variables", eqm(r.A, A));
    ensures("lower bounds", eqm(r.lb, lb));
    ensures("upper bounds", eqm(r.ub, ub));
}
static VecX lowerCol(const MatX &b) { return b.col(0); }
static VecX upperCol(const MatX &b) { return b.col(1); }

CONTRACT(com_velocity, "TaskCoMVelocity::form")
{
    Setup u(2, 3, 13); u.parse();
    Real g = sym("gain");
    TaskCoMVelocity t(g);
    u.form(t);
    VecX e(2 * u.s.N);
    for (long k = 0; k < u.s.N; ++k)
    {
        VecX ref = velocityReference(u.s, k);
        for (long a = 0; a < 2; ++a) e(2 * k + a) = g * (u.mpc.cstate_profile(6 * k + 3 * a + 1) - ref(a));
    }
    ensuresResidual(t, u.x, e);
    Real g2 = sym("gain2");
    t.setGain(g2);
    u.form(t);
    for (long k = 0; k < u.s.N; ++k)
    {
        VecX ref = velocityReference(u.s, k);
        for (long a = 0; a < 2; ++a) e(2 * k + a) = g2 * (u.mpc.cstate_profile(6 * k + 3 * a + 1) - ref(a));
    }
    ensuresResidual(t, u.x, e);
}
CONTRACT(cop_velocity, "TaskCoPVelocity::form")
{
    Setup u(2, 3, 13); u.parse();
    Real g = sym("gain");
    TaskCoPVelocity t(g);
    u.form(t);
    VecX e = u.mpc.dcop_profile * g;
    ensuresResidual(t, u.x, e);
}
CONTRACT(cop_position, "TaskCoPPosition::form, TaskZeroVariables::form")
{
    Setup u(2, 3, 13);
    Real g = sym("gain");
    TaskCoPPosition t(g);
    u.form(t);
    VecX e = u.x.head(2 * u.s.N) * g;
    ensuresResidual(t, u.x, e);
    u.form(t);
    ensuresResidual(t, u.x, e);
    Real g2 = sym("gain2");
    t.setGain(g2);
    u.form(t);
    e = u.x.head(2 * u.s.N) * g2;
    ensuresResidual(t, u.x, e);
}
CONTRACT(terminal_constraint, "TaskTerminalConstraint::form")
{
    Setup u(2, 3, 13); u.parse();
    Real g = sym("gain"), w = PM::getOmega(u.s.height);
    TaskTerminalConstraint t(g);
    u.form(t);
    VecX e(2);
    for (long a = 0; a < 2; ++a) e(a) = g * (u.mpc.cstate_profile(6 * (u.s.N - 1) + 3 * a + 1) + u.mpc.cstate_profile(6 * (u.s.N - 1) + 3 * a + 2) / w);
    ensuresResidual(t, u.x, e);       // the capture point is at rest at the end of the preview
}
CONTRACT(cop_bounds, "TaskCoPBounds::form")
{
    Setup u(2, 4, 13, 2);
    TaskCoPBounds t;
    u.form(t);
    VecX lb(2 * u.s.N), ub(2 * u.s.N);
    for (long k = 0; k < u.s.N; ++k) { MatX b = copBounds(u.s, k); lb.segment(2 * k, 2) = lowerCol(b); ub.segment(2 * k, 2) = upperCol(b); }
    ensuresBounds(t, u.x.size(), 0, lb, ub);
}
CONTRACT(footstep_bounds, "TaskFootstepBounds::form")
{
    Setup u(2, 4, 13, 2);
    bool fixed = choose("fix_footsteps", 0, 1);
    TaskFootstepBounds t(fixed);
    u.form(t);
    VecX lb(2 * u.M), ub(2 * u.M);
    for (long j = 0; j < u.M; ++j)
    {
        MatX b = stepBounds(u.s, u.s.starts[j]);
        if (fixed)
        {
            // as far forward as possible and as close to the other foot as possible
            b(0, 0) = b(0, 1);
            if (u.s.plan[u.s.starts[j]].type == ST::RSS) b(1, 0) = b(1, 1);
            else b(1, 1) = b(1, 0);
        }
        lb.segment(2 * j, 2) = lowerCol(b); ub.segment(2 * j, 2) = upperCol(b);
    }
    ensuresBounds(t, u.x.size(), 2 * u.s.N, lb, ub);
}
static humoto::ActiveSetConstraints states(const std::string &p, long n)
{
    humoto::ActiveSetConstraints a;
    const humoto::ConstraintActivationType::Type kinds[] = {humoto::ConstraintActivationType::INACTIVE, humoto::ConstraintActivationType::LOWER_BOUND, humoto::ConstraintActivationType::UPPER_BOUND};
    a.initialize(n, humoto::ConstraintActivationType::INACTIVE);
    for (long i = 0; i < n; ++i) a[i] = kinds[(i + i / 3 + 1) % 3];
    return a;
}
CONTRACT(cop_active_set, "TaskCoPBounds::guessActiveSet")
{
    Setup u(2, 3, 2);
    TaskCoPBounds t;
    Alone h(t);
    auto g = h.guess(u.s.model, u.mpc);
    bool ok = (long)g.size() == 2 * u.s.N;
    for (long i = 0; ok && i < 2 * u.s.N; ++i) ok = g[i] == humoto::ConstraintActivationType::INACTIVE;
    ensures("all inactive at first", ok);
    humoto::ActiveSetConstraints a = states("a", 2 * u.s.N);
    h.process(a, 2 * u.s.N);
    g = h.guess(u.s.model, u.mpc);
    ok = (long)g.size() == 2 * u.s.N;
    for (long i = 0; ok && i < 2 * u.s.N; ++i) ok = g[i] == (i + 2 < 2 * u.s.N ? a[i + 2] : humoto::ConstraintActivationType::INACTIVE);
    ensures("shifted by an interval", ok);
}
CONTRACT(footstep_active_set, "TaskFootstepBounds::guessActiveSet")
{
    Setup u(2, 4, 13);
    bool fixed = choose("fix_footsteps", 0, 1);
    TaskFootstepBounds t(fixed);
    Alone h(t);
    h.form(u.s.model, u.mpc);
    long old = u.M + choose("change", -1, 1);
    if (old < 0) throw PathInfeasible();
    humoto::ActiveSetConstraints a = states("a", 2 * old);
    if (old > 0) h.process(a, 2 * old);
    auto g = h.guess(u.s.model, u.mpc);
    bool ok = (long)g.size() == 2 * u.M;
    for (long i = 0; ok && i < 2 * u.M; ++i)
    {
        long src = old > u.M ? i + 2 : i;
        ok = g[i] == (fixed ? humoto::ConstraintActivationType::EQUALITY : src < 2 * old ? a[src] : humoto::ConstraintActivationType::INACTIVE);
    }
    ensures("states of the footsteps still ahead", ok);
}
static Real costOf(Setup &u, const VecX &x, const Real *g)
{
    u.x = x; u.parse();
    Real cost = Real(0);
    for (long k = 0; k < u.s.N; ++k)
    {
        VecX ref = velocityReference(u.s, k);
        for (long a = 0; a < 2; ++a)
        {
            Real v = u.mpc.cstate_profile(6 * k + 3 * a + 1) - ref(a), d = u.mpc.dcop_profile(2 * k + a), c = x(2 * k + a);
            cost = cost + g[0] * g[0] * v * v + g[1] * g[1] * c * c + g[2] * g[2] * d * d;
        }
    }
    return cost;
}
CONTRACT(whole_problem, "OptimizationProblem::{pushTask,form,getQPProblem} with the walking tasks")
{
    // all tasks in a hierarchy, through its public interface: bounds and objective of the quadratic program
    Setup u(2, 2, 6);
    humoto::OptimizationProblem p;
    Real g[3] = {sym("g0"), sym("g1"), sym("g2")};
    p.reset(2);
    p.pushTask(humoto::TaskSharedPointer(new TaskFootstepBounds()), 0);
    p.pushTask(humoto::TaskSharedPointer(new TaskCoPBounds()), 0);
    p.pushTask(humoto::TaskSharedPointer(new TaskCoMVelocity(g[0])), 1);
    p.pushTask(humoto::TaskSharedPointer(new TaskCoPPosition(g[1])), 1);
    p.pushTask(humoto::TaskSharedPointer(new TaskCoPVelocity(g[2])), 1);
    long n = u.x.size();
    VecX lb(n), ub(n);
    for (long k = 0; k < u.s.N; ++k) { MatX b = copBounds(u.s, k); lb.segment(2 * k, 2) = lowerCol(b); ub.segment(2 * k, 2) = upperCol(b); }
    for (long j = 0; j < u.M; ++j) { MatX b = stepBounds(u.s, u.s.starts[j]); lb.segment(2 * (u.s.N + j), 2) = lowerCol(b); ub.segment(2 * (u.s.N + j), 2) = upperCol(b); }
    for (long i = 0; i < n; ++i) requires_(land({le(lb(i), ub(i)), gt(lb(i), -humoto::g_infinity), lt(ub(i), humoto::g_infinity)}));
    humoto::Solution sol;
    p.form(sol, u.s.model, u.mpc);
    humoto::QPProblem_ILU_ALU qp;
    p.getQPProblem(qp, sol);
    const humoto::QPProblem_ILU_ALU &q = qp;
    ensures("bounds of the assembled problem", land({eqm(q.getSolutionLowerBounds(), lb), eqm(q.getSolutionUpperBounds(), ub)}));
    ensures("no general constraints", q.getGeneralConstraints().getA().rows() == 0);
    VecX x = u.x, zero = VecX::Zero(n);
    Real c0 = costOf(u, zero, g), c1 = costOf(u, x, g);
    ensures("objective of the assembled problem", eq((x.transpose() * (q.getHessian() * x))(0) + Real(2) * q.getGradient().dot(x) + c0, c1));
}
