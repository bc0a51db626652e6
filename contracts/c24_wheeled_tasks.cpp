// PROPERTY C24
#include "pepper_common.h"
#include "hierarchy_form.h"
using namespace vp;
using namespace humoto::pepper_mpc;
typedef humoto::ConstraintActivationType CA;

struct Setup : public PScene
{
    VecX x;
    RobotParameters rp;
    std::vector<Robot> e;
    Setup(long lo, long hi) : PScene(lo, hi)
    {
        rp.base_radius_ = sym("radius", 0.1, 1); rp.max_nominal_base_velocity_ = sym("nominal_velocity", 0.1, 1); rp.max_nominal_base_acceleration_ = sym("nominal_acceleration", 0.1, 1);
        rp.body_bounds_ = symMat("body", 2, 2);
        rp.finalize();
        model.setParameters(rp);
        if (mpc.update(motion, model) != humoto::ControlProblemStatus::OK) throw PathInfeasible();
        x = symVec("x", 4 * N);
        e = simulate(*this, x);
    }
    template <class Task> void form(Task &t) { Alone(t).form(model, mpc); }
    // values of a task, before its gain is applied
    VecX each(std::function<VecX(long)> f) const { VecX v(2 * N); for (long k = 0; k < N; ++k) v.segment(2 * k, 2) = f(k); return v; }
};
struct Stated { MatX A; VecX lb, ub; };
static Stated stated(const humoto::TaskBase &t, long n)
{
    Stated r;
    humoto::constraints::ContainerALU c;
    c.reset(t.getNumberOfConstraints(), n);
    t.copyTo(c, 0);
    r.A = c.getA(); r.lb = c.getLowerBounds(); r.ub = c.getUpperBounds();
    return r;
}
// the residual of an equality task is gain * (quantity - reference), for every solution and after the gain changes
template <class Task> static void referenceTask(Setup &u, std::function<VecX(long)> f)
{
    Real g = sym("gain"), g2 = sym("gain2");
    Task t(g);
    VecX d = u.each(f);
    u.form(t);
    Stated r = stated(t, u.x.size());
    ensures("the task is an equality", t.isEquality());
    ensures("equality", eqm(r.lb, r.ub));
    ensures("residual of the task", eqm(r.A * u.x - r.lb, d * g));
    t.setGain(g2);
    u.form(t);
    r = stated(t, u.x.size());
    ensures("residual of the task after a change of the gain", eqm(r.A * u.x - r.lb, d * g2));
    ensures("still an equality", eqm(r.lb, r.ub));
}
// a two-sided task holds for a solution exactly when the quantity is within the bounds
template <class Task> static void boundTask(Setup &u, std::function<VecX(long)> f, const etools::Matrix2 &bounds)
{
    Task t;
    VecX q = u.each(f);
    u.form(t);
    Stated r = stated(t, u.x.size());
    ensures("the task is an inequality", !t.isEquality());
    ensures("number of bounds", r.A.rows() == 2 * u.N);
    VecX ax = r.A * u.x;
    for (long k = 0; k < u.N; ++k) for (long a = 0; a < 2; ++a)
    {
        long i = 2 * k + a;
        ensures("distance from the lower bound", eq(ax(i) - r.lb(i), q(i) - bounds(a, 0)));
        ensures("distance from the upper bound", eq(r.ub(i) - ax(i), bounds(a, 1) - q(i)));
    }
}
static VecX two(const Real &a, const Real &b) { VecX v(2); v << a, b; return v; }
static VecX relative(const Robot &r) { return rotation2(r.theta).transpose() * two(r.base[0].p - r.body[0].p, r.base[1].p - r.body[1].p); }

CONTRACT(base_velocity_reference, "TaskBaseVelocityReference::form")
{
    Setup u(1, 3);
    referenceTask<TaskBaseVelocityReference>(u, [&](long k) -> VecX { return two(u.e[k].base[0].v, u.e[k].base[1].v) - rotation2(u.e[k].theta) * u.motion.base_velocity_; });
}
CONTRACT(base_position_reference, "TaskBasePositionReference::form")
{
    Setup u(1, 3);
    referenceTask<TaskBasePositionReference>(u, [&](long k) -> VecX { return two(u.e[k].base[0].p, u.e[k].base[1].p) - u.motion.base_position_; });
}
CONTRACT(body_position_reference, "TaskBodyPositionReference::form")
{
    Setup u(1, 3);
    referenceTask<TaskBodyPositionReference>(u, [&](long k) -> VecX { return relative(u.e[k]); });
}
CONTRACT(cop_centering, "TaskCoPCentering::form")
{
    Setup u(1, 3);
    referenceTask<TaskCoPCentering>(u, [&](long k) -> VecX { return copOf(u.e[k]); });
}
CONTRACT(base_jerk, "TaskBaseJerkMinimization::form")
{
    Setup u(1, 3);
    referenceTask<TaskBaseJerkMinimization>(u, [&](long k) -> VecX {
        Robot b = k == 0 ? robotOf(u.state) : u.e[k - 1];
        return two(jerkToVelocity(b.base[0], u.x(2 * k), u.T()), jerkToVelocity(b.base[1], u.x(2 * k + 1), u.T()));
    });
}
CONTRACT(body_jerk, "TaskBodyJerkMinimization::form, TaskZeroVariables::form")
{
    Setup u(1, 3);
    referenceTask<TaskBodyJerkMinimization>(u, [&](long k) -> VecX { return u.x.segment(2 * (u.N + k), 2); });
}
CONTRACT(base_velocity_bounds, "TaskBaseVelocityBounds::form")
{
    Setup u(1, 3);
    boundTask<TaskBaseVelocityBounds>(u, [&](long k) -> VecX { return two(u.e[k].base[0].v, u.e[k].base[1].v); }, u.rp.getNominalBaseVelocityBounds());
}
CONTRACT(base_acceleration_bounds, "TaskBaseAccelerationBounds::form")
{
    Setup u(1, 3);
    boundTask<TaskBaseAccelerationBounds>(u, [&](long k) -> VecX { return two(u.e[k].base[0].a, u.e[k].base[1].a); }, u.rp.getNominalBaseAccelerationBounds());
}
CONTRACT(body_position_bounds, "TaskBodyPositionBounds::form")
{
    Setup u(1, 3);
    boundTask<TaskBodyPositionBounds>(u, [&](long k) -> VecX { return relative(u.e[k]); }, u.rp.getBodyBounds());
}
CONTRACT(cop_position_bounds, "TaskCoPPositionBounds::form")
{
    Setup u(1, 3);
    boundTask<TaskCoPPositionBounds>(u, [&](long k) -> VecX { return copOf(u.e[k]); }, u.rp.getCoPBounds());
}
template <class Task> static void warmStart()
{
    Setup u(1, 3);
    Task t;
    Alone h(t);
    long n = 2 * u.N;
    auto g = h.guess(u.model, u.mpc);
    bool ok = (long)g.size() == n;
    for (long i = 0; ok && i < n; ++i) ok = g[i] == CA::INACTIVE;
    ensures("all inactive at first", ok);
    humoto::ActiveSetConstraints a;
    const CA::Type kinds[] = {CA::INACTIVE, CA::LOWER_BOUND, CA::UPPER_BOUND};
    a.initialize(n, CA::INACTIVE);
    for (long i = 0; i < n; ++i) a[i] = kinds[(i + i / 3 + 1) % 3];
    h.process(a, n);
    g = h.guess(u.model, u.mpc);
    // the horizon advances by one interval when the sampling and subsampling periods coincide; otherwise the default guess is used
    ok = (long)g.size() == n;
    for (long i = 0; ok && i < n; ++i) ok = g[i] == (u.S == u.sub && i + 2 < n ? a[i + 2] : CA::INACTIVE);
    ensures("states of the same instants", ok);
}
CONTRACT(base_velocity_active_set, "TaskBaseVelocityBounds::guessActiveSet") { warmStart<TaskBaseVelocityBounds>(); }
CONTRACT(base_acceleration_active_set, "TaskBaseAccelerationBounds::guessActiveSet") { warmStart<TaskBaseAccelerationBounds>(); }
CONTRACT(body_position_active_set, "TaskBodyPositionBounds::guessActiveSet") { warmStart<TaskBodyPositionBounds>(); }
CONTRACT(cop_position_active_set, "TaskCoPPositionBounds::guessActiveSet") { warmStart<TaskCoPPositionBounds>(); }

CONTRACT(whole_problem, "OptimizationProblem::{pushTask,form,getQPProblem} with the tasks of the wheeled robot")
{
    Setup u(1, 2);
    humoto::OptimizationProblem p;
    Real g[5] = {sym("g0"), sym("g1"), sym("g2"), sym("g3"), sym("g4")};
    p.reset(2);
    p.pushTask(humoto::TaskSharedPointer(new TaskBaseVelocityBounds()), 0);
    p.pushTask(humoto::TaskSharedPointer(new TaskCoPPositionBounds()), 0);
    p.pushTask(humoto::TaskSharedPointer(new TaskBaseAccelerationBounds()), 0);
    p.pushTask(humoto::TaskSharedPointer(new TaskBodyPositionBounds()), 0);
    p.pushTask(humoto::TaskSharedPointer(new TaskBaseVelocityReference(g[0])), 1);
    p.pushTask(humoto::TaskSharedPointer(new TaskCoPCentering(g[1])), 1);
    p.pushTask(humoto::TaskSharedPointer(new TaskBaseJerkMinimization(g[2])), 1);
    p.pushTask(humoto::TaskSharedPointer(new TaskBodyJerkMinimization(g[3])), 1);
    p.pushTask(humoto::TaskSharedPointer(new TaskBodyPositionReference(g[4])), 1);
    humoto::Solution sol;
    VecX vb = u.rp.getNominalBaseVelocityBounds().col(1);
    for (int a = 0; a < 2; ++a) requires_(land({ge(vb(a), Real(0)), lt(vb(a), humoto::g_infinity)}));
    p.form(sol, u.model, u.mpc);
    humoto::QPProblem_ILU_ALU qp;
    p.getQPProblem(qp, sol);
    const humoto::QPProblem_ILU_ALU &q = qp;
    ensures("number of general constraints", q.getGeneralConstraints().getA().rows() == 6 * u.N);
    // objective
    auto cost = [&](const VecX &x) {
        std::vector<Robot> e = simulate(u, x);
        Real c = Real(0);
        Robot b = robotOf(u.state);
        for (long k = 0; k < u.N; ++k)
        {
            VecX z = copOf(e[k]), d = relative(e[k]), ref = rotation2(e[k].theta) * u.motion.base_velocity_;
            for (int a = 0; a < 2; ++a)
            {
                Real v = e[k].base[a].v - ref(a), j = jerkToVelocity(b.base[a], x(2 * k + a), u.T()), w = x(2 * (u.N + k) + a);
                c = c + g[0] * g[0] * v * v + g[1] * g[1] * z(a) * z(a) + g[2] * g[2] * j * j + g[3] * g[3] * w * w + g[4] * g[4] * d(a) * d(a);
            }
            b = e[k];
        }
        return c;
    };
    VecX x = u.x, zero = VecX::Zero(x.size());
    ensures("objective of the assembled problem", eq((x.transpose() * (q.getHessian() * x))(0) + Real(2) * q.getGradient().dot(x) + cost(zero), cost(x)));
    // feasible set
    VecX ax = q.getGeneralConstraints().getA() * u.x, glb = q.getGeneralConstraints().getLowerBounds(), gub = q.getGeneralConstraints().getUpperBounds();
    for (long k = 0; k < u.N; ++k)
    {
        VecX z = copOf(u.e[k]), d = relative(u.e[k]);
        for (int a = 0; a < 2; ++a)
        {
            // the order of the rows is not specified
            Real quantity[3] = {z(a), u.e[k].base[a].a, d(a)};
            etools::Matrix2 limit[3] = {u.rp.getCoPBounds(), u.rp.getNominalBaseAccelerationBounds(), u.rp.getBodyBounds()};
            for (int i = 0; i < 3; ++i)
            {
                std::vector<Formula> rows;
                for (long m = 0; m < 3; ++m)
                {
                    long row = 2 * u.N * m + 2 * k + a;
                    rows.push_back(land({eq(ax(row) - glb(row), quantity[i] - limit[i](a, 0)), eq(gub(row) - ax(row), limit[i](a, 1) - quantity[i])}));
                }
                ensures("general constraints", lor(rows));
            }
            ensures("velocity bounds", land({eq(q.getSolutionLowerBounds()(2 * k + a), u.rp.getNominalBaseVelocityBounds()(a, 0)), eq(q.getSolutionUpperBounds()(2 * k + a), u.rp.getNominalBaseVelocityBounds()(a, 1))}));
            ensures("the jerk of the body is not bounded", land({le(q.getSolutionLowerBounds()(2 * (u.N + k) + a), -humoto::g_infinity), ge(q.getSolutionUpperBounds()(2 * (u.N + k) + a), humoto::g_infinity)}));
        }
    }
}
