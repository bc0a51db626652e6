// PROPERTY C25
#include "tasks_common.h"
#include "hierarchy_form.h"
#include "humoto/rigid_body.h"
#include "humoto/obstacle_avoidance.h"
using namespace vp;

struct Stated { MatX A; VecX lb, ub; };
static Stated stated(const humoto::TaskBase &t, long n)
{
    Stated r;
    humoto::constraints::ContainerALU c;
    c.reset(t.getNumberOfConstraints(), n);
    t.copyTo(c, 0);
    r.A = c.getA(); r.lb = c.getLowerBounds(); r.ub = c.getUpperBounds();
    return r;
}
static void form(humoto::TaskBase &b, const humoto::SolutionStructure &s)
{
    DummyModel m; DummyProblem p(s);
    Alone(b).form(m, p);
}
// parts "a", "b", "c" of chosen lengths
static humoto::SolutionStructure structure(const std::string &p, long *off, long *len)
{
    humoto::SolutionStructure s;
    const char *names[] = {"a", "b", "c"};
    long o = 0, n = 3;
    for (long i = 0; i < n; ++i)
    {
        len[i] = size(p + names[i], i == 0 ? 1 : 0, 4, 6);
        off[i] = o; o += len[i];
        s.addSolutionPart(names[i], len[i]);
    }
    return s;
}
static void ensuresZero(const humoto::TaskBase &t, const VecX &x, long off, long len, const Real &g)
{
    ensures("the task is an equality", t.isEquality());
    Stated r = stated(t, x.size());
    VecX e = x.segment(off, len) * g;
    ensures("residual is the weighted variables", land({eqm(r.lb, r.ub), eqm(r.A * x - r.lb, e)}));
    // and so does the objective built from it
    Eigen::MatrixXd H; Eigen::VectorXd h;
    t.getATAandATb(H, h);
    ensures("objective is the weighted norm of the variables", land({eq((x.transpose() * (MatX(MatX(H).selfadjointView<Eigen::Lower>()) * x))(0), e.dot(e)), eqm(h, 0.0)}));
}
CONTRACT(zero_variables, "TaskZeroVariables::{TaskZeroVariables,form,setVariablesID}, GeneralTaskBaseMixin::setGain")
{
    long off[3], len[3];
    humoto::SolutionStructure s = structure("old_", off, len);
    long part = choose("part", -1, 2);
    const char *names[] = {"a", "b", "c"};
    Real g = sym("gain"), g2 = sym("gain2");
    humoto::TaskZeroVariables t(g, "zero", part < 0 ? "" : names[part]);
    long n = (long)s.getNumberOfVariables();
    form(t, s);
    long o = part < 0 ? 0 : off[part], l = part < 0 ? n : len[part];
    ensuresZero(t, symVec("x", n), o, l, g);
    form(t, s);
    ensuresZero(t, symVec("x", n), o, l, g);
    t.setGain(g2);
    form(t, s);
    ensuresZero(t, symVec("x", n), o, l, g2);
    ensures("constraints are as many as variables", (long)t.getNumberOfConstraints() == l);
}
CONTRACT(zero_variables_restructured, "TaskZeroVariables::form after a change of the solution structure")
{
    long off[3], len[3], off2[3], len2[3];
    humoto::SolutionStructure s = structure("old_", off, len), s2 = structure("new_", off2, len2);
    long part = choose("part", -1, 2);
    const char *names[] = {"a", "b", "c"};
    Real g = sym("gain");
    humoto::TaskZeroVariables t(g, "zero", part < 0 ? "" : names[part]);
    form(t, s);
    form(t, s2);
    long n = (long)s2.getNumberOfVariables();
    ensuresZero(t, symVec("x", n), part < 0 ? 0 : off2[part], part < 0 ? n : len2[part], g);
    long other = choose("other_part", 0, 2);
    t.setVariablesID(names[other]);
    form(t, s2);
    ensuresZero(t, symVec("x", n), off2[other], len2[other], g);
    t.setVariablesID("unknown");
    form(t, s2);
    ensures("variables that are not there are not constrained", t.getNumberOfConstraints() == 0);
}
CONTRACT(zero_selected_variables, "TaskZeroSelectedVariables::form")
{
    long n = size("variables", 1, 6, 9), m = size("selected", 0, 6, 9);
    if (m > n) throw PathInfeasible();
    humoto::IndexVector I(m);
    VecX x = symVec("x", n), e(m);
    Real g = sym("gain"), g2 = sym("gain2");
    for (long i = 0; i < m; ++i) { long k = choose(idx("index", i), 0, n - 1); I(i) = (unsigned)k; e(i) = x(k); }
    humoto::TaskZeroSelectedVariables t(I, g);
    humoto::SolutionStructure s; s.addSolutionPart("x", n);
    for (long round = 0; round < 2; ++round)
    {
        form(t, s);
        Stated r = stated(t, n);
        ensures("residual is the weighted selected variables", land({eqm(r.lb, r.ub), eqm(r.A * x - r.lb, e * (round ? g2 : g))}));
        ensures("the task is an equality", t.isEquality());
        t.setGain(g2);
    }
}
CONTRACT(infeasible_inequality, "TaskInfeasibleInequality::form")
{
    long n = size("variables", 1, 6, 9), n2 = size("variables_later", 1, 6, 9);
    humoto::TaskInfeasibleInequality t;
    humoto::SolutionStructure s, s2; s.addSolutionPart("x", n); s2.addSolutionPart("x", n2);
    form(t, s);
    form(t, s2);
    VecX x = symVec("x", n2);
    Stated r = stated(t, n2);
    std::vector<Formula> f;
    VecX y = r.A * x;
    for (long i = 0; i < y.size(); ++i) { f.push_back(le(r.lb(i), y(i))); f.push_back(le(y(i), r.ub(i))); }
    ensures("an inequality that no solution satisfies", lnot(land(f)));
    ensures("inequality", !t.isEquality());
}
class Obstacle : public humoto::obstacle_avoidance::ObstacleBase
{
public:
    Obstacle() {}
    Obstacle(const etools::Vector3 &p, const etools::Vector3 &r) : humoto::obstacle_avoidance::ObstacleBase(p, r) {}
    void updateConstraints(const humoto::ControlProblem &, const humoto::Solution &, const Real) {}
    void resetConstraints(const humoto::ControlProblem &) {}
    void set(const MatX &A, const VecX &b) { A_ = A; ub_ = b; }
};
CONTRACT(obstacle, "ObstacleBase::{ObstacleBase,updateState,getA,getBounds}")
{
    etools::Vector3 p = symVec("p", 3), r = symVec("r", 3), v = symVec("v", 3), w = symVec("w", 3), a = symVec("a", 3), d = symVec("d", 3), p2 = symVec("p2", 3), r2 = symVec("r2", 3);
    Obstacle o(p, r);
    ensures("constructed at its pose, at rest", land({eqm(o.position_, p), eqm(o.rpy_, r), eqm(o.velocity_, 0.0), eqm(o.acceleration_, 0.0), eqm(o.angular_velocity_, 0.0), eqm(o.angular_acceleration_, 0.0)}));
    humoto::rigidbody::RigidBodyState s;
    s.set(p2, r2, v, w, a, d);
    o.updateState(s);
    ensures("takes over a whole state", land({eqm(o.position_, p2), eqm(o.rpy_, r2), eqm(o.velocity_, v), eqm(o.angular_velocity_, w), eqm(o.acceleration_, a), eqm(o.angular_acceleration_, d)}));
    o.updateState(p, r);
    ensures("a new pose is at rest", land({eqm(o.position_, p), eqm(o.rpy_, r), eqm(o.velocity_, 0.0), eqm(o.acceleration_, 0.0), eqm(o.angular_velocity_, 0.0), eqm(o.angular_acceleration_, 0.0)}));
    MatX A = symMat("A", 2, 3); VecX b = symVec("b", 2);
    o.set(A, b);
    ensures("constraints are handed out as computed", land({eqm(o.getA(), A), eqm(o.getBounds(), b)}));
}
