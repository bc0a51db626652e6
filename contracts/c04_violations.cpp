// PROPERTY C04
#include "tasks_common.h"
using namespace vp;
typedef humoto::ConstraintActivationType CAT;

struct RowView { Real p, l, u; bool hl, hu, eqy; };
static RowView row(const Spec &s, long i, const VecX &x)
{
    RowView r;
    r.p = (s.A.row(i) * x)(0);
    r.hl = s.has_lb || s.equality; r.hu = s.has_ub || s.equality; r.eqy = s.equality;
    r.l = r.hl ? s.lb(i) : Real(0); r.u = r.hu ? s.ub(i) : Real(0);
    return r;
}
// signed distance to the feasible interval of the row
static void checkViolation(const humoto::ViolationsConstraints &v, long k, const RowView &r)
{
    Real d = v[k];
    if (r.hl) ensures("below the lower bound: negative distance to it", implies(lt(r.p, r.l), eq(d, r.p - r.l)));
    if (r.hu) ensures("above the upper bound: positive distance to it", implies(land({gt(r.p, r.u), r.hl ? ge(r.p, r.l) : Formula(true)}), eq(d, r.p - r.u)));
    ensures("satisfied row has no violation", implies(land({r.hl ? ge(r.p, r.l) : Formula(true), r.hu ? le(r.p, r.u) : Formula(true)}), eq(d, Real(0))));
    ensures("difference to the lower bound", eq(v.getLower(k), r.hl ? r.p - r.l : Real(0)));
    ensures("difference to the upper bound", eq(v.getUpper(k), r.hu ? r.p - r.u : Real(0)));
}
static void checkActivation(CAT::Type a, const RowView &r)
{
    if (r.eqy) { ensures("an equality is always active", a == CAT::EQUALITY); return; }
    Formula bad = (r.hl && r.hu) ? gt(r.l, r.u) : Formula(false), same = (r.hl && r.hu) ? eq(r.l, r.u) : Formula(false);
    Formula low = r.hl ? le(r.p, r.l) : Formula(false), up = r.hu ? ge(r.p, r.u) : Formula(false);
    if (r.hl && r.hu) ensures("contradicting bounds have no activation", implies(bad, Formula(a == CAT::UNDEFINED)));
    if (r.hl && r.hu) ensures("coinciding bounds act as an equality", implies(same, Formula(a == CAT::EQUALITY)));
    Formula normal = land({lnot(bad), lnot(same)});
    ensures("at or below the lower bound", implies(land({normal, low}), Formula(a == CAT::LOWER_BOUND)));
    ensures("at or above the upper bound", implies(land({normal, lnot(low), up}), Formula(a == CAT::UPPER_BOUND)));
    ensures("strictly inside", implies(land({normal, lnot(low), lnot(up)}), Formula(a == CAT::INACTIVE)));
}

CONTRACT(violation_of_a_task, "Constraints*::computeViolations, ViolationsConstraints::{set,initialize,operator[],getLower,getUpper}, Body*Mixin::getProduct")
{
    long type = choose("type", 0, N_TASK_TYPES - 1), n = size("variables", 1, 2, 5);
    Sizes z = chooseSizes(type, "", 1, 2, n);
    AnyTask t = makeTask(type, "t", z, true);
    humoto::SolutionStructure st; st.addSolutionPart("x", n);
    humoto::Solution sol; sol.initialize(st); sol.x_ = symVec("x", n);
    long before = size("rows_before", 0, 1, 3), after = size("rows_after", 0, 1, 3);
    humoto::ViolationsConstraints v; v.initialize(before + z.m + after);
    Real keep = sym("keep", -2, -1), keepu = sym("keep_upper");
    requires_(lt(keep, Real(0)));
    for (long k = 0; k < before + z.m + after; ++k) v.set(k, keep, keepu);
    t.task->computeViolations(v, humoto::Location(before, z.m), sol);
    for (long k = 0; k < before + z.m + after; ++k)
    {
        if (k >= before && k < before + z.m) checkViolation(v, k, row(t.spec(), k - before, sol.x_));
        else ensures("rows of other tasks are not touched", land({eq(v[k], keep), eq(v.getLower(k), keep), eq(v.getUpper(k), keepu)}));
    }
    ensures("size is kept", (long)v.size() == before + z.m + after);
}

CONTRACT(activation_of_a_task, "Constraints*::determineActiveSet")
{
    long type = choose("type", 0, N_TASK_TYPES - 1), n = size("variables", 1, 2, 5);
    Sizes z = chooseSizes(type, "", 1, 2, n);
    AnyTask t = makeTask(type, "t", z, true);
    humoto::SolutionStructure st; st.addSolutionPart("x", n);
    humoto::Solution sol; sol.initialize(st); sol.x_ = symVec("x", n);
    long before = size("rows_before", 0, 1, 3), after = size("rows_after", 0, 1, 3);
    humoto::ActiveSetConstraints a; a.initialize(before + z.m + after, (CAT::Type)7);
    t.task->determineActiveSet(a, humoto::Location(before, z.m), sol);
    for (long k = 0; k < before + z.m + after; ++k)
    {
        if (k >= before && k < before + z.m) checkActivation(a[k], row(t.spec(), k - before, sol.x_));
        else ensures("rows of other tasks are not touched", a[k] == (CAT::Type)7);
    }
}

CONTRACT(whole_hierarchy, "OptimizationProblem::{computeViolations,determineActiveSet}, HierarchyLevel::{computeViolations,determineActiveSet}, Violations::initialize, ActiveSet::initialize")
{
    long n = 1, levels = size("levels", 1, 2, 3);
    static const long TYPES[] = {0, 1, 3, 14, 17};
    PublicProblem p; p.reset(levels);
    std::vector<AnyTask> tasks; std::vector<long> lev;
    Sizes z = {1, n, 0, n};
    for (long l = 0; l < levels; ++l)
        for (long i = 0; i < 2; ++i)
        {
            std::string id = "t" + std::to_string(l) + std::to_string(i);
            tasks.push_back(makeTask(TYPES[l == 0 || i == 1 ? choose(id + "type", 0, 4) : 1], id, z, false)); lev.push_back(l);
            p.pushTask(tasks.back().task, l);
        }
    humoto::Solution sol; DummyModel m; DummyProblem cp(n);
    p.form(sol, m, cp);
    sol.x_ = symVec("x", n);
    humoto::Violations v; humoto::ActiveSet a;
    p.computeViolations(v, sol);
    bool act = levels == 1;
    if (act) p.determineActiveSet(a, sol);
    ensures("one entry per level", (long)v.size() == levels && (!act || (long)a.size() == levels));
    for (long l = 0; l < levels; ++l)
    {
        ensures("one entry per row", v[l].size() == 2 && (!act || a[l].size() == 2));
        humoto::constraints::ContainerALU c;
        p[l].getAllConstraints(c, sol);
        for (long k = 0; k < 2; ++k)
        {
            // the row of the stacked problem the entry refers to
            const Spec *s = 0;
            for (auto &ti : p[l].tasks_) if ((long)ti.location_.offset_ == k) for (auto &t : tasks) if (t.task.get() == ti.ptr_.get()) s = &t.spec();
            ensures("every row has an owner", s != 0);
            if (!s) continue;
            ensures("entry and stacked row agree", eqm(c.getA().row(k), s->A.row(0)));
            checkViolation(v[l], k, row(*s, 0, sol.x_));
            if (act) checkActivation(a[l][k], row(*s, 0, sol.x_));
        }
    }
}

CONTRACT(violation_containers, "ViolationsConstraints::{copyTo,copyFrom,initialize,setZero,set,operator[]}")
{
    long n = size("size", 0, 3, 6), off = size("offset", 0, 3, 6), len = size("length", 0, 3, 6), op = choose("op", 0, 4);
    bool valid = off + len <= n;
    humoto::ViolationsConstraints big, part;
    big.initialize(n); part.initialize(len);
    // rows violated at their lower or upper bounds in turn
    auto fill = [](humoto::ViolationsConstraints &v, long i, bool lower, const std::string &p)
    {
        Real l = lower ? sym(idx(p + "l", i), -2, -1) : sym(idx(p + "l", i), 1, 2), u = sym(idx(p + "u", i), 1, 2);
        requires_(land({lower ? lt(l, Real(0)) : ge(l, Real(0)), gt(u, Real(0))}));
        v.set(i, l, u);
    };
    for (long i = 0; i < n; ++i) fill(big, i, i % 2 == 0, "");
    for (long i = 0; i < len; ++i) fill(part, i, i % 2 == 1, "p");
    humoto::ViolationsConstraints b0 = big, p0 = part;
    humoto::Location loc(off, len);
    auto same = [](const humoto::ViolationsConstraints &x, long i, const humoto::ViolationsConstraints &y, long j) { return land({eq(x[i], y[j]), eq(x.getLower(i), y.getLower(j)), eq(x.getUpper(i), y.getUpper(j))}); };
    if (op == 0)
    {
        if (!valid) { ensuresThrows("location outside the vector is refused", [&]() { big.copyTo(loc, part); }); return; }
        big.copyTo(loc, part);
        for (long i = 0; i < n; ++i) ensures("part is written at the location only", (i >= off && i < off + len) ? same(big, i, p0, i - off) : same(big, i, b0, i));
    }
    else if (op == 1 || op == 2)
    {
        if (op == 2) part.initialize(len + 1);
        if (!valid || op == 2) { if (op == 1) { ensuresThrows("location outside the vector is refused", [&]() { part.copyFrom(big, loc); }); } else ensuresThrows("wrong size is refused", [&]() { part.copyFrom(big, loc); }); return; }
        part.copyFrom(big, loc);
        for (long i = 0; i < len; ++i) ensures("part is read from the location", same(part, i, b0, off + i));
    }
    else if (op == 3)
    {
        humoto::ViolationsConstraints fresh; fresh.initialize(size("old_size", 0, 2, 5));
        if (!valid) { ensuresThrows("location outside the vector is refused", [&]() { fresh.initialize(big, loc); }); return; }
        fresh.initialize(big, loc);
        ensures("size of the part", (long)fresh.size() == len);
        for (long i = 0; i < len; ++i) ensures("part is read from the location", same(fresh, i, b0, off + i));
    }
    else
    {
        if (!valid) { ensuresThrows("location outside the vector is refused", [&]() { big.setZero(loc); }); return; }
        big.setZero(loc);
        for (long i = 0; i < n; ++i)
            ensures("zeroed at the location only", (i >= off && i < off + len) ? land({eq(big[i], Real(0)), eq(big.getLower(i), Real(0)), eq(big.getUpper(i), Real(0))}) : same(big, i, b0, i));
        ensuresThrows("index outside the vector is refused", [&]() { big[n]; });
        ensuresThrows("index outside the vector is refused when written", [&]() { big.set(n, Real(0), Real(0)); });
        humoto::Violations vs; vs.initialize(2, std::vector<std::size_t>({(std::size_t)n, (std::size_t)len}));
        ensures("levels get their own sizes", vs.size() == 2 && (long)vs[0].size() == n && (long)vs[1].size() == len);
        for (long l = 0; l < 2; ++l) for (long i = 0; i < (long)vs[l].size(); ++i) vs[l].set(i, Real(-3), Real(5));
        vs.setZero(1);
        const humoto::Violations &cvs = vs;
        for (long i = 0; i < n; ++i) ensures("the violations of other levels are kept", land({eq(cvs[0][i], Real(-3)), eq(cvs[0].getLower(i), Real(-3)), eq(cvs[0].getUpper(i), Real(5))}));
        for (long i = 0; i < len; ++i) ensures("all violations of the level are zero", land({eq(cvs[1][i], Real(0)), eq(cvs[1].getLower(i), Real(0)), eq(cvs[1].getUpper(i), Real(0))}));
        ensuresThrows("level outside is refused", [&]() { vs[2]; });
        ensuresThrows("level outside is refused when read", [&]() { cvs[2]; });
        ensuresThrows("level outside is refused when zeroed", [&]() { vs.setZero(2); });
        vs.reset();
        ensures("reset removes all levels", vs.size() == 0);
    }
}
