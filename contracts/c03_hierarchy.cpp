// PROPERTY C03
#include "tasks_common.h"
using namespace vp;

struct Level
{
    std::vector<AnyTask> tasks;          // in the order in which they were added
    PublicProblem problem;
    humoto::Solution solution;
    long n;
};
// representative types: every combination of (equality / lower / two-sided) x (general / selection / gained / index)
static const long TYPES[] = {0, 2, 3, 9, 10, 13, 15, 16, 18};
static void build(Level &s, long cnt, bool gains)
{
    s.problem.reset(1);
    for (long i = 0; i < cnt; ++i)
    {
        std::string p = "t" + std::to_string(i);
        long type = TYPES[choose(p + "type", 0, 8)];
        if (!gains && typeIsGained(type)) throw PathInfeasible();
        Sizes z = {1, s.n, 0, s.n};
        if (i == 1) z.m = 2;
        s.tasks.push_back(makeTask(type, p, z, false));
        s.problem.pushTask(s.tasks.back().task, 0);
    }
    DummyModel m; DummyProblem cp(s.n);
    s.problem.form(s.solution, m, cp);
}
// rows of the tasks in the order in which the level keeps them; general tasks come before bounds on variables
static std::vector<const Spec *> order(const Level &s)
{
    std::vector<const Spec *> v;
    for (auto &ti : s.problem[0].tasks_) for (auto &t : s.tasks) if (t.task.get() == ti.ptr_.get()) v.push_back(&t.spec());
    return v;
}

CONTRACT(row_counts, "HierarchyLevel::{form,pushTask,getNumberOf*,isSimple,isEquality}, OptimizationProblem::{pushTask,form,reset}")
{
    Level s; s.n = size("variables", 1, 2, 4);
    build(s, size("tasks", 1, 3, 5), true);
    long total = 0, simple = 0, equality = 0, two = 0;
    for (auto &t : s.tasks)
    {
        long m = t.spec().rows();
        total += m; if (typeIsSimple(t.type)) simple += m; if (typeIsEquality(t.type)) equality += m; if (typeIsTwoSided(t.type)) two += m;
    }
    const humoto::HierarchyLevel &l = s.problem[0];
    ensures("number of rows", (long)l.getNumberOfConstraints() == total);
    ensures("number of rows bounding variables", (long)l.getNumberOfSimpleConstraints() == simple);
    ensures("number of general rows", (long)l.getNumberOfGeneralConstraints() == total - simple);
    ensures("number of equalities", (long)l.getNumberOfEqualityConstraints() == equality);
    ensures("number of inequalities", (long)l.getNumberOfInequalityConstraints() == total - equality);
    ensures("number of one-sided inequalities", (long)l.getNumberOfInequalityConstraintsOneSided() == total - equality + two);
    ensures("level of bounds only", l.isSimple() == (simple == total));
    ensures("level of equalities only", l.isEquality() == (equality == total));
    // every task owns its own rows: the locations partition [0, total)
    std::vector<int> owner(total, 0);
    bool inside = true, sizes = true, each = true;
    for (auto &t : s.tasks)
    {
        int found = 0;
        for (auto &ti : l.tasks_)
            if (ti.ptr_.get() == t.task.get())
            {
                ++found;
                sizes = sizes && (long)ti.location_.length_ == t.spec().rows();
                for (std::size_t r = ti.location_.offset_; r < ti.location_.offset_ + ti.location_.length_; ++r)
                    if ((long)r < total) ++owner[r]; else inside = false;
            }
        each = each && found == 1;
    }
    bool partition = inside;
    for (int o : owner) partition = partition && o == 1;
    ensures("every task is kept exactly once", each);
    ensures("rows of a task are as many as it has", sizes);
    ensures("rows of the tasks partition the level", partition);
    // general tasks are stored before bounds on variables
    bool seen = false, ordered = true;
    for (auto &ti : l.tasks_) { if (ti.ptr_->isSimple()) seen = true; else if (seen) ordered = false; }
    ensures("general rows precede bounds on variables", ordered);
}

CONTRACT(stacked_two_sided, "HierarchyLevel::{getAllConstraints,getGeneralConstraints}")
{
    Level s; s.n = size("variables", 1, 2, 4);
    build(s, size("tasks", 1, 3, 5), true);
    bool all = choose("all", 0, 1);
    humoto::constraints::ContainerALU c;
    const humoto::HierarchyLevel &l = s.problem[0];
    if (all) l.getAllConstraints(c, s.solution); else l.getGeneralConstraints(c, s.solution);
    long rows = 0;
    for (auto &ti : l.tasks_)
        for (auto &t : s.tasks)
            if (t.task.get() == ti.ptr_.get() && (all || !typeIsSimple(t.type)))
            {
                long m = t.spec().rows(), off = ti.location_.offset_;
                bool fits = off + m <= c.getA().rows();
                ensures("rows of the task are present", fits);
                if (fits)
                    ensures("rows at the location of the task are its constraint", land({eqm(c.getA().middleRows(off, m), t.spec().A),
                        eqm(c.getLowerBounds().segment(off, m), lowerOf(t.spec())), eqm(c.getUpperBounds().segment(off, m), upperOf(t.spec()))}));
                rows += m;
            }
    ensures("nothing else is stacked", land({c.getA().rows() == rows, c.getLowerBounds().size() == rows, c.getUpperBounds().size() == rows, c.getA().cols() == s.n || rows == 0}));
}

CONTRACT(stacked_equalities_and_inequalities, "HierarchyLevel::{getEqualityConstraints,getInequalityConstraints}")
{
    Level s; s.n = size("variables", 1, 2, 4);
    build(s, size("tasks", 1, 3, 5), true);
    humoto::constraints::ContainerAB e; humoto::constraints::ContainerAL q;
    const humoto::HierarchyLevel &l = s.problem[0];
    l.getEqualityConstraints(e, s.solution);
    l.getInequalityConstraints(q, s.solution);
    long re = 0, rq = 0;
    for (const Spec *sp : order(s))
    {
        long m = sp->rows();
        if (sp->equality)
        {
            if (re + m <= e.getA().rows()) ensures("equalities stacked in order", land({eqm(e.getA().middleRows(re, m), sp->A), eqm(e.getB().segment(re, m), sp->lb)}));
            re += m;
            continue;
        }
        if (sp->has_lb)
        {
            if (rq + m <= q.getA().rows()) ensures("lower sides stacked in order", land({eqm(q.getA().middleRows(rq, m), sp->A), eqm(q.getLowerBounds().segment(rq, m), sp->lb)}));
            rq += m;
        }
        if (sp->has_ub)
        {
            MatX nA = -sp->A; VecX nu = -sp->ub;
            if (rq + m <= q.getA().rows()) ensures("upper sides stacked in order", land({eqm(q.getA().middleRows(rq, m), nA), eqm(q.getLowerBounds().segment(rq, m), nu)}));
            rq += m;
        }
    }
    ensures("all equalities and nothing else", land({e.getA().rows() == re, e.getB().size() == re}));
    ensures("all inequalities and nothing else", land({q.getA().rows() == rq, q.getLowerBounds().size() == rq}));
}

CONTRACT(stacked_bounds, "HierarchyLevel::getSimpleConstraints")
{
    Level s; s.n = size("variables", 1, 3, 4);
    build(s, size("tasks", 1, 3, 5), false);
    humoto::constraints::ContainerILU c;
    s.problem[0].getSimpleConstraints(c, s.solution);
    long r = 0;
    for (const Spec *sp : order(s))
    {
        if (!sp->simple) continue;
        for (long i = 0; i < sp->rows(); ++i, ++r)
        {
            if (r >= (long)c.getIndices().size()) continue;
            long k = c.getIndices()(r);
            ensures("bound refers to the bounded variable", k >= 0 && k < s.n && holds(eq(sp->A(i, k), Real(1))));
            ensures("values of the bound", land({eq(c.getLowerBounds()(r), lowerOf(*sp)(i)), eq(c.getUpperBounds()(r), upperOf(*sp)(i))}));
        }
    }
    ensures("all bounds and nothing else", land({(long)c.getIndices().size() == r, (long)c.getLowerBounds().size() == r, (long)c.getUpperBounds().size() == r}));
}

CONTRACT(levels, "OptimizationProblem::{reset,pushTask,form,getNumberOfLevels,operator[]}")
{
    long levels = size("levels", 1, 5, 7), n = 2;
    PublicProblem p; p.reset(levels);
    ensures("number of levels", (long)p.getNumberOfLevels() == levels);
    std::vector<AnyTask> tasks;
    Sizes z = {1, n, 0, n};
    for (long i = 0; i < levels; ++i)
    {
        tasks.push_back(makeTask(i % 2 ? 15 : 3, "t" + std::to_string(i), z, false));
        p.pushTask(tasks.back().task, i);
    }
    ensuresThrows("a level that does not exist is refused", [&]() { p.pushTask(tasks[0].task, levels); });
    humoto::Solution sol; DummyModel m; DummyProblem cp(n);
    bool twice = choose("form_twice", 0, 1);
    p.form(sol, m, cp);
    if (twice) p.form(sol, m, cp);
    for (long i = 0; i < levels; ++i)
    {
        ensures("each level keeps its own tasks", p[i].tasks_.size() == 1 && p[i].tasks_.front().ptr_.get() == tasks[i].task.get());
        ensures("forming again does not accumulate rows", p[i].getNumberOfConstraints() == 1);
        humoto::constraints::ContainerALU c;
        p[i].getAllConstraints(c, sol);
        ensures("each level holds the constraint of its own task", land({eqm(c.getA(), tasks[i].spec().A), eqm(c.getLowerBounds(), lowerOf(tasks[i].spec())), eqm(c.getUpperBounds(), upperOf(tasks[i].spec()))}));
    }
    ensures("the solution has the structure of the control problem", (long)sol.getNumberOfVariables() == n && sol.get_x().size() == n);
    p.reset(levels);
    for (long i = 0; i < levels; ++i) ensures("reset drops the tasks", p[i].tasks_.empty());
}

CONTRACT(empty_hierarchies_are_refused, "OptimizationProblem::form, HierarchyLevel::form")
{
    long which = choose("which", 0, 3);
    PublicProblem p; humoto::Solution sol; DummyModel m;
    Sizes z = {which == 2 ? 0 : 1, 2, 0, 2};
    AnyTask t = makeTask(3, "t", z, false);
    if (which == 0) { DummyProblem cp(2); ensuresThrows("no levels", [&]() { p.form(sol, m, cp); }); return; }
    p.reset(1);
    if (which == 1) { DummyProblem cp(2); ensuresThrows("no tasks on a level", [&]() { p.form(sol, m, cp); }); return; }
    p.pushTask(t.task, 0);
    if (which == 2) { DummyProblem cp(2); ensuresThrows("no rows on a level", [&]() { p.form(sol, m, cp); }); return; }
    humoto::SolutionStructure none; DummyProblem cp(none);
    ensuresThrows("no variables", [&]() { p.form(sol, m, cp); });
}

// tasks change their size, and forms with and without a guess of the active set alternate
CONTRACT(forming_again_with_other_sizes, "OptimizationProblem::form, HierarchyLevel::{form,guessActiveSet,processActiveSet}, TaskBase::{preForm,postForm}")
{
    static const long TYPES[] = {0, 3, 11, 19};
    long n = 2;
    PublicProblem p; p.reset(1);
    std::vector<AnyTask> t;
    for (long i = 0; i < 2; ++i) { Sizes z = {1, n, 0, n}; t.push_back(makeTask(TYPES[choose(idx("type", i), 0, 3)], idx("t", i), z, false)); p.pushTask(t.back().task, 0); }
    DummyModel m; DummyProblem cp(n);
    humoto::Solution sol; humoto::ActiveSet guess, actual;
    const long rounds = size("rounds", 2, 3, 4);
    const bool processed = choose("processed", 0, 1);
    for (long k = 0; k < rounds; ++k)
    {
        std::string r = "round" + std::to_string(k);
        long rows = 0;
        for (long i = 0; i < 2; ++i)
        {
            long c = choose(r + idx("rows", i), i == 0 ? 1 : 0, i == 0 ? 2 : 1);
            switch (t[i].type)
            {
                case 0: static_cast<SymTask<humoto::TaskALU> *>(t[i].sym)->z.m = c; break;
                case 3: static_cast<SymTask<humoto::TaskAB> *>(t[i].sym)->z.m = c; break;
                case 11: static_cast<SymTask<humoto::TaskGIL> *>(t[i].sym)->z.m = c; break;
                default: static_cast<SymTask<humoto::TaskIB0> *>(t[i].sym)->z.m = c;
            }
            rows += c;
        }
        bool with_guess = choose(r + "guess", 0, 1), formed = true;
        try { if (with_guess) p.form(sol, guess, m, cp); else p.form(sol, m, cp); }
        catch (const std::exception &) { formed = false; }
        ensures("a hierarchy whose tasks changed their sizes is formed", formed);
        if (!formed) return;
        ensures("the level has the rows of its tasks", (long)p[0].getNumberOfConstraints() == rows);
        humoto::constraints::ContainerALU c;
        p[0].getAllConstraints(c, sol);
        ensures("nothing else is stacked", c.getA().rows() == rows && c.getLowerBounds().size() == rows && c.getUpperBounds().size() == rows);
        if (c.getA().rows() != rows) return;
        for (auto &ti : p[0].tasks_)
            for (auto &a : t)
                if (a.task.get() == ti.ptr_.get())
                {
                    long o = ti.location_.offset_, l = a.spec().rows();
                    ensures("rows of the task", (long)ti.location_.length_ == l && o + l <= rows);
                    if (l > 0 && o + l <= rows) ensures("rows at the location of the task are its constraint", land({eqm(c.getA().middleRows(o, l), a.spec().A), eqm(c.getLowerBounds().segment(o, l), lowerOf(a.spec())), eqm(c.getUpperBounds().segment(o, l), upperOf(a.spec()))}));
                }
        if (with_guess) ensures("one guess per row", guess.size() == 1 && (long)guess[0].size() == rows);
        p.initializeActiveSet(actual);
        ensures("one state per row", actual.size() == 1 && (long)actual[0].size() == rows);
        if (processed) p.processActiveSet(actual);
    }
}
