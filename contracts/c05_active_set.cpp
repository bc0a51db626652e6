// PROPERTY C05
#include "tasks_common.h"
using namespace vp;
typedef humoto::ConstraintActivationType CAT;
// activation flags are only moved around: distinct tokens stand for arbitrary values
static CAT::Type tok(long k) { return static_cast<CAT::Type>(k); }

CONTRACT(segments, "ActiveSetConstraints::{copyTo,copyFrom,initialize,set,reset,size,operator[]}")
{
    long n = size("size", 0, 9, 14), off = size("offset", 0, 8, 12), len = size("length", 0, 8, 12), op = choose("op", 0, 5);
    bool valid = off + len <= n;
    humoto::ActiveSetConstraints big, part;
    big.initialize(n); part.initialize(len);
    for (long i = 0; i < n; ++i) big[i] = tok(100 + i);
    for (long i = 0; i < len; ++i) part[i] = tok(200 + i);
    humoto::Location loc(off, len);
    if (op == 0)
    {
        if (!valid) { ensuresThrows("location outside the set is refused", [&]() { big.copyTo(loc, part); }); return; }
        big.copyTo(loc, part);
        ensures("size is kept", (long)big.size() == n);
        for (long i = 0; i < n; ++i) ensures("part is written at the location only", big[i] == ((i >= off && i < off + len) ? tok(200 + i - off) : tok(100 + i)));
    }
    else if (op == 1)
    {
        if (!valid) { ensuresThrows("location outside the set is refused", [&]() { part.copyFrom(big, loc); }); return; }
        part.copyFrom(big, loc);
        for (long i = 0; i < len; ++i) ensures("part is read from the location", part[i] == tok(100 + off + i));
        humoto::ActiveSetConstraints wrong; wrong.initialize(len + 1);
        ensuresThrows("part of a wrong size is refused", [&]() { wrong.copyFrom(big, loc); });
    }
    else if (op == 2)
    {
        humoto::ActiveSetConstraints fresh; fresh.initialize(size("old_size", 0, 6, 9), tok(300));
        if (!valid) { ensuresThrows("location outside the set is refused", [&]() { fresh.initialize(big, loc); }); return; }
        fresh.initialize(big, loc);
        ensures("size of the part", (long)fresh.size() == len);
        for (long i = 0; i < len && i < (long)fresh.size(); ++i) ensures("part is read from the location", fresh[i] == tok(100 + off + i));
    }
    else if (op == 3)
    {
        if (!valid) { ensuresThrows("location outside the set is refused", [&]() { big.set(loc, tok(400)); }); return; }
        big.set(loc, tok(400));
        for (long i = 0; i < n; ++i) ensures("filled at the location only", big[i] == ((i >= off && i < off + len) ? tok(400) : tok(100 + i)));
    }
    else if (op == 4)
    {
        big.set(tok(400));
        for (long i = 0; i < n; ++i) ensures("filled everywhere", big[i] == tok(400));
        big.initialize(len, tok(500));
        ensures("initialised size", (long)big.size() == len);
        for (long i = 0; i < len; ++i) ensures("initialised value", big[i] == tok(500));
        big.reset();
        ensures("reset empties the set", big.size() == 0);
    }
    else
    {
        ensuresThrows("index outside the set is refused", [&]() { big[n]; });
        const humoto::ActiveSetConstraints &c = big;
        ensuresThrows("index outside the set is refused (const)", [&]() { c[n]; });
        for (long i = 0; i < n; ++i) ensures("indexing", c[i] == tok(100 + i));
    }
}

CONTRACT(shift, "ActiveSetConstraints::shift")
{
    long n = size("size", 0, 9, 12), k = size("shift", 0, 10, 13);
    humoto::ActiveSetConstraints a; a.initialize(n);
    for (long i = 0; i < n; ++i) a[i] = tok(100 + i);
    if (k > n) { ensuresThrows("a shift by more than the whole set is refused", [&]() { a.shift(k, tok(9)); }); return; }
    a.shift(k, tok(9));
    ensures("size is kept", (long)a.size() == n);
    for (long i = 0; i < n; ++i) ensures("shifted towards the front, filled at the end", a[i] == (i + k < n ? tok(100 + i + k) : tok(9)));
}

CONTRACT(count_active, "ActiveSetConstraints::countActiveInequalities")
{
    long n = size("size", 0, 4, 9), want = 0;
    humoto::ActiveSetConstraints a; a.initialize(n);
    for (long i = 0; i < n; ++i)
    {
        long t = choose(idx("type", i), 0, 4);
        a[i] = tok(t);
        want += (t == CAT::LOWER_BOUND || t == CAT::UPPER_BOUND);
    }
    ensures("number of active inequalities", (long)a.countActiveInequalities() == want);
}

CONTRACT(levels, "ActiveSet::{initialize,set,reset,size,operator[]}, OptimizationProblem::initializeActiveSet")
{
    long a = size("first", 0, 5, 8), b = size("second", 0, 5, 8);
    humoto::ActiveSet s;
    s.initialize(2, std::vector<std::size_t>({(std::size_t)a, (std::size_t)b}));
    ensures("levels get their own sizes", s.size() == 2 && (long)s[0].size() == a && (long)s[1].size() == b);
    for (long l = 0; l < 2; ++l) for (std::size_t i = 0; i < s[l].size(); ++i) ensures("flags start undefined", s[l][i] == CAT::UNDEFINED);
    s.set(1, tok(5));
    for (std::size_t i = 0; i < s[0].size(); ++i) ensures("other levels are not touched", s[0][i] == CAT::UNDEFINED);
    for (std::size_t i = 0; i < s[1].size(); ++i) ensures("level is filled", s[1][i] == tok(5));
    ensuresThrows("level outside is refused", [&]() { s[2]; });
    ensuresThrows("level outside is refused when filled", [&]() { s.set(2, tok(1)); });
    s.reset();
    ensures("reset empties the set", s.size() == 0);
}

struct Prob
{
    PublicProblem p;
    std::vector<AnyTask> tasks; std::vector<long> lev;
    DummyModel m;
};
static void build(Prob &s, long levels, bool unmodified)
{
    static const long TYPES[] = {0, 3, 11, 19};
    s.p.reset(levels);
    for (long l = 0; l < levels; ++l)
        for (long i = 0; i < 2; ++i)
        {
            std::string id = "t" + std::to_string(l) + std::to_string(i);
            Sizes z = {i + 1, 1, 0, 1};
            s.tasks.push_back(makeTask(TYPES[choose(id + "type", 0, 3)], id, z, false, unmodified)); s.lev.push_back(l);
            s.p.pushTask(s.tasks.back().task, l);
        }
}

CONTRACT(warm_start, "TaskBase::{guessActiveSet,copyActiveSetGuessTo,copyActualActiveSetFrom,preForm,postForm,markAsUnmodified}, HierarchyLevel::{guessActiveSet,processActiveSet}, OptimizationProblem::{form,guessActiveSet,processActiveSet}")
{
    long levels = size("levels", 1, 4, 6);
    bool unmodified = choose("unmodified", 0, 1), processed = choose("processed", 0, 1);
    Prob s; build(s, levels, unmodified);
    DummyProblem cp(1);
    humoto::Solution sol; humoto::ActiveSet guess, actual;
    s.p.form(sol, guess, s.m, cp);
    ensures("one guess per level", (long)guess.size() == levels);
    for (long l = 0; l < levels; ++l)
    {
        ensures("one guess per row", guess[l].size() == s.p[l].getNumberOfConstraints());
        for (auto &ti : s.p[l].tasks_)
            for (std::size_t r = ti.location_.offset_; r < ti.location_.offset_ + ti.location_.length_; ++r)
                ensures("without history equalities are guessed active, inequalities inactive", guess[l][r] == (ti.ptr_->isEquality() ? CAT::EQUALITY : CAT::INACTIVE));
    }
    s.p.initializeActiveSet(actual);
    ensures("an active set of the hierarchy has its shape", (long)actual.size() == levels);
    for (long l = 0; l < levels; ++l)
    {
        ensures("an active set of the hierarchy has its rows", actual[l].size() == s.p[l].getNumberOfConstraints());
        for (std::size_t r = 0; r < actual[l].size(); ++r) actual[l][r] = tok(100 + 10 * l + r);
    }
    if (processed) s.p.processActiveSet(actual);
    s.p.form(sol, guess, s.m, cp);
    for (long l = 0; l < levels; ++l)
        for (auto &ti : s.p[l].tasks_)
            for (std::size_t r = ti.location_.offset_; r < ti.location_.offset_ + ti.location_.length_; ++r)
            {
                if (processed && unmodified) ensures("rows of an unmodified task keep the flags returned for the same rows", guess[l][r] == tok(100 + 10 * l + r));
                else ensures("rows of a modified task restart", guess[l][r] == (ti.ptr_->isEquality() ? CAT::EQUALITY : CAT::INACTIVE));
            }
    humoto::ActiveSet bad; bad.initialize(levels + 1, std::vector<std::size_t>(levels + 1, 1));
    ensuresThrows("an active set with a wrong number of levels is refused", [&]() { s.p.processActiveSet(bad); });
}

// a problem that is rebuilt: tasks move to other places and levels, come and go
CONTRACT(warm_start_of_a_rebuilt_problem, "OptimizationProblem::{reset,pushTask,form,processActiveSet,guessActiveSet}, HierarchyLevel::*, TaskBase::{guessActiveSet,copyActualActiveSetFrom}")
{
    static const long TYPES[] = {0, 3, 11, 19};
    const long T = size("tasks", 1, 3, 5);
    std::vector<AnyTask> t;
    for (long i = 0; i < T; ++i) { Sizes z = {1 + i % 3, 1, 0, 1}; t.push_back(makeTask(TYPES[choose(idx("type", i), 0, 3)], idx("t", i), z, false, true)); }
    std::vector<humoto::ActiveSetConstraints> mine(T);
    std::vector<bool> known(T, false);
    PublicProblem p; DummyModel m; DummyProblem cp(1);
    humoto::Solution sol; humoto::ActiveSet guess, actual;
    for (int round = 0; round < 2; ++round)
    {
        std::string r = "round" + std::to_string(round);
        std::vector<long> order;
        for (long i = 0; i < T; ++i) if (i == 0 || T == 1 || choose(r + idx("present", i), 0, 1)) order.insert(choose(r + idx("first", i), 0, 1) ? order.begin() : order.end(), i);
        long levels = choose(r + "levels", 1, 2);
        if ((long)order.size() < levels) throw PathInfeasible();
        p.reset(levels);
        for (std::size_t k = 0; k < order.size(); ++k) p.pushTask(t[order[k]].task, levels == 1 ? 0 : k == 0 ? 1 : k + 1 == order.size() ? 0 : (k + round) % 2);
        p.form(sol, guess, m, cp);
        ensures("one guess per level", (long)guess.size() == levels);
        p.initializeActiveSet(actual);
        for (long l = 0; l < levels; ++l)
        {
            ensures("one guess per row", guess[l].size() == p[l].getNumberOfConstraints());
            for (auto &ti : p[l].tasks_)
                for (long i = 0; i < T; ++i)
                    if (t[i].task.get() == ti.ptr_.get())
                    {
                        mine[i].initialize(ti.location_.length_);
                        for (std::size_t k = 0; k < ti.location_.length_; ++k)
                        {
                            CAT::Type g = guess[l][ti.location_.offset_ + k];
                            if (known[i]) ensures("a task keeps its flags wherever it is", g == tok(100 + 10 * i + (long)k));
                            else ensures("a new task starts inactive, its equalities active", g == (ti.ptr_->isEquality() ? CAT::EQUALITY : CAT::INACTIVE));
                            actual[l][ti.location_.offset_ + k] = tok(100 + 10 * i + (long)k);
                        }
                        known[i] = true;
                    }
        }
        p.processActiveSet(actual);
    }
}

// the forms that start from the previous solution guess both the solution and the active set
CONTRACT(form_from_a_previous_solution, "OptimizationProblem::form (all overloads)")
{
    long levels = size("levels", 1, 2, 4), n = size("variables", 1, 3, 5);
    bool with_active_set = choose("with_active_set", 0, 1), same = choose("same_structure", 0, 1), had = choose("processed", 0, 1);
    PublicProblem p; p.reset(levels);
    std::vector<AnyTask> t;
    static const long TYPES[] = {0, 3, 11, 19};
    for (long l = 0; l < levels; ++l) { Sizes z = {2, n, 0, n}; t.push_back(makeTask(TYPES[choose(idx("type", l), 0, 3)], idx("t", l), z, false, true)); p.pushTask(t.back().task, l); }
    DummyModel m; DummyProblem cp(n);
    humoto::Solution sol, first, guess; humoto::ActiveSet ag, actual;
    humoto::SolutionStructure st; st.addSolutionPart("x", same ? n : n + 1);
    humoto::Solution old; old.initialize(st);
    VecX x = symVec("x", same ? n : n + 1); old.x_ = x;
    if (had)
    {
        p.form(first, ag, m, cp);
        p.initializeActiveSet(actual);
        for (long l = 0; l < levels; ++l) for (std::size_t r = 0; r < actual[l].size(); ++r) actual[l][r] = tok(100 + 10 * l + (long)r);
        p.processActiveSet(actual);
    }
    humoto::ActiveSet a;
    if (with_active_set) p.form(sol, guess, a, m, cp, old);
    else p.form(sol, guess, m, cp, old);
    ensures("structure of the solution", sol.get_x().size() == n);
    ensures("guess of the solution", (long)guess.get_x().size() == n);
    if (same) ensures("the previous solution is the guess", eqm(guess.get_x(), x));
    else ensures("a part of another length starts at zero", eqm(guess.get_x(), 0.0));
    if (with_active_set)
    {
        ensures("one guess per level", (long)a.size() == levels);
        for (long l = 0; l < levels && l < (long)a.size(); ++l)
        {
            ensures("one guess per row", a[l].size() == p[l].getNumberOfConstraints());
            for (std::size_t r = 0; r < a[l].size(); ++r)
                ensures("guess of the active set", a[l][r] == (had ? tok(100 + 10 * l + (long)r) : t[l].task->isEquality() ? CAT::EQUALITY : CAT::INACTIVE));
        }
    }
}
