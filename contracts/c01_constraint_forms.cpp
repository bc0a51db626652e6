// PROPERTY C01
#include "tasks_common.h"
using namespace vp;

CONTRACT(two_sided_form, "Constraints{ALU,AL,AU,AB,AB0,ASLU,ASL,ASU,ASB,ASB0,GILU,GIL,GIU,GIB,GIB0,ILU,IL,IU,IB,IB0}::copyTo(ContainerALU)")
{
    long type = choose("type", 0, N_TASK_TYPES - 1), n = size("variables", 1, 6, 9);
    Sizes z = chooseSizes(type, "", 0, 2, n);
    AnyTask t = makeTask(type, "t", z, true);
    long before = size("rows_before", 0, 3, 5), after = size("rows_after", 0, 3, 5);
    humoto::constraints::ContainerALU c;
    c.reset(before + z.m + after, n);
    MatX A0 = symMat("A0", before + z.m + after, n);
    VecX l0 = symVec("l0", before + z.m + after), u0 = symVec("u0", before + z.m + after);
    c.getA() = A0; c.getLowerBounds() = l0; c.getUpperBounds() = u0;
    t.task->checkConsistency();
    std::size_t next = t.task->copyTo(c, before);
    ensures("offset of the next constraint", next == (std::size_t)(before + z.m));
    ensures("number of rows", t.task->getNumberOfConstraints() == (std::size_t)z.m);
    ensures("matrix rows are those of the stated constraint", eqm(c.getA().middleRows(before, z.m), t.spec().A));
    ensures("lower bounds are those of the stated constraint", eqm(c.getLowerBounds().segment(before, z.m), lowerOf(t.spec())));
    ensures("upper bounds are those of the stated constraint", eqm(c.getUpperBounds().segment(before, z.m), upperOf(t.spec())));
    ensures("other rows are not touched", land({eqm(c.getA().topRows(before), A0.topRows(before)), eqm(c.getA().bottomRows(after), A0.bottomRows(after)),
        eqm(c.getLowerBounds().head(before), l0.head(before)), eqm(c.getLowerBounds().tail(after), l0.tail(after)),
        eqm(c.getUpperBounds().head(before), u0.head(before)), eqm(c.getUpperBounds().tail(after), u0.tail(after))}));
}

CONTRACT(one_sided_form, "Constraints*::copyTo(ContainerAL)")
{
    long type = choose("type", 0, N_TASK_TYPES - 1), n = size("variables", 1, 6, 9);
    Sizes z = chooseSizes(type, "", 0, 2, n);
    AnyTask t = makeTask(type, "t", z, true);
    const Spec &s = t.spec();
    long rows = typeIsTwoSided(type) ? 2 * z.m : z.m;
    long before = size("rows_before", 0, 3, 5), after = size("rows_after", 0, 3, 5);
    humoto::constraints::ContainerAL c;
    c.reset(before + rows + after, n);
    MatX A0 = symMat("A0", before + rows + after, n);
    VecX l0 = symVec("l0", before + rows + after);
    c.getA() = A0; c.getLowerBounds() = l0;
    if (typeIsEquality(type))
    {
        ensuresThrows("equalities have no one-sided form", [&]() { t.task->copyTo(c, before); });
        return;
    }
    std::size_t next = t.task->copyTo(c, before);
    ensures("offset of the next constraint", next == (std::size_t)(before + rows));
    long r = before;
    if (s.has_lb)
    {
        ensures("lower side: A x >= L", land({eqm(c.getA().middleRows(r, z.m), s.A), eqm(c.getLowerBounds().segment(r, z.m), s.lb)}));
        r += z.m;
    }
    if (s.has_ub)
    {
        MatX nA = -s.A; VecX nu = -s.ub;
        ensures("upper side: -A x >= -U", land({eqm(c.getA().middleRows(r, z.m), nA), eqm(c.getLowerBounds().segment(r, z.m), nu)}));
        r += z.m;
    }
    ensures("every side is represented", r == before + rows);
    ensures("other rows are not touched", land({eqm(c.getA().topRows(before), A0.topRows(before)), eqm(c.getA().bottomRows(after), A0.bottomRows(after)),
        eqm(c.getLowerBounds().head(before), l0.head(before)), eqm(c.getLowerBounds().tail(after), l0.tail(after))}));
}

CONTRACT(equality_form, "Constraints*::copyTo(ContainerAB)")
{
    long type = choose("type", 0, N_TASK_TYPES - 1), n = size("variables", 1, 6, 9);
    Sizes z = chooseSizes(type, "", 0, 2, n);
    AnyTask t = makeTask(type, "t", z, true);
    long before = size("rows_before", 0, 3, 5), after = size("rows_after", 0, 3, 5);
    humoto::constraints::ContainerAB c;
    c.reset(before + z.m + after, n);
    MatX A0 = symMat("A0", before + z.m + after, n);
    VecX b0 = symVec("b0", before + z.m + after);
    c.getA() = A0; c.getB() = b0;
    if (!typeIsEquality(type))
    {
        ensuresThrows("inequalities have no equality form", [&]() { t.task->copyTo(c, before); });
        return;
    }
    std::size_t next = t.task->copyTo(c, before);
    ensures("offset of the next constraint", next == (std::size_t)(before + z.m));
    ensures("matrix rows are those of the stated constraint", eqm(c.getA().middleRows(before, z.m), t.spec().A));
    ensures("right-hand side is that of the stated constraint", eqm(c.getB().segment(before, z.m), t.spec().lb));
    ensures("other rows are not touched", land({eqm(c.getA().topRows(before), A0.topRows(before)), eqm(c.getA().bottomRows(after), A0.bottomRows(after)),
        eqm(c.getB().head(before), b0.head(before)), eqm(c.getB().tail(after), b0.tail(after))}));
}

CONTRACT(simple_form, "Constraints*::copyTo(ContainerILU)")
{
    long type = choose("type", 0, N_TASK_TYPES - 1), n = size("variables", 1, 3, 6);
    Sizes z = chooseSizes(type, "", 0, 3, n);
    AnyTask t = makeTask(type, "t", z, true);
    const Spec &s = t.spec();
    long before = size("rows_before", 0, 1, 3), after = size("rows_after", 0, 1, 3);
    humoto::constraints::ContainerILU c;
    c.reset(before + z.m + after, n);
    VecX l0 = symVec("l0", before + z.m + after), u0 = symVec("u0", before + z.m + after);
    c.getLowerBounds() = l0; c.getUpperBounds() = u0;
    c.getIndices().setConstant(77);
    if (!typeIsSimple(type) || typeIsGained(type))
    {
        ensuresThrows("only bounds on variables have the index form", [&]() { t.task->copyTo(c, before); });
        return;
    }
    std::size_t next = t.task->copyTo(c, before);
    ensures("offset of the next constraint", next == (std::size_t)(before + z.m));
    for (long i = 0; i < before + z.m + after; ++i)
    {
        if (i < before || i >= before + z.m)
        {
            ensures("other rows are not touched", land({c.getIndices()(i) == 77, eq(c.getLowerBounds()(i), l0(i)), eq(c.getUpperBounds()(i), u0(i))}));
            continue;
        }
        long k = c.getIndices()(i);
        bool in = k >= 0 && k < n;
        ensures("index in range", in);
        if (in) ensures("index selects the constrained variable", eq(s.A(i - before, k), Real(1)));
        ensures("lower bound", eq(c.getLowerBounds()(i), lowerOf(s)(i - before)));
        ensures("upper bound", eq(c.getUpperBounds()(i), upperOf(s)(i - before)));
    }
}

CONTRACT(classification, "Constraints*::{getType,isEquality,isSimple,isTwoSidedInequality,checkConsistency}, ConstraintType::*")
{
    long type = choose("type", 0, N_TASK_TYPES - 1);
    Sizes z = {2, 3, 1, 2};
    AnyTask t = makeTask(type, "t", z, true);
    ensures("equality flag", t.task->isEquality() == typeIsEquality(type));
    ensures("simple flag", t.task->isSimple() == typeIsSimple(type));
    ensures("two-sided flag", t.task->isTwoSidedInequality() == typeIsTwoSided(type));
    ensures("number of variables", t.task->getNumberOfVariables() == 3);
    t.task->checkConsistency();
    ensures("undefined type is refused", true);
    ensuresThrows("undefined type has no classification", [&]() { humoto::constraints::ConstraintType::isEquality(humoto::constraints::ConstraintType::UNDEFINED); });
    ensuresThrows("undefined type has no simplicity", [&]() { humoto::constraints::ConstraintType::isSimple(humoto::constraints::ConstraintType::UNDEFINED); });
    ensuresThrows("undefined type has no sidedness", [&]() { humoto::constraints::ConstraintType::isTwoSidedInequality(humoto::constraints::ConstraintType::UNDEFINED); });
}

template <class T> auto spoilL(T &t, long d, int) -> decltype(t.getLowerBounds(), bool()) { VecX v = t.getLowerBounds(); v.conservativeResize(v.size() + d); t.getLowerBounds() = v; return true; }
template <class T> bool spoilL(T &, long, long) { return false; }
template <class T> auto spoilU(T &t, long d, int) -> decltype(t.getUpperBounds(), bool()) { VecX v = t.getUpperBounds(); v.conservativeResize(v.size() + d); t.getUpperBounds() = v; return true; }
template <class T> bool spoilU(T &, long, long) { return false; }
template <class T> auto spoilB(T &t, long d, int) -> decltype(t.getB(), bool()) { VecX v = t.getB(); v.conservativeResize(v.size() + d); t.getB() = v; return true; }
template <class T> bool spoilB(T &, long, long) { return false; }
template <class T> auto spoilG(T &t, long d, int) -> decltype(t.getIGains(), bool()) { VecX v = t.getIGains(); v.conservativeResize(v.size() + d); t.getIGains() = v; return true; }
template <class T> bool spoilG(T &, long, long) { return false; }
template <class T> auto spoilA(T &t, int) -> decltype(t.getA(), bool()) { MatX v = t.getA(); v.conservativeResize(v.rows(), v.cols() + 1); t.getA() = v; return true; }
template <class T> bool spoilA(T &, long) { return false; }
template <class T> auto spoilZ(T &t, int) -> decltype(t.getA(), bool()) { t.getA().resize(2, 0); return true; }
template <class T> bool spoilZ(T &, long) { return false; }

CONTRACT(inconsistent_tasks_are_refused, "Constraints*::checkConsistency")
{
    long type = choose("type", 0, N_TASK_TYPES - 1), what = choose("defect", 0, 5), d = choose("delta", 0, 1) ? 1 : -1;
    Sizes z = {2, 3, 1, 2};
    AnyTask t = makeTask(type, "t", z, true);
    bool spoiled = false;
    switch (type)
    {
#define X(k, T) case k: { humoto::T &b = dynamic_cast<humoto::T &>(*t.task); switch (what) { case 0: spoiled = spoilL(b, d, 0); break; case 1: spoiled = spoilU(b, d, 0); break; \
        case 2: spoiled = spoilB(b, d, 0); break; case 3: spoiled = spoilG(b, d, 0); break; case 4: spoiled = spoilA(b, 0); break; case 5: spoiled = spoilZ(b, 0); break; } break; }
        VP_ALL_TASK_TYPES(X)
#undef X
    }
    if (!spoiled) return;
    ensuresThrows("a task with mismatching sizes is refused", [&]() { t.task->checkConsistency(); });
}

CONTRACT(storage_overflow_is_refused, "ContainerBase::getCopyLocation, Constraints*::copyTo")
{
    long type = choose("type", 0, N_TASK_TYPES - 1);
    Sizes z = {2, 3, 1, 2};
    AnyTask t = makeTask(type, "t", z, true);
    long offset = size("offset", 0, 5, 8), rows = size("size", 0, 6, 9);
    if (offset + 2 <= rows) return;
    humoto::constraints::ContainerALU c;
    c.reset(rows, 3);
    ensuresThrows("rows that do not fit are refused", [&]() { t.task->copyTo(c, offset); });
}

// storage set to its defaults states nothing: no bounds, and rows of zeros
template <class T> static void defaultBody(T &c, long m, long n, int, decltype(std::declval<T &>().getA(), int()) = 0) { ensures("a default matrix is zero", land({c.getA().rows() == m, c.getA().cols() == n, eqm(c.getA(), 0.0)})); }
template <class T> static void defaultBody(T &c, long m, long, long) { ensures("one variable per row", (long)c.getIndices().size() == m); }
template <class T> static auto dirtyBody(T &c, int) -> decltype(c.getA(), void()) { c.getA().setConstant(Real(3)); }
template <class T> static void dirtyBody(T &c, long) { c.getIndices().setConstant(1); }
template <class T> static auto defaultGains(T &c, long m, int) -> decltype(c.getIGains(), void()) { ensures("default weights are one", land({(long)c.getIGains().size() == m, eqm(c.getIGains(), 1.0)})); }
template <class T> static void defaultGains(T &, long, long) {}
template <class T> static auto dirtyGains(T &c, int) -> decltype(c.getIGains(), void()) { c.getIGains().setConstant(Real(3)); }
template <class T> static void dirtyGains(T &, long) {}
template <class T> static auto defaultOffset(T &c, int) -> decltype(c.setOffset(0), bool()) { ensures("default offset", c.getOffset() == 0); return true; }
template <class T> static bool defaultOffset(T &, long) { return false; }
template <class T> static auto defaultL(T &c, long m, int) -> decltype(c.getLowerBounds(), void()) { ensures("a default lower bound bounds nothing", land({c.getLowerBounds().size() == m, eqm(c.getLowerBounds(), VecX(VecX::Constant(m, -humoto::g_infinity)))})); c.getLowerBounds().setConstant(Real(5)); }
template <class T> static void defaultL(T &, long, long) {}
template <class T> static auto defaultU(T &c, long m, int) -> decltype(c.getUpperBounds(), void()) { ensures("a default upper bound bounds nothing", land({c.getUpperBounds().size() == m, eqm(c.getUpperBounds(), VecX(VecX::Constant(m, humoto::g_infinity)))})); c.getUpperBounds().setConstant(Real(5)); }
template <class T> static void defaultU(T &, long, long) {}
template <class T> static auto defaultB(T &c, long m, int) -> decltype(c.getB(), void()) { ensures("a default right-hand side is zero", land({c.getB().size() == m, eqm(c.getB(), 0.0)})); c.getB().setConstant(Real(5)); }
template <class T> static void defaultB(T &, long, long) {}
template <class Base> struct DefaultTask : public Base
{
    DefaultTask() : Base("default") {}
    ~DefaultTask() {}
    void form(const humoto::SolutionStructure &, const humoto::Model &, const humoto::ControlProblem &) {}
    void check(long m, long n)
    {
        Base::reset(m, n, true);
        Base &b = *this;
        ensures("rows and variables", (long)Base::getNumberOfConstraints() == m && (long)Base::getNumberOfVariables() == n);
        defaultBody(b, m, n, 0); defaultGains(b, m, 0); defaultOffset(b, 0);
        defaultL(b, m, 0); defaultU(b, m, 0); defaultB(b, m, 0);
        dirtyBody(b, 0); dirtyGains(b, 0);
    }
};
CONTRACT(default_storage, "reset, resetBody, resetBounds of all the storage mixins")
{
    long type = choose("type", 0, N_TASK_TYPES - 1);
    long m = size("rows", 0, 3, 6), n = size("variables", 1, 3, 6), m2 = size("other_rows", 0, 3, 6);
    switch (type)
    {
#define X(k, T) case k: { DefaultTask<humoto::T> t; t.check(m, n); t.check(m2, n); break; }
        VP_ALL_TASK_TYPES(X)
#undef X
    }
}
