// Symbolic tasks: one concrete task per constraint type of the library, with symbolic data, together with the
// dense constraint  lb <= A x <= ub  it states (the specification, computed independently of the library).
#pragma once
#include "vp_eigen.h"
#include "humoto/humoto.h"

namespace vp
{
    struct Spec
    {
        MatX A;
        VecX lb, ub;
        bool has_lb, has_ub, equality, simple, gained, selection;
        Spec() : has_lb(false), has_ub(false), equality(false), simple(false), gained(false), selection(false) {}
        long rows() const { return A.rows(); }
    };

    struct Sizes { long m, n, off, w; };          // rows, variables, column offset and width for the A*S types

    // ---- bodies
    template <class T> auto fillOffset(T &t, const Sizes &z, int) -> decltype(t.setOffset(0), bool()) { t.setOffset(z.off); return true; }
    template <class T> bool fillOffset(T &, const Sizes &, long) { return false; }
    template <class T> auto fillGains(T &t, const Spec &s, const VecX &g, int) -> decltype(t.getIGains(), bool()) { t.getIGains() = g; (void)s; return true; }
    template <class T> bool fillGains(T &, const Spec &, const VecX &, long) { return false; }

    template <class T> auto fillBody(T &t, Spec &s, const Sizes &z, const std::string &p, int) -> decltype(t.getA(), void())
    {
        s.A = MatX::Zero(z.m, z.n);
        bool sel = fillOffset(t, z, 0);
        s.selection = sel;
        long w = sel ? z.w : z.n, off = sel ? z.off : 0;
        MatX A = symMat(p + "A", z.m, w);
        s.A.block(0, off, z.m, w) = A;
        t.getA() = A;
    }
    template <class T> auto fillBody(T &t, Spec &s, const Sizes &z, const std::string &p, long) -> decltype(t.getIndices(), void())
    {
        s.A = MatX::Zero(z.m, z.n);
        s.simple = true;
        VecX g = symVec(p + "G", z.m);
        s.gained = fillGains(t, s, g, 0);
        if (!s.gained) g.setConstant(Real(1));
        for (long i = 0; i < z.m; ++i)
        {
            long k = choose(idx(p + "I", i), 0, z.n - 1);
            t.getIndices()(i) = (unsigned)k;
            s.A(i, k) = g(i);
        }
    }
    // ---- bounds
    template <class T> auto fillL(T &t, Spec &s, const std::string &p, int) -> decltype(t.getLowerBounds(), void()) { s.lb = symVec(p + "L", s.rows()); s.has_lb = true; t.getLowerBounds() = s.lb; }
    template <class T> void fillL(T &, Spec &, const std::string &, long) {}
    template <class T> auto fillU(T &t, Spec &s, const std::string &p, int) -> decltype(t.getUpperBounds(), void()) { s.ub = symVec(p + "U", s.rows()); s.has_ub = true; t.getUpperBounds() = s.ub; }
    template <class T> void fillU(T &, Spec &, const std::string &, long) {}
    template <class T> auto fillB(T &t, Spec &s, const std::string &p, int) -> decltype(t.getB(), void()) { s.lb = s.ub = symVec(p + "B", s.rows()); s.equality = true; t.getB() = s.lb; }
    template <class T> void fillB(T &, Spec &s, const std::string &, long) { if (!s.has_lb && !s.has_ub) { s.lb = s.ub = VecX::Zero(s.rows()); s.equality = true; } }

    // bounds the specification expects in the two-sided form
    inline VecX lowerOf(const Spec &s) { if (s.equality || s.has_lb) return s.lb; VecX v(s.rows()); v.setConstant(-humoto::g_infinity); return v; }
    inline VecX upperOf(const Spec &s) { if (s.equality || s.has_ub) return s.ub; VecX v(s.rows()); v.setConstant(humoto::g_infinity); return v; }

    struct SymTaskBase { Spec spec; virtual ~SymTaskBase() {} };

    template <class Base> class SymTask : public Base, public SymTaskBase
    {
    public:
        Sizes z;
        std::string prefix;
        bool unmodified;
        SymTask(const std::string &p, const Sizes &sz) : Base(p), z(sz), prefix(p), unmodified(false) {}
        ~SymTask() {}
        void fill()
        {
            Base::reset(z.m, z.n);
            spec = Spec();
            fillBody(static_cast<Base &>(*this), spec, z, prefix, 0);
            fillL(static_cast<Base &>(*this), spec, prefix, 0);
            fillU(static_cast<Base &>(*this), spec, prefix, 0);
            fillB(static_cast<Base &>(*this), spec, prefix, 0);
        }
        void form(const humoto::SolutionStructure &, const humoto::Model &, const humoto::ControlProblem &)
        {
            fill();
            if (unmodified) Base::markAsUnmodified();
        }
    };

#define VP_ALL_TASK_TYPES(X)                                                                  \
    X(0, TaskALU) X(1, TaskAL) X(2, TaskAU) X(3, TaskAB) X(4, TaskAB0)                        \
    X(5, TaskASLU) X(6, TaskASL) X(7, TaskASU) X(8, TaskASB) X(9, TaskASB0)                   \
    X(10, TaskGILU) X(11, TaskGIL) X(12, TaskGIU) X(13, TaskGIB) X(14, TaskGIB0)              \
    X(15, TaskILU) X(16, TaskIL) X(17, TaskIU) X(18, TaskIB) X(19, TaskIB0)
    enum { N_TASK_TYPES = 20 };
    inline bool typeIsSimple(long t) { return t >= 10; }
    inline bool typeIsGained(long t) { return t >= 10 && t < 15; }
    inline bool typeIsEquality(long t) { return t % 5 >= 3; }
    inline bool typeIsTwoSided(long t) { return t % 5 == 0; }

    struct AnyTask
    {
        long type;
        boost::shared_ptr<humoto::TaskBase> task;
        SymTaskBase *sym;
        Spec &spec() { return sym->spec; }
        const Spec &spec() const { return sym->spec; }
    };
    inline AnyTask makeTask(long type, const std::string &p, const Sizes &z, bool fill_now, bool unmodified = false)
    {
        AnyTask a;
        a.type = type;
        switch (type)
        {
#define X(k, T) case k: { auto *t = new SymTask<humoto::T>(p, z); t->unmodified = unmodified; a.task.reset(t); a.sym = t; if (fill_now) t->fill(); break; }
            VP_ALL_TASK_TYPES(X)
#undef X
            default: throw PathInfeasible();
        }
        return a;
    }
    // sizes: selection width/offset only branch for the selection types
    inline Sizes chooseSizes(long type, const std::string &p, long m_lo, long m_hi, long n)
    {
        Sizes z;
        z.n = n;
        z.m = m_lo < m_hi ? size(p + "rows", m_lo, m_hi, m_hi + 2) : m_lo;
        z.off = 0; z.w = n;
        if (type >= 5 && type < 10)
        {
            z.w = choose(p + "width", 1, n);
            z.off = choose(p + "offset", 0, n - z.w);
        }
        return z;
    }

    // minimal model / control problem so that the hierarchy can be formed through its public interface
    class DummyModel : public humoto::Model
    {
    public:
        void updateState(const humoto::ModelState &) {}
        void log(humoto::Logger &, const humoto::LogEntryName &, const std::string &) const {}
    };
    class DummyProblem : public humoto::ControlProblem
    {
    public:
        explicit DummyProblem(long n) { sol_structure_.addSolutionPart("x", n); }
        explicit DummyProblem(const humoto::SolutionStructure &s) { sol_structure_ = s; }
        void log(humoto::Logger &, const humoto::LogEntryName &, const std::string &) const {}
    };
    class PublicProblem : public humoto::OptimizationProblem {};
}
