// One task in a hierarchy of its own, reached through the public interface of the hierarchy only.  A one-row filler task
// keeps the level non-empty when the task states no rows; the rows of the task come first.
#pragma once
#include "vp_eigen.h"
#include "humoto/humoto.h"

namespace vp
{
    struct FillerTask : public humoto::TaskIL
    {
        FillerTask() : humoto::TaskIL("filler") {}
        ~FillerTask() {}
        void form(const humoto::SolutionStructure &s, const humoto::Model &, const humoto::ControlProblem &)
        {
            reset(1, s.getNumberOfVariables());
            getIndices()(0) = 0;
            getLowerBounds()(0) = Real(0);
        }
    };
    struct KeepTask { void operator()(humoto::TaskBase *) const {} };
    struct Alone
    {
        humoto::TaskBase &t;
        humoto::OptimizationProblem p;
        humoto::Solution solution;
        explicit Alone(humoto::TaskBase &task) : t(task)
        {
            p.reset(1);
            p.pushTask(humoto::TaskSharedPointer(&task, KeepTask()), 0);
            p.pushTask(humoto::TaskSharedPointer(new FillerTask()), 0);
        }
        long rows() const { return (long)t.getNumberOfConstraints(); }
        void form(const humoto::Model &m, const humoto::ControlProblem &c) { p.form(solution, m, c); }
        // forms the task and returns the states guessed for its rows
        std::vector<humoto::ConstraintActivationType::Type> guess(const humoto::Model &m, const humoto::ControlProblem &c)
        {
            humoto::ActiveSet g;
            p.form(solution, g, m, c);
            std::vector<humoto::ConstraintActivationType::Type> r;
            ensures("a state is guessed for every row", g.size() == 1 && (long)g[0].size() == rows() + 1);
            for (long i = 0; i < rows(); ++i) r.push_back(g[0][i]);
            return r;
        }
        // hands the states of the rows of the previous solution back; `n` rows in that solution
        void process(const humoto::ActiveSetConstraints &a, long n)
        {
            humoto::ActiveSet s;
            s.initialize(1, std::vector<std::size_t>(1, n + 1));
            for (long i = 0; i < n; ++i) s[0][i] = a[i];
            s[0][n] = humoto::ConstraintActivationType::INACTIVE;
            p[0].tasks_.front().location_ = humoto::Location(0, n);
            p[0].tasks_.back().location_ = humoto::Location(n, 1);
            p.processActiveSet(s);
        }
    };
}
