// PROPERTY C06
#include "tasks_common.h"
using namespace vp;

static const char *ID[] = {"first", "second", "third"};

CONTRACT(parts_partition_the_vector, "SolutionStructure::{addSolutionPart,getSolutionPartLocation,getNumberOfVariables,isNonEmpty,reset}")
{
    long cnt = size("parts", 0, 3, 3), total = 0;
    humoto::SolutionStructure s;
    std::vector<long> len, off;
    for (long i = 0; i < cnt; ++i) { len.push_back(size(idx("length", i), 0, 5, 7)); off.push_back(total); total += len.back(); s.addSolutionPart(ID[cnt - 1 - i], len.back()); }
    ensures("number of variables", (long)s.getNumberOfVariables() == total);
    ensures("emptiness", s.isNonEmpty() == (cnt > 0));
    for (long i = 0; i < cnt; ++i)
    {
        humoto::Location l = s.getSolutionPartLocation(ID[cnt - 1 - i]);
        ensures("parts follow each other in the order of addition", (long)l.offset_ == off[i] && (long)l.length_ == len[i]);
    }
    humoto::Location l = s.getSolutionPartLocation("unknown");
    ensures("an unknown part is empty", l.length_ == 0);
    if (cnt) ensuresThrows("a part is added once", [&]() { s.addSolutionPart(ID[cnt - 1], 1); });
    ensures("a refused part adds no variables", (long)s.getNumberOfVariables() == total);
    s.reset();
    ensures("reset", s.getNumberOfVariables() == 0 && !s.isNonEmpty());
}

CONTRACT(access_to_parts, "Solution::{initialize,getSolutionPart,getData,get_x}, SolutionStructure::getMatrixPart")
{
    humoto::SolutionStructure st;
    std::vector<long> len, off; long total = 0;
    for (long i = 0; i < 3; ++i) { len.push_back(size(idx("length", i), 0, 2, 5)); off.push_back(total); total += len.back(); st.addSolutionPart(ID[i], len.back()); }
    humoto::Solution s; s.initialize(st);
    ensures("size of the vector", s.get_x().size() == total);
    VecX x = symVec("x", total);
    s.x_ = x;
    long k = choose("part", 0, 2);
    VecX part = static_cast<const humoto::Solution &>(s).getSolutionPart(ID[k]);
    ensures("reading a part", eqm(part, x.segment(off[k], len[k])));
    VecX y = symVec("y", len[k]);
    s.getSolutionPart(ID[k]) = y;
    VecX e = x; e.segment(off[k], len[k]) = y;
    ensures("writing a part changes nothing else", eqm(s.get_x(), e));
    long o = size("o", 0, 3, 6), l = size("l", 0, 3, 6);
    humoto::Location loc(o, l);
    if (o + l > total) { ensuresThrows("location outside the vector is refused", [&]() { s.getData(loc); }); const humoto::Solution &cs = s; ensuresThrows("location outside the vector is refused (const)", [&]() { cs.getData(loc); }); }
    else ensures("access by location", eqm(s.getData(loc), e.segment(o, l)));
    MatX M = symMat("M", 2, total);
    const MatX &cM = M;
    ensures("columns of a part", eqm(st.getMatrixPart(ID[k], cM), M.middleCols(off[k], len[k])));
    ensures("columns of a part (mutable)", eqm(st.getMatrixPart(ID[k], M), M.middleCols(off[k], len[k])));
    Real v = sym("v");
    humoto::Solution c; c.initialize(st, v);
    VecX cv(total); cv.setConstant(v);
    ensures("constant initialisation", eqm(c.get_x(), cv));
}

CONTRACT(guess_from_the_previous_solution, "Solution::initialize(structure, old_solution), ControlProblem::{guessSolution,initSolutionStructure,getSolutionStructure}, OptimizationProblem::form")
{
    // old and new structures share some parts; order and lengths may differ
    humoto::SolutionStructure so, sn;
    long olen[3], nlen[3], ooff[3], noff[3], ot = 0, nt = 0;
    bool rev = choose("reversed", 0, 1);
    for (long j = 0; j < 3; ++j)
    {
        long i = rev ? 2 - j : j;
        olen[i] = size(idx("old_length", i), -1, 4, 6);
        ooff[i] = ot;
        if (olen[i] >= 0) { so.addSolutionPart(ID[i], olen[i]); ot += olen[i]; }
    }
    for (long i = 0; i < 3; ++i) { nlen[i] = size(idx("new_length", i), 1, 4, 6); noff[i] = nt; sn.addSolutionPart(ID[i], nlen[i]); nt += nlen[i]; }
    humoto::Solution old; old.initialize(so); old.x_ = symVec("x", ot);
    VecX x = old.x_;
    DummyProblem cp(sn);
    humoto::Solution g;
    cp.guessSolution(g, old);
    ensures("structure of the guess", (long)g.getNumberOfVariables() == nt && g.get_x().size() == nt);
    for (long i = 0; i < 3; ++i)
    {
        VecX p = static_cast<const humoto::Solution &>(g).getSolutionPart(ID[i]);
        if (olen[i] == nlen[i]) ensures("parts of the same length are reused", eqm(p, x.segment(ooff[i], olen[i])));
        else ensures("other parts start at zero", eqm(p, 0.0));
    }
    humoto::Solution f; cp.initSolutionStructure(f);
    for (long i = 0; i < 3; ++i) ensures("structure of the solution", f.getSolutionPartLocation(ID[i]) == humoto::Location(noff[i], nlen[i]));
    ensures("size of the solution", f.get_x().size() == nt);
}

CONTRACT(locations, "Location::{checkLength,front,end,set,operator==,operator!=}")
{
    long o = size("o", 0, 6, 9), l = size("l", 0, 6, 9), m = size("max", 0, 9, 12), o2 = size("o2", 0, 7, 11), l2 = size("l2", 0, 7, 11);
    humoto::Location a(o, l), b(o2, l2);
    ensures("a location fits iff it ends within the storage", a.checkLength(m) == (o + l <= m));
    ensures("ends", (long)a.front() == o && (long)a.end() == o + l);
    ensures("equality", (a == b) == (o == o2 && l == l2) && (a != b) == !(o == o2 && l == l2));
    humoto::Location huge(2, (std::size_t)-1);
    ensures("a wrapped-around location never fits", !huge.checkLength(10));
}
