#pragma once
// Concrete mode: the code as it really runs, in IEEE double; inputs come from a counterexample or a sampler.
// Contract formulas are three-valued: a comparison is definite only beyond rounding, and an obligation is refuted only
// by a formula that is definitely false.  Preconditions and branches of the contract use the exact value.
namespace vp
{
    struct OpaqueMath { OpaqueMath() {} ~OpaqueMath() {} };
    typedef double Real;
    typedef std::size_t Int;
    struct Formula
    {
        bool v;         // exact value
        int k;          // -1 definitely false, 0 within rounding, 1 definitely true
        Formula(bool b) : v(b), k(b ? 1 : -1) {}
        Formula(bool b, int kk) : v(b), k(kk) {}
    };
    inline Formula land(const std::vector<Formula> &v) { Formula r(true); for (auto &f : v) { r.v = r.v && f.v; r.k = std::min(r.k, f.k); } return r; }
    inline Formula lor(const std::vector<Formula> &v) { Formula r(false); for (auto &f : v) { r.v = r.v || f.v; r.k = std::max(r.k, f.k); } return r; }
    inline Formula lnot(const Formula &f) { return Formula(!f.v, -f.k); }
    inline Formula implies(const Formula &a, const Formula &b) { return lor({lnot(a), b}); }
    inline Formula iff(const Formula &a, const Formula &b) { return land({implies(a, b), implies(b, a)}); }
    double &tolerance();
    inline double slack(double a, double b) { return tolerance() * (1.0 + std::fabs(a) + std::fabs(b)); }
    // NaN compares definitely unequal to everything
    inline Formula eq(double a, double b) { return a == b ? Formula(true) : (std::fabs(a - b) <= slack(a, b) ? Formula(false, 0) : Formula(false)); }
    inline Formula lt(double a, double b) { return Formula(a < b, std::fabs(a - b) <= slack(a, b) ? 0 : (a < b ? 1 : -1)); }
    inline Formula le(double a, double b) { return Formula(a <= b, std::fabs(a - b) <= slack(a, b) ? (a == b ? 1 : 0) : (a < b ? 1 : -1)); }
    inline Formula ne(double a, double b) { return lnot(eq(a, b)); }
    inline Formula gt(double a, double b) { return lt(b, a); }
    inline Formula ge(double a, double b) { return le(b, a); }
    inline Formula ieq(long a, long b) { return a == b; }
    inline Formula ilt(long a, long b) { return a < b; }
    inline Formula ile(long a, long b) { return a <= b; }
    Real sym(const std::string &name, double lo = -3, double hi = 3);
    Int isym(const std::string &name, long lo = 0, long hi = 1000);
    void requires_(const Formula &f);
    void ensures(const std::string &label, const Formula &f);
    inline void unreachable(const std::string &label) { ensures(label, false); }
    inline void note(const std::string &) {}
    inline bool concreteMode() { return true; }
    inline bool holds(const Formula &f) { return f.v; }
    inline double num(double x) { return x; }
}
#define eigen_assert(x) do { if (!(x)) ::vp::eigenAssertFailed(#x, __FILE__, __LINE__); } while (false)
