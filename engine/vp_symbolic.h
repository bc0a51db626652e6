#pragma once
// Symbolic scalars. Terms are hash-consed; no rounding: `double` is treated as the mathematical reals.
namespace vp
{
    struct Node;
    typedef const Node *NodeP;
    enum class Sort : unsigned char { Bool, Int, Real };

    NodeP mkConst(Sort s, double v);
    NodeP mkConstI(Sort s, long v);
    NodeP mkFresh(Sort s, const char *prefix);
    NodeP mkVar(Sort s, const std::string &name);
    NodeP mkAdd(NodeP, NodeP);
    NodeP mkSub(NodeP, NodeP);
    NodeP mkMul(NodeP, NodeP);
    NodeP mkDiv(NodeP, NodeP);
    NodeP mkNeg(NodeP);
    NodeP mkIDiv(NodeP, NodeP);
    NodeP mkIMod(NodeP, NodeP);
    NodeP mkUF(const std::string &f, const std::vector<NodeP> &args, Sort s);
    NodeP mkToReal(NodeP);
    NodeP mkLt(NodeP, NodeP);
    NodeP mkLe(NodeP, NodeP);
    NodeP mkEq(NodeP, NodeP);
    NodeP mkNot(NodeP);
    NodeP mkAnd(const std::vector<NodeP> &);
    NodeP mkOr(const std::vector<NodeP> &);
    NodeP mkBool(bool);
    bool isConst(NodeP, double &v);
    bool isConstI(NodeP, long &v);
    long concretize(NodeP);            // forks until the Int term has one value
    bool decide(NodeP);                // forks
    std::string show(NodeP);
    void unsignedUnderflowCheck(NodeP a, NodeP b);

    // ---------------------------------------------------------------- formulas
    struct Formula
    {
        NodeP n;
        explicit Formula(NodeP p) : n(p) {}
        Formula(bool b) : n(mkBool(b)) {}
    };
    inline Formula land(const std::vector<Formula> &v) { std::vector<NodeP> a; for (auto &f : v) a.push_back(f.n); return Formula(mkAnd(a)); }
    inline Formula lor(const std::vector<Formula> &v)  { std::vector<NodeP> a; for (auto &f : v) a.push_back(f.n); return Formula(mkOr(a)); }
    inline Formula lnot(const Formula &f) { return Formula(mkNot(f.n)); }
    inline Formula implies(const Formula &a, const Formula &b) { return Formula(mkOr({mkNot(a.n), b.n})); }
    inline Formula iff(const Formula &a, const Formula &b) { return land({implies(a, b), implies(b, a)}); }

    class Int;
    // result of ceil/floor/round of a Real
    // ---------------------------------------------------------------- Real
    class Real
    {
        mutable NodeP n_;
    public:
        NodeP node() const { if (!n_) n_ = mkFresh(Sort::Real, "uninit"); return n_; }
        Real() : n_(nullptr) {}
        explicit Real(NodeP n) : n_(n) {}
        Real(const Real &o) : n_(o.node()) {}
        Real(double v) : n_(mkConst(Sort::Real, v)) {}
        Real(long double v) : n_(mkConst(Sort::Real, (double)v)) {}
        Real(float v) : n_(mkConst(Sort::Real, v)) {}
        Real(int v) : n_(mkConstI(Sort::Real, v)) {}
        Real(unsigned v) : n_(mkConstI(Sort::Real, v)) {}
        Real(long v) : n_(mkConstI(Sort::Real, v)) {}
        Real(unsigned long v) : n_(mkConstI(Sort::Real, (long)v)) {}
        Real(long long v) : n_(mkConstI(Sort::Real, (long)v)) {}
        Real(bool v) : n_(mkConstI(Sort::Real, v ? 1 : 0)) {}
        Real(const Int &v);
        Real &operator=(const Real &o) { n_ = o.node(); return *this; }
        Real &operator+=(const Real &o) { n_ = mkAdd(node(), o.node()); return *this; }
        Real &operator-=(const Real &o) { n_ = mkSub(node(), o.node()); return *this; }
        Real &operator*=(const Real &o) { n_ = mkMul(node(), o.node()); return *this; }
        Real &operator/=(const Real &o) { n_ = mkDiv(node(), o.node()); return *this; }
        Real operator-() const { return Real(mkNeg(node())); }
        Real operator+() const { return *this; }
        explicit operator long() const;
        explicit operator unsigned long() const { return (unsigned long)(long)(*this); }
        explicit operator int() const { return (int)(long)(*this); }
    };
    template <class T> using IfArith = typename std::enable_if<std::is_arithmetic<T>::value, int>::type;
#define VP_OP(op, mk)                                                                                          \
    inline Real operator op(const Real &a, const Real &b) { return Real(mk(a.node(), b.node())); }             \
    template <class T, IfArith<T> = 0> inline Real operator op(const Real &a, T b) { return a op Real(b); }    \
    template <class T, IfArith<T> = 0> inline Real operator op(T a, const Real &b) { return Real(a) op b; }
    VP_OP(+, mkAdd) VP_OP(-, mkSub) VP_OP(*, mkMul) VP_OP(/, mkDiv)
#undef VP_OP
#define VP_CMP(op, ex)                                                                                         \
    inline bool operator op(const Real &a, const Real &b) { NodeP x = a.node(), y = b.node(); return decide(ex); } \
    template <class T, IfArith<T> = 0> inline bool operator op(const Real &a, T b) { return a op Real(b); }    \
    template <class T, IfArith<T> = 0> inline bool operator op(T a, const Real &b) { return Real(a) op b; }
    VP_CMP(<, mkLt(x, y)) VP_CMP(<=, mkLe(x, y)) VP_CMP(>, mkLt(y, x)) VP_CMP(>=, mkLe(y, x))
    VP_CMP(==, mkEq(x, y)) VP_CMP(!=, mkNot(mkEq(x, y)))
#undef VP_CMP
    std::ostream &operator<<(std::ostream &, const Real &);

    inline Real uf(const char *f, const Real &x) { return Real(mkUF(f, {x.node()}, Sort::Real)); }
    inline Real uf(const char *f, const Real &x, const Real &y) { return Real(mkUF(f, {x.node(), y.node()}, Sort::Real)); }
    // within its scope library functions are not simplified (they stay uninterpreted)
    struct OpaqueMath { OpaqueMath(); ~OpaqueMath(); };
    Real sin(const Real &x);
    Real cos(const Real &x);
    inline Real tan(const Real &x) { return sin(x) / cos(x); }
    inline Real asin(const Real &x) { return uf("asin", x); }
    inline Real acos(const Real &x) { return uf("acos", x); }
    inline Real atan(const Real &x) { return uf("atan", x); }
    Real atan2(const Real &y, const Real &x);
    Real sqrt(const Real &x);
    Real cosh(const Real &x);
    Real sinh(const Real &x);
    inline Real exp(const Real &x) { return uf("exp", x); }
    inline Real log(const Real &x) { return uf("log", x); }
    inline Real abs(const Real &x) { return (x < Real(0)) ? -x : x; }
    inline Real fabs(const Real &x) { return abs(x); }
    Real pow(const Real &x, int k);
    inline Real pow(const Real &x, const Real &y) { double v; if (isConst(y.node(), v) && v == (int)v) return pow(x, (int)v); return uf("pow", x, y); }
    template <class T, IfArith<T> = 0> inline Real pow(const Real &x, T y) { return pow(x, Real(y)); }
    inline Real abs2(const Real &x) { return x * x; }
    inline bool isnan(const Real &) { return false; }
    inline bool isinf(const Real &) { return false; }
    inline bool isfinite(const Real &) { return true; }
    // whole-valued Real: converts implicitly to an index, as the double returned by std::ceil does
    class WholeReal : public Real
    {
    public:
        explicit WholeReal(const Real &r) : Real(r) {}
        template <class T, typename std::enable_if<std::is_integral<T>::value && !std::is_same<T, bool>::value, int>::type = 0> operator T() const { return (T)(long)static_cast<const Real &>(*this); }
    };
    WholeReal floor(const Real &x);
    WholeReal ceil(const Real &x);
    WholeReal round(const Real &x);
    inline Real fmod(const Real &a, const Real &b) { return uf("fmod", a, b); }

    // ---------------------------------------------------------------- Int (std::size_t and friends in selected headers)
    class Int
    {
        NodeP n_;
        bool init_;
    public:
        NodeP node() const { if (!init_) { const_cast<Int *>(this)->n_ = mkFresh(Sort::Int, "uninit"); const_cast<Int *>(this)->init_ = true; } return n_; }
        Int() : n_(nullptr), init_(false) {}
        explicit Int(NodeP n) : n_(n), init_(true) {}
        Int(const Int &o) : n_(o.node()), init_(true) {}
        Int(int v) : n_(mkConstI(Sort::Int, v)), init_(true) {}
        Int(unsigned v) : n_(mkConstI(Sort::Int, v)), init_(true) {}
        Int(long v) : n_(mkConstI(Sort::Int, v)), init_(true) {}
        Int(unsigned long v) : n_(mkConstI(Sort::Int, (long)v)), init_(true) {}
        Int(double v) : n_(mkConstI(Sort::Int, (long)v)), init_(true) {}
        Int &operator=(const Int &o) { n_ = o.node(); init_ = true; return *this; }
        Int &operator+=(const Int &o) { n_ = mkAdd(node(), o.node()); return *this; }
        Int &operator-=(const Int &o) { unsignedUnderflowCheck(node(), o.node()); n_ = mkSub(node(), o.node()); return *this; }
        Int &operator*=(const Int &o) { n_ = mkMul(node(), o.node()); return *this; }
        Int &operator++() { return *this += Int(1); }
        Int &operator--() { return *this -= Int(1); }
        Int operator++(int) { Int t(*this); ++*this; return t; }
        Int operator--(int) { Int t(*this); --*this; return t; }
        operator long() const { return concretize(node()); }
    };
    inline Real::Real(const Int &v) : n_(mkToReal(v.node())) {}
#define VP_OP(op, code)                                                                                       \
    inline Int operator op(const Int &a, const Int &b) { NodeP x = a.node(), y = b.node(); (void)x; (void)y; code } \
    template <class T, typename std::enable_if<std::is_integral<T>::value, int>::type = 0> inline Int operator op(const Int &a, T b) { return a op Int(b); }   \
    template <class T, typename std::enable_if<std::is_integral<T>::value, int>::type = 0> inline Int operator op(T a, const Int &b) { return Int(a) op b; }
    VP_OP(+, return Int(mkAdd(x, y));)
    VP_OP(-, unsignedUnderflowCheck(x, y); return Int(mkSub(x, y));)
    VP_OP(*, return Int(mkMul(x, y));)
    VP_OP(/, return Int(mkIDiv(x, y));)
    VP_OP(%, return Int(mkIMod(x, y));)
#undef VP_OP
#define VP_CMP(op, ex)                                                                                        \
    inline bool operator op(const Int &a, const Int &b) { NodeP x = a.node(), y = b.node(); return decide(ex); } \
    template <class T, typename std::enable_if<std::is_integral<T>::value, int>::type = 0> inline bool operator op(const Int &a, T b) { return a op Int(b); }    \
    template <class T, typename std::enable_if<std::is_integral<T>::value, int>::type = 0> inline bool operator op(T a, const Int &b) { return Int(a) op b; }
    VP_CMP(<, mkLt(x, y)) VP_CMP(<=, mkLe(x, y)) VP_CMP(>, mkLt(y, x)) VP_CMP(>=, mkLe(y, x))
    VP_CMP(==, mkEq(x, y)) VP_CMP(!=, mkNot(mkEq(x, y)))
#undef VP_CMP
    inline Real operator/(const Int &a, double b) { return Real(a) / Real(b); }
    inline Real operator*(const Int &a, double b) { return Real(a) * Real(b); }
    inline Real operator*(const Int &a, const Real &b) { return Real(a) * b; }
    inline Real operator*(const Real &a, const Int &b) { return a * Real(b); }
    inline Real operator/(const Real &a, const Int &b) { return a / Real(b); }
    inline Int floor(const Int &a) { return a; }
    inline Int ceil(const Int &a) { return a; }
    inline Int round(const Int &a) { return a; }
    inline Int min(const Int &a, const Int &b) { return (b < a) ? b : a; }
    std::ostream &operator<<(std::ostream &, const Int &);

    // ---------------------------------------------------------------- contract vocabulary
    inline Formula eq(const Real &a, const Real &b) { return Formula(mkEq(a.node(), b.node())); }
    inline Formula ne(const Real &a, const Real &b) { return Formula(mkNot(mkEq(a.node(), b.node()))); }
    inline Formula lt(const Real &a, const Real &b) { return Formula(mkLt(a.node(), b.node())); }
    inline Formula le(const Real &a, const Real &b) { return Formula(mkLe(a.node(), b.node())); }
    inline Formula gt(const Real &a, const Real &b) { return lt(b, a); }
    inline Formula ge(const Real &a, const Real &b) { return le(b, a); }
    inline Formula ieq(const Int &a, const Int &b) { return Formula(mkEq(a.node(), b.node())); }
    inline Formula ilt(const Int &a, const Int &b) { return Formula(mkLt(a.node(), b.node())); }
    inline Formula ile(const Int &a, const Int &b) { return Formula(mkLe(a.node(), b.node())); }

    Real sym(const std::string &name, double lo = -3, double hi = 3);
    Int isym(const std::string &name, long lo = 0, long hi = 1000);   // non-negative integer, unbounded above; lo/hi only guide replay sampling
    void requires_(const Formula &f);
    void assume(const Formula &f);                   // assumed contract of a dependency
    void ensures(const std::string &label, const Formula &f);
    void unreachable(const std::string &label);      // obligation: this path does not exist
    void note(const std::string &);
    inline double num(double x) { return x; }
    inline bool concreteMode() { return false; }
    // exact value of a floating constant expression
    bool isDefinite(const Formula &f, bool &value);
    bool holds(const Formula &f);                    // forks in symbolic mode
}
inline bool operator!(const vp::Real &r) { return r == vp::Real(0); }

namespace std
{
    using vp::sin;
    using vp::cos;
    using vp::tan;
    using vp::asin;
    using vp::acos;
    using vp::atan;
    using vp::atan2;
    using vp::sqrt;
    using vp::cosh;
    using vp::sinh;
    using vp::exp;
    using vp::log;
    using vp::abs;
    using vp::fabs;
    using vp::floor;
    using vp::ceil;
    using vp::round;
    using vp::pow;
    using vp::fmod;
    using vp::isnan;
    using vp::isinf;
    using vp::isfinite;
    template <> struct numeric_limits<vp::Real>
    {
        static const bool is_specialized = true, is_signed = true, is_integer = false, is_exact = false;
        static const bool has_infinity = false, has_quiet_NaN = true, has_signaling_NaN = false;
        static const int digits = 53, digits10 = 15, max_digits10 = 17, radix = 2;
        static vp::Real quiet_NaN() { return vp::Real(vp::mkFresh(vp::Sort::Real, "nan")); }
        static vp::Real signaling_NaN() { return quiet_NaN(); }
        static vp::Real infinity() { return vp::Real(vp::mkFresh(vp::Sort::Real, "inf")); }
        static vp::Real epsilon() { return vp::Real(2.220446049250313e-16); }
        static vp::Real max() { return vp::Real(1e308); }
        static vp::Real min() { return vp::Real(1e-308); }
        static vp::Real lowest() { return vp::Real(-1e308); }
    };
}
#define eigen_assert(x) do { if (!(x)) ::vp::eigenAssertFailed(#x, __FILE__, __LINE__); } while (false)
#define EIGEN_NO_DEBUG_OVERRIDDEN
