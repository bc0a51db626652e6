// Symbolic core: hash-consed terms, polynomial normal form, path exploration, solver calls.
#include "vp.h"
#include <gmpxx.h>
#include <z3++.h>
#include <cassert>
#include <climits>
#include <condition_variable>
#include <mutex>
#include <thread>
#include <chrono>
#include <unordered_map>
#include <cstring>
#include <cstdlib>
#include <unistd.h>
#include <csignal>
#include <poll.h>
#include <sys/wait.h>
#include <sys/prctl.h>

namespace vp
{
    enum class Op : unsigned char { CONST, VAR, ADD, MUL, DIV, IDIV, IMOD, UF, TOREAL, TRUE_, FALSE_, LT, LE, EQ, NOT, AND, OR };
    struct Node
    {
        Op op;
        Sort sort;
        mpq_class c;
        std::string name;
        std::vector<NodeP> a;
        size_t id;
    };
    // ------------------------------------------------------------------ hash consing
    struct Hash { size_t operator()(NodeP n) const { size_t h = (size_t)n->op * 31 + (size_t)n->sort; for (auto x : n->a) h = h * 1000003 + x->id; h = h * 31 + std::hash<std::string>()(n->name); if (n->op == Op::CONST) h = h * 31 + std::hash<std::string>()(n->c.get_str()); return h; } };
    struct Eq { bool operator()(NodeP x, NodeP y) const { return x->op == y->op && x->sort == y->sort && x->a == y->a && x->name == y->name && (x->op != Op::CONST || x->c == y->c); } };
    static std::unordered_map<NodeP, NodeP, Hash, Eq> &table() { static std::unordered_map<NodeP, NodeP, Hash, Eq> t; return t; }
    static size_t g_next_id = 1;
    static NodeP intern(Node &&n)
    {
        auto it = table().find(&n);
        if (it != table().end()) return it->second;
        Node *p = new Node(std::move(n));
        p->id = g_next_id++;
        table()[p] = p;
        return p;
    }
    static NodeP mk(Op op, Sort s, std::vector<NodeP> a) { Node n; n.op = op; n.sort = s; n.a = std::move(a); n.id = 0; return intern(std::move(n)); }
    static NodeP mkQ(Sort s, const mpq_class &q) { Node n; n.op = Op::CONST; n.sort = s; n.c = q; n.id = 0; return intern(std::move(n)); }

    // simplest rational within one unit in the last place of the double
    static mpq_class simplest(const mpq_class &lo, const mpq_class &hi)   // 0 < lo <= hi
    {
        mpz_class fl = lo.get_num() / lo.get_den();
        if (mpq_class(fl) == lo) return lo;
        if (mpq_class(fl + 1) <= hi) return mpq_class(fl + 1);
        mpq_class r = simplest(1 / (hi - fl), 1 / (lo - fl));
        mpq_class out = fl + 1 / r;
        out.canonicalize();
        return out;
    }
    static mpq_class rationalise(double v)
    {
        if (v == 0) return 0;
        static std::unordered_map<double, mpq_class> memo;
        auto it = memo.find(v);
        if (it != memo.end()) return it->second;
        double av = std::fabs(v);
        mpq_class x(av), lo(std::nextafter(av, 0)), hi(std::nextafter(av, HUGE_VAL));
        mpq_class r;
        if (x.get_den() == 1) r = x;
        else r = simplest(lo, hi);
        if (v < 0) r = -r;
        memo[v] = r;
        return r;
    }
    NodeP mkConst(Sort s, double v)
    {
        if (std::isnan(v)) return mkFresh(s, "nan");
        if (std::isinf(v)) return mkFresh(s, "inf");
        return mkQ(s, rationalise(v));
    }
    NodeP mkConstI(Sort s, long v) { return mkQ(s, mpq_class(v)); }
    NodeP mkVar(Sort s, const std::string &name) { Node n; n.op = Op::VAR; n.sort = s; n.name = name; n.id = 0; return intern(std::move(n)); }
    static size_t g_fresh = 0;
    NodeP mkFresh(Sort s, const char *prefix) { return mkVar(s, std::string(prefix) + "#" + std::to_string(++g_fresh)); }
    static inline bool C(NodeP n) { return n->op == Op::CONST; }
    NodeP mkBool(bool b) { return mk(b ? Op::TRUE_ : Op::FALSE_, Sort::Bool, {}); }
    NodeP mkAdd(NodeP x, NodeP y)
    {
        if (C(x) && C(y)) return mkQ(x->sort, x->c + y->c);
        if (C(x) && x->c == 0) return y;
        if (C(y) && y->c == 0) return x;
        if (x->id > y->id) std::swap(x, y);
        return mk(Op::ADD, x->sort, {x, y});
    }
    NodeP mkMul(NodeP x, NodeP y)
    {
        if (C(x) && C(y)) return mkQ(x->sort, x->c * y->c);
        if (C(y)) std::swap(x, y);
        if (C(x))
        {
            if (x->c == 0) return x;
            if (x->c == 1) return y;
            if (y->op == Op::MUL && C(y->a[0])) return mkMul(mkQ(x->sort, x->c * y->a[0]->c), y->a[1]);
            return mk(Op::MUL, x->sort, {x, y});
        }
        if (x->op == Op::MUL && C(x->a[0])) return mkMul(x->a[0], mkMul(x->a[1], y));
        if (y->op == Op::MUL && C(y->a[0])) return mkMul(y->a[0], mkMul(x, y->a[1]));
        if (x->id > y->id) std::swap(x, y);
        return mk(Op::MUL, x->sort, {x, y});
    }
    NodeP mkNeg(NodeP x) { return mkMul(mkQ(x->sort, -1), x); }
    NodeP mkSub(NodeP x, NodeP y) { if (x == y && x->op != Op::CONST) return mkQ(x->sort, 0); return mkAdd(x, mkNeg(y)); }
    void obligationDivisor(NodeP d);
    NodeP mkDiv(NodeP x, NodeP y)
    {
        if (C(y))
        {
            if (y->c == 0) throw std::runtime_error("division by zero (symbolic execution)");
            return mkMul(mkQ(x->sort, 1 / y->c), x);
        }
        obligationDivisor(y);
        if (C(x) && x->c == 0) return x;
        return mk(Op::DIV, x->sort, {x, y});
    }
    NodeP mkIDiv(NodeP x, NodeP y)
    {
        if (C(x) && C(y) && y->c != 0) return mkQ(Sort::Int, mpq_class(mpz_class(x->c.get_num() / y->c.get_num())));
        if (C(y) && y->c == 1) return x;
        return mk(Op::IDIV, Sort::Int, {x, y});
    }
    NodeP mkIMod(NodeP x, NodeP y)
    {
        if (C(x) && C(y) && y->c != 0) return mkQ(Sort::Int, mpq_class(mpz_class(x->c.get_num() % y->c.get_num())));
        return mk(Op::IMOD, Sort::Int, {x, y});
    }
    NodeP mkToReal(NodeP x) { if (C(x)) return mkQ(Sort::Real, x->c); return mk(Op::TOREAL, Sort::Real, {x}); }
    NodeP mkUF(const std::string &f, const std::vector<NodeP> &args, Sort s) { Node n; n.op = Op::UF; n.sort = s; n.name = f; n.a = args; n.id = 0; return intern(std::move(n)); }
    NodeP mkLt(NodeP x, NodeP y) { if (C(x) && C(y)) return mkBool(x->c < y->c); if (x == y) return mkBool(false); return mk(Op::LT, Sort::Bool, {x, y}); }
    NodeP mkLe(NodeP x, NodeP y) { if (C(x) && C(y)) return mkBool(x->c <= y->c); if (x == y) return mkBool(true); return mk(Op::LE, Sort::Bool, {x, y}); }
    NodeP mkEq(NodeP x, NodeP y) { if (C(x) && C(y)) return mkBool(x->c == y->c); if (x == y) return mkBool(true); if (x->id > y->id) std::swap(x, y); return mk(Op::EQ, Sort::Bool, {x, y}); }
    NodeP mkNot(NodeP x)
    {
        if (x->op == Op::TRUE_) return mkBool(false);
        if (x->op == Op::FALSE_) return mkBool(true);
        if (x->op == Op::NOT) return x->a[0];
        if (x->op == Op::LT) return mkLe(x->a[1], x->a[0]);
        if (x->op == Op::LE) return mkLt(x->a[1], x->a[0]);
        return mk(Op::NOT, Sort::Bool, {x});
    }
    NodeP mkAnd(const std::vector<NodeP> &v)
    {
        std::vector<NodeP> o;
        for (auto x : v) { if (x->op == Op::FALSE_) return x; if (x->op == Op::TRUE_) continue; if (x->op == Op::AND) o.insert(o.end(), x->a.begin(), x->a.end()); else o.push_back(x); }
        if (o.empty()) return mkBool(true);
        if (o.size() == 1) return o[0];
        return mk(Op::AND, Sort::Bool, o);
    }
    NodeP mkOr(const std::vector<NodeP> &v)
    {
        std::vector<NodeP> o;
        for (auto x : v) { if (x->op == Op::TRUE_) return x; if (x->op == Op::FALSE_) continue; if (x->op == Op::OR) o.insert(o.end(), x->a.begin(), x->a.end()); else o.push_back(x); }
        if (o.empty()) return mkBool(false);
        if (o.size() == 1) return o[0];
        return mk(Op::OR, Sort::Bool, o);
    }
    bool isConst(NodeP n, double &v) { if (!C(n)) return false; v = n->c.get_d(); return true; }
    bool isConstI(NodeP n, long &v) { if (!C(n) || n->c.get_den() != 1) return false; v = n->c.get_num().get_si(); return true; }
    static void showTo(std::ostream &o, NodeP n, int depth)
    {
        if (depth > 12) { o << "..."; return; }
        switch (n->op)
        {
            case Op::CONST: o << n->c.get_str(); return;
            case Op::VAR: o << n->name; return;
            case Op::TRUE_: o << "true"; return;
            case Op::FALSE_: o << "false"; return;
            default: break;
        }
        static const char *names[] = {"", "", "+", "*", "/", "div", "mod", "", "real", "", "", "<", "<=", "=", "not", "and", "or"};
        o << "(" << (n->op == Op::UF ? n->name.c_str() : names[(int)n->op]);
        for (auto x : n->a) { o << " "; showTo(o, x, depth + 1); }
        o << ")";
    }
    std::string show(NodeP n) { std::ostringstream s; showTo(s, n, 0); std::string r = s.str(); if (r.size() > 600) r = r.substr(0, 600) + "..."; return r; }
    std::ostream &operator<<(std::ostream &o, const Real &r) { return o << show(r.node()); }
    std::ostream &operator<<(std::ostream &o, const Int &r) { return o << show(r.node()); }

    // ------------------------------------------------------------------ polynomial normal form (Laurent, atoms = variables, UF applications, inverses)
    // monomial: sorted (atom id, exponent)
    typedef std::vector<std::pair<int, int>> Mono;
    typedef std::map<Mono, mpq_class> Poly;
    struct Atom { NodeP node; bool inv; Poly invOf; std::string fn; Poly arg; };   // inv: 1/invOf
    static std::vector<Atom> g_atoms;
    static std::map<NodeP, int> g_atom_of_node;
    static std::map<Poly, int> g_atom_of_inv;
    static std::map<std::pair<std::string, std::vector<Poly>>, int> g_atom_of_uf;
    struct TooBig {};
    static const size_t POLY_CAP = 60000;
    static Poly pconst(const mpq_class &q) { Poly p; if (q != 0) p[Mono()] = q; return p; }
    static Poly patom(int id, int e = 1) { Poly p; p[Mono{{id, e}}] = 1; return p; }
    static Poly padd(const Poly &x, const Poly &y)
    {
        Poly r = x;
        for (auto &t : y) { auto it = r.find(t.first); if (it == r.end()) r.insert(t); else { it->second += t.second; if (it->second == 0) r.erase(it); } }
        return r;
    }
    static Mono mmul(const Mono &x, const Mono &y)
    {
        Mono r; size_t i = 0, j = 0;
        while (i < x.size() || j < y.size())
        {
            if (j == y.size() || (i < x.size() && x[i].first < y[j].first)) r.push_back(x[i++]);
            else if (i == x.size() || y[j].first < x[i].first) r.push_back(y[j++]);
            else { int e = x[i].second + y[j].second; if (e) r.push_back({x[i].first, e}); ++i; ++j; }
        }
        return r;
    }
    static Poly pmul(const Poly &x, const Poly &y)
    {
        Poly r;
        if (x.size() * y.size() > 4000000) throw TooBig();
        for (auto &s : x)
            for (auto &t : y)
            {
                Mono m = mmul(s.first, t.first);
                auto it = r.find(m);
                if (it == r.end()) { r.emplace(m, s.second * t.second); if (r.size() > POLY_CAP) throw TooBig(); }
                else { it->second += s.second * t.second; if (it->second == 0) r.erase(it); }
            }
        return r;
    }
    static Poly pscale(const Poly &x, const mpq_class &q) { Poly r; if (q == 0) return r; for (auto &t : x) r[t.first] = t.second * q; return r; }
    static Poly ppow(const Poly &x, int k) { Poly r = pconst(1); for (int i = 0; i < k; ++i) r = pmul(r, x); return r; }

    static Poly reduceTrig(const Poly &p);
    static Poly reduceAll(const Poly &p);
    static std::unordered_map<NodeP, Poly> g_poly;
    static Poly norm(NodeP n);
    static int ufAtom(NodeP n)
    {
        std::vector<Poly> args;
        for (auto x : n->a) args.push_back(reduceAll(norm(x)));
        auto key = std::make_pair(n->name, args);
        auto it = g_atom_of_uf.find(key);
        if (it != g_atom_of_uf.end()) { if (!g_atoms[it->second].node) g_atoms[it->second].node = n; return it->second; }
        int id = (int)g_atoms.size();
        Atom at; at.node = n; at.inv = false; at.fn = n->name; if (!args.empty()) at.arg = args[0];
        g_atoms.push_back(at);
        g_atom_of_uf[key] = id;
        return id;
    }
    static bool isZeroPoly(Poly p);
    static Poly invert(const Poly &d0)
    {
        Poly d = reduceAll(d0);
        if (d.empty()) throw TooBig();
        if (d.size() == 1)
        {
            Poly r; Mono m = d.begin()->first; for (auto &e : m) e.second = -e.second;
            r[m] = 1 / d.begin()->second; return r;
        }
        // pull out the monomial content so that equal denominators up to a monomial share an atom
        std::map<int, int> common;
        bool first = true;
        for (auto &t : d)
        {
            std::map<int, int> cur(t.first.begin(), t.first.end());
            if (first) { common = cur; first = false; }
            else
            {
                std::map<int, int> nx;
                for (auto &kv : common) { auto it = cur.find(kv.first); int e = it == cur.end() ? 0 : it->second; int mn = std::min(e, kv.second); if (mn) nx[kv.first] = mn; }
                for (auto &kv : cur) if (!common.count(kv.first) && kv.second < 0) nx[kv.first] = kv.second;
                common = nx;
            }
        }
        Mono cm(common.begin(), common.end()), icm = cm;
        for (auto &e : icm) e.second = -e.second;
        Poly icmP; icmP[icm] = 1;
        Poly q = pmul(d, icmP);
        mpq_class lead = q.begin()->second;
        q = pscale(q, 1 / lead);
        int id;
        auto it = g_atom_of_inv.find(q);
        if (it != g_atom_of_inv.end()) id = it->second;
        else { id = (int)g_atoms.size(); Atom at; at.node = nullptr; at.inv = true; at.invOf = q; g_atoms.push_back(at); g_atom_of_inv[q] = id; }
        Poly r; r[mmul(icm, Mono{{id, 1}})] = 1 / lead;
        return r;
    }
    static Poly norm(NodeP n)
    {
        auto it = g_poly.find(n);
        if (it != g_poly.end()) return it->second;
        Poly r;
        switch (n->op)
        {
            case Op::CONST: r = pconst(n->c); break;
            case Op::VAR: case Op::IDIV: case Op::IMOD:
            {
                auto a = g_atom_of_node.find(n);
                int id;
                if (a != g_atom_of_node.end()) id = a->second;
                else { id = (int)g_atoms.size(); Atom at; at.node = n; at.inv = false; g_atoms.push_back(at); g_atom_of_node[n] = id; }
                r = patom(id);
                break;
            }
            case Op::ADD: r = padd(norm(n->a[0]), norm(n->a[1])); break;
            case Op::MUL: r = reduceTrig(pmul(norm(n->a[0]), norm(n->a[1]))); break;
            case Op::DIV: r = pmul(norm(n->a[0]), invert(norm(n->a[1]))); break;
            case Op::TOREAL: r = norm(n->a[0]); break;
            case Op::UF: r = patom(ufAtom(n)); break;
            default: throw TooBig();
        }
        g_poly[n] = r;
        return r;
    }
    // find the atom "fn(arg)" if it exists
    static int sibling(const char *fn, const Poly &arg)
    {
        auto it = g_atom_of_uf.find(std::make_pair(std::string(fn), std::vector<Poly>{arg}));
        if (it != g_atom_of_uf.end()) return it->second;
        int id = (int)g_atoms.size();
        Atom at; at.node = nullptr; at.inv = false; at.fn = fn; at.arg = arg;
        g_atoms.push_back(at);
        g_atom_of_uf[std::make_pair(std::string(fn), std::vector<Poly>{arg})] = id;
        return id;
    }
    // sin^2 -> 1-cos^2, cosh^2 -> 1+sinh^2, sqrt(u)^2 -> u   (axioms of the library functions)
    static Poly reduceTrig(const Poly &p)
    {
        Poly cur = p;
        for (;;)
        {
            bool changed = false;
            Poly out;
            for (auto &t : cur)
            {
                int idx = -1;
                for (size_t i = 0; i < t.first.size(); ++i)
                {
                    const Atom &a = g_atoms[t.first[i].first];
                    if (!a.inv && t.first[i].second >= 2 && (a.fn == "sin" || a.fn == "cosh" || a.fn == "sqrt")) { idx = (int)i; break; }
                }
                if (idx < 0) { out = padd(out, Poly{{t.first, t.second}}); continue; }
                changed = true;
                Mono m = t.first;
                int at = m[idx].first, e = m[idx].second;
                if (e == 2) m.erase(m.begin() + idx); else m[idx].second = e - 2;
                Poly rest; rest[m] = t.second;
                Poly repl;
                std::string fn = g_atoms[at].fn; Poly arg = g_atoms[at].arg;
                if (fn == "sin") repl = padd(pconst(1), pscale(patom(sibling("cos", arg), 2), -1));
                else if (fn == "cosh") repl = padd(pconst(1), patom(sibling("sinh", arg), 2));
                else repl = arg;
                out = padd(out, pmul(rest, repl));
            }
            cur.swap(out);
            if (!changed) return cur;
        }
    }
    // eliminate inverse atoms: multiply by their denominators (nonzero by the division obligations)
    static Poly clearInverses(const Poly &p0)
    {
        Poly p = p0;
        for (int guard = 0; guard < 200; ++guard)
        {
            int inv = -1; int maxe = 0;
            // the inverse atom with the largest id may contain smaller ones
            for (auto &t : p) for (auto &f : t.first) if (g_atoms[f.first].inv && f.first > inv) inv = f.first;
            if (inv < 0) break;
            for (auto &t : p) for (auto &f : t.first) if (f.first == inv) maxe = std::max(maxe, f.second);
            Poly d = g_atoms[inv].invOf;
            std::map<int, Poly> byExp;
            for (auto &t : p)
            {
                int e = 0; Mono m;
                for (auto &f : t.first) if (f.first == inv) e = f.second; else m.push_back(f);
                byExp[e][m] = t.second;
            }
            Poly out;
            for (auto &kv : byExp) out = padd(out, pmul(kv.second, ppow(d, maxe - kv.first)));
            p = reduceTrig(out);
        }
        return p;
    }
    // negative powers of sin/cosh/sqrt atoms hide reducible squares: clear them too
    static Poly clearNegative(const Poly &p0)
    {
        std::map<int, int> mn;
        for (auto &t : p0) for (auto &f : t.first) if (f.second < 0) mn[f.first] = std::min(mn[f.first], f.second);
        if (mn.empty()) return p0;
        Mono m; for (auto &kv : mn) m.push_back({kv.first, -kv.second});
        Poly mp; mp[m] = 1;
        return reduceTrig(pmul(p0, mp));
    }
    static Poly reduceAll(const Poly &p) { return reduceTrig(p); }
    static bool isZeroPoly(Poly p)
    {
        p = reduceTrig(p);
        if (p.empty()) return true;
        for (int i = 0; i < 4; ++i) { p = clearNegative(clearInverses(p)); if (p.empty()) return true; }
        return p.empty();
    }

    // ------------------------------------------------------------------ library functions
    static bool isZero(NodeP n) { return C(n) && n->c == 0; }
    // x = y + k*pi for the library's constant pi: the remaining y
    static bool shiftedByPi(NodeP n, NodeP &y)
    {
        if (n->op != Op::ADD) return false;
        for (int i = 0; i < 2; ++i) if (C(n->a[i]) && std::fabs(std::fabs(n->a[i]->c.get_d()) - M_PI) < 1e-12) { y = n->a[1 - i]; return true; }
        return false;
    }
    static bool evenMultiple(NodeP n) { return n->op == Op::MUL && C(n->a[0]) && n->a[0]->c.get_den() == 1 && mpz_even_p(n->a[0]->c.get_num().get_mpz_t()); }
    static bool g_opaque = false;
    OpaqueMath::OpaqueMath() { g_opaque = true; }
    OpaqueMath::~OpaqueMath() { g_opaque = false; }
    Real atan2(const Real &y, const Real &x)
    {
        if (isZero(y.node()) && C(x.node()) && x.node()->c >= 0) return Real(0);
        return uf("atan2", y, x);
    }
    Real sin(const Real &x)
    {
        NodeP n = x.node(), rest;
        if (g_opaque) return uf("sin", x);
        if (shiftedByPi(n, rest)) return -sin(Real(rest));
        if (evenMultiple(n)) { Real h = x * Real(mkQ(Sort::Real, mpq_class(1, 2))); return Real(2) * sin(h) * cos(h); }
        if (isZero(n)) return Real(0);
        if (n->op == Op::UF && n->name == "asin") return Real(n->a[0]);
        if (n->op == Op::UF && n->name == "atan2") { Real yy(n->a[0]), xx(n->a[1]), r = sqrt(xx * xx + yy * yy); return r == Real(0) ? Real(0) : yy / r; }
        if (n->op == Op::MUL && C(n->a[0]) && n->a[0]->c < 0) return -sin(Real(mkNeg(n)));
        return uf("sin", x);
    }
    Real cos(const Real &x)
    {
        NodeP n = x.node(), rest;
        if (g_opaque) return uf("cos", x);
        if (shiftedByPi(n, rest)) return -cos(Real(rest));
        if (evenMultiple(n)) { Real h = x * Real(mkQ(Sort::Real, mpq_class(1, 2))), c = cos(h); return Real(2) * c * c - Real(1); }
        if (isZero(n)) return Real(1);
        if (n->op == Op::UF && n->name == "asin") { Real z(n->a[0]); return sqrt(Real(1) - z * z); }
        if (n->op == Op::UF && n->name == "acos") return Real(n->a[0]);
        if (n->op == Op::UF && n->name == "atan2") { Real yy(n->a[0]), xx(n->a[1]), r = sqrt(xx * xx + yy * yy); return r == Real(0) ? Real(1) : xx / r; }
        if (n->op == Op::MUL && C(n->a[0]) && n->a[0]->c < 0) return cos(Real(mkNeg(n)));
        return uf("cos", x);
    }
    // multiplicative monomial order: exponents compared from the smallest atom on
    static bool monoLess(const Mono &a, const Mono &b)
    {
        size_t i = 0, k = 0;
        while (i < a.size() || k < b.size())
        {
            int ia = i < a.size() ? a[i].first : INT_MAX, ib = k < b.size() ? b[k].first : INT_MAX;
            int ea = ia <= ib ? a[i].second : 0, eb = ib <= ia ? b[k].second : 0;
            if (ea != eb) return ea < eb;
            if (ia <= ib) ++i;
            if (ib <= ia) ++k;
        }
        return false;
    }
    static Poly::const_iterator lead(const Poly &p) { auto r = p.begin(); for (auto it = p.begin(); it != p.end(); ++it) if (monoLess(r->first, it->first)) r = it; return r; }
    // q with q*q = p (as polynomials in the atoms), if there is one
    static bool polySqrt(const Poly &p, Poly &q)
    {
        auto l = lead(p);
        if (l->second <= 0 || !mpz_perfect_square_p(l->second.get_num().get_mpz_t()) || !mpz_perfect_square_p(l->second.get_den().get_mpz_t())) return false;
        Mono m = l->first;
        for (auto &e : m) { if (e.second % 2) return false; e.second /= 2; }
        mpz_class a, b;
        mpz_sqrt(a.get_mpz_t(), l->second.get_num().get_mpz_t());
        mpz_sqrt(b.get_mpz_t(), l->second.get_den().get_mpz_t());
        mpq_class lc(a, b);
        q.clear(); q[m] = lc;
        Mono im = m; for (auto &e : im) e.second = -e.second;
        for (size_t k = 0; k <= p.size() + 2; ++k)
        {
            Poly r = padd(p, pscale(pmul(q, q), -1));
            if (r.empty()) return true;
            auto t = lead(r);
            Mono nm = mmul(t->first, im);
            if (q.count(nm)) return false;
            for (auto &kv : q) if (monoLess(kv.first, nm)) return false;
            q[nm] = t->second / (2 * lc);
        }
        return false;
    }
    static bool fromPoly(const Poly &p, NodeP &out)
    {
        NodeP s = mkQ(Sort::Real, 0);
        for (auto &t : p)
        {
            NodeP m = mkQ(Sort::Real, t.second);
            for (auto &e : t.first)
            {
                NodeP a = g_atoms[e.first].node;
                if (!a) return false;
                for (int i = 0; i < std::abs(e.second); ++i) m = e.second > 0 ? mkMul(m, a) : mkDiv(m, a);
            }
            s = mkAdd(s, m);
        }
        out = s;
        return true;
    }
    Real sqrt(const Real &x)
    {
        NodeP n = x.node();
        if (C(n) && n->c >= 0)
        {
            mpz_class p, q;
            if (mpz_perfect_square_p(n->c.get_num().get_mpz_t()) && mpz_perfect_square_p(n->c.get_den().get_mpz_t()))
            {
                mpz_sqrt(p.get_mpz_t(), n->c.get_num().get_mpz_t());
                mpz_sqrt(q.get_mpz_t(), n->c.get_den().get_mpz_t());
                return Real(mkQ(Sort::Real, mpq_class(p, q)));
            }
        }
        else if (!C(n) && !g_opaque) try
        {
            // sqrt of a constant or of a perfect square, after normalisation
            Poly p = reduceTrig(norm(n)), q;
            if (p.empty()) return Real(0);
            if (p.size() == 1 && p.begin()->first.empty()) return sqrt(Real(mkQ(Sort::Real, p.begin()->second)));
            Poly m1 = padd(p, pconst(-1));
            if (m1.size() < 2000 && isZeroPoly(m1)) return Real(1);
            NodeP root;
            if (p.size() < 200 && polySqrt(p, q) && fromPoly(q, root)) return abs(Real(root));
        }
        catch (TooBig &) {}
        return uf("sqrt", x);
    }
    Real cosh(const Real &x) { if (isZero(x.node())) return Real(1); return uf("cosh", x); }
    Real sinh(const Real &x) { if (isZero(x.node())) return Real(0); return uf("sinh", x); }
    Real pow(const Real &x, int k) { Real r(1); for (int i = 0; i < std::abs(k); ++i) r *= x; return k < 0 ? Real(1) / r : r; }
    static Real fround(const char *f, const Real &x)
    {
        NodeP n = x.node();
        if (!C(n)) return uf(f, x);
        mpz_class q, d = n->c.get_den(), a = n->c.get_num();
        if (!strcmp(f, "round")) { mpq_class h = abs(n->c) + mpq_class(1, 2); mpz_fdiv_q(q.get_mpz_t(), h.get_num().get_mpz_t(), h.get_den().get_mpz_t()); if (n->c < 0) q = -q; }
        else if (!strcmp(f, "floor")) mpz_fdiv_q(q.get_mpz_t(), a.get_mpz_t(), d.get_mpz_t());
        else mpz_cdiv_q(q.get_mpz_t(), a.get_mpz_t(), d.get_mpz_t());
        return Real(mkQ(Sort::Real, mpq_class(q)));
    }
    WholeReal floor(const Real &x) { return WholeReal(fround("floor", x)); }
    WholeReal ceil(const Real &x) { return WholeReal(fround("ceil", x)); }
    WholeReal round(const Real &x) { return WholeReal(fround("round", x)); }
    Real::operator long() const
    {
        NodeP n = node();
        if (!C(n)) throw Undecided{"real-to-integer conversion of a symbolic value: " + show(n)};
        mpz_class q; mpz_tdiv_q(q.get_mpz_t(), n->c.get_num().get_mpz_t(), n->c.get_den().get_mpz_t());
        return q.get_si();
    }

    // ------------------------------------------------------------------ solver
    struct Stats { size_t z3 = 0, poly = 0, trivial = 0, cvc5 = 0; double z3_s = 0; };
    static Stats g_stats;
    static z3::context &ctx() { static z3::context c; return c; }
    static std::unordered_map<NodeP, std::shared_ptr<z3::expr>> g_z3;
    static std::map<NodeP, bool> g_axiom_done;
    static z3::expr qexpr(const mpq_class &q, Sort s)
    {
        if (s == Sort::Int) return ctx().int_val(q.get_str().c_str());
        return ctx().real_val(q.get_str().c_str());
    }
    static z3::expr tz(NodeP n)
    {
        auto it = g_z3.find(n);
        if (it != g_z3.end()) return *it->second;
        z3::context &c = ctx();
        z3::expr r(c);
        switch (n->op)
        {
            case Op::CONST: r = qexpr(n->c, n->sort); break;
            case Op::VAR: r = c.constant(n->name.c_str(), n->sort == Sort::Int ? c.int_sort() : c.real_sort()); break;
            case Op::ADD: r = tz(n->a[0]) + tz(n->a[1]); break;
            case Op::MUL: r = tz(n->a[0]) * tz(n->a[1]); break;
            case Op::DIV: r = tz(n->a[0]) / tz(n->a[1]); break;
            case Op::IDIV: r = tz(n->a[0]) / tz(n->a[1]); break;
            case Op::IMOD: r = z3::mod(tz(n->a[0]), tz(n->a[1])); break;
            case Op::TOREAL: r = z3::to_real(tz(n->a[0])); break;
            case Op::UF:
            {
                z3::sort_vector sv(c); z3::expr_vector ev(c);
                for (auto x : n->a) { z3::expr e = tz(x); sv.push_back(e.get_sort()); ev.push_back(e); }
                z3::func_decl f = c.function(n->name.c_str(), sv, n->sort == Sort::Int ? c.int_sort() : n->sort == Sort::Bool ? c.bool_sort() : c.real_sort());
                r = f(ev);
                break;
            }
            case Op::TRUE_: r = c.bool_val(true); break;
            case Op::FALSE_: r = c.bool_val(false); break;
            case Op::LT: r = tz(n->a[0]) < tz(n->a[1]); break;
            case Op::LE: r = tz(n->a[0]) <= tz(n->a[1]); break;
            case Op::EQ: r = tz(n->a[0]) == tz(n->a[1]); break;
            case Op::NOT: r = !tz(n->a[0]); break;
            case Op::AND: { z3::expr_vector ev(c); for (auto x : n->a) ev.push_back(tz(x)); r = z3::mk_and(ev); break; }
            case Op::OR: { z3::expr_vector ev(c); for (auto x : n->a) ev.push_back(tz(x)); r = z3::mk_or(ev); break; }
        }
        g_z3[n] = std::make_shared<z3::expr>(r);
        return r;
    }
    static void collectUF(NodeP n, std::set<NodeP> &seen, std::vector<NodeP> &ufs)
    {
        if (!seen.insert(n).second) return;
        for (auto x : n->a) collectUF(x, seen, ufs);
        if (n->op == Op::UF || n->op == Op::IDIV || n->op == Op::IMOD) ufs.push_back(n);
    }
    // axioms on library functions occurring in the query
    static void addAxioms(z3::solver &s, const std::vector<NodeP> &fs)
    {
        std::set<NodeP> seen; std::vector<NodeP> ufs;
        for (auto f : fs) collectUF(f, seen, ufs);
        z3::context &c = ctx();
        std::set<NodeP> trigDone, hypDone;
        for (auto u : ufs)
        {
            if (u->op != Op::UF) continue;
            z3::expr e = tz(u);
            if (u->name == "sin" || u->name == "cos")
            {
                if (!trigDone.insert(u->a[0]).second) continue;
                z3::expr sn = tz(mkUF("sin", u->a, Sort::Real)), cs = tz(mkUF("cos", u->a, Sort::Real));
                s.add(sn * sn + cs * cs == 1); s.add(sn >= -1 && sn <= 1 && cs >= -1 && cs <= 1);
            }
            else if (u->name == "cosh" || u->name == "sinh")
            {
                if (!hypDone.insert(u->a[0]).second) continue;
                z3::expr sh = tz(mkUF("sinh", u->a, Sort::Real)), ch = tz(mkUF("cosh", u->a, Sort::Real));
                s.add(ch * ch - sh * sh == 1); s.add(ch >= 1);
            }
            else if (u->name == "sqrt")
            {
                z3::expr a = tz(u->a[0]);
                s.add(z3::implies(a >= 0, e >= 0 && e * e == a));
            }
        }
        (void)c;
    }
    struct Model { std::map<std::string, std::string> values; };
    static int g_timeout_ms = 10000;
    // models of queries with library functions that are not fully axiomatised may be spurious
    static bool partialAxioms(const std::vector<NodeP> &fs)
    {
        std::set<NodeP> seen; std::vector<NodeP> ufs;
        for (auto f : fs) collectUF(f, seen, ufs);
        for (auto u : ufs) if (u->op == Op::UF && u->name != "sqrt") return true;
        return false;
    }
    // returns 1 sat, 0 unsat, -1 unknown
    // z3's own timeout is not honoured by all of its nonlinear procedures, and an interrupt is not noticed by all of them
    static std::function<void()> g_query_stuck;
    struct Watchdog
    {
        std::mutex mu; std::condition_variable cv; bool done = false; std::thread t;
        explicit Watchdog(int ms) : t([this, ms]()
        {
            std::unique_lock<std::mutex> l(mu);
            if (cv.wait_for(l, std::chrono::milliseconds(ms + 200), [this]() { return done; })) return;
            for (int i = 0; i < 100000 && !done; ++i)
            {
                Z3_interrupt(ctx());
                cv.wait_for(l, std::chrono::milliseconds(50), [this]() { return done; });
                if (i == 400 && !done && g_query_stuck) g_query_stuck();        // 20 seconds of interrupts: does not return
            }
        }) {}
        ~Watchdog() { { std::lock_guard<std::mutex> l(mu); done = true; } cv.notify_all(); t.join(); }
    };
    static int check(const std::vector<NodeP> &fs, int timeout_ms, Model *m)
    {
        auto t0 = std::chrono::steady_clock::now();
        ++g_stats.z3;
        int res = -1;
        try
        {
            z3::solver s(ctx());
            z3::params p(ctx());
            p.set("timeout", (unsigned)timeout_ms);
            s.set(p);
            for (auto f : fs) s.add(tz(f));
            addAxioms(s, fs);
            z3::check_result r;
            {
                Watchdog w(timeout_ms);
                r = s.check();
            }
            if (r == z3::unsat) res = 0;
            else if (r == z3::sat)
            {
                res = 1;
                if (m)
                {
                    z3::model mo = s.get_model();
                    for (unsigned i = 0; i < mo.num_consts(); ++i)
                    {
                        z3::func_decl d = mo.get_const_decl(i);
                        z3::expr v = mo.get_const_interp(d);
                        std::string txt;
                        if (v.is_numeral()) txt = v.get_decimal_string(20);
                        else { std::ostringstream o; o << v; txt = o.str(); }
                        if (!txt.empty() && txt.back() == '?') txt.pop_back();
                        m->values[d.name().str()] = txt;
                    }
                }
            }
        }
        catch (const z3::exception &e) { res = -1; }
        g_stats.z3_s += std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count();
        return res;
    }

    // ------------------------------------------------------------------ exploration
    struct Decision { bool isChoice; long value; };
    struct Obligation { std::string label, status, backend, detail; double seconds; Model model; std::vector<std::pair<std::string, long>> choices; };
    static std::vector<long> g_prefix;           // decisions to replay
    static size_t g_pos;
    static std::vector<std::vector<long>> g_todo;
    static std::vector<long> g_taken;
    static std::vector<NodeP> g_pc;
    static std::vector<std::pair<std::string, long>> g_choices;
    static std::vector<Obligation> g_obl;
    static std::map<std::string, size_t> g_label_ok;
    static std::map<std::string, std::string> g_label_backend;
    static size_t g_nOk, g_nFail, g_nUnknown;
    static std::set<std::string> g_inputs;
    static size_t g_sym_count;
    static bool g_check_div = true;
    static std::set<NodeP> g_nonzero;            // divisors already shown nonzero on this path
    static bool g_in_contract = false;
    // the wide pass: sizes and branches are drawn at random, values stay symbolic
    static bool g_wide = false, g_sized = false;
    static std::mt19937_64 g_rng(1);
    static std::chrono::steady_clock::time_point g_path_t0;
    static size_t g_nWideUnknown;
    struct WideTimeout {};
    static double g_path_seconds = 15;
    static void pathDeadline()
    {
        if (g_wide && std::chrono::duration<double>(std::chrono::steady_clock::now() - g_path_t0).count() > g_path_seconds) throw WideTimeout();
    }

    static int knownCmp(NodeP f)
    {
        // decide LT/LE/EQ of polynomially constant differences
        if (f->op != Op::LT && f->op != Op::LE && f->op != Op::EQ) return -1;
        try
        {
            Poly d = reduceTrig(padd(norm(f->a[1]), pscale(norm(f->a[0]), -1)));
            if (d.empty()) return f->op == Op::LT ? 0 : 1;
            if (d.size() == 1 && d.begin()->first.empty())
            {
                const mpq_class &q = d.begin()->second;
                return f->op == Op::LT ? q > 0 : f->op == Op::LE ? q >= 0 : 0;
            }
        }
        catch (TooBig &) {}
        return -1;
    }
    static long take(long v) { g_taken.push_back(v); ++g_pos; return v; }
    bool decide(NodeP f)
    {
        if (f->op == Op::TRUE_) return true;
        if (f->op == Op::FALSE_) return false;
        int k = knownCmp(f);
        if (k < 0 && f->op == Op::NOT) { k = knownCmp(f->a[0]); if (k >= 0) k = !k; }
        if (k >= 0) return k != 0;
        NodeP nf = mkNot(f);
        for (auto p : g_pc) { if (p == f) return true; if (p == nf) return false; }
        if (!g_in_contract) throw Undecided{"symbolic branch outside a contract: " + show(f)};
        if (g_pos < g_prefix.size())
        {
            bool v = g_prefix[g_pos] != 0;
            take(v);
            g_pc.push_back(v ? f : nf);
            return v;
        }
        pathDeadline();
        std::vector<NodeP> q = g_pc;
        if (g_wide)
        {
            bool v = g_rng() % 2;                       // one side that is possible
            q.push_back(v ? f : nf);
            if (check(q, 1500, nullptr) != 1)
            {
                v = !v;
                q.back() = v ? f : nf;
                if (check(q, 1500, nullptr) != 1) throw WideTimeout();
            }
            take(v);
            g_pc.push_back(v ? f : nf);
            return v;
        }
        q.push_back(f);
        int st = check(q, 3000, nullptr);
        q.back() = nf;
        int sf = check(q, 3000, nullptr);
        if (st == 0 && sf == 0) throw PathInfeasible();
        if (st == 0) { take(0); g_pc.push_back(nf); return false; }
        if (sf == 0) { take(1); g_pc.push_back(f); return true; }
        std::vector<long> alt = g_taken; alt.push_back(0);
        g_todo.push_back(alt);
        take(1);
        g_pc.push_back(f);
        return true;
    }
    bool holds(const Formula &f) { return decide(f.n); }
    long choose(const std::string &name, long lo, long hi)
    {
        long v;
        if (hi < lo) throw PathInfeasible();
        if (g_pos < g_prefix.size()) v = take(g_prefix[g_pos]);
        else if (g_wide) { pathDeadline(); v = take(lo + (long)(g_rng() % (unsigned long)(hi - lo + 1))); }
        else
        {
            for (long x = lo + 1; x <= hi; ++x) { std::vector<long> alt = g_taken; alt.push_back(x); g_todo.push_back(alt); }
            v = take(lo);
        }
        g_choices.push_back({name, v});
        return v;
    }
    long size(const std::string &name, long lo, long hi, long wide)
    {
        g_sized = true;
        static const bool all = getenv("VP_ALL_SIZES") != nullptr;             // exhaustively up to the wide bound
        if (all) return choose(name, lo, std::max(hi, wide));
        if (!g_wide || wide <= hi) return choose(name, lo, hi);
        // mostly between the exhaustive bound and the wide one, so that every combination of small and large sizes occurs
        return g_rng() % 4 ? choose(name, lo, wide) : choose(name, std::max(lo, hi), wide);
    }
    long concretize(NodeP n)
    {
        long v;
        if (isConstI(n, v)) return v;
        try { Poly p = norm(n); if (p.empty()) return 0; if (p.size() == 1 && p.begin()->first.empty() && p.begin()->second.get_den() == 1) return p.begin()->second.get_num().get_si(); } catch (TooBig &) {}
        for (int guard = 0; guard < 64; ++guard)
        {
            Model m;
            // pick a candidate value from a model, fork on equality
            NodeP probe = mkVar(Sort::Int, "vp_probe");
            std::vector<NodeP> q = g_pc; q.push_back(mkEq(probe, n));
            int r = check(q, 3000, &m);
            if (r == 0) throw PathInfeasible();
            if (r < 0 || !m.values.count("vp_probe")) throw Undecided{"cannot concretise " + show(n)};
            long cand = std::stol(m.values["vp_probe"]);
            if (decide(mkEq(n, mkConstI(Sort::Int, cand)))) return cand;
        }
        throw Undecided{"too many values for " + show(n)};
    }

    static void record(const std::string &label, const char *status, const char *backend, double sec, const std::string &detail, const Model *m)
    {
        if (!strcmp(status, "discharged")) { ++g_nOk; ++g_label_ok[label]; g_label_backend[label] = backend; return; }
        Obligation o; o.label = label; o.status = status; o.backend = backend; o.seconds = sec; o.detail = detail; o.choices = g_choices;
        if (m) o.model = *m;
        if (!strcmp(status, "failed")) ++g_nFail; else if (g_wide) { ++g_nWideUnknown; return; } else ++g_nUnknown;
        g_obl.push_back(o);
    }
    // true by polynomial identities alone
    static bool identically(NodeP f)
    {
        if (f->op == Op::TRUE_) return true;
        if (f->op == Op::AND) { for (auto x : f->a) if (!identically(x)) return false; return true; }
        if (f->op == Op::OR) { for (auto x : f->a) if (identically(x)) return true; return false; }
        if (f->op == Op::EQ && f->a[0]->sort != Sort::Bool)
        {
            try { return isZeroPoly(padd(norm(f->a[1]), pscale(norm(f->a[0]), -1))); } catch (TooBig &) { return false; }
        }
        return false;
    }
    static void dischargeAtom(const std::string &label, NodeP f)
    {
        pathDeadline();
        if (f->op == Op::OR && identically(f)) { ++g_stats.poly; record(label, "discharged", "polynomial-identity", 0, "", nullptr); return; }
        if (f->op == Op::TRUE_) { ++g_stats.trivial; record(label, "discharged", "syntactic", 0, "", nullptr); return; }
        if (f->op == Op::EQ)
        {
            try
            {
                Poly d = padd(norm(f->a[1]), pscale(norm(f->a[0]), -1));
                if (isZeroPoly(d)) { ++g_stats.poly; record(label, "discharged", "polynomial-identity", 0, "", nullptr); return; }
            }
            catch (TooBig &) {}
        }
        else { int k = knownCmp(f); if (k == 1) { ++g_stats.poly; record(label, "discharged", "polynomial-identity", 0, "", nullptr); return; } }
        for (auto p : g_pc) if (p == f) { ++g_stats.trivial; record(label, "discharged", "syntactic", 0, "", nullptr); return; }
        std::vector<NodeP> q = g_pc;
        q.push_back(mkNot(f));
        Model m;
        auto t0 = std::chrono::steady_clock::now();
        int r = check(q, g_timeout_ms, &m);
        double sec = std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count();
        if (r == 0) record(label, "discharged", "z3", sec, "", nullptr);
        else if (r == 1) record(label, partialAxioms(q) ? "unknown" : "failed", "z3", sec, show(f), &m);
        else record(label, "unknown", "z3", sec, show(f), nullptr);
    }
    void ensures(const std::string &label, const Formula &f)
    {
        if (g_nFail > 40) return;
        if (f.n->op == Op::AND) { for (auto x : f.n->a) { dischargeAtom(label, x); if (g_nFail > 40) return; } }
        else dischargeAtom(label, f.n);
    }
    void unreachable(const std::string &label)
    {
        Model m;
        int r = check(g_pc, g_timeout_ms, &m);
        if (r == 0) record(label, "discharged", "z3", 0, "", nullptr);
        else if (r == 1) record(label, partialAxioms(g_pc) ? "unknown" : "failed", "z3", 0, "reachable", &m);
        else record(label, "unknown", "z3", 0, "reachability unknown", nullptr);
    }
    void obligationDivisor(NodeP d)
    {
        if (!g_in_contract || !g_check_div) return;
        if (!g_nonzero.insert(d).second) return;
        try { Poly p = reduceTrig(norm(d)); if (p.size() == 1 && p.begin()->first.empty()) return; } catch (TooBig &) {}
        std::vector<NodeP> q = g_pc;
        q.push_back(mkEq(d, mkQ(d->sort, 0)));
        Model m;
        int r = check(q, 2000, &m);
        if (r == 0) record("no division by zero", "discharged", "z3", 0, "", nullptr);
        else if (r == 1) record("no division by zero", partialAxioms(q) ? "unknown" : "failed", "z3", 0, show(d), &m);
        else record("no division by zero", "assumed", "z3", 0, show(d), nullptr);
        g_pc.push_back(mkNot(mkEq(d, mkQ(d->sort, 0))));
    }
    void unsignedUnderflowCheck(NodeP a, NodeP b)
    {
        if (!g_in_contract) return;
        NodeP f = mkLe(b, a);
        if (f->op == Op::TRUE_ || knownCmp(f) == 1) return;
        dischargeAtom("no unsigned underflow", f);
        if (f->op != Op::FALSE_) g_pc.push_back(f);
    }
    void requires_(const Formula &f)
    {
        std::vector<NodeP> parts;
        if (f.n->op == Op::AND) parts = f.n->a; else parts.push_back(f.n);
        for (auto p : parts)
        {
            if (p->op == Op::TRUE_) continue;
            if (p->op == Op::FALSE_) throw PathInfeasible();
            g_pc.push_back(p);
        }
        if (check(g_pc, 3000, nullptr) == 0) throw PathInfeasible();
    }
    void assume(const Formula &f)
    {
        if (f.n->op == Op::AND) { for (auto x : f.n->a) g_pc.push_back(x); }
        else if (f.n->op != Op::TRUE_) g_pc.push_back(f.n);
    }
    Real sym(const std::string &name, double, double) { g_inputs.insert(name); return Real(mkVar(Sort::Real, name)); }
    Int isym(const std::string &name, long, long)
    {
        g_inputs.insert(name);
        NodeP v = mkVar(Sort::Int, name);
        NodeP nn = mkLe(mkConstI(Sort::Int, 0), v);
        bool have = false; for (auto p : g_pc) if (p == nn) have = true;
        if (!have) g_pc.push_back(nn);
        return Int(v);
    }
    void note(const std::string &s) { (void)s; }
    bool isDefinite(const Formula &f, bool &v) { if (f.n->op == Op::TRUE_) { v = true; return true; } if (f.n->op == Op::FALSE_) { v = false; return true; } return false; }

    static std::string jstr(const std::string &s)
    {
        std::string o = "\"";
        for (char ch : s) { if (ch == '"' || ch == '\\') { o += '\\'; o += ch; } else if (ch == '\n') o += "\\n"; else if ((unsigned char)ch < 32) o += ' '; else o += ch; }
        return o + "\"";
    }
    struct RunLimits { size_t max_paths = 2000000; double max_seconds = 600; };
    static size_t g_completed, g_infeasible, g_paths;
    static std::string g_incomplete;
    static Stats g_before;
    static std::chrono::steady_clock::time_point g_t0;
    static void startContract()
    {
        g_t0 = std::chrono::steady_clock::now();
        g_todo.clear();
        g_obl.clear(); g_label_ok.clear(); g_label_backend.clear(); g_nOk = g_nFail = g_nUnknown = 0; g_inputs.clear();
        g_before = g_stats;
        g_completed = g_infeasible = g_paths = g_nWideUnknown = 0;
        g_incomplete.clear();
    }
    static double elapsed() { return std::chrono::duration<double>(std::chrono::steady_clock::now() - g_t0).count(); }
    static void unexpected(const std::string &what)
    {
        g_in_contract = false;
        Model m;
        int r = check(g_pc, g_timeout_ms, &m);
        if (r == 0) ++g_infeasible;
        else if (r == 1) record("no unexpected exception or assertion failure", partialAxioms(g_pc) ? "unknown" : "failed", "z3", 0, what, &m);
        else record("no unexpected exception or assertion failure", "unknown", "z3", 0, what, nullptr);
    }
    static void onePath(const Contract &ct)
    {
        g_prefix = g_todo.back(); g_todo.pop_back();
        g_pos = 0; g_taken.clear(); g_pc.clear(); g_choices.clear(); g_nonzero.clear();
        g_fresh = 0;
        ++g_paths;
        g_in_contract = true;
        g_path_t0 = std::chrono::steady_clock::now();
        try { ct.fn(); ++g_completed; }
        catch (WideTimeout &) { ++g_nWideUnknown; }
        catch (PathInfeasible &) { ++g_infeasible; }
        catch (Undecided &u) { g_in_contract = false; record("path decided", "unknown", "engine", 0, u.why, nullptr); }
        catch (EigenAssertFailure &e) { unexpected(e.what()); }
        catch (std::exception &e) { unexpected(e.what()); }
        g_in_contract = false;
    }
    static void printRecord(const Contract &ct)
    {
        std::cout << std::setprecision(6);
        std::cout << "{\"contract\":" << jstr(ct.name) << ",\"functions\":" << jstr(ct.functions) << ",\"paths\":" << g_completed << ",\"infeasible\":" << g_infeasible
                  << ",\"wide_undecided\":" << g_nWideUnknown << ",\"sized\":" << (g_sized ? "true" : "false") << ",\"discharged\":" << g_nOk << ",\"failed\":" << g_nFail << ",\"unknown\":" << g_nUnknown << ",\"inputs\":" << g_inputs.size()
                  << ",\"seconds\":" << elapsed() << ",\"solver_seconds\":" << (g_stats.z3_s - g_before.z3_s)
                  << ",\"by\":{\"polynomial-identity\":" << (g_stats.poly - g_before.poly) << ",\"syntactic\":" << (g_stats.trivial - g_before.trivial) << ",\"z3_queries\":" << (g_stats.z3 - g_before.z3) << "}"
                  << ",\"incomplete\":" << jstr(g_incomplete) << ",\"labels\":{";
        bool first = true;
        for (auto &kv : g_label_ok) { std::cout << (first ? "" : ",") << jstr(kv.first) << ":" << kv.second; first = false; }
        std::cout << "},\"open\":[";
        first = true;
        for (auto &o : g_obl)
        {
            std::cout << (first ? "" : ",") << "{\"label\":" << jstr(o.label) << ",\"status\":" << jstr(o.status) << ",\"backend\":" << jstr(o.backend) << ",\"detail\":" << jstr(o.detail.substr(0, 2000)) << ",\"model\":{";
            bool f2 = true;
            for (auto &kv : o.model.values) { std::cout << (f2 ? "" : ",") << jstr(kv.first) << ":" << jstr(kv.second); f2 = false; }
            std::cout << "},\"choices\":{";
            f2 = true;
            for (auto &kv : o.choices) { std::cout << (f2 ? "" : ",") << jstr(kv.first) << ":" << kv.second; f2 = false; }
            std::cout << "}}";
            first = false;
        }
        std::cout << "]}" << std::endl;
    }
    // ---- the paths of one contract, shared among worker processes (the parent makes no solver call)
    static void writeAll(int fd, const std::string &t) { size_t o = 0; while (o < t.size()) { ssize_t k = write(fd, t.data() + o, t.size() - o); if (k <= 0) _exit(3); o += (size_t)k; } }
    static std::string prefixText(const std::vector<long> &p) { std::string t; for (long v : p) { t += std::to_string(v); t += ' '; } return t; }
    static std::vector<long> prefixOf(const std::string &t) { std::vector<long> p; std::istringstream in(t); long v; while (in >> v) p.push_back(v); return p; }
    static void worker(const Contract &ct, int in, int out)
    {
        startContract();
        FILE *f = fdopen(in, "r");
        char *line = nullptr; size_t cap = 0;
        // a query that cannot be stopped takes this worker with it: its record is printed (under Watchdog's lock, the
        // main thread is inside the solver), the other workers go on with the rest of its prefixes
        if (!g_wide) g_query_stuck = [&ct, out]()
        {
            g_incomplete = "a solver query did not end";
            printRecord(ct);
            std::cout.flush();
            std::string r;
            for (auto &p : g_todo) { r += prefixText(p); r += '\n'; }
            writeAll(out, r + "gone\n");
            _exit(0);
        };
        while (getline(&line, &cap, f) > 0)
        {
            std::string t = line; while (!t.empty() && t.back() == '\n') t.pop_back();
            if (t == "quit") break;
            if (g_wide)
            {
                g_rng.seed(std::strtoull(t.c_str(), nullptr, 10));
                startContract();
                g_todo.assign(1, {});
                onePath(ct);
                size_t h = 14695981039346656037ull;          // which path it was
                for (auto &c : g_choices) h = (h ^ (size_t)c.second) * 1099511628211ull;
                for (long v : g_taken) h = (h ^ (size_t)(v + 7)) * 1099511628211ull;
                if (g_nFail) { printRecord(ct); std::cout.flush(); }
                std::ostringstream r;
                r << (g_nFail ? "stop " : g_sized ? "done " : "none ") << h << " " << g_completed << " " << g_nOk << " " << g_nWideUnknown << "\n";
                writeAll(out, r.str());
                continue;
            }
            g_todo.clear(); g_todo.push_back(prefixOf(t));
            auto s0 = std::chrono::steady_clock::now();
            size_t did = 0;
            while (!g_todo.empty() && g_nFail <= 40)
            {
                onePath(ct); ++did;
                if (std::chrono::duration<double>(std::chrono::steady_clock::now() - s0).count() > 0.3) break;
            }
            std::string r;
            for (auto &p : g_todo) { r += prefixText(p); r += '\n'; }
            r += (g_nFail > 40 ? "stop " : "done ") + std::to_string(did) + "\n";
            writeAll(out, r);
        }
        if (!g_wide) printRecord(ct);
        std::cout.flush();
        _exit(0);
    }
    static int runParallel(const Contract &ct, int n, const RunLimits &lim)
    {
        struct W { pid_t pid; int to, from; bool busy; std::string buf; bool killed = false, gone = false; };
        std::vector<W> ws(n);
        std::cout.flush();
        for (int i = 0; i < n; ++i)
        {
            int a[2], b[2];
            if (pipe(a) || pipe(b)) return 3;
            pid_t pid = fork();
            if (pid == 0) { prctl(PR_SET_PDEATHSIG, SIGKILL); close(a[1]); close(b[0]); for (int j = 0; j < i; ++j) { close(ws[j].to); close(ws[j].from); } worker(ct, a[0], b[1]); }
            close(a[0]); close(b[1]);
            ws[i].pid = pid; ws[i].to = a[1]; ws[i].from = b[0]; ws[i].busy = false;
        }
        std::vector<std::vector<long>> todo; todo.push_back({});
        auto t0 = std::chrono::steady_clock::now();
        size_t paths = 0; bool stop = false, lost = false; std::string incomplete;
        for (;;)
        {
            double el = std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count();
            if (!stop && (el > lim.max_seconds || paths > lim.max_paths)) { stop = true; incomplete = "limit reached: " + std::to_string(todo.size()) + " path prefixes left"; }
            bool busy = false;
            for (auto &w : ws)
            {
                if (!w.busy && !w.gone && !stop && !todo.empty()) { std::string t = prefixText(todo.back()) + "\n"; todo.pop_back(); writeAll(w.to, t); w.busy = true; }
                busy = busy || w.busy;
            }
            if (!busy) break;
            if (el > lim.max_seconds + 30)
            {
                for (auto &w : ws) if (w.busy) { kill(w.pid, SIGKILL); w.busy = false; w.killed = true; }
                incomplete = "a path did not end within the time limit";
                break;
            }
            std::vector<pollfd> pf; std::vector<size_t> who;
            for (size_t i = 0; i < ws.size(); ++i) if (ws[i].busy) { pf.push_back({ws[i].from, POLLIN, 0}); who.push_back(i); }
            if (poll(pf.data(), pf.size(), 1000) <= 0) continue;
            for (size_t k = 0; k < pf.size(); ++k)
            {
                if (!pf[k].revents) continue;
                W &w = ws[who[k]];
                char tmp[65536]; ssize_t g = read(w.from, tmp, sizeof tmp);
                if (g <= 0) { lost = true; w.busy = false; stop = true; continue; }
                w.buf.append(tmp, (size_t)g);
                size_t nl;
                while ((nl = w.buf.find('\n')) != std::string::npos)
                {
                    std::string l = w.buf.substr(0, nl); w.buf.erase(0, nl + 1);
                    if (l == "gone")
                    {
                        w.busy = false; w.gone = true;
                        incomplete = "a solver query did not end";
                    }
                    else if (l.compare(0, 5, "done ") == 0 || l.compare(0, 5, "stop ") == 0)
                    {
                        paths += (size_t)atol(l.c_str() + 5); w.busy = false;
                        if (l[0] == 's' && !stop) { stop = true; incomplete = "stopped after 40 failures in one worker"; }
                    }
                    else todo.push_back(prefixOf(l));
                }
            }
        }
        for (auto &w : ws)
        {
            if (write(w.to, "quit\n", 5) < 0) {}
            close(w.to);
            int st = 0; waitpid(w.pid, &st, 0);
            if (!w.killed && !(WIFEXITED(st) && WEXITSTATUS(st) == 0)) lost = true;
        }
        startContract();
        g_incomplete = incomplete;
        if (lost) { std::cout.flush(); abort(); }      // the code under contract ended a worker
        printRecord(ct);
        return 0;
    }
    // paths with sizes and branches drawn at random, until the time is used up
    static int runWide(const Contract &ct, int n, double seconds, unsigned long seed, long max_paths)
    {
        struct W { pid_t pid; int to, from; bool busy; std::string buf; };
        std::vector<W> ws(n);
        std::cout.flush();
        g_wide = true;
        for (int i = 0; i < n; ++i)
        {
            int a[2], b[2];
            if (pipe(a) || pipe(b)) return 3;
            pid_t pid = fork();
            if (pid == 0) { prctl(PR_SET_PDEATHSIG, SIGKILL); close(a[1]); close(b[0]); for (int j = 0; j < i; ++j) { close(ws[j].to); close(ws[j].from); } worker(ct, a[0], b[1]); }
            close(a[0]); close(b[1]);
            ws[i] = W{pid, a[1], b[0], false, ""};
        }
        auto t0 = std::chrono::steady_clock::now();
        std::mt19937_64 seeds(seed);
        long given = 0, again = 0;
        size_t paths = 0, oks = 0, unks = 0;
        std::set<size_t> seen;
        bool stop = false;
        for (;;)
        {
            double el = std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count();
            if (el > seconds || given >= max_paths) stop = true;
            bool busy = false;
            for (auto &w : ws)
            {
                if (!w.busy && !stop) { writeAll(w.to, std::to_string(seeds()) + "\n"); w.busy = true; ++given; }
                busy = busy || w.busy;
            }
            if (!busy || el > seconds + 5) break;
            std::vector<pollfd> pf; std::vector<size_t> who;
            for (size_t i = 0; i < ws.size(); ++i) if (ws[i].busy) { pf.push_back({ws[i].from, POLLIN, 0}); who.push_back(i); }
            if (poll(pf.data(), pf.size(), 200) <= 0) continue;
            for (size_t k = 0; k < pf.size(); ++k)
            {
                if (!pf[k].revents) continue;
                W &w = ws[who[k]];
                char tmp[4096]; ssize_t g = read(w.from, tmp, sizeof tmp);
                if (g <= 0) { std::cout.flush(); abort(); }        // the code under contract ended a worker
                w.buf.append(tmp, (size_t)g);
                size_t nl;
                while ((nl = w.buf.find('\n')) != std::string::npos)
                {
                    if (w.buf[0] == 's' || w.buf[0] == 'n') stop = true;        // a failure, or a contract without sizes
                    std::istringstream in(w.buf.substr(5, nl - 5));
                    size_t h, done, ok, unk;
                    in >> h >> done >> ok >> unk;
                    if (seen.insert(h).second) { paths += done; oks += ok; unks += unk; again = 0; }
                    else if (++again > 2000) stop = true;                       // nothing new is drawn any more
                    w.buf.erase(0, nl + 1); w.busy = false;
                }
            }
        }
        for (auto &w : ws)
        {
            if (w.busy) kill(w.pid, SIGKILL);           // out of time
            else if (write(w.to, "quit\n", 5) < 0) {}
            close(w.to);
            int st = 0; waitpid(w.pid, &st, 0);
        }
        startContract();
        g_completed = paths; g_nOk = oks; g_nWideUnknown = unks; g_sized = true;
        printRecord(ct);
        return 0;
    }
    static int runAll(const std::string &filter, int workers)
    {
        RunLimits lim;
        if (const char *e = getenv("VP_MAX_SECONDS")) lim.max_seconds = atof(e);
        signal(SIGPIPE, SIG_IGN);
        bool ok = true;
        for (auto &ct : registry())
        {
            if (!filter.empty() && filter != ct.name) continue;
            if (workers > 1) { runParallel(ct, workers, lim); continue; }
            startContract();
            g_todo.push_back({});
            while (!g_todo.empty())
            {
                if (g_paths >= lim.max_paths || elapsed() > lim.max_seconds) { g_incomplete = "limit reached: " + std::to_string(g_todo.size()) + " paths left"; break; }
                if (g_nFail > 40) break;
                onePath(ct);
            }
            printRecord(ct);
            if (g_nFail) ok = false;
        }
        return ok ? 0 : 1;
    }
    std::vector<Contract> &registry() { static std::vector<Contract> r; return r; }
    void eigenAssertFailed(const char *expr, const char *file, int line)
    {
        const char *b = strrchr(file, '/');
        throw EigenAssertFailure(std::string("Eigen assertion failed: ") + expr + " (" + (b ? b + 1 : file) + ":" + std::to_string(line) + ")");
    }
}

int main(int argc, char **argv)
{
    std::string filter;
    if (argc > 1 && !strcmp(argv[1], "--list")) { for (auto &c : vp::registry()) std::cout << c.name << "\n"; return 0; }
    if (argc > 1) filter = argv[1];
    if (const char *e = getenv("VP_TIMEOUT_MS")) vp::g_timeout_ms = atoi(e);
    // prog CONTRACT WORKERS wide SECONDS SEED [PATHS]
    if (argc > 5 && !strcmp(argv[3], "wide"))
    {
        if (const char *e = getenv("VP_PATH_SECONDS")) vp::g_path_seconds = atof(e);
        signal(SIGPIPE, SIG_IGN);
        for (auto &c : vp::registry()) if (filter == c.name) return vp::runWide(c, atoi(argv[2]), atof(argv[4]), std::strtoul(argv[5], nullptr, 10), argc > 6 ? atol(argv[6]) : 1000000);
        return 2;
    }
    return vp::runAll(filter, argc > 2 ? atoi(argv[2]) : 1);
}
