// Concrete driver: replays a counterexample, or samples the precondition, on the code as compiled for real.
#define VP_CONCRETE
#include "vp.h"
#include <cstring>
#include <cstdlib>
namespace vp
{
    static std::map<std::string, double> g_given;
    static std::map<std::string, double> g_used;
    static std::mt19937_64 g_rng(1);
    static bool g_random = true;
    static std::string g_failed, g_detail;
    std::vector<Contract> &registry() { static std::vector<Contract> r; return r; }
    double &tolerance() { static double t = 1e-7; return t; }
    void eigenAssertFailed(const char *expr, const char *file, int line)
    {
        const char *b = strrchr(file, '/');
        throw EigenAssertFailure(std::string("Eigen assertion failed: ") + expr + " (" + (b ? b + 1 : file) + ":" + std::to_string(line) + ")");
    }
    Real sym(const std::string &name, double lo, double hi)
    {
        auto it = g_given.find(name);
        double v;
        if (it != g_given.end()) v = it->second;
        else if (g_used.count(name)) v = g_used[name];
        else if (!g_random) v = 0;
        else
        {
            std::uniform_real_distribution<double> d(lo, hi);
            v = d(g_rng);
            int k = (int)(g_rng() % 8);
            if (k == 0) v = lo;
            else if (k == 1) v = std::round(v);
            else if (k == 2) v = hi;
            if (v < lo || v > hi) v = lo;
        }
        g_used[name] = v;
        return v;
    }
    Int isym(const std::string &name, long lo, long hi)
    {
        auto it = g_given.find(name);
        long v;
        if (it != g_given.end()) v = (long)it->second;
        else if (g_used.count(name)) v = (long)g_used[name];
        else if (!g_random) v = 0;
        else v = lo + (long)(g_rng() % (unsigned long)(hi - lo + 1));
        if (g_random && it == g_given.end() && !g_used.count(name) && g_rng() % 4 == 0) v = lo + std::min<long>(hi - lo, g_rng() % 6);
        g_used[name] = (double)v;
        return (Int)v;
    }
    long choose(const std::string &name, long lo, long hi)
    {
        if (hi < lo) throw PathInfeasible();
        auto it = g_given.find("choice:" + name);
        long v;
        if (it != g_given.end()) v = (long)it->second;
        else v = lo + (long)(g_rng() % (unsigned long)(hi - lo + 1));
        if (v < lo || v > hi) throw PathInfeasible();
        g_used["choice:" + name] = (double)v;
        return v;
    }
    long size(const std::string &name, long lo, long hi, long wide)
    {
        bool given = g_given.count("choice:" + name);
        return choose(name, lo, given || g_rng() % 4 == 0 ? std::max(hi, wide) : hi);
    }
    void requires_(const Formula &f) { if (!f.v) throw PathInfeasible(); }
    void ensures(const std::string &label, const Formula &f) { if (f.k < 0 && g_failed.empty()) g_failed = label; }
    static bool once(const Contract &c)
    {
        g_used.clear(); g_failed.clear(); g_detail.clear();
        try { c.fn(); }
        catch (PathInfeasible &) { return !g_failed.empty(); }       // obligations stated before the precondition was refused stand
        catch (Undecided &) { return false; }
        catch (EigenAssertFailure &e) { if (g_failed.empty()) { g_failed = "no unexpected exception or assertion failure"; g_detail = e.what(); } }
        catch (std::exception &e) { if (g_failed.empty()) { g_failed = "no unexpected exception or assertion failure"; g_detail = e.what(); } }
        return true;
    }
    static std::string jstr(const std::string &s)
    {
        std::string o = "\"";
        for (char ch : s) { if (ch == '"' || ch == '\\') { o += '\\'; o += ch; } else if (ch == '\n') o += "\\n"; else if ((unsigned char)ch < 32) o += ' '; else o += ch; }
        return o + "\"";
    }
    static void report(const Contract &c, bool fail, long tries, long ran)
    {
        std::cout << "{\"contract\":" << jstr(c.name) << ",\"failed\":" << (fail ? "true" : "false") << ",\"label\":" << jstr(g_failed) << ",\"detail\":" << jstr(g_detail) << ",\"tries\":" << tries << ",\"ran\":" << ran << ",\"inputs\":{";
        bool first = true;
        if (fail) for (auto &kv : g_used) { std::ostringstream v; v << std::setprecision(17) << kv.second; std::string t = v.str(); if (!std::isfinite(kv.second)) t = "0"; std::cout << (first ? "" : ",") << jstr(kv.first) << ":" << t; first = false; }
        std::cout << "}}" << std::endl;
    }
}
// usage: prog CONTRACT given.txt   (lines "name value")   |   prog CONTRACT --sample N SEED
int main(int argc, char **argv)
{
    using namespace vp;
    if (argc < 3) return 2;
    std::string name = argv[1];
    for (auto &c : registry())
    {
        if (name != "*" && name != c.name) continue;
        if (!strcmp(argv[2], "--sample"))
        {
            long n = argc > 3 ? atol(argv[3]) : 1000;
            g_rng.seed(argc > 4 ? atol(argv[4]) : 1);
            long ran = 0, i; bool fail = false;
            for (i = 0; i < n && !fail; ++i) { if (once(c)) { ++ran; if (!g_failed.empty()) fail = true; } }
            report(c, fail, i, ran);
        }
        else
        {
            std::ifstream in(argv[2]);
            std::string k, v;
            g_given.clear();
            while (in >> k >> v) g_given[k] = atof(v.c_str());
            g_random = false;
            bool r = once(c);
            bool fail = r && !g_failed.empty();
            report(c, fail, 1, r ? 1 : 0);
            if (fail) return 1;
        }
    }
    return 0;
}
