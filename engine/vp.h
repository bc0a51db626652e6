// vp: contract checker for the real humoto code.
//
// A contract translation unit is compiled in one of two modes from the SAME text:
//   symbolic (default)  - `double` in /repo's headers is the symbolic scalar vp::Real, every path of the
//                         function under contract is explored and every ENSURES is an obligation for the solvers;
//   concrete (VP_CONCRETE) - `double` is double: used to replay counterexamples on the code as it really runs.
#pragma once
#include <algorithm>
#include <array>
#include <cmath>
#include <cstddef>
#include <deque>
#include <fstream>
#include <functional>
#include <iomanip>
#include <iostream>
#include <limits>
#include <list>
#include <map>
#include <memory>
#include <queue>
#include <random>
#include <set>
#include <sstream>
#include <stack>
#include <stdexcept>
#include <string>
#include <type_traits>
#include <utility>
#include <vector>
#include <cstdint>
#include <sys/time.h>

namespace vp
{
    // an assertion that would end the process: not an exception the code under contract could handle
    struct EigenAssertFailure
    {
        std::string text;
        explicit EigenAssertFailure(const std::string &s) : text(s) {}
        const char *what() const { return text.c_str(); }
    };
    [[noreturn]] void eigenAssertFailed(const char *expr, const char *file, int line);
    struct PathInfeasible {};
    struct Undecided { std::string why; };

    struct Contract
    {
        const char *name;
        const char *functions;
        void (*fn)();
    };
    std::vector<Contract> &registry();
    struct Registrar
    {
        Registrar(const char *n, const char *f, void (*fn)()) { registry().push_back({n, f, fn}); }
    };
    // every value of lo..hi is explored
    long choose(const std::string &name, long lo, long hi);
    // every value of lo..hi is explored; the wide pass also draws values up to `wide`
    long size(const std::string &name, long lo, long hi, long wide);
}

#define VP_CAT_(a, b) a##b
#define VP_CAT(a, b) VP_CAT_(a, b)
// CONTRACT(name, "functions under contract") { ... }
#define CONTRACT(name, functions)                                                        \
    static void vp_contract_##name();                                                    \
    static ::vp::Registrar vp_registrar_##name(#name, functions, &vp_contract_##name);   \
    static void vp_contract_##name()

#ifndef VP_CONCRETE
#include "vp_symbolic.h"
#else
#include "vp_concrete.h"
#endif
