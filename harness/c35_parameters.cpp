#include "c35.h"
VX_SUITE_D(parameters, 1)
{
    static std::vector<Case> v; if (v.empty()) { Each<0>::params(v); v.push_back(&callable<const Obj&, int, Obj*, Value&>); v.push_back(&callable<Obj*, bool, bool, bool, bool, Sub>); }
    int c = vx::choose(v.size(), "parameter"); v[c](vx::choose(Callables, "callable"));
}
