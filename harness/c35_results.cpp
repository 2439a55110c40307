#include "c35.h"
VX_SUITE_D(results, 1)
{
    static std::vector<Case> v; if (v.empty()) { Each<0>::returns(v); v.push_back(&callable<void>); v.push_back(&callable<const Obj>); }
    int c = vx::choose(v.size(), "result"); v[c](vx::choose(Callables, "callable"));
}
