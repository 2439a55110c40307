#include "c35.h"
VX_SUITE_D(pairs, 1)
{
    static std::vector<Case> v; if (v.empty()) Each<0>::pairs(v);
    int c = vx::choose(v.size(), "pair"); v[c](0);
}
