#include "c35.h"
VX_SUITE_D(positions, 1)
{
    static std::vector<Case> v;
    typedef Obj O; typedef const std::string& S;
    if (v.empty()) {
        Each<0>::At<>::go<int, O, S>(v); Each<0>::At<int>::go<O, S>(v); Each<0>::At<int, O>::go<S>(v); Each<0>::At<int, O, S>::go<>(v);
        Each<0>::At<>::go<O, O&, bool, S, Value>(v); Each<0>::At<O&>::go<O, bool, S, Value>(v); Each<0>::At<O&, O>::go<bool, S, Value>(v);
        Each<0>::At<O, O&, bool>::go<S, Value>(v); Each<0>::At<O, O&, bool, S>::go<Value>(v); Each<0>::At<O, O&, bool, S, Value>::go<>(v);
    }
    int c = vx::choose(v.size(), "position"); v[c](vx::choose(2, "callable"));
}
