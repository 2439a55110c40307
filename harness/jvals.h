/* jvals.h - every value of a shape out of small sets of leaves. */
#pragma once
#include "jtypes.h"

namespace jv {
using js::J; using js::Shape;

// budget: how many leaves and items may differ from the default
inline J value(const Shape& s, int& budget, int width = 2)
{
    static const int64_t ints[] = { 0, 1, -12, INT64_MAX, INT64_MIN };
    static const double floats[] = { 0, 1.5, -2, 1e300, 1.25e-7 };
    static const char* strings[] = { "", "a", "\"\\/\n", "\xC3\xA9\xE2\x82\xAC\xF0\x9F\x98\x80", "\x01 \x7F" };
    J j = s.fresh();
    switch (s.k) {
    case Shape::Bool: if (budget > 0) { j.b = vx::flip("bool"); budget -= j.b; } break;
    case Shape::Int: if (budget > 0) { int c = vx::choose(5, "int"); j = J::integer(ints[c]); budget -= c > 0; } break;
    case Shape::Float: if (budget > 0) { int c = vx::choose(5, "float"); j = J::real(floats[c]); budget -= c > 0; } break;
    case Shape::Str: if (budget > 0) { int c = vx::choose(5, "string"); j = J::string(strings[c]); budget -= c > 0; } break;
    case Shape::Vec: case Shape::Map: {
        if (budget <= 0) break;
        int n = vx::choose(std::min(budget, width) + 1, "size"); budget -= n;
        static const char* keys[] = { "k", "", "a\"", "\\/\n", "\xC3\xA9\xF0\x9F\x98\x80" }; int first = n && s.k == Shape::Map ? vx::choose(5, "key") : 0;
        for (int i = 0; i < n; ++i) { J in = value(s.in[0], budget, width); if (s.k == Shape::Vec) j.a.push_back(in); else j.o.push_back(std::make_pair(keys[(first + i) % 5], in)); }
        break; }
    case Shape::Ptr: if (budget > 0 && vx::flip("set")) { budget--; j = value(s.in[0], budget, width); } break;
    case Shape::Obj: for (size_t i = 0; i < s.in.size(); ++i) j.o[i].second = value(s.in[i], budget, width); break;
    default: break;
    }
    return j;
}
} // namespace jv
