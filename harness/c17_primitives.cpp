/* C17: the built-in types through reflection are the built-in types.
 * Every primitive type, trait, limit and alias; every value of the 8 and 16 bit
 * types and the boundary values of the others through every way of passing
 * them; every pair of 8 bit values in arithmetic. */
#include "vt.h"
#include "types/std/string.h"
#include <limits>
#include <cmath>
using namespace reflect;

#define PRIMS(X) X(bool) X(char) X(signed char) X(unsigned char) X(short int) X(unsigned short int) X(int) X(unsigned int) \
    X(long int) X(unsigned long int) X(long long int) X(unsigned long long int) X(float) X(double) X(long double)

namespace {
template<typename T> struct Box { T before, at, after; };
template<typename T> struct Id {};
}
#define X(T) template<> struct Id<T> { static const char* str() { return #T; } };
namespace {
PRIMS(X)
#undef X
template<typename T> std::vector<T> values(bool all)
{
    typedef std::numeric_limits<T> L;
    std::vector<T> r;
    if (std::is_same<T, bool>::value) { r.push_back(T(0)); r.push_back(T(1)); }
    else if (L::is_integer && (sizeof(T) == 1 || (sizeof(T) == 2 && all))) { long long lo = (long long) L::min(), hi = (long long) L::max(); for (long long i = lo; i <= hi; ++i) r.push_back(T(i)); }
    else {
        r = { T(0), T(1), T(2), T(7), T(-1), L::min(), L::max(), L::lowest(), T(L::max() / 2), T(L::min() / 2), T(L::max() - T(1)) };
        if (L::is_integer) for (size_t b = 0; b < sizeof(T) * 8; ++b) { T x = T((unsigned long long) 1 << b); r.push_back(x); r.push_back(T((unsigned long long) x - 1)); }
        else { r.push_back(L::infinity()); r.push_back(-L::infinity()); r.push_back(L::denorm_min()); r.push_back(L::epsilon()); r.push_back(T(-0.0)); r.push_back(L::quiet_NaN()); r.push_back(T(1) / 3); r.push_back(T(0.1L)); }
    }
    return r;
}
template<typename T> bool eq(T a, T b) { return a == b ? std::signbit((long double) a) == std::signbit((long double) b) : a != a && b != b; }

template<typename T> void traits()
{
    const Type* t = type<T>();
    typedef std::numeric_limits<T> L;
    const char* n = Id<T>::str();
    bool isBool = std::is_same<T, bool>::value;
    VX_CHECK(t->id() == n && type(std::string(n)) == t && type<const T>() == t && type<T&>() == t && type<T&&>() == t, "id", "%s is called %s", n, t->id().c_str());
    VX_CHECK(t->is("primitive"), "trait", "%s primitive", n);
    VX_CHECK(t->is("bool") == isBool, "trait", "%s bool", n);
    VX_CHECK(t->is("integer") == (!isBool && L::is_integer), "trait", "%s integer", n);
    VX_CHECK(t->is("signed") == (!isBool && L::is_integer && L::is_signed), "trait", "%s signed", n);
    VX_CHECK(t->is("unsigned") == (!isBool && L::is_integer && !L::is_signed), "trait", "%s unsigned", n);
    VX_CHECK(t->is("float") == !L::is_integer, "trait", "%s float", n);
    VX_CHECK(t->is("min") && t->is("max") && !t->is("void") && !t->is("string") && !t->is("list"), "trait", "%s limits", n);
    VX_CHECK(t->getValue<T>("min") == L::min() && t->getValue<T>("max") == L::max(), "limit", "limits of %s", n);
    VX_CHECK(t->getValue<Value>("min").type() == t && t->getValue<Value>("max").type() == t, "limit", "type of the limits of %s", n);
    VX_CHECK(t->isCopiable() && t->isMovable() && !t->isPointer() && !t->parent(), "traits", "%s queries", n);
    VX_CHECK(t->getValue<size_t>("sizeof") == sizeof(T), "trait", "sizeof %s", n);
    T* p = t->alloc().get<T*>(); VX_CHECK(p, "alloc", "%s alloc", n); *p = T(1); delete p;
}
template<typename T> void through(T x)
{
    const char* n = Id<T>::str();
    T lv = x; const T cv = x; Value v(lv), c(cv), o{T(x)};
    VX_CHECK(v.type() == type<T>() && eq(v.get<T>(), x) && eq(c.get<T>(), x) && eq(o.get<T>(), x), "value", "%s", n);
    VX_CHECK(eq(v.copy().get<T>(), x) && eq(cast<T>(v.toConst()), x) && eq(cast<T>(c), x), "copy", "%s", n);
    T d = T(); Value w(d); w.assign(v); VX_CHECK(eq(d, x), "assign", "%s", n);
    d = T(); w.assign(x); VX_CHECK(eq(d, x), "assign", "%s", n); d = T(); w.assign(c); VX_CHECK(eq(d, x), "assign", "%s", n);
    VX_CHECK(eq(type<T>()->template construct(x).template get<T>(), x) && eq(type<T>()->construct(c).template get<T>(), x) && eq(type<T>()->construct().template get<T>(), T()), "construct", "%s", n);
    Function f("f", [] (T a, const T& b, T&& e) -> T { return eq(a, b) && eq(a, T(e)) ? a : T(!a); });
    VX_CHECK(eq(f.call<T>(x, x, T(x)), x) && eq(f.call<T>(v, c, v.rvalue()), x) && eq(f.call<Value>(o, o, T(x)).template get<T>(), x), "call", "%s", n);
    Function r("r", [] (T& a) -> T& { return a; }); T y = x; VX_CHECK(&r.call<T&>(y) == &y && r.call<Value>(v).value() == &lv, "reference", "%s", n);
    VX_CHECK(vt::errs([&] { c.assign(x); }) && vt::errs([&] { v.get<std::string>(); }), "accepted", "%s", n);
    VX_CHECK(eq(lv, x) && eq(cv, x), "value", "%s changed", n);
}
template<typename T> void plus(T a, T b)
{
    auto expect = a + b; typedef decltype(expect) R;
    Value v(a); Value w(b);
    Value s1 = v + w, s2 = v + b; R s3 = v.toConst().call<R>("operator+", w.toConst());
    VX_CHECK(eq<R>(s1.get<R>(), expect) && eq<R>(s2.get<R>(), expect) && eq<R>(s3, expect), "plus", "%s +", Id<T>::str());
}
template<typename T, bool Wraps = std::numeric_limits<T>::is_integer && std::numeric_limits<T>::is_signed && (sizeof(T) >= sizeof(int))> struct Sum { static void go(T a, T b) { plus(a, b); } };
template<typename T> struct Sum<T, true> { static void go(T a, T b) { T r; if (!__builtin_add_overflow(a, b, &r)) plus(a, b); } };

template<typename T> void allOf(int what, bool all)
{
    if (what == 0) { traits<T>(); vx::step(); return; }
    auto vs = values<T>(all);
    if (what == 1) { for (size_t i = vx::choose((vs.size() + 127) / 128, "range") * 128, e = std::min(i + 128, vs.size()); i < e; ++i) { through<T>(vs[i]); vx::step(); } return; }
    auto left = sizeof(T) == 2 ? values<T>(false) : vs;     // one left operand per execution
    size_t i = vx::choose(left.size(), "left");
    for (T b : sizeof(T) == 2 && !vx::thorough() ? left : vs) { Sum<T>::go(left[i], b); vx::step(); }
}
}
VX_SUITE_D(types, 3)
{
    int t = vx::choose(15, "type"), what = vx::choose(3, "what");
    int k = 0; (void) k;
    vx::state(170 + t * 3 + what);
#define X(T) if (t == k++) { VX_NOTE("%s", #T); allOf<T>(what, vx::thorough() || what == 1); }
    PRIMS(X)
#undef X
}
namespace {
template<typename T> struct AliasOf { std::string name; bool operator()() const { return type(name) == type<T>(); } };
struct AliasCase { const char* name; const Type* (*of)(); size_t size; bool sign; };
template<typename T> const Type* typeOf() { return type<T>(); }
#define A(T) { #T, &typeOf<T>, sizeof(T), std::numeric_limits<T>::is_signed }
const AliasCase aliases[] = { A(short), A(unsigned short), A(long), A(unsigned long), A(long long), A(unsigned long long), A(size_t), A(ssize_t), A(intmax_t), A(uintmax_t), A(intptr_t), A(uintptr_t),
    A(int8_t), A(uint8_t), A(int16_t), A(uint16_t), A(int32_t), A(uint32_t), A(int64_t), A(uint64_t), A(int_fast8_t), A(uint_fast8_t), A(int_fast16_t), A(uint_fast16_t), A(int_fast32_t), A(uint_fast32_t), A(int_fast64_t), A(uint_fast64_t),
    A(int_least8_t), A(uint_least8_t), A(int_least16_t), A(uint_least16_t), A(int_least32_t), A(uint_least32_t), A(int_least64_t), A(uint_least64_t) };
}
/* Aliases in a fresh process, whatever was looked up before. */
VX_SUITE_D(aliases, 1)
{
    int a = vx::choose(36, "alias"), first = vx::choose(3, "before");
    vx::isolated([&] {
        const AliasCase& c = aliases[a];
        VX_NOTE("%s", c.name); vx::step(); vx::state(vx::mix(a, first));
        if (first == 1) c.of(); else if (first == 2) type(std::string("int"));
        VX_CHECK(type(std::string(c.name)) == c.of() && c.of() == type(std::string(c.name)), "alias", "%s", c.name);
    });
}
VX_SUITE_D(voidType, 1)
{
    vx::choose(1); vx::step(); vx::state(1700);
    const Type* t = type<void>();
    VX_CHECK(t->id() == "void" && t->is("void") && t->is("primitive") && !t->isCopiable(), "void", "void");
    Value v; VX_CHECK(v.isVoid() && !v.isStored(), "void", "empty value");
}
