/* C02: what a callee receives and what a caller gets back.
 * All pairs of parameter kinds x argument kinds x callable kinds x entry points,
 * plus long argument lists for ordering, plus every result kind. */
#define HIER_IMPL
#include "hier.h"
using namespace reflect;
using namespace h;

namespace {

template<int K> struct Par;
template<> struct Par<kCopy> { typedef HP t; };
template<> struct Par<kL> { typedef HP& t; };
template<> struct Par<kCL> { typedef const HP& t; };
template<> struct Par<kR> { typedef HP&& t; };
template<> struct Par<kCR> { typedef const HP&& t; };

struct Seen { const void* addr; int v; } seen[6];
int ran; const void* seenThis;

template<int K> struct Rec;
template<> struct Rec<kCopy> { static void go(int i, HP& x) { seen[i].addr = &x; seen[i].v = x.v; x.v += 100; } };
template<> struct Rec<kL> { static void go(int i, HP& x) { seen[i].addr = &x; seen[i].v = x.v; x.v += 100; } };
template<> struct Rec<kR> { static void go(int i, HP& x) { seen[i].addr = &x; seen[i].v = x.v; x.v += 100; } };
template<> struct Rec<kCL> { static void go(int i, const HP& x) { seen[i].addr = &x; seen[i].v = x.v; } };
template<> struct Rec<kCR> { static void go(int i, const HP& x) { seen[i].addr = &x; seen[i].v = x.v; } };

template<int A, int B> int body(typename Par<A>::t a, typename Par<B>::t b)
{ ran++; Rec<A>::go(0, a); Rec<B>::go(1, b); return seen[0].v * 1000 + seen[1].v; }

} // namespace

struct Host
{
    int id;
    template<int A, int B> int mem(typename Par<A>::t a, typename Par<B>::t b)
    { seenThis = this; ran++; Rec<A>::go(0, a); Rec<B>::go(1, b); return seen[0].v * 1000 + seen[1].v; }
    template<int A, int B> int cmem(typename Par<A>::t a, typename Par<B>::t b) const
    { seenThis = this; ran++; Rec<A>::go(0, a); Rec<B>::go(1, b); return seen[0].v * 1000 + seen[1].v; }
};
reflectTypeDecl(Host)
reflectTypeImpl(Host) { reflectPlumbing(); }

namespace {
template<int A, int B> struct Functor
{
    int state; explicit Functor(int s) : state(s) {}
    int operator()(typename Par<A>::t a, typename Par<B>::t b)
    { ran++; Rec<A>::go(0, a); Rec<B>::go(1, b); return seen[0].v * 1000 + seen[1].v + state; }
};
template<int A, int B> struct CFunctor
{
    int state; explicit CFunctor(int s) : state(s) {}
    int operator()(typename Par<A>::t a, typename Par<B>::t b) const
    { ran++; Rec<A>::go(0, a); Rec<B>::go(1, b); return seen[0].v * 1000 + seen[1].v + state; }
};
enum Callable { Free, Member, ConstMember, FunctorC, ConstFunctor, Lambda, NCallables };

template<int A, int B> Function make(int c, int cap)
{
    typedef typename Par<A>::t PA; typedef typename Par<B>::t PB;
    switch (c) {
    case Free: return Function("f", &body<A, B>);
    case Member: return Function("f", &Host::template mem<A, B>);
    case ConstMember: return Function("f", &Host::template cmem<A, B>);
    case FunctorC: return Function("f", Functor<A, B>(cap));
    case ConstFunctor: return Function("f", CFunctor<A, B>(cap));
    default: return Function("f", [cap] (PA a, PB b) -> int {
            ran++; Rec<A>::go(0, a); Rec<B>::go(1, b); return seen[0].v * 1000 + seen[1].v + cap; });
    }
}
Function make(int a, int b, int c, int cap)
{
#define B_(A) switch (b) { case 0: return make<A, 0>(c, cap); case 1: return make<A, 1>(c, cap); \
    case 2: return make<A, 2>(c, cap); case 3: return make<A, 3>(c, cap); default: return make<A, 4>(c, cap); }
    switch (a) { case 0: B_(0) case 1: B_(1) case 2: B_(2) case 3: B_(3) default: B_(4) }
#undef B_
}

// argument sources: kind x (exact type or derived)
// 0: the parameter's own type, 1: a child, 2: a child which also says it converts to its parent
struct Src { HP p; HC c; HX x; Src(int v) : p(v), c(v), x(v) {} HP& obj(int der) { return der == 2 ? (HP&) x : der ? (HP&) c : p; } };
Value mk(Src& s, int der, int k)
{
    const Src& cs = s;
    switch (k) {
    case kL: return der == 2 ? Value(s.x) : der ? Value(s.c) : Value(s.p);
    case kCL: return der == 2 ? Value(cs.x) : der ? Value(cs.c) : Value(cs.p);
    case kR: return (der == 2 ? Value(s.x) : der ? Value(s.c) : Value(s.p)).rvalue();
    default: return (der == 2 ? Value(s.x) : der ? Value(s.c) : Value(s.p)).toConst();
    }
}

// the argument as the callee should have seen it, and what the caller should be left with
void judge(int i, int pk, int ak, const void* obj, int before, int after, const char* what)
{
    VX_CHECK(seen[i].v == before, "argument-value", "%s: parameter %d saw %d instead of %d", what, i, seen[i].v, before);
    bool alias = pk == kL || pk == kCL;
    VX_CHECK((seen[i].addr == obj) == alias || pk == kR || pk == kCR, "argument-identity", "%s: parameter %d %s the caller's object",
            what, i, alias ? "does not alias" : "aliases");
    bool consumable = ak == kR && (pk == kCopy || pk == kR || pk == kCR);
    if (pk == kL) VX_CHECK(after == before + 100, "argument-effect", "%s: modification through parameter %d lost (%d)", what, i, after);
    else if (!consumable) VX_CHECK(after == before, "argument-effect", "%s: argument %d changed from %d to %d", what, i, before, after);
}

} // namespace

VX_SUITE_D(pairs, 3)
{
    int a = vx::choose(NKinds, "par0"), b = vx::choose(NKinds, "par1");
    int c = vx::choose(NCallables, "callable");
    int s0 = vx::choose(4, "arg0") + 1, s1 = vx::choose(4, "arg1") + 1;     // kL..kCR
    int d0 = vx::choose(3, "derived0"), d1 = vx::choose(3, "derived1");
    int entry = vx::choose(c == Member || c == ConstMember ? 3 : 2, "entry");
    bool ok0 = binds(d0 == 2 ? tX : d0 ? tC : tP, s0, tP, a) != None, ok1 = binds(d1 == 2 ? tX : d1 ? tC : tP, s1, tP, b) != None;
    vx::assume(ok0 && ok1);
    std::string what = vx::fmt("callable %d (%s, %s) with (%s%s, %s%s) entry %d", c, kindName(a), kindName(b),
            d0 == 2 ? "converting derived " : d0 ? "derived " : "", kindName(s0), d1 == 2 ? "converting derived " : d1 ? "derived " : "", kindName(s1), entry);
    VX_NOTE("%s", what.c_str());
    vx::state(vx::hashStr(what));
    Src x(11), y(22); Host host = { 5 };
    Value v0 = mk(x, d0, s0), v1 = mk(y, d1, s1);
    ran = 0; seenThis = nullptr;
    int cap = 7, res = 0;
    Function f = make(a, b, c, cap);
    bool mem = c == Member || c == ConstMember;
    Overloads ov;
    if (entry == 1) { ov.add(std::move(f)); }
    bool err = vt::errs([&] {
        if (entry == 0) res = mem ? f.call<int>(host, v0, v1) : f.call<int>(v0, v1);
        else if (entry == 1) res = mem ? ov.call<int>(host, v0, v1) : ov.call<int>(v0, v1);
        else {
            Value hv(host);
            res = f.call<int>(hv, v0, v1);
        }
    });
    vx::step();
    VX_CHECK(!err, "call-failed", "%s: reported an error", what.c_str());
    VX_CHECK(ran == 1, "body-run", "%s: body ran %d times", what.c_str(), ran);
    if (mem) VX_CHECK(seenThis == &host, "this", "%s: called on another object", what.c_str());
    judge(0, a, s0, &x.obj(d0), 11, x.obj(d0).v, what.c_str());
    judge(1, b, s1, &y.obj(d1), 22, y.obj(d1).v, what.c_str());
    VX_CHECK(res == 11 * 1000 + 22 + (mem || c == Free ? 0 : cap), "result", "%s: result %d", what.c_str(), res);
    VX_CHECK(host.id == 5 && x.obj((d0 + 1) % 3).v == 11 && x.obj((d0 + 2) % 3).v == 11 && y.obj((d1 + 1) % 3).v == 22 && y.obj((d1 + 2) % 3).v == 22, "bystander", "%s: an unrelated object changed", what.c_str());
}

// the same object passed for several parameters
VX_SUITE_D(aliased, 2)
{
    int a = vx::choose(3, "par0"), b = vx::choose(3, "par1");       // copy, ref, const ref
    Src x(11); Value v = mk(x, false, kL);
    Function f = make(a, b, Free, 0);
    ran = 0;
    // a by-value parameter is copied before the body runs, so neither sees the other's change
    f.call<int>(v, v);
    vx::step();
    const char* what = "same object twice";
    bool alias0 = a != kCopy, alias1 = b != kCopy;
    VX_CHECK((seen[0].addr == &x.p) == alias0 && (seen[1].addr == &x.p) == alias1, "argument-identity", "%s", what);
    VX_CHECK(seen[0].v == 11, "argument-value", "%s: first parameter saw %d", what, seen[0].v);
    int w1 = alias1 && a == kL ? 111 : 11;
    VX_CHECK(seen[1].v == w1, "argument-value", "%s: second parameter saw %d, expected %d", what, seen[1].v, w1);
    VX_CHECK(x.p.v == 11 + 100 * ((a == kL) + (b == kL)), "argument-effect", "%s: object is %d", what, x.p.v);
}

// order and independence of many arguments, each by value or reference
namespace {
std::vector<int> order; std::vector<const void*> addrs;
template<typename... X> struct Many;
template<typename X> void rec1(X& x) { order.push_back(x); addrs.push_back(&x); x += 100; }
template<typename X> void rec1(const X& x) { order.push_back(x); addrs.push_back(&x); }
int m0() { ran++; return 0; }
int m1(int a) { ran++; rec1(a); return 1; }
int m2(int a, int& b) { ran++; rec1(a); rec1(b); return 2; }
int m3(int& a, int b, const int& c) { ran++; rec1(a); rec1(b); rec1(c); return 3; }
int m4(int a, int& b, int c, int& d) { ran++; rec1(a); rec1(b); rec1(c); rec1(d); return 4; }
int m5(const int& a, int b, int& c, int d, int& e) { ran++; rec1(a); rec1(b); rec1(c); rec1(d); rec1(e); return 5; }
int m6(int& a, int& b, int c, const int& d, int e, int& f) { ran++; rec1(a); rec1(b); rec1(c); rec1(d); rec1(e); rec1(f); return 6; }
const char* kindsOf[] = { "", "v", "vr", "rvc", "vrvr", "cvrvr", "rrvcvr" };
}
VX_SUITE_D(many, 2)
{
    int n = vx::choose(7, "arity");
    int viaValue = vx::choose(2, "via-value");
    int entry = vx::choose(3, "entry");
    int xs[6]; for (int i = 0; i < 6; ++i) xs[i] = i + 1;
    Function fs[] = { {"m", &m0}, {"m", &m1}, {"m", &m2}, {"m", &m3}, {"m", &m4}, {"m", &m5}, {"m", &m6} };
    std::vector<Value> v; for (int i = 0; i < 6; ++i) v.emplace_back(xs[i]);
    order.clear(); addrs.clear(); ran = 0;
    std::string id = vx::fmt("vt::many%llu", (unsigned long long) vx::executionId());
    Type ty(id); Scope sc("many");
    const Function& f = fs[n];
    int r = -1;
#define CALLS(C, ...) \
    if (viaValue) switch (n) { \
        case 0: r = C<int>(__VA_ARGS__); break; \
        case 1: r = C<int>(__VA_ARGS__ COMMA v[0]); break; \
        case 2: r = C<int>(__VA_ARGS__ COMMA v[0], v[1]); break; \
        case 3: r = C<int>(__VA_ARGS__ COMMA v[0], v[1], v[2]); break; \
        case 4: r = C<int>(__VA_ARGS__ COMMA v[0], v[1], v[2], v[3]); break; \
        case 5: r = C<int>(__VA_ARGS__ COMMA v[0], v[1], v[2], v[3], v[4]); break; \
        default: r = C<int>(__VA_ARGS__ COMMA v[0], v[1], v[2], v[3], v[4], v[5]); break; } \
    else switch (n) { \
        case 0: r = C<int>(__VA_ARGS__); break; \
        case 1: r = C<int>(__VA_ARGS__ COMMA xs[0]); break; \
        case 2: r = C<int>(__VA_ARGS__ COMMA xs[0], xs[1]); break; \
        case 3: r = C<int>(__VA_ARGS__ COMMA xs[0], xs[1], xs[2]); break; \
        case 4: r = C<int>(__VA_ARGS__ COMMA xs[0], xs[1], xs[2], xs[3]); break; \
        case 5: r = C<int>(__VA_ARGS__ COMMA xs[0], xs[1], xs[2], xs[3], xs[4]); break; \
        default: r = C<int>(__VA_ARGS__ COMMA xs[0], xs[1], xs[2], xs[3], xs[4], xs[5]); break; }
    if (entry == 0) {
#define COMMA
        CALLS(f.call)
#undef COMMA
    }
    else {
#define COMMA ,
        std::string name = "f";
        if (entry == 1) { ty.addFunction(name, std::move(fs[n])); CALLS(ty.call, name) }
        else { sc.addFunction("in::f", std::move(fs[n])); name = "in::f"; CALLS(sc.call, name) }
#undef COMMA
    }
    vx::step();
    std::string what = vx::fmt("%d arguments%s entry %d", n, viaValue ? " as Values" : "", entry);
    vx::state(vx::hashStr(what));
    VX_CHECK(ran == 1 && r == n, "body-run", "%s: ran %d times, returned %d", what.c_str(), ran, r);
    VX_CHECK((int) order.size() == n, "argument-order", "%s", what.c_str());
    for (int i = 0; i < n; ++i) {
        VX_CHECK(order[i] == i + 1, "argument-order", "%s: parameter %d saw %d", what.c_str(), i, order[i]);
        char k = kindsOf[n][i];
        VX_CHECK((addrs[i] == &xs[i]) == (k != 'v'), "argument-identity", "%s: parameter %d", what.c_str(), i);
        VX_CHECK(xs[i] == i + 1 + (k == 'r' ? 100 : 0), "argument-effect", "%s: argument %d is now %d", what.c_str(), i, xs[i]);
    }
}

// results: identity, value and independence
namespace {
HP gobj(33);
HP rCopy() { return gobj; } HP& rRef() { return gobj; } const HP& rCRef() { return gobj; }
HP& rArg(HP& a, HP&) { return a; } HP& rArg2(HP&, HP& b) { return b; } const HP& rArgC(const HP& a) { return a; }
HC gchild(44); HC& rChild() { return gchild; } HC rChildCopy() { return gchild; }
HP* rPtr() { return &gobj; }
}
VX_SUITE_D(results, 1)
{
    int c = vx::choose(14, "case");
    gobj.v = 33; gchild.v = 44; HP a(1), b(2); Value va(a), vb(b);
    vx::step(); vx::state(c);
    switch (c) {
    case 0: { Function f("f", &rRef); HP& r = f.call<HP&>(); VX_CHECK(&r == &gobj, "result-identity", "reference result"); break; }
    case 1: { Function f("f", &rCRef); const HP& r = f.call<const HP&>(); VX_CHECK(&r == &gobj, "result-identity", "const reference result"); break; }
    case 2: { Function f("f", &rRef); const HP& r = f.call<const HP&>(); VX_CHECK(&r == &gobj, "result-identity", "reference as const reference"); break; }
    case 3: { Function f("f", &rRef); HP r = f.call<HP>(); r.v = 9; VX_CHECK(gobj.v == 33, "result-independence", "copy of a reference result"); break; }
    case 4: { Function f("f", &rCopy); HP r = f.call<HP>(); VX_CHECK(r.v == 33 && &r != &gobj, "result", "value result %d", r.v); r.v = 1; VX_CHECK(gobj.v == 33, "result-independence", "value result"); break; }
    case 5: { Function f("f", &rCopy); Value r = f.call<Value>(); VX_CHECK(r.isStored() && r.get<HP>().v == 33 && r.value() != &gobj, "result", "value result as Value"); break; }
    case 6: { Function f("f", &rRef); Value r = f.call<Value>(); VX_CHECK(!r.isStored() && !r.isConst() && r.value() == &gobj, "result-identity", "reference result as Value"); r.as<HP>().v = 8; VX_CHECK(gobj.v == 8, "result-identity", "write through result"); break; }
    case 7: { Function f("f", &rCRef); Value r = f.call<Value>(); VX_CHECK(!r.isStored() && r.isConst() && r.value() == &gobj, "result-identity", "const reference result as Value"); break; }
    case 8: { Function f("f", &rArg); HP& r = f.call<HP&>(va, vb); VX_CHECK(&r == &a, "result-identity", "first argument returned"); break; }
    case 9: { Function f("f", &rArg2); HP& r = f.call<HP&>(a, b); VX_CHECK(&r == &b, "result-identity", "second argument returned"); break; }
    case 10: { Function f("f", &rArgC); const HP& r = f.call<const HP&>(va); VX_CHECK(&r == &a, "result-identity", "const argument returned"); break; }
    case 11: { Function f("f", &rChild); HP& r = f.call<HP&>(); VX_CHECK(&r == &gchild && r.v == 44, "result-identity", "derived result as base reference"); HP s = f.call<HP>(); VX_CHECK(s.v == 44, "result", "derived result sliced"); break; }
    case 12: { Function f("f", &rChildCopy); HP r = f.call<HP>(); VX_CHECK(r.v == 44, "result", "derived value result as base"); break; }
    default: { Function f("f", &rPtr); HP* r = f.call<HP*>(); VX_CHECK(r == &gobj, "result", "pointer result"); break; }
    }
    VX_CHECK(a.v == 1 && b.v == 2 && gchild.v == 44, "bystander", "case %d changed an unrelated object", c);
}
