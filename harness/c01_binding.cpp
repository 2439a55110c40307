/* C01: which calls a reflected signature accepts.
 * The full matrix type-relation x argument kind x parameter kind x position x
 * arity x requested/declared result, on real functions; oracle in hier.h. */
#define HIER_IMPL
#include "hier.h"
#include <array>
using namespace reflect;
using namespace h;

namespace {

int ranCount = 0;       // bodies run

const Type* T(int t)
{
    switch (t) { case tA: return type<HA>(); case tP: return type<HP>(); case tC: return type<HC>();
        case tG: return type<HG>(); case tV: return type<HV>(); case tW: return type<HW>(); default: return type<HX>(); }
}
Argument A(int t, int k)
{
    RefType r = k == kCopy ? RefType::Copy : (k == kL || k == kCL) ? RefType::LValue : RefType::RValue;
    return Argument(T(t), r, k == kCL || k == kCR);
}
Bind fromMatch(Match m) { return m == Match::None ? None : m == Match::Partial ? Partial : Exact; }
const char* bindName(Bind b) { return b == None ? "None" : b == Partial ? "Partial" : "Exact"; }

// ---- parameter side: real functions, one per (type, kind) ------------------
template<typename X, int K> struct Par;
template<typename X> struct Par<X, kCopy> { typedef X t; };
template<typename X> struct Par<X, kL> { typedef X& t; };
template<typename X> struct Par<X, kCL> { typedef const X& t; };
template<typename X> struct Par<X, kR> { typedef X&& t; };
template<typename X> struct Par<X, kCR> { typedef const X&& t; };
template<int I> struct Ty;
template<> struct Ty<tA> { typedef HA t; }; template<> struct Ty<tP> { typedef HP t; };
template<> struct Ty<tC> { typedef HC t; }; template<> struct Ty<tG> { typedef HG t; };
template<> struct Ty<tV> { typedef HV t; }; template<> struct Ty<tW> { typedef HW t; }; template<> struct Ty<tX> { typedef HX t; };

template<typename Arg> struct Fn1 { static void f(Arg) { ranCount++; } };
template<typename Arg> struct Fn2a { static void f(Arg, int) { ranCount++; } };
template<typename Arg> struct Fn2b { static void f(int, Arg) { ranCount++; } };
template<typename Arg> struct Fn4 { static void f(int, int, Arg, int) { ranCount++; } };

typedef std::array<std::unique_ptr<Function>, NTypes * NKinds> Table;
template<template<typename> class F, int I> struct Fill
{
    static void go(Table& t)
    {
        t[I].reset(new Function("f", &F<typename Par<typename Ty<I / NKinds>::t, I % NKinds>::t>::f));
        Fill<F, I - 1>::go(t);
    }
};
template<template<typename> class F> struct Fill<F, -1> { static void go(Table&) {} };
template<template<typename> class F> Table& table()
{
    static Table* t = nullptr;
    if (!t) { t = new Table; Fill<F, NTypes * NKinds - 1>::go(*t); }
    return *t;
}

// ---- argument side ---------------------------------------------------------
struct Objs { HA a; HP p; HC c; HG g; HV v; HW w; HX x; Objs() : a(1), p(2), c(3), g(4), v(5), w(6), x(7) {} };

// a Value of type t with the given kind (kL, kCL, kR, kCR), borrowed
Value valueOf(Objs& o, int t, int k)
{
    Value v;
    switch (t) {
    case tA: v = Value(o.a); break; case tP: v = Value(o.p); break; case tC: v = Value(o.c); break;
    case tG: v = Value(o.g); break; case tV: v = Value(o.v); break; case tW: v = Value(o.w); break; default: v = Value(o.x); break; }
    switch (k) {
    case kL: return v;
    case kR: return v.rvalue();
    case kCR: return v.toConst();
    default: {
        const Objs& c = o;
        switch (t) { case tA: return Value(c.a); case tP: return Value(c.p); case tC: return Value(c.c);
            case tG: return Value(c.g); case tV: return Value(c.v); case tW: return Value(c.w); default: return Value(c.x); } }
    }
}

// calls go(arg) with a raw C++ argument of the given kind
template<typename X, typename Go>
bool rawKind(X& x, int k, Go& go)
{
    switch (k) {
    case kL: return go(x);
    case kCL: return go((const X&) x);
    case kR: return go(std::move(x));
    case kCR: return go(std::move((const X&) x));
    default: return go(X(x));       // prvalue
    }
}
template<typename Go>
bool rawArg(Objs& o, int t, int k, Go go)
{
    switch (t) {
    case tA: return rawKind(o.a, k, go); case tP: return rawKind(o.p, k, go); case tC: return rawKind(o.c, k, go);
    case tG: return rawKind(o.g, k, go); case tV: return rawKind(o.v, k, go); case tW: return rawKind(o.w, k, go); default: return rawKind(o.x, k, go); }
}
bool intact(const Objs& o) { return o.a.v == 1 && o.p.v == 2 && o.c.v == 3 && o.g.v == 4 && o.v.v == 5 && o.w.v == 6 && o.x.v == 7; }

struct CallVoid
{
    const Function& f; Match& test;
    template<typename X> bool operator()(X&& x)
    {
        test = f.testParams<void>(std::forward<X>(x));
        return !vt::errs([&] { f.call<void>(std::forward<X>(x)); });
    }
};

void judge(bool ok, bool want, const char* what)
{
    VX_CHECK(ok == want, want ? "refused" : "accepted", "%s: call %s, expected it to %s", what,
            ok ? "succeeded" : "reported an error", want ? "succeed" : "be refused");
    VX_CHECK(ranCount == (want ? 1 : 0), "body-run", "%s: body ran %d times", what, ranCount);
    vx::outcome(want ? "accepted" : "refused");
}

} // namespace

// Argument-level matrix, including exactness.
VX_SUITE_D(matrix, 2)
{
    int f = vx::choose(NTypes, "arg-type"), fk = vx::choose(NKinds, "arg-kind");
    int t = vx::choose(NTypes, "par-type"), tk = vx::choose(NKinds, "par-kind");
    Bind want = binds(f, fk, t, tk);
    Bind got = fromMatch(A(f, fk).isConvertibleTo(A(t, tk)));
    vx::step();
    vx::state(vx::hashStr(vx::fmt("m%d.%d.%d.%d", f, fk, t, tk)));
    VX_NOTE("%s %s -> %s %s: %s", typeName(f), kindName(fk), typeName(t), kindName(tk), bindName(got));
    VX_CHECK(got == want, "match", "%s as %s to parameter %s as %s: %s, expected %s",
            typeName(f), kindName(fk), typeName(t), kindName(tk), bindName(got), bindName(want));
    // Value on exactly one side is a wildcard
    Argument val = vx::flip("vref") ? Argument(type<Value>(), RefType::LValue, false) : Argument(type<Value>(), RefType::Copy, false);
    VX_CHECK(A(f, fk).isConvertibleTo(val) == Match::Exact, "wildcard", "%s not accepted by a Value", typeName(f));
    VX_CHECK(val.isConvertibleTo(A(t, tk)) == Match::Exact, "wildcard", "Value not accepted by %s", typeName(t));
    vx::outcome(bindName(want));
}

// combine() is the minimum, commutative; enough to fold any number of arguments
VX_SUITE_D(combine, 1)
{
    Match ms[] = { Match::None, Match::Partial, Match::Exact };
    int a = vx::choose(3), b = vx::choose(3);
    VX_CHECK(combine(ms[a], ms[b]) == ms[std::min(a, b)], "combine", "combine(%d,%d)", a, b);
    vx::step();
}

// Signatures: Function::test over argument vectors.
VX_SUITE_D(signature, 3)
{
    static const int types[] = { tA, tP, tC, tV, tX, tG, tW };
    int nt = vx::pick(5, 7);
    int t = types[vx::choose(nt, "par-type")], tk = vx::choose(NKinds, "par-kind");
    int shape = vx::choose(4, "shape");
    const Function& f = shape == 0 ? *table<Fn1>()[t * NKinds + tk] : shape == 1 ? *table<Fn2a>()[t * NKinds + tk]
        : shape == 2 ? *table<Fn2b>()[t * NKinds + tk] : *table<Fn4>()[t * NKinds + tk];
    int where = shape == 0 ? 0 : shape == 1 ? 0 : shape == 2 ? 1 : 2;
    size_t arity = shape == 0 ? 1 : shape == 3 ? 4 : 2;
    int given = vx::choose(6, "given-arity");
    int s = types[vx::choose(nt, "arg-type")], sk = vx::choose(NKinds, "arg-kind");
    int others = vx::choose(3, "others");       // the other arguments: int, double (unrelated), HP
    std::vector<Argument> args;
    Bind want = given == (int) arity ? binds(s, sk, t, tk) : None;
    for (int i = 0; i < given; ++i) {
        if (i == where) args.push_back(A(s, sk));
        else {
            args.push_back(others == 0 ? Argument::make<int>() : others == 1 ? Argument::make<double>() : A(tP, kCopy));
            if (others) want = None;
        }
    }
    bool voidRet = vx::flip("ret");
    Argument ret = voidRet ? Argument::make<void>() : Argument::make<Value>();
    Bind got = fromMatch(f.test(ret, args));
    vx::step();
    VX_CHECK(got == want, "signature", "signature with %d arguments, argument %d %s as %s for parameter %s as %s: %s, expected %s",
            given, where, typeName(s), kindName(sk), typeName(t), kindName(tk), bindName(got), bindName(want));
    VX_CHECK(f.arguments() == arity, "arity", "arguments() = %zu", f.arguments());
    VX_CHECK(f.argument(where) == A(t, tk), "reflected-argument", "argument %d reflected as %s", where, f.argument(where).print().c_str());
    // a non-void result cannot come from a void function
    VX_CHECK(f.test(Argument::make<int>(), args) == Match::None, "signature", "int result from a void function");
}

// Real calls, one argument at each position, raw C++ arguments and Values.
VX_SUITE_D(call1, 3)
{
    int t = vx::choose(NTypes, "par-type"), tk = vx::choose(NKinds, "par-kind");
    int s = vx::choose(NTypes, "arg-type"), sk = vx::choose(NKinds, "arg-kind");
    int mode = vx::choose(5, "mode");
    Objs o; ranCount = 0;
    bool ok; Match m = Match::None;
    int ek = sk == kCopy ? kR : sk;             // a prvalue binds like an rvalue
    bool want = binds(s, ek, t, tk) != None;
    std::string what = vx::fmt("mode %d, %s as %s for parameter %s as %s", mode, typeName(s), kindName(sk), typeName(t), kindName(tk));
    vx::state(vx::hashStr(what));
    if (mode == 0) {                            // raw argument
        const Function& f = *table<Fn1>()[t * NKinds + tk];
        CallVoid c = { f, m };
        ok = rawArg(o, s, sk, c);
        VX_CHECK((m != Match::None) == want, "query", "%s: query says %d", what.c_str(), (int) m);
    }
    else {
        vx::assume(sk != kCopy);
        Value v = valueOf(o, s, sk);
        switch (mode) {
        case 1: { const Function& f = *table<Fn1>()[t * NKinds + tk];
            m = f.testParams<void>(v);
            ok = !vt::errs([&] { f.call<void>(v); });
            VX_CHECK((m != Match::None) == want, "query", "%s: query says %d", what.c_str(), (int) m);
            break; }
        case 2: { const Function& f = *table<Fn2a>()[t * NKinds + tk]; ok = !vt::errs([&] { f.call<void>(v, 7); }); break; }
        case 3: { const Function& f = *table<Fn2b>()[t * NKinds + tk]; ok = !vt::errs([&] { f.call<void>(7, v); }); break; }
        default: { const Function& f = *table<Fn4>()[t * NKinds + tk]; ok = !vt::errs([&] { f.call<void>(7, 8, v, 9); }); break; }
        }
        VX_CHECK(intact(o) || (sk == kR && want && (tk == kCopy || tk == kR || tk == kCR)), "modified",
                "%s: an argument that was not handed over was modified", what.c_str());
        if (!want) VX_CHECK(intact(o), "modified", "%s: a refused call modified its argument", what.c_str());
        if (sk == kCR || sk == kCL) VX_CHECK(intact(o), "const-argument-modified", "%s: a const argument was modified", what.c_str());
    }
    vx::step();
    VX_NOTE("%s: %s", what.c_str(), ok ? "ran" : "refused");
    judge(ok, want, what.c_str());
}

// Arity: every declared count against every given count.
namespace {
void n0() { ranCount++; } void n1(int) { ranCount++; } void n2(int, int) { ranCount++; }
void n3(int, int, int) { ranCount++; } void n4(int, int, int, int) { ranCount++; } void n5(int, int, int, int, int) { ranCount++; }
void n6(int, int, int, int, int, int) { ranCount++; }
}
VX_SUITE_D(arity, 2)
{
    Function fs[] = { {"n0", &n0}, {"n1", &n1}, {"n2", &n2}, {"n3", &n3}, {"n4", &n4}, {"n5", &n5}, {"n6", &n6} };
    int d = vx::choose(7, "declared"), g = vx::choose(7, "given");
    int bad = vx::choose(g + 1, "bad");         // position of an unrelated argument, g = none
    const Function& f = fs[d];
    ranCount = 0;
    HA a; Value x(a); int i = 5; Value y(i);
    auto v = [&] (int k) -> Value& { return k == bad ? x : y; };
    bool ok = !vt::errs([&] {
        switch (g) {
        case 0: f.call<void>(); break;
        case 1: f.call<void>(v(0)); break;
        case 2: f.call<void>(v(0), v(1)); break;
        case 3: f.call<void>(v(0), v(1), v(2)); break;
        case 4: f.call<void>(v(0), v(1), v(2), v(3)); break;
        case 5: f.call<void>(v(0), v(1), v(2), v(3), v(4)); break;
        default: f.call<void>(v(0), v(1), v(2), v(3), v(4), v(5)); break;
        }
    });
    vx::step();
    judge(ok, d == g && bad == g, vx::fmt("declared %d, given %d, bad position %d", d, g, bad).c_str());
}

// Results: declared x requested.
namespace {
template<typename X> struct Ret
{
    static X obj;
    static X copy() { ranCount++; return obj; }
    static X& lref() { ranCount++; return obj; }
    static const X& clref() { ranCount++; return obj; }
    static X&& rref() { ranCount++; return std::move(obj); }
};
template<typename X> X Ret<X>::obj(11);
void retVoid() { ranCount++; }

template<typename X>
Function retFn(int k)
{
    switch (k) {
    case kCopy: return Function("r", &Ret<X>::copy);
    case kL: return Function("r", &Ret<X>::lref);
    case kCL: return Function("r", &Ret<X>::clref);
    default: return Function("r", &Ret<X>::rref);
    }
}
int gotValue;
template<typename X> bool reqAs(const Function& f, int k, Match& m)
{
    return !vt::errs([&] {
        switch (k) {
        case kCopy: m = f.testParams<X>(); { X x = f.call<X>(); gotValue = x.v; } break;
        case kL: m = f.testParams<X&>(); { X& x = f.call<X&>(); gotValue = x.v; } break;
        default: m = f.testParams<const X&>(); { const X& x = f.call<const X&>(); gotValue = x.v; } break;
        }
    });
}
}
VX_SUITE_D(results, 3)
{
    int d = vx::choose(NTypes + 1, "declared-type");        // last: void
    int dk = d == NTypes ? 0 : vx::choose(4, "declared-kind");
    int r = vx::choose(NTypes + 2, "requested-type");       // then void, Value
    int rk = r >= NTypes ? 0 : vx::choose(3, "requested-kind");
    Ret<HA>::obj.v = Ret<HP>::obj.v = Ret<HC>::obj.v = Ret<HG>::obj.v = Ret<HV>::obj.v = Ret<HW>::obj.v = Ret<HX>::obj.v = 11;
    ranCount = 0; gotValue = 11;
    Function f = d == tA ? retFn<HA>(dk) : d == tP ? retFn<HP>(dk) : d == tC ? retFn<HC>(dk) : d == tG ? retFn<HG>(dk)
        : d == tV ? retFn<HV>(dk) : d == tW ? retFn<HW>(dk) : d == tX ? retFn<HX>(dk) : Function("v", &retVoid);
    bool ok, want; int expect = 11; Match m = Match::None;
    if (r == NTypes) { m = f.testParams<void>(); ok = !vt::errs([&] { f.call<void>(); }); want = true; }
    else if (r == NTypes + 1) {
        want = true; m = f.testParams<Value>();
        ok = !vt::errs([&] {
            Value v = f.call<Value>();
            if (d == NTypes) VX_CHECK(v.isVoid(), "result", "void result is not void");
            else { VX_CHECK(v.type() == T(d), "result", "result has type %s", v.typeId().c_str()); gotValue = ((Base0*) v.value())->v; }
        });
    }
    else {
        switch (r) {
        case tA: ok = reqAs<HA>(f, rk, m); break; case tP: ok = reqAs<HP>(f, rk, m); break; case tC: ok = reqAs<HC>(f, rk, m); break;
        case tG: ok = reqAs<HG>(f, rk, m); break; case tV: ok = reqAs<HV>(f, rk, m); break; case tW: ok = reqAs<HW>(f, rk, m); break; default: ok = reqAs<HX>(f, rk, m); break; }
        if (d == NTypes) want = false;
        else {
            want = binds(d, dk, r, rk) != None;
            // a temporary result cannot be bound to a reference to const: nobody would keep it alive
            if ((dk == kCopy || dk == kR) && rk == kCL) want = false;
            if (converts(d, r)) expect = 1011;
        }
    }
    vx::step();
    std::string what = vx::fmt("declared %s as %s, requested %d as %s", d < NTypes ? typeName(d) : "void", kindName(dk), r, kindName(rk));
    vx::state(vx::hashStr(what));
    VX_NOTE("%s: %s", what.c_str(), ok ? "ran" : "refused");
    judge(ok, want, what.c_str());
    VX_CHECK((m != Match::None) == want, "query", "%s: query says %d", what.c_str(), (int) m);
    if (want) VX_CHECK(gotValue == expect, "result", "%s: got %d expected %d", what.c_str(), gotValue, expect);
}


// A parameter of type Value, however it is passed, accepts anything and sees the argument itself.
namespace {
const void* seen; bool seenConst; int seenV; const Type* seenT;
void note(const Value& v) { ranCount++; seen = v.value(); seenConst = v.isConst(); seenT = v.type(); seenV = v.isVoid() ? 0 : ((Base0*) v.value())->v; }
void takeV(Value v) { note(v); }
void takeCV(const Value& v) { note(v); }
void takeLV(Value& v) { note(v); }
void takeRV(Value&& v) { note(v); }
void takeV2(int, Value v) { note(v); }
void takeCV2(int, const Value& v) { note(v); }
}
VX_SUITE_D(untyped, 2)
{
    int p = vx::choose(6, "parameter");
    int s = vx::choose(NTypes, "arg-type"), sk = vx::choose(NKinds, "arg-kind");
    bool raw = vx::flip("raw");
    vx::assume(raw || sk != kCopy);
    Function f = p == 0 ? Function("f", &takeV) : p == 1 ? Function("f", &takeCV) : p == 2 ? Function("f", &takeLV)
        : p == 3 ? Function("f", &takeRV) : p == 4 ? Function("f", &takeV2) : Function("f", &takeCV2);
    Objs o; ranCount = 0; seen = nullptr;
    bool ok; Match m = Match::None;
    std::string what = vx::fmt("%s as %s%s to untyped parameter %d", typeName(s), kindName(sk), raw ? " (raw)" : "", p);
    Value v = raw ? Value() : valueOf(o, s, sk);
    if (p >= 4) { vx::assume(!raw); ok = !vt::errs([&] { f.call<void>(1, v); }); }
    else if (raw) { CallVoid c = { f, m }; ok = rawArg(o, s, sk, c); }
    else ok = !vt::errs([&] { f.call<void>(v); });
    vx::step();
    vx::state(vx::hashStr(what));
    judge(ok, true, what.c_str());
    VX_CHECK(seenT == T(s) && seenV == s + 1, "untyped-content", "%s: callee saw %d", what.c_str(), seenV);
    if (!raw) VX_CHECK(seen == v.value() && seenConst == v.isConst(), "untyped-content", "%s: callee saw another object or constness", what.c_str());
}

// ---- types that can't be copied --------------------------------------------
struct MoveOnly
{
    int v; MoveOnly(int v = 0) : v(v) {}
    MoveOnly(const MoveOnly&) = delete; MoveOnly& operator=(const MoveOnly&) = delete;
    MoveOnly(MoveOnly&& o) : v(o.v) { o.v = vt::Moved; } MoveOnly& operator=(MoveOnly&& o) { v = o.v; return *this; }
};
reflectType(MoveOnly) { reflectPlumbing(); }
VX_SUITE_D(noncopiable, 2)
{
    int p = vx::choose(4, "parameter"), k = vx::choose(4, "arg-kind");
    bool raw = vx::flip("raw");
    ranCount = 0;
    MoveOnly m(7); const MoveOnly& cm = m;
    Function f = p == 0 ? Function("f", [] (MoveOnly) { ranCount++; }) : p == 1 ? Function("f", [] (MoveOnly&) { ranCount++; })
        : p == 2 ? Function("f", [] (const MoveOnly&) { ranCount++; }) : Function("f", [] (MoveOnly&&) { ranCount++; });
    static const char* pn[] = { "T", "T&", "const T&", "T&&" }; static const char* kn[] = { "T&", "const T&", "T&&", "const T&&" };
    std::string what = vx::fmt("move-only %s argument (%s) to parameter %s", kn[k], raw ? "raw" : "value", pn[p]);
    static const bool can[4][4] = { {0, 0, 1, 0}, {1, 0, 0, 0}, {1, 1, 1, 1}, {0, 0, 1, 0} };
    Match t = Match::None; bool ok;
    if (raw && k < 3) { CallVoid c = { f, t }; ok = k == 0 ? c(m) : k == 1 ? c(cm) : c(std::move(m)); }
    else {
        Value v = k == 0 ? Value(m) : k == 1 ? Value(cm) : k == 2 ? Value(m).rvalue() : Value(m).toConst();
        CallVoid c = { f, t }; ok = c(v);
    }
    vx::step(); vx::state(vx::hashStr(what));
    VX_CHECK(ok == (ranCount == 1), ok ? "not-run" : "ran-and-failed", "%s: ok=%d, body ran %d times", what.c_str(), ok, ranCount);
    VX_CHECK(!ok || can[p][k], "accepted", "%s: call succeeds", what.c_str());
    if (ok != (t != Match::None)) vx::fail(p == 0 ? "noncopiable-by-value" : "query-disagrees",
            "%s: query says %s but the call %s", what.c_str(), bindName(fromMatch(t)), ok ? "succeeds" : "fails");
    if (p) VX_CHECK(ok == can[p][k], "refused", "%s: call fails", what.c_str());
    vx::outcome(ok ? "called" : "refused");
}
