#pragma once
/* C35: a reflected function says of itself exactly what its C++ declaration says.
 * Every kind of parameter and result, in every position of every arity, for
 * every kind of callable; the whole table is enumerated. */
#include "vt.h"
#include "types/std/vector.h"
#include <cstring>
using namespace reflect;

namespace k35 {
struct Obj { int a; };
struct Sub : Obj { };
enum class Unused {};
}
reflectTypeDecl(k35::Obj)
reflectTypeDecl(k35::Sub)

namespace {
using k35::Obj; using k35::Sub;

struct Exp
{
    std::string id; RefType ref; bool isConst;
    std::string text() const { return id + (isConst ? " const" : "") + (ref == RefType::LValue ? "&" : ref == RefType::RValue ? "&&" : ""); }
};

/* The table of kinds: the C++ spelling beside what it means. */
#define ONE(X, T, id) X(T, id, Copy, false) X(T&, id, LValue, false) X(const T&, id, LValue, true) X(T&&, id, RValue, false) X(const T&&, id, RValue, true)
#define KINDS(X) ONE(X, int, "int") ONE(X, Obj, "k35::Obj") \
    X(Sub, "k35::Sub", Copy, false) X(const Sub&, "k35::Sub", LValue, true) \
    X(Obj*, "k35::Obj*", Copy, false) X(const Obj*, "k35::Obj*", Copy, false) X(Obj*&, "k35::Obj*", LValue, false) X(Obj* const&, "k35::Obj*", LValue, true) X(const Obj* const&, "k35::Obj*", LValue, true) X(Obj*&&, "k35::Obj*", RValue, false) \
    X(Value, "reflect::Value", Copy, false) X(Value&, "reflect::Value", LValue, false) X(const Value&, "reflect::Value", LValue, true) X(Value&&, "reflect::Value", RValue, false) \
    X(std::string, "std::string", Copy, false) X(const std::string&, "std::string", LValue, true) \
    X(std::vector<Obj>&, "std::vector<k35::Obj>", LValue, false) X(bool, "bool", Copy, false) X(double&, "double", LValue, false) X(unsigned long int, "unsigned long int", Copy, false)

template<int N> struct K { enum { end = 1 }; };
enum { Base = __COUNTER__ + 1 };
template<typename T> struct ExpOf;
#define X(T, id, ref, c) template<> struct K<__COUNTER__ - Base> { typedef T type; enum { end = 0 }; }; template<> struct ExpOf<T> { static Exp get() { return Exp{id, RefType::ref, c}; } };
KINDS(X)
#undef X
enum { Kinds = __COUNTER__ - Base };
template<> struct ExpOf<void> { static Exp get() { return Exp{"void", RefType::Copy, false}; } };
template<> struct ExpOf<const Obj> { static Exp get() { return Exp{"k35::Obj", RefType::Copy, true}; } };

/* The callables; none is ever called. */
[[noreturn]] void never() { vx::fail("called", "describing a function ran it"); }
template<typename R, typename... A> R freeFn(A...) { never(); }
template<typename R, typename... A> struct Fun { R operator()(A...) const { never(); } };
template<typename R, typename... A> struct Mut { int state; R operator()(A...) { never(); } };
}
namespace k35 { struct M { template<typename R, typename... A> R mem(A...) { never(); } template<typename R, typename... A> R cmem(A...) const { never(); } }; }
reflectTypeDecl(k35::M)
namespace {
using k35::M;
template<> struct ExpOf<M&> { static Exp get() { return Exp{"k35::M", RefType::LValue, false}; } };
template<> struct ExpOf<const M&> { static Exp get() { return Exp{"k35::M", RefType::LValue, true}; } };

void same(const Argument& a, const Exp& e, const Type* t, const char* what, const std::string& sig)
{
    VX_CHECK(a.type() == t && a.type()->id() == e.id, "type", "%s of <%s> is a <%s>", what, sig.c_str(), a.print().c_str());
    VX_CHECK(a.refType() == e.ref && a.isConst() == e.isConst, "kind", "%s of <%s> is a <%s>", what, sig.c_str(), a.print().c_str());
    VX_CHECK(a.print() == e.text(), "text", "%s of <%s> is printed as <%s>", what, sig.c_str(), a.print().c_str());
    VX_CHECK(a.isConstRef() == (e.isConst && e.ref == RefType::LValue) && a.isLValueRef() == (!e.isConst && e.ref == RefType::LValue) && a.isTemporary() == (e.ref != RefType::LValue) && a.isVoid() == (e.id == "void"), "query", "%s of <%s>: a query is wrong", what, sig.c_str());
}
template<typename R, typename... A> void described(Function f, const std::string& name)
{
    std::vector<Exp> want = { ExpOf<A>::get()... }; std::vector<const Type*> types = { type<A>()... }; Exp ret = ExpOf<R>::get();
    std::string sig = ret.text() + "("; for (size_t i = 0; i < want.size(); ++i) sig += (i ? ", " : "") + want[i].text(); sig += ")";
    VX_NOTE("%s", sig.c_str()); vx::step(); vx::state(vx::hashStr(sig, vx::hashStr(name)));
    VX_CHECK(f.name() == name, "name", "<%s> is named <%s>", name.c_str(), f.name().c_str());
    VX_CHECK(f.arguments() == want.size(), "arity", "<%s> takes %zu arguments", sig.c_str(), f.arguments());
    for (size_t i = 0; i < want.size(); ++i) same(f.argument(i), want[i], types[i], vx::fmt("argument %zu", i).c_str(), sig);
    same(f.returnType(), ret, type<R>(), "the result", sig);
    VX_CHECK(signature(f) == sig && signature(f) == (signature<R(A...)>()), "signature", "<%s> is described as <%s> and <%s>", sig.c_str(), signature(f).c_str(), (signature<R(A...)>().c_str()));
    VX_CHECK((f.test<R(A...)>()) == Match::Exact, "self", "<%s> doesn't match itself", sig.c_str());
    // it goes on doing so wherever it's kept
    Overloads o; o.add(std::move(f));
    VX_CHECK(o.size() == 1 && o[0].name() == name && signature(o[0]) == sig && (o.get<R(A...)>().arguments()) == want.size() && o.test(o[0]), "kept", "<%s> is described as <%s> once in a set of overloads", sig.c_str(), signature(o[0]).c_str());
    std::string p = o.print(); size_t b = p.find_first_not_of(" \n"), e = p.find_last_not_of(" \n");
    VX_CHECK(b != std::string::npos && p.substr(b, e + 1 - b) == sig, "printed", "<%s> is printed as <%s>", sig.c_str(), vx::show(p).c_str());
    vx::outcome("described");
}
enum { Callables = 6 };
template<typename R, typename... A> void callable(int how)
{
    switch (how) {
    case 0: described<R, A...>(Function("free fn", &freeFn<R, A...>), "free fn"); break;
    case 1: described<R, M&, A...>(Function("mem", &M::mem<R, A...>), "mem"); break;
    case 2: described<R, const M&, A...>(Function("cmem", &M::cmem<R, A...>), "cmem"); break;
    case 3: described<R, A...>(Function("", Fun<R, A...>()), ""); break;
    case 4: described<R, A...>(Function("mut", Mut<R, A...>()), "mut"); break;
    default: described<R, A...>(Function("std::function", std::function<R(A...)>(Fun<R, A...>())), "std::function"); break;
    }
}
template<typename T, typename U> void pair(int) { described<void, T, U>(Function("f", Fun<void, T, U>()), "f"); }
template<typename R, typename... A> void plain(int how) { if (how) described<R, A...>(Function("f", Fun<R, A...>()), "f"); else described<R, A...>(Function("g", &freeFn<R, A...>), "g"); }

typedef void (*Case)(int);
template<int I, bool end = K<I>::end> struct Each
{
    typedef typename K<I>::type T;
    static void returns(std::vector<Case>& v) { v.push_back(&callable<T>); Each<I + 1>::returns(v); }
    static void params(std::vector<Case>& v) { v.push_back(&callable<void, T>); Each<I + 1>::params(v); }
    template<typename... B> struct At { template<typename... C> static void go(std::vector<Case>& v) { v.push_back(&plain<int, B..., T, C...>); Each<I + 1>::template At<B...>::template go<C...>(v); } };
    template<typename U> static void with(std::vector<Case>& v) { v.push_back(&pair<T, U>); Each<I + 1>::template with<U>(v); }
    static void pairs(std::vector<Case>& v) { Each<0>::with<T>(v); Each<I + 1>::pairs(v); }
};
template<int I> struct Each<I, true>
{
    static void returns(std::vector<Case>&) {} static void params(std::vector<Case>&) {} static void pairs(std::vector<Case>&) {}
    template<typename... B> struct At { template<typename... C> static void go(std::vector<Case>&) {} };
    template<typename U> static void with(std::vector<Case>&) {}
};
}
