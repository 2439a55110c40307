/* C10: the registry used from several threads.
 * Every interleaving, within a preemption bound, of two or three threads which
 * look types up for the first time, register, alias, and call; each in a fresh
 * process image so that every first use is really first. */
#include "vt.h"
#include <algorithm>
#include "mc.h"
#include <cstring>
#include "types/std/vector.h"
#include "types/std/map.h"
#include "types/std/smart_ptr.h"
using namespace reflect;

namespace k10 {
struct In { int x; In() : x(3) {} int dbl() const { return 2 * x; } };
struct Out { In in; std::vector<In> many; In* ptr; Out() : ptr(&in) {} int two() const { return 2; } int three() { return 3; } operator long() const { return 44; } };
struct Kid : Out { int y; int one() const { return 1; } };
struct Lonely { int a; };
}
reflectTypeDecl(k10::In)
reflectTypeDecl(k10::Out)
reflectTypeDecl(k10::Kid)
reflectTypeImpl(k10::In) { reflectPlumbing(); reflectAllocPlumbing(); reflectField(x); reflectFn(dbl); }
reflectTypeImpl(k10::Out) { reflectPlumbing(); reflectField(in); reflectField(many); reflectField(ptr); reflectFn(two); reflectFn(three); reflectOpCast(long); reflectTypeTrait(outer); reflectFieldValue(in, weight, 3); }
reflectTypeImpl(k10::Kid) { reflectParent(k10::Out); reflectPlumbing(); reflectField(y); reflectFn(one); }

reflectTypeDecl(k10::Lonely)
reflectTypeImpl(k10::Lonely) { reflectPlumbing(); reflectField(a); }

namespace {

int loadedA, loadedB, loadedC;

// A and B look each other up while they load; C uses templates nobody loaded yet
void setup()
{
    loadedA = loadedB = loadedC = 0;
    Registry::add("dynA", [] (Type* t) { loadedA++; t->addFunction("f", [] { return 1; });
        const Type* b = type("dynB"); t->addTrait("friend", Value(b)); t->addFunction("g", [] (int) { return 2; }); });
    Registry::add("dynB", [] (Type* t) { loadedB++; t->addFunction("f", [] { return 3; });
        const Type* a = type("dynA"); (void) a; t->addFunction("g", [] (int) { return 4; }); });
    Registry::add("dynC", [] (Type* t) { loadedC++; t->addFunction("f", [] (const std::string&) {});
        t->addFunction("f", [] (const std::vector<k10::Kid>&) {}); t->addFunction("h", [] (Value v) { return v; }); t->addFunction("g", [] (int) { return 6; }); });
}

void complete(const Type* t, const char* id)
{
    VX_CHECK(t->id() == id, "wrong-type", "looking up %s gives %s", id, t->id().c_str());
    VX_CHECK(t->hasFunction("f") && t->hasFunction("g"), "half-loaded", "%s is visible before it is loaded", id);
}

enum Act { ADynA, ADynB, ADynC, AVec, AMap, APtr, AOut, AKid, ACallV, AReg, AAlias, AIn, NActs };
const char* actName[] = { "type(dynA)", "type(dynB)", "type(dynC)", "type<vector<In>>", "type<map<int, In>>", "type<In**>", "type<Out>", "type<Kid>",
    "call with a Value", "register", "alias", "type<In>" };
const Type* seen[3][2];

struct Obs { const Type* t; };

const Type* act(int a, int th, int i)
{
    switch (a) {
    case ADynA: { const Type* t = type("dynA"); complete(t, "dynA"); return t; }
    case ADynB: { const Type* t = type("dynB"); complete(t, "dynB"); return t; }
    case ADynC: { const Type* t = type("dynC"); complete(t, "dynC"); return t; }
    case AVec: { const Type* t = type<std::vector<k10::In>>(); VX_CHECK(t->id() == "std::vector<k10::In>" && t->hasFunction("at") && t->is("list"), "half-loaded", "vector"); return t; }
    case AMap: { const Type* t = type<std::map<int, k10::In>>(); VX_CHECK(t->hasFunction("keys") && t->is("map"), "half-loaded", "map"); return t; }
    case APtr: { const Type* t = type<k10::In**>(); VX_CHECK(t->isPointer() && t->pointee() == type<k10::In*>() && t->hasFunction("operator*"), "half-loaded", "pointer"); return t; }
    case AOut: { const Type* t = type<k10::Out>(); VX_CHECK(t->hasField("in") && t->hasField("many") && t->hasField("ptr"), "half-loaded", "Out"); return t; }
    case AKid: { const Type* t = type<k10::Kid>(); VX_CHECK(t->hasField("ptr") && t->hasField("y") && t->isChildOf(type<k10::Out>()), "half-loaded", "Kid"); return t; }
    case ACallV: {
        k10::In in; in.x = 21;
        int r = Value(in).call<int>("dbl"); VX_CHECK(r == 42, "call", "%d", r);
        return type<k10::In>(); }
    case AReg: {
        std::string id = vx::fmt("own%d.%d", th, i);
        Registry::add(id, [] (Type* t) { t->addFunction("f", [] { return 1; }); t->addFunction("g", [] { return 1; }); });
        const Type* t = type(id); complete(t, id.c_str()); return nullptr; }
    case AAlias: {
        std::string al = vx::fmt("alias%d.%d", th, i); Registry::alias("dynB", al);
        const Type* t = type(al); complete(t, "dynB"); VX_CHECK(t == type("dynB"), "alias", "alias gives another type"); return nullptr; }
    case AIn: { const Type* t = type<k10::In>(); VX_CHECK(t->hasFunction("dbl"), "half-loaded", "In"); return t; }
    }
    return nullptr;
}

void runThreads(int n, const int (*a)[2], int perThread, int bound)
{
    setup();
    memset(seen, 0, sizeof seen);
    std::vector<std::function<void()>> b;
    for (int t = 0; t < n; ++t) {
        for (int i = 0; i < perThread; ++i) VX_NOTE("thread %d: %s", t, actName[a[t][i]]);
        b.push_back([=] { for (int i = 0; i < perThread; ++i) {
            try { seen[t][i] = act(a[t][i], t, i); }
            catch (reflect::Error& e) { vx::fail("error", "%s in thread %d fails: %s", actName[a[t][i]], t, e.what()); } } });
    }
    mc::run(b, bound);
    // afterwards: everybody saw the same objects, every loader ran at most once
    for (int t = 0; t < n; ++t) for (int i = 0; i < perThread; ++i) for (int u = 0; u < n; ++u) for (int j = 0; j < perThread; ++j)
        if (a[t][i] == a[u][j]) VX_CHECK(seen[t][i] == seen[u][j], "identity", "two lookups of %s give different types", actName[a[t][i]]);
    VX_CHECK(loadedA <= 1 && loadedB <= 1 && loadedC <= 1, "loaded-twice", "a loader ran twice (%d %d %d)", loadedA, loadedB, loadedC);
    for (int t = 0; t < n; ++t) for (int i = 0; i < perThread; ++i) if (seen[t][i])
        VX_CHECK(act(a[t][i], t, i + 10) == seen[t][i], "identity", "%s changes later", actName[a[t][i]]);
    complete(type("dynA"), "dynA"); complete(type("dynB"), "dynB"); complete(type("dynC"), "dynC");
    VX_CHECK(loadedA == 1 && loadedB == 1 && loadedC == 1, "load-count", "loaders ran %d %d %d times", loadedA, loadedB, loadedC);
    vx::outcome("consistent");
}



/* Types which are already loaded, used from several threads at once: nobody's
 * answer depends on the others. Shared values are only read or copied. */
Value* shared = nullptr;
enum Use { UCall, UField, UCopyHandle, UCopyObject, UConstruct, UVector, UConvert, UQuery, UError, UAlloc, UInherit, UInherit2, UInheritField, UCast, UCustom, UTraits, UPrint, USmart, UScope, UBool, UQuery2, UMap, NUses };
const char* useName[] = { "call", "field", "copy handle", "copy object", "construct", "vector", "overload", "query", "failing call", "alloc", "inherited call", "other inherited call", "inherited field", "cast to base", "converter", "traits", "print", "smart pointer", "scope call", "bool", "signature query", "map" };
void use(int u, int th)
{
    const Type* t = type<k10::In>();
    switch (u) {
    case UCall: { k10::In in; in.x = th; VX_CHECK(Value(in).call<int>("dbl") == 2 * th, "call", "call"); break; }
    case UField: { k10::In in; Value v(in); v.field("x").assign(40 + th); VX_CHECK(in.x == 40 + th && v.field<int>("x") == 40 + th, "field", "field"); break; }
    case UCopyHandle: { Value v(*shared); Value w = v; v = Value(); VX_CHECK(w.field<int>("x") == 7, "shared", "shared value changed"); break; }
    case UCopyObject: { Value v = shared->copy(); VX_CHECK(v.field<int>("x") == 7, "shared", "copy of the shared value"); v.field("x").assign(th); VX_CHECK(v.field<int>("x") == th, "shared", "copies are not independent"); break; }
    case UConstruct: { Value v = t->construct(); VX_CHECK(v.field<int>("x") == 3, "construct", "construct"); break; }
    case UVector: { std::vector<k10::In> vec; Value v(vec); v.call<void>("push_back", *shared); VX_CHECK(vec.size() == 1 && vec[0].x == 7, "vector", "vector"); break; }
    case UConvert: { Value v(th); VX_CHECK(type("k10::over")->call<int>("o", v) == 1, "overload", "overload"); VX_CHECK(type("k10::over")->call<int>("o", std::string("x")) == 2, "overload", "overload"); break; }
    case UQuery: VX_CHECK(type<k10::Kid>()->isChildOf(type<k10::Out>()) && !t->isChildOf(type<k10::Out>()) && type<k10::Out>()->fields().size() == 3, "query", "query"); break;
    case UError: VX_CHECK(vt::errs([&] { k10::In in; Value(in).call<int>("nothing"); }), "error", "no error"); break;
    case UAlloc: { k10::In* p = t->alloc().get<k10::In*>(); VX_CHECK(p->x == 3, "alloc", "alloc"); delete p; break; }
    case UInherit: { k10::Kid k; VX_CHECK(Value(k).call<int>("two") == 2, "call", "inherited"); break; }
    case UInherit2: { k10::Kid k; Value v(k); VX_CHECK(v.call<int>("three") == 3 && v.call<int>("one") == 1 && v.call<int>("two") == 2, "call", "inherited"); break; }
    case UInheritField: { k10::Kid k; Value v(k); VX_CHECK(v.field("in").value() == &k.in && v.field("ptr").value() == &k.ptr && v.field("y").value() == &k.y, "field", "inherited"); break; }
    case UCast: { k10::Kid k; Value v(k); VX_CHECK(&cast<k10::Out&>(v) == &k && isCastable<const k10::Out&>(v) && !isCastable<k10::In&>(v), "cast", "to base"); k10::Out c = cast<k10::Out>(v); VX_CHECK(c.ptr == &k.in, "cast", "copy of the base"); break; }
    case UCustom: { k10::Out o; Value v(o); VX_CHECK(cast<long>(v) == 44 && v.type()->hasConverter<long>() && !v.type()->hasConverter<int>(), "convert", "converter"); break; }
    case UTraits: { const Type* o = type<k10::Out>(); VX_CHECK(o->is("outer") && !t->is("outer") && o->field("in").getValue<int>("weight") == 3 && type<int>()->getValue<int>("max") == 2147483647 && t->getValue<size_t>("sizeof") == sizeof(k10::In), "traits", "traits"); break; }
    case UPrint: { std::string s = t->print(), w = scope("k10::sc")->print(); VX_CHECK(s.find("dbl") != std::string::npos && w.find("fn") != std::string::npos && Argument::make<const k10::In&>().print() == "k10::In const&", "print", "print"); break; }
    case USmart: { std::shared_ptr<k10::Kid> k(new k10::Kid); Value v(k); VX_CHECK((bool) v && !!v && (*v).value() == k.get() && k.use_count() == 1, "smart", "shared pointer"); break; }
    case UScope: { VX_CHECK(scope("k10::sc")->call<int>("fn", 3) == 4 && scope()->call<int>("k10::sc::fn", th) == th + 1 && scope("k10::sc")->hasFunction("fn") && !scope()->hasFunction("k10::sc::none"), "scope", "scope call"); break; }
    case UBool: { k10::In in; k10::In* p = &in; k10::In* z = nullptr; VX_CHECK((bool) Value(p) && !(bool) Value(z) && (*Value(p)).value() == p, "pointer", "pointer"); break; }
    case UQuery2: { VX_CHECK(t->function("dbl").test<int(const k10::In&)>() && !t->function("dbl").test<int(const k10::Out&)>() && t->isCopiable() && t->isMovable() && type<k10::Kid*>()->isChildOf(type<k10::Out*>()), "query", "signatures"); break; }
    case UMap: { std::map<int, k10::In> m; m[th]; Value v(m); VX_CHECK(v.call<size_t>("size") == 1 && v.call<Value>("at", th).value() == &m[th] && v.call<std::vector<int>>("keys").size() == 1, "map", "map"); break; }
    }
}
int scopeFn(int x);
void share()
{
    if (shared) return;
    scope()->addFunction("k10::sc::fn", scopeFn);
    k10::In in; in.x = 7; shared = new Value(std::move(in));
}
void warm()
{
    share();
    for (int u = 0; u < NUses; ++u) use(u, 1);
}
struct RegOver { RegOver() { Registry::add("k10::over", [] (Type* t) { t->addFunction("o", [] (int) { return 1; }); t->addFunction("o", [] (const std::string&) { return 2; }); }); } } regOver;

int scopeFn(int x) { return x + 1; }
} // namespace

VX_SUITE_D(pairs, 2)
{
    int a[2][2] = {};
    a[0][0] = vx::choose(NActs, "thread 0"); a[1][0] = a[0][0] + vx::choose(NActs - a[0][0], "thread 1");
    vx::isolated([&] { runThreads(2, a, 1, vx::pick(2, 3)); });
}
VX_SUITE_D(sequences, 2)
{
    int a[2][2] = {};
    int n = vx::pick(4, NActs);
    a[0][0] = vx::choose(n, "thread 0"); a[0][1] = vx::choose(n, "then"); a[1][0] = vx::choose(n, "thread 1"); a[1][1] = vx::choose(n, "then");
    vx::assume(a[0][0] * NActs + a[0][1] <= a[1][0] * NActs + a[1][1]);
    vx::isolated([&] { runThreads(2, a, 2, 1); });
}
VX_SUITE_D(triples, 2)
{
    int a[3][2] = {};
    a[0][0] = vx::choose(NActs, "thread 0"); a[1][0] = a[0][0] + vx::choose(NActs - a[0][0], "thread 1"); a[2][0] = a[1][0] + vx::choose(NActs - a[1][0], "thread 2");
    vx::isolated([&] { runThreads(3, a, 1, vx::pick(0, 1)); });
}
/* The global scope while types appear in it. */
VX_SUITE_D(scopes, 2)
{
    enum { SCall, SType, SType2, SHas, STmpl, SReg, SList, SAdd, SNew, SFns, SScopes, SPrint, SHasFn, SHasScope, SFind, NS };
    static const char* names[] = { "scope call", "scope type(k10::Lonely)", "scope type(k10::In)", "hasType", "type<vector<Lonely>>", "register", "list", "add a function", "make a scope", "list functions", "list scopes", "print", "hasFunction", "hasScope", "find a scope" };
    int op[2]; op[0] = vx::choose(NS, "thread 0"); op[1] = op[0] + vx::choose(NS - op[0], "thread 1");
    static bool once = false;
    if (!once) { once = true; scope()->addFunction("k10fn", scopeFn); scope()->scope("k10::grow"); }
    vx::isolated([&] {
        auto run = [&] (int o, int th) {
            switch (o) {
            case SCall: VX_CHECK(scope()->call<int>("k10fn", 3) == 4, "call", "scope call"); break;
            case SType: VX_CHECK(scope()->type("k10::Lonely") == type<k10::Lonely>(), "identity", "scope type"); break;
            case SType2: VX_CHECK(scope()->type("k10::In") == type<k10::In>(), "identity", "scope type"); break;
            case SHas: VX_CHECK(scope()->hasType("k10::Lonely"), "has", "hasType"); break;
            case STmpl: VX_CHECK(type<std::vector<k10::Lonely>>()->hasFunction("at"), "half-loaded", "vector"); break;
            case SReg: Registry::add(vx::fmt("k10reg%d", th), [] (Type*) {}); break;
            case SList: VX_CHECK(!scope()->types().empty() && !scope()->types(true).empty(), "list", "types()"); break;
            case SAdd: { std::string n = vx::fmt("k10::grow::f%d", th); scope()->addFunction(n, scopeFn); VX_CHECK(scope()->hasFunction(n) && scope()->call<int>(n, th) == th + 1, "added", "%s", n.c_str()); break; }
            case SNew: { Scope* s = scope()->scope(vx::fmt("k10::grow::s%d", th)); VX_CHECK(s == scope(s->id()) && s->parent() == scope("k10::grow"), "made", "%s", s->id().c_str()); break; }
            case SFns: { auto f = scope()->functions(true); VX_CHECK(std::count(f.begin(), f.end(), "k10fn") == 1, "list", "functions()"); break; }
            case SScopes: { auto f = scope("k10::grow")->scopes(); VX_CHECK(f.size() <= 2, "list", "scopes()"); f = scope()->scopes(); VX_CHECK(std::count(f.begin(), f.end(), "k10") == 1, "list", "scopes()"); break; }
            case SPrint: VX_CHECK(scope("k10")->print().find("scope grow") != std::string::npos, "print", "print()"); break;
            case SHasFn: VX_CHECK(scope()->hasFunction("k10fn") && !scope()->hasFunction("k10::grow::g") && !scope()->hasFunction("k10::none::g"), "has", "hasFunction"); break;
            case SHasScope: VX_CHECK(scope()->hasScope("k10::grow") && !scope()->hasScope("k10::none"), "has", "hasScope"); break;
            case SFind: VX_CHECK(scope("k10::grow")->id() == "k10::grow" && vt::errs([] { scope("k10::none"); }), "scope", "scope()"); break;
            } };
        VX_NOTE("thread 0: %s, thread 1: %s", names[op[0]], names[op[1]]);
        mc::run({ [&] { run(op[0], 0); }, [&] { run(op[1], 1); } }, vx::pick(2, 3));
        vx::outcome("consistent");
    });
}
VX_SUITE_D(uses, 2)
{
    int a = vx::choose(NUses, "thread 0"), b = a + vx::choose(NUses - a, "thread 1");
    share();
    vx::isolated([&] {
        VX_NOTE("thread 0: %s, thread 1: %s", useName[a], useName[b]);
        // either everything was used before, or this is the first use of everything
        if (vx::flip("warm")) warm();
        mc::run({ [&] { use(a, 1); }, [&] { use(b, 2); } }, vx::pick(1, 2));
        VX_CHECK(shared->field<int>("x") == 7, "shared", "the shared value changed");
        vx::outcome("independent");
    });
}
