/* C09: one type object per id, loaded once and on demand.
 * Every sequence of registrations, aliases and lookups over a few names, with
 * loaders that look up other (or their own) types, against a reference model. */
#include "vt.h"
#include "types/std/vector.h"
#include "types/std/map.h"
#include "types/std/smart_ptr.h"
#include <algorithm>
#include <unistd.h>
using namespace reflect;

namespace {

enum { N = 3, NA = 2 };
struct World;
World* W = nullptr;

struct World
{
    std::string ids[N], aliases[NA];
    const Type* seen[N];        // the type object every lookup must give
    int loads[N]; int kind[N];  // model: times loaded; what the loader does
    bool added[N]; int aliasOf[NA]; bool inLoad[N];
    World()
    {
        static uint64_t uniq = 0; ++uniq;
        for (int i = 0; i < N; ++i) {
            ids[i] = vx::fmt(i == 0 ? "Reg%llu" : i == 1 ? "rs%llu::Reg" : "rs%llu::Tpl<int, a::b>", (unsigned long long) uniq);
            seen[i] = nullptr; loads[i] = 0; kind[i] = -1; added[i] = false; inLoad[i] = false;
        }
        for (int i = 0; i < NA; ++i) { aliases[i] = vx::fmt("alias%d_%llu", i, (unsigned long long) uniq); aliasOf[i] = -1; }
        W = this;
    }
    // real loader runs
    void run(int i, Type* t)
    {
        loads[i]++;
        VX_CHECK(added[i], "loaded-unknown", "a type nobody registered was loaded");
        VX_CHECK(loads[i] == 1, "loaded-twice", "the loader of %s ran %d times", ids[i].c_str(), loads[i]);
        VX_CHECK(t->id() == ids[i], "wrong-type", "the loader of %s was given type %s", ids[i].c_str(), t->id().c_str());
        VX_CHECK(!seen[i], "wrong-type", "the loader of %s runs for a type that was already handed out", ids[i].c_str());
        seen[i] = t; inLoad[i] = true;
        int k = kind[i];
        if (k == 1) { const Type* x = Registry::get(ids[i]); VX_CHECK(x == t, "identity", "a loader looking itself up gets another type"); }
        if (k == 2) look((i + 1) % N);      // may be a cycle
        if (k == 3) { t->parent(nullptr); t->addFunction("f", [] { return 5; }); lookAlias(0); }
        inLoad[i] = false;
    }
    void look(int i)
    {
        const Type* t = nullptr;
        bool e = vt::errs([&] { t = Registry::get(ids[i]); });
        check(i, t, e, ids[i]);
    }
    void lookAlias(int a)
    {
        const Type* t = nullptr;
        bool e = vt::errs([&] { t = reflect::type(aliases[a]); });
        if (aliasOf[a] < 0) VX_CHECK(e, "unknown-accepted", "looking up the undefined alias %s succeeds", aliases[a].c_str());
        else check(aliasOf[a], t, e, aliases[a]);
    }
    void check(int i, const Type* t, bool e, const std::string& as)
    {
        VX_CHECK(e == !added[i], added[i] ? "lookup-refused" : "unknown-accepted", "looking up %s %s", as.c_str(), e ? "fails" : "succeeds");
        if (e) return;
        VX_CHECK(loads[i] == 1, "not-loaded", "%s was handed out after %d loads", as.c_str(), loads[i]);
        VX_CHECK(t == seen[i], "identity", "%s denotes two type objects", as.c_str());
        VX_CHECK(t->id() == ids[i], "identity", "%s has id %s", as.c_str(), t->id().c_str());
        if (kind[i] == 3 && !inLoad[i]) VX_CHECK(t->hasFunction("f") && t->call<int>("f") == 5, "half-loaded", "%s was handed out without its members", as.c_str());
    }
    uint64_t hash() const
    {
        std::string s;
        for (int i = 0; i < N; ++i) s += vx::fmt("%d%d%d|", added[i], loads[i], kind[i]);
        for (int i = 0; i < NA; ++i) s += vx::fmt("%d", aliasOf[i]);
        return vx::hashStr(s);
    }
};

} // namespace

VX_SUITE_D(histories, 4)
{
    World w;
    int depth = vx::pick(4, 5), n = 1 + vx::choose(depth, "length");
    for (int k = 0; k < n; ++k) {
        int op = vx::choose(5, "op");
        vx::step();
        if (op == 0) {
            int i = vx::choose(N, "id"), kind = vx::choose(4, "loader");
            VX_NOTE("add %s, loader kind %d%s", w.ids[i].c_str(), kind, w.added[i] ? " (again)" : "");
            int before[N]; std::copy(w.loads, w.loads + N, before);
            bool first = !w.added[i];
            if (first) { w.added[i] = true; w.kind[i] = kind; }
            // a second registration is ignored: its loader must never run
            bool e = vt::errs([&] { Registry::add(w.ids[i], [i, first] (Type* t) {
                VX_CHECK(first, "second-loader", "the loader of a repeated registration ran"); W->run(i, t); }); });
            VX_CHECK(!e, "add-refused", "registering %s fails", w.ids[i].c_str());
            VX_CHECK(std::equal(before, before + N, w.loads), "eager", "registering loads a type");
        }
        else if (op == 1) {
            int a = vx::choose(NA, "alias"), i = vx::choose(N, "id");
            VX_NOTE("alias %s -> %s", w.aliases[a].c_str(), w.ids[i].c_str());
            bool e = vt::errs([&] { Registry::alias(w.ids[i], w.aliases[a]); });
            VX_CHECK(e == (w.aliasOf[a] >= 0), e ? "alias-refused" : "alias-replaced", "alias %s -> %s %s", w.aliases[a].c_str(), w.ids[i].c_str(), e ? "refused" : "accepted");
            if (!e) w.aliasOf[a] = i;
        }
        else if (op == 2) { int i = vx::choose(N, "id"); VX_NOTE("get %s", w.ids[i].c_str()); w.look(i); }
        else if (op == 3) { int a = vx::choose(NA, "alias"); VX_NOTE("get %s", w.aliases[a].c_str()); w.lookAlias(a); }
        else {
            int i = vx::choose(N, "id");
            VX_NOTE("scope lookup of %s", w.ids[i].c_str());
            Scope* g = scope();
            bool has = g->hasType(w.ids[i]);
            VX_CHECK(has == w.added[i], "scope", "the global scope %s %s", has ? "has" : "lacks", w.ids[i].c_str());
            const Type* t = nullptr; bool e = vt::errs([&] { t = g->type(w.ids[i]); });
            w.check(i, t, e, "scope:" + w.ids[i]);
        }
        vx::state(w.hash());
    }
    for (int i = 0; i < N; ++i) { if (w.added[i]) w.look(i); else w.look(i); }
    for (int a = 0; a < NA; ++a) w.lookAlias(a);
    for (int i = 0; i < N; ++i) VX_CHECK(scope()->hasType(w.ids[i]) == w.added[i], "scope", "the scope tree disagrees about %s", w.ids[i].c_str());
}

/* Bad registrations and lookups. */
VX_SUITE(degenerate)
{
    int op = vx::choose(8, "op");
    bool e = vt::errs([&] {
        switch (op) {
        case 0: Registry::get(""); break;
        case 1: Registry::add("", [] (Type*) {}); break;
        case 2: Registry::add("RegNoLoader", std::function<void(Type*)>()); break;
        case 3: Registry::alias("", "x"); break;
        case 4: Registry::alias("x", ""); break;
        case 5: Registry::get("no such type"); break;
        case 6: Registry::get("int "); break;
        case 7: Registry::get("Int"); break;
        } });
    vx::step(); vx::state(op);
    VX_CHECK(e, "degenerate-accepted", "degenerate operation %d succeeds", op);
    VX_CHECK(Registry::get("int") == type<int>(), "identity", "the registry lost int");
}

/* The same C++ type gives the same type object, however it is named. */
namespace {
template<typename X> void variants(std::vector<const Type*>& v)
{
    v.push_back(type<X>()); v.push_back(type<const X>()); v.push_back(type<X&>()); v.push_back(type<const X&>());
    v.push_back(type<X&&>()); v.push_back(type<const X&&>()); v.push_back(type<volatile X>()); v.push_back(type(typeId<X>()));
    v.push_back(type(typeId<const X&>())); v.push_back(Registry::get<X>()); v.push_back(Argument::make<X>().type());
    v.push_back(Argument::make<const X&>().type()); v.push_back(scope()->type(typeId<X>())); v.push_back(Function("f", [] (X*) {}).argument(0).type()->pointee());
}
typedef std::vector<std::vector<int>> VVI; typedef std::map<std::string, std::vector<int>> MSV; typedef std::shared_ptr<std::vector<std::string>> SPV;
}
VX_SUITE(identity)
{
    typedef std::vector<const Type*> V; V v[14];
    static const char* ids[14] = { "int", "unsigned int", "long int", "double", "bool", "char", "std::string", "std::vector<int>", "std::vector<std::vector<int>>",
        "std::map<std::string,std::vector<int>>", "int*", "int**", "std::shared_ptr<std::vector<std::string>>", "std::unordered_map<int,int*>" };
    int first = vx::choose(14, "first");
    for (int k = 0; k < 14; ++k) {
        int i = (first + k) % 14;
        switch (i) {
        case 0: variants<int>(v[i]); break; case 1: variants<unsigned>(v[i]); break; case 2: variants<long>(v[i]); break; case 3: variants<double>(v[i]); break;
        case 4: variants<bool>(v[i]); break; case 5: variants<char>(v[i]); break; case 6: variants<std::string>(v[i]); break;
        case 7: variants<std::vector<int>>(v[i]); break; case 8: variants<VVI>(v[i]); break; case 9: variants<MSV>(v[i]); break;
        case 10: variants<int*>(v[i]); break; case 11: variants<int**>(v[i]); break; case 12: variants<SPV>(v[i]); break;
        case 13: variants<std::unordered_map<int, int*>>(v[i]); break; }
    }
    vx::step(14); vx::state(first);
    for (int i = 0; i < 14; ++i) {
        for (const Type* t : v[i]) VX_CHECK(t == v[i][0], "identity", "%s is denoted by two type objects", ids[i]);
        VX_CHECK(v[i][0]->id() == ids[i], "id", "%s is called %s", ids[i], v[i][0]->id().c_str());
        VX_CHECK(type(ids[i]) == v[i][0], "identity", "looking up %s by name gives another type", ids[i]);
        for (int j = 0; j < i; ++j) VX_CHECK(v[i][0] != v[j][0], "identity", "%s and %s are the same type", ids[i], ids[j]);
    }
}
