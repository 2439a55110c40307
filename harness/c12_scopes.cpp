/* C12: the scope tree holds exactly what was registered.
 * Every sequence of registrations on a fresh tree, by qualified name, from any
 * level, followed by every query, against a reference model of the tree. */
#include "vt.h"
#include <algorithm>
using namespace reflect;

namespace {

struct MScope
{
    std::map<std::string, std::unique_ptr<MScope>> scopes; std::set<std::string> types;
    std::map<std::string, std::vector<int>> fns;
    void print(std::string& s) const
    {
        for (auto& x : types) s += "T" + x;
        for (auto& x : fns) s += vx::fmt("F%s%zu", x.first.c_str(), x.second.size());
        for (auto& x : scopes) { s += x.first + "{"; x.second->print(s); s += "}"; }
    }
};
typedef std::vector<std::string> Names;
// the pool of names: plain, nested, deeply nested, templated
const char* pool[] = { "a", "b", "a::b", "b::a", "a::b::c", "t<x::y>", "a::t<x::y>", "t<x::y>::a" };
enum { NP = 8 };
Names split(const std::string& n)
{
    Names out; std::string cur; int d = 0;
    for (size_t i = 0; i < n.size(); ++i) {
        if (n[i] == '<') d++; if (n[i] == '>') d--;
        if (!d && n[i] == ':') { out.push_back(cur); cur.clear(); i++; } else cur += n[i];
    }
    out.push_back(cur); return out;
}
MScope* find(MScope* s, const Names& n, size_t upto, bool create)
{
    for (size_t i = 0; i < upto; ++i) {
        auto it = s->scopes.find(n[i]);
        if (it == s->scopes.end()) { if (!create) return nullptr; it = s->scopes.emplace(n[i], std::unique_ptr<MScope>(new MScope)).first; }
        s = it->second.get();
    }
    return s;
}
// addType walks the names from the root: a type or function already registered under a leading name refuses it
bool addTypeRefused(MScope* s, const Names& n)
{
    for (size_t i = 0; i + 1 < n.size() && s; ++i) {
        if (s->types.count(n[i]) || s->fns.count(n[i])) return true;
        auto it = s->scopes.find(n[i]); s = it == s->scopes.end() ? nullptr : it->second.get();
    }
    return false;
}
int asId = 0;
Function mk(const std::string& name, int sig, int id)
{ return sig == 0 ? Function(name, [id] () -> int { return id; }) : Function(name, [id] (int) -> int { return id; }); }

void list(const MScope& m, const std::string& pre, bool deep, std::vector<std::string>& types, std::vector<std::string>& fns)
{
    for (auto& t : m.types) types.push_back(pre + t);
    for (auto& f : m.fns) fns.push_back(pre + f.first);
    if (deep) for (auto& s : m.scopes) list(*s.second, pre + s.first + "::", true, types, fns);
}
std::vector<std::string> sorted(std::vector<std::string> v) { std::sort(v.begin(), v.end()); return v; }

void compare(Scope* real, MScope* m, Scope* parent, const std::string& id, const char* op)
{
    const Scope* c = real;
    VX_CHECK(c->parent() == parent && c->isGlobal() == !parent && c->id() == id, "identity", "%s: scope <%s> has id <%s> or another parent", op, id.c_str(), c->id().c_str());
    std::vector<std::string> names; for (auto& s : m->scopes) names.push_back(s.first);
    VX_CHECK(sorted(c->scopes()) == names, "scopes", "%s: scope <%s> lists %zu scopes, expected %zu", op, id.c_str(), c->scopes().size(), names.size());
    for (int deep = 0; deep < 2; ++deep) {
        std::vector<std::string> t, f; list(*m, "", deep, t, f);
        VX_CHECK(sorted(c->types(deep)) == sorted(t), "types", "%s: scope <%s> types(%d)", op, id.c_str(), deep);
        VX_CHECK(sorted(c->functions(deep)) == sorted(f), "functions", "%s: scope <%s> functions(%d)", op, id.c_str(), deep);
    }
    for (auto& s : m->scopes) {
        Scope* r = nullptr;
        VX_CHECK(!vt::errs([&] { r = c->scope(s.first); }), "scope", "%s: scope <%s> lost its child %s", op, id.c_str(), s.first.c_str());
        compare(r, s.second.get(), real, id.empty() ? s.first : id + "::" + s.first, op);
    }
}
// queries by qualified name, none of which may change anything
void queries(Scope* real, MScope* m, const char* op)
{
    const Scope* c = real;
    static const char* more[] = { "zz", "a::zz", "zz::a", "a::b::c::d", "a::b::zz::d" };
    for (int i = 0; i < NP + 5; ++i) {
        std::string n = i < NP ? pool[i] : more[i - NP];
        Names p = split(n);
        MScope* asScope = find(m, p, p.size(), false); MScope* holder = find(m, p, p.size() - 1, false);
        bool hasT = holder && holder->types.count(p.back()), hasF = holder && holder->fns.count(p.back());
        VX_CHECK(c->hasScope(n) == !!asScope, "has-scope", "%s: hasScope(%s) = %d", op, n.c_str(), !asScope);
        Scope* s = nullptr; bool e = vt::errs([&] { s = c->scope(n); });
        VX_CHECK(e == !asScope, "scope", "%s: scope(%s) const %s", op, n.c_str(), e ? "fails" : "succeeds");
        if (s) VX_CHECK(s->name() == p.back() && s->id() == n, "scope", "%s: scope(%s) is <%s>", op, n.c_str(), s->id().c_str());
        if (s) VX_CHECK(real->scope(n) == s, "scope", "%s: scope(%s) differs between const and modifiable", op, n.c_str());
        bool got = false; e = vt::errs([&] { got = c->hasFunction(n); });
        VX_CHECK(!e, "has-function-fails", "%s: hasFunction(%s) fails instead of answering", op, n.c_str());
        VX_CHECK(got == hasF, "has-function", "%s: hasFunction(%s) = %d", op, n.c_str(), got);
        bool typeAbove = false; MScope* w = m;
        for (size_t k = 0; k + 1 < p.size() && w; ++k) { typeAbove = typeAbove || w->types.count(p[k]); w = find(w, Names(1, p[k]), 1, false); }
        e = vt::errs([&] { got = real->hasType(n); });
        VX_CHECK(e || got == hasT, "has-type", "%s: hasType(%s) = %d", op, n.c_str(), got);
        VX_CHECK(!e || typeAbove, "has-type", "%s: hasType(%s) fails instead of answering", op, n.c_str());    // no inner classes
        const Overloads* f = nullptr; e = vt::errs([&] { f = &c->function(n); });
        VX_CHECK(e == !hasF, "function", "%s: function(%s) const %s", op, n.c_str(), e ? "fails" : "succeeds");
        if (hasF) {
            const std::vector<int>& ids = holder->fns[p.back()];
            VX_CHECK(f->size() == ids.size(), "function", "%s: %s has %zu overloads, expected %zu", op, n.c_str(), f->size(), ids.size());
            for (int sig = 0; sig < 2; ++sig) {
                int want = -1; for (int id : ids) if (id % 2 == sig) want = id;
                int r = -1; bool ee = vt::errs([&] { r = sig ? c->call<int>(n, 1) : c->call<int>(n); });
                VX_CHECK(ee == (want < 0) && r == want, "call", "%s: calling %s gives %d, expected %d", op, n.c_str(), r, want);
                int r2 = -1; vt::errs([&] { r2 = sig ? (*f)[0].call<int>(1) : (*f)[0].call<int>(); });
            }
            VX_CHECK(&real->function(n) == f, "function", "%s: function(%s) differs between const and modifiable", op, n.c_str());
        }
    }
}

void run(int depth)
{
    std::unique_ptr<Scope> root(new Scope); MScope m;
    int n = 1 + vx::choose(depth, "length");
    std::string op;
    for (int k = 0; k < n; ++k) {
        int o = vx::choose(3, "op"); std::string name = pool[vx::choose(NP, "name")];
        Names p = split(name);
        vx::step();
        bool want = false, err;
        // from the root, or by descending to the holder first
        bool fromHolder = p.size() > 1 && vx::flip("from");
        Scope* at = root.get(); std::string rel = name;
        if (o == 0) {
            op = "scope(" + name + ")"; Scope* s = nullptr;
            if (fromHolder) { MScope* mm = find(&m, p, 1, true); (void) mm; Scope* h = root->scope(p[0]); std::string rest = name.substr(p[0].size() + 2); err = vt::errs([&] { s = h->scope(rest); }); }
            else err = vt::errs([&] { s = root->scope(name); });
            find(&m, p, p.size(), true);
            if (s) VX_CHECK(s->id() == name, "identity", "%s creates <%s>", op.c_str(), s->id().c_str());
        }
        else if (o == 1) {
            op = "addType(" + name + ")";
            if (fromHolder) { find(&m, p, 1, true); at = root->scope(p[0]); rel = name.substr(p[0].size() + 2); }
            Names q = split(rel); MScope* ms = fromHolder ? find(&m, p, 1, false) : &m;
            want = addTypeRefused(ms, q);
            err = vt::errs([&] { at->addType(rel); });
            if (!want) find(ms, q, q.size() - 1, true)->types.insert(q.back());
        }
        else {
            int sig = vx::flip("signature"), id = 2 * (k + 1) + sig;
            op = vx::fmt("addFunction(%s, %d)", name.c_str(), sig);
            if (fromHolder) { find(&m, p, 1, true); at = root->scope(p[0]); rel = name.substr(p[0].size() + 2); }
            Names q = split(rel); MScope* ms = find(fromHolder ? find(&m, p, 1, false) : &m, q, q.size() - 1, true);
            for (int x : ms->fns[q.back()]) want = want || x % 2 == sig;
            err = vt::errs([&] { if (vx::flip("how")) at->addFunction(rel, mk(q.back(), sig, id));
                else if (sig) at->addFunction(rel, [id] (int) -> int { return id; }); else at->addFunction(rel, [id] () -> int { return id; }); });
            if (!want) ms->fns[q.back()].push_back(id);
        }
        VX_NOTE("%s%s%s", op.c_str(), fromHolder ? " (relative)" : "", want ? " (must be refused)" : "");
        VX_CHECK(err == want, want ? "conflict-accepted" : "refused", "%s %s", op.c_str(), err ? "refused" : "accepted");
        vx::outcome(want ? "refused" : "registered");
        std::string s; m.print(s); vx::state(vx::hashStr(s));
        if (k + 1 == n) {
            compare(root.get(), &m, nullptr, "", op.c_str());
            queries(root.get(), &m, op.c_str());
            compare(root.get(), &m, nullptr, "", (op + ", then queries").c_str());
        }
    }
}

} // namespace

VX_SUITE_D(histories, 4) { run(vx::pick(3, 4)); }

/* Types are found through the scopes and give the registry's object. */
struct Sc12A {}; struct Sc12B {}; struct Sc12C {};
namespace n12 { struct A {}; namespace m { struct A {}; template<typename T> struct V {}; } }
typedef n12::m::V<n12::A> n12V;
reflectType(Sc12A) {} reflectType(n12::A) {} reflectType(n12::m::A) {}
reflectTemplate(n12::m::V, T) {}
VX_SUITE(types)
{
    (void) type<n12V>();
    Scope* g = scope(); 
    static const char* ids[] = { "Sc12A", "n12::A", "n12::m::A", "n12::m::V<n12::A>", "int", "std::string" };
    const Type* want[] = { type<Sc12A>(), type<n12::A>(), type<n12::m::A>(), type<n12V>(), type<int>(), type<std::string>() };
    int i = vx::choose(6, "type"), how = vx::choose(4, "how");
    Names p = split(ids[i]);
    vx::step(); vx::state(vx::pathHash());
    const Type* got = nullptr;
    bool e = vt::errs([&] {
        Scope* s = g;
        switch (how) {
        case 0: got = g->type(ids[i]); break;
        case 1: for (size_t k = 0; k + 1 < p.size(); ++k) s = s->scope(p[k]); got = s->type(p.back()); break;
        case 2: got = (p.size() > 1 ? scope(p[0])->type(std::string(ids[i]).substr(p[0].size() + 2)) : scope()->type(ids[i])); break;
        case 3: got = g->type(ids[i]); got = g->type(ids[i]); break; } });
    VX_CHECK(!e && got == want[i], "type", "%s found through the scopes is %s", ids[i], e ? "an error" : "another type object");
    VX_CHECK(g->hasType(ids[i]), "has-type", "hasType(%s)", ids[i]);
    static const char* missing[] = { "n12", "n12::B", "n12::m", "std", "A", "V<n12::A>", "n12::m::V<n12::B>", "Sc12a" };
    for (const char* n : missing) {
        VX_CHECK(!g->hasType(n), "has-type", "hasType(%s) for an unknown type", n);
        VX_CHECK(vt::errs([&] { g->type(n); }), "type", "type(%s) finds an unknown type", n);
    }
    VX_CHECK(vt::errs([&] { scope("n12::nope"); }), "scope", "scope() invents a scope");
    VX_CHECK(!g->hasScope("n12::nope") && g->hasScope("n12::m"), "has-scope", "hasScope");
}
