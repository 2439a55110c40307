/* C36: what a type, field, function or scope prints of itself is what was put in it.
 * Every sequence of registrations, refused ones included, on types and scopes made
 * for it; after each the printed text and every query must agree with a plain model.
 * Then everything the process has registered, through the queries alone. */
#include "vt.h"
#include "types/std/vector.h"
#include "types/std/map.h"
#include "types/std/smart_ptr.h"
#include "types/reflect/type.h"
#include "types/reflect/value.h"
#include <algorithm>
using namespace reflect;

namespace k36 {
struct Obj { int a; std::string b; double f() const { return 0; } void f(int) {} int& g() { return a; } bool operator==(const Obj&) const { return true; } };
struct Sub : Obj { Obj* p; std::vector<Obj> v; std::map<std::string, Obj> m; std::shared_ptr<Obj> sp; void f(const Sub&, Obj&&) {} };
struct Last : Sub {};
int twice(int x) { return 2 * x; } int global = 3;
}
reflectType(k36::Obj) { reflectPlumbing(); reflectField(a); reflectField(b); reflectFnTyped(f, double (k36::Obj::*)() const); reflectFnTyped(f, void (k36::Obj::*)(int)); reflectFn(g); reflectOpComparaison(); reflectTypeTrait(odd); reflectFieldTrait(a, even); reflectFieldTrait(a, odd); reflectFnTrait(f, even); }
reflectType(k36::Sub) { reflectParent(k36::Obj); reflectPlumbing(); reflectField(p); reflectField(v); reflectField(m); reflectField(sp); reflectFn(f); }
reflectType(k36::Last) { reflectParent(k36::Sub); reflectTypeTrait(last); }
reflectScope(k36) { reflectGlobalFn(k36::twice); reflectGlobalVar(k36::global); }

namespace {
typedef std::set<std::string> Traits_; typedef std::vector<std::string> Lines;
struct FieldM { std::string type; size_t offset; Traits_ traits; };
struct FnM { Lines sigs; Traits_ traits; };
struct TypeM { std::string id; const TypeM* parent; Traits_ traits; std::map<std::string, FieldM> fields; std::map<std::string, FnM> fns; };
struct ScopeM { std::string name; Traits_ traits; std::set<std::string> types; std::map<std::string, FnM> fns; std::map<std::string, std::unique_ptr<ScopeM>> scopes; };

/* The text, read line by line. Blank lines separate and mean nothing. */
struct Text
{
    std::string all; std::vector<std::pair<size_t, std::string>> lines; size_t at; std::string of;
    Text(const std::string& s, const std::string& of) : all(s), at(0), of(of)
    {
        for (size_t i = 0; i < s.size();) {
            size_t e = s.find('\n', i); if (e == std::string::npos) e = s.size();
            size_t b = i; while (b < e && s[b] == ' ') ++b;
            size_t z = e; while (z > b && s[z - 1] == ' ') --z;
            if (z > b) lines.push_back(std::make_pair(b - i, s.substr(b, z - b)));
            i = e + 1;
        }
    }
    [[noreturn]] void bad(const std::string& what) { vx::fail("text", "%s: %s at line %zu of\n%s", of.c_str(), what.c_str(), at + 1, all.c_str()); }
    std::string next(size_t indent, const char* what)
    {
        if (at == lines.size()) bad(std::string("ends before ") + what);
        if (lines[at].first != indent) bad(vx::fmt("%s is indented by %zu instead of %zu", what, lines[at].first, indent));
        return lines[at++].second;
    }
    void exactly(size_t indent, const std::string& s) { std::string l = next(indent, s.c_str()); if (l != s) { at--; bad("<" + l + "> instead of <" + s + ">"); } }
    bool more(size_t indent) { return at < lines.size() && lines[at].first == indent && lines[at].second != "}"; }
    void end() { if (at != lines.size()) bad("goes on"); }
};
bool traitsAre(const std::string& s, const Traits_& t)
{
    if (s.size() < 3 || s[0] != '[' || s.back() != ']') return false;
    std::multiset<std::string> got; std::string cur;
    for (char c : s.substr(1, s.size() - 2)) { if (c == ' ') { if (!cur.empty()) got.insert(cur); cur.clear(); } else cur += c; }
    if (!cur.empty()) got.insert(cur);
    return got == std::multiset<std::string>(t.begin(), t.end());
}
void traitLine(Text& x, size_t indent, const Traits_& t) { if (t.empty()) return; if (!traitsAre(x.next(indent, "traits"), t)) { x.at--; x.bad("other traits"); } }
void fieldText(Text& x, const std::string& l, const std::string& name, const FieldM& f)
{
    std::string want = vx::fmt("0x%zx: %s %s", f.offset, f.type.c_str(), name.c_str());
    if (f.traits.empty() ? l != want : l.compare(0, want.size() + 1, want + " ") || !traitsAre(l.substr(want.size() + 1), f.traits)) x.bad("<" + l + "> isn't field <" + want + ">");
}
void fnText(Text& x, size_t indent, const FnM& f) { traitLine(x, indent, f.traits); for (auto& s : f.sigs) x.exactly(indent, s); }
void fnsText(Text& x, size_t indent, const std::map<std::string, FnM>& fns)
{
    std::set<std::string> seen;
    for (size_t n = 0; n < fns.size(); ++n) {
        std::string l = x.next(indent, "a function"); auto it = l.back() == ':' ? fns.find(l.substr(0, l.size() - 1)) : fns.end();
        if (it == fns.end() || !seen.insert(l).second) { x.at--; x.bad("<" + l + "> isn't a function, or is one again"); }
        fnText(x, indent + 4, it->second);
    }
}
void typeText(Text& x, size_t indent, const TypeM& m)
{
    x.exactly(indent, "type " + m.id); x.exactly(indent, "{");
    if (m.parent) typeText(x, indent + 4, *m.parent);
    traitLine(x, indent + 4, m.traits);
    std::set<std::string> seen; size_t last = 0;
    for (size_t n = 0; n < m.fields.size(); ++n) {
        std::string l = x.next(indent + 4, "a field"); bool found = false;
        for (auto& f : m.fields) {
            if (seen.count(f.first) || f.second.offset < last || l.find(": " + f.second.type + " " + f.first) == std::string::npos) continue;
            size_t p = l.find(": ") + 2 + f.second.type.size() + 1 + f.first.size(); if (p < l.size() && l[p] != ' ') continue;
            fieldText(x, l, f.first, f.second); last = f.second.offset; seen.insert(f.first); found = true; break;
        }
        if (!found) { x.at--; x.bad("<" + l + "> isn't one of the fields left, in order"); }
    }
    fnsText(x, indent + 4, m.fns);
    x.exactly(indent, "}");
}
void scopeText(Text& x, size_t indent, const ScopeM& m)
{
    x.exactly(indent, m.name.empty() ? "scope" : "scope " + m.name); x.exactly(indent, "{");
    traitLine(x, indent + 4, m.traits); fnsText(x, indent + 4, m.fns);
    std::set<std::string> seen;
    for (size_t n = 0; n < m.types.size(); ++n) {
        std::string l = x.next(indent + 4, "a type");
        if (l.size() < 7 || l.compare(0, 5, "type ") || l.back() != ';' || !m.types.count(l.substr(5, l.size() - 6)) || !seen.insert(l).second) { x.at--; x.bad("<" + l + "> isn't one of the types"); }
    }
    seen.clear();
    for (size_t n = 0; n < m.scopes.size(); ++n) {
        if (x.at == x.lines.size() || x.lines[x.at].second.compare(0, 6, "scope ")) x.bad("lacks a scope");
        auto it = m.scopes.find(x.lines[x.at].second.substr(6));
        if (it == m.scopes.end() || !seen.insert(it->first).second) x.bad("has a scope that wasn't put there");
        scopeText(x, indent + 4, *it->second);
    }
    x.exactly(indent, "}");
}
Lines sorted(Lines v) { std::sort(v.begin(), v.end()); return v; }
template<typename M> Lines keys(const M& m) { Lines v; for (auto& x : m) v.push_back(x.first); return v; }
Lines keys(const std::set<std::string>& m) { return Lines(m.begin(), m.end()); }
void traitsOf(const Traits& t, const Traits_& m, const std::string& of)
{
    VX_CHECK(sorted(t.traits()) == keys(m), "traits", "%s has other traits", of.c_str());
}
void fnIs(const Overloads& o, const FnM& f, const std::string& of)
{
    VX_CHECK(o.size() == f.sigs.size(), "overloads", "%s has %zu overloads", of.c_str(), (size_t) o.size());
    for (size_t i = 0; i < f.sigs.size(); ++i) VX_CHECK(signature(o[i]) == f.sigs[i], "overloads", "overload %zu of %s is <%s>", i, of.c_str(), signature(o[i]).c_str());
    traitsOf(o, f.traits, of);
    for (size_t ind = 0; ind < 10; ind += 3) { Text x(o.print(ind), of); fnText(x, ind, f); x.end(); }
}
void typeIs(const Type& t, const TypeM& m)
{
    VX_CHECK(t.id() == m.id && !t.parent() == !m.parent, "identity", "%s is <%s>, or its parent is another", m.id.c_str(), t.id().c_str());
    traitsOf(t, m.traits, m.id);
    Traits_ fields, fns; for (const TypeM* p = &m; p; p = p->parent) { for (auto& f : p->fields) fields.insert(f.first); for (auto& f : p->fns) fns.insert(f.first); }
    VX_CHECK(t.fields() == keys(fields), "fields", "%s lists %zu fields", m.id.c_str(), t.fields().size());
    VX_CHECK(t.functions() == keys(fns), "functions", "%s lists %zu functions", m.id.c_str(), t.functions().size());
    for (auto& f : m.fields) {
        const Field& r = t.field(f.first); std::string of = m.id + "." + f.first;
        VX_CHECK(r.name() == f.first && r.offset() == f.second.offset && r.type()->id() == f.second.type && r.argument() == Argument(r.type(), RefType::Copy, false), "field", "%s is another field", of.c_str());
        traitsOf(r, f.second.traits, of);
        Text x(r.print(), of); fieldText(x, r.print(), f.first, f.second);
    }
    for (auto& f : m.fns) fnIs(t.function(f.first), f.second, m.id + "." + f.first);
    std::string s = t.print();
    for (size_t ind = 0; ind < 13; ind += 5) { Text x(t.print(ind), m.id); typeText(x, ind, m); x.end(); }
    VX_CHECK(t.print() == s, "again", "%s prints something else the second time", m.id.c_str());
    if (m.parent) typeIs(*t.parent(), *m.parent);
}

/* Registrations. */
std::string clean(double&, const k36::Obj*, bool) { return ""; }
Function fn(const std::string& name, int sig)
{
    switch (sig) {
    case 0: return Function(name, [] () {});
    case 1: return Function(name, [] (int a) { return a; });
    case 2: return Function(name, [] (const k36::Obj& o) -> const int& { return o.a; });
    default: return Function(name, &clean);
    }
}
const char* sigText[] = { "void()", "int(int)", "int const&(k36::Obj const&)", "std::string(double&, k36::Obj*, bool)" };
enum { Sigs = 4 };
struct FieldKind { const char* id; size_t offset; Field (*make)(std::string, size_t); };
const FieldKind fieldKinds[] = { { "int", 0, &Field::make<int> }, { "double", 0x1f8, &Field::make<double> }, { "std::string", 16, &Field::make<std::string> }, { "k36::Obj*", 16, &Field::make<k36::Obj*> } };
const char* fieldNames[] = { "f", "g" }; const char* fnNames[] = { "f", "fn" };
void put(Traits& t, Traits_& m, const char* name, const std::string& of)
{
    bool want = m.count(name), err = vt::errs([&] { t.addTrait(name); });
    VX_CHECK(err == want, "refusal", "trait %s of %s is %s", name, of.c_str(), err ? "refused" : "accepted"); m.insert(name);
}
// One registration on t; what's refused must change nothing and say what it's about.
void op(Type& t, TypeM& m)
{
    std::string what, err; bool want = false, got = false; vx::step();
    switch (vx::choose(5, "op")) {
    case 0: { const FieldKind& k = fieldKinds[vx::choose(4, "kind")]; const char* n = fieldNames[vx::choose(2, "name")];
        what = vx::fmt("field %s %s", k.id, n); want = m.fields.count(n) || m.fns.count(n);
        got = vt::errs([&] { t.addField(n, k.make(n, k.offset)); }, &err);
        if (want) { std::string text = vx::fmt("0x%zx: %s %s", k.offset, k.id, n); VX_CHECK(!got || err.find(text) != std::string::npos, "message", "refusing <%s> in %s says <%s>", text.c_str(), m.id.c_str(), err.c_str()); }
        else m.fields[n] = FieldM{k.id, k.offset, Traits_()};
        break; }
    case 1: { int s = vx::choose(Sigs, "signature"); const char* n = fnNames[vx::choose(2, "name")];
        what = vx::fmt("function %s %s", n, sigText[s]); want = m.fields.count(n); if (m.fns.count(n)) for (auto& x : m.fns[n].sigs) want = want || x == sigText[s];
        got = vt::errs([&] { t.addFunction(n, fn(n, s)); }, &err);
        if (want) VX_CHECK(!got || (err.find(n) != std::string::npos && (m.fields.count(n) ? err.find(m.id) : err.find(sigText[s])) != std::string::npos), "message", "refusing <%s> in %s says <%s>", what.c_str(), m.id.c_str(), err.c_str());
        else m.fns[n].sigs.push_back(sigText[s]);
        break; }
    case 2: { const char* n = vx::flip("name") ? "odd" : "even"; what = std::string("trait ") + n; put(t, m.traits, n, m.id); break; }
    case 3: { vx::assume(m.fields.count("f")); const char* n = vx::flip("name") ? "odd" : "even"; what = std::string("trait of field f: ") + n; put(t.field("f"), m.fields["f"].traits, n, "field f"); break; }
    default: { vx::assume(m.fns.count("f")); const char* n = vx::flip("name") ? "odd" : "even"; what = std::string("trait of function f: ") + n; put(t.function("f"), m.fns["f"].traits, n, "function f"); break; }
    }
    VX_NOTE("%s on %s%s", what.c_str(), m.id.c_str(), want ? " (must be refused)" : "");
    VX_CHECK(got == want, "refusal", "%s of %s is %s", what.c_str(), m.id.c_str(), got ? "refused" : "accepted");
    vx::outcome(want ? "refused" : "registered");
}
uint64_t hash(const TypeM& m, uint64_t h)
{
    h = vx::hashStr(m.id, h); for (auto& x : m.traits) h = vx::hashStr("#" + x, h);
    for (auto& f : m.fields) { h = vx::hashStr(f.first + f.second.type, h); for (auto& x : f.second.traits) h = vx::hashStr("#" + x, h); }
    for (auto& f : m.fns) { h = vx::hashStr(f.first, h); for (auto& x : f.second.sigs) h = vx::hashStr(x, h); for (auto& x : f.second.traits) h = vx::hashStr("#" + x, h); }
    return m.parent ? hash(*m.parent, h) : h;
}
}

VX_SUITE_D(types, 3)
{
    Type top("k36::Top<int, k36::Q>"), mid("Mid"), t("k36::T"); TypeM topM{"k36::Top<int, k36::Q>", nullptr, {}, {}, {}}, midM{"Mid", nullptr, {}, {}, {}}, m{"k36::T", nullptr, {}, {}, {}};
    int above = vx::choose(3, "parents");
    if (above) { t.parent(&mid); m.parent = &midM; mid.addFunction("f", fn("f", 3)); midM.fns["f"].sigs.push_back(sigText[3]); mid.addField("g", Field::make<int>("g", 4)); midM.fields["g"] = FieldM{"int", 4, {}}; }
    if (above == 2) { mid.parent(&top); midM.parent = &topM; top.addTrait("odd"); topM.traits.insert("odd"); }
    int n = vx::choose(vx::pick(4, 5), "length");
    for (int i = 0; i < n; ++i) { if (above == 2 && vx::flip("where")) op(mid, midM); else op(t, m); if (i + 1 == n || vx::tracing()) { typeIs(t, m); } }
    if (!n) typeIs(t, m);
    vx::state(hash(m, 36));
}
VX_SUITE_D(overloads, 2)
{
    static const char* names[] = { "", "f", "a long name for a function" };
    const char* name = names[vx::choose(3, "name")]; Overloads o; FnM m; int n = vx::choose(vx::pick(5, 6), "length");
    for (int i = 0; i < n; ++i) {
        vx::step(); int what = vx::choose(Sigs + 2, "op");
        if (what >= Sigs) { put(o, m.traits, what == Sigs ? "odd" : "even", "a function"); continue; }
        bool want = std::count(m.sigs.begin(), m.sigs.end(), std::string(sigText[what])), got = vt::errs([&] { o.add(fn(name, what)); });
        VX_CHECK(got == want, "refusal", "%s is %s", sigText[what], got ? "refused" : "accepted"); vx::outcome(want ? "refused" : "registered");
        if (!want) m.sigs.push_back(sigText[what]);
    }
    fnIs(o, m, "the function"); VX_CHECK(o.name() == (m.sigs.empty() ? "?" : name), "name", "the function is called %s", o.name().c_str());
    uint64_t h = vx::hashStr(name); for (auto& s : m.sigs) h = vx::hashStr(s, h); for (auto& s : m.traits) h = vx::hashStr("#" + s, h); vx::state(h);
}
namespace {
void scopeIs(const Scope& s, const ScopeM& m, bool whole)
{
    VX_CHECK(s.name() == m.name && sorted(s.types()) == keys(m.types) && sorted(s.functions()) == keys(m.fns) && sorted(s.scopes()) == keys(m.scopes), "scope", "scope <%s> lists other things", m.name.c_str());
    traitsOf(s, m.traits, "scope " + m.name);
    for (auto& f : m.fns) fnIs(s.function(f.first), f.second, m.name + "::" + f.first);
    if (whole) for (int ind = 0; ind < 13; ind += 5) { Text x(s.print(ind), m.name); scopeText(x, ind, m); x.end(); }
    for (auto& c : m.scopes) { const Scope& cs = *s.scope(c.first); VX_CHECK(cs.parent() == &s, "scope", "%s has another parent", c.first.c_str()); scopeIs(cs, *c.second, whole); }
}
ScopeM& in(ScopeM& m, const std::string& n)
{
    size_t c = n.find("::"); std::string h = n.substr(0, c); auto& p = m.scopes[h]; if (!p) { p.reset(new ScopeM); p->name = h; }
    return c == std::string::npos ? *p : in(*p, n.substr(c + 2));
}
}
VX_SUITE_D(scopes, 3)
{
    Scope s; ScopeM m; int n = vx::choose(vx::pick(4, 5), "length");
    static const char* where[] = { "", "a", "b::c" }; static const char* types[] = { "T", "u<x::y>" };
    for (int i = 0; i < n; ++i) {
        std::string w = where[vx::choose(3, "where")], pre = w.empty() ? "" : w + "::"; bool want = false, got = false; vx::step();
        switch (vx::choose(4, "op")) {
        case 0: { vx::assume(!w.empty()); Scope* r = s.scope(w); in(m, w); VX_CHECK(r->id() == w, "scope", "scope %s is %s", w.c_str(), r->id().c_str()); break; }
        case 1: { std::string t = types[vx::choose(2, "type")]; s.addType(pre + t); (w.empty() ? m : in(m, w)).types.insert(t); break; }
        case 2: { int k = vx::choose(3, "signature"); ScopeM& p = w.empty() ? m : in(m, w); auto& f = p.fns["f"].sigs; want = std::count(f.begin(), f.end(), std::string(sigText[k])); got = vt::errs([&] { s.addFunction(pre + "f", fn("f", k)); }); if (!want) f.push_back(sigText[k]); break; }
        default: { ScopeM& p = w.empty() ? m : in(m, w); Scope* r = w.empty() ? &s : s.scope(w); if (p.fns.count("f") && vx::flip("function")) put(r->function("f"), p.fns["f"].traits, "odd", "f"); else put(*r, p.traits, "even", w); }
        }
        VX_CHECK(got == want, "refusal", "operation %d in %s is %s", i, w.c_str(), got ? "refused" : "accepted"); vx::outcome(want ? "refused" : "registered");
    }
    scopeIs(s, m, true); vx::state(vx::hashStr(s.print().substr(0, 0), vx::pathHash()));
}

/* Everything the process knows: the text against the queries. */
namespace {
FnM model(const Overloads& o) { FnM f; for (size_t i = 0; i < o.size(); ++i) f.sigs.push_back(signature(o[i])); for (auto& t : o.traits()) f.traits.insert(t); return f; }
struct TypeMs { std::map<const Type*, std::unique_ptr<TypeM>> all;
    const TypeM* of(const Type* t)
    {
        auto& p = all[t]; if (p) return p.get();
        TypeM* m = new TypeM; p.reset(m); m->id = t->id(); for (auto& x : t->traits()) m->traits.insert(x);
        Type* own = const_cast<Type*>(t);
        for (auto& n : t->fields()) vt::errs([&] { Field& f = own->field(n); FieldM fm{f.type()->id(), f.offset(), {}}; for (auto& x : f.traits()) fm.traits.insert(x); m->fields[n] = fm; });
        for (auto& n : t->functions()) vt::errs([&] { Overloads& o = own->function(n); m->fns[n] = model(o); });
        m->parent = t->parent() ? of(t->parent()) : nullptr; return m;
    } };
ScopeM* model(const Scope& s)
{
    ScopeM* m = new ScopeM; m->name = s.name(); for (auto& x : s.traits()) m->traits.insert(x); for (auto& x : s.types()) m->types.insert(x);
    for (auto& x : s.functions()) m->fns[x] = model(s.function(x)); for (auto& x : s.scopes()) m->scopes[x].reset(model(*s.scope(x)));
    return m;
}
}
VX_SUITE_D(registered, 1)
{
    static Lines ids; static TypeMs* ms = new TypeMs;
    if (ids.empty()) { (void) type<k36::Last>(); (void) type<std::vector<k36::Sub>>(); (void) type<std::shared_ptr<k36::Last>>(); (void) type<std::map<std::string, k36::Obj>>(); (void) type<std::vector<std::vector<int>>>();
        for (int pass = 0; pass < 3; ++pass) for (auto& id : scope()->types(true)) vt::errs([&] { type(id); }); ids = sorted(scope()->types(true)); }
    const Type* t = nullptr; std::string id = ids[vx::choose(ids.size(), "type")]; vx::step(); vx::state(vx::hashStr(id));
    VX_CHECK(!vt::errs([&] { t = type(id); }), "load", "<%s> is listed but can't be had", id.c_str());
    typeIs(*t, *ms->of(t)); vx::outcome(t->fields().empty() ? t->parent() ? "derived" : "plain" : "with fields");
}
VX_SUITE_D(everything, 1)
{
    vx::choose(1, "-"); vx::step(); vx::state(1);
    (void) type<k36::Last>(); Scope* g = scope(); std::unique_ptr<ScopeM> m(model(*g)); scopeIs(*g, *m, true);
    VX_CHECK(m->scopes.count("k36") && m->scopes["k36"]->fns.count("twice") && m->scopes["k36"]->fns.count("global") && m->scopes["k36"]->types.count("Sub"), "k36", "k36 lacks what was put into it");
}
