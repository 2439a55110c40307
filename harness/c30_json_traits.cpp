// C30: aliases, skipped and empty-skipped members and custom parsers decide exactly
// which members a type shows in json, under which name, both ways; names which clash
// are an error and nothing else stops working.
#include "jvals.h"
#include <new>

using namespace reflect;
using js::J; using js::Shape;
typedef json::Writer W;

/* one type whose traits are chosen before it's registered, in a process of its own */
enum Kind { None, AliasX, AliasY, AliasB, Skip, SkipEmpty, AliasSkipEmpty, SkipEmptyAlias, SkipAlias, AliasSkip, AliasAlias, SkipEmptySkip, EmptyTraits, Kinds };
static const char* kindNames[] = { "-", "alias x", "alias y", "alias b", "skip", "skipEmpty", "alias x|skipEmpty", "skipEmpty|alias x", "skip|alias x", "alias x|skip", "alias y|alias x", "skipEmpty|skip", "Traits()" };
static int config[4];
static json::Traits traits(int k)
{
    // alias() doesn't say whether empty values are skipped: the known finding below
    auto set = [] (json::Traits t) { t.skipEmpty = false; return t; };
    json::Traits none; none.skipEmpty = false;
    switch (k) {
    case AliasX: return set(json::alias("x")); case AliasY: return set(json::alias("y")); case AliasB: return set(json::alias("b"));
    case Skip: return set(json::skip()); case SkipEmpty: return json::skipEmpty();
    case AliasSkipEmpty: return set(json::alias("x")) | json::skipEmpty(); case SkipEmptyAlias: return json::skipEmpty() | set(json::alias("x"));
    case SkipAlias: return set(json::skip()) | set(json::alias("x")); case AliasSkip: return set(json::alias("x")) | set(json::skip());
    case AliasAlias: return set(json::alias("y")) | set(json::alias("x")); case SkipEmptySkip: return json::skipEmpty() | set(json::skip());
    default: return none;
    }
}
static bool skips(int k) { return k == Skip || k == SkipAlias || k == AliasSkip || k == SkipEmptySkip; }
static bool skipsEmpty(int k) { return k == SkipEmpty || k == AliasSkipEmpty || k == SkipEmptyAlias || k == SkipEmptySkip; }
static std::string name(int k, const char* field)
{
    switch (k) { case AliasX: case AliasSkipEmpty: case SkipEmptyAlias: case SkipAlias: case AliasSkip: return "x"; case AliasY: case AliasAlias: return "y"; case AliasB: return "b"; default: return field; }
}

struct Base { int64_t z; Base() : z(0) {} };
struct Tr : Base { int64_t a; std::string b; std::vector<int64_t> c; Tr() : a(0) {} };
struct Holder { Tr t; std::vector<Tr> v; int64_t n; Holder() : n(0) {} };
reflectTypeDecl(Base) reflectTypeDecl(Tr) reflectTypeDecl(Holder)
reflectTypeImpl(Base) { reflectPlumbing(); reflectField(z); if (config[3]) reflectFieldValue(z, json, traits(config[3])); }
reflectTypeImpl(Tr)
{
    reflectParent(Base); reflectPlumbing(); reflectField(a); reflectField(b); reflectField(c);
    if (config[0]) reflectFieldValue(a, json, traits(config[0]));
    if (config[1]) reflectFieldValue(b, json, traits(config[1]));
    if (config[2]) reflectFieldValue(c, json, traits(config[2]));
}
reflectTypeImpl(Holder) { reflectPlumbing(); reflectField(t); reflectField(v); reflectField(n); }

static Shape shape()
{
    Shape s(Shape::Obj); typedef js::Sh<int64_t> I;
    if (!skips(config[0])) s.field(name(config[0], "a").c_str(), I::shape(), skipsEmpty(config[0]));
    if (!skips(config[1])) s.field(name(config[1], "b").c_str(), js::Sh<std::string>::shape(), skipsEmpty(config[1]));
    if (!skips(config[2])) s.field(name(config[2], "c").c_str(), js::Sh<std::vector<int64_t>>::shape(), skipsEmpty(config[2]));
    if (!skips(config[3])) s.field(name(config[3], "z").c_str(), I::shape(), skipsEmpty(config[3]));
    return s;
}
static J dump(const Tr& t)
{
    J j(J::Obj); auto add = [&] (int i, const char* f, J v) { if (!skips(config[i])) j.o.push_back(std::make_pair(name(config[i], f), v)); };
    add(0, "a", J::integer(t.a)); add(1, "b", J::string(t.b)); add(2, "c", js::Sh<std::vector<int64_t>>::dump(t.c)); add(3, "z", J::integer(t.z));
    return j;
}
static std::string configText() { std::string s; const char* f[] = { "a", "b", "c", "z" }; for (int i = 0; i < 4; ++i) s += std::string(i ? ", " : "") + f[i] + ": " + kindNames[config[i]]; return s; }

static void works()          // types which have nothing to do with it
{
    Leaf l; json::Error e = json::parse(std::string("{\"i\":3,\"s\":\"x\"}"), l); std::string t = json::print(l).first;
    if (e || l.i != 3 || t != "{\"i\":3,\"s\":\"x\"}") vx::failNow("unusable", "%s: other types can't be read or printed any more", configText().c_str());
}

static void everything()
{
    Shape s = shape(); bool clash = false;
    for (size_t i = 0; i < s.names.size(); ++i) for (size_t k = 0; k < i; ++k) clash = clash || s.names[i] == s.names[k];
    VX_NOTE("%s", configText().c_str());
    if (clash) {
        for (int round = 0; round < 2; ++round) {
            Tr t; Holder h; auto threw = [&] (std::function<void()> f) { try { f(); } catch (const std::exception&) { return true; } return false; };
            vx::step(4);
            if (!threw([&] { json::parse(std::string("{}"), t); })) vx::failNow("clash", "%s: reading isn't reported as an error", configText().c_str());
            if (!threw([&] { json::print(t); })) vx::failNow("clash", "%s: printing isn't reported as an error", configText().c_str());
            if (!threw([&] { json::print(h); }) || !threw([&] { json::parse(std::string("{\"n\":1}"), h); })) vx::failNow("clash", "%s: printing or reading a type which holds it isn't reported as an error", configText().c_str());
            works();
        }
        vx::outcome("clash"); return;
    }
    // printing: every subset of members set, every option
    for (int set = 0; set < 16; ++set) for (int opts = 0; opts < 4; ++opts) for (int in = 0; in < 2; ++in) {
        Tr t; if (set & 1) t.a = 5; if (set & 2) t.b = "s"; if (set & 4) t.c.push_back(6); if (set & 8) t.z = 7;
        std::ostringstream out; W w(out, jr::wopts(opts)); js::Printed want; vx::step();
        if (!in) { json::print(w, t); js::print(s, dump(t), opts, 0, want); }
        else { Holder h; h.t = t; h.n = 1; json::print(w, h); Shape hs(Shape::Obj); hs.field("t", s).field("v", Shape(Shape::Vec, s)).field("n", js::Sh<int64_t>::shape());
            J j(J::Obj); j.o.push_back(std::make_pair("t", dump(t))); j.o.push_back(std::make_pair("v", J(J::Arr))); j.o.push_back(std::make_pair("n", J::integer(1))); js::print(hs, j, opts, 0, want); }
        std::string got = out.str();
        if (w.error() || js::squeeze(got) != js::squeeze(want.text) || (!want.loose && got != want.text)) vx::failNow("printed", "%s: printed as <%s> instead of <%s>", configText().c_str(), vx::show(got).c_str(), vx::show(want.text).c_str());
    }
    // reading: every name, known or not, before and after another
    static const char* names[] = { "a", "b", "c", "z", "x", "y", "X", "" }; static const char* values[] = { "3", "\"q\"", "[4]", "null" };
    for (int n = 0; n < 8; ++n) for (int v = 0; v < 4; ++v) for (int n2 = 0; n2 < 8; ++n2) {
        std::string doc = std::string("{\"") + names[n] + "\":" + values[v] + ",\"" + names[n2] + "\":" + values[v] + "}";
        for (int start = 0; start < 2; ++start) {
            Tr t; if (start) { t.a = 15; t.b = "t"; t.c.push_back(16); t.z = 17; }
            Tr was = t; J want = dump(t); jr::Ref ref(doc); ref.next(); js::read(ref, s, want);
            json::Error e = json::parse(doc, t); vx::step();
            if (bool(e) != ref.bad) vx::failNow("parsed", "%s: <%s> is %s", configText().c_str(), doc.c_str(), e ? e.what() : "accepted");
            if (ref.bad) continue;
            if (!(dump(t) == want)) vx::failNow("parsed", "%s: <%s> gives %s instead of %s", configText().c_str(), doc.c_str(), js::text(dump(t)).c_str(), js::text(want).c_str());
            if ((skips(config[0]) && t.a != was.a) || (skips(config[1]) && t.b != was.b) || (skips(config[2]) && t.c != was.c) || (skips(config[3]) && t.z != was.z)) vx::failNow("skipped", "%s: <%s> changes a member which is skipped", configText().c_str(), doc.c_str());
        }
    }
    works();
    vx::outcome("consistent");
}

VX_SUITE_D(members, 2)
{
    static const int cs[] = { None, AliasX, Skip, SkipEmpty, AliasB }, zs[] = { None, AliasY, Skip, SkipEmpty, AliasB, AliasX };
    config[0] = vx::choose(Kinds, "a"); config[1] = vx::choose(Kinds, "b");
    int n = vx::thorough() ? 5 : 2, m = vx::thorough() ? 6 : 2;
    config[2] = cs[vx::choose(n, "c")]; config[3] = zs[vx::choose(m, "z")];
    vx::isolated([] { everything(); vx::state(vx::hashStr(configText())); });
}

// the combinations of traits
VX_SUITE_D(combine, 2)
{
    auto make = [] (int k) {
        json::Traits t; t.skip = k & 1; t.skipEmpty = k & 2;
        if (k & 4) t.alias = "l" + std::to_string(k); if (k & 8) t.parser = "p" + std::to_string(k); if (k & 16) t.printer = "q" + std::to_string(k); return t; };
    int a = vx::choose(32, "a"), b = vx::choose(32, "b"); json::Traits x = make(a), y = make(b), r = x | y; vx::step();
    auto first = [] (const std::string& p, const std::string& q) { return p.empty() ? q : p; };
    VX_CHECK(r.skip == (x.skip || y.skip) && r.skipEmpty == (x.skipEmpty || y.skipEmpty) && r.alias == first(x.alias, y.alias) && r.parser == first(x.parser, y.parser) && r.printer == first(x.printer, y.printer),
        "combine", "combining traits %d and %d is wrong", a, b);
    json::Traits x2 = make(a), y2 = make(b);
    VX_CHECK(x.alias == x2.alias && x.skip == x2.skip && y.alias == y2.alias && y.parser == y2.parser && x.printer == x2.printer, "combine", "combining traits %d and %d changes them", a, b);
    vx::outcome("combined"); vx::state(a * 32 + b);
}

// what the constructors of traits leave unset
__attribute__((noinline)) static void fill(volatile unsigned char* p, size_t n, unsigned char v) { for (size_t i = 0; i < n; ++i) p[i] = v; asm volatile("" : : "r"(p) : "memory"); }
VX_SUITE_D(unset, 1)
{
    int before = vx::choose(2, "memory"), how = vx::choose(5, "how");
    alignas(json::Traits) unsigned char mem[sizeof(json::Traits)]; fill(mem, sizeof mem, before);
    json::Traits* t = nullptr; vx::step();
    switch (how) {
    case 0: t = new (mem) json::Traits(); break; case 1: t = new (mem) json::Traits(json::alias("n")); break; case 2: t = new (mem) json::Traits(json::skip()); break;
    case 3: t = new (mem) json::Traits(json::custom("p", "q")); break; default: t = new (mem) json::Traits(json::skipEmpty()); break;
    }
    asm volatile("" : : "r"(t) : "memory");
    unsigned char raw = *reinterpret_cast<unsigned char*>(&t->skipEmpty); bool skip = t->skip; std::string alias = t->alias, parser = t->parser;
    t->~Traits();
    vx::state(before * 5 + how); vx::outcome("constructed");
    VX_CHECK(skip == (how == 2), "skip", "the traits %d have the wrong skip", how);
    VX_CHECK(alias == (how == 1 ? "n" : "") && parser == (how == 3 ? "p" : ""), "names", "the traits %d have the wrong names", how);
    VX_CHECK(raw == (how == 4), "skipEmpty-uninitialised", "the traits %d skip empty values or not according to what was in memory before", how);
}

// custom parsers and printers of a type apply wherever the type is used
struct Wrap
{
    int64_t n; Wrap() : n(0) {}
    void in(json::Reader& r) { json::parseArray(r, [&] (size_t) { n += json::parseInt(r); }); }
    void out(W& w) const { json::printArray(w, 2, [&] (size_t i) { json::printInt(w, i ? n : 0); }); }
};
reflectTypeDecl(Wrap)
reflectTypeImpl(Wrap) { reflectPlumbing(); reflectAlloc(); reflectFn(in); reflectFn(out); reflectField(n); json::Traits t = json::custom("in", "out"); t.skipEmpty = false; reflectTypeValue(json, std::move(t)); }
struct Wraps { Wrap w; std::vector<Wrap> v; std::map<std::string, Wrap> m; std::shared_ptr<Wrap> s; Wrap* p; Wraps() : p(nullptr) {} };
reflectTypeDecl(Wraps)
reflectTypeImpl(Wraps) { reflectPlumbing(); reflectField(w); reflectField(v); reflectField(m); reflectField(s); reflectField(p); json::Traits t = json::skipEmpty(); reflectFieldValue(w, json, json::Traits(t)); reflectFieldValue(s, json, json::Traits(t)); }
VX_SUITE_D(customs, 2)
{
    int nv = vx::choose(3, "v"), nm = vx::choose(3, "m"), s = vx::choose(2, "s"), p = vx::choose(2, "p"), w = vx::choose(2, "w") * 9, compact = vx::choose(2, "compact");
    Wraps x; x.w.n = w; std::string want = "{"; auto item = [] (int64_t n) { return "[0," + std::to_string(n) + "]"; };
    want += compact && !nm ? "" : "\"m\":{"; for (int i = 0; i < nm; ++i) { x.m[std::to_string(i)].n = 20 + i; want += (i ? ",\"" : "\"") + std::to_string(i) + "\":" + item(20 + i); } if (!compact || nm) want += "},";
    if (p) { x.p = new Wrap; x.p->n = 30; } if (p || !compact) want += "\"p\":" + (p ? item(30) : "null") + ",";
    if (s) { x.s = std::make_shared<Wrap>(); x.s->n = 40; want += "\"s\":" + item(40) + ","; }
    if (nv || !compact) want += "\"v\":["; for (int i = 0; i < nv; ++i) { x.v.emplace_back(); x.v.back().n = 10 + i; want += (i ? "," : "") + item(10 + i); } if (nv || !compact) want += "],";
    want += "\"w\":" + item(w) + "}";
    std::ostringstream out; W wr(out, jr::wopts(compact ? jr::WCompact : jr::WNone)); json::print(wr, x); vx::step();
    VX_CHECK(!wr.error() && out.str() == want, "custom", "<%s> is printed instead of <%s>", out.str().c_str(), want.c_str());
    Wraps y; json::Error e = json::parse(out.str(), y); vx::step();
    bool same = !e && y.w.n == w && y.v.size() == x.v.size() && y.m.size() == x.m.size() && bool(y.s) == bool(s) && bool(y.p) == bool(p);
    for (int i = 0; same && i < nv; ++i) same = y.v[i].n == 10 + i;
    for (int i = 0; same && i < nm; ++i) same = y.m[std::to_string(i)].n == 20 + i;
    same = same && (!s || y.s->n == 40) && (!p || y.p->n == 30);
    VX_CHECK(same, "custom", "<%s> doesn't read back", out.str().c_str());
    delete x.p; delete y.p; vx::outcome("custom"); vx::state(vx::hashStr(want));
}

// parsers and printers that can't be used: an error every time, nothing else suffers
struct Broken { int64_t n; Broken() : n(0) {} void ok(json::Reader&) {} void wrong(int) {} };
struct HasBroken { int64_t a; Leaf l; Broken b; HasBroken() : a(0) {} };
static int broken;
reflectTypeDecl(Broken) reflectTypeDecl(HasBroken)
reflectTypeImpl(Broken)
{
    reflectPlumbing(); reflectFn(ok); reflectFn(wrong); reflectField(n);
    static const char* names[] = { "missing", "wrong", "ok" };
    json::Traits t = json::custom(names[broken], names[broken]); t.skipEmpty = false; reflectTypeValue(json, std::move(t));
}
reflectTypeImpl(HasBroken) { reflectPlumbing(); reflectField(a); reflectField(l); reflectField(b); }
VX_SUITE_D(broken, 1)
{
    broken = vx::choose(3, "how"); static int order; order = vx::choose(16, "order");
    vx::isolated([] {
        auto threw = [&] (std::function<void()> f) { try { f(); } catch (const std::exception&) { return true; } return false; };
        for (int round = 0; round < 3; ++round) for (int i = 0; i < 4; ++i) {
            int what = (order >> (i % 2 * 2) & 3) ^ i; HasBroken h; Broken b; bool bad = false, want = true; vx::step();
            switch (what) {
            case 0: bad = threw([&] { json::parse(std::string("{\"a\":1,\"l\":{\"i\":2}}"), h); }); want = broken != 2; break;
            case 1: bad = threw([&] { json::print(h); }); break;
            case 2: bad = threw([&] { json::parse(std::string("1"), b); }); want = broken != 2; break;
            default: bad = threw([&] { json::print(b); }); break;
            }
            if (bad != want) vx::failNow("broken", "a custom function which is %s: use %d %s", broken == 0 ? "missing" : broken == 1 ? "of the wrong type" : "for reading only", what, bad ? "is an error" : "isn't reported as an error");
            works();
        }
        vx::outcome("reported");
    });
}

// the traits themselves are reflected: their fields are what the functions set
VX_SUITE_D(reflected, 1)
{
    json::Traits t; t.skipEmpty = false; int n = 1 + vx::choose(3, "calls"); bool skip = false; std::string s[3];
    static const char* const fields[] = { "alias", "parser", "printer" };
    for (int i = 0; i < n; ++i) {
        int what = vx::choose(3, "trait"); bool direct = vx::choose(2, "direct"); std::string a = "a" + std::to_string(i), b = "b" + std::to_string(i); vx::step();
        if (direct) {
            json::Traits u = what == 0 ? json::skip() : what == 1 ? json::alias(a) : json::custom(a, b);
            u.skipEmpty = false; t = t | u;
            if (what == 0) skip = true; else if (what == 1) { if (s[0].empty()) s[0] = a; } else { if (s[1].empty()) s[1] = a; if (s[2].empty()) s[2] = b; }
        }
        else {
            Value v(t);
            if (what == 0) { v.field("skip").assign(!skip); skip = !skip; }
            else if (what == 1) { v.field("alias").assign(a); s[0] = a; }
            else { v.field("parser").assign(a); v.field("printer").assign(b); s[1] = a; s[2] = b; }
        }
        Value v(t); const json::Traits& c = t; Value cv(c); Value copy = v.copy(); VX_NOTE("after call %d", i);
        for (Value* from : { &v, &cv, &copy }) {
            VX_CHECK(from->field<bool>("skip") == skip && t.skip == skip, "reflected", "skip is %d instead of %d", int(from->field<bool>("skip")), int(skip));
            for (int f = 0; f < 3; ++f) VX_CHECK(from->field<std::string>(fields[f]) == s[f], "reflected", "%s is <%s> instead of <%s>", fields[f], from->field<std::string>(fields[f]).c_str(), s[f].c_str());
        }
        VX_CHECK(t.alias == s[0] && t.parser == s[1] && t.printer == s[2], "reflected", "<%s> <%s> <%s>", t.alias.c_str(), t.parser.c_str(), t.printer.c_str());
        vx::state(vx::hashStr(s[0] + "/" + s[1] + "/" + s[2] + (skip ? "+" : "-")));
    }
    vx::outcome("reflected");
}
