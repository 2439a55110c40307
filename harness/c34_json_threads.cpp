// C34: parsing and printing from several threads at once: every interleaving, within a
// preemption bound, of first uses and later uses gives each thread what it would get
// alone; a type which can't be parsed or printed is an error for whoever asks, and only
// for them.
#include "jtypes.h"
#include "mc.h"

using namespace reflect;

struct Tree { int64_t i; std::vector<Tree> kids; std::shared_ptr<Tree> next; Tree() : i(0) {} };
struct Mid { Tree t; Leaf l; };
struct Bad { int64_t a, b; Bad() : a(0), b(0) {} };
struct HasBad { Leaf l; Bad bad; };
reflectType(Tree) { reflectPlumbing(); reflectAlloc(); reflectField(i); reflectField(kids); reflectField(next); }
reflectType(Mid) { reflectPlumbing(); reflectField(t); reflectField(l); }
reflectTypeDecl(Bad)
reflectTypeImpl(Bad) { reflectPlumbing(); reflectField(a); reflectField(b); json::Traits t = json::alias("a"); t.skipEmpty = false; reflectFieldValue(b, json, std::move(t)); }
reflectType(HasBad) { reflectPlumbing(); reflectField(l); reflectField(bad); }

enum Op { PLeaf, WLeaf, PVec, WVec, PTree, WTree, PMid, WMid, PAny, PMap, WMap, PBad, WBad, PHasBad, WHasBad, PCustom, WCustom, PInt, WStr, NOps };
static const char* names[] = { "parse Leaf", "print Leaf", "parse vector<Leaf>", "print vector<Leaf>", "parse Tree", "print Tree", "parse Mid", "print Mid", "parse Value", "parse map", "print map", "parse Bad", "print Bad", "parse HasBad", "print HasBad", "parse Custom", "print Custom", "parse int", "print string" };
static bool throws(std::function<void()> f) { try { f(); } catch (const reflect::Error&) { return true; } return false; }

static void use(int op, int th)
{
    std::string n = std::to_string(th + 1); json::Error e; std::string text; bool ok = true;
    switch (op) {
    case PLeaf: { Leaf l; e = json::parse("{\"i\":" + n + ",\"s\":\"x" + n + "\"}", l); ok = l.i == th + 1 && l.s == "x" + n; break; }
    case WLeaf: { Leaf l; l.i = th + 1; l.s = n; auto p = json::print(l); e = p.second; ok = p.first == "{\"i\":" + n + ",\"s\":\"" + n + "\"}"; text = p.first; break; }
    case PVec: { std::vector<Leaf> v; e = json::parse("[{\"i\":" + n + "},{\"z\":[1]}]", v); ok = v.size() == 2 && v[0].i == th + 1; break; }
    case WVec: { std::vector<Leaf> v(1); v[0].i = th + 1; auto p = json::print(v); e = p.second; ok = p.first == "[{\"i\":" + n + ",\"s\":\"\"}]"; break; }
    case PTree: { Tree t; e = json::parse("{\"kids\":[{\"i\":" + n + "}],\"next\":{\"i\":5}}", t); ok = t.kids.size() == 1 && t.kids[0].i == th + 1 && t.next && t.next->i == 5; break; }
    case WTree: { Tree t; t.i = th + 1; t.kids.resize(1); auto p = json::print(t); e = p.second; ok = p.first == "{\"i\":" + n + ",\"kids\":[{\"i\":0,\"kids\":[],\"next\":null}],\"next\":null}"; break; }
    case PMid: { Mid m; e = json::parse("{\"l\":{\"i\":" + n + "},\"t\":{\"i\":6}}", m); ok = m.l.i == th + 1 && m.t.i == 6; break; }
    case WMid: { Mid m; m.l.i = th + 1; auto p = json::print(m); e = p.second; ok = p.first == "{\"l\":{\"i\":" + n + ",\"s\":\"\"},\"t\":{\"i\":0,\"kids\":[],\"next\":null}}"; break; }
    case PAny: { Value v; std::string d = "{\"a\":[" + n + "],\"b\":null}"; e = json::parse(d, v); bool b, u; ok = jr::same(v, jr::parse(d, b, u)); break; }
    case PMap: { std::map<std::string, int64_t> m; e = json::parse("{\"k\":" + n + "}", m); ok = m.size() == 1 && m["k"] == th + 1; break; }
    case WMap: { std::map<std::string, int64_t> m; m["k"] = th + 1; auto p = json::print(m); e = p.second; ok = p.first == "{\"k\":" + n + "}"; break; }
    case PBad: { Bad b; ok = throws([&] { json::parse(std::string("{}"), b); }); break; }
    case WBad: { Bad b; ok = throws([&] { json::print(b); }); break; }
    case PHasBad: { HasBad b; ok = throws([&] { json::parse(std::string("{\"l\":{}}"), b); }); break; }
    case WHasBad: { HasBad b; ok = throws([&] { json::print(b); }); break; }
    case PCustom: { Custom2 c; e = json::parse("\"" + n + "\"", c); ok = c.a == th + 1; break; }
    case WCustom: { Custom2 c; c.a = th + 1; auto p = json::print(c); e = p.second; ok = p.first == "\"" + n + "\""; break; }
    case PInt: { int64_t i = 0; e = json::parse(n, i); ok = i == th + 1; break; }
    case WStr: { std::string s = "a\xC3\xA9" + n; auto p = json::print(s); e = p.second; ok = p.first == "\"a\\u00e9" + n + "\""; break; }
    }
    VX_CHECK(ok && !e, "result", "%s in thread %d goes wrong: %s %s", names[op], th, e ? e.what() : "", text.c_str());
}
static void guarded(int op, int th)
{
    try { use(op, th); } catch (const reflect::Error& e) { vx::fail("error", "%s in thread %d fails: %s", names[op], th, e.what()); }
}
// the types themselves loaded beforehand: what's raced for is json's own
static void load() { type<Leaf>(); type<std::vector<Leaf>>(); type<Tree>(); type<Mid>(); type<Bad>(); type<HasBad>(); type<Custom2>(); type<std::map<std::string, int64_t>>(); type<json::Traits>(); type<json::Reader>(); type<json::Writer>(); type<std::shared_ptr<Tree>>(); type<Value>(); }

static void pair(bool loaded, bool warm, int a, int b, int bound)
{
    VX_NOTE("thread 0: %s, thread 1: %s%s%s", names[a], names[b], loaded ? ", types loaded" : "", warm ? ", used before" : "");
    if (loaded) load();
    if (warm) { guarded(a, 0); if (b != a) guarded(b, 1); }
    mc::run({ [=] { guarded(a, 0); }, [=] { guarded(b, 1); } }, bound);
    guarded(a, 2); guarded(b, 3); guarded(PLeaf, 4); guarded(WLeaf, 5);
    vx::outcome("independent");
}

// first uses, the types being known
VX_SUITE_D(first, 2)
{
    int a = vx::choose(NOps, "thread 0"), b = a + vx::choose(NOps - a, "thread 1");
    vx::isolated([&] { pair(true, false, a, b, vx::pick(1, 2)); });
}
VX_SUITE_D(later, 2)
{
    int a = vx::choose(NOps, "thread 0"), b = a + vx::choose(NOps - a, "thread 1");
    vx::isolated([&] { pair(true, true, a, b, vx::pick(1, 2)); });
}
// everything for the first time
VX_SUITE_D(scratch, 2)
{
    int a = vx::choose(NOps, "thread 0"), b = a + vx::choose(NOps - a, "thread 1");
    vx::isolated([&] { pair(false, false, a, b, vx::pick(0, 1)); });
}
// two uses each: one may fail and the next must not notice
VX_SUITE_D(sequences, 2)
{
    static const int some[] = { PLeaf, WVec, PHasBad, WHasBad, PMid, WTree };
    int n = vx::pick(4, 6), a = some[vx::choose(n, "thread 0")], a2 = some[vx::choose(n, "then")], b = some[vx::choose(n, "thread 1")], b2 = some[vx::choose(n, "then")];
    vx::isolated([&] {
        load(); VX_NOTE("thread 0: %s, %s; thread 1: %s, %s", names[a], names[a2], names[b], names[b2]);
        mc::run({ [=] { guarded(a, 0); guarded(a2, 1); }, [=] { guarded(b, 2); guarded(b2, 3); } }, vx::pick(0, 1));
        for (int i = 0; i < 6; ++i) guarded(some[i], 4);
        vx::outcome("independent");
    });
}
VX_SUITE_D(triples, 2)
{
    static const int some[] = { PLeaf, WLeaf, PTree, PHasBad, WHasBad, PMid, WMap };
    int a = vx::choose(7, "thread 0"), b = a + vx::choose(7 - a, "thread 1"), c = b + vx::choose(7 - b, "thread 2");
    a = some[a]; b = some[b]; c = some[c];
    vx::isolated([&] {
        load(); VX_NOTE("threads: %s, %s, %s", names[a], names[b], names[c]);
        mc::run({ [=] { guarded(a, 0); }, [=] { guarded(b, 1); }, [=] { guarded(c, 2); } }, vx::pick(0, 1));
        for (int i = 0; i < 7; ++i) guarded(some[i], 4);
        vx::outcome("independent");
    });
}
