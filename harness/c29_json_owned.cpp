// C29: what json reads or prints through raw, shared and unique pointers is created once,
// lives as long as its owner and is destroyed once; objects that are there are reused.
#include "jtypes.h"

using namespace reflect;
using vt::life; using vt::checkLife;

struct Node : vt::TrackedT<29>
{
    int64_t i; std::shared_ptr<Node> s; std::unique_ptr<Node> u; std::vector<std::shared_ptr<Node>> v; std::map<std::string, std::shared_ptr<Node>> m;
    Node() : i(0) {}
    Node(const Node& o) : vt::TrackedT<29>(o), i(o.i), s(o.s), v(o.v), m(o.m) {}
    Node& operator=(const Node& o) { vt::TrackedT<29>::operator=(o); i = o.i; s = o.s; v = o.v; m = o.m; return *this; }
};
reflectType(Node) { reflectPlumbing(); reflectAlloc(); reflectField(i); reflectField(s); reflectField(u); reflectField(v); reflectField(m); }

// the nodes that can be reached
static void reach(const Node* n, std::set<const Node*>& all)
{
    if (!n || !all.insert(n).second) return;
    reach(n->s.get(), all); reach(n->u.get(), all);
    for (auto& x : n->v) reach(x.get(), all);
    for (auto& x : n->m) reach(x.second.get(), all);
}
static void audit(const Node& root, size_t extra, const std::string& what)
{
    checkLife();
    std::set<const Node*> all; reach(&root, all);
    for (auto n : all) VX_CHECK(life().live.count(static_cast<const vt::TrackedT<29>*>(n)), "dangling", "after %s the tree holds a destroyed object", what.c_str());
    VX_CHECK(life().live.size() == all.size() + extra, "leak", "after %s there are %zu live objects where %zu can be reached", what.c_str(), life().live.size(), all.size() + extra);
}
static std::string show(const Node& n, int depth = 0)
{
    std::string r = "(" + std::to_string(n.i); if (depth > 6) return r + "...)";
    if (n.s) r += " s" + show(*n.s, depth + 1); if (n.u) r += " u" + show(*n.u, depth + 1);
    for (auto& x : n.v) r += x ? " v" + show(*x, depth + 1) : " v-"; for (auto& x : n.m) r += " " + x.first + (x.second ? show(*x.second, depth + 1) : "-");
    return r + ")";
}

static std::string document(int depth)
{
    static const char* leaf[] = { "null", "{}", "{\"i\":1}", "{\"s\":null,\"u\":null}" };
    int c = vx::choose(depth ? 9 : 4, "document");
    if (c < 4) return leaf[c];
    std::string d = document(depth - 1);
    switch (c) {
    case 4: return "{\"s\":" + d + "}"; case 5: return "{\"u\":" + d + ",\"i\":2}"; case 6: return "{\"v\":[" + d + ",null," + d + "]}";
    case 7: return "{\"m\":{\"a\":" + d + ",\"b\":" + d + "}}"; default: return "{\"s\":" + d + ",\"u\":" + d + ",\"s\":" + d + "}";
    }
}

VX_SUITE_D(trees, 3)
{
    life().reset(); std::string history;
    {
        Node root; std::shared_ptr<Node> kept; int n = 1 + vx::choose(vx::pick(2, 3), "documents");
        for (int i = 0; i < n; ++i) {
            std::string d = document(i ? 1 : vx::pick(2, 2)); history += d + " ";
            const Node* s = root.s.get(); const Node* u = root.u.get(); bool keeps = root.s && vx::choose(2, "keep"); if (keeps) kept = root.s;
            json::Error e = json::parse(d, root); vx::step();
            VX_CHECK(!e, "refused", "<%s> is refused: %s", d.c_str(), e.what());
            VX_CHECK((!s || !root.s || root.s.get() == s || d.find("\"s\":null") != std::string::npos) && (!u || !root.u || root.u.get() == u || d.find("\"u\":null") != std::string::npos), "replaced", "reading %sreplaces an object that was there", history.c_str());
            std::set<const Node*> mine; reach(&root, mine); std::set<const Node*> other; reach(kept.get(), other); size_t extra = 0; for (auto x : other) extra += !mine.count(x);
            audit(root, extra, "reading " + history);
            std::string before = show(root); std::pair<std::string, json::Error> p = json::print(root); vx::step();
            VX_CHECK(!p.second && show(root) == before, "changed", "printing changes %s to %s", before.c_str(), show(root).c_str());
            audit(root, extra, "printing");
            Node copy; json::Error e2 = json::parse(p.first, copy); vx::step();
            VX_CHECK(!e2 && show(copy) == before, "back", "<%s>, printed for %s, reads back as %s", p.first.c_str(), before.c_str(), show(copy).c_str());
            vx::state(vx::hashStr(before, keeps));
        }
        VX_NOTE("%s: %s", history.c_str(), show(root).c_str());
    }
    checkLife(); VX_CHECK(life().live.empty(), "leak", "reading %sleaves %zu objects behind", history.c_str(), life().live.size());
    vx::outcome("owned");
}

// documents which stop anywhere: what was created is owned by the tree or gone
VX_SUITE_D(errors, 3)
{
    static const char* docs[] = { "{\"s\":{\"i\":1,\"u\":{\"v\":[{\"i\":2},{\"s\":{}}]}},\"m\":{\"k\":{\"i\":3},\"l\":null}}", "{\"u\":{\"u\":{\"u\":{\"i\":1}}},\"v\":[{\"m\":{\"x\":{}}}]}", "{\"v\":[{\"i\":1},{\"i\":2},{\"i\":\"x\"}],\"s\":{}}" };
    static const char repl[] = "{}[],:\"x1n";
    std::string d = docs[vx::choose(3, "document")]; int at = vx::choose(d.size(), "at"), how = vx::choose(1 + sizeof repl - 1, "how"), start = vx::choose(2, "start");
    if (!how) d = d.substr(0, at); else d[at] = repl[how - 1];
    life().reset();
    {
        Node root; if (start) { root.s = std::make_shared<Node>(); root.u.reset(new Node); root.v.push_back(root.s); }
        std::string thrown; json::Error e;
        try { e = json::parse(d, root); vx::step(); } catch (const std::exception& x) { thrown = x.what(); }
        VX_CHECK(thrown.empty(), "exception", "<%s> throws <%s>", d.c_str(), thrown.c_str());
        audit(root, 0, "reading " + d); vx::state(vx::hashStr(d, start)); vx::outcome(e ? "error" : "read");
    }
    checkLife(); VX_CHECK(life().live.empty(), "leak", "reading <%s> leaves %zu objects behind", d.c_str(), life().live.size());
}

// pointers of every kind as targets of their own
template<typename P> static void target(P& p, bool owned, const char* kind)
{
    std::string all;
    for (int i = 0; i < 3; ++i) {
        static const char* docs[] = { "null", "{}", "{\"i\":4}", "{\"i\":5,\"s\":{\"i\":6}}", "{\"i\":\"x\"}", "7" };
        std::string d = docs[vx::choose(6, "document")]; all += d + " "; bool had = bool(p); const Node* was = had ? &*p : nullptr; int64_t i0 = had ? was->i : 0;
        json::Error e = json::parse(d, p); vx::step();
        bool bad = d == "7" || d == "{\"i\":\"x\"}";
        VX_CHECK(bool(e) == bad, bad ? "accepted" : "refused", "<%s> is %s", d.c_str(), bad ? "accepted" : "refused");
        if (d == "null") VX_CHECK(!p, "null", "null doesn't reset the %s pointer", kind);
        else if (!bad) {
            VX_CHECK(p, "unset", "reading %sleaves the %s pointer null", all.c_str(), kind);
            VX_CHECK(!had || &*p == was, "replaced", "reading %sreplaces the object held by the %s pointer", all.c_str(), kind);
            int64_t want = d == "{}" ? i0 : d == "{\"i\":4}" ? 4 : 5;
            VX_CHECK(p->i == want, "value", "reading %sgives %ld instead of %ld", all.c_str(), p->i, want);
        }
        checkLife(); if (p) VX_CHECK(life().live.count(static_cast<const vt::TrackedT<29>*>(&*p)), "dangling", "after reading %sthe %s pointer dangles", all.c_str(), kind);
        if (!owned && had && !p) delete was;
        vx::state(vx::hashStr(all, vx::hashStr(kind)));
    }
    vx::outcome(kind);
}
VX_SUITE_D(pointers, 2)
{
    life().reset(); int kind = vx::choose(3, "kind"), set = vx::choose(2, "set");
    {
        if (kind == 0) { Node* p = set ? new Node : nullptr; target(p, false, "raw"); delete p; }
        else if (kind == 1) { std::shared_ptr<Node> p; if (set) p = std::make_shared<Node>(); target(p, true, "shared"); }
        else { std::unique_ptr<Node> p; if (set) p.reset(new Node); target(p, true, "unique"); }
    }
    checkLife(); VX_CHECK(life().live.empty(), "leak", "%zu objects are left behind", life().live.size());
}

// raw pointers in containers: one object per item, none shared, none lost
struct Raws { std::vector<Node*> v; std::map<std::string, Node*> m; };
reflectType(Raws) { reflectPlumbing(); reflectField(v); reflectField(m); }
VX_SUITE_D(raws, 2)
{
    life().reset(); Raws r; std::string d = "{\"v\":["; int n = vx::choose(4, "items"), k = vx::choose(4, "entries"); size_t want = 0;
    for (int i = 0; i < n; ++i) { int null = vx::choose(2, "null"); d += std::string(i ? "," : "") + (null ? "null" : "{\"i\":" + std::to_string(i) + "}"); want += !null; }
    d += "],\"m\":{"; for (int i = 0; i < k; ++i) { int null = vx::choose(2, "null"); d += (i ? ",\"" : "\"") + std::to_string(i) + "\":" + (null ? "null" : "{\"i\":" + std::to_string(i) + "}"); want += !null; }
    d += "}}"; json::Error e = json::parse(d, r); vx::step();
    VX_CHECK(!e, "refused", "<%s> is refused: %s", d.c_str(), e.what());
    std::set<const Node*> all; for (auto x : r.v) if (x) all.insert(x); for (auto& x : r.m) if (x.second) all.insert(x.second);
    VX_CHECK(all.size() == want && life().live.size() == want, "leak", "<%s> gives %zu objects, %zu of them held, instead of %zu", d.c_str(), life().live.size(), all.size(), want);
    for (size_t i = 0; i < r.v.size(); ++i) VX_CHECK(!r.v[i] || r.v[i]->i == int64_t(i), "value", "<%s>: item %zu is wrong", d.c_str(), i);
    std::pair<std::string, json::Error> p = json::print(r);
    VX_CHECK(!p.second && life().live.size() == want, "changed", "printing <%s> creates or destroys objects", d.c_str());
    for (auto x : all) delete x;
    checkLife(); vx::state(vx::hashStr(d)); vx::outcome("raw");
}
