// C24: a document read into a typed target does to it exactly what its fields say:
// members set in place, unknown ones skipped whatever they hold, items appended, entries
// set, pointers filled or reset; what doesn't fit the type is an error.
#include "jtypes.h"
#include "jgen.h"

using namespace reflect;
using js::J; using js::Shape;

// After an error there's nothing but what was there and what was read before it;
// what was being read may or may not have been set.
static void scalars(const J& v, std::set<std::string>& into)
{
    if (v.k != J::Arr && v.k != J::Obj) into.insert(js::text(v));
    for (auto& x : v.a) scalars(x, into);
    for (auto& x : v.o) scalars(x.second, into);
}
static bool noMore(const js::Shape& s, const J& got, const J& want, const std::set<std::string>& known)
{
    if (s.k == js::Shape::Ptr) return got.k == J::Null || (want.k != J::Null && noMore(s.in[0], got, want, known));
    if (got.k != want.k) return false;
    if (s.k == js::Shape::Vec) {
        if (got.a.size() > want.a.size()) return false;
        for (size_t i = 0; i < got.a.size(); ++i) if (!(got.a[i] == want.a[i])) return false;
        return true;
    }
    if (got.k != J::Obj) return known.count(js::text(got));
    for (size_t i = 0; i < got.o.size(); ++i) {
        bool there = false;
        for (auto& w : want.o) there = there || w.first == got.o[i].first;
        if (!there || (s.k != js::Shape::Map && !noMore(s.in[i], got.o[i].second, want.o[i].second, known))) return false;
    }
    return true;
}

// v starts as `before`; both v and the model read the document
template<typename T>
static void check(const std::string& doc, const J& before, int opts = jr::RDefault)
{
    Shape s = js::Sh<T>::shape();
    T v = T(); js::Sh<T>::load(v, before);
    jr::Ref ref(doc, opts); J want = before;
    ref.next(); js::read(ref, s, want); js::sortMaps(s, want);
    VX_NOTE("%s reads <%s>", js::text(before).c_str(), vx::show(doc).c_str());
    std::istringstream in(doc); json::Reader r(in, jr::ropts(opts)); std::string thrown;
    try { vx::step(); json::parse(r, v); } catch (const std::exception& e) { thrown = e.what(); }
    vx::state(vx::hashStr(doc, vx::hashStr(js::text(before))));
    VX_CHECK(thrown.empty(), "exception", "<%s> throws <%s>", vx::show(doc).c_str(), thrown.c_str());
    if (ref.unjudged && !ref.bad) { vx::outcome("unjudged"); return; }
    VX_CHECK(ref.bad || !r.error(), "refused", "<%s> is refused: %s", vx::show(doc).c_str(), r.error().what());
    VX_CHECK(!ref.bad || r.error(), "accepted", "<%s> is accepted and gives %s", vx::show(doc).c_str(), js::text(js::dump(v)).c_str());
    J got = js::dump(v);
    if (ref.bad) {
        std::set<std::string> known; scalars(before, known); scalars(want, known);
        known.insert(js::text(J::integer(0))); known.insert(js::text(J::real(0))); known.insert(js::text(J::boolean(false))); known.insert(js::text(J::string("")));
        VX_CHECK(ref.unjudged || noMore(s, got, want, known), "after-error", "%s reads <%s> up to its error and becomes %s, which isn't part of %s", js::text(before).c_str(), vx::show(doc).c_str(), js::text(got).c_str(), js::text(want).c_str());
        vx::outcome("refused"); return;
    }
    VX_CHECK(got == want, "value", "%s reads <%s> and becomes %s instead of %s", js::text(before).c_str(), vx::show(doc).c_str(), js::text(got).c_str(), js::text(want).c_str());
    vx::outcome("accepted");
}

template<typename T> static J before(int n)
{
    Shape s = js::Sh<T>::shape(); J j = s.fresh();
    if (!n) return j;
    struct Fill { static void fill(const Shape& s, J& j, int& k) {
        switch (s.k) {
        case Shape::Bool: j.b = true; break; case Shape::Int: j = J::integer(++k); break; case Shape::Float: j = J::real(++k + .5); break; case Shape::Str: j.s = "s" + std::to_string(++k); break;
        case Shape::Vec: j.a.push_back(s.in[0].fresh()); fill(s.in[0], j.a[0], k); break;
        case Shape::Map: j.o.push_back(std::make_pair("a", s.in[0].fresh())); fill(s.in[0], j.o[0].second, k); break;
        case Shape::Ptr: j = s.in[0].fresh(); fill(s.in[0], j, k); break;
        case Shape::Obj: for (size_t i = 0; i < s.in.size(); ++i) fill(s.in[i], j.o[i].second, k); break;
        default: break;
        } } };
    int k = 100; Fill::fill(s, j, k);
    return j;
}

typedef std::map<std::string, Leaf> MapLeaf;
enum { Targets = 14 };
static void target(int n, const std::string& doc, int start, int opts = jr::RDefault)
{
    switch (n) {
    case 0: check<Doc>(doc, before<Doc>(start), opts); break;
    case 1: check<Leaf>(doc, before<Leaf>(start), opts); break;
    case 2: check<std::vector<Leaf>>(doc, before<std::vector<Leaf>>(start), opts); break;
    case 3: check<MapLeaf>(doc, before<MapLeaf>(start), opts); break;
    case 4: check<Ptrs>(doc, before<Ptrs>(start), opts); break;
    case 5: check<Deep>(doc, before<Deep>(start), opts); break;
    case 6: check<bool>(doc, before<bool>(start), opts); break;
    case 7: check<int64_t>(doc, before<int64_t>(start), opts); break;
    case 8: check<double>(doc, before<double>(start), opts); break;
    case 9: check<std::string>(doc, before<std::string>(start), opts); break;
    case 10: check<Nothing>(doc, before<Nothing>(start), opts); break;
    case 11: check<std::shared_ptr<Leaf>>(doc, before<std::shared_ptr<Leaf>>(start), opts); break;
    case 12: check<std::unordered_map<std::string, std::vector<double>>>(doc, before<std::unordered_map<std::string, std::vector<double>>>(start), opts); break;
    default: check<int64_t*>(doc, before<int64_t*>(start), opts); break;
    }
}

// every token sequence
VX_SUITE_D(tokens, 3)
{
    static const std::vector<std::string> t = { "{", "}", "[", "]", ",", ":", "\"i\"", "\"s\"", "\"a\"", "1", "1.5", "true", "null" };
    int n = vx::choose(Targets, "target"), start = vx::choose(2, "start");
    target(n, jg::generate(t, vx::pick(5, 7), vx::pick(1, 2), jr::RDefault, true).text, start);
}

// a value of every kind for every field of every type, alone, first, last, repeated
VX_SUITE_D(fields, 3)
{
    static const char* kinds[] = { "null", "true", "false", "0", "-3", "2.5", "1e2", "9223372036854775808", "1e999", "\"\"", "\"t\"", "[]", "[4]", "[4,5.5]", "[\"u\"]", "[null]", "[[\"w\"]]", "[[]]", "[{}]", "[{\"i\":6}]", "[true]",
        "{}", "{\"i\":7}", "{\"s\":\"v\",\"i\":8}", "{\"k\":9}", "{\"k\":null}", "{\"k\":[1]}", "{\"k\":{\"i\":1}}", "{\"k\":true}", "{\"a\":1,\"a\":2}", "{\"i\":1.5}", "{\"z\":[{}]}", "[{\"e\":true}]" };
    static const char* names[][9] = { { "b", "i", "f", "s", "o", "v", "m", "zz", 0 }, { "i", "s", "", 0 }, { "p", "q", "sh", "sv", "vs", "mp", 0 }, { "vo", "mo", "vv", "mv", "vm", 0 }, { "a", 0 } };
    static const int types[] = { 0, 1, 4, 5, 3 };
    int n = vx::choose(5, "type"), start = vx::choose(2, "start"), count = 0; while (names[n][count]) count++;
    std::string doc = "{"; int fields = 1 + vx::choose(2, "fields");
    int shape = vx::choose(vx::pick(3, 4), "around");
    if (shape == 1) doc += "\"other\":{\"i\":[{\"s\":1}]},";
    for (int i = 0; i < fields; ++i) {
        if (i) doc += ',';
        doc += std::string("\"") + names[n][vx::choose(count, "name")] + "\":" + kinds[vx::choose(sizeof kinds / sizeof *kinds, "kind")];
    }
    if (shape == 2) doc += ",\"other\":[1,{\"b\":\"]}\"}]";
    if (shape == 3) doc += ",\"i\":1";
    target(types[n], doc + "}", start);
}

// unknown members of every kind and nesting, before, between and after the known ones
static std::string anything(int depth)
{
    static const char* leaf[] = { "null", "true", "12", "-0.5e+3", "\"\"", "\"}],:{[\\\"\"", "\"\\u0041\xC3\xA9\"", "[]", "{}" };
    int c = vx::choose(depth ? 13 : 9, "unknown");
    if (c < 9) return leaf[c];
    switch (c) {
    case 9: return "[" + anything(depth - 1) + "]";
    case 10: return "{\"i\":" + anything(depth - 1) + "}";
    case 11: return "[" + anything(depth - 1) + "," + anything(0) + "]";
    default: return "{\"s\":" + anything(0) + ",\"q\":" + anything(depth - 1) + "}";
    }
}
VX_SUITE_D(unknown, 3)
{
    int where = vx::choose(4, "where"), n = vx::choose(3, "target"); std::string u = anything(vx::pick(2, 3)), doc;
    std::string key = vx::choose(2, "key") ? "\"\\u0069i\"" : "\"I\"";
    switch (where) {
    case 0: doc = "{" + key + ":" + u + ",\"i\":1,\"s\":\"x\"}"; break;
    case 1: doc = "{\"i\":1," + key + ":" + u + ",\"s\":\"x\"}"; break;
    case 2: doc = "{\"i\":1,\"s\":\"x\"," + key + ":" + u + "}"; break;
    default: doc = "{" + key + ":" + u + "}"; break;
    }
    if (n == 1) doc = "[" + doc + "," + doc + "]";
    if (n == 2) doc = "{\"o\":" + doc + ",\"v\":[3]}";
    target(n == 0 ? 1 : n == 1 ? 2 : 0, doc, vx::choose(2, "start"));
}

VX_SUITE_D(changes, 3)
{
    static const int fit[][3] = { { 0, 1, 10 }, { 0, 10, 11 }, { 2, 5, 10 }, { 4, 11, 10 }, { 5, 12, 10 } };
    int which = vx::choose(jg::RichDocs, "document"), n = vx::thorough() ? vx::choose(Targets, "target") : fit[which][vx::choose(3, "target")], start = vx::choose(2, "start");
    target(n, jg::mutate(jg::rich(which)), start);
}

// a sequence of documents read into the same object
VX_SUITE_D(history, 2)
{
    static const char* docs[] = { "{\"v\":[1]}", "{\"v\":[2,3],\"i\":4}", "{\"m\":{\"a\":5}}", "{\"m\":{\"a\":6,\"b\":7}}", "{\"o\":{\"i\":8}}", "{\"o\":{\"s\":\"n\"}}", "null", "{}", "{\"o\":null,\"v\":null,\"m\":null}", "{\"f\":1,\"s\":\"\",\"b\":true}" };
    Doc v; J model = js::Sh<Doc>::shape().fresh(); Shape s = js::Sh<Doc>::shape(); std::string all;
    for (int i = 0, n = vx::pick(4, 5); i < n; ++i) {
        std::string d = docs[vx::choose(10, "document")]; all += d + " ";
        jr::Ref ref(d); ref.next(); js::read(ref, s, model);
        json::Error e = json::parse(d, v); vx::step();
        VX_CHECK(!e, "refused", "<%s> is refused: %s", d.c_str(), e.what());
        J want = model; js::sortMaps(s, want); J got = js::dump(v);
        VX_CHECK(got == want, "value", "reading %sgives %s instead of %s", all.c_str(), js::text(got).c_str(), js::text(want).c_str());
        vx::state(vx::hashStr(js::text(want)));
    }
    vx::outcome("accepted");
}
VX_SUITE_D(pointers, 2)
{
    static const char* docs[] = { "{\"p\":1}", "{\"p\":null}", "{\"q\":{\"i\":2}}", "{\"q\":{\"s\":\"a\"}}", "{\"q\":null}", "{\"sh\":{\"i\":3}}", "{\"sh\":{\"s\":\"b\"}}", "{\"sh\":null}", "{\"sv\":\"c\"}", "{\"sv\":null}", "{\"vs\":[4,null]}", "{\"mp\":{\"k\":{\"i\":5}}}", "{\"mp\":{\"k\":null}}" };
    Ptrs v; J model = js::Sh<Ptrs>::shape().fresh(); Shape s = js::Sh<Ptrs>::shape(); std::string all;
    int64_t* p = nullptr; Leaf* q = nullptr; Leaf* sh = nullptr;
    for (int i = 0, n = vx::pick(4, 5); i < n; ++i) {
        std::string d = docs[vx::choose(13, "document")]; all += d + " ";
        jr::Ref ref(d); ref.next(); js::read(ref, s, model);
        bool hadP = v.p, hadQ = v.q, hadSh = bool(v.sh); p = v.p; q = v.q; sh = v.sh.get();
        json::Error e = json::parse(d, v); vx::step();
        VX_CHECK(!e, "refused", "<%s> is refused: %s", d.c_str(), e.what());
        J want = model; js::sortMaps(s, want); J got = js::dump(v);
        VX_CHECK(got == want, "value", "reading %sgives %s instead of %s", all.c_str(), js::text(got).c_str(), js::text(want).c_str());
        // an object which is there already is the one that's filled
        VX_CHECK((!hadP || !v.p || v.p == p) && (!hadQ || !v.q || v.q == q) && (!hadSh || !v.sh || v.sh.get() == sh), "replaced", "reading %sreplaces the object that a pointer held", all.c_str());
        vx::state(vx::hashStr(js::text(want)));
    }
    vx::outcome("accepted");
}
