// C25: the text printed for an object is exactly the JSON of its members, in sorted
// order, under every combination of options; what can't be written is an error.
#include "jvals.h"

using namespace reflect;
using js::J; using js::Shape;

template<typename T>
static std::string printed(const T& v, int opts, json::Error& e)
{
    std::ostringstream out;
    try { vx::step(); json::Writer w(out, jr::wopts(opts)); e = json::print(w, v); }
    catch (const std::exception& x) { vx::fail("exception", "printing throws <%s>", x.what()); }
    return out.str();
}

template<typename T>
static void check(const J& model, int opts)
{
    Shape s = js::Sh<T>::shape(); T v = T(); js::Sh<T>::load(v, model);
    js::Printed want; js::print(s, model, opts, 0, want);
    json::Error e; std::string got = printed(v, opts, e);
    vx::state(vx::hashStr(got, opts));
    VX_NOTE("options %d, %s: <%s>", opts, js::text(model).c_str(), vx::show(got).c_str());
    VX_CHECK(!want.error || e, "unreported", "printing %s under options %d isn't reported as an error", js::text(model).c_str(), opts);
    VX_CHECK(want.error || !e, "refused", "printing %s under options %d is refused: %s", js::text(model).c_str(), opts, e.what());
    if (want.error) { vx::outcome("error"); return; }
    bool same = want.loose ? js::squeeze(got) == js::squeeze(want.text) : got == want.text;
    VX_CHECK(same, "text", "%s under options %d is printed as <%s> instead of <%s>", js::text(model).c_str(), opts, vx::show(got).c_str(), vx::show(want.text).c_str());
    bool bad, unjudged; jr::parse(got, bad, unjudged);
    VX_CHECK(!bad || !jr::validUtf8(got), "malformed", "<%s> isn't JSON", vx::show(got).c_str());
    vx::outcome("printed");
    // printing leaves the object as it was
    J after = js::dump(v), before = model; js::sortMaps(s, before);
    VX_CHECK(after == before, "changed", "printing %s changed it to %s", js::text(before).c_str(), js::text(after).c_str());
}

template<typename T> static void values(int budget, int opts) { Shape s = js::Sh<T>::shape(); int b = budget; check<T>(jv::value(s, b), opts); }

VX_SUITE_D(objects, 3)
{
    int opts = vx::choose(16, "options"), n = vx::choose(5, "type"), b = vx::pick(3, 4);
    switch (n) {
    case 0: values<Leaf>(b, opts); break; case 1: values<Doc>(b, opts); break; case 2: values<Deep>(b + 1, opts); break;
    case 3: values<Ptrs>(b, opts); break; default: values<Nothing>(b, opts); break;
    }
}
VX_SUITE_D(others, 3)
{
    int opts = vx::choose(16, "options"), n = vx::choose(11, "type"), b = vx::pick(4, 5);
    switch (n) {
    case 0: values<bool>(b, opts); break; case 1: values<int64_t>(b, opts); break; case 2: values<double>(b, opts); break; case 3: values<std::string>(b, opts); break;
    case 4: values<std::vector<int64_t>>(b, opts); break; case 5: values<std::map<std::string, double>>(b, opts); break;
    case 6: values<std::vector<std::vector<std::string>>>(b + 1, opts); break; case 7: values<std::map<std::string, std::map<std::string, Leaf>>>(b, opts); break;
    case 8: values<std::vector<Leaf>>(b, opts); break; case 9: values<std::shared_ptr<Leaf>>(b, opts); break; default: values<std::vector<std::shared_ptr<int64_t>>>(b, opts); break;
    }
}

// what skipped members leave behind: every subset of empty fields
struct Sparse { int64_t a, b, c; std::vector<int64_t> d; std::string e; Leaf f; bool g; int64_t* h; Sparse() : a(0), b(0), c(0), g(false), h(nullptr) {} };
reflectTypeDecl(Sparse)
reflectTypeImpl(Sparse)
{
    reflectPlumbing(); reflectField(a); reflectField(b); reflectField(c); reflectField(d); reflectField(e); reflectField(f); reflectField(g); reflectField(h);
    json::Traits t; t.skip = false; t.skipEmpty = true;
    reflectFieldValue(b, json, json::Traits(t)); reflectFieldValue(d, json, json::Traits(t)); reflectFieldValue(h, json, json::Traits(t));
}
JS_BEGIN(Sparse) static Shape shape() { Shape s(Shape::Obj); typedef Sh<int64_t> I; s.field("a", I::shape()).field("b", I::shape(), true).field("c", I::shape()).field("d", Sh<std::vector<int64_t>>::shape(), true)
    .field("e", Sh<std::string>::shape()).field("f", Sh<Leaf>::shape()).field("g", Sh<bool>::shape()).field("h", Sh<int64_t*>::shape(), true)
    JS_SHAPE_END JS_D(a) JS_D(b) JS_D(c) JS_D(d) JS_D(e) JS_D(f) JS_D(g) JS_D(h) JS_DUMP_END JS_L(0, a) JS_L(1, b) JS_L(2, c) JS_L(3, d) JS_L(4, e) JS_L(5, f) JS_L(6, g) JS_L(7, h) JS_END
VX_SUITE_D(sparse, 3)
{
    int opts = vx::choose(16, "options"), set = vx::choose(256, "set"), how = vx::choose(3, "how");
    Shape s = js::Sh<Sparse>::shape(); J j = s.fresh();
    for (int i = 0; i < 8; ++i) if (set & (1 << i)) {
        J& x = j.o[i].second;
        switch (i) { case 3: x.a.push_back(J::integer(3)); break; case 4: x.s = "x"; break; case 5: x.o[0].second = J::integer(5); break; case 6: x.b = true; break; case 7: x = J::integer(0); break; default: x = J::integer(i + 1); }
    }
    if (how == 0) check<Sparse>(j, opts);
    else if (how == 1) { J v(J::Arr); v.a.push_back(j); v.a.push_back(s.fresh()); check<std::vector<Sparse>>(v, opts); }
    else { J m(J::Obj); m.o.push_back(std::make_pair("k", j)); check<std::map<std::string, Sparse>>(m, opts); }
}
// one field only, which may be skipped
struct Single { int64_t* p; Single() : p(nullptr) {} };
reflectType(Single) { reflectPlumbing(); reflectField(p); }
JS_BEGIN(Single) JS_SHAPE JS_F(p) JS_SHAPE_END JS_D(p) JS_DUMP_END JS_L(0, p) JS_END
VX_SUITE_D(single, 2) { int opts = vx::choose(16, "options"); values<std::vector<Single>>(4, opts); }

// every size of every kind around the sizes of buffers
VX_SUITE_D(sizes, 3)
{
    static const int around[] = { 0, 1, 2, 3, 7, 8, 15, 16, 17, 31, 32, 33, 63, 64, 65, 100, 126, 127, 128, 129, 130, 255, 256, 257, 1023, 1024, 1025, 4095, 4096, 4097, 10000 };
    int opts = vx::choose(16, "options"), kind = vx::choose(5, "kind"), n = around[vx::choose(sizeof around / sizeof *around, "size")];
    switch (kind) {
    case 0: check<std::string>(J::string(std::string(n, 'x')), opts); break;
    case 1: { std::string t; for (int i = 0; i < n; ++i) t += i % 3 == 0 ? "\"" : i % 3 == 1 ? "\xE2\x82\xAC" : "z"; check<std::string>(J::string(t), opts); break; }
    case 2: { J j(J::Arr); for (int i = 0; i < n; ++i) j.a.push_back(J::integer(i)); check<std::vector<int64_t>>(j, opts); break; }
    case 3: { J j(J::Obj); for (int i = 0; i < n; ++i) j.o.push_back(std::make_pair(std::to_string(i), J::real(i + .5))); check<std::map<std::string, double>>(j, opts); break; }
    default: { J j(J::Obj); j.o.push_back(std::make_pair(std::string(n, 'k'), J::integer(n))); check<std::map<std::string, int64_t>>(j, opts); break; }
    }
}

// nesting through the generic printers: the indentation at any depth
static void nest(json::Writer& w, int depth, bool array)
{
    auto item = [&] { if (depth) nest(w, depth - 1, array); else json::printInt(w, 1); };
    if (array) json::printArray(w, 2, [&] (size_t i) { if (i) json::printNull(w); else item(); });
    else json::printObject(w, std::vector<std::string>{ "a", "b" }, [&] (const std::string& k) { if (k == "b") json::printNull(w); else item(); });
}
VX_SUITE_D(depth, 2)
{
    static const int depths[] = { 0, 1, 2, 3, 15, 16, 17, 31, 32, 63, 64, 127, 128, 255, 256, 257, 511, 512, 1022, 1023, 1024, 1025, 1026, 2047, 2048, 2049, 3071, 3072 };
    int opts = vx::choose(16, "options"), array = vx::choose(2, "array"), n = depths[vx::choose(sizeof depths / sizeof *depths, "depth")];
    std::ostringstream out; json::Writer w(out, jr::wopts(opts)); vx::step();
    nest(w, n, array);
    std::string want; bool pretty = opts & jr::WPretty;
    auto line = [&] (int k) { if (pretty) { want += '\n'; want.append(4 * k, ' '); } };
    for (int i = 0; i <= n; ++i) { want += array ? "[" : "{"; line(i + 1); if (!array) want += pretty ? "\"a\": " : "\"a\":"; }
    want += '1';
    for (int i = n; i >= 0; --i) { want += ','; line(i + 1); want += array ? "null" : pretty ? "\"b\": null" : "\"b\":null"; line(i); want += array ? ']' : '}'; }
    VX_CHECK(w && out.str() == want, "text", "%d nested %s are wrongly printed under options %d", n + 1, array ? "arrays" : "objects", opts);
    vx::outcome("printed"); vx::state(vx::hashStr(want));
}

// the generic printers: every size, every subset of skipped items
VX_SUITE_D(generic, 2)
{
    int opts = vx::choose(4, "options"), n = vx::choose(vx::pick(5, 7), "size"), skip = vx::choose(1 << n, "skip"), kind = vx::choose(4, "kind");
    std::ostringstream out; json::Writer w(out, jr::wopts(opts)); std::string want; int shown = 0; vx::step();
    bool array = kind & 1, skips = kind & 2; if (!skips && skip) vx::assume(false);
    std::vector<std::string> keys; for (int i = 0; i < n; ++i) keys.push_back(std::string(1, 'z' - i));
    if (array && skips) json::printArray(w, n, [&] (size_t i) { json::printInt(w, i); }, [&] (size_t i) { return skip >> i & 1; });
    else if (array) json::printArray(w, n, [&] (size_t i) { json::printInt(w, i); });
    else if (skips) json::printObject(w, keys, [&] (const std::string& k) { json::printInt(w, 'z' - k[0]); }, [&] (const std::string& k) { return skip >> ('z' - k[0]) & 1; });
    else json::printObject(w, keys, [&] (const std::string& k) { json::printInt(w, 'z' - k[0]); });
    want += array ? '[' : '{';
    for (int i = 0; i < n; ++i) if (!(skip >> i & 1)) { if (shown++) want += ','; if (!array) want += '"' + keys[i] + "\":"; want += std::to_string(i); }
    want += array ? ']' : '}';
    std::string got = out.str();
    VX_CHECK(w && (opts & jr::WPretty ? js::squeeze(got) : got) == want, "text", "<%s> is printed instead of <%s>", vx::show(got).c_str(), want.c_str());
    vx::outcome("printed"); vx::state(vx::hashStr(got));
}

// the three ways to print agree
VX_SUITE_D(ways, 2)
{
    Shape s = js::Sh<Doc>::shape(); int b = 2; J j = jv::value(s, b); Doc v; js::Sh<Doc>::load(v, j);
    json::Error e; std::string want = printed(v, jr::WDefault, e);
    std::pair<std::string, json::Error> p = json::print(v);
    std::ostringstream out; json::Error e2 = json::print(out, v);
    std::ostringstream out3; json::Writer w(out3); Value val = cast<Value>(v); json::print(w, val);
    vx::step(3);
    VX_CHECK(p.first == want && !p.second && out.str() == want && !e2 && out3.str() == want && !w.error(), "ways", "printing to a string, to a stream and to a writer don't agree: <%s> <%s> <%s> <%s>", want.c_str(), p.first.c_str(), out.str().c_str(), out3.str().c_str());
    vx::outcome("printed"); vx::state(vx::hashStr(want));
}
