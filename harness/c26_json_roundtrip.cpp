// C26: what is printed can be read back and gives an equal object, whatever the layout
// and escaping chosen, for typed and untyped targets and custom printers alike.
#include "jvals.h"

using namespace reflect;
using js::J; using js::Shape;

// a member left out because it's empty reads back as its default
static J normal(const Shape& s, const J& v, bool compact)
{
    J r = v;
    switch (s.k) {
    case Shape::Vec: for (auto& x : r.a) x = normal(s.in[0], x, compact); break;
    case Shape::Map: for (auto& x : r.o) x.second = normal(s.in[0], x.second, compact); break;
    case Shape::Ptr: if (r.k != J::Null) r = normal(s.in[0], r, compact); break;
    case Shape::Obj: for (size_t i = 0; i < r.o.size(); ++i) { J& x = r.o[i].second; x = (compact || s.skipEmpty[i]) && js::isEmpty(s.in[i], x) ? s.in[i].fresh() : normal(s.in[i], x, compact); } break;
    default: break;
    }
    return r;
}
// the tree that an untyped Value should hold
static J untyped(const Shape& s, const J& v, bool compact)
{
    J r = v;
    switch (s.k) {
    case Shape::Vec: for (auto& x : r.a) x = untyped(s.in[0], x, compact); break;
    case Shape::Map: for (auto& x : r.o) x.second = untyped(s.in[0], x.second, compact); break;
    case Shape::Ptr: if (r.k != J::Null) r = untyped(s.in[0], r, compact); break;
    case Shape::Obj: { r.o.clear(); for (size_t i = 0; i < v.o.size(); ++i) { const J& x = v.o[i].second; if (!((compact || s.skipEmpty[i]) && js::isEmpty(s.in[i], x))) r.o.push_back(std::make_pair(v.o[i].first, untyped(s.in[i], x, compact))); } break; }
    case Shape::Float: { char b[64]; snprintf(b, sizeof b, "%.12g", v.d); if (!strpbrk(b, ".eE")) r = J::integer(atoll(b)); break; }
    default: break;
    }
    return r;
}

// whether two equal objects are printed in the same order: hashed maps aren't
template<typename T> struct Ordered { static const bool value = true; };
template<typename T> struct Ordered<std::unordered_map<std::string, T>> { static const bool value = false; };
template<typename T>
static void check(const J& model, int wopts, int ropts)
{
    Shape s = js::Sh<T>::shape(); bool compact = wopts & jr::WCompact;
    T v = T(), back = T(); js::Sh<T>::load(v, model);
    std::ostringstream out; json::Writer w(out, jr::wopts(wopts)); std::string thrown; Value any;
    try {
        json::print(w, v); vx::step();
        VX_CHECK(!w.error(), "print", "%s can't be printed: %s", js::text(model).c_str(), w.error().what());
        std::istringstream in(out.str()); json::Reader r(in, jr::ropts(ropts));
        json::parse(r, back); vx::step();
        VX_CHECK(!r.error(), "parse", "what is printed for %s under options %d, <%s>, is refused: %s", js::text(model).c_str(), wopts, vx::show(out.str()).c_str(), r.error().what());
        std::istringstream in2(out.str()); json::Reader r2(in2, jr::ropts(ropts));
        json::parse(r2, any); vx::step();
    }
    catch (const std::exception& x) { thrown = x.what(); }
    VX_CHECK(thrown.empty(), "exception", "%s: throws <%s>", js::text(model).c_str(), thrown.c_str());
    VX_NOTE("%s -> <%s>", js::text(model).c_str(), vx::show(out.str()).c_str());
    vx::state(vx::hashStr(out.str(), wopts));
    J want = normal(s, model, compact), got = js::dump(back); js::sortMaps(s, want);
    VX_CHECK(got == want, "typed", "%s is printed as <%s> and reads back as %s", js::text(want).c_str(), vx::show(out.str()).c_str(), js::text(got).c_str());
    VX_CHECK(jr::same(any, untyped(s, model, compact)), "untyped", "<%s>, printed for %s, reads back as something else in an untyped Value", vx::show(out.str()).c_str(), js::text(want).c_str());
    // and once more
    std::ostringstream again; json::Writer w2(again, jr::wopts(wopts)); json::print(w2, back);
    if (want == model) VX_CHECK(Ordered<T>::value ? again.str() == out.str() : again.str().size() == out.str().size(), "again", "<%s> is printed as <%s> once read back", vx::show(out.str()).c_str(), vx::show(again.str()).c_str());
    vx::outcome("equal");
}
template<typename T> static void values(int budget, int w, int r) { Shape s = js::Sh<T>::shape(); int b = budget; check<T>(jv::value(s, b), w, r); }

// escaped text needs a reader which unescapes it; all else goes together
static void options(int& w, int& r)
{
    static const int writers[] = { 0, 1, 2, 3, jr::WDefault, jr::WDefault | 1, jr::WDefault | 3, jr::WEscapeUnicode, jr::WValidateUnicode | 3 };
    static const int readers[] = { jr::RDefault, jr::RDefault | jr::RAllowComments, jr::RUnescapeUnicode };
    w = writers[vx::choose(9, "writer")]; r = readers[vx::choose(3, "reader")];
    if (!(w & jr::WEscapeUnicode) && vx::choose(2, "raw reader")) r &= ~jr::RUnescapeUnicode;
}

VX_SUITE_D(objects, 3)
{
    int w, r; options(w, r); int b = vx::pick(2, 3);
    switch (vx::choose(5, "type")) {
    case 0: values<Leaf>(b, w, r); break; case 1: values<Doc>(b, w, r); break; case 2: values<Deep>(b + 1, w, r); break; case 3: values<Ptrs>(b, w, r); break; default: values<std::vector<Doc>>(b, w, r); break;
    }
}
VX_SUITE_D(others, 3)
{
    int w, r; options(w, r); int b = vx::pick(3, 4);
    switch (vx::choose(10, "type")) {
    case 0: values<std::vector<Leaf>>(b, w, r); break; case 1: values<int64_t>(b, w, r); break; case 2: values<double>(b, w, r); break; case 3: values<std::string>(b, w, r); break;
    case 4: values<std::vector<int64_t>>(b, w, r); break; case 5: values<std::map<std::string, double>>(b, w, r); break; case 6: values<std::vector<std::vector<std::string>>>(b + 1, w, r); break;
    case 7: values<std::unordered_map<std::string, std::vector<Leaf>>>(b + 1, w, r); break; case 8: values<std::shared_ptr<Leaf>>(b, w, r); break; default: values<std::vector<std::shared_ptr<int64_t>>>(b, w, r); break;
    }
}

// members with their own parser and printer, wherever they are
struct Customs { Custom2 a; std::vector<Custom2> v; std::map<std::string, Custom2> m; std::shared_ptr<Custom2> s; Custom2* p; int64_t z; Customs() : p(nullptr), z(0) {} };
reflectType(Customs) { reflectPlumbing(); reflectField(a); reflectField(v); reflectField(m); reflectField(s); reflectField(z); }
VX_SUITE_D(customs, 2)
{
    int w, r; options(w, r);
    static const int64_t some[] = { 0, 12, -3 };
    Customs v; int n; v.a.a = some[vx::choose(3, "a")]; v.z = some[vx::choose(2, "z")];
    n = vx::choose(3, "v"); for (int i = 0; i < n; ++i) { v.v.emplace_back(); v.v.back().a = 10 + i; }
    n = vx::choose(3, "m"); for (int i = 0; i < n; ++i) v.m[std::to_string(i)].a = 20 + i;
    std::ostringstream out; json::Writer wr(out, jr::wopts(w)); Customs back;
    json::print(wr, v); std::istringstream in(out.str()); json::Reader rd(in, jr::ropts(r)); json::parse(rd, back); vx::step(2);
    VX_CHECK(!wr.error() && !rd.error(), "parse", "<%s>: %s", vx::show(out.str()).c_str(), rd.error().what());
    std::string body = js::squeeze(out.str());
    VX_CHECK(body.find("\"a\":\"" + std::to_string(v.a.a) + "\"") != std::string::npos, "custom", "<%s> isn't what the custom printer gives", body.c_str());
    bool same = v.a.a == back.a.a && v.z == back.z && v.v.size() == back.v.size() && v.m.size() == back.m.size() && !back.s;
    for (size_t i = 0; same && i < v.v.size(); ++i) same = v.v[i].a == back.v[i].a;
    if (same) for (auto& x : v.m) same = same && back.m.count(x.first) && back.m[x.first].a == x.second.a;
    VX_CHECK(same, "typed", "<%s> doesn't read back as the object it was printed for", vx::show(out.str()).c_str());
    vx::outcome("equal"); vx::state(vx::hashStr(out.str(), w));
}

// every magnitude, in every place a number can be in
namespace k26 { struct Nums { double d; int64_t i; std::vector<double> v; std::map<std::string, int64_t> m; std::shared_ptr<double> p; Nums() : d(0), i(0) {} }; }
reflectType(k26::Nums) { reflectPlumbing(); reflectField(d); reflectField(i); reflectField(v); reflectField(m); reflectField(p); }
VX_SUITE_D(numbers, 2)
{
    static const char* digits[] = { "1", "1.5", "-2.5", "1.23456789012", "-9.99999999999", "4.94065645841" };
    char t[64]; int exp = vx::choose(632, "exponent") - 323; snprintf(t, sizeof t, "%se%d", digits[vx::choose(6, "digits")], exp);
    double d = strtod(t, nullptr); if (!std::isfinite(d)) { vx::assume(false); return; }
    { char again[64]; snprintf(again, sizeof again, "%.12g", d); d = strtod(again, nullptr); if (!std::isfinite(d)) { vx::assume(false); return; } }    // what twelve digits can say
    int shift = (exp + 323) % 63, way = vx::choose(3, "integer"); int64_t i = way == 0 ? int64_t(1) << shift : way == 1 ? -(int64_t(1) << shift) - 1 : INT64_MAX - (int64_t(1) << shift) + 1;
    int o = vx::choose(2, "pretty") ? jr::WDefault | jr::WPretty : jr::WDefault | jr::WCompact;
    k26::Nums n, back; n.d = d; n.i = i; n.v.assign(2, d); n.v[1] = -d; n.m["k"] = i; n.m[""] = ~i; n.p = std::make_shared<double>(d);
    std::ostringstream out; json::Writer w(out, jr::wopts(o)); std::string thrown; json::Error e; Value any;
    try { json::print(w, n); e = json::parse(out.str(), back); if (!e) e = json::parse(out.str(), any); vx::step(3); } catch (const std::exception& x) { thrown = x.what(); }
    VX_CHECK(thrown.empty() && !w.error() && !e, "parse", "%s and %ld, printed as <%s>: %s %s %s", t, i, vx::show(out.str()).c_str(), e.what(), w.error().what(), thrown.c_str());
    VX_CHECK(back.d == d && back.v == n.v && (back.p ? *back.p == d : d == 0), "float", "%s is printed as <%s> and read back as %.17g", t, vx::show(out.str()).c_str(), back.d);
    VX_CHECK(back.i == i && back.m == n.m, "integer", "%ld is printed as <%s> and read back as %ld", i, vx::show(out.str()).c_str(), back.i);
    Value f = any[std::string("i")]; VX_CHECK(f.get<int64_t>() == i, "untyped", "%ld is printed as <%s> and read back as another", i, vx::show(out.str()).c_str());
    vx::outcome("equal"); vx::state(vx::hashStr(out.str(), o));
}
