// C22: whatever the bytes, parsing them into whatever target ends with either a value or
// a positioned error: no crash, no exception, no undefined behaviour; a scalar target
// keeps its value when its document is in error.
#include "jtypes.h"
#include "jgen.h"

using namespace reflect;

struct Slow : std::streambuf      // gives its bytes one at a time
{
    const std::string& t; size_t p; char c;
    explicit Slow(const std::string& t) : t(t), p(0) {}
    int underflow() { if (p == t.size()) return EOF; c = t[p++]; setg(&c, &c, &c + 1); return (unsigned char) c; }
};

static void message(const json::Error& e, const std::string& doc)
{
    std::string m = e.what(); size_t p = 0; auto digits = [&] { size_t s = p; while (p < m.size() && isdigit((unsigned char) m[p])) p++; return p > s; };
    bool ok = digits() && m[p++] == ':' && digits() && m.compare(p, 2, ": ") == 0 && m.size() > p + 2;
    VX_CHECK(ok, "message", "parsing <%s> reports <%s>, which isn't <line:column: what>", vx::show(doc).c_str(), vx::show(m).c_str());
}

// parses the text in the three ways that the library offers
template<typename T>
static bool parseAs(const std::string& doc, T& target, int opts, int via)
{
    try {
        vx::step();
        if (via == 0) {
            std::istringstream in(doc); json::Reader r(in, jr::ropts(opts));
            json::parse(r, target);
            if (r.error()) message(r.error(), doc);
            return !r.error();
        }
        json::Error e;
        if (via == 1) e = json::parse(doc, target);
        else { Slow slow(doc); std::istream in(&slow); e = json::parse(in, target); }
        if (e) message(e, doc);
        return !e;
    }
    catch (const vx::Violation&) { throw; }
    catch (const std::exception& e) { vx::fail("exception", "parsing <%s> throws <%s>", vx::show(doc).c_str(), e.what()); }
}

template<typename T> static void scalar(const std::string& doc, T initial, int opts, int via)
{
    T v = initial;
    bool ok = parseAs(doc, v, opts, via);
    VX_CHECK(ok || v == initial, "scalar", "parsing <%s> reports an error and yet changes the target", vx::show(doc).c_str());
    vx::outcome(ok ? "value" : "error");
}
template<typename T> static void other(const std::string& doc, int opts, int via)
{
    T v; bool ok = parseAs(doc, v, opts, via);
    js::dump(v);                       // what's left must be readable
    vx::outcome(ok ? "value" : "error");
}
template<typename P> static void destroy(P* p) { delete p; }

enum { Targets = 22 };
static void target(const std::string& doc, int n, int opts, int via)
{
    VX_NOTE("target %d, options %d, via %d: <%s>", n, opts, via, vx::show(doc).c_str());
    switch (n) {
    case 0: scalar<int64_t>(doc, -77, opts, via); break;
    case 1: scalar<double>(doc, -77.5, opts, via); break;
    case 2: scalar<bool>(doc, true, opts, via); break;
    case 3: scalar<std::string>(doc, "before", opts, via); break;
    case 4: other<std::vector<int64_t>>(doc, opts, via); break;
    case 5: other<std::map<std::string, int64_t>>(doc, opts, via); break;
    case 6: other<Doc>(doc, opts, via); break;
    case 7: other<Deep>(doc, opts, via); break;
    case 8: { Value v; vx::outcome(parseAs(doc, v, opts, via) ? "value" : "error"); break; }
    case 9: { int64_t x = 5, *p = &x; vx::outcome(parseAs(doc, p, opts, via) ? "value" : "error"); if (p && p != &x) destroy(p); break; }
    case 10: { Leaf* p = nullptr; vx::outcome(parseAs(doc, p, opts, via) ? "value" : "error"); if (p) destroy(p); break; }
    case 11: other<std::shared_ptr<Leaf>>(doc, opts, via); break;
    case 12: other<std::vector<std::shared_ptr<int64_t>>>(doc, opts, via); break;
    case 13: other<Ptrs>(doc, opts, via); break;
    case 14: { Custom2 c; vx::outcome(parseAs(doc, c, opts, via) ? "value" : "error"); break; }
    case 15: other<Nothing>(doc, opts, via); break;
    case 16: { One o; vx::outcome(parseAs(doc, o, opts, via) ? "value" : "error"); break; }
    case 17: other<std::vector<std::vector<std::string>>>(doc, opts, via); break;
    case 18: other<std::map<std::string, std::map<std::string, double>>>(doc, opts, via); break;
    case 19: other<std::unordered_map<std::string, Leaf>>(doc, opts, via); break;
    case 20: other<std::vector<Doc>>(doc, opts, via); break;
    default: { Value v(std::vector<int64_t>{ 4 }); vx::outcome(parseAs(doc, v, opts, via) ? "value" : "error"); break; }
    }
    vx::state(vx::hashStr(doc, n * 8 + opts));
}

VX_SUITE_D(tokens, 3)
{
    int n = vx::choose(Targets, "target");
    jg::Doc d = jg::generate(jg::tokens(), vx::pick(4, 6), vx::pick(1, 2), jr::RDefault, true);
    target(d.text, n, jr::RDefault, 1);
}

VX_SUITE_D(bytes, 3)
{
    int opts = vx::choose(8, "options");
    // what follows an error is never read but by a target that doesn't see it
    jg::Doc d = jg::generate(jg::bytes(), vx::pick(3, 4), 1, opts);
    static const int light[] = { 0, 1, 3, 8, 6 };
    target(d.text, light[vx::choose(5, "target")], opts, 0);
}

VX_SUITE_D(mutations, 3)
{
    int which = vx::choose(jg::RichDocs, "document"), n, via = vx::pick(1, 0);
    if (vx::thorough()) { n = vx::choose(Targets, "target"); via = 1 + vx::choose(2, "via"); }
    else { static const int fit[][3] = { { 6, 8, 19 }, { 6, 8, 13 }, { 8, 20, 4 }, { 13, 8, 11 }, { 7, 8, 18 } }; n = fit[which][vx::choose(3, "target")]; }
    target(jg::mutate(jg::rich(which)), n, jr::RDefault, via);
}

// two changes at once: the second after the first
VX_SUITE_D(cuts, 3)
{
    std::string doc = jg::rich(vx::choose(jg::RichDocs, "document"));
    int a = vx::choose(doc.size(), "from"), n = vx::choose(doc.size() - a + 1, "count");
    std::string cut = doc.substr(0, a) + doc.substr(a + n);
    if (vx::thorough()) target(cut, vx::choose(Targets, "target"), jr::RDefault, 1);
    else { static const int some[] = { 6, 7, 8, 13 }; target(cut, some[vx::choose(4, "target")], jr::RDefault, 1); }
}

// every target, every kind of document, every kind of nesting around it
VX_SUITE_D(kinds, 2)
{
    static const char* docs[] = { "", " ", "null", "true", "false", "0", "-1", "1.5", "1e400", "-1e400", "99999999999999999999", "-99999999999999999999", "\"\"", "\"12\"", "[]", "[1]", "[1,\"a\"]",
        "[[1]]", "[null]", "{}", "{\"i\":1}", "{\"i\":\"a\"}", "{\"i\":null}", "{\"o\":[]}", "{\"a\":{\"i\":{}}}", "nul", "tru", "\"", "\"\\", "\"\\u1", "-", ":", ",", "]", "}", "[,]", "{,}", "[1,]", "{\"a\":1,}", "{1:1}", "\xFF", "//", "/" };
    int n = vx::choose(Targets, "target"), opts = vx::choose(8, "options"), via = vx::choose(3, "via");
    std::string doc = docs[vx::choose(sizeof docs / sizeof *docs, "document")];
    switch (vx::choose(5, "around")) { case 1: doc = "[" + doc + "]"; break; case 2: doc = "{\"a\":" + doc + "}"; break; case 3: doc = doc + doc; break; case 4: doc = "{\"o\":{\"x\":[" + doc + "]}}"; break; }
    target(doc, n, opts, via);
}
