// C32: the position in an error is that of the token which is wrong: its line exactly, a
// column within it; the first error is the one that's kept.
#include "jtypes.h"
#include "jgen.h"

using namespace reflect;

static void where(const std::string& t, size_t at, size_t& line, size_t& col) { line = col = 1; for (size_t i = 0; i < at; ++i) if (t[i] == '\n') { line++; col = 1; } else col++; }

static bool parsePosition(const std::string& m, size_t& line, size_t& col)
{
    char* end; line = strtoull(m.c_str(), &end, 10); if (*end != ':') return false; col = strtoull(end + 1, &end, 10); return *end == ':' && end[1] == ' ' && end[2];
}

template<typename T>
static void check(const std::string& doc, int opts, bool shape)
{
    jr::Ref ref(doc, opts); ref.next(); bool range = false;
    if (shape) { js::Shape s = js::Sh<T>::shape(); jr::J j = s.fresh(); js::read(ref, s, j); }
    else { jr::J j = ref.value(); range = j.bigAnywhere(); }
    std::istringstream in(doc); json::Reader r(in, jr::ropts(opts)); std::string thrown;
    try { if (shape) { T v = T(); json::parse(r, v); } else { Value v; json::parse(r, v); } vx::step(); } catch (const std::exception& e) { thrown = e.what(); }
    vx::state(vx::hashStr(doc, opts + 16 * shape));
    VX_CHECK(thrown.empty(), "exception", "<%s> throws <%s>", vx::show(doc).c_str(), thrown.c_str());
    if (ref.unjudged || range) { vx::outcome("unjudged"); return; }
    if (!ref.bad || !r.error()) { vx::outcome("no error"); return; }    // C23 and C24 tell whether there should be one
    size_t line, col, sl, sc, el, ec; std::string m = r.error().what();
    VX_NOTE("<%s>: %s (token %zu..%zu)", vx::show(doc).c_str(), vx::show(m).c_str(), ref.tokStart, ref.tokEnd);
    VX_CHECK(parsePosition(m, line, col), "message", "<%s> is reported as <%s>, without a position", vx::show(doc).c_str(), vx::show(m).c_str());
    where(doc, ref.tokStart, sl, sc); where(doc, std::min(doc.size(), ref.tokEnd), el, ec);
    VX_CHECK(line == sl, "line", "<%s> is reported as <%s> but the error is on line %zu", vx::show(doc).c_str(), vx::show(m).c_str(), sl);
    // a sequence of bytes which is wrong may be read to its end, and so may the end of the text
    VX_CHECK(col >= sc && col <= (el == sl ? ec : sc + ref.tokEnd - ref.tokStart) + 4, "column", "<%s> is reported as <%s> but the error is at columns %zu to %zu", vx::show(doc).c_str(), vx::show(m).c_str(), sc, ec);
    // pushed down and to the right, the very same error is where it was pushed
    static const char* pushes[] = { "\n", "  ", "\n\n \n", "\n   ", "//c\n", "\r\n\t" };
    for (int k = 0; k < 6; ++k) {
        if (k == 4 && !(opts & jr::RAllowComments)) continue;
        std::string push = pushes[k], pushed = push + doc; size_t dl, dc, l2, c2; where(push, push.size(), dl, dc);
        std::istringstream in2(pushed); json::Reader r2(in2, jr::ropts(opts)); if (shape) { T v = T(); json::parse(r2, v); } else { Value v; json::parse(r2, v); }
        vx::step(); bool is = r2.error() && parsePosition(r2.error().what(), l2, c2);
        VX_CHECK(is && l2 == line + dl - 1 && c2 == (line == 1 ? col + dc - 1 : col), "shifted", "<%s> is reported as <%s> but <%s> as <%s>", vx::show(doc).c_str(), vx::show(m).c_str(), vx::show(pushed).c_str(), r2.error() ? vx::show(r2.error().what()).c_str() : "");
        VX_CHECK(strchr(r2.error().what(), ' ') && !strcmp(strchr(r2.error().what(), ' '), strchr(m.c_str(), ' ')), "message", "<%s> is reported as <%s> but <%s> as <%s>", vx::show(doc).c_str(), vx::show(m).c_str(), vx::show(pushed).c_str(), vx::show(r2.error().what()).c_str());
    }
    r.error("another"); VX_CHECK(m == r.error().what(), "first", "<%s>: a second error replaces the first", vx::show(doc).c_str());
    vx::outcome("error");
}
static void target(int n, const std::string& doc, int opts)
{
    switch (n) { case 0: check<int64_t>(doc, opts, false); break; case 1: check<Doc>(doc, opts, true); break; case 2: check<std::vector<Leaf>>(doc, opts, true); break; case 3: check<Deep>(doc, opts, true); break; case 4: check<int64_t>(doc, opts, true); break; case 5: check<std::map<std::string, int64_t>>(doc, opts, true); break; default: check<Ptrs>(doc, opts, true); }
}

// every token sequence, each token on its line or not
VX_SUITE_D(layouts, 3)
{
    static const std::vector<std::string> t = { "{", "}", "[", "]", ",", ":", "\"i\"", "12", "true", "nul", "\"x", "\n", " ", "//\n", "#" };
    int n = vx::choose(6, "target"), comments = vx::choose(2, "comments");
    target(n, jg::generate(t, vx::pick(4, 6), 1, jr::RDefault | comments).text, jr::RDefault | comments);
}
// every change of a document laid out over many lines
static std::string lay(const char* doc, int how)
{
    std::string r; bool in = false;
    for (const char* c = doc; *c; ++c) {
        if (in) { r += *c; if (*c == '\\') r += *++c; else if (*c == '"') in = false; continue; }
        if (*c == '"') in = true;
        if (*c == ' ') continue;
        if (how == 1 && strchr("}]", *c)) r += '\n';
        r += *c;
        if (how == 1 && strchr("{[,", *c)) r += "\n  "; if (how == 2 && strchr("{}[],:", *c)) r += " // {\" \n"; if (how == 3 && *c == ',') r += "\r\n\n";
    }
    return r;
}
VX_SUITE_D(changes, 3)
{
    int which = vx::choose(jg::RichDocs, "document"), how = vx::choose(4, "layout"); static const int fit[] = { 1, 1, 2, 6, 3 };
    int n = vx::choose(2, "target") ? fit[which] : 0;
    target(n, jg::mutate(lay(jg::rich(which), how)), jr::RDefault | (how == 2 ? int(jr::RAllowComments) : 0));
}
// the wrong kind of value, deep in a document after any number of lines
VX_SUITE_D(kinds, 2)
{
    static const char* wrong[] = { "\"a\"", "1", "1.5", "true", "[1]", "{\"a\":1}", "null", "99999999999999999999", "1e999", "\"\x80\"", "\"\\x\"", "tru", "-", "}" };
    int lines = vx::choose(vx::pick(4, 12), "lines"), at = vx::choose(7, "field"), pad = vx::choose(3, "pad"), w = vx::choose(14, "value"); static const char* names[] = { "b", "i", "f", "s", "o", "v", "m" };
    std::string doc = "{" + std::string(lines, '\n') + std::string(pad * 5, ' ') + "\"x\":[1,\n2],\"" + names[at] + "\":" + (pad == 2 ? "\n\t" : "") + wrong[w] + (lines & 1 ? "\n" : "") + ",\"i\":1}";
    target(1, doc, jr::RDefault); target(0, doc, jr::RDefault);
}
// lines go on over the documents read by one reader
VX_SUITE_D(later, 2)
{
    static const char* first[] = { "1 ", "{}\n", "[\n\n]", "\"a\"\n\n", "true\n" }; static const char* bad[] = { "x", "\n}", "{\n1}", "[1,\n]", "\n\n\"\\q\"" };
    int n = vx::choose(vx::pick(3, 4), "documents"); std::string t; for (int i = 0; i < n; ++i) t += first[vx::choose(5, "first")]; std::string b = bad[vx::choose(5, "bad")]; size_t from = t.size(); t += b;
    std::istringstream in(t); json::Reader r(in); for (int i = 0; i < n; ++i) { Value v; json::parse(r, v); VX_CHECK(!r.error(), "refused", "<%s>: %s", vx::show(t).c_str(), r.error().what()); }
    Value v; json::parse(r, v); vx::step(n + 1); jr::Ref ref(t, jr::RDefault, from); ref.document(); size_t line, col, sl, sc; where(t, ref.tokStart, sl, sc);
    VX_CHECK(r.error() && parsePosition(r.error().what(), line, col) && line == sl && col >= sc, "line", "<%s> is reported as <%s> but the error is at %zu:%zu", vx::show(t).c_str(), r.error() ? vx::show(r.error().what()).c_str() : "", sl, sc);
    vx::outcome("error"); vx::state(vx::hashStr(t));
}
