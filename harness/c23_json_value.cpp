// C23: a document read into an untyped Value is accepted exactly when it's JSON, and the
// Value holds exactly what the document says, whatever the layout of the text.
#include "jtypes.h"
#include "jgen.h"

using namespace reflect;

static void check(const std::string& doc, int opts = jr::RDefault)
{
    bool bad, unjudged; jr::J want = jr::parse(doc, bad, unjudged, opts);
    if (want.bigAnywhere()) bad = true;
    std::istringstream in(doc); json::Reader r(in, jr::ropts(opts));
    Value got; std::string thrown;
    try { vx::step(); json::parse(r, got); } catch (const std::exception& e) { thrown = e.what(); }
    vx::state(vx::hashStr(doc, opts));
    VX_NOTE("options %d <%s>: %s", opts, vx::show(doc).c_str(), bad ? "an error" : js::text(want).c_str());
    VX_CHECK(thrown.empty(), "exception", "<%s> (options %d) throws <%s>", vx::show(doc).c_str(), opts, thrown.c_str());
    if (unjudged && !bad) { vx::outcome("unjudged"); return; }
    VX_CHECK(bad || !r.error(), "refused", "<%s> (options %d) is refused: %s", vx::show(doc).c_str(), opts, r.error().what());
    VX_CHECK(!bad || r.error(), "accepted", "<%s> (options %d) is accepted", vx::show(doc).c_str(), opts);
    if (bad) { vx::outcome("refused"); return; }
    VX_CHECK(want.dupAnywhere() || jr::same(got, want), "value", "<%s> (options %d) isn't read as %s", vx::show(doc).c_str(), opts, js::text(want).c_str());
    vx::outcome("accepted");
}

VX_SUITE_D(tokens, 4)
{
    check(jg::generate(jg::tokens(), vx::pick(8, 10), vx::pick(2, 3), jr::RDefault, true).text);
}

VX_SUITE_D(bytes, 3)
{
    int opts = vx::choose(8, "options");
    check(jg::generate(jg::bytes(), vx::pick(4, 5), vx::pick(1, 1), opts).text, opts);
}

// every gap between the tokens of every short document, filled in every way
VX_SUITE_D(gaps, 3)
{
    static const char* gap[] = { "", " ", "\n", "\t", "\r\n", "\v\f", "//\n", " // \"],}\n ", "//c", "/ /", "/", "#" };
    int opts = vx::choose(2, "comments") ? jr::RDefault | jr::RAllowComments : jr::RDefault;
    std::string doc; int n = vx::pick(2, 3); 
    for (int i = 0; ; ++i) {
        jr::Ref r(doc, opts); jr::J j = r.document();
        bool number = !r.bad && r.p == doc.size() && (j.k == jr::J::Int || j.k == jr::J::Float);
        if ((r.bad && !r.eof) || (!r.bad && !number) || i >= n + 2) break;
        int c = vx::choose(jg::tokens().size() + 1, "token"); if (!c) break;
        const std::string& p = jg::tokens()[c - 1];
        if (i <= n) doc += gap[vx::choose(sizeof gap / sizeof *gap, "gap")];
        if (!doc.empty() && jg::joins(doc.back(), p[0])) doc += ' ';
        doc += p;
    }
    check(doc, opts);
}

// every document which holds up to three values, nested every way
static std::string value(int& left, int depth)
{
    static const char* leaf[] = { "0", "-7", "1.25e-3", "\"\"", "\"\\\"\\\\\\u20ac\"", "true", "false", "null", "[]", "{}" };
    int c = vx::choose(left > 0 && depth > 0 ? 12 : 10, "value");
    if (c < 10) return leaf[c];
    std::string s(1, c == 10 ? '[' : '{'); left--;
    int n = 1 + vx::choose(2, "size");
    for (int i = 0; i < n; ++i) { if (i) s += ','; if (c == 11) s += i ? "\"k\":" : "\"\":"; s += value(left, depth - 1); }
    return s + (c == 10 ? ']' : '}');
}
VX_SUITE_D(trees, 3) { int left = vx::pick(3, 4); check(value(left, 4)); }

// every single-byte change of rich documents
VX_SUITE_D(changes, 3) { check(jg::mutate(jg::rich(vx::choose(jg::RichDocs, "document")))); }

// long strings, arrays, objects and deep nesting
VX_SUITE_D(sizes, 2)
{
    static const int around[] = { 0, 1, 2, 7, 15, 16, 17, 31, 32, 63, 64, 65, 126, 127, 128, 129, 255, 256, 257, 511, 512, 1023, 1024, 1025, 4095, 4096, 4097 };
    int kind = vx::choose(9, "kind"), n = around[vx::choose(sizeof around / sizeof *around, "size")], cut = vx::choose(3, "cut");
    if (kind == 5 || kind == 6) n = std::min(n, 1024);
    std::string d;
    switch (kind) {
    case 0: d = '"' + std::string(n, 'x') + '"'; break;
    case 1: { d = '"'; for (int i = 0; i < n; ++i) d += i % 3 ? "\\n" : "\\u00e9"; d += '"'; break; }
    case 2: { d = '['; for (int i = 0; i < n; ++i) d += (i ? "," : "") + std::to_string(i); d += ']'; break; }
    case 3: { d = '{'; for (int i = 0; i < n; ++i) d += (i ? ",\"" : "\"") + std::to_string(i * 7919) + "\":" + std::to_string(i); d += '}'; break; }
    case 4: d = std::string(n, ' ') + "1" + std::string(n, '\n'); break;
    case 5: d = std::string(n, '[') + std::string(n, ']'); if (!n) d = "[]"; break;
    case 6: { for (int i = 0; i < n; ++i) d += "{\"a\":"; d += "1" + std::string(n, '}'); break; }
    case 7: d = "{\"" + std::string(n, 'k') + "\":[\"" + std::string(n, 'v') + "\"]}"; break;
    case 8: d = "0." + std::string(n, '3') + "1"; break;
    }
    if (cut == 1 && !d.empty()) d.pop_back();
    if (cut == 2) d = "[" + d + "," + d + "]";
    check(d);
}

// a target which already holds something is replaced by what the document says
VX_SUITE_D(again, 2)
{
    static const char* docs[] = { "1", "2.5", "true", "\"s\"", "[1]", "{\"a\":[2]}", "[]", "{}" };
    std::istringstream first(docs[vx::choose(8, "first")]), second(docs[vx::choose(8, "second")]);
    // Read into the Value that an array or a map holds
    std::vector<Value> v(2); std::string one = first.str(), two = second.str();
    json::parse(one, v[0]); json::parse(two, v[1]); vx::step(2);
    bool b, u;
    VX_CHECK(jr::same(v[0], jr::parse(one, b, u)) && jr::same(v[1], jr::parse(two, b, u)), "value", "<%s> then <%s>: the values read aren't independent", one.c_str(), two.c_str());
    vx::outcome("independent");
}
