// C31: a parse takes one document off the stream and nothing more, so documents can follow
// one another on a stream, however its bytes arrive; a stream which ends or fails early is
// an error; printing appends one document, and a stream that fails shows on the writer.
#include "jtypes.h"

using namespace reflect;
using jr::J;

// hands out the text in pieces and knows how far it was asked to go
struct Source : std::streambuf
{
    std::string t; size_t p, chunk, asked, stop; bool throws;
    Source(const std::string& t, size_t chunk, size_t stop = ~0ull, bool throws = false) : t(t), p(0), chunk(chunk), asked(0), stop(stop), throws(throws) {}
    int underflow()
    {
        asked = std::max(asked, p + 1);
        if (p >= stop && throws) throw std::runtime_error("broken pipe");
        if (p >= t.size() || p >= stop) return EOF;
        size_t n = std::min(std::min(chunk, t.size() - p), stop - p); setg(&t[p], &t[p], &t[p] + n); p += n;
        return (unsigned char) *gptr();
    }
    size_t taken() const { return p - (egptr() - gptr()); }
};

static const char* docs[] = { "null", "true", "12", "-1.5e2", "\"a\\\"}\"", "[]", "[1,[2]]", "{}", "{\"k\":{\"l\":[3]}}", "\"\\u00e9\xC3\xA9\"", "[null]", "{\"i\":4,\"s\":\"}\"}" };
enum { Docs = 12 };
static bool isNumber(const std::string& d) { return isdigit((unsigned char) d[0]) || d[0] == '-'; }

// documents one after the other through one Reader, or one per document
VX_SUITE_D(sequences, 3)
{
    static const char* seps[] = { " ", "\n", "", " \t\n ", "//c\n" };
    int n = 1 + vx::choose(vx::pick(3, 4), "documents"), one = vx::choose(2, "reader"), comments = vx::choose(2, "comments"), chunk = 1 + vx::choose(2, "chunk") * 6;
    std::string t; std::vector<std::string> all; std::vector<size_t> ends; int sep = vx::choose(comments ? 5 : 4, "separator");
    for (int i = 0; i < n; ++i) { std::string d = docs[vx::choose(Docs, "document")]; std::string s = seps[sep]; if (i && s.empty() && (isNumber(all.back()) || isalpha((unsigned char) all.back()[0])) && d[0] != '[' && d[0] != '{' && d[0] != '"') s = " "; if (i) t += s; t += d; all.push_back(d); ends.push_back(t.size()); }
    int opts = jr::RDefault | (comments ? int(jr::RAllowComments) : 0);
    Source src(t, chunk); std::istream in(&src); std::unique_ptr<json::Reader> r(new json::Reader(in, jr::ropts(opts)));
    VX_NOTE("<%s> %s", vx::show(t).c_str(), one ? "through one reader" : "each through its reader");
    for (int i = 0; i < n; ++i) {
        Value v; bool b, u; J want = jr::parse(all[i], b, u); std::string thrown;
        if (!one && i) r.reset(new json::Reader(in, jr::ropts(opts)));
        try { json::parse(*r, v); vx::step(); } catch (const std::exception& e) { thrown = e.what(); }
        VX_CHECK(thrown.empty() && !r->error(), "refused", "document %d of <%s>: %s%s", i + 1, vx::show(t).c_str(), thrown.c_str(), r->error() ? r->error().what() : "");
        VX_CHECK(jr::same(v, want), "value", "document %d of <%s> is read as something else", i + 1, vx::show(t).c_str());
        VX_CHECK(src.taken() == ends[i], "taken", "reading document %d of <%s> takes %zu bytes of the stream instead of %zu", i + 1, vx::show(t).c_str(), src.taken(), ends[i]);
        // an interactive stream must not wait for what isn't needed
        VX_CHECK(chunk > 1 || src.asked <= ends[i] + isNumber(all[i]), "waits", "reading document %d of <%s> waits for byte %zu although it ends at %zu", i + 1, vx::show(t).c_str(), src.asked, ends[i]);
        vx::state(vx::hashStr(t, i * 4 + one));
    }
    Value v; std::string thrown; try { json::parse(*r, v); } catch (const std::exception& e) { thrown = e.what(); }
    VX_CHECK(thrown.empty() && r->error() && v.isVoid(), "exhausted", "<%s>: reading past the last document isn't an error", vx::show(t).c_str());
    vx::outcome("read");
}

// typed targets too
VX_SUITE_D(typed, 2)
{
    static const char* ds[] = { "{\"i\":1,\"s\":\"a\"}", "null", "{}", "{\"z\":[{}],\"i\":2}", "{\"s\":\"}\"}" };
    std::string t; std::vector<J> want; js::Shape s = js::Sh<Leaf>::shape(); J m = s.fresh(); std::vector<size_t> ends;
    int n = vx::pick(3, 4), one = vx::choose(2, "reader");
    for (int i = 0; i < n; ++i) { std::string d = ds[vx::choose(5, "document")]; jr::Ref ref(d); ref.next(); js::read(ref, s, m); want.push_back(m); t += d; ends.push_back(t.size()); if (i % 2) t += "\n"; }
    t += " 7 [8,9] \"x\" -2.5 null";
    Source src(t, 1 + vx::choose(3, "chunk")); std::istream in(&src); json::Reader r(in); Leaf leaf;
    for (int i = 0; i < n; ++i) {
        json::Error e; if (one) { json::parse(r, leaf); e = r.error(); } else e = json::parse(in, leaf); vx::step();
        VX_CHECK(!e, "refused", "<%s>: %s", t.c_str(), e.what());
        VX_CHECK(js::dump(leaf) == want[i], "value", "document %d of <%s> gives %s", i + 1, t.c_str(), js::text(js::dump(leaf)).c_str());
        VX_CHECK(src.taken() == ends[i], "taken", "document %d of <%s>: %zu bytes are taken instead of %zu", i + 1, t.c_str(), src.taken(), ends[i]);
    }
    int64_t i = 0; std::vector<int64_t> v; std::string str; double d = 0; Leaf* p = &leaf; json::Error e[5];
    if (one) { json::parse(r, i); json::parse(r, v); json::parse(r, str); json::parse(r, d); json::parse(r, p); e[0] = r.error(); }
    else { e[0] = json::parse(in, i); e[1] = json::parse(in, v); e[2] = json::parse(in, str); e[3] = json::parse(in, d); e[4] = json::parse(in, p); }
    VX_CHECK(!e[0] && !e[1] && !e[2] && !e[3] && !e[4] && i == 7 && v == std::vector<int64_t>({ 8, 9 }) && str == "x" && d == -2.5 && !p, "value", "<%s>: the values that follow are wrong", t.c_str());
    vx::outcome("read"); vx::state(vx::hashStr(t, one));
}

// every point at which the stream may end or break, whatever the size of its pieces
VX_SUITE_D(cut, 2)
{
    static const char* ds[] = { "{\"b\": true, \"i\": -12, \"f\": 1.5e1, \"s\": \"a\\n\\u00e9\xC3\xA9\", \"o\": {\"i\": 3, \"s\": \"x\"}, \"v\": [1, 2], \"m\": {\"k\": 7}} ", "[1,2.5,null,\"\\ud83d\\ude00\",{\"a\":[]}]", "123456", "\"abc\"", "true" };
    std::string t = ds[vx::choose(5, "document")]; int stop = vx::choose(t.size() + 1, "stop"), chunk = 1 + vx::choose(vx::pick(4, 16), "chunk"), how = vx::choose(2, "how"), typed = vx::choose(2, "typed");
    Source src(t, chunk, stop, how); std::istream in(&src); json::Reader r(in); std::string thrown; Value v; Doc doc; bool bad, u; J want = jr::parse(t.substr(0, stop), bad, u);
    if (typed && t[0] != '{') vx::assume(false);
    try { if (typed) json::parse(r, doc); else json::parse(r, v); vx::step(); } catch (const std::exception& e) { thrown = e.what(); }
    VX_CHECK(thrown.empty(), "exception", "<%s> throws <%s> when the stream %s at byte %d", vx::show(t).c_str(), thrown.c_str(), how ? "breaks" : "ends", stop);
    if (u) { vx::outcome("unjudged"); return; }
    VX_CHECK(bool(r.error()) == bad, bad ? "unnoticed" : "refused", "<%s>, of a stream which %s at byte %d, %s", vx::show(t).c_str(), how ? "breaks" : "ends", stop, bad ? "is accepted" : "is refused");
    VX_CHECK(bad || typed || jr::same(v, want), "value", "<%s>, of a stream which ends at byte %d, gives another value", vx::show(t).c_str(), stop);
    vx::outcome(bad ? "error" : "read"); vx::state(vx::hashStr(t, stop * 2 + how));
}
// streams which have failed before
VX_SUITE_D(failed, 1)
{
    std::istringstream in(docs[vx::choose(Docs, "document")]); int bit = vx::choose(3, "bit"), n = vx::choose(5, "target"); in.setstate(bit == 0 ? std::ios::badbit : bit == 1 ? std::ios::failbit : std::ios::eofbit | std::ios::failbit);
    json::Error e; int64_t i = 5; std::string s = "x"; std::vector<int64_t> v(1, 1); Leaf l; Value any; std::string thrown;
    try { switch (n) { case 0: e = json::parse(in, i); break; case 1: e = json::parse(in, s); break; case 2: e = json::parse(in, v); break; case 3: e = json::parse(in, l); break; default: e = json::parse(in, any); } } catch (const std::exception& x) { thrown = x.what(); }
    vx::step(); VX_CHECK(thrown.empty() && e && i == 5 && s == "x" && v.size() == 1 && any.isVoid(), "unnoticed", "reading from a stream which has failed (target %d) %s", n, thrown.empty() ? "isn't an error" : thrown.c_str());
    vx::outcome("error");
}

// a stream that takes only so many bytes
struct Sink : std::streambuf
{
    std::string got; size_t room; explicit Sink(size_t room) : room(room) {}
    int overflow(int c) { if (got.size() >= room) return EOF; got += char(c); return c; }
    std::streamsize xsputn(const char* s, std::streamsize n) { size_t k = std::min<size_t>(n, room - got.size()); got.append(s, k); return k; }
};
VX_SUITE_D(sinks, 2)
{
    Doc d; d.b = true; d.i = 12; d.s = "a/\xE2\x82\xAC"; d.v = { 1, 2 }; d.m["k"] = 3; d.o.s = "z";
    int opts = vx::choose(16, "options"), what = vx::choose(3, "what"); std::vector<Doc> v(2, d);
    std::ostringstream full; { json::Writer w(full, jr::wopts(opts)); what == 0 ? json::print(w, d) : what == 1 ? json::print(w, v) : json::print(w, d.s); }
    std::string want = full.str(); int room = vx::choose(want.size() + 2, "room");
    Sink sink(room); std::ostream out(&sink); json::Writer w(out, jr::wopts(opts)); std::string thrown; vx::step();
    try { what == 0 ? json::print(w, d) : what == 1 ? json::print(w, v) : json::print(w, d.s); } catch (const std::exception& x) { thrown = x.what(); }
    VX_CHECK(thrown.empty(), "exception", "printing to a stream which takes %d bytes throws <%s>", room, thrown.c_str());
    VX_CHECK(bool(w) == (room >= int(want.size())), "unnoticed", "a writer whose stream takes %d of %zu bytes is %s", room, want.size(), w ? "fine" : "failed");
    VX_CHECK(want.compare(0, sink.got.size(), sink.got) == 0 && sink.got.size() <= size_t(room), "text", "a stream which takes %d bytes is given <%s>", room, vx::show(sink.got).c_str());
    vx::outcome(w ? "printed" : "failed"); vx::state(vx::hashStr(sink.got, room));
}

// several documents printed through one writer, or one writer each, read back in turn
VX_SUITE_D(appended, 2)
{
    int opts = vx::choose(16, "options"), one = vx::choose(2, "writer"), n = vx::pick(3, 4); std::ostringstream out; std::string want; std::vector<int> kinds; out << "[";
    want = "["; json::Writer w(out, jr::wopts(opts));
    for (int i = 0; i < n; ++i) {
        std::ostringstream alone; json::Writer aw(alone, jr::wopts(opts)); json::Writer mine(out, jr::wopts(opts)); json::Writer& u = one ? w : mine; int k = vx::choose(4, "kind"); kinds.push_back(k);
        if (i) { out << ",\n"; want += ",\n"; } Leaf l; l.i = i; l.s = "q"; std::map<std::string, int64_t> m; m["x"] = i; m["y"] = 2;
        switch (k) { case 0: json::print(u, l); json::print(aw, l); break; case 1: json::print(u, m); json::print(aw, m); break; case 2: json::print(u, int64_t(i)); json::print(aw, int64_t(i)); break; default: json::print(u, std::vector<Leaf>(2, l)); json::print(aw, std::vector<Leaf>(2, l)); }
        want += alone.str(); vx::step(2);
    }
    out << "]"; want += "]";
    VX_CHECK(out.str() == want, "text", "documents printed in a row give <%s> instead of <%s>", vx::show(out.str()).c_str(), vx::show(want).c_str());
    bool bad, u; J j = jr::parse(want, bad, u); VX_CHECK(!bad && j.a.size() == size_t(n), "malformed", "<%s> isn't a document", vx::show(want).c_str());
    vx::outcome("printed"); vx::state(vx::hashStr(want, one));
}

// the formatting which the program has set on a stream concerns neither reading nor printing
static void format(std::ios& s, int how)
{
    static const std::ios::fmtflags flags[] = { std::ios::dec, std::ios::hex | std::ios::showbase, std::ios::oct, std::ios::boolalpha, std::ios::showpos, std::ios::scientific | std::ios::uppercase, std::ios::fixed, std::ios::left, std::ios::internal, std::ios::unitbuf };
    s.flags((how % 2 ? std::ios::skipws : std::ios::fmtflags(0)) | flags[how / 2 % 10]);
    static const int width[] = { 0, 1, 5, 40 }, precision[] = { 0, 2, 6, 30 };
    s.width(width[how / 20 % 4]); s.precision(precision[how / 80 % 4]); s.fill("* 0\""[how / 320]);
}
VX_SUITE_D(formats, 2)
{
    int how = vx::choose(2 * 10 * 4 * 4 * 4, "format"), pretty = vx::choose(3, "options"), n = vx::choose(6, "value"), via = vx::choose(2, "via");
    std::string t = docs[vx::choose(Docs, "document")];
    std::string plain; std::ostringstream out; format(out, how); int opts = pretty == 0 ? 0 : pretty == 1 ? int(jr::WDefault) : int(jr::WDefault) | jr::WEscapeUnicode;
    double d = -1234.5678; int64_t i = 255; bool b = true; std::string s = "\xC3\xA9/\n"; std::vector<int64_t> v = { 10, -20 }; Leaf leaf; leaf.i = 77; leaf.s = "x";
#define BOTH(x) do { std::ostringstream o; json::Writer w(o, jr::wopts(opts)); json::print(w, x); plain = o.str(); json::Writer f(out, jr::wopts(opts)); if (via) { json::Error e = json::print(out, x); VX_CHECK(!e, "refused", "%s", e.what()); } else { json::print(f, x); VX_CHECK(!f.error(), "refused", "%s", f.error().what()); } if (via) plain = json::print(x).first; } while (0)
    switch (n) { case 0: BOTH(d); break; case 1: BOTH(i); break; case 2: BOTH(b); break; case 3: BOTH(s); break; case 4: BOTH(v); break; default: BOTH(leaf); }
    vx::step(2);
    VX_CHECK(out.str() == plain, "format", "with format #%d of the stream <%s> is printed as <%s>", how, vx::show(plain).c_str(), vx::show(out.str()).c_str());
    std::istringstream in(" \n" + t + " 12"); format(in, how); Value got; bool bad, u; J want = jr::parse(t, bad, u); json::Error e = json::parse(in, got); vx::step();
    VX_CHECK(!e && jr::same(got, want), "format", "with format #%d of the stream <%s> is read as something else", how, t.c_str());
    int64_t next = 0; e = json::parse(in, next); VX_CHECK(!e && next == 12, "format", "with format #%d of the stream what follows <%s> is lost", how, t.c_str());
    vx::outcome("same"); vx::state(vx::mix(how, pretty * 6 + n));
}
