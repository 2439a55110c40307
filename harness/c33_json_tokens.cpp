// C33: the token and generic parsing interfaces: peeking never consumes, every token comes
// once and in order with its value, an error sticks, and user callbacks see each member
// and item exactly once with the reader where it belongs.
#include "jtypes.h"
#include "jgen.h"

using namespace reflect;
using jr::J;
typedef json::Token Token;

static Token::Type kind(jr::Tok t)
{
    switch (t) {
    case jr::TObj: return Token::ObjectStart; case jr::TObjEnd: return Token::ObjectEnd; case jr::TArr: return Token::ArrayStart; case jr::TArrEnd: return Token::ArrayEnd;
    case jr::TSep: return Token::Separator; case jr::TKey: return Token::KeySeparator; case jr::TStr: return Token::String; case jr::TInt: return Token::Int; case jr::TFloat: return Token::Float;
    case jr::TBool: return Token::Bool; case jr::TNull: return Token::Null; default: return Token::EOS;
    }
}
static const Token::Type types[] = { Token::ObjectStart, Token::ObjectEnd, Token::ArrayStart, Token::ArrayEnd, Token::Separator, Token::KeySeparator, Token::String, Token::Int, Token::Float, Token::Bool, Token::Null, Token::EOS };

static bool holds(const Token& t, const jr::Ref& r)
{
    if (t.type() != kind(r.tok)) return false;
    switch (r.tok) {
    case jr::TStr: return t.asString() == r.cur.s; case jr::TBool: return t.asBool() == r.cur.b;
    case jr::TInt: return r.cur.big || (t.asInt() == r.cur.i && t.asFloat() == r.cur.d); case jr::TFloat: return r.cur.big || t.asFloat() == r.cur.d;
    default: return true;
    }
}

// every text, every way to ask for its tokens
VX_SUITE_D(requests, 3)
{
    static const std::vector<std::string> t = { "{", "]", ",", ":", "\"a\"", "\"\"", "1", "-2.5", "true", "false", "null", " ", "x", "//\n", "\"" };
    std::string text; int len = vx::choose(vx::pick(4, 5) + 1, "length"), comments = vx::choose(2, "comments");
    for (int i = 0; i < len; ++i) { const std::string& p = t[vx::choose(t.size(), "piece")]; if (!text.empty() && jg::joins(text.back(), p[0])) text += ' '; text += p; }
    std::istringstream in(text); json::Reader r(in, jr::ropts(jr::RDefault | comments)); jr::Ref ref(text, jr::RDefault | comments);
    int pattern = vx::choose(4, "requests"); bool failed = false;
    for (int i = 0; i < len + 2; ++i) {
        ref.next(); bool bad = ref.bad; std::string thrown; Token k; vx::step();
        if (failed) {
            k = pattern & 1 ? r.peekToken() : r.nextToken();
            VX_CHECK(k.type() == Token::EOS && r.error(), "sticky", "<%s>: a token follows an error", vx::show(text).c_str());
            continue;
        }
        try {
            int peeks = pattern == 1 ? 1 : pattern == 2 ? i % 3 : pattern == 3 ? 2 : 0;
            for (int p = 0; p < peeks; ++p) { Token a = r.peekToken(); if (!bad) VX_CHECK(holds(a, ref), "peek", "<%s>: peeking at token %d gives %s", vx::show(text).c_str(), i, a.print().c_str()); }
            if (pattern == 3 && !bad) k = r.expectToken(kind(ref.tok)); else k = r.nextToken();
        }
        catch (const std::exception& e) { thrown = e.what(); }
        VX_CHECK(thrown.empty(), "exception", "<%s>: token %d throws <%s>", vx::show(text).c_str(), i, thrown.c_str());
        VX_CHECK(bool(r.error()) == bad, bad ? "accepted" : "refused", "<%s>: token %d %s", vx::show(text).c_str(), i, bad ? "isn't an error" : r.error().what());
        if (bad) { failed = true; continue; }
        VX_CHECK(holds(k, ref), "token", "<%s>: token %d is %s", vx::show(text).c_str(), i, k.print().c_str());
    }
    vx::outcome(failed ? "error" : "tokens"); vx::state(vx::hashStr(text, pattern));
}

// expecting every type where there is any other
VX_SUITE_D(expectations, 2)
{
    static const char* texts[] = { "{", "}", "[", "]", ",", ":", "\"a\"", "1", "2.5", "true", "null", "", "x", "false", "\"null\"" };
    std::string text = texts[vx::choose(15, "text")]; Token::Type want = types[vx::choose(12, "expected")]; int peek = vx::choose(2, "peek"), how = vx::choose(2, "how"); vx::step();
    std::istringstream in(text + " 7"); if (text.empty()) in.str(""); json::Reader r(in); jr::Ref ref(text); ref.next(); if (peek) r.peekToken();
    bool right = !ref.bad && kind(ref.tok) == want; Token k;
    if (how) k = r.expectToken(want); else { k = r.nextToken(); bool ok = r.assertToken(k, want); VX_CHECK(ok == right || ref.bad, "assert", "<%s>: assertToken(%s) is %d", text.c_str(), json::print(want).c_str(), ok); if (!ok) k = Token(Token::EOS); }
    VX_CHECK(bool(r.error()) == (ref.bad || !right), right ? "refused" : "accepted", "<%s> where <%s> is expected %s", text.c_str(), json::print(want).c_str(), right ? "is refused" : "is accepted");
    if (right) VX_CHECK(holds(k, ref), "token", "<%s> is given as %s", text.c_str(), k.print().c_str());
    else VX_CHECK(k.type() == Token::EOS, "token", "<%s> where <%s> is expected gives %s", text.c_str(), json::print(want).c_str(), k.print().c_str());
    if (right && !text.empty()) { Token n = r.nextToken(); VX_CHECK(n.type() == Token::Int && n.asInt() == 7, "next", "<%s 7>: the token after it is %s", text.c_str(), n.print().c_str()); }
    vx::outcome(right ? "expected" : "unexpected"); vx::state(vx::hashStr(text, want));
}

// tokens are only converted to what they are
VX_SUITE_D(conversions, 1)
{
    static const char* texts[] = { "{", "}", "[", "]", ",", ":", "\"12\"", "12", "2.5", "true", "false", "null", "" };
    std::string text = texts[vx::choose(13, "text")]; std::istringstream in(text); json::Reader r(in); Token k = r.nextToken(); vx::step(4); jr::Ref ref(text); ref.next();
    auto errs = [] (std::function<void()> f) { return vt::errs(f); };
    VX_CHECK(errs([&] { k.asBool(); }) == (ref.tok != jr::TBool), "bool", "<%s> as a bool", text.c_str());
    VX_CHECK(errs([&] { k.asInt(); }) == (ref.tok != jr::TInt), "int", "<%s> as an int", text.c_str());
    VX_CHECK(errs([&] { k.asFloat(); }) == (ref.tok != jr::TInt && ref.tok != jr::TFloat), "float", "<%s> as a float", text.c_str());
    VX_CHECK(errs([&] { k.asString(); }) == (ref.tok != jr::TStr), "string", "<%s> as a string", text.c_str());
    VX_CHECK(!k.print().empty() && !json::print(k.type()).empty(), "print", "<%s> isn't printed", text.c_str());
    vx::outcome("converted"); vx::state(vx::hashStr(text));
}

// the scalar parsers, each on every kind of value
VX_SUITE_D(scalars, 2)
{
    static const char* texts[] = { "null", "true", "false", "0", "-3", "9223372036854775807", "9223372036854775808", "2.5", "1e999", "\"\"", "\"s\"", "[", "]", "{", "}", ",", ":", "", "x", "\"", "tru" };
    std::string text = texts[vx::choose(21, "text")]; int what = vx::choose(5, "parser"), peek = vx::choose(2, "peek"); std::istringstream in(text); json::Reader r(in); jr::Ref ref(text); ref.next(); if (peek) r.peekToken(); vx::step();
    bool ok = !ref.bad, value = true; std::string thrown;
    try {
        switch (what) {
        case 0: json::parseNull(r); ok = ok && ref.tok == jr::TNull; break;
        case 1: { bool b = json::parseBool(r); ok = ok && ref.tok == jr::TBool; value = ok ? b == ref.cur.b : true; break; }
        case 2: { int64_t i = json::parseInt(r); ok = ok && ref.tok == jr::TInt && !ref.cur.big; value = ok ? i == ref.cur.i : i == 0; break; }
        case 3: { double d = json::parseFloat(r); ok = ok && (ref.tok == jr::TInt || ref.tok == jr::TFloat) && std::isfinite(ref.cur.d); value = ok ? d == ref.cur.d : d == 0; break; }
        default: { std::string s = json::parseString(r); ok = ok && ref.tok == jr::TStr; value = ok ? s == ref.cur.s : s.empty(); break; }
        }
    }
    catch (const std::exception& e) { thrown = e.what(); }
    VX_CHECK(thrown.empty(), "exception", "<%s>, parser %d: throws <%s>", text.c_str(), what, thrown.c_str());
    VX_CHECK(ok == !r.error(), ok ? "refused" : "accepted", "<%s>, parser %d: %s", text.c_str(), what, ok ? r.error().what() : "accepted");
    VX_CHECK(value, "value", "<%s>, parser %d: wrong value", text.c_str(), what);
    vx::outcome(ok ? "value" : "error"); vx::state(vx::hashStr(text, what));
}

// callbacks: whatever they do with each value, the walk sees what's there, in order
static void expected(const J& j, const std::string& hows, size_t& at, bool forced, std::string& log)
{
    int how = forced ? 1 : at < hows.size() ? hows[at++] - '0' : 1;
    if (how == 0) { log += '.'; return; } if (how == 2) { log += '~'; return; }
    switch (j.k) {
    case J::Null: log += 'n'; break; case J::Bool: log += j.b ? 't' : 'f'; break; case J::Int: log += "i" + std::to_string(j.i); break; case J::Float: log += "d" + std::to_string(j.d); break; case J::Str: log += "s" + j.s; break;
    case J::Arr: { log += '['; size_t i = 0; for (auto& x : j.a) { log += std::to_string(i++) + "="; expected(x, hows, at, false, log); } log += ']'; break; }
    default: log += '{'; for (auto& f : j.o) { log += f.first + ":"; expected(f.second, hows, at, false, log); } log += '}'; break;
    }
}
VX_SUITE_D(callbacks, 2)
{
    static const char* docs[] = { "[1,[2,{\"a\":3}],{\"b\":[4,5],\"c\":null},\"x\"]", "{\"a\":{\"b\":{\"c\":[true]}},\"d\":[[],[{}]],\"e\":-1.5,\"f\":\"]\"}", "[]", "{}", "[{\"k\":\"}\"},[\"]\",[false,null]],0]", "{\"a\":[1,2,3],\"a\":{\"a\":\"a\"}}" };
    std::string text = docs[vx::choose(6, "document")]; int wrap = vx::choose(2, "trailing"); std::istringstream in(text + (wrap ? " [8]" : "")); json::Reader r(in);
    // the choices which the callbacks make, in the order in which they're called
    std::string hows; int n = vx::pick(6, 8);
    for (int i = 0; i < n; ++i) hows += char('0' + vx::choose(3, "how"));
    struct W2 { json::Reader& r; std::string log, hows; size_t at;
        void value(int how) {
            if (how == 0) { json::skip(r); log += '.'; return; } if (how == 2) { Value v; json::parse(r, v); log += '~'; return; }
            switch (r.peekToken().type()) {
            case Token::Null: json::parseNull(r); log += 'n'; break; case Token::Bool: log += json::parseBool(r) ? 't' : 'f'; break; case Token::Int: log += "i" + std::to_string(json::parseInt(r)); break;
            case Token::Float: log += "d" + std::to_string(json::parseFloat(r)); break; case Token::String: log += "s" + json::parseString(r); break;
            case Token::ArrayStart: log += '['; json::parseArray(r, [&] (size_t i) { log += std::to_string(i) + "="; value(next()); }); log += ']'; break;
            case Token::ObjectStart: log += '{'; json::parseObject(r, [&] (const std::string& k) { log += k + ":"; value(next()); }); log += '}'; break;
            default: json::skip(r); break;
            } }
        int next() { return at < hows.size() ? hows[at++] - '0' : 1; } } w = { r, "", hows, 0 };
    std::string thrown; try { w.value(1); vx::step(); } catch (const std::exception& e) { thrown = e.what(); }
    bool b, u; J j = jr::parse(text, b, u); std::string want; size_t at = 0; expected(j, hows, at, true, want);
    VX_CHECK(thrown.empty() && !r.error(), "refused", "<%s> is refused by callbacks %s: %s%s", text.c_str(), hows.c_str(), thrown.c_str(), r.error() ? r.error().what() : "");
    VX_CHECK(w.log == want, "walk", "<%s> with callbacks %s is walked as %s instead of %s", text.c_str(), hows.c_str(), w.log.c_str(), want.c_str());
    if (wrap) { std::vector<int64_t> v; json::parse(r, v); VX_CHECK(!r.error() && v == std::vector<int64_t>(1, 8), "next", "<%s>: what follows isn't read", text.c_str()); }
    vx::outcome("walked"); vx::state(vx::hashStr(want, wrap));
}

// an error raised by the user's callback ends the walk and is the one reported
VX_SUITE_D(user_errors, 2)
{
    static const char* docs[] = { "[1,[2,3],{\"a\":4,\"b\":[5]},6]", "{\"a\":1,\"b\":{\"c\":[2,3],\"d\":4},\"e\":5}" };
    std::string text = docs[vx::choose(2, "document")]; int at = vx::choose(9, "at"), consume = vx::choose(2, "consume"), seen = 0, after = 0; std::istringstream in(text); json::Reader r(in);
    std::function<void()> value; auto visit = [&] { if (r.error()) after++; if (seen++ == at) { if (consume) json::skip(r); r.error("stop %d here", 42); return; } value(); };
    value = [&] { Token::Type t = r.peekToken().type(); if (t == Token::ArrayStart) json::parseArray(r, [&] (size_t) { visit(); }); else if (t == Token::ObjectStart) json::parseObject(r, [&] (const std::string&) { visit(); }); else json::skip(r); };
    std::string thrown; try { value(); vx::step(); } catch (const std::exception& e) { thrown = e.what(); }
    bool stopped = seen > at; std::string m = r.error() ? r.error().what() : "";
    VX_CHECK(thrown.empty() && stopped == bool(r.error()) && (!stopped || m.find("stop 42 here") != std::string::npos), "user", "<%s>: the error of callback %d isn't what's reported: <%s>%s", text.c_str(), at, m.c_str(), thrown.c_str());
    VX_CHECK(!after && (!stopped || seen == at + 1), "goes on", "<%s>: callbacks are still called after the error of callback %d", text.c_str(), at);
    vx::outcome(stopped ? "stopped" : "whole"); vx::state(vx::hashStr(text, at * 2 + consume));
}

// skip takes exactly one value, whatever it is, and refuses what isn't one
VX_SUITE_D(skips, 3)
{
    jg::Doc d = jg::generate(jg::tokens(), vx::pick(6, 8), vx::pick(1, 2), jr::RDefault, true);
    std::istringstream in(d.text + " \"end\""); json::Reader r(in); std::string thrown; bool bad, u; jr::Ref ref(d.text); 
    std::string whole = d.text + " \"end\""; jr::Ref full(whole); full.document(); bad = full.bad; (void) u;
    try { json::skip(r); vx::step(); } catch (const std::exception& e) { thrown = e.what(); }
    VX_CHECK(thrown.empty() && bool(r.error()) == bad, bad ? "accepted" : "refused", "skipping <%s> %s %s", whole.c_str(), bad ? "is accepted" : r.error().what(), thrown.c_str());
    if (!bad) { full.next(); Token k = r.nextToken(); VX_CHECK(holds(k, full), "next", "the token after skipping in <%s> is %s", whole.c_str(), k.print().c_str()); }
    vx::outcome(bad ? "error" : "skipped"); vx::state(vx::hashStr(d.text));
}

// whatever a comment holds, it ends with its line and the tokens around it are what they were
VX_SUITE_D(comments, 2)
{
    static const char* toks[] = { "[", "1", ",", "{", "\"a\"", ":", "true", "}", "]" };
    int at = vx::choose(10, "gap"), c = vx::choose(256, "byte"), where = vx::choose(4, "where"), ending = vx::choose(3, "ending");
    if (c == '\n') { vx::assume(false); return; }
    std::string body = where == 0 ? std::string(1, char(c)) : where == 1 ? std::string(1, char(c)) + " 9 ]" : where == 2 ? " x" + std::string(1, char(c)) + "/*\"" : std::string(3, char(c)) + "// \\";
    std::string text; bool last = false;
    for (int i = 0; i < 10; ++i) { if (i == at) { last = i == 9 && ending == 2; text += "//" + body + (ending == 1 ? "\r\n" : last ? "" : "\n"); } if (i < 9) text += toks[i]; }
    VX_NOTE("<%s>", vx::show(text).c_str());
    std::istringstream in(text); json::Reader r(in, jr::ropts(jr::RDefault | jr::RAllowComments)); std::string thrown; int got = 0; vx::step();
    static const Token::Type want[] = { Token::ArrayStart, Token::Int, Token::Separator, Token::ObjectStart, Token::String, Token::KeySeparator, Token::Bool, Token::ObjectEnd, Token::ArrayEnd };
    try { for (int i = 0; i < 9; ++i, ++got) { Token k = r.nextToken(); if (k.type() != want[i]) break; } } catch (const std::exception& x) { thrown = x.what(); }
    VX_CHECK(thrown.empty() && got == 9 && !r.error(), "comment", "<%s>: token %d isn't %s: %s %s", vx::show(text).c_str(), got, got < 9 ? toks[got] : "", r.error().what(), thrown.c_str());
    Token end = r.nextToken(); VX_CHECK(end.type() == Token::EOS && !r.error(), "end", "<%s>: %s at the end", vx::show(text).c_str(), end.print().c_str());
    // and refused where there are none
    std::istringstream in2(text); json::Reader r2(in2); bool refused = false; for (int i = 0; i < 10 && !refused; ++i) { Token k = r2.nextToken(); refused = bool(r2.error()); if (k.type() == Token::EOS) break; }
    VX_CHECK(refused, "allowed", "<%s>: comments are read although they aren't allowed", vx::show(text).c_str());
    vx::outcome("skipped"); vx::state(vx::hashStr(text, 1));
}
// and every byte between two tokens is either a space or an error
VX_SUITE_D(spaces, 2)
{
    int c = vx::choose(256, "byte"), n = 1 + vx::choose(3, "times"), at = vx::choose(5, "gap"); static const char* toks[] = { "[", "\"a\"", ",", "\"b\"", "]" };
    std::string text; for (int i = 0; i < 5; ++i) { if (i == at) text += std::string(n, char(c)); text += toks[i]; }
    std::istringstream in(text); json::Reader r(in); jr::Ref ref(text); vx::step(); VX_NOTE("<%s>", vx::show(text).c_str());
    for (int i = 0; i < 8; ++i) {
        ref.next(); if (ref.unjudged) break; Token k = r.nextToken();
        VX_CHECK(bool(r.error()) == ref.bad, ref.bad ? "accepted" : "refused", "<%s>: token %d %s", vx::show(text).c_str(), i, ref.bad ? "isn't an error" : r.error().what());
        if (ref.bad) { vx::outcome("error"); break; }
        VX_CHECK(holds(k, ref), "token", "<%s>: token %d is %s", vx::show(text).c_str(), i, k.print().c_str());
        if (ref.tok == jr::TEnd) vx::outcome("spaces");
    }
    vx::state(vx::hashStr(text, 2));
}
