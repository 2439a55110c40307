// C27: strings survive exactly: every code point, escape and pair of surrogates means
// what JSON says, and every ill-formed sequence of bytes is refused both ways.
#include "jtypes.h"

using namespace reflect;
typedef json::Reader R; typedef json::Writer W;

static bool surrogates(const std::string& t) { for (size_t p = 0; p < t.size();) { uint32_t c; size_t n = jr::utf8(t, p, &c); if (!n) { p++; continue; } if (n == 3 && c >= 0xD800 && c < 0xE000) return true; p += n; } return false; }

static bool parse(const std::string& doc, int opts, std::string& value, bool wrap)
{
    std::istringstream in(wrap ? "{\"k\":[" + doc + "]}" : doc); R r(in, jr::ropts(opts)); vx::step();
    try {
        if (!wrap) json::parse(r, value);
        else { std::map<std::string, std::vector<std::string>> m; json::parse(r, m); if (!r.error()) value = m["k"].at(0); }
    }
    catch (const std::exception& e) { vx::fail("exception", "parsing <%s> throws <%s>", vx::show(doc).c_str(), e.what()); }
    return !r.error();
}
static bool print(const std::string& value, int opts, std::string& text)
{
    std::ostringstream out; W w(out, jr::wopts(opts)); vx::step();
    try { json::print(w, value); } catch (const std::exception& e) { vx::fail("exception", "printing <%s> throws <%s>", vx::show(value).c_str(), e.what()); }
    text = out.str(); return !w.error();
}

// reads the literal under every option and compares with the reference
static void read(const std::string& doc, int opts, bool wrap = false)
{
    jr::Ref ref(doc, opts); ref.next(); std::string got = "before"; bool ok = parse(doc, opts, got, wrap);
    vx::state(vx::hashStr(doc, opts));
    VX_NOTE("options %d reads <%s>", opts, vx::show(doc).c_str());
    if ((ref.unjudged && !ref.bad) || (!ref.bad && surrogates(ref.cur.s)) || surrogates(doc)) { vx::outcome("unjudged"); return; }
    VX_CHECK(ok || ref.bad, "refused", "<%s> is refused under options %d", vx::show(doc).c_str(), opts);
    VX_CHECK(!ok || !ref.bad, "accepted", "<%s> is accepted under options %d", vx::show(doc).c_str(), opts);
    VX_CHECK(!ok || got == ref.cur.s, "value", "<%s> reads as <%s> instead of <%s> under options %d", vx::show(doc).c_str(), vx::show(got).c_str(), vx::show(ref.cur.s).c_str(), opts);
    vx::outcome(ok ? "read" : "refused");
}
static void write(const std::string& value, int opts, bool back = true)
{
    if (surrogates(value)) { vx::outcome("unjudged"); return; }
    bool checks = opts & (jr::WEscapeUnicode | jr::WValidateUnicode), valid = jr::validUtf8(value);
    std::string text; bool ok = print(value, opts, text);
    VX_NOTE("options %d writes <%s> as <%s>", opts, vx::show(value).c_str(), vx::show(text).c_str());
    VX_CHECK(ok == (!checks || valid), ok ? "printed" : "unprinted", "<%s> is %s under options %d", vx::show(value).c_str(), ok ? "printed" : "refused", opts);
    vx::state(vx::hashStr(value, 100 + opts));
    if (!ok) { vx::outcome("unprinted"); return; }
    std::string want = jr::quote(value, opts);
    VX_CHECK(text == want, "text", "<%s> is printed as <%s> instead of <%s> under options %d", vx::show(value).c_str(), vx::show(text).c_str(), vx::show(want).c_str(), opts);
    if (back) {
        std::string again; ok = parse(text, valid ? int(jr::RDefault) : int(jr::RUnescapeUnicode), again, false);
        VX_CHECK(ok && again == value, "back", "<%s> is printed as <%s> which reads as <%s>", vx::show(value).c_str(), vx::show(text).c_str(), vx::show(again).c_str());
    }
    vx::outcome("printed");
}
static const int writers[] = { 0, jr::WEscapeUnicode, jr::WValidateUnicode, jr::WDefault };

// every code point, raw and escaped, alone and between others
VX_SUITE_D(codepoints, 2)
{
    int hi = vx::choose(0x1100, "high"), lo = vx::choose(0x100, "low"), around = vx::pick(0, 0);
    if (vx::thorough()) around = vx::choose(3, "around");
    uint32_t c = hi << 8 | lo; if (c >= 0xD800 && c < 0xE000) { vx::outcome("surrogate"); return; }
    std::string raw = jr::encode(c), s = around == 1 ? "a" + raw : around == 2 ? raw + "\xC3\xA9" + raw : raw;
    for (int w = vx::thorough() ? 0 : 3; w < 4; ++w) write(s, writers[w]);
    if (c != '"' && c != '\\') for (int o = vx::thorough() ? 0 : 6; o < 8; o += 2) read('"' + s + '"', o);
    if (c < 0x10000) { char b[16]; snprintf(b, sizeof b, lo & 1 ? "\\u%04x" : "\\u%04X", c); read('"' + std::string(b) + (around ? "z\"" : "\""), jr::RDefault); if (vx::thorough()) { read('"' + std::string(b) + '"', jr::RValidateUnicode); read('"' + std::string(b) + '"', jr::RUnescapeUnicode); } }
}

// every pair of surrogates
VX_SUITE_D(pairs, 2)
{
    int hi = vx::choose(1024, "high"), lo = vx::choose(1024, "low");
    char b[32]; snprintf(b, sizeof b, hi & 1 ? "\"\\u%04x\\u%04x\"" : "\"\\u%04X\\u%04X\"", 0xD800 + hi, 0xDC00 + lo);
    read(b, jr::RDefault);
    if (lo % 64 == 0) read("\"-" + std::string(b + 1), jr::RUnescapeUnicode, true);
}

// every short sequence of the bytes at which the rules change
VX_SUITE_D(bytes, 3)
{
    static const unsigned char edge[] = { 'a', 0x7F, 0x80, 0x8F, 0x90, 0x9F, 0xA0, 0xBF, 0xC0, 0xC1, 0xC2, 0xDF, 0xE0, 0xE1, 0xEC, 0xED, 0xEE, 0xEF, 0xF0, 0xF1, 0xF3, 0xF4, 0xF5, 0xF7, 0xF8, 0xFB, 0xFC, 0xFE, 0xFF };
    std::string s; int n = 1 + vx::choose(vx::pick(4, 5), "length");
    for (int i = 0; i < n; ++i) s += char(edge[vx::choose(n == 5 && i == 4 ? 6 : sizeof edge, "byte")]);
    if (vx::thorough()) for (int o = 0; o < 8; o += 2) read('"' + s + '"', o);
    else { read('"' + s + '"', jr::RDefault); if (n < 4) read('"' + s + '"', jr::RUnescapeUnicode); }
    for (int w = 0; w < 4; ++w) if (n < 4 || vx::thorough() || w == 1 || w == 3) write(s, writers[w]);
}
// every pair of bytes, every byte after an escape
VX_SUITE_D(two, 2)
{
    int a = vx::choose(256, "first"), b = vx::choose(256, "second"); std::string s; s += char(a); s += char(b);
    for (int o = 0; o < 8; ++o) read('"' + s + '"', o);
    for (int w = 0; w < 4; ++w) write(s, writers[w]);
    if (a == '"' || a == '\\' || a == 0) { read(std::string("\"\\") + char(b) + '"', jr::RDefault); read(std::string("\"\\") + char(b) + "n\"", jr::RNone); }
}

// every arrangement of the pieces of escapes
VX_SUITE_D(escapes, 3)
{
    static const char* piece[] = { "\\", "u", "d83d", "D83D", "dE00", "00e9", "0", "g", "\"", "n", "\xC3\xA9", "x", "\\ud83d", "\\udc00", "\\u0041", "\\\\" };
    int opts = vx::choose(4, "options") * 2; std::string s;
    for (int i = 0, n = vx::pick(5, 6); i < n; ++i) { int c = vx::choose(17, "piece"); if (!c) break; s += piece[c - 1]; jr::Ref r("\"" + s, opts); r.next(); if ((r.bad && !r.eof) || !r.bad) break; }
    read('"' + s + '"', opts);
}
VX_SUITE_D(hex, 2)
{
    static const char digit[] = { '0', '9', 'a', 'f', 'A', 'F', 'g', 'G', '/', ':', '@', '`', ' ', '"', '-', 'x', '\x80' };
    std::string s = "\"\\u"; int n = vx::choose(5, "digits");
    for (int i = 0; i < n; ++i) s += digit[vx::choose(sizeof digit, "digit")];
    int opts = vx::choose(8, "options"); read(s + '"', opts); read(s, opts);
}

// keys follow the same rules
VX_SUITE_D(keys, 2)
{
    static const char* key[] = { "k", "", "\xC3\xA9", "\xF0\x9F\x98\x80", "a/b", "\"", "\\", "\n\t", "\xE2\x82\xAC$", "\x80", "\xC3", "a\xFF" };
    std::string k = key[vx::choose(12, "key")]; int w = writers[vx::choose(4, "writer")];
    std::map<std::string, int64_t> m, back; m[k] = 7; std::ostringstream out; W wr(out, jr::wopts(w)); json::print(wr, m); vx::step();
    bool valid = jr::validUtf8(k), want = valid || !(w & jr::WDefault);
    VX_CHECK(!wr.error() == want, "key", "a map with the key <%s> is %s under options %d", vx::show(k).c_str(), want ? "refused" : "printed", w);
    if (want) {
        VX_CHECK(out.str() == "{" + jr::quote(k, w) + ":7}", "text", "the key <%s> is printed as <%s>", vx::show(k).c_str(), vx::show(out.str()).c_str());
        std::istringstream in(out.str()); R r(in, jr::ropts(jr::RUnescapeUnicode)); json::parse(r, back); vx::step();
        VX_CHECK(!r.error() && back == m, "back", "<%s> doesn't read back", vx::show(out.str()).c_str());
    }
    vx::outcome(want ? "printed" : "unprinted"); vx::state(vx::hashStr(k, w));
}
