/* jref.h - an independent reading of what the json module should accept, and
 * what a document means: strict JSON plus the leniencies the project's own
 * tests ask for (leading zeros, raw control characters, one document per parse). */
#pragma once
#include "vt.h"
#include "utils/json.h"
#include "types/std/vector.h"
#include "types/std/map.h"
#include "types/std/smart_ptr.h"
#include <cmath>
#include <cstdlib>
#include <cerrno>
#include <cstring>
#include <sstream>

namespace jr {

// options, numbered here and handed to the library by name
enum { RNone = 0, RAllowComments = 1, RUnescapeUnicode = 2, RValidateUnicode = 4, RDefault = RUnescapeUnicode | RValidateUnicode,
       WNone = 0, WPretty = 1, WCompact = 2, WEscapeUnicode = 4, WValidateUnicode = 8, WDefault = WEscapeUnicode | WValidateUnicode };
inline reflect::json::Reader::Options ropts(int o)
{
    typedef reflect::json::Reader R; if (o == RDefault) return R::Default; int r = R::None;
    if (o & RAllowComments) r |= R::AllowComments; if (o & RUnescapeUnicode) r |= R::UnescapeUnicode; if (o & RValidateUnicode) r |= R::ValidateUnicode;
    return R::Options(r);
}
inline reflect::json::Writer::Options wopts(int o)
{
    typedef reflect::json::Writer W; if (o == WDefault) return W::Default; int r = W::None;
    if (o & WPretty) r |= W::Pretty; if (o & WCompact) r |= W::Compact; if (o & WEscapeUnicode) r |= W::EscapeUnicode; if (o & WValidateUnicode) r |= W::ValidateUnicode;
    return W::Options(r);
}

struct J
{
    enum K { Null, Bool, Int, Float, Str, Arr, Obj } k;
    bool b, big; int64_t i; double d; std::string s;
    std::vector<J> a; std::vector<std::pair<std::string, J>> o;
    explicit J(K k = Null) : k(k), b(false), big(false), i(0), d(0) {}
    static J integer(int64_t v) { J j(Int); j.i = v; j.d = v; return j; }
    static J real(double v) { J j(Float); j.d = v; return j; }
    static J boolean(bool v) { J j(Bool); j.b = v; return j; }
    static J string(std::string v) { J j(Str); j.s = std::move(v); return j; }
    bool bigAnywhere() const { if (big) return true; for (auto& x : a) if (x.bigAnywhere()) return true; for (auto& x : o) if (x.second.bigAnywhere()) return true; return false; }
    bool dupAnywhere() const
    {
        std::set<std::string> seen;
        for (auto& x : o) if (!seen.insert(x.first).second || x.second.dupAnywhere()) return true;
        for (auto& x : a) if (x.dupAnywhere()) return true;
        return false;
    }
    bool operator==(const J& x) const { return k == x.k && b == x.b && i == x.i && (k == Int || d == x.d) && s == x.s && a == x.a && o == x.o; }
};

// length of the well-formed UTF-8 sequence at p (0: ill-formed); surrogates are not judged
inline size_t utf8(const std::string& t, size_t p, uint32_t* code = nullptr)
{
    unsigned char c = t[p]; size_t n; uint32_t v, min;
    if (c < 0x80) { n = 1; v = c; min = 0; }
    else if (c >= 0xC0 && c < 0xE0) { n = 2; v = c & 0x1F; min = 0x80; }
    else if (c >= 0xE0 && c < 0xF0) { n = 3; v = c & 0x0F; min = 0x800; }
    else if (c >= 0xF0 && c < 0xF8) { n = 4; v = c & 0x07; min = 0x10000; }
    else return 0;
    if (p + n > t.size()) return 0;
    for (size_t i = 1; i < n; ++i) { unsigned char x = t[p + i]; if (x < 0x80 || x >= 0xC0) return 0; v = v << 6 | (x & 0x3F); }
    if (v < min || v > 0x10FFFF) return 0;
    if (code) *code = v;
    return n;
}
inline std::string encode(uint32_t c)
{
    std::string s;
    if (c < 0x80) s += char(c);
    else if (c < 0x800) { s += char(0xC0 | c >> 6); s += char(0x80 | (c & 63)); }
    else if (c < 0x10000) { s += char(0xE0 | c >> 12); s += char(0x80 | (c >> 6 & 63)); s += char(0x80 | (c & 63)); }
    else { s += char(0xF0 | c >> 18); s += char(0x80 | (c >> 12 & 63)); s += char(0x80 | (c >> 6 & 63)); s += char(0x80 | (c & 63)); }
    return s;
}
inline bool validUtf8(const std::string& t) { for (size_t p = 0; p < t.size();) { size_t n = utf8(t, p); if (!n) return false; p += n; } return true; }

enum Tok { TObj = '{', TObjEnd = '}', TArr = '[', TArrEnd = ']', TSep = ',', TKey = ':', TStr = 's', TInt = 'i', TFloat = 'f', TBool = 'b', TNull = 'n', TEnd = '$', TErr = '!' };

struct Ref
{
    const std::string& t; size_t p; bool comments, unescape, validate;
    bool bad;           // the document is an error
    bool eof;           // ... only because the text stops there
    bool unjudged;      // it contains something nobody decided about (lone surrogates, numbers like 1. and 1e)
    J cur; Tok tok; size_t tokStart, tokEnd;
    Ref(const std::string& t, int opts = jr::RDefault, size_t p = 0) :
        t(t), p(p), comments(opts & jr::RAllowComments), unescape(opts & jr::RUnescapeUnicode),
        validate(opts & jr::RValidateUnicode), bad(false), eof(false), unjudged(false), tok(TErr), tokStart(0), tokEnd(0) {}

    bool at(size_t n = 0) const { return p + n < t.size(); }
    char ch(size_t n = 0) const { return t[p + n]; }
    void error(bool atEnd = false) { if (!bad) eof = atEnd || tok == TEnd; bad = true; tok = TErr; }
    Tok next()
    {
        if (bad) return tok = TErr;
        for (;;) {
            if (!at()) { tokStart = tokEnd = p; return tok = TEnd; }
            char c = ch();
            if (c == ' ' || (c >= '\t' && c <= '\r')) { p++; continue; }
            if (c == '/' && at(1) && ch(1) == '/') {
                if (!comments) { tokStart = p; tokEnd = p + 2; tok = TErr; error(); return tok; }
                while (at() && ch() != '\n') p++;
                continue;
            }
            break;
        }
        tokStart = p;
        char c = t[p++]; tok = TErr;
        switch (c) {
        case '{': case '}': case '[': case ']': case ',': case ':': tok = Tok(c); break;
        case 'n': literal("ull"); if (!bad) tok = TNull; break;
        case 't': literal("rue"); if (!bad) { tok = TBool; cur = J::boolean(true); } break;
        case 'f': literal("alse"); if (!bad) { tok = TBool; cur = J::boolean(false); } break;
        case '"': string(); break;
        case '-': case '0': case '1': case '2': case '3': case '4': case '5': case '6': case '7': case '8': case '9': p--; number(); break;
        default: error();
        }
        tokEnd = p;
        return tok;
    }
    void literal(const char* l) { for (; *l; ++l) { if (!at() || ch() != *l) return error(!at()); p++; } }
    int hex4()
    {
        int v = 0;
        for (int i = 0; i < 4; ++i) {
            if (!at()) return -1;
            char c = t[p++];
            if (c >= '0' && c <= '9') v = v * 16 + c - '0'; else if (c >= 'a' && c <= 'f') v = v * 16 + c - 'a' + 10; else if (c >= 'A' && c <= 'F') v = v * 16 + c - 'A' + 10; else return -1;
        }
        return v;
    }
    void string()
    {
        std::string s;
        for (;;) {
            if (!at()) return error(true);
            char c = ch();
            if (c == '"') { p++; break; }
            if (c == '\n') return error();
            if (c & 0x80) {
                if (!validate) { s += c; p++; continue; }
                size_t n = utf8(t, p); if (!n) return error(t.size() - p < 4);
                s.append(t, p, n); p += n; continue;
            }
            p++;
            if (c != '\\') { s += c; continue; }
            if (!at()) return error(true);
            c = t[p++];
            switch (c) {
            case '"': case '\\': case '/': s += c; break;
            case 'b': s += '\b'; break; case 'f': s += '\f'; break; case 'n': s += '\n'; break; case 'r': s += '\r'; break; case 't': s += '\t'; break;
            case 'u': {
                size_t from = p; int v = hex4(); if (v < 0) return error(!at());
                if (!unescape) { s += "\\u" + t.substr(from, 4); break; }
                if (v >= 0xD800 && v < 0xDC00 && at(1) && ch() == '\\' && ch(1) == 'u') {
                    size_t back = p; p += 2; int w = hex4(); if (w < 0) return error(!at());
                    if (w >= 0xDC00 && w < 0xE000) { s += encode(0x10000 + (v - 0xD800) * 0x400 + (w - 0xDC00)); break; }
                    p = back;
                }
                if (v >= 0xD800 && v < 0xE000) unjudged = true;
                s += encode(v); break; }
            default: return error();
            }
        }
        tok = TStr; cur = J::string(s);
    }
    void number()
    {
        size_t from = p; size_t digits = 0, frac = 0, ex = 0; bool dot = false, e = false;
        if (ch() == '-') p++;
        while (at() && isdigit((unsigned char) ch())) p++, digits++;
        if (at() && ch() == '.') { dot = true; p++; while (at() && isdigit((unsigned char) ch())) p++, frac++; }
        if (!(digits + frac)) return error(!at());
        if (at() && (ch() == 'e' || ch() == 'E')) { e = true; p++; if (at() && (ch() == '+' || ch() == '-')) p++; while (at() && isdigit((unsigned char) ch())) p++, ex++; }
        if (!digits || (dot && !frac) || (e && !ex)) unjudged = true;
        std::string s = t.substr(from, p - from);
        if (!dot && !e) {
            tok = TInt; cur = J(J::Int); errno = 0; cur.i = strtoll(s.c_str(), nullptr, 10); cur.big = errno == ERANGE; cur.d = strtod(s.c_str(), nullptr);
            if (cur.big) cur.i = 0;
        }
        else { tok = TFloat; cur = J::real(strtod(s.c_str(), nullptr)); cur.big = !std::isfinite(cur.d); }
    }
    // the value which starts with the current token
    J value()
    {
        switch (tok) {
        case TNull: return J();
        case TBool: case TInt: case TFloat: case TStr: return cur;
        case TArr: {
            J j(J::Arr); next();
            if (tok == TArrEnd) return j;
            for (;;) {
                j.a.push_back(value()); if (bad) return j;
                next(); if (tok == TArrEnd) return j;
                if (tok != TSep) { error(); return j; }
                next();
            } }
        case TObj: {
            J j(J::Obj); next();
            if (tok == TObjEnd) return j;
            for (;;) {
                if (tok != TStr) { error(); return j; }
                std::string key = cur.s;
                next(); if (tok != TKey) { error(); return j; }
                next(); J v = value(); if (bad) return j;
                j.o.push_back(std::make_pair(key, v));
                next(); if (tok == TObjEnd) return j;
                if (tok != TSep) { error(); return j; }
                next();
            } }
        default: error(); return J();
        }
    }
    J document() { next(); return value(); }
};

inline J parse(const std::string& t, bool& bad, bool& unjudged, int opts = jr::RDefault)
{
    Ref r(t, opts); J j = r.document(); bad = r.bad; unjudged = r.unjudged; return j;
}

// what an untyped Value parsed from a document holds
inline bool same(const reflect::Value& v, const J& j)
{
    typedef std::vector<reflect::Value> A; typedef std::unordered_map<std::string, reflect::Value> O;
    switch (j.k) {
    case J::Null: return v.isVoid();
    case J::Bool: return v.type() == reflect::type<bool>() && v.get<bool>() == j.b;
    case J::Int: return v.type() == reflect::type<int64_t>() && v.get<int64_t>() == j.i;
    case J::Float: return v.type() == reflect::type<double>() && v.get<double>() == j.d;
    case J::Str: return v.type() == reflect::type<std::string>() && v.get<std::string>() == j.s;
    case J::Arr: {
        if (v.type() != reflect::type<A>()) return false;
        const A& a = v.get<A>(); if (a.size() != j.a.size()) return false;
        for (size_t i = 0; i < a.size(); ++i) if (!same(a[i], j.a[i])) return false;
        return true; }
    default: {
        if (v.type() != reflect::type<O>()) return false;
        const O& o = v.get<O>(); if (o.size() != j.o.size()) return false;
        for (auto& f : j.o) { auto it = o.find(f.first); if (it == o.end() || !same(it->second, f.second)) return false; }
        return true; }
    }
}

// the text that prints a tree, under the printing rules of the project's tests
inline std::string quote(const std::string& s, int opts)
{
    std::string r = "\"";
    for (size_t p = 0; p < s.size(); ++p) {
        unsigned char c = s[p]; uint32_t code;
        if (c >= 0x80 && (opts & jr::WEscapeUnicode)) {
            size_t n = utf8(s, p, &code); if (!n) return "!"; p += n - 1;
            char buf[16];
            if (code > 0xFFFF) { snprintf(buf, sizeof buf, "\\u%04x\\u%04x", 0xD800 + ((code - 0x10000) >> 10), 0xDC00 + ((code - 0x10000) & 0x3FF)); }
            else snprintf(buf, sizeof buf, "\\u%04x", code);
            r += buf; continue;
        }
        switch (c) { case '"': r += "\\\""; break; case '\\': r += "\\\\"; break; case '/': r += "\\/"; break; case '\b': r += "\\b"; break; case '\f': r += "\\f"; break;
        case '\n': r += "\\n"; break; case '\r': r += "\\r"; break; case '\t': r += "\\t"; break; default: r += c; }
    }
    return r + '"';
}
inline bool empty(const J& j)
{
    switch (j.k) { case J::Null: return true; case J::Bool: return false; case J::Int: return j.i == 0; case J::Float: return j.d == 0; case J::Str: return j.s.empty(); case J::Arr: return j.a.empty(); default: return false; }
}

} // namespace jr
