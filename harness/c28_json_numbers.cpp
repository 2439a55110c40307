// C28: numbers mean what they say: every integer of 64 bits exactly, every float to the
// closest double, anything out of range or malformed an error, never another number.
#include "jtypes.h"
#include <limits>

using namespace reflect;

static bool run(json::Error& e, std::string& text, double* d, int64_t* i, Value* v, bool array)
{
    std::string doc = array ? "[" + text + "]" : text; vx::step();
    try {
        if (!array) { if (d) e = json::parse(doc, *d); else if (i) e = json::parse(doc, *i); else e = json::parse(doc, *v); }
        else if (d) { std::vector<double> a; e = json::parse(doc, a); if (!e && a.size() == 1) *d = a[0]; else return !e && false; }
        else if (i) { std::vector<int64_t> a; e = json::parse(doc, a); if (!e && a.size() == 1) *i = a[0]; else return !e && false; }
        else { e = json::parse(doc, *v); if (!e) { Value item = v->call<Value>("at", size_t(0)); int64_t n = v->call<size_t>("size"); Value copy = item.type() == type<double>() ? Value(double(item.get<double>())) : item.type() == type<int64_t>() ? Value(int64_t(item.get<int64_t>())) : Value(); *v = std::move(copy); return n == 1; } }
    }
    catch (const std::exception& x) { vx::fail("exception", "parsing <%s> throws <%s>", doc.c_str(), x.what()); }
    return !e;
}

static void check(std::string text, bool array)
{
    jr::Ref ref(text); ref.next(); bool number = !ref.bad && (ref.tok == jr::TInt || ref.tok == jr::TFloat), whole = text.find_first_not_of(" ", ref.p) == std::string::npos;
    vx::state(vx::hashStr(text, array)); VX_NOTE("<%s>", text.c_str());
    bool good = number && (whole || !array);     // alone, what follows the number isn't read
    if (ref.unjudged && good) { vx::outcome("unjudged"); return; }
    double d = -77.25; int64_t i = -77; Value v; json::Error e;
    bool okD = run(e, text, &d, nullptr, nullptr, array), okI = run(e, text, nullptr, &i, nullptr, array), okV = run(e, text, nullptr, nullptr, &v, array);
    bool wantD = good && std::isfinite(ref.cur.d), wantI = good && ref.tok == jr::TInt && !ref.cur.big, wantV = good && (ref.tok == jr::TInt ? wantI : wantD);
    VX_CHECK(okD == wantD, okD ? "accepted" : "refused", "<%s> %s as a double", text.c_str(), okD ? "is accepted" : "is refused");
    VX_CHECK(okI == wantI, okI ? "accepted" : "refused", "<%s> %s as an integer", text.c_str(), okI ? "is accepted" : "is refused");
    VX_CHECK(okV == wantV, okV ? "accepted" : "refused", "<%s> %s as a Value", text.c_str(), okV ? "is accepted" : "is refused");
    VX_CHECK(okD ? d == ref.cur.d && std::signbit(d) == std::signbit(ref.cur.d) : d == -77.25, "double", "<%s> is read as the double %.17g instead of %.17g", text.c_str(), d, okD ? ref.cur.d : -77.25);
    VX_CHECK(okI ? i == ref.cur.i : i == -77, "integer", "<%s> is read as the integer %ld instead of %ld", text.c_str(), i, ref.cur.i);
    VX_CHECK(!okV || jr::same(v, ref.cur), "value", "<%s> is read as another Value", text.c_str());
    vx::outcome(good ? "number" : "error");
}

// every short text
VX_SUITE_D(texts, 3)
{
    static const char c[] = { '0', '1', '9', '-', '+', '.', 'e', 'E', 'x', ' ' };
    std::string s; int n = 1 + vx::choose(vx::pick(6, 7), "length");
    for (int i = 0; i < n; ++i) s += c[vx::choose(i ? sizeof c : 6, "char")];
    check(s, n < 7 && vx::choose(2, "array"));
}

// integers next to every power of two and ten, and past the end
typedef __int128 Big;
static std::string dec(Big b) { bool neg = b < 0; std::string s; unsigned __int128 u = neg ? -(unsigned __int128) b : b; do s.insert(s.begin(), char('0' + int(u % 10))), u /= 10; while (u); return neg ? "-" + s : s; }
VX_SUITE_D(integers, 2)
{
    int k = vx::choose(100 + 38, "power"), off = vx::choose(vx::pick(9, 65), "offset") - vx::pick(4, 32), neg = vx::choose(2, "sign"), pad = vx::choose(3, "zeros");
    Big b = 1; if (k < 100) b <<= k; else for (int i = 100; i < k; ++i) b *= 10;
    b += off; if (neg) b = -b;
    std::string s = dec(b); if (pad) { size_t at = s[0] == '-'; s.insert(at, pad == 1 ? "0" : std::string(30, '0')); }
    check(s, vx::choose(2, "array"));
    if (!pad && b >= INT64_MIN && b <= INT64_MAX) {
        int64_t v = b, back = 0; std::pair<std::string, json::Error> p = json::print(v); vx::step(2);
        VX_CHECK(!p.second && p.first == s, "print", "%s is printed as <%s>", s.c_str(), p.first.c_str());
        VX_CHECK(!json::parse(p.first, back) && back == v, "back", "%s reads back as %ld", s.c_str(), back);
    }
}

// floats: every exponent with mantissas of 1 to 12 digits
VX_SUITE_D(floats, 2)
{
    static const char* mantissa[] = { "1", "2", "5", "9", "1.5", "4.9", "1.7976931348", "9.99999999999", "2.2250738585", "3.14159265359", "1.00000000001", "4.94065645841" };
    static const char* forms[] = { "e", "E", "e+", "E0" };
    int m = vx::choose(12, "mantissa"), e = vx::choose(680, "exponent") - 340, neg = vx::choose(2, "sign"), form = vx::choose(vx::pick(2, 4), "form");
    std::string s = std::string(neg ? "-" : "") + mantissa[m];
    if (e < 0) s += (form & 1 ? "E-" : "e-") + std::to_string(-e); else s += forms[form] + std::to_string(e);
    check(s, form == 0 && vx::choose(2, "array"));
    double v = strtod(s.c_str(), nullptr);
    if (!std::isfinite(v)) return;
    std::pair<std::string, json::Error> p = json::print(v); char want[64]; snprintf(want, sizeof want, "%.12g", v); vx::step();
    VX_CHECK(!p.second && p.first == want, "print", "%s is printed as <%s> instead of <%s>", s.c_str(), p.first.c_str(), want);
    double back = 0, exact = strtod(want, nullptr); vx::step();
    if (!std::isfinite(exact)) return;       // rounded past the largest double
    VX_CHECK(!json::parse(p.first, back) && back == exact, "back", "%s, printed as %s, reads back as %.17g", s.c_str(), want, back);
    VX_CHECK(fabs(back - v) <= fabs(v) * 1e-11 || fabs(v) < 1e-300, "digits", "%s reads back as %.17g once printed", s.c_str(), back);
}
// the digits of floats: long fractions and long integers
VX_SUITE_D(digits, 2)
{
    static const int around[] = { 1, 2, 11, 12, 13, 15, 16, 17, 18, 19, 20, 63, 64, 126, 127, 128, 129, 255, 256, 307, 308, 309, 310, 800 };
    int a = around[vx::choose(24, "integer digits")], b = vx::choose(25, "fraction digits"), d = vx::choose(3, "digit");
    std::string s(a, "195"[d]); if (b) s += "." + std::string(around[b - 1], "951"[d]);
    check(s, vx::choose(2, "array"));
}
// every bit pattern of the top of a double, with the edges of its low bits
VX_SUITE_D(doubles, 2)
{
    uint64_t hi = vx::choose(0x1000, "exponent"), mid = vx::choose(16, "mantissa"), low = vx::choose(3, "low"), bits = hi << 52 | mid << 48 | (low == 1 ? 1 : low == 2 ? (1ull << 48) - 1 : 0);
    double v; memcpy(&v, &bits, sizeof v); json::Error e; std::string out; int via = vx::choose(2, "via");
    try { if (via) { std::vector<double> a(1, v); auto p = json::print(a); out = p.first; e = p.second; } else { auto p = json::print(v); out = p.first; e = p.second; } vx::step(); }
    catch (const std::exception& x) { vx::fail("exception", "printing %.17g throws <%s>", v, x.what()); }
    VX_CHECK(bool(e) == !std::isfinite(v), "finite", "printing %.17g gives <%s> and %s", v, out.c_str(), e ? "an error" : "no error");
    vx::state(bits * 2 + via);
    if (!std::isfinite(v)) { vx::outcome("unprinted"); return; }
    char want[64]; snprintf(want, sizeof want, via ? "[%.12g]" : "%.12g", v);
    VX_CHECK(out == want, "print", "%.17g is printed as <%s> instead of <%s>", v, out.c_str(), want);
    vx::outcome("printed");
}

// a member of any arithmetic type: read exactly or refused and left alone, printed exactly or refused
namespace k28 {
template<typename T> struct In { T x; std::vector<T> v; In() : x(5) {} };
} // namespace k28
#define K28(T, N) namespace k28 { struct N : public In<T> {}; } reflectType(k28::N) { reflectPlumbing(); reflectField(x); reflectField(v); }
K28(char, C) K28(signed char, SC) K28(unsigned char, UC) K28(short, S) K28(unsigned short, US) K28(int, I) K28(unsigned, U) K28(long, L) K28(unsigned long, UL) K28(long long, LL) K28(unsigned long long, ULL) K28(float, F) K28(double, D)

template<typename N, typename T>
static void kind()
{
    static const char* texts[] = { "0", "-0", "1", "-1", "65", "127", "128", "-128", "-129", "255", "256", "32767", "32768", "-32769", "65535", "65536", "2147483647", "2147483648", "-2147483649", "4294967295", "4294967296",
        "9223372036854775807", "9223372036854775808", "18446744073709551615", "18446744073709551616", "-9223372036854775808", "-9223372036854775809", "1.5", "1.0", "1e2", "16777217", "0.1", "1e39", "1e400", "true", "\"1\"" };
    std::string t = texts[vx::choose(36, "text")]; int where = vx::choose(3, "where");
    N obj; T target = T(5); bool ok = false; json::Error e; vx::step();
    VX_NOTE("%s", t.c_str());
    try {
        if (where == 0) { e = json::parse("{\"x\":" + t + "}", obj); target = obj.x; }
        else if (where == 1) { e = json::parse("{\"v\":[" + t + "]}", obj); if (!obj.v.empty()) target = obj.v[0]; VX_CHECK(obj.v.size() == size_t(!e), "size", "%zu items for [%s]", obj.v.size(), t.c_str()); }
        else e = json::parse(t, target);
        ok = !e;
    }
    catch (const Error&) {}         // no conversion to the type of the target
    jr::Ref ref(t); ref.next(); bool number = ref.tok == jr::TInt || ref.tok == jr::TFloat;
    if (!ok) { VX_CHECK(target == T(5), "clobbered", "%s is refused but changes the target", t.c_str()); vx::outcome("refused"); }
    else if (std::is_same<T, bool>::value) { VX_CHECK(t == "true" && target == T(1), "value", "<%s> is read as the bool %d", t.c_str(), int(target)); vx::outcome("exact"); }
    else {
        VX_CHECK(number, "accepted", "<%s> is accepted as a number", t.c_str());
        long double exact = strtold(t.c_str(), nullptr);
        bool same = std::is_integral<T>::value ? (long double) target == exact : target == T(std::is_same<T, float>::value ? strtof(t.c_str(), nullptr) : strtod(t.c_str(), nullptr));
        VX_CHECK(same, "value", "<%s> is read as another number, %.21Lg", t.c_str(), (long double) target);
        vx::outcome("exact");
    }
    // and printed
    N whole; whole.x = std::numeric_limits<T>::max(); if (where) whole.x = std::numeric_limits<T>::lowest(); std::string out; bool printed = false; int o = vx::choose(2, "compact") ? jr::WCompact : 0;
    try { std::ostringstream s; json::Writer w(s, jr::wopts(o)); json::print(w, whole); printed = !w.error(); out = s.str(); vx::step(); } catch (const Error&) {}
    if (printed) {
        char want[64]; if (std::is_same<T, bool>::value) snprintf(want, sizeof want, "%s", whole.x ? "true" : "false"); else if (!std::is_integral<T>::value) snprintf(want, sizeof want, "%.12g", double(whole.x)); else snprintf(want, sizeof want, "%.0Lf", (long double) whole.x);
        bool left = out == "{}" && o && whole.x == T(0);
        VX_CHECK(left || out.find("\"x\":" + std::string(want)) != std::string::npos, "print", "%s is printed as %s", want, out.c_str());
    }
    vx::state(vx::hashStr(t, where * 2 + ok));
}
VX_SUITE_D(kinds, 2)
{
    switch (vx::choose(13, "type")) {
    case 0: kind<k28::C, char>(); break; case 1: kind<k28::SC, signed char>(); break; case 2: kind<k28::UC, unsigned char>(); break; case 3: kind<k28::S, short>(); break; case 4: kind<k28::US, unsigned short>(); break;
    case 5: kind<k28::I, int>(); break; case 6: kind<k28::U, unsigned>(); break; case 7: kind<k28::L, long>(); break; case 8: kind<k28::UL, unsigned long>(); break; case 9: kind<k28::LL, long long>(); break;
    case 10: kind<k28::ULL, unsigned long long>(); break; case 11: kind<k28::F, float>(); break; default: kind<k28::D, double>(); break;
    }
}
