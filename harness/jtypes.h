/* jtypes.h - user types for the json checks, and for each of them an independent
 * account of its shape: what a document does to a target of that shape, and the
 * text that prints it. */
#pragma once
#include "jref.h"
#include <algorithm>
#include <memory>
#include <unordered_map>

namespace js {
using jr::J; using jr::Ref;

struct Shape
{
    enum K { Bool, Int, Float, Str, Vec, Map, Obj, Ptr, Any } k;
    struct Field;
    std::vector<Shape> in;                       // element of Vec, Map, Ptr
    std::vector<std::string> names;              // of Obj, as they appear in json
    std::vector<bool> skipEmpty;
    explicit Shape(K k) : k(k) {}
    Shape(K k, Shape inner) : k(k), in(1, inner) {}
    Shape& field(const char* n, Shape s, bool se = false) { names.push_back(n); in.push_back(s); skipEmpty.push_back(se); return *this; }
    int index(const std::string& n) const { for (size_t i = 0; i < names.size(); ++i) if (names[i] == n) return i; return -1; }
    J fresh() const
    {
        switch (k) {
        case Bool: return J::boolean(false); case Int: return J::integer(0); case Float: return J::real(0); case Str: return J::string("");
        case Vec: return J(J::Arr); case Map: return J(J::Obj); case Ptr: case Any: return J();
        default: { J j(J::Obj); for (size_t i = 0; i < names.size(); ++i) j.o.push_back(std::make_pair(names[i], in[i].fresh())); return j; }
        }
    }
};

// What reading the document does to v, the current token being the first of the
// value.  On an error r.bad is set and v is what it became until then.
inline void read(Ref& r, const Shape& s, J& v)
{
    switch (s.k) {
    case Shape::Any: { J j = r.value(); if (j.k != J::Null) v = j; return; }
    case Shape::Bool: if (r.tok != jr::TBool) return r.error(); v = r.cur; return;
    case Shape::Int: if (r.tok != jr::TInt || r.cur.big) return r.error(); v = r.cur; return;
    case Shape::Float:
        if (r.tok != jr::TInt && r.tok != jr::TFloat) return r.error();
        if (!std::isfinite(r.cur.d)) return r.error();
        v = J::real(r.cur.d); return;
    case Shape::Str: if (r.tok != jr::TStr) return r.error(); v = r.cur; return;
    case Shape::Ptr:
        if (r.tok == jr::TNull) { v = J(); return; }
        if (v.k == J::Null) { J in = s.in[0].fresh(); read(r, s.in[0], in); v = in; }
        else read(r, s.in[0], v);
        return;
    case Shape::Vec:
        if (r.tok == jr::TNull) return;
        if (r.tok != jr::TArr) return r.error();
        r.next(); if (r.tok == jr::TArrEnd) return;
        for (;;) {
            J in = s.in[0].fresh(); read(r, s.in[0], in); if (r.bad) return;
            v.a.push_back(in);
            r.next(); if (r.tok == jr::TArrEnd) return;
            if (r.tok != jr::TSep) return r.error();
            r.next();
        }
    default:
        if (r.tok == jr::TNull) return;
        if (r.tok != jr::TObj) return r.error();
        r.next(); if (r.tok == jr::TObjEnd) return;
        for (;;) {
            if (r.tok != jr::TStr) return r.error();
            std::string key = r.cur.s;
            r.next(); if (r.tok != jr::TKey) return r.error();
            r.next();
            if (s.k == Shape::Map) {
                J in = s.in[0].fresh(); read(r, s.in[0], in); if (r.bad) return;
                bool found = false;
                for (auto& f : v.o) if (f.first == key) { f.second = in; found = true; }
                if (!found) v.o.push_back(std::make_pair(key, in));
            }
            else {
                int i = s.index(key);
                if (i < 0) r.value(); else read(r, s.in[i], v.o[i].second);
                if (r.bad) return;
            }
            r.next(); if (r.tok == jr::TObjEnd) return;
            if (r.tok != jr::TSep) return r.error();
            r.next();
        }
    }
}

inline void sortMaps(const Shape& s, J& v)
{
    switch (s.k) {
    case Shape::Map: std::sort(v.o.begin(), v.o.end(), [] (const std::pair<std::string, J>& a, const std::pair<std::string, J>& b) { return a.first < b.first; }); for (auto& f : v.o) sortMaps(s.in[0], f.second); break;
    case Shape::Vec: for (auto& x : v.a) sortMaps(s.in[0], x); break;
    case Shape::Ptr: if (v.k != J::Null) sortMaps(s.in[0], v); break;
    case Shape::Obj: for (size_t i = 0; i < v.o.size(); ++i) sortMaps(s.in[i], v.o[i].second); break;
    default: break;
    }
}

inline bool isEmpty(const Shape& s, const J& v)
{
    switch (s.k) {
    case Shape::Int: return v.i == 0; case Shape::Float: return v.d == 0; case Shape::Str: return v.s.empty();
    case Shape::Vec: return v.a.empty(); case Shape::Map: return v.o.empty();
    case Shape::Ptr: return v.k == J::Null || isEmpty(s.in[0], v);
    default: return false;
    }
}

struct Printed { std::string text; bool loose; bool error; Printed() : loose(false), error(false) {} };

// The text which prints v; loose when the whitespace isn't settled.
inline void print(const Shape& s, const J& v, int opts, size_t indent, Printed& p)
{
    bool pretty = opts & jr::WPretty, compact = opts & jr::WCompact;
    auto open = [&] (char c, bool multi) { p.text += c; if (pretty) p.text += multi ? "\n" + std::string(4 * (indent + 1), ' ') : " "; };
    auto sep = [&] { p.text += ','; if (pretty) p.text += "\n" + std::string(4 * (indent + 1), ' '); };
    auto close = [&] (char c, bool multi) { if (pretty) p.text += multi ? "\n" + std::string(4 * indent, ' ') : " "; p.text += c; };
    auto str = [&] (const std::string& t) {
        if ((opts & (jr::WEscapeUnicode | jr::WValidateUnicode)) && !jr::validUtf8(t)) p.error = true;
        else p.text += jr::quote(t, opts);
    };
    if (p.error) return;
    switch (s.k) {
    case Shape::Bool: p.text += v.b ? "true" : "false"; break;
    case Shape::Int: p.text += std::to_string(v.i); break;
    case Shape::Float: { if (!std::isfinite(v.d)) { p.error = true; return; } char b[64]; snprintf(b, sizeof b, "%.12g", v.d); p.text += b; break; }
    case Shape::Str: str(v.s); break;
    case Shape::Ptr: if (v.k == J::Null) p.text += "null"; else print(s.in[0], v, opts, indent, p); break;
    case Shape::Vec: {
        bool multi = v.a.size() > 1;
        open('[', multi);
        for (size_t i = 0; i < v.a.size(); ++i) { if (i) sep(); print(s.in[0], v.a[i], opts, indent + multi, p); }
        close(']', multi); break; }
    default: {
        std::vector<std::pair<std::string, int>> keys;
        for (size_t i = 0; i < v.o.size(); ++i) keys.push_back(std::make_pair(v.o[i].first, i));
        std::sort(keys.begin(), keys.end());
        bool multi = keys.size() > 1; size_t all = keys.size(), shown = 0;
        open('{', multi);
        for (auto& k : keys) {
            const Shape& in = s.k == Shape::Map ? s.in[0] : s.in[k.second];
            const J& x = v.o[k.second].second;
            if (s.k == Shape::Obj && (compact || s.skipEmpty[k.second]) && isEmpty(in, x)) continue;
            if (shown++) sep();
            str(k.first); p.text += ':'; if (pretty) p.text += ' ';
            print(in, x, opts, indent + multi, p);
        }
        close('}', multi);
        if (shown < all && shown < 2) p.loose = true;
        break; }
    }
}

inline std::string squeeze(const std::string& t)
{
    std::string r; bool in = false;
    for (size_t i = 0; i < t.size(); ++i) {
        if (in) { r += t[i]; if (t[i] == '\\' && i + 1 < t.size()) r += t[++i]; else if (t[i] == '"') in = false; }
        else if (!isspace((unsigned char) t[i])) { r += t[i]; in = t[i] == '"'; }
    }
    return r;
}

inline std::string text(const J& v)      // for messages
{
    switch (v.k) {
    case J::Null: return "null"; case J::Bool: return v.b ? "true" : "false"; case J::Int: return std::to_string(v.i);
    case J::Float: return vx::fmt("%.17g", v.d) + "f"; case J::Str: return '"' + v.s + '"';
    case J::Arr: { std::string r = "["; for (auto& x : v.a) r += text(x) + ","; return r + "]"; }
    default: { std::string r = "{"; for (auto& x : v.o) r += x.first + ":" + text(x.second) + ","; return r + "}"; }
    }
}

/* ---- C++ types to shapes ---- */
template<typename T> struct Sh;
template<> struct Sh<bool> { static Shape shape() { return Shape(Shape::Bool); } static J dump(bool v) { return J::boolean(v); } static void load(bool& v, const J& j) { v = j.b; } };
template<> struct Sh<int64_t> { static Shape shape() { return Shape(Shape::Int); } static J dump(int64_t v) { return J::integer(v); } static void load(int64_t& v, const J& j) { v = j.i; } };
template<> struct Sh<double> { static Shape shape() { return Shape(Shape::Float); } static J dump(double v) { return J::real(v); } static void load(double& v, const J& j) { v = j.d; } };
template<> struct Sh<std::string> { static Shape shape() { return Shape(Shape::Str); } static J dump(const std::string& v) { return J::string(v); } static void load(std::string& v, const J& j) { v = j.s; } };
template<typename T> struct Sh<std::vector<T>>
{
    static Shape shape() { return Shape(Shape::Vec, Sh<T>::shape()); }
    static J dump(const std::vector<T>& v) { J j(J::Arr); for (auto& x : v) j.a.push_back(Sh<T>::dump(x)); return j; }
    static void load(std::vector<T>& v, const J& j) { for (auto& x : j.a) { v.emplace_back(); Sh<T>::load(v.back(), x); } }
};
template<typename M, typename T> struct ShMap
{
    static Shape shape() { return Shape(Shape::Map, Sh<T>::shape()); }
    static J dump(const M& v) { J j(J::Obj); for (auto& x : v) j.o.push_back(std::make_pair(x.first, Sh<T>::dump(x.second))); return j; }
    static void load(M& v, const J& j) { for (auto& x : j.o) Sh<T>::load(v[x.first], x.second); }
};
template<typename T> struct Sh<std::map<std::string, T>> : ShMap<std::map<std::string, T>, T> {};
template<typename T> struct Sh<std::unordered_map<std::string, T>> : ShMap<std::unordered_map<std::string, T>, T> {};
template<typename P, typename T> struct ShPtr
{
    static Shape shape() { return Shape(Shape::Ptr, Sh<T>::shape()); }
    static J dump(const P& v) { return v ? Sh<T>::dump(*v) : J(); }
    static void load(P& v, const J& j) { if (j.k == J::Null) return; v = P(new T()); Sh<T>::load(*v, j); }
};
template<typename T> struct Sh<T*> : ShPtr<T*, T> {};
template<typename T> struct Sh<std::shared_ptr<T>> : ShPtr<std::shared_ptr<T>, T> {};
template<typename T> struct Sh<std::unique_ptr<T>> : ShPtr<std::unique_ptr<T>, T> {};

// the object as a sorted tree
template<typename T> J dump(const T& v) { J j = Sh<T>::dump(v); sortMaps(Sh<T>::shape(), j); return j; }

} // namespace js

#define JS_BEGIN(T) namespace js { template<> struct Sh<T> { typedef T T_;
#define JS_SHAPE static Shape shape() { Shape s(Shape::Obj); s
#define JS_F(name) .field(#name, Sh<decltype(T_::name)>::shape())
#define JS_SHAPE_END ; return s; } static J dump(const T_& v) { J j(J::Obj);
#define JS_D(name) j.o.push_back(std::make_pair(#name, Sh<decltype(T_::name)>::dump(v.name)));
#define JS_DUMP_END return j; } static void load(T_& v, const J& j) { (void) v; (void) j;
#define JS_L(i, name) Sh<decltype(T_::name)>::load(v.name, j.o[i].second);
#define JS_END } }; }

/* ---- the types ---- */
struct Leaf { int64_t i; std::string s; Leaf() : i(0) {} };
reflectType(Leaf) { reflectPlumbing(); reflectAlloc(); reflectField(i); reflectField(s); }
JS_BEGIN(Leaf) JS_SHAPE JS_F(i) JS_F(s) JS_SHAPE_END JS_D(i) JS_D(s) JS_DUMP_END JS_L(0, i) JS_L(1, s) JS_END

struct One { std::vector<One> v; };
reflectType(One) { reflectPlumbing(); reflectField(v); }

struct Nothing {};
reflectType(Nothing) { reflectPlumbing(); }
JS_BEGIN(Nothing) JS_SHAPE JS_SHAPE_END JS_DUMP_END JS_END

struct Doc
{
    bool b; int64_t i; double f; std::string s; Leaf o; std::vector<int64_t> v; std::map<std::string, int64_t> m;
    Doc() : b(false), i(0), f(0) {}
};
reflectType(Doc) { reflectPlumbing(); reflectAlloc(); reflectField(b); reflectField(i); reflectField(f); reflectField(s); reflectField(o); reflectField(v); reflectField(m); }
JS_BEGIN(Doc) JS_SHAPE JS_F(b) JS_F(i) JS_F(f) JS_F(s) JS_F(o) JS_F(v) JS_F(m) JS_SHAPE_END
    JS_D(b) JS_D(i) JS_D(f) JS_D(s) JS_D(o) JS_D(v) JS_D(m) JS_DUMP_END
    JS_L(0, b) JS_L(1, i) JS_L(2, f) JS_L(3, s) JS_L(4, o) JS_L(5, v) JS_L(6, m) JS_END

struct Deep { std::vector<Leaf> vo; std::map<std::string, Leaf> mo; std::vector<std::vector<std::string>> vv; std::map<std::string, std::vector<double>> mv; std::vector<std::map<std::string, bool>> vm; };
reflectType(Deep) { reflectPlumbing(); reflectField(vo); reflectField(mo); reflectField(vv); reflectField(mv); reflectField(vm); }
JS_BEGIN(Deep) JS_SHAPE JS_F(vo) JS_F(mo) JS_F(vv) JS_F(mv) JS_F(vm) JS_SHAPE_END JS_D(vo) JS_D(mo) JS_D(vv) JS_D(mv) JS_D(vm) JS_DUMP_END
    JS_L(0, vo) JS_L(1, mo) JS_L(2, vv) JS_L(3, mv) JS_L(4, vm) JS_END

struct Ptrs
{
    int64_t* p; Leaf* q; std::shared_ptr<Leaf> sh; std::shared_ptr<std::string> sv; std::vector<std::shared_ptr<int64_t>> vs; std::map<std::string, Leaf*> mp;
    Ptrs() : p(nullptr), q(nullptr) {}
};
reflectType(Ptrs) { reflectPlumbing(); reflectField(p); reflectField(q); reflectField(sh); reflectField(sv); reflectField(vs); reflectField(mp); }
JS_BEGIN(Ptrs) JS_SHAPE JS_F(p) JS_F(q) JS_F(sh) JS_F(sv) JS_F(vs) JS_F(mp) JS_SHAPE_END JS_D(p) JS_D(q) JS_D(sh) JS_D(sv) JS_D(vs) JS_D(mp) JS_DUMP_END
    JS_L(0, p) JS_L(1, q) JS_L(2, sh) JS_L(3, sv) JS_L(4, vs) JS_L(5, mp) JS_END

struct Custom2
{
    int64_t a;
    Custom2() : a(0) {}
    void parseJson(reflect::json::Reader& r) { a = atoll(reflect::json::parseString(r).c_str()); }
    void printJson(reflect::json::Writer& w) const { reflect::json::printString(w, std::to_string(a)); }
};
reflectTypeDecl(Custom2)
reflectTypeImpl(Custom2)
{
    reflectPlumbing(); reflectFn(parseJson); reflectFn(printJson);
    reflect::json::Traits t; t.skip = t.skipEmpty = false; t.parser = "parseJson"; t.printer = "printJson";
    type_->addTrait("json", std::move(t));
}
