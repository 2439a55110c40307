/* C14: standard containers through reflection behave as the containers.
 * Every operation sequence up to a depth on vectors, maps and unordered maps of
 * several element types, through owned, borrowed and const handles, mirrored on
 * a plain container of ints. */
#include "vt.h"
#include "types/std/vector.h"
#include "types/std/map.h"
#include "types/std/string.h"
#include <algorithm>
using namespace reflect;
using vt::life;

reflectTypeDecl(vt::Tracked)
reflectTypeImpl(vt::Tracked) { reflectPlumbing(); reflectField(v); }

namespace {

template<typename T> struct El;     // element <-> int
template<> struct El<int> { static int mk(int n) { return n; } static int val(const int& t) { return t; } enum { def = 0, moved = 0, tracks = 0 }; };
template<> struct El<std::string> { static std::string mk(int n) { return n ? std::string(n * 9, 'a' + n % 20) : ""; }
    static int val(const std::string& t) { if (t.size() % 9) return -99; int n = t.size() / 9; for (char c : t) if (c != 'a' + n % 20) return -98; return n; } enum { def = 0, tracks = 0 }; };
template<> struct El<vt::Tracked> { static vt::Tracked mk(int n) { return vt::Tracked(n); } static int val(const vt::Tracked& t) { return t.v; } enum { def = 0, tracks = 1 }; };
template<> struct El<std::vector<int>> { static std::vector<int> mk(int n) { return std::vector<int>(n, n); } static int val(const std::vector<int>& t) { for (int x : t) if (x != (int) t.size()) return -99; return t.size(); } enum { def = 0, tracks = 0 }; };

enum Hnd { HBorrow, HOwn, HConst, NHnd };
const char* hndName[] = { "borrowed", "owned", "const" };

template<typename T> void vec(int depth, const char* name)
{
    typedef std::vector<T> V;
    life().reset();
    {
    V ext; std::vector<int> m;
    for (int i = vx::choose(3, "initially"); i > 0; --i) { ext.push_back(El<T>::mk(i)); m.push_back(i); }
    int h = vx::choose(NHnd, "handle");
    V* obj = &ext;
    Value v = h == HOwn ? Value(V(ext)) : h == HConst ? Value((const V&) ext) : Value(ext);
    if (h == HOwn) obj = const_cast<V*>(&v.get<V>());
    VX_CHECK(v.type()->is("list") && v.type()->getValue<const Type*>("valueType") == type<T>(), "traits", "%s: list trait or value type", name);
    std::vector<int> extM = m;
    VX_NOTE("std::vector<%s> %s, %zu elements", name, hndName[h], m.size());
    auto agree = [&] (const V& o, const std::vector<int>& mm, const char* which) {
        VX_CHECK(o.size() == mm.size(), "content", "%s has %zu elements, expected %zu", which, o.size(), mm.size());
        for (size_t i = 0; i < mm.size(); ++i) VX_CHECK(El<T>::val(o[i]) == mm[i], "content", "%s[%zu] is %d, expected %d", which, i, El<T>::val(o[i]), mm[i]); };
    for (int d = 0; d < depth; ++d) {
        enum { Size, Clear, Resize0, Resize2, Resize5, PushL, PushCL, PushR, PushSelf, Index, IndexWrite, At, AtEnd, AtFar, Swap, NOps };
        static const char* ops[] = { "size", "clear", "resize(0)", "resize(2)", "resize(5)", "push_back(T&)", "push_back(const T&)", "push_back(T&&)", "push_back(own element)", "[i]", "[i] = ", "at(i)", "at(size)", "at(huge)", "assign" };
        int op = vx::choose(NOps, "op");
        if ((op == Index || op == IndexWrite || op == At || op == PushSelf) && m.empty()) vx::assume(false);
        VX_NOTE("  %s", ops[op]);
        vx::step();
        bool mut = op == Clear || (op >= Resize0 && op <= PushSelf) || op == Index || op == IndexWrite || op == Swap;
        bool err;
        T el = El<T>::mk(4 + d);
        switch (op) {
        case Size: err = vt::errs([&] { VX_CHECK(v.call<size_t>("size") == m.size(), "size", "size() is wrong"); }); break;
        case Clear: err = vt::errs([&] { v.call<void>("clear"); }); if (!err) m.clear(); break;
        case Resize0: case Resize2: case Resize5: { size_t n = op == Resize0 ? 0 : op == Resize2 ? 2 : 5; err = vt::errs([&] { v.call<void>("resize", n); }); if (!err) m.resize(n, El<T>::def); break; }
        case PushL: err = vt::errs([&] { v.call<void>("push_back", el); }); if (!err) m.push_back(4 + d);
            VX_CHECK(El<T>::val(el) == 4 + d, "argument", "push_back of an lvalue changed it"); break;
        case PushCL: err = vt::errs([&] { v.call<void>("push_back", (const T&) el); }); if (!err) m.push_back(4 + d);
            VX_CHECK(El<T>::val(el) == 4 + d, "argument", "push_back of a const lvalue changed it"); break;
        case PushR: err = vt::errs([&] { v.call<void>("push_back", std::move(el)); }); if (!err) m.push_back(4 + d); break;
        case PushSelf: err = vt::errs([&] { v.call<void>("push_back", v.call<Value>("at", size_t(0))); }); if (!err) m.push_back(m[0]); break;
        case Index: { size_t i = vx::choose(m.size(), "i"); err = vt::errs([&] { VX_CHECK(&v.call<T&>("operator[]", i) == &(*obj)[i], "element", "[%zu] is not the element", i); }); break; }
        case IndexWrite: { size_t i = vx::choose(m.size(), "i"); err = vt::errs([&] { v[i].assign(el); }); if (!err) m[i] = 4 + d; break; }
        case At: { size_t i = vx::choose(m.size(), "i"); err = vt::errs([&] { Value e = v.call<Value>("at", i); VX_CHECK(e.value() == &(*obj)[i] && e.isConst() && El<T>::val(e.get<T>()) == m[i], "element", "at(%zu)", i); }); break; }
        case AtEnd: err = !vt::errs([&] { v.call<Value>("at", m.size()); }); break;
        case AtFar: err = !vt::errs([&] { v.call<Value>("at", ~size_t(0)); }); break;
        default: { V o; o.push_back(El<T>::mk(4 + d)); err = vt::errs([&] { v.assign(o); }); if (!err) { m.assign(1, 4 + d); } VX_CHECK(o.size() == 1, "argument", "assign changed its source"); break; }
        }
        VX_CHECK(err == (h == HConst && mut), err ? "refused" : "accepted", "std::vector<%s>, %s: %s %s", name, hndName[h], ops[op], err ? "fails" : "succeeds");
        if (h != HOwn) extM = m;
        agree(*obj, m, "the vector"); if (h == HOwn) agree(ext, extM, "the original");
        vx::state(vx::mix(vx::pathHash(), 0));
        vt::checkLife();
        if (El<T>::tracks) VX_CHECK(life().live.size() == obj->size() + (h == HOwn ? ext.size() : 0) + 1, "leak", "%zu objects alive", life().live.size());
    }
    }
    VX_CHECK(life().live.empty(), "leak", "%zu elements never destroyed", life().live.size());
}

template<typename M, typename K, typename T> void map(int depth, const char* name)
{
    life().reset();
    {
    M ext; std::map<int, int> m;
    for (int i = vx::choose(3, "initially"); i > 0; --i) { ext[El<K>::mk(i)] = El<T>::mk(i + 1); m[i] = i + 1; }
    int h = vx::choose(NHnd, "handle");
    M* obj = &ext;
    Value v = h == HOwn ? Value(M(ext)) : h == HConst ? Value((const M&) ext) : Value(ext);
    if (h == HOwn) obj = const_cast<M*>(&v.get<M>());
    std::map<int, int> extM = m;
    VX_CHECK(v.type()->is("map") && v.type()->getValue<const Type*>("valueType") == type<T>() && v.type()->getValue<const Type*>("keyType") == type<K>(), "traits", "%s: traits", name);
    VX_NOTE("%s %s, %zu entries", name, hndName[h], m.size());
    auto agree = [&] (const M& o, const std::map<int, int>& mm, const char* which) {
        VX_CHECK(o.size() == mm.size(), "content", "%s has %zu entries, expected %zu", which, o.size(), mm.size());
        for (auto& e : mm) { auto it = o.find(El<K>::mk(e.first)); VX_CHECK(it != o.end() && El<T>::val(it->second) == e.second, "content", "%s: entry %d", which, e.first); } };
    for (int d = 0; d < depth; ++d) {
        enum { Size, Count, Index, IndexWrite, At, Keys, Assign, NOps };
        static const char* ops[] = { "size", "count(k)", "[k]", "[k] = ", "at(k)", "keys", "assign" };
        int op = vx::choose(NOps, "op"), k = 0;
        if (op >= Count && op <= At) k = vx::choose(4, "k");
        VX_NOTE("  %s k=%d", ops[op], k);
        vx::step();
        bool mut = op == Index || op == IndexWrite || op == Assign, want = h == HConst && mut, err;
        T el = El<T>::mk(5 + d); K key = El<K>::mk(k);
        switch (op) {
        case Size: err = vt::errs([&] { VX_CHECK(v.call<size_t>("size") == m.size(), "size", "size()"); }); break;
        case Count: err = vt::errs([&] { VX_CHECK(v.call<size_t>("count", key) == m.count(k), "count", "count(%d)", k); }); break;
        case Index: err = vt::errs([&] { T& e = v.call<T&>("operator[]", key); VX_CHECK(&e == &(*obj)[key], "element", "[%d] is not the element", k); }); if (!err && !m.count(k)) m[k] = El<T>::def; break;
        case IndexWrite: err = vt::errs([&] { v[key].assign(el); }); if (!err) m[k] = 5 + d; break;
        case At: want = !m.count(k); err = vt::errs([&] { Value e = v.call<Value>("at", key); VX_CHECK(e.isConst() && El<T>::val(e.get<T>()) == m[k], "element", "at(%d)", k); }); break;
        case Keys: err = vt::errs([&] { auto ks = v.call<std::vector<K>>("keys"); std::vector<int> got, exp; for (auto& x : ks) got.push_back(El<K>::val(x)); for (auto& x : m) exp.push_back(x.first);
            std::sort(got.begin(), got.end()); VX_CHECK(got == exp, "keys", "keys() lists %zu keys, expected %zu, or others", got.size(), exp.size()); }); break;
        default: { M o; o[El<K>::mk(3)] = El<T>::mk(5 + d); err = vt::errs([&] { v.assign(o); }); if (!err) { m.clear(); m[3] = 5 + d; } break; }
        }
        VX_CHECK(err == want, err ? "refused" : "accepted", "%s, %s: %s k=%d %s", name, hndName[h], ops[op], k, err ? "fails" : "succeeds");
        if (h != HOwn) extM = m;
        agree(*obj, m, "the map"); if (h == HOwn) agree(ext, extM, "the original");
        vx::state(vx::pathHash());
        vt::checkLife();
        if (El<T>::tracks) VX_CHECK(life().live.size() == obj->size() + (h == HOwn ? ext.size() : 0) + 1, "leak", "%zu objects alive", life().live.size());
    }
    }
    VX_CHECK(life().live.empty(), "leak", "%zu elements never destroyed", life().live.size());
}

} // namespace

VX_SUITE_D(vectors, 4)
{
    int depth = vx::pick(3, 4);
    switch (vx::choose(4, "element")) {
    case 0: vec<int>(depth, "int"); break;
    case 1: vec<std::string>(depth, "std::string"); break;
    case 2: vec<vt::Tracked>(depth, "Tracked"); break;
    default: vec<std::vector<int>>(depth, "std::vector<int>"); break;
    }
}
VX_SUITE_D(maps, 4)
{
    int depth = vx::pick(3, 4);
    switch (vx::choose(6, "container")) {
    case 0: map<std::map<int, int>, int, int>(depth, "std::map<int, int>"); break;
    case 1: map<std::map<std::string, vt::Tracked>, std::string, vt::Tracked>(depth, "std::map<std::string, Tracked>"); break;
    case 2: map<std::unordered_map<std::string, int>, std::string, int>(depth, "std::unordered_map<std::string, int>"); break;
    case 3: map<std::unordered_map<int, std::vector<int>>, int, std::vector<int>>(depth, "std::unordered_map<int, std::vector<int>>"); break;
    case 4: map<std::map<int, std::string>, int, std::string>(depth, "std::map<int, std::string>"); break;
    default: map<std::unordered_map<int, vt::Tracked>, int, vt::Tracked>(depth, "std::unordered_map<int, Tracked>"); break;
    }
}
/* Sizes: many elements, in bulk. */
VX_SUITE_D(sizes, 1)
{
    static const size_t sizes[] = { 0, 1, 2, 15, 16, 17, 127, 128, 255, 256, 1000, 1023, 1024, 1025, 5000 };
    size_t n = sizes[vx::choose(15, "size")]; int how = vx::choose(4, "how");
    std::vector<std::string> vs; Value v(vs); std::map<int, std::string> ms; Value m(ms);
    auto text = [] (size_t i) { return std::string(i % 40, 'x') + std::to_string(i); };
    vx::step(n);
    switch (how) {
    case 0: for (size_t i = 0; i < n; ++i) v.call<void>("push_back", text(i)); break;
    case 1: v.call<void>("resize", n); for (size_t i = 0; i < n; ++i) v[i].assign(text(i)); break;
    case 2: for (size_t i = 0; i < n; ++i) m[int(i)].assign(text(i)); break;
    default: for (size_t i = n; i-- > 0;) m[int(i)].assign(text(i)); break;
    }
    vx::state(vx::pathHash());
    if (how < 2) { VX_CHECK(vs.size() == n && v.call<size_t>("size") == n, "size", "%zu of %zu", vs.size(), n);
        for (size_t i = 0; i < n; ++i) VX_CHECK(vs[i] == text(i) && v.call<std::string>("at", i) == text(i), "content", "element %zu of %zu", i, n);
        VX_CHECK(vt::errs([&] { v.call<Value>("at", n); }), "accepted", "at(size) of %zu", n); }
    else { VX_CHECK(ms.size() == n && m.call<std::vector<int>>("keys").size() == n, "size", "%zu of %zu", ms.size(), n);
        for (size_t i = 0; i < n; ++i) VX_CHECK(ms[i] == text(i) && m.call<std::string>("at", int(i)) == text(i), "content", "entry %zu of %zu", i, n); }
}
VX_SUITE_D(strings, 1)
{
    static const size_t sizes[] = { 0, 1, 14, 15, 16, 17, 31, 32, 255, 256, 4095, 4096, 65536 };
    size_t n = sizes[vx::choose(13, "size")]; int h = vx::choose(NHnd, "handle");
    std::string s(n, 'q'); if (n > 1) s[n / 2] = '\0';
    Value v = h == HBorrow ? Value(s) : h == HOwn ? Value(std::string(s)) : Value((const std::string&) s);
    vx::step(); vx::state(vx::pathHash());
    VX_CHECK(v.type()->is("string") && v.call<size_t>("size") == n, "size", "%zu", n);
    VX_CHECK(v.get<std::string>() == s && v.copy().get<std::string>() == s && type<std::string>()->construct(v).get<std::string>() == s, "content", "%zu", n);
    bool e = vt::errs([&] { v.assign(std::string("other")); });
    VX_CHECK(e == (h == HConst), e ? "refused" : "accepted", "assign");
    VX_CHECK(h == HConst || v.get<std::string>() == "other", "content", "assigned string");
    VX_CHECK(h == HBorrow ? s == "other" : s.size() == n, "content", "the original");
}
