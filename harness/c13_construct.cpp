/* C13: construction, allocation, copying and moving through reflection.
 * Every class shape x operation x argument kind, with every instance tracked. */
#include "vt.h"
#include "types/std/smart_ptr.h"
using namespace reflect;
using vt::life;

namespace k13 {
// counts itself and remembers how it was made
enum How { Default, Int, Two, Str, CopyCtor, MoveCtor };
struct Core : public vt::Tracked
{
    int how;
    Core() : vt::Tracked(1), how(Default) {}
    explicit Core(int n) : vt::Tracked(n), how(Int) {}
    Core(int a, int b) : vt::Tracked(a * 100 + b), how(Two) {}
    Core(const std::string& s) : vt::Tracked((int) s.size()), how(Str) {}
    Core(const Core& o) : vt::Tracked(o), how(CopyCtor) {}
    Core(Core&& o) : vt::Tracked(std::move(o)), how(MoveCtor) {}
    Core& operator=(const Core&) = default; Core& operator=(Core&&) = default;
};
#define COMMON(N) N() {} explicit N(int n) : Core(n) {} N(int a, int b) : Core(a, b) {} explicit N(const std::string& s) : Core(s) {}
struct Full : Core { COMMON(Full) Full(const Full&) = default; Full(Full&&) = default; Full& operator=(const Full&) = default; Full& operator=(Full&&) = default; };
struct CopyOnly : Core { COMMON(CopyOnly) CopyOnly(const CopyOnly& o) : Core(o) {} CopyOnly& operator=(const CopyOnly& o) { Core::operator=(o); return *this; } };          // moves copy
struct MoveOnly : Core { COMMON(MoveOnly) MoveOnly(const MoveOnly&) = delete; MoveOnly(MoveOnly&&) = default; MoveOnly& operator=(MoveOnly&&) = default; };
struct NoDefault : Core { explicit NoDefault(int n) : Core(n) {} NoDefault(int a, int b) : Core(a, b) {}
    explicit NoDefault(const std::string& s) : Core(s) {} NoDefault(const NoDefault&) = default; NoDefault(NoDefault&&) = default; };
struct Pinned : Core { COMMON(Pinned) Pinned(const Pinned&) = delete; Pinned(Pinned&&) = delete; };
struct Bare : Core { COMMON(Bare) Bare(const Bare&) = default; Bare(Bare&&) = default; };      // reflected without plumbing
struct Kid : Full { Kid() {} explicit Kid(int n) : Full(n) {} Kid(int a, int b) : Full(a, b) {} explicit Kid(const std::string& s) : Full(s) {}
    Kid(const Kid&) = default; Kid(Kid&&) = default; Kid& operator=(const Kid&) = default; Kid& operator=(Kid&&) = default; };                                        // inherits Full, own plumbing
struct BareKid : Full { BareKid() {} explicit BareKid(int n) : Full(n) {} BareKid(int a, int b) : Full(a, b) {} explicit BareKid(const std::string& s) : Full(s) {}
    BareKid(const BareKid&) = default; BareKid(BareKid&&) = default; BareKid& operator=(const BareKid&) = default; BareKid& operator=(BareKid&&) = default; };                        // inherits Full, no plumbing
} // namespace k13
using namespace k13;

#define CONS reflectCons(int); reflectCons(int, int); reflectCons(const std::string&);
reflectType(k13::Full) { reflectPlumbing(); reflectAllocPlumbing(); CONS }
reflectType(k13::CopyOnly) { reflectPlumbing(); reflectAllocPlumbing(); CONS }
reflectType(k13::MoveOnly) { reflectPlumbing(); reflectAllocPlumbing(); CONS }
reflectType(k13::NoDefault) { reflectPlumbing(); reflectAllocPlumbing(); CONS }
reflectType(k13::Pinned) { reflectPlumbing(); reflectAllocPlumbing(); }
reflectType(k13::Bare) { }
reflectType(k13::Kid) { reflectParent(k13::Full); reflectPlumbing(); reflectAllocPlumbing(); CONS }
reflectType(k13::BareKid) { reflectParent(k13::Full); }

namespace {

struct Shape { const char* name; bool def, copy, move, cons, plumbed, allocDef; };
const Shape shapes[] = {
    { "Full", 1, 1, 1, 1, 1, 1 }, { "CopyOnly", 1, 1, 1, 1, 1, 1 }, { "MoveOnly", 1, 0, 1, 1, 1, 1 }, { "NoDefault", 0, 1, 1, 1, 1, 0 },
    { "Pinned", 0, 0, 0, 0, 1, 1 }, { "Bare", 0, 0, 0, 0, 0, 0 }, { "Kid", 1, 1, 1, 1, 1, 1 }, { "BareKid", 0, 0, 0, 0, 0, 0 } };
enum { NShapes = 8 };

template<typename T> struct StoreIf
{
    static Value go(std::true_type) { return Value(T(42)); }
    static Value go(std::false_type) { return Value(); }
};

enum Src { sL, sCL, sR, sCR, sStored, NSrc };
const char* srcName[] = { "T&", "const T&", "rvalue()", "toConst()", "stored" };
enum Op { oDefault, oInt, oTwo, oStr, oConstruct, oCopy, oMove, oAlloc, oAllocCopy, oWrong, oAssign, oConstructRaw, oAllocRaw, NOps };
const char* opName[] = { "construct()", "construct(int)", "construct(int, int)", "construct(string)", "construct(value)", "copy()", "move()",
    "alloc()", "new(value)", "construct(wrong)", "assign", "construct(raw)", "new(raw)" };

template<typename T> struct Raw     // pass a C++ object rather than a Value
{
    template<typename U> static Value construct(const Type* t, U&& u) { return t->construct(std::forward<U>(u)); }
    template<typename U> static T* alloc(const Type* t, U&& u) { return t->call<T*>("new", std::forward<U>(u)); }
};

template<typename T> void run(int si)
{
    const Shape& s = shapes[si];
    const bool movesCopy = si == 1;
    const Type* t = type<T>();
    life().reset();
    {
    T ext(42);
    int op = vx::choose(NOps, "op"), src = sL;
    bool takes = op == oConstruct || op == oCopy || op == oMove || op == oAllocCopy || op == oAssign || op == oConstructRaw || op == oAllocRaw;
    if (takes) src = vx::choose(op >= oConstructRaw ? 4 : NSrc, "source");
    if (src == sStored && !std::is_move_constructible<T>::value) vx::assume(false);
    if (op >= oConstructRaw && !std::is_move_constructible<T>::value) vx::assume(false);
    if (op == oConstructRaw && src == sCR) vx::assume(false);
    // a class without its own "new" answers with its parent's: a parent object, not judged here
    if (si == 7 && (op == oAlloc || op == oAllocCopy || op == oAllocRaw)) vx::assume(false);
    Value v;
    switch (src) { case sL: v = Value(ext); break; case sCL: v = Value((const T&) ext); break; case sR: v = Value(ext).rvalue(); break;
        case sCR: v = Value(ext).toConst(); break; default: v = StoreIf<T>::go(typename std::is_move_constructible<T>::type()); break; }
    const T* obj = static_cast<const T*>(v.value()); Value keep = v;
    std::string w = vx::fmt("%s: %s from %s", s.name, opName[op], takes ? srcName[src] : "-");
    VX_NOTE("%s", w.c_str());
    vx::step(); vx::state(vx::hashStr(w));
    VX_CHECK(t->isCopiable() == s.copy && t->isMovable() == s.move, "queries", "%s: isCopiable=%d isMovable=%d", s.name, t->isCopiable(), t->isMovable());
    if (s.plumbed) VX_CHECK(t->getValue<size_t>("sizeof") == sizeof(T), "sizeof", "%s: sizeof trait is %zu", s.name, t->getValue<size_t>("sizeof"));
    size_t before = life().live.size();
    bool srcConst = src == sCL || src == sCR, srcR = src == sR;
    bool err = false, want = false, consumed = false; int content = 42, how = -1;
    Value r; T* p = nullptr; bool alloc = false;
    std::string what; auto attempt = [&] (std::function<void()> f) { err = vt::errs(f, &what); if (err) VX_NOTE("error: %s", what.c_str()); };
    switch (op) {
    case oDefault: attempt([&] { r = t->construct(); }); want = !s.def; content = 1; how = -1; break;
    case oInt: attempt([&] { r = t->construct(7); }); want = !s.cons; content = 7; break;
    case oTwo: attempt([&] { r = t->construct(7, 8); }); want = !s.cons; content = 708; break;
    case oStr: attempt([&] { r = t->construct(std::string("hello")); }); want = !s.cons; content = 5; break;
    case oConstruct:
        attempt([&] { r = t->construct(v); });
        want = srcR ? !(s.move || s.copy) : src == sCR ? !s.copy : !s.copy; consumed = srcR && !movesCopy; break;
    case oCopy: attempt([&] { r = v.copy(); }); want = !s.copy; consumed = srcR && !movesCopy; break;
    case oMove: attempt([&] { r = v.move(); }); want = !s.move || (srcConst && !s.copy); consumed = !srcConst && !movesCopy; break;
    case oAlloc: alloc = true; attempt([&] { p = t->alloc().template get<T*>(); }); want = !s.allocDef; content = 1; break;
    case oAllocCopy: alloc = true; attempt([&] { p = t->template call<T*>("new", v); }); want = srcR ? !(s.move || s.copy) : !s.copy; consumed = srcR && !movesCopy; break;
    case oWrong: attempt([&] { int x = 0; switch (vx::choose(3, "wrong")) { case 0: t->construct(&x); break; case 1: t->construct(1, 2, 3); break; default: t->construct(1, std::string("x")); } }); want = true; break;
    case oAssign: {
        attempt([&] { T target(9); Value tv(target); tv.assign(v); content = 42; VX_CHECK(target.v == 42, "assign", "%s: target holds %d", w.c_str(), target.v); });
        bool ca = std::is_copy_assignable<T>::value, ma = std::is_move_assignable<T>::value;
        want = !s.plumbed || (srcR ? !ma && !ca : !ca); if (si == 7 || si == 5) want = si == 5; consumed = srcR && ma && !want && !movesCopy;
        if (si == 7) want = false;  // assigns through Full's operator
        break; }
    case oConstructRaw:
        attempt([&] { r = src == sL ? Raw<T>::construct(t, ext) : src == sCL ? Raw<T>::construct(t, (const T&) ext) : Raw<T>::construct(t, std::move(ext)); });
        want = srcR ? !(s.move || s.copy) : !s.copy; consumed = srcR && !movesCopy && !want; break;
    case oAllocRaw:
        alloc = true;
        attempt([&] { p = src == sL ? Raw<T>::alloc(t, ext) : src == sCL ? Raw<T>::alloc(t, (const T&) ext) : src == sR ? Raw<T>::alloc(t, std::move(ext))
            : Raw<T>::alloc(t, Value(ext).toConst()); });
        want = srcR ? !(s.move || s.copy) : !s.copy; consumed = srcR && !movesCopy && !want; break;
    }
    vt::checkLife();
    // an argument wrapped as a temporary is moved into the wrapper even if the call is then refused
    VX_CHECK(err == want, want ? "accepted" : "refused", "%s %s", w.c_str(), err ? "fails" : "succeeds");
    vx::outcome(err ? "refused" : "done");
    if (op == oAssign) { if (!consumed && !err) VX_CHECK(obj->v == 42, "source", "%s changed its source to %d", w.c_str(), obj->v); }
    else if (!err) {
        const T* made = alloc ? p : static_cast<const T*>(r.value());
        VX_CHECK(made, "result", "%s gives nothing", w.c_str());
        if (!alloc) {
            VX_CHECK(r.isStored() && !r.isConst() && r.refType() == RefType::LValue && r.type() == t, "result", "%s: stored=%d const=%d", w.c_str(), r.isStored(), r.isConst());
            VX_CHECK(&r.get<T>() == made, "result", "%s", w.c_str());
        }
        VX_CHECK(life().live.count(made), "result", "%s gives a dead object", w.c_str());
        VX_CHECK(made != obj || !takes, "aliases", "%s gives the source itself", w.c_str());
        VX_CHECK(made->v == content, "content", "%s gives %d, expected %d", w.c_str(), made->v, content);
        bool sourceGone = op == oMove && src == sStored;
        VX_CHECK(life().live.size() == before + 1, "leak", "%s: %zu objects alive, had %zu", w.c_str(), life().live.size(), before);
        (void) sourceGone;
        if (takes) {
            if (op == oMove) VX_CHECK(v.isVoid() && !v.isStored(), "moved-from", "%s leaves its handle non-empty", w.c_str());
            VX_CHECK(obj->v == (consumed ? (int) vt::Moved : 42), "source", "%s: source holds %d", w.c_str(), obj->v);
        }
        if (alloc) delete p;
    }
    else {
        VX_CHECK(life().live.size() == before, "leak", "failed %s: %zu objects alive, had %zu", w.c_str(), life().live.size(), before);
        if (takes && op < oConstructRaw) VX_CHECK(obj->v == 42, "source", "failed %s changed its source to %d", w.c_str(), obj->v);
        if (takes && op < oConstructRaw && op != oMove) VX_CHECK(v.value() == obj, "source", "failed %s changed its handle", w.c_str());
    }
    (void) how;
    }
    VX_CHECK(life().live.empty(), "leak", "%zu objects never destroyed", life().live.size());
    vt::checkLife();
}

} // namespace

VX_SUITE_D(matrix, 2)
{
    int s = vx::choose(NShapes, "shape");
    switch (s) { case 0: run<Full>(s); break; case 1: run<CopyOnly>(s); break; case 2: run<MoveOnly>(s); break; case 3: run<NoDefault>(s); break;
        case 4: run<Pinned>(s); break; case 5: run<Bare>(s); break; case 6: run<Kid>(s); break; default: run<BareKid>(s); break; }
}

/* Which overloaded constructor runs follows the overload rules whatever order they were reflected in. */
namespace { template<int Tag> struct Multi { int made; Multi(int m = 0) : made(m) {} }; }
VX_SUITE_D(order, 2)
{
    // four constructors registered in every order on a fresh type, by hand
    static const int perms[24][4] = { {0,1,2,3},{0,1,3,2},{0,2,1,3},{0,2,3,1},{0,3,1,2},{0,3,2,1},{1,0,2,3},{1,0,3,2},{1,2,0,3},{1,2,3,0},{1,3,0,2},{1,3,2,0},
        {2,0,1,3},{2,0,3,1},{2,1,0,3},{2,1,3,0},{2,3,0,1},{2,3,1,0},{3,0,1,2},{3,0,2,1},{3,1,0,2},{3,1,2,0},{3,2,0,1},{3,2,1,0} };
    int p = vx::choose(24, "order"), c = vx::choose(5, "call");
    Type t("Multi");
    for (int k : perms[p]) switch (k) {
        case 0: t.addFunction("Multi", [] { return 10; }); break;
        case 1: t.addFunction("Multi", [] (int) { return 11; }); break;
        case 2: t.addFunction("Multi", [] (const std::string&) { return 12; }); break;
        case 3: t.addFunction("Multi", [] (int, const std::string&) { return 13; }); break; }
    vx::step(); vx::state(vx::pathHash());
    Value r; bool e = vt::errs([&] { switch (c) { case 0: r = t.construct(); break; case 1: r = t.construct(1); break; case 2: r = t.construct(std::string("x")); break;
        case 3: r = t.construct(1, std::string("x")); break; default: r = t.construct(std::string("x"), 1); } });
    VX_CHECK(e == (c == 4), c == 4 ? "accepted" : "refused", "call %d, order %d", c, p);
    if (!e) VX_CHECK(r.get<int>() == 10 + c, "overload", "call %d, order %d runs constructor %d", c, p, r.get<int>() - 10);
}

/* Classes without constructors of their own come out value-initialised, then copied whole. */
namespace k13 {
struct Plain { char c; int a; double d; int* p; short n[5]; bool b; };
struct Small { char c; };
struct Mixed { std::string s; int n; Plain in; char last; };                   // needs its string constructed, its numbers zeroed
struct PlainKid : Plain { int64_t more; float f; };
inline bool zero(const Plain& x) { bool ok = !x.c && !x.a && x.d == 0 && !x.p && !x.b; for (short n : x.n) ok = ok && !n; return ok; }
inline bool zero(const Small& x) { return !x.c; }
inline bool zero(const Mixed& x) { return x.s.empty() && !x.n && zero(x.in) && !x.last; }
inline bool zero(const PlainKid& x) { return zero(static_cast<const Plain&>(x)) && !x.more && x.f == 0; }
template<typename T> bool zeroNum(const T& x) { return x == T(); }
inline bool zero(const bool& x) { return !*reinterpret_cast<const unsigned char*>(&x); }
inline bool zero(const int64_t& x) { return zeroNum(x); } inline bool zero(const double& x) { return zeroNum(x); } inline bool zero(const short& x) { return zeroNum(x); } inline bool zero(const char& x) { return zeroNum(x); }
inline bool zero(const std::string& x) { return x.empty(); }
inline void fill(Plain& x, int k) { x.c = 'a' + k; x.a = 5 + k; x.d = 2.5 + k; x.p = reinterpret_cast<int*>(&life()); for (int i = 0; i < 5; ++i) x.n[i] = 10 * k + i; x.b = true; }
inline void fill(Small& x, int k) { x.c = 'b' + k; }
inline void fill(Mixed& x, int k) { x.s = std::string(10 + 20 * k, 'x'); x.n = 7 + k; fill(x.in, k); x.last = 'z'; }
inline void fill(PlainKid& x, int k) { fill(static_cast<Plain&>(x), k); x.more = 9 + k; x.f = 1.5f; }
inline void fill(bool& x, int) { x = true; } inline void fill(std::string& x, int k) { x = std::string(5 + 30 * k, 's'); }
template<typename T> typename std::enable_if<std::is_arithmetic<T>::value>::type fill(T& x, int k) { x = T(3 + k); }
inline bool same(const Plain& x, const Plain& y) { bool ok = x.c == y.c && x.a == y.a && x.d == y.d && x.p == y.p && x.b == y.b; for (int i = 0; i < 5; ++i) ok = ok && x.n[i] == y.n[i]; return ok; }
inline bool same(const Small& x, const Small& y) { return x.c == y.c; }
inline bool same(const Mixed& x, const Mixed& y) { return x.s == y.s && x.n == y.n && same(x.in, y.in) && x.last == y.last; }
inline bool same(const PlainKid& x, const PlainKid& y) { return same(static_cast<const Plain&>(x), y) && x.more == y.more && x.f == y.f; }
template<typename T> typename std::enable_if<std::is_arithmetic<T>::value || std::is_same<T, std::string>::value, bool>::type same(const T& x, const T& y) { return x == y; }
} // namespace k13
reflectType(k13::Plain) { reflectPlumbing(); reflectAllocPlumbing(); }
reflectType(k13::Small) { reflectPlumbing(); reflectAllocPlumbing(); }
reflectType(k13::Mixed) { reflectPlumbing(); reflectAllocPlumbing(); }
reflectType(k13::PlainKid) { reflectParent(k13::Plain); reflectPlumbing(); reflectAllocPlumbing(); }

namespace {
// copies: whether "new" also takes an object to copy
template<typename T> void plain(const char* name, bool copies)
{
    const Type* t = type<T>(); int k = vx::choose(2, "content"), n = vx::pick(3, 4); T model = T(), source; fill(source, k);
    Value owned = t->construct(); T* heap = nullptr; vx::step();
    VX_CHECK(zero(owned.get<T>()), "uninitialised", "%s constructed isn't zero", name);
    for (int d = 0; d < n; ++d) {
        enum { Construct, Alloc, ConstructCopy, ConstructMove, NewCopy, NewMove, Assign, Copy, Move, NOps };
        int op = vx::choose(NOps, "op"); vx::step(); VX_NOTE("%s: op %d", name, op);
        if (!copies && (op == NewCopy || op == NewMove)) { vx::assume(false); }
        switch (op) {
        case Construct: owned = t->construct(); model = T(); break;
        case Alloc: delete heap; heap = nullptr; heap = t->alloc().template get<T*>(); VX_CHECK(zero(*heap), "uninitialised", "%s allocated isn't zero", name); owned = Value(T(*heap)); model = *heap; break;
        case ConstructCopy: owned = t->construct(source); model = source; break;
        case ConstructMove: owned = t->construct(T(source)); model = source; break;
        case NewCopy: delete heap; heap = nullptr; heap = t->template call<T*>("new", source); VX_CHECK(same(*heap, source), "content", "%s copied by new", name); owned = Value(T(*heap)); model = source; break;
        case NewMove: delete heap; heap = nullptr; heap = t->template call<T*>("new", T(source)); VX_CHECK(same(*heap, source), "content", "%s moved by new", name); owned = Value(T(*heap)); model = source; break;
        case Assign: owned.assign(source); model = source; break;
        case Copy: owned = owned.copy(); break;
        default: owned = owned.move(); break;
        }
        VX_CHECK(same(owned.get<T>(), model), "content", "%s has the wrong content after op %d", name, op);
        vx::state(vx::pathHash());
    }
    delete heap;
}
}
VX_SUITE_D(plain, 2)
{
    switch (vx::choose(10, "type")) {
    case 0: plain<Plain>("Plain", true); break; case 1: plain<Small>("Small", true); break; case 2: plain<Mixed>("Mixed", true); break; case 3: plain<PlainKid>("PlainKid", true); break;
    case 4: plain<int64_t>("long", false); break; case 5: plain<double>("double", false); break; case 6: plain<bool>("bool", false); break; case 7: plain<short>("short", false); break;
    case 8: plain<char>("char", false); break; default: plain<std::string>("string", false); break; }
}
