/* C06: casting values to C++ types.
 * Every (value type, value kind, provenance) x (target type, target kind),
 * alone and in sequences on the same value, against the binding rules. */
#define HIER_IMPL
#include "hier.h"
#include "types/std/smart_ptr.h"
using namespace reflect;
using namespace h;

struct NC   // move-only
{
    int v; NC(int v = 0) : v(v) {}
    NC(const NC&) = delete; NC& operator=(const NC&) = delete;
    NC(NC&& o) : v(o.v) { o.v = vt::Moved; } NC& operator=(NC&& o) { v = o.v; o.v = vt::Moved; return *this; }
};
struct NM   // neither
{
    int v; NM(int v = 0) : v(v) {}
    NM(const NM&) = delete; NM& operator=(const NM&) = delete; NM(NM&&) = delete;
};
reflectType(NC) { reflectPlumbing(); }
reflectType(NM) { reflectPlumbing(); }
struct KN : public HP   // can't be copied or moved itself, but the parent in it can
{
    KN(int v = 0) : HP(v) {}
    KN(const KN&) = delete; KN& operator=(const KN&) = delete; KN(KN&&) = delete;
};
struct KB : public HP   // reflected without its constructors
{
    KB(int v = 0) : HP(v) {}
};
reflectType(KN) { reflectPlumbing(); reflectParent(HP); }
reflectType(KB) { reflectParent(HP); }

namespace {

enum { tNC = NTypes, tNM, tInt, tLong, tStr, tPP, tCP, tSPP, tSPC, tKN, tKB, NAll };
const char* name(int t)
{
    static const char* n[] = { "NC", "NM", "int", "long", "string", "HP*", "HC*", "shared_ptr<HP>", "shared_ptr<HC>", "KN", "KB" };
    return t < NTypes ? typeName(t) : n[t - NTypes];
}
bool movable(int t) { return t != tNM && t != tKN && t != tKB; }
bool storable(int t) { return t != tNM && t != tKN; }
bool copiable(int t) { return t != tNM && t != tNC && t != tKN && t != tKB; }
bool derivesX(int f, int t)
{
    if (f == t) return true;
    if (f < NTypes && t < NTypes) return derives(f, t);
    return ((f == tKN || f == tKB) && t == tP) || (f == tCP && t == tPP) || (f == tSPC && t == tSPP);
}
bool convertsX(int f, int t) { return f < NTypes && t < NTypes && converts(f, t); }

HP gp(900); HC gc(901);

template<int I> struct Ty;
#define TY(I, T, MAKE, CONTENT) template<> struct Ty<I> { typedef T type; static T* make(int n) { (void) n; return new T(MAKE); } \
    static long content(const T& x) { return CONTENT; } }
TY(tA, HA, n, x.v); TY(tP, HP, n, x.v); TY(tC, HC, n, x.v); TY(tG, HG, n, x.v); TY(tV, HV, n, x.v); TY(tW, HW, n, x.v); TY(tX, HX, n, x.v);
TY(tNC, NC, n, x.v); TY(tNM, NM, n, x.v); TY(tKN, KN, n, x.v); TY(tKB, KB, n, x.v); TY(tInt, int, n, x); TY(tLong, long, n, x);
TY(tStr, std::string, std::to_string(n) + "-a-string-too-long-for-the-small-buffer", x.empty() ? -1 : atol(x.c_str()));
template<> struct Ty<tPP> { typedef HP* type; static HP** make(int) { return new (HP*)(&gp); } static long content(HP* const& x) { return x ? x->v : -1; } };
template<> struct Ty<tCP> { typedef HC* type; static HC** make(int) { return new (HC*)(&gc); } static long content(HC* const& x) { return x ? x->v : -1; } };
TY(tSPP, std::shared_ptr<HP>, std::make_shared<HP>(n), x ? x->v : -1);
TY(tSPC, std::shared_ptr<HC>, std::make_shared<HC>(n), x ? x->v : -1);

// ---- source objects --------------------------------------------------------
struct Src { virtual ~Src() {} virtual Value value(int kind) = 0; virtual long content() = 0; virtual const void* addr() = 0; virtual bool consistent() = 0; };
template<typename T> Value stored(T* p, std::true_type) { return Value(std::move(*p)); }
template<typename T> Value stored(T*, std::false_type) { return Value(); }
template<int I> struct SrcT : Src
{
    typedef typename Ty<I>::type T; T* p; Value keep;
    SrcT() : p(Ty<I>::make(100 + I)) {}
    ~SrcT() { delete p; }
    Value value(int kind)
    {
        switch (kind) {
        case 0: return Value(*p);
        case 1: return Value((const T&) *p);
        case 2: return Value(*p).rvalue();
        case 3: return Value(*p).toConst();
        case 4: return Value((const T&) *p).rvalue();
        case 5: case 6: {
            keep = stored<T>(p, typename std::is_move_constructible<T>::type());
            return kind == 5 ? keep : keep.rvalue(); }
        }
        return Value();
    }
    const T& cur() { return keep.isVoid() ? *p : *static_cast<const T*>(keep.value()); }
    long content() { return Ty<I>::content(cur()); }
    const void* addr() { return &cur(); }
    bool consistent() { return true; }
};
const int srcKind[] = { kL, kCL, kR, kCR, kCR, kL, kR };
const char* srcName[] = { "T&", "const T&", "T& rvalue()", "T& toConst()", "const T& rvalue()", "stored", "stored rvalue()" };
enum { NSrc = 7 };

template<int I> Src* mkSrc(int t) { return t == I ? new SrcT<I> : mkSrc<I - 1>(t); }
template<> Src* mkSrc<-1>(int) { return nullptr; }

// ---- targets ---------------------------------------------------------------
struct Res { bool ok; const void* addr; long content; std::string err; };
template<int I, int K> struct To
{
    typedef typename Ty<I>::type T;
    typedef typename std::conditional<K == kCopy, T, typename std::conditional<K == kL, T&, typename std::conditional<K == kCL, const T&,
        typename std::conditional<K == kR, T&&, const T&&>::type>::type>::type>::type Target;
    static bool can(const Value& v) { return isCastable<Target>(v); }
    static bool can2(Value v) { return isCastable<Target>(std::move(v)); }
    template<typename X> static Res look(X&& x) { Res r; r.ok = true; r.addr = &x; r.content = Ty<I>::content(x); return r; }
    static Res go(Value& v)
    {
        Res r; r.ok = false; r.addr = nullptr; r.content = 0;
        try { return run(v, std::integral_constant<bool, ((I == tNM || I == tKN) && K != kL && K != kCL) || (I == tNC && K == kCR)>()); }
        catch (const Error& e) { r.err = e.what(); }
        return r;
    }
    static Res run(Value& v, std::false_type) { return look(cast<Target>(v)); }
    static Res run(Value&, std::true_type) { throw Error("does not compile"); }  // cast to a type that cannot be returned by value
};
template<int N> struct Dispatch
{
    static bool can(int n, const Value& v, bool other)
    { return n == N ? (other ? To<N / NKinds, N % NKinds>::can2(v) : To<N / NKinds, N % NKinds>::can(v)) : Dispatch<N - 1>::can(n, v, other); }
    static Res go(int n, Value& v) { return n == N ? To<N / NKinds, N % NKinds>::go(v) : Dispatch<N - 1>::go(n, v); }
};
template<> struct Dispatch<-1>
{ static bool can(int, const Value&, bool) { return false; } static Res go(int, Value&) { return Res(); } };

bool wantCastable(int f, int fk, int t, int tk)
{
    if (tk == kCopy && !copiable(t)) return false;
    if ((tk == kR || tk == kCR) && !movable(t)) return false;
    if (f < NTypes && t < NTypes) return binds(f, fk, t, tk) != None;
    if (!derivesX(f, t)) return false;
    bool fc = fk == kCL || fk == kCR, fr = fk == kR || fk == kCR;
    switch (tk) { case kCopy: case kCL: return true; case kL: return !fc && !fr; case kR: return fr && !fc; default: return fr; }
}

void one(Src& s, Value& v, int f, int fk, bool constSrc, int t, int tk)
{
    long before = s.content();
    std::string w = vx::fmt("%s (%s) to %s (%s)", name(f), kindName(fk), name(t), kindName(tk));
    bool want = wantCastable(f, fk, t, tk);
    bool can = Dispatch<NAll * NKinds - 1>::can(t * NKinds + tk, v, false), can2 = Dispatch<NAll * NKinds - 1>::can(t * NKinds + tk, v, true);
    VX_CHECK(can == can2, "query-unstable", "%s: isCastable differs between an l-value and an r-value handle", w.c_str());
    VX_CHECK(s.content() == before, "query-modifies", "%s: asking isCastable changed the object", w.c_str());
    Res r = Dispatch<NAll * NKinds - 1>::go(t * NKinds + tk, v);
    VX_NOTE("%s: isCastable=%d, cast %s", w.c_str(), can, r.ok ? "done" : r.err.c_str());
    vx::step(3); vx::state(((f * 8 + fk) * 32 + t) * 8 + tk);
    VX_CHECK(can == want, "query", "%s: isCastable=%d, expected %d", w.c_str(), can, want);
    bool moveTarget = tk == kR || tk == kCR;
    bool rel = derivesX(f, t), conv = convertsX(f, t);
    // r-value targets: the library also lets an l-value be consumed explicitly
    bool allowed = moveTarget ? movable(t) && (rel || conv) && !(tk == kCR && !copiable(t)) : want;
    if (want && !(tk == kCR && !copiable(t)))
        VX_CHECK(r.ok, "castable-but-fails", "%s: isCastable but the cast fails: %s", w.c_str(), r.err.c_str());
    VX_CHECK(r.ok == allowed, r.ok ? "cast-accepted" : "cast-refused", "%s: cast %s", w.c_str(), r.ok ? "succeeds" : r.err.c_str());
    if (!r.ok) {
        VX_CHECK(s.content() == before, "failed-cast-modifies", "%s: failed cast changed the object from %ld to %ld", w.c_str(), before, s.content());
        vx::outcome("refused"); return;
    }
    long expect = conv ? before + 1000 : before;
    VX_CHECK(r.content == expect, "content", "%s: cast gives %ld, expected %ld", w.c_str(), r.content, expect);
    if (tk == kL || tk == kCL) {
        VX_CHECK(r.addr == s.addr() && r.addr == v.value(), "identity", "%s: the reference is not to the object", w.c_str());
        VX_CHECK(s.content() == before, "modified", "%s: referring to the object changed it", w.c_str());
    }
    else {
        VX_CHECK(r.addr != s.addr(), "identity", "%s: a copy shares the object's storage", w.c_str());
        bool mayConsume = (tk == kR || (tk == kCopy && fk == kR && !constSrc));
        if (!mayConsume || conv) VX_CHECK(s.content() == before, "modified", "%s: cast changed the source from %ld to %ld", w.c_str(), before, s.content());
    }
    vx::outcome(tk == kL || tk == kCL ? "reference" : conv ? "converted" : "copied/moved");
}

} // namespace

VX_SUITE_D(pairs, 2)
{
    int f = vx::choose(NAll, "from"), sk = vx::choose(NSrc, "source");
    if (sk >= 5 && !storable(f)) vx::assume(false);
    std::unique_ptr<Src> s(mkSrc<NAll - 1>(f));
    int t = vx::choose(NAll, "to"), tk = vx::choose(NKinds, "kind");
    Value v = s->value(sk);
    one(*s, v, f, srcKind[sk], sk == 1 || sk == 3 || sk == 4, t, tk);
}

// repeated casts on one handle: references and copies leave the handle as good as new
VX_SUITE_D(repeated, 3)
{
    static const int types[] = { tP, tC, tG, tV, tW, tStr, tCP, tSPC, tX, tKN, tKB };
    int f = types[vx::choose(11, "from")], sk = vx::choose(NSrc, "source");
    if (sk >= 5 && !storable(f)) vx::assume(false);
    std::unique_ptr<Src> s(mkSrc<NAll - 1>(f));
    Value v = s->value(sk);
    int n = vx::pick(3, 4);
    for (int i = 0; i < n; ++i) {
        static const int targets[] = { tP, tC, tV, tStr, tPP, tSPP };
        int t = targets[vx::choose(6, "to")], tk = vx::choose(3, "kind");   // T, T&, const T&
        if (tk == kCopy && srcKind[sk] == kR) vx::assume(false);            // consumes the object
        if (!wantCastable(f, srcKind[sk], t, tk) && i + 1 < n) vx::assume(false);
        one(*s, v, f, srcKind[sk], false, t, tk);
    }
}

// the empty value is castable to nothing
VX_SUITE(empty)
{
    Value v; if (vx::flip("moved-from")) { HA a(1); Value w(a); v = w; Value x = std::move(v); VX_CHECK(x.value() == &a, "moved", "handle lost"); v = Value(); }
    int n = vx::choose(NAll * NKinds, "target");
    vx::step(); vx::state(n);
    VX_CHECK(!Dispatch<NAll * NKinds - 1>::can(n, v, false), "query", "the empty value claims to be castable to %s (%s)", name(n / NKinds), kindName(n % NKinds));
    Res r = Dispatch<NAll * NKinds - 1>::go(n, v);
    VX_CHECK(!r.ok, "cast-accepted", "the empty value was cast to %s (%s)", name(n / NKinds), kindName(n % NKinds));
}

// casting to Value wraps: the caller's object for l-values, a stored one for temporaries
VX_SUITE(wrap)
{
    HC c(5); const HC& cc = c;
    int k = vx::choose(6, "kind");
    vx::step(); vx::state(k);
    Value in(c);
    switch (k) {
    case 0: { Value v = cast<Value>(c); VX_CHECK(v.value() == &c && !v.isConst() && !v.isStored(), "wrap", "cast<Value>(T&)"); break; }
    case 1: { Value v = cast<Value>(cc); VX_CHECK(v.value() == &c && v.isConst() && !v.isStored(), "wrap", "cast<Value>(const T&)"); break; }
    case 2: { Value v = cast<Value>(HC(6)); VX_CHECK(v.isStored() && v.get<HC>().v == 6 && !v.isConst(), "wrap", "cast<Value>(temporary)"); break; }
    case 3: { Value v = cast<Value>(std::move(c)); VX_CHECK(v.isStored() && v.get<HC>().v == 5 && c.v == vt::Moved, "wrap", "cast<Value>(T&&)"); break; }
    case 4: { Value& v = cast<Value>(in); VX_CHECK(&v == &in, "wrap", "cast<Value>(Value&) is another value"); break; }
    case 5: { const Value& ci = in; const Value& v = cast<Value>(ci); VX_CHECK(&v == &in, "wrap", "cast<Value>(const Value&) is another value"); break; }
    }
}
