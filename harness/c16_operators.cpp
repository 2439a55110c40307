/* C16: operators used on values mean the operators of the class.
 * Every operator, handle kind, operand kind and content, in sequences up to a
 * depth, mirrored on a twin object outside of reflection; and every class which
 * defines just one of the operators. */
#include "vt.h"
using namespace reflect;

/* name, tag, macro; assignment-like, plain binary, comparisons. */
#define ASSIGN_OPS(X) X(+=, PlusA) X(-=, MinusA) X(*=, MultA) X(/=, DivA) X(%=, ModA) X(&=, AndA) X(|=, OrA) X(^=, XorA) X(<<=, ShlA) X(>>=, ShrA)
#define ARITH_OPS(X) X(+, Plus) X(-, Minus) X(*, Mult) X(/, Div) X(%, Mod) X(&, And) X(|, Or) X(^, Xor) X(<<, Shl) X(>>, Shr)
#define BOOL_OPS(X) X(&&, LAnd) X(||, LOr) X(==, Eq) X(!=, Ne) X(<, Lt) X(>, Gt) X(<=, Le) X(>=, Ge)

namespace k16 {
enum Tag {
#define X(op, tag) T##tag,
    ASSIGN_OPS(X) ARITH_OPS(X) BOOL_OPS(X)
#undef X
    TNot, TLNot, TPreInc, TPostInc, TPreDec, TPostDec, TIndex, TCall, TCast, TBool, NTags };

/* Every result tells the operator, the operand and its side apart. */
inline long f(int tag, long a, long b) { return (a * 31 + b * 7 + tag * 1009 + 13) % 1000003; }
inline bool g(int tag, long a, long b) { return ((a * 5 + b * 3) >> (tag % 3)) & 1; }

struct Num {
    long v; long cell[3];
    explicit Num(long v = 0) : v(v) { for (int i = 0; i < 3; ++i) cell[i] = v * 10 + i; }
    bool same(const Num& o) const { return v == o.v && cell[0] == o.cell[0] && cell[1] == o.cell[1] && cell[2] == o.cell[2]; }
#define X(op, tag) Num& operator op (const Num& o) { v = f(T##tag, v, o.v); return *this; }
    ASSIGN_OPS(X)
#undef X
#define X(op, tag) Num operator op (const Num& o) const { return Num(f(T##tag, v, o.v)); }
    ARITH_OPS(X)
#undef X
#define X(op, tag) bool operator op (const Num& o) const { return g(T##tag, v, o.v); }
    BOOL_OPS(X)
#undef X
    Num operator~() const { return Num(f(TNot, v, 0)); }
    bool operator!() const { return g(TLNot, v, 0); }
    Num& operator++() { v = f(TPreInc, v, 0); return *this; }
    Num operator++(int k) { Num r(*this); v = f(TPostInc, v, k); return r; }
    Num& operator--() { v = f(TPreDec, v, 0); return *this; }
    Num operator--(int k) { Num r(*this); v = f(TPostDec, v, k); return r; }
    long& operator[](int i) { return cell[i]; }
    long operator()(long a, long b) const { return f(TCall, f(TCall, v, a), b); }
    operator long() const { return f(TCast, v, 0); }
    explicit operator bool() const { return g(TBool, v, 0); }
};
struct Kid : Num { int w; explicit Kid(long v = 0) : Num(v), w(5) {} };
struct ArgVal { int v; ArgVal(int v = 0) : v(v) {}
    ArgVal operator+(int k) const { return ArgVal(v + k * 2); } ArgVal& operator-=(int k) { v -= k * 3; return *this; }
    int* operator*() { return &v; } bool operator==(const std::string& s) const { return s.size() == (size_t) v; }
    std::string operator[](const std::string& k) const { return k + "!"; } int operator()() { return ++v; } explicit operator bool() const { return v > 1; } };

/* Classes with a single operator. */
#define ONE_BODY(op, tag) struct One##tag { int v; One##tag(int v = 0) : v(v) {} int operator op (const One##tag& o) { return v * 100 + o.v + T##tag; } };
ASSIGN_OPS(ONE_BODY) ARITH_OPS(ONE_BODY) BOOL_OPS(ONE_BODY)
struct None {};
}
reflectType(k16::Num) { reflectPlumbing(); reflectOperators(); reflectOpCast(long); reflectOpCast(bool); reflectField(v); }
reflectType(k16::Kid) { reflectParent(k16::Num); reflectPlumbing(); reflectField(w); }
reflectType(k16::ArgVal) { reflectPlumbing(); reflectOperators(); reflectOpCast(bool); }
reflectType(k16::None) { reflectOperators(); }
#define X(op, tag) reflectType(k16::One##tag) { reflectPlumbing(); reflectOperators(); }
ASSIGN_OPS(X) ARITH_OPS(X) BOOL_OPS(X)
#undef X

namespace {
using k16::Num; using k16::Kid;
enum Hnd { Borrow, Own, ConstRef, Const, RVal, OfKid, NHnd };
const char* hndName[] = { "borrowed", "owned", "const object", "toConst()", "rvalue()", "derived" };
enum Opd { Native, NativeRV, Handle, ConstHandle, RHandle, KidHandle, Itself, NOpd };
const char* opdName[] = { "object", "temporary", "Value", "const Value", "rvalue Value", "derived Value", "itself" };

template<typename F> void withOperand(int kind, Num& n, Value self, F& fn)
{
    switch (kind) {
    case Native: fn(n); break;
    case NativeRV: fn(Num(n)); break;
    case Handle: fn(Value(n)); break;
    case ConstHandle: { const Num& c = n; Value v(c); fn(v); break; }
    case RHandle: fn(Value(n).rvalue()); break;
    case KidHandle: fn(Value(Kid(n.v))); break;
    default: fn(self); break;
    }
}
}

namespace {
#define X(op, tag) struct Do##tag { Value& v; Value r; Do##tag(Value& v) : v(v) {} template<typename O> void operator()(O&& o) { r = v op std::forward<O>(o); } };
ASSIGN_OPS(X) ARITH_OPS(X)
#undef X
#define X(op, tag) struct Do##tag { Value& v; bool r; Do##tag(Value& v) : v(v), r(false) {} template<typename O> void operator()(O&& o) { r = v op std::forward<O>(o); } };
BOOL_OPS(X)
#undef X
}

VX_SUITE_D(mirrored, 3)
{
    int h = vx::choose(NHnd, "handle");
    Num base(3); Kid kid(3); Num* obj = h == OfKid ? &kid : &base;
    Value v = h == Own ? Value(Num(3)) : h == ConstRef ? Value((const Num&) base) : h == Const ? Value(base).toConst() : h == RVal ? Value(base).rvalue() : h == OfKid ? Value(kid) : Value(base);
    if (h == Own) obj = static_cast<Num*>(v.value());
    bool konst = h == ConstRef || h == Const || h == RVal;   // what "this" must be able to bind to
    Num twin(3);
    const int depth = vx::pick(2, 3);
    for (int d = 0; d < depth; ++d) {
        int op = vx::choose(k16::NTags, "operator"), kind = op <= k16::TGe ? vx::choose(NOpd, "operand") : 0;
        VX_NOTE("%s: operator #%d with %s", hndName[h], op, opdName[kind]);
        Num other(d * 2 + 5), otherTwin(d * 2 + 5); Num& rhs = kind == Itself ? twin : otherTwin;
        bool err = false, want = false;
        vx::step();
        switch (op) {
#define X(op, tag) case k16::T##tag: want = konst; \
            if (!want) twin op rhs; \
            err = vt::errs([&] { Do##tag act(v); withOperand(kind, other, v, act); auto& r = act.r; VX_CHECK(r.value() == obj && !r.isStored() && !r.isConst(), "result", "%s does not return the object", #op); }); break;
        ASSIGN_OPS(X)
#undef X
#define X(op, tag) case k16::T##tag: { Num expect = twin op rhs; \
            err = vt::errs([&] { Do##tag act(v); withOperand(kind, other, v, act); auto& r = act.r; VX_CHECK(r.isStored() && r.get<Num>().same(expect), "result", "%s gives %ld, expected %ld", #op, r.get<Num>().v, expect.v); }); break; }
        ARITH_OPS(X)
#undef X
#define X(op, tag) case k16::T##tag: { bool expect = twin op rhs; \
            err = vt::errs([&] { Do##tag act(v); withOperand(kind, other, v, act); auto& r = act.r; VX_CHECK(r == expect, "result", "%s gives %d", #op, r); }); break; }
        BOOL_OPS(X)
#undef X
        case k16::TNot: { Num e = ~twin; err = vt::errs([&] { VX_CHECK((~v).get<Num>().same(e), "result", "~"); }); break; }
        case k16::TLNot: { bool e = !twin; err = vt::errs([&] { VX_CHECK(!v == e, "result", "!"); }); break; }
        case k16::TPreInc: want = konst; if (!want) ++twin; err = vt::errs([&] { Value r = ++v; VX_CHECK(r.value() == obj, "result", "++x"); }); break;
        case k16::TPreDec: want = konst; if (!want) --twin; err = vt::errs([&] { Value r = --v; VX_CHECK(r.value() == obj, "result", "--x"); }); break;
        case k16::TPostInc: { want = konst; Num e = twin; if (!want) twin++; err = vt::errs([&] { Value r = v++; VX_CHECK(r.get<Num>().same(e), "result", "x++"); }); break; }
        case k16::TPostDec: { want = konst; Num e = twin; if (!want) twin--; err = vt::errs([&] { Value r = v--; VX_CHECK(r.get<Num>().same(e), "result", "x--"); }); break; }
        case k16::TIndex: { int i = vx::choose(3, "index"); want = konst; if (!want) twin[i] += 17; err = vt::errs([&] { Value r = v[i]; VX_CHECK(r.value() == &(*obj)[i], "result", "[]"); r.assign(obj->cell[i] + 17); }); break; }
        case k16::TCall: { long e = twin(d, 9); err = vt::errs([&] { VX_CHECK(v(long(d), 9l).template get<long>() == e, "result", "()"); }); break; }
        case k16::TCast: { long e = (long) twin; err = vt::errs([&] { VX_CHECK(reflect::cast<long>(v) == e, "result", "operator long()"); }); break; }
        default: { bool e = (bool) twin; err = vt::errs([&] { VX_CHECK((bool) v == e && v.call<bool>("operator bool()") == e, "result", "operator bool()"); }); break; }
        }
        VX_CHECK(err == want, err ? "refused" : "accepted", "operator #%d on %s with %s", op, hndName[h], opdName[kind]);
        VX_CHECK(obj->same(twin), "object", "object holds %ld, expected %ld", obj->v, twin.v);
        if (kind != Itself) VX_CHECK(other.same(otherTwin), "operand", "operand modified");
        if (h == Own) VX_CHECK(base.same(Num(3)), "other", "another object modified");
        if (h == OfKid) VX_CHECK(kid.w == 5, "other", "another member modified");
        vx::state(vx::mix(vx::hashBytes(&twin, sizeof twin), h));
    }
}

namespace {
const char* allOps[] = {
#define X(op, tag) "operator" #op,
    ASSIGN_OPS(X) ARITH_OPS(X) BOOL_OPS(X)
#undef X
    "operator~", "operator!", "operator++", "operator--", "operator[]", "operator()", "operator bool()" };
template<typename T, typename F> void one(const char* name, int tag, F use)
{
    const Type* t = type<T>();
    for (const char* op : allOps) VX_CHECK(t->hasFunction(op) == !std::string(op).compare(name), "membership", "class with only %s: hasFunction(%s)", name, op);
    T a(4), b(6), c(8); Value v(a), w(b);
    VX_CHECK(v.call<int>(name, w) == 406 + tag && v.call<int>(name, b) == 406 + tag && v.call<int>(name, T(c)) == 408 + tag, "result", "class with only %s", name);
    use(v, w, tag);
    for (const char* op : allOps) if (std::string(op) != name) VX_CHECK(vt::errs([&] { v.call<void>(op, w); }), "accepted", "class with only %s: %s works", name, op);
    VX_CHECK(vt::errs([&] { v.toConst().call<int>(name, w); }), "accepted", "%s on a const object", name);
    VX_CHECK(vt::errs([&] { v.call<int>(name); }) && vt::errs([&] { v.call<int>(name, w, w); }), "accepted", "%s with the wrong number of operands", name);
    VX_CHECK(vt::errs([&] { v.call<int>(name, Value(k16::None())); }) && vt::errs([&] { v.call<int>(name, std::string("x")); }), "accepted", "%s with an operand of another type", name);
    VX_CHECK(a.v == 4 && b.v == 6, "object", "%s modified its operands", name);
}
}
VX_SUITE_D(single, 1)
{
    int c = vx::choose(k16::TNot, "operator");
    vx::step(); vx::state(1600 + c);
    switch (c) {
#define U(op) [] (Value& v, Value& w, int tag) { Value r = v op w; VX_CHECK(r.get<int>() == 406 + tag, "result", "%s on values", #op); }
#define X(op, tag) case k16::T##tag: one<k16::One##tag>("operator" #op, c, U(op)); break;
    ASSIGN_OPS(X) ARITH_OPS(X)
#undef X
#define X(op, tag) case k16::T##tag: one<k16::One##tag>("operator" #op, c, [] (Value&, Value&, int) {}); break;
    BOOL_OPS(X)
#undef X
    }
}
/* Operands of other types, unary *, and classes without operators. */
VX_SUITE_D(mixed, 2)
{
    using k16::ArgVal;
    ArgVal a(1), t(1); Value v(a);
    k16::None none; Value n(none);
    for (int d = 0; d < vx::pick(3, 4); ++d) {
        int c = vx::choose(8, "op"); vx::step();
        switch (c) {
        case 0: VX_CHECK((v + 3).get<ArgVal>().v == t.v + 6, "result", "+ int"); { int k = 4; Value kv(k); VX_CHECK((v + kv).get<ArgVal>().v == t.v + 8 && (v + kv.toConst()).get<ArgVal>().v == t.v + 8, "result", "+ Value of int"); } break;
        case 1: { Value r = v -= 2; t.v -= 6; VX_CHECK(r.value() == &a, "result", "-="); break; }
        case 2: { Value r = *v; VX_CHECK(r.get<int*>() == &a.v, "result", "unary *"); VX_CHECK(vt::errs([&] { *v.toConst(); }), "accepted", "non-const unary * of a const object"); break; }
        case 3: { std::string s("x"); VX_CHECK((v == s) == (t.v == 1) && (v == std::string("xx")) == (t.v == 2), "result", "== string"); break; }
        case 4: VX_CHECK(v[std::string("key")].get<std::string>() == "key!", "result", "[string]"); break;
        case 5: ++t.v; VX_CHECK(v().get<int>() == t.v, "result", "()"); break;
        case 6: VX_CHECK((bool) v == (t.v > 1) && !v == !(t.v > 1), "result", "! without operator!"); break;
        default:
            VX_CHECK(vt::errs([&] { n + n; }) && vt::errs([&] { n == n; }) && vt::errs([&] { ++n; }) && vt::errs([&] { (void) (bool) n; }) && vt::errs([&] { (void) !n; }) && vt::errs([&] { n[0]; }) && vt::errs([&] { n(); }), "accepted", "operators of a class without any");
            for (const char* op : allOps) VX_CHECK(!n.type()->hasFunction(op), "membership", "%s on a class without any", op);
            VX_CHECK(!v.type()->hasFunction("operator-") && !v.type()->hasFunction("operator<") && vt::errs([&] { v < v; }), "membership", "operators the class lacks");
        }
        VX_CHECK(a.v == t.v, "object", "object holds %d, expected %d", a.v, t.v);
        vx::state(vx::mix(t.v, c));
    }
}

/* Converters, for every way of spelling the type they convert to. */
namespace k16 {
struct Target { int v; Target() : v(0) {} explicit Target(int v) : v(v) {} };
template<typename T> struct Box { T t; };
struct Many { int n; Many() : n(5) {}
    operator long() const { return n + 1; } operator unsigned long() const { return n + 2; } operator unsigned() const { return n + 3; } operator short() const { return n + 4; }
    operator long long() const { return n + 5; } operator char() const { return 'f'; } operator std::string() const { return std::string(n, 's'); }
    operator Target() const { return Target(n + 6); } operator int*() { return &n; } operator double() const { return n + .5; } };
struct ManyKid : Many {};
struct Lacks {};
}
typedef k16::Target TargetAlias;
reflectType(k16::Target) { reflectPlumbing(); reflectField(v); }
reflectType(k16::Lacks) { reflectPlumbing(); }
reflectType(k16::Many) { reflectPlumbing(); reflectOpCast(long); reflectOpCast(size_t); reflectOpCast(unsigned); reflectOpCast(short); reflectOpCast(long long); reflectOpCast(char);
    reflectOpCast(std::string); reflectOpCast(TargetAlias); reflectOpCast(int*); reflectOpCast(double); }
reflectType(k16::ManyKid) { reflectParent(k16::Many); reflectPlumbing(); }
namespace {
template<typename T, typename Eq> void conv(const Value& v, Eq eq, const char* name)
{
    VX_CHECK(v.type()->hasConverter<T>() && !type<k16::Lacks>()->hasConverter<T>(), "converter", "converter to %s not found", name);
    VX_CHECK(isCastable<T>(v), "converter", "not castable to %s", name);
    bool ok = false; bool e = vt::errs([&] { ok = eq(reflect::cast<T>(v)); });
    VX_CHECK(!e && ok, "result", "conversion to %s %s", name, e ? "fails" : "gives something else");
    ok = false; Function f("f", std::function<void(T)>([&] (T t) { ok = eq(t); }));
    VX_CHECK(!vt::errs([&] { f.call<void>(v); }) && ok, "result", "conversion of an argument to %s", name);
}
}
VX_SUITE(converters)
{
    k16::Many m; k16::ManyKid k; bool kid = vx::flip("inherited"); k16::Many& o = kid ? k : m;
    Value v = kid ? Value(k) : Value(m);
    int which = vx::choose(10, "target"); vx::step(); vx::state(vx::pathHash());
    switch (which) {
    case 0: conv<long>(v, [] (long l) { return l == 6; }, "long"); break;
    case 1: conv<unsigned long>(v, [] (unsigned long l) { return l == 7; }, "unsigned long"); break;
    case 2: conv<unsigned>(v, [] (unsigned l) { return l == 8; }, "unsigned"); break;
    case 3: conv<short>(v, [] (short l) { return l == 9; }, "short"); break;
    case 4: conv<long long>(v, [] (long long l) { return l == 10; }, "long long"); break;
    case 5: conv<char>(v, [] (char l) { return l == 'f'; }, "char"); break;
    case 6: conv<std::string>(v, [] (const std::string& s) { return s == "sssss"; }, "std::string"); break;
    case 7: conv<k16::Target>(v, [] (const k16::Target& t) { return t.v == 11; }, "Target"); break;
    case 8: conv<int*>(v, [&] (int* p) { return p == &o.n; }, "int*"); break;
    default: conv<double>(v, [] (double d) { return d == 5.5; }, "double"); break;
    }
}
