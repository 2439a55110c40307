/* C08: a reflected field is the member it names.
 * Every sequence of reads and writes, through reflection and directly, on
 * objects with own, inherited, nested and const fields; after each step every
 * field read through every handle must equal the member itself. */
#include "vt.h"
#include "types/std/vector.h"
#include "types/std/smart_ptr.h"
#include <sys/mman.h>
using namespace reflect;

namespace k8 {
struct In { char pad; int x; std::string s; In() : pad('p'), x(1), s("in") {}
    bool operator==(const In& o) const { return pad == o.pad && x == o.x && s == o.s; } };
struct Base
{
    bool b; short sh; In in; std::string str; int over;
    Base() : b(false), sh(2), str("base"), over(50) {}
};
struct Obj : public Base
{
    char c; double d; long over; std::vector<int> v; In in2; int* p; std::shared_ptr<In> sp; const int k; unsigned char last;
    Obj() : c('c'), d(1.5), over(60), v(2, 3), p(nullptr), k(77), last(9) {}
};
struct Sub : public Obj { float f; Sub() : f(0.5f) {} };
// bases that are not at the start of the object
struct Plain { int x; std::string s; Plain() : x(11), s("plain") {} int get() const { return x; } };
struct Poly : public Plain { virtual ~Poly() {} long y[8]; Poly() { for (long& l : y) l = 0x0101010101010101; } };
struct Other { long o[8]; Other() { for (long& l : o) l = 0x0202020202020202; } };
struct Second : public Other, public Plain { long y[8]; Second() { for (long& l : y) l = 0x0303030303030303; } };
// fields far into big objects
template<size_t N> struct Far { int first; char pad[N - sizeof(int)]; int at; char gap[60]; int last; };
typedef Far<1ul << 8> Far8; typedef Far<1ul << 16> Far16; typedef Far<1ul << 24> Far24; typedef Far<1ul << 31> Far31; typedef Far<1ul << 32> Far32;
} // namespace k8
using namespace k8;

reflectType(k8::In) { reflectPlumbing(); reflectField(pad); reflectField(x); reflectField(s); }
reflectType(k8::Base) { reflectPlumbing(); reflectField(b); reflectField(sh); reflectField(in); reflectField(str); reflectField(over); }
reflectType(k8::Obj)
{
    reflectParent(k8::Base); reflectPlumbing(); reflectField(c); reflectField(d); reflectField(over); reflectField(v); reflectField(in2);
    reflectField(p); reflectField(sp); reflectField(k); reflectField(last);
}
reflectType(k8::Sub) { reflectParent(k8::Obj); reflectPlumbing(); reflectField(f); }
reflectType(k8::Plain) { reflectPlumbing(); reflectField(x); reflectField(s); reflectFn(get); }
reflectType(k8::Poly) { reflectParent(k8::Plain); reflectPlumbing(); }
reflectType(k8::Second) { reflectParent(k8::Plain); reflectPlumbing(); }

#define FAR(T) reflectType(T) { reflectField(first); reflectField(at); reflectField(last); }
FAR(k8::Far8) FAR(k8::Far16) FAR(k8::Far24) FAR(k8::Far31) FAR(k8::Far32)

namespace {
int target = 5;

/* A field: how to reach the member directly, and how to read and write it both ways. */
struct F { virtual ~F() {} virtual const char* path() = 0; virtual bool cst() = 0;
    virtual void check(Value& h, Sub& o, bool hc, const char* op) = 0; virtual void write(Value& h, int how, int n) = 0;
    virtual void direct(Sub& o, int n) = 0; };

Value reach(Value h, const char* path)
{
    std::string p(path);
    for (;;) {
        size_t d = p.find('.');
        h = h.field(p.substr(0, d));
        if (d == std::string::npos) return h;
        p = p.substr(d + 1);
    }
}
template<typename T> T val(int n);
template<> bool val<bool>(int n) { return n & 1; } template<> short val<short>(int n) { return n; } template<> int val<int>(int n) { return n; }
template<> char val<char>(int n) { return 'a' + n; } template<> double val<double>(int n) { return n * 1.25; } template<> long val<long>(int n) { return 1l << (n + 33); }
template<> std::string val<std::string>(int n) { return std::string(n * 12, 'x'); } template<> std::vector<int> val<std::vector<int>>(int n) { return std::vector<int>(n, n); }
template<> float val<float>(int n) { return n * .5f; } template<> unsigned char val<unsigned char>(int n) { return 200 + n; }
template<> In val<In>(int n) { In i; i.x = n; i.s = std::string(n, 'q'); return i; } template<> int* val<int*>(int n) { return n & 1 ? &target : nullptr; }
template<> std::shared_ptr<In> val<std::shared_ptr<In>>(int n) { return n & 1 ? std::make_shared<In>() : nullptr; }

template<typename T> void assignTo(T& t, const T& v) { t = v; }
template<typename T> void assignTo(const T&, const T&) {}

template<typename M, typename Get> struct FT : F
{
    typedef typename std::remove_const<M>::type T; const char* p; Get g;
    FT(const char* p, Get g) : p(p), g(g) {}
    const char* path() { return p; }
    bool cst() { return std::is_const<M>::value; }
    void check(Value& h, Sub& o, bool hc, const char* op)
    {
        M& m = g(o); bool c = hc || cst();
        Value f = reach(h, p);
        VX_CHECK(f.value() == (const void*) &m, "identity", "%s: field %s is not the member (off by %td)", op, p, (const char*) f.value() - (const char*) &m);
        VX_CHECK(f.type() == type<T>() && f.isConst() == c && f.refType() == RefType::LValue && !f.isStored(), "kind",
                "%s: field %s has type %s, const=%d", op, p, f.typeId().c_str(), f.isConst());
        VX_CHECK(f.get<T>() == m, "content", "%s: field %s reads another value", op, p);
        VX_CHECK(&reflect::cast<const T&>(f) == &m, "identity", "%s: const reference to field %s", op, p);
        if (!c) VX_CHECK(&reflect::cast<T&>(f) == &m, "identity", "%s: reference to field %s", op, p);
        else VX_CHECK(vt::errs([&] { reflect::cast<T&>(f); }), "const", "%s: const field %s given as a modifiable reference", op, p);
        if (std::string(p).find('.') == std::string::npos) {
            VX_CHECK(h.field<T>(p) == m, "content", "%s: field<T>(%s)", op, p);
            VX_CHECK(&h.field<const T&>(p) == &m, "identity", "%s: field<const T&>(%s)", op, p);
            bool e = vt::errs([&] { VX_CHECK((const void*) &h.field<T&>(p) == (const void*) &m, "identity", "%s: field<T&>(%s)", op, p); });
            VX_CHECK(e == c, "const", "%s: field<T&>(%s) %s", op, p, e ? "refused" : "allowed");
        }
    }
    void write(Value& h, int how, int n)
    {
        Value f = reach(h, p);
        if (how == 0) f.assign(val<T>(n));
        else if (how == 1) { T v = val<T>(n); f.assign(v); }
        else reflect::cast<T&>(f) = val<T>(n);
    }
    void direct(Sub& o, int n) { assignTo(g(o), val<T>(n)); }
};
template<typename M, typename Get> F* mk(const char* p, Get g) { return new FT<M, Get>(p, g); }
#define FIELD(PATH, TYPE, EXPR) mk<TYPE>(PATH, [] (Sub& o) -> TYPE& { return EXPR; })
std::vector<F*>& fields()
{
    static std::vector<F*>* fs = new std::vector<F*>{
        FIELD("b", bool, o.b), FIELD("sh", short, o.sh), FIELD("in", In, o.in), FIELD("str", std::string, o.str),
        FIELD("c", char, o.c), FIELD("d", double, o.d), FIELD("over", long, o.Obj::over), FIELD("v", std::vector<int>, o.v),
        FIELD("in2", In, o.in2), FIELD("p", int*, o.p), FIELD("sp", std::shared_ptr<In>, o.sp), FIELD("k", const int, o.k),
        FIELD("last", unsigned char, o.last), FIELD("f", float, o.f), FIELD("in.x", int, o.in.x), FIELD("in.s", std::string, o.in.s),
        FIELD("in2.x", int, o.in2.x), FIELD("in2.s", std::string, o.in2.s) };
    return *fs;
}

} // namespace

VX_SUITE_D(histories, 3)
{
    Sub o; const Sub& co = o; (void) co;
    std::unique_ptr<Value> stored;
    int hk = vx::choose(5, "handle");
    static const char* hn[] = { "T&", "const T&", "rvalue()", "toConst()", "stored" };
    Value h; Sub* obj = &o;
    switch (hk) { case 0: h = Value(o); break; case 1: h = Value(co); break; case 2: h = Value(o).rvalue(); break; case 3: h = Value(o).toConst(); break;
        default: h = Value(Sub(o)); obj = const_cast<Sub*>(&h.get<Sub>()); break; }
    bool hc = hk == 1 || hk == 3;
    int depth = vx::pick(2, 3), n = vx::choose(depth + 1, "length");
    std::string op = "start";
    Sub shadow;     // what every member should hold: driven directly, in parallel
    for (int i = 0; i < n; ++i) {
        F* f = fields()[vx::choose(fields().size(), "field")];
        int how = vx::choose(4, "how");
        int v = 3 + i;
        op = vx::fmt("%s: write %s %s", hn[hk], f->path(), how == 3 ? "directly" : "by reflection");
        VX_NOTE("%s", op.c_str());
        vx::step();
        if (how == 3) { if (f->cst()) vx::assume(false); f->direct(*obj, v); if (std::string(f->path()) != "sp") f->direct(shadow, v); else shadow.sp = obj->sp; }
        else {
            bool want = hc || f->cst();
            bool e = vt::errs([&] { f->write(h, how, v); });
            VX_CHECK(e == want, want ? "const-written" : "refused", "%s %s", op.c_str(), e ? "refused" : "accepted");
            if (!want) { if (std::string(f->path()) != "sp") f->direct(shadow, v); else shadow.sp = obj->sp; }
        }
    }
    for (F* f : fields()) f->check(h, *obj, hc, op.c_str());
    // nothing but the written members changed
    VX_CHECK(obj->b == shadow.b && obj->sh == shadow.sh && obj->in == shadow.in && obj->str == shadow.str && obj->Base::over == 50 && obj->c == shadow.c
            && obj->d == shadow.d && obj->Obj::over == shadow.Obj::over && obj->v == shadow.v && obj->in2 == shadow.in2 && obj->p == shadow.p
            && obj->sp == shadow.sp && obj->k == 77 && obj->last == shadow.last && obj->f == shadow.f, "neighbour", "%s changed another member", op.c_str());
    // a base handle sees the base's own field of an overridden name
    Value hb(static_cast<Base&>(*obj));
    VX_CHECK(hb.field("over").value() == &obj->Base::over && hb.field("in").value() == &obj->in, "identity", "field of the base handle");
    static const char* missing[] = { "", "x", "B", "b ", "over.", "in.x", "k8::b" };
    for (const char* m : missing) VX_CHECK(vt::errs([&] { h.field(m); }), "missing", "field <%s> exists", m);
    vx::state(vx::pathHash());
}

// bases that are not at the start of their derived object
VX_SUITE(offsets)
{
    Poly po; Second se;
    int which = vx::choose(2, "layout"), how = vx::choose(3, "access");
    Value h = which ? Value(se) : Value(po); Plain& pl = which ? static_cast<Plain&>(se) : static_cast<Plain&>(po);
    vx::step(); vx::state(vx::pathHash());
    const void* got = nullptr; bool e = vt::errs([&] {
        switch (how) { case 0: got = h.field("x").value(); break; case 1: got = &reflect::cast<const Plain&>(h).x; break;
            default: got = h.call<int>("get") == 11 ? &pl.x : nullptr; } });
    if (!e && got != &pl.x)
        vx::fail(which ? "base-not-first:second-base" : "base-not-first:polymorphic-child",
                "%s of a base that is not at the start of the object reads the wrong memory", how == 0 ? "field" : how == 1 ? "cast" : "call");
    vx::outcome(e ? "refused" : "correct");
}

// fields far into big objects: the offset is the member's, however big
namespace {
template<typename T> void far(int wr)
{
    size_t size = sizeof(T);
    void* mem = mmap(nullptr, size, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    if (mem == MAP_FAILED) { vx::outcome("no memory"); return; }
    T& o = *static_cast<T*>(mem);
    o.first = 1; o.at = 2; o.last = 3;
    struct Unmap { void* m; size_t n; ~Unmap() { munmap(m, n); } } unmap = { mem, size };
    Value h(o);
    const char* names[] = { "first", "at", "last" }; int* members[] = { &o.first, &o.at, &o.last };
    for (int i = 0; i < 3; ++i) {
        Value f = h.field(names[i]);
        VX_CHECK(f.value() == members[i], "identity", "field %s of an object of %zu bytes is off by %td", names[i], size, (char*) f.value() - (char*) members[i]);
        VX_CHECK(f.get<int>() == i + 1 && type<T>()->field(names[i]).offset() == (size_t) ((char*) members[i] - (char*) mem), "content", "field %s", names[i]);
    }
    h.field(names[wr]).assign(7);
    for (int i = 0; i < 3; ++i) VX_CHECK(*members[i] == (i == wr ? 7 : i + 1), "neighbour", "writing %s changed %s", names[wr], names[i]);
    vx::outcome("far");
}
}
VX_SUITE(big)
{
    int size = vx::choose(5, "size"), wr = vx::choose(3, "written");
    vx::step(); vx::state(vx::pathHash());
    switch (size) { case 0: far<Far8>(wr); break; case 1: far<Far16>(wr); break; case 2: far<Far24>(wr); break; case 3: far<Far31>(wr); break; default: far<Far32>(wr); break; }
}
// many fields: each is still its own member
namespace { struct Many { int f[600]; }; }
reflectType(Many) { for (int i = 0; i < 600; ++i) type_->addField<int>("f" + std::to_string(i), i * sizeof(int)); }
VX_SUITE(many)
{
    int wr = vx::choose(600, "field");
    Many m; for (int i = 0; i < 600; ++i) m.f[i] = i;
    Value h(m); h.field("f" + std::to_string(wr)).assign(-1);
    vx::step(); vx::state(vx::pathHash());
    for (int i = 0; i < 600; ++i) VX_CHECK(m.f[i] == (i == wr ? -1 : i) && h.field<int>("f" + std::to_string(i)) == m.f[i], "neighbour", "field %d after writing %d", i, wr);
    VX_CHECK(h.type()->fields().size() == 600, "list", "fields()");
}
