/* C19: function objects own what they were made from.
 * Every sequence of making, moving, assigning, calling and dropping functions
 * whose callables carry tracked state, and of filling overload sets with them. */
#include "vt.h"
#include <memory>
using namespace reflect;
using vt::life;
using vt::Tracked;

namespace {
/* Callables of the different kinds, each with state of its own. */
struct ConstFn { Tracked t; int operator()(int a) const { return t.get() * 100 + a; } };
struct MutFn { Tracked t; int n; MutFn(int v) : t(v), n(0) {} int operator()(int a) { return t.get() * 100 + a + 1000000 * n++; } };
int plainHits;
void plainFn(int& a) { plainHits++; a += 900; }
struct Slot { std::unique_ptr<Function> f; int kind, v, calls; Slot() : kind(-1), v(0), calls(0) {} };
}

VX_SUITE_D(lifetime, 3)
{
    life().reset();
    {
    enum { N = 3 }; enum Op { Const, Mut, Lambda, Plain, MoveNew, MoveAssign, SelfAssign, Call, WrongCall, Drop, Replace, NOps };
    static const char* ops[] = { "make from const functor", "make from mutable functor", "make from lambda", "make from function", "move construct", "move assign", "self assign", "call", "wrong call", "drop", "swap" };
    Slot s[N]; int serial = 0;
    auto check = [&] {
        size_t want = 0;
        for (int i = 0; i < N; ++i) {
            if (!s[i].f || s[i].kind < 0) continue;
            if (s[i].kind != Plain) want++;
            const Function& f = *s[i].f;
            VX_CHECK(f.name() == "fn" + std::to_string(s[i].v), "name", "slot %d is called %s", i, f.name().c_str());
            static const char* sigs[] = { "int(int)", "int(int)", "std::string(int, std::string const&)", "void(int&)" };
            VX_CHECK(signature(f) == sigs[s[i].kind], "signature", "slot %d: %s", i, signature(f).c_str());
            VX_CHECK(f.arguments() == (s[i].kind == Lambda ? 2u : 1u) && f.returnType().type() == (s[i].kind == Lambda ? type<std::string>() : s[i].kind == Plain ? type<void>() : type<int>())
                    && f.argument(0).type() == type<int>() && f.argument(0).refType() == (s[i].kind == Plain ? RefType::LValue : RefType::Copy), "signature", "slot %d", i);
        }
        VX_CHECK(life().live.size() == want, "leak", "%zu callables alive, expected %zu", life().live.size(), want);
        vt::checkLife();
    };
    const int depth = vx::pick(4, 5);
    for (int d = 0; d < depth; ++d) {
        int op = vx::choose(NOps, "op"), i = vx::choose(N, "slot"), j = 0;
        if (op == MoveNew || op == MoveAssign || op == Replace) { j = vx::choose(N, "from"); if (i == j) vx::assume(false); }
        bool full = s[i].f && s[i].kind >= 0;
        if (op >= SelfAssign && op <= WrongCall && !full) vx::assume(false);    // moved-from functions may only be assigned or dropped
        if ((op == MoveNew || op == MoveAssign || op == Replace) && !(s[j].f && s[j].kind >= 0)) vx::assume(false);
        if ((op == MoveAssign || op == Drop || op == Replace) && !s[i].f) vx::assume(false);
        if (op == Replace && !full) vx::assume(false);
        VX_NOTE("%s: #%d #%d", ops[op], i, j);
        vx::step();
        switch (op) {
        case Const: { int v = ++serial; ConstFn fn{Tracked(v)}; s[i].f.reset(new Function("fn" + std::to_string(v), std::move(fn))); s[i].kind = op; s[i].v = v; s[i].calls = 0; break; }
        case Mut: { int v = ++serial; s[i].f.reset(new Function("fn" + std::to_string(v), MutFn(v))); s[i].kind = op; s[i].v = v; s[i].calls = 0; break; }
        case Lambda: { int v = ++serial; Tracked t(v); s[i].f.reset(new Function("fn" + std::to_string(v), [t] (int a, const std::string& s) -> std::string { return std::to_string(t.get() * 100 + a) + s; })); s[i].kind = op; s[i].v = v; s[i].calls = 0; break; }
        case Plain: { int v = ++serial; s[i].f.reset(new Function("fn" + std::to_string(v), &plainFn)); s[i].kind = op; s[i].v = v; s[i].calls = 0; break; }
        case MoveNew: s[i].f.reset(new Function(std::move(*s[j].f))); s[i].kind = s[j].kind; s[i].v = s[j].v; s[i].calls = s[j].calls; s[j].kind = -1; break;
        case MoveAssign: *s[i].f = std::move(*s[j].f); s[i].kind = s[j].kind; s[i].v = s[j].v; s[i].calls = s[j].calls; s[j].kind = -1; break;
        case SelfAssign: { Function& same = *s[i].f; *s[i].f = std::move(same); break; }
        case Call: {
            s[i].calls++;
            if (s[i].kind == Plain) { int x = 4, h = plainHits; s[i].f->call<void>(x); VX_CHECK(x == 904 && plainHits == h + 1, "call", "slot %d", i); break; }
            if (s[i].kind == Lambda) { std::string got = s[i].f->call<std::string>(4, std::string("z")); VX_CHECK(got == std::to_string(s[i].v * 100 + 4) + "z", "call", "slot %d gives %s", i, got.c_str()); break; }
            int want = s[i].v * 100 + 4 + (s[i].kind == Mut ? 1000000 * (s[i].calls - 1) : 0);
            int got = s[i].f->call<int>(4); VX_CHECK(got == want, "call", "slot %d gives %d, expected %d", i, got, want); break; }
        case WrongCall: VX_CHECK(vt::errs([&] { s[i].f->call<int>(); }) && vt::errs([&] { s[i].f->call<int>(std::string("x")); }), "accepted", "wrong call"); break;
        case Drop: s[i].f.reset(); s[i].kind = -1; break;
        default: std::swap(*s[i].f, *s[j].f); std::swap(s[i].kind, s[j].kind); std::swap(s[i].v, s[j].v); std::swap(s[i].calls, s[j].calls); break;
        }
        check();
        vx::state(vx::pathHash());
    }
    }
    VX_CHECK(life().live.empty(), "leak", "%zu callables never destroyed", life().live.size());
    vt::checkLife();
}

/* Overload sets and types take over the functions given to them, however many;
 * refused ones are released. */
namespace { template<int> struct Sig {}; }
VX_SUITE_D(sets, 2)
{
    life().reset();
    {
    int n = vx::choose(6, "overloads"), refused = vx::choose(3, "refused"), where = vx::choose(3, "in");
    Overloads o; Type t("c19::T"); Scope sc;
    vx::step(n);
    auto add = [&] (Function f) { if (where == 0) o.add(std::move(f)); else if (where == 1) t.addFunction("f", std::move(f)); else sc.addFunction("f", std::move(f)); };
    auto make = [&] (int k, int v) -> Function { Tracked tr(v);
        switch (k) { case 0: return Function("f", [tr] () { return tr.get(); }); case 1: return Function("f", [tr] (int) { return tr.get(); }); case 2: return Function("f", [tr] (std::string) { return tr.get(); });
        case 3: return Function("f", [tr] (int, int) { return tr.get(); }); case 4: return Function("f", [tr] (int, std::string) { return tr.get(); }); default: return Function("f", [tr] (std::string, int) { return tr.get(); }); } };
    for (int k = 0; k < n; ++k) add(make(k, 50 + k));
    for (int r = 0; r < refused && n; ++r) VX_CHECK(vt::errs([&] { add(make(r % n, 90)); }), "accepted", "the same signature twice");
    VX_CHECK(life().live.size() == (size_t) n, "leak", "%zu callables alive, expected %d", life().live.size(), n);
    std::string x("x");
    if (n) {
        const Overloads& c = where == 0 ? o : where == 1 ? t.function("f") : const_cast<const Scope&>(sc).function("f");
        VX_CHECK(c.size() == (size_t) n, "size", "%zu overloads, expected %d", c.size(), n);
        if (n > 0) VX_CHECK(c.call<int>() == 50, "call", "overload 0"); if (n > 1) VX_CHECK(c.call<int>(1) == 51, "call", "overload 1"); if (n > 2) VX_CHECK(c.call<int>(x) == 52, "call", "overload 2");
        if (n > 3) VX_CHECK(c.call<int>(1, 1) == 53, "call", "overload 3"); if (n > 4) VX_CHECK(c.call<int>(1, x) == 54, "call", "overload 4"); if (n > 5) VX_CHECK(c.call<int>(x, 1) == 55, "call", "overload 5");
    }
    vx::state(vx::pathHash());
    }
    VX_CHECK(life().live.empty(), "leak", "%zu callables never destroyed", life().live.size());
    vt::checkLife();
}

/* Callables of every size and alignment keep their state where they can use it. */
namespace {
template<size_t N, size_t A> struct alignas(A) Bulk
{
    unsigned char bytes[N]; const void* where; Tracked t;
    explicit Bulk(int v) : where(this), t(v) { for (size_t i = 0; i < N; ++i) bytes[i] = (unsigned char)(v * 31 + i * 7); }
    Bulk(const Bulk& o) : where(this), t(o.t) { std::copy(o.bytes, o.bytes + N, bytes); }
    Bulk(Bulk&& o) : where(this), t(std::move(o.t)) { std::copy(o.bytes, o.bytes + N, bytes); }
    // 0 when the state is whole, in place and aligned
    int operator() (int v) const
    {
        if (where != this) return 1; if (reinterpret_cast<uintptr_t>(this) % A) return 2; if (t.get() != v) return 3;
        for (size_t i = 0; i < N; ++i) if (bytes[i] != (unsigned char)(v * 31 + i * 7)) return 4;
        return 0;
    }
};
template<size_t N, size_t A> Function bulk(int v) { return Function("bulk", Bulk<N, A>(v)); }
template<size_t N> Function bulkOf(int a, int v) { switch (a) { case 0: return bulk<N, 8>(v); case 1: return bulk<N, 16>(v); default: return Function("bulk", [=] (int w) { return v == w ? 0 : 5; }); } }
Function makeBulk(int n, int a, int v)
{
    switch (n) { case 0: return bulkOf<1>(a, v); case 1: return bulkOf<8>(a, v); case 2: return bulkOf<15>(a, v); case 3: return bulkOf<24>(a, v); case 4: return bulkOf<33>(a, v); case 5: return bulkOf<48>(a, v);
    case 6: return bulkOf<64>(a, v); case 7: return bulkOf<100>(a, v); case 8: return bulkOf<129>(a, v); case 9: return bulkOf<256>(a, v); case 10: return bulkOf<1000>(a, v); default: return bulkOf<5000>(a, v); }
}
}
VX_SUITE_D(state, 3)
{
    life().reset();
    {
        enum { N = 3 }; std::unique_ptr<Function> f[N]; int v[N] = { 1, 2, 3 };
        int size = vx::choose(12, "size"), align = vx::choose(3, "alignment"); f[0].reset(new Function(makeBulk(size, align, 1)));
        auto check = [&] { for (int i = 0; i < N; ++i) if (f[i]) { int r = f[i]->call<int>(v[i]); VX_CHECK(r == 0, "state", "function %d: its state %s", i, r == 1 ? "was moved behind its back" : r == 2 ? "is misaligned" : r == 3 ? "is another's" : "is damaged"); } };
        check();
        for (int d = 0, n = vx::pick(2, 3); d < n; ++d) {
            int op = vx::choose(4, "op"), i = vx::choose(N, "slot"), j = vx::choose(N, "other"); vx::step();
            switch (op) {
            case 0: v[i] = 10 * (d + 1) + j; { Function g = makeBulk((size + 1 + j * 3) % 12, (align + j) % 3, v[i]); if (f[i]) *f[i] = std::move(g); else f[i].reset(new Function(std::move(g))); } break;
            case 1: if (!f[j] || i == j) vx::assume(false); f[i].reset(new Function(std::move(*f[j]))); v[i] = v[j]; f[j].reset(); break;
            case 2: if (!f[i] || !f[j] || i == j) vx::assume(false); std::swap(*f[i], *f[j]); std::swap(v[i], v[j]); break;
            default: if (!f[i] || j) vx::assume(false); f[i].reset(); break;
            }
            check(); vx::state(vx::pathHash());
        }
    }
    VX_CHECK(life().live.empty(), "leak", "%zu callables never destroyed", life().live.size());
    vt::checkLife();
}
