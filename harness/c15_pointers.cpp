/* C15: raw and smart pointers through reflection.
 * Every operation sequence up to a depth on pointer variables of each kind,
 * against a model of who points at what and who owns it. */
#include "vt.h"
#include "types/std/smart_ptr.h"
using namespace reflect;
using vt::life;
using vt::Tracked;

reflectTypeDecl(vt::Tracked)
reflectTypeImpl(vt::Tracked) { reflectPlumbing(); reflectField(v); reflectFn(get); reflectFn(set); }

namespace k15 {
struct P { int a; P(int a = 1) : a(a) {} int pa() const { return a; } };
struct C : P { int b; C(int a = 2, int b = 3) : P(a), b(b) {} };
struct G : C { int c; G() : C(4, 5), c(6) {} };
int takeP(P* p) { return p ? p->a : -1; }
int takeSP(std::shared_ptr<P> p) { return p ? p->a : -1; }
}
reflectType(k15::P) { reflectPlumbing(); reflectField(a); reflectFn(pa); }
reflectType(k15::C) { reflectParent(k15::P); reflectPlumbing(); reflectField(b); }
reflectType(k15::G) { reflectParent(k15::C); reflectPlumbing(); reflectField(c); }

namespace {

int next;   // content of the next object
Tracked* fresh(int* id) { *id = ++next; return new Tracked(next); }

/* Ownership by two variables and one value which owns its pointer. */
template<typename Ptr, bool Shared> void owning(int depth, const char* name)
{
    life().reset(); next = 0;
    {
    enum { N = 3 };
    Ptr p[2]; Value stored = type<Ptr>()->construct(); int at[N] = { 0, 0, 0 };     // object id each points at; 0: none
    VX_CHECK(type<Ptr>()->isPointer() && type<Ptr>()->pointee() == type<Tracked>() && type<Ptr>()->is("smartPtr"), "type", "%s: pointer traits", name);
    VX_NOTE("%s", name);
    auto ptr = [&] (int i) -> const Ptr& { return i < 2 ? p[i] : stored.get<Ptr>(); };
    for (int d = 0; d < depth; ++d) {
        enum { New, NewConst, Reset, ResetTo, Copy, Move, Deref, Write, Bool, Equal, Get, Handle, Release, NOps };
        static const char* ops[] = { "construct(T*)", "new through const handle", "reset()", "reset(T*)", "copy from", "move from", "*", "*.v =", "bool", "==", "get", "copy of handle", "release" };
        int op = vx::choose(Shared ? NOps - 1 : NOps, "op"), i = vx::choose(N, "pointer"), j = 0;
        if (op == Copy || op == Move || op == Equal) j = vx::choose(N, "other");
        if ((op == Deref || op == Write) && !at[i]) vx::assume(false);
        Value v = i < 2 ? Value(p[i]) : stored, w = j < 2 ? Value(p[j]) : stored;
        VX_NOTE("  #%d %s #%d", i, ops[op], j);
        vx::step();
        bool err = false, want = false; int id;
        switch (op) {
        case New: { Tracked* raw = fresh(&id); err = vt::errs([&] { v.assign(type<Ptr>()->construct(raw).rvalue()); }); at[i] = id; break; }
        case NewConst: { Tracked* raw = fresh(&id); want = true; err = vt::errs([&] { v.toConst().call<void>("reset", raw); }); if (err) delete raw; break; }
        case Reset: err = vt::errs([&] { v.call<void>("reset"); }); at[i] = 0; break;
        case ResetTo: { Tracked* raw = fresh(&id); err = vt::errs([&] { v.call<void>("reset", raw); }); at[i] = id; break; }
        case Copy: want = !Shared; err = vt::errs([&] { v.assign(w); }); if (Shared) at[i] = at[j]; break;
        case Move: if (i == j) vx::assume(false); err = vt::errs([&] { v.assign(w.rvalue()); }); at[i] = at[j]; at[j] = 0; break;
        case Deref: { Value o; err = vt::errs([&] { o = *v; }); if (!err) { VX_CHECK(o.value() == ptr(i).get() && !o.isConst() && !o.isStored() && o.type() == type<Tracked>(), "deref", "* does not give the pointee"); VX_CHECK(o.call<int>("get") == at[i], "deref", "pointee holds %d", o.call<int>("get")); } break; }
        case Write: err = vt::errs([&] { (*v).call<void>("set", at[i] + 1000); (*v).field("v").assign(at[i]); }); break;
        case Bool: err = vt::errs([&] { VX_CHECK(v.call<bool>("operator bool()") == !!at[i] && (bool) v == !!at[i] && !v == !at[i], "bool", "bool of a %s pointer", at[i] ? "full" : "null"); }); break;
        case Equal: err = vt::errs([&] { VX_CHECK((v == w) == (at[i] == at[j]), "equal", "== of pointers to %d and %d", at[i], at[j]); }); break;
        case Get: err = vt::errs([&] { VX_CHECK(v.call<Tracked*>("get") == ptr(i).get(), "get", "get"); }); break;
        case Handle: { Value h = v; { Value k(h); h = k; } err = vt::errs([&] { VX_CHECK(h.call<Tracked*>("get") == ptr(i).get(), "get", "get"); }); break; }
        default: { Tracked* raw = nullptr; err = vt::errs([&] { raw = v.call<Tracked*>("release"); }); VX_CHECK((raw ? raw->v : 0) == at[i], "release", "release"); delete raw; at[i] = 0; break; }
        }
        VX_CHECK(err == want, err ? "refused" : "accepted", "%s: %s %s", name, ops[op], err ? "fails" : "succeeds");
        std::set<int> alive;
        for (int k = 0; k < N; ++k) {
            VX_CHECK((ptr(k) ? ptr(k)->v : 0) == at[k], "target", "pointer #%d points at %d, expected %d", k, ptr(k) ? ptr(k)->v : 0, at[k]);
            if (at[k]) alive.insert(at[k]);
        }
        VX_CHECK(life().live.size() == alive.size(), "leak", "%zu objects alive, expected %zu", life().live.size(), alive.size());
        vt::checkLife();
        vx::state(vx::pathHash());
    }
    }
    VX_CHECK(life().live.empty(), "leak", "%zu objects never destroyed", life().live.size());
    vt::checkLife();
}

} // namespace

VX_SUITE_D(shared, 3) { owning<std::shared_ptr<Tracked>, true>(vx::pick(3, 4), "std::shared_ptr"); }
VX_SUITE_D(unique, 3) { owning<std::unique_ptr<Tracked>, false>(vx::pick(3, 4), "std::unique_ptr"); }

/* Raw pointers, up to three levels, over two objects and null. */
VX_SUITE_D(raw, 3)
{
    int a = 10, b = 20; int* pp[3] = { &a, &b, nullptr };
    int* p = nullptr; const int* cp = nullptr; int** q = &p; int*** r = &q;
    int target = 2;     // what p points at
    bool viaConst = false;
    const int depth = vx::pick(4, 5);
    for (int d = 0; d < depth; ++d) {
        enum { Assign, Deref, Write, Bool, ConstPtr, Level2, Level3, ConstHandle, Convert, NOps };
        int op = vx::choose(NOps, "op"), k = op == Assign || op == Level2 || op == Level3 ? vx::choose(3, "target") : 0;
        Value v(p);
        if ((op == Deref || op == Write || op == ConstHandle) && target == 2) vx::assume(false);
        vx::step();
        switch (op) {
        case Assign: VX_CHECK(!vt::errs([&] { v.assign(pp[k]); }), "refused", "assigning a pointer"); target = k; break;
        case Deref: { Value o = *v; VX_CHECK(o.value() == pp[target] && !o.isConst() && o.type() == type<int>(), "deref", "*"); break; }
        case Write: { int w = 100 + d; (*v).assign(w); VX_CHECK(*pp[target] == w, "write", "write through *"); (target ? b : a) = target ? 20 : 10; break; }
        case Bool: VX_CHECK((bool) v == (target != 2), "bool", "bool"); break;
        case ConstPtr: { cp = p; Value c(cp); VX_CHECK(c.type() == v.type() && (bool) c == (target != 2), "const", "pointer to const");
            if (cp) VX_CHECK((*c).value() == cp, "deref", "* of a pointer to const"); break; }
        case Level2: { Value w(q); VX_CHECK((*w).value() == &p && w.type()->pointee() == type<int*>(), "deref", "* of int**"); (*w).assign(pp[k]); target = k; break; }
        case Level3: { Value w(r); VX_CHECK((**w).value() == &p && w.type()->pointee()->pointee() == type<int*>(), "deref", "** of int***"); (**w).assign(pp[k]); target = k; break; }
        case ConstHandle: { int* const& cref = p; Value c(cref); viaConst = true; VX_CHECK(vt::errs([&] { c.assign(pp[0]); }), "accepted", "assigning a const pointer"); Value o = *c; VX_CHECK(o.value() == pp[target], "deref", "* of a const pointer"); break; }
        case Convert: { VX_CHECK(v.get<int*>() == pp[target] && v.copy().get<int*>() == pp[target], "get", "pointer value"); break; }
        }
        VX_CHECK(p == pp[target], "target", "pointer is wrong"); VX_CHECK(a == 10 && b == 20 && q == &p && r == &q, "other", "something else changed");
        vx::state(vx::pathHash());
    }
    (void) viaConst;
}

/* Pointers to derived objects where pointers to the base are wanted, never the other way round. */
namespace {
template<typename A> struct Cov;
template<typename From, typename To> void covary(bool up, const char* what)
{
    From obj; From* p = &obj; auto sp = std::make_shared<From>();
    Function f("f", [] (To* t) { return (long) t; }), g("g", [] (std::shared_ptr<To> t) { return (long) t.get(); }), n("n", [] (const To* t) { return (long) t; });
    long got = 0; bool e;
    e = vt::errs([&] { got = f.call<long>(p); }); VX_CHECK(e == !up, e ? "refused" : "accepted", "%s*", what); if (!e) VX_CHECK(got == (long) p, "address", "%s*", what);
    e = vt::errs([&] { got = f.call<long>(Value(p)); }); VX_CHECK(e == !up, e ? "refused" : "accepted", "%s* as Value", what); if (!e) VX_CHECK(got == (long) p, "address", "%s*", what);
    e = vt::errs([&] { got = n.call<long>(p); }); VX_CHECK(e == !up, e ? "refused" : "accepted", "const %s*", what); if (!e) VX_CHECK(got == (long) p, "address", "const %s*", what);
    e = vt::errs([&] { got = g.call<long>(sp); }); VX_CHECK(e == !up, e ? "refused" : "accepted", "shared_ptr<%s>", what); if (!e) VX_CHECK(got == (long) sp.get() && sp.use_count() == 1, "address", "shared_ptr<%s>", what);
    e = vt::errs([&] { got = f.call<long>(sp); }); VX_CHECK(e, "accepted", "shared_ptr passed as raw pointer (%s)", what);
    e = vt::errs([&] { got = g.call<long>(p); }); VX_CHECK(e, "accepted", "raw pointer passed as shared_ptr (%s)", what);
    From** pp = &p; Function h("h", [] (To** t) { return (long) t; });
    VX_CHECK(type<From*>()->isChildOf(type<To*>()) == up, "relation", "%s* child of base*", what);
    e = vt::errs([&] { got = h.call<long>(pp); }); VX_CHECK(up == type<From**>()->isChildOf(type<To**>()) && e == !type<From**>()->isChildOf(type<To**>()), "relation", "%s**", what);
}
}
VX_SUITE_D(covariance, 1)
{
    using namespace k15;
    int c = vx::choose(10, "pair"); vx::step(); vx::state(c + 77);
    switch (c) {
    case 0: covary<P, P>(true, "P to P"); break; case 1: covary<C, P>(true, "C to P"); break; case 2: covary<G, P>(true, "G to P"); break;
    case 3: covary<P, C>(false, "P to C"); break; case 4: covary<G, C>(true, "G to C"); break; case 5: covary<P, G>(false, "P to G"); break;
    case 6: covary<C, G>(false, "C to G"); break; case 7: covary<Tracked, P>(false, "Tracked to P"); break; case 8: covary<C, Tracked>(false, "C to Tracked"); break;
    default: covary<C, C>(true, "C to C"); break;
    }
}
