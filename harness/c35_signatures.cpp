#include "c35.h"
reflectTypeImpl(k35::Obj) { reflectPlumbing(); reflectField(a); }
reflectTypeImpl(k35::Sub) { reflectParent(k35::Obj); reflectPlumbing(); }
reflectTypeImpl(k35::M) { reflectPlumbing(); }
/* Arguments made from types and from expressions. */
namespace { template<typename T> void made() { Exp e = ExpOf<T>::get(); Argument a = Argument::make<T>(); same(a, e, type<T>(), "Argument", e.text()); VX_CHECK(printArgument<T>() == e.text() && a == Argument(type<T>(), e.ref, e.isConst), "made", "<%s>", e.text().c_str()); vx::step(); vx::state(vx::hashStr(e.text(), 35)); }
template<int I, bool end = K<I>::end> struct Made { static void go(std::vector<void(*)()>& v) { v.push_back(&made<typename K<I>::type>); Made<I + 1>::go(v); } };
template<int I> struct Made<I, true> { static void go(std::vector<void(*)()>&) {} }; }
VX_SUITE_D(arguments, 1)
{
    static std::vector<void(*)()> v; if (v.empty()) Made<0>::go(v);
    v[vx::choose(v.size(), "kind")]();
}
VX_SUITE_D(expressions, 1)
{
    Obj o; const Obj c{1}; int i = 0; const int ci = 1; Obj* p = &o; const Obj* cp = &c; Value v(o); vx::step(); int n = vx::choose(12, "expression"); vx::state(350 + n); Argument a; Exp e;
    switch (n) {
    case 0: a = Argument::make(o); e = Exp{"k35::Obj", RefType::LValue, false}; break;
    case 1: a = Argument::make(c); e = Exp{"k35::Obj", RefType::LValue, true}; break;
    case 2: a = Argument::make(std::move(o)); e = Exp{"k35::Obj", RefType::RValue, false}; break;
    case 3: a = Argument::make(std::move(c)); e = Exp{"k35::Obj", RefType::RValue, true}; break;
    case 4: a = Argument::make(i); e = Exp{"int", RefType::LValue, false}; break;
    case 5: a = Argument::make(ci); e = Exp{"int", RefType::LValue, true}; break;
    case 6: a = Argument::make(12); e = Exp{"int", RefType::RValue, false}; break;
    case 7: a = Argument::make(p); e = Exp{"k35::Obj*", RefType::LValue, false}; break;
    case 8: a = Argument::make(cp); e = Exp{"k35::Obj*", RefType::LValue, false}; break;
    case 9: a = Argument::make(&o); e = Exp{"k35::Obj*", RefType::RValue, false}; break;
    case 10: a = Argument::make(Obj()); e = Exp{"k35::Obj", RefType::RValue, false}; break;
    default: a = v.argument(); e = Exp{"k35::Obj", RefType::LValue, false}; break;
    }
    same(a, e, type(e.id), "an expression", e.text());
}
/* What nothing has been put into is void, whatever the memory held before. */
VX_SUITE_D(nothing, 1)
{
    alignas(Value) unsigned char mem[sizeof(Value)]; int fill = vx::choose(256, "fill"); memset(mem, fill, sizeof mem); vx::step(); vx::state(35000 + fill);
    if (vx::flip("value")) { Value* v = new (mem) Value(); std::string p = v->argument().print(); bool ok = v->argument() == Argument() && v->isVoid() && !v->isConst() && !v->isStored(); v->~Value(); VX_CHECK(ok && p == "void", "nothing", "an empty Value is a <%s>", p.c_str()); }
    else { Argument* a = new (mem) Argument(); VX_CHECK(*a == Argument::make<void>() && a->print() == "void", "nothing", "an empty Argument is a <%s>", a->print().c_str()); }
}
