/* C18: traits stay with what they were put on, with the value they were given.
 * Every sequence of trait registrations and queries on a type, a child type,
 * fields, functions and scopes, against a plain map per holder. */
#include "vt.h"
using namespace reflect;
using vt::life;
using vt::Tracked;

reflectTypeDecl(vt::Tracked)
reflectTypeImpl(vt::Tracked) { reflectPlumbing(); }

namespace k18 { struct A { int x; int y; int f() const { return 1; } void g() {} static const char* note() { return "n"; } }; struct B : A { int z; }; }
reflectType(k18::A)
{
    reflectPlumbing(); reflectField(x); reflectField(y); reflectFn(f); reflectFn(g);
    reflectTypeTrait(plain); reflectTypeValue(answer, 42); reflectTypeValue(text, std::string("some text"));
    reflectFieldTrait(x, plain); reflectFieldValue(x, answer, 43); reflectFieldValue(y, text, std::string("y text"));
    reflectFnTrait(f, plain); reflectFnValue(f, answer, 44); reflectFnTrait(g, onlyg);
}
reflectType(k18::B) { reflectParent(k18::A); reflectPlumbing(); reflectField(z); reflectFieldTrait(z, zed); }

namespace {
enum VK { None, Int, Str, Obj, Borrowed, AsValue, SharedValue, NVK };
const char* vkName[] = { "none", "int", "string", "object", "lvalue", "Value", "shared Value" };
struct Model { int kind; int v; };
const char* names[] = { "", "a", "b", "a long trait name that does not fit inline" };
}

VX_SUITE_D(sequences, 3)
{
    life().reset();
    {
    enum { NH = 6 };
    int borrowed = 7; Tracked sharedObj(70);
    Value shared{Tracked(70)};
    Type parent("c18::P"), child("c18::C"); child.parent(&parent);
    parent.addField<int>("f", 0); parent.addField<int>("g", 4); parent.addFunction("fn", [] (const int&) {}); child.addFunction("fn", [] (const std::string&) {});
    Scope top, inner_("in", &top); Scope* inner = &inner_;    // scopes made on demand live until the process ends
    Traits* h[] = { &parent, &child, const_cast<Field*>(&parent.field("f")), const_cast<Field*>(&parent.field("g")), const_cast<Overloads*>(&parent.function("fn")), inner };
    static const char* hName[] = { "type", "child type", "field", "other field", "function", "scope" };
    std::map<std::string, Model> m[NH];
    auto verify = [&] {
        for (int i = 0; i < NH; ++i) {
            const Traits& t = *h[i];
            auto ts = t.traits(); std::set<std::string> got(ts.begin(), ts.end());
            VX_CHECK(got.size() == ts.size() && got.size() == m[i].size(), "list", "%s lists %zu traits, expected %zu", hName[i], ts.size(), m[i].size());
            for (const char* n : names) {
                bool has = m[i].count(n);
                VX_CHECK(t.is(n) == has && got.count(n) == has, "is", "%s: is(%s)", hName[i], n);
                if (!has) { VX_CHECK(vt::errs([&] { t.getValue<Value>(n); }) && vt::errs([&] { t.getValue<int>(n); }), "accepted", "%s: getValue(%s) of a trait it lacks", hName[i], n); continue; }
                const Model& x = m[i][n];
                Value v = t.getValue<Value>(n);
                switch (x.kind) {
                case None: VX_CHECK(v.isVoid() && vt::errs([&] { t.getValue<int>(n); }), "value", "%s: value of a plain trait", hName[i]); break;
                case Int: case AsValue: VX_CHECK(v.type() == type<int>() && v.isStored() && t.getValue<int>(n) == x.v && vt::errs([&] { t.getValue<std::string>(n); }), "value", "%s: int value", hName[i]); break;
                case Borrowed: VX_CHECK(v.value() == &borrowed && t.getValue<int>(n) == borrowed, "value", "%s: borrowed value", hName[i]); break;
                case Str: VX_CHECK(t.getValue<std::string>(n) == "text" + std::to_string(x.v) && vt::errs([&] { t.getValue<int>(n); }), "value", "%s: string value", hName[i]); break;
                case Obj: VX_CHECK(v.get<Tracked>().v == x.v && t.getValue<const Tracked&>(n).v == x.v, "value", "%s: object value", hName[i]); break;
                default: VX_CHECK(v.value() == shared.value() && v.get<Tracked>().v == shared.get<Tracked>().v, "value", "%s: shared value", hName[i]);
                }
            }
        }
        vt::checkLife();
    };
    const int depth = vx::pick(2, 3);
    for (int d = 0; d < depth; ++d) {
        int i = vx::choose(NH, "holder"), n = vx::choose(4, "name"), k = vx::choose(NVK + 1, "value"), val = 100 + d;
        VX_NOTE("%s: add '%s' %s", hName[i], names[n], k < NVK ? vkName[k] : "(change what is borrowed or shared)");
        vx::step();
        if (k == NVK) { borrowed = val; const_cast<Tracked&>(shared.get<Tracked>()).v = val; verify(); continue; }
        bool want = m[i].count(names[n]);
        bool err = vt::errs([&] {
            Traits& t = *h[i];
            switch (k) {
            case None: t.addTrait(names[n]); break;
            case Int: t.addTrait(names[n], int(val)); break;
            case Str: t.addTrait(names[n], "text" + std::to_string(val)); break;
            case Obj: t.addTrait(names[n], Tracked(val)); break;
            case Borrowed: t.addTrait(names[n], borrowed); break;
            case AsValue: t.addTrait(names[n], Value(int(val))); break;
            default: t.addTrait(names[n], Value(shared)); break;
            } });
        VX_CHECK(err == want, err ? "refused" : "accepted", "%s: adding trait '%s' %s", hName[i], names[n], err ? "fails" : "succeeds although it exists");
        if (!want) m[i][names[n]] = Model{k, val};
        verify();
        vx::state(vx::mix(vx::pathHash(), 18));
    }
    VX_CHECK(parent.function("fn").size() == 1 && child.function("fn").size() == 1, "members", "members changed");
    }
    VX_CHECK(life().live.empty(), "leak", "%zu trait values never destroyed", life().live.size());
}
/* Traits given in reflection blocks. */
VX_SUITE_D(declared, 1)
{
    using namespace k18;
    int c = vx::choose(6, "holder"); vx::step(); vx::state(1800 + c);
    const Type* a = type<A>(); const Type* b = type<B>();
    switch (c) {
    case 0: VX_CHECK(a->is("plain") && a->getValue<int>("answer") == 42 && a->getValue<std::string>("text") == "some text" && a->traits().size() == 4, "declared", "type"); break;
    case 1: VX_CHECK(!b->is("plain") && !b->is("answer") && !b->is("text") && b->is("sizeof") && b->traits().size() == 1, "declared", "child type"); break;
    case 2: VX_CHECK(a->field("x").is("plain") && a->field("x").getValue<int>("answer") == 43 && a->field("x").traits().size() == 2 && b->field("x").is("plain") && b->field("x").getValue<int>("answer") == 43, "declared", "field"); break;
    case 3: VX_CHECK(!a->field("y").is("plain") && a->field("y").getValue<std::string>("text") == "y text" && a->field("y").traits().size() == 1, "declared", "other field"); break;
    case 4: VX_CHECK(a->function("f").is("plain") && a->function("f").getValue<int>("answer") == 44 && a->function("f").traits().size() == 2 && b->function("f").is("plain") && a->function("g").is("onlyg") && a->function("g").traits().size() == 1, "declared", "functions"); break;
    default: VX_CHECK(b->field("z").is("zed") && b->field("z").traits().size() == 1 && !a->hasField("z"), "declared", "child field"); break;
    }
}
/* Many traits. */
VX_SUITE_D(many, 1)
{
    static const int counts[] = { 0, 1, 10, 11, 100, 1000, 5000 };
    int n = counts[vx::choose(7, "count")]; vx::step(n); vx::state(vx::mix(18, n));
    Traits t; std::string pad(n % 50, 'p');
    for (int i = 0; i < n; ++i) t.addTrait(pad + std::to_string(i), i * 3);
    VX_CHECK(t.traits().size() == (size_t) n, "list", "%zu of %d traits listed", t.traits().size(), n);
    for (int i = 0; i < n; ++i) VX_CHECK(t.getValue<int>(pad + std::to_string(i)) == i * 3, "value", "trait %d of %d", i, n);
    VX_CHECK(!t.is(pad + std::to_string(n)) && !t.is(pad), "is", "trait never added");
    for (int i = 0; i < n; ++i) VX_CHECK(vt::errs([&] { t.addTrait(pad + std::to_string(i)); }), "accepted", "trait added twice");
    VX_CHECK(t.traits().size() == (size_t) n && (!n || t.getValue<int>(pad + "0") == 0), "value", "refused traits changed something");
}
