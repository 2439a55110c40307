/* C21: functions and variables reflected in scopes are the real ones.
 * Every sequence of reads and writes, reflected and direct, of reflected global
 * variables, and calls of reflected global functions, from every level. */
#include "vt.h"
#include "types/std/vector.h"
using namespace reflect;

namespace k21 {
int counter = 1; const int fixed = 77; std::string text = "start"; double real = 0.5;
namespace deep { int counter = 100; std::vector<int> list; int twice(int x) { return x * 2; } }
int calls = 0; int storage = 5; const int& view = storage; std::string words = "w"; const std::string& wordsView = words; int& alias = counter;
int add(int a, int b) { calls++; return a + b; }
int over(int a) { return a + 1000; } std::string over(const std::string& s) { return s + "!"; }
int& ref() { return counter; } void bump(int& x) { x += 5; } std::string take(std::string&& s) { return std::move(s) + "?"; }
}
int k21Top = 9; int k21TopFn() { return 31; }
reflectScope(k21)
{
    reflectGlobalVar(k21::counter); reflectGlobalVar(k21::fixed); reflectGlobalVar(k21::text); reflectGlobalVar(k21::real);
    reflectGlobalFn(k21::add); reflectGlobalFnTyped(k21::over, int (*)(int)); reflectGlobalFnTyped(k21::over, std::string (*)(const std::string&));
    reflectGlobalFn(k21::ref); reflectGlobalFn(k21::bump); reflectGlobalFn(k21::take);
    reflectGlobalVar(k21::view); reflectGlobalVar(k21::wordsView); reflectGlobalVar(k21::alias);
    reflectScopeTrait(marked); reflectScopeValue(version, 3);
}
reflectScope(k21::deep) { reflectGlobalVar(k21::deep::counter); reflectGlobalVar(k21::deep::list); reflectGlobalFn(k21::deep::twice); reflectScopeTrait(deepest); }
/* The same scope again, elsewhere. */
reflectScope(k21) { reflectGlobalVar(k21Top); reflectGlobalFn(k21TopFn); reflectScopeTrait(again); }

VX_SUITE_D(history, 3)
{
    // the model of the variables
    int counter = k21::counter = 1, deep = k21::deep::counter = 100, top = k21Top = 9; std::string text = k21::text = "start"; double real = k21::real = 0.5; std::vector<int> list = k21::deep::list = std::vector<int>(2, 4);
    k21::calls = 0; int stor = k21::storage = 5; std::string words = k21::words = "w";
    const int depth = vx::pick(3, 4);
    for (int d = 0; d < depth; ++d) {
        int op = vx::choose(19, "op"), from = op < 17 ? vx::choose(2, "from") : 0;
        Scope* sc = from ? scope("k21") : scope(); std::string q = from ? "" : "k21::";
        int n = 10 * d + 3; bool err = false;
        VX_NOTE("op %d from %s", op, from ? "scope" : "global");
        vx::step();
        err = vt::errs([&] { switch (op) {
        case 0: VX_CHECK(sc->call<int>(q + "counter") == counter, "read", "counter"); break;
        case 1: sc->call<void>(q + "counter", n); counter = n; break;
        case 2: k21::counter = counter = n + 1; break;
        case 3: VX_CHECK(sc->call<std::string>(q + "text") == text, "read", "text"); { Value v = sc->call<Value>(q + "text"); VX_CHECK(v.isStored() && v.value() != &k21::text, "read", "text is handed out itself"); } break;
        case 4: { std::string s(n, 'w'); sc->call<void>(q + "text", s); VX_CHECK(s.size() == (size_t) n, "write", "argument consumed"); text = s; sc->call<void>(q + "text", Value(s).toConst()); break; }
        case 5: VX_CHECK(sc->call<double>(q + "real") == real, "read", "real"); sc->call<void>(q + "real", real * 2); real *= 2; break;
        case 6: VX_CHECK(sc->call<int>(q + "deep::counter") == deep, "read", "deep counter"); sc->call<void>(q + "deep::counter", n + 2); deep = n + 2; break;
        case 7: VX_CHECK(sc->call<std::vector<int>>(q + "deep::list") == list, "read", "list"); list.push_back(n); sc->call<void>(q + "deep::list", list); break;
        case 8: { int before = k21::calls; VX_CHECK(sc->call<int>(q + "add", n, 4) == n + 4 && k21::calls == before + 1, "call", "add"); break; }
        case 9: VX_CHECK(sc->call<int>(q + "over", n) == n + 1000 && sc->call<std::string>(q + "over", text) == text + "!", "call", "over"); break;
        case 10: VX_CHECK(&sc->call<int&>(q + "ref") == &k21::counter, "call", "ref"); sc->call<Value>(q + "ref").assign(n); counter = n; break;
        case 11: { int x = n; sc->call<void>(q + "bump", x); VX_CHECK(x == n + 5, "call", "bump"); sc->call<void>(q + "bump", k21::counter); counter += 5; break; }
        case 12: { std::string s("tk"); VX_CHECK(sc->call<std::string>(q + "take", std::move(s)) == "tk?", "call", "take"); break; }
        case 13: VX_CHECK(sc->call<int>(q + "deep::twice", n) == 2 * n && sc->call<int>(q + "fixed") == 77, "call", "twice"); break;
        case 14: VX_CHECK(sc->call<int>(q + "view") == stor, "read", "view"); k21::storage = stor = n + 3; VX_CHECK(sc->call<int>(q + "view") == stor, "read", "view after a direct write"); break;
        case 15: k21::words += 'x'; words += 'x'; VX_CHECK(sc->call<std::string>(q + "wordsView") == words, "read", "wordsView"); VX_CHECK(vt::errs([&] { sc->call<void>(q + "wordsView", words); }), "accepted", "writing a const view"); break;
        case 16: VX_CHECK(sc->call<int>(q + "alias") == counter, "read", "alias"); sc->call<void>(q + "alias", n + 4); counter = n + 4; break;
        case 17: VX_CHECK(scope()->call<int>("k21Top") == top, "read", "top"); scope()->call<void>("k21Top", n); top = n; VX_CHECK(scope()->call<int>("k21TopFn") == 31, "call", "top function"); break;
        default: {
            VX_CHECK(vt::errs([&] { sc->call<void>("k21::fixed", 3); }), "accepted", "writing a const variable");
            VX_CHECK(vt::errs([&] { sc->call<void>("k21::counter", std::string("x")); }), "accepted", "writing another type");
            VX_CHECK(vt::errs([&] { sc->call<int>("k21::none"); }), "accepted", "unknown name");
            VX_CHECK(vt::errs([&] { sc->call<int&>("k21::counter"); }), "accepted", "reference to a variable read by value");
            VX_CHECK(vt::errs([&] { sc->call<int>("k21::add", 1); }), "accepted", "wrong arity"); }
        } });
        VX_CHECK(!err, "refused", "op %d fails", op);
        VX_CHECK(k21::counter == counter && k21::deep::counter == deep && k21Top == top && k21::text == text && k21::real == real && k21::storage == stor && k21::words == words && k21::deep::list == list && k21::fixed == 77, "variables", "op %d: a variable holds something else", op);
        vx::state(vx::pathHash());
    }
}
VX_SUITE_D(declared, 1)
{
    int c = vx::choose(4, "what"); vx::step(); vx::state(2100 + c);
    Scope* s = scope("k21");
    switch (c) {
    case 0: VX_CHECK(s->is("marked") && s->is("again") && s->getValue<int>("version") == 3 && !s->is("deepest") && s->traits().size() == 3, "traits", "scope"); break;
    case 1: VX_CHECK(s->scope("deep")->is("deepest") && !s->scope("deep")->is("marked") && s->scope("deep")->traits().size() == 1 && scope()->traits().empty(), "traits", "nested scope"); break;
    case 2: { auto f = s->functions(); std::set<std::string> got(f.begin(), f.end()), want = { "counter", "fixed", "text", "real", "add", "over", "ref", "bump", "take", "view", "wordsView", "alias" }; VX_CHECK(got == want && f.size() == want.size(), "list", "%zu functions", f.size()); break; }
    default: { auto f = s->scope("deep")->functions(); std::set<std::string> got(f.begin(), f.end()), want = { "counter", "list", "twice" }; VX_CHECK(got == want, "list", "%zu functions", f.size());
        VX_CHECK(s->function("counter").size() == 2 && s->function("fixed").size() == 1 && s->function("view").size() == 1 && s->function("alias").size() == 2 && s->function("over").size() == 2 && scope()->hasFunction("k21Top") && !s->hasFunction("k21Top"), "list", "overloads"); }
    }
}
