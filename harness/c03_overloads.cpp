/* C03: overload sets.
 * Every registration sequence from a pool of signatures, then every call from a
 * pool of argument lists and requested results, against a list-based model. */
#define HIER_IMPL
#include "hier.h"
using namespace reflect;
using namespace h;

namespace {

int ran; // id of the overload that ran, -1 none, -2 several

void hit(int id) { ran = ran == -1 ? id : -2; }

struct Sig { bool ret; std::vector<std::pair<int, int> > args; };   // ret: returns int rather than void
enum { tInt = NTypes, tValue };

// The pool. Each entry is a real callable which reports its index.
#define POOL(X) \
    X(0, void, , ) \
    X(1, void, HP, A1(tP, kCopy)) \
    X(2, void, HP&, A1(tP, kL)) \
    X(3, void, const HP&, A1(tP, kCL)) \
    X(4, void, HP&&, A1(tP, kR)) \
    X(5, void, HC&, A1(tC, kL)) \
    X(6, void, const HC&, A1(tC, kCL)) \
    X(7, void, HC, A1(tC, kCopy)) \
    X(8, void, HA, A1(tA, kCopy)) \
    X(9, void, HV, A1(tV, kCopy)) \
    X(10, int, const HP&, A1(tP, kCL)) \
    X(11, void, int, A1(tInt, kCopy)) \
    X(12, void, HP COMMA HC&, A2(tP, kCopy, tC, kL)) \
    X(13, void, HC& COMMA HP, A2(tC, kL, tP, kCopy)) \
    X(14, int, HP& COMMA const HP&, A2(tP, kL, tP, kCL)) \
    X(15, void, const HP& COMMA const HP&, A2(tP, kCL, tP, kCL)) \
    X(16, int, , )
#define COMMA ,
#define A1(t, k) s.args.push_back(std::make_pair((int) t, (int) k));
#define A2(t, k, t2, k2) A1(t, k) A1(t2, k2)
enum { NPool = 17 };

template<typename R> struct Dflt { static R get() { return R(); } };
template<> struct Dflt<void> { static void get() {} };
template<int I, typename R, typename... P> struct F { static R f(P...) { hit(I); return Dflt<R>::get(); } };
template<int I, typename R, typename... P> struct F<I, R(P...)> : F<I, R, P...> {};

Function fn(int i)
{
    switch (i) {
#define X(I, R, P, S) case I: return Function("f", &F<I, R(P)>::f);
    POOL(X)
#undef X
    }
    abort();
}
Sig sig(int i)
{
    Sig s; s.ret = false;
    switch (i) {
#define X(I, R, P, S) case I: s.ret = std::is_same<R, int>::value; S break;
    POOL(X)
#undef X
    }
    return s;
}

Bind bind1(int f, int fk, int t, int tk)
{
    if (f == tInt || t == tInt) return f == t ? (fk == tk ? Exact : tk == kCopy ? (fk == kR || fk == kCR ? Exact : Partial) : None) : None;
    return binds(f, fk, t, tk);
}
// requested: 0 void, 1 int, 2 Value
Bind matchCall(const Sig& s, int req, const std::vector<std::pair<int, int> >& args)
{
    if (req == 1 && !s.ret) return None;
    if (s.args.size() != args.size()) return None;
    Bind m = Exact;
    for (size_t i = 0; i < args.size(); ++i) m = std::min(m, bind1(args[i].first, args[i].second, s.args[i].first, s.args[i].second));
    return m;
}
// the new signature would exactly take what the existing one declares
bool conflicts(const Sig& neu, const Sig& old)
{
    if (old.ret && !neu.ret) return false;
    return matchCall(neu, 0, old.args) == Exact;
}

struct Objs { HA a; HP p, p2; HC c, c2; HG g; HV v; HX x; int i; Objs() : a(1), p(2), p2(7), c(3), c2(8), g(4), v(5), x(9), i(6) {} };
const std::pair<int, int> argPool[] = {
    {tP, kL}, {tP, kCL}, {tP, kR}, {tP, kCR}, {tC, kL}, {tC, kCL}, {tC, kR}, {tG, kL}, {tG, kCL}, {tV, kL}, {tV, kR}, {tA, kL}, {tInt, kL}, {tInt, kR}, {tX, kL}, {tX, kR} };
enum { NArgs = sizeof argPool / sizeof argPool[0] };

Value mk(Objs& o, std::pair<int, int> a)
{
    Value v;
    switch (a.first) {
    case tA: v = Value(o.a); break; case tP: v = Value(o.p); break; case tC: v = Value(o.c); break;
    case tG: v = Value(o.g); break; case tV: v = Value(o.v); break; case tX: v = Value(o.x); break; default: v = Value(o.i); break; }
    const Objs& c = o;
    switch (a.second) {
    case kL: return v; case kR: return v.rvalue(); case kCR: return v.toConst();
    default: switch (a.first) { case tA: return Value(c.a); case tP: return Value(c.p); case tC: return Value(c.c);
        case tG: return Value(c.g); case tV: return Value(c.v); case tX: return Value(c.x); default: return Value(c.i); } }
}

const Type* T(int t)
{
    switch (t) { case tA: return type<HA>(); case tP: return type<HP>(); case tC: return type<HC>();
        case tG: return type<HG>(); case tV: return type<HV>(); case tW: return type<HW>(); case tX: return type<HX>(); default: return type<int>(); }
}
Argument arg(std::pair<int, int> a)
{
    return Argument(T(a.first), a.second == kCopy ? RefType::Copy : a.second == kL || a.second == kCL ? RefType::LValue : RefType::RValue,
            a.second == kCL || a.second == kCR);
}

struct Set { Overloads ov; std::vector<int> ids; };

void callAndJudge(Set& s, const std::vector<int>& pos, int req)
{
    std::vector<std::pair<int, int> > as; for (int p : pos) as.push_back(argPool[p]);
    int best = -1, partials = 0, firstPartial = -1; bool exact = false; int firstAny = -1;
    for (int id : s.ids) {
        Bind m = matchCall(sig(id), req, as);
        if (m != None && firstAny < 0) firstAny = id;
        if (m == Exact && !exact) { exact = true; best = id; }
        if (m == Partial) { partials++; if (firstPartial < 0) firstPartial = id; }
    }
    if (!exact) best = partials == 1 ? firstPartial : -1;
    Objs o; ran = -1; bool err;
    std::vector<Value> v; for (auto& a : as) v.push_back(mk(o, a));
    if (pos.empty()) err = vt::errs([&] { req == 1 ? (void) s.ov.call<int>() : req == 2 ? (void) s.ov.call<Value>() : s.ov.call<void>(); });
    else if (pos.size() == 1) err = vt::errs([&] { req == 1 ? (void) s.ov.call<int>(v[0]) : req == 2 ? (void) s.ov.call<Value>(v[0]) : s.ov.call<void>(v[0]); });
    else err = vt::errs([&] { req == 1 ? (void) s.ov.call<int>(v[0], v[1]) : req == 2 ? (void) s.ov.call<Value>(v[0], v[1]) : s.ov.call<void>(v[0], v[1]); });
    vx::step();
    std::string what = "set {";
    for (int id : s.ids) what += vx::fmt(" %d", id);
    what += " } called with";
    for (auto& a : as) what += vx::fmt(" %s as %s", a.first < NTypes ? typeName(a.first) : "int", kindName(a.second));
    what += vx::fmt(" for result %d", req);
    VX_CHECK(ran == best, "wrong-overload", "%s: overload %d ran, expected %d", what.c_str(), ran, best);
    VX_CHECK(err == (best < 0), "error-reporting", "%s: %s", what.c_str(), err ? "error" : "no error");
    vx::outcome(exact ? "exact" : best >= 0 ? "partial" : partials ? "ambiguous" : "none");
    // queries
    std::vector<Argument> args; for (auto& a : as) args.push_back(arg(a));
    Argument ret = req == 0 ? Argument::make<void>() : req == 1 ? Argument::make<int>() : Argument::make<Value>();
    VX_CHECK(s.ov.test(ret, args) == (firstAny >= 0), "query", "%s: test() says %d", what.c_str(), s.ov.test(ret, args));
    const Function* got = nullptr;
    bool gerr = vt::errs([&] { got = &s.ov.get(ret, args); });
    VX_CHECK(gerr == (firstAny < 0), "query", "%s: get() %s", what.c_str(), gerr ? "failed" : "succeeded");
    if (got) {
        size_t idx = 0; while (idx < s.ids.size() && s.ids[idx] != firstAny) idx++;
        VX_CHECK(got == &s.ov[idx], "query", "%s: get() returned another overload", what.c_str());
    }
}

void addAndJudge(Set& s, int id)
{
    bool refuse = false;
    for (int old : s.ids) refuse = refuse || conflicts(sig(id), sig(old));
    size_t before = s.ov.size();
    bool err = vt::errs([&] { s.ov.add(fn(id)); });
    vx::step();
    std::string what = "set {"; for (int i : s.ids) what += vx::fmt(" %d", i); what += vx::fmt(" } add %d", id);
    VX_NOTE("%s: %s", what.c_str(), err ? "refused" : "added");
    VX_CHECK(err == refuse, "add", "%s: %s", what.c_str(), err ? "refused" : "accepted");
    VX_CHECK(s.ov.size() == before + !refuse, "add", "%s: size %zu", what.c_str(), s.ov.size());
    if (!refuse) s.ids.push_back(id);
}

void explore(int len)
{
    Set s;
    for (int i = 0; i < len; ++i) {
        int id = vx::choose(NPool + 1, "add");      // last: stop
        if (id == NPool) break;
        addAndJudge(s, id);
    }
    std::string key; for (int i : s.ids) key += (char) ('a' + i);
    vx::state(vx::hashStr(key));
    for (int req = 0; req < 3; ++req) {
        callAndJudge(s, {}, req);
        for (int a = 0; a < NArgs; ++a) callAndJudge(s, { a }, req);
    }
    static const int two[] = { 0, 1, 4, 5, 7 };
    for (int req = 0; req < 2; ++req)
        for (int a : two) for (int b : two) callAndJudge(s, { a, b }, req);
}

} // namespace

VX_SUITE_D(sequences, 2) { explore(vx::pick(3, 4)); }

// Large sets: rotations and subsets of the whole pool, so that position in a long set cannot matter.
VX_SUITE_D(large, 2)
{
    int rot = vx::choose(NPool, "rotation"), drop = vx::choose(NPool + 1, "dropped");
    int rev = vx::choose(2, "reversed");
    Set s;
    for (int i = 0; i < NPool; ++i) {
        int id = (rot + (rev ? NPool - 1 - i : i)) % NPool;
        if (id != drop) addAndJudge(s, id);
    }
    for (int req = 0; req < 3; ++req) {
        callAndJudge(s, {}, req);
        for (int a = 0; a < NArgs; ++a) callAndJudge(s, { a }, req);
    }
    for (int a = 0; a < NArgs; a += 2) for (int b = 0; b < NArgs; b += 3) callAndJudge(s, { a, b }, 0);
}
