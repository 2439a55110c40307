/* C04: lifetime and sharing of reflected values.
 * Every sequence of value operations up to a depth, over K handles and one
 * caller-owned object, against a reference model of which handle denotes which
 * object, who owns it and what it holds. */
#include "vt.h"
using namespace reflect;
using vt::Tracked;
using vt::life;

reflectTypeDecl(vt::Tracked)
reflectTypeImpl(vt::Tracked)
{
    reflectPlumbing();
    reflectField(v);
    reflectFn(get);
    reflectFn(set);
}

namespace {

enum { K = 3 };

struct MObj { int v; };                     // a model object
struct MVal { int obj; bool owned, cst, rv; MVal() : obj(-1), owned(false), cst(false), rv(false) {} };

struct Model
{
    std::map<int, MObj> objs; int next;
    MVal h[K];
    Model() : next(0) {}
    int make(int v) { objs[next].v = v; return next++; }
    void collect()      // drop objects no owner denotes (0 = the caller's object)
    {
        std::set<int> used; used.insert(0);
        for (int i = 0; i < K; ++i) if (h[i].owned) used.insert(h[i].obj);
        for (auto it = objs.begin(); it != objs.end();) {
            if (used.count(it->first)) ++it;
            else {
                for (int i = 0; i < K; ++i) // cannot happen: borrowed handles only denote object 0
                    if (h[i].obj == it->first) { h[i] = MVal(); }
                it = objs.erase(it);
            }
        }
    }
    uint64_t hash() const
    {
        std::string s; std::map<int, int> canon;
        for (int i = 0; i < K; ++i) {
            int c = -1;
            if (h[i].obj >= 0) { if (!canon.count(h[i].obj)) { int n = canon.size(); canon[h[i].obj] = n; } c = canon[h[i].obj]; }
            s += vx::fmt("%d%d%d%d.", c, h[i].owned, h[i].cst, h[i].rv);
            if (h[i].obj >= 0) s += vx::fmt("%d.", objs.at(h[i].obj).v);
        }
        s += vx::fmt("e%d", objs.at(0).v);
        return vx::hashStr(s);
    }
};

struct World
{
    Tracked* ext; Value h[K]; Model m;
    std::map<int, const void*> addr;        // model object -> real address

    World() : ext(nullptr) {}
    ~World() { delete ext; }

    void compare(const char* op)
    {
        vt::checkLife();
        for (int i = 0; i < K; ++i) {
            const MVal& mv = m.h[i]; Value& rv = h[i];
            if (mv.obj < 0) {
                VX_CHECK(rv.isVoid(), "void-handle", "%s: handle %d should be empty", op, i);
                VX_CHECK(!rv.isStored(), "void-stores", "%s: empty handle %d keeps an object alive", op, i);
                continue;
            }
            VX_CHECK(!rv.isVoid() && rv.type() == type<Tracked>(), "handle-type", "%s: handle %d has lost its type", op, i);
            VX_CHECK(rv.isStored() == mv.owned, "ownership", "%s: handle %d isStored=%d, expected %d", op, i, rv.isStored(), mv.owned);
            VX_CHECK(rv.isConst() == mv.cst, "constness", "%s: handle %d isConst=%d, expected %d", op, i, rv.isConst(), mv.cst);
            VX_CHECK((rv.refType() == RefType::RValue) == mv.rv && rv.refType() != RefType::Copy, "ref-kind",
                    "%s: handle %d has reference kind %d", op, i, (int) rv.refType());
            const void* p = rv.value();
            auto it = addr.find(mv.obj);
            if (it == addr.end()) {
                for (auto& a : addr)
                    VX_CHECK(a.second != p || !m.objs.count(a.first), "aliasing", "%s: handle %d shares an object it should not", op, i);
                addr[mv.obj] = p;
            }
            else VX_CHECK(it->second == p, "aliasing", "%s: handle %d does not denote the object it should share", op, i);
            VX_CHECK(life().live.count(p), "use-after-free", "%s: handle %d denotes a dead object", op, i);
            VX_CHECK(&rv.get<Tracked>() == p, "access", "%s: get() and value() differ", op);
            VX_CHECK(rv.get<Tracked>().v == m.objs[mv.obj].v, "content", "%s: handle %d holds %d, expected %d",
                    op, i, rv.get<Tracked>().v, m.objs[mv.obj].v);
            VX_CHECK(rv.call<int>("get") == m.objs[mv.obj].v, "content", "%s: call through handle %d", op, i);
        }
        VX_CHECK(ext->v == m.objs[0].v, "content", "%s: caller's object is %d, expected %d", op, ext->v, m.objs[0].v);
        VX_CHECK(life().live.size() == m.objs.size(), "leak",
                "%s: %zu objects alive, expected %zu", op, life().live.size(), m.objs.size());
        for (auto it = addr.begin(); it != addr.end();) if (!m.objs.count(it->first)) it = addr.erase(it); else ++it;
    }
};

// construct a fresh owned object from handle j, as copy() and construct() do
int fresh(Model& m, const MVal& src)
{
    int v = m.objs[src.obj].v;
    if (src.rv && !src.cst) m.objs[src.obj].v = vt::Moved;
    return m.make(v);
}

enum Op { BorrowExt, BorrowConst, StoreTemp, StoreMovedExt, Drop, Assign, MoveAssign, CopyCons, Copy, Move,
          ToConst, RValue, ContentAssign, SetCall, Construct, SelfAssign, SelfMove, NOps };
const char* names[] = { "borrow", "borrow-const", "store-temporary", "store-moved", "drop", "assign", "move-assign",
    "copy-construct", "copy()", "move()", "toConst()", "rvalue()", "assign(content)", "call set", "Type::construct",
    "self-assign", "self-move-assign" };

void stepOnce(World& w, int counter)
{
    int op = vx::choose(NOps, "op");
    int i = vx::choose(K, "i");
    Model& m = w.m; MVal& d = m.h[i];
    int j = i;
    bool binary = op == Assign || op == MoveAssign || op == CopyCons || op == Copy || op == Move || op == ToConst
        || op == RValue || op == ContentAssign || op == Construct;
    if (binary) j = vx::choose(K, "j");
    MVal s = m.h[j];
    VX_NOTE("%s h%d%s", names[op], i, binary ? vx::fmt(" <- h%d", j).c_str() : "");
    vx::step();
    std::string what = vx::fmt("%s h%d h%d", names[op], i, j);
    const char* W = what.c_str();
    bool err = false, wantErr = false;
    switch (op) {
    case BorrowExt: w.h[i] = Value(*w.ext); d = MVal(); d.obj = 0; break;
    case BorrowConst: { const Tracked& c = *w.ext; w.h[i] = Value(c); d = MVal(); d.obj = 0; d.cst = true; break; }
    case StoreTemp: w.h[i] = Value(Tracked(100 + counter)); d = MVal(); d.obj = m.make(100 + counter); d.owned = true; break;
    case StoreMovedExt: {
        w.h[i] = Value(std::move(*w.ext));
        int v = m.objs[0].v; m.objs[0].v = vt::Moved;
        d = MVal(); d.obj = m.make(v); d.owned = true; break; }
    case Drop: w.h[i] = Value(); d = MVal(); break;
    case Assign: w.h[i] = w.h[j]; d = s; break;
    case MoveAssign: {
        vx::assume(i != j);
        w.h[i] = std::move(w.h[j]); d = s;
        // what a moved-from handle denotes is unspecified, but it owns nothing: neither what
        // was moved out of it nor what the other handle owned before
        m.h[j] = MVal(); m.collect();
        VX_CHECK(!w.h[j].isStored(), "moved-from-owns", "%s: the handle moved from owns an object", W);
        VX_CHECK(life().live.size() == m.objs.size(), "leak", "%s: %zu objects alive, expected %zu", W, life().live.size(), m.objs.size());
        w.h[j] = Value(); break; }
    case CopyCons: { Value t(w.h[j]); const Value& ct = t; Value t2(ct); Value t3(std::move(t)); VX_CHECK(!t.isStored(), "moved-from-owns", "%s: the handle moved from owns an object", W); w.h[i] = t3; d = s; break; }
    case Copy:
        wantErr = s.obj < 0;
        err = vt::errs([&] { w.h[i] = w.h[j].copy(); });
        if (!wantErr) { int n = fresh(m, s); m.h[i] = MVal(); m.h[i].obj = n; m.h[i].owned = true; }
        break;
    case Construct:
        vx::assume(s.obj >= 0);
        err = vt::errs([&] { w.h[i] = type<Tracked>()->construct(w.h[j]); });
        { int n = fresh(m, s); m.h[i] = MVal(); m.h[i].obj = n; m.h[i].owned = true; }
        break;
    case Move:
        wantErr = s.obj < 0;
        err = vt::errs([&] { Value t = w.h[j].move(); w.h[i] = t; });
        if (!wantErr) {
            MVal r = s; r.rv = true;
            int n = fresh(m, r); m.h[j] = MVal(); m.h[i] = MVal(); m.h[i].obj = n; m.h[i].owned = true;
        }
        break;
    case ToConst: vx::assume(s.obj >= 0); w.h[i] = w.h[j].toConst(); d = s; d.cst = true; d.rv = true; break;
    case RValue:  vx::assume(s.obj >= 0); w.h[i] = w.h[j].rvalue(); d = s; d.rv = true; break;
    case ContentAssign:
        vx::assume(s.obj >= 0 && d.obj >= 0);
        wantErr = d.cst || d.rv;
        err = vt::errs([&] { w.h[i].assign(w.h[j]); });
        if (!wantErr && s.obj != d.obj) {
            m.objs[d.obj].v = m.objs[s.obj].v;
            if (s.rv && !s.cst) m.objs[s.obj].v = vt::Moved;
        }
        break;
    case SetCall:
        vx::assume(d.obj >= 0);
        wantErr = d.cst || d.rv;
        err = vt::errs([&] { w.h[i].call<void>("set", 500 + counter); });
        if (!wantErr) m.objs[d.obj].v = 500 + counter;
        break;
    case SelfAssign: { Value& a = w.h[i]; w.h[i] = a; break; }
    case SelfMove: { Value& a = w.h[i]; w.h[i] = std::move(a); break; }
    }
    VX_CHECK(err == wantErr, err ? "refused" : "accepted", "%s: %s", W, err ? "unexpected error" : "expected an error");
    m.collect();
    w.compare(W);
    vx::state(m.hash());
}

void run(int depth)
{
    life().reset();
    {
        World w;
        w.ext = new Tracked(1);
        w.m.make(1); w.addr[0] = w.ext;
        for (int d = 0; d < depth; ++d) stepOnce(w, d);
        // tear down in a chosen order: whoever is last must not matter
        int order = vx::choose(2, "teardown");
        for (int k = 0; k < K; ++k) {
            int i = order ? K - 1 - k : k;
            w.h[i] = Value(); w.m.h[i] = MVal(); w.m.collect();
            w.compare("teardown");
        }
        vx::outcome(life().copies ? (life().moves ? "copies+moves" : "copies") : (life().moves ? "moves" : "no copy or move"));
    }
    vt::checkLife();
    VX_CHECK(life().live.empty(), "leak", "%zu objects never destroyed", life().live.size());
    VX_CHECK(life().ctors == life().dtors, "leak", "constructed %llu, destroyed %llu",
            (unsigned long long) life().ctors, (unsigned long long) life().dtors);
}

} // namespace

VX_SUITE_D(histories, 2) { run(vx::pick(3, 4)); }

// Long sharing chains: n handles on one stored object, dropped in every rotation.
VX_SUITE_D(sharing, 2)
{
    life().reset();
    int n = 1 + vx::choose(vx::pick(24, 64), "copies");
    int rot = vx::choose(n, "rotation");
    int viaMove = vx::choose(2, "via-vector");
    {
        std::vector<Value> v;
        Value first(Tracked(42));
        if (viaMove) for (int i = 0; i < n; ++i) v.push_back(first);        // reallocates: moves and copies
        else { v.reserve(n); for (int i = 0; i < n; ++i) v.emplace_back(i ? v.back() : first); }
        first = Value();
        for (int i = 0; i < n; ++i) {
            VX_CHECK(life().live.size() == 1, "leak", "%zu objects alive with %d handles left", life().live.size(), n - i);
            Value& h = v[(i + rot) % n];
            VX_CHECK(h.isStored() && h.get<Tracked>().get() == 42, "content", "handle lost its object");
            vx::step();
            h = Value();
        }
        VX_CHECK(life().live.empty(), "leak", "object outlives its last handle");
    }
    vt::checkLife();
}

// A value handed out by a function call owns its object independently of the call.
VX_SUITE_D(returned, 1)
{
    life().reset();
    int n = 1 + vx::choose(4, "n");
    int order = vx::choose(2, "order");
    {
        std::vector<Value> v;
        for (int i = 0; i < n; ++i) v.push_back(type<Tracked>()->construct());
        for (int i = 0; i < n; ++i) v[i].call<void>("set", i + 1);
        for (int i = 0; i < n; ++i) VX_CHECK(v[i].get<Tracked>().v == i + 1, "aliasing", "two constructed objects share storage");
        VX_CHECK((int) life().live.size() == n, "leak", "%zu alive, expected %d", life().live.size(), n);
        while (!v.empty()) { if (order) v.pop_back(); else v.erase(v.begin()); VX_CHECK(life().live.size() == v.size(), "leak", "object not released with its handle"); vx::step(); }
    }
    vt::checkLife();
    VX_CHECK(life().live.empty(), "leak", "objects leaked");
}
