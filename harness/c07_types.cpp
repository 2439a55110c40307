/* C07: type relations and member lookup.
 * Every sequence of registrations on a few types (parents, functions, fields),
 * queried exhaustively after each step against a reference model. */
#include "vt.h"
#include <algorithm>
using namespace reflect;

namespace {

enum { T = 3, P = 4 };  // types, and pointer types over them
const char* fnames[] = { "f", "g", "h" };   // functions use f,g; fields use g,h -> collisions on g
enum { NF = 2, NS = 3, ND = 2 };

struct MType
{
    int parent; bool dead;
    std::map<std::string, std::vector<int>> fns;    // name -> signatures in order
    std::map<std::string, int> fields;              // name -> offset
    MType() : parent(-1), dead(false) {}
};
struct Model
{
    MType t[T];
    bool child(int a, int b) const { for (int i = a; i >= 0; i = t[i].parent) if (i == b) return true; return false; }
    const MType* owner(int a, const std::string& n, bool fn) const
    { for (int i = a; i >= 0; i = t[i].parent) if (fn ? t[i].fns.count(n) : t[i].fields.count(n)) return &t[i]; return nullptr; }
    uint64_t hash() const
    {
        std::string s;
        for (auto& x : t) {
            s += vx::fmt("|%d", x.parent);
            for (auto& f : x.fns) { s += f.first; for (int v : f.second) s += vx::fmt("%d", v % 10); }
            for (auto& f : x.fields) s += ";" + f.first;
        }
        return vx::hashStr(s);
    }
};

// distinct functions: what they return identifies them
struct Ret { int id; };
Function mkFn(const std::string& name, int sig, int id)
{
    switch (sig) {
    case 0: return Function(name, [id] () -> int { return id; });
    case 1: return Function(name, [id] (int) -> int { return id; });
    default: return Function(name, [id] (long, long) -> int { return id; });
    }
}
int callFn(const Overloads& o, int sig)
{
    switch (sig) { case 0: return o.call<int>(); case 1: return o.call<int>(7); default: return o.call<int>(7l, 8l); }
}

void compare(const Model& m, Type** t, const char* op)
{
    for (int a = 0; a < T; ++a) {
        const Type* ct = t[a];
        const MType& mt = m.t[a];
        VX_CHECK(ct->parent() == (mt.parent < 0 ? nullptr : t[mt.parent]), "parent", "%s: T%d has the wrong parent", op, a);
        for (int b = 0; b < T; ++b) {
            VX_CHECK(ct->isChildOf(t[b]) == m.child(a, b), "child", "%s: T%d isChildOf T%d = %d", op, a, b, ct->isChildOf(t[b]));
            VX_CHECK(ct->isParentOf(t[b]) == m.child(b, a), "child", "%s: T%d isParentOf T%d = %d", op, a, b, ct->isParentOf(t[b]));
        }
        std::set<std::string> allF, allD;
        for (int i = a; i >= 0; i = m.t[i].parent) {
            for (auto& f : m.t[i].fns) allF.insert(f.first);
            for (auto& f : m.t[i].fields) allD.insert(f.first);
        }
        VX_CHECK(ct->functions() == std::vector<std::string>(allF.begin(), allF.end()), "list", "%s: functions() of T%d", op, a);
        VX_CHECK(ct->fields() == std::vector<std::string>(allD.begin(), allD.end()), "list", "%s: fields() of T%d", op, a);
        for (int n = 0; n < 3; ++n) {
            const std::string name = fnames[n];
            const MType* of = m.owner(a, name, true); const MType* od = m.owner(a, name, false);
            VX_CHECK(ct->hasFunction(name) == !!of, "has", "%s: T%d hasFunction(%s) = %d", op, a, name.c_str(), !of);
            VX_CHECK(ct->hasField(name) == !!od, "has", "%s: T%d hasField(%s) = %d", op, a, name.c_str(), !od);
            const Overloads* fs = nullptr; const Field* fd = nullptr; Overloads* mfs = nullptr; Field* mfd = nullptr;
            bool e1 = vt::errs([&] { fs = &ct->function(name); }), e2 = vt::errs([&] { fd = &ct->field(name); });
            bool e3 = vt::errs([&] { mfs = &t[a]->function(name); }), e4 = vt::errs([&] { mfd = &t[a]->field(name); });
            VX_CHECK(e1 == !of && e2 == !od, "lookup", "%s: T%d lookup of %s: function %d field %d", op, a, name.c_str(), e1, e2);
            VX_CHECK(e3 == !mt.fns.count(name) && e4 == !mt.fields.count(name), "immediate-lookup",
                    "%s: T%d modifiable lookup of %s reaches the parent's member", op, a, name.c_str());
            if (of) {
                const std::vector<int>& ids = of->fns.at(name);
                VX_CHECK(fs->size() == ids.size(), "overloads", "%s: T%d %s has %zu overloads, expected %zu", op, a, name.c_str(), fs->size(), ids.size());
                for (int sig = 0; sig < NS; ++sig) {
                    int want = -1; for (int id : ids) if (id % 10 == sig) want = id;
                    int got = -1; bool e = vt::errs([&] { got = callFn(*fs, sig); });
                    int got2 = -1; bool ee = vt::errs([&] { got2 = sig == 0 ? ct->call<int>(name) : sig == 1 ? ct->call<int>(name, 7) : ct->call<int>(name, 7l, 8l); });
                    VX_CHECK(e == (want < 0) && got == want && ee == e && got2 == got, "dispatch",
                            "%s: T%d.%s signature %d runs %d/%d, expected %d", op, a, name.c_str(), sig, got, got2, want);
                }
            }
            if (od) {
                VX_CHECK(fd->offset() == size_t(od->fields.at(name)) && fd->name() == name && fd->type() == type<int>(), "field",
                        "%s: T%d.%s is another field (offset %zu)", op, a, name.c_str(), fd->offset());
            }
            if (!e3) VX_CHECK(mfs == fs, "lookup", "%s: T%d.%s differs between const and modifiable lookup", op, a, name.c_str());
            if (!e4) VX_CHECK(mfd == fd, "lookup", "%s: T%d.%s differs between const and modifiable lookup", op, a, name.c_str());
        }
    }
}

} // namespace

VX_SUITE_D(members, 5)
{
    Model m; Type* t[T]; std::unique_ptr<Type> own[T];
    for (int i = 0; i < T; ++i) { own[i].reset(t[i] = new Type(vx::fmt("T%d", i))); }
    int depth = vx::pick(4, 5), n = 1 + vx::choose(depth, "length");
    for (int k = 0; k < n; ++k) {
        int op = vx::choose(3, "op"), a = vx::choose(T, "type");
        vx::step();
        std::string w; bool err, want;
        if (op == 0) {
            int b = vx::choose(T, "parent");
            vx::assume(!m.child(b, a));         // no cycles in C++
            w = vx::fmt("T%d.parent(T%d)", a, b);
            t[a]->parent(t[b]); m.t[a].parent = b; err = want = false;
        }
        else if (op == 1) {
            std::string name = fnames[vx::choose(NF, "name")]; int sig = vx::choose(NS, "signature");
            w = vx::fmt("T%d.addFunction(%s, %d)", a, name.c_str(), sig);
            int id = 100 * (k + 1) + 10 * a + sig;
            want = m.t[a].fields.count(name);
            if (m.t[a].fns.count(name)) for (int x : m.t[a].fns[name]) want = want || x % 10 == sig;
            err = vt::errs([&] { t[a]->addFunction(name, mkFn(name, sig, id)); });
            if (!want) m.t[a].fns[name].push_back(id);
        }
        else {
            std::string name = fnames[1 + vx::choose(ND, "name")];
            w = vx::fmt("T%d.addField(%s)", a, name.c_str());
            want = m.t[a].fns.count(name) || m.t[a].fields.count(name);
            int off = 8 * (k + 1);
            err = vt::errs([&] { t[a]->addField<int>(name, off); });
            if (!want) m.t[a].fields[name] = off;
        }
        VX_NOTE("%s%s", w.c_str(), want ? " (must be refused)" : "");
        VX_CHECK(err == want, want ? "conflict-accepted" : "refused", "%s: %s", w.c_str(), err ? "refused" : "accepted");
        vx::outcome(want ? "refused" : "registered");
        if (k + 1 == n) compare(m, t, w.c_str());   // every prefix is itself an execution
        vx::state(m.hash());
    }
}

/* Pointer types: same pointer kind over related pointees, any nesting. */
VX_SUITE_D(pointers, 4)
{
    Type* t[T]; std::unique_ptr<Type> own[T + P];
    int par[T] = { -1, -1, -1 };
    for (int i = 0; i < T; ++i) own[i].reset(t[i] = new Type(vx::fmt("T%d", i)));
    for (int i = 1; i < T; ++i) { par[i] = vx::choose(i + 1, "parent") - 1; if (par[i] >= 0) t[i]->parent(t[par[i]]); }
    struct Ptr { Type* t; int kind; int base; int over; } p[P];     // over: pointer index or -1
    for (int i = 0; i < P; ++i) {
        p[i].kind = vx::choose(2, "pointer"); int x = vx::choose(T + (i ? 1 : 0), "pointee");
        own[T + i].reset(p[i].t = new Type(vx::fmt("P%d", i)));
        p[i].base = x < T ? x : -1; p[i].over = x < T ? -1 : i - 1;
        p[i].t->setPointer(p[i].kind ? "*" : "std::shared_ptr", x < T ? t[x] : p[i - 1].t);
        VX_CHECK(vt::errs([&] { p[i].t->setPointer("*", t[0]); }), "pointer-twice", "a pointer type accepts a second pointee");
        VX_CHECK(p[i].t->isPointer() && p[i].t->pointer() == (p[i].kind ? "*" : "std::shared_ptr") && p[i].t->pointee() == (x < T ? t[x] : p[i - 1].t),
                "pointer", "a pointer type forgets its pointee or kind");
        VX_CHECK(p[i].t->is("pointer"), "pointer", "a pointer type lacks the pointer trait");
    }
    std::function<bool(int, int)> tchild = [&] (int a, int b) { for (; a >= 0; a = par[a]) if (a == b) return true; return false; };
    for (int a = 0; a < P; ++a) for (int b = 0; b < P; ++b) {
        int x = a, y = b; bool ok, same = a == b;
        for (;;) {
            if (x == y) { ok = true; break; }
            if (p[x].kind != p[y].kind) { ok = false; break; }
            if (p[x].over < 0 && p[y].over < 0) { ok = tchild(p[x].base, p[y].base); break; }
            if (p[x].over < 0 || p[y].over < 0) { ok = false; break; }
            x = p[x].over; y = p[y].over;
        }
        (void) same;
        VX_CHECK(p[a].t->isChildOf(p[b].t) == ok && p[b].t->isParentOf(p[a].t) == ok, "pointer-child",
                "pointer to %d (kind %d) isChildOf pointer to %d (kind %d): %d", p[a].base, p[a].kind, p[b].base, p[b].kind, !ok);
        vx::step();
    }
    for (int a = 0; a < P; ++a) for (int b = 0; b < T; ++b)
        VX_CHECK(!p[a].t->isChildOf(t[b]) && !t[b]->isChildOf(p[a].t), "pointer-child", "a pointer type is related to a non-pointer type");
    for (int b = 0; b < T; ++b) {
        VX_CHECK(!t[b]->isPointer(), "pointer", "a plain type claims to be a pointer");
        VX_CHECK(vt::errs([&] { t[b]->pointee(); }) && vt::errs([&] { t[b]->pointer(); }), "pointer", "a plain type has a pointee");
    }
    vx::state(vx::pathHash());
}

/* Long single-inheritance chains with members at every subset of levels. */
VX_SUITE_D(chains, 3)
{
    int n = 2 + vx::choose(vx::pick(6, 8), "length");
    std::vector<std::unique_ptr<Type>> t;
    int fnAt = -1, fieldAt = -1; std::vector<int> nearF(n, -1), nearD(n, -1);
    for (int i = 0; i < n; ++i) {
        t.emplace_back(new Type(vx::fmt("L%d", i)));
        if (i) t[i]->parent(t[i - 1].get());
        int what = vx::choose(3, "level has");
        if (what == 1) { t[i]->addFunction("f", mkFn("f", 0, i)); fnAt = i; }
        if (what == 2) { t[i]->addField<int>("d", i * 4); fieldAt = i; }
        nearF[i] = fnAt; nearD[i] = fieldAt;
    }
    vx::step(n); vx::state(vx::pathHash());
    for (int i = 0; i < n; ++i) {
        const Type* c = t[i].get();
        VX_CHECK(c->hasFunction("f") == (nearF[i] >= 0) && c->hasField("d") == (nearD[i] >= 0), "has", "level %d of %d", i, n);
        if (nearF[i] >= 0) VX_CHECK(c->call<int>("f") == nearF[i], "dispatch", "level %d runs f of level %d, expected %d", i, c->call<int>("f"), nearF[i]);
        if (nearD[i] >= 0) VX_CHECK(c->field("d").offset() == size_t(nearD[i] * 4), "field", "level %d finds another d", i);
        for (int j = 0; j < n; ++j) VX_CHECK(c->isChildOf(t[j].get()) == (j <= i), "child", "level %d isChildOf level %d", i, j);
    }
}

/* Converters are functions named after their target; found by target, inherited, refused when ambiguous. */
VX_SUITE_D(converters, 2)
{
    std::unique_ptr<Type> a(new Type("A")), b(new Type("B")), x(new Type("X")), y(new Type("Y"));
    bool inh = vx::flip("inherits"); if (inh) b->parent(a.get());
    int na = vx::choose(3, "converters A->X"), nb = vx::choose(3, "converters B->X"), ny = vx::choose(2, "A->Y");
    for (int i = 0; i < na; ++i) a->addFunction("operator X()", mkFn("c", i, 10 + i));
    for (int i = 0; i < nb; ++i) b->addFunction("operator X()", mkFn("c", i, 20 + i));
    if (ny) a->addFunction("operator Y()", mkFn("c", 0, 30));
    vx::step(); vx::state(vx::pathHash());
    auto chk = [&] (const Type* f, const Type* t, int n, int id) {
        VX_CHECK(f->hasConverter(t) == (n > 0), "converter", "%s to %s: hasConverter=%d", f->id().c_str(), t->id().c_str(), n == 0);
        int got = -1; bool e = vt::errs([&] { got = f->converter(t).call<int>(); });
        VX_CHECK(e == (n != 1) && got == (n == 1 ? id : -1), "converter", "%s to %s: %d converters, picked %d", f->id().c_str(), t->id().c_str(), n, got);
    };
    chk(a.get(), x.get(), na, 10); chk(a.get(), y.get(), ny, 30);
    chk(b.get(), x.get(), nb ? nb : inh ? na : 0, nb ? 20 : 10); chk(b.get(), y.get(), inh ? ny : 0, 30);
    chk(x.get(), a.get(), 0, 0);
}
