/* C05: an object reached through a const path is never modified.
 * Every chain of handle derivations up to a depth from a const or non-const
 * starting point, followed by every mutator; afterwards everything reached
 * through a const path must be byte-for-byte what it was, and a mutator through
 * a non-const l-value path must have worked. */
#include "vt.h"
#include "types/std/vector.h"
#include "types/std/map.h"
#include "types/std/smart_ptr.h"
using namespace reflect;

namespace k5 {
struct Leaf
{
    int x; std::string s;
    Leaf(int x = 0, std::string s = "leaf") : x(x), s(std::move(s)) {}
    bool operator==(const Leaf& o) const { return x == o.x && s == o.s; }
    Leaf& operator+=(int n) { x += n; return *this; }
    Leaf& operator++() { ++x; return *this; }
    void poke(int n) { x = n; }
    int peek() const { return x; }
    Leaf& me() { return *this; }
    const Leaf& cme() const { return *this; }
};
struct Mid
{
    Leaf leaf; const Leaf cleaf; std::vector<Leaf> vec; std::map<int, Leaf> map; int n;
    Mid() : leaf(1, "l"), cleaf(2, "c"), n(3) { vec.push_back(Leaf(4, "v")); map[5] = Leaf(5, "m"); }
    Mid(const Mid&) = default;
    bool operator==(const Mid& o) const
    { return leaf == o.leaf && cleaf == o.cleaf && vec == o.vec && map == o.map && n == o.n; }
    void poke(int v) { n = v; leaf.x = v; vec.clear(); }
    Leaf& getLeaf() { return leaf; }
    const Leaf& getCLeaf() const { return leaf; }
};
struct Top : public Mid
{
    Mid mid; const Mid cmid;
    Top() {}
    Top(const Top&) = default;
    bool operator==(const Top& o) const { return Mid::operator==(o) && mid == o.mid && cmid == o.cmid; }
};
} // namespace k5
using namespace k5;

reflectType(k5::Leaf)
{
    reflectPlumbing(); reflectField(x); reflectField(s);
    reflectOpAssign(); reflectOpIncDec();
    reflectFn(poke); reflectFn(peek); reflectFn(me); reflectFn(cme);
    reflectCustom(custom) (k5::Leaf& l, int n) { l.x = n; };
    reflectCustom(eat) (k5::Leaf&& l) { k5::Leaf z(std::move(l)); };
}
reflectType(k5::Mid)
{
    reflectPlumbing(); reflectField(leaf); reflectField(cleaf); reflectField(vec); reflectField(map); reflectField(n);
    reflectFn(poke); reflectFn(getLeaf); reflectFn(getCLeaf);
    reflectCustom(custom) (k5::Mid& m, int n) { m.n = n; };
    reflectCustom(eat) (k5::Mid&& m) { m.vec.clear(); m.leaf.s.clear(); };
}
reflectType(k5::Top)
{
    reflectParent(k5::Mid); reflectPlumbing(); reflectField(mid); reflectField(cmid);
}

namespace {

enum Ty { tTop, tMid, tLeaf, tVec, tMap, tInt, tStr, NTy };
const char* tyName[] = { "Top", "Mid", "Leaf", "vector", "map", "int", "string" };

const Function& fn(int which)
{
    static Function* f[6] = {
        new Function("id", [] (Value v) { return v; }),
        new Function("cid", [] (const Leaf& l) -> const Leaf& { return l; }),
        new Function("mid", [] (Leaf& l) -> Leaf& { return l; }),
        new Function("cid", [] (const Mid& l) -> const Mid& { return l; }),
        new Function("mid", [] (Mid& l) -> Mid& { return l; }),
        new Function("vref", [] (const Value& v) -> Value { return v; }),
    };
    return *f[which];
}

struct H        // a handle and what is known about its path
{
    Value v; Ty t; bool cst, lv;
};

// Derivation steps. Returns false if it does not apply to this type.
enum Step { sCopyHandle, sAssign, sToConst, sRValue, sThroughValueFn, sThroughConstValueFn, sCastC, sCastM, sRefFnC, sRefFnM,
            sField0, sField1, sField2, sField3, sMethM, sMethC, sElemM, sElemC, sStoreInVector, NSteps };
const char* stepName[] = { "copy handle", "assign handle", "toConst()", "rvalue()", "through Value function",
    "through const Value& function", "cast<const T&>", "cast<T&>", "through const T& function", "through T& function",
    "field 0", "field 1", "field 2", "field 3", "T& method", "const T& method", "operator[]", "at", "via vector<Value>" };

template<typename T> const T& cc(Value& v) { return reflect::cast<const T&>(v); }

Value castC(H& h)
{
    switch (h.t) {
    case tTop: return Value(reflect::cast<const Top&>(h.v)); case tMid: return Value(reflect::cast<const Mid&>(h.v));
    case tLeaf: return Value(reflect::cast<const Leaf&>(h.v)); case tVec: return Value(reflect::cast<const std::vector<Leaf>&>(h.v));
    case tMap: return Value(reflect::cast<const std::map<int, Leaf>&>(h.v)); case tInt: return Value(reflect::cast<const int&>(h.v));
    default: return Value(reflect::cast<const std::string&>(h.v)); }
}
Value castM(H& h)
{
    switch (h.t) {
    case tTop: return Value(reflect::cast<Top&>(h.v)); case tMid: return Value(reflect::cast<Mid&>(h.v));
    case tLeaf: return Value(reflect::cast<Leaf&>(h.v)); case tVec: return Value(reflect::cast<std::vector<Leaf>&>(h.v));
    case tMap: return Value(reflect::cast<std::map<int, Leaf>&>(h.v)); case tInt: return Value(reflect::cast<int&>(h.v));
    default: return Value(reflect::cast<std::string&>(h.v)); }
}

struct FieldSpec { const char* name; Ty t; bool cst; };
bool fieldOf(Ty t, int i, FieldSpec& f)
{
    static const FieldSpec top[] = { {"mid", tMid, false}, {"cmid", tMid, true}, {"leaf", tLeaf, false}, {"cleaf", tLeaf, true} };
    static const FieldSpec mid[] = { {"leaf", tLeaf, false}, {"cleaf", tLeaf, true}, {"vec", tVec, false}, {"map", tMap, false} };
    static const FieldSpec leaf[] = { {"x", tInt, false}, {"s", tStr, false} };
    switch (t) {
    case tTop: f = top[i]; return true;
    case tMid: f = mid[i]; return true;
    case tLeaf: if (i >= 2) return false; f = leaf[i]; return true;
    default: return false; }
}

bool derive(H& h, int s)
{
    bool needErr = false;
    try {
        switch (s) {
        case sCopyHandle: { Value c(h.v); h.v = std::move(c); break; }
        case sAssign: { Value c; c = h.v; const Value& cc = c; Value d(cc); h.v = d; break; }
        case sToConst: h.v = h.v.toConst(); h.cst = true; h.lv = false; break;
        case sRValue: h.v = h.v.rvalue(); h.lv = false; break;
        case sThroughValueFn: h.v = fn(0).call<Value>(h.v); break;
        case sThroughConstValueFn: h.v = fn(5).call<Value>(h.v); break;
        case sCastC: h.v = castC(h); h.cst = true; h.lv = true; break;
        case sCastM: needErr = h.cst || !h.lv; h.v = castM(h); break;
        case sRefFnC:
            if (h.t == tLeaf) h.v = fn(1).call<Value>(h.v);
            else if (h.t == tMid || h.t == tTop) { h.v = fn(3).call<Value>(h.v); h.t = tMid; }
            else return false;
            h.cst = true; h.lv = true; break;
        case sRefFnM:
            needErr = h.cst || !h.lv;
            if (h.t == tLeaf) h.v = fn(2).call<Value>(h.v);
            else if (h.t == tMid || h.t == tTop) { h.v = fn(4).call<Value>(h.v); h.t = tMid; }
            else return false;
            break;
        case sField0: case sField1: case sField2: case sField3: {
            FieldSpec f;
            if (!fieldOf(h.t, s - sField0, f)) return false;
            h.v = h.v.field(f.name); h.t = f.t; h.cst = h.cst || f.cst; h.lv = true; break; }
        case sMethM:
            needErr = h.cst || !h.lv;
            if (h.t == tLeaf) h.v = h.v.call<Value>("me");
            else if (h.t == tMid || h.t == tTop) { h.v = h.v.call<Value>("getLeaf"); h.t = tLeaf; }
            else return false;
            break;
        case sMethC:
            if (h.t == tLeaf) h.v = h.v.call<Value>("cme");
            else if (h.t == tMid || h.t == tTop) { h.v = h.v.call<Value>("getCLeaf"); h.t = tLeaf; }
            else return false;
            h.cst = true; h.lv = true; break;
        case sElemM:
            needErr = h.cst || !h.lv;
            if (h.t == tVec) { if (!h.v.get<std::vector<Leaf>>().size()) return false; h.v = h.v[size_t(0)]; }
            else if (h.t == tMap) h.v = h.v[5];
            else return false;
            h.t = tLeaf; break;
        case sElemC:
            if (h.t == tVec) { if (!h.v.get<std::vector<Leaf>>().size()) return false; h.v = h.v.call<Value>("at", size_t(0)); }
            else if (h.t == tMap) h.v = h.v.call<Value>("at", 5);
            else return false;
            h.t = tLeaf; h.cst = true; h.lv = true; break;
        case sStoreInVector: { std::vector<Value> box; for (int i = 0; i < 4; ++i) box.push_back(h.v); h.v = box[0]; break; }
        }
    }
    catch (const Error& e) {
        VX_CHECK(needErr, "refused-derivation", "%s on a %s%s %s handle fails: %s", stepName[s], h.cst ? "const " : "",
                h.lv ? "l-value" : "r-value", tyName[h.t], e.what());
        vx::outcome("refused");
        return false;
    }
    VX_CHECK(!needErr, "const-dropped", "%s on a %s%s %s handle hands out a modifiable handle", stepName[s],
            h.cst ? "const " : "", h.lv ? "l-value" : "r-value", tyName[h.t]);
    VX_CHECK(h.v.isConst() == h.cst, "constness", "after %s the %s handle reports isConst=%d, expected %d", stepName[s],
            tyName[h.t], h.v.isConst(), h.cst);
    VX_CHECK((h.v.refType() == RefType::LValue) == h.lv, "ref-kind", "after %s the %s handle has reference kind %d",
            stepName[s], tyName[h.t], (int) h.v.refType());
    return true;
}

// Every way of changing what a handle denotes. eff: it worked through a non-const l-value.
template<typename T> bool callRef(Value v)
{ static Function f("m", [] (T& t) { T z(t); t = z; }); f.call<void>(v); return true; }
template<typename T> bool callRRef(Value v)
{ static Function f("m", [] (T&& t) { T z(std::move(t)); }); f.call<void>(v); return true; }
template<typename T> bool callCopy(Value v)
{ static Function f("m", [] (T t) { T z(std::move(t)); }); f.call<void>(v); return true; }
template<typename T> bool callCRRef(Value v)
{ static Function f("m", [] (const T&& t) { T z(std::move(t)); }); f.call<void>(v); return true; }

enum Mut { mAssignCopy, mAssignMove, mCompound, mInc, mMethod, mCustom, mEat, mMove, mCopyHandle, mCastRef, mByRef, mByRRef,
           mByCopy, mByCRRef, mFieldAssign, mFieldCompound, mContainerClear, mContainerIndex, mCastCopy, mConstructFrom, mArgOfAssign,
           mMapIndexNew, mPushBack, NMuts };
const char* mutName[] = { "assign(copy)", "assign(move)", "operator+=", "operator++", "non-const method", "T& lambda", "T&& lambda",
    "move()", "copy()", "cast<T&>", "pass as T&", "pass as T&&", "pass by value", "pass as const T&&", "field().assign",
    "field() chain through T&", "clear()/resize()", "operator[] =", "cast<T>", "Type::construct", "be assigned from", "operator[] of a new key",
    "push_back" };

#define BYTYPE(F) (h.t == tLeaf ? F<Leaf>(h.v) : h.t == tMid ? false : h.t == tTop ? false : h.t == tVec ? F<std::vector<Leaf>>(h.v) : \
    h.t == tMap ? F<std::map<int, Leaf>>(h.v) : h.t == tInt ? F<int>(h.v) : F<std::string>(h.v))
bool noAssign(Ty t) { return t == tTop || t == tMid; }  // const members: not assignable

// returns -1 if the mutator does not exist for the type, else 1 if it must succeed on a non-const l-value
int mutate(H& h, int m)
{
    Leaf other(77, "other"); std::vector<Leaf> ov(2, Leaf(78)); std::map<int, Leaf> om; om[9] = Leaf(79); std::string os("o");
    switch (m) {
    case mAssignCopy: case mAssignMove:
        if (noAssign(h.t)) return -1;
        if (m == mAssignCopy)
            switch (h.t) { case tLeaf: h.v.assign(other); break; case tVec: h.v.assign(ov); break; case tMap: h.v.assign(om); break;
                case tInt: h.v.assign(55); break; default: h.v.assign(os); }
        else
            switch (h.t) { case tLeaf: h.v.assign(std::move(other)); break; case tVec: h.v.assign(std::move(ov)); break;
                case tMap: h.v.assign(std::move(om)); break; case tInt: h.v.assign(Value(55)); break; default: h.v.assign(std::move(os)); }
        return 1;
    case mCompound: if (h.t != tLeaf) return -1; h.v += 5; return 1;
    case mInc: if (h.t != tLeaf) return -1; ++h.v; return 1;
    case mMethod: if (h.t > tLeaf) return -1; h.v.call<void>("poke", 99); return 1;
    case mCustom: if (h.t > tLeaf) return -1; h.v.call<void>("custom", 98); return 1;
    case mEat: if (h.t > tLeaf) return -1; h.v.call<void>("eat"); return 0;
    case mMove: h.v.move(); return 0;
    case mCopyHandle: h.v.copy(); return 0;
    case mCastRef: castM(h); return 0;
    case mByRef: if (noAssign(h.t)) return -1; BYTYPE(callRef); return 0;
    case mByRRef: if (noAssign(h.t)) return -1; BYTYPE(callRRef); return 0;
    case mByCopy: if (noAssign(h.t)) return -1; BYTYPE(callCopy); return 0;
    case mByCRRef: if (noAssign(h.t)) return -1; BYTYPE(callCRRef); return 0;
    case mFieldAssign:
        if (h.t == tTop) h.v.field("leaf").field("x").assign(44);
        else if (h.t == tMid) h.v.field("n").assign(43);
        else if (h.t == tLeaf) h.v.field("s").assign(std::string("changed"));
        else return -1;
        return 2;       // a field of an r-value is modifiable unless const
    case mFieldCompound:
        if (h.t == tTop) h.v.field("mid").field("leaf") += 3;
        else if (h.t == tMid) h.v.field("vec")[size_t(0)] += 3;
        else if (h.t == tLeaf) h.v.field<int&>("x") = 31;
        else return -1;
        return 2;
    case mContainerClear: if (h.t != tVec) return -1; h.v.call<void>("clear"); return 1;
    case mContainerIndex:
        if (h.t == tVec) h.v[size_t(0)].assign(other);
        else if (h.t == tMap) h.v[5].assign(other);
        else return -1;
        return 1;
    case mCastCopy: if (h.t != tLeaf) return -1; reflect::cast<Leaf>(h.v); return 0;
    case mConstructFrom: h.v.type()->construct(h.v); return 0;
    case mArgOfAssign: {
        if (h.t != tLeaf) return -1;
        Leaf target; Value t(target); t.assign(h.v); return 0; }
    case mMapIndexNew: if (h.t != tMap) return -1; h.v[1234]; return 1;
    case mPushBack: if (h.t != tVec) return -1; h.v.call<void>("push_back", other); return 1;
    }
    return -1;
}

void body(int depth)
{
    Top top; const Top& ctop = top;
    Mid mid; const Mid& cmid = mid;
    Leaf leaf(10, "leaf"); const Leaf& cleaf = leaf;
    H h;
    int start = vx::choose(8, "start");
    static const char* startName[] = { "Top&", "const Top&", "Mid&", "const Mid&", "Leaf&", "const Leaf&", "stored Leaf", "stored Leaf .toConst()" };
    VX_NOTE("start: %s", startName[start]);
    h.t = start < 2 ? tTop : start < 4 ? tMid : tLeaf; h.cst = start & 1; h.lv = start != 7;
    switch (start) {
    case 0: h.v = Value(top); break; case 1: h.v = Value(ctop); break;
    case 2: h.v = Value(mid); break; case 3: h.v = Value(cmid); break;
    case 4: h.v = Value(leaf); break; case 5: h.v = Value(cleaf); break;
    case 6: h.v = Value(Leaf(10, "leaf")); break; case 7: h.v = Value(Leaf(10, "leaf")).toConst(); break;
    }
    VX_CHECK(h.v.isConst() == h.cst, "constness", "%s handle has isConst=%d", startName[start], h.v.isConst());
    Value root = h.v;
    bool stored = start >= 6;
    Top top0(top); Mid mid0(mid); Leaf leaf0(leaf);
    int n = vx::choose(depth + 1, "length");
    for (int i = 0; i < n; ++i) {
        int s = vx::choose(NSteps, "step");
        VX_NOTE("%s", stepName[s]);
        vx::step();
        if (!derive(h, s)) { vx::assume(false); return; }
        vx::state(vx::mix(start * 64 + h.t * 4 + h.cst * 2 + h.lv, 5));
        vx::assume(h.v.argument().type() != nullptr);
    }
    // nothing was changed by deriving
    VX_CHECK(top == top0 && mid == mid0 && leaf == leaf0, "changed-by-deriving", "deriving handles changed an object");
    const void* denoted = h.v.value();
    Leaf leafWas(0, ""); int intWas = 0; std::string strWas; size_t vecWas = 0, mapWas = 0;
    Leaf firstWas(0, "");
    auto snap = [&] (Leaf& l, int& i, std::string& s, size_t& v, size_t& m) {
        switch (h.t) {
        case tLeaf: l = *static_cast<const Leaf*>(denoted); break; case tInt: i = *static_cast<const int*>(denoted); break;
        case tStr: s = *static_cast<const std::string*>(denoted); break;
        case tVec: v = static_cast<const std::vector<Leaf>*>(denoted)->size(); break;
        case tMap: m = static_cast<const std::map<int, Leaf>*>(denoted)->size(); break;
        default: break; }
    };
    snap(leafWas, intWas, strWas, vecWas, mapWas);
    int m = vx::choose(NMuts, "mutator");
    VX_NOTE("mutator: %s", mutName[m]);
    vx::step();
    H keep = h;             // keeps a stored object alive
    int must = -2; bool err = false; std::string what;
    err = vt::errs([&] { must = mutate(h, m); }, &what);
    if (must == -1) { vx::assume(false); return; }
    if (h.cst || (start & 1)) {
        // anything on a const path is as it was
        Leaf l2(0, ""); int i2 = 0; std::string s2; size_t v2 = 0, m2 = 0;
        snap(l2, i2, s2, v2, m2);
        VX_CHECK(l2 == leafWas && i2 == intWas && s2 == strWas && v2 == vecWas && m2 == mapWas, "const-modified",
                "%s changed the const %s the handle denotes", mutName[m], tyName[h.t]);
        VX_CHECK(top == top0 && mid == mid0 && leaf == leaf0, "const-modified",
                "%s through a handle derived from a const object changed it", mutName[m]);
        vx::outcome(err ? "const: refused" : "const: unchanged");
    }
    else {
        // const members stay what they were whatever was done around them
        VX_CHECK(top.cmid == top0.cmid && top.cleaf == top0.cleaf && mid.cleaf == mid0.cleaf, "const-modified",
                "%s changed a const member", mutName[m]);
        static const int effective[] = { mAssignCopy, mAssignMove, mCompound, mInc, mMethod, mCustom, mFieldAssign, mFieldCompound,
            mContainerClear, mContainerIndex, mMapIndexNew, mPushBack };
        bool eff = false; for (int e : effective) eff = eff || e == m;
        if (eff && (h.lv || m == mFieldAssign || m == mFieldCompound)) {
            VX_CHECK(!err, "refused-mutation", "%s on a modifiable %s fails: %s", mutName[m], tyName[h.t], what.c_str());
            vx::outcome("mutable: changed");
            if (!stored) VX_CHECK(!(top == top0 && mid == mid0 && leaf == leaf0), "mutation-lost",
                    "%s on a modifiable %s of the caller had no effect", mutName[m], tyName[h.t]);
        }
        else vx::outcome(err ? "mutable: refused" : "mutable: done");
    }
}

} // namespace

VX_SUITE_D(derivations, 3) { body(vx::pick(3, 4)); }
