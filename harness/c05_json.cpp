// C05, JSON: no document changes anything through a const handle.
#include "vt.h"
#include "types/std/vector.h"
#include "types/std/map.h"
#include "types/std/smart_ptr.h"
#include "utils/json.h"
using namespace reflect;

namespace k5j {
struct Own { int64_t a; std::string t; Own() : a(1), t("own") {} bool operator==(const Own& o) const { return a == o.a && t == o.t; } };
struct In
{
    int64_t x; std::string s; bool b; double d;
    std::vector<int64_t> v; std::map<std::string, int64_t> m; std::shared_ptr<int64_t> p; Own own;
    In() : x(1), s("one"), b(true), d(1.5), v(1, 7) { m["k"] = 5; }
    bool operator==(const In& o) const { return x == o.x && s == o.s && b == o.b && d == o.d && v == o.v && m == o.m && p == o.p && own == o.own; }
};
struct Out
{
    In in; const In cin; const int64_t cx; std::vector<In> list; std::map<std::string, In> dict;
    Out() : cx(3), list(1) { dict["i"] = In(); }
    Out(const Out&) = default;
    bool operator==(const Out& o) const { return in == o.in && cin == o.cin && cx == o.cx && list == o.list && dict == o.dict; }
};
} // namespace k5j
using namespace k5j;

reflectType(k5j::Own)
{
    reflectPlumbing(); reflectField(a); reflectField(t);
    reflectTypeValue(json, json::custom("parseIt", "printIt"));
    reflectCustom(parseIt) (k5j::Own& o, json::Reader& r) { o.a = json::parseInt(r); };
    reflectCustom(printIt) (const k5j::Own& o, json::Writer& w) { json::formatInt(w, o.a); };
}
reflectType(k5j::In) { reflectPlumbing(); reflectField(x); reflectField(s); reflectField(b); reflectField(d); reflectField(v); reflectField(m); reflectField(p); reflectField(own); }
reflectType(k5j::Out) { reflectPlumbing(); reflectField(in); reflectField(cin); reflectField(cx); reflectField(list); reflectField(dict); }

namespace {

struct Piece { const char* text; bool writes; };    // whether it writes to the object it's for
const Piece pieces[] = {
    { "{}", false }, { "{\"x\":9}", true }, { "{\"s\":\"nine\"}", true }, { "{\"b\":false}", true }, { "{\"d\":9.5}", true }, { "{\"d\":9}", true },
    { "{\"v\":[]}", false }, { "{\"v\":[9]}", true }, { "{\"v\":[9,8,7,6,5,4,3,2,1]}", true }, { "{\"m\":{}}", false }, { "{\"m\":{\"k\":9}}", true }, { "{\"m\":{\"new\":9}}", true },
    { "{\"p\":null}", true }, { "{\"p\":9}", true }, { "{\"own\":9}", true }, { "{\"zz\":[1,{\"x\":2}]}", false }, { "{\"zz\":1,\"x\":9,\"s\":\"t\"}", true }, { "null", false },
    { "{\"v\":null,\"m\":null}", false } };
enum { NPieces = sizeof pieces / sizeof *pieces };

enum Start { gCRef, gToConst, gCopyOfConst, gField, gCField, gFieldOfC, gThroughFn, gNested, gMut, gMutField, gStored, gStoredConst, NStarts };
const char* startName[] = { "const In&", "toConst()", "a copy of a const handle", "member of a const Out", "const member", "member of a const member handle",
    "returned as const In&", "element of a const vector", "In&", "member of Out", "stored", "stored .toConst()" };

} // namespace

VX_SUITE_D(json, 2)
{
    Out out, was(out); const Out& cout = out; In in, inWas(in); const In& cin = in; In got;
    int st = vx::choose(NStarts, "start"), pc = vx::choose(NPieces, "document"), via = vx::choose(3, "entry"), twice = vx::choose(2, "again");
    VX_NOTE("%s, %s", startName[st], pieces[pc].text);
    Value h;
    static Function cid("cid", [] (const In& i) -> const In& { return i; });
    switch (st) {
    case gCRef: h = Value(cin); break;
    case gToConst: h = Value(in).toConst(); break;
    case gCopyOfConst: { Value a(cin); Value b(a); h = b; break; }
    case gField: h = Value(cout).field("in"); break;
    case gCField: h = Value(out).field("cin"); break;
    case gFieldOfC: h = Value(out).toConst().field("cin"); break;
    case gThroughFn: h = cid.call<Value>(in); break;
    case gNested: h = Value(cout).field("list").call<Value>("at", size_t(0)); break;
    case gMut: h = Value(in); break;
    case gMutField: h = Value(out).field("in"); break;
    case gStored: h = Value(In()); break;
    case gStoredConst: h = Value(In()).toConst(); break;
    }
    bool cst = !(st == gMut || st == gMutField || st == gStored);
    VX_CHECK(h.isConst() == cst, "constness", "%s: isConst() is %d", startName[st], h.isConst());
    Value keep = h; const In* target = static_cast<const In*>(h.value()); In before(*target);
    auto once = [&] () -> bool {
        bool reported = false;
        try {
            std::string doc = pieces[pc].text; std::istringstream s(doc); json::Reader r(s);
            if (via == 0) { json::parse(r, h); reported = bool(r.error()); }
            else if (via == 1) { json::Error e = json::parse(s, h); reported = bool(e); }
            else reported = bool(json::parse(doc, h));
        }
        catch (const Error&) { reported = true; }
        vx::step();
        return reported;
    };
    bool reported = once(); if (twice) { bool r2 = once(); VX_CHECK(r2 == reported, "again", "%s: the second attempt ends differently", pieces[pc].text); }
    if (cst) {
        VX_CHECK(*target == before, "const-modified", "parsing %s changes the object a const handle (%s) denotes", pieces[pc].text, startName[st]);
        VX_CHECK(out == was && in == inWas, "const-modified", "parsing %s through a const handle (%s) changes an object", pieces[pc].text, startName[st]);
        VX_CHECK(reported == pieces[pc].writes, reported ? "refused" : "silent", "parsing %s into a const handle (%s) %s", pieces[pc].text, startName[st], reported ? "fails although there's nothing to write" : "reports nothing");
        vx::outcome(reported ? "const: refused" : "const: nothing to write");
    }
    else {
        VX_CHECK(!reported, "refused-mutation", "parsing %s into a modifiable object (%s) fails", pieces[pc].text, startName[st]);
        bool null = std::string(pieces[pc].text).find("null") != std::string::npos;
        VX_CHECK((!(*target == before)) == (pieces[pc].writes && !null), "mutation-lost", "parsing %s into a modifiable object (%s) has no effect", pieces[pc].text, startName[st]);
        vx::outcome("mutable: done");
    }
    vx::state(vx::mix(st * 64 + pc, reported));
}

// members which are const in an object which isn't; and whole documents
VX_SUITE_D(json_members, 2)
{
    Out out, was(out); const Out& cout = out;
    struct D { const char* text; bool bad; };
    static const D docs[] = { { "{\"cx\":9}", true }, { "{\"in\":{\"x\":9},\"cx\":9}", true }, { "{\"cin\":{\"x\":9}}", true }, { "{\"cin\":{}}", false }, { "{\"cin\":{\"v\":[1]}}", true }, { "{\"cin\":{\"m\":{\"k\":1}}}", true },
        { "{\"cin\":{\"zz\":1}}", false }, { "{\"list\":[{\"x\":9}]}", false }, { "{\"dict\":{\"i\":{\"x\":9}}}", false }, { "{\"dict\":{\"j\":{}}}", false }, { "{\"in\":{\"own\":4}}", false }, { "{\"cin\":{\"own\":4}}", true }, { "{\"cin\":{\"p\":4}}", true } };
    int d = vx::choose(13, "document"); bool cst = vx::choose(2, "const"); bool typed = vx::choose(2, "typed");
    VX_NOTE("%s into %s", docs[d].text, cst ? "const Out" : "Out");
    bool reported = false;
    try {
        if (typed) reported = cst ? bool(json::parse(std::string(docs[d].text), cout)) : bool(json::parse(std::string(docs[d].text), out));
        else { Value h = cst ? Value(cout) : Value(out); reported = bool(json::parse(std::string(docs[d].text), h)); }
    }
    catch (const Error&) { reported = true; }
    vx::step();
    VX_CHECK(out.cin == was.cin && out.cx == was.cx, "const-modified", "%s changes a const member", docs[d].text);
    if (cst) VX_CHECK(out == was, "const-modified", "%s changes a const object", docs[d].text);
    static const bool nothing[] = { 0, 0, 0, 1, 0, 0, 1, 0, 0, 0, 0, 0, 0 };
    VX_CHECK(reported == (cst ? !nothing[d] : docs[d].bad), "report", "%s into %s: %s", docs[d].text, cst ? "a const object" : "an object with const members", reported ? "an error" : "no error");
    vx::outcome(reported ? "refused" : "done"); vx::state(d * 4 + cst);
}
