/* hier.h - a small family of related types used by the call-binding harnesses. */
#pragma once
#include "vt.h"

namespace h {
// Content is an int plus a marker left behind by moves.
struct Base0
{
    int v;
    Base0(int v = 0) : v(v) {}
    Base0(const Base0& o) : v(o.v) {}
    Base0(Base0&& o) : v(o.v) { o.v = vt::Moved; }
    Base0& operator=(const Base0& o) { v = o.v; return *this; }
    Base0& operator=(Base0&& o) { int t = o.v; o.v = vt::Moved; v = t; return *this; }
};
} // namespace h
#define HDEF(N, B) struct N : public B { N(int v = 0) : B(v) {} \
    N(const N&) = default; N(N&&) = default; N& operator=(const N&) = default; N& operator=(N&&) = default; }
HDEF(HA, h::Base0);         // unrelated
HDEF(HP, h::Base0);         // parent
HDEF(HC, HP);               // child
HDEF(HG, HC);               // grandchild
struct HV : public h::Base0 // converts to HP
{
    HV(int v = 0) : h::Base0(v) {}
    HV(const HV&) = default; HV(HV&&) = default;
    HV& operator=(const HV&) = default; HV& operator=(HV&&) = default;
    operator HP() const { return HP(v + 1000); }
};
HDEF(HW, HV);               // inherits the conversion
struct HX : public HP       // a child of HP which says it converts to it: as in C++ that's never used
{
    HX(int v = 0) : HP(v) {}
    HX(const HX&) = default; HX(HX&&) = default;
    HX& operator=(const HX&) = default; HX& operator=(HX&&) = default;
    operator HP() const { return HP(v + 1000); }
};

reflectTypeDecl(HA) reflectTypeDecl(HP) reflectTypeDecl(HC) reflectTypeDecl(HG) reflectTypeDecl(HV) reflectTypeDecl(HW) reflectTypeDecl(HX)
#ifdef HIER_IMPL
reflectTypeImpl(HA) { reflectPlumbing(); }
reflectTypeImpl(HP) { reflectPlumbing(); }
reflectTypeImpl(HC) { reflectPlumbing(); reflectParent(HP); }
reflectTypeImpl(HG) { reflectPlumbing(); reflectParent(HC); }
reflectTypeImpl(HV) { reflectPlumbing(); reflectOpCast(HP); }
reflectTypeImpl(HW) { reflectPlumbing(); reflectParent(HV); }
reflectTypeImpl(HX) { reflectPlumbing(); reflectParent(HP); reflectOpCast(HP); }
#endif

namespace h {
enum TypeId { tA, tP, tC, tG, tV, tW, tX, NTypes };
inline const char* typeName(int t) { static const char* n[] = {"HA","HP","HC","HG","HV","HW","HX"}; return n[t]; }
enum Kind { kCopy, kL, kCL, kR, kCR, NKinds };     // T, T&, const T&, T&&, const T&&
inline const char* kindName(int k) { static const char* n[] = {"T","T&","const T&","T&&","const T&&"}; return n[k]; }

// --- reference rules --------------------------------------------------------
inline bool derives(int from, int to)       // same or descendant
{
    if (from == to) return true;
    switch (from) { case tC: return to == tP; case tG: return to == tP || to == tC; case tW: return to == tV; case tX: return to == tP; }
    return false;
}
inline bool converts(int from, int to) { return (from == tV || from == tW) && to == tP; }
enum Bind { None, Partial, Exact };

// argument of type f and kind fk to a parameter of type t and kind tk
inline Bind binds(int f, int fk, int t, int tk)
{
    if (f == t && fk == tk) return Exact;
    if (converts(f, t)) return (tk == kL || tk == kCL) ? None : Partial;
    if (!derives(f, t)) return None;
    bool fc = fk == kCL || fk == kCR;
    bool fr = fk == kR || fk == kCR, fl = fk == kL || fk == kCL;
    switch (tk) {
    case kCopy: return fr || fk == kCopy ? Exact : Partial; // a fresh copy; exact for temporaries
    case kL:    return fl && !fc ? Exact : None;
    case kCL:   return fl && fc ? Exact : Partial;
    case kR:    return fr && !fc ? Exact : None;
    case kCR:   return fr ? (fc ? Exact : Partial) : None;
    }
    return None;
}
} // namespace h
