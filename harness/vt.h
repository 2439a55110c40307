/* vt.h - instrumented user types shared by the harnesses. */
#pragma once
#include "reflect.h"
#include "dsl/all.h"
#include "types/primitives.h"
#include "types/std/string.h"
#include "vx.h"
#include <map>
#include <set>

namespace vt {

/* Every construction and destruction is recorded; a construction over a live
 * object, a use of a dead one or a double destruction is remembered and reported
 * by checkLife(). */
struct Life
{
    std::map<const void*, int> live;   // address -> serial
    int serial; uint64_t ctors, dtors, copies, moves;
    std::string error;
    Life() : serial(0), ctors(0), dtors(0), copies(0), moves(0) {}
    void born(const void* p)
    {
        ctors++;
        if (!live.insert(std::make_pair(p, ++serial)).second && error.empty())
            error = "object constructed on top of a live object";
    }
    void dead(const void* p)
    {
        dtors++;
        if (!live.erase(p) && error.empty()) error = "object destroyed that is not alive (double destruction?)";
    }
    void used(const void* p, const char* how)
    {
        if (!live.count(p) && error.empty()) error = std::string("dead object used: ") + how;
    }
    void reset() { live.clear(); ctors = dtors = copies = moves = 0; serial = 0; error.clear(); }
};
inline Life& life() { static Life* l = new Life; return *l; }
inline void checkLife(const char* key = "lifetime")
{ if (!life().error.empty()) vx::fail(key, "%s", life().error.c_str()); }

enum { Moved = -7777 };

template<int Tag>
struct TrackedT
{
    int v;
    TrackedT() : v(0) { life().born(this); }
    explicit TrackedT(int v) : v(v) { life().born(this); }
    TrackedT(const TrackedT& o) : v(o.v) { life().used(&o, "copied from"); life().born(this); life().copies++; }
    TrackedT(TrackedT&& o) : v(o.v) { life().used(&o, "moved from"); life().born(this); o.v = Moved; life().moves++; }
    TrackedT& operator=(const TrackedT& o)
    { life().used(this, "assigned"); life().used(&o, "assigned from"); v = o.v; life().copies++; return *this; }
    TrackedT& operator=(TrackedT&& o)
    {
        life().used(this, "assigned"); life().used(&o, "move-assigned from");
        if (this != &o) { v = o.v; o.v = Moved; }
        life().moves++;
        return *this;
    }
    ~TrackedT() { life().dead(this); v = -9999; }
    bool operator==(const TrackedT& o) const { return v == o.v; }
    int get() const { life().used(this, "called"); return v; }
    void set(int x) { life().used(this, "called"); v = x; }
};
typedef TrackedT<0> Tracked;

/* Runs f; true if it reported a reflect::Error. */
template<typename F>
bool errs(F f, std::string* what = nullptr)
{
    try { f(); }
    catch (const reflect::Error& e) { if (what) *what = e.what(); return true; }
    return false;
}

} // namespace vt
