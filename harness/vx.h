/* vx.h - bounded exhaustive explorer.
 *
 * A suite is a deterministic body which asks choose(n) whenever the world
 * could go n ways.  The explorer runs the body on EVERY choice sequence
 * (stateless depth-first search: the body is re-executed from scratch for each
 * leaf), split over shards.  Nothing is sampled.
 *
 * The current choice sequence lives in a file mapped MAP_SHARED, so when the
 * code under test crashes, aborts or hangs the driver still knows exactly which
 * execution it was and can replay it alone.
 */
#pragma once
#include <cstdint>
#include <cstddef>
#include <cstdarg>
#include <cstdio>
#include <string>
#include <vector>

namespace vx {

struct Violation {};   // thrown by fail(); deliberately not a std::exception
struct KnownHit {};    // a listed known finding: this execution ends here
struct Skip {};        // subtree belongs to another shard

int choose(int n, const char* what = "");
inline bool flip(const char* what = "") { return choose(2, what); }

// Reports a violation of the property under check and ends the execution.
// key identifies the class of failure (matched against known-findings.json).
[[noreturn]] void fail(const char* key, const char* fmt, ...)
    __attribute__((format(printf, 2, 3)));
// True (and counted) if key is a listed known finding.
bool known(const char* key);

#define VX_CHECK(cond, key, ...) \
    do { if (!(cond)) ::vx::fail(key, __VA_ARGS__); } while (0)

// Human-readable trace line; only materialised for replays and samples.
bool tracing();
void note(const char* fmt, ...) __attribute__((format(printf, 1, 2)));
#define VX_NOTE(...) do { if (::vx::tracing()) ::vx::note(__VA_ARGS__); } while (0)

void step(uint64_t n = 1);              // one transition taken on the implementation
void state(uint64_t hash);              // a state of the reference model was visited
void outcome(const char* label);        // observed outcome class (vacuity evidence)
void assume(bool ok);                   // prune: execution is outside the space

bool thorough();
inline int pick(int quick, int thor) { return thorough() ? thor : quick; }
const std::string& option(const char* name);

uint64_t hashBytes(const void* p, size_t n, uint64_t seed = 0x9e3779b97f4a7c15ull);
inline uint64_t hashStr(const std::string& s, uint64_t seed = 0x9e3779b97f4a7c15ull)
{ return hashBytes(s.data(), s.size(), seed); }
inline uint64_t mix(uint64_t a, uint64_t b)
{ uint64_t x[2] = {a, b}; return hashBytes(x, sizeof x); }

std::string fmt(const char* f, ...) __attribute__((format(printf, 1, 2)));
std::string show(const std::string& bytes);    // printable rendering

struct Suite
{
    Suite(const char* name, void (*body)(), int shardDepth = 2);
    const char* name;
    void (*body)();
    int shardDepth;
};

#define VX_SUITE_D(id, depth)                                   \
    static void vx_body_##id();                                 \
    static ::vx::Suite vx_suite_##id(#id, &vx_body_##id, depth);\
    static void vx_body_##id()
#define VX_SUITE(id) VX_SUITE_D(id, 2)

// Runs f in a forked copy of the process, whose choices become part of this
// execution: every execution starts from the very same process image, whatever
// globals the code under test keeps.  Call at most once, as the body's last act.
void isolated(void (*f)(void*), void* arg);
template<typename F> void isolated(F f) { isolated([] (void* p) { (*static_cast<F*>(p))(); }, &f); }
// In an isolated run: ends the execution on the spot, from any thread.
[[noreturn]] void failNow(const char* key, const char* fmt, ...) __attribute__((format(printf, 2, 3)));

uint64_t executionId();  // unique number of this execution in this process
uint64_t pathHash();         // hash of the choices made so far: the state, where no two histories need be told apart

} // namespace vx
