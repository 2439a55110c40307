// Runtime of mc.h. Compiled WITHOUT -fsanitize=thread.
#include "mc.h"
#include "vx.h"
#include <cxxabi.h>
#include <dlfcn.h>
#include <errno.h>
#include <malloc.h>
#include <pthread.h>
#include <semaphore.h>
#include <stdarg.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <map>
#include <unordered_map>
#include <atomic>

extern "C" void* __libc_malloc(size_t);
extern "C" void __libc_free(void*);
extern "C" void* __libc_calloc(size_t, size_t);
extern "C" void* __libc_realloc(void*, size_t);
extern "C" void* __libc_memalign(size_t, size_t);

namespace mc { const char* raceKey = "data-race"; }

namespace {

enum { MaxT = 3 };
typedef uint32_t Clock;
struct VC { Clock c[MaxT]; VC() { memset(c, 0, sizeof c); } void join(const VC& o) { for (int i = 0; i < MaxT; ++i) if (o.c[i] > c[i]) c[i] = o.c[i]; } };

enum Wait { None, WMutex, WRead, WWrite, WGuard, WOnce, WCond, Done };
struct Recent { uintptr_t a; size_t n; Clock clock; bool write; uint64_t epoch; };
uint64_t epoch = 1;      // grows whenever another thread gets to run
struct Th
{
    int id; pthread_t p; sem_t sem; VC vc; Wait wait; void* on; bool woken, committed;
    const std::function<void()>* body;
    uintptr_t stackLo, stackHi; Recent recent[256];
} ths[MaxT];
int nth = 0, budget = 0, running = -1;
uint64_t points = 0;

__thread Th* self = nullptr;
__thread int inside = 0;    // in the runtime: accesses and locks are its own

struct In { In() { ++inside; } ~In() { --inside; } };
inline bool managed() { return self && !inside; }

struct Mutex { int owner, count; VC vc; Mutex() : owner(-1), count(0) {} };
struct RW { int writer; int readers[MaxT]; VC vc, rvc; RW() : writer(-1) { memset(readers, 0, sizeof readers); } bool anyReader(int but) { for (int i = 0; i < MaxT; ++i) if (i != but && readers[i]) return true; return false; } };
struct Sync { VC vc; int owner; int users; Sync() : owner(-1), users(0) {} };
std::map<void*, Mutex>* mutexes; std::map<void*, RW>* rws; std::map<void*, Sync>* syncs;

struct ByteCell { Clock w[MaxT], r[MaxT], aw[MaxT]; };
// one cell for all eight bytes until somebody touches only some of them
struct Gran { ByteCell whole; ByteCell* b; void* wpc[MaxT]; void* rpc[MaxT]; };
std::unordered_map<uintptr_t, Gran*>* shadow;

Gran* gran(uintptr_t a)
{
    Gran*& g = (*shadow)[a >> 3];
    if (!g) { g = (Gran*) __libc_calloc(1, sizeof(Gran)); }
    return g;
}

std::string symbol(void* pc)
{
    Dl_info i;
    if (!pc || !dladdr(pc, &i) || !i.dli_sname) return pc ? vx::fmt("%p", pc) : "?";
    int st; char* d = abi::__cxa_demangle(i.dli_sname, nullptr, nullptr, &st);
    std::string s = d ? d : i.dli_sname;
    if (d) free(d);
    if (s.size() > 220) s = s.substr(0, 200) + "...";
    return s;
}

void race(const char* what, void* pc, const char* other, void* opc, int u)
{
    vx::failNow(mc::raceKey, "data race: thread %d %s in <%s> and thread %d %s in <%s> are unordered", self->id, what, symbol(pc).c_str(), u, other, symbol(opc).c_str());
}

void access(const void* p, size_t n, bool write, void* pc, bool atomic = false)
{
    if (!managed()) return;
    Th* t = self; int id = t->id;
    uintptr_t a = (uintptr_t) p;
    if (a >= t->stackLo && a < t->stackHi) return;  // its own stack, which nobody else refers to
    // the very same access again, nothing in between
    Recent& rc = t->recent[(a ^ (a >> 6)) & 255];
    if (rc.a == a && rc.n == n && rc.clock == t->vc.c[id] && (rc.write || !write) && !atomic && rc.epoch == epoch) return;
    In in;
    for (size_t i = 0; i < n; ) {
        Gran* g = gran(a + i);
        size_t off = (a + i) & 7, m = std::min<size_t>(8 - off, n - i);
        if (m < 8 && !g->b) {
            g->b = (ByteCell*) __libc_malloc(8 * sizeof(ByteCell));
            for (int k = 0; k < 8; ++k) g->b[k] = g->whole;
        }
        for (size_t k = 0; k < (g->b ? m : 1); ++k) {
            ByteCell& b = g->b ? g->b[off + k] : g->whole;
            for (int u = 0; u < nth; ++u) if (u != id) {
                if (b.w[u] > t->vc.c[u]) race(write ? "writes" : "reads", pc, "writes", g->wpc[u], u);
                if (!atomic && b.aw[u] > t->vc.c[u]) race(write ? "writes" : "reads", pc, "writes (atomically)", g->wpc[u], u);
                if (write && b.r[u] > t->vc.c[u]) race("writes", pc, "reads", g->rpc[u], u);
            }
            if (write) (atomic ? b.aw : b.w)[id] = t->vc.c[id];
            else if (!atomic) b.r[id] = t->vc.c[id];
        }
        if (write) g->wpc[id] = pc; else g->rpc[id] = pc;
        i += m;
    }
    if (!atomic) { rc.a = a; rc.n = n; rc.clock = t->vc.c[id]; rc.write = write; rc.epoch = epoch; }
}

void clearShadow(void* p, size_t n)
{
    for (uintptr_t a = (uintptr_t) p & ~7ul; a < (uintptr_t) p + n; a += 8) {
        auto it = shadow->find(a >> 3);
        if (it != shadow->end() && it->second) { it->second->b = nullptr; memset(it->second, 0, sizeof(Gran)); }
    }
}

// ---- scheduling -----------------------------------------------------------

bool enabled(Th& t)
{
    switch (t.wait) {
    case None: return true;
    case WMutex: { Mutex& m = (*mutexes)[t.on]; return m.owner < 0 || m.owner == t.id; }
    case WRead: { RW& r = (*rws)[t.on]; return r.writer < 0; }
    case WWrite: { RW& r = (*rws)[t.on]; return r.writer < 0 && !r.anyReader(-1); }
    case WGuard: return !((char*) t.on)[1];
    case WOnce: return *(int*) t.on != 1;
    case WCond: return t.woken;
    default: return false;
    }
}

const char* waitName(Wait w) { const char* n[] = { "ready", "a mutex", "a read lock", "a write lock", "a static's initialisation", "call_once", "a condition", "done" }; return n[w]; }

void switchTo(int id)
{
    Th* me = self;
    running = id;
    if (me && me->id == id) return;
    ++epoch;
    sem_post(&ths[id].sem);
    if (me && me->wait != Done) while (sem_wait(&me->sem)) {}
}

// The running thread is at a scheduling point; picks who goes on.
void reschedule()
{
    if (++points > 20000) vx::failNow("livelock", "more than 20000 scheduling points");
    int cand[MaxT], n = 0;
    bool cur = self && self->wait != Done && enabled(*self);
    if (cur) cand[n++] = self->id;
    if (!cur || budget > 0)
        for (int i = 0; i < nth; ++i) if ((!cur || i != self->id) && ths[i].wait != Done && enabled(ths[i])) cand[n++] = i;
    if (!n) {
        std::string w; bool all = true;
        for (int i = 0; i < nth; ++i) if (ths[i].wait != Done) { all = false; w += vx::fmt(" thread %d waits for %s %p;", i, waitName(ths[i].wait), ths[i].on); }
        if (!all) vx::failNow("deadlock", "deadlock:%s", w.c_str());
        return;
    }
    int c = vx::choose(n, n > 1 ? "schedule" : "");
    vx::step();
    if (cur && c) budget--;
    vx::state(vx::pathHash());
    if (vx::tracing() && self && cand[c] != self->id) vx::note("  -> thread %d", cand[c]);
    switchTo(cand[c]);
}

void block(Wait w, void* on) { self->wait = w; self->on = on; reschedule(); self->wait = None; }
void point() { self->wait = None; reschedule(); self->committed = false; }

/* Where a switch is needed (Lipton): acquiring a lock commutes to the right of
 * other threads' operations and releasing one to the left, so between two
 * switch points a thread may run  acquire* (any one other operation)? release*. */
void acquirePoint() { if (self->committed) point(); }
void actionPoint() { if (self->committed) point(); self->committed = true; }
void released() { self->committed = true; }

void* threadMain(void* p)
{
    Th* t = (Th*) p;
    while (sem_wait(&t->sem)) {}
    uintptr_t here = (uintptr_t) __builtin_frame_address(0);
    t->stackHi = here + 4096; t->stackLo = here - (1 << 20);
    self = t;
    try { (*t->body)(); }
    catch (vx::Violation&) { inside = 1; }
    catch (vx::KnownHit&) { inside = 1; }
    catch (std::exception& e) { inside = 1; vx::failNow("unexpected-exception", "thread %d: uncaught exception: %s", t->id, e.what()); }
    ++inside;
    t->wait = Done;
    reschedule();
    return nullptr;
}

void lockMutex(void* m, bool recursive)
{
    In in;
    Mutex* mx = &(*mutexes)[m];
    if (mx->owner == self->id) {
        if (!recursive) { vx::failNow("deadlock", "thread %d locks a mutex it already holds", self->id); }
        mx->count++; return;
    }
    acquirePoint();
    if (mx->owner >= 0) block(WMutex, m);
    mx->owner = self->id; mx->count = 1;
    self->vc.join(mx->vc);
}
int tryMutex(void* m, bool recursive)
{
    In in; actionPoint();
    Mutex* mx = &(*mutexes)[m];
    if (mx->owner == self->id && recursive) { mx->count++; return 0; }
    if (mx->owner >= 0) return EBUSY;
    mx->owner = self->id; mx->count = 1; self->vc.join(mx->vc);
    return 0;
}
void unlockMutex(void* m)
{
    In in;
    Mutex* mx = &(*mutexes)[m];
    if (mx->owner != self->id) vx::failNow("bad-unlock", "thread %d unlocks a mutex it does not hold", self->id);
    if (--mx->count) return;
    mx->owner = -1; mx->vc = self->vc; self->vc.c[self->id]++;
    released();
}
bool isRecursive(pthread_mutex_t* m) { return (m->__data.__kind & 3) == PTHREAD_MUTEX_RECURSIVE_NP; }

} // namespace

namespace mc {
void run(const std::vector<std::function<void()>>& bodies, int preemptions)
{
    mutexes = new std::map<void*, Mutex>; rws = new std::map<void*, RW>; syncs = new std::map<void*, Sync>;
    shadow = new std::unordered_map<uintptr_t, Gran*>; shadow->reserve(1 << 14);
    nth = bodies.size(); budget = preemptions; points = 0;
    for (int i = 0; i < nth; ++i) {
        Th& t = ths[i]; t.id = i; t.wait = None; t.on = nullptr; t.woken = false; t.committed = false; t.body = &bodies[i]; t.vc.c[i] = 1;
        sem_init(&t.sem, 0, 0);
    }
    pthread_attr_t at; pthread_attr_init(&at); pthread_attr_setstacksize(&at, 2 << 20);
    for (int i = 0; i < nth; ++i) pthread_create(&ths[i].p, &at, threadMain, &ths[i]);
    int first = vx::choose(nth, "first");
    running = first;
    sem_post(&ths[first].sem);
    for (int i = 0; i < nth; ++i) pthread_join(ths[i].p, nullptr);
}
}

extern "C" {

// ---- memory ---------------------------------------------------------------
void* malloc(size_t n)
{
    void* p = __libc_malloc(n);
    return p;
}
void* calloc(size_t a, size_t b) { return __libc_calloc(a, b); }
void* realloc(void* p, size_t n) { return __libc_realloc(p, n); }
// while threads run nothing is given back, so that no address is reused and a
// late access to a freed block is seen as a race with the freeing
void free(void* p)
{
    if (!p) return;
    if (managed()) { access(p, malloc_usable_size(p), true, __builtin_return_address(0)); return; }
    if (self) return;
    __libc_free(p);
}

#define PC __builtin_return_address(0)
void* __real_memcpy(void*, const void*, size_t); void* __real_memmove(void*, const void*, size_t);
void* __real_memset(void*, int, size_t); int __real_memcmp(const void*, const void*, size_t); size_t __real_strlen(const char*);
void* __wrap_memcpy(void* d, const void* s, size_t n) { access(s, n, false, PC); access(d, n, true, PC); return __real_memcpy(d, s, n); }
void* __wrap_memmove(void* d, const void* s, size_t n) { access(s, n, false, PC); access(d, n, true, PC); return __real_memmove(d, s, n); }
void* __wrap_memset(void* d, int c, size_t n) { access(d, n, true, PC); return __real_memset(d, c, n); }
void* __real_memchr(const void*, int, size_t); int __real_strcmp(const char*, const char*); int __real_vsnprintf(char*, size_t, const char*, va_list);
void* __wrap_memchr(const void* s, int c, size_t n) { void* r = __real_memchr(s, c, n); access(s, r ? (char*) r - (char*) s + 1 : n, false, PC); return r; }
size_t __wrap_strlen(const char* s) { size_t n = __real_strlen(s); access(s, n + 1, false, PC); return n; }
int __wrap_strcmp(const char* a, const char* b) { size_t n = 0; while (a[n] && a[n] == b[n]) ++n; access(a, n + 1, false, PC); access(b, n + 1, false, PC); return __real_strcmp(a, b); }
static int written(char* d, size_t n, const char* f, va_list ap, void* pc)
{
    int r = __real_vsnprintf(d, n, f, ap);
    if (n) access(d, r < 0 ? 1 : size_t(r) < n ? r + 1 : n, true, pc);
    return r;
}
int __wrap_vsnprintf(char* d, size_t n, const char* f, va_list ap) { return written(d, n, f, ap, PC); }
int __wrap_snprintf(char* d, size_t n, const char* f, ...) { va_list ap; va_start(ap, f); int r = written(d, n, f, ap, PC); va_end(ap); return r; }
long __real_strtol(const char*, char**, int); long long __real_strtoll(const char*, char**, int); unsigned long long __real_strtoull(const char*, char**, int); double __real_strtod(const char*, char**);
#define STRTO(R, f) R __wrap_##f(const char* s, char** end, int base) { char* e; R r = __real_##f(s, &e, base); access(s, e - s + 1, false, PC); if (end) { access(end, sizeof end, true, PC); *end = e; } return r; }
STRTO(long, strtol) STRTO(long long, strtoll) STRTO(unsigned long long, strtoull)
double __wrap_strtod(const char* s, char** end) { char* e; double r = __real_strtod(s, &e); access(s, e - s + 1, false, PC); if (end) { access(end, sizeof end, true, PC); *end = e; } return r; }
int __wrap_memcmp(const void* a, const void* b, size_t n) { access(a, n, false, PC); access(b, n, false, PC); return __real_memcmp(a, b, n); }

void __tsan_init() {}
void __tsan_func_entry(void*) {}
void __tsan_func_exit() {}
#define RW(N) \
    void __tsan_read##N(void* p) { access(p, N, false, PC); } \
    void __tsan_write##N(void* p) { access(p, N, true, PC); } \
    void __tsan_unaligned_read##N(void* p) { access(p, N, false, PC); } \
    void __tsan_unaligned_write##N(void* p) { access(p, N, true, PC); } \
    void __tsan_volatile_read##N(void* p) { access(p, N, false, PC); } \
    void __tsan_volatile_write##N(void* p) { access(p, N, true, PC); }
RW(1) RW(2) RW(4) RW(8) RW(16)
void __tsan_read_range(void* p, size_t n) { access(p, n, false, PC); }
void __tsan_write_range(void* p, size_t n) { access(p, n, true, PC); }
void __tsan_vptr_update(void** p, void* v) { if (*p != v) access(p, 8, true, PC); }
void __tsan_vptr_read(void** p) { access(p, 8, false, PC); }

// ---- atomics --------------------------------------------------------------
static void atomicPoint(void* p)
{
    In in;
    Sync& s = (*syncs)[p];
    bool shared = s.users & ~(1 << self->id);
    s.users |= 1 << self->id;
    if (shared) actionPoint();
}
static void acq(void* p, int mo) { if (mo == __ATOMIC_RELAXED || mo == __ATOMIC_RELEASE) return; In in; self->vc.join((*syncs)[p].vc); }
static void rel(void* p, int mo, bool rmw)
{
    In in; Sync& s = (*syncs)[p];
    if (mo == __ATOMIC_RELAXED || mo == __ATOMIC_ACQUIRE || mo == __ATOMIC_CONSUME) { if (!rmw) s.vc = VC(); return; }
    if (rmw) s.vc.join(self->vc); else s.vc = self->vc;
    self->vc.c[self->id]++;
}
#define ATOMIC(B, T) \
    T __tsan_atomic##B##_load(const volatile T* p, int mo) { if (managed()) { atomicPoint((void*) p); access((void*) p, sizeof(T), false, PC, true); acq((void*) p, mo); } return __atomic_load_n(p, __ATOMIC_SEQ_CST); } \
    void __tsan_atomic##B##_store(volatile T* p, T v, int mo) { if (managed()) { atomicPoint((void*) p); access((void*) p, sizeof(T), true, PC, true); rel((void*) p, mo, false); } __atomic_store_n(p, v, __ATOMIC_SEQ_CST); } \
    T __tsan_atomic##B##_exchange(volatile T* p, T v, int mo) { if (managed()) { atomicPoint((void*) p); access((void*) p, sizeof(T), true, PC, true); acq((void*) p, mo); rel((void*) p, mo, true); } return __atomic_exchange_n(p, v, __ATOMIC_SEQ_CST); } \
    int __tsan_atomic##B##_compare_exchange_strong(volatile T* p, T* e, T v, int mo, int) { if (managed()) { atomicPoint((void*) p); access((void*) p, sizeof(T), true, PC, true); acq((void*) p, mo); rel((void*) p, mo, true); } return __atomic_compare_exchange_n(p, e, v, 0, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); } \
    int __tsan_atomic##B##_compare_exchange_weak(volatile T* p, T* e, T v, int mo, int fmo) { return __tsan_atomic##B##_compare_exchange_strong(p, e, v, mo, fmo); } \
    T __tsan_atomic##B##_compare_exchange_val(volatile T* p, T e, T v, int mo, int fmo) { __tsan_atomic##B##_compare_exchange_strong(p, &e, v, mo, fmo); return e; } \
    OP(B, T, add) OP(B, T, sub) OP(B, T, and) OP(B, T, or) OP(B, T, xor) OP(B, T, nand)
#define OP(B, T, o) \
    T __tsan_atomic##B##_fetch_##o(volatile T* p, T v, int mo) { if (managed()) { atomicPoint((void*) p); access((void*) p, sizeof(T), true, PC, true); acq((void*) p, mo); rel((void*) p, mo, true); } return __atomic_fetch_##o(p, v, __ATOMIC_SEQ_CST); }
ATOMIC(8, uint8_t) ATOMIC(16, uint16_t) ATOMIC(32, uint32_t) ATOMIC(64, uint64_t)
void __tsan_atomic_thread_fence(int) {}
void __tsan_atomic_signal_fence(int) {}

// ---- synchronisation ------------------------------------------------------
// Outside managed threads there is a single thread: locks are no-ops.
int pthread_mutex_lock(pthread_mutex_t* m) { if (managed()) lockMutex(m, isRecursive(m)); return 0; }
int pthread_mutex_trylock(pthread_mutex_t* m) { return managed() ? tryMutex(m, isRecursive(m)) : 0; }
int pthread_mutex_unlock(pthread_mutex_t* m) { if (managed()) unlockMutex(m); return 0; }
int pthread_spin_lock(pthread_spinlock_t* m) { if (managed()) lockMutex((void*) m, false); return 0; }
int pthread_spin_trylock(pthread_spinlock_t* m) { return managed() ? tryMutex((void*) m, false) : 0; }
int pthread_spin_unlock(pthread_spinlock_t* m) { if (managed()) unlockMutex((void*) m); return 0; }

int pthread_rwlock_rdlock(pthread_rwlock_t* l)
{
    if (!managed()) return 0;
    In in; actionPoint();
    if ((*rws)[l].writer == self->id) vx::failNow("deadlock", "thread %d read-locks what it write-locked", self->id);
    if ((*rws)[l].writer >= 0) block(WRead, l);
    RW& r = (*rws)[l]; r.readers[self->id]++; self->vc.join(r.vc);
    return 0;
}
int pthread_rwlock_wrlock(pthread_rwlock_t* l)
{
    if (!managed()) return 0;
    In in; actionPoint();
    RW& r = (*rws)[l];
    if (r.writer == self->id || r.readers[self->id]) vx::failNow("deadlock", "thread %d write-locks what it holds", self->id);
    if (r.writer >= 0 || r.anyReader(-1)) block(WWrite, l);
    r.writer = self->id; self->vc.join(r.vc); self->vc.join(r.rvc);
    return 0;
}
int pthread_rwlock_tryrdlock(pthread_rwlock_t* l) { if (!managed()) return 0; { In in; actionPoint(); if ((*rws)[l].writer >= 0) return EBUSY; } return pthread_rwlock_rdlock(l); }
int pthread_rwlock_trywrlock(pthread_rwlock_t* l) { if (!managed()) return 0; { In in; actionPoint(); if ((*rws)[l].writer >= 0 || (*rws)[l].anyReader(-1)) return EBUSY; } return pthread_rwlock_wrlock(l); }
int pthread_rwlock_unlock(pthread_rwlock_t* l)
{
    if (!managed()) return 0;
    In in; RW& r = (*rws)[l];
    if (r.writer == self->id) { r.writer = -1; r.vc = self->vc; }
    else if (r.readers[self->id]) { r.readers[self->id]--; r.rvc.join(self->vc); }
    else vx::failNow("bad-unlock", "thread %d unlocks a rwlock it does not hold", self->id);
    self->vc.c[self->id]++; released();
    return 0;
}

int pthread_once(pthread_once_t* o, void (*f)())
{
    if (!managed()) { if (*o != 2) { *o = 1; try { f(); } catch (...) { *o = 0; throw; } *o = 2; } return 0; }
    {
        In in; actionPoint();
        while (*o == 1) block(WOnce, o);
        self->vc.join((*syncs)[o].vc);
        if (*o == 2) return 0;
        *o = 1;
    }
    try { f(); } catch (...) { *o = 0; throw; }
    In in; *o = 2; (*syncs)[o].vc = self->vc; self->vc.c[self->id]++; released();
    return 0;
}

static void condWake(void* c, bool all)
{
    for (int i = 0; i < nth; ++i) if (ths[i].wait == WCond && ths[i].on == c && !ths[i].woken) { ths[i].woken = true; if (!all) return; }
}
int pthread_cond_wait(pthread_cond_t* c, pthread_mutex_t* m)
{
    if (!managed()) return 0;
    unlockMutex(m);
    { In in; self->woken = false; block(WCond, c); }
    lockMutex(m, isRecursive(m));
    return 0;
}
int pthread_cond_signal(pthread_cond_t* c) { if (managed()) { In in; actionPoint(); condWake(c, false); } return 0; }
int pthread_cond_broadcast(pthread_cond_t* c) { if (managed()) { In in; actionPoint(); condWake(c, true); } return 0; }

int __cxa_guard_acquire(uint64_t* g)
{
    volatile char* b = (volatile char*) g;
    if (!managed()) { if (b[0]) return 0; b[1] = 1; return 1; }
    In in; actionPoint();
    if (b[1]) {
        if ((*syncs)[g].owner == self->id) vx::failNow("deadlock", "thread %d recursively initialises a static", self->id);
        block(WGuard, g);
    }
    self->vc.join((*syncs)[g].vc);
    if (b[0]) return 0;
    b[1] = 1; (*syncs)[g].owner = self->id;
    return 1;
}
void __cxa_guard_release(uint64_t* g)
{
    volatile char* b = (volatile char*) g;
    b[1] = 0; b[0] = 1;
    if (managed()) { In in; Sync& s = (*syncs)[g]; s.vc = self->vc; s.owner = -1; self->vc.c[self->id]++; released(); }
}
void __cxa_guard_abort(uint64_t* g) { ((volatile char*) g)[1] = 0; if (managed()) { In in; (*syncs)[g].owner = -1; released(); } }

} // extern C
