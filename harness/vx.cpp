#include "vx.h"
#include <fcntl.h>
#include <signal.h>
#include <sys/mman.h>
#include <sys/time.h>
#include <time.h>
#include <unistd.h>
#include <cstdlib>
#include <cstring>
#include <exception>
#include <map>
#include <set>
#include <stdexcept>
#include <algorithm>
#include <sys/wait.h>

namespace vx {
namespace {

enum { MaxChoices = 1 << 16 };

struct Shared
{
    uint64_t magic;
    volatile uint64_t executions;
    volatile uint32_t phase;        // 0 idle, 1 running body
    char suite[128];
    volatile uint32_t n;
    char key[128];
    char msg[8192];
    uint16_t choices[MaxChoices];
};

Shared* sh = nullptr;

// What an isolated child hands back besides sh.
struct Child
{
    volatile int status;            // 0 running, 1 ok, 2 violation, 3 known finding, 4 pruned
    uint32_t nstates, noutcomes, n;
    uint64_t steps;
    char knownKey[128];
    uint16_t arity[MaxChoices];
    uint64_t states[4096];
    char outcomes[64][64];
    char trace[16384];
} *child = nullptr;
bool inChild = false;

std::vector<uint16_t> path, arity;
size_t pos = 0;

bool tracingOn = false;
std::string traceText;

bool isThorough = false;
std::set<std::string> knownKeys;
std::map<std::string, uint64_t> knownHits;
std::map<std::string, std::string> options_;

int shardI = 0, shardN = 1;
std::vector<const char*> outcomesNow;
bool replaying = false;

/* Sharding: a prefix is the first `shardDepth` choices (or the whole execution
 * if it makes fewer), numbered in the order of the search. Every shard walks all
 * prefixes, so all agree on the numbering; only the owner goes beyond. */
struct Shard
{
    size_t depth; bool have, mine; uint64_t ord; std::vector<uint16_t> cur;
    void reset(size_t d) { depth = d; have = mine = false; ord = 0; cur.clear(); }
    void at(const std::vector<uint16_t>& path)
    {
        std::vector<uint16_t> p(path.begin(), path.begin() + std::min(depth, path.size()));
        if (!have || p != cur) { cur = p; have = true; mine = (ord++ % shardN) == (uint64_t)shardI; }
    }
} shard;

struct Stats
{
    uint64_t executions, transitions, pruned; size_t maxDepth; bool complete;
    std::map<std::string, uint64_t> outcomes;
    Stats() : executions(0), transitions(0), pruned(0), maxDepth(0), complete(false) {}
} *st = nullptr;

// open addressing set of state hashes
struct HashSet
{
    std::vector<uint64_t> t; size_t n;
    HashSet() : t(1 << 12, 0), n(0) {}
    bool insert(uint64_t h)
    {
        if (!h) h = 1;
        if ((n + 1) * 2 > t.size()) {
            std::vector<uint64_t> o(t.size() * 2, 0); o.swap(t); n = 0;
            for (uint64_t x : o) if (x) insert(x);
        }
        size_t m = t.size() - 1, i = (h * 0x9e3779b97f4a7c15ull >> 20) & m;
        while (t[i]) { if (t[i] == h) return false; i = (i + 1) & m; }
        t[i] = h; n++;
        return true;
    }
} states;

uint64_t execId = 0;

std::vector<Suite*>& suites() { static std::vector<Suite*> s; return s; }

double now()
{
    timespec ts; clock_gettime(CLOCK_MONOTONIC, &ts);
    return ts.tv_sec + ts.tv_nsec * 1e-9;
}

// Watchdog on process CPU time: no execution may use more than `hangSec`.
volatile uint64_t wdLast = ~0ull; volatile int wdSame = 0; int hangSec = 20;
void onAlarm(int)
{
    if (sh->phase && sh->executions == wdLast) {
        if (++wdSame >= hangSec) {
            const char m[] = "vx: execution does not terminate\n";
            if (write(2, m, sizeof m - 1)) {}
            strcpy(sh->key, "hang");
            snprintf(sh->msg, sizeof sh->msg, "execution used more than %d s of CPU", hangSec);
            _exit(97);
        }
    } else { wdSame = 0; wdLast = sh->executions; }
}

std::string jsonStr(const std::string& s)
{
    std::string r = "\"";
    for (unsigned char c : s) {
        if (c == '"' || c == '\\') { r += '\\'; r += c; }
        else if (c == '\n') r += "\\n";
        else if (c < 0x20 || c >= 0x7f) { char b[8]; snprintf(b, sizeof b, "\\u%04x", c); r += b; }
        else r += c;
    }
    return r + "\"";
}

} // namespace

uint64_t executionId() { return execId; }
uint64_t pathHash() { return hashBytes(sh->choices, (pos < MaxChoices ? pos : size_t(MaxChoices)) * sizeof sh->choices[0], hashStr(sh->suite)); }

Suite::Suite(const char* name, void (*body)(), int shardDepth) :
    name(name), body(body), shardDepth(shardDepth)
{ suites().push_back(this); }

int choose(int n, const char* what)
{
    if (n <= 0) { fprintf(stderr, "vx: choose(%d) %s\n", n, what); _exit(96); }
    if (n == 1) return 0;
    uint16_t c;
    if (pos < path.size()) {
        if (replaying && !arity[pos]) arity[pos] = n;
        if (arity[pos] != n || path[pos] >= n) {
            strcpy(sh->key, "nondeterminism");
            snprintf(sh->msg, sizeof sh->msg,
                    "replaying the same choices diverged at choice %zu (%s): %d alternatives, had %d",
                    pos, what, n, arity[pos]);
            fprintf(stderr, "vx: %s\n", sh->msg);
            _exit(95);
        }
        c = path[pos];
    } else {
        c = 0;
        path.push_back(0); arity.push_back(n);
    }
    if (pos < MaxChoices) sh->choices[pos] = c;
    if (inChild && pos < MaxChoices) child->arity[pos] = n;
    pos++;
    sh->n = pos;
    if (tracingOn && what[0]) { traceText += fmt("  [%s=%d/%d]\n", what, c, n); }
    if (pos == shard.depth && !inChild && !replaying) { shard.at(path); if (!shard.mine) throw Skip(); }
    return c;
}

bool tracing() { return tracingOn; }
void note(const char* f, ...)
{
    char b[4096]; va_list a; va_start(a, f); vsnprintf(b, sizeof b, f, a); va_end(a);
    traceText += b; traceText += "\n";
    if (inChild) { size_t l = strlen(child->trace), k = strlen(b); if (l + k + 2 < sizeof child->trace) { memcpy(child->trace + l, b, k); memcpy(child->trace + l + k, "\n", 2); } }
    if (replaying) { fprintf(stderr, "%s\n", b); }
}

bool known(const char* key)
{
    if (!knownKeys.count(key)) return false;
    if (inChild) snprintf(child->knownKey, sizeof child->knownKey, "%s", key);
    knownHits[key]++;
    return true;
}

void fail(const char* key, const char* f, ...)
{
    char b[sizeof sh->msg]; va_list a; va_start(a, f); vsnprintf(b, sizeof b, f, a); va_end(a);
    if (known(key)) throw KnownHit();
    if (!sh->key[0]) {   // keep the first
        snprintf(sh->key, sizeof sh->key, "%s", key);
        memcpy(sh->msg, b, sizeof b);
    }
    throw Violation();
}

[[noreturn]] static void endChild(int status)
{
    child->n = pos;
    child->status = status;
    _exit(0);
}
void failNow(const char* key, const char* f, ...)
{
    va_list a; va_start(a, f); char b[sizeof sh->msg]; vsnprintf(b, sizeof b, f, a); va_end(a);
    if (!inChild) { fprintf(stderr, "vx: failNow outside isolated: %s %s\n", key, b); _exit(96); }
    if (known(key)) endChild(3);
    if (!sh->key[0]) { snprintf(sh->key, sizeof sh->key, "%s", key); memcpy(sh->msg, b, sizeof b); }
    endChild(2);
}

void step(uint64_t n) { if (inChild) child->steps += n; else st->transitions += n; }
void state(uint64_t h) { if (inChild) { if (child->nstates < 4096) child->states[child->nstates++] = h; } else states.insert(h); }
void outcome(const char* l)
{
    if (!inChild) outcomesNow.push_back(l);
    else if (child->noutcomes < 64) snprintf(child->outcomes[child->noutcomes++], 64, "%s", l);
}

void isolated(void (*f)(void*), void* arg)
{
    if (!child) child = (Child*) mmap(nullptr, sizeof(Child), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    child->status = 0; child->nstates = child->noutcomes = child->n = 0; child->steps = 0; child->knownKey[0] = child->trace[0] = 0;
    for (size_t i = 0; i < pos; ++i) child->arity[i] = arity[i];
    fflush(nullptr);
    pid_t pid = fork();
    if (pid < 0) { perror("fork"); _exit(94); }
    if (!pid) {
        inChild = true;
        itimerval tv; memset(&tv, 0, sizeof tv); setitimer(ITIMER_PROF, &tv, nullptr);
        signal(SIGALRM, SIG_DFL); alarm(hangSec);
        try { f(arg); }
        catch (Violation&) { endChild(sh->key[0] ? 2 : 3); }
        catch (KnownHit&) { endChild(3); }
        catch (Skip&) { endChild(4); }
        catch (std::exception& e) { failNow("unexpected-exception", "uncaught exception escaped: %s", e.what()); }
        endChild(sh->key[0] ? 2 : 1);
    }
    int ws = 0;
    while (waitpid(pid, &ws, 0) < 0) {}
    inChild = false;
    if (!child->status) child->n = sh->n;
    // adopt the child's choices as our own
    for (size_t i = pos; i < child->n && i < MaxChoices; ++i) {
        if (i >= path.size()) { path.push_back(sh->choices[i]); arity.push_back(child->arity[i]); }
        else if (!arity[i]) arity[i] = child->arity[i];
    }
    pos = child->n;
    st->transitions += child->steps;
    for (uint32_t i = 0; i < child->nstates; ++i) states.insert(child->states[i]);
    static std::set<std::string> labels;
    for (uint32_t i = 0; i < child->noutcomes; ++i) outcomesNow.push_back(labels.insert(child->outcomes[i]).first->c_str());
    if (child->trace[0]) traceText += child->trace;
    if (child->knownKey[0]) knownHits[child->knownKey]++;
    switch (child->status) {
    case 1: return;
    case 2: throw Violation();
    case 3: throw KnownHit();
    case 4: throw Skip();
    }
    if (WIFSIGNALED(ws) && WTERMSIG(ws) == SIGALRM) fail("hang", "execution did not finish within %d s", hangSec);
    if (WIFSIGNALED(ws)) fail("crash", "the process died of signal %d (%s)", WTERMSIG(ws), strsignal(WTERMSIG(ws)));
    fail("crash", "the process exited with %d", WEXITSTATUS(ws));
}
void assume(bool ok) { if (!ok) throw Skip(); }
bool thorough() { return isThorough; }
const std::string& option(const char* n) { return options_[n]; }

uint64_t hashBytes(const void* p, size_t n, uint64_t h)
{
    const unsigned char* c = (const unsigned char*)p;
    for (size_t i = 0; i < n; ++i) { h ^= c[i]; h *= 0x100000001b3ull; h ^= h >> 29; }
    h ^= h >> 32; h *= 0xd6e8feb86659fd93ull; h ^= h >> 32;
    return h;
}
std::string fmt(const char* f, ...)
{
    char b[4096]; va_list a; va_start(a, f); vsnprintf(b, sizeof b, f, a); va_end(a);
    return b;
}
std::string show(const std::string& s)
{
    std::string r;
    if (s.size() > 600) return show(s.substr(0, 200)) + fmt("...(%zu bytes)...", s.size()) + show(s.substr(s.size() - 100));
    for (unsigned char c : s) {
        if (c == '\\') r += "\\\\";
        else if (c >= 0x20 && c < 0x7f) r += c;
        else r += fmt("\\x%02x", c);
    }
    return r;
}

namespace {

// Runs the body once on the current path. Returns false on violation.
bool runOnce(Suite* s)
{
    pos = 0; outcomesNow.clear();
    execId++;
    sh->n = 0; sh->key[0] = 0; sh->msg[0] = 0;
    sh->executions++;
    sh->phase = 1;
    bool ok = true;
    try {
        s->body();
        st->executions++;
    }
    catch (Violation&) { ok = false; }
    catch (KnownHit&) { st->executions++; }
    catch (Skip&) { st->pruned++; }
    catch (std::exception& e) {
        if (!sh->key[0]) {
            strcpy(sh->key, "unexpected-exception");
            snprintf(sh->msg, sizeof sh->msg, "uncaught exception escaped: %s", e.what());
        }
        ok = false;
    }
    sh->phase = 0;
    if (sh->key[0]) ok = false;    // fail() was swallowed by the code under test
    if (pos > st->maxDepth) st->maxDepth = pos;
    return ok;
}

} // namespace
} // namespace vx

using namespace vx;

static int usage() { fprintf(stderr, "usage: harness --list | --run OUT | --replay FILE | --merge FILES\n"); return 2; }

int main(int argc, char** argv)
{
    const char *out = nullptr, *live = nullptr, *replay = nullptr, *statesOut = nullptr;
    std::string only; double cap = 600; bool list = false; std::vector<std::string> merge; bool isMerge = false;
    for (int i = 1; i < argc; ++i) {
        std::string a = argv[i];
        auto val = [&]() -> const char* { return i + 1 < argc ? argv[++i] : ""; };
        if (isMerge) merge.push_back(a);
        else if (a == "--list") list = true;
        else if (a == "--run") out = val();
        else if (a == "--live") live = val();
        else if (a == "--states") statesOut = val();
        else if (a == "--shard") { std::string s = val(); sscanf(s.c_str(), "%d/%d", &shardI, &shardN); }
        else if (a == "--suite") only = val();
        else if (a == "--tier") isThorough = !strcmp(val(), "thorough");
        else if (a == "--cap") cap = atof(val());
        else if (a == "--hang") hangSec = atoi(val());
        else if (a == "--known") knownKeys.insert(val());
        else if (a == "--opt") { std::string s = val(); size_t e = s.find('='); options_[s.substr(0, e)] = s.substr(e + 1); }
        else if (a == "--replay") replay = val();
        else if (a == "--merge") isMerge = true;
        else return usage();
    }
    if (isMerge) {
        std::vector<uint64_t> all;
        for (auto& f : merge) {
            FILE* fp = fopen(f.c_str(), "rb"); if (!fp) continue;
            uint64_t b[4096]; size_t n;
            while ((n = fread(b, 8, 4096, fp)) > 0) all.insert(all.end(), b, b + n);
            fclose(fp);
        }
        std::sort(all.begin(), all.end());
        printf("%zu\n", (size_t)(std::unique(all.begin(), all.end()) - all.begin()));
        return 0;
    }
    if (list) { for (auto* s : suites()) printf("%s\n", s->name); return 0; }

    if (!live) sh = (Shared*) mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    if (live) {
        int fd = open(live, O_RDWR | O_CREAT | O_TRUNC, 0644);
        if (fd < 0 || ftruncate(fd, sizeof(Shared))) { perror(live); return 94; }
        sh = (Shared*) mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0);
        if (sh == MAP_FAILED) { perror("mmap"); return 94; }
        close(fd);
    }
    sh->magic = 0x76783031;

    struct sigaction sa; memset(&sa, 0, sizeof sa); sa.sa_handler = onAlarm; sa.sa_flags = SA_RESTART;
    sigaction(SIGPROF, &sa, nullptr);
    itimerval tv; tv.it_interval.tv_sec = 1; tv.it_interval.tv_usec = 0; tv.it_value = tv.it_interval;
    setitimer(ITIMER_PROF, &tv, nullptr);

    if (replay) {
        FILE* fp = fopen(replay, "r"); if (!fp) { perror(replay); return 94; }
        char name[256]; if (fscanf(fp, "%255s", name) != 1) return 94;
        int c; while (fscanf(fp, "%d", &c) == 1) { path.push_back(c); arity.push_back(0); }
        fclose(fp);
        replaying = tracingOn = true;
        for (auto* s : suites()) if (!strcmp(s->name, name)) {
            Stats stats; st = &stats; snprintf(sh->suite, sizeof sh->suite, "%s", name);
            bool ok = runOnce(s);
            if (!ok) { fprintf(stderr, "REPLAY VIOLATION key=%s\n%s\n", sh->key, sh->msg); return 1; }
            fprintf(stderr, "REPLAY OK\n");
            return 0;
        }
        fprintf(stderr, "vx: no suite %s\n", name);
        return 94;
    }
    if (!out) return usage();

    double t0 = now();
    std::string js = "{\"suites\":["; bool first = true; int rc = 0; std::string vio;
    std::vector<std::string> samples;
    for (auto* s : suites()) {
        if (!only.empty() && only != s->name) continue;
        Stats stats; st = &stats;
        snprintf(sh->suite, sizeof sh->suite, "%s", s->name);
        path.clear(); arity.clear();
        bool ok = true, done = false; uint64_t k = 0;
        shard.reset(s->shardDepth);
        bool& mine = shard.mine;
        while (!done) {
            // sampled trace: first leaf of powers of two
            bool wantTrace = mine && samples.size() < 6 && (k == 1 || k == 7 || k == 101);
            tracingOn = wantTrace; traceText.clear();
            uint64_t ex0 = stats.executions, tr0 = stats.transitions, pr0 = stats.pruned;
            ok = runOnce(s);
            tracingOn = false;
            shard.at(path);
            if (!mine && ok) { stats.executions = ex0; stats.transitions = tr0; stats.pruned = pr0; }
            if (mine) for (const char* l : outcomesNow) stats.outcomes[l]++;
            if (wantTrace && !traceText.empty())
                samples.push_back(std::string(s->name) + ":\n" + traceText.substr(0, 1500));
            if (!ok) break;
            k += mine;
            if (!mine) { path.resize(std::min(path.size(), (size_t)s->shardDepth)); arity.resize(path.size()); }
            else { path.resize(pos); arity.resize(pos); }
            while (!path.empty() && path.back() + 1 >= arity.back()) { path.pop_back(); arity.pop_back(); }
            if (path.empty()) done = true; else path.back()++;
            if (!done && now() - t0 > cap) break;
        }
        stats.complete = done && ok;
        js += fmt("%s{\"name\":%s,\"executions\":%llu,\"transitions\":%llu,\"pruned\":%llu,\"max_depth\":%zu,\"complete\":%s,\"outcomes\":{",
                first ? "" : ",", jsonStr(s->name).c_str(), (unsigned long long)stats.executions,
                (unsigned long long)stats.transitions, (unsigned long long)stats.pruned, stats.maxDepth,
                stats.complete ? "true" : "false");
        first = false;
        bool f2 = true;
        for (auto& o : stats.outcomes) { js += std::string(f2 ? "" : ",") + jsonStr(o.first) + ":" + std::to_string(o.second); f2 = false; }
        js += "}}";
        if (!ok) {
            vio = std::string(",\"violation\":{\"suite\":") + jsonStr(s->name) + ",\"key\":" + jsonStr(sh->key)
                + ",\"msg\":" + jsonStr(sh->msg) + ",\"choices\":[";
            for (size_t i = 0; i < sh->n; ++i) vio += (i ? "," : "") + std::to_string(sh->choices[i]);
            vio += "]}";
            rc = 1;
            break;
        }
    }
    js += "],\"samples\":[";
    for (size_t i = 0; i < samples.size(); ++i) js += (i ? "," : "") + jsonStr(samples[i]);
    js += "],\"known\":{";
    bool f3 = true;
    for (auto& kh : knownHits) { js += std::string(f3 ? "" : ",") + jsonStr(kh.first) + ":" + std::to_string(kh.second); f3 = false; }
    js += "},\"wall\":" + fmt("%.2f", now() - t0) + vio + "}\n";
    FILE* fp = fopen(out, "w"); if (!fp) { perror(out); return 94; }
    fwrite(js.data(), 1, js.size(), fp); fclose(fp);
    if (statesOut) {
        fp = fopen(statesOut, "wb");
        if (fp) { for (uint64_t h : states.t) if (h) fwrite(&h, 8, 1, fp); fclose(fp); }
    }
    return rc;
}
