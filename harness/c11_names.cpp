/* C11: qualified names split and join consistently.
 * Every string up to a length over the characters that matter. */
#include "vt.h"
using namespace reflect;

namespace {

const char alpha[] = { 'a', ':', '<', '>', 'b' };

// Reference: position of the first top-level "::" scanning from the left; -1 none, -2 malformed up to there
long firstSep(const std::string& s)
{
    long depth = 0;
    for (size_t i = 0; i < s.size(); ++i) {
        if (s[i] == '<') depth++;
        else if (s[i] == '>') { if (--depth < 0) return -2; }
        else if (s[i] == ':' && !depth) return i + 1 < s.size() && s[i + 1] == ':' ? (long) i : -2;
    }
    return depth ? -2 : -1;
}
long lastSep(const std::string& s)
{
    long depth = 0;
    for (size_t i = s.size(); i-- > 0;) {
        if (s[i] == '>') depth++;
        else if (s[i] == '<') { if (--depth < 0) return -2; }
        else if (s[i] == ':' && !depth) return i > 0 && s[i - 1] == ':' ? (long) i - 1 : -2;
    }
    return depth ? -2 : -1;
}
// well formed: every segment is non-empty, balanced and free of stray colons
bool segments(const std::string& s, std::vector<std::string>& out)
{
    std::string rest = s;
    for (;;) {
        long p = firstSep(rest);
        if (p == -2) return false;
        std::string seg = p == -1 ? rest : rest.substr(0, p);
        if (seg.empty()) return false;
        out.push_back(seg);
        if (p == -1) return true;
        rest = rest.substr(p + 2);
    }
}

uint64_t nErr = 0, nOk = 0, nWell = 0;
void one(const std::string& s)
{
    vx::step(2);
    std::pair<std::string, std::string> h, t;
    bool eh = vt::errs([&] { h = Scope::head(s); }), et = vt::errs([&] { t = Scope::tail(s); });
    long f = firstSep(s), l = lastSep(s);
    VX_CHECK(eh == (f == -2), eh ? "head-refused" : "malformed-accepted", "head(<%s>) %s", s.c_str(), eh ? "fails" : "succeeds");
    VX_CHECK(et == (l == -2), et ? "tail-refused" : "malformed-accepted", "tail(<%s>) %s", s.c_str(), et ? "fails" : "succeeds");
    if (!eh) {
        std::string wf = f == -1 ? s : s.substr(0, f), ws = f == -1 ? "" : s.substr(f + 2);
        VX_CHECK(h.first == wf && h.second == ws, "head", "head(<%s>) = <%s>, <%s>", s.c_str(), h.first.c_str(), h.second.c_str());
    }
    if (!et) {
        std::string wf = l == -1 ? s : s.substr(l + 2), ws = l == -1 ? "" : s.substr(0, l);
        VX_CHECK(t.first == wf && t.second == ws, "tail", "tail(<%s>) = <%s>, <%s>", s.c_str(), t.first.c_str(), t.second.c_str());
    }
    std::vector<std::string> segs;
    if (segments(s, segs)) {
        nWell++;
        vx::step(2);
        std::vector<std::string> byHead, byTail; std::string rest = s;
        while (!rest.empty()) { auto p = Scope::head(rest); byHead.push_back(p.first); rest = p.second; }
        rest = s;
        while (!rest.empty()) { auto p = Scope::tail(rest); byTail.insert(byTail.begin(), p.first); rest = p.second; }
        VX_CHECK(byHead == segs && byTail == segs, "segments", "<%s> splits differently from the left and from the right", s.c_str());
        std::string j;
        for (auto& x : byHead) j = Scope::join(j, x);
        VX_CHECK(j == s, "join", "joining the segments of <%s> gives <%s>", s.c_str(), j.c_str());
    }
    (eh ? nErr : nOk)++;
}
void rec(std::string& s, int left)
{
    one(s);
    if (!left) return;
    for (char c : alpha) { s.push_back(c); rec(s, left - 1); s.pop_back(); }
}

} // namespace

VX_SUITE_D(strings, 3)
{
    int max = vx::pick(9, 11);
    std::string s;
    int n = vx::choose(4, "prefix");    // lengths 0..2 alone, or every string with a 3-character prefix
    for (int i = 0; i < n; ++i) s.push_back(alpha[vx::choose(5, "char")]);
    nErr = nOk = nWell = 0;
    if (n < 3) one(s); else rec(s, max - 3);
    vx::state(vx::hashStr(s));
    if (nErr) vx::outcome("some malformed"); if (nWell) vx::outcome("some well formed");
}

// long and deeply nested names
VX_SUITE(sizes)
{
    static const int sizes[] = { 1, 2, 7, 15, 16, 31, 255, 256, 1000, 5000 };
    int n = sizes[vx::choose(10, "size")], k = vx::choose(4, "shape");
    std::string s;
    switch (k) {
    case 0: s = std::string(n, 'x'); break;
    case 1: for (int i = 0; i < n; ++i) s += i ? "::s" : "s"; break;
    case 2: s = std::string(n, 'v') + std::string(n, '<') + "a::b" + std::string(n, '>'); break;
    case 3: for (int i = 0; i < n; ++i) s += std::string(i ? "::" : "") + "t<a::b<c>,d::e>"; break;
    }
    one(s);
    vx::state(vx::hashStr(s));
}
