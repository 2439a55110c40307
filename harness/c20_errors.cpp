/* C20: every refusal is reported, once, with the whole message.
 * Every message length over a range that covers all buffer boundaries, every
 * place a user's name gets into a message, and the abort mode. */
#include "vt.h"
#include "types/std/vector.h"
#include <unistd.h>
#include <sys/wait.h>
#include <sys/resource.h>
#include <cstring>
#include <fcntl.h>
using namespace reflect;

VX_SUITE_D(lengths, 1)
{
    int chunk = vx::choose(vx::pick(64, 320), "chunk");
    for (int len = chunk * 64; len < chunk * 64 + 64; ++len) {
        std::string s(len, 'a' + len % 26); vx::step();
        VX_CHECK(errorFormat("%s", s) == s, "message", "a message of %d characters comes out with %zu", len, errorFormat("%s", s).size());
        VX_CHECK(errorFormat("<%s> %d", s, len) == "<" + s + "> " + std::to_string(len), "message", "a message with a %d character argument", len);
        VX_CHECK(errorFormat("%s%s%c", s.c_str(), std::string("|"), 'x') == s + "|x", "message", "a message of %d characters and more", len);
        try { reflectError("%s", s); VX_CHECK(false, "lost", "no error"); }
        catch (const Error& e) { std::string w = e.what(); VX_CHECK(w.size() > s.size() && !w.compare(w.size() - s.size(), s.size(), s) && (bool) e, "message", "an error of %d characters", len); }
    }
    vx::state(2000 + chunk);
}
namespace { struct Thing { int a; void f(int) {} }; }
namespace k20 { struct Thing { int a; void f(int) {} }; }
reflectType(k20::Thing) { reflectPlumbing(); reflectField(a); reflectFn(f); }
VX_SUITE_D(names, 2)
{
    static const int lens[] = { 0, 1, 15, 16, 100, 500, 960, 1000, 1010, 1015, 1020, 1021, 1022, 1023, 1024, 1025, 1030, 1100, 2000, 2047, 2048, 4095, 4096, 4097, 10000, 70000 };
    int where = vx::choose(16, "where"), len = lens[vx::choose(26, "length")];
    std::string n(len, 'n'); std::string msg;
    if (vx::flip("looks like a format")) for (int i = 0; i + 1 < len; i += 2) { n[i] = '%'; n[i + 1] = "sndxf"[i / 2 % 5]; } k20::Thing th; Value v(th); const Type* t = v.type(); Scope sc; bool named = true, err = false;
    vx::step(); vx::state(vx::pathHash());
    switch (where) {
    case 0: err = vt::errs([&] { type(n); }, &msg); break;
    case 1: err = vt::errs([&] { v.field<int>(n); }, &msg); break;
    case 2: err = vt::errs([&] { v.call<void>(n); }, &msg); break;
    case 3: err = vt::errs([&] { t->field(n); }, &msg); break;
    case 4: err = vt::errs([&] { t->function(n); }, &msg); break;
    case 5: err = vt::errs([&] { t->getValue<int>(n); }, &msg); break;
    case 6: { const Scope& c = sc; err = vt::errs([&] { c.function(n); }, &msg); break; }
    case 7: { const Scope& c = sc; err = vt::errs([&] { c.scope(n); }, &msg); named = len; break; }
    case 8: err = vt::errs([&] { sc.type(n); }, &msg); break;
    case 9: { Traits x; x.addTrait(n); err = vt::errs([&] { x.addTrait(n); }, &msg); break; }
    case 10: { Type x(n); x.addField<int>(n, 0); err = vt::errs([&] { x.addField<int>(n, 0); }, &msg); break; }
    case 11: { Type x("x"); x.addFunction(n, [] (int) {}); err = vt::errs([&] { x.addFunction(n, [] (int) {}); }, &msg); break; }
    case 12: { Type x("x"); x.addField<int>(n, 0); err = vt::errs([&] { x.addFunction(n, [] (int) {}); }, &msg); break; }
    case 13: { Type x(n); err = vt::errs([&] { x.alloc(); }, &msg); named = false; break; }
    case 14: { Overloads o; o.add(Function(n, [] (int) {})); err = vt::errs([&] { o.call<void>(std::string()); }, &msg); named = false; break; }
    default: { Type x(n); Type y("y"); err = vt::errs([&] { y.converter(&x); }, &msg); break; }
    }
    VX_CHECK(err, "lost", "no error (#%d, length %d)", where, len);
    VX_CHECK(!named || msg.find(n) != std::string::npos, "message", "the error (#%d) does not give the whole name of %d characters: %s", where, len, vx::show(msg).c_str());
    VX_CHECK(msg.size() < (size_t) len * 4 + 1000 && msg.find('\0') == std::string::npos, "message", "error (#%d, length %d): message of %zu characters", where, len, msg.size());
}
/* Without exceptions: the message on stdout, then abort. */
VX_SUITE_D(aborts, 1)
{
    static const int lens[] = { 0, 1, 100, 1023, 1024, 5000 };
    int len = lens[vx::choose(6, "length")]; std::string s(len, 'z');
    vx::step(); vx::state(vx::pathHash());
    int fd[2]; if (pipe(fd)) { perror("pipe"); _exit(94); }
    fflush(nullptr);
    pid_t pid = fork();
    if (!pid) { rlimit rl = {0, 0}; setrlimit(RLIMIT_CORE, &rl); dup2(fd[1], 1); dup2(open("/dev/null", O_WRONLY), 2); close(fd[0]); close(fd[1]); signal(SIGABRT, SIG_DFL); verror(false, "some_file.cpp", 77, errorFormat("<%s> is bad", s)); _exit(0); }
    close(fd[1]); std::string out; char b[512]; ssize_t r; while ((r = read(fd[0], b, sizeof b)) > 0) out.append(b, r); close(fd[0]);
    int ws = 0; waitpid(pid, &ws, 0);
    VX_CHECK(WIFSIGNALED(ws) && WTERMSIG(ws) == SIGABRT, "abort", "ended with status %x", ws);
    VX_CHECK(out == "some_file.cpp:77: <" + s + "> is bad\n", "message", "printed %s", vx::show(out).c_str());
}
/* A refused operation is reported as Error, and the library goes on working. */
VX_SUITE_D(goesOn, 3)
{
    k20::Thing th; th.a = 5; Value v(th);
    for (int d = 0; d < vx::pick(3, 4); ++d) {
        int op = vx::choose(9, "op"); vx::step(); bool err = true;
        switch (op) {
        case 0: err = vt::errs([&] { type(std::string("c20::none")); }); break;
        case 1: err = vt::errs([&] { v.field<int>("none"); }); break;
        case 2: err = vt::errs([&] { v.call<void>("f"); }); break;
        case 3: err = vt::errs([&] { v.call<void>("f", std::string("x")); }); break;
        case 4: err = vt::errs([&] { v.call<void>("none"); }); break;
        case 5: err = vt::errs([&] { v.toConst().field("a").assign(3); }); break;
        case 6: err = vt::errs([&] { v.get<std::string>(); }); break;
        case 7: err = vt::errs([&] { type<k20::Thing>()->construct(1, 2, 3); }); break;
        default: err = vt::errs([&] { scope()->call<void>("c20none", 1); }); break;
        }
        VX_CHECK(err, "lost", "refusal #%d not reported", op);
        VX_CHECK(th.a == 5 && v.field<int>("a") == 5 && !vt::errs([&] { v.call<void>("f", 3); }) && type<k20::Thing>()->construct().type() == v.type(), "broken", "after refusal #%d", op);
        vx::state(vx::pathHash());
    }
}
