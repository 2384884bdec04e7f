// Calls at every point of the life of a process: inside a static initialiser that runs before those of the library, in
// main, from a thread, from the destructor of a thread-local object, and during exit after the static destructors of the
// library. All of them must give the results an ordinary call gives.
#include "pool.hpp"
#include <fcntl.h>
#include <signal.h>
#include <sys/mman.h>
#include <sys/prctl.h>
#include <sys/wait.h>
#include <thread>
#include <unistd.h>
PROPERTY("P26")

extern bool g_need_points;
extern void (*g_after_warmup)();

namespace {
constexpr size_t MAXC = 6, PHASES = 5;
const char* phaseName[PHASES] = {"in a static initialiser", "in main (after calls from a static initialiser)", "in a thread", "in the destructor of a thread-local object", "during exit"};
enum { EARLY = 1, THREAD = 2, LATE = 4 };
struct Res { uint32_t end, len; uint64_t a; uint8_t head[40], intact; bool operator==(const Res& o) const { return end == o.end && len == o.len && a == o.a && intact == o.intact; } };
struct Shared { // between a worker and its zygote
    uint64_t n, phases;
    Call c[MAXC];
    volatile uint64_t done;   // bit per phase
    volatile uint64_t phase, at; // what was being executed
    Res r[PHASES][MAXC];
    int st;
};
PoolSrc::Slots* slots() { static PoolSrc::Slots* s = new PoolSrc::Slots; return s; }
void one(const Call& c, Res& r) {
    PoolSrc src(c, 0, slots(), 0);
    ops::Out o;
    memset(&r, 0, sizeof r);
    try { ops::all()[c.op].fn(src, o); }
    catch (const std::exception&) { r.end = 1; }
    catch (...) { r.end = 2; }
    if (r.end) o.b.clear();
    r.len = uint32_t(o.b.size());
    memcpy(r.head, o.b.data(), std::min(o.b.size(), sizeof r.head));
    r.a = fnv(o.b.data(), o.b.size());
    r.intact = src.intact();
}
Shared* sh = nullptr; // in the zygote and its children
void phase(unsigned p) {
    sh->phase = p;
    for (size_t i = 0; i < sh->n; i++) { sh->at = i; one(sh->c[i], sh->r[p][i]); }
    sh->done = sh->done | 1u << p;
}
void late() { if (sh->phases & LATE) phase(4); }
struct Tls {
    Tls() {}
    ~Tls() { phase(3); }
    int touch = 0;
};
thread_local Tls tls;

// Runs when the static objects of this file are initialised: the harness objects come before the library in the link, so
// the library's own initialisers have not run yet.
struct Early {
    Early() {
        const char* e = getenv("VERIF_EARLY");
        if (!e) return;
        int mem, in, out;
        if (sscanf(e, "%d,%d,%d", &mem, &in, &out) != 3) _exit(70);
        prctl(PR_SET_PDEATHSIG, SIGKILL);
        sh = (Shared*)mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED, mem, 0);
        pool(); ops::all(); slots();
        char b;
        while (read(in, &b, 1) == 1) {
            pid_t pid = fork();
            if (pid == 0) {
                alarm(60);
                prctl(PR_SET_PDEATHSIG, SIGKILL);
                close(in); close(out);
                atexit(late); // registered first: runs after every static destructor of the library
                if (sh->phases & EARLY) phase(0);
                return; // the library's initialisers, then main
            }
            int st = 0;
            while (waitpid(pid, &st, 0) < 0 && errno == EINTR) {}
            sh->st = st;
            if (write(out, &b, 1) != 1) break;
        }
        _exit(0);
    }
};
Early early;
} // namespace

namespace pbt {
void main_hook() { // first thing in main
    if (!sh) return;
    phase(1);
    if (sh->phases & THREAD) std::thread([] { tls.touch = 1; phase(2); }).join();
    exit(0);
}
}

namespace {
struct Zygote { Shared* s = nullptr; int to = -1, from = -1; pid_t pid = 0, owner = 0; };
Zygote z;
Shared* zygote() {
    if (z.owner == getpid()) return z.s;
    z = Zygote{};
    z.owner = getpid();
    int mem = memfd_create("p26", 0), a[2], b[2];
    if (mem < 0 || ftruncate(mem, sizeof(Shared)) || pipe(a) || pipe(b)) { perror("zygote"); abort(); }
    z.s = (Shared*)mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED, mem, 0);
    char exe[4096];
    ssize_t k = readlink("/proc/self/exe", exe, sizeof exe - 1);
    exe[k > 0 ? k : 0] = 0;
    std::string env = "VERIF_EARLY=" + std::to_string(mem) + "," + std::to_string(a[0]) + "," + std::to_string(b[1]);
    std::vector<char*> ev;
    for (char** p = environ; *p; p++) ev.push_back(*p);
    ev.push_back(env.data());
    ev.push_back(nullptr);
    z.pid = fork();
    if (z.pid == 0) {
        close(a[1]); close(b[0]);
        char* av[] = {exe, nullptr};
        execve(exe, av, ev.data());
        _exit(71);
    }
    close(a[0]); close(b[1]); close(mem);
    fcntl(a[1], F_SETFD, FD_CLOEXEC); fcntl(b[0], F_SETFD, FD_CLOEXEC);
    z.to = a[1]; z.from = b[0];
    return z.s;
}
void after() { pool(); ops::all(); slots(); }
struct Setup { Setup() { g_need_points = true; g_after_warmup = after; } } setup;

void lives(Gen& g, pbt::Ctx& c, size_t maxn, int maxcost) {
    auto& all = ops::all();
    size_t n = g.range(1, maxn);
    std::vector<Call> cs;
    for (size_t i = 0; i < n; i++) {
        uint32_t op = uint32_t(g.below(all.size()));
        for (int t = 0; all[op].cost > maxcost && t < 50; t++) op = (op + 1) % all.size();
        Call x{op, uint32_t(g.below(4096)), uint32_t(g.below(NP)), uint32_t(g.flip() ? NP : g.range(1, 6))};
        if (i && g.chance(1, 4)) x.op = cs[i - 1].op;
        cs.push_back(x);
    }
    uint64_t ph = g.weighted({6, 1, 1, 1}) == 0 ? EARLY | THREAD | LATE : 1u << g.below(3);
    auto list = [&] { std::string s; for (auto& x : cs) s += (s.empty() ? "" : "; ") + show(x); return s; };
    c.note(list);
    for (auto& x : cs) c.label(all[x.op].name);
    c.nontrivial();
    std::vector<Res> want(n);
    for (size_t i = 0; i < n; i++) one(cs[i], want[i]);
    Shared* s = zygote();
    s->n = n; s->phases = ph; s->done = 0; s->phase = s->at = 0; s->st = 0;
    memset(s->r, 0, sizeof s->r);
    std::copy(cs.begin(), cs.end(), s->c);
    char b = 1;
    bool ok = write(z.to, &b, 1) == 1 && read(z.from, &b, 1) == 1;
    if (!ok) { z.owner = 0; throw std::runtime_error("zygote lost"); }
    auto where = [&](unsigned p, size_t i) { return show(cs[i]) + " " + phaseName[p]; };
    uint64_t expect = 2 | (ph & EARLY ? 1 : 0) | (ph & THREAD ? 12 : 0) | (ph & LATE ? 16 : 0);
    for (unsigned p = 0; p < PHASES; p++) if (s->done >> p & 1)
        for (size_t i = 0; i < n; i++) {
            const Res &r = s->r[p][i], &w = want[i];
            CHECK(r == w, where(p, i) << " gives " << (r.end ? "an exception" : pbt::hex(r.head, std::min<size_t>(r.len, 40))) << ", an ordinary call gives " << (w.end ? "an exception" : pbt::hex(w.head, std::min<size_t>(w.len, 40))) << (r.intact == w.intact ? "" : " (and modified a constant argument)") << "; calls: " << list());
        }
    CHECK(s->st == 0 && s->done == expect, where(unsigned(s->phase), s->at) << ": the process ended with wait status " << s->st << "; calls: " << list());
}
} // namespace

// calls of up to about a millisecond
PROP(lives, 12000, 300000) { lives(g, c, 6, 1); }
// all calls
PROP(lives_all, 2500, 50000) { lives(g, c, 3, 2); }
