// Calls in altered surroundings, and what calls do to their surroundings. Every case runs in a process of its own: the
// state around the calls (floating-point modes, locales, environment, descriptors, signals, an exception in flight) is
// altered, the calls are made, their results compared with those of ordinary calls, and the state afterwards with the
// state before. During the calls every request to the kernel is intercepted. A second family interrupts a call at a
// generated machine instruction by a signal handler that makes a call itself.
#include "pool.hpp"
#include <cfenv>
#include <dirent.h>
#include <fcntl.h>
#include <iostream>
#include <locale>
#include <new>
#include <sched.h>
#include <signal.h>
#include <sys/mman.h>
#include <sys/prctl.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <ucontext.h>
#include <unistd.h>
#include <x86intrin.h>
PROPERTY("P29")

extern bool g_need_points;
extern void (*g_after_warmup)();
extern char** environ;

namespace {
constexpr size_t MAXC = 6;
struct Res { uint32_t end, len; uint64_t a; uint8_t head[40], intact; bool operator==(const Res& o) const { return end == o.end && len == o.len && a == o.a && intact == o.intact; } };
PoolSrc::Slots* slots() { static PoolSrc::Slots* s = new PoolSrc::Slots; return s; }
// The members of the pool once more, in memory that cannot be written: a call that changes its constant arguments, even
// for a moment, is stopped by the processor.
struct Mirror {
    uint8_t* base; size_t size, used = 0;
    const B::fp* f; const B::fp2* f2; const B::fp6* f6; const B::fp12 *f12, *cyc; const B::g1* p; const B::g2* q; const Sc4 *s, *k;
    std::vector<std::span<const uint8_t>> bytes, fixed; std::vector<std::span<const B::g1>> ps; std::vector<std::span<const B::g2>> qs; std::vector<std::span<const Sc4>> ss;
    template<class T> const T* copy(const std::vector<T>& v) {
        used = (used + 63) & ~size_t(63);
        if (used + v.size() * sizeof(T) > size) abort();
        T* d = (T*)(base + used);
        std::uninitialized_copy(v.begin(), v.end(), d);
        used += v.size() * sizeof(T);
        return d;
    }
    template<class T> void lists(std::vector<std::span<const T>>& out, const std::vector<std::vector<T>>& in) { for (auto& v : in) out.push_back({copy(v), v.size()}); }
    Mirror() {
        size = 8 << 20;
        base = (uint8_t*)mmap(nullptr, size, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
        if (base == MAP_FAILED) abort();
        auto& a = pool();
        f = copy(a.f); f2 = copy(a.f2); f6 = copy(a.f6); f12 = copy(a.f12); cyc = copy(a.cyc); p = copy(a.p); q = copy(a.q); s = copy(a.s); k = copy(a.k);
        lists(bytes, a.bytes); lists(fixed, a.fixed); lists(ps, a.ps); lists(qs, a.qs); lists(ss, a.ss);
        mprotect(base, size, PROT_READ);
    }
};
const Mirror& mirror() { static const Mirror* m = new Mirror; return *m; }
struct ReadOnlySrc : PoolSrc {
    using PoolSrc::PoolSrc;
    const B::fp& f(int i) override { return mirror().f[pick(1, i)]; }
    const B::fp2& f2(int i) override { return mirror().f2[pick(2, i)]; }
    const B::fp6& f6(int i) override { return mirror().f6[pick(3, i)]; }
    const B::fp12& f12(int i) override { return mirror().f12[pick(4, i)]; }
    const B::fp12& cyc(int i) override { return mirror().cyc[pick(5, i)]; }
    const B::g1& p(int i) override { return mirror().p[pick(6, i)]; }
    const B::g2& q(int i) override { return mirror().q[pick(7, i)]; }
    const Sc4& s(int i) override { return mirror().s[pick(8, i)]; }
    const Sc4& k(int i) override { return mirror().k[pick(9, i)]; }
    std::span<const uint8_t> bytes(int i) override { return mirror().bytes[pick(10, i)]; }
    std::span<const uint8_t> fixed(int i, size_t n) override { return mirror().fixed[pick(11, i)].first(n); }
    std::span<const B::g1> ps(int i) override { return mirror().ps[pick(14, i)]; }
    std::span<const B::g2> qs(int i) override { return mirror().qs[pick(15, i)]; }
    std::span<const Sc4> ss(int i) override { return mirror().ss[pick(16, i)]; }
};
void one(const Call& c, Res& r) {
    ReadOnlySrc src(c, 0, slots(), 0);
    ops::Out o;
    memset(&r, 0, sizeof r);
    try { ops::all()[c.op].fn(src, o); }
    catch (const std::exception&) { r.end = 1; }
    catch (...) { r.end = 2; }
    if (r.end) o.b.clear();
    r.len = uint32_t(o.b.size());
    if (!o.b.empty()) memcpy(r.head, o.b.data(), std::min(o.b.size(), sizeof r.head));
    r.a = fnv(o.b.data(), o.b.size());
    r.intact = src.intact();
}
std::string show(const Res& r) { return r.end == 1 ? "an exception" : r.end ? "an exception that is not a standard one" : pbt::hex(r.head, std::min<size_t>(r.len, 40)); }

struct Shared {
    volatile uint64_t at, done;
    char what[600]; // the first difference found
};
Shared* shared() { // per worker
    static Shared* s = nullptr;
    static pid_t owner = 0;
    if (owner != getpid()) { s = (Shared*)mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0); owner = getpid(); if (s == MAP_FAILED) abort(); }
    return s;
}

// ---- interception of system calls ---------------------------------------------------------------
#ifndef PR_SET_SYSCALL_USER_DISPATCH
#define PR_SET_SYSCALL_USER_DISPATCH 59
#endif
volatile char selector = 0;
volatile int seenCall = -1;
volatile long seenArg = 0;
volatile int intercepted = 0;
bool permitted(long nr, long a4) { // memory, locks, the clock and identity of the caller
    switch (nr) {
    case SYS_mmap: return int(a4) == -1;
    case SYS_munmap: case SYS_mremap: case SYS_mprotect: case SYS_madvise: case SYS_brk: case SYS_mlock: case SYS_munlock:
    case SYS_futex: case SYS_sched_yield: case SYS_clock_gettime: case SYS_gettimeofday: case SYS_getpid: case SYS_gettid: case SYS_getrandom: case SYS_membarrier:
    case SYS_rt_sigreturn: case SYS_exit: case SYS_exit_group: case SYS_tgkill: return true;
    }
    return false;
}
void onSys(int, siginfo_t* si, void* u) {
    selector = 0;
    auto r = ((ucontext_t*)u)->uc_mcontext.gregs;
    intercepted = intercepted + 1;
    if (!permitted(si->si_syscall, r[REG_R8]) && seenCall < 0) { seenCall = si->si_syscall; seenArg = r[REG_RDI]; }
    long v;
    register long r10 asm("r10") = r[REG_R10];
    register long r8 asm("r8") = r[REG_R8];
    register long r9 asm("r9") = r[REG_R9];
    asm volatile("syscall" : "=a"(v) : "a"(long(si->si_syscall)), "D"(r[REG_RDI]), "S"(r[REG_RSI]), "d"(r[REG_RDX]), "r"(r10), "r"(r8), "r"(r9) : "rcx", "r11", "memory");
    r[REG_RAX] = v;
    selector = 1;
}
bool interceptable = false;
struct KernelAction { void* h; unsigned long flags; void* restorer; unsigned long mask; };
void intercept() {
    struct sigaction sa = {};
    sa.sa_sigaction = onSys;
    sa.sa_flags = SA_SIGINFO | SA_NODEFER;
    sigaction(SIGSYS, &sa, nullptr);
    KernelAction k = {};
    syscall(SYS_rt_sigaction, SIGSYS, 0, &k, 8);
    selector = 0;
    interceptable = prctl(PR_SET_SYSCALL_USER_DISPATCH, 1UL, (unsigned long)k.restorer, 16UL, (unsigned long)&selector) == 0;
}

// ---- the state around a call --------------------------------------------------------------------
struct Snap {
    unsigned mxcsr; unsigned short cw, tag;
    std::string cloc, cxxloc, cwd, name, env, fds;
    mode_t um; uint64_t sigs, mask, rl, threads, timers, aff, stream, bystander, handlers;
};
uint8_t bystander1[1 << 14];
std::vector<std::pair<uint8_t*, size_t>>* bystanders;
uint64_t strangers() {
    uint64_t h = fnv(bystander1, sizeof bystander1);
    for (auto& b : *bystanders) h = fnv(b.first, b.second, h);
    return h;
}
uint64_t streamState(std::ios& s) { uint64_t v[5] = {uint64_t(s.flags()), uint64_t(s.precision()), uint64_t(s.width()), uint64_t(uint8_t(s.fill())), uint64_t(s.rdstate())}; return fnv(v, sizeof v); }
void take(Snap& s) {
    s.mxcsr = _mm_getcsr() & ~0x3fu;
    struct { unsigned short cw, r0, sw, r1, tag, r2; uint32_t rest[4]; } x87;
    asm volatile("fnstenv %0; fldenv %0" : "+m"(x87));
    s.cw = x87.cw; s.tag = x87.tag;
    const char* l = setlocale(LC_ALL, nullptr);
    s.cloc = l ? l : "";
    std::locale g;
    s.cxxloc = g.name();
    if (std::has_facet<std::numpunct<char>>(g)) { auto& n = std::use_facet<std::numpunct<char>>(g); s.cxxloc += n.grouping() + n.thousands_sep() + n.truename(); }
    s.cwd.resize(4096);
    if (!getcwd(s.cwd.data(), s.cwd.size())) s.cwd = "none";
    s.cwd.resize(strlen(s.cwd.c_str()));
    char nm[32] = {};
    prctl(PR_GET_NAME, nm);
    s.name = nm;
    s.env.clear();
    if (environ) for (char** e = environ; *e; e++) { s.env += *e; s.env += '\n'; }
    s.fds.clear();
    for (int i = 0; i < 256; i++) { int f = fcntl(i, F_GETFD); if (f < 0) continue; int fl = fcntl(i, F_GETFL); struct stat st = {}; fstat(i, &st); s.fds += std::to_string(i) + ":" + std::to_string(f) + "," + std::to_string(fl) + "," + std::to_string(st.st_ino) + "," + std::to_string(S_ISREG(st.st_mode) ? st.st_size : 0) + " "; }
    s.um = umask(0); umask(s.um);
    s.sigs = 0;
    for (int i = 1; i < 65; i++) { KernelAction k = {}; if (syscall(SYS_rt_sigaction, i, 0, &k, 8) == 0) s.sigs = fnv(&k, sizeof k, s.sigs); }
    sigset_t m; sigemptyset(&m); pthread_sigmask(SIG_BLOCK, nullptr, &m);
    s.mask = 0;
    for (int i = 1; i < 65; i++) if (sigismember(&m, i) == 1) s.mask |= 1ull << (i - 1);
    s.rl = 0;
    for (int i : {RLIMIT_AS, RLIMIT_CORE, RLIMIT_CPU, RLIMIT_DATA, RLIMIT_FSIZE, RLIMIT_NOFILE, RLIMIT_STACK}) { rlimit r = {}; getrlimit(__rlimit_resource_t(i), &r); s.rl = fnv(&r, sizeof r, s.rl); }
    struct stat st = {};
    s.threads = stat("/proc/self/task", &st) == 0 ? st.st_nlink : 0;
    s.timers = 0;
    for (auto w : {ITIMER_REAL, ITIMER_VIRTUAL, ITIMER_PROF}) { itimerval t = {}; getitimer(w, &t); s.timers = s.timers * 4 + (t.it_interval.tv_sec || t.it_interval.tv_usec) * 2 + (t.it_value.tv_sec || t.it_value.tv_usec); }
    cpu_set_t a; CPU_ZERO(&a); sched_getaffinity(0, sizeof a, &a);
    s.aff = fnv(&a, sizeof a);
    s.stream = streamState(std::cout) ^ 3 * streamState(std::cerr) ^ 7 * streamState(std::clog) ^ 11 * streamState(std::cin);
    s.handlers = uint64_t(std::get_terminate()) ^ 3 * uint64_t(std::get_new_handler()) ^ 7 * uint64_t(std::uncaught_exceptions());
    s.bystander = strangers();
}
std::string difference(const Snap& a, const Snap& b) {
    if (a.mxcsr != b.mxcsr) return "left the SSE control word changed";
    if (a.cw != b.cw) return "left the x87 control word changed";
    if (a.tag != b.tag) return "left values on the x87 stack";
    if (a.cloc != b.cloc) return "changed the C locale from " + a.cloc + " to " + b.cloc;
    if (a.cxxloc != b.cxxloc) return "changed the global C++ locale";
    if (a.cwd != b.cwd) return "changed the working directory";
    if (a.name != b.name) return "changed the name of the thread";
    if (a.env != b.env) return "changed the environment";
    if (a.fds != b.fds) return "changed the open files (or wrote to one): " + a.fds + "became " + b.fds;
    if (a.um != b.um) return "changed the file creation mask";
    if (a.sigs != b.sigs) return "changed the handling of a signal";
    if (a.mask != b.mask) return "changed the mask of blocked signals";
    if (a.rl != b.rl) return "changed a resource limit";
    if (a.threads != b.threads) return "left a thread running";
    if (a.timers != b.timers) return "started or stopped a timer";
    if (a.aff != b.aff) return "changed the CPU affinity";
    if (a.stream != b.stream) return "changed the formatting state of a standard stream";
    if (a.handlers != b.handlers) return "changed a handler of the language runtime";
    if (a.bystander != b.bystander) return "wrote to memory that is neither argument nor output";
    return "";
}

// ---- alterations --------------------------------------------------------------------------------
struct Punct : std::numpunct<char> {
    std::string do_grouping() const override { return "\1"; }
    char do_thousands_sep() const override { return '\''; }
    char do_decimal_point() const override { return ','; }
    std::string do_truename() const override { return "ja"; }
    std::string do_falsename() const override { return "nein"; }
};
struct Classes : std::ctype<char> { // digits are letters, letters are spaces
    static const mask* table() {
        static const mask* t = [] { auto* v = new mask[table_size]; std::copy(classic_table(), classic_table() + table_size, v); for (int c = '0'; c <= '9'; c++) v[c] = alpha; for (int c = 'a'; c <= 'f'; c++) v[c] = space; return v; }();
        return t;
    }
    Classes() : std::ctype<char>(table()) {}
};
void onAlarm(int) { errno = EINTR; }
enum { FPROUND = 1, FPFLUSH = 2, FPTRAP = 4, CXXLOCALE = 8, CLOCALE = 16, ENVIRON = 32, CWD = 64, FILES = 128, ERRNO = 256, SIGNALS = 512, BLOCKED = 1024, INFLIGHT = 2048, CAUGHT = 4096, ALL = 8191, NALTER = 13 };
const char* alterName[] = {"rounding mode", "flush to zero", "floating-point traps", "C++ locale", "C locale", "environment", "no working directory", "closed streams and no descriptors left", "errno", "arriving signals", "blocked signals", "exception in flight", "inside a catch block"};
std::string showAlter(uint64_t a) { std::string s; for (int i = 0; i < NALTER; i++) if (a >> i & 1) s += (s.empty() ? "" : ", ") + std::string(alterName[i]); return s.empty() ? "nothing altered" : "altered: " + s; }

void report(Shared* s, const std::string& m) { if (!s->what[0]) snprintf(s->what, sizeof s->what, "%s", m.c_str()); }

struct Unwind { // makes the calls while an exception is being propagated
    std::function<void()> f;
    ~Unwind() { f(); }
};
void child(Shared* s, const std::vector<Call>& cs, const std::vector<Res>& want, uint64_t alter, uint64_t seed, bool watch) {
    alarm(90);
    int cap = memfd_create("streams", 0);
    std::cout.flush(); fflush(nullptr);
    dup2(cap, 1); dup2(cap, 2); close(cap);
    bystanders = new std::vector<std::pair<uint8_t*, size_t>>;
    for (int i = 0; i < 40; i++) { size_t n = 8 + pbt::mix64(seed + i) % (i % 4 ? 200 : 3000); auto* p = new uint8_t[n]; memset(p, int(i), n); bystanders->push_back({p, n}); }
    for (int i = 0; i < 40; i += 5) { delete[] (*bystanders)[i].first; (*bystanders)[i].second = 0; } // leaves holes between them
    auto rnd = [&](int i, uint64_t n) { return pbt::mix64(seed ^ uint64_t(i) << 32) % n; };
    // results before anything is altered, so that what the library sets up once is not mistaken for a lasting effect
    std::vector<Res> got(cs.size());
    if (rnd(9, 2)) for (size_t i = 0; i < cs.size(); i++) one(cs[i], got[i]);
    if (alter & FPROUND) { const int m[] = {FE_UPWARD, FE_DOWNWARD, FE_TOWARDZERO}; fesetround(m[rnd(1, 3)]); }
    if (alter & FPFLUSH) _mm_setcsr(_mm_getcsr() | 0x8040);
    if (alter & FPTRAP) { feclearexcept(FE_ALL_EXCEPT); feenableexcept(FE_DIVBYZERO | FE_INVALID | FE_OVERFLOW); }
    if (alter & CXXLOCALE) std::locale::global(rnd(2, 2) ? std::locale(std::locale::classic(), new Punct) : std::locale(std::locale(std::locale::classic(), new Punct), new Classes));
    if (alter & CLOCALE) setlocale(LC_ALL, "C.utf8");
    if (alter & ENVIRON) {
        if (rnd(3, 3) == 0) clearenv();
        else { setenv("BLS_DISABLE_BMI2", "1", 1); setenv("LC_ALL", "tr_TR", 1); setenv("TMPDIR", "/nonexistent", 1); }
    }
    if (alter & CWD) { char t[] = "/tmp/p29.XXXXXX"; if (mkdtemp(t)) { if (chdir(t)) {} rmdir(t); } }
    if (alter & FILES) {
        fflush(nullptr);
        for (int i = 0; i < 3; i++) close(i);
        rlimit r = {}; getrlimit(RLIMIT_NOFILE, &r); r.rlim_cur = 0; setrlimit(RLIMIT_NOFILE, &r);
    }
    if (alter & BLOCKED) { sigset_t m; sigfillset(&m); sigdelset(&m, SIGSYS); sigdelset(&m, SIGALRM); pthread_sigmask(SIG_SETMASK, &m, nullptr); raise(SIGUSR1); signal(SIGUSR1, SIG_IGN); }
    if (alter & SIGNALS) {
        struct sigaction sa = {}; sa.sa_handler = onAlarm; sigaction(SIGVTALRM, &sa, nullptr); // without SA_RESTART
        itimerval t = {}; t.it_value.tv_usec = t.it_interval.tv_usec = 1000; setitimer(ITIMER_VIRTUAL, &t, nullptr);
    }
    int rseed = int(rnd(4, 1000)), e0 = 0;
    if (alter & ERRNO) { const int es[] = {ERANGE, EINVAL, ENOMEM, EDOM, EINTR}; e0 = es[rnd(5, 5)]; }
    bool mon = watch && !(alter & SIGNALS);
    if (mon) intercept();
    else interceptable = false;
    srand(rseed); srandom(rseed);
    (void)rand();
    int next2 = rand();
    srand48(rseed);
    double nd = drand48();
    Snap before, after;
    auto body = [&] {
        for (size_t i = 0; i < cs.size(); i++) {
            s->at = i;
            srand(rseed); (void)rand(); srand48(rseed);
            take(before);
            seenCall = -1;
            volatile uint64_t guard[64];
            for (int k = 0; k < 64; k++) guard[k] = seed + uint64_t(k);
            if (alter & ERRNO) errno = e0;
            if (interceptable) selector = 1;
            one(cs[i], got[i]);
            selector = 0;
            unsigned long fl = __readeflags();
            bool g = true;
            for (int k = 0; k < 64; k++) g = g && guard[k] == seed + uint64_t(k);
            int n2 = rand(); double d = drand48();
            if (!(alter & FILES)) { fflush(stdout); fflush(stderr); std::cout.flush(); std::cerr.flush(); std::clog.flush(); }
            take(after);
            std::string m;
            if (fl >> 10 & 1) m = "left the direction flag set";
            else if (!g) m = "wrote to the stack of its caller";
            else if (seenCall >= 0) m = "made system call number " + std::to_string(seenCall) + " (first argument " + std::to_string(seenArg) + ")";
            else if (n2 != next2 || d != nd) m = "used the random-number generator of the C library";
            else m = difference(before, after);
            if (!m.empty()) report(s, m);
            else if (!(got[i] == want[i])) report(s, "gives " + show(got[i]) + ", an ordinary call gives " + show(want[i]) + (got[i].intact == want[i].intact ? "" : " (and modified a constant argument)"));
            if (s->what[0]) _exit(3);
        }
    };
    try {
        if (alter & INFLIGHT) { try { Unwind u{[&] { body(); }}; throw 1; } catch (int) {} }
        else if (alter & CAUGHT) { try { throw std::runtime_error("caught"); } catch (const std::exception&) { body(); } }
        else body();
    } catch (...) { report(s, "an exception escaped"); _exit(3); }
    s->done = 1 + uint64_t(interceptable);
    _exit(0);
}

void surroundings(Gen& g, Ctx& c, size_t maxn, int maxcost) {
    auto& all = ops::all();
    size_t n = g.range(1, maxn);
    std::vector<Call> cs;
    for (size_t i = 0; i < n; i++) {
        uint32_t op = uint32_t(g.below(all.size()));
        for (int t = 0; all[op].cost > maxcost && t < 50; t++) op = (op + 1) % all.size();
        cs.push_back(Call{op, uint32_t(g.below(4096)), uint32_t(g.below(NP)), uint32_t(g.flip() ? NP : g.range(1, 6))});
    }
    uint64_t alter = 0;
    switch (g.weighted({1, 3, 3})) {
    case 0: break;
    case 1: alter = 1ull << g.below(NALTER); break;
    default: alter = g.raw() & g.raw() & ALL;
    }
    if ((alter & INFLIGHT) && (alter & CAUGHT)) alter &= ~uint64_t(CAUGHT);
    bool watch = g.chance(7, 8);
    uint64_t seed = g.raw();
    auto list = [&] { std::string s; for (auto& x : cs) s += (s.empty() ? "" : "; ") + show(x); return s; };
    c.note([&] { return list() + "; " + showAlter(alter); });
    for (auto& x : cs) c.label(all[x.op].name);
    for (int i = 0; i < NALTER; i++) if (alter >> i & 1) c.label(std::string("altered: ") + alterName[i]);
    c.nontrivial();
    std::vector<Res> want(n);
    for (size_t i = 0; i < n; i++) one(cs[i], want[i]);
    Shared* s = shared();
    memset(s, 0, sizeof *s);
    fflush(nullptr);
    pid_t pid = fork();
    if (pid < 0) throw std::runtime_error("fork failed");
    if (pid == 0) {
        prctl(PR_SET_PDEATHSIG, SIGKILL);
        child(s, cs, want, alter, seed, watch);
    }
    int st = 0;
    while (waitpid(pid, &st, 0) < 0 && errno == EINTR) {}
    if (s->done == 2) c.label("system calls intercepted");
    size_t at = std::min<size_t>(size_t(s->at), n - 1);
    CHECK(!s->what[0], show(cs[at]) << " " << s->what << " [" << showAlter(alter) << "; calls: " << list() << "]");
    CHECK(st == 0 && s->done, show(cs[at]) << ": the process ended with wait status " << st << " [" << showAlter(alter) << "; calls: " << list() << "]");
}

// ---- a call interrupted by a handler that makes calls -------------------------------------------
struct In { // arguments prepared beforehand
    B::fp f[2]; B::fp2 f2[3]; B::fp6 f6[2]; B::fp12 f12[2], cyc; B::g1 p[2]; B::g2 q[2]; Sc4 s[2]; uint8_t b[300]; Bytes m, t;
};
struct OutB { uint8_t b[1200]; size_t n; void put(const void* p, size_t k) { if (n + k > sizeof b) k = sizeof b - n; memcpy(b + n, p, k); n += k; } };
struct Atom { const char* name; bool handler; void (*fn)(const In&, OutB&); }; // handler: takes no memory, so may be called from a handler
#define PUT(X) { auto v_ = X; o.put(&v_, sizeof v_); }
#define ATOM(N, H, ...) {N, H, [](const In& a, OutB& o) { __VA_ARGS__; }}
#define FLD(T, F) ATOM(#T "::multiply", true, PUT(a.F[0].multiply(a.F[1]))), ATOM(#T "::square", true, PUT(a.F[0].square())), ATOM(#T "::add/subtract/negate", true, PUT(a.F[0].add(a.F[1])); PUT(a.F[1].subtract(a.F[0])); PUT(a.F[1].negate())), \
    ATOM(#T "::inverse", true, PUT(a.F[0].inverse())), ATOM(#T "::toBytesBE/fromBytesBE", true, auto e = a.F[0].toBytesBE(); PUT(e); auto r = B::T::fromBytesBE(e); if (r) PUT(*r)), ATOM(#T "::exp", true, PUT(a.F[0].exp(std::array<uint64_t, 1>{a.s[0][0]})))
#define GRP(T, P, N) ATOM(#T "::add", true, PUT(a.P[0].add(a.P[1]))), ATOM(#T "::dbl", true, PUT(a.P[0].dbl())), ATOM(#T "::affine", true, PUT(a.P[0].affine())), ATOM(#T "::isOnCurve", true, PUT(a.P[0].isOnCurve())), ATOM(#T "::equal", true, PUT(a.P[0].equal(a.P[1]))), \
    ATOM(#T "::scale", true, PUT(a.P[0].scale(std::array<uint64_t, 1>{a.s[0][0] & 0xffff}))), ATOM(#T "::inCorrectSubgroup", true, PUT(a.P[0].inCorrectSubgroup())), ATOM(#T "::clearCofactor", true, PUT(a.P[0].clearCofactor())), \
    ATOM(#T "::toCompressedBytesBE", true, PUT(a.P[0].toCompressedBytesBE())), ATOM(#T "::toAffineBytesBE/fromAffineBytesBE", true, auto e = a.P[0].toAffineBytesBE(); PUT(e); auto r = B::T::fromAffineBytesBE(e); if (r) PUT(*r)), \
    ATOM(#T "::toCompressedBytesBE/fromCompressedBytesBE", true, auto e = a.P[1].toCompressedBytesBE(); auto r = B::T::fromCompressedBytesBE(e); if (r) PUT(*r)), ATOM(#T "::mapToCurve", true, PUT(B::T::mapToCurve(a.N[0])))
const std::vector<Atom>& atoms() {
    static const std::vector<Atom> v = {
        FLD(fp, f), FLD(fp2, f2), FLD(fp6, f6), FLD(fp12, f12), GRP(g1, p, f), GRP(g2, q, f2),
        ATOM("fp::sqrt", true, B::fp c = B::fp::zero(); bool r = a.f[0].sqrt(c); o.put(&r, 1); if (r) PUT(c)), ATOM("fp2::sqrt", true, B::fp2 c = B::fp2::zero(); bool r = a.f2[0].sqrt(c); o.put(&r, 1); if (r) PUT(c)),
        ATOM("fp12::cyclotomicSquare", true, PUT(a.cyc.cyclotomicSquare())), ATOM("fp12::frobeniusMap", true, PUT(a.f12[0].frobeniusMap(a.s[0][0] % 13))), ATOM("fp12::mulBy014Assign", true, B::fp12 x(a.f12[0]); x.mulBy014Assign(a.f2[0], a.f2[1], a.f2[2]); PUT(x)),
        ATOM("fp6::mulBy01", true, PUT(a.f6[0].mulBy01(a.f2[0], a.f2[1]))), ATOM("fp::toMont/fromMont", true, PUT(a.f[0].toMont()); PUT(a.f[1].fromMont())), ATOM("fp::modPrime", true, std::array<uint64_t, 8> w; for (int i = 0; i < 8; i++) w[i] = a.s[i / 4][i % 4]; PUT(B::fp::modPrime<8>(w))),
        ATOM("scalar::add/multiply", true, auto x = B::scalar::add<5, 4, 4>(a.s[0], a.s[1]); PUT(x); auto y = B::scalar::multiply<8, 4, 4>(a.s[0], a.s[1]); PUT(y)), ATOM("bn_divn_safe", true, Sc4 c, d; if (a.s[1] != Sc4{}) { B::bn_divn_safe(c, d, a.s[0], a.s[1]); PUT(c); PUT(d); }),
        ATOM("scalar::bytes", true, PUT(B::scalar::toBytesBE(a.s[0])); std::span<const uint8_t, 32> sp(a.b, 32); PUT(B::scalar::fromBytesLE<4>(sp))),
        ATOM("g1::glvEndomorphism", true, PUT(a.p[0].glvEndomorphism())), ATOM("g2::psi", true, PUT(a.q[0].psi())), ATOM("pairing::doubling_step", true, std::array<B::fp2, 3> e; B::g2 r(a.q[0]); B::pairing::doubling_step(e, r); PUT(e); PUT(r)),
        ATOM("sk_from_bytes", true, std::array<uint8_t, 32> x; memcpy(x.data(), a.b, 32); PUT(B::sk_from_bytes(x, true)); PUT(B::sk_to_bytes(a.s[0]))), ATOM("public_key", true, PUT(B::public_key(a.s[0]))),
        // interrupted only: these may take memory
        ATOM("xmd_sh256", false, uint8_t r[96]; memset(r, 0, sizeof r); B::xmd_sh256(r, 96, a.m.data(), a.m.size(), a.t.data(), int(std::min<size_t>(a.t.size(), 255))); o.put(r, 96)),
        ATOM("hkdf256_hmac", false, uint8_t r[32]; memset(r, 0, sizeof r); B::hkdf256_hmac(r, a.m.data(), a.m.size(), a.t.data(), a.t.size()); o.put(r, 32)),
        ATOM("hkdf256_extract_expand", false, uint8_t r[80]; memset(r, 0, sizeof r); B::hkdf256_extract_expand(r, 80, a.m.data(), a.m.size(), a.t.data(), a.t.size(), a.b, 20); o.put(r, 80)),
        ATOM("hexToBytes/bytesToHex", false, auto h = B::bytesToHex(a.m); o.put(h.data(), std::min<size_t>(h.size(), 500)); auto r = B::hexToBytes(h); o.put(r.data(), std::min<size_t>(r.size(), 500))),
        ATOM("secret_key", false, PUT(B::secret_key(std::span<const uint8_t>(a.b, 40)))), ATOM("fromMessage", false, PUT(B::fromMessage(a.m, "tag"))), ATOM("weightedSum", false, PUT(B::g1::weightedSum(std::span<const B::g1>(a.p, 2), std::span<const Sc4>(a.s, 2)))),
        ATOM("pairing::calculate", false, std::vector<std::tuple<B::g1, B::g2>> v; B::pairing::add_pair(v, a.p[0], a.q[0]); PUT(B::pairing::calculate(v))),
        ATOM("sign", false, PUT(B::sign(a.s[0], a.m))),
    };
    return v;
}
In& genIn(Gen& g) {
    static In* keep = nullptr;
    auto* a = new In;
    delete keep;
    keep = a;
    for (auto& x : a->f) x = L(genF(g));
    for (auto& x : a->f2) x = L(genF2(g));
    for (auto& x : a->f6) x = L6(genF6(g));
    for (auto& x : a->f12) x = L(genF12(g));
    a->cyc = pool().cyc[g.below(NP)];
    for (auto& x : a->p) x = rep(g, genP1(g));
    for (auto& x : a->q) x = rep(g, genP2(g));
    for (auto& x : a->s) x = S4(genScalar(g));
    uint64_t w = g.raw();
    for (auto& x : a->b) x = uint8_t(w = pbt::mix64(w));
    a->m = genBytes(g, 200);
    a->t = genBytes(g, 100);
    return *a;
}
volatile long left_ = 0, fired = 0, steps = 0;
void (*handlerCall)() = nullptr;
void onTrap(int, siginfo_t*, void* u) {
    steps = steps + 1;
    left_ = left_ - 1;
    if (left_ > 0) return;
    ((ucontext_t*)u)->uc_mcontext.gregs[REG_EFL] &= ~0x100ll;
    fired = 1;
    handlerCall();
}
const Atom* hA; const In* hIn; OutB hOut;
void runHandler() { int e = errno; hOut.n = 0; hA->fn(*hIn, hOut); errno = e; }
inline __attribute__((always_inline)) void stepOn() { asm volatile("lea -128(%%rsp), %%rsp; pushfq; orq $0x100, (%%rsp); popfq; lea 128(%%rsp), %%rsp" ::: "memory", "cc"); }
inline __attribute__((always_inline)) void stepOff() { asm volatile("lea -128(%%rsp), %%rsp; pushfq; andq $~0x100, (%%rsp); popfq; lea 128(%%rsp), %%rsp" ::: "memory", "cc"); }
__attribute__((noinline)) void stepped(const Atom& a, const In& in, OutB& o) {
    stepOn();
    a.fn(in, o);
    stepOff();
}
} // namespace

namespace {
// how many instructions each computation takes on ordinary arguments, up to a limit: the points of interruption are spread over that
constexpr long STEPCAP = 5000;
std::vector<long> lengths;
void measure() {
    Gen g = Gen::derived(77);
    struct sigaction sa = {}, old;
    sa.sa_sigaction = onTrap;
    sa.sa_flags = SA_SIGINFO;
    sigaction(SIGTRAP, &sa, &old);
    handlerCall = [] {};
    for (auto& a : atoms()) {
        In& in = genIn(g);
        OutB o;
        o.n = 0;
        a.fn(in, o);
        left_ = STEPCAP; fired = 0; steps = 0;
        stepped(a, in, o);
        lengths.push_back(long(steps));
    }
    sigaction(SIGTRAP, &old, nullptr);
}
void after() { pool(); mirror(); ops::all(); slots(); Classes::table(); measure(); }
struct Setup { Setup() { g_need_points = true; g_after_warmup = after; } } setup;
}

// calls of up to about a millisecond in altered surroundings
PROP(surroundings, 16000, 400000) { surroundings(g, c, 4, 1); }
// all calls
PROP(surroundings_all, 3000, 60000) { surroundings(g, c, 3, 2); }

// a call interrupted at a generated instruction by a handler that makes a call of its own
PROP(interrupted, 9000, 200000) {
    auto& all = atoms();
    static std::vector<const Atom*> hs = [] { std::vector<const Atom*> v; for (auto& x : atoms()) if (x.handler) v.push_back(&x); return v; }();
    const size_t ai = g.below(all.size());
    const Atom& a = all[ai];
    const Atom& h = g.chance(1, 2) && a.handler ? a : *g.pick(hs);
    In in = genIn(g);
    const bool shared = g.chance(1, 3); // the handler uses the very objects the interrupted call is using
    In other = shared ? in : genIn(g);
    const In& in2 = shared ? in : other;
    // where: anywhere in the call (long ones: in its first part, sometimes later)
    const uint64_t frac = g.below(1 << 16);
    long at = 1 + long(frac * uint64_t(lengths[ai]) >> 16);
    if (lengths[ai] >= STEPCAP && g.chance(1, 12)) at *= long(g.range(2, c.thorough ? 30 : 8));
    OutB wa, wh, o;
    wa.n = wh.n = o.n = 0;
    a.fn(in, wa);
    h.fn(in2, wh);
    c.label(a.name);
    c.label(std::string("handler: ") + h.name);
    if (shared) c.label("on the same arguments");
    c.note([&] { return std::string(a.name) + " interrupted after " + std::to_string(at) + " instructions by " + h.name; });
    struct sigaction sa = {}, old;
    sa.sa_sigaction = onTrap;
    sa.sa_flags = SA_SIGINFO;
    sigaction(SIGTRAP, &sa, &old);
    left_ = at; fired = 0; steps = 0;
    hA = &h; hIn = &in2; handlerCall = runHandler;
    stepped(a, in, o);
    sigaction(SIGTRAP, &old, nullptr);
    c.nontrivial(fired);
    c.label(fired ? "interrupted" : "finished before");
    CHECK(o.n == wa.n && !memcmp(o.b, wa.b, o.n), a.name << " interrupted after " << at << " instructions by a handler calling " << h.name << " gives " << pbt::hex(o.b, std::min<size_t>(o.n, 96)) << ", otherwise " << pbt::hex(wa.b, std::min<size_t>(wa.n, 96)));
    if (fired) CHECK(hOut.n == wh.n && !memcmp(hOut.b, wh.b, hOut.n), h.name << " called from a handler that interrupts " << a.name << " after " << at << " instructions gives " << pbt::hex(hOut.b, std::min<size_t>(hOut.n, 96)) << ", otherwise " << pbt::hex(wh.b, std::min<size_t>(wh.n, 96)));
}
