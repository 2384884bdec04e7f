#include "pool.hpp"
#include <alloca.h>
#include <cfenv>
#include <malloc.h>
#include <poll.h>
#include <signal.h>
#include <sys/mman.h>
#include <sys/prctl.h>
#include <sys/socket.h>
#include <sys/un.h>
#include <sys/wait.h>
#include <thread>
#include <atomic>
#include <unistd.h>
#include <unordered_map>
using namespace ref;
PROPERTY("P23")

extern bool g_need_points;
extern void (*g_after_warmup)();

namespace {
struct Dig { uint64_t a = 0, b = 0; bool operator==(const Dig& o) const { return a == o.a && b == o.b; } };
__attribute__((noinline)) void dirtyStack(uint64_t pat, size_t n) {
    volatile uint64_t* p = (volatile uint64_t*)alloca(n);
    for (size_t i = 0; i < n / 8; i++) p[i] = pat + i * (pat & 1);
}
void dirtyHeap(uint64_t pat) {
    void* v[12];
    for (int i = 0; i < 12; i++) { size_t n = size_t(24) << i; v[i] = malloc(n); memset(v[i], int(pat >> i), n); }
    for (int i = 0; i < 12; i++) free(v[i]);
}
// runs one call; const arguments are verified afterwards
Dig runCall(const Call& c, int place, PoolSrc::Slots* sl, uint64_t off, bool reent, bool* intact) {
    PoolSrc src(c, place, sl, off);
    src.reent = reent;
    ops::Out o;
    try {
        ops::all()[c.op].fn(src, o);
    } catch (const std::exception&) {
        o.b.push_back(0xEE);
        o.b.push_back(0xEE);
    }
    if (intact) *intact = src.intact();
    Dig d;
    d.a = fnv(o.b.data(), o.b.size());
    d.b = fnv(o.b.data(), o.b.size(), d.a ^ 0x5bd1e995) ^ o.b.size();
    return d;
}

// ---- results from processes in which nothing ran before -----------------------------------------
constexpr size_t MAXC = 512;
struct Shared {
    volatile uint64_t at;
    volatile uint64_t flags[MAXC];
    Dig d[MAXC];
};
Shared* shared(int i) {
    static Shared* s[3] = {};
    if (!s[i]) s[i] = (Shared*)mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    return s[i];
}
PoolSrc::Slots* slots() { static PoolSrc::Slots* s = new PoolSrc::Slots; return s; }
template<class Fn> int inChild(Fn&& f) {
    fflush(stdout);
    pid_t pid = fork();
    if (pid == 0) {
        alarm(100);
        prctl(PR_SET_PDEATHSIG, SIGKILL);
        f();
        _exit(0);
    }
    int st = 0;
    while (waitpid(pid, &st, 0) < 0 && errno == EINTR) {}
    return st;
}
std::string ended(int st) {
    if (WIFSIGNALED(st)) return "killed by signal " + std::to_string(WTERMSIG(st));
    return "exit status " + std::to_string(WEXITSTATUS(st));
}
struct CallHash { size_t operator()(const Call& c) const { return fnv(&c, sizeof c); } };
Dig fresh(const Call& c) { // in a process of its own
    static std::unordered_map<Call, Dig, CallHash> memo;
    auto it = memo.find(c);
    if (it != memo.end()) return it->second;
    Shared* sh = shared(0);
    int st = inChild([&] { sh->d[0] = runCall(c, 0, slots(), 0, false, nullptr); });
    CHECK(st == 0, show(c) << " in a fresh process: " << ended(st));
    if (memo.size() > 20000) memo.clear();
    memo[c] = sh->d[0];
    return sh->d[0];
}

// ---- other implementations, as servers ----------------------------------------------------------
bool readn(int fd, void* p, size_t n) { auto b = (char*)p; while (n) { ssize_t r = read(fd, b, n); if (r <= 0) { if (r < 0 && errno == EINTR) continue; return false; } b += r; n -= r; } return true; }
bool writen(int fd, const void* p, size_t n) { auto b = (const char*)p; while (n) { ssize_t r = write(fd, b, n); if (r <= 0) { if (r < 0 && errno == EINTR) continue; return false; } b += r; n -= r; } return true; }
sockaddr_un addrOf(const std::string& name, socklen_t* len) {
    sockaddr_un a = {};
    a.sun_family = AF_UNIX;
    memcpy(a.sun_path + 1, name.data(), name.size()); // abstract: nothing on disk
    *len = socklen_t(offsetof(sockaddr_un, sun_path) + 1 + name.size());
    return a;
}
[[noreturn]] void serve(const std::string& name) {
    prctl(PR_SET_PDEATHSIG, SIGKILL);
    if (getppid() == 1) _exit(0);
    signal(SIGCHLD, SIG_IGN);
    int ls = socket(AF_UNIX, SOCK_STREAM | SOCK_CLOEXEC, 0);
    socklen_t len;
    sockaddr_un a = addrOf(name, &len);
    if (ls < 0 || bind(ls, (sockaddr*)&a, len) || listen(ls, 64)) _exit(3);
    for (;;) {
        int fd = accept(ls, nullptr, nullptr);
        if (fd < 0) continue;
        pid_t pid = fork();
        if (pid == 0) {
            close(ls);
            prctl(PR_SET_PDEATHSIG, SIGKILL);
            signal(SIGCHLD, SIG_DFL);
            signal(SIGPIPE, SIG_IGN);
            uint64_t n;
            while (readn(fd, &n, 8) && n <= MAXC) {
                std::vector<Call> cs(n);
                if (!readn(fd, cs.data(), n * sizeof(Call))) break;
                Shared* sh = shared(0);
                sh->at = 0;
                int st = inChild([&] {
                    for (size_t i = 0; i < n; i++) { sh->at = i; sh->d[i] = runCall(cs[i], 0, slots(), i, false, nullptr); }
                });
                uint64_t h[2] = {uint64_t(st), sh->at};
                if (!writen(fd, h, 16) || !writen(fd, sh->d, n * sizeof(Dig))) break;
            }
            _exit(0);
        }
        close(fd);
    }
}
struct Sib { std::string name, sock; int fd = -1; };
std::vector<Sib>& sibs() { static std::vector<Sib> s; return s; }
void after() {
    pool();
    ops::all();
    if (const char* s = getenv("P23_SERVE")) serve(s);
    const char* list = getenv("P23_SIBLINGS"); // name=path[,VAR=value] separated by ;
    if (!list) return;
    std::istringstream is(list);
    std::string e;
    int i = 0;
    while (std::getline(is, e, ';')) {
        if (e.empty()) continue;
        size_t eq = e.find('=');
        Sib s;
        s.name = e.substr(0, eq);
        std::string path = e.substr(eq + 1), var;
        size_t cm = path.find(',');
        if (cm != std::string::npos) { var = path.substr(cm + 1); path = path.substr(0, cm); }
        s.sock = "p23-" + std::to_string(getpid()) + "-" + std::to_string(i++);
        pid_t pid = fork();
        if (pid == 0) {
            prctl(PR_SET_PDEATHSIG, SIGKILL);
            unsetenv("P23_SIBLINGS");
            setenv("P23_SERVE", s.sock.c_str(), 1);
            unsetenv("BLS_DISABLE_BMI2");
            if (!var.empty()) { size_t q = var.find('='); setenv(var.substr(0, q).c_str(), var.substr(q + 1).c_str(), 1); }
            execl(path.c_str(), path.c_str(), (char*)nullptr);
            _exit(127);
        }
        sibs().push_back(s);
    }
}
bool connectTo(Sib& s) {
    socklen_t len;
    sockaddr_un a = addrOf(s.sock, &len);
    for (int t = 0; t < 4000; t++) {
        int fd = socket(AF_UNIX, SOCK_STREAM | SOCK_CLOEXEC, 0);
        if (connect(fd, (sockaddr*)&a, len) == 0) { s.fd = fd; return true; }
        close(fd);
        usleep(10000);
    }
    return false;
}
// digests of the calls, run in order, in another implementation; throws when the sibling is gone (not a violation)
std::vector<Dig> ask(Sib& s, const std::vector<Call>& cs) {
    static pid_t owner = 0;
    if (owner != getpid()) { for (auto& x : sibs()) x.fd = -1; owner = getpid(); } // connections are not shared with other workers
    if (s.fd < 0 && !connectTo(s)) { fprintf(stderr, "P23: sibling %s does not answer\n", s.name.c_str()); _exit(78); }
    uint64_t n = cs.size(), h[2];
    std::vector<Dig> d(n);
    if (!writen(s.fd, &n, 8) || !writen(s.fd, cs.data(), n * sizeof(Call)) || !readn(s.fd, h, 16) || !readn(s.fd, d.data(), n * sizeof(Dig))) { fprintf(stderr, "P23: lost sibling %s\n", s.name.c_str()); _exit(78); }
    CHECK(h[0] == 0, show(cs[h[1] < n ? h[1] : 0]) << " in implementation " << s.name << ": " << ended(int(h[0])));
    return d;
}
struct Setup { Setup() { g_need_points = true; g_after_warmup = after; } } setup;

std::vector<Call> genCalls(Gen& g, size_t maxn, int budget) {
    size_t n = g.range(1, maxn);
    std::vector<uint32_t> focus;
    size_t nf = g.range(1, 5);
    for (size_t i = 0; i < nf; i++) focus.push_back(uint32_t(g.below(ops::all().size())));
    uint32_t win = uint32_t(g.below(NP)), wl = uint32_t(g.range(2, 6));
    if (g.chance(1, 6)) { win = 0; wl = NP; }
    std::vector<Call> cs;
    int spent = 0;
    for (size_t i = 0; i < n && spent < budget; i++) {
        uint32_t op = g.chance(1, 3) ? uint32_t(g.below(ops::all().size())) : g.pick(focus);
        cs.push_back({op, uint32_t(g.below(24)), win, wl});
        int k = ops::all()[op].cost;
        spent += k == 2 ? 40 : k == 1 ? 8 : 1;
    }
    return cs;
}
std::string list(const std::vector<Call>& cs) {
    std::string s;
    for (size_t i = 0; i < cs.size() && i < 12; i++) s += (i ? ", " : "") + show(cs[i]);
    if (cs.size() > 12) s += ", ... (" + std::to_string(cs.size()) + " calls)";
    return s;
}
} // namespace

// A history of calls in one process, in order and permuted, on dirty memory, re-entered from callbacks, with arguments
// at reused addresses: every result equals the one of the same call in a process of its own.
PROP(histories, 2600, 60000) {
    auto cs = genCalls(g, c.thorough ? 60 : 30, c.thorough ? 900 : 400);
    std::vector<size_t> ord(cs.size());
    for (size_t i = 0; i < ord.size(); i++) ord[i] = i;
    for (size_t i = ord.size(); i > 1; i--) std::swap(ord[i - 1], ord[g.below(i)]);
    struct How { int place; uint64_t pat, off; bool reent; int round; };
    std::vector<How> how;
    for (size_t i = 0; i < 2 * cs.size(); i++) {
        uint64_t r = g.raw();
        how.push_back({int(r % 2), pbt::mix64(r), r >> 8 & 15, (r >> 16 & 3) == 1, int(r >> 20 & 3)});
    }
    c.nontrivial(cs.size() >= 2);
    c.note([&] { return list(cs); });
    std::vector<Dig> want;
    for (auto& x : cs) want.push_back(fresh(x));
    uint64_t before = poolSum();
    Shared* sh = shared(1);
    sh->at = 0;
    static const int rm[4] = {FE_TONEAREST, FE_UPWARD, FE_DOWNWARD, FE_TOWARDZERO};
    int st = inChild([&] {
        for (size_t j = 0; j < 2 * cs.size(); j++) {
            size_t i = j < cs.size() ? j : ord[j - cs.size()];
            sh->at = j;
            auto& h = how[j];
            mallopt(M_PERTURB, int(h.pat & 255));
            dirtyHeap(h.pat);
            fesetround(rm[h.round]);
            bool ok = true;
            dirtyStack(h.pat, 32768);
            Dig d = runCall(cs[i], h.place, slots(), h.off, h.reent, &ok);
            if (!(d == want[i])) { sh->flags[0] = 1; _exit(11); }
            if (!ok) { _exit(12); }
        }
        fesetround(FE_TONEAREST);
        if (poolSum() != before) _exit(13);
    });
    size_t j = sh->at;
    const Call& bad = cs[j < cs.size() ? j : ord[(j - cs.size()) % cs.size()]];
    if (WIFEXITED(st) && WEXITSTATUS(st) == 11) CHECK(false, show(bad) << " gave another result as call " << j << " of a history than in a fresh process; history: " << list(cs));
    if (WIFEXITED(st) && WEXITSTATUS(st) == 12) CHECK(false, show(bad) << " modified an argument it takes by constant reference");
    if (WIFEXITED(st) && WEXITSTATUS(st) == 13) CHECK(false, "the history modified arguments passed by constant reference: " << list(cs));
    CHECK(st == 0, show(bad) << " as call " << j << " of a history: " << ended(st));
    for (auto& x : cs) c.label(ops::all()[x.op].name);
}

// The same calls in the other arithmetic implementations and with other contents of uninitialised variables
PROP(implementations, 4500, 120000) {
    if (sibs().empty()) throw pbt::Discard{};
    auto cs = genCalls(g, 40, 500);
    // arguments from the whole pool
    for (auto& x : cs) { x.win = 0; x.winlen = NP; x.seed = uint32_t(g.below(1u << 20)); }
    c.nontrivial(true);
    c.note([&] { return list(cs); });
    Shared* sh = shared(1);
    sh->at = 0;
    int st = inChild([&] {
        for (size_t i = 0; i < cs.size(); i++) { sh->at = i; sh->d[i] = runCall(cs[i], 0, slots(), 0, false, nullptr); }
    });
    CHECK(st == 0, show(cs[sh->at]) << ": " << ended(st));
    std::vector<Dig> mine(sh->d, sh->d + cs.size());
    for (auto& s : sibs()) {
        auto d = ask(s, cs);
        for (size_t i = 0; i < cs.size(); i++) CHECK(d[i] == mine[i], show(cs[i]) << " differs between this implementation (" << c.config << ") and " << s.name);
        c.label("compared with " + s.name);
    }
}

// Many threads on shared arguments
PROP(threads, 500, 12000) {
    auto cs = genCalls(g, 24, 300);
    int nt = int(g.range(2, 8));
    bool inorder = g.flip();
    c.nontrivial(cs.size() >= 2);
    c.note([&] { return std::to_string(nt) + " threads, " + list(cs); });
    std::vector<Dig> want;
    bool tsan = c.config == "tsan";
    if (tsan) {
        Shared* sh = shared(2);
        int st = inChild([&] { for (size_t i = 0; i < cs.size(); i++) { sh->at = i; sh->d[i] = runCall(cs[i], 0, slots(), 0, false, nullptr); } });
        CHECK(st == 0, show(cs[sh->at]) << ": " << ended(st));
        want.assign(sh->d, sh->d + cs.size());
    } else
        for (auto& x : cs) want.push_back(fresh(x));
    uint64_t before = poolSum();
    Shared* sh = shared(1);
    int st = inChild([&] {
        std::atomic<int> ready{0};
        std::atomic<long> bad{-1};
        std::vector<std::thread> ts;
        for (int t = 0; t < nt; t++)
            ts.emplace_back([&, t] {
                auto sl = std::make_unique<PoolSrc::Slots>();
                ready++;
                while (ready.load() < nt) {}
                for (size_t k = 0; k < cs.size() && bad.load() < 0; k++) {
                    size_t i = inorder ? k : (k + size_t(t) * 7) % cs.size();
                    bool ok = true;
                    Dig d = runCall(cs[i], 0, sl.get(), 0, (k & 3) == 1, &ok);
                    if (!(d == want[i])) bad = long(i);
                    if (!ok) bad = long(i) + 1000;
                }
            });
        for (auto& t : ts) t.join();
        if (bad >= 0) { sh->at = uint64_t(bad.load()); _exit(11); }
        if (poolSum() != before) _exit(13);
    });
    if (WIFEXITED(st) && WEXITSTATUS(st) == 11) CHECK(false, show(cs[sh->at % 1000]) << (sh->at >= 1000 ? " modified a constant argument" : " gave another result when called concurrently from ") << nt << " threads; calls: " << list(cs));
    CHECK(!(WIFEXITED(st) && WEXITSTATUS(st) == 98), "data race reported by the thread sanitizer; " << nt << " threads calling " << list(cs));
    CHECK(!(WIFEXITED(st) && WEXITSTATUS(st) == 13), "concurrent calls modified shared constant arguments: " << list(cs));
    CHECK(st == 0, "concurrent calls from " << nt << " threads: " << ended(st) << "; calls: " << list(cs));
}
