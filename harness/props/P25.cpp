#include "pool.hpp"
#include "malloc_count.hpp"
#include <signal.h>
#include <sys/mman.h>
#include <sys/prctl.h>
#include <sys/wait.h>
#include <unistd.h>
PROPERTY("P25")

extern bool g_need_points;
extern void (*g_after_warmup)();

namespace {
constexpr size_t OUTCAP = 1 << 16;
// arguments and output buffers exist before the call: every allocation counted is the library's (or of a container the
// library returns or takes by contract)
struct QuietSrc : PoolSrc {
    std::vector<std::vector<uint8_t>> ready;
    size_t next = 0;
    QuietSrc(const Call& c, Slots* s) : PoolSrc(c, 0, s, 0) {
        watch.reserve(256);
        for (int i = 0; i < 3; i++) ready.emplace_back(8500, uint8_t(0xA5));
    }
    uint8_t* buffer(int, size_t n) override {
        if (n > 8500) abort();
        return ready[next++ % 3].data();
    }
};
enum End { RETURNED, THREW, FOREIGN };
struct Res {
    uint64_t allocs, failed; // requests made, requests refused
    int64_t leaked;          // heap blocks left behind
    uint32_t end, len;
    uint8_t intact, head[39];
    uint64_t a, b; // digest of the results
};
constexpr size_t MAXR = 600;
struct Shared { volatile uint64_t at; Res r[MAXR]; };
Shared* shared() {
    static Shared* s = nullptr;
    static pid_t owner = 0; // each worker has its own, shared with its children only
    if (owner != getpid()) {
        owner = getpid();
        s = (Shared*)mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    }
    return s;
}
PoolSrc::Slots* slots() { static PoolSrc::Slots* s = new PoolSrc::Slots; return s; }

void runCall(const Call& c, const mc::Faults& f, Res& r) {
    QuietSrc src(c, slots());
    ops::Out o;
    o.b.reserve(OUTCAP);
    long before = mc::live.load();
    uint32_t end = RETURNED;
    mc::faults = f;
    mc::faults.seen = mc::faults.failed = 0;
    mc::faults.armed = true;
    try {
        ops::all()[c.op].fn(src, o);
        mc::faults.armed = false;
    } catch (const std::exception&) {
        mc::faults.armed = false;
        end = THREW;
    } catch (...) {
        mc::faults.armed = false;
        end = FOREIGN;
    }
    r.leaked = mc::live.load() - before;
    r.allocs = mc::faults.seen;
    r.failed = mc::faults.failed;
    r.end = end;
    r.len = uint32_t(o.b.size());
    memset(r.head, 0, sizeof r.head);
    memcpy(r.head, o.b.data(), std::min(o.b.size(), sizeof r.head));
    r.a = fnv(o.b.data(), o.b.size());
    r.b = fnv(o.b.data(), o.b.size(), r.a ^ 0x5bd1e995) ^ o.b.size();
    r.intact = src.intact();
}
template<class Fn> int inChild(Fn&& f) {
    fflush(stdout);
    pid_t pid = fork();
    if (pid == 0) {
        alarm(60);
        prctl(PR_SET_PDEATHSIG, SIGKILL);
        f();
        _exit(0);
    }
    int st = 0;
    while (waitpid(pid, &st, 0) < 0 && errno == EINTR) {}
    return st;
}
std::string ended(int st) {
    if (WIFSIGNALED(st)) return "ended the process with signal " + std::to_string(WTERMSIG(st));
    return "ended the process with status " + std::to_string(WEXITSTATUS(st));
}
std::string show(const mc::Faults& f) {
    std::ostringstream o;
    if (f.at) o << "allocation " << f.at << " fails";
    else if (f.from) o << "allocation " << f.from << " and all later ones fail";
    else if (f.larger) o << "allocations of " << f.larger << " bytes or more fail";
    else if (f.mask) o << "allocations in mask " << std::hex << f.mask << " fail";
    else o << "no allocation fails";
    return o.str();
}
bool starts(const char* s, const char* p) { return strncmp(s, p, strlen(p)) == 0; }
// the ways an operation may say that it failed without an exception
bool reportsFailure(const char* op, const Res& want, const Res& r) {
    if (starts(op, "hkdf256_")) { int rc; memcpy(&rc, r.head, 4); return r.len == 4 && rc != 0; } // non-zero error code
    if (!strcmp(op, "secret_key") || !strcmp(op, "derive_child_sk")) { for (int i = 0; i < 32; i++) if (r.head[i]) return false; return r.len == 32; } // the zero key
    if (want.len == 1 && r.len == 1 && want.head[0] == 1) return r.head[0] == 0; // a verification that did not succeed
    return false;
}
void judge(const Call& c, const mc::Faults& f, const Res& want, const Res& r, const std::string& hist) {
    const char* op = ops::all()[c.op].name;
    auto where = [&] { return show(c) + ", " + show(f) + hist; };
    CHECK(r.end != FOREIGN, where() << ": threw something that is not a standard exception");
    CHECK(r.intact, where() << ": modified an argument it takes by constant reference");
    CHECK(r.leaked <= want.leaked, where() << ": left " << r.leaked << " heap blocks behind");
    if (r.end == THREW) {
        CHECK(r.failed || want.end == THREW, where() << ": threw although no allocation failed");
        return;
    }
    if (want.end == RETURNED && r.a == want.a && r.b == want.b && r.len == want.len) return;
    CHECK(r.failed && reportsFailure(op, want, r), where() << ": returned a wrong result (" << pbt::hex(r.head, std::min<size_t>(r.len, 39)) << ") as if it had succeeded; " << r.failed << " of " << r.allocs << " allocations failed");
}
// operations that allocate, found by running everything once on a few arguments
const std::vector<uint32_t>& allocating() {
    static std::vector<uint32_t> v = [] {
        std::vector<uint32_t> out;
        Shared* sh = shared();
        auto& all = ops::all();
        for (uint32_t i = 0; i < all.size(); i++) {
            bool hit = false;
            for (uint32_t s = 0; s < 3 && !hit; s++) {
                int st = inChild([&] { runCall({i, s, 0, NP}, {}, sh->r[0]); });
                hit = st == 0 && sh->r[0].allocs > 0;
            }
            if (hit) out.push_back(i);
        }
        return out;
    }();
    return v;
}
void after() { pool(); ops::all(); slots(); shared(); allocating(); }
struct Setup { Setup() { g_need_points = true; g_after_warmup = after; } } setup;

Call genCall(Gen& g) {
    auto& v = allocating();
    uint32_t op = !v.empty() && g.chance(3, 4) ? v[g.below(v.size())] : uint32_t(g.below(ops::all().size()));
    return {op, uint32_t(g.below(4096)), uint32_t(g.below(NP)), uint32_t(g.flip() ? NP : g.range(1, 6))};
}
} // namespace

// One call in a process where nothing ran before; each of its allocations fails in turn, alone and with all that follow
// it; afterwards the same call without failures still gives the normal result.
PROP(every_allocation, 9000, 200000) {
    Call c0 = genCall(g);
    c.note([&] { return show(c0); });
    Shared* sh = shared();
    int st = inChild([&] { runCall(c0, {}, sh->r[0]); runCall(c0, {}, sh->r[1]); });
    CHECK(st == 0, show(c0) << ": " << ended(st));
    Res want = sh->r[0], again = sh->r[1];
    CHECK(again.end == want.end && again.a == want.a && again.b == want.b, show(c0) << " gave two different results");
    want.leaked = std::max<int64_t>({want.leaked, again.leaked, 0}); // a first call may fill something that stays
    uint64_t n = want.allocs;
    c.nontrivial(n > 0);
    c.label(ops::all()[c0.op].name);
    c.label(n == 0 ? "no allocation" : n < 5 ? "1 to 4 allocations" : n < 20 ? "5 to 19 allocations" : "20 and more allocations");
    if (!n) return;
    // positions: all when few, otherwise the first, the last and a sample
    std::vector<uint64_t> at;
    if (n <= 24) for (uint64_t i = 1; i <= n; i++) at.push_back(i);
    else { for (uint64_t i = 1; i <= 4; i++) { at.push_back(i); at.push_back(n + 1 - i); } for (int i = 0; i < 12; i++) at.push_back(g.range(1, n)); }
    std::vector<mc::Faults> fs;
    for (auto i : at) { mc::Faults f; f.at = i; fs.push_back(f); mc::Faults h; h.from = i; fs.push_back(h); }
    bool cold = g.flip(); // each schedule in a process of its own, or one after another in one process
    if (cold) {
        size_t i = g.below(fs.size());
        st = inChild([&] { runCall(c0, fs[i], sh->r[0]); runCall(c0, {}, sh->r[1]); });
        CHECK(st == 0, show(c0) << ", " << show(fs[i]) << ": " << ended(st));
        judge(c0, fs[i], want, sh->r[0], " (first call of the process)");
        judge(c0, {}, want, sh->r[1], " (after the same call with " + show(fs[i]) + ")");
        return;
    }
    sh->at = 0;
    st = inChild([&] { for (size_t i = 0; i < fs.size(); i++) { sh->at = i; runCall(c0, fs[i], sh->r[2 * i]); runCall(c0, {}, sh->r[2 * i + 1]); } });
    CHECK(st == 0, show(c0) << ", " << show(fs[sh->at]) << ": " << ended(st));
    for (size_t i = 0; i < fs.size(); i++) {
        judge(c0, fs[i], want, sh->r[2 * i], "");
        judge(c0, {}, want, sh->r[2 * i + 1], " (after the same call with " + show(fs[i]) + ")");
    }
}

// A history of calls with failures scattered over it: every call gives the result it gives alone, or fails visibly
PROP(histories, 2500, 60000) {
    size_t n = g.range(1, c.thorough ? 12 : 6);
    std::vector<Call> cs;
    uint32_t win = uint32_t(g.below(NP));
    for (size_t i = 0; i < n; i++) {
        Call x = genCall(g);
        if (g.flip()) { x.win = win; x.winlen = 3; x.seed %= 8; }
        if (i && g.chance(1, 3)) x = cs[g.below(i)];
        cs.push_back(x);
    }
    Shared* sh = shared();
    sh->at = 0;
    std::vector<Res> want(n);
    for (size_t i = 0; i < n; i++) {
        int st = inChild([&] { runCall(cs[i], {}, sh->r[0]); runCall(cs[i], {}, sh->r[1]); });
        CHECK(st == 0, show(cs[i]) << ": " << ended(st));
        want[i] = sh->r[0];
        want[i].leaked = std::max<int64_t>({want[i].leaked, sh->r[1].leaked, 0});
    }
    std::vector<mc::Faults> fs(n);
    bool some = false;
    for (size_t i = 0; i < n; i++) {
        uint64_t m = want[i].allocs;
        switch (g.weighted({2, 3, 3, 2, 2})) {
        case 0: break;
        case 1: if (m) fs[i].at = g.range(1, m); break;
        case 2: if (m) fs[i].from = g.range(1, m); break;
        case 3: fs[i].larger = size_t(1) << g.range(0, 14); break;
        default: fs[i].mask = g.raw() & g.raw(); break;
        }
        some |= m && (fs[i].at || fs[i].from || fs[i].larger || fs[i].mask);
    }
    c.nontrivial(some);
    auto list = [&] { std::string s; for (size_t i = 0; i < n; i++) s += (i ? "; " : "") + show(cs[i]) + ", " + show(fs[i]); return s; };
    c.note(list);
    int st = inChild([&] { for (size_t i = 0; i < n; i++) { sh->at = i; runCall(cs[i], fs[i], sh->r[i]); } });
    CHECK(st == 0, show(cs[sh->at]) << ", " << show(fs[sh->at]) << ": " << ended(st) << "; history: " << list());
    uint64_t refused = 0;
    for (size_t i = 0; i < n; i++) { judge(cs[i], fs[i], want[i], sh->r[i], "; history: " + list()); refused += sh->r[i].failed; }
    c.label(refused == 0 ? "nothing refused" : refused < 4 ? "1 to 3 allocations refused" : "4 and more allocations refused");
}
