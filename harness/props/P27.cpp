// Long multi-point operations stay interruptible: the callback comes regularly, an exception it throws ends the call.
#include "../common.hpp"
#include "../malloc_count.hpp"
#include <memory>
#include <thread>
#include <sys/mman.h>
#include <time.h>
#include <ucontext.h>
using namespace ref;
PROPERTY("P27")
extern bool g_need_points;
static bool np = (g_need_points = true);
namespace pr = B::pairing;
typedef std::vector<std::tuple<B::g1, B::g2>> Pairs;
typedef std::function<void()> CB;

template<class G> struct T;
template<> struct T<B::g1> { typedef P1 Pt; static K1 sub(Gen& g) { return genSub1(g); } static P1 mul(const mpz_class& k) { return g1mul(k); } static constexpr const char* name = "g1"; };
template<> struct T<B::g2> { typedef P2 Pt; static K2 sub(Gen& g) { return genSub2(g); } static P2 mul(const mpz_class& k) { return g2mul(k); } static constexpr const char* name = "g2"; };

static int64_t cpuNow() {
    timespec t;
    clock_gettime(CLOCK_THREAD_CPUTIME_ID, &t);
    return t.tv_sec * 1000000000ll + t.tv_nsec;
}
template<class G> struct Lst { std::vector<G> p; std::vector<Sc4> s; mpz_class log = 0; };
// a few distinct points and scalars, repeated in random order
template<class G> static Lst<G> genList(Gen& g, size_t n, bool heavy = false) {
    Lst<G> l;
    Gen h = Gen::derived(g.raw());
    std::vector<G> reps;
    std::vector<mpz_class> logs, ks;
    size_t m = 1 + h.below(40);
    for (size_t i = 0; i < m; i++) { auto k = T<G>::sub(h); reps.push_back(rep(h, k.p)); logs.push_back(k.k); }
    unsigned kind = heavy ? 4 : unsigned(g.below(4));
    for (size_t i = 0; i < 64; i++) ks.push_back(kind == 4 ? (mpz_class(1) << 255) + genKey(h) : kind == 0 ? genScalar(h) : kind == 1 ? mpz_class(0) : kind == 2 ? mpz_class(1) : mpz_class(genBits(h, 4)));
    for (size_t i = 0; i < n; i++) {
        size_t a = h.below(m), b = h.below(64);
        l.p.push_back(reps[a]);
        l.s.push_back(S4(ks[b]));
        l.log += logs[a] * ks[b];
    }
    return l;
}

// A long sum never works for more than a hundredth of its own duration without calling back. Durations are CPU times of
// this thread; three tries, since other load can stretch a step.
template<class G> static void cadence(Gen& g, Ctx& c) {
    size_t n = g.pick(std::vector<size_t>{16384, 20000, 32768});
    if (g.flip()) n += g.below(2000);
    auto l = genList<G>(g, n, true);
    typename T<G>::Pt want = T<G>::mul(mpz_class(l.log % R));
    c.nontrivial();
    c.label("points " + std::to_string(n / 4096 * 4096) + "..");
    c.note([&] { return std::string(T<G>::name) + " weighted sum of " + std::to_string(n) + " points"; });
    double ratio = 1;
    uint64_t calls = 0;
    int64_t worst = 0, total = 0;
    for (int k = 0; k < 3 && ratio > 0.01; k++) {
        calls = 0;
        worst = 0;
        int64_t t0 = cpuNow(), last = t0;
        auto tick = [&] { int64_t t = cpuNow(); worst = std::max(worst, t - last); last = t; };
        G r = G::weightedSum(l.p, l.s, [&] { calls++; tick(); });
        tick();
        total = last - t0;
        ratio = double(worst) / double(total);
        CHECK(V(r, "weightedSum") == want, T<G>::name << " weightedSum of " << n << " points is wrong when a callback is given");
    }
    CHECK(ratio <= 0.01, T<G>::name << " weightedSum of " << n << " points: " << worst / 1000 << " us of " << total / 1000 << " us pass without a callback (" << calls << " callbacks in all)");
}
PROP(cadence_g1, 24, 300) { cadence<B::g1>(g, c); }
PROP(cadence_g2, 12, 150) { cadence<B::g2>(g, c); }

// A multi-pairing of at least 20 pairs calls back, and not only when it is all over
PROP(cadence_pairing, 120, 4000) {
    size_t n = g.range(20, c.thorough ? 300 : 60);
    Pairs ps;
    Gen h = Gen::derived(g.raw());
    for (size_t i = 0; i < n; i++) {
        bool inf = h.chance(1, 6);
        ps.emplace_back(inf ? B::g1::zero() : LA(genSub1(h, false).p), h.chance(1, 10) ? B::g2::zero() : LA(genSub2(h, false).p));
    }
    c.nontrivial();
    c.note([&] { return std::to_string(n) + " pairs"; });
    bool whole = g.flip();
    double first = 1;
    uint64_t calls = 0;
    for (int k = 0; k < 3 && first > 0.9; k++) {
        calls = 0;
        int64_t t0 = cpuNow(), t1 = 0;
        CB cb = [&] { if (!calls++) t1 = cpuNow(); };
        if (whole) pr::calculate(ps, cb); else pr::miller_loop(ps, cb);
        first = calls ? double(t1 - t0) / double(cpuNow() - t0) : 1;
    }
    CHECK(calls > 0, (whole ? "calculate" : "miller_loop") << " of " << n << " pairs never called back");
    CHECK(first <= 0.9, (whole ? "calculate" : "miller_loop") << " of " << n << " pairs called back only at the end");
}

// Exceptions of every kind, at any callback, alone or in two threads at once; then the same call again.
struct Plain { int n; };
struct Std : std::runtime_error { int n; explicit Std(int k) : std::runtime_error("stop"), n(k) {} };
struct Moody { std::shared_ptr<int> p; }; // owns something
enum Kind { INT, PLAIN, STD, MOODY, NKIND };
static void raise(unsigned kind, int n) {
    switch (kind) {
    case INT: throw n;
    case PLAIN: throw Plain{n};
    case STD: throw Std(n);
    default: throw Moody{std::make_shared<int>(n)};
    }
}
// runs f, says what came out: -1 nothing, otherwise the number thrown (-2: something else)
template<class Fn> static int caught(Fn&& f, unsigned kind) {
    try { f(); return -1; }
    catch (int n) { return kind == INT ? n : -2; }
    catch (const Plain& p) { return kind == PLAIN ? p.n : -2; }
    catch (const Std& p) { return kind == STD ? p.n : -2; }
    catch (const Moody& p) { return kind == MOODY ? *p.p : -2; }
    catch (...) { return -2; }
}
struct Work { // one long operation with its right answer
    std::string name;
    std::function<bool(const CB&)> run; // false: wrong result
    std::function<bool()> intact;
};
template<class G> static Work sumWork(Gen& g, size_t n) {
    auto l = std::make_shared<Lst<G>>(genList<G>(g, n));
    auto keep = std::make_shared<Lst<G>>(*l);
    auto want = T<G>::mul(mpz_class(l->log % R));
    return {std::string(T<G>::name) + " weightedSum of " + std::to_string(n) + " points",
            [l, want](const CB& cb) { G r = G::weightedSum(l->p, l->s, cb); return V(r) == want; },
            [l, keep] { return !memcmp(l->p.data(), keep->p.data(), l->p.size() * sizeof(G)) && l->s == keep->s; }};
}
static Work pairWork(Gen& g, size_t n, bool whole) {
    auto ps = std::make_shared<Pairs>();
    Gen h = Gen::derived(g.raw());
    for (size_t i = 0; i < n; i++) ps->emplace_back(LA(genSub1(h, false).p), LA(genSub2(h, false).p));
    auto keep = std::make_shared<Pairs>(*ps);
    auto want = std::make_shared<B::fp12>(whole ? pr::calculate(*ps) : pr::miller_loop(*ps, {})); // judged by P16 and P17
    return {std::string(whole ? "calculate" : "miller_loop") + " of " + std::to_string(n) + " pairs",
            [ps, want, whole](const CB& cb) { return (whole ? pr::calculate(*ps, cb) : pr::miller_loop(*ps, cb)).equal(*want); },
            [ps, keep] { return !memcmp((const void*)ps->data(), (const void*)keep->data(), ps->size() * sizeof((*ps)[0])); }};
}
static Work genWork(Gen& g, bool thorough) {
    size_t n = g.pick(std::vector<size_t>{256, 257, 300, 512, 513, 1024, 2048});
    if (thorough && g.chance(1, 10)) n *= 4;
    switch (g.weighted({3, 2, 1, 1})) {
    case 0: return sumWork<B::g1>(g, n);
    case 1: return sumWork<B::g2>(g, n);
    case 2: return pairWork(g, g.range(20, 40), true);
    default: return pairWork(g, g.range(20, 40), false);
    }
}
PROP(abort, 500, 15000) {
    Work w = genWork(g, c.thorough);
    c.label(w.name.substr(0, w.name.find(' ', 4)));
    int total = 0;
    std::thread::id me = std::this_thread::get_id();
    bool foreign = false, ok = false;
    CB count = [&] { total++; foreign |= std::this_thread::get_id() != me; };
    ok = w.run(count);
    CHECK(ok, w.name << " is wrong when a callback is given");
    CHECK(total > 0, w.name << " never calls back");
    CHECK(!foreign, w.name << " calls back on another thread");
    c.nontrivial();
    int again = 0;
    CHECK(w.run([&] { again++; }) && again == total, w.name << " called back " << total << " times, the second time " << again << " times");
    unsigned tries = unsigned(g.range(1, 4));
    for (unsigned k = 0; k < tries; k++) {
        int at = g.chance(1, 4) ? 1 : g.chance(1, 3) ? total : int(g.range(1, uint64_t(total)));
        unsigned kind = unsigned(g.below(NKIND));
        c.label(at == 1 ? "thrown at the first callback" : at == total ? "thrown at the last callback" : "thrown in between");
        c.note([&] { return w.name + ", exception of kind " + std::to_string(kind) + " at callback " + std::to_string(at) + " of " + std::to_string(total); });
        int seen = 0, got = 0;
        CB cb = [&] { if (++seen == at) raise(kind, at); };
        long leak = mc::leaked([&] { seen = 0; got = caught([&] { (void)w.run(cb); }, kind); });
        CHECK(got == at, w.name << ": the exception thrown by callback " << at << " of " << total << " did not reach the caller" << (got == -2 ? " unchanged" : ""));
        CHECK(seen == at, w.name << ": called back again after callback " << at << " had thrown");
        CHECK(leak <= 0, w.name << ": aborted at callback " << at << " of " << total << " it leaves " << leak << " heap blocks behind");
        CHECK(w.intact(), w.name << ": aborted at callback " << at << ", an argument has changed");
        if (g.flip()) {
            CHECK(w.run({}), w.name << " is wrong after a call that was aborted at callback " << at << " of " << total);
            int n2 = 0;
            CHECK(w.run([&] { n2++; }) && n2 == total, w.name << " calls back " << n2 << " times after an aborted call, " << total << " before");
        }
    }
}
// An operation aborted, or completed, inside the callback of another, and two threads aborting different operations
PROP(nested, 150, 5000) {
    Work a = genWork(g, false), b = genWork(g, false);
    int ta = 0, tb = 0;
    CHECK(a.run([&] { ta++; }) && b.run([&] { tb++; }), "wrong result with a callback");
    CHECK(ta && tb, (ta ? b : a).name << " never calls back");
    int xa = int(g.range(1, uint64_t(ta))), xb = int(g.range(1, uint64_t(tb)));
    unsigned mode = unsigned(g.below(3));
    c.nontrivial();
    c.note([&] { return a.name + ", callback " + std::to_string(xa) + " of " + std::to_string(ta) + (mode == 2 ? "; at the same time " : " enters ") + b.name + ", which is aborted at its callback " + std::to_string(xb); });
    int sa = 0, sb = 0, gb = 0;
    if (mode < 2) {
        bool fine = false;
        int ga = caught([&] {
            fine = a.run([&] {
                if (++sa != xa) return;
                sb = 0;
                auto inner = [&] { (void)b.run([&] { if (++sb == xb) raise(INT, xb); }); };
                if (mode == 0) gb = caught(inner, INT); else inner(); // the inner exception leaves both
            });
        }, INT);
        if (mode == 0) {
            c.label("inner abort contained");
            CHECK(gb == xb && ga == -1 && fine && sa == ta, a.name << " is disturbed by " << b.name << " aborted inside its callback " << xa);
        } else {
            c.label("inner abort leaves both");
            CHECK(ga == xb && sa == xa, b.name << " aborted inside callback " << xa << " of " << a.name << ": the exception did not leave both");
        }
    } else {
        c.label("two threads");
        int ga = 0;
        std::thread t([&] { gb = caught([&] { (void)b.run([&] { if (++sb == xb) raise(INT, xb); }); }, INT); });
        ga = caught([&] { (void)a.run([&] { if (++sa == xa) raise(INT, xa); }); }, INT);
        t.join();
        CHECK(ga == xa && sa == xa, a.name << " aborted while another thread aborts " << b.name << ": the exception did not reach the caller");
        CHECK(gb == xb && sb == xb, b.name << " aborted while another thread aborts " << a.name << ": the exception did not reach the caller");
    }
    CHECK(a.run({}) && b.run({}), "wrong result after aborted calls of " << a.name << " and " << b.name);
    CHECK(a.intact() && b.intact(), "an argument of " << a.name << " or " << b.name << " has changed");
}

// Several operations in progress at once on one thread: each runs on a stack of its own and its callback hands over to
// another in a generated order, so that they are entered, resumed and finished in any order, not only last in, first out.
namespace {
struct Fiber { Work w; int total = 0, throwAt = 0, seen = 0, got = -1; bool fine = false, done = false; ucontext_t ctx; void* stack = nullptr; };
struct Fibers { std::vector<Fiber> f; std::vector<unsigned> plan; size_t step = 0, cur = 0, switches = 0; ucontext_t back; };
Fibers* running = nullptr;
constexpr size_t FSTACK = 1 << 20;
void handOver() {
    Fibers& r = *running;
    const unsigned want = r.plan.empty() ? 0 : r.plan[r.step++ % r.plan.size()];
    if (!want) return; // goes on
    for (size_t k = 0; k < r.f.size(); k++) {
        size_t to = (r.cur + want + k) % r.f.size();
        if (to == r.cur || r.f[to].done) continue;
        size_t from = r.cur;
        r.cur = to;
        r.switches++;
        swapcontext(&r.f[from].ctx, &r.f[to].ctx);
        return;
    }
}
void fiberMain() {
    Fibers& r = *running;
    Fiber& f = r.f[r.cur];
    f.got = caught([&] { f.fine = f.w.run([&f] { if (++f.seen == f.throwAt) raise(INT, f.throwAt); handOver(); }); }, INT);
    f.done = true;
    for (size_t k = 0; k < r.f.size(); k++) if (!r.f[k].done) { size_t from = r.cur; r.cur = k; swapcontext(&r.f[from].ctx, &r.f[k].ctx); }
    setcontext(&r.back);
}
}
PROP(fibers, 120, 4000) {
#ifdef MC_OFF
    return; // AddressSanitizer does not follow changes of the stack
#else
    Fibers r;
    size_t n = g.range(2, 4);
    r.f.resize(n);
    std::string names;
    for (auto& f : r.f) {
        f.w = genWork(g, false);
        CHECK(f.w.run([&] { f.total++; }) && f.total, f.w.name << " with a callback is wrong or never calls back");
        if (g.chance(1, 3)) f.throwAt = int(g.range(1, uint64_t(f.total)));
        names += (names.empty() ? "" : ", ") + f.w.name + (f.throwAt ? " (aborted at callback " + std::to_string(f.throwAt) + " of " + std::to_string(f.total) + ")" : "");
    }
    for (size_t k = g.range(1, 12); k--;) r.plan.push_back(unsigned(g.below(n + 1)));
    c.note([&] { return "interleaved: " + names; });
    for (auto& f : r.f) {
        f.stack = mmap(nullptr, FSTACK, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
        if (f.stack == MAP_FAILED) throw pbt::Discard{};
        getcontext(&f.ctx);
        f.ctx.uc_stack.ss_sp = f.stack;
        f.ctx.uc_stack.ss_size = FSTACK;
        f.ctx.uc_link = nullptr;
        makecontext(&f.ctx, fiberMain, 0);
    }
    running = &r;
    swapcontext(&r.back, &r.f[0].ctx);
    for (auto& f : r.f) munmap(f.stack, FSTACK);
    running = nullptr;
    c.nontrivial(r.switches > 0);
    c.label(r.switches ? "interleaved" : "one after the other");
    for (auto& f : r.f) {
        if (f.throwAt) CHECK(f.got == f.throwAt && f.seen == f.throwAt, f.w.name << ", interleaved with others on one thread (" << names << "): the exception thrown at its callback " << f.throwAt << " did not end it and reach its caller");
        else CHECK(f.fine && f.seen == f.total, f.w.name << " gives a wrong result or number of callbacks when interleaved with others on one thread (" << names << ")");
        CHECK(f.w.intact(), f.w.name << ": an argument changed while operations were interleaved on one thread (" << names << ")");
    }
#endif
}
