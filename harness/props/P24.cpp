#include "ops.hpp"
#include "malloc_count.hpp"
#include <sys/mman.h>
#include <unistd.h>
#include <map>
#include <memory>
#include <functional>
#include <pthread.h>
using namespace ref;
PROPERTY("P24")
extern bool g_need_points;
static bool np = (g_need_points = true);

namespace {
// Objects that end exactly at an inaccessible page or begin right after one, so that code the sanitizers do not see
// (the assembly) cannot read or write past its arguments unnoticed.
struct Arena {
    static constexpr size_t SLOT = 3 * 4096;
    static constexpr int N = 96;
    uint8_t* base;
    int used = 0;
    bool out[N] = {}; // slots the calls may write to
    Arena() {
        base = (uint8_t*)mmap(nullptr, (N + 1) * SLOT + 4096, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
        if (base == MAP_FAILED) _exit(78);
        for (int i = 0; i <= N; i++) mprotect(base + size_t(i) * SLOT, 4096, PROT_NONE);
    }
    void* get(size_t n, bool low, bool writable) { // nullptr when it does not fit
        if (used >= N || n > 2 * 4096) return nullptr;
        out[used] = writable;
        uint8_t* s = base + size_t(used++) * SLOT;
        return low ? s + 4096 : s + SLOT - n;
    }
    void seal(bool on) { // makes the arguments unwritable
        for (int i = 0; i < used; i++) if (!out[i]) mprotect(base + size_t(i) * SLOT + 4096, 2 * 4096, on ? PROT_READ : PROT_READ | PROT_WRITE);
    }
};
Arena& arena() { static Arena* a = new Arena; return *a; }

struct Hostile : ops::Src {
    Gen& g;
    bool thorough;
    std::vector<std::unique_ptr<uint8_t[]>> heap;
    // results of earlier calls
    std::vector<B::fp> rf; std::vector<B::fp2> rf2; std::vector<B::fp6> rf6; std::vector<B::fp12> rf12; std::vector<B::g1> rp; std::vector<B::g2> rq; std::vector<Bytes> rb;
    // arguments of the current call
    std::map<int, void*> mf, mf2, mf6, mf12, mcyc, mp, mq, ms, mk;
    std::map<int, std::pair<uint8_t*, size_t>> mb, mx, mo;
    std::map<int, std::string> mt, mh;
    std::map<int, std::vector<B::g1>> mps; std::map<int, std::vector<B::g2>> mqs; std::map<int, std::vector<Sc4>> mss;
    std::map<int, std::vector<std::vector<uint8_t>>> mm; std::map<int, std::vector<std::tuple<B::g1, B::g2>>> mpr;
    std::map<int, uint64_t> mn;
    std::vector<void*> objs;
    int maxlist = 6;
    Hostile(Gen& gg, bool th) : g(gg), thorough(th) { arena().used = 0; }
    void next() {
        mf.clear(); mf2.clear(); mf6.clear(); mf12.clear(); mcyc.clear(); mp.clear(); mq.clear(); ms.clear(); mk.clear();
        mb.clear(); mx.clear(); mo.clear(); mt.clear(); mh.clear(); mps.clear(); mqs.clear(); mss.clear(); mm.clear(); mpr.clear(); mn.clear(); mv.clear(); vps.clear(); vqs.clear(); vss.clear();
        heap.clear();
        arena().used = 0;
    }
    uint8_t* mem(size_t n, bool writable = false) {
        bool low = g.flip();
        if (void* p = arena().get(n, low, writable)) return (uint8_t*)p;
        heap.emplace_back(new uint8_t[n ? n : 1]);
        return heap.back().get();
    }
    template<class T> T* place(const T& v) { // trivially destructible values
        void* p = arena().get(sizeof(T), g.flip(), false);
        if (!p) { heap.emplace_back(new uint8_t[sizeof(T)]); p = heap.back().get(); }
        return new (p) T(v);
    }
    B::fp genf() {
        switch (g.weighted({6, 2, 1, 2})) {
        case 0: return L(genF(g));
        case 1: { std::array<uint64_t, 6> d; for (auto& w : d) w = genWord(g); return B::fp(d); } // any 384 bits: what a decoder without validity check produces
        case 2: { mpz_class z = P + long(g.below(5)) - 2; std::array<uint64_t, 6> d; z_limbs(z, d.data(), 6); return B::fp(d); }
        default: return rf.empty() ? B::fp(L(genF(g))) : g.pick(rf);
        }
    }
    B::fp2 genf2() { if (!rf2.empty() && g.chance(1, 5)) return g.pick(rf2); if (g.flip()) return L(genF2(g)); B::fp a = genf(), b = genf(); return B::fp2({a, b}); }
    B::fp6 genf6() { if (!rf6.empty() && g.chance(1, 4)) return g.pick(rf6); if (g.flip()) return L6(genF6(g)); B::fp2 a = genf2(), b = genf2(), e = genf2(); return B::fp6({a, b, e}); }
    B::fp12 genf12() { if (!rf12.empty() && g.chance(1, 4)) return g.pick(rf12); if (g.flip()) return L(genF12(g)); B::fp6 a = genf6(), b = genf6(); return B::fp12({a, b}); }
    B::g1 genp() {
        switch (g.weighted({5, 3, 2, 1, 1})) {
        case 0: return rep(g, genP1(g));
        case 1: { B::fp a = genf(), b = genf(), e = genf(); return B::g1({a, b, e}); }
        case 2: return rp.empty() ? rep(g, genP1(g)) : g.pick(rp);
        case 3: { B::g1 t = LA(genP1(g)); (g.flip() ? t.x : t.y) = genf(); return t; }
        default: { B::fp a = genf(), b = genf(); return B::g1({a, b, B::fp::zero()}); }
        }
    }
    B::g2 genq() {
        switch (g.weighted({5, 3, 2, 1, 1})) {
        case 0: return rep(g, genP2(g));
        case 1: { B::fp2 a = genf2(), b = genf2(), e = genf2(); return B::g2({a, b, e}); }
        case 2: return rq.empty() ? rep(g, genP2(g)) : g.pick(rq);
        case 3: { B::g2 t = LA(genP2(g)); (g.flip() ? t.x : t.y) = genf2(); return t; }
        default: { B::fp2 a = genf2(), b = genf2(); return B::g2({a, b, B::fp2::zero()}); }
        }
    }
    Sc4 gens() { Sc4 s; if (g.flip()) return S4(genScalar(g)); for (auto& w : s) w = genWord(g); return s; }
    template<class T, class M, class Fn> const T& memo(M& m, int i, Fn&& f) { void*& p = m[i]; if (!p) p = place<T>(f()); return *(T*)p; }
    const B::fp& f(int i) override { return memo<B::fp>(mf, i, [&] { return genf(); }); }
    const B::fp2& f2(int i) override { return memo<B::fp2>(mf2, i, [&] { return genf2(); }); }
    const B::fp6& f6(int i) override { return memo<B::fp6>(mf6, i, [&] { return genf6(); }); }
    const B::fp12& f12(int i) override { return memo<B::fp12>(mf12, i, [&] { return genf12(); }); }
    const B::fp12& cyc(int i) override { return memo<B::fp12>(mcyc, i, [&] { return genf12(); }); }
    const B::g1& p(int i) override { return memo<B::g1>(mp, i, [&] { return genp(); }); }
    const B::g2& q(int i) override { return memo<B::g2>(mq, i, [&] { return genq(); }); }
    const Sc4& s(int i) override { return memo<Sc4>(ms, i, [&] { return gens(); }); }
    const Sc4& k(int i) override { return memo<Sc4>(mk, i, [&] { return gens(); }); }
    Bytes genb() {
        if (!rb.empty() && g.chance(1, 5)) return g.pick(rb);
        if (g.chance(1, 25)) { Bytes b(g.range(300, thorough ? 200000 : 20000)); uint64_t s = g.raw(); for (auto& x : b) x = uint8_t(s = pbt::mix64(s)); return b; }
        return genBytes(g, 700);
    }
    std::span<const uint8_t> bytes(int i) override {
        auto& e = mb[i];
        if (!e.first) {
            Bytes b = genb();
            if (b.empty() && g.flip()) return {};
            e = {mem(b.size()), b.size()};
            if (!b.empty()) memcpy(e.first, b.data(), b.size());
        }
        return {e.first, e.second};
    }
    void coord(uint8_t* out, size_t n) { // 48-byte coordinates
        for (size_t at = 0; at < n; at += 48) {
            size_t m = std::min<size_t>(48, n - at);
            B::fp v = genf();
            uint8_t t[48];
            for (int j = 0; j < 48; j++) t[j] = uint8_t(v.d[j / 8] >> (8 * (j % 8)));
            if (g.flip()) std::reverse(t, t + 48);
            memcpy(out + at, t, m);
        }
    }
    std::span<const uint8_t> fixed(int i, size_t n) override {
        auto& e = mx[i];
        if (!e.first) {
            e = {mem(n), n};
            uint8_t* o = e.first;
            switch (g.weighted({4, 3, 2, 2, 1})) {
            case 0: g.bytes(o, n); break;
            case 1: coord(o, n); break;
            case 2: { // a well-formed point encoding, cut or padded
                Bytes b;
                if (g.flip()) { auto x = LA(genP1(g)); b = g.flip() ? toB(x.toCompressedBytesBE()) : g.flip() ? toB(x.toAffineBytesBE()) : toB(x.toJacobianBytesLE()); }
                else { auto x = LA(genP2(g)); b = g.flip() ? toB(x.toCompressedBytesBE()) : g.flip() ? toB(x.toAffineBytesBE()) : toB(x.toJacobianBytesLE()); }
                for (size_t j = 0; j < n; j++) o[j] = j < b.size() ? b[j] : 0;
                break;
            }
            case 3: memset(o, g.flip() ? 0xff : 0, n); break;
            default: for (size_t j = 0; j < n; j++) o[j] = uint8_t(genWord(g));
            }
            if (g.chance(1, 2)) o[0] = uint8_t((o[0] & 0x1f) | g.below(8) << 5);
            if (g.chance(1, 4)) o[g.below(n)] ^= uint8_t(1u << g.below(8));
            if (e.second != n) abort();
        }
        return {e.first, n};
    }
    std::string gent(size_t maxlen) {
        size_t n = g.weighted({3, 3, 1}) == 0 ? g.below(6) : g.below(maxlen + 1);
        std::string t;
        if (g.flip()) t = g.flip() ? "0x" : "0";
        static const char* al[] = {"0123456789abcdefABCDEF", "0123456789abcdefx ,-+", "x0"};
        int m = int(g.below(4));
        while (t.size() < n) { if (m == 3) t += char(g.below(256)); else { std::string_view v(al[m]); t += v[g.below(v.size())]; } }
        t.resize(n);
        return t;
    }
    const std::string& text(int i) override {
        auto it = mt.find(i);
        if (it == mt.end()) { it = mt.emplace(i, gent(g.chance(1, 10) ? 1000 : 60)).first; it->second.shrink_to_fit(); }
        return it->second;
    }
    const std::string& hextext(int i, size_t n) override {
        auto it = mh.find(i);
        if (it == mh.end()) {
            std::string s = gent(2 * n);
            bool pre = s.size() >= 2 && s[0] == '0' && s[1] == 'x';
            while (s.size() < 2 * n + (pre ? 2 : 0)) { s += char(g.below(256)); if (s.size() == 2) pre = s == "0x"; }
            it = mh.emplace(i, s).first;
        }
        return it->second;
    }
    std::map<int, std::string_view> mv; // copies of the texts that end exactly where an inaccessible page or a heap block ends
    std::string_view exact(int key, const std::string& s) {
        auto it = mv.find(key);
        if (it == mv.end()) {
            uint8_t* m = mem(s.size());
            if (!s.empty()) memcpy(m, s.data(), s.size());
            it = mv.emplace(key, std::string_view((const char*)m, s.size())).first;
        }
        return it->second;
    }
    std::string_view sv(int i) override { return exact(i, text(i)); }
    size_t len() { return g.weighted({6, 1}) == 0 ? g.below(maxlist + 1) : g.below(maxlist * 7 + 1); }
    template<class M, class Fn> auto& lmemo(M& m, int i, Fn&& f) {
        auto it = m.find(i);
        if (it == m.end()) {
            it = m.emplace(i, typename M::mapped_type{}).first;
            size_t n = len();
            it->second.reserve(n); // exact capacity: the sanitizer sees the first element past the end
            for (size_t k = 0; k < n; k++) { if (k && g.chance(1, 6)) { auto e = it->second[g.below(k)]; it->second.push_back(e); } else it->second.push_back(f()); }
        }
        return it->second;
    }
    std::map<int, std::span<const B::g1>> vps; std::map<int, std::span<const B::g2>> vqs; std::map<int, std::span<const Sc4>> vss;
    template<class M, class V> auto placed(M& m, int i, const V& v) { // the list in the arena, when it fits
        auto it = m.find(i);
        if (it == m.end()) {
            using T = typename V::value_type;
            T* p = (T*)mem(v.size() * sizeof(T));
            std::uninitialized_copy(v.begin(), v.end(), p);
            it = m.emplace(i, std::span<const T>(p, v.size())).first;
        }
        return it->second;
    }
    std::span<const B::g1> ps(int i) override { return placed(vps, i, lmemo(mps, i, [&] { return genp(); })); }
    std::span<const B::g2> qs(int i) override { return placed(vqs, i, lmemo(mqs, i, [&] { return genq(); })); }
    std::span<const Sc4> ss(int i) override { return placed(vss, i, lmemo(mss, i, [&] { return gens(); })); }
    const std::vector<std::vector<uint8_t>>& msgs(int i) override { return lmemo(mm, i, [&] { return genBytes(g, 100); }); }
    const std::vector<std::tuple<B::g1, B::g2>>& pairs(int i) override { return lmemo(mpr, i, [&] { auto a = genp(); auto b = genq(); return std::make_tuple(a, b); }); }
    uint64_t num(int i, uint64_t n) override {
        auto it = mn.find(i);
        if (it == mn.end()) it = mn.emplace(i, g.flip() ? g.below(n ? n : 1) : g.flip() ? g.below(std::min<uint64_t>(n, 40)) : n - 1 - g.below(std::min<uint64_t>(n, 3))).first;
        return n ? it->second % n : 0;
    }
    uint64_t wide(int i) override {
        auto it = mn.find(1000 + i);
        if (it == mn.end()) it = mn.emplace(1000 + i, genWord(g)).first;
        return it->second;
    }
    uint8_t* buffer(int i, size_t n) override {
        auto& e = mo[i];
        if (!e.first || e.second != n) { e = {mem(n, true), n}; memset(e.first, 0x5a, n); }
        return e.first;
    }
    std::function<void()> yield(int i) override {
        switch (num(2000 + i, 4)) {
        case 0: return [] {};
        case 1: { auto left = std::make_shared<int>(int(num(2001 + i, 60))); return [left] { if ((*left)-- <= 0) throw std::runtime_error("callback"); }; }
        default: return {};
        }
    }
};
struct Collect : ops::Out { // keeps results as arguments of later calls
    using ops::Out::operator();
    Hostile& h;
    explicit Collect(Hostile& hh) : h(hh) {}
    void operator()(const B::fp& v) override { Out::operator()(v); if (h.rf.size() < 40) h.rf.push_back(v); }
    void operator()(const B::fp2& v) override { Out::operator()(v); if (h.rf2.size() < 40) h.rf2.push_back(v); }
    void operator()(const B::fp6& v) override { Out::operator()(v); if (h.rf6.size() < 40) h.rf6.push_back(v); }
    void operator()(const B::fp12& v) override { Out::operator()(v); if (h.rf12.size() < 40) h.rf12.push_back(v); }
    void operator()(const B::g1& v) override { Out::operator()(v); if (h.rp.size() < 40) h.rp.push_back(v); }
    void operator()(const B::g2& v) override { Out::operator()(v); if (h.rq.size() < 40) h.rq.push_back(v); }
};

// one call on hostile arguments: any standard exception is a permitted answer, anything else is not; the later
// executions on the same arguments must leave the number of heap blocks unchanged
void attack(Gen& g, Ctx& c, Hostile& h, const ops::Op& op, bool leaks) {
    (void)g;
    h.next();
    c.note([&] { return std::string(op.name); });
    c.label(op.name);
    bool threw = false;
    size_t n = 0;
    auto run = [&](auto& o) {
        try {
            op.fn(h, o);
        } catch (const std::exception&) {
            threw = true;
        } catch (...) {
            CHECK(false, op.name << " threw something that is not a standard exception");
        }
        n += o.b.size();
    };
    {
        Collect o(h);
        run(o);
        if (!o.b.empty() && o.b.size() <= 800 && h.rb.size() < 10) h.rb.push_back(o.b);
    }
    if (!leaks) return;
    { // once more with the arguments in memory that cannot be written
        arena().seal(true);
        struct Unseal { ~Unseal() { arena().seal(false); } } u;
        ops::Out o;
        run(o);
    }
    {
        long l = mc::leaked([&] { ops::Out o; run(o); });
        CHECK(l == 0, op.name << " left " << l << " heap blocks behind" << (threw ? " when it failed" : ""));
    }
    if (threw) c.label("ended with a standard exception");
}
void sequence(Gen& g, Ctx& c, int cost, size_t maxlen) {
    auto& all = ops::all();
    Hostile h(g, c.thorough);
    size_t n = g.range(1, maxlen);
    size_t done = 0;
    for (size_t i = 0; i < n; i++) {
        const ops::Op* op = &all[g.below(all.size())];
        if (op->cost > cost) continue;
        attack(g, c, h, *op, true);
        done++;
    }
    c.nontrivial(done > 0);
}
} // namespace

PROP(cheap_calls, 60000, 1500000) { sequence(g, c, 0, 6); }
PROP(medium_calls, 12000, 200000) { sequence(g, c, 1, 4); }
PROP(all_calls, 4500, 80000) { sequence(g, c, 2, 4); }

// the entry points that parse bytes and text, with lengths and contents from the hostile generator only
PROP(parsers, 60000, 1500000) {
    static const std::vector<const ops::Op*> v = [] {
        std::vector<const ops::Op*> r;
        for (auto& o : ops::all()) {
            std::string n = o.name;
            for (auto k : {"from", "hexToBytes", "bytesToHex", "sk_from", "scalar::bytes"})
                if (n.find(k) != n.npos && n.find("fromMessage") == n.npos) { r.push_back(&o); break; }
        }
        return r;
    }();
    Hostile h(g, c.thorough);
    attack(g, c, h, *g.pick(v), true);
    c.nontrivial();
}
// hashing and key derivation with all lengths
PROP(hashing, 6000, 120000) {
    static const std::vector<const ops::Op*> v = [] {
        std::vector<const ops::Op*> r;
        for (auto& o : ops::all()) {
            std::string n = o.name;
            for (auto k : {"hkdf", "xmd", "secret_key", "lamport", "derive_child_sk"})
                if (n.find(k) != n.npos) { r.push_back(&o); break; }
        }
        return r;
    }();
    Hostile h(g, c.thorough);
    attack(g, c, h, *g.pick(v), true);
    c.nontrivial();
}
// verification of lists: every combination of list lengths, hostile members, throwing callbacks
PROP(lists, 1500, 30000) {
    static const std::vector<const ops::Op*> v = [] {
        std::vector<const ops::Op*> r;
        for (auto& o : ops::all()) {
            std::string n = o.name;
            for (auto k : {"weightedSum", "aggregate", "pairing::calculate", "miller_loop", "containers", "add_pair"})
                if (n.find(k) != n.npos) { r.push_back(&o); break; }
        }
        return r;
    }();
    Hostile h(g, c.thorough);
    h.maxlist = c.thorough ? 20 : 8;
    attack(g, c, h, *g.pick(v), true);
    c.nontrivial();
}

// Inputs of megabytes on a small stack: what a call takes from the stack does not grow with its input.
namespace {
struct Small { std::function<void()> f; std::exception_ptr e; };
void* runSmall(void* p) {
    auto s = static_cast<Small*>(p);
    try { s->f(); } catch (...) { s->e = std::current_exception(); }
    return nullptr;
}
void onSmallStack(size_t size, std::function<void()> f) {
    const size_t guard = 32 << 20; // a large guard: a buffer that steps far beyond the stack still hits it
    uint8_t* m = (uint8_t*)mmap(nullptr, guard + size, PROT_NONE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    if (m == MAP_FAILED) throw pbt::Discard{};
    mprotect(m + guard, size, PROT_READ | PROT_WRITE);
    Small s{std::move(f), {}};
    pthread_attr_t at;
    pthread_attr_init(&at);
    pthread_attr_setstack(&at, m + guard, size);
    pthread_t t;
    int r = pthread_create(&t, &at, runSmall, &s);
    pthread_attr_destroy(&at);
    if (r == 0) pthread_join(t, nullptr);
    munmap(m, guard + size);
    if (r) throw pbt::Discard{};
    if (s.e) std::rethrow_exception(s.e);
}
}
PROP(long_inputs, 240, 4000) {
#if defined(__SANITIZE_ADDRESS__) || defined(__SANITIZE_THREAD__)
    const size_t stack = 2 << 20;
#else
    const size_t stack = 640 << 10;
#endif
    static const size_t MAX = 12 << 20;
    static const Bytes& big = [] () -> const Bytes& { auto* b = new Bytes(MAX); uint64_t x = 1; for (size_t i = 0; i + 8 <= MAX; i += 8) { x = pbt::mix64(x); memcpy(&(*b)[i], &x, 8); } return *b; }();
    static const std::vector<B::g1>& ps = [] () -> const std::vector<B::g1>& { auto* v = new std::vector<B::g1>; B::g1 p = B::g1::one(); for (int i = 0; i < 60000; i++) { v->push_back(p); if (i < 64) p = p.dbl(); else p = (*v)[i % 64]; } return *v; }();
    static const std::vector<B::g2>& qs = [] () -> const std::vector<B::g2>& { auto* v = new std::vector<B::g2>; B::g2 p = B::g2::one(); for (int i = 0; i < 30000; i++) { v->push_back(p); if (i < 64) p = p.dbl(); else p = (*v)[i % 64]; } return *v; }();
    size_t n = g.weighted({1, 2}) == 0 ? g.range(1 << 16, 1 << 20) : g.range(2 << 20, 6 << 20);
    std::span<const uint8_t> m(big.data(), n);
    Sc4 k = S4(genKey(g));
    uint8_t o[8160];
    const uint8_t tag[4] = {'t', 'a', 'g', 0};
    int w = int(g.below(22));
    static const char* nm[] = {"secret_key", "hkdf256_hmac", "hkdf256_hmac key", "hkdf256_extract", "hkdf256_extract salt", "hkdf256_expand info", "hkdf256_extract_expand", "xmd_sh256", "fromMessage", "fromMessage tag", "sign", "verify",
        "pop_fast_aggregate_verify message", "ikm_to_lamport_sk", "bytesToHex", "hexToBytes", "aggregate_verify messages", "aggregate_public_keys", "aggregate_signatures", "aggregate_secret_keys", "g1::weightedSum", "g2::weightedSum"};
    c.label(nm[w]);
    c.nontrivial();
    c.note([&] { return std::string(nm[w]) + ", input of " + std::to_string(n) + " bytes"; });
    const size_t np = std::min<size_t>(n / 144, ps.size()), nq = std::min<size_t>(n / 288, qs.size());
    std::vector<std::vector<uint8_t>> ms;
    std::vector<Sc4> ss;
    if (w == 16) { ms.resize(std::min(n / 64, ps.size()), std::vector<uint8_t>(3)); for (size_t i = 0; i < ms.size(); i++) memcpy(ms[i].data(), &i, 3); ms.back() = ms[0]; }
    if (w >= 19) { ss.resize(w == 19 ? n / 32 : w == 20 ? np : nq); for (size_t i = 0; i < ss.size(); i++) ss[i] = w == 19 ? Sc4{i, i, i, i & 0xffff} : Sc4{i & 15, 0, 0, 0}; }
    if (w >= 20) n = std::min<size_t>(n, 1 << 20);
    std::string tx;
    if (w == 9 || w == 15) { tx.assign(n, 'a'); }
    onSmallStack(stack, [&] {
        switch (w) {
        case 0: (void)B::secret_key(m); break;
        case 1: B::hkdf256_hmac(o, m.data(), n, tag, 3); break;
        case 2: B::hkdf256_hmac(o, tag, 3, m.data(), n); break;
        case 3: B::hkdf256_extract(o, tag, 3, m.data(), n); break;
        case 4: B::hkdf256_extract(o, m.data(), n, tag, 3); break;
        case 5: B::hkdf256_expand(o, 70, big.data(), m.data(), n / 2); break;
        case 6: B::hkdf256_extract_expand(o, 40, m.data(), n, tag, 3, m.data(), n / 2); break;
        case 7: B::xmd_sh256(o, 256, m.data(), n, tag, 3); break;
        case 8: (void)B::fromMessage(m, "tag"); break;
        case 9: (void)B::fromMessage(std::span<const uint8_t>(tag, 3), tx); break;
        case 10: (void)B::sign(k, m); break;
        case 11: (void)B::verify(ps[1], m, qs[2]); break;
        case 12: (void)B::pop_fast_aggregate_verify(std::span(ps).first(3), m, qs[2]); break;
        case 13: B::ikm_to_lamport_sk(o, m.data(), n, tag, 3); break;
        case 14: (void)B::bytesToHex(m); break;
        case 15: (void)B::hexToBytes(std::string_view(tx)); break;
        case 16: (void)B::aggregate_verify(std::span(ps).first(ms.size()), ms, qs[2], true); break;
        case 17: (void)B::aggregate_public_keys(std::span(ps).first(np)); break;
        case 18: (void)B::aggregate_signatures(std::span(qs).first(nq)); break;
        case 19: (void)B::aggregate_secret_keys(ss); break;
        case 20: (void)B::g1::weightedSum(std::span(ps).first(std::min<size_t>(np, 6000)), ss); break;
        default: (void)B::g2::weightedSum(std::span(qs).first(std::min<size_t>(nq, 3000)), ss);
        }
    });
}
