// A pool of constant arguments, the same in every process and configuration, and a Src that draws the arguments of a
// call from it. Include from the one source file of a harness.
#pragma once
#include "ops.hpp"
using namespace ref;
// ---- shared constant arguments: identical in every process and configuration --------------------
namespace {
constexpr int NP = 48; // entries of each type
struct Args {
    std::vector<B::fp> f;
    std::vector<B::fp2> f2;
    std::vector<B::fp6> f6;
    std::vector<B::fp12> f12, cyc;
    std::vector<B::g1> p;
    std::vector<B::g2> q;
    std::vector<Sc4> s, k;
    std::vector<Bytes> bytes, fixed;
    std::vector<std::string> text, hex;
    std::vector<std::vector<B::g1>> ps;
    std::vector<std::vector<B::g2>> qs;
    std::vector<std::vector<Sc4>> ss;
    std::vector<std::vector<std::vector<uint8_t>>> msgs;
    std::vector<std::vector<std::tuple<B::g1, B::g2>>> pairs;
};
const Args& pool() {
    static const Args* A = [] {
        auto* a = new Args;
        Gen g = Gen::derived(0xB15381);
        P1 lastp = P1::infinity();
        for (int i = 0; i < NP; i++) {
            a->f.push_back(L(genF(g)));
            a->f2.push_back(L(genF2(g)));
            a->f6.push_back(L6(genF6(g)));
            a->f12.push_back(L(genF12(g)));
            F12 x = genF12(g);
            while (x.is_zero()) x = genF12(g);
            x = x.frob(6) * x.inv();
            x = x.frob(2) * x;
            a->cyc.push_back(L(x));
            P1 p1 = i % 3 ? genSub1(g).p : genP1(g);
            P2 p2 = i % 3 ? genSub2(g).p : genP2(g);
            a->p.push_back(rep(g, p1));
            a->q.push_back(rep(g, p2));
            // neighbours: the same point over another denominator, the same x and z with -y, values equal but for one limb
            if (i % 6 == 4) { a->p.back() = a->p[i - 1]; a->q.back() = a->q[i - 1]; B::fp l = L(genLambda(g)), l2 = l.square(), l3 = l2.multiply(l); auto& u = a->p.back(); u = B::g1({u.x.multiply(l2), u.y.multiply(l3), u.z.multiply(l)}); }
            if (i % 6 == 5) { a->p.back() = a->p[i - 1].negate(); a->q.back() = a->q[i - 1].negate(); }
            if (i % 12 == 9) { a->p.back() = a->p[i - 1]; a->p.back().z = a->p.back().z.dbl(); a->q.back() = a->q[i - 1]; a->q.back().z = a->q.back().z.dbl(); } // same x and y over another z: off the curve
            if (i % 12 == 3) { a->p.back() = a->p[i - 1]; a->p.back().y.d[2] ^= 1; a->q.back() = a->q[i - 1]; a->q.back().y.c1.d[0] ^= 1; } // one bit of y
            if (i % 4 == 3) { a->f.back() = a->f[i - 1]; a->f.back().d[i / 4 % 5] ^= 1; a->f2.back() = a->f2[i - 1]; a->f2.back().c1 = a->f.back(); a->f6.back() = a->f6[i - 1]; a->f6.back().c2 = a->f2.back(); a->f12.back() = a->f12[i - 1]; a->f12.back().c1.c2.c1 = a->f.back(); }
            if (i % 16 == 7) { std::swap(a->p.back().x, a->p.back().y); std::swap(a->q.back().x, a->q.back().y); } // off the curve
            a->s.push_back(S4(genScalar(g)));
            a->k.push_back(S4(genKey(g)));
            if (i % 4 == 2) { a->s.back() = a->s[i - 1]; a->s.back()[i / 4 % 4] ^= 1; a->k.back() = a->k[i - 1]; a->k.back()[i / 4 % 3] ^= 2; }
            // byte strings: families of equal length that differ in one place, and prefixes of one another
            Bytes b;
            switch (i % 4) {
            case 0: b = i % 24 == 12 ? genBytes(g, 70000) : i % 12 == 0 ? genBytes(g, 3000) : genBytes(g, 200); break;
            case 1: b = a->bytes.back(); if (!b.empty()) b.back() ^= 1; else b.push_back(0); break;
            case 2: b = a->bytes.back(); if (!b.empty()) b[0] ^= 0x80; break;
            default: b = a->bytes.back(); b.push_back(uint8_t(g.below(256))); break;
            }
            a->bytes.push_back(b);
            Bytes x600(600);
            g.bytes(x600.data(), 600);
            if (i % 4 == 1) for (auto& v : x600) v = 0;
            x600[0] = uint8_t(i % 3 ? 0x80 | (x600[0] & 0x3f) : x600[0] & 0x1f);
            for (int k = 1; k < 6; k++) x600[48 * k] &= 0x0f;
            // encodings of points in several formats, each followed by a near relation of it (other sign, -y, one bit of y)
            auto put = [&](size_t at, const F& v, bool le) { Bytes c = i2osp(v.z(), 48); if (le) std::reverse(c.begin(), c.end()); std::copy(c.begin(), c.end(), x600.begin() + at); };
            bool le = i % 16 >= 8;
            P1 e1 = p1.inf ? genSub1(g, false).p : p1;
            P2 e2 = p2.inf ? genSub2(g, false).p : p2;
            switch (i % 8) {
            case 2: // compressed g2 and, below, compressed g1
            case 3:
                if (le) { x600 = a->fixed[i - 8]; x600[0] ^= 0x20; break; }
                if (i % 8 == 2) { put(0, e2.x.b, false); put(48, e2.x.a, false); } else put(0, e1.x, false);
                x600[0] |= 0x80 | (i & 16 ? 0x20 : 0);
                break;
            case 4: put(0, e1.x, le); put(48, e1.y, le); put(96, F::one(), le); break;
            case 5: x600 = a->fixed.back(); lastp = -lastp; put(48, lastp.y, le); break;
            case 6: put(0, le ? e2.x.a : e2.x.b, le); put(48, le ? e2.x.b : e2.x.a, le); put(96, le ? e2.y.a : e2.y.b, le); put(144, le ? e2.y.b : e2.y.a, le); put(192, le ? F::one() : F::zero(), le); put(240, le ? F::zero() : F::one(), le); break;
            case 7: x600 = a->fixed.back(); x600[le ? 96 : 191] ^= 1; break;
            default: break;
            }
            if (i % 8 == 4) lastp = e1;
            a->fixed.push_back(x600);
            std::string t;
            if (i % 4 == 0) for (uint64_t n = g.below(300); n--;) t += char(33 + g.below(90));
            else { t = a->text.back(); if (i % 4 == 1) t += 'x'; else if (!t.empty()) t[g.below(t.size())] ^= 1; }
            a->text.push_back(t);
            std::string h;
            for (int k = 0; k < 140; k++) h += "0123456789abcdefABCDEF"[g.below(22)];
            if (i & 1) h = "0x" + h;
            a->hex.push_back(h);
        }
        for (int i = 0; i < NP; i++) { // lists made from the same members
            size_t n = i % 8 == 0 ? 0 : i % 8 == 1 ? 1 : i == 42 ? 257 + g.below(16) : i % 16 == 10 ? 65 + g.below(10) : i % 8 == 2 ? 33 + g.below(10) : 2 + g.below(4);
            std::vector<B::g1> ps;
            std::vector<B::g2> qs;
            std::vector<Sc4> ss;
            std::vector<std::vector<uint8_t>> ms;
            std::vector<std::tuple<B::g1, B::g2>> pr;
            for (size_t k = 0; k < n; k++) {
                ps.push_back(a->p[g.below(NP)]);
                qs.push_back(a->q[g.below(NP)]);
                ss.push_back(a->s[g.below(NP)]);
            }
            for (size_t k = 0; k < (n > 5 ? 5 : n); k++) ms.push_back(a->bytes[g.below(NP)]);
            for (size_t k = 0; k < (n > 22 ? 22 : n); k++) pr.emplace_back(LA(genSub1(g, false).p), LA(genSub2(g, false).p));
            if (i % 8 == 4 || i % 8 == 6) { // neighbours: the list before with one inner member replaced
                auto near = [&](auto& l, const auto& prev, auto with) { l = prev; if (!l.empty()) l[l.size() / 2] = with; };
                near(ps, a->ps.back(), a->p[g.below(NP)]);
                near(qs, a->qs.back(), a->q[g.below(NP)]);
                near(ss, a->ss.back(), a->s[g.below(NP)]);
                near(ms, a->msgs.back(), a->bytes[g.below(NP)]);
                near(pr, a->pairs.back(), std::make_tuple(LA(genSub1(g, false).p), LA(genSub2(g, false).p)));
            } else if (i % 8 == 7) { // and the same members in another order
                ps = a->ps.back(); qs = a->qs.back(); ss = a->ss.back(); ms = a->msgs.back(); pr = a->pairs.back();
                if (ps.size() > 1) { std::swap(ps[0], ps.back()); std::swap(qs[0], qs.back()); std::swap(ss[0], ss.back()); std::swap(pr[0], pr.back()); }
                if (ms.size() > 1) std::swap(ms[0], ms.back());
            }
            a->ps.push_back(ps); a->qs.push_back(qs); a->ss.push_back(ss); a->msgs.push_back(ms); a->pairs.push_back(pr);
        }
        return a;
    }();
    return *A;
}

uint64_t fnv(const void* p, size_t n, uint64_t h = 1469598103934665603ull) {
    auto b = (const uint8_t*)p;
    for (; n >= 8; n -= 8, b += 8) { uint64_t w; memcpy(&w, b, 8); h = pbt::mix64(h ^ w); }
    for (; n--; b++) h = pbt::mix64(h ^ (*b + 0x100));
    return h;
}
template<class T> const void* bytesOf(const std::vector<T>& v, size_t& n) { n = v.size() * sizeof(T); return v.data(); }
template<class V> uint64_t hashV(const V& v, uint64_t h) {
    size_t n;
    const void* p = bytesOf(v, n);
    h = pbt::mix64(h ^ v.size());
    return n ? fnv(p, n, h) : h;
}
uint64_t poolSum() {
    auto& a = pool();
    uint64_t h = 1;
    h = hashV(a.f, h); h = hashV(a.f2, h); h = hashV(a.f6, h); h = hashV(a.f12, h); h = hashV(a.cyc, h);
    h = hashV(a.p, h); h = hashV(a.q, h); h = hashV(a.s, h); h = hashV(a.k, h);
    for (auto& x : a.bytes) h = hashV(x, h);
    for (auto& x : a.fixed) h = hashV(x, h);
    for (auto& x : a.text) h = fnv(x.data(), x.size(), h);
    for (auto& x : a.hex) h = fnv(x.data(), x.size(), h);
    for (auto& x : a.ps) h = hashV(x, h);
    for (auto& x : a.qs) h = hashV(x, h);
    for (auto& x : a.ss) h = hashV(x, h);
    for (auto& x : a.msgs) for (auto& y : x) h = hashV(y, h);
    for (auto& x : a.pairs) h = hashV(x, h);
    return h;
}

struct Call { // one operation with its arguments, as data
    uint32_t op, seed, win, winlen;
    bool operator==(const Call& o) const { return op == o.op && seed == o.seed && win == o.win && winlen == o.winlen; }
};
std::string show(const Call& c) {
    std::ostringstream o;
    o << ops::all()[c.op].name << "(args " << c.seed << " of pool[" << c.win << "+" << c.winlen << "])";
    return o.str();
}

thread_local int reenter = 0;
void nested();

// Arguments of a call. place 0: the pool members themselves; 1: copies at fixed addresses that every call reuses
// (same address, other contents); 2: copies on the stack of the caller at varying alignment
struct PoolSrc : ops::Src {
    Call c;
    int place;
    bool reent = false;
    struct Slots {
        B::fp f[4]; B::fp2 f2[4]; B::fp6 f6[4]; B::fp12 f12[4], cyc[4]; B::g1 p[4]; B::g2 q[4]; Sc4 s[4], k[4];
        alignas(16) uint8_t bytes[4][1024], fixed[4][1024];
        std::string text[4], hex[4];
        std::vector<B::g1> ps[2]; std::vector<B::g2> qs[2]; std::vector<Sc4> ss[2];
        std::vector<std::vector<uint8_t>> msgs[2];
        std::vector<std::tuple<B::g1, B::g2>> pairs[2];
        uint8_t out[8500];
    };
    Slots* sl;
    uint64_t off = 0;
    struct Watch { const void* p; size_t n; uint64_t h; };
    std::vector<Watch> watch;
    std::vector<std::vector<uint8_t>> outs;
    PoolSrc(const Call& cc, int pl, Slots* s, uint64_t o) : c(cc), place(pl), sl(s), off(o) {}
    uint64_t rnd(int type, int i) { return pbt::mix64(pbt::mix64(c.seed * 977ull + type) ^ (uint64_t(i) << 40) ^ c.op); }
    size_t pick(int type, int i) { return (c.win + rnd(type, i) % c.winlen) % NP; }
    void see(const void* p, size_t n) { if (n) watch.push_back({p, n, fnv(p, n)}); }
    bool intact() { for (auto& w : watch) if (fnv(w.p, w.n) != w.h) return false; return true; }
    template<class T> const T& at(int type, int i, const std::vector<T>& v, T* slot) {
        const T& x = v[pick(type, i)];
        if (place && i < 4) { slot[i] = x; see(&slot[i], sizeof(T)); return slot[i]; }
        see(&x, sizeof(T));
        return x;
    }
    const B::fp& f(int i) override { return at(1, i, pool().f, sl->f); }
    const B::fp2& f2(int i) override { return at(2, i, pool().f2, sl->f2); }
    const B::fp6& f6(int i) override { return at(3, i, pool().f6, sl->f6); }
    const B::fp12& f12(int i) override { return at(4, i, pool().f12, sl->f12); }
    const B::fp12& cyc(int i) override { return at(5, i, pool().cyc, sl->cyc); }
    const B::g1& p(int i) override { return at(6, i, pool().p, sl->p); }
    const B::g2& q(int i) override { return at(7, i, pool().q, sl->q); }
    const Sc4& s(int i) override { return at(8, i, pool().s, sl->s); }
    const Sc4& k(int i) override { return at(9, i, pool().k, sl->k); }
    std::span<const uint8_t> bytes(int i) override {
        const Bytes& b = pool().bytes[pick(10, i)];
        if (place && i < 4 && b.size() < 1000) { uint8_t* t = sl->bytes[i] + off % 16; memcpy(t, b.data(), b.size()); see(t, b.size()); return {t, b.size()}; }
        see(b.data(), b.size());
        return b;
    }
    std::span<const uint8_t> fixed(int i, size_t n) override {
        const Bytes& b = pool().fixed[pick(11, i)];
        if (place && i < 4) { uint8_t* t = sl->fixed[i] + off % 16; memcpy(t, b.data(), n); see(t, n); return {t, n}; }
        see(b.data(), n);
        return {b.data(), n};
    }
    const std::string& text(int i) override { const std::string& x = pool().text[pick(12, i)]; if (place && i < 4) { sl->text[i] = x; see(sl->text[i].data(), x.size()); return sl->text[i]; } see(x.data(), x.size()); return x; }
    const std::string& hextext(int i, size_t) override { const std::string& x = pool().hex[pick(13, i)]; see(x.data(), x.size()); return x; }
    template<class T> const std::vector<T>& lst(int type, int i, const std::vector<std::vector<T>>& v, std::vector<T>* slot) {
        const auto& x = v[pick(type, i)];
        if (place && i < 2) { slot[i] = x; if constexpr (std::is_trivially_copyable_v<T>) see(slot[i].data(), x.size() * sizeof(T)); return slot[i]; }
        if constexpr (!std::is_same_v<T, std::vector<uint8_t>>) see(x.data(), x.size() * sizeof(T));
        return x;
    }
    std::span<const B::g1> ps(int i) override { return lst(14, i, pool().ps, sl->ps); }
    std::span<const B::g2> qs(int i) override { return lst(15, i, pool().qs, sl->qs); }
    std::span<const Sc4> ss(int i) override { return lst(16, i, pool().ss, sl->ss); }
    const std::vector<std::vector<uint8_t>>& msgs(int i) override { return lst(17, i, pool().msgs, sl->msgs); }
    const std::vector<std::tuple<B::g1, B::g2>>& pairs(int i) override { return lst(18, i, pool().pairs, sl->pairs); }
    uint64_t num(int i, uint64_t n) override { return n ? rnd(19, i) % n : 0; }
    uint8_t* buffer(int i, size_t n) override {
        if (place && n <= sizeof sl->out) return sl->out;
        (void)i;
        outs.emplace_back(n, uint8_t(0xA5 ^ off));
        return outs.back().data();
    }
    std::function<void()> yield(int) override {
        if (!reent) return {};
        return [] { nested(); };
    }
};
void nested() { // the library is entered again from inside a callback
    if (reenter) return;
    reenter = 1;
    auto& a = pool();
    (void)a.q[3].add(a.q[4]).affine();
    (void)a.p[5].scale(std::array<uint64_t, 1>{77});
    (void)B::g1::weightedSum(std::span<const B::g1>(a.p).first(3), std::span<const Sc4>(a.ss[2]).first(3));
    reenter = 0;
}

} // namespace
