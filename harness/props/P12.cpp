#include "../common.hpp"
#include "../ref_consts.hpp"
#include "../huge.hpp"
#include <algorithm>
using namespace ref;
PROPERTY("P12")
extern bool g_need_points;
static bool np = (g_need_points = true);

// ---- preimages of the simplified SWU map ---------------------------------------------------------
template<class K> struct SW;
template<> struct SW<F> {
    static F A() { return E1A; }
    static F B() { return E1B; }
    static F Z() { return F::of(11); }
    static F n(long v) { return F::of(v); }
};
template<> struct SW<F2> {
    static F2 A() { return E2A; }
    static F2 B() { return E2B; }
    static F2 Z() { return {-F::of(2), -F::one()}; }
    static F2 n(long v) { return {F::of(v), F::zero()}; }
};
template<class K> static K gx(const K& x) { return x * x * x + SW<K>::A() * x + SW<K>::B(); }
template<class K> static std::vector<K> quad(const K& b, const K& c) { // roots of t^2+bt+c
    K d = b * b - SW<K>::n(4) * c;
    auto s = d.sqrt();
    if (!s) return {};
    K h = SW<K>::n(2).inv();
    return {(*s - b) * h, (-*s - b) * h};
}
template<class K> static K swx(const K& u) {
    if constexpr (std::is_same_v<K, F>) return sswu1(u).first; else return sswu2(u).first;
}
// every u whose image has this x-coordinate on the isogenous curve
template<class K> static std::vector<K> preimages(const K& x) {
    K A = SW<K>::A(), B = SW<K>::B(), Z = SW<K>::Z(), one = K::one();
    std::vector<K> ts, us;
    K w = -(x * A * B.inv()) - one; // 1/(t^2+t) for the first candidate
    if (!w.is_zero()) for (auto& t : quad<K>(one, -w.inv())) ts.push_back(t);
    K v = -(x * A * B.inv()); // (t^2+t+1)/(t+1) for the second
    for (auto& t : quad<K>(one - v, one - v)) ts.push_back(t);
    for (auto& t : ts) {
        auto u = (t * Z.inv()).sqrt();
        if (!u) continue;
        for (auto& s : {*u, -*u}) if (swx(s) == x) us.push_back(s);
    }
    return us;
}
template<class K> static std::vector<K> exceptional() { // t^2+t = 0
    std::vector<K> v{K::zero()};
    auto u = (-(SW<K>::Z().inv())).sqrt();
    if (u) { v.push_back(*u); v.push_back(-*u); }
    return v;
}
// roots in Fp2 of x^3+Ax+B-c, found by random splitting of gcd(x^q-x, f)
typedef std::vector<F2> Poly;
static void trim(Poly& a) { while (!a.empty() && a.back().is_zero()) a.pop_back(); }
static Poly pmod(Poly a, const Poly& m) {
    trim(a);
    F2 li = m.back().inv();
    while (a.size() >= m.size()) {
        F2 q = a.back() * li;
        size_t s = a.size() - m.size();
        for (size_t i = 0; i < m.size(); i++) a[s + i] = a[s + i] - q * m[i];
        a.pop_back();
        trim(a);
    }
    return a;
}
static Poly pmul(const Poly& a, const Poly& b, const Poly& m) {
    if (a.empty() || b.empty()) return {};
    Poly r(a.size() + b.size() - 1, F2::zero());
    for (size_t i = 0; i < a.size(); i++) for (size_t j = 0; j < b.size(); j++) r[i + j] = r[i + j] + a[i] * b[j];
    return pmod(r, m);
}
static Poly pgcd(Poly a, Poly b) {
    trim(a); trim(b);
    while (!b.empty()) { Poly r = pmod(a, b); a = b; b = r; }
    return a;
}
static Poly ppow(const Poly& b, const mpz_class& e, const Poly& m) {
    Poly r{F2::one()};
    r = pmod(r, m);
    for (long i = long(mpz_sizeinbase(e.get_mpz_t(), 2)) - 1; i >= 0; i--) {
        r = pmul(r, r, m);
        if (mpz_tstbit(e.get_mpz_t(), i)) r = pmul(r, b, m);
    }
    return r;
}
static void split(const Poly& f, Gen& g, std::vector<F2>& out, int depth = 0) {
    if (f.size() <= 1 || depth > 40) return;
    if (f.size() == 2) { out.push_back(-(f[0] * f[1].inv())); return; }
    F2 s{F::of(long(g.below(1u << 20))), F::of(long(g.below(1u << 20)))};
    Poly h = ppow({s, F2::one()}, (P * P - 1) / 2, f);
    if (h.empty()) h.push_back(F2::zero());
    h[0] = h[0] - F2::one();
    Poly d = pgcd(f, h);
    if (d.size() > 1 && d.size() < f.size()) {
        split(d, g, out, depth + 1);
        Poly q; // f / d
        Poly a = f;
        F2 li = d.back().inv();
        q.assign(f.size() - d.size() + 1, F2::zero());
        for (size_t k = q.size(); k-- > 0;) {
            q[k] = a[k + d.size() - 1] * li;
            for (size_t i = 0; i < d.size(); i++) a[k + i] = a[k + i] - q[k] * d[i];
        }
        split(q, g, out, depth + 1);
    } else split(f, g, out, depth + 1);
}
static std::vector<F2> cubic(const F2& c, uint64_t seed) {
    Gen g = Gen::derived(seed);
    Poly f{E2B - c, E2A, F2::zero(), F2::one()};
    Poly x{F2::zero(), F2::one()};
    Poly h = ppow(x, P * P, f);
    h.resize(std::max<size_t>(h.size(), 2), F2::zero());
    h[1] = h[1] - F2::one();
    trim(h);
    std::vector<F2> out;
    split(h.empty() ? f : pgcd(f, h), g, out);
    return out;
}
static F genU(Gen& g, std::string& kind) {
    static const auto exc = exceptional<F>();
    static const std::vector<F> ker = [] {
        std::vector<F> v;
        for (auto s : ISO1_KERNEL_X) for (auto& u : preimages<F>(F::of(hexz(s)))) v.push_back(u);
        return v;
    }();
    static const std::vector<F> x0 = preimages<F>(F::zero());
    switch (g.weighted({10, 2, ker.empty() ? 0u : 3u, 4, x0.empty() ? 0u : 1u})) {
    case 0: kind = "edge or uniform"; return genF(g);
    case 1: kind = "exceptional denominator"; return g.pick(exc);
    case 2: kind = "onto the isogeny kernel"; return g.pick(ker);
    case 4: kind = "onto x=0"; return g.pick(x0);
    default: {
        F x = genF(g);
        for (int i = 0; i < 40; i++, x = x + F::one()) {
            auto v = preimages<F>(x);
            if (!v.empty()) { kind = "preimage of a chosen x"; return g.pick(v); }
        }
        kind = "edge or uniform";
        return x;
    }
    }
}
static F2 genU2(Gen& g, std::string& kind) {
    static const auto exc = exceptional<F2>();
    static const std::vector<F2> x0 = preimages<F2>(F2::zero());
    switch (g.weighted({10, 2, x0.empty() ? 0u : 1u, 4, 3, 3})) {
    case 0: kind = "edge or uniform"; return genF2(g);
    case 1: kind = "exceptional denominator"; return g.pick(exc);
    case 2: kind = "onto x=0"; return g.pick(x0);
    case 3: {
        F2 x = genF2(g);
        for (int i = 0; i < 40; i++, x.a = x.a + F::one()) {
            auto v = preimages<F2>(x);
            if (!v.empty()) { kind = "preimage of a chosen x"; return g.pick(v); }
        }
        kind = "edge or uniform";
        return x;
    }
    case 4: { // y with one zero coordinate: the sign comes from the other one
        uint64_t s = g.below(1000);
        bool im = g.flip();
        for (int i = 0; i < 30; i++) {
            Gen d = Gen::derived(s * 64 + i);
            F y = F::of(long(d.raw() >> 2)) * F::of(long(d.raw() >> 2));
            F2 yy = im ? F2{F::zero(), y} : F2{y, F::zero()};
            for (auto& x : cubic(yy * yy, s + i)) {
                auto v = preimages<F2>(x);
                if (!v.empty()) { kind = im ? "image y has zero real part" : "image y in Fp"; return g.pick(v); }
            }
        }
        kind = "edge or uniform";
        return genF2(g);
    }
    default: kind = "one coordinate zero"; { F a = genF(g); return g.flip() ? F2{F::zero(), a} : F2{a, F::zero()}; }
    }
}

PROP(map_g1, 3000, 40000) {
    std::string kind;
    F u = genU(g, kind);
    c.label(kind);
    c.nontrivial(!u.is_zero());
    c.note([&] { return "u=" + u.str() + " (" + kind + ")"; });
    B::fp e = L(u), e0 = e;
    auto [x, y] = B::g1::swuMapG1(e);
    auto [rx, ry] = sswu1(u);
    CHECK(V(x) == rx && V(y) == ry, "swuMapG1(" << u.str() << ") = (" << V(x).str() << "," << V(y).str() << "), expected (" << rx.str() << "," << ry.str() << ")");
    P1 im = iso1(rx, ry);
    B::fp ix = x, iy = y;
    B::g1::isogenyMapG1(ix, iy);
    if (!im.inf) CHECK(V(ix) == im.x && V(iy) == im.y, "isogenyMapG1(" << rx.str() << "," << ry.str() << ") = (" << V(ix).str() << "," << V(iy).str() << "), expected " << im.str());
    B::g1 p = B::g1::mapToCurve(e);
    P1 w = im.mul(H1EFF);
    CHECK(V(p) == w, "g1::mapToCurve(" << u.str() << ") = " << V(p).str() << ", expected " << w.str());
    CHECK(p.isOnCurve() && p.inCorrectSubgroup(), "g1::mapToCurve(" << u.str() << ") is not in the subgroup");
    CHECK(V(p).in_subgroup(), "g1::mapToCurve(" << u.str() << ") is not in the subgroup");
    CHECK(same(e, e0), "argument changed");
    c.label(w.inf ? "image is infinity" : "image is not infinity");
}
PROP(map_g2, 1200, 20000) {
    std::string kind;
    F2 u = genU2(g, kind);
    c.label(kind);
    c.nontrivial(!u.is_zero());
    c.note([&] { return "u=" + u.str() + " (" + kind + ")"; });
    B::fp2 e = L(u), e0 = e;
    auto [x, y] = B::g2::swuMapG2(e);
    auto [rx, ry] = sswu2(u);
    CHECK(V(x) == rx && V(y) == ry, "swuMapG2(" << u.str() << ") = (" << V(x).str() << "," << V(y).str() << "), expected (" << rx.str() << "," << ry.str() << ")");
    P2 im = iso2(rx, ry);
    B::g2 a({x, y, B::fp2::one()});
    B::g2 i = a.isogenyMap();
    CHECK(V(i) == im, "isogenyMap(" << rx.str() << "," << ry.str() << ") = " << V(i).str() << ", expected " << im.str());
    B::g2 p = B::g2::mapToCurve(e);
    P2 w = im.mul(H2EFF);
    CHECK(V(p) == w, "g2::mapToCurve(" << u.str() << ") = " << V(p).str() << ", expected " << w.str());
    CHECK(p.isOnCurve() && p.inCorrectSubgroup() && V(p).in_subgroup(), "g2::mapToCurve(" << u.str() << ") is not in the subgroup");
    CHECK(same(e, e0), "argument changed");
}
// the isogenies on arbitrary points of their domain curves
PROP(isogenies, 3000, 60000) {
    c.nontrivial();
    if (g.flip()) {
        F x = genF(g);
        for (int i = 0; i < 60 && !gx(x).is_square(); i++) x = x + F::one();
        auto y = gx(x).sqrt();
        if (!y) throw pbt::Discard{};
        if (g.flip()) y = -*y;
        P1 im = iso1(x, *y);
        if (im.inf) return;
        B::fp ix = L(x), iy = L(*y);
        B::g1::isogenyMapG1(ix, iy);
        CHECK(V(ix) == im.x && V(iy) == im.y, "isogenyMapG1(" << x.str() << "," << y->str() << ") = (" << V(ix).str() << "," << V(iy).str() << "), expected " << im.str());
        c.note([&] { return "G1 isogeny at x=" + x.str(); });
    } else {
        F2 x = genF2(g);
        for (int i = 0; i < 60 && !gx(x).is_square(); i++) x.a = x.a + F::one();
        auto y = gx(x).sqrt();
        if (!y) throw pbt::Discard{};
        if (g.flip()) y = -*y;
        P2 im = iso2(x, *y);
        B::g2 a({L(x), L(*y), B::fp2::one()});
        CHECK(V(a.isogenyMap()) == im, "isogenyMap(" << x.str() << "," << y->str() << ") = " << V(a.isogenyMap()).str() << ", expected " << im.str());
        c.note([&] { return "G2 isogeny at x=" + x.str(); });
    }
}
static Bytes genDst(Gen& g) {
    static const char* std_[] = {"BLS_SIG_BLS12381G2_XMD:SHA-256_SSWU_RO_NUL_", "BLS_POP_BLS12381G2_XMD:SHA-256_SSWU_RO_POP_", "QUUX-V01-CS02-with-BLS12381G2_XMD:SHA-256_SSWU_RO_"};
    switch (g.weighted({3, 4, 4, 2})) {
    case 0: { const char* s = std_[g.below(3)]; return Bytes(s, s + strlen(s)); }
    case 1: { // lengths around the limits
        static const std::vector<size_t> n{0, 1, 31, 32, 33, 54, 55, 56, 63, 64, 65, 119, 120, 127, 128, 253, 254, 255, 256, 257, 258, 300, 511, 512, 513, 65535, 65536, 65791};
        size_t k = g.pick(n);
        Gen d = Gen::derived(g.raw());
        Bytes b(k);
        d.bytes(b.data(), k);
        return b;
    }
    case 2: return genBytes(g, 300);
    default: return Bytes(g.range(200, 300), uint8_t(g.pick(std::vector<int>{0, 'a', 255})));
    }
}
PROP(hash_to_g2, 1500, 25000) {
    Bytes m = genMsg(g), dst = genDst(g);
    c.nontrivial(!m.empty());
    c.label(dst.size() > 255 ? "tag over 255 bytes" : dst.size() == 255 ? "tag of 255 bytes" : dst.empty() ? "empty tag" : "tag of 1 to 254 bytes");
    c.note([&] { return "message of " + std::to_string(m.size()) + " bytes, tag of " + std::to_string(dst.size()) + " bytes"; });
    Bytes m0 = m;
    std::string d(dst.begin(), dst.end());
    B::g2 p = B::fromMessage(m, d);
    P2 w = hash_g2(m, dst);
    CHECK(V(p) == w, "fromMessage(" << hx(m) << ", tag " << hx(dst) << ") = " << V(p).str() << ", expected " << w.str());
    CHECK(p.inCorrectSubgroup() && p.isOnCurve(), "hash of " << hx(m) << " is not in the subgroup");
    CHECK(m == m0, "message changed");
}
// messages at and above 2^29, 2^31 and 2^32 bytes: a few real pages mapped over and over
static void huge(Gen& g, Ctx& c, const std::vector<uint64_t>& bases) {
    uint64_t n = g.pick(bases) + g.range(0, 128) - 64;
    uint8_t fill = uint8_t(g.below(256));
    Bytes dst = genBytes(g, 255);
    pbt::extend_cpu(600);
    pbt::HugeMsg hm(n, fill);
    uint8_t* m = hm.m;
    c.nontrivial();
    c.note([&] { return "message of " + std::to_string(n) + " bytes, tag of " + std::to_string(dst.size()) + " bytes"; });
    uint8_t out[256];
    // either the expansion alone or the whole hash to the curve
    bool whole = g.below(2) == 0;
    int rc = 0;
    B::g2 p;
    if (whole) p = B::fromMessage(std::span<const uint8_t>(m, n), std::string(dst.begin(), dst.end()));
    else rc = B::xmd_sh256(out, 256, m, n, dst.data(), int(dst.size()));
    c.label(whole ? "fromMessage" : "expand_message_xmd");
    // the reference hashes Z_pad || msg || l_i_b_str || 0 || DST_prime, laid out in place around the message
    Bytes tail{1, 0, 0};
    tail.insert(tail.end(), dst.begin(), dst.end());
    tail.push_back(uint8_t(dst.size()));
    std::copy(tail.begin(), tail.end(), m + n);
    Bytes b0 = sha256(m - 64, 64 + n + tail.size());
    Bytes w = expand_xmd_b0(b0, dst, 256);
    if (whole) {
        F e[4];
        for (int i = 0; i < 4; i++) e[i] = F::of(os2ip(w.data() + 64 * i, 64));
        P2 q = (map2_noclear(F2{e[0], e[1]}) + map2_noclear(F2{e[2], e[3]})).mul(H2EFF);
        CHECK(V(p) == q, "fromMessage of a message of " << n << " bytes = " << V(p).str() << ", expected " << q.str());
        return;
    }
    CHECK(rc == 0 && std::equal(w.begin(), w.end(), out), "expand_message_xmd of a message of " << n << " bytes gives " << pbt::hex(out, 256) << ", expected " << hx(w));
}
PROP(message_over_half_a_gigabyte, 8, 24) { huge(g, c, {1ull << 29, 1ull << 28}); }
PROP(message_over_two_gigabytes, 4, 24) { huge(g, c, {1ull << 31, 1ull << 32}); }
