#include "common.hpp"
#include <algorithm>

using namespace ref;

B::fp raw(const F& a) {
    std::array<uint64_t, 6> d;
    for (int i = 0; i < 6; i++) d[i] = a.v[i];
    return B::fp(d);
}
B::fp L(const F& a) { return raw(mont_to(a)); }
B::fp2 L(const F2& a) { return B::fp2({L(a.a), L(a.b)}); }
static B::fp6 tow(const F2 t[3]) { return B::fp6({L(t[0]), L(t[1]), L(t[2])}); }
B::fp6 L6(const F12& a) {
    F2 t[2][3];
    to_tower(a, t);
    return tow(t[0]);
}
B::fp12 L(const F12& a) {
    F2 t[2][3];
    to_tower(a, t);
    return B::fp12({tow(t[0]), tow(t[1])});
}
std::string rawstr(const B::fp& a) { return zs(limbs_z(a.d.data(), 6)); }
std::string rawstr(const B::fp2& a) { return "[" + rawstr(a.c0) + "," + rawstr(a.c1) + "]"; }
std::string rawstr(const B::g1& a) { return "raw(" + rawstr(a.x) + "," + rawstr(a.y) + "," + rawstr(a.z) + ")"; }
std::string rawstr(const B::g2& a) { return "raw(" + rawstr(a.x) + "," + rawstr(a.y) + "," + rawstr(a.z) + ")"; }
F V(const B::fp& a, const char* what) {
    F r;
    for (int i = 0; i < 6; i++) r.v[i] = a.d[i];
    CHECK(mpn_cmp(r.v, PL, 6) < 0, what << " is not fully reduced: limbs " << rawstr(a));
    return mont_from(r);
}
F2 V(const B::fp2& a, const char* what) { return {V(a.c0, what), V(a.c1, what)}; }
static void get6(const B::fp6& a, F2 t[3], const char* what) {
    t[0] = V(a.c0, what);
    t[1] = V(a.c1, what);
    t[2] = V(a.c2, what);
}
F12 V(const B::fp6& a, const char* what) {
    F2 t[2][3];
    get6(a, t[0], what);
    for (auto& x : t[1]) x = F2::zero();
    return from_tower(t);
}
F12 V(const B::fp12& a, const char* what) {
    F2 t[2][3];
    get6(a.c0, t[0], what);
    get6(a.c1, t[1], what);
    return from_tower(t);
}
F12 emb(const F2& a) {
    F2 t[2][3];
    for (auto& r : t) for (auto& x : r) x = F2::zero();
    t[0][0] = a;
    return from_tower(t);
}
P1 V(const B::g1& a, const char* what) {
    F z = V(a.z, what), x = V(a.x, what), y = V(a.y, what);
    if (z.is_zero()) return P1::infinity();
    F i = z.inv(), i2 = i * i;
    return P1::of(x * i2, y * i2 * i);
}
P2 V(const B::g2& a, const char* what) {
    F2 z = V(a.z, what), x = V(a.x, what), y = V(a.y, what);
    if (z.is_zero()) return P2::infinity();
    F2 i = z.inv(), i2 = i * i;
    return P2::of(x * i2, y * i2 * i);
}
B::g1 LA(const P1& p) {
    if (p.inf) return B::g1({L(F::zero()), L(F::one()), L(F::zero())});
    return B::g1({L(p.x), L(p.y), L(F::one())});
}
B::g2 LA(const P2& p) {
    if (p.inf) return B::g2({L(F2::zero()), L(F2::one()), L(F2::zero())});
    return B::g2({L(p.x), L(p.y), L(F2::one())});
}
Sc4 S4(const mpz_class& z) {
    Sc4 s;
    z_limbs(z, s.data(), 4);
    return s;
}
mpz_class Z4(const Sc4& s) { return limbs_z(s.data(), 4); }
bool same(const B::fp& a, const B::fp& b) { return a.d == b.d; }
bool same(const B::fp2& a, const B::fp2& b) { return same(a.c0, b.c0) && same(a.c1, b.c1); }
bool same(const B::g1& a, const B::g1& b) { return same(a.x, b.x) && same(a.y, b.y) && same(a.z, b.z); }
bool same(const B::g2& a, const B::g2& b) { return same(a.x, b.x) && same(a.y, b.y) && same(a.z, b.z); }

// -------------------------------------------------------------------------------------------------
uint64_t genWord(Gen& g) {
    switch (g.weighted({3, 3, 3, 2, 2, 1, 4})) {
    case 0: return g.below(4);
    case 1: return ~uint64_t(0) - g.below(4);
    case 2: return 0;
    case 3: return uint64_t(1) << g.below(64);
    case 4: return ~(uint64_t(1) << g.below(64));
    case 5: { uint64_t k = g.below(64); return (uint64_t(1) << k) - 1; }
    default: return g.raw();
    }
}
mpz_class genBits(Gen& g, unsigned words) {
    std::vector<uint64_t> w(words);
    unsigned n = words;
    if (g.chance(1, 4)) n = unsigned(g.below(words + 1));
    bool edge = g.flip();
    for (unsigned i = 0; i < n; i++) w[i] = edge ? genWord(g) : g.raw();
    return limbs_z(w.data(), words);
}

static const F& oneThird() { static const F x = F::of(3).inv(); return x; }
// integer in [0, p) with structure
static F genRawF(Gen& g) {
    switch (g.weighted({4, 4, 8, 8, 3, 4, 3, 2})) {
    case 0: return F::of(long(g.below(8)));
    case 1: return -F::of(long(1 + g.below(8)));
    case 2: { // limb patterns
        F r;
        int same = g.chance(1, 4) ? int(1 + g.below(5)) : 0; // this many leading limbs are those of p
        for (int i = 0; i < 6; i++) {
            if (i >= 6 - same) { r.v[i] = PL[i]; continue; }
            switch (g.weighted({3, 3, 2, 2, 3})) {
            case 0: r.v[i] = 0; break;
            case 1: r.v[i] = ~uint64_t(0); break;
            case 2: r.v[i] = PL[i]; break;
            case 3: r.v[i] = PL[i] - 1 + 2 * g.below(2); break;
            default: r.v[i] = genWord(g);
            }
        }
        for (int i = 5 - same; same && mpn_cmp(r.v, PL, 6) >= 0 && i >= 0; i--) r.v[i] = g.flip() ? 0 : std::min(r.v[i], PL[i]);
        if (mpn_cmp(r.v, PL, 6) >= 0) {
            r.v[5] = r.v[5] % (PL[5] + 1);
            if (mpn_cmp(r.v, PL, 6) >= 0) r.v[5] = PL[5] - 1;
        }
        return r;
    }
    case 3: { // uniform
        mpz_class z = 0;
        uint64_t w[7];
        for (auto& x : w) x = g.raw();
        z = limbs_z(w, 7);
        return F::of(z);
    }
    case 4: { // around p/2, p/3, 2p/3, 2^k multiples
        mpz_class base;
        switch (g.below(5)) {
        case 0: base = (P - 1) / 2; break;
        case 1: base = P / 3; break;
        case 2: base = 2 * P / 3; break;
        case 3: base = P - (mpz_class(1) << unsigned(g.below(381))); break;
        default: base = mpz_class(1) << unsigned(g.below(381)); break;
        }
        return F::of(base + long(g.below(7)) - 3);
    }
    case 5: { // few bits set
        mpz_class z = 0;
        unsigned n = unsigned(1 + g.below(4));
        for (unsigned i = 0; i < n; i++) mpz_setbit(z.get_mpz_t(), g.below(381));
        return F::of(z);
    }
    case 6: { // constants of the system
        static const std::vector<F> c = {F::one(), -F::one(), mont_to(F::one()), mont_to(mont_to(F::one())), F::of(4), mont_from(F::one()),
            F::of(2).inv(), oneThird(), F::of(2).pow((P - 1) / 3), F::of(2).pow((P - 1) / 3 * 2), G1gen().x, G1gen().y,
            F::of(11), F::of(12), E1A, E1B, F::of(R), F::of(mpz_class((unsigned long)X))};
        return c[g.below(c.size())];
    }
    default: { // p minus a short pattern
        mpz_class z = genBits(g, 1 + unsigned(g.below(5)));
        return F::of(-z);
    }
    }
}
F genF(Gen& g) {
    // structure is applied either to the value or to its Montgomery form (the stored limbs)
    if (g.flip()) return mont_from(genRawF(g));
    return genRawF(g);
}
F2 genF2(Gen& g) {
    switch (g.weighted({6, 1, 1, 1, 1, 1})) {
    case 0: { F a = genF(g), b = genF(g); return {a, b}; }
    case 1: return {genF(g), F::zero()};
    case 2: return {F::zero(), genF(g)};
    case 3: { F a = genF(g); return {a, a}; }
    case 4: { F a = genF(g); return {a, -a}; }
    default: { // roots of unity and other special values
        static const std::vector<F2> c = {F2::zero(), F2::one(), -F2::one(), {F::zero(), F::one()}, {F::one(), F::one()},
            F2{F::one(), F::one()}.pow((P - 1) / 6), F2{F::one(), F::one()}.pow((P - 1) / 3), F2{F::one(), F::one()}.pow((P - 1) / 2),
            {F::of(4), F::of(4)}, {-F::of(2), -F::one()}, E2A, E2B, G2gen().x, G2gen().y};
        return c[g.below(c.size())];
    }
    }
}
static F12 gen12(Gen& g, bool even) {
    F12 r = F12::zero();
    F2 t[2][3];
    for (auto& x : t) for (auto& y : x) y = F2::zero();
    switch (g.weighted({1, 8, 3, 2})) {
    case 0: {
        if (g.flip()) r = F12::one();
        if (g.flip()) r = -r;
        return r;
    }
    case 1:
        for (int k = 0; k < (even ? 1 : 2); k++) for (int j = 0; j < 3; j++) t[k][j] = genF2(g);
        break;
    case 2: { // sparse
        uint64_t mask = g.below(even ? 8 : 64);
        for (int k = 0; k < (even ? 1 : 2); k++) for (int j = 0; j < 3; j++) if ((mask >> (3 * k + j)) & 1) t[k][j] = genF2(g);
        break;
    }
    default: { // one coefficient everywhere: lazy sums reach their maximum together
        F2 x = genF2(g);
        for (int k = 0; k < (even ? 1 : 2); k++) for (int j = 0; j < 3; j++) t[k][j] = g.chance(1, 4) ? -x : x;
    }
    }
    return from_tower(t);
}
F12 genF12(Gen& g) { return gen12(g, false); }
F12 genF6(Gen& g) { return gen12(g, true); }

mpz_class genScalar(Gen& g) {
    static const mpz_class M = mpz_class(1) << 256;
    switch (g.weighted({3, 3, 6, 4, 2, 2})) {
    case 0: return long(g.below(20));
    case 1: { // around multiples of r
        mpz_class z = R * (unsigned long)(g.below(3)) + long(g.below(5)) - 2;
        if (z < 0) z = 0;
        return z % M;
    }
    case 2: { Sc4 s; for (auto& w : s) w = g.raw(); return limbs_z(s.data(), 4); }
    case 3: return genBits(g, 4);
    case 4: return (M - 1) - long(g.below(4));
    default: return (mpz_class(1) << unsigned(g.below(256))) - long(g.below(2));
    }
}
mpz_class genKey(Gen& g) {
    switch (g.weighted({2, 2, 6, 3, 1})) {
    case 0: return long(1 + g.below(16));
    case 1: return R - 1 - long(g.below(16));
    case 2: { Sc4 s; for (auto& w : s) w = g.raw(); return limbs_z(s.data(), 4) % (R - 1) + 1; }
    case 3: return genBits(g, 4) % (R - 1) + 1;
    default: return (mpz_class(1) << unsigned(g.below(254)));
    }
}
static size_t genLen(Gen& g, size_t maxlen) {
    size_t n;
    switch (g.weighted({3, 4, 4, 2})) {
    case 0: n = g.below(8); break;
    case 1: { // around block boundaries
        static const size_t e[] = {31, 32, 33, 55, 56, 57, 63, 64, 65, 119, 120, 121, 127, 128, 129, 183, 184, 191, 192, 193, 255, 256, 257};
        static const size_t f[] = {383, 384, 385, 511, 512, 513, 767, 768, 1000, 1023, 1024, 1025, 1500, 2047, 2048, 4095, 4096, 4097, 8192, 16384, 32768, 65535, 65536, 65537};
        size_t k = 0;
        while (k < std::size(f) && f[k] <= maxlen) k++;
        n = k && g.chance(1, 6) ? f[g.below(k)] : e[g.below(std::size(e))];
        break;
    }
    case 2: n = g.below(200); break;
    default: n = g.below(maxlen + 1);
    }
    return std::min(n, maxlen);
}
Bytes genBytes(Gen& g, size_t maxlen) {
    size_t n = genLen(g, maxlen);
    Bytes b(n);
    switch (g.weighted({1, 4, 1, 1})) {
    case 0: break; // zeros
    case 1: if (n <= 512) { g.bytes(b.data(), n); } else { uint64_t s = g.raw(); for (size_t i = 0; i < n; i++) b[i] = uint8_t(pbt::mix64(s + i / 8) >> (8 * (i % 8))); } break;
    case 2: std::fill(b.begin(), b.end(), 0xff); break;
    default: { uint8_t v = uint8_t(g.raw()); for (size_t i = 0; i < n; i++) b[i] = uint8_t(v + i); }
    }
    return b;
}
Bytes genMsg(Gen& g) { return genBytes(g, 2048); }

// ---- points -------------------------------------------------------------------------------------
namespace {
template<class PT> struct Pool {
    std::vector<std::pair<mpz_class, PT>> sub;  // known logarithm
    std::vector<PT> any;                        // random curve points
    std::vector<std::vector<PT>> tors;          // per prime: points of l-power order
    std::vector<PT> tall;                       // r-torsion-free points: order divides the cofactor
    std::vector<PT> special;                    // x = 0, y in a subfield, ...
};
Gen& poolgen() { static Gen g = Gen::derived(0xB15B15ull); return g; }
mpz_class unif(Gen& g, int words) {
    std::vector<uint64_t> w(words);
    for (auto& x : w) x = g.raw();
    return limbs_z(w.data(), words);
}
P1 randpt1(Gen& g) {
    for (;;) {
        auto p = lift1(F::of(unif(g, 7)));
        if (p) return g.flip() ? *p : -*p;
    }
}
P2 randpt2(Gen& g) {
    for (;;) {
        auto p = lift2(F2{F::of(unif(g, 7)), F::of(unif(g, 7))});
        if (p) return g.flip() ? *p : -*p;
    }
}
template<class PT> void torsion(Pool<PT>& pl, const mpz_class& n, const std::vector<mpz_class>& primes, PT (*rnd)(Gen&), int per) {
    Gen& g = poolgen();
    for (auto& l : primes) {
        mpz_class m = n;
        while (m % l == 0) m /= l;
        std::vector<PT> v;
        for (int tries = 0; int(v.size()) < per && tries < 40; tries++) {
            PT t = rnd(g).mul(m); // l-primary part
            if (t.inf) continue;
            // reduce to exact order l most of the time
            if (tries % 3 != 2) {
                for (;;) {
                    PT u = t.mul(l);
                    if (u.inf) break;
                    t = u;
                }
            }
            v.push_back(t);
        }
        if (!v.empty()) pl.tors.push_back(v);
    }
    for (int i = 0; i < 6; i++) {
        PT t = rnd(g).mul(R);
        if (!t.inf) pl.tall.push_back(t);
    }
}
const Pool<P1>& pool1() {
    static const Pool<P1> p = [] {
        Pool<P1> q;
        Gen& g = poolgen();
        for (int i = 0; i < 48; i++) { mpz_class k = unif(g, 4) % R; q.sub.push_back({k, g1mul(k)}); }
        for (int i = 0; i < 24; i++) q.any.push_back(randpt1(g));
        torsion<P1>(q, H1 * R, {3, 11, 10177, 859267, 52437899}, randpt1, 6);
        q.special.push_back(P1::of(F::zero(), F::of(2)));
        q.special.push_back(P1::of(F::zero(), -F::of(2)));
        for (long x = 1; x < 40; x++) for (long s : {1, -1}) if (auto p = lift1(F::of(x * s))) q.special.push_back(*p);
        // y values adjacent to the middle of the range: x^3 = y^2 - 4
        for (int i = 0; i < 60; i++) {
            F y = F::of((P - 1) / 2 - i);
            F c = y * y - F::of(4);
            // cube root exists iff c^((p-1)/3) = 1
            if (c.is_zero() || c.pow((P - 1) / 3) != F::one()) continue;
            // p = 10 mod 27 style extraction is avoided: search the root by exponent inverse on the odd part
            mpz_class e = (P - 1) / 3, m = e;
            while (m % 3 == 0) m /= 3;
            mpz_class inv3;
            mpz_class three = 3;
            mpz_invert(inv3.get_mpz_t(), three.get_mpz_t(), m.get_mpz_t());
            F x = c.pow(inv3);
            if (x * x * x == c) { q.special.push_back(P1::of(x, y)); q.special.push_back(P1::of(x, -y)); }
        }
        return q;
    }();
    return p;
}
const Pool<P2>& pool2() {
    static const Pool<P2> p = [] {
        Pool<P2> q;
        Gen& g = poolgen();
        for (int i = 0; i < 48; i++) { mpz_class k = unif(g, 4) % R; q.sub.push_back({k, g2mul(k)}); }
        for (int i = 0; i < 24; i++) q.any.push_back(randpt2(g));
        torsion<P2>(q, H2 * R, {13, 23, 2713, 11953, 262069}, randpt2, 6);
        if (auto p0 = lift2(F2::zero())) { q.special.push_back(*p0); q.special.push_back(-*p0); }
        for (long a = -12; a < 12; a++) {
            if (auto t = lift2(F2{F::of(a), F::zero()})) q.special.push_back(*t);
            if (auto t = lift2(F2{F::zero(), F::of(a)})) { q.special.push_back(*t); q.special.push_back(-*t); }
            if (auto t = lift2(F2{F::of(a), F::of(a)})) q.special.push_back(*t);
        }
        // points with y in Fp or y in u*Fp: x^3 = y^2 - 4(1+u), cube roots in Fp2
        {
            mpz_class q2 = P * P, m = (q2 - 1);
            while (m % 3 == 0) m /= 3;
            mpz_class inv3, three = 3;
            mpz_invert(inv3.get_mpz_t(), three.get_mpz_t(), m.get_mpz_t());
            int found = 0;
            for (long a = 1; a < 400 && found < 12; a++)
                for (int im = 0; im < 2; im++) {
                    F2 y = im ? F2{F::zero(), F::of(a)} : F2{F::of(a), F::zero()};
                    F2 c = y * y - Curve<F2>::b();
                    F2 x = c.pow(inv3);
                    if (x * x * x == c) { q.special.push_back(P2::of(x, y)); q.special.push_back(-P2::of(x, y)); found++; }
                }
        }
        return q;
    }();
    return p;
}
template<class PT> PT genTors(Gen& g, const Pool<PT>& pl) {
    if (g.chance(1, 6)) return g.pick(pl.tall);
    auto& v = g.pick(pl.tors);
    PT a = v[g.below(v.size())];
    if (g.flip()) {
        PT b = v[g.below(v.size())];
        PT s = a;
        uint64_t k = g.below(24);
        s = a + b.mul(mpz_class((unsigned long)k));
        if (!s.inf) a = s;
    }
    if (g.chance(1, 5)) {
        auto& w = g.pick(pl.tors);
        PT s = a + w[g.below(w.size())];
        if (!s.inf) a = s;
    }
    return g.flip() ? -a : a;
}
template<class PT, class KT> KT genSubT(Gen& g, const Pool<PT>& pl, const PT& gen, PT (*mul)(const mpz_class&), bool inf) {
    KT r;
    switch (g.weighted({3, 5, 3, 2, inf ? 2u : 0u})) {
    case 0: r.k = long(1 + g.below(12)); if (g.flip()) r.k = R - r.k; r.p = mul(r.k); break;
    case 1: { auto& e = g.pick(pl.sub); r.k = e.first; r.p = e.second; break; }
    case 2: { auto& e = g.pick(pl.sub); auto& f = g.pick(pl.sub); r.k = (e.first + f.first) % R; r.p = e.second + f.second; break; }
    case 3: r.k = genKey(g); r.p = mul(r.k); break;
    default: r.k = 0; r.p = PT::infinity();
    }
    return r;
}
template<class PT, class KT> PT genAnyT(Gen& g, const Pool<PT>& pl, int* kind, KT (*sub)(Gen&, bool)) {
    int k = int(g.weighted({5, 2, 4, 3, 3, 2}));
    if (kind) *kind = k;
    switch (k) {
    case 0: return sub(g, false).p;
    case 1: return PT::infinity();
    case 2: return genTors(g, pl);
    case 3: return sub(g, false).p + genTors(g, pl);
    case 4: { PT p = g.pick(pl.any); return g.flip() ? p : p + g.pick(pl.sub).second; }
    default: return g.pick(pl.special);
    }
}
} // namespace
const char* kindName(int k) {
    static const char* n[] = {"subgroup", "infinity", "cofactor-order", "mixed-order", "random", "special"};
    return n[k];
}
K1 genSub1(Gen& g, bool inf) { return genSubT<P1, K1>(g, pool1(), G1gen(), g1mul, inf); }
K2 genSub2(Gen& g, bool inf) { return genSubT<P2, K2>(g, pool2(), G2gen(), g2mul, inf); }
P1 genTorsion1(Gen& g) { return genTors(g, pool1()); }
P2 genTorsion2(Gen& g) { return genTors(g, pool2()); }
P1 genP1(Gen& g, int* kind) { return genAnyT<P1, K1>(g, pool1(), kind, genSub1); }
P2 genP2(Gen& g, int* kind) { return genAnyT<P2, K2>(g, pool2(), kind, genSub2); }

F genLambda(Gen& g) {
    F l = g.flip() ? genF(g) : -F::one();
    return l.is_zero() ? F::of(2) : l;
}
F2 genLambda2(Gen& g) {
    F2 l = g.flip() ? genF2(g) : -F2::one();
    return l.is_zero() ? F2{F::zero(), F::one()} : l;
}
B::g1 rep(Gen& g, const P1& p, bool* affine) {
    if (affine) *affine = false;
    if (p.inf) {
        switch (g.below(3)) {
        case 0: return LA(p);
        case 1: return B::g1({L(F::zero()), L(F::zero()), L(F::zero())});
        default: { F x = genF(g), y = genF(g); return B::g1({L(x), L(y), L(F::zero())}); }
        }
    }
    if (g.chance(1, 3)) {
        if (affine) *affine = true;
        return LA(p);
    }
    F l = genLambda(g), l2 = l * l;
    return B::g1({L(p.x * l2), L(p.y * l2 * l), L(l)});
}
B::g2 rep(Gen& g, const P2& p, bool* affine) {
    if (affine) *affine = false;
    if (p.inf) {
        switch (g.below(3)) {
        case 0: return LA(p);
        case 1: return B::g2({L(F2::zero()), L(F2::zero()), L(F2::zero())});
        default: { F2 x = genF2(g), y = genF2(g); return B::g2({L(x), L(y), L(F2::zero())}); }
        }
    }
    if (g.chance(1, 3)) {
        if (affine) *affine = true;
        return LA(p);
    }
    F2 l = genLambda2(g), l2 = l * l;
    return B::g2({L(p.x * l2), L(p.y * l2 * l), L(l)});
}

// Built once in the parent process so that the forked workers share the pools.
bool g_need_points = false;
void (*g_after_warmup)() = nullptr;
namespace pbt {
void warmup() {
    if (g_need_points) {
        pool1();
        pool2();
    }
    if (g_after_warmup) g_after_warmup();
}
}
