#include "../common.hpp"
using namespace ref;
PROPERTY("P06")

static const mpz_class& M384() { static const mpz_class m = mpz_class(1) << 384; return m; }
template<class E> struct Lvl;
template<> struct Lvl<B::fp> { static constexpr unsigned n = 1; static constexpr const char* name = "fp"; };
template<> struct Lvl<B::fp2> { static constexpr unsigned n = 2; static constexpr const char* name = "fp2"; };
template<> struct Lvl<B::fp6> { static constexpr unsigned n = 6; static constexpr const char* name = "fp6"; };
template<> struct Lvl<B::fp12> { static constexpr unsigned n = 12; static constexpr const char* name = "fp12"; };
static void get(const B::fp& e, std::vector<B::fp>& o) { o.push_back(e); }
static void get(const B::fp2& e, std::vector<B::fp>& o) { get(e.c0, o); get(e.c1, o); }
static void get(const B::fp6& e, std::vector<B::fp>& o) { get(e.c0, o); get(e.c1, o); get(e.c2, o); }
static void get(const B::fp12& e, std::vector<B::fp>& o) { get(e.c0, o); get(e.c1, o); }
static void put(B::fp& e, const B::fp*& i) { e = *i++; }
static void put(B::fp2& e, const B::fp*& i) { put(e.c0, i); put(e.c1, i); }
static void put(B::fp6& e, const B::fp*& i) { put(e.c0, i); put(e.c1, i); put(e.c2, i); }
static void put(B::fp12& e, const B::fp*& i) { put(e.c0, i); put(e.c1, i); }
template<class E> static std::vector<B::fp> coeffs(const E& e) { std::vector<B::fp> v; get(e, v); return v; }
template<class E> static E build(const std::vector<B::fp>& v) { E e; const B::fp* p = v.data(); put(e, p); return e; }
static mpz_class lim(const B::fp& a) { return limbs_z(a.d.data(), 6); }
// one coefficient, most significant byte first, or reversed
static void append(Bytes& o, const mpz_class& z, bool be) {
    Bytes b = i2osp(z, 48);
    if (!be) std::reverse(b.begin(), b.end());
    o.insert(o.end(), b.begin(), b.end());
}
// documented layout: coefficients from the lowest to the highest in little-endian, reversed in big-endian
static Bytes layout(const std::vector<mpz_class>& v, bool be) {
    Bytes o;
    for (size_t i = 0; i < v.size(); i++) append(o, v[be ? v.size() - 1 - i : i], be);
    return o;
}
template<class E> static void roundtrip(Gen& g, Ctx& c) {
    constexpr unsigned n = Lvl<E>::n;
    std::vector<F> v(n);
    int mode = int(g.below(4));
    for (auto& x : v) x = mode == 0 && g.below(3) ? F::zero() : genF(g);
    c.nontrivial(std::any_of(v.begin(), v.end(), [](const F& f) { return !f.is_zero() && f != F::one(); }));
    std::vector<B::fp> st;
    std::vector<mpz_class> val, mon;
    for (auto& x : v) { st.push_back(L(x)); val.push_back(x.z()); mon.push_back(mont_to(x).z()); }
    E e = build<E>(st);
    c.note([&] { std::string s = std::string(Lvl<E>::name) + " ("; for (auto& x : v) s += x.str() + " "; return s + ")"; });
    for (int be = 0; be < 2; be++) for (int fm = 0; fm < 2; fm++) {
        B::from_mont f = fm ? B::from_mont::yes : B::from_mont::no;
        Bytes want = layout(fm ? val : mon, be);
        auto a = be ? e.toBytesBE(f) : e.toBytesLE(f);
        CHECK(toB(a) == want, Lvl<E>::name << " toBytes" << (be ? "BE" : "LE") << " (from_mont " << fm << ") = " << hx(toB(a)) << ", expected " << hx(want));
        std::array<uint8_t, 48 * n + 2> gu;
        gu.fill(0x3c);
        std::span<uint8_t, 48 * n> sp(gu.data() + 1, 48 * n);
        if (be) e.toBytesBE(sp, f); else e.toBytesLE(sp, f);
        CHECK(gu[0] == 0x3c && gu.back() == 0x3c && std::equal(want.begin(), want.end(), gu.begin() + 1), Lvl<E>::name << " toBytes into a span");
        std::span<const uint8_t, 48 * n> in(want.data(), 48 * n);
        for (int chk = 0; chk < 2; chk++) {
            B::conv_opt o{.check_valid = bool(chk), .to_mont = bool(fm)};
            auto r = be ? E::fromBytesBE(in, o) : E::fromBytesLE(in, o);
            CHECK(r.has_value(), Lvl<E>::name << " encoding rejected: " << hx(want));
            auto w = coeffs(*r);
            for (unsigned i = 0; i < n; i++) CHECK(w[i].d == st[i].d, Lvl<E>::name << " decode(encode) changed coefficient " << i << " to " << rawstr(w[i]) << " for " << hx(want) << (be ? " BE" : " LE"));
            CHECK(r->equal(e), Lvl<E>::name << " decode(encode) is not equal to the original");
        }
    }
    // defaults: checked, Montgomery conversion on both sides
    {
        Bytes b1 = toB(e.toBytesBE()), b2 = toB(e.toBytesLE());
        CHECK(b1 == layout(val, true) && b2 == layout(val, false), Lvl<E>::name << " default encoding");
        auto r1 = E::fromBytesBE(std::span<const uint8_t, 48 * n>(b1.data(), 48 * n));
        auto r2 = E::fromBytesLE(std::span<const uint8_t, 48 * n>(b2.data(), 48 * n));
        CHECK(r1 && r2 && r1->equal(e) && r2->equal(e), Lvl<E>::name << " default decode(encode)");
    }
    auto w = coeffs(e);
    for (unsigned i = 0; i < n; i++) CHECK(w[i].d == st[i].d, "encoding modified the element");
}
PROP(roundtrip_fp, 60000, 1000000) { roundtrip<B::fp>(g, c); }
PROP(roundtrip_fp2, 40000, 600000) { roundtrip<B::fp2>(g, c); }
PROP(roundtrip_fp6, 15000, 300000) { roundtrip<B::fp6>(g, c); }
PROP(roundtrip_fp12, 10000, 200000) { roundtrip<B::fp12>(g, c); }

// an arbitrary 384-bit integer, mostly close to p in some sense
static mpz_class wild(Gen& g, bool& valid) {
    mpz_class z;
    switch (g.weighted({3, 3, 2, 2, 2, 1})) {
    case 0: z = genF(g).z(); break;
    case 1: z = P + long(g.below(5)) - 2; break;
    case 2: z = P + genBits(g, unsigned(1 + g.below(6))); break;
    case 3: { z = P; mpz_combit(z.get_mpz_t(), g.below(384)); break; }
    case 4: { // equal to p in all but one limb
        uint64_t w[6];
        for (int i = 0; i < 6; i++) w[i] = PL[i];
        unsigned k = unsigned(g.below(6));
        w[k] = g.flip() ? w[k] + 1 - 2 * g.below(2) : genWord(g);
        if (g.flip()) { unsigned j = unsigned(g.below(6)); w[j] = w[j] + 1 - 2 * g.below(2); }
        z = limbs_z(w, 6);
        break;
    }
    default: z = M384() - 1 - long(g.below(3));
    }
    z %= M384();
    valid = z < P;
    return z;
}
template<class E> static void decode(Gen& g, Ctx& c) {
    constexpr unsigned n = Lvl<E>::n;
    std::vector<mpz_class> v(n);
    bool all = true;
    // mostly one bad slot among good ones
    bool one = g.chance(3, 4);
    unsigned bad = unsigned(g.below(n));
    for (unsigned i = 0; i < n; i++) {
        bool ok = true;
        if (!one || i == bad) v[i] = wild(g, ok);
        else v[i] = genF(g).z();
        all = all && ok;
    }
    bool be = g.flip(), tm = g.flip();
    Bytes b = layout(v, be);
    c.nontrivial(true);
    c.label(all ? "all coefficients below p" : one ? "single coefficient at or above p" : "several coefficients at or above p");
    c.note([&] { return std::string(Lvl<E>::name) + (be ? " BE " : " LE ") + hx(b); });
    std::span<const uint8_t, 48 * n> in(b.data(), 48 * n);
    B::conv_opt o{.check_valid = true, .to_mont = tm};
    auto r = be ? E::fromBytesBE(in, o) : E::fromBytesLE(in, o);
    CHECK(r.has_value() == all, Lvl<E>::name << " fromBytes" << (be ? "BE" : "LE") << (all ? " rejects the valid " : " accepts the invalid ") << hx(b) << " (coefficient " << bad << ", to_mont " << tm << ")");
    if (r) {
        auto w = coeffs(*r);
        for (unsigned i = 0; i < n; i++) {
            mpz_class want = tm ? mont_to(F::of(v[i])).z() : v[i];
            CHECK(lim(w[i]) == want, Lvl<E>::name << " fromBytes" << (be ? "BE" : "LE") << " coefficient " << i << " of " << hx(b));
        }
    }
    // validity check off and no conversion: the integers are taken as they are
    auto u = be ? E::fromBytesBE(in, {.check_valid = false, .to_mont = false}) : E::fromBytesLE(in, {.check_valid = false, .to_mont = false});
    CHECK(u.has_value(), Lvl<E>::name << " unchecked decoding failed on " << hx(b));
    auto w = coeffs(*u);
    for (unsigned i = 0; i < n; i++) {
        CHECK(lim(w[i]) == v[i], Lvl<E>::name << " unchecked fromBytes" << (be ? "BE" : "LE") << " coefficient " << i << " of " << hx(b));
        CHECK(w[i].isValid() == (v[i] < P), "isValid(" << zs(v[i]) << ")");
    }
    Bytes back = toB(be ? u->toBytesBE(B::from_mont::no) : u->toBytesLE(B::from_mont::no));
    CHECK(back == b, Lvl<E>::name << " raw decode and encode changed " << hx(b));
    // unchecked with conversion: same residue, where the integer is below p
    if (all) {
        auto q = be ? E::fromBytesBE(in, {.check_valid = false, .to_mont = true}) : E::fromBytesLE(in, {.check_valid = false, .to_mont = true});
        CHECK(q.has_value(), "unchecked converting decode");
        auto x = coeffs(*q);
        for (unsigned i = 0; i < n; i++) CHECK(V(x[i]) == F::of(v[i]), Lvl<E>::name << " unchecked converting decode of coefficient " << i << " of " << hx(b));
    }
}
PROP(decode_fp, 200000, 3000000) { decode<B::fp>(g, c); }
PROP(decode_fp2, 100000, 1500000) { decode<B::fp2>(g, c); }
PROP(decode_fp6, 40000, 600000) { decode<B::fp6>(g, c); }
PROP(decode_fp12, 30000, 400000) { decode<B::fp12>(g, c); }
