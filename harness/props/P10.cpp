#include "../common.hpp"
using namespace ref;
PROPERTY("P10")
extern bool g_need_points;
static bool np = (g_need_points = true);

static Bytes fb(const F& a, bool be) {
    Bytes b = i2osp(a.z(), 48);
    if (!be) std::reverse(b.begin(), b.end());
    return b;
}
static Bytes fb(const F2& a, bool be) {
    Bytes x = fb(be ? a.b : a.a, be), y = fb(be ? a.a : a.b, be);
    x.insert(x.end(), y.begin(), y.end());
    return x;
}
static F mt(const F& a) { return mont_to(a); }
static F2 mt(const F2& a) { return {mont_to(a.a), mont_to(a.b)}; }
static Bytes cat(Bytes a, const Bytes& b) { a.insert(a.end(), b.begin(), b.end()); return a; }

template<class G> struct T;
template<> struct T<B::g1> {
    typedef P1 Pt; typedef F K;
    static constexpr unsigned n = 48;
    static constexpr const char* name = "g1";
    static P1 pt(Gen& g, int* k) { return genP1(g, k); }
    static Bytes comp(const P1& p) { return compress1(p); }
    static F omega() { static const F w = F::of(2).pow((P - 1) / 3); return w; }
    static F xyz(const B::fp& a) { return V(a); }
};
template<> struct T<B::g2> {
    typedef P2 Pt; typedef F2 K;
    static constexpr unsigned n = 96;
    static constexpr const char* name = "g2";
    static P2 pt(Gen& g, int* k) { return genP2(g, k); }
    static Bytes comp(const P2& p) { return compress2(p); }
    static F2 omega() { static const F2 w{F::of(2).pow((P - 1) / 3), F::zero()}; return w; }
    static F2 xyz(const B::fp2& a) { return V(a); }
};
#define HERE " for " << p.str() << " as " << rawstr(a)
template<class G> static void one(Gen& g, Ctx& c) {
    typedef typename T<G>::Pt Pt;
    typedef typename T<G>::K K;
    constexpr unsigned n = T<G>::n;
    int kind;
    Pt p = T<G>::pt(g, &kind);
    G a = rep(g, p), a0 = a;
    c.nontrivial(!p.inf);
    c.label(kindName(kind));
    c.note([&] { return std::string(T<G>::name) + " " + p.str() + " as " + rawstr(a); });
    // compressed
    Bytes cw = T<G>::comp(p);
    Bytes cb = toB(a.toCompressedBytesBE());
    CHECK(cb == cw, T<G>::name << " toCompressedBytesBE = " << hx(cb) << ", expected " << hx(cw) << HERE);
    {
        std::array<uint8_t, n + 2> gu;
        gu.fill(0x6b);
        a.toCompressedBytesBE(std::span<uint8_t, n>(gu.data() + 1, n));
        CHECK(gu[0] == 0x6b && gu.back() == 0x6b && std::equal(cw.begin(), cw.end(), gu.begin() + 1), T<G>::name << " toCompressedBytesBE into a span" << HERE);
        auto d = G::fromCompressedBytesBE(std::span<const uint8_t, n>(cb.data(), n));
        CHECK(d.has_value(), T<G>::name << " compressed encoding " << hx(cb) << " rejected");
        CHECK(V(*d, "decoded point") == p, T<G>::name << " compressed round trip gives " << V(*d).str() << HERE);
        CHECK(d->equal(a), T<G>::name << " compressed round trip not equal" << HERE);
        // the opposite point has the other sign bit
        Bytes nb = toB(a.negate().toCompressedBytesBE());
        Bytes x = cb;
        if (!p.inf) x[0] ^= 0x20;
        CHECK(nb == x, T<G>::name << " compressed encoding of the negation is " << hx(nb) << HERE);
    }
    // affine and projective, both orders, with and without Montgomery conversion
    K X = T<G>::xyz(a.x), Y = T<G>::xyz(a.y), Z = T<G>::xyz(a.z);
    for (int be = 0; be < 2; be++) for (int fm = 0; fm < 2; fm++) {
        B::from_mont f = fm ? B::from_mont::yes : B::from_mont::no;
        auto cv = [&](const K& k) { return fb(fm ? k : mt(k), be); };
        Bytes aw = p.inf ? Bytes(2 * n, 0) : cat(cv(p.x), cv(p.y));
        Bytes ab = be ? toB(a.toAffineBytesBE(f)) : toB(a.toAffineBytesLE(f));
        CHECK(ab == aw, T<G>::name << " toAffineBytes" << (be ? "BE" : "LE") << " = " << hx(ab) << ", expected " << hx(aw) << HERE);
        Bytes jw = cat(cat(cv(X), cv(Y)), cv(Z));
        Bytes jb = be ? toB(a.toJacobianBytesBE(f)) : toB(a.toJacobianBytesLE(f));
        CHECK(jb == jw, T<G>::name << " toJacobianBytes" << (be ? "BE" : "LE") << " = " << hx(jb) << ", expected " << hx(jw) << HERE);
        {
            std::array<uint8_t, 2 * n + 2> gu;
            gu.fill(0x6b);
            std::span<uint8_t, 2 * n> s(gu.data() + 1, 2 * n);
            if (be) a.toAffineBytesBE(s, f); else a.toAffineBytesLE(s, f);
            CHECK(gu[0] == 0x6b && gu.back() == 0x6b && std::equal(aw.begin(), aw.end(), gu.begin() + 1), T<G>::name << " toAffineBytes into a span" << HERE);
            std::array<uint8_t, 3 * n + 2> hu;
            hu.fill(0x6b);
            std::span<uint8_t, 3 * n> t(hu.data() + 1, 3 * n);
            if (be) a.toJacobianBytesBE(t, f); else a.toJacobianBytesLE(t, f);
            CHECK(hu[0] == 0x6b && hu.back() == 0x6b && std::equal(jw.begin(), jw.end(), hu.begin() + 1), T<G>::name << " toJacobianBytes into a span" << HERE);
        }
        for (int chk = 0; chk < 2; chk++) {
            B::conv_opt o{.check_valid = bool(chk), .to_mont = bool(fm)};
            std::span<const uint8_t, 2 * n> as(ab.data(), 2 * n);
            auto d = be ? G::fromAffineBytesBE(as, o) : G::fromAffineBytesLE(as, o);
            CHECK(d.has_value(), T<G>::name << " affine encoding " << hx(ab) << " rejected" << HERE);
            CHECK(V(*d, "decoded point") == p && d->equal(a), T<G>::name << " affine round trip (" << (be ? "BE" : "LE") << ", mont " << fm << ", check " << chk << ") gives " << V(*d).str() << HERE);
            CHECK(p.inf ? d->isZero() : d->isAffine(), T<G>::name << " affine decoding is not normalised" << HERE);
            std::span<const uint8_t, 3 * n> js(jb.data(), 3 * n);
            auto e = be ? G::fromJacobianBytesBE(js, o) : G::fromJacobianBytesLE(js, o);
            CHECK(e.has_value(), T<G>::name << " projective encoding " << hx(jb) << " rejected" << HERE);
            CHECK(same(*e, a), T<G>::name << " projective round trip (" << (be ? "BE" : "LE") << ", mont " << fm << ", check " << chk << ") gives " << rawstr(*e) << HERE);
        }
    }
    // defaults
    {
        Bytes b1 = toB(a.toAffineBytesBE()), b2 = toB(a.toAffineBytesLE()), b3 = toB(a.toJacobianBytesBE()), b4 = toB(a.toJacobianBytesLE());
        auto d1 = G::fromAffineBytesBE(std::span<const uint8_t, 2 * n>(b1.data(), 2 * n));
        auto d2 = G::fromAffineBytesLE(std::span<const uint8_t, 2 * n>(b2.data(), 2 * n));
        auto d3 = G::fromJacobianBytesBE(std::span<const uint8_t, 3 * n>(b3.data(), 3 * n));
        auto d4 = G::fromJacobianBytesLE(std::span<const uint8_t, 3 * n>(b4.data(), 3 * n));
        CHECK(b1 == (p.inf ? Bytes(2 * n, 0) : cat(fb(p.x, true), fb(p.y, true))), T<G>::name << " default affine encoding" << HERE);
        CHECK(d1 && d2 && d3 && d4, T<G>::name << " default round trip rejected" << HERE);
        CHECK(V(*d1) == p && V(*d2) == p && V(*d3) == p && V(*d4) == p, T<G>::name << " default round trip" << HERE);
    }
    CHECK(same(a, a0), T<G>::name << " encoding modified the point" << HERE);
}
template<class G> static void two(Gen& g, Ctx& c) {
    typedef typename T<G>::Pt Pt;
    int k1;
    Pt p = T<G>::pt(g, &k1), q;
    switch (g.below(4)) {
    case 0: q = -p; break;
    case 1: q = p; break;
    case 2: q = p.inf ? T<G>::pt(g, nullptr) : Pt::of(p.x * T<G>::omega(), p.y); break;
    default: q = T<G>::pt(g, nullptr);
    }
    G a = rep(g, p), b = rep(g, q);
    bool eq = p == q;
    c.nontrivial(!p.inf && !q.inf);
    c.label(eq ? "same point" : "different points");
    c.note([&] { return std::string(T<G>::name) + " " + p.str() + " and " + q.str(); });
    CHECK((a.toCompressedBytesBE() == b.toCompressedBytesBE()) == eq, T<G>::name << " compressed bytes of " << p.str() << " and " << q.str());
    CHECK((a.toAffineBytesBE() == b.toAffineBytesBE()) == eq, T<G>::name << " affine BE bytes of " << p.str() << " and " << q.str());
    CHECK((a.toAffineBytesLE() == b.toAffineBytesLE()) == eq, T<G>::name << " affine LE bytes of " << p.str() << " and " << q.str());
}
PROP(g1_roundtrip, 15000, 400000) { one<B::g1>(g, c); }
PROP(g2_roundtrip, 8000, 200000) { one<B::g2>(g, c); }
PROP(g1_distinct, 15000, 400000) { two<B::g1>(g, c); }
PROP(g2_distinct, 10000, 250000) { two<B::g2>(g, c); }
