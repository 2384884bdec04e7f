#include "../common.hpp"
using namespace ref;
PROPERTY("P11")
extern bool g_need_points;
static bool np = (g_need_points = true);

static const mpz_class& M381() { static const mpz_class m = mpz_class(1) << 381; return m; }
static const mpz_class& M384() { static const mpz_class m = mpz_class(1) << 384; return m; }

// ---- reference decoders, from the format description --------------------------------------------
// nullopt: not the standard encoding of any curve point
static std::optional<P1> dec(const Bytes& b, const P1*) {
    if (!(b[0] & 0x80)) return {};
    if (b[0] & 0x40) {
        Bytes z(48, 0);
        z[0] = 0xc0;
        if (b != z) return {};
        return P1::infinity();
    }
    Bytes x = b;
    x[0] &= 0x1f;
    mpz_class xi = os2ip(x.data(), 48);
    if (xi >= P) return {};
    auto p = lift1(F::of(xi));
    if (!p) return {};
    if (larger(p->y) != bool(b[0] & 0x20)) *p = -*p;
    return p;
}
static std::optional<P2> dec(const Bytes& b, const P2*) {
    if (!(b[0] & 0x80)) return {};
    if (b[0] & 0x40) {
        Bytes z(96, 0);
        z[0] = 0xc0;
        if (b != z) return {};
        return P2::infinity();
    }
    Bytes x = b;
    x[0] &= 0x1f;
    mpz_class x1 = os2ip(x.data(), 48), x0 = os2ip(x.data() + 48, 48);
    if (x0 >= P || x1 >= P) return {};
    auto p = lift2({F::of(x0), F::of(x1)});
    if (!p) return {};
    if (larger(p->y) != bool(b[0] & 0x20)) *p = -*p;
    return p;
}
template<class G> struct T;
template<> struct T<B::g1> {
    typedef P1 Pt; typedef F K;
    static constexpr unsigned nc = 1, n = 48;
    static constexpr const char* name = "g1";
    static P1 pt(Gen& g) { return genP1(g); }
    static Bytes comp(const P1& p) { return compress1(p); }
    static F k(const mpz_class* v) { return F::of(v[0]); }
    static void ints(const F& a, std::vector<mpz_class>& o) { o.push_back(a.z()); }
    static F gen(Gen& g) { return genF(g); }
    static std::optional<P1> lift(const F& x) { return lift1(x); }
};
template<> struct T<B::g2> {
    typedef P2 Pt; typedef F2 K;
    static constexpr unsigned nc = 2, n = 96;
    static constexpr const char* name = "g2";
    static P2 pt(Gen& g) { return genP2(g); }
    static Bytes comp(const P2& p) { return compress2(p); }
    static F2 k(const mpz_class* v) { return {F::of(v[0]), F::of(v[1])}; }
    static void ints(const F2& a, std::vector<mpz_class>& o) { o.push_back(a.a.z()); o.push_back(a.b.z()); }
    static F2 gen(Gen& g) { return genF2(g); }
    static std::optional<P2> lift(const F2& x) { return lift2(x); }
};
// ---- compressed ----------------------------------------------------------------------------------
template<class G> static void compressed(Gen& g, Ctx& c) {
    typedef typename T<G>::Pt Pt;
    constexpr unsigned n = T<G>::n;
    Bytes b(n);
    const char* what;
    auto setx = [&](const std::vector<mpz_class>& v, uint8_t flags) { // v: c0[,c1]
        Bytes o;
        for (unsigned i = 0; i < v.size(); i++) { Bytes t = i2osp(v[v.size() - 1 - i] % M384(), 48); o.insert(o.end(), t.begin(), t.end()); }
        o[0] = uint8_t((o[0] & 0x1f) | flags);
        b = o;
    };
    switch (g.weighted({3, 4, 3, 3, 3, 2, 3, 1, 2})) {
    case 0: what = "valid encoding"; b = T<G>::comp(T<G>::pt(g)); break;
    case 1: { // arbitrary x, any flags
        what = "x with any flags";
        std::vector<mpz_class> v;
        T<G>::ints(T<G>::gen(g), v);
        static const uint8_t fl[] = {0x80, 0xa0, 0x00, 0x20, 0xc0, 0xe0, 0x40, 0x60};
        setx(v, fl[g.weighted({6, 6, 1, 1, 1, 1, 1, 1})]);
        break;
    }
    case 2: { // coordinate shifted by p
        what = "coordinate plus p";
        // an x-coordinate of a curve point with room for +p below 2^381 (first coefficient) or 2^384 (second)
        mpz_class room = M381() - P;
        std::vector<mpz_class> v(T<G>::nc);
        unsigned i = unsigned(g.below(T<G>::nc));
        typename T<G>::K x;
        for (int tries = 0; tries < 12; tries++) {
            for (unsigned j = 0; j < T<G>::nc; j++) {
                v[j] = genF(g).z();
                if (j == i && (i + 1 == T<G>::nc)) v[j] %= room;
            }
            x = T<G>::k(v.data());
            if (T<G>::lift(x)) break;
        }
        mpz_class k = 1;
        if (i + 1 != T<G>::nc) k += long(g.below(4));
        v[i] += k * P;
        while (v[i] >= M384()) v[i] -= P;
        setx(v, g.flip() ? 0x80 : 0xa0);
        break;
    }
    case 3: { // infinity with stray bits
        what = "decorated infinity";
        b.assign(n, 0);
        b[0] = 0xc0;
        unsigned m = unsigned(g.below(3));
        for (unsigned i = 0; i < m; i++) b[g.below(n)] ^= uint8_t(1u << g.below(8));
        if (g.chance(1, 4)) b[0] ^= uint8_t(0x20);
        break;
    }
    case 4: { // bit flips in a valid encoding
        what = "bit flip";
        b = T<G>::comp(T<G>::pt(g));
        unsigned m = unsigned(1 + g.below(2));
        for (unsigned i = 0; i < m; i++) b[g.flip() ? 0 : g.below(n)] ^= uint8_t(1u << g.below(8));
        break;
    }
    case 5: { // integers next to p
        what = "x next to p";
        std::vector<mpz_class> v(T<G>::nc);
        for (auto& z : v) z = g.flip() ? mpz_class(P + long(g.below(9)) - 4) : mpz_class(long(g.below(5)));
        setx(v, g.flip() ? 0x80 : 0xa0);
        break;
    }
    case 6: { // high bits of the second coefficient
        what = "flag bits in the low coefficient";
        b = T<G>::comp(T<G>::pt(g));
        b[n - 48] ^= uint8_t(0x20u << g.below(3));
        break;
    }
    case 7: what = "random bytes"; g.bytes(b.data(), n); break;
    default: what = "constant bytes"; std::fill(b.begin(), b.end(), uint8_t(g.below(256))); if (g.flip()) b[0] |= 0x80;
    }
    auto want = dec(b, (const Pt*)nullptr);
    Bytes b0 = b;
    c.nontrivial(b[0] & 0x80);
    c.label(std::string(what) + (want ? ": valid" : ": invalid"));
    c.note([&] { return std::string(T<G>::name) + " " + what + " " + hx(b); });
    auto r = G::fromCompressedBytesBE(std::span<const uint8_t, n>(b.data(), n));
    CHECK(r.has_value() == want.has_value(), T<G>::name << " fromCompressedBytesBE " << (want ? "rejects the standard encoding " : "accepts ") << hx(b) << " (" << what << ")");
    if (r) {
        CHECK(V(*r, "decoded point") == *want, T<G>::name << " fromCompressedBytesBE(" << hx(b) << ") = " << V(*r).str() << ", expected " << want->str());
        CHECK(toB(r->toCompressedBytesBE()) == b, T<G>::name << " accepts " << hx(b) << " but encodes the point differently");
    }
    CHECK(b == b0, "decoder modified its input");
}
PROP(g1_compressed, 80000, 2000000) { compressed<B::g1>(g, c); }
PROP(g2_compressed, 40000, 1000000) { compressed<B::g2>(g, c); }

// ---- affine and projective -----------------------------------------------------------------------
static void place(Bytes& o, const mpz_class& z, bool be) {
    Bytes t = i2osp(z, 48);
    if (!be) std::reverse(t.begin(), t.end());
    o.insert(o.end(), t.begin(), t.end());
}
template<class G> static void uncompressed(Gen& g, Ctx& c, bool jac) {
    typedef typename T<G>::Pt Pt;
    typedef typename T<G>::K K;
    constexpr unsigned nc = T<G>::nc;
    unsigned nk = jac ? 3 : 2; // field elements
    Pt p = T<G>::pt(g);
    K x, y, z = K::one();
    const char* what = "point";
    if (jac) {
        K l = T<G>::gen(g);
        if (l.is_zero()) l = K::one();
        if (p.inf) { x = T<G>::gen(g); y = T<G>::gen(g); z = K::zero(); what = "z = 0"; }
        else { x = p.x * l * l; y = p.y * l * l * l; z = l; }
    } else {
        x = p.inf ? K::zero() : p.x;
        y = p.inf ? K::zero() : p.y;
    }
    switch (g.weighted({5, 2, 2, 1, 1})) {
    case 0: break;
    case 1: what = "perturbed"; if (g.flip()) x = x + K::one(); else y = y + K::one(); break;
    case 2: what = "perturbed"; { K d = T<G>::gen(g); switch (g.below(nk)) { case 0: x = x + d; break; case 1: y = y + d; break; default: z = z + d; } } break;
    case 3: what = "zero coordinate"; switch (g.below(nk)) { case 0: x = K::zero(); break; case 1: y = K::zero(); break; default: z = K::zero(); } break;
    default: what = "random"; x = T<G>::gen(g); y = T<G>::gen(g); if (jac) z = T<G>::gen(g);
    }
    bool tm = g.flip();
    std::vector<mpz_class> v;
    for (unsigned i = 0; i < nk; i++) T<G>::ints(i == 0 ? x : i == 1 ? y : z, v);
    if (!tm) for (auto& q : v) q = mont_to(F::of(q)).z();
    // push one coefficient to p or above
    bool range = true;
    std::vector<mpz_class> red = v;
    if (g.chance(1, 3)) {
        unsigned i = unsigned(g.below(v.size()));
        switch (g.below(4)) {
        case 0: v[i] += P; break;
        case 1: v[i] = P + long(g.below(4)); break;
        case 2: v[i] = P - 1; break;
        default: v[i] = (P + genBits(g, 6)) % M384();
        }
        range = v[i] < P;
        red[i] = v[i] % P;
        what = range ? "coefficient p-1" : "coefficient at or above p";
    }
    // values the bytes stand for
    std::vector<mpz_class> val = red;
    if (!tm) for (auto& q : val) q = mont_from(F::of(q)).z();
    K X = T<G>::k(val.data()), Y = T<G>::k(val.data() + nc), Z = jac ? T<G>::k(val.data() + 2 * nc) : K::one();
    bool inf = jac ? Z.is_zero() : X.is_zero() && Y.is_zero();
    K z2 = Z * Z;
    bool on = inf || Y * Y == X * X * X + Curve<K>::b() * z2 * z2 * z2;
    bool be = g.flip(), chk = g.flip();
    Bytes b;
    for (unsigned i = 0; i < nk; i++)
        for (unsigned j = 0; j < nc; j++) place(b, v[i * nc + (be ? nc - 1 - j : j)], be);
    bool want = range && (!chk || on);
    c.nontrivial(!inf);
    c.label(std::string(what) + (want ? ": accepted" : ": rejected") + (chk ? " (checked)" : ""));
    c.note([&] { return std::string(T<G>::name) + (jac ? " projective " : " affine ") + hx(b) + (chk ? " checked" : ""); });
    B::conv_opt o{.check_valid = chk, .to_mont = tm};
    std::optional<G> r;
    const char* fn;
    if (jac) {
        std::span<const uint8_t, 3 * T<G>::n> s(b.data(), 3 * T<G>::n);
        r = be ? G::fromJacobianBytesBE(s, o) : G::fromJacobianBytesLE(s, o);
        fn = be ? "fromJacobianBytesBE" : "fromJacobianBytesLE";
    } else {
        std::span<const uint8_t, 2 * T<G>::n> s(b.data(), 2 * T<G>::n);
        r = be ? G::fromAffineBytesBE(s, o) : G::fromAffineBytesLE(s, o);
        fn = be ? "fromAffineBytesBE" : "fromAffineBytesLE";
    }
    CHECK(r.has_value() == want, T<G>::name << " " << fn << (want ? " rejects " : " accepts ") << hx(b) << " (check_valid " << chk << ", to_mont " << tm << ", " << (range ? on ? "on the curve" : "off the curve" : "coefficient not below p") << ")");
    if (!r) return;
    CHECK(r->isZero() == inf, T<G>::name << " " << fn << " of " << hx(b) << ": infinity wrong");
    if (inf) return;
    CHECK(V(r->x) == X && V(r->y) == Y && V(r->z) == Z, T<G>::name << " " << fn << "(" << hx(b) << ", to_mont " << tm << ") = " << rawstr(*r));
}
PROP(g1_affine, 60000, 1500000) { uncompressed<B::g1>(g, c, false); }
PROP(g2_affine, 40000, 1000000) { uncompressed<B::g2>(g, c, false); }
PROP(g1_projective, 60000, 1500000) { uncompressed<B::g1>(g, c, true); }
PROP(g2_projective, 40000, 1000000) { uncompressed<B::g2>(g, c, true); }
