#include "../common.hpp"
using namespace ref;
PROPERTY("P08")
extern bool g_need_points;
static bool np = (g_need_points = true);

template<class G> struct T;
template<> struct T<B::g1> {
    typedef P1 Pt; typedef K1 K;
    static P1 pt(Gen& g, int* k) { return genP1(g, k); }
    static K1 sub(Gen& g) { return genSub1(g); }
    static P1 mul(const mpz_class& k) { return g1mul(k); }
    static P1 tors(Gen& g) { return genTorsion1(g); }
    static constexpr const char* name = "g1";
};
template<> struct T<B::g2> {
    typedef P2 Pt; typedef K2 K;
    static P2 pt(Gen& g, int* k) { return genP2(g, k); }
    static K2 sub(Gen& g) { return genSub2(g); }
    static P2 mul(const mpz_class& k) { return g2mul(k); }
    static P2 tors(Gen& g) { return genTorsion2(g); }
    static constexpr const char* name = "g2";
};
template<size_t N> static std::array<uint64_t, N> arr(const mpz_class& z) {
    std::array<uint64_t, N> a;
    z_limbs(z, a.data(), N);
    return a;
}
template<class G, size_t N> static void scaleN(const G& a, const typename T<G>::Pt& p, const mpz_class& k, const typename T<G>::Pt& want) {
    auto s = arr<N>(k);
    const G a0 = a;
    auto got = V(a.template scale<N>(s), "scale");
    CHECK(got == want, T<G>::name << " scale<" << N << ">(" << zs(k) << ") of " << p.str() << " as " << rawstr(a) << " = " << got.str() << ", expected " << want.str());
    CHECK(same(a, a0) && s == arr<N>(k), "scale modified an operand");
}
template<class G> static void scale(Gen& g, Ctx& c, bool known) {
    typedef typename T<G>::Pt Pt;
    unsigned words;
    static const unsigned ws[] = {4, 1, 2, 3, 6, 8};
    words = ws[g.weighted({8, 2, 2, 1, 1, 1})];
    mpz_class k;
    switch (g.weighted({3, 4, 2})) {
    case 0: k = words == 4 ? genScalar(g) : genBits(g, words); break;
    case 1: k = genBits(g, words); break;
    default: // multiples of the order and their neighbours
        k = R * genBits(g, words > 4 ? words - 4 : 1) + long(g.below(5)) - 2;
        if (k < 0) k = 0;
        if (k >= mpz_class(1) << (64 * words)) k = genBits(g, words);
    }
    Pt p, want;
    int kind = 0;
    if (known) {
        auto s = T<G>::sub(g);
        p = s.p;
        want = T<G>::mul(mpz_class(s.k * k) % R);
    } else {
        p = T<G>::pt(g, &kind);
        want = p.mul(k);
    }
    G a = rep(g, p);
    c.nontrivial(!p.inf && k > 1);
    c.label(std::string("kind: ") + kindName(kind));
    c.label(k >= R ? "scalar at or above r" : k < 256 ? "small scalar" : "scalar below r");
    c.label("words: " + std::to_string(words));
    c.note([&] { return p.str() + " * " + zs(k); });
    switch (words) {
    case 1: scaleN<G, 1>(a, p, k, want); break;
    case 2: scaleN<G, 2>(a, p, k, want); break;
    case 3: scaleN<G, 3>(a, p, k, want); break;
    case 4: scaleN<G, 4>(a, p, k, want); break;
    case 6: scaleN<G, 6>(a, p, k, want); break;
    default: scaleN<G, 8>(a, p, k, want);
    }
}
struct Stop { unsigned at; };
// list length around the window-size changes (32, 256, 2048) and the callback period (256)
static size_t genN(Gen& g, int big) {
    if (big == 2) {
        static const size_t e[] = {16383, 16384, 16385, 4096, 8192, 17000};
        return e[g.below(std::size(e))];
    }
    if (big) {
        static const size_t e[] = {255, 256, 257, 511, 512, 513, 600, 1000, 2047, 2048, 2049};
        size_t n = e[g.below(std::size(e))];
        return n;
    }
    switch (g.weighted({2, 3, 3, 1})) {
    case 0: return g.below(4);
    case 1: return g.below(24);
    case 2: return 28 + g.below(9);
    default: return g.below(120);
    }
}
template<class G> static void wsum(Gen& g, Ctx& c, int big) {
    typedef typename T<G>::Pt Pt;
    size_t np = genN(g, big), ns = np;
    if (g.chance(1, 4)) { if (g.flip()) ns = g.below(np + 1); else ns = np + 1 + g.below(5); }
    size_t n = std::min(np, ns);
    // a few distinct points outside the subgroup, the rest with known logarithm
    unsigned nb = unsigned(g.below(3));
    std::vector<Pt> base;
    std::vector<mpz_class> acc(nb);
    for (unsigned i = 0; i < nb; i++) base.push_back(g.flip() ? T<G>::tors(g) : T<G>::pt(g, nullptr));
    mpz_class log = 0;
    std::vector<G> pts;
    std::vector<Sc4> sc;
    unsigned dense = unsigned(g.below(4)); // structure of the scalars
    mpz_class common = genScalar(g);
    typename T<G>::K last{};
    bool have = false;
    G lastrep{};
    uint64_t seed = big ? g.raw() : 0; // long lists: derive the elements from one choice
    Gen sub = Gen::derived(seed);
    Gen& h = big ? sub : g;
    for (size_t i = 0; i < std::max(np, ns); i++) {
        mpz_class k;
        switch (dense) {
        case 0: k = genScalar(h); break;
        case 1: k = common; break; // everything into the same buckets
        case 2: k = mpz_class(long(h.below(9))) << unsigned(h.below(252)); break; // few windows
        default: k = h.chance(1, 3) ? common : genScalar(h);
        }
        if (i < ns) sc.push_back(S4(k));
        if (i >= np) continue;
        if (nb && h.chance(1, 3)) {
            unsigned b = unsigned(h.below(nb));
            bool neg = h.flip();
            pts.push_back(rep(h, neg ? -base[b] : base[b]));
            if (i < n) acc[b] += neg ? mpz_class(-k) : k;
            have = false;
        } else {
            typename T<G>::K s;
            G r;
            if (have && h.chance(1, 3)) { // repeat or negate the previous point
                s = last;
                r = lastrep;
                if (h.flip()) { s.k = (R - s.k) % R; s.p = -s.p; r = rep(h, s.p); }
            } else {
                s = T<G>::sub(h);
                r = rep(h, s.p);
            }
            pts.push_back(r);
            if (i < n) log += s.k * k;
            last = s;
            lastrep = r;
            have = true;
        }
    }
    Pt want = T<G>::mul(mpz_class(log % R));
    for (unsigned b = 0; b < nb; b++) want = want + base[b].mul(acc[b]);
    c.nontrivial(n > 0 && !want.inf);
    c.label("length " + std::string(n == 0 ? "0" : n < 32 ? "1..31" : n < 256 ? "32..255" : n < 2048 ? "256..2047" : n < 16384 ? "2048..16383" : "16384.."));
    if (np != ns) c.label("unequal lengths");
    if (want.inf) c.label("sum is infinity");
    c.note([&] { return std::string(T<G>::name) + " weighted sum of " + std::to_string(np) + " points and " + std::to_string(ns) + " scalars, result " + want.str(); });
    auto desc = [&] {
        std::string s = std::string(T<G>::name) + " weightedSum of " + std::to_string(np) + " points, " + std::to_string(ns) + " scalars:";
        for (size_t i = 0; i < std::min<size_t>(n, 12); i++) s += " " + zs(Z4(sc[i])) + "*" + V(pts[i]).str();
        return s;
    };
    std::vector<G> pts0 = pts;
    auto sc0 = sc;
    std::span<const G> ps(pts);
    std::span<const Sc4> ss(sc);
    unsigned mode = unsigned(g.below(3));
    unsigned calls = 0;
    if (mode == 0) {
        Pt got = V(G::weightedSum(ps, ss), "weightedSum");
        CHECK(got == want, desc() << " = " << got.str() << ", expected " << want.str());
    } else {
        Pt got = V(G::weightedSum(ps, ss, [&] { calls++; }), "weightedSum");
        CHECK(got == want, desc() << " with a callback = " << got.str() << ", expected " << want.str());
        if (n >= 512) CHECK(calls > 0, desc() << ": the callback was never invoked");
        c.label(calls ? "callback invoked" : "callback not invoked");
        if (mode == 2 && calls) {
            unsigned at = unsigned(1 + g.below(calls)), seen = 0;
            bool caught = false;
            try {
                G::weightedSum(ps, ss, [&] { if (++seen == at) throw Stop{at}; });
            } catch (const Stop& s) {
                caught = s.at == at;
            }
            CHECK(caught, desc() << ": the exception thrown by callback invocation " << at << " of " << calls << " did not reach the caller");
            CHECK(seen == at, desc() << ": the callback was invoked again after it threw");
            // and the next call is unaffected
            got = V(G::weightedSum(ps, ss), "weightedSum");
            CHECK(got == want, desc() << " after an aborted call = " << got.str() << ", expected " << want.str());
            c.label("callback threw");
        }
    }
    for (size_t i = 0; i < np; i++) CHECK(same(pts[i], pts0[i]), "weightedSum modified a point");
    CHECK(sc == sc0, "weightedSum modified a scalar");
}
PROP(g1_scale_subgroup, 8000, 200000) { scale<B::g1>(g, c, true); }
PROP(g2_scale_subgroup, 4000, 100000) { scale<B::g2>(g, c, true); }
PROP(g1_scale_any, 3000, 80000) { scale<B::g1>(g, c, false); }
PROP(g2_scale_any, 1500, 40000) { scale<B::g2>(g, c, false); }
PROP(g1_weighted_sum, 1500, 40000) { wsum<B::g1>(g, c, 0); }
PROP(g2_weighted_sum, 800, 20000) { wsum<B::g2>(g, c, 0); }
PROP(g1_weighted_sum_long, 40, 1500) { wsum<B::g1>(g, c, 1); }
PROP(g2_weighted_sum_long, 24, 800) { wsum<B::g2>(g, c, 1); }
PROP(g1_weighted_sum_huge, 4, 60) { wsum<B::g1>(g, c, 2); }
PROP(g2_weighted_sum_huge, 2, 24) { wsum<B::g2>(g, c, 2); }
