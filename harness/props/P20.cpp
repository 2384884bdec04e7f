#include "sig.hpp"
using namespace ref;
using namespace sig;
PROPERTY("P20")

static size_t genN(Gen& g) { return g.weighted({5, 2, 1}) == 0 ? g.below(6) : g.range(6, 40); }
static size_t longN(Gen& g) {
    static const std::vector<size_t> e{63, 64, 65, 127, 128, 129, 255, 256, 257, 500, 511, 512, 513, 1000, 1023, 1024, 1025, 2000, 2048, 2049};
    return g.flip() ? g.range(41, 400) : g.pick(e);
}
static mpz_class genDomain(Gen& g) { // 0 .. r-1
    switch (g.below(3)) {
    case 0: return genKey(g);
    case 1: return R - 1 - long(g.below(4));
    default: return genScalar(g) % R;
    }
}
static std::string lst(const std::vector<mpz_class>& v) {
    std::string s = "[";
    for (size_t i = 0; i < v.size() && i < 8; i++) s += (i ? "," : "") + zs(v[i]);
    return s + (v.size() > 8 ? ",...]" : "]");
}
PROP(secret_keys, 60000, 1000000) {
    size_t n = genN(g);
    if (g.chance(1, 40)) n = g.chance(1, 6) ? longN(g) : g.range(41, 300);
    std::vector<mpz_class> ks;
    std::vector<Sc4> v;
    mpz_class s = 0;
    for (size_t i = 0; i < n; i++) {
        mpz_class k = genDomain(g);
        if (i && g.chance(1, 6)) k = (R - s) % R; // the running sum becomes zero
        if (i && g.chance(1, 8)) k = ks[g.below(i)];
        ks.push_back(k);
        v.push_back(S4(k));
        s = (s + k) % R;
    }
    auto v0 = v;
    c.nontrivial(n >= 2);
    c.note([&] { return std::to_string(n) + " keys " + lst(ks); });
    Sc4 r = B::aggregate_secret_keys(v);
    CHECK(Z4(r) == s, "aggregate_secret_keys" << lst(ks) << " = " << zs(Z4(r)) << ", expected " << zs(s));
    CHECK(v == v0, "list changed");
    for (size_t i = n; i > 1; i--) std::swap(v[i - 1], v[g.below(i)]);
    CHECK(B::aggregate_secret_keys(v) == r, "aggregate_secret_keys depends on the order of " << lst(ks));
    size_t k = g.below(n + 1);
    std::vector<Sc4> parts{B::aggregate_secret_keys(std::span(v).subspan(0, k)), B::aggregate_secret_keys(std::span(v).subspan(k))};
    CHECK(B::aggregate_secret_keys(parts) == r, "aggregate_secret_keys depends on the grouping of " << lst(ks));
}
template<class G> struct A;
template<> struct A<B::g1> {
    typedef P1 Pt;
    static K1 sub(Gen& g) { return genSub1(g); }
    static P1 mul(const mpz_class& k) { return g1mul(k); }
    static B::g1 agg(std::span<const B::g1> s) { return B::aggregate_public_keys(s); }
    template<class... X> static auto aggf(X&&... x) { return B::aggregate_public_keys(std::forward<X>(x)...); }
    static constexpr const char* n = "aggregate_public_keys";
};
template<> struct A<B::g2> {
    typedef P2 Pt;
    static K2 sub(Gen& g) { return genSub2(g); }
    static P2 mul(const mpz_class& k) { return g2mul(k); }
    static B::g2 agg(std::span<const B::g2> s) { return B::aggregate_signatures(s); }
    template<class... X> static auto aggf(X&&... x) { return B::aggregate_signatures(std::forward<X>(x)...); }
    static constexpr const char* n = "aggregate_signatures";
};
template<class G> struct Rec { int tag; G pt; uint64_t pad; };
template<class G> static void points(Gen& g, Ctx& c, size_t n) {
    typedef typename A<G>::Pt Pt;
    std::vector<mpz_class> ks;
    std::vector<Pt> pts;
    std::vector<G> v;
    mpz_class s = 0;
    for (size_t i = 0; i < n; i++) {
        mpz_class k;
        Pt p;
        switch (i ? g.weighted({6, 1, 1, 1, 1}) : 0) {
        case 0: { auto t = A<G>::sub(g); k = t.k; p = t.p; break; }
        case 1: { size_t j = g.below(i); k = ks[j]; p = pts[j]; break; }         // repeat
        case 2: { size_t j = g.below(i); k = (R - ks[j]) % R; p = -pts[j]; break; } // opposite
        case 3: k = s; p = A<G>::mul(s); break;                                   // equals the running sum
        default: k = (R - s) % R; p = A<G>::mul(k);                               // cancels the running sum
        }
        ks.push_back(k);
        pts.push_back(p);
        v.push_back(rep(g, p));
        s = (s + k) % R;
    }
    auto v0 = v;
    Pt w = A<G>::mul(s);
    c.nontrivial(n >= 2);
    c.label(n == 0 ? "empty list" : s == 0 ? "sum is infinity" : "sum is finite");
    c.note([&] { return std::string(A<G>::n) + " of " + std::to_string(n) + " with logarithms " + lst(ks); });
    G r = A<G>::agg(v);
    CHECK(V(r) == w, A<G>::n << lst(ks) << " = " << V(r).str() << ", expected " << w.str());
    for (size_t i = 0; i < n; i++) CHECK(same(v[i], v0[i]), A<G>::n << " changed its input " << i);
    // order and grouping
    std::vector<G> sh = v;
    for (size_t i = n; i > 1; i--) std::swap(sh[i - 1], sh[g.below(i)]);
    CHECK(A<G>::agg(sh).equal(r) && V(A<G>::agg(sh)) == w, A<G>::n << " depends on the order of " << lst(ks));
    size_t cut = g.below(n + 1);
    std::vector<G> parts{A<G>::agg(std::span<const G>(v).subspan(0, cut)), A<G>::agg(std::span<const G>(v).subspan(cut))};
    if (g.flip()) std::swap(parts[0], parts[1]);
    CHECK(V(A<G>::agg(parts)) == w, A<G>::n << " of partial aggregates differs for " << lst(ks) << " cut at " << cut);
    // accessor and selector forms
    std::vector<Rec<G>> recs;
    for (size_t i = 0; i < n; i++) recs.push_back({int(i), v[i], i});
    uint64_t mask = g.raw();
    mpz_class sel = 0;
    for (size_t i = 0; i < n; i++) if ((mask >> (i % 64)) & 1) sel = (sel + ks[i]) % R;
    bool bad = false;
    auto acc = [&](const Rec<G>& e) -> G { if (&e != &recs[e.tag]) bad = true; return e.pt; };
    auto pred = [&](const Rec<G>& e, size_t i) { if (i >= n || &e != &recs[i]) bad = true; return bool((mask >> (i % 64)) & 1); };
    G ra = A<G>::aggf(std::span<Rec<G>>(recs), acc);
    CHECK(V(ra) == w, A<G>::n << " with accessor = " << V(ra).str() << ", expected " << w.str() << " for " << lst(ks));
    G rs = A<G>::aggf(std::span<Rec<G>>(recs), acc, pred);
    CHECK(V(rs) == A<G>::mul(sel), A<G>::n << " with selector mask " << mask << " = " << V(rs).str() << ", expected " << A<G>::mul(sel).str() << " for " << lst(ks));
    CHECK(!bad, A<G>::n << ": the accessor or selector received something other than an element of the list with its index");
    const auto& cr = recs;
    G rc = A<G>::aggf(std::span<const Rec<G>>(cr), acc, [&](const Rec<G>& e, size_t i) { if (size_t(e.tag) != i) bad = true; return e.tag % 2 == 0; });
    mpz_class ev = 0;
    for (size_t i = 0; i < n; i += 2) ev = (ev + ks[i]) % R;
    CHECK(V(rc) == A<G>::mul(ev) && !bad, A<G>::n << " with a selector on the element differs for " << lst(ks));
    G none = A<G>::aggf(std::span<Rec<G>>(recs), acc, [](const Rec<G>&, size_t) { return false; });
    CHECK(none.isZero() && V(none).inf, A<G>::n << " with nothing selected is not infinity");
}
PROP(public_keys, 3500, 60000) { points<B::g1>(g, c, genN(g)); }
PROP(signatures, 2000, 40000) { points<B::g2>(g, c, genN(g)); }
PROP(public_keys_long, 64, 1500) { size_t n = longN(g); Gen d = Gen::derived(g.raw()); points<B::g1>(d, c, n); }
PROP(signatures_long, 40, 900) { size_t n = longN(g); Gen d = Gen::derived(g.raw()); points<B::g2>(d, c, n); }
PROP(homomorphism, 250, 5000) {
    size_t n = g.range(1, 5);
    Bytes m = genM(g);
    std::vector<Sc4> sks;
    std::vector<B::g1> pks;
    std::vector<B::g2> sigs;
    std::vector<mpz_class> ks;
    for (size_t i = 0; i < n; i++) {
        mpz_class k = genKey(g);
        ks.push_back(k);
        sks.push_back(S4(k));
        pks.push_back(B::public_key(S4(k)));
        sigs.push_back(B::sign(S4(k), m));
    }
    c.nontrivial(n >= 2);
    c.note([&] { return std::to_string(n) + " keys " + lst(ks) + " message " + hx(m); });
    Sc4 a = B::aggregate_secret_keys(sks);
    CHECK(B::public_key(a).equal(B::aggregate_public_keys(pks)), "public key of the aggregate secret is not the aggregate of the public keys for " << lst(ks));
    CHECK(B::sign(a, m).equal(B::aggregate_signatures(sigs)), "signature of the aggregate secret is not the aggregate of the signatures for " << lst(ks) << " message " << hx(m));
    if (Z4(a) != 0) CHECK(B::verify(B::aggregate_public_keys(pks), m, B::aggregate_signatures(sigs)), "aggregate signature does not verify under the aggregate key for " << lst(ks));
}
