#include "../common.hpp"
using namespace ref;
PROPERTY("P15")
extern bool g_need_points;
static bool np = (g_need_points = true);

static uint32_t genIndex(Gen& g) {
    switch (g.weighted({2, 3, 3})) {
    case 0: return uint32_t(g.below(4));
    case 1: return uint32_t(g.raw());
    default: { static const std::vector<uint32_t> v{255, 256, 257, 65535, 65536, 0xffffff, 0x1000000, 0x7fffffff, 0x80000000u, 0x80000001u, 0xfffffffeu, 0xffffffffu, 0x01020304}; return g.pick(v); }
    }
}
static mpz_class nonce(const Bytes& pk, uint32_t i) {
    Bytes b = pk, ib = i2osp(mpz_class((unsigned long)i), 4);
    b.insert(b.end(), ib.begin(), ib.end());
    Bytes h = sha256(b);
    return os2ip(h.data(), 32) % R;
}
PROP(public_key_is_multiple, 3000, 60000) {
    mpz_class k = g.chance(1, 20) ? mpz_class(0) : genKey(g);
    if (g.chance(1, 4)) { // just around the edges of the range and of the limbs
        static const std::vector<mpz_class> e{1, 2, 3, R - 1, R - 2, R / 2, R / 2 + 1, mpz_class(ref::X), mpz_class(ref::X) * mpz_class(ref::X), mpz_class(ref::X) * mpz_class(ref::X) - 1};
        k = g.pick(e);
    }
    c.nontrivial(k > 1);
    c.note([&] { return "key " + zs(k); });
    B::g1 p = B::public_key(S4(k));
    P1 w = g1mul(k);
    CHECK(V(p) == w, "public_key(" << zs(k) << ") = " << V(p).str() << ", expected " << w.str());
    if (k != 0) CHECK(p.isAffine() && same(p, LA(w)), "public_key(" << zs(k) << ") is not normalised: " << rawstr(p));
}
PROP(commutes, 1500, 30000) {
    mpz_class k = g.chance(1, 24) ? mpz_class(0) : genKey(g);
    unsigned n = unsigned(g.weighted({3, 2, 1}) == 0 ? 1 : g.range(1, 8));
    Sc4 sk = S4(k);
    P1 pk = g1mul(k);
    c.nontrivial(k > 1);
    std::string path = "key " + zs(k) + " path";
    for (unsigned j = 0; j < n; j++) {
        uint32_t i = genIndex(g);
        path += "/" + std::to_string(i);
        B::g1 a = rep(g, pk), a0 = a;
        mpz_class s = nonce(compress1(pk), i);
        mpz_class kw = (k + s) % R;
        P1 pw = pk + g1mul(s);
        Sc4 ns = B::derive_child_sk_unhardened(sk, i);
        CHECK(Z4(ns) == kw, "derive_child_sk_unhardened at " << path << " = " << zs(Z4(ns)) << ", expected " << zs(kw));
        B::g1 np = B::derive_child_g1_unhardened(a, i);
        CHECK(V(np) == pw, "derive_child_g1_unhardened at " << path << " of " << rawstr(a) << " = " << V(np).str() << ", expected " << pw.str());
        CHECK(same(a, a0), "derive_child_g1_unhardened changed its argument");
        B::g1 q = B::public_key(ns);
        CHECK(q.equal(np) && V(q) == pw, "public key of the child secret at " << path << " differs from the child public key");
        sk = ns;
        k = kw;
        pk = pw;
    }
    c.note([&] { return path; });
    c.label(n == 1 ? "one step" : "chain");
}
PROP(child_of_point, 2500, 40000) {
    uint32_t i = genIndex(g);
    if (g.flip()) {
        K1 p = genSub1(g);
        B::g1 a = rep(g, p.p), a0 = a;
        mpz_class s = nonce(compress1(p.p), i);
        P1 w = p.p + g1mul(s);
        c.nontrivial(!p.p.inf);
        c.note([&] { return "G1 " + p.p.str() + " index " + std::to_string(i); });
        B::g1 r = B::derive_child_g1_unhardened(a, i);
        CHECK(V(r) == w, "derive_child_g1_unhardened(" << rawstr(a) << ", " << i << ") = " << V(r).str() << ", expected " << w.str());
        CHECK(same(a, a0), "argument changed");
    } else {
        K2 p = genSub2(g);
        B::g2 a = rep(g, p.p), a0 = a;
        mpz_class s = nonce(compress2(p.p), i);
        P2 w = p.p + g2mul(s);
        c.nontrivial(!p.p.inf);
        c.note([&] { return "G2 " + p.p.str() + " index " + std::to_string(i); });
        B::g2 r = B::derive_child_g2_unhardened(a, i);
        CHECK(V(r) == w, "derive_child_g2_unhardened(" << rawstr(a) << ", " << i << ") = " << V(r).str() << ", expected " << w.str());
        CHECK(same(a, a0), "argument changed");
    }
}
