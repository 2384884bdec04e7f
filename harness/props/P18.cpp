#include "sig.hpp"
using namespace ref;
using namespace sig;
PROPERTY("P18")

static mpz_class genSk(Gen& g) {
    if (g.chance(1, 4)) {
        static const std::vector<mpz_class> e{1, 2, R - 1, R - 2, R / 2, R / 2 + 1, mpz_class(ref::X), mpz_class(ref::X) * mpz_class(ref::X), R - mpz_class(ref::X)};
        return g.pick(e);
    }
    return genKey(g);
}
#define AT " for key " << zs(k) << " and message " << hx(m)
PROP(sign_value, 1200, 20000) {
    mpz_class k = genSk(g);
    Bytes m = g.chance(1, 2) ? genMsg(g) : genM(g), m0 = m;
    c.nontrivial(k > 1 && !m.empty());
    c.label(m.empty() ? "empty message" : m.size() < 56 ? "short message" : "message over one hash block");
    c.note([&] { return "key " + zs(k) + " message " + hx(m); });
    Sc4 sk = S4(k);
    B::g2 s = B::sign(sk, m);
    P2 w = H(m).mul(k);
    CHECK(V(s) == w, "sign = " << V(s).str() << ", expected " << w.str() << AT);
    CHECK(s.isOnCurve() && s.inCorrectSubgroup() && !s.isZero(), "signature is not a finite subgroup point" << AT);
    B::g2 s2 = B::sign(sk, m);
    CHECK(same(s, s2), "two calls of sign give different coordinates" << AT);
    CHECK(sk == S4(k) && m == m0, "arguments changed");
}
PROP(honest_verifies, 2500, 40000) {
    mpz_class k = genSk(g);
    Bytes m = genM(g);
    c.nontrivial(k > 1);
    c.note([&] { return "key " + zs(k) + " message " + hx(m); });
    B::g2 s = B::sign(S4(k), m);
    B::g1 pk = B::public_key(S4(k));
    CHECK(B::verify(pk, m, s), "honest signature rejected" << AT);
    // through encodings and in other representations
    B::g1 q = travel(g, rep(g, g1mul(k)), c), q0 = q;
    B::g2 t = travel(g, rep(g, V(s)), c), t0 = t;
    CHECK(B::verify(q, m, t), "honest signature rejected as key " << rawstr(q) << " signature " << rawstr(t) << AT);
    CHECK(same(q, q0) && same(t, t0), "verify changed its arguments" << AT);
    CHECK(V(t) == V(s) && V(q) == V(pk), "encoding changed the value" << AT);
    std::vector<B::g1> pks{q};
    std::vector<std::vector<uint8_t>> ms{m};
    CHECK(B::aggregate_verify(pks, ms, t, g.flip()), "honest signature rejected by aggregate verification of one" << AT);
}
PROP(long_messages, 60, 1500) {
    mpz_class k = genSk(g);
    // uniform, or next to a power of two (also ten times one) up to four megabytes
    size_t n = g.chance(2, 3) ? g.range(1000, 300000) : (size_t(g.chance(1, 3) ? 10 : 1) << g.range(8, c.thorough ? 24 : 20)) + g.range(0, 4) - 2;
    Bytes m(n);
    Gen d = Gen::derived(g.raw());
    d.bytes(m.data(), n);
    c.nontrivial();
    c.note([&] { return "key " + zs(k) + " message of " + std::to_string(n) + " bytes"; });
    B::g2 s = B::sign(S4(k), m);
    CHECK(V(s) == hash_g2(m, dst()).mul(k), "signature differs for a message of " << n << " bytes, key " << zs(k));
    CHECK(B::verify(B::public_key(S4(k)), m, s), "honest signature rejected for a message of " << n << " bytes, key " << zs(k));
    m[g.below(n)] ^= 1;
    CHECK(!B::verify(B::public_key(S4(k)), m, s), "signature accepted for a changed message of " << n << " bytes, key " << zs(k));
}
PROP(end_to_end, 400, 8000) { // seed to verified signature over bytes
    Bytes seed(g.range(32, 80));
    g.bytes(seed.data(), seed.size());
    Bytes m = genM(g);
    mpz_class k = keygen(seed);
    c.nontrivial();
    c.note([&] { return "seed " + hx(seed) + " message " + hx(m); });
    Sc4 sk = B::sk_from_bytes(B::sk_to_bytes(B::secret_key(seed)));
    auto pkb = B::public_key(sk).toCompressedBytesBE();
    auto sb = B::sign(sk, m).toCompressedBytesBE();
    CHECK(toB(pkb) == compress1(g1mul(k)), "public key bytes differ for seed " << hx(seed));
    CHECK(toB(sb) == compress2(H(m).mul(k)), "signature bytes differ for seed " << hx(seed) << " message " << hx(m));
    auto pk = B::g1::fromCompressedBytesBE(pkb);
    auto s = B::g2::fromCompressedBytesBE(sb);
    CHECK(pk && s && B::verify(*pk, m, *s), "honest signature rejected after encoding" << AT);
}
