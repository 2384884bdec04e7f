#include "../common.hpp"
#include "../malloc_count.hpp"
using namespace ref;
PROPERTY("P14")

static uint32_t genIndex(Gen& g) {
    switch (g.weighted({2, 3, 3})) {
    case 0: return uint32_t(g.below(4));
    case 1: return uint32_t(g.raw());
    default: { static const std::vector<uint32_t> v{255, 256, 257, 65535, 65536, 0xffffff, 0x1000000, 0x7fffffff, 0x80000000u, 0x80000001u, 0xfffffffeu, 0xffffffffu, 0x01020304, 12381, 3600}; return g.pick(v); }
    }
}
static Bytes genSeed(Gen& g) {
    switch (g.weighted({4, 4, 3, 1})) {
    case 0: { size_t n = g.range(28, 36); Bytes b(n); g.bytes(b.data(), n); return b; }
    case 1: { size_t n = g.range(0, 300); Bytes b(n); Gen d = Gen::derived(g.raw()); d.bytes(b.data(), n); return b; }
    case 2: { static const std::vector<size_t> v{0, 1, 30, 31, 32, 33, 47, 48, 54, 55, 56, 62, 63, 64, 65, 118, 119, 120, 127, 128, 255, 256, 257}; return Bytes(g.pick(v), uint8_t(g.raw())); }
    default: { size_t n = g.range(1000, 70000); Bytes b(n); Gen d = Gen::derived(g.raw()); d.bytes(b.data(), n); return b; }
    }
}
PROP(keygen_from_seed, 20000, 300000) {
    Bytes s = genSeed(g), s0 = s;
    c.nontrivial(s.size() >= 32);
    c.label(s.size() < 32 ? "short seed" : s.size() == 32 ? "32 bytes" : "longer");
    c.note([&] { return "seed of " + std::to_string(s.size()) + " bytes " + hx(s); });
    Sc4 k = B::secret_key(s);
    mpz_class w = keygen(s);
    CHECK(Z4(k) == w, "secret_key(" << hx(s) << ") = " << zs(Z4(k)) << ", expected " << zs(w));
    CHECK(s == s0, "seed changed");
    if (s.size() >= 32) CHECK(Z4(k) > 0 && Z4(k) < R, "secret_key out of range");
    long l = mc::leaked([&] { B::secret_key(s); });
    CHECK(l == 0, "secret_key leaks " << l << " heap blocks per call");
}
PROP(hardened_child, 700, 12000) {
    mpz_class k = g.chance(1, 8) ? genScalar(g) : genKey(g);
    uint32_t i = genIndex(g);
    c.nontrivial(k != 0);
    c.label(i >= 0x80000000u ? "index at or above 2^31" : i >= 65536 ? "index of three or four bytes" : "small index");
    c.note([&] { return "parent " + zs(k) + " index " + std::to_string(i); });
    Bytes pk(32 + 64, 0x77);
    B::parent_sk_to_lamport_pk(pk.data() + 32, S4(k), i);
    Bytes w = lamport_pk(k, i);
    CHECK(std::equal(w.begin(), w.end(), pk.begin() + 32), "parent_sk_to_lamport_pk(" << zs(k) << ", " << i << ") = " << pbt::hex(pk.data() + 32, 32) << ", expected " << hx(w));
    for (int j = 0; j < 32; j++) CHECK(pk[j] == 0x77 && pk[64 + j] == 0x77, "parent_sk_to_lamport_pk wrote outside its output");
    Sc4 ch = B::derive_child_sk(S4(k), i);
    mpz_class cw = keygen(w);
    CHECK(Z4(ch) == cw, "derive_child_sk(" << zs(k) << ", " << i << ") = " << zs(Z4(ch)) << ", expected " << zs(cw));
    long l = mc::leaked([&] { B::derive_child_sk(S4(k), i); });
    CHECK(l == 0, "derive_child_sk leaks " << l << " heap blocks per call");
}
PROP(hardened_chain, 150, 3000) {
    Bytes s = genSeed(g);
    s.resize(std::max<size_t>(s.size(), 32), 1);
    mpz_class k = keygen(s);
    Sc4 a = B::secret_key(s);
    unsigned n = unsigned(g.range(1, 5));
    std::string path = "m";
    c.nontrivial();
    for (unsigned j = 0; j < n; j++) {
        uint32_t i = genIndex(g);
        path += "/" + std::to_string(i);
        k = child_hardened(k, i);
        a = B::derive_child_sk(a, i);
        CHECK(Z4(a) == k, "key at " << path << " of seed " << hx(s) << " is " << zs(Z4(a)) << ", expected " << zs(k));
    }
    c.note([&] { return path; });
}
PROP(lamport_sk, 1500, 20000) {
    Bytes ikm = genBytes(g, 200), salt = genBytes(g, 100);
    c.nontrivial(!ikm.empty());
    c.note([&] { return "ikm " + hx(ikm) + " salt " + hx(salt); });
    std::vector<uint8_t> o(8160 + 128, 0x33);
    static const uint8_t z = 0;
    B::ikm_to_lamport_sk(o.data() + 64, ikm.empty() ? &z : ikm.data(), ikm.size(), salt.empty() ? &z : salt.data(), salt.size());
    Bytes w = hkdf_expand(hkdf_extract(salt, ikm), {}, 8160);
    CHECK(std::equal(w.begin(), w.end(), o.begin() + 64), "ikm_to_lamport_sk(" << hx(ikm) << ", " << hx(salt) << ") differs");
    for (int j = 0; j < 64; j++) CHECK(o[j] == 0x33 && o[64 + 8160 + j] == 0x33, "ikm_to_lamport_sk wrote outside its output");
}
PROP(key_bytes, 60000, 1000000) {
    mpz_class z;
    switch (g.weighted({4, 4, 2})) {
    case 0: z = genScalar(g); break;
    case 1: z = R * long(g.below(3)) + long(g.range(0, 6)) - 3; break;
    default: { // r with single limbs or bytes perturbed
        z = R;
        unsigned b = unsigned(g.below(256));
        if (g.flip()) z += mpz_class(1) << b; else z -= mpz_class(1) << b;
    }
    }
    if (z < 0) z += mpz_class(1) << 256;
    z %= mpz_class(1) << 256;
    Bytes b = i2osp(z, 32);
    c.nontrivial(z > 1);
    c.label(z < R ? "below r" : z == R ? "r itself" : "above r");
    c.note([&] { return "key bytes " + hx(b); });
    Sc4 k = B::sk_from_bytes(toA<32>(b)), m = B::sk_from_bytes(toA<32>(b), true), n = B::sk_from_bytes(toA<32>(b), false);
    mpz_class w = z < R ? z : mpz_class(0), wm = z % R;
    CHECK(Z4(k) == w && Z4(n) == w, "sk_from_bytes(" << hx(b) << ") = " << zs(Z4(k)) << ", expected " << zs(w));
    CHECK(Z4(m) == wm, "sk_from_bytes(" << hx(b) << ", reduce) = " << zs(Z4(m)) << ", expected " << zs(wm));
    CHECK(toB(B::sk_to_bytes(S4(z))) == b, "sk_to_bytes(" << zs(z) << ") = " << hx(toB(B::sk_to_bytes(S4(z)))));
    if (z < R) CHECK(B::sk_from_bytes(B::sk_to_bytes(S4(z))) == S4(z), "key export and import differ for " << zs(z));
}
