// Shared by the signature-scheme properties: messages with reference hashes, off-curve values, attack points.
#pragma once
#include "../common.hpp"
extern bool g_need_points;
static bool np_ = (g_need_points = true);
namespace sig {
using namespace ref;
inline const Bytes& dst() { static const std::string s = "BLS_SIG_BLS12381G2_XMD:SHA-256_SSWU_RO_NUL_"; static const Bytes b(s.begin(), s.end()); return b; }
inline const Bytes& popdst() { static const std::string s = "BLS_POP_BLS12381G2_XMD:SHA-256_SSWU_RO_POP_"; static const Bytes b(s.begin(), s.end()); return b; }
struct M { Bytes m; P2 h; };
inline P2 cachedHash(const Bytes& m, const Bytes& d) {
    static std::map<std::pair<Bytes, Bytes>, P2> memo;
    auto k = std::make_pair(m, d);
    auto it = memo.find(k);
    if (it != memo.end()) return it->second;
    if (memo.size() > 20000) memo.clear();
    return memo[k] = hash_g2(m, d);
}
inline P2 H(const Bytes& m) { return cachedHash(m, dst()); }
inline P2 HP(const Bytes& m) { return cachedHash(m, popdst()); }
// a few hundred recurring messages (hashes are memoised per worker), sometimes a fresh one
inline Bytes genM(Gen& g) {
    if (g.chance(1, 8)) return genMsg(g);
    uint64_t i = g.below(60);
    if (i < 4) return Bytes(i, uint8_t(i));
    if (i < 14) { Bytes b(31 + i, uint8_t(i)); return b; }
    Gen d = Gen::derived(i);
    return genBytes(d, 300);
}
inline Bytes mutate(Gen& g, Bytes m) { // a different message
    Bytes o = m;
    switch (g.below(6)) {
    case 0: m.push_back(uint8_t(g.pick(std::vector<int>{0, 1, 128, 255}))); break;
    case 1: if (!m.empty()) m.pop_back(); break;
    case 2: if (!m.empty()) m[g.below(m.size())] ^= uint8_t(1u << g.below(8)); break;
    case 3: m.insert(m.begin(), uint8_t(0)); break;
    case 4: if (m.size() > 1) std::swap(m[0], m[m.size() - 1]); break;
    default: m = genM(g);
    }
    if (m == o) m.push_back(7);
    return m;
}
// coordinates that are not a curve point; the label says how
inline B::g1 bad1(Gen& g, P1 p, const char** how) {
    if (p.inf) p = G1gen();
    for (int tries = 0;; tries++) {
        F x = p.x, y = p.y, z = F::one();
        switch (g.below(7)) {
        case 0: *how = "key with y changed"; y = y + (tries ? F::of(5 + tries) : genLambda(g)); break;
        case 1: *how = "key with x changed"; x = x + (tries ? F::of(5 + tries) : genLambda(g)); break;
        case 2: *how = "key with z changed"; z = genLambda(g) + F::of(tries); break;
        case 3: *how = "key (0,y)"; x = F::zero(); y = genF(g) + F::of(tries); break; // pairs to one with everything
        case 4: *how = "key (x,0)"; y = F::zero(); break;
        case 5: *how = "key with x and y swapped"; std::swap(x, y); break;
        default: *how = "random key"; x = genF(g); y = genF(g) + F::of(tries);
        }
        if (z.is_zero()) continue;
        F zz = z * z, b = F::of(4) * zz * zz * zz;
        if (y * y == x * x * x + b) continue;
        return B::g1({L(x), L(y), L(z)});
    }
}
inline B::g2 bad2(Gen& g, P2 p, const char** how) {
    if (p.inf) p = G2gen();
    for (int tries = 0;; tries++) {
        F2 x = p.x, y = p.y, z = F2::one();
        switch (g.below(8)) {
        case 0: *how = "signature with y changed"; y = y + (tries ? F2{F::of(5 + tries), F::zero()} : genLambda2(g)); break;
        case 1: *how = "signature with x changed"; x = x + (tries ? F2{F::of(5 + tries), F::zero()} : genLambda2(g)); break;
        case 2: *how = "signature with z changed"; z = genLambda2(g) + F2{F::of(tries), F::zero()}; break;
        case 3: *how = "signature (0,y)"; x = F2::zero(); y = genF2(g) + F2{F::of(tries), F::zero()}; break;
        case 4: *how = "signature (x,0)"; y = F2::zero(); break;
        case 5: *how = "signature conjugated"; x = x.conj(); y = y.conj(); break;
        case 6: *how = "signature with x and y swapped"; std::swap(x, y); break;
        default: *how = "random signature"; x = genF2(g); y = genF2(g) + F2{F::of(tries), F::zero()};
        }
        if (z.is_zero()) continue;
        F2 zz = z * z, b = Curve<F2>::b() * zz * zz * zz;
        if (y * y == x * x * x + b) continue;
        return B::g2({L(x), L(y), L(z)});
    }
}
// point after a trip through one of the encodings, or as it is
inline B::g1 travel(Gen& g, const B::g1& p, Ctx& c) {
    switch (g.below(6)) {
    case 0: return p;
    case 1: { auto b = p.toCompressedBytesBE(); auto r = B::g1::fromCompressedBytesBE(b); CHECK(r, "compressed key rejected: " << hx(toB(b))); c.label("key compressed"); return *r; }
    case 2: { auto b = p.toAffineBytesLE(B::from_mont::yes); auto r = B::g1::fromAffineBytesLE(b, {.check_valid = true, .to_mont = true}); CHECK(r, "affine key rejected: " << hx(toB(b))); c.label("key affine"); return *r; }
    case 3: { auto b = p.toAffineBytesBE(B::from_mont::yes); auto r = B::g1::fromAffineBytesBE(b, {.check_valid = true, .to_mont = true}); CHECK(r, "affine key rejected: " << hx(toB(b))); c.label("key affine"); return *r; }
    case 4: { auto b = p.toAffineBytesLE(B::from_mont::no); auto r = B::g1::fromAffineBytesLE(b, {.check_valid = g.flip(), .to_mont = false}); CHECK(r, "raw key rejected: " << hx(toB(b))); c.label("key raw"); return *r; }
    default: { auto b = p.toJacobianBytesBE(B::from_mont::yes); auto r = B::g1::fromJacobianBytesBE(b, {.check_valid = true, .to_mont = true}); CHECK(r, "projective key rejected: " << hx(toB(b))); c.label("key projective"); return *r; }
    }
}
inline B::g2 travel(Gen& g, const B::g2& p, Ctx& c) {
    switch (g.below(6)) {
    case 0: return p;
    case 1: { auto b = p.toCompressedBytesBE(); auto r = B::g2::fromCompressedBytesBE(b); CHECK(r, "compressed signature rejected: " << hx(toB(b))); c.label("signature compressed"); return *r; }
    case 2: { auto b = p.toAffineBytesLE(B::from_mont::yes); auto r = B::g2::fromAffineBytesLE(b, {.check_valid = true, .to_mont = true}); CHECK(r, "affine signature rejected: " << hx(toB(b))); c.label("signature affine"); return *r; }
    case 3: { auto b = p.toAffineBytesBE(B::from_mont::yes); auto r = B::g2::fromAffineBytesBE(b, {.check_valid = true, .to_mont = true}); CHECK(r, "affine signature rejected: " << hx(toB(b))); c.label("signature affine"); return *r; }
    case 4: { auto b = p.toJacobianBytesLE(B::from_mont::no); auto r = B::g2::fromJacobianBytesLE(b, {.check_valid = g.flip(), .to_mont = false}); CHECK(r, "raw signature rejected: " << hx(toB(b))); c.label("signature raw"); return *r; }
    default: { auto b = p.toJacobianBytesBE(B::from_mont::yes); auto r = B::g2::fromJacobianBytesBE(b, {.check_valid = true, .to_mont = true}); CHECK(r, "projective signature rejected: " << hx(toB(b))); c.label("signature projective"); return *r; }
    }
}
} // namespace sig
