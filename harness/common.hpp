// Bridges between /repo's public types and the reference model, and structured generators.
#pragma once
#include <bls12-381/bls12-381.hpp>
#include "engine.hpp"
#include "ref.hpp"

namespace B = bls12_381;
using pbt::Gen;
using pbt::Ctx;
using ref::F;
using ref::F2;
using ref::F12;
using ref::P1;
using ref::P2;
using ref::Bytes;
typedef std::array<uint64_t, 4> Sc4;

// ---- conversions --------------------------------------------------------------------------------
B::fp L(const F& a);
B::fp2 L(const F2& a);
B::fp6 L6(const F12& a);  // even powers of w only
B::fp12 L(const F12& a);
B::fp raw(const F& a);    // the integer itself as limbs, no Montgomery conversion
// value of a library element; a coefficient that is not fully reduced is a violation
F V(const B::fp& a, const char* what = "result");
F2 V(const B::fp2& a, const char* what = "result");
F12 V(const B::fp6& a, const char* what = "result");
F12 V(const B::fp12& a, const char* what = "result");
F12 emb(const F2& a);     // Fp2 into Fp12
P1 V(const B::g1& a, const char* what = "result");
P2 V(const B::g2& a, const char* what = "result");
B::g1 LA(const P1& p);    // affine representation, infinity as zero()
B::g2 LA(const P2& p);
Sc4 S4(const mpz_class& z);
mpz_class Z4(const Sc4& s);
std::string rawstr(const B::fp& a);
std::string rawstr(const B::fp2& a);
std::string rawstr(const B::g1& a);
std::string rawstr(const B::g2& a);
bool same(const B::fp& a, const B::fp& b); // bitwise
bool same(const B::fp2& a, const B::fp2& b);
bool same(const B::g1& a, const B::g1& b);
bool same(const B::g2& a, const B::g2& b);

// ---- generators ---------------------------------------------------------------------------------
uint64_t genWord(Gen& g);                    // edge-biased 64-bit word
mpz_class genBits(Gen& g, unsigned words);   // edge-biased integer of at most `words` words
F genF(Gen& g);
F2 genF2(Gen& g);
F12 genF12(Gen& g);
F12 genF6(Gen& g);                           // even powers of w
mpz_class genScalar(Gen& g);                 // 0 .. 2^256-1, biased to edges and multiples of r
mpz_class genKey(Gen& g);                    // 1 .. r-1
Bytes genBytes(Gen& g, size_t maxlen);       // lengths biased to hash-block edges
Bytes genMsg(Gen& g);
enum PKind { PK_SMALL, PK_SUB, PK_INF, PK_TORSION, PK_MIXED, PK_ANY };
P1 genP1(Gen& g, int* kind = nullptr);       // any curve point
P2 genP2(Gen& g, int* kind = nullptr);
struct K1 { mpz_class k; P1 p; };
struct K2 { mpz_class k; P2 p; };
K1 genSub1(Gen& g, bool allow_inf = true);   // subgroup point with its discrete logarithm
K2 genSub2(Gen& g, bool allow_inf = true);
P1 genTorsion1(Gen& g);                      // order divides the cofactor, not infinity
P2 genTorsion2(Gen& g);
F genLambda(Gen& g);                         // non-zero
F2 genLambda2(Gen& g);
B::g1 rep(Gen& g, const P1& p, bool* affine = nullptr); // arbitrary projective representation
B::g2 rep(Gen& g, const P2& p, bool* affine = nullptr);
const char* kindName(int k);

inline std::string hx(const Bytes& b) { return pbt::hex(b.data(), b.size()); }
template<size_t N> Bytes toB(const std::array<uint8_t, N>& a) { return Bytes(a.begin(), a.end()); }
template<size_t N> std::array<uint8_t, N> toA(const Bytes& b) {
    std::array<uint8_t, N> a;
    for (size_t i = 0; i < N; i++) a[i] = b[i];
    return a;
}
