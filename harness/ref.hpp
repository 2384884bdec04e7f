// Independent reference model for BLS12-381. Shares no code, formula layout or representation with /repo:
// plain (non-Montgomery) integers on GMP limbs, Fp12 as polynomials modulo w^12-2w^6+2, affine curve
// arithmetic, RFC 9380 / RFC 2104 / RFC 5869 / EIP-2333 written from their texts.
#pragma once
#include <gmp.h>
#include <gmpxx.h>
#include <array>
#include <cstdint>
#include <optional>
#include <string>
#include <vector>

namespace ref {

extern const mpz_class P;   // base field modulus
extern const mpz_class R;   // group order
extern const uint64_t X;    // |x|, the curve parameter is -X
extern const mp_limb_t PL[6];

mpz_class hexz(const char* s);
mpz_class limbs_z(const uint64_t* l, size_t n);
void z_limbs(const mpz_class& z, uint64_t* l, size_t n); // low n limbs

struct F {
    mp_limb_t v[6];
    static F zero() { return F{{0, 0, 0, 0, 0, 0}}; }
    static F one() { return F{{1, 0, 0, 0, 0, 0}}; }
    static F of(const mpz_class& z);   // reduces
    static F of(long z) { return of(mpz_class(z)); }
    mpz_class z() const;
    bool operator==(const F& o) const { return mpn_cmp(v, o.v, 6) == 0; }
    bool operator!=(const F& o) const { return !(*this == o); }
    bool is_zero() const { return mpn_zero_p(v, 6); }
    F operator+(const F& o) const;
    F operator-(const F& o) const;
    F operator-() const;
    F operator*(const F& o) const;
    F inv() const;                     // 0 -> 0
    F pow(const mpz_class& e) const;
    bool is_square() const;            // 0 counts as a square
    std::optional<F> sqrt() const;
    int sgn0() const { return v[0] & 1; }
    std::string str() const;
};
F mont_to(const F& a);   // a * 2^384 mod p
F mont_from(const F& a); // a * 2^-384 mod p

struct F2 {
    F a, b; // a + b u, u^2 = -1
    static F2 zero() { return {F::zero(), F::zero()}; }
    static F2 one() { return {F::one(), F::zero()}; }
    bool operator==(const F2& o) const { return a == o.a && b == o.b; }
    bool operator!=(const F2& o) const { return !(*this == o); }
    bool is_zero() const { return a.is_zero() && b.is_zero(); }
    F2 operator+(const F2& o) const { return {a + o.a, b + o.b}; }
    F2 operator-(const F2& o) const { return {a - o.a, b - o.b}; }
    F2 operator-() const { return {-a, -b}; }
    F2 operator*(const F2& o) const;
    F2 inv() const;
    F2 conj() const { return {a, -b}; }
    F2 pow(const mpz_class& e) const;
    bool is_square() const;
    std::optional<F2> sqrt() const;
    int sgn0() const { return (a.sgn0()) | (int(a.is_zero()) & b.sgn0()); }
    std::string str() const;
};

// Fp[w]/(w^12 - 2 w^6 + 2); w^6 = 1 + u
struct F12 {
    F c[12];
    static F12 zero();
    static F12 one();
    bool operator==(const F12& o) const;
    bool operator!=(const F12& o) const { return !(*this == o); }
    bool is_zero() const;
    F12 operator+(const F12& o) const;
    F12 operator-(const F12& o) const;
    F12 operator-() const;
    F12 operator*(const F12& o) const;
    F12 pow(const mpz_class& e) const;
    F12 inv() const;                 // 0 -> 0
    F12 frob(unsigned k) const;      // a^(p^k), from w^(p^k) computed by plain exponentiation
    std::string str() const;
};
// tower coordinates: element = sum_{k<2, j<3} t[k][j] w^(2j+k), t[k][j] in Fp2
F12 from_tower(const F2 t[2][3]);
void to_tower(const F12& x, F2 t[2][3]);

// ---- curves -------------------------------------------------------------------------------------
template<class K> struct Curve { static K b(); };
template<> struct Curve<F> { static F b() { return F::of(4); } };
template<> struct Curve<F2> { static F2 b() { return {F::of(4), F::of(4)}; } };
template<class K> struct Pt {
    bool inf = true;
    K x{}, y{};
    static Pt infinity() { Pt p; p.x = K::zero(); p.y = K::zero(); return p; }
    static Pt of(const K& x, const K& y) { Pt p; p.inf = false; p.x = x; p.y = y; return p; }
    bool operator==(const Pt& o) const { return inf ? o.inf : (!o.inf && x == o.x && y == o.y); }
    bool operator!=(const Pt& o) const { return !(*this == o); }
    bool on_curve() const { return inf || y * y == x * x * x + Curve<K>::b(); }
    Pt operator-() const { Pt p = *this; if (!inf) p.y = -y; return p; }
    Pt dbl() const {
        if (inf || y.is_zero()) return infinity();
        K xx = x * x;
        K l = (xx + xx + xx) * (y + y).inv();
        K x3 = l * l - x - x;
        return of(x3, l * (x - x3) - y);
    }
    Pt operator+(const Pt& o) const {
        if (inf) return o;
        if (o.inf) return *this;
        if (x == o.x) return y == o.y ? dbl() : infinity();
        K l = (o.y - y) * (o.x - x).inv();
        K x3 = l * l - x - o.x;
        return of(x3, l * (x - x3) - y);
    }
    Pt operator-(const Pt& o) const { return *this + (-o); }
    Pt mul(const mpz_class& e) const {
        if (e < 0) return (-*this).mul(-e);
        Pt r = infinity();
        for (long i = long(mpz_sizeinbase(e.get_mpz_t(), 2)) - 1; i >= 0; i--) {
            r = r.dbl();
            if (mpz_tstbit(e.get_mpz_t(), i)) r = r + *this;
        }
        return r;
    }
    bool in_subgroup() const { return mul(R).inf; }
    std::string str() const { return inf ? std::string("inf") : "(" + x.str() + "," + y.str() + ")"; }
};
typedef Pt<F> P1;
typedef Pt<F2> P2;
const P1& G1gen();
const P2& G2gen();
extern const mpz_class H1, H2;       // cofactors
extern const mpz_class H1EFF, H2EFF; // RFC 9380 effective cofactors
std::optional<P1> lift1(const F& x);   // some point with this x
std::optional<P2> lift2(const F2& x);
bool larger(const F& y);               // y > (p-1)/2
bool larger(const F2& y);              // by c1, then c0

// fast multiples of the generators (fixed-base tables, affine additions)
P1 g1mul(const mpz_class& k);
P2 g2mul(const mpz_class& k);

// ---- pairing ------------------------------------------------------------------------------------
F12 miller(const P1& p, const P2& q);  // f_{x,Q}(P) up to subfield factors, conjugated for negative x
F12 final_exp(const F12& f, unsigned mult); // f^(mult*(p^12-1)/r)
F12 pairing(const P1& p, const P2& q); // with the library's fixed multiple
extern const unsigned PAIRING_MULT;

// ---- hashing ------------------------------------------------------------------------------------
typedef std::vector<uint8_t> Bytes;
Bytes sha256(const Bytes& m);
Bytes sha256(const uint8_t* p, size_t n);
Bytes hmac(const Bytes& key, const Bytes& msg);
Bytes hkdf_extract(const Bytes& salt, const Bytes& ikm);
Bytes hkdf_expand(const Bytes& prk, const Bytes& info, size_t L);
Bytes expand_xmd(const Bytes& msg, const Bytes& dst, size_t len); // dst at most 255 bytes
Bytes expand_xmd_b0(const Bytes& b0, const Bytes& dst, size_t len);
Bytes expand_xmd_anydst(const Bytes& msg, const Bytes& dst, size_t len);
mpz_class os2ip(const uint8_t* p, size_t n);
Bytes i2osp(const mpz_class& z, size_t n);

// ---- maps ---------------------------------------------------------------------------------------
// simplified SWU onto the isogenous curve, then the isogeny to the target curve
std::pair<F, F> sswu1(const F& u);
std::pair<F2, F2> sswu2(const F2& u);
P1 iso1(const F& x, const F& y);
P2 iso2(const F2& x, const F2& y);
P1 map1(const F& u);  // with cofactor clearing
P2 map2(const F2& u);
P2 map2_noclear(const F2& u);
P2 hash_g2(const Bytes& msg, const Bytes& dst);
extern const F E1A, E1B;
extern const F2 E2A, E2B;

// ---- keys ---------------------------------------------------------------------------------------
mpz_class keygen(const Bytes& seed);        // zero for short seeds
mpz_class child_hardened(const mpz_class& sk, uint32_t index);
Bytes lamport_pk(const mpz_class& sk, uint32_t index);
Bytes compress1(const P1& p);
Bytes compress2(const P2& p);
Bytes fbe(const F& a); // 48 bytes

std::string zs(const mpz_class& z);
} // namespace ref
