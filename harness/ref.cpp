#include "ref.hpp"
#include "ref_consts.hpp"
#include <cstring>
#include <map>

namespace ref {

mpz_class hexz(const char* s) { return mpz_class(s, 16); }
const mpz_class P = hexz("1a0111ea397fe69a4b1ba7b6434bacd764774b84f38512bf6730d2a0f6b0f6241eabfffeb153ffffb9feffffffffaaab");
const mpz_class R = hexz("73eda753299d7d483339d80809a1d80553bda402fffe5bfeffffffff00000001");
const uint64_t X = 0xd201000000010000ull;
const mp_limb_t PL[6] = {0xb9feffffffffaaabull, 0x1eabfffeb153ffffull, 0x6730d2a0f6b0f624ull,
                         0x64774b84f38512bfull, 0x4b1ba7b6434bacd7ull, 0x1a0111ea397fe69aull};
const mpz_class H1 = hexz(H1_HEX), H2 = hexz(H2_HEX), H2EFF = hexz(H2EFF_HEX);
const mpz_class H1EFF = hexz("d201000000010001");

mpz_class limbs_z(const uint64_t* l, size_t n) {
    mpz_class z;
    mpz_import(z.get_mpz_t(), n, -1, 8, 0, 0, l);
    return z;
}
void z_limbs(const mpz_class& z, uint64_t* l, size_t n) {
    for (size_t i = 0; i < n; i++) l[i] = mpz_getlimbn(z.get_mpz_t(), i);
}
std::string zs(const mpz_class& z) { return "0x" + z.get_str(16); }

// ---- Fp -----------------------------------------------------------------------------------------
F F::of(const mpz_class& z) {
    mpz_class t;
    mpz_mod(t.get_mpz_t(), z.get_mpz_t(), P.get_mpz_t());
    F r;
    z_limbs(t, (uint64_t*)r.v, 6);
    return r;
}
mpz_class F::z() const { return limbs_z((const uint64_t*)v, 6); }
std::string F::str() const { return zs(z()); }
F F::operator+(const F& o) const {
    F r;
    mpn_add_n(r.v, v, o.v, 6); // < 2^382
    if (mpn_cmp(r.v, PL, 6) >= 0) mpn_sub_n(r.v, r.v, PL, 6);
    return r;
}
F F::operator-(const F& o) const {
    F r;
    if (mpn_sub_n(r.v, v, o.v, 6)) mpn_add_n(r.v, r.v, PL, 6);
    return r;
}
F F::operator-() const { return F::zero() - *this; }
static F reduce(const mp_limb_t* t, size_t n) {
    mp_limb_t q[16];
    F r;
    mpn_tdiv_qr(q, r.v, 0, t, n, PL, 6);
    return r;
}
F F::operator*(const F& o) const {
    mp_limb_t t[12];
    mpn_mul_n(t, v, o.v, 6);
    return reduce(t, 12);
}
F F::inv() const {
    if (is_zero()) return zero();
    mpz_class r, a = z();
    mpz_invert(r.get_mpz_t(), a.get_mpz_t(), P.get_mpz_t());
    return F::of(r);
}
F F::pow(const mpz_class& e) const {
    mpz_class r, a = z();
    mpz_powm(r.get_mpz_t(), a.get_mpz_t(), e.get_mpz_t(), P.get_mpz_t());
    return F::of(r);
}
bool F::is_square() const {
    if (is_zero()) return true;
    mpz_class a = z();
    return mpz_jacobi(a.get_mpz_t(), P.get_mpz_t()) == 1;
}
std::optional<F> F::sqrt() const {
    if (!is_square()) return {};
    return pow((P + 1) / 4);
}
F mont_to(const F& a) {
    mp_limb_t t[12] = {0};
    memcpy(t + 6, a.v, 48);
    return reduce(t, 12);
}
static F rinv() {
    mpz_class r, a = mpz_class(1) << 384;
    mpz_invert(r.get_mpz_t(), a.get_mpz_t(), P.get_mpz_t());
    return F::of(r);
}
F mont_from(const F& a) {
    static const F ri = rinv();
    return a * ri;
}

// ---- Fp2 ----------------------------------------------------------------------------------------
F2 F2::operator*(const F2& o) const { return {a * o.a - b * o.b, a * o.b + b * o.a}; }
F2 F2::inv() const {
    F n = (a * a + b * b).inv();
    return {a * n, -(b * n)};
}
F2 F2::pow(const mpz_class& e) const {
    F2 r = one();
    for (long i = long(mpz_sizeinbase(e.get_mpz_t(), 2)) - 1; i >= 0; i--) {
        r = r * r;
        if (mpz_tstbit(e.get_mpz_t(), i)) r = r * *this;
    }
    return r;
}
bool F2::is_square() const { return (a * a + b * b).is_square(); } // norm is a square
std::optional<F2> F2::sqrt() const {
    if (is_zero()) return *this;
    auto n = (a * a + b * b).sqrt();
    if (!n) return {};
    if (b.is_zero()) {
        if (auto s = a.sqrt()) return F2{*s, F::zero()};
        return F2{F::zero(), *(-a).sqrt()};
    }
    static const F half = F::of(2).inv();
    F t = (a + *n) * half;
    auto x = t.sqrt();
    if (!x) {
        t = (a - *n) * half;
        x = t.sqrt();
        if (!x) return {};
    }
    F2 r{*x, b * (*x + *x).inv()};
    if (r * r != *this) return {};
    return r;
}
std::string F2::str() const { return "[" + a.str() + "," + b.str() + "]"; }

// ---- Fp12 ---------------------------------------------------------------------------------------
F12 F12::zero() {
    F12 r;
    for (auto& x : r.c) x = F::zero();
    return r;
}
F12 F12::one() {
    F12 r = zero();
    r.c[0] = F::one();
    return r;
}
bool F12::operator==(const F12& o) const {
    for (int i = 0; i < 12; i++) if (c[i] != o.c[i]) return false;
    return true;
}
bool F12::is_zero() const { return *this == zero(); }
F12 F12::operator+(const F12& o) const {
    F12 r;
    for (int i = 0; i < 12; i++) r.c[i] = c[i] + o.c[i];
    return r;
}
F12 F12::operator-(const F12& o) const {
    F12 r;
    for (int i = 0; i < 12; i++) r.c[i] = c[i] - o.c[i];
    return r;
}
F12 F12::operator-() const { return zero() - *this; }
F12 F12::operator*(const F12& o) const {
    // plain polynomial product, coefficients accumulated as wide integers, then w^12 = 2 w^6 - 2
    mp_limb_t acc[23][14];
    memset(acc, 0, sizeof acc);
    for (int i = 0; i < 12; i++) {
        if (c[i].is_zero()) continue;
        for (int j = 0; j < 12; j++) {
            mp_limb_t t[12];
            mpn_mul_n(t, c[i].v, o.c[j].v, 6);
            mpn_add(acc[i + j], acc[i + j], 14, t, 12);
        }
    }
    F d[23];
    for (int i = 0; i < 23; i++) d[i] = reduce(acc[i], 14);
    for (int i = 22; i >= 12; i--) {
        F two = d[i] + d[i];
        d[i - 6] = d[i - 6] + two;
        d[i - 12] = d[i - 12] - two;
    }
    F12 r;
    for (int i = 0; i < 12; i++) r.c[i] = d[i];
    return r;
}
F12 F12::pow(const mpz_class& e) const {
    F12 r = one();
    if (e == 0) return r;
    // fixed 4-bit windows
    F12 tab[16];
    tab[0] = r;
    for (int i = 1; i < 16; i++) tab[i] = tab[i - 1] * *this;
    long n = (long(mpz_sizeinbase(e.get_mpz_t(), 2)) + 3) / 4;
    for (long i = n - 1; i >= 0; i--) {
        if (i != n - 1) for (int k = 0; k < 4; k++) r = r * r;
        unsigned d = 0;
        for (int k = 3; k >= 0; k--) d = d * 2 + mpz_tstbit(e.get_mpz_t(), 4 * i + k);
        if (d) r = r * tab[d];
    }
    return r;
}
F12 F12::frob(unsigned k) const {
    static const std::vector<std::vector<F12>> tab = [] {
        std::vector<std::vector<F12>> t(12, std::vector<F12>(12));
        F12 w = zero();
        w.c[1] = F::one();
        F12 wp = w; // w^(p^k)
        for (int k = 0; k < 12; k++) {
            F12 a = one();
            for (int i = 0; i < 12; i++) {
                t[k][i] = a;
                a = a * wp;
            }
            wp = wp.pow(P);
        }
        return t;
    }();
    k %= 12;
    F12 r = zero();
    for (int i = 0; i < 12; i++) {
        if (c[i].is_zero()) continue;
        for (int j = 0; j < 12; j++) r.c[j] = r.c[j] + c[i] * tab[k][i].c[j];
    }
    return r;
}
F12 F12::inv() const {
    // N = a * prod_{k=1..11} a^(p^k) lies in Fp
    if (is_zero()) return zero();
    F12 m = one();
    for (int k = 1; k < 12; k++) m = m * frob(k);
    F12 n = *this * m;
    F ni = n.c[0].inv();
    for (auto& x : m.c) x = x * ni;
    return m;
}
std::string F12::str() const {
    std::string s = "{";
    for (int i = 0; i < 12; i++) s += (i ? "," : "") + c[i].str();
    return s + "}";
}
F12 from_tower(const F2 t[2][3]) {
    F12 r = F12::zero();
    for (int k = 0; k < 2; k++)
        for (int j = 0; j < 3; j++) {
            int e = 2 * j + k; // < 6; u = w^6 - 1
            r.c[e] = r.c[e] + (t[k][j].a - t[k][j].b);
            r.c[e + 6] = r.c[e + 6] + t[k][j].b;
        }
    return r;
}
void to_tower(const F12& x, F2 t[2][3]) {
    for (int k = 0; k < 2; k++)
        for (int j = 0; j < 3; j++) {
            int e = 2 * j + k;
            t[k][j].b = x.c[e + 6];
            t[k][j].a = x.c[e] + x.c[e + 6];
        }
}

// ---- curves -------------------------------------------------------------------------------------
const P1& G1gen() {
    static const P1 g = P1::of(
        F::of(hexz("17f1d3a73197d7942695638c4fa9ac0fc3688c4f9774b905a14e3a3f171bac586c55e83ff97a1aeffb3af00adb22c6bb")),
        F::of(hexz("08b3f481e3aaa0f1a09e30ed741d8ae4fcf5e095d5d00af600db18cb2c04b3edd03cc744a2888ae40caa232946c5e7e1")));
    return g;
}
const P2& G2gen() {
    static const P2 g = P2::of(
        F2{F::of(hexz("024aa2b2f08f0a91260805272dc51051c6e47ad4fa403b02b4510b647ae3d1770bac0326a805bbefd48056c8c121bdb8")),
           F::of(hexz("13e02b6052719f607dacd3a088274f65596bd0d09920b61ab5da61bbdc7f5049334cf11213945d57e5ac7d055d042b7e"))},
        F2{F::of(hexz("0ce5d527727d6e118cc9cdc6da2e351aadfd9baa8cbdd3a76d429a695160d12c923ac9cc3baca289e193548608b82801")),
           F::of(hexz("0606c4a02ea734cc32acd2b02bc28b99cb3e287e85a763af267492ab572e99ab3f370d275cec1da1aaa9075ff05f79be"))});
    return g;
}
std::optional<P1> lift1(const F& x) {
    auto y = (x * x * x + Curve<F>::b()).sqrt();
    if (!y) return {};
    return P1::of(x, *y);
}
std::optional<P2> lift2(const F2& x) {
    auto y = (x * x * x + Curve<F2>::b()).sqrt();
    if (!y) return {};
    return P2::of(x, *y);
}
bool larger(const F& y) { return y.z() > (P - 1) / 2; }
bool larger(const F2& y) { return y.b.is_zero() ? larger(y.a) : larger(y.b); }

template<class PT> static PT fixedmul(const PT& g, const mpz_class& k0) {
    static const std::vector<std::array<PT, 15>> tab = [&] {
        std::vector<std::array<PT, 15>> t(64);
        PT b = g;
        for (auto& row : t) {
            row[0] = b;
            for (int i = 1; i < 15; i++) row[i] = row[i - 1] + b;
            b = row[14] + b;
        }
        return t;
    }();
    mpz_class k;
    mpz_mod(k.get_mpz_t(), k0.get_mpz_t(), R.get_mpz_t());
    PT r = PT::infinity();
    for (int i = 0; i < 64; i++) {
        unsigned d = 0;
        for (int b = 3; b >= 0; b--) d = d * 2 + mpz_tstbit(k.get_mpz_t(), 4 * i + b);
        if (d) r = r + tab[i][d - 1];
    }
    return r;
}
P1 g1mul(const mpz_class& k) { return fixedmul<P1>(G1gen(), k); }
P2 g2mul(const mpz_class& k) { return fixedmul<P2>(G2gen(), k); }

// ---- pairing ------------------------------------------------------------------------------------
static F12 emb2(const F2& x, int sh) { // x * w^sh, 0 <= sh < 12 reduced through multiplication
    F12 r = F12::zero();
    r.c[0] = x.a - x.b;
    r.c[6] = x.b;
    if (sh == 0) return r;
    F12 w = F12::zero();
    w.c[sh] = F::one();
    return r * w;
}
F12 miller(const P1& p, const P2& q) {
    if (p.inf || q.inf) return F12::one();
    // untwist (x, y) -> (x / w^2, y / w^3); line through T with slope l/w on the untwisted curve:
    // y_P - l x_P w^-1 + (l x_T - y_T) w^-3. Multiplied by w^3 (killed by the final exponentiation:
    // w^6 lies in Fp2, and w^3 has order dividing 2(p^2-1), which divides (p^12-1)/r).
    F12 f = F12::one();
    P2 t = q;
    auto line = [&](const P2& T, const F2& l) {
        F12 r = emb2(F2{p.y, F::zero()}, 3) - emb2(l * F2{p.x, F::zero()}, 2) + emb2(l * T.x - T.y, 0);
        return r;
    };
    for (int i = 62; i >= 0; i--) {
        F2 xx = t.x * t.x;
        F2 l = (xx + xx + xx) * (t.y + t.y).inv();
        f = f * f * line(t, l);
        t = t.dbl();
        if ((X >> i) & 1) {
            if (t.x == q.x) { // only for points of tiny order, outside the domain
                f = f * F12::one();
            } else {
                F2 m = (q.y - t.y) * (q.x - t.x).inv();
                f = f * line(t, m);
            }
            t = t + q;
        }
    }
    return f.frob(6); // negative parameter: f_{-n} ~ conj f_n
}
F12 final_exp(const F12& f, unsigned mult) {
    F12 a = f.frob(6) * f.inv();  // f^(p^6-1)
    a = a.frob(2) * a;            // ^(p^2+1)
    mpz_class p2 = P * P;
    mpz_class e = (p2 * p2 - p2 + 1) / R * mult;
    return a.pow(e);
}
const unsigned PAIRING_MULT = 3;
F12 pairing(const P1& p, const P2& q) { return final_exp(miller(p, q), PAIRING_MULT); }

// ---- SHA-256 and friends ------------------------------------------------------------------------
static uint32_t rotr(uint32_t x, int n) { return (x >> n) | (x << (32 - n)); }
struct ShaK {
    uint32_t k[64], h[8];
    ShaK() {
        // fractional parts of cube/square roots of the first primes, by integer root extraction
        int n = 0;
        for (int c = 2; n < 64; c++) {
            bool prime = true;
            for (int d = 2; d * d <= c; d++) if (c % d == 0) prime = false;
            if (!prime) continue;
            mpz_class z = mpz_class(c) << 96, r;
            mpz_root(r.get_mpz_t(), z.get_mpz_t(), 3);
            k[n] = uint32_t(mpz_class(r & 0xffffffffu).get_ui());
            if (n < 8) {
                z = mpz_class(c) << 64;
                mpz_sqrt(r.get_mpz_t(), z.get_mpz_t());
                h[n] = uint32_t(mpz_class(r & 0xffffffffu).get_ui());
            }
            n++;
        }
    }
};
Bytes sha256(const uint8_t* p, size_t n) {
    static const ShaK K;
    uint32_t h[8];
    memcpy(h, K.h, sizeof h);
    size_t full = n / 64;
    uint8_t tail[128] = {0};
    size_t rem = n % 64;
    if (rem) memcpy(tail, p + 64 * full, rem);
    tail[rem] = 0x80;
    size_t tl = rem + 9 <= 64 ? 64 : 128;
    uint64_t bits = uint64_t(n) * 8;
    for (int i = 0; i < 8; i++) tail[tl - 1 - i] = uint8_t(bits >> (8 * i));
    auto block = [&](const uint8_t* b) {
        uint32_t w[64];
        for (int i = 0; i < 16; i++) w[i] = uint32_t(b[4 * i]) << 24 | b[4 * i + 1] << 16 | b[4 * i + 2] << 8 | b[4 * i + 3];
        for (int i = 16; i < 64; i++) {
            uint32_t s0 = rotr(w[i - 15], 7) ^ rotr(w[i - 15], 18) ^ (w[i - 15] >> 3);
            uint32_t s1 = rotr(w[i - 2], 17) ^ rotr(w[i - 2], 19) ^ (w[i - 2] >> 10);
            w[i] = w[i - 16] + s0 + w[i - 7] + s1;
        }
        uint32_t a = h[0], b_ = h[1], c = h[2], d = h[3], e = h[4], f = h[5], g = h[6], hh = h[7];
        for (int i = 0; i < 64; i++) {
            uint32_t t1 = hh + (rotr(e, 6) ^ rotr(e, 11) ^ rotr(e, 25)) + ((e & f) ^ (~e & g)) + K.k[i] + w[i];
            uint32_t t2 = (rotr(a, 2) ^ rotr(a, 13) ^ rotr(a, 22)) + ((a & b_) ^ (a & c) ^ (b_ & c));
            hh = g; g = f; f = e; e = d + t1; d = c; c = b_; b_ = a; a = t1 + t2;
        }
        h[0] += a; h[1] += b_; h[2] += c; h[3] += d; h[4] += e; h[5] += f; h[6] += g; h[7] += hh;
    };
    for (size_t i = 0; i < full; i++) block(p + 64 * i);
    for (size_t i = 0; i < tl; i += 64) block(tail + i);
    Bytes out(32);
    for (int i = 0; i < 32; i++) out[i] = uint8_t(h[i / 4] >> (24 - 8 * (i % 4)));
    return out;
}
Bytes sha256(const Bytes& m) { return sha256(m.data(), m.size()); }
static Bytes cat(std::initializer_list<Bytes> l) {
    Bytes r;
    for (auto& b : l) r.insert(r.end(), b.begin(), b.end());
    return r;
}
static Bytes str(const char* s) { return Bytes(s, s + strlen(s)); }
Bytes hmac(const Bytes& key, const Bytes& msg) {
    Bytes k = key.size() > 64 ? sha256(key) : key;
    k.resize(64, 0);
    Bytes ik(64), ok(64);
    for (int i = 0; i < 64; i++) { ik[i] = k[i] ^ 0x36; ok[i] = k[i] ^ 0x5c; }
    return sha256(cat({ok, sha256(cat({ik, msg}))}));
}
Bytes hkdf_extract(const Bytes& salt, const Bytes& ikm) { return hmac(salt, ikm); }
Bytes hkdf_expand(const Bytes& prk, const Bytes& info, size_t L) {
    Bytes okm, t;
    for (unsigned i = 1; okm.size() < L; i++) {
        t = hmac(prk, cat({t, info, Bytes{uint8_t(i)}}));
        okm.insert(okm.end(), t.begin(), t.end());
    }
    okm.resize(L);
    return okm;
}
Bytes expand_xmd(const Bytes& msg, const Bytes& dst, size_t len) {
    Bytes dp = dst;
    dp.push_back(uint8_t(dst.size()));
    return expand_xmd_b0(sha256(cat({Bytes(64, 0), msg, Bytes{uint8_t(len >> 8), uint8_t(len)}, Bytes{0}, dp})), dst, len);
}
Bytes expand_xmd_b0(const Bytes& b0, const Bytes& dst, size_t len) {
    Bytes dp = dst;
    dp.push_back(uint8_t(dst.size()));
    Bytes out, b(32, 0);
    for (unsigned i = 1; out.size() < len; i++) {
        Bytes x(32);
        for (int k = 0; k < 32; k++) x[k] = b0[k] ^ b[k];
        b = sha256(cat({x, Bytes{uint8_t(i)}, dp}));
        out.insert(out.end(), b.begin(), b.end());
    }
    out.resize(len);
    return out;
}
Bytes expand_xmd_anydst(const Bytes& msg, const Bytes& dst, size_t len) {
    if (dst.size() > 255) return expand_xmd(msg, sha256(cat({str("H2C-OVERSIZE-DST-"), dst})), len);
    return expand_xmd(msg, dst, len);
}
mpz_class os2ip(const uint8_t* p, size_t n) {
    mpz_class z;
    mpz_import(z.get_mpz_t(), n, 1, 1, 1, 0, p);
    return z;
}
Bytes i2osp(const mpz_class& z, size_t n) {
    Bytes b(n, 0);
    mpz_class t = z;
    for (size_t i = 0; i < n; i++) {
        b[n - 1 - i] = uint8_t(mpz_class(t & 0xff).get_ui());
        t >>= 8;
    }
    return b;
}

// ---- maps ---------------------------------------------------------------------------------------
const F E1A = F::of(hexz("144698a3b8e9433d693a02c96d4982b0ea985383ee66a8d8e8981aefd881ac98936f8da0e0f97f5cf428082d584c1d"));
const F E1B = F::of(hexz("12e2908d11688030018b12e8753eee3b2016c1f0f24f4070a0b9c14fcef35ef55a23215a316ceaa5d1cc48e98e172be0"));
const F2 E2A = {F::zero(), F::of(240)};
const F2 E2B = {F::of(1012), F::of(1012)};
template<class K> static std::pair<K, K> sswu(const K& u, const K& A, const K& B, const K& Z) {
    K zu2 = Z * u * u;
    K t = zu2 * zu2 + zu2;
    K x1;
    if (t.is_zero()) x1 = B * (Z * A).inv();
    else x1 = (-B) * A.inv() * (K::one() + t.inv());
    auto g = [&](const K& x) { return x * x * x + A * x + B; };
    K gx1 = g(x1), x, y;
    if (gx1.is_square()) {
        x = x1;
        y = *gx1.sqrt();
    } else {
        x = zu2 * x1;
        y = *g(x).sqrt();
    }
    if (y.sgn0() != u.sgn0()) y = -y;
    return {x, y};
}
std::pair<F, F> sswu1(const F& u) { return sswu<F>(u, E1A, E1B, F::of(11)); }
std::pair<F2, F2> sswu2(const F2& u) { return sswu<F2>(u, E2A, E2B, F2{-F::of(2), -F::one()}); }
template<class K> static K horner(const std::vector<K>& c, const K& x) {
    K r = K::zero();
    for (size_t i = c.size(); i-- > 0;) r = r * x + c[i];
    return r;
}
P1 iso1(const F& x, const F& y) {
    auto ld = [](const char* const* s, size_t n) {
        std::vector<F> v;
        for (size_t i = 0; i < n; i++) v.push_back(F::of(hexz(s[i])));
        return v;
    };
    static const auto xn = ld(ISO1_XN, std::size(ISO1_XN)), xd = ld(ISO1_XD, std::size(ISO1_XD)), yn = ld(ISO1_YN, std::size(ISO1_YN)),
                      yd = ld(ISO1_YD, std::size(ISO1_YD));
    F dx = horner(xd, x), dy = horner(yd, x);
    if (dx.is_zero() || dy.is_zero()) return P1::infinity();
    return P1::of(horner(xn, x) * dx.inv(), y * horner(yn, x) * dy.inv());
}
P2 iso2(const F2& x, const F2& y) {
    auto ld = [](const char* const (*s)[2], size_t n) {
        std::vector<F2> v;
        for (size_t i = 0; i < n; i++) v.push_back(F2{F::of(hexz(s[i][0])), F::of(hexz(s[i][1]))});
        return v;
    };
    static const auto xn = ld(ISO2_XN, std::size(ISO2_XN)), xd = ld(ISO2_XD, std::size(ISO2_XD)), yn = ld(ISO2_YN, std::size(ISO2_YN)),
                      yd = ld(ISO2_YD, std::size(ISO2_YD));
    F2 dx = horner(xd, x), dy = horner(yd, x);
    if (dx.is_zero() || dy.is_zero()) return P2::infinity();
    return P2::of(horner(xn, x) * dx.inv(), y * horner(yn, x) * dy.inv());
}
P1 map1(const F& u) {
    auto [x, y] = sswu1(u);
    return iso1(x, y).mul(H1EFF);
}
P2 map2_noclear(const F2& u) {
    auto [x, y] = sswu2(u);
    return iso2(x, y);
}
P2 map2(const F2& u) { return map2_noclear(u).mul(H2EFF); }
P2 hash_g2(const Bytes& msg, const Bytes& dst) {
    Bytes b = expand_xmd_anydst(msg, dst, 256);
    F e[4];
    for (int i = 0; i < 4; i++) e[i] = F::of(os2ip(b.data() + 64 * i, 64));
    return (map2_noclear(F2{e[0], e[1]}) + map2_noclear(F2{e[2], e[3]})).mul(H2EFF);
}

// ---- keys ---------------------------------------------------------------------------------------
mpz_class keygen(const Bytes& seed) {
    if (seed.size() < 32) return 0;
    Bytes salt = str("BLS-SIG-KEYGEN-SALT-");
    mpz_class sk;
    do {
        Bytes prk = hkdf_extract(salt, cat({seed, Bytes{0}}));
        Bytes okm = hkdf_expand(prk, Bytes{0, 48}, 48);
        sk = os2ip(okm.data(), 48) % R;
        salt = sha256(salt);
    } while (sk == 0);
    return sk;
}
Bytes lamport_pk(const mpz_class& sk, uint32_t index) {
    Bytes salt = i2osp(mpz_class((unsigned long)index), 4), ikm = i2osp(sk, 32), nikm = ikm, pk;
    for (auto& b : nikm) b = uint8_t(~b);
    for (auto& k : {ikm, nikm}) {
        Bytes l = hkdf_expand(hkdf_extract(salt, k), {}, 255 * 32);
        for (int i = 0; i < 255; i++) {
            Bytes h = sha256(l.data() + 32 * i, 32);
            pk.insert(pk.end(), h.begin(), h.end());
        }
    }
    return sha256(pk);
}
mpz_class child_hardened(const mpz_class& sk, uint32_t index) { return keygen(lamport_pk(sk, index)); }
Bytes fbe(const F& a) { return i2osp(a.z(), 48); }
Bytes compress1(const P1& p) {
    if (p.inf) { Bytes b(48, 0); b[0] = 0xC0; return b; }
    Bytes b = fbe(p.x);
    b[0] |= 0x80 | (larger(p.y) ? 0x20 : 0);
    return b;
}
Bytes compress2(const P2& p) {
    if (p.inf) { Bytes b(96, 0); b[0] = 0xC0; return b; }
    Bytes b = fbe(p.x.b), lo = fbe(p.x.a);
    b.insert(b.end(), lo.begin(), lo.end());
    b[0] |= 0x80 | (larger(p.y) ? 0x20 : 0);
    return b;
}
} // namespace ref
