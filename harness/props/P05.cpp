#include "../common.hpp"
using namespace ref;
using namespace bls12_381;
PROPERTY("P05")

template<size_t N> static std::array<uint64_t, N> arr(const mpz_class& z) {
    std::array<uint64_t, N> a;
    z_limbs(z, a.data(), N);
    return a;
}
template<size_t N> static mpz_class val(const std::array<uint64_t, N>& a) { return limbs_z(a.data(), N); }
static mpz_class pow2(unsigned k) { return mpz_class(1) << k; }
// second operand, often arranged so that carries run through
static mpz_class related(Gen& g, const mpz_class& x, unsigned words) {
    mpz_class m = pow2(64 * words), r;
    switch (g.weighted({6, 2, 2, 1, 1, 1})) {
    case 0: return genBits(g, words);
    case 1: r = pow2(64 * unsigned(1 + g.below(words))) - x - long(g.below(3)) + 1; break; // x + r just around a word boundary
    case 2: r = x; break;
    case 3: r = x + 1; break;
    case 4: r = x - 1; break;
    default: r = x; mpz_combit(r.get_mpz_t(), g.below(64 * words));
    }
    mpz_class q;
    mpz_mod(q.get_mpz_t(), r.get_mpz_t(), m.get_mpz_t());
    return q;
}

// ---- add -----------------------------------------------------------------------------------------
// The templates only move words; the comparison is shared by all instantiations.
typedef std::vector<uint64_t> W;
typedef void (*Op)(W& c, W& a, W& b, bool& threw);
static W words(const mpz_class& z, unsigned n) { W w(n); z_limbs(z, w.data(), n); return w; }
static mpz_class val(const W& w) { return limbs_z(w.data(), w.size()); }
template<size_t NC, size_t NA, size_t NB> static void addT(W& c, W& a, W& b, bool& threw) {
    std::array<uint64_t, NA> x;
    std::array<uint64_t, NB> y;
    std::copy_n(a.begin(), NA, x.begin());
    std::copy_n(b.begin(), NB, y.begin());
    try {
        auto r = scalar::add<NC, NA, NB>(x, y);
        std::copy_n(r.begin(), NC, c.begin());
    } catch (const std::invalid_argument&) {
        threw = true;
    }
    std::copy_n(x.begin(), NA, a.begin());
    std::copy_n(y.begin(), NB, b.begin());
}
static void addCheck(Gen& g, Ctx& c, Op f, unsigned NC, unsigned NA, unsigned NB) {
    mpz_class x = genBits(g, NA), y = related(g, x, NB), w = x + y;
    W a = words(x, NA), b = words(y, NB), r(NC);
    c.nontrivial(x > 0 && y > 0);
    bool fits = w < pow2(64 * NC);
    bool wide = std::max(NA, NB) > NC; // the operand type itself is wider than the destination
    c.label(!fits ? "sum does not fit" : wide ? "operand type wider than destination" : w >= pow2(64 * std::max(NA, NB)) ? "carry into the extra word" : "fits");
    auto desc = [&] { return "add<" + std::to_string(NC) + "," + std::to_string(NA) + "," + std::to_string(NB) + ">(" + zs(x) + ", " + zs(y) + ")"; };
    c.note(desc);
    bool threw = false;
    f(r, a, b, threw);
    if (!fits) CHECK(threw, desc() << " does not fit but returned " << zs(val(r)));
    else {
        if (!wide) CHECK(!threw, desc() << " fits but reported an error");
        if (!threw) CHECK(val(r) == w, desc() << " = " << zs(val(r)) << ", expected " << zs(w));
    }
    CHECK(val(a) == x && val(b) == y, "add modified an operand");
}
typedef void (*Fn)(Gen&, Ctx&);
struct Ent { Op f; unsigned nc, na, nb; };
template<size_t... I> static std::vector<Ent> addTab(std::index_sequence<I...>) { return {Ent{addT<1 + I / 25, 1 + I / 5 % 5, 1 + I % 5>, 1 + I / 25, 1 + I / 5 % 5, 1 + I % 5}...}; }
PROP(add, 600000, 16000000) {
    static const std::vector<Ent> t = addTab(std::make_index_sequence<150>());
    auto& e = t[g.below(t.size())];
    addCheck(g, c, e.f, e.nc, e.na, e.nb);
}

// ---- multiply ------------------------------------------------------------------------------------
template<size_t NC, size_t NA, size_t NB> static void mulT(W& c, W& a, W& b, bool&) {
    std::array<uint64_t, NA> x;
    std::array<uint64_t, NB> y;
    std::copy_n(a.begin(), NA, x.begin());
    std::copy_n(b.begin(), NB, y.begin());
    auto r = scalar::multiply<NC, NA, NB>(x, y);
    std::copy_n(r.begin(), NC, c.begin());
    std::copy_n(x.begin(), NA, a.begin());
    std::copy_n(y.begin(), NB, b.begin());
}
template<size_t... I> static std::vector<Ent> mulTab(std::index_sequence<I...>) {
    return {Ent{mulT<(1 + I / 6 % 6) + (1 + I % 6) + I / 36 % 2, 1 + I / 6 % 6, 1 + I % 6>, (1 + I / 6 % 6) + (1 + I % 6) + I / 36 % 2, 1 + I / 6 % 6, 1 + I % 6}...};
}
PROP(multiply, 400000, 10000000) {
    static const std::vector<Ent> t = mulTab(std::make_index_sequence<72>());
    auto& e = t[g.below(t.size())];
    mpz_class x = genBits(g, e.na), y = genBits(g, e.nb), w = x * y;
    c.nontrivial(x > 1 && y > 1);
    auto desc = [&] { return "multiply<" + std::to_string(e.nc) + "," + std::to_string(e.na) + "," + std::to_string(e.nb) + ">(" + zs(x) + ", " + zs(y) + ")"; };
    c.note(desc);
    W a = words(x, e.na), b = words(y, e.nb), r(e.nc);
    bool threw = false;
    e.f(r, a, b, threw);
    CHECK(val(r) == w, desc() << " = " << zs(val(r)) << ", expected " << zs(w));
    CHECK(val(a) == x && val(b) == y, "multiply modified an operand");
}

// ---- compare, bit length, shift, bytes -----------------------------------------------------------
template<size_t N> static void miscT(Gen& g, Ctx& c) {
    mpz_class x = genBits(g, N), y = related(g, x, N);
    auto a = arr<N>(x), b = arr<N>(y);
    c.nontrivial(x > 0);
    uint64_t sh;
    switch (g.below(4)) {
    case 0: sh = g.below(64 * N + 70); break;
    case 1: sh = 64 * g.below(N + 2); break;
    case 2: sh = 64 * g.below(N + 1) + 63; break;
    default: sh = g.flip() ? g.raw() : uint64_t(0) - 1 - g.below(200);
    }
    c.note([&] { return std::to_string(N) + " words " + zs(x) + " vs " + zs(y) + ", shift " + std::to_string(sh); });
    int s = cmp(x, y);
    auto o = scalar::cmp(a, b);
    CHECK((o < 0) == (s < 0) && (o == 0) == (s == 0) && (o > 0) == (s > 0), "cmp(" << zs(x) << ", " << zs(y) << ")");
    CHECK(scalar::equal(a, b) == (s == 0), "equal(" << zs(x) << ", " << zs(y) << ")");
    CHECK(scalar::equal(a, a), "equal(a, a) with a = " << zs(x));
    uint64_t bl = x == 0 ? 0 : mpz_sizeinbase(x.get_mpz_t(), 2);
    CHECK(scalar::bitLength(a) == bl, "bitLength(" << zs(x) << ") = " << scalar::bitLength(a));
    mpz_class w = sh >= 64 * N ? mpz_class(0) : mpz_class(x >> unsigned(sh));
    std::array<uint64_t, N> r;
    r.fill(0xa5a5a5a5a5a5a5a5ull);
    scalar::rsh(r, a, sh);
    CHECK(val<N>(r) == w, "rsh(" << zs(x) << ", " << sh << ") = " << zs(val<N>(r)) << ", expected " << zs(w));
    CHECK(val<N>(a) == x, "rsh modified its input");
    r = a;
    scalar::rsh(r, r, sh); // in place
    CHECK(val<N>(r) == w, "in-place rsh(" << zs(x) << ", " << sh << ") = " << zs(val<N>(r)) << ", expected " << zs(w));
    // bytes
    Bytes be = i2osp(x, 8 * N), le(be.rbegin(), be.rend());
    std::array<uint8_t, 8 * N> o1 = scalar::toBytesBE(a), o2 = scalar::toBytesLE(a);
    CHECK(toB(o1) == be, "toBytesBE(" << zs(x) << ") = " << hx(toB(o1)));
    CHECK(toB(o2) == le, "toBytesLE(" << zs(x) << ") = " << hx(toB(o2)));
    std::array<uint8_t, 8 * N + 2> gu;
    gu.fill(0x5a);
    scalar::toBytesBE<N>(a, std::span<uint8_t, 8 * N>(gu.data() + 1, 8 * N));
    CHECK(gu[0] == 0x5a && gu.back() == 0x5a && Bytes(gu.begin() + 1, gu.end() - 1) == be, "toBytesBE into a span");
    gu.fill(0x5a);
    scalar::toBytesLE<N>(a, std::span<uint8_t, 8 * N>(gu.data() + 1, 8 * N));
    CHECK(gu[0] == 0x5a && gu.back() == 0x5a && Bytes(gu.begin() + 1, gu.end() - 1) == le, "toBytesLE into a span");
    std::span<const uint8_t, 8 * N> i1(be.data(), 8 * N), i2(le.data(), 8 * N);
    CHECK(val<N>(scalar::fromBytesBE<N>(i1)) == x, "fromBytesBE(" << hx(be) << ")");
    CHECK(val<N>(scalar::fromBytesLE<N>(i2)) == x, "fromBytesLE(" << hx(le) << ")");
    std::array<uint64_t, N> r2;
    r2.fill(g.raw());
    scalar::fromBytesBE<N>(i1, r2);
    CHECK(val<N>(r2) == x, "fromBytesBE(" << hx(be) << ") into a reference");
    r2.fill(g.raw());
    scalar::fromBytesLE<N>(i2, r2);
    CHECK(val<N>(r2) == x, "fromBytesLE(" << hx(le) << ") into a reference");
}
PROP(compare_shift_bytes, 400000, 5000000) {
    static const std::vector<Fn> t = {miscT<1>, miscT<2>, miscT<3>, miscT<4>, miscT<5>, miscT<6>, miscT<7>, miscT<8>, miscT<12>};
    t[g.below(t.size())](g, c);
}

// ---- division ------------------------------------------------------------------------------------
template<size_t N, size_t M> static void divT(Gen& g, Ctx& c) {
    mpz_class b;
    switch (g.weighted({6, 2, 2, 2, 1})) {
    case 0: b = genBits(g, M); break;
    case 1: b = M == 4 ? R : M == 6 ? P : genBits(g, M); break;
    case 2: b = pow2(64 * M) - 1 - genBits(g, unsigned(1 + g.below(M))) ; break;
    case 3: b = pow2(unsigned(64 * M - 1 - g.below(64))) + long(g.below(3)) - 1; break;
    default: b = genBits(g, unsigned(1 + g.below(M)));
    }
    if (b <= 0) b = 1;
    mpz_class a;
    // dividends built backwards from a chosen quotient and remainder reach the correction steps
    switch (g.weighted({3, 4, 1, 1})) {
    case 0: a = genBits(g, N); break;
    case 1: {
        mpz_class rem = g.flip() ? mpz_class(b - 1 - long(g.below(3))) : genBits(g, M);
        mpz_mod(rem.get_mpz_t(), rem.get_mpz_t(), b.get_mpz_t());
        a = (genBits(g, unsigned(1 + N - M)) * b + rem) % pow2(64 * N);
        break;
    }
    case 2: a = b - 1 + long(g.below(3)); break;
    default: a = pow2(64 * N) - 1 - genBits(g, unsigned(1 + g.below(N)));
    }
    a %= pow2(64 * N);
    mpz_class q = a / b, r = a % b;
    c.nontrivial(q > 0 && r > 0);
    c.label(b >= pow2(64 * M - 1) ? "divisor with top bit set" : b < pow2(64 * (M - 1)) ? "divisor with zero top word" : "other divisor");
    c.note([&] { return "divide<" + std::to_string(N) + "," + std::to_string(M) + "> " + zs(a) + " by " + zs(b); });
    std::array<uint64_t, N> qq;
    std::array<uint64_t, M> rr;
    qq.fill(g.raw());
    rr.fill(g.raw());
    auto aa = arr<N>(a);
    auto bb = arr<M>(b);
    bn_divn_safe(qq, rr, aa, bb);
    CHECK(val<N>(qq) == q && val<M>(rr) == r, "bn_divn_safe<" << N << "," << M << ">(" << zs(a) << " / " << zs(b) << ") = " << zs(val<N>(qq)) << " rem " << zs(val<M>(rr)) << ", expected " << zs(q) << " rem " << zs(r));
    CHECK(val<N>(aa) == a && val<M>(bb) == b, "bn_divn_safe modified an operand");
    // in place, as the library itself uses it
    if constexpr (N == M) {
        auto x = aa;
        bn_divn_safe(qq, x, x, bb);
        CHECK(val<N>(qq) == q && val<M>(x) == r, "bn_divn_safe with the remainder over the dividend");
    }
}
PROP(divide, 1000000, 10000000) {
    static const std::vector<Fn> t = {divT<1, 1>, divT<2, 1>, divT<3, 1>, divT<2, 2>, divT<3, 2>, divT<5, 2>, divT<3, 3>, divT<4, 3>, divT<4, 4>, divT<5, 4>, divT<6, 4>, divT<8, 4>, divT<6, 6>, divT<8, 6>, divT<12, 6>, divT<8, 5>};
    t[g.below(t.size())](g, c);
}

// ---- word primitives -----------------------------------------------------------------------------
static mpz_class w64(uint64_t x) { return limbs_z(&x, 1); }
static mpz_class w2(uint64_t hi, uint64_t lo) { return (w64(hi) << 64) + w64(lo); }
static mpz_class w3(uint64_t s, uint64_t hi, uint64_t lo) { return (w2(s, hi) << 64) + w64(lo); }
PROP(word_primitives, 1000000, 10000000) {
    uint64_t a = genWord(g), b = g.chance(1, 4) ? ~a : genWord(g), cc = genWord(g), d = genWord(g), e = genWord(g), carry = g.below(2);
    mpz_class A = w64(a), Bz = w64(b), C = w64(cc), D = w64(d), E = w64(e), T = pow2(64), T2 = pow2(128), T3 = pow2(192);
    c.nontrivial(a > 1 && b > 1);
    c.note([&] { return "words " + zs(A) + " " + zs(Bz) + " " + zs(C) + " " + zs(D) + " " + zs(E); });
#define AT " for a=" << zs(A) << " b=" << zs(Bz) << " c=" << zs(C) << " d=" << zs(D) << " e=" << zs(E) << " carry=" << carry
    auto [s, co] = Add64(a, b, carry);
    CHECK(co <= 1 && w2(co, s) == A + Bz + (unsigned long)carry, "Add64" AT);
    auto [df, bo] = Sub64(a, b, carry);
    CHECK(bo <= 1 && w64(df) - (w64(bo) << 64) == A - Bz - (unsigned long)carry, "Sub64" AT);
    auto [h, l] = Mul64(a, b);
    CHECK(w2(h, l) == A * Bz, "Mul64" AT);
    CHECK(w64(madd0(a, b, cc)) == (A * Bz + C) >> 64, "madd0" AT);
    auto [h1, l1] = madd1(a, b, cc);
    CHECK(w2(h1, l1) == A * Bz + C, "madd1" AT);
    auto [h2, l2] = madd2(a, b, cc, d);
    CHECK(w2(h2, l2) == A * Bz + C + D, "madd2" AT);
    {   // triple accumulator t:u:v
        auto [x, y, z] = madd(a, b, cc, d, e);
        mpz_class w = A * Bz + w3(cc, d, e);
        if (w < T3) CHECK(w3(x, y, z) == w, "madd" AT);
    }
    {
        mpz_class w = A * Bz + C + D + (E << 64);
        auto [x, y] = madd3(a, b, cc, d, e);
        if (w < T2) CHECK(w2(x, y) == w, "madd3" AT);
    }
    {
        // the carry word of the doubled forms is the previous top word, which is 0 or 1
        auto [x, y, z] = madd2s(a, b, cc, carry, e);
        CHECK(w3(x, y, z) == 2 * A * Bz + C + (w64(carry) << 64) + E, "madd2s" AT);
    }
    {
        auto [x, y, z] = madd1s(a, b, carry, e);
        CHECK(w3(x, y, z) == 2 * A * Bz + (w64(carry) << 64) + E, "madd1s" AT);
    }
    {
        auto [x, y, z] = madd2sb(a, b, cc, e);
        CHECK(w3(x, y, z) == 2 * A * Bz + C + E, "madd2sb" AT);
    }
    {
        auto [x, y, z] = madd1sb(a, b, e);
        CHECK(w3(x, y, z) == 2 * A * Bz + E, "madd1sb" AT);
    }
}

// ---- hex -----------------------------------------------------------------------------------------
template<size_t N> static void hexFixed(const Bytes& b, const std::string& bare, const std::string& any, bool prefixed) {
    std::array<uint8_t, N> a;
    std::copy(b.begin(), b.end(), a.begin());
    std::span<const uint8_t, N> s(a);
    CHECK(bytesToHex<N>(s) == "0x" + bare, "bytesToHex<" << N << ">");
    if (N == 0 && !prefixed) return; // the fixed-size parser documents that it does not look at the length
    CHECK(hexToBytes<N>(any) == a, "hexToBytes<" << N << ">(\"" << any << "\")");
    std::array<uint8_t, N + 2> gu;
    gu.fill(0x5a);
    hexToBytes<N>(any, std::span<uint8_t, N>(gu.data() + 1, N));
    CHECK(gu[0] == 0x5a && gu[N + 1] == 0x5a && std::equal(a.begin(), a.end(), gu.begin() + 1), "hexToBytes<" << N << "> into a span");
}
PROP(hex, 300000, 4000000) {
    static const size_t fixed[] = {1, 4, 32, 48, 96, 144};
    size_t fx = g.below(2) ? fixed[g.below(6)] : 0;
    Bytes b = genBytes(g, g.chance(1, 1500) ? 70000 : 300);
    if (fx) b.resize(fx, 0x30);
    static const char* lo = "0123456789abcdef";
    static const char* up = "0123456789ABCDEF";
    std::string bare, any;
    unsigned style = unsigned(g.below(3));
    bool prefixed = g.flip();
    if (prefixed) any = "0x";
    uint64_t bits = g.raw();
    for (size_t i = 0; i < b.size(); i++) {
        bare += lo[b[i] >> 4];
        bare += lo[b[i] & 15];
        bool u1 = style == 1 || (style == 2 && (bits >> (2 * i % 64) & 1)), u2 = style == 1 || (style == 2 && (bits >> ((2 * i + 1) % 64) & 1));
        any += (u1 ? up : lo)[b[i] >> 4];
        any += (u2 ? up : lo)[b[i] & 15];
    }
    c.nontrivial(!b.empty());
    c.note([&] { return "hex \"" + any + "\""; });
    CHECK(bytesToHex(std::span<const uint8_t>(b.data(), b.size())) == "0x" + bare, "bytesToHex of " << hx(b));
    auto r = hexToBytes(std::string_view(any));
    CHECK(r == b, "hexToBytes(\"" << any << "\") = " << hx(r));
    { // the same text as a view into a longer string
        static const char* tails[] = {"0x00", "x12", "", "zz", "ffff"};
        std::string longer = any + tails[g.below(5)];
        size_t cut = g.chance(1, 4) ? g.below(any.size() + 1) : any.size();
        std::string_view view(longer.data(), cut);
        auto w = hexToBytes(view);
        bool pre = cut >= 2 && any[0] == '0' && any[1] == 'x';
        Bytes want;
        if (cut % 2 == 0) want.assign(b.begin(), b.begin() + (pre ? cut - 2 : prefixed ? 0 : cut) / 2);
        CHECK(w == want, "hexToBytes of the first " << cut << " characters of \"" << longer << "\" = " << hx(w));
    }
    CHECK(hexToBytes(std::string_view("0x" + bare)) == b, "hexToBytes does not invert bytesToHex on " << hx(b));
    switch (fx) {
    case 1: hexFixed<1>(b, bare, any, prefixed); break;
    case 4: hexFixed<4>(b, bare, any, prefixed); break;
    case 32: hexFixed<32>(b, bare, any, prefixed); break;
    case 48: hexFixed<48>(b, bare, any, prefixed); break;
    case 96: hexFixed<96>(b, bare, any, prefixed); break;
    case 144: hexFixed<144>(b, bare, any, prefixed); break;
    }
}
