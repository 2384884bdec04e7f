#include "../common.hpp"
using namespace ref;
PROPERTY("P02")

template<size_t N> static std::array<uint64_t, N> arr(const mpz_class& z) {
    std::array<uint64_t, N> a;
    z_limbs(z, a.data(), N);
    return a;
}
static bool nt(const F& a) { return !a.is_zero() && a != F::one(); }
static bool nt(const F2& a) { return !a.is_zero() && a != F2::one(); }

PROP(fp_inverse, 120000, 3000000) {
    F a = genF(g);
    c.nontrivial(nt(a));
    c.note([&] { return "inverse of " + a.str(); });
    const B::fp x = L(a);
    F r = V(x.inverse(), "fp::inverse");
    if (a.is_zero()) { CHECK(r.is_zero(), "inverse(0) = " << r.str()); c.label("zero"); return; }
    CHECK(r * a == F::one(), "inverse(" << a.str() << ") = " << r.str() << ", expected " << a.inv().str());
    CHECK(V(x) == a, "inverse modified its operand");
}
PROP(fp2_inverse, 30000, 800000) {
    F2 a = genF2(g);
    c.nontrivial(nt(a));
    c.note([&] { return "inverse of " + a.str(); });
    F2 r = V(L(a).inverse(), "fp2::inverse");
    if (a.is_zero()) { CHECK(r.is_zero(), "inverse(0) = " << r.str()); return; }
    CHECK(r * a == F2::one(), "inverse(" << a.str() << ") = " << r.str());
}
// exponents of one to eight words
template<size_t N> static void expN(Gen& g, Ctx& c) {
    mpz_class e = g.chance(1, 6) ? mpz_class(P - 1 + long(g.below(3)) - 1) >> unsigned(g.below(3)) : genBits(g, N);
    auto s = arr<N>(e);
    e = limbs_z(s.data(), N);
    if (g.flip()) {
        F a = genF(g);
        c.nontrivial(nt(a) && e > 1);
        c.note([&] { return a.str() + " ^ " + zs(e); });
        F r = V(L(a).exp(s), "fp::exp");
        CHECK(r == a.pow(e), a.str() << " ^ " << zs(e) << " = " << r.str() << ", expected " << a.pow(e).str());
    } else {
        F2 a = genF2(g);
        c.nontrivial(nt(a) && e > 1);
        c.note([&] { return a.str() + " ^ " + zs(e); });
        F2 r = V(L(a).exp(s), "fp2::exp");
        CHECK(r == a.pow(e), a.str() << " ^ " << zs(e) << " = " << r.str() << ", expected " << a.pow(e).str());
    }
}
PROP(power, 12000, 300000) {
    switch (g.below(6)) {
    case 0: expN<1>(g, c); break;
    case 1: expN<2>(g, c); break;
    case 2: expN<4>(g, c); break;
    case 3: expN<6>(g, c); break;
    case 4: expN<5>(g, c); break;
    default: expN<8>(g, c);
    }
}
PROP(fp_sqrt, 20000, 500000) {
    F a = genF(g);
    if (g.flip()) a = a * a;
    c.nontrivial(nt(a));
    c.note([&] { return "sqrt of " + a.str(); });
    bool sq = a.is_square();
    c.label(a.is_zero() ? "zero" : sq ? "square" : "non-square");
    B::fp x = L(a), r;
    bool ok;
    if (g.flip()) ok = x.sqrt(r);
    else { ok = x.sqrt(x); r = x; c.label("in place"); }
    CHECK(ok == sq, "sqrt(" << a.str() << ") returned " << ok << " but the element is " << (sq ? "a square" : "not a square"));
    if (ok) CHECK(V(r, "fp::sqrt") * V(r, "fp::sqrt") == a, "sqrt(" << a.str() << ") = " << V(r).str() << " is not a root");
    if (!a.is_zero()) CHECK(L(a).isQuadraticNonResidue() == !sq, "isQuadraticNonResidue(" << a.str() << ")");
}
PROP(fp2_sqrt, 12000, 300000) {
    F2 a = genF2(g);
    switch (g.below(4)) {
    case 0: break;
    case 1: a = a * a; break;
    case 2: { F t = genF(g); a = F2{t, F::zero()}; c.label("in the base field"); break; } // always a square
    default: a = a * a * F2{F::one(), F::one()}; // never a square unless zero
    }
    c.nontrivial(nt(a));
    c.note([&] { return "sqrt of " + a.str(); });
    bool sq = a.is_square();
    c.label(a.is_zero() ? "zero" : sq ? "square" : "non-square");
    B::fp2 x = L(a), r;
    bool ok;
    if (g.flip()) ok = x.sqrt(r);
    else { ok = x.sqrt(x); r = x; c.label("in place"); }
    CHECK(ok == sq, "sqrt(" << a.str() << ") returned " << ok << " but the element is " << (sq ? "a square" : "not a square"));
    if (ok) CHECK(V(r, "fp2::sqrt") * V(r, "fp2::sqrt") == a, "sqrt(" << a.str() << ") = " << V(r).str() << " is not a root");
    if (!a.is_zero()) CHECK(L(a).isQuadraticNonResidue() == !sq, "isQuadraticNonResidue(" << a.str() << ")");
}
static F nearHalf(Gen& g) {
    switch (g.below(4)) {
    case 0: return genF(g);
    case 1: return F::of((P - 1) / 2 - 3 + long(g.below(8)));
    case 2: { // differs from p/2 in one limb only
        mpz_class h = (P - 1) / 2;
        unsigned i = unsigned(g.below(6));
        mpz_class d = mpz_class(1) << (64 * i);
        return F::of(g.flip() ? mpz_class(h + d * long(1 + g.below(3))) : mpz_class(h - d * long(1 + g.below(3))));
    }
    default: { // shares the top limbs with p/2, the rest is free
        mpz_class h = (P - 1) / 2;
        unsigned i = unsigned(1 + g.below(5));
        mpz_class m = (mpz_class(1) << (64 * i)) - 1;
        mpz_class hi = h - (h & m);
        return F::of(hi + (genBits(g, i) & m));
    }
    }
}
static int gt(const mpz_class& a, const mpz_class& b) { return a < b ? -1 : a > b; }
PROP(order_and_sign, 200000, 4000000) {
    F a = nearHalf(g), b = g.chance(1, 4) ? -a : g.chance(1, 4) ? a + F::of(long(g.below(3)) - 1) : nearHalf(g);
    c.nontrivial(nt(a));
    c.note([&] { return "ordering of " + a.str() + " and " + b.str(); });
    const B::fp x = L(a), y = L(b);
    CHECK(x.sign() == (a.sgn0() == 0), "sign(" << a.str() << ")");
    CHECK(x.isLexicographicallyLargest() == larger(a), "isLexicographicallyLargest(" << a.str() << ")");
    F2 t{a, b};
    if (g.chance(1, 4)) t.b = F::zero();
    if (g.chance(1, 6)) t.a = F::zero();
    const B::fp2 z = L(t);
    CHECK(z.sign() == (t.sgn0() == 0), "sign(" << t.str() << ")");
    CHECK(z.isLexicographicallyLargest() == larger(t), "isLexicographicallyLargest(" << t.str() << ")");
    CHECK(z.isZero() == t.is_zero(), "isZero(" << t.str() << ")");
    CHECK(z.isOne() == (t == F2::one()), "isOne(" << t.str() << ")");
    // comparisons are on the stored integers
    B::fp u = raw(a), v = raw(b);
    int w = gt(a.z(), b.z());
    auto o = u.cmp(v);
    CHECK((w < 0) == (o < 0) && (w > 0) == (o > 0), "cmp(" << a.str() << ", " << b.str() << ")");
    CHECK((u < v) == (w < 0) && (u > v) == (w > 0) && (u == v) == (w == 0) && (u <= v) == (w <= 0) && (u != v) == (w != 0), "comparison operators(" << a.str() << ", " << b.str() << ")");
    CHECK(u.equal(v) == (a == b), "equal(" << a.str() << ", " << b.str() << ")");
    CHECK(u.isOdd() == (a.v[0] & 1) && u.isEven() == !(a.v[0] & 1), "isOdd/isEven(" << a.str() << ")");
    // equal on the extension
    F2 t2 = g.flip() ? t : F2{t.a, t.b + F::of(long(g.below(2)))};
    CHECK(z.equal(L(t2)) == (t == t2), "equal(" << t.str() << ", " << t2.str() << ")");
    CHECK((z == L(t2)) == (t == t2), "operator==(" << t.str() << ", " << t2.str() << ")");
}
PROP(shifts_and_validity, 200000, 4000000) {
    mpz_class v;
    switch (g.below(4)) {
    case 0: v = genBits(g, 6); break;
    case 1: v = P - 3 + long(g.below(7)); break;
    case 2: { // shares high limbs with p
        unsigned i = unsigned(1 + g.below(5));
        mpz_class m = (mpz_class(1) << (64 * i)) - 1;
        v = P - (P & m) + (genBits(g, i) & m);
        break;
    }
    default: v = P + (g.flip() ? 1 : -1) * (mpz_class(1) << unsigned(64 * g.below(6))) * long(g.below(3));
    }
    static const mpz_class M = mpz_class(1) << 384;
    mpz_class w = v % M;
    if (w < 0) w += M;
    v = w;
    c.nontrivial(v > 1);
    c.note([&] { return "raw integer " + zs(v); });
    B::fp x;
    z_limbs(v, x.d.data(), 6);
    CHECK(x.isValid() == (v < P), "isValid(" << zs(v) << ")");
    CHECK(x.isZero() == (v == 0), "isZero(" << zs(v) << ")");
    B::fp y = x;
    uint64_t top = y.mul2();
    CHECK(limbs_z(y.d.data(), 6) == (2 * v) % M && top == (v >= M / 2 ? 1u : 0u), "mul2(" << zs(v) << ")");
    uint64_t in = g.below(2);
    y = x;
    y.div2(in);
    CHECK(limbs_z(y.d.data(), 6) == v / 2 + (in ? M / 2 : mpz_class(0)), "div2(" << zs(v) << ", " << in << ")");
}
PROP(cube_root_of_unity, 40000, 800000) {
    static const F beta = V(B::fp::one().phi());
    CHECK(beta != F::one() && beta * beta * beta == F::one(), "phi does not multiply by a primitive cube root of unity: " << beta.str());
    F a = genF(g);
    c.nontrivial(nt(a));
    c.note([&] { return "phi of " + a.str(); });
    F r = V(L(a).phi(), "phi");
    CHECK(r == a * beta, "phi(" << a.str() << ") = " << r.str());
    // constants used by callers
    CHECK(V(B::fp::twoInv) * F::of(2) == F::one() && V(B::fp::B) == F::of(4), "constants");
    CHECK(V(B::fp2::B) == (F2{F::of(4), F::of(4)}) && V(B::fp2::negativeOne2) == -F2::one(), "constants");
}
template<size_t N> static void modN(Gen& g, Ctx& c) {
    mpz_class k;
    switch (g.below(4)) {
    case 0: k = genBits(g, N); break;
    case 1: k = P * genBits(g, N - 5) + long(g.below(5)) - 2; break;
    case 2: { // quotient digits at their extremes
        k = (P << unsigned(g.below(64 * (N - 6) + 4))) - 1 - genBits(g, unsigned(1 + g.below(3)));
        break;
    }
    default: k = (mpz_class(1) << unsigned(64 * N)) - 1 - genBits(g, unsigned(1 + g.below(N)));
    }
    if (k < 0) k = -k;
    auto s = arr<N>(k);
    k = limbs_z(s.data(), N);
    c.nontrivial(k >= P);
    c.note([&] { return std::to_string(N) + "-word integer " + zs(k) + " into the field"; });
    F r = V(B::fp::modPrime(s), "modPrime");
    CHECK(r == F::of(k), "modPrime(" << zs(k) << ") = " << r.str() << ", expected " << F::of(k).str());
}
PROP(mod_prime, 100000, 2500000) {
    switch (g.below(6)) {
    case 0: modN<8>(g, c); break;
    case 1: modN<6>(g, c); break;
    case 2: modN<7>(g, c); break;
    case 3: modN<12>(g, c); break;
    case 4: modN<9>(g, c); break;
    default: modN<16>(g, c);
    }
}
