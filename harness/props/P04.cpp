#include "../common.hpp"
using namespace ref;
PROPERTY("P04")

static F12 sub6(Gen& g) { return genF6(g); }
static mpz_class PN(unsigned k) { mpz_class r; mpz_pow_ui(r.get_mpz_t(), P.get_mpz_t(), k); return r; }
static unsigned long genPower(Gen& g) {
    switch (g.below(3)) {
    case 0: return g.below(13);
    case 1: return g.below(64);
    default: return g.raw();
    }
}
PROP(frobenius, 40000, 1000000) {
    unsigned long k = genPower(g);
    c.label("power mod 12 = " + std::to_string(k % 12));
    if (k >= 12) c.label("power >= 12");
    unsigned lvl = unsigned(g.below(3));
    if (lvl == 0) {
        F2 x = genF2(g);
        c.nontrivial(!x.b.is_zero());
        c.note([&] { return "fp2 Frobenius^" + std::to_string(k) + " of " + x.str(); });
        F2 w = k & 1 ? x.conj() : x;
        B::fp2 a = L(x);
        CHECK(V(a.frobeniusMap(k)) == w, "fp2 frobeniusMap(" << k << ") of " << x.str());
        CHECK(V(a) == x, "operand modified");
        a.frobeniusMapAssign(k);
        CHECK(V(a) == w, "fp2 frobeniusMapAssign(" << k << ") of " << x.str());
    } else if (lvl == 1) {
        F12 x = sub6(g), w = x.frob(k % 12);
        c.nontrivial(w != x);
        c.note([&] { return "fp6 Frobenius^" + std::to_string(k) + " of " + x.str(); });
        B::fp6 a = L6(x);
        F12 r = V(a.frobeniusMap(k), "frobeniusMap");
        CHECK(r == w, "fp6 frobeniusMap(" << k << ") of " << x.str() << " = " << r.str() << ", expected " << w.str());
        CHECK(V(a) == x, "operand modified");
        a.frobeniusMapAssign(k);
        r = V(a, "frobeniusMapAssign");
        CHECK(r == w, "fp6 frobeniusMapAssign(" << k << ") of " << x.str() << " = " << r.str() << ", expected " << w.str());
    } else {
        F12 x = genF12(g), w = x.frob(k % 12);
        c.nontrivial(w != x);
        c.note([&] { return "fp12 Frobenius^" + std::to_string(k) + " of " + x.str(); });
        B::fp12 a = L(x);
        F12 r = V(a.frobeniusMap(k), "frobeniusMap");
        CHECK(r == w, "fp12 frobeniusMap(" << k << ") of " << x.str() << " = " << r.str() << ", expected " << w.str());
        CHECK(V(a) == x, "operand modified");
        a.frobeniusMapAssign(k);
        r = V(a, "frobeniusMapAssign");
        CHECK(r == w, "fp12 frobeniusMapAssign(" << k << ") of " << x.str() << " = " << r.str() << ", expected " << w.str());
    }
}
// the reference Frobenius itself is checked against plain exponentiation on a few elements
PROP(frobenius_by_power, 24, 400) {
    F12 x = genF12(g);
    unsigned k = unsigned(1 + g.below(5));
    c.nontrivial(true);
    c.note([&] { return "fp12 element raised to p^" + std::to_string(k) + " by exponentiation: " + x.str(); });
    F12 w = x.pow(PN(k));
    CHECK(V(L(x).frobeniusMap(k), "frobeniusMap") == w, "fp12 frobeniusMap(" << k << ") differs from the p^" << k << "-th power of " << x.str());
}

// cyclotomic subgroup: y^((p^6-1)(p^2+1))
static F12 cyc(const F12& y) {
    if (y.is_zero()) return F12::one();
    F12 t = y.frob(6) * y.inv();
    return t.frob(2) * t;
}
static F12 genCyc(Gen& g, int* kind) {
    int k = int(g.weighted({6, 1, 2, 2, 3}));
    if (kind) *kind = k;
    switch (k) {
    case 1: return F12::one();
    case 2: { // small-order elements: roots of unity of the subgroup order Phi_12(p)
        static const mpz_class PHI = PN(4) - PN(2) + 1;
        F12 z = cyc(genF12(g));
        F12 t = z.pow(PHI / R);
        if (t != F12::one()) return t.pow(genBits(g, 1) + 1); // order r
        return z;
    }
    case 3: { F12 z = cyc(genF12(g)); return z.frob(6); } // inverse in the subgroup
    case 4: { // order coprime to r
        F12 z = cyc(genF12(g));
        return z.pow(R);
    }
    default: return cyc(genF12(g));
    }
}
PROP(cyclotomic_square, 6000, 150000) {
    F12 x = genCyc(g, nullptr);
    c.nontrivial(x != F12::one());
    c.note([&] { return "cyclotomic square of " + x.str(); });
    F12 w = x * x;
    B::fp12 a = L(x);
    CHECK(V(a.cyclotomicSquare(), "cyclotomicSquare") == w, "cyclotomicSquare of " << x.str());
    CHECK(V(a) == x, "operand modified");
    a.cyclotomicSquareAssign();
    CHECK(V(a, "cyclotomicSquareAssign") == w, "cyclotomicSquareAssign of " << x.str());
    CHECK(V(L(x).conjugate()) * x == F12::one(), "conjugate is not the inverse on the cyclotomic subgroup: " << x.str());
}
template<size_t N> static void cexp(Gen& g, Ctx& c) {
    mpz_class e;
    switch (g.below(4)) {
    case 0: e = long(g.below(20)); break;
    case 1: e = N >= 4 ? mpz_class(R - 1 + long(g.below(3))) : mpz_class((unsigned long)X); break;
    default: e = genBits(g, N);
    }
    std::array<uint64_t, N> s;
    z_limbs(e, s.data(), N);
    F12 x = genCyc(g, nullptr);
    c.nontrivial(x != F12::one() && e > 1);
    c.note([&] { return "cyclotomic " + x.str() + " ^ " + zs(e); });
    F12 r = V(L(x).cyclotomicExp(s), "cyclotomicExp");
    CHECK(r == x.pow(e), "cyclotomicExp(" << zs(e) << ") of " << x.str());
    CHECK(V(L(x).exp(s)) == r, "exp and cyclotomicExp differ");
}
PROP(cyclotomic_power, 2000, 50000) {
    switch (g.below(3)) {
    case 0: cexp<1>(g, c); break;
    case 1: cexp<4>(g, c); break;
    default: cexp<6>(g, c);
    }
}
// membership in the order-r subgroup, over elements of every kind of order
PROP(gt_membership, 1600, 40000) {
    F12 x;
    switch (g.below(8)) {
    case 0: x = genF12(g); break;
    case 1: x = F12::one(); if (g.flip()) x = -x; break;
    case 2: x = genCyc(g, nullptr); break;
    case 3: { // order r times a small factor: an order-r element times a root of unity
        F12 y = genF12(g);
        if (y.is_zero()) y = F12::one();
        static const mpz_class E = (PN(12) - 1) / R;
        F12 gt = y.pow(E);
        static const std::vector<mpz_class> ord = {2, 3, 4, 6, 9, 11, 13, 7, 5};
        const mpz_class& o = g.pick(ord);
        F12 root = F12::one();
        if ((PN(12) - 1) % o == 0) root = F12{genF12(g)}.pow((PN(12) - 1) / o);
        x = gt * root;
        break;
    }
    case 4: { // generator powers
        F12 y = genF12(g);
        if (y.is_zero()) y = F12::one();
        static const mpz_class E = (PN(12) - 1) / R;
        x = y.pow(E);
        break;
    }
    case 5: x = F12::zero(); break;
    case 6: { F2 t = genF2(g); x = emb(t); break; } // subfield elements
    default: {
        static const mpz_class E = (PN(12) - 1) / R;
        static const F12 b = [] { F12 t = F12::one(); t.c[1] = F::of(3); return t.pow(E); }();
        x = b.pow(genScalar(g));
        if (g.flip()) x = -x;
    }
    }
    bool in = !x.is_zero() && x.pow(R) == F12::one();
    c.nontrivial(!x.is_zero() && x != F12::one());
    c.label(in ? "member" : "non-member");
    c.note([&] { return std::string(in ? "member " : "non-member ") + x.str(); });
    CHECK(L(x).isGtValid() == in, "isGtValid(" << x.str() << ") = " << !in);
}
