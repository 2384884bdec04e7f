#include "../common.hpp"
using namespace ref;
PROPERTY("P01")

// raw 384-bit integers of library elements (no reduction assumed)
static mpz_class I(const B::fp& a) { return limbs_z(a.d.data(), 6); }
static B::fp FI(const mpz_class& z) {
    B::fp r;
    z_limbs(z, r.d.data(), 6);
    return r;
}
static const mpz_class& M384() { static const mpz_class m = mpz_class(1) << 384; return m; }
static const mpz_class& RINV() {
    static const mpz_class r = [] { mpz_class x; mpz_invert(x.get_mpz_t(), M384().get_mpz_t(), P.get_mpz_t()); return x; }();
    return r;
}
static mpz_class md(const mpz_class& a, const mpz_class& m) {
    mpz_class r;
    mpz_mod(r.get_mpz_t(), a.get_mpz_t(), m.get_mpz_t());
    return r;
}
// canonical operand: raw integer below p
static mpz_class op(Gen& g) {
    F a = genF(g);
    return g.flip() ? a.z() : mont_to(a).z();
}
static mpz_class op2(Gen& g, const mpz_class& x) { // second operand, often related to the first
    switch (g.weighted({8, 1, 1, 1, 1, 1, 1})) {
    case 0: return op(g);
    case 1: return x;
    case 2: return md(-x, P);
    case 3: return md(-x - 1 + long(g.below(3)), P);
    case 4: return md(x + 1, P);
    case 5: return md((mpz_class(1) << unsigned(64 * g.below(7))) - x - long(g.below(2)), P);
    default: { mpz_class r = x; mpz_combit(r.get_mpz_t(), g.below(381)); return md(r, P); }
    }
}
static void eq(const B::fp& got, const mpz_class& want, const char* what, const mpz_class& x, const mpz_class& y) {
    CHECK(I(got) == want, what << "(" << zs(x) << ", " << zs(y) << ") = " << zs(I(got)) << ", expected " << zs(want));
}
static bool nt(const mpz_class& x) { return x > 1; }

// z = op(x, y) with every overlap of z, x and y
typedef void (*Bin)(B::fp*, const B::fp*, const B::fp*);
typedef void (*Un)(B::fp*, const B::fp*);
static void bin(Gen& g, Bin f, const char* name, const mpz_class& x, const mpz_class& y, const mpz_class& want) {
    B::fp a = FI(x), b = FI(y), z = FI(genBits(g, 6));
    if (x == y && g.flip()) {
        if (g.flip()) { f(&z, &a, &a); eq(z, want, name, x, y); CHECK(I(a) == x, name << " modified its input"); }
        else { f(&a, &a, &a); eq(a, want, name, x, y); }
        return;
    }
    switch (g.below(3)) {
    case 0: f(&z, &a, &b); eq(z, want, name, x, y); CHECK(I(a) == x && I(b) == y, name << " modified an input"); break;
    case 1: f(&a, &a, &b); eq(a, want, name, x, y); CHECK(I(b) == y, name << " modified its second input"); break;
    default: f(&b, &a, &b); eq(b, want, name, x, y); CHECK(I(a) == x, name << " modified its first input"); break;
    }
}
static void un(Gen& g, Un f, const char* name, const mpz_class& x, const mpz_class& want) {
    B::fp a = FI(x), z = FI(genBits(g, 6));
    if (g.flip()) { f(&z, &a); eq(z, want, name, x, 0); CHECK(I(a) == x, name << " modified its input"); }
    else { f(&a, &a); eq(a, want, name, x, 0); }
}

PROP(linear_ops, 300000, 6000000) {
    mpz_class x = op(g), y = op2(g, x);
    c.nontrivial(nt(x) && nt(y));
    unsigned k = unsigned(g.below(4));
    static const char* n[] = {"add", "subtract", "double", "negate"};
    c.label(n[k]);
    c.note([&] { return std::string(n[k]) + " x=" + zs(x) + " y=" + zs(y); });
    switch (k) {
    case 0: bin(g, B::_add, "add", x, y, md(x + y, P)); c.label(x + y >= P ? "add wraps" : "add does not wrap"); break;
    case 1: bin(g, B::_subtract, "subtract", x, y, md(x - y, P)); c.label(x < y ? "sub borrows" : "sub no borrow"); break;
    case 2: un(g, B::_double, "double", x, md(2 * x, P)); break;
    default: un(g, B::_negate, "negate", x, md(-x, P));
    }
}
PROP(mul_square, 300000, 6000000) {
    mpz_class x = op(g), y = op2(g, x);
    c.nontrivial(nt(x) && nt(y));
    c.note([&] { return "multiply x=" + zs(x) + " y=" + zs(y); });
    bin(g, [](B::fp* z, const B::fp* a, const B::fp* b) { B::_multiply(z, a, b); }, "multiply", x, y, md(x * y * RINV(), P));
    un(g, B::_square, "square", x, md(x * x * RINV(), P));
}
// operands chosen so that the product (as stored) is a chosen value: the final conditional subtraction and the
// reduction carries are met at their boundaries
PROP(mul_target, 150000, 3000000) {
    mpz_class x = op(g);
    if (x == 0) x = 1;
    mpz_class t = op(g), xi;
    mpz_invert(xi.get_mpz_t(), x.get_mpz_t(), P.get_mpz_t());
    mpz_class y = md(t * M384() * xi, P);
    c.nontrivial(nt(x) && nt(y));
    c.note([&] { return "multiply x=" + zs(x) + " y=" + zs(y) + " target=" + zs(t); });
    bin(g, [](B::fp* z, const B::fp* a, const B::fp* b) { B::_multiply(z, a, b); }, "multiply", x, y, t);
}
// the same for squares: the operand is a root of the chosen value (or of the next one that has a root)
PROP(square_target, 40000, 800000) {
    mpz_class t = op(g), x;
    long dir = g.flip() ? 1 : -1;
    for (;; t = md(t + dir, P)) {
        mpz_class v = md(t * M384(), P), e = (P + 1) / 4;
        mpz_powm(x.get_mpz_t(), v.get_mpz_t(), e.get_mpz_t(), P.get_mpz_t());
        if (md(x * x, P) == v) break;
    }
    if (g.flip()) x = md(-x, P);
    c.nontrivial(nt(x));
    c.note([&] { return "square x=" + zs(x) + " target=" + zs(t); });
    un(g, B::_square, "square", x, t);
    B::fp a = FI(x);
    CHECK(I(a.square()) == t, "square() of " << zs(x) << " = " << zs(I(a.square())) << ", expected " << zs(t));
}
// the unreduced primitives are plain 384-bit arithmetic
static mpz_class wide(Gen& g) {
    switch (g.weighted({3, 2, 2, 2})) {
    case 0: return genBits(g, 6);
    case 1: return op(g);
    case 2: return op(g) + P * (unsigned long)(g.below(9));
    default: return M384() - 1 - genBits(g, unsigned(1 + g.below(6)));
    }
}
PROP(unreduced, 200000, 4000000) {
    mpz_class x = md(wide(g), M384()), y = md(wide(g), M384());
    c.nontrivial(nt(x) && nt(y));
    unsigned k = unsigned(g.below(3));
    c.note([&] { return "unreduced op " + std::to_string(k) + " x=" + zs(x) + " y=" + zs(y); });
    if (k == 0) bin(g, B::_ladd, "ladd", x, y, md(x + y, M384()));
    else if (k == 1) un(g, B::_ldouble, "ldouble", x, md(2 * x, M384()));
    else { c.label(x < y ? "lsub borrows" : "lsub no borrow"); bin(g, B::_lsubtract, "lsubtract", x, y, md(x - y, M384())); }
}
// one unreduced operation before a multiplication, both operands
PROP(lazy_multiply, 250000, 5000000) {
    mpz_class v[2];
    B::fp e[2];
    std::string d;
    for (int i = 0; i < 2; i++) {
        mpz_class a = op(g), b = op2(g, a);
        B::fp fa = FI(a), fb = FI(b);
        unsigned k = unsigned(g.below(4));
        switch (k) {
        case 0: B::_ladd(&e[i], &fa, &fb); v[i] = a + b; break;
        case 1: B::_ldouble(&e[i], &fa); v[i] = 2 * a; break;
        case 2: // an unreduced subtraction is only meaningful when it does not borrow
            if (a < b) { std::swap(a, b); std::swap(fa, fb); }
            B::_lsubtract(&e[i], &fa, &fb);
            v[i] = a - b;
            break;
        default: e[i] = fa; v[i] = a;
        }
        d += " op" + std::to_string(k) + "(" + zs(a) + "," + zs(b) + ")";
    }
    c.nontrivial(nt(md(v[0], P)) && nt(md(v[1], P)));
    c.note([&] { return "multiply of" + d; });
    bool sq = g.chance(1, 3);
    B::fp z;
    mpz_class want;
    if (sq) { z = e[0]; B::_multiply(&z, &z, &z); want = md(v[0] * v[0] * RINV(), P); }
    else { B::_multiply(&z, &e[0], &e[1]); want = md(v[0] * v[1] * RINV(), P); }
    CHECK(I(z) == want, (sq ? "square" : "product") << " of lazily reduced operands" << d << " = " << zs(I(z)) << ", expected " << zs(want));
    if (g.flip()) {
        B::fp s;
        B::_square(&s, &e[0]);
        mpz_class w = md(v[0] * v[0] * RINV(), P);
        CHECK(I(s) == w, "square of lazily reduced operand" << d << " = " << zs(I(s)) << ", expected " << zs(w));
    }
}
// methods of the field class, including in-place use with the argument being the object itself
PROP(methods, 200000, 4000000) {
    mpz_class x = op(g), y = op2(g, x);
    c.nontrivial(nt(x) && nt(y));
    const B::fp a = FI(x), b = FI(y);
    B::fp t = a;
    unsigned k = unsigned(g.below(9));
    c.note([&] { return "method " + std::to_string(k) + " x=" + zs(x) + " y=" + zs(y); });
    bool self = g.chance(1, 4);
    if (self) y = x;
    const B::fp& rhs = self ? a : b;
    switch (k) {
    case 0: eq(a.add(rhs), md(x + y, P), "fp::add", x, y); t.addAssign(self ? t : b); eq(t, md(x + y, P), "fp::addAssign", x, y); break;
    case 1: eq(a.subtract(rhs), md(x - y, P), "fp::subtract", x, y); t.subtractAssign(self ? t : b); eq(t, md(x - y, P), "fp::subtractAssign", x, y); break;
    case 2: eq(a.multiply(rhs), md(x * y * RINV(), P), "fp::multiply", x, y); t.multiplyAssign(self ? t : b); eq(t, md(x * y * RINV(), P), "fp::multiplyAssign", x, y); break;
    case 3: eq(a.square(), md(x * x * RINV(), P), "fp::square", x, x); t.squareAssign(); eq(t, md(x * x * RINV(), P), "fp::squareAssign", x, x); break;
    case 4: eq(a.dbl(), md(2 * x, P), "fp::dbl", x, x); t.doubleAssign(); eq(t, md(2 * x, P), "fp::doubleAssign", x, x); break;
    case 5: eq(a.negate(), md(-x, P), "fp::negate", x, x); break;
    case 6: eq(a.toMont(), md(x * M384(), P), "toMont", x, x); eq(a.toMont().fromMont(), x, "fromMont(toMont)", x, x); break;
    case 7: eq(a.fromMont(), md(x * RINV(), P), "fromMont", x, x); eq(a.fromMont().toMont(), x, "toMont(fromMont)", x, x); break;
    default:
        CHECK(a.equal(b) == (I(a) == I(b)), "equal(" << zs(x) << ", " << zs(I(b)) << ")");
        CHECK(a.isZero() == (x == 0), "isZero(" << zs(x) << ")");
        CHECK(a.isOne() == (x == md(M384(), P)), "isOne(" << zs(x) << ")");
        eq(B::fp::zero(), 0, "zero", 0, 0);
        eq(B::fp::one(), md(M384(), P), "one", 0, 0);
        CHECK(I(B::fp::MODULUS) == P, "modulus constant");
    }
    CHECK(I(a) == x, "operand modified");
}
// all pairs over a fixed set of extreme operands
PROP(extreme_pairs, 20000, 20000) {
    static const std::vector<mpz_class> s = [] {
        std::vector<mpz_class> v;
        for (long i = 0; i < 3; i++) { v.push_back(i); v.push_back(P - 1 - i); v.push_back((P - 1) / 2 + i - 1); }
        for (int i = 1; i < 6; i++) { v.push_back(mpz_class(1) << (64 * i)); v.push_back((mpz_class(1) << (64 * i)) - 1); v.push_back(P - (mpz_class(1) << (64 * i))); v.push_back(P - (mpz_class(1) << (64 * i)) + 1); }
        mpz_class m = md(M384(), P);
        for (long i = -1; i < 2; i++) v.push_back(m + i);
        for (int i = 0; i < 6; i++) { // single all-ones limb, and all-ones except one limb
            mpz_class w = ((mpz_class(1) << 64) - 1) << (64 * i);
            if (w < P) v.push_back(w);
            mpz_class u = ((mpz_class(1) << 380) - 1) - w;
            if (u >= 0 && u < P) v.push_back(u);
        }
        v.push_back((mpz_class(1) << 380) - 1);
        v.push_back(mpz_class(1) << 380);
        return v;
    }();
    size_t n = s.size();
    size_t i = g.below(n), j = g.below(n);
    const mpz_class &x = s[i], &y = s[j];
    c.nontrivial(nt(x) && nt(y));
    c.note([&] { return "all operations on x=" + zs(x) + " y=" + zs(y); });
    bin(g, B::_add, "add", x, y, md(x + y, P));
    bin(g, B::_subtract, "subtract", x, y, md(x - y, P));
    bin(g, [](B::fp* z, const B::fp* a, const B::fp* b) { B::_multiply(z, a, b); }, "multiply", x, y, md(x * y * RINV(), P));
    un(g, B::_square, "square", x, md(x * x * RINV(), P));
    un(g, B::_double, "double", x, md(2 * x, P));
    un(g, B::_negate, "negate", x, md(-x, P));
}
