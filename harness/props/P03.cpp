#include "../common.hpp"
using namespace ref;
PROPERTY("P03")

// F2 coefficients placed at powers of w
static F12 at(std::initializer_list<std::pair<int, F2>> l) {
    F2 t[2][3];
    for (auto& r : t) for (auto& x : r) x = F2::zero();
    for (auto& [k, x] : l) t[k & 1][k >> 1] = x;
    return from_tower(t);
}
static const F2& XI() { static const F2 x{F::one(), F::one()}; return x; }

// one algebra per level: Lib type, reference type and the bridge
struct A2 {
    typedef B::fp2 T;
    typedef F2 M;
    static M gen(Gen& g) { return genF2(g); }
    static T l(const M& m) { return L(m); }
    static M v(const T& t, const char* w) { return V(t, w); }
    static const char* n() { return "fp2"; }
    static M zero() { return F2::zero(); }
    static M one() { return F2::one(); }
};
struct A6 {
    typedef B::fp6 T;
    typedef F12 M;
    static M gen(Gen& g) { return genF6(g); }
    static T l(const M& m) { return L6(m); }
    static M v(const T& t, const char* w) { return V(t, w); }
    static const char* n() { return "fp6"; }
    static M zero() { return F12::zero(); }
    static M one() { return F12::one(); }
};
struct A12 {
    typedef B::fp12 T;
    typedef F12 M;
    static M gen(Gen& g) { return genF12(g); }
    static T l(const M& m) { return L(m); }
    static M v(const T& t, const char* w) { return V(t, w); }
    static const char* n() { return "fp12"; }
    static M zero() { return F12::zero(); }
    static M one() { return F12::one(); }
};
template<class A> static typename A::M second(Gen& g, const typename A::M& x) {
    switch (g.weighted({6, 1, 1, 1})) {
    case 0: return A::gen(g);
    case 1: return x;
    case 2: return -x;
    default: return A::one() - x;
    }
}
template<class A> static bool nontriv(const typename A::M& x) { return x != A::zero() && x != A::one(); }
#define SAME(GOT, WANT, WHAT)                                                                        \
    do {                                                                                             \
        auto got_ = A::v(GOT, WHAT);                                                                 \
        CHECK(got_ == (WANT), A::n() << " " << WHAT << " of x=" << x.str() << " y=" << y.str() << " gives " << got_.str() << ", expected " << (WANT).str()); \
    } while (0)

template<class A> static void ring(Gen& g, Ctx& c) {
    typedef typename A::T T;
    typedef typename A::M M;
    M x = A::gen(g), y = second<A>(g, x);
    c.nontrivial(nontriv<A>(x) && nontriv<A>(y));
    unsigned k = unsigned(g.below(8));
    static const char* names[] = {"add", "subtract", "double", "negate", "multiply", "square", "predicates", "self-aliased"};
    c.label(names[k]);
    c.note([&] { return std::string(A::n()) + " " + names[k] + " x=" + x.str() + " y=" + y.str(); });
    const T a = A::l(x), b = A::l(y);
    T t = a;
    switch (k) {
    case 0: SAME(a.add(b), x + y, "add"); t.addAssign(b); SAME(t, x + y, "addAssign"); break;
    case 1: SAME(a.subtract(b), x - y, "subtract"); t.subtractAssign(b); SAME(t, x - y, "subtractAssign"); break;
    case 2: SAME(a.dbl(), x + x, "dbl"); t.doubleAssign(); SAME(t, x + x, "doubleAssign"); break;
    case 3: SAME(a.negate(), -x, "negate"); break;
    case 4: SAME(a.multiply(b), x * y, "multiply"); t.multiplyAssign(b); SAME(t, x * y, "multiplyAssign"); break;
    case 5: SAME(a.square(), x * x, "square"); t.squareAssign(); SAME(t, x * x, "squareAssign"); break;
    case 6: {
        // equality, zero and one by value; y is x with at most one changed coefficient in half of the cases
        M z = x;
        if (g.flip()) {
            if constexpr (std::is_same_v<M, F2>) { F d = g.flip() ? F::one() : genF(g); if (g.flip()) z.a = z.a + d; else z.b = z.b + d; }
            else {
                F2 d{g.flip() ? F::one() : genF(g), F::zero()};
                if (g.flip()) std::swap(d.a, d.b);
                z = z + at({{int(g.below(std::is_same_v<A, A6> ? 3 : 6)) * (std::is_same_v<A, A6> ? 2 : 1), d}});
            }
        } else z = y;
        const T d = A::l(z);
        CHECK(a.equal(d) == (x == z) && d.equal(a) == (x == z), A::n() << " equal(" << x.str() << ", " << z.str() << ")");
        CHECK(a.equal(a), A::n() << " equal to itself");
        CHECK(a.isZero() == (x == A::zero()) && a.isOne() == (x == A::one()), A::n() << " isZero/isOne(" << x.str() << ")");
        M diff = z - x, q = diff + A::one();
        CHECK(A::l(diff).isZero() == (x == z) && A::l(q).isOne() == (x == z), A::n() << " isZero/isOne near " << z.str());
        SAME(T::zero(), A::zero(), "zero()");
        SAME(T::one(), A::one(), "one()");
        SAME(T(), A::zero(), "default construction");
        T cp(a);
        SAME(cp, x, "copy");
        break;
    }
    default:
        t.addAssign(t); SAME(t, x + x, "addAssign(self)");
        t = a; t.multiplyAssign(t); SAME(t, x * x, "multiplyAssign(self)");
        t = a; t.subtractAssign(t); SAME(t, A::zero(), "subtractAssign(self)");
        SAME(a.multiply(a), x * x, "multiply(self)");
        SAME(a.add(a), x + x, "add(self)");
        SAME(a.subtract(a), A::zero(), "subtract(self)");
    }
    SAME(a, x, "operand after the call");
    SAME(b, y, "second operand after the call");
}
PROP(ring_fp2, 150000, 3000000) { ring<A2>(g, c); }
PROP(ring_fp6, 60000, 1500000) { ring<A6>(g, c); }
PROP(ring_fp12, 40000, 1000000) { ring<A12>(g, c); }

template<class A> static void inv(Gen& g, Ctx& c) {
    auto x = A::gen(g);
    auto& y = x;
    c.nontrivial(nontriv<A>(x));
    c.note([&] { return std::string(A::n()) + " inverse of " + x.str(); });
    auto r = A::v(A::l(x).inverse(), "inverse");
    if (x == A::zero()) { CHECK(r == A::zero(), A::n() << " inverse(0) = " << r.str()); return; }
    CHECK(r * x == A::one(), A::n() << " inverse(" << x.str() << ") = " << r.str());
    auto t = A::l(x).multiply(A::l(x).inverse());
    SAME(t, A::one(), "x * inverse(x)");
}
PROP(inverse_fp2, 15000, 400000) { inv<A2>(g, c); }
PROP(inverse_fp6, 12000, 300000) { inv<A6>(g, c); }
PROP(inverse_fp12, 10000, 250000) { inv<A12>(g, c); }

template<size_t N, class A> static void powN(Gen& g, Ctx& c, const typename A::M& x) {
    mpz_class e = genBits(g, N);
    std::array<uint64_t, N> s;
    z_limbs(e, s.data(), N);
    c.nontrivial(nontriv<A>(x) && e > 1);
    c.note([&] { return std::string(A::n()) + " " + x.str() + " ^ " + zs(e); });
    auto r = A::v(A::l(x).exp(s), "exp");
    CHECK(r == x.pow(e), A::n() << " " << x.str() << " ^ " << zs(e) << " = " << r.str() << ", expected " << x.pow(e).str());
}
template<class A> static void powA(Gen& g, Ctx& c) {
    auto x = A::gen(g);
    switch (g.below(4)) {
    case 0: powN<1, A>(g, c, x); break;
    case 1: powN<2, A>(g, c, x); break;
    case 2: powN<4, A>(g, c, x); break;
    default: powN<6, A>(g, c, x);
    }
}
PROP(power_fp2, 4000, 80000) { powA<A2>(g, c); }
PROP(power_fp6, 1500, 40000) { powA<A6>(g, c); }
PROP(power_fp12, 1000, 30000) { powA<A12>(g, c); }

PROP(special_fp2, 100000, 2000000) {
    typedef A2 A;
    F2 x = genF2(g), y = F2::zero();
    F f = genF(g);
    c.nontrivial(nontriv<A>(x));
    c.note([&] { return "fp2 specialised products of " + x.str() + " and " + f.str(); });
    const B::fp2 a = L(x);
    SAME(a.mulByNonResidue(), x * XI(), "mulByNonResidue");
    SAME(a.mulByB(), x * (F2{F::of(4), F::of(4)}), "mulByB");
    y = F2{f, F::zero()};
    SAME(a.mulByFq(L(f)), x * y, "mulByFq");
    SAME(a.conjugate(), x.conj(), "conjugate");
    B::fp2 t = a;
    t = t.mulByNonResidue(); // result assigned over its operand
    SAME(t, x * XI(), "mulByNonResidue in place");
    SAME(a.mulByFq(a.c0), x * (F2{x.a, F::zero()}), "mulByFq(own coefficient)");
    SAME(a, x, "operand after the call");
}
PROP(special_fp6, 40000, 1000000) {
    typedef A6 A;
    F12 x = genF6(g);
    F2 p = genF2(g), q = g.chance(1, 4) ? -p : genF2(g);
    F12 y = at({{0, p}, {2, q}});
    c.nontrivial(nontriv<A>(x) && !p.is_zero() && !q.is_zero());
    c.note([&] { return "fp6 specialised products of " + x.str() + " and (" + p.str() + ", " + q.str() + ")"; });
    const B::fp6 a = L6(x);
    B::fp6 t = a;
    SAME(a.mulBy01(L(p), L(q)), x * y, "mulBy01");
    t.mulBy01Assign(L(p), L(q));
    SAME(t, x * y, "mulBy01Assign");
    SAME(a.mulBy1(L(q)), x * at({{2, q}}), "mulBy1");
    SAME(a.mulByNonResidue(), x * at({{2, F2::one()}}), "mulByNonResidue");
    SAME(a.mulByBaseField(L(p)), x * at({{0, p}}), "mulByBaseField");
    {
        // arguments that are the object's own coefficients
        F2 tw[2][3];
        to_tower(x, tw);
        const F2* own = tw[0];
        const B::fp2 B::fp6::* mem[3] = {&B::fp6::c0, &B::fp6::c1, &B::fp6::c2};
        unsigned i = unsigned(g.below(3)), j = unsigned(g.below(4));
        F2 u = own[i], v = j < 3 ? own[j] : q;
        const B::fp2 lq = L(q);
        F12 w = at({{0, u}, {2, v}});
        t = a;
        t.mulBy01Assign(t.*mem[i], j < 3 ? t.*mem[j] : lq);
        SAME(t, x * w, "mulBy01Assign(own coefficients)");
        t = a;
        t.mulBy01Assign(j < 3 ? t.*mem[j] : lq, t.*mem[i]);
        SAME(t, x * at({{0, v}, {2, u}}), "mulBy01Assign(own coefficients swapped)");
        SAME(a.mulBy01(a.*mem[i], j < 3 ? a.*mem[j] : lq), x * w, "mulBy01(own coefficients)");
        t = a;
        t = t.mulBy1(t.*mem[i]);
        SAME(t, x * at({{2, u}}), "mulBy1(own coefficient) in place");
        t = a;
        t = t.mulByBaseField(t.*mem[i]);
        SAME(t, x * at({{0, u}}), "mulByBaseField(own coefficient) in place");
    }
    SAME(a, x, "operand after the call");
}
PROP(special_fp12, 30000, 800000) {
    typedef A12 A;
    F12 x = genF12(g);
    F2 p = genF2(g), q = genF2(g), s = g.chance(1, 4) ? -q : genF2(g);
    F12 y = at({{0, p}, {2, q}, {3, s}});
    c.nontrivial(nontriv<A>(x) && !q.is_zero() && !s.is_zero());
    c.note([&] { return "fp12 sparse product of " + x.str() + " and (" + p.str() + ", " + q.str() + ", " + s.str() + ")"; });
    const B::fp12 a = L(x);
    B::fp12 t = a;
    t.mulBy014Assign(L(p), L(q), L(s));
    SAME(t, x * y, "mulBy014Assign");
    {
        // arguments that are the object's own coefficients
        F2 tw[2][3];
        to_tower(x, tw);
        B::fp6 B::fp12::* const half[2] = {&B::fp12::c0, &B::fp12::c1};
        B::fp2 B::fp6::* const part[3] = {&B::fp6::c0, &B::fp6::c1, &B::fp6::c2};
        unsigned i[3], h[3];
        for (int k = 0; k < 3; k++) { h[k] = unsigned(g.below(2)); i[k] = unsigned(g.below(3)); }
        t = a;
        t.mulBy014Assign((t.*half[h[0]]).*part[i[0]], (t.*half[h[1]]).*part[i[1]], (t.*half[h[2]]).*part[i[2]]);
        SAME(t, x * at({{0, tw[h[0]][i[0]]}, {2, tw[h[1]][i[1]]}, {3, tw[h[2]][i[2]]}}), "mulBy014Assign(own coefficients)");
    }
    F12 cj = x;
    for (int i = 1; i < 12; i += 2) cj.c[i] = -cj.c[i];
    SAME(a.conjugate(), cj, "conjugate");
    // (e0 + e1 y)^2 over y^2 = xi
    auto [r0, r1] = B::fp12::fp4Square(L(p), L(q));
    CHECK(V(r0) == p * p + q * q * XI() && V(r1) == p * q + p * q, "fp4Square(" << p.str() << ", " << q.str() << ")");
    SAME(a, x, "operand after the call");
}
