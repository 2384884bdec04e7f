#include "../common.hpp"
using namespace ref;
PROPERTY("P16")
extern bool g_need_points;
static bool np = (g_need_points = true);
namespace pr = B::pairing;
typedef std::vector<std::tuple<B::g1, B::g2>> Pairs;

static const F12& E() { static const F12 e = pairing(G1gen(), G2gen()); return e; }
static B::fp12 lib(const B::g1& a, const B::g2& b) {
    Pairs v;
    pr::add_pair(v, a, b);
    return pr::calculate(v);
}
#define AT " at (" << a.p.str() << ", " << b.p.str() << ")"

PROP(value_from_logarithms, 3000, 60000) {
    K1 a = genSub1(g);
    K2 b = genSub2(g);
    B::g1 p = rep(g, a.p), p0 = p;
    B::g2 q = rep(g, b.p), q0 = q;
    c.nontrivial(!a.p.inf && !b.p.inf);
    c.note([&] { return "logarithms " + zs(a.k) + ", " + zs(b.k) + " as " + rawstr(p) + " " + rawstr(q); });
    B::fp12 f = lib(p, q);
    F12 w = E().pow(a.k * b.k % R);
    CHECK(V(f) == w, "pairing = " << V(f).str() << ", expected " << w.str() << AT);
    CHECK(f.isGtValid(), "pairing value is not accepted as a member of the target group" << AT);
    CHECK(f.isOne() == (a.p.inf || b.p.inf) && f.equal(B::fp12::one()) == f.isOne(), "pairing is one: " << f.isOne() << AT);
    CHECK(same(p, p0) && same(q, q0), "arguments changed");
    // the same pair handed over directly, normalised
    Pairs v{{LA(a.p), LA(b.p)}};
    CHECK(V(pr::calculate(v)) == w, "pairing of the normalised pair = " << V(pr::calculate(v)).str() << AT);
    B::fp12 m = pr::miller_loop(v, {});
    pr::final_exponentiation(m);
    CHECK(V(m) == w, "final exponentiation of the Miller loop differs" << AT);
}
PROP(value_from_definition, 400, 6000) {
    K1 a = genSub1(g);
    K2 b = genSub2(g);
    c.nontrivial(!a.p.inf && !b.p.inf);
    c.note([&] { return a.p.str() + " " + b.p.str(); });
    F12 w = pairing(a.p, b.p);
    F12 v = V(lib(rep(g, a.p), rep(g, b.p)));
    CHECK(v == w, "pairing = " << v.str() << ", expected " << w.str() << AT);
}
PROP(bilinear, 1500, 30000) {
    K1 a = genSub1(g);
    K2 b = genSub2(g);
    B::g1 p = rep(g, a.p);
    B::g2 q = rep(g, b.p);
    c.nontrivial(!a.p.inf && !b.p.inf);
    c.note([&] { return a.p.str() + " " + b.p.str(); });
    F12 e = V(lib(p, q));
    switch (g.below(5)) {
    case 0: {
        mpz_class k = genScalar(g);
        F12 w = e.pow(k);
        CHECK(V(lib(p.scale(S4(k)), q)) == w, "e(kP,Q) is not e(P,Q)^k for k=" << zs(k) << AT);
        CHECK(V(lib(p, q.scale(S4(k)))) == w, "e(P,kQ) is not e(P,Q)^k for k=" << zs(k) << AT);
        break;
    }
    case 1: {
        K1 a2 = g.chance(1, 4) ? a : genSub1(g);
        B::g1 p2 = rep(g, a2.p);
        CHECK(V(lib(p.add(p2), q)) == e * V(lib(p2, q)), "e(P+P',Q) is not e(P,Q)e(P',Q) with P'=" << a2.p.str() << AT);
        break;
    }
    case 2: {
        K2 b2 = g.chance(1, 4) ? b : genSub2(g);
        B::g2 q2 = rep(g, b2.p);
        CHECK(V(lib(p, q.add(q2))) == e * V(lib(p, q2)), "e(P,Q+Q') is not e(P,Q)e(P,Q') with Q'=" << b2.p.str() << AT);
        break;
    }
    case 3: {
        F12 i = e.inv();
        CHECK(V(lib(p.negate(), q)) == i && V(lib(p, q.negate())) == i, "e(-P,Q) is not the inverse of e(P,Q)" << AT);
        CHECK(V(lib(p.negate(), q.negate())) == e, "e(-P,-Q) is not e(P,Q)" << AT);
        break;
    }
    default: {
        mpz_class k = genKey(g), l = genKey(g);
        CHECK(V(lib(p.scale(S4(k)), q.scale(S4(l)))) == V(lib(p.scale(S4(l)), q.scale(S4(k)))), "e(kP,lQ) is not e(lP,kQ)" << AT);
    }
    }
}
PROP(final_exponentiation, 600, 10000) {
    F12 x;
    switch (g.weighted({5, 1, 1, 1, 1})) {
    case 0: x = genF12(g); break;
    case 1: x = genF6(g); break;
    case 2: { F2 a = genF2(g); x = emb(a); break; }
    case 3: { // roots of unity: an element of order dividing (p^12-1)/r, or of order r
        x = g.flip() ? genF12(g).pow(R) : E().pow(genScalar(g));
        break;
    }
    default: x = F12::zero(); x.c[g.below(12)] = genF(g);
    }
    if (x.is_zero()) x = F12::one();
    c.nontrivial(!(x == F12::one()));
    c.note([&] { return x.str(); });
    B::fp12 f = L(x);
    pr::final_exponentiation(f);
    F12 w = final_exp(x, PAIRING_MULT);
    CHECK(V(f) == w, "final exponentiation of " << x.str() << " = " << V(f).str() << ", expected " << w.str());
    CHECK(f.isGtValid(), "final exponentiation of " << x.str() << " is not in the target group");
}
