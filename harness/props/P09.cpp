#include "../common.hpp"
using namespace ref;
PROPERTY("P09")
extern bool g_need_points;
static bool np = (g_need_points = true);

// ---- endomorphisms from their definitions --------------------------------------------------------
static const mpz_class& BX() { static const mpz_class x = -mpz_class((unsigned long)X); return x; } // the (negative) curve parameter
static mpz_class modR(const mpz_class& z) { mpz_class r; mpz_mod(r.get_mpz_t(), z.get_mpz_t(), R.get_mpz_t()); return r; }
// beta such that (beta x, y) = [lambda](x, y) on the subgroup; lambda is a cube root of unity modulo r
static const F& beta() {
    static const F b = [] {
        F w = F::of(2).pow((P - 1) / 3);
        P1 g = G1gen();
        P1 want = g1mul(modR(BX() * BX() - 1)); // the eigenvalue of the map used by the subgroup test
        if (P1::of(w * g.x, g.y) == want) return w;
        w = w * w;
        if (P1::of(w * g.x, g.y) == want) return w;
        throw std::logic_error("no cube root of unity acts as x^2-1");
    }();
    return b;
}
static P1 glv(const P1& p) { return p.inf ? p : P1::of(beta() * p.x, p.y); }
static P2 psi(const P2& p) {
    static const F2 xi{F::one(), F::one()};
    static const F2 cx = xi.pow((P - 1) / 3).inv(), cy = xi.pow((P - 1) / 2).inv();
    return p.inf ? p : P2::of(cx * p.x.conj(), cy * p.y.conj());
}

// ---- on-curve test -------------------------------------------------------------------------------
template<class K> static K gk(Gen& g);
template<> F gk<F>(Gen& g) { return genF(g); }
template<> F2 gk<F2>(Gen& g) { return genF2(g); }
static B::g1 mk(const F& x, const F& y, const F& z) { return B::g1({L(x), L(y), L(z)}); }
static B::g2 mk(const F2& x, const F2& y, const F2& z) { return B::g2({L(x), L(y), L(z)}); }
template<class K, class PT> static void oncurve(Gen& g, Ctx& c, PT (*gp)(Gen&, int*), const char* name) {
    K x, y, z;
    unsigned mode = unsigned(g.weighted({4, 2, 3, 3, 3, 1}));
    PT p = gp(g, nullptr);
    if (p.inf && mode != 0 && mode != 1) mode = 5;
    K l = gk<K>(g);
    if (l.is_zero()) l = K::one();
    const char* what;
    switch (mode) {
    case 0: // a point of the curve
        what = "point";
        x = p.inf ? gk<K>(g) : p.x * l * l; y = p.inf ? gk<K>(g) : p.y * l * l * l; z = p.inf ? K::zero() : l;
        break;
    case 1: what = "z = 0"; x = gk<K>(g); y = gk<K>(g); z = K::zero(); break;
    case 2: { // one coordinate changed
        what = "perturbed coordinate";
        x = p.x * l * l; y = p.y * l * l * l; z = l;
        K d = gk<K>(g);
        switch (g.below(3)) {
        case 0: x = x + d; break;
        case 1: y = y + d; break;
        default: z = z + d;
        }
        break;
    }
    case 3: { // scaled with the wrong powers: satisfies y^2 = x^3 + b z^k for some k other than 6
        what = "wrong weights";
        x = p.x; y = p.y; z = l;
        unsigned i = unsigned(g.below(4)), j = unsigned(g.below(4));
        for (unsigned k = 0; k < i; k++) x = x * l;
        for (unsigned k = 0; k < j; k++) y = y * l;
        break;
    }
    case 4: { // a point of another curve y^2 = x^3 + b'
        what = "other curve";
        x = p.x; y = p.y;
        switch (g.below(4)) {
        case 0: y = -y * (K::one() + K::one()); break;
        case 1: x = -x; break;
        case 2: y = y + K::one(); break;
        default: x = x + K::one();
        }
        x = x * l * l; y = y * l * l * l; z = l;
        break;
    }
    default: what = "random triple"; x = gk<K>(g); y = gk<K>(g); z = gk<K>(g);
    }
    K z2 = z * z, z6 = z2 * z2 * z2;
    bool want = z.is_zero() || y * y == x * x * x + Curve<K>::b() * z6;
    auto a = mk(x, y, z);
    auto a0 = a;
    c.nontrivial(!z.is_zero());
    c.label(std::string(what) + (want ? ": on the curve" : ": off the curve"));
    c.note([&] { return std::string(name) + " triple " + x.str() + " " + y.str() + " " + z.str(); });
    CHECK(a.isOnCurve() == want, name << " isOnCurve(" << x.str() << ", " << y.str() << ", " << z.str() << ") = " << !want << " (" << what << ")");
    CHECK(same(a, a0), "isOnCurve modified its operand");
}
PROP(g1_on_curve, 60000, 1500000) { oncurve<F, P1>(g, c, genP1, "g1"); }
PROP(g2_on_curve, 40000, 1000000) { oncurve<F2, P2>(g, c, genP2, "g2"); }

// ---- subgroup membership -------------------------------------------------------------------------
template<class PT, class G> static void member(Gen& g, Ctx& c, const PT& p, int kind, const char* name) {
    bool want = kind <= 1 ? true : p.in_subgroup();
    G a = rep(g, p), a0 = a;
    c.nontrivial(!p.inf);
    c.label(std::string(kindName(kind)) + (want ? ": member" : ": not a member"));
    c.note([&] { return std::string(name) + " " + kindName(kind) + " point " + p.str(); });
    CHECK(a.inCorrectSubgroup() == want, name << " inCorrectSubgroup of " << p.str() << " as " << rawstr(a) << " (" << kindName(kind) << ") = " << !want);
    CHECK(same(a, a0), "inCorrectSubgroup modified its operand");
}
PROP(g1_subgroup, 8000, 200000) { int k; P1 p = genP1(g, &k); member<P1, B::g1>(g, c, p, k, "g1"); }
PROP(g2_subgroup, 5000, 120000) { int k; P2 p = genP2(g, &k); member<P2, B::g2>(g, c, p, k, "g2"); }
// small-order components only, and on top of a subgroup point: never a member
PROP(g1_subgroup_small_order, 10000, 250000) {
    P1 t = genTorsion1(g), p = g.flip() ? t : genSub1(g).p + t;
    B::g1 a = rep(g, p);
    c.nontrivial(true);
    c.note([&] { return "g1 " + p.str() + " with cofactor component " + t.str(); });
    CHECK(!a.inCorrectSubgroup(), "g1 inCorrectSubgroup accepts " << p.str() << " as " << rawstr(a) << ", which has the cofactor component " << t.str());
}
PROP(g2_subgroup_small_order, 6000, 150000) {
    P2 t = genTorsion2(g), p = g.flip() ? t : genSub2(g).p + t;
    B::g2 a = rep(g, p);
    c.nontrivial(true);
    c.note([&] { return "g2 " + p.str() + " with cofactor component " + t.str(); });
    CHECK(!a.inCorrectSubgroup(), "g2 inCorrectSubgroup accepts " << p.str() << " as " << rawstr(a) << ", which has the cofactor component " << t.str());
}
// every element of the small torsion subgroups (orders 3 and 11 on G1, 13 and 23 on G2), by index
template<class PT> static const std::vector<PT>& small(unsigned l, const mpz_class& n, PT (*gp)(Gen&)) {
    static std::map<unsigned, std::vector<PT>> cache;
    auto& v = cache[l];
    if (!v.empty()) return v;
    Gen g = Gen::derived(l);
    PT a = PT::infinity(), b = PT::infinity();
    std::vector<PT> ma;
    for (int i = 0; i < 4000; i++) {
        PT t = gp(g);
        // keep the component of order l
        mpz_class m = n;
        while (m % l == 0) m /= l;
        t = t.mul(m);
        while (!t.inf && !t.mul(l).inf) t = t.mul(l);
        if (t.inf) continue;
        if (a.inf) {
            a = t;
            for (unsigned k = 0; k < l; k++) ma.push_back(a.mul(k));
            if (l == 3) break;
            continue;
        }
        bool dep = false;
        for (auto& x : ma) dep = dep || x == t;
        if (!dep) { b = t; break; }
    }
    for (unsigned k = 0; k < (b.inf ? 1u : l); k++) { PT kb = b.mul(k); for (auto& x : ma) v.push_back(x + kb); }
    return v;
}
static P1 anyT1(Gen& g) { for (;;) { auto p = lift1(F::of(mpz_class((unsigned long)g.raw()))); if (p) return *p; } }
static P2 anyT2(Gen& g) { for (;;) { auto p = lift2({F::of(mpz_class((unsigned long)g.raw())), F::of(mpz_class((unsigned long)g.raw()))}); if (p) return *p; } }
PROP(g1_full_small_torsion, 2000, 20000) {
    auto& v = small<P1>(g.flip() ? 11 : 3, H1 * R, anyT1);
    P1 t = v[g.below(v.size())];
    P1 s = g.flip() ? genSub1(g).p : P1::infinity(), p = t + s;
    c.nontrivial(!t.inf);
    c.label("torsion subgroup of " + std::to_string(v.size()) + " elements");
    c.note([&] { return "g1 torsion element " + t.str() + " plus " + s.str(); });
    CHECK(LA(p).inCorrectSubgroup() == t.inf, "g1 inCorrectSubgroup of torsion element " << t.str() << " plus subgroup point " << s.str());
}
PROP(g2_full_small_torsion, 2000, 20000) {
    auto& v = small<P2>(g.flip() ? 23 : 13, H2 * R, anyT2);
    P2 t = v[g.below(v.size())];
    P2 s = g.flip() ? genSub2(g).p : P2::infinity(), p = t + s;
    c.nontrivial(!t.inf);
    c.label("torsion subgroup of " + std::to_string(v.size()) + " elements");
    c.note([&] { return "g2 torsion element " + t.str() + " plus " + s.str(); });
    CHECK(LA(p).inCorrectSubgroup() == t.inf, "g2 inCorrectSubgroup of torsion element " << t.str() << " plus subgroup point " << s.str());
}

// ---- cofactor clearing ---------------------------------------------------------------------------
PROP(g1_clear_cofactor, 4000, 100000) {
    int k;
    P1 p = genP1(g, &k), w = p.mul(H1EFF);
    B::g1 a = rep(g, p), a0 = a;
    c.nontrivial(!p.inf);
    c.label(kindName(k));
    c.note([&] { return "g1 clearCofactor " + p.str(); });
    B::g1 r = a.clearCofactor();
    CHECK(V(r, "clearCofactor") == w, "g1 clearCofactor of " << p.str() << " as " << rawstr(a) << " = " << V(r).str() << ", expected " << w.str());
    CHECK(r.inCorrectSubgroup() && w.in_subgroup(), "g1 clearCofactor of " << p.str() << " is not in the subgroup");
    CHECK(same(a, a0), "clearCofactor modified its operand");
}
PROP(g2_clear_cofactor, 1600, 40000) {
    int k;
    P2 p = genP2(g, &k), w = p.mul(H2EFF);
    B::g2 a = rep(g, p), a0 = a;
    c.nontrivial(!p.inf);
    c.label(kindName(k));
    c.note([&] { return "g2 clearCofactor " + p.str(); });
    B::g2 r = a.clearCofactor();
    CHECK(V(r, "clearCofactor") == w, "g2 clearCofactor of " << p.str() << " as " << rawstr(a) << " = " << V(r).str() << ", expected " << w.str());
    CHECK(r.inCorrectSubgroup() && w.in_subgroup(), "g2 clearCofactor of " << p.str() << " is not in the subgroup");
    CHECK(same(a, a0), "clearCofactor modified its operand");
}

// ---- endomorphisms -------------------------------------------------------------------------------
PROP(g1_endomorphism, 30000, 800000) {
    int k;
    P1 p = genP1(g, &k), w = glv(p);
    B::g1 a = rep(g, p), a0 = a;
    c.nontrivial(!p.inf);
    c.note([&] { return "g1 endomorphism of " + p.str(); });
    P1 r = V(a.glvEndomorphism(), "glvEndomorphism");
    CHECK(r == w, "g1 glvEndomorphism of " << p.str() << " as " << rawstr(a) << " = " << r.str() << ", expected " << w.str());
    CHECK(same(a, a0), "glvEndomorphism modified its operand");
}
PROP(g1_eigenvalue, 6000, 150000) {
    K1 s = genSub1(g);
    P1 w = g1mul(modR(s.k * (BX() * BX() - 1)));
    c.nontrivial(!s.p.inf);
    c.note([&] { return "g1 eigenvalue on " + zs(s.k) + "*G"; });
    CHECK(V(rep(g, s.p).glvEndomorphism(), "glvEndomorphism") == w, "g1 glvEndomorphism is not multiplication by x^2-1 on " << s.p.str());
}
PROP(g2_endomorphism, 30000, 800000) {
    int k;
    P2 p = genP2(g, &k);
    B::g2 a = rep(g, p), a0 = a;
    int64_t n = int64_t(g.chance(1, 8) ? g.below(40) : g.below(8));
    P2 w = p;
    for (int64_t i = 0; i < n; i++) w = psi(w);
    c.nontrivial(!p.inf);
    c.label("power " + std::to_string(n));
    c.note([&] { return "g2 psi^" + std::to_string(n) + " of " + p.str(); });
    P2 r = V(a.psi(), "psi");
    CHECK(r == psi(p), "g2 psi of " << p.str() << " as " << rawstr(a) << " = " << r.str());
    r = V(a.frobeniusMap(n), "frobeniusMap");
    CHECK(r == w, "g2 frobeniusMap(" << n << ") of " << p.str() << " as " << rawstr(a) << " = " << r.str() << ", expected " << w.str());
    CHECK(same(a, a0), "psi modified its operand");
}
PROP(g2_eigenvalue, 4000, 100000) {
    K2 s = genSub2(g);
    P2 w = g2mul(modR(s.k * BX()));
    c.nontrivial(!s.p.inf);
    c.note([&] { return "g2 eigenvalue on " + zs(s.k) + "*G"; });
    CHECK(V(rep(g, s.p).psi(), "psi") == w, "g2 psi is not multiplication by the curve parameter on " << s.p.str());
}
