#include "../common.hpp"
using namespace ref;
PROPERTY("P07")
extern bool g_need_points;
static bool np = (g_need_points = true);

template<class G> struct T;
template<> struct T<B::g1> {
    typedef P1 Pt; typedef F K;
    static P1 pt(Gen& g, int* k) { return genP1(g, k); }
    static P1 tors(Gen& g) { return genTorsion1(g); }
    static const P1& base() { return G1gen(); }
    static constexpr const char* name = "g1";
    static F omega() { static const F w = F::of(2).pow((P - 1) / 3); return w; }
};
template<> struct T<B::g2> {
    typedef P2 Pt; typedef F2 K;
    static P2 pt(Gen& g, int* k) { return genP2(g, k); }
    static P2 tors(Gen& g) { return genTorsion2(g); }
    static const P2& base() { return G2gen(); }
    static constexpr const char* name = "g2";
    static F2 omega() { static const F2 w{F::of(2).pow((P - 1) / 3), F::zero()}; return w; }
};
// second operand: independent, equal, opposite, same x or same y, or in a simple relation
template<class G> static typename T<G>::Pt other(Gen& g, const typename T<G>::Pt& p, const char*& rel) {
    typedef typename T<G>::Pt Pt;
    switch (g.weighted({6, 3, 3, 1, 1, 1, 2})) {
    case 0: rel = "independent"; return T<G>::pt(g, nullptr);
    case 1: rel = "equal"; return p;
    case 2: rel = "opposite"; return -p;
    case 3: rel = "double"; return p.dbl();
    case 4: rel = "minus double"; return -p.dbl();
    case 5: rel = "shifted by small order"; return p + T<G>::tors(g);
    default: // (wx, y): same y, different x; with the sign flipped: x^3 equal
        rel = "cube-root image";
        if (p.inf) return p;
        return Pt::of(p.x * T<G>::omega(), g.flip() ? p.y : -p.y);
    }
}
template<class G> static bool isAff(const G& a) {
    auto z = V(a.z, "z");
    return z == decltype(z)::one();
}
template<class G> static void eqP(const G& got, const typename T<G>::Pt& want, const char* op, const std::string& in) {
    auto v = V(got, op);
    CHECK(v == want, T<G>::name << " " << op << " of " << in << " = " << v.str() << ", expected " << want.str());
}
template<class G> static void pair_ops(Gen& g, Ctx& c) {
    typedef typename T<G>::Pt Pt;
    int k1;
    const char* rel;
    Pt p = T<G>::pt(g, &k1), q = other<G>(g, p, rel);
    if (g.flip()) std::swap(p, q);
    bool ap, aq;
    G a = rep(g, p, &ap), b = rep(g, q, &aq);
    if (p == q && g.chance(1, 3)) b = a;
    c.nontrivial(!p.inf && !q.inf);
    c.label(std::string("relation: ") + rel);
    c.label(std::string("kind: ") + kindName(k1));
    c.label(std::string("representation: ") + (p.inf || q.inf ? "infinity" : ap && aq ? "affine+affine" : ap || aq ? "mixed" : "projective+projective"));
    std::string in = "P=" + p.str() + " as " + rawstr(a) + ", Q=" + q.str() + " as " + rawstr(b);
    c.note([&] { return in; });
    const G a0 = a, b0 = b;
    Pt sum = p + q, dif = p - q;
    eqP<G>(a.add(b), sum, "add", in);
    eqP<G>(b.add(a), sum, "add (swapped)", in);
    eqP<G>(a.subtract(b), dif, "subtract", in);
    CHECK(a.equal(b) == (p == q), T<G>::name << " equal of " << in);
    CHECK(b.equal(a) == (p == q), T<G>::name << " equal (swapped) of " << in);
    CHECK(same(a, a0) && same(b, b0), T<G>::name << " operation modified an operand: " << in);
    { G r = a; r.addAssign(b); eqP<G>(r, sum, "addAssign", in); CHECK(same(b, b0), "addAssign modified its operand"); }
    { G r = a; r.subtractAssign(b); eqP<G>(r, dif, "subtractAssign", in); CHECK(same(b, b0), "subtractAssign modified its operand"); }
    // the result is a proper operand: compare it, take it back
    { G r = a.add(b).subtract(b); eqP<G>(r, p, "add then subtract", in); CHECK(r.equal(a) && a.equal(r), T<G>::name << " (P+Q)-Q not equal to P: " << in); }
    CHECK(a.add(b).isZero() == sum.inf, T<G>::name << " isZero of the sum: " << in);
}
template<class G> static void unary_ops(Gen& g, Ctx& c) {
    typedef typename T<G>::Pt Pt;
    int k1;
    Pt p = T<G>::pt(g, &k1);
    bool ap;
    G a = rep(g, p, &ap);
    if (g.chance(1, 8) && !p.inf) a = a.add(LA(p)).subtract(LA(p)); // a representation produced by the library
    c.nontrivial(!p.inf);
    c.label(std::string("kind: ") + kindName(k1));
    std::string in = "P=" + p.str() + " as " + rawstr(a);
    c.note([&] { return in; });
    const G a0 = a;
    Pt d = p.dbl();
    eqP<G>(a.dbl(), d, "dbl", in);
    { G r = a; r.doubleAssign(); eqP<G>(r, d, "doubleAssign", in); }
    { G r = a; r.addAssign(r); eqP<G>(r, d, "addAssign with itself", in); }
    { G r = a; r.subtractAssign(r); eqP<G>(r, Pt::infinity(), "subtractAssign with itself", in); }
    eqP<G>(a.add(a), d, "add with itself", in);
    eqP<G>(a.subtract(a), Pt::infinity(), "subtract itself", in);
    eqP<G>(a.negate(), -p, "negate", in);
    CHECK(a.isZero() == p.inf, T<G>::name << " isZero of " << in);
    CHECK(a.isAffine() == isAff(a), T<G>::name << " isAffine of " << in);
    CHECK(a.equal(a), T<G>::name << " equal to itself: " << in);
    CHECK(a.equal(a.negate()) == (p == -p), T<G>::name << " equal to its negation: " << in);
    CHECK(a.isOnCurve(), T<G>::name << " isOnCurve of " << in);
    G n = a.affine();
    eqP<G>(n, p, "affine", in);
    if (!p.inf) {
        CHECK(isAff(n) && n.isAffine(), T<G>::name << " affine() left z = " << V(n.z).str() << " for " << in);
        CHECK(same(n, LA(p)), T<G>::name << " affine() coordinates differ for " << in);
    }
    CHECK(n.equal(a) && a.equal(n), T<G>::name << " affine() not equal to the original: " << in);
    G z = G::zero();
    CHECK(z.isZero() && V(z).inf, "zero() is not infinity");
    eqP<G>(G::one(), T<G>::base(), "one()", "");
    eqP<G>(a.add(z), p, "add zero()", in);
    eqP<G>(z.add(a), p, "zero() add", in);
    CHECK(a.equal(z) == p.inf && z.equal(a) == p.inf, T<G>::name << " comparison with zero(): " << in);
    CHECK(same(a, a0), T<G>::name << " operation modified its operand: " << in);
}
// histories: a small register machine driven next to the model
template<class G> static void history(Gen& g, Ctx& c) {
    typedef typename T<G>::Pt Pt;
    const unsigned n = 4;
    std::vector<Pt> m;
    std::vector<G> r;
    for (unsigned i = 0; i < n; i++) { m.push_back(T<G>::pt(g, nullptr)); r.push_back(rep(g, m.back())); }
    unsigned len = unsigned(2 + g.below(24));
    c.nontrivial(true);
    std::string log;
    for (unsigned s = 0; s < len; s++) {
        unsigned op = unsigned(g.below(8)), i = unsigned(g.below(n)), j = unsigned(g.below(n)), k = unsigned(g.below(n));
        log += std::to_string(op) + ":" + std::to_string(i) + std::to_string(j) + std::to_string(k) + " ";
        switch (op) {
        case 0: r[k] = r[i].add(r[j]); m[k] = m[i] + m[j]; break;
        case 1: r[k] = r[i].subtract(r[j]); m[k] = m[i] - m[j]; break;
        case 2: r[i].addAssign(r[j]); m[i] = m[i] + m[j]; break;
        case 3: r[i].subtractAssign(r[j]); m[i] = m[i] - m[j]; break;
        case 4: r[i].doubleAssign(); m[i] = m[i].dbl(); break;
        case 5: r[k] = r[i].negate(); m[k] = -m[i]; break;
        case 6: r[k] = r[i].affine(); m[k] = m[i]; break;
        default: r[k] = r[i].dbl(); m[k] = m[i].dbl();
        }
        CHECK(r[i].equal(r[j]) == (m[i] == m[j]), T<G>::name << " equality after history " << log);
        CHECK(r[k].isZero() == m[k].inf, T<G>::name << " isZero after history " << log);
    }
    c.note([&] { return log; });
    for (unsigned i = 0; i < n; i++) eqP<G>(r[i], m[i], "history", log);
}
PROP(g1_pairs, 40000, 1000000) { pair_ops<B::g1>(g, c); }
PROP(g2_pairs, 25000, 600000) { pair_ops<B::g2>(g, c); }
PROP(g1_unary, 40000, 1000000) { unary_ops<B::g1>(g, c); }
PROP(g2_unary, 25000, 600000) { unary_ops<B::g2>(g, c); }
PROP(g1_history, 5000, 120000) { history<B::g1>(g, c); }
PROP(g2_history, 3000, 80000) { history<B::g2>(g, c); }
