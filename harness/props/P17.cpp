#include "../common.hpp"
using namespace ref;
PROPERTY("P17")
extern bool g_need_points;
static bool np = (g_need_points = true);
namespace pr = B::pairing;
typedef std::vector<std::tuple<B::g1, B::g2>> Pairs;
static const F12& E() { static const F12 e = pairing(G1gen(), G2gen()); return e; }

struct Item { K1 a; K2 b; };
static std::vector<Item> genItems(Gen& g, size_t n, Ctx& c) {
    std::vector<Item> v;
    for (size_t i = 0; i < n; i++) {
        Item t;
        switch (v.empty() ? 0 : g.weighted({8, 1, 1, 2, 1, 1})) {
        case 0: t = {genSub1(g), genSub2(g)}; break;
        case 1: t = g.pick(v); c.label("repeated pair"); break;
        case 2: { // cancels an earlier pair
            t = g.pick(v);
            if (g.flip()) { t.a.p = -t.a.p; t.a.k = (R - t.a.k) % R; } else { t.b.p = -t.b.p; t.b.k = (R - t.b.k) % R; }
            c.label("cancelling pair");
            break;
        }
        case 3: t = {genSub1(g), g.pick(v).b}; break;
        case 4: t = {g.pick(v).a, genSub2(g)}; break;
        default: { // swaps the logarithms: equal value from different points
            Item o = g.pick(v);
            t.a = {o.b.k, g1mul(o.b.k)};
            t.b = {o.a.k, g2mul(o.a.k)};
        }
        }
        if (t.a.p.inf || t.b.p.inf) c.label("infinity in the list");
        v.push_back(t);
    }
    return v;
}
static mpz_class expo(const std::vector<Item>& v) {
    mpz_class s = 0;
    for (auto& t : v) s += t.a.k * t.b.k;
    return s % R;
}
struct Stop : std::runtime_error { int n; Stop(int n) : std::runtime_error("stop"), n(n) {} };

static void multi(Gen& g, Ctx& c, size_t n) {
    auto v = genItems(g, n, c);
    mpz_class s = expo(v);
    F12 w = E().pow(s);
    size_t fin = 0;
    for (auto& t : v) fin += !t.a.p.inf && !t.b.p.inf;
    c.nontrivial(fin >= 2);
    c.label(n < 20 ? "below the yield threshold" : n == 20 ? "at the threshold" : "above the threshold");
    c.note([&] {
        std::string o = std::to_string(n) + " pairs, logarithms";
        for (size_t i = 0; i < n && i < 6; i++) o += " (" + zs(v[i].a.k) + "," + zs(v[i].b.k) + ")";
        return o;
    });
    Pairs ps, direct;
    for (auto& t : v) {
        pr::add_pair(ps, rep(g, t.a.p), rep(g, t.b.p));
        direct.emplace_back(LA(t.a.p), LA(t.b.p));
    }
    B::fp12 f = pr::calculate(ps);
    CHECK(V(f) == w, "product of " << n << " pairings = " << V(f).str() << ", expected " << w.str());
    CHECK(f.isOne() == (s == 0), "product is one: " << f.isOne());
    CHECK(V(pr::calculate(direct)) == w, "product over the normalised list with its infinities = " << V(pr::calculate(direct)).str() << ", expected " << w.str());
    // any order
    Pairs sh = ps;
    for (size_t i = sh.size(); i > 1; i--) std::swap(sh[i - 1], sh[g.below(i)]);
    CHECK(V(pr::calculate(sh)) == w, "product in another order differs");
    // two halves
    size_t k = ps.empty() ? 0 : g.below(ps.size() + 1);
    F12 h = V(pr::calculate(std::span(ps).subspan(0, k))) * V(pr::calculate(std::span(ps).subspan(k)));
    CHECK(h == w, "product of the parts [0," << k << ") and the rest differs");
    // yield
    int calls = 0;
    CHECK(V(pr::calculate(ps, [&] { calls++; })) == w, "value with a yield callback differs");
    if (calls) {
        c.label("yield called");
        int stop = int(g.range(1, calls)), m = 0;
        bool caught = false;
        try {
            pr::calculate(ps, [&] { if (++m == stop) throw Stop(stop); });
        } catch (const Stop& e) { caught = e.n == stop; }
        CHECK(caught, "exception thrown by the yield callback at its call " << stop << " did not reach the caller");
        CHECK(V(pr::calculate(ps, [&] { calls++; })) == w, "value after an interrupted call differs");
    }
}
PROP(product, 1200, 20000) { multi(g, c, g.weighted({3, 2}) == 0 ? g.range(0, 8) : g.range(9, 24)); }
PROP(threshold, 150, 3000) { multi(g, c, g.range(18, 22)); }
PROP(long_list, 16, 300) {
    Gen d = Gen::derived(g.raw());
    static const std::vector<size_t> e{31, 32, 33, 63, 64, 65, 100, 127, 128, 129, 200, 255, 256, 257, 300};
    size_t n = g.chance(2, 3) ? d.range(25, c.thorough ? 400 : 120) : g.pick(e);
    multi(d, c, n);
}
PROP(singles, 500, 8000) { // against the product of the library's own single pairings
    auto v = genItems(g, g.range(0, 6), c);
    c.nontrivial(v.size() >= 2);
    Pairs ps;
    F12 w = F12::one();
    for (auto& t : v) {
        B::g1 a = rep(g, t.a.p);
        B::g2 b = rep(g, t.b.p);
        pr::add_pair(ps, a, b);
        Pairs one;
        pr::add_pair(one, a, b);
        w = w * V(pr::calculate(one));
    }
    c.note([&] { return std::to_string(v.size()) + " pairs"; });
    CHECK(V(pr::calculate(ps)) == w, "product of " << v.size() << " pairings differs from the product of the single ones");
}
PROP(gathering, 4000, 60000) {
    Pairs ps;
    std::vector<Item> kept;
    unsigned n = unsigned(g.range(1, 6));
    c.nontrivial();
    for (unsigned i = 0; i < n; i++) {
        Item t{genSub1(g), genSub2(g)};
        if (g.chance(1, 6)) t.a = {0, P1::infinity()};
        if (g.chance(1, 6)) t.b = {0, P2::infinity()};
        B::g1 a = rep(g, t.a.p), a0 = a;
        B::g2 b = rep(g, t.b.p), b0 = b;
        Pairs before = ps;
        pr::add_pair(ps, a, b);
        CHECK(same(a, a0) && same(b, b0), "add_pair changed its arguments");
        if (!t.a.p.inf && !t.b.p.inf) kept.push_back(t);
        else c.label("infinity");
        for (size_t k = 0; k < before.size(); k++)
            CHECK(same(std::get<0>(before[k]), std::get<0>(ps[k])) && same(std::get<1>(before[k]), std::get<1>(ps[k])), "add_pair changed an earlier pair");
    }
    c.note([&] { return std::to_string(n) + " pairs of which " + std::to_string(kept.size()) + " finite"; });
    size_t fin = 0;
    for (auto& [a, b] : ps) {
        if (a.isZero() || b.isZero()) continue;
        CHECK(fin < kept.size(), "add_pair gathered more pairs than given");
        CHECK(same(a, LA(kept[fin].a.p)) && same(b, LA(kept[fin].b.p)), "add_pair stored " << rawstr(a) << " " << rawstr(b) << " for " << kept[fin].a.p.str() << " " << kept[fin].b.p.str());
        fin++;
    }
    CHECK(fin == kept.size(), "add_pair dropped a pair of finite points");
}
