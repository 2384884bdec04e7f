// Field elements and points are regular values: copies, equality, ordering, keys of sets and maps.
#include "../common.hpp"
#include <algorithm>
#include <map>
#include <set>
using namespace ref;
PROPERTY("P28")
extern bool g_need_points;
static bool np = (g_need_points = true);

template<class V> static V arbitrary(Gen& g) { // any limbs
    V v;
    uint64_t w[sizeof(V) / 8];
    unsigned k = unsigned(g.below(4));
    for (auto& x : w) x = k == 0 ? 0 : k == 1 ? g.below(3) : genWord(g);
    memcpy((void*)&v, w, sizeof v);
    return v;
}
template<class V> V value(Gen& g);
template<> B::fp value(Gen& g) { return L(genF(g)); }
template<> B::fp2 value(Gen& g) { return L(genF2(g)); }
template<> B::fp6 value(Gen& g) { return L6(genF6(g)); }
template<> B::fp12 value(Gen& g) { return L(genF12(g)); }
template<> B::g1 value(Gen& g) { return rep(g, genP1(g)); }
template<> B::g2 value(Gen& g) { return rep(g, genP2(g)); }
template<class V> static V any(Gen& g, const std::vector<V>& seen) {
    if (!seen.empty() && g.chance(2, 3)) { // next to an earlier one: the same, or one limb differs a little
        V v = seen[g.below(seen.size())];
        if (g.chance(1, 3)) return v;
        uint64_t w[sizeof(V) / 8];
        memcpy(w, &v, sizeof v);
        uint64_t& x = w[g.below(sizeof(V) / 8)];
        switch (g.below(4)) {
        case 0: x += 1; break;
        case 1: x -= 1; break;
        case 2: x ^= 1ull << 63; break;
        default: x = genWord(g);
        }
        if (g.chance(1, 4)) std::swap(w[g.below(sizeof(V) / 8)], w[g.below(sizeof(V) / 8)]);
        memcpy((void*)&v, w, sizeof v);
        return v;
    }
    return g.flip() ? value<V>(g) : arbitrary<V>(g);
}
template<class V> static std::string bytes(const V& v) { return std::string((const char*)&v, sizeof v); }
template<class V> static std::string show(const V& v) { return pbt::hex((const uint8_t*)&v, sizeof v); }
static int sgn(std::strong_ordering o) { return o < 0 ? -1 : o > 0 ? 1 : 0; }
// the order of fp is that of the integers its limbs represent (documented: mathematically correct in certain cases)
static int model(const B::fp& a, const B::fp& b) { for (int i = 5; i >= 0; i--) if (a.d[i] != b.d[i]) return a.d[i] < b.d[i] ? -1 : 1; return 0; }
template<class V> static int model(const V&, const V&) { return 2; }

template<class V> static void order(Gen& g, Ctx& c) {
    std::vector<V> v;
    for (int i = 0; i < 3; i++) v.push_back(any<V>(g, v));
    c.note([&] { return show(v[0]) + " " + show(v[1]) + " " + show(v[2]); });
    int o[3][3];
    bool diff = false;
    for (int i = 0; i < 3; i++) for (int j = 0; j < 3; j++) {
        const V &a = v[i], &b = v[j];
        bool eq = bytes(a) == bytes(b);
        diff |= !eq;
        o[i][j] = sgn(a <=> b);
        auto say = [&] { return show(a) + " and " + show(b); };
        CHECK((o[i][j] == 0) == eq, "<=> of " << say() << " is " << o[i][j]);
        CHECK((a == b) == eq && (a != b) == !eq, "== of " << say() << " is wrong");
        CHECK((a < b) == (o[i][j] < 0) && (a > b) == (o[i][j] > 0) && (a <= b) == (o[i][j] <= 0) && (a >= b) == (o[i][j] >= 0), "<, >, <=, >= of " << say() << " do not agree with <=>");
        int m = model(a, b);
        CHECK(m == 2 || m == o[i][j], "<=> of " << say() << " is " << o[i][j] << ", the integers compare as " << m);
        if constexpr (std::is_same_v<V, B::fp>) CHECK(sgn(a.cmp(b)) == m && a.equal(b) == eq, "cmp or equal of " << say());
        if constexpr (std::is_same_v<V, B::fp2>) CHECK(a.equal(b) == eq, "equal of " << say());
    }
    for (int i = 0; i < 3; i++) for (int j = 0; j < 3; j++) {
        CHECK(o[i][j] == -o[j][i], "<=> of " << show(v[i]) << " and " << show(v[j]) << " is " << o[i][j] << ", reversed " << o[j][i]);
        for (int k = 0; k < 3; k++) CHECK(!(o[i][j] <= 0 && o[j][k] <= 0) || (o[i][k] <= 0 && (o[i][k] < 0 || (o[i][j] == 0 && o[j][k] == 0))), "<=> is not transitive on " << show(v[i]) << ", " << show(v[j]) << ", " << show(v[k]));
    }
    c.nontrivial(diff);
}
PROP(order_fp, 150000, 4000000) { order<B::fp>(g, c); }
PROP(order_fp2, 80000, 2000000) { order<B::fp2>(g, c); }
PROP(order_g1, 40000, 1000000) { order<B::g1>(g, c); }
PROP(order_g2, 30000, 800000) { order<B::g2>(g, c); }

// a history of insertions, lookups and removals on a set and a map, against the same on byte strings
template<class V> static void containers(Gen& g, Ctx& c) {
    std::set<V> s;
    std::map<V, unsigned> m;
    std::map<std::string, unsigned> ref;
    std::vector<V> seen;
    size_t n = g.range(1, 60);
    size_t dup = 0;
    for (size_t i = 0; i < n; i++) {
        V v = any<V>(g, seen);
        seen.push_back(v);
        std::string b = bytes(v);
        bool had = ref.count(b) > 0;
        dup += had;
        auto say = [&] { return " " + show(v) + " after " + std::to_string(i) + " steps"; };
        switch (g.weighted({4, 2, 1})) {
        case 0:
            CHECK(s.insert(v).second == !had, "set::insert" << say());
            m[v] = unsigned(i);
            ref[b] = unsigned(i);
            break;
        case 1: {
            auto f = m.find(v);
            CHECK((s.count(v) > 0) == had && (f != m.end()) == had, "lookup of" << say());
            if (had) CHECK(f->second == ref[b] && bytes(f->first) == b, "lookup of" << say() << " finds another entry");
            break;
        }
        default:
            CHECK((s.erase(v) == 1) == had && (m.erase(v) == 1) == had, "removal of" << say());
            ref.erase(b);
        }
        CHECK(s.size() == ref.size() && m.size() == ref.size(), "size" << say());
    }
    for (auto& [k, x] : m) { auto r = ref.find(bytes(k)); CHECK(r != ref.end() && r->second == x && s.count(k), "the map holds " << show(k) << ", which the history does not"); }
    // sorting agrees with the set
    std::vector<V> w(seen);
    std::sort(w.begin(), w.end());
    w.erase(std::unique(w.begin(), w.end()), w.end());
    std::set<V> all(seen.begin(), seen.end());
    CHECK(w.size() == all.size() && std::equal(w.begin(), w.end(), all.begin()), "sorting and a set disagree on " << n << " values");
    c.nontrivial(n > 1 && dup > 0);
    c.label(dup ? "repeated keys" : "distinct keys");
}
PROP(containers_fp, 8000, 200000) { containers<B::fp>(g, c); }
PROP(containers_fp2, 6000, 150000) { containers<B::fp2>(g, c); }
PROP(containers_g1, 4000, 100000) { containers<B::g1>(g, c); }
PROP(containers_g2, 3000, 80000) { containers<B::g2>(g, c); }

// copies are equal and independent, whichever way they are made
template<class V> static void copies(Gen& g, Ctx& c) {
    std::vector<V> none;
    V a = any(g, none), b = any<V>(g, {a});
    std::string ba = bytes(a), bb = bytes(b);
    c.nontrivial(ba != bb);
    c.note([&] { return show(a); });
    V z;
    CHECK(bytes(z) == std::string(sizeof(V), 0), "a default-constructed value is " << show(z));
    V x(a), y = a;
    CHECK(bytes(x) == ba && bytes(y) == ba && bytes(a) == ba, "a copy of " << show(a) << " is " << show(x));
    x = b;
    CHECK(bytes(x) == bb && bytes(a) == ba && bytes(y) == ba && bytes(b) == bb, "assignment of " << show(b));
    V& self = x;
    x = self;
    CHECK(bytes(x) == bb, "self-assignment of " << show(b));
    V mv(std::move(x));
    x = std::move(y);
    CHECK(bytes(mv) == bb && bytes(x) == ba, "moving " << show(b));
    std::swap(x, mv);
    CHECK(bytes(mv) == ba && bytes(x) == bb, "swapping " << show(a) << " and " << show(b));
    memset((void*)&x, 0xEE, sizeof x); // the source of a copy changes
    CHECK(bytes(a) == ba && bytes(b) == bb && bytes(mv) == ba, "values share state");
    std::vector<V> v;
    for (int i = 0; i < 9; i++) v.push_back(i & 1 ? a : b);
    v.insert(v.begin() + 3, v[0]);
    v.erase(v.begin());
    std::rotate(v.begin(), v.begin() + 2, v.end());
    size_t na = 0, nb = 0;
    for (auto& e : v) { na += bytes(e) == ba; nb += bytes(e) == bb; }
    CHECK(ba == bb || (na == 4 && nb == 5), "copies in a vector: " << na << " and " << nb);
    auto f = [](V p) { memset((void*)&p, 1, sizeof p); return p; };
    (void)f(a);
    std::tuple<V, V> t(a, b);
    std::optional<V> o(a);
    auto [p, q] = t;
    CHECK(bytes(a) == ba && bytes(p) == ba && bytes(q) == bb && bytes(*o) == ba, "copies through a tuple, an optional or a parameter");
}
PROP(copies_fp, 40000, 800000) { copies<B::fp>(g, c); }
PROP(copies_fp2, 30000, 600000) { copies<B::fp2>(g, c); }
PROP(copies_fp6, 15000, 300000) { copies<B::fp6>(g, c); }
PROP(copies_fp12, 8000, 150000) { copies<B::fp12>(g, c); }
PROP(copies_g1, 15000, 300000) { copies<B::g1>(g, c); }
PROP(copies_g2, 8000, 150000) { copies<B::g2>(g, c); }

// construction from coordinates puts each where it belongs
PROP(parts, 40000, 800000) {
    std::vector<B::fp> f;
    for (int i = 0; i < 12; i++) f.push_back(any<B::fp>(g, f));
    c.nontrivial(bytes(f[0]) != bytes(f[1]));
    auto at = [&](const void* p, std::initializer_list<int> want) {
        int i = 0;
        for (int w : want) { if (memcmp((const char*)p + 48 * i, &f[w], 48)) return false; i++; }
        return true;
    };
    B::fp2 a({f[0], f[1]}), b({f[2], f[3]}), d({f[4], f[5]}), e({f[6], f[7]});
    CHECK(at(&a.c0, {0}) && at(&a.c1, {1}), "fp2 from its coordinates");
    B::fp6 s({a, b, d}), t({e, a, b});
    CHECK(at(&s.c0.c0, {0}) && at(&s.c0.c1, {1}) && at(&s.c1.c0, {2}) && at(&s.c1.c1, {3}) && at(&s.c2.c0, {4}) && at(&s.c2.c1, {5}), "fp6 from its coordinates");
    B::fp12 w({s, t});
    CHECK(at(&w.c0.c0.c0, {0}) && at(&w.c0.c2.c1, {5}) && at(&w.c1.c0.c0, {6}) && at(&w.c1.c0.c1, {7}) && at(&w.c1.c1.c0, {0}) && at(&w.c1.c2.c1, {3}), "fp12 from its coordinates");
    B::g1 p({f[8], f[9], f[10]});
    CHECK(at(&p.x, {8}) && at(&p.y, {9}) && at(&p.z, {10}), "g1 from its coordinates");
    B::g2 q({a, d, e});
    CHECK(at(&q.x.c0, {0}) && at(&q.x.c1, {1}) && at(&q.y.c0, {4}) && at(&q.y.c1, {5}) && at(&q.z.c0, {6}) && at(&q.z.c1, {7}), "g2 from its coordinates");
    std::array<uint64_t, 6> d6;
    for (auto& x : d6) x = genWord(g);
    B::fp l(d6);
    CHECK(l.d == d6, "fp from its limbs");
}
