#include "sig.hpp"
#include <set>
using namespace ref;
using namespace sig;
PROPERTY("P21")

struct Entry { mpz_class k; P1 pk; Bytes m; };
typedef std::vector<Entry> L_;
static size_t genN(Gen& g) { return g.weighted({6, 2, 1}) == 0 ? g.range(1, 4) : g.chance(1, 6) ? g.range(17, 24) : g.range(0, 9); }
static P2 expected(const L_& l) {
    P2 s = P2::infinity();
    for (auto& e : l) s = s + H(e.m).mul(e.k);
    return s;
}
static bool call(Gen& g, const L_& l, const P2& s, bool dup) {
    std::vector<B::g1> pks;
    std::vector<std::vector<uint8_t>> ms;
    for (auto& e : l) { pks.push_back(rep(g, e.pk)); ms.push_back(e.m); }
    return B::aggregate_verify(pks, ms, rep(g, s), dup);
}
static L_ genList(Gen& g, bool repeats) {
    L_ l;
    size_t n = genN(g);
    for (size_t i = 0; i < n; i++) {
        Entry e;
        e.k = genKey(g);
        e.m = genM(g);
        if (i && g.chance(1, 5)) e.k = l[g.below(i)].k;
        if (i && repeats && g.chance(1, 4)) e.m = l[g.below(i)].m;
        if (!repeats) while (true) {
            bool seen = false;
            for (auto& o : l) seen |= o.m == e.m;
            if (!seen) break;
            e.m.push_back(uint8_t(i));
        }
        e.pk = g1mul(e.k);
        l.push_back(e);
    }
    return l;
}
static bool dups(const L_& l) {
    std::set<Bytes> s;
    for (auto& e : l) s.insert(e.m);
    return s.size() != l.size();
}
static std::string show(const L_& l, const P2& s) {
    std::string o = std::to_string(l.size()) + " pairs";
    for (size_t i = 0; i < l.size() && i < 4; i++) o += " (key " + l[i].pk.str() + ", message " + hx(l[i].m) + ")";
    return o + " signature " + s.str();
}
// accept exactly when every member is a subgroup point and the signature is the sum
static void decide(Gen& g, Ctx& c, const L_& l, const P2& s, const std::string& how, bool members_ok = true) {
    bool sum = members_ok && s == expected(l);
    bool dup = dups(l);
    c.label(how);
    c.label(sum ? "correct aggregate" : "incorrect aggregate");
    if (dup) c.label("repeated messages");
    c.note([&] { return how + ": " + show(l, s); });
    bool r = call(g, l, s, false);
    CHECK(r == sum, "aggregate_verify " << (r ? "accepted" : "rejected") << " (" << how << "): " << show(l, s));
    r = call(g, l, s, true);
    CHECK(r == (sum && !dup), "aggregate_verify with duplicate check " << (r ? "accepted" : "rejected") << " (" << how << (dup ? ", repeated messages" : ", distinct messages") << "): " << show(l, s));
}
PROP(honest, 350, 6000) {
    L_ l = genList(g, g.flip());
    c.nontrivial(l.size() >= 2);
    std::vector<B::g2> sg;
    for (auto& e : l) sg.push_back(B::sign(S4(e.k), e.m));
    P2 s = V(B::aggregate_signatures(sg));
    CHECK(s == expected(l), "aggregate of the signatures is not the sum");
    decide(g, c, l, s, "honest");
    L_ p = l;
    for (size_t i = p.size(); i > 1; i--) std::swap(p[i - 1], p[g.below(i)]);
    decide(g, c, p, s, "honest, permuted together");
}
PROP(tampered, 700, 12000) {
    L_ l = genList(g, g.chance(1, 3));
    P2 s = expected(l);
    std::string how;
    size_t n = l.size(), i = n ? g.below(n) : 0, j = n ? g.below(n) : 0;
    switch (n == 0 ? 8 : g.below(12)) {
    case 0: how = "one message changed"; l[i].m = mutate(g, l[i].m); break;
    case 1: how = "one key changed"; l[i].k = genKey(g); l[i].pk = g1mul(l[i].k); break;
    case 2: how = "one pair dropped"; l.erase(l.begin() + i); break;
    case 3: { how = "one pair added"; Entry e; e.k = genKey(g); e.m = genM(g); e.pk = g1mul(e.k); l.insert(l.begin() + i, e); break; }
    case 4: how = "two messages exchanged"; std::swap(l[i].m, l[j].m); break;
    case 5: how = "two keys exchanged"; std::swap(l[i].pk, l[j].pk); std::swap(l[i].k, l[j].k); break;
    case 6: how = "one pair repeated"; l.push_back(l[i]); break;
    case 7: how = "signature of one signer missing"; s = s - H(l[i].m).mul(l[i].k); break;
    case 8: how = "other subgroup signature"; s = s + genSub2(g).p; break;
    case 9: how = "negated signature"; s = -s; break;
    case 10: { // errors that cancel: the sum is unchanged although members change
        how = "two keys on one message shifted against each other";
        Entry e = l[i];
        mpz_class d = genKey(g);
        Entry f = e;
        l[i].k = (e.k + d) % R;
        f.k = (R - d) % R;
        l[i].pk = g1mul(l[i].k);
        f.pk = g1mul(f.k);
        l.push_back(f);
        break;
    }
    default: how = "all keys and the signature scaled"; { mpz_class t = genKey(g); for (auto& e : l) { e.k = e.k * t % R; e.pk = g1mul(e.k); } if (g.flip()) s = s.mul(t); }
    }
    c.nontrivial(s != expected(l));
    decide(g, c, l, s, how);
}
PROP(bad_members, 500, 9000) {
    L_ l = genList(g, false);
    if (l.empty()) throw pbt::Discard{};
    P2 s = expected(l);
    size_t i = g.below(l.size());
    c.nontrivial();
    const char* how = "";
    std::vector<B::g1> pks;
    std::vector<std::vector<uint8_t>> ms;
    for (auto& e : l) { pks.push_back(rep(g, e.pk)); ms.push_back(e.m); }
    B::g2 sg = rep(g, s);
    switch (g.below(7)) {
    case 0: how = "a key plus a point of cofactor order"; pks[i] = rep(g, l[i].pk + genTorsion1(g)); break;
    case 1: how = "the signature plus a point of cofactor order"; sg = rep(g, s + genTorsion2(g)); break;
    case 2: { // cofactor parts that cancel in the sum
        how = "two keys shifted by opposite cofactor points";
        P1 t = genTorsion1(g);
        pks[i] = rep(g, l[i].pk + t);
        pks.push_back(rep(g, -t));
        Bytes m = mutate(g, l[0].m);
        ms.push_back(m);
        break;
    }
    case 3: { // an added member that contributes one to the product
        how = "an added key of cofactor order";
        pks.insert(pks.begin() + i, rep(g, genTorsion1(g)));
        Bytes m = mutate(g, l[0].m);
        ms.insert(ms.begin() + i, m);
        break;
    }
    case 4: { const char* h; bad1(g, l[i].pk, &h); pks[i] = bad1(g, l[i].pk, &h); how = "an off-curve key"; break; }
    case 5: { const char* h; sg = bad2(g, s, &h); how = "an off-curve signature"; break; }
    default: {
        how = "an added key (0,y) off the curve";
        F y = genF(g);
        if (y * y == F::of(4) || y.is_zero()) y = F::of(3);
        pks.insert(pks.begin() + i, B::g1({L(F::zero()), L(y), L(F::one())}));
        ms.insert(ms.begin() + i, mutate(g, l[0].m));
    }
    }
    c.label(how);
    c.note([&] { return std::string(how) + " at " + std::to_string(i) + ": " + show(l, s); });
    for (bool d : {false, true})
        CHECK(!B::aggregate_verify(pks, ms, sg, d), "aggregate_verify accepted " << how << " at " << i << ": " << show(l, s));
}
PROP(lengths, 300, 5000) {
    L_ l = genList(g, false);
    P2 s = expected(l);
    std::vector<B::g1> pks;
    std::vector<std::vector<uint8_t>> ms;
    for (auto& e : l) { pks.push_back(rep(g, e.pk)); ms.push_back(e.m); }
    size_t a = g.below(3), b = g.below(3);
    const char* how;
    if (g.flip()) { // lengths differ
        if (g.flip() || l.empty()) { how = "surplus message"; for (size_t i = 0; i <= a; i++) ms.push_back(i ? genM(g) : Bytes{uint8_t(b), 1, 2, 3}); }
        else { how = "surplus key"; for (size_t i = 0; i <= a; i++) pks.push_back(g.flip() ? rep(g, P1::infinity()) : rep(g, genSub1(g).p)); }
        if (g.chance(1, 4) && ms.size() > 1 && ms.size() > pks.size()) { ms[ms.size() - 1] = ms[0]; how = "surplus repeated message"; } // distinct count equals the number of keys
    } else if (l.empty()) {
        how = "empty lists";
        CHECK(B::aggregate_verify(pks, ms, rep(g, P2::infinity()), g.flip()), "aggregate_verify rejected empty lists with the infinite signature");
        P2 t = genSub2(g, false).p;
        CHECK(!B::aggregate_verify(pks, ms, rep(g, t), g.flip()), "aggregate_verify accepted empty lists with signature " << t.str());
        c.label(how);
        return;
    } else {
        how = "missing key or message";
        if (g.flip()) { ms.erase(ms.begin() + g.below(ms.size())); } else pks.erase(pks.begin() + g.below(pks.size()));
    }
    c.nontrivial();
    c.label(how);
    c.note([&] { return std::string(how) + ": " + std::to_string(pks.size()) + " keys, " + std::to_string(ms.size()) + " messages"; });
    for (bool d : {false, true})
        CHECK(!B::aggregate_verify(pks, ms, rep(g, s), d), "aggregate_verify accepted " << pks.size() << " keys with " << ms.size() << " messages (" << how << ")");
}
// A row of claims about lists that differ in one place: the verdict on each is the same whatever was asked before
PROP(session, 250, 5000) {
    L_ pool;
    size_t np = g.range(2, 5), nm = g.range(2, 4);
    std::vector<Bytes> ms;
    for (size_t i = 0; i < nm; i++) ms.push_back(i && g.flip() ? mutate(g, ms[0]) : genM(g));
    std::vector<mpz_class> ks;
    std::vector<P1> ps;
    for (size_t i = 0; i < np; i++) { ks.push_back(genKey(g)); ps.push_back(g1mul(ks.back())); }
    auto pair = [&] { Entry e; size_t i = g.below(np); e.k = ks[i]; e.pk = ps[i]; e.m = g.pick(ms); return e; };
    L_ l;
    for (size_t i = 0, n = g.range(1, 4); i < n; i++) l.push_back(pair());
    P2 s = expected(l);
    size_t steps = g.range(3, 8), good = 0;
    std::string log;
    for (size_t i = 0; i < steps; i++) {
        bool t = false;
        switch (i ? g.below(9) : 8) {
        case 0: break;
        case 1: { size_t j = g.below(l.size()), k = g.below(np); l[j].k = ks[k]; l[j].pk = ps[k]; log += "other key; "; break; }
        case 2: l[g.below(l.size())].m = g.pick(ms); log += "other message; "; break;
        case 3: std::swap(l[g.below(l.size())], l[g.below(l.size())]); log += "exchanged; "; break;
        case 4: if (l.size() > 1) { l.erase(l.begin() + g.below(l.size())); log += "one less; "; } break;
        case 5: l.insert(l.begin() + g.below(l.size() + 1), pair()); log += "one more; "; break;
        case 6: t = true; log += "a cofactor point in a key; "; break;
        case 7: std::swap(l[g.below(l.size())].m, l[g.below(l.size())].m); log += "messages exchanged; "; break;
        default: break;
        }
        P2 e = expected(l);
        if (g.chance(1, 3)) { s = e; log += "signed anew; "; }
        bool dup = g.flip(), w = !t && s == e && !(dup && dups(l));
        L_ q = l;
        if (t) { size_t j = g.below(q.size()); q[j].pk = q[j].pk + genTorsion1(g); }
        good += w;
        bool r = call(g, q, s, dup);
        CHECK(r == w, "aggregate_verify " << (dup ? "with duplicate check " : "") << (r ? "accepted" : "rejected") << " the last of these claims: first claim, then " << log << "now " << show(q, s));
        log += r ? "accepted; " : "rejected; ";
    }
    c.nontrivial(good && good < steps);
    c.note([&] { return log; });
}

// Long lists: the members are derived from one choice, what is wrong with one of them is drawn
static size_t longN(Gen& g, size_t most) {
    static const std::vector<size_t> e{25, 31, 32, 33, 48, 63, 64, 65, 96, 100, 127, 128, 129, 200, 255, 256, 257, 300, 500, 511, 512, 513, 1000, 1023, 1024, 1025};
    size_t n = g.flip() ? g.range(25, 140) : g.pick(e);
    return std::min(n, most);
}
PROP(long_list, 40, 1200) {
    size_t n = longN(g, c.thorough ? 1025 : g.chance(1, 8) ? 513 : 260);
    unsigned len = unsigned(g.pick(std::vector<int>{4, 32, 64, 300, 3000}));
    int what = int(g.below(9));
    size_t i = g.flip() ? g.below(n) : g.flip() ? n - 1 : 0, j = (i + 1 + g.below(n - 1)) % n;
    bool sameKey = g.chance(1, 4);
    Gen d = Gen::derived(g.raw());
    std::vector<mpz_class> ks;
    std::vector<B::g1> pks;
    std::vector<std::vector<uint8_t>> ms;
    std::vector<B::g2> sg;
    Bytes body(len);
    d.bytes(body.data(), len);
    for (size_t t = 0; t < n; t++) {
        ks.push_back(t && sameKey ? ks[0] : genKey(d));
        P1 p = g1mul(ks.back());
        pks.push_back(rep(d, p));
        Bytes m = body; // distinct messages that differ in four bytes, at either end
        for (int b = 0; b < 4; b++) m[d.flip() || len < 8 ? b : len - 1 - b] = uint8_t((t * 2654435761u) >> (8 * b));
        bool seen = false;
        for (auto& o : ms) seen |= o == m;
        if (seen) { m.push_back(uint8_t(t)); m.push_back(uint8_t(t >> 8)); }
        ms.push_back(m);
        sg.push_back(B::sign(S4(ks.back()), m));
    }
    const char* how = "honest";
    bool w = true, dup = false;
    switch (what) {
    case 0: break;
    case 1: how = "permuted together"; std::swap(pks[i], pks[j]); std::swap(ms[i], ms[j]); break;
    case 2: how = "a message changed"; ms[i][d.below(ms[i].size())] ^= 1; ms[i].push_back(0x5a); w = false; break;
    case 3: how = "a key replaced"; pks[i] = LA(g1mul(ks[i] % (R - 1) + 1)); w = false; break;
    case 4: how = "two keys exchanged"; std::swap(pks[i], pks[j]); w = sameKey; break;
    case 5: how = "a message repeated"; ms[i] = ms[j]; sg[i] = B::sign(S4(ks[i]), ms[i]); dup = true; break;
    case 6: how = "a cofactor point added to a key"; pks[i] = rep(d, g1mul(ks[i]) + genTorsion1(d)); w = false; break;
    case 7: how = "two keys shifted by opposite cofactor points"; { P1 t = genTorsion1(d); pks[i] = rep(d, g1mul(ks[i]) + t); pks[j] = rep(d, g1mul(ks[j]) - t); } w = false; break;
    default: how = "a signature missing"; sg.erase(sg.begin() + i); w = false;
    }
    c.nontrivial();
    c.label(how);
    c.label(n < 64 ? "25 to 63 pairs" : n < 256 ? "64 to 255 pairs" : "256 pairs or more");
    std::string desc = std::to_string(n) + " pairs, messages of " + std::to_string(len) + " bytes, " + how + " at " + std::to_string(i) + " (and " + std::to_string(j) + ")";
    c.note([&] { return desc; });
    B::g2 s = B::aggregate_signatures(sg);
    bool r = B::aggregate_verify(pks, ms, s, false);
    CHECK(r == w, "aggregate_verify " << (r ? "accepted" : "rejected") << " " << desc);
    r = B::aggregate_verify(pks, ms, s, true);
    CHECK(r == (w && !dup), "aggregate_verify with duplicate check " << (r ? "accepted" : "rejected") << " " << desc);
}
