#include "sig.hpp"
using namespace ref;
using namespace sig;
PROPERTY("P19")

// a claim (key, message, signature); genuine is decided by the reference
struct Claim {
    mpz_class k;      // logarithm of the subgroup part of the key
    P1 pk;
    Bytes m;
    P2 s;
    std::string how;
};
static const P1 BETA(const P1& p) { // (beta x, y)
    static const F b = F::of(2).pow((P - 1) / 3);
    return p.inf ? p : P1::of(p.x * b, p.y);
}
static const P2 BETA(const P2& p) {
    static const F2 b{F::of(2).pow((P - 1) / 3), F::zero()};
    return p.inf ? p : P2::of(p.x * b, p.y);
}
static bool genuine(const mpz_class& k, const P1& pk, const P2& h, const P2& s) {
    return pk == g1mul(k) && s == h.mul(k); // with s a multiple of a subgroup point, so in the subgroup
}
PROP(wrong_claims, 3000, 60000) {
    Claim q;
    q.k = genKey(g);
    q.m = genM(g);
    P2 h = H(q.m);
    q.pk = g1mul(q.k);
    q.s = h.mul(q.k);
    switch (g.below(14)) {
    case 0: q.how = "other message"; q.m = mutate(g, q.m); break;
    case 1: q.how = "other key"; q.k = genKey(g); q.pk = g1mul(q.k); break;
    case 2: q.how = "key off by a small amount"; { mpz_class d = long(1 + g.below(3)); q.k = (q.k + (g.flip() ? d : R - d)) % R; q.pk = g1mul(q.k); } break;
    case 3: q.how = "negated key"; q.pk = -q.pk; q.k = R - q.k; break;
    case 4: q.how = "negated signature"; q.s = -q.s; break;
    case 5: q.how = "other subgroup signature"; q.s = genSub2(g).p; break;
    case 6: q.how = "signature plus a subgroup point"; q.s = q.s + genSub2(g, false).p; break;
    case 7: q.how = "multiple of the signature"; q.s = q.s.mul(genKey(g)); break;
    case 8: q.how = "cube-root image of the signature"; q.s = BETA(q.s); if (g.flip()) q.s = BETA(q.s); break;
    case 9: q.how = "cube-root image of the key"; q.pk = BETA(q.pk); { mpz_class l = mpz_class(ref::X) * mpz_class(ref::X) - 1; for (mpz_class e : {l, mpz_class(R - 1 - l)}) if (g1mul(q.k * e % R) == q.pk) { q.k = q.k * e % R; break; } } break;
    case 10: q.how = "key shifted by a cofactor point"; q.pk = q.pk + genTorsion1(g); break;
    case 11: q.how = "signature shifted by a cofactor point"; q.s = q.s + genTorsion2(g); break;
    case 12: q.how = "both shifted"; q.pk = q.pk + genTorsion1(g); q.s = q.s + genTorsion2(g); break;
    default: q.how = "infinite signature"; q.s = P2::infinity();
    }
    bool ok = genuine(q.k, q.pk, H(q.m), q.s);
    c.label(q.how);
    c.label(ok ? "genuine after all" : "not genuine");
    c.nontrivial(!ok);
    B::g1 a = rep(g, q.pk);
    B::g2 s = rep(g, q.s);
    c.note([&] { return q.how + ": key " + rawstr(a) + " message " + hx(q.m) + " signature " + rawstr(s); });
    bool r = B::verify(a, q.m, s);
    CHECK(!r || ok, "verify accepted (" << q.how << "): key " << rawstr(a) << " message " << hx(q.m) << " signature " << rawstr(s));
    CHECK(r || !ok, "verify rejected a genuine signature (" << q.how << "): key " << rawstr(a) << " message " << hx(q.m) << " signature " << rawstr(s));
}
// keys and signatures chosen so that the pairing equation itself holds
PROP(pairing_equation_holds, 2500, 50000) {
    mpz_class k = genKey(g);
    Bytes m = genM(g);
    P1 pk = g1mul(k);
    P2 s = H(m).mul(k);
    const char* how = "";
    B::g1 a = rep(g, pk);
    B::g2 b = rep(g, s);
    switch (g.below(6)) {
    case 0: how = "genuine key plus a point of cofactor order"; a = rep(g, pk + genTorsion1(g)); break;
    case 1: how = "genuine signature plus a point of cofactor order"; b = rep(g, s + genTorsion2(g)); break;
    case 2: how = "key of cofactor order, infinite signature"; a = rep(g, genTorsion1(g)); b = rep(g, P2::infinity()); break;
    case 3: how = "key of cofactor order, signature of cofactor order"; a = rep(g, genTorsion1(g)); b = rep(g, genTorsion2(g)); break;
    case 4: how = "infinite key, signature of cofactor order"; a = rep(g, P1::infinity()); b = rep(g, genTorsion2(g)); break;
    default: { // off-curve (0,y) pairs to one with every point
        how = "key (0,y) off the curve, infinite signature";
        F y = genF(g);
        if (y * y == F::of(4) || y.is_zero()) y = F::of(3);
        a = B::g1({L(F::zero()), L(y), L(F::one())});
        b = rep(g, P2::infinity());
    }
    }
    c.label(how);
    c.nontrivial();
    c.note([&] { return std::string(how) + ": key " + rawstr(a) + " message " + hx(m) + " signature " + rawstr(b); });
    CHECK(!B::verify(a, m, b), "verify accepted " << how << ": key " << rawstr(a) << " message " << hx(m) << " signature " << rawstr(b));
}
PROP(off_curve, 2500, 50000) {
    mpz_class k = genKey(g);
    Bytes m = genM(g);
    P1 pk = g1mul(k);
    P2 s = H(m).mul(k);
    const char *h1 = "genuine key", *h2 = "genuine signature";
    int w = int(g.below(4));
    B::g1 a = w == 1 ? rep(g, pk) : bad1(g, pk, &h1);
    B::g2 b = w == 0 ? rep(g, s) : w == 3 ? rep(g, P2::infinity()) : bad2(g, s, &h2);
    if (w == 3) h2 = "infinite signature";
    c.label(h1);
    c.label(h2);
    c.nontrivial();
    c.note([&] { return std::string(h1) + ", " + h2 + ": key " + rawstr(a) + " signature " + rawstr(b); });
    CHECK(!B::verify(a, m, b), "verify accepted " << h1 << " with " << h2 << ": key " << rawstr(a) << " message " << hx(m) << " signature " << rawstr(b));
}
// relations between several signers
PROP(recombination, 800, 15000) {
    mpz_class k1 = genKey(g), k2 = genKey(g);
    Bytes m1 = genM(g), m2 = mutate(g, m1);
    B::g2 s11 = B::sign(S4(k1), m1), s12 = B::sign(S4(k1), m2), s21 = B::sign(S4(k2), m1);
    B::g1 p1 = B::public_key(S4(k1)), p2 = B::public_key(S4(k2));
    c.nontrivial(k1 != k2);
    c.note([&] { return "keys " + zs(k1) + ", " + zs(k2) + " messages " + hx(m1) + ", " + hx(m2); });
#define BAD(PK, M, S, W) CHECK(!B::verify(PK, M, S), "verify accepted " W ": keys " << zs(k1) << ", " << zs(k2) << " messages " << hx(m1) << ", " << hx(m2))
    BAD(p1, m1, s12, "the signature of another message");
    BAD(p1, m2, s11, "another message");
    if (k1 != k2) BAD(p1, m1, s21, "the signature of another key");
    if (k1 != k2) BAD(p2, m1, s11, "another key");
    BAD(p1, m1, s11.add(s21), "the sum of two signatures");
    BAD(p1, m1, s11.add(s12), "the sum of signatures on two messages");
    if ((k1 + k2) % R != 0) CHECK(B::verify(p1.add(p2), m1, s11.add(s21)), "verify rejected the sum under the summed key: keys " << zs(k1) << ", " << zs(k2) << " message " << hx(m1));
    BAD(p1.add(p2), m1, s11, "one signature under the summed key");
}
// A row of claims from few keys, messages and signatures, good and bad, in any order and repeated: the verdict on each
// is the same whatever was asked before.
PROP(session, 400, 8000) {
    struct Key { mpz_class k; bool good; B::g1 p; const char* how; };
    struct Sig { mpz_class k; int m; bool good; B::g2 p; const char* how; };
    std::vector<Key> ks;
    std::vector<Bytes> ms;
    std::vector<Sig> ss;
    std::vector<P1> kp;
    for (int i = 0; i < 2; i++) {
        mpz_class k = genKey(g);
        P1 p = g1mul(k);
        kp.push_back(p);
        ks.push_back({k, true, rep(g, p), "key"});
        if (g.flip()) ks.push_back({R - k, true, rep(g, -p), "negated key"});
    }
    const char* how = "";
    for (size_t i = 0, n = g.range(1, 3); i < n; i++) switch (g.below(5)) {
    case 0: ks.push_back({0, false, rep(g, genTorsion1(g)), "key of cofactor order"}); break;
    case 1: ks.push_back({0, false, rep(g, g.pick(kp) + genTorsion1(g)), "key plus cofactor point"}); break;
    case 2: { B::g1 b = bad1(g, g.pick(kp), &how); ks.push_back({0, false, b, how}); break; }
    case 3: { const B::g1& o = ks[g.below(2)].p; B::g1 b({o.x, o.y, L(genLambda(g) + F::of(3))}); if (!b.isOnCurve()) ks.push_back({0, false, b, "coordinates of a key over another denominator"}); break; }
    default: { F y = genF(g); if (y * y == F::of(4) || y.is_zero()) y = F::of(3); ks.push_back({0, false, B::g1({L(F::zero()), L(y), L(F::one())}), "key (0,y) off the curve"}); }
    }
    ms.push_back(genM(g));
    while (ms.size() < 2) { Bytes m = mutate(g, ms[0]); if (m != ms[0]) ms.push_back(m); }
    for (int i = 0; i < 2; i++) for (int j = 0; j < 2; j++) {
        size_t at = 0;
        for (size_t t = 1; i && t < ks.size(); t++) if (ks[t].good && ks[t].k != ks[0].k && (at == 0 || g.flip())) at = t;
        const Key& k = ks[at];
        P2 s = H(ms[j]).mul(k.k);
        ss.push_back({k.k, j, true, rep(g, s), "signature"});
        if (g.chance(1, 4)) ss.push_back({0, j, false, rep(g, s + genTorsion2(g)), "signature plus cofactor point"});
        if (g.chance(1, 6)) ss.push_back({(R - k.k) % R, j, true, rep(g, -s), "negated signature"});
        if (g.chance(1, 6)) { B::g2 b = bad2(g, s, &how); ss.push_back({0, j, false, b, how}); }
    }
    ss.push_back({0, -1, true, rep(g, P2::infinity()), "infinite signature"});
    if (g.flip()) ss.push_back({0, -1, false, rep(g, genTorsion2(g)), "signature of cofactor order"});
    size_t steps = g.range(3, 14), a = 0, b = 0, m = 0, good = 0;
    std::string log;
    for (size_t i = 0; i < steps; i++) {
        // mostly one thing differs from the claim before
        switch (i ? g.below(6) : 5) {
        case 0: break;
        case 1: a = g.below(ks.size()); break;
        case 2: b = g.below(ss.size()); break;
        case 3: m = g.below(ms.size()); break;
        case 4: // the signature that fits
            for (size_t t = 0; t < ss.size(); t++) if (ks[a].good && ss[t].good && ss[t].k == ks[a].k && ss[t].m == int(m)) b = t;
            break;
        default: a = g.below(ks.size()); b = g.below(ss.size()); m = g.below(ms.size());
        }
        const Key& k = ks[a];
        const Sig& s = ss[b];
        bool w = k.good && s.good && s.m == int(m) && s.k == k.k;
        good += w;
        log += (i ? "; " : "") + std::string(k.how) + " " + std::to_string(a) + ", message " + std::to_string(m) + ", " + s.how + " " + std::to_string(b);
        bool r = B::verify(k.p, ms[m], s.p);
        CHECK(r == w, "verify " << (r ? "accepted" : "rejected") << " the last of these claims: " << log << "; its key " << rawstr(k.p) << " message " << hx(ms[m]) << " signature " << rawstr(s.p));
    }
    c.nontrivial(good && good < steps);
    c.note([&] { return log; });
}
