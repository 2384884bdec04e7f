#include "sig.hpp"
using namespace ref;
using namespace sig;
PROPERTY("P22")

static Bytes popMsg(const P1& p) { // little-endian affine bytes
    if (p.inf) return Bytes(96, 0);
    Bytes x = fbe(p.x), y = fbe(p.y);
    std::reverse(x.begin(), x.end());
    std::reverse(y.begin(), y.end());
    x.insert(x.end(), y.begin(), y.end());
    return x;
}
static P2 HK(const P1& p) { return HP(popMsg(p)); }
static mpz_class genSk(Gen& g) {
    if (g.chance(1, 4)) {
        static const std::vector<mpz_class> e{1, 2, R - 1, R - 2, R / 2, R / 2 + 1, mpz_class(ref::X), mpz_class(ref::X) * mpz_class(ref::X)};
        return g.pick(e);
    }
    // a recurring pool keeps the memoised hashes useful
    if (g.flip()) { Gen d = Gen::derived(g.below(100)); return genKey(d); }
    return genKey(g);
}
PROP(prove_and_verify, 900, 15000) {
    mpz_class k = genSk(g);
    c.nontrivial(k > 1);
    c.note([&] { return "key " + zs(k); });
    P1 pk = g1mul(k);
    B::g2 pf = B::pop_prove(S4(k));
    P2 w = HK(pk).mul(k);
    CHECK(V(pf) == w, "pop_prove(" << zs(k) << ") = " << V(pf).str() << ", expected " << w.str());
    CHECK(B::pop_verify(B::public_key(S4(k)), pf), "pop_verify rejected the proof of key " << zs(k));
    B::g1 a = travel(g, rep(g, pk), c), a0 = a;
    B::g2 b = travel(g, rep(g, w), c), b0 = b;
    CHECK(B::pop_verify(a, b), "pop_verify rejected the proof of key " << zs(k) << " as " << rawstr(a) << " " << rawstr(b));
    CHECK(same(a, a0) && same(b, b0), "pop_verify changed its arguments");
}
PROP(false_proofs, 2000, 40000) {
    mpz_class k = genSk(g);
    P1 pk = g1mul(k);
    P2 pf = HK(pk).mul(k);
    const char* how = "";
    B::g1 a = rep(g, pk);
    B::g2 b = rep(g, pf);
    switch (g.below(15)) {
    case 0: { how = "proof of another key"; mpz_class j = genSk(g); if (j == k) j = k % (R - 1) + 1; b = rep(g, HK(g1mul(j)).mul(j)); break; }
    case 1: { how = "another key"; mpz_class j = genSk(g); if (j == k) j = k % (R - 1) + 1; a = rep(g, g1mul(j)); break; }
    case 2: how = "negated key"; a = rep(g, -pk); break;
    case 3: how = "negated key and proof"; a = rep(g, -pk); b = rep(g, -pf); break;
    case 4: how = "negated proof"; b = rep(g, -pf); break;
    case 5: how = "proof plus a subgroup point"; b = rep(g, pf + genSub2(g, false).p); break;
    case 6: how = "signature on the key bytes under the basic tag"; b = rep(g, H(popMsg(pk)).mul(k)); break;
    case 7: how = "signature on a message"; b = rep(g, H(genM(g)).mul(k)); break;
    case 8: how = "key plus a point of cofactor order, its own hash"; { P1 t = pk + genTorsion1(g); a = rep(g, t); b = rep(g, HK(t).mul(k)); } break;
    case 9: how = "proof plus a point of cofactor order"; b = rep(g, pf + genTorsion2(g)); break;
    case 10: how = "key of cofactor order, infinite proof"; a = rep(g, genTorsion1(g)); b = rep(g, P2::infinity()); break;
    case 11: a = bad1(g, pk, &how); break;
    case 12: b = bad2(g, pf, &how); break;
    case 13: { how = "key (0,y) off the curve, infinite proof"; F y = genF(g); if (y * y == F::of(4) || y.is_zero()) y = F::of(3); a = B::g1({L(F::zero()), L(y), L(F::one())}); b = rep(g, P2::infinity()); break; }
    default: how = "infinite proof"; b = rep(g, P2::infinity());
    }
    c.nontrivial();
    c.label(how);
    c.note([&] { return std::string(how) + ", key " + zs(k); });
    CHECK(!B::pop_verify(a, b), "pop_verify accepted (" << how << ") for key " << zs(k) << ": " << rawstr(a) << " " << rawstr(b));
}
PROP(proof_is_no_signature, 300, 5000) {
    mpz_class k = genSk(g);
    P1 pk = g1mul(k);
    c.nontrivial();
    c.note([&] { return "key " + zs(k); });
    B::g2 pf = B::pop_prove(S4(k));
    B::g1 a = B::public_key(S4(k));
    Bytes m = popMsg(pk);
    CHECK(!B::verify(a, m, pf), "a proof of possession verifies as a signature on the key bytes, key " << zs(k));
    CHECK(!B::pop_verify(a, B::sign(S4(k), m)), "a signature on the key bytes passes as proof of possession, key " << zs(k));
    Bytes cm = compress1(pk);
    CHECK(!B::pop_verify(a, B::sign(S4(k), cm)), "a signature on the compressed key passes as proof of possession, key " << zs(k));
}
PROP(fast_aggregate, 900, 15000) {
    size_t n = g.weighted({5, 2}) == 0 ? g.range(1, 4) : g.range(5, 40);
    Bytes m = genM(g);
    std::vector<mpz_class> ks;
    std::vector<B::g1> pks;
    mpz_class s = 0;
    P1 tors = P1::infinity();
    for (size_t i = 0; i < n; i++) {
        mpz_class k = genKey(g);
        if (i && g.chance(1, 6)) k = ks[g.below(i)];
        if (i && g.chance(1, 10)) k = (R - ks[g.below(i)]) % R; // rogue key cancelling another
        ks.push_back(k);
        pks.push_back(rep(g, g1mul(k)));
        s = (s + k) % R;
    }
    P2 h = H(m), sg = h.mul(s);
    const char* how = "honest";
    bool keys_ok = true;
    switch (g.weighted({4, 1, 1, 1, 1, 1, 1, 1, 1, 1})) {
    case 0: break;
    case 1: how = "other message"; m = mutate(g, m); h = H(m); break;
    case 2: { how = "one key missing"; size_t i = g.below(n); pks.erase(pks.begin() + i); s = (s + R - ks[i]) % R; break; }
    case 3: { how = "one key added"; K1 t = genSub1(g); pks.push_back(rep(g, t.p)); s = (s + t.k) % R; break; }
    case 4: how = "other signature"; sg = genSub2(g).p; break;
    case 5: how = "signature plus a cofactor point"; sg = sg + genTorsion2(g); break;
    case 6: { how = "sum of the keys off the subgroup"; size_t i = g.below(n); pks[i] = rep(g, g1mul(ks[i]) + genTorsion1(g)); keys_ok = false; break; }
    case 7: { how = "one key repeated"; size_t i = g.below(n); pks.push_back(pks[i]); s = (s + ks[i]) % R; break; }
    case 8: how = "infinite key added"; pks.push_back(rep(g, P1::infinity())); break;
    default: how = "infinite signature"; sg = P2::infinity();
    }
    for (size_t i = pks.size(); i > 1; i--) std::swap(pks[i - 1], pks[g.below(i)]);
    c.label(how);
    c.nontrivial(n >= 2);
    c.note([&] { return std::string(how) + ", " + std::to_string(pks.size()) + " keys, message " + hx(m); });
    B::g2 b = rep(g, sg);
    bool r = B::pop_fast_aggregate_verify(pks, m, b);
    if (pks.empty()) { CHECK(!r, "pop_fast_aggregate_verify accepted an empty list"); return; }
    bool w = keys_ok && sg == h.mul(s);
    if (keys_ok && s == 0) { // the sum is infinity: only agreement with plain verification is demanded
        c.label("keys sum to infinity");
        w = B::verify(B::aggregate_public_keys(pks), m, b);
        if (sg != P2::infinity()) CHECK(!r, "pop_fast_aggregate_verify accepted a non-zero signature for keys that sum to infinity");
    }
    CHECK(r == w, "pop_fast_aggregate_verify " << (r ? "accepted" : "rejected") << " (" << how << "): " << pks.size() << " keys, sum of secrets " << zs(s) << ", message " << hx(m) << " signature " << sg.str());
    CHECK(B::pop_fast_aggregate_verify({}, m, b) == false, "pop_fast_aggregate_verify accepted an empty list");
}
PROP(scheme, 150, 3000) { // signers prove possession, then their aggregate verifies
    size_t n = g.range(1, 5);
    Bytes m = genM(g);
    std::vector<B::g1> pks;
    std::vector<B::g2> sigs;
    std::vector<mpz_class> ks;
    for (size_t i = 0; i < n; i++) {
        mpz_class k = genSk(g);
        ks.push_back(k);
        pks.push_back(B::public_key(S4(k)));
        CHECK(B::pop_verify(pks.back(), B::pop_prove(S4(k))), "proof of key " << zs(k) << " rejected");
        sigs.push_back(B::sign(S4(k), m));
    }
    mpz_class s = 0;
    for (auto& k : ks) s += k;
    c.nontrivial(n >= 2);
    c.note([&] { return std::to_string(n) + " signers of " + hx(m); });
    if (s % R == 0) return;
    B::g2 a = B::aggregate_signatures(sigs);
    CHECK(B::pop_fast_aggregate_verify(pks, m, a), "fast aggregate verification rejected " << n << " honest signers of " << hx(m));
    sigs.pop_back();
    CHECK(!B::pop_fast_aggregate_verify(pks, m, B::aggregate_signatures(sigs)), "fast aggregate verification accepted an incomplete aggregate of " << n << " signers");
}
// A row of claims about lists that differ in one place: the verdict on each is the same whatever was asked before
PROP(session, 300, 6000) {
    std::vector<mpz_class> pool;
    size_t np = g.range(2, 7);
    for (size_t i = 0; i < np; i++) pool.push_back(genKey(g));
    Bytes m[2] = {genM(g), {}};
    m[1] = mutate(g, m[0]);
    P2 h[2] = {H(m[0]), H(m[1])};
    std::vector<size_t> l;
    for (size_t i = 0, n = g.range(1, 6); i < n; i++) l.push_back(g.below(np));
    std::vector<B::g1> keys;
    for (auto& k : pool) keys.push_back(rep(g, g1mul(k)));
    B::g1 tors = rep(g, genTorsion1(g));
    mpz_class sk = 0; // the sum the signature is for
    int sm = 0;
    size_t steps = g.range(3, 10), good = 0;
    std::string log;
    for (size_t i = 0; i < steps; i++) {
        bool t = false;
        switch (i ? g.below(8) : 7) {
        case 0: break;
        case 1: l[g.below(l.size())] = g.below(np); break;
        case 2: std::swap(l[g.below(l.size())], l[g.below(l.size())]); break;
        case 3: if (l.size() > 1) l.erase(l.begin() + g.below(l.size())); break;
        case 4: l.insert(l.begin() + g.below(l.size() + 1), g.below(np)); break;
        case 5: t = true; break;
        case 6: sm = int(g.below(2)); break;
        default: break;
        }
        mpz_class s = 0;
        for (size_t j : l) s += pool[j];
        s %= R;
        if (i == 0 || g.chance(1, 3)) sk = s;
        int qm = g.chance(1, 5) ? 1 - sm : sm;
        if (s == 0) continue;
        std::vector<B::g1> pks;
        log += (i ? "; (" : "(");
        for (size_t j : l) { pks.push_back(keys[j]); log += std::to_string(j) + " "; }
        if (t) { size_t j = g.below(pks.size()); pks[j] = pks[j].add(tors); log += "with a cofactor point at " + std::to_string(j); }
        bool w = !t && s == sk && qm == sm;
        good += w;
        log += std::string(") on message ") + std::to_string(qm) + (s == sk && qm == sm ? ", signature of the list" : ", other signature");
        P2 sg = h[sm].mul(sk);
        bool r = B::pop_fast_aggregate_verify(pks, m[qm], rep(g, sg));
        CHECK(r == w, "pop_fast_aggregate_verify " << (r ? "accepted" : "rejected") << " the last of these claims: " << log << "; message " << hx(m[qm]) << " signature " << sg.str());
    }
    c.nontrivial(good && good < steps);
    c.note([&] { return log; });
}
// The same for single proofs
PROP(proof_session, 300, 6000) {
    struct Key { mpz_class k; bool good; B::g1 p; };
    std::vector<Key> ks;
    std::vector<std::pair<int, B::g2>> pf; // for which key, -1 none
    for (int i = 0; i < 3; i++) {
        mpz_class k = genSk(g);
        P1 p = g1mul(k);
        bool known = false;
        for (auto& o : ks) known |= o.good && o.k == k;
        if (known) continue;
        ks.push_back({k, true, rep(g, p)});
        P2 w = HK(p).mul(k);
        pf.push_back({int(ks.size()) - 1, rep(g, w)});
        if (g.chance(1, 3)) pf.push_back({-1, rep(g, w + genTorsion2(g))});
        if (g.chance(1, 3)) { ks.push_back({k, false, rep(g, p + genTorsion1(g))}); pf.push_back({-1, rep(g, HK(p + genTorsion1(g)).mul(k))}); }
        if (g.chance(1, 3)) { const char* h; ks.push_back({k, false, bad1(g, p, &h)}); }
    }
    pf.push_back({-1, rep(g, P2::infinity())});
    ks.push_back({0, false, rep(g, genTorsion1(g))});
    size_t steps = g.range(3, 10), a = 0, b = 0, good = 0;
    std::string log;
    for (size_t i = 0; i < steps; i++) {
        switch (i ? g.below(5) : 4) {
        case 0: break;
        case 1: a = g.below(ks.size()); break;
        case 2: b = g.below(pf.size()); break;
        case 3: for (size_t t = 0; t < pf.size(); t++) if (pf[t].first == int(a)) b = t; break;
        default: a = g.below(ks.size()); b = g.below(pf.size());
        }
        bool w = ks[a].good && pf[b].first == int(a);
        good += w;
        log += (i ? "; key " : "key ") + std::to_string(a) + (ks[a].good ? "" : " (bad)") + " proof " + std::to_string(b);
        bool r = B::pop_verify(ks[a].p, pf[b].second);
        CHECK(r == w, "pop_verify " << (r ? "accepted" : "rejected") << " the last of these claims: " << log << "; its key " << rawstr(ks[a].p) << " proof " << rawstr(pf[b].second));
    }
    c.nontrivial(good && good < steps);
    c.note([&] { return log; });
}

PROP(long_list, 60, 1500) {
    static const std::vector<size_t> e{41, 63, 64, 65, 100, 127, 128, 129, 255, 256, 257, 511, 512, 513, 1000, 1024, 1025, 2000, 2048, 2049, 4096, 5000};
    size_t n = std::min<size_t>(g.flip() ? g.range(41, 300) : g.pick(e), c.thorough ? 5000 : 2100);
    int what = int(g.below(7));
    size_t i = g.flip() ? g.below(n) : g.flip() ? n - 1 : 0;
    Bytes m = genM(g);
    Gen d = Gen::derived(g.raw());
    std::vector<mpz_class> ks;
    std::vector<B::g1> pks;
    mpz_class s = 0;
    std::vector<K1> few;
    for (int t = 0; t < 24; t++) few.push_back(genSub1(d, false));
    for (size_t t = 0; t < n; t++) { // differing sums of a few points, in arbitrary representations
        const K1 &a = few[d.below(few.size())], &b = few[d.below(few.size())];
        bool neg = d.flip();
        mpz_class k = (a.k + (neg ? mpz_class(R - b.k) : b.k)) % R;
        ks.push_back(k);
        pks.push_back(rep(d, a.p + (neg ? -b.p : b.p)));
        s = (s + k) % R;
    }
    if (s == 0) throw pbt::Discard{};
    P2 h = H(m), sg = h.mul(s);
    const char* how = "honest";
    bool w = true;
    switch (what) {
    case 0: case 1: break;
    case 2: how = "a key missing"; w = ks[i] == 0; pks.erase(pks.begin() + i); break;
    case 3: how = "a key repeated"; w = ks[i] == 0; pks.push_back(pks[i]); break;
    case 4: how = "a cofactor point added to a key"; pks[i] = rep(d, V(pks[i]) + genTorsion1(d)); w = false; break;
    case 5: how = "keys exchanged"; std::swap(pks[i], pks[d.below(n)]); break;
    default: how = "a signer missing"; sg = sg - h.mul(ks[i]); w = ks[i] == 0;
    }
    if ((s + (what == 2 ? R - ks[i] : what == 3 ? ks[i] : mpz_class(0))) % R == 0) throw pbt::Discard{};
    c.nontrivial();
    c.label(how);
    std::string desc = std::to_string(n) + " keys, " + how + " at " + std::to_string(i);
    c.note([&] { return desc; });
    bool r = B::pop_fast_aggregate_verify(pks, m, rep(g, sg));
    CHECK(r == w, "pop_fast_aggregate_verify " << (r ? "accepted" : "rejected") << " " << desc << ", message " << hx(m));
}
