#include "ops.hpp"
#include <set>
#include <map>

namespace ops {
#define OP(NAME, COST, ...) {NAME, COST, [](Src& a, Out& o) { (void)a; (void)o; __VA_ARGS__; }}
#define FM(i) (a.num(i, 2) ? B::from_mont::yes : B::from_mont::no)
#define CO(i) B::conv_opt{.check_valid = a.num(i, 2) == 1, .to_mont = a.num(i + 1, 2) == 1}
// both the span form (exactly sized output) and the array form
#define ENC(T, N, M, V) OP(#T "::" #M, 0, const auto& v = V; auto fm = FM(0); uint8_t* out = a.buffer(0, N); v.M(std::span<uint8_t, N>(out, N), fm); o.put(out, N); auto r = v.M(fm); o(r))
#define DEC(T, N, M) OP(#T "::" #M, 0, auto in = a.fixed(0, N); o(B::T::M(std::span<const uint8_t, N>(in.data(), N), CO(0))))
#define FIELD(T, V) \
    OP(#T "::add", 0, o(V(0).add(V(1)))), OP(#T "::subtract", 0, o(V(0).subtract(V(1)))), OP(#T "::multiply", 0, o(V(0).multiply(V(1)))), \
    OP(#T "::dbl/negate/square", 0, o(V(0).dbl()); o(V(0).negate()); o(V(0).square())), \
    OP(#T "::addAssign", 0, B::T x(V(0)); x.addAssign(V(1)); o(x)), OP(#T "::subtractAssign", 0, B::T x(V(0)); x.subtractAssign(V(1)); o(x)), \
    OP(#T "::multiplyAssign", 0, B::T x(V(0)); x.multiplyAssign(V(1)); o(x)), OP(#T "::doubleAssign", 0, B::T x(V(0)); x.doubleAssign(); o(x)), \
    OP(#T "::squareAssign", 0, B::T x(V(0)); x.squareAssign(); o(x)), OP(#T "::self-aliased assigns", 0, B::T x(V(0)); x.multiplyAssign(x); x.addAssign(x); x.subtractAssign(x); o(x)), \
    OP(#T "::inverse", 0, o(V(0).inverse())), OP(#T "::queries", 0, o(V(0).isZero()); o(V(0).isOne()); o(V(0).equal(V(1)))), \
    OP(#T "::exp", 1, o(V(0).exp(a.s(0)))), OP(#T "::zero/one", 0, o(B::T::zero()); o(B::T::one())), \
    ENC(T, sizeof(B::T), toBytesBE, V(0)), ENC(T, sizeof(B::T), toBytesLE, V(0)), DEC(T, sizeof(B::T), fromBytesBE), DEC(T, sizeof(B::T), fromBytesLE)
#define GROUP(T, V, W, F, C) \
    OP(#T "::add", 0, o(V(0).add(V(1)))), OP(#T "::subtract", 0, o(V(0).subtract(V(1)))), OP(#T "::dbl", 0, o(V(0).dbl())), OP(#T "::negate", 0, o(V(0).negate())), \
    OP(#T "::addAssign", 0, B::T x(V(0)); x.addAssign(V(1)); o(x)), OP(#T "::subtractAssign", 0, B::T x(V(0)); x.subtractAssign(V(1)); o(x)), OP(#T "::doubleAssign", 0, B::T x(V(0)); x.doubleAssign(); o(x)), \
    OP(#T "::self-aliased assigns", 0, B::T x(V(0)); x.addAssign(x); x.subtractAssign(x); o(x)), \
    OP(#T "::affine", 0, o(V(0).affine())), OP(#T "::equal", 0, o(V(0).equal(V(1)))), OP(#T "::isZero/isAffine", 0, o(V(0).isZero()); o(V(0).isAffine())), OP(#T "::isOnCurve", 0, o(V(0).isOnCurve())), \
    OP(#T "::inCorrectSubgroup", 1, o(V(0).inCorrectSubgroup())), OP(#T "::clearCofactor", 1, o(V(0).clearCofactor())), \
    OP(#T "::scale<4>", 1, o(V(0).scale(a.s(0)))), OP(#T "::scale<1>", 1, o(V(0).scale(std::array<uint64_t, 1>{a.s(0)[0]}))), OP(#T "::scale<6>", 1, auto& s = a.s(0); o(V(0).scale(std::array<uint64_t, 6>{s[0], s[1], s[2], s[3], s[1], s[0]}))), \
    OP(#T "::weightedSum", 2, o(B::T::weightedSum(W(0), a.ss(0), a.yield(0)))), OP(#T "::mapToCurve", 1, o(B::T::mapToCurve(F(0)))), OP(#T "::zero/one/BASE", 0, o(B::T::zero()); o(B::T::one()); o(B::T::BASE)), \
    ENC(T, C * 6, toJacobianBytesBE, V(0)), ENC(T, C * 6, toJacobianBytesLE, V(0)), ENC(T, C * 4, toAffineBytesBE, V(0)), ENC(T, C * 4, toAffineBytesLE, V(0)), \
    DEC(T, C * 6, fromJacobianBytesBE), DEC(T, C * 6, fromJacobianBytesLE), DEC(T, C * 4, fromAffineBytesBE), DEC(T, C * 4, fromAffineBytesLE), \
    OP(#T "::toCompressedBytesBE", 0, uint8_t* out = a.buffer(0, C * 2); V(0).toCompressedBytesBE(std::span<uint8_t, C * 2>(out, C * 2)); o.put(out, C * 2); o(V(0).toCompressedBytesBE())), \
    OP(#T "::fromCompressedBytesBE", 0, auto in = a.fixed(0, C * 2); o(B::T::fromCompressedBytesBE(std::span<const uint8_t, C * 2>(in.data(), C * 2)))), \
    OP(#T "::compare", 0, o(V(0) <=> V(1)); o(V(0) == V(1)))

const std::vector<Op>& all() {
    static const std::vector<Op> v = {
        FIELD(fp, a.f), FIELD(fp2, a.f2), FIELD(fp6, a.f6), FIELD(fp12, a.f12),
        GROUP(g1, a.p, a.ps, a.f, 24), GROUP(g2, a.q, a.qs, a.f2, 48),
        // fp
        OP("fp::isValid/isOdd/isEven/sign/isLexicographicallyLargest", 0, auto& x = a.f(0); o(x.isValid()); o(x.isOdd()); o(x.isEven()); o(x.sign()); o(x.isLexicographicallyLargest())),
        OP("fp::cmp", 0, o(a.f(0).cmp(a.f(1))); o(a.f(0) <=> a.f(1)); o(a.f(0) == a.f(1))),
        OP("fp::div2", 0, B::fp x(a.f(0)); x.div2(a.num(0, 2)); o(x)), OP("fp::mul2", 0, B::fp x(a.f(0)); o(x.mul2()); o(x)),
        OP("fp::toMont", 0, o(a.f(0).toMont())), OP("fp::fromMont", 0, o(a.f(0).fromMont())), OP("fp::phi", 0, o(a.f(0).phi())),
        OP("fp::sqrt", 1, B::fp c = B::fp::zero(); bool r = a.f(0).sqrt(c); o(r); if (r) o(c)), OP("fp::isQuadraticNonResidue", 1, o(a.f(0).isQuadraticNonResidue())),
        OP("fp::exp<1>", 0, o(a.f(0).exp(std::array<uint64_t, 1>{a.s(0)[0]}))), OP("fp::exp<6>", 1, o(a.f(0).exp(B::fp::pMinus1Over2))),
        OP("fp::modPrime<6>", 0, auto& s = a.s(0); auto& t = a.s(1); o(B::fp::modPrime<6>({s[0], s[1], s[2], s[3], t[0], t[1]}))),
        OP("fp::modPrime<8>", 0, auto& s = a.s(0); auto& t = a.s(1); o(B::fp::modPrime<8>({s[0], s[1], s[2], s[3], t[0], t[1], t[2], t[3]}))),
        OP("_ladd/_ldouble/_lsubtract", 0, B::fp x; B::_ladd(&x, &a.f(0), &a.f(1)); o(x); B::_ldouble(&x, &a.f(0)); o(x); B::_lsubtract(&x, &a.f(0), &a.f(1)); o(x)),
        OP("_add/_double/_subtract/_negate/_square/_multiply", 0, B::fp x; B::_add(&x, &a.f(0), &a.f(1)); o(x); B::_double(&x, &a.f(0)); o(x); B::_subtract(&x, &a.f(0), &a.f(1)); o(x); B::_negate(&x, &a.f(0)); o(x); B::_square(&x, &a.f(1)); o(x); B::_multiply(&x, &a.f(0), &a.f(1)); o(x)),
        OP("fp constants", 0, o(B::fp::MODULUS); o(B::fp::INP); o(B::fp::R1); o(B::fp::R2); o(B::fp::B); o(B::fp::twoInv); o(B::fp::glvPhi1); o(B::fp::Q); o(B::fp::pPlus1Over4); o(B::fp::pMinus1Over2); o(B::fp::pMinus3Over4)),
        // fp2
        OP("fp2::conjugate/mulByNonResidue/mulByB", 0, o(a.f2(0).conjugate()); o(a.f2(0).mulByNonResidue()); o(a.f2(0).mulByB())),
        OP("fp2::mulByFq", 0, o(a.f2(0).mulByFq(a.f(0)))), OP("fp2::sign/isLexicographicallyLargest", 0, o(a.f2(0).sign()); o(a.f2(0).isLexicographicallyLargest())),
        OP("fp2::sqrt", 1, B::fp2 c = B::fp2::zero(); bool r = a.f2(0).sqrt(c); o(r); if (r) o(c)), OP("fp2::isQuadraticNonResidue", 1, o(a.f2(0).isQuadraticNonResidue())),
        OP("fp2::frobeniusMap", 0, o(a.f2(0).frobeniusMap(a.wide(0))); B::fp2 x(a.f2(0)); x.frobeniusMapAssign(a.wide(0)); o(x)),
        OP("fp2::compare", 0, o(a.f2(0) <=> a.f2(1)); o(a.f2(0) == a.f2(1))),
        OP("fp2 constants", 0, o(B::fp2::negativeOne2); o(B::fp2::B); o(B::fp2::psiX); o(B::fp2::psiY)),
        // fp6
        OP("fp6::mulBy01", 0, o(a.f6(0).mulBy01(a.f2(0), a.f2(1)))), OP("fp6::mulBy01Assign", 0, B::fp6 x(a.f6(0)); x.mulBy01Assign(a.f2(0), a.f2(1)); o(x)),
        OP("fp6::mulBy1/mulByBaseField/mulByNonResidue", 0, o(a.f6(0).mulBy1(a.f2(0))); o(a.f6(0).mulByBaseField(a.f2(0))); o(a.f6(0).mulByNonResidue())),
        OP("fp6::frobeniusMap", 0, o(a.f6(0).frobeniusMap(a.wide(0))); B::fp6 x(a.f6(0)); x.frobeniusMapAssign(a.wide(0)); o(x)),
        // fp12
        OP("fp12::conjugate", 0, o(a.f12(0).conjugate())), OP("fp12::isGtValid", 1, o(a.cyc(0).isGtValid())),
        OP("fp12::cyclotomicSquare", 0, o(a.cyc(0).cyclotomicSquare()); B::fp12 x(a.cyc(0)); x.cyclotomicSquareAssign(); o(x)),
        OP("fp12::cyclotomicExp", 1, o(a.cyc(0).cyclotomicExp(a.s(0)))), OP("fp12::fp4Square", 0, o(B::fp12::fp4Square(a.f2(0), a.f2(1)))),
        OP("fp12::mulBy014Assign", 0, B::fp12 x(a.f12(0)); x.mulBy014Assign(a.f2(0), a.f2(1), a.f2(2)); o(x)),
        OP("fp12::frobeniusMap", 0, o(a.f12(0).frobeniusMap(a.wide(0))); B::fp12 x(a.f12(0)); x.frobeniusMapAssign(a.wide(0)); o(x)),
        // groups
        OP("g1::glvEndomorphism", 0, o(a.p(0).glvEndomorphism())), OP("g2::psi", 0, o(a.q(0).psi())), OP("g2::frobeniusMap", 0, o(a.q(0).frobeniusMap(int64_t(a.num(0, 24)) - 3))),
        OP("g1::swuMapG1/isogenyMapG1", 1, auto t = B::g1::swuMapG1(a.f(0)); o(t); B::fp x(std::get<0>(t)); B::fp y(std::get<1>(t)); B::g1::isogenyMapG1(x, y); o(x); o(y)),
        OP("g1::isogenyMapG1", 1, B::fp x(a.f(0)); B::fp y(a.f(1)); B::g1::isogenyMapG1(x, y); o(x); o(y)),
        OP("g2::swuMapG2", 1, o(B::g2::swuMapG2(a.f2(0)))), OP("g2::isogenyMap", 0, o(a.q(0).isogenyMap())),
        OP("containers of points", 0, std::set<B::g1> s; for (auto& x : a.ps(0)) s.insert(x); o(uint64_t(s.size())); std::map<B::g2, int> m; int n = 0; for (auto& x : a.qs(0)) m[x] += ++n; for (auto& e : m) o(e.second)),
        // scalars and text
        OP("scalar::bytes", 0, o(B::scalar::toBytesBE(a.s(0))); o(B::scalar::toBytesLE(a.s(0))); auto in = a.fixed(0, 32); std::span<const uint8_t, 32> sp(in.data(), 32); o(B::scalar::fromBytesBE<4>(sp)); o(B::scalar::fromBytesLE<4>(sp));
            Sc4 x; B::scalar::fromBytesBE(sp, x); o(x); uint8_t* out = a.buffer(0, 32); B::scalar::toBytesLE(a.s(0), std::span<uint8_t, 32>(out, 32)); o.put(out, 32)),
        OP("scalar::add", 0, o(B::scalar::add<5, 4, 4>(a.s(0), a.s(1))); o(B::scalar::add<6, 4, 3>(a.s(0), std::array<uint64_t, 3>{a.s(1)[0], a.s(1)[1], a.s(1)[2]}))),
        OP("scalar::add<4> (may throw)", 0, o(B::scalar::add<4, 4, 4>(a.s(0), a.s(1)))),
        OP("scalar::multiply", 0, o(B::scalar::multiply<8, 4, 4>(a.s(0), a.s(1)))), OP("scalar::cmp/equal/bitLength", 0, o(B::scalar::cmp(a.s(0), a.s(1))); o(B::scalar::equal(a.s(0), a.s(1))); o(B::scalar::bitLength(a.s(0)))),
        OP("scalar::rsh", 0, Sc4 x; B::scalar::rsh(x, a.s(0), a.wide(0)); o(x); Sc4 y(a.s(0)); B::scalar::rsh(y, y, a.wide(1)); o(y)),
        OP("bn_divn_safe<4,4>", 0, Sc4 c, d; if (a.s(1) != Sc4{}) { B::bn_divn_safe(c, d, a.s(0), a.s(1)); o(c); o(d); }),
        OP("bn_divn_safe<8,4>", 0, std::array<uint64_t, 8> c; Sc4 d; auto& s = a.s(0); auto& t = a.s(1); if (a.s(2) != Sc4{}) { B::bn_divn_safe(c, d, std::array<uint64_t, 8>{s[0], s[1], s[2], s[3], t[0], t[1], t[2], t[3]}, a.s(2)); o(c); o(d); }),
        OP("Add64/Sub64/Mul64/madd*", 0, uint64_t x = a.s(0)[0], y = a.s(0)[1], z = a.s(0)[2], w = a.s(0)[3], cy = a.num(0, 2); o(B::Add64(x, y, cy)); o(B::Sub64(x, y, cy)); o(B::Mul64(x, y)); o(B::madd0(x, y, z)); o(B::madd1(x, y, z)); o(B::madd2(x, y, z, w)); o(B::madd3(x, y, z, w, cy));
            auto m = B::madd2s(x, y, z, w, cy); o(std::get<0>(m)); o(std::get<1>(m)); o(std::get<2>(m))),
        OP("bytesToHex", 0, o(B::bytesToHex(a.bytes(0))); auto in = a.fixed(0, 48); o(B::bytesToHex<48>(std::span<const uint8_t, 48>(in.data(), 48)))),
        OP("hexToBytes(string)", 0, auto r = B::hexToBytes(a.sv(0)); o(r)),
        OP("hexToBytes<N>", 0, o(B::hexToBytes<48>(a.hextext(0, 48))); o(B::hexToBytes<1>(a.hextext(1, 1)))),
        // hashing
        OP("hkdf256_hmac", 0, auto in = a.bytes(0); auto key = a.bytes(1); uint8_t* out = a.buffer(0, 32); int r = B::hkdf256_hmac(out, in.data(), in.size(), key.data(), key.size()); o(r); if (!r) o.put(out, 32)),
        OP("hkdf256_extract", 0, auto in = a.bytes(0); auto salt = a.bytes(1); uint8_t* out = a.buffer(0, 32); int r = B::hkdf256_extract(out, salt.data(), salt.size(), in.data(), in.size()); o(r); if (!r) o.put(out, 32)),
        OP("hkdf256_expand", 1, auto prk = a.fixed(0, 32); auto info = a.bytes(1); size_t n = a.num(0, 600); uint8_t* out = a.buffer(0, n); int r = B::hkdf256_expand(out, n, prk.data(), info.data(), info.size()); o(r); if (!r) o.put(out, n)),
        OP("hkdf256_extract_expand", 1, auto key = a.bytes(0); auto salt = a.bytes(1); auto info = a.bytes(2); size_t n = a.num(0, 400); uint8_t* out = a.buffer(0, n); int r = B::hkdf256_extract_expand(out, n, key.data(), key.size(), salt.data(), salt.size(), info.data(), info.size()); o(r); if (!r) o.put(out, n)),
        OP("hkdf256_expand (over the limit)", 1, auto prk = a.fixed(0, 32); size_t n = 255 * 32 - 2 + a.num(0, 5); uint8_t* out = a.buffer(0, n); int r = B::hkdf256_expand(out, n, prk.data(), nullptr, 0); o(r); if (!r) o.put(out, n)),
        OP("xmd_sh256", 1, auto in = a.bytes(0); auto dst = a.bytes(1); size_t n = a.num(0, 8300); uint8_t* out = a.buffer(0, n); int r = B::xmd_sh256(out, int(n), in.data(), in.size(), dst.data(), int(dst.size())); o(r); if (!r) o.put(out, n)),
        OP("fromMessage", 2, o(B::fromMessage(a.bytes(0), a.text(1)))),
        OP("fromMessage (fixed tag)", 2, o(B::fromMessage(a.bytes(0), a.num(0, 2) ? B::CIPHERSUITE_ID : B::POP_CIPHERSUITE_ID))),
        // keys
        OP("secret_key", 1, o(B::secret_key(a.bytes(0)))), OP("public_key", 1, o(B::public_key(a.k(0)))), OP("public_key (any scalar)", 1, o(B::public_key(a.s(0)))),
        OP("sk_from_bytes", 0, auto in = a.fixed(0, 32); std::array<uint8_t, 32> x; memcpy(x.data(), in.data(), 32); o(B::sk_from_bytes(x, a.num(0, 2)))), OP("sk_to_bytes", 0, o(B::sk_to_bytes(a.k(0)))),
        OP("ikm_to_lamport_sk", 2, auto ikm = a.bytes(0); auto salt = a.bytes(1); uint8_t* out = a.buffer(0, 32 * 255); B::ikm_to_lamport_sk(out, ikm.data(), ikm.size(), salt.data(), salt.size()); o.put(out, 32 * 255)),
        OP("parent_sk_to_lamport_pk", 2, uint8_t* out = a.buffer(0, 32); B::parent_sk_to_lamport_pk(out, a.k(0), uint32_t(a.num(0, 1ull << 32))); o.put(out, 32)),
        OP("derive_child_sk", 2, o(B::derive_child_sk(a.k(0), uint32_t(a.num(0, 1ull << 32))))), OP("derive_child_sk_unhardened", 1, o(B::derive_child_sk_unhardened(a.k(0), uint32_t(a.num(0, 1ull << 32))))),
        OP("derive_child_g1_unhardened", 1, o(B::derive_child_g1_unhardened(a.p(0), uint32_t(a.num(0, 1ull << 32))))), OP("derive_child_g2_unhardened", 1, o(B::derive_child_g2_unhardened(a.q(0), uint32_t(a.num(0, 1ull << 32))))),
        OP("aggregate_secret_keys", 0, o(B::aggregate_secret_keys(a.ss(0)))),
        // signatures
        OP("sign", 2, o(B::sign(a.k(0), a.bytes(0)))), OP("sign+verify", 2, auto s = B::sign(a.k(0), a.bytes(0)); o(s); o(B::verify(B::public_key(a.k(0)), a.bytes(0), s)); o(B::verify(B::public_key(a.k(0)), a.bytes(1), s))),
        OP("verify", 2, o(B::verify(a.p(0), a.bytes(0), a.q(0)))), OP("pop_prove", 2, o(B::pop_prove(a.k(0)))),
        OP("pop_prove+pop_verify", 2, auto s = B::pop_prove(a.k(0)); auto pk = B::public_key(a.k(0)); o(s); o(B::pop_verify(pk, s)); o(B::pop_verify(a.p(0), s))), OP("pop_verify", 2, o(B::pop_verify(a.p(0), a.q(0)))),
        OP("aggregate_public_keys", 1, o(B::aggregate_public_keys(a.ps(0)))), OP("aggregate_signatures", 1, o(B::aggregate_signatures(a.qs(0)))),
        OP("aggregate_public_keys (accessor)", 1, auto l = a.ps(0); size_t at = 0; o(B::aggregate_public_keys(l, [](const B::g1& x) -> const B::g1& { return x; }, [&](const B::g1&, size_t i) { at += i; return (a.num(0, 1ull << 32) >> (i & 31)) & 1; })); o(uint64_t(at))),
        OP("aggregate_signatures (accessor)", 1, auto l = a.qs(0); o(B::aggregate_signatures(l, [](const B::g2& x) { return x; }))),
        OP("aggregate_verify", 2, o(B::aggregate_verify(a.ps(0), a.msgs(0), a.q(0), a.num(0, 2)))),
        OP("signed aggregate_verify", 2, auto& m = a.msgs(0); std::vector<B::g1> pk; std::vector<B::g2> sg; for (size_t i = 0; i < m.size(); i++) { auto& k = a.k(int(i & 3)); pk.push_back(B::public_key(k)); sg.push_back(B::sign(k, m[i])); } o(B::aggregate_verify(pk, m, B::aggregate_signatures(sg), a.num(0, 2)))),
        OP("pop_fast_aggregate_verify", 2, o(B::pop_fast_aggregate_verify(a.ps(0), a.bytes(0), a.q(0)))),
        OP("signed pop_fast_aggregate_verify", 2, std::vector<B::g1> pk; std::vector<B::g2> sg; for (int i = 0; i < 3; i++) { pk.push_back(B::public_key(a.k(i))); sg.push_back(B::sign(a.k(i), a.bytes(0))); } o(B::pop_fast_aggregate_verify(pk, a.bytes(0), B::aggregate_signatures(sg)))),
        // pairing
        OP("pairing::calculate", 2, o(B::pairing::calculate(a.pairs(0), a.yield(0)))), OP("pairing::miller_loop", 2, o(B::pairing::miller_loop(a.pairs(0), a.yield(0)))),
        OP("pairing::calculate (one pair)", 2, std::vector<std::tuple<B::g1, B::g2>> v; B::pairing::add_pair(v, a.p(0), a.q(0)); o(uint64_t(v.size())); o(B::pairing::calculate(v))),
        OP("pairing::final_exponentiation", 2, B::fp12 x(a.f12(0)); B::pairing::final_exponentiation(x); o(x)),
        OP("pairing::add_pair", 0, std::vector<std::tuple<B::g1, B::g2>> v; for (int i = 0; i < 3; i++) B::pairing::add_pair(v, a.p(i), a.q(i)); o(uint64_t(v.size())); for (auto& t : v) o(t)),
        OP("pairing::doubling_step", 0, std::array<B::fp2, 3> e; B::g2 r(a.q(0)); B::pairing::doubling_step(e, r); for (auto& x : e) o(x); o(r)),
        OP("names", 0, o(B::CIPHERSUITE_ID); o(B::POP_CIPHERSUITE_ID)),
    };
    return v;
}
} // namespace ops
