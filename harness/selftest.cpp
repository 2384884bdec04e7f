// Validates the reference model against published vectors; independent of /repo. With arguments, a small command
// line for tools/selftest.py: sha256|hmac|extract|expand ... in hex.
#include "ref.hpp"
#include "selftest_vectors.hpp"
#include <cstdio>
#include <cstring>
#include <iostream>
#include <sstream>
using namespace ref;
static int bad = 0;
static Bytes un(const std::string& h) {
    Bytes b;
    for (size_t i = 0; i + 1 < h.size(); i += 2) b.push_back(uint8_t(std::stoi(h.substr(i, 2), nullptr, 16)));
    return b;
}
static std::string hx(const Bytes& b) {
    std::string s;
    char t[3];
    for (auto x : b) { snprintf(t, 3, "%02x", x); s += t; }
    return s;
}
static Bytes str(const char* s) { return Bytes(s, s + strlen(s)); }
static void eq(const std::string& what, const std::string& got, const std::string& want) {
    if (got == want) return;
    bad++;
    fprintf(stderr, "selftest: %s\n  got  %s\n  want %s\n", what.c_str(), got.c_str(), want.c_str());
}
int main(int argc, char** argv) {
    if (argc > 1) { // lines "op hex..." on stdin
        std::string l;
        while (std::getline(std::cin, l)) {
            std::istringstream is(l);
            std::string op, a, b, c;
            is >> op >> a >> b >> c;
            auto d = [](const std::string& s) { return un(s.substr(1)); };
            Bytes r;
            if (op == "sha256") r = sha256(d(a));
            else if (op == "hmac") r = hmac(d(a), d(b));
            else if (op == "extract") r = hkdf_extract(d(a), d(b));
            else if (op == "expand") r = hkdf_expand(d(a), d(b), std::stoul(c));
            else if (op == "xmd") r = expand_xmd(d(a), d(b), std::stoul(c));
            else if (op == "mulmod") r = fbe(F::of(os2ip(d(a).data(), d(a).size())) * F::of(os2ip(d(b).data(), d(b).size())));
            else if (op == "inv") r = fbe(F::of(os2ip(d(a).data(), d(a).size())).inv());
            else if (op == "pow") r = fbe(F::of(os2ip(d(a).data(), d(a).size())).pow(os2ip(d(b).data(), d(b).size())));
            printf("%s\n", hx(r).c_str());
        }
        return 0;
    }
    // RFC 4231 case 1, RFC 5869 case 1, FIPS 180
    eq("sha256(abc)", hx(sha256(str("abc"))), "ba7816bf8f01cfea414140de5dae2223b00361a396177a9cb410ff61f20015ad");
    eq("hmac RFC4231/1", hx(hmac(Bytes(20, 0x0b), str("Hi There"))), "b0344c61d8db38535ca8afceaf0bf12b881dc200c9833da726e9376c2e32cff7");
    eq("hkdf RFC5869/1", hx(hkdf_expand(hkdf_extract(un("000102030405060708090a0b0c"), Bytes(22, 0x0b)), un("f0f1f2f3f4f5f6f7f8f9"), 42)), "3cb25f25faacd57a90434f64d0362f2a2d2d0a90cf1a5a4c5db02d56ecc4c5bf34007208d5b887185865");
    // RFC 9380 K.1
    eq("expand_message_xmd", hx(expand_xmd(str(""), str("QUUX-V01-CS02-with-expander-SHA256-128"), 32)), "68a985b87eb6b46952128911f2a4412bbc302a9d759667f87f7a21d803f07235");
    // curve: generators in the serialisation everybody uses, orders, cofactors
    eq("G1", hx(compress1(G1gen())), "97f1d3a73197d7942695638c4fa9ac0fc3688c4f9774b905a14e3a3f171bac586c55e83ff97a1aeffb3af00adb22c6bb");
    eq("G2", hx(compress2(G2gen())), "93e02b6052719f607dacd3a088274f65596bd0d09920b61ab5da61bbdc7f5049334cf11213945d57e5ac7d055d042b7e024aa2b2f08f0a91260805272dc51051c6e47ad4fa403b02b4510b647ae3d1770bac0326a805bbefd48056c8c121bdb8");
    eq("orders", std::to_string(G1gen().mul(R).inf) + std::to_string(G2gen().mul(R).inf), "11");
    eq("p = (x-1)^2 r/3 + x", P.get_str(), mpz_class((-mpz_class((unsigned long)X) - 1) * (-mpz_class((unsigned long)X) - 1) * R / 3 - mpz_class((unsigned long)X)).get_str());
    // EIP-2333
    auto eip = [](const char* seed, const char* m, const char* c, uint32_t i) {
        mpz_class sk = keygen(un(seed));
        eq("EIP-2333 master", hx(i2osp(sk, 32)), m);
        eq("EIP-2333 child", hx(i2osp(child_hardened(sk, i), 32)), c);
    };
    eip("3141592653589793238462643383279502884197169399375105820974944592", "4ff5e145590ed7b71e577bb04032396d1619ff41cb4e350053ed2dce8d1efd1c", "5c62dcf9654481292aafa3348f1d1b0017bbfb44d6881d26d2b17836b38f204d", 3141592653u);
    eip("0099FF991111002299DD7744EE3355BBDD8844115566CC55663355668888CC00", "1ebd704b86732c3f05f30563dee6189838e73998ebc9c209ccff422adee10c4b", "1b98db8b24296038eae3f64c25d693a269ef1e4d7ae0f691c572a46cf3c0913c", 4294967295u);
    eip("d4e56740f876aef8c010b86a40d5f56745a118d0906a34e69aec8c0db1cb8fa3", "614d21b10c0e4996ac0608e0e7452d5720d95d20fe03c59a3321000a42432e1a", "08de7136e4afc56ae3ec03b20517d9c1232705a747f588fd17832f36ae337526", 42);
    eip("c55257c360c07c72029aebc1b53c05ed0362ada38ead3e3e9efa3708e53495531f09a6987599d18264c1e1c92f2cf141630c7a3c4ab7c81b2f001698e7463b04", "0befcabff4a664461cc8f190cdd51c05621eb2837c71a1362df5b465a674ecfb", "1a1de3346883401f1e3b2281be5774080edb8e5ebe6f776b0f7af9fea942553a", 0);
    // hash to curve, keys, signatures
    for (auto& t : tv) {
        P2 h = hash_g2(str(t.msg), str("BLS_SIG_BLS12381G2_XMD:SHA-256_SSWU_RO_NUL_"));
        eq("hash to G2", hx(compress2(h)), t.hash);
        mpz_class sk = os2ip(un(t.sk).data(), 32);
        eq("public key", hx(compress1(G1gen().mul(sk))), t.pk);
        eq("signature", hx(compress2(h.mul(sk))), t.sig);
    }
    // pairing of the generators, highest coefficient first
    F2 x[2][3];
    to_tower(pairing(G1gen(), G2gen()), x);
    Bytes e;
    for (int k = 1; k >= 0; k--) for (int j = 2; j >= 0; j--) for (auto& f : {x[k][j].b, x[k][j].a}) { Bytes b = fbe(f); e.insert(e.end(), b.begin(), b.end()); }
    eq("pairing of the generators", hx(e), pairing_value);
    if (!bad) printf("selftest: reference model agrees with the published vectors\n");
    return bad ? 1 : 0;
}
