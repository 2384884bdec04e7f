#include "../common.hpp"
#include "../malloc_count.hpp"
#include "../huge.hpp"
using namespace ref;
PROPERTY("P13")

// an output buffer with guard bytes on both sides
struct Out {
    std::vector<uint8_t> v;
    size_t n;
    uint8_t fill;
    Out(size_t n, uint8_t fill) : v(n + 128, fill), n(n), fill(fill) {}
    uint8_t* p() { return v.data() + 64; }
    Bytes get() const { return Bytes(v.begin() + 64, v.begin() + 64 + n); }
    bool guards() const {
        for (size_t i = 0; i < 64; i++) if (v[i] != fill || v[64 + n + i] != fill) return false;
        return true;
    }
    bool untouched() const {
        for (auto b : v) if (b != fill) return false;
        return true;
    }
};
static Bytes big(Gen& g, size_t maxlen) { // mostly small, sometimes long
    if (g.chance(1, 12)) {
        static const std::vector<size_t> n{255, 256, 257, 1000, 4095, 4096, 65535, 65536, 65537, 70001};
        size_t k = std::min(g.pick(n), maxlen);
        Gen d = Gen::derived(g.raw());
        Bytes b(k);
        d.bytes(b.data(), k);
        return b;
    }
    return genBytes(g, 300);
}
static Bytes genPRK(Gen& g) {
    Bytes b(32);
    switch (g.weighted({4, 1, 1})) {
    case 0: g.bytes(b.data(), 32); break;
    case 1: break;
    default: std::fill(b.begin(), b.end(), 0xff);
    }
    return b;
}
static size_t genL(Gen& g) {
    switch (g.weighted({4, 2, 2})) {
    case 0: return g.range(1, 200);
    case 1: return 32 * g.range(1, 255);
    default: { static const std::vector<size_t> n{1, 31, 32, 33, 47, 48, 63, 64, 65, 255, 256, 257, 8127, 8128, 8129, 8159, 8160}; return g.pick(n); }
    }
}
#define LEAK(CALL, WHAT) do { long l_ = mc::leaked([&] { CALL; }); CHECK(l_ == 0, WHAT << " leaks " << l_ << " heap blocks per call"); } while (0)
static const uint8_t* ptr(const Bytes& b) { static const uint8_t z = 0; return b.empty() ? &z : b.data(); }

PROP(hmac, 20000, 400000) {
    Bytes key = big(g, 1u << 20), msg = big(g, 1u << 20);
    c.nontrivial(!key.empty() && !msg.empty());
    c.label(key.size() > 64 ? "key over a block" : key.size() == 64 ? "key of a block" : "key under a block");
    c.note([&] { return "key " + hx(key) + " message " + hx(msg); });
    Out o(32, uint8_t(g.below(256)));
    Bytes k0 = key, m0 = msg;
    int rc = B::hkdf256_hmac(o.p(), ptr(msg), msg.size(), ptr(key), key.size());
    CHECK(rc == 0, "hkdf256_hmac returned " << rc);
    CHECK(o.get() == hmac(key, msg), "HMAC(key " << hx(key) << ", message " << hx(msg) << ") = " << hx(o.get()) << ", expected " << hx(hmac(key, msg)));
    CHECK(o.guards() && key == k0 && msg == m0, "hkdf256_hmac wrote outside its output");
    LEAK(B::hkdf256_hmac(o.p(), ptr(msg), msg.size(), ptr(key), key.size()), "hkdf256_hmac");
}
PROP(extract, 10000, 200000) {
    Bytes salt = big(g, 1u << 20), ikm = big(g, 1u << 20);
    c.nontrivial(!salt.empty() && !ikm.empty());
    c.note([&] { return "salt " + hx(salt) + " key material " + hx(ikm); });
    Out o(32, uint8_t(g.below(256)));
    int rc = B::hkdf256_extract(o.p(), ptr(salt), salt.size(), ptr(ikm), ikm.size());
    CHECK(rc == 0, "hkdf256_extract returned " << rc);
    CHECK(o.get() == hkdf_extract(salt, ikm), "HKDF-Extract(salt " << hx(salt) << ", ikm " << hx(ikm) << ") = " << hx(o.get()) << ", expected " << hx(hkdf_extract(salt, ikm)));
    CHECK(o.guards(), "hkdf256_extract wrote outside its output");
    LEAK(B::hkdf256_extract(o.p(), ptr(salt), salt.size(), ptr(ikm), ikm.size()), "hkdf256_extract");
}
PROP(expand, 12000, 200000) {
    Bytes prk = genPRK(g), info = big(g, 1u << 16);
    size_t L = genL(g);
    c.nontrivial(L > 32);
    c.label(L > 8128 ? "last block" : L > 32 ? "several blocks" : "one block");
    c.note([&] { return "prk " + hx(prk) + " info " + hx(info) + " L=" + std::to_string(L); });
    Out o(L, uint8_t(g.below(256)));
    int rc = B::hkdf256_expand(o.p(), L, prk.data(), ptr(info), info.size());
    CHECK(rc == 0, "hkdf256_expand returned " << rc << " for L=" << L);
    CHECK(o.get() == hkdf_expand(prk, info, L), "HKDF-Expand(prk " << hx(prk) << ", info " << hx(info) << ", L=" << L << ") differs: " << hx(o.get()));
    CHECK(o.guards(), "hkdf256_expand wrote outside its output of " << L << " bytes");
    LEAK(B::hkdf256_expand(o.p(), L, prk.data(), ptr(info), info.size()), "hkdf256_expand");
}
PROP(extract_expand, 10000, 200000) {
    Bytes key = big(g, 1u << 16), salt = genBytes(g, 200), info = genBytes(g, 300);
    size_t L = genL(g);
    c.nontrivial(!key.empty() && L > 32);
    c.note([&] { return "key " + hx(key) + " salt " + hx(salt) + " info " + hx(info) + " L=" + std::to_string(L); });
    Out o(L, uint8_t(g.below(256)));
    int rc = B::hkdf256_extract_expand(o.p(), L, ptr(key), key.size(), ptr(salt), salt.size(), ptr(info), info.size());
    CHECK(rc == 0, "hkdf256_extract_expand returned " << rc << " for L=" << L);
    Bytes w = hkdf_expand(hkdf_extract(salt, key), info, L);
    CHECK(o.get() == w, "HKDF(salt " << hx(salt) << ", ikm " << hx(key) << ", info " << hx(info) << ", L=" << L << ") differs: " << hx(o.get()) << ", expected " << hx(w));
    CHECK(o.guards(), "hkdf256_extract_expand wrote outside its output of " << L << " bytes");
    LEAK(B::hkdf256_extract_expand(o.p(), L, ptr(key), key.size(), ptr(salt), salt.size(), ptr(info), info.size()), "hkdf256_extract_expand");
}
PROP(out_of_limits, 4000, 40000) {
    Bytes prk = genPRK(g), info = genBytes(g, 100);
    Out o(9000, uint8_t(g.below(256)));
    c.nontrivial();
    int what = int(g.below(4));
    if (what < 2) {
        static const std::vector<size_t> n{0, 8161, 8162, 8191, 8192, 8193, 16384, 65536, size_t(1) << 31, size_t(1) << 32, (size_t(1) << 32) + 1, ~size_t(0) - 31, ~size_t(0) - 30, ~size_t(0)};
        size_t L = g.chance(1, 3) ? 8161 + (g.raw() >> g.below(64)) : g.pick(n);
        if (L >= 1 && L <= 8160) return;
        c.note([&] { return "HKDF L=" + std::to_string(L); });
        int rc = 0;
        auto f = [&] {
            rc = what ? B::hkdf256_extract_expand(o.p(), L, prk.data(), 32, ptr(info), info.size(), ptr(info), info.size())
                      : B::hkdf256_expand(o.p(), L, prk.data(), ptr(info), info.size());
        };
        long l = mc::leaked(f);
        CHECK(rc != 0, (what ? "hkdf256_extract_expand" : "hkdf256_expand") << " accepted L=" << L);
        CHECK(o.untouched(), "HKDF wrote although it returned an error for L=" << L);
        CHECK(l == 0, "HKDF with L=" << L << " leaks " << l << " heap blocks per call");
    } else {
        Bytes dst(g.range(0, 300), 'd');
        long len = 64, dl = long(dst.size());
        if (what == 2) {
            static const std::vector<long> n{8161, 8192, 16384, 65535, 65536, 65537, 131072, 0x7fffffff, 0x7fffffe0, 0x7fffffe1, -1, -31, -32, -33, -64, -0x7fffffff - 1};
            len = g.pick(n);
        } else {
            static const std::vector<long> n{256, 257, 258, 288, 300, 511, 512, 65536, 65791, 0x7fffffff, -1, -2, -255, -256, -0x7fffffff - 1};
            dl = g.pick(n);
            dst.resize(300, 'd');
            static const std::vector<long> m{0, 1, 32, 64, 256, 8160};
            len = g.pick(m);
        }
        c.note([&] { return "expand_message length " + std::to_string(len) + " tag length " + std::to_string(dl); });
        int rc = 0;
        auto f = [&] { rc = B::xmd_sh256(o.p(), int(len), ptr(info), info.size(), dst.data(), int(dl)); };
        long l = mc::leaked(f);
        CHECK(rc != 0, "xmd_sh256 accepted output length " << len << ", tag length " << dl);
        CHECK(o.untouched(), "xmd_sh256 wrote although it returned an error for output length " << len << ", tag length " << dl);
        CHECK(l == 0, "xmd_sh256 leaks");
    }
}
PROP(expand_message, 20000, 400000) {
    Bytes m = big(g, 1u << 20);
    size_t n = g.weighted({4, 1}) ? g.range(250, 255) : g.range(0, 255);
    Bytes dst(n);
    Gen d = Gen::derived(g.raw());
    d.bytes(dst.data(), n);
    size_t L = genL(g);
    if (g.chance(1, 30)) L = 0;
    c.nontrivial(L > 32 && !m.empty());
    c.label(n == 255 ? "tag of 255 bytes" : n ? "tag of 1 to 254 bytes" : "empty tag");
    c.note([&] { return "message " + hx(m) + " tag " + hx(dst) + " length " + std::to_string(L); });
    Out o(L, uint8_t(g.below(256)));
    int rc = B::xmd_sh256(o.p(), int(L), ptr(m), m.size(), ptr(dst), int(n));
    CHECK(rc == 0, "xmd_sh256 returned " << rc << " for length " << L << ", tag length " << n);
    Bytes w = expand_xmd(m, dst, L);
    CHECK(o.get() == w, "expand_message_xmd(message " << hx(m) << ", tag " << hx(dst) << ", length " << L << ") = " << hx(o.get()) << ", expected " << hx(w));
    CHECK(o.guards(), "xmd_sh256 wrote outside its output of " << L << " bytes");
}
// every length once: message and key sizes around all block boundaries, every output length
PROP(all_lengths, 8160, 32640) {
    // case number independent: a length drawn without replacement is not needed, uniform over the whole range
    size_t L = g.range(1, 8160);
    Bytes prk(32, 7), info(g.below(130), 9);
    Out o(L, 0x5a);
    c.nontrivial(L > 32);
    c.note([&] { return "L=" + std::to_string(L) + " info of " + std::to_string(info.size()) + " bytes"; });
    CHECK(B::hkdf256_expand(o.p(), L, prk.data(), ptr(info), info.size()) == 0, "hkdf256_expand failed for L=" << L);
    CHECK(o.get() == hkdf_expand(prk, info, L) && o.guards(), "HKDF-Expand with L=" << L << " differs");
    size_t n = g.below(260);
    Bytes m(n, uint8_t(n));
    uint8_t mac[32];
    B::hkdf256_hmac(mac, ptr(m), n, ptr(info), info.size());
    CHECK(Bytes(mac, mac + 32) == hmac(info, m), "HMAC with message of " << n << " and key of " << info.size() << " bytes differs");
}
// messages whose bit length needs more than 32 bits, around 2^28 and 2^29 bytes
PROP(huge_hmac, 8, 32) {
    bool small = c.config == "asan"; // too slow there
    static const std::vector<uint64_t> bases{1ull << 29, 1ull << 28, 3ull << 28};
    uint64_t n = (small ? 1ull << 20 : g.pick(bases)) + g.range(0, 256) - 192;
    uint8_t fill = uint8_t(g.below(256));
    Bytes key = genBytes(g, 130);
    pbt::extend_cpu(600);
    pbt::HugeMsg hm(n, fill);
    c.nontrivial();
    c.label(small ? "a megabyte" : "gigabits");
    c.note([&] { return "HMAC of a message of " + std::to_string(n) + " bytes, key " + hx(key); });
    Out o(32, fill);
    int rc = g.flip() ? B::hkdf256_hmac(o.p(), hm.m, n, ptr(key), key.size()) : B::hkdf256_extract(o.p(), ptr(key), key.size(), hm.m, n);
    CHECK(rc == 0, "HMAC of " << n << " bytes returned " << rc);
    Bytes k = key.size() > 64 ? sha256(key) : key, op(64);
    k.resize(64);
    uint8_t* ipad = hm.m - 64;
    for (size_t i = 0; i < 64; i++) { ipad[i] = k[i] ^ 0x36; op[i] = k[i] ^ 0x5c; }
    Bytes inner = sha256(ipad, n + 64);
    op.insert(op.end(), inner.begin(), inner.end());
    CHECK(o.get() == sha256(op) && o.guards(), "HMAC of a message of " << n << " bytes = " << hx(o.get()) << ", expected " << hx(sha256(op)));
}
