// Catalogue of the public operations of the library as uniform callables: each takes its arguments from a Src and
// reports everything it returns to an Out. Used where a property quantifies over "every operation".
#pragma once
#include "common.hpp"
#include <string_view>

namespace ops {

struct Src { // where arguments come from
    virtual ~Src() {}
    virtual const B::fp& f(int i) = 0;
    virtual const B::fp2& f2(int i) = 0;
    virtual const B::fp6& f6(int i) = 0;
    virtual const B::fp12& f12(int i) = 0;
    virtual const B::fp12& cyc(int i) = 0; // where cyclotomic arithmetic is expected (any value is memory safe)
    virtual const B::g1& p(int i) = 0;
    virtual const B::g2& q(int i) = 0;
    virtual const Sc4& s(int i) = 0;       // any 256-bit value
    virtual const Sc4& k(int i) = 0;       // a secret key
    virtual std::span<const uint8_t> bytes(int i) = 0;
    virtual std::span<const uint8_t> fixed(int i, size_t n) = 0; // exactly n bytes
    virtual const std::string& text(int i) = 0;
    virtual const std::string& hextext(int i, size_t n) = 0; // at least 2n (+2 with prefix) characters
    virtual std::string_view sv(int i) { return text(i); }                        // the same without a terminating NUL
    virtual std::span<const B::g1> ps(int i) = 0;
    virtual std::span<const B::g2> qs(int i) = 0;
    virtual std::span<const Sc4> ss(int i) = 0;
    virtual const std::vector<std::vector<uint8_t>>& msgs(int i) = 0;
    virtual const std::vector<std::tuple<B::g1, B::g2>>& pairs(int i) = 0;
    virtual uint64_t num(int i, uint64_t n) = 0;
    virtual uint64_t wide(int i) { return num(i, 300); } // any 64-bit number where the operation is defined for all
    virtual uint8_t* buffer(int i, size_t n) = 0; // output buffer of exactly n bytes
    virtual std::function<void()> yield(int i) = 0;
};

struct Out {
    std::vector<uint8_t> b;
    virtual ~Out() {}
    void put(const void* p, size_t n) { b.insert(b.end(), (const uint8_t*)p, (const uint8_t*)p + n); }
    void operator()(bool v) { b.push_back(v); }
    void operator()(int v) { put(&v, sizeof v); }
    void operator()(uint64_t v) { put(&v, 8); }
    void operator()(const std::string& s) { (*this)(uint64_t(s.size())); put(s.data(), s.size()); }
    template<class T, size_t N> void operator()(const std::array<T, N>& v) { put(v.data(), N * sizeof(T)); }
    void operator()(const std::vector<uint8_t>& v) { (*this)(uint64_t(v.size())); put(v.data(), v.size()); }
    virtual void operator()(const B::fp& v) { put(v.d.data(), 48); }
    virtual void operator()(const B::fp2& v) { put(v.c0.d.data(), 48); put(v.c1.d.data(), 48); }
    virtual void operator()(const B::fp6& v) { o2(v.c0); o2(v.c1); o2(v.c2); }
    virtual void operator()(const B::fp12& v) { o6(v.c0); o6(v.c1); }
    virtual void operator()(const B::g1& v) { o1(v.x); o1(v.y); o1(v.z); }
    virtual void operator()(const B::g2& v) { o2(v.x); o2(v.y); o2(v.z); }
    void operator()(std::strong_ordering v) { (*this)(v < 0 ? -1 : v > 0 ? 1 : 0); }
    template<class A, class C> void operator()(const std::tuple<A, C>& t) { (*this)(std::get<0>(t)); (*this)(std::get<1>(t)); }
    template<class T> void operator()(const std::optional<T>& v) { (*this)(v.has_value()); if (v) (*this)(*v); }
private:
    void o1(const B::fp& v) { put(v.d.data(), 48); }
    void o2(const B::fp2& v) { o1(v.c0); o1(v.c1); }
    void o6(const B::fp6& v) { o2(v.c0); o2(v.c1); o2(v.c2); }
};

struct Op {
    const char* name;
    int cost; // 0: microseconds, 1: up to about a millisecond, 2: several
    void (*fn)(Src&, Out&);
};
const std::vector<Op>& all();

} // namespace ops
