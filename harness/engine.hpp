// Property-based testing engine: choice-sequence generation (Hypothesis style), sharded execution in
// forked workers, generic shrinking, replay files, evidence counters.
#pragma once
#include <cstdint>
#include <cstring>
#include <functional>
#include <sstream>
#include <stdexcept>
#include <string>
#include <vector>
#include <array>
#include <map>

namespace pbt {

inline uint64_t mix64(uint64_t z) {
    z += 0x9E3779B97F4A7C15ull;
    z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
    z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
    return z ^ (z >> 31);
}

struct Violation {
    std::string msg;
};
struct Discard {};

// Source of all randomness. Every draw is recorded; a recorded list replays the case exactly.
class Gen {
public:
    // fresh generation from a seed
    explicit Gen(uint64_t seed) : state(seed), replaying(false) {}
    // derived stream: everything follows from one recorded choice, nothing is recorded
    static Gen derived(uint64_t seed) {
        Gen g(seed);
        g.keep = false;
        return g;
    }
    // replay
    explicit Gen(std::vector<uint64_t> c) : state(0), replaying(true), src(std::move(c)) {}

    // guided search: a recorded list with changes, then fresh choices
    Gen(std::vector<uint64_t> c, uint64_t seed) : state(seed), replaying(true), tail(true), src(std::move(c)) {}

    uint64_t raw() { return draw(0); }                 // any 64-bit value
    uint64_t below(uint64_t n) { return draw(n); }      // 0..n-1
    uint64_t range(uint64_t lo, uint64_t hi) { return lo + draw(hi - lo + 1); }
    bool chance(uint64_t num, uint64_t den) { return draw(den) >= den - num; } // 0 (simplest) means false
    bool flip() { return draw(2) == 1; }
    template<class T> const T& pick(const std::vector<T>& v) { return v[draw(v.size())]; }
    // weighted choice; index 0 is simplest
    size_t weighted(std::initializer_list<unsigned> w) {
        uint64_t tot = 0;
        for (auto x : w) tot += x;
        uint64_t d = draw(tot);
        size_t i = 0;
        for (auto x : w) {
            if (d < x) return i;
            d -= x;
            i++;
        }
        return 0;
    }
    void bytes(uint8_t* out, size_t n) {
        size_t i = 0;
        while (i < n) {
            uint64_t v = raw();
            for (int k = 0; k < 8 && i < n; k++, i++) out[i] = uint8_t(v >> (8 * k));
        }
    }

    uint64_t draw(uint64_t n) {
        uint64_t v;
        if (replaying && !(tail && pos >= src.size())) {
            v = pos < src.size() ? src[pos] : 0;
            if (n && v >= n) v = tail ? v % n : n - 1;
        } else {
            state += 0x9E3779B97F4A7C15ull;
            v = mix64(state);
            if (n) v = n == 1 ? 0 : (uint64_t)(((unsigned __int128)v * n) >> 64);
        }
        pos++;
        record(v);
        return v;
    }
    const uint64_t* data() const { return rec_ptr ? rec_ptr : rec.data(); }
    size_t size() const { return rec_n; }
    void attach(uint64_t* buf, size_t cap, volatile uint64_t* count) {
        rec_ptr = buf;
        rec_cap = cap;
        rec_count = count;
    }
    static constexpr size_t MAX_CHOICES = 1u << 16;

private:
    uint64_t state;
    bool replaying, tail = false;
    std::vector<uint64_t> src;
    size_t pos = 0;
    std::vector<uint64_t> rec;
    uint64_t* rec_ptr = nullptr;
    size_t rec_cap = 0;
    volatile uint64_t* rec_count = nullptr;
    size_t rec_n = 0;
    bool keep = true;
    void record(uint64_t v) {
        if (!keep) return;
        if (rec_ptr) {
            if (rec_n >= rec_cap) throw Discard{};
            rec_ptr[rec_n++] = v;
            *rec_count = rec_n;
        } else {
            if (rec_n >= MAX_CHOICES) throw Discard{};
            rec.push_back(v);
            rec_n++;
        }
    }
};

// Per-case context
struct Ctx {
    bool nontriv = false;
    bool want_notes = false;
    std::string notes;
    std::map<std::string, uint64_t>* labels = nullptr;
    bool thorough = false;
    std::string config;
    uint64_t index = 0; // case number (0 in replay): never used to decide anything
    void nontrivial(bool b = true) { nontriv = nontriv || b; }
    void label(const char* l) { if (labels) (*labels)[l]++; }
    void label(const std::string& l) { if (labels) (*labels)[l]++; }
    template<class Fn> void note(Fn&& f) {
        if (want_notes) {
            if (!notes.empty()) notes += "; ";
            notes += f();
        }
    }
};

typedef void (*PropFn)(Gen&, Ctx&);

struct Sub {
    const char* name;
    uint64_t quick;    // cases in the quick tier
    uint64_t thorough; // cases in the thorough tier
    PropFn fn;
    unsigned weight;   // not used for scheduling decisions that change results
};
std::vector<Sub>& registry();
struct Reg {
    Reg(const char* n, uint64_t q, uint64_t t, PropFn f) { registry().push_back({n, q, t, f, 1}); }
};
#define PROP(NAME, QUICK, THOROUGH)                                            \
    static void prop_##NAME(pbt::Gen&, pbt::Ctx&);                             \
    static pbt::Reg reg_##NAME(#NAME, QUICK, THOROUGH, prop_##NAME);           \
    static void prop_##NAME([[maybe_unused]] pbt::Gen& g, [[maybe_unused]] pbt::Ctx& c)

#define CHECK(COND, MSG)                                                       \
    do {                                                                       \
        if (!(COND)) {                                                         \
            std::ostringstream os_;                                            \
            os_ << MSG;                                                        \
            throw pbt::Violation{os_.str()};                                   \
        }                                                                      \
    } while (0)

std::string hex(const uint8_t* p, size_t n);
template<class C> std::string hex(const C& c) { return hex((const uint8_t*)c.data(), c.size()); }

// a case that legitimately needs long (hashing gigabytes) asks for more CPU time before the watchdog calls it a hang
void extend_cpu(int sec);

const char* property_id(); // defined by each property file

} // namespace pbt
#define PROPERTY(ID) namespace pbt { const char* property_id() { return ID; } }
