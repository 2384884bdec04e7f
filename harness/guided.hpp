// Coverage feedback for the guided configurations: edge counters, value profile of comparisons and a table of recent
// comparison operands, filled by the instrumentation of the library build. Everything is zero-initialised plain data, because
// instrumented code may run before main. In the other configurations nothing here is ever called by the library.
#pragma once
#include "engine.hpp"
namespace cov {
constexpr size_t MAXREG = 64, NF = 1u << 20, TAB = 1024;
inline uint8_t* reg_from[MAXREG];
inline uint8_t* reg_to[MAXREG];
inline size_t nreg;
inline uint8_t seen[NF];     // features of the corpus
inline uint8_t hit[NF / 8];  // comparison features of the current case
inline uint32_t touched[NF / 16];
inline size_t ntouched;
struct Pair { uint64_t a, b; uint32_t at; };
inline Pair table[TAB];
inline Pair recent[NF / 16]; // the comparisons of the current case, parallel to touched
inline uint8_t tries[1u << 16]; // substitutions already queued, per comparison
inline bool on;

// distance from a fixed place in the program: the same in every run, wherever the program is loaded
__attribute__((noinline, used)) inline void anchor() { asm volatile(""); }
inline bool active() { return nreg != 0; }
inline void reset() {
    memset(seen, 0, sizeof seen);
    memset(table, 0, sizeof table);
    memset(tries, 0, sizeof tries);
}
__attribute__((always_inline)) inline void cmp(uintptr_t pc, uint64_t a, uint64_t b) {
    if (!on || a == b) return;
    uint32_t x = uint32_t(pbt::mix64(pc - (uintptr_t)&anchor));
    // small distances are finer than large ones: common leading bits, or the exact difference when it is small
    uint64_t d = a > b ? a - b : b - a;
    uint32_t lvl = d < 32 ? 64 + uint32_t(d) : uint32_t(__builtin_popcountll(a ^ b));
    uint32_t f = (x * 97 + lvl) & (NF - 1);
    uint8_t& h = hit[f >> 3];
    if (!(h >> (f & 7) & 1)) {
        h |= uint8_t(1u << (f & 7));
        size_t k = ntouched;
        if (k < NF / 16) { touched[k] = f; recent[k] = {a, b, x}; ntouched = k + 1; }
        table[(x ^ lvl) & (TAB - 1)] = {a, b, x};
    }
}
inline void begin() {
    if (!active()) return;
    for (size_t r = 0; r < nreg; r++) memset(reg_from[r], 0, reg_to[r] - reg_from[r]);
    for (size_t i = 0; i < ntouched; i++) hit[touched[i] >> 3] = 0;
    ntouched = 0;
    on = true;
}
inline bool end() {
    on = false;
    bool news = false;
    size_t at = 0;
    for (size_t r = 0; r < nreg; r++)
        for (uint8_t* p = reg_from[r]; p < reg_to[r]; p++, at++) {
            uint8_t v = *p;
            if (!v) continue;
            unsigned bit = v == 1 ? 0 : v == 2 ? 1 : v == 3 ? 2 : v < 8 ? 3 : v < 16 ? 4 : v < 32 ? 5 : v < 128 ? 6 : 7;
            uint8_t& s = seen[(at * 7919) & (NF - 1)];
            if (!(s >> bit & 1)) { s |= uint8_t(1u << bit); news = true; }
        }
    for (size_t i = 0; i < ntouched; i++) {
        uint8_t& s = seen[(touched[i] * 31 + 0x5555) & (NF - 1)];
        if (!s) { s = 1; news = true; }
    }
    return news;
}
// Operands of the last case's comparisons that occur among its choices: the lists in which they are replaced by what they
// were compared with. A few attempts per comparison.
inline void substitutes(const uint64_t* ch, size_t n, std::vector<std::vector<uint64_t>>& queue) {
    for (size_t k = 0; k < ntouched && queue.size() < 64; k++) {
        for (int dir = 0; dir < 2; dir++) {
            uint64_t a = dir ? recent[k].b : recent[k].a, b = dir ? recent[k].a : recent[k].b;
            if (a < 256) continue;
            uint8_t& t = tries[(recent[k].at * 2 + dir) & 0xffff];
            if (t >= 24) continue;
            bool small = a >> 32 == 0 && b >> 32 == 0;
            for (size_t i = 0; i < n && t < 24; i++) {
                uint64_t c = ch[i], r = c;
                if (c == a) r = b;
                else if (c == __builtin_bswap64(a)) r = __builtin_bswap64(b);
                else if (small && uint32_t(c) == a) r = (c >> 32 << 32) | b;
                else if (small && c >> 32 == a) r = uint32_t(c) | b << 32;
                else if (small && uint32_t(c) == __builtin_bswap32(uint32_t(a))) r = (c >> 32 << 32) | __builtin_bswap32(uint32_t(b));
                else if (small && c >> 32 == __builtin_bswap32(uint32_t(a))) r = uint32_t(c) | uint64_t(__builtin_bswap32(uint32_t(b))) << 32;
                if (r == c) continue;
                t++;
                queue.emplace_back(ch, ch + n);
                queue.back()[i] = r;
            }
        }
    }
}
inline void mutate(std::vector<uint64_t>& v, pbt::Gen& m, const std::vector<std::vector<uint64_t>>& corpus) {
    if (v.empty()) return;
    for (unsigned k = 1 + unsigned(m.below(4)); k--;) {
        size_t i = m.below(v.size());
        switch (m.below(12)) {
        case 0: v[i] = m.raw(); break;
        case 1: v[i] += m.below(17) - 8; break;
        case 2: v[i] = m.below(4) ? 0 : m.below(64); break;
        case 3: v[i] ^= 1ull << m.below(64); break;
        case 4: v.resize(i); break; // fresh choices from here on
        case 5: if (v.size() > 1) v.erase(v.begin() + i); break;
        case 6: v.insert(v.begin() + i, m.raw()); break;
        case 7: v[i] = v[m.below(v.size())]; break;
        case 8: { // the end of another list
            auto& c = corpus[m.below(corpus.size())];
            if (i < c.size()) { v.resize(i); v.insert(v.end(), c.begin() + i, c.end()); }
            break;
        }
        default: { // values seen in comparisons
            Pair p{};
            for (int t = 0; t < 20 && p.a == p.b; t++) p = table[m.below(TAB)];
            if (p.a == p.b) break;
            if (m.flip()) std::swap(p.a, p.b);
            uint64_t to = p.b + (m.below(4) == 0 ? m.below(3) - 1 : 0), d = to - p.a;
            switch (m.below(4)) {
            case 0: { // where the value occurs among the choices
                std::vector<size_t> at;
                for (size_t q = 0; q < v.size(); q++) if (v[q] == p.a) at.push_back(q);
                if (!at.empty()) { v[at[m.below(at.size())]] = to; break; }
                [[fallthrough]];
            }
            case 1: v[i] += d; break; // the choice is an offset
            case 2: v[i] = to; break;
            default: v[i] += d << (8 * m.below(8)); break; // a byte of a longer value
            }
        }
        }
        if (v.empty()) v.push_back(m.raw());
    }
}
} // namespace cov
extern "C" {
__attribute__((used, visibility("default"))) void __sanitizer_cov_8bit_counters_init(char* a, char* b) {
    for (size_t i = 0; i < cov::nreg; i++) if (cov::reg_from[i] == (uint8_t*)a) return;
    if (a < b && cov::nreg < cov::MAXREG) { cov::reg_from[cov::nreg] = (uint8_t*)a; cov::reg_to[cov::nreg++] = (uint8_t*)b; }
}
#define COV_CMP(N, T) __attribute__((used)) void N(T a, T b) { cov::cmp((uintptr_t)__builtin_return_address(0), a, b); }
COV_CMP(__sanitizer_cov_trace_cmp1, uint8_t)
COV_CMP(__sanitizer_cov_trace_cmp2, uint16_t)
COV_CMP(__sanitizer_cov_trace_cmp4, uint32_t)
COV_CMP(__sanitizer_cov_trace_cmp8, uint64_t)
COV_CMP(__sanitizer_cov_trace_const_cmp1, uint8_t)
COV_CMP(__sanitizer_cov_trace_const_cmp2, uint16_t)
COV_CMP(__sanitizer_cov_trace_const_cmp4, uint32_t)
COV_CMP(__sanitizer_cov_trace_const_cmp8, uint64_t)
__attribute__((used)) void __sanitizer_cov_trace_switch(uint64_t v, uint64_t* c) {
    for (uint64_t i = 0; i < c[0] && i < 16; i++) cov::cmp((uintptr_t)__builtin_return_address(0) + i, v, c[2 + i]);
}
}
