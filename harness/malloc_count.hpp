// Counts live heap blocks of the whole process by interposing malloc (glibc's own allocator does the work).
// Include from exactly one source file of a harness. Under AddressSanitizer the counter stays at zero.
#pragma once
#include <atomic>
#include <cerrno>
#include <cstdlib>
#if defined(__SANITIZE_ADDRESS__) || defined(__SANITIZE_THREAD__)
#define MC_OFF 1
#elif defined(__has_feature)
#if __has_feature(address_sanitizer) || __has_feature(thread_sanitizer)
#define MC_OFF 1
#endif
#endif
namespace mc {
inline std::atomic<long> live{0};
inline std::atomic<unsigned long> allocs{0};
// fault injection: while armed, requests are numbered from 1 and the chosen ones fail
struct Faults {
    bool armed = false;
    unsigned long seen = 0, failed = 0;
    unsigned long at = 0;    // this one fails
    unsigned long from = 0;  // this one and all later ones fail
    unsigned long larger = 0; // requests of at least this many bytes fail
    unsigned long mask = 0;  // the n-th fails when bit n mod 64 is set
};
inline Faults faults;
inline bool refuse(size_t n) {
    if (!faults.armed) return false;
    unsigned long i = ++faults.seen;
    if ((faults.at && i == faults.at) || (faults.from && i >= faults.from) || (faults.larger && n >= faults.larger) || (faults.mask >> (i & 63) & 1)) { faults.failed++; return true; }
    return false;
}
}
#ifndef MC_OFF
extern "C" {
void* __libc_malloc(size_t);
void* __libc_calloc(size_t, size_t);
void* __libc_realloc(void*, size_t);
void* __libc_memalign(size_t, size_t);
void __libc_free(void*);
static inline void* mc_in(void* p) { if (p) { mc::live.fetch_add(1, std::memory_order_relaxed); mc::allocs.fetch_add(1, std::memory_order_relaxed); } return p; }
void* malloc(size_t n) { if (mc::refuse(n)) { errno = ENOMEM; return nullptr; } return mc_in(__libc_malloc(n)); }
void* calloc(size_t a, size_t b) { if (mc::refuse(a * b)) { errno = ENOMEM; return nullptr; } return mc_in(__libc_calloc(a, b)); }
void* memalign(size_t a, size_t n) { if (mc::refuse(n)) { errno = ENOMEM; return nullptr; } return mc_in(__libc_memalign(a, n)); }
void* aligned_alloc(size_t a, size_t n) { if (mc::refuse(n)) { errno = ENOMEM; return nullptr; } return mc_in(__libc_memalign(a, n)); }
int posix_memalign(void** o, size_t a, size_t n) { if (mc::refuse(n)) return ENOMEM; void* p = mc_in(__libc_memalign(a, n)); if (!p) return ENOMEM; *o = p; return 0; }
void* realloc(void* p, size_t n) {
    if (!p) return malloc(n);
    if (mc::refuse(n)) { errno = ENOMEM; return nullptr; }
    void* q = __libc_realloc(p, n);
    if (!q && n == 0) mc::live.fetch_sub(1, std::memory_order_relaxed);
    return q;
}
void free(void* p) { if (p) { mc::live.fetch_sub(1, std::memory_order_relaxed); __libc_free(p); } }
}
#endif
namespace mc {
// live blocks after minus before; the second run decides, so that one-time caches do not count
template<class Fn> long leaked(Fn&& f) {
    f();
    long b = live.load();
    f();
    return live.load() - b;
}
}
