// A message of up to gigabytes in a few real pages mapped over and over, with a writable page in front and room behind.
#pragma once
#include "engine.hpp"
#include <sys/mman.h>
#include <unistd.h>

namespace pbt {
struct HugeMsg {
    uint8_t* b = nullptr;
    size_t tot = 0;
    int fd = -1;
    uint8_t* m = nullptr; // n bytes, at least 4096 writable bytes in front and 8 MiB behind
    HugeMsg(uint64_t n, uint8_t fill) {
        const size_t chunk = 1u << 23, page = 4096;
        fd = memfd_create("m", 0);
        if (fd < 0 || ftruncate(fd, chunk)) { done(); throw Discard{}; }
        size_t body = (n / chunk) * chunk;
        tot = page + body + 2 * chunk;
        b = (uint8_t*)mmap(nullptr, tot, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
        if (b == MAP_FAILED) { b = nullptr; done(); throw Discard{}; }
        m = b + page;
        for (size_t o = 0; o < body; o += chunk)
            if (mmap(m + o, chunk, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_FIXED, fd, 0) == MAP_FAILED) { done(); throw Discard{}; }
        if (body) for (size_t i = 0; i < chunk; i++) m[i] = uint8_t(fill + i * 7);
        for (size_t i = body; i < n; i++) m[i] = uint8_t(fill ^ i);
    }
    HugeMsg(const HugeMsg&) = delete;
    ~HugeMsg() { done(); }
    void done() {
        if (b) munmap(b, tot);
        if (fd >= 0) close(fd);
        b = nullptr;
        fd = -1;
    }
};
}
