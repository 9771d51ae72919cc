#pragma once
#include <sanitizer/asan_interface.h>

#include <cstring>
#include <map>
#include <new>
#include <string>
#include <vector>
#include <vecmem/memory/memory_resource.hpp>

#include "mc.hpp"

// A resource over real memory which is aligned exactly as asked for, surrounded
// by poisoned memory, and filled with garbage.
class Mem : public vecmem::memory_resource {
public:
    struct B {
        std::size_t n, al;
        char* raw;
        std::size_t rawn;
    };
    mc::Ctx& c;
    const char* name;
    std::map<char*, B> live;
    std::vector<std::pair<std::size_t, std::size_t>> asked;  // of the current operation
    unsigned fail_at = 0;                          // counts down to a failure
    unsigned released = 0;
    bool zero_blocks = false;
    std::string err;
    Mem(mc::Ctx& ctx, const char* n) : c(ctx), name(n) {}
    Mem(const Mem&) = delete;
    ~Mem() {
        for (auto& [p, b] : live) drop(b);
    }
    static void drop(const B& b) {
        ASAN_UNPOISON_MEMORY_REGION(b.raw, b.rawn);
        std::free(b.raw);
    }
    static constexpr std::size_t MAX = std::size_t(1) << 16;

protected:
    void* do_allocate(std::size_t n, std::size_t al) override {
        c.note("  %s.allocate(%zu,%zu)", name, n, al);
        asked.push_back({n, al});
        if (al == 0 || (al & (al - 1))) err = "an alignment is no power of two";
        if (fail_at && !--fail_at) throw std::bad_alloc();
        if (n > MAX) throw std::bad_alloc();
        if (n == 0 && !zero_blocks) return nullptr;
        const std::size_t rawn = n + 4 * al + 64;
        char* raw = (char*)std::malloc(rawn);
        std::memset(raw, 0xc5, rawn);
        std::size_t a = ((std::size_t)raw + 32 + 2 * al - 1) / (2 * al) * (2 * al) + al;
        char* p = (char*)a;
        ASAN_POISON_MEMORY_REGION(raw, rawn);
        ASAN_UNPOISON_MEMORY_REGION(p, n);
        live[p] = {n, al, raw, rawn};
        return p;
    }
    void do_deallocate(void* q, std::size_t n, std::size_t al) override {
        c.note("  %s.deallocate(%p,%zu,%zu)", name, q, n, al);
        ++released;
        if (!q && n == 0) return;
        auto it = live.find((char*)q);
        if (it == live.end()) {
            err = mc::fmt("%s: a block of %zu bytes is released which was not "
                          "taken from there",
                          name, n);
            return;
        }
        if (it->second.n != n || it->second.al != al)
            err = mc::fmt("%s: a block is released with size %zu and alignment "
                          "%zu, but was taken with %zu and %zu",
                          name, n, al, it->second.n, it->second.al);
        drop(it->second);
        live.erase(it);
    }
    bool do_is_equal(const vecmem::memory_resource& o) const noexcept override {
        return this == &o;
    }
};

