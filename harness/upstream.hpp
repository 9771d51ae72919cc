// A recording upstream memory resource that hands out addresses in unmapped
// memory (any access to them by the code under test faults, as an access from
// the host to device memory would), places blocks adversarially, and can fail
// at any call.
#pragma once
#include <cstdint>
#include <map>
#include <memory_resource>
#include <new>
#include <string>
#include <vector>

#include "mc.hpp"

enum class Place { ASC, DESC, GAP, REUSE };
inline const char* place_name(Place p) {
    switch (p) {
        case Place::ASC: return "ascending-adjacent";
        case Place::DESC: return "descending-adjacent";
        case Place::GAP: return "gaps";
        default: return "lifo-reuse";
    }
}

struct UpBlock {
    std::size_t size, align;
};

class Upstream : public std::pmr::memory_resource {
public:
    mc::Ctx& c;
    Place place;
    std::uint64_t lo, hi;  // cursors
    std::map<std::uint64_t, UpBlock> live;
    std::vector<std::pair<std::uint64_t, UpBlock>> freed;
    std::size_t n_alloc = 0, n_dealloc = 0, n_failed = 0;
    std::size_t bytes = 0, peak = 0;
    std::size_t capacity = std::size_t(1) << 44;  // bytes
    int faults = 0;  // how many more calls may be made to fail by choice
    std::vector<std::string> errors;
    const char* name;

    Upstream(mc::Ctx& ctx, Place p, std::uint64_t base = 0x200000000000ull,
             const char* nm = "upstream")
        : c(ctx), place(p), lo(base), hi(base), name(nm) {}

    bool owns(std::uint64_t a, std::size_t n) const {
        auto it = live.upper_bound(a);
        if (it == live.begin()) return false;
        --it;
        return a >= it->first && n <= it->second.size &&
               a - it->first <= it->second.size - n;
    }

protected:
    void* do_allocate(std::size_t n, std::size_t al) override {
        ++n_alloc;
        if (al == 0 || (al & (al - 1)))
            errors.push_back(mc::fmt("upstream asked for alignment %zu", al));
        if (faults > 0 && c.choose(2)) {
            --faults;
            ++n_failed;
            c.note("  %s.allocate(%zu,%zu) -> bad_alloc (injected)", name, n, al);
            throw std::bad_alloc();
        }
        if (n == 0) return nullptr;
        if (n > capacity || bytes > capacity - n) {
            ++n_failed;
            c.note("  %s.allocate(%zu,%zu) -> bad_alloc (capacity)", name, n, al);
            throw std::bad_alloc();
        }
        std::uint64_t a = 0;
        auto up = [&](std::uint64_t v) { return (v + al - 1) & ~(std::uint64_t)(al - 1); };
        if (place == Place::REUSE) {
            for (std::size_t i = freed.size(); i-- > 0;) {
                if (freed[i].second.size >= n && freed[i].first % al == 0) {
                    a = freed[i].first;
                    freed.erase(freed.begin() + (long)i);
                    break;
                }
            }
        }
        if (!a) {
            switch (place) {
                case Place::DESC:
                    a = (lo - n) & ~(std::uint64_t)(al - 1);
                    // never better aligned than asked for, unless adjacency
                    // demands it
                    if (live.empty() && freed.empty() && a % (2 * al) == 0)
                        a -= al;
                    lo = a;
                    break;
                case Place::GAP:
                    a = up(hi + 4096);
                    if (a % (2 * al) == 0) a += al;
                    hi = a + n;
                    break;
                default:
                    a = up(hi);
                    if (hi == 0x200000000000ull && a % (2 * al) == 0) a += al;
                    hi = a + n;
            }
        }
        live[a] = {n, al};
        bytes += n;
        if (bytes > peak) peak = bytes;
        c.note("  %s.allocate(%zu,%zu) -> %#llx", name, n, al,
               (unsigned long long)a);
        return (void*)a;
    }
    void do_deallocate(void* p, std::size_t n, std::size_t al) override {
        ++n_dealloc;
        c.note("  %s.deallocate(%p,%zu,%zu)", name, p, n, al);
        if (p == nullptr && n == 0) return;
        auto it = live.find((std::uint64_t)p);
        if (it == live.end()) {
            errors.push_back(mc::fmt(
                "%s block %p (size %zu) released, but it is not outstanding",
                name, p, n));
            return;
        }
        if (it->second.size != n || it->second.align != al)
            errors.push_back(mc::fmt(
                "%s block %p released with size %zu alignment %zu, but was "
                "allocated with size %zu alignment %zu",
                name, p, n, al, it->second.size, it->second.align));
        bytes -= it->second.size;
        freed.push_back({it->first, it->second});
        live.erase(it);
    }
    bool do_is_equal(const std::pmr::memory_resource& o) const noexcept override {
        return this == &o;
    }
};
