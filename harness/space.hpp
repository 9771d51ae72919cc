// Memory spaces for the copy and buffer harnesses: host memory with exact bounds
// and alignment, and device memory which any direct access from the host faults
// on (the harness itself uses a second mapping of it).
#pragma once
#include <sanitizer/asan_interface.h>
#include <sys/mman.h>
#include <unistd.h>

#include <cstdint>
#include <cstring>
#include <map>
#include <memory>
#include <set>
#include <stdexcept>
#include <string>
#include <vector>

#include "mc.hpp"
#include "vecmem/memory/memory_resource.hpp"
#include "vecmem/utils/copy.hpp"

namespace space {
using mc::Ctx;

inline std::string err;  // problems noticed where throwing is not possible
inline void bad(const std::string& s) {
    if (err.empty()) err = s;
}

struct Block {
    std::size_t n, al;
    char* raw = nullptr;
};
// Aligned exactly as asked for, and no better.
struct MR : vecmem::memory_resource {
    std::map<std::uintptr_t, Block> live;
    std::size_t n_alloc = 0;
    unsigned fail_at = 0;  // this allocation fails (counted from 1)
    const char* name = "host";
    std::uintptr_t owner(const void* p, std::size_t n) const {
        auto a = (std::uintptr_t)p;
        auto it = live.upper_bound(a);
        if (it == live.begin()) return 0;
        --it;
        return a - it->first <= it->second.n && n <= it->second.n - (a - it->first)
                   ? it->first
                   : 0;
    }
    virtual char* get(std::size_t n, std::size_t al, Block& b) {
        b.raw = (char*)::operator new(n + 2 * al + 64);
        std::uintptr_t a = ((std::uintptr_t)b.raw + 16 + al - 1) / al * al;
        if (a % (2 * al) == 0) a += al;
        std::memset(b.raw, 0xa5, n + 2 * al + 64);
        ASAN_POISON_MEMORY_REGION(b.raw, n + 2 * al + 64);
        ASAN_UNPOISON_MEMORY_REGION((char*)a, n);
        return (char*)a;
    }
    virtual void put(std::uintptr_t, Block& b) {
        ASAN_UNPOISON_MEMORY_REGION(b.raw, b.n + 2 * b.al + 64);
        ::operator delete(b.raw);
    }
    void* do_allocate(std::size_t n, std::size_t al) override {
        if (fail_at && ++n_alloc == fail_at) throw std::bad_alloc();
        if (al == 0 || (al & (al - 1))) bad("asked for a strange alignment");
        if (n > (1u << 20)) bad("asked for far too much memory");
        Block b{n, al};
        char* p = get(n, al, b);
        live[(std::uintptr_t)p] = b;
        return p;
    }
    void do_deallocate(void* p, std::size_t n, std::size_t al) override {
        auto it = live.find((std::uintptr_t)p);
        if (it == live.end()) {
            bad("released memory that is not held");
            return;
        }
        if (it->second.n != n || it->second.al != al)
            bad("released memory with another size or alignment");
        put(it->first, it->second);
        live.erase(it);
    }
    bool do_is_equal(const vecmem::memory_resource& o) const noexcept override {
        return this == &o;
    }
    ~MR() override {
        for (auto& [a, b] : live)
            if (b.raw) put(a, b);
    }
};
struct Dev : MR {
    static constexpr std::size_t SIZE = 1 << 24;
    static inline char *base = nullptr, *shadow = nullptr;
    std::size_t used = 64;
    static void init() {
        if (base) return;
        int fd = memfd_create("dev", 0);
        if (fd < 0 || ftruncate(fd, SIZE)) _exit(3);
        shadow = (char*)mmap(nullptr, SIZE, PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0);
        base = (char*)mmap((void*)0x300000000000ull, SIZE, PROT_NONE,
                           MAP_SHARED | MAP_FIXED_NOREPLACE, fd, 0);
        close(fd);
        if (shadow == MAP_FAILED || base == MAP_FAILED) _exit(3);
        std::memset(shadow, 0xee, SIZE);
    }
    Dev() {
        init();
        name = "device";
    }
    ~Dev() override { std::memset(shadow, 0xee, used); }
    static bool in(const void* p) {
        return (const char*)p >= base && (const char*)p < base + SIZE;
    }
    char* get(std::size_t n, std::size_t al, Block&) override {
        std::size_t a = (used + 32 + al - 1) / al * al;
        if (a % (2 * al) == 0) a += al;
        used = a + n + 32;
        if (used > SIZE) _exit(3);
        std::memset(shadow + a, 0xa5, n);
        return base + a;
    }
    void put(std::uintptr_t a, Block& b) override {
        std::memset(shadow + (a - (std::uintptr_t)base), 0xee, b.n);
    }
    // Everything outside of the blocks is as it was.
    bool intact() const {
        std::size_t at = 0;
        auto clean = [&](std::size_t to) {
            for (; at < to; ++at)
                if ((unsigned char)shadow[at] != 0xee) return false;
            return true;
        };
        for (auto& [a, b] : live) {
            if (!clean(a - (std::uintptr_t)base)) return false;
            at = a - (std::uintptr_t)base + b.n;
        }
        return clean(used);
    }
};
// Where the harness can access this address.
template <class T>
inline T* acc(T* p) {
    return Dev::in(p) ? (T*)((std::uintptr_t)p - (std::uintptr_t)Dev::base +
                             (std::uintptr_t)Dev::shadow)
                      : p;
}

// A copy object for the device memory. Asynchronous ones run the operations
// late, at the latest when an event is waited for: the explorer decides.
struct Copy : vecmem::copy {
    // REVERSE: the operations of one call run in the opposite order, as those of a
    // queue without an order may.
    enum Mode { SYNC, LAZY, CHOICE, REVERSE };
    Ctx& c;
    Dev& dev;
    Mode mode;
    struct Op {
        bool set;
        std::size_t n;
        const void* from;
        void* to;
        int value;
        std::vector<unsigned char> snap;
    };
    mutable std::vector<Op> q;
    mutable std::size_t done = 0, grouped = 0;
    Copy(Ctx& ctx, Dev& d, Mode m) : c(ctx), dev(d), mode(m) {}

    bool valid(const void* p, std::size_t n) const {
        if (Dev::in(p)) return dev.owner(p, n) != 0;
        return !__asan_region_is_poisoned((void*)p, n);
    }
    void exec(const Op& o) const {
        if (!valid(o.to, o.n))
            bad("memory was written after it ceased to exist");
        else if (o.set)
            std::memset(acc((char*)o.to), o.value, o.n);
        else if (!valid(o.from, o.n))
            bad("memory was read after it ceased to exist");
        else {
            if (!Dev::in(o.from) && !o.snap.empty() &&
                std::memcmp(o.from, o.snap.data(), o.n))
                bad("the source of a pending copy was changed by the library");
            std::memmove(acc((char*)o.to), acc((const char*)o.from), o.n);
        }
    }
    void run(std::size_t upto) const {
        for (; done < upto; ++done) exec(q[done]);
    }
    void drain() const { run(q.size()); }
    void push(Op o) const {
        q.push_back(std::move(o));
        if (mode == SYNC || (mode == CHOICE && c.choose(2))) drain();
    }
    void do_copy(std::size_t n, const void* from, void* to,
                 type::copy_type t) const override {
        if (n == 0) return;
        c.count("low level copies");
        c.require(from && to, "a copy of %zu bytes from or to a null pointer", n);
        c.require(valid(from, n), "a copy reads %zu bytes outside of the source", n);
        c.require(valid(to, n), "a copy writes %zu bytes outside of the target", n);
        bool df = Dev::in(from), dt = Dev::in(to);
        auto want = df ? (dt ? type::device_to_device : type::device_to_host)
                       : (dt ? type::host_to_device : type::host_to_host);
        c.require(t == type::unknown || t == want,
                  "a copy of %zu bytes from %s to %s was declared to be of type %d",
                  n, df ? "device" : "host", dt ? "device" : "host", (int)t);
        Op o{false, n, from, to, 0, {}};
        // The source must stay as it is, unless an operation before this one is
        // still to write it.
        bool pending = false;
        for (std::size_t i = done; i < q.size(); ++i) {
            auto a = (std::uintptr_t)q[i].to, b = (std::uintptr_t)from;
            pending = pending || (a < b + n && b < a + q[i].n);
        }
        if (!df && mode != SYNC && !pending)
            o.snap.assign((const unsigned char*)from, (const unsigned char*)from + n);
        push(std::move(o));
    }
    void do_memset(std::size_t n, void* p, int v) const override {
        if (n == 0) return;
        c.require(p && valid(p, n), "memset of %zu bytes outside of the target", n);
        push(Op{true, n, nullptr, p, v, {}});
    }
    struct Event : vecmem::abstract_event {
        const Copy& cp;
        std::size_t at;
        bool used = false;
        Event(const Copy& x) : cp(x), at(x.q.size()) {}
        void wait() override {
            used = true;
            cp.run(at);
        }
        void ignore() override { used = true; }
        ~Event() override {
            if (!used) bad("an event was neither waited for nor ignored");
        }
    };
    event_type create_event() const override {
        if (mode == REVERSE && q.size() > std::max(done, grouped))
            std::reverse(q.begin() + std::max(done, grouped), q.end());
        grouped = q.size();
        return std::make_unique<Event>(*this);
    }
};
}  // namespace space
