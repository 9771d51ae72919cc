// The accelerator which the stand-ins for the CUDA, HIP and SYCL runtimes drive:
// devices, memory of every kind, streams (or queues) with pending operations, and
// events. Everything done wrong with it is noted in err. A call fails when the
// harness says so.
#pragma once
#include <sanitizer/asan_interface.h>

#include <algorithm>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <deque>
#include <map>
#include <string>
#include <vector>

namespace rt {
enum Kind { DEVICE, HOST, SHARED, PAGEABLE };
enum Api { CUDA, HIP, SYCL };
enum Dir { H2D, D2H, H2H, D2D, ANY };

struct Stream {
    int id = 0;
    int dev = 0;
    bool alive = true, foreign = false, ordered = true;
};
struct Block {
    std::size_t n;
    Kind kind;
    Api api;
    int dev;         // device, or the queue for SYCL
    char* raw;
    std::size_t len;
};
struct Op {
    bool set;
    std::size_t n;
    const void* from;
    void* to;
    int value;
    Stream* stream;
    bool done = false;
    bool error = false;  // reports a failure when waited for
};
struct Event {
    bool alive = true, recorded = false;
    Stream* stream = nullptr;
    std::size_t upto = 0;
};

struct State {
    int ndev = 3, current = 0;
    std::map<std::uintptr_t, Block> blocks;
    std::deque<Stream> streams;
    std::deque<Event> events;
    std::vector<Op> ops;
    std::string err;
    // Faults: the call with this number (from 1) of the current step fails.
    unsigned fail_at = 0, calls = 0;
    bool failed = false, selected = false;
    std::size_t syncs = 0;
};
inline State s;

inline void bad(const std::string& m) {
    if (s.err.empty()) s.err = m;
}
inline void step(unsigned fail_at) {
    s.fail_at = fail_at;
    s.calls = 0;
    s.failed = s.selected = false;
}
inline bool fault() {
    if (s.fail_at && ++s.calls == s.fail_at) return s.failed = true;
    return false;
}
inline void reset() {
    for (auto& [a, b] : s.blocks) {
        ASAN_UNPOISON_MEMORY_REGION(b.raw, b.len);
        std::free(b.raw);
    }
    s = State{};
}

// ---- memory
inline void* get(std::size_t n, std::size_t al, Kind k, Api api, int dev) {
    if (n > (1u << 20) || al == 0 || (al & (al - 1)) || al > 4096) return nullptr;
    const std::size_t len = n + 3 * al + 64;
    char* raw = (char*)std::malloc(len);
    std::uintptr_t a = ((std::uintptr_t)raw + al - 1) / al * al;
    if (a % (2 * al) == 0) a += al;
    std::memset((void*)a, 0xa5, n);
    ASAN_POISON_MEMORY_REGION(raw, len);
    if (k != DEVICE) ASAN_UNPOISON_MEMORY_REGION((char*)a, n);
    s.blocks[a] = Block{n, k, api, dev, raw, len};
    return (void*)a;
}
inline const Block* find(const void* p) {
    auto it = s.blocks.find((std::uintptr_t)p);
    return it == s.blocks.end() ? nullptr : &it->second;
}
inline const Block* owner(const void* p) {
    auto it = s.blocks.upper_bound((std::uintptr_t)p);
    if (it == s.blocks.begin()) return nullptr;
    --it;
    return (std::uintptr_t)p - it->first < it->second.n ? &it->second : nullptr;
}
inline void put(void* p) {
    auto it = s.blocks.find((std::uintptr_t)p);
    Block b = it->second;
    s.blocks.erase(it);
    for (auto& o : s.ops)
        if (!o.done && ((char*)o.to >= (char*)p && (char*)o.to < (char*)p + b.n ||
                        (char*)o.from >= (char*)p && (char*)o.from < (char*)p + b.n))
            bad("memory was released while an operation on it was pending");
    ASAN_UNPOISON_MEMORY_REGION(b.raw, b.len);
    std::free(b.raw);
}
inline Kind kind_of(const void* p) {
    const Block* b = owner(p);
    return b ? b->kind : PAGEABLE;
}

// ---- operations
inline bool valid(const void* p, std::size_t n) {
    if (const Block* b = owner(p)) {
        auto it = --s.blocks.upper_bound((std::uintptr_t)p);
        return n <= b->n - ((std::uintptr_t)p - it->first);
    }
    return p && !__asan_region_is_poisoned((void*)p, n);
}
struct Open {  // makes device memory accessible for a while
    void* p;
    std::size_t n;
    bool dev;
    Open(const void* q, std::size_t m)
        : p((void*)q), n(m), dev(kind_of(q) == DEVICE) {
        if (dev) ASAN_UNPOISON_MEMORY_REGION(p, n);
    }
    ~Open() {
        if (dev && find_block()) ASAN_POISON_MEMORY_REGION(p, n);
    }
    bool find_block() const { return owner(p) != nullptr; }
};
inline void run(Op& o) {
    if (o.done) return;
    o.done = true;
    if (!valid(o.to, o.n)) return bad("an operation wrote outside of existing memory");
    if (!o.set && !valid(o.from, o.n))
        return bad("an operation read outside of existing memory");
    Open t(o.to, o.n);
    if (o.set)
        std::memset(o.to, o.value, o.n);
    else {
        Open f(o.from, o.n);
        std::memmove(o.to, o.from, o.n);
    }
}
inline void direction(const void* from, const void* to, Dir d) {
    if (d == ANY) return;
    const Kind f = kind_of(from), t = kind_of(to);
    const bool fd = d == D2H || d == D2D, td = d == H2D || d == D2D;
    if (fd ? f == PAGEABLE || f == HOST : f == DEVICE)
        bad("a copy was started with a direction which its source is not of");
    if (td ? t == PAGEABLE || t == HOST : t == DEVICE)
        bad("a copy was started with a direction which its target is not of");
}
inline std::size_t start(Op o) {
    if (o.n && (!valid(o.to, o.n) || (!o.set && !valid(o.from, o.n))))
        bad("an operation on memory which does not exist was started");
    if (o.stream && !o.stream->alive) bad("a destroyed stream was used");
    s.ops.push_back(o);
    return s.ops.size() - 1;
}
inline void sync_stream(Stream* st, std::size_t upto = ~std::size_t(0)) {
    if (upto > s.ops.size()) upto = s.ops.size();
    for (std::size_t i = 0; i < upto; ++i)
        if (s.ops[i].stream == st) run(s.ops[i]);
}
inline void drain() {
    for (auto& o : s.ops) run(o);
}
// Operations which may run next.
inline std::vector<std::size_t> ready() {
    std::vector<std::size_t> r;
    std::vector<Stream*> busy;
    for (std::size_t i = 0; i < s.ops.size(); ++i) {
        Op& o = s.ops[i];
        if (o.done) continue;
        if (o.stream->ordered) {
            if (std::find(busy.begin(), busy.end(), o.stream) != busy.end()) continue;
            busy.push_back(o.stream);
        }
        r.push_back(i);
    }
    return r;
}
inline Stream* new_stream(int dev, bool foreign, bool ordered) {
    s.streams.push_back({(int)s.streams.size() + 1, dev, true, foreign, ordered});
    return &s.streams.back();
}
inline unsigned streams_alive() {
    unsigned n = 0;
    for (auto& x : s.streams) n += x.alive;
    return n;
}
inline unsigned events_alive() {
    unsigned n = 0;
    for (auto& x : s.events) n += x.alive;
    return n;
}

// ---- the calls which CUDA and HIP have in common: true means failure
inline bool get_device(int* d) {
    *d = s.current;
    return false;
}
inline bool set_device(int d) {
    if (d < 0 || d >= s.ndev) return true;
    // Going back to where one was does not fail.
    if (!s.selected && fault()) return true;
    s.selected = true;
    s.current = d;
    return false;
}
inline bool alloc(void** p, std::size_t n, Kind k, Api api) {
    if (fault()) return true;
    void* r = get(n, 256, k, api, s.current);
    if (!r) return true;
    *p = r;
    return false;
}
inline bool free_checked(void* p, Api api, bool host) {
    if (!p) return false;
    if (fault()) return true;
    const Block* b = find(p);
    if (!b || b->api != api) {
        bad("memory was released which is not held");
        return true;
    }
    if ((b->kind == HOST) != host) {
        bad("memory was released by the call for another kind of memory");
        return true;
    }
    if (b->kind == DEVICE && b->dev != s.current)
        bad("memory of one device was released on another one");
    put(p);
    return false;
}
inline bool copy_now(void* to, const void* from, std::size_t n, Dir d) {
    if (fault()) return true;
    direction(from, to, d);
    std::size_t i = start({false, n, from, to, 0, nullptr});
    run(s.ops[i]);
    return false;
}
inline bool set_now(void* to, int v, std::size_t n) {
    if (fault()) return true;
    std::size_t i = start({true, n, nullptr, to, v, nullptr});
    if (kind_of(to) == PAGEABLE) bad("memset of memory that is not the device's");
    run(s.ops[i]);
    return false;
}
inline bool copy_later(void* to, const void* from, std::size_t n, Dir d, Stream* st) {
    if (fault()) return true;
    direction(from, to, d);
    start({false, n, from, to, 0, st});
    return false;
}
inline bool set_later(void* to, int v, std::size_t n, Stream* st) {
    if (fault()) return true;
    if (kind_of(to) == PAGEABLE) bad("memset of memory that is not the device's");
    start({true, n, nullptr, to, v, st});
    return false;
}
inline bool stream_create(Stream** st) {
    if (fault()) return true;
    *st = new_stream(s.current, false, true);
    return false;
}
inline bool stream_destroy(Stream* st) {
    if (!st || !st->alive) {
        bad("a stream was destroyed twice");
        return true;
    }
    if (st->foreign) bad("a stream was destroyed which is somebody else's");
    st->alive = false;
    return false;
}
inline bool stream_sync(Stream* st) {
    if (fault()) return true;
    if (!st || !st->alive) {
        bad("a destroyed stream was used");
        return true;
    }
    sync_stream(st);
    return false;
}
inline bool event_create(Event** e) {
    if (fault()) return true;
    s.events.push_back({});
    *e = &s.events.back();
    return false;
}
inline bool event_ok(Event* e) {
    if (e && e->alive) return true;
    bad("a destroyed event was used");
    return false;
}
inline bool event_record(Event* e, Stream* st) {
    if (fault()) return true;
    if (!event_ok(e)) return true;
    if (!st || !st->alive) {
        bad("a destroyed stream was used");
        return true;
    }
    e->recorded = true;
    e->stream = st;
    e->upto = s.ops.size();
    return false;
}
inline bool event_sync(Event* e) {
    if (fault()) return true;
    if (!event_ok(e)) return true;
    if (e->recorded) sync_stream(e->stream, e->upto);
    return false;
}
inline bool event_destroy(Event* e) {
    if (fault()) return true;
    if (!event_ok(e)) return true;
    e->alive = false;
    return false;
}
}  // namespace rt
