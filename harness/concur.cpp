// All schedules of concurrent uses of the thread safe parts of the library.
//   C11 synchronized memory resource   C14 device vectors   C15 SoA containers
//   C26 atomic references  C32 device code of the accelerators (built with stand-ins
//   for their atomic functions, and DEVICE or ALONE defined)
#include <algorithm>
#include <functional>
#include <memory>
#include <numeric>

#include "mc.hpp"
#include "sched.hpp"
#include "threads.hpp"
#include "vecmem/containers/data/jagged_vector_buffer.hpp"
#include "vecmem/containers/data/vector_buffer.hpp"
#include "vecmem/containers/device_vector.hpp"
#include "vecmem/containers/jagged_device_vector.hpp"
#include "vecmem/containers/vector.hpp"
#include "vecmem/edm/buffer.hpp"
#include "vecmem/edm/container.hpp"
#include "vecmem/edm/device.hpp"
#include "vecmem/edm/view.hpp"
#include "vecmem/memory/arena_memory_resource.hpp"
#include "vecmem/memory/binary_page_memory_resource.hpp"
#include "vecmem/memory/contiguous_memory_resource.hpp"
#include "vecmem/memory/debug_memory_resource.hpp"
#include "vecmem/memory/device_atomic_ref.hpp"
#include "vecmem/memory/memory_order.hpp"
#include "vecmem/memory/atomic.hpp"
#include "vecmem/memory/host_memory_resource.hpp"
#include "vecmem/memory/identity_memory_resource.hpp"
#include "vecmem/memory/instrumenting_memory_resource.hpp"
#include "vecmem/memory/pool_memory_resource.hpp"
#include "vecmem/memory/synchronized_memory_resource.hpp"
#include "vecmem/utils/copy.hpp"

#ifdef DEVICE
constexpr bool DEVICE_CODE = true;
#else
constexpr bool DEVICE_CODE = false;
#endif
using mc::Ctx;
using uint = unsigned int;
// ------------------------------------------------------------------ C11
// An upstream which notices when it is entered twice. The plain counter lets
// the race detector see calls that are not ordered.
struct Probe : vecmem::memory_resource {
    bool inside = false;
    uint64_t work = 0;
    std::map<uintptr_t, std::pair<size_t, size_t>> live;
    uintptr_t next = 0x10000;
    int fail_at = 0, calls = 0;
    void enter() {
        ok(!inside, "two threads are inside of the upstream resource at once");
        inside = true;
        ++work;
        sched::yield("inside of the upstream");
    }
    void leave() {
        sched::yield("leaves the upstream");
        ++work;
        inside = false;
    }
    void* do_allocate(size_t n, size_t al) override {
        enter();
        uintptr_t a;
        bool f;
        {
            sched::Quiet q;
            f = ++calls == fail_at;
            a = (next + al - 1) / al * al;
            if (!f) {
                next = a + n;
                live[a] = {n, al};
            }
        }
        leave();
        if (f) throw std::bad_alloc();
        return (void*)a;
    }
    void do_deallocate(void* p, size_t n, size_t al) override {
        enter();
        {
            sched::Quiet q;
            auto it = live.find((uintptr_t)p);
            ok(it != live.end() && it->second == std::make_pair(n, al),
               "released something else than was allocated");
            live.erase(it);
        }
        leave();
    }
    bool do_is_equal(const vecmem::memory_resource& o) const noexcept override {
        return this == &o;
    }
};
enum MOp { ALLOC, FREE_FIRST, FREE_LAST };
static const std::vector<std::vector<MOp>>& mprograms(bool thorough) {
    static const std::vector<std::vector<MOp>> q = {
        {ALLOC}, {ALLOC, FREE_FIRST}, {ALLOC, ALLOC}, {ALLOC, FREE_FIRST, ALLOC}};
    static const std::vector<std::vector<MOp>> t = {
        {ALLOC}, {ALLOC, FREE_FIRST}, {ALLOC, ALLOC}, {ALLOC, FREE_FIRST, ALLOC},
        {ALLOC, ALLOC, FREE_FIRST}, {ALLOC, ALLOC, FREE_LAST, FREE_FIRST}};
    return thorough ? t : q;
}
struct Got {
    char* p;
    size_t n, al;
    int t;
};
static void overlap(Ctx& c, const std::vector<std::vector<Got>>& g) {
    std::vector<Got> all;
    for (auto& v : g) all.insert(all.end(), v.begin(), v.end());
    for (size_t i = 0; i < all.size(); ++i)
        for (size_t j = 0; j < i; ++j)
            c.require(all[i].p + all[i].n <= all[j].p ||
                          all[j].p + all[j].n <= all[i].p,
                      "threads %d and %d were given overlapping memory",
                      all[i].t + 1, all[j].t + 1);
}
static void mprogram(vecmem::memory_resource& mr, const std::vector<MOp>& prog,
                     std::vector<Got>& mine, int t, bool touch, bool* failed) {
    for (MOp o : prog) {
        if (o == ALLOC) {
            size_t n = 24 + 8 * (size_t)t, al = t == 1 ? 16 : 8;
            void* p = nullptr;
            try {
                p = mr.allocate(n, al);
            } catch (const std::bad_alloc&) {
                *failed = true;
                continue;
            }
            // Memory may be used until it is released.
            if (touch) std::fill((char*)p, (char*)p + n, (char)(t + 1));
            sched::Quiet q;
            mine.push_back({(char*)p, n, al, t});
        } else {
            Got g;
            {
                sched::Quiet q;
                if (mine.empty()) continue;
                g = o == FREE_FIRST ? mine.front() : mine.back();
                mine.erase(o == FREE_FIRST ? mine.begin() : mine.end() - 1);
            }
            if (touch)
                for (size_t i = 0; i < g.n; ++i)
                    ok(g.p[i] == (char)(t + 1),
                       "another thread wrote to memory that is in use");
            mr.deallocate(g.p, g.n, g.al);
        }
    }
}
static void sync_probe(Ctx& c) {
    Probe up;
    vecmem::synchronized_memory_resource mr(up);
    const unsigned n = 2 + c.choose(2);
    const auto& ps = mprograms(c.thorough);
    std::vector<std::vector<MOp>> prog;
    size_t steps = 0;
    for (unsigned i = 0; i < n; ++i) {
        unsigned k = c.choose((unsigned)ps.size());
        prog.push_back(ps[k]);
        steps += ps[k].size();
    }
    if (n == 3 && steps > (c.thorough ? 6 : 4)) c.cut();
    up.fail_at = (int)c.choose(3);
    c.note("%u threads with %zu steps, allocation %d fails", n, steps, up.fail_at);
    std::vector<std::vector<Got>> got(n);
    std::unique_ptr<bool[]> failed(new bool[n]());
    std::vector<Fn> fs;
    for (unsigned i = 0; i < n; ++i)
        fs.push_back(
            [&, i] { mprogram(mr, prog[i], got[i], (int)i, false, &failed[i]); });
    run(c, fs);
    overlap(c, got);
    size_t kept = 0, nf = 0;
    for (auto& g : got) kept += g.size();
    for (unsigned i = 0; i < n; ++i) nf += failed[i];
    c.require(kept == up.live.size(), "%zu blocks are held, upstream has %zu", kept,
              up.live.size());
    for (auto& g : got)
        for (auto& x : g)
            c.require(up.live.count((uintptr_t)x.p) &&
                          up.live[(uintptr_t)x.p] == std::make_pair(x.n, x.al),
                      "a block was requested with other arguments");
    c.require(nf == (up.fail_at && up.calls >= up.fail_at),
              "a failing allocation was reported to %zu threads", nf);
    c.outcome(mc::mix(kept, nf));
}
static void sync_real(Ctx& c) {
    vecmem::host_memory_resource host;
    std::unique_ptr<vecmem::memory_resource> up;
    std::unique_ptr<vecmem::memory_resource> keep;
    const unsigned kind = c.choose(8);
    switch (kind) {
        case 0: up = std::make_unique<vecmem::host_memory_resource>(); break;
        case 1: up = std::make_unique<vecmem::binary_page_memory_resource>(host); break;
        case 2:
            up = std::make_unique<vecmem::contiguous_memory_resource>(host, 4096);
            break;
        case 3: up = std::make_unique<vecmem::pool_memory_resource>(host); break;
        case 4:
            up = std::make_unique<vecmem::arena_memory_resource>(host, 1 << 18,
                                                                 1 << 20);
            break;
        case 5: up = std::make_unique<vecmem::debug_memory_resource>(host); break;
        case 6:
            up = std::make_unique<vecmem::instrumenting_memory_resource>(host);
            break;
        default:
            keep = std::make_unique<vecmem::binary_page_memory_resource>(host);
            up = std::make_unique<vecmem::identity_memory_resource>(*keep);
    }
    vecmem::synchronized_memory_resource mr(*up);
    const unsigned n = 2 + c.choose(2);
    const bool vec = kind == 1 && c.choose(2);
    c.note("%u threads, upstream %u, %s", n, kind, vec ? "vectors" : "blocks");
    std::vector<std::vector<Got>> got(n);
    std::unique_ptr<bool[]> failed(new bool[n]());
    std::vector<Fn> fs;
    std::vector<std::vector<MOp>> prog(n);
    size_t steps = 0;
    for (unsigned i = 0; i < n && !vec; ++i) {
        const auto& ps = mprograms(c.thorough);
        prog[i] = ps[c.choose((unsigned)ps.size())];
        steps += prog[i].size();
    }
    if (steps > (n == 2 ? 6u : c.thorough ? 5u : 4u)) c.cut();
    for (unsigned i = 0; i < n; ++i) {
        if (vec)
            fs.push_back([&, i] {
                vecmem::vector<int> v(&mr);
                for (int k = 0; k < 3; ++k) v.push_back((int)i * 16 + k);
                for (int k = 0; k < 3; ++k)
                    ok(v[(size_t)k] == (int)i * 16 + k, "a vector lost its contents");
            });
        else
            fs.push_back([&, i] {
                mprogram(mr, prog[i], got[i], (int)i, true, &failed[i]);
            });
    }
    run(c, fs, vec && n == 3 ? (c.thorough ? 4 : 2) : -1);
    overlap(c, got);
    for (unsigned i = 0; i < n; ++i) c.require(!failed[i], "std::bad_alloc");
    for (auto& g : got)
        for (auto& x : g) {
            for (size_t i = 0; i < x.n; ++i)
                c.require(x.p[i] == (char)(x.t + 1), "a block was overwritten");
            mr.deallocate(x.p, x.n, x.al);
        }
}

// ------------------------------------------------------------------ C14
struct Triple {
    int a, b, d;
    Triple(int x = -7) : a(x), b(x), d(x) {}
    Triple(int x, int) : Triple(x) {}
    bool is(int x) const { return a == x && b == x && d == x; }
};
struct Plain {  // implicit life time
    int a;
    bool is(int x) const { return a == x; }
};
static int seen(const Triple& t) { return t.is(t.a) ? t.a : -999; }
static int seen(const Plain& t) { return t.a; }
static Plain make(Plain*, int v) { return Plain{v}; }
static Triple make(Triple*, int v) { return Triple{v}; }
static constexpr int DEF_T = -7, DEF_P = 0;
template <class T>
struct Vec {
    uint size = 0;
    std::vector<T> mem;
    vecmem::data::vector_view<T> view;
    Vec(uint n, uint cap) : size(n), mem(cap, make((T*)nullptr, 1000)) {
        view = vecmem::data::vector_view<T>(cap, &size, mem.data());
    }
};
enum VOp { PUSH, EMPLACE, BULK, BULK_V, IMPLICIT, UNSAFE, SIZE };
struct Claim {
    uint at, n;
    int v;
};
template <class T>
static void appends(Ctx& c) {
    const bool triv = std::is_same<T, Plain>::value;
    const int def = triv ? DEF_P : DEF_T;
    const unsigned n = 2 + c.choose(2);
    // Longer programs of fewer kinds of operation.
    const bool deep = c.thorough && c.choose(2);
    const unsigned per = (n == 2 ? 2 : 1) + deep;
    const uint start = deep ? 1 : c.choose(2);
    const bool shared = deep || c.choose(2);
    static const VOp all[] = {PUSH, BULK, SIZE, BULK_V, EMPLACE, UNSAFE, IMPLICIT};
    std::vector<std::vector<VOp>> prog(n);
    for (auto& p : prog)
        for (unsigned i = 0; i < per; ++i)
            p.push_back(all[c.choose(deep ? 3 : triv ? 7 : 6)]);
    for (unsigned i = 1; i < n; ++i)  // threads are interchangeable
        if (prog[i] < prog[i - 1]) c.cut();
    c.note("%u threads, start size %u, %s object", n, start,
           shared ? "one" : "each its own");
    Vec<T> m(start, start + 2 * n * per + 1);
    vecmem::device_vector<T> one(m.view);
    std::vector<std::vector<Claim>> claims(n);
    std::vector<std::vector<uint>> sizes(n);
    std::vector<Fn> fs;
    for (unsigned i = 0; i < n; ++i) {
        fs.push_back([&, i] {
            vecmem::device_vector<T> own(m.view);
            vecmem::device_vector<T>& v = shared ? one : own;
            uint claimed = 0;
            for (unsigned k = 0; k < prog[i].size(); ++k) {
                const int val = (int)(100 * i + k);
                Claim cl{0, 0, val};
                switch (prog[i][k]) {
                    case PUSH:
                        cl.at = v.push_back(make((T*)nullptr, val));
                        cl.n = 1;
                        break;
                    case EMPLACE: {
                        if constexpr (std::is_same<T, Plain>::value) {
                            T& r = v.emplace_back();
                            r.a = val;
                            cl.at = (uint)(&r - m.mem.data());
                        } else {
                            T& r = v.emplace_back(val, 1);
                            cl.at = (uint)(&r - m.mem.data());
                        }
                        cl.n = 1;
                        break;
                    }
                    case BULK:
                        cl = {v.bulk_append(2), 2, def};
                        break;
                    case BULK_V:
                        cl = {v.bulk_append(2, make((T*)nullptr, val)), 2, val};
                        break;
                    case IMPLICIT:
                        if constexpr (std::is_same<T, Plain>::value)
                            cl = {v.bulk_append_implicit(2), 2, val};
                        goto write;
                    case UNSAFE:
                        cl = {v.bulk_append_implicit_unsafe(2), 2, val};
                    write:
                        if (cl.at + 2 <= v.capacity())
                            for (uint x = 0; x < 2; ++x)
                                new (&v.data()[cl.at + x]) T(make((T*)nullptr, val));
                        break;
                    default: {
                        uint s = v.size();
                        bool e = v.empty();
                        sched::Quiet q;
                        if (!sizes[i].empty())
                            ok(s >= sizes[i].back(), "the size went backwards");
                        ok(!(e && s), "a vector with elements is empty");
                        ok(s >= start + claimed, "the size is too small");
                        sizes[i].push_back(s);
                    }
                }
                if (!cl.n) continue;
                claimed += cl.n;
                // Its own elements are visible to the thread at once.
                if (ok(cl.at + cl.n <= v.capacity(), "index beyond the capacity"))
                    for (uint x = 0; x < cl.n; ++x)
                        ok(seen(v[cl.at + x]) == cl.v,
                           "an appended element has another value");
                sched::Quiet q;
                claims[i].push_back(cl);
            }
        });
    }
    run(c, fs);
    std::vector<int> want(m.mem.size(), 1000), got;
    std::vector<char> used(m.mem.size(), 0);
    uint total = start;
    for (auto& cs : claims)
        for (auto& cl : cs) {
            total += cl.n;
            for (uint x = 0; x < cl.n; ++x) {
                c.require(!used[cl.at + x], "element %u was given out twice",
                          cl.at + x);
                c.require(cl.at + x >= start, "an existing element was given out");
                used[cl.at + x] = 1;
                want[cl.at + x] = cl.v;
            }
        }
    c.require(m.size == total, "size %u after appending to %u", m.size, total);
    for (auto& e : m.mem) got.push_back(seen(e));
    for (size_t i = 0; i < got.size(); ++i) {
        c.require(i < start || i >= total || used[i], "element %zu is a hole", i);
        c.require(got[i] == want[i], "element %zu is %d, not %d", i, got[i], want[i]);
    }
    for (auto& s : sizes)
        for (uint x : s)
            c.require(x >= start && x <= total, "an impossible size was seen");
}
struct Counted {
    int* alive;
    Counted() : alive(nullptr) {}
    ~Counted() {
        if (alive) --*alive;
    }
};
static void pops(Ctx& c) {
    const unsigned n = 2 + c.choose(2);
    const unsigned per = n == 2 ? 3 : 2;
    const uint start = n * per + c.choose(2);
    c.note("%u threads remove %u elements each of %u", n, per, start);
    std::vector<int> alive(start, 1);
    uint size = start;
    void* raw = ::operator new(sizeof(Counted) * start);
    Counted* el = (Counted*)raw;
    for (uint i = 0; i < start; ++i) (new (&el[i]) Counted)->alive = &alive[i];
    vecmem::data::vector_view<Counted> view(start, &size, el);
    std::vector<std::vector<uint>> res(n);
    std::vector<Fn> fs;
    for (unsigned i = 0; i < n; ++i)
        fs.push_back([&, i] {
            vecmem::device_vector<Counted> v(view);
            for (unsigned k = 0; k < per; ++k) {
                uint r = v.pop_back();
                sched::Quiet q;
                res[i].push_back(r);
            }
        });
    run(c, fs);
    c.require(size == start - n * per, "size %u after removing %u of %u", size,
              n * per, start);
    std::vector<uint> all;
    for (auto& r : res) all.insert(all.end(), r.begin(), r.end());
    std::sort(all.begin(), all.end());
    for (uint i = 0; i < all.size(); ++i)
        c.require(all[i] == size + i, "the sizes returned are wrong");
    for (uint i = 0; i < start; ++i)
        c.require(alive[i] == (i < size), "element %u was destroyed %d times", i,
                  1 - alive[i]);
    ::operator delete(raw);
}
static void jagged(Ctx& c) {
    const unsigned n = c.thorough ? 2 + c.choose(2) : 2;
    vecmem::host_memory_resource host;
    vecmem::copy cp;
    vecmem::data::jagged_vector_buffer<int> b(std::vector<std::size_t>{6, 0, 6}, host,
                                              nullptr,
                                              vecmem::data::buffer_type::resizable);
    cp.setup(b)->wait();
    std::vector<std::vector<unsigned>> prog(n);
    for (auto& p : prog)
        for (unsigned i = 0; i < 2; ++i) p.push_back(c.choose(2));
    c.note("%u threads append to rows", n);
    std::vector<std::vector<Claim>> claims(n);
    std::vector<Fn> fs;
    for (unsigned i = 0; i < n; ++i)
        fs.push_back([&, i] {
            vecmem::jagged_device_vector<int> v(b);
            for (unsigned k = 0; k < 2; ++k) {
                unsigned row = 2 * prog[i][k];
                int val = (int)(i * 10 + k);
                uint at = v[row].push_back(val);
                ok(v[row][at] == val, "the appended element is another one");
                ok(v.at(row).size() > at, "the size is too small");
                sched::Quiet q;
                claims[i].push_back({at, row, val});
            }
        });
    run(c, fs);
    vecmem::jagged_device_vector<int> v(b);
    std::map<std::pair<unsigned, unsigned>, int> m;
    for (auto& cs : claims)
        for (auto& x : cs)
            c.require(m.insert({{x.n, x.at}, x.v}).second, "given out twice");
    c.require(v[0].size() + v[2].size() == 2 * n, "sizes %u and %u", v[0].size(),
              v[2].size());
    for (auto& [k, x] : m)
        c.require(k.second < v[k.first].size() && v[k.first][k.second] == x,
                  "row %u element %u is wrong", k.first, k.second);
}

// ------------------------------------------------------------------ C15
namespace edm = vecmem::edm;
struct Dflt {
    int x = 42;
};
template <class B>
struct Iface : B {
    using B::B;
    auto& scalar() { return B::template get<0>(); }
    const auto& scalar() const { return B::template get<0>(); }
    auto& ints() { return B::template get<1>(); }
    const auto& ints() const { return B::template get<1>(); }
    auto& dflts() { return B::template get<2>(); }
    const auto& dflts() const { return B::template get<2>(); }
    auto& chars() { return B::template get<3>(); }
    const auto& chars() const { return B::template get<3>(); }
};
using Cont = edm::container<Iface, edm::type::scalar<int>, edm::type::vector<int>,
                            edm::type::vector<Dflt>, edm::type::vector<char>>;
using Schema = Cont::schema_type;
static void soa(Ctx& c) {
    const unsigned n = 2 + c.choose(2);
    const bool deep = c.thorough && c.choose(2);
    const bool slim = DEVICE_CODE && !c.thorough;
    const unsigned per = (n == 2 ? 3 - slim : 1) + (n == 2 ? 4 : 3) * deep;
    const uint start = slim ? 1 : c.choose(2);
    const bool reads = !deep && c.choose(2), shared = c.choose(2);
    const uint cap = start + n * per + c.choose(2);
    c.note("%u threads append %u each to %u%s", n, per, start,
           reads ? ", reading the size" : "");
    vecmem::host_memory_resource host;
    vecmem::copy cp;
    edm::buffer<Schema> buf(cap, host, vecmem::data::buffer_type::resizable);
    cp.setup(buf)->wait();
    cp.memset(buf, 0x55)->wait();
    edm::view<Schema> view = buf;
    using Dev = Cont::device;
    Dev one(view);
    one.scalar() = 5;
    for (uint i = 0; i < start; ++i) {
        one.push_back_default();
        one.ints()[i] = 77;
        one.chars()[i] = 'x';
    }
    std::vector<std::vector<uint>> idx(n);
    std::vector<Fn> fs;
    for (unsigned i = 0; i < n; ++i)
        fs.push_back([&, i] {
            Dev own(view);
            Dev& d = shared ? one : own;
            uint before = 0;
            for (unsigned k = 0; k < per; ++k) {
                uint at = d.push_back_default();
                if (!ok(at < cap, "index beyond the capacity")) return;
                ok(d.ints()[at] == 0 && d.dflts()[at].x == 42 && d.chars()[at] == 0,
                   "a new element is not default constructed");
                // Each thread fills its own elements in.
                if (k % 2) d.at(at).ints() = (int)(1000 + i);
                else d[at].ints() = (int)(1000 + i);
                d.chars()[at] = (char)(i + 1);
                if (reads) {
                    uint s = d.size();
                    ok(s > at && s >= before && s <= cap, "an impossible size");
                    ok(d.ints().size() >= s, "the variables have another size");
                    before = s;
                }
                sched::Quiet q;
                idx[i].push_back(at);
            }
        });
    run(c, fs);
    c.require(one.size() == start + n * per, "size %u", one.size());
    c.require(one.ints().size() == one.size() && one.chars().size() == one.size(),
              "the variables have different sizes");
    c.require(one.scalar() == 5, "a scalar variable was changed");
    std::vector<int> owner(cap, -1);
    for (unsigned i = 0; i < n; ++i)
        for (uint at : idx[i]) {
            c.require(at >= start && at < one.size() && owner[at] < 0,
                      "element %u was given out twice", at);
            owner[at] = (int)i;
        }
    for (uint i = 0; i < one.size(); ++i) {
        int o = owner[i];
        c.require(one.ints()[i] == (i < start ? 77 : 1000 + o) &&
                      one.chars()[i] == (i < start ? 'x' : (char)(o + 1)) &&
                      one.dflts()[i].x == 42,
                  "element %u has wrong contents", i);
    }
}

// ------------------------------------------------------------------ C26
enum AOp { LOAD, STORE, CAS, ADD, EXCHANGE, ASSIGN, SUB, AND, OR, XOR };
static const char* const AN[] = {"load",     "store", "cas", "add", "exchange",
                                 "=",        "sub",   "and", "or",  "xor"};
using vecmem::memory_order;
template <class T>
struct AStep {
    AOp op;
    T a, b;
    T res = 0;
    bool flag = false;
};
template <class T>
static T model(AStep<T>& s, T v) {
    s.res = v;
    switch (s.op) {
        case LOAD: return v;
        case STORE: s.res = 0; return s.a;
        case ASSIGN: s.res = s.a; return s.a;
        case EXCHANGE: return s.a;
        case CAS:
            s.flag = v == s.b;
            s.res = s.flag ? s.b : v;
            return s.flag ? s.a : v;
        case ADD: return (T)(v + s.a);
        case SUB: return (T)(v - s.a);
        case AND: return (T)(v & s.a);
        case OR: return (T)(v | s.a);
        default: return (T)(v ^ s.a);
    }
}
// style: 0 default order, otherwise an explicit one
#ifdef DEVICE_CUDA
// CUDA has no subtraction of this type.
template <class T>
constexpr bool SUBTRACTS = sizeof(T) == 4;
#else
template <class T>
constexpr bool SUBTRACTS = true;
#endif
template <class R, class T>
static void real(const R& r, AStep<T>& s, int style) {
    static const memory_order mo[] = {memory_order::seq_cst, memory_order::relaxed,
                                      memory_order::acquire, memory_order::release,
                                      memory_order::acq_rel};
    memory_order o = mo[style];
    memory_order lo = style == 3 || style == 4 ? memory_order::seq_cst : o;
    memory_order so = style == 2 || style == 4 ? memory_order::seq_cst : o;
    s.res = 0;
    switch (s.op) {
        case LOAD: s.res = style ? r.load(lo) : r.load(); break;
        case STORE: style ? r.store(s.a, so) : r.store(s.a); break;
        case ASSIGN: s.res = (r = s.a); break;
        case EXCHANGE: s.res = style ? r.exchange(s.a, o) : r.exchange(s.a); break;
        case CAS: {
            T e = s.b;
            s.flag = style == 0   ? r.compare_exchange_strong(e, s.a)
                     : style == 4 ? r.compare_exchange_strong(
                                        e, s.a, o, memory_order::acquire)
                                  : r.compare_exchange_strong(e, s.a, o);
            s.res = e;
            break;
        }
        case ADD: s.res = style ? r.fetch_add(s.a, o) : r.fetch_add(s.a); break;
        case SUB:
            if constexpr (SUBTRACTS<T>)
                s.res = style ? r.fetch_sub(s.a, o) : r.fetch_sub(s.a);
            break;
        case AND: s.res = style ? r.fetch_and(s.a, o) : r.fetch_and(s.a); break;
        case OR: s.res = style ? r.fetch_or(s.a, o) : r.fetch_or(s.a); break;
        default: s.res = style ? r.fetch_xor(s.a, o) : r.fetch_xor(s.a);
    }
}
template <class T>
static bool same(const AStep<T>& a, const AStep<T>& b) {
    return a.res == b.res && a.flag == b.flag;
}
// Is there an order of the steps which gives these results?
template <class T>
static bool linear(const std::vector<std::vector<AStep<T>>>& p,
                   std::vector<size_t>& at, T v, T final) {
    bool rest = false;
    for (size_t i = 0; i < p.size(); ++i) {
        if (at[i] == p[i].size()) continue;
        rest = true;
        AStep<T> m = p[i][at[i]];
        m.flag = false;
        T nv = model(m, v);
        if (!same(m, p[i][at[i]])) continue;
        ++at[i];
        bool ok = linear(p, at, nv, final);
        --at[i];
        if (ok) return true;
    }
    return !rest && v == final;
}
template <class T, class R = vecmem::device_atomic_ref<T>>
static void atomics(Ctx& c, bool alone = false) {
    const unsigned n = alone ? 1 : 2 + c.choose(2);
    const bool deep = n == 3 && c.thorough && c.choose(2);
    const unsigned per = n == 1 ? 2 + c.thorough : n == 2 ? 2 : 1 + deep;
    // The first ones are the most different ones.
    const unsigned nops = deep ? 4 : 10;
    std::vector<std::vector<AStep<T>>> p(n);
    const T args[] = {1, (T)~T(0), 6};
    for (unsigned i = 0; i < n; ++i)
        for (unsigned k = 0; k < per; ++k) {
            AStep<T> s{(AOp)c.choose(nops), args[(i + k) % 3], T(k ? 1 : 3)};
            if (alone) {
                s.a = args[c.choose(3)];
                s.b = c.choose(2) ? 3 : s.op == CAS ? 1 : 3;
            }
            if (s.op == SUB && !SUBTRACTS<T>) c.cut();
            p[i].push_back(s);
        }
    for (unsigned i = 1; i < n; ++i)
        if (p[i][0].op < p[i - 1][0].op) c.cut();
    const int style = (int)c.choose(c.thorough ? 5 : 2);
    T var = 3;
    c.note("%u threads, order %d", n, style);
    std::vector<Fn> fs;
    for (unsigned i = 0; i < n; ++i)
        fs.push_back([&, i] {
            R r(var);
            for (auto& s : p[i]) {
                AStep<T> x = s;
                R copy(r);
                real(copy, x, style);
                sched::Quiet q;
                s = x;
            }
        });
    run(c, fs);
    std::vector<size_t> at(n, 0);
    if (!linear<T>(p, at, 3, var)) {
        for (unsigned i = 0; i < n; ++i)
            for (auto& s : p[i])
                c.note("thread %u: %s(%lld, %lld) -> %lld %d", i + 1, AN[s.op],
                       (long long)s.a, (long long)s.b, (long long)s.res, s.flag);
        c.fail("the results and the final value %lld match no order of the operations",
               (long long)var);
    }
}
// Release and acquire operations order the accesses around them.
static void message(Ctx& c) {
    const unsigned w = c.choose(5), r = c.choose(5);
    int data = 0;
    uint flag = 0;
    bool got = false;
    // How the order is given: by default, for both, or the strongest.
    const memory_order rel = c.choose(2) ? memory_order::release : memory_order::seq_cst;
    const memory_order acq = c.choose(2) ? memory_order::acquire : memory_order::seq_cst;
    c.note("writer %u, reader %u", w, r);
    std::vector<Fn> fs;
    fs.push_back([&] {
        vecmem::device_atomic_ref<uint> f(flag);
        data = 17;
        uint e = 0;
        switch (w) {
            case 0: f.store(1, rel); break;
            case 1: f.exchange(1, rel); break;
            case 2: f.fetch_add(1, rel); break;
            case 3: ok(f.compare_exchange_strong(e, 1, rel), "cas failed"); break;
            default: f = 1;
        }
    });
    fs.push_back([&] {
        vecmem::device_atomic_ref<uint> f(flag);
        uint x = 0, e = 1;
        switch (r) {
            case 0: x = f.load(acq); break;
            case 1: x = f.fetch_or(0, acq); break;
            case 2: x = f.fetch_sub(0, acq); break;
            case 3: x = f.compare_exchange_strong(e, 1, acq); break;
            default: x = f.load();
        }
        if (x == 1) {
            ok(data == 17, "the data is missing");
            got = true;
        }
    });
    run(c, fs);
    c.outcome(got);
    // And mutual exclusion by compare and exchange.
    int inside = 0;
    uint lock = 0;
    std::vector<Fn> gs;
    for (int i = 0; i < 2; ++i)
        gs.push_back([&] {
            vecmem::device_atomic_ref<uint> l(lock);
            uint e = 0;
            if (l.compare_exchange_strong(e, 1, memory_order::acq_rel)) {
                ++inside;
                ok(inside == 1, "two threads took the same lock");
                --inside;
                l.store(0, memory_order::release);
            }
        });
    run(c, gs);
}
#if !defined(DEVICE) && !defined(ALONE)
static void atomic_types(Ctx& c) {
    switch (c.choose(4)) {
        case 0: atomics<uint>(c); break;
        case 1: atomics<int64_t>(c); break;
        case 2: atomics<uint64_t>(c); break;
        default: atomics<int>(c);
    }
}
#endif

// ------------------------------------------------------------------ C32
// The class without memory orders.
template <class T>
struct Unordered {
    mutable vecmem::atomic<T> a;
    Unordered(T& x) : a(&x) {}
    T load(memory_order = {}) const { return a.load(); }
    void store(T v, memory_order = {}) const { a.store(v); }
    T operator=(T v) const {
        a.store(v);
        return v;
    }
    T exchange(T v, memory_order = {}) const { return a.exchange(v); }
    bool compare_exchange_strong(T& e, T v, memory_order = {}, memory_order = {}) const {
        return a.compare_exchange_strong(e, v);
    }
    T fetch_add(T v, memory_order = {}) const { return a.fetch_add(v); }
    T fetch_sub(T v, memory_order = {}) const { return a.fetch_sub(v); }
    T fetch_and(T v, memory_order = {}) const { return a.fetch_and(v); }
    T fetch_or(T v, memory_order = {}) const { return a.fetch_or(v); }
    T fetch_xor(T v, memory_order = {}) const { return a.fetch_xor(v); }
};
template <class T>
using Local = vecmem::device_atomic_ref<T, vecmem::device_address_space::local>;
template <class T>
static void any_object(Ctx& c, bool alone, int kind) {
    // One kind each is enough to have all types and kinds.
    switch (alone || c.thorough ? c.choose(3) : kind) {
        case 0: atomics<T>(c, alone); break;
        case 1: atomics<T, Local<T>>(c, alone); break;
        default: atomics<T, Unordered<T>>(c, alone);
    }
}
static void any_type(Ctx& c, bool alone) {
    switch (c.choose(3)) {
        case 0: any_object<uint>(c, alone, 0); break;
        case 1: any_object<int>(c, alone, 1); break;
        default: any_object<unsigned long long>(c, alone, 2);
    }
}
static void device_atomics(Ctx& c) { any_type(c, false); }
static void one_thread(Ctx& c) { any_type(c, true); }

#if defined(DEVICE) || defined(ALONE)
int main(int argc, char** argv) {
    sched::device_code();
    return mc::run_main(argc, argv,
                        {{"atomics_of_one_thread", one_thread, 6, "C32"},
#ifdef DEVICE
                         {"device_atomics", device_atomics, 6, "C32"},
                         {"device_appends", appends<Plain>, 6, "C32"},
                         {"device_removals", pops, 6, "C32"},
                         {"device_rows", jagged, 6, "C32"},
                         {"device_SoA_appends", soa, 6, "C32"},
#endif
                        });
}
#else
int main(int argc, char** argv) {
    return mc::run_main(
        argc, argv,
        {{"synchronized_probe", sync_probe, 6, "C11"},
         {"synchronized_real", sync_real, 6, "C11"},
         {"appends", appends<Triple>, 6, "C14"},
         {"appends_trivial", appends<Plain>, 6, "C14"},
         {"removals", pops, 6, "C14"},
         {"jagged_rows", jagged, 6, "C14"},
         {"SoA_appends", soa, 6, "C15"},
         {"atomic_operations", atomic_types, 6, "C26"},
         {"memory_order", message, 3, "C26"}});
}
#endif
