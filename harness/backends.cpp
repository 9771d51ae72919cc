// C29, C30, C31: the CUDA, HIP and SYCL parts of the library, driven against
// stand-ins for the three runtimes (mock/).
#include <cuda_runtime_api.h>
#include <hip/hip_runtime_api.h>
#include <sycl/sycl.hpp>

#include <memory>
#include <new>
#include <optional>
#include <stdexcept>

#include "mc.hpp"
#include "vecmem/containers/data/jagged_vector_view.hpp"
#include "vecmem/containers/data/vector_view.hpp"
#include "vecmem/memory/cuda/device_memory_resource.hpp"
#include "vecmem/memory/cuda/host_memory_resource.hpp"
#include "vecmem/memory/cuda/managed_memory_resource.hpp"
#include "vecmem/memory/hip/device_memory_resource.hpp"
#include "vecmem/memory/hip/host_memory_resource.hpp"
#include "vecmem/memory/hip/managed_memory_resource.hpp"
#include "vecmem/memory/host_memory_resource.hpp"
#include "vecmem/memory/sycl/device_memory_resource.hpp"
#include "vecmem/memory/sycl/host_memory_resource.hpp"
#include "vecmem/memory/sycl/shared_memory_resource.hpp"
#include "vecmem/utils/cuda/async_copy.hpp"
#include "vecmem/utils/cuda/copy.hpp"
#include "vecmem/utils/cuda/stream_wrapper.hpp"
#include "vecmem/utils/hip/copy.hpp"
#include "vecmem/utils/sycl/async_copy.hpp"
#include "vecmem/utils/sycl/copy.hpp"
#include "vecmem/utils/sycl/queue_wrapper.hpp"

using mc::Ctx;
using MR = vecmem::memory_resource;
using CT = vecmem::copy::type;

struct Clean {
    Clean() { rt::reset(); }
    ~Clean() { rt::reset(); }
};

// A call during which one call of the runtime fails (the fault-th; 0: none).
struct Tried {
    enum { NONE, BAD_ALLOC, OTHER } thrown = NONE;
    bool failed;     // a call of the runtime failed
    unsigned calls;  // which could have failed (counted if there is a fault)
    bool right() const { return (thrown != NONE) == failed; }
};
template <class F>
Tried attempt(unsigned fault, F&& f) {
    Tried t;
    rt::step(fault);
    try {
        f();
    } catch (const std::bad_alloc&) {
        t.thrown = Tried::BAD_ALLOC;
    } catch (const std::exception&) {
        t.thrown = Tried::OTHER;
    }
    t.failed = rt::s.failed;
    t.calls = rt::s.calls;
    rt::step(0);
    return t;
}

// ============================================================ C29: resources
struct Slot {
    std::unique_ptr<MR> mr;
    unsigned kind = 0;  // rt::Kind
    int dev = 0;        // the device (or queue) of a device resource
};
struct CudaMR {
    static constexpr rt::Api api = rt::CUDA;
    static constexpr unsigned kinds = 5;
    static void make(Slot& s, unsigned k, std::vector<sycl::queue>&) {
        if (k < 3) {
            s.kind = rt::DEVICE;
            s.dev = k == 2 ? rt::s.current : (int)k;
            s.mr = k == 2 ? std::make_unique<vecmem::cuda::device_memory_resource>()
                          : std::make_unique<vecmem::cuda::device_memory_resource>((int)k);
        } else if (k == 3) {
            s.kind = rt::HOST;
            s.mr = std::make_unique<vecmem::cuda::host_memory_resource>();
        } else {
            s.kind = rt::SHARED;
            s.mr = std::make_unique<vecmem::cuda::managed_memory_resource>();
        }
    }
};
struct HipMR {
    static constexpr rt::Api api = rt::HIP;
    static constexpr unsigned kinds = 5;
    static void make(Slot& s, unsigned k, std::vector<sycl::queue>&) {
        if (k < 3) {
            s.kind = rt::DEVICE;
            s.dev = k == 2 ? rt::s.current : (int)k;
            s.mr = k == 2 ? std::make_unique<vecmem::hip::device_memory_resource>()
                          : std::make_unique<vecmem::hip::device_memory_resource>((int)k);
        } else if (k == 3) {
            s.kind = rt::HOST;
            s.mr = std::make_unique<vecmem::hip::host_memory_resource>();
        } else {
            s.kind = rt::SHARED;
            s.mr = std::make_unique<vecmem::hip::managed_memory_resource>();
        }
    }
};
struct SyclMR {
    static constexpr rt::Api api = rt::SYCL;
    static constexpr unsigned kinds = 9;
    static void make(Slot& s, unsigned k, std::vector<sycl::queue>& q) {
        // on the queue of somebody else, or on one of its own
        auto w = [&]() -> vecmem::sycl::queue_wrapper {
            if (k / 3 < 2) {
                s.dev = q[k / 3].stand_in()->id;
                return vecmem::sycl::queue_wrapper(&q[k / 3]);
            }
            vecmem::sycl::queue_wrapper own;
            s.dev = ((sycl::queue*)own.queue())->stand_in()->id;
            return own;
        }();
        s.kind = k % 3 == 0 ? rt::DEVICE : k % 3 == 1 ? rt::HOST : rt::SHARED;
        if (k % 3 == 0) s.mr = std::make_unique<vecmem::sycl::device_memory_resource>(w);
        else if (k % 3 == 1)
            s.mr = std::make_unique<vecmem::sycl::host_memory_resource>(w);
        else s.mr = std::make_unique<vecmem::sycl::shared_memory_resource>(w);
    }
};

template <class A>
void mr_run(Ctx& c) {
    Clean clean;
    std::vector<sycl::queue> queues(2);
    const unsigned depth = c.steps(c.thorough ? 5 : 4);
    const bool is_sycl = A::api == rt::SYCL;
    Slot slot[2];
    struct L {
        char* p;
        std::size_t n, al;
        unsigned slot, kind;
        int dev;
        unsigned char tag;
    };
    std::vector<L> live;
    int cur = 0;
    unsigned char tag = 1;
    vecmem::host_memory_resource other;
    std::unique_ptr<MR> foreign;
    if (A::api == rt::CUDA)
        foreign = std::make_unique<vecmem::hip::device_memory_resource>(0);
    else
        foreign = std::make_unique<vecmem::cuda::device_memory_resource>(0);
    auto same = [&](const Slot& x, const Slot& y) {
        if (is_sycl) return x.dev == y.dev;
        return x.kind == y.kind && (x.kind != rt::DEVICE || x.dev == y.dev);
    };
    auto check = [&](const char* what) {
        rt::step(0);
        c.require(rt::s.err.empty(), "%s: %s", what, rt::s.err.c_str());
        c.require(rt::s.current == cur, "%s: the current device is %d instead of %d",
                  what, rt::s.current, cur);
        c.require(rt::s.blocks.size() == live.size(),
                  "%s: %zu blocks are held instead of %zu", what, rt::s.blocks.size(),
                  live.size());
        uint64_t h = cur;
        for (auto& l : live) {
            const rt::Block* b = rt::find(l.p);
            c.require(b, "%s: an address which is not that of a block", what);
            c.require(b->n >= l.n, "%s: %zu bytes instead of %zu", what, b->n, l.n);
            c.require(b->kind == l.kind, "%s: memory of kind %d instead of %u", what,
                      (int)b->kind, l.kind);
            if (is_sycl || l.kind == rt::DEVICE)
                c.require(b->dev == l.dev, "%s: memory of device %d instead of %d", what,
                          b->dev, l.dev);
            if (l.kind != rt::DEVICE)
                for (std::size_t i = 0; i < l.n; ++i)
                    c.require((unsigned char)l.p[i] == l.tag, "%s: contents changed",
                              what);
            h = mc::mix(h, l.n * 64 + l.kind * 8 + (is_sycl ? l.slot : l.dev));
        }
        for (auto& x : slot) {
            h = mc::mix(h, x.mr ? x.kind * 8 + (is_sycl ? 0 : x.dev) + 1 : 0);
            if (!x.mr) continue;
            c.require(!x.mr->is_equal(other) && !other.is_equal(*x.mr),
                      "%s: equal to a host resource", what);
            c.require(!x.mr->is_equal(*foreign) && !foreign->is_equal(*x.mr),
                      "%s: equal to a resource of another back end", what);
            for (auto& y : slot) {
                if (!y.mr) continue;
                const bool e = x.mr->is_equal(*y.mr);
                if (same(x, y) && x.kind == y.kind)
                    c.require(e, "%s: resources for the same memory differ", what);
                else if (!same(x, y))
                    c.require(!e, "%s: resources for different memory are equal", what);
            }
        }
        c.state(h);
    };
    static const std::vector<std::size_t> sizes = {0, 1, 24, std::size_t(1) << 40};
    for (unsigned d = 0; d < depth; ++d) try {
        const unsigned op = c.choose(6);
        if (op == 0 && c.stop()) break;
        if (op == 0 || op == 1) {
            const unsigned i = c.choose(2);
            for (auto& l : live)
                if (l.slot == i) c.cut();
            const unsigned k = c.choose(A::kinds);
            if (i && !slot[0].mr) c.cut();
            c.op("resource %u of kind %u", i, k);
            slot[i].mr.reset();
            A::make(slot[i], k, queues);
            check("construction");
        } else if (op == 2) {
            const unsigned i = c.choose(2);
            if (!slot[i].mr) c.cut();
            L l{};
            l.n = c.pick(sizes);
            // The runtimes of CUDA and HIP do not take an alignment.
            l.al = is_sycl ? c.choose(2) ? 512 : 8 : 16;
            l.slot = i;
            l.kind = slot[i].kind;
            l.dev = slot[i].dev;
            l.tag = tag++;
            if (live.size() > 100) c.cut();
            const unsigned f = c.choose(3);
            c.op("allocate %zu from %u, call %u fails", l.n, i, f);
            const Tried t = attempt(
                f, [&] { l.p = (char*)slot[i].mr->allocate(l.n, l.al); });
            if (f && !t.failed && c.stop()) throw mc::Cut{};
            c.require((t.thrown != Tried::NONE) == (t.failed || l.n > (1u << 20)),
                      "allocate: a failure was not passed on, or there was none");
            c.require(!is_sycl || t.thrown != Tried::OTHER,
                      "allocate: not the out-of-memory exception");
            if (t.thrown == Tried::NONE && l.n) {
                c.require(l.p, "allocate: null");
                c.require((std::uintptr_t)l.p % l.al == 0, "allocate: misaligned");
                if (l.kind != rt::DEVICE) std::memset(l.p, l.tag, l.n);
                live.push_back(l);
            }
            check("allocate");
        } else if (op == 3) {
            if (live.empty()) c.cut();
            const unsigned k = c.choose(std::min<std::size_t>(live.size(), 2));
            const L l = live[k];
            const unsigned i = c.choose(2);
            if (!slot[i].mr) c.cut();
            if (i != l.slot && !slot[i].mr->is_equal(*slot[l.slot].mr)) c.cut();
            const unsigned f = is_sycl ? 0 : c.choose(3);
            c.op("release %u through %u, call %u fails", k, i, f);
            const Tried t =
                attempt(f, [&] { slot[i].mr->deallocate(l.p, l.n, l.al); });
            if (f && !t.failed && c.stop()) throw mc::Cut{};
            c.require(t.right(),
                      "release: a failure was not passed on, or there was none");
            if (!t.failed) live.erase(live.begin() + k);
            check("release");
        } else if (op == 4) {
            const unsigned i = c.choose(2);
            if (!slot[i].mr) c.cut();
            c.op("release null");
            const Tried t = attempt(0, [&] { slot[i].mr->deallocate(nullptr, 16); });
            c.require(t.right(), "release of a null pointer");
            check("release null");
        } else {
            if (is_sycl) c.cut();
            cur = (cur + 1 + c.choose(2)) % 3;
            c.op("current device %d", cur);
            rt::s.current = cur;
            check("device");
        }
    } catch (mc::Next&) {
    }
    while (!live.empty()) {
        L l = live.back();
        live.pop_back();
        rt::step(0);
        slot[l.slot].mr->deallocate(l.p, l.n, l.al);
    }
    check("end");
    for (auto& x : slot) x.mr.reset();
    check("destruction");
    c.count("histories");
}

// ============================================================ C30: copies
// Memory the copies work on: one area is the harness's own host memory, one the
// runtime's host memory, the others are on the device or shared.
struct Areas {
    static constexpr unsigned N = 5, LEN = 3;
    int* p[N];
    rt::Kind kind[N] = {rt::PAGEABLE, rt::DEVICE, rt::DEVICE, rt::SHARED, rt::PAGEABLE};
    std::vector<int> want[N];
    std::unique_ptr<int[]> own[N];
    Areas(rt::Api api) {
        for (unsigned i = 0; i < N; ++i) {
            if (kind[i] == rt::PAGEABLE) {
                own[i].reset(new int[LEN]);
                p[i] = own[i].get();
            } else
                p[i] = (int*)rt::get(LEN * sizeof(int), 16, kind[i], api, 0);
            for (unsigned j = 0; j < LEN; ++j)
                want[i].push_back((int)(1000 * (i + 1) + 7 * j));
            poke(i);
        }
    }
    void poke(unsigned i) {
        rt::Open o(p[i], LEN * sizeof(int));
        std::memcpy(p[i], want[i].data(), LEN * sizeof(int));
    }
    std::vector<int> peek(unsigned i) const {
        rt::Open o(p[i], LEN * sizeof(int));
        return std::vector<int>(p[i], p[i] + LEN);
    }
    bool host(unsigned i) const { return kind[i] == rt::PAGEABLE; }
};
struct CudaCopy {
    static constexpr rt::Api api = rt::CUDA;
    static constexpr bool async = false, ordered = true;
    std::unique_ptr<vecmem::copy> make(unsigned) {
        return std::make_unique<vecmem::cuda::copy>();
    }
    rt::Stream* stream(unsigned) { return nullptr; }
};
struct HipCopy {
    static constexpr rt::Api api = rt::HIP;
    static constexpr bool async = false, ordered = true;
    std::unique_ptr<vecmem::copy> make(unsigned) {
        return std::make_unique<vecmem::hip::copy>();
    }
    rt::Stream* stream(unsigned) { return nullptr; }
};
struct SyclCopy {
    static constexpr rt::Api api = rt::SYCL;
    static constexpr bool async = false, ordered = false;
    std::vector<sycl::queue> q = std::vector<sycl::queue>(2);
    std::unique_ptr<vecmem::copy> make(unsigned i) {
        return std::make_unique<vecmem::sycl::copy>(vecmem::sycl::queue_wrapper(&q[i]));
    }
    rt::Stream* stream(unsigned i) { return q[i].stand_in(); }
};
struct CudaAsync {
    static constexpr rt::Api api = rt::CUDA;
    static constexpr bool async = true, ordered = true;
    rt::Stream* st[2];
    std::unique_ptr<vecmem::copy> make(unsigned i) {
        if (i) {  // on a stream of somebody else
            st[i] = rt::new_stream(0, true, true);
            return std::make_unique<vecmem::cuda::async_copy>(
                vecmem::cuda::stream_wrapper((void*)st[i]));
        }
        vecmem::cuda::stream_wrapper w;
        st[i] = (rt::Stream*)w.stream();
        return std::make_unique<vecmem::cuda::async_copy>(w);
    }
    rt::Stream* stream(unsigned i) { return st[i]; }
};
struct SyclAsync {
    static constexpr rt::Api api = rt::SYCL;
    static constexpr bool async = true, ordered = false;
    sycl::queue q;
    rt::Stream* st[2];
    std::unique_ptr<vecmem::copy> make(unsigned i) {
        if (i) {
            st[i] = q.stand_in();
            return std::make_unique<vecmem::sycl::async_copy>(
                vecmem::sycl::queue_wrapper(&q));
        }
        vecmem::sycl::queue_wrapper w;
        st[i] = ((sycl::queue*)w.queue())->stand_in();
        return std::make_unique<vecmem::sycl::async_copy>(w);
    }
    rt::Stream* stream(unsigned i) { return st[i]; }
};

template <class B>
void copy_run(Ctx& c) {
    Clean clean;
    const unsigned depth = c.steps(B::async ? c.thorough ? 4 : 3 : c.thorough ? 3 : 2);
    unsigned faults = 0;
    B back;
    Areas a(B::api);
    std::unique_ptr<vecmem::copy> cp[2];
    cp[0] = back.make(0);
    cp[1] = back.make(1);
    const unsigned streams = rt::streams_alive();
    // Calls whose operations may not have run yet.
    struct Call {
        unsigned who;
        std::size_t first, last;  // operations
        std::vector<unsigned> reads, writes;
        vecmem::copy::event_type e;
        bool settled = false, gone = false;
    };
    std::vector<Call> calls;
    auto held = [&] {
        unsigned n = 0;
        for (auto& k : calls) n += (bool)k.e;
        return n;
    };
    auto events = [&](const char* what) {
        if (B::api != rt::CUDA || !B::async) return;
        unsigned n = 0;
        for (auto& k : calls) n += k.e && !k.gone;
        c.require(rt::events_alive() >= n && rt::events_alive() <= held(),
                  "%s: %u events exist", what, rt::events_alive());
    };
    auto settle = [&](Call& k) {
        for (std::size_t i = k.first; i < k.last; ++i)
            if (!rt::s.ops[i].done) return false;
        return true;
    };
    auto touched = [&](unsigned i) {  // by a call which may be pending
        for (auto& k : calls) {
            if (k.settled) continue;
            for (unsigned w : k.writes)
                if (w == i) return true;
        }
        return false;
    };
    auto check = [&](const char* what) {
        rt::step(0);
        c.require(rt::s.err.empty(), "%s: %s", what, rt::s.err.c_str());
        c.require(rt::s.current == 0, "%s: the current device has changed", what);
        uint64_t h = 0;
        for (unsigned i = 0; i < Areas::N; ++i) {
            const bool t = touched(i);
            if (!t)
                c.require(a.peek(i) == a.want[i], "%s: area %u does not hold what it should",
                          what, i);
            h = mc::mix(h, t);
            for (int v : a.want[i]) h = mc::mix(h, v);
        }
        c.require(rt::s.blocks.size() == 3, "%s: memory of the runtime was taken", what);
        c.require(rt::streams_alive() == streams, "%s: number of streams", what);
        h = mc::mix(h, held());
        c.state(h);
    };
    // May a call of this object touch this area now?
    auto allowed = [&](unsigned who, unsigned area, bool write) {
        for (auto& k : calls) {
            if (k.settled) continue;
            if (B::ordered && k.who == who) continue;
            for (unsigned w : k.writes)
                if (w == area) return false;
            if (write)
                for (unsigned r : k.reads)
                    if (r == area) return false;
        }
        return true;
    };
    auto type = [&](unsigned f, unsigned t) {
        return a.host(f) ? (a.host(t) ? CT::host_to_host : CT::host_to_device)
                         : (a.host(t) ? CT::device_to_host : CT::device_to_device);
    };
    using V = vecmem::data::vector_view<int>;
    using CV = vecmem::data::vector_view<const int>;
    // The event of a call was waited for.
    auto finish = [&](unsigned i) {
        Call& k = calls[i];
        if (k.gone) return;  // after it was ignored
        k.gone = true;
        c.require(settle(k), "an event was waited for before the operations of its "
                  "call had been run");
        k.settled = true;
        // In a stream, so have those before.
        for (auto& o : calls)
            if (B::ordered && o.who == k.who && o.last <= k.last) o.settled = true;
    };
    for (unsigned d = 0; d < depth; ++d) try {
        const unsigned op = c.choose(B::async ? 7 : 4);
        if (op == 0 && c.stop()) break;
        if (op < 4) {
            const unsigned who = c.choose(B::async || B::api == rt::SYCL ? 2 : 1);
            Call k{};
            k.who = who;
            std::vector<unsigned> to;
            unsigned from = 0, from2 = 0;
            bool hint = false, empty = false;
            int value = 0;
            const unsigned what = op == 0 ? 3 : op;  // 0 ends the history
            if (what == 1) {  // one array
                static const unsigned pairs[6][2] = {{0, 1}, {1, 2}, {2, 4},
                                                     {3, 1}, {1, 0}, {0, 3}};
                if (B::async) {
                    const unsigned* p = pairs[c.choose(6)];
                    from = p[0];
                    to = {p[1]};
                } else {
                    from = c.choose(Areas::N);
                    const unsigned t = c.choose(Areas::N - 1);
                    to = {t >= from ? t + 1 : t};
                }
                k.reads = {from};
                empty = !B::async && c.choose(2);
            } else if (what == 2) {  // three rows, two of which belong together
                static const unsigned pairs[4][4] = {
                    {0, 4, 1, 2}, {1, 2, 0, 4}, {0, 2, 1, 3}, {3, 1, 2, 4}};
                const unsigned* p = pairs[c.choose(B::async && !c.thorough ? 3 : 4)];
                from = p[0];
                from2 = p[1];
                to = {p[2], p[3]};
                k.reads = {from, from2};
            } else {
                const unsigned t = 1 + c.choose(B::async ? 2 : 3);
                if (c.choose(2)) to = {t, t % 3 + 1};
                else to = {t};
                value = B::async ? d % 2 ? 0x5b : 0 : c.choose(2) ? 0 : 0x5b;
            }
            k.writes = to;
            if (what != 3) {
                hint = B::async ? (d + from) % 2 : c.choose(2);
                // A hint is for the whole call.
                if (hint && what == 2 &&
                    (type(from, to[0]) != type(from2, to[1]) ||
                     type(from, to[0]) != type(from, to[1])))
                    hint = false;
            }
            for (unsigned r : k.reads)
                if (!allowed(who, r, false)) c.cut();
            for (unsigned w : k.writes)
                if (!allowed(who, w, true)) c.cut();
            const unsigned f = faults ? 0 : c.choose(B::async ? 4 : 3);
            if (f) ++faults;
            c.op("call %u by %u: %u,%u to %u,%u value %d, hint %d, call %u fails", what,
                 who, from, from2, to[0], to.back(), value, hint, f);
            const std::size_t ops = rt::s.ops.size();
            const Tried t = attempt(f, [&] {
                if (what == 1) {
                    const unsigned n = empty ? 0 : Areas::LEN;
                    k.e = (*cp[who])(CV(n, a.p[from]), V(n, a.p[to[0]]),
                                     hint ? type(from, to[0]) : CT::unknown);
                } else if (what == 2) {
                    CV rf[3] = {CV(2, a.p[from]), CV(1, a.p[from] + 2),
                                CV(3, a.p[from2])};
                    V rt_[3] = {V(2, a.p[to[0]]), V(1, a.p[to[0]] + 2),
                                V(3, a.p[to[1]])};
                    k.e = (*cp[who])(
                        vecmem::data::jagged_vector_view<const int>(3, rf, rf),
                        vecmem::data::jagged_vector_view<int>(3, rt_, rt_),
                        hint ? type(from, to[0]) : CT::unknown);
                } else if (to.size() == 1)
                    k.e = cp[who]->memset(V(3, a.p[to[0]]), value);
                else {
                    V rt_[2] = {V(3, a.p[to[0]]), V(3, a.p[to[1]])};
                    k.e = cp[who]->memset(
                        vecmem::data::jagged_vector_view<int>(2, rt_, rt_), value);
                }
            });
            const bool failed = t.failed;
            if (f && !failed && c.stop()) throw mc::Cut{};
            c.require(t.right(), "a failure was not passed on, or there was none");
            c.require(!empty || rt::s.ops.size() == ops || [&] {
                for (std::size_t i = ops; i < rt::s.ops.size(); ++i)
                    if (rt::s.ops[i].n) return false;
                return true;
            }(), "an empty copy copied");
            k.first = ops;
            k.last = rt::s.ops.size();
            for (std::size_t i = ops; i < rt::s.ops.size(); ++i)
                if (B::async || B::api == rt::SYCL)
                    c.require(rt::s.ops[i].stream == back.stream(who),
                              "an operation runs in another stream or queue");
            if (failed) {
                // What was started still runs; the targets may hold anything.
                rt::drain();
                for (auto& o : calls) o.settled = true;
                for (unsigned w : to) a.want[w] = a.peek(w);
                check("failure");
                events("failure");
                continue;
            }
            c.require((bool)k.e, "no event");
            if (what == 1) {
                if (!empty) a.want[to[0]] = a.want[from];
            } else if (what == 2) {
                const auto x = a.want[from], y = a.want[from2];
                a.want[to[0]] = x;
                a.want[to[1]] = y;
            } else
                for (unsigned w : to) {
                    int v;
                    std::memset(&v, value, sizeof v);
                    a.want[w].assign(3, v);
                }
            if (!B::async)
                c.require(settle(k), "a copy which is not asynchronous was not finished");
            k.settled = !B::async;
            calls.push_back(std::move(k));
            if (!B::async || c.choose(2)) {
                const unsigned i = (unsigned)calls.size() - 1;
                calls[i].e->wait();
                finish(i);
            }
            check("copy");
            events("event");
        } else if (op == 4) {  // a pending operation runs
            auto r = rt::ready();
            if (r.empty()) c.cut();
            c.op("run");
            rt::run(rt::s.ops[r[c.choose(std::min<std::size_t>(r.size(), 3))]]);
            check("progress");
        } else {
            std::vector<unsigned> h;
            for (unsigned i = 0; i < calls.size(); ++i)
                if (calls[i].e) h.push_back(i);
            if (h.empty()) c.cut();
            const unsigned i = h[op == 6 ? c.choose(std::min<std::size_t>(h.size(), 2))
                                         : h.size() - 1];
            const unsigned act = c.choose(faults ? 3 : 4);
            if (act == 3) ++faults;
            c.op("event %u: %u", i, act);
            if (act == 0) {
                calls[i].e->wait();
                finish(i);
            } else if (act == 1) {
                calls[i].e->ignore();
                calls[i].e->ignore();
                calls[i].gone = true;
            } else if (act == 2) {
                // An event which nobody waited for or ignored is waited for.
                calls[i].e.reset();
                finish(i);
            } else {
                const Tried t = attempt(1, [&] { calls[i].e->wait(); });
                c.require(t.right(),
                          "wait: a failure was not passed on, or there was none");
                if (!t.failed) {
                    if (c.stop()) throw mc::Cut{};
                } else {
                    calls[i].e->wait();
                    finish(i);
                }
            }
            check("event");
            events("event");
        }
    } catch (mc::Next&) {
    }
    // The events may outlive the copy objects.
    const bool first = calls.size() % 2;
    if (first) cp[0].reset();
    for (unsigned i = 0; i < calls.size(); ++i)
        if (calls[i].e) {
            const bool w = i % 2 == 0;
            if (w) calls[i].e->wait();
            calls[i].e.reset();
            finish(i);
        }
    rt::drain();
    for (auto& k : calls) k.settled = true;
    cp[0].reset();
    cp[1].reset();
    c.require(rt::events_alive() == 0, "%u events were not destroyed",
              rt::events_alive());
    if (B::api == rt::CUDA && B::async)
        c.require(rt::streams_alive() == 1, "the stream of the copies was not destroyed");
    c.require(rt::s.err.empty(), "end: %s", rt::s.err.c_str());
    for (unsigned i = 0; i < Areas::N; ++i)
        c.require(a.peek(i) == a.want[i], "end: area %u does not hold what it should", i);
    c.count("histories");
}

// ============================================================ C31: wrappers
struct CudaWrap {
    using W = vecmem::cuda::stream_wrapper;
    static constexpr bool counts = true;
    rt::Stream* foreign[2] = {rt::new_stream(0, true, true), rt::new_stream(1, true, true)};
    static rt::Stream* get(const W& w) { return (rt::Stream*)w.stream(); }
    std::unique_ptr<W> own(unsigned d) {
        return d == 2 ? std::make_unique<W>() : std::make_unique<W>((int)d);
    }
    std::unique_ptr<W> view(unsigned i) { return std::make_unique<W>((void*)foreign[i]); }
    static void sync(W& w) { w.synchronize(); }
    static int device(unsigned d) { return d == 2 ? rt::s.current : (int)d; }
};
struct SyclWrap {
    using W = vecmem::sycl::queue_wrapper;
    static constexpr bool counts = false;
    std::vector<sycl::queue> q = std::vector<sycl::queue>(2);
    rt::Stream* foreign[2] = {q[0].stand_in(), q[1].stand_in()};
    static rt::Stream* get(const W& w) {
        const void* p = w.queue();
        W& m = const_cast<W&>(w);
        if (m.queue() != p) rt::bad("the constant queue is another one");
        return ((const sycl::queue*)p)->stand_in();
    }
    std::unique_ptr<W> own(unsigned) { return std::make_unique<W>(); }
    std::unique_ptr<W> view(unsigned i) { return std::make_unique<W>((void*)&q[i]); }
    static void sync(W&) {}
    static int device(unsigned) { return 0; }
};

template <class B>
void wrap_run(Ctx& c) {
    Clean clean;
    using W = typename B::W;
    const unsigned depth = c.steps((c.thorough ? 5 : 4) + !B::counts);
    B back;
    std::unique_ptr<W> w[3];
    rt::Stream* is[3] = {};     // what each refers to; null: moved from
    bool owns[3] = {};
    int cur = 0;
    unsigned faults = 0;
    auto check = [&](const char* what) {
        rt::step(0);
        c.require(rt::s.err.empty(), "%s: %s", what, rt::s.err.c_str());
        c.require(rt::s.current == cur, "%s: the current device has changed", what);
        uint64_t h = cur;
        std::vector<rt::Stream*> kept = {back.foreign[0], back.foreign[1]};
        for (unsigned i = 0; i < 3; ++i) {
            h = mc::mix(h, !w[i] ? 0 : !is[i] ? 1 : 2 + is[i]->id * 2 + owns[i]);
            if (!w[i] || !is[i]) continue;
            c.require(B::get(*w[i]) == is[i], "%s: wrapper %u is for another stream or "
                      "queue", what, i);
            if (owns[i] && std::find(kept.begin(), kept.end(), is[i]) == kept.end())
                kept.push_back(is[i]);
        }
        for (auto* k : kept)
            c.require(k->alive, "%s: a stream was destroyed which is still in use", what);
        if (B::counts)
            c.require(rt::streams_alive() == kept.size(),
                      "%s: %u streams exist instead of %zu", what, rt::streams_alive(),
                      kept.size());
        c.state(h);
    };
    for (unsigned d = 0; d < depth; ++d) try {
        const unsigned op = c.choose(8);
        if (op == 0 && c.stop()) break;
        const unsigned i = c.choose(3);
        if (i && !w[i - 1] && !w[i]) c.cut();  // the names do not matter
        if (op == 0 || op == 1) {
            if (w[i]) c.cut();
            const unsigned dev = B::counts ? 2 - c.choose(c.thorough ? 3 : 2) : 0;
            const unsigned f = faults ? 0 : c.choose(B::counts ? 3 : 2);
            if (f) ++faults;
            c.op("%u: new stream on %u, call %u fails", i, dev, f);
            const int want = B::device(dev);
            const Tried t = attempt(f, [&] { w[i] = back.own(dev); });
            const bool failed = t.failed;
            if (f && !failed && c.stop()) throw mc::Cut{};
            c.require(t.right(), "a failure was not passed on, or there was none");
            if (!failed) {
                is[i] = B::get(*w[i]);
                owns[i] = true;
                c.require(is[i] && is[i] != back.foreign[0] && is[i] != back.foreign[1],
                          "not a new stream");
                for (unsigned j = 0; j < 3; ++j)
                    c.require(j == i || !w[j] || is[j] != is[i], "not a new stream");
                c.require(!B::counts || is[i]->dev == want,
                          "a stream on device %d instead of %d", is[i]->dev, want);
            }
            check("new");
        } else if (op == 2) {
            if (w[i]) c.cut();
            const unsigned k = c.choose(2);
            c.op("%u: view of %u", i, k);
            w[i] = back.view(k);
            is[i] = back.foreign[k];
            owns[i] = false;
            check("view");
        } else if (op == 3) {
            if (!w[i]) c.cut();
            c.op("destroy %u", i);
            w[i].reset();
            is[i] = nullptr;
            owns[i] = false;
            check("destroy");
        } else if (op == 4 || op == 5) {  // copies and moves
            const unsigned j = c.choose(3);
            if (!w[j] || !is[j]) c.cut();
            if (i == j && op == 5) c.cut();  // assigned to itself: below
            c.op("%u: %s of %u", i, op == 4 ? "copy" : "move", j);
            const bool ow = owns[j];
            rt::Stream* const s = is[j];
            if (op == 4) {
                const W& src = *w[j];
                if (w[i]) *w[i] = src;
                else w[i] = std::make_unique<W>(src);
            } else {
                if (w[i]) *w[i] = std::move(*w[j]);
                else w[i] = std::make_unique<W>(std::move(*w[j]));
                is[j] = nullptr;
                owns[j] = false;
            }
            is[i] = s;
            owns[i] = ow;
            check("copy or move");
        } else if (op == 6) {
            if (!w[i] || !is[i]) c.cut();
            c.op("move %u to itself", i);
            W& x = *w[i];
            *w[i] = std::move(x);
            check("move to itself");
        } else {
            if (!B::counts) c.cut();
            if (c.choose(2)) {
                cur = (cur + 1) % 3;
                c.op("current device %d", cur);
                rt::s.current = cur;
                check("device");
            } else {
                if (!w[i] || !is[i]) c.cut();
                const unsigned f = faults ? 0 : c.choose(2);
                if (f) ++faults;
                c.op("synchronize %u, call %u fails", i, f);
                char buf[2][8] = {};
                rt::copy_later(buf[1], buf[0], 8, rt::H2H, is[i]);
                const Tried t = attempt(f, [&] { B::sync(*w[i]); });
                c.require(t.right(),
                          "synchronize: a failure was not passed on, or there was none");
                c.require(t.failed || rt::s.ops.back().done,
                          "synchronize: an operation of the stream has not run");
                rt::drain();
                check("synchronize");
            }
        }
    } catch (mc::Next&) {
    }
    for (unsigned i = 0; i < 3; ++i) {
        w[i].reset();
        is[i] = nullptr;
        owns[i] = false;
        check("end");
    }
    c.count("histories");
}

int main(int argc, char** argv) {
    std::vector<mc::Scenario> s;
#define ADD(name, run, depth, prop)                 \
    s.push_back({name, run, depth, prop});          \
    s.push_back({name "_long", mc::longer<run>, 3, prop})
    ADD("cuda_resources", mr_run<CudaMR>, 4, "C29");
    ADD("hip_resources", mr_run<HipMR>, 4, "C29");
    ADD("sycl_resources", mr_run<SyclMR>, 4, "C29");
#ifdef VECMEM_HAVE_SYCL_MEMSET  // the other build differs for SYCL only
    ADD("cuda_copy", copy_run<CudaCopy>, 5, "C30");
    ADD("hip_copy", copy_run<HipCopy>, 5, "C30");
    ADD("cuda_async_copy", copy_run<CudaAsync>, 5, "C30");
#endif
    ADD("sycl_copy", copy_run<SyclCopy>, 5, "C30");
    ADD("sycl_async_copy", copy_run<SyclAsync>, 5, "C30");
    ADD("cuda_streams", wrap_run<CudaWrap>, 4, "C31");
    ADD("sycl_queues", wrap_run<SyclWrap>, 4, "C31");
    return mc::run_main(argc, argv, s);
}
