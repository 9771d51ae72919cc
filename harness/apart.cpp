// C33: threads which use different objects, or only read the same ones, do not disturb
// each other. Each thread's program is first run alone; in every schedule, with the race
// detector, it must then observe exactly the same.
#include <algorithm>
#include <map>
#include <memory>

#include "threads.hpp"
#include "vecmem/containers/array.hpp"
#include "vecmem/containers/data/jagged_vector_buffer.hpp"
#include "vecmem/containers/data/jagged_vector_data.hpp"
#include "vecmem/containers/data/vector_buffer.hpp"
#include "vecmem/containers/device_vector.hpp"
#include "vecmem/containers/jagged_device_vector.hpp"
#include "vecmem/containers/jagged_vector.hpp"
#include "vecmem/containers/static_array.hpp"
#include "vecmem/containers/static_vector.hpp"
#include "vecmem/containers/vector.hpp"
#include "vecmem/edm/container.hpp"
#include "vecmem/memory/allocator.hpp"
#include "vecmem/memory/arena_memory_resource.hpp"
#include "vecmem/memory/binary_page_memory_resource.hpp"
#include "vecmem/memory/choice_memory_resource.hpp"
#include "vecmem/memory/coalescing_memory_resource.hpp"
#include "vecmem/memory/conditional_memory_resource.hpp"
#include "vecmem/memory/contiguous_memory_resource.hpp"
#include "vecmem/memory/debug_memory_resource.hpp"
#include "vecmem/memory/host_memory_resource.hpp"
#include "vecmem/memory/identity_memory_resource.hpp"
#include "vecmem/memory/instrumenting_memory_resource.hpp"
#include "vecmem/memory/pool_memory_resource.hpp"
#include "vecmem/memory/synchronized_memory_resource.hpp"
#include "vecmem/memory/terminal_memory_resource.hpp"
#include "vecmem/memory/unique_ptr.hpp"
#include "vecmem/utils/copy.hpp"
#include "vecmem/utils/memory_monitor.hpp"

using namespace vecmem;
using uint = unsigned int;
using MR = vecmem::memory_resource;

// What a thread has seen.
struct Log {
    std::vector<uint64_t> seen;
    unsigned me = 0;
    template <class T>
    void put(const T& v) {
        sched::Quiet q;
        seen.push_back((uint64_t)v);
    }
    void put(const char* s) {
        for (; *s; ++s) put(*s);
    }
    void step(const char* what) { sched::yield(what); }
};

// Memory which is never touched, at the same addresses for each thread, with a log.
struct Far : MR {
    Log& l;
    char tag;
    uintptr_t next;
    Far(Log& log, char t = 'u') : l(log), tag(t), next(0x100000 * (uintptr_t)t) {}
    void* do_allocate(size_t n, size_t al) override {
        l.put(tag), l.put('+'), l.put(n), l.put(al);
        uintptr_t a = (next + al - 1) / al * al;
        next = a + n + 64;
        return (void*)a;
    }
    void do_deallocate(void* p, size_t n, size_t al) override {
        l.put(tag), l.put('-'), l.put((uintptr_t)p), l.put(n), l.put(al);
    }
    bool do_is_equal(const MR& o) const noexcept override { return this == &o; }
};

static void program(Log& l, MR& mr, unsigned prog) {
    struct B {
        void* p;
        size_t n, a;
    };
    std::vector<B> held;
    auto get = [&](size_t n, size_t a) {
        l.step("allocate");
        try {
            void* p = mr.allocate(n, a);
            l.put((uintptr_t)p);
            held.push_back({p, n, a});
        } catch (const std::bad_alloc&) {
            l.put("out of memory");
            held.push_back({nullptr, 0, 0});
        }
    };
    auto give = [&](size_t i) {
        l.step("release");
        B b = held[i];
        held.erase(held.begin() + (long)i);
        if (!b.p) return;
        try {
            mr.deallocate(b.p, b.n, b.a);
        } catch (const std::exception&) {
            l.put("refused");
        }
    };
    switch (prog) {
        case 0:
            get(24, 8), get(100, 16), give(0), get(24, 8);
            break;
        case 1:
            get(5000, 8), get(24, 8), give(0), get(300000, 64);
            break;
        default:
            get(64, 8), get(64, 8), give(1), get(64, 8), give(0);
    }
    while (!held.empty()) give(held.size() - 1);
}
static const char* const RES[] = {"pool", "pool with big blocks", "arena", "binary page",
                                  "contiguous", "debug", "instrumenting", "choice",
                                  "conditional", "coalescing", "identity", "synchronized",
                                  "terminal"};
constexpr unsigned NRES = 13;
static void resource(Log& l, unsigned kind, unsigned prog) {
    l.step("make");
    Far a(l, 'a'), b(l, 'b');
    std::unique_ptr<MR> mr, x, y;
    std::unique_ptr<memory_monitor> mon;
    instrumenting_memory_resource* ins = nullptr;
    switch (kind) {
        case 0: mr = std::make_unique<pool_memory_resource>(a); break;
        case 1: {
            pool_memory_resource::options o;
            o.smallest_block_size = 16;
            o.largest_block_size = 4096;
            o.cache_oversized = true;
            o.cached_size_cutoff_factor = 16;
            mr = std::make_unique<pool_memory_resource>(a, o);
            break;
        }
        case 2: mr = std::make_unique<arena_memory_resource>(a, 4096, 1 << 20); break;
        case 3: mr = std::make_unique<binary_page_memory_resource>(a); break;
        case 4: mr = std::make_unique<contiguous_memory_resource>(a, 400000); break;
        case 5: mr = std::make_unique<debug_memory_resource>(a); break;
        case 6: {
            auto i = std::make_unique<instrumenting_memory_resource>(a);
            i->add_pre_allocate_hook([&l](size_t n, size_t) { l.put(n); });
            i->add_post_allocate_hook([&l](size_t, size_t, void* p) {
                l.put((uintptr_t)p);
            });
            i->add_pre_deallocate_hook([&l](void*, size_t n, size_t) { l.put(n); });
            mon = std::make_unique<memory_monitor>(*i);
            ins = i.get();
            mr = std::move(i);
            break;
        }
        case 7:
            mr = std::make_unique<choice_memory_resource>(
                [&](size_t n, size_t) -> MR& { return n < 50 ? (MR&)a : (MR&)b; });
            break;
        case 8:
            mr = std::make_unique<conditional_memory_resource>(
                a, [](size_t n, size_t) { return n < 200; });
            break;
        case 9:
            x = std::make_unique<conditional_memory_resource>(
                a, [](size_t n, size_t) { return n == 24; });
            mr = std::make_unique<coalescing_memory_resource>(
                std::vector<std::reference_wrapper<MR>>{*x, b});
            break;
        case 10: mr = std::make_unique<identity_memory_resource>(a); break;
        case 11: mr = std::make_unique<synchronized_memory_resource>(a); break;
        default: mr = std::make_unique<terminal_memory_resource>();
    }
    program(l, *mr, prog);
    if (ins)
        for (auto& e : ins->get_events())
            l.put((int)e.m_type), l.put(e.m_size), l.put(e.m_align),
                l.put((uintptr_t)e.m_ptr);
    if (mon)
        l.put(mon->total_allocation()), l.put(mon->outstanding_allocation()),
            l.put(mon->average_allocation()), l.put(mon->maximal_allocation());
    l.step("destroy");
    mon.reset();
    mr.reset();
}

// ---- what all threads may use
template <class BASE>
struct Face : BASE {
    using BASE::BASE;
    VECMEM_HOST_AND_DEVICE auto& s() { return BASE::template get<0>(); }
    VECMEM_HOST_AND_DEVICE const auto& s() const { return BASE::template get<0>(); }
    VECMEM_HOST_AND_DEVICE auto& v() { return BASE::template get<1>(); }
    VECMEM_HOST_AND_DEVICE const auto& v() const { return BASE::template get<1>(); }
    VECMEM_HOST_AND_DEVICE auto& j() { return BASE::template get<2>(); }
    VECMEM_HOST_AND_DEVICE const auto& j() const { return BASE::template get<2>(); }
};
using Soa = edm::container<Face, edm::type::scalar<int>, edm::type::vector<float>,
                           edm::type::jagged_vector<int>>;
using FlatSchema = edm::schema<edm::type::scalar<int>, edm::type::vector<float>>;

struct Common {
    host_memory_resource host;
    const copy cp{};
    vecmem::vector<int> vec{&host};
    vecmem::jagged_vector<int> jag{&host};
    Soa::host soa{host};
    std::vector<size_t> shape{2, 0, 1};
    data::vector_buffer<int> buf;
    edm::buffer<Soa::schema_type> sbuf{shape, host};
    debug_memory_resource dbg{host};
    instrumenting_memory_resource ins{host};
    memory_monitor mon{ins};
    arena_memory_resource arena{host, 4096, 1 << 16};
    Common() : buf(4, host, data::buffer_type::resizable) {
        vec = {3, 1, 4};
        jag.resize(3);
        jag[0].assign({1, 2});
        jag[2].assign({7});
        soa.resize(3);
        soa.s() = 11;
        for (size_t i = 0; i < 3; ++i) {
            soa.v()[i] = (float)i + 0.5f;
            soa.j()[i].assign(shape[i], (int)i + 20);
        }
        cp.setup(buf)->ignore();
        cp(get_data(vec), buf)->ignore();
        cp.setup(sbuf)->ignore();
        cp(get_data(soa), sbuf)->ignore();
        ins.deallocate(ins.allocate(40, 8), 40, 8);
    }
};

static void fill(data::vector_view<int> v, Log& l) {
    device_vector<int> d(v);
    for (auto& x : d) l.put(x);
}
static const char* const ACT[] = {"vectors",        "jagged vectors", "buffers",
                                  "SoA containers", "pointers",       "fixed size",
                                  "1D copies",      "jagged copies",  "SoA copies",
                                  "reading",        "host memory",    "reading SoA"};
constexpr unsigned NACT = 12;
static void action(Log& l, Common& k, unsigned what) {
    const Common& ck = k;
    const int base = 100 * ((int)l.me + 1);
    l.step("start");
    switch (what) {
        case 0: {
            vecmem::vector<int> v(&k.host);
            for (int i = 0; i < 3; ++i) {
                v.push_back(base + i);
                l.step("grows");
            }
            auto w = get_data(v);
            device_vector<int> d(w);
            d[1] = base + 7;
            l.step("written");
            for (int i : v) l.put(i - base);
            l.put(w.size()), l.put(w.capacity() == d.capacity());
            break;
        }
        case 1: {
            vecmem::jagged_vector<int> v(&k.host);
            for (uint i = 0; i < 3; ++i) {
                v.push_back(vecmem::vector<int>(i, base, &k.host));
                l.step("grows");
            }
            auto w = get_data(v, &k.host);
            l.step("described");
            jagged_device_vector<int> d(w);
            for (auto row : d)
                for (auto& x : row) x += 1;
            for (auto& r : v)
                for (int i : r) l.put(i - base);
            l.put(w.size());
            break;
        }
        case 2: {
            data::vector_buffer<int> b(4, k.host, data::buffer_type::resizable);
            data::jagged_vector_buffer<int> j(std::vector<size_t>{2, 0, 3}, k.host,
                                              nullptr, data::buffer_type::resizable);
            l.step("made");
            copy c;
            c.setup(b)->ignore();
            c.setup(j)->ignore();
            l.step("set up");
            device_vector<int> d(b);
            jagged_device_vector<int> e(j);
            for (int i = 0; i < 3; ++i) {
                d.push_back(base + i);
                e[2].push_back(base + 10 + i);
            }
            data::vector_buffer<int> m(std::move(b));
            l.step("moved");
            fill(m, l);
            for (auto& x : e[2]) l.put(x - base);
            l.put(e[0].size()), l.put(e[1].capacity());
            break;
        }
        case 3: {
            Soa::host h{k.host};
            h.resize(2);
            l.step("resized");
            h.s() = base;
            h.v()[1] = (float)base;
            h.j()[0].assign(2, base + 1);
            auto data = get_data(h);
            Soa::device d{Soa::view{data}};
            l.step("described");
            l.put(d.s() - base), l.put(d.v()[1]), l.put(d.j()[0][1] - base);
            d[1].v() = 3;
            l.put(h.at(1).v());
            edm::buffer<FlatSchema> fb(4, k.host, data::buffer_type::resizable);
            copy c;
            c.setup(fb)->ignore();
            l.step("set up");
            edm::device<FlatSchema, Face> fd{edm::view<FlatSchema>{fb}};
            l.put(fd.push_back_default());
            l.put(fd.push_back_default());
            l.put(fd.size()), l.put(fd.capacity());
            break;
        }
        case 4: {
            auto p = make_unique_obj<int>(k.host, base);
            l.step("made");
            auto q = make_unique_alloc<int[]>(k.host, 4);
            q[0] = base;
            l.step("made");
            auto r = std::move(p);
            l.put(*r - base), l.put(q[0] - base), l.put(!p);
            q.reset();
            vecmem::allocator al(k.host);
            int* x = al.new_object<int>(base);
            l.step("made");
            l.put(*x - base);
            al.delete_object(x);
            break;
        }
        case 5: {
            static_vector<int, 4> s;
            array<int> a(k.host, 3);
            static_array<int, 2> t{base, base + 1};
            for (int i = 0; i < 3; ++i) {
                s.push_back(base + i);
                a[(size_t)i] = base - i;
                l.step("grows");
            }
            s.erase(s.begin());
            for (int i : s) l.put(i - base);
            for (int i : a) l.put(i - base);
            l.put(t[1] - base);
            try {
                a.at(7) = 0;
            } catch (const std::out_of_range&) {
                l.put("out of range");
            }
            break;
        }
        case 6: {
            auto b = k.cp.to(get_data(ck.vec), k.host);
            l.step("copied");
            fill(b, l);
            k.cp.memset(b, 0)->ignore();
            l.step("filled");
            fill(b, l);
            vecmem::vector<int> v(&k.host);
            k.cp(b, v)->wait();
            data::vector_buffer<int> r(5, k.host, data::buffer_type::resizable);
            k.cp.setup(r)->wait();
            l.step("set up");
            k.cp(get_data(ck.vec), r)->wait();
            l.put(k.cp.get_size(r));
            fill(r, l);
            vecmem::vector<int> w(&k.host);
            k.cp(k.buf, w)->wait();
            for (int i : w) l.put(i);
            break;
        }
        case 7: {
            auto from = get_data(ck.jag);
            auto b = k.cp.to(from, k.host);
            l.step("copied");
            vecmem::jagged_vector<int> v(&k.host);
            k.cp(b, v)->wait();
            for (auto& r : v) {
                l.put(r.size());
                for (int i : r) l.put(i);
            }
            k.cp.memset(b, 0)->wait();
            l.step("filled");
            for (auto n : k.cp.get_sizes(b)) l.put(n);
            k.cp(b, v)->wait();
            for (auto& r : v)
                for (int i : r) l.put(i);
            break;
        }
        case 8: {
            edm::buffer<Soa::schema_type> b(ck.shape, k.host);
            k.cp.setup(b)->wait();
            l.step("set up");
            k.cp(get_data(ck.soa), b)->wait();
            l.step("copied");
            Soa::host h{k.host};
            k.cp(b, h)->wait();
            l.put(h.s()), l.put(h.size());
            for (size_t i = 0; i < h.size(); ++i) {
                l.put(h.v()[i] * 2);
                for (int x : h.j()[i]) l.put(x);
            }
            Soa::host g{k.host};
            k.cp(k.sbuf, g)->wait();
            l.put(g.s()), l.put(g.j()[0][1]);
            break;
        }
        case 9: {
            auto v = get_data(ck.vec);
            auto j = get_data(ck.jag, &k.host);
            l.step("described");
            device_vector<const int> d(v);
            jagged_device_vector<const int> e(j);
            for (int i : d) l.put(i);
            for (auto r : e)
                for (int i : r) l.put(i);
            device_vector<const int> bd{data::vector_view<int>(k.buf)};
            l.put(bd.size()), l.put(bd.back());
            l.step("read");
            l.put(ck.ins.get_events().size()), l.put(ck.mon.total_allocation());
            l.put(ck.mon.average_allocation()), l.put(ck.mon.maximal_allocation());
            l.put(ck.host.is_equal(ck.dbg)), l.put(ck.arena.is_equal(ck.arena));
            l.put(ck.ins.is_equal(ck.ins)), l.put(ck.host == ck.host);
            data::vector_view<int> w(k.buf);
            l.put(w == data::vector_view<int>(k.buf));
            break;
        }
        case 10: {
            program(l, *std::make_unique<identity_memory_resource>(k.host), 9);
            l.seen.clear();  // other addresses
            char* p = (char*)k.host.allocate(100, 64);
            std::fill(p, p + 100, (char)l.me);
            l.step("filled");
            char* q = (char*)k.host.allocate(40, 8);
            std::fill(q, q + 40, (char)(l.me + 8));
            l.step("filled");
            l.put(std::count(p, p + 100, (char)l.me));
            k.host.deallocate(p, 100, 64);
            l.step("released");
            l.put(std::count(q, q + 40, (char)(l.me + 8)));
            l.put((uintptr_t)p % 64), l.put((uintptr_t)q % 8);
            k.host.deallocate(q, 40, 8);
            break;
        }
        default: {
            const auto data = get_data(ck.soa);
            l.step("described");
            Soa::const_device d{Soa::const_view{data}};
            l.put(d.s()), l.put(d.size());
            for (uint i = 0; i < d.size(); ++i) {
                l.put(d.v()[i] * 2);
                auto e = d.at(i);
                for (int x : e.j()) l.put(x);
            }
            l.step("read");
            for (size_t i = 0; i < ck.soa.size(); ++i) {
                l.put(ck.soa[i].v() * 2), l.put(ck.soa.at(i).s());
                l.put(ck.soa.at(i).j().size());
            }
            Soa::const_device b{Soa::const_view{k.sbuf}};
            l.put(b.s()), l.put(b.j()[2][0]), l.put(b.v()[1] * 2);
        }
    }
    l.step("end");
}

using Body = std::function<void(Log&)>;
static void together(Ctx& c, const std::vector<Body>& bodies, int preemptions) {
    const size_t n = bodies.size();
    std::vector<Log> alone(n), now(n);
    for (size_t i = 0; i < n; ++i) {
        alone[i].me = now[i].me = (unsigned)i;
        std::vector<Fn> f{[&, i] { bodies[i](alone[i]); }};
        run(c, f, 0);
    }
    std::vector<Fn> fs;
    for (size_t i = 0; i < n; ++i) fs.push_back([&, i] { bodies[i](now[i]); });
    run(c, fs, preemptions);
    for (size_t i = 0; i < n; ++i) {
        size_t d = 0;
        while (d < now[i].seen.size() && d < alone[i].seen.size() &&
               now[i].seen[d] == alone[i].seen[d])
            ++d;
        c.require(now[i].seen == alone[i].seen,
                  "thread %zu saw something else than when it runs alone (its "
                  "observation %zu of %zu)",
                  i + 1, d + 1, alone[i].seen.size());
        c.outcome(mc::mix(i, now[i].seen.size()));
    }
}
static void resources(Ctx& c) {
    const unsigned n = 2 + (c.thorough ? c.choose(2) : 0);
    std::vector<unsigned> kind(n), prog(n);
    for (unsigned i = 0; i < n; ++i) {
        kind[i] = c.choose(NRES);
        prog[i] = c.choose(3);
        if (i && (kind[i] < kind[i - 1] ||
                  (kind[i] == kind[i - 1] && prog[i] < prog[i - 1])))
            c.cut();
        c.note("thread %u: %s, program %u", i + 1, RES[kind[i]], prog[i]);
    }
    const bool same = kind[0] == kind[1];
    std::vector<Body> b;
    for (unsigned i = 0; i < n; ++i)
        b.push_back([&, i](Log& l) { resource(l, kind[i], prog[i]); });
    together(c, b, n == 3 ? (same ? 2 : 1) : same ? (c.thorough ? 5 : 3) : c.thorough ? 3 : 1);
}
static void objects(Ctx& c) {
    const unsigned n = 2 + (c.thorough ? c.choose(2) : 0);
    std::vector<unsigned> what(n);
    for (unsigned i = 0; i < n; ++i) {
        what[i] = c.choose(NACT);
        if (i && what[i] < what[i - 1]) c.cut();
        c.note("thread %u: %s", i + 1, ACT[what[i]]);
    }
    Common k;
    std::vector<Body> b;
    for (unsigned i = 0; i < n; ++i)
        b.push_back([&, i](Log& l) { action(l, k, what[i]); });
    together(c, b, n == 3 ? 2 : c.thorough ? 5 : 3);
}
int main(int argc, char** argv) {
    return mc::run_main(argc, argv, {{"separate_resources", resources, 6, "C33"},
                                     {"separate_objects", objects, 6, "C33"}});
}
