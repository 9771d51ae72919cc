// Owning pointers and the allocator.
//   C24 unique_obj_ptr, unique_alloc_ptr   C25 allocator
#include <cstring>
#include <map>
#include <memory>
#include <new>
#include <tuple>
#include <vector>
#include <vecmem/memory/allocator.hpp>
#include <vecmem/memory/memory_resource.hpp>
#include <vecmem/memory/unique_ptr.hpp>

#include "mc.hpp"
#include "mem.hpp"
#include "tracked.hpp"

using mc::Ctx;
using std::size_t;

template <size_t A>
struct alignas(A) Wide {
    int v[A / sizeof(int) ? A / sizeof(int) : 1];
};
struct NoDefault {  // trivially copyable only
    int v;
    explicit NoDefault(int x) : v(x) {}
};

// ------------------------------------------------------------------ C24
enum How { OBJ, ALLOC, COPY };

struct CopyThrow {};

// The copy helper: checks what it is given.
struct Copier {
    unsigned* calls;
    const void* want_src;
    size_t want_bytes;
    bool fail;
    std::string* err;
    Mem* mem;
    void operator()(void* dst, const void* src, size_t bytes) const {
        ++*calls;
        if (src != want_src) *err = "the copy helper got another source";
        if (bytes != want_bytes) *err = "the copy helper got another size";
        auto it = mem->live.find((char*)dst);
        if (dst ? (it == mem->live.end() || it->second.n != bytes) : bytes != 0)
            *err = "the copy helper got a target that is not the allocation";
        if (fail) throw CopyThrow{};
        if (bytes) std::memcpy(dst, src, bytes);
    }
};

template <class T, How HOW>
static void own_run(Ctx& c) {
    using E = std::remove_all_extents_t<T>;
    constexpr bool ARR = std::is_array_v<T>;
    using ROW = std::remove_extent_t<T>;
    using P = std::conditional_t<HOW == OBJ, vecmem::unique_obj_ptr<T>,
                                 vecmem::unique_alloc_ptr<T>>;
    Track::reset();
    std::string err;
    {
        Mem m[2] = {{c, "first"}, {c, "second"}};
        m[0].zero_blocks = m[1].zero_blocks = c.choose(2);
        struct Slot {
            bool has = false;      // has a block or a zero sized array
            char* p = nullptr;
            unsigned mem = 0;
            size_t n = 0;
            int tag = 0;
        };
        constexpr unsigned NS = 2;
        P s[NS];
        Slot ref[NS];
        int next = 1;
        const unsigned depth = c.steps(c.thorough ? 4 : 3);
        bool used[2] = {false, false};

        auto check = [&](const char* what) {
            c.require(Track::err.empty(), "%s: %s", what, Track::err.c_str());
            c.require(err.empty(), "%s: %s", what, err.c_str());
            size_t blocks[2] = {0, 0}, elems = 0;
            uint64_t h = 0;
            for (unsigned i = 0; i < NS; ++i) {
                const Slot& r = ref[i];
                c.require((char*)s[i].get() == r.p,
                          "%s: pointer %u is %p, expected %p", what, i,
                          (void*)s[i].get(), (void*)r.p);
                c.require((bool)s[i] == (r.p != nullptr), "%s: null", what);
                h = mc::mix(h, r.p ? 1 + r.n * 2 + r.mem : 0);
                if (!r.p) continue;
                ++blocks[r.mem];
                elems += r.n;
                auto it = m[r.mem].live.find(r.p);
                c.require(it != m[r.mem].live.end(),
                          "%s: the memory of pointer %u is not held", what, i);
                const size_t bytes = r.n * sizeof(std::conditional_t<ARR, ROW, T>);
                c.require(it->second.n >= bytes,
                          "%s: pointer %u has %zu bytes, needs %zu", what, i,
                          it->second.n, bytes);
                c.require((size_t)r.p % alignof(E) == 0,
                          "%s: pointer %u is misaligned for its type", what, i);
                if constexpr (HOW == OBJ) {
                    for (size_t k = 0; k < r.n; ++k) {
                        const int v = val(((const E*)r.p)[k]);
                        c.require(v == r.tag, "%s: element %zu is %d, not %d",
                                  what, k, v, r.tag);
                    }
                } else {
                    const unsigned char* b = (const unsigned char*)r.p;
                    for (size_t k = 0; k < bytes; ++k)
                        c.require(b[k] == (unsigned char)(r.tag + (int)k * (r.tag != 0xc5)),
                                  "%s: byte %zu changed", what, k);
                }
            }
            if constexpr (HOW == OBJ)
                c.require(Track::live == elems, "%s: %u objects exist, not %zu",
                          what, Track::live, elems);
            for (unsigned k = 0; k < 2; ++k) {
                c.require(m[k].err.empty(), "%s: %s", what, m[k].err.c_str());
                c.require(m[k].live.size() == blocks[k],
                          "%s: %zu blocks are held from the %s resource, not %zu",
                          what, m[k].live.size(), m[k].name, blocks[k]);
            }
            c.state(h);
        };

        for (unsigned step = 0; step < depth; ++step) try {
            const unsigned op = c.choose(8);
            if (op == 0) {
                // make a new one, possibly failing, and put it into a slot
                // (the pointers and resources are alike until they are used)
                const unsigned i = ref[0].p || ref[1].p ? c.choose(NS) : 0;
                const unsigned mi = used[0] ? c.choose(2) : 0;
                used[mi] = true;
                size_t n = 1;
                const unsigned args = (HOW == OBJ && !ARR) ? c.choose(3) : 0;
                const int tag = HOW == OBJ ? (args ? next : 0)
                                           : (HOW == COPY ? 7 * next : 0xc5);
                ++next;
                if (ARR) {
                    static const std::vector<size_t> ns = {2, 1, 0, 5, 17, 60};
                    n = ns[c.choose(c.want_long ? 6 : c.thorough ? 4 : 3)];
                }
                // 0: works; 1: allocation fails; 2: k-th element throws
                unsigned nfail = 2 + (HOW == OBJ ? (unsigned)n : HOW == COPY ? 1 : 0);
                const unsigned f = c.choose(nfail);
                c.op("make in %u, resource %u, %zu elements, fault %u", i, mi, n, f);
                Mem& mr = m[mi];
                mr.asked.clear();
                if (f == 1) mr.fail_at = 1;
                if (HOW == OBJ && f >= 2) Track::throw_at = f - 1;
                unsigned calls = 0;
                std::vector<unsigned char> src;
                const size_t unit = sizeof(std::conditional_t<ARR, ROW, T>);
                alignas(256) static unsigned char buf[4096];
                if (HOW == COPY)
                    for (size_t k = 0; k < n * unit; ++k)
                        buf[k] = (unsigned char)(tag + (int)k);
                Copier cp{&calls, buf, n * unit, HOW == COPY && f == 2, &err, &mr};
                int thrown = 0;
                P made;
                try {
                    if constexpr (HOW == OBJ) {
                        if constexpr (ARR)
                            made = vecmem::make_unique_obj<T>(mr, n);
                        else if (args == 0)
                            made = vecmem::make_unique_obj<T>(mr);
                        else if (args == 1)
                            made = vecmem::make_unique_obj<T>(mr, tag);
                        else
                            made = vecmem::make_unique_obj<T>(mr, tag - 1, 1);
                    } else if constexpr (HOW == ALLOC) {
                        if constexpr (ARR)
                            made = vecmem::make_unique_alloc<T>(mr, n);
                        else
                            made = vecmem::make_unique_alloc<T>(mr);
                    } else {
                        if constexpr (ARR)
                            made = vecmem::make_unique_alloc<T>(
                                mr, n, reinterpret_cast<const ROW*>(buf), cp);
                        else
                            made = vecmem::make_unique_alloc<T>(
                                mr, reinterpret_cast<const T*>(buf), cp);
                    }
                } catch (const std::bad_alloc&) {
                    thrown = 1;
                } catch (const Thrown&) {
                    thrown = 2;
                } catch (const CopyThrow&) {
                    thrown = 2;
                }
                const bool asked = !mr.asked.empty();
                mr.fail_at = 0;
                Track::throw_at = 0;
                c.require(err.empty(), "make: %s", err.c_str());
                // Without anything to allocate the resource need not be asked.
                if (n == 0 && f == 1)
                    c.require(thrown == (asked ? 1 : 0), "make: result of a failure");
                else
                    c.require(thrown == (f == 0 ? 0 : f == 1 ? 1 : 2),
                              "make: the failure %u was passed on as %d", f, thrown);
                c.require(mr.asked.size() <= 1, "make: %zu allocations",
                          mr.asked.size());
                if (thrown) {
                    c.require(!made, "make: not null after a failure");
                    check("failed make");
                    c.outcome(thrown);
                    continue;
                }
                if (HOW == COPY)
                    c.require(calls == 1 || (n == 0 && calls == 0),
                              "make: the copy helper was called %u times", calls);
                c.require(n == 0 || made, "make: null");
                Slot r;
                r.p = (char*)made.get();
                r.mem = mi;
                r.n = n;
                r.tag = tag;
                // the old content of the slot is given up by the assignment
                s[i] = std::move(made);
                ref[i] = r;
                check("make");
            } else if (op == 1) {
                const unsigned i = c.choose(NS);
                c.op("move assign from %u", i);
                s[1 - i] = std::move(s[i]);
                ref[1 - i] = ref[i];
                ref[i] = Slot{};
                check("move assignment");
            } else if (op == 2) {
                const unsigned i = c.choose(NS);
                c.op("move construct from %u, then destroy", i);
                {
                    P t(std::move(s[i]));
                    c.require((char*)t.get() == ref[i].p && !s[i],
                              "move construction");
                }
                ref[i] = Slot{};
                check("move construction and destruction");
            } else if (op == 3) {
                const unsigned i = c.choose(NS);
                c.op("reset %u", i);
                s[i].reset();
                ref[i] = Slot{};
                check("reset");
            } else if (op == 4) {
                c.op("swap");
                s[0].swap(s[1]);
                std::swap(ref[0], ref[1]);
                check("swap");
            } else if (op == 5) {
                const unsigned i = c.choose(NS);
                if (!ref[i].p) c.cut();
                c.op("release %u and adopt with a copy of its deleter", i);
                auto d = s[i].get_deleter();
                auto* p = s[i].release();
                c.require((char*)p == ref[i].p && !s[i], "release");
                P t(p, d);
                s[i] = std::move(t);
                check("release and adopt");
            } else if (op == 6) {
                const unsigned i = c.choose(NS);
                c.op("assign null to %u", i);
                s[i] = nullptr;
                ref[i] = Slot{};
                check("null assignment");
            } else {
                // write through one pointer
                const unsigned i = c.choose(NS);
                if (!ref[i].p || !ref[i].n) c.cut();
                c.op("write %u", i);
                ref[i].tag = 3 * next++;
                if constexpr (HOW == OBJ) {
                    for (size_t k = 0; k < ref[i].n; ++k) {
                        if constexpr (ARR) s[i][k].v = ref[i].tag;
                        else s[i]->v = ref[i].tag;
                    }
                } else {
                    const size_t bytes =
                        ref[i].n * sizeof(std::conditional_t<ARR, ROW, T>);
                    for (size_t k = 0; k < bytes; ++k)
                        ((unsigned char*)s[i].get())[k] =
                            (unsigned char)(ref[i].tag + (int)k);
                }
                check("write");
            }
        } catch (mc::Next&) {
        }
        for (unsigned i = 0; i < NS; ++i) {
            P dead(std::move(s[i]));
            ref[i] = Slot{};
        }
        check("destruction");
    }
    c.count("histories");
}

// Lengths whose size in bytes cannot be represented.
static void own_huge(Ctx& c) {
    Track::reset();
    Mem m(c, "resource");
    static const std::vector<size_t> ns = {
        ~size_t(0), ~size_t(0) / 2 + 1, ~size_t(0) / 4 + 1, ~size_t(0) / 64 + 2,
        ~size_t(0) / sizeof(Obj) + 1, ~size_t(0) / sizeof(Obj) + 2,
        ~size_t(0) / 12 + 1, ~size_t(0) / 12 + 2, size_t(1) << 40};
    const size_t n = c.pick(ns);
    const unsigned kind = c.choose(6);
    c.op("make %zu elements of kind %u", n, kind);
    bool bad = false;
    unsigned calls = 0;
    auto cp = [&](void*, const void*, size_t) { ++calls; };
    size_t unit = 1;
    auto ran = [&](auto f) {
        try {
            auto p = f();
            (void)p;
        } catch (const std::bad_alloc&) {
            bad = true;
        }
    };
    // An object constructed outside of the memory would fault: stop it instead.
    Track::throw_at = 1;
    try {
        switch (kind) {
            case 0: unit = 4; ran([&] { return vecmem::make_unique_alloc<int[]>(m, n); }); break;
            case 1: unit = 12; ran([&] { return vecmem::make_unique_alloc<int[][3]>(m, n); }); break;
            case 2: unit = 64; ran([&] { return vecmem::make_unique_alloc<Wide<64>[]>(m, n); }); break;
            case 3: unit = 4; ran([&] { int x = 0; return vecmem::make_unique_alloc<int[]>(m, n, &x, cp); }); break;
            case 4: unit = sizeof(ObjT<4, true>); ran([&] { return vecmem::make_unique_obj<ObjT<4, true>[]>(m, n); }); break;
            default: unit = 1; ran([&] { return vecmem::make_unique_alloc<char[]>(m, n); }); break;
        }
    } catch (const Thrown&) {
        c.fail("make: %zu elements of %zu bytes were constructed in too little memory",
               n, unit);
    }
    c.require(bad, "make: %zu elements of %zu bytes did not fail", n, unit);
    c.require(calls == 0, "make: the copy helper was called");
    c.require(m.live.empty() && m.err.empty(), "make: memory is left");
    c.count("histories");
}

// ------------------------------------------------------------------ C25
template <class T>
static void allocator_run(Ctx& c) {
    Track::reset();
    Mem m[2] = {{c, "first"}, {c, "second"}};
    m[1].zero_blocks = true;  // gives out real memory for zero bytes
    vecmem::allocator a0(m[0]), a1(m[1]);
    vecmem::allocator copy(a0);
    vecmem::allocator* al[3] = {&a0, &a1, &copy};
    Mem* mem[3] = {&m[0], &m[1], &m[0]};
    struct L {
        unsigned kind;  // 0 bytes 1 objects 2 one new object
        char* p;
        size_t n, align;
        unsigned a;
        int tag;
    };
    std::vector<L> live;
    int next = 1;
    const unsigned depth = c.steps(c.thorough ? 4 : 3);
    auto check = [&](const char* what) {
        c.require(Track::err.empty(), "%s: %s", what, Track::err.c_str());
        size_t blocks[2] = {0, 0};
        unsigned objs = 0;
        uint64_t h = 0;
        for (auto& l : live) {
            h = mc::mix(h, l.kind * 16 + l.a);
            h = mc::mix(h, l.n);
            if (!l.p) continue;
            ++blocks[mem[l.a] == &m[1]];
            auto it = mem[l.a]->live.find(l.p);
            c.require(it != mem[l.a]->live.end(), "%s: memory is not held", what);
            const size_t bytes = l.kind ? l.n * sizeof(T) : l.n;
            c.require(it->second.n == bytes && it->second.al == l.align,
                      "%s: memory was taken with size %zu and alignment %zu, not %zu "
                      "and %zu",
                      what, it->second.n, it->second.al, bytes, l.align);
            if (l.kind == 2) {
                ++objs;
                if constexpr (!std::is_trivial_v<T>)
                    c.require(val(*(T*)l.p) == l.tag, "%s: value of an object", what);
            }
        }
        if constexpr (!std::is_trivial_v<T>)
            c.require(Track::live == objs, "%s: %u objects exist, not %u", what,
                      Track::live, objs);
        for (unsigned k = 0; k < 2; ++k) {
            c.require(m[k].err.empty(), "%s: %s", what, m[k].err.c_str());
            c.require(m[k].live.size() == blocks[k],
                      "%s: %zu blocks are held from the %s resource, not %zu", what,
                      m[k].live.size(), m[k].name, blocks[k]);
        }
        c.state(h);
    };
    for (unsigned step = 0; step < depth; ++step) try {
        const unsigned op = c.choose(7);
        const unsigned i = op < 4 ? c.choose(3) : 0;
        if (op < 3) {
            L l{op, nullptr, 1, alignof(T), i, 0};
            unsigned args = 0;
            if (op == 0) {
                static const std::vector<std::pair<size_t, size_t>> rs = {
                    {24, 16}, {0, 16}, {1, 64}, {100, 4096}, {5, 1}, {0, 64},
                    {60000, 8}, {4096, 16}, {33, 32}};
                std::tie(l.n, l.align) =
                    rs[c.choose(c.want_long ? 9 : c.thorough ? 6 : 4)];
            } else if (op == 1) {
                static const std::vector<size_t> ns = {1, 3, 0, 17, 1000};
                l.n = ns[c.choose(c.want_long ? 5 : 3)];
            } else {
                args = c.choose(3);
                l.tag = args ? next++ : 0;
            }
            const bool deflt = (op == 0 && l.align == 16) || (op == 1 && l.n == 1);
            const unsigned f = c.choose(op == 2 && !std::is_trivial_v<T> ? 3 : 2);
            c.op("allocate kind %u n %zu align %zu allocator %u fault %u", op, l.n,
                 l.align, i, f);
            Mem& mr = *mem[i];
            mr.asked.clear();
            if (f == 1) mr.fail_at = 1;
            if (f == 2) Track::throw_at = 1;
            int thrown = 0;
            try {
                if (op == 0)
                    l.p = (char*)(deflt ? al[i]->allocate_bytes(l.n)
                                        : al[i]->allocate_bytes(l.n, l.align));
                else if (op == 1)
                    l.p = (char*)(deflt ? al[i]->template allocate_object<T>()
                                        : al[i]->template allocate_object<T>(l.n));
                else if constexpr (std::is_trivial_v<T>)
                    l.p = (char*)al[i]->template new_object<T>();
                else if (args == 0)
                    l.p = (char*)al[i]->template new_object<T>();
                else if (args == 1)
                    l.p = (char*)al[i]->template new_object<T>(l.tag);
                else
                    l.p = (char*)al[i]->template new_object<T>(l.tag - 1, 1);
            } catch (const std::bad_alloc&) {
                thrown = 1;
            } catch (const Thrown&) {
                thrown = 2;
            }
            const bool asked = !mr.asked.empty();
            mr.fail_at = 0;
            Track::throw_at = 0;
            if (l.n == 0 && f == 1)
                c.require(thrown == (asked ? 1 : 0), "allocate: result of a failure");
            else
                c.require(thrown == (int)f, "allocate: the failure %u was passed on as %d",
                          f, thrown);
            c.require(mr.asked.size() <= 1, "allocate: %zu requests", mr.asked.size());
            c.require(op != 0 || l.n != 0 || (!l.p && !asked), "allocate: zero bytes");
            if (!thrown) {
                c.require(l.n == 0 || l.p, "allocate: null");
                c.require((size_t)l.p % l.align == 0, "allocate: misaligned");
                if (l.kind != 2)
                    std::memset(l.p, 0x3c, l.p ? (l.kind ? l.n * sizeof(T) : l.n) : 0);
                live.push_back(l);
            }
            check("allocate");
        } else if (op == 3) {
            // give one back, through this allocator or another of its memory
            if (live.empty()) c.cut();
            const unsigned k = c.choose((unsigned)live.size());
            L l = live[k];
            if (mem[l.a] != mem[i]) c.cut();
            c.op("deallocate kind %u n %zu through %u", l.kind, l.n, i);
            live.erase(live.begin() + k);
            const unsigned before = mem[i]->released;
            if (l.kind == 0) {
                if (l.align == 16) al[i]->deallocate_bytes(l.p, l.n);
                else al[i]->deallocate_bytes(l.p, l.n, l.align);
            } else if (l.kind == 1) {
                if (l.n == 1) al[i]->deallocate_object((T*)l.p);
                else al[i]->deallocate_object((T*)l.p, l.n);
            } else
                al[i]->delete_object((T*)l.p);
            c.require(mem[i]->released <= before + 1, "deallocate: released twice");
            check("deallocate");
        } else if (op == 4) {
            c.op("deallocate null bytes");
            const unsigned before = m[0].released;
            a0.deallocate_bytes(nullptr, c.choose(2) ? 16 : 0);
            c.require(m[0].released == before, "deallocate null: was passed on");
            check("deallocate null");
        } else if (op == 5) {
            // Lengths whose size in bytes cannot be represented.
            static const std::vector<size_t> ns = {
                ~size_t(0) / sizeof(T) + 1, ~size_t(0) / sizeof(T) + 2, ~size_t(0)};
            const size_t n = c.pick(ns);
            if (sizeof(T) == 1) c.cut();
            c.op("allocate %zu objects", n);
            bool bad = false;
            try {
                (void)a0.allocate_object<T>(n);
            } catch (const std::bad_alloc&) {
                bad = true;
            }
            c.require(bad, "allocate: %zu objects of %zu bytes did not fail", n,
                      sizeof(T));
            check("allocate too much");
        } else {
            c.op("allocate_bytes of the largest size");
            bool bad = false;
            try {
                (void)a0.allocate_bytes(~size_t(0));
            } catch (const std::bad_alloc&) {
                bad = true;
            }
            c.require(bad, "allocate: the largest size did not fail");
            check("allocate too much");
        }
    } catch (mc::Next&) {
    }
    while (!live.empty()) {
        L l = live.back();
        live.pop_back();
        if (l.kind == 0) al[l.a]->deallocate_bytes(l.p, l.n, l.align);
        else if (l.kind == 1) al[l.a]->deallocate_object((T*)l.p, l.n);
        else al[l.a]->delete_object((T*)l.p);
    }
    check("end");
    c.count("histories");
}

int main(int argc, char** argv) {
    std::vector<mc::Scenario> s;
    using TO = ObjT<4, true>;
    using WO = ObjT<64, true>;
    s.push_back({"own_obj", own_run<TO, OBJ>, 4, "C24"});
    s.push_back({"own_obj_long", mc::longer<own_run<TO, OBJ>>, 3, "C24"});
    s.push_back({"own_obj_wide", own_run<WO, OBJ>, 4, "C24"});
    s.push_back({"own_obj_wide_long", mc::longer<own_run<WO, OBJ>>, 3, "C24"});
    s.push_back({"own_obj_array", own_run<TO[], OBJ>, 4, "C24"});
    s.push_back({"own_obj_array_long", mc::longer<own_run<TO[], OBJ>>, 3, "C24"});
    s.push_back({"own_obj_array_wide", own_run<WO[], OBJ>, 4, "C24"});
    s.push_back({"own_obj_array_wide_long", mc::longer<own_run<WO[], OBJ>>, 3, "C24"});
    s.push_back({"own_obj_array_wide32", own_run<ObjT<32, true>[], OBJ>, 4, "C24"});
    s.push_back({"own_obj_array_wide32_long", mc::longer<own_run<ObjT<32, true>[], OBJ>>, 3, "C24"});
    s.push_back({"own_alloc", own_run<int, ALLOC>, 4, "C24"});
    s.push_back({"own_alloc_long", mc::longer<own_run<int, ALLOC>>, 3, "C24"});
    s.push_back({"own_alloc_wide", own_run<Wide<64>, ALLOC>, 4, "C24"});
    s.push_back({"own_alloc_wide_long", mc::longer<own_run<Wide<64>, ALLOC>>, 3, "C24"});
    s.push_back({"own_alloc_wide32", own_run<Wide<32>, ALLOC>, 4, "C24"});
    s.push_back({"own_alloc_wide32_long", mc::longer<own_run<Wide<32>, ALLOC>>, 3, "C24"});
    s.push_back({"own_alloc_array", own_run<int[], ALLOC>, 4, "C24"});
    s.push_back({"own_alloc_array_long", mc::longer<own_run<int[], ALLOC>>, 3, "C24"});
    s.push_back({"own_alloc_array2", own_run<int[][3], ALLOC>, 4, "C24"});
    s.push_back({"own_alloc_array2_long", mc::longer<own_run<int[][3], ALLOC>>, 3, "C24"});
    s.push_back({"own_alloc_array_char", own_run<char[], ALLOC>, 4, "C24"});
    s.push_back({"own_alloc_array_char_long", mc::longer<own_run<char[], ALLOC>>, 3, "C24"});
    s.push_back({"own_alloc_array_wide", own_run<Wide<64>[], ALLOC>, 4, "C24"});
    s.push_back({"own_alloc_array_wide_long", mc::longer<own_run<Wide<64>[], ALLOC>>, 3, "C24"});
    s.push_back({"own_copy", own_run<NoDefault, COPY>, 4, "C24"});
    s.push_back({"own_copy_long", mc::longer<own_run<NoDefault, COPY>>, 3, "C24"});
    s.push_back({"own_copy_wide", own_run<Wide<128>, COPY>, 4, "C24"});
    s.push_back({"own_copy_wide_long", mc::longer<own_run<Wide<128>, COPY>>, 3, "C24"});
    s.push_back({"own_copy_array", own_run<NoDefault[], COPY>, 4, "C24"});
    s.push_back({"own_copy_array_long", mc::longer<own_run<NoDefault[], COPY>>, 3, "C24"});
    s.push_back({"own_copy_array_wide", own_run<Wide<64>[], COPY>, 4, "C24"});
    s.push_back({"own_copy_array_wide_long", mc::longer<own_run<Wide<64>[], COPY>>, 3, "C24"});
    s.push_back({"own_huge", own_huge, 1, "C24"});
    s.push_back({"allocator_obj", allocator_run<TO>, 4, "C25"});
    s.push_back({"allocator_obj_long", mc::longer<allocator_run<TO>>, 3, "C25"});
    s.push_back({"allocator_obj_wide", allocator_run<WO>, 4, "C25"});
    s.push_back({"allocator_obj_wide_long", mc::longer<allocator_run<WO>>, 3, "C25"});
    s.push_back({"allocator_char", allocator_run<char>, 4, "C25"});
    s.push_back({"allocator_char_long", mc::longer<allocator_run<char>>, 3, "C25"});
    s.push_back({"allocator_pod", allocator_run<Wide<64>>, 4, "C25"});
    s.push_back({"allocator_pod_long", mc::longer<allocator_run<Wide<64>>>, 3, "C25"});
    return mc::run_main(argc, argv, s);
}
