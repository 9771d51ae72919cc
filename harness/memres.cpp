// Exhaustive exploration of allocate/deallocate histories on every memory
// resource of the core library that manages or forwards memory.
//   C01 disjoint + inside upstream   C02 alignment   C03 conservation
//   C04 failures                     C05 reuse       C06 contiguous layout
#include "upstream.hpp"

#include <memory>
#include <stdexcept>
#include <vecmem/memory/arena_memory_resource.hpp>
#include <vecmem/memory/binary_page_memory_resource.hpp>
#include <vecmem/memory/choice_memory_resource.hpp>
#include <vecmem/memory/coalescing_memory_resource.hpp>
#include <vecmem/memory/conditional_memory_resource.hpp>
#include <vecmem/memory/contiguous_memory_resource.hpp>
#include <vecmem/memory/debug_memory_resource.hpp>
#include <vecmem/memory/host_memory_resource.hpp>
#include <vecmem/memory/identity_memory_resource.hpp>
#include <vecmem/memory/instrumenting_memory_resource.hpp>
#include <vecmem/memory/pool_memory_resource.hpp>
#include <vecmem/memory/synchronized_memory_resource.hpp>
#include <vecmem/memory/terminal_memory_resource.hpp>

using mc::Ctx;
using MR = std::pmr::memory_resource;
using u64 = std::uint64_t;

static constexpr std::size_t KiB = 1024, MiB = 1024 * 1024;

// Type-erased owner with move construction / move assignment.
struct Box {
    virtual ~Box() = default;
    virtual MR& mr() = 0;
    virtual bool movable() const { return false; }
    virtual void move_construct() {}
    virtual void move_assign(MR&) {}
    bool owning = false;  // its destruction releases what it handed out
};
using BoxP = std::unique_ptr<Box>;

template <class R>
struct BoxOf : Box {
    std::unique_ptr<R> r;
    std::function<std::unique_ptr<R>(MR&)> mk;
    BoxOf(MR& up, std::function<std::unique_ptr<R>(MR&)> f) : mk(f) {
        r = mk(up);
    }
    MR& mr() override { return *r; }
    bool movable() const override {
        return std::is_move_constructible_v<R> && std::is_move_assignable_v<R>;
    }
    void move_construct() override {
        if constexpr (std::is_move_constructible_v<R>) {
            auto n = std::make_unique<R>(std::move(*r));
            r = std::move(n);
        }
    }
    // Assign our state over another live resource of the same type, which owns
    // memory of its own; continue with that one.
    void move_assign(MR& up) override {
        if constexpr (std::is_move_assignable_v<R>) {
            auto n = mk(up);
            if (owning) {
                try {
                    (void)n->allocate(100, 16);
                } catch (const std::bad_alloc&) {
                }
            }
            *n = std::move(*r);
            r = std::move(n);
        }
    }
};
template <class R, class F>
BoxP box(MR& up, F f) {
    return std::make_unique<BoxOf<R>>(
        up, std::function<std::unique_ptr<R>(MR&)>(f));
}
// Outer resource on top of an inner one.
struct Stack : Box {
    BoxP inner, outer;
    MR& mr() override { return outer->mr(); }
    ~Stack() override {
        outer.reset();
        inner.reset();
    }
};

struct Cfg {
    const char* name;
    std::function<BoxP(MR&)> make;
    std::vector<std::size_t> sizes;      // sizes for plain histories
    std::vector<std::size_t> big;        // sizes that cannot be satisfied
    std::size_t burst = 0;               // size used for burst allocation
    bool caching = false;                // keeps freed memory for reuse
    bool returns_all_live = true;        // destruction releases everything,
                                         // also what is still handed out
    std::size_t own_limit = 0;           // may refuse by itself (contiguous)
    unsigned dq = 5, dt = 6;             // depth: quick, thorough
};

static vecmem::pool_memory_resource::options pool_opts(
    std::size_t minb, std::size_t minB, std::size_t maxb, std::size_t maxB,
    std::size_t sm, std::size_t lg, std::size_t al, bool cache,
    std::size_t sf = 16, std::size_t af = 16) {
    vecmem::pool_memory_resource::options o;
    o.min_blocks_per_chunk = minb;
    o.min_bytes_per_chunk = minB;
    o.max_blocks_per_chunk = maxb;
    o.max_bytes_per_chunk = maxB;
    o.smallest_block_size = sm;
    o.largest_block_size = lg;
    o.alignment = al;
    o.cache_oversized = cache;
    o.cached_size_cutoff_factor = sf;
    o.cached_alignment_cutoff_factor = af;
    return o;
}

static const std::vector<std::size_t> HUGE_SIZES = {
    std::size_t(1) << 62, (std::size_t(1) << 63) + 1, SIZE_MAX - 100, SIZE_MAX};

static std::vector<Cfg> configs() {
    std::vector<Cfg> v;
    auto arena = [](std::size_t init) {
        return [init](MR& up) {
            return box<vecmem::arena_memory_resource>(up, [init](MR& u) {
                return std::make_unique<vecmem::arena_memory_resource>(
                    u, init, std::size_t(1) << 40);
            });
        };
    };
    auto pool = [](vecmem::pool_memory_resource::options o) {
        return [o](MR& up) {
            return box<vecmem::pool_memory_resource>(up, [o](MR& u) {
                return std::make_unique<vecmem::pool_memory_resource>(u, o);
            });
        };
    };
    auto bp = [](MR& up) {
        return box<vecmem::binary_page_memory_resource>(up, [](MR& u) {
            return std::make_unique<vecmem::binary_page_memory_resource>(u);
        });
    };
    auto contig = [](std::size_t n) {
        return [n](MR& up) {
            return box<vecmem::contiguous_memory_resource>(up, [n](MR& u) {
                return std::make_unique<vecmem::contiguous_memory_resource>(u, n);
            });
        };
    };
    auto stack = [](std::function<BoxP(MR&)> in, std::function<BoxP(MR&)> out) {
        return [in, out](MR& up) {
            auto s = std::make_unique<Stack>();
            s->inner = in(up);
            s->outer = out(s->inner->mr());
            return BoxP(std::move(s));
        };
    };
    auto simple = [](auto tag) {
        using R = typename decltype(tag)::type;
        return [](MR& up) {
            return box<R>(up, [](MR& u) { return std::make_unique<R>(u); });
        };
    };
    auto id = simple(std::common_type<vecmem::identity_memory_resource>{});
    auto dbg = simple(std::common_type<vecmem::debug_memory_resource>{});
    auto ins = simple(std::common_type<vecmem::instrumenting_memory_resource>{});
    auto syn = simple(std::common_type<vecmem::synchronized_memory_resource>{});
    auto cond = [](MR& up) {
        return box<vecmem::conditional_memory_resource>(up, [](MR& u) {
            return std::make_unique<vecmem::conditional_memory_resource>(
                u, [](std::size_t, std::size_t) { return true; });
        });
    };
    auto choice = [](MR& up) {
        return box<vecmem::choice_memory_resource>(up, [](MR& u) {
            return std::make_unique<vecmem::choice_memory_resource>(
                [&u](std::size_t, std::size_t) -> vecmem::memory_resource& {
                    return u;
                });
        });
    };
    auto coal = [](MR& up) {
        return box<vecmem::coalescing_memory_resource>(up, [](MR& u) {
            static vecmem::terminal_memory_resource term;
            return std::make_unique<vecmem::coalescing_memory_resource>(
                std::vector<std::reference_wrapper<vecmem::memory_resource>>{
                    term, u});
        });
    };

    // --- arena: initial sizes around the 256 byte granularity and the 256 KiB
    // superblock size.
    v.push_back({"arena1k", arena(1024), {1, 256, 257, 700, 1024, 1025},
                 HUGE_SIZES, 256, true, true, 0, 5, 6});
    v.push_back({"arena20000", arena(20000), {1, 6000, 20000, 20001}, HUGE_SIZES,
                 5000, true, true, 0, 5, 6});
    v.push_back({"arena256k", arena(256 * KiB),
                 {1, 100 * KiB, 256 * KiB - 256, 256 * KiB - 255, 256 * KiB,
                  256 * KiB + 1, 600 * KiB},
                 HUGE_SIZES, 80 * KiB, true, true, 0, 5, 6});
    v.push_back({"arena1M", arena(1 * MiB),
                 {256, 256 * KiB, 512 * KiB, 1 * MiB, 1 * MiB + 1, 3 * MiB},
                 HUGE_SIZES, 300 * KiB, true, true, 0, 5, 6});
    // --- pool
    v.push_back({"pool_default", pool({}),
                 {1, 17, 1000, 1 * MiB, 1 * MiB + 1, 5 * MiB, 40 * MiB},
                 HUGE_SIZES, 64, true, true, 0, 5, 6});
    v.push_back({"pool_tiny",
                 pool(pool_opts(2, 32, 4, 256, 16, 64, 16, true)),
                 {1, 16, 17, 33, 64, 65, 200}, HUGE_SIZES, 16, true, true, 0, 5,
                 6});
    v.push_back({"pool_nocache",
                 pool(pool_opts(1, 0, 3, 192, 8, 64, 8, false)),
                 {1, 9, 33, 64, 65, 130}, HUGE_SIZES, 8, true, true, 0, 5, 6});
    v.push_back({"pool_cut1",
                 pool(pool_opts(1, 64, 8, 1024, 32, 128, 32, true, 2, 2)),
                 {32, 128, 129, 200, 300, 700}, HUGE_SIZES, 128, true, true, 0,
                 5, 6});
    v.push_back({"pool_one",
                 pool(pool_opts(3, 10, 7, 448, 64, 64, 16, true)),
                 {1, 64, 65, 1000}, HUGE_SIZES, 64, true, true, 0, 5, 6});
    // --- binary pages: page sizes 2^8.., superpage of 2^20 holds 2^12 pages
    v.push_back({"bpage_small", bp, {1, 256, 257, 1024, 4096, 65536},
                 HUGE_SIZES, 16384, true, true, 0, 5, 6});
    v.push_back({"bpage_large", bp,
                 {4096, 4097, 512 * KiB, 1 * MiB, 1 * MiB + 1, 4 * MiB},
                 HUGE_SIZES, 200 * KiB, true, true, 0, 5, 6});
    // --- contiguous
    v.push_back({"contig", contig(4096), {1, 7, 64, 1000, 4095, 4096},
                 HUGE_SIZES, 512, false, true, 4096, 5, 6});
    // --- forwarding resources
    for (auto& w : std::vector<std::pair<const char*, std::function<BoxP(MR&)>>>{
             {"identity", id},
             {"debug", dbg},
             {"instrumenting", ins},
             {"conditional", cond},
             {"choice", choice},
             {"coalescing", coal}})
        v.push_back({w.first, w.second, {1, 100, 5000}, HUGE_SIZES, 64, false,
                     false, 0, 5, 6});
    v.push_back({"synchronized",
                 [](MR& up) {
                     return box<vecmem::synchronized_memory_resource>(
                         up, [](MR& u) {
                             return std::make_unique<
                                 vecmem::synchronized_memory_resource>(u);
                         });
                 },
                 {1, 100, 5000}, HUGE_SIZES, 64, false, false, 0, 5, 6});
    // --- stacks of two
    v.push_back({"pool/arena", stack(arena(64 * KiB), pool({})),
                 {1, 2000, 2 * MiB}, HUGE_SIZES, 64, true, true, 0, 5, 6});
    v.push_back({"pool/bpage", stack(bp, pool(pool_opts(2, 32, 4, 256, 16, 64, 16, false))),
                 {1, 64, 3000, 2 * MiB}, HUGE_SIZES, 64, true, true, 0, 5, 6});
    v.push_back({"bpage/pool", stack(pool({}), bp), {1, 5000, 2 * MiB},
                 HUGE_SIZES, 1024, true, true, 0, 5, 6});
    v.push_back({"arena/pool", stack(pool({}), arena(2048)),
                 {1, 1024, 300 * KiB}, HUGE_SIZES, 256, true, true, 0, 5, 6});
    v.push_back({"contig/pool", stack(pool({}), contig(2048)),
                 {1, 100, 2048}, HUGE_SIZES, 256, false, true, 2048, 5, 6});
    v.push_back({"debug/pool", stack(pool({}), dbg), {1, 100, 2 * MiB},
                 HUGE_SIZES, 64, true, false, 0, 5, 6});
    v.push_back({"instr/bpage", stack(bp, ins), {1, 5000, 2 * MiB}, HUGE_SIZES,
                 64, true, false, 0, 5, 6});
    v.push_back({"sync/arena", stack(arena(4096), syn), {1, 4096, 300 * KiB},
                 HUGE_SIZES, 256, true, false, 0, 5, 6});
    return v;
}
static const std::vector<Cfg>& CFG() {
    static const std::vector<Cfg> v = configs();
    return v;
}

struct Live {
    u64 p;
    std::size_t n, al;
};

// One execution of the system: resource + upstream + handed out blocks.
struct Sys {
    Ctx& c;
    const Cfg& cfg;
    Upstream up;
    BoxP b;
    std::vector<Live> live;
    bool c01, c02, c03, c04;
    bool failed = false;

    Sys(Ctx& ctx, const Cfg& k, Place pl)
        : c(ctx),
          cfg(k),
          up(ctx, pl),
          c01(ctx.prop == "C01"),
          c02(ctx.prop == "C02"),
          c03(ctx.prop == "C03"),
          c04(ctx.prop == "C04") {}

    std::string key(const char* what) { return std::string(cfg.name) + ":" + what; }

    // Invariants that must hold after every single step.
    void invariant() {
        if (c01)
            for (auto& l : live)
                c.require(up.owns(l.p, l.n),
                          "%s: live block %#llx size %zu is not inside memory "
                          "currently obtained from upstream",
                          cfg.name, (unsigned long long)l.p, l.n);
        if (c03)
            c.require(up.errors.empty(), "%s: %s", cfg.name,
                      up.errors.empty() ? "" : up.errors[0].c_str());
    }
    // Returns false if allocation failed with bad_alloc.
    bool alloc(std::size_t n, std::size_t al, bool must_fail = false) {
        std::size_t f0 = up.n_failed;
        void* p = nullptr;
        try {
            p = b->mr().allocate(n, al);
        } catch (const std::bad_alloc&) {
            c.op("allocate(%zu,%zu) -> bad_alloc", n, al);
            if (c04) {
                bool excused = up.n_failed != f0 || must_fail || cfg.own_limit;
                c.require(excused,
                          "%s: allocate(%zu,%zu) failed although no upstream "
                          "allocation failed",
                          cfg.name, n, al);
            }
            invariant();
            return false;
        }
        u64 a = (u64)p;
        c.op("allocate(%zu,%zu) -> %#llx", n, al, (unsigned long long)a);
        if (c04) {
            c.require(n == 0 || a != 0,
                      "%s: allocate(%zu,%zu) returned a null pointer instead of "
                      "throwing std::bad_alloc",
                      cfg.name, n, al);
            c.require(!must_fail,
                      "%s: allocate(%zu,%zu) returned a pointer although the "
                      "upstream cannot provide that much memory",
                      cfg.name, n, al);
        }
        if (n == 0) {
            b->mr().deallocate(p, 0, al);
            return true;
        }
        if (a == 0 || must_fail) c.cut();
        if (c02)
            c.require(a % al == 0, "%s: allocate(%zu,%zu) returned %#llx",
                      cfg.name, n, al, (unsigned long long)a);
        if (c01) {
            c.require(up.owns(a, n),
                      "%s: allocate(%zu,%zu) returned %#llx, which is not inside "
                      "one block obtained from upstream",
                      cfg.name, n, al, (unsigned long long)a);
            for (auto& l : live)
                c.require(a + n <= l.p || l.p + l.n <= a,
                          "%s: new block %#llx size %zu overlaps live block "
                          "%#llx size %zu",
                          cfg.name, (unsigned long long)a, n,
                          (unsigned long long)l.p, l.n);
        }
        live.push_back({a, n, al});
        invariant();
        return true;
    }
    void free_at(std::size_t i) {
        Live l = live[i];
        live.erase(live.begin() + (long)i);
        c.op("deallocate(%#llx,%zu,%zu)", (unsigned long long)l.p, l.n, l.al);
        b->mr().deallocate((void*)l.p, l.n, l.al);
        invariant();
    }
    void free_all(unsigned order) {
        if (order == 0)
            while (!live.empty()) free_at(0);
        else if (order == 1)
            while (!live.empty()) free_at(live.size() - 1);
        else
            for (std::size_t i = 0; i < live.size(); ++i) free_at(i);
    }
    void state() {
        u64 h = mc::mix(std::hash<std::string>()(cfg.name), up.bytes);
        for (auto& l : live) h = mc::mix(mc::mix(h, l.p), l.n * 131 + l.al);
        for (auto& u : up.live) h = mc::mix(mc::mix(h, u.first), u.second.size);
        c.state(h);
    }
    void destroy() {
        c.op("destroy with %zu live", live.size());
        b.reset();
        if (c03) {
            c.require(up.errors.empty(), "%s: %s", cfg.name,
                      up.errors.empty() ? "" : up.errors[0].c_str());
            if (cfg.returns_all_live || live.empty())
                c.require(up.live.empty(),
                          "%s: %zu upstream block(s), %zu bytes, not returned "
                          "when the resource was destroyed",
                          cfg.name, up.live.size(), up.bytes);
        }
    }
};

static const std::vector<std::size_t> ALIGNS = {8, 16, 32, 256, 512, 4096};

// Builds without compiler features look at the resources which use them only.
static bool plain(const Ctx& c) { return c.args.count("plain"); }
static void explore(Ctx& c) {
    const Cfg& cfg = CFG()[c.choose((unsigned)CFG().size())];
    if (plain(c) && !strstr(cfg.name, "pool") && !strstr(cfg.name, "binary")) c.cut();
    bool aligned = c.prop == "C02";
    bool faulty = c.prop == "C04";
    Place pl;
    const bool is_arena = strstr(cfg.name, "arena") != nullptr;
    if (c.thorough)
        pl = (Place)c.choose(4);
    else if (aligned)
        pl = Place::GAP;
    else if (is_arena)
        pl = c.choose(2) ? Place::DESC : Place::ASC;
    else
        pl = faulty ? Place::ASC : Place::REUSE;
    Sys s(c, cfg, pl);
    if (faulty) s.up.faults = c.thorough ? 2 : 1;
    c.note("%s, upstream placement %s", cfg.name, place_name(pl));
    try {
        s.b = cfg.make(s.up);
        s.b->owning = cfg.returns_all_live;
    } catch (const std::bad_alloc&) {
        c.op("construction -> bad_alloc");
        if (s.c04)
            c.require(s.up.n_failed, "%s: construction failed", cfg.name);
        if (faulty) c.require(s.up.live.empty(),
                              "%s: failed construction keeps upstream memory",
                              cfg.name);
        return;
    }
    s.invariant();
    const unsigned depth = c.less((c.thorough ? cfg.dt : cfg.dq) -
                                  ((aligned || faulty || plain(c)) ? 1 : 0) -
                                  (cfg.caching || cfg.own_limit ? 0 : 1));
    std::vector<std::size_t> sizes = cfg.sizes;
    if (aligned && !c.thorough && sizes.size() > 3)
        sizes = {cfg.sizes.front(), cfg.sizes[cfg.sizes.size() / 2],
                 cfg.sizes.back()};
    bool moved = false;
    for (unsigned d = 0; d < depth; ++d) {
        s.state();
        // Menu: 0 stop; allocations; frees; macros.
        unsigned nal = aligned ? (unsigned)ALIGNS.size() : 1;
        unsigned na = (unsigned)sizes.size() * nal;
        unsigned nb = !faulty      ? 0
                      : c.thorough ? (unsigned)cfg.big.size()
                                   : 1;
        unsigned nf = (unsigned)std::min<std::size_t>(s.live.size(), 4);
        unsigned nburst = (!aligned && cfg.burst) ? 1 : 0;
        unsigned nfa = s.live.size() > 1 ? 3 : 0;
        unsigned nmv = (!moved && s.b->movable() && (s.c03 || c.thorough) && !faulty &&
                        !aligned)
                           ? 2
                           : 0;
        unsigned k = c.choose(1 + na + nb + nf + nburst + nfa + nmv);
        if (k == 0) break;
        k -= 1;
        if (k < na) {
            // When alignments are explored, use the two extreme sizes more
            // cheaply: all sizes times all alignments.
            std::size_t al = aligned ? ALIGNS[k % nal] : 16;
            s.alloc(sizes[k / nal], al);
            continue;
        }
        k -= na;
        if (k < nb) {
            // cycle through the unsatisfiable sizes
            s.alloc(cfg.big[(k + d) % cfg.big.size()], 16, true);
            continue;
        }
        k -= nb;
        if (k < nf) {
            // oldest two, newest two
            std::size_t i = k < 2 ? k : s.live.size() - (nf - k);
            s.free_at(i);
            continue;
        }
        k -= nf;
        if (k < nburst) {
            c.note("burst:");
            for (int i = 0; i < 6; ++i) s.alloc(cfg.burst, 16);
            continue;
        }
        k -= nburst;
        if (k < nfa) {
            c.note("free all, order %u:", k);
            s.free_all(k);
            continue;
        }
        k -= nfa;
        moved = true;
        if (k == 0) {
            c.op("move construct");
            s.b->move_construct();
        } else {
            c.op("move assign over another instance");
            s.b->move_assign(s.up);
        }
        s.invariant();
    }
    s.state();
    if (faulty) {
        // After everything that happened (including failures), the resource
        // must still work: allocate again with a healthy upstream.
        s.up.faults = 0;
        if (!cfg.own_limit) {
            for (std::size_t n : {sizes.front(), sizes.back()}) {
                std::size_t before = s.live.size();
                bool ok = s.alloc(n, 16);
                c.require(ok && s.live.size() == before + 1,
                          "%s: unusable after an upstream failure", cfg.name);
            }
        }
        // what is handed out must be intact
        for (std::size_t i = 0; i < s.live.size(); ++i) {
            c.require(s.up.owns(s.live[i].p, s.live[i].n),
                      "%s: after a failure, a live block is outside of upstream "
                      "memory", cfg.name);
            for (std::size_t j = 0; j < i; ++j)
                c.require(s.live[i].p + s.live[i].n <= s.live[j].p ||
                              s.live[j].p + s.live[j].n <= s.live[i].p,
                          "%s: after a failure, live blocks overlap", cfg.name);
        }
        s.free_all(0);
        s.b.reset();
        c.require(s.up.errors.empty(), "%s: %s", cfg.name,
                  s.up.errors.empty() ? "" : s.up.errors[0].c_str());
        c.require(s.up.live.empty(),
                  "%s: after a failure, %zu upstream blocks are leaked", cfg.name,
                  s.up.live.size());
        return;
    }
    // C03 also: everything returned to the resource before destruction.
    if (s.c03 && !s.live.empty() && c.choose(2)) s.free_all(2), s.free_all(0);
    s.destroy();
}

// ------------------------------------------------------- long regular programs
// Many blocks of two sizes, partly released in regular orders, and allocated
// again: reaches sizes of the internal lists which short histories do not.
static void long_step(Sys& s, unsigned pattern, std::size_t a, std::size_t b,
                      unsigned n, bool aligned, unsigned shift) {
    for (unsigned i = 0; i < n; ++i)
        s.alloc(i % 3 == shift ? b : a,
                aligned ? ALIGNS[(i + shift) % ALIGNS.size()] : 16);
    switch (pattern) {
        case 0: s.free_all(2); break;
        case 1: s.free_all(0); break;
        case 2: s.free_all(1); break;
        default:
            for (unsigned k = 0; k < n / 2 && !s.live.empty(); ++k)
                s.free_at((k * 7) % s.live.size());
    }
    s.state();
}
static void marathon(Ctx& c) {
    if (plain(c) && !c.thorough) c.cut();
    const Cfg& cfg = CFG()[c.choose((unsigned)CFG().size())];
    const bool aligned = c.prop == "C02", faulty = c.prop == "C04";
    const Place pl = c.thorough ? (Place)c.choose(4)
                     : aligned  ? Place::GAP
                     : faulty   ? Place::ASC
                                : (c.choose(2) ? Place::DESC : Place::REUSE);
    std::vector<std::size_t> sizes = cfg.sizes;
    sizes.push_back(cfg.sizes.front() + 23);
    sizes.push_back(cfg.sizes[1] * 3 - 5);
    const std::size_t a = sizes[c.choose((unsigned)sizes.size())];
    const std::size_t b = sizes[c.choose((unsigned)sizes.size())];
    const unsigned pattern = c.choose(4);
    const unsigned n = c.thorough ? (c.choose(2) ? 150 : 40) : (faulty ? 20 : 40);
    Sys s(c, cfg, pl);
    if (faulty) s.up.faults = 1;
    c.note("%s, upstream placement %s", cfg.name, place_name(pl));
    try {
        s.b = cfg.make(s.up);
        s.b->owning = cfg.returns_all_live;
    } catch (const std::bad_alloc&) {
        return;
    }
    long_step(s, pattern, a, b, n, aligned, 0);
    if (s.c03 && s.b->movable()) s.b->move_construct();
    long_step(s, (pattern + 1) % 4, b, a, n, aligned, 1);
    if (s.c03 && s.b->movable()) s.b->move_assign(s.up);
    long_step(s, pattern, a, a, n, aligned, 2);
    if (faulty) {
        s.up.faults = 0;
        for (std::size_t i = 0; i < s.live.size(); ++i) {
            c.require(s.up.owns(s.live[i].p, s.live[i].n),
                      "%s: after a failure, a live block is outside of upstream "
                      "memory", cfg.name);
            for (std::size_t j = 0; j < i; ++j)
                c.require(s.live[i].p + s.live[i].n <= s.live[j].p ||
                              s.live[j].p + s.live[j].n <= s.live[i].p,
                          "%s: after a failure, live blocks overlap", cfg.name);
        }
        if (!cfg.own_limit) c.require(s.alloc(b, 16), "%s: unusable", cfg.name);
    }
    s.destroy();
    if (faulty && cfg.returns_all_live) {
        c.require(s.up.errors.empty() && s.up.live.empty(),
                  "%s: after a failure, upstream memory is not returned correctly",
                  cfg.name);
    }
}
static void reuse_long(Ctx& c) {
    std::vector<const Cfg*> cs;
    for (auto& k : CFG())
        if (k.caching && strncmp(k.name, "pool_nocache", 12) &&
            strcmp(k.name, "pool/bpage"))
            cs.push_back(&k);
    const Cfg& cfg = *cs[c.choose((unsigned)cs.size())];
    const Place pl = (Place)c.choose(3);
    const std::size_t a = cfg.sizes[c.choose((unsigned)cfg.sizes.size())];
    const std::size_t b = cfg.sizes[c.choose((unsigned)cfg.sizes.size())];
    const unsigned p1 = c.choose(4), p2 = c.choose(3);
    const unsigned n = c.thorough ? 100 : 24;
    Sys s(c, cfg, pl);
    c.note("%s, upstream placement %s", cfg.name, place_name(pl));
    s.b = cfg.make(s.up);
    for (int r = 1;; ++r) {
        const std::size_t before = s.up.n_alloc;
        long_step(s, p1, a, b, n, false, 0);
        long_step(s, p2, b, a, n, false, 1);
        s.free_all(p2 == 1);
        if (r > 1 && s.up.n_alloc == before) {
            c.count(mc::fmt("steady_after_%d_rounds", r - 1).c_str());
            c.require(s.up.n_dealloc == 0,
                      "%s: memory was returned to upstream although the "
                      "resource keeps it for reuse", cfg.name);
            return;
        }
        c.require(r < 16,
                  "%s: repeating an allocate/release cycle %d times takes memory "
                  "from upstream every time (%zu bytes held now)",
                  cfg.name, r, s.up.bytes);
    }
}

// ---------------------------------------------------------------- C05: reuse
static void reuse(Ctx& c) {
    std::vector<const Cfg*> cs;
    for (auto& k : CFG())
        if (k.caching && strncmp(k.name, "pool_nocache", 12) &&
            strcmp(k.name, "pool/bpage"))
            cs.push_back(&k);
    const Cfg& cfg = *cs[c.choose((unsigned)cs.size())];
    Place pl = (Place)c.choose(3);
    Sys s(c, cfg, pl);
    c.note("%s, upstream placement %s", cfg.name, place_name(pl));
    s.b = cfg.make(s.up);
    // A program: a sequence of allocations (size index) and frees (position).
    std::vector<int> prog;
    unsigned depth = c.less(c.thorough ? 6 : 5);
    std::size_t nl = 0;
    for (unsigned d = 0; d < depth; ++d) {
        unsigned na = (unsigned)cfg.sizes.size();
        unsigned nf = (unsigned)std::min<std::size_t>(nl, 3);
        unsigned k = c.choose(1 + na + 1 + nf);
        if (k == 0) break;
        if (k <= na + 1) {
            prog.push_back((int)k);
            nl += k == na + 1 ? 4 : 1;
        } else {
            prog.push_back(-(int)(k - na - 1));
            --nl;
        }
    }
    if (prog.empty()) c.cut();
    auto round = [&] {
        for (int o : prog) {
            if (o < 0) {
                std::size_t i = o == -1 ? 0
                                : o == -2 ? s.live.size() - 1
                                          : s.live.size() / 2;
                s.free_at(i);
            } else if ((std::size_t)o <= cfg.sizes.size()) {
                if (!s.alloc(cfg.sizes[(std::size_t)o - 1], 16)) c.cut();
            } else {
                for (int j = 0; j < 4; ++j)
                    if (!s.alloc(cfg.burst, 16)) c.cut();
            }
        }
        s.free_all(c.thorough ? 1 : 0);
        s.state();
    };
    // Once a round takes nothing from upstream the state repeats for ever. An
    // address ordered first-fit policy may need a few rounds to get there.
    const int R = 16;
    round();
    for (int r = 2;; ++r) {
        std::size_t n = s.up.n_alloc;
        round();
        if (s.up.n_alloc == n) {
            c.count(mc::fmt("steady_after_%d_rounds", r - 1).c_str());
            c.require(s.up.n_dealloc == 0,
                      "%s: memory was returned to upstream although the "
                      "resource keeps it for reuse", cfg.name);
            return;
        }
        c.require(r < R,
                  "%s: repeating an allocate/release cycle %d times takes memory "
                  "from upstream every time (%zu bytes held now)",
                  cfg.name, R, s.up.bytes);
    }
}

// ------------------------------------------------- C07: configured limits
using Opts = vecmem::pool_memory_resource::options;
static bool p2(std::size_t x) { return x && !(x & (x - 1)); }
static bool opts_ok(const Opts& o) {
    return p2(o.smallest_block_size) && p2(o.largest_block_size) &&
           p2(o.alignment) && o.max_bytes_per_chunk && o.max_blocks_per_chunk &&
           o.min_blocks_per_chunk <= o.max_blocks_per_chunk &&
           o.min_bytes_per_chunk <= o.max_bytes_per_chunk &&
           o.smallest_block_size <= o.largest_block_size &&
           o.min_blocks_per_chunk * o.smallest_block_size <=
               o.max_bytes_per_chunk &&
           o.min_blocks_per_chunk * o.largest_block_size <=
               o.max_bytes_per_chunk &&
           o.max_blocks_per_chunk * o.largest_block_size >=
               o.min_bytes_per_chunk &&
           o.max_blocks_per_chunk * o.smallest_block_size >=
               o.min_bytes_per_chunk &&
           o.alignment <= o.smallest_block_size;
}
// Long runs of allocations, so that the chunks grow up to the limits.
static void pool_growth(Ctx& c) {
    Opts o;
    auto opt = [&](std::vector<std::size_t> v) { return v[c.choose((unsigned)v.size())]; };
    o.smallest_block_size = opt({8, 16});
    o.largest_block_size = opt({8, 16, 64});
    o.alignment = 8;
    o.min_blocks_per_chunk = opt({0, 1, 2, 3, 6});
    o.min_bytes_per_chunk = opt({0, 40, 64});
    o.max_blocks_per_chunk = opt({1, 2, 3, 4, 5, 6, 7, 11});
    o.max_bytes_per_chunk = opt({32, 40, 64, 100, 128, 200, 256, 448, 4096});
    if (!opts_ok(o)) c.cut();
    if (c.tracing)
        c.note("pool{smallest=%zu largest=%zu minblk=%zu minB=%zu maxblk=%zu maxB=%zu}",
               o.smallest_block_size, o.largest_block_size, o.min_blocks_per_chunk,
               o.min_bytes_per_chunk, o.max_blocks_per_chunk, o.max_bytes_per_chunk);
    Upstream up(c, Place::REUSE);
    vecmem::pool_memory_resource r(up, o);
    std::size_t bs = o.smallest_block_size;
    while (bs < o.largest_block_size && c.choose(2)) bs *= 2;
    const std::size_t other = c.choose(2) ? o.largest_block_size : bs;
    std::set<u64> known;
    std::map<u64, std::size_t> mine;
    for (unsigned i = 0; i < (c.thorough ? 120u : 50u); ++i) {
        const std::size_t n = i % 3 == 2 ? other : bs;
        u64 p = (u64)r.allocate(n, 8);
        for (auto& [q, m] : mine)
            c.require(p + n <= q || q + m <= p, "blocks overlap");
        mine[p] = n;
        c.require(up.owns(p, n), "outside of upstream memory");
        for (auto& [a, b] : up.live) {
            if (!known.insert(a).second) continue;
            const std::size_t nb = b.size / n;
            c.op("chunk of %zu blocks of %zu bytes", nb, n);
            c.require(b.size % n == 0 && nb >= 1, "chunk of %zu bytes for blocks of %zu",
                      b.size, n);
            c.require(nb == 1 || (nb <= o.max_blocks_per_chunk &&
                                  b.size <= o.max_bytes_per_chunk),
                      "chunk of %zu blocks of %zu bytes is above the limits", nb, n);
            c.require(nb >= o.min_blocks_per_chunk &&
                          (b.size >= o.min_bytes_per_chunk ||
                           b.size + n > o.max_bytes_per_chunk),
                      "chunk of %zu blocks of %zu bytes is below the limits", nb, n);
        }
    }
    c.state(mc::mix(known.size(), up.n_alloc));
}
struct PoolObj {
    u64 p;
    std::size_t n, al;
};
static void pool_limits(Ctx& c) {
    Opts o;
    // Number of options that differ from the simplest configuration: long
    // histories are explored for few of those, all combinations for validity.
    unsigned dev = 0;
    auto opt = [&](std::vector<std::size_t> v) {
        unsigned k = c.choose((unsigned)v.size());
        dev += k != 0;
        return v[k];
    };
    o.smallest_block_size = opt({16, 8, 12, 0});
    o.largest_block_size = opt({64, 16, 24, 0});
    o.alignment = opt({16, 8, 32, 12, 0});
    o.min_blocks_per_chunk = opt({2, 1, 0, 5});
    o.min_bytes_per_chunk = opt({32, 0, 128});
    o.max_blocks_per_chunk = opt({8, 4, 1, 0});
    o.max_bytes_per_chunk = opt({256, 4096, 32, 0});
    bool ok = opts_ok(o);
    // The caching parameters only matter for pools that work.
    o.cache_oversized = ok ? c.choose(2) == 0 : true;
    if (o.cache_oversized && ok) {
        unsigned k = c.choose(3);
        o.cached_size_cutoff_factor = k == 0 ? 16 : k == 1 ? 2 : 4;
        o.cached_alignment_cutoff_factor = k == 0 ? 16 : k == 1 ? 4 : 2;
    }
    Upstream up(c, Place::REUSE);
    std::unique_ptr<vecmem::pool_memory_resource> r;
    auto desc = [&] {
        return mc::fmt("pool{smallest=%zu largest=%zu align=%zu minblk=%zu "
                       "minB=%zu maxblk=%zu maxB=%zu cache=%d cut=%zu,%zu}",
                       o.smallest_block_size, o.largest_block_size, o.alignment,
                       o.min_blocks_per_chunk, o.min_bytes_per_chunk,
                       o.max_blocks_per_chunk, o.max_bytes_per_chunk,
                       (int)o.cache_oversized, o.cached_size_cutoff_factor,
                       o.cached_alignment_cutoff_factor);
    };
    if (c.tracing) c.note("%s", desc().c_str());
    try {
        r = std::make_unique<vecmem::pool_memory_resource>(up, o);
    } catch (const std::invalid_argument&) {
        c.op("construction rejected");
        c.require(!ok, "%s: valid options were rejected", desc().c_str());
        return;
    }
    c.op("constructed");
    c.require(ok, "%s: inconsistent options were accepted", desc().c_str());
    const std::size_t L = o.largest_block_size;
    const std::vector<std::size_t> sizes = {1, o.smallest_block_size + 1, L,
                                            L + 1, 2 * L + 2, 9 * L};
    const std::vector<std::size_t> als = {o.alignment, 2 * o.alignment,
                                          8 * o.alignment};
    std::vector<PoolObj> live;
    // reference: what the pool still holds for reuse / has handed out
    std::map<u64, std::size_t> blocks_of;  // chunk address -> block size
    unsigned depth = c.less((c.thorough ? 3 : 2) + (dev <= 2 ? 1 : 0));
    for (unsigned d = 0; d < depth; ++d) {
        unsigned na = 3 + 3 * 3;
        unsigned k = c.choose(1 + na + (unsigned)std::min<std::size_t>(2, live.size()) + 1);
        if (k == 0) break;
        k -= 1;
        auto do_alloc = [&](std::size_t n, std::size_t al) {
            auto before = up.live;
            std::size_t n0 = up.n_alloc, d0 = up.n_dealloc;
            u64 p = (u64)r->allocate(n, al);
            c.op("allocate(%zu,%zu) -> %#llx", n, al, (unsigned long long)p);
            c.require(up.n_alloc - n0 <= 1 && up.n_dealloc == d0,
                      "%s: more than one upstream request for one allocation",
                      desc().c_str());
            std::size_t eff = std::max(n, o.smallest_block_size);
            bool oversized = eff > L || al > o.alignment;
            c.require(up.owns(p, n), "%s: outside of upstream memory",
                      desc().c_str());
            auto it = std::prev(up.live.upper_bound(p));
            if (up.n_alloc != n0) {
                c.require(!before.count(it->first),
                          "%s: new upstream block was not used", desc().c_str());
                if (!oversized) {
                    // A new chunk.
                    std::size_t bs = o.smallest_block_size;
                    while (bs < eff) bs *= 2;
                    std::size_t nb = it->second.size / bs;
                    c.require(it->second.size % bs == 0 && nb >= 1,
                              "%s: chunk of %zu bytes for blocks of %zu",
                              desc().c_str(), it->second.size, bs);
                    c.require(nb == 1 || (nb <= o.max_blocks_per_chunk &&
                                          it->second.size <=
                                              o.max_bytes_per_chunk),
                              "%s: chunk of %zu blocks of %zu bytes is above the "
                              "limits",
                              desc().c_str(), nb, bs);
                    c.require(nb >= o.min_blocks_per_chunk &&
                                  it->second.size >= o.min_bytes_per_chunk,
                              "%s: chunk of %zu blocks of %zu bytes is below the "
                              "limits",
                              desc().c_str(), nb, bs);
                    c.require(it->second.align == o.alignment,
                              "%s: chunk with alignment %zu", desc().c_str(),
                              it->second.align);
                    blocks_of[it->first] = bs;
                } else {
                    c.require(p == it->first && it->second.size >= eff &&
                                  it->second.align >= al,
                              "%s: oversized request of %zu/%zu was served by a "
                              "block of %zu/%zu",
                              desc().c_str(), n, al, it->second.size,
                              it->second.align);
                }
            }
            if (oversized && up.n_alloc == n0) {
                // From the cache.
                c.require(o.cache_oversized, "%s: cached although disabled",
                          desc().c_str());
                c.require(p == it->first && it->second.size >= eff &&
                              p % al == 0,
                          "%s: unsuitable cached block", desc().c_str());
                c.require(it->second.size / eff <
                                  o.cached_size_cutoff_factor &&
                              it->second.align / al <
                                  o.cached_alignment_cutoff_factor,
                          "%s: request of %zu/%zu served by a cached block of "
                          "%zu/%zu, beyond the cutoff factors",
                          desc().c_str(), n, al, it->second.size,
                          it->second.align);
                c.count("served_from_cache");
            }
            if (!oversized) {
                c.require(blocks_of.count(it->first) &&
                              (p - it->first) % blocks_of[it->first] == 0 &&
                              blocks_of[it->first] >= n,
                          "%s: not a block of a chunk", desc().c_str());
            }
            for (auto& l : live)
                c.require(p + n <= l.p || l.p + l.n <= p, "%s: overlap",
                          desc().c_str());
            live.push_back({p, n, al});
        };
        auto do_free = [&](std::size_t i) {
            PoolObj l = live[i];
            live.erase(live.begin() + (long)i);
            bool oversized = std::max(l.n, o.smallest_block_size) > L ||
                             l.al > o.alignment;
            std::size_t d0 = up.n_dealloc;
            c.op("deallocate(%#llx,%zu,%zu)", (unsigned long long)l.p, l.n, l.al);
            r->deallocate((void*)l.p, l.n, l.al);
            c.require(up.n_dealloc - d0 ==
                          (oversized && !o.cache_oversized ? 1u : 0u),
                      "%s: releasing %zu/%zu made %zu upstream releases",
                      desc().c_str(), l.n, l.al, up.n_dealloc - d0);
        };
        if (k < 3) {
            do_alloc(sizes[k], o.alignment);
        } else if (k < na) {
            k -= 3;
            do_alloc(sizes[3 + k % 3], als[k / 3]);
        } else if (k < na + std::min<std::size_t>(2, live.size())) {
            do_free(k == na ? 0 : live.size() - 1);
        } else {
            // enough of the smallest to go through several chunks
            c.note("14 allocations of 1 byte");
            for (int i = 0; i < 14; ++i) do_alloc(1, o.alignment);
            while (live.size() > 3) do_free(0);
        }
        u64 h = 5;
        for (auto& l : up.live) h = mc::mix(mc::mix(h, l.first), l.second.size);
        c.state(mc::mix(h, live.size()));
    }
    r.reset();
    c.require(up.errors.empty() && up.live.empty(), "%s: %s", desc().c_str(),
              up.errors.empty() ? "upstream memory not returned"
                                : up.errors[0].c_str());
}
static void arena_limits(Ctx& c) {
    std::size_t init = c.pick(std::vector<std::size_t>{1024, 256 * KiB, 300 * KiB});
    std::size_t max = c.pick(std::vector<std::size_t>{
        256 * KiB, 300 * KiB, 512 * KiB, 800 * KiB, 3 * MiB});
    Upstream up(c, c.choose(2) ? Place::DESC : Place::ASC);
    c.note("arena initial %zu maximum %zu", init, max);
    std::unique_ptr<vecmem::arena_memory_resource> r;
    try {
        r = std::make_unique<vecmem::arena_memory_resource>(up, init, max);
    } catch (const std::bad_alloc&) {
        c.require(init > max, "construction failed");
        return;
    }
    c.require(up.peak <= max, "initial size beyond the maximum");
    const std::vector<std::size_t> sizes = {256, 1025, 100 * KiB, 256 * KiB,
                                            300 * KiB, 2 * MiB};
    std::vector<Live> live;
    unsigned depth = c.less(c.thorough ? 6 : 4);
    for (unsigned d = 0; d < depth; ++d) {
        unsigned na = (unsigned)sizes.size();
        unsigned nf = (unsigned)std::min<std::size_t>(2, live.size());
        unsigned k = c.choose(1 + na + nf);
        if (k == 0) break;
        k -= 1;
        if (k < na) {
            std::size_t n = sizes[k];
            try {
                u64 p = (u64)r->allocate(n, 16);
                c.op("allocate(%zu) -> %#llx", n, (unsigned long long)p);
                c.require(p != 0 && up.owns(p, n), "outside of upstream memory");
                live.push_back({p, n, 16});
            } catch (const std::bad_alloc&) {
                c.op("allocate(%zu) -> bad_alloc", n);
                // A new superblock takes the request, the configured size or
                // 256 KiB, whichever is the largest.
                std::size_t need = std::max({n + 255, init, 256 * KiB});
                c.require(up.bytes + need > max,
                          "allocate(%zu) failed with %zu of at most %zu bytes "
                          "taken from upstream",
                          n, up.bytes, max);
            }
        } else {
            std::size_t i = k == na ? 0 : live.size() - 1;
            Live l = live[i];
            live.erase(live.begin() + (long)i);
            c.op("deallocate(%zu)", l.n);
            r->deallocate((void*)l.p, l.n, l.al);
        }
        c.require(up.peak <= max,
                  "arena holds %zu bytes from upstream, the maximum is %zu",
                  up.peak, max);
        c.state(mc::mix(mc::mix(mc::mix(init, max), up.bytes), live.size()));
    }
}

// ---------------------------------------------------- C06: contiguous layout
static void contiguous(Ctx& c) {
    static const std::vector<std::size_t> totals = {1, 16, 100, 256, 4096};
    static const std::vector<std::size_t> sizes = {1, 2, 3, 8, 16, 31, 64, 100,
                                                   256};
    static const std::vector<std::size_t> aligns = {1, 2, 8, 16, 64, 128};
    std::size_t total = c.pick(totals);
    Place pl = (Place)c.choose(3);
    Upstream up(c, pl);
    c.note("contiguous resource of %zu bytes", total);
    auto r = std::make_unique<vecmem::contiguous_memory_resource>(up, total);
    c.require(up.live.size() == 1 && up.live.begin()->second.size == total,
              "construction must take exactly one block of the configured size");
    u64 base = up.live.begin()->first, next = base, end = base + total;
    unsigned depth = c.less(c.thorough ? 4 : 3);
    std::vector<Live> live;
    for (unsigned d = 0; d < depth; ++d) {
        unsigned na = (unsigned)(sizes.size() * aligns.size());
        unsigned k = c.choose(na + 2 + (live.empty() ? 0 : 1));
        if (k == 0) break;
        if (k == na + 1) {
            // zero size: no memory consumed
            c.op("allocate(0)");
            (void)r->allocate(0, 16);
            continue;
        }
        if (k == na + 2) {
            Live l = live.back();
            live.pop_back();
            c.op("deallocate(last)");
            r->deallocate((void*)l.p, l.n, l.al);
            continue;
        }
        std::size_t n = sizes[(k - 1) / aligns.size()];
        std::size_t al = aligns[(k - 1) % aligns.size()];
        u64 want = (next + al - 1) & ~(u64)(al - 1);
        bool fits = want <= end && n <= end - want;
        try {
            u64 p = (u64)r->allocate(n, al);
            c.op("allocate(%zu,%zu) -> +%lld", n, al, (long long)(p - base));
            c.require(fits, "allocate(%zu,%zu) succeeded beyond the end", n, al);
            c.require(p == want,
                      "allocate(%zu,%zu) returned offset %lld, but the next "
                      "aligned address after the previous block is offset %lld",
                      n, al, (long long)(p - base), (long long)(want - base));
            live.push_back({p, n, al});
            next = p + n;
        } catch (const std::bad_alloc&) {
            c.op("allocate(%zu,%zu) -> bad_alloc", n, al);
            c.require(!fits, "allocate(%zu,%zu) refused although it fits", n, al);
        }
        c.state(mc::mix(mc::mix(total, next - base), live.size()));
        c.require(up.n_alloc == 1 && up.live.size() == 1,
                  "memory was taken from / returned to upstream during use");
    }
    r.reset();
    c.require(up.errors.empty() && up.live.empty(), "block not returned");
}

// ------------------------------------- the real host resource (C01/C02/C04)
static void host(Ctx& c) {
    static const std::vector<std::size_t> sizes = {1, 15, 16, 17, 100, 4096};
    static const std::vector<std::size_t> aligns = {1, 2, 4, 8, 16, 32, 64, 4096};
    struct B {
        unsigned char* p;
        std::size_t n, al;
        unsigned char tag;
    };
    vecmem::host_memory_resource r;
    std::vector<B> live;
    struct Guard {
        std::vector<B>& l;
        vecmem::host_memory_resource& r;
        ~Guard() {
            for (auto& b : l) r.deallocate(b.p, b.n, b.al);
        }
    } g{live, r};
    unsigned depth = c.less(3);
    unsigned char tag = 1;
    bool stepped = false;
    for (unsigned d = 0; d < depth; ++d) {
        unsigned na = (unsigned)(sizes.size() * aligns.size());
        unsigned k = c.choose(1 + na + (unsigned)live.size() + 4);
        if (k == 0) break;
        k -= 1;
        stepped = true;
        if (k < na) {
            std::size_t n = sizes[k / aligns.size()], al = aligns[k % aligns.size()];
            auto* p = (unsigned char*)r.allocate(n, al);
            c.op("host allocate(%zu,%zu)", n, al);
            c.require(p != nullptr, "host: null");
            if (c.prop == "C02")
                c.require((u64)p % al == 0, "host: allocate(%zu,%zu) -> %p", n,
                          al, (void*)p);
            memset(p, tag, n);
            live.push_back({p, n, al, tag++});
        } else if (k < na + live.size()) {
            B b = live[k - na];
            live.erase(live.begin() + (long)(k - na));
            c.op("host deallocate(%zu)", b.n);
            r.deallocate(b.p, b.n, b.al);
        } else {
            std::size_t n = HUGE_SIZES[k - na - live.size()];
            c.op("host allocate(%zu)", n);
            void* p = nullptr;
            try {
                p = r.allocate(n, 16);
            } catch (const std::bad_alloc&) {
                continue;
            }
            r.deallocate(p, n, 16);
            if (c.prop == "C04")
                c.fail("host: allocate(%zu) returned %p instead of throwing "
                       "std::bad_alloc", n, p);
        }
        u64 h = 77;
        for (auto& b : live) {
            h = mc::mix(h, b.n * 4099 + b.al);
            for (std::size_t i = 0; i < b.n; ++i)
                c.require(b.p[i] == b.tag,
                          "host: contents of a live block changed");
        }
        c.state(h);
    }
    (void)stepped;
}

int main(int argc, char** argv) {
    return mc::run_main(argc, argv,
                        {{"histories", explore, 4, "C01 C02 C03 C04"},
                         {"marathon", marathon, 4, "C01 C02 C03 C04"},
                         {"host", host, 2, "C01 C02 C04"},
                         {"reuse", reuse, 4, "C05"},
                         {"reuse_long", reuse_long, 4, "C05"},
                         {"arena_limits", arena_limits, 4, "C07"},
                         {"pool_limits", pool_limits, 9, "C07"},
                         {"pool_growth", pool_growth, 3, "C07"},
                         {"contiguous", contiguous, 3, "C06"}});
}
