// Exhaustive histories on the forwarding resources.
//   C08 routing   C09 debug resource   C10 instrumentation   C12 equality
#include <algorithm>
#include <memory>
#include <memory_resource>
#include <new>
#include <optional>
#include <stdexcept>
#include <vecmem/memory/arena_memory_resource.hpp>
#include <vecmem/memory/binary_page_memory_resource.hpp>
#include <vecmem/memory/choice_memory_resource.hpp>
#include <vecmem/memory/coalescing_memory_resource.hpp>
#include <vecmem/memory/conditional_memory_resource.hpp>
#include <vecmem/memory/contiguous_memory_resource.hpp>
#include <vecmem/memory/debug_memory_resource.hpp>
#include <vecmem/memory/host_memory_resource.hpp>
#include <vecmem/memory/identity_memory_resource.hpp>
#include <vecmem/memory/instrumenting_memory_resource.hpp>
#include <vecmem/memory/pool_memory_resource.hpp>
#include <vecmem/memory/synchronized_memory_resource.hpp>
#include <vecmem/memory/terminal_memory_resource.hpp>
#include <vecmem/utils/memory_monitor.hpp>

#include "mc.hpp"

using mc::Ctx;
using MR = std::pmr::memory_resource;
using u64 = std::uint64_t;

// Addresses shared by all upstreams of an execution: what one upstream released
// may be handed out by another one next (as with two malloc based resources).
struct Pool {
    u64 next = 0x300000000000ull;
    std::vector<std::pair<u64, std::size_t>> freed;
};
struct my_bad_alloc : std::bad_alloc {};

struct Call {
    int who;
    bool alloc;
    u64 p;
    std::size_t n, al;
    bool ok;
};

struct Rec : MR {
    Ctx& c;
    Pool& pool;
    int id;
    std::vector<Call>& log;
    std::map<u64, std::pair<std::size_t, std::size_t>> live;
    int* faults;
    unsigned bad = 0;  // releases of what is not outstanding here
    Rec(Ctx& ctx, Pool& pl, int i, std::vector<Call>& l, int* f)
        : c(ctx), pool(pl), id(i), log(l), faults(f) {}
    void* do_allocate(std::size_t n, std::size_t al) override {
        if (*faults > 0 && c.choose(2)) {
            --*faults;
            log.push_back({id, true, 0, n, al, false});
            c.note("  upstream %d fails", id);
            if (n & 1) throw my_bad_alloc();
            throw std::bad_alloc();
        }
        u64 a = 0;
        for (std::size_t i = pool.freed.size(); i-- > 0;)
            if (pool.freed[i].second >= n && pool.freed[i].first % al == 0) {
                a = pool.freed[i].first;
                pool.freed.erase(pool.freed.begin() + (long)i);
                break;
            }
        if (!a) {
            a = (pool.next + al - 1) / al * al;
            pool.next = a + n + 64;
        }
        live[a] = {n, al};
        log.push_back({id, true, a, n, al, true});
        return (void*)a;
    }
    void do_deallocate(void* p, std::size_t n, std::size_t al) override {
        log.push_back({id, false, (u64)p, n, al, true});
        auto it = live.find((u64)p);
        if (it != live.end()) {
            pool.freed.push_back({it->first, it->second.first});
            live.erase(it);
        } else {
            ++bad;
        }
    }
    bool do_is_equal(const MR& o) const noexcept override { return this == &o; }
};

// Formally not allowed through std::pmr (the parameter is declared nonnull), but
// handled by every resource.
__attribute__((noinline, no_sanitize("undefined"))) static void release_null(MR& r) {
    void* volatile p = nullptr;
    r.deallocate(p, 8, 8);
}

struct LiveB {
    u64 p;
    std::size_t n, al;
    int who;
};

static constexpr std::size_t BIG = 5'000'000'000;
static const std::vector<std::size_t> SHORT_SZ = {8, 101, BIG};
static const std::vector<std::size_t> SHORT_AL = {8, 64};
static const std::vector<std::size_t> LONG_SZ = {8, 101, BIG, 1, 4096, 64, 77777};
static const std::vector<std::size_t> LONG_AL = {8, 64, 1, 4096};
static const std::vector<std::size_t>& sizes(Ctx& c) {
    return c.want_long ? LONG_SZ : SHORT_SZ;
}
static const std::vector<std::size_t>& aligns(Ctx& c) {
    return c.want_long ? LONG_AL : SHORT_AL;
}

template <class R, class F>
static void maybe_move(Ctx& c, std::unique_ptr<R>& r, unsigned how, F fresh) {
    if constexpr (std::is_move_constructible_v<R> &&
                  std::is_move_assignable_v<R>) {
        c.op("move (%s)", how ? "assign" : "construct");
        if (how == 0) {
            auto n = std::make_unique<R>(std::move(*r));
            r = std::move(n);
        } else {
            auto n = fresh();
            *n = std::move(*r);
            r = std::move(n);
        }
    }
}

// ------------------------------------------------------------- C08 routing
template <class R>
static void routing_run(
    Ctx& c, const char* name, std::function<std::unique_ptr<R>()> make,
    // Which upstreams are to be tried, in order; empty: must fail.
    std::function<std::vector<int>(std::size_t, std::size_t)> expect,
    std::vector<Rec*> ups, std::vector<Call>& log,
    std::function<void()> after_alloc, unsigned depth) {
    std::unique_ptr<R> r = make();
    std::vector<LiveB> live;
    const auto &SZ = sizes(c), &AL = aligns(c);
    constexpr bool mv =
        std::is_move_constructible_v<R> && std::is_move_assignable_v<R>;
    bool moved = false;
    const unsigned steps = c.steps(depth);
    for (unsigned d = 0; d < steps; ++d) {
        unsigned na = (unsigned)(SZ.size() * AL.size());
        unsigned nf = (unsigned)std::min<std::size_t>(live.size(), 3);
        unsigned k = c.choose(1 + na + nf + 2 + (mv && (!moved || c.lin()) ? 2 : 0));
        if (k == 0) {
            if (c.stop()) break;
            continue;
        }
        --k;
        log.clear();
        if (k < na) {
            std::size_t n = SZ[k / AL.size()], al = AL[k % AL.size()];
            std::vector<int> order = expect(n, al);
            std::optional<u64> p;
            try {
                p = (u64)r->allocate(n, al);
            } catch (const std::bad_alloc&) {
            }
            after_alloc();
            c.op("%s: allocate(%zu,%zu) -> %#llx", name, n, al,
                 (unsigned long long)(p ? *p : 0));
            // The log must be: failures of the first upstreams in order, then a
            // success (or nothing).
            bool expect_ok = false;
            int who = -1;
            u64 want = 0;
            std::size_t i = 0;
            for (; i < log.size(); ++i) {
                c.require(log[i].alloc && i < order.size() &&
                              log[i].who == order[i],
                          "%s: allocate(%zu,%zu): unexpected call on upstream %d",
                          name, n, al, log[i].who);
                c.require(log[i].n == n && log[i].al == al,
                          "%s: allocate(%zu,%zu) was forwarded as (%zu,%zu)", name,
                          n, al, log[i].n, log[i].al);
                c.require(!expect_ok, "%s: upstreams tried after a success", name);
                if (log[i].ok) {
                    expect_ok = true;
                    who = log[i].who;
                    want = log[i].p;
                }
            }
            if (!expect_ok)
                c.require(i == order.size(),
                          "%s: allocate(%zu,%zu): only %zu of %zu upstreams tried",
                          name, n, al, i, order.size());
            c.require(p.has_value() == expect_ok,
                      "%s: allocate(%zu,%zu) %s", name, n, al,
                      expect_ok ? "failed although an upstream succeeded"
                                : "did not fail");
            if (p) {
                c.require(*p == want, "%s: returned %#llx, upstream gave %#llx",
                          name, (unsigned long long)*p,
                          (unsigned long long)want);
                live.push_back({*p, n, al, who});
            } else {
                c.count("failed_allocations");
            }
        } else if (k < na + nf) {
            k -= na;
            std::size_t i = k == 0 ? 0 : k == 1 ? live.size() - 1 : 1;
            LiveB l = live[i];
            live.erase(live.begin() + (long)i);
            c.op("%s: deallocate(%#llx,%zu,%zu)", name, (unsigned long long)l.p,
                 l.n, l.al);
            r->deallocate((void*)l.p, l.n, l.al);
            c.require(log.size() == 1 && !log[0].alloc && log[0].who == l.who &&
                          log[0].p == l.p && log[0].n == l.n && log[0].al == l.al,
                      "%s: release of a block of upstream %d was forwarded to "
                      "upstream %d, %zu call(s)",
                      name, l.who, log.empty() ? -1 : log[0].who, log.size());
        } else if (k == na + nf) {
            void* p = r->allocate(0, 16);
            c.op("%s: allocate(0)", name);
            c.require(log.empty(), "%s: zero sized request reached an upstream",
                      name);
            c.require(p == nullptr, "%s: zero sized request returned memory",
                      name);
            r->deallocate(p, 0, 16);
            c.require(log.empty(), "%s: releasing a null pointer reached an "
                      "upstream", name);
        } else if (k == na + nf + 1) {
            c.op("%s: deallocate(null,8)", name);
            release_null(*r);
            c.require(log.empty(), "%s: releasing a null pointer reached an "
                      "upstream", name);
        } else {
            moved = true;
            maybe_move(c, r, k - (na + nf + 2), make);
            c.require(log.empty(), "%s: moving touched an upstream", name);
        }
        u64 h = mc::mix(std::hash<std::string>()(name), moved);
        for (auto& l : live) h = mc::mix(mc::mix(h, l.p), l.n * 7 + (u64)l.who);
        c.state(h);
    }
    // Everything can still be released.
    while (!live.empty()) {
        LiveB l = live.back();
        live.pop_back();
        log.clear();
        r->deallocate((void*)l.p, l.n, l.al);
        c.require(log.size() == 1 && log[0].who == l.who && log[0].p == l.p &&
                      log[0].n == l.n && log[0].al == l.al,
                  "%s: release not forwarded to upstream %d", name, l.who);
    }
    log.clear();
    r.reset();
    c.require(log.empty(), "%s: destruction touched an upstream", name);
    for (auto* u : ups)
        c.require(u->live.empty(), "%s: upstream %d still has blocks", name, u->id);
}

static void routing(Ctx& c) {
    Pool pool;
    std::vector<Call> log;
    int faults = 0;
    unsigned kind = c.choose(7);
    std::vector<std::unique_ptr<Rec>> ups;
    std::vector<Rec*> up;
    for (int i = 0; i < (c.want_long ? 6 : 3); ++i) {
        ups.push_back(std::make_unique<Rec>(c, pool, i, log, &faults));
        up.push_back(ups.back().get());
    }
    const unsigned depth = c.thorough ? 5 : 4;
    auto none = [] {};
    if (kind == 0) {
        faults = c.want_long ? 12 : c.thorough ? 2 : 1;
        routing_run<vecmem::identity_memory_resource>(
            c, "identity",
            [&] {
                return std::make_unique<vecmem::identity_memory_resource>(*up[0]);
            },
            [](std::size_t, std::size_t) { return std::vector<int>{0}; }, up, log,
            none, depth);
    } else if (kind == 1) {
        faults = c.want_long ? 12 : 1;
        // decision by size, by alignment, or changing with time
        unsigned rule = c.choose(4);
        c.note("choice rule %u", rule);
        static unsigned n_calls, tick;
        n_calls = tick = 0;
        auto decide = [rule](std::size_t n, std::size_t al, unsigned t) {
            switch (rule) {
                case 0: return n > 100 ? 1 : 0;
                case 1: return al > 8 ? 2 : 0;
                case 2: return (int)(t % 3);
                default: return n == BIG ? (al > 8 ? 2 : 1) : 0;
            }
        };
        routing_run<vecmem::choice_memory_resource>(
            c, "choice",
            [&] {
                return std::make_unique<vecmem::choice_memory_resource>(
                    [&up, decide](std::size_t n, std::size_t al)
                        -> vecmem::memory_resource& {
                        ++n_calls;
                        return *up[(std::size_t)decide(n, al, tick)];
                    });
            },
            [&](std::size_t n, std::size_t al) {
                ++tick;
                n_calls = 0;
                return std::vector<int>{decide(n, al, tick)};
            },
            up, log,
            [&] { c.require(n_calls == 1, "choice: decision made %u times",
                            n_calls); },
            depth);
    } else if (kind == 2) {
        unsigned rule = c.choose(3);
        faults = c.want_long ? 12 : 1;
        auto pred = [rule](std::size_t n, std::size_t al) {
            return rule == 0 ? n >= 101 : rule == 1 ? al <= 8 : n * al < 1000;
        };
        routing_run<vecmem::conditional_memory_resource>(
            c, "conditional",
            [&] {
                return std::make_unique<vecmem::conditional_memory_resource>(
                    *up[0], pred);
            },
            [&](std::size_t n, std::size_t al) {
                return pred(n, al) ? std::vector<int>{0} : std::vector<int>{};
            },
            up, log, none, depth);
    } else if (kind == 3 || kind == 4) {
        // coalescing over 3, 2, 1 or no upstreams; optionally in reverse order
        unsigned n = kind == 3 ? (c.want_long ? 6 : 3) : c.choose(3);
        bool rev = c.choose(2);
        faults = c.want_long ? 12 : c.thorough ? 6 : 3;
        std::vector<int> order;
        for (unsigned i = 0; i < n; ++i) order.push_back((int)(rev ? n - 1 - i : i));
        routing_run<vecmem::coalescing_memory_resource>(
            c, "coalescing",
            [&] {
                std::vector<std::reference_wrapper<vecmem::memory_resource>> rf;
                for (int i : order) rf.push_back(*up[(std::size_t)i]);
                return std::make_unique<vecmem::coalescing_memory_resource>(
                    std::move(rf));
            },
            [&](std::size_t, std::size_t) { return order; }, up, log, none,
            kind == 3 ? depth - 1 : depth);
    } else if (kind == 5) {
        // conditional + conditional + terminal under a coalescing resource
        auto p0 = [](std::size_t n, std::size_t) { return n < 100; };
        auto p1 = [](std::size_t, std::size_t al) { return al < 64; };
        vecmem::conditional_memory_resource c0(*up[0], p0), c1(*up[1], p1);
        vecmem::terminal_memory_resource term(*up[2]);
        faults = c.want_long ? 12 : 1;
        routing_run<vecmem::coalescing_memory_resource>(
            c, "coalescing(terminal,conditional,conditional)",
            [&] {
                return std::make_unique<vecmem::coalescing_memory_resource>(
                    std::vector<std::reference_wrapper<vecmem::memory_resource>>{
                        term, c0, c1});
            },
            [&](std::size_t n, std::size_t al) {
                std::vector<int> o;
                if (p0(n, al)) o.push_back(0);
                if (p1(n, al)) o.push_back(1);
                return o;
            },
            up, log, none, depth);
    } else {
        // terminal: nothing ever succeeds, nothing reaches the upstream
        for (int v = 0; v < 2; ++v) {
            std::unique_ptr<vecmem::terminal_memory_resource> t;
            if (v) t = std::make_unique<vecmem::terminal_memory_resource>(*up[0]);
            else t = std::make_unique<vecmem::terminal_memory_resource>();
            for (std::size_t n : {std::size_t(1), std::size_t(8),
                                  std::size_t(5000), SIZE_MAX})
                for (std::size_t al : {std::size_t(1), std::size_t(64)}) {
                    bool threw = false;
                    try {
                        (void)t->allocate(n, al);
                    } catch (const std::bad_alloc&) {
                        threw = true;
                    }
                    c.op("terminal: allocate(%zu,%zu)", n, al);
                    c.require(threw, "terminal: an allocation succeeded");
                    t->deallocate((void*)0x1000, n, al);
                    c.require(log.empty(), "terminal: upstream was called");
                }
        }
        c.state(1);
    }
}

// -------------------------------------------------------- C09 debug resource
// An upstream that places blocks wherever the explorer says, also on top of
// each other.
struct Wild : MR {
    Ctx& c;
    std::vector<Call> log;
    bool honest = true;
    u64 next = 0x5000;
    std::vector<u64> slots;
    Wild(Ctx& ctx) : c(ctx) {}
    void* do_allocate(std::size_t n, std::size_t al) override {
        u64 p;
        if (honest) {
            p = (next + al - 1) / al * al;
            next = p + n;
        } else {
            // 0x5000 .. in steps of 8: adjacent, overlapping, containing, equal
            p = 0x5000 + 8 * c.choose(7);
        }
        log.push_back({0, true, p, n, al, true});
        return (void*)p;
    }
    void do_deallocate(void* p, std::size_t n, std::size_t al) override {
        log.push_back({0, false, (u64)p, n, al, true});
    }
    bool do_is_equal(const MR& o) const noexcept override { return this == &o; }
};

static void debug_res(Ctx& c) {
    Wild up(c);
    up.honest = c.choose(2) == 0;
    auto make = [&] {
        return std::make_unique<vecmem::debug_memory_resource>(up);
    };
    auto r = make();
    std::vector<LiveB> live;
    std::vector<LiveB> gone;
    bool moved = false;
    const unsigned depth = c.steps(c.thorough ? 5 : 4);
    std::vector<std::size_t> sz = {8, 24, 1};
    if (c.thorough) sz.push_back(16);
    for (unsigned d = 0; d < depth; ++d) {
        // menu: allocations; for each of (up to) 2 live blocks: correct release,
        // wrong size (smaller, larger), wrong alignment, interior pointer;
        // release of a freed block; of a foreign pointer; zero/null; moves
        unsigned na = (unsigned)sz.size();
        unsigned nl = (unsigned)std::min<std::size_t>(live.size(), 2);
        unsigned nd = nl * 6;
        unsigned ng = (unsigned)std::min<std::size_t>(gone.size(), 2);
        unsigned k = c.choose(1 + na + nd + ng + 3 + (moved && c.stop() ? 0 : 2));
        if (k == 0) {
            if (c.stop()) break;
            continue;
        }
        --k;
        up.log.clear();
        auto dealloc = [&](u64 p, std::size_t n, std::size_t al, bool bad,
                           const char* what) {
            bool threw = false;
            try {
                r->deallocate((void*)p, n, al);
            } catch (const std::logic_error&) {
                threw = true;
            }
            c.op("deallocate(%#llx,%zu,%zu) [%s] -> %s", (unsigned long long)p, n,
                 al, what, threw ? "logic_error" : "ok");
            c.require(threw == bad, "%s: %s", what,
                      bad ? "misuse was not reported"
                          : "correct use was reported as misuse");
            if (bad) {
                c.require(up.log.empty(),
                          "%s: a reported misuse still reached the upstream", what);
                c.count("reported_misuse");
            } else {
                c.require(up.log.size() == 1 && !up.log[0].alloc &&
                              up.log[0].p == p && up.log[0].n == n &&
                              up.log[0].al == al,
                          "correct release was not forwarded as it was");
            }
        };
        auto is_live = [&](u64 p, std::size_t n, std::size_t al) {
            for (auto& l : live)
                if (l.p == p && l.n == n && l.al == al) return true;
            return false;
        };
        if (k < na) {
            std::size_t n = sz[k], al = 8;
            std::optional<u64> p;
            bool threw = false;
            try {
                p = (u64)r->allocate(n, al);
            } catch (const std::logic_error&) {
                threw = true;
            }
            c.require(up.log.size() == 1 && up.log[0].alloc &&
                          up.log[0].n == n && up.log[0].al == al,
                      "allocation was not forwarded as it was");
            u64 got = up.log[0].p;
            bool overlap = false;
            for (auto& l : live)
                if (got < l.p + l.n && l.p < got + n) overlap = true;
            c.op("allocate(%zu) at %#llx -> %s", n, (unsigned long long)got,
                 threw ? "logic_error" : "ok");
            c.require(threw == overlap, "block [%#llx,+%zu) %s",
                      (unsigned long long)got, n,
                      overlap ? "overlaps a live one, not reported"
                              : "does not overlap anything, but was reported");
            if (overlap) c.count("reported_overlap");
            if (!threw) {
                c.require(*p == got, "returned another pointer");
                live.push_back({got, n, al, 0});
            }
        } else if (k < na + nd) {
            k -= na;
            std::size_t i = k / 6 == 0 ? 0 : live.size() - 1;
            LiveB l = live[i];
            u64 p = l.p;
            std::size_t n = l.n, al = l.al;
            const char* what = "correct";
            switch (k % 6) {
                case 1: n = n + 8; what = "size too large"; break;
                case 2: n = n - 1; what = "size too small"; break;
                case 3: al = 16; what = "alignment too large"; break;
                case 4: al = 4; what = "alignment too small"; break;
                case 5: p = p + (n > 8 ? 8 : n); what = "interior/end pointer"; break;
                default: break;
            }
            if (n == 0 && k % 6 == 2) n = 0;
            bool good = is_live(p, n, al);
            dealloc(p, n, al, !good, what);
            if (good)
                for (std::size_t j = 0; j < live.size(); ++j)
                    if (live[j].p == p) {
                        gone.push_back(live[j]);
                        live.erase(live.begin() + (long)j);
                        break;
                    }
        } else if (k < na + nd + ng) {
            k -= na + nd;
            LiveB l = k == 0 ? gone.back() : gone.front();
            bool good = is_live(l.p, l.n, l.al);
            dealloc(l.p, l.n, l.al, !good, "released before");
            if (good)
                for (std::size_t j = 0; j < live.size(); ++j)
                    if (live[j].p == l.p) {
                        live.erase(live.begin() + (long)j);
                        break;
                    }
        } else if (k == na + nd + ng) {
            dealloc(0x999000, 8, 8, true, "never allocated");
        } else if (k == na + nd + ng + 1) {
            void* p = r->allocate(0, 8);
            c.op("allocate(0)");
            r->deallocate(p, 0, 8);
            c.require(p == nullptr && up.log.empty(), "zero sized request");
        } else if (k == na + nd + ng + 2) {
            c.op("deallocate(null)");
            release_null(*r);
            c.require(up.log.empty(), "null pointer reached the upstream");
        } else {
            moved = true;
            maybe_move(c, r, k - (na + nd + ng + 3), make);
        }
        u64 h = mc::mix(up.honest, moved);
        for (auto& l : live) h = mc::mix(mc::mix(h, l.p), l.n);
        for (auto& l : gone) h = mc::mix(mc::mix(h, l.p), l.n + 1000);
        c.state(h);
    }
    // What is live can be released correctly, then everything is misuse.
    auto all = live;
    for (auto& l : all) {
        up.log.clear();
        bool threw = false;
        try {
            r->deallocate((void*)l.p, l.n, l.al);
        } catch (const std::logic_error&) {
            threw = true;
        }
        c.require(!threw && up.log.size() == 1,
                  "a live block cannot be released any more");
    }
    for (auto& l : all) {
        up.log.clear();
        bool threw = false;
        try {
            r->deallocate((void*)l.p, l.n, l.al);
        } catch (const std::logic_error&) {
            threw = true;
        }
        c.require(threw && up.log.empty(), "double release was not reported");
    }
}

// ------------------------------------------------- C10 instrumentation
struct HookCall {
    int hook;   // number of the hook, in the order of registration
    int kind;   // 0 pre-allocate 1 post-allocate 2 pre-deallocate
    u64 p;
    std::size_t n, al;
    std::size_t upcalls;  // upstream calls made when it ran
};
struct Ev {
    bool alloc;
    u64 p;
    std::size_t n, al;
};
static void instrumenting(Ctx& c) {
    Pool pool;
    std::vector<Call> log;
    int faults = c.want_long ? 12 : 2;
    Rec up(c, pool, 0, log, &faults);
    auto make = [&] {
        return std::make_unique<vecmem::instrumenting_memory_resource>(up);
    };
    auto r = make();
    std::vector<HookCall> calls;
    std::vector<int> hooks[3];
    int nh = 0;
    std::vector<Ev> events;
    std::vector<LiveB> live;
    std::unique_ptr<vecmem::memory_monitor> mon, mon2;
    struct Stat {
        std::size_t n = 0, total = 0, out = 0, max = 0;
    } st[2];
    auto add_hook = [&](int kind) {
        int id = nh++;
        hooks[kind].push_back(id);
        auto rec = [&calls, &log, id, kind](u64 p, std::size_t n, std::size_t al) {
            calls.push_back({id, kind, p, n, al, log.size()});
        };
        if (kind == 0)
            r->add_pre_allocate_hook(
                [rec](std::size_t n, std::size_t al) { rec(0, n, al); });
        else if (kind == 1)
            r->add_post_allocate_hook([rec](std::size_t n, std::size_t al,
                                            void* p) { rec((u64)p, n, al); });
        else
            r->add_pre_deallocate_hook([rec](void* p, std::size_t n,
                                             std::size_t al) { rec((u64)p, n, al); });
    };
    bool early = c.choose(2);
    if (early) {
        mon = std::make_unique<vecmem::memory_monitor>(*r);
        for (int k = 0; k < 3; ++k) add_hook(k);
    }
    auto check = [&](const char* what) {
        auto& e = r->get_events();
        c.require(e.size() == events.size(), "%s: %zu events recorded, expected %zu",
                  what, e.size(), events.size());
        for (std::size_t i = 0; i < e.size(); ++i) {
            bool al = e[i].m_type == vecmem::instrumenting_memory_resource::
                                         memory_event::type::ALLOCATION;
            c.require(al == events[i].alloc && (u64)e[i].m_ptr == events[i].p &&
                          e[i].m_size == events[i].n && e[i].m_align == events[i].al,
                      "%s: event %zu does not describe what happened", what, i);
        }
        for (int m = 0; m < 2; ++m) {
            auto& mo = m ? mon2 : mon;
            if (!mo) continue;
            c.require(mo->total_allocation() == st[m].total,
                      "%s: monitor total %zu, expected %zu", what,
                      mo->total_allocation(), st[m].total);
            c.require(mo->outstanding_allocation() == st[m].out,
                      "%s: monitor outstanding %zu, expected %zu", what,
                      mo->outstanding_allocation(), st[m].out);
            c.require(mo->maximal_allocation() == st[m].max,
                      "%s: monitor maximum %zu, expected %zu", what,
                      mo->maximal_allocation(), st[m].max);
            std::size_t avg =
                st[m].n ? (2 * st[m].total + st[m].n) / (2 * st[m].n) : 0;
            c.require(mo->average_allocation() == avg,
                      "%s: monitor average %zu, expected %zu", what,
                      mo->average_allocation(), avg);
        }
    };
    check("start");
    auto hook_check = [&](int kind, std::size_t from, u64 p, std::size_t n,
                          std::size_t al, std::size_t upcalls) {
        auto& h = hooks[kind];
        c.require(calls.size() >= from + h.size(), "a hook was not called");
        for (std::size_t i = 0; i < h.size(); ++i) {
            const HookCall& k = calls[from + i];
            c.require(k.kind == kind && k.hook == h[i],
                      "hooks called in the wrong order");
            c.require(k.p == p && k.n == n && k.al == al,
                      "hook called with (%#llx,%zu,%zu) instead of (%#llx,%zu,%zu)",
                      (unsigned long long)k.p, k.n, k.al, (unsigned long long)p, n,
                      al);
            c.require(k.upcalls == upcalls, "hook called %s the upstream",
                      upcalls ? "before" : "after");
        }
        return from + h.size();
    };
    bool moved = early && c.choose(2) ? false : true;
    const bool may_move = !moved;
    const unsigned depth = c.steps(c.thorough ? 6 : 5);
    for (unsigned d = 0; d < depth; ++d) {
        const auto& SZ = sizes(c);
        unsigned na = (unsigned)SZ.size();
        unsigned nf = (unsigned)std::min<std::size_t>(live.size(), 2);
        bool can_hook = nh < (c.lin() ? 12 : 5);
        if (c.lin()) moved = !may_move;
        unsigned k = c.choose(1 + na + nf + 1 + (can_hook ? 3 : 0) +
                              (!mon2 ? 1 : 0) + (moved ? 0 : 2));
        if (k == 0) {
            if (c.stop()) break;
            continue;
        }
        --k;
        log.clear();
        calls.clear();
        if (k < na) {
            std::size_t n = SZ[k], al = k == 1 ? 64 : 8;
            std::optional<u64> p;
            try {
                p = (u64)r->allocate(n, al);
            } catch (const std::bad_alloc&) {
            }
            c.op("allocate(%zu) -> %#llx", n, (unsigned long long)(p ? *p : 0));
            c.require(log.size() == 1 && log[0].alloc && log[0].n == n &&
                          log[0].al == al,
                      "allocation was not forwarded once, as it was");
            c.require(p.has_value() == log[0].ok, "outcome was not passed on");
            if (p) c.require(*p == log[0].p, "pointer was not passed on");
            events.push_back({true, p ? *p : 0, n, al});
            std::size_t i = hook_check(0, 0, 0, n, al, 0);
            i = hook_check(1, i, p ? *p : 0, n, al, 1);
            c.require(i == calls.size(), "unexpected hook calls");
            if (p) {
                live.push_back({*p, n, al, 0});
                for (int m = 0; m < 2; ++m)
                    if (m ? !!mon2 : !!mon) {
                        st[m].n++;
                        st[m].total += n;
                        st[m].out += n;
                        st[m].max = std::max(st[m].max, st[m].out);
                    }
            }
            check("allocate");
        } else if (k < na + nf) {
            k -= na;
            std::size_t i = k == 0 ? 0 : live.size() - 1;
            LiveB l = live[i];
            // a monitor that was attached later has not seen this allocation
            if (l.who == 1) {
                if (c.stop()) c.cut();
                continue;
            }
            live.erase(live.begin() + (long)i);
            r->deallocate((void*)l.p, l.n, l.al);
            c.op("deallocate(%#llx,%zu)", (unsigned long long)l.p, l.n);
            c.require(log.size() == 1 && !log[0].alloc && log[0].p == l.p &&
                          log[0].n == l.n && log[0].al == l.al,
                      "release was not forwarded once, as it was");
            events.push_back({false, l.p, l.n, l.al});
            c.require(hook_check(2, 0, l.p, l.n, l.al, 0) == calls.size(),
                      "unexpected hook calls");
            for (int m = 0; m < 2; ++m)
                if (m ? !!mon2 : !!mon) st[m].out -= l.n;
            check("deallocate");
        } else if (k == na + nf) {
            void* p = r->allocate(0, 8);
            r->deallocate(p, 0, 8);
            c.op("allocate(0)");
            c.require(log.empty() && p == nullptr, "zero sized request");
            check("zero");
        } else {
            k -= na + nf + 1;
            if (can_hook) {
                if (k < 3) {
                    c.op("add hook %u", k);
                    add_hook((int)k);
                    continue;
                }
                k -= 3;
            }
            if (!mon2) {
                if (k == 0) {
                    c.op("attach a monitor");
                    mon2 = std::make_unique<vecmem::memory_monitor>(*r);
                    for (auto& l : live) l.who = 1;
                    check("attach");
                    continue;
                }
                k -= 1;
            }
            moved = true;
            maybe_move(c, r, k, make);
            check("move");
        }
        u64 h = mc::mix(early, (u64)nh);
        for (auto& e : events) h = mc::mix(mc::mix(h, e.p), e.n * 2 + e.alloc);
        c.state(h);
    }
}

// ---------------------------------------------------------- C12 equality
// A set of resources over two upstreams and two host resources; equal ones must
// be interchangeable.
struct Res {
    std::string name;
    std::shared_ptr<MR> r;
    bool fails = false;  // terminal
};
static void equality(Ctx& c) {
    Pool pool;
    std::vector<Call> log;
    int faults = 0;
    Rec a(c, pool, 0, log, &faults), b(c, pool, 1, log, &faults);
    vecmem::host_memory_resource h1, h2;
    std::vector<Res> rs;
    auto ref = [](MR& m) { return std::shared_ptr<MR>(&m, [](MR*) {}); };
    rs.push_back({"A", ref(a)});
    rs.push_back({"B", ref(b)});
    rs.push_back({"host1", ref(h1)});
    rs.push_back({"host2", ref(h2)});
    auto add = [&](std::string n, auto p, bool f = false) {
        rs.push_back({n, std::shared_ptr<MR>(std::move(p)), f});
    };
    // First level
    std::size_t base = rs.size();
    for (std::size_t i = 0; i < base; ++i) {
        MR& u = *rs[i].r;
        std::string s = "(" + rs[i].name + ")";
        add("identity" + s, std::make_unique<vecmem::identity_memory_resource>(u));
        add("identity'" + s, std::make_unique<vecmem::identity_memory_resource>(u));
        add("sync" + s, std::make_unique<vecmem::synchronized_memory_resource>(u));
        add("sync'" + s, std::make_unique<vecmem::synchronized_memory_resource>(u));
        if (i > 2) continue;
        add("debug" + s, std::make_unique<vecmem::debug_memory_resource>(u));
        add("debug'" + s, std::make_unique<vecmem::debug_memory_resource>(u));
        add("instr" + s, std::make_unique<vecmem::instrumenting_memory_resource>(u));
        add("instr'" + s, std::make_unique<vecmem::instrumenting_memory_resource>(u));
        add("cond" + s, std::make_unique<vecmem::conditional_memory_resource>(
                            u, [](std::size_t, std::size_t) { return true; }));
        add("choice" + s,
            std::make_unique<vecmem::choice_memory_resource>(
                [&u](std::size_t, std::size_t) -> vecmem::memory_resource& {
                    return u;
                }));
        add("choice'" + s,
            std::make_unique<vecmem::choice_memory_resource>(
                [&u](std::size_t, std::size_t) -> vecmem::memory_resource& {
                    return u;
                }));
        add("coal" + s,
            std::make_unique<vecmem::coalescing_memory_resource>(
                std::vector<std::reference_wrapper<vecmem::memory_resource>>{u}));
        add("coal'" + s,
            std::make_unique<vecmem::coalescing_memory_resource>(
                std::vector<std::reference_wrapper<vecmem::memory_resource>>{u}));
        for (int k = 0; k < 2; ++k) {
            std::string q = k ? "'" : "";
            add("pool" + q + s, std::make_unique<vecmem::pool_memory_resource>(u));
            add("arena" + q + s, std::make_unique<vecmem::arena_memory_resource>(
                                     u, 4096, std::size_t(1) << 40));
            add("bpage" + q + s,
                std::make_unique<vecmem::binary_page_memory_resource>(u));
            add("contig" + q + s,
                std::make_unique<vecmem::contiguous_memory_resource>(u, 4096));
        }
    }
    add("terminal1", std::make_unique<vecmem::terminal_memory_resource>(), true);
    add("terminal2", std::make_unique<vecmem::terminal_memory_resource>(a), true);
    // Second level
    auto find = [&](const char* n) -> MR& {
        for (auto& r : rs)
            if (r.name == n) return *r.r;
        c.fail("no %s", n);
    };
    for (const char* n : {"identity(A)", "sync(A)", "pool(A)", "debug(A)",
                          "identity'(A)", "sync(host1)", "arena(A)"}) {
        std::string s = std::string("(") + n + ")";
        add("identity" + s,
            std::make_unique<vecmem::identity_memory_resource>(find(n)));
        add("sync" + s,
            std::make_unique<vecmem::synchronized_memory_resource>(find(n)));
    }
    for (const char* n : {"terminal1", "terminal2"}) {
        std::string s = std::string("(") + n + ")";
        add("identity" + s,
            std::make_unique<vecmem::identity_memory_resource>(find(n)), true);
        add("sync" + s,
            std::make_unique<vecmem::synchronized_memory_resource>(find(n)), true);
    }
    unsigned i = c.choose((unsigned)rs.size()), j = c.choose((unsigned)rs.size());
    MR &x = *rs[i].r, &y = *rs[j].r;
    bool eq = x.is_equal(y);
    c.op("%s.is_equal(%s) -> %d", rs[i].name.c_str(), rs[j].name.c_str(), eq);
    c.state(mc::mix(i, mc::mix(j, eq)));
    const std::string& n1 = rs[i].name;
    const std::string& n2 = rs[j].name;
    if (i == j)
        c.require(eq, "%s does not equal itself", n1.c_str());
    c.require(x.is_equal(y) == eq, "comparison changes its answer");
    // std::pmr comparison operators are built on it.
    c.require((x == y) == (&x == &y || eq), "%s == %s", n1.c_str(), n2.c_str());
    // Known equalities.
    auto strip = [](std::string s) {
        s.erase(std::remove(s.begin(), s.end(), '\''), s.end());
        return s;
    };
    auto starts = [](const std::string& s, const char* p) {
        return s.rfind(p, 0) == 0;
    };
    bool must = i == j;
    if (starts(n1, "host") && starts(n2, "host")) must = true;
    if (starts(n1, "terminal") && starts(n2, "terminal")) must = true;
    if (starts(n1, "identity") && starts(n2, "identity") &&
        strip(n1) == strip(n2))
        must = true;
    if (starts(n1, "sync") && starts(n2, "sync") && strip(n1) == strip(n2))
        must = true;
    if (starts(n1, "sync") && n1 == "sync(" + n2 + ")") must = true;
    if (must) {
        c.require(eq, "%s and %s are interchangeable, but not equal", n1.c_str(),
                  n2.c_str());
        c.count("equal_pairs");
    }
    if (!eq || rs[i].fails || rs[j].fails) return;
    // Equal: memory of one can be released through the other, both ways.
    for (int dir = 0; dir < 2; ++dir) {
        MR& from = dir ? y : x;
        MR& to = dir ? x : y;
        for (std::size_t n : {std::size_t(64), std::size_t(2048)}) {
            std::size_t held = 0;
            for (int k = 0; k < 1500; ++k) {
                if (i == j && n1.find("contig") != std::string::npos) break;
                void* p = from.allocate(n, 16);
                bool threw = false;
                try {
                    to.deallocate(p, n, 16);
                } catch (const std::exception&) {
                    threw = true;
                }
                c.require(!threw && !a.bad && !b.bad,
                          "%s and %s claim to be equal, but one rejects or "
                          "misroutes the block of the other", n1.c_str(),
                          n2.c_str());
                if (k == 0) held = a.live.size() + b.live.size();
            }
            c.require(a.live.size() + b.live.size() <= held || i == j,
                      "%s and %s claim to be equal, but blocks released through "
                      "the other one are lost", n1.c_str(), n2.c_str());
        }
    }
}

int main(int argc, char** argv) {
    return mc::run_main(argc, argv,
                        {{"routing", routing, 4, "C08"},
                         {"routing_long", mc::longer<routing>, 4, "C08"},
                         {"debug", debug_res, 3, "C09"},
                         {"debug_long", mc::longer<debug_res>, 3, "C09"},
                         {"instrumenting", instrumenting, 4, "C10"},
                         {"instrumenting_long", mc::longer<instrumenting>, 3,
                          "C10"},
                         {"equality", equality, 1, "C12"}});
}
