// Memory copies between host and (faulting) device memory, and the layout of
// buffers.
//   C19 buffers (at the end)   C20 1D copies   C21 jagged copies   C22 SoA copies
//   C23 the same with asynchronous execution of the low level operations
#include "space.hpp"

#include <vecmem/containers/data/jagged_vector_buffer.hpp>
#include <vecmem/containers/data/vector_buffer.hpp>
#include <vecmem/containers/jagged_vector.hpp>
#include <vecmem/containers/vector.hpp>
#include <vecmem/edm/buffer.hpp>
#include <vecmem/edm/container.hpp>
#include <vecmem/edm/data.hpp>
#include <vecmem/edm/host.hpp>
#include <vecmem/edm/view.hpp>

using mc::Ctx;
using namespace space;
using uint = unsigned int;
namespace vd = vecmem::data;
namespace edm = vecmem::edm;
using CT = vecmem::copy::type;

template <std::size_t S, std::size_t A>
struct alignas(A) Blob {
    unsigned char b[S];
};

// ---- the model: variables > rows > elements, an element being one byte value
struct Row {
    uint cap = 0;
    bool resz = false;
    uint size = 0;
    std::vector<int> el;  // -1: unspecified
};
enum Form { SCALAR, VECTOR, JAGGED };
struct Var {
    Form form;
    std::size_t es;  // element size
    std::vector<Row> rows;
};
struct Raw {
    char* ptr;
    const uint* size_ptr;
    uint cap;
};
using Raws = std::vector<std::vector<Raw>>;

template <class T>
static std::vector<Raw> raw_of(Ctx&, T* const& p) {
    return {{(char*)const_cast<std::remove_const_t<T>*>(p), nullptr, 1}};
}
template <class T>
static std::vector<Raw> raw_of(Ctx&, const vd::vector_view<T>& v) {
    return {{(char*)const_cast<std::remove_const_t<T>*>(v.ptr()), v.size_ptr(),
             v.capacity()}};
}
template <class T>
static std::vector<Raw> raw_of(Ctx& c, const vd::jagged_vector_view<T>& v) {
    std::vector<Raw> r;
    for (std::size_t i = 0; i < v.size(); ++i) {
        c.require(!Dev::in(v.host_ptr() + i),
                  "the host accessible description is in device memory");
        auto& d = acc(v.ptr())[i];
        auto& h = v.host_ptr()[i];
        c.require(d.ptr() == h.ptr() && d.size_ptr() == h.size_ptr() &&
                      d.capacity() == h.capacity(),
                  "row %zu is described differently to host and device", i);
        r.push_back(raw_of(c, h)[0]);
    }
    return r;
}

struct Cont {
    std::vector<Var> m;
    bool device = false, buffer = false, strict = false;
    const char* name = "";
    virtual ~Cont() = default;
    virtual Raws raws(Ctx&) = 0;
};
static int g_next;  // element values
static int fresh() {
    g_next = g_next % 200 + 1;
    return g_next;
}
static void check(Ctx& c, Cont& x, const char* what) {
    Raws raw = x.raws(c);
    c.require(raw.size() == x.m.size(), "%s: variables", what);
    for (std::size_t v = 0; v < x.m.size(); ++v) {
        Var& var = x.m[v];
        c.require(raw[v].size() == var.rows.size(),
                  "%s: %s: variable %zu has %zu rows, expected %zu", what, x.name,
                  v, raw[v].size(), var.rows.size());
        for (std::size_t r = 0; r < var.rows.size(); ++r) {
            Row& row = var.rows[r];
            Raw& w = raw[v][r];
            c.require(w.cap == row.cap, "%s: %s: capacity of row %zu is %u, not %u",
                      what, x.name, r, w.cap, row.cap);
            if (row.resz && (row.cap || w.size_ptr)) {
                c.require(w.size_ptr != nullptr, "%s: %s: row is not resizable",
                          what, x.name);
                uint s = *acc(w.size_ptr);
                c.require(s == row.size,
                          "%s: %s: variable %zu row %zu has size %u, expected %u",
                          what, x.name, v, r, s, row.size);
            }
            const unsigned char* p = (const unsigned char*)acc(w.ptr);
            for (uint i = 0; i < row.cap; ++i) {
                int e = row.el[i];
                if (e < 0) continue;
                for (std::size_t b = 0; b < var.es; ++b)
                    c.require(p[i * var.es + b] == (unsigned char)e,
                              "%s: %s: variable %zu row %zu element %u byte %zu is "
                              "0x%02x, expected 0x%02x",
                              what, x.name, v, r, i, b, p[i * var.es + b], e);
            }
        }
    }
}
static void set_row(Row& row, Raw& w, std::size_t es, uint size) {
    if (row.resz) {
        row.size = size;
        if (w.size_ptr) *acc(const_cast<uint*>(w.size_ptr)) = size;
    }
    for (uint i = 0; i < row.cap; ++i) {
        row.el[i] = fresh();
        std::memset(acc(w.ptr) + i * es, row.el[i], es);
    }
}
// What runs on the device (or host) between two copies: new sizes and contents.
// pattern: 0 full, 1 empty, 2 one less, 3 alternating
static uint sized(uint cap, unsigned pattern, std::size_t r) {
    switch (pattern) {
        case 0: return cap;
        case 1: return 0;
        case 2: return cap ? cap - 1 : 0;
        default: return r % 2 ? (cap ? cap - 1 : 0) : std::min(cap, 1u);
    }
}
static void fill(Ctx& c, Cont& x, unsigned pattern) {
    Raws raw = x.raws(c);
    bool jag = false;
    for (auto& v : x.m) jag = jag || v.form == JAGGED;
    for (std::size_t v = 0; v < x.m.size(); ++v)
        for (std::size_t r = 0; r < x.m[v].rows.size(); ++r)
            set_row(x.m[v].rows[r], raw[v][r], x.m[v].es,
                    sized(x.m[v].rows[r].cap, pattern, jag ? r + v : r));
}
static uint row_size(const Row& r) { return r.resz ? r.size : r.cap; }

enum Out { OK, THROW_CLEAN, THROW_DIRTY, UNCLAIMED };
// Copy one variable in the model.
static Out model_var(const Var& s, Var& d, bool keep_rest) {
    if (s.form == JAGGED) {
        if (s.rows.size() != d.rows.size())
            return s.rows.empty() ? UNCLAIMED : THROW_CLEAN;
    }
    for (std::size_t r = 0; r < s.rows.size(); ++r)
        if (row_size(s.rows[r]) > d.rows[r].cap) return THROW_CLEAN;
    for (std::size_t r = 0; r < s.rows.size(); ++r) {
        uint n = row_size(s.rows[r]);
        for (uint i = 0; i < d.rows[r].cap; ++i)
            if (i < n) d.rows[r].el[i] = s.rows[r].el[i];
            else if (!keep_rest) d.rows[r].el[i] = -1;
        if (d.rows[r].resz) d.rows[r].size = n;
    }
    return OK;
}
static Out model_copy(const Cont& s, Cont& d) {
    bool keep = d.strict;
    Out res = OK;
    for (std::size_t v = 0; v < s.m.size(); ++v) {
        Out o = model_var(s.m[v], d.m[v], keep);
        if (o == UNCLAIMED) return o;
        if (o != OK) res = s.m.size() == 1 ? o : THROW_DIRTY;
    }
    return res;
}
static void model_memset(Cont& d, int value) {
    for (auto& v : d.m)
        for (auto& r : v.rows) std::fill(r.el.begin(), r.el.end(), value);
}
static void model_setup(Cont& d) {
    for (auto& v : d.m)
        for (auto& r : v.rows) r.size = 0;
}
static uint64_t model_hash(const Cont& x, uint64_t h) {
    h = mc::mix(h, std::hash<std::string>()(x.name));
    for (auto& v : x.m) {
        h = mc::mix(h, v.es * 4 + v.form);
        for (auto& r : v.rows) h = mc::mix(h, r.cap * 64 + r.size * 2 + r.resz);
    }
    return h;
}

// ---- world shared by all executions of one kind
struct World {
    Ctx& c;
    MR host, host2;
    Dev dev;
    Copy cp;
    bool hint, async;
    std::size_t seen = 0;  // operations started by earlier calls
    static Copy::Mode late(Ctx& ctx) {
        static const Copy::Mode m[] = {Copy::LAZY, Copy::REVERSE, Copy::CHOICE};
        return m[ctx.choose(ctx.thorough ? 3 : 2)];
    }
    World(Ctx& ctx, bool as)
        : c(ctx), cp(ctx, dev, as ? late(ctx) : Copy::SYNC), async(as) {
        err.clear();
        g_next = 0;
        hint = as || ctx.want_long ? true : ctx.choose(2);
    }
    CT::copy_type type(bool from_dev, bool to_dev) const {
        if (!hint) return CT::unknown;
        return from_dev ? (to_dev ? CT::device_to_device : CT::device_to_host)
                        : (to_dev ? CT::host_to_device : CT::host_to_host);
    }
    CT::copy_type type(const Cont& a, const Cont& b) const {
        return type(a.device, b.device);
    }
    // The event covers everything the call started.
    void finish(vecmem::copy::event_type e, const char* what, bool may_ignore) {
        c.require(e != nullptr, "%s returned no event", what);
        // A call which started nothing may return an event for nothing.
        const std::size_t mark = cp.q.size() > seen ? cp.q.size() : 0;
        seen = cp.q.size();
        if (async && may_ignore && c.choose(2)) {
            e->ignore();
            c.note("  (not waited for)");
            return;
        }
        e->wait();
        c.require(cp.done >= mark,
                  "%s: operations are unfinished after waiting for the event", what);
        e->wait();
    }
    bool finished() const { return cp.q.size() == seen || idle(); }
    bool idle() const { return cp.done == cp.q.size(); }
    void check_err(const char* what) {
        seen = cp.q.size();
        c.require(err.empty(), "%s: %s", what, err.c_str());
        c.require(dev.intact(), "%s: wrote outside of the device memory held", what);
    }
};
template <class F>
static Out attempt(F f) {
    try {
        f();
        return OK;
    } catch (const std::length_error&) {
        return THROW_CLEAN;
    }
}
// Run a copy, which the model says must succeed or be refused. False: stop here.
template <class F>
static bool do_step(World& w, Cont& s, Cont& d, const char* what, bool ign, F f) {
    Ctx& c = w.c;
    auto before = d.m;
    Out want = model_copy(s, d);
    if (want == UNCLAIMED) c.cut();
    Out got = attempt([&] { w.finish(f(), what, ign && want == OK); });
    if (want == OK)
        c.require(got == OK, "%s: refused, although the contents fit", what);
    else {
        c.require(got != OK, "%s: not refused, although the contents do not fit",
                  what);
        d.m = before;
        if (want == THROW_DIRTY) {
            // Some of the variables may have been copied.
            w.cp.drain();
            w.check_err(what);
            return false;
        }
    }
    return true;
}
enum Kind { HVEC, HFIX, HRES, DFIX, DRES };
static const char* const KN[] = {"host vector", "fixed host buffer",
                                 "resizable host buffer", "fixed device buffer",
                                 "resizable device buffer"};
static void setup_new(World& w, Cont& x, vecmem::copy::event_type e) {
    w.finish(std::move(e), "setup", false);
    check(w.c, x, "setup of a new buffer");
    w.check_err("setup of a new buffer");
}

// ------------------------------------------------------------------ C20
static constexpr unsigned LONG = 20;  // steps of a long program
template <class T>
struct One : Cont {
    std::unique_ptr<vd::vector_buffer<T>> b;
    vecmem::vector<T> v;
    vd::vector_view<T> view() { return b ? *b : vecmem::get_data(v); }
    vd::vector_view<const T> cview() {
        if (b) return *b;
        const auto& cv = v;
        return vecmem::get_data(cv);
    }
    Raws raws(Ctx& c) override { return {raw_of(c, view())}; }
    One(World& w, Kind k, uint cap) : v(&w.host) {
        name = KN[k];
        device = k == DFIX || k == DRES;
        buffer = k != HVEC;
        Row r;
        r.cap = cap;
        r.resz = k == HRES || k == DRES;
        r.el.assign(cap, -1);
        m = {Var{VECTOR, sizeof(T), {r}}};
        strict = true;  // nothing but the copied elements changes
        if (k == HVEC) v.resize(cap);
        else {
            b = std::make_unique<vd::vector_buffer<T>>(
                cap, device ? (vecmem::memory_resource&)w.dev : w.host,
                r.resz ? vd::buffer_type::resizable : vd::buffer_type::fixed_size);
            setup_new(w, *this, w.cp.setup(view()));
        }
    }
};
template <class T>
static void one_run(Ctx& c, bool async) {
    World w(c, async);
    {
        static const std::vector<uint> all = {0, 3, 1}, few = {0, 3},
                                       big = {60, 9, 200, 33};
        const auto& caps = c.want_long ? big : async ? few : all;
        Kind ks = (Kind)c.choose(5);
        Kind kd = (Kind)c.choose(5);
        const unsigned depth = c.steps(c.thorough && !async ? 3 : 2, LONG);
        uint cs = c.pick(caps);
        uint cd = c.pick(caps);
        c.note("A: %s of %u, B: %s of %u, %zu byte elements", KN[ks], cs, KN[kd], cd,
               sizeof(T));
        One<T> a(w, ks, cs), b(w, kd, cd);
        fill(c, a, a.m[0].rows[0].resz ? c.choose(3) : 0);
        fill(c, b, b.m[0].rows[0].resz ? c.choose(2) : 0);
        for (unsigned d = 0; d < depth; ++d) try {
            const char* what = "";
            switch (c.choose(8)) {
                case 0:
                    c.op("copy A to B");
                    what = "copy";
                    do_step(w, a, b, what, b.buffer,
                            [&] { return w.cp(a.cview(), b.view(), w.type(a, b)); });
                    break;
                case 1:
                    c.op("copy B to A");
                    what = "copy";
                    do_step(w, b, a, what, a.buffer,
                            [&] { return w.cp(b.cview(), a.view(), w.type(b, a)); });
                    break;
                case 2:
                    c.op("setup B");
                    what = "setup";
                    w.finish(w.cp.setup(b.view()), what, true);
                    model_setup(b);
                    break;
                case 3: {
                    int v = 0xc0 + (int)d;
                    c.op("memset B to %d", v);
                    what = "memset";
                    w.finish(w.cp.memset(b.view(), v), what, true);
                    model_memset(b, v);
                    break;
                }
                case 4: {
                    c.op("get_size");
                    what = "get_size";
                    uint x = w.cp.get_size(a.view()), y = w.cp.get_size(b.cview());
                    c.require(x == row_size(a.m[0].rows[0]), "get_size: %u", x);
                    c.require(y == row_size(b.m[0].rows[0]), "get_size: %u", y);
                    break;
                }
                case 5: {
                    bool dv = c.choose(2);
                    c.op("A to a new %s buffer", dv ? "device" : "host");
                    what = "to";
                    One<T> t(w, HVEC, 0);
                    t.buffer = true;
                    auto& mr = dv ? (vecmem::memory_resource&)w.dev : w.host2;
                    // from a constant view or not
                    t.b = std::make_unique<vd::vector_buffer<T>>(
                        d ? w.cp.to(a.cview(), mr, w.type(a.device, dv))
                          : w.cp.to(a.view(), mr, w.type(a.device, dv)));
                    c.require(w.finished(), "to(): operations are unfinished");
                    Row& r = t.m[0].rows[0];
                    r.cap = row_size(a.m[0].rows[0]);
                    r.el.assign(a.m[0].rows[0].el.begin(),
                                a.m[0].rows[0].el.begin() + r.cap);
                    t.name = "the new buffer";
                    check(c, t, what);
                    c.require(dv ? t.b->ptr() == nullptr || Dev::in(t.b->ptr())
                                 : !Dev::in(t.b->ptr()),
                              "to(): wrong memory resource");
                    break;
                }
                case 6: {
                    uint n0 = c.choose(2) * 4;
                    c.op("A to a std::vector of %u", n0);
                    what = "copy to std::vector";
                    std::vector<T> v(n0);
                    w.finish(w.cp(a.cview(), v, w.type(a.device, false)), what,
                             false);
                    Row& r = a.m[0].rows[0];
                    c.require(v.size() == row_size(r), "std::vector of %zu, not %u",
                              v.size(), row_size(r));
                    for (uint i = 0; i < v.size(); ++i)
                        for (std::size_t k = 0; k < sizeof(T); ++k)
                            c.require(((unsigned char*)&v[i])[k] == r.el[i],
                                      "%s: element %u differs", what, i);
                    break;
                }
                default: {
                    w.cp.drain();
                    unsigned p = a.m[0].rows[0].resz ? c.choose(3) : 0;
                    c.op("new contents for A (%u)", p);
                    what = "kernel";
                    fill(c, a, p);
                }
            }
            w.check_err(what);
            if (w.idle()) {
                check(c, a, what);
                check(c, b, what);
            }
            c.state(model_hash(a, model_hash(b, 1)));
        } catch (mc::Next&) {
        }
        w.cp.drain();
        check(c, a, "at the end");
        check(c, b, "at the end");
    }
    w.check_err("after destroying the buffers");
    c.require(w.host.live.empty() && w.host2.live.empty() && w.dev.live.empty(),
              "memory is leaked");
}
static void one(Ctx& c, bool async) {
    switch (c.choose(async ? 2 : 4)) {
        case 0: one_run<int>(c, async); break;
        case 1: one_run<Blob<1, 1>>(c, async); break;
        case 2: one_run<Blob<12, 4>>(c, async); break;
        default: one_run<Blob<64, 64>>(c, async);
    }
}

// ------------------------------------------------------------------ C21
using Shape = std::vector<std::size_t>;
static std::string shape_str(const Shape& s) {
    std::string r = "{";
    for (auto x : s) r += (r.size() > 1 ? "," : "") + std::to_string(x);
    return r + "}";
}
// For long programs: many rows; the second shape has as many as the first.
static Shape long_shape(Ctx& c, const Shape* other) {
    static const unsigned ns[] = {9, 20, 33, 4};
    if (!other) {
        Shape s(ns[c.choose(4)]);
        for (auto& x : s) x = c.choose(7);
        return s;
    }
    Shape s = *other;
    const unsigned how = c.choose(3);  // the same, larger, mixed
    for (std::size_t i = 0; i < s.size(); ++i)
        if (how == 1) s[i] += i % 3;
        else if (how == 2) s[i] = i % 2 ? s[i] + 1 : s[i] - (s[i] > 0);
    return s;
}
static Shape pick_shape(Ctx& c, bool async) {
    static const std::vector<Shape> few = {{2, 1}, {}, {0, 2}, {0, 0}};
    if (async) return c.pick(few);
    static const std::vector<Shape> quick = {{2}, {}, {0}, {2, 1}, {1, 2}, {0, 1},
                                             {1, 0}, {0, 0}, {1, 1, 1}, {2, 0, 1}};
    if (!c.thorough) return c.pick(quick);
    Shape s(c.choose(4));
    for (auto& x : s) x = c.choose(3);
    return s;
}
template <class T>
struct Jag : Cont {
    std::unique_ptr<vd::jagged_vector_buffer<T>> b;
    vecmem::jagged_vector<T> v;
    std::unique_ptr<vd::jagged_vector_data<T>> d;
    std::unique_ptr<vd::jagged_vector_data<const T>> cd;
    vd::jagged_vector_view<T> view() {
        if (b) return *b;
        d = std::make_unique<vd::jagged_vector_data<T>>(vecmem::get_data(v));
        return *d;
    }
    vd::jagged_vector_view<const T> cview() {
        if (b) return *b;
        const auto& cv = v;
        cd = std::make_unique<vd::jagged_vector_data<const T>>(vecmem::get_data(cv));
        return *cd;
    }
    Raws raws(Ctx& c) override { return {raw_of(c, view())}; }
    void set_model(const Shape& s, bool resz) {
        Var var{JAGGED, sizeof(T), {}};
        for (auto cap : s) {
            Row r;
            r.cap = (uint)cap;
            r.resz = resz;
            r.el.assign(cap, -1);
            var.rows.push_back(r);
        }
        m = {var};
    }
    Jag(World& w, Kind k, const Shape& s) : v(&w.host) {
        name = KN[k];
        device = k == DFIX || k == DRES;
        buffer = k != HVEC;
        bool resz = k == HRES || k == DRES;
        set_model(s, resz);
        if (k == HVEC) {
            v.resize(s.size());
            for (std::size_t i = 0; i < s.size(); ++i) v[i].resize(s[i]);
        } else {
            b = std::make_unique<vd::jagged_vector_buffer<T>>(
                s, device ? (vecmem::memory_resource&)w.dev : w.host,
                device ? &w.host2 : nullptr,
                resz ? vd::buffer_type::resizable : vd::buffer_type::fixed_size);
            setup_new(w, *this, w.cp.setup(view()));
        }
    }
};
static Shape sizes_of(const Var& v) {
    Shape s;
    for (auto& r : v.rows) s.push_back(row_size(r));
    return s;
}
template <class T, class V>
static void same_rows(Ctx& c, const V& v, const Var& m, const char* what) {
    c.require(v.size() == m.rows.size(), "%s: %zu rows, not %zu", what, v.size(),
              m.rows.size());
    for (std::size_t r = 0; r < v.size(); ++r) {
        c.require(v[r].size() == row_size(m.rows[r]), "%s: row %zu has %zu elements",
                  what, r, v[r].size());
        for (std::size_t i = 0; i < v[r].size(); ++i)
            for (std::size_t k = 0; k < sizeof(T); ++k)
                c.require(m.rows[r].el[i] < 0 ||
                              ((unsigned char*)&v[r][i])[k] == m.rows[r].el[i],
                          "%s: row %zu element %zu differs", what, r, i);
    }
}
template <class T>
static void jag_run(Ctx& c, bool async) {
    World w(c, async);
    {
        Kind ks = (Kind)c.choose(5);
        Kind kd = (Kind)c.choose(5);
        unsigned depth = c.steps(2, LONG);
        Shape ss = c.want_long ? long_shape(c, nullptr) : pick_shape(c, async);
        Shape sd = c.want_long ? long_shape(c, &ss) : pick_shape(c, async);
        // Different numbers of rows are only checked for being refused.
        const bool rows = ss.size() == sd.size();
        if (!rows && (async || ss.empty() || sd.empty() || ss[0] != 2)) c.cut();
        c.note("A: %s of %s, B: %s of %s, %zu byte elements", KN[ks],
               shape_str(ss).c_str(), KN[kd], shape_str(sd).c_str(), sizeof(T));
        Jag<T> a(w, ks, ss), b(w, kd, sd);
        const bool ra = ks == HRES || ks == DRES, rb = kd == HRES || kd == DRES;
        fill(c, a, ra && !ss.empty() ? c.choose(async ? 2 : 4) : 0);
        fill(c, b, rb && !sd.empty() ? 2 * c.choose(2) : 0);
        if (!rows) depth = 1;
        const bool all_ops = c.thorough || c.lin();
        unsigned first = 0;
        for (unsigned d = 0; d < depth; ++d) try {
            const char* what = "";
            // Quick: only copies follow, and only after something changed.
            if (!all_ops && d && (first == 4 || first == 5 || first == 6)) break;
            unsigned op = c.choose(!rows ? 1 : !all_ops && d ? 2 : 9);
            first = op;
            switch (op) {
                case 0:
                    c.op("copy A to B");
                    what = "copy";
                    do_step(w, a, b, what, b.buffer,
                            [&] { return w.cp(a.cview(), b.view(), w.type(a, b)); });
                    break;
                case 1:
                    c.op("copy B to A");
                    what = "copy";
                    do_step(w, b, a, what, a.buffer,
                            [&] { return w.cp(b.cview(), a.view(), w.type(b, a)); });
                    break;
                case 2:
                    if (!b.buffer) c.cut();
                    c.op("setup B");
                    what = "setup";
                    w.finish(w.cp.setup(b.view()), what, true);
                    model_setup(b);
                    break;
                case 3: {
                    int v = 0xc0 + (int)d;
                    c.op("memset B to %d", v);
                    what = "memset";
                    w.finish(w.cp.memset(b.view(), v), what, true);
                    model_memset(b, v);
                    break;
                }
                case 4: {
                    c.op("get_sizes");
                    what = "get_sizes";
                    auto x = w.cp.get_sizes(a.view());
                    auto y = w.cp.get_sizes(b.cview());
                    c.require(Shape(x.begin(), x.end()) == sizes_of(a.m[0]),
                              "get_sizes of A");
                    c.require(Shape(y.begin(), y.end()) == sizes_of(b.m[0]),
                              "get_sizes of B");
                    break;
                }
                case 5: {
                    bool dv = c.choose(2);
                    c.op("A to a new %s buffer", dv ? "device" : "host");
                    what = "to";
                    Jag<T> t(w, HVEC, {});
                    t.buffer = true;
                    auto& mr = dv ? (vecmem::memory_resource&)w.dev : w.host2;
                    auto* hmr = dv ? &w.host : nullptr;
                    t.b = std::make_unique<vd::jagged_vector_buffer<T>>(
                        d ? w.cp.to(a.cview(), mr, hmr, w.type(a.device, dv))
                          : w.cp.to(a.view(), mr, hmr, w.type(a.device, dv)));
                    c.require(w.finished(), "to(): operations are unfinished");
                    t.set_model(sizes_of(a.m[0]), false);
                    t.name = "the new buffer";
                    model_var(a.m[0], t.m[0], false);
                    check(c, t, what);
                    break;
                }
                case 6: {
                    unsigned how = c.choose(3);
                    c.op("A to a host vector of vectors (%u)", how);
                    what = "copy to host vectors";
                    if (how == 2) {
                        vecmem::jagged_vector<T> v(&w.host2);
                        v.resize(1);
                        v[0].resize(4);
                        w.finish(w.cp(a.cview(), v, w.type(a.device, false)), what,
                                 false);
                        same_rows<T>(c, v, a.m[0], what);
                        for (auto& r : v)
                            c.require(r.get_allocator().resource() == &w.host2,
                                      "a row uses another memory resource");
                    } else {
                        // std vectors with the polymorphic allocator
                        vecmem::jagged_vector<T> v(how ? 5 : 0, &w.host2);
                        w.finish(w.cp(a.cview(), v, w.type(a.device, false)), what,
                                 false);
                        same_rows<T>(c, v, a.m[0], what);
                    }
                    break;
                }
                case 7: {
                    w.cp.drain();
                    unsigned p = ra ? c.choose(4) : 0;
                    c.op("new contents for A (%u)", p);
                    what = "kernel";
                    fill(c, a, p);
                    break;
                }
                default: {
                    unsigned p = c.choose(5);
                    std::vector<uint> sz;
                    Out want = OK;
                    auto& rs = b.m[0].rows;
                    for (std::size_t i = 0; i < rs.size(); ++i)
                        sz.push_back(sized(rs[i].cap, p % 3, i));
                    if (p == 3) {
                        sz.push_back(0);
                        want = THROW_CLEAN;
                    }
                    if (p == 4) {
                        if (sz.empty()) c.cut();
                        sz.back() = rs.back().cap + 1;
                        want = THROW_CLEAN;
                    }
                    // the request is ignored by containers of fixed size
                    c.op("set_sizes(B, %u)", p);
                    what = "set_sizes";
                    Out got = attempt(
                        [&] { w.finish(w.cp.set_sizes<T>(sz, b.view()), what, false); });
                    c.require(want == got, "set_sizes: %s",
                              want == OK ? "refused" : "not refused");
                    if (want == OK && rb)
                        for (std::size_t i = 0; i < rs.size(); ++i) rs[i].size = sz[i];
                }
            }
            w.check_err(what);
            if (w.idle()) {
                check(c, a, what);
                check(c, b, what);
            }
            c.state(model_hash(a, model_hash(b, 1)));
        } catch (mc::Next&) {
        }
        w.cp.drain();
        check(c, a, "at the end");
        check(c, b, "at the end");
    }
    w.check_err("after destroying the buffers");
    c.require(w.host.live.empty() && w.host2.live.empty() && w.dev.live.empty(),
              "memory is leaked");
}
static void jag(Ctx& c, bool async) {
    switch (c.choose(async ? 2 : 3)) {
        case 0: jag_run<int>(c, async); break;
        case 1: jag_run<Blob<3, 1>>(c, async); break;
        default: jag_run<Blob<64, 64>>(c, async);
    }
}

// ------------------------------------------------------------------ C22
template <class B>
struct NoIface : B {
    using B::B;
};
using B1 = Blob<1, 1>;
using B64 = Blob<64, 64>;
using S0 = edm::schema<edm::type::vector<int>>;
using S1 = edm::schema<edm::type::scalar<char>, edm::type::vector<B1>,
                       edm::type::vector<double>, edm::type::scalar<int>>;
using S2 = edm::schema<edm::type::vector<short>, edm::type::jagged_vector<double>,
                       edm::type::scalar<int>, edm::type::jagged_vector<B1>>;
using S3 = edm::schema<edm::type::jagged_vector<int>>;
using S4 = edm::schema<edm::type::vector<B64>, edm::type::vector<B1>,
                       edm::type::vector<float>>;
using S5 = edm::schema<edm::type::jagged_vector<B1>, edm::type::vector<B64>>;

template <class V>
struct is_jag : std::false_type {};
template <class T>
struct is_jag<edm::type::jagged_vector<T>> : std::true_type {};
template <class V>
struct form_of;
template <class T>
struct form_of<edm::type::scalar<T>> {
    static constexpr Form f = SCALAR;
    static constexpr std::size_t es = sizeof(T);
};
template <class T>
struct form_of<edm::type::vector<T>> {
    static constexpr Form f = VECTOR;
    static constexpr std::size_t es = sizeof(T);
};
template <class T>
struct form_of<edm::type::jagged_vector<T>> {
    static constexpr Form f = JAGGED;
    static constexpr std::size_t es = sizeof(T);
};
template <class S>
struct SoA;
template <class... V>
struct SoA<edm::schema<V...>> : Cont {
    using S = edm::schema<V...>;
    using CS = edm::details::add_const_t<S>;
    using Host = edm::host<S, NoIface>;
    static constexpr bool jagged = (is_jag<V>::value || ...);
    static constexpr bool vectors = ((form_of<V>::f != SCALAR) || ...);
    std::unique_ptr<edm::buffer<S>> b;
    std::unique_ptr<Host> h;
    std::unique_ptr<edm::data<S>> d;
    std::unique_ptr<edm::data<CS>> cd;
    edm::view<S> view() {
        if (b) return *b;
        d = std::make_unique<edm::data<S>>(vecmem::get_data(*h));
        return *d;
    }
    edm::view<CS> cview() {
        if (b) {
            const auto& x = *b;
            return vecmem::get_data(x);
        }
        const auto& x = *h;
        cd = std::make_unique<edm::data<CS>>(vecmem::get_data(x));
        return *cd;
    }
    template <std::size_t... I>
    static Raws all(Ctx& c, const edm::view<S>& v, std::index_sequence<I...>) {
        return {raw_of(c, v.template get<I>())...};
    }
    Raws raws(Ctx& c) override {
        return all(c, view(), std::index_sequence_for<V...>{});
    }
    void set_model(const Shape& s, bool resz) {
        m.clear();
        auto add = [&](Form f, std::size_t es) {
            Var var{f, es, {}};
            std::vector<std::size_t> caps;
            if (f == SCALAR) caps = {1};
            else if (f == VECTOR) caps = {s.size()};
            else caps = s;
            for (auto cap : caps) {
                Row r;
                r.cap = (uint)cap;
                r.resz = resz && (f == JAGGED || (f == VECTOR && !jagged));
                r.el.assign(cap, -1);
                var.rows.push_back(r);
            }
            m.push_back(var);
        };
        (add(form_of<V>::f, form_of<V>::es), ...);
    }
    template <std::size_t... I>
    void size_host(const Shape& s, std::index_sequence<I...>) {
        auto one = [&](auto& var) {
            using X = std::decay_t<decltype(var)>;
            if constexpr (requires_rows<X>::value) {
                for (std::size_t i = 0; i < s.size(); ++i) var[i].resize(s[i]);
            } else {
                (void)var;
            }
        };
        (one(h->template get<I>()), ...);
    }
    template <class X, class = void>
    struct requires_rows : std::false_type {};
    template <class X>
    struct requires_rows<X, std::void_t<decltype(std::declval<X&>()[0].resize(1))>>
        : std::true_type {};
    SoA(World& w, Kind k, const Shape& s) {
        name = KN[k];
        device = k == DFIX || k == DRES;
        buffer = k != HVEC;
        bool resz = k == HRES || k == DRES;
        set_model(s, resz);
        if (k == HVEC) {
            h = std::make_unique<Host>(w.host);
            if constexpr (vectors) h->resize(s.size());
            size_host(s, std::index_sequence_for<V...>{});
        } else {
            auto& mr = device ? (vecmem::memory_resource&)w.dev : w.host;
            auto t = resz ? vd::buffer_type::resizable : vd::buffer_type::fixed_size;
            if constexpr (jagged)
                b = std::make_unique<edm::buffer<S>>(s, mr, device ? &w.host2 : nullptr,
                                                     t);
            else if constexpr (vectors)
                b = std::make_unique<edm::buffer<S>>((uint)s.size(), mr, t);
            else
                b = std::make_unique<edm::buffer<S>>((uint)s.size(), mr,
                                                     vd::buffer_type::fixed_size);
            setup_new(w, *this, w.cp.setup(view()));
        }
    }
};
template <class S>
static void soa_run(Ctx& c, bool async) {
    World w(c, async);
    using C = SoA<S>;
    {
        auto shape = [&] {
            if (c.want_long && C::vectors && !C::jagged)
                return Shape(std::vector<std::size_t>{60, 9, 130}[c.choose(3)], 0);
            if constexpr (C::jagged) return pick_shape(c, async);
            else if constexpr (C::vectors) return Shape(std::vector<std::size_t>{0, 3, 1, 8}[c.choose(c.thorough ? 4 : 3)], 0);
            else return Shape(1, 0);
        };
        const unsigned nk = C::vectors ? 5 : 2;
        auto kind = [&] {
            unsigned k = c.choose(nk);
            return C::vectors ? (Kind)k : k ? DFIX : HVEC;
        };
        Kind ks = kind();
        Kind kd = kind();
        unsigned depth = c.steps(2, LONG);
        const bool many = c.want_long && C::jagged;
        Shape ss = many ? long_shape(c, nullptr) : shape();
        Shape sd = many ? long_shape(c, &ss) : shape();
        const bool rows = !C::jagged || ss.size() == sd.size();
        if (!rows && (async || ss.empty() || sd.empty() || ss[0] != 2)) c.cut();
        c.note("A: %s of %s, B: %s of %s", KN[ks], shape_str(ss).c_str(), KN[kd],
               shape_str(sd).c_str());
        C a(w, ks, ss), b(w, kd, sd);
        const bool ra = ks == HRES || ks == DRES, rb = kd == HRES || kd == DRES;
        fill(c, a, ra && !ss.empty() ? c.choose(async ? 2 : C::jagged ? 4 : 3) : 0);
        fill(c, b, rb && !sd.empty() ? 2 * c.choose(2) : 0);
        if (!rows) depth = 1;
        const bool all_ops = c.thorough || c.lin();
        unsigned first = 0;
        for (unsigned d = 0; d < depth; ++d) try {
            const char* what = "";
            if (!all_ops && d && (first == 4 || first == 5)) break;
            unsigned op = c.choose(!rows ? 1 : !all_ops && d ? 2 : 7);
            first = op;
            switch (op) {
                case 0:
                    c.op("copy A to B");
                    what = "copy";
                    if (!do_step(w, a, b, what, b.buffer, [&] {
                            return w.cp(a.cview(), b.view(), w.type(a, b));
                        }))
                        return;
                    break;
                case 1:
                    c.op("copy B to A");
                    what = "copy";
                    if (!do_step(w, b, a, what, a.buffer, [&] {
                            return w.cp(b.cview(), a.view(), w.type(b, a));
                        }))
                        return;
                    break;
                case 2:
                    if (!b.buffer) c.cut();
                    c.op("setup B");
                    what = "setup";
                    w.finish(w.cp.setup(b.view()), what, true);
                    model_setup(b);
                    break;
                case 3: {
                    int v = 0xc0 + (int)d;
                    c.op("memset B to %d", v);
                    what = "memset";
                    w.finish(w.cp.memset(b.view(), v), what, true);
                    model_memset(b, v);
                    break;
                }
                case 4: {
                    c.op("get_size");
                    what = "get_size";
                    auto expect = [&](C& x, const Shape& s) -> uint {
                        if (C::jagged) return (uint)s.size();
                        for (auto& v : x.m)
                            if (v.form == VECTOR) return row_size(v.rows[0]);
                        return (uint)s.size();
                    };
                    uint x = w.cp.get_size(a.view()), y = w.cp.get_size(b.view());
                    if (C::vectors) {
                        c.require(x == expect(a, ss), "get_size(A) = %u", x);
                        c.require(y == expect(b, sd), "get_size(B) = %u", y);
                    }
                    break;
                }
                case 5: {
                    unsigned n0 = c.choose(2);
                    c.op("A to a host container (of %u elements)", n0 * 4);
                    what = "copy to host container";
                    C t(w, HVEC, Shape(n0 * 4, 2));
                    t.name = "the host container";
                    w.finish(w.cp(a.cview(), *t.h, w.type(a.device, false)), what,
                             false);
                    // every row now has the size of the source's
                    t.m = a.m;
                    for (auto& v : t.m)
                        for (auto& r : v.rows) {
                            r.cap = row_size(r);
                            r.el.resize(r.cap);
                            r.resz = false;
                        }
                    check(c, t, what);
                    break;
                }
                default: {
                    w.cp.drain();
                    unsigned p = ra ? c.choose(C::jagged ? 4 : 3) : 0;
                    c.op("new contents for A (%u)", p);
                    what = "kernel";
                    fill(c, a, p);
                }
            }
            w.check_err(what);
            if (w.idle()) {
                check(c, a, what);
                check(c, b, what);
            }
            c.state(model_hash(a, model_hash(b, 1)));
        } catch (mc::Next&) {
        }
        w.cp.drain();
        check(c, a, "at the end");
        check(c, b, "at the end");
    }
    w.check_err("after destroying the buffers");
    c.require(w.host.live.empty() && w.host2.live.empty() && w.dev.live.empty(),
              "memory is leaked");
}
static void soa(Ctx& c, bool async) {
    switch (c.choose(async ? 4 : 6)) {
        case 0: soa_run<S0>(c, async); break;
        case 1: soa_run<S1>(c, async); break;
        case 2: soa_run<S2>(c, async); break;
        case 3: soa_run<S3>(c, async); break;
        case 4: soa_run<S4>(c, async); break;
        default: soa_run<S5>(c, async);
    }
}

// ------------------------------------------------------------------ C19
struct Region {
    std::uintptr_t at;
    std::size_t n, al;
    bool meta;  // description of the rows, in host accessible memory if asked for
    std::string what;
};
static std::string nm(const char* w, std::size_t v, std::size_t r) {
    return std::string(w) + " of variable " + std::to_string(v) + " row " +
           std::to_string(r);
}
struct Want {
    Form form;
    std::size_t es, al;
    Shape caps;
    bool resz;
};
struct Regions {
    Ctx& c;
    bool split;  // descriptions are separate from the device's
    std::vector<Want> want;
    std::vector<Region> out;
    std::set<const void*> sizes;
    void add(const void* p, std::size_t n, std::size_t al, bool meta,
             const std::string& what) {
        out.push_back({(std::uintptr_t)p, n, al, meta, what});
    }
    template <class T>
    void row(std::size_t v, std::size_t r, const vd::vector_view<T>& x) {
        const Want& w = want[v];
        c.require(x.capacity() == w.caps[r], "capacity of variable %zu row %zu is %u",
                  v, r, x.capacity());
        if (w.caps[r])
            add(x.ptr(), w.caps[r] * w.es, w.al, false, nm("elements", v, r));
        if (w.resz) {
            c.require(x.size_ptr() != nullptr || w.caps[r] == 0,
                      "no size for variable %zu row %zu", v, r);
            if (x.size_ptr() && sizes.insert(x.size_ptr()).second)
                add(x.size_ptr(), sizeof(uint), alignof(uint), false,
                    nm("size", v, r));
        } else
            c.require(x.size_ptr() == nullptr, "a fixed row is resizable");
    }
    template <class T>
    void var(std::size_t v, T* const& p) {
        add(p, sizeof(T), alignof(T), false, nm("scalar", v, 0));
    }
    template <class T>
    void var(std::size_t v, const vd::vector_view<T>& x) {
        row(v, 0, x);
    }
    template <class T>
    void var(std::size_t v, const vd::jagged_vector_view<T>& x) {
        const Want& w = want[v];
        using D = vd::vector_view<T>;
        c.require(x.size() == w.caps.size(), "variable %zu has %zu rows", v, x.size());
        if (w.caps.empty()) return;
        add(x.host_ptr(), sizeof(D) * w.caps.size(), alignof(D), true,
            nm("descriptions", v, 0));
        if (split)
            add(x.ptr(), sizeof(D) * w.caps.size(), alignof(D), false,
                nm("device descriptions", v, 0));
        else
            c.require(x.ptr() == x.host_ptr(), "two descriptions of the rows");
        for (std::size_t r = 0; r < x.size(); ++r) {
            c.require(!Dev::in(&x.host_ptr()[r]), "descriptions in device memory");
            row(v, r, x.host_ptr()[r]);
        }
    }
};
template <class T>
struct B1D {
    using Buf = vd::vector_buffer<T>;
    static constexpr unsigned max_blocks = 1;
    static constexpr bool shaped = false;
    static Buf make(const Shape& s, vecmem::memory_resource& mr,
                    vecmem::memory_resource*, vd::buffer_type t, unsigned) {
        return Buf((uint)s.size(), mr, t);
    }
    static void want(Regions& r, const Shape& s, bool resz) {
        r.want = {{VECTOR, sizeof(T), alignof(T), {s.size()}, resz}};
    }
    static void walk(Regions& r, Buf& b) { r.var(0, vecmem::get_data(b)); }
};
template <class T>
struct B2D {
    using Buf = vd::jagged_vector_buffer<T>;
    static constexpr unsigned max_blocks = 3;
    static constexpr bool shaped = true;
    static Buf make(const Shape& s, vecmem::memory_resource& mr,
                    vecmem::memory_resource* h, vd::buffer_type t, unsigned how) {
        if (how == 0) return Buf(s, mr, h, t);
        if (how == 1) return Buf(std::vector<uint>(s.begin(), s.end()), mr, h, t);
        std::vector<vd::vector_view<T>> rows;
        for (auto x : s) rows.emplace_back((uint)x, nullptr);
        vd::jagged_vector_view<T> v(rows.size(), rows.data());
        return Buf(v, mr, h, t);
    }
    static void want(Regions& r, const Shape& s, bool resz) {
        r.want = {{JAGGED, sizeof(T), alignof(T), s, resz}};
    }
    static void walk(Regions& r, Buf& b) { r.var(0, vecmem::get_data(b)); }
};
template <class S>
struct BSoA;
template <class... V>
struct BSoA<edm::schema<V...>> {
    using Buf = edm::buffer<edm::schema<V...>>;
    static constexpr unsigned max_blocks = 2;
    static constexpr bool shaped = (is_jag<V>::value || ...);
    static Buf make(const Shape& s, vecmem::memory_resource& mr,
                    vecmem::memory_resource* h, vd::buffer_type t, unsigned how) {
        (void)h;
        (void)how;
        if constexpr (shaped) {
            if (how) return Buf(std::vector<uint>(s.begin(), s.end()), mr, h, t);
            return Buf(s, mr, h, t);
        } else
            return Buf((uint)s.size(), mr, t);
    }
    static void want(Regions& r, const Shape& s, bool resz) {
        auto one = [&](Form f, std::size_t es, std::size_t al) {
            r.want.push_back({f, es, al, f == JAGGED ? s : Shape{s.size()},
                              resz && (f == JAGGED || (f == VECTOR && !shaped))});
        };
        (one(form_of<V>::f, form_of<V>::es, alignof(typename V::type)), ...);
    }
    template <std::size_t... I>
    static void walk_i(Regions& r, Buf& b, std::index_sequence<I...>) {
        (r.var(I, b.template get<I>()), ...);
    }
    static void walk(Regions& r, Buf& b) {
        walk_i(r, b, std::index_sequence_for<V...>{});
        // The description as a whole, and the copy of it for the host.
        const auto d = b.layout(), h = b.host_layout();
        r.c.require(d.size() == h.size(), "the host has %u of %u bytes of description",
                    (unsigned)h.size(), (unsigned)d.size());
        if (!r.split)
            r.c.require(d.ptr() == h.ptr(), "an unneeded description for the host");
        else if (d.size())
            r.c.require(h.ptr() && h.ptr() != d.ptr(), "no description for the host");
    }
};
template <class X>
static void buffers_run(Ctx& c) {
    err.clear();
    MR host, layout;
    Dev dev;
    struct Slot {
        std::unique_ptr<typename X::Buf> b;
        bool live = false;  // not moved from
        Shape s;
        bool device, split, resz;
        unsigned char tag;
        std::vector<Region> regs;
    } sl[2];
    unsigned char tag = 0;
    auto blocks = [&] {
        return host.live.size() + layout.live.size() + dev.live.size();
    };
    auto shape = [&]() -> Shape {
        if (c.lin()) {
            static const std::vector<std::size_t> big = {17, 100, 256, 3, 1000, 0};
            if (X::shaped) return long_shape(c, nullptr);
            return Shape(big[c.choose(6)], 0);
        }
        if (X::shaped) {
            static const std::vector<Shape> some = {{1, 2, 0}, {}, {0},
                                                    {0, 0, 1}, {3}, {1, 1}};
            if (!c.thorough) return c.pick(some);
            Shape s(c.choose(4));
            for (auto& x : s) x = c.choose(4);
            return s;
        }
        static const std::vector<std::size_t> some = {3, 0, 1, 2, 5, 17};
        return Shape(some[c.choose(c.thorough ? 6 : 4)], 0);
    };
    auto regions = [&](Slot& s) {
        Regions r{c, s.split, {}, {}, {}};
        X::want(r, s.s, s.resz);
        X::walk(r, *s.b);
        return r.out;
    };
    auto paint = [&](Slot& s, bool write) {
        for (auto& g : s.regs) {
            if (g.what[0] == 'd') continue;  // descriptions are the library's
            auto* p = acc((unsigned char*)g.at);
            for (std::size_t i = 0; i < g.n; ++i)
                if (write) p[i] = s.tag;
                else
                    c.require(p[i] == s.tag, "%s: byte %zu is overwritten",
                              g.what.c_str(), i);
        }
    };
    auto verify = [&] {
        std::vector<Region> all;
        for (auto& s : sl) {
            if (!s.live) continue;
            auto now = regions(s);
            c.require(now.size() == s.regs.size(), "another layout after a move");
            for (std::size_t i = 0; i < now.size(); ++i)
                c.require(now[i].at == s.regs[i].at, "%s has moved",
                          now[i].what.c_str());
            for (auto& g : now) {
                c.require(g.at != 0, "%s: no memory", g.what.c_str());
                c.require(g.at % g.al == 0, "%s is not aligned to %zu",
                          g.what.c_str(), g.al);
                MR& mr = g.meta && s.split ? layout : s.device ? (MR&)dev : host;
                c.require(mr.owner((void*)g.at, g.n) != 0,
                          "%s is outside of the memory taken from the %s resource",
                          g.what.c_str(),
                          g.meta && s.split ? "host layout" : "main");
                for (auto& o : all)
                    c.require(g.at + g.n <= o.at || o.at + o.n <= g.at,
                              "%s overlaps %s", g.what.c_str(), o.what.c_str());
                all.push_back(g);
            }
            paint(s, false);
        }
        c.require(err.empty(), "%s", err.c_str());
        c.require(dev.intact(), "device memory which is not held was changed");
    };
    auto create = [&](Slot& s, bool first) {
        if (first) s.s = shape();
        else if (c.thorough) s.s = c.choose(2) ? Shape{} : Shape{2, 1};
        else s.s = {2, 1};
        unsigned place = c.choose(X::shaped ? 3 : 2);
        s.device = X::shaped ? place == 1 : place == 1;
        s.split = place != 0 && X::shaped;
        // host memory with a separate description is allowed as well
        s.resz = c.choose(2);
        unsigned how = X::shaped && first ? c.choose(X::max_blocks == 3 ? 3 : 2) : 0;
        MR& mr = s.device ? (MR&)dev : host;
        auto t = s.resz ? vd::buffer_type::resizable : vd::buffer_type::fixed_size;
        unsigned fail = first ? c.choose(4) : 0;
        unsigned failed_mr = fail == 3 ? 1 : 0;
        if (failed_mr && !s.split) {
            if (c.stop()) c.cut();
            failed_mr = fail = 0;
        }
        (failed_mr ? layout : mr).fail_at = failed_mr ? 1 : fail;
        (failed_mr ? layout : mr).n_alloc = 0;
        c.op("create (%s%s%s) %s, allocation %u fails", s.device ? "device" : "host",
             s.split ? " with host layout" : "", s.resz ? ", resizable" : "",
             shape_str(X::shaped ? s.s : Shape{s.s.size()}).c_str(), fail);
        std::size_t before = blocks();
        bool ok = false;
        s.b.reset();
        c.require(blocks() <= before, "destroying a buffer takes memory");
        before = blocks();
        s.live = false;
        try {
            s.b = std::make_unique<typename X::Buf>(
                X::make(s.s, mr, s.split ? &layout : nullptr, t, how));
            ok = true;
        } catch (const std::bad_alloc&) {
            c.require(blocks() == before, "a failed construction leaks memory");
            c.require((failed_mr ? layout : mr).fail_at &&
                          (failed_mr ? layout : mr).n_alloc >=
                              (failed_mr ? layout : mr).fail_at,
                      "std::bad_alloc although no allocation failed");
        }
        bool hit = (failed_mr ? layout : mr).fail_at &&
                   (failed_mr ? layout : mr).n_alloc >=
                       (failed_mr ? layout : mr).fail_at;
        (failed_mr ? layout : mr).fail_at = 0;
        c.require(ok != hit, "a failing allocation was not reported");
        if (!ok) {
            c.count("failed constructions");
            return;
        }
        c.require(blocks() - before <= X::max_blocks, "%zu blocks of memory",
                  blocks() - before);
        s.live = true;
        s.tag = (unsigned char)++tag;
        s.regs = regions(s);
        paint(s, true);
    };
    const unsigned depth = c.steps(c.thorough ? 3 : 2, 20);
    create(sl[0], true);
    verify();
    for (unsigned d = 0; d < depth; ++d) try {
        switch (c.choose(5)) {
            case 0:
                if (c.lin()) create(sl[c.choose(2)], true);
                else create(sl[1], false);
                break;
            case 1: {  // move construction, into the other slot
                c.op("move construct");
                if (!sl[0].b) c.cut();
                auto n = std::make_unique<typename X::Buf>(std::move(*sl[0].b));
                sl[1].b = std::move(n);
                auto* keep = sl[0].b.release();
                sl[1].s = sl[0].s;
                sl[1].device = sl[0].device;
                sl[1].split = sl[0].split;
                sl[1].resz = sl[0].resz;
                sl[1].tag = sl[0].tag;
                sl[1].regs = sl[0].regs;
                sl[1].live = sl[0].live;
                sl[0].live = false;
                sl[0].b.reset(keep);
                break;
            }
            case 2: {
                c.op("move assign");
                if (!sl[0].b || !sl[1].b) c.cut();
                *sl[1].b = std::move(*sl[0].b);
                sl[1].s = sl[0].s;
                sl[1].device = sl[0].device;
                sl[1].split = sl[0].split;
                sl[1].resz = sl[0].resz;
                sl[1].tag = sl[0].tag;
                sl[1].regs = sl[0].regs;
                sl[1].live = sl[0].live;
                sl[0].live = false;
                break;
            }
            case 3:
                c.op("destroy");
                if (!sl[0].b) c.cut();
                sl[0].b.reset();
                sl[0].live = false;
                if (!sl[1].b) c.require(blocks() == 0, "memory is leaked");
                break;
            default: {
                c.op("assign an empty buffer");
                if (!sl[0].b) c.cut();
                *sl[0].b = typename X::Buf();
                sl[0].live = false;
                if (!sl[1].live) c.require(blocks() == 0, "memory is kept");
            }
        }
        verify();
        c.state(mc::mix(mc::mix(blocks(), sl[0].live * 2 + sl[1].live),
                        sl[0].s.size() * 16 + sl[1].s.size()));
    } catch (mc::Next&) {
    }
    sl[0].b.reset();
    sl[0].live = false;
    verify();
    sl[1].b.reset();
    sl[1].live = false;
    verify();
    c.require(blocks() == 0, "memory is leaked");
}
static void buffers(Ctx& c) {
    switch (c.choose(12)) {
        case 0: buffers_run<B1D<int>>(c); break;
        case 1: buffers_run<B1D<Blob<1, 1>>>(c); break;
        case 2: buffers_run<B1D<Blob<24, 8>>>(c); break;
        case 3: buffers_run<B1D<Blob<64, 64>>>(c); break;
        case 4: buffers_run<B2D<int>>(c); break;
        case 5: buffers_run<B2D<Blob<64, 64>>>(c); break;
        case 6: buffers_run<BSoA<S0>>(c); break;
        case 7: buffers_run<BSoA<S1>>(c); break;
        case 8: buffers_run<BSoA<S2>>(c); break;
        case 9: buffers_run<BSoA<S3>>(c); break;
        case 10: buffers_run<BSoA<S4>>(c); break;
        default: buffers_run<BSoA<S5>>(c);
    }
}

static void one_now(Ctx& c) { one(c, false); }
static void one_late(Ctx& c) { one(c, true); }
static void jag_now(Ctx& c) { jag(c, false); }
static void jag_late(Ctx& c) { jag(c, true); }
static void soa_now(Ctx& c) { soa(c, false); }
static void soa_late(Ctx& c) { soa(c, true); }

int main(int argc, char** argv) {
    return mc::run_main(
        argc, argv,
        {{"buffers", buffers, 4, "C19"},
         {"buffers_long", mc::longer<buffers>, 3, "C19"},
         {"1D_copies", one_now, 4, "C20"},
         {"1D_copies_long", mc::longer<one_now>, 4, "C20"},
         {"jagged_copies", jag_now, 5, "C21"},
         {"jagged_copies_long", mc::longer<jag_now>, 4, "C21"},
         {"SoA_copies", soa_now, 5, "C22"},
         {"SoA_copies_long", mc::longer<soa_now>, 4, "C22"},
         {"asynchronous_1D_copies", one_late, 5, "C23"},
         {"asynchronous_1D_copies_long", mc::longer<one_late>, 4, "C23"},
         {"asynchronous_jagged_copies", jag_late, 6, "C23"},
         {"asynchronous_jagged_copies_long", mc::longer<jag_late>, 4, "C23"},
         {"asynchronous_SoA_copies", soa_late, 6, "C23"},
         {"asynchronous_SoA_copies_long", mc::longer<soa_late>, 4, "C23"}});
}
