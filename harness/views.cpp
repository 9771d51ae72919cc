// Views of host data, and SoA containers.
//   C27 SoA containers: host, data, view, device, proxies
//   C28 views of vectors, arrays and jagged vectors
#include <array>
#include <memory>
#include <stdexcept>
#include <tuple>
#include <vector>
#include <vecmem/containers/array.hpp>
#include <vecmem/containers/data/jagged_vector_buffer.hpp>
#include <vecmem/containers/data/vector_buffer.hpp>
#include <vecmem/containers/device_vector.hpp>
#include <vecmem/containers/jagged_device_vector.hpp>
#include <vecmem/containers/jagged_vector.hpp>
#include <vecmem/containers/vector.hpp>
#include <vecmem/edm/container.hpp>

#include "mc.hpp"
#include "mem.hpp"

using mc::Ctx;
using std::size_t;
namespace edm = vecmem::edm;

// ------------------------------------------------------------------ C27
enum Form { SCALAR, VECTOR, JAGGED };
template <class V>
struct info;
template <class T>
struct info<edm::type::scalar<T>> {
    static constexpr Form f = SCALAR;
    using E = T;
};
template <class T>
struct info<edm::type::vector<T>> {
    static constexpr Form f = VECTOR;
    using E = T;
};
template <class T>
struct info<edm::type::jagged_vector<T>> {
    static constexpr Form f = JAGGED;
    using E = T;
};

// The interface of the containers and of the proxies to their elements.
template <class BASE>
struct Face : public BASE {
    using BASE::BASE;
    template <size_t I>
    decltype(auto) var() {
        return BASE::template get<I>();
    }
    template <size_t I>
    decltype(auto) var() const {
        return BASE::template get<I>();
    }
};

struct MV {
    Form f;
    int s = 0;
    std::vector<int> v;
    std::vector<std::vector<int>> j;
    size_t size() const { return f == VECTOR ? v.size() : j.size(); }
};

template <class... V>
struct Soa {
    using C = edm::container<Face, V...>;
    using Host = typename C::host;
    using View = typename C::view;
    using CView = typename C::const_view;
    using Data = typename C::data;
    using CData = typename C::const_data;
    using Dev = typename C::device;
    using CDev = typename C::const_device;
    static constexpr size_t N = sizeof...(V);
    static constexpr bool has_vec = ((info<V>::f != SCALAR) || ...);
    using Idx = std::make_index_sequence<N>;
    template <size_t I>
    using At = std::tuple_element_t<I, std::tuple<V...>>;
    using Model = std::array<MV, N>;

    static Model fresh() {
        Model m;
        size_t i = 0;
        ((m[i++].f = info<V>::f), ...);
        return m;
    }
    // The common size of the variables, or -1.
    static int common(const Model& m) {
        int n = -2;
        for (auto& v : m) {
            if (v.f == SCALAR) continue;
            if (n != -2 && n != (int)v.size()) return -1;
            n = (int)v.size();
        }
        return n;
    }
    template <class F, size_t... I>
    static void each(F f, std::index_sequence<I...>) {
        (f(std::integral_constant<size_t, I>{}), ...);
    }

    // Addresses of all elements, from the variables of the host container.
    using Addr = std::array<std::vector<std::vector<const void*>>, N>;
    static Addr addresses(const Host& h) {
        Addr a;
        each(
            [&](auto ic) {
                constexpr size_t I = decltype(ic)::value;
                auto& r = a[I];
                if constexpr (info<At<I>>::f == SCALAR)
                    r = {{&h.template get<I>()}};
                else if constexpr (info<At<I>>::f == VECTOR) {
                    r.resize(1);
                    for (auto& x : h.template get<I>()) r[0].push_back(&x);
                } else {
                    for (auto& row : h.template get<I>()) {
                        r.emplace_back();
                        for (auto& x : row) r.back().push_back(&x);
                    }
                }
            },
            Idx{});
        return a;
    }

    // One element of a variable, through a proxy.
    template <size_t I, class PROXY>
    static void read_proxy(Ctx& c, const char* what, PROXY& p, size_t k,
                           const Model& m, const Addr& a) {
        using T = typename info<At<I>>::E;
        auto& x = p.template get<I>();
        auto& y = p.template var<I>();
        c.require(&x == &y, "%s: interface of a proxy", what);
        if constexpr (info<At<I>>::f == SCALAR) {
            c.require(&x == a[I][0][0] && x == (T)m[I].s,
                      "%s: scalar %zu through the proxy of %zu", what, I, k);
        } else if constexpr (info<At<I>>::f == VECTOR) {
            c.require(&x == a[I][0][k] && x == (T)m[I].v[k],
                      "%s: variable %zu through the proxy of %zu", what, I, k);
        } else {
            c.require(x.size() == m[I].j[k].size(),
                      "%s: size of row %zu of variable %zu through its proxy", what,
                      k, I);
            for (size_t e = 0; e < m[I].j[k].size(); ++e) {
                auto& z = x[(unsigned)e];
                c.require(&z == a[I][k][e] && z == (T)m[I].j[k][e],
                          "%s: element %zu of row %zu of variable %zu through its "
                          "proxy",
                          what, e, k, I);
            }
        }
    }
    // Everything that can be read from a container.
    template <class CONT>
    static void read(Ctx& c, const char* what, CONT& h, const Model& m,
                     const Addr& a) {
        each(
            [&](auto ic) {
                constexpr size_t I = decltype(ic)::value;
                using T = typename info<At<I>>::E;
                auto& x = h.template get<I>();
                auto& y = h.template var<I>();
                if constexpr (info<At<I>>::f == SCALAR) {
                    c.require(&x == &y, "%s: interface", what);
                    c.require(&x == a[I][0][0] && x == (T)m[I].s,
                              "%s: scalar variable %zu", what, I);
                } else if constexpr (info<At<I>>::f == VECTOR) {
                    c.require(&x == &y, "%s: interface", what);
                    c.require(x.size() == m[I].v.size(), "%s: size of variable %zu",
                              what, I);
                    for (size_t k = 0; k < m[I].v.size(); ++k) {
                        auto& z = x[(unsigned)k];
                        c.require(&z == a[I][0][k] && z == (T)m[I].v[k],
                                  "%s: element %zu of variable %zu", what, k, I);
                    }
                } else {
                    c.require(x.size() == m[I].j.size(), "%s: size of variable %zu",
                              what, I);
                    for (size_t k = 0; k < m[I].j.size(); ++k) {
                        auto&& row = x[(unsigned)k];
                        c.require(row.size() == m[I].j[k].size(),
                                  "%s: size of row %zu of variable %zu", what, k, I);
                        for (size_t e = 0; e < m[I].j[k].size(); ++e) {
                            auto& z = row[(unsigned)e];
                            c.require(&z == a[I][k][e] && z == (T)m[I].j[k][e],
                                      "%s: element %zu of row %zu of variable %zu",
                                      what, e, k, I);
                        }
                    }
                }
            },
            Idx{});
        if constexpr (has_vec) {
            const int n = common(m);
            if (n < 0) return;
            c.require(h.size() == (size_t)n, "%s: size()", what);
            using S = typename CONT::size_type;
            for (int k = 0; k < n; ++k) {
                auto p = h[(S)k];
                const auto q = h.at((S)k);
                each(
                    [&](auto ic) {
                        constexpr size_t I = decltype(ic)::value;
                        read_proxy<I>(c, what, p, (size_t)k, m, a);
                        read_proxy<I>(c, what, q, (size_t)k, m, a);
                    },
                    Idx{});
            }
        }
    }
    template <class CONT>
    static void read_both(Ctx& c, const char* what, CONT& h, const Model& m,
                          const Addr& a) {
        read(c, what, h, m, a);
        read(c, what, static_cast<const CONT&>(h), m, a);
    }
    template <class VIEW>
    static void view_is(Ctx& c, const char* what, const VIEW& v, const Model& m,
                        const Addr& a) {
        const int n = common(m);
        c.require(v.capacity() == (unsigned)(n < 0 ? 0 : n), "%s: capacity()", what);
        c.require(v.size().ptr() == nullptr && v.size().capacity() == 0 &&
                      v.payload().ptr() == nullptr && v.payload().capacity() == 0 &&
                      v.layout().ptr() == nullptr && v.layout().capacity() == 0 &&
                      v.host_layout().ptr() == nullptr &&
                      v.host_layout().capacity() == 0,
                  "%s: claims a block of memory for all variables", what);
        each(
            [&](auto ic) {
                constexpr size_t I = decltype(ic)::value;
                auto& x = v.template get<I>();
                if constexpr (info<At<I>>::f == SCALAR)
                    c.require(x == a[I][0][0], "%s: variable %zu", what, I);
                else if constexpr (info<At<I>>::f == VECTOR)
                    c.require(x.size() == m[I].v.size() &&
                                  x.capacity() == m[I].v.size() &&
                                  x.size_ptr() == nullptr &&
                                  (m[I].v.empty() || x.ptr() == a[I][0][0]),
                              "%s: variable %zu", what, I);
                else {
                    c.require(x.size() == m[I].j.size() && x.ptr() == x.host_ptr(),
                              "%s: variable %zu", what, I);
                    for (size_t k = 0; k < m[I].j.size(); ++k) {
                        auto& r = x.ptr()[k];
                        c.require(r.size() == m[I].j[k].size() &&
                                      r.capacity() == m[I].j[k].size() &&
                                      r.size_ptr() == nullptr &&
                                      (m[I].j[k].empty() || r.ptr() == a[I][k][0]),
                                  "%s: row %zu of variable %zu", what, k, I);
                    }
                }
            },
            Idx{});
    }

    static void check(Ctx& c, const char* what, Host& h, const Model& m, Mem& hm,
                      Mem& dm) {
        const Host& ch = h;
        const Addr a = addresses(h);
        const int n = common(m);
        read_both(c, what, h, m, a);
        if constexpr (has_vec) {
            if (n == -1) {
                // The variables do not agree on a size.
                for (int k = 0; k < 3; ++k) {
                    bool thrown = false;
                    try {
                        if (k == 0) (void)ch.size();
                        if (k == 1) (void)vecmem::get_data(h, &dm);
                        if (k == 2) (void)vecmem::get_data(ch, &dm);
                    } catch (const std::length_error&) {
                        thrown = true;
                    }
                    c.require(thrown, "%s: inconsistent sizes were not noticed", what);
                }
                c.require(dm.live.empty(), "%s: memory is left", what);
                return;
            }
            for (size_t bad : {(size_t)n, (size_t)n + 1, ~size_t(0)}) {
                bool t1 = false, t2 = false;
                try {
                    (void)h.at(bad);
                } catch (const std::out_of_range&) {
                    t1 = true;
                }
                try {
                    (void)ch.at(bad);
                } catch (const std::out_of_range&) {
                    t2 = true;
                }
                c.require(t1 && t2, "%s: at(%zu) of %d elements", what, bad, n);
            }
        }
        // All descriptions of it, and the device containers over those, in memory
        // of the given resource or of the container's own.
        for (int own = 0; own < 2; ++own) {
            Mem& used = own ? hm : dm;
            Mem& other = own ? dm : hm;
            vecmem::memory_resource* r = own ? nullptr : &dm;
            const size_t other_asked = other.asked.size();
            const size_t before = used.live.size();
            {
                // The stack holds garbage to begin with.
                { volatile unsigned char junk[2048]; for (auto& b : junk) b = 0xa7; }
                Data d = vecmem::get_data(h, r);
                CData cd = vecmem::get_data(ch, r);
                view_is(c, "data", d, m, a);
                view_is(c, "constant data", cd, m, a);
                View v = vecmem::get_data(d);
                view_is(c, "view", v, m, a);
                const Data& kd = d;
                CView cv = vecmem::get_data(kd);
                view_is(c, "constant view of data", cv, m, a);
                CView cv2{v};
                view_is(c, "converted view", cv2, m, a);
                CView cv3 = vecmem::get_data(cd);
                view_is(c, "view of constant data", cv3, m, a);
                View w{};
                w = v;
                view_is(c, "assigned view", w, m, a);
                CView cw{};
                cw = v;
                view_is(c, "assigned constant view", cw, m, a);
                {
                    Data d2(std::move(d));
                    view_is(c, "moved data", d2, m, a);
                    Data d3;
                    d3 = std::move(d2);
                    view_is(c, "move assigned data", d3, m, a);
                    Dev dev(w);
                    c.require(dev.capacity() == (unsigned)(n < 0 ? 0 : n),
                              "device container: capacity()");
                    read_both(c, "device container", dev, m, a);
                    CDev cdev(cw);
                    read_both(c, "constant device container", cdev, m, a);
                    CDev cdev2(cv3);
                    read_both(c, "constant device container of constant data", cdev2,
                              m, a);
                }
            }
            c.require(used.live.size() == before,
                      "%s: memory of descriptions is left", what);
            c.require(other.asked.size() == other_asked,
                      "%s: a description took memory of another resource", what);
            c.require(used.err.empty(), "%s: %s", what, used.err.c_str());
        }
    }

    // Write one element, of variable I, through one of the access paths.
    template <size_t I>
    static void write(Ctx& c, Host& h, Model& m, Mem& dm, int nv) {
        using T = typename info<At<I>>::E;
        const int n = common(m);
        size_t k = 0, e = 0;
        if (info<At<I>>::f != SCALAR) {
            if (m[I].size() == 0) c.cut();
            k = c.choose((unsigned)m[I].size());
        } else if (n > 0)
            k = c.choose((unsigned)n);
        if (info<At<I>>::f == JAGGED) {
            if (m[I].j[k].empty()) c.cut();
            e = c.choose((unsigned)m[I].j[k].size());
        }
        const unsigned path = c.choose(8);
        c.op("write variable %zu [%zu][%zu] path %u", I, k, e, path);
        if (path && n == -1) c.cut();
        const bool proxies = path == 1 || path == 2 || path == 4 || path == 5;
        if (proxies && n <= 0) c.cut();
        auto put = [&](auto& x) {  // variable
            if constexpr (info<At<I>>::f == SCALAR) x = (T)nv;
            else if constexpr (info<At<I>>::f == VECTOR) x[(unsigned)k] = (T)nv;
            else {
                auto&& row = x[(unsigned)k];
                row[(unsigned)e] = (T)nv;
            }
        };
        auto putp = [&](auto&& p) {  // proxy
            auto& x = p.template get<I>();
            if constexpr (info<At<I>>::f == JAGGED) x[(unsigned)e] = (T)nv;
            else x = (T)nv;
        };
        if (path == 0) put(h.template get<I>());
        if constexpr (has_vec) {
            if (path == 1) putp(h[k]);
            if (path == 2) putp(h.at(k));
        }
        if (path >= 3) {
            Data d = vecmem::get_data(h, &dm);
            View v = vecmem::get_data(d);
            Dev dev(v);
            if (path == 3) put(dev.template get<I>());
            if constexpr (has_vec) {
                if (path == 4) putp(dev[(unsigned)k]);
                if (path == 5) putp(dev.at((unsigned)k));
            }
            if (path == 6) {
                auto& x = v.template get<I>();
                if constexpr (info<At<I>>::f == SCALAR) *x = (T)nv;
                else if constexpr (info<At<I>>::f == VECTOR) x.ptr()[k] = (T)nv;
                else x.ptr()[k].ptr()[e] = (T)nv;
            }
            if (path == 7) put(dev.template var<I>());
        }
        if (info<At<I>>::f == SCALAR) m[I].s = nv;
        else if (info<At<I>>::f == VECTOR) m[I].v[k] = nv;
        else m[I].j[k][e] = nv;
    }
    // Change the size of one variable, or of one row of it.
    template <size_t I>
    static void resize_var(Ctx& c, Host& h, Model& m) {
        if constexpr (info<At<I>>::f == SCALAR) {
            c.cut();
        } else if constexpr (info<At<I>>::f == VECTOR) {
            const size_t n = c.choose(c.lin() ? 24 : 4);
            c.op("variable %zu resize %zu", I, n);
            h.template get<I>().resize(n);
            m[I].v.resize(n);
        } else {
            const unsigned k = c.choose((unsigned)m[I].j.size() + 1);
            const size_t n = c.choose(c.lin() ? 12 : 3);
            c.op("variable %zu row %u resize %zu", I, k, n);
            if (k == m[I].j.size()) {
                h.template get<I>().resize(n);
                m[I].j.resize(n);
            } else {
                h.template get<I>()[k].resize(n);
                m[I].j[k].resize(n);
            }
        }
    }
    template <size_t... I>
    static void write_any(Ctx& c, Host& h, Model& m, Mem& dm, int nv,
                          std::index_sequence<I...>) {
        const unsigned which = c.choose((unsigned)N);
        ((which == I ? write<I>(c, h, m, dm, nv) : void()), ...);
    }
    template <size_t... I>
    static void resize_any(Ctx& c, Host& h, Model& m, std::index_sequence<I...>) {
        const unsigned which = c.choose((unsigned)N);
        ((which == I ? resize_var<I>(c, h, m) : void()), ...);
    }
    static uint64_t hash(const Model& m) {
        uint64_t h = 1;
        for (auto& v : m) {
            h = mc::mix(h, (uint64_t)v.s + v.size() * 1000);
            for (int x : v.v) h = mc::mix(h, (uint64_t)x);
            for (auto& r : v.j) {
                h = mc::mix(h, r.size() + 77);
                for (int x : r) h = mc::mix(h, (uint64_t)x);
            }
        }
        return h;
    }

    static void run(Ctx& c) {
        Mem hm(c, "container's"), dm(c, "other");
        {
            auto h = std::make_unique<Host>(hm);
            Model m = fresh();
            c.require(&h->resource() == &hm, "resource()");
            // Scalars have no defined value to begin with.
            int nv = 1;
            each(
                [&](auto ic) {
                    constexpr size_t I = decltype(ic)::value;
                    if constexpr (info<At<I>>::f == SCALAR) {
                        h->template get<I>() = (typename info<At<I>>::E)nv;
                        m[I].s = nv++;
                    }
                },
                Idx{});
            check(c, "construction", *h, m, hm, dm);
            const unsigned depth = c.steps(c.thorough ? 4 : 3, c.thorough ? 60 : 25);
            for (unsigned step = 0; step < depth; ++step) try {
                const unsigned op = c.choose(6);
                if (op == 0) {
                    if constexpr (has_vec) {
                        const size_t n = c.choose(c.lin() ? 20 : 4);
                        c.op("resize %zu", n);
                        h->resize(n);
                        for (auto& v : m) {
                            if (v.f == VECTOR) v.v.resize(n);
                            if (v.f == JAGGED) v.j.resize(n);
                        }
                    } else
                        c.cut();
                } else if (op == 1) {
                    write_any(c, *h, m, dm, 10 + nv++, Idx{});
                } else if (op == 2) {
                    resize_any(c, *h, m, Idx{});
                } else if (op == 3) {
                    if constexpr (has_vec) {
                        const size_t n = 1 + c.choose(2) * 7;
                        c.op("reserve %zu", n);
                        h->reserve(n);
                        const Addr a = addresses(*h);
                        // Growing up to the reserved size moves no element.
                        const int k = common(m);
                        if (k >= 0 && (size_t)k < n) {
                            h->resize(n);
                            const Addr b = addresses(*h);
                            for (size_t i = 0; i < N; ++i)
                                for (size_t r = 0; r < a[i].size(); ++r)
                                    for (size_t e = 0; e < a[i][r].size(); ++e)
                                        c.require(a[i][r][e] == b[i][r][e],
                                                  "reserve: element moved later");
                            h->resize((size_t)k);
                        }
                    } else
                        c.cut();
                } else if (op == 4) {
                    const unsigned how = c.choose(4);
                    c.op("copy or move %u", how);
                    if (how == 0) {
                        auto o = std::make_unique<Host>(std::move(*h));
                        h = std::move(o);
                    } else if (how == 1) {
                        auto o = std::make_unique<Host>(hm);
                        *o = std::move(*h);
                        h = std::move(o);
                    } else if (how == 2) {
                        auto o = std::make_unique<Host>(hm);
                        *o = *h;
                        // independent of the original
                        check(c, "copied from", *h, m, hm, dm);
                        h = std::move(o);
                    } else {
                        Host& self = *h;
                        *h = self;
                    }
                    c.require(&h->resource() == &hm, "resource()");
                } else {
                    // Making a description fails.
                    const unsigned k = 1 + c.choose(3);
                    c.op("failing allocation %u", k);
                    dm.fail_at = k;
                    bool failed = false;
                    try {
                        auto d = vecmem::get_data(*h, &dm);
                        (void)d;
                    } catch (const std::bad_alloc&) {
                        failed = true;
                    } catch (const std::length_error&) {
                        c.require(common(m) == -1, "get_data");
                    }
                    c.require(failed == (dm.fail_at == 0), "a failure was not passed on");
                    dm.fail_at = 0;
                    c.require(dm.live.empty(), "failure: memory is left");
                    if (!failed && !c.lin()) c.cut();
                }
                check(c, "step", *h, m, hm, dm);
                c.state(hash(m));
            } catch (mc::Next&) {
            }
        }
        c.require(hm.live.empty() && dm.live.empty(), "end: memory is left");
        c.require(hm.err.empty(), "end: %s", hm.err.c_str());
        c.require(dm.err.empty(), "end: %s", dm.err.c_str());
        c.count("histories");
    }
};

// ------------------------------------------------------------------ C28
struct VM {  // what a view must be
    unsigned cap = 0;
    const unsigned* size = nullptr;
    const int* ptr = nullptr;
    bool operator==(const VM& o) const {
        return cap == o.cap && size == o.size && ptr == o.ptr;
    }
};
template <class VIEW>
static void vview_is(Ctx& c, const char* what, VIEW& v, const VM& m) {
    const VIEW& k = v;
    c.require(v.capacity() == m.cap, "%s: capacity %u, expected %u", what, v.capacity(),
              m.cap);
    c.require(v.size_ptr() == m.size && k.size_ptr() == m.size, "%s: size_ptr()", what);
    c.require(v.ptr() == m.ptr && k.ptr() == m.ptr, "%s: ptr()", what);
    c.require(v.size() == (m.size ? *m.size : m.cap), "%s: size()", what);
}
template <class A, class B>
static void eq(Ctx& c, const char* what, const A& a, const B& b, bool same) {
    c.require((a == b) == same && (b == a) == same && (a != b) == !same &&
                  (b != a) == !same,
              "%s: comparison, expected %s", what, same ? "equal" : "different");
}

static void vector_views(Ctx& c) {
    Mem mem(c, "resource");
    {
        using V = vecmem::data::vector_view<int>;
        using CV = vecmem::data::vector_view<const int>;
        static const std::vector<size_t> sizes = {2, 0, 1}, big = {9, 33, 2000};
        const size_t n = c.pick(c.want_long ? big : sizes);
        const unsigned depth = c.steps(c.thorough ? 4 : 3);
        std::vector<int> a(n, 5);
        vecmem::vector<int> b(c.want_long ? 100 - n % 50 : 3 - n, 6, &mem);
        b.reserve(7);
        vecmem::array<int, 2> e(mem);
        vecmem::array<int> g(mem, n);
        vecmem::data::vector_buffer<int> f((unsigned)n, mem);
        vecmem::data::vector_buffer<int> r(3, mem, vecmem::data::buffer_type::resizable);
        if (r.size_ptr()) *r.size_ptr() = 1;
        unsigned word = 2, word2 = 2;
        int raw[3] = {1, 2, 3};
        V v[2] = {V(0, nullptr), V(0, nullptr)};
        CV w[2] = {CV(0, nullptr), CV(0, nullptr)};
        VM mv[2], mw[2];
        int nv = 50;
        for (unsigned step = 0; step < depth; ++step) try {
            const unsigned op = c.choose(step == 0 ? 3 : 7);
            if (op < 2) {
                // from a source, not constant or constant
                const unsigned src = c.choose(6);
                const unsigned i = c.choose(2);
                c.op("%s view %u of source %u", op ? "constant" : "", i, src);
                auto set = [&](auto& x, const int* p, size_t size) {
                    const auto& k = x;
                    if (op == 0) {
                        v[i] = vecmem::get_data(x);
                        mv[i] = {(unsigned)size, nullptr, p};
                    } else {
                        w[i] = vecmem::get_data(k);
                        mw[i] = {(unsigned)size, nullptr, p};
                    }
                };
                switch (src) {
                    case 0: set(a, a.data(), a.size()); break;
                    case 1: set(b, b.data(), b.size()); break;
                    case 2: set(e, e.data(), 2); break;
                    case 3: set(g, g.data(), n); break;
                    case 4: set(f, f.ptr(), n); break;
                    default:
                        set(r, r.ptr(), 3);
                        (op ? mw[i] : mv[i]).size = r.size_ptr();
                        c.require(r.size_ptr() != nullptr, "resizable buffer");
                }
            } else if (op == 2) {
                // Views which differ in one property only.
                const unsigned i = c.choose(2), how = c.choose(7), k = c.choose(2);
                c.op("view %u, raw %u%s", i, how, k ? ", constant" : "");
                const VM ms[7] = {{3, nullptr, raw}, {3, &word, raw},
                                  {3, &word2, raw}, {2, nullptr, raw},
                                  {2, &word, raw},  {2, &word, raw + 1},
                                  {2, nullptr, raw + 1}};
                const VM& x = ms[how];
                int* p = const_cast<int*>(x.ptr);
                unsigned* s = const_cast<unsigned*>(x.size);
                if (k == 0) {
                    v[i] = s ? V(x.cap, s, p) : V(x.cap, p);
                    mv[i] = x;
                } else {
                    w[i] = s ? CV(x.cap, x.size, x.ptr) : CV(x.cap, x.ptr);
                    mw[i] = x;
                }
            } else if (op == 3) {
                const unsigned how = c.choose(4);
                c.op("copy or convert %u", how);
                if (how == 0) {
                    V t(v[0]);
                    v[1] = t;
                    mv[1] = mv[0];
                } else if (how == 1) {
                    CV t(v[0]);
                    w[0] = t;
                    mw[0] = mv[0];
                } else if (how == 2) {
                    w[1] = v[1];
                    mw[1] = mv[1];
                } else {
                    CV t(w[0]);
                    w[1] = t;
                    mw[1] = mw[0];
                }
            } else if (op == 4) {
                // write through the view
                const unsigned i = c.choose(2);
                const unsigned k = c.choose(c.lin() ? 40 : 3);
                if (k >= v[i].size()) c.cut();
                c.op("write %u through view %u", k, i);
                vecmem::device_vector<int> d(v[i]);
                d[k] = ++nv;
                c.require(mv[i].ptr[k] == nv, "write: not seen in the source");
                for (int x = 0; x < 2; ++x)
                    if (mw[x].ptr == mv[i].ptr && mw[x].size == mv[i].size &&
                        k < w[x].size()) {
                        vecmem::device_vector<const int> d2(w[x]);
                        c.require(d2[k] == nv, "write: not seen in a constant view");
                    }
            } else if (op == 5) {
                // the current size of something resizable changes
                c.op("sizes change");
                word = word == 2 ? 1 : 2;
                *r.size_ptr() = *r.size_ptr() % 3 + 1;
            } else {
                c.op("moved buffers");
                vecmem::data::vector_buffer<int> f2(std::move(f));
                f = std::move(f2);
                vecmem::data::vector_buffer<int> r2(std::move(r));
                r = std::move(r2);
            }
            for (int i = 0; i < 2; ++i) {
                vview_is(c, "view", v[i], mv[i]);
                vview_is(c, "constant view", w[i], mw[i]);
                for (int k = 0; k < 2; ++k) {
                    eq(c, "views", v[i], v[k], mv[i] == mv[k]);
                    eq(c, "views", v[i], w[k], mv[i] == mw[k]);
                    eq(c, "views", w[i], w[k], mw[i] == mw[k]);
                }
            }
            c.state(mc::mix(mc::mix((uint64_t)(mv[0] == mv[1]), mv[0].cap * 4 + mv[1].cap),
                            mc::mix(mw[0].cap * 4 + mw[1].cap, (uint64_t)(mw[0] == mv[0]))));
        } catch (mc::Next&) {
        }
    }
    c.require(mem.live.empty() && mem.err.empty(), "end: memory");
    c.count("histories");
}

template <class OUTER>
static OUTER nested(vecmem::memory_resource&, const std::vector<unsigned>& shape);
template <>
vecmem::jagged_vector<int> nested(vecmem::memory_resource& m,
                                  const std::vector<unsigned>& shape) {
    vecmem::jagged_vector<int> j(&m);
    int x = 1;
    for (unsigned s : shape) {
        j.emplace_back();
        for (unsigned k = 0; k < s; ++k) j.back().push_back(x++);
    }
    return j;
}
template <>
std::vector<std::vector<int>> nested(vecmem::memory_resource&,
                                     const std::vector<unsigned>& shape) {
    std::vector<std::vector<int>> j;
    int x = 1;
    for (unsigned s : shape) {
        j.emplace_back();
        for (unsigned k = 0; k < s; ++k) j.back().push_back(x++);
    }
    return j;
}

template <class OUTER>
static void jagged_views(Ctx& c) {
    constexpr bool own = std::is_same_v<OUTER, vecmem::jagged_vector<int>>;
    Mem hm(c, "container's"), m1(c, "first"), m2(c, "second");
    {
        using JV = vecmem::data::jagged_vector_view<int>;
        using CJV = vecmem::data::jagged_vector_view<const int>;
        using JD = vecmem::data::jagged_vector_data<int>;
        using CJD = vecmem::data::jagged_vector_data<const int>;
        static const std::vector<std::vector<unsigned>> shapes = {
            {2, 0, 1}, {}, {0}, {3}, {1, 2}, {0, 0}};
        static const std::vector<std::vector<unsigned>> big = {
            {5, 0, 9, 1, 1, 0, 17, 2, 3}, std::vector<unsigned>(40, 3), {300, 0, 2}};
        OUTER j = nested<OUTER>(hm, c.pick(c.want_long ? big : shapes));
        const unsigned depth = c.steps(c.thorough ? 4 : 3);
        const OUTER& kj = j;
        const size_t in_container = hm.live.size();
        Mem* owner[3] = {&m1, &m2, &hm};
        JD d[2];
        CJD cd[2];
        struct DM {
            bool made = false;
            int mem = 0;
            const void* rows = nullptr;
        };
        DM md[2], mcd[2];
        JV v[2] = {JV(0, nullptr), JV(0, nullptr)};
        CJV w[2] = {CJV(0, nullptr), CJV(0, nullptr)};
        struct M {
            size_t n = 0;
            const void *p = nullptr, *h = nullptr;
            bool operator==(const M& o) const {
                return n == o.n && p == o.p && h == o.h;
            }
        };
        M mv[2], mw[2];
        vecmem::data::vector_view<int> raw[2], raw2[2];
        auto shown = [&](const char* what, auto& x) {
            c.require(x.size() == j.size() && x.capacity() == j.size(), "%s: size %zu",
                      what, (size_t)x.size());
            c.require(j.empty() || x.ptr() == x.host_ptr(), "%s: host_ptr()", what);
            for (size_t i = 0; i < j.size(); ++i) {
                auto& r = x.host_ptr()[i];
                c.require(r.size() == j[i].size() && r.capacity() == j[i].size() &&
                              r.size_ptr() == nullptr && r.ptr() == j[i].data(),
                          "%s: row %zu", what, i);
            }
        };
        int nv = 60;
        for (unsigned step = 0; step < depth; ++step) try {
            const unsigned op = c.choose(7);
            if (op < 2) {
                const unsigned i = c.choose(2), res = c.choose(own ? 3 : 2);
                const unsigned fail = c.choose(j.empty() ? 1 : 2);
                c.op("make %s data %u, resource %u, fault %u", op ? "constant" : "", i,
                     res, fail);
                vecmem::memory_resource* r = res == 2 ? nullptr : owner[res];
                Mem* used = owner[res];
                used->asked.clear();
                if (fail) used->fail_at = 1;
                bool failed = false;
                try {
                    if (op == 0) {
                        if constexpr (own)
                            d[i] = r ? vecmem::get_data(j, r) : vecmem::get_data(j);
                        else
                            d[i] = vecmem::get_data(j, r);
                        md[i] = {true, (int)res, d[i].ptr()};
                    } else {
                        if constexpr (own)
                            cd[i] = r ? vecmem::get_data(kj, r) : vecmem::get_data(kj);
                        else
                            cd[i] = vecmem::get_data(kj, r);
                        mcd[i] = {true, (int)res, cd[i].ptr()};
                    }
                } catch (const std::bad_alloc&) {
                    failed = true;
                }
                c.require(failed == (fail != 0), "get_data: a failure was not passed on");
                used->fail_at = 0;
            } else if (op == 2) {
                const unsigned i = c.choose(2);
                c.op("move data %u over the other", i);
                d[1 - i] = std::move(d[i]);
                md[1 - i] = md[i];
                CJD t(std::move(cd[i]));
                cd[1 - i] = std::move(t);
                mcd[1 - i] = mcd[i];
                // the old ones are not used any more
                d[i] = JD();
                cd[i] = CJD();
                md[i] = mcd[i] = DM{};
            } else if (op == 3) {
                const unsigned i = c.choose(2), k = c.choose(2);
                c.op("view %u of data %u", i, k);
                if (!md[k].made || !mcd[k].made) {
                    if (!md[k].made && !mcd[k].made) c.cut();
                }
                if (md[k].made) {
                    v[i] = vecmem::get_data(d[k]);
                    mv[i] = {j.size(), md[k].rows, md[k].rows};
                }
                if (mcd[k].made) {
                    const CJD& x = cd[k];
                    w[i] = vecmem::get_data(x);
                    mw[i] = {j.size(), mcd[k].rows, mcd[k].rows};
                }
            } else if (op == 4) {
                const unsigned how = c.choose(6);
                c.op("copy or convert %u", how);
                if (how == 0) {
                    JV t(v[0]);
                    v[1] = t;
                    mv[1] = mv[0];
                } else if (how == 1) {
                    CJV t(v[0]);
                    w[0] = t;
                    mw[0] = mv[0];
                } else if (how == 2) {
                    w[1] = v[1];
                    mw[1] = mv[1];
                } else if (how == 3) {
                    CJV t(w[0]);
                    w[1] = t;
                    mw[1] = mw[0];
                } else if (how == 4) {
                    v[0] = JV(2, raw);
                    mv[0] = {2, raw, raw};
                } else {
                    v[1] = JV(2, raw, raw2);
                    mv[1] = {2, raw, raw2};
                }
            } else if (op == 5) {
                const unsigned i = c.choose(2), k = c.choose(c.lin() ? (unsigned)j.size() : 3);
                if (!md[i].made || k >= j.size() || j[k].empty()) c.cut();
                const unsigned e = c.choose((unsigned)j[k].size());
                c.op("write [%u][%u] through data %u", k, e, i);
                vecmem::jagged_device_vector<int> dv(d[i]);
                dv[k][e] = ++nv;
                c.require(j[k][e] == nv, "write: not seen in the source");
            } else {
                const unsigned i = c.choose(2);
                c.op("destroy data %u", i);
                if (!md[i].made && !mcd[i].made) c.cut();
                d[i] = JD();
                cd[i] = CJD();
                md[i] = mcd[i] = DM{};
            }
            size_t blocks[3] = {0, 0, in_container};
            for (int i = 0; i < 2; ++i) {
                if (md[i].made) {
                    shown("data", d[i]);
                    c.require(d[i].ptr() == md[i].rows, "data: the rows moved");
                    blocks[md[i].mem] += !j.empty();
                } else
                    c.require(d[i].size() == 0 && d[i].ptr() == nullptr, "empty data");
                if (mcd[i].made) {
                    shown("constant data", cd[i]);
                    c.require(cd[i].ptr() == mcd[i].rows, "data: the rows moved");
                    blocks[mcd[i].mem] += !j.empty();
                } else
                    c.require(cd[i].size() == 0 && cd[i].ptr() == nullptr, "empty data");
                auto is = [&](const char* what, auto& x, const M& m) {
                    const auto& k = x;
                    c.require(x.size() == m.n && x.capacity() == m.n && x.ptr() == m.p &&
                                  k.ptr() == m.p && x.host_ptr() == m.h &&
                                  k.host_ptr() == m.h,
                              "%s", what);
                };
                is("view", v[i], mv[i]);
                is("constant view", w[i], mw[i]);
                for (int k = 0; k < 2; ++k) {
                    eq(c, "views", v[i], v[k], mv[i] == mv[k]);
                    eq(c, "views", v[i], w[k], mv[i] == mw[k]);
                    eq(c, "views", w[i], w[k], mw[i] == mw[k]);
                }
            }
            for (int k = 0; k < 3; ++k) {
                c.require(owner[k]->live.size() == blocks[k],
                          "%zu blocks are held from the %s resource, not %zu",
                          owner[k]->live.size(), owner[k]->name, blocks[k]);
                c.require(owner[k]->err.empty(), "%s", owner[k]->err.c_str());
            }
            c.state(mc::mix(blocks[0] * 64 + blocks[1] * 8 + blocks[2],
                            mc::mix(mv[0].n * 8 + mw[0].n, (uint64_t)(mv[0] == mw[1]))));
        } catch (mc::Next&) {
        }
    }
    c.require(hm.live.empty() && m1.live.empty() && m2.live.empty(), "end: memory is left");
    c.count("histories");
}

template <class S>
static void push(std::vector<mc::Scenario>& s, const char* name, const char* long_name) {
    s.push_back({name, S::run, 4, "C27"});
    s.push_back({long_name, mc::longer<S::run>, 3, "C27"});
}
int main(int argc, char** argv) {
    using namespace edm::type;
    std::vector<mc::Scenario> s;
    push<Soa<scalar<int>, vector<double>, jagged_vector<int>, vector<short>>>(
        s, "soa_mixed", "soa_mixed_long");
    push<Soa<vector<int>, vector<char>>>(s, "soa_vectors", "soa_vectors_long");
    push<Soa<vector<float>>>(s, "soa_vector", "soa_vector_long");
    push<Soa<jagged_vector<double>, jagged_vector<char>>>(s, "soa_jagged",
                                                          "soa_jagged_long");
    push<Soa<scalar<double>, scalar<char>>>(s, "soa_scalars", "soa_scalars_long");
    push<Soa<jagged_vector<int>, scalar<short>, vector<long>>>(s, "soa_order",
                                                               "soa_order_long");
    s.push_back({"views_vector", vector_views, 4, "C28"});
    s.push_back({"views_vector_long", mc::longer<vector_views>, 3, "C28"});
    s.push_back({"views_jagged", jagged_views<vecmem::jagged_vector<int>>, 4, "C28"});
    s.push_back({"views_jagged_long",
                 mc::longer<jagged_views<vecmem::jagged_vector<int>>>, 3, "C28"});
    s.push_back({"views_jagged_std", jagged_views<std::vector<std::vector<int>>>, 4,
                 "C28"});
    return mc::run_main(argc, argv, s);
}
