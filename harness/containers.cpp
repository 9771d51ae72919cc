// Containers against std::vector / std::array semantics.
//   C13 device_vector   C16 static_vector   C17 jagged_device_vector, iterators
//   C18 arrays
#include <array>
#include <cstring>
#include <list>
#include <memory>
#include <new>
#include <stdexcept>
#include <vecmem/containers/array.hpp>
#include <vecmem/containers/device_array.hpp>
#include <vecmem/containers/device_vector.hpp>
#include <vecmem/containers/jagged_device_vector.hpp>
#include <vecmem/containers/static_array.hpp>
#include <vecmem/containers/static_vector.hpp>
#include <vecmem/memory/memory_resource.hpp>

#include "mc.hpp"
#include "tracked.hpp"

using mc::Ctx;
using uint = unsigned int;

#define CHK(c) \
    (c).require(Track::err.empty(), "%s: %s", what, Track::err.c_str())

// Compare everything that can be read from a (const or non-const) container with
// the expected values.
template <class V>
static void read_all(Ctx& c, const char* what, V& v, const std::vector<int>& ref,
                     const void* base) {
    const std::size_t n = ref.size();
    c.require(v.size() == n, "%s: size() %zu, expected %zu", what,
              (std::size_t)v.size(), n);
    c.require(v.empty() == (n == 0), "%s: empty()", what);
    c.require((const void*)v.data() == base, "%s: data() moved", what);
    using S = typename std::remove_const_t<V>::size_type;
    for (std::size_t i = 0; i < n; ++i) {
        c.require(val(v[(S)i]) == ref[i], "%s: [%zu] is %d, expected %d", what, i,
                  val(v[(S)i]), ref[i]);
        c.require(&v.at((S)i) == &v[(S)i] && &v[(S)i] == v.data() + i,
                  "%s: at(%zu), [%zu] and data()+%zu differ", what, i, i, i);
    }
    if (n) {
        c.require(&v.front() == v.data(), "%s: front()", what);
        c.require(&v.back() == v.data() + (n - 1), "%s: back()", what);
    }
    std::size_t i = 0;
    for (auto it = v.begin(); it != v.end(); ++it, ++i)
        c.require(i < n && &*it == v.data() + i, "%s: begin()..end()", what);
    c.require(i == n, "%s: begin()..end() has %zu elements", what, i);
    i = 0;
    for (auto it = v.cbegin(); it != v.cend(); ++it, ++i)
        c.require(i < n && &*it == v.data() + i, "%s: cbegin()..cend()", what);
    c.require(i == n, "%s: cbegin()..cend() has %zu elements", what, i);
    i = n;
    for (auto it = v.rbegin(); it != v.rend(); ++it, --i)
        c.require(i > 0 && &*it == v.data() + (i - 1), "%s: rbegin()..rend()",
                  what);
    c.require(i == 0, "%s: rbegin()..rend() is incomplete", what);
    i = n;
    for (auto it = v.crbegin(); it != v.crend(); ++it, --i)
        c.require(i > 0 && &*it == v.data() + (i - 1), "%s: crbegin()..crend()",
                  what);
    c.require(i == 0, "%s: crbegin()..crend() is incomplete", what);
}
template <class V>
static void read_both(Ctx& c, const char* what, V& v, const std::vector<int>& ref,
                      const void* base) {
    read_all(c, what, v, ref, base);
    read_all(c, what, static_cast<const V&>(v), ref, base);
    CHK(c);
}
static uint64_t hash_ref(uint64_t h, const std::vector<int>& r) {
    h = mc::mix(h, r.size());
    for (int x : r) h = mc::mix(h, (uint64_t)x + 1);
    return h;
}

// Write one element through one of the access paths.
template <class V>
static void write_one(Ctx& c, V& v, std::vector<int>& ref, int nv) {
    using S = typename V::size_type;
    using T = typename V::value_type;
    unsigned i = c.choose((unsigned)ref.size());
    unsigned path = c.choose(8);
    c.op("write [%u] path %u", i, path);
    switch (path) {
        case 0: v[(S)i] = T(nv); break;
        case 1: v.at((S)i) = T(nv); break;
        case 2: v.data()[i] = T(nv); break;
        case 3: *(v.begin() + (std::ptrdiff_t)i) = T(nv); break;
        case 4: *(v.rbegin() + ((std::ptrdiff_t)ref.size() - 1 - (std::ptrdiff_t)i)) = T(nv); break;
        case 5:
            if (i != 0) c.cut();
            v.front() = T(nv);
            break;
        case 6:
            if (i + 1 != ref.size()) c.cut();
            v.back() = T(nv);
            break;
        default: *(v.end() - ((std::ptrdiff_t)ref.size() - (std::ptrdiff_t)i)) = T(nv); break;
    }
    ref[i] = nv;
}

// ------------------------------------------------------- C13 device_vector
static constexpr uint CANARY = 0xca9a4711u;
template <class T, std::size_t MAX = 8>
struct Store {
    // canary | elements | canary, and the size word between canaries
    alignas(64) unsigned char mem[64 + MAX * sizeof(T) + 64];
    uint sz[3];
    std::size_t cap = 0;
    T* ptr() { return reinterpret_cast<T*>(mem + 64); }
    void init(std::size_t n) {
        cap = n;
        std::memset(mem, 0xc5, sizeof mem);
        sz[0] = sz[2] = CANARY;
        sz[1] = 0;
    }
    bool ok() const {
        for (int i = 0; i < 64; ++i)
            if (mem[i] != 0xc5) return false;
        for (std::size_t i = 64 + cap * sizeof(T); i < sizeof mem; ++i)
            if (mem[i] != 0xc5) return false;
        return sz[0] == CANARY && sz[2] == CANARY;
    }
};

template <class T, std::size_t MAX = 8>
static void dv_run(Ctx& c) {
    constexpr bool tracked = !std::is_same_v<T, int>;
    using DV = vecmem::device_vector<T>;
    Track::reset();
    Store<T, MAX> st;
    static const std::vector<unsigned> caps = {0, 1, 3, 2, 5}, big = {9, 17, 40};
    unsigned cap = c.want_long ? big[c.choose(c.thorough ? 3 : 2)]
                               : caps[c.choose(c.thorough ? 5 : 3)];
    st.init(cap);
    const unsigned depth = c.steps(c.thorough && cap < 3 ? 4 : 3);
    unsigned n0 = c.choose(cap + 1);
    std::vector<int> ref;
    for (unsigned i = 0; i < n0; ++i) {
        new (st.ptr() + i) T((int)i + 1);
        ref.push_back((int)i + 1);
    }
    st.sz[1] = n0;
    vecmem::data::vector_view<T> view(cap, &st.sz[1], st.ptr());
    auto dv = std::make_unique<DV>(view);
    DV other(view);
    c.note("capacity %u, %u elements", cap, n0);
    int nv = 10;
    const char* what = "start";
    for (unsigned d = 0; d <= depth; ++d) {
        // Everything agrees, through every object over the same memory.
        c.require(st.ok(), "%s: wrote outside of the vector's memory", what);
        c.require(st.sz[1] == ref.size(), "%s: the size word is %u, expected %zu",
                  what, st.sz[1], ref.size());
        read_both(c, what, *dv, ref, st.ptr());
        c.require(dv->capacity() == cap && dv->max_size() == cap,
                  "%s: capacity %u", what, dv->capacity());
        read_both(c, what, other, ref, st.ptr());
        {
            vecmem::data::vector_view<const T> cview(view);
            vecmem::device_vector<const T> cdv(cview);
            read_all(c, what, cdv, ref, st.ptr());
            c.require(cdv.capacity() == cap, "%s: capacity of const", what);
            c.require(view.size() == ref.size() && cview.size() == ref.size() &&
                          cview.capacity() == cap && cview == view,
                      "%s: the view disagrees", what);
            // A view without a size is always full.
            if (ref.size() == cap) {
                vecmem::device_vector<T> fx(
                    vecmem::data::vector_view<T>(cap, st.ptr()));
                read_both(c, what, fx, ref, st.ptr());
                c.require(fx.capacity() == cap, "%s: fixed capacity", what);
            }
        }
        if constexpr (tracked) {
            c.require(Track::live == ref.size(), "%s: %u elements exist, not %zu",
                      what, Track::live, ref.size());
            for (std::size_t i = 0; i < ref.size(); ++i)
                c.require(Track::where[st.ptr()[i].id] == st.ptr() + i,
                          "%s: element %zu was not created in its place", what, i);
        }
        c.state(hash_ref(cap * 2 + tracked, ref));
        if (d == depth) break;
        const unsigned n = (unsigned)ref.size(), room = cap - n;
        int x = nv++;
        unsigned op = c.choose(17);
        try {
        switch (op) {
            case 0: {
                if (!room) c.cut();
                unsigned how = c.choose(3 + (n ? 1 : 0));
                T* e;
                if (how == 0) e = &dv->emplace_back(x), ref.push_back(x);
                else if (how == 1) e = &dv->emplace_back(), ref.push_back(0);
                else if (how == 2) {
                    if constexpr (tracked) {
                        e = &dv->emplace_back(x, 5);
                        ref.push_back(x + 5);
                    } else
                        c.cut();
                } else {
                    int w = ref[0];
                    e = &dv->emplace_back((*dv)[0]);
                    ref.push_back(w);
                }
                c.op("emplace_back (%u)", how);
                what = "emplace_back";
                c.require(e == st.ptr() + n, "emplace_back: wrong reference");
                break;
            }
            case 1: {
                if (!room) c.cut();
                unsigned how = c.choose(1 + n);
                c.op("push_back (%u)", how);
                what = "push_back";
                uint r;
                if (how == 0) {
                    r = dv->push_back(T(x));
                    ref.push_back(x);
                } else {
                    r = dv->push_back((*dv)[how - 1]);
                    int w = ref[how - 1];
                    ref.push_back(w);
                }
                c.require(r == n, "push_back: returned %u, expected %u", r, n);
                break;
            }
            case 2: {
                unsigned k = c.choose(room + 1);
                c.op("bulk_append(%u)", k);
                what = "bulk_append(n)";
                uint r = dv->bulk_append(k);
                ref.insert(ref.end(), k, 0);
                c.require(r == n, "bulk_append: returned %u, expected %u", r, n);
                break;
            }
            case 3: {
                unsigned k = c.choose(room + 1);
                unsigned own = c.choose(n ? 2 : 1);
                c.op("bulk_append(%u,%s)", k, own ? "own" : "value");
                what = "bulk_append(n,v)";
                int w = own ? ref.back() : x;
                uint r = own ? dv->bulk_append(k, dv->back())
                             : dv->bulk_append(k, T(x));
                ref.insert(ref.end(), k, w);
                c.require(r == n, "bulk_append: returned %u, expected %u", r, n);
                break;
            }
            case 4: {
                // Slots reserved without creating elements; the user does.
                unsigned k = c.choose(room + 1);
                unsigned how = c.choose(tracked ? 1 : 2);
                c.op("bulk_append_implicit(%u) %u", k, how);
                what = "bulk_append_implicit";
                uint r;
                if constexpr (tracked)
                    r = dv->bulk_append_implicit_unsafe(k);
                else
                    r = how ? dv->bulk_append_implicit(k)
                            : dv->bulk_append_implicit_unsafe(k);
                c.require(r == n, "bulk_append_implicit: returned %u, expected %u",
                          r, n);
                c.require(dv->size() == n + k, "bulk_append_implicit: size");
                for (unsigned i = 0; i < k; ++i) {
                    new (dv->data() + r + i) T(x);
                    ref.push_back(x);
                }
                break;
            }
            case 5: {
                if (!n) c.cut();
                c.op("pop_back");
                what = "pop_back";
                uint r = dv->pop_back();
                ref.pop_back();
                c.require(r == n - 1, "pop_back: returned %u, expected %u", r,
                          n - 1);
                break;
            }
            case 6:
                c.op("clear");
                what = "clear";
                dv->clear();
                ref.clear();
                break;
            case 7: {
                unsigned k = c.choose(cap + 1);
                c.op("resize(%u)", k);
                what = "resize(n)";
                dv->resize(k);
                ref.resize(k, 0);
                break;
            }
            case 8: {
                unsigned k = c.choose(cap + 1);
                unsigned own = c.choose(n ? 2 : 1);
                c.op("resize(%u,%s)", k, own ? "own" : "value");
                what = "resize(n,v)";
                int w = own ? ref[0] : x;
                if (own) dv->resize(k, (*dv)[0]);
                else dv->resize(k, T(x));
                ref.resize(k, w);
                break;
            }
            case 9: {
                if constexpr (tracked) {
                    // the caller ends/starts the lifetimes
                    unsigned k = c.choose(cap + 1);
                    c.op("resize_implicit_unsafe(%u)", k);
                    what = "resize_implicit_unsafe";
                    for (unsigned i = k; i < n; ++i) st.ptr()[i].~T();
                    dv->resize_implicit_unsafe(k);
                    for (unsigned i = n; i < k; ++i) new (st.ptr() + i) T(x);
                    ref.resize(k, x);
                } else {
                    unsigned k = c.choose(cap + 1);
                    unsigned how = c.choose(2);
                    c.op("resize_implicit(%u) %u", k, how);
                    what = "resize_implicit";
                    for (unsigned i = n; i < k; ++i) st.ptr()[i] = x;
                    if (how) dv->resize_implicit(k);
                    else dv->resize_implicit_unsafe(k);
                    ref.resize(k, x);
                }
                break;
            }
            case 10: {
                unsigned k = c.choose(cap + 1);
                c.op("assign(%u,v)", k);
                what = "assign(n,v)";
                dv->assign(k, T(x));
                ref.assign(k, x);
                break;
            }
            case 11: {
                unsigned k = c.choose(cap + 1);
                unsigned how = c.choose(2);
                c.op("assign(range of %u) %u", k, how);
                what = "assign(range)";
                std::vector<int> src;
                for (unsigned i = 0; i < k; ++i) src.push_back(100 + (int)i);
                if (how) {
                    std::list<int> l(src.begin(), src.end());
                    dv->assign(l.begin(), l.end());
                } else {
                    std::vector<T> l(src.begin(), src.end());
                    dv->assign(l.data(), l.data() + k);
                }
                ref = src;
                break;
            }
            case 12:
                if (!n) c.cut();
                what = "write";
                write_one(c, *dv, ref, x);
                break;
            case 13: {
                c.op("copy construct");
                what = "copy construction";
                dv = std::make_unique<DV>(*dv);
                break;
            }
            case 14: {
                c.op("copy assign");
                what = "copy assignment";
                Store<T> st2;
                st2.init(3);
                vecmem::data::vector_view<T> v2(3, &st2.sz[1], st2.ptr());
                DV tmp(v2);
                DV& r = (tmp = *dv);
                c.require(&r == &tmp, "assignment returns another object");
                DV& me = *dv;
                me = *dv;
                *dv = tmp;
                c.require(st2.ok() && st2.sz[1] == 0,
                          "assignment touched the elements");
                break;
            }
            case 15: {
                // use the other object from now on
                c.op("switch objects");
                what = "other object";
                dv = std::make_unique<DV>(other);
                break;
            }
            default: {
                c.op("view assignment");
                what = "view assignment";
                vecmem::data::vector_view<const T> cv;
                cv = view;
                c.require(cv == view && !(cv != view) && cv.ptr() == view.ptr() &&
                              cv.size_ptr() == view.size_ptr(),
                          "assigned view differs");
                vecmem::data::vector_view<T> v3(view);
                vecmem::data::vector_view<T> v4(cap, st.ptr());
                c.require(v3 == view && v4 != view && v4.size() == cap &&
                              v4.capacity() == cap && v4.size_ptr() == nullptr,
                          "views compare wrong");
                vecmem::data::vector_view<T> v5(cap, &st.sz[1], st.ptr() + 1);
                vecmem::data::vector_view<T> v6(cap + 1, &st.sz[1], st.ptr());
                c.require(v5 != view && v6 != view, "different views are equal");
                dv = std::make_unique<DV>(v3);
                break;
            }
        }
        CHK(c);
        } catch (mc::Next&) {
        }
    }
    for (std::size_t i = 0; i < ref.size(); ++i) st.ptr()[i].~T();
}
static void devvec(Ctx& c) {
    if (c.want_long) {
        if (c.choose(2)) dv_run<int, 40>(c);
        else dv_run<Obj, 40>(c);
    } else {
        if (c.choose(2)) dv_run<int>(c);
        else dv_run<Obj>(c);
    }
}

// ------------------------------------------------------- C16 static_vector
template <class T, std::size_t N>
struct Boxed {
    unsigned char pre[64];
    vecmem::static_vector<T, N> v;
    unsigned char post[64];
};
template <class T, std::size_t N>
static void sv_run(Ctx& c) {
    using SV = vecmem::static_vector<T, N>;
    constexpr bool tracked = !std::is_same_v<T, int>;
    Track::reset();
    {
        struct Holder {
            alignas(128) unsigned char mem[64 + sizeof(SV) + 256];
            SV* v = nullptr;
            ~Holder() {
                if (v) v->~SV();
            }
            void* place() { return mem + 128; }
            Holder() { std::memset(mem, 0xc5, sizeof mem); }
            bool ok() {
                for (int i = 0; i < 128; ++i)
                    if (mem[i] != 0xc5) return false;
                for (std::size_t i = 128 + sizeof(SV); i < sizeof mem; ++i)
                    if (mem[i] != 0xc5) return false;
                return true;
            }
        } h;
        static_assert(alignof(SV) >= alignof(T), "alignment");
        static_assert(alignof(SV) <= 128, "alignment");
        std::vector<int> ref;
        const unsigned depth =
            c.steps(c.thorough ? (N > 1 ? 3 : 4) : (N > 2 ? 2 : 3));
        unsigned ctor = c.choose(5);
        unsigned n0 = ctor == 0 ? 0 : c.choose((unsigned)N + 1);
        for (unsigned i = 0; i < n0; ++i) ref.push_back((int)i + 1);
        std::vector<int> src = ref;
        switch (ctor) {
            case 0: h.v = new (h.place()) SV(); break;
            case 1:
                h.v = new (h.place()) SV(n0);
                ref.assign(n0, 0);
                break;
            case 2:
                h.v = new (h.place()) SV(n0, T(7));
                ref.assign(n0, 7);
                break;
            case 3: {
                std::list<int> l(src.begin(), src.end());
                h.v = new (h.place()) SV(l.begin(), l.end());
                break;
            }
            default: {
                SV tmp(src.begin(), src.end());
                h.v = new (h.place()) SV(tmp);
                break;
            }
        }
        SV& v = *h.v;
        c.op("constructor %u, %u elements, N=%zu", ctor, n0, N);
        int nv = 10;
        const char* what = "constructor";
        for (unsigned d = 0; d <= depth; ++d) {
            c.require(h.ok(), "%s: wrote outside of the object", what);
            read_both(c, what, v, ref, v.data());
            c.require((std::uintptr_t)v.data() % alignof(T) == 0,
                      "%s: misaligned elements", what);
            c.require((void*)v.data() >= (void*)&v &&
                          (void*)(v.data() + N) <= (void*)(&v + 1),
                      "%s: elements outside of the object", what);
            c.require(v.capacity() == N && v.max_size() == N, "%s: capacity",
                      what);
            if constexpr (tracked) {
                c.require(Track::live == ref.size(),
                          "%s: %u elements exist, not %zu", what, Track::live,
                          ref.size());
                for (std::size_t i = 0; i < ref.size(); ++i)
                    for (std::size_t j = 0; j < i; ++j)
                        c.require(v[i].id != v[j].id,
                                  "%s: one element appears twice", what);
            }
            c.state(hash_ref(N * 4 + tracked, ref));
            if (d == depth) break;
            const unsigned n = (unsigned)ref.size(), room = (unsigned)N - n;
            int x = nv++;
            unsigned op = c.choose(17);
            auto pos = [&](unsigned i) { return v.cbegin() + i; };
            auto ret = [&](typename SV::iterator it, unsigned want) {
                c.require(it == v.begin() + want,
                          "%s: the returned iterator points at %td, expected %u",
                          what, it - v.begin(), want);
            };
            try {
            switch (op) {
                case 0: {
                    if (!room) c.cut();
                    unsigned i = c.choose(n + 1);
                    unsigned own = c.choose(1 + n);
                    c.op("insert(%u, %s%u)", i, own ? "own " : "value ", own);
                    what = "insert(pos,v)";
                    int w = own ? ref[own - 1] : x;
                    auto it = own ? v.insert(pos(i), v[own - 1])
                                  : v.insert(pos(i), T(x));
                    ref.insert(ref.begin() + i, w);
                    ret(it, i);
                    break;
                }
                case 1: {
                    unsigned i = c.choose(n + 1), k = c.choose(room + 1);
                    unsigned own = c.choose(1 + n);
                    c.op("insert(%u, %u, %s%u)", i, k, own ? "own " : "value ",
                         own);
                    what = "insert(pos,n,v)";
                    int w = own ? ref[own - 1] : x;
                    auto it = own ? v.insert(pos(i), (std::size_t)k, v[own - 1])
                                  : v.insert(pos(i), (std::size_t)k, T(x));
                    ref.insert(ref.begin() + i, k, w);
                    ret(it, i);
                    break;
                }
                case 2: {
                    unsigned i = c.choose(n + 1), k = c.choose(room + 1);
                    unsigned how = c.choose(2);
                    c.op("insert(%u, range of %u) %u", i, k, how);
                    what = "insert(pos,range)";
                    std::list<int> l;
                    for (unsigned j = 0; j < k; ++j) l.push_back(100 + (int)j);
                    typename SV::iterator it;
                    if (how) it = v.insert(pos(i), l.begin(), l.end());
                    else {
                        std::vector<T> t(l.begin(), l.end());
                        it = v.insert(pos(i), t.data(), t.data() + k);
                    }
                    ref.insert(ref.begin() + i, l.begin(), l.end());
                    ret(it, i);
                    break;
                }
                case 3: {
                    if (!room) c.cut();
                    unsigned i = c.choose(n + 1);
                    unsigned how = c.choose(3 + n);
                    c.op("emplace(%u) %u", i, how);
                    what = "emplace";
                    int w = x;
                    typename SV::iterator it;
                    if (how == 0) it = v.emplace(pos(i), x);
                    else if (how == 1) {
                        it = v.emplace(pos(i));
                        w = 0;
                    } else if (how == 2) {
                        if constexpr (tracked) it = v.emplace(pos(i), x, 5);
                        else c.cut();
                        w = x + 5;
                    } else {
                        w = ref[how - 3];
                        it = v.emplace(pos(i), v[how - 3]);
                    }
                    ref.insert(ref.begin() + i, w);
                    ret(it, i);
                    break;
                }
                case 4: {
                    if (!room) c.cut();
                    unsigned how = c.choose(2 + n);
                    c.op("emplace_back %u", how);
                    what = "emplace_back";
                    int w = how == 0 ? x : how == 1 ? 0 : ref[how - 2];
                    T& e = how == 0   ? v.emplace_back(x)
                           : how == 1 ? v.emplace_back()
                                      : v.emplace_back(v[how - 2]);
                    ref.push_back(w);
                    c.require(&e == v.data() + n, "emplace_back: wrong reference");
                    break;
                }
                case 5: {
                    if (!room) c.cut();
                    unsigned own = c.choose(1 + n);
                    c.op("push_back %u", own);
                    what = "push_back";
                    int w = own ? ref[own - 1] : x;
                    if (own) v.push_back(v[own - 1]);
                    else v.push_back(T(x));
                    ref.push_back(w);
                    break;
                }
                case 6: {
                    if (!n) c.cut();
                    unsigned i = c.choose(n);
                    c.op("erase(%u)", i);
                    what = "erase(pos)";
                    auto it = v.erase(pos(i));
                    ref.erase(ref.begin() + i);
                    ret(it, i);
                    break;
                }
                case 7: {
                    unsigned i = c.choose(n + 1), j = i + c.choose(n - i + 1);
                    c.op("erase(%u,%u)", i, j);
                    what = "erase(range)";
                    auto it = v.erase(pos(i), pos(j));
                    ref.erase(ref.begin() + i, ref.begin() + j);
                    ret(it, i);
                    break;
                }
                case 8:
                    if (!n) c.cut();
                    c.op("pop_back");
                    what = "pop_back";
                    v.pop_back();
                    ref.pop_back();
                    break;
                case 9:
                    c.op("clear");
                    what = "clear";
                    v.clear();
                    ref.clear();
                    break;
                case 10: {
                    unsigned k = c.choose((unsigned)N + 1);
                    c.op("resize(%u)", k);
                    what = "resize(n)";
                    v.resize(k);
                    ref.resize(k, 0);
                    break;
                }
                case 11: {
                    unsigned k = c.choose((unsigned)N + 1);
                    unsigned own = c.choose(n ? 2 : 1);
                    c.op("resize(%u) %s", k, own ? "own" : "value");
                    what = "resize(n,v)";
                    int w = own ? ref[0] : x;
                    if (own) v.resize(k, v[0]);
                    else v.resize(k, T(x));
                    ref.resize(k, w);
                    break;
                }
                case 12: {
                    unsigned k = c.choose((unsigned)N + 1);
                    c.op("assign(%u,v)", k);
                    what = "assign(n,v)";
                    v.assign((std::size_t)k, T(x));
                    ref.assign(k, x);
                    break;
                }
                case 13: {
                    unsigned k = c.choose((unsigned)N + 1);
                    unsigned how = c.choose(2);
                    c.op("assign(range of %u) %u", k, how);
                    what = "assign(range)";
                    std::list<int> l;
                    for (unsigned j = 0; j < k; ++j) l.push_back(200 + (int)j);
                    if (how) v.assign(l.begin(), l.end());
                    else {
                        std::vector<T> t(l.begin(), l.end());
                        v.assign(t.data(), t.data() + k);
                    }
                    ref.assign(l.begin(), l.end());
                    break;
                }
                case 14:
                    if (!n) c.cut();
                    what = "write";
                    write_one(c, v, ref, x);
                    break;
                case 15: {
                    // assignment from/to another vector of every size
                    unsigned k = c.choose((unsigned)N + 1);
                    unsigned dir = c.choose(3);
                    c.op("assignment %u, other has %u", dir, k);
                    what = "assignment";
                    std::vector<int> o;
                    for (unsigned j = 0; j < k; ++j) o.push_back(300 + (int)j);
                    SV other(o.begin(), o.end());
                    if (dir == 0) {
                        SV& r = (v = other);
                        c.require(&r == &v, "assignment returns something else");
                        read_both(c, "source of an assignment", other, o,
                                  other.data());
                        ref = o;
                    } else if (dir == 1) {
                        other = v;
                        read_both(c, "target of an assignment", other, ref,
                                  other.data());
                    } else {
                        if (k) c.cut();
                        SV& me = v;
                        v = me;
                    }
                    // independent of each other
                    if (!other.empty()) other.back() = T(-1);
                    break;
                }
                default: {
                    unsigned k = c.choose(2);
                    c.op("reserve / copy");
                    what = "reserve or copy";
                    if (k) v.reserve(N);
                    else {
                        SV o(v);
                        read_both(c, what, o, ref, o.data());
                        if (!o.empty()) o.front() = T(-1);
                    }
                    break;
                }
            }
            CHK(c);
            } catch (mc::Next&) {
            }
        }
        h.v->~SV();
        h.v = nullptr;
        c.require(h.ok(), "destructor: wrote outside of the object");
    }
    c.require(Track::live == 0, "destructor: %u elements were not destroyed",
              Track::live);
    c.require(Track::err.empty(), "destructor: %s", Track::err.c_str());
}
static void statvec(Ctx& c) {
    if (c.want_long) {
        switch (c.choose(c.thorough ? 4 : 3)) {
            case 0: sv_run<Obj, 9>(c); break;
            case 1: sv_run<int, 20>(c); break;
            case 2: sv_run<ObjT<64>, 8>(c); break;
            default: sv_run<Obj, 40>(c); break;
        }
        return;
    }
    switch (c.choose(c.thorough ? 6 : 5)) {
        case 0: sv_run<Obj, 1>(c); break;
        case 1: sv_run<Obj, 3>(c); break;
        case 2: sv_run<int, 2>(c); break;
        case 3: sv_run<ObjT<64>, 2>(c); break;
        case 4: sv_run<Obj, 4>(c); break;
        default: sv_run<Obj, 2>(c); break;
    }
}

// -------------------------------------------- C17 jagged_device_vector
template <class It, class F>
static void iter_algebra(Ctx& c, const char* what, It first, It last,
                         std::ptrdiff_t n, F index_of, unsigned depth) {
    // index_of(it) tells which element it refers to, only for 0 <= i < n.
    using D = std::ptrdiff_t;
    It it = first;
    std::ptrdiff_t i = 0;
    auto check = [&](It x, std::ptrdiff_t k, const char* op) {
        c.require((x == first) == (k == 0) && (x != first) == (k != 0),
                  "%s: %s: comparison with the beginning", what, op);
        c.require((x == last) == (k == n) && (x != last) == (k != n),
                  "%s: %s: comparison with the end", what, op);
        if (k >= 0 && k < n)
            c.require(index_of(x) == k, "%s: %s: refers to %td instead of %td",
                      what, op, (std::ptrdiff_t)index_of(x), k);
    };
    check(it, 0, "begin");
    check(last, n, "end");
    for (unsigned d = 0; d < depth; ++d) try {
        unsigned op = c.choose(9);
        auto target = [&] { return (std::ptrdiff_t)c.choose((unsigned)n + 1); };
        switch (op) {
            case 0: {
                if (i >= n) c.cut();
                It& r = ++it;
                ++i;
                c.require(&r == &it, "%s: ++it returns something else", what);
                c.op("++it");
                break;
            }
            case 1: {
                if (i >= n) c.cut();
                It o = it++;
                check(o, i, "it++ result");
                ++i;
                c.op("it++");
                break;
            }
            case 2: {
                if (i <= 0) c.cut();
                It& r = --it;
                --i;
                c.require(&r == &it, "%s: --it returns something else", what);
                c.op("--it");
                break;
            }
            case 3: {
                if (i <= 0) c.cut();
                It o = it--;
                check(o, i, "it-- result");
                --i;
                c.op("it--");
                break;
            }
            case 4: {
                auto t = target();
                It& r = (it += (D)(t - i));
                c.require(&r == &it, "%s: += returns something else", what);
                i = t;
                c.op("it += -> %td", t);
                break;
            }
            case 5: {
                auto t = target();
                It& r = (it -= (D)(i - t));
                c.require(&r == &it, "%s: -= returns something else", what);
                i = t;
                c.op("it -= -> %td", t);
                break;
            }
            case 6: {
                auto t = target();
                check(it, i, "before +");
                It o = it + (D)(t - i);
                check(it, i, "operand of +");
                it = o;
                i = t;
                c.op("it + -> %td", t);
                break;
            }
            case 7: {
                auto t = target();
                It o = it - (D)(i - t);
                check(it, i, "operand of -");
                It p(o);
                it = p;
                i = t;
                c.op("it - -> %td", t);
                break;
            }
            default: {
                It& me = it;
                it = me;
                c.op("self assignment");
                break;
            }
        }
        check(it, i, "after the step");
        c.state(mc::mix(mc::mix((uint64_t)n, (uint64_t)i),
                        std::hash<std::string>()(what)));
    } catch (mc::Next&) {
    }
}

static void iterators(Ctx& c) {
    Track::reset();
    unsigned kind = c.choose(9);
    const unsigned top = c.want_long ? 70 : 3;
    unsigned n = c.want_long ? 1 + 23 * c.choose(4) : c.choose(4);
    const unsigned depth = c.steps(c.thorough ? 5 : 4);
    std::vector<int> flat;
    std::vector<vecmem::data::vector_view<int>> rows;
    std::vector<std::array<int, 2>> store(top);
    for (int i = 0; i < (int)top; ++i) {
        flat.push_back(100 + i);
        store[(size_t)i] = {i, -1};
        rows.emplace_back(2u, store[(size_t)i].data());
    }
    vecmem::data::jagged_vector_view<int> view(n, rows.data());
    vecmem::jagged_device_vector<int> j(view);
    const auto& cj = j;
    vecmem::device_vector<int> dv(vecmem::data::vector_view<int>(n, flat.data()));
    const auto& cdv = dv;
    auto N = (std::ptrdiff_t)n;
    // Which row / element: forward, reverse; checked through *, -> and [].
    auto row = [&](auto it) -> std::ptrdiff_t {
        int a = (*it)[0], b = it->at(0), d = it[0][0];
        c.require(it->size() == 2 && (*it).data() == it->data(),
                  "iterators: -> and * differ");
        c.require(a == b && a == d, "iterators: *, -> and [] differ");
        return a;
    };
    auto rrow = [&](auto it) -> std::ptrdiff_t {
        int a = (*it)[0], b = it->at(0), d = it[0][0];
        c.require(a == b && a == d, "iterators: *, -> and [] differ");
        return N - 1 - a;
    };
    auto relem = [&](auto it) -> std::ptrdiff_t {
        c.require(it.operator->() == &*it && &it[0] == &*it,
                  "iterators: *, -> and [] differ");
        return N - 1 - (*it - 100);
    };
    switch (kind) {
        case 0: iter_algebra(c, "jagged", j.begin(), j.end(), N, row, depth); break;
        case 1: iter_algebra(c, "jagged const", cj.begin(), cj.end(), N, row, depth); break;
        case 2: iter_algebra(c, "jagged c", j.cbegin(), j.cend(), N, row, depth); break;
        case 3: iter_algebra(c, "jagged reverse", j.rbegin(), j.rend(), N, rrow, depth); break;
        case 4: iter_algebra(c, "jagged const reverse", cj.rbegin(), cj.rend(), N, rrow, depth); break;
        case 5: iter_algebra(c, "jagged c reverse", j.crbegin(), j.crend(), N, rrow, depth); break;
        case 6: iter_algebra(c, "reverse", dv.rbegin(), dv.rend(), N, relem, depth); break;
        case 7: iter_algebra(c, "const reverse", cdv.rbegin(), cdv.rend(), N, relem, depth); break;
        default: {
            // conversions, indexing from every position, default construction
            using J = vecmem::jagged_device_vector<int>;
            using DV = vecmem::device_vector<int>;
            for (std::ptrdiff_t i = 0; i <= N; ++i) {
                J::iterator it = j.begin() + i;
                J::const_iterator ci(it);
                c.require(ci == cj.begin() + i, "const_iterator from iterator");
                J::reverse_iterator ri = j.rbegin() + i;
                J::const_reverse_iterator cri(ri);
                c.require(cri == cj.rbegin() + i,
                          "const_reverse_iterator from reverse_iterator");
                c.require(ri.base() == j.end() - i, "base()");
                DV::reverse_iterator re = dv.rbegin() + i;
                DV::const_reverse_iterator cre(re);
                c.require(cre == cdv.rbegin() + i,
                          "const reverse iterator from reverse iterator");
                c.require(re.base() == dv.end() - i, "base()");
                for (std::ptrdiff_t k = 0; k < N; ++k) {
                    c.require(it[k - i][0] == k, "jagged iterator []");
                    c.require(ci[k - i][0] == k, "jagged const iterator []");
                    c.require(ri[k - i][0] == N - 1 - k, "jagged reverse []");
                    c.require(cri[k - i][0] == N - 1 - k, "jagged reverse []");
                    c.require(&re[k - i] == &flat[(size_t)(N - 1 - k)],
                              "reverse []");
                }
            }
            J::iterator e1, e2;
            J::reverse_iterator r1, r2;
            c.require(e1 == e2 && r1 == r2, "default constructed iterators");
            c.op("conversions, %u elements", n);
        }
    }
}

// A jagged device vector over rows that are fixed or resizable.
static void jagged(Ctx& c) {
    Track::reset();
    const unsigned depth = c.steps(2);
    const unsigned nrows = c.want_long   ? 5 + c.choose(30)
                           : c.thorough ? c.choose(5)
                                        : c.choose(4);
    struct Row {
        Store<int, 12> st;
        bool resizable;
        std::vector<int> ref;
    };
    std::vector<std::unique_ptr<Row>> rows;
    std::vector<vecmem::data::vector_view<int>> views;
    for (unsigned r = 0; r < nrows; ++r) {
        auto row = std::make_unique<Row>();
        unsigned cap = c.choose(c.want_long ? 13 : 3);
        row->resizable = c.choose(2);
        row->st.init(cap);
        unsigned n = row->resizable ? c.choose(cap + 1) : cap;
        for (unsigned i = 0; i < cap; ++i) row->st.ptr()[i] = -1;
        for (unsigned i = 0; i < n; ++i) {
            row->st.ptr()[i] = (int)(r * 100 + i);
            row->ref.push_back((int)(r * 100 + i));
        }
        row->st.sz[1] = n;
        if (row->resizable) views.emplace_back(cap, &row->st.sz[1], row->st.ptr());
        else views.emplace_back(cap, row->st.ptr());
        rows.push_back(std::move(row));
    }
    vecmem::data::jagged_vector_view<int> view(nrows, views.data());
    vecmem::jagged_device_vector<int> j0(view);
    vecmem::jagged_device_vector<int> j(j0);
    {
        vecmem::data::jagged_vector_view<int> none(0, nullptr);
        vecmem::jagged_device_vector<int> t(none);
        c.require(t.empty() && t.size() == 0 && t.begin() == t.end(), "empty");
        t = j;
        auto& me = t;
        t = me;
        j = t;
    }
    const auto& cj = j;
    vecmem::data::jagged_vector_view<const int> cview(view);
    vecmem::jagged_device_vector<const int> jc(cview);
    const char* what = "start";
    auto row_ok = [&](auto&& rv, std::size_t r, const char* path) {
        read_all(c, path, rv, rows[r]->ref, rows[r]->st.ptr());
        c.require(rv.capacity() == rows[r]->st.cap, "%s: capacity of row %zu",
                  path, r);
    };
    auto check = [&] {
        c.require(j.size() == nrows && cj.size() == nrows && jc.size() == nrows &&
                      j.empty() == (nrows == 0) && j.capacity() == nrows &&
                      j.max_size() == nrows,
                  "%s: number of rows", what);
        for (std::size_t r = 0; r < nrows; ++r) {
            c.require(rows[r]->st.ok(), "%s: wrote outside of row %zu", what, r);
            row_ok(j[r], r, "[]");
            row_ok(j.at(r), r, "at()");
            row_ok(cj[r], r, "[] const");
            row_ok(cj.at(r), r, "at() const");
            row_ok(jc[r], r, "[] of a const jagged vector");
        }
        if (nrows) {
            row_ok(j.front(), 0, "front()");
            row_ok(j.back(), nrows - 1, "back()");
            row_ok(cj.front(), 0, "front() const");
            row_ok(cj.back(), nrows - 1, "back() const");
        }
        std::size_t r = 0;
        for (auto row : j) row_ok(row, r++, "range for");
        c.require(r == nrows, "begin()..end()");
        r = 0;
        for (const auto& row : cj) row_ok(row, r++, "range for const");
        c.require(r == nrows, "begin()..end() const");
        r = 0;
        for (auto it = jc.cbegin(); it != jc.cend(); ++it) row_ok(*it, r++, "cbegin");
        c.require(r == nrows, "cbegin()..cend()");
        r = nrows;
        for (auto it = j.rbegin(); it != j.rend(); ++it) row_ok(*it, --r, "rbegin");
        c.require(r == 0, "rbegin()..rend()");
        r = nrows;
        for (auto it = cj.crbegin(); it != cj.crend(); ++it)
            row_ok(*it, --r, "crbegin");
        c.require(r == 0, "crbegin()..crend()");
        uint64_t h = nrows;
        for (auto& x : rows) h = hash_ref(h * 3 + x->resizable + x->st.cap, x->ref);
        c.state(h);
    };
    check();
    for (unsigned d = 0; d < depth && nrows; ++d) try {
        std::size_t r = c.choose(nrows);
        Row& row = *rows[r];
        unsigned op = c.choose(4);
        int x = 5000 + (int)d;
        if (op == 0) {
            if (!row.resizable || row.ref.size() == row.st.cap) c.cut();
            c.op("[%zu].push_back", r);
            what = "push_back";
            uint i = j[r].push_back(x);
            c.require(i == row.ref.size(), "push_back returned %u", i);
            row.ref.push_back(x);
        } else if (op == 1) {
            if (!row.resizable || row.ref.empty()) c.cut();
            c.op("[%zu].pop_back", r);
            what = "pop_back";
            (*(j.begin() + (std::ptrdiff_t)r)).pop_back();
            row.ref.pop_back();
        } else if (op == 2) {
            if (row.ref.empty()) c.cut();
            unsigned i = c.choose((unsigned)row.ref.size());
            c.op("[%zu][%u] = ", r, i);
            what = "write";
            if (d) j.at(r)[i] = x;
            else (j.begin() + (std::ptrdiff_t)r)->at(i) = x;
            row.ref[i] = x;
        } else {
            if (!row.resizable) c.cut();
            unsigned k = c.choose((unsigned)row.st.cap + 1);
            c.op("[%zu].resize(%u)", r, k);
            what = "resize";
            j.at(r).resize(k, x);
            row.ref.resize(k, x);
        }
        check();
    } catch (mc::Next&) {
    }
}

// ------------------------------------------------------------- C18 arrays
struct CountMR : vecmem::memory_resource {
    struct B {
        void* raw;
        void* p;
        std::size_t n, al;
        bool live;
    };
    std::vector<B> blocks;
    bool bad = false;
    void* do_allocate(std::size_t n, std::size_t al) override {
        // aligned exactly as asked for, and no better
        unsigned char* raw = (unsigned char*)::operator new(n + 2 * al + 64);
        std::uintptr_t a = ((std::uintptr_t)raw + al - 1) / al * al;
        if (a % (2 * al) == 0) a += al;
        std::memset((void*)a, 0xd7, n);
        blocks.push_back({raw, (void*)a, n, al, true});
        return (void*)a;
    }
    void do_deallocate(void* p, std::size_t n, std::size_t al) override {
        for (auto& b : blocks)
            if (b.p == p && b.live) {
                if (b.n != n || b.al != al) bad = true;
                b.live = false;
                return;
            }
        bad = true;
    }
    bool do_is_equal(const vecmem::memory_resource& o) const noexcept override {
        return this == &o;
    }
    std::size_t live() const {
        std::size_t k = 0;
        for (auto& b : blocks) k += b.live;
        return k;
    }
    ~CountMR() {
        for (auto& b : blocks) ::operator delete(b.raw);
    }
};
// The element access of an array, out of range errors included.
template <class A>
static void arr_read(Ctx& c, const char* what, A& a, const std::vector<int>& ref,
                     bool at_throws, bool fb_throws) {
    read_all(c, what, a, ref, a.data());
    if (at_throws)
        for (std::size_t i : {ref.size(), ref.size() + 1, ref.size() + 1000,
                              SIZE_MAX, SIZE_MAX / 2, std::size_t(1) << 32}) {
            bool threw = false;
            try {
                (void)a.at(i);
            } catch (const std::out_of_range&) {
                threw = true;
            }
            c.require(threw, "%s: at(%zu) of %zu elements did not throw", what, i,
                      ref.size());
        }
    if (fb_throws && ref.empty()) {
        int threw = 0;
        try {
            (void)a.front();
        } catch (const std::out_of_range&) {
            ++threw;
        }
        try {
            (void)a.back();
        } catch (const std::out_of_range&) {
            ++threw;
        }
        c.require(threw == 2, "%s: front()/back() of an empty array", what);
    }
}
template <class A, bool FILL = true>
static void arr_steps(Ctx& c, const char* what, A& a, std::vector<int>& ref,
                      bool at_throws, bool fb_throws, unsigned depth,
                      std::function<void()> extra) {
    using T = typename A::value_type;
    const unsigned steps = c.steps(depth);
    for (unsigned d = 0; d <= steps; ++d) try {
        arr_read(c, what, a, ref, at_throws, fb_throws);
        arr_read(c, what, static_cast<const A&>(a), ref, at_throws, fb_throws);
        CHK(c);
        extra();
        c.state(hash_ref(std::hash<std::string>()(what), ref));
        if (d == steps) break;
        int x = 10 + (int)d;
        if (FILL && c.choose(2)) {
            c.op("fill(%d)", x);
            if constexpr (FILL) a.fill(T(x));
            ref.assign(ref.size(), x);
        } else {
            if (ref.empty()) c.cut();
            write_one(c, a, ref, x);
        }
    } catch (mc::Next&) {
    }
}
template <class T, std::size_t N>
static void harr_run(Ctx& c, unsigned n) {
    using A = vecmem::array<T, N>;
    constexpr bool tracked = !std::is_same_v<T, int>;
    Track::reset();
    CountMR mr;
    {
        std::unique_ptr<A> a;
        if constexpr (N == vecmem::details::array_invalid_size)
            a = std::make_unique<A>(mr, n);
        else
            a = std::make_unique<A>(mr);
        std::size_t held = 0;
        for (auto& b : mr.blocks) held += b.live ? b.n : 0;
        c.require(mr.blocks.size() <= 1 && held >= n * sizeof(T),
                  "array: %zu bytes in %zu blocks for %u elements", held,
                  mr.blocks.size(), n);
        std::vector<int> ref(n, 0);
        if constexpr (!tracked)
            for (unsigned i = 0; i < n; ++i) (*a)[i] = 0;
        c.op("array of %u", n);
        arr_steps(c, "array", *a, ref, true, true, c.thorough ? 3 : 2, [&] {
            if (n)
                c.require((void*)a->data() == mr.blocks[0].p ||
                              ((char*)a->data() >= (char*)mr.blocks[0].p &&
                               (char*)(a->data() + n) <=
                                   (char*)mr.blocks[0].p + mr.blocks[0].n),
                          "array: elements outside of its memory");
            if constexpr (tracked)
                c.require(Track::live == n, "array: %u elements exist, not %u",
                          Track::live, n);
            auto v = vecmem::get_data(*a);
            auto cv = vecmem::get_data(static_cast<const A&>(*a));
            c.require(v.ptr() == a->data() && v.size() == n && v.capacity() == n &&
                          cv.ptr() == a->data() && cv.size() == n &&
                          v.size_ptr() == nullptr,
                      "array: get_data()");
        });
    }
    c.require(mr.live() == 0 && !mr.bad, "array: memory was not given back");
    c.require(Track::live == 0 && Track::err.empty(), "array: elements left, %s",
              Track::err.c_str());
}
template <std::size_t N, std::size_t... I>
static void sarr_get(Ctx& c, vecmem::static_array<int, N>& a,
                     std::index_sequence<I...>) {
    const auto& ca = a;
    c.require(((&a.template get<I>() == &a[I]) && ...), "get<I>()");
    c.require(((&ca.template get<I>() == &a[I]) && ...), "get<I>() const");
    c.require(((&vecmem::get<I>(a) == &a[I]) && ...), "get<I>(a)");
    c.require(((&vecmem::get<I>(ca) == &a[I]) && ...), "get<I>(const a)");
}
template <class T, std::size_t N>
static void sarr_run(Ctx& c) {
    using A = vecmem::static_array<T, N>;
    constexpr bool tracked = !std::is_same_v<T, int>;
    Track::reset();
    {
        A a{};
        static_assert(std::is_aggregate_v<A>, "aggregate");
        c.require(sizeof(A) == N * sizeof(T), "static_array: size");
        c.op("static_array of %zu", N);
        std::vector<int> ref(N, 0);
        arr_steps(c, "static_array", a, ref, true, false, c.thorough ? 3 : 2,
                  [&] {
                      c.require(a.max_size() == N, "max_size");
                      if constexpr (!tracked)
                          sarr_get(c, a, std::make_index_sequence<N>());
                      A b(a);
                      read_both(c, "copy", b, ref, b.data());
                      c.require(a == b && !(a != b), "copy is not equal");
                      for (std::size_t i = 0; i < N; ++i) {
                          A d = a;
                          d[i] = T(-5);
                          c.require(!(a == d) && a != d && !(d == a) && d != a,
                                    "arrays that differ in [%zu] are equal", i);
                      }
                  });
    }
    c.require(Track::live == 0 && Track::err.empty(), "static_array: %s",
              Track::err.c_str());
}
template <std::size_t N>
static void sarr_eq(Ctx& c) {
    // == on every pair of arrays over two values
    vecmem::static_array<int, N> a{}, b{};
    bool eq = true;
    for (std::size_t i = 0; i < N; ++i) {
        a[i] = (int)c.choose(2);
        b[i] = (int)c.choose(2);
        eq = eq && a[i] == b[i];
    }
    c.op("== of %zu", N);
    c.require((a == b) == eq && (a != b) == !eq && (b == a) == eq,
              "static_array: comparison of %zu elements", N);
}
template <std::size_t N>
static void darr_run(Ctx& c) {
    Track::reset();
    {
        Store<Obj, N + 4> st;
        st.init(N);
        uint extra = c.choose(2);  // the view may be larger
        st.cap = N + extra;
        std::vector<int> ref;
        for (std::size_t i = 0; i < N + extra; ++i) {
            new (st.ptr() + i) Obj((int)i);
            if (i < N) ref.push_back((int)i);
        }
        st.sz[1] = (uint)(N + extra);
        bool rs = c.choose(2);
        vecmem::data::vector_view<Obj> v =
            rs ? vecmem::data::vector_view<Obj>((uint)(N + extra), &st.sz[1], st.ptr())
               : vecmem::data::vector_view<Obj>((uint)(N + extra), st.ptr());
        vecmem::device_array<Obj, N> a0(v);
        vecmem::device_array<Obj, N> a(a0);
        {
            vecmem::data::vector_view<Obj> none(0, nullptr);
            vecmem::device_array<Obj, N> t(a0);
            t = a;
            auto& me = t;
            t = me;
            a = t;
        }
        vecmem::device_array<const Obj, N> ca(v);
        c.op("device_array of %zu", N);
        if constexpr (N > 0)
            arr_steps<vecmem::device_array<Obj, N>, false>(c, "device_array", a, ref, false, false,
                      c.thorough ? 3 : 2, [&] {
                          c.require((void*)a.data() == st.ptr(), "data()");
                          c.require(a.max_size() == N, "max_size()");
                          read_all(c, "const device_array", ca, ref, st.ptr());
                          read_both(c, "original", a0, ref, st.ptr());
                          c.require(st.ok() && Track::live == N + extra,
                                    "device_array touched other memory");
                          if (extra)
                              c.require(val(st.ptr()[N]) == (int)N,
                                        "device_array wrote past its end");
                      });
        else
            c.require(a.empty() && a.size() == 0 && a.begin() == a.end() &&
                          a.rbegin() == a.rend() && a.cbegin() == a.cend(),
                      "empty device_array");
        for (std::size_t i = 0; i < N + extra; ++i) st.ptr()[i].~Obj();
    }
}
static void arrays(Ctx& c) {
    constexpr std::size_t DYN = vecmem::details::array_invalid_size;
    if (c.want_long) {
        static const unsigned ns[] = {9, 16, 33, 100};
        switch (c.choose(7)) {
            case 0: harr_run<int, DYN>(c, ns[c.choose(4)]); break;
            case 1: harr_run<Obj, DYN>(c, ns[c.choose(4)]); break;
            case 2: harr_run<Obj, 17>(c, 17); break;
            case 3: sarr_run<int, 12>(c); break;
            case 4: sarr_run<Obj, 33>(c); break;
            case 5: darr_run<31>(c); break;
            default: sarr_eq<6>(c); break;
        }
        return;
    }
    switch (c.choose(18)) {
        case 0: harr_run<int, DYN>(c, c.choose(4)); break;
        case 1: harr_run<Obj, DYN>(c, c.choose(4)); break;
        case 2: harr_run<Obj, 0>(c, 0); break;
        case 3: harr_run<Obj, 1>(c, 1); break;
        case 4: harr_run<int, 3>(c, 3); break;
        case 5: sarr_run<int, 1>(c); break;
        case 6: sarr_run<int, 2>(c); break;
        case 7: sarr_run<int, 4>(c); break;
        case 8: sarr_run<Obj, 1>(c); break;
        case 9: sarr_run<Obj, 3>(c); break;
        case 10: sarr_eq<1>(c); break;
        case 11: sarr_eq<2>(c); break;
        case 12: sarr_eq<4>(c); break;
        case 13: darr_run<0>(c); break;
        case 14: darr_run<1>(c); break;
        case 15: darr_run<3>(c); break;
        case 16: sarr_run<ObjT<64>, 2>(c); break;
        default: {
            vecmem::static_array<int, 0> e{};
            c.require(e.empty() && e.size() == 0 && e.max_size() == 0,
                      "static_array of 0");
        }
    }
}

// Elements which are given away are moved, never copied, by both kinds of vector.
struct Mover {
    static inline unsigned copies = 0;
    Obj o;
    Mover() : o(0) {}
    Mover(int x) : o(x) {}
    Mover(const Mover& m) : o(m.o) { ++copies; }
    Mover(Mover&& m) : o(m.o) { m.o.v = -1; }
    Mover& operator=(const Mover& m) {
        o = m.o;
        ++copies;
        return *this;
    }
    Mover& operator=(Mover&& m) {
        o = m.o;
        m.o.v = -1;
        return *this;
    }
};
template <bool STATIC>
static void moves(Ctx& c) {
    constexpr unsigned N = 3;
    Track::reset();
    Mover::copies = 0;
    {
        using V = std::conditional_t<STATIC, vecmem::static_vector<Mover, N>,
                                     vecmem::device_vector<Mover>>;
        struct Holder {
            alignas(64) unsigned char mem[N * sizeof(Mover) + sizeof(V)];
            unsigned size = 0;
            std::unique_ptr<V> v;
            ~Holder() {
                if (v) v->clear();
            }
        } h;
        if constexpr (STATIC) h.v = std::make_unique<V>();
        else
            h.v = std::make_unique<V>(vecmem::data::vector_view<Mover>(
                N, &h.size, reinterpret_cast<Mover*>(h.mem)));
        V& v = *h.v;
        std::vector<int> ref;
        const unsigned depth = c.steps(c.thorough ? 5 : 4);
        int x = 10;
        for (unsigned d = 0; d < depth; ++d, ++x) {
            const unsigned n = (unsigned)ref.size();
            const unsigned op = c.choose(STATIC ? 7 : 4);
            const char* what = "";
            switch (op) {
                case 0: {
                    if (n == N) c.cut();
                    c.op("%s", what = "emplace_back(temporary)");
                    Mover m(x);
                    Mover& e = v.emplace_back(std::move(m));
                    c.require(&e == &v[n] && val(m.o) == -1,
                              "emplace_back: did not move its argument");
                    ref.push_back(x);
                    break;
                }
                case 1:
                    if (n == N) c.cut();
                    c.op("%s", what = "emplace_back(int)");
                    v.emplace_back(x);
                    ref.push_back(x);
                    break;
                case 2:
                    if (!n) c.cut();
                    c.op("%s", what = "pop_back");
                    v.pop_back();
                    ref.pop_back();
                    break;
                case 3:
                    c.op("%s", what = "clear");
                    v.clear();
                    ref.clear();
                    break;
                default:
                    if constexpr (STATIC) {
                        const unsigned i = c.choose(n + 1);
                        if (op == 6) {
                            const unsigned j = i + c.choose(n - i + 1);
                            c.op("%s (%u,%u)", what = "erase", i, j);
                            if (j == i + 1) v.erase(v.cbegin() + i);
                            else v.erase(v.cbegin() + i, v.cbegin() + j);
                            ref.erase(ref.begin() + i, ref.begin() + j);
                            break;
                        }
                        if (n == N) c.cut();
                        if (op == 4) {
                            c.op("%s (%u)", what = "emplace(temporary)", i);
                            Mover m(x);
                            v.emplace(v.cbegin() + i, std::move(m));
                            c.require(val(m.o) == -1,
                                      "emplace: did not move its argument");
                        } else {
                            c.op("%s (%u)", what = "emplace(int)", i);
                            v.emplace(v.cbegin() + i, x);
                        }
                        ref.insert(ref.begin() + i, x);
                    }
            }
            c.require(Mover::copies == 0, "%s: copied an element", what);
            c.require(v.size() == ref.size(), "%s: the size is %zu, not %zu", what,
                      (std::size_t)v.size(), ref.size());
            for (unsigned i = 0; i < ref.size(); ++i)
                c.require(val(v[i].o) == ref[i], "%s: element %u is %d, not %d", what,
                          i, val(v[i].o), ref[i]);
            c.require(Track::live == ref.size(), "%s: %u elements exist, not %zu",
                      what, Track::live, ref.size());
            c.require(Track::err.empty(), "%s: %s", what, Track::err.c_str());
            c.state(hash_ref(STATIC, ref));
        }
    }
    c.require(Track::live == 0 && Track::err.empty(), "at the end: %u elements, %s",
              Track::live, Track::err.c_str());
}

int main(int argc, char** argv) {
    return mc::run_main(argc, argv,
                        {{"device_vector", devvec, 4, "C13"},
                         {"device_vector_long", mc::longer<devvec>, 3, "C13"},
                         {"device_vector_moves", moves<false>, 4, "C13"},
                         {"static_vector", statvec, 4, "C16"},
                         {"static_vector_moves", moves<true>, 4, "C16"},
                         {"static_vector_long", mc::longer<statvec>, 3, "C16"},
                         {"iterators", iterators, 3, "C17"},
                         {"iterators_long", mc::longer<iterators>, 3, "C17"},
                         {"jagged_device_vector", jagged, 4, "C17"},
                         {"jagged_device_vector_long", mc::longer<jagged>, 3, "C17"},
                         {"arrays", arrays, 3, "C18"},
                         {"arrays_long", mc::longer<arrays>, 3, "C18"}});
}
