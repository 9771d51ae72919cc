// C34: histories of tuples, in lockstep with lists of values.
#include <array>
#include <string>
#include <type_traits>
#include <utility>
#include <vecmem/utils/tuple.hpp>

#include "mc.hpp"
#include "tracked.hpp"

using mc::Ctx;
using vecmem::tuple;

// Tells copies from moves, and reports lifetime errors through Obj.
struct Mov {
    static inline unsigned moves = 0;
    Obj o;
    Mov() : o(0) {}
    Mov(int x) : o(x) {}
    Mov(const Mov& m) : o(m.o) {}
    Mov(Mov&& m) : o(m.o) {
        m.o.v = -1;
        ++moves;
    }
    Mov& operator=(const Mov& m) {
        o = m.o;
        return *this;
    }
    Mov& operator=(Mov&& m) {
        if (this == &m) return *this;
        o = m.o;
        m.o.v = -1;
        ++moves;
        return *this;
    }
};
// What a Mov can be converted to.
struct Wider {
    Obj o;
    Wider() : o(0) {}
    Wider(const Mov& m) : o(m.o) {}
};
struct Only {  // can only be moved
    Obj o;
    Only() : o(0) {}
    explicit Only(int x) : o(x) {}
    Only(Only&& x) : o(x.o) { x.o.v = -1; }
    Only& operator=(Only&& x) {
        o = x.o;
        x.o.v = -1;
        return *this;
    }
};
static long num(const Mov& m) { return val(m.o); }
static long num(const Wider& m) { return val(m.o); }
static long num(const Only& m) { return val(m.o); }
static long num(const std::string& s) { return std::stol(s); }
template <class T, class = std::enable_if_t<std::is_arithmetic<T>::value>>
static long num(const T& x) {
    return (long)x;
}
template <class T>
static T mk(long v) {
    if constexpr (std::is_same<T, std::string>::value)
        return "00000000000000000000" + std::to_string(v);
    else
        return T((int)v);
}
constexpr size_t MAXN = 5;
using Vals = std::array<long, MAXN>;

template <class... Ts>
struct Runner {
    using T = tuple<Ts...>;
    static constexpr size_t N = sizeof...(Ts);
    using Idx = std::make_index_sequence<N>;
    template <size_t I>
    using E = std::tuple_element_t<I, std::tuple<Ts...>>;

    template <size_t... I>
    static Vals read(const T& t, std::index_sequence<I...>) {
        Vals v{};
        ((v[I] = num(vecmem::get<I>(t))), ...);
        return v;
    }
    template <size_t... I>
    static Vals read2(T& t, std::index_sequence<I...>) {
        Vals v{};
        ((v[I] = num(vecmem::get<I>(t))), ...);
        return v;
    }
    // The elements are different objects inside of the tuple, in order.
    template <size_t... I>
    static void places(Ctx& c, T& t, std::index_sequence<I...>) {
        const char* p[] = {(const char*)&vecmem::get<I>(t)...};
        const char* q[] = {(const char*)&vecmem::get<I>(std::as_const(t))...};
        const size_t n[] = {sizeof(E<I>)...};
        for (size_t i = 0; i < N; ++i) {
            c.require(p[i] == q[i], "constant access to element %zu goes elsewhere", i);
            c.require(p[i] >= (const char*)&t && p[i] + n[i] <= (const char*)(&t + 1),
                      "element %zu is outside of the tuple", i);
            for (size_t j = 0; j < i; ++j)
                c.require(p[i] + n[i] <= p[j] || p[j] + n[j] <= p[i],
                          "elements %zu and %zu overlap", i, j);
        }
        static_assert((std::is_same<vecmem::tuple_element_t<I, T>, E<I>>::value && ...),
                      "element types");
    }
    template <size_t... I>
    static void write(T& t, size_t i, long v, std::index_sequence<I...>) {
        ((I == i ? (void)(vecmem::get<I>(t) = mk<E<I>>(v)) : (void)0), ...);
    }
    template <size_t... I>
    static T by_move(const Vals& v, std::index_sequence<I...>) {
        return T{mk<E<I>>(v[I])...};
    }
    template <size_t... I>
    static T made_by_move(const Vals& v, std::index_sequence<I...>) {
        return vecmem::make_tuple(mk<E<I>>(v[I])...);
    }
    template <size_t... I>
    static T by_copy(Ctx& c, const Vals& v, bool make, std::index_sequence<I...>) {
        std::tuple<E<I>...> x{mk<E<I>>(v[I])...};
        const unsigned m = Mov::moves;
        auto t = make ? vecmem::make_tuple(std::get<I>(x)...)
                      : T{std::get<I>(x)...};
        static_assert(std::is_same<decltype(t), T>::value, "decayed");
        if (!make) c.require(m == Mov::moves, "moved from values which are kept");
        c.require(((num(std::get<I>(x)) == v[I]) && ...), "the originals were changed");
        return t;
    }
    // Head and tail
    template <class U, class... Us>
    static tuple<U, Us...> joined(const Vals& v) {
        return join<U, Us...>(v, std::index_sequence_for<Us...>{});
    }
    template <class U, class... Us, size_t... I>
    static tuple<U, Us...> join(const Vals& v, std::index_sequence<I...>) {
        return tuple<U, Us...>(mk<U>(v[0]), tuple<Us...>{mk<Us>(v[I + 1])...});
    }
    template <size_t... I>
    static void tied(Ctx& c, const T& from, std::index_sequence<I...>) {
        std::tuple<E<I>...> x{E<I>(vecmem::get<I>(from))...};
        auto t = vecmem::tie(std::get<I>(x)...);
        static_assert(std::is_same<decltype(t), tuple<E<I>&...>>::value, "references");
        c.require(((&vecmem::get<I>(t) == &std::get<I>(x)) && ...),
                  "a tied element refers to something else");
        auto u = t;  // still the same objects
        c.require(((&vecmem::get<I>(u) == &std::get<I>(x)) && ...),
                  "a copy of a tied tuple refers to something else");
        for (size_t i = 0; i < N; ++i) {
            ((I == i ? (void)(vecmem::get<I>(u) = mk<E<I>>(77)) : (void)0), ...);
            const long g[] = {num(std::get<I>(x))...};
            for (size_t j = 0; j < N; ++j)
                c.require(j > i || g[j] == 77, "a write through a tied tuple is lost");
        }
        // Copying the referred values makes them independent.
        T own{t};
        ((vecmem::get<I>(t) = mk<E<I>>(5)), ...);
        for (long g : {num(vecmem::get<I>(own))...})
            c.require(g == 77, "a tuple still refers to the tied objects");
    }
    template <size_t... I>
    static void nested(Ctx& c, const T& t, std::index_sequence<I...>) {
        auto n = vecmem::make_tuple(1, t, 3L);
        c.require(vecmem::get<0>(n) == 1 && vecmem::get<2>(n) == 3, "around a nested one");
        c.require(read(vecmem::get<1>(n), Idx{}) == read(t, Idx{}), "a nested tuple");
        auto m = n;
        c.require(read(vecmem::get<1>(m), Idx{}) == read(t, Idx{}),
                  "a copy of a nested tuple");
    }

    static void run(Ctx& c) {
        constexpr bool MOVE_ONLY = !(std::is_copy_constructible<Ts>::value && ...);
        Track::reset();
        {
            T t[2]{};
            Vals want[2]{};
            ((void)0);
            long next = 1;
            auto zero = [&](size_t k) {
                Vals v{};
                for (size_t i = 0; i < N; ++i) v[i] = 0;
                t[k] = by_move(v, Idx{});
                want[k] = v;
            };
            zero(0), zero(1);
            auto fresh = [&] {
                Vals v{};
                for (size_t i = 0; i < N; ++i) v[i] = next++ % 100;
                return v;
            };
            auto check = [&] {
                for (size_t k = 0; k < 2; ++k) {
                    Vals v = read(t[k], Idx{}), w = read2(t[k], Idx{});
                    for (size_t i = 0; i < N; ++i)
                        c.require(v[i] == want[k][i] && w[i] == want[k][i],
                                  "tuple %zu: element %zu is %ld/%ld, not %ld", k, i, v[i],
                                  w[i], want[k][i]);
                    places(c, t[k], Idx{});
                }
                c.require(Track::err.empty(), "%s", Track::err.c_str());
            };
            check();
            const unsigned depth = c.steps(c.thorough ? 5 : 4);
            for (unsigned s = 0; s < depth; ++s) {
                unsigned op = c.choose(11);
                if (op == 10 && c.stop()) break;
                const size_t k = c.choose(2);
                if (MOVE_ONLY && (op == 1 || op == 3 || op == 6 || op == 7 || op == 8))
                    c.cut();
                switch (op) {
                    case 0: {
                        Vals v = fresh();
                        c.op("tuple %zu from temporaries", k);
                        t[k] = by_move(v, Idx{});
                        want[k] = v;
                        break;
                    }
                    case 1:
                        if constexpr (!MOVE_ONLY) {
                            bool make = c.choose(2);
                            Vals v = fresh();
                            c.op("tuple %zu from %svariables", k, make ? "make_tuple of " : "");
                            t[k] = by_copy(c, v, make, Idx{});
                            want[k] = v;
                        }
                        break;
                    case 2: {
                        Vals v = fresh();
                        c.op("tuple %zu from make_tuple", k);
                        t[k] = made_by_move(v, Idx{});
                        want[k] = v;
                        break;
                    }
                    case 3:
                        if constexpr (!MOVE_ONLY) {
                            bool ctor = c.choose(2);
                            c.op("tuple %zu %s the other one", k, ctor ? "copies" : "=");
                            if (ctor) {
                                T x(std::as_const(t[1 - k]));
                                c.require(read(x, Idx{}) == want[1 - k], "wrong copy");
                                t[k] = x;
                            } else
                                t[k] = t[1 - k];
                            want[k] = want[1 - k];
                        }
                        break;
                    case 4: {
                        bool ctor = c.choose(2);
                        c.op("tuple %zu %s the other one", k, ctor ? "moves" : "= moved from");
                        if (ctor) {
                            T x(std::move(t[1 - k]));
                            c.require(read(x, Idx{}) == want[1 - k], "wrong move");
                            t[k] = std::move(x);
                        } else
                            t[k] = std::move(t[1 - k]);
                        want[k] = want[1 - k];
                        Vals v = fresh();
                        t[1 - k] = by_move(v, Idx{});
                        want[1 - k] = v;
                        break;
                    }
                    case 5: {
                        size_t i = c.choose(N);
                        long v = next++ % 100;
                        c.op("write %ld to element %zu of tuple %zu", v, i, k);
                        write(t[k], i, v, Idx{});
                        want[k][i] = v;
                        break;
                    }
                    case 6:
                        if constexpr (!MOVE_ONLY) {
                            c.op("tie to variables with the values of tuple %zu", k);
                            tied(c, t[k], Idx{});
                        }
                        break;
                    case 7:
                        if constexpr (!MOVE_ONLY) {
                            c.op("nest tuple %zu", k);
                            nested(c, t[k], Idx{});
                        }
                        break;
                    case 8:
                        if constexpr (!MOVE_ONLY) {
                            c.op("convert tuple %zu", k);
                            tuple<Conv<Ts>...> x(std::as_const(t[k]));
                            Vals v = Runner<Conv<Ts>...>::read(x, Idx{});
                            c.require(v == want[k], "wrong conversion");
                        }
                        break;
                    default: {
                        Vals v = fresh();
                        c.op("tuple %zu from head and tail", k);
                        t[k] = joined<Ts...>(v);
                        want[k] = v;
                    }
                }
                check();
                uint64_t h = op;
                for (size_t j = 0; j < 2; ++j)
                    for (size_t i = 0; i < N; ++i) h = mc::mix(h, (uint64_t)want[j][i]);
                c.state(h);
            }
        }
        c.require(!Track::live, "%u elements were never destroyed", Track::live);
        c.require(Track::err.empty(), "%s", Track::err.c_str());
    }
    template <class X>
    struct ConvT {
        using type = X;
    };
    template <class X>
    using Conv = std::conditional_t<
        std::is_same<X, Mov>::value, Wider,
        std::conditional_t<std::is_same<X, int>::value, long,
                           std::conditional_t<std::is_same<X, short>::value, int, X>>>;
};
int main(int argc, char** argv) {
    using A = Runner<Mov, int, Mov>;
    using B = Runner<int, std::string, long, Mov, short>;
    using D = Runner<Mov>;
    using F = Runner<int, Only, char>;
    using G = Runner<long, long>;
    return mc::run_main(argc, argv,
                        {{"tuples_of_objects", A::run, 4, "C34"},
                         {"tuples_of_objects_long", mc::longer<A::run>, 3, "C34"},
                         {"tuples_of_many_types", B::run, 4, "C34"},
                         {"tuples_of_many_types_long", mc::longer<B::run>, 3, "C34"},
                         {"tuples_of_one", D::run, 4, "C34"},
                         {"tuples_of_moved_values", F::run, 4, "C34"},
                         {"tuples_of_moved_values_long", mc::longer<F::run>, 3, "C34"},
                         {"tuples_of_two", G::run, 4, "C34"}});
}
