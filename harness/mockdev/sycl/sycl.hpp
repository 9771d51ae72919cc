// Stand-ins for the atomics of SYCL.
#pragma once
#include <atomic>
#include <cassert>
#include <type_traits>

namespace sycl {
enum class memory_order : int {
    relaxed, acquire, __consume_unsupported, release, acq_rel, seq_cst
};
enum class memory_scope { work_item, sub_group, work_group, device, system };
namespace access {
enum class address_space : int {
    private_space, global_space, constant_space, local_space, generic_space
};
}
template <class T, access::address_space A>
class multi_ptr {
    T* p;

public:
    explicit multi_ptr(T* x) : p(x) {}
    T* get() const { return p; }
};
template <class T>
using global_ptr = multi_ptr<T, access::address_space::global_space>;
template <class T>
using local_ptr = multi_ptr<T, access::address_space::local_space>;

// Of SYCL 1.2.1
template <class T, access::address_space A = access::address_space::global_space>
class atomic {
    T* p;

public:
    explicit atomic(multi_ptr<T, A> x) : p(x.get()) {}
    void store(T v, memory_order = memory_order::relaxed) {
        __atomic_store_n(p, v, __ATOMIC_RELAXED);
    }
    T load(memory_order = memory_order::relaxed) const {
        return __atomic_load_n(p, __ATOMIC_RELAXED);
    }
    T exchange(T v, memory_order = memory_order::relaxed) {
        return __atomic_exchange_n(p, v, __ATOMIC_RELAXED);
    }
    bool compare_exchange_strong(T& e, T v, memory_order = memory_order::relaxed,
                                 memory_order = memory_order::relaxed) {
        return __atomic_compare_exchange_n(p, &e, v, false, __ATOMIC_RELAXED,
                                           __ATOMIC_RELAXED);
    }
#define SYCL_RMW(name)                                          \
    T name(T v, memory_order = memory_order::relaxed) {         \
        return __atomic_##name(p, v, __ATOMIC_RELAXED);         \
    }
    SYCL_RMW(fetch_add)
    SYCL_RMW(fetch_sub)
    SYCL_RMW(fetch_and)
    SYCL_RMW(fetch_or)
    SYCL_RMW(fetch_xor)
#undef SYCL_RMW
};
#define SYCL_FREE(name)                                                          \
    template <class T, access::address_space A>                                  \
    T atomic_##name(atomic<T, A> o, T v, memory_order m = memory_order::relaxed) { \
        return o.name(v, m);                                                     \
    }
SYCL_FREE(exchange)
SYCL_FREE(fetch_add)
SYCL_FREE(fetch_sub)
SYCL_FREE(fetch_and)
SYCL_FREE(fetch_or)
SYCL_FREE(fetch_xor)
#undef SYCL_FREE
template <class T, access::address_space A>
void atomic_store(atomic<T, A> o, T v, memory_order m = memory_order::relaxed) {
    o.store(v, m);
}
template <class T, access::address_space A>
T atomic_load(atomic<T, A> o, memory_order m = memory_order::relaxed) {
    return o.load(m);
}
template <class T, access::address_space A>
bool atomic_compare_exchange_strong(atomic<T, A> o, T& e, T v,
                                    memory_order s = memory_order::relaxed,
                                    memory_order f = memory_order::relaxed) {
    return o.compare_exchange_strong(e, v, s, f);
}

// Of SYCL 2020
template <class T, memory_order O, memory_scope S,
          access::address_space A = access::address_space::generic_space>
class atomic_ref {
    T* p;
    static constexpr int mo(memory_order o) {
        return o == memory_order::relaxed   ? __ATOMIC_RELAXED
               : o == memory_order::acquire ? __ATOMIC_ACQUIRE
               : o == memory_order::release ? __ATOMIC_RELEASE
               : o == memory_order::acq_rel ? __ATOMIC_ACQ_REL
                                            : __ATOMIC_SEQ_CST;
    }
    static constexpr memory_order failing(memory_order o) {
        return o == memory_order::acq_rel   ? memory_order::acquire
               : o == memory_order::release ? memory_order::relaxed
                                            : o;
    }

public:
    using value_type = T;
    using difference_type = T;
    static constexpr memory_order default_read_order =
        O == memory_order::acq_rel ? memory_order::acquire : O;
    static constexpr memory_order default_write_order =
        O == memory_order::acq_rel ? memory_order::release : O;
    static constexpr memory_order default_read_modify_write_order = O;
    explicit atomic_ref(T& r) : p(&r) {}
    atomic_ref(const atomic_ref&) noexcept = default;
    atomic_ref& operator=(const atomic_ref&) = delete;
    T operator=(T v) const {
        store(v);
        return v;
    }
    operator T() const { return load(); }
    void store(T v, memory_order o = default_write_order) const {
        __atomic_store_n(p, v, mo(o));
    }
    T load(memory_order o = default_read_order) const {
        return __atomic_load_n(p, mo(o));
    }
    T exchange(T v, memory_order o = O) const { return __atomic_exchange_n(p, v, mo(o)); }
    bool compare_exchange_strong(T& e, T v, memory_order s, memory_order f) const {
        return __atomic_compare_exchange_n(p, &e, v, false, mo(s), mo(f));
    }
    bool compare_exchange_strong(T& e, T v, memory_order o = O) const {
        return compare_exchange_strong(e, v, o, failing(o));
    }
    bool compare_exchange_weak(T& e, T v, memory_order s, memory_order f) const {
        return compare_exchange_strong(e, v, s, f);
    }
    bool compare_exchange_weak(T& e, T v, memory_order o = O) const {
        return compare_exchange_strong(e, v, o);
    }
#define SYCL_RMW(name) \
    T name(T v, memory_order o = O) const { return __atomic_##name(p, v, mo(o)); }
    SYCL_RMW(fetch_add)
    SYCL_RMW(fetch_sub)
    SYCL_RMW(fetch_and)
    SYCL_RMW(fetch_or)
    SYCL_RMW(fetch_xor)
#undef SYCL_RMW
};
}  // namespace sycl
