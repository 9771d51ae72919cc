// Stand-ins for the atomic functions of CUDA and HIP device code. As there, they
// are relaxed, and exist for a few types only.
#pragma once
#define __host__
#define __device__
#define __global__
#define __forceinline__ inline
namespace sched {
void device_fence();
}
inline void __threadfence() { sched::device_fence(); }
inline void __threadfence_block() { sched::device_fence(); }
inline void __threadfence_system() { sched::device_fence(); }
#define DEVICE_RMW(T, name, op)                            \
    inline T name(T* p, T v) {                             \
        return __atomic_##op(p, v, __ATOMIC_RELAXED);      \
    }
#define DEVICE_EXTREME(T, name, cmp)                                             \
    inline T name(T* p, T v) {                                                   \
        T o = __atomic_load_n(p, __ATOMIC_RELAXED);                              \
        while (!__atomic_compare_exchange_n(p, &o, o cmp v ? o : v, false,       \
                                            __ATOMIC_RELAXED, __ATOMIC_RELAXED)) \
            ;                                                                    \
        return o;                                                                \
    }
#define DEVICE_ATOMICS(T)                                                        \
    DEVICE_RMW(T, atomicAdd, fetch_add)                                          \
    DEVICE_RMW(T, atomicExch, exchange_n)                                        \
    DEVICE_RMW(T, atomicAnd, fetch_and)                                          \
    DEVICE_RMW(T, atomicOr, fetch_or)                                            \
    DEVICE_RMW(T, atomicXor, fetch_xor)                                          \
    DEVICE_EXTREME(T, atomicMin, <)                                              \
    DEVICE_EXTREME(T, atomicMax, >)                                              \
    inline T atomicCAS(T* p, T cmp, T v) {                                       \
        __atomic_compare_exchange_n(p, &cmp, v, false, __ATOMIC_RELAXED,         \
                                    __ATOMIC_RELAXED);                           \
        return cmp;                                                              \
    }
DEVICE_ATOMICS(int)
DEVICE_ATOMICS(unsigned int)
DEVICE_ATOMICS(unsigned long long)
DEVICE_RMW(int, atomicSub, fetch_sub)
DEVICE_RMW(unsigned int, atomicSub, fetch_sub)
