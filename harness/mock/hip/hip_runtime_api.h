// Stand-in for the HIP runtime, on top of rt.hpp.
#pragma once
#include "../rt.hpp"

enum hipError_t { hipSuccess = 0, hipErrorUnknown = 999 };
enum hipMemcpyKind {
    hipMemcpyHostToHost = 0,
    hipMemcpyHostToDevice = 1,
    hipMemcpyDeviceToHost = 2,
    hipMemcpyDeviceToDevice = 3,
    hipMemcpyDefault = 4
};
enum { hipMemAttachGlobal = 1 };
enum { hipHostMallocDefault = 0 };

namespace rt {
inline hipError_t hp(bool failed) { return failed ? hipErrorUnknown : hipSuccess; }
inline Dir hp_dir(hipMemcpyKind k) {
    switch (k) {
        case hipMemcpyHostToHost: return H2H;
        case hipMemcpyHostToDevice: return H2D;
        case hipMemcpyDeviceToHost: return D2H;
        case hipMemcpyDeviceToDevice: return D2D;
        default: return ANY;
    }
}
}  // namespace rt

inline const char* hipGetErrorString(hipError_t) { return "stand-in error"; }
inline const char* hipGetErrorName(hipError_t) { return "hipErrorUnknown"; }
inline hipError_t hipGetLastError() { return hipSuccess; }
inline hipError_t hipGetDevice(int* d) { return rt::hp(rt::get_device(d)); }
inline hipError_t hipSetDevice(int d) { return rt::hp(rt::set_device(d)); }
inline hipError_t hipGetDeviceCount(int* n) {
    *n = rt::s.ndev;
    return hipSuccess;
}
template <class T>
inline hipError_t hipMalloc(T** p, size_t n) {
    return rt::hp(rt::alloc((void**)p, n, rt::DEVICE, rt::HIP));
}
template <class T>
inline hipError_t hipHostMalloc(T** p, size_t n, unsigned = 0) {
    return rt::hp(rt::alloc((void**)p, n, rt::HOST, rt::HIP));
}
template <class T>
inline hipError_t hipMallocManaged(T** p, size_t n, unsigned = 1) {
    return rt::hp(rt::alloc((void**)p, n, rt::SHARED, rt::HIP));
}
inline hipError_t hipFree(void* p) {
    return rt::hp(rt::free_checked(p, rt::HIP, false));
}
inline hipError_t hipHostFree(void* p) {
    return rt::hp(rt::free_checked(p, rt::HIP, true));
}
inline hipError_t hipMemcpy(void* to, const void* from, size_t n, hipMemcpyKind k) {
    return rt::hp(rt::copy_now(to, from, n, rt::hp_dir(k)));
}
inline hipError_t hipMemset(void* to, int v, size_t n) {
    return rt::hp(rt::set_now(to, v, n));
}
inline hipError_t hipDeviceSynchronize() { return hipSuccess; }
