// Stand-in for the CUDA runtime, on top of rt.hpp.
#pragma once
#include "rt.hpp"

enum cudaError {
    cudaSuccess = 0,
    cudaErrorInvalidValue = 1,
    cudaErrorMemoryAllocation = 2,
    cudaErrorInvalidDevice = 101,
    cudaErrorUnknown = 999
};
using cudaError_t = cudaError;
using cudaStream_t = rt::Stream*;
using cudaEvent_t = rt::Event*;
enum cudaMemcpyKind {
    cudaMemcpyHostToHost = 0,
    cudaMemcpyHostToDevice = 1,
    cudaMemcpyDeviceToHost = 2,
    cudaMemcpyDeviceToDevice = 3,
    cudaMemcpyDefault = 4
};
struct cudaDeviceProp {
    char name[256];
    int pciBusID, pciDeviceID;
};
enum { cudaEventDefault = 0, cudaEventBlockingSync = 1, cudaEventDisableTiming = 2 };
enum { cudaStreamDefault = 0, cudaStreamNonBlocking = 1 };
enum { cudaMemAttachGlobal = 1 };
enum { cudaHostAllocDefault = 0 };

namespace rt {
inline cudaError_t cu(bool failed) { return failed ? cudaErrorUnknown : cudaSuccess; }
inline Dir cu_dir(cudaMemcpyKind k) {
    switch (k) {
        case cudaMemcpyHostToHost: return H2H;
        case cudaMemcpyHostToDevice: return H2D;
        case cudaMemcpyDeviceToHost: return D2H;
        case cudaMemcpyDeviceToDevice: return D2D;
        default: return ANY;
    }
}
}  // namespace rt

inline const char* cudaGetErrorString(cudaError_t) { return "stand-in error"; }
inline const char* cudaGetErrorName(cudaError_t) { return "cudaErrorUnknown"; }
inline cudaError_t cudaGetLastError() { return cudaSuccess; }
inline cudaError_t cudaPeekAtLastError() { return cudaSuccess; }
inline cudaError_t cudaGetDevice(int* d) { return rt::cu(rt::get_device(d)); }
inline cudaError_t cudaSetDevice(int d) { return rt::cu(rt::set_device(d)); }
inline cudaError_t cudaGetDeviceCount(int* n) {
    *n = rt::s.ndev;
    return cudaSuccess;
}
inline cudaError_t cudaGetDeviceProperties(cudaDeviceProp* p, int d) {
    if (d < 0 || d >= rt::s.ndev) return cudaErrorInvalidDevice;
    std::snprintf(p->name, sizeof p->name, "device %d", d);
    p->pciBusID = d;
    p->pciDeviceID = 0;
    return cudaSuccess;
}
inline cudaError_t cudaMalloc(void** p, size_t n) {
    return rt::cu(rt::alloc(p, n, rt::DEVICE, rt::CUDA));
}
inline cudaError_t cudaMallocHost(void** p, size_t n, unsigned = 0) {
    return rt::cu(rt::alloc(p, n, rt::HOST, rt::CUDA));
}
inline cudaError_t cudaHostAlloc(void** p, size_t n, unsigned) {
    return cudaMallocHost(p, n);
}
inline cudaError_t cudaMallocManaged(void** p, size_t n, unsigned = 1) {
    return rt::cu(rt::alloc(p, n, rt::SHARED, rt::CUDA));
}
inline cudaError_t cudaFree(void* p) {
    return rt::cu(rt::free_checked(p, rt::CUDA, false));
}
inline cudaError_t cudaFreeHost(void* p) {
    return rt::cu(rt::free_checked(p, rt::CUDA, true));
}
inline cudaError_t cudaMemcpy(void* to, const void* from, size_t n, cudaMemcpyKind k) {
    return rt::cu(rt::copy_now(to, from, n, rt::cu_dir(k)));
}
inline cudaError_t cudaMemset(void* to, int v, size_t n) {
    return rt::cu(rt::set_now(to, v, n));
}
inline cudaError_t cudaMemcpyAsync(void* to, const void* from, size_t n,
                                   cudaMemcpyKind k, cudaStream_t st = nullptr) {
    if (!st) rt::bad("an operation was started in the default stream");
    return rt::cu(rt::copy_later(to, from, n, rt::cu_dir(k), st));
}
inline cudaError_t cudaMemsetAsync(void* to, int v, size_t n,
                                   cudaStream_t st = nullptr) {
    if (!st) rt::bad("an operation was started in the default stream");
    return rt::cu(rt::set_later(to, v, n, st));
}
inline cudaError_t cudaStreamCreate(cudaStream_t* st) {
    return rt::cu(rt::stream_create(st));
}
inline cudaError_t cudaStreamCreateWithFlags(cudaStream_t* st, unsigned) {
    return rt::cu(rt::stream_create(st));
}
inline cudaError_t cudaStreamDestroy(cudaStream_t st) {
    return rt::cu(rt::stream_destroy(st));
}
inline cudaError_t cudaStreamSynchronize(cudaStream_t st) {
    return rt::cu(rt::stream_sync(st));
}
inline cudaError_t cudaDeviceSynchronize() {
    for (auto& st : rt::s.streams)
        if (st.dev == rt::s.current) rt::sync_stream(&st);
    return cudaSuccess;
}
inline cudaError_t cudaEventCreate(cudaEvent_t* e) {
    return rt::cu(rt::event_create(e));
}
inline cudaError_t cudaEventCreateWithFlags(cudaEvent_t* e, unsigned) {
    return rt::cu(rt::event_create(e));
}
inline cudaError_t cudaEventRecord(cudaEvent_t e, cudaStream_t st = nullptr) {
    return rt::cu(rt::event_record(e, st));
}
inline cudaError_t cudaEventSynchronize(cudaEvent_t e) {
    return rt::cu(rt::event_sync(e));
}
inline cudaError_t cudaEventDestroy(cudaEvent_t e) {
    return rt::cu(rt::event_destroy(e));
}
