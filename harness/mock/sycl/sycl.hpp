// Stand-in for SYCL, on top of rt.hpp: queues without an order, whose operations
// run when they are waited for or when the harness says so.
#pragma once
#include <cassert>
#include <exception>
#include <new>

#include "../rt.hpp"

namespace sycl {
class exception : public std::exception {
public:
    const char* what() const noexcept override { return "stand-in error"; }
};
namespace info {
namespace device {
struct name {};
}  // namespace device
}  // namespace info
struct device {
    template <class P>
    std::string get_info() const {
        return "device";
    }
};
class event {
    std::size_t i = ~std::size_t(0);

public:
    event() = default;
    explicit event(std::size_t op) : i(op) {}
    void wait() const {
        if (i != ~std::size_t(0)) rt::run(rt::s.ops[i]);
    }
    void wait_and_throw() const {
        wait();
        if (rt::fault()) throw exception{};
    }
    static void wait(const std::vector<event>& v) {
        for (auto& e : v) e.wait();
    }
    static void wait_and_throw(const std::vector<event>& v) {
        wait(v);
        if (!v.empty() && rt::fault()) throw exception{};
    }
};
class queue {
    rt::Stream* st;

public:
    queue() : st(rt::new_stream(0, false, false)) {
        if (rt::fault()) throw exception{};
    }
    explicit queue(rt::Stream* x) : st(x) {}
    friend bool operator==(const queue& a, const queue& b) { return a.st == b.st; }
    friend bool operator!=(const queue& a, const queue& b) { return a.st != b.st; }
    rt::Stream* stand_in() const { return st; }
    device get_device() const { return {}; }
    event memcpy(void* to, const void* from, std::size_t n) {
        if (rt::copy_later(to, from, n, rt::ANY, st)) throw exception{};
        return event(rt::s.ops.size() - 1);
    }
    template <class T>
    event copy(const T* from, T* to, std::size_t n) {
        return memcpy(to, from, n * sizeof(T));
    }
    event memset(void* to, int v, std::size_t n) {
        if (rt::set_later(to, v, n, st)) throw exception{};
        return event(rt::s.ops.size() - 1);
    }
    void wait() { rt::sync_stream(st); }
    void wait_and_throw() {
        wait();
        if (rt::fault()) throw exception{};
    }
};
namespace stand_in {
inline void* get(std::size_t al, std::size_t n, const queue& q, rt::Kind k) {
    if (rt::fault()) return nullptr;
    return rt::get(n, al ? al : 16, k, rt::SYCL, q.stand_in()->id);
}
}  // namespace stand_in
inline void* aligned_alloc_device(std::size_t al, std::size_t n, const queue& q) {
    return stand_in::get(al, n, q, rt::DEVICE);
}
inline void* aligned_alloc_host(std::size_t al, std::size_t n, const queue& q) {
    return stand_in::get(al, n, q, rt::HOST);
}
inline void* aligned_alloc_shared(std::size_t al, std::size_t n, const queue& q) {
    return stand_in::get(al, n, q, rt::SHARED);
}
inline void* malloc_device(std::size_t n, const queue& q) {
    return stand_in::get(16, n, q, rt::DEVICE);
}
inline void* malloc_host(std::size_t n, const queue& q) {
    return stand_in::get(16, n, q, rt::HOST);
}
inline void* malloc_shared(std::size_t n, const queue& q) {
    return stand_in::get(16, n, q, rt::SHARED);
}
inline void free(void* p, const queue& q) {
    if (!p) return;
    const rt::Block* b = rt::find(p);
    if (!b || b->api != rt::SYCL)
        return rt::bad("memory was released which is not held");
    if (b->dev != q.stand_in()->id)
        return rt::bad("memory was released through another queue");
    rt::put(p);
}
}  // namespace sycl
