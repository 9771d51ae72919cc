// An element type which reports every lifetime error: construction is recorded
// under a fresh identity, which travels with the object representation (so that
// containers may relocate elements bitwise), and is retired by the destructor.
#pragma once
#include <cstdint>
#include <cstdio>
#include <string>
#include <vector>

struct Track {
    static inline std::vector<const void*> where;  // id -> address, null: dead
    static inline unsigned live = 0;
    static inline std::string err;
    // When non-zero: the constructor which brings the count to zero throws.
    static inline unsigned throw_at = 0;
    static void reset() {
        where.assign(1, nullptr);
        live = 0;
        err.clear();
        throw_at = 0;
    }
    static void bad(const char* m) {
        if (err.empty()) err = m;
    }
};
struct Thrown {};

template <std::size_t ALIGN, bool THROWS = false>
struct alignas(ALIGN) ObjT {
    int v = 0;
    uint32_t id = 0;
    uint32_t magic = 0;
    static constexpr uint32_t MAGIC = 0x5eed1234u;

    void born() {
        if (THROWS && Track::throw_at && !--Track::throw_at) throw Thrown{};
        if ((std::uintptr_t)this % ALIGN) Track::bad("misaligned element");
        id = (uint32_t)Track::where.size();
        magic = MAGIC;
        Track::where.push_back(this);
        ++Track::live;
    }
    bool ok() const {
        return magic == MAGIC && id < Track::where.size() && Track::where[id];
    }
    ObjT() : v(0) { born(); }
    ObjT(int x) : v(x) { born(); }
    ObjT(int x, int y) : v(x + y) { born(); }
    ObjT(const ObjT& o) : v(o.v) {
        if (!o.ok()) Track::bad("copied from something that is not an element");
        born();
    }
    ObjT& operator=(const ObjT& o) {
        if (!o.ok()) Track::bad("assigned from something that is not an element");
        if (!ok()) Track::bad("assigned to something that is not an element");
        v = o.v;
        return *this;
    }
    ~ObjT() {
        if (!ok()) {
            Track::bad("destroyed something that is not an element");
            return;
        }
        Track::where[id] = nullptr;
        --Track::live;
        magic = 0xdeadu;
    }
    bool operator==(const ObjT& o) const { return v == o.v; }
    bool operator!=(const ObjT& o) const { return v != o.v; }
};
using Obj = ObjT<4>;

inline int val(const int& x) { return x; }
template <std::size_t A, bool T>
int val(const ObjT<A, T>& x) {
    if (!x.ok()) Track::bad("an element does not exist");
    return x.v;
}
