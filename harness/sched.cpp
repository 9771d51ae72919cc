// See sched.hpp. This file must not be instrumented and uses nothing from the
// C++ library, so that no code is shared with the instrumented part.
#include "sched.hpp"

#include <errno.h>
#include <pthread.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/mman.h>
#include <time.h>
#include <unistd.h>

using u8 = uint8_t;
using u32 = uint32_t;
using u64 = uint64_t;

extern "C" void fiber_switch(void** from, void* to);
asm(R"(
.text
.globl fiber_switch
.type fiber_switch,@function
fiber_switch:
    pushq %rbp
    pushq %rbx
    pushq %r12
    pushq %r13
    pushq %r14
    pushq %r15
    subq $8, %rsp
    stmxcsr (%rsp)
    fnstcw 4(%rsp)
    movq %rsp, (%rdi)
    movq %rsi, %rsp
    ldmxcsr (%rsp)
    fldcw 4(%rsp)
    addq $8, %rsp
    popq %r15
    popq %r14
    popq %r13
    popq %r12
    popq %rbx
    popq %rbp
    ret
.size fiber_switch,.-fiber_switch
)");

namespace __cxxabiv1 {
struct eh_globals {
    void* caught;
    unsigned uncaught;
};
extern "C" eh_globals* __cxa_get_globals();
}  // namespace __cxxabiv1

namespace sched {
namespace {
int quiet = 0;
constexpr int T = MAXT + 1;  // 0 is the main context
struct Clock {
    u32 c[T];
    void join(const Clock& o) {
        for (int i = 0; i < T; ++i)
            if (o.c[i] > c[i]) c[i] = o.c[i];
    }
};
enum Wait { NONE, MUTEX, RDLOCK, COND };
struct Fiber {
    char* stack;
    void* sp;
    void (*f)(void*);
    void* arg;
    bool used, finished;
    bool fenced;  // the next access of shared memory follows a device fence
    bool loaded;  // a device load waits for the fence behind it
    Wait wait;
    void* what;
    void* cond_mutex;
    bool signalled;
    Clock clk, acq, rel;  // acq: of relaxed loads, rel: at the last release fence
    unsigned steps, streak;
    char pend[80];
    __cxxabiv1::eh_globals eh;
};
Fiber fib[T];
int cur = 0, nf = 0, last = 0;
void* main_sp;
__cxxabiv1::eh_globals main_eh;
char err[512];
bool has_err = false;
u64 hist = 0;
unsigned total = 0;
constexpr size_t STACK = 256 * 1024;

struct Sync {  // a lock or an atomic variable
    uintptr_t a;
    u32 gen;
    Clock c;
    int owner;  // 0: nobody, otherwise 1 + context
    unsigned count, readers;
};
constexpr u32 NSYNC = 4096;
Sync syncs[NSYNC];
struct Cell {
    uintptr_t a;
    u32 gen;
    u32 w[T], r[T], aw[T], ar[T];
    void* pc;
};
constexpr u32 NCELL = 1 << 16;
Cell* cells;
u32 gen = 0;

void zero(void* p, size_t n) {
    volatile char* c = (volatile char*)p;
    for (size_t i = 0; i + 8 <= n; i += 8) *(volatile u64*)(c + i) = 0;
    for (size_t i = n / 8 * 8; i < n; ++i) c[i] = 0;
}
[[noreturn]] void die(const char* m) {
    fprintf(stderr, "sched: %s\n", m);
    _exit(3);
}
void* here;  // the access being looked at
u32 hash(uintptr_t a) {
    u64 h = a * 0x9e3779b97f4a7c15ull;
    return (u32)(h >> 40);
}
Sync& sync_of(const volatile void* p) {
    uintptr_t a = (uintptr_t)p;
    for (u32 i = hash(a), n = 0;; ++i, ++n) {
        Sync& s = syncs[i % NSYNC];
        if (s.gen != gen) {
            zero(&s, sizeof s);
            s.gen = gen;
            s.a = a;
            return s;
        }
        if (s.a == a) return s;
        if (n > NSYNC / 2) die("too many synchronisation objects");
    }
}
Cell& cell_of(uintptr_t a) {
    for (u32 i = hash(a), n = 0;; ++i, ++n) {
        Cell& s = cells[i % NCELL];
        if (s.gen != gen) {
            zero(&s, sizeof s);
            s.gen = gen;
            s.a = a;
            return s;
        }
        if (s.a == a) return s;
        if (n > NCELL / 2) die("too many memory cells");
    }
}
void to_main() {
    Fiber& f = fib[cur];
    f.eh = *__cxxabiv1::__cxa_get_globals();
    *__cxxabiv1::__cxa_get_globals() = main_eh;
    last = cur;
    cur = 0;
    fiber_switch(&f.sp, main_sp);
}
void enter(int t) {
    main_eh = *__cxxabiv1::__cxa_get_globals();
    *__cxxabiv1::__cxa_get_globals() = fib[t].eh;
    cur = t;
    fiber_switch(&main_sp, fib[t].sp);
}
void set_err(const char* m) {
    if (has_err) return;
    has_err = true;
    snprintf(err, sizeof err, "%s", m);
}
void body() {
    Fiber& f = fib[cur];
    f.f(f.arg);
    f.finished = true;
    to_main();
    die("resumed a finished fiber");
}
// Wait until the explorer lets this fiber do its next visible operation.
void point(const char* what, const volatile void* p, Wait w = NONE) {
    if (cur == 0 || quiet) return;
    Fiber& f = fib[cur];
    f.wait = w;
    f.what = (void*)p;
    snprintf(f.pend, sizeof f.pend, "%s", what);
    to_main();
    f.wait = NONE;
    ++f.steps;
    ++f.streak;
    hist = (hist ^ (u64)cur) * 0x100000001b3ull;
}
bool enabled(const Fiber& f) {
    if (f.finished || !f.used) return false;
    switch (f.wait) {
        case MUTEX: {
            Sync& s = sync_of(f.what);
            return s.readers == 0 && s.owner == 0;
        }
        case RDLOCK:
            return sync_of(f.what).owner == 0;
        case COND: {
            Sync& s = sync_of(f.cond_mutex);
            return f.signalled && s.owner == 0;
        }
        default:
            return true;
    }
}
void race(uintptr_t a, int other, bool w, bool atomic, bool ow, bool oatomic) {
    char m[256];
    snprintf(m, sizeof m,
             "data race: thread %d %s%s memory which thread %d %s%s without order "
             "between the two",
             cur, atomic ? "atomically " : "", w ? "writes" : "reads", other,
             oatomic ? "atomically " : "", ow ? "writes" : "reads");
    set_err(m);
    if (getenv("SCHED_DEBUG")) {
        int on = 0;
        for (int i = 1; i <= nf; ++i)
            if (a - (uintptr_t)fib[i].stack < STACK) on = i;
        fprintf(stderr, "race on %p (stack %d) at %p, other %p\n", (void*)a, on, here,
                cell_of(a).pc);
    }
    to_main();
}
void access_(const volatile void* p, size_t n, bool write, bool atomic);
// In device code, accesses of one word after a fence, or of a volatile one, are
// indivisible, though not ordered.
bool device_word(const volatile void* p, size_t n) {
    return n <= 8 && (uintptr_t)p % n == 0 &&
           (uintptr_t)p - (uintptr_t)fib[cur].stack >= STACK;
}
void device_access(const volatile void* p, size_t n, bool write);
inline __attribute__((always_inline)) void access(const volatile void* p, size_t n,
                                                  bool write, bool atomic) {
    if (cur == 0 || quiet) return;
    here = __builtin_return_address(0);
    if (fib[cur].fenced && !atomic && device_word(p, n)) {
        device_access(p, n, write);
        return;
    }
    access_(p, n, write, atomic);
}
void access_(const volatile void* p, size_t n, bool write, bool atomic) {
    uintptr_t a = (uintptr_t)p;
    Fiber& f = fib[cur];
    for (size_t i = 0; i < n; ++i) {
        Cell& c = cell_of(a + i);
        for (int t = 1; t < T; ++t) {
            if (t == cur) continue;
            u32 k = f.clk.c[t];
            if (c.w[t] > k) race(a, t, write, atomic, true, false);
            if (write && c.r[t] > k) race(a, t, write, atomic, false, false);
            if (!atomic && c.aw[t] > k) race(a, t, write, atomic, true, true);
            if (!atomic && write && c.ar[t] > k) race(a, t, write, atomic, false, true);
        }
        c.pc = here;
        u32 now = f.clk.c[cur];
        if (atomic) (write ? c.aw : c.ar)[cur] = now;
        else (write ? c.w : c.r)[cur] = now;
    }
}
void forget(void* p, size_t n) {
    if (!p || cur == 0) return;
    if (n > 4096) n = 4096;
    for (size_t i = 0; i < n; ++i) {
        Cell& c = cell_of((uintptr_t)p + i);
        uintptr_t a = c.a;
        zero(&c, sizeof c);
        c.a = a;
        c.gen = gen;
    }
}
void tick() { ++fib[cur].clk.c[cur]; }
bool is_acq(int mo) {
    return mo == __ATOMIC_ACQUIRE || mo == __ATOMIC_CONSUME ||
           mo == __ATOMIC_ACQ_REL || mo == __ATOMIC_SEQ_CST;
}
bool is_rel(int mo) {
    return mo == __ATOMIC_RELEASE || mo == __ATOMIC_ACQ_REL || mo == __ATOMIC_SEQ_CST;
}
void at_load(const volatile void* p, int mo) {
    if (cur == 0 || quiet) return;
    Sync& s = sync_of(p);
    if (is_acq(mo)) fib[cur].clk.join(s.c);
    else fib[cur].acq.join(s.c);
}
void at_store(const volatile void* p, int mo, bool rmw) {
    if (cur == 0 || quiet) return;
    Sync& s = sync_of(p);
    if (!rmw) s.c = Clock{};
    if (is_rel(mo)) s.c.join(fib[cur].clk);
    else s.c.join(fib[cur].rel);
    tick();
}
void device_access(const volatile void* p, size_t n, bool write) {
    fib[cur].loaded = fib[cur].fenced && !write;
    fib[cur].fenced = false;
    point(write ? "device store" : "device load", p);
    access_(p, n, write, true);
    if (write) at_store(p, __ATOMIC_RELAXED, false);
    else at_load(p, __ATOMIC_RELAXED);
}
bool device = false;
}  // namespace

void begin() {
    if (!cells) {
        cells = (Cell*)mmap(nullptr, sizeof(Cell) * NCELL, PROT_READ | PROT_WRITE,
                            MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
        if (cells == MAP_FAILED) die("mmap");
    }
    ++gen;
    cur = nf = last = 0;
    quiet = 0;
    has_err = false;
    hist = 0;
    total = 0;
    for (auto& f : fib) {
        char* s = f.stack;
        zero(&f, sizeof f);
        f.stack = s;
    }
    fib[0].clk.c[0] = 1;
}
int spawn(void (*fn)(void*), void* arg) {
    int t = ++nf;
    if (t >= T) die("too many threads");
    Fiber& f = fib[t];
    if (!f.stack) {
        f.stack = (char*)mmap(nullptr, STACK, PROT_READ | PROT_WRITE,
                              MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
        if (f.stack == MAP_FAILED) die("mmap");
    }
    f.f = fn;
    f.arg = arg;
    f.used = true;
    f.clk.c[t] = 1;
    uintptr_t top = ((uintptr_t)f.stack + STACK - 64) & ~(uintptr_t)15;
    void** sp = (void**)top;
    *--sp = nullptr;        // keeps the stack aligned as after a call
    *--sp = (void*)&body;   // return address
    for (int i = 0; i < 6; ++i) *--sp = nullptr;
    u32 mx;
    unsigned short cw;
    asm volatile("stmxcsr %0" : "=m"(mx));
    asm volatile("fnstcw %0" : "=m"(cw));
    --sp;
    ((u32*)sp)[0] = mx;
    ((u32*)sp)[1] = cw;
    f.sp = sp;
    enter(t);
    return t;
}
int options(int* out) {
    int n = 0;
    bool force = last && fib[last].streak > 60;  // spinning: let others run
    if (last && enabled(fib[last]) && !force) out[n++] = last;
    for (int i = 1; i <= nf; ++i)
        if (i != last && enabled(fib[i])) out[n++] = i;
    if (n == 0 && force && enabled(fib[last])) out[n++] = last;
    return n;
}
bool done() {
    for (int i = 1; i <= nf; ++i)
        if (!fib[i].finished) return false;
    return true;
}
void resume(int t) {
    ++total;
    if (t != last) fib[t].streak = 0;
    enter(t);
}
void end() { cur = 0; }
bool spinning() { return total > 2000; }
const char* error() { return has_err ? err : nullptr; }
const char* pending(int t) { return fib[t].pend; }
unsigned progress(int t) { return fib[t].steps; }
u64 state() {
    u64 h = 1;
    for (int i = 1; i <= nf; ++i) h = h * 131 + fib[i].steps * 2 + fib[i].finished;
    for (auto& s : syncs)
        if (s.gen == gen) h += (u64)(s.owner + 7 * s.readers) * hash(s.a);
    return h;
}
void fail(const char* m) {
    set_err(m);
    if (cur) to_main();
}
void yield(const char* w) { point(w, nullptr); }
int self() { return cur; }
void device_fence() {
    if (cur == 0 || quiet) return;
    Fiber& f = fib[cur];
    f.clk.join(f.acq);
    f.rel = f.clk;
    tick();
    f.fenced = !f.loaded;
    f.loaded = false;
}
void device_code() { device = true; }
void quiet_add(int n) { quiet += n; }
}  // namespace sched

using namespace sched;
extern "C" {
// ---- what the compiler calls
static void volatile_access(void* p, size_t n, bool write) {
    if (cur == 0 || quiet) return;
    if (device && device_word(p, n)) device_access(p, n, write);
    else access(p, n, write, false);
}
#define PLAIN(n)                                                             \
    void __tsan_read##n(void* p) { access(p, n, false, false); }             \
    void __tsan_write##n(void* p) { access(p, n, true, false); }             \
    void __tsan_volatile_read##n(void* p) { volatile_access(p, n, false); }  \
    void __tsan_volatile_write##n(void* p) { volatile_access(p, n, true); }  \
    void __tsan_unaligned_read##n(void* p) { access(p, n, false, false); }   \
    void __tsan_unaligned_write##n(void* p) { access(p, n, true, false); }   \
    void __tsan_read##n##_pc(void* p, void*) { access(p, n, false, false); } \
    void __tsan_write##n##_pc(void* p, void*) { access(p, n, true, false); }
PLAIN(1)
PLAIN(2)
PLAIN(4)
PLAIN(8)
PLAIN(16)
void __tsan_read_range(void* p, size_t n) { access(p, n, false, false); }
void __tsan_write_range(void* p, size_t n) { access(p, n, true, false); }
void __tsan_vptr_update(void** p, void* v) {
    if (*p != v) access(p, 8, true, false);
}
void __tsan_vptr_read(void** p) { access(p, 8, false, false); }
void __tsan_func_entry(void*) {}
void __tsan_func_exit() {}
void __tsan_init() {}
void __tsan_atomic_thread_fence(int mo) {
    if (cur == 0 || quiet) return;
    if (is_acq(mo)) fib[cur].clk.join(fib[cur].acq);
    if (is_rel(mo)) {
        fib[cur].rel = fib[cur].clk;
        tick();
    }
}
void __tsan_atomic_signal_fence(int) {}

#define RMW(bits, type, name, expr)                                               \
    type __tsan_atomic##bits##_##name(volatile type* p, type v, int mo) {          \
        point("atomic " #name, p);                                                 \
        access(p, bits / 8, true, true);                                           \
        at_load(p, mo);                                                            \
        type old = *p;                                                             \
        *p = expr;                                                                 \
        at_store(p, mo, true);                                                     \
        return old;                                                                \
    }
#define ATOMIC(bits, type)                                                         \
    type __tsan_atomic##bits##_load(const volatile type* p, int mo) {              \
        point("atomic load", p);                                                   \
        access(p, bits / 8, false, true);                                          \
        at_load(p, mo);                                                            \
        return *p;                                                                 \
    }                                                                              \
    void __tsan_atomic##bits##_store(volatile type* p, type v, int mo) {           \
        point("atomic store", p);                                                  \
        access(p, bits / 8, true, true);                                           \
        *p = v;                                                                    \
        at_store(p, mo, false);                                                    \
    }                                                                              \
    RMW(bits, type, exchange, v)                                                   \
    RMW(bits, type, fetch_add, (type)(old + v))                                    \
    RMW(bits, type, fetch_sub, (type)(old - v))                                    \
    RMW(bits, type, fetch_and, (type)(old & v))                                    \
    RMW(bits, type, fetch_or, (type)(old | v))                                     \
    RMW(bits, type, fetch_xor, (type)(old ^ v))                                    \
    RMW(bits, type, fetch_nand, (type) ~(old & v))                                 \
    int __tsan_atomic##bits##_compare_exchange_strong(volatile type* p, type* e,   \
                                                      type v, int mo, int fmo) {   \
        point("atomic compare exchange", p);                                       \
        access(e, bits / 8, false, false);                                         \
        if (*p == *e) {                                                            \
            access(p, bits / 8, true, true);                                       \
            at_load(p, mo);                                                        \
            *p = v;                                                                \
            at_store(p, mo, true);                                                 \
            return 1;                                                              \
        }                                                                          \
        access(p, bits / 8, false, true);                                          \
        at_load(p, fmo);                                                           \
        access(e, bits / 8, true, false);                                          \
        *e = *p;                                                                   \
        return 0;                                                                  \
    }                                                                              \
    int __tsan_atomic##bits##_compare_exchange_weak(volatile type* p, type* e,     \
                                                    type v, int mo, int fmo) {     \
        return __tsan_atomic##bits##_compare_exchange_strong(p, e, v, mo, fmo);    \
    }                                                                              \
    type __tsan_atomic##bits##_compare_exchange_val(volatile type* p, type e,      \
                                                    type v, int mo, int fmo) {     \
        __tsan_atomic##bits##_compare_exchange_strong(p, &e, v, mo, fmo);          \
        return e;                                                                  \
    }
ATOMIC(8, u8)
ATOMIC(16, uint16_t)
ATOMIC(32, u32)
ATOMIC(64, u64)

// ---- locks
static void take(void* m) {
    Sync& s = sync_of(m);
    s.owner = 1 + cur;
    s.count = 1;
    if (cur) fib[cur].clk.join(s.c);
}
static void drop(void* m) {
    Sync& s = sync_of(m);
    s.owner = 0;
    s.count = 0;
    if (cur) {
        s.c.join(fib[cur].clk);
        tick();
    }
}
static bool recursive(pthread_mutex_t* m) {
    return (m->__data.__kind & 3) == PTHREAD_MUTEX_RECURSIVE;
}
int pthread_mutex_init(pthread_mutex_t* m, const pthread_mutexattr_t* a) {
    zero(m, sizeof *m);
    int k = 0;
    if (a) pthread_mutexattr_gettype(a, &k);
    m->__data.__kind = k;
    return 0;
}
int pthread_mutex_destroy(pthread_mutex_t*) { return 0; }
int pthread_mutex_lock(pthread_mutex_t* m) {
    if (gen == 0 || quiet) return 0;
    Sync& s = sync_of(m);
    if (recursive(m) && s.owner == 1 + cur) {
        ++s.count;
        return 0;
    }
    point("lock", m, MUTEX);
    take(m);
    return 0;
}
int pthread_mutex_timedlock(pthread_mutex_t* m, const timespec*) {
    return pthread_mutex_lock(m);
}
int pthread_mutex_clocklock(pthread_mutex_t* m, clockid_t, const timespec*) {
    return pthread_mutex_lock(m);
}
int pthread_mutex_trylock(pthread_mutex_t* m) {
    if (gen == 0 || quiet) return 0;
    Sync& s = sync_of(m);
    if (recursive(m) && s.owner == 1 + cur) {
        ++s.count;
        return 0;
    }
    point("try lock", m);
    Sync& t = sync_of(m);
    if (t.owner || t.readers) return EBUSY;
    take(m);
    return 0;
}
int pthread_mutex_unlock(pthread_mutex_t* m) {
    if (gen == 0 || quiet) return 0;
    Sync& s = sync_of(m);
    if (s.owner != 1 + cur) {
        if (cur) fail("a mutex is unlocked by a thread which does not hold it");
        return 0;
    }
    if (s.count > 1) {
        --s.count;
        return 0;
    }
    drop(m);
    return 0;
}
int pthread_rwlock_rdlock(pthread_rwlock_t* m) {
    if (gen == 0 || quiet) return 0;
    point("shared lock", m, RDLOCK);
    Sync& s = sync_of(m);
    ++s.readers;
    if (cur) fib[cur].clk.join(s.c);
    return 0;
}
int pthread_rwlock_wrlock(pthread_rwlock_t* m) {
    if (gen == 0 || quiet) return 0;
    point("lock", m, MUTEX);
    take(m);
    return 0;
}
int pthread_rwlock_unlock(pthread_rwlock_t* m) {
    if (gen == 0 || quiet) return 0;
    Sync& s = sync_of(m);
    if (s.readers) {
        --s.readers;
        if (cur) {
            s.c.join(fib[cur].clk);
            tick();
        }
    } else
        drop(m);
    return 0;
}
int pthread_cond_init(pthread_cond_t* c, const pthread_condattr_t*) {
    zero(c, sizeof *c);
    return 0;
}
int pthread_cond_destroy(pthread_cond_t*) { return 0; }
int pthread_cond_wait(pthread_cond_t* c, pthread_mutex_t* m) {
    if (cur == 0) die("waiting in the main context");
    drop(m);
    fib[cur].signalled = false;
    fib[cur].cond_mutex = m;
    point("wait", c, COND);
    take(m);
    return 0;
}
int pthread_cond_signal(pthread_cond_t* c) {
    for (int i = 1; i <= nf; ++i)
        if (fib[i].used && fib[i].wait == COND && fib[i].what == c &&
            !fib[i].signalled) {
            fib[i].signalled = true;
            break;
        }
    return 0;
}
int pthread_cond_broadcast(pthread_cond_t* c) {
    for (int i = 1; i <= nf; ++i)
        if (fib[i].used && fib[i].wait == COND && fib[i].what == c)
            fib[i].signalled = true;
    return 0;
}
pthread_t pthread_self() { return (pthread_t)(0x1000 + 16 * cur); }
int sched_yield() {
    point("yield", nullptr);
    return 0;
}

// ---- memory which is handed out anew carries no history
void* __real_malloc(size_t);
void* __wrap_malloc(size_t n) {
    void* p = __real_malloc(n);
    forget(p, n);
    return p;
}
void* __real_aligned_alloc(size_t, size_t);
void* __wrap_aligned_alloc(size_t a, size_t n) {
    void* p = __real_aligned_alloc(a, n);
    forget(p, n);
    return p;
}
void* __real_memcpy(void*, const void*, size_t);
void* __wrap_memcpy(void* d, const void* s, size_t n) {
    access(s, n, false, false);
    access(d, n, true, false);
    return __real_memcpy(d, s, n);
}
void* __real_memmove(void*, const void*, size_t);
void* __wrap_memmove(void* d, const void* s, size_t n) {
    access(s, n, false, false);
    access(d, n, true, false);
    return __real_memmove(d, s, n);
}
void* __real_memset(void*, int, size_t);
void* __wrap_memset(void* d, int v, size_t n) {
    access(d, n, true, false);
    return __real_memset(d, v, n);
}
}
void* operator new(size_t n) {
    void* p = __real_malloc(n ? n : 1);
    if (!p) die("out of memory");
    forget(p, n);
    return p;
}
void* operator new[](size_t n) { return operator new(n); }
void operator delete(void* p) noexcept { free(p); }
void operator delete[](void* p) noexcept { free(p); }
void operator delete(void* p, size_t) noexcept { free(p); }
void operator delete[](void* p, size_t) noexcept { free(p); }
