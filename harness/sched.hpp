// Controlled scheduler for code compiled with -fsanitize=thread and linked with
// sched.cpp instead of the thread sanitizer's own runtime. The threads of a
// scenario are fibers of one thread; the explorer decides at every atomic
// operation, lock and explicit yield who runs next. Plain accesses are not
// scheduling points: they are checked for data races by vector clocks in every
// schedule, and without races their order is determined by the rest.
#pragma once
#include <cstdint>

namespace sched {
constexpr int MAXT = 8;
void begin();
int spawn(void (*f)(void*), void* arg);  // runs up to its first visible operation
int options(int* tids);   // who can run, the current one first
bool done();              // all have finished
void resume(int tid);     // run one visible operation and up to the next
void end();
bool spinning();          // too many steps
const char* error();      // what went wrong, or null
const char* pending(int tid);  // what the thread is about to do
uint64_t state();
unsigned progress(int tid);
// From within a fiber:
void fail(const char* msg);
void yield(const char* what);
int self();
// Stand-ins for what device code has
void device_fence();
void device_code();  // volatile words are indivisible there
void quiet_add(int);  // accesses by the harness itself are not looked at
struct Quiet {
    Quiet() { quiet_add(1); }
    ~Quiet() { quiet_add(-1); }
};
}  // namespace sched
