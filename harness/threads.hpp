// Running the threads of a scenario in a schedule chosen by the explorer.
#pragma once
#include <functional>
#include <string>
#include <vector>

#include "mc.hpp"
#include "sched.hpp"

using mc::Ctx;
using Fn = std::function<void()>;

static void trampoline(void* p) {
    try {
        (*(Fn*)p)();
    } catch (const std::exception& e) {
        sched::Quiet q;
        sched::fail((std::string("unexpected exception: ") + e.what()).c_str());
    } catch (...) {
        sched::fail("unexpected exception");
    }
}
static bool ok(bool c, const char* m) {
    if (!c) sched::fail(m);
    return c;
}
// Run the threads in one schedule, chosen by the explorer.
static void run(Ctx& c, std::vector<Fn>& fs, int preemptions = -1) {
    sched::begin();
    auto check = [&] {
        if (auto* e = sched::error()) {
            std::string m = e;
            sched::end();
            c.fail("%s", m.c_str());
        }
    };
    for (auto& f : fs) {
        sched::spawn(trampoline, &f);
        check();
    }
    int last = 0;
    while (!sched::done()) {
        int t[sched::MAXT];
        int n = sched::options(t);
        c.require(n > 0, "deadlock: no thread can continue");
        if (sched::spinning()) c.cut();
        int m = n;
        if (last && t[0] == last && preemptions == 0) m = 1;
        int k = (int)c.choose((unsigned)m);
        if (k && last && t[0] == last && preemptions > 0) --preemptions;
        c.op("  thread %d: %s", t[k], sched::pending(t[k]));
        last = t[k];
        sched::resume(last);
        check();
        c.state(sched::state());
    }
    sched::end();
}

