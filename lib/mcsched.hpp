// Controlled scheduler for real multi-threaded code (engine A). The harness and the library headers are compiled
// with -fsanitize=thread but linked against lib/mcsched.cpp instead of the TSan runtime: every std::thread becomes a
// fiber, every mutex / condition-variable / atomic / sleep / thread operation becomes a scheduling point decided by the
// explorer, plain accesses are checked for data races (vector clocks) and for use after free.
#pragma once
#include "mc.hpp"
#include <functional>
#include <string>

namespace sched {

struct Options {
    bool leakCheck = false;         // every block allocated during the execution must be freed at its end
    uint64_t maxSteps = 20000;      // scheduling points per execution before it counts as a livelock
    bool raceCheck = true;
    int forcedCost = 0;             // deviations charged for picking another thread than the default one at a forced switch
    uint64_t maxDelay = ~0ULL;      // a thread that can run is never kept waiting for longer than this
    bool atomicPoints = true;       // atomic operations are scheduling points
    bool refPoints = false;         // ... including additions to 32-bit counters on the heap (reference counts)
};
// Runs body as thread 0 under the scheduler. Returns false when a violation was reported (via mc::fail).
bool run(mc::Chooser& c, std::function<void()> const& body, Options o = {});
[[noreturn]] void fail(std::string const& key, std::string const& msg);     // report and abandon this execution
bool active();
int tid();                          // current thread (0 = body)
int threadsAlive();                 // threads created and not finished, without thread 0
uint64_t nowNs();                   // virtual time
void block(std::function<bool()> const& ready, char const* what);   // wait until ready() (evaluated by the scheduler)
bool blockFor(std::function<bool()> const& ready, uint64_t ns, char const* what);   // the same with a time limit; false: timed out
void point(char const* what);       // explicit scheduling point
void quiet(void const* p, std::size_t n);            // atomics in this block are no scheduling points (it belongs to one thread)
void hbRelease(void const* obj);    // happens-before edges of a stand-in (ring, file descriptor)
void hbAcquire(void const* obj);
int choose(int n, int cost);        // an environment choice
std::string trace();                // schedule so far
void note(std::string const& s);    // adds a line to the trace
struct Ignore { Ignore(); ~Ignore(); };     // harness bookkeeping: neither a scheduling point nor a checked access

template <class F> uint64_t explore(std::string const& id, int bound, F&& body, Options o = {}, uint64_t maxExec = ~0ULL) {
    bool warm = false;
    return mc::explore(id, bound, [&](mc::Chooser& c) {
        if (!warm) { warm = true; mc::Chooser w; w.bound = 0; w.prefix.clear(); if (!run(w, body, o)) { c.taken.clear(); return; } mc::sample(id + " default schedule:" + trace().substr(0, 400)); }
        run(c, body, o);
    }, maxExec);
}
inline void check(bool ok, char const* key, std::string const& msg) { if (!ok) fail(key, msg); }

} // namespace sched
