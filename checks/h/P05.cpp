// P05: awaiting a future computed by a worker thread, on a real EventLoop over a stand-in ring (lib/ringa.hpp).
#include <ringa.hpp>
#include <HXLibs/container/ThreadPool.hpp>
#include <HXLibs/coroutine/awaiter/WhenAll.hpp>
#include <HXLibs/coroutine/awaiter/WhenAny.hpp>
#include <thread>
#include <vector>

namespace vp {
using namespace HX; using namespace HX::coroutine; using HX::container::ThreadPool; using HX::container::Try;
using namespace std::chrono_literals;
struct Err { int code; };

struct World {
    std::string nm; int worked = 0;         // written by the workers, read by the coroutines: must be ordered by the await
    int resumed = 0; bool finished[4] = {};
};
void ok(bool b, char const* key, World& w, std::string const& m) { sched::check(b, key, w.nm + ": " + m); }

// awaits one task of kind k and checks what comes back
struct Job { int done = 0; };
template <class F> Task<> one(World& w, EventLoop& loop, ThreadPool& p, char k, F&& before) {
    auto jp = std::make_shared<Job>(); int me = sched::tid(); int n = 0;
    before();
    switch (k) {
        case 'v': { int r = co_await p.addTask([jp] { sched::point("work"); jp->done = 1; return 7; }).via(loop); ++n; ok(r == 7, "wrong-value", w, "await yields " + std::to_string(r) + " instead of 7"); break; }
        case 'o': { co_await p.addTask([jp] { sched::point("work"); jp->done = 1; }).via(loop); ++n; break; }
        case 'e': { int c = 0; try { co_await p.addTask([jp]() -> int { sched::point("work"); jp->done = 1; throw Err{5}; }).via(loop); } catch (Err const& e) { c = e.code; } ++n; ok(c == 5, "wrong-exception", w, "await does not rethrow the worker's exception"); break; }
        case 'u': { int c = 0; try { co_await p.addTask([jp]() -> void { sched::point("work"); jp->done = 1; throw Err{6}; }).via(loop); } catch (Err const& e) { c = e.code; } ++n; ok(c == 6, "wrong-exception", w, "await does not rethrow the worker's exception (void)"); break; }
        case 'm': { auto r = co_await p.addTask([jp] { sched::point("work"); jp->done = 1; return std::make_unique<int>(9); }).via(loop); ++n; ok(r && *r == 9, "wrong-value", w, "await loses a move-only value"); break; }
        case 's': { auto r = co_await p.addTask([jp] { sched::point("work"); jp->done = 1; return std::string(40, 's'); }).via(loop); ++n; ok(r == std::string(40, 's'), "wrong-value", w, "await yields " + r); break; }
        case 'c': { int r = co_await p.addTask([jp] { sched::point("work"); jp->done = 1; return 7; }).thenTry([](Try<int> t) { return t.move() * 2; }).via(loop); ++n; ok(r == 14, "wrong-value", w, "await yields " + std::to_string(r) + " instead of 14"); break; }
        case 'l': { int r = co_await p.addTask([jp] { std::this_thread::sleep_for(20ms); jp->done = 1; return 7; }).via(loop); ++n; ok(r == 7, "wrong-value", w, "await yields " + std::to_string(r)); break; }
        case 'r': {     // already finished when awaited
            auto f = p.addTask([jp] { jp->done = 1; return 7; }); f.wait();
            int r = co_await std::move(f).via(loop); ++n; ok(r == 7, "wrong-value", w, "await of a finished future yields " + std::to_string(r)); break;
        }
    }
    ok(jp->done == 1, "too-early", w, "resumed before the worker had finished");
    ok(n == 1, "not-once", w, "resumed more than once");
    ok(sched::tid() == me, "wrong-thread", w, "the coroutine continues on thread T" + std::to_string(sched::tid()) + " instead of its loop's thread T" + std::to_string(me));
    ++w.resumed;
}
Task<> plain(World& w, EventLoop& l, ThreadPool& p, char k) { auto f = [] {}; co_await one(w, l, p, k, f); }
Task<int> val(EventLoop& l, ThreadPool& p, int v) { int r = co_await p.addTask([v] { sched::point("work"); return v; }).via(l); co_return r + 1; }
Task<> slowIo(World& w, EventLoop& l, int i) {
    char c[1] = {0}; int me = sched::tid();
    int n = co_await l.makeAioTask().prepRead(ringa::kSlowFd, std::span<char>{c, 1}, 0);
    ok(n == 1 && c[0] == 'x', "wrong-io", w, "a concurrent read yields " + std::to_string(n));
    ok(sched::tid() == me, "wrong-thread", w, "a concurrent read continues on another thread");
    w.finished[i] = true;
}
Task<> timer(World& w, EventLoop& l, int i) { co_await l.makeTimer().sleepFor(3ms); w.finished[i] = true; }

struct Cfg { std::string kind; char k; int workers; int bound; };
void body(Cfg const& c) {
    ringa::Scope sc; World w; w.nm = c.kind + "/" + c.k + "/workers" + std::to_string(c.workers);
    {
        ThreadPool p; p.setFixedThreadNum(c.workers); p.run<ThreadPool::Model::FixedSizeAndNoCheck>();
        auto go = [&](EventLoop& loop, auto&& t, int want) {
            auto r = loop.trySync(std::move(t));
            if (!r) { try { r.rethrow(); } catch (std::exception& e) { sched::fail("threw", w.nm + ": " + e.what()); } catch (...) { sched::fail("threw", w.nm + ": the coroutine threw"); } }
            ok(w.resumed >= want, "loop-ended-early", w, "the loop ended although a coroutine still waits for a worker");
            ok(w.resumed == want, "not-once", w, std::to_string(w.resumed) + " resumptions instead of " + std::to_string(want));
        };
        if (c.kind == "single") { EventLoop l; go(l, plain(w, l, p, c.k), 1); }
        else if (c.kind == "twice") { EventLoop l; auto t = [&]() -> Task<> { co_await plain(w, l, p, c.k); co_await plain(w, l, p, 'v'); }; go(l, t(), 2); }
        else if (c.kind == "reuse") { EventLoop l; go(l, plain(w, l, p, c.k), 1); go(l, plain(w, l, p, 'v'), 2); }
        else if (c.kind == "all") {
            EventLoop l; auto t = [&]() -> Task<> { auto r = co_await whenAll(val(l, p, 10), plain(w, l, p, c.k), val(l, p, 20)); (void)r; ok(std::get<0>(r) && std::get<0>(r).get() == 11 && std::get<2>(r) && std::get<2>(r).get() == 21, "wrong-value", w, "whenAll mixes up the workers' values"); };
            go(l, t(), 1);
        } else if (c.kind == "two-coroutines") {
            EventLoop l; auto a = plain(w, l, p, c.k), b = plain(w, l, p, 'v'); l.start(a); l.start(b); l.run();
            ok(w.resumed == 2, "loop-ended-early", w, std::to_string(w.resumed) + " of 2 coroutines finished");
        } else if (c.kind == "io-before" || c.kind == "io-with" || c.kind == "timer-with") {
            EventLoop l; auto t = [&]() -> Task<> {
                if (c.kind == "io-before") co_await slowIo(w, l, 0), co_await plain(w, l, p, c.k);
                else if (c.kind == "io-with") { auto r = co_await whenAll(slowIo(w, l, 0), plain(w, l, p, c.k)); (void)r; }
                else { auto r = co_await whenAll(timer(w, l, 0), plain(w, l, p, c.k)); (void)r; } };
            go(l, t(), 1); ok(w.finished[0], "loop-ended-early", w, "the concurrent operation did not finish");
        } else if (c.kind == "io-after") { EventLoop l; auto t = [&]() -> Task<> { co_await plain(w, l, p, c.k); co_await slowIo(w, l, 0); co_await timer(w, l, 1); }; go(l, t(), 1); ok(w.finished[0] && w.finished[1], "loop-ended-early", w, "operations after the await did not finish"); }
        else if (c.kind == "abandon") {     // the timer wins, the awaiting coroutine is destroyed while the worker runs
            EventLoop l; int idx = -1;
            auto late = [&]() -> Task<int> { int r = co_await p.addTask([] { std::this_thread::sleep_for(20ms); return 3; }).via(l); co_return r; };
            auto t = [&]() -> Task<> { auto r = co_await whenAny(timer(w, l, 0), late()); idx = (int)r.index(); ++w.resumed; };
            go(l, t(), 1);


        } else if (c.kind == "throws-away") {   // the coroutine is destroyed by the exception of another
            EventLoop l; auto t = [&]() -> Task<> { auto r = co_await whenAny(plain(w, l, p, c.k), timer(w, l, 0)); (void)r; };
            auto r = l.trySync(t()); (void)r; ok(w.resumed <= 1, "not-once", w, "resumed twice");
        } else if (c.kind == "two-loops") {
            World w2; w2.nm = w.nm + "/second loop";
            std::thread th([&] { EventLoop l; auto r = l.trySync(plain(w2, l, p, 'v')); (void)r; });
            { EventLoop l; go(l, plain(w, l, p, c.k), 1); }
            th.join(); ok(w2.resumed == 1, "loop-ended-early", w2, "the second loop ended early");
        } else if (c.kind == "busy-other") {    // another coroutine keeps the loop busy with I/O while the worker runs
            EventLoop l; auto io = [&]() -> Task<> { for (int i = 0; i < 3; ++i) co_await slowIo(w, l, i); };
            auto t = [&]() -> Task<> { auto r = co_await whenAll(io(), plain(w, l, p, c.k)); (void)r; };
            go(l, t(), 1); ok(w.finished[2], "loop-ended-early", w, "the concurrent reads did not finish");
        }
        { sched::Ignore ig; mc::outcome(w.nm + std::to_string(w.resumed) + (w.finished[0] ? "t" : "f") + std::to_string(sched::threadsAlive())); }
    }
    mc::validated();
}

void run() {
    int const x = 1;
    std::vector<Cfg> cs;
    for (char k : std::string("voeumscr")) cs.push_back({"single", k, 1, 3 + x});
    for (char k : std::string("ve")) cs.push_back({"single", k, 2, 2 + x});
    for (char k : std::string("vol")) for (char const* kind : {"twice", "reuse", "io-before", "io-with", "io-after", "timer-with"}) cs.push_back({kind, k, 1, 2 + x});
    for (char k : std::string("vo")) for (int n : {1, 2}) for (char const* kind : {"all", "two-coroutines"}) cs.push_back({kind, k, n, 1 + x});
    for (char k : std::string("vl")) cs.push_back({"busy-other", k, 1, 2 + x});
    cs.push_back({"abandon", '-', 1, 2 + x}); cs.push_back({"throws-away", 'v', 1, 2 + x}); cs.push_back({"throws-away", 'l', 1, 2 + x});
    cs.push_back({"two-loops", 'v', 1, 1 + x}); cs.push_back({"two-loops", 'v', 2, 1 + x});
    if (mc::thorough()) for (auto& c : cs) if (c.workers == 1 && c.kind != "two-loops" && c.kind != "all" && c.kind != "two-coroutines") ++c.bound;
    for (auto& c : cs) sched::explore(c.kind + "/" + c.k + "/w" + std::to_string(c.workers), c.bound, [c] { body(c); }, sched::Options{.leakCheck = true, .forcedCost = c.workers > 1 || c.kind == "two-loops"});
}
} // namespace vp
void mc_main() { vp::run(); }
