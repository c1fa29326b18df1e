// P02: destroying a pool always terminates cleanly; resizing keeps the number of workers within the bounds.
#include "pool_common.hpp"
#include <climits>

namespace vp {

// ---- destruction at any moment ----
struct DCfg { bool async; int n, max, tasks, waitFor; bool nested; int nap; std::string name() const {
    return std::string("destroy/") + (async ? "async" : "fixed") + std::to_string(n) + "-" + std::to_string(max) + "/tasks" + std::to_string(tasks) + (nested ? "n" : "") + "/wait" + std::to_string(waitFor) + "/nap" + std::to_string(nap); } };
void destroyBody(DCfg const& c) {
    std::vector<Rec> r(c.tasks + (c.nested ? c.tasks : 0));
    {
        ThreadPool p; p.setMinThreadNum(c.n).setMaxThreadNum(c.max);
        if (c.async) p.run<ThreadPool::Model::AsyncCheck>(std::chrono::milliseconds{10}); else p.run<ThreadPool::Model::FixedSizeAndNoCheck>();
        std::vector<FutureResult<int>> fs;
        for (int i = 0; i < c.tasks; ++i) fs.push_back(p.addTask([&r, i, &p, &c] {
            ++r[i].started; sched::point("work");
            if (c.nested) p.addTask([&r, i, &c] { ++r[c.tasks + i].started; ++r[c.tasks + i].finished; return 0; });
            ++r[i].finished; return i; }));
        for (int i = 0; i < c.waitFor; ++i) fs[i].get();
        if (c.nap) std::this_thread::sleep_for(std::chrono::milliseconds{c.nap});
    }
    sched::check(sched::threadsAlive() == 0, "thread-left-behind", c.name() + ": " + std::to_string(sched::threadsAlive()) + " threads are still alive after the pool was destroyed");
    std::string s;
    for (std::size_t i = 0; i < r.size(); ++i) { sched::check(r[i].started == r[i].finished && r[i].started <= 1, "cut-short", c.name() + ": task " + std::to_string(i) + " started " + std::to_string(r[i].started) + " and finished " + std::to_string(r[i].finished) + " times"); s += std::to_string(r[i].started); }
    for (int i = 0; i < c.waitFor; ++i) sched::check(r[i].finished == 1, "cut-short", c.name() + ": an awaited task did not run");
    sched::Ignore ig; mc::outcome(c.name() + s); mc::validated();
}

// ---- resizing: the strategy answers whatever the explorer picks; the workers alive must respect the bounds ----
struct RCfg { int mn, mx, tasks, rounds; std::string answers; std::string name() const { return "resize/" + std::to_string(mn) + "-" + std::to_string(mx) + "/tasks" + std::to_string(tasks) + "/answers" + answers; } };
int ans(char c) { switch (c) { case '0': return 0; case '+': return 1; case 'P': return 2; case '-': return -1; case 'M': return -2; case 'B': return 1000; case 'L': return -1000; } return 0; }
void resizeBody(RCfg const& c) {
    std::string log; int calls = 0; bool ending = false;
    std::vector<Rec> r(c.tasks);
    {
        ThreadPool p; p.setMinThreadNum(c.mn).setMaxThreadNum(c.mx);
        int const k = (int)c.answers.size();
        auto strategy = [&](ThreadPoolData const& d) -> int {
            sched::Ignore ig;
            int alive = sched::threadsAlive() - 1;       // without the manager
            log += " [min" + std::to_string(d.minThreadNum) + " max" + std::to_string(d.maxThreadNum) + " now" + std::to_string(d.nowThreadNum) + " alive" + std::to_string(alive) + "]";
            sched::check(alive <= c.mx, "above-max", c.name() + ": " + std::to_string(alive) + " workers are alive although the maximum is " + std::to_string(c.mx) + ":" + log);
            if (ending) return 0;
            int n = calls++;
            if (n < k) return ans(c.answers[n]);
            if (n == k + 3) {   // three quiet rounds later
                sched::check(alive >= c.mn, "below-min", c.name() + ": only " + std::to_string(alive) + " workers are alive three rounds after the last change although the minimum is " + std::to_string(c.mn) + ":" + log);
            }
            return 0;
        };
        p.run<ThreadPool::Model::AsyncCheck>(std::chrono::milliseconds{10}, strategy);
        std::vector<FutureResult<int>> fs;
        for (int i = 0; i < c.tasks; ++i) fs.push_back(p.addTask([&r, i] { ++r[i].started; std::this_thread::sleep_for(std::chrono::milliseconds{15}); ++r[i].finished; return i; }));
        for (auto& f : fs) f.get();
        sched::block([&] { return calls >= k + 5; }, "all answers");
        // the pool still works: as many tasks as the minimum can be in progress at once
        int running = 0; bool all = false;
        std::vector<FutureResult<int>> gs;
        for (int i = 0; i < c.mn; ++i) gs.push_back(p.addTask([&] {
            { sched::Ignore ig; if (++running == c.mn) all = true; }
            sched::block([&] { return all; }, "rendezvous"); return 1; }));
        for (auto& g : gs) g.get();
        sched::check(all, "below-min", c.name() + ": " + std::to_string(c.mn) + " tasks cannot run at the same time although that is the minimum number of workers:" + log);
        sched::Ignore ig; ending = true;
    }
    sched::check(sched::threadsAlive() == 0, "thread-left-behind", c.name() + ": threads are still alive after the pool was destroyed");
    for (auto& x : r) sched::check(x.started == 1 && x.finished == 1, "cut-short", c.name() + ": a task did not run exactly once");
    sched::Ignore ig; mc::outcome(c.name() + log); mc::validated();
}
// the pool is destroyed while workers retire
void rushBody(int mn, std::string const& answers, int extra) {
    std::string nm = "rush/" + std::to_string(mn) + "/" + answers + "/" + std::to_string(extra); int calls = 0;
    {
        ThreadPool p; p.setMinThreadNum(mn).setMaxThreadNum(3);
        p.run<ThreadPool::Model::AsyncCheck>(std::chrono::milliseconds{10}, [&](ThreadPoolData const&) -> int { sched::Ignore ig; int n = calls++; return n < (int)answers.size() ? ans(answers[n]) : 0; });
        sched::block([&] { return calls >= (int)answers.size() + extra; }, "all answers");
    }
    sched::check(sched::threadsAlive() == 0, "thread-left-behind", nm + ": " + std::to_string(sched::threadsAlive()) + " threads are still alive after the pool was destroyed");
    sched::Ignore ig; mc::outcome(nm); mc::validated();
}
// the default strategy and the whole pool under it
struct SCfg { int mn, mx, tasks; std::string name() const { return "default/" + std::to_string(mn) + "-" + std::to_string(mx) + "/tasks" + std::to_string(tasks); } };
void defaultBody(SCfg const& c) {
    int last = -1, rounds = 0; std::string log;
    {
        ThreadPool p; p.setMinThreadNum(c.mn).setMaxThreadNum(c.mx);
        auto strategy = [&](ThreadPoolData const& d) -> int {
            { sched::Ignore ig; last = sched::threadsAlive() - 1; ++rounds; log += " " + std::to_string(d.taskNum) + "/" + std::to_string(last); }
            sched::check(last <= c.mx, "above-max", c.name() + ": " + std::to_string(last) + " workers are alive although the maximum is " + std::to_string(c.mx) + ", (queued/alive):" + log);
            return HX::container::ThreadPoolDefaultStrategy(d);
        };
        p.run<ThreadPool::Model::AsyncCheck>(std::chrono::milliseconds{10}, strategy);
        std::vector<FutureResult<int>> fs;
        for (int i = 0; i < c.tasks; ++i) fs.push_back(p.addTask([i] { std::this_thread::sleep_for(std::chrono::milliseconds{25}); return i; }));
        for (auto& f : fs) f.get();
        int r0; { sched::Ignore ig; r0 = rounds; }
        sched::block([&] { return rounds >= r0 + 8; }, "eight rounds");
        sched::Ignore ig;
        sched::check(last >= c.mn, "below-min", c.name() + ": only " + std::to_string(last) + " workers are alive in an idle pool with minimum " + std::to_string(c.mn) + ", (queued/alive):" + log);
    }
    sched::check(sched::threadsAlive() == 0, "thread-left-behind", c.name() + ": threads are still alive after the pool was destroyed");
    sched::Ignore ig; mc::outcome(c.name() + log); mc::validated();
}
// every observation in a box: the default strategy never asks to leave [min, max]
void strategyBox(int hi) {
    for (int mn = 0; mn <= hi; ++mn) mc::run_case("strategy/min" + std::to_string(mn), [&] {
        for (int mx = std::max(mn, 1); mx <= hi; ++mx) for (int now = mn; now <= mx; ++now) for (int run = 0; run <= now; ++run) for (int task = 0; task <= 3 * hi; ++task) {
            ThreadPoolData d{(uint32_t)mn, (uint32_t)mx, (uint32_t)task, (uint32_t)now, (uint32_t)run, (uint32_t)(now - run)};
            int a = HX::container::ThreadPoolDefaultStrategy(d); mc::transition();
            std::string w = "min " + std::to_string(mn) + " max " + std::to_string(mx) + " now " + std::to_string(now) + " running " + std::to_string(run) + " queued " + std::to_string(task) + ": the default strategy answers " + std::to_string(a);
            MC_CHECK(now + (long)a >= mn, "strategy-below-min", w);
            MC_CHECK(now + (long)a <= mx, "strategy-above-max", w);
        }
        mc::validated();
    });
}
template <class C, class F> void go(C c, F f, int bound, int forced = 0) {
    sched::Options o; o.forcedCost = forced;
    sched::explore(c.name() + (forced ? "/d" : "/p") + std::to_string(bound), bound, [&] { f(c); }, o);
}
} // namespace vp

void mc_main() {
    using namespace vp; bool th = mc::thorough();
    strategyBox(th ? 20 : 12);
    for (int n = 0; n <= 3; ++n) for (int t = 0; t <= 3; ++t) for (int w = 0; w <= t; ++w) for (bool nest : {false, true}) {
        if ((n == 0 && w > 0) || (t == 0 && nest)) continue;
        go(DCfg{false, n, n, t, w, nest, 0}, destroyBody, th ? 3 : n + t <= 3 ? 2 : 1);
    }
    for (int n = 1; n <= 2; ++n) for (int t = 0; t <= 2; ++t) for (int w = 0; w <= t; ++w) for (int nap : {0, 5, 25})
        go(DCfg{true, n, 3, t, w, t == 2, nap}, destroyBody, th ? 2 : n + t <= 2 ? 2 : 1);
    std::string al = "+P-M0"; std::vector<std::string> seqs;
    for (char a : al) for (char b : al) seqs.push_back({a, b});
    for (char a : al) for (char b : al) for (char d : al) if (th || a != '0') seqs.push_back({a, b, d});
    for (std::string s : {"B", "L", "BL", "BLB", "LL", "MM", "PMMP", "P-P-", "+M+M"}) seqs.push_back(s);
    for (auto& s : seqs) for (int mn = 1; mn <= 2; ++mn) { go(RCfg{mn, 3, 0, 0, s}, resizeBody, th ? 3 : s.size() > 2 ? 1 : 2, 1); if (s.size() <= 2) go(RCfg{mn, 3, 2, 0, s}, resizeBody, th ? 2 : 1, 1); }
    for (int mn = 1; mn <= 2; ++mn) for (int mx = mn; mx <= 4; ++mx) for (int t = 0; t <= 6; t += 2) go(SCfg{mn, mx, t}, defaultBody, th ? 3 : t > 2 || mx > 2 ? 1 : 2, 1);
    for (int mn : {0, 1}) for (std::string a : {"+-", "P-", "PM", "+-+"}) for (int e : {0, 1}) { sched::Options o; o.forcedCost = 1; sched::explore("rush" + std::to_string(mn) + a + std::to_string(e), 3 + th, [=] { rushBody(mn, a, e); }, o); }
}
