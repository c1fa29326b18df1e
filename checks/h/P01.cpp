// P01: every submitted task runs exactly once on a worker; its future reports exactly its outcome, after it finished.
#include "pool_common.hpp"

namespace vp {

// Task kinds: v value, o void, x throwing (value type), y throwing (void type), m move-only argument and result,
// l l-value argument, n submits another task and returns its value's future to nobody (waits for nothing), s string result
enum class K : char {};
struct Slot {
    Rec r; char kind; int id;
    std::optional<FutureResult<int>> fi; std::optional<FutureResult<void>> fv; std::optional<FutureResult<std::unique_ptr<int>>> fm; std::optional<FutureResult<std::string>> fs;
    std::unique_ptr<Slot> child;
    std::string lval;
};
struct Mark { Rec& r; Mark(Rec& r) : r(r) { ++r.started; r.thread = sched::tid(); } ~Mark() { sched::point("work"); ++r.finished; } };

void submit(ThreadPool& p, Slot& s) {
    Slot* q = &s; int id = s.id;
    switch (s.kind) {
        case 'v': s.fi.emplace(p.addTask([q](int a, int b) { Mark m{q->r}; return a * 10 + b; }, int(id), 7)); break;
        case 'o': s.fv.emplace(p.addTask([q] { Mark m{q->r}; })); break;
        case 'x': s.fi.emplace(p.addTask([q, id]() -> int { Mark m{q->r}; throw Err{id}; })); break;
        case 'y': s.fv.emplace(p.addTask([q, id]() -> void { Mark m{q->r}; throw Err{id}; })); break;
        case 'm': s.fm.emplace(p.addTask([q](std::unique_ptr<int> u) { Mark m{q->r}; ++*u; return u; }, std::make_unique<int>(id))); break;
        case 'l': s.lval = "left" + std::to_string(id); s.fs.emplace(p.addTask([q](std::string const& a) { Mark m{q->r}; return a + "!"; }, s.lval)); break;
        case 's': s.fs.emplace(p.addTask([q](std::string a) { Mark m{q->r}; return a + "?"; }, std::string(40, char('a' + id)))); break;
        case 'n': {
            s.child = std::make_unique<Slot>(); s.child->kind = 'v'; s.child->id = id + 50;
            ThreadPool* pp = &p;
            s.fi.emplace(p.addTask([q, pp, id] { Mark m{q->r}; submit(*pp, *q->child); return id; })); break;
        }
    }
}
template <class F> std::string got(F& f, bool waitFirst) {
    try {
        if (waitFirst) f.wait();
        if constexpr (std::is_same_v<F, FutureResult<void>>) { f.get(); return "void"; }
        else if constexpr (std::is_same_v<F, FutureResult<std::unique_ptr<int>>>) { auto u = f.get(); return u ? "ptr" + std::to_string(*u) : "null"; }
        else if constexpr (std::is_same_v<F, FutureResult<std::string>>) return f.get();
        else return std::to_string(f.get());
    } catch (Err const& e) { return "err" + std::to_string(e.code); }
    catch (...) { return "other-exception"; }
}
std::string want(Slot const& s) {
    switch (s.kind) {
        case 'v': return std::to_string(s.id * 10 + 7);
        case 'o': return "void";
        case 'x': case 'y': return "err" + std::to_string(s.id);
        case 'm': return "ptr" + std::to_string(s.id + 1);
        case 'l': return "left" + std::to_string(s.id) + "!";
        case 's': return std::string(40, char('a' + s.id)) + "?";
        default: return std::to_string(s.id);
    }
}
void collect(Slot& s, std::string const& cfg, bool waitFirst, int owner) {
    std::string g = s.fi ? got(*s.fi, waitFirst) : s.fv ? got(*s.fv, waitFirst) : s.fm ? got(*s.fm, waitFirst) : s.fs ? got(*s.fs, waitFirst) : "no-future";
    std::string what = "task " + std::to_string(s.id) + " (kind " + s.kind + ") of " + cfg;
    sched::check(s.r.finished == 1 && s.r.started == 1, s.r.finished == 0 ? "future-early" : "not-once", what + ": started " + std::to_string(s.r.started) + " times and finished " + std::to_string(s.r.finished) + " times when its future was ready");
    sched::check(g == want(s), "wrong-outcome", what + ": future yields '" + g + "' instead of '" + want(s) + "'");
    sched::check(s.r.thread != owner && s.r.thread > 0, "not-a-worker", what + " ran on the submitting thread");
    if (s.child) collect(*s.child, cfg + " nested", waitFirst, owner);
}

struct Cfg { std::string tasks; bool async; int n, max; int how; bool second; std::string name() const {
    return std::string(async ? "async" : "fixed") + std::to_string(n) + (async ? "-" + std::to_string(max) : "") + "/" + tasks + "/" + (how & 1 ? "reverse" : "forward") + (how & 2 ? "+before-run" : "") + (how & 4 ? "+wait" : "") + (second ? "+two-submitters" : ""); } };

void body(Cfg const& c) {
    std::string nm = c.name();
    std::vector<Slot> s(c.tasks.size());
    for (std::size_t i = 0; i < s.size(); ++i) s[i].kind = c.tasks[i], s[i].id = int(i) + 1;
    {
        ThreadPool p;
        p.setMinThreadNum(c.n).setMaxThreadNum(c.max);
        if (!c.async) p.setFixedThreadNum(c.n);
        auto start = [&] { if (c.async) p.run<ThreadPool::Model::AsyncCheck>(std::chrono::milliseconds{10}); else p.run<ThreadPool::Model::FixedSizeAndNoCheck>(); };
        if (!(c.how & 2)) start();
        std::size_t half = c.second ? s.size() / 2 : s.size();
        std::thread other;
        auto doCollect = [&](std::size_t a, std::size_t b, int owner) {
            for (std::size_t i = a; i < b; ++i) { Slot& x = c.how & 1 ? s[a + b - 1 - i] : s[i]; collect(x, nm, c.how & 4, owner); }
        };
        if (c.second) other = std::thread([&] { int me = sched::tid(); for (std::size_t i = half; i < s.size(); ++i) submit(p, s[i]); doCollect(half, s.size(), me); });
        for (std::size_t i = 0; i < half; ++i) submit(p, s[i]);
        if (c.how & 2) start();
        doCollect(0, half, 0);
        if (c.second) other.join();
        sched::Ignore ig; mc::outcome(nm + std::to_string(s[0].r.thread) + std::to_string(s.back().r.thread));
    }
    for (auto& x : s) sched::check(x.r.started == 1, "not-once", "task " + std::to_string(x.id) + " of " + nm + " ran " + std::to_string(x.r.started) + " times");
    mc::validated();
}
void go(Cfg c, int bound, int forced = 0) {
    sched::Options o; o.leakCheck = true; o.forcedCost = forced;
    sched::explore(c.name() + (forced ? "/d" : "/p") + std::to_string(bound), bound, [&] { body(c); }, o);
}
// several threads wait for one future
void waitersBody(int n, int w, bool thrown, bool late) {
    std::string nm = "waiters" + std::to_string(w) + (thrown ? "x" : "") + (late ? "l" : "") + "/fixed" + std::to_string(n);
    Rec r; int seen[4] = {};
    {
        ThreadPool p; p.setFixedThreadNum(n); if (!late) p.run<ThreadPool::Model::FixedSizeAndNoCheck>();
        auto f = p.addTask([&]() -> int { Mark m{r}; if (thrown) throw Err{5}; return 4; });
        std::vector<std::thread> ts;
        for (int i = 0; i < w; ++i) ts.emplace_back([&, i] { try { f.wait(); seen[i] = thrown ? -1 : r.finished; } catch (Err const& e) { seen[i] = thrown && e.code == 5 ? r.finished : -1; } });
        if (late) p.run<ThreadPool::Model::FixedSizeAndNoCheck>();
        for (auto& t : ts) t.join();
        std::string g = got(f, false); sched::check(g == (thrown ? "err5" : "4"), "wrong-outcome", nm + ": the future yields " + g);
    }
    for (int i = 0; i < w; ++i) sched::check(seen[i] == 1, "future-early", nm + ": a waiting thread went on with outcome " + std::to_string(seen[i]));
    sched::Ignore ig; mc::outcome(nm); mc::validated();
}
// tasks that wait for each other (never more of them than workers)
void meetBody(int n, int k, bool chain) {
    std::string nm = std::string(chain ? "chain" : "meet") + std::to_string(k) + "/fixed" + std::to_string(n); int here = 0;
    {
        ThreadPool p; p.setFixedThreadNum(n); p.run<ThreadPool::Model::FixedSizeAndNoCheck>();
        std::vector<FutureResult<int>> fs;
        for (int i = 0; i < k; ++i) fs.push_back(p.addTask([&, i] {
            { sched::Ignore ig; ++here; }
            if (chain) sched::block([&, i] { return here > i + 1 || i == k - 1; }, "the next task"); else sched::block([&] { return here == k; }, "all tasks");
            return i; }));
        for (int i = 0; i < k; ++i) sched::check(fs[i].get() == i, "wrong-outcome", nm);
    }
    sched::Ignore ig; mc::outcome(nm); mc::validated();
}
// arguments: l-values by reference, everything else moved into the task
struct Arg { int v; int copies = 0; Arg(int v) : v(v) {} Arg(Arg const& o) : v(o.v), copies(o.copies + 1) {} Arg(Arg&& o) noexcept : v(o.v), copies(o.copies) { o.v = -1; } };
void argsBody(int how) {
    Arg a{1}; Arg const c{2}; Arg t{3}; std::string got;
    {
        ThreadPool p; p.setFixedThreadNum(1); if (how & 1) p.run<ThreadPool::Model::FixedSizeAndNoCheck>();
        auto f = p.addTask([&](Arg& x, Arg const& y, Arg z, std::unique_ptr<Arg> u) {
            std::string r; r += &x == &a ? "r" : "-"; r += &y == &c ? "c" : "-"; r += z.v == 3 && z.copies == 0 ? "m" : "-"; r += u && u->v == 9 ? "u" : "-"; x.v = 7; return r; }, a, c, std::move(t), std::make_unique<Arg>(9));
        t.v = -5; if (!(how & 1)) p.run<ThreadPool::Model::FixedSizeAndNoCheck>();
        got = f.get();
    }
    sched::check(got == "rcmu" && a.v == 7, "wrong-outcome", "args: a task sees its arguments as '" + got + "'");
    sched::Ignore ig; mc::outcome("args" + got); mc::validated();
}
template <class F> void go2(std::string const& name, int bound, int forced, F f) {
    sched::Options o; o.leakCheck = true; o.forcedCost = forced; sched::explore(name + (forced ? "/d" : "/p") + std::to_string(bound), bound, f, o);
}
} // namespace vp

void mc_main() {
    using namespace vp;
    bool th = mc::thorough();
    std::string kinds = "voxymlsn";
    // one task of every kind, one and two workers
    for (char k : kinds) for (int how = 0; how < 8; ++how) { go({std::string(1, k), false, 1, 1, how, false}, th ? 4 : 3); go({std::string(1, k), false, 2, 2, how, false}, th ? 3 : 2, th ? 0 : 1); }
    // two tasks of every pair of kinds
    for (char a : kinds) for (char b : kinds) for (int n = 1; n <= 2; ++n) go({std::string() + a + b, false, n, n, (a + b) % 8, false}, th ? 3 : 2, th ? 1 : n - 1);
    // three tasks
    for (std::string t : {"vox", "ovy", "mnl", "xyo", "nnv", "sss"}) for (int n = 1; n <= 3; ++n) go({t, false, n, n, int(t[0]) % 8, false}, th ? 3 : n <= 2 ? 2 : 1, n > 1);
    // two submitting threads
    for (std::string t : {"vv", "ox", "mn", "yl", "voxm"}) for (int n = 1; n <= 2; ++n) go({t, false, n, n, int(t[1]) % 2, true}, th ? 3 : t.size() > 2 ? 1 : 2, 1);
    // self-checking pool (manager thread creating and retiring workers)
    for (std::string t : {"v", "o", "x", "n", "vo", "ym"}) for (int mn = 1; mn <= 2; ++mn) for (int how : {0, 2}) go({t, true, mn, 3, how, false}, th ? 3 : t.size() > 1 ? 1 : 2, 1);
    for (int n : {1, 2}) for (int w : {2, 3}) for (int x = 0; x < 4; ++x) go2("waiters" + std::to_string(n) + std::to_string(w) + std::to_string(x), (w == 2 ? 2 : 1) + th, 1, [=] { waitersBody(n, w, x & 1, x & 2); });
    for (int n : {2, 3}) for (int k = 2; k <= n; ++k) for (bool ch : {false, true}) go2("meet" + std::to_string(n) + std::to_string(k) + std::to_string(ch), 2 + th, 1, [=] { meetBody(n, k, ch); });
    for (int h = 0; h < 2; ++h) go2("args" + std::to_string(h), 2 + th, 0, [=] { argsBody(h); });
}
