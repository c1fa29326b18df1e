// P03: continuations run exactly once, after the predecessor, with its outcome; the returned future yields theirs.
#include "pool_common.hpp"
#include <variant>

namespace vp {

struct Out { bool ok; int v; bool isVoid; bool operator==(Out const&) const = default; };     // value / error code, of an int or void future
std::string show(Out const& o) { return (o.ok ? "value " : "error ") + std::to_string(o.v) + (o.isVoid ? " (void)" : ""); }
struct Ev { int step = 0, calls = 0, order = 0; Out in{}; bool after = false; };
using AnyF = std::variant<FutureResult<int>, FutureResult<void>>;

template <class T> Out seen(Try<T>& t) {
    Out o{t.isVal(), 0, std::is_void_v<T>};
    if (t) { if constexpr (!std::is_void_v<T>) o.v = t.move(); }
    else { try { t.rethrow(); } catch (Err const& e) { o.v = e.code; } catch (...) { o.v = -1; } }
    return o;
}
// sources: v int value, e int error, o void value, u void error
// steps:   a int from anything, b void from anything, t throws (int), s throws (void), r returns Try value, f returns Try error,
//          p passes its input on: value -> value, error -> rethrows
AnyF source(ThreadPool& p, char k, bool* done) {
    switch (k) {
        case 'v': return p.addTask([done] { sched::point("work"); *done = true; return 100; });
        case 'e': return p.addTask([done]() -> int { sched::point("work"); *done = true; throw Err{200}; });
        case 'o': return p.addTask([done] { sched::point("work"); *done = true; });
        default: return p.addTask([done]() -> void { sched::point("work"); *done = true; throw Err{201}; });
    }
}
Out srcOut(char k) { return k == 'v' ? Out{true, 100, false} : k == 'e' ? Out{false, 200, false} : k == 'o' ? Out{true, 0, true} : Out{false, 201, true}; }
Out stepOut(char k, Out in, int i) {
    switch (k) {
        case 'a': return {true, in.v * 2 + i, false};
        case 'b': return {true, 0, true};
        case 't': return {false, 300 + i, false};
        case 's': return {false, 310 + i, true};
        case 'r': return {true, in.v + 7, false};
        case 'f': return {false, 320 + i, false};
        default: return in.ok ? Out{true, in.v, false} : Out{false, in.v, false};
    }
}
template <class T> AnyF step(FutureResult<T>&& f, char k, int i, Ev* e, bool* prev, bool* done) {
    auto in = [e, prev](Try<T>& t) { ++e->calls; e->in = seen(t); e->after = *prev; return e->in; };
    switch (k) {
        case 'a': return std::move(f).thenTry([=](Try<T> t) -> int { Out o = in(t); *done = true; return o.v * 2 + i; });
        case 'b': return std::move(f).thenTry([=](Try<T> t) -> void { in(t); *done = true; });
        case 't': return std::move(f).thenTry([=](Try<T> t) -> int { in(t); *done = true; throw Err{300 + i}; });
        case 's': return std::move(f).thenTry([=](Try<T> t) -> void { in(t); *done = true; throw Err{310 + i}; });
        case 'r': return std::move(f).thenTry([=](Try<T> t) -> Try<int> { Out o = in(t); *done = true; Try<int> r; r.setVal(o.v + 7); return r; });
        case 'f': return std::move(f).thenTry([=](Try<T> t) -> Try<int> { in(t); *done = true; Try<int> r; r.setException(std::make_exception_ptr(Err{320 + i})); return r; });
        default: return std::move(f).thenTry([=](Try<T> t) -> int {
            ++e->calls; e->after = *prev; *done = true; bool ok = t; e->in = Out{ok, 0, std::is_void_v<T>};
            if (!ok) { try { t.rethrow(); } catch (Err const& x) { e->in.v = x.code; throw; } }
            if constexpr (!std::is_void_v<T>) { e->in.v = t.move(); return e->in.v; } else return 0; });
    }
}
template <class T> Out result(FutureResult<T>& f) {
    try { if constexpr (std::is_void_v<T>) { f.get(); return {true, 0, true}; } else return {true, f.get(), false}; }
    catch (Err const& e) { return {false, e.code, std::is_void_v<T>}; } catch (...) { return {false, -1, std::is_void_v<T>}; }
}

struct Cfg { std::string chain; int n; bool wait; std::string name() const { return "chain/" + chain + "/workers" + std::to_string(n) + (wait ? "/after" : ""); } };
void body(Cfg const& c) {
    std::string nm = c.name(); int const k = (int)c.chain.size() - 1;
    std::vector<Ev> ev(k); std::unique_ptr<bool[]> done{new bool[k + 1]{}};
    std::string log;
    {
        ThreadPool p; p.setFixedThreadNum(c.n); p.run<ThreadPool::Model::FixedSizeAndNoCheck>();
        bool* d = done.get();
        std::vector<std::unique_ptr<AnyF>> fs; fs.push_back(std::make_unique<AnyF>(source(p, c.chain[0], d)));
        if (c.wait) std::visit([](auto& x) { try { x.wait(); } catch (...) {} }, *fs[0]);
        for (int i = 0; i < k; ++i) fs.push_back(std::make_unique<AnyF>(std::visit([&](auto& x) -> AnyF { return step(std::move(x), c.chain[i + 1], i, &ev[i], d + i, d + i + 1); }, *fs.back())));
        Out got = std::visit([](auto& x) { return result(x); }, *fs.back());
        Out want = srcOut(c.chain[0]);
        for (int i = 0; i < k; ++i) {
            sched::check(ev[i].calls == 1, "not-once", nm + ": continuation " + std::to_string(i) + " had run " + std::to_string(ev[i].calls) + " times when the last future was ready");
            sched::check(ev[i].after, "too-early", nm + ": continuation " + std::to_string(i) + " ran before its predecessor had finished");
            sched::check(ev[i].in == want, "wrong-input", nm + ": continuation " + std::to_string(i) + " received " + show(ev[i].in) + " instead of " + show(want));
            want = stepOut(c.chain[i + 1], want, i);
        }
        sched::check(got == want, "wrong-outcome", nm + ": the last future yields " + show(got) + " instead of " + show(want));
        { sched::Ignore ig; mc::outcome(nm + show(got) + std::to_string(sched::threadsAlive())); }
    }
    for (int i = 0; i < k; ++i) sched::check(ev[i].calls == 1, "not-once", nm + ": continuation " + std::to_string(i) + " ran " + std::to_string(ev[i].calls) + " times");
    mc::validated();
}
// other shapes: move-only values, continuations that return futures, two chains at once, chains started on a worker
void extra(std::string const& which, int n) {
    std::string log;
    {
        ThreadPool p; p.setFixedThreadNum(n); p.run<ThreadPool::Model::FixedSizeAndNoCheck>();
        if (which == "move-only") {
            auto f = p.addTask([](std::unique_ptr<int> u) { return u; }, std::make_unique<int>(5))
                .thenTry([](Try<std::unique_ptr<int>> t) { auto u = t.move(); *u += 1; return u; })
                .thenTry([](Try<std::unique_ptr<int>> t) -> Try<std::unique_ptr<int>> { auto u = t.move(); *u *= 10; Try<std::unique_ptr<int>> r; r.setVal(std::move(u)); return r; });
            auto u = f.get(); sched::check(u && *u == 60, "wrong-outcome", "move-only chain yields " + std::string(u ? std::to_string(*u) : "null"));
        } else if (which == "string") {
            auto f = p.addTask([] { return std::string(50, 'a'); }).thenTry([](Try<std::string> t) { return t.get() + "b"; }).thenTry([](Try<std::string> t) { return t.move() + "c"; });
            auto g = f.get(); sched::check(g == std::string(50, 'a') + "bc", "wrong-outcome", "string chain yields " + g);
        } else if (which == "returns-future" || which == "returns-future-after-error") {
            bool err = which != "returns-future"; int calls = 0, in = 0; std::optional<FutureResult<int>> inner; bool ready = false;
            auto body = [&](Try<int> t) -> FutureResult<int> {
                int v = 0; if (t) v = t.move(); else { try { t.rethrow(); } catch (Err const& e) { v = e.code; } }
                { sched::Ignore ig; ++calls; in = v; }
                auto f = p.addTask([&ready] { sched::Ignore ig; ready = true; return 9; });
                return f;
            };
            auto src = p.addTask([err]() -> int { if (err) throw Err{41}; return 40; });
            std::move(src).thenTry(body);
            // there is no future to wait for
            sched::block([&] { return ready; }, "inner");
            sched::Ignore ig;
            sched::check(calls == 1, "not-once", which + ": continuation ran " + std::to_string(calls) + " times");
            sched::check(in == (err ? 41 : 40), "wrong-input", which + ": continuation received " + std::to_string(in));
            sched::check(ready, "not-once", which + ": the task submitted by the continuation did not run");
        } else if (which == "two-chains") {
            auto a = p.addTask([] { return 1; }).thenTry([](Try<int> t) { return t.move() + 10; });
            auto b = p.addTask([]() -> int { throw Err{2}; }).thenTry([](Try<int> t) -> int { if (t) return 0; t.rethrow(); return 1; });
            Out ob = result(b), oa = result(a);
            sched::check(oa == Out{true, 11, false} && ob == Out{false, 2, false}, "wrong-outcome", "two chains yield " + show(oa) + " and " + show(ob));
        } else if (which == "on-worker") {
            auto f = p.addTask([&p] { auto g = p.addTask([] { return 3; }); return std::make_unique<FutureResult<int>>(std::move(g).thenTry([](Try<int> t) { return t.move() * 5; })); });
            auto g = f.get(); int v = g->get(); sched::check(v == 15, "wrong-outcome", "chain started on a worker yields " + std::to_string(v));
        } else if (which == "two-threads") {
            int a = 0, b = 0;
            std::thread t([&] { a = p.addTask([] { return 1; }).thenTry([](Try<int> t) { return t.move() + 10; }).get(); });
            b = p.addTask([] { return 2; }).thenTry([](Try<int> t) { return t.move() + 20; }).get(); t.join();
            sched::check(a == 11 && b == 22, "wrong-outcome", "chains on two threads yield " + std::to_string(a) + " and " + std::to_string(b));
        }
    }
    sched::Ignore ig; mc::outcome(which + std::to_string(n)); mc::validated();
}
} // namespace vp

void mc_main() {
    using namespace vp; bool th = mc::thorough();
    std::string src = "veou", st = "abtsrfp"; sched::Options o; o.leakCheck = true;
    auto go = [&](Cfg c, int bound, int forced) { sched::Options q = o; q.forcedCost = forced; sched::explore(c.name() + (forced ? "/d" : "/p") + std::to_string(bound), bound, [&] { body(c); }, q); };
    for (char s : src) for (char a : st) for (int n = 1; n <= 2; ++n) for (bool w : {false, true}) go({{s, a}, n, w}, th ? 3 : 2, th ? 0 : n - 1);
    for (char s : src) for (char a : st) for (char b : st) for (int n = 1; n <= 2; ++n) go({{s, a, b}, n, false}, th ? 3 : 3 - n, 1);
    for (char s : src) for (char a : st) for (char b : st) for (char c : st) go({{s, a, b, c}, 2, false}, th ? 2 : 1, 1);
    for (int n = 1; n <= (th ? 3 : 2); ++n) for (std::string w : {"move-only", "string", "returns-future", "returns-future-after-error", "two-chains", "on-worker", "two-threads"})
        {
            sched::Options q = o; q.forcedCost = n > 1 || w == "two-threads";
            sched::explore("extra/" + w + "/workers" + std::to_string(n) + (q.forcedCost ? "/d" : "/p") + std::to_string(th ? 3 : 2), th ? 3 : 2, [&] { extra(w, n); }, q);
        }
}
