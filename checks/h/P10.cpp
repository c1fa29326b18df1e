#include "co_common.hpp"
#include <HXLibs/coroutine/executor/SerialExecutor.hpp>
#include <HXLibs/coroutine/executor/SerialExecutorPro.hpp>
using namespace vp;
enum TK { NOW, THROW, YLD, YLDTHR, SLP, SLPTHR, IO, TKS };
enum WH { AT0, AFTERY, AFTER1, WHS };
static char const* tn[] = {"now", "throw", "yield", "yield+throw", "sleep1", "sleep1+throw", "io"};
static char const* wn[] = {"", "y>", "1ms>"};
struct Sub { int when; std::vector<int> tasks; };                 // one submitter: tasks it submits one after the other
enum Act { NONE, CLEAR, DESTROY, CLEARSUB, DROPQ, ACTS };         // what happens at `actAt`
static char const* an[] = {"", "clear", "destroy", "clear+submit", "abandon last submitter"};
struct Rec { int sub, no; long submitted = -1, started = -1, ended = -1, cont = -1; int nstart = 0, ncont = 0; int kind = 0; std::string got; };
struct Sys { EventLoop* loop; std::vector<Rec> r; long seq = 0; int running = 0; std::string bad; long acted = -1; bool inTask = false; std::vector<std::shared_ptr<sim::Conn>> conns; };

static Task<> work(Sys& s, std::size_t i) {
    Val a{"t"}; auto& r0 = s.r[i]; ++r0.nstart; r0.started = s.seq++;
    if (++s.running > 1) s.bad = "two tasks run at the same time";
    struct End { Sys& s; std::size_t i; bool ok = false; ~End() { --s.running; if (ok) s.r[i].ended = s.seq++; } };
    End e{s, i};
    switch (r0.kind) {
    case NOW: break;
    case THROW: e.ok = true; throw Err{"t"};
    case YLD: co_await s.loop->makeTimer().yield(); break;
    case YLDTHR: co_await s.loop->makeTimer().yield(); e.ok = true; throw Err{"t"};
    case SLP: co_await s.loop->makeTimer().sleepFor(1ms); break;
    case SLPTHR: co_await s.loop->makeTimer().sleepFor(1ms); e.ok = true; throw Err{"t"};
    case IO: { auto c = sim::newConn(); c->data("x"); char b[2]; if (1 != co_await s.loop->makeAioTask().prepRecv(c->fd, std::span<char>{b, 2}, 0)) s.bad = "io"; break; }
    }
    a.chk(); e.ok = true;
}
template <class X> static Task<> submitter(Sys& s, std::unique_ptr<X>& x, Sub const& p, int id) {
    Val v{"sub"};
    if (p.when == AFTERY) co_await s.loop->makeTimer().yield();
    if (p.when == AFTER1) co_await s.loop->makeTimer().sleepFor(1ms);
    for (int k : p.tasks) {
        if (!x) co_return;
        std::size_t i = s.r.size(); s.r.push_back({id, (int)i}); s.r[i].kind = k; s.r[i].submitted = s.seq++;
        try { auto t = work(s, i); co_await x->serial(t); s.r[i].got = "ok"; } catch (Err const&) { s.r[i].got = "err"; }
        s.r[i].cont = s.seq++; ++s.r[i].ncont; v.chk();
    }
}
template <class X> static std::unique_ptr<X> mk(EventLoop& l) { if constexpr (std::is_constructible_v<X, EventLoop&>) return std::make_unique<X>(l); else return std::make_unique<X>(); }
static std::string show(std::vector<Sub> const& p) { std::string s; for (auto& x : p) { s += (s.empty() ? "" : " | ") + std::string(wn[x.when]); for (std::size_t i = 0; i < x.tasks.size(); ++i) s += (i ? "," : "") + std::string(tn[x.tasks[i]]); } return s; }

template <class X> static void program(std::vector<Sub> const& p, int act, long long actAt, mc::Chooser* ch, char const* name) {
    std::string what = std::string(name) + ": " + show(p) + (act ? std::string(" ; ") + an[act] + " at " + std::to_string(actAt / 1000) + "us" : "") + (ch ? " choices " + ch->str() : "");
    sim::reset(ch); if (ch) sim::W().chOrder = true; T() = Track{};
    Sys s; s.r.reserve(64); bool quiet = false;
    {
        EventLoop loop; s.loop = &loop; auto x = mk<X>(loop);
        std::vector<Sub> late{{AT0, {SLP}}, {AT0, {NOW}}};
        std::vector<Task<>> subs; for (std::size_t i = 0; i < p.size(); ++i) subs.push_back(submitter(s, x, p[i], (int)i));
        std::vector<Task<>> lateSubs; for (std::size_t i = 0; i < late.size(); ++i) lateSubs.push_back(submitter(s, x, late[i], 100 + (int)i));
        auto actor = [&]() -> Task<> {
            if (actAt < 0) co_await loop.makeTimer().yield(); else co_await loop.makeTimer().sleepFor(std::chrono::nanoseconds(actAt));
            s.acted = s.seq++;
            if (act == CLEAR || act == CLEARSUB) x->clear();
            if (act == DESTROY) x.reset();
            if (act == DROPQ) { for (auto& r : s.r) if (r.sub == (int)p.size() - 1 && r.started >= 0 && r.ended < 0) s.inTask = true; auto gone = std::move(subs.back()); }
            if (act == CLEARSUB) for (auto& l : lateSubs) loop.start(l);
        };
        auto a = actor();
        for (auto& t : subs) loop.start(t);
        if (act) loop.start(a);
        try { loop.run(); } catch (sim::Quiet const&) { quiet = true; } catch (sim::Runaway const&) { mc::fail("endless", what); }
        // judge
        MC_CHECK(s.bad.empty(), "overlap", what + ": " + s.bad);
        MC_CHECK(!quiet, "wedged", what + ": the loop waits for ever");
        if (s.inTask) {                             // abandoned inside its own task: that task is gone, everybody else goes on as soon as somebody submits
            std::size_t n0 = s.r.size(); bool q2 = false; std::vector<Sub> aft{{AT0, {NOW}}, {AT0, {YLD, SLP}}};
            std::vector<Task<>> as; for (std::size_t i = 0; i < aft.size(); ++i) as.push_back(submitter(s, x, aft[i], 200 + (int)i));
            for (auto& t : as) loop.start(t);
            try { loop.run(); } catch (sim::Quiet const&) { q2 = true; }
            MC_CHECK(!q2 && s.bad.empty(), "wedged", what + ": afterwards the loop waits for ever " + s.bad);
            for (auto& r : s.r) { if (r.sub == (int)p.size() - 1) continue; MC_CHECK(r.nstart == 1 && r.ncont == 1, "wedged", what + ": task " + std::to_string(r.no) + " of submitter " + std::to_string(r.sub) + " ran " + std::to_string(r.nstart) + " times and its submitter continued " + std::to_string(r.ncont) + " times although another submission followed"); }
            MC_CHECK(s.r.size() >= n0 + 3, "wedged", what + ": tasks submitted afterwards never finish");
            mc::state(); return;
        }
        std::size_t total = 0; for (auto& q : p) total += q.tasks.size();
        long prevStart = -1, prevEnd = -1; std::vector<Rec*> o; for (auto& r : s.r) o.push_back(&r);
        std::sort(o.begin(), o.end(), [](Rec* a, Rec* b) { return a->submitted < b->submitted; });
        for (auto* r : o) {
            std::string w = what + ": task " + std::to_string(r->no) + " (" + tn[r->kind] + ") of submitter " + std::to_string(r->sub);
            bool dropped = act == DROPQ && r->sub == (int)p.size() - 1;
            bool mayDrop = (act == CLEAR || act == DESTROY || act == CLEARSUB) && s.acted >= 0 && r->submitted < s.acted && (r->started < 0 || r->started > s.acted);
            if (mayDrop) { MC_CHECK(r->nstart == 0 && r->ncont == 0, "dropped-ran", w + " had not started when the executor was cleared, but still ran"); continue; }
            if (dropped && r->ncont == 0) { continue; }
            MC_CHECK(r->nstart == 1, r->nstart ? "ran-twice" : "never-ran", w + " ran " + std::to_string(r->nstart) + " times");
            MC_CHECK(r->ncont == 1, r->ncont ? "resumed-twice" : "never-resumed", w + ": its submitter continued " + std::to_string(r->ncont) + " times");
            if (r->nstart != 1 || r->ncont != 1) continue;
            MC_CHECK(r->cont > r->ended && r->ended >= 0, "early", w + ": its submitter continued before the task had finished");
            bool thr = r->kind == THROW || r->kind == YLDTHR || r->kind == SLPTHR;
            MC_CHECK(r->got == (thr ? "err" : "ok"), "outcome", w + " gave its submitter " + r->got);
            MC_CHECK(r->started > prevStart && r->started > prevEnd, "order", w + " started before an earlier submitted task had started and finished");
            prevStart = r->started; prevEnd = r->ended;
        }
        if (!act) MC_CHECK(s.r.size() == total, "never-resumed", what + ": only " + std::to_string(s.r.size()) + " of " + std::to_string(total) + " tasks were submitted");
        if (act == CLEARSUB && s.acted >= 0) { int n = 0; for (auto& r : s.r) if (r.sub >= 100) n += r.ncont; MC_CHECK(n == 2, "wedged", what + ": tasks submitted after clear never finished"); }
    }
    MC_CHECK(T().live == 0 && T().bad.empty(), "lifetime", what + ": " + std::to_string(T().live) + " values left " + T().bad);
    mc::state(); mc::transition(s.r.size());
    std::string oc; for (auto& r : s.r) oc += std::to_string(r.kind) + r.got + std::to_string(r.started) + ","; mc::outcome(oc);
}
// tens of thousands of tasks behind one
template <class X> static void manyBehind(int n, int kind, char const* name) {
    std::string what = std::string(name) + ": " + std::to_string(n) + " tasks (" + tn[kind] + ") behind a sleeping one"; mc::detail(what);
    sim::reset(nullptr); int ran = 0, cont = 0, order = 0; bool quiet = false;
    {
        EventLoop loop; auto x = mk<X>(loop);
        auto w = [&](int i) -> Task<> { if (!i) co_await loop.makeTimer().sleepFor(1ms); else if (kind == YLD) co_await loop.makeTimer().yield(); if (ran == i) ++order; ++ran; if (kind == THROW) throw Err{"t"}; };
        auto sub = [&](int i) -> Task<> { try { auto t = w(i); co_await x->serial(t); } catch (Err const&) { } ++cont; };
        std::vector<Task<>> v; for (int i = 0; i < n; ++i) v.push_back(sub(i));
        for (auto& t : v) loop.start(t);
        try { loop.run(); } catch (sim::Quiet const&) { quiet = true; } catch (sim::Runaway const&) { quiet = true; }
    }
    MC_CHECK(!quiet && ran == n && cont == n, "never-resumed", what + ": " + std::to_string(ran) + " ran, " + std::to_string(cont) + " submitters continued"); MC_CHECK(order == n, "order", what);
    mc::state(); mc::transition(n);
}
template <class X> static void all(char const* name) {
    std::string N = name;
    std::vector<Sub> one; for (int w = 0; w < WHS; ++w) for (int k = 0; k < TKS; ++k) one.push_back({w, {k}});
    std::vector<Sub> two; for (int w = 0; w < WHS; ++w) for (int a = 0; a < TKS; ++a) for (int b : {NOW, YLD, SLP, THROW}) two.push_back({w, {a, b}});
    std::vector<Sub> sm; for (int k = 0; k < TKS; ++k) sm.push_back({AT0, {k}}); for (int k : {NOW, SLP, IO}) { sm.push_back({AFTERY, {k}}); sm.push_back({AFTER1, {k}}); }
    for (auto& a : two) mc::run_case(N + " first " + show({a}), [&] { for (auto& b : two) { mc::detail(show({a, b})); program<X>({a, b}, NONE, 0, nullptr, name); } mc::sample(show({a, two[3]})); });
    for (auto& a : one) mc::run_case(N + " orders " + show({a}), [&] { for (auto& b : one) for (auto& c : sm) mc::sub_explore(show({a, b, c}), 100, [&](mc::Chooser& ch) { program<X>({a, b, c}, NONE, 0, &ch, name); mc::validated(); }); });
    for (auto& a : sm) mc::run_case(N + " four " + show({a}), [&] { for (auto& b : sm) for (auto& c : sm) for (auto& d : sm) { if (!mc::thorough() && d.when) continue; mc::detail(show({a, b, c, d})); program<X>({a, b, c, d}, NONE, 0, nullptr, name); } });
    for (int act = 1; act < ACTS; ++act) for (long long at : {-1LL, 0LL, 500000LL, 1000000LL, 1500000LL, 2500000LL}) for (auto& a : one) mc::run_case(N + " " + an[act] + " " + std::to_string(at) + " " + show({a}), [&] {
        for (auto& b : one) for (auto& c : one) { if (act == DROPQ && c.when) continue; mc::detail(show({a, b, c})); program<X>({a, b, c}, act, at, nullptr, name); }
        for (auto& b : two) if (act != DROPQ) { mc::detail(show({a, b})); program<X>({a, b}, act, at, nullptr, name); }
    });
    for (int n : {1000, 20000, 50000}) for (int k : {NOW, YLD, THROW}) mc::run_case(N + " behind " + std::to_string(n) + " " + tn[k], [&] { manyBehind<X>(n, k, name); });
    mc::run_case(N + " long queue", [&] { for (int k : {NOW, YLD, THROW, SLP}) { std::vector<Sub> p{{AT0, {SLP}}}; for (int i = 0; i < 60; ++i) p.push_back({AT0, {k}}); program<X>(p, NONE, 0, nullptr, name); } });
}
void mc_main() {
    if (PART == 0) all<SerialExecutor>("SerialExecutor"); else all<SerialExecutorPro>("SerialExecutorPro");
}
