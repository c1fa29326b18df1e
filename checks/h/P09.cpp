#include "co_common.hpp"
using namespace vp;
// Every coroutine runs a script of waits; all of them are logged and judged.
enum W { S0, S1, S2, S3, SNEG, SPAST, UNTIL2, Y, IO0, IO1, WS };
static char const* nm[] = {"sleep0", "sleep1", "sleep2", "sleep3", "sleep-1", "sleepUntil(past)", "sleepUntil(2)", "yield", "io", "io@1.5"};
using Script = std::vector<int>;
struct Ev { int co, step, kind; long long sub, due, at = -1; long subSeq, resSeq = -1; int resumed = 0; long yBefore = 0; };
struct Sys {
    EventLoop* loop; std::vector<Ev> ev; long seq = 0; int done = 0; long yields = 0; std::string bad;
    std::map<std::pair<int, int>, std::shared_ptr<sim::Conn>> conn;
    std::vector<long long> yTimes;
};
static std::size_t begin(Sys& s, int co, int step, int k, long long due) { s.ev.push_back({co, step, k, sim::W().now, due, -1, s.seq++}); return s.ev.size() - 1; }
static void end(Sys& s, std::size_t i) { auto& e = s.ev[i]; e.at = sim::W().now; e.resSeq = s.seq++; ++e.resumed; }
// every second wait is made by a coroutine of its own
static Task<> runScript(Sys& s, int co, Script const& sc, int only = -1) {
    using sim::ms;
    for (int i = only < 0 ? 0 : only; i < (only < 0 ? (int)sc.size() : only + 1); ++i) {
        if (only < 0 && i % 2) { co_await runScript(s, co, sc, i); continue; }
        int k = sc[i]; std::size_t e;
        switch (k) {
        case S0: case S1: case S2: case S3: { auto a = s.loop->makeTimer().sleepFor(std::chrono::milliseconds(k - S0)); e = begin(s, co, i, k, sim::W().now + (k - S0) * ms); co_await a; end(s, e); break; }
        case SNEG: { auto a = s.loop->makeTimer().sleepFor(-1ms); e = begin(s, co, i, k, sim::W().now - ms); co_await a; end(s, e); break; }
        case SPAST: { e = begin(s, co, i, k, sim::kEpoch - ms); co_await s.loop->makeTimer().sleepUntil(std::chrono::system_clock::time_point(std::chrono::nanoseconds(sim::kEpoch - ms))); end(s, e); break; }
        case UNTIL2: { e = begin(s, co, i, k, sim::kEpoch + 2 * ms); co_await s.loop->makeTimer().sleepUntil(std::chrono::system_clock::time_point(std::chrono::nanoseconds(sim::kEpoch + 2 * ms))); end(s, e); break; }
        case Y: { e = begin(s, co, i, k, 0); co_await s.loop->makeTimer().yield(); end(s, e); break; }
        default: {
            auto c = s.conn.at({co, i}); char b[4];
            e = begin(s, co, i, k, k == IO0 ? sim::W().now : std::max(sim::W().now, sim::kEpoch + 3 * ms / 2));
            int r = co_await s.loop->makeAioTask().prepRecv(c->fd, std::span<char>{b, 4}, 0); end(s, e);
            if (r != 1) s.bad = "receive returned " + std::to_string(r);
        } }
    }
    if (only < 0) ++s.done;
}
static std::string show(std::vector<Script> const& p) { std::string s; for (auto& x : p) { s += s.empty() ? "" : " | "; for (std::size_t i = 0; i < x.size(); ++i) s += (i ? " " : "") + std::string(nm[x[i]]); } return s; }

// hog: a coroutine that keeps yielding (1) or keeps sleeping for no time (2) until everybody else is done
static void program(std::vector<Script> const& p, int hog, mc::Chooser* ch, long long tick) {
    sim::reset(ch); if (ch) sim::W().chOrder = true;
    sim::W().tick = tick;
    Sys s; bool quiet = false, endless = false;
    {
        EventLoop loop; s.loop = &loop;
        for (int c = 0; c < (int)p.size(); ++c) for (int i = 0; i < (int)p[c].size(); ++i) if (p[c][i] == IO0 || p[c][i] == IO1) {
            auto k = sim::newConn(); if (p[c][i] == IO1) { k->wake = sim::kEpoch + 3 * sim::ms / 2; k->pause(3 * sim::ms / 2); } k->data("x"); s.conn[{c, i}] = k;
        }
        auto root = [&](int c) -> RootTask<> { co_await runScript(s, c, p[c]); };
        auto yielder = [&]() -> RootTask<> {
            while (s.done < (int)p.size() && s.yields < 20000) {
                if (hog == 1) co_await loop.makeTimer().yield(); else co_await loop.makeTimer().sleepFor(0ms);
                ++s.yields; s.yTimes.push_back(sim::W().now);
            }
        };
        if (hog) yielder().detach();
        for (int c = 0; c < (int)p.size(); ++c) root(c).detach();
        try { loop.run(); } catch (sim::Quiet const&) { quiet = true; } catch (sim::Runaway const&) { endless = true; }
    }
    auto what = show(p) + (hog ? hog == 1 ? " beside a yielder" : " beside a zero sleeper" : "") + (ch ? " choices " + ch->str() : "");
    MC_CHECK(s.bad.empty(), "io", what + ": " + s.bad);
    if (s.done != (int)p.size() || quiet || endless) {
        for (auto& e : s.ev) if (!e.resumed) { mc::fail(e.kind == Y ? "yield-starved" : e.kind >= IO0 ? "io-starved" : "timer-lost", what + ": coroutine " + std::to_string(e.co) + " is never resumed from " + nm[e.kind] + (quiet ? " (loop sleeps for ever)" : endless || s.yields >= 20000 ? " (others keep running)" : " (loop stopped)")); return; }
        mc::fail("timer-lost", what + ": the loop does not come to rest"); return;
    }
    for (auto& e : s.ev) {
        std::string w = what + ": coroutine " + std::to_string(e.co) + " step " + std::to_string(e.step) + " (" + nm[e.kind] + ")";
        MC_CHECK(e.resumed == 1, "resumed-twice", w + " resumed " + std::to_string(e.resumed) + " times");
        long long due = std::max(e.due, e.sub);
        if (e.kind != Y && e.kind < IO0) {
            MC_CHECK(e.at >= e.due, "early", w + " resumed " + std::to_string(e.due - e.at) + " ns before its deadline");
            if (!tick) MC_CHECK(e.at == due, "late", w + " resumed " + std::to_string(e.at - due) + " ns after its deadline although nothing kept the loop busy");
        } else if (!tick) MC_CHECK(e.at == (e.kind == Y ? e.sub : due), e.kind == Y ? "yield-starved" : "io-starved", w + " was held up for " + std::to_string(e.at - due) + " ns");
        if (hog) { long k = 0; for (auto t : s.yTimes) if (t > due && t < e.at) ++k; MC_CHECK(k <= 4, e.kind >= IO0 ? "io-starved" : "timer-starved", w + " waited for " + std::to_string(k) + " rounds of the busy coroutine after it was due"); }
    }
    for (auto& a : s.ev) for (auto& b : s.ev) {
        if (&a == &b || b.subSeq >= a.resSeq || a.subSeq >= b.resSeq) continue;     // not pending at the same time
        bool ta = a.kind < Y, tb = b.kind < Y;
        if (ta && tb && std::make_pair(a.due, a.subSeq) < std::make_pair(b.due, b.subSeq))
            MC_CHECK(a.resSeq < b.resSeq || (a.due < a.sub && b.resSeq < a.resSeq && a.subSeq > b.subSeq), "timer-order", what + ": coroutine " + std::to_string(b.co) + " (" + nm[b.kind] + ") woke before coroutine " + std::to_string(a.co) + " (" + nm[a.kind] + ") whose deadline is " + (a.due < b.due ? "earlier" : "the same and which slept first"));
        if (a.kind == Y && b.kind == Y && a.subSeq < b.subSeq) MC_CHECK(a.resSeq < b.resSeq, "yield-order", what + ": coroutine " + std::to_string(b.co) + " was resumed before coroutine " + std::to_string(a.co) + " which yielded earlier");
    }
    mc::outcome([&] { std::vector<std::pair<long, int>> o; for (auto& e : s.ev) o.push_back({e.resSeq, e.co * 16 + e.kind}); std::sort(o.begin(), o.end()); std::string r; for (auto& x : o) r += std::to_string(x.second) + ","; return r; }());
}
void mc_main() {
    std::vector<Script> one; for (int k = 0; k < WS; ++k) one.push_back({k});
    std::vector<Script> two = one; for (int a : {S0, S1, S2, SPAST, Y, IO0, IO1}) for (int b : {S0, S1, S2, SPAST, Y, IO0, IO1}) two.push_back({a, b});
    std::vector<Script> some; for (int a : {S0, S1, S2, Y, IO1}) { some.push_back({a}); for (int b : {S1, Y}) some.push_back({a, b}); }
    // 1. two and three coroutines with scripts of up to two waits
    for (auto& a : two) mc::run_case("first " + show({a}), [&] {
        for (auto& b : two) { mc::detail(show({a, b})); program({a, b}, 0, nullptr, 0); mc::sub_explore(show({a, b}), 100, [&](mc::Chooser& c) { program({a, b}, 0, &c, 0); mc::validated(); }); mc::state(2); mc::transition(4);
            for (auto& c : mc::thorough() ? two : some) { mc::detail(show({a, b, c})); program({a, b, c}, 0, nullptr, 0); mc::state(); mc::transition(6); } }
        mc::sample(show({a, two[7], two[20]}));
    });
    // 2. four to six coroutines, all orders of deadlines
    for (int n = 4; n <= (mc::thorough() ? 6 : 5); ++n) for (int f = 0; f < WS; ++f) mc::run_case("many " + std::to_string(n) + " first " + nm[f], [&] {
        std::vector<int> ks{S1, S2, S3, SPAST, Y, IO1, S0}; int m = n == 6 ? 5 : (int)ks.size(); std::vector<int> ix(n - 1, 0);
        for (;;) {
            std::vector<Script> p{{f}}; for (int i : ix) p.push_back({ks[i]});
            mc::detail(show(p)); program(p, 0, nullptr, 0); mc::state(); mc::transition(n);
            int i = 0; while (i < n - 1 && ++ix[i] == m) ix[i++] = 0;
            if (i == n - 1) break;
        }
    });
    // 3. beside a coroutine that never stops yielding / sleeping for no time; the clock advances as it is read
    for (int hog = 1; hog <= 2; ++hog) for (long long tick : {1LL, 1000LL, 300000LL}) for (auto& a : one) mc::run_case("hog " + std::to_string(hog) + " tick " + std::to_string(tick) + " " + show({a}), [&] {
        if (tick == 1) return;                         // would need millions of rounds
        for (auto& b : two) { mc::detail(show({a, b})); program({a, b}, hog, nullptr, tick); mc::state(); mc::transition(4); }
    });
    // 4. long scripts of one coroutine
    mc::run_case("long scripts", [&] {
        for (int a = 0; a < WS; ++a) for (int b = 0; b < WS; ++b) for (int c = 0; c < WS; ++c) { Script s{a, b, c, a, b, c}; if (std::count(s.begin(), s.end(), IO0) + std::count(s.begin(), s.end(), IO1) > 4) { } mc::detail(show({s})); program({s}, 0, nullptr, 0); program({s, {Y, Y, Y, S1, Y}}, 0, nullptr, 0); mc::state(2); mc::transition(17); }
    });
}
