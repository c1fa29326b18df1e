#include "co_common.hpp"
using namespace vp;
#ifndef ANY
#define ANY 0
#endif
static constexpr Kind K2 = ANY ? ANY2 : ALL2, K3 = ANY ? ANY3 : ALL3, KOP = ANY ? OPANY : OPALL;

static void one(Node const& p, int entry, bool order, int bound) {
    Node n = p; int c = 0; number(n, c);
    std::string id = str(n) + " entry " + std::to_string(entry);
    mc::detail(id);
    if (!order) { execute(n, (Entry)entry, nullptr); mc::state(); mc::transition(countNodes(n)); return; }
    mc::sub_explore(id, bound, [&](mc::Chooser& ch) {
        execute(n, (Entry)entry, &ch, [] { sim::W().chOrder = true; sim::W().chEintr = false; });
        mc::state(); mc::transition(countNodes(n)); mc::validated();
    });
}

// ---- awaitables that are not tasks, void results, results that throw when moved, mixed types ----
struct Shy {                                       // moving it throws on demand
    int v; bool* armed; Val t{"shy"};
    Shy(int v, bool* a) : v(v), armed(a) {}
    Shy(Shy&& o) : v(o.v), armed(o.armed), t(std::move(o.t)) { if (*armed && --left() == 0) throw Err{"moved"}; }
    Shy& operator=(Shy&&) = delete;
    static int& left() { static int l = 0; return l; }
};
template <class V> static std::string outc(container::Try<V>& t) {
    if (t) { if constexpr (std::is_same_v<V, int>) return std::to_string(t.move()); else if constexpr (std::is_same_v<V, Val>) return t.move().v; else return "void"; }
    try { t.rethrow(); } catch (Err const& e) { return "!" + e.code; } catch (std::exception const& e) { return std::string("!?") + e.what(); }
    return "!?";
}
struct Mixed { int recvFd = -1; std::string got; int n = 0; long long at = -1; char buf[8] = {}; };

void mc_main() {
    std::vector<Node> L; for (int k = RET; k < LEAVES; ++k) if (ANY || k != NEVER) L.push_back({(Kind)k});
    // 1. two members: all, every entry, every completion order
    for (auto& a : L) mc::run_case("pairs " + str(a), [&] {
        for (auto& b : L) { for (int e = 0; e < ENTRIES; ++e) one({K2, 0, {a, b}}, e, true, 100); one({KOP, 0, {a, b}}, ROOT, true, 100); one({CATCH, 0, {{K2, 0, {a, b}}}}, TRYSYNC, true, 100); one({SEQ2, 0, {{KOP, 0, {a, b}}, {S1RET}}}, ROOT, false, 0); one({SEQ2, 0, {{K2, 0, {a, b}}, {YRET}}}, ROOT, true, 100); }
        mc::sample(str(Node{K2, 0, {a, L[0]}}));
    });
    // 2. three members
    std::vector<Node> M; for (Kind k : {RET, THR, YRET, YTHR, S1RET, S2RET, S1THR, IORET, IOTHR, IOLATE}) M.push_back({k}); if (ANY) M.push_back({NEVER});
    for (auto& a : M) for (auto& b : M) mc::run_case("triples " + str(a) + "," + str(b), [&] {
        for (auto& c : M) { one({K3, 0, {a, b, c}}, ROOT, true, 100); one({KOP, 0, {a, b, c}}, ROOT, mc::thorough(), 100); }
    });
    // 3. nested: members that are themselves combinations
    std::vector<Node> N; for (Kind k : {RET, YTHR, S1RET, IORET, IOLATE}) N.push_back({k}); if (ANY) N.push_back({NEVER});
    std::vector<Node> inner; for (auto& a : N) for (auto& b : N) for (Kind k : {ALL2, ANY2, SEQ2, OPALL, OPANY}) { if (k != SEQ2 && (k == ALL2 || k == OPALL) && (a.k == NEVER || b.k == NEVER)) continue; inner.push_back({k, 0, {a, b}}); }
    auto hang = [](Node const& n) { int c = 0; Node m = n; number(m, c); auto o = eval(m, 0, 0); for (auto& x : o) if (x.t >= FAR) return true; return false; };
    for (auto& x : inner) { if (hang(x) && !ANY) continue; mc::run_case("nested " + str(x), [&] {
        for (auto& y : N) { one({K2, 0, {x, y}}, ROOT, true, mc::thorough() ? 100 : 2); one({K2, 0, {y, x}}, ROOT, true, mc::thorough() ? 100 : 2); one({KOP, 0, {x, y}}, ROOT, false, 0); one({KOP, 0, {y, x}}, ROOT, false, 0); one({CATCH, 0, {{SEQ2, 0, {{K2, 0, {x, y}}, {IORET}}}}}, ROOT, true, 2); }
        if (mc::thorough()) for (auto& z : inner) one({K2, 0, {x, z}}, ROOT, true, 1);
    }); }
    // 4. awaitables that are not tasks
    mc::run_case("plain awaitables", [&] {
        for (int perm = 0; perm < 6; ++perm) for (int data = 0; data < 3; ++data)        // data: before, between, after the timers
            mc::sub_explore("perm " + std::to_string(perm) + " data " + std::to_string(data), 100, [&](mc::Chooser& ch) {
                sim::reset(&ch); sim::W().chOrder = true; T() = Track{};
                Mixed m; auto c = sim::newConn(); if (data) { c->wake = sim::kEpoch + (data == 1 ? 1500000 : 5000000); c->pause(data == 1 ? 1500000 : 5000000); } c->data("xyz");
                {
                    EventLoop loop;
                    auto tv = [&]() -> Task<Val> { co_await loop.makeTimer().sleepFor(2ms); co_return Val{"late"}; };
                    auto root = [&]() -> RootTask<> {
#if ANY
                        auto use = [&](auto&& v) { m.got = std::to_string(v.index()); };
#define AIO loop.makeAioTask().prepRecv(c->fd, std::span<char>{m.buf, 8}, 0)
#define TIM loop.makeTimer().sleepFor(1ms)
                        if (perm == 0) use(co_await whenAny(AIO, TIM, tv()));
                        else if (perm == 1) use(co_await whenAny(TIM, AIO, tv()));
                        else if (perm == 2) use(co_await whenAny(tv(), TIM, AIO));
                        else if (perm == 3) use(co_await whenAny(tv(), AIO, TIM));
                        else if (perm == 4) use(co_await whenAny(AIO, tv()));
                        else use(co_await whenAny(tv(), AIO));
#else
#define AIO loop.makeAioTask().prepRecv(c->fd, std::span<char>{m.buf, 8}, 0)
#define TIM loop.makeTimer().sleepFor(1ms)
                        if (perm == 0) { auto t = co_await whenAll(AIO, TIM, tv()); m.got = outc(std::get<0>(t)) + outc(std::get<1>(t)) + outc(std::get<2>(t)); }
                        else if (perm == 1) { auto t = co_await whenAll(TIM, AIO, tv()); m.got = outc(std::get<1>(t)) + outc(std::get<0>(t)) + outc(std::get<2>(t)); }
                        else if (perm == 2) { auto t = co_await whenAll(tv(), TIM, AIO); m.got = outc(std::get<2>(t)) + outc(std::get<1>(t)) + outc(std::get<0>(t)); }
                        else if (perm == 3) { auto t = co_await whenAll(tv(), AIO, TIM); m.got = outc(std::get<1>(t)) + outc(std::get<2>(t)) + outc(std::get<0>(t)); }
                        else if (perm == 4) { auto t = co_await whenAll(AIO, TIM); m.got = outc(std::get<0>(t)) + outc(std::get<1>(t)) + "late"; co_await loop.makeTimer().sleepFor(1ms); }
                        else { auto t = co_await whenAll(AIO); m.got = outc(std::get<0>(t)) + "voidlate"; co_await loop.makeTimer().sleepFor(2ms); }
#endif
                        ++m.n; m.at = sim::W().now - sim::kEpoch;
                        co_await loop.makeTimer().sleepFor(20ms);      // whatever was abandoned must stay silent
                    };
                    root().detach(); try { loop.run(); } catch (sim::Quiet const&) { mc::fail("never-resumed", "perm " + std::to_string(perm) + " data " + std::to_string(data) + ": the loop waits for ever"); }
                }
                MC_CHECK(m.n == 1, "never-resumed", "the waiter continued " + std::to_string(m.n) + " times");
#if ANY
                long long io = data == 0 ? 0 : data == 1 ? 1500000 : 5000000, tm = perm < 4 ? 1000000 : FAR, tk = 2000000;
                long long first = std::min({io, tm, tk});
                std::string e;
                int ix_io[] = {0, 1, 2, 1, 0, 1}, ix_t[] = {1, 0, 1, 2, -1, -1}, ix_k[] = {2, 2, 0, 0, 1, 0};
                int want = io == first ? ix_io[perm] : tm == first ? ix_t[perm] : ix_k[perm];
                MC_CHECK(m.got == std::to_string(want) && m.at == first, "outcome", "perm " + std::to_string(perm) + " data " + std::to_string(data) + ": member " + m.got + " at " + std::to_string(m.at) + ", expected member " + std::to_string(want) + " at " + std::to_string(first));
                if (io != first) MC_CHECK(std::string(m.buf, 3) != "xyz", "outcome", "the abandoned receive still wrote into the buffer");
#else
                MC_CHECK(m.got == "3voidlate" && std::string(m.buf, 3) == "xyz", "outcome", "perm " + std::to_string(perm) + ": " + m.got);
#endif
                MC_CHECK(T().live == 0 && T().bad.empty(), "lifetime", "values left " + std::to_string(T().live) + T().bad);
                mc::state(); mc::transition(3);
            });
    });
    // 5. abandoning the combination itself while its members are suspended
    for (auto& a : L) mc::run_case("abandon " + str(a), [&] {
        for (auto& b : L) for (int steps = 0; steps < 5; ++steps) {
            Node n{K2, 0, {a, b}}; int c = 0; number(n, c); mc::detail(str(n) + " abandoned after step " + std::to_string(steps));
            sim::reset(nullptr); T() = Track{}; Run r;
            {
                EventLoop loop; r.loop = &loop; mkConns(r, n); bool fin = false;
                auto mk = [&]() -> Task<> { try { auto v = co_await run(r, n, Val{"arg"}); } catch (Err const&) { } fin = true; };
                auto t = mk();
                if (steps > 0) {
                    loop.start(t); sim::W().maxEvents = (uint64_t)(steps - 1);
                    if (steps > 1 && !fin) try { loop.run(); } catch (sim::Runaway const&) { } catch (sim::Quiet const&) { }
                    sim::W().maxEvents = 100000;
                }
                { auto gone = std::move(t); }
                // the loop must come to rest: nothing is waited for any more
                bool quiet = false; try { loop.run(); } catch (sim::Quiet const&) { quiet = true; }
                MC_CHECK(!quiet, "never-resumed", str(n) + " abandoned after step " + std::to_string(steps) + ": the loop still waits");
            }
            MC_CHECK(T().live == 0 && T().bad.empty() && r.bad.empty(), "lifetime", str(n) + " abandoned after step " + std::to_string(steps) + ": " + std::to_string(T().live) + " values left, " + T().bad + r.bad);
            for (auto& [id, k] : r.started) MC_CHECK(r.dropped[id] == k, "lifetime", str(n) + ": locals of node " + std::to_string(id) + " not destroyed once");
            mc::state(); mc::transition(3);
        }
    });
}
