#include "co_common.hpp"
using namespace vp;

static std::vector<Node> leaves() { std::vector<Node> v; for (Kind k : {RET, THR, YRET, YTHR, S1RET, S1THR, IORET, IOTHR}) v.push_back({k}); return v; }
static std::vector<Node> level(std::vector<Node> const& a, std::vector<Node> const& b) {
    std::vector<Node> r = b;
    for (auto& x : a) r.push_back({CATCH, 0, {x}});
    for (auto& x : a) for (auto& y : b) r.push_back({SEQ2, 0, {x, y}});
    return r;
}
// chain of depth d awaiting each other, suspension at the bottom and after each return
static Task<int> chain(EventLoop& loop, int d, int mode) {
    Val here{"d" + std::to_string(d)};
    if (d == 0) { if (mode & 1) co_await loop.makeTimer().yield(); if (mode & 4) throw Err{"deep"}; co_return 1; }
    int v = co_await chain(loop, d - 1, mode);
    if (mode & 2) co_await loop.makeTimer().yield();
    here.chk();
    co_return v + 1;
}
struct MoveOnly { std::unique_ptr<int> p; Val v{"mo"}; explicit MoveOnly(int i) : p(new int(i)) {} MoveOnly(MoveOnly&&) = default; MoveOnly& operator=(MoveOnly&&) = default; };
static Task<MoveOnly> mo(EventLoop& l, int k, bool susp) { if (susp) co_await l.makeTimer().yield(); MoveOnly m{k}; co_return m; }
static Task<> vd(EventLoop& l, int k, bool susp) { Val a{"a"}; if (susp) co_await l.makeTimer().yield(); if (k) throw Err{"v"}; }
static Task<Val> byref(EventLoop& l, Val const& v) { Val c{v}; co_await l.makeTimer().yield(); co_return c; }

void mc_main() {
    auto L = leaves();
    auto l1 = level(L, L);                               // every leaf, catch(leaf), seq(leaf,leaf)
    // 1. all programs: one level, two levels; all entries
    {
        std::vector<Node> progs = l1;
        for (auto& x : l1) { if (x.k < LEAVES) continue; progs.push_back({CATCH, 0, {x}}); for (auto& y : L) { progs.push_back({SEQ2, 0, {x, y}}); progs.push_back({SEQ2, 0, {y, x}}); } }
        if (mc::thorough()) { auto p2 = progs; for (auto& x : p2) if (x.k == SEQ2 || x.k == CATCH) for (auto k : {YRET, IOTHR, RET}) { Node y{k}; progs.push_back({SEQ2, 0, {x, y}}); progs.push_back({CATCH, 0, {{SEQ2, 0, {y, x}}}}); } }
        for (std::size_t b = 0; b < progs.size(); b += 40)
            mc::run_case("programs " + std::to_string(b), [&] {
                for (std::size_t i = b; i < std::min(progs.size(), b + 40); ++i) for (int e = 0; e < ENTRIES; ++e) {
                    Node n = progs[i]; int c = 0; number(n, c); mc::detail(str(n) + " entry " + std::to_string(e));
                    execute(n, (Entry)e, nullptr); mc::state(); mc::transition(countNodes(n)); mc::validated();
                }
                mc::sample(str(progs[b]));
            });
    }
    // 2. nesting depth
    for (int d : {0, 1, 2, 3, 5, 17, 100, 1000}) for (int m = 0; m < 8; ++m) mc::run_case("chain depth " + std::to_string(d) + " mode " + std::to_string(m), [&] {
        for (int e = 0; e < 2; ++e) {
            sim::reset(nullptr); T() = Track{};
            { EventLoop loop; int got = -1; std::string err; int fin = 0;
              if (e == 0) { auto t = loop.trySync(chain(loop, d, m)); if (t) got = t.move(); else try { t.rethrow(); } catch (Err const& x) { err = x.code; } fin = 1; }
              else { auto root = [&]() -> RootTask<> { try { got = co_await chain(loop, d, m); } catch (Err const& x) { err = x.code; } ++fin; }; root().detach(); loop.run(); }
              MC_CHECK(fin == 1, "never-resumed", "chain never finished");
              if (m & 4) MC_CHECK(err == "deep", "outcome", "exception from depth " + std::to_string(d) + " arrived as '" + err + "'");
              else MC_CHECK(got == d + 1 && err.empty(), "outcome", "depth " + std::to_string(d) + " gave " + std::to_string(got)); }
            MC_CHECK(T().live == 0 && T().bad.empty(), "lifetime", "objects left " + std::to_string(T().live) + T().bad);
            mc::state(); mc::transition(d);
        }
    });
    // 3. never awaited / destroyed while suspended at every point
    {
        std::vector<Node> progs = l1; for (auto& x : l1) if (x.k >= LEAVES) progs.push_back({SEQ2, 0, {{YRET}, x}});
        for (auto& p : progs) mc::run_case("abandon " + str(p), [&] {
            for (int steps = 0; steps < 6; ++steps) {
                Node n = p; int c = 0; number(n, c); mc::detail(str(n) + " abandoned after step " + std::to_string(steps));
                sim::reset(nullptr); T() = Track{}; Run r; bool fin = false;
                {
                    EventLoop loop; r.loop = &loop; mkConns(r, n);
                    auto mk = [&]() -> Task<> { try { auto v = co_await run(r, n, Val{"arg"}); fin = true; } catch (Err const&) { fin = true; } };
                    auto t = mk();
                    if (steps > 0) {
                        loop.start(t);
                        // let the world advance steps-1 events: every wait counts one
                        sim::W().maxEvents = (uint64_t)(steps - 1);
                        if (steps > 1 && !fin) try { loop.run(); } catch (sim::Runaway const&) { } catch (sim::Quiet const&) { }
                        sim::W().maxEvents = 100000;
                    }
                    // t destroyed here, possibly suspended; then the loop
                }
                MC_CHECK(T().live == 0 && T().bad.empty(), "lifetime", str(n) + " abandoned after step " + std::to_string(steps) + ": " + std::to_string(T().live) + " values left, " + T().bad);
                for (auto& [id, k] : r.started) MC_CHECK(r.dropped[id] == k, "lifetime", str(n) + " abandoned after step " + std::to_string(steps) + ": locals of node " + std::to_string(id) + " not destroyed once");
                mc::state(); mc::transition();
            }
        });
    }
    // 4. moving tasks around, move-only and void results, references, synchronous run
    mc::run_case("result kinds", [&] {
        for (int susp = 0; susp < 2; ++susp) for (int how = 0; how < 6; ++how) {
            sim::reset(nullptr); T() = Track{}; 
            { EventLoop loop; std::string got; int n = 0;
              auto root = [&]() -> RootTask<> {
                switch (how) {
                case 0: { auto m = co_await mo(loop, 42, susp); got = std::to_string(*m.p); break; }
                case 1: { auto t = mo(loop, 7, susp); auto u = std::move(t); auto m = co_await u; got = std::to_string(*m.p + 35); break; }
                case 2: { auto t = mo(loop, 7, susp); auto u = mo(loop, 42, susp); t = std::move(u); auto m = co_await t; got = std::to_string(*m.p); break; }
                case 3: { co_await vd(loop, 0, susp); got = "42"; break; }
                case 4: { try { co_await vd(loop, 1, susp); } catch (Err const& e) { got = e.code == "v" ? "42" : "x"; } break; }
                case 5: { Val v{"42"}; auto w = co_await byref(loop, v); got = w.v == v.v ? w.v : "x"; break; }
                }
                ++n;
              }; root().detach(); loop.run();
              MC_CHECK(n == 1 && got == "42", "outcome", "result kind " + std::to_string(how) + " gave '" + got + "' " + std::to_string(n) + " times"); }
            MC_CHECK(T().live == 0 && T().bad.empty(), "lifetime", "result kind " + std::to_string(how) + ": " + std::to_string(T().live) + " objects left " + T().bad);
            mc::state(); mc::transition();
        }
        // runSync: value, exception, still suspended
        sim::reset(nullptr); T() = Track{};
        { EventLoop loop; MC_CHECK(*mo(loop, 3, false).runSync().p == 3, "outcome", "runSync value");
          bool th = false; try { vd(loop, 1, false).runSync(); } catch (Err const&) { th = true; } MC_CHECK(th, "outcome", "runSync lost the exception");
          th = false; try { auto x = mo(loop, 3, true).runSync(); } catch (std::exception const&) { th = true; } MC_CHECK(th, "outcome", "runSync of a suspended task claims a result"); }
        MC_CHECK(T().live == 0 && T().bad.empty(), "lifetime", "runSync leaves objects");
        { T() = Track{}; { auto l = std::make_unique<EventLoop>(); auto t = mo(*l, 1, true); auto v = vd(*l, 1, true); Task<> e; e = std::move(v); Task<MoveOnly> z; z = std::move(t); } MC_CHECK(T().live == 0 && T().bad.empty(), "lifetime", "unstarted tasks leave objects"); }
        mc::state(3); mc::transition(3);
    });
}
