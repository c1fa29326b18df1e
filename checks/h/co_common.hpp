// Small coroutine programs (trees) interpreted by real library coroutines, and a reference evaluation of them.
#pragma once
#include "sim.hpp"
#include <algorithm>
#include <HXLibs/coroutine/loop/EventLoop.hpp>
#include <HXLibs/coroutine/task/Task.hpp>
#include <HXLibs/coroutine/task/RootTask.hpp>
#include <HXLibs/coroutine/awaiter/WhenAll.hpp>
#include <HXLibs/coroutine/awaiter/WhenAny.hpp>

namespace vp {
using namespace HX; using namespace HX::coroutine;
using namespace std::chrono_literals;

// --- tracked values ---
struct Track {
    long live = 0; std::set<void const*> objs; std::string bad;
};
inline Track& T() { static Track t; return t; }
struct Val {
    std::string v; unsigned magic = 0xC0FFEE;
    void on() { ++T().live; if (!T().objs.insert(this).second) T().bad = "object constructed over a live one"; }
    explicit Val(std::string s) : v(std::move(s)) { on(); }
    Val(Val const& o) : v(o.v) { o.chk(); on(); }
    Val(Val&& o) noexcept : v(std::move(o.v)) { o.chk(); o.v = "<moved>"; on(); }
    Val& operator=(Val const& o) { chk(); o.chk(); v = o.v; return *this; }
    Val& operator=(Val&& o) noexcept { chk(); o.chk(); std::string t = std::move(o.v); o.v = "<moved>"; v = std::move(t); return *this; }
    void chk() const { if (magic != 0xC0FFEE) T().bad = "use of a destroyed object"; }
    ~Val() { chk(); if (!T().objs.erase(this)) T().bad = "object destroyed twice"; magic = 0xDEAD; --T().live; }
};
struct Err { std::string code; };

enum Kind { RET, THR, YRET, YTHR, S1RET, S2RET, S1THR, IORET, IOTHR, IOLATE, NEVER, S1Y, LEAVES, SEQ2, CATCH, ALL2, ALL3, ANY2, ANY3, OPALL, OPANY };
struct Node { Kind k; int id = 0; std::vector<Node> ch; };
inline std::string str(Node const& n) {
    static char const* nm[] = {"ret","throw","yield.ret","yield.throw","sleep1.ret","sleep2.ret","sleep1.throw","io.ret","io.throw","iolate.ret","never","sleep1.yield.ret","?","seq","catch","all","all","any","any","&&","||"};
    std::string s = nm[n.k];
    if (!n.ch.empty()) { s += "("; for (std::size_t i = 0; i < n.ch.size(); ++i) s += (i ? "," : "") + str(n.ch[i]); s += ")"; }
    return s;
}
inline void number(Node& n, int& c) { n.id = c++; for (auto& x : n.ch) number(x, c); }

// --- reference ---
struct Out { long long t; int susp; bool ok; std::string v; };   // finish time, whether it suspended, outcome
inline void outcomes(Node const& n, long long t, int susp, std::vector<Out>& o);
inline std::vector<Out> eval(Node const& n, long long t, int susp) { std::vector<Out> o; outcomes(n, t, susp, o); return o; }
inline std::string leafv(Node const& n) { return "v" + std::to_string(n.id); }
inline std::string leafe(Node const& n) { return "e" + std::to_string(n.id); }
constexpr long long FAR = 1LL << 60;
inline long long lateAt() { return 3 * sim::ms / 2; }
inline void outcomes(Node const& n, long long t, int susp, std::vector<Out>& o) {
    using sim::ms;
    switch (n.k) {
    case RET: o.push_back({t, susp, true, leafv(n)}); return;
    case THR: o.push_back({t, susp, false, leafe(n)}); return;
    case YRET: case IORET: o.push_back({t, 1, true, leafv(n)}); return;
    case YTHR: case IOTHR: o.push_back({t, 1, false, leafe(n)}); return;
    case S1RET: case S1Y: o.push_back({t + ms, 1, true, leafv(n)}); return;
    case S2RET: o.push_back({t + 2 * ms, 1, true, leafv(n)}); return;
    case S1THR: o.push_back({t + ms, 1, false, leafe(n)}); return;
    case IOLATE: o.push_back({std::max(t, lateAt()), 1, true, leafv(n)}); return;
    case NEVER: o.push_back({FAR, 1, true, "?"}); return;
    case SEQ2: {
        for (auto& a : eval(n.ch[0], t, susp)) {
            if (a.t >= FAR || !a.ok) { o.push_back(a); continue; }
            for (auto& b : eval(n.ch[1], a.t, a.susp)) { if (b.ok) o.push_back({b.t, b.susp, true, "(" + a.v + ";" + b.v + ")"}); else o.push_back(b); }
        }
        return;
    }
    case CATCH: for (auto& a : eval(n.ch[0], t, susp)) o.push_back({a.t, a.susp, true, a.ok ? "[" + a.v + "]" : "[!" + a.v + "]"}); return;
    case ALL2: case ALL3: case OPALL: {
        std::vector<Out> acc{{t, susp, true, ""}};
        for (std::size_t i = 0; i < n.ch.size(); ++i) {
            std::vector<Out> nx;
            for (auto& a : acc) for (auto& b : eval(n.ch[i], t, 0))
                nx.push_back({std::max(a.t, b.t), std::max(a.susp, b.susp), true, a.v + (i ? "," : "") + (b.ok ? b.v : "!" + b.v)});
            acc = nx;
        }
        for (auto& a : acc) o.push_back({a.t, a.susp, true, "{" + a.v + "}"});
        return;
    }
    case ANY2: case ANY3: case OPANY: {
        // every combination of member outcomes
        std::vector<std::vector<Out>> mem; for (auto& c : n.ch) mem.push_back(eval(c, t, 0));
        std::vector<std::size_t> ix(mem.size(), 0);
        for (;;) {
            long long bt = FAR; int bs = 1;
            for (std::size_t i = 0; i < mem.size(); ++i) { auto& x = mem[i][ix[i]]; if (x.t < bt || (x.t == bt && x.susp < bs)) { bt = x.t; bs = x.susp; } }
            for (std::size_t i = 0; i < mem.size(); ++i) {
                auto& x = mem[i][ix[i]];
                if (x.t != bt || x.susp != bs) continue;
                Out r{bt, std::max(susp, bs), x.ok, x.ok ? "<" + std::to_string(i) + ":" + x.v + ">" : x.v};
                o.push_back(r);
                if (bs == 0) break;                 // finished without suspending: the first one
            }
            std::size_t i = 0; while (i < ix.size() && ++ix[i] == mem[i].size()) ix[i++] = 0;
            if (i == ix.size()) break;
        }
        return;
    }
    default: return;
    }
}
inline void dedup(std::vector<Out>& o) {
    std::sort(o.begin(), o.end(), [](Out const& a, Out const& b) { return std::tie(a.t, a.ok, a.v) < std::tie(b.t, b.ok, b.v); });
    o.erase(std::unique(o.begin(), o.end(), [](Out const& a, Out const& b) { return a.t == b.t && a.ok == b.ok && a.v == b.v; }), o.end());
}

// --- interpretation by library coroutines ---
struct Run {
    EventLoop* loop; std::map<int, int> started, ended, dropped; std::string bad;
    long long t0 = 0;
    std::map<int, std::shared_ptr<sim::Conn>> conn; int anyDepth = 0;
};
struct Guard {                                     // a local of every node
    Run& r; int id; bool alive = true;
    Guard(Run& r, int id) : r(r), id(id) { ++r.started[id]; }
    Guard(Guard const&) = delete;
    ~Guard() { ++r.dropped[id]; }
};
inline void resumed(Run& r, int id) { if (r.dropped[id]) r.bad = "node " + std::to_string(id) + " ran after it was destroyed"; }

inline Task<Val> run(Run& r, Node const& n, Val arg);
inline std::string show(container::Try<Val>& t) { if (t) return t.move().v; try { t.rethrow(); } catch (Err& e) { return "!" + e.code; } catch (std::exception& e) { return std::string("!?") + e.what(); } return "!?"; }
template <std::size_t... I, class V> std::string pickAny(V& v, std::index_sequence<I...>) {
    std::string s; std::size_t ix = v.index();
    ((ix == I ? (void)(s = "<" + std::to_string(I) + ":" + v.template get<I>().v + ">") : (void)0), ...);
    return ix < sizeof...(I) ? s : "<none>";
}
inline Task<Val> run(Run& r, Node const& n, Val arg) {
    Guard g{r, n.id}; Val local{"local" + std::to_string(n.id)};
    auto fin = [&] { resumed(r, n.id); local.chk(); arg.chk(); if (arg.v != "arg" || local.v != "local" + std::to_string(n.id)) r.bad = "locals of node damaged"; if (++r.ended[n.id] > 1) r.bad = "node finished twice"; };
    auto io = [&]() -> Task<int> {
        char b[4] = {};
        int k = co_await r.loop->makeAioTask().prepRecv(r.conn.at(n.id)->fd, std::span<char>{b, 4}, 0);
        if (k != 1 || b[0] != (char)('a' + n.id % 26)) r.bad = "node " + std::to_string(n.id) + " received another operation's result: " + std::to_string(k);
        co_return k;
    };
    switch (n.k) {
    case RET: fin(); co_return Val{leafv(n)};
    case THR: fin(); throw Err{leafe(n)};
    case YRET: co_await r.loop->makeTimer().yield(); fin(); co_return Val{leafv(n)};
    case YTHR: co_await r.loop->makeTimer().yield(); fin(); throw Err{leafe(n)};
    case S1RET: co_await r.loop->makeTimer().sleepFor(1ms); fin(); co_return Val{leafv(n)};
    case S2RET: co_await r.loop->makeTimer().sleepFor(2ms); fin(); co_return Val{leafv(n)};
    case S1THR: co_await r.loop->makeTimer().sleepFor(1ms); fin(); throw Err{leafe(n)};
    case S1Y: co_await r.loop->makeTimer().sleepFor(1ms); resumed(r, n.id); co_await r.loop->makeTimer().yield(); fin(); co_return Val{leafv(n)};
    case IORET: case IOLATE: case NEVER: co_await io(); fin(); co_return Val{leafv(n)};
    case IOTHR: co_await io(); fin(); throw Err{leafe(n)};
    case SEQ2: {
        auto a = co_await run(r, n.ch[0], Val{"arg"}); resumed(r, n.id);
        auto b = co_await run(r, n.ch[1], Val{"arg"}); fin();
        co_return Val{"(" + a.v + ";" + b.v + ")"};
    }
    case CATCH: {
        std::string res;
        try { auto a = co_await run(r, n.ch[0], Val{"arg"}); res = "[" + a.v + "]"; } catch (Err const& e) { res = "[!" + e.code + "]"; }
        fin(); co_return Val{res};
    }
    case ALL2: { auto t = co_await whenAll(run(r, n.ch[0], Val{"arg"}), run(r, n.ch[1], Val{"arg"})); fin(); co_return Val{"{" + show(std::get<0>(t)) + "," + show(std::get<1>(t)) + "}"}; }
    case ALL3: { auto t = co_await whenAll(run(r, n.ch[0], Val{"arg"}), run(r, n.ch[1], Val{"arg"}), run(r, n.ch[2], Val{"arg"})); fin(); co_return Val{"{" + show(std::get<0>(t)) + "," + show(std::get<1>(t)) + "," + show(std::get<2>(t)) + "}"}; }
    case OPALL: {
        if (n.ch.size() == 2) { auto t = co_await (run(r, n.ch[0], Val{"arg"}) && run(r, n.ch[1], Val{"arg"})); fin(); co_return Val{"{" + show(std::get<0>(t)) + "," + show(std::get<1>(t)) + "}"}; }
        auto t = co_await (run(r, n.ch[0], Val{"arg"}) && run(r, n.ch[1], Val{"arg"}) && run(r, n.ch[2], Val{"arg"})); fin(); co_return Val{"{" + show(std::get<0>(t)) + "," + show(std::get<1>(t)) + "," + show(std::get<2>(t)) + "}"};
    }
    case ANY2: { auto v = co_await whenAny(run(r, n.ch[0], Val{"arg"}), run(r, n.ch[1], Val{"arg"})); fin(); co_return Val{pickAny(v, std::make_index_sequence<2>{})}; }
    case ANY3: { auto v = co_await whenAny(run(r, n.ch[0], Val{"arg"}), run(r, n.ch[1], Val{"arg"}), run(r, n.ch[2], Val{"arg"})); fin(); co_return Val{pickAny(v, std::make_index_sequence<3>{})}; }
    case OPANY: {
        if (n.ch.size() == 2) { auto v = co_await (run(r, n.ch[0], Val{"arg"}) || run(r, n.ch[1], Val{"arg"})); fin(); co_return Val{pickAny(v, std::make_index_sequence<2>{})}; }
        auto v = co_await (run(r, n.ch[0], Val{"arg"}) || run(r, n.ch[1], Val{"arg"}) || run(r, n.ch[2], Val{"arg"})); fin(); co_return Val{pickAny(v, std::make_index_sequence<3>{})};
    }
    default: co_return Val{"?"};
    }
}
inline void mkConns(Run& r, Node const& n) {
    if (n.k == IORET || n.k == IOTHR || n.k == IOLATE || n.k == NEVER) {
        auto c = sim::newConn(); r.conn[n.id] = c;
        if (n.k == IOLATE) { c->wake = sim::kEpoch + lateAt(); c->pause(lateAt()); }
        if (n.k != NEVER) c->data(std::string(1, (char)('a' + n.id % 26)));
    }
    for (auto& x : n.ch) mkConns(r, x);
}
inline bool hasKind(Node const& n, std::initializer_list<Kind> ks) { for (auto k : ks) if (n.k == k) return true; for (auto& c : n.ch) if (hasKind(c, ks)) return true; return false; }
inline int countNodes(Node const& n) { int c = 1; for (auto& x : n.ch) c += countNodes(x); return c; }

// Runs the program once and judges it.
enum Entry { ROOT, TRYSYNC, SYNC, ASYNC, ENTRIES };
inline void execute(Node const& n, Entry entry, mc::Chooser* c, std::function<void()> conf = {}) {
    sim::reset(c); if (conf) conf();
    T() = Track{}; Run r;
    std::string what; bool ok = false; int finished = 0; long long tEnd = -1; bool quiet = false;
    auto desc = [&] { return str(n) + " entry " + std::to_string(entry) + (c ? " choices " + c->str() : ""); };
    {
        EventLoop loop; r.loop = &loop; mkConns(r, n);
        auto note = [&](bool k, std::string s) { ok = k; what = std::move(s); ++finished; tEnd = sim::W().now; };
        auto body = [&]() -> Task<Val> { auto v = co_await run(r, n, Val{"arg"}); tEnd = sim::W().now; co_return v; };
        try {
            if (entry == ROOT) {
                auto root = [&]() -> RootTask<> {
                    try { auto v = co_await run(r, n, Val{"arg"}); note(true, v.v); } catch (Err const& e) { note(false, e.code); }
                    catch (std::exception const& e) { note(false, std::string("?") + e.what()); }
                };
                root().detach();
                loop.run();
            } else if (entry == TRYSYNC) {
                auto t = loop.trySync(body()); auto te = tEnd;
                if (t) note(true, t.move().v); else { try { t.rethrow(); } catch (Err const& e) { note(false, e.code); } catch (std::exception const& e) { note(false, std::string("?") + e.what()); } }
                tEnd = te;
            } else if (entry == SYNC) {
                try { auto v = loop.sync(body()); auto te = tEnd; note(true, v.v); tEnd = te; } catch (Err const& e) { note(false, e.code); tEnd = -1; }
            } else {
                auto root = [&]() -> RootTask<> {
                    auto t = co_await loop.tryAsync(run(r, n, Val{"arg"}));
                    if (t) note(true, t.move().v); else { try { t.rethrow(); } catch (Err const& e) { note(false, e.code); } catch (std::exception const& e) { note(false, std::string("?") + e.what()); } }
                };
                root().detach();
                loop.run();
            }
        } catch (sim::Quiet const&) { quiet = true; }
        catch (sim::Runaway const&) { mc::fail("endless", desc() + ": the loop keeps going without end"); return; }
    }
    auto exp = eval(n, 0, 0); dedup(exp);
    bool never = exp[0].t >= FAR;
    std::string es; for (auto& e : exp) es += (es.empty() ? "" : " | ") + std::string(e.ok ? "" : "!") + e.v + "@" + std::to_string(e.t / 1000) + "us";
    if (!r.bad.empty()) mc::fail("damage", desc() + ": " + r.bad);
    if (!T().bad.empty()) mc::fail("lifetime", desc() + ": " + T().bad);
    if (never) return;
    if (finished != 1) { mc::fail(finished ? "resumed-twice" : "never-resumed", desc() + ": the waiter continued " + std::to_string(finished) + " times, expected once with " + es + (quiet ? " (loop waits for ever)" : "")); return; }
    bool match = false;
    for (auto& e : exp) if (e.ok == ok && e.v == what && (tEnd < 0 || tEnd - sim::kEpoch == e.t)) match = true;
    if (!match) mc::fail("outcome", desc() + ": outcome " + (ok ? "" : "!") + what + " at " + std::to_string((tEnd - sim::kEpoch) / 1000) + "us, expected " + es);
    for (auto& [id, k] : r.started) if (r.dropped[id] != k || k != 1) mc::fail("lifetime", desc() + ": node " + std::to_string(id) + " started " + std::to_string(k) + " times, its locals were destroyed " + std::to_string(r.dropped[id]) + " times");
    if (T().live != 0) mc::fail("lifetime", desc() + ": " + std::to_string(T().live) + " values never destroyed");
    mc::outcome(str(n) + what);
}
} // namespace vp
