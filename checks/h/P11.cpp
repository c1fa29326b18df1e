#include "co_common.hpp"
using namespace vp;
// Every coroutine runs a script of I/O operations; every operation has its own connection and a result no other has.
enum O { RNOW, RLATE, REOF, RERR, RCAN, SND, SNDERR, CLS, LNOW, LEXP, LIN, LNEV, LEDGE, LERR, SLP, YLD, NOS };
static char const* nm[] = {"recv", "recv@1.5", "recv-eof", "recv-error", "recv-canceled", "send", "send-error", "close", "linked recv", "linked recv@1.5 limit 1", "linked recv@1.5 limit 2", "linked recv never limit 1", "linked recv@1 limit 1", "linked recv-error", "sleep1", "yield"};
using Script = std::vector<int>;
struct Rec { int co, step, kind; int id; std::shared_ptr<sim::Conn> c; int resumed = 0; std::string got; long long sub = -1, at = -1; };
struct Sys { EventLoop* loop; std::vector<Rec> r; std::vector<std::vector<int>> ix; int done = 0; std::string bad; std::map<int, int> forced; };
static std::string show(std::vector<Script> const& p) { std::string s; for (auto& x : p) { s += s.empty() ? "" : " | "; for (std::size_t i = 0; i < x.size(); ++i) s += (i ? " " : "") + std::string(nm[x[i]]); } return s; }
static void late(sim::Conn& c, long long d) { c.wake = sim::kEpoch + d; c.pause(d); }
static std::string pat(int id) { std::string s; for (int i = 0; i < 1 + id; ++i) s += (char)('a' + (id + i) % 26); return s; }
static void mk(Sys& s, std::vector<Script> const& p) {
    int id = 0; s.ix.resize(p.size());
    for (int c = 0; c < (int)p.size(); ++c) for (int i = 0; i < (int)p[c].size(); ++i) {
        Rec r{c, i, p[c][i], id++}; r.c = sim::newConn();
        switch (r.kind) {
        case RLATE: case LEXP: case LIN: late(*r.c, 3 * sim::ms / 2); r.c->data(pat(r.id)); break;
        case LEDGE: late(*r.c, sim::ms); r.c->data(pat(r.id)); break;
        case REOF: r.c->fin(); break;
        case RNOW: case LNOW: r.c->data(pat(r.id)); break;
        case RERR: case LERR: r.c->data("q"); s.forced[r.c->fd] = -(20 + r.id); break;
        case SNDERR: s.forced[r.c->fd] = -(20 + r.id); break;
        case RCAN: r.c->data("q"); s.forced[r.c->fd] = -ECANCELED; break;
        default: break;
        }
        s.ix[c].push_back((int)s.r.size()); s.r.push_back(r);
    }
}
static Task<> script(Sys& s, int co, Script const& sc) {
    for (int i = 0; i < (int)sc.size(); ++i) {
        int e = s.ix[co][i]; auto c = s.r[e].c; int id = s.r[e].id, k = sc[i];
        std::vector<char> buf(300, '.'); auto sp = std::span<char>{buf.data(), buf.size()};
        s.r[e].sub = sim::W().now; std::string got;
        auto data = [&](int n) { std::string g = std::to_string(n); if (n > 0) g += ":" + std::string(buf.data(), (std::size_t)n); return g; };
        if (k <= RCAN) got = data(co_await s.loop->makeAioTask().prepRecv(c->fd, sp, 0));
        else if (k == SND || k == SNDERR) { auto t = pat(id); got = std::to_string(co_await s.loop->makeAioTask().prepSend(c->fd, std::span<char const>{t.data(), t.size()}, 0)); }
        else if (k == CLS) got = std::to_string(co_await s.loop->makeAioTask().prepClose(c->fd));
        else if (k <= LERR) {
            auto ts = durationToKernelTimespec(k == LIN ? 2ms : 1ms);
            auto v = co_await AioTask::linkTimeout(s.loop->makeAioTask().prepRecv(c->fd, sp, 0), s.loop->makeAioTask().prepLinkTimeout(&ts, 0));
            if (v.index() == 0) got = data(v.template get<0>()); else if (v.index() == 1) got = "timeout"; else got = "index " + std::to_string(v.index());
        }
        else if (k == SLP) { co_await s.loop->makeTimer().sleepFor(1ms); got = "ok"; }
        else { co_await s.loop->makeTimer().yield(); got = "ok"; }
        auto& r = s.r[e]; ++r.resumed; r.got = got; r.at = sim::W().now;
        if (i && s.r[s.ix[co][i - 1]].resumed != 1) s.bad = "coroutine resumed twice";
    }
    ++s.done;
}
static std::vector<std::string> expect(Rec const& r, bool race) {
    std::string d = std::to_string(1 + r.id) + ":" + pat(r.id), e = std::to_string(-(20 + r.id));
    switch (r.kind) {
    case RNOW: case RLATE: return {d};
    case REOF: case CLS: return {"0"};
    case RERR: case SNDERR: return {e};
    case RCAN: return {std::to_string(-ECANCELED)};
    case SND: return {std::to_string(1 + r.id)};
    case LNOW: if (race) return {d, "timeout"}; return {d};
    case LERR: if (race) return {e, "timeout"}; return {e};
    case LIN: case LEXP: {                                    // arrives at 1.5 ms; the limit runs from the submission
        long long lim = r.sub + (r.kind == LIN ? 2 : 1) * sim::ms, arr = std::max(r.sub, sim::kEpoch + 3 * sim::ms / 2);
        if (arr < lim) { if (race) return {d, "timeout"}; return {d}; }
        if (arr == lim) return {d, "timeout"};
        return {"timeout"};
    }
    case LEDGE: return {d, "timeout"};
    case LNEV: return {"timeout"};
    default: return {"ok"};
    }
}
enum Way { RUN, W_TRY, SYNCTHROW, WAYS };
static void program(std::vector<Script> const& p, int way, mc::Chooser* ch, bool order, bool race, bool eintr) {
    sim::reset(ch); auto& w = sim::W(); w.chOrder = order; w.chTimeoutRace = race; w.chEintr = eintr;
    Sys s; bool quiet = false, endless = false; std::string ret, ret2; int mainDone = 0;
    w.fault = [&](sim::Op const& o) { if (o.opc != IORING_OP_RECV && o.opc != IORING_OP_SEND) return 0; auto it = s.forced.find(o.fd); return it == s.forced.end() ? 0 : it->second; };
    {
        EventLoop loop; s.loop = &loop; mk(s, p);
        auto root = [&](int c) -> RootTask<> { co_await script(s, c, p[c]); };
        try {
            if (way == RUN) { for (int c = 0; c < (int)p.size(); ++c) root(c).detach(); loop.run(); }
            else {
                auto body = [&]() -> Task<std::string> {
                    for (int c = 1; c < (int)p.size(); ++c) root(c).detach();
                    co_await script(s, 0, p[0]); ++mainDone;
                    if (way == SYNCTHROW) throw Err{"main"};
                    co_return "main value that does not fit into small strings";
                };
                if (way == W_TRY) { auto t = loop.trySync(body()); ret = t ? t.move() : "!"; }
                else { try { ret = loop.sync(body()); } catch (Err const& e) { ret = "!" + e.code; } }
                if (mainDone != 1) ret = "returned before the task had finished";
                // the loop is usable again
                auto c2 = sim::newConn(); c2->data("zz"); char b[4];
                auto again = [&]() -> Task<int> { int n = co_await loop.makeAioTask().prepRecv(c2->fd, std::span<char>{b, 4}, 0); co_return n; };
                ret2 = std::to_string(loop.sync(again()));
            }
        } catch (sim::Quiet const&) { quiet = true; } catch (sim::Runaway const&) { endless = true; }
        catch (std::exception const& e) { mc::fail("loop-exception", show(p) + ": the loop threw " + e.what()); return; }
    }
    auto what = show(p) + " way " + std::to_string(way) + (ch ? " choices " + ch->str() : "");
    MC_CHECK(s.bad.empty(), "resumed-twice", what + ": " + s.bad);
    if (endless) { mc::fail("endless", what + ": the loop keeps going without end"); return; }
    std::string oc;
    for (auto& r : s.r) {
        std::string wh = what + ": coroutine " + std::to_string(r.co) + " step " + std::to_string(r.step) + " (" + nm[r.kind] + ")";
        if (r.resumed != 1) { if (r.step && s.r[s.ix[r.co][r.step - 1]].resumed != 1) continue; mc::fail("never-resumed", wh + (quiet ? " is never resumed (loop waits for ever)" : " is not resumed (loop stopped)")); return; }
        auto ex = expect(r, race); bool ok = false; for (auto& x : ex) if (x == r.got) ok = true;
        if (!ok) { std::string es; for (auto& x : ex) es += (es.empty() ? "" : " or ") + x; mc::fail("wrong-result", wh + " got " + mc::esc(r.got) + " instead of " + mc::esc(es)); }
        long long due = r.sub;
        if (r.kind == RLATE) due = std::max(due, sim::kEpoch + 3 * sim::ms / 2);
        if (r.kind == SLP || r.kind == LNEV || (r.kind >= LNOW && r.kind <= LEDGE && r.got == "timeout" && !race)) due = r.sub + (r.kind == LIN ? 2 : 1) * sim::ms;
        else if (r.kind == LIN || r.kind == LEXP) due = std::max(due, sim::kEpoch + 3 * sim::ms / 2); else if (r.kind == LEDGE) due = std::max(due, sim::kEpoch + sim::ms);
        if (!(race && r.kind >= LNOW && r.kind <= LERR)) MC_CHECK(r.at == due, "late", wh + " resumed at " + std::to_string((r.at - sim::kEpoch) / 1000) + "us instead of " + std::to_string((due - sim::kEpoch) / 1000) + "us");
        if (r.kind == SND) MC_CHECK(r.c->out == pat(r.id), "wrong-bytes", wh + " sent " + mc::esc(r.c->out));
        oc += r.got + "@" + std::to_string(r.at - sim::kEpoch) + ";";
    }
    if (quiet || s.done != (int)p.size()) { mc::fail("never-resumed", what + ": the loop does not come to rest"); return; }
    if (way == W_TRY) MC_CHECK(ret == "main value that does not fit into small strings", "sync-result", what + ": " + ret);
    if (way == SYNCTHROW) MC_CHECK(ret == "!main", "sync-result", what + ": " + ret);
    if (way != RUN) MC_CHECK(ret2 == "2", "sync-reuse", what + ": second use of the loop gave " + ret2);
    mc::outcome(oc);
}
static void go(std::vector<Script> const& p, int way, bool order, bool race, bool eintr, int bound) {
    mc::sub_explore(show(p) + " way " + std::to_string(way) + " race " + std::to_string(race) + " eintr " + std::to_string(eintr), bound, [&](mc::Chooser& c) { program(p, way, &c, order, race, eintr); mc::state(); mc::validated(); for (auto& x : p) mc::transition(x.size()); });
}
// very many operations at once
static void many(int n, int kind, int plainFirst) {
    std::string what = std::to_string(plainFirst) + " plain then " + std::to_string(n) + " x " + nm[kind]; mc::detail(what);
    sim::reset(nullptr); Sys s; std::vector<Script> p; for (int i = 0; i < plainFirst; ++i) p.push_back({i % 2 ? RNOW : RLATE}); for (int i = 0; i < n; ++i) p.push_back({kind});
    bool quiet = false; std::vector<int> got(p.size(), -12345); std::vector<std::shared_ptr<sim::Conn>> cs; std::vector<long long> at(p.size());
    {
        EventLoop loop;
        auto root = [&](int i) -> RootTask<> {
            char b[64]; int k = p[i][0];
            if (k == LNOW || k == LIN || k == LNEV || k == LEXP) {
                auto ts = durationToKernelTimespec(k == LIN ? 2ms : 1ms);
                auto v = co_await AioTask::linkTimeout(loop.makeAioTask().prepRecv(cs[i]->fd, std::span<char>{b, 64}, 0), loop.makeAioTask().prepLinkTimeout(&ts, 0));
                got[i] = v.index() == 0 ? v.template get<0>() : -777;
            } else got[i] = co_await loop.makeAioTask().prepRecv(cs[i]->fd, std::span<char>{b, 64}, 0);
            at[i] = sim::W().now;
        };
        for (std::size_t i = 0; i < p.size(); ++i) { auto c = sim::newConn(); if (p[i][0] == RLATE || p[i][0] == LIN || p[i][0] == LEXP) late(*c, 3 * sim::ms / 2); if (p[i][0] != LNEV) c->data(std::string(1 + i % 50, 'x')); cs.push_back(c); }
        try { for (std::size_t i = 0; i < p.size(); ++i) root((int)i).detach(); loop.run(); } catch (sim::Quiet const&) { quiet = true; }
        catch (std::exception const& e) { mc::fail("loop-exception", what + ": " + e.what()); return; }
    }
    for (std::size_t i = 0; i < p.size(); ++i) {
        int k = p[i][0], want = k == LNEV || k == LEXP ? -777 : 1 + (int)(i % 50);
        if (got[i] == -12345) { mc::fail("never-resumed", what + ": operation " + std::to_string(i) + " is never resumed" + (quiet ? " (loop waits for ever)" : "")); return; }
        MC_CHECK(got[i] == want, "wrong-result", what + ": operation " + std::to_string(i) + " got " + std::to_string(got[i]) + " instead of " + std::to_string(want));
        long long due = sim::kEpoch + (k == RLATE || k == LIN ? 1500000 : k == LNEV || k == LEXP ? 1000000 : 0);
        MC_CHECK(at[i] == due, "late", what + ": operation " + std::to_string(i) + " resumed " + std::to_string(at[i] - due) + " ns late");
    }
    MC_CHECK(!quiet, "never-resumed", what + ": the loop does not come to rest");
    mc::state(); mc::transition(p.size()); mc::validated();
}
void mc_main() {
    std::vector<Script> one; for (int k = 0; k < NOS; ++k) one.push_back({k});
    std::vector<Script> two; for (int a : {RNOW, RLATE, RERR, SND, LNOW, LEXP, LIN, LNEV, LERR, YLD}) for (int b : {RNOW, RLATE, SND, LNOW, LEXP, SLP}) two.push_back({a, b});
    // 1. every pair, every order, batch and race; every way of running
    for (auto& a : one) for (int way = 0; way < WAYS; ++way) mc::run_case(std::string("pairs ") + show({a}) + " way " + std::to_string(way), [&] {
        go({a}, way, true, true, true, 3);
        for (auto& b : one) { go({a, b}, way, true, false, false, 100); go({a, b}, way, true, true, false, 100); go({a, b}, way, true, false, true, 2); }
        for (auto& b : two) { go({a, b}, way, true, false, false, 100); go({b, a}, way, true, true, false, 2); }
        mc::sample(show({a, two[5]}));
    });
    // 2. triples and quadruples
    for (auto& a : one) for (auto& b : one) mc::run_case("triples " + show({a, b}), [&] {
        for (auto& c : one) { go({a, b, c}, RUN, true, false, false, 100); go({a, b, c}, (int)((a[0] + b[0] + c[0]) % WAYS), true, true, false, mc::thorough() ? 3 : 1); go({a, b, c}, W_TRY, true, false, true, mc::thorough() ? 2 : 1); }
    });
    std::vector<int> f{RNOW, RLATE, RERR, LNOW, LEXP, LNEV, SND};
    for (int a : f) for (int b : f) mc::run_case(std::string("fours ") + nm[a] + "," + nm[b], [&] { for (int c : f) for (int d : f) go({{a}, {b}, {c}, {d}}, RUN, true, false, false, mc::thorough() ? 100 : 3); });
    for (std::size_t i = 0; i < two.size(); ++i) mc::run_case("two by two " + show({two[i]}), [&] { for (auto& b : two) { go({two[i], b}, RUN, true, false, false, mc::thorough() ? 100 : 3); go({two[i], b}, W_TRY, true, true, true, 1); } });
    // 3. submission queue limits
    for (int n : {1, 2, 511, 512, 513, 1022, 1023, 1024, 1025, 1026, 2047, 2048, 2049, 2500, 4100}) mc::run_case("many " + std::to_string(n), [&] { for (int k : {RNOW, RLATE, LNOW, LIN, LNEV, LEXP}) many(n, k, 0); });
    for (int pre = 1019; pre <= 1027; ++pre) mc::run_case("straddling " + std::to_string(pre), [&] { for (int k : {LNOW, LIN, LNEV, LEXP, RNOW}) for (int n : {1, 2, 3, 600}) many(n, k, pre); });
    // every error the system may report reaches its operation unchanged
    for (int k : {RERR, SNDERR, LERR}) mc::run_case(std::string("every error of ") + nm[k], [&] {
        for (int e = 1; e <= 133; ++e) {
            if (k == LERR && (e == ECANCELED || e == EINTR)) continue;      // how a timed out operation itself may end
            std::string what = std::string(nm[k]) + " with error " + std::to_string(e); mc::detail(what);
            sim::reset(nullptr); int got = 1, after = 1; sim::W().fault = [&](sim::Op const& o) { return o.opc == IORING_OP_RECV || o.opc == IORING_OP_SEND ? after == 1 ? -e : 0 : 0; };
            EventLoop loop; auto c = sim::newConn(); c->data("q"); char b[4];
            auto t = [&]() -> Task<> {
                std::span<char> sp{b, 4};
                if (k == RERR) got = co_await loop.makeAioTask().prepRecv(c->fd, sp, 0);
                else if (k == SNDERR) got = co_await loop.makeAioTask().prepSend(c->fd, std::span<char const>{"abc", 3}, 0);
                else { auto ts = durationToKernelTimespec(2ms); auto v = co_await AioTask::linkTimeout(loop.makeAioTask().prepRecv(c->fd, sp, 0), loop.makeAioTask().prepLinkTimeout(&ts, 0)); got = v.index() == 0 ? v.template get<0>() : 777; }
                after = 2; after = co_await loop.makeAioTask().prepRecv(c->fd, sp, 0) == 1 ? 3 : 4;
            };
            try { loop.sync(t()); } catch (sim::Quiet const&) { mc::fail("never-resumed", what); } catch (std::exception const& x) { mc::fail("loop-exception", what + ": the loop threw " + x.what()); continue; }
            MC_CHECK(got == -e, "wrong-result", what + ": the operation reported " + std::to_string(got)); MC_CHECK(after == 3, "wrong-result", what + ": the next operation failed");
            mc::state(); mc::transition(2);
        }
    });
    // 4. running on a loop that still has operations in flight is refused
    mc::run_case("refused", [&] {
        sim::reset(nullptr); EventLoop loop; auto c = sim::newConn(); c->data("x"); char b[4]; int got = 0;
        auto root = [&]() -> RootTask<> { got = co_await loop.makeAioTask().prepRecv(c->fd, std::span<char>{b, 4}, 0); };
        root().detach();
        auto t = [&]() -> Task<int> { co_return 3; };
        bool thrown = false; try { (void)loop.trySync(t()); } catch (std::runtime_error const&) { thrown = true; }
        if (!thrown) { MC_CHECK(got == 1, "sync-early", "trySync on a busy loop returned while an operation was in flight"); }
        loop.run(); MC_CHECK(got == 1, "never-resumed", "operation lost after a refused trySync");
    });
}
