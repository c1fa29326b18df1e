// P14: no byte sequence from a client crashes or wedges the server; every connection ends closed; others are served.
#include "srv_common.hpp"
using namespace vp;

static uint64_t runs;
static Rt* router() {
    static Rt* r = [] {
        auto* r = new Rt; put(scratch() + "/f", abc(37));
        auto all = [&](std::string_view p, auto f) { r->addEndpoint<GET, POST, PUT, HEAD>(p, f); };
        all("/", [](Req& q, Res& s) -> Task<> { auto b = co_await q.template parseBody<Timeout30>(); co_await s.setStatusAndContent(Status::CODE_200, b).sendRes(); });
        all("/save", [](Req& q, Res& s) -> Task<> { co_await q.template saveToFile<Timeout30>(scratch() + "/up"); co_await s.setStatusAndContent(Status::CODE_200, "saved").sendRes(); });
        all("/ign", [](Req&, Res& s) -> Task<> { co_await s.setStatusAndContent(Status::CODE_200, "ignored").sendRes(); });
        all("/cf", [](Req&, Res& s) -> Task<> { co_await s.useChunkedEncodingTransferFile(scratch() + "/f"); });
        all("/rg", [](Req& q, Res& s) -> Task<> { co_await s.useRangeTransferFile(q.getRangeRequestView(), scratch() + "/f"); });
        all("/q", [](Req& q, Res& s) -> Task<> { std::string o; for (auto& [k, v] : q.getParseQueryParameters()) o += k + "=" + v + ";"; co_await s.setStatusAndContent(Status::CODE_200, o).sendRes(); });
        all("/p/{id}/{x}", [](Req& q, Res& s) -> Task<> { std::string_view a = q.getPathParam(0), b = q.getPathParam(1); co_await s.setStatusAndContent(Status::CODE_200, std::string(a) + "," + std::string(b)).sendRes(); });
        all("/w/**", [](Req& q, Res& s) -> Task<> { co_await s.setStatusAndContent(Status::CODE_200, std::string(q.getUniversalWildcardPath())).sendRes(); });
        all("/m/{a}/**", [](Req& q, Res& s) -> Task<> { std::string_view a = q.getPathParam(0); co_await s.setStatusAndContent(Status::CODE_200, std::string(a) + "|" + std::string(q.getUniversalWildcardPath())).sendRes(); });
        all("/sse", [](Req&, Res& s) -> Task<> { auto st = co_await s.makeSseStream(); co_await st.ping(); });
        all("/throw", [](Req&, Res&) -> Task<> { throw std::runtime_error("handler"); co_return; });
        return r;
    }();
    return r;
}
enum End { IDLE, FIN, RESET, GONE };
static char const* endName[] = {"then silence", "then end of stream", "then reset", "then the peer is gone"};
static std::vector<std::string> split1(std::string const& s) { std::vector<std::string> v; for (char c : s) v.push_back({c}); return v; }

static bool judge(sim::Conn& c, std::string const& what, bool headPossible = false) {
    if (c.closes != 1) { mc::fail("not-closed", what + ": the connection was closed " + std::to_string(c.closes) + " times"); return false; }
    std::size_t p = 0; while (p < c.out.size() && !headPossible) { Rsp r; std::string why; auto g = readRsp(c.out, p, false, r, why); if (g == BAD) { mc::fail("bad-output", what + ": the server sent something that is no HTTP response (" + why + "): " + mc::esc(c.out, 200)); return false; } if (g == MORE) { mc::fail("cut-output", what + ": the server sent only a part of a response to a peer that could read all of it: " + mc::esc(c.out, 200)); return false; } }
    return true;
}
static bool once(std::vector<std::string> const& segs, End e, std::string const& tag, bool head = false) {
    ++runs; mc::transition();
    auto what = [&] { std::string s; for (auto& x : segs) s += x; return tag + ", bytes " + mc::esc(s, 300) + (segs.size() > 1 ? " in " + std::to_string(segs.size()) + " pieces " : " ") + endName[e]; };
    std::shared_ptr<sim::Conn> c;
    try {
        c = serve(nullptr, *router(), [&](sim::Conn& c) { for (auto& s : segs) c.data(s); if (e == FIN) c.fin(); else if (e == RESET) c.call([](sim::Conn& c) { c.wait([](sim::Conn& c) { return c.in.empty(); }).reset(); }); else if (e == GONE) c.gone(); }, [&] { std::size_t n = 0; for (auto& s : segs) n += s.size(); sim::W().maxEvents = 20000 + 8 * n; });
    } catch (sim::Quiet&) { mc::fail("stuck", what() + ": the connection is never closed although the peer can do nothing more"); return false; }
    catch (sim::Runaway&) { mc::fail("livelock", what() + ": the server loops without end"); return false; }
    catch (std::exception const& x) { mc::fail("escaped", what() + ": an exception left the event loop: " + x.what()); return false; }
    if (sim::W().badClose) { mc::fail("bad-close", what() + ": " + sim::W().badWhat); return false; }
    if (sim::W().openReal) { mc::fail("file-leak", what() + ": " + std::to_string(sim::W().openReal) + " files stay open"); return false; }
    if (e == GONE || e == RESET) { if (c->closes != 1) { mc::fail("not-closed", what() + ": the connection was closed " + std::to_string(c->closes) + " times"); return false; } }
    else if (!judge(*c, what(), head)) return false;
    if (e == IDLE && c->closedAt - sim::kEpoch > 100 * sim::sec) { mc::fail("late-close", what() + ": closed only after " + std::to_string((c->closedAt - sim::kEpoch) / sim::sec) + " s of silence"); return false; }
    return true;
}
static bool deliver(std::string const& s, std::string const& tag, bool th, bool head = false) {
    for (int e = 0; e < 4; ++e) if (!once({s}, (End)e, tag, head)) return false;
    if (!once(split1(s), FIN, tag, head)) return false;
    if (th && !once(split1(s), IDLE, tag, head)) return false;
    return true;
}

// garbage connections beside a good one, behind the real acceptor
static bool beside(std::vector<std::string> const& bad, int order /*0: bad first, 1: good first, 2: good between*/, End e, std::string const& tag, bool hold = false) {
    ++runs; mc::transition();
    sim::reset(nullptr); auto& w = sim::W(); w.maxEvents = 40000;
    std::string body = abc(900); std::string req = "POST / HTTP/1.1\r\nHost: h\r\nConnection: close\r\nContent-Length: 900\r\n\r\n" + body;
    auto good = [req](sim::Conn& c) { c.data(req.substr(0, 20)).pause(5 * sim::ms).data(req.substr(20, 100)).pause(5 * sim::ms).data(req.substr(120)); };
    auto badS = [e, hold](std::string const& b) { return [b, e, hold](sim::Conn& c) { c.holdSend = hold; c.data(b).pause(7 * sim::ms); if (e == FIN) c.fin(); if (e == RESET) c.reset(); if (e == GONE) c.gone(); }; };
    std::vector<sim::Script> sc; for (auto& b : bad) sc.push_back(badS(b));
    std::size_t gi = order == 0 ? sc.size() : order == 1 ? 0 : sc.size() / 2; sc.insert(sc.begin() + (long)gi, good);
    w.incoming.assign(sc.begin(), sc.end());
    auto what = [&] { std::string s; for (auto& b : bad) s += " [" + mc::esc(b, 80) + "]"; return tag + " beside" + s + " " + endName[e] + (hold ? " (peer does not read)" : ""); };
    std::atomic_bool run{true};
    {
        EventLoop loop; AddressResolver ar; auto entry = ar.resolve("127.0.0.1", "8080"); Acceptor<HttpIO> ac{*router(), loop, entry};
        auto t = ac.template start<Timeout30>(run);
        try { loop.start(t); loop.run(); mc::fail("acceptor-ended", what() + ": the accepting coroutine ended"); return false; }
        catch (sim::Quiet&) { }
        catch (sim::Runaway&) { mc::fail("livelock", what() + ": the server loops without end"); return false; }
        catch (std::exception const& x) { mc::fail("acceptor-died", what() + ": an exception left the server: " + x.what()); return false; }
        int n = 0; sim::Conn* g = nullptr;
        for (auto& c : w.all) { if (c->listener) continue; if (n++ == (int)gi) g = c.get(); else if (!hold && c->closes != 1) { mc::fail("not-closed", what() + ": a bad connection was closed " + std::to_string(c->closes) + " times"); return false; } }
        if (!g || n != (int)sc.size()) { mc::fail("not-accepted", what() + ": only " + std::to_string(n) + " of " + std::to_string(sc.size()) + " connections were accepted"); return false; }
        Rsp r; std::string why; std::size_t p = 0;
        if (readRsp(g->out, p, false, r, why) != OK || r.status != 200 || r.body != body || p != g->out.size()) { mc::fail("not-served", what() + ": the good connection got " + mc::esc(g->out, 200)); return false; }
        if (g->closes != 1) { mc::fail("not-closed", what() + ": the good connection was closed " + std::to_string(g->closes) + " times"); return false; }
    }
    if (w.badClose) { mc::fail("bad-close", what() + ": " + w.badWhat); return false; }
    return true;
}

template <typename F> static void seqs(std::vector<std::string> const& toks, std::size_t depth, std::string s, F&& f) {
    if (depth == 0) { f(s); return; }
    for (auto& t : toks) seqs(toks, depth - 1, s + t, f);
}

void mc_main() {
    bool th = mc::thorough();
    const std::string N("\0", 1);
    std::vector<std::string> raw = {"GET ", "POST ", "/ ", "/save ", "/q?a=b&=c&d ", "HTTP/1.1", "HTTP/1.0\r\n", "\r\n", "\n", "\r", ":", " ", "Content-Length: ", "Transfer-Encoding: chunked\r\n", "Connection: close\r\n", "5", "-1", "99999999999999999999", "0\r\n\r\n", N, "\xff", "GET / HTTP/1.1\r\n\r\n"};
    std::vector<std::string> hdr = {"Host: h\r\n", "Content-Length: 3\r\n", "Content-Length: 0\r\n", "Content-Length: -3\r\n", "Content-Length: \r\n", "Content-Length: 3x\r\n", "Content-Length: 18446744073709551615\r\n", "content-length:99999999999999999999999\r\n", "Transfer-Encoding: chunked\r\n", "transfer-encoding: gzip, chunked\r\n", "Transfer-Encoding: x\r\n", "Connection: close\r\n", "Connection: ,,keep-alive\r\n", " folded\r\n", ": v\r\n", "novalue\r\n", "K:\r\n", N + ": " + N + "\r\n", "\r\n", "abc", "0\r\n\r\n", "3\r\nabc\r\n", "Range: bytes=1-2\r\n", "Range: bytes=\r\n", "Expect: 100-continue\r\n"};
    std::vector<std::string> chk = {"0\r\n", "\r\n", "5\r\n", "abcde", "abcde\r\n", "00000000000000000005\r\nabcde\r\n", "ffffffffffffffff\r\n", "7fffffffffffffff\r\n", "10000000000000000\r\n", "-1\r\n", "+1\r\na\r\n", "0x1\r\na\r\n", ";ext=1\r\n", "5;x\r\nabcde\r\n", " 5\r\nabcde\r\n", "\n", "\r", N, "T: 1\r\n", "GET / HTTP/1.1\r\n\r\n"};
    std::size_t d = th ? 4 : 3;
    for (auto& t : raw) mc::run_case("raw/" + mc::esc(t, 20), [&] { seqs(raw, d - 1, t, [&](std::string const& s) { mc::arm(); deliver(s, "raw", th); }); if (&t == &raw[0]) for (std::size_t k = 0; k < 3 && k < d; ++k) seqs(raw, k, "", [&](std::string const& s) { if (!s.empty()) deliver(s, "raw", th); }); mc::state(runs); runs = 0; });
    std::vector<std::string> eps = {"/", "/save", "/ign", "/rg", "/nothere"};
    for (auto& ep : eps) for (auto& t : hdr) mc::run_case("head" + ep + "/" + mc::esc(t, 30), [&] {
        seqs(hdr, d - 1 - (ep == "/" ? 0u : th ? 1u : 1u), "POST " + ep + " HTTP/1.1\r\n" + t, [&](std::string const& s) { mc::arm(); deliver(s, "head", th); deliver(s + "\r\n", "head", th); deliver(s + "\r\nGET /q?x HTTP/1.1\r\n\r\n", "head", th); });
        mc::state(runs); runs = 0;
    });
    for (std::string ep : {"/", "/save", "/ign"}) for (auto& t : chk) mc::run_case("chunk" + ep + "/" + mc::esc(t, 24), [&] {
        seqs(chk, d - 1, "POST " + ep + " HTTP/1.1\r\nTransfer-Encoding: chunked\r\n\r\n" + t, [&](std::string const& s) { mc::arm(); deliver(s, "chunked", th); });
        mc::state(runs); runs = 0;
    });
    // targets
    std::vector<std::string> seg = {"/", "//", "a", "?", "&", "=", "%", "%41", "..", "*", "**", "{", "}", "#", N, "\xff", "p/", "w/", "m/", "q"};
    for (std::string pre : {"", "/p/", "/w/", "/m/x/", "/q?"}) for (auto& t : seg) mc::run_case("target" + pre + "/" + mc::esc(t), [&] {
        seqs(seg, d - 1, pre + t, [&](std::string const& s) { mc::arm(); for (auto m : {"GET ", "HEAD ", "BREW "}) once({m + s + " HTTP/1.1\r\nHost: h\r\n\r\n"}, FIN, "target", true); once({"GET " + s + " HTTP/1.1\r\nConnection: close\r\n\r\n"}, IDLE, "target"); });
        mc::state(runs); runs = 0;
    });
    // ranges
    std::vector<std::string> rt = {"0", "1", "36", "37", "99999999999999999999", "18446744073709551615", "-", ",", "=", "bytes=", "x", " ", "--", N, "9223372036854775808"};
    for (auto& t : rt) mc::run_case("range/" + mc::esc(t), [&] {
        for (std::string pre : {"", "bytes="}) seqs(rt, d - 1 + (pre.size() ? 0 : 0), pre + t, [&](std::string const& s) { mc::arm(); once({"GET /rg HTTP/1.1\r\nRange: " + s + "\r\n\r\n"}, FIN, "range"); once({"GET /rg HTTP/1.1\r\nConnection: close\r\nRange: " + s + "\r\n\r\n"}, GONE, "range"); });
        mc::state(runs); runs = 0;
    });
    // well-formed requests: every truncation, every one-byte edit
    std::vector<std::pair<std::string, std::string>> good = {
        {"get", "GET /q?a=1&b=2 HTTP/1.1\r\nHost: h\r\n\r\n"}, {"post", "POST / HTTP/1.1\r\nHost: h\r\nContent-Length: 5\r\n\r\nhello"}, {"chunked", "POST / HTTP/1.1\r\nTransfer-Encoding: chunked\r\n\r\n5\r\nhello\r\n3;e=1\r\nabc\r\n0\r\nT: 1\r\n\r\n"},
        {"save", "PUT /save HTTP/1.1\r\nTransfer-Encoding: chunked\r\n\r\na\r\n0123456789\r\n0\r\n\r\n"}, {"savelen", "PUT /save HTTP/1.1\r\nContent-Length: 10\r\n\r\n0123456789"}, {"range", "GET /rg HTTP/1.1\r\nRange: bytes=1-5,7-,-3\r\n\r\n"}, {"file", "GET /cf HTTP/1.1\r\nConnection: keep-alive\r\n\r\n"},
        {"param", "GET /p/1/2?x=%20 HTTP/1.1\r\n\r\n"}, {"mixed", "GET /m/a/b/c HTTP/1.1\r\nA: b\r\n\r\n"}, {"ignore", "POST /ign HTTP/1.1\r\nContent-Length: 4\r\n\r\nbody"}, {"sse", "GET /sse HTTP/1.1\r\nAccept: text/event-stream\r\n\r\n"}, {"throw", "GET /throw HTTP/1.1\r\n\r\n"}, {"old", "GET / HTTP/1.0\r\nConnection: Keep-Alive\r\n\r\n"}};
    const char repl[] = {0, '\r', '\n', ' ', ':', '9', '-', (char)0xff, '%', ';', 'f', '/', ',', '\t'};
    for (auto& [nm, g] : good) for (int b = 0; b < 4; ++b) mc::run_case("edit/" + nm + "/" + std::to_string(b), [&, g = g, nm = nm] {
        std::string nxt = "GET /ign HTTP/1.1\r\n\r\n";
        for (std::size_t i = (std::size_t)b; i < g.size(); i += 4) {
            mc::arm();
            deliver(g.substr(0, i), nm + " truncated", true); deliver(g.substr(0, i) + g.substr(i + 1) + nxt, nm + " minus one byte", th); deliver(g.substr(0, i) + g[i] + g.substr(i) + nxt, nm + " with a doubled byte", th);
            for (char r : repl) if (r != g[i]) { std::string m = g; m[i] = r; deliver(m + nxt, nm + " with a changed byte", th); m = g; m.insert(i, 1, r); deliver(m + nxt, nm + " with an inserted byte", th);
                if (th) for (std::size_t j = i + 1; j < g.size(); ++j) for (char r2 : {'\r', '\n', '9'}) { std::string k = m; k[j] = r2; once({k}, FIN, nm + " with two changes"); } }
            for (std::size_t j = i + 1; j < g.size(); ++j) { once({g.substr(0, i) + g.substr(j)}, FIN, nm + " with a part cut out"); once({g.substr(0, i), g.substr(i, j - i), g.substr(j)}, RESET, nm + " then reset"); }
        }
        mc::state(runs); runs = 0;
    });
    // oversized elements
    for (std::size_t n : {1000ul, 16300ul, 16383ul, 16384ul, 16385ul, 20000ul, 70000ul}) mc::run_case("big/" + std::to_string(n), [&] {
        std::string x(n, 'x'), sl; for (std::size_t i = 0; i < n / 2; ++i) sl += "/a"; std::string crlf; for (std::size_t i = 0; i < n / 2; ++i) crlf += "\r\n"; std::string hd; for (std::size_t i = 0; i < n / 8; ++i) hd += "K" + std::to_string(i) + ": v\r\n"; std::string sp(n, ' '), zero(n, '0'), amp(n, '&');
        for (auto& s : std::vector<std::string>{x, crlf, sp, "GET " + x, "GET /" + x + " HTTP/1.1\r\n\r\n", "GET " + sl + " HTTP/1.1\r\n\r\n", "GET / HTTP/1.1\r\n" + hd + "\r\n", "GET / HTTP/1.1\r\nA: " + x + "\r\n\r\n", "GET / HTTP/1.1\r\nA: " + x, "GET / HTTP/1.1\r\n" + x + ": a\r\n\r\n", "GET / HTTP/1.1\r\n" + x, "GET / HTTP/1.1\r\nA:" + sp + "\r\n\r\n",
            "POST / HTTP/1.1\r\nTransfer-Encoding: chunked\r\n\r\n" + zero, "POST / HTTP/1.1\r\nTransfer-Encoding: chunked\r\n\r\n" + zero + "1\r\na\r\n" + zero + "\r\n\r\n", "POST / HTTP/1.1\r\nTransfer-Encoding: chunked\r\n\r\n1;" + x + "\r\na\r\n0\r\n\r\n", "POST /save HTTP/1.1\r\nTransfer-Encoding: chunked\r\n\r\n1\r\na\r\n0\r\n" + hd + "\r\n", "POST / HTTP/1.1\r\nTransfer-Encoding: chunked\r\n\r\n0\r\n" + x, "POST /ign HTTP/1.1\r\nContent-Length: " + zero + "1\r\n\r\na", "GET /q?" + amp + " HTTP/1.1\r\n\r\n",
            "POST / HTTP/1.1\r\nContent-Length: " + std::to_string(n) + "\r\n\r\n" + x, "POST /save HTTP/1.1\r\nContent-Length: " + std::to_string(n) + "\r\n\r\n" + x, "POST /ign HTTP/1.1\r\nContent-Length: " + std::to_string(2 * n) + "\r\n\r\n" + x, "GET /rg HTTP/1.1\r\nRange: bytes=" + std::string(n, ',') + "\r\n\r\n"})
        { mc::arm(); for (int e = 0; e < 4; ++e) once({s}, (End)e, "big"); once({s.substr(0, s.size() / 2), s.substr(s.size() / 2)}, FIN, "big"); if (n < 17000) once(split1(s), IDLE, "big"); if (th) for (std::size_t k = 16384 - 40; k < 16384 + 40 && k < s.size(); ++k) once({s.substr(0, k), s.substr(k)}, FIN, "big"); }
        mc::state(runs); runs = 0;
    });
    // other connections keep being served
    for (auto& t : raw) mc::run_case("beside/" + mc::esc(t, 20), [&] {
        for (auto& u : raw) for (int o = 0; o < 2; ++o) for (int e = 0; e < 4; ++e) { mc::arm(); if (!beside({t + u}, o, (End)e, "raw")) return; }
        for (auto& [nm, g] : good) for (int e = 0; e < 4; ++e) if (!beside({t + g, g}, 2, (End)e, "two bad")) return;
        mc::state(runs); runs = 0;
    });
    for (auto& [nm, g] : good) mc::run_case("beside-cut/" + nm, [&, g = g] {
        for (std::size_t i = 1; i <= g.size(); ++i) for (int e = 0; e < 4; ++e) { mc::arm(); if (!beside({g.substr(0, i), g.substr(0, i), g}, 2, (End)e, "truncated")) return; }
        for (int o = 0; o < 3; ++o) for (int e = 0; e < 4; ++e) if (!beside({g, g}, o, (End)e, "slow reader", true)) return;
        mc::state(runs); runs = 0;
    });
    // failing accepts: every pair of errors, in front of, between and behind
    int errs[] = {ECONNABORTED, EINTR, EAGAIN, EMFILE, ENFILE, ENOBUFS, ENOMEM, EPROTO, EPERM, ETIMEDOUT, EHOSTUNREACH, ENETDOWN};
    for (int e1 : errs) mc::run_case("accept/" + std::to_string(e1), [&] {
        for (int e2 : errs) for (int at = 0; at < 3; ++at) for (int rep : {1, 3}) {
            ++runs; mc::transition(); mc::arm();
            sim::reset(nullptr); auto& w = sim::W(); w.maxEvents = 20000; int k = 0, left = rep * 2;
            w.fault = [&, k = 0](sim::Op const& o) mutable { if (o.opc != IORING_OP_ACCEPT) return 0; if (k >= at && left > 0) { --left; return left % 2 ? -e1 : -e2; } ++k; return 0; };
            for (int i = 0; i < 3; ++i) w.incoming.push_back([](sim::Conn& c) { c.data("GET /ign HTTP/1.1\r\nConnection: close\r\n\r\n"); });
            std::string what = "accept fails with " + std::string(std::strerror(e1)) + " and " + std::strerror(e2) + " " + std::to_string(rep) + " times from connection " + std::to_string(at); (void)k;
            std::atomic_bool run{true}; EventLoop loop; AddressResolver ar; auto entry = ar.resolve("127.0.0.1", "8080"); Acceptor<HttpIO> ac{*router(), loop, entry}; auto t = ac.template start<Timeout30>(run);
            try { loop.start(t); loop.run(); mc::fail("acceptor-ended", what + ": the server stopped accepting"); return; } catch (sim::Quiet&) { } catch (sim::Runaway&) { mc::fail("livelock", what + ": the server loops without end"); return; } catch (std::exception const& x) { mc::fail("acceptor-died", what + ": " + x.what()); return; }
            int n = 0; for (auto& c : w.all) if (!c->listener) { ++n; Rsp r; std::string why; std::size_t p = 0; if (readRsp(c->out, p, false, r, why) != OK || r.body != "ignored" || c->closes != 1) { mc::fail("not-served", what + ": connection " + std::to_string(n) + " got " + mc::esc(c->out, 100)); return; } }
            if (n != 3) { mc::fail("not-accepted", what + ": " + std::to_string(n) + " of 3 connections were accepted"); return; }
        }
        mc::state(runs); runs = 0;
    });
}
