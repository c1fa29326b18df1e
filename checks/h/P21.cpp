// P21: each call of the client returns the complete response to that very request or an error, whatever the server does to connections.
#include "cli_common.hpp"
using namespace vp;
static uint64_t runs;
// unsolicited bytes (STRAY, TWICE) arrive in the segment that ends the response: later ones cannot be told from the next answer
enum B { ANSWER, CLOSE_AFTER, SAY_CLOSE, SAY_STAY, UNTIL_CLOSE, STRAY, STRAY_MORE, TWICE, LATE, CHUNKED, INTERIM, CLOSE_BEFORE, RESET_BEFORE, CLOSE_HEAD, CLOSE_BODY, RESET_BODY, SILENT, SILENT_BODY, GARBAGE, TOO_LATE, nB };
static char const* bn[] = {"answer", "answer and close", "answer, Connection: close", "answer, Connection: close, but no closing", "answer until close", "answer and stray bytes", "answer and a stray byte, more later", "answer twice in one piece", "answer late", "answer chunked", "interim and answer", "close", "reset", "close in the head", "close in the body", "reset in the body", "silence", "silence in the body", "garbage", "answer after the timeout"};
static bool bad(B b) { return b >= CLOSE_BEFORE; }
enum O { G, H, P, X, U, R, CL, CO, QC, nO, OW = nO, OS, mO };   // R: path only; QC: the request says Connection: close
static char const* on[] = {"GET", "HEAD", "POST", "GET elsewhere", "upload", "GET path only", "close", "connect", "GET, Connection: close", "WebSocket", "event stream"};
enum CB { ACCEPT, REFUSE, NORESOLVE };
struct Plan { std::vector<O> ops; std::vector<B> bs; std::vector<int> refuse; bool reconnect = true; long long gap = 0; };
static std::string upf() { return scratch() + "/up"; }

static bool play(Plan const& pl, mc::Chooser* ch = nullptr) {
    ++runs; mc::transition(); sim::reset(ch); auto& w = sim::W(); w.maxEvents = 100000; if (ch) w.chRecv = w.chSend = true;
    struct Seen { std::string key; B b; int conn; }; std::vector<Seen> seen; std::string bad2;
    int attempts = 0, refused = 0; std::vector<char> stale(64, 0); std::vector<std::size_t> silent(64, 0); std::vector<int> portOf(64, 0);
    auto what = [&] { std::string s = "requests ["; for (auto o : pl.ops) s += std::string(on[o]) + "; "; s += "] server ["; for (auto b : pl.bs) s += std::string(bn[b]) + "; "; s += "]"; for (int r : pl.refuse) s += " connect " + std::to_string(r) + " refused"; if (!pl.reconnect) s += " no reconnecting"; if (pl.gap) s += " with pauses"; if (ch) s += " choices " + ch->str(); return s; };
    // what answers the k-th request the server gets
    std::function<void(sim::Conn&)> answer = [&](sim::Conn& c) {
        std::size_t i = seen.size(); B b = i < pl.bs.size() ? pl.bs[i] : ANSWER;
        std::size_t p = (std::size_t)c.wake; (void)p; std::size_t q = c.seen; Rq r; std::string why;
        if (readRq(c.out, q, r, why) != OK) { bad2 = "the server received " + mc::esc(c.out.substr(c.seen), 200) + " " + why; return; }
        c.seen = q;
        if (auto want = "h:" + std::to_string(portOf[(std::size_t)c.no]); r.get("host") != want) { bad2 = "the server at " + want + " received a request for '" + r.get("host") + "'"; return; }
        std::string body = "<" + r.method + " " + r.target + " " + std::to_string(portOf[(std::size_t)c.no]) + " " + r.body + ">";
        seen.push_back({body, b, c.no});
        bool hd = r.method == "HEAD"; std::string len = "X-For: " + r.target + "\r\nContent-Length: " + std::to_string(body.size()) + "\r\n";
        std::string h = "HTTP/1.1 200 OK\r\n" + len + "\r\n", full = h + (hd ? "" : body), st = "HTTP/1.1 200 OK\r\nContent-Length: 5\r\n\r\nstray";
        auto next = [&] { c.wait([](sim::Conn& c) { Rq r; std::string w; std::size_t p = c.seen; return readRq(c.out, p, r, w) != MORE; }).call(answer); };
        auto over = [&](bool rst = false) { stale[(std::size_t)c.no] = 1; if (rst) c.reset(); else c.gone(); };
        switch (b) {
        case ANSWER: c.data(full); next(); break;
        case CLOSE_AFTER: c.data(full); over(); break;
        case SAY_CLOSE: c.data("HTTP/1.1 200 OK\r\nConnection: close\r\n" + len + "\r\n" + (hd ? "" : body)); over(); break;
        case SAY_STAY: c.data("HTTP/1.1 200 OK\r\nConnection: close\r\n" + len + "\r\n" + (hd ? "" : body)); silent[(std::size_t)c.no] = c.out.size(); break;
        case UNTIL_CLOSE: c.data("HTTP/1.1 200 OK\r\nX-For: " + r.target + "\r\n\r\n" + (hd ? "" : body)); over(); break;
        case STRAY: c.data(full + st); next(); break;
        case STRAY_MORE: c.data(full + "x"); c.pause(sim::ms); c.data(st); next(); break;
        case TWICE: c.data(full + full); next(); break;
        case LATE: c.data(h.substr(0, 20)); c.pause(20 * sim::sec); c.data(h.substr(20) + (hd ? "" : body.substr(0, 3))); if (!hd) { c.pause(20 * sim::sec); c.data(body.substr(3)); } next(); break;
        case CHUNKED: c.data("HTTP/1.1 200 OK\r\nX-For: " + r.target + "\r\nTransfer-Encoding: chunked\r\n\r\n"); if (!hd) { c.data("3\r\n" + body.substr(0, 3) + "\r\n"); std::ostringstream o; o << std::hex << body.size() - 3; c.data(o.str() + "\r\n" + body.substr(3) + "\r\n0\r\n\r\n"); } next(); break;
        case INTERIM: c.data("HTTP/1.1 100 Continue\r\n\r\n"); c.data(full); next(); break;
        case CLOSE_BEFORE: over(); break;
        case RESET_BEFORE: over(true); break;
        case CLOSE_HEAD: c.data(h.substr(0, h.size() - 3)); over(); break;
        case CLOSE_BODY: c.data(hd ? h.substr(0, h.size() - 1) : h + body.substr(0, 4)); over(); break;
        case RESET_BODY: c.data(hd ? h.substr(0, h.size() - 1) : h + body.substr(0, 4)); c.pause(sim::ms); over(true); break;
        case SILENT: break;
        case SILENT_BODY: c.data(hd ? h.substr(0, h.size() - 1) : h + body.substr(0, 4)); break;
        case GARBAGE: c.data("not a response\r\n\r\n" + full); next(); break;
        case TOO_LATE: c.pause(31 * sim::sec); c.data(full); next(); break;
        default: break;
        }
    };
    w.onConnect = [&](sim::Conn& c, sockaddr const* a) {
        int k = attempts++; for (int r : pl.refuse) if (r == k) { ++refused; return -ECONNREFUSED; }
        portOf[(std::size_t)c.no] = ntohs(((sockaddr_in const*)a)->sin_port);
        c.wait([](sim::Conn& c) { Rq r; std::string w; std::size_t p = c.seen; return readRq(c.out, p, r, w) != MORE; }).call(answer); return 0; };
    auto openNow = [&] { int n = 0; for (auto& c : w.all) n += c->open; return n; };
    auto live = [&]() -> sim::Conn* { for (auto& c : w.all) if (c->open) return c.get(); return nullptr; };
    std::string run = withClient([&](Cli& cli) -> Task<> {
        auto ops = pl.ops; ops.push_back(G); ops.push_back(G);   // the last ones find a server that behaves
        for (std::size_t i = 0; i < ops.size() && bad2.empty(); ++i) {
            mc::arm(); bool last = i >= pl.ops.size();
            if (last && i == pl.ops.size()) { while (seen.size() < pl.bs.size()) seen.push_back({"", ANSWER, -1}); attempts = 1000; }
            std::size_t s0 = seen.size(); int r0 = refused; long long t0 = w.now; O o = ops[i];
            bool was = live(), st = was && (stale[(std::size_t)live()->no] || live()->eof || live()->err); 
            std::string path = "/r" + std::to_string(i), port = o == X ? "81" : "80", body = "b" + std::to_string(i), url = o == R ? path : "http://h:" + port + path, key; Got1 g; bool judged = true;
            if (o == QC) { HeaderHashMap hs; hs.insert({"Connection", "close"}); auto r = co_await cli.coGet(url, std::move(hs)); g = take(r); key = "<GET " + path + " 80 >"; }
            else if (o == H) { auto r = co_await cli.coRequest<HEAD>(url); g = take(r); key = "<HEAD " + path + " 80 >"; }
            else if (o == P) { auto r = co_await cli.coPost(url, body, HttpContentType::Text); g = take(r); key = "<POST " + path + " 80 " + body + ">"; }
            else if (o == U) { auto r = co_await cli.coUploadChunked<POST>(url, upf()); g = take(r); key = "<POST " + path + " 80 " + get(upf()) + ">"; }
            else if (o == OW || o == OS) {   // this server never upgrades and has no event streams: always an error, and the connection is given up
                bool called = false, ok;
                if (o == OW) { auto r = co_await cli.coWsLoop("ws://h:80" + path, [&](WebSocketClient<HttpIO>) -> Task<> { called = true; co_return; }); ok = r.isVal(); }
                else { auto r = co_await cli.coSseLoop<GET>(url, [&](SseEvent) -> Task<> { called = true; co_return; }); ok = r.isVal(); }
                judged = false; std::size_t n = seen.size() - s0;
                if (ok || called) bad2 = "succeeds though the server offers no such thing";
                else if (n > 2 || (!pl.reconnect && n > 1)) bad2 = "the request was sent " + std::to_string(n) + " times";
                else if (openNow()) bad2 = "failed, but its connection stays open";
                else if (w.now - t0 > 125 * sim::sec) bad2 = "took " + std::to_string((w.now - t0) / sim::sec) + " s"; }
            else if (o == CL) { co_await cli.coClose(); judged = false; if (openNow()) bad2 = "coClose leaves a connection open"; }
            else if (o == CO) { auto r = co_await cli.coConnect(url); judged = false; bool ok = r.isVal(); if (ok != (refused == r0)) bad2 = ok ? "coConnect reports success on a refused connection" : "coConnect fails"; }
            else { auto r = co_await cli.coGet(url); g = take(r); int pt = o == X ? 81 : o == R && live() ? portOf[(std::size_t)live()->no] : 80; key = "<GET " + path + " " + std::to_string(pt) + " >"; }
            auto tag = [&] { return "call " + std::to_string(i) + " (" + on[o] + "): "; };
            if (bad2.size()) { bad2 = tag() + bad2; co_return; }
            if (openNow() > 1) { bad2 = tag() + "two connections are open at once"; co_return; }
            for (auto& c : w.all) if (auto n = silent[(std::size_t)c->no]; n && c->out.size() > n) { bad2 = tag() + "a request was sent on a connection whose answer said Connection: close"; co_return; }
            if (!judged) continue;
            if (o == R && g.ok) { key.clear(); for (auto p : {"80", "81"}) if (g.body == "<GET " + path + " " + p + " >") key = g.body; }
            int nbad = 0; for (std::size_t k = s0; k < seen.size(); ++k) { nbad += bad(seen[k].b); if (o != R && seen[k].key != key) { bad2 = tag() + "the server received " + mc::esc(seen[k].key) + " instead of " + mc::esc(key); co_return; } }
            if (seen.size() - s0 > 2) { bad2 = tag() + "the request was sent " + std::to_string(seen.size() - s0) + " times"; co_return; }
            if (!pl.reconnect && seen.size() - s0 > 1) { bad2 = tag() + "the request was sent again though reconnecting is off"; co_return; }
            if (g.ok) {
                if (seen.size() == s0) { bad2 = tag() + "returned " + show(g) + " though the server never saw the request"; co_return; }
                std::string want = o == H ? "" : key;
                if (g.status != 200 || g.body != want || g.h["x-for"] != path) { bad2 = tag() + "returned " + show(g) + " instead of the answer to " + mc::esc(key); co_return; }
                if (o == QC && openNow()) { bad2 = tag() + "the connection stays open though the request said Connection: close"; co_return; }
                if (bad(seen.back().b)) { bad2 = tag() + "returned " + show(g) + " though the server did: " + bn[seen.back().b]; co_return; }
            } else {
                bool excuse = refused > r0 || (pl.reconnect ? nbad >= 2 || (nbad == 1 && (st || o == R)) : nbad >= 1 || st) || (o == R && (!was || st));
                if (last && i == pl.ops.size() && !(pl.reconnect) && (st || was)) excuse = true;
                if (last && i > pl.ops.size()) excuse = false;
                if (!excuse) { bad2 = tag() + show(g) + " though the server could answer"; co_return; }
                if (openNow()) { bad2 = tag() + "failed, but its connection stays open"; co_return; }
            }
            if (w.now - t0 > 125 * sim::sec) { bad2 = tag() + "took " + std::to_string((w.now - t0) / sim::sec) + " s"; co_return; }
            if (pl.gap) { w.now += pl.gap; sim::pumpAll(); }
        }
    }, pl.reconnect);
    if (!run.empty()) { mc::fail("hang", what() + ": " + run); return false; }
    if (!bad2.empty()) { mc::fail("pairing", what() + ": " + bad2); return false; }
    if (openNow() || w.openReal) { mc::fail("leak", what() + ": a descriptor is left open"); return false; }
    if (w.badClose) { mc::fail("bad-close", what() + ": " + w.badWhat); return false; }
    mc::outcome(std::to_string(seen.size()) + "/" + std::to_string(w.all.size()));
    return true;
}

void mc_main() {
    bool th = mc::thorough(); put(upf(), abc(29));
    auto done = [] { mc::state(runs); runs = 0; };
    for (int a = 0; a < nO; ++a) for (int x = 0; x < nB; ++x) mc::run_case("two/" + std::string(on[a]) + "/" + bn[x], [&] {
        for (int b = 0; b < nO; ++b) for (int y = 0; y < nB; ++y) for (bool rc : {true, false}) for (long long gap : {0LL, 35 * sim::sec}) if (!play({{(O)a, (O)b}, {(B)x, (B)y}, {}, rc, gap})) return;
        done();
    });
    for (int a : {OW, OS}) for (int x = 0; x < nB; ++x) mc::run_case("gives up/" + std::string(on[a]) + "/" + bn[x], [&] {
        for (int y = 0; y < nB; ++y) for (bool rc : {true, false}) for (int b : {G, R, X, P, OW, OS}) { if (!play({{(O)a, (O)b}, {(B)x, (B)y}, {}, rc}) || !play({{G, (O)a, (O)b}, {ANSWER, (B)x, (B)y}, {}, rc}) || !play({{G, (O)a}, {(B)x, (B)y}, {}, rc})) return; }
        for (int m = 1; m < 16; ++m) for (bool rc : {true, false}) { std::vector<int> rf; for (int k = 0; k < 4; ++k) if (m >> k & 1) rf.push_back(k); if (!play({{(O)a, G, (O)a}, {(B)x}, rf, rc})) return; }
        done();
    });
    for (int a : {G, H, P, X}) for (int x = 0; x < nB; ++x) mc::run_case("three/" + std::string(on[a]) + "/" + bn[x], [&] {
        std::vector<int> os = th ? std::vector<int>{G, H, P, X, U, R, CL, CO} : std::vector<int>{G, X};
        for (int b : os) for (int c : os) for (int y = 0; y < nB; ++y) for (int z = 0; z < nB; ++z) { if (!th && b == X && c == X) continue; if (!play({{(O)a, (O)b, (O)c}, {(B)x, (B)y, (B)z}})) return; }
        done();
    });
    // refused connections
    for (int x = 0; x < nB; ++x) mc::run_case("refuse/" + std::string(bn[x]), [&] {
        for (int a : {G, P, X, CO}) for (int b = 0; b < nO; ++b) for (int y = 0; y < nB; ++y) for (int m = 1; m < 16; ++m) for (bool rc : {true, false}) { std::vector<int> rf; for (int k = 0; k < 4; ++k) if (m >> k & 1) rf.push_back(k); if (!th && (b == H || b == X || b == U || b >= CL)) continue; if (!play({{(O)a, (O)b, G}, {(B)x, (B)y}, rf, rc})) return; }
        done();
    });
    for (int a = 0; a < nO; ++a) mc::run_case("short/" + std::string(on[a]), [&] {
        for (int x = 0; x < nB; ++x) if (x != STRAY && x != STRAY_MORE && x != TWICE) for (int b : {G, P, U}) mc::sub_explore("short", th ? 2 : 1, [&](mc::Chooser& c) { mc::arm(); play({{(O)a, (O)b}, {(B)x}}, &c); }, 20000);
        done();
    });
}
