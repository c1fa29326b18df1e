// P23: the WebSocket handshake accepts exactly valid upgrades.
#include "ws_common.hpp"
using namespace vp;
static uint64_t runs;
enum V { VALID, INVALID, EITHER };
static std::vector<std::size_t> every(std::size_t n, std::size_t step) { std::vector<std::size_t> v; for (std::size_t i = step; i < n; i += step) v.push_back(i); return v; }
using H = std::vector<std::pair<std::string, std::string>>;
static std::string text(H const& h) { std::string s; for (auto& [k, v] : h) s += k + ": " + v + "\r\n"; return s + "\r\n"; }
static bool tokenIn(std::string const& list, std::string const& t) { std::stringstream ss(list); std::string x; while (std::getline(ss, x, ',')) { while (!x.empty() && (x[0] == ' ' || x[0] == '\t')) x.erase(0, 1); while (!x.empty() && (x.back() == ' ' || x.back() == '\t')) x.pop_back(); if (ieq(x, t)) return true; } return false; }
static std::string val(H const& h, std::string const& k, bool& has) { has = false; for (auto& [a, b] : h) if (ieq(a, k)) { has = true; return b; } return ""; }
static bool b64(std::string const& k) { if (k.size() != 24 || k.substr(22) != "==") return false; for (int i = 0; i < 22; ++i) if (!std::isalnum((unsigned char)k[(std::size_t)i]) && k[(std::size_t)i] != '+' && k[(std::size_t)i] != '/') return false; return true; }
static V judge(H const& h) {
    bool o, u, c, k, v; val(h, "origin", o); auto up = val(h, "upgrade", u), co = val(h, "connection", c), ke = val(h, "sec-websocket-key", k), ve = val(h, "sec-websocket-version", v);
    if (!u || !tokenIn(up, "websocket") || !c || !tokenIn(co, "upgrade") || !k || ke.empty() || !v || ve != "13") return INVALID;
    if (!o || !b64(ke)) return EITHER;
    return VALID;
}
// one handshake against the library's server, then a message each way
static bool server(H const& h, std::vector<std::size_t> cuts, bool glued, int before = 0, mc::Chooser* ch = nullptr) {
    ++runs; mc::transition(); mc::arm(); V v = judge(h); bool has; std::string key = val(h, "sec-websocket-key", has);
    std::string hs = "GET /ws HTTP/1.1\r\n" + text(h), fr = frame(1, "hi", true) + frame(9, "p", true), pre = before ? "GET /nothere HTTP/1.1\r\n\r\n" : "";
    auto what = [&] { return "server: " + std::string(before ? "another request, then " : "") + mc::esc(hs, 300) + (glued ? " with frames behind it" : "") + (cuts.empty() ? "" : " cut at " + cutstr(cuts)) + (ch ? " choices " + ch->str() : ""); };
    auto user = [&](auto& ws, End& e) -> Task<> { co_await ws.sendText("yo"); auto s = co_await ws.recvText(); e.got.push_back({1, s}); co_await ws.recvText(); };
    End e = asServer(ch, [&](sim::Conn& c) {
        if (glued) { c.cut(pre + hs + fr, cuts); c.pause(sim::sec).fin(); }
        else { c.cut(pre + hs, cuts); c.pause(sim::ms); c.data(fr); c.pause(sim::sec).fin(); } }, user, [&] { if (ch) sim::W().chRecv = sim::W().chSend = true; });
    auto bad = [&](std::string s) { mc::fail(v == INVALID ? "accepts" : "server", what() + ": " + s); return false; };
    if (!e.run.empty() || e.opens || e.bad) return bad(e.run + " connection not ended properly");
    std::string out = sim::W().all[0]->out; std::size_t p = 0; std::string why; Rsp r;
    if (before) { if (readRsp(out, p, false, r, why) != OK || r.status != 404) return bad("the request before is answered by " + mc::esc(out, 100)); }
    auto g = readRsp(out, p, false, r, why);
    bool sw = g == OK && r.status == 101;
    if (sw != e.up) return bad(std::string("the user is told ") + (e.up ? "yes" : "no") + ", the peer " + mc::esc(out, 100));
    if (v == INVALID && sw) return bad("accepted");
    if (!sw) { if (v == VALID) return bad("refused: " + mc::esc(out, 150) + " " + e.err); if (out.size() > p && g != OK && p == 0) return bad("answers " + mc::esc(out, 150)); if (g == OK && r.status < 400) return bad("answers " + show(r)); return true; }
    if (!tokenIn(r.get("connection"), "upgrade") || !ieq(r.get("upgrade"), "websocket") || r.count("sec-websocket-accept") != 1 || r.get("sec-websocket-accept") != acceptOf(key)) return bad("answers " + show(r) + ", the accept value is " + acceptOf(key));
    if (r.count("transfer-encoding") || r.count("sec-websocket-protocol") || r.count("sec-websocket-extensions")) return bad("answers " + show(r));
    Stream w = readFrames(out.substr(p), false);
    if (e.got != std::vector<Ev>{{1, "hi"}}) return bad("the frames behind the handshake are lost: " + showEv(e.got) + e.err);
    if (w.ev.size() < 2 || w.ev[0] != Ev{1, "yo"} || w.ev[1] != Ev{10, "p"}) return bad("sends " + showEv(w.ev));
    return true;
}
// the library's client against a scripted answer; fmt gets the right accept value
static std::set<std::string> keys;
static bool client(std::function<std::string(std::string)> fmt, V v, std::vector<std::size_t> cuts, bool glued, int end, std::function<std::string()> nm, mc::Chooser* ch = nullptr, std::string url = "ws://h:80/ws") {
    ++runs; mc::transition(); mc::arm(); sim::reset(ch); sim::W().maxEvents = 50000; if (ch) sim::W().chRecv = sim::W().chSend = true;
    Rq rq; std::string bad2, fr = frame(1, "hi", false) + frame(9, "p", false); int n = 0; bool up = false; std::string got, err;
    sim::W().onConnect = [&](sim::Conn& c, sockaddr const*) { if (n++) return -ECONNREFUSED; c.wait(aRequest()).call([&](sim::Conn& c) { std::string why; std::size_t p = 0; if (readRq(c.out, p, rq, why) != OK || p != c.out.size()) bad2 = "the request is " + mc::esc(c.out, 200) + why; std::string s = fmt(acceptOf(rq.get("sec-websocket-key")));
        if (glued) c.cut(s + fr, cuts); else { c.cut(s, cuts); c.pause(sim::ms); c.data(fr); } if (end == 0) c.pause(sim::sec).fin(); else if (end == 1) c.pause(sim::sec).reset(); }); return 0; };
    auto run = withClient([&](Cli& cli) -> Task<> {
        auto f = [&](WsC ws) -> Task<> { up = true; got = co_await ws.recvText(); co_await ws.sendText("yo"); co_await ws.recvText(); };
        auto t = co_await cli.coWsLoop(url, f); if (!t.isVal()) try { t.rethrow(); } catch (std::exception& x) { err = x.what(); } });
    auto what = [&] { return "client: " + nm() + (glued ? " with frames behind it" : "") + (cuts.empty() ? "" : " cut at " + cutstr(cuts)) + (ch ? " choices " + ch->str() : ""); };
    auto bad = [&](std::string s) { mc::fail(v == INVALID ? "accepts" : "client", what() + ": " + s); return false; };
    if (!run.empty()) return bad(run); if (!bad2.empty()) return bad(bad2);
    for (auto& c : sim::W().all) if (c->open) return bad("the connection stays open"); if (sim::W().badClose) return bad(sim::W().badWhat);
    H h = rq.h; bool has; auto key = rq.get("sec-websocket-key");
    if (rq.method != "GET" || judge(h) != VALID) return bad("the request is not a valid upgrade: " + rq.method + " " + mc::esc(text(h), 300));
    val(h, "host", has); if (!has) return bad("the request has no Host header");
    for (auto k : {"host", "origin", "upgrade", "connection", "sec-websocket-key", "sec-websocket-version"}) if (rq.count(k) != 1) return bad(std::string(k) + " is repeated");
    if (!keys.insert(key).second) return bad("the key is used again: " + key);
    if (v == VALID && (!up || got != "hi")) return bad("not accepted: '" + err + "' got '" + got + "'");
    if (v == INVALID && up) return bad("accepted");
    if (v == INVALID && err.empty()) return bad("no error");
    if (v == VALID) { auto& out = sim::W().all[0]->out; Stream w = readFrames(out.substr(out.find("\r\n\r\n") + 4), true); if (w.ev.size() < 2 || w.ev[0] != Ev{1, "yo"} || w.ev[1] != Ev{10, "p"}) return bad("sends " + showEv(w.ev)); }
    return true;
}

void mc_main() {
    bool th = mc::thorough(); auto done = [] { mc::state(runs); runs = 0; };
    H const ok = {{"Host", "h"}, {"Origin", "http://h"}, {"Connection", "Upgrade"}, {"Upgrade", "websocket"}, {"Sec-WebSocket-Key", wsKey()}, {"Sec-WebSocket-Version", "13"}};
    auto with = [&](std::string k, std::string v) { H h = ok; for (auto& [a, b] : h) if (ieq(a, k)) b = v; return h; };
    mc::run_case("server/subsets", [&] {
        for (int m = 0; m < 64; ++m) for (int g = 0; g < 2; ++g) for (int b = 0; b < 2; ++b) { H h; for (int i = 0; i < 6; ++i) if (m >> i & 1) h.push_back(ok[(std::size_t)i]); if (!server(h, {}, g, b)) return; H r(h.rbegin(), h.rend()); if (!server(r, {}, g, b)) return; }
        done(); mc::outcome("subsets");
    });
    std::string b64a = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/";
    for (int pos = 0; pos < 22; ++pos) mc::run_case("server/keys/" + std::to_string(pos), [&] {
        for (char c : b64a) { if (pos == 21 && (b64a.find(c) & 15)) continue; auto k = wsKey(); k[(std::size_t)pos] = c; if (!server(with("sec-websocket-key", k), {}, pos & 1)) return; }
        done(); mc::outcome("key" + std::to_string(pos));
    });
    mc::run_case("server/values", [&] {
        for (auto v : {"Upgrade", "upgrade", "UPGRADE", "keep-alive, Upgrade", "Upgrade, keep-alive", "keep-alive,upgrade", "keep-alive ,  Upgrade ", "keep-alive", "close", "", "Upgraded", "xUpgrade", "Not-Upgrade", "Upgrade-Insecure", "keep-alive Upgrade", "Up grade"}) for (int g = 0; g < 2; ++g) if (!server(with("connection", v), {}, g)) return;
        for (auto v : {"websocket", "WebSocket", "WEBSOCKET", "websocket ", "h2c", "", "websockets", "web socket", "xwebsocket", "h2c, websocket", "h2c"}) for (int g = 0; g < 2; ++g) if (!server(with("upgrade", v), {}, g)) return;
        for (auto v : {"13", "12", "14", "1", "3", "130", "13x", "", "8", "abc", "-13", "0"}) for (int g = 0; g < 2; ++g) if (!server(with("sec-websocket-version", v), {}, g)) return;
        for (auto v : {"", "x", "dGhlIHNhbXBsZSBub25jZQ=", "dGhlIHNhbXBsZSBub25jZQ", "dGhlIHNhbXBsZSBub25jZQ==x", "%%%%%%%%%%%%%%%%%%%%%%=="}) if (!server(with("sec-websocket-key", v), {}, false)) return;
        for (auto v : {"null", "http://evil", "https://h:81", "x"}) if (!server(with("origin", v), {}, false)) return;
        for (int m = 0; m < 64; ++m) { H h = ok; for (int i = 0; i < 6; ++i) if (m >> i & 1) for (auto& c : h[(std::size_t)i].first) c = (char)((c >= 'a' && c <= 'z') ? c - 32 : (c >= 'A' && c <= 'Z') ? c + 32 : c); if (!server(h, {}, m & 1)) return; }
        H more = ok; more.push_back({"Sec-WebSocket-Extensions", "permessage-deflate; client_max_window_bits"}); more.push_back({"Sec-WebSocket-Protocol", "chat"}); more.push_back({"Cookie", "a=b"}); server(more, {}, true);
        done(); mc::outcome("values");
    });
    std::string hs = "GET /ws HTTP/1.1\r\n" + text(ok);
    for (std::size_t part = 0; part < 8; ++part) mc::run_case("server/cuts/" + std::to_string(part), [&] {
        std::size_t n = hs.size() + 15;
        for (std::size_t i = 1 + part; i < n; i += 8) for (int g = 0; g < 2; ++g) { if (!server(ok, {i}, g)) return; for (std::size_t j = i + 1; j < n; j += th ? 1 : 3) if (!server(ok, {i, j}, g)) return; }
        if (!part) { server(ok, every(n, 1), true); server(ok, every(n, 1), false); }
        done();
    });
    mc::run_case("server/short", [&] { for (int g = 0; g < 2; ++g) mc::sub_explore("short", th ? 3 : 2, [&](mc::Chooser& c) { server(ok, {}, g, 0, &c); }, 100000); done(); });
    // the client
    std::string L = "HTTP/1.1 101 Switching Protocols\r\n";
    auto answer = [&](H h, std::string line) { return [=](std::string a) { std::string s = line; for (auto& [k, v] : h) { std::string x = v; if (auto p = x.find("$"); p != x.npos) x.replace(p, 1, a); s += k + ": " + x + "\r\n"; } return s + "\r\n"; }; };
    H const yes = {{"Upgrade", "websocket"}, {"Connection", "Upgrade"}, {"Sec-WebSocket-Accept", "$"}};
    auto ywith = [&](std::string k, std::string v) { H h = yes; for (auto& [a, b] : h) if (ieq(a, k)) b = v; return h; };
    auto one = [&](H h, std::string line, V v) { auto f = answer(h, line); for (int g = 0; g < 2; ++g) for (int e = 0; e < 2; ++e) if (!client(f, v, {}, g, e, [&] { return "answer " + mc::esc(f("<accept>"), 200); })) return false; return true; };
    mc::run_case("client/values", [&] {
        for (int m = 0; m < 8; ++m) { H h; for (int i = 0; i < 3; ++i) if (m >> i & 1) h.push_back(yes[(std::size_t)i]); if (!one(h, L, m == 7 ? VALID : INVALID)) return; H r(h.rbegin(), h.rend()); if (!one(r, L, m == 7 ? VALID : INVALID)) return; }
        for (auto& [l, v] : std::vector<std::pair<std::string, V>>{{"HTTP/1.1 101 \r\n", VALID}, {"HTTP/1.1 101 Web Socket Protocol Handshake\r\n", VALID}, {"HTTP/1.1 200 OK\r\n", INVALID}, {"HTTP/1.1 400 Bad Request\r\n", INVALID}, {"HTTP/1.1 1010 X\r\n", INVALID}, {"HTTP/1.1 10 X\r\n", INVALID}, {"HTTP/1.1 301 101\r\n", INVALID}, {"HTTP/1.1 403 101 Switching Protocols\r\n", INVALID}, {"HTTP/1.1 500 X\r\n", INVALID}, {"HTTP/1.1 111 X\r\n", INVALID}, {"101\r\n", INVALID}}) if (!one(yes, l, v)) return;
        for (auto& [x, v] : std::vector<std::pair<std::string, V>>{{"upgrade", VALID}, {"UPGRADE", VALID}, {"keep-alive, Upgrade", VALID}, {"keep-alive,upgrade", VALID}, {"keep-alive", INVALID}, {"", INVALID}, {"Upgraded", INVALID}, {"no-Upgrade", INVALID}}) if (!one(ywith("connection", x), L, v)) return;
        for (auto& [x, v] : std::vector<std::pair<std::string, V>>{{"WebSocket", VALID}, {"WEBSOCKET", VALID}, {"h2c", INVALID}, {"", INVALID}, {"websocketx", INVALID}}) if (!one(ywith("upgrade", x), L, v)) return;
        for (auto x : {"", "x", "$x", "x$", "$$", "$=", "s3pPLMBiTxaQ9kYGzzhZRbK+xOo=", "  ", "=$"}) if (!one(ywith("sec-websocket-accept", x), L, INVALID)) return;
        if (!one(ywith("sec-websocket-accept", " \t$ "), L, VALID)) return;
        for (int m = 0; m < 8; ++m) { H h = yes; for (int i = 0; i < 3; ++i) if (m >> i & 1) h[(std::size_t)i].first = lower(h[(std::size_t)i].first); h.push_back({"Date", "x"}); if (!one(h, L, VALID)) return; }
        done(); mc::outcome("client");
    });
    // the accept value with every position changed, dropped, doubled or in other case
    mc::run_case("client/accept", [&] {
        for (std::size_t i = 0; i < 28; ++i) for (int op = 0; op < 6; ++op) {
            bool same = false; auto f = [&](std::string a) { std::string b = a; if (op == 0) b[i] = b[i] == 'A' ? 'B' : 'A'; else if (op == 1) b.erase(i, 1); else if (op == 2) b.insert(i, 1, b[i]); else if (op == 3) b[i] = (char)(std::isupper((unsigned char)b[i]) ? std::tolower(b[i]) : std::toupper(b[i])); else if (op == 4) std::swap(b[i], b[(i + 1) % 28]); else b = b.substr(0, i); same = b == a; return L + "Upgrade: websocket\r\nConnection: Upgrade\r\nSec-WebSocket-Accept: " + b + "\r\n\r\n"; };
            for (int e = 0; e < 2; ++e) { ++runs; if (!client(f, EITHER, {}, true, e, [&] { return "accept value altered at " + std::to_string(i) + " by " + std::to_string(op); })) return;
                // judged by whether the altered text is the right one
                sim::reset(nullptr); bool up = false; int n = 0; sim::W().onConnect = [&](sim::Conn& c, sockaddr const*) { if (n++) return -ECONNREFUSED; c.wait(aRequest()).call([&](sim::Conn& c) { Rq rq; std::string why; std::size_t p = 0; readRq(c.out, p, rq, why); c.data(f(acceptOf(rq.get("sec-websocket-key")))); c.fin(); }); return 0; };
                auto run = withClient([&](Cli& cli) -> Task<> { auto g = [&](WsC) -> Task<> { up = true; co_return; }; co_await cli.coWsLoop("ws://h/ws", g); });
                if (up != same) { mc::fail("accepts", "client: accept value altered at " + std::to_string(i) + " by " + std::to_string(op) + (up ? ": accepted" : ": refused though it is right")); return; } }
        }
        done();
    });
    for (int part = 0; part < 4; ++part) mc::run_case("client/cuts/" + std::to_string(part), [&] {
        auto f = answer(yes, L); std::size_t n = f(acceptOf(wsKey())).size() + 7;
        for (std::size_t i = 1 + (std::size_t)part; i < n; i += 4) for (int g = 0; g < 2; ++g) { auto nm = [&] { return std::string("the right answer"); }; if (!client(f, VALID, {i}, g, 0, nm)) return; for (std::size_t j = i + 1; j < n; j += th ? 1 : 3) if (!client(f, VALID, {i, j}, g, 0, nm)) return; }
        // truncated
        for (std::size_t i = (std::size_t)part; i + 8 < n; i += 4) for (int e = 0; e < 3; ++e) { auto t = [&](std::string a) { return f(a).substr(0, i); }; auto nm = [&] { return "the right answer truncated to " + std::to_string(i); };
            sim::reset(nullptr); bool up = false; std::string err; int k = 0; sim::W().onConnect = [&](sim::Conn& c, sockaddr const*) { if (k++) return -ECONNREFUSED; c.wait(aRequest()).call([&](sim::Conn& c) { Rq rq; std::string why; std::size_t p = 0; readRq(c.out, p, rq, why); c.data(t(acceptOf(rq.get("sec-websocket-key")))); if (e == 0) c.fin(); else if (e == 1) c.pause(1).reset(); }); return 0; };
            ++runs; auto run = withClient([&](Cli& cli) -> Task<> { auto g = [&](WsC) -> Task<> { up = true; co_return; }; auto r = co_await cli.coWsLoop("ws://h/ws", g); if (!r.isVal()) err = "x"; });
            if (up || !run.empty() || err.empty()) { mc::fail("client", nm() + ": " + (up ? "accepted" : run.empty() ? "no error" : run)); return; } }
        done();
    });
    mc::run_case("client/short", [&] { auto f = answer(yes, L); for (int g = 0; g < 2; ++g) mc::sub_explore("short", 2, [&](mc::Chooser& c) { client(f, VALID, {}, g, 0, [] { return std::string("the right answer"); }, &c); }, 100000); done(); });
    mc::run_case("client/urls", [&] {
        auto f = answer(yes, L); for (auto& [u, tgt, host] : std::vector<std::array<std::string, 3>>{{"ws://h:80/ws", "/ws", "h:80"}, {"ws://h", "/", "h"}, {"ws://h:8080/a/b?c=d&e", "/a/b?c=d&e", "h:8080"}, {"ws://127.0.0.1:99/", "/", "127.0.0.1:99"}, {"ws://a.b-c.d/x", "/x", "a.b-c.d"}}) {
            if (!client(f, VALID, {}, false, 0, [&] { return u; }, nullptr, u)) return; Rq r; std::string why; std::size_t p = 0; readRq(sim::W().all[0]->out, p, r, why);
            if (r.target != tgt || (r.get("host") != host && !(host == "h:80" && r.get("host") == "h"))) { mc::fail("client", u + ": asks for " + r.target + " of host " + r.get("host")); return; } }
        done();
    });
}
