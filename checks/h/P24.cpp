// P24: a proxy tunnel is asked for exactly as the protocol says and used only after the proxy has reported success.
#include "cli_common.hpp"
#include <HXLibs/net/protocol/proxy/Socks5Proxy.hpp>
#include <HXLibs/net/protocol/proxy/HttpProxy.hpp>
using namespace vp;
static uint64_t runs;
enum End { OPEN, FIN, GONE, RST };
static char const* en[] = {"silence", "a close", "a full close", "a reset"};
struct RR { Got1 g, g2; std::string run; long long took = 0; std::size_t conns = 0, opens = 0; int bad = 0; std::vector<std::string> sent, to; };
// One or two GETs through a proxy; peer scripts every connection.
template <class P> static RR go(std::string proxy, std::vector<std::string> urls, std::function<void(sim::Conn&)> peer, mc::Chooser* ch = nullptr, bool reconnect = true) {
    ++runs; mc::transition(); sim::reset(ch); auto& w = sim::W(); w.maxEvents = 100000; if (ch) w.chRecv = w.chSend = true;
    w.onConnect = [&](sim::Conn& c, sockaddr const*) { peer(c); return 0; };
    RR o;
    try {
        auto loop = std::make_shared<EventLoop>();
        HttpClient<P> cli{HttpClientOptions<P>{ProxyType<P>{proxy}}, loop}; cli.setAutoReconnect(reconnect);
        auto main = [&]() -> Task<> {
            { auto r = co_await cli.coGet(urls[0]); o.g = take(r); }
            o.took = sim::W().now - sim::kEpoch;
            if (urls.size() > 1) { auto r = co_await cli.coGet(urls[1]); o.g2 = take(r); }
            co_await cli.coClose();
        };
        auto r = loop->trySync(main());
        if (!r.isVal()) try { r.rethrow(); } catch (std::exception& e) { o.run = std::string("the client's coroutine ended with '") + e.what() + "'"; }
    } catch (sim::Quiet&) { o.run = "a call never returns"; } catch (sim::Runaway&) { o.run = "a call loops without end"; }
    for (auto& c : w.all) { ++o.conns; o.opens += c->open; o.sent.push_back(c->out); }
    o.to = w.resolvePlan; o.bad = w.badClose; return o;
}
static bool sane(RR const& o, std::function<std::string()> const& what) {
    if (!o.run.empty()) { mc::fail("hang", what() + ": " + o.run); return false; }
    if (o.opens) { mc::fail("leak", what() + ": the connection is left open"); return false; }
    if (o.bad) { mc::fail("bad-close", what() + ": " + sim::W().badWhat); return false; }
    if (o.took > 65 * sim::sec) { mc::fail("slow", what() + ": the call took " + std::to_string(o.took / sim::sec) + " s"); return false; }
    return true;
}
static std::string app(std::string const& tag) { return "HTTP/1.1 200 OK\r\nContent-Length: " + std::to_string(tag.size()) + "\r\n\r\n" + tag; }
// ---------------------------------------------------------------- SOCKS5 (RFC 1928, 1929)
struct S5 { std::string scheme = "socks5", user, pass, host = "h", url = "http://h/p"; bool auth = false; int port = 80;
    std::string proxy() const { return scheme + "://" + (auth ? user + (pass.empty() ? "" : ":" + pass) + "@" : "") + "px:1080"; }
    std::string greet() const { return auth ? "\5\1\2"s : "\5\1\0"s; }
    std::string cred() const { return auth ? "\1"s + (char)user.size() + user + (char)pass.size() + pass : ""; }
    std::string req() const { return "\5\1\0\3"s + (char)host.size() + host + (char)(port >> 8) + (char)port; } };
static std::string reply(int rep, int atyp, std::size_t dlen = 3) { std::string r = "\5"s + (char)rep + "\0"s + (char)atyp; if (atyp == 1) r += "\1\2\3\4"; else if (atyp == 4) r += std::string(16, 'v'); else if (atyp == 3) r += (char)dlen + std::string(dlen, 'd'); return r + "\x12\x34"; }
// the proxy's answers: method choice, authentication result, reply; each cut at every position in cuts (of the three joined)
struct Ans { std::string m, a, r; std::string all() const { return m + a + r; } };
// Plays the proxy: each answer only after the client's complete message; cuts within answers.
static void socks(sim::Conn& c, S5 const& s, Ans const& a, std::vector<std::size_t> const& cuts, std::size_t trunc, End e, std::function<void(sim::Conn&)> after) {
    std::size_t off = 0, need = 0; bool over = false;
    auto part = [&](std::string const& t, std::size_t n) {
        if (over) return; need += n; c.waitOut(need);
        std::size_t len = std::min(t.size(), trunc > off ? trunc - off : 0); std::vector<std::size_t> cs; for (auto x : cuts) if (x > off && x < off + len) cs.push_back(x - off);
        c.cut(t.substr(0, len), cs); off += t.size();
        if (trunc < off || (trunc == off && e != OPEN && trunc != std::string::npos)) { over = true; if (e == FIN) c.fin(); else if (e == GONE) c.gone(); else if (e == RST) c.reset(); }
    };
    part(a.m, 3); if (s.auth) part(a.a, s.cred().size()); part(a.r, s.req().size());
    if (!over) { c.call([need](sim::Conn& c) { c.seen = need; }); after(c); }
}
static void http(sim::Conn& c, std::string tag) { c.wait(aRequest()).data(app(tag)); }
static bool sentOk(std::string const& out, std::string const& pre, std::string const& target, std::string const& host, std::function<std::string()> const& what, std::size_t n = 1) {
    if (out.compare(0, pre.size(), pre)) { mc::fail("protocol", what() + ": the client sent " + mc::esc(out.substr(0, pre.size() + 20), 300) + ", the protocol asks for " + mc::esc(pre, 300)); return false; }
    std::size_t p = pre.size(); Rq r; std::string why;
    for (std::size_t i = 0; i < n; ++i) if (readRq(out, p, r, why) != OK || r.method != "GET" || r.target != target || r.get("host").substr(0, host.size()) != host) { mc::fail("request", what() + ": through the tunnel the client sent " + mc::esc(out.substr(pre.size()), 200) + " " + why); return false; }
    if (p != out.size()) { mc::fail("request", what() + ": extra bytes sent " + mc::esc(out.substr(p), 100)); return false; }
    return true;
}
static bool socksGood(S5 const& s, Ans const& a, std::vector<std::size_t> const& cuts, mc::Chooser* ch = nullptr) {
    auto what = [&] { return "SOCKS5 " + mc::esc(s.proxy(), 60) + " to " + mc::esc(s.url, 60) + " answers " + mc::esc(a.all(), 100) + " cut at " + cutstr(cuts) + (ch ? " choices " + ch->str() : ""); };
    RR o = go<Socks5Proxy>(s.proxy(), {s.url}, [&](sim::Conn& c) { socks(c, s, a, cuts, std::string::npos, OPEN, [](sim::Conn& c) { http(c, "tunnelled"); }); }, ch);
    if (!sane(o, what)) return false;
    if (!o.g.ok || o.g.body != "tunnelled") { mc::fail("refused", what() + ": the client returned " + show(o.g) + (o.sent.empty() ? "" : ", having sent " + mc::esc(o.sent[0], 200))); return false; }
    if (o.conns != 1) { mc::fail("again", what() + ": " + std::to_string(o.conns) + " connections"); return false; }
    if (o.to.empty() || o.to[0] != "px:1080") { mc::fail("where", what() + ": connected to " + (o.to.empty() ? "nothing" : o.to[0])); return false; }
    return sentOk(o.sent[0], s.greet() + s.cred() + s.req(), "/p", s.host, what);
}
// anything but success: an error, and nothing sent beyond the protocol's messages
static bool socksBad(S5 const& s, Ans const& a, std::vector<std::size_t> const& cuts, std::size_t trunc, End e, bool rc = true) {
    auto what = [&] { return "SOCKS5 " + mc::esc(s.proxy(), 60) + " answers " + mc::esc(a.all().substr(0, trunc), 100) + (trunc == std::string::npos ? "" : " then " + std::string(en[e])) + " cut at " + cutstr(cuts); };
    RR o = go<Socks5Proxy>(s.proxy(), {s.url}, [&](sim::Conn& c) { socks(c, s, a, cuts, trunc, e, [](sim::Conn& c) { c.wait([](sim::Conn& c) { return c.out.size() > c.seen; }).data(app("wrong")); }); }, nullptr, rc);
    if (!sane(o, what)) return false;
    if (o.g.ok) { mc::fail("used", what() + ": the client returned " + show(o.g)); return false; }
    std::string all = s.greet() + s.cred() + s.req();
    for (auto& t : o.sent) if (t.size() > all.size() || all.compare(0, t.size(), t)) { mc::fail("leaked", what() + ": the client sent " + mc::esc(t, 300)); return false; }
    return true;
}
// ---------------------------------------------------------------- HTTP CONNECT (RFC 9110 9.3.6)
struct HP { std::string cred, host = "h", url = "http://h/p"; int port = 80; std::string proxy() const { return "http://" + (cred.empty() ? "" : cred + "@") + "px:3128"; } };
static std::string b64(std::string const& s) { static char const* al = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/"; std::string o; std::size_t i = 0; for (; i < s.size(); i += 3) { unsigned v = 0; std::size_t n = std::min<std::size_t>(3, s.size() - i); for (std::size_t k = 0; k < 3; ++k) v = v << 8 | (k < n ? (unsigned char)s[i + k] : 0); for (std::size_t k = 0; k < 4; ++k) o += k <= n ? al[v >> (18 - 6 * k) & 63] : '='; } return o; }
static bool connectOk(Rq const& r, HP const& h, std::function<std::string()> const& what) {
    std::string t = h.host + ":" + std::to_string(h.port);
    if (r.method != "CONNECT" || r.target != t) { mc::fail("protocol", what() + ": the proxy is asked '" + r.method + " " + mc::esc(r.target, 100) + "', not for a tunnel to " + t); return false; }
    if (r.count("host") != 1 || (r.get("host") != t && r.get("host") != h.host)) { mc::fail("protocol", what() + ": Host is '" + r.get("host") + "'"); return false; }
    if (r.count("content-length") || r.count("transfer-encoding")) { mc::fail("protocol", what() + ": CONNECT with a body"); return false; }
    std::string au = r.get("proxy-authorization"), want = h.cred.empty() ? "" : "Basic " + b64(h.cred.find(':') == h.cred.npos ? h.cred + ":" : h.cred);
    if (r.count("proxy-authorization") != (h.cred.empty() ? 0 : 1) || au != want) { mc::fail("protocol", what() + ": Proxy-Authorization is '" + au + "', not '" + want + "'"); return false; }
    return true;
}
static bool tunnel(HP const& h, std::string const& ans, std::vector<std::size_t> const& cuts, bool ok, End e = OPEN, mc::Chooser* ch = nullptr) {
    auto what = [&] { return "HTTP proxy " + mc::esc(h.proxy(), 60) + " to " + mc::esc(h.url, 60) + " answers " + mc::esc(ans, 120) + (ok ? "" : std::string(" then ") + en[e]) + " cut at " + cutstr(cuts) + (ch ? " choices " + ch->str() : ""); };
    RR o = go<HttpProxy>(h.proxy(), {h.url}, [&](sim::Conn& c) { c.wait(aRequest()).cut(ans, cuts); if (e == FIN) c.fin(); else if (e == GONE) c.gone(); else if (e == RST) c.reset(); if (ok) http(c, "tunnelled"); else if (e == OPEN) c.wait([](sim::Conn& c) { return c.out.size() > c.seen; }).data(app("wrong")); }, ch);
    if (!sane(o, what)) return false;
    if (o.sent.empty()) { mc::fail("refused", what() + ": no connection, " + show(o.g)); return false; }
    if (o.to.empty() || o.to[0] != "px:3128") { mc::fail("where", what() + ": connected to " + (o.to.empty() ? "nothing" : o.to[0])); return false; }
    for (auto& t : o.sent) { std::size_t p = 0; Rq r; std::string why;
        if (readRq(t, p, r, why) != OK) { mc::fail("protocol", what() + ": the client sent " + mc::esc(t, 200) + " " + why); return false; }
        if (!connectOk(r, h, what)) return false;
        if (ok) { if (!sentOk(t, t.substr(0, p), "/p", h.host, what)) return false; }
        else if (p != t.size()) { mc::fail("leaked", what() + ": though refused, the client sent " + mc::esc(t.substr(p), 200)); return false; } }
    if (ok && (!o.g.ok || o.g.body != "tunnelled" || o.conns != 1)) { mc::fail("refused", what() + ": the client returned " + show(o.g)); return false; }
    if (!ok && o.g.ok) { mc::fail("used", what() + ": the client returned " + show(o.g)); return false; }
    return true;
}
static void done(std::string o) { mc::state(runs); runs = 0; mc::outcome(o); }

void mc_main() {
    bool th = mc::thorough();
    S5 plain, cred; cred.auth = true; cred.user = "hx"; cred.pass = "6:6@6";
    Ans pa{"\5\0"s, "", reply(0, 1)}, ca{"\5\2"s, "\1\0"s, reply(0, 1)};
    // targets
    std::vector<std::pair<std::string, std::pair<std::string, int>>> targets = {{"http://h/p", {"h", 80}}, {"http://h:80/p", {"h", 80}}, {"http://a.b-c.de:8080/p", {"a.b-c.de", 8080}}, {"http://10.0.0.1:1/p", {"10.0.0.1", 1}}, {"http://h:65535/p", {"h", 65535}}, {"http://h:256/p", {"h", 256}}, {"http://h:443/p", {"h", 443}}, {"ws://h/p", {"h", 80}}, {"https://h/p", {"h", 443}}, {"https://h:8443/p", {"h", 8443}}, {"http://u:p@h:81/p", {"h", 81}}};
    for (std::size_t n : {2ul, 63ul, 64ul, 127ul, 128ul, 200ul, 255ul}) { std::string l; while (l.size() < n) l += l.size() % 60 == 59 ? '.' : 'x'; if (l.back() == '.') l.back() = 'y'; targets.push_back({"http://" + l + "/p", {l, 80}}); }
    mc::run_case("socks/targets", [&] {
        for (auto& [u, hp] : targets) for (int au = 0; au < 2; ++au) { mc::arm(); S5 s = au ? cred : plain; s.url = u; s.host = hp.first; s.port = hp.second; if (!socksGood(s, au ? ca : pa, {})) return; }
        for (int p = 1; p < 65536; p += th ? 1 : p < 300 ? 1 : 251) { mc::arm(); S5 s = plain; s.port = p; s.url = "http://h:" + std::to_string(p) + "/p"; if (!socksGood(s, pa, {})) return; }
        done("socks targets");
    });
    mc::run_case("socks/credentials", [&] {
        for (std::size_t nu : {1ul, 2ul, 127ul, 128ul, 255ul}) for (std::size_t np : {1ul, 2ul, 127ul, 128ul, 255ul}) { mc::arm(); S5 s = cred; s.user = std::string(nu, 'u'); s.pass = std::string(np, 'w'); if (!socksGood(s, ca, {})) return; }
        for (int c = 1; c < 256; ++c) if (!std::strchr("/?#", c)) { mc::arm(); S5 s = cred; s.pass = std::string(1, (char)c) + "x"; if (!socksGood(s, ca, {})) return; if (c != ':' && c != '@') { s = cred; s.user = std::string("y") + (char)c; if (!socksGood(s, ca, {})) return; } }
        // too long for the protocol: refused without sending anything misleading
        for (int w = 0; w < 3; ++w) for (std::size_t n : {256ul, 257ul, 300ul, 512ul, 1000ul}) { mc::arm(); S5 s = cred; std::string l(n, 'z'); if (w == 0) s.user = l; else if (w == 1) s.pass = l; else { s.host = l; s.url = "http://" + l + "/p"; }
            auto what = [&] { return "SOCKS5 with " + std::string(w == 0 ? "a user name" : w == 1 ? "a password" : "a host name") + " of " + std::to_string(n) + " bytes"; };
            RR o = go<Socks5Proxy>(s.proxy(), {s.url}, [&](sim::Conn& c) { c.waitOut(3).data("\5\2"s).waitOut(4).pause(1).data("\1\0"s).pause(1).data(reply(0, 1)).pause(1).data(app("wrong")); });
            if (!sane(o, what)) return; if (o.g.ok) { mc::fail("used", what() + ": " + show(o.g)); return; }
            for (auto& t : o.sent) { std::string pre = w == 2 ? s.greet() + s.cred() : s.greet(); if (t.size() > pre.size() || pre.compare(0, t.size(), t)) { mc::fail("protocol", what() + ": the client sent " + mc::esc(t, 100)); return; } } }
        done("socks credentials");
    });
    // every reply form, every cut and pair of cuts
    for (int au = 0; au < 2; ++au) mc::run_case("socks/cuts/" + std::to_string(au), [&] {
        S5 const& s = au ? cred : plain; std::vector<std::string> rs = {reply(0, 1), reply(0, 4)}; for (std::size_t d : {0ul, 1ul, 3ul, 20ul}) rs.push_back(reply(0, 3, d)); for (std::size_t d : {127ul, 128ul, 255ul}) rs.push_back(reply(0, 3, d));
        for (auto& r : rs) { Ans a = au ? ca : pa; a.r = r; std::size_t n = a.all().size(); if (!socksGood(s, a, {})) return;
            for (std::size_t i = 1; i < n; ++i) { mc::arm(); if (!socksGood(s, a, {i})) return; if (n < 50 || th) for (std::size_t j = i + 1; j < n; ++j) { if (!socksGood(s, a, {i, j})) return; if (th && n < 24) for (std::size_t k = j + 1; k < n; ++k) if (!socksGood(s, a, {i, j, k})) return; } }
            std::vector<std::size_t> all; for (std::size_t i = 1; i < n; ++i) all.push_back(i); if (!socksGood(s, a, all)) return; }
        done("socks cuts");
    });
    for (int au = 0; au < 2; ++au) mc::run_case("socks/short/" + std::to_string(au), [&] {
        for (int at : {1, 3, 4}) { Ans a = au ? ca : pa; a.r = reply(0, at); mc::sub_explore("short", th ? 3 : 2, [&](mc::Chooser& c) { mc::arm(); socksGood(au ? cred : plain, a, {}, &c); }, 100000); }
        done("socks short");
    });
    // every truncation of the answers, ended in every way
    for (int au = 0; au < 2; ++au) mc::run_case("socks/trunc/" + std::to_string(au), [&] {
        for (int at : {1, 3, 4}) { Ans a = au ? ca : pa; a.r = reply(0, at, 9); std::size_t n = a.all().size();
            for (std::size_t i = 0; i < n; ++i) for (End e : {OPEN, FIN, GONE, RST}) for (int by = 0; by < 2; ++by) for (bool rc : {true, false}) { mc::arm(); std::vector<std::size_t> cuts; if (by) for (std::size_t x = 1; x < i; ++x) cuts.push_back(x); if (!socksBad(au ? cred : plain, a, cuts, i, e, rc)) return; } }
        done("socks trunc");
    });
    // every value of every answer byte that must have a certain value
    for (int au = 0; au < 2; ++au) mc::run_case("socks/values/" + std::to_string(au), [&] {
        S5 const& s = au ? cred : plain; auto np = std::string::npos;
        for (int v = 0; v < 256; ++v) for (int tail = 0; tail < 2; ++tail) {
            mc::arm(); std::string x(1, (char)v); Ans g = au ? ca : pa, a;
            auto bad = [&](Ans const& a) { return socksBad(s, a, {}, np, OPEN) && (!tail || socksBad(s, a, {1, 3, 5}, np, OPEN)); };
            if (v != 5) { a = g; a.m[0] = (char)v; if (!bad(a)) return; }
            if (v != (au ? 2 : 0)) { a = g; a.m[1] = (char)v; if (!bad(a)) return; }
            if (au && v != 1) { a = g; a.a[0] = (char)v; if (!bad(a)) return; }
            if (au && v != 0) { a = g; a.a[1] = (char)v; if (!bad(a)) return; }
            if (v != 5) { a = g; a.r[0] = (char)v; if (!bad(a)) return; }
            if (v != 0) for (int at : {1, 3, 4}) { a = g; a.r = reply(v, at); if (!bad(a)) return; if (tail) { a.r = a.r.substr(0, 4); if (!bad(a)) return; } }
            if (v != 1 && v != 3 && v != 4) { a = g; a.r[3] = (char)v; if (!bad(a)) return; }
        }
        done("socks values");
    });
    // the bound address of a successful reply never matters
    mc::run_case("socks/bound", [&] {
        for (int v = 0; v < 256; ++v) { mc::arm(); for (int at : {1, 4}) for (std::size_t k = 4; k < reply(0, at).size(); ++k) { Ans a = pa; a.r = reply(0, at); a.r[k] = (char)v; if (!socksGood(plain, a, {})) return; } Ans a = pa; a.r = reply(0, 3, (std::size_t)v); if (!socksGood(plain, a, {}) || !socksGood(plain, a, {6})) return; }
        done("socks bound");
    });
    // several requests: one tunnel per origin, each asked for anew
    mc::run_case("socks/two", [&] {
        for (int au = 0; au < 2; ++au) for (int same = 0; same < 2; ++same) for (int second = 0; second < 3; ++second) { mc::arm();   // second: the tunnel is kept, closed by the target after the first answer, closed while the second request is under way
            S5 s1 = au ? cred : plain, s2 = s1; if (!same) { s2.host = "other"; s2.port = 99; s2.url = "http://other:99/p"; }
            auto what = [&] { return std::string("two requests through SOCKS5") + (au ? " with credentials" : "") + (same ? "" : " to different hosts") + (second == 0 ? "" : second == 1 ? ", tunnel closed in between" : ", tunnel closed during the second"); };
            int n = 0; RR o = go<Socks5Proxy>(s1.proxy(), {s1.url, s2.url}, [&](sim::Conn& c) {
                bool first = !n++; S5 const& s = first ? s1 : s2;
                socks(c, s, au ? ca : pa, {}, std::string::npos, OPEN, [&](sim::Conn& c) { http(c, first ? "one" : "two"); if (first) { if (second == 1) c.gone(); else if (second == 2) c.wait(aRequest()).gone(); else http(c, "two"); } }); });
            if (!sane(o, what)) return;
            if (!o.g.ok || o.g.body != "one" || !o.g2.ok || o.g2.body != "two") { mc::fail("two", what() + ": the client returned " + show(o.g) + " and " + show(o.g2)); return; }
            bool two = !same || second; if (o.conns != (two ? 2 : 1)) { mc::fail("two", what() + ": " + std::to_string(o.conns) + " connections"); return; }
            std::string pre2 = s2.greet() + s2.cred() + s2.req(); if (two && !sentOk(o.sent[1], pre2, "/p", s2.host, what)) return;
        }
        done("socks two");
    });
    // ---- HTTP proxy
    HP hp; std::vector<std::string> oks = {"HTTP/1.1 200 Connection established\r\n\r\n", "HTTP/1.0 200 OK\r\nProxy-Agent: x\r\n\r\n", "HTTP/1.1 200\r\nContent-Length: 5\r\nConnection: keep-alive\r\n\r\n"};
    mc::run_case("http/targets", [&] {
        for (auto& [u, t] : targets) for (auto c : {"", "hx:666", "a", "user:p:w@d", "\xc3\xa9:\xff"}) { mc::arm(); HP h{c, t.first, u, t.second}; if (!tunnel(h, oks[0], {}, true)) return; }
        done("http targets");
    });
    mc::run_case("http/cuts", [&] {
        for (auto& a : oks) { std::size_t n = a.size(); for (std::size_t i = 0; i < n; ++i) { mc::arm(); for (std::size_t j = i + 1; j < n; ++j) if (!tunnel(hp, a, {i, j}, true)) return; }
            std::vector<std::size_t> all; for (std::size_t i = 1; i < n; ++i) all.push_back(i); if (!tunnel(hp, a, all, true)) return;
            for (std::size_t i = 0; i < n; ++i) for (End e : {OPEN, FIN, GONE, RST}) { mc::arm(); if (!tunnel(hp, a.substr(0, i), {}, false, e)) return; if (i > 1 && !tunnel(hp, a.substr(0, i), {i / 2}, false, e)) return; } }
        done("http cuts");
    });
    mc::run_case("http/short", [&] { HP h = hp; h.cred = "a:b"; mc::sub_explore("short", th ? 3 : 2, [&](mc::Chooser& c) { mc::arm(); tunnel(h, oks[0], {}, true, OPEN, &c); }, 100000); done("http short"); });
    mc::run_case("http/refused", [&] {
        for (int st = 300; st < 600; ++st) for (auto t : {"\r\n", "Content-Length: 0\r\n\r\n", "Proxy-Authenticate: Basic realm=\"x\"\r\nContent-Length: 3\r\n\r\n200"}) { mc::arm(); if (!tunnel(hp, "HTTP/1.1 " + std::to_string(st) + " X\r\n" + t, {}, false)) return; }
        for (auto t : {"HTTP/1.1\r\n\r\n", "\r\n\r\n", "200 OK\r\n\r\n", "HTTP/1.1 2 OK\r\n\r\n", "HTTP/1.1 20 OK\r\n\r\n", "HTTP/1.1 abc OK\r\n\r\n", "HTTP/1.1 2000 OK\r\n\r\n", "HTTP/1.1  OK\r\n\r\n", "garbage\r\n\r\n", "SSH-2.0-x\r\n\r\n", "HTTP/1.1 407 200\r\n\r\n", "HTTP/1.1 -200 OK\r\n\r\n"}) for (End e : {OPEN, FIN, RST}) { mc::arm(); if (!tunnel(hp, t, {}, false, e)) return; }
        done("http refused");
    });
    mc::run_case("http/two", [&] {
        for (int same = 0; same < 2; ++same) for (int second = 0; second < 2; ++second) { mc::arm(); HP h1 = hp, h2 = hp; if (!same) { h2.host = "other"; h2.port = 99; h2.url = "http://other:99/p"; }
            auto what = [&] { return std::string("two requests through an HTTP proxy") + (same ? "" : " to different hosts") + (second ? ", tunnel closed in between" : ""); };
            int n = 0; RR o = go<HttpProxy>(h1.proxy(), {h1.url, h2.url}, [&](sim::Conn& c) { bool first = !n++; c.wait(aRequest()).data(oks[0]); http(c, first ? "one" : "two"); if (first) { if (second) c.gone(); else http(c, "two"); } });
            if (!sane(o, what)) return;
            if (!o.g.ok || o.g.body != "one" || !o.g2.ok || o.g2.body != "two") { mc::fail("two", what() + ": the client returned " + show(o.g) + " and " + show(o.g2)); return; }
            if (o.conns != (!same || second ? 2 : 1)) { mc::fail("two", what() + ": " + std::to_string(o.conns) + " connections"); return; }
            if (o.conns == 2) { std::size_t p = 0; Rq r; std::string why; if (readRq(o.sent[1], p, r, why) != OK || !connectOk(r, h2, what)) { mc::fail("two", what() + ": second tunnel asked for by " + mc::esc(o.sent[1], 200)); return; } }
        }
        done("http two");
    });
}
