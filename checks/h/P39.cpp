// P39: requests submitted from any thread through a client or a pool of clients are each answered by their own response.
#include <ringa.hpp>
#include <cstdio>
inline int vp_silent(char const*, ...) { return 0; }
#define printf vp_silent
#include <HXLibs/log/Log.hpp>
#include <HXLibs/net/client/HttpClient.hpp>
#include <HXLibs/net/client/HttpClientPool.hpp>
#undef printf
#include <thread>

namespace vp {
using namespace HX; using namespace HX::net; using namespace HX::coroutine; using namespace HX::utils; using namespace HX::container;
using namespace std::string_literals;
constexpr int kPort = 8080;
using Fut = FutureResult<Try<ResponseData>>;
struct Shared {
    std::string nm; std::vector<std::pair<std::string, void*>> log;   // target and connection, in the order in which the server got them
    std::map<std::string, int> times; std::vector<ringa::SockP> held; std::size_t barrier = 0; std::vector<std::string> heldRes; int maxConns = 0;
};
void ok(bool b, char const* key, Shared& w, std::string const& m) { if (!b) sched::fail(key, w.nm + ": " + m); }
bool full(std::string const& in, std::size_t& n) {
    auto h = in.find("\r\n\r\n"); if (h == in.npos) return false; auto c = [&] { std::string l = in; for (auto& x : l) x = (char)std::tolower((unsigned char)x); return l.find("content-length:"); }(); n = h + 4 + (c != in.npos && c < h ? (std::size_t)std::atoi(in.c_str() + c + 15) : 0); return in.size() >= n;
}
// the server: answers at once; "/x" is cut always, "/y" the first time, "/z" ends the connection properly, "/B" waits until enough of them are there
void serve(Shared& w, ringa::SockP far) {
    auto reply = [](ringa::SockP f, std::string const& t, bool close) { auto n = f->peer.lock(); if (!n) return; sched::hbRelease(n.get()); n->in += t; if (close) ringa::shut(f); };
    std::size_t n; if (!far->open || !full(far->in, n)) return;
    std::string rq = far->in.substr(0, n); far->in.erase(0, n);
    if (!far->in.empty()) { sched::fail("overlap", w.nm + ": a second request is sent before the first one is answered"); }
    for (auto& h : w.held) if (h == far) sched::fail("overlap", w.nm + ": a second request is sent before the first one is answered");
    auto a = rq.find(' '), b = rq.find(' ', a + 1); std::string m = rq.substr(0, a), t = rq.substr(a + 1, b - a - 1), body = rq.substr(rq.find("\r\n\r\n") + 4);
    w.log.push_back({t, far.get()}); int k = w.times[t]++; int open = 0; for (auto& [f, s] : ringa::W().socks) open += !s->listener && bool(s->peer.lock()); w.maxConns = std::max(w.maxConns, open);
    char kind = t.size() > 1 ? t[1] : '/'; std::string out = m + " " + t + " " + body;
    std::string res = "HTTP/1.1 200 OK\r\n"s + (kind == 'z' ? "Connection: close\r\n" : "") + "Content-Length: " + std::to_string(out.size()) + "\r\n\r\n" + (m == "HEAD" ? "" : out);
    if (kind == 'x' || (kind == 'y' && !k)) { ringa::shut(far); return; }
    if (kind == 'w') res = "HTTP/1.1 404 Not Found\r\nContent-Length: 2\r\n\r\nno";
    if (kind == 'B') { w.held.push_back(far); w.heldRes.push_back(res); if (w.held.size() < w.barrier) return; auto hs = w.held; auto rs = w.heldRes; w.held.clear(); w.heldRes.clear(); for (std::size_t i = 0; i < hs.size(); ++i) reply(hs[i], rs[i], false); return; }
    reply(far, res, kind == 'z');
}
std::string url(std::string const& t) { return "http://127.0.0.1:" + std::to_string(kPort) + t; }
struct Open { std::string want; Fut f; };
// submits one request; the kind is the first letter of its target
template <class C> Open submit(C& c, char kind, std::string const& id, bool reconnect) {
    std::string t = "/"s + kind + id;
    switch (kind) {
        case 'p': return {"200 POST " + t + " body" + id, c.post(url(t), "body" + id, HttpContentType::Text)};
        case 'r': return {"200 PUT " + t + " text" + id, c.template request<PUT>(url(t), {}, "text" + id, HttpContentType::Text)};
        case 'h': return {"200 ", c.template request<HEAD>(url(t))};
        case 'x': return {"error", c.get(url(t))};
        case 'y': return {reconnect ? "200 GET " + t + " " : "error", c.get(url(t))};
        default: return {"200 GET " + t + " ", c.get(url(t))};
    }
}
void collect(Shared& w, Open& o, std::string const& what) {
    std::string got; try { auto t = o.f.get(); if (!t) got = "error"; else { auto d = t.move(); got = std::to_string(d.status) + " " + d.body; } } catch (std::exception& e) { got = "the future threw "s + e.what(); }
    ok(got == o.want, "response", w, what + ": expected '" + o.want + "', got '" + got + "'");
}
// all requests of one thread; wait: 0 each at once, 1 in order at the end, 2 in reverse order at the end
template <class C> void thread(Shared& w, C& c, std::string const& ops, int th, int wait, bool reconnect) {
    std::vector<Open> os; auto name = [&](std::size_t i) { return "request " + std::to_string(i) + " of thread " + std::to_string(th) + " (" + ops + ")"; };
    for (std::size_t i = 0; i < ops.size(); ++i) {
        std::string id = std::to_string(th) + std::to_string(i);
        if constexpr (requires { c.connect(url("/")); }) {
            if (ops[i] == 'c') { auto f = c.connect(url("/c")); auto t = f.get(); ok(bool(t), "connect", w, name(i) + ": connecting fails"); continue; }
            if (ops[i] == 'w') { auto f = c.wsLoop("ws://127.0.0.1:" + std::to_string(kPort) + "/w" + id, [](WSClient) -> Task<> { co_return; }); auto t = f.get(); ok(!t, "ws", w, name(i) + ": a refused upgrade succeeds"); continue; }
        }
        if (ops[i] == 'k') { for (std::size_t j = 0; j < os.size(); ++j) collect(w, os[j], name(j)); os.clear(); c.close(); { sched::Ignore g; ok(ringa::openSocks() == 0, "not-closed", w, "a connection stays open after close"); } continue; }
        os.push_back(submit(c, ops[i], id, reconnect)); if (!wait) { collect(w, os.back(), name(i)); os.pop_back(); }
    }
    if (wait == 2) for (std::size_t i = os.size(); i-- > 0;) collect(w, os[i], "one of the requests (reverse) of thread " + std::to_string(th) + " (" + ops + ")"); else for (auto& o : os) collect(w, o, "one of the requests of thread " + std::to_string(th) + " (" + ops + ")");
}
void delivered(Shared& w, std::vector<std::string> const& ops, bool reconnect, bool ordered) {
    sched::Ignore i; std::map<std::string, int> last;
    for (std::size_t th = 0; th < ops.size(); ++th) for (std::size_t k = 0; k < ops[th].size(); ++k) {
        char o = ops[th][k]; if (o == 'c' || o == 'k') continue; std::string t = "/"s + o + std::to_string(th) + std::to_string(k);
        int n = w.times[t], e = o == 'x' || o == 'y' || o == 'w' ? (reconnect ? 2 : 1) : 1;
        ok(n == e, "delivery", w, "the request " + t + " reached the server " + std::to_string(n) + " times, not " + std::to_string(e));
    }
    if (ordered) { std::map<char, char> at; for (auto& [t, c] : w.log) if (t.size() == 4) { if (at.count(t[2])) ok(at[t[2]] <= t[3], "order", w, "the requests of a thread reach the server out of order"); at[t[2]] = t[3]; } }
}
struct Cfg { std::string kind; std::vector<std::string> ops; int wait = 0, a = 0, b = 0; bool reconnect = true; int bound = 1; };
std::string name(Cfg const& c) { std::string s = c.kind; for (auto& o : c.ops) s += "/" + o; return s + "/w" + std::to_string(c.wait) + (c.a ? "/" + std::to_string(c.a) : "") + (c.b ? "to" + std::to_string(c.b) : "") + (c.reconnect ? "" : "/once"); }
using Pool = HttpClientPool<NoneProxy>;
void body(Cfg const& c) {
    ringa::Scope sc; Shared w; { sched::Ignore i; w.nm = name(c); ringa::W().service[kPort] = [&w](ringa::SockP f) { serve(w, f); }; }
    if (c.kind == "client") {
        HttpClient cli{HttpClientOptions<>{}}; cli.setAutoReconnect(c.reconnect);
        std::vector<std::thread> ts; for (std::size_t i = 1; i < c.ops.size(); ++i) ts.emplace_back([&, i] { thread(w, cli, c.ops[i], (int)i, c.wait, c.reconnect); });
        thread(w, cli, c.ops[0], 0, c.wait, c.reconnect); for (auto& t : ts) t.join();
        delivered(w, c.ops, c.reconnect, true); ok(w.maxConns <= 1, "connections", w, "one client uses several connections at once");
    }
    else if (c.kind == "chain") {   // a continuation, on the client's thread, asks again
        HttpClient cli{HttpClientOptions<>{}}; std::string a, b; std::atomic<int> done{0};
        cli.get(url("/g00")).thenTry([&](auto t) { { sched::Ignore i; a = t ? t.move().body : "error"; } cli.post(url("/p01"), "x", HttpContentType::Text).thenTry([&](auto u) { { sched::Ignore i; b = u ? u.move().body : "error"; } done.store(1); }); });
        sched::block([&] { return done.load() == 1; }, "chain"); sched::hbAcquire(&done); ok(a == "GET /g00 " && b == "POST /p01 x", "response", w, "the continuations got '" + a + "' and '" + b + "'");
    }
    else if (c.kind == "pool") {    // a: size
        Pool p{(std::size_t)c.a}; std::vector<std::thread> ts; for (std::size_t i = 1; i < c.ops.size(); ++i) ts.emplace_back([&, i] { thread(w, p, c.ops[i], (int)i, c.wait, true); });
        thread(w, p, c.ops[0], 0, c.wait, true); for (auto& t : ts) t.join();
        delivered(w, c.ops, true, false); ok(w.maxConns <= c.a, "connections", w, std::to_string(w.maxConns) + " connections for a pool of " + std::to_string(c.a));
    }
    else if (c.kind == "at-once") { // a clients carry a requests at a time, b of them after a change of size
        Pool p{(std::size_t)c.a}; int n = c.a;
        for (int round = 0; round < (c.b ? 2 : 1); ++round) {
            if (round) { p.resize((std::size_t)c.b); n = c.b; }
            { sched::Ignore i; w.barrier = (std::size_t)n; w.maxConns = 0; }
            thread(w, p, std::string((std::size_t)n, 'B'), round * 2, 1, true); thread(w, p, std::string((std::size_t)n + 1, 'g'), round * 2 + 1, 1, true);
            ok(w.maxConns == n, "connections", w, std::to_string(w.maxConns) + " connections for a pool of " + std::to_string(n));
        }
    }
    else if (c.kind == "grow") {    // another thread asks while the pool grows
        Pool p{(std::size_t)c.a}; std::thread t([&] { thread(w, p, c.ops[1], 1, c.wait, true); }); p.resize((std::size_t)c.b); thread(w, p, c.ops[0], 0, c.wait, true); t.join();
        delivered(w, c.ops, true, false); ok(w.maxConns <= c.b, "connections", w, std::to_string(w.maxConns) + " connections for a pool of " + std::to_string(c.b));
    }
    else if (c.kind == "none") { int n = 0; try { Pool p{0}; } catch (std::exception&) { ++n; } Pool p{1}; try { p.resize(0); } catch (std::exception&) { ++n; } ok(n == 2, "size", w, "a pool of no clients is accepted"); thread(w, p, "g", 0, 0, true); }
    ok(sched::threadsAlive() == 0, "threads", w, std::to_string(sched::threadsAlive()) + " threads are still alive after the destruction");
    { sched::Ignore i; ok(ringa::openSocks() == 0, "leak", w, std::to_string(ringa::openSocks()) + " sockets are left open"); mc::outcome(w.nm + std::to_string(w.log.size())); }
    mc::validated();
}
void run() {
    std::vector<Cfg> cs; bool th = mc::thorough(); std::string one = "gprhxyzcwk";
    for (char a : one) { cs.push_back({"client", {{a}}}); for (char b : one) { cs.push_back({"client", {{a, b}}}); if (!strchr("ckw", a) && !strchr("ckw", b)) { cs.push_back({"client", {{a, b}}, 1}); cs.push_back({"client", {{a, b}}, 2}); } } }
    for (auto s : {"gxp", "gyp", "zzg", "xyz"}) for (int wt : {1, 2}) cs.push_back({"client", {s}, wt});
    for (char a : "xyw"s) for (char b : "gpxyw"s) cs.push_back({"client", {{a, b}}, 0, 0, 0, false});
    for (char a : "gpxyz"s) for (char b : "gpxyz"s) if (a <= b) cs.push_back({"client", {{a}, {b}}});
    cs.push_back({"client", {"gp", "pg"}, 1}); cs.push_back({"client", {"gx", "yg"}, 1}); cs.push_back({"client", {"g", "p", "y"}, 0});
    cs.push_back({"chain", {}});
    for (int n = 1; n <= 3; ++n) { for (auto s : {"g", "ggg", "gprh", "xgyg", "zzz", "gkg", "ggkp"}) for (int wt = 0; wt < 3; ++wt) if (wt < 2 || !strchr(s, 'k')) cs.push_back({"pool", {s}, wt, n, 0, true, 1}); cs.push_back({"pool", {"gp", "pg"}, 1, n}); cs.push_back({"pool", {"gx", "yg"}, 0, n}); cs.push_back({"pool", {"g", "p", "r"}, 0, n}); for (int m = 0; m <= 4; ++m) cs.push_back({"at-once", {}, 0, n, m}); for (int m = n + 1; m <= 4; ++m) { cs.push_back({"grow", {"g", "gp"}, 1, n, m}); cs.push_back({"grow", {"gg", "gg"}, 0, n, m}); } }
    cs.push_back({"none", {}});
    if (th) for (auto& c : cs) ++c.bound;
    for (auto& c : cs) sched::explore(name(c), c.bound, [c] { body(c); }, sched::Options{.leakCheck = true, .maxSteps = 200000, .forcedCost = 1, .maxDelay = 1'000'000'000});
}
} // namespace vp
void mc_main() { vp::run(); }
