// P37: a server listens when its start returns, serves what was asked before it stops, and every stop terminates.
#include <ringa.hpp>
#include <cstdio>
inline int vp_silent(char const*, ...) { return 0; }
#define printf vp_silent
#include <HXLibs/log/Log.hpp>
#include <HXLibs/net/server/HttpServer.hpp>
#undef printf
#include <thread>

namespace vp {
using namespace HX; using namespace HX::net; using namespace HX::coroutine; using namespace HX::utils;
using namespace std::chrono_literals;
using T100 = decltype(100_ms);
constexpr int kPort = 8080;
struct Shared { std::string nm; std::atomic<int> calls{0}; };
void ok(bool b, char const* key, Shared& w, std::string const& m) { if (!b) sched::fail(key, w.nm + ": " + m); }

// a blocking raw client
struct Raw {
    ringa::SockP s;
    bool dial() { sched::point("dial"); s = ringa::dialTo(kPort); return bool(s); }
    bool send(std::string const& t) { sched::point("send"); return ringa::put(s, t.data(), t.size()); }
    // one response, or what came before the connection ended
    std::string recv() { auto k = s; auto full = [k] { auto h = k->in.find("\r\n\r\n"); if (h == std::string::npos) return false; auto c = k->in.find("Content-Length: "); return c != std::string::npos && k->in.size() >= h + 4 + (std::size_t)std::atoi(k->in.c_str() + c + 16); };
        sched::block([k, full] { return full() || k->eof; }, "response"); sched::hbAcquire(k.get()); sched::Ignore i; if (full()) { auto h = k->in.find("\r\n\r\n"); auto c = k->in.find("Content-Length: "); auto n = h + 4 + (std::size_t)std::atoi(k->in.c_str() + c + 16); std::string r = k->in.substr(0, n); k->in.erase(0, n); return r; } return "cut:" + k->in; }
    void hang() { sched::point("hang up"); if (s) { sched::Ignore i; ringa::shut(s); s.reset(); } }
    ~Raw() { if (s) { sched::Ignore i; ringa::shut(s); s.reset(); } }
};
std::string req(std::string p, bool close = false) { return "GET " + p + " HTTP/1.1\r\nHost: h\r\n" + (close ? "Connection: close\r\n" : "") + "\r\n"; }
bool is200(std::string const& r, std::string const& body) { return r.compare(0, 12, "HTTP/1.1 200") == 0 && r.size() >= body.size() && r.compare(r.size() - body.size(), body.size(), body) == 0; }

struct Cfg { std::string kind; int threads; int bound; int a = 0; };
void endpoints(HttpServer& s, Shared& w) {
    s.addEndpoint<GET>("/a", [&](HttpRequest<HttpIO>&, HttpResponse<HttpIO>& res) -> Task<> { w.calls.fetch_add(1); co_await res.setStatusAndContent(Status::CODE_200, "alpha").sendRes(); });
    s.addEndpoint<GET>("/slow", [&](HttpRequest<HttpIO>&, HttpResponse<HttpIO>& res) -> Task<> { co_await static_cast<EventLoop&>(res.getIO()).makeTimer().sleepFor(15ms); co_await res.setStatusAndContent(Status::CODE_200, "slowly").sendRes(); });
    s.addEndpoint<GET>("/stop", [&](HttpRequest<HttpIO>&, HttpResponse<HttpIO>& res) -> Task<> { s.asyncStop(); co_await res.setStatusAndContent(Status::CODE_200, "bye").sendRes(); });
}
void one(Shared& w, char const* path, char const* body, char const* when) {
    Raw c; ok(c.dial(), "not-listening", w, std::string("a connection ") + when + " is refused");
    c.send(req(path, true)); auto r = c.recv(); ok(is200(r, body), "response", w, std::string("a request ") + when + " is answered '" + r.substr(0, 40) + "'"); c.hang();
}
// asked while the server may be stopping: answered completely or not at all
void maybe(Shared& w, char const* path, char const* body) {
    Raw c; if (!c.dial()) return; c.send(req(path, true)); auto r = c.recv(); ok(is200(r, body) || r == "cut:", "partial", w, "a request during the stop is answered '" + r.substr(0, 40) + "'"); c.hang();
}
void body(Cfg const& c) {
    ringa::Scope sc; Shared w; w.nm = c.kind + "/threads" + std::to_string(c.threads) + (c.a ? "/" + std::to_string(c.a) : "");
    auto listening = [&] { sched::Ignore i; return ringa::listeners(kPort); };
    auto stopped = [&] { ok(listening() == 0, "still-listening", w, "the server still listens after its stop"); };
    {
        std::unique_ptr<HttpServer> own = std::make_unique<HttpServer>((uint16_t)kPort); HttpServer& s = *own; endpoints(s, w);
        auto N = (std::size_t)c.threads;
        if (c.kind == "never") { if (c.a == 1) s.syncStop(); if (c.a == 2) s.asyncStop(); own.reset(); stopped(); }
        else if (c.kind == "bind") { ringa::W().bindFails = c.a; s.asyncRun<T100>(N); ok(listening() == std::max(0, c.threads - c.a), "not-listening", w, std::to_string(listening()) + " threads listen when the start returns"); if (c.threads > c.a) one(w, "/a", "alpha", "after the start"); own.reset(); stopped(); }
        else if (c.kind == "destroy" || c.kind == "sync" || c.kind == "async" || c.kind == "async-sync") {
            s.asyncRun<T100>(N); ok(listening() == c.threads, "not-listening", w, "only " + std::to_string(listening()) + " threads listen when the start returns");
            for (int i = 0; i < c.a; ++i) one(w, "/a", "alpha", "after the start");
            if (c.kind == "sync") { s.syncStop(); stopped(); }
            if (c.kind == "async") s.asyncStop();
            if (c.kind == "async-sync") { s.asyncStop(); s.syncStop(); stopped(); }
            own.reset(); stopped();
            ok(w.calls.load() == c.a, "calls", w, "the endpoint ran " + std::to_string(w.calls.load()) + " times for " + std::to_string(c.a) + " requests");
        }
        else if (c.kind == "idle" || c.kind == "idle-silent") {   // a connection stays open: stopping waits for its time-out at most
            Raw k; s.asyncRun<T100>(N); ok(k.dial(), "not-listening", w, "a connection after the start is refused");
            if (c.kind == "idle") { k.send(req("/a")); auto r = k.recv(); ok(is200(r, "alpha"), "response", w, "a request after the start is answered '" + r.substr(0, 40) + "'"); }
            auto t0 = sched::nowNs(); s.syncStop(); stopped(); ok(sched::nowNs() - t0 < 5'000'000'000ULL, "slow-stop", w, "stopping took " + std::to_string((sched::nowNs() - t0) / 1000000) + " ms"); own.reset();
        }
        else if (c.kind == "busy") {    // a request is being answered while the server stops
            Raw k; s.asyncRun<T100>(N); ok(k.dial(), "not-listening", w, "a connection after the start is refused"); k.send(req("/slow"));
            if (c.a) sched::block([] { return ringa::W().accepted > 0; }, "accepted");
            std::string r; std::thread t([&] { r = k.recv(); }); s.syncStop(); stopped(); t.join();
            ok(is200(r, "slowly") || (!c.a && r == "cut:"), "partial", w, "a request accepted before the stop is answered '" + r.substr(0, 40) + "'"); own.reset();
        }
        else if (c.kind == "during") {  // another client asks while the server stops
            s.asyncRun<T100>(N); std::thread t([&] { maybe(w, c.a ? "/slow" : "/a", c.a ? "slowly" : "alpha"); }); s.syncStop(); stopped(); own.reset(); t.join();
        }
        else if (c.kind == "two") {     // two clients at once
            s.asyncRun<T100>(N); std::thread t([&] { one(w, "/a", "alpha", "from one of two clients"); }); one(w, "/slow", "slowly", "from the other of two clients"); t.join(); own.reset(); stopped(); ok(w.calls.load() == 1, "calls", w, "the endpoint ran " + std::to_string(w.calls.load()) + " times");
        }
        else if (c.kind == "handler") { // syncRun in this thread, stopped by a request
            std::thread t([&] { Raw k; sched::block([] { return ringa::listeners(kPort) > 0; }, "listening"); ok(k.dial(), "not-listening", w, "refused"); k.send(req("/stop", c.a)); auto r = k.recv(); ok(is200(r, "bye"), "response", w, "the stopping request is answered '" + r.substr(0, 40) + "'"); k.hang(); });
            s.syncRun<T100>(N); stopped(); own.reset(); t.join();
        }
        else if (c.kind == "other-thread") { // syncRun in a thread, stopped from this one
            std::thread t([&] { s.syncRun<T100>(N); });
            sched::block([] { return ringa::listeners(kPort) > 0; }, "listening");
            if (c.a) s.asyncStop(); else s.syncStop(); t.join(); stopped(); own.reset();
        }
    }
    ok(sched::threadsAlive() == 0, "threads", w, std::to_string(sched::threadsAlive()) + " threads are still alive after the destruction");
    { sched::Ignore i; ok(ringa::openSocks() == 0, "leak", w, std::to_string(ringa::openSocks()) + " sockets are left open"); mc::outcome(w.nm + std::to_string(ringa::W().accepted)); }
    mc::validated();
}
void run() {
    std::vector<Cfg> cs; bool th = mc::thorough();
    for (int a = 0; a < 3; ++a) cs.push_back({"never", 0, 2, a});
    for (auto k : {"destroy", "sync", "async", "async-sync"}) { cs.push_back({k, 1, 1, 0}); cs.push_back({k, 2, 1, 0}); }
    cs.push_back({"destroy", 1, 1, 1}); cs.push_back({"destroy", 2, 1, 1}); cs.push_back({"sync", 1, 1, 2}); cs.push_back({"destroy", 3, 0, 1});
    cs.push_back({"bind", 1, 1, 1}); cs.push_back({"bind", 2, 1, 1}); cs.push_back({"bind", 2, 1, 2});
    for (int n : {1, 2}) { cs.push_back({"idle", n, 1}); cs.push_back({"idle-silent", n, 1}); cs.push_back({"busy", n, 1, 0}); cs.push_back({"busy", n, 1, 1}); cs.push_back({"during", n, 1, 0}); cs.push_back({"during", n, 1, 1}); cs.push_back({"two", n, 1}); for (int a = 0; a < 2; ++a) cs.push_back({"handler", n, 1, a}), cs.push_back({"other-thread", n, 1, a}); }
    if (th) for (auto& c : cs) ++c.bound;
    for (auto& c : cs) sched::explore(c.kind + "/t" + std::to_string(c.threads) + "/" + std::to_string(c.a), c.bound, [c] { body(c); }, sched::Options{.leakCheck = true, .maxSteps = 200000, .forcedCost = 1, .maxDelay = 1'000'000'000});
}
} // namespace vp
void mc_main() { vp::run(); }
