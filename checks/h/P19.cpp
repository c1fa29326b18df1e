// P19: over TLS exactly the plain HTTP exchange happens, or it ends with an error. PART 0: data; 1: the client verifies; 2: the server verifies.
#include "tls_common.hpp"
#include <HXLibs/coroutine/awaiter/WhenAll.hpp>
#include <HXLibs/net/protocol/proxy/Socks5Proxy.hpp>
#include <HXLibs/net/protocol/proxy/HttpProxy.hpp>
using namespace vp;
static uint64_t runs;
static SSL_CTX *srv[2], *cli[2]; static Cert own;                      // scripted peers, by version (0: TLS 1.2, 1: TLS 1.3)
static char const* vn[] = {"TLS 1.2", "TLS 1.3"};
static void done(std::string o) { mc::state(runs); runs = 0; mc::outcome(o); }
static std::string answer(std::string const& b, int form, int status = 200) {
    std::string h = "HTTP/1.1 " + std::to_string(status) + " X\r\n";
    if (form == 0) return h + "Content-Length: " + std::to_string(b.size()) + "\r\n\r\n" + b;
    if (form == 1) { std::string o; for (std::size_t i = 0; i < b.size(); i += 5000) { auto n = std::min<std::size_t>(5000, b.size() - i); char t[20]; std::snprintf(t, 20, "%zx\r\n", n); o += t + b.substr(i, n) + "\r\n"; } return h + "Transfer-Encoding: chunked\r\n\r\n" + o + "0\r\n\r\n"; }
    return h + "\r\n" + b;
}
// ---------------------------------------------------------------- the library's client
struct Call { HttpMethod m = GET; std::string body; bool upload = false; };
struct CRes { std::vector<Got1> g; std::string run; long long took = 0; std::size_t conns = 0, opens = 0; int bad = 0; std::vector<std::shared_ptr<Peer>> peers; };
static CRes client(std::vector<Call> const& calls, std::function<void(Peer&)> script, int ver, mc::Chooser* ch = nullptr, bool reconnect = true, std::string url = "https://h/p", SSL_CTX* ctx = nullptr, std::function<void(sim::Conn&)> raw = {}) {
    ++runs; mc::transition(); sim::reset(ch); auto& w = sim::W(); w.maxEvents = 400000; if (ch) w.chRecv = w.chSend = true;
    CRes o; int n = 0;
    w.onConnect = [&](sim::Conn& c, sockaddr const*) { if (n++) return -ECONNREFUSED; if (raw) { raw(c); return 0; } auto p = attach(c, ctx ? ctx : srv[ver], true); p->c = &c; script(*p); o.peers.push_back(p); return 0; };
    try {
        auto loop = std::make_shared<EventLoop>();
        HttpsClient<NoneProxy> cli{HttpClientOptions{}, loop}; cli.setAutoReconnect(reconnect);
        auto main = [&]() -> Task<> {
            for (auto& k : calls) {
                if (k.upload) { put(scratch() + "/up", k.body); auto r = co_await cli.coUploadChunked<POST>(url, scratch() + "/up"); o.g.push_back(take(r)); }
                else if (k.m == POST) { auto r = co_await cli.coPost(url, k.body, HttpContentType::Text); o.g.push_back(take(r)); }
                else { auto r = co_await cli.coGet(url); o.g.push_back(take(r)); }
            }
            o.took = sim::W().now - sim::kEpoch; co_await cli.coClose();
        };
        auto r = loop->trySync(main());
        if (!r.isVal()) try { r.rethrow(); } catch (std::exception& e) { o.run = std::string("the client's coroutine ended with '") + e.what() + "'"; }
    } catch (sim::Quiet&) { o.run = "a call never returns"; } catch (sim::Runaway&) { o.run = "a call loops without end"; }
    for (auto& c : w.all) { ++o.conns; o.opens += c->open; c->react = {}; } o.bad = w.badClose; ERR_clear_error(); return o;
}
static bool sane(CRes const& o, std::function<std::string()> const& what, long long limit = 65) {
    if (!o.run.empty()) { mc::fail("hang", what() + ": " + o.run); return false; }
    if (o.opens) { mc::fail("leak", what() + ": the connection is left open"); return false; }
    if (o.bad) { mc::fail("bad-close", what() + ": " + sim::W().badWhat); return false; }
    if (o.took > limit * sim::sec) { mc::fail("slow", what() + ": took " + std::to_string(o.took / sim::sec) + " s"); return false; }
    return true;
}
static bool sentWas(CRes const& o, std::vector<Call> const& calls, std::function<std::string()> const& what) {
    auto& got = o.peers[0]->got; std::size_t p = 0; Rq r; std::string why;
    for (auto& k : calls) { if (readRq(got, p, r, why) != OK || r.target != "/p" || r.method != (k.m == POST ? "POST" : "GET") || r.body != k.body) { mc::fail("request", what() + ": the server read " + mc::esc(got.substr(0, 100), 200) + " ..., " + std::to_string(got.size()) + " bytes, body of " + std::to_string(r.body.size()) + " of " + std::to_string(k.body.size()) + " " + why); return false; } }
    if (p != got.size()) { mc::fail("request", what() + ": the server read more than the requests"); return false; }
    return true;
}
static bool cliGood(std::vector<Call> const& calls, std::string const& body, int form, int ver, std::function<void(Peer&)> tune, std::string const& desc, mc::Chooser* ch = nullptr) {
    auto what = [&] { return std::string(vn[ver]) + " client " + desc + (ch ? " choices " + ch->str() : ""); };
    CRes o = client(calls, [&](Peer& p) { tune(p); for (std::size_t i = 0; i < calls.size(); ++i) p.aRq().say(answer(body, form)); if (form == 2) p.bye().ends(FIN); }, ver, ch);
    if (!sane(o, what)) return false;
    for (auto& g : o.g) if (!g.ok || g.status != 200 || g.body != body) { mc::fail("result", what() + ": the client returned " + show(g) + ", sent was a body of " + std::to_string(body.size()) + (o.peers.empty() ? "" : " " + o.peers[0]->err)); return false; }
    if (o.conns != 1) { mc::fail("again", what() + ": " + std::to_string(o.conns) + " connections"); return false; }
    return sentWas(o, calls, what);
}
// ---------------------------------------------------------------- the library's server
using Rtls = Router<HttpsIO>; using ReqS = HttpRequest<HttpsIO>; using ResS = HttpResponse<HttpsIO>;
static std::string bigBody; static std::vector<std::string> handled;
static Rtls& router() { static Rtls* r = [] { auto* r = new Rtls;
    r->addEndpoint<GET, POST>("/e", [](ReqS& q, ResS& s) -> Task<> { auto b = co_await q.parseBody(); handled.push_back(std::string(q.getReqType()) + " " + std::string(b)); co_await s.setStatusAndContent(Status::CODE_200, "<" + std::string(q.getReqType()) + std::string(b) + ">").sendRes(); });
    r->addEndpoint<GET>("/big", [](ReqS&, ResS& s) -> Task<> { handled.push_back("big"); co_await s.setStatusAndContent(Status::CODE_200, bigBody).sendRes(); });
    r->addEndpoint<GET>("/file", [](ReqS&, ResS& s) -> Task<> { handled.push_back("file"); co_await s.useChunkedEncodingTransferFile(scratch() + "/f"); });
    return r; }(); return *r; }
struct SRes { std::string run; long long took = 0; std::size_t opens = 0; int bad = 0; std::shared_ptr<Peer> p, q; std::string raw; };
static SRes server(std::function<void(Peer&)> script, int ver, mc::Chooser* ch = nullptr, std::function<void(Peer&)> second = {}, SSL_CTX* ctx = nullptr, std::function<void(sim::Conn&)> raw = {}) {
    ++runs; mc::transition(); sim::reset(ch); auto& w = sim::W(); w.maxEvents = 400000; if (ch) w.chRecv = w.chSend = true; handled.clear();
    SRes o;
    try {
        std::atomic_bool run{true}; EventLoop loop;
        auto one = [&](std::function<void(Peer&)>& f) { auto c = sim::newConn(); if (raw) { raw(*c); sim::pump(*c); ConnectionHandler<HttpsIO>::template start<Timeout30>(c->fd, run, router(), loop).detach(); return std::shared_ptr<Peer>{}; } auto p = attach(*c, ctx ? ctx : cli[ver], false); p->c = c.get(); f(*p); sim::pump(*c); ConnectionHandler<HttpsIO>::template start<Timeout30>(c->fd, run, router(), loop).detach(); return p; };
        if (second) o.q = one(second);
        o.p = one(script); loop.run();
    } catch (sim::Quiet&) { o.run = "the connection is never ended"; } catch (sim::Runaway&) { o.run = "the server loops without end"; }
    o.took = w.now - sim::kEpoch; for (auto& c : w.all) { o.opens += c->open; c->react = {}; o.raw += c->out; } o.bad = w.badClose; ERR_clear_error(); return o;
}
static bool saneS(SRes const& o, std::function<std::string()> const& what, long long limit = 95) {
    if (!o.run.empty()) { mc::fail("hang", what() + ": " + o.run); return false; }
    if (o.opens) { mc::fail("leak", what() + ": the connection is left open"); return false; }
    if (o.bad) { mc::fail("bad-close", what() + ": " + sim::W().badWhat); return false; }
    if (o.took > limit * sim::sec) { mc::fail("slow", what() + ": took " + std::to_string(o.took / sim::sec) + " s"); return false; }
    return true;
}
static std::string rq(std::string const& path, std::string const& body, bool chunked = false) {
    std::string h = (body.empty() ? "GET " : "POST ") + path + " HTTP/1.1\r\nHost: h\r\n"; if (body.empty()) return h + "\r\n";
    if (!chunked) return h + "Content-Length: " + std::to_string(body.size()) + "\r\n\r\n" + body;
    char t[20]; std::snprintf(t, 20, "%zx\r\n", body.size()); return h + "Transfer-Encoding: chunked\r\n\r\n" + t + body + "\r\n0\r\n\r\n";
}
static std::function<bool(Peer&)> aRsp() { return [](Peer& p) { Rsp r; std::string w; std::size_t q = p.seen; if (readRsp(p.got, q, false, r, w) == OK) { p.seen = q; return true; } return false; }; }
// requests, each sent once the previous is answered (or all at once), and the answers' bodies
static bool srvGood(std::vector<std::string> const& rqs, std::vector<std::string> const& want, bool piped, int ver, std::function<void(Peer&)> tune, std::string const& desc, mc::Chooser* ch = nullptr) {
    auto what = [&] { return std::string(vn[ver]) + " server " + desc + (ch ? " choices " + ch->str() : ""); };
    SRes o = server([&](Peer& p) { tune(p); for (auto& r : rqs) { p.say(r); if (!piped) p.when(aRsp()); } if (piped) for (std::size_t i = 0; i < rqs.size(); ++i) p.when(aRsp()); p.bye().ends(FIN); }, ver, ch);
    if (!saneS(o, what)) return false;
    std::size_t q = 0; Rsp r; std::string why;
    for (auto& b : want) if (readRsp(o.p->got, q, false, r, why) != OK || r.status != 200 || r.body != b) { mc::fail("response", what() + ": the client received " + mc::esc(o.p->got.substr(0, 100), 200) + " ..., " + std::to_string(o.p->got.size()) + " bytes, body of " + std::to_string(r.body.size()) + " not " + std::to_string(b.size()) + " " + why + o.p->err); return false; }
    if (q != o.p->got.size()) { mc::fail("response", what() + ": extra bytes received"); return false; }
    return true;
}
static std::vector<std::size_t> const sizes = {0, 1, 100, 16383, 16384, 16385, 32768, 65535, 65536, 65537, 131071, 131072, 131073, 133119, 133120, 133121, 150000, 262144, 500000};

struct TS { using T = Socks5Proxy; }; struct TH { using T = HttpProxy; };
template <class Tag> static bool viaProxy(Tag, std::string proxy, std::vector<std::pair<std::size_t, std::string>> dialog, bool ok, std::size_t seg, int v, SSL_CTX* ctx = nullptr, bool trust = true) { using P = typename Tag::T; mc::arm();
            auto what = [&] { return std::string(vn[v]) + " client through " + proxy + (ok ? "" : " that refuses") + (trust ? "" : ", the certificate is not for the host") + " segments of " + std::to_string(seg); };
            ++runs; mc::transition(); sim::reset(nullptr); auto& w = sim::W(); Got1 g; std::string run; std::shared_ptr<Peer> p; std::size_t before = 0; int n = 0;
            w.onConnect = [&](sim::Conn& c, sockaddr const*) { if (n++) return -ECONNREFUSED; for (auto& [len, t] : dialog) { if (len) c.waitOut(len); else c.wait(aRequest()); std::vector<std::size_t> cs; if (seg) for (std::size_t i = seg; i < t.size(); i += seg) cs.push_back(i); c.cut(t, cs); }
                if (ok) c.call([&](sim::Conn& c) { before = c.out.size(); p = std::make_shared<Peer>(ctx ? ctx : srv[v], true); p->fed = before; p->c = &c; p->seg = seg; p->aRq().say(answer("hello", 0)); auto q = p; c.react = [q](sim::Conn& k) { return q->step(k); }; }); return 0; };
            try { auto loop = std::make_shared<EventLoop>(); HttpsClient<P> cli{HttpClientOptions<P>{ProxyType<P>{proxy}}, loop}; auto main = [&]() -> Task<> { auto r = co_await cli.coGet("https://h/p"); g = take(r); co_await cli.coClose(); }; loop->trySync(main()); } catch (sim::Quiet&) { run = "a call never returns"; } catch (sim::Runaway&) { run = "a call loops without end"; }
            std::string out; for (auto& c : w.all) { if (!c->no) out = c->out; if (c->open && run.empty()) run = "the connection is left open"; c->react = {}; } ERR_clear_error();
            if (!run.empty()) { mc::fail("proxy", what() + ": " + run); return false; }
            if (ok && trust && PART == 1) { auto* n = p ? SSL_get_servername(p->s, TLSEXT_NAMETYPE_host_name) : nullptr; if (!n || n != std::string("h")) { mc::fail("sni", what() + ": the server name asked for is '" + (n ? n : "") + "'"); return false; } }
            if (p && !trust && p->got.size()) { mc::fail("leaked", what() + ": the server was sent " + mc::esc(p->got, 100)); return false; }
            if (g.ok != (ok && trust) || (g.ok && g.body != "hello")) { mc::fail("proxy", what() + ": returned " + show(g) + (p ? " " + p->err : "")); return false; }
            if (!ok && out.find('\x16') != npos) { mc::fail("proxy", what() + ": TLS begun all the same"); return false; }
            if (ok && (out.size() <= before || out[before] != '\x16')) { mc::fail("proxy", what() + ": TLS did not begin behind the tunnel"); return false; }
            return true;
}
static void dataPart() {
    bool th = mc::thorough();
    // learns the length of the stream and where the application data begins
    auto lengths = [](bool client_, int v, std::size_t& total, std::size_t& app) { std::shared_ptr<Peer> p;
        if (client_) p = client({{}}, [&](Peer& p) { p.aRq().say(answer("hello, world", 0)); }, v).peers.at(0); else p = server([&](Peer& p) { p.say(rq("/e", "hello")).when(aRsp()).bye().ends(FIN); }, v).p;
        total = p->total; app = p->saidAt; };
    for (int v = 0; v < 2; ++v) {
        std::string V = std::to_string(v);
        mc::run_case("client/sizes/" + V, [&] {
            for (std::size_t i = 0; i < sizes.size(); ++i) for (int form = 0; form < 3; ++form) for (std::size_t rec : {16384ul, 1000ul}) for (std::size_t seg : {0ul, 1460ul, 16384ul}) { mc::arm();
                std::size_t n = sizes[i], m = sizes[(i * 7 + 3) % sizes.size()]; std::string b = pattern(n, (unsigned)n);
                auto tune = [&](Peer& p) { p.rec = rec; p.seg = seg; }; std::string d = "answer of " + std::to_string(n) + " form " + std::to_string(form) + " records of " + std::to_string(rec) + " segments of " + std::to_string(seg);
                if (!cliGood({{}}, b, form, v, tune, d + " to GET")) return;
                if (!form || th) { if (!cliGood({{POST, pattern(m, 1)}}, b, form, v, tune, d + " to POST of " + std::to_string(m))) return; if (!cliGood({{POST, pattern(m, 2), true}}, b, form, v, tune, d + " to upload of " + std::to_string(m))) return; } }
            if (!cliGood({{}, {POST, pattern(70000, 3)}, {POST, "x"}, {}}, pattern(20000, 4), 1, v, [](Peer&) {}, "four requests on one connection")) return;
            done("client sizes");
        });
        mc::run_case("server/sizes/" + V, [&] {
            for (std::size_t i = 0; i < sizes.size(); ++i) for (std::size_t rec : {16384ul, 1000ul}) for (std::size_t seg : {0ul, 1460ul, 16384ul}) { mc::arm();
                std::size_t n = sizes[i]; auto tune = [&](Peer& p) { p.rec = rec; p.seg = seg; }; std::string d = " of " + std::to_string(n) + " records of " + std::to_string(rec) + " segments of " + std::to_string(seg), b = pattern(n, (unsigned)n);
                bigBody = b; put(scratch() + "/f", b); std::string echo = n ? "<POST" + b + ">" : "<GET>";
                if (!srvGood({rq("/big", "")}, {b}, false, v, tune, "body" + d)) return;
                if (!srvGood({rq("/file", "")}, {b}, false, v, tune, "file" + d)) return;
                if (!srvGood({rq("/e", b)}, {echo}, false, v, tune, "echo" + d)) return; if (!srvGood({rq("/e", b, true)}, {echo}, false, v, tune, "chunked echo" + d)) return;
                if (!srvGood({rq("/big", ""), rq("/e", "abc"), rq("/file", "")}, {b, "<POSTabc>", b}, true, v, tune, "three pipelined" + d)) return; }
            done("server sizes");
        });
        for (int side = 0; side < 2; ++side) {
            auto good = [=](std::function<void(Peer&)> tune, std::string const& d, mc::Chooser* ch = nullptr) { return side ? srvGood({rq("/e", "hello")}, {"<POSThello>"}, false, v, tune, d, ch) : cliGood({{}}, "hello, world", 0, v, tune, d, ch); };
            std::string S = (side ? "server/" : "client/") + std::string(V);
            for (int half = 0; half < 2; ++half) mc::run_case("cuts/" + S + "/" + std::to_string(half), [&] {
                std::size_t n, app; lengths(!side, v, n, app);
                if (half) { std::vector<std::size_t> pts; std::size_t stepN = th ? 7 : 23; for (std::size_t i = 1; i < n; ++i) if (i < 12 || i % stepN == 0 || (i >= app && i < app + 8)) pts.push_back(i);
                    for (std::size_t i = 0; i < pts.size(); ++i) for (std::size_t j = i + 1; j < pts.size(); ++j) { mc::arm(); if (!good([&](Peer& p) { p.cuts = {pts[i], pts[j]}; }, "cut at " + cutstr({pts[i], pts[j]}))) return; } }
                else { for (std::size_t i = 1; i < n; ++i) { mc::arm(); if (!good([&](Peer& p) { p.cuts = {i}; }, "cut at " + std::to_string(i))) return; }
                    for (std::size_t s = 1; s < 200; s += s < 20 || th ? 1 : 13) { mc::arm(); if (!good([&](Peer& p) { p.seg = s; }, "in segments of " + std::to_string(s))) return; } }
                done("cuts");
            });
            mc::run_case("short/" + S, [&] { mc::sub_explore("short", th ? 2 : 1, [&](mc::Chooser& c) { mc::arm(); good([](Peer&) {}, "short transfers", &c); }, 20000); mc::sub_explore("short2", 1, [&](mc::Chooser& c) { mc::arm(); good([](Peer& p) { p.seg = 300; }, "short transfers of segments", &c); }, 20000); done("short"); });
            // the peer's stream ends early
            mc::run_case("trunc/" + S, [&] {
                std::size_t n, app; lengths(!side, v, n, app);
                for (std::size_t i = 0; i <= n; ++i) for (End e : {OPEN, FIN, GONE, RST}) { if (!th && i > 20 && i < app && i % 5) continue; mc::arm();
                    auto what = [&] { return std::string(vn[v]) + (side ? " server: the client's" : " client: the server's") + " bytes end after " + std::to_string(i) + " of " + std::to_string(n) + " with " + endName[e]; };
                    if (!side) { CRes o = client({{}}, [&](Peer& p) { p.truncAt = i; p.end = e; p.aRq().say(answer("hello, world", 0)); }, v); if (!sane(o, what)) return; auto& g = o.g.at(0);
                        if (g.ok && (o.peers.at(0)->truncated || g.body != "hello, world")) { mc::fail("fabricated", what() + ": the client returned " + show(g)); return; } }
                    else { SRes o = server([&](Peer& p) { p.truncAt = i; p.end = e; p.say(rq("/e", "hello")).when(aRsp()).bye().ends(FIN); }, v); if (!saneS(o, what)) return;
                        if (handled.size() > 1 || (handled.size() && (handled[0] != "POST hello" || i < app))) { mc::fail("fabricated", what() + ": the server handled '" + mc::esc(handled[0], 60) + "'"); return; } } }
                // an orderly TLS close in the middle
                for (int form = 0; form < 2 && !side; ++form) for (std::size_t k = 0; k < answer("hello", form).size(); ++k) for (End e : {OPEN, FIN, RST}) { mc::arm(); auto what = [&] { return std::string(vn[v]) + " client: orderly close after " + std::to_string(k) + " bytes of the answer then " + endName[e]; };
                    CRes o = client({{}}, [&](Peer& p) { p.aRq().say(answer("hello", form).substr(0, k)).bye().ends(e); }, v); if (!sane(o, what)) return; if (o.g.at(0).ok) { mc::fail("fabricated", what() + ": the client returned " + show(o.g[0])); return; } }
                for (std::size_t k = 0; k < rq("/e", "hello").size() && side; ++k) for (End e : {OPEN, FIN, RST}) { mc::arm(); auto what = [&] { return std::string(vn[v]) + " server: orderly close after " + std::to_string(k) + " bytes of the request then " + endName[e]; };
                    SRes o = server([&](Peer& p) { p.say(rq("/e", "hello").substr(0, k)).bye().ends(e); }, v); if (!saneS(o, what)) return; if (!handled.empty() && handled[0] == "POST hello") { mc::fail("fabricated", what() + ": the server handled it"); return; } }
                done("trunc");
            });
            // any altered byte of the peer's stream
            for (int half = 0; half < 2; ++half) mc::run_case("flip/" + S + "/" + std::to_string(half), [&] {
                std::size_t n, app; lengths(!side, v, n, app);
                for (std::size_t i = 0; i < n; ++i) for (int bit = half * 4; bit < half * 4 + 4; ++bit) { if (!th && i > 60 && i < app && (i + (unsigned)bit) % 4) continue; mc::arm();
                    auto what = [&] { return std::string(vn[v]) + (side ? " server: the client's" : " client: the server's") + " byte " + std::to_string(i) + " of " + std::to_string(n) + " altered in bit " + std::to_string(bit); };
                    auto tune = [&](Peer& p) { p.flipAt = i; p.flip = (unsigned char)(1 << bit); };
                    if (!side) { CRes o = client({{}}, [&](Peer& p) { tune(p); p.aRq().say(answer("hello, world", 0)); }, v); if (!sane(o, what)) return; auto& g = o.g.at(0); if (g.ok && (g.status != 200 || g.body != "hello, world")) { mc::fail("tampered", what() + ": the client returned " + show(g)); return; }
                        if (g.ok && o.peers.at(0)->flipped && i >= o.peers[0]->saidAt + 5) { mc::fail("tampered", what() + ": the alteration went unnoticed"); return; } }
                    else { SRes o = server([&](Peer& p) { tune(p); p.say(rq("/e", "hello")).when(aRsp()).bye().ends(FIN); }, v); if (!saneS(o, what)) return; if (handled.size() && handled[0] != "POST hello") { mc::fail("tampered", what() + ": the server handled '" + mc::esc(handled[0], 60) + "'"); return; } } }
                done("flip");
            });
            // a connection that fails does not disturb another one of the same loop
            mc::run_case("beside/" + S, [&] {
                std::size_t n, app; lengths(!side, v, n, app);
                for (std::size_t i = 0; i < n; i += i < 12 || i >= app ? 1 : th ? 3 : 17) for (End e : {OPEN, RST, GONE}) for (int how = 0; how < 2; ++how) { mc::arm();   // how: altered / cut off at i
                    auto what = [&] { return std::string(vn[v]) + (side ? " server" : " client") + ": while another connection's byte " + std::to_string(i) + (how ? " is the last before " + std::string(endName[e]) : " is altered") + ", a good connection"; };
                    if (!how && e != OPEN) continue;
                    auto tuneBad = [&](Peer& p) { if (how) { p.truncAt = i; p.end = e; } else p.flipAt = i; };
                    if (side) { SRes o = server([&](Peer& p) { p.seg = 90; p.say(rq("/e", "hello")).when(aRsp()).bye().ends(FIN); }, v, nullptr, [&](Peer& p) { tuneBad(p); p.seg = 50; p.say(rq("/e", "other")).when(aRsp()).bye().ends(FIN); }); if (!saneS(o, what)) return;
                        Rsp r; std::string why; std::size_t q = 0; if (readRsp(o.p->got, q, false, r, why) != OK || r.body != "<POSThello>") { mc::fail("disturbed", what() + " received '" + mc::esc(o.p->got, 100) + "' " + o.p->err); return; } }
                    else { ++runs; sim::reset(nullptr); auto& w = sim::W(); w.maxEvents = 400000; int k = 0; Got1 a, b; std::string run; std::shared_ptr<Peer> pb;
                        w.onConnect = [&](sim::Conn& c, sockaddr const* ad) { ++k; bool bad = ntohs(((sockaddr_in const*)ad)->sin_port) == 81; auto p = attach(c, srv[v], true); p->c = &c; if (bad) { tuneBad(*p); p->seg = 50; p->aRq().say(answer("other", 0)); } else { pb = p; p->seg = 90; p->aRq().say(answer("hello, world", 0)); } return 0; };
                        try { auto loop = std::make_shared<EventLoop>(); HttpsClient<NoneProxy> c1{HttpClientOptions{}, loop}, c2{HttpClientOptions{}, loop}; c1.setAutoReconnect(false); c2.setAutoReconnect(false);
                            auto t1 = [&]() -> Task<> { auto r = co_await c1.coGet("https://h:81/p"); a = take(r); co_await c1.coClose(); }; auto t2 = [&]() -> Task<> { auto r = co_await c2.coGet("https://h:82/p"); b = take(r); co_await c2.coClose(); };
                            auto both = [&]() -> Task<> { co_await whenAll(t1(), t2()); }; loop->trySync(both()); } catch (sim::Quiet&) { run = "a call never returns"; } catch (sim::Runaway&) { run = "a call loops without end"; }
                        for (auto& c : w.all) c->react = {}; ERR_clear_error();
                        if (!run.empty()) { mc::fail("hang", what() + ": " + run); return; }
                        if (!b.ok || b.body != "hello, world") { mc::fail("disturbed", what() + " returned " + show(b)); return; }
                        if (a.ok && a.body != "other") { mc::fail("tampered", what() + ": the other returned " + show(a)); return; } } }
                done("beside");
            });
        }
        // records without data, key updates, renegotiation by the peer in the middle
        mc::run_case("rekey/" + V, [&] {
            for (int at = 0; at < 4; ++at) for (int times = 1; times < 4; ++times) for (int both = 0; both < 2; ++both) for (std::size_t seg : {0ul, 1ul, 37ul}) { mc::arm();
                auto rekey = [&](Peer& p) { for (int i = 0; i < times; ++i) p.act([both, v](Peer& p) { if (v) SSL_key_update(p.s, both ? SSL_KEY_UPDATE_REQUESTED : SSL_KEY_UPDATE_NOT_REQUESTED), SSL_do_handshake(p.s); else { std::size_t w; SSL_write_ex(p.s, "", 0, &w); } }); };
                std::string d = (v ? "rekeyed " : "empty records ") + std::to_string(times) + " times at " + std::to_string(at) + (both ? " both ways" : "") + " segments of " + std::to_string(seg); std::string A = answer("hello, world", 0);
                { auto what = [&] { return std::string(vn[v]) + " client: " + d; }; std::vector<Call> cs = {{}, {POST, pattern(70000, 1)}, {}};
                  CRes o = client(cs, [&](Peer& p) { p.seg = seg; if (at == 0) rekey(p); for (int i = 0; i < 3; ++i) { p.aRq(); if (at == 1) rekey(p); p.say(A.substr(0, 30)); if (at == 2) rekey(p); p.say(A.substr(30)); if (at == 3) rekey(p); } }, v); if (!sane(o, what)) return;
                  for (auto& g : o.g) if (!g.ok || g.body != "hello, world") { mc::fail("rekey", what() + ": returned " + show(g) + " " + o.peers[0]->err); return; } if (!sentWas(o, cs, what)) return; }
                { auto what = [&] { return std::string(vn[v]) + " server: " + d; }; std::string q = rq("/e", "hello");
                  SRes o = server([&](Peer& p) { p.seg = seg; if (at == 0) rekey(p); for (int i = 0; i < 3; ++i) { if (at == 1) rekey(p); p.say(q.substr(0, 20)); if (at == 2) rekey(p); p.say(q.substr(20)); if (at == 3) rekey(p); p.when(aRsp()); } p.bye().ends(FIN); }, v); if (!saneS(o, what)) return;
                  if (handled.size() != 3) { mc::fail("rekey", what() + ": " + std::to_string(handled.size()) + " of 3 requests handled " + o.p->err); return; } } }
            done("rekey");
        });
        // the server asks for a new handshake and only goes on once it stands
        if (v == 0) mc::run_case("renegotiate", [&] {
            for (int at = 0; at < 3; ++at) for (int times = 1; times < 3; ++times) for (std::size_t seg : {0ul, 1ul, 37ul, 1460ul}) for (int reqs = 1; reqs < 4; ++reqs) { mc::arm();
                std::string A = answer("hello, world", 0); std::vector<Call> cs; for (int i = 0; i < reqs; ++i) cs.push_back(i % 2 ? Call{POST, pattern(40000, 1)} : Call{}); int stood = 0;
                auto what = [&] { return std::string(vn[v]) + " client: new handshake asked for at " + std::to_string(at) + " " + std::to_string(times) + " times in " + std::to_string(reqs) + " exchanges, segments of " + std::to_string(seg); };
                auto renew = [&](Peer& p) { for (int i = 0; i < times; ++i) { auto fin = std::make_shared<std::string>(); p.act([fin](Peer& p) { char b[64]; fin->assign(b, SSL_get_peer_finished(p.s, b, sizeof b)); SSL_renegotiate(p.s); SSL_do_handshake(p.s); }).when([fin, &stood](Peer& p) { char b[64]; if (SSL_renegotiate_pending(p.s) || !SSL_is_init_finished(p.s) || std::string(b, SSL_get_peer_finished(p.s, b, sizeof b)) == *fin) return false; ++stood; return true; }); } };
                CRes o = client(cs, [&](Peer& p) { p.seg = seg; for (int i = 0; i < reqs; ++i) { p.aRq(); if (at == 0) renew(p); p.say(A.substr(0, 45)); if (at == 1) renew(p); p.say(A.substr(45)); if (at == 2 && i + 1 < reqs) renew(p); } }, v); if (!sane(o, what)) return;
                if (at == 2) continue;   // the client is not reading between two exchanges: it may fail the next one, not more
                for (auto& g : o.g) if (!g.ok || g.body != "hello, world") { mc::fail("renegotiate", what() + ": returned " + show(g) + " " + o.peers[0]->err); return; }
                if (stood != reqs * times) { mc::fail("renegotiate", what() + ": " + std::to_string(stood) + " handshakes"); return; } if (!sentWas(o, cs, what)) return; }
            done("renegotiate");
        });
    }
    // the plain transfer calls of the TLS transport
    for (int v = 0; v < 2; ++v) mc::run_case("io/" + std::to_string(v), [&] {
        for (std::size_t n : sizes) for (std::size_t rec : {16384ul, 1000ul}) for (std::size_t seg : {0ul, 1460ul, 16384ul}) for (int timed = 0; timed < 2; ++timed) { mc::arm(); std::string b = pattern(n, (unsigned)n), got(n, 0), tail; int last = -9;
            auto what = [&] { return std::string(vn[v]) + " transport echoing " + std::to_string(n) + " bytes in records of " + std::to_string(rec) + " segments of " + std::to_string(seg); };
            ++runs; mc::transition(); sim::reset(nullptr); auto& w = sim::W(); w.maxEvents = 2000000; auto c = sim::newConn(); auto p = attach(*c, cli[v], false); p->c = c.get(); p->rec = rec; p->seg = seg; p->say(b).when([n](Peer& p) { return p.got.size() >= n + 4; }).say("end").bye().ends(FIN); sim::pump(*c); std::string run;
            try { EventLoop loop; auto main = [&]() -> Task<> { HttpsIO io{c->fd, loop}; std::exception_ptr ex;
                    try { io.initSslBio(SslContext::SslType::Server); co_await io.initSsl<Timeout30>(true); co_await io.fullyRecv(std::span<char>{got});
                        if (timed) { co_await io.sendLinkTimeout<Timeout30>(std::span<char const>{got}); co_await io.sendLinkTimeout<Timeout30>(std::span<char const>{}); co_await io.sendLinkTimeout<Timeout30>(std::span<char const>{"done", 4}); } else { co_await io.fullySend(std::span<char const>{got}); co_await io.fullySend(std::span<char const>{}); co_await io.fullySend(std::span<char const>{"done", 4}); }
                        char t[100000]; while ((last = co_await io.recv(std::span<char>{t, timed ? 2ul : sizeof t})) > 0) tail.append(t, (std::size_t)last); } catch (...) { ex = std::current_exception(); }
                    co_await io.close(); if (ex) std::rethrow_exception(ex); };
                auto r = loop.trySync(main()); if (!r.isVal()) try { r.rethrow(); } catch (std::exception& e) { run = e.what(); } } catch (sim::Quiet&) { run = "it never ends"; } catch (sim::Runaway&) { run = "it loops without end"; }
            c->react = {}; ERR_clear_error();
            if (!run.empty()) { mc::fail("io", what() + ": " + run); return; }
            if (got != b || p->got != b + "done" || tail != "end" || last != 0) { mc::fail("io", what() + ": received " + std::to_string(got == b) + ", the peer received " + std::to_string(p->got.size()) + " bytes, then '" + mc::esc(tail, 40) + "' and " + std::to_string(last)); return; } }
        done("io");
    });
    // through a proxy: TLS begins once the tunnel stands, and only then
    mc::run_case("proxy", [&] {
        for (int v = 0; v < 2; ++v) for (std::size_t seg : {0ul, 1ul, 7ul}) {
            if (!viaProxy(TS{}, "socks5://px:1", {{3, "\5\0"s}, {11, "\5\0\0\1\1\2\3\4\5\6"s}}, true, seg, v) || !viaProxy(TS{}, "socks5://px:1", {{3, "\5\0"s}, {11, "\5\1\0\1\1\2\3\4\5\6"s}}, false, seg, v)) return;
            if (!viaProxy(TH{}, "http://px:1", {{0, "HTTP/1.1 200 OK\r\n\r\n"}}, true, seg, v) || !viaProxy(TH{}, "http://px:1", {{0, "HTTP/1.1 403 No\r\n\r\n"}}, false, seg, v)) return; }
        done("proxy");
    });
    // not TLS at all
    mc::run_case("nontls", [&] {
        std::vector<std::string> junk = {"GET /e HTTP/1.1\r\nHost: h\r\n\r\n", "HTTP/1.1 400 Bad\r\nContent-Length: 0\r\n\r\n", "\r\n\r\n", std::string(100, '\0'), std::string(100, '\xff'), "\x16\x03\x01\xff\xff"s + std::string(70000, 'x'), "\x16\x03\x01\x00\x00"s, "\x15\x03\x01\x00\x02\x02\x28"s, "\x17\x03\x03\x00\x05hello"s, "\x16\x03\x01\x00\x04\x01\x00\x00\x00"s, std::string(200000, 'z'), "SSH-2.0-x\r\n"};
        for (auto& j : junk) for (std::size_t cut : {0ul, 1ul, 3ul, 5ul}) for (End e : {OPEN, FIN, GONE, RST}) { mc::arm();
            auto raw = [&](sim::Conn& c) { c.cut(j, {cut}); if (e == FIN) c.fin(); else if (e == GONE) c.gone(); else if (e == RST) c.reset(); };
            { auto what = [&] { return "server given " + mc::esc(j, 40) + " cut at " + std::to_string(cut) + " then " + endName[e]; }; SRes o = server({}, 1, nullptr, {}, nullptr, raw); if (!saneS(o, what)) return; if (!handled.empty() || o.raw.find("HTTP/1.1") != npos) { mc::fail("plain", what() + ": a plain request was served"); return; } }
            { auto what = [&] { return "client given " + mc::esc(j, 40) + " cut at " + std::to_string(cut) + " then " + endName[e]; }; CRes o = client({{}}, {}, 1, nullptr, true, "https://h/p", nullptr, raw); if (!sane(o, what)) return; if (o.g.at(0).ok) { mc::fail("plain", what() + ": " + show(o.g[0])); return; }
              for (auto& c : sim::W().all) if (c->out.find("GET ") != npos) { mc::fail("plain", what() + ": the request was sent in the clear"); return; } } }
        done("nontls");
    });
}
// ---------------------------------------------------------------- certificates
static void clientVerifies(Cert const& ca) {
    struct C { std::string name, url; bool ok; std::function<SSL_CTX*(int)> ctx; };
    auto leaf = [&](CertSpec s, Cert const* by) { auto c = std::make_shared<Cert>(makeCert(s, by)); return [c](int v) { return peerCtx(true, v, c.get()); }; };
    static Cert evil = makeCert({"other ca", "", -3600, 86400, true}), twin = makeCert({"vp ca", "", -3600, 86400, true}), mid = makeCert({"mid", "", -3600, 86400, true}, &ca), notca = makeCert({"h", "DNS:h"}, &ca);
    auto chain = [&](CertSpec s, Cert const* by) { auto c = std::make_shared<Cert>(makeCert(s, by)); return [c, by](int v) { auto* x = peerCtx(true, v, c.get()); X509_up_ref(by->x); SSL_CTX_add0_chain_cert(x, by->x); return x; }; };
    std::vector<C> cs = {
        {"a certificate for the host from the trusted authority", "https://h/p", true, leaf({}, &ca)},
        {"through an intermediate authority", "https://h/p", true, chain({}, &mid)},
        {"a certificate for several hosts", "https://h/p", true, leaf({"x", "DNS:a.b,DNS:h,DNS:c"}, &ca)},
        {"a wildcard certificate", "https://w.d.e/p", true, leaf({"x", "DNS:*.d.e"}, &ca)},
        {"a certificate for the address", "https://10.0.0.1/p", true, leaf({"x", "IP:10.0.0.1"}, &ca)},
        {"a self-signed certificate", "https://h/p", false, leaf({}, nullptr)},
        {"a certificate from an unknown authority", "https://h/p", false, leaf({}, &evil)},
        {"a certificate from an authority of the same name", "https://h/p", false, leaf({}, &twin)},
        {"an intermediate that is no authority", "https://h/p", false, chain({}, &notca)},
        {"a certificate from a missing intermediate", "https://h/p", false, leaf({}, &mid)},
        {"an expired certificate", "https://h/p", false, leaf({"h", "DNS:h", -7200, -3600}, &ca)},
        {"a certificate not valid yet", "https://h/p", false, leaf({"h", "DNS:h", 3600, 7200}, &ca)},
        {"a certificate for another host", "https://h/p", false, leaf({"other", "DNS:other"}, &ca)},
        {"a certificate whose host name only begins alike", "https://h/p", false, leaf({"x", "DNS:h.evil"}, &ca)},
        {"a certificate for a parent domain", "https://w.d.e/p", false, leaf({"x", "DNS:d.e"}, &ca)},
        {"a wildcard over two levels", "https://v.w.d.e/p", false, leaf({"x", "DNS:*.d.e"}, &ca)},
        {"a certificate for another address", "https://10.0.0.1/p", false, leaf({"x", "IP:10.0.0.2"}, &ca)},
        {"an address written as a name", "https://10.0.0.1/p", false, leaf({"x", "DNS:10.0.0.1"}, &ca)},
    };
    for (auto& k : cs) mc::run_case("verify/" + k.name, [&] {
        for (int v = 0; v < 2; ++v) for (bool rc : {true, false}) for (std::size_t seg : {0ul, 100ul, 1ul}) { mc::arm();
            auto what = [&] { return std::string(vn[v]) + " client, verifying, given " + k.name + " for " + k.url; };
            auto* ctx = k.ctx(v ? TLS1_3_VERSION : TLS1_2_VERSION); std::string sni; CRes o = client({{}}, [&](Peer& p) { p.seg = seg; p.aRq().say(answer("hello", 0)); }, v, nullptr, rc, k.url, ctx); 
            if (!o.peers.empty()) if (auto* n = SSL_get_servername(o.peers[0]->s, TLSEXT_NAMETYPE_host_name)) sni = n; std::string got = o.peers.empty() ? "" : o.peers[0]->got, err = o.peers.empty() ? "" : o.peers[0]->err; o.peers.clear(); SSL_CTX_free(ctx);
            if (!sane(o, what)) return; auto& g = o.g.at(0);
            if (k.ok != g.ok || (g.ok && g.body != "hello")) { mc::fail(k.ok ? "refused" : "accepted", what() + ": the client returned " + show(g) + " " + err); return; }
            if (!k.ok && !got.empty()) { mc::fail("leaked", what() + ": the server was sent " + mc::esc(got, 100)); return; }
            std::string host = k.url.substr(8, k.url.find('/', 8) - 8); bool ip = host == "10.0.0.1"; if (k.ok && sni != (ip ? "" : host)) { mc::fail("sni", what() + ": the server name asked for is '" + sni + "'"); return; } }
        done(k.ok ? "accepted" : "refused");
    });
}
static void clientVerifiesBehindProxy(Cert const& ca) {
    static Cert forProxy = makeCert({"px", "DNS:px"}, &ca), both = makeCert({"x", "DNS:px,DNS:h"}, &ca), unknown = makeCert({});
    struct C { std::string name; bool ok; Cert* c; };
    for (auto& k : std::vector<C>{{"the host", true, &own}, {"the host and the proxy", true, &both}, {"the proxy", false, &forProxy}, {"the host, self-signed", false, &unknown}}) mc::run_case("verify behind a proxy/" + k.name, [&] {
        for (int v = 0; v < 2; ++v) for (std::size_t seg : {0ul, 7ul}) { auto* ctx = peerCtx(true, v ? TLS1_3_VERSION : TLS1_2_VERSION, k.c);
            bool g = viaProxy(TS{}, "socks5://px:1", {{3, "\5\0"s}, {11, "\5\0\0\1\1\2\3\4\5\6"s}}, true, seg, v, ctx, k.ok) && viaProxy(TH{}, "http://px:1", {{0, "HTTP/1.1 200 OK\r\n\r\n"}}, true, seg, v, ctx, k.ok); SSL_CTX_free(ctx); if (!g) return; }
        done("behind a proxy");
    });
}
static void serverVerifies(Cert const& ca) {
    static Cert evil = makeCert({"other ca", "", -3600, 86400, true}), twin = makeCert({"vp ca", "", -3600, 86400, true});
    struct C { std::string name; bool ok; Cert* c; };
    std::vector<C> cs = {{"a certificate from the trusted authority", true, new Cert(makeCert({"user", ""}, &ca))}, {"no certificate", false, nullptr}, {"a self-signed certificate", false, new Cert(makeCert({"user", ""}))}, {"a certificate from an unknown authority", false, new Cert(makeCert({"user", ""}, &evil))}, {"a certificate from an authority of the same name", false, new Cert(makeCert({"user", ""}, &twin))}, {"an expired certificate", false, new Cert(makeCert({"user", "", -7200, -3600}, &ca))}};
    for (auto& k : cs) mc::run_case("client certificate/" + k.name, [&] {
        for (int v = 0; v < 2; ++v) for (std::size_t seg : {0ul, 100ul, 1ul}) { mc::arm();
            auto what = [&] { return std::string(vn[v]) + " server demanding certificates, client with " + k.name; };
            auto* ctx = peerCtx(false, v ? TLS1_3_VERSION : TLS1_2_VERSION, k.c); SRes o = server([&](Peer& p) { p.seg = seg; p.say(rq("/e", "hello")).when(aRsp()).bye().ends(FIN); }, v, nullptr, {}, ctx); std::string got = o.p->got; o.p.reset(); SSL_CTX_free(ctx);
            if (!saneS(o, what)) return;
            if (k.ok != !handled.empty() || (k.ok != (got.find("<POSThello>") != npos))) { mc::fail(k.ok ? "refused" : "accepted", what() + ": " + (handled.empty() ? "the request was not served" : "the request was served")); return; } }
        done(k.ok ? "served" : "refused");
    });
}
void mc_main() {
    Cert ca = makeCert({"vp ca", "", -3600, 86400, true}); savePem(ca, scratch() + "/ca"); ::setenv("SSL_CERT_FILE", (scratch() + "/ca.crt").c_str(), 1); ::setenv("SSL_CERT_DIR", scratch().c_str(), 1);
    own = makeCert({}, &ca); savePem(own, scratch() + "/srv");
    for (int v = 0; v < 2; ++v) { srv[v] = peerCtx(true, v ? TLS1_3_VERSION : TLS1_2_VERSION, &own); cli[v] = peerCtx(false, v ? TLS1_3_VERSION : TLS1_2_VERSION, nullptr); }
    HttpsClient<NoneProxy>::initSsl({PART == 1 ? SslVerifyOption::ClientPeer : SslVerifyOption::None, "", ""});
    SslContext::get().init<SslContext::SslType::Server>({PART == 2 ? SslVerifyOption::ServerPeer : SslVerifyOption::None, scratch() + "/srv.crt", scratch() + "/srv.key"});
    if (PART == 0) dataPart(); else if (PART == 1) clientVerifies(ca), clientVerifiesBehindProxy(ca); else serverVerifies(ca);
}
