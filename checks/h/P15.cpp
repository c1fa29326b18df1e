// P15: requests on one connection are answered in order and in isolation; keep-alive rules and idle timeout.
#include "srv_common.hpp"
using namespace vp;

struct K { std::string name, raw; bool head = false, last = false, none = false; };   // last: the connection closes behind it; none: no response is judged
static std::vector<K> kinds; static std::vector<Rsp> fresh;
static std::string upload() { return scratch() + "/up"; }

static Rt* router() {
    static Rt* r = [] {
        auto* r = new Rt; put(scratch() + "/f", abc(37)); put(scratch() + "/e", "");
        auto all = [&](std::string_view p, auto f) { r->addEndpoint<GET, POST, PUT, HEAD, DEL>(p, f); };
        all("/echo", [](Req& q, Res& s) -> Task<> {
            std::string b = co_await q.template parseBody<Timeout30>(); std::map<std::string, std::string> m; for (auto& [k, v] : q.getHeaders()) m[lower(k)] = v; auto pr = q.getParseQueryParameters(); for (auto& [k, v] : pr) m["?" + k] = v;
            std::string o = std::string(q.getReqType()) + " " + std::string(q.getReqPath()) + " " + std::string(q.getProtocolVersion()) + " {"; for (auto& [k, v] : m) o += k + "=" + v + ";"; o += "}" + b;
            co_await s.setStatusAndContent(Status::CODE_200, o).sendRes(); });
        all("/ign", [](Req&, Res& s) -> Task<> { co_await s.setStatusAndContent(Status::CODE_200, "ignored").sendRes(); });
        all("/empty", [](Req&, Res& s) -> Task<> { co_await s.setResLine(Status::CODE_204).sendRes(); });
        all("/hdr", [](Req&, Res& s) -> Task<> { s.setResLine(Status::CODE_201, "Made").addHeader("X-Extra", "1").addHeader("Location", "/there"); s.setContentType(HttpContentType::Json); co_await s.setBody("{}"s).sendRes(); });
        all("/cf", [](Req&, Res& s) -> Task<> { co_await s.useChunkedEncodingTransferFile(scratch() + "/f"); });
        all("/rg", [](Req& q, Res& s) -> Task<> { co_await s.useRangeTransferFile(q.getRangeRequestView(), scratch() + "/f"); });
        all("/p/{id}/x", [](Req& q, Res& s) -> Task<> { std::string_view a = q.getPathParam(0); std::string o(a); o += "|"; try { o += q.getUniversalWildcardPath(); } catch (std::exception&) { } co_await s.setStatusAndContent(Status::CODE_200, o).sendRes(); });
        all("/w/**", [](Req& q, Res& s) -> Task<> { std::string o = "none"; try { std::string_view a = q.getPathParam(0); o = std::string(a); } catch (std::exception&) { } o += "|"; o += q.getUniversalWildcardPath(); co_await s.setStatusAndContent(Status::CODE_200, o).sendRes(); });
        all("/save", [](Req& q, Res& s) -> Task<> { static int no = 0; auto f = upload() + std::to_string(no++ % 8); co_await q.template saveToFile<Timeout30>(f); co_await s.setStatusAndContent(Status::CODE_200, get(f)).sendRes(); });
        all("/sse", [](Req&, Res& s) -> Task<> { auto st = co_await s.makeSseStream(); SseEvent e; e.data = "x"; co_await st.push(e); });
        all("/throw", [](Req& q, Res&) -> Task<> { co_await q.template parseBody<Timeout30>(); throw std::runtime_error("handler"); });
        all("/cookie", [](Req& q, Res& s) -> Task<> { auto it = q.getHeaders().find("cookie"); s.addHeader("Set-Cookie", it == q.getHeaders().end() ? "none"s : it->second); co_await s.setStatusAndContent(Status::CODE_200, "c").sendRes(); });
        return r;
    }();
    return r;
}
static void mkKinds() {
    auto add = [&](std::string n, std::string raw, bool head = false, bool last = false, bool none = false) { kinds.push_back({n, raw, head, last, none}); };
    add("get", "GET /echo?x=1&y HTTP/1.1\r\nHost: h\r\nX-Only: here\r\n\r\n");
    add("bare", "GET /echo HTTP/1.1\r\n\r\n");
    add("length", "POST /echo HTTP/1.1\r\nContent-Length: 11\r\n\r\nhello\r\n\r\n\0\r"s.substr(0, 0) + "POST /echo HTTP/1.1\r\nContent-Length: 11\r\n\r\nhello\r\n\r\n.."s);
    add("chunked", "POST /echo HTTP/1.1\r\nTransfer-Encoding: chunked\r\nCookie: a\r\n\r\n5\r\nhello\r\nc;e=1\r\n, chunked...\r\n0\r\nT: 1\r\n\r\n");
    add("unread length", "POST /ign HTTP/1.1\r\nContent-Length: 26\r\n\r\nGET /echo HTTP/1.1\r\nA: b\r\n");
    add("unread chunked", "POST /ign HTTP/1.1\r\nTransfer-Encoding: chunked\r\n\r\n5\r\nGET /\r\n1\r\n \r\n0\r\n\r\n");
    add("unknown", "GET /nothere?a HTTP/1.1\r\nHost: h\r\n\r\n");
    add("unknown with body", "POST /nothere HTTP/1.1\r\nContent-Length: 7\r\n\r\nGET / H");
    add("head", "HEAD /echo HTTP/1.1\r\nHost: h\r\n\r\n", true);
    add("file", "GET /cf HTTP/1.1\r\n\r\n");
    add("head file", "HEAD /cf HTTP/1.1\r\n\r\n", true);
    add("range", "GET /rg HTTP/1.1\r\nRange: bytes=3-9\r\n\r\n");
    add("ranges", "GET /rg HTTP/1.1\r\nRange: bytes=3-9,20-\r\n\r\n");
    add("bad range", "GET /rg HTTP/1.1\r\nRange: bytes=99-\r\n\r\n");
    add("param", "GET /p/17/x HTTP/1.1\r\n\r\n");
    add("wildcard", "DELETE /w/a/b HTTP/1.1\r\n\r\n");
    add("save", "PUT /save HTTP/1.1\r\nContent-Length: 4\r\n\r\nfile");
    add("save chunked", "PUT /save HTTP/1.1\r\nTransfer-Encoding: chunked\r\n\r\n2\r\nfi\r\n0\r\n\r\n");
    add("headers", "POST /hdr HTTP/1.1\r\nContent-Length: 0\r\n\r\n");
    add("no content", "GET /empty HTTP/1.1\r\n\r\n");
    add("cookie", "GET /cookie HTTP/1.1\r\nCookie: k=v\r\nConnection: keep-alive\r\n\r\n");
    add("old keep", "GET /echo HTTP/1.0\r\nConnection: keep-alive\r\n\r\n");
    add("close", "GET /echo HTTP/1.1\r\nConnection: close\r\n\r\n", false, true);
    add("old", "GET /echo HTTP/1.0\r\n\r\n", false, true);
    add("events", "GET /sse HTTP/1.1\r\n\r\n", false, true);
    add("throw", "POST /throw HTTP/1.1\r\nContent-Length: 1\r\n\r\nx", false, true, true);
}
static uint64_t runs;
enum Del { SEQ, ONE, EACH, BYTES, SHIFT };
static char const* delName[] = {"one after the other", "pipelined in one piece", "pipelined in one piece each", "pipelined byte by byte", "pipelined across the boundaries"};
struct R { std::shared_ptr<sim::Conn> c; std::string bad; };

static bool check(sim::Conn& c, std::vector<int> const& q, std::function<std::string()> what) {
    std::size_t p = 0;
    for (std::size_t i = 0; i < q.size(); ++i) {
        auto& k = kinds[(std::size_t)q[i]];
        if (k.none) { if (p != c.out.size()) { mc::fail("extra", what() + ": output behind the last response: " + mc::esc(c.out.substr(p), 200)); return false; } break; }
        Rsp r; std::string why; auto g = readRsp(c.out, p, k.head, r, why);
        if (g != OK) { mc::fail("missing", what() + ": response " + std::to_string(i) + " (" + k.name + ") is missing or malformed " + why + ": " + mc::esc(c.out.substr(p), 200)); return false; }
        if (!same(r, fresh[(std::size_t)q[i]])) { mc::fail("differs", what() + ": response " + std::to_string(i) + " (" + k.name + ") is " + show(r) + ", on a fresh connection " + show(fresh[(std::size_t)q[i]])); return false; }
        if (k.last) break;
    }
    if (p != c.out.size()) { mc::fail("extra", what() + ": output behind the last response: " + mc::esc(c.out.substr(p), 200)); return false; }
    if (c.closes != 1) { mc::fail("not-closed", what() + ": the connection was closed " + std::to_string(c.closes) + " times"); return false; }
    if (sim::W().badClose || sim::W().openReal) { mc::fail("files", what() + ": descriptors are not handled properly"); return false; }
    return true;
}
static void script(sim::Conn& c, std::vector<int> const& q, Del d) {
    std::string all; for (int k : q) all += kinds[(std::size_t)k].raw;
    if (d == ONE) c.data(all);
    else if (d == BYTES) for (char ch : all) c.data({ch});
    else if (d == EACH) for (int k : q) c.data(kinds[(std::size_t)k].raw);
    else if (d == SHIFT) { std::vector<std::size_t> cuts; std::size_t p = 0; for (int k : q) { p += kinds[(std::size_t)k].raw.size(); cuts.push_back(p - 3); cuts.push_back(p + 9); } c.cut(all, cuts); }
    else for (std::size_t i = 0; i < q.size(); ++i) {
        c.data(kinds[(std::size_t)q[i]].raw); bool head = kinds[(std::size_t)q[i]].head;
        c.wait([head](sim::Conn& c) { if (c.closes) return true; Rsp r; std::string why; std::size_t p = c.seen; if (readRsp(c.out, p, head, r, why) == OK && !r.untilClose) { c.seen = p; return true; } return false; });
        c.pause(sim::ms);
    }
}
static bool once(std::vector<int> const& q, Del d, mc::Chooser* ch = nullptr) {
    ++runs; mc::transition();
    auto what = [&] { std::string s; for (int k : q) s += (s.empty() ? "" : ", ") + kinds[(std::size_t)k].name; return "[" + s + "] " + delName[d] + (ch ? " choices " + ch->str() : ""); };
    try { auto c = serve(ch, *router(), [&](sim::Conn& c) { script(c, q, d); c.fin(); }, [&] { if (ch) sim::W().chRecv = sim::W().chFile = true; }); return check(*c, q, what); }
    catch (sim::Quiet&) { mc::fail("stuck", what() + ": a request is never answered"); }
    catch (sim::Runaway&) { mc::fail("livelock", what() + ": the server loops without end"); }
    return false;
}

// two connections served by one loop, any order of completions
static bool two(mc::Chooser& ch, std::vector<int> const& a, std::vector<int> const& b) {
    ++runs; mc::transition(); sim::reset(&ch); auto& w = sim::W(); w.chOrder = true;
    auto what = [&](int i) { std::string s = "two connections ["; for (int k : a) s += kinds[(std::size_t)k].name + " "; s += "] ["; for (int k : b) s += kinds[(std::size_t)k].name + " "; return s + "] connection " + std::to_string(i) + " choices " + ch.str(); };
    auto x = sim::newConn(), y = sim::newConn(); script(*x, a, SEQ); script(*y, b, SEQ); x->fin(); y->fin(); sim::pumpAll();
    std::atomic_bool run{true};
    try { EventLoop loop; for (auto& c : {x, y}) ConnectionHandler<HttpIO>::template start<Timeout30>(c->fd, run, *router(), loop).detach(); loop.run(); }
    catch (sim::Quiet&) { mc::fail("stuck", what(0) + ": a request is never answered"); return false; } catch (sim::Runaway&) { mc::fail("livelock", what(0)); return false; }
    return check(*x, a, [&] { return what(0); }) && check(*y, b, [&] { return what(1); });
}

void mc_main() {
    bool th = mc::thorough(); mkKinds(); int n = (int)kinds.size();
    for (int i = 0; i < n; ++i) {
        auto& k = kinds[(std::size_t)i]; Rsp r; std::string why; std::size_t p = 0;
        auto c = serve(nullptr, *router(), [&](sim::Conn& c) { c.data(k.raw).fin(); });
        if (!k.none && (readRsp(c->out, p, k.head, r, why) != OK || p != c->out.size())) mc::run_case("fresh/" + k.name, [&] { mc::fail("fresh", k.name + " alone is answered by " + mc::esc(c->out, 200)); });
        fresh.push_back(r);
    }
    // what the responses on fresh connections are
    mc::run_case("fresh", [&] {
        auto want = [&](std::string nm, int st, std::string body) { for (int i = 0; i < n; ++i) if (kinds[(std::size_t)i].name == nm && (fresh[(std::size_t)i].status != st || fresh[(std::size_t)i].body != body)) mc::fail("fresh", nm + " alone is answered by " + show(fresh[(std::size_t)i]) + ", expected " + std::to_string(st) + " " + mc::esc(body)); };
        want("get", 200, "GET /echo?x=1&y HTTP/1.1 {?x=1;?y=;host=h;x-only=here;}"); want("bare", 200, "GET /echo HTTP/1.1 {}"); want("length", 200, "POST /echo HTTP/1.1 {content-length=11;}hello\r\n\r\n.."); want("chunked", 200, "POST /echo HTTP/1.1 {cookie=a;transfer-encoding=chunked;}hello, chunked...");
        want("unread length", 200, "ignored"); want("unread chunked", 200, "ignored"); want("head", 200, ""); want("file", 200, abc(37)); want("range", 206, abc(37).substr(3, 7)); want("bad range", 416, ""); want("save", 200, "file"); want("save chunked", 200, "fi"); want("headers", 201, "{}"); want("old keep", 200, "GET /echo HTTP/1.0 {connection=keep-alive;}"); want("close", 200, "GET /echo HTTP/1.1 {connection=close;}");
        for (int i = 0; i < n; ++i) if (kinds[(std::size_t)i].name.starts_with("unknown") && fresh[(std::size_t)i].status != 404) mc::fail("fresh", "an unknown path is answered by " + show(fresh[(std::size_t)i]));
        mc::state((uint64_t)n);
    });
    for (int a = 0; a < n; ++a) for (int b = 0; b < n; ++b) mc::run_case("seq/" + kinds[(std::size_t)a].name + "/" + kinds[(std::size_t)b].name, [&] {
        for (int d = 0; d < 5; ++d) { if (!once({a}, (Del)d) || !once({a, b}, (Del)d)) return; }
        if (!kinds[(std::size_t)a].last) for (int c = 0; c < n; ++c) for (int d = 0; d < 5; ++d) {
            mc::arm(); if (!once({a, b, c}, (Del)d)) return;
            if (th && !kinds[(std::size_t)b].last && d != BYTES) for (int e = 0; e < n; ++e) if (!once({a, b, c, e}, (Del)d)) return;
        }
        mc::state(runs); runs = 0; mc::outcome(kinds[(std::size_t)a].name + kinds[(std::size_t)b].name);
    });
    for (int a = 0; a < n; ++a) if (!kinds[(std::size_t)a].last) mc::run_case("short/" + kinds[(std::size_t)a].name, [&] {
        for (int b = 0; b < n; ++b) for (int d : {SEQ, ONE, SHIFT}) { mc::arm(); mc::sub_explore("short", th ? 2 : 1, [&](mc::Chooser& c) { once({a, b, 0}, (Del)d, &c); }, 100000); }
        mc::state(runs); runs = 0;
    });
    for (int a = 0; a < n; ++a) mc::run_case("two/" + kinds[(std::size_t)a].name, [&] {
        for (int b = a; b < n; ++b) { mc::arm(); mc::sub_explore("two", th ? 3 : 2, [&](mc::Chooser& c) { two(c, {a, 1}, {b, 20}); }, 200000); }
        mc::state(runs); runs = 0;
    });
    // keep the connection open exactly when asked to
    struct Cn { std::string h; int f; };   // f: 0 no say, 1 keep-alive, 2 close
    std::vector<Cn> cs = {{"", 0}, {"Connection: close\r\n", 2}, {"connection: Close\r\n", 2}, {"CONNECTION:CLOSE\r\n", 2}, {"Connection: keep-alive\r\n", 1}, {"Connection: Keep-Alive\r\n", 1}, {"connection:  KEEP-ALIVE \r\n", 1}, {"Connection: keep-alive, close\r\n", 2}, {"Connection: close , x\r\n", 2}, {"Connection: TE,keep-alive\r\n", 1}, {"Connection: x-closed\r\n", 0}, {"Connection: TE\r\n", 0}, {"Connection: not-close, upgrade\r\n", 0}, {"Keep-Alive: timeout=5\r\n", 0}, {"Proxy-Connection: close\r\n", 0}, {"X-Close: close\r\n", 0}};
    struct Vs { std::string v; bool keep; }; std::vector<Vs> vs = {{"HTTP/1.1", true}, {"HTTP/1.0", false}};
    std::vector<std::pair<std::string, std::string>> ms = {{"GET /ign", ""}, {"POST /echo", "Content-Length: 3\r\n"}, {"POST /ign", "Content-Length: 3\r\n"}, {"GET /nothere", ""}, {"GET /rg", "Range: bytes=1-2\r\n"}, {"HEAD /ign", ""}};
    // every list of up to three connection options
    std::vector<std::string> os = {"close", "keep-alive", "TE", "CLOSE", "Keep-Alive", "closed", "x-close", ""};
    for (auto& v : vs) for (std::size_t first = 0; first < os.size(); ++first) mc::run_case("options/" + v.v + "/" + std::to_string(first), [&] {
        std::size_t N = os.size();
        for (std::string sep : {",", ", ", " , "}) for (std::size_t n = 0; n < 1 + N + N * N; ++n) {
            std::vector<std::string> l{os[first]}; if (n > N) { l.push_back(os[(n - 1 - N) / N]); l.push_back(os[(n - 1 - N) % N]); } else if (n) l.push_back(os[n - 1]);
            bool close = false, ka = false; std::string h; for (std::size_t i = 0; i < l.size(); ++i) { h += (i ? sep : "") + l[i]; close |= ieq(l[i], "close"); ka |= ieq(l[i], "keep-alive"); }
            bool keep = close ? false : ka ? true : v.keep; ++runs; mc::transition(); mc::arm();
            auto what = [&] { return v.v + " with Connection: '" + h + "'"; };
            try {
                auto c = serve(nullptr, *router(), [&](sim::Conn& c) { c.data("GET /ign " + v.v + "\r\nHost: h\r\nConnection: " + h + "\r\n\r\nGET /echo HTTP/1.1\r\nConnection: close\r\n\r\n"); });
                std::size_t p = 0; Rsp r; std::string why; if (readRsp(c->out, p, false, r, why) != OK) { mc::fail("keep", what() + ": no answer"); return; }
                bool more = readRsp(c->out, p, false, r, why) == OK; if (more != keep || c->closes != 1) { mc::fail(keep ? "closed-early" : "kept-open", what() + ": the connection " + (keep ? "was closed although it should stay open" : "stayed open although it should close")); return; }
            } catch (sim::Quiet&) { mc::fail("stuck", what()); return; } catch (sim::Runaway&) { mc::fail("livelock", what()); return; }
        }
        mc::state(runs); runs = 0;
    });
    for (auto& v : vs) for (auto& m : ms) mc::run_case("keep/" + v.v + "/" + m.first, [&] {
        for (auto& c1 : cs) for (int split = 0; split < 3; ++split) for (int before = 0; before < 2; ++before) {
            ++runs; mc::transition(); mc::arm();
            std::string body = m.second.starts_with("Content") ? "abc" : "", rq = m.first + " " + v.v + "\r\nHost: h\r\n" + c1.h + m.second + "\r\n" + body, nx = "GET /echo HTTP/1.1\r\nConnection: close\r\n\r\n", pre = before ? "GET /ign HTTP/1.1\r\n\r\n" : "";
            bool keep = c1.f == 2 ? false : c1.f == 1 ? true : v.keep;
            auto what = [&] { return mc::esc(pre + rq, 200) + " followed by another request " + (split == 0 ? "at once" : split == 1 ? "in a piece of its own" : "a millisecond later"); };
            try {
                auto c = serve(nullptr, *router(), [&](sim::Conn& c) { if (split == 0) c.data(pre + rq + nx); else { c.data(pre + rq); if (split == 2) c.pause(sim::ms); c.data(nx); } });
                std::size_t p = 0; Rsp r; std::string why; if (before) readRsp(c->out, p, false, r, why);
                if (readRsp(c->out, p, m.first.starts_with("HEAD"), r, why) != OK) { mc::fail("missing", what() + ": no response but " + mc::esc(c->out, 200)); return; }
                bool more = p < c->out.size();
                if (more != keep) { mc::fail(keep ? "closed-early" : "kept-open", what() + ": the connection " + (keep ? "was closed although it should stay open" : "stayed open although it should close")); return; }
                if (c->closes != 1) { mc::fail("not-closed", what()); return; }
            } catch (sim::Quiet&) { mc::fail("stuck", what()); return; } catch (sim::Runaway&) { mc::fail("livelock", what()); return; }
        }
        mc::state(runs); runs = 0;
    });
    // idle timeout (30 s): measured from the last byte or response; gaps below it do not matter
    for (int a = 0; a < n; ++a) if (!kinds[(std::size_t)a].last) mc::run_case("idle/" + kinds[(std::size_t)a].name, [&] {
        auto& k = kinds[(std::size_t)a];
        for (long long gap : {0LL, 1LL, 29999LL, 30001LL, 45000LL}) for (int reps : {1, 2, 4}) {
            ++runs; mc::transition(); mc::arm(); std::vector<int> q; long long t = 0; bool dead = false;
            for (int i = 0; i < reps; ++i) { if (i) { if (gap > 30000) dead = true; if (!dead) t += gap; } if (!dead) q.push_back(a); }
            auto what = [&] { return std::to_string(reps) + " times (" + k.name + ") with gaps of " + std::to_string(gap) + " ms, then silence"; };
            try {
                auto c = serve(nullptr, *router(), [&](sim::Conn& c) { for (int i = 0; i < reps; ++i) { if (i) c.pause(gap * sim::ms); c.data(k.raw); } });
                if (!check(*c, q, what)) return;
                long long at = (c->closedAt - sim::kEpoch) / sim::ms; if (at < t + 30000 || at > t + 30100) { mc::fail("idle", what() + ": closed " + std::to_string(at - t) + " ms after the last request"); return; }
            } catch (sim::Quiet&) { mc::fail("idle", what() + ": the silent connection is never closed"); return; } catch (sim::Runaway&) { mc::fail("livelock", what()); return; }
        }
        // silence within a request (its head; its body where the handler reads it)
        std::size_t H = k.raw.find("\r\n\r\n") + 4; bool reads = k.raw.find("/ign") == std::string::npos && k.raw.find("/nothere") == std::string::npos;
        for (std::size_t i = 0; i < k.raw.size(); ++i) { if (i >= H && !reads) break; for (long long gap : {0LL, 29000LL}) {
            ++runs; mc::transition(); auto what = [&] { return "only " + std::to_string(i) + " bytes of (" + k.name + "), then silence"; };
            try {
                auto c = serve(nullptr, *router(), [&](sim::Conn& c) { c.data(k.raw.substr(0, i / 2)).pause(gap * sim::ms).data(k.raw.substr(i / 2, i - i / 2)); });
                long long t = i - i / 2 ? gap : 0, at = (c->closedAt - sim::kEpoch) / sim::ms; if (c->closes != 1 || !c->out.empty()) { mc::fail("idle", what() + ": closed " + std::to_string(c->closes) + " times, output " + mc::esc(c->out, 100)); return; }
                if (at < t + 30000 || at > t + 30600) { mc::fail("idle", what() + ": closed " + std::to_string(at - t) + " ms after the last byte"); return; }
            } catch (sim::Quiet&) { mc::fail("idle", what() + ": the connection is never closed"); return; } catch (sim::Runaway&) { mc::fail("livelock", what()); return; }
        } }
        mc::state(runs); runs = 0;
    });
}
