// P16: every response on the wire is well framed and complete, whatever the kernel accepts per write.
#include "srv_common.hpp"
using namespace vp;

struct Want { int status = 200; std::string reason, body; std::map<std::string, std::string> h; bool untilClose = false; };
struct Case { std::string name; std::function<Task<>(Req&, Res&)> f; Want w; bool close = false; };
static Case const* cur[4]; static int curIdx;
static uint64_t runs;
static Rt* router() {
    static Rt* r = [] {
        auto* r = new Rt;
        r->addEndpoint<GET, POST, HEAD>("/{i}", [](Req& q, Res& s) -> Task<> { std::string_view i = q.getPathParam(0); co_await cur[i[0] - '0']->f(q, s); });
        return r;
    }();
    return r;
}
static std::string req(int i, bool head, bool close) { return std::string(head ? "HEAD /" : "GET /") + std::to_string(i) + " HTTP/1.1\r\nHost: h\r\n" + (close ? "Connection: close\r\n" : "") + "\r\n"; }

static bool judge(Case const& k, Rsp const& r, bool head, std::function<std::string()> const& what) {
    auto bad = [&](std::string k, std::string m) { mc::fail(k, what() + ": " + m); return false; };
    if (r.status != k.w.status) return bad("status", "status " + std::to_string(r.status) + ", handler set " + std::to_string(k.w.status));
    if (!k.w.reason.empty() && r.reason != k.w.reason) return bad("reason", "reason '" + mc::esc(r.reason) + "', handler set '" + k.w.reason + "'");
    for (auto& [n, v] : k.w.h) if (r.count(n) != 1 || r.get(n) != v) return bad("header", "header " + n + " is '" + mc::esc(r.get(n)) + "' (" + std::to_string(r.count(n)) + " times), handler set '" + mc::esc(v) + "'");
    for (auto& [n, v] : r.h) { auto l = lower(n); if (!k.w.h.count(l) && l != "connection" && l != "server" && l != "content-length" && l != "transfer-encoding" && l != "content-type" && l != "accept-ranges") return bad("header", "header '" + mc::esc(n + ": " + v) + "' nobody set"); }
    if (head) { if (!r.body.empty()) return bad("head-body", "a HEAD response has a body"); }
    else if (r.body != k.w.body) return bad("body", "body of " + std::to_string(r.body.size()) + " bytes " + mc::esc(r.body, 100) + ", handler set " + std::to_string(k.w.body.size()) + " bytes " + mc::esc(k.w.body, 100));
    if (r.untilClose != k.w.untilClose && !(head || r.status == 204 || r.status == 304)) return bad("framing", r.untilClose ? "the end of the body is not marked" : "unexpected framing");
    if (!head && r.count("content-length") && r.status != 204 && r.status != 304 && r.get("content-length") != std::to_string(k.w.body.size())) return bad("length", "Content-Length " + r.get("content-length"));
    return true;
}
// a clean run: every response judged; returns the whole output
static std::optional<std::string> clean(std::vector<Case const*> const& cs, bool head, std::string const& tag) {
    ++runs; mc::transition();
    std::string in; for (std::size_t i = 0; i < cs.size(); ++i) { cur[i] = cs[i]; in += req((int)i, head, i + 1 == cs.size()); }
    auto what = [&] { std::string s = tag; for (auto* c : cs) s += " (" + c->name + ")"; return s + (head ? " HEAD" : ""); };
    try {
        auto c = serve(nullptr, *router(), [&](sim::Conn& c) { c.data(in); });
        std::size_t p = 0;
        for (auto* k : cs) { Rsp r; std::string why; auto g = readRsp(c->out, p, head, r, why); if (g != OK) { mc::fail("malformed", what() + ": " + (g == MORE ? "incomplete response " : "malformed response: " + why + " ") + mc::esc(c->out.substr(p), 300)); return {}; } if (!judge(*k, r, head, what)) return {}; }
        if (p != c->out.size()) { mc::fail("stray", what() + ": bytes behind the response: " + mc::esc(c->out.substr(p), 100)); return {}; }
        if (c->closes != 1 || sim::W().badClose || sim::W().openReal) { mc::fail("not-closed", what() + ": descriptors are not handled properly"); return {}; }
        return c->out;
    } catch (sim::Quiet&) { mc::fail("stuck", what() + ": the response is never completed"); } catch (sim::Runaway&) { mc::fail("livelock", what()); }
    return {};
}
// a run in which the kernel takes fewer bytes, and one write may fail
static bool hard(std::vector<Case const*> const& cs, bool head, std::string const& E, mc::Chooser* ch, int failAt, int err, std::string const& tag, bool file = false) {
    ++runs; mc::transition();
    std::string in; for (std::size_t i = 0; i < cs.size(); ++i) { cur[i] = cs[i]; in += req((int)i, head, i + 1 == cs.size()); }
    auto what = [&] { std::string s = tag; for (auto* c : cs) s += " (" + c->name + ")"; return s + (head ? " HEAD" : "") + (ch ? " transfers " + ch->str() : "") + (failAt >= 0 ? " write " + std::to_string(failAt) + " fails: " + std::strerror(err) : ""); };
    try {
        int n = 0; bool failed = false;
        auto c = serve(ch, *router(), [&](sim::Conn& c) { c.data(in); }, [&] { auto& w = sim::W(); w.chSend = ch && !file; w.chFile = ch && file; w.fault = [&](sim::Op const& o) { if (o.opc == IORING_OP_SEND && n++ == failAt) { failed = true; return -err; } return 0; }; });
        if (failed || failAt < 0) {
            bool pre = E.compare(0, c->out.size(), c->out) == 0;
            if (!pre) { std::size_t i = 0; while (i < c->out.size() && i < E.size() && c->out[i] == E[i]) ++i; mc::fail("corrupted", what() + ": byte " + std::to_string(i) + " of " + std::to_string(E.size()) + " sent is wrong: " + mc::esc(c->out.substr(i > 10 ? i - 10 : 0, 60))); return false; }
            if (failAt < 0 && c->out.size() != E.size()) { mc::fail("incomplete", what() + ": " + std::to_string(c->out.size()) + " of " + std::to_string(E.size()) + " bytes were sent"); return false; }
        }
        if (c->closes != 1 || sim::W().badClose || sim::W().openReal) { mc::fail("not-closed", what() + ": the connection was closed " + std::to_string(c->closes) + " times, open files " + std::to_string(sim::W().openReal)); return false; }
    } catch (sim::Quiet&) { mc::fail("stuck", what() + ": the response is never completed"); return false; } catch (sim::Runaway&) { mc::fail("livelock", what()); return false; }
    return true;
}
static Case fixed(std::string name, Status st, std::string reason, std::string body, std::vector<std::pair<std::string, std::string>> h, int how) {
    Case k; k.name = name; k.w.status = (int)st; k.w.reason = reason; k.w.body = body; for (auto& [a, b] : h) k.w.h[lower(a)] = b;
    if (how == 0) k.f = [=](Req&, Res& s) -> Task<> { s.setResLine(st, reason); for (auto& [a, b] : h) s.addHeader(a, b); co_await s.setBody(std::string(body)).sendRes(); };
    if (how == 1) k.f = [=](Req&, Res& s) -> Task<> { co_await s.setStatusAndContent(st, body).sendRes(); };
    if (how == 2) k.f = [=](Req&, Res& s) -> Task<> { for (auto& [a, b] : h) s.addHeader(a, b); s.setBody(std::string(body)).setContentType(HttpContentType::Json).setResLine(st, reason); co_await s.sendRes(); };
    if (how == 3) k.f = [=](Req& q, Res& s) -> Task<> { s.setResLine(st, reason); for (auto& [a, b] : h) s.addHeader(a, b); std::string part = body.substr(0, body.size() / 2); s.setBody(part + body.substr(body.size() / 2)); co_await q.template parseBody<Timeout30>(); co_await s.sendRes(); };
    return k;
}
static Case fileCase(std::string name, std::size_t n, bool ranged, std::string ext) {
    Case k; k.name = name; std::string path = scratch() + "/f" + std::to_string(n) + ext; put(path, pattern(n, (unsigned)n)); k.w.body = pattern(n, (unsigned)n);
    if (ranged) k.f = [=](Req& q, Res& s) -> Task<> { co_await s.useRangeTransferFile(q.getRangeRequestView(), path); };
    else k.f = [=](Req&, Res& s) -> Task<> { co_await s.useChunkedEncodingTransferFile(path); };
    return k;
}
static Case sse(std::string name, std::vector<SseEvent> ev, std::string body) {
    Case k; k.name = name; k.w.body = body; k.w.untilClose = true; k.close = true;
    k.f = [=](Req&, Res& s) -> Task<> { auto st = co_await s.makeSseStream(); for (auto e : ev) { if (!e) co_await st.ping(); else co_await st.push(e); } };
    return k;
}

void mc_main() {
    bool th = mc::thorough();
    using H = std::vector<std::pair<std::string, std::string>>;
    std::vector<Status> sts = {Status::CODE_200, Status::CODE_201, Status::CODE_202, Status::CODE_301, Status::CODE_302, Status::CODE_400, Status::CODE_401, Status::CODE_403, Status::CODE_404, Status::CODE_405, Status::CODE_409, Status::CODE_410, Status::CODE_413, Status::CODE_416, Status::CODE_500, Status::CODE_501, Status::CODE_502, Status::CODE_503, Status::CODE_504, Status::CODE_505};
    std::vector<H> hs = {{}, {{"X-A", "1"}}, {{"X-A", ""}, {"Location", "/a?b=c#d"}, {"Set-Cookie", "a=b; Path=/; HttpOnly"}}, {{"etag", "\"x:y\""}, {"Cache-Control", "no-cache, max-age=0"}, {"X-Long", abc(3000)}}};
    std::string tricky = "\r\n\r\n0\r\n\r\nHTTP/1.1 200 OK\r\nContent-Length: 0\r\n\r\n"; std::string bin = pattern(50, 7) + std::string("\0\r\n\0", 4);
    // every status x header set x body x way of setting it, alone and in front of another response
    Case tail = fixed("next", Status::CODE_200, "", "next", {{"X-Next", "1"}}, 0);
    std::vector<std::string> bodies = {"", "x", "\r\n", abc(9), abc(10), abc(11), abc(99), abc(100), abc(101), tricky, bin, abc(999), abc(1000), abc(16383), abc(16384), abc(16385), abc(70000)};
    for (std::size_t si = 0; si < sts.size(); ++si) mc::run_case("fixed/" + std::to_string((int)sts[si]), [&] {
        for (std::size_t hi = 0; hi < hs.size(); ++hi) for (std::size_t bi = 0; bi < bodies.size(); ++bi) for (int how = 0; how < 4; ++how) for (std::string reason : {"", "Very Own Reason"}) {
            if (how == 1 && (hi || !reason.empty())) continue; mc::arm();
            Case k = fixed("status " + std::to_string((int)sts[si]) + " headers " + std::to_string(hi) + " body " + std::to_string(bodies[bi].size()) + " way " + std::to_string(how), sts[si], reason, bodies[bi], hs[hi], how);
            for (int head = 0; head < 2; ++head) if (!clean({&k}, head, "fixed") || !clean({&k, &tail, &k}, head, "fixed")) return;
        }
        mc::state(runs); runs = 0;
    });
    for (auto st : {Status::CODE_204, Status::CODE_304}) mc::run_case("nobody/" + std::to_string((int)st), [&] { for (auto& h : hs) { Case k = fixed("status " + std::to_string((int)st), st, "", "", h, 0); for (int head = 0; head < 2; ++head) if (!clean({&k, &tail}, head, "no content")) return; } mc::state(runs); runs = 0; });
    std::vector<std::size_t> sizes = {0, 1, 9, 10, 15, 16, 17, 255, 256, 4096, 131071, 131072, 131073, 262144, 300001}; if (th) for (std::size_t i = 18; i < 300; ++i) sizes.push_back(i);
    for (auto n : sizes) mc::run_case("file/" + std::to_string(n), [&] {
        for (std::string ext : {".txt", ".bin", "", ".tar.gz"}) for (int rg = 0; rg < 2; ++rg) { mc::arm(); Case k = fileCase((rg ? "plain file of " : "chunked file of ") + std::to_string(n) + ext, n, rg, ext); for (int head = 0; head < 2; ++head) if (!clean({&k, &tail}, head, "file") || !clean({&tail, &k, &k}, head, "file")) return; }
        mc::state(runs); runs = 0;
    });
    SseEvent e1; e1.data = "one"; SseEvent e2; e2.data = "two\nlines"; e2.event = "ev"; e2.id = "7"; SseEvent e3; e3.data = abc(20000); e3.retry = std::chrono::milliseconds(1500); SseEvent ping;
    std::vector<std::pair<SseEvent, std::string>> evs = {{e1, "data:one\n\n"}, {e2, "event:ev\ndata:two\ndata:lines\nid:7\n\n"}, {e3, "data:" + abc(20000) + "\nretry:1500\n\n"}, {ping, ":ping\n\n"}};
    auto norm = [](std::string s) { std::string o; std::size_t i = 0; while (i < s.size()) { auto e = s.find('\n', i); std::string l = s.substr(i, e - i); auto c = l.find(':'); if (c != l.npos && c + 1 < l.size() && l[c + 1] == ' ') l.erase(c + 1, 1); o += l + "\n"; i = e + 1; } return o; };
    // SSE: compared field by field (field order within an event is free)
    mc::run_case("sse", [&] {
        for (std::size_t a = 0; a < 4; ++a) for (std::size_t b = 0; b < 5; ++b) for (std::size_t c = 0; c < 5; ++c) {
            if (b == 4 && c < 4) continue; std::vector<SseEvent> v{evs[a].first}; std::string body = evs[a].second; if (b < 4) { v.push_back(evs[b].first); body += evs[b].second; } if (c < 4) { v.push_back(evs[c].first); body += evs[c].second; }
            ++runs; mc::transition(); mc::arm(); Case k = sse("events " + std::to_string(a) + std::to_string(b) + std::to_string(c), v, body); cur[0] = &k;
            auto cn = serve(nullptr, *router(), [&](sim::Conn& c) { c.data(req(0, false, false)); }); Rsp r; std::string why; std::size_t p = 0;
            auto blocks = [&](std::string s) { std::vector<std::multiset<std::string>> v(1); std::size_t i = 0; while (i < s.size()) { auto e = s.find('\n', i); if (e == s.npos) { v.back().insert("UNFINISHED"); break; } std::string l = s.substr(i, e - i); i = e + 1; if (l.empty()) v.emplace_back(); else v.back().insert(l); } return v; };
            if (readRsp(cn->out, p, false, r, why) != OK || r.status != 200 || !r.untilClose || !r.get("content-type").starts_with("text/event-stream")) { mc::fail("sse-head", k.name + ": " + mc::esc(cn->out, 200)); return; }
            if (blocks(norm(r.body)) != blocks(norm(body))) { mc::fail("sse-body", k.name + ": sent " + mc::esc(r.body, 200) + ", expected " + mc::esc(body, 200)); return; }
            if (cn->closes != 1) { mc::fail("not-closed", k.name + ": an event stream does not end with the connection"); return; }
        }
        mc::state(runs); runs = 0;
    });
    // short writes, failing writes, short and failing file reads
    std::vector<Case> hc = {fixed("status only", Status::CODE_404, "", "", {}, 0), fixed("small", Status::CODE_200, "", abc(12), hs[1], 0), fixed("tricky", Status::CODE_200, "", tricky, hs[2], 2), fixed("large", Status::CODE_200, "", abc(40000), {}, 1),
        fileCase("chunked empty file", 0, false, ".txt"), fileCase("chunked small file", 30, false, ".txt"), fileCase("chunked large file", 262150, false, ""), fileCase("plain empty file", 0, true, ".txt"), fileCase("plain small file", 30, true, ".txt"), fileCase("plain large file", 131080, true, ""), sse("events", {e1, ping, e2}, "")};
    for (auto& k : hc) for (int head = 0; head < 2; ++head) for (int seq = 0; seq < 2; ++seq) mc::run_case("hard/" + k.name + (head ? "/HEAD" : "") + (seq ? "/two" : ""), [&] {
        if ((k.close && (head || seq))) return;
        std::vector<Case const*> cs = seq ? std::vector<Case const*>{&k, &tail} : std::vector<Case const*>{&k}; std::string E;
        if (k.close) { cur[0] = &k; E = serve(nullptr, *router(), [&](sim::Conn& c) { c.data(req(0, false, true)); })->out; } else { auto o = clean(cs, head, "clean"); if (!o) return; E = *o; }
        for (int fa = -1; fa < 40; ++fa) { mc::arm(); for (int err : {EPIPE, ECONNRESET, ETIMEDOUT, EINTR, EAGAIN, ENOBUFS, ECANCELED}) { if (!hard(cs, head, E, nullptr, fa, err, "failing write")) return; if (fa < 0) break; } }
        mc::sub_explore("short", th ? 3 : 2, [&](mc::Chooser& c) { hard(cs, head, E, &c, -1, 0, "short writes"); }, 400000);
        for (int fa = 0; fa < 12; ++fa) { mc::arm(); mc::sub_explore("short+fail", th ? 2 : 1, [&](mc::Chooser& c) { hard(cs, head, E, &c, fa, EPIPE, "short writes and a failure"); }, 400000); }
        mc::state(runs); runs = 0;
    });
    for (auto& k : hc) if (k.name.find("file") != std::string::npos) mc::run_case("read/" + k.name, [&] {
        bool chunkedFile = k.name.starts_with("chunked"); cur[0] = &k;
        mc::sub_explore("shortread", th ? 3 : 2, [&](mc::Chooser& c) {
            ++runs; mc::transition(); auto what = [&] { return k.name + " with short reads " + c.str(); };
            auto cn = serve(&c, *router(), [&](sim::Conn& c) { c.data(req(0, false, true)); }, [&] { sim::W().chFile = true; });
            Rsp r; std::string why; std::size_t p = 0; if (readRsp(cn->out, p, false, r, why) != OK || p != cn->out.size()) { mc::fail("malformed", what() + ": " + why + " " + mc::esc(cn->out, 200)); return; }
            judge(k, r, false, what);
        }, 400000);
        // a file operation fails: what was sent must not look complete unless it is
        for (int at = 0; at < 8; ++at) for (int opc : {IORING_OP_READ, IORING_OP_OPENAT}) {
            ++runs; mc::transition(); int n = 0; bool hit = false; auto what = [&] { return k.name + ": " + (opc == IORING_OP_READ ? "read " : "open ") + std::to_string(at) + " fails"; };
            try { auto cn = serve(nullptr, *router(), [&](sim::Conn& c) { c.data(req(0, false, false) + "GET /1 HTTP/1.1\r\nConnection: close\r\n\r\n"); }, [&] { cur[1] = &tail; sim::W().fault = [&](sim::Op const& o) { if (o.opc == opc && n++ == at) { hit = true; return -EIO; } return 0; }; });
                if (!hit) continue; Rsp r; std::string why; std::size_t p = 0; auto g = readRsp(cn->out, p, false, r, why);
                if (g == BAD) { mc::fail("malformed", what() + ": " + why + " " + mc::esc(cn->out, 200)); return; }
                if (g == OK && r.status == 200 && r.body != k.w.body) { mc::fail("fabricated", what() + ": a response that looks complete carries " + std::to_string(r.body.size()) + " of " + std::to_string(k.w.body.size()) + " bytes"); return; }
                if (g == MORE && cn->closes != 1) { mc::fail("not-closed", what()); return; }
                if (sim::W().openReal || sim::W().badClose) { mc::fail("file-leak", what()); return; }
            } catch (sim::Quiet&) { mc::fail("stuck", what()); return; } catch (sim::Runaway&) { mc::fail("livelock", what()); return; }
        }
        (void)chunkedFile; mc::state(runs); runs = 0;
    });
    // two connections at once: outputs do not mix
    for (std::size_t a = 0; a < hc.size(); ++a) mc::run_case("two/" + hc[a].name, [&] {
        for (std::size_t b = a; b < hc.size(); ++b) {
            if (hc[a].w.body.size() > 100000 && hc[b].w.body.size() > 100000 && !th) continue;
            cur[0] = &hc[a]; cur[1] = &hc[b]; auto ea = serve(nullptr, *router(), [&](sim::Conn& c) { c.data(req(0, false, true)); })->out, eb = serve(nullptr, *router(), [&](sim::Conn& c) { c.data(req(1, false, true)); })->out;
            mc::arm(); mc::sub_explore("two", 2, [&](mc::Chooser& ch) {
                ++runs; mc::transition(); sim::reset(&ch); auto& w = sim::W(); w.chOrder = w.chSend = true; auto x = sim::newConn(), y = sim::newConn(); x->data(req(0, false, true)); y->data(req(1, false, true)); sim::pumpAll();
                std::atomic_bool run{true}; auto what = [&] { return "(" + hc[a].name + ") and (" + hc[b].name + ") at once, choices " + ch.str(); };
                try { EventLoop loop; for (auto& c : {x, y}) ConnectionHandler<HttpIO>::template start<Timeout30>(c->fd, run, *router(), loop).detach(); loop.run(); } catch (sim::Quiet&) { mc::fail("stuck", what()); return; } catch (sim::Runaway&) { mc::fail("livelock", what()); return; }
                if (x->out != ea || y->out != eb) mc::fail("mixed", what() + ": an output differs from the one sent alone");
            }, 100000);
        }
        mc::state(runs); runs = 0;
    });
}
