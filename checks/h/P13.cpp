// P13: what a handler observes depends only on the bytes of the request, not on their segmentation.
#include "srv_common.hpp"
using namespace vp;

struct Rq { std::string name, method, target, version = "HTTP/1.1"; std::vector<std::pair<std::string, std::string>> h; std::string raw, body; };   // raw = the bytes sent
struct Seen { std::string method, target, version, pure, body; std::map<std::string, std::string> h; std::string err; bool operator==(Seen const&) const = default; };
static std::vector<Seen> seen;
enum Mode { PARSE, SAVE, LATE } static mode;

static std::string head(Rq const& q, std::vector<std::string> lines) { std::string s = q.method + " " + q.target + " " + q.version + "\r\n"; for (auto& l : lines) s += l + "\r\n"; return s + "\r\n"; }
static std::string chunked(std::string const& b, std::vector<std::size_t> sizes, int style) {
    std::string s; std::size_t i = 0, k = 0;
    while (i < b.size()) {
        std::size_t n = std::min(sizes[k++ % sizes.size()], b.size() - i); char t[64];
        std::snprintf(t, sizeof t, style & 1 ? "%zX" : "%zx", n); std::string z = t;
        if (style & 2) z = "00" + z;
        if (style & 4) z += ";name=\"v;1\"";
        s += z + "\r\n" + b.substr(i, n) + "\r\n"; i += n;
    }
    s += style & 2 ? "000" : "0"; if (style & 4) s += ";last"; s += "\r\n"; if (style & 8) s += "X-Trailer: 1\r\nContent-Length: 3\r\n"; return s + "\r\n";
}
static Rq mk(std::string name, std::string method, std::string target, std::vector<std::pair<std::string, std::string>> h, std::string body, int enc /*0 none, 1 length, 2 chunked*/, std::vector<std::size_t> sizes = {}, int style = 0, int hstyle = 0) {
    Rq q; q.name = name; q.method = method; q.target = target; q.h = h; q.body = body;
    if (enc == 1) q.h.push_back({"Content-Length", std::to_string(body.size())});
    if (enc == 2) q.h.push_back({"Transfer-Encoding", "chunked"});
    std::vector<std::string> l;
    for (auto& [k, v] : q.h) { std::string kk = k; if (hstyle & 1) for (auto& c : kk) c = (char)std::toupper((unsigned char)c); if (hstyle & 2) kk = lower(kk); l.push_back(kk + (hstyle & 4 ? ":" : hstyle & 8 ? ": \t " : ": ") + v + (hstyle & 8 ? " \t" : "")); }
    q.raw = head(q, l) + (enc == 2 ? chunked(body, sizes, style) : body);
    return q;
}
static Seen expect(Rq const& q) { Seen s; s.method = q.method; s.target = q.target; s.version = q.version; s.pure = q.target.substr(0, q.target.find('?')); s.body = q.body; for (auto& [k, v] : q.h) s.h[lower(k)] = v; return s; }
static std::string show(Seen const& s) { std::string r = s.method + " " + mc::esc(s.target, 60) + " " + s.version + " {"; int n = 0; for (auto& [k, v] : s.h) { if (++n > 8) { r += "..."; break; } r += mc::esc(k, 40) + ":" + mc::esc(v, 60) + " "; } return r + "} body(" + std::to_string(s.body.size()) + ") " + mc::esc(s.body, 100) + (s.err.empty() ? "" : " error " + s.err); }

static Rt* router() {
    static Rt* r = [] {
        auto* r = new Rt; 
        auto f = [](Req& req, Res& res) -> Task<> {
            Seen s; s.method = req.getReqType(); s.target = req.getReqPath(); s.version = req.getProtocolVersion(); s.pure = req.getPureReqPath();
            for (auto& [k, v] : req.getHeaders()) s.h[lower(k)] = v;
            try {
                if (mode == SAVE) { auto p = scratch() + "/body"; co_await req.template saveToFile<Timeout30>(p); s.body = get(p); }
                else s.body = co_await req.template parseBody<Timeout30>();
            } catch (std::exception const& e) { s.err = e.what(); }
            seen.push_back(s);
            if (!s.err.empty()) throw std::runtime_error(s.err);
            co_await res.setStatusAndContent(Status::CODE_200, "ok").sendRes();
        };
        r->addEndpoint<GET, POST, PUT, DEL, HEAD, HttpMethod::PATCH, HttpMethod::OPTIONS>("/**", f);
        r->addEndpoint<GET, POST, PUT, DEL, HEAD, HttpMethod::PATCH, HttpMethod::OPTIONS>("/", f);
        return r;
    }();
    return r;
}

static uint64_t runs;
static bool once(std::vector<Rq> const& qs, std::vector<std::size_t> const& cuts, mc::Chooser* ch, Mode m, std::string const& what) {
    mode = m; seen.clear(); ++runs; mc::transition();
    std::string all; for (auto& q : qs) all += q.raw;
    std::shared_ptr<sim::Conn> c;
    auto fail = [&](std::string k, std::string s) { mc::fail(k, what + " cut at " + cutstr(cuts) + (ch ? " choices " + ch->str() : "") + (m == SAVE ? " (saved to a file)" : "") + ": " + s + "; stream: " + mc::esc(all, 300)); return false; };
    try { c = serve(ch, *router(), [&](sim::Conn& c) { c.cut(all, cuts).fin(); }, [&] { sim::W().chRecv = ch; }); }
    catch (sim::Quiet&) { return fail("stuck", "the server waits for something that never happens"); }
    catch (sim::Runaway&) { return fail("livelock", "the server loops without end"); }
    for (std::size_t i = 0; i < qs.size(); ++i) {
        if (i >= seen.size()) return fail("missing", "request " + std::to_string(i) + " never reached its handler");
        auto e = expect(qs[i]);
        if (!(seen[i] == e)) return fail("misread", "request " + std::to_string(i) + " observed as " + show(seen[i]) + ", sent " + show(e));
    }
    if (seen.size() > qs.size()) return fail("extra", "the handler ran " + std::to_string(seen.size()) + " times, last as " + show(seen.back()));
    std::size_t p = 0; for (std::size_t i = 0; i < qs.size(); ++i) { Rsp r; std::string why; if (readRsp(c->out, p, qs[i].method == "HEAD", r, why) != OK || r.status != 200) return fail("response", "response " + std::to_string(i) + " is missing or malformed: " + mc::esc(c->out, 200)); }
    if (c->closes != 1) return fail("not-closed", "the connection was closed " + std::to_string(c->closes) + " times");
    return true;
}

void mc_main() {
    bool th = mc::thorough();
    auto B = abc(23); std::string tricky = "\r\n0\r\n\r\nGET / HTTP/1.1\r\n\r\n"; std::string bin = pattern(40, 3); bin += std::string("\0\r\n\r", 4);
    std::vector<Rq> small = {
        mk("bare GET", "GET", "/", {}, "", 0), mk("GET", "GET", "/a/b?x=1&y=%20z", {{"Host", "h"}, {"Accept", "*/*"}}, "", 0),
        mk("GET no space after colon", "GET", "/a", {{"Host", "h:80"}, {"X", ""}, {"Y", "b: c"}}, "", 0, {}, 0, 4),
        mk("GET spaced values, upper case names", "GET", "/a", {{"Host", "h"}, {"Cookie", "a=b; c=\"d: e\""}, {"Z-1", "x  y"}}, "", 0, {}, 0, 9),
        mk("DELETE", "DELETE", "/item/1", {{"Host", "h"}}, "", 0), mk("OPTIONS", "OPTIONS", "/o", {{"Host", "h"}}, "", 0), mk("HEAD", "HEAD", "/o", {{"Host", "h"}}, "", 0),
        mk("POST length 0", "POST", "/p", {{"Host", "h"}}, "", 1), mk("POST length 1", "POST", "/p", {}, "x", 1), mk("POST length 23", "POST", "/p", {{"Host", "h"}}, B, 1),
        mk("PUT binary, lower case names", "PUT", "/p", {{"Host", "h"}}, bin, 1, {}, 0, 2), mk("POST body like a request", "POST", "/p", {}, tricky, 1, {}, 0, 5),
        mk("chunked empty", "POST", "/c", {}, "", 2, {1}), mk("chunked one", "POST", "/c", {}, "x", 2, {1}), mk("chunked 5s", "POST", "/c", {{"Host", "h"}}, B, 2, {5}),
        mk("chunked 1s", "POST", "/c", {}, abc(6), 2, {1}), mk("chunked upper hex", "PUT", "/c", {}, B, 2, {10, 13}, 1), mk("chunked zero padded", "POST", "/c", {}, B, 2, {11}, 2), mk("chunked extensions", "POST", "/c", {}, abc(9), 2, {4}, 4),
        mk("chunked trailers", "POST", "/c", {}, abc(9), 2, {4}, 8), mk("chunked body like framing", "POST", "/c", {}, tricky, 2, {3, 7}, 0, 4), mk("chunked binary", "POST", "/c", {}, bin, 2, {16, 3}, 1, 1),
        mk("chunked all styles", "PATCH", "/c?q", {{"Host", "h"}}, abc(20), 2, {12, 2}, 15, 8),
    };
    { Rq q = mk("folded header", "POST", "/f", {{"Host", "h"}, {"A", "b"}}, "xyz", 1); q.raw.insert(q.raw.find("A: b") + 4, "\r\n c;\r\n d=e"); for (auto& [k, v] : q.h) if (k == "A") v = "b c; d=e"; small.push_back(q); }
    Rq tail = mk("next", "GET", "/next?n=1", {{"Host", "n"}}, "", 0);
    // every pair of cuts (thorough: every triple) of request + the following request
    for (auto& q : small) for (int md = 0; md < 2; ++md) {
        if (md == 1 && q.body.empty() && q.name != "chunked empty") continue;
        auto m = md ? SAVE : PARSE; std::vector<Rq> qs{q, tail}; std::size_t L = q.raw.size() + 6;
        std::size_t blocks = 8;
        for (std::size_t b = 0; b < blocks; ++b) mc::run_case("cuts/" + q.name + (md ? "/save" : "") + "/" + std::to_string(b), [&] {
            std::string what = q.name;
            if (b == 0) { once(qs, {}, nullptr, m, what); std::vector<std::size_t> all; for (std::size_t i = 1; i < q.raw.size() + tail.raw.size(); ++i) all.push_back(i); once(qs, all, nullptr, m, what); once({q}, {}, nullptr, m, what); }
            for (std::size_t i = 1 + b; i < L; i += blocks) {
                mc::detail(what + " cut " + std::to_string(i)); mc::arm();
                if (!once(qs, {i}, nullptr, m, what)) return;
                if (md && !th) continue;
                for (std::size_t j = i + 1; j < L; ++j) {
                    if (!once(qs, {i, j}, nullptr, m, what)) return;
                    if (th && L < 90 && !md) for (std::size_t k = j + 1; k < L; ++k) if (!once(qs, {i, j, k}, nullptr, m, what)) return;
                }
            }
            mc::outcome(q.name + std::to_string(md)); mc::state(runs); runs = 0;
        });
    }
    // several requests in one stream, in every order of three kinds
    for (std::size_t a = 0; a < small.size(); ++a) mc::run_case("seq/" + small[a].name, [&] {
        for (std::size_t b = 0; b < small.size(); ++b) {
            std::vector<Rq> qs{small[a], small[b], tail}; std::size_t L = small[a].raw.size() + small[b].raw.size() + 4;
            once(qs, {}, nullptr, PARSE, "three requests"); std::size_t step = th ? 1 : 1;
            for (std::size_t i = 1; i < L; i += step) { mc::arm(); if (!once(qs, {i}, nullptr, PARSE, "three requests (" + small[a].name + ", " + small[b].name + ")")) return; }
        }
        mc::state(runs); runs = 0;
    });
    // short receives chosen by the kernel
    for (auto& q : small) mc::explore("recv/" + q.name, th ? 3 : 2, [&](mc::Chooser& c) { once({q, tail}, {q.raw.size()}, &c, PARSE, q.name); mc::state(); });
    // sizes around the receive buffer (16384), delivered in large segments
    const std::size_t K = 16384;
    for (int enc = 1; enc <= 2; ++enc) for (int md = 0; md < 2; ++md) for (std::size_t base : {K, 2 * K, 3 * K + 5}) mc::run_case("big/" + std::to_string(enc) + std::to_string(md) + "/" + std::to_string(base), [&] {
        auto m = md ? SAVE : PARSE;
        std::vector<std::vector<std::size_t>> shapes = enc == 1 ? std::vector<std::vector<std::size_t>>{{1}} : std::vector<std::vector<std::size_t>>{{1000000}, {K}, {K - 1}, {K - 6, 3}, {4096}};
        for (auto& sh : shapes) for (long d = -90; d <= 6; d += (th ? 1 : (md ? 7 : 3))) {
            mc::arm(); mc::detail("big " + std::to_string(base) + " " + std::to_string(d));
            Rq q = mk("big", "POST", "/big", {{"Host", "h"}}, pattern((std::size_t)((long)base + d), (unsigned)(d + 200)), enc, sh, 0);
            std::size_t H = q.raw.find("\r\n\r\n") + 4, T = q.raw.size();
            for (auto cuts : std::vector<std::vector<std::size_t>>{{}, {H}, {H - 1}, {H + 1}, {K}, {K, 2 * K}, {K - 1, K + 1}, {T - 1}, {T - 2}, {T}, {H, H + K - 1, H + K}, {T - 7, T - 5, T - 4, T - 3, T - 2, T - 1}})
                if (!once({q, tail}, cuts, nullptr, m, "body of " + std::to_string(q.body.size()) + " bytes, encoding " + std::to_string(enc) + " chunks of " + std::to_string(sh[0]))) return;
        }
        mc::state(runs); runs = 0;
    });
    // every size of a chunk, in every spelling
    for (int style : {0, 1, 2, 3, 5}) mc::run_case("chunk size/" + std::to_string(style), [&] {
        for (std::size_t n = 1; n <= 600; ++n) { mc::arm(); Rq q = mk("chunk of " + std::to_string(n), "POST", "/c", {}, pattern(n + 3, (unsigned)n), 2, {n}, style); std::size_t H = q.raw.find("\r\n\r\n") + 4; for (auto cuts : std::vector<std::vector<std::size_t>>{{}, {H + 1}, {H + 2, H + 3}}) if (!once({q, tail}, cuts, nullptr, PARSE, q.name)) return; }
        for (std::size_t n : {0xabcdul, 0xefabul, 0xfffful, 0x1cdeful}) { Rq q = mk("chunk of " + std::to_string(n), "POST", "/c", {}, pattern(n, 3), 2, {n}, style); if (!once({q, tail}, {}, nullptr, PARSE, q.name)) return; }
        mc::state(runs); runs = 0;
    });
    // both framings at once: the chunks count, whatever the length says
    mc::run_case("both framings", [&] {
        for (auto len : {"0", "3", "23", "30", "1000"}) for (int first = 0; first < 2; ++first) for (std::size_t n : {0ul, 5ul, 23ul}) {
            Rq q = mk(std::string("chunked with a length of ") + len, "POST", "/c", {{"Host", "h"}}, abc(n), 2, {7}); std::string l = std::string("Content-Length: ") + len + "\r\n";
            q.raw.insert(q.raw.find(first ? "Host" : "Transfer"), l); q.h.push_back({"Content-Length", len});
            for (std::size_t i = 0; i < q.raw.size() + 6; ++i) for (auto m : {PARSE, SAVE}) if (!once({q, tail}, i ? std::vector<std::size_t>{i} : std::vector<std::size_t>{}, nullptr, m, q.name)) return;
        }
        mc::state(runs); runs = 0;
    });
    // long heads: many headers, long values, cut around the buffer size
    for (std::size_t vlen : {10ul, 200ul, 4000ul, 16000ul}) mc::run_case("head/" + std::to_string(vlen), [&] {
        std::size_t n = 40000 / (vlen + 12) + 1; std::vector<std::pair<std::string, std::string>> h;
        for (std::size_t i = 0; i < n; ++i) h.push_back({"X-Head-" + std::to_string(i), abc(vlen - i % 7)});
        Rq q = mk("long head", "POST", "/h?" + abc(300), h, B, 1); std::size_t H = q.raw.size() - B.size();
        std::vector<std::vector<std::size_t>> cs = {{}, {K}, {K, 2 * K}, {H - 1}, {H - 2}, {H - 3}, {H}, {1}, {100, 101}};
        for (std::size_t i = 0; i < 600; i += (th ? 1 : 5)) cs.push_back({K - 300 + i});
        for (auto& cuts : cs) { mc::arm(); if (!once({q, tail}, cuts, nullptr, PARSE, "long head with values of " + std::to_string(vlen))) return; }
        mc::state(runs); runs = 0;
    });
}
