// The real HTTP client on the simulated kernel: scripted servers, an independent reader of what the client sent.
#pragma once
#include "srv_common.hpp"
#define printf vp_silent
#include <HXLibs/net/client/HttpClient.hpp>
#undef printf

namespace vp {
template <class P = NoneProxy> using CliT = HttpClient<P>;
using Cli = HttpClient<NoneProxy>;
struct Got1 { bool ok = false; int status = 0; std::map<std::string, std::string> h; std::string body, err; bool operator==(Got1 const& o) const { return ok == o.ok && (!ok || (status == o.status && h == o.h && body == o.body)); } };
inline std::string show(Got1 const& g) { if (!g.ok) return "error '" + mc::esc(g.err, 80) + "'"; std::string s = std::to_string(g.status); for (auto& [k, v] : g.h) s += " | " + k + ": " + v; return mc::esc(s, 300) + " | body(" + std::to_string(g.body.size()) + ") " + mc::esc(g.body, 100); }
inline Got1 take(container::Try<ResponseData>& t) {
    Got1 g; if (!t.isVal()) { try { t.rethrow(); } catch (std::exception& e) { g.err = e.what(); } catch (...) { g.err = "?"; } return g; }
    auto d = t.move(); g.ok = true; g.status = d.status; for (auto& [k, v] : d.headers) g.h[lower(k)] = v; g.body = std::move(d.body); return g;
}
// One client on one loop; f is the user's coroutine. Returns what went wrong in running it ("" if nothing).
template <class F> std::string withClient(F&& f, bool reconnect = true) {
    try {
        auto loop = std::make_shared<EventLoop>();
        Cli cli{HttpClientOptions{}, loop}; cli.setAutoReconnect(reconnect);
        auto main = [&]() -> Task<> { co_await f(cli); co_await cli.coClose(); };
        auto r = loop->trySync(main());
        if (!r.isVal()) try { r.rethrow(); } catch (std::exception& e) { return std::string("the client's coroutine ended with '") + e.what() + "'"; }
    } catch (sim::Quiet&) { return "a call never returns"; } catch (sim::Runaway&) { return "a call loops without end"; }
    return "";
}
// ---- reading what the client sent (strict) ----
struct Rq { std::string method, target, version, body; std::vector<std::pair<std::string, std::string>> h; bool chunked = false;
    std::string get(std::string const& k) const { for (auto& [a, b] : h) if (ieq(a, k)) return b; return ""; }
    int count(std::string const& k) const { int n = 0; for (auto& [a, b] : h) if (ieq(a, k)) ++n; return n; } };
inline Got readRq(std::string const& s, std::size_t& p, Rq& r, std::string& why) {
    r = Rq{}; std::size_t i = p;
    auto line = [&](std::string& l) { auto e = s.find("\r\n", i); if (e == s.npos) return false; l = s.substr(i, e - i); i = e + 2; return true; };
    std::string l; if (!line(l)) return MORE;
    auto a = l.find(' '), b = l.rfind(' ');
    if (a == l.npos || b == a || l.substr(b + 1) != "HTTP/1.1") { why = "bad request line '" + mc::esc(l, 80) + "'"; return BAD; }
    r.method = l.substr(0, a); r.target = l.substr(a + 1, b - a - 1); r.version = l.substr(b + 1);
    for (char c : r.target) if ((unsigned char)c <= ' ') { why = "bad request line '" + mc::esc(l, 80) + "'"; return BAD; }
    for (;;) {
        if (!line(l)) return MORE;
        if (l.empty()) break;
        auto c = l.find(':'); if (c == l.npos || c == 0) { why = "bad header line '" + mc::esc(l, 80) + "'"; return BAD; }
        for (std::size_t k = 0; k < c; ++k) if (!tokenChar((unsigned char)l[k])) { why = "bad header name '" + mc::esc(l, 80) + "'"; return BAD; }
        std::string v = l.substr(c + 1); while (!v.empty() && v[0] == ' ') v.erase(0, 1); while (!v.empty() && v.back() == ' ') v.pop_back();
        r.h.push_back({l.substr(0, c), v});
    }
    int cl = r.count("content-length"), te = r.count("transfer-encoding");
    if (cl > 1 || te > 1 || (cl && te)) { why = "conflicting framing headers"; return BAD; }
    if (te) {
        if (!ieq(r.get("transfer-encoding"), "chunked")) { why = "unknown transfer encoding"; return BAD; }
        r.chunked = true;
        for (;;) {
            if (!line(l)) return MORE;
            std::size_t n = 0; if (l.empty() || l.size() > 8) { why = "bad chunk size '" + mc::esc(l, 40) + "'"; return BAD; }
            for (char c : l) { if (!std::isxdigit((unsigned char)c)) { why = "bad chunk size '" + mc::esc(l, 40) + "'"; return BAD; } n = n * 16 + (std::size_t)(std::isdigit((unsigned char)c) ? c - '0' : (c | 32) - 'a' + 10); }
            if (s.size() < i + n + 2) return MORE;
            r.body.append(s, i, n); i += n;
            if (s.compare(i, 2, "\r\n")) { why = "chunk is not followed by CRLF"; return BAD; }
            i += 2; if (!n) break;
        }
    } else if (cl) {
        std::string v = r.get("content-length"); if (v.empty() || v.find_first_not_of("0123456789") != v.npos) { why = "bad Content-Length '" + v + "'"; return BAD; }
        std::size_t n = (std::size_t)std::stoull(v); if (s.size() < i + n) return MORE;
        r.body = s.substr(i, n); i += n;
    }
    p = i; return OK;
}
// waits for one more complete request
inline std::function<bool(sim::Conn&)> aRequest() { return [](sim::Conn& c) { Rq r; std::string why; std::size_t p = c.seen; if (readRq(c.out, p, r, why) == OK) { c.seen = p; return true; } return false; }; }
} // namespace vp
