// The real HTTP server stack on the simulated kernel: scripted clients, an independent request writer and response reader.
#pragma once
#include "sim.hpp"
#include <algorithm>
#include <fstream>
#include <sstream>
#include <charconv>
#include <format>
#include <iostream>
#include <sys/stat.h>
// the log goes nowhere
inline int vp_silent(char const*, ...) { return 0; }
#define printf vp_silent
#include <HXLibs/log/Log.hpp>
#undef printf
#include <HXLibs/coroutine/loop/EventLoop.hpp>
#include <HXLibs/net/router/Router.hpp>
#include <HXLibs/net/server/ConnectionHandler.hpp>
#include <HXLibs/net/server/Acceptor.hpp>

namespace vp {
using namespace HX; using namespace HX::net; using namespace HX::coroutine; using namespace HX::utils;
using namespace std::string_literals; using namespace std::string_view_literals;
using Req = HttpRequest<HttpIO>; using Res = HttpResponse<HttpIO>; using Rt = Router<HttpIO>;
using Timeout30 = decltype(30_s);

inline std::string lower(std::string s) { for (auto& c : s) if (c >= 'A' && c <= 'Z') c = (char)(c + 32); return s; }
inline bool ieq(std::string const& a, std::string const& b) { return lower(a) == lower(b); }
inline std::string scratch() { static std::string d = [] { char const* t = std::getenv("TMPDIR"); std::string s = std::string(t ? t : "/tmp") + "/x" + std::to_string(::getpid()); ::mkdir(s.c_str(), 0700); return s; }(); return d; }
inline void put(std::string const& f, std::string const& s) { std::ofstream o(f, std::ios::binary | std::ios::trunc); o.write(s.data(), (std::streamsize)s.size()); }
inline std::string get(std::string const& f) { std::ifstream i(f, std::ios::binary); return {std::istreambuf_iterator<char>(i), {}}; }
inline std::string pattern(std::size_t n, unsigned seed) { std::string s(n, 0); unsigned x = seed * 2654435761u + 12345; for (auto& c : s) { x = x * 1664525u + 1013904223u; c = (char)(x >> 24); } return s; }
inline std::string abc(std::size_t n) { std::string s(n, 0); for (std::size_t i = 0; i < n; ++i) s[i] = (char)('a' + i % 26); return s; }

// ---- reading what the server sent (RFC 9112, strict) ----
struct Rsp { int status = 0; std::string reason; std::vector<std::pair<std::string, std::string>> h; std::string body; bool chunked = false, untilClose = false;
    std::string get(std::string const& k) const { for (auto& [a, b] : h) if (ieq(a, k)) return b; return ""; }
    int count(std::string const& k) const { int n = 0; for (auto& [a, b] : h) if (ieq(a, k)) ++n; return n; }
    bool operator==(Rsp const&) const = default; };
enum Got { OK, MORE, BAD };
inline bool tokenChar(unsigned char c) { return std::isalnum(c) || std::strchr("!#$%&'*+-.^_`|~", c); }
inline Got readRsp(std::string const& s, std::size_t& p, bool head, Rsp& r, std::string& why) {
    r = Rsp{}; std::size_t i = p;
    auto line = [&](std::string& l) { auto e = s.find("\r\n", i); if (e == s.npos) return false; l = s.substr(i, e - i); i = e + 2; return true; };
    std::string l; if (!line(l)) return MORE;
    if (l.size() < 13 || l.compare(0, 9, "HTTP/1.1 ") || !std::isdigit((unsigned char)l[9]) || !std::isdigit((unsigned char)l[10]) || !std::isdigit((unsigned char)l[11]) || l[12] != ' ') { why = "bad status line '" + mc::esc(l, 80) + "'"; return BAD; }
    r.status = std::atoi(l.c_str() + 9); r.reason = l.substr(13);
    for (;;) {
        if (!line(l)) return MORE;
        if (l.empty()) break;
        auto c = l.find(':'); if (c == l.npos || c == 0) { why = "bad header line '" + mc::esc(l, 80) + "'"; return BAD; }
        for (std::size_t k = 0; k < c; ++k) if (!tokenChar((unsigned char)l[k])) { why = "bad header name '" + mc::esc(l, 80) + "'"; return BAD; }
        std::string v = l.substr(c + 1); while (!v.empty() && v[0] == ' ') v.erase(0, 1); while (!v.empty() && v.back() == ' ') v.pop_back();
        if (v.find_first_of(std::string("\r\n\0", 3)) != v.npos) { why = "control character in header '" + mc::esc(l, 80) + "'"; return BAD; }
        r.h.push_back({l.substr(0, c), v});
    }
    int cl = r.count("content-length"), te = r.count("transfer-encoding");
    if (cl > 1 || te > 1 || (cl && te)) { why = "conflicting framing headers"; return BAD; }
    if (te && !ieq(r.get("transfer-encoding"), "chunked")) { why = "unknown transfer encoding"; return BAD; }
    r.chunked = te;
    if (head || r.status / 100 == 1 || r.status == 204 || r.status == 304) { p = i; return OK; }
    if (te) {
        for (;;) {
            if (!line(l)) return MORE;
            std::size_t n = 0; if (l.empty() || l.size() > 8) { why = "bad chunk size '" + mc::esc(l, 40) + "'"; return BAD; }
            for (char c : l) { if (!std::isxdigit((unsigned char)c)) { why = "bad chunk size '" + mc::esc(l, 40) + "'"; return BAD; } n = n * 16 + (std::size_t)(std::isdigit((unsigned char)c) ? c - '0' : (c | 32) - 'a' + 10); }
            if (s.size() < i + n + 2) return MORE;
            r.body.append(s, i, n); i += n;
            if (s.compare(i, 2, "\r\n")) { why = "chunk is not followed by CRLF"; return BAD; }
            i += 2; if (!n) break;
        }
        p = i; return OK;
    }
    if (cl) {
        std::string v = r.get("content-length"); if (v.empty() || v.find_first_not_of("0123456789") != v.npos) { why = "bad Content-Length '" + v + "'"; return BAD; }
        std::size_t n = (std::size_t)std::stoull(v); if (s.size() < i + n) return MORE;
        r.body = s.substr(i, n); p = i + n; return OK;
    }
    r.untilClose = true; r.body = s.substr(i); p = s.size(); return OK;
}
inline std::string show(Rsp const& r) { std::string s = std::to_string(r.status) + " " + r.reason; for (auto& [k, v] : r.h) s += " | " + k + ": " + v; return mc::esc(s, 400) + " | body(" + std::to_string(r.body.size()) + ") " + mc::esc(r.body, 120); }
inline std::map<std::string, std::string> hmap(Rsp const& r) { std::map<std::string, std::string> m; for (auto& [k, v] : r.h) m[lower(k)] = v; return m; }
inline bool same(Rsp const& a, Rsp const& b) { return a.status == b.status && a.reason == b.reason && hmap(a) == hmap(b) && a.h.size() == b.h.size() && a.body == b.body; }

// ---- serving ----
// One connection handled by the real connection handler until it ends. Returns the connection.
inline std::shared_ptr<sim::Conn> serve(mc::Chooser* ch, Rt const& router, std::function<void(sim::Conn&)> script, std::function<void()> setup = {}) {
    sim::reset(ch); sim::W().maxEvents = 100000; if (setup) setup();
    auto c = sim::newConn(); script(*c); sim::pump(*c);
    std::atomic_bool run{true};
    EventLoop loop;
    ConnectionHandler<HttpIO>::template start<Timeout30>(c->fd, run, router, loop).detach();
    loop.run();
    return c;
}
inline std::string cutstr(std::vector<std::size_t> const& c) { std::string s = "["; for (auto x : c) s += (s.size() > 1 ? "," : "") + std::to_string(x); return s + "]"; }
} // namespace vp
