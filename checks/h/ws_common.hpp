// WebSocket peers: an independent frame writer and reader (RFC 6455), the library's two ends on the simulated kernel.
#pragma once
#include "cli_common.hpp"
#define printf vp_silent
#include <HXLibs/net/protocol/websocket/WebSocket.hpp>
#undef printf
#include <openssl/sha.h>
#include <openssl/evp.h>

namespace vp {
inline std::string acceptOf(std::string const& key) { std::string k = key + "258EAFA5-E914-47DA-95CA-C5AB0DC85B11"; unsigned char d[20]; SHA1((unsigned char const*)k.data(), k.size(), d); unsigned char o[40]; int n = EVP_EncodeBlock(o, d, 20); return std::string((char*)o, (std::size_t)n); }
inline std::string frame(int op, std::string body, bool masked, uint32_t mask = 0x01020304, bool fin = true, int lenForm = 0, int rsv = 0) {
    std::string s; s += (char)((fin ? 0x80 : 0) | rsv << 4 | op); int m = masked ? 0x80 : 0; std::size_t n = body.size();
    if (!lenForm) lenForm = n < 126 ? 1 : n <= 65535 ? 2 : 8;
    if (lenForm == 1) s += (char)(m | (int)n); else if (lenForm == 2) { s += (char)(m | 126); s += (char)(n >> 8); s += (char)n; } else { s += (char)(m | 127); for (int i = 7; i >= 0; --i) s += (char)((uint64_t)n >> (8 * i)); }
    if (masked) { char k[4]; for (int i = 0; i < 4; ++i) { k[i] = (char)(mask >> (24 - 8 * i)); s += k[i]; } for (std::size_t i = 0; i < n; ++i) body[i] = (char)(body[i] ^ k[i % 4]); }
    return s + body;
}
struct Ev { int op; std::string body; bool operator==(Ev const&) const = default; };
struct Stream { std::vector<Ev> ev; enum { CLEAN, PARTIAL, ERROR } end = CLEAN; bool odd = false; std::string why; };   // odd: a receiver may reject from there on (or accept)
// Everything a stream of frames from one side says. Stops at the first error and behind a close.
inline Stream readFrames(std::string const& s, bool masked) {
    Stream r; std::size_t i = 0; int mop = 0; std::string msg;
    auto err = [&](char const* w) { r.end = Stream::ERROR; r.why = w; };
    while (i < s.size()) {
        if (s.size() - i < 2) { r.end = Stream::PARTIAL; unsigned a = (unsigned char)s[i]; (void)a; return r; }
        unsigned a = (unsigned char)s[i], b = (unsigned char)s[i + 1]; int op = a & 15; bool fin = a >> 7; unsigned l = b & 127;
        if (a & 0x70) { err("reserved bits"); return r; }
        if (bool(b >> 7) != masked) { err("masking"); return r; }
        if ((op > 2 && op < 8) || op > 10) { err("opcode"); return r; }
        if (op >= 8 && (!fin || l > 125)) { err("control frame"); return r; }
        if (op == 0 && !mop) { err("continuation of nothing"); return r; }
        if (op && op < 8 && mop) { err("message inside a message"); return r; }
        std::size_t h = 2 + (l == 126 ? 2 : l == 127 ? 8 : 0) + (masked ? 4 : 0);
        if (s.size() - i < h) { r.end = Stream::PARTIAL; return r; }
        uint64_t n = l; if (l > 125) { n = 0; for (std::size_t k = 0; k < (l == 126 ? 2u : 8u); ++k) n = n << 8 | (unsigned char)s[i + 2 + k]; if (n < 126 || (l == 127 && n < 65536)) r.odd = true; if (n >> 63) { err("length"); return r; } }
        if (s.size() - i - h < n) { r.end = Stream::PARTIAL; return r; }
        std::string body = s.substr(i + h, (std::size_t)n); if (masked) for (std::size_t k = 0; k < n; ++k) body[k] = (char)(body[k] ^ s[i + h - 4 + k % 4]);
        i += h + (std::size_t)n;
        if (op >= 8) { r.ev.push_back({op, body}); if (op == 8) { if (i < s.size()) r.why = "behind close"; return r; } continue; }
        if (op) mop = op; msg += body;
        if (fin) { r.ev.push_back({mop, msg}); mop = 0; msg.clear(); }
    }
    if (mop) r.end = Stream::PARTIAL;
    return r;
}
inline std::string showEv(std::vector<Ev> const& v) { std::string s = "["; for (auto& e : v) { s += (s.size() > 1 ? ", " : "") + std::to_string(e.op) + ":(" + std::to_string(e.body.size()) + ")" + mc::esc(e.body, 20); if (s.size() > 300) { s += "..."; break; } } return s + "]"; }
inline std::string wsKey() { return "dGhlIHNhbXBsZSBub25jZQ=="; }
inline std::string wsReq(std::string key = wsKey(), std::string path = "/ws") { return "GET " + path + " HTTP/1.1\r\nHost: h\r\nOrigin: http://h\r\nConnection: Upgrade\r\nUpgrade: websocket\r\nSec-WebSocket-Key: " + key + "\r\nSec-WebSocket-Version: 13\r\n\r\n"; }
// what one end of the library saw, and what it put on the wire behind the handshake
struct End { bool up = false; std::vector<Ev> got; std::string err, wire; bool over = false; std::string run; long long endAt = 0; int conns = 0, opens = 0, bad = 0; };
using WsS = WebSocketServer<HttpIO>; using WsC = WebSocketClient<HttpIO>;
// the library as the server; script feeds the client's bytes (frames are masked)
template <class F> End asServer(mc::Chooser* ch, std::function<void(sim::Conn&)> script, F user, std::function<void()> setup = {}) {
    End e; Rt r; auto* pe = &e; auto* pu = &user;
    r.addEndpoint<GET>("/ws", [pe, pu](Req& req, Res& res) -> Task<> {
        try { auto ws = co_await WebSocketFactory<HttpIO>{req, res}.accept(); pe->up = true; co_await (*pu)(ws, *pe); }
        catch (std::exception& x) { pe->err = x.what(); }
        pe->over = true; pe->endAt = sim::W().now; });
    try {
        auto c = serve(ch, r, script, setup); auto p = c->out.find("\r\n\r\n");
        e.wire = p == c->out.npos ? "" : c->out.substr(p + 4);
    } catch (sim::Quiet&) { e.run = "never ends"; } catch (sim::Runaway&) { e.run = "loops without end"; }
    for (auto& c : sim::W().all) { ++e.conns; e.opens += c->open; } e.bad = sim::W().badClose; return e;
}
// the library as the client; script feeds the server's bytes behind the handshake (frames are unmasked)
template <class F> End asClient(mc::Chooser* ch, std::function<void(sim::Conn&, std::string hello)> script, F user, std::function<void()> setup = {}) {
    End e; auto* pe = &e; auto* pu = &user; sim::reset(ch); sim::W().maxEvents = 100000; if (setup) setup();
    int n = 0; sim::W().onConnect = [&](sim::Conn& c, sockaddr const*) { if (n++) return -ECONNREFUSED; c.wait(aRequest()).call([script](sim::Conn& c) { Rq r; std::string why; std::size_t p = 0; readRq(c.out, p, r, why);
        script(c, "HTTP/1.1 101 Switching Protocols\r\nConnection: Upgrade\r\nUpgrade: websocket\r\nSec-WebSocket-Accept: " + acceptOf(r.get("sec-websocket-key")) + "\r\n\r\n"); }); return 0; };
    e.run = withClient([&](Cli& cli) -> Task<> {
        auto f = [pe, pu](WsC ws) -> Task<> { pe->up = true; co_await (*pu)(ws, *pe); };
        auto t = co_await cli.coWsLoop("ws://h:80/ws", f);
        if (!t.isVal()) try { t.rethrow(); } catch (std::exception& x) { e.err = x.what(); } catch (...) { e.err = "?"; }
        e.over = true; e.endAt = sim::W().now;
    });
    for (auto& c : sim::W().all) { ++e.conns; e.opens += c->open; if (!c->no) { auto p = c->out.find("\r\n\r\n"); e.wire = p == c->out.npos ? "" : c->out.substr(p + 4); } }
    e.bad = sim::W().badClose; return e;
}
} // namespace vp
