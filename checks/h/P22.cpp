// P22: WebSocket messages arrive exactly as sent, whatever the framing and segmentation.
#include "ws_common.hpp"
using namespace vp;
static uint64_t runs;
static auto receiver(int limit = 1 << 30) { return [limit](auto& ws, End& e) -> Task<> { for (int i = 0; i < limit; ++i) { auto p = co_await ws.template recv<false, decltype(60_s)>(OpCode::Text, OpCode::Binary); e.got.push_back({(int)p.opCode, p.content}); } }; }
enum Fin { FIN, GONE, RST, OPEN };
static char const* fn[] = {"closed", "fully closed", "reset", "left silent"};
// Feeds frames to one of the library's ends and compares what its user got and what it answered with the independent reading.
static bool feed(bool server, std::string const& bytes, std::vector<std::size_t> const& cuts, Fin fin, std::function<std::string()> nm, mc::Chooser* ch = nullptr, bool glued = false) {
    ++runs; mc::transition();
    auto tail = [fin](sim::Conn& c) { if (fin == FIN) c.fin(); else if (fin == GONE) c.pause(sim::ms).gone(); else if (fin == RST) c.pause(sim::ms).reset(); };
    auto setup = [&] { if (ch) sim::W().chRecv = sim::W().chSend = true; };
    auto what = [&] { return std::string(server ? "server" : "client") + " receiving " + nm() + (cuts.empty() ? "" : cuts.size() > 9 ? " in " + std::to_string(cuts.size() + 1) + " pieces" : " cut at " + cutstr(cuts)) + (glued ? " right behind the handshake" : "") + " then " + fn[fin] + (ch ? " choices " + ch->str() : ""); };
    End e = server ? asServer(ch, [&](sim::Conn& c) { if (glued) { std::string h = wsReq(); auto cu = cuts; for (auto& x : cu) x += h.size(); c.cut(h + bytes, cu); } else { c.data(wsReq()); c.waitOut(20); c.cut(bytes, cuts); } tail(c); }, receiver(), setup)
                   : asClient(ch, [&](sim::Conn& c, std::string hello) { if (glued) { auto cu = cuts; for (auto& x : cu) x += hello.size(); c.cut(hello + bytes, cu); } else { c.data(hello); c.pause(sim::ms); c.cut(bytes, cuts); } tail(c); }, receiver(), setup);
    Stream r = readFrames(bytes, server);
    auto bad = [&](char const* k, std::string s) { mc::fail(k, what() + ": " + s); return false; };
    if (!e.run.empty()) return bad("hang", e.run);
    if (!e.up) return bad("handshake", "the handshake fails: " + e.err);
    if (!e.over) return bad("hang", "the conversation does not end");
    if (e.opens || e.bad) return bad("leak", e.opens ? "the connection stays open" : sim::W().badWhat);
    std::vector<Ev> msgs, pongs; bool closed = false; Ev close{};
    for (auto& v : r.ev) { if (v.op < 8) msgs.push_back(v); else if (v.op == 9) pongs.push_back({10, v.body}); else if (v.op == 8) { closed = true; close = v; } }
    if (r.odd) { if (e.got.size() > msgs.size() || !std::equal(e.got.begin(), e.got.end(), msgs.begin())) return bad("messages", "got " + showEv(e.got) + " instead of " + showEv(msgs)); return true; }
    if (e.got != msgs) return bad("messages", "got " + showEv(e.got) + " instead of " + showEv(msgs) + (e.err.empty() ? "" : " (" + e.err + ")"));
    if (e.err.empty()) return bad("end", "the end of the connection is not reported");
    Stream w = readFrames(e.wire, !server);
    if (fin == GONE || fin == RST) { // answers may be lost, but what was sent is a beginning of the right thing
        if (w.end == Stream::ERROR) return bad("wire", "sends a bad frame (" + w.why + ") " + mc::esc(e.wire, 100)); return true; }
    if (w.end != Stream::CLEAN || !w.why.empty()) return bad("wire", "sends " + mc::esc(e.wire, 100) + " " + w.why);
    std::vector<Ev> sent; int closes = 0, pings = 0; for (auto& v : w.ev) { if (v.op == 8) ++closes; else if (v.op == 9) ++pings; else sent.push_back(v); }
    if (sent != pongs) return bad("pongs", "answers " + showEv(sent) + " instead of " + showEv(pongs));
    if (closes > 1 || (closed && closes != 1)) return bad("close", "answers a close with " + std::to_string(closes) + " closes");
    if (closed && close.body.size() >= 2 && w.ev.back().body.substr(0, 2) != close.body.substr(0, 2)) return bad("close", "answers close " + mc::esc(close.body) + " with " + mc::esc(w.ev.back().body));
    if (fin != OPEN && pings) return bad("wire", "sends a ping though nobody was silent");
    if (fin == OPEN && !closed && r.end != Stream::ERROR && pings != 1) return bad("silence", "a silent peer is pinged " + std::to_string(pings) + " times");
    if (e.endAt - sim::kEpoch > 90 * sim::sec) return bad("silence", "the error takes " + std::to_string((e.endAt - sim::kEpoch) / sim::sec) + " s");
    return true;
}
static std::vector<std::size_t> every(std::size_t n, std::size_t step) { std::vector<std::size_t> v; for (std::size_t i = step; i < n; i += step) v.push_back(i); return v; }
struct It { std::string name; std::function<std::string(bool)> f; };
static std::vector<It> items() {
    std::vector<It> v; auto add = [&](std::string n, std::function<std::string(bool)> f) { v.push_back({n, f}); };
    add("text", [](bool m) { return frame(1, "hello", m); });
    add("empty text", [](bool m) { return frame(1, "", m); });
    add("binary", [](bool m) { return frame(2, "\0\xff\r\n"s, m, 0xfffefdfc); });
    add("long", [](bool m) { return frame(2, pattern(200, 3), m); });
    add("two fragments", [](bool m) { return frame(1, "ab", m, 1, false) + frame(0, "cd", m, 0x80000000); });
    add("fragments with pings", [](bool m) { return frame(2, "a", m, 7, false) + frame(9, "p1", m) + frame(0, "", m, 9, false) + frame(9, "", m) + frame(10, "x", m) + frame(0, "bc", m, 0); });
    add("empty fragments", [](bool m) { return frame(1, "", m, 7, false) + frame(0, "", m, 9, true); });
    add("ping", [](bool m) { return frame(9, "", m); });
    add("ping data", [](bool m) { return frame(9, pattern(125, 9), m); });
    add("pong", [](bool m) { return frame(10, "q", m); });
    add("close", [](bool m) { return frame(8, "", m); });
    add("close code", [](bool m) { return frame(8, "\x03\xe8" "bye"s, m); });
    add("unfinished", [](bool m) { return frame(1, "xy", m, 5, false); });
    add("stray continuation", [](bool m) { return frame(0, "z", m); });
    add("reserved bit", [](bool m) { return frame(1, "z", m, 5, true, 0, 4); });
    add("opcode 3", [](bool m) { return frame(3, "z", m); });
    add("wrong masking", [](bool m) { return frame(1, "zz", !m); });
    add("ping in fragments", [](bool m) { return frame(9, "z", m, 5, false); });
    add("long ping", [](bool m) { return frame(9, pattern(126, 1), m); });
    add("huge", [](bool m) { std::string s = frame(2, "abc", m, 1, true, 8); s[2] = 0x7f; for (int i = 3; i < 10; ++i) s[(std::size_t)i] = (char)0xff; return s; });
    return v;
}
static std::string shp(std::size_t n) { return abc(n); }

void mc_main() {
    bool th = mc::thorough(); auto its = items();
    auto done = [] { mc::state(runs); runs = 0; };
    for (bool sv : {true, false}) {
        std::string side = sv ? "server" : "client";
        // streams of up to three (four) items
        for (std::size_t a = 0; a < its.size(); ++a) mc::run_case(side + "/stream/" + its[a].name, [&] {
            auto go = [&](std::vector<std::size_t> q, bool all) {
                std::string s; for (auto i : q) s += its[i].f(sv);
                auto nm = [&] { std::string n = "["; for (auto i : q) n += its[i].name + "; "; return n + "]"; };
                mc::arm();
                for (Fin f : {FIN, OPEN, GONE, RST}) { if (!feed(sv, s, {}, f, nm)) return false; if (!all && f == OPEN) break; }
                if (!feed(sv, s, every(s.size(), 1), FIN, nm) || !feed(sv, s, {}, FIN, nm, nullptr, true) || !feed(sv, s, every(s.size(), 5), FIN, nm, nullptr, true)) return false;
                return true; };
            go({a}, true);
            for (std::size_t b = 0; b < its.size(); ++b) { if (!go({a, b}, true)) return; for (std::size_t c = 0; c < its.size(); ++c) { if (!go({a, b, c}, false)) return; if (th) for (std::size_t d = 0; d < its.size(); ++d) if (!go({a, b, c, d}, false)) return; } }
            done(); mc::outcome(side + its[a].name);
        });
        // every cut, pair of cuts; every truncation
        for (auto& q : std::vector<std::vector<std::size_t>>{{0, 2, 7, 0}, {5, 1, 4}, {4, 8, 11}, {3, 5, 10}}) mc::run_case(side + "/cuts/" + its[q[0]].name, [&] {
            std::string s; for (auto i : q) s += its[i].f(sv); auto nm = [&] { std::string n = "["; for (auto i : q) n += its[i].name + "; "; return n + "]"; };
            std::size_t lim = std::min<std::size_t>(s.size(), 80);
            for (std::size_t i = 1; i < s.size(); ++i) { mc::arm(); for (bool g : {false, true}) { if (!feed(sv, s, {i}, FIN, nm, nullptr, g)) return; if (i < lim) for (std::size_t j = i + 1; j < lim; ++j) if (!feed(sv, s, {i, j}, FIN, nm, nullptr, g)) return; } }
            for (std::size_t i = 0; i <= s.size(); ++i) for (Fin f : {FIN, OPEN, GONE, RST}) { mc::arm(); std::string t = s.substr(0, i); auto tn = [&] { return nm() + " truncated to " + std::to_string(i) + " bytes"; }; if (!feed(sv, t, {}, f, tn) || !feed(sv, t, every(i, 1), f, tn) || !feed(sv, t, {}, f, tn, nullptr, true)) return; }
            mc::sub_explore("short", th ? 3 : 2, [&](mc::Chooser& c) { mc::arm(); feed(sv, s, {}, FIN, nm, &c); }, 100000);
            done();
        });
        // every pair of first bytes
        for (int hi = 0; hi < 16; ++hi) mc::run_case(side + "/head/" + std::to_string(hi), [&] {
            for (int lo = 0; lo < 16; ++lo) for (int b = 0; b < 256; ++b) {
                if (!th && (b & 127) > 8 && (b & 127) < 120) continue;
                mc::arm(); std::string s{(char)(hi << 4 | lo), (char)b}; std::size_t l = (std::size_t)(b & 127);
                std::size_t n = l < 126 ? l : l == 126 ? 300 : 70; if (l == 126) s += "\x01\x2c"s; if (l == 127) s += "\0\0\0\0\0\0\0\x46"s;
                bool m = b >> 7; if (m) s += "\x11\x22\x33\x44"; s += pattern(n, (unsigned)b); s += frame(1, "next", sv) + frame(9, "p", sv);
                auto nm = [&] { return "frame " + mc::esc(s, 16); };
                if (!feed(sv, s, {}, FIN, nm) || !feed(sv, s, every(s.size(), 3), FIN, nm, nullptr, true)) return;
            }
            done();
        });
        // length classes, masks, fragmentations, segment sizes
        mc::run_case(side + "/lengths", [&] {
            for (std::size_t n : {0ul, 1ul, 2ul, 3ul, 4ul, 5ul, 124ul, 125ul, 126ul, 127ul, 128ul, 255ul, 256ul, 1000ul, 16370ul, 16384ul, 16385ul, 65534ul, 65535ul, 65536ul, 65537ul, 200000ul}) for (uint32_t mk : {0u, 0x12345678u, 0xffffffffu, 0x000000ffu}) for (int fr = 0; fr < 4; ++fr) for (std::size_t seg : {1ul, 13ul, 1000ul, 4096ul, 16384ul, 1000000ul}) {
                if (!sv && mk) continue; if (n > 3000 && seg < 1000) continue; mc::arm();
                std::string b = pattern(n, (unsigned)n), s; int op = 1 + (fr & 1);
                if (fr < 2) s = frame(op, b, sv, mk); else { std::size_t k = fr == 2 ? 2 : 7; for (std::size_t i = 0; i < k; ++i) { std::size_t p = n * i / k, q = n * (i + 1) / k; s += frame(i ? 0 : op, b.substr(p, q - p), sv, mk + (uint32_t)i, i + 1 == k); } }
                s += frame(1, "end", sv);
                if (!feed(sv, s, every(s.size(), seg), FIN, [&] { return std::to_string(n) + " bytes mask " + std::to_string(mk) + " form " + std::to_string(fr); })) return;
            }
            done();
        });
        // sending
        mc::run_case(side + "/send", [&] {
            struct J { std::string s; int n; };
            for (std::size_t n : {0ul, 1ul, 2ul, 3ul, 4ul, 5ul, 124ul, 125ul, 126ul, 127ul, 128ul, 255ul, 256ul, 1000ul, 16384ul, 65534ul, 65535ul, 65536ul, 65537ul, 300000ul}) for (int kind = 0; kind < 4; ++kind) {
                if (kind == 2 && n > 125) continue; if (kind == 3 && !sv) continue; if (kind == 0 && false) shp(0);
                mc::arm(); ++runs; std::string b = pattern(n, (unsigned)n + 1);
                auto user = [&](auto& ws, End& e) -> Task<> { for (int i = 0; i < 3; ++i) { if (kind == 0) co_await ws.sendText(b); else if (kind == 1) co_await ws.sendBytes(b); else if (kind == 2) co_await ws.ping(b); else if constexpr (requires { ws.sendPacketView(makePacketView(OpCode::Text, b)); }) { if (sv) { auto v = makePacketView(i == 1 ? OpCode::Binary : OpCode::Text, b); co_await ws.sendPacketView(v); } } } e.got.push_back({}); };
                End e; if (sv) e = asServer(nullptr, [&](sim::Conn& c) { c.data(wsReq()); c.pause(sim::sec).fin(); }, user);
                else { auto cu = [&](auto& ws, End& e) -> Task<> { for (int i = 0; i < 3; ++i) { if (kind == 0) co_await ws.sendText(b); else if (kind == 1) co_await ws.sendBytes(b); else co_await ws.ping(b); } e.got.push_back({}); }; e = asClient(nullptr, [&](sim::Conn& c, std::string h) { c.data(h); c.pause(sim::sec).fin(); }, cu); }
                auto what = [&] { return side + " sending " + std::to_string(n) + " bytes as kind " + std::to_string(kind); };
                if (!e.run.empty() || !e.up || e.got.size() != 1) { mc::fail("send", what() + ": " + e.run + e.err); return; }
                Stream w = readFrames(e.wire, !sv); std::vector<Ev> want; for (int i = 0; i < 3; ++i) want.push_back({kind == 0 ? 1 : kind == 1 ? 2 : kind == 2 ? 9 : i == 1 ? 2 : 1, b});
                if (w.end != Stream::CLEAN || w.odd || w.ev != want) { mc::fail("send", what() + ": on the wire is " + mc::esc(e.wire, 60) + " " + showEv(w.ev) + " " + w.why); return; }
            }
            // short transfers
            std::string b = pattern(300, 77);
            mc::sub_explore("short", 2, [&](mc::Chooser& c) {
                ++runs; mc::arm(); End e; auto setup = [&] { sim::W().chSend = true; };
                auto user = [&](auto& ws, End& e) -> Task<> { co_await ws.sendText(b); co_await ws.sendBytes("\0x"s); e.got.push_back({}); };
                if (sv) e = asServer(&c, [&](sim::Conn& c) { c.data(wsReq()); c.pause(sim::sec).fin(); }, user, setup); else e = asClient(&c, [&](sim::Conn& c, std::string h) { c.data(h); c.pause(sim::sec).fin(); }, user, setup);
                Stream w = readFrames(e.wire, !sv); if (!e.run.empty() || w.end != Stream::CLEAN || w.ev != std::vector<Ev>{{1, b}, {2, "\0x"s}}) mc::fail("send", side + " sending with short transfers " + c.str() + ": " + showEv(w.ev) + e.run + e.err);
            }, 20000);
            done();
        });
        // closing: data, pings and closes that arrive after our close; then nothing more is sent
        mc::run_case(side + "/close", [&] {
            std::vector<std::pair<std::string, std::string>> behind = {{"nothing", ""}, {"close", frame(8, "", sv)}, {"close with code", frame(8, "\x03\xe8"s, sv)}, {"data then close", frame(1, "late", sv) + frame(8, "", sv)}, {"ping then close", frame(9, "p", sv) + frame(8, "", sv)}, {"fragments then close", frame(1, "a", sv, 1, false) + frame(0, "b", sv) + frame(8, "", sv)}, {"garbage", "\xff\xff\xff\xff"}, {"half a close", frame(8, "", sv).substr(0, 1)}, {"data", frame(1, "late", sv)}, {"unfinished", frame(1, "late", sv, 3, false)}};
            for (auto& [n, s] : behind) for (Fin f : {FIN, GONE, RST, OPEN}) for (int seg : {0, 1, 3}) for (int early = 0; early < 2; ++early) {
                ++runs; mc::arm(); auto cuts = seg ? every(s.size(), (std::size_t)seg) : std::vector<std::size_t>{};
                auto user = [&](auto& ws, End& e) -> Task<> { co_await ws.sendText("bye"); co_await ws.close(); e.got.push_back({}); };
                auto tail = [&](sim::Conn& c) { if (!early) c.wait([](sim::Conn& c) { return c.out.find(std::string("bye"), 0) != c.out.npos || c.out.size() > 200; }).pause(sim::ms); c.cut(s, cuts); c.pause(sim::ms); if (f == FIN) c.fin(); else if (f == GONE) c.gone(); else if (f == RST) c.reset(); };
                End e; if (sv) e = asServer(nullptr, [&](sim::Conn& c) { c.data(wsReq()); tail(c); }, user); else e = asClient(nullptr, [&](sim::Conn& c, std::string h) { c.data(h); tail(c); }, user);
                auto what = [&] { return side + " closing, then receiving " + n + ", then " + fn[f] + (early ? " (early)" : "") + " seg " + std::to_string(seg); };
                if (!e.run.empty() || !e.up || !e.over) { mc::fail("close", what() + ": " + e.run + e.err); return; }
                if (e.opens || e.bad) { mc::fail("leak", what() + ": the connection is not closed properly"); return; }
                if (e.endAt - sim::kEpoch > 50 * sim::sec) { mc::fail("close", what() + ": takes " + std::to_string((e.endAt - sim::kEpoch) / sim::sec) + " s"); return; }
                Stream w = readFrames(e.wire, !sv); int k = 0; for (auto& v : w.ev) k += v.op == 8;
                if ((f == OPEN || f == FIN) && (w.end != Stream::CLEAN || w.ev.size() != 2 || k != 1 || !w.why.empty())) { mc::fail("close", what() + ": on the wire is " + showEv(w.ev) + " " + w.why); return; }
                if (w.end == Stream::ERROR || k > 1 || w.why.size()) { mc::fail("close", what() + ": on the wire is " + showEv(w.ev) + " " + w.why); return; }
            }
            done();
        });
        // silence, pings and their answers
        mc::run_case(side + "/silence", [&] {
            std::string msg = frame(1, "hello", sv), pong = frame(10, "", sv);
            struct T { long long wait; std::string bytes; }; 
            std::vector<std::pair<std::string, std::string>> ps = {{"pong", pong}, {"message", msg}, {"ping", frame(9, "z", sv)}, {"first half", msg.substr(0, 3)}, {"second half", msg.substr(3)}, {"one byte", msg.substr(0, 1)}, {"rest", msg.substr(1)}, {"pong and message", pong + msg}, {"message and pong", msg + pong}};
            std::vector<long long> gaps = {1, 59, 61, 79, 85};
            for (std::size_t a = 0; a < ps.size(); ++a) for (std::size_t b = 0; b < ps.size(); ++b) for (std::size_t c = 0; c < ps.size(); ++c) for (auto g1 : gaps) for (auto g2 : gaps) {
                if (!th && c % 2 && g2 != 61) continue;
                ++runs; mc::transition(); mc::arm(); std::string all = ps[a].second + ps[b].second + ps[c].second; Stream r = readFrames(all, sv);
                auto scr = [&](sim::Conn& k) { k.pause(sim::ms); k.data(ps[a].second); k.pause(g1 * sim::sec); k.data(ps[b].second); k.pause(g2 * sim::sec); k.data(ps[c].second); };
                End e; auto u = receiver(); if (sv) e = asServer(nullptr, [&](sim::Conn& k) { k.data(wsReq()); scr(k); }, u); else e = asClient(nullptr, [&](sim::Conn& k, std::string h) { k.data(h); scr(k); }, u);
                auto what = [&] { return side + " receiving " + ps[a].first + ", after " + std::to_string(g1) + " s " + ps[b].first + ", after " + std::to_string(g2) + " s " + ps[c].first; };
                if (!e.run.empty() || !e.up || !e.over || e.err.empty()) { mc::fail("silence", what() + ": " + e.run + e.err); return; }
                // nobody is given up on before 80 s of silence, nor kept much longer; what still counts as silence after a ping is answered by half a frame only is left open
                auto frames = [&](std::string const& t) { return readFrames(t, sv).ev.size(); };
                std::string upto = ps[a].second; long long last = sim::kEpoch + sim::ms; bool vague = false;
                if (g1 < 80) { auto n = frames(upto); upto += ps[b].second; last += g1 * sim::sec; vague = g1 > 60 && frames(upto) == n;
                    if (vague && g2 >= 20) { upto.clear(); last = -1; } else if (g2 < 80) { n = frames(upto); upto += ps[c].second; last += g2 * sim::sec; vague = (vague || g2 > 60) && frames(upto) == n; } }
                if (last < 0) continue;
                Stream x = readFrames(upto, sv); std::vector<Ev> m; for (auto& v : x.ev) if (v.op < 8) m.push_back(v);
                if (e.got != m) { mc::fail("silence", what() + ": got " + showEv(e.got) + " instead of " + showEv(m) + " (" + e.err + ")"); return; }
                if (x.end != Stream::ERROR && (e.endAt - last > 83 * sim::sec || e.endAt - last < (vague ? 19 : 77) * sim::sec)) { mc::fail("silence", what() + ": the silent peer is given up after " + std::to_string((e.endAt - last) / sim::sec) + " s"); return; }
                (void)r;
            }
            done();
        });
    }
}
