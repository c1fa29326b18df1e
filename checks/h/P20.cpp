// P20: what the client returns for a response does not depend on segmentation; bad responses are errors.
#include "cli_common.hpp"
using namespace vp;
static uint64_t runs;
struct K { std::string name, raw; bool head = false; int status = 200; std::map<std::string, std::string> h; std::string body; bool untilClose = false; };
static std::vector<K> kinds;
static std::string hx(std::size_t n) { char b[20]; std::snprintf(b, 20, "%zx", n); return b; }
static std::string chunks(std::string const& s, std::vector<std::size_t> const& sz, std::string ext = "", std::string trailer = "") { std::string o; std::size_t p = 0; for (auto n : sz) { n = std::min(n, s.size() - p); if (!n) break; o += hx(n) + ext + "\r\n" + s.substr(p, n) + "\r\n"; p += n; } if (p < s.size()) o += hx(s.size() - p) + "\r\n" + s.substr(p) + "\r\n"; return o + "0" + ext + "\r\n" + trailer + "\r\n"; }
static void mk() {
    auto add = [&](std::string n, std::string head, std::string wire, int st, std::string body, std::map<std::string, std::string> h = {}, bool hd = false, bool uc = false) { kinds.push_back({n, head + "\r\n" + wire, hd, st, h, body, uc}); };
    std::string tricky = "HTTP/1.1 500 X\r\n\r\n0\r\n\r\n"s;
    add("length", "HTTP/1.1 200 OK\r\nContent-Length: 5\r\nX-A: b\r\n", "hello", 200, "hello", {{"content-length", "5"}, {"x-a", "b"}});
    add("length tricky", "HTTP/1.1 404 Not Found\r\ncontent-length:" + std::to_string(tricky.size()) + "\r\n", tricky, 404, tricky, {{"content-length", std::to_string(tricky.size())}});
    add("length binary", "HTTP/1.1 200 OK\r\nCONTENT-LENGTH: 6  \r\n", "\0\r\n\xff\n\0"s, 200, "\0\r\n\xff\n\0"s, {{"content-length", "6"}});
    add("length zero", "HTTP/1.1 200 OK\r\nContent-Length: 0\r\n", "", 200, "", {{"content-length", "0"}});
    add("chunked", "HTTP/1.1 200 OK\r\nTransfer-Encoding: chunked\r\n", chunks("hello, world", {5, 2}), 200, "hello, world", {{"transfer-encoding", "chunked"}});
    add("chunked ext", "HTTP/1.1 200 OK\r\nTransfer-Encoding: chunked\r\nX: y\r\n", chunks("0\r\n\r\nabc", {3}, ";a=b", "T: 1\r\n"), 200, "0\r\n\r\nabc", {{"transfer-encoding", "chunked"}, {"x", "y"}});
    add("chunked big hex", "HTTP/1.1 200 OK\r\nTransfer-Encoding: chunked\r\n", "00A\r\n0123456789\r\n000\r\n\r\n", 200, "0123456789", {{"transfer-encoding", "chunked"}});
    add("chunked letters", "HTTP/1.1 200 OK\r\nTransfer-Encoding: chunked\r\n", "f\r\n0123456789abcde\r\nF\r\n0123456789ABCDE\r\n0aB\r\n" + std::string(0xab, 'z') + "\r\n0\r\n\r\n", 200, "0123456789abcde0123456789ABCDE" + std::string(0xab, 'z'), {{"transfer-encoding", "chunked"}});
    add("both framings", "HTTP/1.1 200 OK\r\nContent-Length: 4\r\nTransfer-Encoding: chunked\r\n", chunks("hello, world", {5, 2}), 200, "hello, world", {{"transfer-encoding", "chunked"}, {"content-length", "4"}});
    add("chunked empty", "HTTP/1.1 200 OK\r\nTransfer-Encoding: chunked\r\n", "0\r\n\r\n", 200, "", {{"transfer-encoding", "chunked"}});
    add("no content", "HTTP/1.1 204 No Content\r\nA: b\r\n", "", 204, "", {{"a", "b"}});
    add("not modified", "HTTP/1.1 304 Not Modified\r\nContent-Length: 9\r\n", "", 304, "", {{"content-length", "9"}});
    add("head", "HTTP/1.1 200 OK\r\nContent-Length: 9\r\n", "", 200, "", {{"content-length", "9"}}, true);
    add("head chunked", "HTTP/1.1 200 OK\r\nTransfer-Encoding: chunked\r\n", "", 200, "", {{"transfer-encoding", "chunked"}}, true);
    add("interim", "HTTP/1.1 100 Continue\r\n\r\nHTTP/1.1 201 Created\r\nContent-Length: 2\r\n", "ab", 201, "ab", {{"content-length", "2"}});
    add("interims", "HTTP/1.1 103 Early Hints\r\nLink: x\r\nContent-Length: 7\r\n\r\nHTTP/1.1 102 P\r\n\r\nHTTP/1.1 200 OK\r\nTransfer-Encoding: chunked\r\n", chunks("abc", {1}), 200, "abc", {{"transfer-encoding", "chunked"}});
    add("close length", "HTTP/1.1 200 OK\r\nConnection: close\r\nContent-Length: 3\r\n", "abc", 200, "abc", {{"connection", "close"}, {"content-length", "3"}});
    add("old", "HTTP/1.0 200 OK\r\nContent-Length: 3\r\n", "abc", 200, "abc", {{"content-length", "3"}});
    add("until close", "HTTP/1.1 200 OK\r\nX: y\r\n", "all the rest\r\n\r\n", 200, "all the rest\r\n\r\n", {{"x", "y"}}, false, true);
    add("until close empty", "HTTP/1.0 200 OK\r\n", "", 200, "", {}, false, true);
    add("no headers", "HTTP/1.1 204 \r\n", "", 204, "", {});
    add("no reason", "HTTP/1.1 204\r\n", "", 204, "", {});
    add("long reason", "HTTP/1.1 418 I am a  teapot: yes\r\nContent-Length: 1\r\n", "x", 418, "x", {{"content-length", "1"}});
    add("odd headers", "HTTP/1.1 200 OK\r\nA:\r\nB: \t x y \t\r\nC: d:e,f\r\nContent-Length: 0\r\n", "", 200, "", {{"a", ""}, {"b", "x y"}, {"c", "d:e,f"}, {"content-length", "0"}});
}
// One GET (or HEAD) against one scripted connection; any further connection is refused. keep: the server leaves the connection open.
enum End { OPEN, FIN, GONE, RST };
struct Out { Got1 g; std::string run; long long took = 0; std::size_t conns = 0, opens = 0; int bad = 0; std::string sent; };
static Out one(bool head, std::function<void(sim::Conn&)> feed, mc::Chooser* ch = nullptr, std::function<void()> setup = {}, bool reconnect = true) {
    ++runs; mc::transition(); sim::reset(ch); sim::W().maxEvents = 200000; if (setup) setup();
    int n = 0; sim::W().onConnect = [&](sim::Conn& c, sockaddr const*) { if (n++) return -ECONNREFUSED; c.wait(aRequest()); feed(c); return 0; };
    Out o;
    o.run = withClient([&](Cli& cli) -> Task<> {
        if (head) { auto r = co_await cli.coRequest<HEAD>("http://h:80/p"); o.g = take(r); } else { auto r = co_await cli.coGet("http://h:80/p"); o.g = take(r); }
        o.took = sim::W().now - sim::kEpoch;
    }, reconnect);
    for (auto& c : sim::W().all) { ++o.conns; if (c->open) ++o.opens; if (!c->no) o.sent = c->out; }
    o.bad = sim::W().badClose; return o;
}
static void end(sim::Conn& c, End e) { if (e == FIN) c.fin(); else if (e == GONE) c.gone(); else if (e == RST) c.reset(); }
static bool sane(Out const& o, std::function<std::string()> what) {
    if (!o.run.empty()) { mc::fail("hang", what() + ": " + o.run); return false; }
    if (o.opens) { mc::fail("leak", what() + ": the connection is left open"); return false; }
    if (o.bad) { mc::fail("bad-close", what() + ": " + sim::W().badWhat); return false; }
    return true;
}
static bool good(K const& k, std::vector<std::size_t> const& cuts, End e, mc::Chooser* ch = nullptr, std::string const* raw = nullptr) {
    auto what = [&] { return k.name + " cut at " + cutstr(cuts) + (ch ? " choices " + ch->str() : ""); };
    Out o = one(k.head, [&](sim::Conn& c) { c.cut(raw ? *raw : k.raw, cuts); end(c, k.untilClose ? FIN : e); }, ch, [&] { if (ch) sim::W().chRecv = sim::W().chSend = true; });
    if (!sane(o, what)) return false;
    Got1 w{true, k.status, k.h, k.body, ""};
    if (!(o.g == w)) { mc::fail("result", what() + ": the client returned " + show(o.g) + ", sent was " + show(w)); return false; }
    if (o.conns != 1) { mc::fail("again", what() + ": " + std::to_string(o.conns) + " connections were opened"); return false; }
    return true;
}

void mc_main() {
    bool th = mc::thorough(); mk();
    for (auto& k : kinds) {
        mc::run_case("cuts/" + k.name, [&] {
            std::size_t n = k.raw.size();
            for (End e : {OPEN, FIN, GONE}) { if (!good(k, {}, e)) return; for (std::size_t i = 1; i < n; ++i) if (!good(k, {i}, e)) return; }
            for (std::size_t i = 1; i < n; ++i) { mc::arm(); for (std::size_t j = i + 1; j < n; ++j) { if (!good(k, {i, j}, OPEN)) return;
                if (th) for (std::size_t l = j + 1; l < n; l += 1 + (n > 60)) if (!good(k, {i, j, l}, OPEN)) return; } }
            std::vector<std::size_t> all; for (std::size_t i = 1; i < n; ++i) all.push_back(i);
            if (!good(k, all, OPEN)) return;
            mc::state(runs); runs = 0; mc::outcome(k.name);
        });
        mc::run_case("short/" + k.name, [&] {
            mc::sub_explore("short", th ? 3 : 2, [&](mc::Chooser& c) { mc::arm(); good(k, {}, OPEN, &c); }, 200000);
            std::vector<std::size_t> all; for (std::size_t i = 1; i < k.raw.size(); i += 3) all.push_back(i);
            mc::sub_explore("short", 1, [&](mc::Chooser& c) { mc::arm(); good(k, all, GONE, &c); }, 200000);
            mc::state(runs); runs = 0;
        });
        // every truncation, ended in every way, whole and byte by byte
        mc::run_case("trunc/" + k.name, [&] {
            std::size_t n = k.raw.size(), hd = k.untilClose ? k.raw.find("\r\n\r\n") + 4 : n;
            for (std::size_t i = 0; i < n + (k.untilClose ? 1 : 0); ++i) for (End e : {FIN, GONE, RST, OPEN}) for (bool rc : {true, false}) for (int by = 0; by < 2; ++by) {
                mc::arm(); std::string t = k.raw.substr(0, i); std::vector<std::size_t> cuts; if (by) for (std::size_t x = 1; x < i; ++x) cuts.push_back(x);
                auto what = [&] { static char const* en[] = {"silence", "a close", "a full close", "a reset"}; return k.name + " ended after " + std::to_string(i) + " bytes by " + en[e] + (by ? ", byte by byte" : "") + (rc ? "" : ", no reconnecting"); };
                Out o = one(k.head, [&](sim::Conn& c) { c.cut(t, cuts); end(c, e); }, nullptr, {}, rc);
                if (!sane(o, what)) return;
                if (i >= hd && (e == FIN || e == GONE)) { if (!(o.g == Got1{true, k.status, k.h, k.raw.substr(hd, i - hd), ""})) { mc::fail("result", what() + ": the client returned " + show(o.g)); return; } }
                else if (o.g.ok) { mc::fail("fabricated", what() + ": the client returned " + show(o.g)); return; }
                if (o.took > 40 * sim::sec) { mc::fail("slow", what() + ": the error took " + std::to_string(o.took / sim::sec) + " s"); return; }
                if (!rc && o.conns != 1) { mc::fail("again", what() + ": reconnected though that is turned off"); return; }
                if (o.conns > 2) { mc::fail("again", what() + ": " + std::to_string(o.conns) + " connections were tried"); return; }
            }
            mc::state(runs); runs = 0;
        });
    }
    // bodies around and beyond the receive buffer
    for (int form = 0; form < 3; ++form) mc::run_case("big/" + std::to_string(form), [&] {
        for (std::size_t n : {16000ul, 16383ul, 16384ul, 16385ul, 32768ul, 40000ul, 100001ul}) for (std::size_t seg : {1000ul, 1460ul, 4096ul, 16384ul, 16385ul, 1000000ul}) for (int cs = 0; cs < (form == 1 ? 4 : 1); ++cs) {
            mc::arm(); std::string b = pattern(n, (unsigned)(n + cs)), raw = "HTTP/1.1 200 OK\r\n"; std::map<std::string, std::string> h;
            if (form == 0) { raw += "Content-Length: " + std::to_string(n) + "\r\n\r\n" + b; h["content-length"] = std::to_string(n); }
            else if (form == 1) { std::vector<std::size_t> sz; std::size_t s = cs == 0 ? 7 : cs == 1 ? 1024 : cs == 2 ? 16384 : 1u << 20; for (std::size_t p = 0; p < n; p += s) sz.push_back(s); raw += "Transfer-Encoding: chunked\r\n\r\n" + chunks(b, sz); h["transfer-encoding"] = "chunked"; }
            else raw += "\r\n" + b;
            std::vector<std::size_t> cuts; for (std::size_t p = seg; p < raw.size(); p += seg) cuts.push_back(p);
            K k{"body of " + std::to_string(n) + " bytes form " + std::to_string(form) + " chunks " + std::to_string(cs) + " segments of " + std::to_string(seg), raw, false, 200, h, b, form == 2};
            auto what = [&] { return k.name; };
            Out o = one(false, [&](sim::Conn& c) { c.cut(raw, cuts); end(c, k.untilClose ? FIN : OPEN); });
            if (!sane(o, what)) return;
            if (!(o.g == Got1{true, 200, h, b, ""})) { mc::fail("big", what() + ": the client returned " + show(o.g)); return; }
        }
        mc::state(runs); runs = 0;
    });
    mc::run_case("long head", [&] {
        for (std::size_t n : {100ul, 8000ul, 16000ul}) for (int many = 0; many < 2; ++many) for (std::size_t seg : {1ul, 1000ul, 100000ul}) {
            mc::arm(); std::string raw = "HTTP/1.1 200 OK\r\n"; std::map<std::string, std::string> h;
            if (many) for (std::size_t i = 0; i < n / 20; ++i) { std::string k = "x-" + std::to_string(i), v(10, 'v'); raw += k + ": " + v + "\r\n"; h[k] = v; }
            else { raw += "x: " + abc(n) + "\r\n"; h["x"] = abc(n); }
            raw += "Content-Length: 3\r\n\r\nabc"; h["content-length"] = "3";
            std::vector<std::size_t> cuts; for (std::size_t p = seg; p < raw.size(); p += seg) cuts.push_back(p);
            auto what = [&] { return "head of " + std::to_string(raw.size()) + " bytes in " + std::to_string(seg); };
            Out o = one(false, [&](sim::Conn& c) { c.cut(raw, cuts); });
            if (!sane(o, what)) return;
            if (!(o.g == Got1{true, 200, h, "abc", ""})) { mc::fail("long-head", what() + ": the client returned " + show(o.g)); return; }
        }
        // without end: an error or a result, never a wait without end
        for (auto piece : {"x: aaaaaaaaaaaaaaaaaaaa\r\n"s, "aaaaaaaaaaaaaaaaaaaa"s, "\r\n"s, "HTTP/1.1 100 C\r\n\r\n"s}) {
            auto what = [&] { return "an endless head of " + mc::esc(piece); };
            Out o = one(false, [&](sim::Conn& c) { c.data("HTTP/1.1 200 OK\r\n"); for (int i = 0; i < 5000; ++i) c.data(piece); c.gone(); });
            sane(o, what);
        }
        mc::state(runs); runs = 0;
    });
    // malformed responses are errors
    mc::run_case("malformed", [&] {
        std::vector<std::string> bad;
        for (auto s : {"HTTP/1.1\r\n", "HTTP/1.1 \r\n", "\r\n", "garbage\r\n", "200 OK\r\n", "HTTP/1.1 abc OK\r\n", "HTTP/1.1 20x OK\r\n", "HTTP/1.1 2000 OK\r\n", "HTTP/1.1 20 OK\r\n", "HTTP/1.1 -20 OK\r\n", "HTTP/1.1 99999999999 OK\r\n", "HTTP/1.1 OK 200\r\n", "FTP/1.1 200 OK\r\n", "<html> 200 </html>\r\n", "SSH-2.0-OpenSSH 200\r\n", ": 200 OK\r\n"}) bad.push_back(s + "Content-Length: 3\r\n\r\nabc"s);
        for (auto s : {"nocolon\r\n", ": v\r\n", " folded first\r\n"}) bad.push_back("HTTP/1.1 200 OK\r\n"s + s + "Content-Length: 3\r\n\r\nabc");
        for (auto s : {"", "x", "-3", "+3", "3x", "0x3", "3 3", "3;", "99999999999999999999", "18446744073709551616", "3.0"}) bad.push_back("HTTP/1.1 200 OK\r\nContent-Length: "s + s + "\r\n\r\nabc");
        for (auto s : {"3\r\nabc\r\n", "3\r\nabcd\r\n0\r\n\r\n", "x\r\nabc\r\n0\r\n\r\n", "\r\nabc\r\n0\r\n\r\n", "-3\r\nabc\r\n0\r\n\r\n", "3 3\r\nabc\r\n0\r\n\r\n", "g3\r\nabc\r\n0\r\n\r\n", "3\r\nabc0\r\n\r\n", "3\r\nabc\r\n0\r\n", "3\r\nabc\r\n;\r\n\r\n", "10000000000000000\r\nabc\r\n0\r\n\r\n", "FFFFFFFFFFFFFFFFF\r\nabc\r\n0\r\n\r\n", "fffffffffffffffe\r\nabc\r\n0\r\n\r\n", "0x3\r\nabc\r\n0\r\n\r\n", "3\r\nab\r\n0\r\n\r\n"}) bad.push_back("HTTP/1.1 200 OK\r\nTransfer-Encoding: chunked\r\n\r\n"s + s);
        for (auto& b : bad) for (int mode = 0; mode < 3; ++mode) for (End e : {GONE, OPEN, RST}) {
            mc::arm(); std::vector<std::size_t> cuts; if (mode) for (std::size_t i = 1; i < b.size(); i += mode == 1 ? 1 : 7) cuts.push_back(i);
            auto what = [&] { return mc::esc(b, 120) + (mode ? " in pieces" : "") + " end " + std::to_string(e); };
            Out o = one(false, [&](sim::Conn& c) { c.cut(b, cuts); end(c, e); });
            if (!sane(o, what)) return;
            if (o.g.ok) { mc::fail("malformed", what() + ": the client returned " + show(o.g)); return; }
        }
        mc::state(runs); runs = 0;
    });
    // every single-byte change of every response: never a crash, a hang or a leak; a result only if an independent reader finds the same
    for (auto& k : kinds) mc::run_case("edit/" + k.name, [&] {
        std::string_view alpha = "\0\r\n :;/.-+09aAfZHC,\x7f\xff"sv;
        for (std::size_t i = 0; i <= k.raw.size(); ++i) { mc::arm(); for (int op = 0; op < 3; ++op) for (std::size_t a = 0; a < (op == 2 ? 1 : alpha.size()); ++a) for (End e : {GONE, OPEN}) {
            std::string t = k.raw; if (op == 0) t.insert(i, 1, alpha[a]); else if (i == k.raw.size()) continue; else if (op == 1) t[i] = alpha[a]; else t.erase(i, 1);
            auto what = [&] { return k.name + " changed to " + mc::esc(t, 200) + (e == OPEN ? " and silence" : ""); };
            Out o = one(k.head, [&](sim::Conn& c) { c.data(t); end(c, e); });
            if (!sane(o, what)) return;
            // strict reading, interim responses skipped
            std::size_t p = 0; Rsp r; std::string why; Got g; do g = readRsp(t, p, k.head, r, why); while (g == OK && r.status / 100 == 1 && r.status != 101);
            if (g == OK && r.untilClose && e == OPEN) g = MORE;
            bool fold = false; for (std::size_t x = t.find("\r\n"); x != t.npos && x < t.find("\r\n\r\n"); x = t.find("\r\n", x + 1)) if (x + 2 < t.size() && (t[x + 2] == ' ' || t[x + 2] == '\t')) fold = true;
            if (g == OK && !fold && r.status >= 100 && r.status < 600) {
                Got1 w{true, r.status, {}, r.body, ""}; for (auto& [kk, v] : r.h) { auto s = lower(kk); while (!v.empty() && (v[0] == ' ' || v[0] == '\t')) v.erase(0, 1); while (!v.empty() && (v.back() == ' ' || v.back() == '\t')) v.pop_back(); w.h.emplace(s, v); }
                if (!(o.g == w)) { mc::fail("edit", what() + ": the client returned " + show(o.g) + ", the text says " + show(w)); return; }
            } else if (g == MORE && o.g.ok && e == GONE && t.find("\r\n\r\n") == t.npos) { mc::fail("fabricated", what() + ": the client returned " + show(o.g)); return; }
        } }
        mc::state(runs); runs = 0;
    });
}
