// P38: a malformed request is never taken for a complete one, and nothing behind it is taken for a request.
#include "srv_common.hpp"
using namespace vp;

struct Seen { std::string method, target, version, body; std::map<std::string, std::string> h; std::string err; bool done = false; };
static std::vector<Seen> seen; static uint64_t runs;
enum Mode { READ, SAVE, IGNORE, CATCH } static mode;
static Rt* router() {
    static Rt* r = [] {
        auto* r = new Rt;
        auto f = [](Req& req, Res& res) -> Task<> {
            std::size_t me = seen.size(); { Seen s; s.method = req.getReqType(); s.target = req.getReqPath(); s.version = req.getProtocolVersion(); for (auto& [k, v] : req.getHeaders()) s.h[lower(k)] = v; seen.push_back(s); }
            try {
                if (mode == READ || mode == CATCH) seen[me].body = co_await req.template parseBody<Timeout30>();
                if (mode == SAVE) { auto p = scratch() + "/b"; co_await req.template saveToFile<Timeout30>(p); seen[me].body = get(p); }
                if (mode != IGNORE) seen[me].done = true;
            } catch (std::exception const& e) { seen[me].err = e.what(); }
            if (!seen[me].err.empty() && mode != CATCH) throw std::runtime_error("body");
            co_await res.setStatusAndContent(Status::CODE_200, "ok").sendRes();
        };
        r->addEndpoint<GET, POST, PUT, DEL, HEAD, HttpMethod::PATCH, HttpMethod::OPTIONS>("/**", f);
        r->addEndpoint<GET, POST, PUT, DEL, HEAD, HttpMethod::PATCH, HttpMethod::OPTIONS>("/", f);
        return r;
    }();
    return r;
}
// ---- the reference reading of a client's bytes ----
enum Verdict { ACCEPT, REJECT_HEAD, REJECT_BODY, PART_HEAD, PART_BODY, OPEN_ };    // OPEN_: may be read in several ways
static char const* vn[] = {"well-formed", "malformed in its head", "malformed in its body", "incomplete in its head", "incomplete in its body", "open"};
struct Ref { Verdict v = OPEN_; Seen s; bool close = false; std::string why; };
static bool routed(std::string const& m) { for (auto x : {"GET", "POST", "PUT", "DELETE", "HEAD", "PATCH", "OPTIONS"}) if (m == x) return true; return false; }
static std::string ows(std::string v) { while (!v.empty() && (v[0] == ' ' || v[0] == '\t')) v.erase(0, 1); while (!v.empty() && (v.back() == ' ' || v.back() == '\t')) v.pop_back(); return v; }
static bool clean(std::string const& s) { for (unsigned char c : s) if ((c < 32 && c != '\t') || c == 127) return false; return true; }
// 1 digits, 0 no, -1 too large
static int number(std::string const& s, int base, std::size_t& n) { n = 0; if (s.empty()) return 0; bool over = false; for (unsigned char c : s) { int d = std::isdigit(c) ? c - '0' : std::isxdigit(c) ? (c | 32) - 'a' + 10 : 99; if (d >= base) return 0; if (n > (~std::size_t(0) - (std::size_t)d) / (std::size_t)base) over = true; n = n * (std::size_t)base + (std::size_t)d; } return over ? -1 : 1; }
static std::vector<Ref> reference(std::string const& all) {
    std::vector<Ref> out; std::size_t i = 0;
    auto line = [&](std::string& l) { auto e = all.find("\r\n", i); if (e == all.npos) return false; l = all.substr(i, e - i); i = e + 2; return true; };
    for (;;) {
        while (all.compare(i, 2, "\r\n") == 0) i += 2;
        if (i >= all.size()) return out;
        Ref r; bool open = false; std::string l;
        auto end = [&](Verdict v, std::string why = "") { r.v = v; r.why = why; out.push_back(r); return out; };
        if (!line(l)) return end(PART_HEAD);
        std::vector<std::string> parts; { std::string w; for (char c : l + " ") if (c == ' ') { if (!w.empty()) parts.push_back(w); w.clear(); } else w += c; }
        if (parts.size() != 3) return end(REJECT_HEAD, "request line of " + std::to_string(parts.size()) + " words");
        if (l != parts[0] + " " + parts[1] + " " + parts[2] || !clean(l)) open = true;
        if (!routed(parts[0]) || parts[1][0] != '/' || (parts[2] != "HTTP/1.1" && parts[2] != "HTTP/1.0")) open = true;
        r.s.method = parts[0]; r.s.target = parts[1]; r.s.version = parts[2];
        std::vector<std::pair<std::string, std::string>> h; bool part = false;
        for (;;) {
            if (!line(l)) { part = true; break; }
            if (l.empty()) break;
            if (l[0] == ' ' || l[0] == '\t') { if (h.empty()) return end(REJECT_HEAD, "a continued line before any field"); open = true; h.back().second += l; continue; }
            auto c = l.find(':'); if (c == l.npos || c == 0) return end(REJECT_HEAD, "header line '" + mc::esc(l, 60) + "'");
            if (l[c - 1] == ' ' || l[c - 1] == '\t') return end(REJECT_HEAD, "space before the colon in '" + mc::esc(l, 60) + "'");
            std::string k = lower(l.substr(0, c)); for (unsigned char x : k) if (!tokenChar(x)) open = true;
            if (!clean(l)) open = true;
            h.push_back({k, ows(l.substr(c + 1))});
        }
        std::map<std::string, int> n; for (auto& [k, v] : h) { ++n[k]; r.s.h.emplace(k, v); }
        for (auto& [k, c] : n) if (c > 1 && k != "content-length") open = true;      // several of one name: which one a handler sees is left open
        int nte = n["transfer-encoding"]; std::size_t len = 0; bool badLen = false, two = false; std::string first;
        for (auto& [k, v] : h) if (k == "content-length") { std::size_t x; if (number(v, 10, x) != 1) { if (v.find(',') == v.npos) badLen = true; else open = true; } if (n[k] > 1) { open = true; if (!first.empty() && ows(v) != first) two = true; } if (first.empty()) first = v; len = x; }
        if (badLen && nte) { open = true; badLen = false; }
        if (two && !nte && !badLen) { bool num = true; std::size_t a = 0, x; bool f = true; for (auto& [k, v] : h) if (k == "content-length") { if (number(v, 10, x) != 1) num = false; if (!f && x == a) num = false; if (f) a = x; f = false; } if (num) return part ? end(PART_HEAD) : end(REJECT_BODY, "two different lengths"); }
        if (part) return end(PART_HEAD);
        if (nte > 1) open = true;
        if (nte == 1) { auto te = lower(r.s.h["transfer-encoding"]); if (te != "chunked") { auto c = te.rfind(','); if (ows(c == te.npos ? te : te.substr(c + 1)) == "chunked") open = true; else if (open) return end(OPEN_); else return end(REJECT_BODY, "transfer coding '" + mc::esc(te, 40) + "'"); } if (parts[2] == "HTTP/1.0") open = true; }
        if (open) return end(OPEN_);
        if (badLen) return end(REJECT_BODY, "bad length");
        { bool keep = parts[2] == "HTTP/1.1"; if (n["connection"]) { std::string v = lower(r.s.h["connection"]) + ","; std::string w; bool cl = false; for (char c : v) if (c == ',') { w = ows(w); if (w == "close") cl = true; if (w == "keep-alive") keep = true; w.clear(); } else w += c; if (cl) keep = false; } r.close = !keep; }
        if (nte) {
            for (;;) {
                if (!line(l)) {       // a size that cannot become one any more, without its end
                    return end(PART_BODY);
                }
                std::string z = l.substr(0, l.find(';')); std::size_t k; int g = number(ows(z), 16, k);
                if (g != 1) return end(REJECT_BODY, "chunk size '" + mc::esc(l, 40) + "'");
                if (ows(z) != z || !clean(l)) return end(OPEN_);
                if (k) {
                    if (all.size() - i < k) return end(PART_BODY);
                    r.s.body.append(all, i, k); i += k;
                    if (all.size() - i < 2) { return end(all.size() - i == 1 && all[i] != '\r' ? REJECT_BODY : PART_BODY, "chunk without end"); }
                    if (all.compare(i, 2, "\r\n")) return end(REJECT_BODY, "chunk without end");
                    i += 2; continue;
                }
                for (;;) { if (!line(l)) return end(PART_BODY); if (l.empty()) break; if (l.find(':') == l.npos || l.find(':') == 0 || !clean(l) || l[0] == ' ' || l[0] == '\t' || l[l.find(':') - 1] == ' ') return end(OPEN_); }
                break;
            }
        } else if (n["content-length"]) { if (all.size() - i < len) return end(PART_BODY); r.s.body = all.substr(i, len); i += len; }
        r.v = ACCEPT; out.push_back(r); if (r.close) return out;
    }
}
static std::string show(Seen const& s) { std::string r = s.method + " " + mc::esc(s.target, 60) + " " + mc::esc(s.version, 20) + " {"; for (auto& [k, v] : s.h) r += mc::esc(k, 40) + ":" + mc::esc(v, 60) + " "; return r + "} body(" + std::to_string(s.body.size()) + ") " + mc::esc(s.body, 80); }
// how: 0 whole, 1 byte by byte, 2.. cut in two at how
static bool once(std::string const& all, std::vector<Ref> const& ref, Mode m, std::size_t how, std::string const& tag) {
    mode = m; seen.clear(); ++runs; mc::transition();
    auto fail = [&](std::string k, std::string s) { static char const* mn[] = {"", " (saved to a file)", " (body ignored)", " (handler answers in spite of the error)"}; mc::fail(k, tag + mn[m] + (how == 0 ? "" : how == 1 ? " byte by byte" : " cut at " + std::to_string(how - 1)) + ": " + s + "; bytes: " + mc::esc(all, 400)); return false; };
    std::shared_ptr<sim::Conn> c;
    try { c = serve(nullptr, *router(), [&](sim::Conn& c) { if (how == 0) c.data(all); else if (how == 1) for (char x : all) c.data({x}); else c.cut(all, {how - 1}); c.fin(); }, [&] { sim::W().maxEvents = 20000 + 8 * all.size(); }); }
    catch (sim::Quiet&) { return fail("stuck", "the server waits for something that never happens"); }
    catch (sim::Runaway&) { return fail("livelock", "the server loops without end"); }
    for (std::size_t i = 0; i < ref.size(); ++i) {
        auto const& r = ref[i]; std::string no = "request " + std::to_string(i) + " (" + vn[r.v] + (r.why.empty() ? "" : ": " + r.why) + ") ";
        if (r.v == OPEN_) return true;
        if (r.v == ACCEPT) {
            if (i >= seen.size()) return fail("missing", no + "never reached its handler");
            auto& s = seen[i];
            if (s.method != r.s.method || s.target != r.s.target || s.version != r.s.version || s.h != r.s.h) return fail("misread", no + "was observed as " + show(s) + " instead of " + show(r.s));
            if (m != IGNORE && (!s.done || s.body != r.s.body)) return fail("misread", no + "was observed as " + show(s) + " " + s.err + " instead of " + show(r.s));
            continue;
        }
        std::size_t most = r.v == REJECT_HEAD || r.v == PART_HEAD ? i : i + 1;
        if (seen.size() > most) return fail(seen.size() > i + 1 ? "smuggled" : "accepted", no + "and still a handler ran for " + show(seen.back()));
        if (seen.size() > i && seen[i].done) return fail("accepted", no + "was given to its handler as complete: " + show(seen[i]));
        return true;
    }
    if (seen.size() > ref.size()) return fail("smuggled", "a handler ran for " + show(seen.back()) + ", which nobody sent");
    return true;
}
static bool deliver(std::string const& s, std::string const& tag, bool cuts = false) {
    mc::arm(); auto ref = reference(s); bool judged = !ref.empty() && ref[0].v != OPEN_; if (!judged) { ++runs; return true; }
    for (Mode m : {READ, SAVE, IGNORE, CATCH}) for (std::size_t how = 0; how < 2; ++how) { if (m != READ && (ref[0].s.h.empty() || how)) continue; if (!once(s, ref, m, how, tag)) return false; }
    if (cuts) for (std::size_t i = 1; i < s.size(); ++i) if (!once(s, ref, READ, i + 1, tag)) return false;
    mc::outcome(std::string(vn[ref[0].v]) + ref[0].why + std::to_string(ref.size()) + vn[ref.back().v]);
    return true;
}
template <typename F> static void seqs(std::vector<std::string> const& t, std::size_t d, std::string s, F&& f) { if (!d) { f(s); return; } for (auto& x : t) seqs(t, d - 1, s + x, f); }
void mc_main() {
    bool th = mc::thorough(); std::string nxt = "GET /next HTTP/1.1\r\nHost: n\r\n\r\n"; const std::string N("\0", 1);
    // 1. heads: all sequences of up to three (thorough: four) header lines
    std::vector<std::string> hdr = {"Host: h\r\n", "Content-Length: 3\r\n", "Content-Length: 5\r\n", "Content-Length: 0\r\n", "Content-Length : 3\r\n", "content-length:\t3 \r\n", "Content-Length: 3x\r\n", "Content-Length: -3\r\n", "Content-Length: +3\r\n", "Content-Length: \r\n", "Content-Length: 3 3\r\n", "Content-Length: 0x3\r\n", "Content-Length: 3,3\r\n", "Content-Length: 18446744073709551619\r\n", "Content-Length: 184467440737095516190\r\n", "Content-Length: 00003\r\n",
        "Transfer-Encoding: chunked\r\n", "Transfer-Encoding: CHUNKED\r\n", "Transfer-Encoding : chunked\r\n", "Transfer-Encoding: gzip\r\n", "Transfer-Encoding: xchunked\r\n", "Transfer-Encoding: chunked, gzip\r\n", "Transfer-Encoding: gzip, chunked\r\n", "Transfer-Encoding:\r\n", "Transfer-Encoding: identity\r\n", "nocolon\r\n", ": v\r\n", " folded\r\n", "\tfolded: x\r\n", "A: b: c\r\n", "X Y: z\r\n", "Connection: close\r\n", "Connection: x, Close\r\n", "A:\r\n", "A\t: b\r\n"};
    for (auto& t : hdr) mc::run_case("head/" + mc::esc(t, 40), [&] {
        for (std::string rl : {"POST / HTTP/1.1\r\n", "GET /x HTTP/1.0\r\n"}) for (std::size_t d = 0; d < (th ? 3u : 2u); ++d) seqs(hdr, d, rl + t, [&](std::string const& s) {
            for (std::string b : {"abc", "3\r\nabc\r\n0\r\n\r\n", ""}) deliver(s + "\r\n" + b + nxt, "head", d < 1);
        });
        seqs(hdr, 1, "POST / HTTP/1.1\r\nContent-Length: 3\r\n\r\nabcPOST /2 HTTP/1.1\r\n" + t, [&](std::string const& s) { deliver(s + "\r\nabc" + nxt, "second head"); });
        mc::state(runs); runs = 0; mc::sample(mc::esc(t));
    });
    // 2. request lines
    std::vector<std::string> rl = {"GET", " ", "/", "/a", "HTTP/1.1", "HTTP/1.0", "HTTP/2", "x", "\t", ":", "\r", "\n", N, "POST /b HTTP/1.1", "\r\n"};
    for (auto& a : rl) mc::run_case("line/" + mc::esc(a), [&] { for (std::size_t d = 0; d <= (th ? 5u : 4u); ++d) seqs(rl, d, a, [&](std::string const& s) { mc::arm(); std::string x = s + "\r\n\r\n" + nxt; auto r = reference(x); if (!r.empty() && r[0].v != OPEN_) once(x, r, READ, 0, "request line"); }); mc::state(runs); runs = 0; });
    // 3. chunks
    std::vector<std::string> chk = {"0\r\n", "\r\n", "3\r\n", "abc", "abc\r\n", "abcd\r\n", "3;x=\"y\"\r\n", "03\r\n", "3 \r\n", " 3\r\n", "3x\r\n", "x\r\n", "-3\r\n", "+3\r\n", "0x3\r\n", ";\r\n", "\n", "3\n", "10000000000000003\r\n", "ffffffffffffffff\r\n", "fffffffffffffffff\r\n", "T: 1\r\n", "GET /in HTTP/1.1\r\n", "\r"};
    for (auto& a : chk) for (auto& b : chk) mc::run_case("chunks/" + mc::esc(a) + "," + mc::esc(b), [&] { for (std::size_t d = 0; d <= (th ? 3u : 2u); ++d) seqs(chk, d, "POST / HTTP/1.1\r\nTransfer-Encoding: chunked\r\n\r\n" + a + b, [&](std::string const& s) { if (d > 1) { for (std::string x : {s + "\r\n\r\n" + nxt, s + "0\r\n\r\n" + nxt}) { mc::arm(); if (!once(x, reference(x), READ, 0, "chunks")) return; } return; } deliver(s + "\r\n\r\n" + nxt, "chunks", d < 1); if (d < 2) deliver(s, "chunks"); deliver(s + "0\r\n\r\n" + nxt, "chunks"); }); mc::state(runs); runs = 0; });
    // 4. every edit of well-formed requests
    std::vector<std::pair<std::string, std::string>> good = {
        {"get", "GET /q?a=1 HTTP/1.1\r\nHost: h\r\nA: b\r\n\r\n"}, {"length", "POST / HTTP/1.1\r\nHost: h\r\nContent-Length: 12\r\n\r\nhello, world"}, {"chunked", "POST /c HTTP/1.1\r\nTransfer-Encoding: chunked\r\n\r\n5\r\nhello\r\n3;e=1\r\nabc\r\n0\r\nT: 1\r\n\r\n"},
        {"hex", "PUT /c HTTP/1.1\r\nTransfer-Encoding: chunked\r\n\r\n1a\r\n" + abc(26) + "\r\nB\r\n" + abc(11) + "\r\n00\r\n\r\n"}, {"two", "POST /1 HTTP/1.1\r\nContent-Length: 3\r\n\r\nabcPOST /2 HTTP/1.1\r\nContent-Length: 23\r\n\r\nGET /inner HTTP/1.1\r\n\r\n"}, {"close", "POST /1 HTTP/1.1\r\nContent-Length: 2\r\nConnection: close\r\n\r\nab"}, {"old", "POST /1 HTTP/1.0\r\nContent-Length: 2\r\nConnection: keep-alive\r\n\r\nab"}};
    for (auto& [nm, g] : good) for (std::size_t b = 0; b < 4; ++b) mc::run_case("edit/" + nm + "/" + std::to_string(b), [&, g = g, nm = nm] {
        std::string_view alpha = "\0\r\n :;,/.-+09aAfFgxZ\t\x7f\xff"sv;
        for (std::size_t i = b; i <= g.size(); i += 4) {
            deliver(g.substr(0, i), nm + " truncated"); if (i == g.size()) { for (char c : alpha) deliver(g + c + nxt, nm + " followed by a byte"); deliver(g + nxt, nm, true); continue; }
            { std::string x = g; x.erase(i, 1); deliver(x + nxt, nm + " minus one byte"); }
            for (char c : alpha) { std::string x = g; x[i] = c; deliver(x + nxt, nm + " with a changed byte"); x = g; x.insert(i, 1, c); deliver(x + nxt, nm + " with an inserted byte");
                if (th) for (std::size_t j = i + 1; j < g.size(); ++j) for (char d : "\r\n 9:"sv) { std::string y = x; y[j] = d; auto r = reference(y + nxt); mc::arm(); if (!r.empty() && r[0].v != OPEN_) once(y + nxt, r, READ, 0, nm + " with two changes"); } }
            for (std::size_t j = i + 2; j <= g.size(); ++j) { auto x = g.substr(0, i) + g.substr(j) + nxt; auto r = reference(x); mc::arm(); if (!r.empty() && r[0].v != OPEN_ && !once(x, r, READ, 0, nm + " with a part cut out")) return; }
        }
        mc::state(runs); runs = 0;
    });
}
