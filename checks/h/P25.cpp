// P25: the client sends exactly the request it was asked for; server-sent events arrive as they were pushed, at both ends.
#include "cli_common.hpp"
using namespace vp;
static uint64_t runs;
static void done(std::string o) { mc::state(runs); runs = 0; mc::outcome(o); }
enum End { OPEN, FIN, GONE, RST };
static char const* en[] = {"silence", "a close", "a full close", "a reset"};
// ---- an independent reader of event streams (WHATWG HTML 9.2.6) ----
struct Ev { std::string data, event, id; long long retry = -1; bool hasId = false, must = false; bool operator==(Ev const& o) const { return data == o.data && event == o.event && hasId == o.hasId && id == o.id && retry == o.retry; } };
static std::string show(Ev const& e) { return "{data '" + mc::esc(e.data, 60) + "' event '" + mc::esc(e.event, 40) + "'" + (e.hasId ? " id '" + mc::esc(e.id, 40) + "'" : "") + (e.retry >= 0 ? " retry " + std::to_string(e.retry) : "") + "}"; }
static std::string show(std::vector<Ev> const& v) { std::string s = "["; for (std::size_t i = 0; i < v.size() && i < 6; ++i) s += show(v[i]); return s + (v.size() > 6 ? "..." : "") + "]"; }
static std::vector<Ev> reference(std::string s) {
    std::vector<Ev> r; if (s.compare(0, 3, "\xEF\xBB\xBF") == 0) s.erase(0, 3);
    std::vector<std::string> lines; std::string cur;
    for (std::size_t i = 0; i < s.size(); ++i) { if (s[i] == '\r') { if (i + 1 < s.size() && s[i + 1] == '\n') ++i; lines.push_back(cur); cur.clear(); } else if (s[i] == '\n') { lines.push_back(cur); cur.clear(); } else cur += s[i]; }
    Ev e; bool any = false;
    for (auto& l : lines) {
        if (l.empty()) { if (e.must || any) { if (e.must) e.data.pop_back(); r.push_back(e); } e = Ev{}; any = false; continue; }
        auto c = l.find(':'); std::string f = l.substr(0, c), v = c == l.npos ? "" : l.substr(c + 1); if (!v.empty() && v[0] == ' ') v.erase(0, 1);
        if (f == "data") { e.data += v + "\n"; e.must = true; }
        else if (f == "event") { e.event = v; any = any || !v.empty(); }
        else if (f == "id") { if (v.find('\0') == v.npos) { e.id = v; e.hasId = true; any = true; } }
        else if (f == "retry") { if (!v.empty() && v.size() < 18 && v.find_first_not_of("0123456789") == v.npos) { e.retry = std::stoll(v); any = true; } }
    }
    return r;
}
// blocks without data may be delivered or not; everything else exactly once and in order
static bool matches(std::vector<Ev> const& got, std::vector<Ev> const& ref) {
    std::vector<char> can(got.size() + 1, 0); can[0] = 1; // can[g]: the first g deliveries fit the blocks so far
    for (auto& e : ref) { std::vector<char> nx(got.size() + 1, 0); for (std::size_t g = 0; g <= got.size(); ++g) if (can[g]) { if (!e.must) nx[g] = 1; if (g < got.size() && got[g] == e) nx[g + 1] = 1; } can = nx; }
    return can[got.size()];
}
static Ev conv(SseEvent const& s) { Ev e; e.data = s.data; e.event = s.event; if (s.id) { e.hasId = true; e.id = *s.id; } if (s.retry) e.retry = s.retry->count(); return e; }
// ---- the client reading a stream ----
struct Out { std::vector<Ev> ev; std::vector<long long> at; bool ok = false; std::string err, run, again; long long took = 0; std::size_t conns = 0, opens = 0; int bad = 0; std::string sent, badWhat; };
static std::string const kHead = "HTTP/1.1 200 OK\r\nContent-Type: text/event-stream\r\n";
static Out read(std::function<void(sim::Conn&)> feed, mc::Chooser* ch = nullptr, int throwAt = -1, bool again = false, bool reconnect = false) {
    ++runs; mc::transition(); sim::reset(ch); sim::W().maxEvents = 300000; if (ch) sim::W().chRecv = sim::W().chSend = true;
    int n = 0; sim::W().onConnect = [&](sim::Conn& c, sockaddr const*) { if (n++ == 0) { c.wait(aRequest()); feed(c); } else { c.wait(aRequest()).data("HTTP/1.1 200 OK\r\nContent-Length: 5\r\n\r\nafter"); } return 0; };
    Out o;
    o.run = withClient([&](Cli& cli) -> Task<> {
        auto r = co_await cli.coSseLoop<GET>("http://h:80/ev", [&](SseEvent s) -> Task<> { o.ev.push_back(conv(s)); o.at.push_back(sim::W().now - sim::kEpoch); if ((int)o.ev.size() == throwAt + 1 && throwAt >= 0) throw std::runtime_error{"mine"}; co_return; });
        o.ok = r.isVal(); if (!o.ok) try { r.rethrow(); } catch (std::exception& e) { o.err = e.what(); }
        o.took = sim::W().now - sim::kEpoch;
        if (again) { auto t = co_await cli.coGet("http://h:80/next"); auto g = take(t); o.again = g.ok ? g.body : "error " + g.err; }
    }, reconnect);
    for (auto& c : sim::W().all) { ++o.conns; if (c->open) ++o.opens; if (!c->no) o.sent = c->out; }
    o.bad = sim::W().badClose; o.badWhat = sim::W().badWhat; return o;
}
static void end(sim::Conn& c, End e) { if (e == FIN) c.fin(); else if (e == GONE) c.gone(); else if (e == RST) c.reset(); }
static bool sane(Out const& o, std::function<std::string()> const& what) {
    if (!o.run.empty()) { mc::fail("hang", what() + ": " + o.run); return false; }
    if (o.opens) { mc::fail("leak", what() + ": the connection is left open"); return false; }
    if (o.bad) { mc::fail("bad-close", what() + ": " + o.badWhat); return false; }
    return true;
}
static std::string chunked(std::string const& s, std::size_t n, bool fin = true) { std::string o; char b[24]; for (std::size_t p = 0; p < s.size(); p += n) { auto k = std::min(n, s.size() - p); std::snprintf(b, 24, "%zx\r\n", k); o += b + s.substr(p, k) + "\r\n"; } return o + (fin ? "0\r\n\r\n" : ""); }
static std::vector<std::size_t> bytewise(std::size_t n, std::size_t k = 1) { std::vector<std::size_t> v; for (std::size_t i = k; i < n; i += k) v.push_back(i); return v; }
// the raw text split at cuts, then e: exactly the events of `body` are delivered, all at once
static bool good(std::string const& raw, std::string const& body, std::vector<std::size_t> const& cuts, End e, mc::Chooser* ch = nullptr) {
    auto what = [&] { return "stream " + mc::esc(raw.substr(0, 1) == "H" ? raw.substr(raw.find("\r\n") + 2) : raw, 200) + " cut at " + cutstr(cuts.size() > 20 ? std::vector<std::size_t>{} : cuts) + (cuts.size() > 20 ? "*" : "") + " then " + en[e] + (ch ? " choices " + ch->str() : ""); };
    Out o = read([&](sim::Conn& c) { c.cut(raw, cuts); end(c, e); }, ch);
    if (!sane(o, what)) return false;
    auto ref = reference(body);
    if (!matches(o.ev, ref)) { mc::fail("events", what() + ": delivered " + show(o.ev) + ", the stream says " + show(ref)); return false; }
    for (auto t : o.at) if (t > sim::sec / 10) { mc::fail("late", what() + ": an event was delivered " + std::to_string(t / 1000000) + " ms after it had arrived"); return false; }
    if (o.took > 40 * sim::sec) { mc::fail("slow", what() + ": the loop took " + std::to_string(o.took / sim::sec) + " s to end"); return false; }
    if (o.conns != 1) { mc::fail("again", what() + ": " + std::to_string(o.conns) + " connections"); return false; }
    return true;
}
// ---- the server pushing ----
struct Push { std::vector<Ev> ev; std::string head, body; std::string err; };
static SseEvent back(Ev const& e) { SseEvent s; s.data = e.data; s.event = e.event; if (e.hasId) s.id = e.id; if (e.retry >= 0) s.retry = std::chrono::milliseconds(e.retry); return s; }
static std::string norm(std::string const& s) { std::string o; for (std::size_t i = 0; i < s.size(); ++i) { if (s[i] == '\r') { o += '\n'; if (i + 1 < s.size() && s[i + 1] == '\n') ++i; } else o += s[i]; } return o; }
// pushes evs (an event without any field is a ping); returns the bytes of the stream. Checks that each push is out when it returns.
static bool push(std::vector<Ev> const& evs, std::string& raw, mc::Chooser* ch = nullptr) {
    ++runs; mc::transition(); std::vector<std::size_t> marks; std::string err; std::shared_ptr<sim::Conn> cn;
    auto what = [&] { return "pushing " + show(evs) + (ch ? " choices " + ch->str() : ""); };
    Rt rt; rt.addEndpoint<GET>("/ev", [&](Req&, Res& res) -> Task<> { auto st = co_await res.makeSseStream(); for (auto& e : evs) { auto s = back(e); if (!s) co_await st.ping(); else co_await st.push(s); marks.push_back(cn->out.size()); } });
    try { cn = serve(ch, rt, [&](sim::Conn& c) { cn = sim::W().all.back(); c.data("GET /ev HTTP/1.1\r\nHost: h\r\n\r\n"); }, [&] { if (ch) sim::W().chSend = true; }); } catch (sim::Quiet&) { err = "never ends"; } catch (sim::Runaway&) { err = "loops without end"; }
    if (!err.empty()) { mc::fail("hang", what() + ": " + err); return false; }
    raw = cn->out; std::size_t p = 0; Rsp r; std::string why;
    if (readRsp(raw, p, false, r, why) != OK || r.status != 200 || !r.get("content-type").starts_with("text/event-stream")) { mc::fail("server", what() + ": the response is " + mc::esc(raw, 200) + " " + why); return false; }
    if (!r.chunked && !r.untilClose) { mc::fail("server", what() + ": the response has a length"); return false; }
    std::vector<Ev> want; for (auto e : evs) { e.data = norm(e.data); if (back(e)) want.push_back(e); }
    auto got = reference(r.body);
    if (!(got == want)) { mc::fail("server", what() + ": on the wire is " + mc::esc(r.body, 200) + ", which says " + show(got)); return false; }
    std::size_t hd = raw.find("\r\n\r\n") + 4;
    if (!r.chunked) for (std::size_t i = 0, k = 0; i < evs.size(); ++i) { if (back(evs[i])) ++k; if (marks.size() <= i || reference(raw.substr(hd, marks[i] - hd)).size() < k) { mc::fail("server-late", what() + ": event " + std::to_string(i) + " is not out when its push returned"); return false; } }
    return true;
}
static Ev E(std::string d, std::string ev = "", char const* id = nullptr, long long retry = -1) { Ev e; e.data = d; e.event = ev; if (id) { e.hasId = true; e.id = id; } e.retry = retry; return e; }
// both ends: what the real server wrote, read by the real client
static bool both(std::vector<Ev> const& evs, std::size_t seg, mc::Chooser* ch = nullptr) {
    std::string raw; if (!push(evs, raw)) return false;
    std::vector<Ev> want; for (auto e : evs) { e.data = norm(e.data); if (back(e)) want.push_back(e); }
    auto what = [&] { return "events " + show(evs) + " pushed by the server and read by the client in pieces of " + std::to_string(seg) + (ch ? " choices " + ch->str() : ""); };
    Out o = read([&](sim::Conn& c) { c.cut(raw, bytewise(raw.size(), seg)).gone(); }, ch);
    if (!sane(o, what)) return false;
    if (!(o.ev == want)) { mc::fail("both", what() + ": delivered " + show(o.ev)); return false; }
    return true;
}
// ---- requests ----
struct Ask { std::string url, host, target; HeaderHashMap h; std::string body; HttpContentType ct = HttpContentType::None; std::string ctText; };
static char const* mname(HttpMethod m) { return m == GET ? "GET" : m == HEAD ? "HEAD" : m == POST ? "POST" : m == PUT ? "PUT" : m == DEL ? "DELETE" : m == HttpMethod::PATCH ? "PATCH" : m == HttpMethod::OPTIONS ? "OPTIONS" : "TRACE"; }
static bool judge(Rq const& r, std::string const& method, Ask const& a, bool chunkedUp, std::function<std::string()> const& what, std::string const& text) {
    auto bad = [&](std::string s) { mc::fail("request", what() + ": " + s + " in " + mc::esc(text, 400)); return false; };
    if (r.method != method) return bad("the method is " + r.method);
    if (r.target != a.target) return bad("the target is '" + r.target + "', not '" + a.target + "'");
    std::map<std::string, std::string> user; for (auto& [k, v] : a.h) user[lower(k)] = v;
    if (!user.count("host") && (r.count("host") != 1 || r.get("host") != a.host)) return bad("Host is '" + r.get("host") + "', not '" + a.host + "'");
    for (auto& [k, v] : user) { if (r.count(k) != 1) return bad("header '" + k + "' appears " + std::to_string(r.count(k)) + " times"); if (r.get(k) != v) return bad("header '" + k + "' is '" + r.get(k) + "', not '" + v + "'"); }
    if (!a.ctText.empty() && !user.count("content-type") && (r.count("content-type") != 1 || r.get("content-type").find(a.ctText) != 0)) return bad("Content-Type is '" + r.get("content-type") + "', not " + a.ctText);
    std::set<std::string> names; for (auto& [k, v] : r.h) if (!names.insert(lower(k)).second) return bad("header '" + k + "' appears twice");
    if (r.body != a.body) return bad("the body is '" + mc::esc(r.body, 60) + "' (" + std::to_string(r.body.size()) + " bytes), not '" + mc::esc(a.body, 60) + "' (" + std::to_string(a.body.size()) + ")");
    if (chunkedUp != r.chunked) return bad(chunkedUp ? "the upload is not chunked" : "the request is chunked");
    return true;
}
struct RunOut { std::string run, sent, to; std::vector<Got1> g; std::size_t conns = 0, opens = 0; };
template <HttpMethod M> static bool ask(std::vector<Ask> const& as, int mode, std::string const& file = "", mc::Chooser* ch = nullptr, std::function<std::string()> extra = {}) { // mode 0 request, 1 upload, 2 SSE loop
    ++runs; mc::transition(); sim::reset(ch); sim::W().maxEvents = 400000; if (ch) { sim::W().chSend = true; sim::W().chFile = true; }
    auto what = [&] { std::string s = std::string(mode == 1 ? "upload " : mode == 2 ? "SSE loop " : "") + mname(M); for (auto& a : as) { s += " " + a.url; for (auto& [k, v] : a.h) s += " [" + k + ": " + v + "]"; if (!a.body.empty()) s += " body of " + std::to_string(a.body.size()); } return s + (extra ? extra() : "") + (ch ? " choices " + ch->str() : ""); };
    std::string answer = mode == 2 ? kHead + "Content-Length: 0\r\n\r\n" : std::string("HTTP/1.1 200 OK\r\nContent-Length: ") + (M == HEAD ? "2\r\n\r\n" : "2\r\n\r\nok");
    sim::W().onConnect = [&](sim::Conn& c, sockaddr const*) { for (std::size_t i = 0; i < as.size() + 1; ++i) c.wait(aRequest()).data(answer); return 0; };
    std::vector<Got1> gs;
    std::string run = withClient([&](Cli& cli) -> Task<> {
        for (auto& a : as) { auto h = a.h; auto b = a.body;
            if (mode == 0) { auto r = co_await cli.coRequest<M>(a.url, std::move(h), std::move(b), a.ct); gs.push_back(take(r)); }
            else if (mode == 1) { auto r = co_await cli.coUploadChunked<M>(a.url, file, a.ct, std::move(h)); gs.push_back(take(r)); }
            else { auto r = co_await cli.coSseLoop<M>(a.url, [](SseEvent) -> Task<> { co_return; }, std::move(h), std::move(b), a.ct); gs.push_back(Got1{}); } }
    }, false);
    if (!run.empty()) { mc::fail("hang", what() + ": " + run); return false; }
    std::string out; for (auto& c : sim::W().all) { out += c->out; if (c->open) { mc::fail("leak", what() + ": a connection is left open"); return false; } }
    if (sim::W().openReal) { mc::fail("leak", what() + ": a file is left open"); return false; }
    std::size_t p = 0; 
    for (std::size_t i = 0; i < as.size(); ++i) { Rq r; std::string why; std::size_t q = p; auto g = readRq(out, p, r, why); if (g != OK) { mc::fail("request", what() + ": the client sent " + mc::esc(out.substr(q), 300) + " " + why); return false; }
        if (!judge(r, mname(M), as[i], mode == 1, what, out.substr(q, std::min<std::size_t>(p - q, 500)))) return false;
        if (mode != 2 && (!gs[i].ok || gs[i].status != 200 || gs[i].body != (M == HEAD ? "" : "ok"))) { mc::fail("answer", what() + ": the client returned " + show(gs[i])); return false; } }
    if (p != out.size()) { mc::fail("request", what() + ": more was sent: " + mc::esc(out.substr(p), 200)); return false; }
    return true;
}
template <class F> static void methods(F&& f) { f.template operator()<GET>(); f.template operator()<HEAD>(); f.template operator()<POST>(); f.template operator()<PUT>(); f.template operator()<DEL>(); f.template operator()<HttpMethod::PATCH>(); f.template operator()<HttpMethod::OPTIONS>(); f.template operator()<HttpMethod::TRACE>(); }

void mc_main() {
    bool th = mc::thorough();
    // ---------------------------------------------------------------- reading
    std::vector<std::string> lines = {"", "data:a", "data: b", "data:  c:d", "data", "data:", "event:e", "event: f", "event", "id:1", "id", "retry:10", "retry:1x", "retry:-1", ":", ": note", "foo:bar", "dat:x", "datax", "a"};
    std::size_t L = lines.size();
    for (std::size_t a = 0; a < L; ++a) mc::run_case("lines/" + lines[a], [&] {
        for (std::size_t b = 0; b < L; ++b) { mc::arm(); for (std::size_t c = 0; c < L; ++c) for (std::size_t d = 0; d < (th ? L : 6); ++d) {
            std::string s = lines[a] + "\n" + lines[b] + "\n" + lines[c] + "\n" + (d ? lines[d] + "\n" : "") + "\n"; if (!good(kHead + "\r\n" + s, s, {}, FIN)) return; } }
        for (auto nl : {"\r\n", "\r"}) for (std::size_t b = 0; b < L; ++b) { mc::arm(); for (std::size_t c = 0; c < L; ++c) { std::string s = lines[a] + nl + lines[b] + nl + lines[c] + nl + nl + "data:z" + nl + nl; std::string raw = kHead + "\r\n" + s; if (!good(raw, s, (b + c) % 2 ? bytewise(raw.size()) : std::vector<std::size_t>{}, b % 2 ? OPEN : GONE)) return; } }
        done("lines");
    });
    std::vector<std::pair<std::string, std::string>> streams = {
        {"plain", "data:one\n\ndata:two\ndata: lines\nevent:ev\nid:7\nretry:1500\n\n"}, {"crlf", "event: e\r\ndata: x:y\r\n\r\n: c\r\n\r\ndata\r\n\r\n"}, {"cr", "data:a\rdata:b\r\rid\r\r:\r\rdata: c\r\r"},
        {"mixed", "\xEF\xBB\xBF" "data:a\r\ndata\n\rdata: \r\n\n\r\r\n"s}, {"pings", ":ping\n\n:ping\n\ndata:x\n\n:ping\n\n:ping\n\ndata:y\n\n"}, {"odd", "data:\n\nid:a\0b\ndata:q\n\nbad line\n:\n\ndata:\xff\xfe\n\nevent:x\nevent:y\ndata:\ndata:\n\n"s}, {"unfinished", "data:x\n\ndata:lost\n"}};
    for (auto& [name, body] : streams) for (int form = 0; form < 4; ++form) mc::run_case("cuts/" + name + "/" + std::to_string(form), [&, body = body, form] {
        std::string raw = form == 0 ? kHead + "\r\n" + body : kHead + "Transfer-Encoding: chunked\r\n\r\n" + chunked(body, form == 1 ? 1 : form == 2 ? 7 : 1000, form != 3);
        std::size_t n = raw.size(), hd = kHead.size();
        for (End e : {OPEN, FIN, GONE}) { if (!good(raw, body, {}, e)) return; for (std::size_t i = 1; i < n; ++i) { mc::arm(); if (!good(raw, body, {i}, e)) return; } if (!good(raw, body, bytewise(n), e)) return; if (!good(raw, body, bytewise(n, 3), e)) return; }
        for (std::size_t i = hd; i < n; i += th ? 1 : 1 + (n > 200)) { mc::arm(); for (std::size_t j = i + 1; j < n; j += th ? 1 : 1 + (n > 160)) if (!good(raw, body, {i, j}, OPEN)) return; }
        mc::sub_explore("short", th ? 3 : 2, [&](mc::Chooser& c) { mc::arm(); good(raw, body, {}, FIN, &c); }, 200000);
        done("cuts");
    });
    // every truncation: exactly the events that are complete
    for (auto& [name, body] : streams) mc::run_case("truncation/" + name, [&, body = body] {
        for (std::size_t i = 0; i <= body.size(); ++i) for (End e : {OPEN, FIN, GONE, RST}) for (int by = 0; by < 2; ++by) {
            mc::arm(); std::string t = body.substr(0, i), raw = kHead + "\r\n" + t; if (e == RST) { // a reset may discard what was not yet read: check only that nothing is invented and that it ends
                Out o = read([&](sim::Conn& c) { c.cut(raw, by ? bytewise(raw.size()) : std::vector<std::size_t>{}).reset(); }); auto what = [&] { return "stream " + mc::esc(t, 200) + " then a reset"; };
                if (!sane(o, what)) return; auto ref = reference(t); if (o.ev.size() > ref.size()) { mc::fail("events", what() + ": delivered " + show(o.ev)); return; } continue; }
            if (!good(raw, t, by ? bytewise(raw.size()) : std::vector<std::size_t>{}, e)) return; }
        for (std::size_t i = 0; i < (kHead + "\r\n").size(); ++i) for (End e : {OPEN, FIN, GONE}) { mc::arm(); Out o = read([&](sim::Conn& c) { c.data((kHead + "\r\n").substr(0, i)); end(c, e); }); auto what = [&] { return "a head of " + std::to_string(i) + " bytes then " + en[e]; }; if (!sane(o, what)) return; if (o.ok || !o.ev.empty()) { mc::fail("events", what() + ": not an error"); return; } }
        done("truncations");
    });
    // single-byte edits
    for (auto& [name, body] : streams) mc::run_case("edits/" + name, [&, body = body] {
        std::string_view al = "\0\r\n :adei0-\xef\xff"sv;
        for (std::size_t i = 0; i <= body.size(); ++i) { mc::arm(); for (int op = 0; op < 3; ++op) for (char ch : al) { std::string t = body; if (op == 0) t.insert(i, 1, ch); else if (i == body.size()) continue; else if (op == 1) t[i] = ch; else if (ch != al[0]) continue; else t.erase(i, 1);
            bool big = false; for (auto p = t.find("retry:"); p != t.npos; p = t.find("retry:", p + 1)) if (t.substr(p + 6, 1).find_first_of("\r\n") != std::string::npos || t.substr(p + 6, 2) == " \n") big = true; if (big) continue;
            std::string raw = kHead + "\r\n" + t; if (!good(raw, t, i % 2 ? bytewise(raw.size(), 2) : std::vector<std::size_t>{}, FIN)) return; } }
        done("edits");
    });
    // sizes around the receive buffer; a live stream; heads
    mc::run_case("big", [&] {
        for (std::size_t n : {1000ul, 16000ul, 16370ul, 16377ul, 16378ul, 16379ul, 16380ul, 16384ul, 16385ul, 20000ul, 32768ul, 100000ul}) for (std::size_t seg : {100ul, 1460ul, 16384ul, 1000000ul}) for (int form = 0; form < 4; ++form) {
            mc::arm(); std::string d; for (std::size_t i = 0; i < n; ++i) d += (char)('a' + (i * 7 + i / 26) % 26); std::string body = form == 1 ? [&] { std::string s; for (std::size_t p = 0; p < n; p += 50) s += "data:" + d.substr(p, 50) + "\n"; return s + "\n"; }() : form == 2 ? ":" + d + "\n\nid:1\ndata:x\n\n" : "data:" + d + "\nevent:e\n\ndata:next\n\n";
            std::string raw = form == 3 ? kHead + "Transfer-Encoding: chunked\r\n\r\n" + chunked(body, 5000) : kHead + "\r\n" + body; if (!good(raw, body, bytewise(raw.size(), seg), FIN)) return; }
        { std::string body; for (int i = 0; i < 3000; ++i) body += "data:" + std::to_string(i) + "\n\n"; for (std::size_t seg : {1000ul, 16384ul, 1000000ul}) { std::string raw = kHead + "\r\n" + body; if (!good(raw, body, bytewise(raw.size(), seg), FIN)) return; } }
        done("big streams");
    });
    mc::run_case("live", [&] {
        // events some time apart: each is delivered when it arrives; silence of 30 s ends the loop, less does not
        for (int gap : {1, 5, 20, 29}) for (int k = 1; k <= 3; ++k) for (int ping = 0; ping < 2; ++ping) for (int split = 0; split < 2; ++split) {
            mc::arm(); Out o = read([&](sim::Conn& c) { c.data(kHead + "\r\n"); for (int i = 0; i < 4; ++i) { for (int j = 0; j < k; ++j) { c.pause(gap * sim::sec); if (j + 1 < k) c.data(ping ? ":ping\n\n" : "\n"); } std::string s = "data:" + std::to_string(i) + "\n\n"; if (split) c.data(s.substr(0, 3)).data(s.substr(3)); else c.data(s); } });
            auto what = [&] { return "4 events " + std::to_string(gap * k) + " s apart"; };
            if (!sane(o, what)) return;
            if (o.ev.size() != 4) { mc::fail("live", what() + ": delivered " + show(o.ev)); return; }
            for (int i = 0; i < 4; ++i) if (o.ev[(std::size_t)i].data != std::to_string(i) || o.at[(std::size_t)i] / sim::sec != (i + 1) * gap * k) { mc::fail("live", what() + ": event " + std::to_string(i) + " was delivered at " + std::to_string(o.at[(std::size_t)i] / sim::sec) + " s"); return; }
            if (o.took < (4 * gap * k + 25) * sim::sec || o.took > (4 * gap * k + 40) * sim::sec) { mc::fail("slow", what() + ", then silence: the loop ended after " + std::to_string(o.took / sim::sec) + " s"); return; } }
        for (int gap : {35, 60}) { Out o = read([&](sim::Conn& c) { c.data(kHead + "\r\ndata:a\n\n").pause(gap * sim::sec).data("data:b\n\n"); }); auto what = [&] { return "a silence of " + std::to_string(gap) + " s"; }; if (!sane(o, what)) return; if (o.ok || o.ev.size() != 1 || o.took > 34 * sim::sec) { mc::fail("silence", what() + ": delivered " + show(o.ev) + " took " + std::to_string(o.took / sim::sec) + " s"); return; } }
        done("live");
    });
    mc::run_case("heads", [&] {
        struct H { std::string head; bool ok; };
        std::vector<H> hs = {{"HTTP/1.1 200 OK\r\nContent-Type: text/event-stream; charset=utf-8\r\n", true}, {"HTTP/1.1 200 OK\r\ncontent-type:text/event-stream;charset=UTF-8\r\nX: y\r\n", true}, {"HTTP/1.1 200 OK\r\nCONTENT-TYPE: text/event-stream\r\nCache-Control: no-cache\r\n", true}, {"HTTP/1.1 200 OK\r\n", false}, {"HTTP/1.1 200 OK\r\nContent-Type: text/html\r\n", false}, {"HTTP/1.1 200 OK\r\nContent-Type: application/json\r\n", false}, {"HTTP/1.1 200 OK\r\nContent-Type:\r\n", false}, {"HTTP/1.1 200 OK\r\nAccept: text/event-stream\r\n", false}};
        for (auto s : {"201 Created", "204 No Content", "301 Moved", "302 Found", "304 Not Modified", "400 Bad", "401 Unauthorized", "403 Forbidden", "404 Not Found", "429 Too Many", "500 Oops", "503 Busy"}) hs.push_back({"HTTP/1.1 "s + s + "\r\nContent-Type: text/event-stream\r\n", false});
        for (auto& h : hs) for (End e : {OPEN, GONE}) for (int by = 0; by < 2; ++by) for (int rec = 0; rec < 2; ++rec) {
            mc::arm(); std::string raw = h.head + "\r\ndata:x\n\n"; auto what = [&] { return mc::esc(raw, 200) + " then " + en[e]; };
            Out o = read([&](sim::Conn& c) { c.cut(raw, by ? bytewise(raw.size()) : std::vector<std::size_t>{}); end(c, e); }, nullptr, -1, true, rec);
            if (!sane(o, what)) return;
            if (o.ev.size() != (h.ok ? 1 : 0) || (h.ok && o.ev[0].data != "x")) { mc::fail("head", what() + ": delivered " + show(o.ev)); return; }
            if (!h.ok && o.ok) { mc::fail("head", what() + ": not an error"); return; }
            if (o.again != "after") { mc::fail("after", what() + ": the next request returned " + o.again); return; }
            Rq r; std::string why; std::size_t p = 0; if (readRq(o.sent, p, r, why) != OK || r.method != "GET" || r.target != "/ev" || p != o.sent.size() || r.get("accept").find("text/event-stream") == std::string::npos) { mc::fail("request", what() + ": the client sent " + mc::esc(o.sent, 300)); return; } }
        // the callback fails: its exception ends the loop, nothing more is delivered, the client stays usable
        for (int at = 0; at < 4; ++at) for (std::size_t seg : {1ul, 10ul, 1000ul}) { mc::arm(); std::string raw = kHead + "\r\ndata:0\n\ndata:1\n\ndata:2\n\ndata:3\n\ndata:4\n\n"; auto what = [&] { return "a callback that fails at event " + std::to_string(at); };
            Out o = read([&](sim::Conn& c) { c.cut(raw, bytewise(raw.size(), seg)); }, nullptr, at, true); if (!sane(o, what)) return;
            if (o.ok || o.err != "mine" || (int)o.ev.size() != at + 1 || o.again != "after") { mc::fail("callback", what() + ": result '" + (o.ok ? "no error" : o.err) + "', delivered " + show(o.ev) + ", next request " + o.again); return; } }
        done("heads");
    });
    // ---------------------------------------------------------------- pushing
    std::string al = "a :\n\r"; std::vector<std::string> texts{""}; for (std::size_t b = 0; texts.size() < (th ? 19531u : 3906u); ++b) for (char c : al) texts.push_back(texts[b] + c);
    for (int part = 0; part < 5; ++part) mc::run_case("push/" + std::to_string(part), [&] {
        std::string raw;
        for (std::size_t i = (std::size_t)part; i < texts.size(); i += 5) { mc::arm(); auto const& t = texts[i];
            std::vector<Ev> v; if (!t.empty()) v.push_back(E(t)); v.push_back(E(t, "e", "i", 5)); v.push_back(E("last"));
            if (!push(v, raw)) return; if (i % 4 == 0 && !both(v, 1 + i % 9)) return;
            if (t.find_first_of("\r\n") == t.npos) { v = {E("d", t), E("d", "", t.c_str()), E("d", t, t.c_str()), E("", "x", t.c_str()), E("", "", t.c_str())}; if (!push(v, raw) || !both(v, 3)) return; } }
        done("pushed texts");
    });
    std::vector<Ev> kinds = {Ev{}, E("a"), E("two\nlines"), E("\n"), E(" lead\n\n trail \n"), E("d", "name"), E("", "only-name"), E("", "", "only-id"), E("", "", "", -1), E("", "", nullptr, 0), E("d", "", nullptr, 123456789), E("d", "e", "", 1), E("data:x\nevent:y"), E(":c"), E("\xEF\xBB\xBF")};
    for (std::size_t a = 0; a < kinds.size(); ++a) mc::run_case("sequences/" + std::to_string(a), [&] {
        std::string raw;
        for (std::size_t b = 0; b < kinds.size(); ++b) { mc::arm(); for (std::size_t c = 0; c < kinds.size(); ++c) { if (!push({kinds[a], kinds[b], kinds[c]}, raw)) return; if (!both({kinds[a], kinds[b], kinds[c]}, 1 + (a + b + c) % 20)) return; } }
        mc::sub_explore("short", th ? 3 : 2, [&](mc::Chooser& c) { mc::arm(); std::string r; push({kinds[a], kinds[(a + 4) % kinds.size()]}, r, &c); }, 100000);
        mc::sub_explore("short", 1, [&](mc::Chooser& c) { mc::arm(); both({kinds[a], kinds[(a + 4) % kinds.size()], kinds[2]}, 5, &c); }, 100000);
        done("sequences");
    });
    mc::run_case("push/big", [&] {
        std::string raw; for (std::size_t n : {1000ul, 16383ul, 16384ul, 16385ul, 70000ul}) for (int ml = 0; ml < 2; ++ml) for (std::size_t seg : {1000ul, 16384ul, 1000000ul}) { mc::arm(); std::string d = abc(n); if (ml) for (std::size_t p = 100; p < n; p += 100) d[p] = '\n'; if (!both({E(d, "e", "1"), Ev{}, E("x")}, seg)) return; }
        done("big pushes");
    });
    // ---------------------------------------------------------------- requests
    std::vector<std::array<std::string, 3>> urls = {{"http://h/p", "h", "/p"}, {"http://h:80/p", "h:80", "/p"}, {"http://h:8080/p/q?x=1&y=2", "h:8080", "/p/q?x=1&y=2"}, {"http://h", "h", "/"}, {"http://h:81", "h:81", "/"}, {"http://h/", "h", "/"}, {"http://a.b-c.de/x", "a.b-c.de", "/x"}, {"http://10.0.0.1:5/x?u=http://other:9/z", "10.0.0.1:5", "/x?u=http://other:9/z"}, {"http://u:p@h:9/p", "h:9", "/p"}, {"http://h?q=1", "h", "/?q=1"}, {"http://h/p#frag", "h", "/p"}, {"http://h/p?q#f?g", "h", "/p?q"}, {"http://h/x?u=a#/b", "h", "/x?u=a"}, {"http://h/?u=http://x/y", "h", "/?u=http://x/y"}, {"http://h:7?u=/x", "h:7", "/?u=/x"}, {"http://h/%41%20b", "h", "/%41%20b"}, {"http://h/" + std::string(3000, 'l'), "h", "/" + std::string(3000, 'l')}};
    std::vector<HeaderHashMap> hs = {{}, {{"X-A", "b"}}, {{"x-a", "b: c, d"}, {"Y", ""}}, {{"Accept", "text/plain"}}, {{"accept", "text/plain"}, {"USER-AGENT", "me"}}, {{"Host", "other:1"}}, {{"content-type", "my/type"}}, {{"Authorization", "Bearer " + std::string(2000, 't')}}, {{"Date", "never"}, {"connection", "keep-alive"}}};
    std::vector<std::string> bodies = {"", "b", "a=1&b=2", "GET / HTTP/1.1\r\n\r\n", std::string("\0\r\n\xff", 4), pattern(16384, 1), pattern(16385, 2), pattern(100000, 3)};
    std::vector<std::pair<HttpContentType, std::string>> cts = {{HttpContentType::None, ""}, {HttpContentType::Json, "application/json"}, {HttpContentType::Text, "text/plain"}, {HttpContentType::Html, "text/html"}, {HttpContentType::FormUrlEncode, "application/x-www-form-urlencoded"}, {HttpContentType::OctetStream, "application/octet-stream"}, {HttpContentType::Xml, "application/xml"}};
    for (std::size_t u = 0; u < urls.size(); ++u) mc::run_case("request/" + std::to_string(u), [&] {
        for (auto& h : hs) for (std::size_t b = 0; b < bodies.size(); ++b) { mc::arm(); auto& ct = cts[b % cts.size()]; Ask a{urls[u][0], urls[u][1], urls[u][2], h, bodies[b], ct.first, ct.second}; bool ok = true; methods([&]<HttpMethod M>() { ok = ok && ask<M>({a}, 0); }); if (!ok) return;
            if (!ask<GET>({a}, 2) || !ask<POST>({a}, 2)) return; }
        for (auto& ct : cts) { Ask a{urls[u][0], urls[u][1], urls[u][2], {}, "body", ct.first, ct.second}; if (!ask<POST>({a}, 0) || !ask<PUT>({a}, 0)) return; }
        // several on one client, the later ones by path alone
        for (std::size_t b = 0; b < bodies.size(); ++b) for (std::size_t c = 0; c < bodies.size(); ++c) { mc::arm(); Ask a{urls[u][0], urls[u][1], urls[u][2], hs[b], bodies[b], cts[1].first, cts[1].second}, n{"/next?z", urls[u][1], "/next?z", {}, bodies[c], HttpContentType::None, ""}; if (hs[b].contains("host")) a.h = {}; if (!ask<POST>({a, n, a}, 0) || !ask<PUT>({n = Ask{urls[u][0], urls[u][1], urls[u][2], {}, bodies[c], HttpContentType::None, ""}, a}, 0)) return; }
        for (auto p : {"/", "/q?u=http://o:1/z", "/q?a=/b", "/a/b/#c"}) { std::string t = p; Ask a{urls[u][0], urls[u][1], urls[u][2], {}, "x", HttpContentType::None, ""}, n{t, urls[u][1], t.substr(0, t.find('#')), {}, "y", HttpContentType::None, ""}; if (!ask<POST>({a, n, n, a}, 0)) return; }
        done("requests");
    });
    mc::run_case("upload", [&] {
        std::string f = scratch() + "/up"; std::size_t M = 131072;
        for (std::size_t n : {0ul, 1ul, 15ul, 16ul, 17ul, 255ul, 4096ul, M - 1, M, M + 1, 2 * M - 1, 2 * M, 2 * M + 1, 3 * M + 77}) for (std::size_t u = 0; u < urls.size(); u += 2) for (std::size_t h = 0; h < hs.size(); h += n > M ? 4 : 1) { mc::arm(); std::string d = pattern(n, (unsigned)n + 5); put(f, d); auto& ct = cts[1 + h % 5]; Ask a{urls[u][0], urls[u][1], urls[u][2], hs[h], d, ct.first, ct.second}; auto ex = [&] { return " file of " + std::to_string(n); };
            if (!ask<POST>({a}, 1, f, nullptr, ex)) return; if (n < 5000 && (!ask<PUT>({a}, 1, f, nullptr, ex) || !ask<HttpMethod::PATCH>({a, a}, 1, f, nullptr, ex))) return; }
        for (std::size_t n : {0ul, 5ul, 3000ul, M, M + 5}) { std::string d = pattern(n, (unsigned)n + 6); put(f, d); Ask a{"http://h:8/p", "h:8", "/p", hs[1], d, cts[2].first, cts[2].second};
            mc::sub_explore("short", n > 5000 ? 1 : th ? 3 : 2, [&](mc::Chooser& c) { mc::arm(); ask<POST>({a}, 1, f, &c, [&] { return " file of " + std::to_string(n); }); }, 50000); }
        ::unlink(f.c_str());
        done("uploads");
    });
    mc::run_case("request/short", [&] {
        for (std::size_t b = 0; b < 6; ++b) for (std::size_t h = 0; h < 3; ++h) { Ask a{"http://h:8/p", "h:8", "/p", hs[h], bodies[b], cts[2].first, cts[2].second}; mc::sub_explore("short", th ? 3 : 2, [&](mc::Chooser& c) { mc::arm(); ask<POST>({a, a}, 0, "", &c); }, 50000); }
        done("short sends");
    });
}
