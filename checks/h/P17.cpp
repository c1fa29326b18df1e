// P17: file downloads and range requests return exactly the requested bytes.
#include "srv_common.hpp"
using namespace vp;

static uint64_t runs; static std::string curFile; static bool chunkedMode;
static Rt* router() {
    static Rt* r = [] {
        auto* r = new Rt;
        r->addEndpoint<GET, HEAD>("/f", [](Req& q, Res& s) -> Task<> { std::string p = curFile; if (chunkedMode) co_await s.useChunkedEncodingTransferFile(p); else co_await s.useRangeTransferFile(q.getRangeRequestView(), p); });
        r->addEndpoint<GET>("/end", [](Req&, Res& s) -> Task<> { co_await s.setStatusAndContent(Status::CODE_200, "end").sendRes(); });
        return r;
    }();
    return r;
}
struct Part { uint64_t a, b; };                       // inclusive
struct Sp { std::string s; int kind; uint64_t a = 0, b = 0; };   // kind 0 a-b, 1 a-, 2 -n, 3 invalid
static Sp bounded(uint64_t a, uint64_t b) { return {std::to_string(a) + "-" + std::to_string(b), a <= b ? 0 : 3, a, b}; }
static Sp open(uint64_t a) { return {std::to_string(a) + "-", 1, a}; }
static Sp suffix(uint64_t n) { return {"-" + std::to_string(n), 2, n}; }
static std::optional<Part> sat(Sp const& s, uint64_t n) {
    if (s.kind == 3) return {};
    if (s.kind == 2) { if (!s.a || !n) return {}; return Part{n - std::min(n, s.a), n - 1}; }
    if (s.a >= n) return {};
    return Part{s.a, s.kind == 1 ? n - 1 : std::min(s.b, n - 1)};
}
static std::string cr(Part p, uint64_t n) { return "bytes " + std::to_string(p.a) + "-" + std::to_string(p.b) + "/" + std::to_string(n); }
// a multipart/byteranges body, read strictly
static bool multipart(Rsp const& r, std::vector<std::pair<std::string, std::string>>& parts, std::string& why) {
    auto ct = r.get("content-type"); auto p = ct.find("boundary="); if (!lower(ct).starts_with("multipart/byteranges") || p == ct.npos) { why = "content type " + ct; return false; }
    std::string b = ct.substr(p + 9); if (b.size() > 1 && b[0] == '"') b = b.substr(1, b.size() - 2);
    std::string const& s = r.body; std::size_t i = 0;
    if (s.compare(i, b.size() + 2, "--" + b)) { why = "no leading boundary"; return false; }
    i += b.size() + 2;
    for (;;) {
        if (s.compare(i, 2, "--") == 0) { i += 2; if (s.substr(i) != "" && s.substr(i) != "\r\n") { why = "bytes behind the last boundary"; return false; } return true; }
        if (s.compare(i, 2, "\r\n")) { why = "boundary line is not ended"; return false; }
        i += 2; std::string range; long long len = -1;
        for (;;) { auto e = s.find("\r\n", i); if (e == s.npos) { why = "part head is not ended"; return false; } std::string l = s.substr(i, e - i); i = e + 2; if (l.empty()) break; auto c = l.find(':'); if (c == l.npos) { why = "part header '" + mc::esc(l) + "'"; return false; } std::string v = l.substr(c + 1); while (!v.empty() && v[0] == ' ') v.erase(0, 1); if (ieq(l.substr(0, c), "content-range")) range = v; if (ieq(l.substr(0, c), "content-length")) len = std::atoll(v.c_str()); }
        // the length of the part follows from its Content-Range
        unsigned long long x, y, z; if (std::sscanf(range.c_str(), "bytes %llu-%llu/%llu", &x, &y, &z) != 3 || y < x) { why = "part Content-Range '" + range + "'"; return false; }
        uint64_t n = y - x + 1; if (len >= 0 && (uint64_t)len != n) { why = "part Content-Length " + std::to_string(len); return false; }
        if (s.size() < i + n) { why = "part is cut short"; return false; }
        parts.push_back({range, s.substr(i, n)}); i += n;
        if (s.compare(i, b.size() + 4, "\r\n--" + b)) { why = "part of " + std::to_string(n) + " bytes is not followed by a boundary"; return false; }
        i += b.size() + 4;
    }
}
// a file with a hole: only bytes around some positions are not 0
struct Sparse { uint64_t n; std::map<uint64_t, std::string> at;
    uint64_t size() const { return n; }
    std::string substr(uint64_t a, uint64_t len) const { std::string r(std::min(len, n - a), 0); for (auto& [p, t] : at) for (std::size_t i = 0; i < t.size(); ++i) if (p + i >= a && p + i < a + r.size()) r[p + i - a] = t[i]; return r; }
    friend bool operator==(std::string const&, Sparse const&) { return false; } };
struct Ask { std::string header; std::vector<Sp> sp; bool head = false; };
template <class Doc> static bool judge(Rsp const& r, Ask const& q, Doc const& F, std::function<std::string()> const& what) {
    auto bad = [&](std::string k, std::string m) { mc::fail(k, what() + ": " + m + "; response " + show(r)); return false; };
    uint64_t n = F.size();
    bool full = r.status == 200 && (q.head ? r.body.empty() : r.body == F) && (r.chunked || r.get("content-length") == std::to_string(n));
    if (q.head) { if (r.status != 200 || !r.body.empty() || (!r.chunked && r.get("content-length") != std::to_string(n))) return bad("head", "a HEAD request must report the size " + std::to_string(n)); return true; }
    if (q.header.empty()) { if (!full) return bad("download", "the file has " + std::to_string(n) + " bytes " + mc::esc(F.substr(0, 60), 60)); return true; }
    bool valid = !q.sp.empty(); std::vector<Part> want; for (auto& s : q.sp) { if (s.kind == 3) valid = false; if (auto p = sat(s, n)) want.push_back(*p); }
    bool none = r.status == 416 && r.body.empty() && r.get("content-range") == "bytes */" + std::to_string(n);
    bool part = false; std::string why;
    if (r.status == 206 && !want.empty()) {
        if (r.count("content-range")) { if (want.size() != 1) why = "one range for several"; else if (r.get("content-range") != cr(want[0], n)) why = "Content-Range " + r.get("content-range") + ", expected " + cr(want[0], n); else if (r.body != F.substr(want[0].a, want[0].b - want[0].a + 1)) why = "wrong bytes"; else part = true; }
        else { std::vector<std::pair<std::string, std::string>> ps; if (!multipart(r, ps, why)) why = "malformed parts: " + why; else if (q.sp.size() == 1) why = "several parts for a single range"; else if (ps.size() != want.size()) why = std::to_string(ps.size()) + " parts for " + std::to_string(want.size()) + " ranges"; else { part = true; for (std::size_t i = 0; i < ps.size(); ++i) if (ps[i].first != cr(want[i], n) || ps[i].second != F.substr(want[i].a, want[i].b - want[i].a + 1)) { part = false; why = "part " + std::to_string(i) + " is " + ps[i].first + " " + mc::esc(ps[i].second, 60) + ", expected " + cr(want[i], n); break; } } }
    }
    if (valid && !want.empty()) { if (!part) return bad("range", "the satisfiable ranges of a file of " + std::to_string(n) + " bytes are not returned: " + why); return true; }
    if (valid) { if (!none && !(n == 0 && full)) return bad("unsatisfiable", "a range error without file bytes is expected"); return true; }
    if (!part && !none && !full) return bad("invalid", "an invalid range is answered by neither an error, the file nor the valid ranges: " + why);
    return true;
}
static std::string target(Ask const& q) { return (q.head ? "HEAD" : "GET") + " /f HTTP/1.1\r\nHost: h\r\n"s + (q.header.empty() ? "" : "Range: " + q.header + "\r\n") + "\r\n"; }
template <class Doc> static bool ask(Doc const& F, std::vector<Ask> const& qs, mc::Chooser* ch, std::string const& tag) {
    ++runs; mc::transition(qs.size());
    std::string in; for (auto& q : qs) in += target(q); in += "GET /end HTTP/1.1\r\nConnection: close\r\n\r\n";
    std::size_t i = 0; auto what = [&] { return tag + (i < qs.size() ? (qs[i].head ? " HEAD" : "") + " Range '"s + mc::esc(qs[i].header, 80) + "'" : "") + (qs.size() > 1 ? " (request " + std::to_string(i) + ")" : "") + (ch ? " transfers " + ch->str() : ""); };
    try {
        auto c = serve(ch, *router(), [&](sim::Conn& c) { c.data(in); }, [&] { if (ch) sim::W().chFile = sim::W().chSend = true; });
        std::size_t p = 0;
        for (; i < qs.size(); ++i) { Rsp r; std::string why; auto g = readRsp(c->out, p, qs[i].head, r, why); if (g != OK) { mc::fail("malformed", what() + ": " + (g == MORE ? "incomplete response " : why + " ") + mc::esc(c->out.substr(p), 200)); return false; } if (!judge(r, qs[i], F, what)) return false; }
        Rsp r; std::string why; if (readRsp(c->out, p, false, r, why) != OK || r.body != "end" || p != c->out.size()) { mc::fail("stray", what() + ": the next request is not answered properly " + mc::esc(c->out.substr(std::min(p, c->out.size())), 100)); return false; }
        if (sim::W().openReal || sim::W().badClose || c->closes != 1) { mc::fail("file-leak", what() + ": " + std::to_string(sim::W().openReal) + " files stay open"); return false; }
    } catch (sim::Quiet&) { mc::fail("stuck", what()); return false; } catch (sim::Runaway&) { mc::fail("livelock", what()); return false; }
    return true;
}
static Ask one(Sp s) { return {"bytes=" + s.s, {s}}; }
static Ask many(std::vector<Sp> v, std::string sep = ",") { std::string h; for (auto& s : v) h += (h.empty() ? "" : sep) + s.s; return {"bytes=" + h, v}; }
static std::string file(std::size_t n, unsigned seed = 1) { std::string f = pattern(n, seed); curFile = scratch() + "/f" + std::to_string(n) + ".bin"; put(curFile, f); return f; }

void mc_main() {
    bool th = mc::thorough(); chunkedMode = false;
    std::size_t top = th ? 20 : 12;
    for (std::size_t n = 0; n <= top; ++n) mc::run_case("single/" + std::to_string(n), [&] {
        auto F = file(n); std::string tag = "file of " + std::to_string(n) + " bytes"; std::vector<Sp> all;
        for (uint64_t a = 0; a <= n + 2; ++a) { for (uint64_t b = 0; b <= n + 2; ++b) all.push_back(bounded(a, b)); all.push_back(open(a)); all.push_back(suffix(a)); }
        for (uint64_t big : {1000ull, 4294967295ull, 4294967296ull, 9223372036854775807ull, 9223372036854775808ull, 18446744073709551615ull}) { all.push_back(open(big)); all.push_back(suffix(big)); all.push_back(bounded(0, big)); all.push_back(bounded(n / 2, big)); all.push_back(bounded(big, big)); }
        for (auto& s : all) { mc::arm(); if (!ask(F, {one(s)}, nullptr, tag) || !ask(F, {one(s), {"", {}}, one(s)}, nullptr, tag)) return; auto h = one(s); h.head = true; if (!ask(F, {h}, nullptr, tag)) return; }
        // numbers no integer type holds are valid all the same
        const uint64_t M = ~0ull; for (std::string big : {"18446744073709551616", "18446744073709551617", "18446744073709551620", "99999999999999999999", "340282366920938463463374607431768211457"}) for (Sp z : {Sp{big + "-", 1, M}, Sp{"-" + big, 2, M}, Sp{"0-" + big, 0, 0, M}, Sp{std::to_string(n / 2) + "-" + big, 0, n / 2, M}, Sp{big + "-" + big, 0, M, M}, Sp{"1-" + std::string(40, '0') + "2", 0, 1, 2}})
            if (!ask(F, {one(z), {"", {}}}, nullptr, tag) || !ask(F, {many({z, bounded(0, 0)})}, nullptr, tag)) return;
        Sp zp = bounded(1, 3); zp.s = "001-0003"; if (!ask(F, {one(zp)}, nullptr, tag)) return;
        if (!ask(F, {{"", {}}}, nullptr, tag) || !ask(F, {{"", {}, true}, {"", {}}}, nullptr, tag)) return;
        for (std::string junk : {"bytes=", "bytes", "bytes=-", "bytes=a-b", "bytes=1", "bytes=1-2-3", "bytes=--1", "bytes=+1-2", "bytes=1-+2", "bytes=0x1-2", "items=0-1", "0-1", "bytes 0-1", "bytes=,", "bytes=1.5-2", "=0-1", "bytes=-1-2", "bytes=1 -2", "bytes=5-x"}) if (!ask(F, {{junk, {Sp{junk, 3}}}}, nullptr, tag)) return;
        mc::state(runs); runs = 0;
    });
    // several ranges
    for (std::size_t n : {1ul, 2ul, 10ul}) { std::vector<Sp> pool; for (uint64_t a = 0; a <= std::min<std::size_t>(n, 10) + 1; a += (n > 4 ? 3 : 1)) { for (uint64_t b = a; b <= n + 1; b += (n > 4 ? 4 : 1)) pool.push_back(bounded(a, b)); pool.push_back(open(a)); pool.push_back(suffix(a)); } pool.push_back(bounded(n - 1, n - 1)); pool.push_back(bounded(3, 1)); pool.push_back(Sp{"x", 3});
        for (std::size_t x = 0; x < pool.size(); ++x) mc::run_case("several/" + std::to_string(n) + "/" + std::to_string(x), [&] {
            auto F = file(n); std::string tag = "file of " + std::to_string(n) + " bytes";
            for (auto& y : pool) { mc::arm(); for (auto sep : {",", ", "}) if (!ask(F, {many({pool[x], y}, sep), {"", {}}}, nullptr, tag)) return; for (auto& z : pool) { if (!ask(F, {many({pool[x], y, z})}, nullptr, tag)) return; if (th) for (auto& w : pool) if (!ask(F, {many({pool[x], y, z, w})}, nullptr, tag)) return; } }
            mc::state(runs); runs = 0;
        }); }
    // around the transfer buffer
    const uint64_t K = 131072;
    for (std::size_t n : {K - 1, K, K + 1, 2 * K, 2 * K + 7}) mc::run_case("large/" + std::to_string(n), [&] {
        auto F = file(n, 9); std::string tag = "file of " + std::to_string(n) + " bytes"; std::vector<uint64_t> pos = {0, 1, K - 2, K - 1, K, K + 1, n - 2, n - 1, n, 2 * K - 1, 2 * K};
        for (auto a : pos) { mc::arm(); if (!ask(F, {one(open(a))}, nullptr, tag) || !ask(F, {one(suffix(a))}, nullptr, tag)) return; for (auto b : pos) if (!ask(F, {one(bounded(a, b))}, nullptr, tag) || !ask(F, {many({bounded(a, b), suffix(3), bounded(b, b)})}, nullptr, tag)) return; }
        if (!ask(F, {{"", {}}, one(open(5))}, nullptr, tag)) return;
        chunkedMode = true; bool ok = ask(F, {{"", {}}}, nullptr, tag + " chunked"); chunkedMode = false; if (!ok) return;
        mc::state(runs); runs = 0;
    });
    // beyond what 31 and 32 bits count: only small pieces are asked for
    for (uint64_t base : {1ull << 31, 1ull << 32, (1ull << 32) + (1ull << 31), 1ull << 40}) mc::run_case("hole/" + std::to_string(base), [&] {
        Sparse F{base + 1000, {}}; curFile = scratch() + "/hole.bin"; put(curFile, "");
        for (uint64_t p : {0ull, 1000ull, (unsigned long long)base - 40, (unsigned long long)base + 300, (unsigned long long)base + 980}) F.at[p] = pattern(p ? 60 : 200, p % 251 + 1).substr(0, p > base + 900 ? 20 : 200);
        { int fd = ::open(curFile.c_str(), O_RDWR | O_CLOEXEC); bool ok = fd >= 0 && !::ftruncate(fd, (off_t)F.n); for (auto& [p, t] : F.at) ok = ok && ::pwrite(fd, t.data(), t.size(), (off_t)p) == (ssize_t)t.size(); if (fd >= 0) ::close(fd); if (!ok) { ::unlink(curFile.c_str()); mc::state(1); return; } }   // no such files here: nothing to explore
        std::string tag = "file of " + std::to_string(F.n) + " bytes"; std::vector<Sp> all;
        for (uint64_t a : {(uint64_t)0, (uint64_t)1000, base - 40, base - 1, base, base + 1, base + 300, F.n - 20, F.n - 1, F.n, F.n + 1}) { for (uint64_t l : {1, 2, 50, 700}) all.push_back(bounded(a, a + l - 1)); if (a + 2000 > F.n) { all.push_back(open(a)); if (a < F.n) all.push_back(suffix(F.n - a)); all.push_back(bounded(a, ~0ull)); } }
        for (auto& s : all) { mc::arm(); auto h = one(s); h.head = true; if (!ask(F, {one(s), one(bounded(0, 3)), h}, nullptr, tag) || !ask(F, {many({s, bounded(base, base + 3), suffix(5)})}, nullptr, tag)) return; }
        ::unlink(curFile.c_str()); mc::state(runs); runs = 0;
    });
    // short reads and writes chosen by the kernel
    std::vector<std::pair<std::size_t, Ask>> sh = {{10, one(bounded(2, 8))}, {10, one(suffix(7))}, {10, {"", {}}}, {10, many({bounded(0, 5), suffix(4), bounded(3, 3)})}, {K + 9, one(open(3))}, {K + 9, {"", {}}}, {2 * K, many({bounded(1, K + 1), suffix(K)})}};
    for (std::size_t i = 0; i < sh.size(); ++i) for (int cm = 0; cm < 2; ++cm) mc::run_case("short/" + std::to_string(i) + std::to_string(cm), [&] {
        if (cm && !sh[i].second.header.empty()) return; auto F = file(sh[i].first, 5); chunkedMode = cm;
        mc::sub_explore("short", th ? 3 : 2, [&](mc::Chooser& c) { ask(F, {sh[i].second}, &c, "file of " + std::to_string(F.size()) + " bytes"); }, 400000); chunkedMode = false; mc::state(runs); runs = 0;
    });
    // a read fails, or the file shrinks while it is sent: nothing wrong may look right
    for (std::size_t i = 0; i < sh.size(); ++i) mc::run_case("fail/" + std::to_string(i), [&] {
        auto F = file(sh[i].first, 5); auto& q = sh[i].second;
        for (int cm = 0; cm < 2; ++cm) for (int at = 0; at < 6; ++at) for (int how = 0; how < 4; ++how) {
            if (cm && !q.header.empty()) continue; ++runs; mc::transition(); mc::arm(); put(curFile, F); int n = 0; bool hit = false; chunkedMode = cm;
            auto what = [&] { return "file of " + std::to_string(F.size()) + " bytes Range '" + q.header + "'" + (cm ? " chunked" : "") + (how == 0 ? " read " : how == 1 ? " open " : how == 2 ? " file emptied at read " : " file halved at read ") + std::to_string(at) + (how < 2 ? " fails" : ""); };
            try {
                auto c = serve(nullptr, *router(), [&](sim::Conn& c) { c.data(target(q)); }, [&] { sim::W().fault = [&](sim::Op const& o) { if (o.opc == (how == 1 ? IORING_OP_OPENAT : IORING_OP_READ) && n++ == at) { hit = true; if (how < 2) return -EIO; if (::truncate(curFile.c_str(), how == 2 ? 0 : (off_t)F.size() / 2)) { } } return 0; }; });
                chunkedMode = false; if (!hit) continue; Rsp r; std::string why; std::size_t p = 0; auto g = readRsp(c->out, p, false, r, why);
                if (g == BAD) { mc::fail("malformed", what() + ": " + why); return; }
                if (g == OK && r.status / 100 == 2) {   // complete: then it must be right (a chunked download may end where the file now ends)
                    bool ok = cm && how >= 2 && F.compare(0, r.body.size(), r.body) == 0; if (!ok && !judge(r, q, F, what)) return; }
                if (g == MORE && p < c->out.size() && c->closes != 1) { mc::fail("not-closed", what()); return; }
                if (sim::W().openReal || sim::W().badClose || c->closes != 1) { mc::fail("file-leak", what()); return; }
            } catch (sim::Quiet&) { chunkedMode = false; mc::fail("stuck", what() + ": the response never ends"); return; } catch (sim::Runaway&) { chunkedMode = false; mc::fail("livelock", what()); return; }
        }
        put(curFile, F); mc::state(runs); runs = 0;
    });
}
