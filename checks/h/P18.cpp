// P18 (first part): dispatch to the most specific endpoint, its parameters, query parameters.
#include "srv_common.hpp"
using namespace vp;

static uint64_t runs;
using Segs = std::vector<std::string>;
struct T { Segs s; std::string path; int vars = 0; bool wild = false; HttpMethod m{}; };
static Segs segsOf(std::string const& p) { Segs v; std::size_t i = 0; while (i < p.size()) { auto e = p.find('/', i); if (e == p.npos) e = p.size(); if (e > i) v.push_back(p.substr(i, e - i)); i = e + 1; } return v; }
static T mk(std::string path) { T t; t.path = path; t.s = segsOf(path); for (auto& x : t.s) { if (x[0] == '{') ++t.vars; if (x == "**") t.wild = true; } return t; }
// the reference: segment by segment from the left, literal before variable before wildcard
static int rank(std::string const& s) { return s == "**" ? 2 : s[0] == '{' ? 1 : 0; }
static bool matches(T const& t, Segs const& p) {
    for (std::size_t i = 0; i < t.s.size(); ++i) { if (t.s[i] == "**") return p.size() > i; if (i >= p.size()) return false; if (t.s[i][0] != '{' && t.s[i] != p[i]) return false; }
    return p.size() == t.s.size();
}
static int best(std::vector<T> const& ts, std::string const& method, Segs const& p) {
    int b = -1;
    for (int i = 0; i < (int)ts.size(); ++i) { if (getMethodStringView(ts[(std::size_t)i].m) != method || !matches(ts[(std::size_t)i], p)) continue; if (b < 0) { b = i; continue; }
        auto &x = ts[(std::size_t)i].s, &y = ts[(std::size_t)b].s; for (std::size_t k = 0; k < x.size() && k < y.size(); ++k) if (rank(x[k]) != rank(y[k])) { if (rank(x[k]) < rank(y[k])) b = i; break; } }
    return b;
}
static std::string expect(std::vector<T> const& ts, std::string const& method, std::string const& path) {
    auto p = segsOf(path); int b = best(ts, method, p); if (b < 0) return "none";
    auto& t = ts[(std::size_t)b]; std::string o = "#" + std::to_string(b);
    for (std::size_t i = 0; i < t.s.size(); ++i) if (t.s[i][0] == '{') o += "," + p[i];
    if (t.wild) { std::string r; for (std::size_t i = t.s.size() - 1; i < p.size(); ++i) r += "/" + p[i]; if (t.vars && !r.empty()) r.erase(0, 1); o += "|" + r; }   // as documented: with the slash before it, except behind path variables
    return o;
}
static std::string query(std::vector<std::pair<std::string, std::string>> const& q) { std::map<std::string, std::string> m(q.begin(), q.end()); std::string o; for (auto& [k, v] : m) o += "[" + k + "=" + v + "]"; return o; }
static std::function<Task<>(Req&, Res&)> handler(int id, T const& t) {
    return [id, vars = t.vars, wild = t.wild](Req& q, Res& s) -> Task<> {
        std::string o = "#" + std::to_string(id);
        for (int i = 0; i < vars; ++i) { std::string_view v = q.getPathParam((std::size_t)i); o += "," + std::string(v); }
        try { std::string_view v = q.getPathParam((std::size_t)vars); o += ",extra " + std::string(v); } catch (std::exception&) { }
        if (wild) o += "|" + std::string(q.getUniversalWildcardPath());
        std::map<std::string, std::string> m; for (auto& [k, v] : q.getParseQueryParameters()) m[k] = v; for (auto& [k, v] : m) o += "[" + k + "=" + v + "]";
        co_await s.setStatusAndContent(Status::CODE_200, o).sendRes();
    };
}
static void add(Rt& r, int id, T const& t) { auto h = handler(id, t); switch (t.m) { case GET: r.addEndpoint<GET>(t.path, h); break; case POST: r.addEndpoint<POST>(t.path, h); break; case PUT: r.addEndpoint<PUT>(t.path, h); break; default: r.addEndpoint<DEL>(t.path, h); } }
struct Q { std::string method, target, want; };
static bool ask(std::vector<T> const& ts, Rt const& r, std::vector<Q> const& qs, std::function<std::string()> const& table) {
    std::string in; for (auto& q : qs) in += q.method + " " + q.target + " HTTP/1.1\r\nHost: h\r\n\r\n";
    mc::transition(qs.size()); ++runs;
    std::shared_ptr<sim::Conn> c;
    try { c = serve(nullptr, r, [&](sim::Conn& c) { c.data(in).fin(); }); } catch (sim::Quiet&) { mc::fail("stuck", table()); return false; } catch (sim::Runaway&) { mc::fail("livelock", table()); return false; }
    std::size_t p = 0;
    for (auto& q : qs) {
        Rsp a; std::string why; auto g = readRsp(c->out, p, false, a, why);
        auto w = [&] { return table() + ", request " + q.method + " " + mc::esc(q.target); };
        if (g != OK) { mc::fail("no-answer", w() + ": expected " + q.want + ", no answer"); return false; }
        if (q.want == "none") { if (a.status != 404) { mc::fail("wrong-endpoint", w() + ": no endpoint matches, answered by " + std::to_string(a.status) + " " + mc::esc(a.body, 60)); return false; } }
        else if (a.status != 200 || a.body != q.want) { mc::fail(a.status == 200 && a.body.substr(0, 2) == q.want.substr(0, 2) ? "parameters" : "wrong-endpoint", w() + ": expected " + mc::esc(q.want) + ", answered by " + std::to_string(a.status) + " " + mc::esc(a.body, 80)); return false; }
    }
    return true;
}

void mc_main() {
    bool th = mc::thorough();
    // all templates of up to 3 segments over {a, b, variable} with an optional trailing wildcard
    std::vector<std::string> tp{"/"}; { std::vector<std::string> cur{""}; for (int d = 0; d < 3; ++d) { std::vector<std::string> nx; for (auto& c : cur) { for (std::string s : {"a"s, "b"s, "{v" + std::to_string(d) + "}"}) nx.push_back(c + "/" + s); tp.push_back(c + "/**"); } for (auto& n : nx) tp.push_back(n); cur = nx; } }
    std::vector<std::string> paths{"/"}; { std::vector<std::string> cur{""}; for (int d = 0; d < 4; ++d) { std::vector<std::string> nx; for (auto& c : cur) for (std::string s : {"a", "b", "c"}) { if (d == 3 && s == "b") continue; nx.push_back(c + "/" + s); } for (auto& n : nx) paths.push_back(n); cur = nx; } }
    auto table = [](std::vector<T> const& ts) { std::string s = "endpoints {"; for (auto& t : ts) s += " " + std::string(getMethodStringView(t.m)) + " " + t.path; return s + " }"; };
    auto run = [&](std::vector<T> const& ts, std::vector<std::string> const& ps) {
        Rt r; for (std::size_t i = 0; i < ts.size(); ++i) add(r, (int)i, ts[i]);
        std::vector<Q> qs; for (auto& p : ps) qs.push_back({"GET", p, expect(ts, "GET", p)});
        return ask(ts, r, qs, [&] { return table(ts); });
    };
    std::size_t N = tp.size(); auto G = [&](std::size_t i) { auto t = mk(tp[i]); t.m = GET; return t; };
    for (std::size_t a = 0; a < N; ++a) mc::run_case("tables/" + tp[a], [&] {
        if (!run({G(a)}, paths)) return;
        for (std::size_t b = 0; b < N; ++b) if (b != a) { mc::arm(); if (!run({G(a), G(b)}, paths)) return; if (b > a) for (std::size_t c = b + 1; c < N; ++c) { if (!run({G(a), G(b), G(c)}, paths)) return;
            if (th) for (std::size_t d = c + 1; d < N; ++d) { mc::arm(); if (!run({G(a), G(b), G(c), G(d)}, paths)) return; } } }
        mc::state(runs); runs = 0; mc::outcome(tp[a]);
    });
    // methods: the same or overlapping templates for different methods
    std::vector<std::string> mt = {"/", "/a", "/{v}", "/**", "/a/b", "/a/{v}", "/{v}/b", "/{v}/{w}", "/a/**", "/{v}/**", "/a/{v}/**"}; HttpMethod ms[] = {GET, POST, PUT};
    for (std::size_t a = 0; a < mt.size(); ++a) mc::run_case("methods/" + mt[a], [&] {
        for (std::size_t b = 0; b < mt.size(); ++b) for (std::size_t c = 0; c < mt.size(); ++c) for (int k = 0; k < 27; ++k) {
            std::vector<T> ts{mk(mt[a]), mk(mt[b]), mk(mt[c])}; ts[0].m = ms[k % 3]; ts[1].m = ms[k / 3 % 3]; ts[2].m = ms[k / 9];
            auto dup = [&](int i, int j) { return ts[(std::size_t)i].m == ts[(std::size_t)j].m && ts[(std::size_t)i].s == ts[(std::size_t)j].s; }; if (dup(0, 1) || dup(0, 2) || dup(1, 2)) continue; mc::arm();
            Rt r; for (std::size_t i = 0; i < 3; ++i) add(r, (int)i, ts[i]);
            std::vector<Q> qs; for (std::string m : {"GET", "POST", "PUT", "DELETE", "PATCH"}) for (std::string p : {"/", "/a", "/x", "/a/b", "/x/b", "/a/b/c", "/GET/a", "/x/y/z/w"}) qs.push_back({m, p, expect(ts, m, p)});
            if (!ask(ts, r, qs, [&] { return table(ts); })) return;
        }
        mc::state(runs); runs = 0;
    });
    // names and values that look alike, query strings do not take part in routing
    std::vector<std::string> rich = {"/a/{v}", "/ab/{v}", "/a/b", "/a.b", "/{v}/ab", "/ab/**", "/a/{v}/c/{w}", "/a/{v}/c/**", "/{x}/{y}/{z}/**", "/index.html", "/A/b", "/a-b_c~d/{v}"};
    std::vector<std::string> words = {"a", "ab", "b", "A", "a.b", "abc", "index.html", "a-b_c~d", "%61", "%2F", "c", "1", ":", "a=b", "a&b", "\xe4\xbd\xa0"};
    std::vector<std::string> suf = {"", "?", "?q=1", "?/a/b", "?x=/ab/c&y", "?a?b"};
    for (std::size_t a = 0; a < rich.size(); ++a) mc::run_case("names/" + rich[a], [&] {
        for (std::size_t b = 0; b < rich.size(); ++b) for (std::size_t c = 0; c < rich.size(); ++c) {
            if (a == b || b >= c || a == c) continue; std::vector<T> ts; for (auto i : {a, b, c}) { ts.push_back(mk(rich[i])); ts.back().m = GET; } Rt r; for (std::size_t i = 0; i < 3; ++i) add(r, (int)i, ts[i]); mc::arm();
            std::vector<Q> qs; std::size_t k = a + b + c;
            std::vector<std::vector<std::pair<std::string, std::string>>> sq = {{}, {}, {{"q", "1"}}, {{"/a/b", ""}}, {{"x", "/ab/c"}, {"y", ""}}, {{"a?b", ""}}};
            auto put = [&](std::string p) { std::size_t s = k++ % suf.size(); auto e = expect(ts, "GET", p); qs.push_back({"GET", p + suf[s], e == "none" ? e : e + query(sq[s])}); };
            for (auto& x : words) { put("/" + x); for (auto& y : words) { put("/" + x + "/" + y); if (y < "b") for (auto& z : words) { put("/" + x + "/" + y + "/" + z); if (z == "c" || z == "a") put("/" + x + "/" + y + "/" + z + "/" + words[k % words.size()]); } } }
            if (!ask(ts, r, qs, [&] { return table(ts); })) return;
        }
        mc::state(runs); runs = 0;
    });
    // query parameters
    std::vector<std::string> keys = {"a", "b", "ab", "k.1", "%20", "a+b", "\xe4\xbd\xa0"}, vals = {"", "1", "x=y", "==", "/p", "a?b", "%26", ";"};
    std::vector<std::pair<std::string, std::vector<std::pair<std::string, std::string>>>> one; for (auto& k : keys) { one.push_back({k, {{k, ""}}}); for (auto& v : vals) one.push_back({k + "=" + v, {{k, v}}}); }
    for (std::size_t a = 0; a < one.size(); ++a) mc::run_case("query/" + mc::esc(one[a].first), [&] {
        for (std::string tpl : {"/q", "/{v}", "/**"}) {
            std::vector<T> ts{mk(tpl)}; ts[0].m = GET; Rt r; add(r, 0, ts[0]); std::string base = expect(ts, "GET", "/q"); std::vector<Q> qs{{"GET", "/q?" + one[a].first, base + query(one[a].second)}};
            for (auto& b : one) { if (b.second[0].first == one[a].second[0].first) continue; qs.push_back({"GET", "/q?" + one[a].first + "&" + b.first, base + query({one[a].second[0], b.second[0]})});
                if (tpl == "/q") for (auto& c : one) { if (c.second[0].first == one[a].second[0].first || c.second[0].first == b.second[0].first) continue; qs.push_back({"GET", "/q?" + one[a].first + "&" + b.first + "&" + c.first, base + query({one[a].second[0], b.second[0], c.second[0]})}); }
                if (qs.size() > 500) { mc::arm(); if (!ask(ts, r, qs, [&] { return table(ts); })) return; qs.clear(); } }
            if (!ask(ts, r, qs, [&] { return table(ts); })) return;
        }
        mc::state(runs); runs = 0;
    });
}
