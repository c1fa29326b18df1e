// P26: JSON round trip over exhaustive value families; the written text is also judged by an independent reader.
#include "json_common.hpp"
namespace vp {
using namespace HX;
template <class T> void readBack(std::string const& text, T const& v, const char* what) {
    mc::transition(); Exact x(text); T r{};
    try { reflection::fromJson(r, x.sv()); } catch (std::exception& e) { mc::fail(std::string("read-") + what, "reading " + mc::esc(text) + " threw " + e.what()); return; }
    if (!eq(v, r)) mc::fail(std::string("value-") + what, "reading " + mc::esc(text) + " gives another value");
}
// structural positions of a JSON text where whitespace may be inserted
inline std::vector<std::size_t> gaps(std::string const& s) {
    std::vector<std::size_t> g; bool in = false; for (std::size_t i = 0; i <= s.size(); ++i) {
        if (i == s.size()) { g.push_back(i); break; }
        if (in) { if (s[i] == '\\') ++i; else if (s[i] == '"') in = false; continue; }
        bool tok = strchr("{}[],:\"", s[i]) && s[i]; bool prevTok = i && strchr("{}[],:\"", s[i - 1]) && s[i - 1]; if (i == 0 || tok || prevTok) g.push_back(i);
        if (s[i] == '"') in = true; }
    return g;
}
template <class T> void trip(T const& v, int wsMode, const char* what) {
    mc::state(); std::string s;
    try { reflection::toJson(v, s); } catch (std::exception& e) { mc::fail(std::string("write-") + what, std::string("toJson threw ") + e.what()); return; }
    Cur c{s.data(), s.data() + s.size(), false}; T o{}; bool ok = ref(c, o); ws(c);
    if (!ok || c.p != c.e) mc::fail(std::string("invalid-") + what, "the text written is not valid JSON for the type: " + mc::esc(s));
    else if (!eq(v, o)) mc::fail(std::string("text-") + what, "the text written, " + mc::esc(s) + ", denotes another value");
    readBack(s, v, what);
    if (wsMode) { auto g = gaps(s); static const char* W[] = {" ", "\n", "\t", "\r", " \r\n\t "};
        for (std::size_t at : g) for (int w = 0; w < (wsMode > 1 ? 5 : 1); ++w) { auto q = s; q.insert(at, W[w]); readBack(q, v, "ws"); }
        for (int w = 0; w < 5; ++w) { std::string q; std::size_t k = 0; for (std::size_t i = 0; i <= s.size(); ++i) { if (k < g.size() && g[k] == i) { q += W[(w + k) % 5]; ++k; } if (i < s.size()) q += s[i]; } readBack(q, v, "ws"); } }
}
// ---- families of values of composite types
template <class T> struct Vals;
template <class T> std::vector<T> vals() { return Vals<T>::get(); }
template <> struct Vals<int> { static std::vector<int> get() { return {0, -2147483647 - 1, 42}; } };
template <> struct Vals<bool> { static std::vector<bool> get() { return {true, false}; } };
template <> struct Vals<double> { static std::vector<double> get() { return {0.5, -1e-300}; } };
template <> struct Vals<std::string> { static std::vector<std::string> get() { return {"", "a]},\"\\", utf8(0x1F600) + "\n"}; } };
template <> struct Vals<JE> { static std::vector<JE> get() { return {JE::alpha, JE::beta, JE::gamma_2}; } };
template <> struct Vals<JIn> { static std::vector<JIn> get() { return {JIn{}, JIn{-7, "}\""}}; } };
template <class X> constexpr bool nullable = Kind<X>::k == 1 || Kind<X>::k == 2;
template <class X, class T> std::vector<T> nul() { std::vector<T> r; r.push_back(T{}); for (auto x : vals<X>()) { if constexpr (nullable<X>) if (!x) continue; if constexpr (Kind<T>::k == 1) r.push_back(T{std::move(x)}); else r.push_back(std::make_shared<X>(std::move(x))); } return r; }
template <class X> struct Vals<std::optional<X>> { static auto get() { return nul<X, std::optional<X>>(); } };
template <class X> struct Vals<std::shared_ptr<X>> { static auto get() { return nul<X, std::shared_ptr<X>>(); } };
template <class C, class X> std::vector<C> seqs() { auto v = vals<X>(); std::vector<C> r{C{}}; for (auto const& x : v) r.push_back(C{x}); r.push_back(C{v[0], v.back(), v[1 % v.size()]}); for (std::size_t i = 0; i + 1 < v.size(); ++i) r.push_back(C{v[i + 1], v[i]}); return r; }
template <class X> struct Vals<std::vector<X>> { static auto get() { return seqs<std::vector<X>, X>(); } };
template <class X> struct Vals<std::deque<X>> { static auto get() { return seqs<std::deque<X>, X>(); } };
template <class X> struct Vals<std::list<X>> { static auto get() { return seqs<std::list<X>, X>(); } };
template <class X> struct Vals<std::array<X, 2>> { static auto get() { auto v = vals<X>(); std::vector<std::array<X, 2>> r; for (auto const& x : v) { r.push_back({x, v[0]}); r.push_back({v.back(), x}); } return r; } };
template <class X> struct Vals<std::tuple<X, unsigned short>> { static auto get() { std::vector<std::tuple<X, unsigned short>> r; for (auto const& x : vals<X>()) r.push_back({x, 9}); return r; } };
template <class X> struct Vals<std::tuple<short, X>> { static auto get() { std::vector<std::tuple<short, X>> r; for (auto const& x : vals<X>()) r.push_back({-5, x}); return r; } };
template <class M, class X> std::vector<M> mapv() { auto v = vals<X>(); std::vector<M> r{M{}}; const char* K[] = {"", "k", "a\"b\\", "\xC3\xA9:{"}; int n = 0; for (auto const& x : v) r.push_back(M{{K[n++ % 4], x}}); r.push_back(M{{K[2], v[0]}, {K[3], v.back()}, {K[1], v[0]}}); return r; }
template <class X> struct Vals<std::map<std::string, X>> { static auto get() { return mapv<std::map<std::string, X>, X>(); } };
template <class X> struct Vals<std::unordered_map<std::string, X>> { static auto get() { return mapv<std::unordered_map<std::string, X>, X>(); } };
template <class T> void all(const char* what) { for (auto const& v : vals<T>()) trip<T>(v, 2, what); mc::outcome(typeid(T).name()); }
template <class X> void wrap1(const char* w) { all<std::optional<X>>(w); all<std::shared_ptr<X>>(w); all<std::vector<X>>(w); all<std::array<X, 2>>(w); all<std::tuple<X, unsigned short>>(w); all<std::map<std::string, X>>(w); }
template <class X> void wrap2() { wrap1<std::optional<X>>("opt"); wrap1<std::shared_ptr<X>>("ptr"); wrap1<std::vector<X>>("vec"); wrap1<std::array<X, 2>>("arr"); wrap1<std::tuple<short, X>>("tup"); wrap1<std::map<std::string, X>>("map"); }
#if PART == 0
template <class T> void ints() { if constexpr (sizeof(T) <= 2) { for (long x = std::numeric_limits<T>::min(); x <= (long)std::numeric_limits<T>::max(); ++x) trip<T>(T(x), 0, "int"); }
    else for (int k = 0; k < (int)sizeof(T) * 8; ++k) for (int d = -3; d <= 3; ++d) for (int sg : {1, -1}) trip<T>(T(((unsigned long long)1 << k) * sg + d), 0, "int"); mc::outcome(typeid(T).name()); }
template <class T, class U> void floats(int d) { constexpr int sh = sizeof(U) * 8 - 16; std::vector<U> low{0, 1, U(~U(0)) >> 16, U(0x5a5a5a5a5a5a5a5aULL) & (U(~U(0)) >> 16)};
    for (unsigned hi = d; hi < 65536; hi += 8) for (U lo : low) { U u = U(hi) << sh | lo; T v; memcpy(&v, &u, sizeof v); if (std::isfinite(v)) trip<T>(v, 0, "float"); } mc::outcome("float" + std::to_string(sizeof(U)) + std::to_string(d)); }
void strs() {
    for (unsigned b = 0; b < 0x110000; b += 0x1000) mc::run_case("char/" + std::to_string(b), [&] { for (unsigned c = b; c < b + 0x1000; ++c) { if (c >= 0xD800 && c < 0xE000) continue; auto u = utf8(c); trip<std::string>(u, 0, "str"); std::map<std::string, int> m{{u, 1}}; trip(m, 0, "key"); } mc::outcome(b); });
    std::vector<std::string> al{"\"", "\\", "/", "u", "n", std::string(1, '\0'), "\n", "\x1f", "\x7f", "\xC3\xA9", "\xE4\xB8\xAD", utf8(0x10000), utf8(0x10FFFF), "{", "0", "d"};
    for (std::size_t a = 0; a < al.size(); ++a) mc::run_case("str/" + std::to_string(a), [&] { for (auto& b : al) { trip<std::string>(al[a] + b, 2, "str"); for (auto& c : al) { auto s = al[a] + b + c; trip<std::string>(s, 1, "str"); std::map<std::string, std::string> m{{s, b}}; trip(m, 1, "key"); if (mc::thorough()) for (auto& d : al) { trip<std::string>(s + d, 0, "str"); std::map<std::string, std::string> n{{s + d, s}}; trip(n, 0, "key"); } } } mc::outcome(a); });
    for (int n = 0; n < 300; n += 30) mc::run_case("len/" + std::to_string(n), [&] { for (int k = n; k < n + 30; ++k) for (auto& f : al) { std::string s; for (int i = 0; i < k; ++i) s += i % 7 ? "x" : f; trip<std::string>(s, 0, "str"); } mc::outcome(n); });
    // text that is not UTF-8 is either refused or written as something valid; never read beyond
    mc::run_case("badutf8", [&] { std::vector<unsigned char> lead{0x80, 0xBF, 0xC0, 0xC1, 0xC3, 0xE0, 0xE4, 0xED, 0xF0, 0xF4, 0xF5, 0xFF}; std::vector<unsigned char> tail{0x41, 0x80, 0x90, 0xBF, 0xA0, 0xC3, 0};
        for (auto a : lead) for (int l = 0; l <= 3; ++l) { long n = 1; for (int i = 0; i < l; ++i) n *= tail.size(); for (long k = 0; k < n; ++k) { std::string s(1, char(a)); long q = k; for (int i = 0; i < l; ++i) { s += char(tail[q % tail.size()]); q /= tail.size(); } if (validUtf8(s)) continue; mc::transition(); Exact x(s); std::string out;
            try { reflection::toJson(x.sv(), out); } catch (std::exception&) { mc::outcome("refused"); continue; }
            Cur c{out.data(), out.data() + out.size(), false}; std::string o; if (!rdStr(c, o) || c.p != c.e || !validUtf8(o)) mc::fail("badutf8", "text written for invalid UTF-8 " + mc::esc(s) + " is " + mc::esc(out)); } } });
}
void go() {
    mc::run_case("bool", [] { trip<bool>(true, 2, "bool"); trip<bool>(false, 2, "bool"); mc::outcome("bool"); });
    mc::run_case("int", [] { ints<signed char>(); ints<unsigned char>(); ints<char>(); ints<short>(); ints<unsigned short>(); ints<int>(); ints<unsigned>(); ints<long>(); ints<unsigned long>(); ints<long long>(); });
    for (int d = 0; d < 8; ++d) mc::run_case("float/" + std::to_string(d), [d] { floats<float, uint32_t>(d); floats<double, uint64_t>(d); });
    mc::run_case("enum", [] { all<JE>("enum"); for (auto e : vals<JE>()) { std::vector<JE> v{e, JE::beta, e}; trip(v, 2, "enum"); } });
    strs();
}
#elif PART == 1
void go() { mc::run_case("int2", [] { wrap1<int>("b"); wrap2<int>(); }); mc::run_case("str1", [] { wrap1<std::string>("b"); wrap1<double>("b"); wrap1<JE>("b"); all<std::optional<bool>>("b"); all<std::map<std::string, bool>>("b"); all<std::array<bool, 2>>("b"); all<std::shared_ptr<bool>>("b"); }); }
#elif PART == 2
void go() { mc::run_case("str2", [] { wrap2<std::string>(); }); }
#elif PART == 3
void go() {
    mc::run_case("rec2", [] { all<JIn>("rec"); wrap1<JIn>("rec"); all<std::vector<std::optional<JIn>>>("rec"); all<std::map<std::string, std::vector<JIn>>>("rec"); all<std::tuple<short, JIn>>("rec"); });
    mc::run_case("other", [] { all<std::deque<int>>("c"); all<std::list<std::string>>("c"); all<std::unordered_map<std::string, std::string>>("c"); all<std::vector<std::deque<int>>>("c"); trip(std::tuple<>{}, 1, "empty tuple");
        trip(std::tuple<int>{3}, 2, "tup"); trip(std::array<int, 1>{3}, 2, "arr"); trip(std::vector<std::tuple<int, std::string, bool, double>>{{1, "x", true, 1.5}, {2, "]", false, -2.25}}, 2, "tup"); });
    mc::run_case("node", [] { std::vector<JNode> pool{JNode{1, {}}}; for (int d = 0; d < 3; ++d) { std::vector<JNode> nx; for (auto& a : pool) { nx.push_back(JNode{2, {a}}); nx.push_back(JNode{-3, {a, pool[0]}}); nx.push_back(a); } pool = nx; } for (auto& n : pool) trip(n, 1, "node"); mc::outcome(pool.size()); });
    mc::run_case("defaults", [] { for (int m = 0; m < 128; ++m) { JDef r; if (m & 1) r.o.reset(); if (m & 2) r.s = m & 4 ? "" : "z"; if (m & 4) r.v = m & 8 ? std::vector<int>{} : std::vector<int>{9}; if (m & 8) r.m = m & 16 ? std::map<std::string, int>{} : std::map<std::string, int>{{"e", 2}}; if (m & 16) r.p.reset(); if (m & 32) r.i = 0; if (m & 64) r.b = false; trip(r, 1, "defaults"); } mc::outcome("defaults"); });
    // one big record: every pair of fields deviates from the default in every way
    auto set = [](JRec& r, int f, int k) { switch (f) {
        case 0: r.b = true; return k < 1; case 1: r.i = Vals<int>::get()[k % 3]; return k < 3; case 2: r.d = Vals<double>::get()[k % 2]; return k < 2; case 3: r.s = Vals<std::string>::get()[k % 3]; return k < 3;
        case 4: r.e = Vals<JE>::get()[k % 3]; return k < 3; case 5: r.o = k; return k < 2; case 6: r.p = std::make_unique<std::string>(Vals<std::string>::get()[k % 3]); return k < 3;
        case 7: r.t = {k, Vals<std::string>::get()[k % 3], k & 1}; return k < 3; case 8: { auto v = vals<std::vector<int>>(); r.v = v[k % v.size()]; return k < (int)v.size(); } case 9: { auto v = vals<std::map<std::string, int>>(); r.m = v[k % v.size()]; return k < (int)v.size(); }
        case 10: r.in = Vals<JIn>::get()[k % 2]; return k < 2; case 11: r.a = {(unsigned short)(65535 - k), (unsigned short)k}; return k < 2; default: { auto v = vals<std::vector<JIn>>(); r.vi = v[k % v.size()]; return k < (int)v.size(); } } };
    for (int f = 0; f < 13; ++f) mc::run_case("record/" + std::to_string(f), [&] { for (int g = 0; g < 13; ++g) for (int k = 0;; ++k) { { JRec probe; if (!set(probe, f, k)) break; } for (int l = 0;; ++l) { JRec r; set(r, f, k); if (!set(r, g, l)) break; trip(r, mc::thorough() ? 2 : 1, "record"); } } mc::outcome(f); });
}
#endif
}
void mc_main() { vp::go(); }
