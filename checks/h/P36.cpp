// P36: string / number / date helpers against naive definitions, on every short input.
#include <mc.hpp>
#include <algorithm>
#include <HXLibs/utils/StringUtils.hpp>
#include <HXLibs/utils/NumericBaseConverter.hpp>
#include <HXLibs/utils/ByteUtils.hpp>
static time_t g_now = 0; static bool g_fakeTime = false;
extern "C" time_t time(time_t* p) { time_t t; if (g_fakeTime) t = g_now; else { struct timespec ts; clock_gettime(CLOCK_REALTIME, &ts); t = ts.tv_sec; } if (p) *p = t; return t; }
namespace vp {
using SU = HX::utils::StringUtil; using NB = HX::utils::NumericBaseConverter; using BU = HX::utils::ByteUtils;
using Toks = std::vector<std::pair<std::size_t, std::string>>;
// definition: scan left to right; at each occurrence of the delimiter cut. An empty delimiter never occurs.
static Toks refSplit(std::string const& s, std::string const& d, bool skipEmpty) {
    Toks r; if (s.empty()) return r;
    std::string cur; std::size_t start = 0, i = 0;
    auto flush = [&](std::size_t next) { if (!skipEmpty || !cur.empty()) r.push_back({start, cur}); cur.clear(); start = next; };
    while (i < s.size()) {
        if (!d.empty() && s.compare(i, d.size(), d) == 0) { i += d.size(); flush(i); }
        else cur += s[i++];
    }
    flush(0);
    return r;
}
static std::string show(Toks const& t) { std::string r = "["; for (auto& [p, s] : t) r += std::to_string(p) + ":\"" + mc::esc(s) + "\" "; return r + "]"; }
static void str(std::string const& s, std::string const& d) {
    mc::transition();
    auto ctx = "string \"" + mc::esc(s) + "\", delimiter \"" + mc::esc(d) + "\": ";
    for (bool skip : {true, false}) {
        auto want = refSplit(s, d, skip);
        auto cmp = [&](const char* key, auto const& got) {
            bool ok = got.size() == want.size();
            for (std::size_t i = 0; ok && i < got.size(); ++i) ok = std::string(got[i]) == want[i].second;
            if (!ok) mc::fail(key, ctx + "split gives " + std::to_string(got.size()) + " parts instead of " + show(want));
        };
        auto cmpP = [&](const char* key, auto const& got) {
            Toks g; for (auto& x : got) g.push_back({x.first, std::string(x.second)});
            if (g != want) mc::fail(key, ctx + "gives " + show(g) + " instead of " + show(want));
        };
        if (skip) { cmp("split", SU::split<std::string>(s, d)); cmp("split", SU::split<std::string_view>(s, d)); cmpP("splitWithPos", SU::splitWithPos<std::string>(s, d)); cmpP("splitWithPos", SU::splitWithPos<std::string_view>(s, d)); }
        else { cmp("split-keep-empty", (SU::split<std::string, false>(s, d))); cmpP("splitWithPos-keep-empty", (SU::splitWithPos<std::string, false>(s, d))); }
    }
    // prefilled result vector is appended to
    auto pre = SU::split<std::string>(s, d, std::vector<std::string>{"x", "y"});
    auto w = refSplit(s, d, true);
    MC_CHECK(pre.size() == w.size() + 2 && pre[0] == "x" && pre[1] == "y", "split-prefilled", ctx + "elements already in the result are not kept");
    if (!d.empty()) {
        auto [a, b] = SU::splitAtFirst(s, d);
        std::string wa, wb; auto p = s.find(d);
        if (p != std::string::npos) { wa = s.substr(0, p); wb = s.substr(p + d.size()); }
        MC_CHECK(a == wa && b == wb, "splitAtFirst", ctx + "gives {\"" + mc::esc(a) + "\",\"" + mc::esc(b) + "\"} instead of {\"" + mc::esc(wa) + "\",\"" + mc::esc(wb) + "\"}");
        std::string last = s; for (std::size_t i = 0; i + d.size() <= s.size(); ++i) if (s.compare(i, d.size(), d) == 0) last = s.substr(i + d.size());
        auto got = SU::rfindAndTrim(s, d);
        MC_CHECK(got == last, "rfindAndTrim", ctx + "gives \"" + mc::esc(got) + "\" instead of \"" + mc::esc(last) + "\"");
    }
}
static void cases(std::string const& s) {
    mc::transition();
    std::string lo = s, up = s;
    for (auto& c : lo) if (c >= 'A' && c <= 'Z') c += 32;
    for (auto& c : up) if (c >= 'a' && c <= 'z') c -= 32;
    std::string a = s; a.shrink_to_fit(); SU::toLower(a);
    MC_CHECK(a == lo, "toLower", "toLower(\"" + mc::esc(s) + "\") = \"" + mc::esc(a) + "\"");
    a = s; SU::toUpper(a);
    MC_CHECK(a == up, "toUpper", "toUpper(\"" + mc::esc(s) + "\") = \"" + mc::esc(a) + "\"");
}
template <int Base, class T> void base(std::vector<T> const& vals) {
    const char* D = "0123456789abcdefghijklmnopqrstuvwxyz";
    for (T v : vals) {
        std::string s; T x = v; do { s += D[x % Base]; x /= Base; } while (x); std::reverse(s.begin(), s.end());
        std::string u = s; for (auto& c : u) if (c >= 'a') c -= 32;
        std::string mix = s; for (std::size_t i = 0; i < mix.size(); i += 2) if (mix[i] >= 'a') mix[i] -= 32;
        for (auto& t : {s, u, mix, "0" + s, "000" + u}) {
            mc::transition();
            auto g = NB::strToNum<T, (T)Base>(std::string_view(t));
            MC_CHECK(g == v, "strToNum", "strToNum base " + std::to_string(Base) + " of \"" + t + "\" = " + std::to_string(g) + " instead of " + std::to_string(v));
            auto g2 = NB::strToNum<T, (T)Base>(t); MC_CHECK(g2 == v, "strToNum-string", t);
        }
        if (Base == 16) {
            auto h = NB::hexadecimalConversion((std::size_t)v);
            MC_CHECK(h == u, "hex", "hexadecimalConversion(" + std::to_string(v) + ") = \"" + h + "\" instead of \"" + u + "\"");
        }
    }
}
template <class T> void swapT(std::vector<T> const& vals) {
    for (T v : vals) {
        mc::transition();
        unsigned char b[sizeof(T)], r[sizeof(T)]; memcpy(b, &v, sizeof v); for (std::size_t i = 0; i < sizeof(T); ++i) r[i] = b[sizeof(T) - 1 - i];
        T want; memcpy(&want, r, sizeof(T));
        MC_CHECK(BU::byteswap(v) == want, "byteswap", "byteswap wrong for a " + std::to_string(sizeof(T)) + "-byte value " + std::to_string(v));
        MC_CHECK(BU::byteswap(BU::byteswap(v)) == v, "byteswap-inverse", "value " + std::to_string(v));
        MC_CHECK(BU::byteswapIfLittle(v) == (BU::kIsLittleEndian ? want : v), "byteswapIfLittle", "value " + std::to_string(v));
    }
}
template <class F> void allStrings(std::string const& alpha, int len, std::string cur, F&& f) {
    f(cur); if ((int)cur.size() == len) return;
    for (char c : alpha) allStrings(alpha, len, cur + c, f);
}
static void main_() {
    bool T = mc::thorough();
    std::string A = "ab,", D = "ab,";
    std::vector<std::string> delims; allStrings(D, 3, "", [&](std::string const& d) { delims.push_back(d); });
    int L = T ? 9 : 7;
    mc::run_case("str/empty", [&] { for (auto& d : delims) str("", d); cases(""); });
    for (char a : A) for (char b : A) for (char c : A) mc::run_case(std::string("str/") + a + b + c, [&] {
        allStrings(A, L, std::string{a, b, c}, [&](std::string const& s) { for (auto& d : delims) str(s, d); mc::state(); });
        mc::outcome(std::string{a, b, c});
        if (b == 'a' && c == 'a') { str(std::string(1, a), ","); for (char x : A) for (auto& d : delims) { str(std::string(1, a), d); str(std::string{a, x}, d); } }
    });
    // case conversion: every byte value at every position of strings up to 20 characters, over several fillers
    for (int n = 1; n <= (T ? 40 : 20); ++n) mc::run_case("case/" + std::to_string(n), [&] {
        for (char fill : {'A', 'z', '_', '\0', '\xff', '@', '[', '`', '{', '-'}) for (int i = 0; i < n; ++i) for (int c = 0; c < 256; ++c) { std::string s(n, fill); s[i] = (char)c; cases(s); }
        mc::outcome("case" + std::to_string(n));
    });
    std::vector<std::size_t> v64; std::vector<unsigned> v32; std::vector<uint16_t> v16;
    for (std::size_t i = 0; i < 70000; i += T ? 1 : 3) v64.push_back(i);
    for (int b = 0; b < 64; ++b) for (long d = -2; d <= 2; ++d) v64.push_back((1ULL << b) + d);
    std::size_t p10 = 1; for (int i = 0; i < 20; ++i, p10 *= 10) for (long d = -1; d <= 1; ++d) v64.push_back(p10 + d);
    for (auto x : v64) { v32.push_back((unsigned)x); v16.push_back((uint16_t)x); }
    mc::run_case("base/2", [&] { base<2>(v64); }); mc::run_case("base/8", [&] { base<8>(v64); }); mc::run_case("base/10", [&] { base<10>(v64); }); mc::run_case("base/16", [&] { base<16>(v64); });
    mc::run_case("base/11", [&] { base<11>(v64); }); mc::run_case("base/36", [&] { base<36>(v64); }); mc::run_case("base/16/32", [&] { base<16>(v32); }); mc::run_case("base/10/32", [&] { base<10>(v32); });
    mc::run_case("swap/16", [&] { swapT<uint16_t>(v16); }); mc::run_case("swap/32", [&] { swapT<uint32_t>(v32); }); mc::run_case("swap/64", [&] { swapT<uint64_t>(v64); });
    mc::run_case("swap/8", [&] { std::vector<uint8_t> v; for (int i = 0; i < 256; ++i) v.push_back(i); swapT<uint8_t>(v); });
    // HTTP date: every day from 1970 to 2105 at a varying second, and every second of two days
    for (int y = 0; y < 136; ++y) mc::run_case("date/" + std::to_string(1970 + y), [&] {
        g_fakeTime = true;
        auto one = [&](long t) {
            mc::transition(); g_now = t; auto got = HX::utils::DateTimeFormat::makeHttpDate();
            // days -> civil, independent of the C library
            long d = t / 86400, s = t % 86400; static const int ml[] = {31, 28, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31};
            int yy = 1970; long dd = d; auto leap = [](int q) { return (q % 4 == 0 && q % 100) || q % 400 == 0; };
            while (dd >= (leap(yy) ? 366 : 365)) dd -= leap(yy++) ? 366 : 365;
            int m = 0; while (dd >= ml[m] + (m == 1 && leap(yy))) { dd -= ml[m] + (m == 1 && leap(yy)); ++m; }
            static const char* W[] = {"Thu", "Fri", "Sat", "Sun", "Mon", "Tue", "Wed"}; static const char* M[] = {"Jan", "Feb", "Mar", "Apr", "May", "Jun", "Jul", "Aug", "Sep", "Oct", "Nov", "Dec"};
            char b[64]; snprintf(b, 64, "%s, %02ld %s %d %02ld:%02ld:%02ld GMT", W[d % 7], dd + 1, M[m], yy, s / 3600, s / 60 % 60, s % 60);
            MC_CHECK(got == b, "http-date", "time " + std::to_string(t) + " formats as \"" + got + "\" instead of \"" + b + "\"");
        };
        for (long d = y * 365L; d < y * 365L + 365; ++d) one(d * 86400 + (d * 7919) % 86400);
        if (y < 2) for (long s = 0; s < 86400; s += T ? 1 : 7) one(y * 5000L * 86400 + s);
        g_fakeTime = false; mc::outcome("date" + std::to_string(y));
    });
    mc::sample("split(\"a,,b,\", \",\") keeping empty parts = " + show(refSplit("a,,b,", ",", false)));
}
}
void mc_main() { vp::main_(); }
