// Shared by P26 and P27: value families, deep equality and an independent JSON reader used as the oracle.
#pragma once
#include <mc.hpp>
#include <HXLibs/reflection/json/JsonRead.hpp>
#include <HXLibs/reflection/json/JsonWrite.hpp>
#include <map>
#include <unordered_map>
#include <memory>
#include <optional>
#include <deque>
#include <list>
#include <tuple>
#include <cmath>
#include <cstring>
enum class JE { alpha, beta = 7, gamma_2 = -3 };
struct JIn { int x = 0; std::string y; };
struct JRec {
    bool b = false; int i = 0; double d = 0; std::string s; JE e = JE::alpha; std::optional<int> o; std::unique_ptr<std::string> p;
    std::tuple<int, std::string, bool> t; std::vector<int> v; std::map<std::string, int> m; JIn in; std::array<unsigned short, 2> a{}; std::vector<JIn> vi;
};
struct JOne { int only = 0; };
struct JDef { std::optional<int> o = 5; std::string s = "dflt"; std::vector<int> v{1, 2}; std::map<std::string, int> m{{"d", 1}}; std::shared_ptr<int> p = std::make_shared<int>(8); int i = 3; bool b = true; };
struct JNode { int id = 0; std::vector<JNode> kids; };
namespace vp {
// field tables of the records (name, member) written down by hand: the oracle must not use the reflection under test
template <class R, class F> void fields(R& r, F&& f) {
    using T = std::remove_const_t<R>;
    if constexpr (std::is_same_v<T, JIn>) { f("x", r.x); f("y", r.y); }
    else if constexpr (std::is_same_v<T, JOne>) f("only", r.only);
    else if constexpr (std::is_same_v<T, JNode>) { f("id", r.id); f("kids", r.kids); }
    else if constexpr (std::is_same_v<T, JDef>) { f("o", r.o); f("s", r.s); f("v", r.v); f("m", r.m); f("p", r.p); f("i", r.i); f("b", r.b); }
    else { f("b", r.b); f("i", r.i); f("d", r.d); f("s", r.s); f("e", r.e); f("o", r.o); f("p", r.p); f("t", r.t); f("v", r.v); f("m", r.m); f("in", r.in); f("a", r.a); f("vi", r.vi); }
}
template <class T> constexpr bool isRec = std::is_same_v<T, JIn> || std::is_same_v<T, JOne> || std::is_same_v<T, JNode> || std::is_same_v<T, JRec> || std::is_same_v<T, JDef>;
template <class T> struct Kind { static constexpr int k = 0; };                      // 0 scalar/string/record
template <class T> struct Kind<std::optional<T>> { static constexpr int k = 1; };
template <class T> struct Kind<std::unique_ptr<T>> { static constexpr int k = 2; };
template <class T> struct Kind<std::shared_ptr<T>> { static constexpr int k = 2; };
template <class T> struct Kind<std::vector<T>> { static constexpr int k = 3; };
template <class T> struct Kind<std::deque<T>> { static constexpr int k = 3; };
template <class T> struct Kind<std::list<T>> { static constexpr int k = 3; };
template <class T, std::size_t N> struct Kind<std::array<T, N>> { static constexpr int k = 4; };
template <class... T> struct Kind<std::tuple<T...>> { static constexpr int k = 5; };
template <class V> struct Kind<std::map<std::string, V>> { static constexpr int k = 6; };
template <class V> struct Kind<std::unordered_map<std::string, V>> { static constexpr int k = 6; };
template <class T> bool eq(T const& a, T const& b) {
    constexpr int k = Kind<T>::k;
    if constexpr (isRec<T>) {
        std::vector<std::function<bool()>> cmp; bool ok = true; std::vector<const void*> pb; fields(b, [&](const char*, auto const& m) { pb.push_back(&m); }); std::size_t i = 0;
        fields(a, [&](const char*, auto const& m) { using M = std::remove_cvref_t<decltype(m)>; ok = ok && eq<M>(m, *static_cast<M const*>(pb[i++])); }); return ok;
    } else if constexpr (k == 1 || k == 2) return !a == !b && (!a || eq(*a, *b));
    else if constexpr (k == 3 || k == 4) { if (a.size() != b.size()) return false; auto x = a.begin(); for (auto const& y : b) if (!eq(*x++, y)) return false; return true; }
    else if constexpr (k == 5) return [&]<std::size_t... I>(std::index_sequence<I...>) { return (eq(std::get<I>(a), std::get<I>(b)) && ...); }(std::make_index_sequence<std::tuple_size_v<T>>{});
    else if constexpr (k == 6) { if (a.size() != b.size()) return false; for (auto const& [q, v] : a) { auto it = b.find(q); if (it == b.end() || !eq(v, it->second)) return false; } return true; }
    else if constexpr (std::is_floating_point_v<T>) return std::memcmp(&a, &b, sizeof(T)) == 0;
    else return a == b;
}
inline std::string utf8(unsigned c) {
    std::string s; auto p = [&](unsigned b) { s += char(b); };
    if (c < 0x80) p(c); else if (c < 0x800) { p(0xC0 | c >> 6); p(0x80 | (c & 63)); } else if (c < 0x10000) { p(0xE0 | c >> 12); p(0x80 | (c >> 6 & 63)); p(0x80 | (c & 63)); }
    else { p(0xF0 | c >> 18); p(0x80 | (c >> 12 & 63)); p(0x80 | (c >> 6 & 63)); p(0x80 | (c & 63)); } return s;
}
inline bool validUtf8(std::string const& s) {
    for (std::size_t i = 0; i < s.size();) { unsigned char c = s[i]; int n = c < 0x80 ? 0 : c >= 0xC2 && c < 0xE0 ? 1 : c >= 0xE0 && c < 0xF0 ? 2 : c >= 0xF0 && c < 0xF5 ? 3 : -1; if (n < 0 || i + n >= s.size()) return false;
        unsigned v = n == 0 ? c : n == 1 ? c & 31 : n == 2 ? c & 15 : c & 7; for (int k = 1; k <= n; ++k) { unsigned char d = s[i + k]; if ((d & 0xC0) != 0x80) return false; v = v << 6 | (d & 63); }
        if ((n == 2 && v < 0x800) || (n == 3 && v < 0x10000) || v > 0x10FFFF || (v >= 0xD800 && v < 0xE000)) return false; i += n + 1; }
    return true;
}
// Oracle: reads a T from text with a strict RFC 8259 reader typed by T, or (lenient) the widest reading the library documents or visibly intends:
// literals in any case, 0/1 for bool, leading zeros / bare dots in numbers, any escaped character, raw control characters, fewer array/tuple elements, text behind the value.
struct Cur { const char* p; const char* e; bool lenient; bool bad = false; bool dup = false; };
inline void ws(Cur& c) { while (c.p < c.e && (*c.p == ' ' || *c.p == '\t' || *c.p == '\n' || *c.p == '\r')) ++c.p; }
inline bool lit(Cur& c, const char* w) { std::size_t n = strlen(w); if (std::size_t(c.e - c.p) < n) return false; for (std::size_t i = 0; i < n; ++i) if (c.lenient ? (c.p[i] | 32) != w[i] || !isalpha((unsigned char)c.p[i]) : c.p[i] != w[i]) return false; c.p += n; return true; }
inline bool rd4(Cur& c, unsigned& u) { u = 0; for (int i = 0; i < 4; ++i) { if (c.p >= c.e || !isxdigit((unsigned char)*c.p)) return false; u = u * 16 + (isdigit((unsigned char)*c.p) ? *c.p - '0' : (*c.p | 32) - 'a' + 10); ++c.p; } return true; }
inline bool rdStr(Cur& c, std::string& out) {
    if (c.p >= c.e || *c.p != '"') return false; ++c.p; out.clear();
    for (;;) { if (c.p >= c.e) return false; char ch = *c.p++;
        if (ch == '"') return true;
        if (ch != '\\') { if (!c.lenient && (unsigned char)ch < 32) return false; out += ch; continue; }
        if (c.p >= c.e) return false; ch = *c.p++;
        switch (ch) { case '"': case '\\': case '/': out += ch; break; case 'b': out += '\b'; break; case 'f': out += '\f'; break; case 'n': out += '\n'; break; case 'r': out += '\r'; break; case 't': out += '\t'; break;
            case 'u': { unsigned u, w; if (!rd4(c, u)) return false;
                if (u >= 0xD800 && u < 0xDC00) { if (c.e - c.p >= 2 && c.p[0] == '\\' && c.p[1] == 'u') { auto sv = c.p; c.p += 2; if (!rd4(c, w)) return false; if (w >= 0xDC00 && w < 0xE000) { out += utf8(0x10000 + ((u - 0xD800) << 10) + (w - 0xDC00)); break; } c.p = sv; } if (!c.lenient) return false; out += utf8(u); c.dup = true; break; }
                if (u >= 0xDC00 && u < 0xE000) { if (!c.lenient) return false; c.dup = true; } out += utf8(u); break; }
            default: if (!c.lenient) return false; c.dup = true; out += ch; } }
}
inline std::string numText(Cur& c) { std::string s; while (c.p < c.e && (isdigit((unsigned char)*c.p) || strchr("+-.eE", *c.p)) && *c.p) s += *c.p++; return s; }
inline bool strictNum(std::string const& s) {
    std::size_t i = 0; auto dig = [&] { std::size_t b = i; while (i < s.size() && isdigit((unsigned char)s[i])) ++i; return i > b; };
    if (i < s.size() && s[i] == '-') ++i; if (i < s.size() && s[i] == '0') ++i; else if (!dig()) return false;
    if (i < s.size() && s[i] == '.') { ++i; if (!dig()) return false; } if (i < s.size() && (s[i] | 32) == 'e') { ++i; if (i < s.size() && (s[i] == '+' || s[i] == '-')) ++i; if (!dig()) return false; } return i == s.size();
}
template <class T> bool ref(Cur& c, T& t) {
    constexpr int k = Kind<T>::k; ws(c);
    if constexpr (std::is_same_v<T, bool>) { if (lit(c, "true")) { t = true; return true; } if (lit(c, "false")) { t = false; return true; } if (c.lenient && c.p < c.e && (*c.p == '0' || *c.p == '1')) { t = *c.p++ == '1'; return true; } return false; }
    else if constexpr (std::is_integral_v<T>) {
        auto s = numText(c); std::size_t i = 0; bool neg = false; if (i < s.size() && s[i] == '-') { neg = true; ++i; } if (i == s.size()) return false; if (!c.lenient && s[i] == '0' && i + 1 < s.size()) return false;
        if (neg && !std::is_signed_v<T>) { if (!(c.lenient && s.find_first_not_of("-0") == s.npos)) return false; }
        unsigned __int128 v = 0; for (; i < s.size(); ++i) { if (!isdigit((unsigned char)s[i])) return false; v = v * 10 + (s[i] - '0'); if (v > (unsigned __int128)1 << 70) return false; }
        __int128 x = neg ? -(__int128)v : (__int128)v; if (x < (__int128)std::numeric_limits<T>::min() || x > (__int128)std::numeric_limits<T>::max()) return false; t = (T)x; return true; }
    else if constexpr (std::is_floating_point_v<T>) {
        auto s = numText(c); if (s.empty() || (!c.lenient && !strictNum(s)) || s[0] == '+') return false; char* e; T v; if constexpr (sizeof(T) == 4) v = strtof(s.c_str(), &e); else v = strtod(s.c_str(), &e); if (*e || e == s.c_str()) return false;
        if (std::isinf(v)) return false;                                            // out of range for the field
        if (v == 0 && s.find_first_of("123456789") < s.find_first_of("eE")) c.dup = true;   // underflow: either reading is fine
        t = v; return true; }
    else if constexpr (std::is_enum_v<T>) { std::string s; if (!rdStr(c, s)) return false; if (s == "alpha") t = T::alpha; else if (s == "beta") t = T::beta; else if (s == "gamma_2") t = T::gamma_2; else return false; return true; }
    else if constexpr (std::is_same_v<T, std::string>) return rdStr(c, t);
    else if constexpr (k == 1 || k == 2) { if (lit(c, "null")) { t = T{}; return true; } if constexpr (k == 1) { t.emplace(); return ref(c, *t); } else { t.reset(new typename T::element_type{}); return ref(c, *t); } }
    else if constexpr (k == 3 || k == 4 || k == 5) {
        if (c.p >= c.e || *c.p != '[') return false; ++c.p; ws(c); if (c.p < c.e && *c.p == ']') { ++c.p; if constexpr (k == 4 || k == 5) return c.lenient || std::tuple_size_v<T> == 0; else t.clear(); return true; }
        std::size_t n = 0, N = 0; bool ok = true, closed = false;
        auto sep = [&] { ws(c); if (c.p < c.e && *c.p == ',') { ++c.p; return; } if (c.p < c.e && *c.p == ']') { ++c.p; closed = true; return; } ok = false; };
        if constexpr (k == 3) { t.clear(); while (ok && !closed) { t.emplace_back(); ok = ref(c, t.back()); if (ok) sep(); } return ok; }
        else if constexpr (k == 4) { N = t.size(); while (ok && !closed) { if (n >= N) return false; ok = ref(c, t[n++]); if (ok) sep(); } return ok && (n == N || c.lenient); }
        else { N = std::tuple_size_v<T>; std::apply([&](auto&... el) { ((ok && !closed ? (void)((ok = ref(c, el)), n++, ok ? sep() : void()) : void()), ...); }, t); return ok && closed && (n == N || c.lenient); } }
    else {   // map or record
        if constexpr (k == 6) t.clear();
        if (c.p >= c.e || *c.p != '{') return false; ++c.p; ws(c); if (c.p < c.e && *c.p == '}') { ++c.p; return true; }
        std::vector<std::string> seen;
        for (;;) { ws(c); std::string key; if (!rdStr(c, key)) return false; for (auto& s : seen) if (s == key) c.dup = true; seen.push_back(key); ws(c); if (c.p >= c.e || *c.p != ':') return false; ++c.p;
            if constexpr (k == 6) { if (!ref(c, t[key])) return false; }
            else { bool found = false, ok = false; fields(t, [&](const char* n, auto& m) { if (!found && key == n) { found = true; ok = ref(c, m); } }); if (!found || !ok) return false; }
            ws(c); if (c.p < c.e && *c.p == ',') { ++c.p; continue; } if (c.p < c.e && *c.p == '}') { ++c.p; return true; } return false; } }
}
// The library reads from a heap block of exactly the text's size.
struct Exact { char* b; std::size_t n; explicit Exact(std::string const& s) : b((char*)malloc(s.size() ? s.size() : 1)), n(s.size()) { memcpy(b, s.data(), n); } ~Exact() { free(b); }
    std::string_view sv() const { return n ? std::string_view{b, n} : std::string_view{b + 1, 0}; } };
}
