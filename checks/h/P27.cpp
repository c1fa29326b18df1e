// P27: every token sequence / every truncation and edit of valid documents, read from exactly sized buffers and judged by an independent reader.
#include "json_common.hpp"
namespace vp {
using namespace HX;
template <class T> void judge(std::string const& text) {
    mc::transition(); Exact x(text); T r{}; bool ok = true;
    try { reflection::fromJson(r, x.sv()); } catch (std::exception&) { ok = false; }
    Cur l{text.data(), text.data() + text.size(), true}; T lv{}; bool lok = ref(l, lv);
    if (ok && !lok) { mc::fail(std::string("accepted/") + typeid(T).name(), "text " + mc::esc(text) + " is accepted but is no reading of the type"); return; }
    Cur s{text.data(), text.data() + text.size(), false}; T sv{}; bool sok = ref(s, sv); ws(s); sok = sok && s.p == s.e;
    if (sok && !ok && !s.dup) { mc::fail(std::string("refused/") + typeid(T).name(), "valid text " + mc::esc(text) + " is refused"); return; }
    if (ok && lok && !l.dup && !eq(r, lv)) mc::fail(std::string("value/") + typeid(T).name(), "text " + mc::esc(text) + " reads as another value");
    mc::outcome(std::string(typeid(T).name()) + char('0' + ok) + char('0' + sok) + char('0' + lok) + std::to_string(text.size() % 32));
}
// all sequences of up to L tokens
template <class T> void seqs(const char* name, std::vector<std::string> const& tok, int L) {
    for (std::size_t first = 0; first < tok.size(); ++first) mc::run_case(std::string("tok/") + name + "/" + std::to_string(first), [&] {
        std::function<void(std::string, int)> rec = [&](std::string s, int d) { mc::state(); judge<T>(s); if (d == L) return; for (auto& t : tok) rec(s + t, d + 1); };
        rec(tok[first], 1); });
    mc::run_case(std::string("tok/") + name + "/empty", [] { judge<T>(""); judge<T>(" "); judge<T>("\n\t "); });
}
static const std::string EDIT = std::string("{}[]:,\"\\ 019-+.eEtfnuNx_a/\n\x7f\x80\xff\xc3") + '\0';
// all prefixes and all one-character edits (thorough: and pairs of deletions / replacements)
template <class T> void edits(const char* name, std::vector<std::string> const& docs) {
    for (std::size_t k = 0; k < docs.size(); ++k) { auto const& d = docs[k];
        mc::run_case(std::string("prefix/") + name + "/" + std::to_string(k), [&] { judge<T>(d); for (std::size_t n = 0; n < d.size(); ++n) { judge<T>(d.substr(0, n)); judge<T>(d.substr(0, n) + " "); judge<T>(d.substr(n)); } });
        for (std::size_t b = 0; b <= d.size(); b += 16) mc::run_case(std::string("edit/") + name + "/" + std::to_string(k) + "/" + std::to_string(b), [&] { for (std::size_t i = b; i <= d.size() && i < b + 16; ++i) {
            for (char c : EDIT) { auto q = d; q.insert(i, 1, c); judge<T>(q); if (i < d.size()) { q = d; q[i] = c; judge<T>(q); } }
            if (i < d.size()) { auto q = d; q.erase(i, 1); judge<T>(q); for (std::size_t j = i + 1; j <= d.size(); ++j) { q = d; q.erase(i, j - i); judge<T>(q); q = d; q.insert(j, d.substr(i, j - i)); if (j - i < 40) judge<T>(q); }   // every cut-out and every doubled piece
                for (std::size_t j = i + 1; j < d.size(); ++j) { q = d; std::swap(q[i], q[j]); judge<T>(q); q = d; q.erase(j, 1); q.erase(i, 1); judge<T>(q);
                    if (mc::thorough()) for (char c1 : EDIT) for (char c2 : {'"', ',', ']', '}', '\\', ':'}) { q = d; q[i] = c1; q[j] = c2; judge<T>(q); } } } } }); }
}
void go() {
    bool th = mc::thorough(); using S = std::string;
    std::vector<S> P{"{", "}", "[", "]", ":", ",", "\"k\"", "1", " ", "\""}; auto with = [](std::vector<S> v, std::vector<S> a) { v.insert(v.end(), a.begin(), a.end()); return v; };
    (void)P;
    std::vector<S> punct{"{", "}", "[", "]", ":", ",", "\"k\"", "1"};
#if PART == 0
    seqs<std::vector<int>>("vec", {"[", "]", ",", "1", "-", " ", "{", "\"", "."}, th ? 7 : 6);
    seqs<std::map<S, int>>("map", {"{", "}", ":", ",", "\"k\"", "\"q\"", "1", " ", "\""}, th ? 7 : 6);
    seqs<std::vector<std::vector<int>>>("vecvec", {"[", "]", ",", "1", " "}, th ? 9 : 8);
    seqs<std::array<int, 2>>("arr", {"[", "]", ",", "1", " ", "-2"}, th ? 8 : 7);
    seqs<std::tuple<int, bool>>("tup", {"[", "]", ",", "1", "true", " "}, th ? 8 : 7);
    seqs<std::tuple<std::vector<int>, std::tuple<int, int>>>("tuptup", {"[", "]", ",", "1"}, th ? 10 : 9);
    seqs<std::vector<std::tuple<int, int>>>("vectup", {"[", "]", ",", "1"}, th ? 10 : 9);
#elif PART == 1
    seqs<JOne>("rec", {"{", "}", ":", ",", "\"only\"", "\"onl\"", "7", " ", "\"only"}, th ? 7 : 6);
    seqs<std::optional<int>>("opt", {"n", "u", "l", "null", "N", "1", "-", " ", "\xCE"}, th ? 7 : 6);
    seqs<std::vector<std::optional<bool>>>("vecopt", {"[", "]", ",", "null", "true", "fals", "e", "0", "nul"}, th ? 7 : 6);
    seqs<std::shared_ptr<std::vector<JOne>>>("ptr", {"[", "]", ",", "{", "}", "\"only\":1", "null"}, th ? 7 : 6);
    seqs<bool>("bool", {"t", "r", "u", "e", "f", "a", "l", "s", "1", "T", " "}, 5);
    seqs<JE>("enum", {"\"", "alpha", "beta", "gamma", "_2", "_", "-", " ", "\\", "\xC3"}, th ? 6 : 5);
    seqs<S>("str", {"\"", "\\", "u", "0", "D8", "DC", "00", "3d", "n", "a", "\xC3"}, th ? 7 : 6);
    seqs<std::map<S, S>>("mapstr", {"{", "}", ":", ",", "\"", "\\", "u0041", "a"}, th ? 8 : 7);
    seqs<JNode>("node", {"{\"id\":1,\"kids\":[", "{\"id\":2", ",\"kids\":[", "]", "}", ",", "null"}, th ? 7 : 6);
#else
    // numbers: all texts over the number alphabet, per width; range limits
    auto numAl = std::vector<S>{"0", "1", "9", "-", "+", ".", "e", "E", "x", " "};
    seqs<int>("int", numAl, 5); seqs<unsigned char>("u8", {"0", "2", "5", "6", "-", "+", ".", "e"}, 5); seqs<signed char>("i8", {"0", "1", "2", "8", "9", "-"}, 5); seqs<double>("dbl", {"0", "1", "9", "-", "+", ".", "e", "E", "x"}, th ? 7 : 6); seqs<float>("flt", {"3", "9", ".", "e", "-", "+"}, 6);
    mc::run_case("limits", [] {
        auto lim = [](auto v) { using T = decltype(v); for (int k = -3; k <= 3; ++k) { for (__int128 base : {(__int128)std::numeric_limits<T>::min(), (__int128)std::numeric_limits<T>::max(), (__int128)0}) { __int128 x = base + k; S s; bool neg = x < 0; unsigned __int128 u = neg ? -x : x; do s.insert(s.begin(), char('0' + int(u % 10))), u /= 10; while (u); if (neg) s.insert(s.begin(), '-'); judge<T>(s); judge<std::vector<T>>("[" + s + "]"); judge<std::optional<T>>(s); judge<T>(s + "0"); judge<T>("0" + s); judge<T>(s + ".0"); judge<T>(s + "e0"); } } };
        lim((signed char)0); lim((unsigned char)0); lim((short)0); lim((unsigned short)0); lim(0); lim(0u); lim(0L); lim(0UL);
        for (auto s : {"1e308", "1e309", "-1e309", "4.9e-324", "1e-400", "123456789012345678901234567890", "0.1", "1e", "1e+", "--1", "1.", ".5", "nan", "inf", "-inf", "NaN", "Infinity", "1e99999999999", "0x10", "1_000"}) { judge<double>(s); judge<float>(s); judge<int>(s); judge<std::optional<double>>(s); } mc::outcome("limits"); });
    std::vector<S> recDocs{
        R"({"b":true,"i":-12,"d":1.5e3,"s":"a\"\u00e9\ud83d\ude00","e":"gamma_2","o":7,"p":"z","t":[1,"x",false],"v":[1,2],"m":{"k":3,"\\":4},"in":{"x":1,"y":""},"a":[65535,0],"vi":[{"x":2,"y":"q"},{}]})",
        R"({ "o" : null, "p":null , "vi":[ ], "m":{ }, "v" : [], "b":FALSE,"in":{"y":"]}"} })" };
    edits<JRec>("rec", recDocs);
    edits<std::vector<std::map<S, std::optional<int>>>>("vmo", {R"([{"a":1,"b":null},{}, {"\n":-3}])"});
    edits<std::tuple<int, S, std::array<bool, 2>>>("tup", {R"([1,"s",[true,false]])"});
    edits<JNode>("node", {R"({"id":1,"kids":[{"id":2,"kids":[]},{"id":-3}]})"});
    edits<S>("str", {R"("a\"\\\/\b\f\n\r\t\u0041\u00e9\u4e2d\uD83D\uDE00z")"});
    edits<JE>("enum", {"\"gamma_2\"", "\"alpha\""});
    edits<std::unordered_map<S, std::vector<double>>>("umap", {R"({"x":[1,-2.5,3e+2],"":[0.0]})"});
#endif
}
}
void mc_main() { vp::go(); }
