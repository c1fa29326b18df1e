// P31: CHashMap over every small key set, and enum name reflection.
#include <mc.hpp>
#include <HXLibs/container/CHashMap.hpp>
#include <HXLibs/reflection/EnumName.hpp>
#include <memory>
#include <algorithm>
enum class EA { x, y, z }; enum class EB : int { neg = -128, m5 = -5, zero = 0, seven = 7, top = 127 }; enum class EC : unsigned { a = 0, b = 100, c = 255, d = 3 };
enum EU : int { EU_one = 1, EU_two, EU_ten = 10 }; enum class E1 { only = 5 }; enum class ES : short { A1, A2, A3, A4, A5, A6, A7, A8, A9, A10, A11, A12, A13, A14, A15, A16, A17 };
enum class EI8 : signed char { lo = -128, mid = 0, hi = 127 }; enum class EU8 : unsigned char { lo = 0, mid = 128, hi = 255 }; enum class EL : long long { a = -1, b = 1 };
namespace ns { enum class Color { Red, Green = 3, Blue, red }; struct In { enum class Deep : uint16_t { _0, _1, __x }; }; }
namespace vp {
using HX::container::CHashMap;
template <class K> std::string ks(K const& k) { if constexpr (std::is_convertible_v<K, std::string_view>) return std::string(k); else return std::to_string((long long)k); }
template <class K, std::size_t N> void one(std::array<K, N> const& keys, std::vector<K> const& universe) {
    mc::transition();
    using M = CHashMap<K, int, N>;
    std::array<std::pair<K, int>, N> init; for (std::size_t i = 0; i < N; ++i) init[i] = {keys[i], int(1000 + i)};
    // own heap block, so that an index outside the map is seen by ASan
    auto m = std::make_unique<M>(init); M const& c = *m;
    auto desc = [&] { std::string d = "keys {"; for (auto& k : keys) d += ks(k) + " "; return d + "}: "; };
    auto ptr = [](auto it) { return std::to_address(it); };
    auto inside = [&](auto* p) { return p >= &*c.begin() && p < &*c.begin() + N; };
    for (auto& q : universe) {
        int want = -1; for (std::size_t i = 0; i < N; ++i) if (keys[i] == q) want = int(1000 + i);
        auto i1 = c.find(q); auto i2 = m->find(q);
        int g1 = i1 == c.end() ? -1 : inside(ptr(i1)) ? i1->second : -2, g2 = i2 == m->end() ? -1 : inside(ptr(i2)) ? i2->second : -2, g3 = -1, g4 = -1;
        if (g1 >= 0 && !(i1->first == q)) g1 = -3;
        try { g3 = c.at(q); } catch (std::out_of_range&) {}
        try { g4 = m->at(q); } catch (std::out_of_range&) {}
        if (g1 != want || g2 != want) mc::fail("find", desc() + "find(" + ks(q) + ") gives " + std::to_string(g1) + "/" + std::to_string(g2) + " instead of " + std::to_string(want));
        if (g3 != want || g4 != want) mc::fail("at", desc() + "at(" + ks(q) + ") gives " + std::to_string(g3) + "/" + std::to_string(g4) + " instead of " + std::to_string(want) + " (-1: out_of_range)");
        if (want >= 0) { m->at(q) = -77; if (c.at(q) != -77) mc::fail("at-write", desc() + "value written through at(" + ks(q) + ") is not read back"); m->at(q) = want; m->find(q)->second = want; }
    }
    std::vector<K> seen; for (auto const& [k, v] : c) { seen.push_back(k); if (v != c.at(k)) mc::fail("iterate", desc() + "iteration shows another value for " + ks(k)); }
    std::vector<K> a(keys.begin(), keys.end()); std::sort(a.begin(), a.end()); std::sort(seen.begin(), seen.end());
    if (a != seen || c.size() != N || c.empty() != (N == 0)) mc::fail("iterate", desc() + "iteration does not show exactly the keys");
    auto copy = c; for (auto& k : keys) if (copy.at(k) != c.at(k)) mc::fail("copy", desc());
}
// all subsets of size N of the universe (perm: in every insertion order)
template <class K, std::size_t N> void subsets(std::vector<K> const& u, bool perm, int shardDigit, int digits) {
    std::array<K, N> keys; long cnt = 0;
    std::function<void(std::size_t, std::size_t)> rec = [&](std::size_t k, std::size_t from) {
        if (k == N) { if (cnt++ % digits != shardDigit) return; mc::state();
            if (!perm) { one<K, N>(keys, u); return; }
            auto p = keys; std::sort(p.begin(), p.end()); do one<K, N>(p, u); while (std::next_permutation(p.begin(), p.end())); return; }
        for (std::size_t i = from; i < u.size(); ++i) { keys[k] = u[i]; rec(k + 1, i + 1); }
    };
    rec(0, 0); mc::outcome(typeid(K).name() + std::to_string(N) + "." + std::to_string(shardDigit));
}
template <class K> void family(const char* name, std::vector<K> const& u) {
    for (int d = 0; d < 8; ++d) mc::run_case(std::string("set/") + name + "/" + std::to_string(d), [&] {
        subsets<K, 1>(u, false, d, 8); subsets<K, 2>(u, true, d, 8); subsets<K, 3>(u, true, d, 8); subsets<K, 4>(u, mc::thorough(), d, 8); subsets<K, 5>(u, false, d, 8); subsets<K, 6>(u, false, d, 8);
        if (mc::thorough()) { subsets<K, 7>(u, false, d, 8); subsets<K, 8>(u, false, d, 8); subsets<K, 9>(u, false, d, 8); }
    });
}
template <std::size_t N> void big(std::vector<long> const& strides) {
    for (long s : strides) for (long off : {0L, 1L, -50L, 1L << 40}) {
        std::array<long, N> k; std::vector<long> u; for (std::size_t i = 0; i < N; ++i) { k[i] = off + s * (long)i; u.push_back(k[i]); u.push_back(k[i] + 1); u.push_back(-k[i]); }
        one<long, N>(k, u);
        std::array<std::string_view, N> ss; static std::vector<std::string> st; st.clear(); st.reserve(3 * N); std::vector<std::string_view> us;
        for (std::size_t i = 0; i < N; ++i) { st.push_back("key" + std::to_string(off + s * (long)i)); ss[i] = st.back(); us.push_back(ss[i]); st.push_back(st[st.size() - 1] + "x"); us.push_back(st.back()); st.push_back("ke" + std::to_string(i)); us.push_back(st.back()); }
        one<std::string_view, N>(ss, us);
    }
    mc::outcome("big" + std::to_string(N));
}
template <class E> void enums(const char* nm, std::vector<std::pair<E, std::string>> const& all) {
    mc::run_case(std::string("enum/") + nm, [&] {
        using U = std::underlying_type_t<E>; using HX::reflection::toEnumName; using HX::reflection::toEnum;
        for (auto& [e, n] : all) {
            MC_CHECK(toEnumName(e) == n, "enum-to-name", std::string(nm) + "::" + n + " is named \"" + std::string(toEnumName(e)) + "\"");
            try { MC_CHECK(toEnum<E>(n) == e, "name-to-enum", std::string(nm) + "::" + n); } catch (std::exception&) { mc::fail("name-to-enum", std::string(nm) + "::" + n + " is unknown"); }
        }
        for (long v = -400; v <= 400; ++v) { if ((long)(U)v != v) continue; mc::transition(); E e = static_cast<E>((U)v); bool known = false; for (auto& [x, n] : all) known |= x == e; if (!known) MC_CHECK(toEnumName(e).empty(), "unknown-value-named", std::string(nm) + " value " + std::to_string(v) + " is named " + std::string(toEnumName(e))); }
        std::set<std::string> cand{"", " ", "(", "0", "EA::x", "EA::", "::", nm, "on", "onlyy"};
        for (auto& [e, n] : all) { for (std::size_t i = 0; i <= n.size(); ++i) { cand.insert(n.substr(0, i)); cand.insert(n.substr(i)); for (char c : {'a', '_', '0', 'A', ' ', '\0'}) { auto x = n; x.insert(i, 1, c); cand.insert(x); if (i < n.size()) { x = n; x[i] = c; cand.insert(x); } } } auto l = n; for (auto& c : l) c ^= 0x20; cand.insert(l); cand.insert(std::string(nm) + "::" + n); }
        for (auto& s : cand) { mc::transition(); bool known = false; E w{}; for (auto& [e, n] : all) if (n == s) known = true, w = e; std::vector<char> h(s.begin(), s.end()); h.shrink_to_fit(); bool ok; try { E g = toEnum<E>(std::string_view(h.data(), h.size())); ok = known && g == w; } catch (std::exception&) { ok = !known; } MC_CHECK(ok, "enum-name-lookup", std::string(nm) + ": name \"" + mc::esc(s) + "\""); }
        MC_CHECK(HX::reflection::getValidEnumValueCnt<E>() == all.size(), "enum-count", nm); mc::outcome(nm);
    });
}
#ifndef PART
#define PART 0
#endif
static void main_() {
    bool T = mc::thorough();
#if PART == 0
    family<int>("int", {0, 1, 2, 3, -1, -2, 7, 8, 16, 255, 256, 1 << 30, INT32_MIN, INT32_MAX});
    family<unsigned long>("ulong", {0, 1, 1UL << 32, 1UL << 63, ~0UL, 1UL << 21, 1UL << 24, (1UL << 32) + 1, 12345678901234567UL, 2, 3, 4});
#elif PART == 1
    family<signed char>("schar", {0, 1, -1, 127, -128, 64, -64, 2, 3, 4, 5, 6});
    static const std::string z2("a\0", 2), z1("\0", 1);
    family<std::string_view>("str", {"", "a", "b", "ab", "ba", "aa", "abc", "id", "name", std::string_view(z2), std::string_view(z1), "\xff\xfe", "ABC", "username_of_the_account"});
#elif PART == 2
    auto strides = T ? std::vector<long>{1, 2, 3, 7, 8, 16, 64, 100, 256, 1000, 4096, 65536, 1L << 20, 1L << 32, -1, -7} : std::vector<long>{1, 3, 8, 64, 1000, 65536, 1L << 32};
    mc::run_case("big/7", [&] { big<7>(strides); }); mc::run_case("big/8", [&] { big<8>(strides); }); mc::run_case("big/9", [&] { big<9>(strides); }); mc::run_case("big/15", [&] { big<15>(strides); }); mc::run_case("big/16", [&] { big<16>(strides); }); mc::run_case("big/17", [&] { big<17>(strides); });
    mc::run_case("big/31", [&] { big<31>(strides); }); mc::run_case("big/32", [&] { big<32>(strides); }); mc::run_case("big/33", [&] { big<33>(strides); }); mc::run_case("big/64", [&] { big<64>(strides); }); mc::run_case("big/100", [&] { big<100>(strides); }); mc::run_case("big/200", [&] { big<200>({1, 1000}); });
#else
    enums<EA>("EA", {{EA::x, "x"}, {EA::y, "y"}, {EA::z, "z"}});
    enums<EB>("EB", {{EB::neg, "neg"}, {EB::m5, "m5"}, {EB::zero, "zero"}, {EB::seven, "seven"}, {EB::top, "top"}});
    enums<EC>("EC", {{EC::a, "a"}, {EC::b, "b"}, {EC::c, "c"}, {EC::d, "d"}});
    enums<EU>("EU", {{EU_one, "EU_one"}, {EU_two, "EU_two"}, {EU_ten, "EU_ten"}});
    enums<E1>("E1", {{E1::only, "only"}});
    { std::vector<std::pair<ES, std::string>> v; for (int i = 0; i < 17; ++i) v.push_back({ES(i), "A" + std::to_string(i + 1)}); enums<ES>("ES", v); }
    enums<EI8>("EI8", {{EI8::lo, "lo"}, {EI8::mid, "mid"}, {EI8::hi, "hi"}}); enums<EU8>("EU8", {{EU8::lo, "lo"}, {EU8::mid, "mid"}, {EU8::hi, "hi"}}); enums<EL>("EL", {{EL::a, "a"}, {EL::b, "b"}});
    enums<ns::Color>("Color", {{ns::Color::Red, "Red"}, {ns::Color::Green, "Green"}, {ns::Color::Blue, "Blue"}, {ns::Color::red, "red"}});
    enums<ns::In::Deep>("Deep", {{ns::In::Deep::_0, "_0"}, {ns::In::Deep::_1, "_1"}, {ns::In::Deep::__x, "__x"}});
#endif
    mc::sample("key universe int {0,1,2,3,-1,-2,7,8,16,255,256,2^30,MIN,MAX}: all subsets up to size 6");
}
}
void mc_main() { vp::main_(); }
