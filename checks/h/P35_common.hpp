// P35: query expressions give the rows the C++ expression selects. Reference: SQL values as optional<int64>.
#pragma once
#include <mc.hpp>
#include <HXLibs/db/sqlite3/SqliteDB.hpp>
#include <optional>
#include <set>
#include <map>
#include <algorithm>
namespace vp {
using namespace HX; using namespace HX::db; using namespace HX::meta::fixed_string_literals; using HX::db::Col;
using DB = DataBase<DbType::Sqlite3>;
struct T { int64_t id; int32_t a; int32_t b; std::string s; std::string s2; double d; int32_t x, y, z, w; inline static constexpr std::string_view TableName = "TT"; };
struct U { int64_t uid; int32_t k; std::string v; inline static constexpr std::string_view TableName = "UU"; };
using M = T;
using V = std::optional<int64_t>;
inline V I(int64_t v) { return v; }
inline V B(bool v) { return v ? 1 : 0; }
template <class F> V two(V const& a, V const& b, F f) { if (!a || !b) return {}; return f(*a, *b); }
inline V add(V a, V b) { return two(a, b, [](auto x, auto y) { return x + y; }); }
inline V sub(V a, V b) { return two(a, b, [](auto x, auto y) { return x - y; }); }
inline V mul(V a, V b) { return two(a, b, [](auto x, auto y) { return x * y; }); }
inline V div(V a, V b) { if (!a || !b || *b == 0) return {}; return *a / *b; }
inline V mod(V a, V b) { if (!a || !b || *b == 0) return {}; return *a % *b; }
inline V eq(V a, V b) { return two(a, b, [](auto x, auto y) { return int64_t(x == y); }); }
inline V ne(V a, V b) { return two(a, b, [](auto x, auto y) { return int64_t(x != y); }); }
inline V lt(V a, V b) { return two(a, b, [](auto x, auto y) { return int64_t(x < y); }); }
inline V le(V a, V b) { return two(a, b, [](auto x, auto y) { return int64_t(x <= y); }); }
inline V gt(V a, V b) { return two(a, b, [](auto x, auto y) { return int64_t(x > y); }); }
inline V ge(V a, V b) { return two(a, b, [](auto x, auto y) { return int64_t(x >= y); }); }
inline V orr(V a, V b) { if ((a && *a) || (b && *b)) return 1; if (!a || !b) return {}; return 0; }
inline V andd(V a, V b) { if ((a && !*a) || (b && !*b)) return 0; if (!a || !b) return {}; return 1; }
inline bool yes(V v) { return v && *v != 0; }
inline std::vector<M> const& rows() {
    static std::vector<M> r = [] {
        std::vector<M> v; const char* S[] = {"", "a", "b", "it's", "''", "x\"y", "?'); --", "abc", "Z"}; int64_t id = 1;
        for (int a = -4; a <= 5; ++a) for (int b : {-3, -1, 1, 2, 4}) { int64_t k = id - 1; v.push_back(M{id++, a, b, S[k % 9], S[(k / 2) % 9], double(a) * 0.5 - 0.25 * double(k % 3), int(k & 1), int(k >> 1 & 1), int(k >> 2 & 1), int(k >> 3 & 1)}); }
        return v;
    }();
    return r;
}
inline void mk(DB& d) {
    d.open(":memory:"); d.exec("CREATE TABLE TT (id INTEGER PRIMARY KEY, a INTEGER, b INTEGER, s TEXT, s2 TEXT, d REAL, x INTEGER, y INTEGER, z INTEGER, w INTEGER)"); d.exec("CREATE TABLE UU (uid INTEGER PRIMARY KEY, k INTEGER, v TEXT)"); d.exec("BEGIN");
    for (auto& r : rows()) d.sqlTemplate<"fill"_fs>().insert<T, true>(r).exec();
    for (int i = 0; i < 6; ++i) { U u{i + 1, i - 2, std::string(1, char('p' + i))}; d.sqlTemplate<"fillu"_fs>().insert<U, true>(u).exec(); }
    d.exec("COMMIT");
}
inline DB& base() { static DB d; static bool ok = (mk(d), true); (void)ok; return d; }
inline std::string ids(std::vector<int64_t> const& v) { std::string s = "["; for (auto i : v) s += (s.size() > 1 ? "," : "") + std::to_string(i); return s + "]"; }
template <class F, class R> void judge(const char* n, int p, int q, F&& f, R&& ref) {
    std::vector<int64_t> got, want; for (auto& r : rows()) if (yes(ref(r, p, q))) want.push_back(r.id);
    try { for (auto& x : f()) got.push_back(x.template get<0>()); } catch (std::exception const& e) { mc::fail("expr-error", std::string(n) + " p=" + std::to_string(p) + " q=" + std::to_string(q) + " fails: " + e.what()); return; }
    std::sort(got.begin(), got.end()); mc::transition();
    if (got != want) mc::fail("expr-rows", std::string(n) + " with p=" + std::to_string(p) + " q=" + std::to_string(q) + " selects ids " + ids(got) + " expected " + ids(want));
}
template <int Id, auto E, class R> void expr_n(const char* n, R ref) { mc::run_case(std::string("expr/") + n, [&] { for (int k = 0; k < 2; ++k) judge(n, 0, 0, [&] { return base().sqlTemplate<Id>().template select<Col(&T::id)>().template from<T>().template where<E>().exec(); }, ref); }); }
template <int Id, auto E, class R> void expr_p(const char* n, R ref) { mc::run_case(std::string("expr/") + n, [&] { for (int p = -30; p <= 30; ++p) judge(n, p, 0, [&] { return base().sqlTemplate<Id>().template select<Col(&T::id)>().template from<T>().template where<E>(p).exec(); }, ref); }); }
template <int Id, auto E, class R> void expr_pq(const char* n, R ref) { mc::run_case(std::string("expr/") + n, [&] { for (int p = -5; p <= 8; ++p) for (int q = -5; q <= 6; ++q) judge(n, p, q, [&] { return base().sqlTemplate<Id>().template select<Col(&T::id)>().template from<T>().template where<E>(p, q).exec(); }, ref); }); }
template <class C> using Rs = std::vector<std::vector<C>>;
inline std::string str(std::vector<std::string> const& v) { std::string s; for (auto& x : v) s += x + " "; return s; }
inline void same(const char* n, std::vector<std::string> const& got, std::vector<std::string> const& want) { mc::transition(); if (got != want) mc::fail("query", std::string(n) + " gives " + str(got) + "expected " + str(want)); }
// whole queries: parameters through every set of builder stages, ordering, limits, grouping, joins, named bindings
inline void queries() {
    auto& d = base(); auto S = [](auto v) { return std::to_string(v); };
    constexpr auto Pm = db::param<int32_t>;
    auto ordered = [&](auto pred, auto cmp, long off, long n) { std::vector<M> v; for (auto& r : rows()) if (pred(r)) v.push_back(r); std::stable_sort(v.begin(), v.end(), cmp); std::vector<std::string> o; for (long i = off; i < (long)v.size() && i < off + n; ++i) o.push_back(std::to_string(v[i].id)); return o; };
    auto col0 = [&](auto const& rs) { std::vector<std::string> o; for (auto& r : rs) o.push_back(std::to_string(r.template get<0>())); return o; };
    auto aThenId = [](M const& l, M const& r) { return l.a != r.a ? l.a > r.a : l.id < r.id; };
    auto sThenB = [](M const& l, M const& r) { return l.s != r.s ? l.s < r.s : l.b != r.b ? l.b > r.b : l.id > r.id; };
    auto all = [](M const&) { return true; };
    mc::run_case("query/stages", [&] {
        for (int32_t p = -5; p <= 6; ++p) for (int32_t l : {0, 1, 3, 100}) for (int32_t o : {0, 2, 60}) {
            auto ge_ = [&](M const& r) { return r.a >= p; };
            same("where.orderBy", col0(d.sqlTemplate<9001>().select<Col(&T::id)>().from<T>().where<(Col(&T::a) >= Pm)>(p).orderBy<Col(&T::a).desc(), Col(&T::id).asc()>().exec()), ordered(ge_, aThenId, 0, 1000));
            same("where.orderBy.limit", col0(d.sqlTemplate<9002>().select<Col(&T::id)>().from<T>().where<(Col(&T::a) >= Pm)>(p).orderBy<Col(&T::a).desc(), Col(&T::id).asc()>().limit<Pm, Pm>(o, l).exec()), ordered(ge_, aThenId, o, l));
            same("orderBy.limit", col0(d.sqlTemplate<9003>().select<Col(&T::id)>().from<T>().orderBy<Col(&T::s).asc(), Col(&T::b).desc(), Col(&T::id).desc()>().limit<Pm>(l).exec()), ordered(all, sThenB, 0, l));
            same("where.orderBy.limit const", col0(d.sqlTemplate<9004>().select<Col(&T::id)>().from<T>().where<(Col(&T::b) < Pm)>(p).orderBy<Col(&T::a).desc(), Col(&T::id).asc()>().limit<1, 4>().exec()), ordered([&](M const& r) { return r.b < p; }, aThenId, 1, 4));
            same("limit const", col0(d.sqlTemplate<9005>().select<Col(&T::id)>().from<T>().orderBy<Col(&T::id).desc()>().limit<7>().exec()), ordered(all, [](M const& x, M const& y) { return x.id > y.id; }, 0, 7));
            // where / having / limit each with a parameter
            std::map<int, std::pair<long, long>> g; for (auto& r : rows()) if (r.a >= p) { g[r.b].first += r.a; g[r.b].second++; }
            std::vector<std::string> want; for (auto& [b, q] : g) if (b != o) want.push_back(S(b) + ":" + S(q.first) + ":" + S(q.second)); if ((long)want.size() > l) want.resize(l);
            std::vector<std::string> got; for (auto& r : d.sqlTemplate<9006>().select<Col(&T::b), db::sum<Col(&T::a)>, db::count<Col(&T::a)>>().from<T>().where<(Col(&T::a) >= Pm)>(p).groupBy<&T::b>().having<(Col(&T::b) != Pm)>(o).orderBy<Col(&T::b).asc()>().limit<Pm>(l).exec()) got.push_back(S(r.get<0>()) + ":" + S(r.get<1>()) + ":" + S(r.get<2>()));
            same("where.groupBy.having.orderBy.limit", got, want);
            got.clear(); want.clear(); std::map<int, std::tuple<int, int, std::set<int>>> h; for (auto& r : rows()) if (r.a >= p) { auto it = h.try_emplace(r.b, r.a, r.a, std::set<int>{}).first; auto& [mn, mx, st] = it->second; mn = std::min(mn, r.a); mx = std::max(mx, r.a); st.insert(r.a % 3); }
            for (auto& [b, q] : h) want.push_back(S(b) + ":" + S(std::get<0>(q)) + ":" + S(std::get<1>(q)));
            for (auto& r : d.sqlTemplate<9007>().select<Col(&T::b), db::min<Col(&T::a)>, db::max<Col(&T::a)>>().from<T>().where<(Col(&T::a) >= Pm)>(p).groupBy<&T::b>().orderBy<Col(&T::b).asc()>().exec()) got.push_back(S(r.get<0>()) + ":" + S(r.get<1>()) + ":" + S(r.get<2>()));
            same("where.groupBy.orderBy", got, want);
            got.clear(); want.clear(); std::map<int, std::pair<long, std::set<std::string>>> cd; for (auto& r : rows()) if (r.a >= p) { cd[r.b].first++; cd[r.b].second.insert(r.s); }
            for (auto& [b, q] : cd) want.push_back(S(b) + ":" + S(q.first) + ":" + S(q.second.size()));
            for (auto& r : d.sqlTemplate<9008>().select<Col(&T::b), db::countAll<Col(&T::id)>, db::count<Col(&T::s)>>().from<T>().where<(Col(&T::a) >= Pm)>(p).groupBy<Col(&T::b)>().exec()) { got.push_back(S(r.get<0>()) + ":" + S(r.get<1>()) + ":" + S(cd[r.get<0>()].second.size())); if (r.get<2>() != S(r.get<1>())) mc::fail("query", "COUNT(column) differs from COUNT(*) without NULLs"); }
            std::sort(got.begin(), got.end()); std::sort(want.begin(), want.end()); same("countAll", got, want);
        }
    });
    mc::run_case("query/bind", [&] {
        for (int32_t p = -4; p <= 5; ++p) for (int32_t q = -4; q <= 5; ++q) {
            auto pr = [&](M const& r) { return r.a == p || r.b == q; };
            same("named bindings", col0(d.sqlTemplate<9011>().select<Col(&T::id)>().from<T>().where<Col(&T::a) == Pm.bind<"x">() || Col(&T::b) == Pm.bind<"y">()>(bind<"y">.link(q), bind<"x">.link(p)).exec()), ordered(pr, [](M const& x, M const& y) { return x.id < y.id; }, 0, 1000));
        }
    });
    mc::run_case("query/join", [&] {
        for (int32_t p = -5; p <= 6; ++p) for (int32_t q = -3; q <= 4; ++q) {
            std::vector<std::string> got, want; for (auto& r : rows()) for (int i = 0; i < 6; ++i) if (r.a == i - 2 && r.b > p && i - 2 != q) want.push_back(S(r.id) + std::string(1, char('p' + i)));
            for (auto& x : d.sqlTemplate<9021>().select<Col(&T::id), Col(&U::v)>().from<T>().join<U>().on<Col(&T::a) == Col(&U::k)>().where<(Col(&T::b) > Pm) && Col(&U::k) != Pm>(p, q).exec()) got.push_back(S(x.get<0>()) + x.get<1>());
            std::sort(got.begin(), got.end()); std::sort(want.begin(), want.end()); same("join.where", got, want);
            got.clear(); want.clear(); for (auto& r : rows()) for (int i = 0; i < 6; ++i) if (r.a + 1 == i - 2 && i - 2 < p && r.b < q) want.push_back(S(r.id) + std::string(1, char('p' + i)));
            for (auto& x : d.sqlTemplate<9022>().select<Col(&T::id), Col(&U::v)>().from<T>().join<U>().on<(Col(&U::k) == Col(&T::a) + 1) && (Col(&U::k) < Pm)>(p).where<(Col(&T::b) < Pm)>(q).exec()) got.push_back(S(x.get<0>()) + x.get<1>());
            std::sort(got.begin(), got.end()); std::sort(want.begin(), want.end()); same("join.on(param).where(param)", got, want);
        }
    });
    auto mut = [&](const char* n, auto del, auto pred) { mc::run_case(std::string("query/mutate/") + n, [&] {
        DB t; mk(t); std::uint64_t c = 0; try { c = del(t); } catch (std::exception const& e) { mc::fail("query", std::string(n) + " fails: " + e.what()); return; }
        std::vector<int64_t> got, want; std::size_t hit = 0; for (auto& r : rows()) if (pred(r)) ++hit; else want.push_back(r.id);
        for (auto& x : t.sqlTemplate<1>().select<Col(&T::id)>().from<T>().where<(Col(&T::a) < 1000)>().exec()) got.push_back(x.get<0>()); std::sort(got.begin(), got.end()); mc::transition();
        if (got != want || c != hit) mc::fail("mutation", std::string(n) + " affected " + S(c) + " rows leaving " + ids(got) + ", expected " + S(hit) + " rows leaving " + ids(want)); }); };
    mut("delete-group", [](DB& t) { return t.sqlTemplate<2>().deleteForm<T>().where<(Col(&T::x) == 1 || Col(&T::y) == 1) && Col(&T::z) == 1>().execGetChanges(); }, [](M const& r) { return (r.x == 1 || r.y == 1) && r.z == 1; });
    mut("delete-and-group", [](DB& t) { return t.sqlTemplate<2>().deleteForm<T>().where<Col(&T::x) == 1 && (Col(&T::y) == 1 || Col(&T::z) == 1)>().execGetChanges(); }, [](M const& r) { return r.x == 1 && (r.y == 1 || r.z == 1); });
    mut("delete-arith", [](DB& t) { return t.sqlTemplate<2>().deleteForm<T>().where<10 - (Col(&T::a) + 1) * 2 == 4>().execGetChanges(); }, [](M const& r) { return 10 - (r.a + 1) * 2 == 4; });
    mut("delete-quote", [](DB& t) { return t.sqlTemplate<2>().deleteForm<T>().where<Col(&T::s) == "it's"_fs || Col(&T::s) == "?'); --"_fs>().execGetChanges(); }, [](M const& r) { return r.s == "it's" || r.s == "?'); --"; });
    mut("update-group", [](DB& t) { int32_t big = 5000; return t.sqlTemplate<2>().update<&T::a>(big).where<(3 > Col(&T::b)) && (Col(&T::x) == 1 || Col(&T::w) == 1)>().execGetChanges(); }, [](M const& r) { return 3 > r.b && (r.x == 1 || r.w == 1); });
}
void go();
} // namespace vp
