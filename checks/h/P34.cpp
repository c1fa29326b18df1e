// P34: every sequence of table operations through cached statements, compared with a reference table after each step.
#include <mc.hpp>
#include <HXLibs/db/sqlite3/SqliteDB.hpp>
#include <map>
#include <limits>
#include <cmath>
namespace vp {
using namespace HX; using namespace HX::meta::fixed_string_literals; using db::Col;
struct Row { db::AutoIncrementPrimaryKey<int64_t> id; db::Constraint<std::string, db::attr::Unique, db::attr::NotNull> name; int32_t n; int64_t big; double d; inline static constexpr std::string_view TableName = "MainTable"; };
struct Pair { int32_t a; int32_t b; struct UnionAttr { db::attr::PrimaryKey<&Pair::a, &Pair::b> pk; }; inline static constexpr std::string_view TableName = "PairTable"; };
struct Wide { int16_t s; int8_t f; float r; int32_t i; int64_t l; double d; std::string t; };
struct MRow { std::string name; int32_t n = 0; int64_t big = 0; double d = 0; bool operator==(MRow const&) const = default; };
struct Model { std::map<int64_t, MRow> rows; int64_t seq = 0; std::map<std::pair<int, int>, int> pairs; bool pairTable = false;
    bool has(std::string const& n, int64_t except = -1) const { for (auto& [i, r] : rows) if (r.name == n && i != except) return true; return false; } };
using DB = db::DataBase<db::DbType::Sqlite3>;
struct World {
    std::unique_ptr<DB> h; Model m; std::string log;
    void bad(const char* key, std::string const& msg) { mc::fail(key, log + ": " + msg); }
    // runs f; returns whether it threw
    template <class F> bool run(F&& f) { try { f(); return false; } catch (std::exception&) { return true; } }
    void expect(const char* what, bool threw, bool want) { if (threw != want) bad(what, threw ? "fails although the statement is valid" : "succeeds although a constraint is violated"); }
    static Row row(int k) { static const char* N[] = {"a", "b", "it's \xC3\xA9"}; return Row{{0}, {N[k]}, 10 + k, (int64_t(1) << 40) + k, 0.5 + k}; }
    static MRow mrow(Row const& r) { return {r.name.get(), r.n, r.big, r.d}; }
    void insert(int k) { auto r = row(k); bool dup = m.has(r.name.get()); bool t = run([&] { h->sqlTemplate<"ins"_fs>().insert<Row>(r).exec(); }); expect("insert", t, dup); if (!dup) m.rows[++m.seq] = mrow(r); }
    void insertRet(int k) { auto r = row(k); bool dup = m.has(r.name.get()); int64_t id = 0; std::string nm; int32_t n = 0; double d = 0;
        bool t = run([&] { auto x = h->sqlTemplate<"insr"_fs>().insert<Row>(r).returning<&Row::id, &Row::name, &Row::n, &Row::d>().exec(); id = x.get<0>(); nm = x.get<1>(); n = x.get<2>(); d = x.get<3>(); });
        expect("insert-returning", t, dup); if (!dup) { m.rows[++m.seq] = mrow(r); if (!t && (id != m.seq || nm != r.name.get() || n != r.n || d != r.d)) bad("generated-key", "insert returned id " + std::to_string(id) + " name " + nm + ", expected id " + std::to_string(m.seq)); } }
    void insertPart() { std::string nm = "p"; int32_t n = 77; bool dup = m.has(nm); int64_t id = 0; bool t = run([&] { auto x = h->sqlTemplate<"insp"_fs>().insert<&Row::name, &Row::n>(nm, n).returning<&Row::id>().exec(); id = x.get<0>(); }); expect("insert-columns", t, dup); if (!dup) { m.rows[++m.seq] = MRow{nm, n}; if (!t && id != m.seq) bad("generated-key", "partial insert returned id " + std::to_string(id)); } }
    void insertPk() { auto r = row(0); r.id.val = 5; r.name.val = "pk"; bool dup = m.rows.count(5) || m.has("pk"); bool t = run([&] { h->sqlTemplate<"inspk"_fs>().insert<Row, true>(r).exec(); }); expect("insert-pk", t, dup); if (!dup) { m.rows[5] = mrow(r); if (m.seq < 5) m.seq = 5; } }
    void updRow() { auto r = row(1); r.d = -7.25; std::size_t hit = 0; bool clash = false; for (auto& [i, x] : m.rows) if (x.n == 10) { ++hit; if (m.has(r.name.get(), i)) clash = true; } if (hit > 1) clash = true; std::uint64_t c = 99;
        bool t = run([&] { c = h->sqlTemplate<"upd"_fs>().update<Row>(r).where<Col(&Row::n) == 10>().execGetChanges(); }); expect("update-row", t, hit && clash); if (!(hit && clash)) { for (auto& [i, x] : m.rows) if (x.n == 10) x = mrow(r); if (!t && c != hit) bad("changes", "update reported " + std::to_string(c) + " rows, expected " + std::to_string(hit)); } }
    void updCols() { int32_t n = 10; int64_t b = std::numeric_limits<int64_t>::min(); std::size_t hit = 0; for (auto& [i, x] : m.rows) if (x.n > 10) { x.n = n; x.big = b; ++hit; } std::uint64_t c = 99; bool t = run([&] { c = h->sqlTemplate<"updc"_fs>().update<&Row::n, &Row::big>(n, b).where<(Col(&Row::n) > 10)>().execGetChanges(); }); expect("update-columns", t, false); if (!t && c != hit) bad("changes", "update reported " + std::to_string(c) + " rows, expected " + std::to_string(hit)); }
    void updName() { std::string nm = "b"; std::size_t hit = m.rows.size(); bool clash = hit > 1; bool t = run([&] { h->sqlTemplate<"updn"_fs>().update<&Row::name>(nm).where<(Col(&Row::id) > int64_t(0))>().exec(); }); expect("update-unique", t, clash); if (!clash) for (auto& [i, x] : m.rows) x.name = nm; }
    void updRet() { double d = 1e300; std::map<int64_t, double> got, want; for (auto& [i, x] : m.rows) if (x.name == "a" || x.name == "p") { x.d = d; want[i] = d; } std::uint64_t c = 99; bool t = run([&] { auto z = h->sqlTemplate<"updr"_fs>().update<&Row::d>(d).where<Col(&Row::name) == "a"_fs || Col(&Row::name) == "p"_fs>().returning<&Row::id, &Row::d>().execGetChanges(); c = z.changes; for (auto& q : z.columnRes) got[q.get<0>()] = q.get<1>(); });
        expect("update-returning", t, false); if (!t && (got != want || c != want.size())) bad("update-returning-rows", "returned " + std::to_string(got.size()) + " rows and " + std::to_string(c) + " changes, expected " + std::to_string(want.size())); }
    void del() { std::size_t hit = 0; for (auto it = m.rows.begin(); it != m.rows.end();) if (it->second.n == 10) { it = m.rows.erase(it); ++hit; } else ++it; std::uint64_t c = 99; bool t = run([&] { c = h->sqlTemplate<"del"_fs>().deleteForm<Row>().where<Col(&Row::n) == 10>().execGetChanges(); }); expect("delete", t, false); if (!t && c != hit) bad("changes", "delete reported " + std::to_string(c) + " rows, expected " + std::to_string(hit)); }
    void delRet() { std::map<int64_t, std::string> got, want; for (auto it = m.rows.begin(); it != m.rows.end();) if (it->second.n >= 12) { want[it->first] = it->second.name; it = m.rows.erase(it); } else ++it; std::uint64_t c = 99; bool t = run([&] { auto z = h->sqlTemplate<"delr"_fs>().deleteForm<Row>().where<(Col(&Row::n) >= 12)>().returning<&Row::id, &Row::name>().execGetChanges(); c = z.changes; for (auto& q : z.columnRes) got[q.get<0>()] = q.get<1>(); }); expect("delete-returning", t, false); if (!t && (got != want || c != want.size())) bad("delete-returning-rows", "returned " + std::to_string(got.size()) + " rows and " + std::to_string(c) + " changes, expected " + std::to_string(want.size())); }
    void pairTable() { auto r = h->createDatabase<Pair>(); if (!r) bad("create", r.what()); m.pairTable = true; }
    void pairIns(int a) { Pair p{a, a * 2}; bool fail = !m.pairTable || m.pairs.count({a, a * 2}); bool t = run([&] { h->sqlTemplate<"pi"_fs>().insert<Pair, true>(p).exec(); }); expect("insert-pair", t, fail); if (!fail) m.pairs[{a, a * 2}] = 1; }
    void pairSel() { std::map<std::pair<int, int>, int> got; bool t = run([&] { for (auto& q : h->sqlTemplate<"ps"_fs>().select<Col(&Pair::a), Col(&Pair::b)>().from<Pair>().where<Col(&Pair::a) == 1 || Col(&Pair::a) == 2>().exec()) got[{q.get<0>(), q.get<1>()}] += 1; }); expect("select-pair", t, !m.pairTable); if (!t && got != m.pairs) bad("rows-pair", "select shows " + std::to_string(got.size()) + " pairs, expected " + std::to_string(m.pairs.size())); }
    void raw() { bool dup = m.has("r"); bool t = run([&] { h->exec("INSERT INTO MainTable (name,n,big,d) VALUES ('r', -2147483648, 9223372036854775807, -0.125)"); }); expect("exec", t, dup); if (!dup) m.rows[++m.seq] = MRow{"r", std::numeric_limits<int32_t>::min(), std::numeric_limits<int64_t>::max(), -0.125}; }
    void reopen() { h->open(":memory:"); auto r = h->createDatabase<Row>(); if (!r) bad("create", r.what()); m = Model{}; }
    void check() {
        std::map<int64_t, MRow> got; std::size_t cnt = 0;
        bool t = run([&] { for (auto& q : h->sqlTemplate<"all"_fs>().select<Col(&Row::id), Col(&Row::name), Col(&Row::n), Col(&Row::big), Col(&Row::d)>().from<Row>().exec()) { got[q.get<0>()] = MRow{q.get<1>(), q.get<2>(), q.get<3>(), q.get<4>()}; ++cnt; } });
        if (t) bad("select", "select fails"); else if (got != m.rows || cnt != got.size()) { std::string s = "rows read back:"; for (auto& [i, r] : got) s += " " + std::to_string(i) + "=" + r.name + "/" + std::to_string(r.n) + "/" + std::to_string(r.big) + "/" + std::to_string(r.d); s += " expected:"; for (auto& [i, r] : m.rows) s += " " + std::to_string(i) + "=" + r.name + "/" + std::to_string(r.n) + "/" + std::to_string(r.big) + "/" + std::to_string(r.d); bad("rows", s); }
    }
    static constexpr int N = 20;
    const char* step(int op) {
        switch (op) { case 0: case 1: case 2: log += " insert" + std::to_string(op); insert(op); break; case 3: case 4: log += " insertReturning" + std::to_string(op - 3); insertRet(op - 3); break; case 5: log += " insertCols"; insertPart(); break; case 6: log += " insertPk5"; insertPk(); break;
            case 7: log += " updateRow"; updRow(); break; case 8: log += " updateCols"; updCols(); break; case 9: log += " updateName"; updName(); break; case 10: log += " updateReturning"; updRet(); break; case 11: log += " delete"; del(); break; case 12: log += " deleteReturning"; delRet(); break;
            case 13: log += " createPair"; pairTable(); break; case 14: log += " pairInsert1"; pairIns(1); break; case 15: log += " pairInsert2"; pairIns(2); break; case 16: log += " pairSelect"; pairSel(); break; case 17: log += " rawInsert"; raw(); break; case 18: log += " reopen"; reopen(); break; case 19: log += " select"; break; }
        mc::transition(); check(); return "";
    }
    World() { h = std::make_unique<DB>(); h->open(":memory:"); auto r = h->createDatabase<Row>(); if (!r) bad("create", r.what()); }
};
void go() {
    int L = mc::thorough() ? 4 : 3;
    for (int a = 0; a < World::N; ++a) for (int b = 0; b < World::N; ++b) mc::run_case("seq/" + std::to_string(a) + "." + std::to_string(b), [&] {
        long n = 1; for (int i = 2; i < L; ++i) n *= World::N;
        for (long k = 0; k < n; ++k) { World w; mc::state(); w.step(a); w.step(b); long q = k; for (int i = 2; i < L; ++i) { w.step(int(q % World::N)); q /= World::N; }
            std::string o; for (auto& [i, r] : w.m.rows) o += std::to_string(i) + r.name + std::to_string(r.n) + std::to_string(r.d); mc::outcome(o); } });
    // longer histories on a reduced alphabet (reuse of the same statements after failures)
    static const int R[] = {0, 3, 5, 9, 11, 16, 13}; int D = mc::thorough() ? 7 : 5; const int M = 7;
    for (int a = 0; a < M; ++a) for (int b = 0; b < M; ++b) mc::run_case("long/" + std::to_string(a) + "." + std::to_string(b), [&] { long n = 1; for (int i = 2; i < D; ++i) n *= M;
        for (long k = 0; k < n; ++k) { World w; mc::state(); w.step(R[a]); w.step(R[b]); long q = k; for (int i = 2; i < D; ++i) { w.step(R[q % M]); q /= M; } } mc::outcome(a * 100 + b); });
    // value round trips through one cached insert and one cached select
    auto wide = [](std::string const& id, std::function<void(std::function<void(Wide)>)> gen) { mc::run_case("value/" + id, [&] {
        DB h; h.open(":memory:"); auto c = h.createDatabase<Wide>(); if (!c) mc::fail("create", c.what());
        gen([&](Wide w) { mc::transition(); try { h.sqlTemplate<"del"_fs>().deleteForm<Wide>().where<Col(&Wide::i) == 0 || Col(&Wide::i) != 0>().exec();
            auto x = h.sqlTemplate<"ins"_fs>().insert<Wide>(w).returning<&Wide::s, &Wide::f, &Wide::r, &Wide::i, &Wide::l, &Wide::d, &Wide::t>().exec();
            auto v = h.sqlTemplate<"sel"_fs>().select<Col(&Wide::s), Col(&Wide::f), Col(&Wide::r), Col(&Wide::i), Col(&Wide::l), Col(&Wide::d), Col(&Wide::t)>().from<Wide>().exec();
            auto same = [&](auto& q) { return q.template get<0>() == w.s && q.template get<1>() == w.f && q.template get<2>() == w.r && q.template get<3>() == w.i && q.template get<4>() == w.l && q.template get<5>() == w.d && q.template get<6>() == w.t; };
            if (v.size() != 1 || !same(v[0])) mc::fail("value", "a row with i=" + std::to_string(w.i) + " l=" + std::to_string(w.l) + " s=" + std::to_string(w.s) + " d=" + std::to_string(w.d) + " t=" + w.t + " does not read back"); else if (!same(x)) mc::fail("value-returning", "returning gives other values for l=" + std::to_string(w.l) + " t=" + w.t);
            } catch (std::exception& e) { mc::fail("value-throw", e.what()); } catch (std::string& e) { mc::fail("value-throw", e); } }); mc::outcome(id); }); };
    for (int part = 0; part < 8; ++part) wide("int/" + std::to_string(part), [part](auto put) { for (int k = part; k < 64; k += 8) for (int d = -2; d <= 2; ++d) for (int sg : {1, -1}) { uint64_t u = ((uint64_t)1 << k) * sg + d; put(Wide{(int16_t)u, (int8_t)u, float((int32_t)u) / 8, (int32_t)u, (int64_t)u, (double)(int64_t)u / 3, std::to_string(u)}); } });
    wide("text", [](auto put) { std::vector<std::string> al{"a", "'", "\"", "\\", "%", ";", "\xC3\xA9", "\xF0\x9F\x98\x80", " ", "\n", "?"}; put(Wide{}); for (auto& a : al) { put(Wide{.t = a}); for (auto& b : al) { put(Wide{.t = a + b}); for (auto& c : al) put(Wide{.t = a + b + c}); } } for (int n : {100, 1000, 4096, 70000}) put(Wide{.t = std::string(n, 'x')}); });
    wide("real", [](auto put) { for (double d : {0.0, 1.0, -1.0, 0.1, 1e-300, 1e300, std::numeric_limits<double>::max(), std::numeric_limits<double>::denorm_min(), std::numeric_limits<double>::min(), std::numeric_limits<double>::infinity(), -std::numeric_limits<double>::infinity(), 123456789.123456789, 9007199254740993.0, 1.7976931348623157e308}) for (float f : {0.f, 0.1f, -3.5f, std::numeric_limits<float>::max(), std::numeric_limits<float>::min()}) put(Wide{.r = f, .d = d}); });
}
}
void mc_main() { vp::go(); }
