// P40: a table made from a struct has exactly the columns, constraints, defaults, keys and indexes the struct declares.
// The schema the library makes in a real SQLite file is compared with one written by hand (the reading of the declaration),
// by carrying out every sequence of statements up to a depth on both (a tree of savepoints) and comparing every outcome and all rows.
#include "mc.hpp"
#include <sqlite3.h>
#include <HXLibs/db/sqlite3/SqliteDB.hpp>
#include <unistd.h>
using namespace HX; using namespace HX::db; using namespace HX::meta::fixed_string_literals;
namespace vp {
struct Plain { int64_t id; std::string name; double d; int32_t n; };
struct Auto { AutoIncrementPrimaryKey<int64_t> id; Constraint<int, attr::NotNull> v; Constraint<std::string, attr::Unique> s; Constraint<int, attr::DefaultVal<18>> age; };
struct Keys { PrimaryKey<std::string> k; Constraint<int, attr::NotNull, attr::Unique> u; Constraint<double, attr::DefaultVal<2.5>> d; Constraint<int64_t, attr::NotNull, attr::DefaultVal<int64_t{-7}>> m; };
struct Order1 { NotNullPrimaryKey<int> id; Constraint<std::string, attr::DefaultVal<"loli"_fs>, attr::NotNull> a; Constraint<std::string, attr::Unique, attr::DefaultVal<"it's"_fs>> b; Constraint<std::string, attr::DefaultVal<"say \"x\" \\n"_fs>> c; Constraint<std::string, attr::DefaultVal<""_fs>> e; };
struct Pair { int64_t a; int b; std::string c; struct UnionAttr { attr::PrimaryKey<&Pair::a, &Pair::b> pk; attr::Index<attr::IndexOrder<&Pair::c, attr::Order::Desc>, attr::IndexOrder<&Pair::b>> i; }; };
struct Named { AutoIncrementPrimaryKey<int64_t> id; Constraint<int, attr::Index<>> x; Constraint<int, attr::DescIndex, attr::NotNull> y; Constraint<int, attr::AseIndex, attr::Unique> z; inline static constexpr std::string_view TableName = "other_name"; struct UnionAttr { attr::Index<attr::IndexOrder<&Named::y>, attr::IndexOrder<&Named::x, attr::Order::Desc>> i1; attr::Index<attr::IndexOrder<&Named::z, attr::Order::Desc>> i2; }; };
struct Kid { PrimaryKey<int> id; Constraint<int64_t, attr::Foreign<&Named::id>> parent; Constraint<int64_t, attr::NotNull, attr::Foreign<&Auto::id>, attr::Index<>> other; };
struct PairKid { int64_t pa; int pb; Constraint<std::string, attr::Unique, attr::Foreign<&Keys::k>> k; struct UnionAttr { attr::UnionForeign<attr::ForeignMap<&PairKid::pa, &Pair::a>, attr::ForeignMap<&PairKid::pb, &Pair::b>> f; attr::Index<attr::IndexOrder<&PairKid::pb>, attr::IndexOrder<&PairKid::pa>> i; }; };
struct PairNamed { int a; int b; int c; inline static constexpr std::string_view TableName = "pn"; struct UnionAttr { attr::PrimaryKey<&PairNamed::b, &PairNamed::a> pk; }; };
struct PairNamedKid { PrimaryKey<int> id; int x; int y; struct UnionAttr { attr::UnionForeign<attr::ForeignMap<&PairNamedKid::y, &PairNamed::b>, attr::ForeignMap<&PairNamedKid::x, &PairNamed::a>> f; }; };
}
using namespace vp;
static std::string dir;
// one raw connection
struct Raw {
    sqlite3* db{}; std::map<std::string, sqlite3_stmt*> cache;
    explicit Raw(std::string const& f) { if (sqlite3_open(f.c_str(), &db)) std::abort(); sqlite3_extended_result_codes(db, 1); ex("PRAGMA synchronous=OFF"); ex("PRAGMA journal_mode=MEMORY"); ex("PRAGMA foreign_keys=ON"); }
    ~Raw() { for (auto& [k, s] : cache) sqlite3_finalize(s); sqlite3_close(db); }
    int ex(std::string const& q) { auto& s = cache[q]; if (!s && sqlite3_prepare_v2(db, q.c_str(), -1, &s, nullptr)) { int r = sqlite3_extended_errcode(db); cache.erase(q); return r; } int r; while ((r = sqlite3_step(s)) == SQLITE_ROW); sqlite3_reset(s); return r; }
    std::string rows(std::string const& q) { std::string o; auto& s = cache[q]; if (!s && sqlite3_prepare_v2(db, q.c_str(), -1, &s, nullptr)) { std::string e = sqlite3_errmsg(db); cache.erase(q); return "error: " + e; }
        int r; while ((r = sqlite3_step(s)) == SQLITE_ROW) { for (int i = 0; i < sqlite3_column_count(s); ++i) { auto* t = (char const*)sqlite3_column_text(s, i); int ty = sqlite3_column_type(s, i); o += std::to_string(ty) + ":" + (t ? std::string(t, (std::size_t)sqlite3_column_bytes(s, i)) : "") + "|"; } o += "\n"; } sqlite3_reset(s); return o; }
};
struct Set { std::string name; std::vector<std::string> ddl, tables, ops; };
static std::uint64_t nodes = 0;
static bool tree(Set const& s, Raw& g, Raw& r, int depth, std::vector<int>& path) {
    for (std::size_t i = 0; i < s.ops.size(); ++i) {
        std::string sp = "SAVEPOINT s" + std::to_string(depth), rb = "ROLLBACK TO s" + std::to_string(depth), rl = "RELEASE s" + std::to_string(depth);
        if (!path.empty() && path.size() > 1 && (int)i == path.back() && path[path.size() - 2] == (int)i) continue;
        for (Raw* x : {&g, &r}) x->ex(sp);
        mc::arm(); mc::transition(); ++nodes; path.push_back((int)i);
        auto what = [&] { std::string w; for (int p : path) w += s.ops[(std::size_t)p] + "; "; return w; };
        int a = g.ex(s.ops[i]), b = r.ex(s.ops[i]);
        if (a != b) { mc::fail("enforcement", what() + " gives " + sqlite3_errstr(a) + " (" + std::to_string(a) + ") instead of " + sqlite3_errstr(b) + " (" + std::to_string(b) + ")"); return false; }
        mc::outcome(std::to_string(a));
        for (auto& t : s.tables) { auto q = "SELECT * FROM " + t + " ORDER BY rowid"; auto x = g.rows(q), y = r.rows(q); if (x != y) { mc::fail("rows", what() + " leaves in " + t + ":\n" + x + "instead of:\n" + y); return false; } }
        if (depth > 1 && a == SQLITE_DONE && !tree(s, g, r, depth - 1, path)) return false;
        path.pop_back();
        for (Raw* x : {&g, &r}) { x->ex(rb); x->ex(rl); }
    }
    return true;
}
template <bool IfNot = true, class... Ts> std::string make(std::string const& f, int times) {
    try { DataBase<DbType::Sqlite3> db; db.open(f); for (int i = 0; i < times; ++i) { std::string e; ([&] { auto r = db.template createDatabase<Ts, IfNot>(); if (!r.isVal() && e.empty()) e = r.what(); }(), ...); if (!e.empty()) return "time " + std::to_string(i + 1) + ": " + e; } } catch (std::exception& e) { return e.what(); }
    return "";
}
// the columns and indexes as SQLite reports them, without names the library is free to choose
static std::string shape(Raw& r, std::string const& t) {
    std::string o = r.rows("SELECT name, upper(type), pk FROM pragma_table_info('" + t + "')"), ix; std::vector<std::string> v;
    std::string n = r.rows("SELECT name FROM pragma_index_list('" + t + "')"); std::istringstream in(n); std::string l;
    while (std::getline(in, l)) { l = l.substr(2, l.size() - 3); v.push_back(r.rows("SELECT \"unique\", origin, partial FROM pragma_index_list('" + t + "') WHERE name='" + l + "'") + r.rows("SELECT name, \"desc\", coll FROM pragma_index_xinfo('" + l + "') WHERE key=1")); }
    std::sort(v.begin(), v.end()); for (auto& x : v) o += "index " + x; return o;
}
template <class... Ts> void set(Set s, int depth, int part, int parts) {
    static int no = 0; std::string f = dir + "/" + std::to_string(++no) + ".db"; ::unlink(f.c_str());
    if (auto e = make<true, Ts...>(f, 1); !e.empty()) { mc::fail("create", "creating the tables of " + s.name + " fails: " + e); return; }
    if (part == 0) {
        { Raw g(f); for (auto& op : s.ops) g.ex(op); }
        std::string before; { Raw g(f); for (auto& t : s.tables) before += g.rows("SELECT * FROM " + t); }
        if (auto e = make<true, Ts...>(f, 2); !e.empty()) { mc::fail("again", "creating the tables of " + s.name + " that exist already fails: " + e); return; }
        std::string after; { Raw g(f); for (auto& t : s.tables) after += g.rows("SELECT * FROM " + t); }
        if (before != after) { mc::fail("again", "creating the tables of " + s.name + " again changes their rows"); return; }
        if (auto e = make<false, Ts...>(f, 1); e.empty()) { mc::fail("again", "creating existing tables of " + s.name + " without IF NOT EXISTS succeeds"); return; }
        ::unlink(f.c_str()); if (auto e = make<false, Ts...>(f, 1); !e.empty()) { mc::fail("create", "creating the tables of " + s.name + " fails: " + e); return; }
    }
    Raw g(f), r(":memory:"); for (auto& d : s.ddl) if (int k = r.ex(d); k != SQLITE_DONE) { mc::fail("harness", d + ": " + sqlite3_errmsg(r.db)); return; }
    for (auto& t : s.tables) { auto a = shape(g, t), b = shape(r, t); if (a != b) { mc::fail("shape", "table " + t + " is\n" + a + "instead of\n" + b); return; }
        for (Raw* x : {&g, &r}) (void)x; auto q = "SELECT \"from\", \"table\", \"to\", on_update, on_delete FROM pragma_foreign_key_list('" + t + "') ORDER BY 1, 2"; a = g.rows(q), b = r.rows(q); if (a != b) { mc::fail("shape", "foreign keys of " + t + " are\n" + a + "instead of\n" + b); return; } }
    auto all = s.ops; std::vector<int> path;
    // this part takes a share of the first statements
    for (std::size_t i = (std::size_t)part; i < all.size(); i += (std::size_t)parts) {
        for (Raw* x : {&g, &r}) x->ex("SAVEPOINT top");
        int a = g.ex(all[i]), b = r.ex(all[i]); ++nodes; mc::transition();
        if (a != b) { mc::fail("enforcement", all[i] + " gives " + sqlite3_errstr(a) + " (" + std::to_string(a) + ") instead of " + sqlite3_errstr(b) + " (" + std::to_string(b) + ")"); return; }
        path = {(int)i}; if (!tree(s, g, r, depth - 1, path)) return;
        for (Raw* x : {&g, &r}) { x->ex("ROLLBACK TO top"); x->ex("RELEASE top"); }
    }
    mc::state(nodes); nodes = 0;
}
// every INSERT that gives the columns, each left out or given one of the values
static std::vector<std::string> inserts(std::string const& t, std::vector<std::pair<std::string, std::vector<std::string>>> const& cols) {
    std::vector<std::string> out; std::vector<std::size_t> k(cols.size(), 0);
    for (;;) { std::string n, v; for (std::size_t i = 0; i < cols.size(); ++i) if (k[i]) { n += (n.empty() ? "" : ",") + cols[i].first; v += (v.empty() ? "" : ",") + cols[i].second[k[i] - 1]; }
        out.push_back(n.empty() ? "INSERT INTO " + t + " DEFAULT VALUES" : "INSERT INTO " + t + "(" + n + ") VALUES(" + v + ")");
        std::size_t i = 0; for (; i < cols.size(); ++i) { if (++k[i] <= cols[i].second.size()) break; k[i] = 0; } if (i == cols.size()) break; }
    return out;
}
static std::vector<std::string> operator+(std::vector<std::string> a, std::vector<std::string> const& b) { a.insert(a.end(), b.begin(), b.end()); return a; }
void mc_main() {
    bool th = mc::thorough(); char t[] = "/dev/shm/p40XXXXXX"; char t2[] = "/tmp/p40XXXXXX"; char* d = ::mkdtemp(t); if (!d) d = ::mkdtemp(t2); dir = d ? d : ".";
    auto drop = [&] { for (int i = 0; i < 200; ++i) { ::unlink((dir + "/" + std::to_string(i) + ".db").c_str()); ::unlink((dir + "/" + std::to_string(i) + ".db-journal").c_str()); } ::rmdir(dir.c_str()); };
    constexpr int P = 8;
    std::string keys = "CREATE TABLE Keys(k TEXT PRIMARY KEY, u INTEGER NOT NULL UNIQUE, d REAL DEFAULT 2.5, m INTEGER NOT NULL DEFAULT -7)";
    std::string autos = "CREATE TABLE Auto(id INTEGER PRIMARY KEY AUTOINCREMENT, v INTEGER NOT NULL, s TEXT UNIQUE, age INTEGER DEFAULT 18)";
    std::string pair = "CREATE TABLE Pair(a INTEGER, b INTEGER, c TEXT, PRIMARY KEY(a, b))", pairi = "CREATE INDEX i ON Pair(c DESC, b)";
    std::vector<std::string> named = {"CREATE TABLE other_name(id INTEGER PRIMARY KEY AUTOINCREMENT, x INTEGER, y INTEGER NOT NULL, z INTEGER UNIQUE)", "CREATE INDEX n1 ON other_name(x)", "CREATE INDEX n2 ON other_name(y DESC)", "CREATE INDEX n3 ON other_name(z)", "CREATE INDEX n4 ON other_name(y, x DESC)", "CREATE INDEX n5 ON other_name(z DESC)"};
    auto go = [&]<class... Ts>(Set s, int q, int h) { for (int p = 0; p < P; ++p) mc::run_case(s.name + "/" + std::to_string(p), [&] { set<Ts...>(s, th ? h : q, p, P); }); };
    go.template operator()<Plain>({"Plain", {"CREATE TABLE Plain(id INTEGER, name TEXT, d REAL, n INTEGER)"}, {"Plain"}, inserts("Plain", {{"id", {"1", "'12'", "NULL"}}, {"name", {"'x'", "5"}}, {"d", {"1", "'y'"}}, {"n", {"2.0", "'z'"}}}) + std::vector<std::string>{"DELETE FROM Plain", "UPDATE Plain SET id=id+1"}}, 2, 3);
    go.template operator()<Auto>({"Auto", {autos}, {"Auto"}, inserts("Auto", {{"id", {"1", "5"}}, {"v", {"7", "NULL"}}, {"s", {"'a'", "'b'"}}, {"age", {"3"}}}) + std::vector<std::string>{"DELETE FROM Auto", "DELETE FROM Auto WHERE id=5", "UPDATE Auto SET s='a'", "UPDATE Auto SET v=NULL", "UPDATE Auto SET id=id+1"}}, 3, 4);
    go.template operator()<Keys>({"Keys", {keys}, {"Keys"}, inserts("Keys", {{"k", {"'p'", "3"}}, {"u", {"1", "2", "NULL"}}, {"d", {"NULL"}}, {"m", {"4", "NULL"}}}) + std::vector<std::string>{"DELETE FROM Keys", "UPDATE Keys SET u=1", "UPDATE Keys SET k='p'", "UPDATE Keys SET m=NULL"}}, 3, 4);
    go.template operator()<Order1>({"Order1", {"CREATE TABLE Order1(id INTEGER PRIMARY KEY NOT NULL, a TEXT DEFAULT 'loli' NOT NULL, b TEXT UNIQUE DEFAULT 'it''s', c TEXT DEFAULT 'say \"x\" \\n', e TEXT DEFAULT '')"}, {"Order1"}, inserts("Order1", {{"id", {"1", "2"}}, {"a", {"'q'", "NULL"}}, {"b", {"'it''s'", "'c'"}}, {"c", {"'r'"}}}) + std::vector<std::string>{"DELETE FROM Order1", "UPDATE Order1 SET b='c'", "UPDATE Order1 SET a=NULL"}}, 3, 4);
    go.template operator()<Pair>({"Pair", {pair, pairi}, {"Pair"}, inserts("Pair", {{"a", {"1", "2", "NULL"}}, {"b", {"1", "2"}}, {"c", {"'x'"}}}) + std::vector<std::string>{"DELETE FROM Pair", "UPDATE Pair SET a=1", "UPDATE Pair SET b=2", "UPDATE Pair SET c='x'"}}, 3, 4);
    go.template operator()<Named>({"Named", named, {"other_name"}, inserts("other_name", {{"id", {"4"}}, {"x", {"1"}}, {"y", {"1", "2"}}, {"z", {"1", "2"}}}) + std::vector<std::string>{"DELETE FROM other_name", "UPDATE other_name SET z=1", "UPDATE other_name SET y=NULL"}}, 3, 4);
    go.template operator()<PairNamed>({"PairNamed", {"CREATE TABLE pn(a INTEGER, b INTEGER, c INTEGER, PRIMARY KEY(b, a))"}, {"pn"}, inserts("pn", {{"a", {"1", "2"}}, {"b", {"1", "2"}}, {"c", {"1"}}}) + std::vector<std::string>{"DELETE FROM pn", "UPDATE pn SET a=1", "UPDATE pn SET b=2"}}, 3, 4);
    go.template operator()<Named, Auto, Kid>({"Kid", named + std::vector<std::string>{autos, "CREATE TABLE Kid(id INTEGER PRIMARY KEY, parent INTEGER, other INTEGER NOT NULL, FOREIGN KEY(parent) REFERENCES other_name(id), FOREIGN KEY(other) REFERENCES Auto(id))", "CREATE INDEX k1 ON Kid(other)"}, {"other_name", "Auto", "Kid"},
        inserts("Kid", {{"id", {"1"}}, {"parent", {"1", "2"}}, {"other", {"1", "2"}}}) + std::vector<std::string>{"INSERT INTO other_name(id, y) VALUES(1, 1)", "INSERT INTO other_name(y) VALUES(1)", "INSERT INTO Auto(id, v) VALUES(1, 1)", "INSERT INTO Auto(v) VALUES(1)", "DELETE FROM other_name", "DELETE FROM other_name WHERE id=1", "DELETE FROM Auto WHERE id=1", "DELETE FROM Auto WHERE id=2", "UPDATE Auto SET id=2 WHERE id=1", "UPDATE other_name SET id=2 WHERE id=1", "DELETE FROM Kid", "UPDATE Kid SET parent=2", "UPDATE Kid SET other=2"}}, 3, 4);
    go.template operator()<Pair, Keys, PairKid>({"PairKid", {pair, pairi, keys, "CREATE TABLE PairKid(pa INTEGER, pb INTEGER, k TEXT UNIQUE, FOREIGN KEY(k) REFERENCES Keys(k), FOREIGN KEY(pa, pb) REFERENCES Pair(a, b))", "CREATE INDEX q ON PairKid(pb, pa)"}, {"Pair", "Keys", "PairKid"},
        inserts("PairKid", {{"pa", {"1", "2"}}, {"pb", {"1", "2"}}, {"k", {"'p'"}}}) + std::vector<std::string>{"INSERT INTO Pair VALUES(1, 1, 'x')", "INSERT INTO Pair VALUES(1, 2, 'x')", "INSERT INTO Pair VALUES(2, 1, 'x')", "INSERT INTO Keys(k, u) VALUES('p', 1)", "DELETE FROM Pair", "DELETE FROM Keys", "UPDATE Pair SET a=2", "UPDATE Keys SET k='r'", "UPDATE PairKid SET pa=2", "DELETE FROM PairKid"}}, 3, 4);
    go.template operator()<PairNamed, PairNamedKid>({"PairNamedKid", {"CREATE TABLE pn(a INTEGER, b INTEGER, c INTEGER, PRIMARY KEY(b, a))", "CREATE TABLE PairNamedKid(id INTEGER PRIMARY KEY, x INTEGER, y INTEGER, FOREIGN KEY(y, x) REFERENCES pn(b, a))"}, {"pn", "PairNamedKid"},
        inserts("PairNamedKid", {{"x", {"1", "2"}}, {"y", {"1", "2"}}}) + std::vector<std::string>{"INSERT INTO pn VALUES(1, 1, 1)", "INSERT INTO pn VALUES(1, 2, 1)", "INSERT INTO pn VALUES(2, 1, 1)", "DELETE FROM pn", "UPDATE pn SET a=2", "UPDATE pn SET b=2", "UPDATE PairNamedKid SET x=2", "DELETE FROM PairNamedKid"}}, 3, 5);
    drop();
}
