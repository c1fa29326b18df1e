// P32: manual-lifetime cell, variant, Try and MoveOnlyFunction against reference models, every operation sequence up to a depth.
#include <mc.hpp>
#include <HXLibs/container/Uninitialized.hpp>
#include <HXLibs/container/UninitializedNonVoidVariant.hpp>
#include <HXLibs/container/Try.hpp>
#include <HXLibs/container/MoveOnlyFunction.hpp>
#include <HXLibs/exception/ExceptionMode.hpp>
#include <optional>
#include <memory>
namespace vp {
namespace hc = HX::container;
static std::set<const void*> g_live; static std::string g_why; static int g_throwIn = -1; static long g_made = 0;
static void bad(const char* w) { if (g_why.empty()) g_why = w; }
// Tracked value; Tag makes distinct alternatives. Moved-from objects are alive and hold -1.
template <int Tag> struct Obj {
    int v; char* heap;
    void reg() { if (!g_live.insert(this).second) bad("constructed over a live object"); heap = new char(1); ++g_made; }
    explicit Obj(int x) : v(x) { if (g_throwIn >= 0 && g_throwIn-- == 0) throw std::logic_error("ctor"); reg(); }
    Obj(Obj const& o) : v(o.use()) { if (g_throwIn >= 0 && g_throwIn-- == 0) throw std::logic_error("copy"); reg(); }
    Obj(Obj&& o) noexcept : v(o.use()) { o.v = -1; reg(); }
    Obj& operator=(Obj const& o) { use(); v = o.use(); return *this; }
    Obj& operator=(Obj&& o) noexcept { use(); int t = o.use(); if (&o != this) { o.v = -1; } v = t; return *this; }
    ~Obj() { if (!g_live.erase(this)) { bad("object destroyed twice or never constructed"); return; } delete heap; }
    int use() const { if (!g_live.count(this)) bad("object used while it does not exist"); return v; }
    bool operator==(Obj const& o) const { return use() == o.use(); }
};
using A = Obj<0>; using B = Obj<1>;
static std::string seqStr(std::vector<int> const& s, int at) { std::string r; for (int i = 0; i <= at && i < (int)s.size(); ++i) r += std::to_string(s[i]) + " "; return r; }
// Runs every sequence of D operations (first two fixed by the case id); R supplies step(op)/check()
template <class R> void explore(const char* name, int D) {
    int N = R::N;
    for (int a = 0; a < N; ++a) for (int b = 0; b < N; ++b) mc::run_case(std::string(name) + "/" + std::to_string(a) + "," + std::to_string(b), [&] {
        std::vector<int> seq(D, 0); seq[0] = a; seq[1] = b; int fails = 0;
        std::function<void(int)> rec = [&](int k) {
            if (fails > 3) return;
            if (k < D) { for (int o = 0; o < N; ++o) { seq[k] = o; rec(k + 1); } return; }
            g_live.clear(); g_why.clear(); g_throwIn = -1; std::string err; int at = 0;
            { auto r = std::make_unique<R>();
              for (int i = 0; i < D && err.empty(); ++i) { if (!r->step(seq[i])) return; g_throwIn = -1; mc::transition(); err = r->check(); if (err.empty()) err = g_why; at = i; }
              mc::state(); mc::outcome(r->sig()); }
            if (err.empty() && (!g_live.empty() || !g_why.empty())) { err = g_why.empty() ? std::to_string(g_live.size()) + " objects were never destroyed" : g_why; at = D; }
            if (!err.empty()) { ++fails; mc::fail(std::string(name), std::string(name) + ", operations [" + seqStr(seq, at) + "]: " + err); }
        };
        rec(2);
    });
}
// ---- Uninitialized<A> ----
struct RunCell {
    using C = hc::Uninitialized<A>; C c[2]; std::optional<int> m[2]; int n = 1; std::size_t extra = 0;
    static const int N = 14;
    bool step(int op) {
        int i = op & 1;
        switch (op / 2) {
        case 0: c[i].set(n); m[i] = n++; return true;                         // set (over an old value too)
        case 1: { A a(n); c[i].set(std::move(a)); m[i] = n++; return true; }
        case 2: if (!m[i]) return false; { A a = c[i].move(); if (a.use() != *m[i]) bad("move() gave another value"); m[i].reset(); return true; }
        case 3: c[i] = std::move(c[1 - i]); m[i] = m[1 - i]; m[1 - i].reset(); return true;
        case 4: { C t(std::move(c[i])); if (t.isAvailable() != m[i].has_value()) bad("move-constructed cell has wrong state"); if (m[i] && t.get().use() != *m[i]) bad("move-constructed cell has wrong value"); m[i].reset(); return true; }
        case 5: { C t(std::move(c[i])); if (c[i].isAvailable()) bad("moved-from cell still available"); c[i] = std::move(t); return true; }
        case 6: c[i] = C{}; m[i].reset(); return true;
        }
        return false;
    }
    std::string check() {
        std::size_t want = 0;
        for (int i = 0; i < 2; ++i) { if (c[i].isAvailable() != m[i].has_value()) return "availability of cell " + std::to_string(i) + " wrong"; if (m[i]) { ++want; if (c[i].get().use() != *m[i] || std::as_const(c[i]).get().v != *m[i]) return "value of cell " + std::to_string(i) + " wrong"; } }
        if (g_live.size() != want) return std::to_string(g_live.size()) + " objects alive instead of " + std::to_string(want);
        return "";
    }
    std::string sig() { return "c" + std::to_string(m[0].value_or(-9)) + "," + std::to_string(m[1].value_or(-9)); }
};
// ---- variant<A, void, B> ----
struct RunVar {
    using V = hc::UninitializedNonVoidVariant<A, void, B>; static constexpr std::size_t NP = hc::UninitializedNonVoidVariantNpos;
    V x[2]; std::size_t mi[2] = {NP, NP}; int mv[2] = {0, 0}; int n = 1;
    static const int N = 32;
    bool step(int op) {
        int i = op & 1, j = 1 - i;
        auto set = [&](std::size_t k) { mi[i] = k; mv[i] = n++; };
        switch (op / 2) {
        case 0: if (x[i].emplace<0>(n).v != n) bad("emplace returned another object"); set(0); return true;
        case 1: x[i].emplace<void>(); set(1); return true;
        case 2: x[i].emplace<B>(n); set(2); return true;
        case 3: x[i] = x[j]; mi[i] = mi[j]; mv[i] = mv[j]; return true;
        case 4: x[i] = std::move(x[j]); mi[i] = mi[j]; mv[i] = mv[j]; mv[j] = -1; return true;
        case 5: x[i].swap(x[j]); std::swap(mi[0], mi[1]); std::swap(mv[0], mv[1]); return true;
        case 6: x[i].reset(); mi[i] = NP; return true;
        case 7: { V t(x[i]); if (t.index() != mi[i]) bad("copy has another index"); if (mi[i] == 0 && t.get<0>().use() != mv[i]) bad("copy has another value"); if (mi[i] == 2 && t.get<2>().use() != mv[i]) bad("copy has another value"); if (!(t == x[i]) || t != x[i]) bad("copy is not equal"); x[i] = std::move(t); return true; }
        case 8: { V t(std::move(x[i])); mv[i] = -1; x[j] = t; mi[j] = mi[i]; mv[j] = 0; if (mi[i] == 0) mv[j] = t.get<0>().use(); if (mi[i] == 2) mv[j] = t.get<2>().use(); return true; }
        case 9: { auto& y = x[i]; x[i] = y; return true; }
        case 10: { auto& y = x[i]; x[i] = std::move(y); return true; }
        case 11: x[i] = A(n); set(0); return true;
        case 12: { V t(B{n}); x[i] = t; set(2); return true; }
        case 13: g_throwIn = 0; { bool th = false; try { x[i].emplace<0>(n); } catch (std::logic_error&) { th = true; } if (!th) bad("exception of a constructor was lost"); } mi[i] = NP; return true;
        case 14: { if (mi[i] == 1 || mi[i] == NP) return false; g_throwIn = 0; bool th = false; try { V t(x[i]); } catch (std::logic_error&) { th = true; } if (!th) bad("exception of a copy was lost"); return true; }
        case 15: { auto& y = x[i]; y.swap(y); return true; }
        }
        return false;
    }
    template <std::size_t I> void checkGet(int i) {
        bool ok = false, threw = false; int got = 0;
        try { auto& r = x[i].get<I>(); if constexpr (I != 1) got = r.use(); ok = true; } catch (std::runtime_error&) { threw = true; }
        if (ok != (mi[i] == I)) bad("get of a wrong alternative did not throw, or of the right one did");
        if (ok && I != 1 && got != mv[i]) bad("stored value changed");
        ok = false; try { (void)hc::get<I>(std::as_const(x[i])); ok = true; } catch (std::runtime_error&) {}
        if (ok != (mi[i] == I)) bad("const get wrong");
    }
    std::string check() {
        std::size_t want = 0;
        for (int i = 0; i < 2; ++i) {
            if (x[i].index() != mi[i]) return "index of variant " + std::to_string(i) + " is " + std::to_string((long)x[i].index()) + " instead of " + std::to_string((long)mi[i]);
            want += mi[i] == 0 || mi[i] == 2; checkGet<0>(i); checkGet<1>(i); checkGet<2>(i);
            int vis = -5; bool th = false;
            try { vis = hc::visit([](auto&& v) -> int { using T = std::decay_t<decltype(v)>; if constexpr (std::is_same_v<T, A>) return v.use(); else if constexpr (std::is_same_v<T, B>) return v.use() + 1000000; else return -7; }, x[i]); } catch (std::runtime_error&) { th = true; }
            int w = mi[i] == 0 ? mv[i] : mi[i] == 2 ? mv[i] + 1000000 : -7; if (th != (mi[i] == NP) || (!th && vis != w)) return "visit reached the wrong alternative";
        }
        bool eq = mi[0] == mi[1] && (mi[0] == NP || mi[0] == 1 || mv[0] == mv[1]); if ((x[0] == x[1]) != eq || (x[0] != x[1]) == eq) return "equality wrong";
        if (!g_why.empty()) return g_why;
        if (g_live.size() != want) return std::to_string(g_live.size()) + " objects alive instead of " + std::to_string(want);
        return "";
    }
    std::string sig() { return "v" + std::to_string((long)mi[0]) + "." + std::to_string(mv[0]) + "," + std::to_string((long)mi[1]) + "." + std::to_string(mv[1]); }
};
// ---- Try<A> / Try<void> ----
struct RunTry {
    using T = hc::Try<A>; T t[2]; int st[2] = {0, 0}, mv[2] = {0, 0}; int n = 1;      // 0 empty 1 value 2 exception
    static std::exception_ptr ex(int v) { return std::make_exception_ptr(std::runtime_error("e" + std::to_string(v))); }
    static const int N = 20;
    bool step(int op) {
        int i = op & 1, j = 1 - i;
        switch (op / 2) {
        case 0: t[i].setVal(A(n)); st[i] = 1; mv[i] = n++; return true;
        case 1: t[i].setException(ex(n)); st[i] = 2; mv[i] = n++; return true;
        case 2: t[i] = std::move(t[j]); st[i] = st[j]; mv[i] = mv[j]; if (st[j] == 1) mv[j] = -1; else if (st[j] == 2) mv[j] = -3; return true;
        case 3: { T u(std::move(t[i])); T w; w = std::move(u); t[i] = std::move(w); return true; }
        case 4: t[i].reset(); st[i] = 0; return true;
        case 5: { bool th = false; try { A a = t[i].move(); if (st[i] != 1 || a.use() != mv[i]) bad("move() gave a value that was not stored"); mv[i] = -1; } catch (std::runtime_error&) { th = true; } if (th != (st[i] != 1)) bad("move() of an absent value did not throw"); return true; }
        case 6: t[i] = T(A(n)); st[i] = 1; mv[i] = n++; return true;
        case 7: t[i] = T(ex(n)); st[i] = 2; mv[i] = n++; return true;
        case 8: { T u(A{n}); if (!u.isVal() || u.get().use() != n) bad("constructed result wrong"); t[i] = std::move(u); st[i] = 1; mv[i] = n++; return true; }
        case 9: { A a(n); t[i].setVal(a); st[i] = 1; mv[i] = n++; return true; }
        }
        return false;
    }
    std::string check() {
        std::size_t want = 0;
        for (int i = 0; i < 2; ++i) {
            want += st[i] == 1; if (t[i].isVal() != (st[i] == 1) || bool(t[i]) != (st[i] == 1)) return "isVal wrong";
            int r = 0; try { r = t[i].get().use() == mv[i] && std::as_const(t[i]).get().use() == mv[i] ? 1 : -1; } catch (std::runtime_error&) {} if (r != (st[i] == 1)) return "get() wrong";
            if (st[i] == 2 && mv[i] == -3) continue;       // moved-from exception: unspecified
            std::string g; try { t[i].rethrow(); g = "nothing"; } catch (std::exception& e) { g = e.what(); }
            if ((g == "e" + std::to_string(mv[i])) != (st[i] == 2)) return "rethrow() throws \"" + g + "\"";
            if (st[i] == 2 && t[i].what() != "e" + std::to_string(mv[i])) return "what() wrong";
            bool e2 = false; try { e2 = t[i].exception() != nullptr; } catch (std::runtime_error&) {} if (e2 != (st[i] == 2)) return "exception() wrong";
        }
        if (g_live.size() != want) return std::to_string(g_live.size()) + " objects alive instead of " + std::to_string(want);
        return "";
    }
    std::string sig() { return "t" + std::to_string(st[0]) + "." + std::to_string(mv[0]) + "," + std::to_string(st[1]) + "." + std::to_string(mv[1]); }
};
struct RunTryVoid {
    using T = hc::Try<void>; T t[2]; int st[2] = {0, 0}; static const int N = 10;
    bool step(int op) { int i = op & 1, j = 1 - i; switch (op / 2) {
        case 0: t[i].setVal(hc::NonVoidHelper<>{}); st[i] = 1; return true; case 1: t[i].setException(RunTry::ex(1)); st[i] = 2; return true; case 2: t[i] = std::move(t[j]); st[i] = st[j]; return true;
        case 3: t[i].reset(); st[i] = 0; return true; case 4: t[i] = T(hc::NonVoidHelper<>{}); st[i] = 1; return true; } return false; }
    std::string check() { for (int i = 0; i < 2; ++i) { if (t[i].isVal() != (st[i] == 1)) return "isVal wrong"; bool v = true; try { (void)t[i].get(); } catch (std::runtime_error&) { v = false; } if (v != (st[i] == 1)) return "get wrong"; bool e = true; try { (void)t[i].exception(); } catch (std::runtime_error&) { e = false; } if (e != (st[i] == 2)) return "exception wrong"; } return ""; }
    std::string sig() { return "tv" + std::to_string(st[0]) + std::to_string(st[1]); }
};
// ---- MoveOnlyFunctionAny ----
static std::vector<int> g_called;
struct RunFn {
    struct L { A a; std::unique_ptr<int> u; void operator()() { g_called.push_back(a.use() < 0 || !u ? -1 : a.use()); } };
    using F = hc::MoveOnlyFunctionAny<L>; std::unique_ptr<hc::MoveOnlyFunction> f[2]; int m[2] = {0, 0}; int n = 1; std::vector<int> want;
    static const int N = 10; RunFn() { g_called.clear(); }
    bool step(int op) { int i = op & 1, j = 1 - i; switch (op / 2) {
        case 0: f[i] = std::make_unique<F>(L{A(n), std::make_unique<int>(n)}); m[i] = n++; return true;
        case 1: if (!f[i]) return false; f[i]->call(); want.push_back(m[i]); return true;
        case 2: f[i] = std::move(f[j]); m[i] = m[j]; m[j] = 0; return true;
        case 3: f[i].reset(); m[i] = 0; return true;
        case 4: if (!f[i]) return false; { auto& src = static_cast<F&>(*f[i]); f[j] = std::make_unique<F>(std::move(src)); m[j] = m[i]; m[i] = -1; return true; } } return false; }
    std::string check() { std::size_t w = 0; for (int i = 0; i < 2; ++i) { if (bool(f[i]) != (m[i] != 0)) return "emptiness"; w += bool(f[i]); } if (g_called != want) return "a call ran another callable or not exactly once"; if (g_live.size() != w) return std::to_string(g_live.size()) + " callables alive instead of " + std::to_string(w); return ""; }
    std::string sig() { return "f" + std::to_string(m[0]) + "," + std::to_string(m[1]) + "." + std::to_string(want.size()); }
};
static void main_() {
    bool T = mc::thorough();
    explore<RunCell>("cell", T ? 6 : 5); explore<RunVar>("variant", T ? 4 : 3); explore<RunTry>("try", T ? 5 : 4); explore<RunTryVoid>("try-void", T ? 6 : 5); explore<RunFn>("function", T ? 7 : 6);
    mc::run_case("cell-ref", [] { int a = 1, b = 2; hc::Uninitialized<int&> c; MC_CHECK(!c.isAvailable(), "cell-ref", ""); c.set(a); c.get().get() = 5; MC_CHECK(a == 5 && c.isAvailable(), "cell-ref", "reference cell does not refer to the stored object"); c.set(b); MC_CHECK(&c.move().get() == &b && !c.isAvailable(), "cell-ref", "reference cell gives another object");
        hc::Uninitialized<void> v; MC_CHECK(!v.isAvailable(), "cell-void", ""); v.set(hc::NonVoidHelper<>{}); MC_CHECK(v.isAvailable(), "cell-void", ""); v.move(); MC_CHECK(!v.isAvailable(), "cell-void", ""); });
    mc::sample("cell: 7 operations on 2 cells; variant<A,void,B>: 16 operations on 2 variants; Try<A>: 10 operations on 2");
}
}
void mc_main() { vp::main_(); }
