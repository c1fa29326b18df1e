// P33: CoSharedPtr against std::shared_ptr-style ownership, every operation sequence up to a depth.
#include <mc.hpp>
#include <HXLibs/container/CoSharedPtr.hpp>
#include <set>
namespace vp {
struct Node;
static std::set<const Node*> g_live; static long g_bad = 0; static std::string g_why; static std::map<int, int> g_alive;   // live instances per value (temporaries included)
static void bad(const char* w) { ++g_bad; if (g_why.empty()) g_why = w; }
using P = HX::container::CoSharedPtr<Node>;
struct alignas(32) Node {
    int v; P next; char pad[3];
    explicit Node(int x) : v(x) { reg(); }
    Node(Node&& o) : v(o.v), next(std::move(o.next)) { reg(); }
    Node(Node const&) = delete;
    void reg() { if (reinterpret_cast<std::uintptr_t>(this) % 32) bad("object misaligned"); if (!g_live.insert(this).second) bad("constructed over a live object"); ++g_alive[v]; }
    ~Node() { if (!g_live.erase(this)) bad("destroyed twice or never constructed"); else --g_alive[v]; }
};
// reference: objects numbered; ref[slot] = object or -1; nxt[object] = object or -1
struct Model {
    static const int S = 3; int ref[S] = {-1, -1, -1}; std::vector<int> nxt; std::vector<int> val; 
    int uses(int o) const { int n = 0; for (int r : ref) n += r == o; for (std::size_t i = 0; i < nxt.size(); ++i) if (aliveObj(i)) n += nxt[i] == o; return n; }
    bool aliveObj(int o) const { return reach.count(o); }
    std::set<int> reach;
    void compute() { reach.clear(); std::vector<int> st; for (int r : ref) if (r >= 0) st.push_back(r); while (!st.empty()) { int o = st.back(); st.pop_back(); if (!reach.insert(o).second) continue; if (nxt[o] >= 0) st.push_back(nxt[o]); } }
    bool reaches(int from, int to) const { for (; from >= 0; from = nxt[from]) if (from == to) return true; return false; }
};
static std::string opName(int op);
struct Run {
    P p[3]; Model m; int nextv = 1;
    bool step(int op) {      // false: operation not applicable in this state
        int k = op;
        auto fresh = [&](int i) { m.ref[i] = (int)m.nxt.size(); m.nxt.push_back(-1); m.val.push_back(nextv++); };
        if (k < 3) { p[k] = HX::container::makeCoSharedPtr<Node>(nextv); fresh(k); return true; } k -= 3;
        if (k < 3) { p[k] = P(Node(nextv)); fresh(k); return true; } k -= 3;
        if (k < 3) { p[k].reset(Node(nextv)); fresh(k); return true; } k -= 3;
        if (k < 3) { p[k] = nullptr; m.ref[k] = -1; return true; } k -= 3;
        if (k < 9) { int i = k / 3, j = k % 3; p[i] = p[j]; m.ref[i] = m.ref[j]; return true; } k -= 9;
        if (k < 9) { int i = k / 3, j = k % 3; auto& s = p[j]; p[i] = std::move(s); int r = m.ref[j]; if (i != j) m.ref[j] = -1; m.ref[i] = r; return true; } k -= 9;
        if (k < 6) { int i = k < 3 ? 0 : k < 5 ? 1 : 2, j = k < 3 ? k : k < 5 ? k - 2 : 2; p[i].swap(p[j]); std::swap(m.ref[i], m.ref[j]); return true; } k -= 6;
        if (k < 3) { P t(p[k]); P u(std::move(t)); P w; w = u; if (u.useCount() != (m.ref[k] >= 0 ? m.uses(m.ref[k]) + 2 : 0)) bad("owner count wrong while temporaries exist"); if (t) bad("moved-from pointer still owns"); return true; } k -= 3;
        if (k < 3) { if (m.ref[k] < 0) return false; p[k] = p[k]->next; m.ref[k] = m.nxt[m.ref[k]]; return true; } k -= 3;
        if (k < 3) { if (m.ref[k] < 0) return false; p[k] = std::move(p[k]->next); int o = m.ref[k]; m.ref[k] = m.nxt[o]; m.nxt[o] = -1; return true; } k -= 3;
        if (k < 6) { int i = k / 2, j = (i + 1 + k % 2) % 3; if (m.ref[i] < 0 || m.reaches(m.ref[j], m.ref[i])) return false; p[i]->next = p[j]; m.nxt[m.ref[i]] = m.ref[j]; return true; } k -= 6;
        return false;
    }
    static const int N = 3 * 4 + 9 + 9 + 6 + 3 + 3 + 3 + 6;
    std::string check() {
        m.compute();
        if (!g_why.empty()) return g_why;
        for (int i = 0; i < 3; ++i) {
            int o = m.ref[i];
            if (bool(p[i]) != (o >= 0)) return "pointer " + std::to_string(i) + " emptiness wrong";
            if (p[i].useCount() != (o >= 0 ? (std::size_t)m.uses(o) : 0)) return "owner count of pointer " + std::to_string(i) + " is " + std::to_string(p[i].useCount()) + " instead of " + std::to_string(o >= 0 ? m.uses(o) : 0);
            if (o >= 0) { if (p[i].get() != p[i].operator->() || &*p[i] != p[i].get() || std::as_const(p[i]).get() != p[i].get()) return "accessors disagree"; if (!g_live.count(p[i].get())) return "pointer " + std::to_string(i) + " refers to a destroyed object"; if (p[i]->v != m.val[o]) return "pointer " + std::to_string(i) + " refers to another object"; }
            else if (p[i].get() != nullptr) return "empty pointer has an object";
            for (int j = 0; j < 3; ++j) if ((p[i] == p[j]) != (m.ref[i] == m.ref[j]) || (p[i] != p[j]) == (m.ref[i] == m.ref[j])) return "equality of pointers wrong";
        }
        for (std::size_t o = 0; o < m.val.size(); ++o) if ((g_alive[m.val[o]] == 1) != m.aliveObj((int)o) || g_alive[m.val[o]] > 1) return "object " + std::to_string(o) + (m.aliveObj((int)o) ? " destroyed while owned" : " not destroyed although no pointer owns it");
        return "";
    }
};
static void main_() {
    int D = mc::thorough() ? 5 : 4, N = Run::N;
    for (int a = 0; a < N; ++a) for (int b = 0; b < N; ++b) mc::run_case("ops/" + std::to_string(a) + "," + std::to_string(b), [&] {
        std::vector<int> seq(D, 0); seq[0] = a; seq[1] = b;
        std::function<void(int)> rec = [&](int k) {
            if (k < D) { for (int o = 0; o < N; ++o) { seq[k] = o; rec(k + 1); } return; }
            g_live.clear(); g_alive.clear(); g_bad = 0; g_why.clear(); std::string err; int at = 0;
            {
                Run r;
                for (int i = 0; i < D && err.empty(); ++i) { if (!r.step(seq[i])) return; mc::transition(); err = r.check(); at = i; }
                mc::state();
                std::string sig; for (int i = 0; i < 3; ++i) sig += std::to_string(r.m.ref[i]) + ","; for (int x : r.m.nxt) sig += std::to_string(x) + ";"; mc::outcome(sig);
            }
            if (err.empty() && (!g_live.empty() || !g_why.empty())) { err = g_why.empty() ? "objects left after every pointer was destroyed" : g_why; at = D; }
            if (!err.empty()) { std::string s; for (int o : seq) s += std::to_string(o) + " "; mc::fail("ownership", "operations [" + s + "], after step " + std::to_string(at) + ": " + err); }
        };
        rec(2);
    });
    mc::sample("operations: 3 make, 3 construct, 3 reset, 3 null, 9 copy-assign, 9 move-assign, 6 swap, 3 temporaries, 3 advance by copy, 3 advance by move, 6 link");
}
}
void mc_main() { vp::main_(); }
