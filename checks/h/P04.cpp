// P04: concurrent operations on the SafeQueue are linearizable to a FIFO queue, without data races.
#include <mcsched.hpp>
#include <HXLibs/container/SafeQueue.hpp>
#include <memory>
#include <thread>
#include <deque>
#include <array>

namespace vp {

struct Item {       // wide enough to be torn; move-only
    std::unique_ptr<int> p; long a, b, c;
    explicit Item(int v) : p(std::make_unique<int>(v)), a(v), b(v), c(v) {}
    int value() const { return p && *p == a && a == b && b == c ? *p : -999; }
};
enum Op { Push, Pop, PopOnly, Size, Empty };
char const* NAME = "ufpse";
struct Rec { int thr, op, arg, res; long call, ret; };

// Does some total order, consistent with real-time order, make every recorded result right for a FIFO queue?
bool lin(std::vector<Rec> const& h, unsigned done, std::deque<int> const& q) {
    if (done == (1u << h.size()) - 1) return true;
    for (std::size_t i = 0; i < h.size(); ++i) {
        if (done >> i & 1) continue;
        bool ok = true;
        for (std::size_t j = 0; j < h.size() && ok; ++j) if (!(done >> j & 1) && j != i && h[j].ret < h[i].call) ok = false;
        if (!ok) continue;
        auto n = q;
        switch (h[i].op) {
            case Push: n.push_back(h[i].arg); break;
            case Pop: if (n.empty() || n.front() != h[i].res) continue; n.pop_front(); break;
            case PopOnly: if (n.empty()) continue; n.pop_front(); break;
            case Size: if ((int)n.size() != h[i].res) continue; break;
            case Empty: if ((int)n.empty() != h[i].res) continue; break;
        }
        if (lin(h, done | 1u << i, n)) return true;
    }
    return false;
}

struct Prog { std::vector<std::vector<int>> ops; int prefill; };
std::string name(Prog const& p) { std::string r = "pre" + std::to_string(p.prefill); for (auto& t : p.ops) { r += "/"; for (int o : t) r += NAME[o]; } return r; }

void body(Prog const& p) {
    std::vector<Rec> hist; long clock = 0;
    std::vector<int> left;
    {
        HX::container::SafeQueue<Item> q;
        std::deque<int> init;
        for (int i = 0; i < p.prefill; ++i) q.emplace(i + 1), init.push_back(i + 1);
        auto run = [&](int t) {
            int k = 0;
            for (int o : p.ops[t]) {
                Rec r{t, o, (t + 1) * 10 + k++, 0, 0, 0};
                { sched::Ignore _; r.call = ++clock; }
                switch (o) {
                    case Push: q.emplace(r.arg); break;
                    case Pop: { Item it = q.frontAndPop(); sched::Ignore _; r.res = it.value(); break; }
                    case PopOnly: q.pop(); break;
                    case Size: r.res = (int)q.size(); break;
                    case Empty: r.res = (int)q.empty(); break;
                }
                { sched::Ignore _; r.ret = ++clock; hist.push_back(r); }
            }
        };
        std::vector<std::thread> th;
        for (std::size_t t = 1; t < p.ops.size(); ++t) th.emplace_back(run, (int)t);
        run(0);
        for (auto& t : th) t.join();
        // drain what is left: part of the history, after everything else
        int n = (int)q.size();
        hist.push_back({9, Size, 0, n, clock + 1, clock + 2}); clock += 2;
        for (int i = 0; i < n; ++i) { Item it = q.frontAndPop(); hist.push_back({9, Pop, 0, it.value(), clock + 1, clock + 2}); clock += 2; }
        std::string s; for (auto& r : hist) s += std::string(" T") + std::to_string(r.thr) + "." + NAME[r.op] + (r.op == Push ? std::to_string(r.arg) : "=" + std::to_string(r.res));
        sched::Ignore ig; mc::outcome(name(p) + s);
        sched::check(lin(hist, 0, init), "not-linearizable", "program " + name(p) + " (u push, f frontAndPop, p pop, s size, e empty): no FIFO order explains" + s);
        mc::validated();
    }
}

void progs(int nt, int len, int popsMax) {      // every program of nt threads with exactly len operations each
    int total = nt * len; long all = 1; for (int i = 0; i < total; ++i) all *= 5;
    for (long x = 0; x < all; ++x) {
        Prog p; p.ops.resize(nt); long y = x; int pops = 0;
        for (int t = 0; t < nt; ++t) for (int i = 0; i < len; ++i) { int o = y % 5; y /= 5; p.ops[t].push_back(o); if (o == Pop || o == PopOnly) ++pops; }
        bool sorted = true; for (int t = 1; t < nt && sorted; ++t) if (p.ops[t] < p.ops[t - 1]) sorted = false;     // thread symmetry
        if (!sorted || pops > popsMax) continue;
        for (int extra = 0; extra <= 1; ++extra) {
            // enough elements that no pop can ever meet an empty queue
            p.prefill = pops + extra; if (extra && pops == total) continue;
            sched::Options o; o.leakCheck = false;
            sched::explore(name(p), 1000, [&] { body(p); }, o);
        }
    }
}
} // namespace vp

void mc_main() {
    using namespace vp;
    progs(2, 1, 9); progs(2, 2, 9); progs(3, 1, 9);
    progs(2, mc::thorough() ? 3 : 2, 9);
    if (mc::thorough()) progs(3, 2, 9);
}
