// Common runtime of all harnesses: deterministic enumeration of cases, sharding, replay, reporting.
// A harness defines   void mc_main();   and calls mc::run_case / mc::explore inside it.
#pragma once
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <cstdint>
#include <string>
#include <vector>
#include <set>
#include <map>
#include <unordered_set>
#include <functional>
#include <exception>
#include <fcntl.h>
#include <unistd.h>
#include <signal.h>
#include <sys/mman.h>
#include <sys/time.h>

namespace mc {

struct Shared {                 // mmap'ed file, read by the driver after a crash or hang
    uint64_t idx;               // index of the case being run
    uint64_t executions;        // executions run so far
    uint64_t states;            // harness-defined
    uint64_t transitions;
    uint64_t validated;         // traces/choices replayed against the implementation
    uint64_t done;              // 1: enumeration finished
    uint64_t capped;            // 1: some cap was hit
    char id[2048];
    char detail[14000];
};

struct Global {
    Shared* sh = nullptr;
    int shard = 0, nshards = 1;
    uint64_t start = 0, next = 0;
    std::string only;           // replay exactly this case id
    std::string onlyChoices;    // and these choices
    bool tier_thorough = false;
    FILE* out = nullptr;
    std::unordered_set<uint64_t> outcomes;
    std::vector<std::string> samples;
    std::set<std::string> keys;
    std::map<std::string, uint64_t> counters;
    std::string curGroup, curId;
    int caseFails = 0;
    int hangSecs = 20;
    uint64_t fails = 0;
};
inline Global& G() { static Global g; return g; }
inline bool thorough() { return G().tier_thorough; }

inline uint64_t hash(std::string const& s) {
    uint64_t h = 1469598103934665603ULL;
    for (unsigned char c : s) { h ^= c; h *= 1099511628211ULL; }
    return h;
}
inline void outcome(std::string const& s) { G().outcomes.insert(hash(s)); }
inline void outcome(uint64_t h) { G().outcomes.insert(h); }
inline void count(std::string const& k, uint64_t n = 1) { G().counters[k] += n; }
inline void state(uint64_t n = 1) { G().sh->states += n; }
inline void transition(uint64_t n = 1) { G().sh->transitions += n; }
inline void validated(uint64_t n = 1) { G().sh->validated += n; }
inline void capped(std::string const& what) { G().sh->capped = 1; count("capped:" + what); }
inline void sample(std::string const& s) { if (G().samples.size() < 6) G().samples.push_back(s); }
inline void detail(std::string const& s) {
    std::size_t n = std::min(s.size(), sizeof(G().sh->detail) - 1);
    std::memcpy(G().sh->detail, s.data(), n); G().sh->detail[n] = 0;
}

inline std::string esc(std::string const& s, std::size_t max = 600) {      // printable form
    std::string r; char b[8];
    for (unsigned char c : s) {
        if (r.size() > max) { r += "..(" + std::to_string(s.size()) + " bytes)"; break; }
        if (c == '\\') r += "\\\\"; else if (c == '\r') r += "\\r"; else if (c == '\n') r += "\\n"; else if (c == '\t') r += "\\t";
        else if (c < 32 || c > 126) { std::snprintf(b, 8, "\\x%02x", c); r += b; } else r += (char)c;
    }
    return r;
}
inline std::string jstr(std::string const& s) {
    std::string r = "\""; char b[8];
    for (unsigned char c : s) {
        if (c == '"' || c == '\\') { r += '\\'; r += (char)c; }
        else if (c < 32 || c > 126) { std::snprintf(b, 8, "\\u%04x", c); r += b; } else r += (char)c;
    }
    return r + "\"";
}

// Report that the current case violates the property. `key` names the violated aspect (stable),
// `msg` describes the concrete input/history and what was observed.
inline void fail(std::string const& key, std::string const& msg) {
    auto& g = G(); ++g.caseFails; ++g.fails;
    std::string k = key;
    if (g.keys.count(k) >= 1 && g.only.empty()) { return; }
    g.keys.insert(k);
    std::fprintf(g.out, "{\"t\":\"fail\",\"key\":%s,\"case\":%s,\"idx\":%llu,\"choices\":%s,\"msg\":%s}\n",
        jstr(k).c_str(), jstr(g.curId).c_str(), (unsigned long long)g.sh->idx, jstr(g.sh->detail).c_str(), jstr(msg).c_str());
    std::fflush(g.out);
}
#define MC_CHECK(cond, key, msg) do { if (!(cond)) ::mc::fail(key, msg); } while (0)

inline void arm() { struct itimerval t{}; t.it_value.tv_sec = G().hangSecs; setitimer(ITIMER_PROF, &t, nullptr); }
inline void disarm() { struct itimerval t{}; setitimer(ITIMER_PROF, &t, nullptr); }

// Runs f for the case `id` if it belongs to this shard. Returns true when it ran.
template <class F> bool run_case(std::string const& id, F&& f) {
    auto& g = G(); uint64_t i = g.next++;
    if (!g.only.empty()) { if (id != g.only) return false; }
    else if (i < g.start || int(i % uint64_t(g.nshards)) != g.shard) return false;
    g.curId = id; g.caseFails = 0;
    std::size_t n = std::min(id.size(), sizeof(g.sh->id) - 1);
    std::memcpy(g.sh->id, id.data(), n); g.sh->id[n] = 0; g.sh->detail[0] = 0; g.sh->idx = i;
    ++g.sh->executions;
    arm();
    try { f(); }
    catch (std::exception& e) { fail("unexpected-exception", std::string("uncaught exception: ") + e.what()); }
    catch (std::string const& e) { fail("unexpected-exception", "uncaught string exception: " + e); }
    catch (...) { fail("unexpected-exception", "uncaught exception of unknown type"); }
    disarm();
    return true;
}

// ---- exhaustive exploration of choice sequences (stateless DFS with a deviation bound) ----
struct Chooser {
    std::vector<int> prefix, taken, width, cost, costBefore;
    int devs = 0; int bound = 0;
    bool diverged = false;
    // n alternatives; alternative 0 is the default; taking alternative k>0 costs `w` deviations.
    int choose(int n, int w = 1) {
        std::size_t i = taken.size(); int c = 0;
        if (i < prefix.size()) { c = prefix[i]; if (c >= n) { diverged = true; c = 0; } }
        taken.push_back(c); width.push_back(n); cost.push_back(w); costBefore.push_back(devs);
        if (c > 0) devs += w;
        return c;
    }
    bool affordable(int w = 1) const { return devs + w <= bound; }
    std::string str() const { std::string r; for (int c : taken) { if (!r.empty()) r += ","; r += std::to_string(c); } return r; }
};
inline std::vector<int> parseChoices(std::string const& s) {
    std::vector<int> v; std::size_t i = 0;
    while (i < s.size()) { std::size_t j = s.find(',', i); if (j == std::string::npos) j = s.size();
        if (j > i) v.push_back(std::atoi(s.substr(i, j - i).c_str())); i = j + 1; }
    return v;
}
// Explores every choice sequence of f whose total deviation cost is <= bound. Each execution is one case.
// maxExec caps the executions of this scenario (a hit cap is reported in the evidence).
template <class F> uint64_t explore(std::string const& id, int bound, F&& f, uint64_t maxExec = ~0ULL) {
    uint64_t n = 0;
    run_case(id, [&] {
        std::vector<std::vector<int>> stack;
        auto& g = G();
        if (!g.only.empty() && !g.onlyChoices.empty()) {
            Chooser c; c.prefix = parseChoices(g.onlyChoices == "-" ? "" : g.onlyChoices); c.bound = bound;
            detail(g.onlyChoices); f(c); return;
        }
        stack.push_back({});
        while (!stack.empty()) {
            if (n >= maxExec) { capped(id); break; }
            Chooser c; c.prefix = std::move(stack.back()); stack.pop_back(); c.bound = bound;
            std::size_t plen = c.prefix.size();
            { std::string d; for (int x : c.prefix) { if (!d.empty()) d += ","; d += std::to_string(x); } detail(d.empty() ? "-" : d); }
            arm();
            f(c);
            ++n; ++g.sh->executions; g.sh->transitions += c.taken.size();
            if (c.diverged) fail("replay-divergence", "non-deterministic execution: prefix no longer replayable");
            if (g.caseFails > 3) break;
            for (std::size_t i = c.taken.size(); i-- > plen;) {
                if (c.costBefore[i] + c.cost[i] > bound) continue;
                for (int alt = c.width[i] - 1; alt >= 1; --alt) {
                    std::vector<int> p(c.taken.begin(), c.taken.begin() + i); p.push_back(alt);
                    stack.push_back(std::move(p));
                }
            }
        }
        --g.sh->executions;
    });
    return n;
}

// The same exploration inside a running case (a replay of the case explores it again).
template <class F> uint64_t sub_explore(std::string const& desc, int bound, F&& f, uint64_t maxExec = ~0ULL) {
    uint64_t n = 0; auto& g = G(); std::vector<std::vector<int>> stack; stack.push_back({}); int before = g.caseFails;
    while (!stack.empty()) {
        if (n >= maxExec) { capped(g.curId + " " + desc); break; }
        Chooser c; c.prefix = std::move(stack.back()); stack.pop_back(); c.bound = bound;
        std::size_t plen = c.prefix.size();
        { std::string d = desc + " choices "; for (std::size_t i = 0; i < plen; ++i) d += (i ? "," : "") + std::to_string(c.prefix[i]); detail(d); }
        arm();
        f(c);
        ++n; ++g.sh->executions; g.sh->transitions += c.taken.size();
        if (c.diverged) fail("replay-divergence", "non-deterministic execution: prefix no longer replayable");
        if (g.caseFails > before + 3) break;
        for (std::size_t i = c.taken.size(); i-- > plen;) {
            if (c.costBefore[i] + c.cost[i] > bound) continue;
            for (int alt = c.width[i] - 1; alt >= 1; --alt) { std::vector<int> p(c.taken.begin(), c.taken.begin() + i); p.push_back(alt); stack.push_back(std::move(p)); }
        }
    }
    return n;
}

inline void hangHandler(int) { _exit(99); }

} // namespace mc

void mc_main();

#ifndef MC_NO_MAIN
int main(int argc, char** argv) {
    auto& g = mc::G();
    std::string cur = "/dev/null", out;
    for (int i = 1; i < argc; ++i) {
        std::string a = argv[i];
        auto val = [&] { return std::string(argv[++i]); };
        if (a == "--shard") { auto v = val(); std::sscanf(v.c_str(), "%d/%d", &g.shard, &g.nshards); }
        else if (a == "--start") g.start = std::strtoull(val().c_str(), nullptr, 10);
        else if (a == "--only") g.only = val();
        else if (a == "--choices") g.onlyChoices = val();
        else if (a == "--cur") cur = val();
        else if (a == "--out") out = val();
        else if (a == "--thorough") g.tier_thorough = true;
        else if (a == "--hang") g.hangSecs = std::atoi(val().c_str());
    }
    int fd = cur == "/dev/null" ? -1 : ::open(cur.c_str(), O_RDWR | O_CREAT, 0644);
    if (fd >= 0) { if (::ftruncate(fd, sizeof(mc::Shared))) return 3; }
    void* p = ::mmap(nullptr, sizeof(mc::Shared), PROT_READ | PROT_WRITE, fd >= 0 ? MAP_SHARED : (MAP_PRIVATE | MAP_ANONYMOUS), fd, 0);
    if (p == MAP_FAILED) return 3;
    g.sh = static_cast<mc::Shared*>(p);
    g.out = out.empty() ? stdout : std::fopen(out.c_str(), "a");
    ::signal(SIGPROF, mc::hangHandler);
    ::signal(SIGPIPE, SIG_IGN);
    mc_main();
    mc::disarm();
    std::fprintf(g.out, "{\"t\":\"end\",\"execs\":%llu,\"cases\":%llu,\"fails\":%llu,\"outcomes\":%zu,\"counters\":{", (unsigned long long)g.sh->executions, (unsigned long long)g.next, (unsigned long long)g.fails, g.outcomes.size());
    bool first = true;
    for (auto& [k, v] : g.counters) { std::fprintf(g.out, "%s%s:%llu", first ? "" : ",", mc::jstr(k).c_str(), (unsigned long long)v); first = false; }
    std::fprintf(g.out, "},\"samples\":[");
    first = true;
    for (auto& s : g.samples) { std::fprintf(g.out, "%s%s", first ? "" : ",", mc::jstr(s).c_str()); first = false; }
    std::fprintf(g.out, "]}\n");
    std::fflush(g.out);
    if (!out.empty()) {
        FILE* o = std::fopen((out + ".oc").c_str(), "ab");
        for (auto h : g.outcomes) std::fwrite(&h, 8, 1, o);
        std::fclose(o);
    }
    g.sh->done = 1;
    std::fflush(stdout);
    std::_Exit(0);      // leftovers of abandoned executions are not torn down
}
#endif
