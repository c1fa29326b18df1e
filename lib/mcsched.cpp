// Runtime of engine A; see mcsched.hpp. Compiled without instrumentation.
#define MC_NO_MAIN
#include "mcsched.hpp"
#include <cxxabi.h>
#include <dlfcn.h>
#include <errno.h>
#include <malloc.h>
#include <new>
#include <pthread.h>
#include <sched.h>
#include <sys/single_threaded.h>
#include <time.h>
#include <algorithm>
#include <array>

namespace {
#ifndef MCS_MAXT
#define MCS_MAXT 8
#endif
constexpr int MAXT = MCS_MAXT;             // at most 32
constexpr std::size_t STK = 256 * 1024;
using Clk = uint32_t;
struct VC { Clk c[MAXT]{}; void join(VC const& o) { for (int i = 0; i < MAXT; ++i) if (o.c[i] > c[i]) c[i] = o.c[i]; } };

struct EhGlobals { void* caught; unsigned uncaught; };

enum class St { Free, Run, Blocked, Done };
struct Fiber {
    St st = St::Free; int id = 0; void* sp = nullptr; char* stk = nullptr;
    void* (*fn)(void*) = nullptr; void* arg = nullptr;
    EhGlobals eh{}; VC vc, vcAcq, vcRel; bool hasRel = false;
    bool joined = false, detached = false;
    std::function<bool()> ready; char const* what = ""; void* obj = nullptr;
    bool timed = false; uint64_t deadline = 0; bool timedOut = false;
    bool signalled = false;
    char const* last = ""; int ignore = 0;
};
struct Obj {                        // mutex / rwlock / condvar / atomic location / stand-in
    int owner = -1; int readers = 0; uint32_t readMask = 0; VC vc; VC rvc; std::vector<int> waiters; int recursion = 0;
};

struct Driver { void* sp = nullptr; EhGlobals eh{}; } drv;
Fiber F[MAXT]; int nF = 0, cur = -1;
bool g_active = false; bool g_rt = false;
mc::Chooser* ch = nullptr; sched::Options opt;
std::unordered_map<void*, Obj>* objs = nullptr;
uint64_t now_, steps, idleWakes; bool failed_;
std::string* trace_ = nullptr;
std::vector<std::pair<uintptr_t, uintptr_t>>* quiets = nullptr;
char* arena = nullptr;
std::function<void()> const* body_ = nullptr;

// ---- real functions ----
template <class T> T real(char const* n) { static_assert(sizeof(T) == sizeof(void*)); return (T)dlsym(RTLD_NEXT, n); }

struct Rt { bool old; Rt() : old(g_rt) { g_rt = true; } ~Rt() { g_rt = old; } };

// ---- context switch ----
extern "C" void mcs_switch(void** save, void* to);
asm(R"(
.text
.globl mcs_switch
.type mcs_switch,@function
mcs_switch:
    pushq %rbp
    pushq %rbx
    pushq %r12
    pushq %r13
    pushq %r14
    pushq %r15
    movq %rsp, (%rdi)
    movq %rsi, %rsp
    popq %r15
    popq %r14
    popq %r13
    popq %r12
    popq %rbx
    popq %rbp
    ret
.size mcs_switch,.-mcs_switch
)");
EhGlobals* ehp() { return reinterpret_cast<EhGlobals*>(abi::__cxa_get_globals()); }

void toDriver() {
    int me = cur; F[me].eh = *ehp(); *ehp() = drv.eh; cur = -1;
    mcs_switch(&F[me].sp, drv.sp);
}
void switchTo(int t) {              // from a fiber to another fiber
    if (t == cur) return;
    int me = cur; F[me].eh = *ehp(); cur = t; *ehp() = F[t].eh;
    mcs_switch(&F[me].sp, F[t].sp);
}
void schedule(bool curCanRun, char const* what);
[[noreturn]] void fiberMain();

std::string threadsState() {
    std::string r;
    for (int i = 0; i < nF; ++i) {
        auto& f = F[i]; r += " T" + std::to_string(i) + ":";
        if (f.st == St::Done) r += "finished"; else if (f.st == St::Blocked) r += std::string("waiting(") + f.what + ")"; else r += std::string("runnable(") + f.last + ")";
    }
    return r;
}
std::string symbolize(void* pc) {
    Dl_info di{}; if (!dladdr(pc, &di)) return "?";
    char cmd[512]; std::snprintf(cmd, sizeof cmd, "addr2line -Cfpe %s %p 2>/dev/null", di.dli_fname, (void*)((char*)pc - (char*)di.dli_fbase - 1));
    std::string out; if (FILE* p = ::popen(cmd, "r")) { char b[400]; while (std::fgets(b, sizeof b, p)) out += b; ::pclose(p); }
    while (!out.empty() && out.back() == '\n') out.pop_back();
    if (out.size() > 300) { auto at = out.rfind(" at "); out = out.substr(0, 120) + ".." + (at == std::string::npos ? "" : out.substr(at)); }
    return out;
}
[[noreturn]] void doFail(std::string const& key, std::string const& msg) {
    g_rt = true; failed_ = true;
    if (mc::G().keys.count(key) == 0 || !mc::G().only.empty()) {
        std::string t = *trace_; if (t.size() > 1500) t = ".." + t.substr(t.size() - 1500);
        mc::detail(ch->str().empty() ? "-" : ch->str());
        mc::fail(key, msg + " | threads:" + threadsState() + " | schedule: " + t);
    } else mc::fail(key, msg);
    toDriver(); __builtin_unreachable();
}

// ---- shadow memory ----
struct Acc { Clk r, w; uint8_t rm, wm, ra, wa; };
struct Cell { uintptr_t key; uint32_t gen; bool freed; int8_t freeTid, nt; Acc a[MAXT]; };
struct Pcs { void* w[MAXT]; void* r[MAXT]; void* f; };
constexpr std::size_t NC = 1 << 16;
Cell* cells = nullptr; Pcs* pcs = nullptr; uint32_t gen_ = 0; std::size_t used = 0;
inline Cell* cell(uintptr_t g) {
    std::size_t h = (g * 0x9E3779B97F4A7C15ULL) >> 47;
    for (;;) {
        Cell& c = cells[h & (NC - 1)];
        if (c.gen != gen_) { if (++used > NC / 2) return nullptr; c.gen = gen_; c.key = g; c.freed = false; c.nt = 0; return &c; }
        if (c.key == g) return &c;
        ++h;
    }
}
inline void need(Cell* c, int t) { while (c->nt <= t) c->a[c->nt++] = Acc{}; }
void forget(uintptr_t p, std::size_t n) {      // the block goes back to malloc: what happens there later is another object
    for (uintptr_t g = p >> 3; g <= (p + n - 1) >> 3; ++g)
        for (std::size_t h = (g * 0x9E3779B97F4A7C15ULL) >> 47;; ++h) { Cell& c = cells[h & (NC - 1)]; if (c.gen != gen_) break; if (c.key == g) { c.nt = 0; c.freed = false; break; } }
}
void access(uintptr_t p, std::size_t n, bool wr, bool atomic, void* pc) {
    if (!opt.raceCheck || !n) return;
    if (p == (uintptr_t)&errno) return;         // all fibers share the thread's own

    if (p >= (uintptr_t)arena && p < (uintptr_t)arena + STK * MAXT) {
        int o = int((p - (uintptr_t)arena) / STK);
        if (o == cur) { /* own stack */ }
        else if (o >= nF || F[o].st == St::Done) doFail("use-after-return", "T" + std::to_string(cur) + " touches the stack of a finished thread T" + std::to_string(o) + " at " + symbolize(pc));
        else if (p < (uintptr_t)F[o].sp) doFail("use-after-return", "T" + std::to_string(cur) + " touches a stack frame of T" + std::to_string(o) + " that has already returned, at " + symbolize(pc));
    }
    uintptr_t g = p >> 3, ge = (p + n - 1) >> 3; auto& me = F[cur]; Clk const k = me.vc.c[cur];
    for (; g <= ge; ++g) {
        uintptr_t lo = std::max<uintptr_t>(p, g << 3), hi = std::min<uintptr_t>(p + n, (g << 3) + 8);
        uint8_t m = uint8_t(((1u << (hi - lo)) - 1) << (lo & 7));
        Cell* c = cell(g); if (!c) return;
        if (c->freed) doFail("use-after-free", "T" + std::to_string(cur) + (wr ? " writes" : " reads") + " freed memory at " + symbolize(pc) + "; freed by T" + std::to_string(c->freeTid) + " at " + symbolize(pcs[c - cells].f));
        need(c, cur);
        {   // already accessed this way since this thread's last release: any conflict was or will be noticed elsewhere
            Acc& a = c->a[cur];
            if (wr ? (a.w == k && a.wa == atomic && (a.wm & m) == m) : (a.r == k && a.ra == atomic && (a.rm & m) == m)) continue;
        }
        for (int t = 0; t < c->nt; ++t) {
            if (t == cur) continue;
            Acc& a = c->a[t];
            bool rw = (a.wm & m) && a.w > me.vc.c[t] && !(atomic && a.wa);
            bool rr = wr && (a.rm & m) && a.r > me.vc.c[t] && !(atomic && a.ra);
            if (rw || rr) doFail("data-race", "T" + std::to_string(cur) + (wr ? " writes" : " reads") + (atomic ? " (atomically) " : " ") + std::to_string(n) + " bytes at " + symbolize(pc) + " unordered with the " + (rw ? "write" : "read") + " by T" + std::to_string(t) + " at " + symbolize(rw ? pcs[c - cells].w[t] : pcs[c - cells].r[t]));
        }
        Acc& a = c->a[cur];
        if (wr) { if (a.w == k && a.wa == atomic) a.wm |= m; else a.wm = m; a.w = k; a.wa = atomic; pcs[c - cells].w[cur] = pc; }
        else { if (a.r == k && a.ra == atomic) a.rm |= m; else a.rm = m; a.r = k; a.ra = atomic; pcs[c - cells].r[cur] = pc; }
    }
}
inline bool on() { return g_active && !g_rt && cur >= 0; }
inline bool tracked() { return on() && !F[cur].ignore; }

Obj& obj(void const* p) { return (*objs)[const_cast<void*>(p)]; }

// ---- heap ----
struct Hdr { std::size_t size; Hdr* next; uint32_t magic; uint32_t gen; bool counted; char pad[7]; };
static_assert(sizeof(Hdr) == 32);
Hdr* quarantine = nullptr; int64_t liveBlocks = 0;
void* doNew(std::size_t n) {
    Hdr* h = (Hdr*)std::malloc(n + sizeof(Hdr)); if (!h) throw std::bad_alloc{};
    h->size = n; h->magic = 0x51ab0c5; h->gen = 0; h->counted = false;
    if (on()) { h->gen = gen_; if (tracked()) { h->counted = true; ++liveBlocks; } }
    return h + 1;
}
void doDelete(void* p, void* pc) {
    if (!p) return;
    Hdr* h = (Hdr*)p - 1;
    if (h->magic == 0xdeadf00d) { if (tracked()) doFail("double-free", "freed twice, second time at " + symbolize(pc)); std::abort(); }
    if (h->magic != 0x51ab0c5) { if (tracked()) doFail("bad-free", "freeing memory that was not allocated, at " + symbolize(pc)); std::abort(); }
    if (!tracked() && h->gen != gen_) { h->magic = 0; std::free(h); return; }
    Rt _;
    if (h->counted) { h->counted = false; if (h->gen == gen_) --liveBlocks; }
    if (g_active && cur >= 0 && !F[cur].ignore) {
        access((uintptr_t)p, h->size, true, false, pc);
        for (uintptr_t g = (uintptr_t)p >> 3; g < ((uintptr_t)p + h->size + 7) >> 3; ++g) if (Cell* c = cell(g)) { c->freed = true; pcs[c - cells].f = pc; c->freeTid = cur; }
        for (auto it = objs->begin(); it != objs->end();) {
            if (it->first >= p && it->first < (char*)p + h->size) {
                if (!it->second.waiters.empty()) doFail("destroyed-in-use", "a condition variable with waiting threads is freed at " + symbolize(pc));
                if (it->second.owner >= 0) doFail("destroyed-in-use", "a locked mutex is freed at " + symbolize(pc));
                it = objs->erase(it);
            } else ++it;
        }
    }
    h->magic = 0xdeadf00d; h->next = quarantine; quarantine = h;
}

// ---- scheduling ----
void tickVC() { ++F[cur].vc.c[cur]; }
void schedule(bool curCanRun, char const* what) {
    Rt _;
    if (++steps > opt.maxSteps) doFail("livelock", "no end after " + std::to_string(steps) + " scheduling points");
    int cand[MAXT * 2], n = 0;
    for (;;) {
        n = 0;
        if (curCanRun) cand[n++] = cur;
        for (int i = 0; i < nF; ++i) {
            if (i == cur && curCanRun) continue;
            auto& f = F[i];
            if (f.st == St::Run && i != cur) cand[n++] = i;
            else if (f.st == St::Blocked && f.ready && f.ready()) cand[n++] = i;
        }
        int nReady = n; uint64_t best = ~0ULL;
        for (int i = 0; i < nF; ++i) { auto& f = F[i]; if (f.st == St::Blocked && f.timed && !(f.ready && f.ready())) best = std::min(best, f.deadline); }
        int nSleep = 0;
        if (best != ~0ULL && nReady > 0 && best > now_ && best - now_ > opt.maxDelay) best = ~0ULL;
        for (int i = 0; i < nF; ++i) { auto& f = F[i]; if (f.st == St::Blocked && f.timed && best != ~0ULL && f.deadline == best && !(f.ready && f.ready())) { cand[n++] = i; ++nSleep; } }
        if (n == 0) {
            bool all = true; for (int i = 0; i < nF; ++i) if (F[i].st != St::Done) all = false;
            if (all) { toDriver(); return; }
            doFail("deadlock", "every remaining thread waits for ever");
        }
        int k;
        if (curCanRun || nReady > 0) {
            
            if (curCanRun) k = n > 1 ? ch->choose(n, 1) : 0;
            else {      // forced switch: ready threads are free choices, letting time pass costs one
                k = 0;
                if (nReady > 1) k = ch->choose(nReady, opt.forcedCost);
                if (nSleep && k == 0) { int s = ch->choose(nSleep + 1, 1); if (s) k = nReady + s - 1; }
            }
        } else {
            if (++idleWakes > 40) doFail("deadlock", "threads wait for ever while only timers keep firing");
            k = n > 1 ? ch->choose(n, opt.forcedCost) : 0;
        }
        int t = cand[k]; auto& f = F[t];
        if ((f.st == St::Blocked && f.ready && f.ready()) || (t != cur && f.st == St::Run)) idleWakes = 0;      // somebody other than a timer goes on
        if (f.st == St::Blocked) {
            bool rdy = f.ready && f.ready();
            f.timedOut = !rdy;
            if (!rdy && f.timed) now_ = std::max(now_, f.deadline);
            f.st = St::Run; f.ready = nullptr; f.timed = false;
        }
        if (t != cur) { *trace_ += " ->T" + std::to_string(t); if (trace_->size() > 20000) trace_->erase(0, 10000); }
        F[t].last = F[t].last;
        switchTo(t);
        return;
    }
}
void pt(char const* what) {
    if (F[cur].ignore) return;
    F[cur].last = what;
    { Rt _; if (trace_->size() < 60000) { *trace_ += ' '; *trace_ += what; } }
    schedule(true, what);
}
void blockOn(std::function<bool()> ready, char const* what, bool timed = false, uint64_t deadline = 0) {
    Rt _; auto& f = F[cur]; f.st = St::Blocked; f.ready = std::move(ready); f.what = what; f.timed = timed; f.deadline = deadline; f.timedOut = false;
    schedule(false, what);
}
void fiberMain() {
    g_rt = false;
    int me = cur;
    if (me == 0) { (*body_)(); }
    else F[me].fn(F[me].arg);
    g_rt = true;
    F[me].st = St::Done; ++F[me].vc.c[me];
    if (me == 0) {
        for (int i = 1; i < nF; ++i) {
            if (F[i].st != St::Done && !F[i].detached) doFail("thread-left-behind", "thread T" + std::to_string(i) + " still exists after everything was destroyed");
            if (F[i].st == St::Done && !F[i].joined && !F[i].detached) doFail("thread-not-joined", "thread T" + std::to_string(i) + " was never joined");
        }
        bool more = false; for (int i = 1; i < nF; ++i) if (F[i].st != St::Done) more = true;
        if (!more) { toDriver(); }
    }
    schedule(false, "exit");
    __builtin_unreachable();
}
void initFiber(int i) {
    auto& f = F[i]; f = Fiber{}; f.id = i; f.stk = arena + STK * i; f.st = St::Run; f.vc.c[i] = 1;
    void** sp = (void**)(f.stk + STK - 64);
    *--sp = nullptr;                    // fake return address, keeps the stack 16-byte aligned at entry
    *--sp = (void*)&fiberMain;
    for (int k = 0; k < 6; ++k) *--sp = nullptr;
    f.sp = sp;
}
void onTerminate() {
    if (g_active && cur >= 0) {
        std::string w = "std::terminate called";
        if (auto e = std::current_exception()) { try { std::rethrow_exception(e); } catch (std::exception& x) { w += std::string(": ") + x.what(); } catch (...) { w += ": unknown exception"; } }
        doFail("terminate", w);
    }
    std::abort();
}
void lockMutex(void* m, bool tryOnly, int& rc) {
    Rt _;
    if (obj(m).owner == cur) { if (tryOnly) { rc = EBUSY; return; } doFail("deadlock", "a thread locks a mutex it already holds"); }
    while (obj(m).owner >= 0 || obj(m).readers > 0) {
        if (tryOnly) { rc = EBUSY; return; }
        blockOn([m] { auto& o = obj(m); return o.owner < 0 && o.readers == 0; }, "mutex");
    }
    auto& o = obj(m); o.owner = cur; F[cur].vc.join(o.vc); F[cur].vc.join(o.rvc); rc = 0;
}
void freedCheck(void* p, std::size_t n, void* pc) { if (F[cur].ignore) return; Rt _; access((uintptr_t)p, n, true, true, pc); }
} // namespace

namespace sched {
bool active() { return g_active; }
int tid() { return cur; }
int threadsAlive() { int n = 0; for (int i = 1; i < nF; ++i) if (F[i].st != St::Done) ++n; return n; }
uint64_t nowNs() { return now_; }
void fail(std::string const& k, std::string const& m) { doFail(k, m); }
void block(std::function<bool()> const& r, char const* what) { if (!on()) return; pt(what); Rt _; if (!r()) blockOn(r, what); }
bool blockFor(std::function<bool()> const& r, uint64_t ns, char const* what) {
    if (!on()) return true;
    pt(what); Rt _; if (r()) return true;
    blockOn(r, what, true, now_ + ns); return !F[cur].timedOut;
}
void point(char const* w) { if (on()) pt(w); }
void quiet(void const* p, std::size_t n) { Rt _; quiets->push_back({(uintptr_t)p, (uintptr_t)p + n}); }
void hbRelease(void const* p) { if (!g_active || cur < 0) return; Rt _; obj(p).vc.join(F[cur].vc); tickVC(); }
void hbAcquire(void const* p) { if (!g_active || cur < 0) return; Rt _; F[cur].vc.join(obj(p).vc); }
int choose(int n, int cost) { Rt _; return ch->choose(n, cost); }
std::string trace() { return *trace_; }
void note(std::string const& s) { Rt _; *trace_ += " [" + s + "]"; }
Ignore::Ignore() { if (g_active && cur >= 0) ++F[cur].ignore; }
Ignore::~Ignore() { if (g_active && cur >= 0) --F[cur].ignore; }

bool run(mc::Chooser& c, std::function<void()> const& body, Options o) {
    static bool init = false;
    if (!init) {
        init = true; __libc_single_threaded = 0;
        arena = (char*)::mmap(nullptr, STK * MAXT, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
        cells = (Cell*)::mmap(nullptr, sizeof(Cell) * NC, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
        pcs = (Pcs*)::mmap(nullptr, sizeof(Pcs) * NC, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
        objs = new std::unordered_map<void*, Obj>; trace_ = new std::string; quiets = new std::vector<std::pair<uintptr_t, uintptr_t>>;
        std::set_terminate(onTerminate);
    }
    g_rt = true; ch = &c; opt = o; objs->clear(); trace_->clear(); quiets->clear(); ++gen_; used = 0; now_ = 1'000'000'000; steps = idleWakes = 0; failed_ = false; liveBlocks = 0;
    body_ = &body; nF = 1; initFiber(0); cur = 0; g_active = true;
    drv.eh = *ehp(); *ehp() = EhGlobals{};
    mcs_switch(&drv.sp, F[0].sp);
    cur = -1; g_active = false; g_rt = false;
    while (quarantine) { Hdr* h = quarantine; quarantine = h->next; h->magic = 0; std::free(h); }
    for (int i = 0; i < nF; ++i) F[i].ready = nullptr;
    if (!failed_ && opt.leakCheck && liveBlocks != 0) { mc::detail(c.str().empty() ? "-" : c.str()); mc::fail("leak", std::to_string(liveBlocks) + " blocks allocated during the execution were never freed | schedule: " + *trace_); failed_ = true; }
    mc::state(steps);
    return !failed_;
}
} // namespace sched

// ================================================================ interposed functions
#define PC __builtin_return_address(0)
void* operator new(std::size_t n) { return doNew(n); }
void* operator new[](std::size_t n) { return doNew(n); }
void* operator new(std::size_t n, std::nothrow_t const&) noexcept { return doNew(n); }
void* operator new[](std::size_t n, std::nothrow_t const&) noexcept { return doNew(n); }
void operator delete(void* p) noexcept { doDelete(p, PC); }
void operator delete[](void* p) noexcept { doDelete(p, PC); }
void operator delete(void* p, std::size_t) noexcept { doDelete(p, PC); }
void operator delete[](void* p, std::size_t) noexcept { doDelete(p, PC); }

extern "C" void __libc_free(void*);
extern "C" void free(void* p) {         // memory that does not come from operator new (exception objects)
    if (p && cells && g_active && cur >= 0 && !g_rt) forget((uintptr_t)p, malloc_usable_size(p));
    __libc_free(p);
}
extern "C" {
int pthread_mutex_lock(pthread_mutex_t* m) {
    if (!on()) { static auto f = real<int (*)(pthread_mutex_t*)>("pthread_mutex_lock"); return g_active ? 0 : f(m); }
    freedCheck(m, 8, PC); pt("lock"); int rc; lockMutex(m, false, rc); return rc;
}
int pthread_mutex_trylock(pthread_mutex_t* m) {
    if (!on()) { static auto f = real<int (*)(pthread_mutex_t*)>("pthread_mutex_trylock"); return g_active ? 0 : f(m); }
    freedCheck(m, 8, PC); pt("trylock"); int rc; lockMutex(m, true, rc); return rc;
}
int pthread_mutex_unlock(pthread_mutex_t* m) {
    if (!on()) { static auto f = real<int (*)(pthread_mutex_t*)>("pthread_mutex_unlock"); return g_active ? 0 : f(m); }
    freedCheck(m, 8, PC);
    Rt _; auto& o = obj(m);
    if (o.owner != cur) doFail("bad-unlock", "a thread unlocks a mutex it does not hold");
    o.vc.join(F[cur].vc); tickVC(); o.owner = -1; return 0;
}
int pthread_rwlock_wrlock(pthread_rwlock_t* m) { if (!on()) return 0; freedCheck(m, 8, PC); pt("wrlock"); int rc; lockMutex(m, false, rc); return rc; }
int pthread_rwlock_rdlock(pthread_rwlock_t* m) {
    if (!on()) return 0;
    freedCheck(m, 8, PC); pt("rdlock"); Rt _;
    if (obj(m).owner == cur) doFail("deadlock", "a thread read-locks a lock it holds exclusively");
    while (obj(m).owner >= 0) blockOn([m] { return obj(m).owner < 0; }, "rwlock");
    auto& o = obj(m); ++o.readers; o.readMask |= 1u << cur; F[cur].vc.join(o.vc); return 0;
}
int pthread_rwlock_tryrdlock(pthread_rwlock_t* m) { if (!on()) return 0; pt("tryrdlock"); Rt _; auto& o = obj(m); if (o.owner >= 0) return EBUSY; ++o.readers; o.readMask |= 1u << cur; F[cur].vc.join(o.vc); return 0; }
int pthread_rwlock_trywrlock(pthread_rwlock_t* m) { if (!on()) return 0; pt("trywrlock"); int rc; lockMutex(m, true, rc); return rc; }
int pthread_rwlock_unlock(pthread_rwlock_t* m) {
    if (!on()) return 0;
    freedCheck(m, 8, PC); Rt _; auto& o = obj(m);
    if (o.owner == cur) { o.vc.join(F[cur].vc); tickVC(); o.owner = -1; }
    else if (o.readMask >> cur & 1) { o.rvc.join(F[cur].vc); tickVC(); --o.readers; o.readMask &= ~(1u << cur); }
    else doFail("bad-unlock", "a thread unlocks a lock it does not hold");
    return 0;
}
static int condWait(pthread_cond_t* c, pthread_mutex_t* m, bool timed, uint64_t deadline, void* pc) {
    freedCheck(c, 8, pc); pt("cond_wait"); Rt _;
    if (obj(m).owner != cur) doFail("bad-unlock", "waiting on a condition variable without holding its mutex");
    { auto& o = obj(m); o.vc.join(F[cur].vc); tickVC(); o.owner = -1; }
    obj(c).waiters.push_back(cur); F[cur].signalled = false;
    int me = cur;
    blockOn([me] { return F[me].signalled; }, "cond_wait", timed, deadline);
    bool to = !F[me].signalled;
    if (to) { auto& w = obj(c).waiters; w.erase(std::remove(w.begin(), w.end(), me), w.end()); }
    int rc; lockMutex(m, false, rc);
    return to ? ETIMEDOUT : 0;
}
static uint64_t toNs(const struct timespec* t) { return uint64_t(t->tv_sec) * 1000000000ULL + t->tv_nsec; }
int pthread_cond_wait(pthread_cond_t* c, pthread_mutex_t* m) { if (!on()) return 0; return condWait(c, m, false, 0, PC); }
int pthread_cond_timedwait(pthread_cond_t* c, pthread_mutex_t* m, const struct timespec* t) { if (!on()) return ETIMEDOUT; return condWait(c, m, true, toNs(t), PC); }
int pthread_cond_clockwait(pthread_cond_t* c, pthread_mutex_t* m, clockid_t, const struct timespec* t) { if (!on()) return ETIMEDOUT; return condWait(c, m, true, toNs(t), PC); }
int pthread_cond_signal(pthread_cond_t* c) {
    if (!on()) return 0;
    freedCheck(c, 8, PC); pt("notify_one"); Rt _; auto& w = obj(c).waiters; if (w.empty()) return 0;
    int k = w.size() > 1 ? ch->choose((int)w.size(), opt.forcedCost) : 0; F[w[k]].signalled = true; w.erase(w.begin() + k); return 0;
}
int pthread_cond_broadcast(pthread_cond_t* c) {
    if (!on()) return 0;
    freedCheck(c, 8, PC); pt("notify_all"); Rt _; auto& w = obj(c).waiters; for (int t : w) F[t].signalled = true; w.clear(); return 0;
}
int pthread_cond_destroy(pthread_cond_t* c) {
    if (!on()) return 0;
    Rt _; auto it = objs->find(c); if (it != objs->end()) { if (!it->second.waiters.empty()) doFail("destroyed-in-use", "a condition variable is destroyed while threads wait on it"); objs->erase(it); }
    return 0;
}
int pthread_create(pthread_t* t, const pthread_attr_t* a, void* (*fn)(void*), void* arg) {
    if (!on()) { static auto f = real<int (*)(pthread_t*, const pthread_attr_t*, void* (*)(void*), void*)>("pthread_create"); return f(t, a, fn, arg); }
    pt("thread_create"); Rt _;
    if (nF >= MAXT) doFail("too-many-threads", "more than " + std::to_string(MAXT) + " threads are created");
    int i = nF++; initFiber(i); F[i].fn = fn; F[i].arg = arg; tickVC(); F[i].vc.join(F[cur].vc); F[i].vc.c[i] = 1;
    *t = (pthread_t)(uintptr_t)(0x1000 + i); return 0;
}
int pthread_join(pthread_t t, void** r) {
    if (!on()) { static auto f = real<int (*)(pthread_t, void**)>("pthread_join"); return f(t, r); }
    pt("join"); Rt _; int i = int((uintptr_t)t - 0x1000);
    if (i < 0 || i >= nF || F[i].joined || F[i].detached) doFail("bad-join", "joining a thread that does not exist or was joined already");
    if (F[i].st != St::Done) blockOn([i] { return F[i].st == St::Done; }, "join");
    F[i].joined = true; F[cur].vc.join(F[i].vc); if (r) *r = nullptr; return 0;
}
int pthread_detach(pthread_t t) {
    if (!on()) { static auto f = real<int (*)(pthread_t)>("pthread_detach"); return f(t); }
    Rt _; int i = int((uintptr_t)t - 0x1000); F[i].detached = true; return 0;
}
pthread_t pthread_self() noexcept {
    if (g_active && cur >= 0) return (pthread_t)(uintptr_t)(0x1000 + cur);
    static auto f = real<pthread_t (*)()>("pthread_self"); return f();
}
int sched_yield() noexcept { if (on()) pt("yield"); return 0; }
static void doSleep(uint64_t ns) { pt("sleep"); Rt _; blockOn(nullptr, "sleep", true, now_ + ns); }
int nanosleep(const struct timespec* t, struct timespec*) { if (!on()) return 0; doSleep(toNs(t)); return 0; }
int clock_nanosleep(clockid_t, int fl, const struct timespec* t, struct timespec*) {
    if (!on()) return 0;
    uint64_t ns = toNs(t); if (fl & TIMER_ABSTIME) ns = ns > now_ ? ns - now_ : 0; doSleep(ns); return 0;
}
int usleep(useconds_t u) { if (!on()) return 0; doSleep(uint64_t(u) * 1000); return 0; }
int clock_gettime(clockid_t c, struct timespec* t) noexcept {
    if (g_active && cur >= 0) { t->tv_sec = now_ / 1000000000ULL; t->tv_nsec = now_ % 1000000000ULL; return 0; }
    static auto f = real<int (*)(clockid_t, struct timespec*)>("clock_gettime"); return f(c, t);
}
// function-local statics: the guard byte is set inside libstdc++, so the ordering has to be added here
int __cxa_guard_acquire(abi::__guard* g) {
    char* b = (char*)g; if (b[0]) { if (g_active && cur >= 0) sched::hbAcquire(g); return 0; }
    if (b[1] && on()) { blockOn([b] { return b[0] || !b[1]; }, "static-init"); if (b[0]) { sched::hbAcquire(g); return 0; } }
    b[1] = 1; return 1;
}
void __cxa_guard_release(abi::__guard* g) noexcept { char* b = (char*)g; b[0] = 1; b[1] = 0; sched::hbRelease(g); }
void __cxa_guard_abort(abi::__guard* g) noexcept { char* b = (char*)g; b[1] = 0; }

// ---- tsan ABI ----
void __tsan_init() {}
void __tsan_func_entry(void*) {}
void __tsan_func_exit() {}
#define RW(N, S) \
    void __tsan_read##N(void* p) { if (tracked()) { Rt _; access((uintptr_t)p, S, false, false, PC); } } \
    void __tsan_write##N(void* p) { if (tracked()) { Rt _; access((uintptr_t)p, S, true, false, PC); } } \
    void __tsan_unaligned_read##N(void* p) { if (tracked()) { Rt _; access((uintptr_t)p, S, false, false, PC); } } \
    void __tsan_unaligned_write##N(void* p) { if (tracked()) { Rt _; access((uintptr_t)p, S, true, false, PC); } } \
    void __tsan_read_write##N(void* p) { if (tracked()) { Rt _; access((uintptr_t)p, S, true, false, PC); } } \
    void __tsan_unaligned_read_write##N(void* p) { if (tracked()) { Rt _; access((uintptr_t)p, S, true, false, PC); } }
RW(1, 1) RW(2, 2) RW(4, 4) RW(8, 8) RW(16, 16)
void __tsan_read_range(void* p, unsigned long n) { if (tracked()) { Rt _; access((uintptr_t)p, n, false, false, PC); } }
void __tsan_write_range(void* p, unsigned long n) { if (tracked()) { Rt _; access((uintptr_t)p, n, true, false, PC); } }
void __tsan_vptr_update(void** p, void* v) { if (tracked() && *p != v) { Rt _; access((uintptr_t)p, 8, true, false, PC); } }
void __tsan_vptr_read(void** p) { if (tracked()) { Rt _; access((uintptr_t)p, 8, false, false, PC); } }
void* __tsan_memcpy(void* d, const void* s, unsigned long n) { if (tracked()) { Rt _; access((uintptr_t)s, n, false, false, PC); access((uintptr_t)d, n, true, false, PC); } return std::memcpy(d, s, n); }
void* __tsan_memmove(void* d, const void* s, unsigned long n) { if (tracked()) { Rt _; access((uintptr_t)s, n, false, false, PC); access((uintptr_t)d, n, true, false, PC); } return std::memmove(d, s, n); }
void* __tsan_memset(void* d, int v, unsigned long n) { if (tracked()) { Rt _; access((uintptr_t)d, n, true, false, PC); } return std::memset(d, v, n); }
}
extern "C" char __executable_start[], _end[];
namespace {
bool isAcq(int mo) { return mo == __ATOMIC_ACQUIRE || mo == __ATOMIC_CONSUME || mo == __ATOMIC_ACQ_REL || mo == __ATOMIC_SEQ_CST; }
bool isRel(int mo) { return mo == __ATOMIC_RELEASE || mo == __ATOMIC_ACQ_REL || mo == __ATOMIC_SEQ_CST; }
bool isQuiet(void* p) { for (auto& q : *quiets) if ((uintptr_t)p >= q.first && (uintptr_t)p < q.second) return true; return false; }
bool onHeap(void* p) { return !((char*)p >= arena && (char*)p < arena + STK * MAXT) && !((char*)p >= (char*)__executable_start && (char*)p < (char*)_end); }
void aPre(void* p, std::size_t n, bool wr, char const* what, void* pc) {
    if (!tracked()) return;
    if (!quiets->empty() && isQuiet(p)) return;
    { Rt _; access((uintptr_t)p, n, wr, true, pc); }
    bool ref = !opt.refPoints && n == 4 && (!std::strcmp(what, "a.add") || !std::strcmp(what, "a.sub")) && onHeap(p);
    if (opt.atomicPoints && !ref) pt(what);
    { Rt _; access((uintptr_t)p, n, wr, true, pc); }
}
void aLoad(void* p, int mo) { if (!on()) return; Rt _; auto it = objs->find(p); if (it == objs->end()) return; if (isAcq(mo)) F[cur].vc.join(it->second.vc); else F[cur].vcAcq.join(it->second.vc); }
void aStore(void* p, int mo, bool rmw) {
    if (!on()) return; Rt _; auto& o = obj(p); auto& f = F[cur];
    VC add{}; bool has = false;
    if (isRel(mo)) { add = f.vc; has = true; } else if (f.hasRel) { add = f.vcRel; has = true; }
    if (!rmw) o.vc = VC{};
    if (has) o.vc.join(add);
    if (isRel(mo)) tickVC();
}
}
extern "C" {
#define AT(B, T) \
    T __tsan_atomic##B##_load(const volatile T* p, int mo) { aPre((void*)p, sizeof(T), false, "a.load", PC); aLoad((void*)p, mo); return *p; } \
    void __tsan_atomic##B##_store(volatile T* p, T v, int mo) { aPre((void*)p, sizeof(T), true, "a.store", PC); aStore((void*)p, mo, false); *p = v; } \
    T __tsan_atomic##B##_exchange(volatile T* p, T v, int mo) { aPre((void*)p, sizeof(T), true, "a.xchg", PC); aLoad((void*)p, mo); aStore((void*)p, mo, true); T o = *p; *p = v; return o; } \
    T __tsan_atomic##B##_fetch_add(volatile T* p, T v, int mo) { aPre((void*)p, sizeof(T), true, "a.add", PC); aLoad((void*)p, mo); aStore((void*)p, mo, true); T o = *p; *p = T(o + v); return o; } \
    T __tsan_atomic##B##_fetch_sub(volatile T* p, T v, int mo) { aPre((void*)p, sizeof(T), true, "a.sub", PC); aLoad((void*)p, mo); aStore((void*)p, mo, true); T o = *p; *p = T(o - v); return o; } \
    T __tsan_atomic##B##_fetch_and(volatile T* p, T v, int mo) { aPre((void*)p, sizeof(T), true, "a.and", PC); aLoad((void*)p, mo); aStore((void*)p, mo, true); T o = *p; *p = T(o & v); return o; } \
    T __tsan_atomic##B##_fetch_or(volatile T* p, T v, int mo) { aPre((void*)p, sizeof(T), true, "a.or", PC); aLoad((void*)p, mo); aStore((void*)p, mo, true); T o = *p; *p = T(o | v); return o; } \
    T __tsan_atomic##B##_fetch_xor(volatile T* p, T v, int mo) { aPre((void*)p, sizeof(T), true, "a.xor", PC); aLoad((void*)p, mo); aStore((void*)p, mo, true); T o = *p; *p = T(o ^ v); return o; } \
    T __tsan_atomic##B##_compare_exchange_val(volatile T* p, T c, T v, int mo, int fmo) { aPre((void*)p, sizeof(T), true, "a.cas", PC); T o = *p; if (o == c) { aLoad((void*)p, mo); aStore((void*)p, mo, true); *p = v; } else aLoad((void*)p, fmo); return o; } \
    int __tsan_atomic##B##_compare_exchange_strong(volatile T* p, T* c, T v, int mo, int fmo) { aPre((void*)p, sizeof(T), true, "a.cas", PC); T o = *p; if (o == *c) { aLoad((void*)p, mo); aStore((void*)p, mo, true); *p = v; return 1; } aLoad((void*)p, fmo); *c = o; return 0; } \
    int __tsan_atomic##B##_compare_exchange_weak(volatile T* p, T* c, T v, int mo, int fmo) { return __tsan_atomic##B##_compare_exchange_strong(p, c, v, mo, fmo); }
AT(8, uint8_t) AT(16, uint16_t) AT(32, uint32_t) AT(64, uint64_t)
void __tsan_atomic_thread_fence(int mo) {
    if (!on()) return; Rt _; auto& f = F[cur];
    if (isAcq(mo)) f.vc.join(f.vcAcq);
    if (isRel(mo)) { f.vcRel = f.vc; f.hasRel = true; tickVC(); }
}
void __tsan_atomic_signal_fence(int) {}
}
