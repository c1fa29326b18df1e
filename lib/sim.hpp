// Simulated kernel: stand-in for the io_uring library functions, a virtual clock, sockets with scripted
// peers and real files with chosen transfer lengths. Everything the environment decides is a choice point
// of the mc::Chooser in use. Single threaded. Include this header once per harness program.
#pragma once
#include <liburing.h>
#include <sys/socket.h>
#include <netdb.h>
#include <netinet/in.h>
#include <poll.h>
#include <cerrno>
#include <chrono>
#include <deque>
#include <memory>
#include <optional>
#include <thread>
#include "mc.hpp"

namespace sim {

struct Quiet { };                                // nothing can ever happen any more
struct Runaway { };                              // too many kernel events in one execution

constexpr long long ms = 1000000LL, sec = 1000000000LL;
constexpr long long kEpoch = 1700000000LL * sec;

struct Conn;
using Script = std::function<void(Conn&)>;

// One step of a scripted peer
struct Step {
    enum Kind { Data, Wait, Fin, Gone, Reset, Pause, Call } kind;
    std::string bytes;                           // Data: one segment
    std::function<bool(Conn&)> pred;             // Wait
    long long dur = 0;                           // Pause
    std::function<void(Conn&)> fn;               // Call
};

struct Conn {
    int fd = -1;
    bool listener = false, open = true;
    std::deque<std::string> in;                  // segments not yet received by the code under test
    bool eof = false, peerGone = false; int err = 0;
    std::string out;                             // everything the code under test sent
    std::size_t seen = 0;                        // free for scripts (how much of out was consumed)
    std::deque<Step> steps;
    long long wake = 0;                          // Pause: not before
    bool shutWr = false;
    long long closedAt = -1; int closes = 0;
    int no = 0;                                  // ordinal of the connection
    std::size_t sends = 0;
    bool holdSend = false;                       // the peer does not read: sends do not complete
    std::function<bool(Conn&)> react;            // a peer that is a program: looks at out, fills in; true if it did anything
    // script building
    Conn& data(std::string s) { Step t{Step::Data}; t.bytes = std::move(s); steps.push_back(std::move(t)); return *this; }
    Conn& wait(std::function<bool(Conn&)> p) { Step t{Step::Wait}; t.pred = std::move(p); steps.push_back(std::move(t)); return *this; }
    Conn& waitOut(std::size_t n) { return wait([n](Conn& c) { return c.out.size() >= n; }); }
    Conn& fin() { steps.push_back(Step{Step::Fin}); return *this; }         // half close
    Conn& gone() { steps.push_back(Step{Step::Gone}); return *this; }       // full close: later sends fail
    Conn& reset() { steps.push_back(Step{Step::Reset}); return *this; }
    Conn& pause(long long d) { Step t{Step::Pause}; t.dur = d; steps.push_back(std::move(t)); return *this; }
    Conn& call(std::function<void(Conn&)> f) { Step t{Step::Call}; t.fn = std::move(f); steps.push_back(std::move(t)); return *this; }
    // cuts: positions where the text is split into separately arriving segments
    Conn& cut(std::string const& s, std::vector<std::size_t> const& cuts) {
        std::size_t b = 0;
        for (auto c : cuts) { if (c <= b || c >= s.size()) continue; data(s.substr(b, c - b)); b = c; }
        if (b < s.size()) data(s.substr(b));
        return *this;
    }
};

struct Op {
    uint64_t seq = 0; struct io_uring* ring = nullptr;
    uint8_t opc = 0; int fd = -1; uint64_t addr = 0, off = 0, ud = 0; uint32_t len = 0, flags = 0;
    std::shared_ptr<Op> timeout;                 // linked timeout
    long long deadline = -1; bool isTimeout = false; bool done = false;
    uint8_t sqeFlags = 0;
};
using OpP = std::shared_ptr<Op>;

struct Ring {
    struct io_uring* r = nullptr;
    unsigned sqh = 0, sqt = 0, cqh = 0, cqt = 0, sqf = 0, cqo = 0, sqd = 0, sqm = 0, sqe_n = 0, cqm = 0, cqe_n = 0;
    std::vector<io_uring_sqe> sqes; std::vector<io_uring_cqe> cqes;
    std::deque<io_uring_cqe> backlog;
};

struct World {
    mc::Chooser* ch = nullptr;
    long long now = kEpoch;
    std::map<struct io_uring*, std::unique_ptr<Ring>> rings;
    std::vector<OpP> pending;                    // submitted, not completed; in submission order
    std::map<int, std::shared_ptr<Conn>> conns;
    std::vector<std::shared_ptr<Conn>> all;
    std::deque<Script> incoming;                 // connections that arrive at the listener
    // connect: returns 0 or -errno
    std::function<int(Conn&, sockaddr const*)> onConnect;
    std::function<bool(Conn&)> connectNever;
    long long tick = 0;                          // how much time passes per look at the clock
    int nextFd = 1000, connNo = 0;
    uint64_t seq = 0, events = 0, maxEvents = 200000;
    // which kinds of environment choices are offered (harness sets them)
    bool chOrder = false;                        // order / batching of completions
    bool chRecv = false;                         // how much a recv transfers
    bool chSend = false;                         // how much a send transfers
    bool chFile = false;                         // how much a file read/write transfers
    bool chFileErr = false;                      // file operations may fail
    bool chEintr = false;                        // the wait may be interrupted
    bool chTimeoutRace = false;                  // completion races with its linked timeout
    bool chSockErr = false;                      // send/recv may fail
    bool sendHold = false;
    std::function<int(Op const&)> fault;         // optional: nonzero = result forced for this operation
    std::function<void(std::string const&)> trace;
    std::vector<std::string> resolvePlan; int gaiFail = 0;
    int badClose = 0; std::string badWhat;
    std::set<int> realFds;
    int openReal = 0;
};
inline World*& Wp() { static World* w = nullptr; return w; }
inline World& W() { return *Wp(); }
inline void reset(mc::Chooser* c) { delete Wp(); Wp() = new World; Wp()->ch = c; }

inline int pick(bool enabled, int n, int w = 1) { if (!enabled || !W().ch || n <= 1) return 0; return W().ch->choose(n, w); }

inline std::shared_ptr<Conn> conn(int fd) { auto it = W().conns.find(fd); return it == W().conns.end() ? nullptr : it->second; }
inline std::shared_ptr<Conn> newConn() {
    auto c = std::make_shared<Conn>(); c->fd = W().nextFd++; c->no = W().connNo++;
    W().conns[c->fd] = c; W().all.push_back(c); return c;
}
inline int listen_fd() { for (auto& [f, c] : W().conns) if (c->listener && c->open) return f; return -1; }

inline bool pump(Conn& c) {                       // lets the peer act; true if anything happened
    bool any = c.react && c.react(c);
    while (!c.steps.empty()) {
        Step& s = c.steps.front();
        if (s.kind == Step::Wait) { if (!s.pred(c)) break; }
        else if (s.kind == Step::Pause) {
            if (!c.wake) { c.wake = W().now + s.dur; }
            if (W().now < c.wake) break;
            c.wake = 0;
        }
        else if (s.kind == Step::Data) { if (!s.bytes.empty()) c.in.push_back(s.bytes); }
        else if (s.kind == Step::Fin) c.eof = true;
        else if (s.kind == Step::Gone) { c.eof = true; c.peerGone = true; }
        else if (s.kind == Step::Reset) { c.err = ECONNRESET; c.peerGone = true; c.in.clear(); }
        else if (s.kind == Step::Call) { auto f = s.fn; c.steps.pop_front(); f(c); any = true; continue; }
        any = true; c.steps.pop_front();
    }
    return any;
}
inline bool pumpAll() { bool any = false; for (std::size_t i = 0; i < W().all.size(); ++i) { auto c = W().all[i]; if (pump(*c)) any = true; } return any; }

inline void post(struct io_uring* r, uint64_t ud, int res) {
    auto it = W().rings.find(r); if (it == W().rings.end()) return;
    io_uring_cqe c{}; c.user_data = ud; c.res = res;
    it->second->backlog.push_back(c);
}
inline void flush(Ring& R) {
    while (!R.backlog.empty() && R.cqt - R.cqh < R.cqe_n) {
        R.cqes[R.cqt & R.cqm] = R.backlog.front(); R.backlog.pop_front(); ++R.cqt;
    }
}

inline bool ready(Op const& o) {
    if (o.isTimeout) return false;
    switch (o.opc) {
    case IORING_OP_ACCEPT: return !W().incoming.empty() || !conn(o.fd) ;
    case IORING_OP_CONNECT: { auto c = conn(o.fd); return !c || !W().connectNever || !W().connectNever(*c); }
    case IORING_OP_RECV: {
        auto c = conn(o.fd); if (!c) return true;
        return !c->in.empty() || c->eof || c->err || c->shutWr || o.len == 0;
    }
    case IORING_OP_SEND: { if (W().sendHold) return false; auto c = conn(o.fd); return !c || !c->holdSend || c->peerGone; }
    case IORING_OP_POLL_ADD: { auto c = conn(o.fd); return !c || !c->in.empty() || c->eof || c->err; }
    case IORING_OP_TIMEOUT: return false;
    default: return true;
    }
}

inline int perform(Op& o) {                       // executes the operation, returns the result
    World& w = W();
    if (w.fault) if (int r = w.fault(o)) return r;
    switch (o.opc) {
    case IORING_OP_NOP: return 0;
    case IORING_OP_SOCKET: { auto c = newConn(); return c->fd; }
    case IORING_OP_ACCEPT: {
        if (!conn(o.fd)) return -EBADF;
        Script s = w.incoming.front(); w.incoming.pop_front();
        auto c = newConn(); if (s) s(*c); pump(*c); return c->fd;
    }
    case IORING_OP_CONNECT: {
        auto c = conn(o.fd); if (!c) return -EBADF;
        if (!w.onConnect) return -ECONNREFUSED;
        int r = w.onConnect(*c, (sockaddr const*)o.addr);
        if (r == 0) pump(*c);
        return r;
    }
    case IORING_OP_RECV: {
        auto c = conn(o.fd); if (!c) return -EBADF;
        if (c->err) { int e = c->err; c->err = 0; c->eof = true; return -e; }
        if (w.chSockErr) { int k = pick(true, 2); if (k) { c->err = 0; c->eof = true; c->in.clear(); c->steps.clear(); c->peerGone = true; return -ECONNRESET; } }
        if (c->in.empty()) return 0;
        auto& s = c->in.front();
        std::size_t n = std::min<std::size_t>(s.size(), o.len);
        if (w.chRecv && n > 1) {
            std::size_t alt[4] = {n, 1, n - 1, n / 2}; int na = n == 2 ? 2 : n == 3 ? 3 : 4;
            n = alt[pick(true, na)];
        }
        std::memcpy((void*)o.addr, s.data(), n);
        if (n == s.size()) c->in.pop_front(); else s.erase(0, n);
        return (int)n;
    }
    case IORING_OP_SEND: {
        auto c = conn(o.fd); if (!c) return -EBADF;
        if (c->peerGone || !c->open) return c->sends++ ? -EPIPE : -ECONNRESET;
        std::size_t n = o.len;
        if (w.chSockErr) { int k = pick(true, 2); if (k) { c->peerGone = true; c->eof = true; c->steps.clear(); return -EPIPE; } }
        if (w.chSend && n > 1) {
            std::size_t alt[4] = {n, 1, n - 1, n / 2}; int na = n == 2 ? 2 : n == 3 ? 3 : 4;
            n = alt[pick(true, na)];
        }
        c->out.append((char const*)o.addr, n); ++c->sends;
        pump(*c);
        return (int)n;
    }
    case IORING_OP_CLOSE: {
        if (o.fd >= 1000) {
            auto c = conn(o.fd);
            if (!c) { ++w.badClose; w.badWhat = "close of socket " + std::to_string(o.fd) + " that is not open"; return -EBADF; }
            c->open = false; c->closedAt = w.now; ++c->closes; w.conns.erase(o.fd); return 0;
        }
        if (o.fd < 0 || !w.realFds.count(o.fd)) { ++w.badClose; w.badWhat = "close of descriptor " + std::to_string(o.fd) + " that is not open"; return -EBADF; }
        w.realFds.erase(o.fd); --w.openReal;
        return ::close(o.fd) ? -errno : 0;
    }
    case IORING_OP_OPENAT: {
        if (w.chFileErr && pick(true, 2)) return -EIO;
        int f = ::openat(o.fd, (char const*)o.addr, (int)o.flags | O_CLOEXEC, (mode_t)o.len);
        if (f < 0) return -errno;
        w.realFds.insert(f); ++w.openReal; return f;
    }
    case IORING_OP_READ: {
        if (!w.realFds.count(o.fd)) return -EBADF;
        std::size_t n = o.len;
        if (w.chFileErr && pick(true, 2)) return -EIO;
        // what is really available
        ssize_t a = o.off == (uint64_t)-1 ? ::read(o.fd, (void*)o.addr, n) : ::pread(o.fd, (void*)o.addr, n, (off_t)o.off);
        if (a < 0) return -errno;
        if (w.chFile && a > 1) {
            ssize_t alt[4] = {a, 1, a - 1, a / 2}; int na = a == 2 ? 2 : a == 3 ? 3 : 4;
            ssize_t t = alt[pick(true, na)];
            if (t < a) { std::memset((char*)o.addr + t, 0xEE, (std::size_t)(a - t)); if (o.off == (uint64_t)-1) ::lseek(o.fd, t - a, SEEK_CUR); }
            a = t;
        }
        return (int)a;
    }
    case IORING_OP_WRITE: {
        if (!w.realFds.count(o.fd)) return -EBADF;
        std::size_t n = o.len;
        if (w.chFileErr && pick(true, 2)) return -ENOSPC;
        if (w.chFile && n > 1) {
            std::size_t alt[4] = {n, 1, n - 1, n / 2}; int na = n == 2 ? 2 : n == 3 ? 3 : 4;
            n = alt[pick(true, na)];
        }
        ssize_t a = o.off == (uint64_t)-1 ? ::write(o.fd, (void const*)o.addr, n) : ::pwrite(o.fd, (void const*)o.addr, n, (off_t)o.off);
        return a < 0 ? -errno : (int)a;
    }
    case IORING_OP_POLL_ADD: return POLLIN;
    case IORING_OP_ASYNC_CANCEL: {
        for (auto& p : w.pending) if (!p->done && p->ud == o.addr && !p->isTimeout && p.get() != &o) {
            p->done = true; post(p->ring, p->ud, -ECANCELED);
            if (p->timeout) { p->timeout->done = true; post(p->ring, p->timeout->ud, -ECANCELED); }
            return 0;
        }
        return -ENOENT;
    }
    default: return -EINVAL;
    }
}

inline void complete(OpP const& o) {
    World& w = W();
    if (++w.events > w.maxEvents) throw Runaway{};
    int r = perform(*o);
    o->done = true;
    if (w.trace) w.trace("op " + std::to_string(o->opc) + " fd " + std::to_string(o->fd) + " -> " + std::to_string(r));
    int race = 0;
    if (o->timeout) { if (w.chTimeoutRace) race = pick(true, 3); o->timeout->done = true; }
    if (race == 2) post(o->ring, o->timeout->ud, -ETIME);
    post(o->ring, o->ud, r);
    if (o->timeout) { if (race == 0) post(o->ring, o->timeout->ud, -ECANCELED); else if (race == 1) post(o->ring, o->timeout->ud, -ETIME); }
}
inline void sweep() { auto& p = W().pending; p.erase(std::remove_if(p.begin(), p.end(), [](OpP const& o) { return o->done; }), p.end()); }

inline int submit(Ring& R) {
    World& w = W(); auto* r = R.r; int n = 0;
    OpP prev; 
    while (r->sq.sqe_head != r->sq.sqe_tail) {
        io_uring_sqe const s = R.sqes[r->sq.sqe_head & R.sqm];
        ++r->sq.sqe_head; ++R.sqh; ++R.sqt; ++n;
        auto o = std::make_shared<Op>();
        o->seq = w.seq++; o->ring = r; o->opc = s.opcode; o->fd = s.fd; o->addr = s.addr; o->off = s.off; o->len = s.len; o->flags = s.open_flags; o->ud = s.user_data; o->sqeFlags = s.flags;
        if (o->opc == IORING_OP_LINK_TIMEOUT) {
            auto* ts = (struct __kernel_timespec const*)s.addr;
            o->isTimeout = true;
            if (!prev || !(prev->sqeFlags & IOSQE_IO_LINK)) { post(r, o->ud, -EINVAL); prev = nullptr; continue; }
            o->deadline = w.now + ts->tv_sec * sec + ts->tv_nsec;
            prev->timeout = o; w.pending.push_back(o); prev = o; continue;
        }
        if (o->opc == IORING_OP_ASYNC_CANCEL) {  // takes effect while being submitted
            int rc = perform(*o); sweep(); post(r, o->ud, rc); prev = o; continue;
        }
        if (o->opc == IORING_OP_TIMEOUT) { auto* ts = (struct __kernel_timespec const*)s.addr; o->deadline = w.now + ts->tv_sec * sec + ts->tv_nsec; }
        w.pending.push_back(o); prev = o;
    }
    return n;
}

// Completes ready operations of this ring (one batch). true if any CQE was posted.
inline bool batch(Ring& R) {
    World& w = W(); bool any = false;
    for (;;) {
        std::vector<OpP> rd;
        for (auto& o : w.pending) if (o->ring == R.r && !o->done && ready(*o)) rd.push_back(o);
        if (rd.empty()) break;
        // alternatives: complete rd[0]; complete another first; (once something completed) stop the batch here
        int n = (int)rd.size();
        int k = pick(w.chOrder, any ? n + 1 : n);
        if (any && k == n) break;
        complete(rd[(std::size_t)k]); any = true;
        if (!w.chOrder && w.events > w.maxEvents) throw Runaway{};
    }
    sweep();
    return any;
}

inline long long nextTimed(bool peers) {
    long long t = -1; auto upd = [&](long long x) { if (x >= 0 && (t < 0 || x < t)) t = x; };
    for (auto& o : W().pending) if (!o->done && o->deadline >= 0) upd(o->deadline);
    if (peers) for (auto& c : W().all) if (c->wake && !c->steps.empty() && c->steps.front().kind == Step::Pause) upd(c->wake);
    return t;
}
inline bool fireTimeouts(Ring& R) {
    World& w = W(); bool any = false;
    auto copy = w.pending;
    for (auto& o : copy) if (!o->done && o->deadline >= 0 && o->deadline <= w.now && o->ring == R.r) {
        o->done = true; any = true; ++w.events;
        OpP main; for (auto& p : copy) if (p->timeout == o && !p->done) main = p;
        if (main) {
            main->done = true;
            if (pick(w.chOrder, 2)) { post(o->ring, o->ud, -ETIME); post(o->ring, main->ud, -ECANCELED); }
            else { post(o->ring, main->ud, -ECANCELED); post(o->ring, o->ud, -ETIME); }
        } else post(o->ring, o->ud, -ETIME);
    }
    sweep();
    return any;
}

inline int waitFor(struct io_uring* r, long long limit /* absolute, or -1 */) {
    World& w = W(); Ring& R = *w.rings.at(r);
    int n = submit(R);
    if (++w.events > w.maxEvents) throw Runaway{};
    if (w.chEintr && pick(true, 2)) return n ? n : -EINTR;
    for (;;) {
        pumpAll();
        fireTimeouts(R);
        batch(R);
        flush(R);
        if (R.cqt != R.cqh) return n;
        if (pumpAll()) continue;
        long long t = nextTimed(true);
        if (limit >= 0 && (t < 0 || limit <= t)) { w.now = std::max(w.now, limit); if (t != limit) return -ETIME; }
        else if (t >= 0) w.now = std::max(w.now, t);
        else throw Quiet{};
        if (++w.events > w.maxEvents) throw Runaway{};
    }
}
} // namespace sim

// ---- stand-ins for the library and system functions ----
extern "C" {
int io_uring_queue_init(unsigned entries, struct io_uring* r, unsigned) {
    std::memset(r, 0, sizeof *r);
    auto R = std::make_unique<sim::Ring>(); R->r = r;
    unsigned n = 1; while (n < entries) n <<= 1;
    R->sqes.resize(n); R->sqe_n = n; R->sqm = n - 1; R->cqes.resize(2 * n); R->cqe_n = 2 * n; R->cqm = 2 * n - 1;
    r->sq.khead = &R->sqh; r->sq.ktail = &R->sqt; r->sq.kflags = &R->sqf; r->sq.kdropped = &R->sqd; r->sq.kring_mask = &R->sqm; r->sq.kring_entries = &R->sqe_n;
    r->sq.ring_mask = R->sqm; r->sq.ring_entries = n; r->sq.sqes = R->sqes.data();
    r->cq.khead = &R->cqh; r->cq.ktail = &R->cqt; r->cq.kflags = &R->sqf; r->cq.koverflow = &R->cqo; r->cq.kring_mask = &R->cqm; r->cq.kring_entries = &R->cqe_n;
    r->cq.ring_mask = R->cqm; r->cq.ring_entries = 2 * n; r->cq.cqes = R->cqes.data();
    r->features = IORING_FEAT_EXT_ARG; r->ring_fd = r->enter_ring_fd = 999;
    sim::W().rings[r] = std::move(R);
    return 0;
}
void io_uring_queue_exit(struct io_uring* r) {
    auto& w = sim::W();
    for (auto& o : w.pending) if (o->ring == r) o->done = true;
    sim::sweep(); w.rings.erase(r);
}
int io_uring_submit(struct io_uring* r) { return sim::submit(*sim::W().rings.at(r)); }
int io_uring_submit_and_wait(struct io_uring* r, unsigned nr) { if (!nr) return io_uring_submit(r); return sim::waitFor(r, -1); }
int io_uring_submit_and_wait_timeout(struct io_uring* r, struct io_uring_cqe** c, unsigned, struct __kernel_timespec* ts, sigset_t*) {
    long long limit = -1;
    if (ts) limit = sim::W().now + ts->tv_sec * sim::sec + ts->tv_nsec;
    int rc = sim::waitFor(r, limit);
    if (c) { auto& R = *sim::W().rings.at(r); *c = R.cqh != R.cqt ? &R.cqes[R.cqh & R.cqm] : nullptr; }
    return rc;
}
int nanosleep(const struct timespec* a, struct timespec*) {
    if (sim::Wp()) sim::W().now += a->tv_sec * sim::sec + a->tv_nsec;
    return 0;
}
int bind(int, const struct sockaddr*, socklen_t) { return 0; }
int listen(int fd, int) { if (auto c = sim::conn(fd)) c->listener = true; return 0; }
int setsockopt(int, int, int, const void*, socklen_t) { return 0; }
int getaddrinfo(const char* node, const char* service, const struct addrinfo*, struct addrinfo** res) {
    if (sim::Wp() && sim::W().gaiFail) return EAI_NONAME;
    auto* a = new addrinfo{}; auto* s = new sockaddr_in{};
    s->sin_family = AF_INET; s->sin_port = htons((uint16_t)std::atoi(service ? service : "0")); s->sin_addr.s_addr = htonl(0x7f000001);
    a->ai_family = AF_INET; a->ai_socktype = SOCK_STREAM; a->ai_addr = (sockaddr*)s; a->ai_addrlen = sizeof *s;
    if (sim::Wp()) sim::W().resolvePlan.push_back(std::string(node ? node : "") + ":" + (service ? service : ""));
    *res = a; return 0;
}
void freeaddrinfo(struct addrinfo* a) { while (a) { auto* n = a->ai_next; delete (sockaddr_in*)a->ai_addr; delete a; a = n; } }
}
namespace std::chrono { inline namespace _V2 {
system_clock::time_point system_clock::now() noexcept { if (sim::Wp()) sim::W().now += sim::W().tick; return time_point(duration(sim::Wp() ? sim::W().now : sim::kEpoch)); }
steady_clock::time_point steady_clock::now() noexcept { return time_point(duration(sim::Wp() ? sim::W().now : sim::kEpoch)); }
} }
