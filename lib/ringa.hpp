// A stand-in for io_uring, eventfds and slow files under the controlled scheduler (engine A, lib/mcsched). Every ring is
// used by the thread that runs its loop; the "kernel" completes an operation when that thread waits. Waiting blocks the
// fiber until something can complete, so any other thread may run in between. Blocking operations on descriptors have no
// time of their own except slow files, which complete at (or, at the cost of a deviation, before) a virtual deadline.
// Stream sockets are in-memory pairs; several listeners on a port share its connections as the explorer chooses.
#pragma once
#include "mcsched.hpp"
#include <liburing.h>
#include <netdb.h>
#include <netinet/in.h>
#include <sys/eventfd.h>
#include <sys/socket.h>
#include <sys/syscall.h>
#include <unistd.h>
#include <cerrno>
#include <cstring>
#include <deque>
#include <functional>
#include <list>
#include <map>
#include <memory>
#include <string>
#include <vector>

namespace ringa {
struct Op { unsigned char op; int fd; uint64_t addr; unsigned len; uint64_t ud; uint64_t deadline; int flags; bool link; bool dead = false; uint64_t tud = 0, tdl = ~0ULL; };
struct Ring {
    struct io_uring* r;
    unsigned sqh = 0, sqt = 0, sqf = 0, sqd = 0, sqm = 0, sqn = 0, cqh = 0, cqt = 0, cqo = 0, cqm = 0, cqn = 0, taken = 0;
    std::vector<io_uring_sqe> sqes; std::vector<io_uring_cqe> cqes;
    std::list<Op> pend;
};
struct Sock { int port = 0; bool listener = false, open = true, eof = false; std::deque<std::shared_ptr<Sock>> queue; std::string in; std::weak_ptr<Sock> peer; std::function<void(std::shared_ptr<Sock>)> svc; };
using SockP = std::shared_ptr<Sock>;
struct World {
    std::map<int, SockP> socks; int accepted = 0;
    int bindFails = 0;                      // so many binds fail (the port is taken)
    std::map<struct io_uring*, std::unique_ptr<Ring>> rings;
    std::map<int, uint64_t> events;         // eventfds
    int next = 1000;
    uint64_t slow = 5'000'000;              // a slow read takes this long
    int leftOpen = 0;
    std::map<int, std::function<void(SockP)>> service;   // a port answered by the harness: called (with Ignore held) whenever bytes came to the far end
    std::vector<SockP> owned;               // kept until the end, so that addresses are not reused
};
inline World*& Wp() { static World* w = nullptr; return w; }
inline World& W() { return *Wp(); }
constexpr int kSlowFd = 900;                // reads of the byte 'x'
struct Scope { Scope() { sched::Ignore i; Wp() = new World; } ~Scope() { sched::Ignore i; delete Wp(); Wp() = nullptr; } };

inline SockP sock(int fd) { auto it = W().socks.find(fd); return it == W().socks.end() ? nullptr : it->second; }
inline int listeners(int port) { int n = 0; for (auto& [f, k] : W().socks) n += k->listener && k->port == port; return n; }
inline int openSocks() { return (int)W().socks.size(); }
inline int addSock(SockP k) { int fd = W().next++; W().socks[fd] = k; return fd; }
// a new connection to the port: the near end, or nothing
inline SockP dialTo(int port) {
    std::vector<SockP> ls; { sched::Ignore i; for (auto& [f, k] : W().socks) if (k->listener && k->port == port) ls.push_back(k); }
    if (ls.empty()) { sched::Ignore i; auto it = W().service.find(port); if (it == W().service.end()) return nullptr; auto near = std::make_shared<Sock>(), far = std::make_shared<Sock>(); near->peer = far; far->peer = near; far->svc = it->second; far->port = near->port = port; W().owned.push_back(near); W().owned.push_back(far); return near; }
    int n = (int)ls.size(), c = n > 1 ? sched::choose(n, 1) : 0;
    SockP far; SockP near; { sched::Ignore i; near = std::make_shared<Sock>(); far = std::make_shared<Sock>(); near->peer = far; far->peer = near; ls[(std::size_t)c]->queue.push_back(far); W().owned.push_back(near); W().owned.push_back(far); }
    sched::hbRelease(far.get()); return near;
}
inline void shut(SockP k) { k->open = false; if (auto p = k->peer.lock()) p->eof = true; for (auto& q : k->queue) if (auto p = q->peer.lock()) p->eof = true, q->open = false; k->queue.clear(); k->listener = false; }
inline bool put(SockP k, char const* b, std::size_t n) { auto p = k->peer.lock(); if (!k->open || !p || !p->open) return false; sched::hbRelease(p.get()); sched::Ignore i; p->in.append(b, n); if (p->svc) p->svc(p); return true; }

inline void post(Ring& R, uint64_t ud, int res) {
    if (R.cqt - R.cqh >= R.cqn) sched::fail("cq-overflow", "completion queue overflow");
    auto& c = R.cqes[R.cqt & R.cqm]; c = {}; c.user_data = ud; c.res = res; ++R.cqt;
}
inline void submit(Ring& R) {       // called with Ignore held
    auto* r = R.r;
    // io_uring_get_sqe moves the user-side tail; the real submit publishes it
    for (; r->sq.sqe_head != r->sq.sqe_tail; ++r->sq.sqe_head) {
        io_uring_sqe& s = R.sqes[r->sq.sqe_head & R.sqm];
        if (s.opcode == IORING_OP_LINK_TIMEOUT) {
            auto* ts = (__kernel_timespec*)s.addr;
            if (R.pend.empty() || !R.pend.back().link) { post(R, s.user_data, -EINVAL); continue; }
            R.pend.back().tud = s.user_data; R.pend.back().tdl = sched::nowNs() + ts->tv_sec * 1'000'000'000ULL + ts->tv_nsec; continue;
        }
        Op o{s.opcode, s.fd, s.addr, s.len, s.user_data, ~0ULL, (int)s.flags, bool(s.flags & IOSQE_IO_LINK)};
        if (s.opcode == IORING_OP_TIMEOUT) { auto* ts = (__kernel_timespec*)s.addr; o.deadline = sched::nowNs() + ts->tv_sec * 1'000'000'000ULL + ts->tv_nsec; }
        if (s.opcode == IORING_OP_READ && s.fd == kSlowFd) o.deadline = sched::nowNs() + W().slow;
        R.pend.push_back(o);
    }
    R.sqh = R.sqt = r->sq.sqe_head;
}
// what an operation yields now (within the scheduler or the thread), or "not yet"
inline bool ready(Op const& o) {
    switch (o.op) {
        case IORING_OP_SOCKET: case IORING_OP_CONNECT: case IORING_OP_SEND: return true;
        case IORING_OP_ACCEPT: { auto k = sock(o.fd); return !k || !k->listener || !k->queue.empty(); }
        case IORING_OP_RECV: { auto k = sock(o.fd); return !k || !k->in.empty() || k->eof; }
        case IORING_OP_NOP: case IORING_OP_ASYNC_CANCEL: case IORING_OP_CLOSE: case IORING_OP_WRITE: return true;
        case IORING_OP_READ: if (auto it = W().events.find(o.fd); it != W().events.end()) return it->second > 0; return o.fd != kSlowFd || o.deadline <= sched::nowNs();
        case IORING_OP_TIMEOUT: return o.deadline <= sched::nowNs();
        default: return false;
    }
}
inline bool anyReady(Ring& R) { for (auto& o : R.pend) if (ready(o) || o.tdl <= sched::nowNs()) return true; return R.cqt != R.cqh; }
inline void completeAll(Ring& R) {
    for (bool again = true; again;) {
        again = false;
        for (auto it = R.pend.begin(); it != R.pend.end(); ++it) {
            bool late = !ready(*it) && it->tdl <= sched::nowNs();
            if (!ready(*it) && !late) continue;
            Op o; { sched::Ignore i; o = *it; R.pend.erase(it); }
            int res = 0;
            if (late) { sched::Ignore i; post(R, o.ud, -ECANCELED); post(R, o.tud, -ETIME); again = true; break; }
            switch (o.op) {
                case IORING_OP_SOCKET: { sched::Ignore i; res = addSock(std::make_shared<Sock>()); W().owned.push_back(sock(res)); break; }
                case IORING_OP_ACCEPT: {
                    SockP f; { sched::Ignore i; auto k = sock(o.fd); if (!k || !k->listener) { res = -EBADF; break; } f = k->queue.front(); k->queue.pop_front(); res = addSock(f); ++W().accepted; }
                    sched::hbAcquire(f.get()); break;
                }
                case IORING_OP_CONNECT: {
                    auto* a = (sockaddr_in const*)o.addr; SockP n = dialTo(ntohs(a->sin_port));
                    sched::Ignore i; auto k = sock(o.fd); if (!k) { res = -EBADF; break; }
                    if (!n) { res = -ECONNREFUSED; break; }
                    W().socks[o.fd] = n; break;
                }
                case IORING_OP_SEND: { SockP k; { sched::Ignore i; k = sock(o.fd); } res = !k ? -EBADF : put(k, (char const*)o.addr, o.len) ? (int)o.len : -EPIPE; break; }
                case IORING_OP_RECV: {
                    SockP k; { sched::Ignore i; k = sock(o.fd); } if (!k) { res = -EBADF; break; }
                    sched::hbAcquire(k.get()); std::string b; { sched::Ignore i; b = k->in.substr(0, o.len); k->in.erase(0, b.size()); }
                    std::memcpy((void*)o.addr, b.data(), b.size()); res = (int)b.size(); break;
                }
                case IORING_OP_CLOSE: { sched::Ignore i; auto k = sock(o.fd); if (k) { shut(k); W().socks.erase(o.fd); } else if (o.fd >= 1000) sched::fail("bad-fd", "a descriptor is closed twice"); break; }
                case IORING_OP_ASYNC_CANCEL: {
                    sched::Ignore i; res = -ENOENT;
                    for (auto j = R.pend.begin(); j != R.pend.end(); ++j) if (j->ud == o.addr) { post(R, j->ud, -ECANCELED); if (j->tud) post(R, j->tud, -ECANCELED); R.pend.erase(j); res = 0; break; }
                    break;
                }
                case IORING_OP_TIMEOUT: res = -ETIME; break;
                case IORING_OP_WRITE: res = (int)o.len; break;
                case IORING_OP_READ:
                    if (W().events.count(o.fd)) { uint64_t v; { sched::Ignore i; v = W().events[o.fd]; W().events[o.fd] = 0; } sched::hbAcquire((void*)(uintptr_t)o.fd); if (v) std::memcpy((void*)o.addr, &v, 8); res = 8; }
                    else if (o.fd == kSlowFd) { *(volatile char*)o.addr = 'x'; res = 1; }
                    else res = -EBADF;
                    break;
            }
            { sched::Ignore i; post(R, o.ud, res); if (o.tud) post(R, o.tud, -ECANCELED); }
            again = true; break;
        }
    }
}
inline int waitFor(struct io_uring* r, int64_t ns) {
    Ring* R; { sched::Ignore i; R = W().rings.at(r).get(); submit(*R); }
    uint64_t limit = ns < 0 ? ~0ULL : sched::nowNs() + (uint64_t)ns;
    for (;;) {
        uint64_t dl = limit; bool io = false;
        for (auto& o : R->pend) { if (o.deadline < dl) { dl = o.deadline; io = true; } if (o.tdl < dl) { dl = o.tdl; io = true; } }
        auto rd = [R] { return anyReady(*R); };
        bool got;
        if (dl == ~0ULL) { sched::block(rd, "ring"); got = true; }
        else if (dl <= sched::nowNs()) { sched::point("ring"); got = rd(); }
        else got = sched::blockFor(rd, dl - sched::nowNs(), "ring") || rd();
        if (got) { completeAll(*R); return 0; }
        if (!io) return -ETIME;
    }
}
} // namespace ringa

extern "C" {
int io_uring_queue_init(unsigned entries, struct io_uring* r, unsigned) {
    sched::Ignore i;
    std::memset(r, 0, sizeof *r);
    auto R = std::make_unique<ringa::Ring>(); R->r = r;
    unsigned n = 1; while (n < entries) n <<= 1;
    R->sqes.resize(n); R->sqn = n; R->sqm = n - 1; R->cqes.resize(2 * n); R->cqn = 2 * n; R->cqm = 2 * n - 1;
    r->sq.khead = &R->sqh; r->sq.ktail = &R->sqt; r->sq.kflags = &R->sqf; r->sq.kdropped = &R->sqd; r->sq.kring_mask = &R->sqm; r->sq.kring_entries = &R->sqn;
    r->sq.ring_mask = R->sqm; r->sq.ring_entries = n; r->sq.sqes = R->sqes.data();
    r->cq.khead = &R->cqh; r->cq.ktail = &R->cqt; r->cq.kflags = &R->sqf; r->cq.koverflow = &R->cqo; r->cq.kring_mask = &R->cqm; r->cq.kring_entries = &R->cqn;
    r->cq.ring_mask = R->cqm; r->cq.ring_entries = 2 * n; r->cq.cqes = R->cqes.data();
    r->features = IORING_FEAT_EXT_ARG; r->ring_fd = r->enter_ring_fd = 999;
    sched::quiet(R.get(), sizeof(ringa::Ring));
    ringa::W().rings[r] = std::move(R);
    return 0;
}
void io_uring_queue_exit(struct io_uring* r) { sched::Ignore i; ringa::W().rings.erase(r); }
int io_uring_submit(struct io_uring* r) { sched::point("submit"); sched::Ignore i; auto& R = *ringa::W().rings.at(r); unsigned n = r->sq.sqe_tail - r->sq.sqe_head; ringa::submit(R); return (int)n; }
int io_uring_submit_and_wait(struct io_uring* r, unsigned nr) { if (!nr) return io_uring_submit(r); return ringa::waitFor(r, -1); }
int io_uring_submit_and_wait_timeout(struct io_uring* r, struct io_uring_cqe** c, unsigned, struct __kernel_timespec* ts, sigset_t*) {
    int rc = ringa::waitFor(r, ts ? ts->tv_sec * 1'000'000'000LL + ts->tv_nsec : -1);
    if (c) { sched::Ignore i; auto& R = *ringa::W().rings.at(r); *c = R.cqh != R.cqt ? &R.cqes[R.cqh & R.cqm] : nullptr; }
    return rc;
}
int setsockopt(int, int, int, const void*, socklen_t) noexcept { return 0; }
int bind(int fd, const struct sockaddr* a, socklen_t) noexcept { sched::Ignore i; if (ringa::W().bindFails > 0) { --ringa::W().bindFails; errno = EADDRINUSE; return -1; } if (auto k = ringa::sock(fd)) k->port = ntohs(((sockaddr_in const*)a)->sin_port); return 0; }
int listen(int fd, int) noexcept { sched::point("listen"); sched::Ignore i; if (auto k = ringa::sock(fd)) k->listener = true; return 0; }
int getaddrinfo(const char*, const char* service, const struct addrinfo*, struct addrinfo** res) {
    auto* a = new addrinfo{}; auto* s = new sockaddr_in{}; s->sin_family = AF_INET; s->sin_port = htons((uint16_t)std::strtol(service ? service : "80", nullptr, 10)); if (!s->sin_port) s->sin_port = htons(80);
    a->ai_family = AF_INET; a->ai_socktype = SOCK_STREAM; a->ai_addr = (sockaddr*)s; a->ai_addrlen = sizeof *s; *res = a; return 0;
}
void freeaddrinfo(struct addrinfo* a) noexcept { while (a) { auto* n = a->ai_next; delete (sockaddr_in*)a->ai_addr; delete a; a = n; } }
int eventfd(unsigned v, int) noexcept { if (!sched::active()) return (int)::syscall(SYS_eventfd2, v, 0); sched::Ignore i; int fd = ringa::W().next++; ringa::W().events[fd] = v; return fd; }
ssize_t write(int fd, void const* p, size_t n) {
    if (sched::active() && fd >= 1000) {
        sched::point("eventfd.write"); 
        if (!ringa::Wp() || !ringa::W().events.count(fd)) sched::fail("bad-fd", "a thread writes to a descriptor that was closed");
        uint64_t v; std::memcpy(&v, p, 8); sched::hbRelease((void*)(uintptr_t)fd); sched::Ignore i; ringa::W().events[fd] += v; return (ssize_t)n;
    }
    return ::syscall(SYS_write, fd, p, n);
}
int close(int fd) {
    if (sched::active() && fd >= 1000) { sched::Ignore i; if (auto k = ringa::sock(fd)) { ringa::shut(k); ringa::W().socks.erase(fd); return 0; } if (!ringa::W().events.erase(fd)) sched::fail("bad-fd", "a descriptor is closed twice"); return 0; }
    return (int)::syscall(SYS_close, fd);
}
}
