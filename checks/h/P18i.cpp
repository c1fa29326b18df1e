// P18 (second part): interceptors run around the handler in registration order; a rejecting one prevents it.
#include "srv_common.hpp"
using namespace vp;
static uint64_t runs;
static std::string ev; static unsigned beforeMask, afterMask; static bool suspend;   // bit i: interceptor i accepts
static EventLoop* lp(Req& q) { (void)q; return nullptr; }
static Task<bool> later(Req& q, bool v) { if (suspend) co_await static_cast<EventLoop&>(q.getIO()).makeTimer().sleepFor(std::chrono::milliseconds{1}); co_return v; }
template <int I> struct SS { bool before(Req&, Res&) { ev += "b" + std::to_string(I); return beforeMask >> I & 1; } bool after(Req&, Res&) { ev += "a" + std::to_string(I); return afterMask >> I & 1; } };
template <int I> struct AA { Task<bool> before(Req& q, Res&) { ev += "b" + std::to_string(I); co_return co_await later(q, beforeMask >> I & 1); } Task<bool> after(Req& q, Res&) { ev += "a" + std::to_string(I); co_return co_await later(q, afterMask >> I & 1); } };
template <int I> struct S_ { bool before(Req&, Res&) { ev += "b" + std::to_string(I); return beforeMask >> I & 1; } };
template <int I> struct A_ { Task<bool> before(Req& q, Res&) { ev += "b" + std::to_string(I); co_return co_await later(q, beforeMask >> I & 1); } };
template <int I> struct _S { bool after(Req&, Res&) { ev += "a" + std::to_string(I); return afterMask >> I & 1; } };
template <int I> struct _A { Task<bool> after(Req& q, Res&) { ev += "a" + std::to_string(I); co_return co_await later(q, afterMask >> I & 1); } };
struct Hk { bool b, a; };
template <template <int> class T> constexpr Hk hk() { return {requires(T<0> t, Req& q, Res& s) { t.before(q, s); }, requires(T<0> t, Req& q, Res& s) { t.after(q, s); }}; }
static std::string nm;

static void judge(Rt const& r, std::string path, std::vector<Hk> hs, std::string what) {
    std::size_t n = hs.size();
    for (unsigned bm = 0; bm < (1u << n); ++bm) for (unsigned am = 0; am < (1u << n); ++am) for (int s = 0; s < 2; ++s) for (int twice = 0; twice < 2; ++twice) {
        ++runs; mc::transition(); mc::arm(); ev.clear(); beforeMask = bm; afterMask = am; suspend = s;
        auto w = [&] { return what + " accepting before " + std::to_string(bm) + " after " + std::to_string(am) + (s ? " (suspending)" : ""); };
        std::shared_ptr<sim::Conn> c; std::string rq = "GET " + path + " HTTP/1.1\r\n\r\n";
        try { c = serve(nullptr, r, [&](sim::Conn& c) { c.data(rq + (twice ? rq : "")).fin(); }); } catch (sim::Quiet&) { mc::fail("stuck", w()); return; } catch (sim::Runaway&) { mc::fail("livelock", w()); return; }
        std::string pre, post; bool ran = true;
        for (std::size_t i = 0; i < n && ran; ++i) if (hs[i].b) { pre += "b" + std::to_string(i); if (!(bm >> i & 1)) ran = false; }
        for (std::size_t i = 0; i < n; ++i) if (hs[i].a) { post += "a" + std::to_string(i); if (!(am >> i & 1)) break; }
        std::string full = pre + "H" + post;
        bool ok = ran ? ev == (twice ? full + full : full) : ev.find('H') == ev.npos && ev.starts_with(pre) && ev.find('b', pre.size()) == (twice ? ev.find('b', pre.size()) : ev.npos) && (!twice || [&] { std::string e; for (std::size_t i = 0; i + 1 < ev.size(); i += 2) if (ev[i] == 'b') e += ev.substr(i, 2); return e == pre + pre; }());
        if (!ok) { mc::fail(ran ? "order" : "rejection", w() + ": events " + ev + ", expected " + pre + (ran ? "H" + post : " and no handler") + (twice ? " for each of two requests" : "")); return; }
        std::size_t p = 0; Rsp a; std::string why; bool got = readRsp(c->out, p, false, a, why) == OK; if (got != ran || (ran && a.body != "handled")) { mc::fail("response", w() + ": response " + mc::esc(c->out, 100)); return; }
        if (c->closes != 1) { mc::fail("not-closed", w()); return; }
    }
}
static auto H = [](Req&, Res& s) -> Task<> { ev += "H"; co_await s.setStatusAndContent(Status::CODE_200, "handled").sendRes(); };
static std::pair<char const*, char const*> kinds[] = {{"/x", "/x"}, {"/{a}/y", "/q/y"}, {"/w/**", "/w/a/b"}, {"/{a}/w/**", "/q/w/a"}};
template <template <int> class... Ts> static void go(int from, int to, bool err, std::string name) {
    mc::run_case("i/" + name, [&] {
        std::vector<Hk> hs{hk<Ts>()...};
        auto build = [&]<int... I>(std::integer_sequence<int, I...>) {
            for (int k = from; k < to; ++k) { Rt r; r.addEndpoint<GET>(kinds[k].first, H, Ts<I>{}...); judge(r, kinds[k].second, hs, "interceptors " + name + " on " + kinds[k].first); }
            if (err) { Rt r; r.setErrorEndpointFunc(H, Ts<I>{}...); judge(r, "/nothere", hs, "interceptors " + name + " on the not-found endpoint"); }
        };
        build(std::make_integer_sequence<int, sizeof...(Ts)>{}); mc::state(runs); runs = 0;
    });
}
template <template <int> class A> static void pairs(std::string n) { go<A, SS>(0, 1, false, n + "+SS"); go<A, AA>(0, 4, true, n + "+AA"); go<A, S_>(0, 1, false, n + "+S_"); go<A, A_>(0, 1, false, n + "+A_"); go<A, _S>(0, 1, false, n + "+_S"); go<A, _A>(0, 1, false, n + "+_A"); }
void mc_main() {
    (void)lp;
#if PART == 0
    go<SS>(0, 4, true, "SS"); go<AA>(0, 4, true, "AA"); go<S_>(0, 4, false, "S_"); go<A_>(0, 4, true, "A_"); go<_S>(0, 4, false, "_S"); go<_A>(0, 4, true, "_A");
#elif PART == 1
    pairs<SS>("SS"); pairs<AA>("AA");
#elif PART == 2
    pairs<S_>("S_"); pairs<A_>("A_");
#elif PART == 3
    pairs<_S>("_S"); pairs<_A>("_A");
#else
    go<AA, AA, AA>(0, 4, true, "AA+AA+AA"); go<SS, AA, SS>(0, 4, true, "SS+AA+SS"); go<A_, _A, SS>(0, 1, false, "A_+_A+SS"); go<_S, AA, S_>(0, 1, false, "_S+AA+S_"); go<SS, SS, SS>(0, 4, true, "SS+SS+SS");
#endif
}
