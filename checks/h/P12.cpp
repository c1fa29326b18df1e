#include "co_common.hpp"
#include <HXLibs/utils/FileUtils.hpp>
#include <fstream>
#include <sys/stat.h>
using namespace vp; using utils::AsyncFile; using platform::OpenMode;
static std::string dir;                            // scratch directory of this process
static void put(std::string const& f, std::string const& s) { std::ofstream o(f, std::ios::binary | std::ios::trunc); o.write(s.data(), (std::streamsize)s.size()); }
static std::string get(std::string const& f) { std::ifstream i(f, std::ios::binary); return {std::istreambuf_iterator<char>(i), {}}; }
static std::string pattern(std::size_t n, unsigned seed) { std::string s(n, 0); unsigned x = seed * 2654435761u + 12345; for (auto& c : s) { x = x * 1664525u + 1013904223u; c = (char)(x >> 24); } return s; }

enum O { OPEN_R, OPEN_W, OPEN_RW, OPEN_A, OPEN_MISS, RD1, RD3, RD9, RDS2, RDALL, WR1, WR4, WR0, OFF0, OFF2, OFF7, OFF50, CLOSE, NOPS };
static char const* nm[] = {"open r", "open w", "open rw", "open a", "open missing", "read 1", "read 3", "read 9", "read 2 of 5", "readAll", "write 1", "write 4", "write 0", "offset 0", "offset 2", "offset 7", "offset 50", "close"};
struct Mdl {
    std::string f; bool open = false; OpenMode m{}; std::size_t off = 0, w = 0; int nw = 0;
    bool canRead() const { return m == OpenMode::Read || m == OpenMode::ReadWrite; }
    bool canWrite() const { return m != OpenMode::Read; }
    void write(std::string const& s) { if (m == OpenMode::Append) { f += s; return; } if (f.size() < w + s.size()) f.resize(w + s.size()); f.replace(w, s.size(), s); w += s.size(); }
};
static std::string show(std::vector<int> const& v) { std::string s; for (int o : v) s += (s.empty() ? "" : ", ") + std::string(nm[o]); return s; }
// One history on one AsyncFile. Short transfers and errors are chosen by the kernel.
static void history(std::vector<int> const& ops, std::size_t initial, mc::Chooser* ch, bool shorts, bool errs) {
    sim::reset(ch); auto& w = sim::W(); w.chFile = shorts; w.chFileErr = errs; w.maxEvents = 20000;
    std::string path = dir + "/f", what = "file of " + std::to_string(initial) + " bytes: " + show(ops) + (ch ? " choices " + ch->str() : "");
    Mdl m; m.f = pattern(initial, 1); put(path, m.f); std::string oc; bool failed = false;
    auto err = [&](std::string k, std::string s) { mc::fail(k, "file of " + std::to_string(initial) + " bytes: " + show(ops) + (ch ? " choices " + ch->str() : "") + ": " + s); failed = true; };
    {
        EventLoop loop; AsyncFile file{loop};
        auto body = [&]() -> Task<> {
            for (std::size_t i = 0; i < ops.size() && !failed; ++i) {
                int o = ops[i]; bool thrown = false; std::string tw; std::string at = "step " + std::to_string(i) + " (" + nm[o] + ")";
                bool kernelErr = false; auto save = w.fault; std::size_t nErr = 0;
                (void)kernelErr; (void)save; (void)nErr;
                std::size_t before = ch ? (std::size_t)ch->devs : 0;
                switch (o) {
                case OPEN_R: case OPEN_W: case OPEN_RW: case OPEN_A: case OPEN_MISS: {
                    OpenMode md = o == OPEN_W ? OpenMode::Write : o == OPEN_RW ? OpenMode::ReadWrite : o == OPEN_A ? OpenMode::Append : OpenMode::Read;
                    std::string p = (o == OPEN_MISS ? dir + "/none" : path) + "garbage"; auto sv = std::string_view{p}.substr(0, p.size() - 7);
                    try { co_await file.open(sv, md); } catch (std::system_error const& e) { thrown = true; tw = e.what(); } catch (std::exception const& e) { thrown = true; tw = std::string("?") + e.what(); }
                    if (o == OPEN_MISS) { if (!thrown) err("open", at + ": opening a missing file succeeded"); }
                    else if (thrown) { if (!errs) err("open", at + ": " + tw); }
                    else { m.open = true; m.m = md; m.off = 0; m.w = 0; if (md == OpenMode::Write) m.f.clear(); }
                    if (thrown && w.openReal) err("fd-leak", at + ": descriptor left open after a failed open");
                    if (thrown) { if (o != OPEN_MISS && !errs) co_return; if (o != OPEN_MISS) co_return; }
                    break;
                }
                case RD1: case RD3: case RD9: case RDS2: {
                    std::size_t cap = o == RD1 ? 1 : o == RD3 ? 3 : o == RD9 ? 9 : 5, n = o == RDS2 ? 2 : cap; std::vector<char> b(cap, '#'); int k = 0;
                    try { if (o == RDS2) k = co_await file.read(std::span<char>{b.data(), cap}, 2u); else k = co_await file.read(std::span<char>{b.data(), cap}); } catch (std::exception const& e) { thrown = true; tw = e.what(); }
                    if (!m.canRead()) { if (!thrown) err("no-error", at + ": reading a file opened for writing succeeded"); break; }
                    std::size_t avail = m.off < m.f.size() ? std::min(n, m.f.size() - m.off) : 0;
                    if (thrown) { if (!errs) err("read", at + ": " + tw); break; }
                    if (errs && ch && (std::size_t)ch->devs > before && !shorts) { err("no-error", at + ": the kernel reported an error, read returned " + std::to_string(k)); break; }
                    if (k < 0 || (std::size_t)k > avail || (avail && !k) || (!shorts && (std::size_t)k != avail)) { err("read", at + ": returned " + std::to_string(k) + ", available " + std::to_string(avail)); break; }
                    if (std::memcmp(b.data(), m.f.data() + (k ? m.off : 0), (std::size_t)k)) err("wrong-data", at + ": wrong bytes");
                    m.off += (std::size_t)k; oc += std::to_string(k) + ","; break;
                }
                case RDALL: {
                    std::string s; try { s = co_await file.readAll(); } catch (std::exception const& e) { thrown = true; tw = e.what(); }
                    if (!m.canRead()) { if (!thrown) err("no-error", at + ": reading a file opened for writing succeeded"); break; }
                    if (thrown) { if (!errs) err("read", at + ": " + tw); file.setOffset(m.off); break; }
                    if (errs && ch && (std::size_t)ch->devs > before && !shorts) { err("no-error", at + ": the kernel reported an error, readAll returned " + std::to_string(s.size()) + " bytes"); break; }
                    std::string ex = m.off < m.f.size() ? m.f.substr(m.off) : "";
                    if (s != ex) err("wrong-data", at + ": returned " + std::to_string(s.size()) + " bytes instead of the " + std::to_string(ex.size()) + " bytes behind the offset");
                    m.off = std::max(m.off, m.f.size()); oc += "A" + std::to_string(s.size()); break;
                }
                case WR0: case WR1: case WR4: {
                    std::string t = pattern(o == WR0 ? 0 : o == WR1 ? 1 : 4, 100 + (unsigned)m.nw++); std::vector<char> b(t.begin(), t.end());
                    try { co_await file.write(std::span<char const>{b.data(), b.size()}); } catch (std::exception const& e) { thrown = true; tw = e.what(); }
                    if (!m.canWrite()) { if (!thrown && !t.empty()) err("no-error", at + ": writing a file opened for reading succeeded"); break; }
                    if (thrown) {
                        if (!errs) { err("write", at + ": " + tw); break; }
                        auto now = get(path); bool ok = false; std::size_t k = 0;
                        for (; k <= t.size() && !ok; ++k) { Mdl x = m; x.write(t.substr(0, k)); if (x.f == now) { m = x; ok = true; } }
                        if (!ok) err("wrong-data", at + ": a failed write left other bytes than a prefix of the buffer");
                        break;
                    }
                    if (errs && ch && (std::size_t)ch->devs > before && !shorts) { err("no-error", at + ": the kernel reported an error, write succeeded"); break; }
                    m.write(t); if (get(path) != m.f) err("wrong-data", at + ": the file does not hold the written bytes");
                    break;
                }
                case OFF0: case OFF2: case OFF7: case OFF50: m.off = o == OFF0 ? 0 : o == OFF2 ? 2 : o == OFF7 ? 7 : 50; file.setOffset(m.off); break;
                default:
                    try { co_await file.close(); } catch (std::exception const& e) { err("close", at + ": " + e.what()); }
                    m.open = false; if (w.openReal || w.badClose) err("fd-leak", at + ": " + (w.badClose ? w.badWhat : "descriptor still open"));
                }
            }
        };
        try { auto t = body(); loop.sync(std::move(t)); }
        catch (sim::Runaway const&) { err("endless", "endless loop"); return; } catch (sim::Quiet const&) { err("stuck", "waits for ever"); return; }
        catch (std::exception const& e) { err("unexpected", e.what()); }
    }
    for (int fd : sim::W().realFds) ::close(fd);
    if (failed) return;
    if (get(path) != m.f) err("wrong-data", "final contents differ");
    mc::outcome(what + oc + m.f); mc::state(); mc::transition(ops.size());
}
static void clean() { std::string c = dir; if (c.find("/vpP12.") != c.npos) { ::unlink((c + "/f").c_str()); ::unlink((c + "/none").c_str()); ::unlink((c + "/g").c_str()); ::rmdir((c + "/d").c_str()); ::rmdir(c.c_str()); } }
// enumerates histories: opens only while closed, everything else only while open
template <class F> static void hist(std::vector<int>& v, int depth, bool open, F&& f) {
    if ((int)v.size() == depth) { f(v); return; }
    for (int o = 0; o < NOPS; ++o) {
        bool isOpen = o <= OPEN_MISS; if (isOpen == open) continue;
        v.push_back(o); hist(v, depth, o == CLOSE ? false : o == OPEN_MISS ? false : isOpen ? true : open, f); v.pop_back();
    }
}
static bool opens(std::vector<int> const& v) { for (int o : v) if (o < OPEN_MISS) return true; return false; }
void mc_main() {
    { char const* b = std::getenv("TMPDIR"); std::string t = std::string(b && *b ? b : "/tmp") + "/vpP12.XXXXXX"; dir = ::mkdtemp(t.data()); }
    // 1. all histories, complete transfers; shorter ones with every short transfer and every error
    int D = mc::thorough() ? 6 : 5;
    for (int a = 0; a < NOPS; ++a) for (int b = 0; b < NOPS; ++b) {
        std::vector<int> v{a, b}; if (a > OPEN_MISS || (b <= OPEN_MISS) != (a == OPEN_MISS)) continue;
        bool op = a == OPEN_MISS ? b < OPEN_MISS : b != CLOSE;
        mc::run_case("histories " + show(v), [&] {
            for (std::size_t init : {0u, 10u}) {
                auto v1 = v; hist(v1, D, op, [&](std::vector<int> const& h) { mc::detail(show(h)); history(h, init, nullptr, false, false); });
                auto v2 = v; hist(v2, 4, op, [&](std::vector<int> const& h) { if (opens(h)) { mc::sub_explore("short " + show(h), mc::thorough() ? 3 : 2, [&](mc::Chooser& c) { history(h, init, &c, true, false); mc::validated(); });
                    mc::sub_explore("errors " + show(h), 1, [&](mc::Chooser& c) { history(h, init, &c, false, true); mc::validated(); }); } });
                auto v3 = v; hist(v3, 3, op, [&](std::vector<int> const& h) { if (opens(h)) { mc::sub_explore("short " + show(h), 100, [&](mc::Chooser& c) { history(h, init, &c, true, false); mc::validated(); });
                    mc::sub_explore("both " + show(h), 3, [&](mc::Chooser& c) { history(h, init, &c, true, true); mc::validated(); }); } });
            }
            mc::sample(show(v) + ", ...");
        });
    }
    // 2. sizes around the transfer buffer
    std::size_t B = utils::FileUtils::kBufMaxSize;
    for (std::size_t n : {std::size_t(1), std::size_t(4095), B - 1, B, B + 1, 2 * B - 1, 2 * B, 2 * B + 1, 3 * B + 17}) mc::run_case("size " + std::to_string(n), [&] {
        for (int mode = 0; mode < 4; ++mode) mc::sub_explore("mode " + std::to_string(mode), mc::thorough() ? 3 : 2, [&](mc::Chooser& c) {
            sim::reset(&c); sim::W().chFile = true; auto data = pattern(n, 7); std::string path = dir + "/f"; std::string back; put(path, mode == 2 ? data : mode == 3 ? data.substr(0, n / 2) : "old");
            {
                EventLoop loop; AsyncFile file{loop};
                auto body = [&]() -> Task<> {
                    if (mode < 2) { co_await file.open(path, mode ? OpenMode::Append : OpenMode::Write); co_await file.write(std::span<char const>{data.data(), data.size()}); co_await file.close(); }
                    if (mode == 3) {                  // the file grows after it was opened
                        co_await file.open(path, OpenMode::ReadWrite); co_await file.write(std::span<char const>{data.data(), data.size()}); back = co_await file.readAll(); co_await file.close(); co_return;
                    }
                    co_await file.open(path, OpenMode::Read); if (mode == 1) file.setOffset(3); back = co_await file.readAll(); co_await file.close();
                };
                auto t = body(); loop.sync(std::move(t));
            }
            MC_CHECK(back == data, "wrong-data", "file of " + std::to_string(n) + " bytes mode " + std::to_string(mode) + " choices " + c.str() + ": " + std::to_string(back.size()) + " bytes read back" + (back.size() == n ? " differ" : ""));
            MC_CHECK(get(path) == (mode == 1 ? "old" + data : data), "wrong-data", "file of " + std::to_string(n) + " bytes mode " + std::to_string(mode) + " choices " + c.str() + ": wrong contents on disk");
            MC_CHECK(!sim::W().openReal, "fd-leak", "descriptor left open"); mc::state(); mc::transition(4); mc::validated();
        });
    });
    // 3. other ways of opening: relative to a directory, synchronous forms, directories and special files
    mc::run_case("opening", [&] {
        sim::reset(nullptr); EventLoop loop; put(dir + "/g", "relative"); int d = ::open(dir.c_str(), O_RDONLY | O_DIRECTORY);
        { AsyncFile f{loop}; try { f.syncOpen("g", OpenMode::Read, d); auto s = f.syncReadAll(); f.syncClose(); MC_CHECK(s == "relative", "wrong-data", "file opened relative to a directory reads " + s); } catch (std::exception const& e) { mc::fail("open", std::string("relative to a directory: ") + e.what()); } }
        MC_CHECK(!sim::W().openReal, "fd-leak", "descriptor left open after opening relative to a directory");
        { AsyncFile f{loop}; try { f.syncOpen("/dev/null", OpenMode::Read); auto s = f.syncReadAll(); f.syncClose(); MC_CHECK(s.empty(), "wrong-data", "/dev/null reads " + s); } catch (std::exception const& e) { mc::fail("open", std::string("special file: ") + e.what()); } }
        MC_CHECK(!sim::W().openReal, "fd-leak", "descriptor left open after opening a special file");
        ::mkdir((dir + "/d").c_str(), 0755);
        { AsyncFile f{loop}; bool th = false; try { f.syncOpen(dir + "/d", OpenMode::Write); } catch (std::system_error const&) { th = true; } MC_CHECK(th, "no-error", "a directory was opened for writing"); }
        { AsyncFile f{loop}; try { f.syncOpen(dir + "/d", OpenMode::Directory); bool th = false; try { f.syncReadAll(); } catch (std::system_error const&) { th = true; } MC_CHECK(th, "no-error", "a directory was read as a file"); f.syncClose(); } catch (std::exception const& e) { mc::fail("open", std::string("directory: ") + e.what()); } }
        { AsyncFile f{loop}; f.syncOpen(dir + "/g", OpenMode::Write); std::string t = "sync text"; f.syncWrite({t.data(), t.size()}); f.syncClose(); f.syncOpen(dir + "/g", OpenMode::Read); char b[4]; int k = f.syncRead({b, 4}); int k2 = f.syncRead({b, 4}, 2); MC_CHECK(k == 4 && k2 == 2 && !std::memcmp(b, " t", 2), "wrong-data", "synchronous reads"); auto s = f.syncReadAll(); MC_CHECK(s == "ext", "wrong-data", "synchronous readAll after reads gave " + s); f.syncClose(); }
        MC_CHECK(!sim::W().openReal && !sim::W().badClose, "fd-leak", "descriptors");
        ::close(d); mc::state(6); mc::transition(20);
    });
    // 4. whole files at once
    mc::run_case("whole files", [&] {
        using U = utils::FileUtils; ::mkdir((dir + "/d").c_str(), 0755); std::string path = dir + "/g";
        for (std::size_t n : {0u, 1u, 2u, 4095u, 4096u, 8190u, 8191u, 8192u, 8193u, 16384u, 100001u}) for (std::size_t old : {0u, 1u, 9000u, 200000u}) {
            auto data = pattern(n, (unsigned)(n + old)); if (n > 3) data[1] = '\r', data[2] = '\n', data[3] = 0, data[n - 1] = (char)26; put(path, pattern(old, 9));
            try { U::putFileContent(path, data); } catch (std::exception const& e) { mc::fail("write", std::string("putFileContent: ") + e.what()); }
            MC_CHECK(get(path) == data, "wrong-data", "putFileContent of " + std::to_string(n) + " bytes over " + std::to_string(old) + " leaves other contents");
            try { auto g = U::getFileContent(path); MC_CHECK(g == data, "wrong-data", "getFileContent of " + std::to_string(n) + " bytes returned " + std::to_string(g.size()) + (g.size() == n ? " different" : "")); MC_CHECK(U::getFileSize(path) == n, "wrong-data", "getFileSize"); } catch (std::exception const& e) { mc::fail("read", std::string("getFileContent: ") + e.what()); }
            mc::state(); mc::transition(3);
        }
        for (std::size_t n : {1u, 100u, 8191u, 8192u, 20000u}) { bool th = false; try { U::putFileContent("/dev/full", pattern(n, 1)); } catch (std::exception const&) { th = true; } MC_CHECK(th, "no-error", "putFileContent of " + std::to_string(n) + " bytes to a full device reported success"); }
        for (std::string bad : {dir + "/none", dir + "/none/x", dir + "/d"}) {
            bool th = false; try { (void)U::getFileContent(bad); } catch (std::exception const&) { th = true; } MC_CHECK(th, "no-error", "getFileContent of " + bad.substr(dir.size()) + " reported success");
            if (bad == dir + "/none") continue; th = false; try { U::putFileContent(bad, "x"); } catch (std::exception const&) { th = true; } MC_CHECK(th, "no-error", "putFileContent to " + bad.substr(dir.size()) + " reported success");
        }
    });
    clean();
}
