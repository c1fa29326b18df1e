// P29: token sealing: every single-character alteration, truncation, extension and cross-key use; every short operation sequence.
#include <mc.hpp>
#include <HXLibs/net/token/Token.hpp>
#include <set>
struct Tok { std::string user; int64_t id = 0; bool admin = false; std::vector<int> roles; bool operator==(Tok const&) const = default; };
struct K1 { static std::string getKey() { return "0123456789abcdef0123456789abcdef"; } };
struct K2 { static std::string getKey() { return "0123456789abcdef0123456789abcdeg"; } };   // differs in the last bit only
namespace vp {
using HX::net::token::TokenApi; using HX::net::token::Aes256Gcm;
static std::vector<Tok> vals() {
    std::vector<Tok> v{{"", 0, false, {}}, {"u", 1, true, {1}}, {"alice@example.com", -9223372036854775807LL, false, {1, 2, 3, -4}}, {std::string(100, 'x'), 42, true, {}}, {"q\"\\\n\t\x01", 7, false, {0, 0}}};
    for (int n = 0; n < 20; ++n) v.push_back({std::string(n, 'a' + n), n, n % 2 == 0, std::vector<int>(n % 5, n)});
    return v;
}
template <class API> int tryRead(API& api, std::string const& t, Tok const& want) {   // 0 rejected, 1 equal value, 2 other value
    Tok o;
    try { api.fromToken(o, t); } catch (std::exception&) { return 0; }
    return o == want ? 1 : 2;
}
static const char* R[] = {"rejected", "accepted with the original value", "accepted with another value"};
static void main_() {
    bool T = mc::thorough(); auto V = vals();
    auto& a1 = TokenApi::get<K1>(); auto& a2 = TokenApi::get<K2>();
    for (std::size_t i = 0; i < V.size(); ++i) mc::run_case("value/" + std::to_string(i), [&] {
        std::string t = a1.toToken(V[i]), u = a1.toToken(V[i]);
        auto ex = [&](const char* key, std::string const& tok, int want, auto& api) { mc::transition(); int r = tryRead(api, tok, V[i]); if (r != want) mc::fail(key, "value #" + std::to_string(i) + ", token of length " + std::to_string(tok.size()) + ": " + R[r]); };
        ex("roundtrip", t, 1, a1); ex("roundtrip", u, 1, a1);
        MC_CHECK(t != u, "not-unique", "two tokens of one value are equal");
        // the two random parts must differ as a whole, not in a trailing counter only: first 16 characters carry the 12-byte nonce
        MC_CHECK(t.substr(0, 16) != u.substr(0, 16), "nonce-reused", "two tokens share their nonce");
        for (char c : t) MC_CHECK(isalnum((unsigned char)c) || c == '-' || c == '_', "not-url-safe", "token contains " + mc::esc(std::string(1, c)));
        ex("cross-key", t, 0, a2); ex("after-failure", t, 1, a1);
        static const std::string AL = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789-_";
        static const std::string QA = "AZaz09-_"; static const std::string BADC = std::string("=+/. \n~", 7) + '\0' + '\xff' + '\x80';
        for (std::size_t p = 0; p < t.size(); ++p) {
            auto x = t;
            for (char c : (T || i < 2 ? AL : QA) + BADC) if (c != t[p]) { x[p] = c; ex("altered-character", x, 0, a1); }
            x = t; x.erase(p, 1); ex("deleted-character", x, 0, a1);
            x = t.substr(0, p); ex("truncated", x, 0, a1);
            if (p) { x = t.substr(p); ex("cut-front", x, 0, a1); }
            if (p + 1 < t.size() && t[p] != t[p + 1]) { x = t; std::swap(x[p], x[p + 1]); ex("swapped-characters", x, 0, a1); }
            x = t; x.insert(p, 1, 'A'); ex("inserted-character", x, 0, a1);
            // splice: head of one token, tail of the other
            x = t.substr(0, p) + u.substr(p); if (x != t && x != u) ex("spliced", x, 0, a1);
            mc::state();
        }
        for (auto s : {"A", "AA", "AAAA", "=", "==", "-", "_", "AAA"}) ex("extended", t + s, 0, a1);
        ex("doubled", t + t, 0, a1); ex("empty", "", 0, a1);
        ex("roundtrip-after-all", t, 1, a1); mc::outcome("v" + std::to_string(i));
    });
    // raw cipher: every plaintext length, every bit of the sealed text
    for (int n = 0; n <= (T ? 300 : 80); ++n) mc::run_case("seal/" + std::to_string(n), [&] {
        Aes256Gcm c(K1::getKey()); std::string p(n, 0); for (int i = 0; i < n; ++i) p[i] = char(i * 31 + n);
        auto e = c.encrypt(p); std::string d;
        auto rej = [&](std::string const& x) { mc::transition(); try { c.decrypt(x); return false; } catch (std::exception&) { return true; } };
        try { d = c.decrypt(e); } catch (std::exception& ex) { mc::fail("seal-roundtrip", "length " + std::to_string(n) + " rejected: " + ex.what()); return; }
        MC_CHECK(d == p, "seal-roundtrip", "length " + std::to_string(n));
        if (n >= 4) MC_CHECK(e.find(p) == std::string::npos, "plaintext-visible", "length " + std::to_string(n));
        for (std::size_t b = 0; b < e.size() * 8; ++b) { auto x = e; x[b / 8] ^= char(1 << b % 8); MC_CHECK(rej(x), "flipped-bit-accepted", "length " + std::to_string(n) + " bit " + std::to_string(b)); }
        for (std::size_t l = 0; l < e.size(); ++l) MC_CHECK(rej(e.substr(0, l)), "truncation-accepted", "length " + std::to_string(n) + " cut to " + std::to_string(l));
        MC_CHECK(rej(e + '\0') && rej(std::string(1, '\0') + e), "extension-accepted", "length " + std::to_string(n));
        mc::state(e.size()); mc::outcome("s" + std::to_string(n));
    });
    // every operation sequence on one sealing object (shared cipher context): encrypt a value, decrypt good, decrypt tampered, decrypt too short, move the object, cross-key decrypt
    int D = T ? 6 : 5; const int NO = 8; long total = 1; for (int i = 0; i < D; ++i) total *= NO;
    for (int first = 0; first < NO * NO; ++first) mc::run_case("seq/" + std::to_string(first), [&] {
        for (long rest = 0; rest < total / (NO * NO); ++rest) {
            long seq = first + rest * NO * NO; std::string desc;
            auto c = std::make_unique<Aes256Gcm>(K1::getKey()); Aes256Gcm o(K2::getKey()); std::vector<std::pair<std::string, std::string>> sealed; std::set<std::string> seen; bool ok = true;
            for (int k = 0; k < D && ok; ++k, seq /= NO) {
                int op = seq % NO; desc += std::to_string(op) + " "; mc::transition();
                auto good = [&](std::size_t i) { try { return c->decrypt(sealed[i].second) == sealed[i].first; } catch (std::exception&) { return false; } };
                auto rej = [&](Aes256Gcm& z, std::string const& x) { try { z.decrypt(x); return false; } catch (std::exception&) { return true; } };
                switch (op) {
                case 0: case 1: { std::string p = op ? "short" : ""; auto e = c->encrypt(p); ok = seen.insert(e).second; sealed.push_back({p, e}); if (!good(sealed.size() - 1)) ok = false; } break;
                case 2: if (!sealed.empty()) ok = good(0); break;
                case 3: if (!sealed.empty()) ok = good(sealed.size() - 1); break;
                case 4: if (!sealed.empty()) { auto x = sealed.back().second; x.back() ^= 1; ok = rej(*c, x); } break;
                case 5: ok = rej(*c, "short"); break;
                case 6: { auto n = std::make_unique<Aes256Gcm>(std::move(*c)); c = std::move(n); } break;
                case 7: if (!sealed.empty()) ok = rej(o, sealed.back().second); break;
                }
            }
            if (!ok) { mc::fail("sequence", "operation sequence " + desc + "(0/1 seal, 2/3 open first/last, 4 open tampered, 5 open too short, 6 move, 7 open with other key) misbehaves at its last step"); break; }
        }
        mc::outcome("q" + std::to_string(first));
    });
    mc::run_case("keys", [] { for (std::size_t n : {0, 1, 16, 31, 33, 64}) { bool t = false; try { Aes256Gcm c(std::string(n, 'k')); } catch (std::exception&) { t = true; } MC_CHECK(t, "bad-key-length", std::to_string(n)); } });
    mc::sample("token of {\"u\",1,true,[1]}: " + a1.toToken(V[1]));
}
}
void mc_main() { vp::main_(); }
