// P28: Base64, Base64Url and SHA-1 against their definitions, on every short input.
#include <mc.hpp>
#include <HXLibs/net/protocol/codec/Base64.hpp>
#include <HXLibs/net/protocol/codec/Base64Url.hpp>
#include <HXLibs/net/protocol/codec/SHA1.hpp>
#include <openssl/sha.h>
#include <openssl/evp.h>
namespace vp { using namespace HX::net;
static const char* STD = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/";
static const char* URL = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789-_";
// reference: literal bit-string definition of RFC 4648
static std::string ref(std::string const& in, const char* tab, bool pad) {
    std::string out; unsigned bits = 0, n = 0;
    for (unsigned char c : in) for (int b = 7; b >= 0; --b) {
        bits = bits << 1 | (c >> b & 1);
        if (++n == 6) { out += tab[bits]; bits = n = 0; }
    }
    if (n) { out += tab[bits << (6 - n)]; }
    if (pad) while (out.size() % 4) out += '=';
    return out;
}
static std::string hx(std::string const& s) { std::string r; char b[4]; for (unsigned char c : s) { snprintf(b, 4, "%02x", c); r += b; } return r; }
static void enc(std::string const& s) {
    // exact-size heap copy so that reading outside the input is seen by ASan
    std::vector<uint8_t> v(s.begin(), s.end()); v.shrink_to_fit();
    auto a = base64Encode(std::span<uint8_t>{v.data(), v.size()});
    if (a != ref(s, STD, true)) mc::fail("base64-encode", "input " + hx(s) + " encoded as " + a);
    auto b = base64UrlEncode(std::span<const uint8_t>{v.data(), v.size()});
    if (b != ref(s, URL, false)) mc::fail("base64url-encode", "input " + hx(s) + " encoded as " + b);
    auto b2 = base64UrlEncode(std::span<const char>{reinterpret_cast<const char*>(v.data()), v.size()});
    if (b2 != b) mc::fail("base64url-encode-char", "input " + hx(s));
    std::string d;
    try { d = base64UrlDecode(b); } catch (std::exception& e) { mc::fail("base64url-roundtrip-throws", "input " + hx(s)); return; }
    if (d != s) mc::fail("base64url-roundtrip", "input " + hx(s) + " decodes as " + hx(d));
}
// reference decoder: accepts exactly the canonical encodings
static bool refdec(std::string const& s, std::string& out) {
    out.clear(); unsigned acc = 0, n = 0;
    if (s.size() % 4 == 1) return false;
    for (char c : s) {
        const char* p = c ? std::strchr(URL, c) : nullptr; if (!p) return false;
        unsigned v = unsigned(p - URL);
        for (int b = 5; b >= 0; --b) { acc = acc << 1 | (v >> b & 1); if (++n == 8) { out += char(acc); acc = n = 0; } }
    }
    return acc == 0;    // left-over bits must be zero
}
static void dec(std::string const& s) {
    std::string want; bool ok = refdec(s, want);
    std::vector<char> v(s.begin(), s.end()); v.shrink_to_fit();
    try {
        auto d = base64UrlDecode(std::string_view{v.data(), v.size()});
        if (!ok) mc::fail("base64url-decode-accepts", "text \"" + mc::esc(s) + "\" is not an encoding but decodes as " + hx(d));
        else if (d != want) mc::fail("base64url-decode-wrong", "text \"" + mc::esc(s) + "\" decodes as " + hx(d) + " instead of " + hx(want));
    } catch (std::exception&) {
        if (ok) mc::fail("base64url-decode-rejects", "text \"" + mc::esc(s) + "\" is a valid encoding but is rejected");
    }
}
static std::string sha(std::string const& s) { unsigned char d[20]; ::SHA1((const unsigned char*)s.data(), s.size(), d); return std::string((char*)d, 20); }
static void shaChk(std::string const& s, std::vector<std::size_t> const& cuts) {
    SHA1Context c; std::size_t p = 0;
    std::vector<char> v(s.begin(), s.end()); v.shrink_to_fit();
    for (auto k : cuts) { c.update(v.data() + p, k - p); p = k; }
    c.update(v.data() + p, s.size() - p);
    unsigned char d[20]; c.finish(d);
    std::string got((char*)d, 20), want = sha(s);
    if (got != want) { std::string cs; for (auto k : cuts) cs += std::to_string(k) + " ";
        mc::fail("sha1", "message of " + std::to_string(s.size()) + " bytes (first bytes " + hx(s.substr(0, 16)) + ", updates cut at " + cs + "): digest " + hx(got) + " instead of " + hx(want)); }
}
static std::string pat(int kind, std::size_t n) {
    std::string s(n, 0);
    for (std::size_t i = 0; i < n; ++i) s[i] = kind == 0 ? 0 : kind == 1 ? char(0xff) : kind == 2 ? char(i) : kind == 3 ? char(i * 37 + 11) : kind == 4 ? char(0x80) : char(i * i + 3 * i);
    return s;
}
} // vp
void mc_main() { using namespace vp;
    bool T = mc::thorough();
    mc::run_case("enc/0", [] { enc(""); mc::outcome("enc0"); });
    for (int a = 0; a < 256; ++a) mc::run_case("enc3/" + std::to_string(a), [&] {
        enc(std::string(1, char(a)));
        std::string s(3, char(a));
        for (int b = 0; b < 256; ++b) {
            s.resize(3); s[1] = char(b); enc(s.substr(0, 2));
            // third byte: every value while the pair is on the 1-in-N grid, single-bit patterns elsewhere
            if (T || (b % 4) == (a % 4)) for (int c = 0; c < 256; ++c) { s[2] = char(c); enc(s); mc::transition(); }
            else for (int c : {0, 1, 2, 4, 8, 16, 32, 64, 128, 255, 0x3f, 0xc0}) { s[2] = char(c); enc(s); mc::transition(); }
        }
        mc::state(257); mc::outcome("enc3/" + std::to_string(a));
    });
    for (int n = 0; n <= (T ? 400 : 130); ++n) mc::run_case("enclen/" + std::to_string(n), [&] {
        for (int k = 0; k < 6; ++k) enc(pat(k, n));
        for (int i = 0; i < n; ++i) for (int b = 0; b < 8; ++b) { std::string s(n, 0); s[i] = char(1 << b); enc(s); mc::transition(); }
        mc::outcome("enclen" + std::to_string(n));
    });
    // decode: every string up to length 3 over all bytes, length 4 over alphabet classes, then single corruptions of longer texts
    mc::run_case("dec/0", [] { dec(""); });
    for (int a = 0; a < 256; ++a) mc::run_case("dec3/" + std::to_string(a), [&] {
        std::string s(1, char(a)); dec(s); bool alph = a && strchr(URL, a);
        for (int b = 0; b < 256; ++b) {
            s.resize(2); s[0] = char(a); s[1] = char(b); dec(s);
            bool ab = b && strchr(URL, b);
            if (!T && !(alph && ab) && !((a + b) % 8 == 0)) continue;
            s.resize(3);
            if (!T && alph && ab && (a + b) % 4) { for (unsigned char c : std::string("ABCEIQg_-9=+/ \0\xff", 16)) { s[2] = char(c); dec(s); } continue; }
            for (int c = 0; c < 256; ++c) { s[2] = char(c); dec(s); mc::transition(); }
        }
        mc::outcome("dec3/" + std::to_string(a));
    });
    static const std::string A4 = T ? std::string("ABCDEIQYgorwz059-_=+/ \n.~") + '\0' + '\xff' + '\x80' : std::string("ABEQgwz9-_=+/ ") + '\0' + '\xff';
    for (char a : A4) mc::run_case(std::string("dec5/") + std::to_string((unsigned char)a), [&] {
        std::string s(4, a);
        for (char b : A4) for (char c : A4) for (char d : A4) {
            s.resize(4); s[1] = b; s[2] = c; s[3] = d; dec(s); mc::transition();
            for (const char* t : {"A", "AA", "AB", "AAA", "AAB", "AAE", "AAAA", "A=AA"}) dec(s + t);
        }
        mc::outcome("dec5/" + std::to_string((int)a));
    });
    for (int n = 1; n <= (T ? 64 : 24); ++n) mc::run_case("decflip/" + std::to_string(n), [&] {
        std::string e = ref(pat(3, n), URL, false);
        for (std::size_t i = 0; i < e.size(); ++i) for (int c = 0; c < 256; ++c) { std::string x = e; x[i] = char(c); dec(x); mc::transition(); }
        dec(e + "="); dec(e + "=="); dec(e + "\n");
        mc::outcome("decflip" + std::to_string(n));
    });
    // SHA-1: every length up to L, every single cut (and every pair of cuts for short messages)
    int L = T ? 520 : 200;
    for (int n = 0; n <= L; ++n) mc::run_case("sha/" + std::to_string(n), [&] {
        for (int k = 0; k < 6; ++k) { auto s = pat(k, n); shaChk(s, {}); 
            for (std::size_t i = 0; i <= (std::size_t)n; ++i) { shaChk(s, {i}); mc::transition(); } }
        if (n <= (T ? 150 : 80)) { auto s = pat(3, n);
            for (std::size_t i = 0; i <= (std::size_t)n; ++i) for (std::size_t j = i; j <= (std::size_t)n; ++j) { shaChk(s, {i, j}); mc::transition(); } }
        mc::state(); mc::outcome(hx(sha(pat(3, n))));
    });
    for (int n : {55, 56, 63, 64, 119, 128}) mc::run_case("shabits/" + std::to_string(n), [&] {
        for (int i = 0; i < n * 8; ++i) { std::string s(n, 0); s[i / 8] = char(1 << i % 8); shaChk(s, {}); mc::transition(); mc::outcome(hx(sha(s))); }
    });
    if (T) mc::run_case("sha/large", [] {       // more than 2^32 bits
        std::string blk(1 << 20, 'a'); SHA1Context c; SHA_CTX o; ::SHA1_Init(&o);
        for (int i = 0; i < 520; ++i) { c.update(blk.data(), blk.size()); ::SHA1_Update(&o, blk.data(), blk.size()); }
        unsigned char a[20], b[20]; c.finish(a); ::SHA1_Final(b, &o);
        MC_CHECK(!memcmp(a, b, 20), "sha1-large", "message of 520 MiB: wrong digest");
    });
    mc::sample("base64(ff fe fd)=" + ref("\xff\xfe\xfd", STD, true));
    mc::sample("shaChk(\"\")=" + hx(sha("")));
}
