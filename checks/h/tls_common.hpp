// TLS peers built directly on OpenSSL (memory BIOs), certificates made at run time.
#pragma once
#include "cli_common.hpp"
#include <openssl/x509v3.h>
namespace vp {
enum End { OPEN, FIN, GONE, RST };
inline char const* const endName[] = {"silence", "a close", "a full close", "a reset"};
constexpr auto npos = std::string::npos;

struct Cert { X509* x = nullptr; EVP_PKEY* k = nullptr; };
struct CertSpec { std::string cn = "h", san = "DNS:h"; long from = -3600, to = 86400; bool ca = false; bool clientUse = false; };
inline EVP_PKEY* newKey() { EVP_PKEY* k = nullptr; EVP_PKEY_CTX* c = EVP_PKEY_CTX_new_id(EVP_PKEY_ED25519, nullptr); EVP_PKEY_keygen_init(c); EVP_PKEY_keygen(c, &k); EVP_PKEY_CTX_free(c); return k; }
inline Cert makeCert(CertSpec const& s, Cert const* issuer = nullptr) {
    static long serial = 1; Cert c; c.k = newKey(); c.x = X509_new(); X509_set_version(c.x, 2); ASN1_INTEGER_set(X509_get_serialNumber(c.x), serial++);
    X509_gmtime_adj(X509_getm_notBefore(c.x), s.from); X509_gmtime_adj(X509_getm_notAfter(c.x), s.to); X509_set_pubkey(c.x, c.k);
    auto* n = X509_get_subject_name(c.x); X509_NAME_add_entry_by_txt(n, "CN", MBSTRING_ASC, (unsigned char const*)s.cn.c_str(), -1, -1, 0);
    X509_set_issuer_name(c.x, issuer ? X509_get_subject_name(issuer->x) : n);
    X509V3_CTX v; X509V3_set_ctx_nodb(&v); X509V3_set_ctx(&v, issuer ? issuer->x : c.x, c.x, nullptr, nullptr, 0);
    auto ext = [&](int nid, std::string const& val) { if (auto* e = X509V3_EXT_conf_nid(nullptr, &v, nid, val.c_str())) { X509_add_ext(c.x, e, -1); X509_EXTENSION_free(e); } };
    ext(NID_basic_constraints, s.ca ? "critical,CA:TRUE" : "CA:FALSE"); if (!s.san.empty()) ext(NID_subject_alt_name, s.san);
    X509_sign(c.x, issuer ? issuer->k : c.k, nullptr); return c;
}
inline void savePem(Cert const& c, std::string const& f) { FILE* o = std::fopen((f + ".crt").c_str(), "w"); PEM_write_X509(o, c.x); std::fclose(o); o = std::fopen((f + ".key").c_str(), "w"); PEM_write_PrivateKey(o, c.k, nullptr, nullptr, 0, nullptr, nullptr); std::fclose(o); }

// One TLS end driven by what arrives: feeds its plaintext script, delivers its ciphertext in chosen pieces.
struct Peer {
    SSL* s = nullptr; BIO *rb = nullptr, *wb = nullptr; bool srv; std::size_t fed = 0;
    bool hs = false, failed = false, closed = false, dead = false;
    std::string got, err;                                            // plaintext received
    std::size_t seen = 0, sentPlain = 0;
    struct Act { std::function<bool(Peer&)> when; std::function<void(Peer&)> run; };
    std::deque<Act> acts; sim::Conn* c = nullptr;
    std::size_t total = 0, saidAt = npos; std::vector<std::size_t> cuts; std::size_t seg = 0, rec = 16384;
    std::size_t flipAt = npos; unsigned char flip = 1; std::size_t truncAt = npos; End end = GONE; bool flipped = false, truncated = false;   // sizes vary a little between runs: whether it happened
    Peer(SSL_CTX* ctx, bool server) : srv(server) { s = SSL_new(ctx); rb = BIO_new(BIO_s_mem()); wb = BIO_new(BIO_s_mem()); SSL_set_bio(s, rb, wb); server ? SSL_set_accept_state(s) : SSL_set_connect_state(s); }
    Peer(Peer const&) = delete;
    ~Peer() { SSL_free(s); }
    Peer& when(std::function<bool(Peer&)> p) { acts.push_back({std::move(p), {}}); return *this; }
    Peer& act(std::function<void(Peer&)> f) { acts.push_back({{}, std::move(f)}); return *this; }
    Peer& say(std::string t) { return act([t](Peer& p) { p.write(t); }); }
    Peer& bye() { return act([](Peer& p) { SSL_shutdown(p.s); }); }
    Peer& ends(End e) { return act([e](Peer& p) { p.flush(); p.finish(e); }); }
    Peer& aRq() { return when([](Peer& p) { Rq r; std::string w; std::size_t q = p.seen; if (readRq(p.got, q, r, w) == OK) { p.seen = q; return true; } return false; }); }
    void write(std::string const& t) { if (saidAt == npos) { flush(); saidAt = total; } for (std::size_t i = 0; i < t.size(); i += rec) SSL_write(s, t.data() + i, (int)std::min(rec, t.size() - i)); }
    void finish(End e) { if (dead) return; if (e != OPEN) dead = true; if (e == FIN) c->eof = true; else if (e == GONE) c->eof = c->peerGone = true; else if (e == RST) { c->err = ECONNRESET; c->peerGone = true; } }
    void flush() {
        int n = (int)BIO_ctrl_pending(wb); if (n <= 0) return;
        std::string o((std::size_t)n, 0); BIO_read(wb, o.data(), n); if (dead) { if (truncAt != npos) truncated = true; return; }
        if (flipAt != npos && flipAt >= total && flipAt < total + o.size()) o[flipAt - total] = (char)((unsigned char)o[flipAt - total] ^ flip), flipped = true;
        bool tr = truncAt != npos && truncAt <= total + o.size(); if (tr) truncated = truncated || truncAt < total + o.size(), o.resize(truncAt > total ? truncAt - total : 0);
        std::size_t b = 0; auto cutAt = [&](std::size_t p) { if (p > b && p < o.size()) { c->in.push_back(o.substr(b, p - b)); b = p; } };
        for (auto x : cuts) if (x > total) cutAt(x - total);
        if (seg) for (std::size_t x = seg - total % seg; x < o.size(); x += seg) cutAt(x);
        if (b < o.size()) c->in.push_back(o.substr(b));
        total += o.size(); if (tr) { finish(end); dead = true; }
    }
    bool step(sim::Conn& k) {
        c = &k; if (dead) return false; std::size_t t0 = total, f0 = fed, a0 = acts.size();
        if (k.out.size() > fed) { BIO_write(rb, k.out.data() + fed, (int)(k.out.size() - fed)); fed = k.out.size(); }
        ERR_clear_error();
        if (!hs && !failed) { int r = SSL_do_handshake(s); if (r == 1) hs = true; else if (SSL_get_error(s, r) != SSL_ERROR_WANT_READ) fail("handshake"); }
        if (hs && !failed) { std::string b(70000, 0); for (;;) { ERR_clear_error(); int r = SSL_read(s, b.data(), (int)b.size()); if (r > 0) { got.append(b, 0, (std::size_t)r); continue; } int e = SSL_get_error(s, r); if (e == SSL_ERROR_ZERO_RETURN) closed = true; else if (e != SSL_ERROR_WANT_READ) fail("reading"); break; } }
        if (hs && !failed) while (!acts.empty() && !dead) { auto& a = acts.front(); if (a.when && !a.when(*this)) break; auto f = std::move(a.run); acts.pop_front(); if (f) f(*this); }
        flush(); if (failed) finish(GONE);
        ERR_clear_error(); return total != t0 || fed != f0 || acts.size() != a0;
    }
    void fail(char const* w) { failed = true; char b[200]; ERR_error_string_n(ERR_peek_last_error(), b, sizeof b); err = std::string(w) + ": " + b; }
};
inline std::shared_ptr<Peer> attach(sim::Conn& c, SSL_CTX* ctx, bool server) { auto p = std::make_shared<Peer>(ctx, server); c.react = [p](sim::Conn& k) { return p->step(k); }; return p; }
inline SSL_CTX* peerCtx(bool server, int ver, Cert const* cert) { SSL_CTX* c = SSL_CTX_new(server ? TLS_server_method() : TLS_client_method()); SSL_CTX_set_min_proto_version(c, ver); SSL_CTX_set_max_proto_version(c, ver); if (cert) { SSL_CTX_use_certificate(c, cert->x); SSL_CTX_use_PrivateKey(c, cert->k); } return c; }
} // namespace vp
