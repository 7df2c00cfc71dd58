#define OPENSSL_SUPPRESS_DEPRECATED
#include "tls.h"
#include <openssl/ssl.h>
#include <openssl/err.h>
#include <openssl/evp.h>
#include <openssl/pem.h>
#include <openssl/rand.h>
#include <openssl/x509v3.h>
#include <string.h>
#include <stdio.h>
#include <unistd.h>
#include <signal.h>
#include <errno.h>
#include <sys/socket.h>
namespace tls {
static EVP_PKEY *caKey, *ca2Key, *srvKey, *cliKey; static X509 *ca, *ca2, *srvs[2][NCERT], **srv = srvs[0], *cli;
static const char* names[] = {"valid", "wildcard", "other host", "unknown CA", "self-signed", "expired", "not yet valid", "no name", "name with NUL", "wildcard of another domain", "bare wildcard", "prefix of the name", "suffix of the name"};
const char* certName(int c) { return names[c]; }
bool valid(int c) { return c == GOOD || (c == WILDCARD && srv == srvs[0]); }
void useHost(const std::string& h) { srv = srvs[h.find('.') == std::string::npos]; }
static EVP_PKEY* key() { return EVP_PKEY_Q_keygen(nullptr, nullptr, "ED25519"); }
static X509* cert(const std::string* cn, EVP_PKEY* k, X509* issuer, EVP_PKEY* ik, long from, long to, bool isCa, const char* san = nullptr) {
    X509* x = X509_new(); X509_set_version(x, 2); static long serial = 1; ASN1_INTEGER_set(X509_get_serialNumber(x), serial++);
    X509_gmtime_adj(X509_getm_notBefore(x), from); X509_gmtime_adj(X509_getm_notAfter(x), to);
    X509_NAME* n = X509_get_subject_name(x); X509_NAME_add_entry_by_txt(n, "O", MBSTRING_ASC, (const unsigned char*)"test", -1, -1, 0);
    if (cn) X509_NAME_add_entry_by_NID(n, NID_commonName, V_ASN1_UTF8STRING, (unsigned char*)cn->data(), (int)cn->size(), -1, 0);
    X509_set_issuer_name(x, issuer ? X509_get_subject_name(issuer) : n); X509_set_pubkey(x, k);
    X509V3_CTX v; X509V3_set_ctx(&v, issuer ? issuer : x, x, nullptr, nullptr, 0);
    auto ext = [&](int nid, const char* s) { X509_EXTENSION* e = X509V3_EXT_conf_nid(nullptr, &v, nid, s); if (e) { X509_add_ext(x, e, -1); X509_EXTENSION_free(e); } };
    ext(NID_basic_constraints, isCa ? "critical,CA:TRUE" : "CA:FALSE"); if (san) ext(NID_subject_alt_name, san);
    X509_sign(x, ik, nullptr); return x;
}
static void certs(const std::string& host);
void init() {
    caKey = key(); ca2Key = key(); srvKey = key(); cliKey = key();
    std::string can = "Test CA", ca2n = "Another CA"; long day = 86400;
    ca = cert(&can, caKey, nullptr, caKey, -day, 3650 * day, true); ca2 = cert(&ca2n, ca2Key, nullptr, ca2Key, -day, 3650 * day, true);
    std::string cn = "gateway"; cli = cert(&cn, cliKey, ca, caKey, -day, 3650 * day, false);
    srv = srvs[1]; certs("broker"); srv = srvs[0]; certs("broker.test");
}
static void certs(const std::string& host) {
    long day = 86400; std::string dom = host.substr(host.find('.') + 1), wild = "*." + dom, other = "mallory." + dom, nul = host; nul += '\0'; nul += ".mallory.org"; std::string deep = "*.example.org", bare = "*", pre = host.substr(0, host.size() - 1), suf = host.substr(1);
    auto mk = [&](const std::string* cn, const char* san) { return cert(cn, srvKey, ca, caKey, -day, 3650 * day, false, san); };
    srv[GOOD] = mk(&host, ("DNS:" + host).c_str()); srv[WILDCARD] = mk(&wild, ("DNS:" + wild).c_str()); srv[OTHER_HOST] = mk(&other, ("DNS:" + other).c_str());
    srv[OTHER_CA] = cert(&host, srvKey, ca2, ca2Key, -day, 3650 * day, false, ("DNS:" + host).c_str()); srv[SELF_SIGNED] = cert(&host, srvKey, nullptr, srvKey, -day, 3650 * day, false, ("DNS:" + host).c_str());
    srv[EXPIRED] = cert(&host, srvKey, ca, caKey, -20 * day, -day, false, ("DNS:" + host).c_str()); srv[NOT_YET] = cert(&host, srvKey, ca, caKey, 10 * day, 20 * day, false, ("DNS:" + host).c_str());
    srv[NO_NAME] = mk(nullptr, nullptr); srv[NUL_NAME] = mk(&nul, nullptr); srv[DEEP_WILDCARD] = mk(&deep, ("DNS:" + deep).c_str()); srv[BARE_WILDCARD] = mk(&bare, ("DNS:" + bare).c_str());
    srv[NAME_PREFIX] = mk(&pre, ("DNS:" + pre).c_str()); srv[NAME_SUFFIX] = mk(&suf, ("DNS:" + suf).c_str());
}
static Rng* prng;
static int rb(unsigned char* b, int n) { for (int i = 0; i < n; i++) b[i] = (unsigned char)prng->next(); return 1; }
static int rs() { return 1; }
static void rseed(const void*, int) {}
static int rsd(const void*, int) { return 1; }
static int radd(const void*, int, double) { return 1; }
static void rclean() {}
void seed(uint64_t s) { prng = new Rng(s); static RAND_METHOD m = {rsd, rb, rclean, radd, rb, rs}; RAND_set_rand_method(&m); }
void files(const std::string& d, bool otherCa) {
    auto w = [&](const char* n, std::function<void(FILE*)> f) { FILE* p = fopen((d + "/" + n).c_str(), "w"); if (p) { f(p); fclose(p); } };
    w("ca.pem", [&](FILE* f) { PEM_write_X509(f, otherCa ? ca2 : ca); }); w("client.pem", [](FILE* f) { PEM_write_X509(f, cli); }); w("clientkey.pem", [](FILE* f) { PEM_write_PrivateKey(f, cliKey, nullptr, nullptr, 0, nullptr, nullptr); });
}
static SSL_CTX* ctxs[2]; static int anyCert(int, X509_STORE_CTX*) { return 1; }
Peer::Peer(const Opts& o) {
    SSL_CTX*& c = ctxs[!valid(o.cert)]; // an impostor does not have the session keys of the broker
    if (!c) { c = SSL_CTX_new(TLS_server_method()); SSL_CTX_set_session_id_context(c, (const unsigned char*)"b", 1); }
    SSL* s = SSL_new(c); SSL_use_certificate(s, srv[o.cert]); SSL_use_PrivateKey(s, srvKey);
    if (o.version == 12) SSL_set_max_proto_version(s, TLS1_2_VERSION); else if (o.version == 13) SSL_set_min_proto_version(s, TLS1_3_VERSION);
    if (!o.tickets) { SSL_set_options(s, SSL_OP_NO_TICKET); SSL_set_num_tickets(s, 0); }
    asked = o.askCert; if (o.askCert) SSL_set_verify(s, SSL_VERIFY_PEER, anyCert);
    BIO *r = BIO_new(BIO_s_mem()), *w = BIO_new(BIO_s_mem()); BIO_set_mem_eof_return(r, -1); SSL_set_bio(s, r, w); SSL_set_accept_state(s);
    ssl = s; rb = r; wb = w;
}
static Bytes drain(void* wb) { Bytes b; char t[4096]; int n; while ((n = BIO_read((BIO*)wb, t, sizeof t)) > 0) b.insert(b.end(), t, t + n); return b; }
Bytes Peer::in(const uint8_t* d, size_t n, Bytes& plain) {
    SSL* s = (SSL*)ssl; ERR_clear_error(); BIO_write((BIO*)rb, d, (int)n); int r = 1;
    if (!up && !dead) { r = SSL_accept(s); if (r == 1) { up = true; version = SSL_version(s); X509* p = SSL_get1_peer_certificate(s); hadCert = p != nullptr; itsCert = p && X509_cmp(p, cli) == 0; X509_free(p); resumed = SSL_session_reused(s); } }
    if (up && !dead) { char t[4096]; while ((r = SSL_read(s, t, sizeof t)) > 0) plain.insert(plain.end(), t, t + r); }
    if (r <= 0 && !dead) { int e = SSL_get_error(s, r); if (e == SSL_ERROR_ZERO_RETURN) peerClosed = true; else if (e != SSL_ERROR_WANT_READ && e != SSL_ERROR_WANT_WRITE) { dead = true; char t[200] = "?"; ERR_error_string_n(ERR_get_error(), t, sizeof t); error = t; } }
    ERR_clear_error(); return drain(wb);
}
Bytes Peer::out(const uint8_t* d, size_t n) { if (!up || dead) return Bytes(); ERR_clear_error(); while (n) { int r = SSL_write((SSL*)ssl, d, (int)n); if (r <= 0) break; d += r; n -= r; } return drain(wb); }
Bytes Peer::keyUpdate() { if (!up || dead || version != TLS1_3_VERSION) return Bytes(); SSL_key_update((SSL*)ssl, SSL_KEY_UPDATE_NOT_REQUESTED); SSL_do_handshake((SSL*)ssl); return drain(wb); }
Bytes Peer::notify() { if (!up || dead) return Bytes(); SSL_shutdown((SSL*)ssl); return drain(wb); }
}
// ---------------------------------------------------------------- the gateway's end: a BIO over the simulated socket
extern "C" {
ssize_t __wrap_send(int, const void*, size_t, int); ssize_t __wrap_recv(int, void*, size_t, int); int __real_SSL_set_fd(SSL*, int); BIO* __real_BIO_new_socket(int, int);
static int bwrite(BIO* b, const char* d, int n) {
    int fd = (int)(intptr_t)BIO_get_data(b); BIO_clear_retry_flags(b); ssize_t r = __wrap_send(fd, d, n, MSG_PROXY /* as write(2) does */);
    if (r < 0 && errno == EPIPE) { raise(SIGPIPE); errno = EPIPE; } // no MSG_NOSIGNAL here
    if (r < 0 && (errno == EAGAIN || errno == EINTR)) BIO_set_retry_write(b);
    return (int)r;
}
static int bread(BIO* b, char* d, int n) {
    int fd = (int)(intptr_t)BIO_get_data(b); BIO_clear_retry_flags(b); BIO_clear_flags(b, BIO_FLAGS_IN_EOF); ssize_t r = __wrap_recv(fd, d, n, 0);
    if (r < 0 && (errno == EAGAIN || errno == EINTR)) BIO_set_retry_read(b); else if (r == 0) BIO_set_flags(b, BIO_FLAGS_IN_EOF);
    return (int)r;
}
static long bctrl(BIO* b, int cmd, long n, void* p) {
    switch (cmd) { case BIO_CTRL_FLUSH: case BIO_CTRL_DUP: return 1; case BIO_CTRL_EOF: return BIO_test_flags(b, BIO_FLAGS_IN_EOF) != 0; case BIO_C_GET_FD: if (p) *(int*)p = (int)(intptr_t)BIO_get_data(b); return (long)(intptr_t)BIO_get_data(b); }
    return 0;
}
static int bputs(BIO* b, const char* s) { return bwrite(b, s, (int)strlen(s)); }
static int bcreate(BIO* b) { BIO_set_init(b, 1); return 1; }
static BIO* simBio(int fd) {
    static BIO_METHOD* m; if (!m) { m = BIO_meth_new(BIO_get_new_index() | BIO_TYPE_SOURCE_SINK | BIO_TYPE_DESCRIPTOR, "simulated socket"); BIO_meth_set_write(m, bwrite); BIO_meth_set_read(m, bread); BIO_meth_set_ctrl(m, bctrl); BIO_meth_set_puts(m, bputs); BIO_meth_set_create(m, bcreate); }
    BIO* b = BIO_new(m); BIO_set_data(b, (void*)(intptr_t)fd); return b;
}
int __wrap_SSL_set_fd(SSL* s, int fd) { sim::DriverScope ds; BIO* b = simBio(fd); SSL_set_bio(s, b, b); return 1; }
BIO* __wrap_BIO_new_socket(int fd, int) { sim::DriverScope ds; return simBio(fd); }
}
