// The broker's end of a TLS connection, and a certificate authority made for the run. The gateway's end is the real
// OpenSSL of the gateway, over a BIO that moves octets through the simulated socket.
#pragma once
#include "sim.h"
namespace tls {
enum Cert { GOOD, WILDCARD, OTHER_HOST, OTHER_CA, SELF_SIGNED, EXPIRED, NOT_YET, NO_NAME, NUL_NAME, DEEP_WILDCARD, BARE_WILDCARD, NAME_PREFIX, NAME_SUFFIX, NCERT };
const char* certName(int c);
bool valid(int c);                                   // for the host in use
void init();                                         // keys and certificates, before the first case forks
void useHost(const std::string& host);               // broker.test or broker
void seed(uint64_t s);                               // random numbers of OpenSSL follow from the case
void files(const std::string& dir, bool otherCa);    // writes ca.pem, client.pem, clientkey.pem
struct Opts { int cert = GOOD; int version = 0; /* 12, 13, 0: any */ bool tickets = true, askCert = false; };
struct Peer {
    void *ssl = nullptr, *rb = nullptr, *wb = nullptr; bool up = false, dead = false, peerClosed = false, asked = false, hadCert = false, itsCert = false, resumed = false; std::string error; int version = 0; Bytes hold;
    explicit Peer(const Opts&);
    Bytes in(const uint8_t* d, size_t n, Bytes& plain);   // octets from the gateway; returns what is sent back
    Bytes out(const uint8_t* d, size_t n);                // one record
    Bytes keyUpdate();
    Bytes notify();                                       // close_notify
};
}
