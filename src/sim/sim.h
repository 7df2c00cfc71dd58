// Controlled execution of the real gateway: libc-boundary interposition (via ld --wrap),
// serialised seeded scheduler, virtual time, fake UDP/TCP.
#pragma once
#include <stdint.h>
#include <string>
#include <vector>
#include <deque>
#include <functional>

typedef std::vector<uint8_t> Bytes;

struct Rng {
    uint64_t s;
    explicit Rng(uint64_t seed = 1) : s(seed * 0x9E3779B97F4A7C15ull + 0x1234567) { next(); next(); }
    uint64_t next() { uint64_t z = (s += 0x9E3779B97F4A7C15ull); z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull; z = (z ^ (z >> 27)) * 0x94D049BB133111EBull; return z ^ (z >> 31); }
    uint32_t below(uint32_t n) { return n ? (uint32_t)((next() >> 16) % n) : 0; }
    int range(int a, int b) { return a + (int)below((uint32_t)(b - a + 1)); }
    bool chance(int pct) { return (int)below(100) < pct; }
    template <class T> const T& pick(const std::vector<T>& v) { return v[below((uint32_t)v.size())]; }
};

struct NetAddr { uint32_t ip = 0; uint16_t port = 0; // host order
    bool operator==(const NetAddr& o) const { return ip == o.ip && port == o.port; }
    bool operator<(const NetAddr& o) const { return ip < o.ip || (ip == o.ip && port < o.port); } };
std::string addrStr(const NetAddr&);

namespace tls { struct Peer; }
namespace sim {
std::string netText(const std::string& line); // a line of clients.conf in the notation of the sensor network built
enum class Idle { Injected, Advance, Finish };
// ---- what the driver implements
struct Driver {
    virtual ~Driver() {}
    virtual Idle onIdle() = 0;                       // nothing can run without new input or time
    virtual void onStep() {}                         // at scheduling points when async injection is enabled
    virtual void onSnOut(const NetAddr& to, const Bytes& data, int fromSock) = 0; // datagram sent by the gateway
    virtual int  onConnect(int connId, const char* host, const char* port) = 0;   // 0 accept, else errno
    virtual void onTcpOut(int connId, const Bytes& data) = 0;
    virtual void onTlsError(int connId, const std::string& msg) {} // what the gateway sent is not TLS, or the gateway refused
    virtual void onTcpClose(int connId) = 0;         // closed by the gateway
    virtual void onMainReturn(int rc) = 0;           // gateway main returned
    virtual void onFatal(const char* kind, const std::string& msg) = 0; // deadlock, livelock ...
};
void setDriver(Driver*);
void start(uint64_t seed);                 // the calling (main) thread becomes managed
void setSchedPolicy(int preemptPct, int segMode, int stepPct); // chance of switching at a sync point; short-read mode
void setDrift(int permille, int maxUs);   // time passes while threads run: chance per step, at most
void setStarve(int pct, int period);      // threads chosen anew every so many steps hardly run while others can
Rng& rng();
int64_t nowUs();
void setWake(int64_t t);                   // the driver wants to act at this virtual time
void setNowUs(int64_t);
void injectDatagram(const NetAddr& from, const Bytes& data, bool multicast);
void brokerSend(int connId, const Bytes& data);
void brokerSendSeg(int connId, const Bytes& data, const std::vector<int>& segs); // readable sizes one after another
void brokerClose(int connId, bool reset);
void setTls(int connId, tls::Peer*); tls::Peer* getTls(int connId); // in onConnect: the broker speaks TLS on it
bool connOpen(int connId);                 // gateway side still open
size_t connPending(int connId);            // bytes not yet read by the gateway
size_t pendingDatagrams();
size_t pendingTcp();                       // unread bytes (or unread EOF) on connections the gateway still has open
uint64_t scheduleHash();
uint64_t steps();
uint64_t switches();
int openSockets();                         // sockets the gateway holds
int aliveThreads();                        // besides the main thread
int blockedOnMutex();                      // threads blocked in pthread_mutex_lock
std::string threadDump();
extern thread_local int inDriver;
struct DriverScope { DriverScope() { inDriver++; } ~DriverScope() { inDriver--; } };
int64_t liveBytes();                       // heap bytes held by the gateway (allocated outside the driver)
}
