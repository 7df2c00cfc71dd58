#include "sim.h"
#include "tls.h"
#include <arpa/inet.h>
#include <errno.h>
#include <fcntl.h>
#include <netdb.h>
#include <netinet/in.h>
#include <poll.h>
#include <pthread.h>
#include <semaphore.h>
#include <stdarg.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/select.h>
#include <sys/shm.h>
#include <sys/socket.h>
#include <sys/time.h>
#include <time.h>
#include <unistd.h>
#include <map>
#include <set>
#include <unordered_map>

extern "C" {
int __real_pthread_create(pthread_t*, const pthread_attr_t*, void* (*)(void*), void*);
int __real_pthread_join(pthread_t, void**);
int __real_pthread_mutex_lock(pthread_mutex_t*);
int __real_pthread_mutex_unlock(pthread_mutex_t*);
int __real_pthread_mutex_trylock(pthread_mutex_t*);
int __real_sem_init(sem_t*, int, unsigned);
int __real_sem_wait(sem_t*);
int __real_sem_post(sem_t*);
int __real_sem_timedwait(sem_t*, const struct timespec*);
int __real_socket(int, int, int);
int __real_bind(int, const struct sockaddr*, socklen_t);
int __real_setsockopt(int, int, int, const void*, socklen_t);
int __real_poll(struct pollfd*, nfds_t, int);
ssize_t __real_recvfrom(int, void*, size_t, int, struct sockaddr*, socklen_t*);
ssize_t __real_sendto(int, const void*, size_t, int, const struct sockaddr*, socklen_t);
ssize_t __real_send(int, const void*, size_t, int);
ssize_t __real_recv(int, void*, size_t, int);
int __real_connect(int, const struct sockaddr*, socklen_t);
int __real_select(int, fd_set*, fd_set*, fd_set*, struct timeval*);
int __real_close(int);
int __real_open(const char*, int, ...);
int __real_gettimeofday(struct timeval*, void*);
int __real_clock_gettime(clockid_t, struct timespec*);
unsigned __real_sleep(unsigned);
int __real_usleep(useconds_t);
}

std::string addrStr(const NetAddr& a) { char b[40]; snprintf(b, sizeof b, "%u.%u.%u.%u:%u", a.ip >> 24, (a.ip >> 16) & 255, (a.ip >> 8) & 255, a.ip & 255, a.port); return b; }

namespace sim {
thread_local int inDriver = 0;
static thread_local int selfId = -1;   // managed thread index

enum Kind { RUN, MUTEX, SEM, SEMT, POLL, SELECT, SLEEP, JOIN, RECV, DEAD };
static const char* kindName[] = {"run", "mutex", "sem", "semtimed", "poll", "select", "sleep", "join", "recv", "dead"};
struct Thr {
    pthread_t real{};
    pthread_cond_t cv = PTHREAD_COND_INITIALIZER;
    Kind kind = RUN;
    void* obj = nullptr;
    int64_t deadline = -1;
    int fd = -1, joinT = -1, nfds = 0;
    int id = 0;
    std::vector<int> fds;
    bool timedout = false;
    void* (*fn)(void*) = nullptr; void* arg = nullptr;
};
static auto& thr = *new std::vector<Thr*>;
static pthread_mutex_t big = PTHREAD_MUTEX_INITIALIZER;
static int cur = -1;
static bool active = false;
static Driver* drv = nullptr;
static Rng R(1);
static int driftPm = 0, driftUs = 0;
void setDrift(int permille, int maxUs) { driftPm = permille; driftUs = maxUs; }
static int starvePct = 0, starvePeriod = 0; static uint32_t starveMask = 0; static uint64_t starveNext = 0;
void setStarve(int pct, int period) { starvePct = pct; starvePeriod = period; starveNext = 0; starveMask = 0; }
static int preemptPct = 30, segMode = 0, stepPct = 0;
static int64_t vnow = 1700000000ll * 1000000;
static uint64_t nsteps = 0, nswitch = 0, shash = 1469598103934665603ull;
static uint64_t stepsSinceProgress = 0;
static bool finished = false;

static std::unordered_map<void*, int>& owners() { static auto* m = new std::unordered_map<void*, int>; return *m; }
static std::unordered_map<void*, int>& sems() { static auto* m = new std::unordered_map<void*, int>; return *m; }

struct Dgram { NetAddr from; Bytes data; };
struct Sock { int kind; // 0 udp, 1 tcp
    bool open = true; int connId = -1; uint16_t port = 0; bool nonblock = false; };
struct Conn { tls::Peer* tls = nullptr; bool late = false; int fd = -1; bool gwOpen = false, brokerClosed = false, reset = false, eofRead = false; Bytes in; size_t pos = 0; std::deque<int> segs; };
// never destroyed: the gateway's static objects close their sockets at exit
static auto& socks = *new std::map<int, Sock>;
static auto& conns = *new std::vector<Conn>;
static auto& udpSocks = *new std::vector<int>;
struct Dq { std::deque<Dgram> q[2]; };
static auto& dq = (new Dq)->q;
static const int FD0 = 100;

Rng& rng() { return R; }
int64_t nowUs() { return vnow; }
static int64_t drvWake = -1;
void setWake(int64_t t) { drvWake = t; }
void setNowUs(int64_t t) { vnow = t; }
uint64_t scheduleHash() { return shash; }
uint64_t steps() { return nsteps; }
uint64_t switches() { return nswitch; }
void setDriver(Driver* d) { drv = d; }
void setSchedPolicy(int p, int s, int st) { preemptPct = p; segMode = s; stepPct = st; }

static bool fdReadable(int fd) {
    auto it = socks.find(fd);
    if (it == socks.end() || !it->second.open) return false;
    Sock& s = it->second;
    if (s.kind == 0) { for (size_t i = 0; i < udpSocks.size() && i < 2; i++) if (udpSocks[i] == fd) return !dq[i].empty(); return false; }
    if (s.connId < 0) return false;
    Conn& c = conns[s.connId];
    return c.pos < c.in.size() || c.brokerClosed || c.reset;
}
static bool ready(int i) {
    Thr& t = *thr[i];
    switch (t.kind) {
    case RUN: return true;
    case DEAD: return false;
    case MUTEX: return owners().find(t.obj) == owners().end();
    case SEM: return sems()[t.obj] > 0;
    case SEMT: if (sems()[t.obj] > 0) return true; if (vnow >= t.deadline) { return true; } return false;
    case POLL: case SELECT:
        for (int fd : t.fds) if (fdReadable(fd)) return true;
        return t.deadline >= 0 && vnow >= t.deadline;
    case SLEEP: return vnow >= t.deadline;
    case JOIN: return thr[t.joinT]->kind == DEAD;
    case RECV: { if (fdReadable(t.fd)) return true; auto it = socks.find(t.fd); return it == socks.end() || !it->second.open; }
    }
    return false;
}
std::string threadDump() {
    std::string s; char b[128];
    for (size_t i = 0; i < thr.size(); i++) { snprintf(b, sizeof b, "T%zu:%s%s ", i, kindName[thr[i]->kind], thr[i]->deadline >= 0 ? "(timed)" : ""); s += b; }
    return s;
}
int openSockets() { int n = 0; for (auto& s : socks) n += s.second.open; return n; }
int aliveThreads() { int n = 0; for (auto t : thr) if (t->kind != DEAD && t->id) n++; return n; }
int blockedOnMutex() { int n = 0; for (auto t : thr) if (t->kind == MUTEX) n++; return n; }

static bool tlsFlushAll();
// Called with token, under `big`. Picks the next thread; blocks until self may run again.
static void reschedule() {
    struct Errno { int e = errno; ~Errno() { errno = e; } } keepErrno; // the calls that get here do not touch it
    int self = selfId;
    int next = -1;
    nsteps++;
    if (driftPm && (int)R.below(1000) < driftPm) vnow += 1 + R.below((uint32_t)driftUs); // the processors are busy
    if (++stepsSinceProgress > 3000000) { DriverScope ds; drv->onFatal("livelock", threadDump()); }
    while (true) {
        if (stepPct && !finished && (int)R.below(1000) < stepPct) { DriverScope ds; drv->onStep(); }
        std::vector<int> r;
        bool selfReady = false;
        for (int i = 0; i < (int)thr.size(); i++) if (ready(i)) { r.push_back(i); if (i == self) selfReady = true; }
        if (!r.empty()) {
            if (starvePct) { // some threads hardly get to run for a while
                if (sim::steps() >= starveNext) { starveMask = (uint32_t)R.next() & (uint32_t)R.next(); starveNext = sim::steps() + 1 + R.below((uint32_t)starvePeriod); }
                if ((int)R.below(100) < starvePct) { std::vector<int> q; for (int i : r) if (!(starveMask >> (i & 31) & 1)) q.push_back(i); if (!q.empty() && q.size() < r.size()) { r = q; if (selfReady && (starveMask >> (self & 31) & 1)) selfReady = false; } }
            }
            if (selfReady && (int)R.below(100) >= preemptPct) next = self;
            else next = r[R.below((uint32_t)r.size())];
            break;
        }
        // idle
        Idle a;
        { DriverScope ds; a = finished ? Idle::Advance : drv->onIdle(); }
        stepsSinceProgress = 0;
        if (a == Idle::Injected) continue;
        { DriverScope ds; if (tlsFlushAll()) continue; }
        if (a == Idle::Finish) { finished = true; }
        int64_t d = -1;
        for (auto t : thr) if (t->kind != DEAD && t->deadline >= 0 && (t->kind == SEMT || t->kind == POLL || t->kind == SELECT || t->kind == SLEEP) && (d < 0 || t->deadline < d)) d = t->deadline;
        if (drvWake > vnow && (d < 0 || drvWake < d)) d = drvWake;
        if (d < 0) { DriverScope ds; drv->onFatal("deadlock", threadDump()); _exit(99); }
        if (d > vnow) vnow = d;
    }
    Thr& n = *thr[next];
    n.kind = RUN; n.deadline = -1;
    if (next != self) {
        nswitch++;
        cur = next;
        pthread_cond_signal(&n.cv);
        if (thr[self]->kind != DEAD) while (cur != self) pthread_cond_wait(&thr[self]->cv, &big);
    }
    shash = (shash ^ (uint64_t)next) * 1099511628211ull;
}
struct Token { Token() { __real_pthread_mutex_lock(&big); } ~Token() { __real_pthread_mutex_unlock(&big); } };
static bool managed() { return active && selfId >= 0 && !inDriver; }
static void yieldPoint() { reschedule(); }

void start(uint64_t seed) {
    R = Rng(seed);
    Thr* t = new Thr; t->real = pthread_self(); thr.push_back(t);
    selfId = 0; cur = 0; active = true;
}
static void* tramp(void* p) {
    Thr* t = (Thr*)p;
    selfId = t->id;
    { Token k; while (cur != selfId) pthread_cond_wait(&t->cv, &big); }
    void* r = t->fn(t->arg);
    { Token k; t->kind = DEAD; reschedule(); }
    return r;
}

void injectDatagram(const NetAddr& from, const Bytes& d, bool mc) { dq[mc ? 1 : 0].push_back({from, d}); }
static void append(Conn& c, const Bytes& d) { c.in.insert(c.in.end(), d.begin(), d.end()); }
static void tlsFlush(Conn& c) { if (c.tls && !c.tls->hold.empty()) { Bytes h; h.swap(c.tls->hold); append(c, c.tls->out(h.data(), h.size())); } }
static bool tlsFlushAll() { bool any = false; for (auto& c : conns) if (c.tls && !c.tls->hold.empty()) { tlsFlush(c); any = true; } return any; }
void setTls(int id, tls::Peer* p) { conns[id].tls = p; }
tls::Peer* getTls(int id) { return conns[id].tls; }
void brokerSend(int id, const Bytes& d) {
    Conn& c = conns[id];
    if (!c.tls) { append(c, d); return; }
    if (R.below(40) == 0) { tlsFlush(c); append(c, c.tls->keyUpdate()); }
    c.tls->hold.insert(c.tls->hold.end(), d.begin(), d.end()); // several packets may share a record
    if (R.below(100) < 50) tlsFlush(c);
}
void brokerSendSeg(int id, const Bytes& d, const std::vector<int>& segs) { Conn& c = conns[id]; for (int s : segs) c.segs.push_back(s); c.in.insert(c.in.end(), d.begin(), d.end()); }
void brokerClose(int id, bool reset) { Conn& c = conns[id]; if (c.tls) { tlsFlush(c); if (!reset && R.below(2)) append(c, c.tls->notify()); } if (reset) { c.reset = true; } else c.brokerClosed = true; }
bool connOpen(int id) { return conns[id].gwOpen; }
size_t connPending(int id) { return conns[id].in.size() - conns[id].pos; }
size_t pendingDatagrams() { return dq[0].size() + dq[1].size(); }
size_t pendingTcp() { size_t n = 0; for (auto& c : conns) if (c.gwOpen) n += (c.in.size() - c.pos) + (c.tls ? c.tls->hold.size() : 0) + ((c.brokerClosed || c.reset) ? 1 : 0); return n; }

// ---------------- heap accounting
extern "C" size_t __sanitizer_get_allocated_size(const volatile void*) __attribute__((weak));
extern "C" int __sanitizer_install_malloc_and_free_hooks(void (*)(const volatile void*, size_t), void (*)(const volatile void*)) __attribute__((weak));
static int64_t live = 0; static bool hooksOn = false;
static void mh(const volatile void*, size_t n) { if (!inDriver && selfId >= 0) live += (int64_t)n; }
static void fh(const volatile void* p) { if (!inDriver && selfId >= 0 && p) live -= (int64_t)__sanitizer_get_allocated_size(p); }
int64_t liveBytes() { if (!hooksOn && __sanitizer_install_malloc_and_free_hooks) { __sanitizer_install_malloc_and_free_hooks(mh, fh); hooksOn = true; } return live; }
} // namespace sim
using namespace sim;

extern "C" {
// ---------------- threads
int __wrap_pthread_create(pthread_t* out, const pthread_attr_t* a, void* (*fn)(void*), void* arg) {
    if (!managed()) return __real_pthread_create(out, a, fn, arg);
    Token k;
    Thr* t; { DriverScope ds; t = new Thr; t->fn = fn; t->arg = arg; t->id = (int)thr.size(); thr.push_back(t); }
    int rc = __real_pthread_create(&t->real, a, tramp, t);
    if (out) *out = t->real;
    yieldPoint();
    return rc;
}
int __wrap_pthread_join(pthread_t th, void** rv) {
    if (!managed()) return __real_pthread_join(th, rv);
    {
        Token k;
        for (size_t i = 0; i < thr.size(); i++) if (pthread_equal(thr[i]->real, th)) { Thr& me = *thr[selfId]; me.kind = JOIN; me.joinT = (int)i; reschedule(); }
    }
    return __real_pthread_join(th, rv);
}
int __wrap_pthread_mutex_lock(pthread_mutex_t* m) {
    if (!managed()) return active ? 0 : __real_pthread_mutex_lock(m);
    Token k;
    yieldPoint();
    if (owners().count(m)) { Thr& me = *thr[selfId]; me.kind = MUTEX; me.obj = m; reschedule(); }
    { DriverScope ds; owners()[m] = selfId; }
    return 0;
}
int __wrap_pthread_mutex_trylock(pthread_mutex_t* m) {
    if (!managed()) return active ? 0 : __real_pthread_mutex_trylock(m);
    Token k;
    yieldPoint();
    if (owners().count(m)) return EBUSY;
    { DriverScope ds; owners()[m] = selfId; }
    return 0;
}
int __wrap_pthread_mutex_unlock(pthread_mutex_t* m) {
    if (!managed()) return active ? 0 : __real_pthread_mutex_unlock(m);
    Token k;
    { DriverScope ds; owners().erase(m); }
    yieldPoint();
    return 0;
}
int __wrap_sem_init(sem_t* s, int, unsigned v) { DriverScope ds; sems()[s] = (int)v; return 0; }
sem_t* __wrap_sem_open(const char*, int, ...) { DriverScope ds; sem_t* s = (sem_t*)calloc(1, sizeof(sem_t)); sems()[s] = 0; return s; }
int __wrap_sem_close(sem_t*) { return 0; }
int __wrap_sem_unlink(const char*) { return 0; }
int __wrap_sem_destroy(sem_t*) { return 0; }
int __wrap_sem_post(sem_t* s) {
    if (!managed()) { DriverScope ds; sems()[s]++; return 0; }
    Token k;
    { DriverScope ds; sems()[s]++; }
    yieldPoint();
    return 0;
}
int __wrap_sem_wait(sem_t* s) {
    if (!managed()) { return 0; }
    Token k;
    Thr& me = *thr[selfId]; me.kind = SEM; me.obj = s;
    { DriverScope ds; sems()[s]; }
    reschedule();
    sems()[s]--;
    return 0;
}
int __wrap_sem_timedwait(sem_t* s, const struct timespec* ts) {
    if (!managed()) { errno = ETIMEDOUT; return -1; }
    if (ts->tv_nsec < 0 || ts->tv_nsec >= 1000000000) { errno = EINVAL; return -1; }
    Token k;
    Thr& me = *thr[selfId]; me.kind = SEMT; me.obj = s; me.deadline = ts->tv_sec * 1000000ll + ts->tv_nsec / 1000;
    { DriverScope ds; sems()[s]; }
    reschedule();
    if (sems()[s] > 0) { sems()[s]--; return 0; }
    errno = ETIMEDOUT;
    return -1;
}
// ---------------- time
int __wrap_gettimeofday(struct timeval* tv, void* tz) { if (!active) return __real_gettimeofday(tv, tz); tv->tv_sec = vnow / 1000000; tv->tv_usec = vnow % 1000000; return 0; }
int __wrap_clock_gettime(clockid_t c, struct timespec* ts) { if (!active) return __real_clock_gettime(c, ts); ts->tv_sec = vnow / 1000000; ts->tv_nsec = (vnow % 1000000) * 1000; return 0; }
time_t __real_time(time_t*);
time_t __wrap_time(time_t* t) { if (!active) return __real_time(t); time_t v = vnow / 1000000; if (t) *t = v; return v; }
static void vsleep(int64_t us) { Token k; Thr& me = *thr[selfId]; me.kind = SLEEP; me.deadline = vnow + us; reschedule(); }
unsigned __wrap_sleep(unsigned s) { if (!managed()) return __real_sleep(s); vsleep(s * 1000000ll); return 0; }
int __wrap_usleep(useconds_t u) { if (!managed()) return __real_usleep(u); vsleep(u); return 0; }
int __real_nanosleep(const struct timespec*, struct timespec*);
int __wrap_nanosleep(const struct timespec* a, struct timespec* b) { if (!managed()) return __real_nanosleep(a, b); vsleep(a->tv_sec * 1000000ll + a->tv_nsec / 1000); return 0; }
// ---------------- sockets
int __wrap_socket(int dom, int type, int proto) {
    if (!managed()) return __real_socket(dom, type, proto);
    Token k; DriverScope ds;
    int fd = FD0; while (socks.count(fd)) fd++;
    Sock s; s.kind = (type & 0xf) == SOCK_DGRAM ? 0 : 1;
    socks[fd] = s;
    if (s.kind == 0) udpSocks.push_back(fd);
    return fd;
}
#ifdef VERIF_V6
// every 32-bit address of the scenarios stands for one IPv6 address, its bytes spread over the 16 octets
static const uint8_t v6base[16] = {0xfd, 0x12, 0, 0x34, 0, 0, 0, 0, 0, 0, 0x99, 0, 0, 0, 0, 0x01}; static const int v6at[4] = {2, 6, 9, 14};
static const uint8_t v6mcast[16] = {0xff, 0x1e, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 1};
static socklen_t putAddr(struct sockaddr* a, const NetAddr& n) { sockaddr_in6 s; memset(&s, 0, sizeof s); s.sin6_family = AF_INET6; s.sin6_port = htons(n.port); memcpy(&s.sin6_addr, v6base, 16); for (int i = 0; i < 4; i++) ((uint8_t*)&s.sin6_addr)[v6at[i]] = (uint8_t)(n.ip >> (24 - 8 * i)); memcpy(a, &s, sizeof s); return sizeof s; }
static bool getAddr(const struct sockaddr* a, socklen_t l, NetAddr& n) { if (l < sizeof(sockaddr_in6) || a->sa_family != AF_INET6) return false; const sockaddr_in6* s = (const sockaddr_in6*)a; const uint8_t* b = (const uint8_t*)&s->sin6_addr; n.port = ntohs(s->sin6_port); n.ip = 0; if (!memcmp(b, v6mcast, 16)) { n.ip = 225u << 24 | 1 << 16 | 1 << 8 | 1; return true; } uint8_t t[16]; memcpy(t, b, 16); for (int i = 0; i < 4; i++) { n.ip = n.ip << 8 | t[v6at[i]]; t[v6at[i]] = 0; } if (memcmp(t, v6base, 16)) n.ip = 0xffffff00u | b[15]; return true; } // an address nobody has: shown as 255.255.255.x
enum { ADDRLEN = sizeof(sockaddr_in6) };
extern "C++" std::string sim::netText(const std::string& l) {
    for (size_t i = 0; i < l.size(); i++) {
        unsigned a[4]; int port, n = 0; if (i && (isdigit(l[i - 1]) || l[i - 1] == '.')) continue;
        if (sscanf(l.c_str() + i, "%u.%u.%u.%u:%d%n", a, a + 1, a + 2, a + 3, &port, &n) < 5 || !n) continue;
        NetAddr x; x.ip = a[0] << 24 | a[1] << 16 | a[2] << 8 | a[3]; x.port = (uint16_t)port; sockaddr_in6 s; putAddr((struct sockaddr*)&s, x); const uint8_t* b = (const uint8_t*)&s.sin6_addr; char t[80] = "";
        if ((a[3] + port) % 3 == 0) { for (int k = 0; k < 16; k += 2) sprintf(t + strlen(t), "%s%04X", k ? ":" : "", b[k] << 8 | b[k + 1]); } else inet_ntop(AF_INET6, b, t, sizeof t);
        return l.substr(0, i) + "[" + t + "]:" + std::to_string(port) + l.substr(i + n);
    }
    return l;
}
#else
static socklen_t putAddr(struct sockaddr* a, const NetAddr& n) { sockaddr_in s; memset(&s, 0, sizeof s); s.sin_family = AF_INET; s.sin_port = htons(n.port); s.sin_addr.s_addr = htonl(n.ip); memcpy(a, &s, sizeof s); return sizeof s; }
static bool getAddr(const struct sockaddr* a, socklen_t l, NetAddr& n) { if (l < sizeof(sockaddr_in)) return false; const sockaddr_in* s = (const sockaddr_in*)a; n.ip = ntohl(s->sin_addr.s_addr); n.port = ntohs(s->sin_port); return true; }
enum { ADDRLEN = sizeof(sockaddr_in) };
extern "C++" std::string sim::netText(const std::string& l) { return l; }
#endif
int __wrap_bind(int fd, const struct sockaddr* a, socklen_t) { auto it = socks.find(fd); if (it == socks.end()) { errno = EBADF; return -1; } it->second.port = ntohs(((const sockaddr_in*)a)->sin_port); return 0; }
int __wrap_listen(int, int) { return 0; }
int __wrap_accept(int, struct sockaddr*, socklen_t*) { errno = EINVAL; return -1; }
int __wrap_setsockopt(int fd, int, int, const void*, socklen_t) { if (!socks.count(fd)) { errno = EBADF; return -1; } return 0; }
int __wrap_fcntl(int fd, int cmd, ...) {
    va_list ap; va_start(ap, cmd); long a = va_arg(ap, long); va_end(ap);
    auto it = socks.find(fd); if (it == socks.end()) return 0;
    if (cmd == F_SETFL) it->second.nonblock = a & O_NONBLOCK;
    return cmd == F_GETFL ? O_RDWR | (it->second.nonblock ? O_NONBLOCK : 0) : 0;
}
int __wrap_poll(struct pollfd* p, nfds_t n, int timeout) {
    if (!managed()) return __real_poll(p, n, timeout);
    Token k;
    Thr& me = *thr[selfId];
    { DriverScope ds; me.fds.clear(); for (nfds_t i = 0; i < n; i++) me.fds.push_back(p[i].fd); }
    me.kind = POLL; me.deadline = timeout < 0 ? -1 : vnow + timeout * 1000ll;
    reschedule();
    int rc = 0;
    for (nfds_t i = 0; i < n; i++) { p[i].revents = fdReadable(p[i].fd) ? POLLIN : 0; if (p[i].revents) rc++; }
    return rc;
}
ssize_t __wrap_recvfrom(int fd, void* buf, size_t len, int, struct sockaddr* a, socklen_t* al) {
    Token k; DriverScope ds;
    for (int i = 0; i < 2 && i < (int)udpSocks.size(); i++) if (udpSocks[i] == fd) {
        if (dq[i].empty()) { errno = EAGAIN; return -1; }
        Dgram d = dq[i].front(); dq[i].pop_front();
        size_t n = d.data.size() < len ? d.data.size() : len;
        if (n) memcpy(buf, d.data.data(), n);
        if (a && al && *al >= ADDRLEN) *al = putAddr(a, d.from);
        stepsSinceProgress = 0;
        return (ssize_t)n;
    }
    errno = EBADF; return -1;
}
ssize_t __wrap_sendto(int fd, const void* buf, size_t len, int, const struct sockaddr* a, socklen_t al) {
    Token k; DriverScope ds;
    if (!socks.count(fd)) { errno = EBADF; return -1; }
    NetAddr to; if (!a || !getAddr(a, al, to) || to.port == 0) { errno = EINVAL; return -1; }
    if (len > 65507) { errno = EMSGSIZE; return -1; }
    Bytes d((const uint8_t*)buf, (const uint8_t*)buf + len);
    drv->onSnOut(to, d, (int)(fd == (udpSocks.size() > 1 ? udpSocks[1] : -1)));
    return (ssize_t)len;
}
// The destination is remembered from getaddrinfo
static auto& gaHost = *new std::string; static auto& gaPort = *new std::string;
int __wrap_getaddrinfo(const char* h, const char* s, const struct addrinfo*, struct addrinfo** out) {
    DriverScope ds;
    gaHost = h ? h : ""; gaPort = s ? s : "";
    struct addrinfo* ai = (struct addrinfo*)calloc(1, sizeof(struct addrinfo) + sizeof(sockaddr_in));
    ai->ai_family = AF_INET; ai->ai_socktype = SOCK_STREAM; ai->ai_addr = (struct sockaddr*)(ai + 1); ai->ai_addrlen = sizeof(sockaddr_in);
    *out = ai; return 0;
}
void __wrap_freeaddrinfo(struct addrinfo* ai) { DriverScope ds; free(ai); }
int __wrap_connect(int fd, const struct sockaddr*, socklen_t) {
    Token k; DriverScope ds;
    auto it = socks.find(fd); if (it == socks.end()) { errno = EBADF; return -1; }
    Conn c; c.fd = fd; c.gwOpen = true; conns.push_back(c); int id = (int)conns.size() - 1;
    int e = drv->onConnect(id, gaHost.c_str(), gaPort.c_str());
    if (e) { conns[id].gwOpen = false; errno = e; return -1; }
    it->second.connId = id;
    return 0;
}
ssize_t __wrap_send(int fd, const void* buf, size_t len, int) {
    Token k;
    yieldPoint();
    DriverScope ds;
    auto it = socks.find(fd); if (it == socks.end() || it->second.connId < 0) { errno = EBADF; return -1; }
    int id = it->second.connId;
    if (conns[id].reset) { Conn& c = conns[id]; c.reset = false; c.brokerClosed = c.eofRead = true; c.pos = c.in.size(); errno = ECONNRESET; return -1; }
    if (conns[id].brokerClosed && (conns[id].tls ? conns[id].late : conns[id].eofRead)) { errno = EPIPE; return -1; }
    if (conns[id].tls) {
        if (conns[id].brokerClosed) { conns[id].late = true; return (ssize_t)len; } // answered by a reset: the next one fails
        Bytes plain; Bytes back = conns[id].tls->in((const uint8_t*)buf, len, plain);
        append(conns[id], back); stepsSinceProgress = 0;
        if (conns[id].tls->dead) { drv->onTlsError(id, conns[id].tls->error); if (id < (int)conns.size()) conns[id].brokerClosed = true; }
        if (!plain.empty()) drv->onTcpOut(id, plain);
        return (ssize_t)len;
    }
    drv->onTcpOut(id, Bytes((const uint8_t*)buf, (const uint8_t*)buf + len));
    return (ssize_t)len;
}
ssize_t __wrap_recv(int fd, void* buf, size_t len, int flags) {
    Token k;
    if (R.below(4) == 0) yieldPoint(); // between reading the descriptor and using it
    struct After { ~After() { if (R.below(4) == 0) yieldPoint(); } } after; // and between using it and acting on it
    auto it = socks.find(fd); if (it == socks.end() || it->second.connId < 0) { errno = EBADF; return -1; }
    int id = it->second.connId;
    if (len == 0) return 0;
    if (!fdReadable(fd) && ((flags & MSG_DONTWAIT) || it->second.nonblock)) { errno = EAGAIN; return -1; }
    if (!fdReadable(fd)) { Thr& me = *thr[selfId]; me.kind = RECV; me.fd = fd; reschedule(); }
    DriverScope ds;
    it = socks.find(fd); if (it == socks.end() || it->second.connId != id) { errno = EBADF; return -1; }
    Conn& c = conns[id];
    if (c.reset) { errno = ECONNRESET; c.reset = false; c.brokerClosed = c.eofRead = true; c.pos = c.in.size(); return -1; } // reported once, then end of file
    size_t av = c.in.size() - c.pos;
    if (av == 0) { c.eofRead = true; return 0; }
    size_t n = av < len ? av : len;
    if (!c.segs.empty()) {
        size_t lim = (size_t)c.segs.front();
        if (n >= lim) { n = lim; c.segs.pop_front(); } else c.segs.front() -= (int)n;
    } else if (segMode == 1) { size_t lim = 1 + R.below(8); if (n > lim) n = lim; }
    else if (segMode == 2) n = 1;
    memcpy(buf, c.in.data() + c.pos, n);
    c.pos += n;
    stepsSinceProgress = 0;
    return (ssize_t)n;
}
int __wrap_select(int nfds, fd_set* r, fd_set* w, fd_set* e, struct timeval* tv) {
    if (!managed()) return __real_select(nfds, r, w, e, tv);
    Token k;
    Thr& me = *thr[selfId];
    {
        DriverScope ds;
        me.fds.clear();
        if (r) for (int i = 0; i < nfds; i++) if (FD_ISSET(i, r)) { if (!socks.count(i)) { errno = EBADF; return -1; } me.fds.push_back(i); }
    }
    me.kind = SELECT; me.deadline = tv ? vnow + tv->tv_sec * 1000000ll + tv->tv_usec : -1;
    reschedule();
    int rc = 0;
    for (int fd : me.fds) { if (fdReadable(fd)) rc++; else FD_CLR(fd, r); }
    if (tv) { tv->tv_sec = 0; tv->tv_usec = 0; }
    return rc;
}
int __wrap_close(int fd) {
    if (fd < FD0 || !active) return __real_close(fd);
    Token k; DriverScope ds;
    auto it = socks.find(fd); if (it == socks.end()) { if (fd >= FD0 && fd < 1024) { errno = EBADF; return -1; } return __real_close(fd); }
    int id = it->second.connId;
    socks.erase(it);
    for (auto& u : udpSocks) if (u == fd) u = -1;
    if (id >= 0) { conns[id].gwOpen = false; drv->onTcpClose(id); }
    return 0;
}
// ---------------- files and IPC
int __wrap_open(const char* path, int flags, ...) {
    va_list ap; va_start(ap, flags); int mode = (flags & O_CREAT) ? va_arg(ap, int) : 0; va_end(ap);
    if (!strncmp(path, "/sys/", 5) || !strncmp(path, "/dev/", 5)) { errno = ENOENT; return -1; }
    return __real_open(path, flags, mode | 0600);
}
key_t __wrap_ftok(const char*, int) { return 42; }
static struct { void* p; size_t n; } shm_[8]; static int nshm = 0;
int __wrap_shmget(key_t, size_t n, int) { DriverScope ds; if (nshm >= 8) { errno = ENOSPC; return -1; } shm_[nshm].p = calloc(1, n); shm_[nshm].n = n; return ++nshm; }
void* __wrap_shmat(int id, const void*, int) { return shm_[id - 1].p; }
int __wrap_shmdt(const void*) { return 0; }
int __wrap_shmctl(int, int, struct shmid_ds*) { return 0; }
}
