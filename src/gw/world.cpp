// World implementation, fork server, main.
#include "world.h"
#include "../sim/tls.h"
#include <errno.h>
#include <fcntl.h>
#include <pthread.h>
#include <semaphore.h>
#include <signal.h>
#include <stdarg.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/mman.h>
#include <sys/prctl.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>
#include <algorithm>

extern "C" {
int __real_main(int, char**); // main of the gateway
int __real_pthread_create(pthread_t*, const pthread_attr_t*, void* (*)(void*), void*);
int __real_sem_init(sem_t*, int, unsigned);
int __real_sem_wait(sem_t*);
int __real_sem_post(sem_t*);
const char* __asan_default_options() { return "exitcode=66:abort_on_error=0:detect_leaks=0:detect_stack_use_after_return=1:allocator_may_return_null=1:handle_abort=1:handle_segv=1:max_allocation_size_mb=512:quarantine_size_mb=16:malloc_context_size=12:symbolize=1:strict_init_order=0"; }
const char* __ubsan_default_options() { return "print_stacktrace=1:halt_on_error=1:exitcode=66"; }
}
using sim::DriverScope;

enum { MAXCNT = 64, NSTATE = 1 << 16, NCOV = 1 << 16, TRACEMAX = 200000 };
struct Shared {
    int status; // 0 running, 1 pass, 2 fail, 3 fatal(sim)
    char tag[200]; char msg[4000];
    int nlines; uint32_t tlen; char trace[TRACEMAX];
    uint64_t schedHash, nsteps, nswitch, caseHash; int64_t events;
    struct { char name[40]; uint64_t n; } cnt[MAXCNT];
    uint64_t nst; uint64_t st[512]; // per case abstract states
    uint8_t cov[NCOV]; // accumulated edges
    uint64_t covSig; // of this case
};
static Shared* sh;

// ---------------- coverage (inline-8bit-counters of the gateway objects)
static uint8_t *covB[64], *covE[64]; static int ncov;
extern "C" void __sanitizer_cov_8bit_counters_init(uint8_t* b, uint8_t* e) { if (ncov && covB[ncov - 1] == b) return; if (ncov < 64) { covB[ncov] = b; covE[ncov++] = e; } }
extern "C" void __sanitizer_cov_pcs_init(const uintptr_t*, const uintptr_t*) {}
static size_t covTotal() { size_t n = 0; for (int i = 0; i < ncov; i++) n += covE[i] - covB[i]; return n; }
static void covFlush() {
    size_t k = 0; uint64_t h = 1469598103934665603ull;
    for (int i = 0; i < ncov; i++) for (uint8_t* p = covB[i]; p < covE[i]; p++, k++) if (*p) { sh->cov[k % NCOV] = 1; h = (h ^ k) * 1099511628211ull; h = (h ^ (*p > 8 ? 9 : *p > 3 ? 4 : *p)) * 1099511628211ull; }
    sh->covSig = h;
}
uint64_t fnv(const void* p, size_t n, uint64_t h) { const uint8_t* b = (const uint8_t*)p; for (size_t i = 0; i < n; i++) h = (h ^ b[i]) * 1099511628211ull; return h; }

// ---------------- scenario thread <-> gateway hand-over
static sem_t semScen, semSim;
static sim::Idle reply;
static World* W;
static const Scenario* S;
static int64_t waitUntil = -1; // virtual time the scenario waits for
static int mode = 0; // 0 settle, 1 advance, 2 fast, 3 wait for main

static void toSim(int m, int64_t until) { mode = m; waitUntil = until; __real_sem_post(&semSim); __real_sem_wait(&semScen); }
static int64_t lastActivity;

void World::settle() { lastActivity = sim::nowUs(); stuckInput = false; toSim(0, 0); }
void World::settleFast() { lastActivity = sim::nowUs(); stuckInput = false; toSim(2, 0); }
void World::advance(int64_t us) { toSim(1, sim::nowUs() + us); }
void World::sigint() { evCount++; note("SIGINT"); sigAt = sim::nowUs(); raise(SIGINT); }
void World::exitMain() { exiting = true; later.clear(); toSim(4, 0); abort(); }
void World::waitMain(int64_t us) { toSim(3, sim::nowUs() + us); }

static bool handed = false; static int64_t inputSince;
sim::Idle World::onIdle() {
    // decide whether the scenario gets control
    int64_t now = sim::nowUs();
    if (exiting) { if (now > sigAt + 60000000) fail("*", "the process does not end after main has returned: " + sim::threadDump()); return sim::Idle::Advance; }
    bool give = false;
    if (!handed) give = true;
    else {
        bool pend = sim::pendingDatagrams() || sim::pendingTcp() || !later.empty();
        if (!later.empty()) { if (now < pauseUntil) { sim::setWake(pauseUntil); return sim::Idle::Advance; } auto f = later.front(); later.erase(later.begin()); f(); lastActivity = now; return sim::Idle::Injected; }
        switch (mode) {
        case 0: if (pend) { if (now - lastActivity > 40000000) { stuckInput = true; give = true; } } else if (now - lastActivity >= settleUs) give = true; break;
        case 1: if (now >= waitUntil) give = true; break;
        case 2: if (!pend) give = true; else if (now - lastActivity > 40000000) { stuckInput = true; give = true; } break;
        case 3: if (now >= waitUntil) give = true; break;
        }
    }
    if (!give) return sim::Idle::Advance;
    handed = true;
    __real_sem_post(&semScen); // let the scenario act
    __real_sem_wait(&semSim);
    return sim::Idle::Injected;
}
void World::pauseFor(int64_t us) { pauseUntil = sim::nowUs() + us; }
void World::onStep() { if (!later.empty() && sim::nowUs() >= pauseUntil) { auto f = later.front(); later.erase(later.begin()); f(); lastActivity = sim::nowUs(); } }
void World::onMainReturn(int rc) {
    mainReturned = true; mainRc = rc;
    while (!exiting) { __real_sem_post(&semScen); __real_sem_wait(&semSim); } // the scenario finishes the case
}
void World::onFatal(const char* kind, const std::string& msg) { fail("*", Str(kind) + ": " + msg); }

void World::note(const char* fmt, ...) {
    char b[700]; va_list ap; va_start(ap, fmt); vsnprintf(b, sizeof b, fmt, ap); va_end(ap);
    char t[760]; int64_t ms = (sim::nowUs() - 1700000000ll * 1000000) / 1000; int n = snprintf(t, sizeof t, "[%6lld.%03lld] %s\n", (long long)(ms / 1000), (long long)(ms % 1000), b);
    if (sh->tlen + n < TRACEMAX) { memcpy(sh->trace + sh->tlen, t, n); sh->tlen += n; sh->trace[sh->tlen] = 0; }
}
void World::count(const char* what, uint64_t n) { for (auto& c : sh->cnt) { if (!c.name[0]) { snprintf(c.name, sizeof c.name, "%s", what); } if (!strncmp(c.name, what, 39)) { c.n += n; return; } } }
void World::state(uint64_t h) { if (sh->nst < 512) sh->st[sh->nst++] = h; }
static void finish(int status, const Str& tag, const Str& msg) {
    sh->schedHash = sim::scheduleHash(); sh->nsteps = sim::steps(); sh->nswitch = sim::switches();
    covFlush();
    snprintf(sh->tag, sizeof sh->tag, "%s", tag.c_str()); snprintf(sh->msg, sizeof sh->msg, "%s", msg.c_str());
    sh->status = status;
    _exit(0);
}
void World::pass() { sh->events = evCount; finish(1, "", ""); abort(); }
void World::fail(const Str& t0, const Str& m) {
    Str t; std::set<Str> seen; for (size_t i = 0; i <= t0.size();) { size_t e = t0.find(',', i); if (e == Str::npos) e = t0.size(); Str x = t0.substr(i, e - i); if (!x.empty() && seen.insert(x).second) t += (t.empty() ? "" : ",") + x; i = e + 1; }
    note("VIOLATION[%s] %s", t.c_str(), m.c_str()); finish(2, t, m); abort(); }

void World::sendRaw(const NetAddr& from, const Bytes& b, bool mc) { evCount++; note("SN-> %s %s%s", addrStr(from).c_str(), mc ? "(mc) " : "", sn::show(b, 60).c_str()); sim::injectDatagram(from, b, mc); sh->caseHash = fnv(b.data(), b.size(), sh->caseHash); }
void World::sendSn(const NetAddr& from, const sn::Pkt& p) {
    evCount++; Bytes b = sn::enc(p); note("SN-> %s %s", addrStr(from).c_str(), sn::str(sn::dec(b)).c_str()); sh->caseHash = fnv(b.data(), b.size(), sh->caseHash);
    auto it = behind.find(from);
    if (it == behind.end()) sim::injectDatagram(from, b, false); else sim::injectDatagram(it->second.first, mk::encap(it->second.second, b, 1), false);
}
void World::putBehind(const NetAddr& v, const NetAddr& fwd, const Bytes& node) { behind[v] = {fwd, node}; virt[{fwd, node}] = v; fwdAddr.insert(fwd); }
void World::policy(int step) { sim::setSchedPolicy(preempt, segMode, step); }
World::ESn& World::expSn(const NetAddr& a, const sn::Pkt& p, int* cap, std::function<Str(const sn::Pkt&)> also) { ESn e; e.p = p; e.tag = tag; e.stream = stream; e.capId = cap; e.also = also; wantSn[a].push_back(e); return wantSn[a].back(); }
World::ESn& World::expPub(const NetAddr& a, const Str& topic, int mid, int qos, const Bytes& data, bool retain, bool dup) { ESn& e = expSn(a, mk::publish(0, -1, "", mid, qos, data, retain, dup)); e.byName = true; e.topic = topic; return e; }
World::EMq& World::expMq(int c, const mq::Pkt& p) { EMq e; e.p = p; e.tag = tag; e.stream = stream; wantMq[c].push_back(e); return wantMq[c].back(); }
void World::sendPiece(int c, const Bytes& b, bool boundary) {
    evCount++; note("BR-> c%d piece %s%s", c, sn::show(b, 30).c_str(), boundary ? " |" : ""); sim::brokerSend(c, b); sh->caseHash = fnv(b.data(), b.size(), sh->caseHash);
    if (boundary) { midPacket.erase(c); auto i = held.find(c); if (i != held.end()) { sim::brokerSend(c, i->second); held.erase(i); } } else midPacket.insert(c);
}
void World::sendMq(int c, const mq::Pkt& p) { evCount++; Bytes b = mq::enc(p); mq::Pkt q = p; q.ok = true; note("BR-> c%d %s", c, mq::str(q).c_str()); if (midPacket.count(c)) { sn::cat(held[c], b); return; } sim::brokerSend(c, b); sh->caseHash = fnv(b.data(), b.size(), sh->caseHash); }
void World::sendMqRaw(int c, const Bytes& b) { evCount++; note("BR-> c%d raw %s", c, sn::show(b, 60).c_str()); sim::brokerSend(c, b); sh->caseHash = fnv(b.data(), b.size(), sh->caseHash); }

void World::onSnOut(const NetAddr& to, const Bytes& d, int) {
    if (!(to == mcast && d.size() > 1 && d[1] == sn::ADVERTISE)) lastActivity = sim::nowUs();
    evCount++; SnOut o; o.t = sim::nowUs(); o.to = to; o.raw = d; o.p = sn::dec(d);
    if (fwdAddr.count(to)) {
        if (hostile && o.p.type != sn::ENCAP) { note("SN<- forwarder %s %s", addrStr(to).c_str(), sn::str(o.p).c_str()); return; }
        if (!o.p.ok || o.p.type != sn::ENCAP) fail("C17", "datagram to forwarder " + addrStr(to) + " is not an encapsulated packet: " + sn::str(o.p) + " raw " + sn::show(d, 40));
        auto it = virt.find({to, o.p.node});
        if (it == virt.end() && hostile) { note("SN<- forwarder %s %s", addrStr(to).c_str(), sn::str(o.p).c_str()); return; }
        if (it == virt.end()) fail("C17", "datagram to forwarder " + addrStr(to) + " carries the node id " + sn::show(o.p.node) + ", which no client has");
        if (o.p.ctrl & 0xFC) fail("C17", "datagram to forwarder " + addrStr(to) + " has reserved bits set in its control octet: " + sn::show(d, 40));
        o.to = it->second; o.raw = o.p.data; o.p = sn::dec(o.raw);
    }
    note("SN<- %s %s", addrStr(o.to).c_str(), sn::str(o.p).c_str());
    if (!o.p.ok && hostile && ignoreAddr.count(o.to)) return;
    if (!o.p.ok) fail(o.to == mcast ? Str("C24") : natTag(o.p) + "," + tag, "datagram to " + addrStr(o.to) + " is not a valid MQTT-SN packet: " + sn::str(o.p) + " raw " + sn::show(o.raw, 40));
    if (o.p.type == sn::ADVERTISE) {
        if (!(o.to == mcast)) fail("C24", "ADVERTISE sent to " + addrStr(o.to));
        if (o.p.gwId != cfg.gwId || o.p.duration != cfg.keepAlive) fail("C24", "ADVERTISE announces gateway " + std::to_string(o.p.gwId) + " with duration " + std::to_string(o.p.duration) + ", configured are " + std::to_string(cfg.gwId) + " and " + std::to_string(cfg.keepAlive));
        advert(true);
    }
    if (onlineSn) o.done = onlineSn(o);
    snLog.push_back(o);
}
// ADVERTISE at the configured interval; the check of the timers runs every two seconds
void World::advert(bool seen) {
    if (noAdvert) return;
    int64_t now = sim::nowUs(), ka = cfg.keepAlive * 1000000ll;
    if (lastAdv < 0) { lastAdv = now; return; }
    int64_t d = now - lastAdv;
    if (seen && d < ka - 1500000 && lastAdvSeen) fail("C24", "ADVERTISE after " + std::to_string(d / 1000) + " ms, the interval is " + std::to_string(cfg.keepAlive) + " s");
    if (d > ka + 4500000) fail("C24", "no ADVERTISE for " + std::to_string(d / 1000) + " ms, the interval is " + std::to_string(cfg.keepAlive) + " s");
    if (seen) { lastAdv = now; lastAdvSeen = true; count("advertise_checked"); }
}
int World::onConnect(int id, const char* host, const char* port) {
    lastActivity = sim::nowUs(); evCount++;
    BConn c; c.id = id; while ((int)conns.size() < id) { BConn d; d.id = (int)conns.size(); d.open = false; conns.push_back(d); }
    connectPort = port; int e = connectPolicy ? connectPolicy(id) : 0;
    bool rst = e < 0, bad = e >= 1000; int cert = bad && e < 2000 ? e - 1000 : 0; bool raw = e == 2000; bool sec = cfg.tls && cfg.securePort == port; if (rst || bad) e = 0; // the connection is opened but reset before anything can be sent on it
    c.open = e == 0; c.refused = e || rst || bad; c.badTls = bad; conns.push_back(c);
    note("BR c%d connect to %s:%s -> %s%s", id, host, port, e ? strerror(e) : rst ? "ok, then reset" : "ok", bad ? raw ? ", but does not speak TLS" : (Str(", certificate: ") + tls::certName(cert)).c_str() : "");
    if (sec && raw) { static const char* junk[] = {"HTTP/1.1 400 Bad Request\r\n\r\n", "\x20\x02\x00", "", "\x15\x03\x03"}; Str j = junk[r.below(4)]; sim::brokerSend(id, Bytes(j.begin(), j.end())); sim::brokerClose(id, r.chance(30)); }
    else if (sec) {
        tls::Opts o; o.cert = bad ? cert : r.chance(30) && tls::valid(tls::WILDCARD) ? tls::WILDCARD : tls::GOOD; o.version = r.chance(40) ? 12 : r.chance(50) ? 13 : 0; o.tickets = r.chance(70); o.askCert = r.chance(40);
        sim::setTls(id, new tls::Peer(o)); }
    if (rst) sim::brokerClose(id, true);
    if (cfg.host != host || (cfg.port != port && !sec)) fail("C13", Str("connects to ") + host + ":" + port + " instead of the configured broker");
    if (onOpen) onOpen(id);
    return e;
}
void World::onTlsError(int id, const std::string& m) { note("BR c%d TLS: %s", id, m.c_str()); if (!conns[id].badTls && !conns[id].refused && !exiting) fail("C31," + tag, "TLS connection " + std::to_string(id) + " with a broker that is who it should be: " + m); }
void World::onTcpOut(int id, const Bytes& d) {
    lastActivity = sim::nowUs(); evCount++;
    BConn& c = conns[id];
    if (c.badTls) { if (sim::getTls(id)) fail("C31", "data sent to a broker that is not the one configured: " + sn::show(d, 60)); return; }
    c.out.insert(c.out.end(), d.begin(), d.end());
    while (true) {
        size_t used; mq::Pkt p = mq::dec(c.out, c.parsed, used);
        if (!used) break;
        MqOut o; o.t = lastActivity; o.conn = id; o.p = p; o.raw.assign(c.out.begin() + c.parsed, c.out.begin() + c.parsed + used);
        c.parsed += used; c.npkts++;
        note("BR<- c%d %s", id, mq::str(p).c_str());
        if (!ignoreConn.count(id)) {
            if (hostile && c.npkts == 1 && !p.ok) { ignoreConn.insert(id); continue; }
            if (!p.ok) fail(p.type == mq::CONNECT ? "C13,C14" : (tagMq ? tagMq(o) : natTag(p)), "malformed MQTT packet on broker connection " + std::to_string(id) + ": " + mq::str(p) + " raw " + sn::show(o.raw, 60));
            if (c.npkts == 1 && p.type != mq::CONNECT) fail("C13,C18", "first packet on broker connection " + std::to_string(id) + " is not CONNECT: " + mq::str(p));
            if (c.npkts > 1 && p.type == mq::CONNECT) fail("C13,C12,C18", "second CONNECT on broker connection " + std::to_string(id) + ": " + mq::str(p));
            if (onlineMq) o.done = onlineMq(o);
        }
        if (ignoreConn.count(id) && onForeign) onForeign(o);
        mqLog.push_back(o);
    }
}
void World::onTcpClose(int id) { lastActivity = sim::nowUs(); conns[id].open = false; closedSeen.insert(id); note("BR c%d closed by gateway", id); }
Str natTag(const sn::Pkt& p) {
    switch (p.type) {
    case sn::PUBLISH: return "C09,C12"; case sn::PUBACK: case sn::PUBREC: case sn::PUBREL: case sn::PUBCOMP: case sn::SUBACK: case sn::UNSUBACK: return "C10";
    case sn::REGISTER: case sn::REGACK: return "C11"; case sn::CONNACK: case sn::DISCONNECT: return "C13"; case sn::WILLTOPICREQ: case sn::WILLMSGREQ: return "C14";
    case sn::PINGRESP: case sn::PINGREQ: return "C26"; case sn::GWINFO: case sn::ADVERTISE: return "C24"; }
    return "C05";
}
Str natTag(const mq::Pkt& p) {
    switch (p.type) {
    case mq::PUBLISH: return "C08,C12"; case mq::PUBACK: case mq::PUBREC: case mq::PUBREL: case mq::PUBCOMP: return "C10";
    case mq::SUBSCRIBE: case mq::UNSUBSCRIBE: return "C11"; case mq::PINGREQ: return "C26"; }
    return "C13";
}
bool sameSn(const sn::Pkt& w, const sn::Pkt& g) {
    if (!g.ok || w.type != g.type) return false;
    sn::Pkt a = w, b = g;
    if (a.topicId == -1) a.topicId = b.topicId;
    if (a.msgId == -1) a.msgId = b.msgId;
    if (a.rc == -1) a.rc = b.rc;
    if (a.qos == -1) a.qos = b.qos;
    if (a.duration == -2) a.duration = b.duration;
    a.ok = true; a.protocol = b.protocol;
    if (a.type == sn::PUBLISH && a.tit == 2) a.topicId = b.topicId;
    Bytes ea = sn::enc(a), eb = sn::enc(b);
    return ea == eb;
}
bool sameMq(const mq::Pkt& w, const mq::Pkt& g) {
    if (!g.ok || w.type != g.type) return false;
    switch (w.type) {
    case mq::CONNECT: return w.clientId == g.clientId && w.keepAlive == g.keepAlive && w.clean == g.clean && w.will == g.will && (!w.will || (w.willTopic == g.willTopic && w.willMsg == g.willMsg && w.willQos == g.willQos && w.willRetain == g.willRetain)) && w.hasUser == g.hasUser && w.hasPass == g.hasPass && w.user == g.user && w.pass == g.pass && g.proto == (w.level == 3 ? "MQIsdp" : "MQTT") && g.level == w.level;
    case mq::PUBLISH: return w.topic == g.topic && w.payload == g.payload && w.qos == g.qos && w.retain == g.retain && w.dup == g.dup && (w.qos == 0 || w.msgId == -1 || w.msgId == g.msgId);
    case mq::SUBSCRIBE: return w.topic == g.topic && w.qos == g.qos && (w.msgId == -1 || w.msgId == g.msgId);
    case mq::UNSUBSCRIBE: return w.topic == g.topic && (w.msgId == -1 || w.msgId == g.msgId);
    case mq::PINGREQ: case mq::DISCONNECT: return true;
    default: return w.msgId == -1 || w.msgId == g.msgId;
    }
}
static Str plus(const Str& a, const Str& b) { return a.empty() ? b : b.empty() ? a : a + "," + b; }
void World::check() { // all deviations of a settled state together name the properties that are broken
    Str tags, first; int nbad = 0; auto dev = [&](const Str& t, const Str& m) { tags = plus(tags, t); if (!nbad++) first = m; else note("also [%s] %s", t.c_str(), m.c_str()); };
    if (!mainReturned) advert(false);
    auto snMatch = [](ESn& e, SnOut& o) {
        if (e.byName) { sn::Pkt g = o.p; if (g.type != sn::PUBLISH || o.meaning != e.topic) return false; sn::Pkt t = e.p; t.tit = 0; g.tit = 0; t.topicId = 1; g.topicId = 1; g.name.clear(); return sameSn(t, g); }
        return sameSn(e.p, o.p);
    };
    auto snStr = [](ESn& e) { sn::Pkt t = e.p; t.ok = true; return sn::str(t) + (e.byName ? " topic=" + sn::show(sn::B(e.topic)) : Str()); };
    // sensor side
    for (; snChecked < snLog.size(); snChecked++) {
        SnOut& o = snLog[snChecked];
        if (o.done) continue;
        auto& wl = wantSn[o.to]; std::set<int> blocked; size_t k = wl.size(); ESn* sameType = nullptr;
        for (size_t i = 0; i < wl.size(); i++) {
            ESn& e = wl[i];
            if (!sameType && e.p.type == o.p.type) sameType = &e;
            if (blocked.count(e.stream)) continue;
            if (snMatch(e, o)) { k = i; break; }
            if (!e.optional) blocked.insert(e.stream);
        }
        Str what = sn::str(o.p) + (o.p.type == sn::PUBLISH ? " topic=" + (o.meaning.empty() ? "(unknown to the client)" : sn::show(sn::B(o.meaning))) : "");
        if (k == wl.size()) {
            for (auto& kv : wantSn) if (!(kv.first == o.to)) for (auto& e : kv.second) if (e.p.type == o.p.type && o.p.type == sn::PUBLISH && e.p.data == o.p.data && e.p.data.size() > 2) { dev(plus("C12", e.tag), "packet for " + addrStr(kv.first) + " was sent to " + addrStr(o.to) + ": " + what); break; }
            if (sameType) dev(plus(sameType->tag, tagSn ? tagSn(o) : Str()), "to " + addrStr(o.to) + " expected " + snStr(*sameType) + " but got " + what);
            else dev(tagSn ? tagSn(o) : natTag(o.p), "unexpected datagram to " + addrStr(o.to) + ": " + what);
            continue;
        }
        ESn e = wl[k];
        if (e.also) { Str m = e.also(o.p); if (!m.empty()) dev(e.tag, m + ": " + what); }
        if (e.capId) *e.capId = o.p.topicId;
        wl.erase(wl.begin() + k);
        if (e.last) for (auto& x : wl) if (!x.optional) dev(plus(e.tag, x.tag), "to " + addrStr(o.to) + " " + what + " came before " + snStr(x));
        count("sn_out_checked");
    }
    for (auto& kv : wantSn) for (auto& e : kv.second) if (!e.optional) dev(e.tag, "missing datagram to " + addrStr(kv.first) + ": " + snStr(e) + (stuckInput ? " (the gateway does not read its input any more)" : ""));
    wantSn.clear();
    // broker side
    for (; mqChecked < mqLog.size(); mqChecked++) {
        MqOut& o = mqLog[mqChecked];
        if (o.done || ignoreConn.count(o.conn)) continue;
        auto& wl = wantMq[o.conn]; std::set<int> blocked; size_t k = wl.size(); EMq* sameType = nullptr;
        for (size_t i = 0; i < wl.size(); i++) {
            EMq& e = wl[i];
            if (!sameType && e.p.type == o.p.type) sameType = &e;
            if (blocked.count(e.stream)) continue;
            if (sameMq(e.p, o.p)) { k = i; break; }
            if (!e.optional) blocked.insert(e.stream);
        }
        if (k == wl.size()) {
            for (auto& kv : wantMq) if (kv.first != o.conn) for (auto& e : kv.second) if (e.p.type == mq::PUBLISH && o.p.type == mq::PUBLISH && e.p.payload == o.p.payload && e.p.payload.size() > 2) { dev(plus("C12", e.tag), "packet meant for connection " + std::to_string(kv.first) + " appeared on connection " + std::to_string(o.conn) + ": " + mq::str(o.p)); break; }
            Str t = tagMq ? tagMq(o) : natTag(o.p);
            if (sameType) { mq::Pkt x = sameType->p; x.ok = true; dev(plus(sameType->tag, t), "on broker connection " + std::to_string(o.conn) + " expected " + mq::str(x) + " but got " + mq::str(o.p)); }
            else dev(t, "unexpected packet on broker connection " + std::to_string(o.conn) + ": " + mq::str(o.p));
            continue;
        }
        if (wl[k].capMid) *wl[k].capMid = o.p.msgId;
        wl.erase(wl.begin() + k);
        count("mq_out_checked");
    }
    for (auto& kv : wantMq) for (auto& e : kv.second) if (!e.optional && !ignoreConn.count(kv.first)) { mq::Pkt t = e.p; t.ok = true; dev(e.tag, "missing packet on broker connection " + std::to_string(kv.first) + ": " + mq::str(t) + (stuckInput ? " (the gateway does not read its input any more)" : "")); }
    wantMq.clear();
    for (auto& c : conns) if (!ignoreConn.count(c.id) && !c.refused) {
        if (c.open && c.parsed != c.out.size()) dev("C08,C13,C14," + tag, "incomplete MQTT packet left on broker connection " + std::to_string(c.id) + " (" + std::to_string(c.out.size() - c.parsed) + " bytes)");
        if (!c.npkts && !hostile) dev("C13", "broker connection " + std::to_string(c.id) + " was opened but nothing sent on it");
    }
    for (int c : closedSeen) if (!closedChecked.count(c)) { if (!ignoreConn.count(c) && !conns[c].refused && !wantClose.count(c) && !mayClose.count(c) && !(hostile && !conns[c].npkts)) dev("C13," + tag, "broker connection " + std::to_string(c) + " closed unexpectedly"); closedChecked.insert(c); }
    for (int c : wantClose) if (!closedSeen.count(c)) dev(wantCloseTag, "broker connection " + std::to_string(c) + " not closed");
    wantClose.clear();
    for (auto& x : extra) dev(x.first, x.second);
    extra.clear();
    if (nbad) fail(tags, first + (nbad > 1 ? " (and " + std::to_string(nbad - 1) + " more deviations)" : ""));
}

namespace mk {
sn::Pkt simple(int t) { sn::Pkt p; p.type = t; return p; }
sn::Pkt connect(const Str& id, int dur, bool clean, bool will) { sn::Pkt p = simple(sn::CONNECT); p.name = sn::B(id); p.duration = dur; p.clean = clean; p.will = will; return p; }
sn::Pkt publish(int tit, int tid, const Str& s, int mid, int qos, const Bytes& d, bool ret, bool dup) { sn::Pkt p = simple(sn::PUBLISH); p.tit = tit; p.topicId = tid; if (tit == 2) { p.name = sn::B(s); p.topicId = (uint8_t)s[0] << 8 | (uint8_t)s[1]; } p.msgId = mid; p.qos = qos; p.data = d; p.retain = ret; p.dup = dup; return p; }
sn::Pkt reg(int tid, int mid, const Str& n) { sn::Pkt p = simple(sn::REGISTER); p.topicId = tid; p.msgId = mid; p.name = sn::B(n); return p; }
sn::Pkt regack(int tid, int mid, int rc) { sn::Pkt p = simple(sn::REGACK); p.topicId = tid; p.msgId = mid; p.rc = rc; return p; }
sn::Pkt ack(int type, int mid, int tid, int rc) { sn::Pkt p = simple(type); p.msgId = mid; p.topicId = tid; p.rc = rc; return p; }
sn::Pkt sub(int mid, int qos, int tit, int tid, const Str& n) { sn::Pkt p = simple(sn::SUBSCRIBE); p.msgId = mid; p.qos = qos; p.tit = tit; p.topicId = tid; p.name = sn::B(n); return p; }
sn::Pkt unsub(int mid, int tit, int tid, const Str& n) { sn::Pkt p = sub(mid, 0, tit, tid, n); p.type = sn::UNSUBSCRIBE; return p; }
sn::Pkt disc(int d) { sn::Pkt p = simple(sn::DISCONNECT); p.duration = d; return p; }
sn::Pkt rcp(int t, int rc) { sn::Pkt p = simple(t); p.rc = rc; return p; }
sn::Pkt pingreq(const Str& id) { sn::Pkt p = simple(sn::PINGREQ); p.name = sn::B(id); return p; }
sn::Pkt willtopic(const Str& t, int q, bool r) { sn::Pkt p = simple(sn::WILLTOPIC); p.name = sn::B(t); p.qos = q; p.retain = r; return p; }
sn::Pkt willmsg(const Bytes& m) { sn::Pkt p = simple(sn::WILLMSG); p.data = m; return p; }
mq::Pkt mpub(const Str& t, int q, int mid, const Bytes& d, bool r, bool dup) { mq::Pkt p; p.type = mq::PUBLISH; p.topic = sn::B(t); p.qos = q; p.msgId = mid; p.payload = d; p.retain = r; p.dup = dup; return p; }
mq::Pkt mack(int t, int mid, int rc) { mq::Pkt p; p.type = t; p.msgId = mid; p.rc = rc; return p; }
mq::Pkt msub(const Str& t, int q, int mid) { mq::Pkt p; p.type = mq::SUBSCRIBE; p.topic = sn::B(t); p.qos = q; p.msgId = mid; return p; }
mq::Pkt munsub(const Str& t, int mid) { mq::Pkt p = msub(t, 0, mid); p.type = mq::UNSUBSCRIBE; return p; }
mq::Pkt mconnect(const Str& id, int ka, bool clean) { mq::Pkt p; p.type = mq::CONNECT; p.clientId = sn::B(id); p.keepAlive = ka; p.clean = clean; p.level = 4; return p; }
Bytes encap(const Bytes& node, const Bytes& inner, int ctrl) { Bytes b; b.push_back((uint8_t)(node.size() + 3)); b.push_back(0xFE); b.push_back((uint8_t)ctrl); sn::cat(b, node); sn::cat(b, inner); return b; }
}
std::vector<Scenario>& scenarios() { static auto* v = new std::vector<Scenario>; return *v; }

// ---------------- one case
#ifdef VERIF_V6
#define SCENARIO_WORD "scenario6"
#else
#define SCENARIO_WORD "scenario"
#endif
static void writeFile(const Str& p, const Str& s) { FILE* f = fopen(p.c_str(), "w"); if (!f) { perror(p.c_str()); _exit(98); } fwrite(s.data(), 1, s.size(), f); fclose(f); }
static void* scenThread(void*) {
    sim::inDriver = 1;
    __real_sem_wait(&semScen);
    S->run(*W);
    W->pass();
}
static Str scratch;
static bool altRun = false;
static void childRun(const Scenario& s, uint64_t seed, bool verbose) {
    sim::inDriver = 1;
    S = &s;
    struct rlimit rl = {0, 0}; setrlimit(RLIMIT_CORE, &rl);
    if (chdir(scratch.c_str())) _exit(98);
    if (!verbose) { int fd = open("/dev/null", O_WRONLY); dup2(fd, 1); }
    { int fd = open((scratch + "/stderr").c_str(), O_CREAT | O_TRUNC | O_WRONLY, 0600); dup2(fd, 2); close(fd); }
    W = new World; World& w = *W; w.r = Rng(seed); w.prop = s.prop; w.tag = s.prop; w.alt = altRun;
    Rng sr(seed ^ 0xabcdef); 
    if (s.cfg) s.cfg(w.cfg, w.r);
    Cfg& c = w.cfg;
    Str shm = sr.below(100) < 5 ? "ShearedMemory=YES\n" : "ShearedMemory=NO\n"; // where the gateway logs to
    Str t = "GatewayID=" + std::to_string(c.gwId) + "\nGatewayName=" + c.gwName + "\nMaxNumberOfClients=" + std::to_string(c.maxClients) + "\nKeepAlive=" + std::to_string(c.keepAlive) + "\n";
    if (c.mqttVersion) t += "MQTTVersion=" + std::to_string(c.mqttVersion) + "\n";
    if (!c.login.empty()) t += "LoginID=" + c.login + "\n";
    if (!c.password.empty()) t += "Password=" + c.password + "\n";
    t += "BrokerName=" + c.host + "\nBrokerPortNo=" + c.port + "\nBrokerSecurePortNo=" + c.securePort + "\n";
    if (c.tls) { tls::seed(seed ^ 0x7715); tls::useHost(c.host); tls::files(scratch, c.noCa == 2); if (c.noCa != 1) t += "RootCAfile=" + scratch + "/ca.pem\nRootCApath=" + scratch + "\n"; if (c.clientCert) t += "CertKey=" + scratch + "/client.pem\nPrivateKey=" + scratch + "/clientkey.pem\n"; }
    auto yn = [](bool b) { return b ? "YES\n" : "NO\n"; };
    t += Str("AggregatingGateway=") + yn(c.aggr) + "QoS-1=" + yn(c.qosm1) + "Forwarder=" + yn(c.fwd) + "PredefinedTopic=" + yn(c.predef) + "ClientAuthentication=" + yn(c.auth);
    if (c.clientsFile || c.auth || c.fwd || c.qosm1 || c.aggr) { t += "ClientsList=" + scratch + "/clients.conf\n"; Str x; for (auto& l : c.clients) x += sim::netText(l) + "\n"; writeFile(scratch + "/clients.conf", x); }
    if (c.predef) { t += "PredefinedTopicList=" + scratch + "/topics.conf\n"; Str x; for (auto& l : c.topics) x += l + "\n"; writeFile(scratch + "/topics.conf", x); }
#ifdef VERIF_V6
    t += "GatewayIPv6PortNo=10000\nMulticastIPv6PortNo=1883\nMulticastIPv6=ff1e::1\nMulticastHops=1\n" + shm + c.extra;
#else
    t += "GatewayPortNo=10000\nMulticastPortNo=1883\nMulticastIP=225.1.1.1\nMulticastTTL=1\n" + shm + c.extra;
#endif
    writeFile(scratch + "/gateway.conf", t);
    w.mcast.ip = 225u << 24 | 1 << 16 | 1 << 8 | 1; w.mcast.port = 1883;
    __real_sem_init(&semScen, 0, 0); __real_sem_init(&semSim, 0, 0);
    int pol = sr.below(4); // schedule style of this case
    sim::setDriver(&w);
    w.preempt = pol == 0 ? 0 : pol == 1 ? 10 : pol == 2 ? 50 : 90; w.segMode = sr.below(4) == 0 ? 1 : 0;
    if (sr.below(10) < 3) sim::setStarve(sr.below(2) ? 90 : 99, sr.below(2) ? 50 : 1000);
    w.policy(0); w.lastAdv = sim::nowUs();
    pthread_t th; __real_pthread_create(&th, nullptr, scenThread, nullptr);
    sim::liveBytes();
    sim::start(seed ^ 0x5555);
    Str cf = scratch + "/gateway.conf";
    char a0[] = "MQTT-SNGateway", a1[] = "-f"; char* argv[] = {a0, a1, (char*)cf.c_str(), nullptr};
    for (int i = 0; i < ncov; i++) memset(covB[i], 0, covE[i] - covB[i]);
    sim::inDriver = 0;
    int rc = __real_main(3, argv);
    sim::inDriver = 1;
    w.onMainReturn(rc);
    sim::inDriver = 0;
    exit(0); // the destructors of the gateway's static objects run, see atEnd()
}
__attribute__((destructor)) static void atEnd() { if (!W || !W->exiting) return; sim::inDriver = 1; W->pass(); } // after all of them
static uint64_t mix(uint64_t a, uint64_t b) { Rng r(a * 1000003 + b); return r.next(); }
static double now() { struct timespec ts; clock_gettime(CLOCK_MONOTONIC, &ts); return ts.tv_sec + ts.tv_nsec / 1e9; }
static Str slurp(const Str& p, size_t max) { Str s; FILE* f = fopen(p.c_str(), "r"); if (!f) return s; char b[4096]; size_t n; while (s.size() < max && (n = fread(b, 1, sizeof b, f)) > 0) s.append(b, n); fclose(f); return s; }
static Str jesc(const Str& s) { Str o; char t[8]; for (unsigned char c : s) { if (c == '"' || c == '\\') { o += '\\'; o += c; } else if (c == '\n') o += "\\n"; else if (c < 32 || c > 126) { snprintf(t, sizeof t, "\\u%04x", c); o += t; } else o += c; } return o; }

// outcome of a case: 0 pass, 1 violation, 2 crash/sanitizer, 3 wall-clock hang
static int oneCase(const Scenario& s, uint64_t seed, bool verbose, int wall, Str& tag, Str& msg, Str& err) {
    sh->status = 0; sh->tlen = 0; sh->trace[0] = 0; sh->nst = 0; sh->caseHash = 1469598103934665603ull; sh->covSig = 0; sh->events = 0;
    fflush(stdout);
    pid_t pid = fork();
    if (pid == 0) { prctl(PR_SET_PDEATHSIG, SIGKILL); childRun(s, seed, verbose); _exit(97); }
    double t0 = now(); int st; bool killed = false;
    while (true) {
        pid_t r = waitpid(pid, &st, WNOHANG);
        if (r == pid) break;
        if (now() - t0 > wall && !killed) { kill(pid, SIGKILL); killed = true; }
        struct timespec ts = {0, 200000}; nanosleep(&ts, nullptr);
    }
    err = "";
    if (killed) { tag = "*"; msg = "hang: no progress within " + std::to_string(wall) + " s of wall-clock time"; return 3; }
    if (sh->status == 1) return 0;
    if (sh->status == 2) { tag = sh->tag; msg = sh->msg; return 1; }
    err = slurp(scratch + "/stderr", 20000);
    tag = "*";
    char b[64];
    if (WIFSIGNALED(st)) snprintf(b, sizeof b, "crash: signal %d", WTERMSIG(st)); else snprintf(b, sizeof b, "crash: exit status %d", WEXITSTATUS(st));
    msg = b;
    size_t p = err.find("ERROR: AddressSanitizer"); if (p == Str::npos) p = err.find("runtime error:");
    if (p != Str::npos) { size_t e = err.find('\n', p); msg += "; " + err.substr(p, e - p); }
    // frames inside the gateway
    int nf = 0; size_t q = 0;
    while (nf < 4 && (q = err.find("    #", q)) != Str::npos) { size_t e = err.find('\n', q); Str l = err.substr(q, e - q); q = e; size_t i = l.find(" in "); if (i != Str::npos && l.find("MQTTSN") != Str::npos) { msg += " <- " + l.substr(i + 4, 120); nf++; } }
    return 2;
}
static bool hasTag(const Str& tags, const Str& p) { return ("," + tags + ",").find("," + p + ",") != Str::npos || tags == "*"; }
extern "C" int __wrap_main(int argc, char** argv) {
    Str scen, out, replayDir = "."; uint64_t seed = 1; long from = 0, cases = 10, stride = 1; double maxSec = 1e9; bool verbose = false; long maxViol = 5; uint64_t caseSeed = 0; bool have = false; bool stopOnForeign = false; Str known;
    for (int i = 1; i < argc; i++) {
        Str a = argv[i]; auto nx = [&] { return Str(argv[++i]); };
        if (a == "--scenario") scen = nx(); else if (a == "--seed") seed = strtoull(nx().c_str(), 0, 10); else if (a == "--cases") cases = atol(nx().c_str()); else if (a == "--from") from = atol(nx().c_str()); else if (a == "--stride") stride = atol(nx().c_str());
        else if (a == "--max-sec") maxSec = atof(nx().c_str()); else if (a == "--out") out = nx(); else if (a == "--replay-dir") replayDir = nx(); else if (a == "--verbose") verbose = true; else if (a == "--alt") altRun = true; else if (a == "--case-seed") { caseSeed = strtoull(nx().c_str(), 0, 10); have = true; } else if (a == "--max-viol") maxViol = atol(nx().c_str());
        else if (a == "--list") { for (auto& s : scenarios()) printf("%s %s %s\n", s.name, s.prop, s.what); return 0; }
    }
    const Scenario* s = nullptr; for (auto& x : scenarios()) if (scen == x.name) s = &x;
    if (!s) { fprintf(stderr, "unknown scenario %s\n", scen.c_str()); return 2; }
    sh = (Shared*)mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    if (!strncmp(s->name, "tls", 3)) tls::init();
    char tmpl[] = "/tmp/gwsim.XXXXXX"; if (!mkdtemp(tmpl)) { perror("mkdtemp"); return 2; } scratch = tmpl;
    if (have) {
        Str tag, msg, err; int rc = oneCase(*s, caseSeed, verbose, 60, tag, msg, err);
        printf("%s", sh->trace); if (!err.empty()) printf("%s\n", err.c_str());
        printf("RESULT %s tag=%s %s\n", rc == 0 ? "pass" : "VIOLATION", tag.c_str(), msg.c_str());
        if (system(("rm -rf " + scratch).c_str())) {}
        return rc ? 1 : 0;
    }
    double t0 = now(); long done = 0, nviol = 0, foreign = 0; uint64_t totSteps = 0, totSw = 0, totEv = 0;
    std::set<uint64_t> sched, inputs, covs, states; Str viol; std::vector<Str> samples; std::set<Str> seenMsg; 
    std::map<Str, long> dup;
    for (long i = from; i < cases; i += stride) {
        if (now() - t0 > maxSec) break;
        uint64_t cs = mix(seed * 7919 + fnv(scen.data(), scen.size()) % 1000003, i);
        Str tag, msg, err; int rc = oneCase(*s, cs, false, 20, tag, msg, err);
        if (rc == 3) { Str t2, m2, e2; rc = oneCase(*s, cs, false, 60, t2, m2, e2); if (rc != 3) { tag = t2; msg = m2; err = e2; } }
        if (rc == 1 && s->differential && hasTag(tag, s->prop)) {
            Shared* keep = new Shared(*sh); altRun = true; Str t2, m2, e2; int rc2 = oneCase(*s, cs, false, 60, t2, m2, e2); altRun = false; *sh = *keep; delete keep;
            if (rc2) { Str t; for (auto& x : std::vector<Str>{"C08", "C09", "C10", "C11", "C12", "C13", "C14", "C15", "C19", "C21", "C26"}) if (hasTag(t2, x)) t += (t.empty() ? "" : ",") + x; tag = t.empty() ? t2 : t; msg += " (also in the alternative run)"; }
        }
        done++; totSteps += sh->nsteps; totSw += sh->nswitch; totEv += sh->events; if (sched.size() < 200000) sched.insert(sh->schedHash); if (inputs.size() < 200000) inputs.insert(sh->caseHash); covs.insert(sh->covSig);
        for (uint64_t k = 0; k < sh->nst; k++) states.insert(sh->st[k]);
        if (samples.size() < 3 && rc == 0) { Str tr = sh->trace; if (tr.size() > 1500) tr = tr.substr(0, 1500) + "..."; samples.push_back("case " + std::to_string(cs) + ":\n" + tr); }
        if (rc) {
            Str key = tag + msg.substr(0, 60); dup[key]++;
            if (!hasTag(tag, s->prop)) foreign++;
            if (dup[key] <= 2) {
                Str f = replayDir + "/" + s->name + "-" + std::to_string(cs) + ".txt";
                FILE* fp = fopen(f.c_str(), "w"); if (fp) { fprintf(fp, SCENARIO_WORD " %s case-seed %llu\nproperty %s tag %s\n%s\n--- trace\n%s\n--- stderr\n%s\n", s->name, (unsigned long long)cs, s->prop, tag.c_str(), msg.c_str(), sh->trace, err.c_str()); fclose(fp); }
                viol += (viol.empty() ? "" : ",") + Str("{\"tag\":\"") + jesc(tag) + "\",\"msg\":\"" + jesc(msg) + "\",\"replay\":\"" + jesc(f) + "\",\"seed\":\"" + std::to_string(cs) + "\"}";
            }
            if (hasTag(tag, s->prop)) nviol++;
            if (nviol >= maxViol) break;
        }
    }
    size_t ce = 0; for (int i = 0; i < NCOV; i++) ce += sh->cov[i];
    Str j = "{\"scenario\":\"" + Str(s->name) + "\",\"cases\":" + std::to_string(done) + ",\"foreign\":" + std::to_string(foreign) + ",\"violating\":" + std::to_string(nviol) + ",\"steps\":" + std::to_string(totSteps) + ",\"switches\":" + std::to_string(totSw) + ",\"events\":" + std::to_string(totEv) + ",\"edges\":" + std::to_string(ce) + ",\"edges_total\":" + std::to_string(covTotal());
    auto arr = [&](const char* n, std::set<uint64_t>& st) { j += Str(",\"") + n + "\":["; bool f = true; for (auto v : st) { char b[24]; snprintf(b, sizeof b, "%s\"%llx\"", f ? "" : ",", (unsigned long long)v); j += b; f = false; } j += "]"; };
    arr("sched", sched); arr("inputs", inputs); arr("covs", covs); arr("states", states);
    j += ",\"counters\":{"; bool f = true; for (auto& c : sh->cnt) if (c.name[0]) { j += (f ? "" : ",") + Str("\"") + c.name + "\":" + std::to_string(c.n); f = false; } j += "}";
    j += ",\"samples\":["; for (size_t i = 0; i < samples.size(); i++) j += (i ? "," : "") + Str("\"") + jesc(samples[i]) + "\""; j += "],\"violations\":[" + viol + "]}\n";
    if (out.empty()) printf("%s", j.c_str()); else writeFile(out, j);
    if (system(("rm -rf " + scratch).c_str())) {}
    return 0;
}
